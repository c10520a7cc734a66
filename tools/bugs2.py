from mkbug import mk
mk('sum-odd-split', 'P12', [('include/um2/math/stats.hpp', 'return pairwiseSum(begin, begin + m) + pairwiseSum(begin + m, end);', 'return pairwiseSum(begin, begin + m) + pairwiseSum(begin + m, begin + 2 * m);')],
'more than 128 values and a range whose length becomes odd while halving', 'sum drops elements of ranges whose length is not 128 times a power of two',
'''#include <um2/math/stats.hpp>
int main() { static double x[131]; for (auto & v : x) v = 1; double s = um2::sum(x, x + 131); return s == 131 ? 0 : 1; }
''')
mk('median-pair', 'P12', [('include/um2/math/stats.hpp', 'return (*mid + *(mid - 1)) / 2;', 'return (*begin + *(end - 1)) / 2;')],
'an even number of values that is not symmetric about its centre', 'the median of an even number of values is replaced by the mid-range',
'''#include <um2/math/stats.hpp>
int main() { double x[4] = {0, 1, 2, 30}; return um2::median(x, x + 4) == 1.5 ? 0 : 1; }
''')
