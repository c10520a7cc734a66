#include "quiet.hpp"
#include "src/mpact/model.cpp"
extern "C" {
void fl_i(um2::Vector<um2::Vector<Int>> const & ids, um2::Vector<Int> & v) { QUIET um2::mpact::flattenLattice(ids, v); }
}
