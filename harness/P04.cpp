#include <um2/stdlib/string_view.hpp>
using namespace um2;
using SV = StringView;
using U = uint64_t;
// where a slice lies in the text a: position (-1: nowhere) and length
static void
put(char const * a, SV s, int64_t * o)
{
  o[0] = s.data() == nullptr ? -1 : s.data() - a;
  o[1] = static_cast<int64_t>(s.size());
}
static int64_t at(U p) { return p == SV::npos ? -1 : static_cast<int64_t>(p); }
// NOLINTBEGIN
extern "C" {
// a: text of m characters, slice [i, i + n)
#define TXT char const *a, Int m, Int i, Int n
#define S SV(a + i, static_cast<U>(n))
void v_make(TXT, int64_t * o)
{
  put(a, S, o);
  put(a, SV(a + i, a + i + n), o + 2);
  SV const s = S;
  o[4] = s.begin() - a;
  o[5] = s.end() - a;
  o[6] = s.empty() ? 1 : 0;
  o[7] = SV().empty() ? 1 : 0;
  o[8] = static_cast<int64_t>(SV().size());
}
void v_cstr(char const * a, Int n, int64_t * o) { put(a, SV(a), o); }
int32_t v_el(TXT, Int k) { return S[k]; }
int32_t v_front(TXT) { return S.front(); }
int32_t v_back(TXT) { return S.back(); }
void v_drop(TXT, U k, int64_t * o) { SV s = S; s.remove_prefix(k); put(a, s, o); }
void v_sub(TXT, U p, U c, int64_t * o) { put(a, S.substr(p, c), o); }
int64_t v_fc(TXT, U p, char c) { return at(S.find_first_of(c, p)); }
int64_t v_fn(TXT, U p, char c) { return at(S.find_first_not_of(c, p)); }
int64_t v_lc(TXT, U p, char c) { return at(S.find_last_of(c, p)); }
int64_t v_fc0(TXT, char c) { return at(S.find_first_of(c)); }
int64_t v_fn0(TXT, char c) { return at(S.find_first_not_of(c)); }
int64_t v_lc0(TXT, char c) { return at(S.find_last_of(c)); }
void v_trim(TXT, int64_t * o) { SV s = S; s.removeLeadingSpaces(); put(a, s, o); }
void v_tok(TXT, char c, int64_t * o)
{
  SV s = S;
  SV const t = s.getTokenAndShrink(c);
  put(a, t, o);
  put(a, s, o + 2);
}
// b: second text of k characters
#define T2 char const *b, Int k
#define B SV(b, static_cast<U>(k))
int64_t v_fs(TXT, T2, U p) { return at(S.find_first_of(B, p)); }
int64_t v_fs0(TXT, T2) { return at(S.find_first_of(B)); }
int64_t v_fsn(TXT, T2, U p) { return at(S.find_first_of(b, p, static_cast<U>(k))); }
// slices without characters: a new one and one with everything removed
void v_void(TXT, T2, char c, int64_t * o)
{
  SV const e;
  SV f = S;
  f.remove_prefix(static_cast<U>(n));
  SV const t = B;
  o[0] = e.compare(t);
  o[1] = t.compare(e);
  o[2] = f.compare(t);
  o[3] = t.compare(f);
  o[4] = f.compare(e);
  o[5] = (e == t || t == f || e != f || t < e || f > t || !(f < t) || !(e <= f)) ? 1 : 0;
  o[6] = at(e.find_first_of(c));
  o[7] = at(e.find_first_not_of(c));
  o[8] = at(f.find_first_of(c));
  o[9] = at(f.find_first_not_of(c));
  o[10] = at(f.find_last_of(c));
  o[11] = at(f.find_first_of(t));
  SV const u = f.getTokenAndShrink(c);
  o[12] = static_cast<int64_t>(u.size());
  o[13] = static_cast<int64_t>(f.size());
  f.removeLeadingSpaces();
  o[14] = static_cast<int64_t>(f.size());
}
int32_t v_cmp(TXT, T2) { return S.compare(B); }
int32_t v_cmpsub(TXT, T2, U p, U c) { return S.compare(p, c, B); }
bool v_starts(TXT, T2) { return S.starts_with(B); }
bool v_ends(TXT, T2) { return S.ends_with(B); }
bool v_eq(TXT, T2) { return S == B; }
bool v_ne(TXT, T2) { return S != B; }
bool v_lt(TXT, T2) { return S < B; }
bool v_le(TXT, T2) { return S <= B; }
bool v_gt(TXT, T2) { return S > B; }
bool v_ge(TXT, T2) { return S >= B; }
}
