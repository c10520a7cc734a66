#include <um2/stdlib/string.hpp>
using namespace um2;
using SV = StringView;
using U = uint64_t;
// characters and terminating zero of a string whose length should be n
static Int
put(String const & s, Int n, char * o)
{
  if (s.size() == n) {
    char const * p = s.data();
    for (Int i = 0; i <= n; ++i) { o[i] = p[i]; }
  }
  return s.size();
}
static SV sv(char const * a, Int n) { return {a, static_cast<U>(n)}; }
// NOLINTBEGIN
extern "C" {
#define A char const *a, Int n
#define B char const *b, Int k
#define O char * o
#define SA String s(sv(a, n))
#define SB String t(sv(b, k))
Int s_make(A, O) { SA; return put(s, n, o); }
Int s_cstr(A, O) { String s(a); return put(s, n, o); }
Int s_empty() { String s; return s.size() + s.data()[0] + (s.empty() ? 0 : 1); }
void s_info(A, Int * o)
{
  SA;
  o[0] = s.size(); o[1] = s.empty() ? 1 : 0; o[2] = s.capacity() >= s.size() ? 1 : 0;
  o[3] = s.front(); o[4] = s.back(); o[5] = static_cast<Int>(s.end() - s.begin()); o[6] = *s.begin();
  String const & c = s;
  o[7] = c.front(); o[8] = c.back(); o[9] = static_cast<Int>(c.cend() - c.cbegin());
  SV const v = s;
  o[10] = static_cast<Int>(v.size()); o[11] = v.data() == s.data() ? 1 : 0;
}
Int s_copy(A, O, char * p) { SA; String t(s); Int const r = put(t, n, o); return r == n ? put(s, n, p) : -1; }
Int s_move(A, O) { SA; String t(um2::move(s)); if (s.size() != 0 || s.data()[0] != 0) { return -1; } return put(t, n, o); }
Int s_set(A, B, O, char * p) { SA; SB; t = s; Int const r = put(t, n, o); return r == n ? put(s, n, p) : -1; }
Int s_setmove(A, B, O) { SA; SB; t = um2::move(s); if (s.size() != 0 || s.data()[0] != 0) { return -1; } return put(t, n, o); }
Int s_self(A, O) { SA; String & t = s; s = t; return put(s, n, o); }
Int s_assign(A, B, O) { SB; t.assign(sv(a, n)); return put(t, n, o); }
Int s_append(A, B, O) { SA; s.append(b, k); return put(s, n + k, o); }
Int s_add(A, B, O, char * p) { SA; SB; s += t; Int const r = put(t, k, p); return r == k ? put(s, n + k, o) : -1; }
Int s_addc(A, B, O) { SA; s += b; return put(s, n + k, o); }
Int s_addself(A, O) { SA; s += s; return put(s, n + n, o); }
Int s_plus(A, B, O, char * p) { SA; SB; String const r = s + t; Int const q = put(s, n, p); return q == n ? put(r, n + k, o) : -1; }
Int s_plusc(A, B, O) { SA; String const r = s + b; return put(r, n + k, o); }
Int s_app2(A, B, char const * c, Int l, O) { SA; s.append(b, k); s.append(c, l); return put(s, n + k + l, o); }
Int s_appset(A, B, char const * c, Int l, O) { SA; s.append(b, k); s.assign(sv(c, l)); return put(s, l, o); }
Int s_appcopy(A, B, O) { SA; s.append(b, k); String const t(s); return put(t, n + k, o); }
Int s_sub(A, Int i, Int c, Int want, O) { SA; String const t = s.substr(i, c); return put(t, want, o); }
Int s_from(A, Int i, O) { SA; String const t(s, i); return put(t, n - i, o); }
Int s_cmp(A, B) { SA; SB; return s.compare(t); }
Int s_cmpv(A, B) { SA; return s.compare(sv(b, k)); }
bool s_eq(A, B) { SA; SB; return s == t; }
bool s_ne(A, B) { SA; SB; return s != t; }
bool s_lt(A, B) { SA; SB; return s < t; }
bool s_le(A, B) { SA; SB; return s <= t; }
bool s_gt(A, B) { SA; SB; return s > t; }
bool s_ge(A, B) { SA; SB; return s >= t; }
bool s_starts(A, B) { SA; return s.starts_with(sv(b, k)); }
bool s_ends(A, B) { SA; return s.ends_with(sv(b, k)); }
bool s_startc(A, char c) { SA; return s.starts_with(c); }
bool s_endc(A, char c) { SA; return s.ends_with(c); }
Int s_last(A, char c, Int p) { SA; return s.find_last_of(c, p); }
Int s_last0(A, char c) { SA; return s.find_last_of(c); }
// numbers: text is what the C library prints
Int s_i4(int32_t x, char const * txt, Int len, O) { String const s(x); return put(s, len, o); }
Int s_i8(int64_t x, char const * txt, Int len, O) { String const s(x); return put(s, len, o); }
Int s_f4(float x, char const * txt, Int len, O) { String const s(x); return put(s, len, o); }
Int s_f8(double x, char const * txt, Int len, O) { String const s(x); return put(s, len, o); }
}
