#include <chrono>
#include <cstdio>
#include <cstring>
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/string_view.hpp>
// and its streams are two marks
static char marks[2];
#undef stderr
#undef stdout
#define stderr reinterpret_cast<FILE *>(marks)
#define stdout reinterpret_cast<FILE *>(marks + 1)
static FILE * sink = nullptr;
static char const * sent = nullptr;
static int
record(FILE * f, char const *, char const * s)
{
  sink = f;
  sent = s;
  return 1;
}
// the message itself is sent to a recording stand-in for the C library
#define fprintf record
#include "src/common/settings.cpp"
#include "src/common/logger.cpp"
#undef fprintf
using namespace um2;
namespace lg = um2::logger;
using SV = StringView;

static void
load(char const * b)
{
  sink = nullptr;
  sent = nullptr;
  memcpy(lg::buffer, b, 256);
}
static void
save(char * o)
{
  memcpy(o, lg::buffer, 256);
}
static void
opts(bool col, bool ts, int64_t ns)
{
  lg::colorized = col;
  lg::timestamped = ts;
  lg::exit_on_error = false;
  lg::start_time = lg::TimePoint(lg::Clock::now() - std::chrono::nanoseconds(ns));
}
#define W(NAME, ARGS, X)                                                                 \
  Int NAME(char const * b, Int at, ARGS, char * o)                                       \
  {                                                                                      \
    load(b);                                                                             \
    auto const & x = X;                                                                  \
    char * const p = lg::toBuffer(lg::buffer + at, x);                                   \
    save(o);                                                                             \
    return static_cast<Int>(p - lg::buffer);                                             \
  }
#define C ,
extern "C" {
W(l_sv, char const * t C Int n, SV(t C t + n))
W(l_cstr, char const * t C Int n, t)
W(l_str, char const * t C Int n, String(SV(t C t + n)))
W(l_chr, char x_, x_)
W(l_bool, bool x_, x_)
W(l_i1, int8_t x_ C char const * txt C Int n, x_)
W(l_i4, int32_t x_ C char const * txt C Int n, x_)
W(l_u4, uint32_t x_ C char const * txt C Int n, x_)
W(l_i8, int64_t x_ C char const * txt C Int n, x_)
W(l_u8, uint64_t x_ C char const * txt C Int n, x_)
W(l_f8, double x_ C char const * txt C Int n, x_)
W(l_f4, float x_ C char const * txt C Int n, x_)
Int l_lit(char const * b, Int at, char * o)
{
  load(b);
  char * const p = lg::toBuffer(lg::buffer + at, "Mesh ");
  save(o);
  return static_cast<Int>(p - lg::buffer);
}
Int l_pre(char const * b, Int lev, bool col, bool ts, int64_t ns, char * o)
{
  load(b);
  opts(col, ts, ns);
  char * const p = lg::setPreamble(lev);
  save(o);
  return static_cast<Int>(p - lg::buffer);
}
void l_post(char const * b, bool col, Int at, char * o)
{
  load(b);
  opts(col, false, 0);
  lg::setPostamble(lg::buffer + at);
  save(o);
}
#define M(NAME)\
Int NAME(char const * b, Int lev, Int most, bool col, bool ts, int64_t ns, char const * t, Int n, char const * u, Int k, char * o) \
{ \
  load(b); \
  opts(col, ts, ns); \
  lg::level = most; \
  lg::printMessage(lev, SV(t, t + n), SV(u, u + k)); \
  save(o); \
  if (sent == nullptr) { return 0; } \
  return sent != lg::buffer ? 3 : (sink == stderr ? 1 : (sink == stdout ? 2 : 4)); \
}
M(l_msg)
M(l_msgt)
#define L(NAME, F)                                                                       \
  Int NAME(char const * b, Int most, bool col, char const * t, Int n, char * o)          \
  {                                                                                      \
    load(b);                                                                             \
    opts(col, false, 0);                                                                 \
    lg::level = most;                                                                    \
    lg::F(SV(t, t + n));                                                                 \
    save(o);                                                                             \
    if (sent == nullptr) { return 0; }                                                   \
    return sent != lg::buffer ? 3 : (sink == stderr ? 1 : (sink == stdout ? 2 : 4));     \
  }
L(l_error, error)
L(l_warn, warn)
L(l_info, info)
L(l_debug, debug)
Int l_reset(Int lev, bool col, bool ts, bool ex)
{
  lg::level = lev;
  lg::colorized = col;
  lg::timestamped = ts;
  lg::exit_on_error = ex;
  lg::reset();
  return lg::level * 8 + lg::timestamped * 4 + lg::colorized * 2 + lg::exit_on_error;
}
Int l_last(char const * b, Int n, char * o)
{
  load(b);
  auto const s = lg::getLastMessage();
  memcpy(o, s.data(), static_cast<uint64_t>(s.size()));
  return s.size();
}
}
