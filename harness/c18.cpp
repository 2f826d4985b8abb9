#include "driver.hpp"
#include "numgen.hpp"
#include <cest/cmath.hpp>
namespace vf {
constexpr unsigned MREC = 18, MFN = 9;
const Shape vf_shape{0, MREC, MFN, 60};
const char* const vf_rule = "A case is a list of 18-byte records (function, class of argument, two arguments over every magnitude, sign, branch boundary and special value); each is compared with the C library; it is non-trivial if at least one argument is a finite number other than 0.";
void vf_gen(Rng& r, Bytes& out) {
  unsigned n = 1 + r.below(60);
  for (unsigned i = 0; i < n; i++) { out.push_back((u8)r.next()); out.push_back((u8)r.next()); for (int q = 0; q < 16; q++) out.push_back((u8)r.next()); }
}
static const double inf = std::numeric_limits<double>::infinity();
static bool near(double e, double g, double abs_tol, double rel_tol) {
  if (e != e) return g != g;
  if (e == g) return true;
  if (std::isinf(e) || g != g || std::isinf(g)) return false;
  return std::fabs(e - g) <= abs_tol + rel_tol * std::fabs(e);
}
static void judge(const char* f, double x, double y, double e, double g, double at, double rt, Ctx& c) {
  if (c.desc) c.say(std::string(f) + "(" + numtext(x) + (y == y ? ", " + numtext(y) : std::string()) + ") = " + numtext(g));
  if (!near(e, g, at, rt)) throw Mismatch{std::string(f) + "(" + numtext(x) + (y == y ? ", " + numtext(y) : std::string()) + "): expected about " + numtext(e) + ", got " + numtext(g)};
}
static void same(const char* f, double x, double a, double b) {
  if (!(a == b || (a != a && b != b))) throw Mismatch{std::string(f) + " of " + numtext(x) + ": " + numtext(a) + " against " + numtext(b)};
}
static volatile double endless;                                            // beyond the claimed range: must return
// Where sinh and cosh exceed every double; between 710 and 711 either way
static bool beyond(double& x) {
  if (std::fabs(x) > 711) return true;
  if (std::fabs(x) > 710) x = std::fmod(x, 709);
  return false;
}
void vf_case(Src s, Ctx& c) {
  const double none = std::numeric_limits<double>::quiet_NaN();
  while (s.i + 2 <= s.n) {
    unsigned fn = s.byte() % MFN, cls = s.byte();
    double x = num(cls, s.u64v()), y = num(cls / 12, s.u64v());
    if (x - x == 0 && x != 0) c.nontrivial = true;
    switch (fn) {
      case 0: c.label("sqrt"); judge("sqrt", x, none, std::sqrt(x), cest::sqrt(x), 0, 1e-3, c); break;
      case 1: c.label("exp"); judge("exp", x, none, x > 710 ? inf : std::exp(x), x > 709 && x <= 710 ? std::exp(x) : cest::exp(x), 1e-305, 1e-4, c); break;
      case 2: c.label("log"); judge("log", x, none, std::log(x), cest::log(x), 1.5e-3, 0, c); break;
      case 3: if (std::fabs(x) > 1e6 && x - x == 0) { endless += cest::sin(x); x = std::fmod(x, cls & 16 ? 1e6 : 1e4); } c.label("sin"); judge("sin", x, none, std::sin(x), cest::sin(x), 1e-6 * (std::fabs(x) + 4), 0, c); break;
      case 4: if (std::fabs(x) > 1e6 && x - x == 0) { endless += cest::cos(x); x = std::fmod(x, cls & 16 ? 1e6 : 1e4); } c.label("cos"); judge("cos", x, none, std::cos(x), cest::cos(x), 1e-6 * (std::fabs(x) + 6), 0, c); break;
      case 5: c.label("atan"); judge("atan", x, none, std::atan(x), cest::atan(x), 1e-4, 0, c); same("atan and -atan(-x)", x, cest::atan(x), -cest::atan(-x)); break;
      case 6: {
        if (x - x != 0 || y - y != 0 || (x == 0 && y == 0)) break;
        if (x == 0) x = 0; if (y == 0) y = 0;                               // no negative zeros
        c.label("atan2"); judge("atan2", y, x, std::atan2(y, x), cest::atan2(y, x), 1e-4, 0, c);
        if (y != 0) same("atan2 and -atan2(-y,x)", y, cest::atan2(y, x), -cest::atan2(-y, x));
        break;
      }
      case 7: if (beyond(x)) { judge("sinh", x, none, x < 0 ? -inf : inf, cest::sinh(x), 0, 0, c); x = std::fmod(x, 709); } c.label("sinh"); judge("sinh", x, none, std::sinh(x), cest::sinh(x), 0, 2e-4, c); same("sinh and -sinh(-x)", x, cest::sinh(x), -cest::sinh(-x)); break;
      default: if (beyond(x)) { judge("cosh", x, none, inf, cest::cosh(x), 0, 0, c); x = std::fmod(x, 709); } c.label("cosh"); judge("cosh", x, none, std::cosh(x), cest::cosh(x), 0, 1e-3, c); same("cosh and cosh(-x)", x, cest::cosh(x), cest::cosh(-x)); break;
    }
    if (fn >= 7) { double z = s.i % 3 == 0 ? inf : s.i % 3 == 1 ? -inf : none; judge("sinh", z, none, std::sinh(z), cest::sinh(z), 0, 0, c); judge("cosh", z, none, std::cosh(z), cest::cosh(z), 0, 0, c); }
  }
}
} // namespace vf
