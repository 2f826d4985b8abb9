#include "driver.hpp"
#include "numgen.hpp"
#include <cest/cmath.hpp>
namespace vf {
constexpr unsigned MREC = 19, MFN = 5;
const Shape vf_shape{0, MREC, MFN, 60};
const char* const vf_rule = "A case is a list of 19-byte records (function, class of argument, arguments); floor and ceil are compared with the C library over every double with an int result, abs and fabs over every bit pattern, pow with an independent computation in extended precision; it is non-trivial if at least one argument is finite and not 0 or 1.";
void vf_gen(Rng& r, Bytes& out) {
  unsigned n = 1 + r.below(60);
  for (unsigned i = 0; i < n; i++) for (unsigned q = 0; q < MREC; q++) out.push_back((u8)r.next());
}
static void fail(const char* f, double x, const std::string& more, double e, double g) { throw Mismatch{std::string(f) + "(" + numtext(x) + more + "): expected " + numtext(e) + ", got " + numtext(g)}; }
void vf_case(Src s, Ctx& c) {
  bool extreme = false;
  while (s.i + 2 <= s.n) {
    unsigned fn = s.byte() % MFN, cls = s.byte(); u64 b = s.u64v(), b2 = s.u64v(); unsigned m = s.byte();
    double x = num(cls, b);
    if (x - x == 0 && x != 0 && x != 1) c.nontrivial = true;
    if (fn < 2) {                                                          // floor, ceil
      if (m % 4 == 0) x = nudge(double(std::int32_t(b2)), int(m / 4) % 5 - 2);           // next to an integer
      else if (m % 4 == 1) x = (unit(b2) - 0.5) * 4294967296.0;
      else if (m % 4 == 2) { x = nudge(m & 64 ? 2147483647.0 : -2147483648.0, int(m / 4) % 7 - 3) + (m & 128 ? 0.5 : 0); }
      if (!(x == x)) continue;
      double e = fn ? std::ceil(x) : std::floor(x);
      if (!(e >= -2147483648.0 && e <= 2147483647.0)) continue;            // the result is an int
      double g = fn ? cest::ceil(x) : cest::floor(x);
      c.label(fn ? "ceil" : "floor"); if (c.desc) c.say(std::string(fn ? "ceil(" : "floor(") + numtext(x) + ") = " + numtext(g));
      if (e != g) fail(fn ? "ceil" : "floor", x, "", e, g);
    } else if (fn == 2) {
      if (m & 1) x = from_bits(b2);
      double e = std::fabs(x), g = cest::abs(x), h = cest::fabs(x);
      c.label("abs"); if (c.desc) c.say("abs(" + numtext(x) + ") = " + numtext(g));
      if (!(e == g || (e != e && g != g))) fail("abs", x, "", e, g);
      if (!(e == h || (e != e && h != h))) fail("fabs", x, "", e, h);
    } else if (fn == 3) {                                                  // exact powers
      static const int lim[] = {0, 0, 52, 33, 26, 22, 20, 18, 17, 16, 15};
      int base = int(b2 % 21) - 10, ab = base < 0 ? -base : base;
      int n = ab < 2 ? int((b >> 16) % 1500) : int(m) % (lim[ab] + 1);
      double scale = 1;
      if (b & 1) { scale = std::exp2(int((b >> 8) % 9) - 4); }              // dyadic bases stay exact
      double e = 1; for (int i = 0; i < n; i++) e *= base * scale;
      bool neg = (b & 2) && base != 0;
      double want = neg ? 1.0 / e : e, got = cest::pow(base * scale, neg ? -n : n);
      c.label("pow, exact"); if (c.desc) c.say("pow(" + numtext(base * scale) + ", " + std::to_string(neg ? -n : n) + ") = " + numtext(got));
      if (want != got) fail("pow", base * scale, ", " + std::to_string(neg ? -n : n), want, got);
    } else {                                                               // any base
      int n = int(b2 % 4001) - 2000; if (m & 1) n %= 12; else if (m & 8) n %= 300;
      bool near1 = !(m & 1) && (m & 16);                               // long products that stay in range
      const bool longer = (m & 1) == 0 && (b2 >> 40) % 256 == 0;              // hundreds of thousands of factors
      if (longer) n = int((b2 >> 20) % 600001) - 300000;
      if (m == 0xA5 && (b2 >> 40) % 4096 == 0 && !extreme) {                 // as many as there can be
        extreme = true; static const double ones[] = {1, -1, 0, HUGE_VAL}; x = ones[b % 4]; n = b & 4 ? -2147483647 - 1 : 2147483647;
        double e = b % 4 == 0 ? 1 : b % 4 == 1 ? (b & 4 ? 1 : -1) : (b % 4 == 2) == !(b & 4) ? 0 : HUGE_VAL, g = cest::pow(x, n);
        c.label("pow, extreme"); if (e != g) fail("pow", x, ", " + std::to_string(n), e, g);
        continue;
      }
      if (m & 2) { double u = unit(b); x = (m & 4 ? -1 : 1) * (0.2 + 4.8 * u); }
      near1 |= longer; if (near1) x = (m & 4 ? -1 : 1) * std::exp((unit(b) - 0.5) * 1200 / ((n < 0 ? -n : n) + 1));
      if (x - x != 0) { double g = cest::pow(x, 0); if (g != 1) fail("pow", x, ", 0", 1, g); g = cest::pow(x, 1); if (!(g == x || (g != g && x != x))) fail("pow", x, ", 1", x, g); continue; }
      long double e = 1; for (int i = 0; i < (n < 0 ? -n : n); i++) e *= (long double)x;
      const long double ae = e < 0 ? -e : e;
      double g = cest::pow(x, n);
      c.label("pow, any"); if (c.desc) c.say("pow(" + numtext(x) + ", " + std::to_string(n) + ") = " + numtext(g));
      if (ae > 1e-290L && ae < 1e290L) {
        long double want = n < 0 ? 1 / e : e, d = (long double)g - want; if (d < 0) d = -d;
        if (!(d <= 4e-16L * ((n < 0 ? -n : n) + 2) * (want < 0 ? -want : want))) fail("pow", x, ", " + std::to_string(n), double(want), g);
      } else if (x != 0 && ae > 1e310L) {                                  // overflow of the product
        bool odd = n & 1;
        if (n > 0 && g != (x < 0 && odd ? -HUGE_VAL : HUGE_VAL)) fail("pow", x, ", " + std::to_string(n), HUGE_VAL, g);
        if (n < 0 && g != 0) fail("pow", x, ", " + std::to_string(n), 0, g);
      } else if (x == 0 && n != 0) {
        if (n > 0 && g != 0) fail("pow", x, ", " + std::to_string(n), 0, g);
        if (n < 0 && std::fabs(g) != HUGE_VAL) fail("pow", x, ", " + std::to_string(n), HUGE_VAL, g);
      }
    }
  }
}
} // namespace vf
