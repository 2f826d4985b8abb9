// Doubles decoded from bytes: every class of magnitude, sign and special boundary.
#ifndef VERIF_NUMGEN_HPP
#define VERIF_NUMGEN_HPP
#include "core.hpp"
#include <cmath>
#include <cstring>
#include <limits>
namespace vf {
inline double from_bits(u64 b) { double d; std::memcpy(&d, &b, 8); return d; }
inline double nudge(double x, int n) { double to = n < 0 ? -HUGE_VAL : HUGE_VAL; for (int i = 0; i < (n < 0 ? -n : n) && i < 8; i++) x = std::nextafter(x, to); return x; }
inline double unit(u64 b) { return double(b >> 11) * 0x1p-53; }
// cls: any byte; b: any word
inline double num(unsigned cls, u64 b) {
  static const double consts[] = {0, 1, 2, 3, 0.5, 1.5, 10, 100, 1000, 0.1, 0.01, 0.001, 1e-4, 3.1622776601683795, 2.718281828459045, 3.141592653589793,
    1.5707963267948966, 0.7853981633974483, 0.2679491924311227, 1.7320508075688772, 0.5235987755982988, 2.414213562373095, 0.41421356237309503, 20, 709, 745, 1e10, 1e-10,
    1e100, 1e-100, 1e300, 1e-300, 2147483647.0, 2147483648.0, 4294967296.0, 9007199254740992.0, 4503599627370496.0, 0.9999999999999999, 2.2250738585072014e-308, 4.9406564584124654e-324};
  const double sg = b >> 63 ? -1.0 : 1.0;
  switch (cls % 12) {
    case 0: return from_bits(b);                                           // any bit pattern
    case 1: case 2: return sg * std::exp2(unit(b << 1) * 2090 - 1070);     // log-uniform over the whole range
    case 3: case 4: return sg * unit(b << 1) * 10;
    case 5: return sg * unit(b << 1) * 750;
    case 6: return sg * unit(b << 1) * 1e4;
    case 7: return double(std::int64_t(b % 4001)) - 2000;                   // integers
    case 8: return nudge((double(std::int64_t(b % 4001)) - 2000) * 0.5, int(b >> 20) % 5 - 2);   // halves and their neighbours
    case 9: return nudge(sg * consts[(b & 0xffff) % (sizeof consts / sizeof *consts)], int((b >> 20) & 15) % 5 - 2);
    case 10: return nudge((double(std::int64_t(b % 12001)) - 6000) * 1.5707963267948966, int(b >> 20) % 5 - 2);
    default: return nudge(sg * std::pow(10.0, double(b % 617) - 308), int((b >> 20) & 15) % 5 - 2);
  }
}
inline std::string numtext(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g (%a)", x, x); return b; }
} // namespace vf
#endif
