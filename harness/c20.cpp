#include "driver.hpp"
#include <cctype>
#include <cest/cctype.hpp>
namespace vf {
const Shape vf_shape{1, 2, 2, 300};
const char* const vf_rule = "A case is a list of 2-byte calls (function, value in EOF..255), and in one case of four also both functions on every one of the 257 values; it is non-trivial if it makes the complete enumeration or at least 8 calls.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
static void one(unsigned fn, int v) {
  int g = fn ? cest::isupper(v) : cest::isalnum(v), e = fn ? std::isupper(v) : std::isalnum(v);
  if (!g != !e) throw Mismatch{std::string(fn ? "isupper(" : "isalnum(") + std::to_string(v) + ") is " + (g ? "non-zero" : "zero") + ", and " + (e ? "non-zero" : "zero") + " in the C locale"};
}
void vf_case(Src s, Ctx& c) {
  unsigned h = s.byte(), n = 0;
  if (h % 4 == 0) { c.label("complete enumeration"); for (unsigned q = 0; q < 257; q++) { int v = int((q * (2 * (h / 4) + 1)) % 257) - 1; one(0, v); one(1, v); } c.nontrivial = true; }
  while (!s.done()) { unsigned fn = s.byte() & 1; unsigned x = s.byte(); int v = fn ? int(x) - int(s.i % 2) : int(x); one(fn, v < -1 ? -1 : v); if (x == 255) { one(0, -1); one(1, -1); } ++n; }
  if (n >= 8) c.nontrivial = true;
  c.say(std::to_string(n) + " calls");
}
} // namespace vf
