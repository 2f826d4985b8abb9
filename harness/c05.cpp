#include "driver.hpp"
#include "interp_list.hpp"
#include <cest/forward_list.hpp>
#include <forward_list>
namespace vf {
const Shape vf_shape{1, FL_REC, FL_OPS, 220};
const char* const vf_rule = "A case is a header byte choosing the element type (int, std::string, heap-owning, 32-byte-aligned) and a list of 5-byte operation records over three lists, with insertion and erasure positions anywhere; it is non-trivial if it makes at least 5 operations of which at least two insert or erase away from the front.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
template <class T> void both(Src s, Ctx& c, const char* l, std::size_t lim) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_fl<std::forward_list<T>>(q, k, lim); }, [&](Src q, auto& k) { run_fl<cest::forward_list<T>>(q, k, lim); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), nops = 0, mut = 0;
  for (std::size_t i = s.i; i + FL_REC <= s.n; i += FL_REC) { ++nops; unsigned op = s.p[i] % FL_OPS; if (op >= 2 && op <= (FL_OPS == 22 ? 15 : 9) && op != 6) ++mut; }
  c.nontrivial = nops >= 5 && mut >= 2;
  if (cfg == 255) return both<int>(few(s, FL_REC, 6), c, "int, huge", 3 * HUGE_N);
  if (cfg >= 252) return both<int>(s, c, "int, long", 2000);
  switch (cfg % 8) {
    case 4: case 5: return both<std::string>(s, c, "std::string", 60);
    case 6: return both<Own>(s, c, "owning", 60);
    case 7: return both<Wide>(s, c, "wide", 60);
    default: return both<int>(s, c, "int", 120);
  }
}
} // namespace vf
