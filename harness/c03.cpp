#include "driver.hpp"
#include "interp_deque.hpp"
#include <cest/deque.hpp>
#include <deque>
namespace vf {
const Shape vf_shape{1, DEQ_REC, DEQ_OPS, 120};
const char* const vf_rule = "A case is a header byte choosing the element type (int, uchar, std::string, heap-owning, 32-byte-aligned) and a list of 6-byte operation records over three deques, including bulk operations around the multiples of half a storage chunk; it is non-trivial if at least 3 operations were made and at least one was a bulk operation, copy or assignment.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
template <class T> void both(Src s, Ctx& c, const char* l, unsigned big, std::size_t lim) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_deq<std::deque<T>>(q, k, big, lim); }, [&](Src q, auto& k) { run_deq<cest::deque<T>>(q, k, big, lim); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), nops = 0, mut = 0;
  for (std::size_t i = s.i; i + DEQ_REC <= s.n; i += DEQ_REC) { ++nops; unsigned op = s.p[i] % DEQ_OPS; if (op >= 6 && op <= 17) ++mut; }
  c.nontrivial = nops >= 3 && mut >= 1;
  if (cfg == 255) return both<unsigned char>(few(s, DEQ_REC, 6), c, "uchar, huge", 5 * HUGE_N, 8 * HUGE_N);
  if (cfg == 254) return both<int>(few(s, DEQ_REC, 6), c, "int, huge", HUGE_N, 3 * HUGE_N);
  switch (cfg % 8) {
    case 4: return both<std::string>(s, c, "std::string", 1024, 2600);
    case 5: return both<Own>(s, c, "owning", 1024, 2600);
    case 6: return both<Wide>(s, c, "wide", 2048, 4200);
    case 7: return both<unsigned char>(s, c, "uchar", 4096, 9000);
    default: return both<int>(s, c, "int", 4096, 9000);
  }
}
} // namespace vf
