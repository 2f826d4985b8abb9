#include "driver.hpp"
#include "interp_queue.hpp"
#include <cest/queue.hpp>
#include <cest/list.hpp>
#include <deque>
#include <list>
#include <queue>
namespace vf {
const Shape vf_shape{1, Q_REC, Q_OPS, 160};
const char* const vf_rule = "A case is a header byte choosing element type and underlying container (cest::deque, cest::list, std::deque, std::list) and a list of 5-byte operation records over three queues, including bursts longer than a storage chunk; it is non-trivial if it makes at least 5 operations with at least two pushes and one pop.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

template <class T, class CC, class SC> void both(Src s, Ctx& c, const char* l, unsigned big) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_q<std::queue<T, SC>, SC>(q, k, big); }, [&](Src q, auto& k) { run_q<cest::queue<T, CC>, CC>(q, k, big); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), nops = 0, push = 0, pop = 0;
  for (std::size_t i = s.i; i + Q_REC <= s.n; i += Q_REC) { ++nops; unsigned op = s.p[i] % Q_OPS; push += op < 3 || op == 5 || op == 6; pop += op == 3 || op == 4 || op == 7 || op == 8; }
  c.nontrivial = nops >= 5 && push >= 2 && pop >= 1;
  using str = std::string;
  if (cfg == 255) return both<int, cest::deque<int>, std::deque<int>>(few(s, Q_REC, 8), c, "int, cest::deque, huge", HUGE_N);
  if (cfg == 254) return both<int, cest::list<int>, std::list<int>>(few(s, Q_REC, 8), c, "int, cest::list, huge", HUGE_N);
  switch (cfg % 8) {
    case 0: c.label("default container"); { static_assert(std::is_same_v<cest::queue<int>::container_type, cest::deque<int>>); }
            return both<int, cest::queue<int>::container_type, std::deque<int>>(s, c, "int, default", 512);
    case 1: return both<int, cest::deque<int>, std::deque<int>>(s, c, "int, cest::deque", 512);
    case 2: return both<str, cest::deque<str>, std::deque<str>>(s, c, "string, cest::deque", 512);
    case 3: return both<int, cest::list<int>, std::list<int>>(s, c, "int, cest::list", 0);
    case 4: return both<str, cest::list<str>, std::list<str>>(s, c, "string, cest::list", 0);
    case 5: return both<str, std::deque<str>, std::deque<str>>(s, c, "string, std::deque", 0);
    case 6: return both<Own, std::list<Own>, std::list<Own>>(s, c, "owning, std::list", 0);
    default: return both<Own, cest::deque<Own>, std::deque<Own>>(s, c, "owning, cest::deque", 512);
  }
}
} // namespace vf
