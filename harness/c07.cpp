#include "driver.hpp"
#include "interp_tree.hpp"
#include <cest/map.hpp>
#include <map>
namespace vf {
const Shape vf_shape{2, MAP_REC, MAP_OPS, 160};
const char* const vf_rule = "A case is a header choosing the key type and ordering (int ascending and descending, keys without == under total, descending, weak, scrambled and transparent orderings, std::string, owning) and the order in which keys arrive (duplicates, random, ascending, descending, zigzag), and a list of 5-byte operation records over three containers; it is non-trivial if it makes at least 5 operations of which at least two insert.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
template <class K, class C> void both(Src s, Ctx& c, const char* l, unsigned mode, std::size_t lim) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_map<std::map<K, std::conditional_t<std::is_same_v<K, Own>, std::string, int>, C>>(q, k, mode, lim); }, [&](Src q, auto& k) { run_map<cest::map<K, std::conditional_t<std::is_same_v<K, Own>, std::string, int>, C>>(q, k, mode, lim); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), mode = s.byte(), nops = 0, mut = 0;
  for (std::size_t i = s.i; i + MAP_REC <= s.n; i += MAP_REC) { ++nops; unsigned op = s.p[i] % MAP_OPS; if (op < 8) ++mut; }
  c.nontrivial = nops >= 5 && mut >= 2;
  if (cfg == 255) return both<int, std::less<int>>(few(s, MAP_REC, 6), c, "int, huge", mode, 2 * HUGE_N);
  if (cfg >= 252) return both<int, std::less<int>>(s, c, "int, long", mode, 3500);
  switch (cfg % 12) {
    case 0: return both<int, std::greater<int>>(s, c, "int descending", mode, 300);
    case 1: return both<Tagged, ByK>(s, c, "no ==, ascending", mode, 300);
    case 2: return both<Tagged, ByKDown>(s, c, "no ==, descending", mode, 300);
    case 3: return both<Tagged, ByClass>(s, c, "no ==, weak order", mode, 300);
    case 4: return both<Tagged, ByMod>(s, c, "no ==, scrambled", mode, 300);
    case 5: return both<Tagged, Transp>(s, c, "no ==, transparent", mode, 300);
    case 6: return both<std::string, std::less<>>(s, c, "string, transparent", mode, 150);
    case 7: return both<Own, std::less<Own>>(s, c, "owning", mode, 150);
    case 9: return both<Tagged, Turned>(s, c, "ordering chosen at construction", mode, 300);
    case 8: return both<long, std::less<long>>(s, c, "extreme keys", mode, 300);
    default: return both<int, std::less<int>>(s, c, "int", mode, 400);
  }
}
} // namespace vf
