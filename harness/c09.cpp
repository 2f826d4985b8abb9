#define VF_OWN_NEW
#include "ledger.hpp"
#include "interp_vector.hpp"
#include "interp_string.hpp"
#include "interp_deque.hpp"
#include "interp_list.hpp"
#include "interp_tree.hpp"
#include "interp_queue.hpp"
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
namespace vf {
const Shape vf_shape{2, 6, 24, 120};
const char* const vf_rule = "A case is a header choosing a container (vector, deque, list, forward_list, set, map, queue, string) and an element kind (copy-only, noexcept move, potentially throwing move, wide) and a list of operation records over three containers of tracked elements; it is non-trivial if at least 8 elements (strings: heap blocks) were constructed in containers' service.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

template <int K, int P> struct KeyOf<Trk<K, P>> { static Trk<K, P> make(int k, unsigned) { return Trk<K, P>(k); } };

template <class V> std::size_t held(const V& c) {
  if constexpr (requires { c.size(); }) return c.size();
  else { std::size_t n = 0; for (auto it = c.begin(); !(it == c.end()); ++it) if (++n > 100000) break; return n; }
}
struct LifeSink { static constexpr bool no_throw = false;                                    // allocates nothing
  const char* cur = "start"; u64 ca = 0, cb = 0; u64 ops = 0; bool elems; unsigned per = 1;
  std::string* log = nullptr;
  std::string where() const { return std::string(" [") + cur + "(" + std::to_string(ca) + "," + std::to_string(cb) + "), operation " + std::to_string(ops) + "]"; }
  void op(const char* n, u64 a = 0, u64 b = 0) { cur = n; ca = a; cb = b; ++ops; if (log) { long h = heap_blocks; *log += n; *log += '(' + std::to_string(a) + ',' + std::to_string(b) + ")\n"; heap_blocks = h; } }
  void misuse() { if (LG.error) throw Mismatch{LG.error + where()}; }
  void obs(const char*, u64) { misuse(); }
  void check(bool, const char*) {}                   // what the containers hold is other properties' business
  template <class V> void tick(V (&v)[3]) {
    misuse();
    if (!elems) return;
    std::size_t n = 0;
    for (auto& c : v) n += held(c);
    if (LG.live.size() != n * per) throw Mismatch{"the containers report " + std::to_string(n) + " elements, " + std::to_string(LG.live.size()) + " are alive" + where()};
  }
};
template <class F> void guarded(Ctx& c, bool elems, unsigned per, const char* l, F f) {
  c.label(l);
  std::string log;
  log.reserve(c.desc ? 1 << 16 : 0);
  LG.reset();
  LG.live.reserve(20000);                            // so that the ledger itself rarely allocates
  const u64 ev0 = LG.events;
  long before = 0;
  LifeSink k; k.elems = elems; k.per = per; if (c.desc) k.log = &log;
  {
    // the ledger's own nodes come and go with the elements, so blocks balance at the end
    before = heap_blocks;
    try { f(k); } catch (const Mismatch&) { c.say(log); throw; }
      catch (const std::exception& e) { c.say(log); throw Mismatch{std::string("unexpected exception ") + e.what() + k.where()}; }
    k.cur = "after the containers are gone";
    const long after = heap_blocks;
    c.say(log);
    if (LG.error) throw Mismatch{LG.error + k.where()};
    if (!LG.live.empty()) throw Mismatch{std::to_string(LG.live.size()) + " elements remain alive" + k.where()};
    if (after != before) throw Mismatch{std::to_string(after - before) + " heap blocks remain" + k.where()};
  }
  c.nontrivial = k.ops >= 5 && (elems ? LG.events - ev0 >= 8 : true);
}
template <class T> void pick_long(Src s, Ctx& c, unsigned what) {
  c.label("long");
  s = few(s, 6, 20);
  switch (what % 8) {
    case 0: return guarded(c, true, 1, "vector", [&](auto& k) { run_vec<cest::vector<T>>(s, k, 1500, 4000); });
    case 1: return guarded(c, true, 1, "deque", [&](auto& k) { run_deq<cest::deque<T>>(s, k, 4096, 7000); });
    case 2: return guarded(c, true, 1, "list", [&](auto& k) { run_list<cest::list<T>>(s, k, 2500); });
    case 3: return guarded(c, true, 1, "forward_list", [&](auto& k) { run_fl<cest::forward_list<T>>(s, k, 2500); });
    case 4: return guarded(c, true, 1, "set", [&](auto& k) { run_set<cest::set<T>>(s, k, s.byte(), 2500); });
    case 5: return guarded(c, true, 1, "map", [&](auto& k) { run_map<cest::map<int, T>>(s, k, s.byte(), 2500); });
    case 6: return guarded(c, true, 1, "queue", [&](auto& k) { run_q<cest::queue<T>, cest::deque<T>>(s, k, 2048); });
    default: return guarded(c, true, 1, "queue of a list", [&](auto& k) { run_q<cest::queue<T, cest::list<T>>, cest::list<T>>(s, k, 1024); });
  }
}
template <class T> void pick(Src s, Ctx& c, unsigned what) {
  switch (what % 8) {
    case 0: return guarded(c, true, 1, "vector", [&](auto& k) { run_vec<cest::vector<T>>(s, k, 60, 200); });
    case 1: return guarded(c, true, 1, "deque", [&](auto& k) { run_deq<cest::deque<T>>(s, k, 1024, 2200); });
    case 2: return guarded(c, true, 1, "list", [&](auto& k) { run_list<cest::list<T>>(s, k, 80); });
    case 3: return guarded(c, true, 1, "forward_list", [&](auto& k) { run_fl<cest::forward_list<T>>(s, k, 80); });
    case 4: return guarded(c, true, 1, "set", [&](auto& k) { run_set<cest::set<T>>(s, k, s.byte(), 120); });
    case 5: return guarded(c, true, 1, "map", [&](auto& k) { run_map<cest::map<int, T>>(s, k, s.byte(), 120); });
    case 6: return guarded(c, true, 1, "queue", [&](auto& k) { run_q<cest::queue<T>, cest::deque<T>>(s, k, 512); });
    default: return guarded(c, true, 2, "map of tracked to tracked", [&](auto& k) { run_map<cest::map<T, T>>(s, k, s.byte(), 80); });
  }
}
void vf_case(Src s, Ctx& c) {
  unsigned what = s.byte(), kind = s.byte();
  if (what % 9 == 8) {
    if (kind >= 250) { c.label("long"); return guarded(c, false, 1, "string", [&](auto& k) { run_str<cest::string>(few(s, STR_REC, 30), k, 2100, 9000); }); }
    switch (kind % 3) {
      case 0: return guarded(c, false, 1, "string", [&](auto& k) { run_str<cest::string>(s, k, 100, 400); });
      case 1: return guarded(c, false, 1, "u16string", [&](auto& k) { run_str<cest::u16string>(s, k, 100, 400); });
      default: return guarded(c, false, 1, "wstring", [&](auto& k) { run_str<cest::wstring>(s, k, 100, 400); });
    }
  }
  what = what % 9;
  if (kind >= 250) return kind & 1 ? pick_long<Trk<THROWING_MOVE>>(s, c, what) : pick_long<Trk<NOEXCEPT_MOVE>>(s, c, what);
  switch (kind % 4) {
    case 0: c.label("copy-only"); return pick<Trk<COPY_ONLY>>(s, c, what);
    case 1: c.label("noexcept move"); return pick<Trk<NOEXCEPT_MOVE>>(s, c, what);
    case 2: c.label("throwing move"); return pick<Trk<THROWING_MOVE>>(s, c, what);
    default: c.label("wide"); return pick<Trk<NOEXCEPT_MOVE, 6>>(s, c, what);
  }
}
} // namespace vf
