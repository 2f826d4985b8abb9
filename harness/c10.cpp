#include "ledger.hpp"
#include "interp_vector.hpp"
#include "interp_string.hpp"
#include "interp_deque.hpp"
#include "interp_list.hpp"
#include "interp_tree.hpp"
#include "interp_queue.hpp"
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
#include <sstream>
#include <iterator>
namespace vf {
const Shape vf_shape{2, 6, 24, 120};
const char* const vf_rule = "A case is a header choosing a container (vector, deque, list, forward_list, set, map, queue, string) and an allocator (a rebindable one without state, one with an identity, or one that is different in every container unless copied) and a list of operation records over three containers; it is non-trivial if at least 4 blocks were obtained from the allocator.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

struct Block { std::size_t n, size, al; int id; };
struct AllocLedger {
  std::map<const char*, Block> held; u64 total = 0; const char* error = nullptr;
  void bad(const char* e) { if (!error) error = e; }
  bool covers(const void* p, std::size_t bytes) const {
    auto it = held.upper_bound((const char*)p);
    if (it == held.begin()) return false;
    --it;
    return (const char*)p + bytes <= it->first + it->second.n * it->second.size;
  }
};
inline AllocLedger AL;
// Alloc<T, Stateful>: hands out exactly sized blocks, with a guard from ASan on both sides.
template <class T, bool Stateful> struct Alloc {
  using value_type = T;
  template <class U> struct rebind { using other = Alloc<U, Stateful>; };
  int id = 0;
  constexpr Alloc() = default;
  constexpr explicit Alloc(int i) : id(Stateful ? i : 0) {}
  template <class U> constexpr Alloc(const Alloc<U, Stateful>& o) : id(o.id) {}
  T* allocate(std::size_t n) {
    if (n == 0 || n > (std::size_t(1) << 40) / sizeof(T)) { if (n) AL.bad("an absurd count was requested from the allocator"); }
    std::size_t bytes = n * sizeof(T), al = alignof(T) < 16 ? 16 : alignof(T);
    if (bytes > (std::size_t(1) << 32)) throw std::bad_alloc();
    char* p = (char*)(al == 16 ? std::malloc(bytes ? bytes : 1) : std::aligned_alloc(al, (bytes + al - 1) / al * al));
    AL.held[p] = {n, sizeof(T), alignof(T), id}; ++AL.total;
    return (T*)p;
  }
  void deallocate(T* p, std::size_t n) {
    auto it = AL.held.find((const char*)p);
    if (it == AL.held.end()) { AL.bad("a pointer that is not a held block was given back"); return; }
    if (it->second.n != n) AL.bad("a block was given back with a count different from the one it was obtained with");
    if (it->second.size != sizeof(T)) AL.bad("a block was given back through an allocator of another type");
    if (it->second.id != id) AL.bad("a block was given back to an allocator it did not come from");
    AL.held.erase(it);
    std::free((void*)p);
  }
  friend constexpr bool operator==(const Alloc& a, const Alloc& b) { return a.id == b.id; }
};

struct BlockSink { static constexpr bool no_throw = false;
  const char* cur = "start"; u64 ca = 0, cb = 0; u64 ops = 0;
  std::string* log = nullptr;
  std::string where() const { return std::string(" [") + cur + "(" + std::to_string(ca) + "," + std::to_string(cb) + "), operation " + std::to_string(ops) + "]"; }
  void op(const char* n, u64 a = 0, u64 b = 0) { cur = n; ca = a; cb = b; ++ops; if (log) { *log += n; *log += '(' + std::to_string(a) + ',' + std::to_string(b) + ")\n"; } }
  void misuse() { if (AL.error) throw Mismatch{AL.error + where()}; }
  void obs(const char*, u64) { misuse(); }
  void check(bool, const char*) {}
  template <class C> void walk(C& c) {
    std::size_t m = 0;
    if constexpr (requires { c.begin(); }) for (auto it = c.begin(); !(it == c.end()); ++it) {
      if (++m > 20000) break;
      if (!AL.covers(&*it, sizeof(*it))) throw Mismatch{"an element lies outside every block held from the allocator" + where()};
    }
    if constexpr (requires { c.c_str(); c.capacity(); }) {
      if (!AL.covers(c.data(), (c.size() + 1) * sizeof(*c.data()))) throw Mismatch{"the characters lie outside every block held from the allocator" + where()};
    } else if constexpr (requires { c.capacity(); }) {
      if (c.capacity() && !AL.covers(c.data(), c.capacity() * sizeof(*c.data()))) throw Mismatch{"capacity() exceeds the block held from the allocator" + where()};
    } else if constexpr (requires { c.front(); c.back(); }) {
      if (!c.empty()) for (const void* p : {(const void*)&c.front(), (const void*)&c.back()}) if (!AL.covers(p, sizeof(c.front()))) throw Mismatch{"an element lies outside every block held from the allocator" + where()};
    }
  }
  template <class V> void tick(V (&v)[3]) { misuse(); if (ops % 4 == 0) for (auto& c : v) walk(c); }
};
template <class F> void guarded(Ctx& c, const char* l, F f) {
  c.label(l);
  std::string log;
  AL.held.clear(); AL.error = nullptr; AL.total = 0;
  BlockSink k; if (c.desc) k.log = &log;
  try { f(k); } catch (const Mismatch&) { c.say(log); throw; }
    catch (const std::exception& e) { c.say(log); throw Mismatch{std::string("unexpected exception ") + e.what() + k.where()}; }
  c.say(log);
  c.say("blocks obtained: " + std::to_string(AL.total));
  k.cur = "after the containers are gone";
  k.misuse();
  if (!AL.held.empty()) throw Mismatch{std::to_string(AL.held.size()) + " blocks were never given back" + k.where()};
  c.nontrivial = k.ops >= 5 && AL.total >= 4;
}
// Histories with allocators that have an identity.
template <class C, class K> void made_by(C& c, int id, K& k) {
  k.walk(c);
  const void* p = c.size() ? (const void*)&*c.begin() : nullptr;
  for (auto& [q, b] : AL.held) if (p >= q && p < q + b.n * b.size && b.id != id) throw Mismatch{"a container constructed with an allocator does not use it" + k.where()};
}
template <class F, class K> void made_fl(F& c, int id, K& k) {
  k.walk(c);
  for (auto i = c.begin(); !(i == c.end()); ++i) { auto q = AL.held.upper_bound((const char*)&*i); --q; if (q->second.id != id) throw Mismatch{"a forward_list constructed with an allocator does not use it" + k.where()}; }
}
template <class T, bool Str, class K> void run_ids(Src s, K& k) {
  using V = std::conditional_t<Str, cest::basic_string<T, std::char_traits<T>, Alloc<T, true>>, cest::vector<T, Alloc<T, true>>>;
  V v[3] = {V(Alloc<T, true>(1)), V(Alloc<T, true>(2)), V(Alloc<T, true>(3))};
  while (!s.done()) {
    unsigned op = s.byte() % 10, a = s.byte() % 3, x = s.byte(), y = s.byte(); s.byte(); s.byte();
    unsigned b = x % 3;
    V& u = v[a];
    switch (op) {
      case 0: case 1: k.op("push_back", a); u.push_back(T(y)); break;
      case 2: k.op("push many", a, y); for (unsigned i = 0; i < y && u.size() < 600; i++) u.push_back(T(i)); break;
      case 3: k.op("pop_back", a); if (u.size()) u.pop_back(); break;
      case 4: k.op("reserve", a, y); u.reserve(y); break;
      case 5: k.op("copy assign", a, b); u = v[b]; break;
      case 6: k.op("copy construct", a, b); { V t(v[b]); t.push_back(T(y)); k.walk(t); if (y & 1) u = t; } break;
      case 7: k.op("clear", a); u.clear(); break;
      case 8: if constexpr (Str) { k.op("append", a, b); if (u.size() < 600) u.append(v[b]); } else { k.op("swap", a, b); u.swap(v[b]); } break;
      default: if constexpr (Str) { k.op("construct(alloc)", a, y % 4); Buf<T> t(y); for (unsigned i = 0; i < y; i++) t.p[i] = T(1 + i % 100); std::basic_string<T> z(t.p, y); std::basic_istringstream<T> zs(z); const Alloc<T, true> al(int(x) + 10); V w = y % 4 == 0 ? V(t.p, y, al) : y % 4 == 1 ? V(z.c_str(), al) : y % 4 == 2 ? V(std::istreambuf_iterator<T>(zs), std::istreambuf_iterator<T>(), al) : V(al); if (w.get_allocator().id != int(x) + 10) throw Mismatch{"a string constructed with an allocator reports another" + k.where()}; made_by(w, int(x) + 10, k); w.push_back(T(1)); made_by(w, int(x) + 10, k); u = w; }
               else { switch (y % 6) { case 0: { k.op("construct(count,alloc)", a); V w((std::size_t)x, Alloc<T, true>(int(x) + 10)); made_by(w, int(x) + 10, k); w.push_back(T(1)); made_by(w, int(x) + 10, k); u.swap(w); break; }
                 case 1: { k.op("construct(list,alloc)", a); V w({T(1), T(2), T(3)}, Alloc<T, true>(int(x) + 10)); made_by(w, int(x) + 10, k); cest::deque<T, Alloc<T, true>> d({T(1), T(2)}, Alloc<T, true>(int(x) + 10)); made_by(d, int(x) + 10, k); u.swap(w); break; }
                 case 2: { k.op("list(alloc)", a); const Alloc<T, true> al(int(x) + 10); cest::list<T, Alloc<T, true>> d(al); for (unsigned i = 0; i < y % 5 + 1; i++) { d.push_back(T(i)); d.push_front(T(i)); d.emplace(d.begin(), T(i)); } made_by(d, int(x) + 10, k); auto t(d); made_by(t, int(x) + 10, k); d.clear(); d.push_back(T(1)); made_by(d, int(x) + 10, k); break; }
                 case 3: { k.op("forward_list(alloc)", a); const Alloc<T, true> al(int(x) + 10); using F = cest::forward_list<T, Alloc<T, true>>; F d(al); auto put = [&](F& f) { for (unsigned i = 0; i < x % 5 + 1; i++) { f.push_front(T(i)); f.insert_after(f.before_begin(), T(i)); } }; put(d); made_fl(d, int(x) + 10, k);
                   F t(d, Alloc<T, true>(int(y) + 300)); made_fl(t, int(y) + 300, k); put(t); made_fl(t, int(y) + 300, k); F m(std::move(t)); made_fl(m, int(y) + 300, k); F e(d); made_fl(e, int(x) + 10, k); d.swap(e); d.push_front(T(4)); e.push_front(T(4)); m.push_front(T(4)); made_fl(d, int(x) + 10, k); made_fl(e, int(x) + 10, k); made_fl(m, int(y) + 300, k); break; }
                 case 4: { k.op("deque(alloc)", a); const Alloc<T, true> al(int(x) + 10); cest::deque<T, Alloc<T, true>> d(al); for (unsigned i = 0; i < x * 9u % 700 + 1; i++) { if (i & 1) d.push_back(T(i)); else d.push_front(T(i)); } made_by(d, int(x) + 10, k); auto t(d); made_by(t, int(x) + 10, k); break; }
                 default: { k.op("move", a, b); V w(std::move(v[b])); k.walk(w); v[a].swap(w); } } }
    }
    tick(k, v);
  }
}
// Allocators that are all different unless copied: every default-constructed one has an identity of its own.
// K: 0 copies of containers share it, 1 copies of containers get one of their own, 2 it cannot be assigned (like those of std::pmr).
inline int fresh_id = 0;
template <class T, int K> struct Fresh {
  using value_type = T;
  template <class U> struct rebind { using other = Fresh<U, K>; };
  int id;
  Fresh() : id(++fresh_id) {}
  explicit Fresh(int i) : id(i) {}
  Fresh(const Fresh&) = default;
  Fresh& operator=(const Fresh&) requires (K != 2) = default;
  Fresh& operator=(const Fresh&) requires (K == 2) = delete;
  template <class U> Fresh(const Fresh<U, K>& o) : id(o.id) {}
  Fresh select_on_container_copy_construction() const { return K == 1 ? Fresh() : *this; }
  T* allocate(std::size_t n) { Alloc<T, true> a(id); return a.allocate(n); }
  void deallocate(T* p, std::size_t n) { Alloc<T, true> a(id); a.deallocate(p, n); }
  friend bool operator==(const Fresh& a, const Fresh& b) { return a.id == b.id; }
};
// The identity of the allocator every element's block came from; 0 if there is none.
template <class C, class K> int id_of(C& c, K& k) {
  int id = 0;
  k.walk(c);
  auto one = [&](const void* p) { auto it = AL.held.upper_bound((const char*)p); if (it == AL.held.begin()) throw Mismatch{"an element lies outside every block" + k.where()}; --it;
    if (id && it->second.id != id) throw Mismatch{"one container's elements came from different allocators" + k.where()}; id = it->second.id; };
  if constexpr (requires { c.c_str(); }) one(c.data());
  else if constexpr (requires { c.begin(); }) { for (auto it = c.begin(); !(it == c.end()); ++it) one(&*it); }
  else if (!c.empty()) { one(&c.front()); one(&c.back()); }
  return id;
}
template <class C, int Sel, class PUT, class K> void run_fresh(Src s, K& k, PUT put) {
  std::unique_ptr<C> v[3]; for (auto& p : v) p.reset(new C());
  auto full = [](C& c) { return !c.empty(); };
  while (!s.done()) {
    unsigned op = s.byte() % 10, a = s.byte() % 3, x = s.byte(), y = s.byte(); s.byte(); s.byte();
    unsigned b = x % 3;
    C& u = *v[a];
    const int was = id_of(u, k);
    switch (op) {
      case 0: case 1: case 2: { k.op("add", a, y); for (unsigned i = 0; i <= y % 7; i++) put(u, int(y + i)); break; }
      case 3: { k.op("copy construct", a, b); C& from = *v[b]; const int id = id_of(from, k); std::unique_ptr<C> t(new C(from)); const bool some = full(*t); put(*t, 1); const int now = id_of(*t, k);
          if (some && id && (Sel == 1 ? now == id : now != id)) throw Mismatch{(Sel == 1 ? "a copy uses the allocator of its original, not the one chosen for copies" : "a copy does not use the allocator of its original") + k.where()};
          if (y & 1) v[a] = std::move(t); else if (y & 2) v[a].reset(); if (!v[a]) v[a] = std::move(t); break; }
      case 4: case 5: { k.op("copy assign", a, b); u = *v[b]; put(u, 2); const int now = id_of(u, k); if (was && now != was) throw Mismatch{"assignment changed the container's allocator" + k.where()}; break; }
      case 6: k.op("clear", a); if constexpr (requires { u.clear(); }) { if (y % 2) u.clear(); } break;
      case 7: k.op("replace", a); v[a].reset(new C()); break;
      case 8: k.op("remove", a); if (!u.empty()) { if constexpr (requires { u.pop_front(); }) u.pop_front(); else if constexpr (requires { u.pop_back(); }) u.pop_back(); else if constexpr (requires { u.pop(); }) u.pop(); } break;
      default: k.op("move construct", a, b); { const int id = id_of(*v[b], k); const bool some = full(*v[b]); std::unique_ptr<C> t(new C(std::move(*v[b]))); if constexpr (requires { u.capacity(); } && !requires { u.c_str(); }) if (some && id_of(*t, k) != id) throw Mismatch{"a moved vector lost its allocator" + k.where()};
          put(*v[b], 5); put(*t, 6); id_of(*v[b], k); id_of(*t, k); if (y & 1) v[a] = std::move(t); break; }
    }
    for (auto& p : v) id_of(*p, k);
    k.misuse();
  }
}
template <int K, class S> void run_fresh_any(Src s, S& k, unsigned kind) {
  auto back = [](auto& c, int i) { c.push_back(i); }; auto front = [](auto& c, int i) { c.push_front(i); };
  auto ins = [](auto& c, int i) { c.insert(i); }; auto insm = [](auto& c, int i) { c.insert({i, i}); }; auto push = [](auto& c, int i) { c.push(i); };
  using D = cest::deque<int, Fresh<int, K>>; using L = cest::list<int, Fresh<int, K>>;
  fresh_id = 0;
  switch (kind % 9) {
    case 0: return run_fresh<cest::vector<int, Fresh<int, K>>, K>(s, k, back);
    case 1: return run_fresh<D, K>(s, k, [](auto& c, int i) { if (i & 1) c.push_back(i); else c.push_front(i); });
    case 2: return run_fresh<L, K>(s, k, [](auto& c, int i) { if (i & 1) c.push_back(i); else c.emplace(c.begin(), i); });
    case 3: return run_fresh<cest::forward_list<int, Fresh<int, K>>, K>(s, k, front);
    case 4: return run_fresh<cest::set<int, std::less<int>, Fresh<int, K>>, K>(s, k, ins);
    case 5: return run_fresh<cest::map<int, int, std::less<int>, Fresh<std::pair<const int, int>, K>>, K>(s, k, insm);
    case 6: return run_fresh<cest::queue<int, D>, K>(s, k, push);
    case 7: return run_fresh<cest::queue<int, L>, K>(s, k, push);
    default: return run_fresh<cest::basic_string<char, std::char_traits<char>, Fresh<char, K>>, K>(s, k, [](auto& c, int i) { if (i & 1) c.push_back(char(i)); else if (c.size() < 300) c.append(c); });
  }
}
template <class T> using A = Alloc<T, false>;
void vf_case(Src s, Ctx& c) {
  unsigned what = s.byte(), kind = s.byte();
  auto P = [](auto t) { using T = decltype(t); return (std::pair<const int, T>*)nullptr; };
  (void)P;
  using str = std::string;
  if (kind >= 250) {
    c.label("long");
    const unsigned mode = kind % 6;
    s = few(s, 6, 24);
    switch (what % 9) {
      case 0: return guarded(c, "vector<int>", [&](auto& k) { run_vec<cest::vector<int, A<int>>>(s, k, 2400, 9000); });
      case 1: return guarded(c, "vector<string>", [&](auto& k) { run_vec<cest::vector<str, A<str>>>(s, k, 1100, 3000); });
      case 2: return guarded(c, "deque<int>", [&](auto& k) { run_deq<cest::deque<int, A<int>>>(s, k, 8192, 16000); });
      case 3: return guarded(c, "list<string>", [&](auto& k) { run_list<cest::list<str, A<str>>>(s, k, 2500); });
      case 4: return guarded(c, "forward_list<string>", [&](auto& k) { run_fl<cest::forward_list<str, A<str>>>(s, k, 2500); });
      case 5: return guarded(c, "set<int>", [&](auto& k) { run_set<cest::set<int, std::less<int>, A<int>>>(s, k, mode, 2500); });
      case 6: return guarded(c, "map<int,string>", [&](auto& k) { run_map<cest::map<int, str, std::less<int>, A<std::pair<const int, str>>>>(s, k, mode, 2500); });
      case 7: return guarded(c, "queue on deque", [&](auto& k) { using D = cest::deque<int, A<int>>; run_q<cest::queue<int, D>, D>(s, k, 2048); });
      default: return guarded(c, "string", [&](auto& k) { run_str<cest::basic_string<char, std::char_traits<char>, A<char>>>(s, k, 2100, 9000); });
    }
  }
  switch (what % 16) {
    case 13: return guarded(c, "distinct allocators", [&](auto& k) { run_fresh_any<0>(s, k, kind); });
    case 14: return guarded(c, "distinct allocators, copies have their own", [&](auto& k) { run_fresh_any<1>(s, k, kind); });
    case 15: return guarded(c, "distinct allocators that cannot be assigned", [&](auto& k) { run_fresh_any<2>(s, k, kind); });
    case 0: return guarded(c, "vector<int>", [&](auto& k) { run_vec<cest::vector<int, A<int>>>(s, k, 60, 200); });
    case 1: return guarded(c, "vector<string>", [&](auto& k) { run_vec<cest::vector<str, A<str>>>(s, k, 60, 200); });
    case 2: return guarded(c, "deque<int>", [&](auto& k) { run_deq<cest::deque<int, A<int>>>(s, k, 1024, 3200); });
    case 3: return guarded(c, "deque<wide>", [&](auto& k) { run_deq<cest::deque<Wide, A<Wide>>>(s, k, 1024, 2200); });
    case 4: return guarded(c, "list<string>", [&](auto& k) { run_list<cest::list<str, A<str>>>(s, k, 80); });
    case 5: return guarded(c, "forward_list<string>", [&](auto& k) { run_fl<cest::forward_list<str, A<str>>>(s, k, 80); });
    case 6: return guarded(c, "set<int>", [&](auto& k) { run_set<cest::set<int, std::less<int>, A<int>>>(s, k, kind, 120); });
    case 7: return guarded(c, "map<int,string>", [&](auto& k) { run_map<cest::map<int, str, std::less<int>, A<std::pair<const int, str>>>>(s, k, kind, 120); });
    case 8: return guarded(c, "queue on deque", [&](auto& k) { using D = cest::deque<int, A<int>>; run_q<cest::queue<int, D>, D>(s, k, 512); });
    case 9: return guarded(c, "queue on list", [&](auto& k) { using D = cest::list<int, A<int>>; run_q<cest::queue<int, D>, D>(s, k, 0); });
    case 10: if (kind & 1) return guarded(c, "string", [&](auto& k) { run_str<cest::basic_string<char, std::char_traits<char>, A<char>>>(s, k, 100, 400); });
             return guarded(c, "u32string", [&](auto& k) { run_str<cest::basic_string<char32_t, std::char_traits<char32_t>, A<char32_t>>>(s, k, 100, 400); });
    case 11: return guarded(c, "vector, allocators with identity", [&](auto& k) { run_ids<int, false>(s, k); });
    default: return guarded(c, "string, allocators with identity", [&](auto& k) { run_ids<char, true>(s, k); });
  }
}
} // namespace vf
