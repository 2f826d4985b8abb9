#include "driver.hpp"
#include <cest/deque.hpp>
#include <cest/forward_list.hpp>
#include <cest/list.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
#include <cest/set.hpp>
#include <cest/string.hpp>
#include <cest/vector.hpp>
namespace vf {
constexpr unsigned OPS = 16, REC = 5;
const Shape vf_shape{2, REC, OPS, 40};
const char* const vf_rule = "A case is a header choosing a container and a list of 5-byte operation records (insertion patterns: ascending, descending, zigzag, organ pipe, bit-reversed, random, clustered, blocks; pushes, pops and erasures in bursts); "
  "comparisons, allocations and element operations are counted around every call and compared with the stated bound; it is non-trivial if a bound was checked on a container of at least 64 elements (lists: 4).";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

// Counters -----------------------------------------------------------------------------
u64 n_cmp, n_alloc, n_units, n_live, n_touch, n_made, n_gone;
unsigned lg(u64 n) { unsigned r = 0; while (n) { ++r; n >>= 1; } return r; }
template <class T> struct CountAlloc {
  using value_type = T;
  constexpr CountAlloc() = default;
  template <class U> constexpr CountAlloc(const CountAlloc<U>&) {}
  T* allocate(std::size_t n) { ++n_alloc; n_units += n; n_live += n; return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { n_live -= n; std::allocator<T>().deallocate(p, n); }
  bool operator==(const CountAlloc&) const { return true; }
};
// Counts what is done to it. `touched` also on the element itself.
struct E {
  int v; mutable unsigned touched = 0;
  E(int x = 0) : v(x) { ++n_made; }
  E(const E& o) : v(o.v) { ++n_made; ++n_touch; ++o.touched; }
  E(E&& o) noexcept : v(o.v) { ++n_made; ++n_touch; ++o.touched; }
  E& operator=(const E& o) { v = o.v; ++n_touch; ++o.touched; ++touched; return *this; }
  E& operator=(E&& o) noexcept { v = o.v; ++n_touch; ++o.touched; ++touched; return *this; }
  ~E() { ++n_gone; }
};
struct Cmp { using is_transparent = void; bool operator()(const E& a, const E& b) const { ++n_cmp; return a.v < b.v; } bool operator()(long a, const E& b) const { ++n_cmp; return a < b.v; } bool operator()(const E& a, long b) const { ++n_cmp; return a.v < b; } };
template <class V> struct CountTraits : std::char_traits<V> {
  static V* copy(V* d, const V* s, std::size_t n) { n_touch += n; return std::char_traits<V>::copy(d, s, n); }
  static V* move(V* d, const V* s, std::size_t n) { n_touch += n; return std::char_traits<V>::move(d, s, n); }
};
struct At { u64 cmp = n_cmp, alloc = n_alloc, units = n_units, touch = n_touch, made = n_made, gone = n_gone; };

struct Run {
  Ctx& c; std::string log;
  void need(bool ok, const char* what, u64 got, u64 bound, u64 size) {
    if (ok) return;
    c.say(log);
    throw Mismatch{std::string(what) + ": " + std::to_string(got) + ", bound " + std::to_string(bound) + ", size " + std::to_string(size)};
  }
  void atmost(u64 got, u64 bound, const char* what, u64 size, u64 big = 64) { if (size >= big) c.nontrivial = true; need(got <= bound, what, got, bound, size); }
};

// Key number k of pattern `pat` in [0, n)
int key(unsigned pat, unsigned k, unsigned n, unsigned salt) {
  switch (pat % 10) {
    case 0: return int(k);
    case 1: return int(n - k);
    case 2: return k & 1 ? int(n + k) : int(n) - int(k);                   // outwards
    case 3: return k & 1 ? int(2 * n) - int(k) : int(k);                   // inwards
    case 4: { unsigned r = 0; for (unsigned b = 0; b < 12; b++) r |= ((k >> b) & 1) << (11 - b); return int(r); }
    case 5: { u64 z = mix(k, salt); return int(z % (4 * n + 1)); }
    case 6: return int((k / 16) * 16 + 15 - k % 16);                       // descending in blocks
    case 7: return int((n / 16 - k / 16) * 16 + k % 16);                   // ascending in descending blocks
    case 8: { unsigned w = 1 + salt % 7; return int((k % w) * 4096 + k / w); }   // w ascending runs interleaved
    default: { unsigned w = 1 + salt % 7; return int((k % w) * 4096 + 4095 - k / w % 4096); }
  }
}
template <class C> void tree(Src s, Run& r) {
  constexpr bool is_map = requires { typename C::mapped_type; };
  C u; int shift = 0;
  auto bound = [](u64 n) { return 8 * u64(lg(n + 1)) + 16; };
  while (!s.done()) {
    unsigned op = s.byte() % OPS, pat = s.byte(), x = s.byte(), y = s.byte(), z = s.byte();
    if (op < 11) {
      unsigned n = y < 128 ? y : (y - 100) * 20 + x % 20; if (u.size() + n > 6000) n = 0;
      shift += int(z % 5) * 2500 - 5000;
      r.log += "insert " + std::to_string(n) + " keys in pattern " + std::to_string(pat % 10) + " at " + std::to_string(shift) + "\n";
      for (unsigned k = 0; k < n; k++) {
        E e(key(pat, k, n, x + 256u * z) + shift);
        std::size_t size = u.size(); At a; bool added;
        if constexpr (is_map) { typename C::value_type v(e, int(k)); a = At{}; added = u.insert(v).second; }
        else if (op == 0) { auto h = u.find(e); a = At{}; u.insert(h, e); added = u.size() > size; }
        else added = u.insert(e).second;
        r.atmost(n_cmp - a.cmp, bound(size), "comparisons made by an insertion", size);
        r.atmost(n_alloc - a.alloc, 3, "allocations made by an insertion", size);
        r.atmost(n_touch - a.touch, 8, "copies and moves made by an insertion", size);
        if (k % 64 == 0 || k + 1 == n) {
          // a find of a present and of an absent key
          At f; if (k & 64) (void)u.find(long(e.v)); else (void)u.find(e); r.atmost(n_cmp - f.cmp, bound(u.size()), "comparisons made by find", u.size()); r.atmost(n_alloc - f.alloc, 0, "allocations made by find", u.size()); r.atmost(n_touch - f.touch, 0, "copies made by find", u.size());
        }
        (void)added;
      }
    } else if (op < 15) {
      r.log += "find\n";
      const C& cu = u;
      for (int k = 0; k < 12; k++) { E e(int(mix(x, u64(k)) % 12000) - 4000 + shift); At f; if (z % 2) { if (k & 1) (void)u.find(e); else (void)cu.find(e); } else { u64 made = n_made; if (k & 1) (void)u.find(long(e.v)); else (void)cu.find(long(e.v)); r.atmost(n_made - made, 0, "elements constructed by find", u.size()); } r.atmost(n_cmp - f.cmp, bound(u.size()), "comparisons made by find", u.size()); r.atmost(n_touch - f.touch, 0, "copies made by find", u.size()); }
      if (u.size()) for (int k = 0; k < 2; k++) { auto i = u.begin(); std::size_t st = k ? u.size() - 1 : (x * 256u + y) % u.size(); while (st--) ++i; At f; if constexpr (is_map) (void)u.find((*i).first); else (void)u.find(*i); r.atmost(n_cmp - f.cmp, bound(u.size()), "comparisons made by find", u.size()); }
    } else if (z % 4 == 0) { r.log += "clear\n"; u.clear(); }
    else { At a; std::size_t n = 0; for (auto i = u.begin(); i != u.end(); ++i) n++; r.atmost(n_cmp - a.cmp, 0, "comparisons made by iterating", n); r.atmost(n_alloc - a.alloc, 0, "allocations made by iterating", n); }
  }
}
// vector, string: push_back amortised
template <class C, class Push> void growing(Src s, Run& r, Push push) {
  C u; u64 pushes = 0, peak = 0; At a;
  auto forget = [&](C& v) { pushes = v.size(); peak = v.size(); a = At{}; };
  while (!s.done()) {
    unsigned op = s.byte() % OPS, w = s.byte(), x = s.byte(), y = s.byte(), z = s.byte(); (void)w;
    if (op < 8) {
      unsigned n = y < 160 ? y % 40 : y < 240 ? y * 8 : y * 40; if (u.size() + n > 20000) n = 0;
      r.log += "push " + std::to_string(n) + " at size " + std::to_string(u.size()) + "\n";
      for (unsigned k = 0; k < n; k++) { At b; bool room = u.size() + 1 < u.capacity(); push(u, int(k)); ++pushes; if (room) { r.atmost(n_alloc - b.alloc, 0, "allocations made by a push_back below capacity", u.size()); r.atmost(n_touch - b.touch, 2, "copies and moves made by a push_back below capacity", u.size()); } }
      peak = std::max<u64>(peak, u.size());
    } else if (op < 11) {
      unsigned n = y < 160 ? y % 40 : y * 8; r.log += "pop " + std::to_string(n) + "\n";
      for (unsigned k = 0; k < n && u.size(); k++) { At b; u.pop_back(); r.atmost(n_alloc - b.alloc, 0, "allocations made by pop_back", u.size()); r.atmost(n_touch - b.touch, 0, "copies and moves made by pop_back", u.size()); }
    } else if (op < 13) {
      unsigned n = 1 + y % 60; r.log += "push and pop " + std::to_string(n) + " times\n";                    // around one size
      for (unsigned k = 0; k < n; k++) { push(u, int(k)); ++pushes; if (z & 1) { push(u, 3); ++pushes; u.pop_back(); } peak = std::max<u64>(peak, u.size()); u.pop_back(); }
    } else if (op == 13) {
      unsigned n = z < 200 ? z : z * 20; r.log += "reserve " + std::to_string(n) + "\n";
      At b; u.reserve(n); r.atmost(n_alloc - b.alloc, 1, "allocations made by reserve", u.size()); r.atmost(n_touch - b.touch, u.size() + 8, "copies and moves made by reserve", u.size());
      At q; std::size_t room = u.capacity() - u.size(), k = 0;
      for (; k < room && k < 3000 && u.size() < n; k++) push(u, int(k));
      r.atmost(n_alloc - q.alloc, 0, "allocations made by push_back after reserve", u.size()); r.atmost(n_touch - q.touch, 2 * k + 2, "copies and moves made by push_back after reserve", u.size());
      forget(u);
    } else if (op == 14) { r.log += "copy\n"; C t(u); r.need(t.size() == u.size(), "size of a copy", t.size(), u.size(), u.size()); u = t; forget(u); }
    else if (x % 4 == 0) { r.log += "fresh\n"; C t; u = t; forget(u); }
    // every push of this stretch together
    r.atmost(n_alloc - a.alloc, 5 * lg(peak + 1) + 12, "allocations made by all push_backs together", peak);
    r.atmost(n_units - a.units, 24 * peak + 64, "elements allocated by all push_backs together", peak);
    r.atmost(n_touch - a.touch, 2 * pushes + 12 * peak + 64, "copies and moves made by all push_backs together", peak);
  }
}
template <class C> void ends(Src s, Run& r) {                              // deque, queue
  constexpr bool q = requires { typename C::container_type; };
  C u; u64 pushes = 0, peak = 0; At a;                                       // peak: the most elements there have been
  auto back = [&](int k) { if constexpr (q) { if (k & 1) u.push(E(k)); else { E e(k); u.push(e); } } else if (k & 1) u.push_back(E(k)); else { E e(k); u.push_back(e); } };
  auto front = [&](int k) { if constexpr (q) back(k); else if (k & 1) u.push_front(E(k)); else { E e(k); u.push_front(e); } };
  auto popf = [&] { if constexpr (q) u.pop(); else u.pop_front(); };
  while (!s.done()) {
    unsigned op = s.byte() % OPS, w = s.byte(), x = s.byte(), y = s.byte(), z = s.byte(); (void)x; (void)w;
    unsigned n = y < 128 ? y % 60 : y < 220 ? y * 6 : y * 20;
    if (op < 8) {
      if (u.size() + n > 9000) n = 0;
      r.log += "push " + std::to_string(n) + (op & 1 ? " in front" : "") + " at size " + std::to_string(u.size()) + "\n";
      for (unsigned k = 0; k < n; k++) { At b; if (op & 1) front(int(k)); else back(int(k)); ++pushes; r.atmost(n_touch - b.touch, 2, "copies and moves made by a push", u.size()); r.atmost(n_made - b.made, 4, "elements constructed by a push", u.size()); r.atmost(n_alloc - b.alloc, 2, "allocations made by a push", u.size()); }
    } else if (op < 13) {
      r.log += "pop " + std::to_string(n) + "\n";
      for (unsigned k = 0; k < n && u.size(); k++) { At b; if constexpr (!q) { if (op & 1) u.pop_back(); else popf(); } else popf(); r.atmost(n_alloc - b.alloc, 0, "allocations made by a pop", u.size()); r.atmost(n_touch - b.touch, 0, "copies and moves made by a pop", u.size()); r.atmost(n_gone - b.gone, 1, "elements destroyed by a pop", u.size()); }
    } else if (op < 15) {
      if (x % 8 == 0) n *= 6;
      r.log += "slide " + std::to_string(n) + (q || !(z & 1) ? " by push_back" : " by push_front") + (z & 2 && !q ? ", pop_back\n" : ", pop_front\n"); if ((x & 32) && u.size() < 2) { back(1); back(2); pushes += 2; }
      peak = std::max<u64>(peak, u.size() + 1);
      for (unsigned k = 0; k < n; k++) { At b; bool f = !q && (z & 1); if (f) front(int(k)); else back(int(k)); ++pushes; if (z & 2 && !q) { if constexpr (!q) u.pop_back(); } else popf(); r.atmost(n_touch - b.touch, 2, "copies and moves made by a push and a pop", u.size()); r.atmost(n_gone - b.gone, 3, "elements destroyed by a push and a pop", u.size()); }
    } else if constexpr (!q) { if (z % 4 == 0) { r.log += "clear\n"; At b; u64 sz = u.size(); u.clear(); r.atmost(n_gone - b.gone, sz, "elements destroyed by clear", sz); r.atmost(n_touch - b.touch, 0, "copies and moves made by clear", sz); } }
    peak = std::max<u64>(peak, u.size());
    r.atmost(n_live, 4 * peak + 8192, "room for elements held after many pushes and pops", peak);
    r.atmost(n_alloc - a.alloc, pushes / 4 + 16, "allocations made by all pushes together", pushes);
    r.atmost(n_units - a.units, 64 * pushes + 8192, "elements allocated by all pushes together", pushes);
  }
}
template <class C> void nodes(Src s, Run& r) {                             // list, forward_list
  constexpr bool f = requires(C& c) { c.before_begin(); };
  C u; std::size_t n = 0;
  auto at = [&](std::size_t k) { if constexpr (f) { auto i = u.before_begin(); while (k--) ++i; return i; } else { auto i = u.begin(); while (k--) ++i; return i; } };
  int serial = 0;
  while (!s.done()) {
    unsigned op = s.byte() % OPS, x = s.byte(), y = s.byte(), z = s.byte(), w = s.byte(); (void)w;
    std::size_t i = (x * 256u + y) % (n + 1), j = n ? (x * 256u + y) % n : 0;
    for (auto& e : u) e.touched = 0;
    ++serial; E e(serial); At b; bool ins = true, ers = false; u64 gone = 0;
    if (n > 300) op = 10 + op % 4;
    switch (op) {
      case 0: case 1: r.log += "push_front\n"; if (op) u.push_front(e); else u.push_front(E(serial)); break;
      case 2: case 3: case 4: case 5: r.log += "insert\n"; if constexpr (f) { if (op & 1) u.insert_after(at(i), e); else u.insert_after(at(i), E(serial)); } else { if (op & 1) u.insert(at(i), e); else if (op == 2) u.insert(at(i), E(serial)); else u.emplace(at(i), serial); } break;
      case 6: case 7: if constexpr (!f) { r.log += "push_back\n"; if (op & 1) u.push_back(e); else u.push_back(E(serial)); } else u.push_front(e); break;
      case 8: if constexpr (!f) { r.log += "emplace_back\n"; u.emplace_back(serial); } else u.push_front(e); break;
      case 9: if constexpr (!f) { r.log += "emplace_front\n"; u.emplace_front(serial); } else u.push_front(e); break;
      case 10: case 11: ins = false; if (n) { r.log += "erase\n"; ers = true; gone = 1; if constexpr (f) u.erase_after(at(j)); else u.erase(at(j)); } break;
      case 12: ins = false; if (n) { r.log += "pop_front\n"; ers = true; gone = 1; u.pop_front(); } break;
      case 13: ins = false; if (n) { ers = true; if constexpr (f) { std::size_t k = i + z % (n - i + 1); r.log += "erase_after(range)\n"; gone = k - i; auto last = k == n ? u.end() : at(k + 1); u.erase_after(at(i), last); } else { r.log += "pop_back\n"; gone = 1; u.pop_back(); } } break;
      case 14: ins = false; if (z % 16 == 0) { r.log += "clear\n"; ers = true; gone = n; u.clear(); } break;
      default: ins = false; if constexpr (f) { C t; t.push_front(e); b = At{}; u.swap(t); u.swap(t); r.atmost(n_touch - b.touch, 0, "copies and moves made by swap", n, 4); } break;
    }
    u64 made = n_made - b.made, lost = n_gone - b.gone, alloc = n_alloc - b.alloc, touch = n_touch - b.touch;
    if (ins) { ++n; r.atmost(alloc, 2, "allocations made by an insertion", n, 4); r.atmost(made, 6, "elements constructed by an insertion", n, 4); r.atmost(touch, 5, "copies and moves made by an insertion", n, 4); }
    if (ers) { n -= gone; r.atmost(alloc, 0, "allocations made by an erasure", n, 4); r.atmost(made, 0, "elements constructed by an erasure", n, 4); r.atmost(lost, gone, "elements destroyed by an erasure", n, 4); r.atmost(touch, 0, "copies and moves made by an erasure", n, 4); }
    std::size_t seen = 0; for (auto& q : u) { ++seen; if (seen > n) break; r.need(q.touched == 0 || q.v == serial, "copies and moves of another element made by an insertion or erasure", q.touched, 0, n); }
  }
}
struct Pairs { template <class K, class V> using m = cest::map<K, V, Cmp, CountAlloc<std::pair<const K, V>>>; };
void vf_case(Src s, Ctx& c) {
  Run r{c};
  n_cmp = n_alloc = n_units = n_live = n_touch = n_made = n_gone = 0;
  unsigned cfg = s.byte(); s.byte();
  switch (cfg % 8) {
    case 0: c.label("set"); tree<cest::set<E, Cmp, CountAlloc<E>>>(s, r); break;
    case 1: c.label("map"); tree<Pairs::m<E, int>>(s, r); break;
    case 2: c.label("vector"); growing<cest::vector<E, CountAlloc<E>>>(s, r, [](auto& u, int k) { if (k & 1) u.push_back(E(k)); else { E e(k); u.push_back(e); } }); break;
    case 3: c.label("string"); growing<cest::basic_string<char, CountTraits<char>, CountAlloc<char>>>(s, r, [](auto& u, int k) { if (k & 1) u.push_back(char(k)); else u += char(k); }); break;
    case 4: c.label("deque"); ends<cest::deque<E, CountAlloc<E>>>(s, r); break;
    case 5: c.label("queue"); ends<cest::queue<E, cest::deque<E, CountAlloc<E>>>>(s, r); break;
    case 6: c.label("list"); nodes<cest::list<E, CountAlloc<E>>>(s, r); break;
    default: c.label("forward_list"); nodes<cest::forward_list<E, CountAlloc<E>>>(s, r); break;
  }
  c.say(r.log);
}
} // namespace vf
