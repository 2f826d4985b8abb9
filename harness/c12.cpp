#include "driver.hpp"
#include "interp_ptr.hpp"
#include <cest/memory.hpp>
#include <memory>
namespace vf {
const Shape vf_shape{0, UP_REC, UP_OPS, 160};
const char* const vf_rule = "A case is a list of 4-byte operation records over four owners of a polymorphic base and three owners of a derived class (construction, moves, converting moves, resets, releases, destruction, comparisons), also read as operations on chains of nodes that own their successors, and as calls of make_unique for twelve types; it is non-trivial if it makes at least 5 operations of which at least two transfer or end ownership.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
template <class T> using SU = std::unique_ptr<T>;
template <class T> using CU = cest::unique_ptr<T>;
struct SM { template <class T, class... A> static auto make(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); } };
struct CM { template <class T, class... A> static auto make(A&&... a) { return cest::make_unique<T>(std::forward<A>(a)...); } };

template <> struct Elem<std::vector<int>> { static u64 val(const std::vector<int>& v) { u64 h = v.size(); for (int i : v) h = mix(h, u64(i)); return h; } };
// make_unique makes what the arguments say, whatever the type's constructors.
struct Point { int x, y; long z = 7; };
struct Listed { int how; unsigned n = 0; Listed() : how(0) {} Listed(std::initializer_list<int> l) : how(1), n(unsigned(l.size())) {} explicit Listed(int) : how(2) {} Listed(int, int) : how(3) {} Listed(const Listed&) : how(4) {} Listed(Listed&&) : how(5) {} };
struct alignas(128) Aligned { int v; char fill[100] = {}; explicit Aligned(int i) : v(i) {} };
template <template <class> class UP, class MK, class S> void run_make(Src s, S& k) {
  while (!s.done()) {
    unsigned op = s.byte() % 12, x = s.byte(), y = s.byte(), z = s.byte();
    switch (op) {
      case 0: { k.op("vector<int>(n, v)", x % 20, y); UP<std::vector<int>> p = MK::template make<std::vector<int>>(x % 20, int(y)); k.obs("vector", Elem<std::vector<int>>::val(*p)); break; }
      case 1: { k.op("string(n, c)", x % 40, y); UP<std::string> p = MK::template make<std::string>(x % 40, char(y)); k.obs("string", Elem<std::string>::val(*p)); break; }
      case 2: { k.op("aggregate", x, y); UP<Point> p = z & 1 ? MK::template make<Point>(int(x), int(y)) : z & 2 ? MK::template make<Point>(int(x), int(y), long(z)) : MK::template make<Point>(); k.obs("x", u64(p->x)); k.obs("y", u64(p->y)); k.obs("z", u64(p->z)); break; }
      case 3: { k.op("listed", z % 6); const Listed l(1); UP<Listed> p = z % 6 == 0 ? MK::template make<Listed>() : z % 6 == 1 ? MK::template make<Listed>(int(x)) : z % 6 == 2 ? MK::template make<Listed>(int(x), int(y)) : z % 6 == 3 ? MK::template make<Listed>(l) : z % 6 == 4 ? MK::template make<Listed>(Listed(2)) : MK::template make<Listed>(std::initializer_list<int>{1, 2, 3}); k.obs("how", u64(p->how)); k.obs("n", p->n); break; }
      case 4: { k.op("int", x); UP<int> p = z & 1 ? MK::template make<int>() : MK::template make<int>(x * 0.75 - y); k.obs("int", u64(*p)); break; }
      case 5: { k.op("const", x); UP<const std::string> p = MK::template make<const std::string>("some text", x % 10); k.obs("const", Elem<std::string>::val(*p)); break; }
      case 6: { k.op("over-aligned", x); UP<Aligned> p = MK::template make<Aligned>(int(x)); k.check(reinterpret_cast<std::uintptr_t>(p.get()) % alignof(Aligned) == 0, "the object is not aligned"); k.obs("value", u64(p->v)); break; }
      case 7: { k.op("reference argument", x); int cell = int(x); struct R { int& r; explicit R(int& i) : r(i) {} }; UP<R> p = MK::template make<R>(cell); k.check(&p->r == &cell, "a reference argument was copied"); p->r++; k.obs("cell", u64(cell)); break; }
      case 8: { k.op("vector<vector>", x % 5, y % 5); UP<std::vector<std::vector<int>>> p = MK::template make<std::vector<std::vector<int>>>(x % 5, std::vector<int>(y % 5, int(z))); u64 h = p->size(); for (auto& v : *p) h = mix(h, Elem<std::vector<int>>::val(v)); k.obs("vectors", h); break; }
      case 9: { k.op("pointer", x); UP<int*> p = z & 1 ? MK::template make<int*>() : MK::template make<int*>(nullptr); k.obs("null", *p == nullptr); break; }
      case 10: { k.op("pair", x, y); auto p = MK::template make<std::pair<int, std::string>>(int(x), std::string(y % 30, 'p')); k.obs("first", u64(p->first)); k.obs("second", Elem<std::string>::val(p->second)); break; }
      default: { k.op("copy of a vector", x % 9); const std::vector<int> v(x % 9, int(y)); UP<std::vector<int>> p = MK::template make<std::vector<int>>(v), q = MK::template make<std::vector<int>>(v.begin(), v.end()); k.obs("vector", Elem<std::vector<int>>::val(*p)); k.obs("vector", Elem<std::vector<int>>::val(*q)); break; }
    }
  }
}
// A pointee whose destructor looks at its owner: by then the owner must hold its new pointer.
struct WatchUP;
template <class O> struct Watcher { O** owner; bool* stale; int id; ~Watcher() { if (*owner && (*owner)->get() == this) *stale = true; } };
struct WatchUP : cest::unique_ptr<Watcher<WatchUP>> { using cest::unique_ptr<Watcher<WatchUP>>::unique_ptr; };
void vf_case(Src s, Ctx& c) {
  unsigned nops = 0, mut = 0;
  for (std::size_t i = s.i; i + UP_REC <= s.n; i += UP_REC) { ++nops; unsigned op = s.p[i] % UP_OPS; if (op >= 4 && op <= 12) ++mut; }
  c.nontrivial = nops >= 5 && mut >= 2;
  differential(s, c, [&](Src q, auto& k) { run_uptr<SU, SM>(q, k); }, [&](Src q, auto& k) { run_uptr<CU, CM>(q, k); });
  differential(s, c, [&](Src q, auto& k) { run_uchain<SU>(q, k); }, [&](Src q, auto& k) { run_uchain<CU>(q, k); });
  differential(s, c, [&](Src q, auto& k) { run_make<SU, SM>(q, k); }, [&](Src q, auto& k) { run_make<CU, CM>(q, k); });
  // resets and assignments over an object whose destructor inspects its owner
  using W = Watcher<WatchUP>;
  WatchUP* self = nullptr; bool stale = false;
  { WatchUP p; self = &p; int id = 0;
    for (std::size_t i = 0; i + UP_REC <= s.n && i < 20 * UP_REC; i += UP_REC) {
      unsigned a = s.p[i + 1] % 3;
      if (a == 0) p.reset(new W{&self, &stale, ++id});
      else if (a == 1) p.reset();
      else { cest::unique_ptr<W>& base = p; base = cest::unique_ptr<W>(new W{&self, &stale, ++id}); }
      if (stale) throw Mismatch{"an object was deleted while its owner's get() still returned it [reset or assignment]"};
    }
    self = nullptr;
  }
}
} // namespace vf
