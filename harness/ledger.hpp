// Element and memory ledgers for the lifetime, allocator and fault checks.
#ifndef VERIF_LEDGER_HPP
#define VERIF_LEDGER_HPP
#include "driver.hpp"
#include <new>
namespace vf {

// Elements ---------------------------------------------------------------------------
struct Ledger {
  std::unordered_set<const void*> live;
  const char* error = nullptr;                      // first misuse seen
  long fault = -1;                                  // events left before one throws
  u64 events = 0;
  bool armed = false;                               // operator new counts as an event
  struct Quiet { Ledger& l; bool a; explicit Quiet(Ledger& x) : l(x), a(x.armed) { x.armed = false; } ~Quiet() { l.armed = a; } };
  void reset() { live.clear(); error = nullptr; fault = -1; events = 0; armed = false; }
  void bad(const char* m) { if (!error) error = m; }
  void born(const void* p) { Quiet q(*this); if (!live.insert(p).second) bad("an element was constructed over a live element"); }
  void died(const void* p) { Quiet q(*this); if (!live.erase(p)) bad("an element was destroyed that was not alive"); }
  void need(const void* p, const char* m) { if (!live.count(p)) bad(m); }
};
inline Ledger LG;
struct Injected { int where; };
// A point at which copying or allocating may fail.
inline bool only_armed = false;                     // events count only while armed
inline void event() {
  if (only_armed && !LG.armed) return;
  ++LG.events;
  if (LG.fault >= 0 && LG.fault-- == 0) throw Injected{1};
}

enum { COPY_ONLY, NOEXCEPT_MOVE, THROWING_MOVE };
template <int Kind, int Pad = 0> struct Trk {
  int v = 0;
  char pad[8 * Pad + 4] = {};
  Trk() { event(); LG.born(this); }
  explicit Trk(int x) : v(x) { LG.born(this); }     // made by the harness; never fails
  Trk(const Trk& o) : v(o.v) { LG.need(&o, "an element that is not alive was copied"); event(); LG.born(this); }
  Trk(Trk&& o) noexcept(Kind == NOEXCEPT_MOVE) requires (Kind != COPY_ONLY) : v(o.v) {
    LG.need(&o, "an element that is not alive was moved from");
    if constexpr (Kind == THROWING_MOVE) event();
    LG.born(this); o.v = -9999;
  }
  Trk& operator=(const Trk& o) { LG.need(this, "an element that is not alive was assigned to"); LG.need(&o, "an element that is not alive was assigned from"); event(); v = o.v; return *this; }
  Trk& operator=(Trk&& o) noexcept(Kind == NOEXCEPT_MOVE) requires (Kind != COPY_ONLY) {
    LG.need(this, "an element that is not alive was assigned to"); LG.need(&o, "an element that is not alive was assigned from");
    if constexpr (Kind == THROWING_MOVE) event();
    if (this != &o) { v = o.v; o.v = -9999; } return *this;
  }
  ~Trk() { LG.died(this); }
  void use() const { LG.need(this, "an element that is not alive was read"); }
  friend bool operator==(const Trk& a, const Trk& b) { a.use(); b.use(); return a.v == b.v; }
  friend bool operator<(const Trk& a, const Trk& b) { a.use(); b.use(); event(); return a.v < b.v; }
};
template <int K, int P> struct Elem<Trk<K, P>> {
  static Trk<K, P> make(unsigned n) { return Trk<K, P>(int(n)); }
  static u64 val(const Trk<K, P>& t) { t.use(); return u64(std::int64_t(t.v)); }
};

// Memory -----------------------------------------------------------------------------
inline long heap_blocks = 0;                        // blocks of operator new outstanding

} // namespace vf

#ifdef VF_OWN_NEW
void* operator new(std::size_t n) { if (vf::only_armed) vf::event(); void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++vf::heap_blocks; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --vf::heap_blocks; std::free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n, std::align_val_t a) { if (vf::only_armed) vf::event(); std::size_t al = std::size_t(a); void* p = std::aligned_alloc(al, (n + al - 1) / al * al); if (!p) throw std::bad_alloc(); ++vf::heap_blocks; return p; }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
#endif
#endif
