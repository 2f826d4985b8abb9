// Histories over queues, observed through their public interface.
#ifndef VERIF_INTERP_QUEUE_HPP
#define VERIF_INTERP_QUEUE_HPP
#include "core.hpp"
namespace vf {
constexpr unsigned Q_OPS = 14, Q_REC = 5;
template <class Q, class S> constexpr void observe_q(Q& q, S& k) {
  using E = Elem<typename Q::value_type>;
  const Q& c = q;
  k.obs("size", c.size()); k.obs("empty", c.empty());
  if (!c.empty()) { k.obs("front", E::val(q.front())); k.obs("cfront", E::val(c.front())); k.obs("back", E::val(q.back())); k.obs("cback", E::val(c.back())); }
}
// Q is the queue under test or std::queue; C its container type.
template <class Q, class C, class S> constexpr void run_q(Src s, S& k, unsigned big) {
  using T = typename Q::value_type; using E = Elem<T>;
  Q v[3];
  unsigned serial = 0;
  auto drain = [&](Q q) { std::size_t n = 0; while (!q.empty() && n++ < 2000000) { k.obs("drained", E::val(q.front())); q.pop(); } k.obs("drained count", n); };
  while (!s.done()) {
    unsigned op = s.byte() % Q_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned b = x % 3;
    Q& u = v[a]; ++serial;
    const unsigned burst = (big > 60000 ? y < 100 : y < 200) ? z % 30 : big ? big * (1 + x % 2) - 6 + z % 13 : z;
    switch (op) {
      case 0: case 1: { k.op("push(const&)", a); const T t = E::make(serial); u.push(t); k.obs("arg", E::val(t)); break; }
      case 2: k.op("push(&&)", a); u.push(E::make(serial)); break;
      case 3: case 4: k.op("pop", a); if (!u.empty()) u.pop(); break;
      case 5: case 6: k.op("push burst", a, burst); if (u.size() < 4000 || (big > 60000 && u.size() < 200000)) for (unsigned i = 0; i < burst; i++) u.push(E::make(serial + i)); break;
      case 7: k.op("pop burst", a, burst); for (unsigned i = 0; i < burst && !u.empty(); i++) { if (!(i & 63)) k.obs("popped", E::val(u.front())); u.pop(); } break;
      case 8: { k.op("slide", a, burst); if (!u.empty()) for (unsigned i = 0; i < burst; i++) { u.push(E::make(serial + i)); u.pop(); } break; }
      case 9: k.op("copy construct", a, b); { Q t(v[b]); observe_q(t, k); if (y & 1) { t.push(E::make(serial)); observe_q(v[b], k); } drain(t); } break;
      case 10: k.op("assign", a, b); v[a] = v[b]; observe_q(v[b], k); break;
      case 11: case 12: { unsigned n = z % 9; k.op("construct from container", a, n); C c; for (unsigned i = 0; i < n; i++) { if (i & 1) c.push_front(E::make(serial + i)); else c.push_back(E::make(serial + i)); }
          if (y & 1) { Q t(c); k.obs("container kept", c.size()); observe_q(t, k); u = t; } else { Q t(std::move(c)); observe_q(t, k); u = t; } break; }
      default: k.op("write", a); if (!u.empty()) { if (y & 1) u.front() = E::make(serial); else u.back() = E::make(serial); } break;
    }
    observe_q(u, k);
    tick(k, v);
  }
  for (int i = 0; i < 3; i++) { k.op("final", i); observe_q(v[i], k); drain(v[i]); }
}
} // namespace vf
#endif
