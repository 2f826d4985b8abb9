#define VF_OWN_NEW
#include "ledger.hpp"
#include <optional>
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/deque.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/queue.hpp>
namespace vf {
constexpr unsigned F_OPS = 16, F_REC = 5;
const Shape vf_shape{2, F_REC, F_OPS, 14};
const char* const vf_rule = "A case is a header choosing a container and an element kind and up to 14 operation records over two containers; the history is replayed once for every event (element construction, copy, assignment, throwing move, comparison, heap allocation) made inside container operations, throwing at that event (all events if at most 40, else 40 of them spread over the history); it is non-trivial if at least one fault was injected into an operation on a container.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }

using Model = std::vector<int>;
struct Bad {};
[[noreturn]] inline void fail(const char* s) { LG.armed = false; throw Mismatch{s}; }
[[noreturn]] inline void fail(const std::string& s) { LG.armed = false; throw Mismatch{s}; }

template <class T> int num(const T& t) { if constexpr (requires { t.use(); t.v; }) { t.use(); return t.v; } else if constexpr (requires { t.first; }) return num(t.first) * 100000 + num(t.second); else return int(t); }

// Reads a container in every way it offers and insists that they agree.
template <class C> Model snap(C& c) {
  Model m;
  if constexpr (requires { c.begin(); }) {
    for (auto it = c.begin(); !(it == c.end()); ++it) { if (m.size() > 20000) fail("iteration does not end"); m.push_back(num(*it)); }
  }
  if constexpr (requires { c.size(); }) {
    if constexpr (!requires { c.begin(); }) { C t(c); while (!t.empty()) { if (m.size() > 20000) fail("the queue does not drain"); m.push_back(num(t.front())); t.pop(); } }
    if (c.size() != m.size()) fail("size() is " + std::to_string(c.size()) + " but " + std::to_string(m.size()) + " elements can be visited");
  }
  if (c.empty() != m.empty()) fail("empty() disagrees with the contents");
  if constexpr (requires { c[0]; }) for (std::size_t i = 0; i < m.size(); i++) if (num(c[i]) != m[i]) fail("indexing and iteration disagree");
  if constexpr (requires { c.front(); c.back(); }) if (!m.empty() && (num(c.front()) != m.front() || num(c.back()) != m.back())) fail("front() or back() disagrees with iteration");
  if constexpr (requires { c.capacity(); }) if (c.capacity() < c.size()) fail("capacity() < size()");
  if constexpr (requires { c.c_str(); }) if (c.c_str()[c.size()] != 0) fail("no terminating null");
  if constexpr (requires { --c.end(); c.push_front(c.front()); }) { std::size_t i = m.size(); auto it = c.end(); while (!(it == c.begin())) { if (!i) fail("backward iteration does not reach begin()"); --it; --i; if (num(*it) != m[i]) fail("backward iteration disagrees with forward iteration"); } if (i) fail("backward iteration is short"); }
  return m;
}

// One history with a fault at event number k (or none). Returns the events seen.
template <class C> struct Player {
  using T = typename C::value_type;
  Src s; long k; std::string* log; bool injected = false;
  template <class F> bool attempt(F f) {              // true if it completed
    LG.armed = true;
    try { f(); LG.armed = false; return true; }
    catch (const Injected&) { LG.armed = false; injected = true; return false; }
    catch (const Mismatch&) { LG.armed = false; throw; }
    catch (...) { LG.armed = false; fail("an exception other than the one thrown reached the caller"); }
  }
  static std::size_t held(C& c) { if constexpr (requires { c.size(); }) return c.size(); else { std::size_t n = 0; for (auto it = c.begin(); !(it == c.end()); ++it) if (++n > 20000) break; return n; } }
  u64 run() {
    LG.reset(); LG.fault = k;
    const long before = heap_blocks;
    {
      std::optional<C> v0, v1; Model m[2];
      v0.emplace(); v1.emplace();
      history(*v0, *v1, m);
      LG.fault = -1;
    }
    if (LG.error) fail(LG.error);
    if (!LG.live.empty()) fail(std::to_string(LG.live.size()) + " elements remain alive at the end");
    if (heap_blocks != before) fail(std::to_string(heap_blocks - before) + " heap blocks remain at the end");
    return LG.events;
  }
  void history(C& c0, C& c1, Model* m) {
    unsigned serial = 0;
    while (!s.done()) {
      unsigned op = s.byte() % F_OPS, a = s.byte() % 2, x = s.byte(), y = s.byte(), z = s.byte();
      C& u = a ? c1 : c0; C& w = a ? c0 : c1; Model& mu = m[a]; Model& mw = m[1 - a];
      ++serial;
      const char* name = "none"; bool strong = false; Model want = mu; Model wantw = mw; bool done = true;
      const int val = int(serial) + 10;
      do_op(op, x, y, z, u, w, mu, mw, val, name, strong, want, wantw, done);
      if (log) *log += std::string(name) + "(" + std::to_string(a) + "," + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + (done ? ")\n" : ") <- fault injected here\n");
      try {
        if (LG.error) fail(LG.error);
        Model gu = snap(u), gw = snap(w);
        if (done) { if (gu != want) fail("wrong contents"); if (gw != wantw) fail("the other container changed"); }
        else { if (strong && gu != mu) fail("a failing single-element insertion changed the container");
               if (gw != mw) fail("a failing operation changed the other container"); }
        mu = gu; mw = gw;
        if constexpr (requires (T t) { t.use(); }) if (LG.live.size() != held(u) + held(w)) fail("the containers report " + std::to_string(held(u) + held(w)) + " elements, " + std::to_string(LG.live.size()) + " are alive");
        if constexpr (requires (T t) { t.second.use(); }) if (LG.live.size() != 2 * (held(u) + held(w))) fail("the containers report " + std::to_string(held(u) + held(w)) + " entries, " + std::to_string(LG.live.size()) + " parts are alive");
      } catch (Mismatch& e) { throw Mismatch{e.msg + " [after " + name + ", operation " + std::to_string(serial) + (done ? ", completed" : ", faulted") + ", fault at event " + std::to_string(k) + "]"}; }
    }
  }
  static T mk(int v) { if constexpr (requires { T(v).use(); }) return T(v); else return T(char('a' + v % 26)); }

  void do_op(unsigned op, unsigned x, unsigned y, unsigned z, C& u, C& w, Model& mu, Model& mw, int val, const char*& name, bool& strong, Model& want, Model& wantw, bool& done) {
    const std::size_t n = mu.size();
    constexpr bool VEC = requires (C c) { c.resize(1); c.data(); };
    constexpr bool STR = requires (C c) { c.c_str(); };
    constexpr bool DEQ = requires (C c) { c.push_front(c[0]); c[0]; };
    constexpr bool LST = requires (C c) { c.emplace_back(c.front()); };
    constexpr bool FWD = requires (C c) { c.before_begin(); };
    constexpr bool QUE = requires (C c) { c.push(c.front()); };
    constexpr bool MAP = requires { typename C::mapped_type; };
    constexpr bool SET = requires { typename C::key_compare; } && !MAP;
    // common to all -----------------------------------------------------------------
    auto copies = [&] {
      switch (op % 3) {
        case 0: name = "copy construct"; done = attempt([&] { C t(w); LG.armed = false; if (snap(t) != mw) fail("the copy differs from the original"); LG.armed = true; }); return;
        case 1: name = "copy assign"; done = attempt([&] { u = w; }); if (done) want = mw; return;
        default: name = "clear"; if constexpr (requires { u.clear(); }) { if (z % 3 == 0) { u.clear(); want.clear(); } } return;
      }
    };
    if (op >= 13) return copies();
    if constexpr (STR) {
      auto txt = [&](std::size_t c) { Model q; for (std::size_t i = 0; i < c; i++) q.push_back('a' + (val + i) % 26); return q; };
      auto put = [&](typename C::value_type* p, const Model& q) { for (std::size_t i = 0; i < q.size(); i++) p[i] = (typename C::value_type)q[i]; p[q.size()] = 0; };
      typename C::value_type buf[300]; std::size_t c = z % 3 ? z % 9 : z; Model q = txt(c); put(buf, q);
      switch (op) {
        case 0: case 1: case 2: name = "push_back"; strong = true; done = attempt([&] { u.push_back(typename C::value_type('a' + val % 26)); }); if (done) want.push_back('a' + val % 26); break;
        case 3: name = "+= char"; strong = true; done = attempt([&] { u += typename C::value_type('a' + val % 26); }); if (done) want.push_back('a' + val % 26); break;
        case 4: case 5: name = "append(ptr,count)"; if (n < 3000) { done = attempt([&] { u.append(buf, c); }); if (done) want.insert(want.end(), q.begin(), q.end()); } break;
        case 6: name = "append(str)"; if (n < 3000) { done = attempt([&] { u.append(w); }); if (done) want.insert(want.end(), mw.begin(), mw.end()); } break;
        case 7: name = "reserve"; done = attempt([&] { u.reserve(n + c); }); break;
        case 8: name = "= ptr"; done = attempt([&] { u = buf; }); if (done) want = q; break;
        case 9: name = "construct(ptr)"; done = attempt([&] { C t(buf); LG.armed = false; if (snap(t) != q) fail("wrong contents"); LG.armed = true; }); break;
        case 10: name = "pop_back"; if (n) { u.pop_back(); want.pop_back(); } break;
        case 11: name = "default construct"; done = attempt([&] { C t; }); break;
        default: name = "+= str"; if (n < 3000) { done = attempt([&] { u += w; }); if (done) want.insert(want.end(), mw.begin(), mw.end()); } break;
      }
    } else if constexpr (VEC) {
      switch (op) {
        case 0: case 1: case 2: { name = "push_back(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push_back(t); }); if (done) want.push_back(val); break; }
        case 3: case 4: { name = "push_back(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push_back(std::move(t)); }); if (done) want.push_back(val); break; }
        case 5: name = "resize"; { std::size_t c = z % 12; done = attempt([&] { u.resize(c); }); if (done) want.resize(c); } break;
        case 6: name = "reserve"; done = attempt([&] { u.reserve(n + z % 12); }); break;
        case 7: name = "count construct"; done = attempt([&] { C t((std::size_t)(z % 9)); LG.armed = false; if (snap(t) != Model(z % 9)) fail("wrong contents"); LG.armed = true; }); break;
        case 8: { name = "list construct"; const T p = mk(1), q = mk(2), r = mk(3); done = attempt([&] { C t = {p, q, r}; LG.armed = false; if (snap(t) != Model{1, 2, 3}) fail("wrong contents"); u.swap(t); LG.armed = true; }); if (done) want = {1, 2, 3}; break; }
        case 9: case 10: { name = "erase"; std::size_t i = x % (n + 1), j = i + y % (n - i + 1); done = attempt([&] { u.erase(u.begin() + i, u.begin() + j); }); if (done) want.erase(want.begin() + i, want.begin() + j); break; }
        case 11: name = "pop_back"; if (n) { u.pop_back(); want.pop_back(); } break;
        default: name = "swap"; u.swap(w); want = mw; wantw = mu; break;
      }
    } else if constexpr (DEQ) {
      switch (op) {
        case 0: { name = "push_back(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push_back(t); }); if (done) want.push_back(val); break; }
        case 1: { name = "push_back(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push_back(std::move(t)); }); if (done) want.push_back(val); break; }
        case 2: { name = "push_front(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push_front(t); }); if (done) want.insert(want.begin(), val); break; }
        case 3: { name = "push_front(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push_front(std::move(t)); }); if (done) want.insert(want.begin(), val); break; }
        case 4: case 5: { name = "fill to near a chunk's end, pushing back"; std::size_t c = n > 1200 ? 0 : 511 - z % 4; for (std::size_t i = 0; i < c; i++) { u.push_back(mk(int(i))); want.push_back(int(i)); } break; }
        case 6: case 7: { name = "fill to near a chunk's end, pushing front"; std::size_t c = n > 1200 ? 0 : 511 - z % 4; for (std::size_t i = 0; i < c; i++) u.push_front(mk(int(i))); Model f; for (std::size_t i = c; i--;) f.push_back(int(i)); want.insert(want.begin(), f.begin(), f.end()); break; }
        case 8: case 9: { name = "push_back several"; std::size_t ok = 0; const T t = mk(val); done = attempt([&] { for (unsigned i = 0; i < 6; i++) { u.push_back(t); ++ok; } }); want.insert(want.end(), ok, val); if (!done) mu = want, strong = true; break; }
        case 10: { name = "push_front several"; std::size_t ok = 0; const T t = mk(val); done = attempt([&] { for (unsigned i = 0; i < 6; i++) { u.push_front(t); ++ok; } }); want.insert(want.begin(), ok, val); if (!done) mu = want, strong = true; break; }
        case 11: name = "pop"; if (n) { if (z & 1) { u.pop_back(); want.pop_back(); } else { u.pop_front(); want.erase(want.begin()); } } break;
        default: { name = "list construct"; const T p = mk(1), q = mk(2), r = mk(3); done = attempt([&] { C t = {p, q, r}; LG.armed = false; if (snap(t) != Model{1, 2, 3}) fail("wrong contents"); LG.armed = true; }); break; }
      }
    } else if constexpr (LST) {
      std::size_t i = x % (n + 1); auto pos = [&](std::size_t q) { auto it = u.begin(); while (q--) ++it; return it; };
      switch (op) {
        case 0: { name = "push_back(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push_back(t); }); if (done) want.push_back(val); break; }
        case 1: { name = "push_back(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push_back(std::move(t)); }); if (done) want.push_back(val); break; }
        case 2: { name = "push_front(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push_front(t); }); if (done) want.insert(want.begin(), val); break; }
        case 3: { name = "push_front(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push_front(std::move(t)); }); if (done) want.insert(want.begin(), val); break; }
        case 4: case 5: { name = "insert(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.insert(pos(i), t); }); if (done) want.insert(want.begin() + i, val); break; }
        case 6: { name = "insert(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.insert(pos(i), std::move(t)); }); if (done) want.insert(want.begin() + i, val); break; }
        case 7: { name = "emplace"; strong = true; const T t = mk(val); done = attempt([&] { u.emplace(pos(i), t); }); if (done) want.insert(want.begin() + i, val); break; }
        case 8: { name = "emplace()"; strong = true; done = attempt([&] { u.emplace(pos(i)); }); if (done) want.insert(want.begin() + i, 0); break; }
        case 9: { name = "emplace_back"; strong = true; const T t = mk(val); done = attempt([&] { u.emplace_back(t); }); if (done) want.push_back(val); break; }
        case 10: { name = "emplace_front"; strong = true; const T t = mk(val); done = attempt([&] { u.emplace_front(t); }); if (done) want.insert(want.begin(), val); break; }
        case 11: name = "erase"; if (n) { u.erase(pos(x % n)); want.erase(want.begin() + x % n); } break;
        default: name = "pop"; if (n) { if (z & 1) { u.pop_back(); want.pop_back(); } else { u.pop_front(); want.erase(want.begin()); } } break;
      }
    } else if constexpr (FWD) {
      std::size_t i = x % (n + 1); auto pos = [&](std::size_t q) { auto it = u.before_begin(); while (q--) ++it; return it; };
      switch (op) {
        case 0: case 1: { name = "push_front(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push_front(t); }); if (done) want.insert(want.begin(), val); break; }
        case 2: { name = "push_front(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push_front(std::move(t)); }); if (done) want.insert(want.begin(), val); break; }
        case 3: case 4: case 5: case 6: { name = "insert_after(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.insert_after(pos(i), t); }); if (done) want.insert(want.begin() + i, val); break; }
        case 7: case 8: { name = "insert_after(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.insert_after(pos(i), std::move(t)); }); if (done) want.insert(want.begin() + i, val); break; }
        case 9: name = "erase_after"; if (n) { u.erase_after(pos(x % n)); want.erase(want.begin() + x % n); } break;
        case 10: name = "pop_front"; if (n) { u.pop_front(); want.erase(want.begin()); } break;
        default: name = "swap"; u.swap(w); want = mw; wantw = mu; break;
      }
    } else if constexpr (QUE) {
      switch (op) {
        case 0: case 1: case 2: case 3: { name = "push(const&)"; strong = true; const T t = mk(val); done = attempt([&] { u.push(t); }); if (done) want.push_back(val); break; }
        case 4: case 5: case 6: { name = "push(&&)"; strong = true; T t = mk(val); done = attempt([&] { u.push(std::move(t)); }); if (done) want.push_back(val); break; }
        case 7: { name = "fill"; std::size_t c = n > 600 ? 0 : 509; for (std::size_t i = 0; i < c; i++) { u.push(mk(int(i))); want.push_back(int(i)); } break; }
        default: name = "pop"; if (n) { u.pop(); want.erase(want.begin()); } break;
      }
    } else if constexpr (SET) {
      int v = x % 32;
      auto add = [&] { auto it = std::lower_bound(want.begin(), want.end(), v); if (it == want.end() || *it != v) want.insert(it, v); };
      if (op < 10) { name = "insert"; strong = true; const T t = mk(v); bool fresh = std::find(mu.begin(), mu.end(), v) == mu.end(); done = attempt([&] { auto r = u.insert(t); if (r.second != fresh || num(*r.first) != v) fail("insert returns the wrong result"); }); if (done) add(); }
      else if (op == 12) { name = "find"; strong = true; const T t = mk(v); bool in = std::find(mu.begin(), mu.end(), v) != mu.end(); done = attempt([&] { const C& cu = u; if ((u.find(t) == u.end()) == in || (cu.find(t) == cu.end()) == in) fail("find gives the wrong result"); }); }
      else { name = "insert(hint)"; strong = true; const T t = mk(v); done = attempt([&] { u.insert(u.end(), t); }); if (done) add(); }
    } else if constexpr (MAP) {
      int kk = x % 32;
      if (op == 12) { name = "find"; strong = true; const auto key = typename C::key_type(kk); bool in = false; for (int q : mu) in |= q / 100000 == kk; done = attempt([&] { const C& cu = u; if ((u.find(key) == u.end()) == in || (cu.find(key) == cu.end()) == in) fail("find gives the wrong result"); }); return; }
      name = "insert"; strong = true; const T t{typename C::key_type(kk), typename C::mapped_type(val)};
      bool fresh = true; for (int q : mu) if (q / 100000 == kk) fresh = false;
      done = attempt([&] { auto r = u.insert(t); if (r.second != fresh) fail("insert returns the wrong result"); });
      if (done && fresh) { want.push_back(kk * 100000 + val); std::sort(want.begin(), want.end()); }
    }
  }
};

template <class C> void play(Src s, Ctx& c, const char* l) {
  c.label(l);
  only_armed = true;
  LG.live.reserve(100);                              // its one bucket array then stays
  std::string log;
  auto once = [&](long k) {
    log.clear();
    LG.armed = false;
    Player<C> p{s, k, c.desc ? &log : nullptr};
    u64 n;
    const long held = heap_blocks;
    (void)held;
    try { n = p.run(); } catch (...) { LG.armed = false; c.say(log); throw; }
    if (p.injected) { c.nontrivial = true; if (c.labels) ++(*c.labels)["faults injected"]; }
    return n;
  };
  log.reserve(c.desc ? 1 << 14 : 0);
  u64 n = once(-1);
  c.say("fault-free history (" + std::to_string(n) + " events):\n" + log);
  const u64 most = 40;
  if (n <= most) for (u64 k = 0; k < n; k++) once(long(k));
  else { Rng r(n, s.n); for (u64 i = 0; i < most; i++) once(long(i < 8 ? n - 1 - i : r.below(n))); }
}
template <class T> void pick(Src s, Ctx& c, unsigned what) {
  switch (what % 8) {
    case 0: return play<cest::vector<T>>(s, c, "vector");
    case 1: return play<cest::deque<T>>(s, c, "deque");
    case 2: return play<cest::list<T>>(s, c, "list");
    case 3: return play<cest::forward_list<T>>(s, c, "forward_list");
    case 4: return play<cest::set<T>>(s, c, "set");
    case 5: return play<cest::map<T, T>>(s, c, "map");
    case 6: return play<cest::queue<T>>(s, c, "queue on deque");
    default: return play<cest::queue<T, cest::list<T>>>(s, c, "queue on list");
  }
}
void vf_case(Src s, Ctx& c) {
  unsigned what = s.byte() % 10, kind = s.byte();
  if (what == 8) return kind & 1 ? play<cest::string>(s, c, "string") : play<cest::u16string>(s, c, "u16string");
  if (what == 9) what = 0;
  switch (kind % 3) {
    case 0: c.label("copy-only"); return pick<Trk<COPY_ONLY>>(s, c, what);
    case 1: c.label("noexcept move"); return pick<Trk<NOEXCEPT_MOVE>>(s, c, what);
    default: c.label("throwing move"); return pick<Trk<THROWING_MOVE>>(s, c, what);
  }
}
} // namespace vf
