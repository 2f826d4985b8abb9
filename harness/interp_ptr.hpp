// Histories over unique_ptr-, shared_ptr- and function-like types.
#ifndef VERIF_INTERP_PTR_HPP
#define VERIF_INTERP_PTR_HPP
#include "core.hpp"
namespace vf {
constexpr unsigned UP_OPS = 16, UP_REC = 4;
constexpr unsigned SP_OPS = 17, SP_REC = 4;
constexpr unsigned FN_OPS = 14, FN_REC = 4;

// What was deleted, in order. Identities are given by the harness.
struct DLog {
  static constexpr unsigned MAX = 2048;
  unsigned n = 0; int e[MAX] = {};
  constexpr void add(int x) { if (n < MAX) e[n] = x; ++n; }
};
template <class S> constexpr void flush(DLog& d, S& k) {
  k.obs("deletions so far", d.n);
  for (unsigned i = 0; i < d.n && i < DLog::MAX; i++) k.obs("deleted", u64(d.e[i]));
  d.n = 0;
}

// Pointees: a polymorphic base, classes derived from it, and an over-aligned one.
struct PBase {
  DLog* log; int id; const void* const* watch = nullptr;   // watch: a pointer kept elsewhere that must not be this any more
  bool* stale = nullptr;
  constexpr PBase(DLog* l, int i) : log(l), id(i) {}
  PBase(const PBase&) = delete;
  constexpr virtual ~PBase() { log->add(id); }
  constexpr virtual int kind() const { return 1; }
  constexpr bool operator==(int i) const { return id == i; }
};
struct PDer : PBase {
  int extra[6] = {};
  constexpr PDer(DLog* l, int i) : PBase(l, i) { extra[5] = i; }
  constexpr ~PDer() override { log->add(100000 + extra[5]); }
  constexpr int kind() const override { return 2; }
};
struct PPlain { DLog* log; int id; constexpr PPlain() : log(nullptr), id(0) {} constexpr PPlain(DLog* l, int i) : log(l), id(i) {} constexpr ~PPlain() { log->add(200000 + id); } };
struct PPlainDer : PPlain { int more[9] = {}; constexpr PPlainDer(DLog* l, int i) : PPlain(l, i) { more[8] = i; } constexpr ~PPlainDer() { log->add(300000 + more[8]); } };

// unique_ptr ---------------------------------------------------------------------------
// UP<T>: the template under test; MK makes one through make_unique.
template <template <class> class UP, class MK, class S>
constexpr void run_uptr(Src s, S& k) {
  DLog d; int serial = 0;
  using B = UP<PBase>; using D = UP<PDer>;
  B* b[4] = {}; D* e[3] = {};
  auto idb = [&](B* p) -> u64 { return !p ? 1 : !p->get() ? 2 : 10 + u64(p->get()->id); };
  auto idd = [&](D* p) -> u64 { return !p ? 1 : !p->get() ? 2 : 10 + u64(p->get()->id); };
  auto observe = [&] {
    flush(d, k);
    for (int i = 0; i < 4; i++) { k.obs("base owner holds", idb(b[i])); if (b[i]) { const B& c = *b[i]; k.check(bool(*b[i]) == (b[i]->get() != nullptr) && bool(c) == bool(*b[i]), "bool and get() disagree");
        if (c) { k.check(&*c == c.get() && &**b[i] == c.get(), "* and get() disagree"); k.obs("->kind", u64(c->kind())); k.obs("->id", u64((*b[i])->id)); } } }
    for (int i = 0; i < 3; i++) { k.obs("derived owner holds", idd(e[i])); if (e[i] && *e[i]) { const D& c = *e[i]; k.check(&*c == c.get() && &**e[i] == c.get(), "* and get() disagree"); k.obs("->extra", u64(c->extra[5])); } }
  };
  while (!s.done()) {
    unsigned op = s.byte() % UP_OPS, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned i = x % 4, j = y % 4, p = x % 3, q = y % 3;
    ++serial;
    switch (op) {
      case 0: k.op("construct from new base", i); delete b[i]; b[i] = new B(new PBase(&d, serial)); break;
      case 1: k.op("construct from new derived", i); delete b[i]; b[i] = z & 1 ? new B(new PDer(&d, serial)) : new B(D(new PDer(&d, serial))); break;
      case 2: k.op("derived from new", p); delete e[p]; e[p] = new D(new PDer(&d, serial)); break;
      case 3: k.op("default construct", i); delete b[i]; b[i] = z & 1 ? new B() : new B((PBase*)nullptr); break;
      case 4: k.op("destroy", i); if (z & 1) { delete b[i]; b[i] = nullptr; } else { delete e[p]; e[p] = nullptr; } break;
      case 5: if (b[j] && i != j) { k.op("move construct", i, j); delete b[i]; b[i] = new B(std::move(*b[j])); } break;
      case 6: if (e[q]) { k.op("move construct base from derived", i, q); delete b[i]; b[i] = new B(std::move(*e[q])); } break;
      case 7: case 8: if (b[i] && b[j]) { k.op("move assign", i, j); B& r = (*b[i] = std::move(*b[j])); k.check(&r == b[i], "= does not return *this"); } break;
      case 9: if (b[i] && e[q]) { k.op("move assign base from derived", i, q); *b[i] = std::move(*e[q]); } break;
      case 10: if (e[p] && e[q]) { k.op("move assign derived", p, q); *e[p] = std::move(*e[q]); } break;
      case 11: if (b[i]) { k.op("reset", i); if (z & 1) b[i]->reset(); else if (z & 2) b[i]->reset(new PBase(&d, serial)); else b[i]->reset(new PDer(&d, serial)); } break;
      case 12: if (b[i]) { k.op("release", i); PBase* raw = b[i]->release(); k.obs("released", raw ? u64(raw->id) : 0); k.check(b[i]->get() == nullptr && !*b[i], "not null after release"); flush(d, k);
          if (raw) { if ((z & 1) && b[j]) b[j]->reset(raw); else { delete raw; } } } break;
      case 13: if (b[i] && b[j]) { k.op("compare", i, j); const B &u = *b[i], &v = *b[j]; k.obs("==", u == v); k.obs("!=", u != v);
          if (u.get() == v.get()) { k.obs("<", u < v); k.obs("<=", u <= v); k.obs(">", u > v); k.obs(">=", u >= v); }
          else if (!S::no_throw) { bool lt = std::less<const PBase*>()(u.get(), v.get()); k.check((u < v) == lt && (u <= v) == lt && (u > v) == !lt && (u >= v) == !lt, "an ordering comparison disagrees with the pointers held"); } } break;
      case 14: { k.op("make_unique", i); delete b[i]; if (z & 1) b[i] = new B(MK::template make<PBase>(&d, serial)); else b[i] = new B(MK::template make<PDer>(&d, serial)); } break;
      default: { k.op("pass through", i); auto pass = [](B a) { return a; }; if (b[i]) { B t = pass(std::move(*b[i])); k.check(b[i]->get() == nullptr, "a moved-from pointer is not null"); flush(d, k); if (z & 1) *b[i] = std::move(t); } } break;
    }
    observe();
  }
  for (auto* t : b) delete t;
  for (auto* t : e) delete t;
  k.op("all destroyed"); flush(d, k);
}

// shared_ptr ---------------------------------------------------------------------------
struct DelA { DLog* log; int id; template <class T> constexpr void operator()(T* p) const { log->add(1000000 + id); delete p; } };
struct DelB { DLog* log; int id; int calls = 0; template <class T> constexpr void operator()(T* p) && { log->add(7000000 + id); delete p; } template <class T> constexpr void operator()(T* p) & { ++calls; log->add(2000000 + id * 4 + calls); delete p; } };
struct DelArr { DLog* log; int id; template <class T> constexpr void operator()(T* p) const { log->add(3000000 + id); delete[] p; } };

template <template <class> class SP, class T, class Y, class GET, class S>
constexpr void run_sptr(Src s, S& k) {
  DLog d; int serial = 0;
  using P = SP<T>;
  P* v[5] = {};
  auto observe = [&] {
    flush(d, k);
    for (int i = 0; i < 5; i++) if (v[i]) { const P& c = *v[i];
      k.obs("use_count", u64(c.use_count())); k.obs("bool", bool(c)); k.check(bool(c) == (c.get() != nullptr), "bool and get() disagree");
      if (c.get()) { k.obs("holds", u64(c.get()->id)); k.check(&*c == c.get() && c.operator->() == c.get(), "*, -> and get() disagree"); k.obs("->", u64(c->id)); } }
      else k.obs("slot empty", 1);
  };
  while (!s.done()) {
    unsigned op = s.byte() % SP_OPS, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned i = x % 5, j = y % 5;
    ++serial;
    // replacing a slot destroys what was there only after the new one is made, or before
    auto put = [&](P* n) { delete v[i]; v[i] = n; };
    switch (op) {
      case 0: k.op("construct from new", i); put(new P(new T(&d, serial))); break;
      case 1: k.op("construct from new derived", i); put(new P(new Y(&d, serial))); break;
      case 2: k.op("construct with deleter A", i); put(new P(new T(&d, serial), DelA{&d, serial})); break;
      case 3: k.op("construct with deleter B", i); put(z & 1 ? new P(new T(&d, serial), DelB{&d, serial}) : new P(new Y(&d, serial), DelB{&d, serial})); break;
      case 4: k.op("empty", i); put(z % 3 == 0 ? new P() : z % 3 == 1 ? new P(nullptr) : new P((T*)nullptr)); break;
      case 5: k.op("null with deleter", i); put(new P((T*)nullptr, DelA{&d, serial})); break;
      case 6: case 7: if (v[j]) { k.op("copy construct", i, j); P* n = new P(*v[j]); put(n); } break;
      case 8: case 9: case 10: if (v[i] && v[j]) { k.op("copy assign", i, j); P& r = (*v[i] = *v[j]); k.check(&r == v[i], "= does not return *this"); } break;
      case 11: k.op("destroy", i); put(nullptr); break;
      case 12: if (v[i] && v[j]) { k.op("alias", i, j); T* t = v[j]->get(); P* n = new P(*v[i], z & 1 ? t : (T*)nullptr); observe();
          // drop the alias unless it points into what it owns
          if (t != v[i]->get() && (z & 1)) { k.obs("alias use_count", u64(n->use_count())); k.check(n->get() == t, "an aliasing pointer holds the wrong pointer"); delete n; }
          else { k.obs("alias use_count", u64(n->use_count())); put(n); } } break;
      case 13: if (v[i]) { k.op("get_deleter", i); auto* a = GET::template get<DelA>(*v[i]); auto* b = GET::template get<DelB>(*v[i]);
          k.obs("DelA", a ? u64(a->id) : 0); k.obs("DelB", b ? u64(b->id) : 0); if (b) k.obs("calls", u64(b->calls)); } break;
      case 14: if (v[i]) { k.op("pass by value", i); auto f = [&](P a) { k.obs("use_count inside", u64(a.use_count())); return a; }; { P t = f(*v[i]); k.obs("use_count after", u64(t.use_count())); } } break;
      case 16: if (v[i]) { unsigned n = S::no_throw ? z % 12 : z < 200 ? z % 40 : z < 254 ? 120u + 3 * (z - 200) : z == 254 ? 33000u : 66000u; k.op("crowd", i, n);
          P* w = new P[n + 1]; for (unsigned q = 0; q < n; q++) { w[q] = q && (y & 1) ? w[q - 1] : *v[i]; if (n < 50) k.obs("use_count", u64(w[q].use_count())); }
          k.obs("use_count in a crowd", u64(v[i]->use_count())); if (y & 2) { delete v[i]; v[i] = n ? new P(w[n - 1]) : nullptr; }
          for (unsigned q = 0; q < n; q += 3) w[q] = P(); if (v[i]) k.obs("use_count in a thinned crowd", u64(v[i]->use_count()));
          delete[] w; } break;
      default: if (v[i]) { k.op("chain assign", i, j); if (v[j]) { P a(*v[i]); P b; b = a = *v[j]; k.obs("chain", u64(b.use_count())); } } break;
    }
    observe();
  }
  for (auto* t : v) { delete t; k.op("destroy one"); flush(d, k); }
}
template <template <class> class SP, class T, class GET, class S>
constexpr void run_sptr_array(Src s, S& k) {
  DLog d; int serial = 0;
  using P = SP<T[]>;
  P* v[4] = {}; unsigned len[4] = {};
  auto observe = [&] {
    flush(d, k);
    for (int i = 0; i < 4; i++) if (v[i]) { const P& c = *v[i]; k.obs("use_count", u64(c.use_count())); k.obs("bool", bool(c)); k.check(bool(c.get()) == (len[i] != 0), "get() is null for an array"); if (c.get()) { u64 h = 0; for (unsigned q = 0; q < len[i]; q++) { h = mix(h, u64(c[q].id)); if (&c[q] != c.get() + q) { k.check(false, "[i] is not get()[i]"); break; } } k.obs("all [i]", h); } }
      else k.obs("slot empty", 1);
  };
  while (!s.done()) {
    unsigned op = s.byte() % SP_OPS, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned i = x % 4, j = y % 4;
    ++serial;
    auto put = [&](P* n, unsigned l = 0) { delete v[i]; v[i] = n; len[i] = n ? l : 0; };
    // mostly short arrays, and some of hundreds and of thousands
    const unsigned count = z < 160 || S::no_throw ? 3u : z < 200 ? 1u + z % 9 : z < 250 ? unsigned(z) + y : 257u * (1 + y % 9) + z % 7;
    auto arr = [&] { T* p = new T[count]; for (unsigned q = 0; q < count; q++) { p[q].log = &d; p[q].id = serial * 5000 + int(q); } return p; };
    switch (op) {
      case 0: case 1: case 2: k.op("construct from new[]", i); put(new P(arr()), count); break;
      case 3: case 4: k.op("construct with deleter", i); put(new P(arr(), DelArr{&d, serial}), count); break;
      case 5: k.op("empty", i); put(z & 1 ? new P() : new P(nullptr)); break;
      case 6: case 7: case 8: if (v[j]) { k.op("copy construct", i, j); P* n = new P(*v[j]); put(n, len[j]); } break;
      case 9: case 10: case 11: case 12: if (v[i] && v[j]) { k.op("copy assign", i, j); *v[i] = *v[j]; len[i] = len[j]; } break;
      case 13: if (v[i]) { k.op("get_deleter", i); auto* a = GET::template get<DelArr>(*v[i]); k.obs("DelArr", a ? u64(a->id) : 0); } break;
      default: k.op("destroy", i); put(nullptr); break;
    }
    observe();
  }
  for (auto* t : v) { delete t; k.op("destroy one"); flush(d, k); }
}

// Pointers of several types that share one object: to the whole, a base, parts and elements of it, and to nothing in particular.
struct SMid { int val; int tag = 5; };
struct SWhole : PPlainDer { SMid mid; int cells[4]; constexpr SWhole(DLog* l, int i) : PPlainDer(l, i), mid{i * 3}, cells{i, i + 1, i + 2, i + 3} {} constexpr SWhole() : PPlainDer(nullptr, 0), mid{0}, cells{} {} constexpr ~SWhole() { if (log) log->add(400000 + mid.val); } };
struct DelMove { DLog* log; int* id; constexpr DelMove(DLog* l, int i) : log(l), id(new int(i)) {} constexpr DelMove(DelMove&& o) noexcept : log(o.log), id(o.id) { o.id = nullptr; } constexpr ~DelMove() { delete id; }
  template <class T> constexpr void operator()(T* p) const { log->add(4000000 + *id); delete p; } };
struct DelWhole { DLog* log; int id; constexpr void operator()(SWhole* p) const { log->add(5000000 + id); delete p; } };
constexpr void del_fn(SWhole* p) { p->log->add(6000000 + p->id); delete p; }
template <class P, class GET, class S> constexpr void obs_deleters(const P& p, S& k) {
  auto* a = GET::template get<DelA>(p); k.obs("DelA", a ? u64(a->id) : 0); auto* b = GET::template get<DelB>(p); k.obs("DelB", b ? u64(b->id) * 8 + u64(b->calls) : 0);
  auto* m = GET::template get<DelMove>(p); k.obs("DelMove", m ? u64(*m->id) : 0); auto* w = GET::template get<DelWhole>(p); k.obs("DelWhole", w ? u64(w->id) : 0);
  auto* f = GET::template get<void (*)(SWhole*)>(p); k.obs("function", f ? u64(*f == &del_fn) + 1 : 0); auto* r = GET::template get<DelArr>(p); k.obs("DelArr", r ? u64(r->id) : 0);
  k.obs("none", GET::template get<void>(p) == nullptr && GET::template get<int>(p) == nullptr && GET::template get<const char*>(p) == nullptr);
}
template <template <class> class SP, class GET, class S>
constexpr void run_sptr_parts(Src s, S& k) {
  DLog d; int serial = 0, own = 77; SMid loose{41};
  {
    SP<SWhole> w[3]; SP<PPlainDer> b[2]; SP<SMid> m[3]; SP<int> n[3]; SP<const int> c[2]; SP<void> v[2]; SP<SWhole[]> r[2]; unsigned len[2] = {};
    auto observe = [&] {
      flush(d, k);
      auto one = [&](auto& p, const char* t) { k.obs(t, u64(p.use_count())); k.obs("bool", bool(p)); k.check(bool(p) == (p.get() != nullptr), "bool and get() disagree"); };
      for (auto& p : w) { one(p, "whole"); if (p.get() && p.use_count()) { k.obs("id", u64(p->id)); k.obs("mid", u64(p->mid.val)); } }
      for (auto& p : b) { one(p, "base"); if (p) k.obs("id", u64(p->id)); }
      for (auto& p : m) { one(p, "part"); if (p) { k.obs("val", u64(p->val)); k.obs("val", u64((*p).tag)); } }
      for (auto& p : n) { one(p, "int"); if (p) k.obs("val", u64(*p)); }
      for (auto& p : c) { one(p, "const int"); if (p) k.obs("val", u64(*p)); }
      for (auto& p : v) one(p, "void");
      for (int i = 0; i < 2; i++) { one(r[i], "array"); if (r[i].get()) for (unsigned q = 0; q < len[i]; q++) k.obs("element", u64(r[i][q].mid.val)); }
    };
    while (!s.done()) {
      unsigned op = s.byte() % 22, x = s.byte(), y = s.byte(), z = s.byte();
      unsigned i = x % 3, j = y % 3; ++serial;
      auto obj = [&] { return new SWhole(&d, serial); };
      switch (op) {
        case 0: k.op("whole", i, z % 6); w[i] = z % 6 == 0 ? SP<SWhole>(obj()) : z % 6 == 1 ? SP<SWhole>(obj(), DelA{&d, serial}) : z % 6 == 2 ? SP<SWhole>(obj(), DelB{&d, serial}) : z % 6 == 3 ? SP<SWhole>(obj(), DelMove(&d, serial)) : z % 6 == 4 ? SP<SWhole>(obj(), DelWhole{&d, serial}) : SP<SWhole>(obj(), &del_fn); break;
        case 1: k.op("base of a whole", i, z % 6); b[i % 2] = z % 6 == 0 ? SP<PPlainDer>(obj()) : z % 6 == 1 ? SP<PPlainDer>(obj(), DelA{&d, serial}) : z % 6 == 2 ? SP<PPlainDer>(obj(), DelB{&d, serial}) : z % 6 == 3 ? SP<PPlainDer>(obj(), DelMove(&d, serial)) : z % 6 == 4 ? SP<PPlainDer>(obj(), DelWhole{&d, serial}) : SP<PPlainDer>(obj(), &del_fn); break;
        case 2: k.op("void of a whole", i, z % 6); v[i % 2] = z % 6 == 0 ? SP<void>(obj()) : z % 6 == 1 ? SP<void>(obj(), DelA{&d, serial}) : z % 6 == 2 ? SP<void>(obj(), DelB{&d, serial}) : z % 6 == 3 ? SP<void>(obj(), DelMove(&d, serial)) : z % 6 == 4 ? SP<void>(obj(), DelWhole{&d, serial}) : SP<void>(obj(), &del_fn); break;
        case 3: { k.op("array", i % 2, 1 + z % 4); const unsigned l = 1 + z % 4; SWhole* p = new SWhole[l]; for (unsigned q = 0; q < l; q++) { p[q].log = &d; p[q].id = p[q].more[8] = serial * 10 + int(q); p[q].mid.val = serial * 7 + int(q); } r[i % 2] = z & 4 ? SP<SWhole[]>(p, DelArr{&d, serial}) : SP<SWhole[]>(p); len[i % 2] = l; break; }
        case 4: k.op("int", i); n[i] = z & 1 ? SP<int>(new int(serial)) : SP<int>(new int(serial), DelA{&d, serial}); if (z & 2) c[i % 2] = z & 4 ? SP<const int>(new int(serial)) : SP<const int>(new const int(serial), DelMove(&d, serial)); break;
        case 5: if (w[j]) { k.op("part of a whole", i, j); m[i] = SP<SMid>(w[j], &w[j]->mid); k.check(m[i].get() == &w[j]->mid, "an aliasing pointer holds the wrong pointer"); } break;
        case 6: if (w[j]) { k.op("cell of a whole", i, j); n[i] = SP<int>(w[j], &w[j]->cells[z % 4]); k.check(n[i].get() == &w[j]->cells[z % 4], "an aliasing pointer holds the wrong pointer"); } break;
        case 7: if (m[j]) { k.op("int of a part", i, j); n[i] = SP<int>(m[j], z & 1 ? &m[j]->val : &m[j]->tag); } break;
        case 8: if (r[j % 2]) { k.op("part of an element", i, j); m[i] = SP<SMid>(r[j % 2], &r[j % 2][z % len[j % 2]].mid); } break;
        case 9: if (r[j % 2]) { k.op("an element", i, j); w[i] = SP<SWhole>(r[j % 2], &r[j % 2][z % len[j % 2]]); } break;
        case 10: if (w[j]) { k.op("base of a whole held", i, j); b[i % 2] = SP<PPlainDer>(w[j], w[j].get()); k.check(b[i % 2].get() == w[j].get(), "an aliasing pointer holds the wrong pointer"); } break;
        case 11: k.op("void of what is held", i, j); v[i % 2] = z % 4 == 0 ? SP<void>(w[j], w[j].get()) : z % 4 == 1 ? SP<void>(m[j], m[j].get()) : z % 4 == 2 ? SP<void>(n[j], n[j].get()) : SP<void>(b[j % 2], b[j % 2].get()); break;
        case 12: k.op("owner without a pointer", i, j); if (z & 1) m[i] = SP<SMid>(v[j % 2], nullptr); else n[i] = SP<int>(b[j % 2], nullptr); break;
        case 13: k.op("pointer without an owner", i); if (z & 1) m[i] = SP<SMid>(SP<SWhole>(), &loose); else n[i] = SP<int>(SP<void>(nullptr), &own); break;
        case 14: k.op("const of an int", i, j); c[i % 2] = SP<const int>(n[j], n[j].get()); break;
        case 15: k.op("copies", i, j); if (z & 1) w[i] = w[j]; if (z & 2) m[i] = m[j]; if (z & 4) n[i] = n[j]; if (z & 8) b[i % 2] = b[j % 2]; if (z & 16) v[i % 2] = v[j % 2]; if (z & 32) c[i % 2] = c[j % 2]; if (z & 64) { r[i % 2] = r[j % 2]; len[i % 2] = len[j % 2]; } break;
        case 16: case 17: k.op("reset", i, z % 7); switch (z % 7) { case 0: w[i] = SP<SWhole>(); break; case 1: m[i] = SP<SMid>(); break; case 2: n[i] = SP<int>(nullptr); break; case 3: b[i % 2] = SP<PPlainDer>(); break; case 4: v[i % 2] = SP<void>(); break; case 5: c[i % 2] = SP<const int>(); break; default: r[i % 2] = SP<SWhole[]>(); len[i % 2] = 0; } break;
        case 18: k.op("deleters of wholes", i); obs_deleters<SP<SWhole>, GET>(w[i], k); obs_deleters<SP<PPlainDer>, GET>(b[i % 2], k); break;
        case 19: k.op("deleters of parts", i); obs_deleters<SP<SMid>, GET>(m[i], k); obs_deleters<SP<int>, GET>(n[i], k); obs_deleters<SP<const int>, GET>(c[i % 2], k); break;
        case 20: k.op("deleters of others", i); obs_deleters<SP<void>, GET>(v[i % 2], k); obs_deleters<SP<SWhole[]>, GET>(r[i % 2], k); break;
        default: if (m[i]) { k.op("write", i); m[i]->val += int(z); if (n[j]) *n[j] += int(x); } break;
      }
      observe();
    }
    k.op("destroy");
    loose.val = own = 0;
  }
  flush(d, k);
}

// Chains: nodes that own their successor; owners are assigned from what they own themselves.
template <template <class> class UP> struct UNode { DLog* log; int id; UP<UNode> next; constexpr UNode(DLog* l, int i) : log(l), id(i) {} constexpr ~UNode() { log->add(id); } };
template <template <class> class UP, class S>
constexpr void run_uchain(Src s, S& k) {
  using N = UNode<UP>; using P = UP<N>;
  DLog d; int serial = 0;
  {
    P head[3];
    auto len = [](const P& p) { unsigned n = 0; for (const N* q = p.get(); q && n < 300; q = q->next.get()) ++n; return n; };
    auto nth = [](P& p, unsigned i) { P* q = &p; while (i--) q = &(*q)->next; return q; };
    while (!s.done()) {
      unsigned op = s.byte() % UP_OPS, x = s.byte(), y = s.byte(), z = s.byte(), a = x % 3, b = y % 3, n = len(head[a]);
      ++serial;
      switch (op) {
        case 0: case 1: case 2: case 3: if (n < 60) { k.op("prepend", a); P t(new N(&d, serial)); t->next = std::move(head[a]); head[a] = std::move(t); } break;
        case 4: if (n < 60) { k.op("append", a); *nth(head[a], n) = P(new N(&d, serial)); } break;
        case 5: case 6: if (n) { k.op("head = head->next", a); head[a] = std::move(head[a]->next); } break;
        case 7: case 8: if (n) { unsigned i = z % n; k.op("cut out", a, i); P* q = nth(head[a], i); *q = std::move((*q)->next); } break;
        case 9: if (n) { unsigned i = z % n; k.op("head = a later next", a, i); P* q = nth(head[a], i); head[a] = std::move((*q)->next); } break;
        case 10: if (n && a != b) { unsigned i = z % (n + 1); k.op("tail to another", a, b); P t(std::move(*nth(head[a], i))); *nth(head[b], len(head[b]) > 60 ? 0 : len(head[b])) = std::move(t); } break;
        case 11: if (n) { unsigned i = z % n; k.op("truncate", a, i); nth(head[a], i)->reset(); } break;
        case 12: if (n) { k.op("release and readopt", a); N* q = head[a].release(); k.obs("null", head[a].get() == nullptr); P t(q); head[b] = std::move(t); } break;
        case 13: if (n) { unsigned i = z % n; k.op("reset to its own tail", a, i); P* q = nth(head[a], i); q->reset((*q)->next.release()); } break;
        default: { k.op("reverse", a); P r; while (head[a]) { P t(std::move(head[a])); head[a] = std::move(t->next); t->next = std::move(r); r = std::move(t); } head[a] = std::move(r); } break;
      }
      flush(d, k);
      for (const P& h : head) { unsigned m = 0; for (const N* q = h.get(); q && m < 300; q = q->next.get()) { k.obs("node", u64(q->id)); ++m; } k.obs("length", m); }
    }
  }
  k.op("all destroyed"); flush(d, k);
}
template <template <class> class SP> struct SNode { DLog* log; int id; SP<SNode> next; constexpr SNode(DLog* l, int i) : log(l), id(i) {} constexpr ~SNode() { log->add(id); } };
template <template <class> class SP, class S>
constexpr void run_schain(Src s, S& k) {
  using N = SNode<SP>; using P = SP<N>;
  DLog d; int serial = 0;
  {
    P head[3];
    auto len = [](const P& p) { unsigned n = 0; for (const N* q = p.get(); q && n < 300; q = q->next.get()) ++n; return n; };
    auto nth = [](P& p, unsigned i) { P* q = &p; while (i--) q = &(*q)->next; return q; };
    while (!s.done()) {
      unsigned op = s.byte() % SP_OPS, x = s.byte(), y = s.byte(), z = s.byte(), a = x % 3, b = y % 3, n = len(head[a]);
      ++serial;
      switch (op) {
        case 0: case 1: case 2: case 3: if (len(head[b]) < 60) { k.op("prepend to another's", a, b); P t(new N(&d, serial)); t->next = head[b]; head[a] = t; } break;
        case 4: case 5: case 6: if (n) { k.op("head = head->next", a); head[a] = head[a]->next; } break;
        case 7: case 8: if (n) { unsigned i = z % n; k.op("cut out", a, i); P* q = nth(head[a], i); *q = (*q)->next; } break;
        case 9: if (n) { unsigned i = z % n; k.op("head = a later next", a, i); head[a] = (*nth(head[a], i))->next; } break;
        case 10: case 11: { unsigned i = z % (n + 1); k.op("share a tail", a, b); head[b] = *nth(head[a], i); } break;
        case 12: if (n) { unsigned i = z % n; k.op("truncate", a, i); *nth(head[a], i) = P(); } break;
        case 13: if (n) { k.op("alias into itself", a); P t(head[a], head[a]->next.get()); k.obs("alias use_count", u64(t.use_count())); head[a] = t; k.obs("alias holds", t.get() ? u64(t->id) : 0); t = P(); if (!head[a].get()) head[a] = P(); else { P u(head[a]->next); head[a] = u; } } break;
        default: { k.op("hold and drop", a); P t(head[a]); if (n) { t = t->next; if (t.get()) t = t->next; } k.obs("use_count", u64(t.use_count())); head[b] = t; } break;
      }
      flush(d, k);
      for (const P& h : head) { unsigned m = 0; for (const P* q = &h; q->get() && m < 300; q = &(*q)->next) { k.obs("node", u64((*q)->id)); k.obs("use_count", u64(q->use_count())); ++m; } k.obs("length", m); }
    }
  }
  k.op("all destroyed"); flush(d, k);
}

// function ------------------------------------------------------------------------------
// Targets log each call; each has its own state.
struct FLog { unsigned n = 0, made = 0; u64 h = 0; int live = 0; constexpr void call(int who, u64 arg) { ++n; h = mix(mix(h, u64(who)), arg); } };
struct Counter {                                    // counts its calls; heap-owning state
  FLog* l; int id; int* c;
  constexpr Counter(FLog* l_, int i) : l(l_), id(i), c(new int(0)) { ++l->live; ++l->made; }
  constexpr Counter(const Counter& o) : l(o.l), id(o.id), c(new int(*o.c)) { ++l->live; ++l->made; }
  constexpr ~Counter() { --l->live; delete c; }
  Counter& operator=(const Counter&) = delete;
  constexpr int operator()(int x) { l->call(id, u64(x)); return x * 1000 + ++*c; }
};
struct BigState {
  FLog* l; int a[40] = {};
  constexpr int operator()(int x) { l->call(7, u64(x)); a[unsigned(x) % 40] += x; unsigned s = 0; for (int q : a) s = s * 3u + unsigned(q); return int(s % 1000003); }
};
constexpr int plain_fn(int x) { return x * 3 + 1; }
constexpr int other_fn(int x) { return 7 - x; }

// How a function is called and a target wrapped. The second kind returns nothing: results
// leave through a reference.
struct CallInt {
  template <class G> static constexpr G&& wrap(G&& g) { return static_cast<G&&>(g); }
  template <class F> static constexpr int call(F& f, int x) { return f(x); }
};
struct CallVoid {
  template <class G> struct W { G g; constexpr void operator()(int x, int& r) { r = g(x); } };
  template <class G> static constexpr W<std::decay_t<G>> wrap(G&& g) { return W<std::decay_t<G>>{static_cast<G&&>(g)}; }
  template <class F> static constexpr int call(F& f, int x) { int r = -77; f(x, r); return r; }
};
template <class F, class CALL = CallInt, class S>    // F = function<int(int)> or function<void(int, int&)>
constexpr void run_func(Src s, S& k) {
  FLog l; int serial = 0;
  F* v[4] = {};
  while (!s.done()) {
    unsigned op = s.byte() % FN_OPS, x = s.byte(), y = s.byte(), z = s.byte();
    unsigned i = x % 4, j = y % 4;
    ++serial;
    auto put = [&](F* n) { delete v[i]; v[i] = n; };
    switch (op) {
      case 0: { k.op("from counter", i); Counter c(&l, serial); k.obs("direct call", u64(c(1))); F* n = new F(CALL::wrap(c)); k.obs("direct call", u64(c(2))); put(n); k.obs("call", u64(CALL::call(*v[i], 3))); k.obs("direct call", u64(c(4))); break; }
      case 1: k.op("from temporary counter", i); put(new F(CALL::wrap(Counter(&l, serial)))); break;
      case 2: { k.op("from big state", i); BigState b{&l}; b(5); F* n = new F(CALL::wrap(b)); b(6); put(n); break; }
      case 3: k.op("from function pointer", i); put(z & 1 ? new F(CALL::wrap(plain_fn)) : new F(CALL::wrap(&other_fn))); break;
      case 4: { k.op("from mutable lambda", i); int st = int(z); put(new F(CALL::wrap([st, p = &l](int a) mutable { p->call(9, u64(a)); st += a; return st; }))); st = 99; break; }
      case 5: { k.op("from reference-capturing lambda", i); FLog* p = &l; put(new F(CALL::wrap([p, serial](int a) -> int { p->call(serial, u64(a)); return a - serial; }))); break; }
      case 6: if (v[j]) { k.op("copy construct", i, j); F* n = new F(*v[j]); put(n); k.obs("original", u64(CALL::call(*v[j], int(z)))); } break;
      case 7: case 8: if (v[i] && v[j]) { k.op("copy assign", i, j); F& r = (*v[i] = *v[j]); k.check(&r == v[i], "= does not return *this"); } break;
      case 9: if (v[j] && i != j) { k.op("move construct", i, j); F* n = new F(std::move(*v[j])); put(n); delete v[j]; v[j] = nullptr; } break;
      case 10: if (v[i] && v[j] && i != j) { k.op("move assign", i, j); *v[i] = std::move(*v[j]); delete v[j]; v[j] = nullptr; } break;
      case 11: k.op("destroy", i); put(nullptr); break;
      case 12: if (v[i]) { k.op("assign a callable", i); *v[i] = CALL::wrap(Counter(&l, serial)); } break;
      default: k.op("call"); break;
    }
    for (unsigned q = 0; q < 4; q++) if (v[q] && (op == 13 || q == i)) { unsigned before = l.n, made = l.made; const F& cf = *v[q]; u64 r = u64(y & 1 ? CALL::call(cf, int(z) - 20) : CALL::call(*v[q], int(z) - 20)); k.obs("result", r); k.obs("calls made", l.n - before); k.obs("call log", l.h); k.check(l.made == made, "a call copied its target"); }
  }
  for (auto* t : v) delete t;
  k.check(l.live == 0, "targets remain alive after the functions holding them are gone");
}
} // namespace vf
#endif
