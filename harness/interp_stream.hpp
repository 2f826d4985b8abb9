// Histories over input string streams.
#ifndef VERIF_INTERP_STREAM_HPP
#define VERIF_INTERP_STREAM_HPP
#include "core.hpp"
#include "interp_string.hpp"
namespace vf {
constexpr unsigned SS_OPS = 20, SS_REC = 6;

// Character traits whose integers are not the characters' own and whose end is not -1.
template <class C> struct Odd : std::char_traits<C> {
  using int_type = long;
  static constexpr int_type eof() { return 7; }
  static constexpr int_type not_eof(int_type c) { return c == 7 ? 1000 : c; }
  static constexpr int_type to_int_type(C c) { return 1000 + long(std::make_unsigned_t<C>(c)); }
  static constexpr C to_char_type(int_type c) { return C(c - 1000); }
  static constexpr bool eq_int_type(int_type a, int_type b) { return a == b; }
};

template <class IS, class S> constexpr void observe_is(IS& i, S& k) {
  k.obs("good", i.good()); k.obs("eof", i.eof()); k.obs("fail", i.fail());
  k.obs("bool", bool(i)); k.obs("!", !i); k.obs("gcount", u64(i.gcount()));
  k.obs("bad", (i.rdstate() & IS::badbit) != 0);
  k.obs("rdstate", ((i.rdstate() & IS::eofbit) ? 1 : 0) + ((i.rdstate() & IS::failbit) ? 2 : 0) + ((i.rdstate() & IS::badbit) ? 4 : 0));
}
// IS: istringstream- or stringstream-like, STR: its string type.
template <class IS, class STR, class S>
constexpr void run_is(Src s, S& k, unsigned big) {
  using C = typename STR::value_type; using T = typename IS::traits_type;
  IS* v[2] = {};
  auto text = [&](unsigned len, unsigned mode, unsigned seed) { Buf<C> t(len); fill(t.p, len, mode, seed);
    // a wide character equal to the end-of-file value is not a character: reading it one at a time and in bulk differ
    for (unsigned q = 0; q < len; q++) if (T::eq_int_type(T::to_int_type(t.p[q]), T::eof())) t.p[q] = C(7);
    return STR(t.p, len); };
  auto st = [](unsigned b) { auto r = IS::goodbit; if (b & 1) r = r | IS::eofbit; if (b & 2) r = r | IS::failbit; if (b & 4) r = r | IS::badbit; return r; };
  v[0] = new IS(text(s.byte() % 40, s.byte(), s.byte())); v[1] = new IS();
  while (!s.done()) {
    unsigned op = s.byte() % SS_OPS, a = s.byte() % 2, x = s.byte(), y = s.byte(), mode = s.byte(), seed = s.byte();
    IS& i = *v[a];
    Src o(&s.p[0], 0);
    unsigned len = x < 200 ? x % 24 : x < 240 ? x : x < 252 || S::no_throw ? big : x < 255 ? 4 * big : seed < 160 ? 66 * big : 290 * big;
    switch (op) {
      case 0: case 1: case 2: { k.op("get", a); C c = C('#'); auto& r = i.get(c); k.check(static_cast<const void*>(&r) == static_cast<const void*>(static_cast<std::remove_reference_t<decltype(r)>*>(&i)), "get does not return *this"); k.obs("char", u64(c)); break; }
      case 3: case 4: case 5: { unsigned n = y < 230 ? y % 12 : y < 252 || S::no_throw ? y : seed < 200 ? 4 * big + seed - 100 : seed < 235 ? 66 * big - 8 + mode % 16 : 100 * big * (1 + mode % 3) + seed; k.op("read", a, n); Buf<C> b(n); for (unsigned q = 0; q < n; q++) b.p[q] = C('#'); auto& r = i.read(b.p, n); k.check(static_cast<const void*>(&r) == static_cast<const void*>(static_cast<std::remove_reference_t<decltype(r)>*>(&i)), "read does not return *this"); u64 h = 0; for (unsigned q = 0; q < n; q++) h = mix(h, u64(b.p[q])); k.obs("chars", h); break; }
      case 6: case 7: { k.op("unget", a); auto& r = i.unget(); k.check(static_cast<const void*>(&r) == static_cast<const void*>(static_cast<std::remove_reference_t<decltype(r)>*>(&i)), "unget does not return *this"); break; }
      case 8: { k.op("unget many", a, y % 8); for (unsigned q = 0; q < y % 8; q++) { i.unget(); observe_is(i, k); } break; }
      case 9: k.op("clear", a); i.clear(); break;
      case 10: k.op("clear(state)", a, y % 8); i.clear(st(y)); break;
      case 11: k.op("setstate", a, y % 8); if (y & 8) i.setstate(st(y)); break;
      case 12: { k.op("str()", a); const IS& ci = i; const STR t(ci.str()); u64 h = t.size(); for (std::size_t q = 0; q < t.size(); q++) h = mix(h, u64(t[q])); k.obs("str", h); break; }
      case 13: { k.op("str(s)", a, len); STR t = text(len, mode, seed); i.str(t); if (t.size()) t[0] = C('~'); break; }
      case 14: { k.op("construct", a, len); STR t = text(len, mode, seed);
          auto m = IS::in; if (y & 1) m = m | IS::ate; if (y & 2) m = m | IS::out; if (y & 4) m = m | IS::app; if ((y & 24) == 24) m = IS::out;
          delete v[a]; v[a] = y < 100 ? new IS(t) : new IS(t, m); if (t.size()) t[0] = C('~'); t.clear(); break; }
      // the buffer itself, whose position is the stream's
      case 16: { k.op("sgetc", a, y % 4); auto* b = i.rdbuf(); k.check(b != nullptr, "no buffer"); const unsigned q = y % 4;
          auto seen = [&](auto v) { k.obs("character", T::eq_int_type(v, T::eof()) ? ~u64(0) : u64(T::to_char_type(v))); };
          seen(b->sgetc()); if (q == 1) seen(b->sbumpc()); if (q == 2) seen(b->snextc()); if (q == 3) seen(b->sungetc()); seen(b->sgetc()); if (y & 64) k.obs("sync", u64(b->pubsync())); break; }
      case 17: { unsigned n = y % 12; k.op("sgetn", a, n); Buf<C> b(n); for (unsigned q = 0; q < n; q++) b.p[q] = C('#'); k.obs("delivered", u64(i.rdbuf()->sgetn(b.p, n))); u64 h = 0; for (unsigned q = 0; q < n; q++) h = mix(h, u64(b.p[q])); k.obs("chars", h); break; }
      // states that are thrown
      case 18: if constexpr (!S::no_throw) {
          k.op("exceptions", a, y % 8); bool thrown = false; const auto mask = y % 3 ? st(y / 8) : IS::goodbit;
          try { i.exceptions(mask); } catch (const std::ios_base::failure&) { thrown = true; } k.obs("thrown", thrown); k.obs("mask", u64((i.exceptions() & IS::eofbit) ? 1 : 0) + ((i.exceptions() & IS::failbit) ? 2 : 0) + ((i.exceptions() & IS::badbit) ? 4 : 0));
          observe_is(i, k); thrown = false; C c = C('#'); Buf<C> b(4); for (unsigned q = 0; q < 4; q++) b.p[q] = C('#');
          try { switch (seed % 6) { case 0: i.get(c); break; case 1: i.read(b.p, 4); break; case 2: i.unget(); break; case 3: i.setstate(st(mode)); break; case 4: i.clear(st(mode)); break; default: while (i.get(c)) {} break; } } catch (const std::ios_base::failure&) { thrown = true; }
          k.obs("thrown", thrown); k.obs("char", u64(c)); u64 h = 0; for (unsigned q = 0; q < 4; q++) h = mix(h, u64(b.p[q])); k.obs("chars", h);
          observe_is(i, k); i.exceptions(IS::goodbit); } break;
      default: { k.op("get until the end", a); C c = C('#'); unsigned n = 0; u64 h = 0; while (i.get(c)) { h = mix(h, u64(c)); if (++n > 400000) { k.check(false, "the stream does not end"); break; } } k.obs("rest", h); k.obs("rest length", n); break; }
    }
    observe_is(*v[a], k);
  }
  for (auto* p : v) { k.op("final"); observe_is(*p, k); delete p; }
}
} // namespace vf
#endif
