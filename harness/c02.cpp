#include "driver.hpp"
#include "interp_string.hpp"
#include <cest/string.hpp>
namespace vf {
const Shape vf_shape{1, STR_REC, STR_OPS, 200};
const char* const vf_rule = "A case is a header byte choosing the character type (char, wchar_t, char8_t, char16_t, char32_t; with the standard traits or others) and a list of 8-byte operation records over three strings with contents from small alphabets that include nulls and extreme characters; it is non-trivial if it makes at least 5 operations, at least two of which put characters into a string.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
// Characters of which several count as equal, in descending order.
template <class C> struct Fold : std::char_traits<C> {
  static constexpr std::uint32_t fold(C c) { const auto u = std::make_unsigned_t<C>(c); return u ? u / 4 * 4 + 1 : 0; }
  static constexpr bool eq(C a, C b) { return fold(a) == fold(b); }
  static constexpr bool lt(C a, C b) { return fold(b) < fold(a); }
  static constexpr int compare(const C* a, const C* b, std::size_t n) { for (; n--; ++a, ++b) { if (lt(*a, *b)) return -1; if (lt(*b, *a)) return 1; } return 0; }
  static constexpr const C* find(const C* p, std::size_t n, const C& c) { for (; n--; ++p) if (eq(*p, c)) return p; return nullptr; }
};
template <class C> void folded(Src s, Ctx& c, const char* l) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_str<std::basic_string<C, Fold<C>>>(q, k, 100, 400); }, [&](Src q, auto& k) { run_str<cest::basic_string<C, Fold<C>>>(q, k, 100, 400); });
}
template <class C> void both(Src s, Ctx& c, const char* l, unsigned big = 100, std::size_t lim = 400) {
  c.label(l);
  differential(s, c, [&](Src q, auto& k) { run_str<std::basic_string<C>>(q, k, big, lim); }, [&](Src q, auto& k) { run_str<cest::basic_string<C>>(q, k, big, lim); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte(), nops = 0, mut = 0;
  for (std::size_t i = s.i; i + STR_REC <= s.n; i += STR_REC) { ++nops; unsigned op = s.p[i] % STR_OPS; if (op < 2 || op == 3 || op == 4 || (op >= 9 && op <= 13) || op == 22) ++mut; }
  c.nontrivial = nops >= 5 && mut >= 2;
  if (cfg == 255) return both<char>(few(s, STR_REC, 8), c, "char, huge", HUGE_N, 3 * HUGE_N);
  if (cfg == 254) return both<char16_t>(few(s, STR_REC, 8), c, "char16_t, huge", HUGE_N, 3 * HUGE_N);
  if (cfg == 253) return both<char>(s, c, "char, long", 2100, 6000);
  if (cfg == 252) return both<char32_t>(s, c, "char32_t, long", 1100, 3000);
  switch (cfg % 10) {
    case 8: return folded<char>(s, c, "char, traits of its own");
    case 9: return folded<char16_t>(s, c, "char16_t, traits of its own");
    case 4: return both<wchar_t>(s, c, "wchar_t");
    case 5: return both<char8_t>(s, c, "char8_t");
    case 6: return both<char16_t>(s, c, "char16_t");
    case 7: return both<char32_t>(s, c, "char32_t");
    default: return both<char>(s, c, "char");
  }
}
} // namespace vf
