#include "driver.hpp"
#include "interp_vector.hpp"
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <vector>
namespace vf {
template <class T, class A> struct Elem<std::vector<T, A>> {
  static constexpr std::vector<T> make(unsigned n) { std::vector<T> v; for (unsigned i = 0; i < n % 5; i++) v.push_back(Elem<T>::make(n + i)); return v; }
  static constexpr u64 val(const std::vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = mix(h, Elem<T>::val(x)); return h; }
};
template <class T, class A> struct Elem<cest::vector<T, A>> {
  static constexpr cest::vector<T> make(unsigned n) { cest::vector<T> v; for (unsigned i = 0; i < n % 5; i++) v.push_back(Elem<T>::make(n + i)); return v; }
  static constexpr u64 val(const cest::vector<T>& v) { u64 h = v.size(); for (auto& x : v) h = mix(h, Elem<T>::val(x)); return h; }
};
template <> struct Elem<cest::string> {
  static cest::string make(unsigned n) { std::string s = Elem<std::string>::make(n); return cest::string(s.data(), s.size()); }
  static u64 val(const cest::string& s) { u64 h = s.size(); for (char c : s) h = mix(h, (u8)c); return h; }
};
const Shape vf_shape{1, VEC_REC, VEC_OPS, 240};
const char* const vf_rule = "A case is a header byte choosing the element type (int, std::string, heap-owning struct, 32-byte-aligned struct, plain struct, nested vector, cest::string) and a list of 6-byte operation records over three vectors, drawn with swarm weights; it is non-trivial if at least 5 operations were made and at least one grew, shrank, erased from or assigned a non-empty vector.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape); }
template <class VS, class VC> void both(Src s, Ctx& c, unsigned big, std::size_t lim) {
  differential(s, c, [&](Src q, auto& k) { run_vec<VS>(q, k, big, lim); }, [&](Src q, auto& k) { run_vec<VC>(q, k, big, lim); });
}
void vf_case(Src s, Ctx& c) {
  unsigned cfg = s.byte();
  // classification from the bytes alone
  unsigned nops = 0, mut = 0;
  for (std::size_t i = s.i; i + VEC_REC <= s.n; i += VEC_REC) { ++nops; unsigned op = s.p[i] % VEC_OPS; if ((op >= 4 && op <= 15) || op >= 19) ++mut; }
  c.nontrivial = nops >= 5 && mut >= 2;
  if (cfg == 255) { c.label("huge"); return both<std::vector<int>, cest::vector<int>>(few(s, VEC_REC, 8), c, HUGE_N, 3 * HUGE_N); }
  if (cfg == 254) { c.label("huge, uchar"); return both<std::vector<unsigned char>, cest::vector<unsigned char>>(few(s, VEC_REC, 8), c, HUGE_N, 3 * HUGE_N); }
  if (cfg >= 252) { c.label("long"); return both<std::vector<int>, cest::vector<int>>(s, c, 2400, 9000); }
  if (cfg >= 228 && cfg < 250) { c.label("plain struct"); return both<std::vector<Pod>, cest::vector<Pod>>(s, c, 60, 300); }
  if (cfg >= 250) { c.label("long, owning"); return both<std::vector<Own>, cest::vector<Own>>(s, c, 1100, 2600); }
  switch (cfg % 8) {
    case 0: case 1: c.label("int"); both<std::vector<int>, cest::vector<int>>(s, c, 200, 700); break;
    case 2: c.label("std::string"); both<std::vector<std::string>, cest::vector<std::string>>(s, c, 40, 120); break;
    case 3: c.label("owning"); both<std::vector<Own>, cest::vector<Own>>(s, c, 40, 120); break;
    case 4: c.label("wide"); both<std::vector<Wide>, cest::vector<Wide>>(s, c, 40, 120); break;
    case 5: c.label("nested"); both<std::vector<std::vector<int>>, cest::vector<cest::vector<int>>>(s, c, 30, 90); break;
    case 6: c.label("cest::string"); both<std::vector<std::string>, cest::vector<cest::string>>(s, c, 30, 90); break;
    default: c.label("uchar"); both<std::vector<unsigned char>, cest::vector<unsigned char>>(s, c, 250, 2000); break;
  }
}
} // namespace vf
