// Histories over files in memory.
#ifndef VERIF_INTERP_MEMFILE_HPP
#define VERIF_INTERP_MEMFILE_HPP
#include "core.hpp"
#include "interp_string.hpp"
namespace vf {
constexpr unsigned MF_OPS = 8, MF_REC = 5;
// API: open(buf,size), read(buf,n,file), close(file), File
template <class API, class S> constexpr void run_mf(Src s, S& k, bool huge = false) {
  using F = typename API::File;
  F f[3] = {};
  while (!s.done()) {
    unsigned op = s.byte() % MF_OPS, a = s.byte() % 3, x = s.byte(), y = s.byte(), z = s.byte();
    auto rd = [&](std::size_t n) {
      Buf<char> b(n); for (std::size_t q = 0; q < n; q++) b.p[q] = char('#' + q % 7);
      std::size_t got = API::read(b.p, n, f[a]); k.obs("delivered", got);
      u64 h = 0; for (std::size_t q = 0; q < n; q++) h = mix(h, u8(b.p[q])); k.obs("destination", h);
      return got;
    };
    switch (op) {
      case 0: case 1: { std::size_t n = x < 128 ? x % 20 : x < 240 ? x : !huge || x < 255 || y < 128 ? x * 16u + y : 65536u * (1 + y % 5) - 4 + z % 9; k.op("fmemopen", a, n);
          if (f[a]) { k.obs("fclose", u64(API::close(f[a]))); f[a] = F(); }
          Buf<char> b(n); fill(b.p, n, z % 6 == 0 ? 4 : z, y); if (z & 1) for (std::size_t q = 0; q < n; q++) b.p[q] = char(q * 37 + y);
          const char m[4] = {'r', "\0b++"[z % 4], "\0\0\0b"[z % 4], 0}; f[a] = API::open(b.p, n, m); k.check(bool(f[a]), "fmemopen returned null");
          for (std::size_t q = 0; q < n; q++) b.p[q] = '!';           // the stream no longer depends on the buffer
          break; }
      case 2: case 3: case 4: case 5: { std::size_t n = y < 220 ? y % 16 : !huge || y < 252 ? y * 5u : y < 254 ? 30000u + y : 100000u * (z % 4) + y; if (f[a]) { k.op("fread", a, n); rd(n); } break; }
      case 6: if (f[a]) { k.op("fread to the end", a); unsigned q = 0; while (rd(1 + y % 50) && ++q < 6000) {} k.obs("reads", q); rd(3); } break;
      default: if (f[a]) { k.op("fclose", a); k.obs("fclose", u64(API::close(f[a]))); f[a] = F(); } break;
    }
  }
  for (auto& p : f) if (p) { k.op("fclose at the end"); k.obs("fclose", u64(API::close(p))); }
}
} // namespace vf
#endif
