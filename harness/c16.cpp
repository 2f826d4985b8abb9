#define VF_OWN_NEW
#include "ledger.hpp"
#include "interp_memfile.hpp"
#include <cest/cstdio.hpp>
namespace vf {
const Shape vf_shape{0, MF_REC, MF_OPS, 60};
const char* const vf_rule = "A case is a list of 5-byte operation records over three streams in memory (open on a buffer of any bytes, reads of any length, close, overwriting and freeing the buffer after opening); it is non-trivial if it opens at least one stream and reads at least twice.";
void vf_gen(Rng& r, Bytes& out) { swarm_gen(r, out, vf_shape, {4, 4, 6, 6, 6, 6, 3, 2}); }
struct Ref {
  struct St { std::vector<char> d; std::size_t pos = 0; };
  using File = St*;
  static File open(char* b, std::size_t n, const char*) { return new St{std::vector<char>(b, b + n), 0}; }
  static std::size_t read(char* b, std::size_t n, File f) { std::size_t m = std::min(n, f->d.size() - f->pos); for (std::size_t i = 0; i < m; i++) b[i] = f->d[f->pos++]; return m; }
  static int close(File f) { delete f; return 0; }
};
struct Cest {
  using File = cest::FILE*;
  static File open(char* b, std::size_t n, const char* m) { return cest::fmemopen(b, n, m); }
  static std::size_t read(char* b, std::size_t n, File f) { return cest::fread(b, 1, n, f); }
  static int close(File f) { return cest::fclose(f); }
};
void vf_case(Src s, Ctx& c) {
  unsigned op = 0, rd = 0;
  for (std::size_t i = 0; i + MF_REC <= s.n; i += MF_REC) { unsigned o = s.p[i] % MF_OPS; if (o < 2) ++op; else if (o < 7 && op) ++rd; }
  c.nontrivial = op >= 1 && rd >= 2;
  differential(s, c, [&](Src q, auto& k) { run_mf<Ref>(q, k, true); }, [&](Src q, auto& k) { run_mf<Cest>(q, k, true); });
  HashSink h;
  const long before = heap_blocks;
  run_mf<Cest>(s, h, true);
  if (heap_blocks != before) throw Mismatch{std::to_string(heap_blocks - before) + " heap blocks remain after every stream was closed"};
}
} // namespace vf
