// C15: the output is a function of input and options only: fresh processes,
// previous work and different memory contents all give the same bytes.
#include "blocks.hpp"
#include "pipeline.hpp"
#include "memfill.hpp"
#include "prep.hpp"
#include "preprocessors/Precompressor.hpp"
#include "PrecompressorBlock.hpp"
#include <memory>
using mc::Bytes; using mc::u64; using mc::Family;

struct Item { Bytes in; Cfg c; };
static std::vector<Item> A; static std::vector<u64> fresh;
static Bytes prepr(const Bytes& in, const std::string& o) {
  bwtc::Precompressor pc(o); mcs::MemIn mi(in, false); std::unique_ptr<bwtc::PrecompressorBlock> b(pc.readBlock(in.size() + 9, &mi));
  Bytes z; mcs::MemOut out(z); if (!in.empty()) { b->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); z.insert(z.end(), b->begin(), b->end()); } return z;
}
static Bytes work(const Item& x, int fill, bool stack) {
  if (stack) dirtyStack(fill < 0 ? 0 : fill);
  memFill = fill; memDescending = fill == 0x5A; Bytes z = compressBytes(x.in, x.c); memFill = -1; memDescending = false; mc::step(); return z;
}
static u64 hash(const Bytes& z) { return mc::hashBytes(z.data(), z.size()); }
static void setup(bool T) {
  A.clear(); fresh.clear();
  struct P { int k; size_t n; }; static const P p[] = {{0, 0}, {0, 1}, {0, 300}, {15, 2}, {15, 700}, {8, 400}, {6, 513}, {19, 999}, {10, 3000}, {11, 5000}, {15, 20000}};
  for (auto& q : p) for (int e = 0; e < 6; ++e) { Item x; x.in = gen::pattern(q.k, q.n); x.c = Cfg(kEncs[e], "ds"[e & 1], 1 + e * 3, e % 3 == 0 && q.n > 2 ? "pp" : "", e % 2 ? 1000000 : 2000); A.push_back(x); }
  for (int k = 0; k < 6; ++k) { prep::Spec s = {3, 1100, 192, 1, k % 4, k % 5, k % 5, k}; Item x; x.in = prep::make(s); x.c = Cfg(kEncs[k], 'a', 8, "ppp"); A.push_back(x); }
  if (!T) { std::vector<Item> B; for (size_t i = 0; i < A.size(); ++i) if (i % 2 == (i / 6) % 2 || A[i].in.size() < 1000) B.push_back(A[i]); A.swap(B); }
  for (size_t i = 0; i < A.size(); ++i) {
    // computed by a process that has done nothing else
    int fd[2]; if (pipe(fd)) abort(); fflush(0); pid_t c = fork();
    if (c == 0) { u64 h; try { h = hash(compressBytes(A[i].in, A[i].c)); } catch (...) { h = 0; } if (write(fd[1], &h, 8) != 8) _exit(1); _exit(0); }
    close(fd[1]); u64 h = 0; if (read(fd[0], &h, 8) != 8) h = 0; close(fd[0]); int st; waitpid(c, &st, 0); fresh.push_back(h);
  }
}
static void pairCase(size_t a, size_t b, int fa, int fb) {
  mc::note("after %s (%zu bytes), memory filled with %d: %s (%zu bytes), memory filled with %d", A[a].c.str().c_str(), A[a].in.size(), fa, A[b].c.str().c_str(), A[b].in.size(), fb);
  Bytes za = work(A[a], fa, false), zb = work(A[b], fb, (a + b) % 8 == 0);
  MC_CHECK(hash(zb) == fresh[b], "%s, %zu bytes: the output differs from that of a fresh process", A[b].c.str().c_str(), A[b].in.size());
  MC_CHECK(hash(za) == fresh[a], "%s, %zu bytes: the output differs from that of a fresh process", A[a].c.str().c_str(), A[a].in.size());
  memFill = fa; Bytes d1 = decompressBytes(za), d2; memFill = fb; d2 = decompressBytes(zb); memFill = -1;
  MC_CHECK(d1 == A[a].in && d2 == A[b].in, "decompression depends on memory contents or earlier work");
  mc::step(2); mc::state(hash(zb) ^ mc::mix(a));
}
static void fills(const Bytes& in, const Cfg& c) {
  Item x = {in, c}; mc::note("%s input=%s", c.str().c_str(), mc::hex(in).c_str());
  static const int f[] = {0x00, 0xFF, 0x5A, -1}; Bytes first, pre;
  for (int k = 0; k < 4; ++k) {
    Bytes z = work(x, f[k], false);
    if (k == 0) first = z; else MC_CHECK(z == first, "output depends on the contents of fresh memory (%d): %s", f[k], c.str().c_str());
    memFill = f[k]; memDescending = k == 2; Bytes d = decompressBytes(z); memFill = -1; memDescending = false;
    MC_CHECK(d == in, "decompressed bytes depend on the contents of fresh memory (%d): %s", f[k], c.str().c_str());
    if (!c.prepr.empty() && in.size() > 2) { memFill = f[k]; memDescending = k == 2; Bytes p = prepr(in, c.prepr); memFill = -1; memDescending = false; if (k == 0) pre = p; else MC_CHECK(p == pre, "preprocessed bytes depend on the contents of fresh memory (%d)", f[k]); }
  }
  mc::state(hash(first));
}

// two coder objects used in turns: every interleaving of 3 + 3 blocks
static const Bytes& piece(int k) {
  static std::vector<Bytes> P;
  if (P.empty()) { P.push_back(gen::pattern(15, 700)); P.push_back(gen::pattern(8, 400)); P.push_back(Bytes(300, 'z')); P.push_back(gen::pattern(6, 513)); P.push_back(Bytes(1, 0)); { Bytes v(10001, 'a'); v[17] = 'b'; v[10000] = 'c'; P.push_back(v); } }
  return P[k % P.size()];
}
static void interleaved(int ca, int cb, int order, int set) {
  static std::vector<int> orders; if (orders.empty()) for (int m = 0; m < 64; ++m) if (__builtin_popcount(m) == 3) orders.push_back(m);
  int mask = orders[order]; const char enc[2] = {kEncs[ca], kEncs[cb]}; unsigned st[2] = {1 + (unsigned)set, 8};
  mc::note("coders %c and %c in turns, order %02x, blocks %d", enc[0], enc[1], mask, set);
  Bytes alone[2], z[2];
  for (int w = 0; w < 2; ++w) { Encoder e(enc[w], "ds"[w], st[w]); mcs::MemOut o(alone[w]); for (int k = 0; k < 3; ++k) e.block(piece(set + w * 2 + k), o); }
  { Encoder a(enc[0], 'd', st[0]), b(enc[1], 's', st[1]); mcs::MemOut oa(z[0]), ob(z[1]); int n[2] = {0, 0};
    for (int k = 0; k < 6; ++k) { int w = mask >> k & 1; (w ? b : a).block(piece(set + w * 2 + n[w]++), w ? ob : oa); mc::step(); } }
  for (int w = 0; w < 2; ++w) MC_CHECK(z[w] == alone[w], "coder %c: the output depends on another coder used in between", enc[w]);
  for (int w = 0; w < 2; ++w) z[w].push_back(0);
  { Decoder a(enc[0]), b(enc[1]); mcs::MemIn ia(z[0]), ib(z[1]); int n[2] = {0, 0};
    for (int k = 0; k < 6; ++k) { int w = mask >> (5 - k) & 1; const Bytes& p = piece(set + w * 2 + n[w]++); Bytes g = (w ? b : a).block(w ? ib : ia, p.size()); MC_CHECK(g == p, "coder %c: decoding depends on another decoder used in between", enc[w]); mc::step(); } }
  mc::state(hash(z[0]) ^ mc::mix(hash(z[1]) + order));
}
int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough(); setup(T); static u64 N; N = A.size();
    F.push_back(Family("large-fills", 6 * 4, [](u64 i) { static const int pt[] = {8, 15, 9, 6}; fills(gen::pattern(pt[i / 6], 400000), Cfg(kEncs[i % 6], "ds"[i & 1], 8, i / 6 == 1 ? "pp" : "", 1000000)); }, 1));
    F.push_back(Family("prepr-fills", 5 * 4 * 6, [](u64 i) { prep::Spec s = {1 + (int)(i % 5) * 2, 1050 + 300 * (int)(i % 3), 188 + (int)(i % 5), 1 + (int)(i % 4), (int)(i / 5 % 4), (int)(i / 20 % 5), (int)(i % 5), (int)i}; fills(prep::make(s), Cfg(kEncs[i % 6], 'a', 8, i & 1 ? "ppp" : "p")); }, 2));
    F.push_back(Family("interleaved", 36 * 20 * (T ? 6 : 2), [](u64 i) { interleaved((int)(i % 6), (int)(i / 6 % 6), (int)(i / 36 % 20), (int)(i / 720)); }, 4));
    F.push_back(Family("pairs", N * N, [](u64 i) { static const int f[] = {0x00, 0xFF, 0x5A}; pairCase(i % N, i / N, f[i % 3], f[(i / 3 + i / N) % 3]); }, 8));
    F.push_back(Family("patterns-fills", (u64)gen::kPatterns * 6 * (T ? 60 : 12), [](u64 i) { u64 j = i / 6 / gen::kPatterns; fills(gen::pattern((int)(i / 6 % gen::kPatterns), j * 41 + j / 3), Cfg(kEncs[i % 6], "ads"[i % 3], 1 + i % 11, i % 5 == 0 ? "p" : "", j % 4 == 3 ? 1200 : 1000000)); }, 8));
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 7, 255};
    F.push_back(Family("strings-fills", gen::stringsCount(2, 0, T ? 11 : 8) * 6, [](u64 i) { fills(gen::stringAt(i / 6, ab, 0), Cfg(kEncs[i % 6], "ds"[i & 1])); }));
    F.push_back(Family("strings3-fills", gen::stringsCount(3, 0, T ? 7 : 5) * 6, [](u64 i) { fills(gen::stringAt(i / 6, t3, 0), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + i % 4)); }));
  });
}
