// C03: histories of blocks through one coder object and through the pipeline.
#include "blocks.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
using mc::Bytes; using mc::u64; using mc::Family;

// the alphabet of blocks a history is built from
static std::vector<Bytes> A;
static void makeAlphabet(bool T) {
  A.push_back(Bytes(1, 'a'));
  A.push_back(Bytes(2, 0));
  A.push_back(gen::pattern(1, 3));
  A.push_back(Bytes(300, 255));
  A.push_back(gen::pattern(8, 257));
  A.push_back(gen::pattern(15, 900));
  A.push_back(gen::pattern(6, 256));
  A.push_back(gen::alphabet(256, 2, 1, 0));
  A.push_back(gen::pattern(9, 1200));
  { Bytes v(10001, 'a'); v[17] = 'b'; A.push_back(v); }               // one section
  { Bytes v(10000, 'a'); v.insert(v.end(), 10000, 'b'); v.insert(v.end(), 1, 'c'); A.push_back(v); }  // two sections
  A.push_back(gen::pattern(4, 700));
  if (T) { A.push_back(gen::pattern(12, 20000)); A.push_back(gen::pattern(19, 65)); A.push_back(gen::alphabet(17, 4, 0, 2)); }
}

static void history(const std::vector<int>& h, char enc, unsigned starts, char bwt) {
  std::string s; for (int x : h) if (s.size() < 300) { char t[16]; snprintf(t, 16, "%d(%zu) ", x, A[x].size()); s += t; }
  mc::note("coder %c starts %u bwt %c blocks %s", enc, starts, bwt, s.c_str());
  Encoder E(enc, bwt, starts); Bytes z; mcs::MemOut out(z);
  std::vector<size_t> end;
  for (int x : h) {
    size_t before = z.size(), claim = E.block(A[x], out);
    MC_CHECK(z.size() - before == claim, "encoder claims %zu bytes for block %d, wrote %zu", claim, x, z.size() - before);
    end.push_back(z.size()); mc::step();
  }
  z.push_back(0);
  Decoder D(enc); mcs::MemIn in(z);
  u64 hash = mc::mix(enc);
  for (size_t k = 0; k < h.size(); ++k) {
    Bytes got = D.block(in, A[h[k]].size());
    char w[64]; snprintf(w, 64, "coder %c: block %zu of the history", enc, k + 1);
    same(w, A[h[k]], got);
    MC_CHECK(in.pos() == end[k], "coder %c: after block %zu the decoder is at byte %zu, the encoder was at %zu", enc, k + 1, in.pos(), end[k]);
    size_t from = k ? end[k - 1] : 0; hash = mc::hashBytes(z.data() + from, end[k] - from, hash); mc::state(hash); mc::step();
  }
}

static Bytes comp(const Bytes& in, char enc, char bwt, unsigned st, const std::string& p, size_t mem) {
  Bytes out; bwtc::Compressor c(new mcs::MemIn(in), new mcs::MemOut(out), p, mem, enc);
  c.initializeBwtAlgorithm(bwt, st); c.compress(1); return out;
}
static Bytes decomp(const Bytes& in) { Bytes out; bwtc::Decompressor d(new mcs::MemIn(in), new mcs::MemOut(out)); d.decompress(1); return out; }
static void e2e(const Bytes& in, char enc, unsigned st, const std::string& p, size_t mem) {
  mc::note("pipeline coder %c starts %u prepr '%s' memory limit %zu input %zu bytes %s", enc, st, p.c_str(), mem, in.size(), mc::hex(in, 24).c_str());
  Bytes z = comp(in, enc, 'a', st, p, mem);
  Bytes b = decomp(z);
  char w[96]; snprintf(w, 96, "coder %c prepr '%s' memory limit %zu: restored data", enc, p.c_str(), mem);
  same(w, in, b); mc::step(2); mc::state(mc::hashBytes(z.data(), z.size()));
}
// an input made of distinguishable pieces so that swaps, losses and repeats show
static Bytes mixed(size_t n, int kind) {
  Bytes v; int k = kind;
  while (v.size() < n) { Bytes p = gen::pattern(k % gen::kPatterns, 90 + 13 * (k % 17)); for (size_t i = 0; i < p.size() && k % 3 == 0; ++i) p[i] ^= (unsigned char)(k * 11); v.insert(v.end(), p.begin(), p.end()); ++k; }
  v.resize(n); return v;
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough(); makeAlphabet(T);
    static u64 N; N = A.size();
    // preprocessed superblocks sliced into many transform blocks
    F.push_back(Family("sliced-superblocks", 6 * 4 * (T ? 24 : 6), [](u64 i) {
      static const size_t mem[] = {20000, 30000, 12000, 50000};
      int m = (int)(i / 6 % 4), k = (int)(i / 24);
      e2e(mixed(mem[m] * 3 + 777 * k + (k & 1 ? 1 : 0), k * 5 + m), kEncs[i % 6], 1 + k % 9, k % 2 ? "pp" : "p", mem[m]); }, 1));
    // long histories: more blocks than any small counter can hold
    F.push_back(Family("long-histories", 6 * (T ? 12 : 3), [](u64 i) {
      std::vector<int> h; for (int k = 0; k < 300 + 7 * (int)(i / 6); ++k) { int x = (int)(mc::mix(k / 3 * 31 + i / 6) % N); if (A[x].size() > 5000) x = (k + 1) % 7; h.push_back(k % 50 == 49 ? (int)(N - 1 - k / 50 % 3) : x); }
      history(h, kEncs[i % 6], 1 + (unsigned)(i % 5) * 3, "ds"[i & 1]); }, 1));
    F.push_back(Family("many-blocks", 4 * (T ? 3 : 1), [](u64 i) { static const char e[] = "HmuB"; e2e(mixed(mc::thorough() ? 66000 + i / 4 * 1000 : 5000, (int)i), e[i % 4], 1, "", 6 + 6 * (i / 4)); }, 1));
    F.push_back(Family("many-tiny-blocks", T ? 6 : 2, [](u64 i) { std::vector<int> h(66000); for (size_t k = 0; k < h.size(); ++k) { int x = (int)((k * 7 + k / 256) % N); while (A[x].size() > 8) x = (x + 1) % (int)N; h[k] = x; } history(h, "HBmMub"[i], 1, 'd'); }, 1));
    // larger multi-block inputs with several sections per block
    F.push_back(Family("sections-blocks", 6 * 6 * (T ? 4 : 1), [](u64 i) {
      int k = (int)(i / 6 % 6), s = (int)(i / 36); size_t n = 250000 + 31111 * s;
      static const int pt[] = {8, 11, 15, 9, 6, 21};
      e2e(gen::pattern(pt[k], n), kEncs[i % 6], 8, "", 540000 / 6 * (1 + k)); }, 1));
    F.push_back(Family("pairs-of-blocks", 6 * 2 * N * N, [](u64 i) {
      u64 j = i / 12; history({(int)(j % N), (int)(j / N)}, kEncs[i % 6], i / 6 % 2 ? 8 : 1, i / 6 % 2 ? 's' : 'd'); }, 4));
    F.push_back(Family("triples-of-blocks", 6 * N * N * N, [](u64 i) {
      u64 j = i / 6; history({(int)(j % N), (int)(j / N % N), (int)(j / N / N)}, kEncs[i % 6], 1 + i % 5, "ds"[j & 1]); }, 8));
    // histories of four small blocks (long enough to return to an earlier state)
    static const int small[] = {0, 1, 3, 4, 6, 11};
    F.push_back(Family("quads-of-small", 6 * 6 * 6 * 6 * 6, [](u64 i) {
      u64 j = i / 6; history({small[j % 6], small[j / 6 % 6], small[j / 36 % 6], small[j / 216]}, kEncs[i % 6], 1 + i % 3, 'd'); }, 16));
    if (T) F.push_back(Family("fives-of-small", 6 * 7776, [](u64 i) {
      u64 j = i / 6; history({small[j % 6], small[j / 6 % 6], small[j / 36 % 6], small[j / 216 % 6], small[j / 1296]}, kEncs[i % 6], 2, 's'); }, 16));
    // every memory limit: boundaries fall at every position
    F.push_back(Family("limits", (u64)(T ? 2400 : 900) * 6, [](u64 i) {
      size_t mem = 6 + i / 6; e2e(mixed(std::min<size_t>(24 * (mem / 6), 1600) + i % 7, (int)(i % 19)), kEncs[i % 6], 1 + i % 4, "", mem); }, 8));
    F.push_back(Family("limits-prepr", (u64)(T ? 2400 : 300) * 2, [](u64 i) {
      size_t mem = 20 + 7 * (i / 2); e2e(mixed(mem * 3 + 5, (int)(i % 23)), i & 1 ? 'B' : 'H', 1, "p", mem); }, 8));
    // every total length around every small block size
    F.push_back(Family("lengths", 40 * 110 * (T ? 6 : 2), [T](u64 i) {
      u64 k = T ? 6 : 2; u64 j = i / k; size_t bs = 1 + j / 110; char e = T ? kEncs[i % 6] : (i % 2 ? kEncs[1 + j % 5] : 'H');
      e2e(gen::pattern(16, j % 110), e, 1, "", bs * 6); }, 32));
  });
}
