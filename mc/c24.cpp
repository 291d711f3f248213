// C24: memory is returned and its use does not grow with the length of the
// input: live and peak heap are counted around real runs.
#ifdef MC_REDUCED
#include "pipeline.hpp"
#else
#include "container.hpp"
#endif
#include "prep.hpp"
#include "memcount.hpp"
using mc::Bytes; using mc::u64; using mc::Family;

// an output that keeps nothing but a count and a hash of what is written
struct CountOut : public bwtc::OutStream {
  size_t& n; explicit CountOut(size_t& x) : n(x) {}
  void writeByte(bwtc::byte) { ++n; }
  void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { n += e - b; }
  long int getPos() { return (long)n; }
  void write48bits(bwtc::uint64, long int) {}
  void flush() {}
};
// an input of any length that is never stored: repetitions of a pattern
struct Endless : public bwtc::InStream {
  const Bytes& d; size_t left, at;
  Endless(const Bytes& p, size_t n) : d(p), left(n), at(0) {}
  bool readBit() { mc::fail("bit read from an input"); }
  bwtc::byte readByte() { if (!left) mc::fail("read past the end"); --left; bwtc::byte b = d[at]; at = at + 1 == d.size() ? 0 : at + 1; return b; }
  size_t readBlock(bwtc::byte* to, size_t m) { size_t n = std::min(m, left); for (size_t i = 0; i < n; ++i) to[i] = readByte(); return n; }
  void flushBuffer() {}
  bwtc::uint64 read48bits() { bwtc::uint64 r = 0; for (int i = 0; i < 6; ++i) r = r << 8 | readByte(); return r; }
  bool compressedDataEnding() { return left == 0; }
};
static size_t lastPeak;
template <class F> static void measured(F f) { size_t base = memLive; memPeak = memLive; f(); lastPeak = memPeak - base; }

static size_t packOnce(bwtc::InStream* in, const Cfg& c) {
  size_t n = 0; { bwtc::Compressor comp(in, new CountOut(n), c.prepr, c.mem, c.enc); comp.initializeBwtAlgorithm(c.bwt, c.starts); comp.compress(1); } return n;
}
static size_t unpackOnce(const Bytes& z) { size_t n = 0; { bwtc::Decompressor d(new mcs::MemIn(z), new CountOut(n)); d.decompress(1); } return n; }
template <class F> static void returned(const char* what, const std::string& cfg, F f) {
  // what is set up once for the whole process is allowed, whatever is kept
  // every time is not
  f(); f(); size_t l2 = memLive, b2 = memBlocks; f(); mc::step(3);
  MC_CHECK(memLive <= l2 && memBlocks <= b2, "%s keeps %ld bytes in %ld pieces every time it is done, %s", what, (long)(memLive - l2), (long)(memBlocks - b2), cfg.c_str());
}
static void leak(const Bytes& in, const Cfg& c) {
  std::string cfg = c.str(); mc::note("%s input=%s", cfg.c_str(), mc::hex(in).c_str());
  returned("compression", cfg, [&] { packOnce(new mcs::MemIn(in), c); });
  Bytes z = compressBytes(in, c); MC_CHECK(decompressBytes(z) == in, "round trip differs, %s", cfg.c_str());
  returned("decompression", cfg, [&] { unpackOnce(z); });
  mc::state(mc::hashBytes(z.data(), z.size()));
}
#ifndef MC_REDUCED
static void leakPrep(const Bytes& in, const std::string& p, size_t block) {
  char cfg[80]; snprintf(cfg, 80, "prepr=\"%s\" block=%zu", p.c_str(), block); mc::note("%s input=%s", cfg, mc::hex(in).c_str());
  Bytes z; returned("preprocessing", cfg, [&] { Bytes().swap(z); Bytes t = preprocessBytes(in, p, block); z.reserve(t.size()); z.assign(t.begin(), t.end()); });
  returned("postprocessing", cfg, [&] { MC_CHECK(postprocessBytes(z) == in, "round trip differs"); });
  mc::state(mc::hashBytes(z.data(), z.size(), 3));
}
#endif
// four times as many blocks may not need more memory at any point
static void flat(int pat, const Cfg& c, size_t blocks) {
  std::string cfg = c.str(); mc::note("%s blocks=%zu pattern=%d", cfg.c_str(), blocks, pat);
  size_t bs = c.mem * (c.prepr.empty() ? 0.185 : 0.74); Bytes p = gen::pattern(pat, bs > 7000 ? bs : bs * 3);
  size_t pk[2], up[2];
  for (int k = 0; k < 2; ++k) {
    size_t n = bs * blocks * (k ? 4 : 1) + 5;
    measured([&] { packOnce(new Endless(p, n), c); }); pk[k] = lastPeak;
    Bytes z; { bwtc::Compressor comp(new Endless(p, n), new mcs::MemOut(z), c.prepr, c.mem, c.enc); comp.initializeBwtAlgorithm(c.bwt, c.starts); comp.compress(1); }
    size_t got = 0; measured([&] { got = unpackOnce(z); }); up[k] = lastPeak; MC_CHECK(got == n, "%zu bytes restored of %zu", got, n); mc::step(3);
  }
  size_t room = 6 * 3 * blocks + 2048 + c.mem / 50;
  MC_CHECK(pk[1] <= pk[0] + room, "compressing 4 times as many blocks (%zu) needs %zu bytes instead of %zu, %s", 4 * blocks, pk[1], pk[0], cfg.c_str());
  MC_CHECK(up[1] <= up[0] + room, "decompressing 4 times as many blocks (%zu) needs %zu bytes instead of %zu, %s", 4 * blocks, up[1], up[0], cfg.c_str());
  mc::state(mc::mix(pk[0]) ^ up[0]);
}
static void limit(int pat, const Cfg& c, size_t n) {
  std::string cfg = c.str(); mc::note("%s length=%zu pattern=%d", cfg.c_str(), n, pat);
  Bytes p = gen::pattern(pat, std::min<size_t>(n, 3000001)); size_t a, b, got = 0; Bytes z;
  measured([&] { packOnce(new Endless(p, n), c); }); a = lastPeak;
  { bwtc::Compressor comp(new Endless(p, n), new mcs::MemOut(z), c.prepr, c.mem, c.enc); comp.initializeBwtAlgorithm(c.bwt, c.starts); comp.compress(1); }
  measured([&] { got = unpackOnce(z); }); b = lastPeak; mc::step(3); MC_CHECK(got == n, "%zu bytes restored of %zu", got, n);
  if (getenv("MC_SHOW")) fprintf(stderr, "%s n=%zu pat=%d: %.3f %.3f  MB %.2f %.2f\n", cfg.c_str(), n, pat, (double)a / c.mem, (double)b / c.mem, a / 1e6, b / 1e6);
  MC_CHECK(a <= c.mem * 3 / 2 + 3000000, "compression with a memory limit of %zu bytes used %zu, %s", c.mem, a, cfg.c_str());
  MC_CHECK(b <= 2 * c.mem + 3000000, "decompression of what was compressed with a memory limit of %zu bytes used %zu, %s", c.mem, b, cfg.c_str());
  mc::state(mc::mix(a) ^ b);
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    {
      static const int pt[] = {15, 8, 3, 6}; static const char* pp[] = {"", "p", "ppp"};
      F.push_back(Family("limits", T ? 4 * 6 * 3 * 3 : 24, [T](u64 i) {
        u64 j = i; int k; char e; const char* p;
        if (T) { k = pt[j % 4]; j /= 4; e = kEncs[j % 6]; j /= 6; p = pp[j % 3]; j /= 3; }
        else { k = i < 18 ? pt[0] : pt[1]; e = i < 18 ? kEncs[i % 6] : kEncs[i % 2 * 5]; p = pp[i < 18 ? i / 6 : (i - 18) / 2]; j = 0; }
        static const size_t lim[] = {10000000, 50000000, 2000000}; size_t m = lim[j];
        limit(k, Cfg(e, "ds"[(i / 2) & 1], 8, p, m), m + m / 3); }, 1));
      F.push_back(Family("many-blocks", 6 * 3 * (T ? 6 : 3), [](u64 i) {
        static const size_t mem[] = {4000, 20000, 1000, 60000, 100000, 300}; static const size_t nb[] = {120, 60, 200, 40, 30, 400};
        u64 j = i; char e = kEncs[j % 6]; j /= 6; const char* p = pp[j % 3]; j /= 3;
        flat(pt[(i + j) % 4], Cfg(e, "ds"[j & 1], 1 + (unsigned)i % 9, p, mem[j]), *p ? nb[j] / 8 + 1 : nb[j]); }, 1));
    }
    F.push_back(Family("replacements", 120 * (T ? 6 : 1), [](u64 i) {
      static const int R[] = {1004, 1100, 2100}; static const int RA[] = {0, 150, 180, 190, 192};
      prep::Spec s = {1 + (int)(i % 6) * 2, R[i % 3], RA[i / 6 % 5], 1 + (int)(i / 120 % 3), (int)(i / 30 % 4), (int)(i / 2 % 5), (int)(i / 48 % 5), (int)(i * 11 % 256)};
      Bytes v = prep::make(s); leak(v, Cfg(kEncs[(i + i / 6) % 6], "ds"[i & 1], 8, i % 3 == 0 ? "p" : i % 3 == 1 ? "pp" : "ppppp", i % 4 ? 1000000 : v.size() * 2)); }, 2));
    F.push_back(Family("sizes", (u64)gen::kPatterns * 6 * 6, [](u64 i) {
      static const size_t sz[] = {5000, 9999, 10000, 20000, 65537, 131072};
      leak(gen::pattern((int)(i % gen::kPatterns), sz[i / gen::kPatterns / 6]), Cfg(kEncs[i / gen::kPatterns % 6], "ds"[i & 1], 1 + i % 13, i % 5 == 0 ? "pp" : "", i % 7 ? 1000000 : 30000)); }, 2));
    F.push_back(Family("alphabet", 256 * 5 * 2, [](u64 i) {
      u64 j = i / 2; char e = i & 1 ? kEncs[1 + j % 5] : 'H'; leak(gen::alphabet(1 + (int)(j / 5), (int)(j % 5), (int)(j / 5 % 2), (int)(j % 3)), Cfg(e)); }, 8));
    F.push_back(Family("starts", 256 * 4, [](u64 i) {
      static const size_t ln[] = {256, 257, 300, 1000}; leak(gen::pattern(i % 3 ? 8 : 3, ln[i % 4]), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + (unsigned)(i / 4))); }));
    F.push_back(Family("memory", 900, [](u64 i) {
      size_t mem = 6 + i, n = std::min<size_t>(mem * 2 / 3 + 3, 700);
      leak(gen::pattern((int)(i % gen::kPatterns), n), Cfg(kEncs[i % 6], 'a', 1 + i % 9, i % 4 == 3 && mem >= 20 ? "p" : "", mem)); }));
    F.push_back(Family("lengths", (u64)(T ? 1000 : 300) * gen::kPatterns, [](u64 i) {
      leak(gen::pattern((int)(i % gen::kPatterns), i / gen::kPatterns), Cfg(kEncs[(i + i / gen::kPatterns) % 6], "ads"[i % 3], 1 + i % 7, i % 11 == 0 ? "p" : "")); }));
#ifndef MC_REDUCED
    F.push_back(Family("preprocessed-replacements", 120 * (T ? 4 : 1), [](u64 i) {
      static const int R[] = {1004, 1100, 2100}; static const int RA[] = {0, 150, 180, 190, 192};
      prep::Spec s = {1 + (int)(i % 6) * 2, R[i / 2 % 3], RA[i / 6 % 5], 1 + (int)(i / 120 % 3), (int)(i / 30 % 4), (int)(i / 3 % 5), (int)(i / 48 % 5), (int)(i * 13 % 256)};
      Bytes v = prep::make(s); static const char* pp[] = {"p", "pp", "ppp", "pppppp"};
      leakPrep(v, pp[i % 4], i % 5 ? v.size() + 1 : v.size() / 2 + 1); }, 2));
    F.push_back(Family("preprocessed-lengths", (u64)gen::kPatterns * 200, [](u64 i) {
      size_t n = i / gen::kPatterns; n = n < 150 ? n : (n - 149) * 401; static const char* pp[] = {"", "p", "pp"};
      leakPrep(gen::pattern((int)(i % gen::kPatterns), n), pp[i % 3], 1 + i % 5 * 8000 + n / 3); }));
#endif
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255};
    F.push_back(Family("all-ab", gen::stringsCount(2, 0, T ? 12 : 9) * 6, [](u64 i) { leak(gen::stringAt(i / 6, ab, 0), Cfg(kEncs[i % 6])); }));
    F.push_back(Family("all-3", gen::stringsCount(3, 0, T ? 8 : 6) * 6, [](u64 i) { leak(gen::stringAt(i / 6, t3, 0), Cfg(kEncs[i % 6], "ds"[i & 1], 8, i % 5 ? "" : "p")); }));
  });
}
