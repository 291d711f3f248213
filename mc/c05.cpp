// C05: inverse transforms and the block header.
#define MAIN
#include "globaldefs.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "bwtransforms/MtlSaInverseBWT.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "BWTBlock.hpp"
#include "bwtref.hpp"
#include "gen.hpp"
#include "streams.hpp"
using mc::Bytes; using mc::u64; using mc::Family;

static bwtc::InverseBWTransform* make(int a) {
  switch (a) {
    case 0: return bwtc::giveInverseTransformer();
#ifndef MC_REDUCED
    case 1: return new bwtc::MtlSaInverseBWTransform();
    case 2: return new bwtc::FastInverseBWTransform();
#endif
  }
  return bwtc::giveInverseTransformer();
}
#ifdef MC_REDUCED
enum { kAlg = 1 };
#else
enum { kAlg = 3 };
#endif
static const char* kName[] = {"default", "MTL-SA", "fast"};

// the transform of `block` as the forward side stores it, from the definition
struct Fwd { Bytes stored; std::vector<bwtc::uint32> lf; };
static Fwd forward(const Bytes& block, unsigned starts) {
  Bytes t(block.rbegin(), block.rend()); ref::Bwt r = ref::transform(t);
  Fwd f; f.stored.assign(r.last.begin(), r.last.end() - 1);
  if (r.eob < f.stored.size()) f.stored[r.eob] = r.last.back();
  uint32_t N = (uint32_t)block.size() + 1, x = N / starts;
  for (unsigned k = 0; k < starts; ++k) f.lf.push_back(r.rankOf[(N - k * x) % N]);
  return f;
}
static void inverse(const Bytes& block, const Fwd& f, int alg, unsigned char junk) {
  const size_t G = 32; size_t n = block.size();
  Bytes mem(n + 1 + 2 * G, 0xB7);
  std::copy(f.stored.begin(), f.stored.end(), mem.begin() + G); mem[G + n] = junk;
  bwtc::BWTBlock b(&mem[G], (bwtc::uint32)n, true);
  b.LFpowers() = f.lf;
  bwtc::InverseBWTransform* t = make(alg);
  t->doTransform(b);
  delete t;
  for (size_t i = 0; i < n; ++i) MC_CHECK(mem[G + i] == block[i], "%s inverse: byte %zu of %zu is %02x, should be %02x (%zu starting points, block %s)", kName[alg], i, n, mem[G + i], block[i], f.lf.size(), mc::hex(block, 40).c_str());
  for (size_t i = 0; i < G; ++i) {
    MC_CHECK(mem[i] == 0xB7, "%s inverse: byte %zu before the block changed (%zu bytes, %zu starting points)", kName[alg], G - i, n, f.lf.size());
    MC_CHECK(mem[G + n + 1 + i] == 0xB7, "%s inverse: byte %zu behind the block changed (%zu bytes, %zu starting points)", kName[alg], i + 1, n, f.lf.size());
  }
  MC_CHECK(b.size() == n, "inverse changed the size");
  mc::step();
}
static void check(const Bytes& block, const std::vector<unsigned>& starts, bool real = true) {
  mc::note("block=%s starting points %u..%u", mc::hex(block).c_str(), starts.front(), starts.back());
  for (unsigned s : starts) {
    if (s > block.size() + 1) continue;
    Fwd f = forward(block, s);
    for (int a = 0; a < kAlg; ++a) inverse(block, f, a, (unsigned char)(s * 37));
    if (real) {       // and from the library's own forward transform
      Bytes mem(block); mem.push_back(0x77);
      bwtc::BWTBlock b(&mem[0], (bwtc::uint32)block.size(), false);
      bwtc::BWTManager m; m.initialize(s & 1 ? 'd' : 's'); m.setStartingPoints(s);
      bwtc::uint32 fr[256] = {0}; m.doTransform(b, fr);
      Fwd g; g.stored.assign(mem.begin(), mem.end() - 1); g.lf = b.LFpowers();
      for (int a = 0; a < kAlg; ++a) inverse(block, g, a, 0);
    }
    mc::state(mc::hashBytes(f.stored.data(), f.stored.size(), f.lf[0] * 257 + s));
  }
}
// header: any starting points are read back, whatever follows
static void header(const std::vector<bwtc::uint32>& lf, const Bytes& follow) {
  mc::note("header with %zu starting points, first %u last %u", lf.size(), lf[0], lf.back());
  Bytes z(3, 0xD1); mcs::MemOut out(z);
  unsigned char dummy[4]; bwtc::BWTBlock b(dummy, 3, true); b.LFpowers() = lf;
  size_t claimed = b.writeHeader(&out);
  size_t end = z.size();
  MC_CHECK(end - 3 == claimed, "header of %zu starting points takes %zu bytes, reported %zu", lf.size(), end - 3, claimed);
  z.insert(z.end(), follow.begin(), follow.end());
  mcs::MemIn in(z); for (int i = 0; i < 3; ++i) in.readByte();
  bwtc::BWTBlock r; r.LFpowers().assign(5, 99);
  r.readHeader(&in);
  MC_CHECK(r.LFpowers().size() == lf.size(), "%zu starting points read back as %zu", lf.size(), r.LFpowers().size());
  for (size_t i = 0; i < lf.size(); ++i) MC_CHECK(r.LFpowers()[i] == lf[i], "starting point %zu of %zu written as %u, read as %u", i, lf.size(), lf[i], r.LFpowers()[i]);
  MC_CHECK(in.bit == end * 8, "reading the header ends at bit %zu, it was written up to bit %zu", in.bit, end * 8);
  if (!follow.empty()) MC_CHECK(in.readByte() == follow[0], "byte behind the header is lost");
  mc::step(2); mc::state(mc::hashBytes(z.data(), z.size(), 77));
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255}, t4 = {0, 127, 128, 255};
    {
      static const size_t sz[] = {20000, 65535, 65536, 65537, 131073, 300001};
      F.push_back(Family("long", (u64)(T ? 6 : 4) * gen::kPatterns, [](u64 i) { check(gen::pattern((int)(i % gen::kPatterns), sz[i / gen::kPatterns]), {1, 8, 255, 256}); }, 1));
      // more than 2^24 equal bytes: the ranks of the fast inverse leave 24 bits
      F.push_back(Family("ranks-above-2^24", T ? 6 : 2, [](u64 i) {
        size_t n = (1u << 24) + 5 + 40000 * (i % 3); Bytes v(n, 'a'); if (i >= 3 || i == 1) { v[n / 2] = 'b'; v[n / 3] = 0; v[7] = 255; }
        check(v, {1, 7}, false); }, 1));
    }
    // every number of starting points on block lengths around every boundary
    F.push_back(Family("starts", 256 * 40, [](u64 i) {
      unsigned s = 1 + (unsigned)(i % 256); int k = (int)(i / 256);
      size_t n;
      if (k < 24) { static const int mul[] = {1, 2, 3, 4}; n = (size_t)s * mul[k / 6] + k % 6; n = n > 3 ? n - 3 : 1; }
      else n = 250 + 97 * (size_t)(k - 24);
      static const int pt[] = {8, 6, 19, 3, 0, 12};
      check(gen::pattern(pt[(s + k) % 6], n), {s}, n > 256); }, 16));
    // all (length, starts) pairs for small lengths
    F.push_back(Family("length-x-starts", 64 * 64 * 3, [](u64 i) {
      static const int pt[] = {8, 2, 19}; check(gen::pattern(pt[i % 3], 1 + i / 192), {(unsigned)(1 + i / 3 % 64)}, false); }, 32));
    F.push_back(Family("alphabet", 256 * 5 * 2 * 2, [](u64 i) { check(gen::alphabet(1 + (int)(i / 20), (int)(i % 5), (int)(i / 5 % 2), (int)(i % 3)), {i / 10 % 2 ? 9u : 1u}); }, 8));
    F.push_back(Family("lengths", (u64)(T ? 3000 : 1000) * 6, [](u64 i) { static const int pt[] = {8, 4, 0, 17, 15, 10}; check(gen::pattern(pt[i % 6], 1 + i / 6), {1, 2, (unsigned)(3 + i % 31)}); }, 32));
    F.push_back(Family("all-ab", gen::stringsCount(2, 1, T ? 13 : 11), [](u64 i) { check(gen::stringAt(i, ab, 1), {1, 2, 3, 4, 5, 7}, false); }, 32));
    F.push_back(Family("all-3", gen::stringsCount(3, 1, T ? 9 : 7), [](u64 i) { check(gen::stringAt(i, t3, 1), {1, 2, 3}, false); }, 32));
    F.push_back(Family("all-4", gen::stringsCount(4, 1, T ? 8 : 5), [](u64 i) { check(gen::stringAt(i, t4, 1), {1, 2}, false); }, 32));
    F.push_back(Family("all-pairs", 65536 / (T ? 1 : 4), [T](u64 i) { u64 j = T ? i : i * 4 + (i >> 6) % 4; Bytes v(2); v[0] = (unsigned char)(j >> 8); v[1] = (unsigned char)j; check(v, {1}, true); }, 64));
    // headers: every count x boundary values; single values at every bit position
    F.push_back(Family("headers", 256 * 64, [](u64 i) {
      size_t c = 1 + i / 64; int v = (int)(i % 64); std::vector<bwtc::uint32> lf(c);
      static const bwtc::uint32 b[] = {0, 1, 0x7fffffff, 0x40000000, 0x55555555, 0x2aaaaaaa, 0x00ffffff, 0x7f000000};
      for (size_t k = 0; k < c; ++k) {
        if (v < 8) lf[k] = b[v];
        else if (v < 39) lf[k] = k == c - 1 ? 1u << (v - 8) : 0;
        else if (v < 55) lf[k] = k == (size_t)(v - 39) % c ? 0x7fffffff : 0;
        else lf[k] = (bwtc::uint32)(mc::mix(k * 64 + v) & 0x7fffffff);
      }
      header(lf, i % 3 == 0 ? Bytes() : Bytes(1, i % 3 == 1 ? 0xff : 0x00)); }, 256));
  });
}
