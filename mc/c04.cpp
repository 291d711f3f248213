// C04: the forward transform against a reference transform.
#define MAIN
#include "globaldefs.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/BWTransform.hpp"
#include "BWTBlock.hpp"
#include "bwtref.hpp"
#include "gen.hpp"
using mc::Bytes; using mc::u64; using mc::Family;

static void checkStarts(const char* what, char alg, unsigned starts, size_t n, const std::vector<bwtc::uint32>& lf, const ref::Bwt& r) {
  uint32_t N = (uint32_t)n + 1, x = N / (uint32_t)lf.size();
  MC_CHECK(lf.size() >= 1 && lf.size() <= 256, "%s/%c: %zu starting points", what, alg, lf.size());
  for (size_t k = 0; k < lf.size(); ++k) {
    uint32_t want = r.rankOf[(N - (uint32_t)k * x) % N];
    MC_CHECK(lf[k] == want, "%s/%c: starting point %zu of %zu (asked %u) is %u, should be %u (block of %zu bytes)", what, alg, k, lf.size(), starts, lf[k], want, n);
  }
}

static void one(const Bytes& block, const ref::Bwt& r, const Bytes& want, char alg, unsigned starts, bool viaManager) {
  size_t n = block.size();
  const size_t G = 32;
  Bytes mem(n + 2 * G);
  for (size_t i = 0; i < mem.size(); ++i) mem[i] = (unsigned char)(0xC3 ^ i);
  std::copy(block.begin(), block.end(), mem.begin() + G);
  Bytes before = mem;
  bwtc::BWTBlock b(&mem[G], (bwtc::uint32)n, false);
  std::vector<bwtc::uint32> freqs(256 + 8, 0);
  for (int i = 256; i < 264; ++i) freqs[i] = 0xABCDEF01u;
  if (viaManager) {
    bwtc::BWTManager m; m.initialize(alg); m.setStartingPoints(starts);
    m.doTransform(b, &freqs[0]);
  } else {
    bwtc::BWTransform* t = bwtc::giveTransformer(alg);
    b.prepareLFpowers(starts);
    t->doTransform(b);
    delete t;
  }
  const char* what = viaManager ? "with frequencies" : "plain";
  MC_CHECK(b.size() == n && b.begin() == &mem[G], "%s/%c: block moved or resized", what, alg);
  for (size_t i = 0; i < n; ++i)
    MC_CHECK(mem[G + i] == want[i], "%s/%c: transformed byte %zu is %02x, should be %02x (block %s, starts %u)", what, alg, i, mem[G + i], want[i], mc::hex(block, 40).c_str(), starts);
  for (size_t i = 0; i < G; ++i) {
    MC_CHECK(mem[i] == before[i], "%s/%c: byte %zu before the block changed", what, alg, G - i);
    MC_CHECK(mem[G + n + i] == before[G + n + i], "%s/%c: byte %zu behind the block changed", what, alg, i);
  }
  unsigned expectStarts = n <= 256 ? 1 : starts;
  MC_CHECK(b.LFpowers().size() == expectStarts, "%s/%c: %zu starting points for a block of %zu bytes, asked for %u", what, alg, b.LFpowers().size(), n, starts);
  checkStarts(what, alg, starts, n, b.LFpowers(), r);
  if (viaManager) {
    std::vector<bwtc::uint32> f(256, 0);
    for (size_t i = 0; i < n; ++i) ++f[block[i]];
    for (int c = 0; c < 256; ++c) MC_CHECK(freqs[c] == f[c], "%c: frequency of %02x reported as %u, is %u (block of %zu bytes)", alg, c, freqs[c], f[c], n);
    for (int i = 256; i < 264; ++i) MC_CHECK(freqs[i] == 0xABCDEF01u, "%c: wrote behind the frequency table", alg);
  }
  mc::step(1);
}

// transform with any number of starting points on the raw interface
static void raw(const Bytes& t, const ref::Bwt& r, char alg, unsigned starts) {
  Bytes mem(t); mem.push_back(0);
  std::vector<bwtc::uint32> lf(starts);
  bwtc::BWTransform* tr = bwtc::giveTransformer(alg);
  tr->doTransform(&mem[0], (bwtc::uint32)mem.size(), lf);
  delete tr;
  for (size_t i = 0; i < mem.size(); ++i) if (i != r.eob)
    MC_CHECK(mem[i] == r.last[i], "raw/%c: byte %zu is %02x, should be %02x (text %s)", alg, i, mem[i], r.last[i], mc::hex(t, 40).c_str());
  checkStarts("raw", alg, starts, t.size(), lf, r);
  mc::step(1);
}

static void check(const Bytes& block, const std::vector<unsigned>& starts) {
  mc::note("block=%s starts=%u..", mc::hex(block).c_str(), starts[0]);
  Bytes t(block.rbegin(), block.rend());
  ref::Bwt r = ref::transform(t);
  Bytes want(r.last.begin(), r.last.end() - 1);
  if (r.eob < want.size()) want[r.eob] = r.last.back();
  for (unsigned s : starts) for (char alg : {'d', 's'}) { one(block, r, want, alg, s, true); }
  one(block, r, want, 'd', starts.back(), false);
  one(block, r, want, 's', starts.back(), false);
  mc::state(mc::hashBytes(want.data(), want.size(), r.eob));
}
static void checkRaw(const Bytes& text, const std::vector<unsigned>& starts) {
  mc::note("text=%s raw starting points from %u", mc::hex(text).c_str(), starts[0]);
  ref::Bwt r = ref::transform(text);
  for (unsigned s : starts) { raw(text, r, 'd', s); raw(text, r, 's', s); }
  mc::state(mc::hashBytes(r.last.data(), r.last.size(), r.eob));
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255}, t4 = {0, 127, 128, 255}, z2 = {0, 255};
    // long texts first
    {
      static const size_t sz[] = {20000, 32768, 65535, 65536, 65537, 100000, 150001, 250000};
      F.push_back(Family("long", (u64)(T ? 8 : 6) * gen::kPatterns, [](u64 i) { check(gen::pattern((int)(i % gen::kPatterns), sz[i / gen::kPatterns]), {8, 256}); }, 1));
      // repetitions of a noise block with every period from a set: drives the
      // tandem-repeat and merge stages of the suffix sorters
      static const int per[] = {1,2,3,4,5,6,7,8,9,10,12,15,16,17,20,24,31,32,33,40,50,63,64,65,80,100,127,128,129,150,200,255,256,257,300,400,511,512,513,700,1000,1023,1024,1025,1500,2000,2048,3000,4096,5000};
      F.push_back(Family("periodic", 50 * 4 * (T ? 6 : 2), [T](u64 i) {
        static const size_t len[] = {3000, 17000, 1025, 5000, 40000, 90000};
        int k = T ? 6 : 2; size_t n = len[i % k]; int p = per[i / k % 50], sg = (int)(i / k / 50);
        static const int sig[] = {2, 4, 26, 256};
        gen::Lcg r(100 + p * 4 + sg); Bytes v(n);
        for (size_t j = 0; j < n; ++j) v[j] = j < (size_t)p ? (unsigned char)((r.next() >> 40) % sig[sg]) : v[j - p];
        if (i & 1) v[n / 2] ^= 1;
        check(v, {3}); }, 1));
      // a^i b a^j b .. with increasing runs, shuffled blocks of repeated phrases
      F.push_back(Family("phrases", 60 * (T ? 5 : 2), [T](u64 i) {
        int m = T ? 5 : 2; size_t n = (i % m + 1) * 12000; int ph = (int)(i / m);
        gen::Lcg r(900 + ph); std::vector<Bytes> dict;
        for (int d = 0; d < 3 + ph % 7; ++d) { Bytes p(1 + (r.next() >> 33) % (1 + ph * 7)); for (auto& c : p) c = (unsigned char)("abcdefgh\0\xff"[(r.next() >> 40) % (2 + ph % 9)]); dict.push_back(p); }
        Bytes v; while (v.size() < n) { const Bytes& p = dict[(r.next() >> 35) % dict.size()]; v.insert(v.end(), p.begin(), p.end()); }
        v.resize(n); check(v, {5}); }, 1));
    }
    // neighbourhoods of the strings that reach the rare stages of the sorters
    F.push_back(Family("corners", gen::cornerCount(T ? 48 : 8, T ? 16 : 3), [T](u64 i) {
      Bytes v = gen::cornerAt(i, T ? 48 : 8, T ? 16 : 3); if (i % 3 == 0) check(v, {4}); std::reverse(v.begin(), v.end()); check(v, {4}); }, 1));
    F.push_back(Family("alphabet", 256 * 5 * 2, [](u64 i) { check(gen::alphabet(1 + (int)(i / 10), (int)(i % 5), (int)(i / 5 % 2), (int)(i % 3)), {2}); }, 4));
    F.push_back(Family("starts", 256 * 6 * 3, [](u64 i) {
      static const size_t ln[] = {257, 258, 300, 511, 1000, 2049}; static const int pt[] = {8, 3, 0};
      check(gen::pattern(pt[i % 3], ln[i / 3 % 6]), {(unsigned)(1 + i / 18)}); }));
    F.push_back(Family("lengths", (u64)(T ? 3000 : 900) * gen::kPatterns, [](u64 i) { check(gen::pattern((int)(i % gen::kPatterns), 1 + i / gen::kPatterns), {1, 7}); }));
    F.push_back(Family("raw-starts", 60 * 60 * 4, [](u64 i) {
      size_t n = 1 + i / 4 % 60; unsigned s = 1 + (unsigned)(i / 240);
      if (s > n + 1) s = (unsigned)n + 1;
      checkRaw(gen::pattern(i % 4 == 0 ? 8 : i % 4 == 1 ? 2 : i % 4 == 2 ? 17 : 19, n), {s}); }));
    F.push_back(Family("all-ab", gen::stringsCount(2, 1, T ? 17 : 14), [](u64 i) { check(gen::stringAt(i, ab, 1), {1}); }));
    F.push_back(Family("all-0ff", gen::stringsCount(2, 1, T ? 16 : 12), [](u64 i) { Bytes s = gen::stringAt(i, z2, 1); check(s, {1}); checkRaw(s, {1, 2, (unsigned)s.size()}); }));
    F.push_back(Family("all-3", gen::stringsCount(3, 1, T ? 11 : 9), [](u64 i) { check(gen::stringAt(i, t3, 1), {1}); }));
    F.push_back(Family("all-4", gen::stringsCount(4, 1, T ? 9 : 7), [](u64 i) { check(gen::stringAt(i, t4, 1), {1}); }));
    F.push_back(Family("all-pairs", 65536, [](u64 i) { Bytes v(2); v[0] = (unsigned char)(i >> 8); v[1] = (unsigned char)i; check(v, {1}); }));
    F.push_back(Family("triples-edge", 256 * 256, [](u64 i) { Bytes v(3); v[0] = (unsigned char)(i >> 8); v[1] = (unsigned char)i; v[2] = i & 1 ? v[0] : (unsigned char)0; check(v, {1}); }));
  });
}
