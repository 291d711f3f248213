// Block coders on arbitrary transformed blocks. The transform manager is
// replaced at link level by one that can leave the block as it is, so that any
// byte sequence can be presented to the coder as a transformed block.
#ifndef MC_ENTROPY_HPP
#define MC_ENTROPY_HPP
#define MAIN
#include "globaldefs.hpp"
#include "EntropyCoders.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/BWTransform.hpp"
#include "BWTBlock.hpp"
#include "streams.hpp"
#include "gen.hpp"
#include <memory>
using mc::Bytes; using mc::u64; using mc::Family;

static bool planIdentity = false;
static std::vector<bwtc::uint32> planLF(1, 0);
#ifndef MC_REDUCED
namespace bwtc {
BWTManager::BWTManager() : m_startingPoints(1) {}
BWTManager::BWTManager(uint32 s) : m_startingPoints(s) {}
BWTManager::~BWTManager() { for (size_t i = 0; i < m_transformers.size(); ++i) delete m_transformers[i]; }
void BWTManager::doTransform(BWTBlock& block, uint32* freqs) {
  if (planIdentity) {
    block.LFpowers() = planLF;
    for (byte* p = block.begin(); p != block.end(); ++p) ++freqs[*p];
    block.setTransformed(true);
    return;
  }
  block.prepareLFpowers(m_startingPoints); m_transformers[0]->doTransform(block, freqs);
}
void BWTManager::doTransform(BWTBlock& block) { uint32 f[256] = {0}; doTransform(block, f); }
void BWTManager::setStartingPoints(uint32 s) { m_startingPoints = s; }
uint32 BWTManager::getStartingPoints() const { return m_startingPoints; }
bool BWTManager::isValidChoice(char c) { return c == 'd' || c == 's' || c == 'a'; }
void BWTManager::initialize(char c) { m_transformers.push_back(giveTransformer(c)); }
}
static const bool kIdentity = true;
#else
static const bool kIdentity = false;
#endif

// encode one block, check sizes, decode it, compare, check the position
static void coder(const Bytes& data, char enc, bool identity = true, unsigned starts = 1) {
  mc::note("coder %c %s block of %zu bytes %s", enc, identity && kIdentity ? "transformed" : "raw", data.size(), mc::hex(data, 48).c_str());
  planIdentity = identity && kIdentity; planLF.assign(starts, 0);
  for (unsigned k = 0; k < starts; ++k) planLF[k] = (bwtc::uint32)(mc::mix(k + data.size()) % (data.size() + 1));
  static const long bases[] = {0, 0, 0x7ffffff8L, 0xfffffff8L, 0x123456789abL};
  Bytes z(2, 0x3C); mcs::MemOut out(z, bases[mc::hashBytes(data.data(), std::min<size_t>(data.size(), 64), data.size()) % 5]);
  std::unique_ptr<bwtc::EntropyEncoder> e(bwtc::giveEntropyEncoder(enc));
  bwtc::BWTManager m; m.initialize('d'); m.setStartingPoints(starts);
  Bytes buf(data); buf.push_back(0x5A);
  bwtc::BWTBlock b(&buf[0], (bwtc::uint32)data.size(), false);
  size_t claim = e->transformAndEncode(b, m, &out);
  size_t end = z.size();
  MC_CHECK(end - 2 == claim, "coder %c wrote %zu bytes, reports %zu", enc, end - 2, claim);
  u64 field = 0; for (int i = 0; i < 6; ++i) field = field << 8 | z[2 + i];
  MC_CHECK(field + 6 == claim, "coder %c: length field %llu for a block of %zu bytes", enc, (unsigned long long)field, claim);
  MC_CHECK(b.size() == data.size(), "encoding changed the block size");
  Bytes want(buf.begin(), buf.begin() + data.size());
  if (planIdentity) MC_CHECK(want == data, "encoding changed the block");
  u64 h = mc::hashBytes(z.data(), z.size(), enc);
  // the same encoder and decoder go on with another block
  static const Bytes probes[] = {{'q'}, {'b','a','n','a','n','a','s',' ','a','n','d','q','q','q','q','q','q','q','q','q','a','b','c'}, {0, 0, 255, 0, 255, 255, 255}};
  const Bytes& pd = probes[h / 7 % 3]; Bytes pbuf(pd); pbuf.push_back(0x5A);
  bwtc::BWTBlock pb(&pbuf[0], (bwtc::uint32)pd.size(), false);
  size_t pclaim = e->transformAndEncode(pb, m, &out), pend = z.size();
  MC_CHECK(pend - end == pclaim, "coder %c wrote %zu bytes for the second block, reports %zu", enc, pend - end, pclaim);
  // whatever follows must not matter
  static const unsigned char follow[2] = {0x00, 0xFF};
  int k = (int)(h & 1);
  z.insert(z.end(), 3, follow[k]); z.push_back(0x96);
  mcs::MemIn in(z); in.readByte(); in.readByte();
  std::unique_ptr<bwtc::EntropyDecoder> d(bwtc::giveEntropyDecoder(enc));
  Bytes o(data.size() + 33, 0xEE);
  bwtc::BWTBlock r; r.setBegin(&o[0]); r.setSize((bwtc::uint32)data.size());
  d->decodeBlock(r, &in);
  MC_CHECK(r.size() == data.size(), "coder %c: decoded %u bytes instead of %zu", enc, (unsigned)r.size(), data.size());
  for (size_t i = 0; i < want.size(); ++i) if (o[i] != want[i]) mc::fail("coder %c: decoded byte %zu of %zu is %02x, should be %02x", enc, i, want.size(), o[i], want[i]);
  for (size_t i = data.size(); i < o.size(); ++i) MC_CHECK(o[i] == 0xEE, "coder %c: wrote behind the block", enc);
  MC_CHECK(in.bit == end * 8, "coder %c: decoder stops at bit %zu of the stream, encoder at byte %zu", enc, in.bit, end);
  MC_CHECK(r.LFpowers() == b.LFpowers(), "coder %c: starting points changed", enc);
  Bytes po(pd.size() + 1, 0xEE); bwtc::BWTBlock pr; pr.setBegin(&po[0]); pr.setSize((bwtc::uint32)pd.size());
  d->decodeBlock(pr, &in);
  MC_CHECK(in.bit == pend * 8 && pr.size() == pd.size() && memcmp(&po[0], &pbuf[0], pd.size()) == 0, "coder %c: the block after it is not decoded", enc);
  mc::step(2); mc::state(h);
}

static const size_t kRunSet[] = {1,2,3,4,5,6,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,
  2047,2048,2049,4095,4096,4097,8191,8192,8193,9999,10000,10001,16383,16384,16385,32767,32768,32769,65535,65536,65537};
enum { kNumRunSet = sizeof(kRunSet) / sizeof(kRunSet[0]) };

// symbols with Fibonacci run counts: code lengths 1..sigma-1
static inline Bytes fibBlock(int sigma, int order) {
  std::vector<size_t> f(sigma); size_t a = 1, b = 1;
  for (int i = 0; i < sigma; ++i) { f[i] = a; size_t c = a + b; a = b; b = c; }
  // place every occurrence so that equal symbols are not adjacent where possible
  Bytes v; u64 total = 0; for (size_t x : f) total += x;
  v.reserve(total);
  if (order == 0) { bool more = true; while (more) { more = false; for (int i = 0; i < sigma; ++i) if (f[i]) { v.push_back((unsigned char)(i * 9 + 1)); --f[i]; more = true; } } }
  else {
    // round robin would leave the heavy symbol adjacent: spread it by error diffusion
    std::vector<double> err(sigma, 0); std::vector<size_t> left(f);
    for (u64 t = 0; t < total; ++t) {
      int best = -1; for (int i = 0; i < sigma; ++i) { err[i] += (double)f[i] / total; if (left[i] && (best < 0 || err[i] > err[best])) best = i; }
      err[best] -= 1; --left[best]; v.push_back((unsigned char)(250 - best * 7));
    }
  }
  return v;
}
// blocks with given true character counts, i.e. given section layouts
static inline Bytes countsBlock(const std::vector<std::pair<int, size_t>>& c, int arrangement) {
  Bytes v; size_t total = 0; for (auto& p : c) total += p.second;
  if (total == 0) return v;
  v.reserve(total);
  if (arrangement == 0) for (auto& p : c) v.insert(v.end(), p.second, (unsigned char)p.first);
  else if (arrangement == 1) { std::vector<size_t> l; for (auto& p : c) l.push_back(p.second); bool more = true; while (more) { more = false; for (size_t i = 0; i < c.size(); ++i) if (l[i]) { v.push_back((unsigned char)c[i].first); --l[i]; more = true; } } }
  else { std::vector<size_t> l; for (auto& p : c) l.push_back(p.second); gen::Lcg r(total); size_t n = 0; for (size_t x : l) n += x;
    while (n) { size_t k = (r.next() >> 20) % c.size(); if (!l[k]) continue; size_t run = std::min<size_t>(l[k], 1 + ((r.next() >> 30) & (arrangement == 2 ? 1 : 63))); v.insert(v.end(), run, (unsigned char)c[k].first); l[k] -= run; n -= run; } }
  return v;
}

static void entropyFamilies(std::vector<Family>& F, const char* encs) {
  bool T = mc::thorough(); static const char* E; static u64 ne; E = encs; ne = strlen(encs);
  static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255}, t4 = {0, 127, 128, 255}, t5 = {3, 4, 5, 6, 250};
  // 256 sections and other big layouts
  F.push_back(Family("many-sections", ne * (T ? 12 : 4), [](u64 i) {
    std::vector<std::pair<int, size_t>> c; int k = (int)(i / ne);
    static const int nc[] = {256, 255, 256, 128}; static const size_t per[] = {10000, 10000, 9999, 10001};
    for (int s = 0; s < nc[k % 4]; ++s) c.push_back(std::make_pair(nc[k % 4] == 128 ? 2 * s : s, per[k % 4] + (k >= 4 && s % 7 == 0 ? 1 : 0)));
    coder(countsBlock(c, k % 4 == 1 ? 0 : k < 8 ? 2 : 3), E[i % ne]); }, 1));
  // deep codes
  F.push_back(Family("fibonacci", ne * (T ? 31 : 27) * 2, [](u64 i) { coder(fibBlock(1 + (int)(i / ne / 2), (int)(i / ne % 2)), E[i % ne]); }, 1));
  if (E[0] == 'H') F.push_back(Family("fibonacci-deepest", T ? 6 : 2, [](u64 i) { coder(fibBlock(30 + (int)(i / 2), (int)(i % 2)), 'H'); }, 1));
  // a deep chain with a bushy subtree at its end, at different depths
  F.push_back(Family("deep-bushy", ne * 12 * (T ? 3 : 1), [](u64 i) {
    u64 j = i / ne; static const int bush[] = {2, 3, 9, 33, 100, 200}; int nb = bush[j % 6], depth = 8 + 6 * (int)(j / 6 % 6);
    if (nb > 33 && depth > 14) depth = 14 + (int)(j / 6);
    if (nb <= 33 && depth > 20) depth = 20;
    std::vector<std::pair<int, size_t>> c; for (int k = 0; k < nb; ++k) c.push_back(std::make_pair(k, (size_t)1));
    size_t a = nb, b = nb; for (int k = 0; k < depth; ++k) { c.push_back(std::make_pair(255 - k, a)); size_t t = a + b; a = b; b = t; }
    coder(countsBlock(c, 2), E[i % ne]); }, 1));
  // section layouts: true counts from a boundary set for four characters
  F.push_back(Family("sections", ne * 1296 * (T ? 3 : 1), [](u64 i) {
    static const size_t cs[] = {0, 1, 5000, 9999, 10000, 10001}; static const int ch[] = {0, 1, 128, 255};
    u64 j = i / ne; u64 w = j % 1296; std::vector<std::pair<int, size_t>> c;
    for (int k = 0; k < 4; ++k) { c.push_back(std::make_pair(ch[k], cs[w % 6])); w /= 6; }
    Bytes v = countsBlock(c, mc::thorough() ? (int)(j / 1296) + 1 : (int)(1 + j % 3));
    if (!v.empty()) coder(v, E[i % ne]); }, 8));
  F.push_back(Family("run-pairs", ne * kNumRunSet * kNumRunSet, [](u64 i) {
    u64 j = i / ne; Bytes v(kRunSet[j % kNumRunSet], 'x'); v.insert(v.end(), kRunSet[j / kNumRunSet], 'a'); v.push_back('x');
    if (v.size() > 70000 && !mc::thorough() && (i & 3)) v.resize(70000);
    coder(v, E[i % ne]); }, 16));
  // very long runs
  F.push_back(Family("huge-runs", ne * 3 * (T ? 8 : 5), [](u64 i) {
    u64 j = i / ne; Bytes v(((size_t)1 << (17 + j / 3)) + j % 3 - 1, 'r'); v.push_back('s'); v.insert(v.end(), 5, 'r'); coder(v, E[i % ne]); }, 1));
  // longer than any three-byte counter
  F.push_back(Family("runs-above-2^24", (T ? ne : std::min<u64>(ne, 2)) * 3, [T](u64 i) {
    u64 n = T ? ne : std::min<u64>(ne, 2); Bytes v(((size_t)1 << 24) + i / n - 1, 'r'); v.push_back('s'); v.push_back('r'); coder(v, T ? E[i % n] : E[i % n * (ne - 1)]); }, 1));
  // numbers of runs around the limits of their stored length
  F.push_back(Family("many-runs", ne * (T ? 18 : 9), [](u64 i) {
    u64 j = i / ne; static const size_t n[] = {(1 << 21) - 1, 1 << 21, (1 << 21) + 1, 16383, 16384, 16385, 127, 128, 129};
    Bytes v(n[j % 9]); for (size_t k = 0; k < v.size(); ++k) v[k] = j < 9 ? "xy"[k & 1] : "pqrs"[mc::mix(k / 2) % 2 * 2 + (k & 1)]; coder(v, E[i % ne]); }, 1));
  F.push_back(Family("alphabet", ne * 256 * 5 * 2 * (T ? 3 : 1), [T](u64 i) {
    u64 j = i / ne; int map = T ? (int)(j / 2560) : (int)(j % 3); j %= 2560;
    coder(gen::alphabet(1 + (int)(j / 10), (int)(j % 5), (int)(j / 5 % 2), map), E[i % ne]); }, 16));
  // distributions of run lengths: four frequencies for six lengths
  F.push_back(Family("run-distributions", ne * 4096, [](u64 i) {
    static const size_t len[2][6] = {{1, 2, 3, 5, 17, 300}, {2, 4, 8, 9, 100, 2000}}; static const int fr[] = {0, 1, 11, 70};
    u64 w = i / ne; Bytes v; int n[6]; int set = (int)(i / ne / 7 % 2);
    for (int k = 0; k < 6; ++k) { n[k] = fr[w % 4]; w /= 4; if (len[set][k] > 1000 && n[k] > 11) n[k] = 12; }
    bool more = true; unsigned c = 0;
    while (more) { more = false; for (int k = 0; k < 6; ++k) if (n[k]) { --n[k]; v.insert(v.end(), len[set][k], (unsigned char)("kzqQ"[c++ % 3])); more = true; } }
    if (!v.empty()) coder(v, E[i % ne]); }, 32));
  // more distinct run lengths than codes: 1..m each f times
  F.push_back(Family("many-run-lengths", ne * 60 * 8, [](u64 i) {
    u64 j = i / ne; int m = 1 + (int)(j % 60) * 2; static const int fr[] = {1, 2, 3, 9, 10, 12, 20, 40}; int f = fr[j / 60];
    if ((u64)m * m * f > 60000) f = 60000 / (m * m) + 1;
    Bytes v; unsigned c = 0; for (int r = 0; r < f; ++r) for (int l = 1; l <= m; ++l) v.insert(v.end(), (l * 7 + r) % m + 1, (unsigned char)(c++ % (2 + m % 5)));
    coder(v, E[i % ne]); }, 8));
  // every sequence of three symbols of given code lengths, at every alignment
  F.push_back(Family("code-sequences", ne * 12 * 12 * 12 * (E[0] == 'H' ? 4 : 1), [](u64 i) {
    u64 j = i / ne; int pad = (int)(j / 1728); j %= 1728;
    static Bytes base; if (base.empty()) base = fibBlock(12, 1);
    Bytes v(base); const int s[3] = {(int)(j % 12), (int)(j / 12 % 12), (int)(j / 144)};
    for (int p = 0; p < pad; ++p) v.push_back((unsigned char)(250 - 11 * 7 + (p & 1) * 7));
    for (int r = 0; r < 3; ++r) for (int k = 0; k < 3; ++k) v.push_back((unsigned char)(250 - s[k] * 7));
    coder(v, E[i % ne]); }, 32));
  if (E[0] == 'H') F.push_back(Family("code-sequences-deep", 8000 * (T ? 8 : 3), [](u64 i) {
    u64 j = i % 8000; int pad = (int)(i / 8000); static Bytes base; if (base.empty()) base = fibBlock(20, 1);
    Bytes v(base); for (int p = 0; p < pad; ++p) v.push_back((unsigned char)(250 - 19 * 7 + (p & 1) * 7));
    for (int r = 0; r < 2; ++r) { v.push_back((unsigned char)(250 - (j % 20) * 7)); v.push_back((unsigned char)(250 - (j / 20 % 20) * 7)); v.push_back((unsigned char)(250 - (j / 400) * 7)); }
    coder(v, 'H'); }, 32));
  F.push_back(Family("lengths", ne * gen::kPatterns * (T ? 600 : 150), [](u64 i) { u64 j = i / ne; coder(gen::pattern((int)(j % gen::kPatterns), 1 + j / gen::kPatterns), E[i % ne], true, 1 + (unsigned)(j % 3) * 127); }, 64));
  // with the real transform in front
  F.push_back(Family("real-transform", ne * gen::kPatterns * (T ? 60 : 14), [](u64 i) { u64 j = i / ne; static const size_t ln[] = {1, 2, 3, 50, 255, 256, 257, 300, 700, 1500, 9999, 10000, 10001, 21000}; size_t l = j / gen::kPatterns; coder(gen::pattern((int)(j % gen::kPatterns), l < 14 ? ln[l] : 400 * l), E[i % ne], false, 1 + (unsigned)(j % 9)); }, 8));
  bool H = E[0] == 'H'; int l2 = (T ? 16 : 13) + 2 * H, l3 = (T ? 10 : 8) + 2 * H, l4 = (T ? 8 : 6) + 2 * H, l5 = (T ? 7 : 5) + 2 * H;
  F.push_back(Family("all-ab", ne * gen::stringsCount(2, 1, l2), [](u64 i) { coder(gen::stringAt(i / ne, ab, 1), E[i % ne]); }, 64));
  F.push_back(Family("all-3", ne * gen::stringsCount(3, 1, l3), [](u64 i) { coder(gen::stringAt(i / ne, t3, 1), E[i % ne]); }, 64));
  F.push_back(Family("all-4", ne * gen::stringsCount(4, 1, l4), [](u64 i) { coder(gen::stringAt(i / ne, t4, 1), E[i % ne]); }, 64));
  F.push_back(Family("all-5", ne * gen::stringsCount(5, 1, l5), [](u64 i) { coder(gen::stringAt(i / ne, t5, 1), E[i % ne]); }, 64));
  // every pair of byte values, and every set of three around a pivot
  F.push_back(Family("all-pairs", 65536, [](u64 i) { Bytes v; v.push_back((unsigned char)(i >> 8)); v.push_back((unsigned char)i); if (i % 5 == 0) v.push_back((unsigned char)(i * 7)); coder(v, E[i % ne]); }, 128));
}
#endif
