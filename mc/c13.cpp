// C13: integer codes and Huffman code construction, exhaustively over ranges.
#define MAIN
#include "globaldefs.hpp"
#include "Utils.hpp"
#include "streams.hpp"
#include "gen.hpp"
#include <cmath>
#include <map>
#include <queue>
using mc::Bytes; using mc::u64; using mc::u8; using mc::Family;

struct Bits { std::vector<bool> v; size_t pos; Bits() : pos(0) {} bool readBit() { MC_CHECK(pos < v.size(), "decoder reads more bits than were written (%zu)", v.size()); return v[pos++]; } };

static void packed(u64 n) {
  int need = 0; u64 p = utils::packInteger(n, &need);
  MC_CHECK(utils::unpackInteger(p) == n, "packed integer %llu unpacks to %llu", (unsigned long long)n, (unsigned long long)utils::unpackInteger(p));
  int want = 1; for (u64 t = n >> 7; t; t >>= 7) ++want;
  MC_CHECK(need == want, "packed integer %llu takes %d bytes, reported %d", (unsigned long long)n, want, need);
  Bytes b; for (int i = 0; i < need; ++i) b.push_back((u8)(p >> (8 * i)));
  if (need < 8) MC_CHECK((p >> (8 * need)) == 0, "packed integer %llu has more bytes than reported", (unsigned long long)n);
  size_t got = 0; b.push_back(0xFF); mcs::MemIn in(b);
  u64 r = utils::readPackedInteger(in, got);
  MC_CHECK(r == n && got == (size_t)need && in.bit == 8 * (size_t)need, "packed integer %llu read back as %llu from %zu bytes", (unsigned long long)n, (unsigned long long)r, got);
  Bits bits; for (int i = 0; i < need; ++i) for (int k = 0; k < 8; ++k) bits.v.push_back(b[i] >> k & 1);
  bits.v.push_back(1); size_t got2 = 0; u64 r2 = utils::readPackedIntegerRev(bits, got2);
  MC_CHECK(r2 == n && got2 == (size_t)need && bits.pos == 8 * (size_t)need, "reversed packed integer %llu read back as %llu", (unsigned long long)n, (unsigned long long)r2);
  byte w[24]; memset(w, 0x77, sizeof w); unsigned used = utils::packAndWriteInteger(n, w);
  if (n) {
    u64 back = 0; unsigned rd = utils::readAndUnpackInteger(w, &back);
    MC_CHECK(back == n && rd == used && w[used] == 0x77, "integer %llu written in %u bytes, read back as %llu from %u", (unsigned long long)n, used, (unsigned long long)back, rd);
  }
  memset(w, 0x77, sizeof w); utils::writePackedInteger(p, w);
  for (int i = 0; i < need; ++i) MC_CHECK(w[i] == b[i], "byte %d of packed integer %llu", i, (unsigned long long)n);
  MC_CHECK(w[need] == 0x77, "packed integer %llu written with too many bytes", (unsigned long long)n);
  mc::step(4); mc::state(mc::mix(p) ^ need);
}
static void logs(u64 n) {
  unsigned f = 0; while (f < 63 && n >> (f + 1)) ++f;
  if (n >> 32 == 0) { MC_CHECK(utils::logFloor((unsigned)n) == f, "floor of log %llu", (unsigned long long)n); MC_CHECK(utils::mostSignificantBit((uint32)n) == 1u << f, "most significant bit of %llu", (unsigned long long)n); }
  if (n >> 16 == 0) MC_CHECK(utils::mostSignificantBit16((uint32)n) == 1u << f, "most significant bit of %llu", (unsigned long long)n);
  MC_CHECK(utils::logFloor((unsigned long)n) == f, "floor of log %llu", (unsigned long long)n);
  if (n < (1u << 30)) { unsigned c = (1ULL << f) < n ? f + 1 : f; MC_CHECK(utils::logCeiling((unsigned long)n) == c && utils::logCeiling((unsigned)n) == c, "ceiling of log %llu", (unsigned long long)n); }
  mc::step();
}
// all values of a range; the codewords must be prefix free and complete
static void binaryRange(size_t lo, size_t len, bool complete) {
  mc::note("range [%zu,%zu]", lo, lo + len - 1);
  double kraft = 0; size_t stepBy = complete ? 1 : len / 300 + 1;
  for (size_t k = 0; k < len; k += (k < 40 || k + 40 > len) ? 1 : stepBy) {
    Bits b; utils::binaryCode(lo + k, lo, lo + len - 1, b.v); size_t n = b.v.size(); b.v.push_back(k & 1);
    size_t a = utils::binaryDecode(b, lo, lo + len - 1);
    MC_CHECK(a == lo + k && b.pos == n, "%zu in [%zu,%zu] decoded as %zu with %zu of %zu bits", lo + k, lo, lo + len - 1, a, b.pos, n);
    b.pos = 0; size_t used = 0; a = utils::binaryDecode(b, lo, lo + len - 1, &used);
    MC_CHECK(a == lo + k && b.pos == n && used == n, "%zu in [%zu,%zu] decoded as %zu, %zu bits reported, %zu written", lo + k, lo, lo + len - 1, a, used, n);
    kraft += 1.0 / (double)(1ULL << n); mc::step();
  }
  if (complete) MC_CHECK(kraft > 0.999999 && kraft < 1.000001, "code of range %zu is not complete (%f)", len, kraft);
  mc::state(mc::mix(lo * 1000003 + len));
}
template <typename Int> static void interp(const std::vector<Int>& l, size_t max) {
  Bits b; b.v.push_back(true); size_t n0 = 1; utils::binaryInterpolativeCode(l, max, b.v); size_t n = b.v.size() - n0; b.v.push_back(false);
  b.pos = n0; std::vector<Int> r; size_t used = utils::binaryInterpolativeDecode(r, b, max, l.size());
  if (r != l || used != n || b.pos != n0 + n) { std::string s; for (size_t i = 0; i < l.size() && i < 20; ++i) { char t[16]; snprintf(t, 16, "%u ", (unsigned)l[i]); s += t; } mc::fail("list of %zu integers up to %zu: %s decoded to %zu integers, %zu bits used, %zu reported, %zu written", l.size(), max, s.c_str(), r.size(), b.pos - n0, used, n); }
  mc::step(2); mc::state(mc::hashBytes(l.data(), l.size() * sizeof(Int), max));
}
static u64 optimalCost(const std::vector<u64>& f) {
  std::priority_queue<u64, std::vector<u64>, std::greater<u64> > q(f.begin(), f.end()); u64 c = 0;
  if (q.size() == 1) return q.top();
  while (q.size() > 1) { u64 a = q.top(); q.pop(); u64 b = q.top(); q.pop(); c += a + b; q.push(a + b); }
  return c;
}
static void huffman(const std::vector<u64>& freqs) {   // 256 or fewer entries, zeros allowed
  std::vector<u64> pos; for (u64 f : freqs) if (f) pos.push_back(f);
  if (pos.empty()) return;
  for (int way = 0; way < 2; ++way) {
    std::vector<uint64> work(freqs.begin(), freqs.end()); if (work.size() < 2) work.resize(2);
    std::vector<std::pair<uint64, uint32> > l;
    if (way == 0) utils::calculateHuffmanLengths(l, &work[0], (uint32)freqs.size());
    else { std::vector<uint32> names; for (size_t i = 0; i < freqs.size(); ++i) names.push_back((uint32)(i * 7 + 3)); utils::calculateHuffmanLengths(l, &work[0], names); for (auto& x : l) { MC_CHECK((x.second - 3) % 7 == 0, "unknown name %u", x.second); x.second = (x.second - 3) / 7; } }
    MC_CHECK(l.size() == pos.size(), "%zu code lengths for %zu symbols", l.size(), pos.size());
    std::vector<int> seen(freqs.size(), 0); u64 cost = 0; long double kraft = 0;
    for (auto& x : l) {
      MC_CHECK(x.second < freqs.size() && freqs[x.second] && !seen[x.second]++, "symbol %u has a wrong number of code lengths", x.second);
      MC_CHECK(x.first >= 1 && x.first < 200, "symbol %u has code length %llu", x.second, (unsigned long long)x.first);
      cost += x.first * freqs[x.second]; kraft += powl(0.5L, (int)x.first);
    }
    MC_CHECK(cost == optimalCost(pos), "total cost %llu instead of %llu", (unsigned long long)cost, (unsigned long long)optimalCost(pos));
    if (pos.size() > 1) MC_CHECK(kraft == 1.0L, "code lengths do not form a complete prefix code (%Lf)", kraft);
    if (freqs.size() <= 256) {
      uint32 clen[256] = {0}, code[256]; for (auto& x : l) clen[x.second] = (uint32)x.first;
      utils::computeHuffmanCodes(clen, code);
      // codeword = code value, zero-extended on the left to clen bits
      std::vector<std::string> w; for (auto& x : l) { uint32 n = clen[x.second]; std::string s; for (int i = (int)n - 1; i >= 0; --i) s += i >= 32 ? '0' : (code[x.second] >> i & 1 ? '1' : '0'); if (n < 32) MC_CHECK(code[x.second] >> n == 0, "codeword of symbol %u has more than %u bits", x.second, n); w.push_back(s); }
      std::sort(w.begin(), w.end());
      for (size_t i = 0; i + 1 < w.size(); ++i) MC_CHECK(w[i + 1].compare(0, w[i].size(), w[i]) != 0, "codeword %s is a prefix of %s", w[i].c_str(), w[i + 1].c_str());
    }
    mc::step();
  }
  mc::state(mc::hashBytes(freqs.data(), freqs.size() * 8));
}
static void sortedLengths(std::vector<u64> f) {       // the already-sorted entry point
  std::sort(f.begin(), f.end()); std::vector<std::pair<uint64, uint32> > l; for (size_t i = 0; i < f.size(); ++i) l.push_back(std::make_pair(f[i], (uint32)i));
  utils::calculateCodeLengths(l, 0, true); u64 c = 0; for (auto& x : l) c += x.first * f[x.second];
  MC_CHECK(c == optimalCost(f), "total cost %llu instead of %llu", (unsigned long long)c, (unsigned long long)optimalCost(f));
}
static void runs(const Bytes& s) {
  Bytes b(s); b.push_back(s.back());    // guard: equal to the last byte
  uint64 want[256] = {0}; std::vector<std::pair<u8, uint32> > rl;
  for (size_t i = 0; i < s.size();) { size_t j = i; while (j < s.size() && s[j] == s[i]) ++j; ++want[s[i]]; rl.push_back(std::make_pair(s[i], (uint32)(j - i))); i = j; }
  uint64 a[256] = {0}, c[256] = {0}, d[256] = {0};
  utils::calculateRunFrequencies(a, &b[0], s.size());
  MC_CHECK(memcmp(a, want, sizeof a) == 0, "run frequencies of %s", mc::hex(s).c_str());
  std::map<uint32, uint32> m, wm; for (auto& x : rl) ++wm[x.second];
  size_t t = utils::calculateRunsAndCharacters(c, &b[0], s.size(), m);
  MC_CHECK(t == rl.size() && m == wm && memcmp(c, want, sizeof c) == 0, "runs of %s", mc::hex(s).c_str());
  std::vector<byte> seq(s.size() + 1); std::vector<uint32> len(s.size() + 1);
  u64 k = utils::calculateRunFrequenciesAndStoreRuns(d, &seq[0], &len[0], &b[0], s.size());
  MC_CHECK(k == rl.size() && memcmp(d, want, sizeof d) == 0, "stored runs of %s", mc::hex(s).c_str());
  for (size_t i = 0; i < rl.size(); ++i) MC_CHECK(seq[i] == rl[i].first && len[i] == rl[i].second, "stored run %zu of %s", i, mc::hex(s).c_str());
  mc::step(3); mc::state(mc::hashBytes(s.data(), s.size()));
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    F.push_back(Family("packed-small", T ? 1 << 24 : 1 << 21, [](u64 i) { mc::note("%llu", (unsigned long long)i); packed(i); }));
    F.push_back(Family("packed-edges", 56 * 260, [](u64 i) { u64 b = 1ULL << (i / 260), n = b + (i % 260) - 130; if (n >> 56) n &= (1ULL << 56) - 1; mc::note("%llu", (unsigned long long)n); packed(n); }));
    F.push_back(Family("packed-two-bits", 56 * 56 * 3, [](u64 i) { u64 n = (1ULL << (i % 56)) | (1ULL << (i / 56 % 56)); if (i / 3136 == 1) n = ~n & ((1ULL << 56) - 1); if (i / 3136 == 2) n -= 1; mc::note("%llu", (unsigned long long)n); packed(n); }));
    F.push_back(Family("logarithms", 1 << 20, [](u64 i) { if (i) logs(i); }));
    F.push_back(Family("logarithms-edges", 64 * 9, [](u64 i) { u64 n = (1ULL << (i / 9)) + i % 9 - 4; if (n) logs(n); }));
    F.push_back(Family("binary-ranges", (T ? 6000 : 2500) * 3ULL, [](u64 i) { static const size_t lo[] = {0, 1, 77}; binaryRange(lo[i % 3], 1 + i / 3, true); }));
    F.push_back(Family("binary-large-ranges", 20 * 9 * 2, [](u64 i) { size_t len = ((size_t)1 << (10 + i / 18)) + i % 9 - 4; if (len < (1u << 30)) binaryRange(i / 9 % 2 ? 123456 : 0, len, false); }));
    F.push_back(Family("unary", 3000, [](u64 i) { Bits b; b.v.push_back(false); b.pos = 1; mc::note("unary %llu", (unsigned long long)i + 1); utils::unaryCode(b.v, i + 1); size_t n = b.v.size(); MC_CHECK(n == i + 2, "unary code of %llu has %zu bits", (unsigned long long)i + 1, n - 1); b.v.push_back(true); size_t r = utils::unaryDecode(b); MC_CHECK(r == i + 1 && b.pos == n, "unary code of %llu decoded as %zu", (unsigned long long)i + 1, r); mc::step(); }));
    // every nonempty subset of [0..max]
    static int mx; mx = T ? 20 : 17;
    F.push_back(Family("interpolative-subsets", 2ULL << mx, [](u64 i) { if (!i) return; for (int m = mx; m >= 0 && (i >> (m + 1)) == 0; --m) { std::vector<uint32> l; for (int k = 0; k <= m; ++k) if (i >> k & 1) l.push_back(k); if (m == mx) mc::note("subset %llx", (unsigned long long)i); interp(l, m); if (m <= 8) { std::vector<byte> lb(l.begin(), l.end()); interp(lb, m); } } }));
    // byte lists over the whole byte range: all sizes, gap patterns and shifts
    F.push_back(Family("interpolative-bytes", 256 * 40, [](u64 i) {
      int n = 1 + (int)(i / 40), k = (int)(i % 40); std::vector<byte> l;
      if (k < 8) { for (int j = 0; j < n; ++j) { int v = k < 4 ? j + (256 - n) * k / 3 : (int)((long)j * 255 / std::max(1, n - 1)); l.push_back((byte)v); } }
      else { gen::Lcg r(i); std::vector<int> all(256); for (int j = 0; j < 256; ++j) all[j] = j; for (int j = 0; j < n; ++j) std::swap(all[j], all[j + r.next() % (256 - j)]); std::sort(all.begin(), all.begin() + n); l.assign(all.begin(), all.begin() + n); }
      std::sort(l.begin(), l.end()); l.erase(std::unique(l.begin(), l.end()), l.end());
      mc::note("%zu bytes %s", l.size(), mc::hex(l).c_str()); interp(l, 255); if (l.back() < 255) interp(l, l.back()); }));
    F.push_back(Family("interpolative-runs", 3000, [](u64 i) { std::vector<uint32> l; gen::Lcg r(i); uint32 v = 0; int n = 1 + (int)(i % 60); for (int k = 0; k < n; ++k) { v += 1 + (uint32)((r.next() >> 40) % (i % 7 ? 9 : 100000)); l.push_back(v); } interp(l, l.back() + (i % 3 ? 0 : i)); }));
    // all frequency tables over small values
    F.push_back(Family("huffman-all", T ? 43046721 : 4782969, [](u64 i) { std::vector<u64> f; u64 j = i; int n = 6 + (i & 1); for (int k = 0; k < n; ++k) { f.push_back(j % 9); j /= 9; } huffman(f); }, 256));
    F.push_back(Family("huffman-ties", T ? 1 << 22 : 1 << 18, [](u64 i) { std::vector<u64> f; static const u64 v[] = {0, 1, 2, 5}; for (int k = 0; k < 9; ++k) f.push_back(v[i >> (2 * k) & 3]); huffman(f); }, 256));
    F.push_back(Family("huffman-shapes", 256 * 5 * 4, [](u64 i) {
      int sigma = 1 + (int)(i / 20), shape = (int)(i / 4 % 5), where = (int)(i % 4); std::vector<size_t> s = gen::shapeFreq(sigma, shape); std::vector<u64> f(256, 0);
      if (shape == 2 && sigma < 80) { u64 a = 1, b = 1; for (int k = 0; k < sigma; ++k) { s[k] = a; u64 c = a + b; a = b; b = c; if (a > (1ULL << 44)) a = b = 1; } }
      for (int k = 0; k < sigma; ++k) f[where == 0 ? k : where == 1 ? 255 - k : where == 2 ? (k * 37) & 255 : (k + 100) & 255] = s[k];
      mc::note("%d symbols, shape %d", sigma, shape); huffman(f); std::vector<u64> p; for (u64 x : f) if (x) p.push_back(x); sortedLengths(p); }));
    static const std::vector<u8> ab = {7, 200}, t3 = {0, 1, 255};
    F.push_back(Family("runs-ab", gen::stringsCount(2, 1, T ? 20 : 17), [](u64 i) { runs(gen::stringAt(i, ab, 1)); }));
    F.push_back(Family("runs-3", gen::stringsCount(3, 1, T ? 13 : 11), [](u64 i) { runs(gen::stringAt(i, t3, 1)); }));
    F.push_back(Family("runs-patterns", gen::kPatterns * 300, [](u64 i) { runs(gen::pattern((int)(i % gen::kPatterns), 1 + i / gen::kPatterns * 3)); }));
  });
}
