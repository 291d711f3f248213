// Finite, index-addressable input families shared by the harnesses.
#ifndef MC_GEN_HPP
#define MC_GEN_HPP
#include "mc.hpp"
#include <algorithm>
namespace gen {
using mc::Bytes; using mc::u64; using mc::u8;

// number of strings of length lo..hi over k letters
static inline u64 stringsCount(u64 k, int lo, int hi) {
  u64 t = 0, p = 1;
  for (int i = 0; i <= hi; ++i) { if (i >= lo) t += p; p *= k; }
  return t;
}
static inline Bytes stringAt(u64 idx, const std::vector<u8>& alpha, int lo) {
  u64 k = alpha.size(), p = 1; int n = 0;
  for (int i = 0; i < lo; ++i) p *= k;
  n = lo;
  while (idx >= p) { idx -= p; p *= k; ++n; }
  Bytes s(n);
  for (int i = n - 1; i >= 0; --i) { s[i] = alpha[idx % k]; idx /= k; }
  return s;
}

struct Lcg { u64 s; explicit Lcg(u64 x) : s(x * 2862933555777941757ULL + 3037000493ULL) {}
  u64 next() { s = s * 6364136223846793005ULL + 1442695040888963407ULL; return mc::mix(s); } };

enum { kPatterns = 22 };
static inline const char* patternName(int k) {
  static const char* n[kPatterns] = {"constant", "alternate", "period3", "period7", "fibonacci", "thue-morse",
    "counter", "squares", "noise256", "noise4", "growing-runs", "sorted", "zeros-ff", "const-then-b", "b-then-const",
    "text", "blocks256", "ones", "descending", "noise2", "palindrome", "period-half"};
  return n[k];
}
static inline Bytes pattern(int kind, size_t n) {
  Bytes v(n);
  switch (kind) {
    case 0: std::fill(v.begin(), v.end(), 'a'); break;
    case 1: for (size_t i = 0; i < n; ++i) v[i] = i & 1 ? 'b' : 'a'; break;
    case 2: for (size_t i = 0; i < n; ++i) v[i] = "aab"[i % 3]; break;
    case 3: for (size_t i = 0; i < n; ++i) v[i] = "abracad"[i % 7]; break;
    case 4: { std::string a = "b", b = "a"; while (b.size() < n) { std::string c = b + a; a = b; b = c; } for (size_t i = 0; i < n; ++i) v[i] = b[i]; break; }
    case 5: for (size_t i = 0; i < n; ++i) v[i] = __builtin_parityll(i) ? 'x' : 'y'; break;
    case 6: for (size_t i = 0; i < n; ++i) v[i] = (u8)i; break;
    case 7: for (size_t i = 0; i < n; ++i) v[i] = (u8)((i * i) >> 3); break;
    case 8: { Lcg r(1); for (size_t i = 0; i < n; ++i) v[i] = (u8)(r.next() >> 40); break; }
    case 9: { Lcg r(2); for (size_t i = 0; i < n; ++i) v[i] = "ACGT"[(r.next() >> 40) & 3]; break; }
    case 10: { size_t i = 0, run = 1; u8 c = 0; while (i < n) { for (size_t j = 0; j < run && i < n; ++j) v[i++] = c; c += 37; ++run; } break; }
    case 11: for (size_t i = 0; i < n; ++i) v[i] = (u8)(n ? i * 256 / n : 0); break;
    case 12: { Lcg r(3); for (size_t i = 0; i < n; ++i) v[i] = (r.next() >> 40) % 3 ? 0xff : 0; break; }
    case 13: std::fill(v.begin(), v.end(), 'a'); if (n) v[n - 1] = 'b'; break;
    case 14: std::fill(v.begin(), v.end(), 'a'); if (n) v[0] = 'b'; break;
    case 15: { static const char* w[] = {"the ", "quick ", "brown ", "fox ", "jumps ", "over ", "lazy ", "dog. ", "of ", "and\n", "a ", "is "};
      Lcg r(4); size_t i = 0; while (i < n) { const char* s = w[(r.next() >> 40) % 12]; while (*s && i < n) v[i++] = *s++; } break; }
    case 16: for (size_t i = 0; i < n; ++i) v[i] = (u8)((i >> 2) * 7 + (i & 1)); break;
    case 17: std::fill(v.begin(), v.end(), 0xff); break;
    case 18: for (size_t i = 0; i < n; ++i) v[i] = (u8)(255 - (n ? i * 256 / n : 0)); break;
    case 19: { Lcg r(5); for (size_t i = 0; i < n; ++i) v[i] = (r.next() >> 40) & 1; break; }
    case 20: { Lcg r(6); for (size_t i = 0; i < (n + 1) / 2; ++i) v[i] = v[n - 1 - i] = (u8)('a' + (r.next() >> 40) % 6); break; }
    case 21: { Lcg r(7); size_t h = (n + 1) / 2; for (size_t i = 0; i < n; ++i) v[i] = i < h ? (u8)(r.next() >> 40) : v[i - h]; break; }
  }
  return v;
}

// sigma distinct symbols with a frequency shape, in an order given by `order`
//  shape 0 equal, 1 linear, 2 fibonacci-like (deep Huffman trees), 3 one dominant, 4 powers of two
//  order 0 sorted runs, 1 interleaved
//  map   0 symbols 0..sigma-1, 1 the top sigma symbols, 2 spread over 0..255
static inline std::vector<size_t> shapeFreq(int sigma, int shape) {
  std::vector<size_t> f(sigma);
  size_t a = 1, b = 1;
  for (int i = 0; i < sigma; ++i) {
    switch (shape) {
      case 0: f[i] = 3; break;
      case 1: f[i] = 1 + i % 64; break;
      case 2: f[i] = a; if (a < 3000) { size_t c = a + b; a = b; b = c; } else { a = b = 1; } break;
      case 3: f[i] = i ? 1 : 700; break;
      case 4: f[i] = (size_t)1 << (i % 11); break;
    }
  }
  return f;
}
static inline u8 mapSym(int i, int sigma, int map) {
  if (map == 0) return (u8)i;
  if (map == 1) return (u8)(256 - sigma + i);
  return (u8)(sigma > 1 ? (i * 255) / (sigma - 1) : 137);
}
static inline Bytes alphabet(int sigma, int shape, int order, int map) {
  std::vector<size_t> f = shapeFreq(sigma, shape);
  Bytes v;
  if (order == 0) { for (int i = 0; i < sigma; ++i) v.insert(v.end(), f[i], mapSym(i, sigma, map)); return v; }
  bool more = true;
  while (more) { more = false; for (int i = 0; i < sigma; ++i) if (f[i]) { v.push_back(mapSym(i, sigma, map)); if (--f[i]) more = true; } }
  return v;
}

// Strings that drive the suffix sorters into their rare stages (block merges
// with equal keys, heap sort fall-back, exhausted repetition budget): grown by
// a construction program (squares, one-letter changes, Fibonacci steps,
// palindromes, runs) or skewed noise. The bases were found by a search over
// such programs and are fixed; the families enumerate their neighbourhoods.
static inline Bytes built(u64 seed, size_t maxn) {
  Lcg r(seed); Bytes s; int sig = 2 + (r.next() >> 30) % 4;
  for (int i = 0; i < 3; ++i) s.push_back('a' + (r.next() >> 30) % sig);
  size_t target = 200 + (r.next() >> 20) % maxn; Bytes prev = s; int bias = (r.next() >> 30) % 6;
  while (s.size() < target) {
    int op = (r.next() >> 30) % 7; if ((r.next() >> 30) % 2) op = bias;
    Bytes o = s;
    switch (op) {
      case 0: s.insert(s.end(), o.begin(), o.end()); break;
      case 1: { size_t p = (r.next() >> 20) % o.size(); o[p] = 'a' + (r.next() >> 30) % sig; s.insert(s.end(), o.begin(), o.end()); break; }
      case 2: s.insert(s.end(), prev.begin(), prev.end()); prev = o; break;
      case 3: s.insert(s.end(), o.rbegin(), o.rend()); break;
      case 4: s.push_back('a' + (r.next() >> 30) % sig); break;
      case 5: { int k = 2 + (r.next() >> 30) % 50; Bytes q = prev; if (q.size() > 50) q.resize(1 + (r.next() >> 30) % 50); for (int i = 0; i < k; ++i) s.insert(s.end(), q.begin(), q.end()); break; }
      case 6: { int k = 1 + (r.next() >> 30) % 40; s.insert(s.end(), k, 'a' + (r.next() >> 30) % sig); break; }
    }
    if (s.size() > target * 3) break;
  }
  return s;
}
static inline Bytes skewed(u64 seed) {
  Lcg r(seed); int sig = 2 + (r.next() >> 30) % 8; size_t n = 2000 + (r.next() >> 20) % 60000; int mode = (r.next() >> 30) % 4; Bytes s(n);
  int skew = 1 + (r.next() >> 30) % 6;
  for (size_t i = 0; i < n; ++i) { int x = (r.next() >> 30) % sig; for (int k = 1; k < skew; ++k) { int y = (r.next() >> 30) % sig; if (y < x) x = y; } s[i] = 'a' + x; }
  if (mode == 1) for (size_t i = 0; i < n / 2; ++i) s[n - 1 - i] = s[i];
  if (mode == 2) { Bytes o = s; s.insert(s.end(), o.rbegin(), o.rend()); }
  if (mode == 3) { for (size_t i = n / 2; i < n; ++i) s[i] = s[i - n / 2]; for (int k = 0; k < 50; ++k) s[(r.next() >> 20) % n] = 'a'; }
  return s;
}
enum { kCorners = 22 };
static inline Bytes corner(int k) {
  static const u64 b3[] = {16773, 16330, 234326, 119521, 45909, 100698, 38790, 258839, 81649};
  static const u64 b20[] = {100037490, 100056169, 100070997};
  static const u64 sk[] = {200061613, 100017002, 200023114, 300059870, 400009005, 100005574};
  if (k < 9) return built(b3[k], 3000);
  if (k < 12) return built(b20[k - 9], 20000);
  if (k < 18) return skewed(sk[k - 12]);
  // period two with scattered changes: merges of blocks with equal keys
  Lcg r(1000 + k); size_t n = 3000 + 900 * (k - 18); Bytes v(n); static const int sig[] = {3, 4, 20, 20};
  for (size_t i = 0; i < n; ++i) v[i] = i & 1 ? 'b' : 'a';
  for (int m = 0; m < (k & 1 ? 20 : 5); ++m) v[(r.next() >> 20) % n] = 'a' + (r.next() >> 33) % sig[k - 18];
  return v;
}
// variation v of corner k: 0 as it is, then one changed byte at evenly spaced
// places, then cut off at either end
static inline Bytes cornerVariant(int k, int v, int places) {
  Bytes s = corner(k); if (v == 0) return s;
  --v;
  if (v < places) { size_t p = s.size() * (2 * v + 1) / (2 * places); s[p] = s[p] == 'a' ? 'b' : 'a'; return s; }
  v -= places;
  size_t cut = 1 + v / 2; if (v & 1) s.erase(s.begin(), s.begin() + cut); else s.resize(s.size() - cut);
  return s;
}
static inline u64 cornerCount(int places, int cuts) { return (u64)kCorners * (1 + places + 2 * cuts); }
static inline Bytes cornerAt(u64 i, int places, int cuts) { int per = 1 + places + 2 * cuts; return cornerVariant((int)(i / per), (int)(i % per), places); }
}  // namespace gen
#endif
