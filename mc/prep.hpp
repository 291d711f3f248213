// Inputs that make pair replacement really replace pairs (a pair has to occur
// more than a thousand times), with every way of running out of free symbols.
#ifndef MC_PREP_HPP
#define MC_PREP_HPP
#include "gen.hpp"
namespace prep {
using mc::Bytes; using mc::u8; using mc::u64;
struct Spec {
  int pairs;       // number of distinct frequent pairs
  int reps;        // occurrences of each
  int rare;        // number of distinct other symbols
  int rareReps;    // occurrences of each of them
  int layout;      // where the rare symbols go
  int shape;       // what the frequent pairs look like
  int tailKind;    // how the input ends
  int rot;         // renumbering of the symbols
};
enum { kLayouts = 4, kShapes = 5, kTails = 5 };
static inline std::string show(const Spec& s) {
  char b[200]; snprintf(b, 200, "pairs=%d reps=%d rare=%d x%d layout=%d shape=%d tail=%d rot=%d", s.pairs, s.reps, s.rare, s.rareReps, s.layout, s.shape, s.tailKind, s.rot); return b;
}
static inline Bytes make(const Spec& s) {
  // pair symbols are 0..63, rare symbols follow
  Bytes core, rare;
  for (int r = 0; r < s.reps; ++r) for (int p = 0; p < s.pairs; ++p) {
    switch (s.shape) {
      case 0: core.push_back((u8)(2 * p)); core.push_back((u8)(2 * p + 1)); break;       // disjoint
      case 1: core.push_back((u8)p); core.push_back((u8)(p + 1)); break;                 // chained
      case 2: core.push_back((u8)(2 * p)); core.push_back((u8)(2 * p)); core.push_back((u8)(2 * p + 1)); break;  // aab
      case 3: core.push_back((u8)(2 * p)); core.push_back((u8)(2 * p)); break;           // equal symbols
      case 4: core.push_back((u8)(p ? p : s.pairs)); core.push_back((u8)(p % 2 ? 0 : p + 20)); break;   // symbol 0 as second
    }
  }
  int first = 64;
  for (int r = 0; r < s.rareReps; ++r) for (int q = 0; q < s.rare; ++q) rare.push_back((u8)((first + q) & 255));
  Bytes v;
  switch (s.layout) {
    case 0: v = rare; v.insert(v.end(), core.begin(), core.end()); break;
    case 1: v = core; v.insert(v.end(), rare.begin(), rare.end()); break;
    case 2: { size_t j = 0, step = rare.empty() ? 1 : core.size() / rare.size() + 1; for (size_t i = 0; i < core.size(); ++i) { if (i % step == 0 && j < rare.size()) v.push_back(rare[j++]); v.push_back(core[i]); } while (j < rare.size()) v.push_back(rare[j++]); break; }
    case 3: { size_t h = (core.size() / 2) & ~(size_t)1; v.assign(core.begin(), core.begin() + h); v.insert(v.end(), rare.begin(), rare.end()); v.insert(v.end(), core.begin() + h, core.end()); break; }
  }
  if (!v.empty()) switch (s.tailKind) {
    case 1: v.push_back(64); break;                       // ends in a rare symbol
    case 2: v.push_back(0); break;                        // ends in half a pair
    case 3: v.push_back((u8)((first + s.rare) & 255)); break;   // ends in a new symbol
    case 4: v.pop_back(); break;                          // ends inside a pair
  }
  while (v.size() < 3) v.push_back('z');
  if (s.rot) for (size_t i = 0; i < v.size(); ++i) v[i] = (u8)(v[i] * 167 + s.rot);   // 167 odd: a permutation
  return v;
}
// Blocks that use every symbol, so that each replaced pair has to be paid for by
// escaping a freed symbol, and where that hardly pays.
struct Tight {
  int pairs;       // number of distinct frequent pairs
  int run;         // 0: two different symbols; L: runs of L equal symbols
  int shift;       // parity of the position where the runs start
  int reps;        // occurrences of each pair (of each run)
  int slack;       // pair occurrences - occurrences of the freed symbol - 1003
  int counted;     // occurrences a run is worth when the slack is computed
  int specials;    // occurrences of the rarest symbols
  int layout;      // 0 freed symbols first, 1 last, 2 everywhere
};
static inline std::string show(const Tight& t) {
  char b[200]; snprintf(b, 200, "tight pairs=%d run=%d shift=%d reps=%d slack=%d counted=%d specials=%d layout=%d", t.pairs, t.run, t.shift, t.reps, t.slack, t.counted, t.specials, t.layout); return b;
}
static inline Bytes make(const Tight& t) {
  // the rarest symbols, freed symbols, symbols of the pairs, all others
  int ns = 2; while (ns * ns - ns < t.pairs) ++ns;
  int firstFreed = ns, firstPair = ns + t.pairs, firstOther = firstPair + t.pairs * (t.run ? 1 : 2);
  long g = (long)t.reps * (t.run ? t.counted : 1) - 1003 - t.slack; if (g < 1) g = 1;
  std::vector<long> left(256, 0);
  for (int c = 0; c < ns; ++c) left[c] = t.specials;
  for (int c = firstFreed; c < firstPair; ++c) left[c] = g;
  for (int c = firstOther; c < 256; ++c) left[c] = g + 60;
  Bytes core; int other = firstOther;
  if (t.run) {
    if (t.shift & 1) core.push_back((u8)(firstOther < 256 ? firstOther : 0));
    for (int p = 0; p < t.pairs; ++p) for (int r = 0; r < t.reps; ++r) {
      core.insert(core.end(), t.run, (u8)(firstPair + p));
      // one or two others in between, so that all runs start at the same parity
      for (int q = 0; q < 2 - t.run % 2; ++q) { if (firstOther < 256) { core.push_back((u8)other); --left[other]; other = other == 255 ? firstOther : other + 1; } }
    }
  } else
    for (int p = 0; p < t.pairs; ++p) for (int r = 0; r < t.reps; ++r) { core.push_back((u8)(firstPair + 2 * p)); core.push_back((u8)(firstPair + 2 * p + 1)); }
  Bytes freed, rest;
  for (long r = 0; r < g; ++r) for (int c = firstFreed; c < firstPair; ++c) freed.push_back((u8)(firstFreed + (c - firstFreed + r * 7) % t.pairs));
  for (int c = 0; c < 256; ++c) if (c < firstFreed || c >= firstOther) for (long r = 0; r < left[c]; ++r) rest.push_back((u8)c);
  if (t.layout == 2) { rest.insert(rest.end(), freed.begin(), freed.end()); freed.clear(); }
  u64 x = 12345; for (size_t i = rest.size(); i > 1; --i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(rest[i - 1], rest[(x >> 33) % i]); }
  Bytes v; if (t.layout == 0) { if (freed.size() & 1) freed.push_back(0); v = freed; }
  v.insert(v.end(), core.begin(), core.end()); v.insert(v.end(), rest.begin(), rest.end());
  if (t.layout == 1) v.insert(v.end(), freed.begin(), freed.end());
  return v;
}
// Every symbol used, every new special symbol just paid for by the pairs it
// makes possible, all symbols to be escaped first: half of the output is escapes
// by the time the first pair is replaced.
static inline Bytes third(long g, int slack, int groups, int last, int layout) {
  struct Group { int specials, pairs; long freq; }; std::vector<Group> gr; int sp = 2, total = 2, np = 0;
  for (int k = 0; k < groups; ++k) {
    int ns = k ? 1 : 2, m = k ? 2 * sp : 2; if (k) { ++sp; ++total; }
    if (k == groups - 1 && last && last < m) m = last;
    Group q = {ns, m, g + std::max<long>(1004, (ns * g + 1001 + m - 1) / m + slack)}; gr.push_back(q); np += m;
  }
  for (size_t k = gr.size() - 1; k > 0; --k) gr[k - 1].freq = std::max(gr[k - 1].freq, gr[k].freq);
  int esc = total + np; Bytes a, b, c;
  for (long r = 0; r < g; ++r) for (int s = 0; s < esc; ++s) a.push_back((u8)((s + r * 7) % esc));
  int sym = esc;
  for (size_t k = 0; k < gr.size(); ++k) for (int p = 0; p < gr[k].pairs; ++p, sym += 2) for (long r = 0; r < gr[k].freq; ++r) { b.push_back((u8)sym); b.push_back((u8)(sym + 1)); }
  for (int s = sym; s < 256; ++s) c.insert(c.end(), g + 1, (u8)s);
  Bytes v;
  if (layout == 0) { v = a; v.insert(v.end(), b.begin(), b.end()); v.insert(v.end(), c.begin(), c.end()); }
  else if (layout == 1) { v = a; v.insert(v.end(), c.begin(), c.end()); v.insert(v.end(), b.begin(), b.end()); }
  else if (layout == 2) { v = c; v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end()); }
  else { v = b; v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), c.begin(), c.end()); }
  return v;
}
// Every symbol used and the freed symbols always in the same company, so that
// after the first round pairs of an ordinary and a special symbol are frequent.
// The symbols of the replaced pairs vanish and are the cheapest in the next one.
static inline Bytes company(int pairs, long g, int kind, int layout, int extra) {
  int ns = 2; while (ns * ns - ns < pairs) ++ns;
  int f0 = ns, p0 = ns + pairs, o0 = p0 + 2 * pairs; long N = g + 1003 + 200;
  std::vector<long> left(256, 0); Bytes a, b, c;
  for (int s = o0; s < 256; ++s) left[s] = g + 40;
  u8 x = (u8)(o0 + 3), y = (u8)(o0 + 9);
  for (long r = 0; r < g; ++r) for (int k = 0; k < pairs; ++k) {
    u8 f = (u8)(f0 + k), h = (u8)(f0 + (k + 1) % pairs);
    switch (kind) {
      case 0: a.push_back((u8)(x + k)); a.push_back(f); a.push_back((u8)(200 + r % 50)); break;   // before it the same
      case 1: a.push_back((u8)(200 + r % 50)); a.push_back(f); a.push_back((u8)(y + k)); break;   // behind it the same
      case 2: a.push_back((u8)(x + k)); a.push_back(f); a.push_back((u8)(y + k)); break;
      case 3: a.push_back(f); break;                                                              // next to each other
      case 4: a.push_back(x); a.push_back(f); break;                                              // all behind the same
      case 5: a.push_back(f); a.push_back(x); break;
      case 6: a.push_back(f); if (r % 2) { a.push_back(h); a.push_back(x); } break;
      case 7: for (int q = 0; q < 8; ++q) a.push_back(f); if (k == 0) r += 7; break;              // runs of it
    }
  }
  for (int k = 0; k < pairs; ++k) for (long r = 0; r < N + 10 * k; ++r) { b.push_back((u8)(p0 + 2 * k)); b.push_back((u8)(p0 + 2 * k + 1)); }
  for (u8 s : a) --left[s];
  for (int s = 0; s < ns; ++s) left[s] = 3 + s;
  for (int s = 0; s < 256; ++s) for (long r = 0; r < left[s]; ++r) c.push_back((u8)s);
  u64 z = 99 + extra; for (size_t i = c.size(); i > 1; --i) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(c[i - 1], c[(z >> 33) % i]); }
  Bytes v;
  switch (layout) {
    case 0: v = a; v.insert(v.end(), b.begin(), b.end()); v.insert(v.end(), c.begin(), c.end()); break;
    case 1: v = c; v.insert(v.end(), b.begin(), b.end()); v.insert(v.end(), a.begin(), a.end()); break;   // ends in one of them
    case 2: v = b; v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), c.begin(), c.end()); break;
    case 3: v = c; v.insert(v.end(), a.begin(), a.end()); v.insert(v.end(), b.begin(), b.end()); break;
  }
  for (int q = 0; q < extra % 3; ++q) v.push_back(q ? (u8)f0 : x);
  return v;
}
// Every symbol used, and frequent words whose pairs overlap: only every other
// pair can be replaced, so what the overlapped ones seem to be worth is not there.
static inline Bytes chains(int words, int len, long reps, int slack, int variant, int layout) {
  long g = reps - 1003 - slack; if (g < 1) g = 1;
  Bytes core, rest; bool in[256] = {false}; int base = 100;
  for (int w = 0; w < words; ++w) for (long r = 0; r < reps; ++r) {
    for (int k = 0; k < len; ++k) {
      int c = base + w * len + k;
      if (variant == 1) c = base + w * len + len - 1 - k;              // descending
      if (variant == 2 && k == len - 1) c = base + w * len;            // comes back to its start
      if (variant == 3) c = base + (w + k) % (words * len);            // words share their pairs
      core.push_back((u8)c); in[c & 255] = true;
    }
    if (variant == 4) { core.push_back((u8)(r % 20)); }                // something else in between
  }
  for (int c = 0; c < 256; ++c) if (!in[c]) { long n = c < 40 ? g : g + 30; if (c == 40 || c == 41) n = 2; for (long r = 0; r < n; ++r) rest.push_back((u8)c); }
  u64 z = 5; for (size_t i = rest.size(); i > 1; --i) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(rest[i - 1], rest[(z >> 33) % i]); }
  Bytes v;
  if (layout == 0) { v = rest; v.insert(v.end(), core.begin(), core.end()); } else { v = core; v.insert(v.end(), rest.begin(), rest.end()); }
  return v;
}
// Long words, so that the first round leaves variables that are frequent pairs
// again, when only a few of the symbols are cheap to free and all others are more
// frequent than the pairs. `cheap` counts the cheap ones behind those that the
// first round uses up.
static inline Bytes staged(int pairs, int cheap, long reps, int kind, int layout) {
  int ns = 2; while (ns * ns - ns < pairs) ++ns;
  int w0 = ns + pairs + cheap; Bytes core, rest;
  if (w0 + 2 * pairs > 250) w0 = 250 - 2 * pairs;
  for (long r = 0; r < reps; ++r) { for (int k = 0; k < 2 * pairs; ++k) core.push_back((u8)(w0 + (kind & 1 ? 2 * pairs - 1 - k : k))); if (kind & 2) core.push_back((u8)(230 + r % 20)); }
  for (int c = 0; c < 256; ++c) {
    long n = c < ns ? 3 : c < ns + pairs + cheap ? 20 + c : 3 * reps;
    if (kind & 4 && c >= w0 && c < w0 + 2 * pairs) n = 0;
    for (long r = 0; r < n; ++r) rest.push_back((u8)c);
  }
  u64 z = 5; for (size_t i = rest.size(); i > 1; --i) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; std::swap(rest[i - 1], rest[(z >> 33) % i]); }
  Bytes v;
  if (layout == 0) { v = rest; v.insert(v.end(), core.begin(), core.end()); } else { v = core; v.insert(v.end(), rest.begin(), rest.end()); }
  return v;
}
}  // namespace prep
#endif
