// C10: pair replacement is reversible, never enlarges, in place == copied.
#define MAIN
#include "globaldefs.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "preprocessors/Grammar.hpp"
#include "PrecompressorBlock.hpp"
#ifndef MC_REDUCED
#include "preprocessors/PairReplacer.hpp"
#endif
#include "streams.hpp"
#include "prep.hpp"
#include <memory>
#include <sys/mman.h>
using mc::Bytes; using mc::u64; using mc::Family;

static void same(const char* what, const Bytes& want, const Bytes& got) {
  if (want == got) return;
  size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  mc::fail("%s differs at byte %zu of %zu (got %zu bytes)", what, i, want.size(), got.size());
}
// expands data with the grammar as it comes back from a stream, both ways
static void restores(const bwtc::Grammar& g, const Bytes& data, const Bytes& want, const char* what) {
  Bytes gz; mcs::MemOut go(gz); g.writeGrammar(&go);
  mcs::MemIn gi(gz); bwtc::Grammar back; back.readGrammar(&gi);
  std::unique_ptr<bwtc::Postprocessor> pp(new bwtc::Postprocessor(false, back));
  Bytes guarded(data); guarded.push_back(0xA5);
  Bytes one; pp->uncompress(&guarded[0], data.size(), one);
  same(what, want, one);
  Bytes two; mcs::MemOut to(two); size_t n = pp->uncompress(&guarded[0], data.size(), &to);
  same(what, want, two);
  MC_CHECK(n == want.size(), "%s: reported %zu bytes instead of %zu", what, n, want.size());
}
#ifndef MC_REDUCED
// rounds driven step by step
static void rounds(const Bytes& in, int n) {
  std::unique_ptr<bwtc::Grammar> g(new bwtc::Grammar);
  Bytes cur(in);
  for (int r = 0; r < n; ++r) {
    std::unique_ptr<bwtc::PairReplacer> pr(new bwtc::PairReplacer(*g, false));
    size_t len = cur.size(); if (len < 3) break;
    pr->analyseData(&cur[0], len); pr->finishAnalysation();
    size_t k = pr->decideReplacements();
    Bytes a(cur); a.resize(len + 1 + 32, 0xC3);
    Bytes b(2 * len + 40, 0xC3);
    size_t lb = pr->writeReplacedVersion(&cur[0], len, &b[0]);
    MC_CHECK(lb <= len, "round %d: %zu bytes became %zu", r, len, lb);
    for (size_t i = len + 1; i < b.size(); ++i) MC_CHECK(b[i] == 0xC3, "round %d: copying replacement wrote behind the destination", r);
    size_t la = pr->writeReplacedVersion(&a[0], len);
    for (size_t i = len + 1; i < a.size(); ++i) MC_CHECK(a[i] == 0xC3, "round %d: in-place replacement wrote behind the block", r);
    MC_CHECK(la == lb && memcmp(&a[0], &b[0], la) == 0, "round %d: in-place result (%zu bytes) differs from the copied one (%zu bytes)", r, la, lb);
    b.resize(lb);
    if (k == 0) same("a round without replacements", cur, b); else mc::count(0, k);
    if (g->numberOfSpecialSymbols() > 0) mc::count(1);
    restores(*g, b, in, "data restored after a round");
    mc::state(mc::hashBytes(b.data(), b.size(), g->numberOfRules())); mc::step();
    cur.swap(b);
    if (k == 0) break;
  }
}
#else
static void rounds(const Bytes&, int) {}
#endif
// the way the programs drive it
static void driver(const Bytes& in, int n) {
  bwtc::Precompressor pc(std::string((size_t)n, 'p'));
  mcs::MemIn mi(in, false);
  std::unique_ptr<bwtc::PrecompressorBlock> b(pc.readBlock(in.size() + 5, &mi));
  MC_CHECK(b->originalSize() == in.size(), "block reports %zu original bytes instead of %zu", (size_t)b->originalSize(), in.size());
  MC_CHECK(b->size() <= in.size(), "%zu bytes became %zu", in.size(), (size_t)b->size());
  if (in.empty()) return;
  Bytes d(b->begin(), b->begin() + b->size());
  restores(b->grammar(), d, in, "preprocessed block restored");
  mc::state(mc::hashBytes(d.data(), d.size(), n)); mc::step();
}
#ifndef MC_REDUCED
// a block of more than 4 GB: mostly untouched zero pages, every symbol occurs,
// and what is frequent differs between the first bytes and the rest
struct Expect : mcs::MemOut {
  const unsigned char* p; const unsigned char* e; Bytes none;
  Expect(const unsigned char* b, size_t n) : mcs::MemOut(none), p(b), e(b + n) {}
  virtual void writeByte(bwtc::byte b) { MC_CHECK(p < e && *p == b, "restored byte is wrong, %zu bytes before the end", (size_t)(e - p)); ++p; }
  virtual void writeBlock(const bwtc::byte* a, const bwtc::byte* b) { for (; a != b; ++a) writeByte(*a); }
};
static void giant(size_t len, int kind) {
  mc::note("one round, %zu bytes kind %d", len, kind);
  size_t cap = len + 4096;
  unsigned char* src = (unsigned char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  unsigned char* dst = (unsigned char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (src == MAP_FAILED || dst == MAP_FAILED) { mc::count(2); return; }
  for (int i = 0; i < 6000; ++i) src[i] = (unsigned char)(kind ? (i & 1 ? 'b' : 'a') : 'r');
  for (int c = 0; c < 256; ++c) for (int k = 0; k < 40; ++k) src[len / 2 + 64 * c + k] = (unsigned char)c;   // all symbols used
  for (int i = 0; i < 3000; ++i) src[len - 3000 + i] = (unsigned char)(i & 1 ? 'y' : 'x');
  {
    std::unique_ptr<bwtc::Grammar> g(new bwtc::Grammar);
    std::unique_ptr<bwtc::PairReplacer> pr(new bwtc::PairReplacer(*g, false));
    pr->analyseData(src, len); pr->finishAnalysation();
    size_t k = pr->decideReplacements(); mc::count(0, k);
    size_t n = pr->writeReplacedVersion(src, len, dst);
    MC_CHECK(n <= len, "%zu bytes became %zu", len, n);
    Bytes gz; mcs::MemOut go(gz); g->writeGrammar(&go);
    mcs::MemIn gi(gz); bwtc::Grammar back; back.readGrammar(&gi);
    std::unique_ptr<bwtc::Postprocessor> pp(new bwtc::Postprocessor(false, back));
    // uniform stretches are compared as a whole, the rest byte by byte; a cut
    // never falls behind the first half of a two-symbol code
    Expect ex(src, len); size_t pos = 0, total = 0; const size_t M = 1 << 20;
    while (pos < n) {
      size_t m = std::min(M, n - pos);
      if (!back.isSpecial(dst[pos]) && (m == 1 || memcmp(dst + pos, dst + pos + 1, m - 1) == 0)) {
        Bytes one; pp->uncompress(dst + pos, 1, one); size_t L = one.size(), t = L * m;
        MC_CHECK(L && t <= (size_t)(ex.e - ex.p) && memcmp(ex.p, &one[0], L) == 0 && memcmp(ex.p, ex.p + L, t - L) == 0, "restored data is wrong within the %zu bytes from %zu bytes before the end", t, (size_t)(ex.e - ex.p));
        ex.p += t; total += t; pos += m;
      } else {
        size_t q = std::min(n, pos + 4096); while (q < n && back.isSpecial(dst[q - 1])) ++q;
        total += pp->uncompress(dst + pos, q - pos, &ex); pos = q;
      }
    }
    MC_CHECK(total == len && ex.p == ex.e, "%zu bytes restored as %zu", len, total);
    mc::step(2); mc::state(mc::hashBytes(gz.data(), gz.size(), n));
  }
  munmap(src, cap); munmap(dst, cap);
}
#endif
static void both(const Bytes& in, int n, const std::string& what) {
  mc::note("%d round(s), %zu bytes: %s", n, in.size(), what.c_str());
  rounds(in, n); driver(in, n);
}

int main(int argc, char** argv) {
  mc::counterName[0] = "pairs_replaced"; mc::counterName[1] = "rounds_with_special_symbols"; mc::counterName[2] = "skipped_for_lack_of_memory";
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
#ifndef MC_REDUCED
    F.push_back(Family("above-4GB", T ? 6 : 1, [](u64 i) {
      static const size_t off[] = {4321, 4320, 6001}; giant(((size_t)1 << 32) + off[i % 3], i < 3); }, 1));
#endif
    F.push_back(Family("many-rounds", gen::kPatterns * 3 * (T ? 4 : 1), [](u64 i) {
      static const size_t sz[] = {60000, 150001, 400000}; int k = (int)(i % gen::kPatterns); u64 j = i / gen::kPatterns;
      Bytes v = gen::pattern(k, sz[j % 3] + j / 3); both(v, 10, gen::patternName(k)); }, 1));
    // words over a full alphabet: several specials, variables promoted to specials
    F.push_back(Family("full-alphabet", 24 * (T ? 6 : 2), [](u64 i) {
      Bytes v; gen::Lcg r(77 + i / 24); int words = 8 + 5 * (int)(i % 12), mixed = (int)(i / 12 % 2);
      std::vector<Bytes> w; for (int k = 0; k < words; ++k) { Bytes x; int l = 2 + k % 7; for (int q = 0; q < l; ++q) x.push_back((unsigned char)(r.next() >> 33)); w.push_back(x); }
      for (int k = 0; k < 256; ++k) for (int q = 0; q <= (k & 1 ? i % 5 : 0); ++q) v.push_back((unsigned char)(k * 31));
      while (v.size() < 300000) { const Bytes& x = w[(r.next() >> 33) % words]; v.insert(v.end(), x.begin(), x.end()); if (mixed && v.size() % 97 == 0) v.push_back((unsigned char)(r.next() >> 35)); }
      both(v, 12, "words over the full alphabet"); }, 1));
    // every combination of pair structure, number of free symbols and layout
    {
      static const int K[] = {1, 2, 3, 5, 7, 12}; static const int R[] = {1003, 1004, 1006, 1100, 2100}; static const int RA[] = {0, 180, 190, 192, 100};
      F.push_back(Family("structures", (u64)6 * 5 * 5 * 3 * prep::kLayouts * (T ? prep::kShapes * prep::kTails : 2), [T](u64 i) {
        u64 j = i; prep::Spec s; s.pairs = K[j % 6]; j /= 6; s.reps = R[j % 5]; j /= 5; s.rare = RA[j % 5]; j /= 5; s.rareReps = 1 + (int)(j % 3); j /= 3; s.layout = (int)(j % prep::kLayouts); j /= prep::kLayouts;
        if (T) { s.shape = (int)(j % prep::kShapes); s.tailKind = (int)(j / prep::kShapes); }
        else { s.shape = (int)((i + j) % prep::kShapes); s.tailKind = (int)((i / 5 + 2 * j) % prep::kTails); }
        s.rot = (int)(i % 3 ? i * 7 % 256 : 0);
        if (s.rare == 192 && s.pairs < 12) {  // really use up the alphabet
          Bytes v = prep::make(s); bool seen[256] = {false}; for (auto c : v) seen[c] = true; Bytes w; for (int c = 0; c < 256; ++c) if (!seen[c]) w.insert(w.end(), s.rareReps, (unsigned char)c);
          if (s.layout == 1) v.insert(v.end(), w.begin(), w.end()); else v.insert(v.begin(), w.begin(), w.end());
          both(v, 1 + i % 4, prep::show(s) + " all symbols used"); return; }
        both(prep::make(s), 1 + i % 4, prep::show(s)); }, 8));
    }
    // as many freed symbols as possible in front of the pairs that pay for them:
    // the in-place queue has to hold nearly a third of the block
    F.push_back(Family("queue-pressure", (T ? 160 : 40) * 3, [](u64 i) {
      int extra = (int)(i / 3), layout = (int)(i % 3); Bytes v, core; int rep = 1100 + 60 * extra;
      // 254 symbols with one pair; every rare symbol `m` times, the rarest freed
      for (int k = 0; k < rep * 2; ++k) { core.push_back('a'); core.push_back('b'); }
      for (int k = 0; k < rep * 2; ++k) { core.push_back('c'); core.push_back('d'); }
      Bytes rare; int m = 1 + (2 * rep - 1100) ; if (m < 1) m = 1;
      for (int c = 0; c < 256; ++c) if (c < 'a' || c > 'd') { int q = c < 4 ? m - c : 2 * m; if (q < 1) q = 1; if (c >= 40) q = m + 1; for (int z = 0; z < q; ++z) rare.push_back((unsigned char)c); }
      if (layout == 0) { v = rare; v.insert(v.end(), core.begin(), core.end()); }
      else if (layout == 1) { std::stable_sort(rare.begin(), rare.end(), [](unsigned char a, unsigned char b) { return (a < 4) > (b < 4); }); v = rare; v.insert(v.end(), core.begin(), core.end()); }
      else { v = core; v.insert(v.end(), rare.begin(), rare.end()); }
      char t[64]; snprintf(t, 64, "queue pressure rep=%d m=%d layout=%d", rep, m, layout);
      both(v, 2, t); }, 1));
    F.push_back(Family("pressure-exact", (T ? 400 : 120), [](u64 i) {
      // one pair P times, freed symbol f times, two specials x and y; everything else far more frequent is impossible in a short block, so use a block where all other symbols pad
      int k = (int)(i % 40), lay = (int)(i / 40); int base = 40;  // every other symbol occurs base times
      Bytes head, tail, mid;
      for (int c = 0; c < 256; ++c) if (c != 10 && c != 11) for (int z = 0; z < base + (c < 4 ? -c : c % 3); ++z) mid.push_back((unsigned char)c);
      int P = 1003 + base - 6 + k; for (int z = 0; z < P; ++z) { tail.push_back(10); tail.push_back(11); }
      Bytes v; if (lay == 0) { v = mid; v.insert(v.end(), tail.begin(), tail.end()); } else if (lay == 1) { v = tail; v.insert(v.end(), mid.begin(), mid.end()); } else { std::sort(mid.begin(), mid.end()); if (lay & 1) std::reverse(mid.begin(), mid.end()); v = mid; v.insert(v.end(), tail.begin(), tail.end()); }
      (void)head; char t[64]; snprintf(t, 64, "threshold k=%d layout=%d", k, lay); both(v, 2, t); }, 2));
    // every symbol used and every replacement on the verge of not paying: pairs
    // of different and of equal symbols, and what the runs are worth
    F.push_back(Family("tight-runs", 7 * 2 * 2 * 3 * 2 * (T ? 9 : 1), [](u64 i) {
      u64 j = i; prep::Tight t; t.run = 1 + (int)(j % 7); j /= 7; if (t.run == 1) t.run = 0; t.shift = (int)(j % 2); j /= 2; t.counted = t.run ? t.run / 2 + (int)(j % 2) : 1; j /= 2;
      t.layout = (int)(j % 3); j /= 3; t.reps = j % 2 ? 2600 : 1500; j /= 2; static const int sl[] = {40, 1, 2, 0, -1, 3, 100, 500, 996}; t.slack = sl[j]; t.pairs = 1 + (int)(i % 3); t.specials = 1 + (int)(i % 5);
      both(prep::make(t), 1 + i % 2, prep::show(t)); }, 1));
    F.push_back(Family("tight-slack", 60 * 3 * (T ? 6 : 1), [](u64 i) {
      prep::Tight t; t.run = 0; t.shift = 0; t.counted = 1; t.slack = (int)(i % 60) - 20; t.layout = (int)(i / 60 % 3); int j = (int)(i / 180); t.reps = 1100 + 37 * j; t.pairs = 1 + (int)((i + j) % 5); t.specials = 1 + (int)(i % 9);
      both(prep::make(t), 1, prep::show(t)); }, 1));
    // escapes that make frequent pairs themselves in the rounds that follow
    F.push_back(Family("escapes-in-company", 8 * 4 * 5 * (T ? 6 : 1), [](u64 i) {
      u64 j = i; int kind = (int)(j % 8); j /= 8; int lay = (int)(j % 4); j /= 4; static const int P[] = {1, 2, 3, 5, 7}; int pairs = P[j % 5]; j /= 5;
      static const long G[] = {1300, 1010, 2300, 1600, 1150, 4000}; long g = G[j % 6] + (long)(i % 7);
      char t[100]; snprintf(t, 100, "company kind=%d layout=%d pairs=%d g=%ld", kind, lay, pairs, g);
      both(prep::company(pairs, g, kind, lay, (int)(i % 5)), 2 + i % 3, t); }, 1));
    // words that are replaced in stages, with few symbols that are cheap to free
    F.push_back(Family("staged", 9 * 4 * (T ? 16 : 2), [](u64 i) {
      u64 j = i; int pairs = 1 + (int)(j % 9); j /= 9; int cheap = (int)(j % 4); j /= 4; int kind = (int)(j < 2 ? (i + j * 3) % 8 : j / 2), lay = (int)(j % 2);
      char t[100]; snprintf(t, 100, "staged pairs=%d cheap=%d kind=%d layout=%d", pairs, cheap, kind, lay);
      both(prep::staged(pairs, cheap, 1250, kind, lay), 3, t); }, 1));
    // overlapping pairs that hardly pay
    F.push_back(Family("tight-chains", 3 * 4 * 5 * 2 * (T ? 8 : 1), [](u64 i) {
      u64 j = i; int words = 1 + (int)(j % 3); j /= 3; int len = 2 + (int)(j % 4); j /= 4; int var = (int)(j % 5); j /= 5; int lay = (int)(j % 2); j /= 2;
      static const int sl[] = {1, 30, 0, 200, 2, 500, -1, 900}; long reps = i % 2 ? 2400 : 3000;
      char t[100]; snprintf(t, 100, "chains words=%d length=%d variant=%d slack=%d layout=%d", words, len, var, sl[j], lay);
      both(prep::chains(words, len, reps, sl[j], var, lay), 1 + i % 3, t); }, 1));
    // the in-place queue holds up to a third of the block
    F.push_back(Family("queue-third", T ? 64 : 16, [](u64 i) {
      static const long g[] = {20000, 3000, 9000, 40000}; static const int gl[][2] = {{9, 10}, {8, 0}, {9, 9}, {6, 0}};
      long gg = g[i / 4 % 4]; int slack = (int)(i / 16); const int* q = gl[i / 4 % 4 == 0 ? 0 : (i / 4 + i) % 4]; int lay = (int)(i % 4);
      char t[100]; snprintf(t, 100, "escapes=%ld slack=%d groups=%d last=%d layout=%d", gg, slack, q[0], q[1], lay);
      both(prep::third(gg, slack, q[0], q[1], lay), 1, t); }, 1));
    // runs of one symbol: overlapping occurrences, odd and even
    F.push_back(Family("runs", 12 * 40, [](u64 i) {
      static const size_t base[] = {3, 2003, 2006, 2007, 2008, 2009, 2010, 2012, 3009, 3012, 4020, 9000}; size_t n = base[i % 12]; u64 j = i / 12;
      Bytes v(n, 'r'); if (j & 1) v.push_back('s'); if (j & 2) v.insert(v.begin(), 't'); size_t cut = j / 4 * 211; if (j >= 4 && cut < v.size()) v.insert(v.begin() + cut, 1 + j / 8, 'u');
      both(v, 1 + i % 5, "runs"); }, 4));
    // lengths around the smallest block that is analysed
    static const std::vector<unsigned char> ab = {'a', 'b'};
    F.push_back(Family("tiny", gen::stringsCount(2, 0, T ? 12 : 9), [](u64 i) {
      Bytes v = gen::stringAt(i, ab, 0); both(v, 1 + i % 3, mc::hex(v)); }));
    F.push_back(Family("lengths", T ? 3000 : 600, [](u64 i) {
      Bytes v = gen::pattern((int)(i % gen::kPatterns), 2000 + i * 7); both(v, 1 + i % 3, gen::patternName((int)(i % gen::kPatterns))); }, 8));
  });
}
