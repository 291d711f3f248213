// C21: operation sequences on the frequency table and the bounded queue.
#define MAIN
#include "globaldefs.hpp"
#include "mc.hpp"
#include "gen.hpp"
#include "prep.hpp"
#include <deque>
#include <memory>
using mc::Bytes; using mc::u64; using mc::u8; using mc::Family;
#ifndef MC_REDUCED
#include "preprocessors/FrequencyTable.hpp"
#include "Utils.hpp"

struct Table {
  size_t f[256]; bool gone[256]; size_t left; std::unique_ptr<bwtc::FrequencyTable> t;
  Table() : left(256) { memset(gone, 0, sizeof gone); memset(f, 0, sizeof f); }
  void check(const char* after) const {
    const bwtc::FrequencyTable& x = *t;
    MC_CHECK(x.size() == left, "after %s the table has %zu entries instead of %zu", after, (size_t)x.size(), left);
    bool seen[256] = {false}; size_t prev = 0;
    for (size_t i = 0; i < left; ++i) {
      int k = x.getKey((int)i); size_t v = x.getFrequency((int)i);
      MC_CHECK(!seen[k] && !gone[k], "after %s byte %d is listed twice or although removed", after, k); seen[k] = true;
      MC_CHECK(v == f[k], "after %s byte %d has frequency %zu instead of %zu", after, k, v, f[k]);
      MC_CHECK(x.getFrequencyWithKey((bwtc::byte)k) == f[k], "after %s the lookup of byte %d gives %u instead of %zu", after, k, (unsigned)x.getFrequencyWithKey((bwtc::byte)k), f[k]);
      MC_CHECK(v >= prev, "after %s the entries are not sorted at %zu", after, i); prev = v;
    }
  }
};
static const int kInit = 8;
static void init(Table& T, int kind) {
  for (int i = 0; i < 256; ++i) switch (kind) {
    case 0: T.f[i] = 0; break;
    case 1: T.f[i] = i; break;
    case 2: T.f[i] = 255 - i; break;
    case 3: T.f[i] = 3; break;
    case 4: T.f[i] = (i * 37) % 5; break;
    case 5: T.f[i] = i == 128 ? 1000 : i % 2; break;
    case 6: T.f[i] = (i * 151) % 256; break;
    case 7: T.f[i] = i < 4 ? 0 : 100000 + (i * 7919) % 1000; break;
  }
  if (kind == 0) T.t.reset(new bwtc::FrequencyTable());
  else { size_t c[256]; memcpy(c, T.f, sizeof c); T.t.reset(new bwtc::FrequencyTable(c)); }
}
static const u8 kKeys[] = {0, 1, 128, 255};
enum { kOps = 20 };
static void doOp(Table& T, int o) {
  u8 k = kKeys[o % 4]; int a = o / 4; static const size_t inc[] = {1, 2, 300}; mc::step();
  if (a < 3) { mc::note("increase(%d,%zu)", k, inc[a]); T.t->increase(k, inc[a]); T.f[k] += inc[a]; T.check("increase"); }
  else { size_t v = a == 3 ? (T.f[k] ? 1 : 0) : T.f[k]; mc::note("decrease(%d,%zu)", k, v); bool r = T.t->decrease(k, v); MC_CHECK(r, "a possible decrease was refused"); T.f[k] -= v; T.check("decrease"); }
}
static void table(u64 i, int depth, int kind, bool copies) {
  Table T; init(T, kind); mc::note("table %d", kind); T.check("construction");
  for (int d = 0; d < depth; ++d) {
    doOp(T, (int)(i % kOps)); i /= kOps;
    if (copies) { std::unique_ptr<bwtc::FrequencyTable> old(T.t.release()); if (d & 1) { T.t.reset(new bwtc::FrequencyTable()); *T.t = *old; } else T.t.reset(new bwtc::FrequencyTable(*old)); T.check("copying"); old->increase(5, 77); T.check("changing the original of a copy"); }
    u64 h = 7; for (int k = 0; k < 4; ++k) h = mc::mix(h ^ T.f[kKeys[k]]) + T.f[kKeys[k]]; mc::state(h + kind);
  }
}

static void queue(u64 i, size_t cap, int depth) {
  utils::CircularBuffer<bwtc::byte> b(cap); std::deque<u8> m; u8 next = 1; mc::note("capacity %zu", cap);
  size_t nops = 1 + cap + 2;
  for (int d = 0; d < depth; ++d) {
    size_t o = i % nops; i /= nops; mc::step();
    if (o == 0) { if (m.size() == cap) continue; b.push(next); m.push_back(next); ++next; mc::note("push"); }
    else {
      size_t k = o - 1; u8 to[64]; memset(to, 0xEE, sizeof to); size_t r = b.consume(to, k), w = std::min(k, m.size()); mc::note("consume(%zu)", k);
      MC_CHECK(r == w, "consume(%zu) returned %zu of %zu", k, r, m.size());
      for (size_t q = 0; q < w; ++q) { MC_CHECK(to[q] == m.front(), "element %zu is %u instead of %u", q, to[q], m.front()); m.pop_front(); }
      for (size_t q = w; q < sizeof to; ++q) MC_CHECK(to[q] == 0xEE, "consume wrote behind its result");
    }
    MC_CHECK(b.full() == (m.size() == cap), "full() wrong with %zu of %zu elements", m.size(), cap);
  }
  mc::state(mc::mix(cap * 64 + m.size()) + next);
}
// larger queues: fill, then alternate taking a and putting b for many rounds
static void bigQueue(size_t cap, size_t take, size_t put) {
  utils::CircularBuffer<bwtc::byte> b(cap); std::deque<u8> m; u8 next = 1; mc::note("capacity %zu, take %zu, put %zu", cap, take, put);
  std::vector<u8> to(cap + 80);
  for (int r = 0; r < 40; ++r) {
    for (size_t p = 0; p < (r ? put : cap) && m.size() < cap; ++p) { b.push(next); m.push_back(next); next = (u8)(next * 3 + 1); }
    MC_CHECK(b.full() == (m.size() == cap), "full() wrong with %zu of %zu elements", m.size(), cap);
    std::fill(to.begin(), to.end(), 0xEE); size_t n = b.consume(&to[0], take), w = std::min(take, m.size());
    MC_CHECK(n == w, "consume(%zu) returned %zu of %zu", take, n, m.size());
    for (size_t q = 0; q < w; ++q) { MC_CHECK(to[q] == m.front(), "round %d: element %zu is %u instead of %u", r, q, to[q], m.front()); m.pop_front(); }
    for (size_t q = w; q < to.size(); ++q) MC_CHECK(to[q] == 0xEE, "consume wrote behind its result");
    mc::step();
  }
  mc::state(mc::mix(cap * 1000003 + take * 1009 + put));
}
#else
#include "pipeline.hpp"
#endif

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
#ifndef MC_REDUCED
    static int depth; depth = T ? 5 : 4; static u64 N; N = 1; for (int i = 0; i < depth; ++i) N *= kOps;
    F.push_back(Family("table-sequences", N * kInit, [](u64 i) { table(i / kInit, depth, (int)(i % kInit), false); }));
    F.push_back(Family("table-copies", 8000 * kInit, [](u64 i) { table(i / kInit, 3, (int)(i % kInit), true); }));
    // every byte raised and lowered across the whole table
    F.push_back(Family("table-each-byte", 256 * kInit, [](u64 i) {
      Table t; init(t, (int)(i % kInit)); u8 k = (u8)(i / kInit); static const size_t v[] = {1, 3, 50, 200, 5000};
      mc::note("byte %d table %d", k, (int)(i % kInit));
      for (size_t x : v) { t.t->increase(k, x); t.f[k] += x; t.check("increase"); }
      for (size_t x : v) { t.t->decrease(k, x); t.f[k] -= x; t.check("decrease"); mc::step(2); }
      t.t->decrease(k, t.f[k]); t.f[k] = 0; t.check("decrease to zero"); }));
    // removals, in every order of up to four bytes, after some updates
    F.push_back(Family("table-removals", 256 * 24 * kInit, [](u64 i) {
      Table t; init(t, (int)(i % kInit)); u64 j = i / kInit; int perm[4] = {0, 1, 2, 3}; for (u64 q = j % 24; q; --q) std::next_permutation(perm, perm + 4);
      u8 base = (u8)(j / 24); if (base & 1) { t.t->increase(base, 9); t.f[base] += 9; t.check("increase"); }
      mc::note("removals from %d", base);
      for (int q = 0; q < 4; ++q) { u8 k = (u8)(base + perm[q] * 61); t.t->remove(k); t.gone[k] = true; --t.left; t.check("remove"); mc::step(); } }));
    F.push_back(Family("table-remove-many", kInit * 8, [](u64 i) {
      Table t; init(t, (int)(i % kInit)); int st = 1 + 2 * (int)(i / kInit); mc::note("remove 200 bytes with stride %d", st);
      for (int q = 0; q < 200; ++q) { u8 k = (u8)(q * (2 * st + 1)); t.t->remove(k); t.gone[k] = true; --t.left; t.check("remove"); mc::step(); } }));
    static const int qd[] = {0, T ? 11 : 9, T ? 10 : 9, T ? 9 : 8, T ? 9 : 7, T ? 8 : 7}; static u64 qn[6]; for (int c = 1; c <= 5; ++c) { qn[c] = 1; for (int i = 0; i < qd[c]; ++i) qn[c] *= (u64)(c + 3); }
    for (int c = 1; c <= 5; ++c) { char t[32]; snprintf(t, 32, "queue-capacity-%d", c); F.push_back(Family(t, qn[c], [c](u64 i) { queue(i, c, qd[c]); })); }
    F.push_back(Family("queue-large", 60 * 40 * 12, [](u64 i) { static const size_t put[] = {1, 2, 3, 5, 7, 16, 31, 32, 33, 64, 100, 400}; bigQueue(3 + (i / 480) * 7, (i / 12) % 40 * 3, put[i % 12]); }));
#else
    F.push_back(Family("prepr", 600, [](u64 i) { prep::Spec s; s.pairs = 1 + (int)(i % 8); s.reps = 1010 + 100 * (int)(i % 3); s.rare = 150 + (int)(i % 43); s.rareReps = 1 + (int)(i % 4); s.layout = (int)(i / 2 % 4); s.shape = (int)(i / 8 % 5); s.tailKind = (int)(i / 40 % 5); s.rot = (int)i; roundTrip(prep::make(s), Cfg("HB"[i & 1], 'a', 8, "ppp")); }));
#endif
  });
}
