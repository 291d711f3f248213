// C09: probability models in lockstep over all histories of operations.
#include "heapfill.hpp"
#define MAIN
#include "globaldefs.hpp"
#include "probmodels/ProbabilityModel.hpp"
#include "gen.hpp"
#include <memory>
using mc::Bytes; using mc::u64; using mc::Family;

enum { kModels = 7 };
static const char* kName[kModels] = {"m", "M", "u", "b", "B", "integer codes", "gaps"};
static bwtc::ProbabilityModel* make(int k, unsigned char fill) {
  heapFill = fill; bwtc::ProbabilityModel* r;
  if (k < 5) r = bwtc::giveProbabilityModel("mMubB"[k]);
  else r = k == 5 ? bwtc::giveModelForIntegerCodes() : bwtc::giveModelForGaps();
  heapFill = 0; return r;
}
// operations: 0/1 update with that bit, 2/3 state update with that bit, 4 reset
static void apply(bwtc::ProbabilityModel& m, int op) {
  switch (op) { case 0: case 1: m.update(op == 1); break; case 2: case 3: m.updateState(op == 3); break; case 4: m.resetModel(); break; }
}
static std::string show(const Bytes& h) { std::string s; for (size_t i = 0; i < h.size() && i < 200; ++i) s += "01abR"[h[i]]; if (h.size() > 200) s += ".."; return s; }

// three instances: the reference, one asked more often and built on other
// memory contents, one disturbed by a foreign instance living next to it
static void lockstep(const Bytes& h, int k, bool everyStep = true) {
  if (mc::describing) mc::note("model %s history %s (%zu operations)", kName[k], show(h).c_str(), h.size());
  std::unique_ptr<bwtc::ProbabilityModel> a(make(k, 0x00)), b(make(k, 0xFF)), f(make(k, 0x41)), c(make(k, 0x81));
  u64 tr = k;
  for (size_t i = 0; i <= h.size(); ++i) {
    unsigned pa = a->probabilityOfOne();
    unsigned pb = b->probabilityOfOne(); for (size_t r = 0; r < (i & 3); ++r) pb = b->probabilityOfOne();
    unsigned pc = c->probabilityOfOne();
    if (pa != pb || pa != pc) mc::fail("model %s: after %zu operations instances predict %u, %u and %u; history %s", kName[k], i, pa, pb, pc, show(h).c_str());
    if (pa > bwtc::kProbabilityScale) mc::fail("model %s: prediction %u outside of the range; history %s", kName[k], pa, show(h).c_str());
    tr = mc::mix(tr ^ pa) + pa;
    if (i == h.size()) break;
    apply(*a, h[i]);
    apply(*f, h[i] == 4 ? 1 : (h[i] ^ 1));
    apply(*b, h[i]);
    if (i % 3 == 0) f->probabilityOfOne();
    apply(*c, h[i]);
    if (everyStep) mc::state(tr);
  }
  mc::step(h.size()); mc::state(tr);
  a.reset(); b.reset(); c.reset(); f.reset();
  MC_CHECK(!heapSmashed, "model %s writes outside of its memory; history %s", kName[k], show(h).c_str());
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    static const std::vector<unsigned char> all = {0, 1, 2, 3, 4}, bits = {0, 1}, br = {0, 1, 4};
    // long histories: every context of the 16-bit model is visited and revisited
    F.push_back(Family("de-bruijn", kModels * 4, [](u64 i) {
      int order = i / kModels < 2 ? 16 : 9, k = (int)(i % kModels); bool inv = i / kModels & 1;
      // de Bruijn sequence by the prefer-one rule
      Bytes h; std::vector<char> seen((size_t)1 << order, 0); u64 cur = 0, mask = ((u64)1 << order) - 1; seen[0] = 1;
      for (;;) { u64 n1 = (cur << 1 | 1) & mask, n0 = (cur << 1) & mask; if (!seen[n1]) cur = n1; else if (!seen[n0]) cur = n0; else break; seen[cur] = 1; h.push_back((cur & 1) ^ inv); }
      size_t n = h.size(); h.push_back(4); for (int r = 0; r < 3; ++r) for (size_t j = 0; j < n; ++j) { h.push_back(r == 1 ? h[j] ^ 1 : h[j]); if (j % 5000 == 4999) h.push_back(2 + (h[j] & 1)); }
      lockstep(h, k, false); }, 1));
    // runs 1^a 0^b 1^c reach the ends of the range from every side
    F.push_back(Family("runs", (u64)kModels * 30 * 30 * 30, [](u64 i) {
      static const int len[] = {0,1,2,3,4,5,6,7,8,9,10,12,14,16,18,20,24,28,32,36,40,48,56,64,80,100,128,200,500,1500};
      u64 j = i / kModels; Bytes h; int a[3] = {len[j % 30], len[j / 30 % 30], len[j / 900]};
      if (a[0] + a[1] + a[2] > 1700) return;
      for (int r = 0; r < 3; ++r) h.insert(h.end(), a[r], (unsigned char)((r & 1) ^ (i & 1)));
      lockstep(h, (int)(i % kModels), false); }, 64));
    F.push_back(Family("patterns", (u64)kModels * gen::kPatterns * (T ? 10 : 2), [](u64 i) {
      Bytes p = gen::pattern((int)(i / kModels % gen::kPatterns), 3000 * (1 + i / kModels / gen::kPatterns)), h;
      for (auto b : p) for (int s = 0; s < 8; ++s) h.push_back(b >> s & 1);
      for (size_t j = 997; j < h.size(); j += 1499) h[j] = (unsigned char)(2 + j % 3);
      lockstep(h, (int)(i % kModels), false); }, 1));
    // every history of updates, state updates and resets
    F.push_back(Family("all-operations", gen::stringsCount(5, 0, T ? 10 : 9) * (kModels - 1), [](u64 i) {
      int k = (int)(i % (kModels - 1)); if (k >= 1) ++k;      // all but the 16-bit model
      lockstep(gen::stringAt(i / (kModels - 1), all, 0), k); }, 128));
    F.push_back(Family("all-operations-M", gen::stringsCount(5, 0, T ? 8 : 6), [](u64 i) { lockstep(gen::stringAt(i, all, 0), 1); }, 32));
    F.push_back(Family("all-bits", gen::stringsCount(2, 0, T ? 20 : 17) * (kModels - 1), [](u64 i) {
      int k = (int)(i % (kModels - 1)); if (k >= 1) ++k; lockstep(gen::stringAt(i / (kModels - 1), bits, 0), k); }, 128));
    F.push_back(Family("bits-and-resets", gen::stringsCount(3, 0, T ? 13 : 11) * (kModels - 1), [](u64 i) {
      int k = (int)(i % (kModels - 1)); if (k >= 1) ++k; lockstep(gen::stringAt(i / (kModels - 1), br, 0), k); }, 128));
  }, 24);
}
