// C22: what the current tree writes is read by the frozen reference, and what
// the reference wrote is read by the current tree.
#ifdef MC_REDUCED
#include "pipeline.hpp"
#else
#include "container.hpp"
#endif
#include "prep.hpp"
#include "refapi.hpp"
using mc::Bytes; using mc::u64; using mc::Family;

// the reference may not be what stops a case: a crash inside it means that it
// was given something which is not in its format
static Bytes take(RefResult& r, int rc, const char* what) {
  if (rc) mc::fail("the earlier version %s: %s", what, r.error);
  Bytes b(r.data, r.data + r.size); free(r.data); return b;
}
static void differs(const Bytes& want, const Bytes& got, const char* what, const std::string& cfg) {
  if (want == got) return;
  size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  mc::fail("%s: differs at byte %zu (original %zu bytes, restored %zu) %s", what, i, want.size(), got.size(), cfg.c_str());
}
static void cross(const Bytes& in, const Cfg& c) {
  mc::note("%s input=%s", c.str().c_str(), mc::hex(in).c_str());
  RefResult r;
  Bytes zo = take(r, ref_compress(in.data(), in.size(), c.enc, c.bwt, c.starts, c.prepr.c_str(), c.mem, &r), "cannot compress the input");
  differs(in, decompressBytes(zo), "data written by the earlier version, read by the current one", c.str());
  Bytes zn = compressBytes(in, c);
  mc::step(4);
  if (zn != zo) mc::count(1); else mc::count(0);
  // equal bytes are what the reference wrote itself, and it reads its own
  // output (shown on the tree it was frozen from, C01)
  if (zn != zo) differs(in, take(r, ref_decompress(zn.data(), zn.size(), &r), "cannot read data written by the current one"), "data written by the current version, read by the earlier one", c.str());
  mc::state(mc::hashBytes(zn.data(), zn.size()));
}
#ifndef MC_REDUCED
static void crossPrep(const Bytes& in, const std::string& p, size_t block) {
  char cfg[100]; snprintf(cfg, 100, "prepr=\"%s\" block=%zu", p.c_str(), block);
  mc::note("%s input=%s", cfg, mc::hex(in).c_str());
  RefResult r;
  Bytes zo = take(r, ref_preprocess(in.data(), in.size(), p.c_str(), block, &r), "cannot preprocess the input");
  differs(in, postprocessBytes(zo), "data preprocessed by the earlier version, restored by the current one", cfg);
  Bytes zn = preprocessBytes(in, p, block);
  mc::step(4);
  if (zn != zo) mc::count(1); else mc::count(0);
  if (zn != zo) differs(in, take(r, ref_postprocess(zn.data(), zn.size(), &r), "cannot read data preprocessed by the current one"), "data preprocessed by the current version, restored by the earlier one", cfg);
  mc::state(mc::hashBytes(zn.data(), zn.size(), 7));
}
#endif

int main(int argc, char** argv) {
  mc::counterName[0] = "identical_archives"; mc::counterName[1] = "different_archives_read_by_the_other_version";
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    {
      static const size_t sz[] = {1000000, 2600000};
      static const int pt[] = {8, 15, 4, 6, 9, 3};
      F.push_back(Family("large", 2 * 6 * 6, [](u64 i) {
        Cfg c(kEncs[i % 6], "ds"[(i / 6) & 1], 8, (i / 6) % 3 == 0 ? "pp" : "", (i / 6) % 2 ? 100000000 : 4000000);
        cross(gen::pattern(pt[(i / 6) % 6], sz[i / 36]), c); }, 1));
    }
    F.push_back(Family("medium", 10 * gen::kPatterns * (T ? 6 : 2), [T](u64 i) {
      static const size_t sz[] = {4096, 9999, 10000, 10001, 16384, 32768, 65535, 65537, 131072, 262144};
      int ne = T ? 6 : 2; int k = (i / ne) % gen::kPatterns; size_t n = sz[i / ne / gen::kPatterns];
      char e = T ? kEncs[i % 6] : (i % 2 ? kEncs[1 + (i / 2) % 5] : 'H');
      cross(gen::pattern(k, n), Cfg(e, "ads"[i % 3], 1 + (unsigned)(i % 13), i % 5 == 0 ? "ppp" : i % 5 == 1 ? "p" : "", 1000000)); }, 2));
    F.push_back(Family("replacements", 240 * (T ? 6 : 1), [](u64 i) {
      static const int R[] = {1004, 1100, 2100}; static const int RA[] = {0, 150, 180, 190, 192};
      prep::Spec s = {1 + (int)(i % 6) * 2, R[i % 3], RA[i / 6 % 5], 1 + (int)(i / 240 % 3), (int)(i / 30 % 4), (int)(i / 2 % 5), (int)(i / 48 % 5), (int)(i * 11 % 256)};
      Bytes v = prep::make(s); cross(v, Cfg(kEncs[(i + i / 6) % 6], "ds"[i & 1], 8, i % 3 == 0 ? "p" : i % 3 == 1 ? "pp" : "ppppp", i % 4 ? 1000000 : v.size() * 2)); }, 2));
#ifndef MC_REDUCED
    F.push_back(Family("preprocessed-replacements", 480 * (T ? 4 : 1), [](u64 i) {
      static const int R[] = {1004, 1100, 2100}; static const int RA[] = {0, 150, 180, 190, 192};
      prep::Spec s = {1 + (int)(i % 6) * 2, R[i / 2 % 3], RA[i / 6 % 5], 1 + (int)(i / 240 % 3), (int)(i / 30 % 4), (int)(i / 3 % 5), (int)(i / 48 % 5), (int)(i * 13 % 256)};
      Bytes v = prep::make(s); static const char* pp[] = {"p", "pp", "ppp", "pppppp"};
      crossPrep(v, pp[i % 4], i % 5 ? v.size() + 1 : v.size() / 2 + 1); }, 2));
#endif
    static const size_t kRuns[] = {1,2,3,4,7,8,9,16,17,33,64,65,127,128,129,255,256,257,511,513,1023,1025,4095,4096,4097,9999,10000,10001,16383,16384,16385,65535,65536,65537};
    static const int kNumRuns = sizeof(kRuns) / sizeof(kRuns[0]);
    F.push_back(Family("runs2", (u64)kNumRuns * kNumRuns * (T ? 6 : 1), [T](u64 i) {
      u64 j = T ? i / 6 : i; Bytes v(kRuns[j % kNumRuns], 'a'); v.insert(v.end(), kRuns[j / kNumRuns], 'q');
      cross(v, Cfg(kEncs[T ? i % 6 : (j + j / kNumRuns) % 6])); }, 4));
    F.push_back(Family("alphabet", 256 * 5 * 2 * (T ? 6 : 2), [T](u64 i) {
      u64 m = T ? 6 : 2, k = i % m, j = i / m; char e = T ? kEncs[k] : (k ? kEncs[1 + j % 5] : 'H');
      cross(gen::alphabet(1 + (int)(j / 10), (int)(j % 5), (int)(j / 5 % 2), (int)(j % 3)), Cfg(e)); }, 8));
    F.push_back(Family("options", (u64)gen::kPatterns * 6 * 3 * 10 * 2, [](u64 i) {
      static const unsigned st[] = {1,2,3,7,8,16,17,64,255,256};
      u64 j = i; char e = kEncs[j % 6]; j /= 6; char b = "ads"[j % 3]; j /= 3; unsigned s = st[j % 10]; j /= 10;
      const char* p = j % 2 ? "pp" : ""; j /= 2;
      cross(gen::pattern((int)j, 300 + 37 * (size_t)j), Cfg(e, b, s, p)); }));
    F.push_back(Family("starts", 256 * 8, [](u64 i) {
      static const size_t ln[] = {256, 257, 258, 300, 511, 513, 1000, 4097};
      cross(gen::pattern(i % 3 ? 8 : 3, ln[i % 8]), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + (unsigned)(i / 8))); }));
    F.push_back(Family("memory", 1500, [](u64 i) {
      size_t mem = 6 + i, n = std::min<size_t>(mem * 2 / 3 + 3, 700);
      cross(gen::pattern((int)(i % gen::kPatterns), n), Cfg(kEncs[i % 6], 'a', 1 + i % 9, i % 4 == 3 && mem >= 20 ? "p" : "", mem)); }));
    F.push_back(Family("lengths", (u64)(T ? 2000 : 530) * gen::kPatterns, [](u64 i) {
      cross(gen::pattern((int)(i % gen::kPatterns), i / gen::kPatterns), Cfg(kEncs[(i + i / gen::kPatterns) % 6], "ads"[i % 3], 1 + i % 7)); }));
    F.push_back(Family("lengths2", (u64)(T ? 10000 : 2500), [](u64 i) {
      cross(gen::pattern((int)(i % gen::kPatterns), 530 + i), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + i % 17)); }));
#ifndef MC_REDUCED
    F.push_back(Family("preprocessed-lengths", (u64)gen::kPatterns * 300, [](u64 i) {
      size_t n = i / gen::kPatterns; n = n < 200 ? n : (n - 199) * 401; static const char* pp[] = {"", "p", "pp"};
      crossPrep(gen::pattern((int)(i % gen::kPatterns), n), pp[i % 3], 1 + i % 5 * 8000 + n / 3); }));
#endif
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255}, t4 = {0, 127, 128, 255};
    int l2 = T ? 14 : 11, l3 = T ? 9 : 7, l4 = T ? 7 : 5;
    F.push_back(Family("all-ab", gen::stringsCount(2, 0, l2) * 6, [](u64 i) { cross(gen::stringAt(i / 6, ab, 0), Cfg(kEncs[i % 6])); }));
    F.push_back(Family("all-3", gen::stringsCount(3, 0, l3) * 6, [](u64 i) { cross(gen::stringAt(i / 6, t3, 0), Cfg(kEncs[i % 6], "ds"[i & 1])); }));
    F.push_back(Family("all-4", gen::stringsCount(4, 0, l4) * 6, [](u64 i) { cross(gen::stringAt(i / 6, t4, 0), Cfg(kEncs[i % 6], "ds"[i & 1])); }));
    F.push_back(Family("all-bytes", 256 * 6 * 2, [](u64 i) { cross(Bytes(1, (unsigned char)(i / 12)), Cfg(kEncs[i % 6], 'a', 8, i / 6 % 2 ? "p" : "")); }));
#ifndef MC_REDUCED
    F.push_back(Family("preprocessed-strings", gen::stringsCount(3, 0, 6) * 2 * 4, [](u64 i) {
      crossPrep(gen::stringAt(i / 8, t3, 0), i & 1 ? "p" : "", 1 + i / 2 % 4 * 2); }));
#endif
  });
}
