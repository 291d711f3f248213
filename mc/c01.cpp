// C01: whole-pipeline losslessness over enumerated inputs x options.
#include "pipeline.hpp"
#include "prep.hpp"
using mc::Bytes; using mc::u64; using mc::Family;

static const size_t kRuns[] = {1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,258,511,512,513,1023,1024,1025,
  2047,2048,2049,4095,4096,4097,8191,8192,8193,9998,9999,10000,10001,10002,16382,16383,16384,16385,32767,32768,32769,65534,65535,65536,65537};
static const int kNumRuns = sizeof(kRuns) / sizeof(kRuns[0]);

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    // big inputs first: they take longest
    {
      static const size_t sz[] = {1000000, 2600000, 3000001};
      static const int pt[] = {8, 15, 4, 6, 9, 0, 3, 21};
      int ne = 6;
      F.push_back(Family("large", 3 * 8 * ne, [](u64 i) {
        Cfg c(kEncs[i % 6], "ds"[(i / 6) & 1], 8, (i / 6) % 3 == 0 ? "pp" : "", (i / 12) % 2 ? 100000000 : 4000000);
        roundTrip(gen::pattern(pt[(i / 6) % 8], sz[i / 48]), c); }, 1));
      if (T) F.push_back(Family("huge", 12, [](u64 i) {
        Cfg c(kEncs[i % 6], "ds"[i / 6], 8, "", 120000000);
        roundTrip(gen::pattern(i / 6 ? 15 : 8, 17 * 1000000 + 12345), c); }, 1));
    }
    {
      static const size_t sz[] = {4096, 5000, 9999, 10000, 10001, 16383, 16384, 20000, 32768, 50000, 65535, 65536, 65537, 100000, 131072, 185000, 185001, 262144, 370001};
      F.push_back(Family("medium", 19 * gen::kPatterns * (T ? 6 : 2), [T](u64 i) {
        int ne = T ? 6 : 2; int k = (i / ne) % gen::kPatterns; size_t n = sz[i / ne / gen::kPatterns];
        char e = T ? kEncs[i % 6] : (i % 2 ? kEncs[1 + (i / 2) % 5] : 'H');
        roundTrip(gen::pattern(k, n), Cfg(e, "ads"[i % 3], 1 + (unsigned)(i % 13), i % 5 == 0 ? "ppp" : i % 5 == 1 ? "p" : "", 1000000)); }, 2));
    }
    // strings that reach the rare stages of the suffix sorters, and their neighbours
    F.push_back(Family("corners", gen::cornerCount(T ? 16 : 3, T ? 8 : 1), [T](u64 i) {
      Bytes v = gen::cornerAt(i, T ? 16 : 3, T ? 8 : 1); std::reverse(v.begin(), v.end());
      roundTrip(v, Cfg(kEncs[i % 6], 'd', 1 + i % 9)); roundTrip(v, Cfg(kEncs[(i + 1) % 6], 's', 1 + i % 9)); }, 2));
    // inputs on which many pairs are replaced and free symbols run out
    F.push_back(Family("replacements", 240 * (T ? 6 : 1), [](u64 i) {
      static const int R[] = {1004, 1100, 2100}; static const int RA[] = {0, 150, 180, 190, 192};
      prep::Spec s = {1 + (int)(i % 6) * 2, R[i % 3], RA[i / 6 % 5], 1 + (int)(i / 240 % 3), (int)(i / 30 % 4), (int)(i / 2 % 5), (int)(i / 48 % 5), (int)(i * 11 % 256)};
      Bytes v = prep::make(s); roundTrip(v, Cfg(kEncs[(i + i / 6) % 6], "ds"[i & 1], 8, i % 3 == 0 ? "p" : i % 3 == 1 ? "pp" : "ppppp", i % 4 ? 1000000 : v.size() * 2)); }, 2));
    // two runs of every pair of threshold lengths
    F.push_back(Family("runs2", (u64)kNumRuns * kNumRuns * (T ? 6 : 1), [T](u64 i) {
      u64 j = T ? i / 6 : i; char e = T ? kEncs[i % 6] : kEncs[i % 6];
      Bytes v(kRuns[j % kNumRuns], 'a'); v.insert(v.end(), kRuns[j / kNumRuns], 'q');
      roundTrip(v, Cfg(e)); }, 4));
    F.push_back(Family("runs1", (u64)kNumRuns * 6 * 4, [](u64 i) {
      static const unsigned char s[4] = {0, 1, 128, 255};
      roundTrip(Bytes(kRuns[i / 24], s[(i / 6) % 4]), Cfg(kEncs[i % 6])); }, 4));
    // every alphabet size with every frequency shape
    F.push_back(Family("alphabet", 256 * 5 * 2 * (T ? 18 : 2), [T](u64 i) {
      u64 m = T ? 18 : 2; u64 k = i % m, j = i / m;
      int sigma = 1 + (int)(j / 10), shape = (int)(j % 5), order = (int)(j / 5 % 2);
      int map = T ? (int)(k / 6) : (int)(j % 3); char e = T ? kEncs[k % 6] : (k ? kEncs[1 + j % 5] : 'H');
      roundTrip(gen::alphabet(sigma, shape, order, map), Cfg(e)); }, 8));
    // every option combination on a small corpus
    {
      static const unsigned st[] = {1,2,3,7,8,16,17,64,255,256};
      static const char* pp[] = {"", "pp"};
      static const char bw[] = "ads";
      F.push_back(Family("options", (u64)gen::kPatterns * 6 * 3 * 10 * 2, [](u64 i) {
        u64 j = i; char e = kEncs[j % 6]; j /= 6; char b = bw[j % 3]; j /= 3; unsigned s = st[j % 10]; j /= 10;
        const char* p = pp[j % 2]; j /= 2;
        roundTrip(gen::pattern((int)j, 300 + 37 * (size_t)j), Cfg(e, b, s, p)); }));
      // preprocessing really replaces pairs: long enough inputs, every round count
      F.push_back(Family("prepr", (u64)gen::kPatterns * 3 * 3 * 2, [](u64 i) {
        static const size_t ln[] = {5000, 12345, 20000}; static const char* q[] = {"p", "pp", "pppp"};
        roundTrip(gen::pattern((int)(i / 18), ln[i / 6 % 3]), Cfg("HB"[i & 1], 'a', 8, q[i / 2 % 3])); }, 2));
      F.push_back(Family("starts", 256 * 8 * 4, [](u64 i) {
        static const size_t ln[] = {256, 257, 258, 300, 511, 513, 1000, 4097};
        static const int pt[] = {8, 3, 0, 12};
        roundTrip(gen::pattern(pt[i % 4], ln[i / 4 % 8]), Cfg("HB"[i & 1], "ds"[i / 2 & 1], 1 + (unsigned)(i / 32))); }));
    }
    // the programming interface takes any number and uses 1..256 of them
    F.push_back(Family("starts-clamped", 10 * 6 * 2 * 12, [](u64 i) {
      static const unsigned st[] = {0, 257, 258, 300, 511, 512, 65535, 65536, 0x80000000u, 0xffffffffu};
      static const size_t ln[] = {1, 2, 7, 255, 256, 257, 258, 511, 512, 513, 2000, 70000};
      roundTrip(gen::pattern((int)(i % gen::kPatterns), ln[i / 120]), Cfg(kEncs[i / 10 % 6], "ds"[i / 60 & 1], st[i % 10])); }, 2));
    // limits around the largest block size the format allows, and far above
    F.push_back(Family("memory-largest", 24 * 6, [](u64 i) {
      static const size_t m[] = {11607000000ULL, 11608000000ULL, 11608019000ULL, 11608020000ULL, 11609000000ULL, 11610000000ULL, 12000000000ULL, 100000000000ULL};
      size_t mem = i / 6 < 8 ? m[i / 6] : 11608019660ULL + (i / 6 - 8) * 6;   // 0x7ffffffe / 0.185
      roundTrip(gen::pattern(15, 300 + i), Cfg(kEncs[i % 6], "ds"[i & 1], 8, "", mem)); }, 1));
    // every memory limit (block size) on mid-size inputs
    F.push_back(Family("memory", 1500 * 6, [](u64 i) {
      size_t mem = 6 + i / 6; char e = kEncs[i % 6];
      size_t n = std::min<size_t>(mem * 2 / 3 + 3, 700);
      roundTrip(gen::pattern((int)(i % gen::kPatterns), n), Cfg(e, 'a', 1 + i % 9, i % 4 == 3 && mem >= 20 ? "p" : "", mem)); }));
    // every length for every pattern
    F.push_back(Family("lengths", (u64)(T ? 2000 : 530) * gen::kPatterns * 6, [](u64 i) {
      roundTrip(gen::pattern((int)(i / 6 % gen::kPatterns), i / 6 / gen::kPatterns), Cfg(kEncs[i % 6], "ads"[i % 3], 1 + i % 7)); }));
    F.push_back(Family("lengths2", (u64)(T ? 10000 : 2500) * 6, [](u64 i) {
      roundTrip(gen::pattern((int)(i % gen::kPatterns), 530 + i / 6), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + i % 17)); }));
    // all short strings
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255}, t4 = {0, 127, 128, 255};
    int l2 = T ? 15 : 12, l3 = T ? 10 : 8, l4 = T ? 8 : 6;
    F.push_back(Family("all-ab", gen::stringsCount(2, 0, l2) * 6, [](u64 i) { roundTrip(gen::stringAt(i / 6, ab, 0), Cfg(kEncs[i % 6])); }));
    F.push_back(Family("all-3", gen::stringsCount(3, 0, l3) * 6, [](u64 i) { roundTrip(gen::stringAt(i / 6, t3, 0), Cfg(kEncs[i % 6], "ds"[i & 1])); }));
    F.push_back(Family("all-4", gen::stringsCount(4, 0, l4) * 6, [](u64 i) { roundTrip(gen::stringAt(i / 6, t4, 0), Cfg(kEncs[i % 6], "ds"[i & 1])); }));
    F.push_back(Family("all-bytes", 256 * 6 * 2, [](u64 i) { roundTrip(Bytes(1, (unsigned char)(i / 12)), Cfg(kEncs[i % 6], 'a', 8, i / 6 % 2 ? "p" : "")); }));
    F.push_back(Family("all-pairs", 65536ULL * (T ? 6 : 1), [T](u64 i) {
      u64 j = T ? i / 6 : i; Bytes v(2); v[0] = (unsigned char)(j >> 8); v[1] = (unsigned char)j;
      roundTrip(v, Cfg(T ? kEncs[i % 6] : kEncs[(j ^ j >> 8) % 6])); }));
    F.push_back(Family("all-ab-prepr", gen::stringsCount(2, 0, l2 - 4) * 6 * 2, [](u64 i) { roundTrip(gen::stringAt(i / 12, ab, 0), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + i % 5, i / 6 % 2 ? "p" : "ppp")); }));
    F.push_back(Family("lengths-prepr", 600 * 3, [](u64 i) { roundTrip(gen::pattern((int)(i % gen::kPatterns), i / 3), Cfg(kEncs[i % 6], "ads"[i % 3], 1 + i % 7, i % 2 ? "p" : "pp")); }));
    // one foreign byte of every value at every position of a short run
    F.push_back(Family("one-odd", 256 * 16 * 2, [](u64 i) {
      Bytes v(16, 'm'); v[i / 2 % 16] = (unsigned char)(i / 32); roundTrip(v, Cfg("HB"[i & 1])); }));
  });
}
