// C14: memory safety, assertions and termination of everything the programs
// run, monitored by AddressSanitizer on every enumerated execution.
#include "pipeline.hpp"
#include "prep.hpp"
#include "Streams.hpp"
#include "PrecompressorBlock.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include <memory>
using mc::Bytes; using mc::u64; using mc::u8; using mc::Family;

// what preprocess and postprocess do with one stream
static void prepost(const Bytes& in, const std::string& opts, size_t bs) {
  mc::note("preprocess '%s' block size %zu input (%zu bytes) %s", opts.c_str(), bs, in.size(), mc::hex(in, 24).c_str());
  Bytes z; { mcs::MemOut out(z); mcs::MemIn mi(in, false); bwtc::Precompressor pc(opts);
    for (;;) { std::unique_ptr<bwtc::PrecompressorBlock> b(pc.readBlock(bs, &mi)); if (b->originalSize() == 0) break; b->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); out.writeBlock(b->begin(), b->end()); }
    bwtc::PrecompressorBlock::writeEmptyHeader(&out); }
  Bytes back; { mcs::MemIn mi(z); mcs::MemOut out(back);
    for (;;) { std::unique_ptr<bwtc::PrecompressorBlock> b(bwtc::PrecompressorBlock::readBlockHeader(&mi, PRECOMP_COMPRESSED_SIZE)); if (b->originalSize() == 0) break;
      std::unique_ptr<bwtc::Postprocessor> pp(new bwtc::Postprocessor(false, b->grammar())); pp->uncompress(b->begin(), b->size(), &out); } }
  MC_CHECK(back == in, "postprocessing differs"); mc::step(2); mc::state(mc::hashBytes(z.data(), z.size()));
}
static std::string path(const char* n) { char b[64]; snprintf(b, 64, "/f%d.%s", (int)getpid(), n); return mc::opt.errDir + b; }
static void files(const Bytes& in, const Cfg& c) {
  mc::note("files: %s input (%zu bytes)", c.str().c_str(), in.size());
  std::string a = path("in"), b = path("z"), d = path("out");
  { FILE* f = fopen(a.c_str(), "w"); MC_CHECK(f, "scratch"); if (!in.empty()) { size_t w = fwrite(&in[0], 1, in.size(), f); MC_CHECK(w == in.size(), "scratch"); } fclose(f); }
  { bwtc::Compressor k(a, b, c.prepr, c.mem, c.enc); k.initializeBwtAlgorithm(c.bwt, c.starts); k.compress(1); }
  { bwtc::Decompressor k(b, d); k.decompress(1); }
  unlink(a.c_str()); unlink(b.c_str()); unlink(d.c_str()); mc::step(2);
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    F.push_back(Family("large", 6 * (T ? 8 : 3), [](u64 i) { static const int pt[] = {8, 15, 4, 6, 0, 9, 3, 21}; roundTrip(gen::pattern(pt[i / 6], 600001), Cfg(kEncs[i % 6], "ds"[i & 1], 8, i / 6 == 1 ? "pp" : "", i & 1 ? 1500000 : 100000000)); }, 1));
    F.push_back(Family("medium", (u64)gen::kPatterns * 6 * (T ? 6 : 1), [](u64 i) { static const size_t sz[] = {65537, 10001, 20000, 32768, 100000, 131073}; u64 j = i / 6; roundTrip(gen::pattern((int)(j % gen::kPatterns), sz[(j / gen::kPatterns + j) % 6]), Cfg(kEncs[i % 6], "ads"[i % 3], 1 + (unsigned)(i % 13), i % 5 == 0 ? "ppp" : "", 1000000)); }, 1));
    F.push_back(Family("corners", gen::cornerCount(T ? 8 : 1, T ? 4 : 0), [T](u64 i) { Bytes v = gen::cornerAt(i, T ? 8 : 1, T ? 4 : 0); std::reverse(v.begin(), v.end()); roundTrip(v, Cfg(kEncs[i % 6], 'd', 1 + i % 9)); roundTrip(v, Cfg(kEncs[(i + 1) % 6], 's', 1 + i % 9)); }, 1));
    F.push_back(Family("prepost", 6 * 4 * 5 * (T ? 10 : 1), [](u64 i) { u64 j = i / 120; prep::Spec s = {1 + (int)(i % 6) * 2, 1004 + 100 * (int)(i % 3) + (int)j, i % 3 ? 192 : 150 + (int)(i % 40), 1 + (int)(i % 3), (int)(i / 6 % 4), (int)(i / 24 % 5), (int)(i % 5), (int)i}; Bytes v = prep::make(s); prepost(v, i & 1 ? "ppp" : "pppppp", i % 4 == 0 ? v.size() / 2 : v.size() + 3); if (i % 5 == 0) roundTrip(v, Cfg(kEncs[i % 6], 'a', 8, "pp")); }, 1));
    F.push_back(Family("prepost-tight", 7 * 2 * 3 * (T ? 6 : 1), [](u64 i) { u64 j = i; prep::Tight t; t.run = 1 + (int)(j % 7); j /= 7; if (t.run == 1) t.run = 0; t.counted = t.run ? t.run / 2 + (int)(j % 2) : 1; j /= 2; t.layout = (int)(j % 3); j /= 3; t.shift = (int)(j % 2); t.reps = j / 2 % 3 == 0 ? 1500 : 2600; t.slack = 40; t.pairs = 1 + (int)(i % 3); t.specials = 1; Bytes v = prep::make(t); prepost(v, i & 1 ? "p" : "pp", v.size() + 1); }, 1));
    F.push_back(Family("prepost-patterns", (u64)gen::kPatterns * 3 * (T ? 4 : 1), [](u64 i) { static const size_t sz[] = {30000, 80001, 250000}; u64 j = i / gen::kPatterns; prepost(gen::pattern((int)(i % gen::kPatterns), sz[j % 3] + j / 3), "pppppppppp", j & 1 ? 1000000 : 40000); }, 1));
    F.push_back(Family("prepost-blocks", 300 * (T ? 8 : 1), [](u64 i) { prepost(gen::pattern((int)(i % gen::kPatterns), (i % 13) * 3 + i % 2), i % 3 == 0 ? "" : "pp", 1 + i % 37); }, 4));
    F.push_back(Family("files", 22 * 6, [](u64 i) { static const size_t sz[] = {0, 1, 700, 65535, 65536, 65537, 131072}; files(gen::pattern((int)(i / 6), sz[i % 7]), Cfg(kEncs[i % 6], "ads"[i % 3], 1 + i % 8, i % 5 == 0 ? "p" : "", i % 3 ? 1000000 : 300000)); }, 2));
    F.push_back(Family("alphabet", 256 * 5 * (T ? 6 : 1), [T](u64 i) { u64 j = T ? i / 6 : i; roundTrip(gen::alphabet(1 + (int)(j / 5), (int)(j % 5), (int)(j & 1), (int)(j % 3)), Cfg(kEncs[i % 6], "ds"[j / 5 & 1], 1 + j % 11)); }, 4));
    F.push_back(Family("runs", 40 * 40, [](u64 i) { static const size_t r[] = {1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,255,256,257,258,511,512,513,1023,1024,1025,2047,2048,4095,4096,8192,9999,10000,16384,32768,65536}; if (r[i % 40] + r[i / 40] > 30000 && i % 3) return; Bytes v(r[i % 40], 'a'); v.insert(v.end(), r[i / 40], i & 1 ? 'b' : 'Z'); roundTrip(v, Cfg(kEncs[i % 6])); }, 4));
    F.push_back(Family("options", (u64)gen::kPatterns * 6 * 2 * (T ? 10 : 3), [](u64 i) { static const unsigned st[] = {1,256,17,8,2,3,7,16,64,255}; u64 j = i; char e = kEncs[j % 6]; j /= 6; char b = "ds"[j % 2]; j /= 2; int k = (int)(j % gen::kPatterns); j /= gen::kPatterns; roundTrip(gen::pattern(k, 257 + 37 * (size_t)k), Cfg(e, b, st[j], i % 4 == 0 ? "p" : "")); }, 4));
    F.push_back(Family("starts", 256 * 2, [](u64 i) { static const size_t ln[] = {256, 257, 258, 300, 511}; roundTrip(gen::pattern((int)(i % gen::kPatterns), ln[i % 5]), Cfg("HB"[i & 1], "ds"[i / 2 & 1], 1 + (unsigned)(i / 2))); }, 4));
    // limits around the largest block size the format allows, and far above
    F.push_back(Family("memory-largest", 24 * 6, [](u64 i) {
      static const size_t m[] = {11607000000ULL, 11608000000ULL, 11608019000ULL, 11608020000ULL, 11609000000ULL, 11610000000ULL, 12000000000ULL, 100000000000ULL};
      size_t mem = i / 6 < 8 ? m[i / 6] : 11608019660ULL + (i / 6 - 8) * 6;   // 0x7ffffffe / 0.185
      roundTrip(gen::pattern(15, 300 + i), Cfg(kEncs[i % 6], "ds"[i & 1], 8, "", mem)); }, 1));
    F.push_back(Family("memory", (T ? 800 : 120) * 6, [](u64 i) { size_t mem = 6 + i / 6 * 2; roundTrip(gen::pattern((int)(i % gen::kPatterns), std::min<size_t>(mem * 2 / 3 + 3, 300)), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + i % 9, i % 4 == 3 && mem >= 20 ? "p" : "", mem)); }, 4));
    F.push_back(Family("lengths", (u64)(T ? 600 : 150) * gen::kPatterns, [](u64 i) { roundTrip(gen::pattern((int)(i % gen::kPatterns), i / gen::kPatterns), Cfg(kEncs[(i / 3) % 6], "ds"[i & 1], 1 + i % 7, i % 9 == 0 ? "p" : "")); }, 8));
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255};
    F.push_back(Family("all-ab", gen::stringsCount(2, 0, T ? 11 : 8) * 6, [](u64 i) { roundTrip(gen::stringAt(i / 6, ab, 0), Cfg(kEncs[i % 6], "ds"[i / 6 & 1])); }, 16));
    F.push_back(Family("all-3", gen::stringsCount(3, 0, T ? 7 : 5) * 6, [](u64 i) { roundTrip(gen::stringAt(i / 6, t3, 0), Cfg(kEncs[i % 6], "ds"[i / 6 & 1])); }, 16));
  }, 21);
}
