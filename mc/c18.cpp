// C18: an independent reader of the container follows the stored sizes.
#include "pipeline.hpp"
#include "prep.hpp"
#ifndef MC_REDUCED
#include "EntropyCoders.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "BWTBlock.hpp"
#include "preprocessors/Grammar.hpp"
#include "preprocessors/Postprocessor.hpp"
#endif
#include <memory>
using mc::Bytes; using mc::u64; using mc::u8; using mc::Family;

struct Reader {
  const Bytes& z; size_t p; explicit Reader(const Bytes& b) : z(b), p(0) {}
  u8 byte() { MC_CHECK(p < z.size(), "container ends at byte %zu", p); return z[p++]; }
  u64 packed() { u64 r = 0; int s = 0; u8 b; do { b = byte(); r |= (u64)(b & 127) << s; s += 7; } while (b & 128); return r; }
  u64 be48() { u64 r = 0; for (int i = 0; i < 6; ++i) r = r << 8 | byte(); return r; }
};
static void follow(const Bytes& in, const Bytes& z, const Cfg& c) {
  Reader r(z); u8 e = r.byte(); MC_CHECK(e == (u8)c.enc, "stored coder is %02x", e);
  size_t total = 0, supers = 0;
#ifndef MC_REDUCED
  std::unique_ptr<bwtc::InverseBWTransform> inv(bwtc::giveInverseTransformer());
  std::unique_ptr<bwtc::EntropyDecoder> d(bwtc::giveEntropyDecoder((char)e));
#endif
  for (;;) {
    u64 orig = r.packed(); if (!orig) break;
    ++supers; u64 slices = r.packed(); MC_CHECK(slices >= 1, "a superblock with %llu bytes has no blocks", (unsigned long long)orig);
    MC_CHECK(total + orig <= in.size(), "stored original sizes exceed the input (%zu)", in.size());
#ifdef MC_REDUCED
    u64 rules = r.packed();
    if (rules) {
      for (int n = r.byte(); n > 0; --n) r.byte();
      std::vector<bool> large; for (u64 k = 0; k < rules; k += 8) { u8 f = r.byte(); for (int q = 7; q >= 0 && large.size() < rules; --q) large.push_back(f >> q & 1); }
      for (bool l : large) { r.byte(); if (l) r.byte(); }
      for (int n = r.byte(); n > 0; --n) r.byte();
      size_t sum = 0, left = rules; for (u64 k = 0; k < rules; k += 4) { u8 f = r.byte(); for (int q = 6; q >= 0 && left; q -= 2, --left) sum += 2 + (f >> q & 3); }
      while (sum--) r.byte();
    }
#else
    bwtc::Grammar g; { mcs::MemIn gi(z); gi.bit = r.p * 8; g.readGrammar(&gi); r.p = gi.pos(); }
#endif
    // find all blocks by their length fields alone
    std::vector<std::pair<size_t, size_t> > at;
    for (u64 s = 0; s < slices; ++s) { size_t b = r.p; u64 len = r.be48(); MC_CHECK(len > 0 && len <= z.size() - r.p, "block %llu of superblock %zu has length field %llu, %zu bytes are left", (unsigned long long)s, supers, (unsigned long long)len, z.size() - r.p); r.p += (size_t)len; at.push_back(std::make_pair(b, r.p)); mc::step(); }
#ifndef MC_REDUCED
    // decode each block from its own bytes; the models carry on from block to block
    std::vector<Bytes> parts(slices);
    for (u64 s = 0; s < slices; ++s) {
      Bytes one(z.begin() + at[s].first, z.begin() + at[s].second); size_t own = one.size(); one.push_back(0x3C); one.push_back(0x99);
      mcs::MemIn bi(one);
      Bytes buf(orig + 80, 0xEE); bwtc::BWTBlock b; b.setBegin(&buf[0]);
      d->decodeBlock(b, &bi);
      MC_CHECK(bi.pos() == own, "block %llu of superblock %zu: stored length %zu, decoding it takes %zu bytes", (unsigned long long)s, supers, own - 6, bi.pos() - 6);
      MC_CHECK(b.size() >= 1 && b.size() <= orig, "block %llu decodes to %u bytes, the superblock has %llu", (unsigned long long)s, (unsigned)b.size(), (unsigned long long)orig);
      inv->doTransform(b); buf.resize(b.size()); parts[s].swap(buf); mc::step();
    }
    Bytes all; for (auto& p : parts) all.insert(all.end(), p.begin(), p.end());
    if (c.prepr.empty()) MC_CHECK(all.size() == orig, "blocks of superblock %zu hold %zu bytes, stored original size is %llu", supers, all.size(), (unsigned long long)orig);
    size_t n = all.size(); all.push_back(0); Bytes back; std::unique_ptr<bwtc::Postprocessor> pp(new bwtc::Postprocessor(false, g)); pp->uncompress(&all[0], n, back);
    MC_CHECK(back.size() == orig, "superblock %zu expands to %zu bytes, stored original size is %llu", supers, back.size(), (unsigned long long)orig);
    MC_CHECK(std::equal(back.begin(), back.end(), in.begin() + total), "superblock %zu holds other data", supers);
#endif
    total += orig; mc::state(mc::hashBytes(&z[0], r.p, slices));
  }
  MC_CHECK(total == in.size(), "stored original sizes add up to %zu instead of %zu", total, in.size());
  MC_CHECK(r.p == z.size(), "%zu bytes follow the end marker", z.size() - r.p);
}
static void check(const Bytes& in, const Cfg& c, bool dec = true) {
  mc::note("%s input (%zu bytes) %s", c.str().c_str(), in.size(), mc::hex(in, 40).c_str());
  size_t rep = 0; Bytes z = compressBytes(in, c, &rep); mc::step();
  MC_CHECK(rep == z.size(), "%zu compressed bytes reported, %zu written (%s)", rep, z.size(), c.str().c_str());
  follow(in, z, c);
  if (dec) { size_t n = 0, used = 0; Bytes b = decompressBytes(z, &n, &used); MC_CHECK(n == in.size(), "%zu decompressed bytes reported, the original has %zu", n, in.size()); MC_CHECK(used == z.size(), "decompression used %zu of %zu bytes", used, z.size()); }
}
static std::string path(const char* n) { char b[64]; snprintf(b, 64, "/f%d.%s", (int)getpid(), n); return mc::opt.errDir + b; }
static Bytes slurp(const std::string& p) { Bytes v; FILE* f = fopen(p.c_str(), "r"); MC_CHECK(f, "missing file"); int ch; while ((ch = getc(f)) != EOF) v.push_back((u8)ch); fclose(f); return v; }
// the same through the real file streams
static void files(const Bytes& in, const Cfg& c) {
  mc::note("files: %s input (%zu bytes)", c.str().c_str(), in.size());
  std::string a = path("in"), b = path("z"), d = path("out");
  { FILE* f = fopen(a.c_str(), "w"); MC_CHECK(f, "scratch"); if (!in.empty()) { size_t w = fwrite(&in[0], 1, in.size(), f); MC_CHECK(w == in.size(), "scratch"); } fclose(f); }
  size_t rep, rd;
  { bwtc::Compressor k(a, b, c.prepr, c.mem, c.enc); k.initializeBwtAlgorithm(c.bwt, c.starts); rep = k.compress(1); }
  Bytes z = slurp(b); MC_CHECK(rep == z.size(), "%zu compressed bytes reported, the file has %zu (%s)", rep, z.size(), c.str().c_str());
  follow(in, z, c);
  { bwtc::Decompressor k(b, d); rd = k.decompress(1); }
  Bytes o = slurp(d); MC_CHECK(o == in, "file round trip differs (%s)", c.str().c_str()); MC_CHECK(rd == in.size(), "%zu decompressed bytes reported, the original has %zu", rd, in.size());
  unlink(a.c_str()); unlink(b.c_str()); unlink(d.c_str()); mc::step(2);
}

#ifndef MC_REDUCED
// a superblock that stands for more than 4 GB, as repeated pair replacement of a
// long run leaves it: every rule doubles the one before
struct CountOut : bwtc::OutStream {
  u64 n; static u64 total; CountOut() : n(0) {}
  void writeByte(bwtc::byte b) { MC_CHECK(b == 'r', "restored byte %llu is %02x", (unsigned long long)n, b); ++n; total = n; }
  void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { size_t k = e - b; if (k) MC_CHECK(*b == 'r' && memcmp(b, b + 1, k - 1) == 0, "restored block at byte %llu is wrong", (unsigned long long)n); n += k; total = n; }
  long int getPos() { return (long)n; } void write48bits(bwtc::uint64, long int) { mc::fail("a length is patched into decompressed data"); } void flush() {}
};
u64 CountOut::total = 0;
static void doubled(int rules, size_t tokens, size_t tail, char enc, int supers) {
  mc::note("%d doubling rules, %zu tokens and %zu plain bytes, coder %c", rules, tokens, tail, enc);
  u64 want = ((u64)tokens << rules) + tail; Bytes z; mcs::MemOut out(z); size_t rep = 1; out.writeByte((u8)enc);
  std::unique_ptr<bwtc::EntropyEncoder> e(bwtc::giveEntropyEncoder(enc)); bwtc::BWTManager m; m.initialize('d'); m.setStartingPoints(4);
  for (int s = 0; s < supers; ++s) {
    bwtc::PrecompressorBlock pb((size_t)want); Bytes d(tokens, (u8)(rules ? rules : 'r')); d.insert(d.end(), tail, 'r');
    memcpy(pb.begin(), &d[0], d.size()); pb.setSize(d.size());
    for (int k = 1; k <= rules; ++k) { u8 prev = k == 1 ? 'r' : (u8)(k - 1); pb.grammar().beginUpdatingRules(); pb.grammar().addRule((u8)k, prev, prev); std::vector<bwtc::byte> none; std::vector<bwtc::uint16> np; pb.grammar().expandAlphabet(none, none, np); pb.grammar().endUpdatingRules(std::vector<bwtc::byte>(1, (u8)k)); }
    pb.sliceIntoBlocks(d.size()); rep += pb.writeBlockHeader(&out);
    for (size_t i = 0; i < pb.slices(); ++i) rep += e->transformAndEncode(pb.getSlice((int)i), m, &out);
    Reader r(z); mc::step();
  }
  rep += bwtc::PrecompressorBlock::writeEmptyHeader(&out);
  MC_CHECK(rep == z.size(), "%zu bytes reported, %zu written", rep, z.size());
  { Reader r(z); r.byte(); u64 o = r.packed(); MC_CHECK(o == want, "stored original size is %llu instead of %llu", (unsigned long long)o, (unsigned long long)want); }
  CountOut::total = 0; bwtc::Decompressor dec(new mcs::MemIn(z), new CountOut); size_t n = dec.decompress(1);
  MC_CHECK(n == want * supers && CountOut::total == want * supers, "%zu decompressed bytes reported, %llu written, the original has %llu", n, (unsigned long long)CountOut::total, (unsigned long long)(want * supers));
  mc::step(); mc::state(mc::hashBytes(&z[0], z.size()));
}
#endif
int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
#ifndef MC_REDUCED
    F.push_back(Family("doubling-rules", T ? 48 : 10, [](u64 i) {
      static const int ru[] = {22, 21, 3, 22, 20}; static const size_t tk[] = {1025, 1024, 1000, 520, 5000};
      doubled(ru[i % 5], tk[i % 5], i % 3 ? 7 + i : 0, kEncs[i % 6], i % 5 == 3 ? 2 : 1); }, 1));
#endif
    F.push_back(Family("long-block", T ? 6 : 1, [](u64 i) { check(gen::pattern(8, 17200000), Cfg(kEncs[i], 'd', 8, "", 100000000), false); }, 1));
    F.push_back(Family("large", 6 * 5, [](u64 i) { static const int pt[] = {8, 15, 9, 6, 4}; check(gen::pattern(pt[i / 6], 700000), Cfg(kEncs[i % 6], "ds"[i & 1], 8, i / 6 == 1 ? "pp" : "", i % 2 ? 1200000 : 20000000)); }, 1));
    F.push_back(Family("prepr", 6 * 20 * (T ? 5 : 1), [](u64 i) { u64 j = i / 6; prep::Spec s = {1 + (int)(j % 5) * 2, 1050 + 300 * (int)(j % 3), 188 + (int)(j % 5), 1 + (int)(j % 4), (int)(j / 5 % 4), (int)(j / 3 % 5), (int)(j % 5), (int)j}; Bytes v = prep::make(s); check(v, Cfg(kEncs[i % 6], 'a', 1 + i % 9, j & 1 ? "ppp" : "p", j % 3 ? 1000000 : v.size() * 3 / 4)); }, 2));
    F.push_back(Family("files", (u64)gen::kPatterns * 6 * 5, [](u64 i) { static const size_t sz[] = {0, 1, 1000, 65536, 140000}; u64 j = i / 6; files(gen::pattern((int)(j % gen::kPatterns), sz[j / gen::kPatterns]), Cfg(kEncs[i % 6], "ads"[i % 3], 1 + i % 8, i % 5 == 0 ? "p" : "", i % 3 ? 1000000 : 200000)); }, 2));
    F.push_back(Family("alphabet", 256 * 5 * (T ? 6 : 2), [T](u64 i) { u64 k = T ? 6 : 2, j = i / k; check(gen::alphabet(1 + (int)(j / 5), (int)(j % 5), (int)(j & 1), (int)(j % 3)), Cfg(T ? kEncs[i % 6] : (i & 1 ? kEncs[1 + j % 5] : 'H'), 'a', 1 + j % 11)); }, 8));
    F.push_back(Family("limits", (u64)(T ? 2000 : 500) * 6, [](u64 i) { size_t mem = 6 + i / 6 * 3; check(gen::pattern((int)(i % gen::kPatterns), std::min<size_t>(mem * 2, 1500) + i % 5), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + i % 7, i % 5 == 4 && mem >= 20 ? "p" : "", mem)); }, 8));
    F.push_back(Family("starts", 256 * 6, [](u64 i) { check(gen::pattern((int)(i % gen::kPatterns), 700 + i % 40), Cfg(kEncs[i % 6], "ds"[i & 1], 1 + (unsigned)(i / 6))); }, 8));
    F.push_back(Family("lengths", (u64)(T ? 1500 : 300) * 11 * 2, [](u64 i) { check(gen::pattern((int)(i / 2 % 11) * 2 + (i & 1), i / 22), Cfg(i & 1 ? kEncs[1 + i / 2 % 5] : 'H', "ads"[i % 3], 1 + i % 7)); }, 16));
    static const std::vector<unsigned char> ab = {'a', 'b'}, t3 = {0, 1, 255};
    F.push_back(Family("all-ab", gen::stringsCount(2, 0, T ? 12 : 9) * 6, [](u64 i) { check(gen::stringAt(i / 6, ab, 0), Cfg(kEncs[i % 6])); }));
    F.push_back(Family("all-3", gen::stringsCount(3, 0, T ? 8 : 6) * 6, [](u64 i) { check(gen::stringAt(i / 6, t3, 0), Cfg(kEncs[i % 6], "ds"[i & 1], 1, "", i % 7 ? 1000000 : 18)); }));
  });
}
