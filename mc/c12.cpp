// C12: operation sequences on the real file streams against a flat model.
#define MAIN
#include "globaldefs.hpp"
#include "Streams.hpp"
#include "streams.hpp"
#include "gen.hpp"
#include <map>
#include <memory>
#include <sys/stat.h>
using mc::Bytes; using mc::u64; using mc::u8; using mc::Family;

static std::string scratch() { static std::string d; static pid_t owner = 0; if (owner != getpid()) { char b[64]; snprintf(b, 64, "/s%d.", (int)getpid()); d = mc::opt.errDir + b; owner = getpid(); } return d; }
static Bytes slurp(const std::string& p, long base = 0) {
  Bytes v; FILE* f = fopen(p.c_str(), "r"); MC_CHECK(f, "output file is missing");
  fseek(f, 0, SEEK_END); if (ftell(f) < base) { fclose(f); return v; } v.resize((size_t)(ftell(f) - base)); fseek(f, base, SEEK_SET); size_t n = v.empty() ? 0 : fread(&v[0], 1, v.size(), f); fclose(f); MC_CHECK(n == v.size(), "short read"); return v;
}
struct Out {
  enum { kOps = 15 };
  static const char* name(int o) { static const char* n[kOps] = {"byte", "block0", "block1", "block5", "block65530", "block65535", "block65536", "block65537", "block131072", "flush", "reserve", "patch-last", "patch-first", "getPos", "bytes6"}; return n[o]; }
  std::unique_ptr<bwtc::RawOutStream> s; Bytes m; std::vector<std::pair<long, long> > res; u8 next; std::string path; u64 val; int kind; long base;
  // kind 0: named file; 1: standard output, a file that is already `b` bytes long; 2: the same opened for appending
  explicit Out(const std::string& p, int k = 0, long b = 0) : next(1), path(p), val(0x123456789abcULL), kind(k), base(b) {
    if (k) {
      if (k == 2) { FILE* f = fopen(p.c_str(), "w"); MC_CHECK(f, "cannot create the output file"); fclose(f); if (b) MC_CHECK(truncate(p.c_str(), b) == 0, "truncate"); }
      MC_CHECK(freopen(p.c_str(), k == 2 ? "a" : "w", stdout), "cannot redirect standard output");
      if (k == 1 && b) MC_CHECK(fseek(stdout, b, SEEK_SET) == 0, "fseek");
    }
    s.reset(new bwtc::RawOutStream(k ? "" : p));
  }
  void pos(long p) { if (kind < 2) MC_CHECK(p == base + (long)m.size(), "position %ld reported after %ld+%zu bytes", p, base, m.size()); }
  u8 gen() { next = (u8)(next * 5 + 3); return next; }
  void bytes(int n) { for (int i = 0; i < n; ++i) { u8 c = gen(); s->writeByte(c); m.push_back(c); } }
  void block(size_t n) { Bytes b(n + 1); for (size_t i = 0; i < n; ++i) b[i] = gen() ^ (u8)(i >> 8); s->writeBlock(&b[0], &b[0] + n); m.insert(m.end(), b.begin(), b.begin() + n); }
  void patch(std::pair<long, long> r) { long p = r.second; s->write48bits(val, r.first); for (int i = 0; i < 6; ++i) m[p + i] = (u8)(val >> (8 * (5 - i))); val = (val * 3 + 0x800000000001ULL) & 0xffffffffffffULL; }
  void op(int o) {
    static const size_t sz[] = {0, 1, 5, 65530, 65535, 65536, 65537, 131072};
    mc::step();
    if (o == 0) bytes(1);
    else if (o <= 8) block(sz[o - 1]);
    else if (o == 9) s->flush();
    else if (o == 10) { long p = s->getPos(); pos(p); res.push_back(std::make_pair(p, (long)m.size())); for (int i = 0; i < 6; ++i) { s->writeByte(0); m.push_back(0); } }
    else if (o == 11) { if (!res.empty()) patch(res.back()); }
    else if (o == 12) { if (!res.empty()) patch(res.front()); }
    else if (o == 13) pos(s->getPos());
    else bytes(6);
  }
  void finish() {
    s.reset(); Bytes f = slurp(path, base); if (kind) { FILE* n = freopen("/dev/null", "w", stdout); (void)n; } unlink(path.c_str());
    if (f != m) { size_t i = 0; while (i < f.size() && i < m.size() && f[i] == m[i]) ++i; mc::fail("file differs from what was written at byte %zu (file %zu bytes, written %zu)", i, f.size(), m.size()); }
    mc::state(mc::hashBytes(m.data(), m.size()));
  }
};
static void outSeq(u64 i, int depth, int prefill, bool viaBlock, int kind = 0, long base = 0) {
  std::string p = scratch() + "o"; Out o(p, kind, base);
  mc::note("output %s, %ld bytes before: %d bytes, then", kind == 0 ? "named file" : kind == 1 ? "standard output" : "appending", base, prefill);
  if (viaBlock) { for (int k = prefill; k > 0; k -= 1000) o.block(k < 1000 ? k : 1000); } else o.bytes(prefill);
  for (int k = 0; k < depth; ++k) { mc::note("%s", Out::name((int)(i % Out::kOps))); o.op((int)(i % Out::kOps)); i /= Out::kOps; }
  o.finish();
}

static const Bytes& content(size_t n, std::string& path) {
  static std::map<size_t, std::pair<Bytes, std::string> > c; static pid_t owner = 0;
  if (owner != getpid()) { c.clear(); owner = getpid(); }
  auto& e = c[n];
  if (e.second.empty()) {
    char t[32]; snprintf(t, 32, "i%zu", n); e.second = scratch() + t; e.first = gen::pattern(8, n);
    FILE* f = fopen(e.second.c_str(), "w"); MC_CHECK(f, "cannot create the input file"); if (n) { size_t w = fwrite(&e.first[0], 1, n, f); MC_CHECK(w == n, "short write"); } fclose(f);
  }
  path = e.second; return e.first;
}
struct In {
  enum { kOps = 11 };
  static const char* name(int o) { static const char* n[kOps] = {"readByte", "bit", "3 bits", "7 bits", "9 bits", "realign", "readBlock(0)", "readBlock(1)", "readBlock(7)", "readBlock(65536)", "read48bits"}; return n[o]; }
  bwtc::RawInStream s; const Bytes& d; mcs::MemIn m; size_t at;
  In(const std::string& p, const Bytes& c) : s(p), d(c), m(d, false), at(0) {}
  size_t left() const { return d.size() * 8 - std::min(m.bit, d.size() * 8); }
  void ending() {
    if (m.bit & 7) return;
    size_t l = left() / 8;
    if (l == 1) return;   // documented: the last byte may already be reported as the end
    bool e = s.compressedDataEnding(); MC_CHECK(e == (l == 0), "end of data reported as %d with %zu bytes left", (int)e, l);
  }
  void block(size_t n) {
    s.flushBuffer(); m.flushBuffer();
    Bytes a(n + 8, 0xEE), b(n + 8, 0xEE); size_t x = s.readBlock(&a[0], n), y = m.readBlock(&b[0], n);
    MC_CHECK(x == y, "readBlock(%zu) returned %zu bytes instead of %zu at byte %zu", n, x, y, at);
    MC_CHECK(memcmp(&a[0], &b[0], y) == 0, "readBlock(%zu) returned other bytes at byte %zu", n, at);
    for (size_t i = n; i < a.size(); ++i) MC_CHECK(a[i] == 0xEE, "readBlock wrote behind the buffer");
  }
  void bits(int n) { for (int i = 0; i < n && left(); ++i) { bool x = s.readBit(), y = m.readBit(); MC_CHECK(x == y, "bit %zu read as %d", m.bit - 1, (int)x); } }
  void op(int o) {
    mc::step(); at = m.bit / 8;
    if (o == 0) { if (left() >= 8) { unsigned x = s.readByte(), y = m.readByte(); MC_CHECK(x == y, "byte at bit %zu read as %02x instead of %02x", m.bit - 8, x, y); } }
    else if (o == 1) bits(1); else if (o == 2) bits(3); else if (o == 3) bits(7); else if (o == 4) bits(9);
    else if (o == 5) { s.flushBuffer(); m.flushBuffer(); }
    else if (o == 6) block(0); else if (o == 7) block(1); else if (o == 8) block(7); else if (o == 9) block(65536);
    else { s.flushBuffer(); m.flushBuffer(); if (left() >= 48) { u64 x = s.read48bits(), y = m.read48bits(); MC_CHECK(x == y, "48 bits at byte %zu read as %llx instead of %llx", at, (unsigned long long)x, (unsigned long long)y); } }
    ending();
  }
  void drain() { block(d.size() + 10); MC_CHECK(s.readBlock((bwtc::byte*)&at, 4) == 0, "data after the end"); ending(); }
};
static void inSeq(u64 i, int depth, size_t size, size_t skip) {
  std::string p; const Bytes& c = content(size, p); In s(p, c);
  mc::note("input: file of %zu bytes, skip %zu, then", size, skip);
  s.ending(); if (skip) s.block(skip);
  u64 h = mc::mix(size * 31 + skip);
  for (int k = 0; k < depth; ++k) { mc::note("%s", In::name((int)(i % In::kOps))); s.op((int)(i % In::kOps)); i /= In::kOps; h = mc::mix(h ^ s.m.bit); mc::state(h); }
  s.drain();
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    static int od, id; od = T ? 4 : 3; id = T ? 5 : 4;
    static u64 ON, IN; ON = 1; for (int i = 0; i < od; ++i) ON *= Out::kOps; IN = 1; for (int i = 0; i < id; ++i) IN *= In::kOps;
    // sequences that start at every position around the end of the buffer
    F.push_back(Family("output-at-boundary", ON * 9, [](u64 i) { static const int pre[] = {65525, 65529, 65530, 65531, 65534, 65535, 65536, 65537, 65540}; outSeq(i / 9, od, pre[i % 9], true); }));
    // standard output, positions beyond 2^31 and 2^32, and targets that cannot be rewritten
    F.push_back(Family("output-attached", ON * 7, [](u64 i) {
      static const long base[] = {0, 11, 0x7ffffff0L, 0xfffffff0L, 0x1fffffff0L, 0, 13}; int k = (int)(i % 7); u64 j = i / 7;
      outSeq(j, od, j % 3 == 0 ? 0 : j % 3 == 1 ? 65530 : 65536, true, k < 5 ? 1 : 2, base[k]); }));
    F.push_back(Family("output-from-start", ON * Out::kOps, [](u64 i) { outSeq(i, od + 1, 0, false); }));
    F.push_back(Family("output-bytewise", 140 * 6, [](u64 i) { std::string p = scratch() + "o"; Out o(p); int n = (int)(i / 6); static const int base[] = {0, 65466, 131002, 196538}; mc::note("bytewise"); if (i % 6 < 4) { o.bytes(base[i % 6] + n); } else { o.op(10); o.bytes(65400 + n); o.op(i % 6 == 4 ? 11 : 10); o.bytes(20); o.op(12); } o.finish(); }));
    static const size_t sz[][2] = {{0, 0}, {1, 0}, {2, 0}, {5, 0}, {6, 0}, {7, 0}, {64, 0}, {65535, 65526}, {65536, 65530}, {65536, 65535}, {65537, 65530}, {65537, 65535}, {65538, 65533}, {131072, 65530}, {131072, 65535}, {131072, 65536}, {131073, 131068}, {200000, 65534}};
    F.push_back(Family("input", IN * 18, [](u64 i) { inSeq(i / 18, id, sz[i % 18][0], sz[i % 18][1]); }));
    // every file size around the buffer size, read in every chunk size
    F.push_back(Family("chunks", 14 * 12 * 3, [](u64 i) {
      static const size_t ck[] = {1, 2, 3, 5, 7, 6, 64, 4096, 65535, 65536, 65537, 100000, 131072, 300000}; size_t n = 65536 * (1 + i / 168) + (i / 14 % 12) - 6, k = ck[i % 14];
      std::string p; const Bytes& c = content(n, p); In s(p, c); mc::note("file of %zu bytes in chunks of %zu", n, k);
      while (s.left()) { s.block(k); s.ending(); mc::step(); } s.drain(); }));
    F.push_back(Family("bitwise", 24, [](u64 i) {
      std::string p; const Bytes& c = content(65530 + i, p); In s(p, c); mc::note("file of %zu bytes bit by bit", (size_t)(65530 + i));
      s.bits((int)(i % 8)); while (s.left() >= 24) { s.op(0); s.bits(5 + (int)(i % 3)); } s.drain(); }));
  });
}
