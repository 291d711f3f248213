// Whole-pipeline helpers: compress and decompress in memory.
#ifndef MC_PIPELINE_HPP
#define MC_PIPELINE_HPP
#ifndef MAIN
#define MAIN
#endif
#include "globaldefs.hpp"
#include "Compressor.hpp"
#include "Decompressor.hpp"
#include "streams.hpp"
#include "gen.hpp"
struct Cfg {
  char enc, bwt; unsigned starts; std::string prepr; size_t mem;
  Cfg(char e = 'B', char b = 'a', unsigned s = 8, const std::string& p = "", size_t m = 1000000)
      : enc(e), bwt(b), starts(s), prepr(p), mem(m) {}
  std::string str() const {
    char t[128]; snprintf(t, 128, "enc=%c bwt=%c starts=%u prepr=\"%s\" mem=%zu", enc, bwt, starts, prepr.c_str(), mem); return t;
  }
};
static inline mc::Bytes compressBytes(const mc::Bytes& in, const Cfg& c, size_t* reported = 0) {
  mc::Bytes out;
  bwtc::Compressor comp(new mcs::MemIn(in), new mcs::MemOut(out), c.prepr, c.mem, c.enc);
  comp.initializeBwtAlgorithm(c.bwt, c.starts);
  size_t r = comp.compress(1);
  if (reported) *reported = r;
  return out;
}
static inline mc::Bytes decompressBytes(const mc::Bytes& in, size_t* reported = 0, size_t* consumed = 0) {
  mc::Bytes out;
  mcs::MemIn* mi = new mcs::MemIn(in);
  bwtc::Decompressor d(mi, new mcs::MemOut(out));
  size_t r = d.decompress(1);
  if (reported) *reported = r;
  if (consumed) *consumed = mi->pos();
  return out;
}
static inline void checkSame(const mc::Bytes& want, const mc::Bytes& got, const Cfg& c) {
  if (want == got) return;
  size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  mc::fail("round trip differs at byte %zu (original %zu bytes, restored %zu) %s", i, want.size(), got.size(), c.str().c_str());
}
static inline void roundTrip(const mc::Bytes& in, const Cfg& c) {
  mc::note("%s input=%s", c.str().c_str(), mc::hex(in).c_str());
  mc::Bytes z = compressBytes(in, c);
  mc::Bytes back = decompressBytes(z);
  mc::step(2);
  checkSame(in, back, c);
  mc::state(mc::hashBytes(z.data(), z.size()));
}
#ifndef MC_BLOCKS_HPP
static const char* const kEncs = "HmMubB";
#endif
#endif
