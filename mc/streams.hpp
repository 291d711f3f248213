// In-memory streams with the bit semantics of the library's file streams.
#ifndef MC_STREAMS_HPP
#define MC_STREAMS_HPP
#include "Streams.hpp"
#include "mc.hpp"
namespace mcs {
using mc::Bytes;
struct MemOut : public bwtc::OutStream {
  Bytes& d; long base;    // base: what the position is counted from
  explicit MemOut(Bytes& v, long b = 0) : d(v), base(b) {}
  void writeByte(bwtc::byte b) { d.push_back(b); }
  void writeBlock(const bwtc::byte* b, const bwtc::byte* e) { d.insert(d.end(), b, e); }
  long int getPos() { return base + (long)d.size(); }
  void write48bits(bwtc::uint64 v, long int p) {
    MC_CHECK((v >> 48) == 0, "length field exceeds 48 bits");
    p -= base;
    MC_CHECK(p >= 0 && (size_t)p + 6 <= d.size(), "length field patched outside of the written data");
    for (int i = 0; i < 6; ++i) d[p + i] = (bwtc::byte)(v >> (8 * (5 - i)));
  }
  void flush() {}
};
struct MemIn : public bwtc::InStream {
  const Bytes& d; size_t bit; bool strict; size_t over;
  explicit MemIn(const Bytes& v, bool s = true) : d(v), bit(0), strict(s), over(0) {}
  size_t pos() const { return (bit + 7) / 8; }
  bool readBit() {
    size_t by = bit >> 3;
    bool r;
    if (by >= d.size()) { if (strict) mc::fail("decoder reads past the end of the compressed data (%zu bytes)", d.size()); ++over; if (over > 1000000) mc::fail("decoder keeps reading past the end"); r = true; }
    else r = (d[by] >> (7 - (bit & 7))) & 1;
    ++bit; return r;
  }
  bwtc::byte readByte() {
    if ((bit & 7) == 0 && (bit >> 3) < d.size()) { bwtc::byte b = d[bit >> 3]; bit += 8; return b; }
    unsigned r = 0; for (int i = 0; i < 8; ++i) r = r * 2 + readBit(); return (bwtc::byte)r;
  }
  size_t readBlock(bwtc::byte* to, size_t m) {
    flushBuffer(); size_t p = bit >> 3, n = p < d.size() ? std::min(m, d.size() - p) : 0;
    if (n) memcpy(to, &d[p], n);
    bit += n * 8; return n;
  }
  void flushBuffer() { bit = (bit + 7) & ~(size_t)7; }
  bwtc::uint64 read48bits() { bwtc::uint64 r = 0; for (int i = 0; i < 6; ++i) r = r << 8 | readByte(); return r; }
  bool compressedDataEnding() { return (bit >> 3) >= d.size(); }
};
}  // namespace mcs
#endif
