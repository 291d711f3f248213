// Block-level helpers: encode and decode single blocks with the real coders.
#ifndef MC_BLOCKS_HPP
#define MC_BLOCKS_HPP
#define MAIN
#include "globaldefs.hpp"
#include "EntropyCoders.hpp"
#include "bwtransforms/BWTManager.hpp"
#include "bwtransforms/InverseBWT.hpp"
#include "BWTBlock.hpp"
#include "streams.hpp"
#include "gen.hpp"
#include <memory>
static const char* const kEncs = "HmMubB";

struct Encoder {
  std::unique_ptr<bwtc::EntropyEncoder> e; bwtc::BWTManager m;
  Encoder(char enc, char bwt, unsigned starts) : e(bwtc::giveEntropyEncoder(enc)) { m.initialize(bwt); m.setStartingPoints(starts); }
  // appends the coded block to out; returns the size the encoder claims
  size_t block(const mc::Bytes& data, mcs::MemOut& out, mc::Bytes* transformed = 0) {
    mc::Bytes buf(data); buf.push_back(0x5A);
    bwtc::BWTBlock b(&buf[0], (bwtc::uint32)data.size(), false);
    size_t r = e->transformAndEncode(b, m, &out);
    MC_CHECK(b.size() == data.size(), "encoding changed the block size");
    if (transformed) transformed->assign(buf.begin(), buf.begin() + data.size());
    return r;
  }
};
struct Decoder {
  std::unique_ptr<bwtc::EntropyDecoder> d; std::unique_ptr<bwtc::InverseBWTransform> inv;
  explicit Decoder(char enc) : d(bwtc::giveEntropyDecoder(enc)), inv(bwtc::giveInverseTransformer()) {}
  // decodes the next block; room is what the caller knows as its size
  mc::Bytes block(mcs::MemIn& in, size_t room, mc::Bytes* transformed = 0) {
    mc::Bytes buf(room + 1 + 64, 0xEE);
    bwtc::BWTBlock b; b.setBegin(&buf[0]); b.setSize((bwtc::uint32)room);
    d->decodeBlock(b, &in);
    MC_CHECK(b.size() == room, "decoded block has %u bytes instead of %zu", (unsigned)b.size(), room);
    for (size_t i = room + 1; i < buf.size(); ++i) MC_CHECK(buf[i] == 0xEE, "decoder wrote %zu bytes behind the block", i - room);
    if (transformed) transformed->assign(buf.begin(), buf.begin() + room);
    inv->doTransform(b);
    for (size_t i = room + 1; i < buf.size(); ++i) MC_CHECK(buf[i] == 0xEE, "inverse transform wrote %zu bytes behind the block", i - room);
    buf.resize(room); return buf;
  }
};
static inline void same(const char* what, const mc::Bytes& want, const mc::Bytes& got) {
  if (want == got) return;
  size_t i = 0; while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  mc::fail("%s differs at byte %zu of %zu (got %zu bytes): %s", what, i, want.size(), got.size(), mc::hex(want, 48).c_str());
}
#endif
