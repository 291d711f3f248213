// What the preprocess and postprocess programs do, in memory.
#ifndef MC_CONTAINER_HPP
#define MC_CONTAINER_HPP
#include "pipeline.hpp"
#include "preprocessors/Precompressor.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "PrecompressorBlock.hpp"
#include <memory>
static inline mc::Bytes preprocessBytes(const mc::Bytes& in, const std::string& prepr, size_t block) {
  mc::Bytes out; mcs::MemIn mi(in); mcs::MemOut mo(out);
  bwtc::Precompressor p(prepr);
  while (bwtc::PrecompressorBlock* b = p.readBlock(block, &mi)) {
    std::unique_ptr<bwtc::PrecompressorBlock> own(b);
    if (b->originalSize() == 0) break;
    b->writeBlockHeader(&mo, PRECOMP_COMPRESSED_SIZE);
    mo.writeBlock(b->begin(), b->end());
  }
  bwtc::PrecompressorBlock::writeEmptyHeader(&mo);
  return out;
}
static inline mc::Bytes postprocessBytes(const mc::Bytes& in) {
  mc::Bytes out; mcs::MemIn mi(in); mcs::MemOut mo(out);
  for (;;) {
    std::unique_ptr<bwtc::PrecompressorBlock> b(bwtc::PrecompressorBlock::readBlockHeader(&mi, PRECOMP_COMPRESSED_SIZE));
    if (b->size() == 0) break;
    bwtc::Postprocessor post(false, b->grammar());
    post.uncompress(b->begin(), b->size(), &mo);
  }
  return out;
}
#endif
