// Compiled against /verif/ref only.
#include "container.hpp"
#include "refapi.hpp"
#define EXPORT __attribute__((visibility("default")))
template <typename F> static int guarded(RefResult* out, F f) {
  out->data = 0; out->size = 0; out->error[0] = 0;
  try {
    mc::Bytes r = f();
    out->size = r.size(); out->data = (unsigned char*)malloc(r.size() + 1); memcpy(out->data, r.data(), r.size());
    return 0;
  } catch (mc::Fail& e) { snprintf(out->error, sizeof out->error, "%s", e.msg.c_str()); }
  catch (std::exception& e) { snprintf(out->error, sizeof out->error, "exception: %s", e.what()); }
  catch (...) { snprintf(out->error, sizeof out->error, "unknown exception"); }
  return 1;
}
extern "C" {
EXPORT int ref_compress(const unsigned char* in, size_t n, char enc, char bwt, unsigned starts, const char* prepr, size_t mem, RefResult* out) {
  return guarded(out, [&] { return compressBytes(mc::Bytes(in, in + n), Cfg(enc, bwt, starts, prepr, mem)); });
}
EXPORT int ref_decompress(const unsigned char* in, size_t n, RefResult* out) {
  return guarded(out, [&] { return decompressBytes(mc::Bytes(in, in + n)); });
}
EXPORT int ref_preprocess(const unsigned char* in, size_t n, const char* prepr, size_t block, RefResult* out) {
  return guarded(out, [&] { return preprocessBytes(mc::Bytes(in, in + n), prepr, block); });
}
EXPORT int ref_postprocess(const unsigned char* in, size_t n, RefResult* out) {
  return guarded(out, [&] { return postprocessBytes(mc::Bytes(in, in + n)); });
}
}
