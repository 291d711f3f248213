// The frozen reference implementation (/verif/ref) behind a C interface; it is
// built as a shared object whose C++ symbols are hidden, so that it and the
// current tree live in one process without touching each other.
#ifndef MC_REFAPI_HPP
#define MC_REFAPI_HPP
#include <stddef.h>
struct RefResult { unsigned char* data; size_t size; char error[512]; };
extern "C" {
int ref_compress(const unsigned char* in, size_t n, char enc, char bwt, unsigned starts, const char* prepr, size_t mem, RefResult* out);
int ref_decompress(const unsigned char* in, size_t n, RefResult* out);
int ref_preprocess(const unsigned char* in, size_t n, const char* prepr, size_t block, RefResult* out);
int ref_postprocess(const unsigned char* in, size_t n, RefResult* out);
}
#endif
