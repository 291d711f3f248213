// Reference Burrows-Wheeler transform: suffix sorting by definition for short
// texts, by prefix doubling for long ones. Independent of the library.
#ifndef MC_BWTREF_HPP
#define MC_BWTREF_HPP
#include "mc.hpp"
#include <algorithm>
#include <numeric>
namespace ref {
using mc::Bytes;
// order of the suffixes of t + end marker (marker smaller than every byte)
static inline std::vector<uint32_t> suffixArray(const Bytes& t) {
  uint32_t N = (uint32_t)t.size() + 1;
  std::vector<uint32_t> sa(N); std::iota(sa.begin(), sa.end(), 0u);
  if (N <= 48) {
    const Bytes* p = &t;
    std::sort(sa.begin(), sa.end(), [p](uint32_t a, uint32_t b) {
      size_t la = p->size() - a, lb = p->size() - b, m = std::min(la, lb);
      int c = m ? memcmp(p->data() + a, p->data() + b, m) : 0;
      return c ? c < 0 : la < lb; });
    return sa;
  }
  std::vector<uint32_t> rk(N), tmp(N), cnt, sa2(N);
  for (uint32_t i = 0; i + 1 < N; ++i) rk[i] = t[i] + 1u;
  rk[N - 1] = 0;
  std::stable_sort(sa.begin(), sa.end(), [&](uint32_t a, uint32_t b) { return rk[a] < rk[b]; });
  tmp[sa[0]] = 0;
  for (uint32_t i = 1; i < N; ++i) tmp[sa[i]] = tmp[sa[i - 1]] + (rk[sa[i]] != rk[sa[i - 1]]);
  rk.swap(tmp);
  for (uint32_t h = 1; rk[sa[N - 1]] != N - 1; h <<= 1) {
    uint32_t k = 0;
    for (uint32_t i = N - std::min(h, N); i < N; ++i) sa2[k++] = i;
    for (uint32_t i = 0; i < N; ++i) if (sa[i] >= h) sa2[k++] = sa[i] - h;
    cnt.assign(N + 1, 0);
    for (uint32_t i = 0; i < N; ++i) ++cnt[rk[i] + 1];
    for (uint32_t i = 1; i <= N; ++i) cnt[i] += cnt[i - 1];
    for (uint32_t i = 0; i < N; ++i) sa[cnt[rk[sa2[i]]]++] = sa2[i];
    tmp[sa[0]] = 0;
    for (uint32_t i = 1; i < N; ++i) {
      uint32_t a = sa[i], b = sa[i - 1];
      uint32_t ra = a + h < N ? rk[a + h] + 1 : 0, rb = b + h < N ? rk[b + h] + 1 : 0;
      tmp[a] = tmp[b] + (rk[a] != rk[b] || ra != rb);
    }
    rk.swap(tmp);
  }
  return sa;
}
struct Bwt {
  Bytes last;                    // last column, N bytes; the marker's row holds 0
  uint32_t eob;                  // row of the marker
  std::vector<uint32_t> rankOf;  // row of the suffix starting at a position
};
static inline Bwt transform(const Bytes& t) {
  Bwt r; std::vector<uint32_t> sa = suffixArray(t);
  uint32_t N = (uint32_t)sa.size(); r.last.resize(N); r.rankOf.resize(N); r.eob = 0;
  for (uint32_t i = 0; i < N; ++i) { r.rankOf[sa[i]] = i; if (sa[i]) r.last[i] = t[sa[i] - 1]; else { r.eob = i; r.last[i] = 0; } }
  return r;
}
}  // namespace ref
#endif
