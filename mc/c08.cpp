// C08: the arithmetic coder over bit and probability sequences.
#define MAIN
#include "globaldefs.hpp"
#include "BitCoders.hpp"
#include "streams.hpp"
#include "gen.hpp"
using mc::Bytes; using mc::u64; using mc::Family;
struct Sym { bool bit; unsigned p; };
typedef std::vector<Sym> Seq;
static const unsigned S = bwtc::kProbabilityScale;

static std::string show(const std::vector<Seq>& h) {
  std::string s; for (auto& q : h) { s += "["; for (size_t i = 0; i < q.size() && i < 24; ++i) { char t[24]; snprintf(t, 24, "%d@%u ", q[i].bit, q[i].p); s += t; } if (q.size() > 24) s += ".."; s += "]"; } return s;
}
// segments written back to back by one encoder object, read by one decoder object
static void run(const std::vector<Seq>& h, unsigned char follow = 0) {
  if (mc::describing) mc::note("segments %s", show(h).c_str());
  Bytes z; mcs::MemOut out(z); dcsbwt::BitEncoder e; e.connect(&out);
  std::vector<size_t> end;
  for (auto& q : h) {
    size_t before = z.size(); e.resetCounter();
    for (auto& x : q) e.encode(x.bit, (bwtc::Probability)x.p);
    e.finish();
    MC_CHECK(e.counter() == z.size() - before, "encoder counted %llu bytes, wrote %zu; %s", (unsigned long long)e.counter(), z.size() - before, show(h).c_str());
    end.push_back(z.size()); mc::step(q.size());
  }
  size_t total = z.size();
  if (follow != 1) z.insert(z.end(), 5, follow);
  mcs::MemIn in(z); dcsbwt::BitDecoder d; d.connect(&in);
  for (size_t k = 0; k < h.size(); ++k) {
    d.start();
    for (size_t i = 0; i < h[k].size(); ++i) {
      bool b = d.decode((bwtc::Probability)h[k][i].p);
      MC_CHECK(b == h[k][i].bit, "bit %zu of segment %zu decoded as %d; %s", i, k, (int)b, show(h).c_str());
    }
    MC_CHECK(in.bit == end[k] * 8, "after segment %zu the decoder is at byte %zu, the encoder was at %zu; %s", k, in.bit / 8, end[k], show(h).c_str());
    mc::step(h[k].size());
  }
  mc::state(mc::hashBytes(z.data(), total, h.size()));
}

// Reference model of the interval, used only to steer sequences into the
// narrow intervals that straddle a byte boundary.
struct Model {
  uint32_t lo, hi; Model() : lo(0), hi(0xffffffffu) {}
  uint32_t split(unsigned p) const { uint64_t r = (uint64_t)hi - lo - 1; return (uint32_t)(lo + ((r * p + S / 2) / S)); }
  void go(bool b, unsigned p) { uint32_t s = split(p); if (b) hi = s; else lo = s + 1; while (((lo ^ hi) >> 24) == 0) { lo <<= 8; hi = hi << 8 | 255; } }
};

int main(int argc, char** argv) {
  mc::counterName[0] = "straddling_intervals_narrower_than_4096";
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    static const unsigned P[] = {0, 1, 2, 64, 1024, 2047, 2048, 2049, 4000, 4094, 4095, 4096};
    static const int NP = 12;
    // every bit and probability sequence of a fixed depth
    static int depth; depth = T ? 7 : 6; u64 n = 1; for (int i = 0; i < depth; ++i) n *= 2 * NP;
    F.push_back(Family("all-sequences", n / (2 * NP) / (2 * NP), [](u64 i) {
      Seq q; u64 j = i; for (int k = 0; k < depth - 2; ++k) { q.push_back(Sym{(bool)(j & 1), P[j / 2 % NP]}); j /= 2 * NP; }
      q.resize(depth);
      for (int a = 0; a < 2 * NP; ++a) for (int b = 0; b < 2 * NP; ++b) { q[depth - 2] = Sym{(bool)(a & 1), P[a / 2]}; q[depth - 1] = Sym{(bool)(b & 1), P[b / 2]}; run({q}, b & 1 ? 0 : 255); }
    }, 64));
    // every probability with every 8-bit sequence; mixed with its complement
    F.push_back(Family("all-probabilities", 4097, [](u64 p) {
      for (int w = 0; w < 512; ++w) { Seq q; for (int k = 0; k < 8; ++k) q.push_back(Sym{(bool)(w >> k & 1), (unsigned)(w & 256 && (k & 1) ? S - p : p)}); run({q}); }
    }, 4));
    // histories that keep the interval across a byte boundary, then every continuation
    F.push_back(Family("straddle", 255 * 7 * 2, [T](u64 i) {
      static const unsigned shrink[] = {2048, 1024, 3072, 64, 4032, 1, 4095};
      uint32_t B = (uint32_t)(1 + i % 255) << 24; unsigned p = shrink[i / 255 % 7]; bool vary = i / 255 / 7;
      Seq q; Model m; int taken = 0;
      for (int s = 0; s < 400; ++s) {
        unsigned pp = vary && (s % 3) ? P[(s * 5 + i) % NP] : p;
        uint32_t sp = m.split(pp);
        bool bit = sp >= B;               // keep the side holding both B-1 and B
        if (sp == B - 1) bit = s & 1;     // separated: follow either side
        q.push_back(Sym{bit, pp}); Model o = m; m.go(bit, pp);
        bool strad = m.lo < B && m.hi >= B;
        if (m.hi - m.lo < 4096 && strad) mc::count(0);
        if (s < 4 || (o.hi - o.lo) != (m.hi - m.lo)) if (m.hi - m.lo < (1u << 18) || s % 8 == 0) {
          for (int a = 0; a < 2 * NP; ++a) { Seq r(q); r.push_back(Sym{(bool)(a & 1), P[a / 2]}); r.push_back(Sym{(bool)(s & 1), P[(a + s) % NP]}); r.push_back(Sym{(bool)(a & 2), 2048}); run({r}, a & 1 ? 255 : 0); }
          if (++taken > (T ? 60 : 24)) break;
        }
        if (!strad) B = (m.lo & 0xff000000u) + 0x01000000u;
        if (B == 0 || m.lo >= B || m.hi < B) { B = 0x80000000u; if (m.lo >= B || m.hi < B) break; }
      }
      run({q});
    }, 4));
    // segments back to back: every combination of short segments
    static std::vector<Seq> seg;
    if (seg.empty()) {
      seg.push_back(Seq());
      for (unsigned p : {0u, 1u, 2048u, 4095u, 4096u}) for (int b = 0; b < 2; ++b) { Seq s; s.push_back(Sym{(bool)b, p}); seg.push_back(s); }
      for (int k = 0; k < 6; ++k) { Seq s; for (int j = 0; j < 9 + 40 * k; ++j) s.push_back(Sym{(bool)((j * (k + 1)) >> 2 & 1), P[(j + k) % NP]}); seg.push_back(s); }
      for (int b = 0; b < 2; ++b) for (unsigned p : {1u, 2u, 4094u, 4095u}) { Seq s(3000, Sym{(bool)b, p}); seg.push_back(s); }
    }
    static u64 ns; ns = seg.size();
    F.push_back(Family("segments-3", ns * ns * ns, [](u64 i) { run({seg[i % ns], seg[i / ns % ns], seg[i / ns / ns]}, i & 1 ? 1 : 255); }, 32));
    F.push_back(Family("segments-4-small", 11 * 11 * 11 * 11, [](u64 i) { run({seg[i % 11], seg[i / 11 % 11], seg[i / 121 % 11], seg[i / 1331]}, i & 1 ? 1 : 0); }, 64));
    // every bit sequence of length 1..k at probability one half and near the ends
    F.push_back(Family("all-bits", gen::stringsCount(2, 1, T ? 16 : 13) * 5, [](u64 i) {
      static const std::vector<unsigned char> zo = {0, 1}; static const unsigned pr[] = {2048, 2, 4094, 0, 4096};
      Bytes b = gen::stringAt(i / 5, zo, 1); Seq q; for (auto x : b) q.push_back(Sym{(bool)x, pr[i % 5]}); run({q}); }, 128));
    // long sequences
    F.push_back(Family("long", 13 * 8 * (T ? 10 : 2), [](u64 i) {
      static const unsigned pr[] = {0, 1, 2, 3, 100, 1000, 2047, 2048, 3000, 4000, 4094, 4095, 4096}; unsigned p = pr[i % 13]; int k = (int)(i / 13 % 8); u64 n = 20000 * (1 + i / 104);
      Seq q; gen::Lcg r(i); for (u64 j = 0; j < n; ++j) { bool b; unsigned pp = p;
        switch (k) { case 0: b = 0; break; case 1: b = 1; break; case 2: b = (r.next() >> 40) % S < p; break; case 3: b = (r.next() >> 40) % S >= p; break;
          case 4: b = j & 1; break; case 5: b = (r.next() >> 40) & 1; pp = (unsigned)((r.next() >> 30) % (S + 1)); break; case 6: b = j % 1000 == 999; break; default: b = j % 100 != 99; pp = j & 1 ? p : S - p; }
        q.push_back(Sym{b, pp}); }
      run({q, q}); }, 1));
  }, 26);
}
