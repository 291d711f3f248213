// C11: histories of grammar updates, written, read back and compared with a
// model that maps every token (byte or special pair) to what it stands for.
#define MAIN
#include "globaldefs.hpp"
#include "preprocessors/Grammar.hpp"
#include "preprocessors/Postprocessor.hpp"
#include "streams.hpp"
#include "gen.hpp"
#include <map>
#include <memory>
#include <set>
using mc::Bytes; using mc::u64; using mc::u8; using mc::Family; using bwtc::Grammar;
typedef std::map<int, Bytes> Meaning;           // byte, or 65536 | pair

static Meaning expand(const Grammar& g) {
  Meaning m; for (int i = 0; i < 256; ++i) m[i] = Bytes(1, (u8)i);
  std::vector<std::pair<bwtc::uint16, bwtc::byte> > f; g.freedSymbols(f);
  for (auto& x : f) m[65536 | x.first] = Bytes(1, x.second);
  for (size_t r = 0; r < g.numberOfRules(); ++r) {
    Grammar::Rule rule = g.getRule(r); Bytes t;
    for (size_t i = 0; i < rule.length(); ++i) {
      int k = rule.begin()[i];
      if (g.isSpecial((bwtc::byte)k)) { MC_CHECK(i + 1 < rule.length(), "rule %zu ends inside a special pair", r); k = 65536 | k << 8 | rule.begin()[++i]; MC_CHECK(m.count(k), "rule %zu uses the undefined pair %04x", r, k & 0xffff); }
      const Bytes& e = m[k]; t.insert(t.end(), e.begin(), e.end());
    }
    m[rule.isLarge() ? 65536 | rule.variable() : (int)rule.variable()] = t;
  }
  return m;
}
struct Op { int frees, freed, freedFrom, specFrom, rhs; };

struct World {
  Grammar g; Meaning mean; std::set<int> specials, absent; std::vector<u8> vars; int nextFresh, nextSpecial, nextRhs, used; int numSpecial, pairsUsed;
  Bytes history; bool ok;
  explicit World(int absentSyms) : nextFresh(0), nextSpecial(255), nextRhs(100), used(0), numSpecial(0), pairsUsed(0), ok(true) {
    for (int i = 0; i < 256; ++i) mean[i] = Bytes(1, (u8)i);
    for (int i = 0; i < absentSyms; ++i) absent.insert(60 + i);
  }
  bool plain(int c) const { return !specials.count(c) && !absent.count(c); }
  bool isVar(int c) const { return std::find(vars.begin(), vars.end(), (u8)c) != vars.end(); }
  int pick(int from, std::set<int>& taken, bool down) {
    if (from == 1) for (size_t i = 0; i < vars.size(); ++i) { int c = vars[down ? vars.size() - 1 - i : i]; if (!specials.count(c) && !taken.count(c)) { taken.insert(c); return c; } }
    for (int n = 0; n < 256; ++n) { int c = down ? 255 - n : n; if (plain(c) && !taken.count(c) && !isVar(c)) { taken.insert(c); return c; } }
    for (int n = 0; n < 256; ++n) { int c = down ? 255 - n : n; if (plain(c) && !taken.count(c)) { taken.insert(c); return c; } }
    ok = false; return -1;
  }
  void round(const Op& o) {
    std::set<int> taken; std::vector<u8> freed, specs, frees, repl;
    int left = numSpecial * numSpecial - pairsUsed - numSpecial, ns = numSpecial, need = o.freed;
    while (need > left) { need -= left; ++ns; int all = ns * ns - ns, before = (ns - 1) * (ns - 1) - (ns - 1); left = all - before; }
    for (int i = 0; i < o.freed; ++i) { int c = pick(o.freedFrom == 2 ? i & 1 : o.freedFrom, taken, false); if (!ok) return; freed.push_back((u8)c); }
    for (int i = numSpecial; i < ns; ++i) { int c = pick(o.specFrom, taken, true); if (!ok) return; specs.push_back((u8)c); }
    for (int i = 0; i < o.frees && !absent.empty(); ++i) { frees.push_back((u8)*absent.begin()); absent.erase(absent.begin()); }
    repl = freed; repl.insert(repl.end(), frees.begin(), frees.end());
    if (repl.empty()) { ok = false; return; }
    // right hand sides
    std::vector<std::pair<u8, u8> > rhs; std::vector<u8> pool, vpool;
    for (int c = 0; c < 256; ++c) if (plain(c) && !taken.count(c) && std::find(frees.begin(), frees.end(), (u8)c) == frees.end()) { if (isVar(c)) vpool.push_back((u8)c); else pool.push_back((u8)c); }
    if (pool.empty() && vpool.empty()) { ok = false; return; }
    if (pool.empty()) pool = vpool;
    for (size_t i = 0; i < repl.size(); ++i) {
      u8 a = pool[(nextRhs + 7 * i) % pool.size()], b = pool[(nextRhs + 11 * i + 3) % pool.size()];
      if (o.rhs == 1 && !vpool.empty()) { a = vpool[i % vpool.size()]; if (i & 1) b = vpool[(i / 2) % vpool.size()]; }
      if (o.rhs == 2) b = a;
      if (o.rhs == 3) { a = pool[0]; b = pool.back(); }
      rhs.push_back(std::make_pair(a, b));
    }
    nextRhs += 13;
    g.beginUpdatingRules();
    for (size_t i = 0; i < repl.size(); ++i) g.addRule(repl[i], rhs[i].first, rhs[i].second);
    std::vector<bwtc::uint16> pairs; g.expandAlphabet(freed, specs, pairs);
    MC_CHECK(pairs.size() == freed.size(), "%zu pairs for %zu freed symbols", pairs.size(), freed.size());
    g.endUpdatingRules(repl);
    Meaning old = mean;
    for (size_t i = 0; i < specs.size(); ++i) { int c = specs[i]; specials.insert(c); mean[65536 | c << 8 | c] = old[c]; mean.erase(c); }
    for (size_t i = 0; i < freed.size(); ++i) {
      MC_CHECK(specials.count(pairs[i] >> 8) && specials.count(pairs[i] & 255), "freed symbol %u stands for the pair %04x which is not special", freed[i], pairs[i]);
      MC_CHECK(!mean.count(65536 | pairs[i]), "the pair %04x is given out twice", pairs[i]);
      mean[65536 | pairs[i]] = old[freed[i]];
    }
    for (size_t i = 0; i < repl.size(); ++i) {
      Bytes t = old[rhs[i].first]; t.insert(t.end(), old[rhs[i].second].begin(), old[rhs[i].second].end()); mean[repl[i]] = t;
      if (!isVar(repl[i])) vars.push_back(repl[i]);
      mc::step();
    }
    numSpecial = ns; pairsUsed += (int)freed.size();
  }
  void compare(const char* what, const Grammar& x, bool post) {
    for (int c = 0; c < 256; ++c) MC_CHECK(x.isSpecial((bwtc::byte)c) == (specials.count(c) > 0), "%s: symbol %d special=%d", what, c, (int)x.isSpecial((bwtc::byte)c));
    MC_CHECK(x.numberOfSpecialSymbols() == specials.size(), "%s: %u special symbols instead of %zu", what, x.numberOfSpecialSymbols(), specials.size());
    Meaning m = expand(x);
    for (auto& t : mean) {
      auto it = m.find(t.first);
      MC_CHECK(it != m.end() && it->second == t.second, "%s: token %05x expands to %s instead of %s", what, t.first, it == m.end() ? "nothing" : mc::hex(it->second, 16).c_str(), mc::hex(t.second, 16).c_str());
    }
    if (!post) return;
    std::unique_ptr<bwtc::Postprocessor> pp(new bwtc::Postprocessor(false, x));
    Bytes src, want; for (auto& t : mean) { if (t.first >> 16) { src.push_back((u8)(t.first >> 8)); src.push_back((u8)t.first); } else src.push_back((u8)t.first); want.insert(want.end(), t.second.begin(), t.second.end()); }
    size_t n = src.size(); src.push_back(0); Bytes got; pp->uncompress(&src[0], n, got);
    MC_CHECK(got == want, "%s: expansion of all tokens differs", what);
    Bytes got2; mcs::MemOut mo(got2); size_t r = pp->uncompress(&src[0], n, &mo);
    MC_CHECK(got2 == want && r == want.size(), "%s: expansion of all tokens to a stream differs", what);
  }
  void check(bool post) {
    Bytes z; z.push_back(0x99); mcs::MemOut out(z);
    size_t r = g.writeGrammar(&out);
    MC_CHECK(r == z.size() - 1, "writing reports %zu bytes, wrote %zu", r, z.size() - 1);
    size_t end = z.size(); z.push_back(0xA5); z.push_back(0xFF);
    mcs::MemIn in(z); in.readByte(); Grammar b; b.readGrammar(&in);
    MC_CHECK(in.bit == end * 8, "reading stops %zd bits away from the end of the grammar", (ssize_t)in.bit - (ssize_t)(end * 8));
    MC_CHECK(b.numberOfRules() == g.numberOfRules(), "%u rules read, %u written", b.numberOfRules(), g.numberOfRules());
    for (size_t i = 0; i < g.numberOfRules(); ++i) {
      Grammar::Rule p = g.getRule(i), q = b.getRule(i);
      MC_CHECK(p.variable() == q.variable() && p.isLarge() == q.isLarge() && p.length() == q.length() && std::equal(p.begin(), p.end(), q.begin()), "rule %zu differs", i);
    }
    compare("the grammar built", g, false);
    compare("the grammar read back", b, post);
    Bytes z2; mcs::MemOut out2(z2); b.writeGrammar(&out2);
    MC_CHECK(z2.size() == end - 1 && std::equal(z2.begin(), z2.end(), z.begin() + 1), "writing the grammar read back gives different bytes");
    mc::state(mc::hashBytes(z2.data(), z2.size()));
  }
};
static std::vector<Op> ops, few;
static void history(const std::vector<Op>& h, int absent, bool post) {
  World w(absent);
  for (auto& o : h) { mc::note("round: %d free %d freed (from %d) specials from %d rhs %d", o.frees, o.freed, o.freedFrom, o.specFrom, o.rhs); w.round(o); if (!w.ok) { mc::count(0); return; } }
  w.check(post);
}

int main(int argc, char** argv) {
  mc::counterName[0] = "histories_out_of_symbols";
  return mc::run(argc, argv, [](std::vector<Family>& F) {
    bool T = mc::thorough();
    static const int fr[][2] = {{1, 0}, {0, 1}, {0, 2}, {0, 3}, {2, 1}, {1, 5}, {3, 9}};
    ops.clear(); few.clear();
    for (auto& q : fr) for (int a = 0; a < (q[1] ? 2 : 1); ++a) for (int s = 0; s < (q[1] ? 2 : 1); ++s) for (int r = 0; r < 3; ++r) ops.push_back(Op{q[0], q[1], a, s, r});
    for (size_t i = 0; i < ops.size(); i += 5) few.push_back(ops[i]);
    static u64 N, K; N = ops.size(); K = few.size();
    F.push_back(Family("empty-and-one", N + 1, [](u64 i) { if (i == N) history({}, 0, true); else history({ops[i]}, 4, true); }));
    F.push_back(Family("two-rounds", N * N, [](u64 i) { history({ops[i % N], ops[i / N]}, (int)(i % 3) * 3, true); }, 16));
    F.push_back(Family("three-rounds", N * N * N, [](u64 i) { history({ops[i % N], ops[i / N % N], ops[i / N / N]}, 8, i % 16 == 0); }, 128));
    F.push_back(Family("four-rounds", K * K * K * K, [](u64 i) { history({few[i % K], few[i / K % K], few[i / K / K % K], few[i / K / K / K]}, 5, i % 16 == 0); }, 128));
    if (T) F.push_back(Family("five-rounds", K * K * K * K * K, [](u64 i) { history({few[i % K], few[i / K % K], few[i / K / K % K], few[i / K / K / K % K], few[i / K / K / K / K]}, 11, i % 64 == 0); }, 128));
    // every number of rules and of freed symbols up to the whole alphabet
    F.push_back(Family("sizes", 230 * 4 * 3, [](u64 i) {
      int n = 1 + (int)(i % 230), f = (int)(i / 230 % 4); Op a = {f == 3 ? n : f * n / 4, f == 3 ? 0 : n - f * n / 4, 0, 0, (int)(i / 920)};
      history({a}, a.frees, true); }));
    // long histories that promote variables again and again
    F.push_back(Family("long", 40 * 3 * 3 * 4, [](u64 i) {
      int n = 1 + (int)(i % 40); std::vector<Op> h; u64 j = i / 40; int total = 0;
      for (int k = 0; k < 12 && total + n < 200; ++k, total += n) h.push_back(Op{(int)(k % 3 == 0), n, (int)(j % 3), (int)(j / 3 % 2), (int)((j / 9 + k) % 4)});
      history(h, 6, true); }));
  });
}
