// Exhaustive exploration engine: enumerates every case of a list of finite
// families in parallel worker processes, monitors crashes and hangs, confirms
// a failing case in a fresh process and reports measured counts as JSON.
#ifndef MC_HPP
#define MC_HPP
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <functional>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {
typedef uint64_t u64;
typedef uint8_t u8;
typedef std::vector<u8> Bytes;

struct Fail { std::string msg; };

static bool describing = false;       // collect a description of the case
static std::string description;
static inline void note(const char* f, ...) {
  if (!describing) return;
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  if (description.size() < 4000) { if (!description.empty()) description += "; "; description += b; }
}
[[noreturn]] static inline void fail(const char* f, ...) {
  char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  throw Fail{b};
}
#define MC_CHECK(c, ...) do { if (!(c)) mc::fail(__VA_ARGS__); } while (0)

static inline std::string hex(const u8* p, size_t n, size_t lim = 64) {
  std::string s; char b[4];
  for (size_t i = 0; i < n && i < lim; ++i) { snprintf(b, 4, "%02x", p[i]); s += b; }
  if (n > lim) { char t[40]; snprintf(t, 40, "..(%zu bytes)", n); s += t; }
  return s;
}
static inline std::string hex(const Bytes& v, size_t lim = 64) { return hex(v.data(), v.size(), lim); }

static inline u64 mix(u64 h) {
  h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
  h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h;
}
static inline u64 hashBytes(const void* p, size_t n, u64 seed = 0x9e3779b97f4a7c15ULL) {
  const u8* b = (const u8*)p; u64 h = seed ^ mix(n);
  while (n >= 8) { u64 w; memcpy(&w, b, 8); h = mix(h ^ w) + 0x9e3779b97f4a7c15ULL; b += 8; n -= 8; }
  u64 w = 0; memcpy(&w, b, n); return mix(h ^ w);
}

struct Family {
  std::string name;
  u64 count;
  std::function<void(u64)> run;
  u64 chunk;           // cases handed out together
  Family(const std::string& n, u64 c, std::function<void(u64)> r, u64 ch = 0)
      : name(n), count(c), run(r), chunk(ch) {}
};

enum { kSlots = 64, kCounters = 16 };
struct Slot {
  volatile int fam; volatile u64 idx; volatile u64 chunkStart; volatile u64 startMs;
  volatile int state;   // 0 idle 1 running 2 failed
  char msg[2048];
};
struct Shared {
  std::atomic<u64> nextChunk, cases, transitions, states, stop;
  std::atomic<u64> counters[kCounters];
  std::atomic<u64> famDone[256], famUs[256];
  Slot slot[kSlots];
};
static Shared* sh = 0;
static std::atomic<u64>* fpTable = 0;
static u64 fpMask = 0;
static const char* counterName[kCounters] = {0};
static u64 localTransitions = 0;

// Records a fingerprint of an observed state/behaviour; counts distinct ones.
static inline bool state(u64 h) {
  if (!fpTable) return false;
  if (h == 0) h = 1;
  for (u64 i = 0; i < 64; ++i) {
    std::atomic<u64>& c = fpTable[(h + i) & fpMask];
    u64 v = c.load(std::memory_order_relaxed);
    if (v == h) return false;
    if (v == 0) {
      if (c.compare_exchange_strong(v, h)) { sh->states.fetch_add(1, std::memory_order_relaxed); return true; }
      if (v == h) return false;
    }
  }
  return false;   // table region full: undercounts, never overcounts
}
static inline void step(u64 n = 1) { localTransitions += n; }
static inline void count(int c, u64 n = 1) { if (sh) sh->counters[c].fetch_add(n, std::memory_order_relaxed); }

static inline u64 cpuUs() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000000ULL + t.tv_nsec / 1000; }
static inline u64 nowMs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ULL + t.tv_nsec / 1000000; }

static std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Options {
  int workers; double hangS, budgetS; std::string tier, out, errDir;
  Options() : workers(8), hangS(100), budgetS(700), tier("quick") {}
};
static Options opt;
static inline bool thorough() { return opt.tier == "thorough"; }

// Runs one case in this process; returns true when it held.
static bool runCase(const Family& f, u64 idx, std::string& msg) {
  try { f.run(idx); return true; }
  catch (Fail& e) { msg = e.msg; }
  catch (std::exception& e) { msg = std::string("exception: ") + e.what(); }
  catch (...) { msg = "unknown exception"; }
  return false;
}

static void workerLoop(int w, std::vector<Family>& fams, const std::vector<u64>& chunkBase) {
  Slot& s = sh->slot[w];
  u64 total = chunkBase.back();
  for (;;) {
    if (sh->stop.load()) break;
    u64 c = sh->nextChunk.fetch_add(1);
    if (c >= total) break;
    size_t f = 0;
    while (chunkBase[f + 1] <= c) ++f;
    u64 start = (c - chunkBase[f]) * fams[f].chunk, end = start + fams[f].chunk;
    if (end > fams[f].count) end = fams[f].count;
    s.fam = (int)f; s.chunkStart = start; u64 c0 = cpuUs();
    for (u64 i = start; i < end; ++i) {
      s.idx = i; s.startMs = nowMs(); s.state = 1;
      std::string msg;
      if (!runCase(fams[f], i, msg)) {
        snprintf(s.msg, sizeof s.msg, "%s", msg.c_str());
        s.state = 2; _exit(3);
      }
      s.state = 0;
      sh->famDone[f].fetch_add(1, std::memory_order_relaxed);
      if (sh->stop.load(std::memory_order_relaxed)) break;
    }
    sh->transitions.fetch_add(localTransitions); localTransitions = 0;
    sh->famUs[f].fetch_add(cpuUs() - c0);
  }
  _exit(0);
}

static std::string tail(const std::string& path, size_t n = 1200) {
  std::string r; FILE* f = fopen(path.c_str(), "r");
  if (!f) return r;
  std::string all; char b[4096]; size_t k;
  while ((k = fread(b, 1, sizeof b, f)) > 0 && all.size() < 200000) all.append(b, k);
  fclose(f);
  size_t p = all.find("ERROR: "); if (p == std::string::npos) p = all.find("Assertion");
  if (p != std::string::npos && p > 200) p -= 200; else p = 0;
  return all.substr(p, n);
}

// No case needs much memory, except in families that say so: code that takes
// more and more must not take the machine down.
static bool tooMuchMemory(const Family& f, pid_t pid, u64 limit) {
  if (f.name.find("above-4GB") == 0) return false;
  char b[64]; snprintf(b, 64, "/proc/%d/statm", (int)pid); FILE* s = fopen(b, "r"); if (!s) return false;
  unsigned long long total = 0, resident = 0; int k = fscanf(s, "%llu %llu", &total, &resident); fclose(s);
  return k == 2 && resident * 4096 > limit;
}
static const u64 kWorkerMemory = 3ULL << 30, kIsolatedMemory = 6ULL << 30;

// Executes cases [from, to] of a family in a fresh process.
// 0 held, 1 failed/crashed, 2 hung, 3 killed from outside (not believed)
static int isolated(const Family& f, u64 from, u64 to, double limitS, std::string& msg, std::string* desc = 0) {
  int p[2]; if (pipe(p)) return 3;
  std::string err = opt.errDir + "/isolated.err";
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    if (desc) describing = true;
    std::string m; bool ok = true;
    for (u64 i = from; ok; ++i) { if (i == to && desc) description.clear(); ok = runCase(f, i, m); if (i == to) break; }
    std::string o = (ok ? "K" : "F") + m + std::string(1, '\0') + description;
    size_t off = 0; while (off < o.size()) { ssize_t k = write(p[1], o.data() + off, o.size() - off); if (k <= 0) break; off += k; }
    _exit(0);
  }
  close(p[1]);
  std::string o; char b[4096]; u64 t0 = nowMs(); bool hung = false, greedy = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  int st = 0; bool done = false;
  while (!done) {
    ssize_t k;
    while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, k);
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) done = true;
    else if ((nowMs() - t0) / 1000.0 > limitS) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; done = true; }
    else if (tooMuchMemory(f, pid, kIsolatedMemory)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); greedy = true; done = true; }
    else usleep(2000);
  }
  ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, k);
  close(p[0]);
  if (desc && !o.empty()) { size_t z = o.find('\0'); if (z != std::string::npos) *desc = o.substr(z + 1); }
  if (hung) { msg = "did not finish"; return 2; }
  if (greedy) { msg = "takes more and more memory, stopped at 6 GB"; return 1; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { msg = "killed"; return 3; }
  if (WIFSIGNALED(st)) { char m[64]; snprintf(m, 64, "crashed with signal %d: ", WTERMSIG(st)); msg = m + tail(err); return 1; }
  if (o.empty()) { msg = "exited inside the case: " + tail(err); return 1; }
  if (o[0] == 'F') { msg = std::string(o.c_str() + 1); return 1; }
  return 0;
}

static int run(int argc, char** argv, std::function<void(std::vector<Family>&)> make, size_t fpLog2 = 23) {
  std::string replayFam; u64 replayFrom = 0, replayTo = 0; bool replay = false; std::string only;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier") opt.tier = argv[++i];
    else if (a == "--out") opt.out = argv[++i];
    else if (a == "--workers") opt.workers = atoi(argv[++i]);
    else if (a == "--hang") opt.hangS = atof(argv[++i]);
    else if (a == "--budget") opt.budgetS = atof(argv[++i]);
    else if (a == "--errdir") opt.errDir = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { replay = true; replayFam = argv[++i]; replayFrom = strtoull(argv[++i], 0, 10); replayTo = strtoull(argv[++i], 0, 10); }
  }
  // same addresses in every run, so that a replay sees what the exploration saw
  if (!getenv("MC_NOASLR")) {
    setenv("MC_NOASLR", "1", 1);
    int per = personality(0xffffffff);
    if (per != -1 && personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (!getenv("MC_KEEP_MALLOC")) { mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 1 << 30); }
  char tmpl[] = "/tmp/mcXXXXXX"; bool ownDir = false;
  if (opt.errDir.empty()) { opt.errDir = mkdtemp(tmpl); ownDir = true; }
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  std::vector<Family> fams; make(fams);
  if (!only.empty()) { std::vector<Family> g; for (auto& f : fams) if (f.name.find(only) == 0) g.push_back(f); fams.swap(g); }
  if (replay) {
    for (auto& f : fams) if (f.name == replayFam) {
      describing = true; std::string m;
      bool ok = true;
      for (u64 i = replayFrom; i <= replayTo && ok; ++i) { description.clear(); ok = runCase(f, i, m); }
      printf("case: %s\n%s %s\n", description.c_str(), ok ? "HELD" : "FAILED", m.c_str());
      return ok ? 0 : 1;
    }
    fprintf(stderr, "no family %s\n", replayFam.c_str()); return 2;
  }
  sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof(Shared));
  fpMask = (1ULL << fpLog2) - 1;
  fpTable = (std::atomic<u64>*)mmap(0, (fpMask + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<u64> base(1, 0);
  for (auto& f : fams) {
    if (!f.chunk) { f.chunk = f.count / (opt.workers * 16); if (f.chunk < 1) f.chunk = 1; if (f.chunk > 512) f.chunk = 512; }
    base.push_back(base.back() + (f.count + f.chunk - 1) / f.chunk);
  }
  u64 t0 = nowMs();
  std::vector<pid_t> pids(opt.workers, -1);
  auto errName = [&](int w) { char b[64]; snprintf(b, 64, "/w%d.err", w); return opt.errDir + b; };
  auto spawn = [&](int w) {
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
      int fd = open(errName(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
      workerLoop(w, fams, base);
    }
    pids[w] = p;
  };
  for (int w = 0; w < opt.workers; ++w) spawn(w);
  struct Cand { int fam; u64 idx, start; std::string msg; int kind; };
  std::vector<Cand> cands; bool outOfTime = false; std::string infra;
  int alive = opt.workers, oomRetries = 0;
  while (alive > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      int w = -1; for (int i = 0; i < opt.workers; ++i) if (pids[i] == p) w = i;
      if (w < 0) continue;
      Slot& s = sh->slot[w];
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s.state == 0) { --alive; pids[w] = -1; continue; }
      Cand c; c.fam = s.fam; c.idx = s.idx; c.start = s.chunkStart; c.kind = 1;
      if (s.state == 2) c.msg = s.msg;
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) c.kind = 3, c.msg = "worker was killed";
      else { char b[64]; if (WIFSIGNALED(st)) snprintf(b, 64, "crashed with signal %d: ", WTERMSIG(st)); else snprintf(b, 64, "process exited with status %d: ", WEXITSTATUS(st)); c.msg = b + tail(errName(w)); }
      cands.push_back(c);
      sh->stop = 1; --alive; pids[w] = -1;
      continue;
    }
    u64 n = nowMs();
    for (int w = 0; w < opt.workers; ++w) if (pids[w] > 0) {
      Slot& s = sh->slot[w];
      if (s.state == 1 && n > s.startMs && (n - s.startMs) / 1000.0 > opt.hangS) {
        Cand c; c.fam = s.fam; c.idx = s.idx; c.start = s.chunkStart; c.kind = 2; c.msg = "did not finish";
        kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = -1; --alive;
        cands.push_back(c); sh->stop = 1;
      }
      else if (s.state == 1 && tooMuchMemory(fams[s.fam], pids[w], kWorkerMemory)) {
        Cand c; c.fam = s.fam; c.idx = s.idx; c.start = s.chunkStart; c.kind = 3; c.msg = "took more than 3 GB of memory";
        kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); pids[w] = -1; --alive;
        cands.push_back(c); sh->stop = 1;
      }
    }
    if ((n - t0) / 1000.0 > opt.budgetS && !sh->stop) { outOfTime = true; sh->stop = 1; }
    usleep(5000);
  }
  (void)oomRetries;
  int rc = 0; std::string viol;
  for (auto& c : cands) {
    std::string m, d; const Family& f = fams[c.fam];
    int r = isolated(f, c.idx, c.idx, opt.hangS * 2, m, &d);
    u64 from = c.idx; bool confirmed = false; std::string how = "isolated";
    if (r == 1 || r == 2) confirmed = true;
    else if (r == 0 && c.kind != 2 && c.kind != 3) {
      // depends on what ran before in the same process: replay the history
      r = isolated(f, c.start, c.idx, opt.hangS * 4, m, &d);
      from = c.start; how = "history";
      confirmed = true;      // observed once on the real code; the history is the replay
      if (r == 0) { m = c.msg; how = "observed once"; }
    }
    if (confirmed) {
      char b[256]; snprintf(b, 256, "\"family\":\"%s\",\"from\":%llu,\"to\":%llu,\"how\":\"%s\"", f.name.c_str(), (unsigned long long)from, (unsigned long long)c.idx, how.c_str());
      viol = std::string("{") + b + ",\"message\":\"" + jsonEsc(m.empty() ? c.msg : m) + "\",\"case\":\"" + jsonEsc(d) + "\"}";
      rc = 1; break;
    }
    infra += f.name + ": " + c.msg + " (not confirmed); ";
  }
  std::string js = "{";
  char b[256];
  u64 cases = 0, space = 0;
  std::string fj;
  for (size_t i = 0; i < fams.size(); ++i) {
    cases += sh->famDone[i]; space += fams[i].count;
    snprintf(b, 256, "%s{\"name\":\"%s\",\"cases\":%llu,\"of\":%llu,\"cpu_s\":%.1f}", i ? "," : "", fams[i].name.c_str(), (unsigned long long)sh->famDone[i].load(), (unsigned long long)fams[i].count, sh->famUs[i].load() / 1e6);
    fj += b;
  }
  snprintf(b, 256, "\"cases\":%llu,\"space\":%llu,\"states\":%llu,\"transitions\":%llu,\"out_of_time\":%s,", (unsigned long long)cases, (unsigned long long)space, (unsigned long long)sh->states.load(), (unsigned long long)sh->transitions.load(), outOfTime ? "true" : "false");
  js += b; js += "\"families\":[" + fj + "],\"counters\":{";
  bool first = true;
  for (int i = 0; i < kCounters; ++i) if (counterName[i]) { snprintf(b, 256, "%s\"%s\":%llu", first ? "" : ",", counterName[i], (unsigned long long)sh->counters[i].load()); js += b; first = false; }
  js += "},\"samples\":[";
  if (rc == 0) {
    first = true; int shown = 0;
    for (auto& f : fams) if (f.count && shown < 6) {
      std::string m, d; u64 i = f.count / 2 + (f.count > 10 ? 3 : 0); if (i >= f.count) i = f.count - 1;
      if (isolated(f, i, i, opt.hangS, m, &d) == 0) { snprintf(b, 256, "%s\"%s #%llu: ", first ? "" : ",", f.name.c_str(), (unsigned long long)i); js += b + jsonEsc(d.substr(0, 500)) + "\""; first = false; ++shown; }
    }
  }
  js += "],\"infra\":\"" + jsonEsc(infra) + "\",\"violation\":" + (viol.empty() ? "null" : viol) + "}";
  if (!opt.out.empty()) { FILE* f = fopen(opt.out.c_str(), "w"); if (f) { fputs(js.c_str(), f); fclose(f); } }
  else puts(js.c_str());
  if (ownDir) { for (int w = 0; w < opt.workers; ++w) unlink(errName(w).c_str()); unlink((opt.errDir + "/isolated.err").c_str()); rmdir(opt.errDir.c_str()); }
  if (rc == 0 && !infra.empty() && !outOfTime) rc = 0;
  return rc;
}
}  // namespace mc
#endif
