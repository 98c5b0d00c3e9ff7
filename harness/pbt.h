// A small property-based-testing engine in the style of Hypothesis: every random
// decision is a bounded integer "choice"; a case *is* its choice sequence, so
// shrinking, replay files and libFuzzer inputs all work on the same thing.
//
//   PBT(C13, "collide_history", 4000, 40) { ... ctx.draw... ; ctx.check(...) ... }
//
// A failure is thrown as pbt::Failure{key,msg}.  Cases run in forked workers, so
// crashes, sanitizer aborts and CPU-time hangs are failures of the case as well.
#ifndef PBT_H
#define PBT_H
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure { std::string key, msg; };
struct Discard { std::string why; };

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

static const size_t MAX_CHOICES = 1 << 16;
struct Shared {          // one per worker, survives a crash of the worker
  volatile uint64_t n;
  volatile uint64_t prop, index, active;
  uint64_t v[MAX_CHOICES];
};

class Ctx {
 public:
  enum Source { RANDOM, REPLAY, BYTES };
  Source src = RANDOM;
  uint64_t rng = 1;
  std::vector<uint64_t> seq;            // values drawn in this case
  std::vector<uint64_t> in;             // replay input
  const uint8_t* bytes = nullptr; size_t nbytes = 0, pos = 0;
  Shared* shm = nullptr;
  bool verbose = false;
  int tier = 0;                         // 0 quick, 1 thorough
  bool nontriv = false;
  std::map<std::string, uint64_t> labels;
  std::ostringstream log;

  // uniform in [0,bound]; 0 is the simplest value
  uint64_t draw(uint64_t bound) {
    uint64_t v = 0;
    if (src == RANDOM) {
      uint64_t r = splitmix(rng);
      v = bound == ~0ULL ? r : (uint64_t)(((unsigned __int128)r * ((unsigned __int128)bound + 1)) >> 64);
    } else if (src == REPLAY) {
      v = pos < in.size() ? in[pos] : 0; pos++;
      if (v > bound) v = bound == ~0ULL ? v : v % (bound + 1);
    } else {
      int w = bound < 256 ? 1 : bound < 65536 ? 2 : bound <= 0xffffffffULL ? 4 : 8;
      for (int i = 0; i < w; i++) v |= (uint64_t)(pos < nbytes ? bytes[pos++] : 0) << (8 * i);
      if (bound != ~0ULL) v %= bound + 1;
    }
    seq.push_back(v);
    if (shm && shm->n < MAX_CHOICES) { shm->v[shm->n] = v; shm->n = shm->n + 1; }
    if (seq.size() > MAX_CHOICES) throw Discard{"too many choices"};
    return v;
  }
  int pick(int n) { return (int)draw(n - 1); }                       // [0,n)
  int range(int lo, int hi) { return lo + (int)draw(hi - lo); }      // [lo,hi]
  bool flip() { return draw(1) != 0; }
  bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; }  // shrinks to false
  // weighted index, shrinks to 0
  int weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    int r = (int)draw(t - 1), i = 0;
    for (int x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
  }
  double unit() { return (double)draw((1ULL << 32) - 1) / 4294967296.0; }   // [0,1)
  // plain uniform real
  double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // mixture of "nice" values and uniform ones
  double real(double lo, double hi) {
    if (chance(3, 4)) return uni(lo, hi);
    static const double nice[] = {0, 1, 0.5, -1, -0.5, 2, -2, 0.25, 0.1, 3, -3, 1.5};
    double v = nice[pick(12)];
    return v < lo ? lo : v > hi ? hi : v;
  }
  double pos_real(double lo, double hi) {          // log-uniform-ish, positive
    int k = weighted({1, 2, 2});
    if (k == 0) { double v = 1; return v < lo ? lo : v > hi ? hi : v; }
    if (k == 1) return uni(lo, hi);
    return lo * std::exp(unit() * std::log(hi / lo));
  }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const std::string& s) { labels[s]++; }
  [[noreturn]] void discard(const char* why = "discard") { throw Discard{why}; }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
  void check(bool ok, const char* key) { if (!ok) throw Failure{key, key}; }
  void check(bool ok, const std::string& key) { if (!ok) throw Failure{key, key}; }
  template <class F> void check(bool ok, const std::string& key, F&& msg) { if (!ok) { std::ostringstream o; o.precision(17); msg(o); throw Failure{key, o.str()}; } }
  template <class F> void note(F&& f) { if (verbose) { log.precision(17); f(log); log << "\n"; if (getenv("PBT_NOTES")) { fputs(log.str().c_str(), stderr); fflush(stderr); } } }
};

typedef void (*Fn)(Ctx&);
struct Prop { std::string id, name; long quick, thorough; Fn fn; };
inline std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
struct Reg { Reg(const char* id, const char* name, long q, long t, Fn f) { registry().push_back({id, name, q, t, f}); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_IMPL(id, name, q, t, fn)                                   \
  static void fn(pbt::Ctx& ctx);                                       \
  static pbt::Reg PBT_CAT(fn, _reg)(#id, name, q, t, fn);              \
  static void fn(pbt::Ctx& ctx)
#define PBT(id, name, q, t) PBT_IMPL(id, name, q, t, PBT_CAT(pbt_fn_, __LINE__))

// failures of libccd itself (an external library), tolerated when rare: see known_findings.txt
static const char* const RARE = "exception:libccd-epa-folded-polytope";
static const char* const RARE2 = "exception:libccd-mpr-endless";
// fcl's own EPA gives up, with an exception, on some signed distances of flat shapes (C31 only; see known_findings.txt)
static const char* const RARE3 = "exception:epa-of-flat-shapes";
inline bool isRare(const std::string& key) { return key == RARE || key == RARE2 || key == RARE3; }
struct Outcome { int kind; std::string key, msg; };   // 0 ok, 1 fail, 2 discard

inline Outcome run_once(const Prop& p, Ctx& c) {
  try { p.fn(c); return {0, "", ""}; }
  catch (const Failure& f) { return {1, f.key, f.msg}; }
  catch (const Discard& d) { return {2, "", d.why}; }
  catch (const std::exception& e) {
    const std::string w = e.what();
    return {1, w.find("Error with configuration") != std::string::npos ? RARE : w.find("libccd-mpr-endless") != std::string::npos ? RARE2 : "exception", "uncaught exception: " + w};
  }
}

// A known finding (known_findings.txt): about once in 10^4 to 10^5 signed queries (touching or tiny objects) the EPA of libccd folds its polytope and gives up
// with this exception.  A run is only reported when it happens more often than that can explain.
inline bool rare_ok(const std::string& key, uint64_t n, uint64_t eval) { return key == RARE3 ? n <= 10 + eval / 500 : n <= 6 + eval / 1000; }

// ---------------------------------------------------------------- main driver
struct Opts {
  std::string id, out, replay, replaydir = "replays", only, samplekind;
  uint64_t seed = 1; int tier = 0, workers = 8; double wall = 600, mult = 1; int cpu_limit = 30; bool explain = false; int shrink = 2500;
};

inline double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

inline void on_cpu(int) { const char m[] = "pbt: case exceeded its CPU-time limit\n"; if (write(2, m, sizeof m - 1)) {} _exit(77); }
inline void arm(int secs) {
  itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = secs; setitimer(ITIMER_PROF, &t, 0);
}

// run a choice sequence in a forked child; returns the outcome (crash and hang are failures)
inline Outcome run_isolated(const Prop& p, const std::vector<uint64_t>& in, const Opts& o, std::vector<uint64_t>* consumed = nullptr,
                            std::string* log = nullptr, bool quiet = true) {
  int fd[2]; if (pipe(fd)) abort();
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    if (quiet) { int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); dup2(n, 1); } }
    signal(SIGPROF, on_cpu); arm(o.cpu_limit);
    Ctx c; c.src = Ctx::REPLAY; c.in = in; c.tier = o.tier; c.verbose = log != nullptr;
    Outcome r = run_once(p, c);
    std::ostringstream s; s << r.kind << "\n" << r.key << "\n" << c.seq.size();
    for (uint64_t v : c.seq) s << " " << v;
    s << "\n" << r.msg.size() << "\n" << r.msg << c.log.str();
    std::string t = s.str(); size_t k = 0;
    while (k < t.size()) { ssize_t w = write(fd[1], t.data() + k, t.size() - k); if (w <= 0) break; k += w; }
    _exit(0);
  }
  close(fd[1]);
  std::string t; char buf[65536]; ssize_t r;
  while ((r = read(fd[0], buf, sizeof buf)) > 0) t.append(buf, r);
  close(fd[0]);
  int st; waitpid(pid, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) return {1, "hang", "the case did not finish within its CPU-time limit"};
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    std::ostringstream m;
    if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st); else m << "exited with status " << WEXITSTATUS(st) << " (sanitizer report or abort)";
    return {1, "crash", m.str()};
  }
  std::istringstream s(t); Outcome q; size_t n, ml; std::string line;
  s >> q.kind; std::getline(s, line); std::getline(s, q.key); s >> n;
  std::vector<uint64_t> seq(n); for (auto& v : seq) s >> v;
  s >> ml; std::getline(s, line);
  std::string rest; { std::ostringstream os; os << s.rdbuf(); rest = os.str(); }
  q.msg = rest.substr(0, ml); if (log) *log = rest.substr(std::min(ml, rest.size()));
  if (consumed) *consumed = seq;
  return q;
}

// shrink: keep any failing candidate with the same key
inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, const std::string& key, const Opts& o) {
  int budget = o.shrink; double t0 = now(), lim = 25;
  auto fails = [&](std::vector<uint64_t>& c) {
    if (budget-- <= 0 || now() - t0 > lim) return false;
    std::vector<uint64_t> used; Outcome r = run_isolated(p, c, o, &used);
    if (r.kind == 1 && r.key == key) { if (!used.empty() && used.size() <= c.size()) c = used; return true; }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0 && now() - t0 < lim) {
    progress = false;
    for (size_t len : {64, 16, 8, 4, 2, 1}) {          // delete blocks
      for (size_t i = best.size(); i-- > 0;) {
        if (i + len > best.size()) continue;
        auto c = best; c.erase(c.begin() + i, c.begin() + i + len);
        if (fails(c)) { best = c; progress = true; }
        if (budget <= 0 || now() - t0 > lim) break;
      }
    }
    for (size_t len : {16, 4, 1}) {                    // zero blocks
      for (size_t i = 0; i + len <= best.size(); i += len) {
        auto c = best; bool any = false;
        for (size_t k = i; k < i + len; k++) { any |= c[k] != 0; c[k] = 0; }
        if (any && fails(c)) { best = c; progress = true; }
        if (budget <= 0) break;
      }
    }
    for (size_t i = 0; i < best.size() && budget > 0; i++) {   // minimise values by bisection
      uint64_t lo = 0, hi = best[i];
      if (hi == 0) continue;
      int steps = 0;
      while (lo < hi && steps++ < 12) {
        uint64_t mid = lo + (hi - lo) / 2; auto c = best; if (i >= c.size()) break; c[i] = mid;
        if (fails(c)) { best = c; progress = true; if (i >= best.size()) break; hi = best[i]; } else lo = mid + 1;
      }
    }
  }
  return best;
}

inline void write_replay(const std::string& path, const Prop& p, const std::vector<uint64_t>& seq, const Outcome& r, const std::string& log, int tier) {
  std::ofstream f(path);
  f << "pbt-replay 1\nproperty " << p.id << "\nname " << p.name << "\ntier " << tier << "\nkey " << r.key << "\nchoices " << seq.size();
  for (auto v : seq) f << " " << v;
  f << "\n--- what fails ---\n" << r.msg << "\n--- the case ---\n" << log << "\n";
}
struct ReplayFile { std::string id, name, key; int tier = 0; std::vector<uint64_t> seq; bool ok = false; };
inline ReplayFile read_replay(const std::string& path) {
  ReplayFile r; std::ifstream f(path); std::string l;
  if (!std::getline(f, l) || l != "pbt-replay 1") return r;
  while (std::getline(f, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "property") s >> r.id; else if (k == "name") s >> r.name; else if (k == "tier") s >> r.tier;
    else if (k == "key") { std::getline(s, r.key); if (!r.key.empty() && r.key[0] == ' ') r.key.erase(0, 1); }
    else if (k == "choices") { size_t n; s >> n; r.seq.resize(n); for (auto& v : r.seq) s >> v; r.ok = true; }
    else if (k == "---") break;
  }
  return r;
}

struct Stats {
  uint64_t eval = 0, discards = 0, nontriv = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
  std::vector<std::pair<std::vector<uint64_t>, Outcome>> fails; double wall = 0; bool cut = false;
};

inline void worker(int w, const Opts& o, const std::vector<const Prop*>& props, Shared* shm, const std::string& file, uint64_t startProp, uint64_t startIdx, double deadline) {
  signal(SIGPROF, on_cpu);
  // every (property,index) pair has its own seed, whatever the number of workers
  FILE* f = fopen(file.c_str(), "a");
  for (size_t pi = startProp; pi < props.size(); pi++) {
    const Prop& p = *props[pi]; Stats st; std::unordered_set<uint64_t> seen; double t0 = now();
    long n = (long)std::ceil((o.tier ? p.thorough : p.quick) * o.mult);
    std::map<std::string, int> failkeys;
    // a property may not eat the whole time: each gets its share of what is left
    double share = (deadline - t0) / (double)(props.size() - pi) * 2.0;
    double mydl = std::min(deadline, t0 + share);
    for (long i = (pi == startProp ? (long)startIdx : w); i < n; i += o.workers) {
      if (now() > mydl) { st.cut = true; break; }
      Ctx c; c.tier = o.tier; c.shm = shm; shm->n = 0; shm->prop = pi; shm->index = i; shm->active = 1;
      uint64_t s = hash_str(p.id + "/" + p.name) ^ (o.seed * 0x9e3779b97f4a7c15ULL); splitmix(s); s ^= (uint64_t)i * 0xd1342543de82ef95ULL; splitmix(s); c.rng = s;
      if ((i & 15) == w % 16 || true) arm(o.cpu_limit);
      Outcome r = run_once(p, c);
      shm->active = 0;
      if (r.kind == 2) { st.discards++; continue; }
      st.eval++;
      for (auto& kv : c.labels) st.labels[kv.first] += kv.second > 0;
      if (c.nontriv) {
        uint64_t h = 1469598103934665603ULL; for (auto v : c.seq) { h ^= v; h *= 1099511628211ULL; h ^= h >> 29; }
        if (seen.insert(h).second) {
          st.nontriv++;
          if (w == 0 && st.samples.size() < 2 && r.kind == 0) {
            Ctx d; d.src = Ctx::REPLAY; d.in = c.seq; d.verbose = true; d.tier = o.tier; run_once(p, d);
            std::string t = d.log.str(); if (t.size() > 600) t = t.substr(0, 600) + "..."; st.samples.push_back(t);
          }
        }
      }
      if (r.kind == 1) { st.labels["FAIL:" + r.key]++; if (failkeys[r.key]++ < 1 && failkeys.size() <= 6) st.fails.push_back({c.seq, r}); if (st.fails.size() >= 6 && !getenv("PBT_KEEP_GOING")) break; }
    }
    arm(0);
    // one line-oriented record
    fprintf(f, "P %zu %llu %llu %llu %d %.3f\n", pi, (unsigned long long)st.eval, (unsigned long long)st.discards, (unsigned long long)st.nontriv, (int)st.cut, now() - t0);
    for (auto& kv : st.labels) fprintf(f, "L %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
    for (auto& s : st.samples) { fprintf(f, "S %zu\n", s.size()); fwrite(s.data(), 1, s.size(), f); fprintf(f, "\n"); }
    for (auto& x : st.fails) {
      fprintf(f, "F %zu", x.first.size()); for (auto v : x.first) fprintf(f, " %llu", (unsigned long long)v);
      fprintf(f, "\n%s\n", x.second.key.c_str());
    }
    fflush(f);
  }
  fclose(f);
  _exit(0);
}

// confirm (3 of 3), shrink, write the replay file, print the VIOLATION line
inline int report(const Prop& p, const std::vector<uint64_t>& seq, const Opts& o, std::string& path, std::string& keyOut) {
  int ok = 0; Outcome r;
  for (int k = 0; k < 3; k++) { Outcome q = run_isolated(p, seq, o); if (q.kind == 1) { ok++; r = q; } }
  if (ok < 3) { printf("UNCONFIRMED %s/%s (%d of 3 replays failed)\n", p.id.c_str(), p.name.c_str(), ok); return 1; }
  keyOut = r.key;
  std::vector<uint64_t> best = r.key == "hang" ? seq : shrink(p, seq, r.key, o);
  std::string log; Outcome q = run_isolated(p, best, o, nullptr, &log);
  if (q.kind != 1) { best = seq; q = run_isolated(p, best, o, nullptr, &log); }
  if (q.kind != 1) q = r;
  std::string key = q.key; for (char& c : key) if (!isalnum((unsigned char)c)) c = '_';
  (void)!system(("mkdir -p '" + o.replaydir + "'").c_str());
  path = o.replaydir + "/" + p.id + "-" + p.name + "-" + key.substr(0, 60) + ".replay";
  write_replay(path, p, best, q, log, o.tier);
  printf("  failing case: %s/%s key=%s: %s\n", p.id.c_str(), p.name.c_str(), q.key.c_str(), q.msg.substr(0, 1200).c_str());
  printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str()); fflush(stdout);
  return 0;
}

inline int main_driver(int argc, char** argv) {
  Opts o; std::string frombytes;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") o.id = nx(); else if (a == "--only") o.only = nx(); else if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--tier") o.tier = nx() == "thorough"; else if (a == "--workers") o.workers = atoi(nx().c_str());
    else if (a == "--wall") o.wall = atof(nx().c_str()); else if (a == "--mult") o.mult = atof(nx().c_str());
    else if (a == "--out") o.out = nx(); else if (a == "--replaydir") o.replaydir = nx(); else if (a == "--replay") o.replay = nx();
    else if (a == "--cpu") o.cpu_limit = atoi(nx().c_str()); else if (a == "--frombytes") frombytes = nx(); else if (a == "--explain") o.explain = true; else if (a == "--shrink") o.shrink = atoi(nx().c_str());
    else if (a == "--list") { for (auto& p : registry()) printf("%s %s %ld %ld\n", p.id.c_str(), p.name.c_str(), p.quick, p.thorough); return 0; }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  std::sort(registry().begin(), registry().end(), [](const Prop& a, const Prop& b) { return a.id + a.name < b.id + b.name; });
  if (!o.replay.empty()) {
    ReplayFile r = read_replay(o.replay);
    if (!r.ok) { fprintf(stderr, "cannot read replay %s\n", o.replay.c_str()); return 2; }
    for (auto& p : registry()) if (p.id == r.id && p.name == r.name) {
      o.tier = r.tier; std::string log; Outcome q = run_isolated(p, r.seq, o, nullptr, &log, !o.explain);
      printf("replay %s/%s: %s %s\n%s\n%s\n", p.id.c_str(), p.name.c_str(), q.kind == 1 ? "FAILS" : q.kind == 2 ? "discarded" : "passes", q.key.c_str(), q.msg.c_str(), log.c_str());
      return q.kind == 1 ? 1 : 0;
    }
    fprintf(stderr, "no property %s/%s\n", r.id.c_str(), r.name.c_str()); return 2;
  }
  std::vector<const Prop*> props;
  for (auto& p : registry()) if ((o.id.empty() || p.id == o.id) && (o.only.empty() || p.name.find(o.only) != std::string::npos)) props.push_back(&p);
  if (props.empty()) { fprintf(stderr, "no such property\n"); return 2; }
  if (!frombytes.empty()) {
    std::ifstream f(frombytes, std::ios::binary); std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    if (d.size() < 2) return 0;
    const Prop& p = *props[(uint8_t)d[0] % props.size()];
    Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); signal(SIGPROF, on_cpu); arm(o.cpu_limit); Ctx c; c.src = Ctx::BYTES; c.bytes = (const uint8_t*)d.data() + 1; c.nbytes = d.size() - 1; c.shm = sh; run_once(p, c); _exit(0); }
    int st; waitpid(pid, &st, 0);
    std::string path, key; return report(p, std::vector<uint64_t>(sh->v, sh->v + sh->n), o, path, key) ? 0 : 1;
  }
  double t0 = now(), deadline = t0 + o.wall;
  std::vector<Shared*> shm; std::vector<pid_t> pids; std::vector<std::string> files;
  std::string base = o.out.empty() ? "/tmp/pbt." + std::to_string(getpid()) : o.out;
  auto spawn = [&](int w, uint64_t sp, uint64_t si) {
    fflush(stdout); pid_t pid = fork(); if (pid == 0) { if (!o.explain) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); } worker(w, o, props, shm[w], files[w], sp, si, deadline); }
    return pid;
  };
  for (int w = 0; w < o.workers; w++) {
    shm.push_back((Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    files.push_back(base + ".w" + std::to_string(w)); unlink(files[w].c_str());
    pids.push_back(spawn(w, 0, w));
  }
  struct Fail { size_t prop; std::vector<uint64_t> seq; std::string key; };
  std::vector<Fail> fails; std::map<size_t, int> crashes; uint64_t crashed = 0;
  int live = o.workers;
  while (live > 0) {
    int st; pid_t pid = wait(&st); if (pid < 0) break;
    int w = -1; for (int i = 0; i < o.workers; i++) if (pids[i] == pid) w = i;
    if (w < 0) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
    // the worker died inside a case: keep that case, carry on behind it
    size_t pi = shm[w]->prop; crashed++;
    if (shm[w]->active) { fails.push_back({pi, std::vector<uint64_t>(shm[w]->v, shm[w]->v + shm[w]->n), WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "hang" : "crash"}); crashes[pi]++; }
    uint64_t ni = shm[w]->index + o.workers; size_t np = pi;
    if (crashes[pi] >= (getenv("PBT_KEEP_GOING") ? 1000 : 3) || !shm[w]->active) { np = pi + 1; ni = w; }
    shm[w]->active = 0;
    if (np < props.size()) pids[w] = spawn(w, np, ni); else live--;
  }
  // aggregate
  std::vector<Stats> S(props.size());
  for (auto& fn : files) {
    std::ifstream f(fn); std::string l; size_t pi = 0;
    while (std::getline(f, l)) {
      std::istringstream s(l.substr(2));
      if (l[0] == 'P') { uint64_t e, d, n; int cut; double wl; s >> pi >> e >> d >> n >> cut >> wl; S[pi].eval += e; S[pi].discards += d; S[pi].nontriv += n; S[pi].cut |= cut; S[pi].wall += wl; }
      else if (l[0] == 'L') { uint64_t n; s >> n; std::string k; std::getline(s, k); S[pi].labels[k.substr(1)] += n; }
      else if (l[0] == 'S') { size_t n; s >> n; std::string t(n, ' '); f.read(&t[0], n); std::getline(f, l); S[pi].samples.push_back(t); }
      else if (l[0] == 'F') { size_t n; s >> n; std::vector<uint64_t> q(n); for (auto& v : q) s >> v; std::string k; std::getline(f, k); fails.push_back({pi, q, k}); }
    }
    unlink(fn.c_str());
  }
  for (auto c : crashes) S[c.first].eval += c.second;
  // confirm, shrink, report (one per property name and key)
  std::set<std::pair<size_t, std::string>> done; std::vector<std::string> viol; int unconfirmed = 0;
  std::stable_sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.seq.size() < b.seq.size(); });
  for (auto& f : fails) {
    if (viol.size() >= (getenv("PBT_KEEP_GOING") ? 40u : 4u)) break;
    const Prop& p = *props[f.prop];
    if (done.count({f.prop, f.key})) continue;
    if (isRare(f.key) && !getenv("PBT_STRICT") && rare_ok(f.key, S[f.prop].labels["FAIL:" + f.key], S[f.prop].eval)) continue;
    std::string path, key;
    if (report(p, f.seq, o, path, key)) { unconfirmed++; continue; }
    done.insert({f.prop, f.key}); done.insert({f.prop, key}); viol.push_back(path);
  }
  for (size_t i = 0; i < props.size(); i++) {
    printf("%s/%s: %llu cases, %llu discarded, %llu distinct non-trivial, %.1f cpu-s%s\n", props[i]->id.c_str(), props[i]->name.c_str(), (unsigned long long)S[i].eval,
           (unsigned long long)S[i].discards, (unsigned long long)S[i].nontriv, S[i].wall, S[i].cut ? " (cut by time)" : "");
    if (o.explain || getenv("PBT_LABELS")) for (auto& kv : S[i].labels) printf("      %-50s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  }
  if (!o.out.empty()) {
    std::ofstream f(o.out); f << "{\"wall_s\":" << now() - t0 << ",\"props\":[";
    for (size_t i = 0; i < props.size(); i++) {
      f << (i ? ",\n" : "\n") << "{\"id\":" << jstr(props[i]->id) << ",\"name\":" << jstr(props[i]->name) << ",\"evaluations\":" << S[i].eval << ",\"discards\":" << S[i].discards
        << ",\"nontrivial\":" << S[i].nontriv << ",\"cpu_s\":" << S[i].wall << ",\"cut\":" << (S[i].cut ? "true" : "false") << ",\"labels\":{";
      bool first = true; for (auto& kv : S[i].labels) { f << (first ? "" : ",") << jstr(kv.first) << ":" << kv.second; first = false; }
      f << "},\"samples\":["; for (size_t k = 0; k < S[i].samples.size(); k++) f << (k ? "," : "") << jstr(S[i].samples[k]); f << "]}";
    }
    f << "],\"violations\":["; for (size_t k = 0; k < viol.size(); k++) f << (k ? "," : "") << jstr(viol[k]); f << "],\"unconfirmed\":" << unconfirmed << "}\n";
  }
  return viol.empty() ? 0 : 1;
}

// libFuzzer entry: the first byte picks the sub-property, the rest is the choice stream.
inline int fuzz_one(const uint8_t* d, size_t n) {
  static std::vector<const Prop*> props; static bool init = false;
  if (!init) { init = true; std::sort(registry().begin(), registry().end(), [](const Prop& a, const Prop& b) { return a.id + a.name < b.id + b.name; });
    const char* id = getenv("PBT_PROP"); for (auto& p : registry()) if (!id || p.id == id) props.push_back(&p); }
  if (n < 2 || props.empty()) return 0;
  const Prop& p = *props[d[0] % props.size()];
  Ctx c; c.src = Ctx::BYTES; c.bytes = d + 1; c.nbytes = n - 1;
  static Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  (void)sh;
  Outcome r = run_once(p, c);
  if (r.kind == 1 && !isRare(r.key)) {
    const char* out = getenv("PBT_FUZZ_REPLAY");
    if (out) write_replay(out, p, c.seq, r, "", 0);
    fprintf(stderr, "PBT-FUZZ-FAILURE %s/%s key=%s %s\n", p.id.c_str(), p.name.c_str(), r.key.c_str(), r.msg.c_str());
    abort();
  }
  return 0;
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
#define PBT_MAIN extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) { return pbt::fuzz_one(d, n); }
#else
#define PBT_MAIN int main(int argc, char** argv) { return pbt::main_driver(argc, argv); }
#endif
#endif
