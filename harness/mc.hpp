// Stateless model checker used by every C++ check of /verif.
//
// A check is a function body(Ctx&) that drives the real code.  Every piece of
// nondeterminism (problem, options, environment answers, operation order,
// schedule) is drawn with Ctx::choose(); the explorer enumerates all choice
// vectors depth first, so that a finished run has executed the body once for
// every element of the bounded space.  Ctx::shard() marks the end of the
// configuration prefix; prefixes are dealt round-robin to forked workers.
#pragma once
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 33);
}
inline uint64_t hstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
inline uint64_t hdbl(double d) {  // rounded, so that states are compared up to 1e-7
  if (std::isnan(d)) return 0x7ff8;
  if (std::isinf(d)) return d > 0 ? 0x7ff0 : 0xfff0;
  double r = std::nearbyint(d * 1e7);
  if (std::fabs(r) > 9e15) return static_cast<uint64_t>(std::llround(std::log(std::fabs(d)) * 1e6)) ^ (d < 0);
  return static_cast<uint64_t>(static_cast<int64_t>(r));
}

inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (static_cast<unsigned char>(c) < 32) o += ' ';
    else o += c;
  }
  return o;
}

struct Viol { std::string key, msg, cfg; std::vector<int> path; };

struct Ctx {
  bool thorough = false;
  int worker = 0, nworkers = 1;
  // DFS
  std::vector<int> path, width;
  size_t pos = 0;
  bool replaying = false;
  long long shard_ord = -1;
  std::vector<int> last_prefix;
  bool prefix_set = false;
  // coverage
  uint64_t execs = 0, transitions = 0, traces = 0, checks = 0, nontrivial = 0;
  std::unordered_set<uint64_t> states;
  uint64_t cfg_hash = 0;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> stats;
  // violations
  std::vector<Viol> viols;
  std::set<std::string> vkeys;
  std::string cfg;  // human readable configuration of the current run
  char* shm = nullptr;  // current choice vector, for crash reports
  std::set<std::string> known;       // keys of recorded findings
  volatile int* found = nullptr;     // shared by the workers: a violation that is not recorded was found
  bool stopped = false;              // exploration ended early because of it

  int choose(int n) {
    if (n <= 1) return 0;
    if (pos < path.size()) {
      if (width[pos] != n) {
        if (replaying) { width[pos] = n; if (path[pos] >= n) path[pos] = n - 1; }
        else { fprintf(stderr, "nondeterministic choice width %d vs %d at %zu (%s)\n", width[pos], n, pos, cfg.c_str()); _exit(70); }
      }
      publish();
      return path[pos++];
    }
    path.push_back(0);
    width.push_back(n);
    pos++;
    publish();
    return 0;
  }
  template <class V> auto pick(const V& v) -> decltype(v[0]) { return v[static_cast<size_t>(choose(static_cast<int>(v.size())))]; }
  bool flag() { return choose(2) == 1; }
  void publish() {
    if (!shm) return;
    int n = static_cast<int>(std::min<size_t>(path.size(), 900));
    int* p = reinterpret_cast<int*>(shm);
    p[0] = n;
    for (int i = 0; i < n; ++i) p[1 + i] = path[static_cast<size_t>(i)];
    note();
  }
  // keep the description of the current run where the parent can read it if the run ends the process
  void note() {
    if (!shm) return;
    const size_t l = std::min<size_t>(cfg.size(), 4000);
    memcpy(shm + 4096, cfg.data(), l); shm[4096 + l] = 0;
  }
  void shard() {
    std::vector<int> pre(path.begin(), path.begin() + static_cast<long>(pos));
    if (!prefix_set || pre != last_prefix) { prefix_set = true; last_prefix = pre; ++shard_ord;
      cfg_hash = 77; for (int v : pre) cfg_hash = mix(cfg_hash, static_cast<uint64_t>(v) + 1); }
    if (!replaying && nworkers > 1 && mix(99, static_cast<uint64_t>(shard_ord)) % static_cast<uint64_t>(nworkers) != static_cast<uint64_t>(worker)) throw Skip();
  }
  bool next() {
    path.resize(pos);
    width.resize(pos);
    while (!path.empty()) {
      if (path.back() + 1 < width.back()) { path.back()++; return true; }
      path.pop_back(); width.pop_back();
    }
    return false;
  }
  void state(uint64_t h) { if (states.size() < 4000000) states.insert(mix(cfg_hash, h)); }
  void transition(uint64_t n = 1) { transitions += n; }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
  void stat(const std::string& k, uint64_t n = 1) { stats[k] += n; }
  void fail(const std::string& key, const std::string& msg) {
    stat("viol:" + key);
    if (found && !known.count(key)) *found = 1;
    if (vkeys.insert(key).second) {
      viols.push_back({key, msg, cfg, std::vector<int>(path.begin(), path.begin() + static_cast<long>(pos))});
      if (getenv("MC_VERBOSE")) fprintf(stderr, "[w%d] %s: %s  cfg=%s\n", worker, key.c_str(), msg.c_str(), cfg.c_str());
    }
  }
  // cond must hold.  `key` identifies the finding, `msg` is free text.
  bool check(bool cond, const std::string& key, const std::string& msg = "") {
    ++checks;
    if (!cond) fail(key, msg);
    return cond;
  }
};

inline std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
template <class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(12); (o << ... << a); return o.str(); }

struct Check {
  const char* property;
  const char* rule;          // how the space is built
  const char* bounds_quick;  // stated bounds
  const char* bounds_thorough;
  std::vector<std::string> assumptions;
};

typedef std::function<void(Ctx&)> Body;

inline void dump_worker(const Ctx& c, const std::string& file) {
  std::ofstream o(file, std::ios::binary);
  o << c.execs << ' ' << c.transitions << ' ' << c.traces << ' ' << c.checks << ' ' << c.nontrivial << ' ' << c.states.size() << ' ' << c.stopped << '\n';
  o << c.stats.size() << '\n';
  for (auto& s : c.stats) o << s.first << '\t' << s.second << '\n';
  o << c.samples.size() << '\n';
  for (auto& s : c.samples) o << esc(s) << '\n';
  o << c.viols.size() << '\n';
  for (auto& v : c.viols) {
    o << esc(v.key) << '\n' << esc(v.msg) << '\n' << esc(v.cfg) << '\n' << v.path.size();
    for (int p : v.path) o << ' ' << p;
    o << '\n';
  }
  o << "done\n";
}

inline int g_timeout = 120;
inline void arm(int s) { struct itimerval it {}; it.it_value.tv_sec = s; setitimer(ITIMER_REAL, &it, nullptr); }

inline void run_one(Ctx& c, const Body& body) {
  c.pos = 0; c.cfg.clear();
  try { body(c); c.execs++; }
  catch (Skip&) {}
  catch (std::exception& e) { c.fail("uncaught-exception", e.what()); }
}

inline void explore(Ctx& c, const Body& body) {
  uint64_t n = 0;
  const auto t0 = std::chrono::steady_clock::now();
  const double grace = getenv("MC_GRACE") ? atof(getenv("MC_GRACE")) : c.thorough ? 120 : 30;
  do {
    if ((n++ & 255) == 0) arm(g_timeout);
    run_one(c, body);
    if (c.viols.size() >= 12) { c.stopped = true; break; }
    // with a violation at hand the rest of the space is of no interest
    if (c.found && *c.found && (n & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > grace) { c.stopped = true; break; }
  } while (c.next());
  arm(0);
}

inline std::vector<std::pair<std::string, std::string>> load_known(const std::string& file, const std::string& prop) {
  // lines: "known: property=<id> key=<key> :: <text>"
  std::vector<std::pair<std::string, std::string>> out;
  std::ifstream f(file);
  std::string l;
  while (std::getline(f, l)) {
    std::string pre = "known: property=" + prop + " key=";
    if (l.rfind(pre, 0) != 0) continue;
    size_t e = l.find(" :: ");
    out.push_back({l.substr(pre.size(), e == std::string::npos ? std::string::npos : e - pre.size()),
                   e == std::string::npos ? "" : l.substr(e + 4)});
  }
  return out;
}

inline int main_check(int argc, char** argv, const Check& ck, const Body& body) {
  std::string tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick";
  std::string verif = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
  std::string scratch = getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp";
  std::string replay;
  int nw = getenv("MC_WORKERS") ? atoi(getenv("MC_WORKERS")) : 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") tier = "thorough";
    else if (a == "--quick") tier = "quick";
    else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
    else if (a == "--workers" && i + 1 < argc) nw = atoi(argv[++i]);
  }
  const bool th = tier == "thorough";
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string l;
    Ctx c; c.thorough = th; c.replaying = true;
    while (std::getline(f, l)) {
      if (l.rfind("tier ", 0) == 0) c.thorough = l.substr(5) == "thorough";
      if (l.rfind("choices", 0) == 0) { std::istringstream s(l.substr(7)); int v; while (s >> v) { c.path.push_back(v); c.width.push_back(v + 1); } }
    }
    run_one(c, body);
    printf("replay cfg: %s\n", c.cfg.c_str());
    for (auto& v : c.viols) printf("VIOLATION property=%s replay=%s\n  %s: %s\n", ck.property, replay.c_str(), v.key.c_str(), v.msg.c_str());
    if (c.viols.empty()) printf("no violation on replay\n");
    return c.viols.empty() ? 0 : 1;
  }
  auto t0 = std::chrono::steady_clock::now();
  fflush(nullptr);
  char* shm = static_cast<char*>(mmap(nullptr, 8192u * static_cast<unsigned>(nw), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<pid_t> pids;
  auto known = load_known(verif + "/known_findings.txt", ck.property);
  volatile int* found = static_cast<volatile int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (int w = 0; w < nw; ++w) {
    pid_t p = fork();
    if (p == 0) {
      Ctx c; c.thorough = th; c.worker = w; c.nworkers = nw; c.shm = shm + 8192 * w; c.found = found;
      for (auto& k : known) c.known.insert(k.first);
      signal(SIGALRM, SIG_DFL);
      explore(c, body);
      dump_worker(c, cat(scratch, "/w", w));
      _exit(0);
    }
    pids.push_back(p);
  }
  uint64_t execs = 0, trans = 0, traces = 0, checks = 0, nontriv = 0, states = 0;
  std::map<std::string, uint64_t> stats;
  std::vector<std::string> samples;
  std::map<std::string, Viol> viols;
  bool broken = false, stopped = false;
  std::map<pid_t, int> ended;
  while (ended.size() < pids.size()) {
    int st = 0;
    const pid_t q = waitpid(-1, &st, 0);
    if (q < 0) break;
    ended[q] = st;
    if (st != 0) *found = 1;
  }
  for (int w = 0; w < nw; ++w) {
    const int st = ended[pids[static_cast<size_t>(w)]];
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      int* p = reinterpret_cast<int*>(shm + 8192 * w);
      Viol v; v.path.assign(p + 1, p + 1 + p[0]); v.cfg = reinterpret_cast<char*>(p) + 4096;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 70) { broken = true;
        v.key = "nondeterminism"; v.msg = "the same choices led to different behaviour"; }
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { v.key = "hang"; v.msg = cat("no progress for ", g_timeout, " s"); }
      else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker %d was killed\n", w); broken = true; continue; }
      else { v.key = "crash"; v.msg = cat("worker ended with status ", st, WIFSIGNALED(st) ? cat(" signal ", WTERMSIG(st)) : cat(" exit ", WEXITSTATUS(st))); }
      viols.insert({v.key, v});
      continue;
    }
    std::ifstream f(cat(scratch, "/w", w), std::ios::binary);
    uint64_t a, b, c2, d, e, g; int stop; f >> a >> b >> c2 >> d >> e >> g >> stop; stopped = stopped || stop;
    execs += a; trans += b; traces += c2; checks += d; nontriv += e; states += g;
    size_t n; f >> n; std::string l; std::getline(f, l);
    for (size_t i = 0; i < n; ++i) { std::getline(f, l); size_t t = l.rfind('\t'); stats[l.substr(0, t)] += strtoull(l.c_str() + t + 1, nullptr, 10); }
    f >> n; std::getline(f, l);
    for (size_t i = 0; i < n; ++i) { std::getline(f, l); if (samples.size() < 6) samples.push_back(l); }
    f >> n; std::getline(f, l);
    for (size_t i = 0; i < n; ++i) {
      Viol v; std::getline(f, v.key); std::getline(f, v.msg); std::getline(f, v.cfg);
      size_t m; f >> m; v.path.resize(m); for (auto& x : v.path) f >> x; std::getline(f, l);
      viols.insert({v.key, v});
    }
    std::getline(f, l);
    if (l != "done") { fprintf(stderr, "worker %d left no complete report\n", w); broken = true; }
    unlink(cat(scratch, "/w", w).c_str());
  }
  double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("MC_BUILD_S")) wall += atof(getenv("MC_BUILD_S"));
  // classification
  int bad = 0;
  std::string rdir = verif + "/replay";
  (void)!system(("mkdir -p '" + rdir + "' '" + verif + "/evidence'").c_str());
  std::string seed = getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1";
  for (auto& kv : viols) {
    const Viol& v = kv.second;
    bool isk = false;
    for (auto& k : known) if (k.first == v.key) { printf("KNOWN-FINDING: property=%s %s (%s)\n", ck.property, k.second.c_str(), v.key.c_str()); isk = true; }
    if (isk) continue;
    std::string rp = cat(rdir, "/", ck.property, "-", bad, ".txt");
    std::ofstream o(rp);
    o << "property " << ck.property << "\ntier " << tier << "\nkey " << v.key << "\nmsg " << v.msg << "\ncfg " << v.cfg << "\nchoices";
    for (int p : v.path) o << ' ' << p;
    o << '\n';
    o.close();
    ++bad;
    printf("VIOLATION property=%s replay=%s\n  %s: %s\n  cfg: %s\n", ck.property, rp.c_str(), v.key.c_str(), v.msg.c_str(), v.cfg.c_str());
  }
  std::ofstream ev(cat(verif, "/evidence/", ck.property, ".json"));
  ev << "{\n \"property\": \"" << ck.property << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ",\n \"level\": \"model_checking\",\n \"coverage\": {\n"
     << "  \"states\": " << states << ", \"transitions\": " << trans << ", \"executions\": " << execs
     << ", \"traces_validated_against_impl\": " << traces << ", \"assertions_evaluated\": " << checks
     << ", \"executions_nontrivial\": " << nontriv << ",\n  \"exhaustive\": " << ((!stopped && !broken) ? "true" : "false")
     << ",\n  \"rule\": \"" << esc(ck.rule) << "\",\n  \"bounds\": \"" << esc(th ? ck.bounds_thorough : ck.bounds_quick) << "\",\n  \"stats\": {";
  bool first = true;
  for (auto& s : stats) { ev << (first ? "" : ", ") << "\"" << esc(s.first) << "\": " << s.second; first = false; }
  ev << "},\n  \"samples\": [";
  first = true;
  for (auto& s : samples) { ev << (first ? "" : ",") << "\n   \"" << s << "\""; first = false; }
  ev << "]\n },\n \"assumptions\": [";
  first = true;
  for (auto& s : ck.assumptions) { ev << (first ? "" : ", ") << "\"" << esc(s) << "\""; first = false; }
  ev << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << bad << "\n}\n";
  ev.close();
  printf("%s %s: %llu executions, %llu states, %llu transitions, %llu traces compared, %llu assertions, %.1f s\n", ck.property, tier.c_str(),
         (unsigned long long)execs, (unsigned long long)states, (unsigned long long)trans, (unsigned long long)traces, (unsigned long long)checks, wall);
  if (getenv("MC_STATS")) for (auto& s : stats) printf("   %s = %llu\n", s.first.c_str(), (unsigned long long)s.second);
  if (bad) return 1;
  if (broken) { printf("the check itself failed\n"); return 2; }
  if (execs == 0 || checks == 0) { printf("nothing was explored\n"); return 2; }
  return 0;
}

}  // namespace mc
