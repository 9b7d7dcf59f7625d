// Explicit-state / stateless exploration of the real code.
// A scenario is a function whose every source of nondeterminism (inputs, operation
// sequences, random draws) is a call to vf::choose(n).  The explorer enumerates the
// whole choice tree (depth-first, replaying prefixes), sharded over worker processes;
// a scenario may cut branches whose canonical state was already expanded (vf::seen).
#pragma once
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:malloc_context_size=0:quarantine_size_mb=4:abort_on_error=1:symbolize=0"; }
namespace vf {

struct SkipEx {};
struct PruneEx {};
struct ViolationEx { std::string key, msg; };

struct Shared { // one per worker, in shared memory
  volatile uint64_t beat; volatile int scenario; volatile int len; volatile int ch[4000];
};
struct Ctx {
  std::vector<int> path; std::vector<int> arity; size_t pos = 0, start_len = 0;
  bool verbose = false; std::vector<std::string> trace;
  int worker = 0, workers = 1; bool shard_decided = false; double prod = 1; uint64_t prefix_hash = 0;
  uint64_t transitions = 0, runs = 0, pruned = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::unordered_map<uint64_t, int> expanded;
  std::map<std::string, double> counters;
  Shared* sh = nullptr;
  bool thorough = false;
};
inline Ctx& C() { static Ctx c; return c; }
inline bool thorough() { return C().thorough; }

inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
inline uint64_t dbits(double d) { if (d == 0) d = 0; uint64_t u; std::memcpy(&u, &d, 8); return u; }
struct Hash { uint64_t h = 1469598103934665603ULL;
  Hash& i(int64_t v) { h = mix(h, (uint64_t)v); return *this; }
  Hash& d(double v) { h = mix(h, dbits(v)); return *this; }
  Hash& s(const std::string& v) { for (char c : v) h = mix(h, (unsigned char)c); return i(v.size()); } };

inline void decide_shard() {
  Ctx& c = C(); if (c.shard_decided) return; c.shard_decided = true;
  if (c.workers > 1 && (int)(mix(c.prefix_hash, 77) % c.workers) != c.worker) throw SkipEx();
}
inline int choose(int n, const char* = "") {
  Ctx& c = C();
  if (n <= 0) throw std::logic_error("choose(0)");
  if (c.pos == c.path.size()) { c.path.push_back(0); c.arity.push_back(n); }
  else if (c.pos >= c.arity.size()) c.arity.push_back(n);
  else c.arity[c.pos] = n;
  int v = c.path[c.pos];
  if (v >= n) throw std::logic_error("replay divergence: choice out of range");
  if (c.sh && c.pos < 4000) { c.sh->ch[c.pos] = v; c.sh->len = (int)c.pos + 1; }
  c.pos++;
  if (!c.shard_decided) { c.prefix_hash = mix(c.prefix_hash, v + 1); c.prod *= n; if (c.prod >= 24.0 * c.workers) decide_shard(); }
  return v;
}
inline void transition(uint64_t k = 1) { C().transitions += k; if (C().sh) C().sh->beat = C().sh->beat + 1; }
// still re-executing the choices of the previous execution: checks there were already made
inline bool replaying() { return !C().verbose && C().pos < C().start_len; }
inline bool verbose() { return C().verbose; }
inline void note(const char* f, ...) {
  if (!C().verbose) return; char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); C().trace.push_back(b);
}
// record a reached state; true when new in this worker
inline bool state(uint64_t h) { return C().states.insert(h).second; }
inline void outcome(uint64_t h) { C().outcomes.insert(h); }
inline void count(const std::string& k, double v = 1) { C().counters[k] += v; }
// Cut this branch when the canonical state was already expanded with at least as much depth left.
inline void prune_if_seen(uint64_t h, int depth_left) {
  Ctx& c = C();
  if (c.verbose || !c.shard_decided) return;   // replaying a counterexample, or still above the shard split
  if (c.pos < c.start_len) return;             // still replaying the prefix of the previous execution
  auto it = c.expanded.find(h);
  if (it != c.expanded.end() && it->second >= depth_left) throw PruneEx();
  c.expanded[h] = depth_left;
}
inline std::string fmt(const char* f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw ViolationEx{key, msg}; }
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail(key, ::vf::fmt(__VA_ARGS__)); } while (0)
inline bool close(double a, double b, double rel = 1e-9, double abs_ = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}

struct Scenario { std::string name; std::function<void()> fn; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
inline void add(const std::string& n, std::function<void()> f) { scenarios().push_back({n, f}); }

struct Viol { std::string key, msg; int scenario; std::vector<int> path; uint64_t count = 1; std::vector<std::string> trace; };

inline std::string jesc(const std::string& s) {
  std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

// run once with C().path; returns 0 ok, 1 violation, 2 skip, 3 prune
inline int run_once(int sc, Viol* v) {
  Ctx& c = C(); c.pos = 0; c.start_len = c.path.size(); c.shard_decided = c.workers <= 1; c.prod = 1; c.prefix_hash = 0; c.trace.clear();
  if (c.sh) { c.sh->len = 0; c.sh->scenario = sc; c.sh->beat = c.sh->beat + 1; }
  try { scenarios()[sc].fn(); decide_shard(); c.arity.resize(c.pos); c.path.resize(c.pos); return 0; }
  catch (SkipEx&) { c.arity.resize(c.pos); c.path.resize(c.pos); return 2; }
  catch (PruneEx&) { c.arity.resize(c.pos); c.path.resize(c.pos); return 3; }
  catch (ViolationEx& e) { c.arity.resize(c.pos); c.path.resize(c.pos); *v = Viol{e.key, e.msg, sc, c.path, 1, c.trace};
    try { decide_shard(); } catch (SkipEx&) { return 2; } return 1; }
  catch (std::exception& e) { c.arity.resize(c.pos); c.path.resize(c.pos); std::string w = e.what();
    *v = Viol{"exception", "unexpected exception: " + w, sc, c.path, 1, c.trace};
    try { decide_shard(); } catch (SkipEx&) { return 2; } return 1; }
}
inline bool advance() { // next path in DFS order
  Ctx& c = C();
  while (!c.path.empty()) { if (c.path.back() + 1 < c.arity[c.path.size() - 1]) { c.path.back()++; c.arity.resize(c.path.size()); return true; } c.path.pop_back(); c.arity.resize(c.path.size()); }
  return false;
}
inline void put_u64(std::ostream& o, uint64_t v) { o.write((char*)&v, 8); }
inline uint64_t get_u64(std::istream& i) { uint64_t v = 0; i.read((char*)&v, 8); return v; }
inline void put_s(std::ostream& o, const std::string& s) { put_u64(o, s.size()); o.write(s.data(), s.size()); }
inline std::string get_s(std::istream& i) { uint64_t n = get_u64(i); std::string s(n, 0); i.read(&s[0], n); return s; }

inline int main_(int argc, char** argv) {
  std::string out = "result.json", replay; int W = 8; double limit = 1e9; double hang = 60; std::string only, prefix;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--workers") W = std::stoi(nx()); else if (a == "--thorough") C().thorough = true;
    else if (a == "--limit") limit = std::stod(nx()); else if (a == "--hang") hang = std::stod(nx()); else if (a == "--only") only = nx(); else if (a == "--prefix") prefix = nx();
    else if (a == "--replay") replay = nx(); }
  auto wanted = [&](const std::string& n) { if (only.empty()) return true; std::istringstream is(only); std::string w; while (std::getline(is, w, ',')) if (n.find(w) != std::string::npos) return true; return false; };
  for (auto& s : scenarios()) s.name = prefix + s.name;
  auto t0 = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  if (!replay.empty()) { // format: scenario-name \n n c0 c1 ...   exit 1 when the violation reproduces
    std::ifstream f(replay); std::string name; std::getline(f, name); int th = 0; size_t n; f >> th >> n; std::vector<int> p(n); for (auto& x : p) f >> x;
    C().thorough = th; C().path = p; C().arity.assign(n, 1 << 30); C().verbose = true;
    for (size_t s = 0; s < scenarios().size(); s++) if (scenarios()[s].name == name) {
      Viol v; int r = run_once(s, &v); for (auto& l : C().trace) std::cout << l << "\n";
      if (r == 1) { std::cout << "REPRODUCED key=" << v.key << " " << v.msg << "\n"; return 1; }
      std::cout << "not reproduced\n"; return 0; }
    std::cout << "unknown scenario\n"; return 2;
  }
  char tmpl[] = "/tmp/vfwXXXXXX"; std::string dir = mkdtemp(tmpl);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pids(W);
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      Ctx& c = C(); c.worker = w; c.workers = W; c.sh = sh + w;
      std::map<std::string, Viol> viols; std::vector<std::pair<int, std::vector<int>>> samples; bool complete = true;
      std::ofstream o(dir + "/w" + std::to_string(w), std::ios::binary); std::ostringstream per;
      uint64_t nsc = 0;
      for (size_t s = 0; s < scenarios().size(); s++) {
        if (!wanted(scenarios()[s].name)) continue;
        c.path.clear(); c.arity.clear(); c.expanded.clear(); uint64_t r0 = c.runs, p0 = c.pruned, tr0 = c.transitions; uint64_t nv = 0;
        uint64_t idx = 0; bool comp = true;
        do {
          Viol v; int r = run_once(s, &v);
          if (r != 2) { c.runs++; if (r == 3) c.pruned++;
            if (w == 0 && r != 3 && (idx == 0 || idx == 7 || idx == 5000)) samples.push_back({(int)s, c.path}); idx++; }
          if (r == 1) { nv++; std::string k = v.key; auto it = viols.find(k); if (it == viols.end()) { if (viols.size() < 40) viols[k] = v; } else it->second.count++; }
          if (el() > limit) { comp = complete = false; break; }
          if (nv && getenv("VF_FAILFAST")) limit = 0;
          if (nv > 20000) { comp = complete = false; break; }
        } while (advance());
        put_s(per, scenarios()[s].name); put_u64(per, c.runs - r0); put_u64(per, c.pruned - p0); put_u64(per, c.transitions - tr0); put_u64(per, comp); nsc++;
      }
      put_u64(o, c.runs); put_u64(o, c.transitions); put_u64(o, c.pruned); put_u64(o, complete);
      put_u64(o, nsc); o << per.str();
      put_u64(o, c.states.size()); for (auto h : c.states) put_u64(o, h);
      put_u64(o, c.outcomes.size()); for (auto h : c.outcomes) put_u64(o, h);
      put_u64(o, c.counters.size()); for (auto& kv : c.counters) { put_s(o, kv.first); uint64_t b; std::memcpy(&b, &kv.second, 8); put_u64(o, b); }
      put_u64(o, viols.size()); for (auto& kv : viols) { auto& v = kv.second; put_s(o, v.key); put_s(o, v.msg); put_u64(o, v.scenario); put_u64(o, v.count); put_u64(o, v.path.size()); for (int x : v.path) put_u64(o, x); }
      put_u64(o, samples.size()); for (auto& s : samples) { put_u64(o, s.first); put_u64(o, s.second.size()); for (int x : s.second) put_u64(o, x); }
      put_u64(o, 0xE0FE0FULL); o.close(); fflush(stdout); _exit(0);
    }
    pids[w] = p;
  }
  std::vector<uint64_t> last(W, 0); std::vector<double> lastt(W, 0); std::vector<int> done(W, 0); std::map<std::string, Viol> viols;
  auto crash = [&](int w, const std::string& key, const std::string& msg) { Viol v; v.key = key; v.msg = msg; v.scenario = sh[w].scenario; for (int i = 0; i < sh[w].len; i++) v.path.push_back((int)sh[w].ch[i]); 
    if (!viols.count(key)) viols[key] = v; else viols[key].count++; };
  bool complete = true;
  for (int left = W; left > 0;) {
    usleep(20000);
    for (int w = 0; w < W; w++) if (!done[w]) {
      int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) { done[w] = 1; left--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { complete = false; crash(w, WIFSIGNALED(st) ? fmt("crash:signal%d", WTERMSIG(st)) : fmt("crash:exit%d", WEXITSTATUS(st)), "the code under test crashed the process"); } continue; }
      if (sh[w].beat != last[w]) { last[w] = sh[w].beat; lastt[w] = el(); }
      else if (el() - lastt[w] > hang) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); done[w] = 1; left--; complete = false; crash(w, "hang", "the code under test did not terminate"); }
    }
  }
  uint64_t runs = 0, trans = 0, pruned = 0; std::unordered_set<uint64_t> states, outcomes; std::map<std::string, double> counters;
  struct PS { uint64_t r = 0, p = 0, t = 0; bool c = true; }; std::map<std::string, PS> per; std::vector<std::pair<int, std::vector<int>>> samples;
  for (int w = 0; w < W; w++) {
    std::ifstream f(dir + "/w" + std::to_string(w), std::ios::binary); if (!f) continue;
    f.seekg(0, std::ios::end); if ((long)f.tellg() < 64) continue; f.seekg(0);
    runs += get_u64(f); trans += get_u64(f); pruned += get_u64(f); complete &= (bool)get_u64(f);
    uint64_t n = get_u64(f); for (uint64_t i = 0; i < n; i++) { std::string s = get_s(f); auto& p = per[s]; p.r += get_u64(f); p.p += get_u64(f); p.t += get_u64(f); p.c &= (bool)get_u64(f); }
    n = get_u64(f); for (uint64_t i = 0; i < n; i++) states.insert(get_u64(f));
    n = get_u64(f); for (uint64_t i = 0; i < n; i++) outcomes.insert(get_u64(f));
    n = get_u64(f); for (uint64_t i = 0; i < n; i++) { std::string s = get_s(f); uint64_t b = get_u64(f); double d; std::memcpy(&d, &b, 8); counters[s] += d; }
    n = get_u64(f); for (uint64_t i = 0; i < n; i++) { Viol v; v.key = get_s(f); v.msg = get_s(f); v.scenario = get_u64(f); v.count = get_u64(f); uint64_t m = get_u64(f); for (uint64_t k = 0; k < m; k++) v.path.push_back(get_u64(f));
      auto it = viols.find(v.key); if (it == viols.end()) viols[v.key] = v; else { it->second.count += v.count; if (v.path.size() < it->second.path.size()) { v.count = it->second.count; it->second = v; } } }
    n = get_u64(f); for (uint64_t i = 0; i < n; i++) { int s = get_u64(f); uint64_t m = get_u64(f); std::vector<int> p; for (uint64_t k = 0; k < m; k++) p.push_back(get_u64(f)); samples.push_back({s, p}); }
  }
  { std::string cmd = "rm -rf " + dir; if (dir.rfind("/tmp/vfw", 0) == 0) { for (int w = 0; w < W; w++) unlink((dir + "/w" + std::to_string(w)).c_str()); rmdir(dir.c_str()); } }
  // re-run violations and samples verbosely in forked children to obtain readable traces (and confirm reproduction)
  auto rerun = [&](int s, const std::vector<int>& p, bool& repro) { std::vector<std::string> tr; int fd[2]; if (pipe(fd)) return tr; fflush(stdout); pid_t pid = fork();
    if (pid == 0) { alarm((unsigned)hang + 5); ::close(fd[0]); C().path = p; C().arity.assign(p.size(), 1 << 30); C().verbose = true; C().workers = 1; Viol v; int r = run_once(s, &v); std::string o; auto& t = r == 1 ? v.trace : C().trace; for (size_t i = 0; i < t.size() && i < 120; i++) o += t[i] + "\n"; size_t off = 0; while (off < o.size()) { ssize_t k = write(fd[1], o.data() + off, o.size() - off); if (k <= 0) break; off += k; } ::close(fd[1]); _exit(r == 1 ? 1 : 0); }
    ::close(fd[1]); std::string o; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k); ::close(fd[0]); int st; waitpid(pid, &st, 0); repro = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    std::istringstream is(o); std::string l; while (std::getline(is, l)) tr.push_back(l); return tr; };
  std::ofstream o(out); o << "{\"runs\":" << runs << ",\"transitions\":" << trans << ",\"states\":" << states.size() << ",\"outcomes\":" << outcomes.size() << ",\"pruned\":" << pruned
    << ",\"complete\":" << (complete ? "true" : "false") << ",\"wall\":" << el() << ",\"thorough\":" << (C().thorough ? 1 : 0);
  o << ",\"counters\":{"; bool first = true; for (auto& kv : counters) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":" << kv.second; first = false; } o << "}";
  o << ",\"scenarios\":{"; first = true; for (auto& kv : per) { o << (first ? "" : ",") << "\"" << jesc(kv.first) << "\":{\"runs\":" << kv.second.r << ",\"pruned\":" << kv.second.p << ",\"transitions\":" << kv.second.t << ",\"complete\":" << (kv.second.c ? "true" : "false") << "}"; first = false; } o << "}";
  o << ",\"samples\":["; first = true; int ns = 0; for (auto& s : samples) { if (ns >= 6) break; bool rp; auto tr = rerun(s.first, s.second, rp); if (tr.empty()) continue; ns++; o << (first ? "" : ",") << "{\"scenario\":\"" << jesc(scenarios()[s.first].name) << "\",\"trace\":["; for (size_t i = 0; i < tr.size() && i < 25; i++) o << (i ? "," : "") << "\"" << jesc(tr[i]) << "\""; o << "]}"; first = false; } o << "]";
  o << ",\"violations\":["; first = true; for (auto& kv : viols) { auto& v = kv.second; bool rp = false; auto tr = rerun(v.scenario, v.path, rp); o << (first ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"scenario\":\"" << jesc(scenarios()[v.scenario].name) << "\",\"count\":" << v.count << ",\"reproduced\":" << (rp ? "true" : "false") << ",\"choices\":["; for (size_t i = 0; i < v.path.size(); i++) o << (i ? "," : "") << v.path[i]; o << "],\"trace\":["; for (size_t i = 0; i < tr.size(); i++) o << (i ? "," : "") << "\"" << jesc(tr[i]) << "\""; o << "]}"; first = false; } o << "]}\n";
  return 0;
}
}  // namespace vf
#define VF_MAIN int main(int argc, char** argv) { setup(); return ::vf::main_(argc, argv); }
