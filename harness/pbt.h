// Small property-based-testing engine used by every check in /verif.
//
//  * every random choice of a case is a bounded draw recorded on a "tape" (0 is always the simplest value);
//  * cases are a pure function of (VERIF_SEED, sub-check name, case index) and run in forked chunk processes, so a
//    crash, sanitizer report or hang is attributed to the case whose tape lies in shared memory;
//  * failing tapes are replayed (3x, fresh process), shrunk, and written out as a replay file;
//  * optionally a chunk is a small coverage-guided campaign over tapes (inline-8bit-counters).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

static inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline uint64_t mix2(uint64_t a, uint64_t b) { uint64_t s = a * 0x9E3779B97F4A7C15ull + b; splitmix(s); return splitmix(s); }
static inline uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static inline double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

static inline std::string vfmt(const char* f, va_list ap) {
  char buf[4096]; va_list ap2; va_copy(ap2, ap); int n = vsnprintf(buf, sizeof buf, f, ap);
  std::string r;
  if (n >= 0 && size_t(n) < sizeof buf) r.assign(buf, size_t(n));
  else if (n >= 0) { r.resize(size_t(n) + 1); vsnprintf(&r[0], r.size(), f, ap2); r.resize(size_t(n)); }
  va_end(ap2); return r;
}
__attribute__((format(printf, 1, 2))) static inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

struct Fail { std::string msg; };
struct Discard {};

static const size_t kTapeCap = size_t(1) << 20;
static const size_t kNoteCap = size_t(1) << 18;
static const size_t kMaxSubs = 64, kMaxLabels = 96;

struct Slot {                       // one per worker, shared with the parent
  volatile uint64_t case_seq, case_idx;
  volatile uint64_t tape_len;
  volatile uint64_t done;           // cases finished in the chunk
  volatile uint32_t failed, hang;
  volatile uint64_t fail_idx;
  uint64_t excluded;
  uint64_t evals, nontrivial, discarded, covnew;
  uint64_t labels[kMaxLabels];
  char msg[8192];
  volatile uint64_t note_len;
  char notes[kNoteCap];
  uint64_t tape[kTapeCap];
};

class Case {
public:
  uint64_t rng = 0; bool replaying = false; const uint64_t* in = nullptr; size_t in_len = 0, pos = 0;
  Slot* slot = nullptr; bool verbose = false; bool nontriv = false; uint64_t tape_hash = 1469598103934665603ull;
  std::vector<std::string>* label_names = nullptr;
  uint64_t idx = 0; int size_hint = 100; bool thorough = false;

  // Uniform value in [0, n). 0 is the simplest choice.
  uint64_t below(uint64_t n) {
    if (n <= 1) { push(0); return 0; }
    uint64_t v;
    if (replaying && pos < in_len) { v = in[pos]; if (v >= n) v = n - 1; }
    else if (replaying && !extend) v = 0;
    else v = n == 0 ? splitmix(rng) : uint64_t((unsigned __int128)splitmix(rng) * n >> 64);
    pos++; push(v); return v;
  }
  bool extend = false;              // guided mode: tape exhausted -> fresh random values
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
  int i(int lo, int hi) { return int(range(lo, hi)); }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // 0 -> false
  bool coin() { return below(2) != 0; }
  uint64_t u64() { uint64_t hi = below(1ull << 32), lo = below(1ull << 32); return hi << 32 | lo; }
  uint32_t u32() { return uint32_t(below(1ull << 32)); }
  uint8_t byte() { return uint8_t(below(256)); }
  template<class T, size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
  template<class T> const T& pick(const std::vector<T>& a) { return a[below(a.size())]; }
  template<class T> T pickl(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  // weighted choice, returns index
  int weighted(std::initializer_list<unsigned> w) { uint64_t t = 0; for (unsigned x : w) t += x; uint64_t v = below(t); int k = 0; for (unsigned x : w) { if (v < x) return k; v -= x; k++; } return k - 1; }
  // size with a bias to small values
  size_t size(size_t max) { switch (below(4)) { case 0: return below(std::min<size_t>(max, 4) + 1); case 1: return below(std::min<size_t>(max, 16) + 1); case 2: return below(std::min<size_t>(max, 64) + 1); default: return below(max + 1); } }
  std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); for (auto& b : v) b = byte(); return v; }
  // finite double in [lo, hi]; simple values are frequent
  double real(double lo, double hi) {
    switch (below(4)) {
      case 0: { int64_t a = int64_t(std::ceil(lo)), b = int64_t(std::floor(hi)); if (a <= b) return double(range(a, b)); return lo; }
      case 1: { int64_t a = int64_t(std::ceil(lo * 4)), b = int64_t(std::floor(hi * 4)); if (a <= b) return double(range(a, b)) / 4; return lo; }
      default: return lo + (hi - lo) * (double(below(1u << 30)) / double((1u << 30) - 1));
    }
  }
  double frac() { return double(below(1u << 30)) / double(1u << 30); }

  __attribute__((format(printf, 2, 3))) void note(const char* f, ...) {
    if (!verbose) return;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); s += "\n";
    size_t n = slot->note_len, m = std::min(s.size(), kNoteCap - n); memcpy(slot->notes + n, s.data(), m); slot->note_len = n + m;
  }
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const char* name) {
    for (size_t k = 0; k < label_names->size(); k++) if ((*label_names)[k] == name) { slot->labels[k]++; return; }
    if (label_names->size() < kMaxLabels) { label_names->push_back(name); slot->labels[label_names->size() - 1]++; }
  }
  void label(bool cond, const char* name) { if (cond) label(name); }
  [[noreturn]] __attribute__((format(printf, 2, 3))) void fail(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); throw Fail{s}; }
  [[noreturn]] void discard() { throw Discard{}; }
private:
  void push(uint64_t v) { tape_hash = (tape_hash ^ (v + 0x9E37)) * 1099511628211ull; tape_hash ^= tape_hash >> 29; size_t n = slot->tape_len; if (n < kTapeCap) { slot->tape[n] = v; slot->tape_len = n + 1; } }
};

#define REQUIRE(c, cond, ...) do { if (__builtin_expect(!(cond), 0)) (c).fail(__VA_ARGS__); } while (0)

struct Opts {
  uint64_t quick = 1000, thorough = 20000, chunk = 64;
  bool flaky = false;      // schedule dependent: any reproduction in many replays confirms
  bool guided = false;     // coverage-guided tapes inside a chunk
  double cpu_limit = 60;   // CPU seconds per case before it is called a hang
};
struct Sub { std::string name; std::function<void(Case&)> fn; Opts o; };

#if defined(PBT_COVERAGE)
extern "C" { extern uint8_t* pbt_cov_begin; extern uint8_t* pbt_cov_end; }
#endif

struct Known { std::string sub, what; std::regex re; std::string restr; uint64_t hits = 0; bool seen = false; };

class Suite {
public:
  std::string prop, tier = "quick", out = "/tmp", evidence, replay_path, only, rule;
  uint64_t seed = 1; double mult = 1, deadline = 700; int workers = 8; int print_n = 0; bool digest_only = false;
  std::vector<Sub> subs; std::vector<Known> known; std::vector<std::string> assumptions;
  double t0 = now_s();

  Suite(const char* p, const char* r, int argc, char** argv) : prop(p), rule(r) {
    for (int k = 1; k < argc; k++) {
      std::string a = argv[k]; auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
      if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
      else if (a == "--replay") replay_path = val(); else if (a == "--evidence") evidence = val();
      else if (a == "--out") out = val(); else if (a == "--sub") only = val(); else if (a == "--mult") mult = atof(val().c_str());
      else if (a == "--deadline") deadline = atof(val().c_str()); else if (a == "--workers") workers = atoi(val().c_str());
      else if (a == "--print") print_n = atoi(val().c_str());
      else if (a == "--known") { std::string s = val(), re = val(), what = val(); known.push_back(Known{s, what, std::regex(re), re}); }
    }
  }
  void add(const char* name, std::function<void(Case&)> fn, Opts o) { if (only.empty() || only == name) subs.push_back(Sub{name, fn, o}); }
  void assume(const char* s) { assumptions.push_back(s); }

  int run() {
    signal(SIGPIPE, SIG_IGN);
    if (!replay_path.empty()) return do_replay();
    if (print_n) return do_print();
    return do_run();
  }

private:
  std::vector<Slot*> slots;
  std::vector<std::string> label_names[kMaxSubs];

  Slot* map_slot() { void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (Slot*)p; }
  static Slot*& cur_slot() { static Slot* s; return s; }
  static void on_prof(int) { if (cur_slot()) cur_slot()->hang = 1; _exit(78); }
  void arm(double cpu) { itimerval it{}; it.it_value.tv_sec = time_t(cpu); setitimer(ITIMER_PROF, &it, nullptr); }
  void child_setup(Slot* s, int errfd) { cur_slot() = s; signal(SIGPROF, on_prof); signal(SIGINT, SIG_DFL); if (errfd >= 0) { dup2(errfd, 2); } }
  uint64_t case_seed(const Sub& s, uint64_t idx) { return mix2(mix2(seed, hash_str(prop + "/" + s.name)), idx); }

  // ---- chunk execution (in child)
  struct Shared { uint64_t* hashes; size_t cap; volatile uint64_t* n; };
  Known* match_known(const std::string& sub, const std::string& msg) { for (auto& k : known) if (k.sub == sub && std::regex_search(msg, k.re)) return &k; return nullptr; }

  void run_case(const Sub& s, Case& c) { s.fn(c); }

  void init_case(Case& c, Slot* sl, const Sub& s, uint64_t idx, int si) {
    c.slot = sl; c.idx = idx; c.rng = case_seed(s, idx); c.label_names = &label_names[si]; c.thorough = tier == "thorough";
    sl->tape_len = 0; sl->case_idx = idx; sl->case_seq = sl->case_seq + 1;
  }

  // Runs cases [from, to) of the sub-check; exits the process.
  [[noreturn]] void chunk_child(Slot* sl, int si, uint64_t chunk_from, uint64_t from, uint64_t to, int errfd, int hashfd) {
    child_setup(sl, errfd);
    const Sub& s = subs[si];
    std::vector<uint64_t> hashes; std::vector<std::vector<uint64_t>> corpus; std::vector<uint64_t> tape;
#if defined(PBT_COVERAGE)
    std::vector<uint8_t> seen; if (s.o.guided) seen.assign(size_t(pbt_cov_end - pbt_cov_begin), 0);
#endif
    for (uint64_t i = from; i < to; i++) {
      Case c; init_case(c, sl, s, i, si); if (from == to - 1 || (getenv("PBT_NOTES") && i == to - 1)) c.verbose = true;
      if (s.o.guided && corpus.size()) {
        uint64_t r = mix2(c.rng, 77);
        if (splitmix(r) % 8 != 0) { tape = mutate(corpus, r); c.replaying = true; c.extend = true; c.in = tape.data(); c.in_len = tape.size(); }
      }
#if defined(PBT_COVERAGE)
      if (s.o.guided) memset(pbt_cov_begin, 0, size_t(pbt_cov_end - pbt_cov_begin));
#endif
      arm(s.o.cpu_limit);
      bool disc = false;
      try { run_case(s, c); }
      catch (const Fail& f) {
        arm(0);
        if (match_known(s.name, f.msg)) { sl->excluded++; }
        else { record_fail(sl, i, f.msg); if (!c.verbose) write_labels(sl, si); finish_hashes(hashfd, hashes); _exit(77); }
      }
      catch (const Discard&) { disc = true; }
      arm(0);
      sl->evals++; if (disc) sl->discarded++;
      if (c.nontriv && !disc) { sl->nontrivial++; hashes.push_back(c.tape_hash); }
#if defined(PBT_COVERAGE)
      if (s.o.guided && !disc) {
        bool add = false; const uint8_t* p = pbt_cov_begin; size_t n = seen.size();
        for (size_t k = 0; k + 8 <= n; k += 8) { uint64_t v; memcpy(&v, p + k, 8); if (!v) continue; for (size_t j = k; j < k + 8; j++) if (p[j]) { uint8_t b = bucket(p[j]); if (b & ~seen[j]) { seen[j] |= b; add = true; } } }
        if (add && sl->tape_len < 20000) { sl->covnew++; corpus.emplace_back((uint64_t*)sl->tape, (uint64_t*)sl->tape + sl->tape_len); }
      }
#endif
      sl->done = i + 1 - chunk_from;
    }
    write_labels(sl, si); finish_hashes(hashfd, hashes); _exit(0);
  }
  static uint8_t bucket(uint8_t v) { return v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128; }
  void finish_hashes(int fd, const std::vector<uint64_t>& h) { if (fd >= 0 && h.size()) { ssize_t r = write(fd, h.data(), h.size() * 8); (void)r; } }
  void record_fail(Slot* sl, uint64_t i, const std::string& msg) { sl->failed = 1; sl->fail_idx = i; snprintf(sl->msg, sizeof sl->msg, "%s", msg.c_str()); }
  // label names are created in the child; pass them back through the notes area
  void write_labels(Slot* sl, int si) { std::string s; for (auto& n : label_names[si]) s += n + "\n"; size_t m = std::min(s.size(), kNoteCap - 1); memcpy(sl->notes, s.data(), m); sl->note_len = m; }

  std::vector<uint64_t> mutate(const std::vector<std::vector<uint64_t>>& corpus, uint64_t& r) {
    std::vector<uint64_t> t = corpus[splitmix(r) % corpus.size()];
    unsigned k = 1 + unsigned(splitmix(r) % 4);
    while (k--) {
      size_t n = t.size(); if (!n) break;
      switch (splitmix(r) % 7) {
        case 0: t[splitmix(r) % n] = splitmix(r) % 256; break;
        case 1: t[splitmix(r) % n] ^= uint64_t(1) << (splitmix(r) % 16); break;
        case 2: { size_t p = splitmix(r) % n, l = 1 + splitmix(r) % 8; t.erase(t.begin() + long(p), t.begin() + long(std::min(n, p + l))); break; }
        case 3: { size_t p = splitmix(r) % n, l = std::min<size_t>(n - p, 1 + splitmix(r) % 32); std::vector<uint64_t> x(t.begin() + long(p), t.begin() + long(p + l)); t.insert(t.begin() + long(p), x.begin(), x.end()); break; }
        case 4: { auto& o = corpus[splitmix(r) % corpus.size()]; size_t p = splitmix(r) % n, q = o.size() ? splitmix(r) % o.size() : 0; t.resize(p); t.insert(t.end(), o.begin() + long(q), o.end()); break; }
        case 5: t[splitmix(r) % n] += (splitmix(r) % 2) ? 1 : ~0ull; break;
        default: t.resize(splitmix(r) % n + 1); break;
      }
    }
    if (t.size() > 40000) t.resize(40000);
    return t;
  }

  // ---- isolated execution of one tape. Returns "" when it passed, else a failure description
  struct Res { bool failed = false; std::string msg, notes, err; bool hang = false; };
  Res exec_tape(int si, const std::vector<uint64_t>& tape, bool verbose, double cpu = 0) {
    Slot* sl = slots.back(); sl->failed = 0; sl->hang = 0; sl->note_len = 0; sl->tape_len = 0;
    uint64_t* shared_tape = scratch; size_t n = std::min(tape.size(), kTapeCap); memcpy(shared_tape, tape.data(), n * 8);
    int ef = errfile(workers);
    pid_t p = fork();
    if (p == 0) {
      child_setup(sl, ef); Case c; init_case(c, sl, subs[si], 0, si); c.replaying = true; c.in = shared_tape; c.in_len = n; c.verbose = verbose;
      arm(cpu > 0 ? cpu : subs[si].o.cpu_limit);
      try { run_case(subs[si], c); } catch (const Fail& f) { record_fail(sl, 0, f.msg); _exit(77); } catch (const Discard&) {}
      _exit(0);
    }
    Res r = reap(p, sl, workers, cpu > 0 ? cpu : subs[si].o.cpu_limit);
    r.notes.assign(sl->notes, sl->note_len);
    return r;
  }
  Res exec_chunk(int si, uint64_t a, uint64_t upto) {   // replays cases [a, upto] of a chunk in a fresh process
    Slot* sl = slots.back(); memset((void*)sl, 0, offsetof(Slot, notes)); int ef = errfile(workers);
    pid_t p = fork(); if (p == 0) chunk_child(sl, si, a, a, upto + 1, ef, -1);
    return reap(p, sl, workers, subs[si].o.cpu_limit + 600);
  }
  // Resident memory of a child in bytes.
  static uint64_t rss_of(pid_t p) { char b[64]; snprintf(b, sizeof b, "/proc/%d/statm", int(p)); unsigned long long a = 0, r = 0; if (FILE* f = fopen(b, "r")) { if (fscanf(f, "%llu %llu", &a, &r) != 2) r = 0; fclose(f); } return uint64_t(r) * 4096; }
  static constexpr uint64_t kMaxRss = uint64_t(5) << 30;
  Res reap(pid_t p, Slot* sl, int w, double cpu) {
    int st = 0; double t = now_s(); uint64_t seq = sl->case_seq;
    for (unsigned k = 0;; k++) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (sl->case_seq != seq) { seq = sl->case_seq; t = now_s(); } if (k > 300 && k % 16 == 0 && rss_of(p) > kMaxRss) { kill(p, SIGKILL); waitpid(p, &st, 0); sl->hang = 3; break; } if (now_s() - t > cpu + 60) { kill(p, SIGKILL); waitpid(p, &st, 0); sl->hang = 2; break; } usleep(k < 200 ? 200 : 5000); }
    Res r; describe(r, sl, st, w); if (r.failed) r.notes.assign(sl->notes, sl->note_len); return r;
  }
  void describe(Res& r, Slot* sl, int st, int w) {
    r.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (!r.failed) return;
    r.err = read_err(w);
    if (sl->hang) { r.hang = true; r.msg = sl->hang == 1 ? "HANG: case exceeded its CPU limit" : sl->hang == 3 ? "HANG: case used more than 5 GB of memory" : "HANG: case made no progress (wall clock watchdog)"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) r.msg = std::string((char*)sl->msg);
    else r.msg = crash_summary(r.err, st);
  }
  static std::string crash_summary(const std::string& err, int st) {
    std::string s = WIFSIGNALED(st) ? fmt("CRASH: signal %d", WTERMSIG(st)) : fmt("CRASH: exit code %d", WEXITSTATUS(st));
    size_t p = err.find("SUMMARY: "); if (p != std::string::npos) s += " " + err.substr(p, err.find('\n', p) - p);
    { size_t q = err.find("/blend2d/"), e = p; if (q != std::string::npos && (e == std::string::npos || q < e)) s += " at " + err.substr(q + 1, std::min(err.find('\n', q), err.find(" (", q)) - q - 1); }
    p = err.find("runtime error: "); if (p != std::string::npos) s += " " + err.substr(p, err.find('\n', p) - p);
    return s;
  }
  std::vector<int> errfds; uint64_t* scratch = nullptr;
  int errfile(int w) {
    while (int(errfds.size()) <= w) { char t[] = "/tmp/pbterrXXXXXX"; int fd = mkstemp(t); if (fd < 0) { perror("mkstemp"); _exit(3); } unlink(t); fcntl(fd, F_SETFL, O_APPEND); errfds.push_back(fd); }
    if (ftruncate(errfds[w], 0)) {} lseek(errfds[w], 0, SEEK_SET); return errfds[w];
  }
  std::string read_err(int w) { std::string s(20000, 0); ssize_t n = pread(errfds[w], &s[0], s.size(), 0); s.resize(n > 0 ? size_t(n) : 0); size_t p = s.find("Shadow bytes around"); if (p != std::string::npos) s.resize(p); return s; }

  void init() { for (int w = 0; w <= workers; w++) slots.push_back(map_slot()); scratch = (uint64_t*)mmap(nullptr, kTapeCap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); for (int w = 0; w <= workers; w++) errfile(w); }

  struct Stat { uint64_t evals = 0, nontriv = 0, disc = 0, excluded = 0, covnew = 0, first_nontriv = ~0ull; std::map<std::string, uint64_t> labels; std::vector<uint64_t> hashes; };

  int do_run() {
    init();
    std::vector<Stat> st(subs.size());
    struct Job { int si; uint64_t a, from, b; };
    std::vector<Job> jobs;
    { // interleave the sub-checks so that every one progresses even when the run is cut short
      std::vector<uint64_t> n(subs.size()), ch(subs.size()); std::vector<std::pair<double, Job>> v;
      for (size_t k = 0; k < subs.size(); k++) {
        n[k] = std::max<uint64_t>(1, uint64_t(double(tier == "thorough" ? subs[k].o.thorough : subs[k].o.quick) * mult)); ch[k] = std::max<uint64_t>(1, subs[k].o.chunk);
        for (uint64_t a = 0; a < n[k]; a += ch[k]) v.push_back({double(a) / double(n[k]), Job{int(k), a, a, std::min(n[k], a + ch[k])}});
      }
      std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
      for (auto& x : v) jobs.push_back(x.second);
    }
    struct Fl { int si; uint64_t a, idx; std::string msg; std::vector<uint64_t> tape; bool crash; };
    std::vector<Fl> fails; std::vector<Job> running(workers); std::vector<pid_t> pid(workers, 0); std::vector<int> hashfd(workers);
    std::vector<uint64_t> seq(workers); std::vector<double> seqt(workers);
    for (auto& h : hashfd) { char t[] = "/tmp/pbthashXXXXXX"; h = mkstemp(t); unlink(t); }
    size_t next = 0; bool truncated = false; std::vector<Job> requeue; int active = 0;
    auto start = [&](int w, Job j) {
      Slot* sl = slots[w]; memset((void*)sl, 0, offsetof(Slot, notes)); if (ftruncate(hashfd[w], 0)) {} lseek(hashfd[w], 0, SEEK_SET);
      int ef = errfile(w); running[w] = j; seq[w] = 0; seqt[w] = now_s();
      fflush(stdout);
      pid_t p = fork(); if (p == 0) chunk_child(sl, j.si, j.a, j.from, j.b, ef, hashfd[w]); pid[w] = p; active++;
    };
    auto collect = [&](int w, int status) {
      Slot* sl = slots[w]; Job j = running[w]; Stat& s = st[j.si]; s.evals += sl->evals; s.nontriv += sl->nontrivial; s.disc += sl->discarded; s.excluded += sl->excluded; s.covnew += sl->covnew;
      size_t off = 0; std::vector<uint64_t> h; lseek(hashfd[w], 0, SEEK_END); off_t e = lseek(hashfd[w], 0, SEEK_CUR); h.resize(size_t(e) / 8); if (e > 0) { if (pread(hashfd[w], h.data(), h.size() * 8, 0)) {} } s.hashes.insert(s.hashes.end(), h.begin(), h.end()); (void)off;
      bool ok = WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 77);
      if (ok) { std::string names(sl->notes, sl->note_len); size_t p = 0, k = 0; while (p < names.size()) { size_t q = names.find('\n', p); if (q == std::string::npos) break; s.labels[names.substr(p, q - p)] += sl->labels[k++]; p = q + 1; } }
      if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return;
      Res r; describe(r, sl, status, w);
      uint64_t idx = sl->failed ? uint64_t(sl->fail_idx) : uint64_t(sl->case_idx);
      std::vector<uint64_t> tape((uint64_t*)sl->tape, (uint64_t*)sl->tape + sl->tape_len);
      std::string full = r.msg + "\n" + r.err;
      if (match_known(subs[j.si].name, full)) { s.excluded++; if (idx + 1 < j.b) requeue.push_back(Job{j.si, j.a, idx + 1, j.b}); return; }
      fprintf(stderr, "[%s] sub-check %s case %llu: %s\n", prop.c_str(), subs[j.si].name.c_str(), (unsigned long long)idx, r.msg.c_str());
      fails.push_back(Fl{j.si, j.a, idx, r.msg, tape, !sl->failed});
    };
    double limit = t0 + deadline, memt = 0;
    for (;;) {
      bool stop = !fails.empty();
      if (now_s() > limit) { if (next < jobs.size()) truncated = true; stop = true; }
      for (int w = 0; w < workers && !stop; w++) if (!pid[w]) {
        if (!requeue.empty()) { Job j = requeue.back(); requeue.pop_back(); start(w, j); }
        else if (next < jobs.size()) start(w, jobs[next++]);
      }
      if (!active) break;
      int status; pid_t p = waitpid(-1, &status, WNOHANG);
      if (p > 0) { for (int w = 0; w < workers; w++) if (pid[w] == p) { pid[w] = 0; active--; collect(w, status); } continue; }
      usleep(2000); double t = now_s(); bool mem = t - memt > 0.05;
      for (int w = 0; w < workers; w++) if (pid[w]) {
        if (slots[w]->case_seq != seq[w]) { seq[w] = slots[w]->case_seq; seqt[w] = t; }
        else if (t - seqt[w] > 0.5 && mem && rss_of(pid[w]) > kMaxRss) { slots[w]->hang = 3; kill(pid[w], SIGKILL); seqt[w] = t + 1e9; }
        else if (t - seqt[w] > subs[running[w].si].o.cpu_limit + 60) { slots[w]->hang = 2; kill(pid[w], SIGKILL); seqt[w] = t + 1e9; }
      }
      if (mem) memt = t;
    }
    int rc = 0; std::string inconclusive, viol;
    if (!fails.empty()) {
      std::stable_sort(fails.begin(), fails.end(), [](const Fl& a, const Fl& b) { return a.si != b.si ? a.si < b.si : a.idx < b.idx; });
      for (auto& f : fails) { viol = confirm(f.si, f.a, f.idx, f.msg, f.tape); if (!viol.empty()) { rc = 1; break; } inconclusive += subs[f.si].name + " case " + std::to_string(f.idx) + " (" + f.msg + ") did not reproduce; "; }
    }
    write_evidence(st, truncated, rc, inconclusive);
    uint64_t ev = 0; for (auto& s : st) ev += s.evals;
    for (auto& k : known) { printf("note: known finding pattern sub=%s excluded during generation\n", k.sub.c_str()); }
    if (!inconclusive.empty()) printf("INCONCLUSIVE: %s\n", inconclusive.c_str());
    printf("%s tier=%s seed=%llu cases=%llu%s time=%.1fs %s\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)ev, truncated ? " (truncated by time guard)" : "", now_s() - t0, rc ? "FAILED" : "ok");
    if (rc) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), viol.c_str());
    fflush(stdout); return rc;
  }

  std::string confirm(int si, uint64_t a, uint64_t idx, std::string msg, std::vector<uint64_t> tape) {
    const Sub& s = subs[si]; int tries = s.o.flaky ? 300 : 3, hits = 0, runs = 0; Res last;
    for (; runs < tries; runs++) { Res r = exec_tape(si, tape, false); if (r.failed && !match_known(s.name, r.msg + "\n" + r.err)) { hits++; last = r; if (s.o.flaky) break; } if (s.o.flaky && now_s() > t0 + deadline + 60) break; }
    if (!s.o.flaky && hits > 0 && hits < 3) { for (int k = 0; k < 20; k++) { Res r = exec_tape(si, tape, false); runs++; if (r.failed) { hits++; last = r; } } }
    if (hits >= (s.o.flaky ? 1 : 3)) {
      bool stable = !s.o.flaky && hits == runs;
      if (stable && !last.hang) shrink(si, tape, last);
      Res v = exec_tape(si, tape, true); if (v.failed) last = v; else last.notes = v.notes;
      return write_replay(si, idx, tape, last, fmt("confirmed %d of %d replays in fresh processes", hits, runs), "", false, 0);
    }
    int ch = 0; Res r2; uint64_t fidx = idx;
    for (int k = 0; k < (s.o.flaky ? 20 : 2); k++) { Res r = exec_chunk(si, a, idx); if (r.failed && !match_known(s.name, r.msg + "\n" + r.err)) { ch++; r2 = r; fidx = slots.back()->failed ? uint64_t(slots.back()->fail_idx) : uint64_t(slots.back()->case_idx); if (s.o.flaky) break; } }
    if (ch >= (s.o.flaky ? 1 : 2)) { // state carried from earlier cases: find the shortest prefix cut
      uint64_t lo = a; double tl = now_s() + 60;
      if (!s.o.flaky) for (uint64_t step = (fidx - a) / 2; step && now_s() < tl;) { if (lo + step <= fidx) { Res r = exec_chunk(si, lo + step, fidx); if (r.failed) { lo += step; r2 = r; if (step > (fidx - lo)) step = (fidx - lo) / 2; continue; } } step /= 2; }
      r2.notes = fmt("state-dependent failure: run cases %llu..%llu of sub-check %s with seed %llu in one process\n", (unsigned long long)lo, (unsigned long long)fidx, s.name.c_str(), (unsigned long long)seed);
      return write_replay(si, fidx, tape, r2, "confirmed by replaying the case sequence in a fresh process", "", true, lo);
    }
    return "";
  }

  void shrink(int si, std::vector<uint64_t>& tape, Res& best) {
    double tl = now_s() + (tier == "thorough" ? 60 : 30); int budget = 3000;
    auto attempt = [&](std::vector<uint64_t>& t) { if (budget-- <= 0 || now_s() > tl) return false; Res r = exec_tape(si, t, false, 20); if (r.failed && !r.hang && !match_known(subs[si].name, r.msg + "\n" + r.err)) { best = r; tape = t; return true; } return false; };
    while (!tape.empty() && tape.back() == 0) tape.pop_back();
    bool progress = true;
    while (progress && budget > 0 && now_s() < tl) {
      progress = false;
      for (size_t len = std::max<size_t>(1, tape.size() / 2); len >= 1; len /= 2) {
        for (size_t p = 0; p < tape.size() && budget > 0 && now_s() < tl;) { std::vector<uint64_t> t = tape; t.erase(t.begin() + long(p), t.begin() + long(std::min(t.size(), p + len))); if (attempt(t)) progress = true; else p += len; }
        if (len == 1) break;
      }
      for (size_t len = std::max<size_t>(1, tape.size() / 4); len >= 1; len /= 2) {
        for (size_t p = 0; p < tape.size() && budget > 0 && now_s() < tl; p += len) { std::vector<uint64_t> t = tape; bool nz = false; for (size_t k = p; k < std::min(t.size(), p + len); k++) { nz |= t[k] != 0; t[k] = 0; } if (nz && attempt(t)) progress = true; }
        if (len == 1) break;
      }
      for (size_t p = 0; p < tape.size() && budget > 0 && now_s() < tl; p++) {
        uint64_t lo = 0; while (tape[p] > lo && budget > 0 && now_s() < tl) { std::vector<uint64_t> t = tape; uint64_t m = lo + (tape[p] - lo) / 2; t[p] = m; if (attempt(t)) progress = true; else lo = m + 1; if (p >= tape.size()) break; }
      }
    }
  }

  std::string write_replay(int si, uint64_t idx, const std::vector<uint64_t>& tape, const Res& r, const std::string& conf, const std::string&, bool chunk, uint64_t lo) {
    std::string path = out + "/" + prop + "-" + subs[si].name + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    FILE* f = fopen(path.c_str(), "w"); if (!f) return path;
    fprintf(f, "property %s\nsub %s\nseed %llu\ntier %s\n", prop.c_str(), subs[si].name.c_str(), (unsigned long long)seed, tier.c_str());
    if (chunk) fprintf(f, "cases %llu %llu\n", (unsigned long long)lo, (unsigned long long)idx);
    else { fprintf(f, "tape %zu", tape.size()); for (auto v : tape) fprintf(f, " %llu", (unsigned long long)v); fprintf(f, "\n"); }
    fprintf(f, "\n# replay: python3 check.py %s --replay <this file>\n# %s\n# failure: %s\n# steps:\n", prop.c_str(), conf.c_str(), r.msg.c_str());
    size_t p = 0; while (p < r.notes.size()) { size_t q = r.notes.find('\n', p); if (q == std::string::npos) q = r.notes.size(); fprintf(f, "#   %s\n", r.notes.substr(p, q - p).c_str()); p = q + 1; }
    fprintf(f, "# stderr:\n"); p = 0; while (p < r.err.size()) { size_t q = r.err.find('\n', p); if (q == std::string::npos) q = r.err.size(); fprintf(f, "#   %s\n", r.err.substr(p, q - p).c_str()); p = q + 1; }
    fclose(f);
    fprintf(stderr, "[%s] %s\n%s", prop.c_str(), r.msg.c_str(), r.notes.substr(0, 4000).c_str());
    return path;
  }

  int do_replay() {
    init(); FILE* f = fopen(replay_path.c_str(), "r"); if (!f) { perror("replay"); return 3; }
    std::string sub; std::vector<uint64_t> tape; uint64_t lo = 0, hi = 0; bool chunk = false; char key[64];
    while (fscanf(f, "%63s", key) == 1 && key[0] != '#') {
      char v[256]; std::string k = key;
      if (k == "tape") { size_t n = 0; if (fscanf(f, "%zu", &n) != 1) break; tape.resize(n); for (auto& x : tape) { unsigned long long t; if (fscanf(f, "%llu", &t) != 1) break; x = t; } }
      else if (k == "cases") { unsigned long long a, b; if (fscanf(f, "%llu %llu", &a, &b) != 2) break; lo = a; hi = b; chunk = true; }
      else if (fscanf(f, "%255s", v) == 1) { if (k == "sub") sub = v; if (k == "seed") seed = strtoull(v, nullptr, 10); if (k == "tier") tier = v; }
    }
    fclose(f);
    for (size_t k = 0; k < subs.size(); k++) if (subs[k].name == sub) {
      Res r; int n = subs[k].o.flaky ? 300 : 1; for (int q = 0; q < n && !r.failed; q++) r = chunk ? exec_chunk(int(k), lo, hi) : exec_tape(int(k), tape, true);
      printf("%s%s\n%s\n", r.notes.c_str(), r.failed ? ("REPLAY-FAILED: " + r.msg).c_str() : "REPLAY-PASSED", r.failed ? r.err.substr(0, 6000).c_str() : "");
      if (r.failed) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_path.c_str());
      return r.failed ? 1 : 0;
    }
    fprintf(stderr, "unknown sub-check %s\n", sub.c_str()); return 3;
  }

  // runs case idx in a child with notes on; returns the notes
  std::string sample(int si, uint64_t idx, bool& nontriv) {
    Slot* sl = slots.back(); sl->failed = 0; sl->note_len = 0; sl->nontrivial = 0; int ef = errfile(workers);
    pid_t p = fork();
    if (p == 0) { child_setup(sl, ef); Case c; init_case(c, sl, subs[si], idx, si); c.verbose = true; arm(subs[si].o.cpu_limit); try { run_case(subs[si], c); } catch (...) {} sl->nontrivial = c.nontriv; _exit(0); }
    int st; waitpid(p, &st, 0); nontriv = sl->nontrivial; return std::string(sl->notes, sl->note_len);
  }
  int do_print() { init(); for (size_t k = 0; k < subs.size(); k++) for (int n = 0; n < print_n; n++) { bool nt; std::string s = sample(int(k), uint64_t(n), nt); printf("--- %s case %d%s\n%s", subs[k].name.c_str(), n, nt ? " [nontrivial]" : "", s.c_str()); } return 0; }

  static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch); else r += char(ch); } return r + "\""; }

  void write_evidence(std::vector<Stat>& st, bool truncated, int rc, const std::string& inc) {
    if (evidence.empty()) return;
    uint64_t ev = 0, nt = 0, dist = 0; std::string per, samples; bool first = true;
    for (size_t k = 0; k < subs.size(); k++) {
      Stat& s = st[k]; std::sort(s.hashes.begin(), s.hashes.end()); uint64_t d = uint64_t(std::unique(s.hashes.begin(), s.hashes.end()) - s.hashes.begin());
      ev += s.evals; nt += s.nontriv; dist += d;
      per += fmt("%s\n   %s: {\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"excluded_known\": %llu, \"coverage_increasing\": %llu, \"labels\": {", k ? "," : "", js(subs[k].name).c_str(), (unsigned long long)s.evals, (unsigned long long)s.nontriv, (unsigned long long)d, (unsigned long long)s.disc, (unsigned long long)s.excluded, (unsigned long long)s.covnew);
      bool fl = true; for (auto& l : s.labels) { per += fmt("%s%s: %llu", fl ? "" : ", ", js(l.first).c_str(), (unsigned long long)l.second); fl = false; }
      per += "}}";
      int got = 0; for (uint64_t i = 0; i < 30 && got < 1; i++) { if (now_s() > t0 + deadline + 90) break; bool n; std::string t = sample(int(k), i, n); if (n) { got++; if (t.size() > 1500) t = t.substr(0, 1500) + "..."; samples += (first ? "" : ", ") + js(subs[k].name + " #" + std::to_string(i) + ": " + t); first = false; } }
    }
    std::string as; for (auto& a : assumptions) as += (as.empty() ? "" : ", ") + js(a);
    FILE* f = fopen(evidence.c_str(), "w"); if (!f) { perror(evidence.c_str()); return; }
    fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n  \"samples\": [%s],\n  \"exhaustive\": false, \"truncated_by_time_guard\": %s, \"inconclusive\": %s,\n  \"subchecks\": {%s\n  }\n },\n \"assumptions\": [%s],\n \"wall_s\": %.2f, \"violations\": %d\n}\n",
      prop.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)ev, (unsigned long long)dist, js(rule).c_str(), samples.c_str(), truncated ? "true" : "false", js(inc).c_str(), per.c_str(), as.c_str(), now_s() - t0, rc);
    fclose(f);
  }
};

} // namespace pbt
