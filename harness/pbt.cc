#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <deque>
#include <fstream>
#include <unordered_set>

#include "third_party/abseil/absl/flags/flag.h"
#include "third_party/abseil/absl/hash/hash.h"

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=0:detect_container_overflow=0:detect_odr_violation=0:abort_on_error=0:exitcode=98:hard_rss_limit_mb=3500:handle_abort=0:symbolize=0:quarantine_size_mb=32:max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0:allow_user_segv_handler=1";
}
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)());
// glog's level flags (only present when glog is linked).
namespace fLI { __attribute__((weak)) extern int FLAGS_minloglevel; }

namespace pbt {
uint64_t HashStr(std::string_view s) { uint64_t x = 1469598103934665603ull; for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; } return x; }

static double Now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static int RmCb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void RemoveTree(const std::string& d) { if (d.find("/pbt.") != std::string::npos) nftw(d.c_str(), RmCb, 16, FTW_DEPTH | FTW_PHYS); }
static void MakeEmptyDir(const std::string& d) { RemoveTree(d); mkdir(d.c_str(), 0755); }

void WriteFile(const std::string& path, std::string_view data) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(data.data(), data.size()); f.close(); if (!f) { fprintf(stderr, "harness: cannot write %s\n", path.c_str()); _exit(3); } }
std::string ReadFile(const std::string& path) { std::ifstream f(path, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
std::string Hex(std::string_view s) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }

static bool WaitOk(pid_t p) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return WIFEXITED(st) && WEXITSTATUS(st) == 0; }
bool Dies(const std::function<void()>& f) { bool d; InChild([&] { f(); return std::string(); }, &d); return d; }
std::string InChild(const std::function<std::string()>& f, bool* died) {
  fflush(stdout); fflush(stderr);
  int fd[2]; if (pipe(fd)) _exit(3);
  pid_t p = fork();
  if (p < 0) { fprintf(stderr, "harness: fork failed\n"); _exit(3); }
  if (p == 0) {
    close(fd[0]); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2);
    std::string r; try { r = f(); } catch (...) { _exit(99); }
    size_t o = 0; while (o < r.size()) { ssize_t k = write(fd[1], r.data() + o, r.size() - o); if (k <= 0) break; o += k; }
    _exit(0);
  }
  close(fd[1]); std::string r; char b[65536]; ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) r.append(b, k);
  close(fd[0]); bool ok = WaitOk(p); if (died) *died = !ok; return r;
}
int Exec(const std::vector<std::string>& argv, std::string* out, std::string* err) {
  fflush(stdout); fflush(stderr);
  int fo[2]; if (pipe(fo)) _exit(3);
  char ef[] = "/tmp/pbt.errXXXXXX"; int efd = mkstemp(ef); unlink(ef);
  pid_t p = fork();
  if (p == 0) {
    dup2(fo[1], 1); dup2(efd, 2); close(fo[0]); close(fo[1]);
    std::vector<char*> a; for (auto& s : argv) a.push_back(const_cast<char*>(s.c_str())); a.push_back(nullptr);
    execvp(a[0], a.data()); _exit(127);
  }
  close(fo[1]); std::string r; char b[65536]; ssize_t k;
  while ((k = read(fo[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) r.append(b, k);
  close(fo[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (out) *out = r;
  if (err) { lseek(efd, 0, SEEK_SET); err->clear(); while ((k = read(efd, b, sizeof b)) > 0) err->append(b, k); }
  close(efd);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

namespace {
struct WorkerShm {
  std::atomic<uint64_t> current;      // 1 + case index being run, 0 when idle
  std::atomic<uint64_t> done;
  std::atomic<int> finished;
};
struct Shm { std::atomic<int> stop; WorkerShm w[64]; };

struct Result { enum { kOk, kFail, kDiscard } kind = kOk; std::string message; };

std::string g_scratch_root;
volatile sig_atomic_t g_timing = 0;
void OnProf(int) { if (g_timing) { static const char m[] = "\nharness: case exceeded its CPU-time limit\n"; (void)!write(2, m, sizeof m - 1); _exit(97); } }

void ResetGlobals() { for (auto& [n, f] : absl::flags_internal::Registry()) f->Reset(); }

Result RunCase(const Suite& su, const Sub& sub, Src& src, Case& c) {
  Result r;
  ResetGlobals(); absl::shim::g_ptr_ids.clear();
  absl::shim::g_hash_seed = 0x9e3779b97f4a7c15ull;
  struct itimerval it = {}; it.it_value.tv_sec = (time_t)su.cpu_limit_s; g_timing = 1; setitimer(ITIMER_PROF, &it, nullptr);
  try {
    absl::shim::g_hash_seed = HashMix(77, src.Draw(255));
    static const char* grow = getenv("PBT_GROW"); src.Grow(grow ? atoi(grow) : su.grow);
    sub.fn(src, c); c.LabelIf(src.grown(), "a long list");
  } catch (const Failure& f) { r.kind = Result::kFail; r.message = f.what(); }
  catch (const Discard&) { r.kind = Result::kDiscard; }
  catch (const std::exception& e) { r.kind = Result::kFail; r.message = std::string("uncaught exception: ") + e.what(); }
  g_timing = 0; it = {}; setitimer(ITIMER_PROF, &it, nullptr);
  return r;
}

void ChildSetup(const Suite& su, const std::string& logfile) {
  signal(SIGPROF, OnProf);
  int fd = open(logfile.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
  if (&fLI::FLAGS_minloglevel) fLI::FLAGS_minloglevel = 3;
  if (su.init) su.init();
}
uint64_t CaseSeed(uint64_t seed, const Sub& sub, uint64_t i) { return HashMix(HashMix(seed, HashStr(sub.name)), i); }

std::string Tail(const std::string& file) { std::string s = ReadFile(file); if (s.size() > 3000) s = s.substr(0, 1500) + "\n...\n" + s.substr(s.size() - 1500); return s; }

struct Attempt { bool failed; bool hang; std::string message; std::vector<uint64_t> log; std::string text; };
// Runs one choice list in a fresh child.
Attempt TryChoices(const Suite& su, const Sub& sub, const std::vector<uint64_t>& ch, bool want_text, int id = 0) {
  std::string dir = g_scratch_root + "/try" + std::to_string(id), logf = dir + ".log", outf = dir + ".out";
  MakeEmptyDir(dir); unlink(outf.c_str());
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    ChildSetup(su, logf);
    Src s(ch); Case c; c.scratch = dir; c.want_text = want_text;
    // The consumed choices are saved even if the case kills the process.
    Result r = RunCase(su, sub, s, c);
    if (r.kind == Result::kFail) {
      std::ofstream o(outf, std::ios::binary); o << s.log().size() << "\n"; for (auto v : s.log()) o << v << " "; o << "\n" << r.message << "\n\x01" << c.text; o.close(); _exit(96);
    }
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Attempt a{false, false, "", {}, ""};
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return a;
  a.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 96) {
    std::string t = ReadFile(outf); std::istringstream in(t); size_t n = 0; in >> n; a.log.resize(n); for (auto& v : a.log) in >> v; std::string rest; std::getline(in, rest);
    std::ostringstream o; o << in.rdbuf(); rest = o.str(); size_t k = rest.find('\x01'); a.message = rest.substr(0, k); if (k != std::string::npos) a.text = rest.substr(k + 1);
  } else {
    a.hang = WIFEXITED(st) && WEXITSTATUS(st) == 97;
    a.log = ch;
    a.message = (WIFSIGNALED(st) ? "process killed by signal " + std::to_string(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st))) + "; its output:\n" + Tail(logf);
  }
  return a;
}

std::vector<uint64_t> Shrink(const Suite& su, const Sub& sub, std::vector<uint64_t> best, double budget) {
  double end = Now() + budget; int tries = 0;
  auto Try = [&](const std::vector<uint64_t>& c) {
    if (Now() > end || c == best) return false;
    ++tries; Attempt a = TryChoices(su, sub, c, false);
    if (!a.failed || a.hang) return false;
    std::vector<uint64_t> n = a.log.size() <= c.size() ? a.log : c;
    while (!n.empty() && n.back() == 0) n.pop_back();
    best = n; return true;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    { std::vector<uint64_t> c = best; while (!c.empty() && c.size() > 1) { c.resize(c.size() / 2); if (Try(c)) { progress = true; c = best; } else break; } }
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1; k = k > 8 ? k / 2 : k - 1) {
      for (size_t i = best.size(); i >= k && Now() < end; ) {
        std::vector<uint64_t> c = best; if (i > c.size()) { i = c.size(); if (i < k) break; }
        c.erase(c.begin() + (i - k), c.begin() + i);
        if (Try(c)) { progress = true; i = std::min(i, best.size()); }
        else i -= std::max<size_t>(1, k / 2) <= i ? std::max<size_t>(1, k / 2) : i;
      }
      if (Now() > end) break;
    }
    for (size_t i = 0; i < best.size() && Now() < end; ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c = best; c[i] = 0; if (Try(c)) { progress = true; continue; }
      if (i + 1 < best.size()) { c = best; c[i]--; c.erase(c.begin() + i + 1); if (Try(c)) { progress = true; continue; } }
      uint64_t lo = 0; for (int g = 0; g < 20 && i < best.size() && lo + 1 < best[i]; ++g) { uint64_t mid = lo + (best[i] - lo) / 2; c = best; c[i] = mid; if (Try(c)) progress = true; else lo = mid; }
    }
  }
  return best;
}

std::string Json(const std::string& s) {
  std::string r = "\""; for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}

struct Totals { uint64_t done = 0, discarded = 0, nontrivial = 0; std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> keys; std::map<std::string, std::pair<uint64_t, std::string>> known; std::vector<std::string> samples; };

void Worker(const Suite& su, const Sub& sub, uint64_t seed, uint64_t total, int w, int K, Shm* shm, double deadline) {
  std::string dir = g_scratch_root + "/w" + std::to_string(w), logf = dir + ".log", outf = dir + ".out";
  MakeEmptyDir(dir);
  ChildSetup(su, logf);
  Totals t;
  for (uint64_t i = w; i < total; i += K) {
    if (shm->stop.load() || (deadline > 0 && Now() > deadline)) break;
    if (lseek(2, 0, SEEK_END) > (1 << 20)) { (void)!ftruncate(2, 0); }
    shm->w[w].current.store(i + 1);
    Src s(CaseSeed(seed, sub, i)); Case c; c.scratch = dir;
    c.want_text = t.samples.empty() || (t.samples.size() < 3 && i > 40u * K);
    Result r = RunCase(su, sub, s, c);
    if (r.kind == Result::kFail) { fprintf(stderr, "\nfailure: %s\n", r.message.c_str()); _exit(96); }
    if (r.kind == Result::kDiscard) { ++t.discarded; continue; }
    ++t.done;
    for (auto& l : c.labels) ++t.labels[l];
    for (auto& [id, what] : c.known) { auto& k = t.known[id]; ++k.first; k.second = what; }
    if (c.nontrivial) {
      ++t.nontrivial; uint64_t h = 0; for (size_t j = 1; j < s.log().size(); ++j) h = HashMix(h, s.log()[j]); t.keys.insert(h);
      if (c.want_text && !c.text.empty()) t.samples.push_back(c.text);
    }
  }
  shm->w[w].current.store(0);
  std::ofstream o(outf, std::ios::binary);
  o << t.done << " " << t.discarded << " " << t.nontrivial << " " << t.keys.size() << " " << t.labels.size() << " " << t.known.size() << " " << t.samples.size() << "\n";
  for (auto k : t.keys) o << k << "\n";
  auto S = [&](const std::string& s) { o << s.size() << " " << s << "\n"; };
  for (auto& [l, n] : t.labels) { o << n << " "; S(l); }
  for (auto& [id, k] : t.known) { o << k.first << " "; S(id); S(k.second); }
  for (auto& s : t.samples) S(s);
  o.close();
  shm->w[w].finished.store(1);
  _exit(0);
}
std::string ReadStr(std::istream& in) { size_t n; in >> n; in.get(); std::string s(n, 0); in.read(&s[0], n); return s; }
}  // namespace

int Main(int argc, char** argv, const Suite& su) {
  auto Env = [](const char* n, const char* d) { const char* v = getenv(n); return std::string(v && *v ? v : d); };
  uint64_t seed = strtoull(Env("VERIF_SEED", "1").c_str(), nullptr, 10);
  bool thorough = Env("VERIF_TIER", "quick") == "thorough";
  int K = atoi(Env("PBT_WORKERS", "8").c_str());
  double scale = atof(Env("PBT_SCALE", "1").c_str());
  double limit = atof(Env("PBT_TIME", thorough ? "3000" : "150").c_str());
  std::string replay_dir = Env("PBT_REPLAYS", "replays"), stats = Env("PBT_STATS", ""), only = Env("PBT_ONLY", "");
  char tmpl[64]; snprintf(tmpl, sizeof tmpl, "%s/pbt.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  g_scratch_root = tmpl; mkdir(replay_dir.c_str(), 0755);
  struct Cleaner { ~Cleaner() { RemoveTree(g_scratch_root); } } cleaner;
  double t0 = Now();

  if (argc > 2 && std::string(argv[1]) == "--replay") {
    std::ifstream in(argv[2]); std::string key, name; std::vector<uint64_t> ch; size_t n = 0; uint64_t pseed = 0, pidx = 0; int pk = 0;
    while (in >> key) { if (key == "sub") { in >> std::ws; std::getline(in, name); } else if (key == "choices") { in >> n; ch.resize(n); for (auto& v : ch) in >> v; } else if (key == "prefix") in >> pseed >> pidx >> pk; else { std::string l; std::getline(in, l); } if (key == "choices" || key == "prefix") break; }
    for (auto& sub : su.subs) if (sub.name == name) {
      if (pk) {
        pid_t p = fork();
        if (p == 0) { std::string d = g_scratch_root + "/pw"; MakeEmptyDir(d); ChildSetup(su, d + ".log"); for (uint64_t j = pidx % pk; j <= pidx; j += pk) { Src s(CaseSeed(pseed, sub, j)); Case c; c.scratch = d; Result r = RunCase(su, sub, s, c); if (r.kind == Result::kFail) { fprintf(stderr, "failure: %s\n", r.message.c_str()); _exit(96); } } _exit(0); }
        bool ok = WaitOk(p); printf("replay %s (cases up to %llu): %s\n%s\n", name.c_str(), (unsigned long long)pidx, ok ? "passes" : "FAILS", ok ? "" : Tail(g_scratch_root + "/pw.log").c_str()); return ok ? 0 : 1;
      }
      Attempt a = TryChoices(su, sub, ch, true);
      printf("replay %s: %s\n%s\n%s\n", name.c_str(), a.failed ? "FAILS" : "passes", a.message.c_str(), a.text.c_str());
      return a.failed ? 1 : 0;
    }
    fprintf(stderr, "unknown sub-property %s\n", name.c_str()); return 3;
  }

  Shm* shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  uint64_t evals = 0, nontrivial = 0, discarded = 0; std::vector<std::string> per_sub, samples; std::map<std::string, std::pair<uint64_t, std::string>> known; int violations = 0;
  int nsubs = 0; for (auto& s : su.subs) if (only.empty() || s.name == only) ++nsubs;
  int isub = 0;
  // A failure that no replay reproduces is looked for once more with another
  // seed: a second one is reported, however it comes about.
  struct Job { const Sub* sub; uint64_t seed; int strikes; }; std::deque<Job> jobs;
  for (const Sub& sub : su.subs) if (only.empty() || sub.name == only) jobs.push_back({&sub, seed, 0});
  while (!jobs.empty()) {
    Job job = jobs.front(); jobs.pop_front(); const Sub& sub = *job.sub; const uint64_t seed = job.seed;
    if (!job.strikes) ++isub;
    uint64_t total = (uint64_t)((thorough ? sub.thorough : sub.quick * su.scale) * scale);
    double ts = Now(), deadline = ts + std::max(5.0, (t0 + limit - ts) / (nsubs - isub + 1));
    new (shm) Shm();
    std::vector<pid_t> pids(K);
    for (int w = 0; w < K; ++w) { unlink((g_scratch_root + "/w" + std::to_string(w) + ".out").c_str()); fflush(stdout); pids[w] = fork(); if (pids[w] < 0) { perror("fork"); return 3; } if (pids[w] == 0) Worker(su, sub, seed, total, w, K, shm, deadline); }
    int failed_w = -1; int st = 0; int alive = K; std::vector<int> sts(K, -1);
    while (alive > 0) {
      int s; pid_t p = waitpid(-1, &s, 0); if (p < 0) { if (errno == EINTR) continue; break; }
      for (int w = 0; w < K; ++w) if (pids[w] == p) { --alive; sts[w] = s; if (!(WIFEXITED(s) && WEXITSTATUS(s) == 0)) { shm->stop.store(1); if (failed_w < 0 || shm->w[w].current.load() < shm->w[failed_w].current.load()) { failed_w = w; st = s; } } }
    }
    Totals T;
    for (int w = 0; w < K; ++w) {
      std::ifstream in(g_scratch_root + "/w" + std::to_string(w) + ".out", std::ios::binary); if (!in) { if (sts[w] != -1 && WIFEXITED(sts[w]) && WEXITSTATUS(sts[w]) == 0) { fprintf(stderr, "worker left no result\n"); return 3; } continue; }
      uint64_t d, dis, nt; size_t nk, nl, nkn, ns; in >> d >> dis >> nt >> nk >> nl >> nkn >> ns; T.done += d; T.discarded += dis; T.nontrivial += nt;
      for (size_t i = 0; i < nk; ++i) { uint64_t k; in >> k; T.keys.insert(k); }
      for (size_t i = 0; i < nl; ++i) { uint64_t n; in >> n; T.labels[ReadStr(in)] += n; }
      for (size_t i = 0; i < nkn; ++i) { uint64_t n; in >> n; std::string id = ReadStr(in), what = ReadStr(in); auto& k = T.known[id]; k.first += n; k.second = what; }
      for (size_t i = 0; i < ns; ++i) { std::string s = ReadStr(in); if (T.samples.size() < 2) T.samples.push_back(s); }
    }
    evals += T.done; nontrivial += T.keys.size(); discarded += T.discarded;
    for (auto& s : T.samples) samples.push_back(sub.name + ": " + s);
    for (auto& [id, k] : T.known) { known[id].first += k.first; known[id].second = k.second; }
    std::ostringstream o; o << "{\"name\":" << Json(sub.name) << ",\"evaluations\":" << T.done << ",\"planned\":" << total << ",\"discarded\":" << T.discarded << ",\"distinct_nontrivial\":" << T.keys.size() << ",\"seconds\":" << (Now() - ts) << ",\"classes\":{";
    bool first = true; for (auto& [l, n] : T.labels) { if (!first) o << ","; first = false; o << Json(l) << ":" << n; } o << "}}"; per_sub.push_back(o.str());
    fprintf(stderr, "[%s/%s] %llu cases (%llu distinct non-trivial, %llu discarded) in %.1fs\n", su.property.c_str(), sub.name.c_str(), (unsigned long long)T.done, (unsigned long long)T.keys.size(), (unsigned long long)T.discarded, Now() - ts);
    if (failed_w >= 0) {
      uint64_t idx = shm->w[failed_w].current.load();
      std::string logtail = Tail(g_scratch_root + "/w" + std::to_string(failed_w) + ".log");
      if (idx == 0) { fprintf(stderr, "worker failed outside a case (status %d):\n%s\n", st, logtail.c_str()); return 3; }
      --idx;
      // Recover the choices of the failing case: regenerate them in a child,
      // which reports the log through shared memory even when it dies.
      size_t cap = 1 << 21; uint64_t* area = static_cast<uint64_t*>(mmap(nullptr, cap * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      // Generation is a pure function of the seed: replay with the raw PRNG
      // stream is not needed, record draws as they happen.
      pid_t p = fork();
      if (p == 0) {
        std::string d = g_scratch_root + "/rec"; MakeEmptyDir(d); ChildSetup(su, d + ".log");
        // Record into shared memory by polling the log after the run; if the
        // run dies, an atexit-free signal path is needed, so copy eagerly.
        struct Rec : Src { using Src::Src; };
        Src s(CaseSeed(seed, sub, idx)); Case c; c.scratch = d;
        // `log()` lives in ordinary memory: mirror it from a signal handler.
        static Src* gs; static uint64_t* ga; static size_t gc; gs = &s; ga = area; gc = cap;
        auto mirror = +[](int sig) { size_t n = std::min(gs->log().size(), gc - 1); for (size_t i = 0; i < n; ++i) ga[i + 1] = gs->log()[i]; ga[0] = n; if (sig) { signal(sig, SIG_DFL); raise(sig); } };
        for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGTRAP}) signal(sg, mirror);
        static void (*gm)(int) = mirror; atexit(+[] { gm(0); });
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(+[] { gm(0); });
        signal(SIGPROF, +[](int) { gm(0); _exit(97); });
        RunCase(su, sub, s, c); mirror(0); _exit(0);
      }
      int s2; while (waitpid(p, &s2, 0) < 0 && errno == EINTR) {}
      std::vector<uint64_t> ch(area + 1, area + 1 + area[0]);
      bool hang = WIFEXITED(s2) && WEXITSTATUS(s2) == 97;
      // A sanitizer report exits without running handlers: fall back to the
      // raw stream of draws by asking for the prefix form.
      Attempt a{}; bool single = false;
      if (!ch.empty()) { a = TryChoices(su, sub, ch, true); single = a.failed; }
      std::string sname = sub.name; std::replace(sname.begin(), sname.end(), ' ', '_');
      std::string path = replay_dir + "/" + su.property + "-" + sname + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
      std::ostringstream rp;
      if (single) {
        if (!hang && !a.hang) ch = Shrink(su, sub, ch, atof(Env("PBT_SHRINK", "25").c_str()));
        a = TryChoices(su, sub, ch, true);
        int ok = 0; for (int r = 0; r < 3; ++r) ok += TryChoices(su, sub, ch, false).failed;
        if (ok < 3 || !a.failed) { fprintf(stderr, "the shrunk case fails only %d of 3 times\n", ok); single = false; }
        else { rp << "property " << su.property << "\nsub " << sub.name << "\nchoices " << ch.size(); for (auto v : ch) rp << " " << v; rp << "\n# " ; std::string m = a.message + "\n" + a.text; for (char c : m) { rp << c; if (c == '\n') rp << "# "; } rp << "\n"; }
      }
      if (!single) {
        rp.str(""); rp << "property " << su.property << "\nsub " << sub.name << "\nprefix " << seed << " " << idx << " " << K << "\n# " << "case " << idx << "\n";
        int ok = 0;
        for (int r = 0; r < 3; ++r) { pid_t q = fork(); if (q == 0) { std::string d = g_scratch_root + "/pw"; MakeEmptyDir(d); ChildSetup(su, d + ".log"); for (uint64_t j = idx % K; j <= idx; j += K) { Src s(CaseSeed(seed, sub, j)); Case c; c.scratch = d; Result rr = RunCase(su, sub, s, c); if (rr.kind == Result::kFail) { fprintf(stderr, "failure: %s\n", rr.message.c_str()); _exit(96); } } _exit(0); } if (!WaitOk(q)) ++ok; }
        a.message = Tail(g_scratch_root + "/pw.log");
        if (ok < 3) { fprintf(stderr, "[%s/%s] case %llu failed once but its replay fails only %d of 3 times; first output:\n%s\n", su.property.c_str(), sub.name.c_str(), (unsigned long long)idx, ok, logtail.c_str()); bool noise = hang || a.hang || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || (WIFEXITED(st) && WEXITSTATUS(st) != 96 && WEXITSTATUS(st) != 98 && WEXITSTATUS(st) != 134); if (ok == 0 && (noise || !job.strikes)) { if (!noise) jobs.push_front({&sub, seed + 7919, 1}); continue; } if (ok == 0) a.message = logtail; }
      }
      WriteFile(path, rp.str()); ++violations;
      printf("%s: sub-property %s fails:\n%s\n%s\n", su.property.c_str(), sub.name.c_str(), a.message.c_str(), a.text.c_str());
      printf("VIOLATION property=%s replay=%s\n", su.property.c_str(), path.c_str()); fflush(stdout);
      break;
    }
  }
  // Known findings must be listed.
  std::set<std::string> listed; { std::istringstream in(Env("PBT_KNOWN", "")); std::string id; while (in >> id) listed.insert(id); }
  for (auto& [id, k] : known) {
    if (listed.count(id)) printf("KNOWN-FINDING: property=%s %s: %s (%llu cases)\n", su.property.c_str(), id.c_str(), k.second.c_str(), (unsigned long long)k.first);
    else { std::string path = replay_dir + "/" + su.property + "-" + id + ".replay"; WriteFile(path, "unlisted finding " + id + ": " + k.second + "\n"); printf("unlisted finding %s: %s\nVIOLATION property=%s replay=%s\n", id.c_str(), k.second.c_str(), su.property.c_str(), path.c_str()); ++violations; }
  }
  if (!stats.empty()) {
    std::ostringstream o; o << "{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << nontrivial << ",\"discarded\":" << discarded << ",\"rule\":" << Json(su.rule) << ",\"sub_properties\":[";
    for (size_t i = 0; i < per_sub.size(); ++i) o << (i ? "," : "") << per_sub[i];
    o << "],\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << Json(samples[i].substr(0, 1500));
    o << "],\"assumptions\":["; for (size_t i = 0; i < su.assumptions.size(); ++i) o << (i ? "," : "") << Json(su.assumptions[i]);
    o << "],\"violations\":" << violations << ",\"seconds\":" << (Now() - t0) << "}"; WriteFile(stats, o.str());
  }
  return violations ? 1 : 0;
}
}  // namespace pbt
