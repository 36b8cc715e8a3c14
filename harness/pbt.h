// A small property-based testing engine.
//
// A case is a sequence of integer choices. Generators draw choices from a Src;
// a fresh case draws them from a PRNG seeded with (VERIF_SEED, sub-property,
// case index), a replay reads them from a list (missing ones are 0). Failures
// are shrunk by deleting and lowering choices, in forked children, so that
// CHECK failures, sanitizer reports and crashes are ordinary counterexamples.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace pbt {

inline uint64_t SplitMix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t HashMix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b; return SplitMix(x); }
uint64_t HashStr(std::string_view s);

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

// Source of choices.
class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed), replay_(false) {}
  explicit Src(std::vector<uint64_t> choices) : replay_(true), in_(std::move(choices)) {}
  // Uniform in [0, max]; lower is simpler.
  uint64_t Draw(uint64_t max) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      ++pos_;
      if (v > max) v = max == ~0ull ? v : v % (max + 1);
    } else {
      if (out_.size() > 2000000) throw Discard();
      v = max == ~0ull ? SplitMix(state_) : max == 0 ? 0 : (uint64_t)(((unsigned __int128)SplitMix(state_) * ((unsigned __int128)max + 1)) >> 64);
    }
    out_.push_back(v);
    return v;
  }
  const std::vector<uint64_t>& log() const { return out_; }

  uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Draw(hi - lo); }
  int Int(int lo, int hi) { return lo + (int)Draw((uint64_t)((int64_t)hi - lo)); }
  // True with probability num/den; shrinks to false.
  bool Chance(int num, int den) { return (int)Draw(den - 1) >= den - num; }
  bool Bool() { return Draw(1) != 0; }
  // Index into weights; shrinks to the first.
  int Weighted(std::initializer_list<int> w) { int t = 0; for (int x : w) t += x; int v = (int)Draw(t - 1); int i = 0; for (int x : w) { if (v < x) return i; v -= x; ++i; } return 0; }
  template <class C> auto& Pick(C& c) { return c[Draw(c.size() - 1)]; }
  template <class T> T OneOf(std::initializer_list<T> l) { return *(l.begin() + Draw(l.size() - 1)); }
  // Continuation flag for list generation: roughly `avg` elements, at most max.
  bool More(size_t have, size_t min, size_t max, int avg) {
    if (grow_left_) {
      if (grow_in_ && have <= min && --grow_in_ == 0) { grow_min_ = min; grow_max_ = max; grow_avg_ = avg; }
      if (!grow_in_ && min == grow_min_ && max == grow_max_ && avg == grow_avg_ && have < max + grow_size_) { --grow_left_; return true; }
    }
    if (have >= max) return false;
    if (have < min) return true;
    return Draw(avg) != 0;
  }
  // In one of `den` cases, one kind of list gets many more elements than its loop asks for.
  void Grow(int den) { if (!den) return; bool on = Chance(1, den); size_t in = 1 + Draw(15), size = OneOf<size_t>({20, 70, 150, 300, 600}); if (on) { grow_in_ = in; grow_size_ = grow_left_ = size; } }
  void NoGrow() { grow_left_ = 0; }
  bool grown() const { return grow_size_ && !grow_in_; }
  // 64-bit value biased to small numbers and to the edges of each width.
  uint64_t U64(uint64_t max = ~0ull) {
    uint64_t v;
    switch (Weighted({4, 3, 2, 2})) {
      case 0: v = Draw(max < 16 ? max : 16); break;
      case 1: { int bits = (int)Draw(64); v = bits == 0 ? 0 : Draw(bits == 64 ? ~0ull : (1ull << bits) - 1); break; }
      case 2: { int bits = (int)Draw(63); v = (1ull << bits) + Draw(2) - 1; break; }
      default: v = Draw(max); break;
    }
    return max == ~0ull ? v : v <= max ? v : v % (max + 1);
  }
  std::string Bytes(size_t n) { std::string r(n, 0); for (auto& c : r) c = (char)Draw(255); return r; }
  std::string Text(std::string_view alphabet, size_t min, size_t max, int avg) { std::string r; while (More(r.size(), min, max, avg)) r += alphabet[Draw(alphabet.size() - 1)]; return r; }
  template <class T> void Shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) { size_t j = i - 1 - Draw(i - 1); std::swap(v[i - 1], v[j]); } }

 private:
  uint64_t state_ = 0;
  bool replay_;
  std::vector<uint64_t> in_, out_;
  size_t pos_ = 0, grow_in_ = 0, grow_left_ = 0, grow_size_ = 0, grow_min_ = 0, grow_max_ = 0;
  int grow_avg_ = 0;
};

// What a property sees of the case being run.
class Case {
 public:
  // Counts the case under a class; shown in the evidence.
  void Label(const std::string& l) { labels.insert(l); }
  void LabelIf(bool b, const std::string& l) { if (b) labels.insert(l); }
  void NonTrivial(bool b = true) { nontrivial = nontrivial || b; }
  // A human-readable rendering of the case.
  template <class F> void Describe(F f) { if (want_text) { text = f(); fprintf(stderr, "case: %.1200s\n", text.c_str()); } }
  [[noreturn]] void Fail(const std::string& m) { throw Failure(m); }
  // A deviation that is a recorded finding; `id` must be listed.
  void Known(const std::string& id, const std::string& what) { known[id] = what; }
  // Path of a scratch file private to this worker.
  std::string Tmp(const std::string& name) const { return scratch + "/" + name; }

  std::set<std::string> labels;
  bool nontrivial = false, want_text = false;
  std::string text, scratch;
  std::map<std::string, std::string> known;
};

using Property = std::function<void(Src&, Case&)>;
struct Sub { std::string name; Property fn; uint64_t quick, thorough; };
struct Suite {
  std::string property, rule;
  std::vector<Sub> subs;
  std::vector<std::string> assumptions;
  double cpu_limit_s = 30;
  int grow = 200;  // see Src::Grow; 0: never
  double scale = 1;  // factor on the quick number of cases
  // Called in every process before the first case.
  std::function<void()> init;
};
int Main(int argc, char** argv, const Suite& suite);

// Runs f in a forked child. Returns true if the child died (abort, signal,
// sanitizer report) instead of returning.
bool Dies(const std::function<void()>& f);
// Runs f in a forked child and returns what it returned; *died tells if the
// child died instead.
std::string InChild(const std::function<std::string()>& f, bool* died);
void WriteFile(const std::string& path, std::string_view data);
std::string ReadFile(const std::string& path);
std::string Hex(std::string_view s);
// Runs a program (no shell) with stdout captured; returns the exit status.
int Exec(const std::vector<std::string>& argv, std::string* out, std::string* err = nullptr);

template <class T> auto ToText(const T& t, int) -> decltype(std::declval<std::ostream&>() << t, std::string()) { std::ostringstream o; o << t; return o.str(); }
template <class T> std::string ToText(const T& t, long) { return "<value>"; }
template <class A, class B> std::string ToText(const std::pair<A, B>& p, int) { return "(" + ToText(p.first, 0) + "," + ToText(p.second, 0) + ")"; }
template <class C> auto ToText(const C& c, int) -> std::enable_if_t<!std::is_convertible<const C&, std::string_view>::value, decltype(c.begin(), c.end(), c.size(), std::string())> {
  std::string r = "["; size_t n = 0; for (auto& e : c) { if (n) r += ", "; if (n++ >= 60) { r += "..."; break; } r += ToText(e, 0); } return r + "]";
}
}  // namespace pbt

#define PBT_CHECK(cond, ...)                                                            \
  do { if (!(cond)) { std::ostringstream pbt_o; pbt_o << "check failed: " #cond " " << __VA_ARGS__; throw ::pbt::Failure(pbt_o.str()); } } while (0)
#define PBT_EQ(got, want, ...)                                                          \
  do { const auto& pbt_g = (got); const auto& pbt_w = (want); if (!(pbt_g == pbt_w)) {  \
    std::ostringstream pbt_o; pbt_o << #got << " is " << ::pbt::ToText(pbt_g, 0) << ", want " << ::pbt::ToText(pbt_w, 0) << ": " << __VA_ARGS__; throw ::pbt::Failure(pbt_o.str()); } } while (0)
#endif
