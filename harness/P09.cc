// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc profile_writer.cc profile_reader.cc gcov.cc
// TECHNIQUE: property-based testing: generated profiles against the definitions of the summary and the working set evaluated over the plain multiset of counts, in memory and read back from a written file by an independent decoder and by the reader
// LEVEL_NOTE: Random search over profiles, cutoff lists and thresholds.
#include "gcccodec.h"
#include "gcov.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "symtree.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(uint64_t, gcov_version); ABSL_DECLARE_FLAG(double, sample_threshold_frac);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using st::U; using st::Map; using st::Sym;
namespace {
using W = unsigned __int128;
struct Sum { U total = 0, max = 0, maxf = 0, n = 0, funcs = 0; std::vector<std::array<U, 3>> cut; };
// The summary by definition: for each share, the largest threshold t such that the counts >= t sum to at least floor(total * share).
Sum Reference(const Map& m, int64_t threshold, const std::vector<uint32_t>& cutoffs) {
  Sum r; std::vector<U> v; std::function<void(const Sym&)> go = [&](const Sym& y) { for (auto& [k, p] : y.pos) v.push_back(p.count); for (auto& [k, q] : y.calls) go(q); };
  for (auto& [n, y] : m) if ((int64_t)y.total > threshold) { ++r.funcs; r.maxf = std::max(r.maxf, y.head); go(y); } for (U x : v) { r.total += x; r.max = std::max(r.max, x); } r.n = v.size();
  for (uint32_t c : cutoffs) { W need = (W)r.total * c / 1000000; if (!need) { r.cut.push_back({c, 0, 0}); continue; } U best = 0, bn = 0; std::set<U> ts(v.begin(), v.end()); for (U t : ts) { W s = 0; U n = 0; for (U x : v) if (x >= t) { s += x; ++n; } if (s >= need) { best = t; bn = n; } } r.cut.push_back({c, best, bn}); }
  return r;
}
std::vector<uint32_t> Default() { return {10000, 100000, 200000, 300000, 400000, 500000, 600000, 700000, 800000, 900000, 950000, 990000, 999000, 999900, 999990, 999999}; }
Map Counts(Src& s, U* cap) {
  st::Gen g{s, {"a", "b", "c", "d", "e", "f", "g", "h"}}; g.files = false; g.consistent = s.Chance(2, 3); g.max_lines = s.Bool() ? 4 : 20; g.big = s.Chance(1, 3); *cap = 1ull << 40; g.max_count = *cap; Map m = st::GenMap(g, 8); int mode = s.Draw(3);
  std::function<void(Sym*)> go = [&](Sym* y) { U before = 0, after = 0; for (auto& [k, p] : y->pos) { before += p.count; if (mode == 1) p.count = s.OneOf<U>({0, 1, 1, 10, 10, 100, 1000}); else if (mode == 2) p.count = 1ull << s.Draw(20); after += p.count; if (s.Bool()) p.inst = s.Draw(40); } for (auto& [k, q] : y->calls) { before += q.total; go(&q); after += q.total; } if (y->total == before) y->total = after; };
  for (auto& [n, y] : m) go(&y); return m;
}
void Summary(Src& s, Case& c) {
  U cap; Map m = Counts(s, &cap); std::vector<uint32_t> cut; if (s.Chance(1, 3)) cut = Default(); else { std::set<uint32_t> x; int k = 0; while (s.More(k, 1, 12, 5)) { ++k; x.insert(s.Bool() ? s.Draw(999999) : s.OneOf<uint32_t>({0, 1, 100000, 250000, 500000, 750000, 999999})); } cut.assign(x.begin(), x.end()); }
  int64_t th = s.Bool() ? 0 : s.OneOf<int64_t>({-1, 1, 10, 50, 1000}); Sum w = Reference(m, th, cut); c.Describe([&] { return "threshold " + std::to_string(th) + " cutoffs " + pbt::ToText(cut, 0) + "\n" + st::Show(m); }); c.NonTrivial(w.n > 3 && w.total); c.LabelIf(w.total == 0, "no counts"); c.LabelIf(w.funcs < m.size(), "functions left out");
  dca::SymbolMap sm; st::Install(m, &sm); sm.set_count_threshold(th); auto g = dca::ProfileSummaryComputer::Compute(sm, cut); PBT_EQ(g.total_count_, w.total, "total"); PBT_EQ(g.max_count_, w.max, "largest count"); PBT_EQ(g.max_function_count_, w.maxf, "largest head count"); PBT_EQ(g.num_counts_, w.n, "number of counts"); PBT_EQ(g.num_functions_, w.funcs, "number of functions"); PBT_EQ(g.detailed_summaries_.size(), cut.size(), "shares");
  std::set<U> hit; for (size_t i = 0; i < cut.size(); ++i) { auto& d = g.detailed_summaries_[i]; PBT_EQ(d.cutoff_, cut[i], "share"); PBT_CHECK(d.min_count_ == w.cut[i][1] && d.num_counts_ == w.cut[i][2], "share " << cut[i] << ": threshold " << d.min_count_ << " with " << d.num_counts_ << " counts, want " << w.cut[i][1] << " with " << w.cut[i][2]); hit.insert(d.min_count_); } c.LabelIf(hit.size() > 3, "many thresholds");
}
// The working set by definition: bucket i holds the largest number of hottest instructions whose counts sum to at most (i + 1) / 129 of the total, and the count of the next hottest one.
std::vector<std::pair<U, U>> WorkingSet(const Map& m) {
  std::map<U, U, std::greater<U>> h; W total = 0; std::function<void(const Sym&)> go = [&](const Sym& y) { for (auto& [k, p] : y.pos) { h[p.count] += p.inst; total += (W)p.count * p.inst; } for (auto& [k, q] : y.calls) go(q); }; for (auto& [n, y] : m) if (y.total) go(y);
  std::vector<std::pair<U, U>> r(128); U one = (U)(total / 129); if (total == 0) return r;
  for (int i = 0; i < 128; ++i) { W left = (W)one * (i + 1); U n = 0; for (auto& [v, k] : h) { if (!k) continue; if ((W)v * k <= left) { left -= (W)v * k; n += k; } else { n += (U)(left / v); r[i] = {n, v}; break; } } }
  return r;
}
void CheckSets(const dca::gcov_working_set_info* g, const std::vector<std::pair<U, U>>& w, const std::string& what) { for (int i = 0; i < 128; ++i) PBT_CHECK(g[i].num_counters == w[i].first && g[i].min_counter == w[i].second, what << ": bucket " << i << " has " << g[i].num_counters << " instructions above " << g[i].min_counter << ", want " << w[i].first << " above " << w[i].second); }
void Working(Src& s, Case& c) {
  U cap; Map m = Counts(s, &cap); Map real; size_t folded = 0; if (s.Bool()) { int i = 0; Map in; for (auto& [n, y] : m) { std::string f = s.OneOf<std::string>({n, n + ".cold", "a", "a.llvm.1" + std::to_string(i), "z.part.1" + std::to_string(i)}); ++i; if (in.count(f)) continue; in[f] = y; in[f].func = f; } m = in; for (auto& [f, y] : m) { std::string b = f.substr(0, f.find('.')); folded += b != f; Sym& d = real[b]; if (d.func.empty()) d.func = b; st::Merge(&d, y); } } else real = m;
  if (s.Chance(1, 6) && !real.empty()) { auto i = real.begin(); std::advance(i, s.Draw(real.size() - 1)); (void)i; } auto w = WorkingSet(real); c.Describe([&] { return st::Show(m); }); c.LabelIf(folded, "folded names"); c.LabelIf(w[127].second == 0, "no counts"); std::set<U> ts; for (auto& x : w) ts.insert(x.second); c.NonTrivial(ts.size() > 2); c.LabelIf(ts.size() > 6, "many thresholds");
  for (int i = 1; i < 128; ++i) PBT_CHECK(w[i].second <= w[i - 1].second, "reference"); dca::SymbolMap sm; sm.set_suffix_elision_policy("all"); st::Install(m, &sm); sm.ElideSuffixesAndMerge(); st::DiffOpt o; std::string d = st::Diff(st::From(sm), real, o); PBT_CHECK(d.empty(), "folded: " << d); sm.ComputeWorkingSets(); CheckSets(sm.GetWorkingSets(), w, "computed");
}
void File(Src& s, Case& c) {
  U cap; Map m = Counts(s, &cap); for (auto& [n, y] : m) { std::function<void(Sym*)> go = [&](Sym* z) { std::map<U, st::Pos> np; for (auto& [k, p] : z->pos) np[(k >> 32 & 0xffff) << 32 | (k & 0xffff)] = p; z->pos = np; std::map<std::pair<U, std::string>, Sym> nc; for (auto& [k, q] : z->calls) { go(&q); auto key = std::make_pair((k.first >> 32 & 0xffff) << 32 | (k.first & 0xffff), k.second); if (!nc.count(key)) nc[key] = q; } z->calls = nc; }; go(&y); }
  int64_t th = s.Bool() ? -1 : s.Draw(100); Sum w = Reference(m, th, Default()); auto ws = WorkingSet(m); c.Describe([&] { return "threshold " + std::to_string(th) + "\n" + st::Show(m); }); c.NonTrivial(w.n > 3 && w.total); c.LabelIf(w.funcs < m.size(), "functions left out");
  dca::SymbolMap sm; st::Install(m, &sm); sm.set_count_threshold(th); sm.ComputeWorkingSets(); absl::SetFlag(&FLAGS_gcov_version, 3); std::string f = c.Tmp("f"); { dca::AutoFDOProfileWriter wr(&sm, 3); PBT_CHECK(wr.WriteToFile(f), "write"); } auto d = gcc::Decode(pbt::ReadFile(f)); auto& g = d.summary; PBT_CHECK(d.has_summary, "no summary");
  PBT_EQ(g.total, w.total, "written total"); PBT_EQ(g.max, w.max, "written largest count"); PBT_EQ(g.max_function, w.maxf, "written largest head count"); PBT_EQ(g.num_counts, w.n, "written number of counts"); PBT_EQ(g.num_functions, w.funcs, "written number of functions"); PBT_EQ(g.cutoffs.size(), w.cut.size(), "written shares"); for (size_t i = 0; i < w.cut.size(); ++i) PBT_CHECK(g.cutoffs[i] == w.cut[i], "written share " << g.cutoffs[i][0] << ": " << g.cutoffs[i][1] << " " << g.cutoffs[i][2] << ", want " << w.cut[i][0] << ": " << w.cut[i][1] << " " << w.cut[i][2]);
  PBT_EQ(d.working_set.size(), 128u, "written buckets"); for (int i = 0; i < 128; ++i) PBT_CHECK(d.working_set[i].first == ws[i].first / 10 && d.working_set[i].second == ws[i].second, "written bucket " << i << ": " << d.working_set[i].first << " above " << d.working_set[i].second << ", want " << ws[i].first / 10 << " above " << ws[i].second);
  dca::SymbolMap in; dca::AutoFDOProfileReader rd(&in, true); PBT_CHECK(rd.ReadFromFile(f), "read"); const auto* r = rd.GetSummaryInformation(); PBT_CHECK(r != nullptr, "no summary was read"); PBT_CHECK(r->total_count_ == w.total && r->max_count_ == w.max && r->max_function_count_ == w.maxf && r->num_counts_ == w.n && r->num_functions_ == w.funcs && r->detailed_summaries_.size() == w.cut.size(), "summary read back differs"); for (size_t i = 0; i < w.cut.size(); ++i) { auto& x = r->detailed_summaries_[i]; PBT_CHECK(x.cutoff_ == w.cut[i][0] && x.min_count_ == w.cut[i][1] && x.num_counts_ == w.cut[i][2], "share " << i << " read back differs"); }
  auto ws2 = ws; for (auto& x : ws2) x.first = x.first / 10 * 10; CheckSets(in.GetWorkingSets(), ws2, "read back");
}
// Very many lines with few different counts.
void Many(Src& s, Case& c) {
  Map m; int nf = s.Int(1, 3); U n = s.OneOf<U>({65535, 65536, 65537, 70000, 131072, 20000}), d = s.Range(1, 3), big = s.Draw(1000), x = s.Draw(1 << 20); for (int f = 0; f < nf; ++f) { Sym& y = m["fn" + std::to_string(f)]; y.func = "fn" + std::to_string(f); y.head = s.Draw(100); for (U i = 0; i < n / nf + 1; ++i) { auto& p = y.pos[(1 + i % 60000) << 32 | i / 60000]; p.count = 1 + (pbt::SplitMix(x) % d) * big; p.inst = 1 + i % 2; y.total += p.count; } }
  std::vector<uint32_t> cut = Default(); Sum w = Reference(m, 0, cut); auto ws = WorkingSet(m); c.Describe([&] { return std::to_string(n) + " lines, " + std::to_string(nf) + " functions, " + std::to_string(d) + " counts"; }); c.NonTrivial();
  dca::SymbolMap sm; st::Install(m, &sm); sm.set_count_threshold(0); auto g = dca::ProfileSummaryComputer::Compute(sm, cut); PBT_EQ(g.total_count_, w.total, "total"); PBT_EQ(g.max_count_, w.max, "largest count"); PBT_EQ(g.num_counts_, w.n, "number of counts"); PBT_EQ(g.num_functions_, w.funcs, "number of functions"); PBT_EQ(g.detailed_summaries_.size(), cut.size(), "shares");
  for (size_t i = 0; i < cut.size(); ++i) { auto& e = g.detailed_summaries_[i]; PBT_CHECK(e.min_count_ == w.cut[i][1] && e.num_counts_ == w.cut[i][2], "share " << cut[i] << ": threshold " << e.min_count_ << " with " << e.num_counts_ << " counts, want " << w.cut[i][1] << " with " << w.cut[i][2]); }
  sm.ComputeWorkingSets(); CheckSets(sm.GetWorkingSets(), ws, "computed");
  sm.set_count_threshold(-1); absl::SetFlag(&FLAGS_gcov_version, 3); std::string f = c.Tmp("f"); { dca::AutoFDOProfileWriter wr(&sm, 3); PBT_CHECK(wr.WriteToFile(f), "write"); } auto dd = gcc::Decode(pbt::ReadFile(f)); PBT_EQ(dd.summary.num_counts, w.n, "written number of counts"); PBT_EQ(dd.summary.total, w.total, "written total"); PBT_EQ(dd.summary.cutoffs.size(), w.cut.size(), "written shares"); for (size_t i = 0; i < w.cut.size(); ++i) PBT_CHECK(dd.summary.cutoffs[i] == w.cut[i], "written share " << i);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P09"; su.rule = "the profile has more than three counts that are not all zero; for working sets, at least three different thresholds"; su.subs = {{"summary", Summary, 250000, 1500000}, {"working", Working, 200000, 1500000}, {"file", File, 80000, 400000}, {"many", Many, 40, 400}};
  su.assumptions = {"counts times instructions sum to less than 2^64", "cutoffs are listed in ascending order"}; return pbt::Main(argc, argv, su);
}
