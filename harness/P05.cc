// MODE: LLVM
// SOURCES: llvm_profile_writer.cc llvm_profile_reader.cc profile_writer.cc profile_reader.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated symbol trees merged in generated orders and groupings against sums over plain trees; several generated profile files read into one map
// LEVEL_NOTE: Random search. Sums wrap at 64 bits like the counters. File names and time stamps are compared only where one input has them.
#include <unistd.h>
#include "gcov.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "symtree.h"
#include "third_party/abseil/absl/container/node_hash_set.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(uint64_t, gcov_version); ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using pbt::Case; using pbt::Src; namespace sp = llvm::sampleprof; namespace dca = devtools_crosstool_autofdo;
namespace {
const std::vector<std::string> kNames = {"foo", "bar", "main", "_ZN1A1fEv", "qux", "baz"};
std::vector<st::Map> GenMaps(Src& s, bool big) { std::vector<st::Map> v; int n = 0; st::Gen g{s, kNames}; g.max_count = big ? ~0ull : 1ull << 40; while (s.More(n, 1, 5, 3)) { ++n; v.push_back(s.Chance(1, 10) ? st::Map() : s.Chance(1, 5) && v.size() ? v[0] : st::GenMap(g, 4)); } return v; }
struct Named { dca::NameSymbolMap m; Named() = default; Named(Named&& o) { m.swap(o.m); } Named& operator=(Named&& o) { m.swap(o.m); return *this; } ~Named() { for (auto& [n, y] : m) delete y; } void Add(const dca::NameSymbolMap& o) { for (auto& [n, y] : o) { auto& z = m[n]; if (!z) z = new dca::Symbol(pg::Intern(n), "", "", 0); z->Merge(y); } } };
Named FromTree(const st::Map& t) { Named r; for (auto& [n, y] : t) r.m[n] = st::Make(y); return r; }
st::Map Back(const Named& m) { st::Map r; for (auto& [n, y] : m.m) r[n] = st::From(*y); return r; }
void Trees(Src& s, Case& c) {
  auto in = GenMaps(s, s.Bool()); st::Map want; size_t shared = 0; for (auto& t : in) { for (auto& [n, y] : t) shared += want.count(n); st::MergeMap(&want, t); }
  c.Describe([&] { std::string r; for (size_t i = 0; i < in.size(); ++i) r += "input " + std::to_string(i) + ":\n" + st::Show(in[i]); return r; });
  c.NonTrivial(in.size() > 1 && shared && st::Inlined(want)); c.LabelIf(shared, "shared functions"); c.LabelIf(in.size() > 2, "three or more"); c.LabelIf(st::Inlined(want) > 3, "inlining");
  std::vector<Named> src; src.reserve(in.size()); for (auto& t : in) src.push_back(FromTree(t));
  Named all; for (auto& m : src) all.Add(m.m); std::string d = st::Diff(Back(all), want); PBT_CHECK(d.empty(), "merging in order: " << d);
  for (size_t i = 0; i < in.size(); ++i) { d = st::Diff(Back(src[i]), in[i]); PBT_CHECK(d.empty(), "merging changed input " << i << ": " << d); }
  // Any order and grouping.
  std::vector<Named> left; for (auto& t : in) left.push_back(FromTree(t)); while (left.size() > 1) { size_t a = s.Draw(left.size() - 1), b = s.Draw(left.size() - 2); if (b >= a) ++b; left[a].Add(left[b].m); left.erase(left.begin() + b); }
  st::DiffOpt o; o.files = false; d = st::Diff(Back(left[0]), want, o); PBT_CHECK(d.empty(), "merging in another order and grouping: " << d);
}
// What a reader of a file has to put into the map: totals are the sums below.
pg::Func AddF(const pg::Func& a, const pg::Func& b) { pg::Func r = a; r.head += b.head; for (auto& [k, l] : b.lines) { auto& x = r.lines[k]; x.count += l.count; for (auto& [t, n] : l.targets) x.targets[t] += n; } for (auto& [k, f] : b.calls) r.calls[k] = r.calls.count(k) ? AddF(r.calls[k], f) : f; return r; }
pg::Profile Add(pg::Profile a, const pg::Profile& b) { for (auto& [n, f] : b) a[n] = a.count(n) ? AddF(a[n], f) : f; return a; }
void Files(Src& s, Case& c) {
  bool gcc = s.Bool(); pg::Opt o; o.max_funcs = 4; o.max_depth = 2; o.zero_counts = false; absl::SetFlag(&FLAGS_suffix_elision_policy, "none"); absl::SetFlag(&FLAGS_gcov_version, gcc && s.Bool() ? 3 : 0x3430372a);
  int fmt = s.Draw(2); std::vector<pg::Profile> in; int n = 0; while (s.More(n, 1, 4, 2)) { ++n; in.push_back(in.size() && s.Chance(1, 5) ? in[0] : pg::Gen(s, o)); if (in.back().empty()) { auto& l = in.back()["main"].lines[1ull << 32]; l.count = 20; } for (auto& [f, x] : in.back()) if (!x.head) x.head = 1 + s.Draw(50); }
  if (s.Chance(1, 8)) for (auto& p : in) for (auto& [f, x] : p) for (auto& [k, l] : x.lines) { l.count = 1 + l.count % 100; }
  c.Describe([&] { std::string r = gcc ? "GCC files" : "LLVM files of format " + std::to_string(fmt); for (auto& p : in) r += "\nfile:\n" + pg::Show(p); return r; });
  pg::Profile want; size_t shared = 0, targets = 0; for (auto& p : in) { for (auto& [f, x] : p) { shared += want.count(f); targets += x.HasTargets(); } want = Add(want, p); } c.NonTrivial(in.size() > 1 && shared && targets); c.Label(gcc ? "GCC" : "LLVM"); c.LabelIf(shared, "shared functions");
  std::vector<std::string> path; for (auto& p : in) { dca::SymbolMap m; dca::SourceInfo::use_fs_discriminator = false; pg::Build(p, &m, nullptr); m.set_count_threshold(-1); path.push_back(c.Tmp("in" + std::to_string(path.size()))); if (gcc) { dca::AutoFDOProfileWriter w(&m, absl::GetFlag(FLAGS_gcov_version)); PBT_CHECK(w.WriteToFile(path.back()), "not written"); } else { dca::LLVMProfileWriter w(fmt == 0 ? sp::SPF_Text : fmt == 1 ? sp::SPF_Binary : sp::SPF_Ext_Binary); PBT_CHECK(w.CreateSampleWriter(path.back()), "no writer"); w.setSymbolMap(&m); PBT_CHECK(w.WriteToFile(path.back()), "not written"); } }
  for (int order = 0; order < 2; ++order) {
    std::vector<size_t> idx; for (size_t i = 0; i < in.size(); ++i) idx.push_back(i); if (order) s.Shuffle(idx);
    dca::SymbolMap m; absl::node_hash_set<std::string> names; std::vector<std::unique_ptr<dca::ProfileReader>> keep;
    for (size_t i : idx) { if (gcc) keep.push_back(std::make_unique<dca::AutoFDOProfileReader>(&m, true)); else keep.push_back(std::make_unique<dca::LLVMProfileReader>(&m, names)); PBT_CHECK(keep.back()->ReadFromFile(path[i]), "not read"); }
    std::string d = pg::Diff(pg::FromMap(m), want); PBT_CHECK(d.empty(), (order ? "in another order: " : "") << d); d = pg::CheckTotals(m); PBT_CHECK(d.empty(), d);
  }
  for (auto& p : path) unlink(p.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P05"; su.rule = "at least two inputs with a function in common, and inlined copies (trees) or call targets (files)";
  su.subs = {{"trees", Trees, 80000, 2000000}, {"files", Files, 40000, 400000}};
  su.assumptions = {"counters wrap at 64 bits", "time stamps and file names are not counts"};
  return pbt::Main(argc, argv, su);
}
