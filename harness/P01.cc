// MODE: GCOV
// SOURCES: profile_writer.cc profile_reader.cc gcov.cc symbol_map.cc source_info.cc
// TECHNIQUE: property-based testing: write/read round trip of generated profiles against a reference model
// LEVEL_NOTE: Random search over generated profiles; the oracle is the model the profile was built from, held outside the code under test.
#include "gcccodec.h"
#include "gcov.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/flag.h"
#include "third_party/abseil/absl/flags/declare.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;

namespace {
const std::vector<uint32_t> kVersions = {1, 2, 3, 0x3430372a, 0};

void RoundTrip(Src& s, Case& c) {
  pg::Opt o; o.max_count = 1ull << 56; o.wild_names = s.Chance(1, 3); o.files = s.Bool(); o.timestamps = s.Bool(); o.max_funcs = s.Chance(1, 6) ? 30 : 6;
  o.extra_names = {"_ZN3FooC4Ev", "_ZN3FooD4Ev", "_ZN3StrC4EPKc", "_ZN3StrC4EPKcRKS2_"};
  pg::Profile p = pg::Gen(s, o);
  uint32_t version = s.Pick(kVersions);
  uint64_t threshold = s.Weighted({3, 1, 1}) == 0 ? 0 : p.empty() || s.Bool() ? s.Draw(300) : std::next(p.begin(), s.Draw(p.size() - 1))->second.Total();
  if (o.wild_names || s.Bool()) absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  std::vector<std::pair<uint32_t, uint64_t>> ws; bool sets = s.Bool();
  c.NonTrivial(p.size() >= 1 && p.begin()->second.NumLines() >= 2);
  int depth = 0; size_t emitted = 0; bool targets = false; for (auto& [n, f] : p) { depth = std::max(depth, f.Depth()); emitted += f.Total() > threshold; targets |= f.HasTargets(); }
  c.Label("version " + std::to_string(version)); c.LabelIf(depth >= 2, "two levels of inlining"); c.LabelIf(targets, "call targets"); c.LabelIf(emitted < p.size(), "some functions under the threshold"); c.LabelIf(o.wild_names, "unusual names");
  c.Describe([&] { return "version " + std::to_string(version) + " threshold " + std::to_string(threshold) + "\n" + pg::Show(p); });
  absl::SetFlag(&FLAGS_gcov_version, version);

  dca::SymbolMap m; pg::Build(p, &m, &s, true);
  PBT_EQ(pg::CheckTotals(m), std::string(), "totals of the profile as built");
  m.set_count_threshold(threshold);
  if (sets) { uint64_t x = s.Draw(1 << 20); for (int i = 0; i < 128; ++i) { uint32_t n = (uint32_t)pbt::SplitMix(x) >> (x & 31); uint64_t mc = pbt::SplitMix(x) >> (x & 63); ws.push_back({n, mc}); m.UpdateWorkingSet(i, n, mc); } }
  std::string path = c.Tmp("p.afdo");
  dca::AutoFDOProfileWriter w(&m, version);
  PBT_CHECK(w.WriteToFile(path), "writing reports success");

  pg::Profile want; for (auto& [n, f] : p) if (f.Total() > threshold) want[n] = f;
  // Two spellings of one constructor are one function in GCC's eyes.
  std::set<std::string> canon; std::function<void(const std::string&, const pg::Func&)> names = [&](const std::string& n, const pg::Func& f) { canon.insert(n); for (auto& [k, l] : f.lines) for (auto& [t, x] : l.targets) canon.insert(t); for (auto& [k, x] : f.calls) names(k.second, x); };
  for (auto& [n, f] : want) names(n, f);
  std::set<std::string> c2; for (auto& n : canon) c2.insert(gcc::Canonical(n)); if (c2.size() != canon.size()) throw pbt::Discard();
  c.LabelIf(c2 != canon, "constructor spelling");
  want = gcc::CanonicalNames(want);
  std::function<void(pg::Func*)> strip = [&](pg::Func* f) { if (version < 3) { f->file.clear(); f->timestamp = 0; } for (auto& [k, x] : f->calls) strip(&x); };
  for (auto& [n, f] : want) strip(&f);

  if (version >= 3) {  // a name that is no function of the profile comes with no file
    std::set<std::string> fn; std::function<void(const std::string&, const pg::Func&)> own = [&](const std::string& n, const pg::Func& f) { fn.insert(gcc::Canonical(n)); for (auto& [k, x] : f.calls) own(k.second, x); }; for (auto& [n, f] : p) own(n, f);
    auto raw = gcc::Decode(pbt::ReadFile(path)); for (size_t i = 0; i < raw.names.size(); ++i) if (!fn.count(raw.names[i])) PBT_CHECK(raw.name_file[i] >= raw.files.size(), "called function " << raw.names[i] << " is given the file " << raw.files[raw.name_file[i]]);
  }
  absl::SetFlag(&FLAGS_gcov_version, s.Pick(kVersions));  // the reader takes the version from the file
  dca::SymbolMap back; dca::AutoFDOProfileReader r(&back, s.Bool());
  PBT_CHECK(r.ReadFromFile(path), "reading reports success");
  PBT_EQ((uint64_t)absl::GetFlag(FLAGS_gcov_version), (uint64_t)version, "version taken from the file");
  std::string d = pg::Diff(pg::FromMap(back), want, true, true);
  PBT_CHECK(d.empty(), d);
  PBT_EQ(pg::CheckTotals(back), std::string(), "totals after reading");
  for (int i = 0; i < 128; ++i) { auto& g = back.GetWorkingSets()[i]; PBT_EQ((uint64_t)g.num_counters, (uint64_t)(sets ? ws[i].first / 10 * 10 : 0), "working set size " << i); PBT_EQ(g.min_counter, sets ? ws[i].second : 0, "working set count " << i); }

  // Writing what was read gives the same profile again.
  std::string path2 = c.Tmp("q.afdo"); dca::AutoFDOProfileWriter w2(&back, version); PBT_CHECK(w2.WriteToFile(path2), "second write");
  pg::Profile nz; for (auto& [n, f] : want) if (f.Total() > 0) nz[n] = f;
  dca::SymbolMap back2; dca::AutoFDOProfileReader r2(&back2, true); PBT_CHECK(r2.ReadFromFile(path2), "second read");
  d = pg::Diff(pg::FromMap(back2), nz, true, true); PBT_CHECK(d.empty(), "second generation: " << d);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P01"; su.scale = 3;
  su.rule = "A case is a generated profile (functions, nested inline instances, per-line counts and call targets, head counts, files, time stamps, working sets), a file version and a threshold, written and read back twice. Non-trivial: at least one function with two lines.";
  su.assumptions = {"line offsets and discriminators fit the 16 bits each that the format has", "no two names of one profile have the same canonical constructor spelling", "totals stay below 2^63"};
  su.subs = {{"roundtrip", RoundTrip, 25000, 800000}};
  return pbt::Main(argc, argv, su);
}
