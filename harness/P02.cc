// MODE: GCOV
// SOURCES: profile_writer.cc profile_reader.cc gcov.cc symbol_map.cc source_info.cc
// TECHNIQUE: property-based testing: differential against an independent encoder and decoder of GCC's profile format
// LEVEL_NOTE: Random search over generated profiles and generated well-formed files; trusts the codec in harness/gcccodec.h, written from GCC's reader.
#include "gcccodec.h"
#include "gcov.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/flag.h"
#include "third_party/abseil/absl/flags/declare.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;

namespace {
const std::vector<uint32_t> kVersions = {1, 2, 3, 0x3430372a, 0};
const std::vector<uint32_t> kCutoffs = {10000, 100000, 200000, 300000, 400000, 500000, 600000, 700000, 800000, 900000, 950000, 990000, 999000, 999900, 999990, 999999};

void CollectNames(const std::string& n, const pg::Func& f, std::set<std::string>* out) { out->insert(n); for (auto& [k, l] : f.lines) for (auto& [t, x] : l.targets) out->insert(t); for (auto& [k, x] : f.calls) CollectNames(k.second, x, out); }

void Written(Src& s, Case& c) {
  pg::Opt o; o.max_count = 1ull << 56; o.wild_names = s.Chance(1, 3); o.files = s.Bool(); o.timestamps = s.Bool(); o.max_funcs = s.Chance(1, 6) ? 30 : 6;
  o.extra_names = {"_ZN3FooC4Ev", "_ZN3FooD4Ev", "_ZN3StrC4EPKc", "_ZN3StrC4EPKcRKS2_", "D4Ev", "xD4Ev", "xyC4Ev", "C4EPKc", "aC4EPKc", "abC4EPKc"};
  // Offsets that do not fit are cut to 16 bits each, as GCC unpacks them.
  pg::Profile p = pg::Gen(s, o);
  uint32_t version = s.Pick(kVersions); uint64_t threshold = s.Chance(1, 4) ? s.Draw(300) : 0;
  if (o.wild_names) absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  c.NonTrivial(p.size() >= 1 && p.begin()->second.NumLines() >= 2); c.Label("version " + std::to_string(version));
  c.Describe([&] { return "version " + std::to_string(version) + " threshold " + std::to_string(threshold) + "\n" + pg::Show(p); });
  absl::SetFlag(&FLAGS_gcov_version, version);
  dca::SymbolMap m; pg::Build(p, &m, &s); m.set_count_threshold(threshold);
  std::vector<std::pair<uint32_t, uint64_t>> ws(128, {0, 0});
  if (s.Bool()) { uint64_t x = s.Draw(1 << 20); for (int i = 0; i < 128; ++i) { ws[i] = {(uint32_t)pbt::SplitMix(x), pbt::SplitMix(x)}; m.UpdateWorkingSet(i, ws[i].first, ws[i].second); } }
  std::string path = c.Tmp("p.afdo"); dca::AutoFDOProfileWriter w(&m, version); PBT_CHECK(w.WriteToFile(path), "writing reports success");
  gcc::File f = gcc::Decode(pbt::ReadFile(path));

  pg::Profile want; std::vector<const pg::Func*> tops; std::set<std::string> names = {""};
  for (auto& [n, fn] : p) if (fn.Total() > threshold) { want[n] = fn; CollectNames(n, fn, &names); }
  for (auto& [n, fn] : want) tops.push_back(&fn);
  PBT_EQ(f.version, version, "version word");
  // String table: every name once, sorted before canonicalisation, index 0 empty.
  std::vector<std::string> table; for (auto& n : names) table.push_back(gcc::Canonical(n));
  PBT_CHECK(f.names == table, "string table is " << pbt::ToText(f.names, 0) << ", want " << pbt::ToText(table, 0));
  PBT_EQ(f.tops.size(), want.size(), "number of functions");
  size_t i = 0;
  for (auto& [n, fn] : want) {
    auto& t = f.tops[i++]; PBT_EQ(t.name, gcc::Canonical(n), "function " << i); PBT_EQ(t.head, fn.head, "head count of " << n); PBT_EQ(t.timestamp, version >= 3 ? fn.timestamp : 0, "time stamp of " << n);
    // The decoder keys by canonical name; merge collisions cannot be told apart.
    pg::Func cw = fn; gcc::CanonicalNames(&cw); if (version < 3) { std::function<void(pg::Func*)> strip = [&](pg::Func* x) { x->file.clear(); for (auto& [k, y] : x->calls) strip(&y); }; strip(&cw); }
    std::string d = pg::Diff(t.f, cw, n, true, false); PBT_CHECK(d.empty(), d);
  }
  for (int k = 0; k < 128; ++k) { PBT_EQ(f.working_set[k].first, ws[k].first / 10, "working set size " << k); PBT_EQ(f.working_set[k].second, ws[k].second, "working set count " << k); }
  if (version >= 3) {
    gcc::Summary e = gcc::Summarize(tops, kCutoffs); auto& g = f.summary;
    PBT_EQ(g.total, e.total, "summary total"); PBT_EQ(g.max, e.max, "summary maximum"); PBT_EQ(g.max_function, e.max_function, "summary maximum head count"); PBT_EQ(g.num_counts, e.num_counts, "summary number of counts"); PBT_EQ(g.num_functions, e.num_functions, "summary number of functions");
    PBT_EQ(g.cutoffs.size(), e.cutoffs.size(), "summary entries"); for (size_t k = 0; k < e.cutoffs.size(); ++k) for (int q = 0; q < 3; ++q) PBT_EQ(g.cutoffs[k][q], e.cutoffs[k][q], "summary entry " << k << " field " << q);
    std::set<std::string> fs(f.files.begin(), f.files.end()); PBT_EQ(fs.size(), f.files.size(), "file names are listed once");
  }
}

void Encoded(Src& s, Case& c) {
  pg::Opt o; o.max_count = 1ull << 56; o.wild_names = s.Chance(1, 3); o.files = s.Bool(); o.timestamps = true; o.max_funcs = s.Chance(1, 6) ? 30 : 6;
  o.extra_names = {"_ZN3FooC4Ev", "_ZN3FooC2Ev"};
  pg::Profile p = pg::Gen(s, o); uint32_t version = s.Pick(kVersions);
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  gcc::File f; f.version = version; std::set<std::string> names; for (auto& [n, fn] : p) CollectNames(n, fn, &names);
  f.names.assign(names.begin(), names.end()); s.Shuffle(f.names); if (s.Chance(7, 8)) f.names.insert(f.names.begin(), std::string());
  std::map<std::string, std::string> file_of; std::function<void(const std::string&, const pg::Func&)> files = [&](const std::string& n, const pg::Func& x) { file_of[n] = x.file; for (auto& [k, y] : x.calls) files(k.second, y); }; for (auto& [n, fn] : p) files(n, fn);
  { std::set<std::string> fs; for (auto& [n, x] : file_of) if (!x.empty() || s.Bool()) fs.insert(x); f.files.assign(fs.begin(), fs.end()); s.Shuffle(f.files); }
  for (auto& n : f.names) { auto it = file_of.find(n); size_t k = it == file_of.end() ? f.files.size() : std::find(f.files.begin(), f.files.end(), it->second) - f.files.begin(); f.name_file.push_back(k < f.files.size() ? (uint32_t)k : ~0u); }
  for (auto& [n, fn] : p) f.tops.push_back({fn.head, fn.timestamp, n, fn}); s.Shuffle(f.tops);
  uint64_t x = s.Draw(1 << 20); for (int i = 0; i < 128; ++i) f.working_set.push_back({(uint32_t)pbt::SplitMix(x) % 100000000, pbt::SplitMix(x)});
  if (version >= 3) { f.summary = {pbt::SplitMix(x), pbt::SplitMix(x), pbt::SplitMix(x), pbt::SplitMix(x), pbt::SplitMix(x), {}}; for (uint64_t i = s.Draw(20); i > 0; --i) f.summary.cutoffs.push_back({(uint32_t)pbt::SplitMix(x), pbt::SplitMix(x), pbt::SplitMix(x)}); }
  c.NonTrivial(p.size() >= 1 && p.begin()->second.NumLines() >= 2); c.Label("version " + std::to_string(version));
  c.Describe([&] { return "version " + std::to_string(version) + " names " + pbt::ToText(f.names, 0) + "\n" + pg::Show(p); });
  std::string path = c.Tmp("p.afdo"); pbt::WriteFile(path, gcc::Encode(f));
  dca::SymbolMap m; dca::AutoFDOProfileReader r(&m, s.Bool()); PBT_CHECK(r.ReadFromFile(path), "reading reports success");
  if (version < 3) { std::function<void(pg::Func*)> strip = [&](pg::Func* y) { y->file.clear(); y->timestamp = 0; for (auto& [k, z] : y->calls) strip(&z); }; for (auto& [n, fn] : p) strip(&fn); }
  std::string d = pg::Diff(pg::FromMap(m), p, true, true); PBT_CHECK(d.empty(), d);
  PBT_EQ(pg::CheckTotals(m), std::string(), "totals after reading");
  for (int i = 0; i < 128; ++i) { PBT_EQ((uint64_t)m.GetWorkingSets()[i].num_counters, (uint64_t)f.working_set[i].first * 10, "working set size " << i); PBT_EQ(m.GetWorkingSets()[i].min_counter, f.working_set[i].second, "working set count " << i); }
  auto* info = r.GetSummaryInformation();
  PBT_EQ(info != nullptr, version >= 3, "summary available");
  if (info) {
    PBT_EQ(info->total_count_, f.summary.total, "summary total"); PBT_EQ(info->max_count_, f.summary.max, "summary maximum"); PBT_EQ(info->max_function_count_, f.summary.max_function, "summary maximum head"); PBT_EQ(info->num_counts_, f.summary.num_counts, "summary counts"); PBT_EQ(info->num_functions_, f.summary.num_functions, "summary functions");
    PBT_EQ(info->detailed_summaries_.size(), f.summary.cutoffs.size(), "summary entries"); for (size_t i = 0; i < f.summary.cutoffs.size(); ++i) { auto& e = info->detailed_summaries_[i]; PBT_EQ((uint64_t)e.cutoff_, f.summary.cutoffs[i][0], "cutoff"); PBT_EQ(e.min_count_, f.summary.cutoffs[i][1], "cutoff count"); PBT_EQ(e.num_counts_, f.summary.cutoffs[i][2], "cutoff number"); }
  }
}

// Line and discriminator are packed as GCC unpacks them: 16 bits each.
void Packing(Src& s, Case& c) {
  uint64_t line = s.Chance(1, 3) ? s.Draw(~0u) : s.Draw(70000), disc = s.Draw(65535); uint64_t off = line << 32 | disc;
  c.NonTrivial(line > 65535 || disc); c.Describe([&] { return std::to_string(line) + "." + std::to_string(disc); });
  uint32_t z = dca::SourceInfo::GenerateCompressedOffset(off);
  PBT_EQ((uint64_t)(z >> 16), line & 0xffff, "line"); PBT_EQ((uint64_t)(z & 0xffff), disc, "discriminator");
  PBT_EQ((uint64_t)dca::SourceInfo::GetLineNumberFromOffset(off), line & 0xffff, "line of an offset"); PBT_EQ((uint64_t)dca::SourceInfo::GetDiscriminatorFromOffset(off), disc, "discriminator of an offset");
  PBT_EQ(dca::SourceInfo::GenerateOffset((uint32_t)line, (uint32_t)disc), off, "offset");
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P02"; su.scale = 4;
  su.rule = "A case is a generated profile written by the code and decoded independently, or a generated well-formed file (shuffled string table, files and functions) read by the code, or one offset. Non-trivial: a function with two lines, or an offset with a discriminator or more than 16 bits.";
  su.assumptions = {"section lengths are only checked where the format makes them exact (name table before version 2, function section before version 3); GCC skips them", "totals stay below 2^63"};
  su.subs = {{"written", Written, 20000, 600000}, {"encoded", Encoded, 20000, 600000}, {"packing", Packing, 100000, 2000000}};
  return pbt::Main(argc, argv, su);
}
