// MODE: LLVM
// SOURCES: sample_reader.cc pb:perf
// TECHNIQUE: property-based testing: generated recordings (mappings, processes, branch stacks with hardware anomalies) against a reference reading of the branch stacks
// LEVEL_NOTE: Random search. The perf parser itself is outside the repository: recordings go through a stand-in that maps addresses by the latest mapping of the process.
#include <map>
#include <regex>
#include <set>
#include <unistd.h>
#include "recgen.h"
#include "sample_reader.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(uint64_t, strip_dup_backedge_stride_limit);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
using namespace rg;
void Check(Src& s, Case& c) {
  std::vector<std::string> build; for (int i = 0; i < 3; ++i) build.push_back(std::string(s.OneOf({20, 16, 8}), 'a' + i)); std::string hex; for (unsigned char ch : build[0]) { hex += "0123456789abcdef"[ch >> 4]; hex += "0123456789abcdef"[ch & 15]; }
  Focus f; bool by_id = s.Bool(); f.re = s.OneOf<std::string>({"app$", "/app", "^/opt", "^/opt/bin/app$", "kernel", "bin"}); std::vector<Rec> recs; int n = 0; while (s.More(n, 1, 3, 2)) { ++n; recs.push_back(MakeRec(s, build)); }
  uint64_t limit = s.Chance(1, 4) ? s.OneOf<uint64_t>({0, 0x10, 0x800}) : 0x1000; absl::SetFlag(&FLAGS_strip_dup_backedge_stride_limit, limit); if (by_id) f.build = build[0];
  Want w; Tally t; for (auto& r : recs) Model(r, f, limit, &w, &t);
  c.Describe([&] { std::ostringstream o; o << (by_id ? "by build id" : "by name " + f.re) << " limit " << limit << std::hex; for (auto& r : recs) { o << " recording:"; for (auto& m : r.maps) o << " [" << m.pid << " " << m.name << " pgoff " << m.pgoff << "]"; for (auto& [q, id] : r.ids) if (id == build[0]) o << " id:" << q; auto L = [&](const Loc& l) { std::ostringstream p; p << std::hex << l.map << "+" << l.off; return p.str(); }; for (auto& x : r.samples) { o << " {" << x.pid << " ip " << L(x.ip); for (auto& e : x.stack) o << " " << L(e.from) << "->" << L(e.to) << (e.spec == 1 ? "!" : ""); o << "}"; } } return o.str(); });
  c.NonTrivial(t.ranges > 1 && t.matched > 1 && w.range.size() > 1); c.Label(by_id ? "by build id" : "by name"); c.LabelIf(t.wrong, "wrong path"); c.LabelIf(t.back, "backward range"); c.LabelIf(t.large, "too large range"); c.LabelIf(t.dup, "duplicated top"); c.LabelIf(t.foreign_end, "range ending elsewhere"); c.LabelIf(recs.size() > 1, "several recordings");
  std::vector<std::string> paths; for (auto& r : recs) { paths.push_back(c.Tmp("perf" + std::to_string(paths.size()))); pbt::WriteFile(paths.back(), quipper::EncodeStandInPerf(ToPerf(r))); }
  dca::PerfDataSampleReader rd(paths[0], f.re, by_id ? hex : ""); PBT_CHECK(rd.ReadAndSetTotalCount(), "not read"); Want first; Tally ft; Model(recs[0], f, limit, &first, &ft);
  uint64_t total = 0; if (first.range.size()) for (auto& [r, x] : first.range) total += x * (1 + r.second - r.first); else for (auto& [a, x] : first.address) total += x; PBT_EQ(rd.GetTotalCount(), total, "total count after the first file");
  for (size_t i = 1; i < paths.size(); ++i) PBT_CHECK(rd.Append(paths[i]), "not read"); for (auto& p : paths) unlink(p.c_str());
  auto show = [](const auto& m) { return pbt::ToText(std::decay_t<decltype(m)>(m), 0); }; using PM = std::map<std::pair<uint64_t, uint64_t>, uint64_t>;
  PBT_EQ(show(PM(rd.range_count_map().begin(), rd.range_count_map().end())), show(w.range), "ranges"); PBT_EQ(show(PM(rd.branch_count_map().begin(), rd.branch_count_map().end())), show(w.branch), "branches"); std::map<uint64_t, uint64_t> ad(rd.address_count_map().begin(), rd.address_count_map().end()), tm(rd.address_timestamp_map().begin(), rd.address_timestamp_map().end());
  PBT_EQ(show(ad), show(w.address), "addresses"); PBT_EQ(show(tm), show(w.time), "first times");
  uint64_t sum = 0; std::set<uint64_t> sa; if (w.range.size()) for (auto& [r, x] : w.range) { sum += x; sa.insert(r.first); } else for (auto& [a, x] : w.address) { sum += x; sa.insert(a); } PBT_EQ(rd.GetTotalSampleCount(), sum, "total samples"); PBT_CHECK(rd.GetSampledAddresses() == sa, "sampled addresses"); for (auto& [a, x] : w.address) { PBT_EQ(rd.GetSampleCountOrZero(a), x, "count at an address"); if (!w.address.count(a + 1)) PBT_EQ(rd.GetSampleCountOrZero(a + 1), 0u, "count where nothing was sampled"); }
  dca::PerfDataSampleReader bad("/nonexistent/perf", f.re, ""); if (s.Chance(1, 20)) PBT_CHECK(!bad.ReadAndSetTotalCount(), "a missing file was read");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P14"; su.rule = "at least two ranges and two branches of the focused binary counted";
  su.subs = {{"read", Check, 60000, 1500000}};
  su.assumptions = {"an entry followed by a backward or implausibly long range is bogus and contributes neither range nor branch", "the duplicated-top rule applies to the first two recorded entries", "addresses are offsets in the binary's file"};
  return pbt::Main(argc, argv, su);
}
