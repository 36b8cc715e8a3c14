// MODE: GCOV
// SOURCES: profile_creator.cc simple_spe_sample_reader.cc sample_reader.cc profile.cc instruction_map.cc symbol_map.cc source_info.cc gcov.cc profile_writer.cc legacy_addr2line.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc util/symbolize/addr2line_inlinestack.cc pb:perf
// BIN: create_gcov = create_gcov.cc profile_creator.cc simple_spe_sample_reader.cc sample_reader.cc profile.cc instruction_map.cc symbol_map.cc source_info.cc gcov.cc profile_writer.cc legacy_addr2line.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc util/symbolize/addr2line_inlinestack.cc pb:perf
// TECHNIQUE: property-based testing end to end: generated binaries with debug information and sample files, the written profile decoded independently and compared with a reference line profile
// LEVEL_NOTE: Random search over programs of written debug information (DWARF 2 to 5), sample sets, thresholds, name policies and format versions; through the library and through the create_gcov program.
#include "createprof.h"
#include "gcccodec.h"
#include "gcov.h"
#include "profile_creator.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/flag.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using U = uint64_t;
ABSL_DECLARE_FLAG(bool, use_lbr); ABSL_DECLARE_FLAG(double, sample_threshold_frac); ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
namespace {
void Check(const std::string& file, const cp::Setup& t, const pg::Profile& want, uint32_t version) {
  gcc::File f = gcc::Decode(pbt::ReadFile(file)); PBT_EQ(f.version, version, "version"); pg::Profile got; for (auto& x : f.tops) { PBT_CHECK(!got.count(x.name), x.name << " listed twice"); got[x.name] = x.f; got[x.name].head = x.head; PBT_EQ(x.timestamp, 0u, "time stamp"); }
  std::string d = pg::Diff(got, want, false, false); PBT_CHECK(d.empty(), d); (void)t;
}
void Stats(Case& c, const cp::Setup& t, const lm::Result& r, const pg::Profile& want) { c.NonTrivial(want.size() && t.depth > 1 && (t.lbr ? r.multi > 0 : t.sm.addr.size() > 2)); c.LabelIf(t.lbr, "ranges"); c.LabelIf(r.heads, "entered functions"); c.LabelIf(r.targets, "call targets"); c.LabelIf(want.size() < t.w.fns.size() && want.size(), "some functions too cold"); c.Describe([&] { return cp::Show(t); }); }
const std::vector<uint32_t> kVersions = {1, 2, 3, 0x3430372a};
void Library(Src& s, Case& c) {
  cp::Setup t; cp::Generate(s, c, &t, false); auto r = lm::Lines(t.w, t.sm, t.lbr, t.threshold); if (r.odd) throw pbt::Discard(); auto want = cp::ToProfile(lm::Folded(t.w, r.raw), t.threshold); Stats(c, t, r, want);
  absl::SetFlag(&FLAGS_use_lbr, t.lbr); absl::SetFlag(&FLAGS_sample_threshold_frac, t.frac); absl::SetFlag(&FLAGS_suffix_elision_policy, t.w.policy); uint32_t v = s.Pick(kVersions); absl::SetFlag(&FLAGS_gcov_version, v);
  std::string out = c.Tmp("out"); dca::AutoFDOProfileWriter w(v); dca::ProfileCreator p(t.bin); PBT_CHECK(p.CreateProfile(t.text, "text", &w, out), "creating the profile fails"); U n = 0; if (t.sm.range.empty()) for (auto& [a, k] : t.sm.addr) n += k; else for (auto& [a, k] : t.sm.range) n += k; PBT_EQ(p.TotalSamples(), n, "number of samples"); PBT_EQ(dca::ProfileCreator::GetTotalCountFromTextProfile(t.text), n, "number of samples in the text file"); Check(out, t, want, v); unlink(out.c_str()); unlink(t.bin.c_str()); unlink(t.text.c_str());
}
void Program(Src& s, Case& c) {
  cp::Setup t; cp::Generate(s, c, &t, false); auto r = lm::Lines(t.w, t.sm, t.lbr, t.threshold); if (r.odd) throw pbt::Discard(); auto want = cp::ToProfile(lm::Folded(t.w, r.raw), t.threshold); Stats(c, t, r, want);
  std::string out = c.Tmp("out"); unlink(out.c_str()); uint32_t v = s.Pick(kVersions); std::vector<std::string> a = {std::string(getenv("PBT_BIN")) + "/create_gcov", "--profiler=text"}; for (auto& f : t.flags) a.push_back(f); if (v != 0x3430372a || s.Bool()) a.push_back("--gcov_version=" + std::to_string(v)); a.push_back("--binary=" + t.bin); a.push_back("--profile=" + t.text); a.push_back("--gcov=" + out); std::string so, se;
  int bad = s.Chance(1, 3) ? 1 + s.Draw(5) : 0; auto Set = [&](const std::string& p, const std::string& v2) { for (auto& x : a) if (x.compare(0, p.size(), p) == 0) x = p + v2; };
  switch (bad) { case 1: Set("--profile=", c.Tmp("absent")); c.Label("missing samples"); break; case 2: { std::string x = pbt::ReadFile(t.text); size_t n = x.size() > 3 ? s.Draw(x.size() - 3) : 0; x.resize(n); while (!x.empty() && x.back() != '\n') x.pop_back(); /* whole lines, but not all sections */ pbt::WriteFile(t.text, x); c.Label("cut samples"); break; } case 3: Set("--binary=", c.Tmp("absent")); c.Label("missing binary"); break; case 4: Set("--gcov=", c.Tmp("absent") + "/dir/out"); c.Label("unwritable output"); break; case 5: Set("--profiler=", s.OneOf<std::string>({"tex", "Text", "", "lbr", "gcov"})); c.Label("unknown profiler"); break; case 6: pbt::WriteFile(t.text, s.Bytes(1 + s.Draw(40)) + "x"); c.Label("not a sample file"); break; }
  int rc = pbt::Exec(a, &so, &se); if (bad) { PBT_CHECK((rc == 1 || rc == 255 || rc == 134) && se.find("AddressSanitizer") == std::string::npos, "exit " << rc << " for bad input: " << cp::Head(se)); PBT_CHECK(access(out.c_str(), F_OK), "a profile is written from bad input"); return; }
  PBT_CHECK(rc == 0, "exit " << rc << ": " << cp::Head(se)); Check(out, t, want, v); unlink(out.c_str()); unlink(t.bin.c_str()); unlink(t.text.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P48"; su.rule = "a function is written, the program has inlined code, and some byte lies in more than one range (or, without ranges, more than two addresses were sampled)";
  su.assumptions = {"line offsets and discriminators fit 16 bits", "functions at different addresses have different names"};
  su.subs = {{"library", Library, 20000, 500000}, {"program", Program, 1500, 30000}};
  return pbt::Main(argc, argv, su);
}
