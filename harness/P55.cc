// MODE: GCOV
// SOURCES: profile_writer.cc profile_reader.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc sample_reader.cc pb:perf
// TECHNIQUE: property-based testing with fault injection: generated profiles and sample files cut at a drawn byte, read by the repository's readers in child processes
// LEVEL_NOTE: Random search over files and cut points, plus every cut point of some small files. Cuts that leave a text file whose records are all complete are not damage.
#include <unistd.h>
#include "gcov.h"
#include "profgen.h"
#include "profile_reader.h"
#include "profile_writer.h"
#include "sample_reader.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(uint64_t, gcov_version);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
std::string Outcome(const std::function<bool()>& f) { bool died = false; std::string r = pbt::InChild([&] { return std::string(f() ? "accepted" : "refused"); }, &died); return died ? "refused" : r; }
std::string ReadGcc(const std::string& path) { return Outcome([&] { dca::SymbolMap m; dca::AutoFDOProfileReader r(&m, true); return r.ReadFromFile(path); }); }
void Gcc(Src& s, Case& c) {
  pg::Opt o; o.max_funcs = s.Chance(1, 4) ? 40 : 5; o.files = true; o.timestamps = true; pg::Profile p = pg::Gen(s, o); dca::SymbolMap m; pg::Build(p, &m); if (s.Chance(3, 4)) { for (auto& [n, y] : m.map()) for (auto& [k, q] : const_cast<dca::Symbol*>(y)->pos_counts) q.num_inst = 1 + s.Draw(9); m.ComputeWorkingSets(); }
  uint32_t v = s.OneOf<uint32_t>({1, 2, 3}); absl::SetFlag(&FLAGS_gcov_version, v); std::string path = c.Tmp("f"); { dca::AutoFDOProfileWriter w(&m, v); PBT_CHECK(w.WriteToFile(path), "write"); } std::string all = pbt::ReadFile(path); PBT_CHECK(all.size() > 1540, "file of " << all.size() << " bytes");
  PBT_EQ(ReadGcc(path), std::string("accepted"), "the whole file of version " << v);
  // The working set is the last 128 * 12 bytes.
  std::vector<size_t> cuts; int n = s.Int(1, 4); for (int i = 0; i < n; ++i) switch (s.Weighted({3, 3, 2, 1})) { case 0: cuts.push_back(s.Draw(all.size() - 1)); break; case 1: cuts.push_back(all.size() - 1 - s.Draw(1540)); break; case 2: cuts.push_back(all.size() - 1 - s.Draw(16)); break; default: cuts.push_back(s.Draw(40)); }
  c.NonTrivial(p.size() > 1); c.Label("version " + std::to_string(v));
  for (size_t k : cuts) { pbt::WriteFile(path, all.substr(0, k)); c.LabelIf(k + 1536 > all.size(), "within the working set"); PBT_EQ(ReadGcc(path), std::string("refused"), "the first " << k << " of the " << all.size() << " bytes of a version " << v << " profile"); }
  c.Describe([&] { return "version " + std::to_string(v) + ", " + std::to_string(all.size()) + " bytes, cut at " + pbt::ToText(cuts, 0) + "\n" + pg::Show(p); }); unlink(path.c_str());
}
void Text(Src& s, Case& c) {
  std::ostringstream o; size_t n[3]; std::vector<size_t> ends; for (int k = 0; k < 3; ++k) { n[k] = s.Chance(1, 4) ? s.Range(0, 40) : s.Range(0, 3); o << n[k] << "\n"; for (size_t i = 0; i < n[k]; ++i) { auto a = [&] { return s.Bool() ? s.Draw(0xffff) : s.U64(); }; o << std::hex << a(); if (k == 0) o << "-" << a(); if (k == 2) o << "->" << a(); o << ":" << std::dec << (s.Bool() ? s.Draw(200) : s.U64(1ull << 62)) << "\n"; } }
  std::string all = o.str(); std::string path = c.Tmp("t"); size_t last = all.rfind('\n', all.size() - 2); last = last == all.npos ? 0 : last + 1;  // where the last line starts
  pbt::WriteFile(path, all); std::string whole = Outcome([&] { dca::TextSampleReaderWriter r(path); return r.Append(path); }); PBT_EQ(whole, std::string("accepted"), "the whole file");
  size_t cut = s.Chance(1, 3) ? last : s.Draw(last); if (n[2]) { size_t colon = all.rfind(':'); if (s.Chance(1, 4)) cut = std::max(cut, last + s.Draw(colon - last)); }
  c.Describe([&] { return "cut at " + std::to_string(cut) + ":\n" + all; }); c.NonTrivial(n[0] + n[1] + n[2] > 1);
  pbt::WriteFile(path, all.substr(0, cut)); PBT_EQ(Outcome([&] { dca::TextSampleReaderWriter r(path); return r.Append(path); }), std::string("refused"), "the first " << cut << " of " << all.size() << " bytes of a sample file"); unlink(path.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P55"; su.rule = "a profile with several functions, or a sample file with several records, cut short";
  su.subs = {{"gcc", Gcc, 4000, 120000}, {"text", Text, 8000, 300000}};
  su.assumptions = {"a process that aborts has refused the file", "a text file that lost only digits of its last number cannot be told from a complete one"};
  return pbt::Main(argc, argv, su);
}
