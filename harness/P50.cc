// MODE: GCOV
// SOURCES: profile_creator.cc simple_spe_sample_reader.cc sample_reader.cc profile.cc instruction_map.cc symbol_map.cc source_info.cc gcov.cc profile_writer.cc legacy_addr2line.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/bytereader.cc util/symbolize/index_helper.cc util/symbolize/elf_reader.cc util/symbolize/functioninfo.cc util/symbolize/addr2line_inlinestack.cc pb:perf
// TECHNIQUE: property-based testing: generated recordings and sample files, binaries with and without build identifications; the samples selected by the profile creator and the file written by the merge tool against reference counts
// LEVEL_NOTE: Random search. The merge tool's own main function runs inside the check. The perf parser itself is outside the repository (stand-in).
#include <sys/stat.h>
#include <unistd.h>
#include "elfgen.h"
#include "profile_creator.h"
#include "recgen.h"
#include "third_party/abseil/absl/flags/flag.h"
#define main sample_merger_main
#include "sample_merger.cc"
#undef main
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; using U = uint64_t;
ABSL_DECLARE_FLAG(std::string, focus_binary_re); ABSL_DECLARE_FLAG(uint64_t, strip_dup_backedge_stride_limit);
namespace {
using PM = std::map<std::pair<U, U>, U>;
struct Counts { PM range, branch; std::map<U, U> addr; void Add(const Counts& o) { for (auto& [k, v] : o.range) range[k] += v; for (auto& [k, v] : o.branch) branch[k] += v; for (auto& [k, v] : o.addr) addr[k] += v; } bool operator==(const Counts& o) const { return range == o.range && branch == o.branch && addr == o.addr; } };
std::string Text(const Counts& m) { std::ostringstream o; o << m.range.size() << "\n"; for (auto& [k, v] : m.range) o << std::hex << k.first << "-" << k.second << ":" << std::dec << v << "\n"; o << m.addr.size() << "\n"; for (auto& [k, v] : m.addr) o << std::hex << k << ":" << std::dec << v << "\n"; o << m.branch.size() << "\n"; for (auto& [k, v] : m.branch) o << std::hex << k.first << "->" << k.second << ":" << std::dec << v << "\n"; return o.str(); }
Counts Of(const dca::SampleReader& r) { return {PM(r.range_count_map().begin(), r.range_count_map().end()), PM(r.branch_count_map().begin(), r.branch_count_map().end()), std::map<U, U>(r.address_count_map().begin(), r.address_count_map().end())}; }
Counts Parse(const std::string& t) {
  Counts m; std::istringstream in(t); size_t n; unsigned long long a, b, k; std::string l; auto Num = [&] { if (!std::getline(in, l) || l.find_first_not_of("0123456789") != l.npos) return false; n = std::stoull(l); return true; };
  if (!Num()) throw std::runtime_error("no number of ranges"); while (n--) { if (!std::getline(in, l) || sscanf(l.c_str(), "%llx-%llx:%llu", &a, &b, &k) != 3 || m.range.count({a, b})) throw std::runtime_error("bad range: " + l); m.range[{a, b}] = k; } if (!Num()) throw std::runtime_error("no number of addresses"); while (n--) { if (!std::getline(in, l) || sscanf(l.c_str(), "%llx:%llu", &a, &k) != 2 || m.addr.count(a)) throw std::runtime_error("bad address: " + l); m.addr[a] = k; } if (!Num()) throw std::runtime_error("no number of branches"); while (n--) { if (!std::getline(in, l) || sscanf(l.c_str(), "%llx->%llx:%llu", &a, &b, &k) != 3 || m.branch.count({a, b})) throw std::runtime_error("bad branch: " + l); m.branch[{a, b}] = k; } if (std::getline(in, l)) throw std::runtime_error("text after the samples: " + l); return m;
}
void Compare(const Counts& got, const Counts& want, const std::string& what) { auto show = [](const auto& m) { return pbt::ToText(std::decay_t<decltype(m)>(m), 0); }; PBT_EQ(show(got.range), show(want.range), what << ": ranges"); PBT_EQ(show(got.branch), show(want.branch), what << ": branches"); PBT_EQ(show(got.addr), show(want.addr), what << ": addresses"); }
Counts GenCounts(Src& s) { Counts m; int n = 0; auto A = [&] { return s.Chance(1, 6) ? s.U64(~0ull) : 0x1000 + s.Draw(20); }; auto K = [&] { return s.Chance(1, 6) ? s.U64(1ull << 60) : s.Draw(30); }; while (s.More(n, 0, 12, 3)) { ++n; switch (s.Draw(2)) { case 0: m.range[{A(), A()}] += K(); break; case 1: m.branch[{A(), A()}] += K(); break; default: m.addr[A()] += K(); } } return m; }
struct Binary { std::string path, id, base; };
// A binary of some name, with or without identification, and recordings that mention it.
Binary GenBinary(Src& s, Case& c, std::string* dir) {
  Binary b; b.base = s.OneOf<std::string>({"app", "app", "a.out", "c++", "app-1.2", "x[y]", "(z)", "v1$", "tool.unstrip", "q*", "a|b", "tool.exe", "^up"}); std::string file = b.base; if (s.Chance(1, 4)) file += s.OneOf<std::string>({".unstripped", ".unstripped.bak"}); *dir = c.Tmp("bin.d"); mkdir(dir->c_str(), 0700); b.path = *dir + "/" + file; if (s.Chance(2, 3)) { b.id.assign(s.OneOf<int>({20, 20, 16, 8, 4}), 'a'); b.id[0] = 1 + s.Draw(200); }
  elfgen::Image im; im.machine = 62; im.secs.resize(1); elfgen::Sec t; t.name = ".text"; t.flags = 6; t.addr = 0x1000; t.data = "\x90"; im.secs.push_back(t);
  if (!b.id.empty()) { elfgen::Sec n; n.name = ".note.gnu.build-id"; n.type = 7; n.flags = 2; n.align = 4; auto P = [&](uint32_t v) { n.data.append((char*)&v, 4); }; P(4); P(b.id.size()); P(3); n.data += std::string("GNU\0", 4) + b.id; while (n.data.size() & 3) n.data += '\0'; im.secs.push_back(n); } elfgen::Sec sh; sh.name = ".shstrtab"; sh.type = 3; im.secs.push_back(sh); im.shstrndx = im.secs.size() - 1; pbt::WriteFile(b.path, elfgen::Write(&im));
  auto& N = rg::Names(); N[0] = "/opt/bin/" + b.base; N[1] = N[0] + "2"; std::string x = b.base; for (char& ch : x) if (!isalnum((unsigned char)ch)) { ch = 'X'; break; } N[8] = x == b.base ? "/opt/bin/appx" : "/opt/bin/" + x; N[3] = s.Bool() ? "/old/" + b.base : s.Bool() ? b.base : "/opt/bin/my" + b.base; return b;
}
std::string IdOf(const Binary& b) { std::string r = b.id; r.resize(20, '\0'); return r; }
Counts Wanted(const rg::Rec& r, const Binary& b, const std::string& re, rg::Tally* t) {
  rg::Focus f; rg::Want w; if (!re.empty()) f.re = re; else if (!b.id.empty()) { f.build = IdOf(b); f.re = "x"; }
  if (re.empty() && b.id.empty()) { rg::Rec q = r; for (auto& m : q.maps) { size_t k = m.name.rfind('/'); bool is = k != m.name.npos && m.name.substr(k + 1) == b.base; m.name = is ? "match" : "other"; } f.re = "match"; rg::Model(q, f, 0x1000, &w, t); } else rg::Model(r, f, 0x1000, &w, t); Counts k; k.range = w.range; k.branch = w.branch; k.addr = w.address; return k;
}
struct Scene { Binary b; std::string dir, re; std::vector<rg::Rec> recs; std::vector<std::string> files; std::vector<Counts> counts; rg::Tally t; };
void GenScene(Src& s, Case& c, Scene* x, int most) {
  absl::SetFlag(&FLAGS_strip_dup_backedge_stride_limit, 0x1000); x->b = GenBinary(s, c, &x->dir); if (s.Chance(1, 4)) x->re = s.OneOf<std::string>({"app", "^/opt", "libc", "kernel", "/bin/.*", "[0-9]$"}); int n = 0; std::vector<std::string> ids = {IdOf(x->b), std::string(20, 'q'), IdOf(x->b).substr(0, 19) + "~"};
  while (s.More(n, 1, most, 2)) { ++n; x->recs.push_back(rg::MakeRec(s, ids)); auto& r = x->recs.back(); if (s.Chance(1, 4)) for (auto& [k, id] : r.ids) if (s.Bool()) id = ids[1]; x->counts.push_back(Wanted(r, x->b, x->re, &x->t)); x->files.push_back(c.Tmp("perf" + std::to_string(n))); pbt::WriteFile(x->files.back(), quipper::EncodeStandInPerf(rg::ToPerf(r))); }
}
std::string Show(const Scene& x) { std::ostringstream o; o << x.b.path << " id " << pbt::Hex(x.b.id) << " focus '" << x.re << "'"; for (auto& r : x.recs) { o << "\nrecording:"; for (auto& m : r.maps) o << " [" << m.pid << " " << m.name << "]"; for (auto& [n, id] : r.ids) o << " id " << n << "=" << pbt::Hex(id); o << " " << r.samples.size() << " samples"; } for (auto& k : x.counts) o << "\n" << Text(k); return o.str(); }
void Clean(const Scene& x) { for (auto& f : x.files) unlink(f.c_str()); unlink(x.b.path.c_str()); rmdir(x.dir.c_str()); }
void Selected(Src& s, Case& c) {
  Scene x; GenScene(s, c, &x, 1); c.Describe([&] { return Show(x); }); c.NonTrivial(x.t.matched > 1 && x.t.ranges > 1); c.Label(!x.re.empty() ? "by expression" : x.b.id.empty() ? "by name" : "by build id"); absl::SetFlag(&FLAGS_focus_binary_re, x.re);
  dca::ProfileCreator p(x.b.path); PBT_CHECK(p.ReadSample(x.files[0], "perf"), "not read"); Compare(Of(p.sample_reader()), x.counts[0], "samples"); U n = 0; if (x.counts[0].range.empty()) for (auto& [a, k] : x.counts[0].addr) n += k; else for (auto& [a, k] : x.counts[0].range) n += k; PBT_EQ(p.TotalSamples(), n, "number of samples");
  bool kernel = false; if (x.re.empty() && !x.b.id.empty()) for (auto& [nm, id] : x.recs[0].ids) if (id == IdOf(x.b) && (nm == "[kernel.kallsyms]" || (nm.size() >= 7 && nm.substr(nm.size() - 7) == "vmlinux"))) kernel = true; PBT_EQ(p.IsKernelSample(), kernel, "kernel samples"); Clean(x);
}
int Tool(std::vector<std::string> a) { using absl::SetFlag; SetFlag(&FLAGS_profile, "data.profile"); SetFlag(&FLAGS_profiles, std::vector<std::string>()); SetFlag(&FLAGS_profiler, "perf"); SetFlag(&FLAGS_output_file, "data.txt"); SetFlag(&FLAGS_binary, "data.binary"); a.insert(a.begin(), "sample_merger"); std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr); return sample_merger_main(a.size(), v.data()); }
void Merge(Src& s, Case& c) {
  Scene x; bool text = s.Bool(); absl::SetFlag(&FLAGS_focus_binary_re, ""); std::string out = c.Tmp("out"); unlink(out.c_str()); std::vector<std::string> a; int n = 0;
  if (text) { while (s.More(n, 1, 4, 2)) { ++n; x.counts.push_back(GenCounts(s)); x.files.push_back(c.Tmp("in" + std::to_string(n))); pbt::WriteFile(x.files.back(), Text(x.counts.back())); } a.push_back("--profiler=text"); } else { GenScene(s, c, &x, 3); a.push_back("--binary=" + x.b.path); if (!x.re.empty()) a.push_back("--focus_binary_re=" + x.re); if (s.Bool()) a.push_back("--profiler=perf"); }
  Counts want, old; bool existing = s.Bool(); if (existing) { old = GenCounts(s); pbt::WriteFile(out, Text(old)); want = old; } int bad = s.Chance(1, 5) ? 1 + s.Draw(3) : 0; std::vector<std::string> list;
  bool single = s.Chance(1, 4); for (size_t i = 0; i < (single ? 1 : x.files.size()); ++i) { int times = !single && s.Chance(1, 6) ? 2 : 1; while (times--) { list.push_back(x.files[i]); want.Add(x.counts[i]); } if (!single && s.Chance(1, 6)) list.push_back(""); } s.Shuffle(list);
  std::string before = existing ? pbt::ReadFile(out) : ""; switch (bad) { case 1: list[s.Draw(list.size() - 1)] = c.Tmp("absent"); c.Label("missing input"); break; case 2: { std::string f = c.Tmp("junk"); pbt::WriteFile(f, s.OneOf<std::string>({"2\n1-2:3\n", "x", "", "0\n0\n", "1\n5-6\n0\n0\n"})); list[s.Draw(list.size() - 1)] = f; c.Label("unreadable input"); break; } case 3: before = s.OneOf<std::string>({"junk\n", "1\n0\n0\n", "3\n1-2:3\n"}); pbt::WriteFile(out, before); existing = true; c.Label("unreadable output"); break; case 4: out = c.Tmp("absent") + "/out"; c.Label("unwritable output"); break; }
  std::string joined; for (size_t i = 0; i < list.size(); ++i) joined += (i ? "," : "") + list[i]; if (single && s.Bool()) a.push_back("--profile=" + list[0]); else a.push_back("--profiles=" + joined); a.push_back("--output_file=" + out); s.Shuffle(a);
  c.Describe([&] { std::string r = Show(x) + "\nexisting: " + (existing ? before : "none") + "\n"; for (auto& y : a) r += y + " "; return r; }); c.NonTrivial(!bad && list.size() > 1 && want.range.size() + want.addr.size() + want.branch.size() > 2); c.Label(text ? "text" : "recordings"); c.LabelIf(existing, "adding to an existing file");
  bool empty_single = list.size() == 1 && list[0].empty(); (void)empty_single; int rc = Tool(a); if (bad) { PBT_EQ(rc, 1, "exit code for bad input"); if (bad != 4) { if (existing) PBT_EQ(pbt::ReadFile(out), before, "existing file after a failure"); else PBT_CHECK(access(out.c_str(), F_OK), "written in spite of bad input"); } } else { PBT_EQ(rc, 0, "exit code"); Compare(Parse(pbt::ReadFile(out)), want, "merged file"); }
  unlink(out.c_str()); for (auto& f : x.files) unlink(f.c_str()); if (!text) Clean(x);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P50"; su.scale = 2; su.rule = "selected: at least two branches and two ranges of the binary; merge: at least two inputs and three counts";
  su.assumptions = {"an entry followed by a backward or implausibly long range is bogus and contributes neither range nor branch", "recordings carry 20-byte build identifications, padded with zeros", "the folder of the binary has no '.unstripped' in its name"};
  su.subs = {{"selected", Selected, 30000, 600000}, {"merge", Merge, 30000, 600000}};
  return pbt::Main(argc, argv, su);
}
