// MODE: LLVM
// SOURCES: perfdata_reader.cc spe_tid_pid_provider.cc llvm_propeller_binary_content.cc addr2cu.cc pb:perf
// TECHNIQUE: property-based testing: generated mappings, build ids and segments against a reference that selects mappings and translates addresses
// LEVEL_NOTE: Random search over recordings (several processes and mappings, kernel, conflicts, incomplete records); addresses are drawn at and around every edge.
#include "perfgen.h"
#include "perfdata_reader.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using U = uint64_t;
void Mappings(Src& s, Case& c) {
  bool kernel = s.Chance(1, 4); pgn::Bin b = pgn::GenBin(s, kernel); std::string exe = kernel && s.Chance(3, 4) ? s.OneOf<std::string>({"[kernel.kallsyms]_text", "[kernel.kallsyms]", "[kernel.kallsyms]_stext"}) : s.OneOf<std::string>({"/bin/prog", "/bin/prog", "/opt/v2/prog"}); pgn::Rec r = pgn::GenRec(s, b, kernel, exe);
  std::vector<std::string> names; if (s.Chance(1, 2)) { int n = 0; while (s.More(n, 1, 3, 1)) { ++n; names.push_back(n == 1 && s.Chance(2, 3) ? (kernel && exe[0] == '[' ? "[kernel.kallsyms]" : s.Bool() ? exe : pgn::Base(exe)) : s.OneOf<std::string>({"prog", "./prog", "/bin/prog", "/opt/v2/prog", "libx.so", "build/prog2", "[kernel.kallsyms]", "vmlinux", "[kernel.kallsyms]_text", "other"})); } }
  c.Describe([&] { std::string d = pgn::Show(b, r) + "names:"; for (auto& n : names) d += " '" + n + "'"; return d; });
  quipper::PerfDataProto proto; pgn::Put(r, &proto); std::string bytes = quipper::EncodeStandInPerf(proto); BinaryContent content; content.file_name = "the-binary"; content.is_pie = b.pie; content.build_id = pgn::HexOf(b.build_id); for (auto& g : b.segs) content.segments.push_back({.offset = g.off, .vaddr = g.vaddr, .memsz = g.memsz});
  PerfDataProvider::BufferHandle h{.description = "recording", .buffer = llvm::MemoryBuffer::getMemBufferCopy(bytes)};
  std::set<std::string> want_names(names.begin(), names.end()); bool by_id = names.empty(); if (by_id) want_names = pgn::IdNames(r, content.build_id);
  std::optional<pgn::Maps> want; if (want_names.size()) want = pgn::Select(r, want_names);
  std::vector<absl::string_view> views(names.begin(), names.end()); auto got = SelectMMaps(h, views, content);
  bool any = false; for (auto& m : r.maps) any |= m.has_pid && m.has_name && m.has_len && m.has_start && pgn::Matches(want_names, m.name); c.LabelIf(!want && any, "conflicting mappings"); c.LabelIf(!any, "no mapping"); c.LabelIf(by_id, "by build id"); c.LabelIf(kernel, "kernel");
  if (!want) { PBT_CHECK(!got.ok(), "mappings accepted: " << (any ? "they conflict" : "none is of the binary")); PBT_CHECK(absl::IsFailedPrecondition(got.status()), got.status().ToString()); auto rd = BuildPerfDataReader(std::move(h), &content, names.size() == 1 ? names[0] : ""); if (names.size() <= 1) PBT_CHECK(!rd.ok(), "reader built without mappings"); return; }
  PBT_CHECK(got.ok(), "mappings refused: " << got.status().ToString()); int total = 0;
  PBT_EQ(got->size(), want->size(), "processes"); for (auto& [pid, v] : *want) { PBT_CHECK(got->count(pid), "no mappings of process " << pid); std::set<std::string> g, w; for (auto& e : got->at(pid)) { std::ostringstream o; o << std::hex << e.pid << ":" << e.load_addr << "+" << e.load_size << "@" << e.page_offset << " " << e.file_name; g.insert(o.str()); } for (auto& e : v) { std::ostringstream o; o << std::hex << e.pid << ":" << e.start << "+" << e.len << "@" << e.pgoff << " " << e.name; w.insert(o.str()); } PBT_EQ(pbt::ToText(g, 0), pbt::ToText(w, 0), "mappings of process " << pid); total += v.size(); }
  std::optional<PerfDataReader> reader; if (names.size() <= 1) { auto rd = BuildPerfDataReader(std::move(h), &content, names.size() == 1 ? names[0] : ""); PBT_CHECK(rd.ok(), "no reader: " << rd.status().ToString()); reader.emplace(*std::move(rd)); PBT_EQ(reader->binary_mmaps().size(), want->size(), "processes of the reader"); } else reader.emplace(std::move(h), *got, &content);
  PBT_EQ(reader->IsKernelMode(), want->count(pgn::kKernel) > 0, "kernel mode");
  int inside = 0, outside = 0; auto Check = [&](uint32_t pid, U a) { U w = pgn::Translate(b, *want, pid, a), g = reader->RuntimeAddressToBinaryAddress(pid, a); PBT_CHECK(g == w, std::hex << "address " << a << " of process " << pid << " became " << g << ", want " << w); ++(w == pgn::kNone ? outside : inside); };
  for (auto& [pid, v] : *want) for (auto& m : v) { for (U a : {m.start - 1, m.start, m.start + m.len - 1, m.start + m.len}) Check(pid, a); for (auto& g : b.segs) { U k = m.start - (pid == pgn::kKernel ? b.segs[0].off : m.pgoff) + g.off; for (U a : {k - 1, k, k + g.memsz / 2, k + g.memsz - 1, k + g.memsz}) Check(pid, a); } }
  for (int i = 0; i < 10; ++i) { uint32_t pid = s.OneOf<uint32_t>({100, 101, 102, 7, pgn::kKernel}); U a = pgn::SomeAddress(s, b, r, &pid); Check(pid, a); }
  c.NonTrivial(inside && outside && total > 1); c.LabelIf(want->size() > 1, "several processes"); c.LabelIf(b.segs.size() > 1, "several segments"); c.LabelIf(names.size() > 1 || (by_id && want_names.size() > 1), "several names");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P30"; su.rule = "several mappings selected, addresses inside and outside of them queried";
  su.assumptions = {"segments cover disjoint parts of the file, in ascending order", "perf's container format is replaced by a stand-in (quipper is not available); mappings are not empty"};
  su.subs = {{"mappings", Mappings, 400000, 6000000}};
  return pbt::Main(argc, argv, su);
}
