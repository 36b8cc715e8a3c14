// MODE: LLVM
// SOURCES: sample_reader.cc pb:perf
// TECHNIQUE: stateful property-based testing: generated sequences of additions, merges, writes and reads of sample text files against a reference of summed counts and an independent parser of the files
// LEVEL_NOTE: Random search over sequences; counts are 64-bit.
#include <map>
#include <set>
#include <unistd.h>
#include "pbt.h"
#include "sample_reader.h"
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo;
namespace {
using U = uint64_t; using PM = std::map<std::pair<U, U>, U>;
struct Model { PM range, branch; std::map<U, U> addr; bool operator==(const Model& o) const { return range == o.range && branch == o.branch && addr == o.addr; } void Add(const Model& o) { for (auto& [k, v] : o.range) range[k] += v; for (auto& [k, v] : o.branch) branch[k] += v; for (auto& [k, v] : o.addr) addr[k] += v; } };
std::string Show(const Model& m) { std::ostringstream o; o << "ranges"; for (auto& [k, v] : m.range) o << " " << k.first << "-" << k.second << ":" << v; o << " addresses"; for (auto& [k, v] : m.addr) o << " " << k << ":" << v; o << " branches"; for (auto& [k, v] : m.branch) o << " " << k.first << "->" << k.second << ":" << v; return o.str(); }
Model Of(const dca::SampleReader& r) { return {PM(r.range_count_map().begin(), r.range_count_map().end()), PM(r.branch_count_map().begin(), r.branch_count_map().end()), std::map<U, U>(r.address_count_map().begin(), r.address_count_map().end())}; }
std::string Hex(U x) { char b[32]; snprintf(b, sizeof b, "%lx", (unsigned long)x); return b; }
// The documented file: number of records and records, for ranges, addresses and branches.
std::string Text(const Model& m, const std::string& aux) { std::ostringstream o; o << m.range.size() << "\n"; for (auto& [k, v] : m.range) o << Hex(k.first) << "-" << Hex(k.second) << ":" << v << "\n"; o << m.addr.size() << "\n"; for (auto& [k, v] : m.addr) o << Hex(k) << ":" << v << "\n"; o << m.branch.size() << "\n"; for (auto& [k, v] : m.branch) o << Hex(k.first) << "->" << Hex(k.second) << ":" << v << "\n"; return o.str() + aux; }
U Addr(Src& s) { return s.Chance(1, 4) ? s.U64(~0ull) : s.Chance(1, 3) ? s.Draw(3) : 0x400000 + s.Draw(30); }
U Count(Src& s) { return s.Chance(1, 6) ? s.U64(~0ull) : s.Chance(1, 20) ? 0 : 1 + s.Draw(30); }
void Sequence(Src& s, Case& c) {
  struct Obj { std::unique_ptr<dca::TextSampleReaderWriter> r; Model m; }; std::vector<Obj> objs(1 + s.Draw(2)); for (auto& o : objs) o.r.reset(new dca::TextSampleReaderWriter); std::map<std::string, Model> files; std::ostringstream log; int n = 0; size_t writes = 0, reads = 0, merges = 0, recs = 0;
  c.Describe([&] { return log.str(); });
  auto path = [&](int i) { return c.Tmp("f" + std::to_string(i)); };
  while (s.More(n, 1, 80, 25)) {
    ++n; size_t oi = s.Draw(objs.size() - 1); Obj& o = objs[oi]; log << " " << oi << ":";
    switch (s.Weighted({6, 6, 6, 2, 2, 4, 4, 1, 1})) {
      case 0: { U a = Addr(s), v = Count(s); log << "range " << a; U b = s.Bool() ? a + s.Draw(20) : Addr(s); log << "-" << b << ":" << v; o.r->IncRange(a, b, v); o.m.range[{a, b}] += v; break; }
      case 1: { U a = Addr(s), v = Count(s); log << "addr " << a << ":" << v; o.r->IncAddress(a, v); o.m.addr[a] += v; break; }
      case 2: { U a = Addr(s), b = Addr(s), v = Count(s); log << "branch " << a << "->" << b << ":" << v; o.r->IncBranch(a, b, v); o.m.branch[{a, b}] += v; break; }
      case 3: { Obj& p = objs[s.Draw(objs.size() - 1)]; if (&p == &o) { log << "one"; o.r->IncAddress(5); o.m.addr[5]++; break; } log << "merge " << (&p - &objs[0]); o.r->Merge(*p.r); o.m.Add(p.m); ++merges; PBT_CHECK(Of(*p.r) == p.m, "a merge changed its source"); break; }
      case 4: { std::map<U, U> a; int k = s.Draw(4); for (int i = 0; i < k; ++i) a[Addr(s)] = Count(s); log << "set " << k; dca::AddressCountMap am; for (auto& [x, v] : a) am[x] = v; o.r->SetAddressCountMap(am); o.m.addr = a; break; }
      case 5: { int f = s.Draw(2); std::string aux = s.Chance(1, 3) ? s.OneOf<std::string>({"", "build: x\n", "12\n1-2:3\n"}) : ""; bool null = aux.empty() && s.Bool(); log << "write " << f; o.r->set_profile_file(path(f)); PBT_CHECK(o.r->Write(null ? nullptr : aux.c_str()), "not written"); PBT_CHECK(o.r->IsFileExist(), "the written file does not exist"); PBT_EQ(pbt::ReadFile(path(f)), Text(o.m, aux), "file"); files[path(f)] = o.m; ++writes; recs += o.m.range.size() + o.m.addr.size() + o.m.branch.size(); break; }
      case 6: { int f = s.Draw(2); log << "read " << f; if (!files.count(path(f))) { unlink(path(f).c_str()); PBT_CHECK(!o.r->Append(path(f)), "a missing file was read"); break; } PBT_CHECK(o.r->Append(path(f)), "not read"); o.m.Add(files[path(f)]); ++reads; break; }
      case 7: log << "clear"; o.r->Clear(); o.m = Model(); break;
      default: { int f = s.Draw(2); if (!files.count(path(f))) break; log << "fresh " << f; dca::TextSampleReaderWriter q(path(f)); PBT_CHECK(q.ReadAndSetTotalCount(), "not read"); Model& m = files[path(f)]; PBT_CHECK(Of(q) == m, "read back " << Show(Of(q)) << ", want " << Show(m)); U t = 0, k = 0; std::set<U> sa; if (m.range.size()) for (auto& [r, v] : m.range) { t += v * (1 + r.second - r.first); k += v; sa.insert(r.first); } else for (auto& [a, v] : m.addr) { t += v; k += v; sa.insert(a); } PBT_EQ(q.GetTotalCount(), t, "total"); PBT_EQ(q.GetTotalSampleCount(), k, "samples"); PBT_CHECK(q.GetSampledAddresses() == sa, "sampled addresses"); ++reads; }
    }
    PBT_CHECK(Of(*o.r) == o.m, "after step " << n << ": " << Show(Of(*o.r)) << ", want " << Show(o.m));
  }
  for (auto& [p, m] : files) unlink(p.c_str()); c.NonTrivial(writes && reads && recs > 2); c.LabelIf(merges, "merge"); c.LabelIf(reads > 1, "several reads"); c.LabelIf(n > 30, "long sequence");
}
// Files missing records or sections, or holding something else, are refused.
void Damaged(Src& s, Case& c) {
  Model m; int k = 0; while (s.More(k, 0, 10, 4)) { ++k; switch (s.Draw(2)) { case 0: m.range[{Addr(s), Addr(s)}] = Count(s); break; case 1: m.addr[Addr(s)] = Count(s); break; default: m.branch[{Addr(s), Addr(s)}] = Count(s); } }
  std::string t = Text(m, ""); std::vector<size_t> ends; for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\n') ends.push_back(i + 1); bool cut = s.Bool(); size_t line = s.Draw(ends.size() - 1), at = line ? ends[line - 1] : 0; if (cut) t.resize(at); else t = t.substr(0, at) + s.OneOf<std::string>({"x", ":", "zz:1\n", "hello\n"}) + t.substr(at);
  std::string p = c.Tmp("bad"); pbt::WriteFile(p, t); c.Describe([&] { return t; }); dca::TextSampleReaderWriter q(p); bool ok = q.ReadAndSetTotalCount(); unlink(p.c_str()); c.NonTrivial(m.range.size() && m.branch.size()); c.Label(cut ? "cut" : "garbage"); PBT_CHECK(!ok, (cut ? "a file cut after record " : "a file with garbage before record ") << line << " was accepted");
}
// Files with more records than small counters hold.
void Large(Src& s, Case& c) {
  size_t n[3]; for (auto& x : n) x = s.OneOf<size_t>({0, 3, 300, 33000, 66000, 70000}) + s.Draw(2); U base = s.Chance(1, 4) ? 0 : s.U64(1ull << 47), step = 1 + s.Draw(40), cnt = s.Draw(9); Model m; c.Describe([&] { return std::to_string(n[0]) + " ranges, " + std::to_string(n[1]) + " addresses, " + std::to_string(n[2]) + " branches from " + std::to_string(base) + " step " + std::to_string(step); });
  for (size_t i = 0; i < n[0]; ++i) m.range[{base + i * step, base + i * step + i % 7}] = cnt + i; for (size_t i = 0; i < n[1]; ++i) m.addr[base + i * step] = cnt + i; for (size_t i = 0; i < n[2]; ++i) m.branch[{base + i * step, base + i % 97}] = cnt + i; c.NonTrivial(n[0] + n[1] + n[2] > 65536);
  std::string p = c.Tmp("big"), p2 = c.Tmp("big2"); pbt::WriteFile(p, Text(m, "")); dca::TextSampleReaderWriter q(p); PBT_CHECK(q.ReadAndSetTotalCount(), "not read"); PBT_CHECK(Of(q) == m, "a large file was not read as it is"); q.set_profile_file(p2); PBT_CHECK(q.Write(nullptr), "not written"); PBT_CHECK(pbt::ReadFile(p2) == Text(m, ""), "a large file was not written as it is"); unlink(p.c_str()); unlink(p2.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P07"; su.rule = "sequence: at least one write and one read and three records; damaged: ranges and branches present; large: more than 65536 records";
  su.subs = {{"sequence", Sequence, 200000, 2000000}, {"damaged", Damaged, 300000, 500000}, {"large", Large, 48, 1000}};
  su.assumptions = {"counts wrap at 64 bits"};
  return pbt::Main(argc, argv, su);
}
