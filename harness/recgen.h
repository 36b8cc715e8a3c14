// Generated recordings (mappings, processes, branch stacks with hardware
// anomalies) and the counts they imply for one binary.
#ifndef VERIF_RECGEN_H_
#define VERIF_RECGEN_H_
#include <algorithm>
#include <map>
#include <regex>
#include <set>
#include "pbt.h"
#include "quipper/perf_parser.h"
#include "quipper/perf_reader.h"
namespace rg {
using pbt::Src;
struct Map { int pid; std::string name; uint64_t start, len, pgoff; };
struct Loc { int map = -1; uint64_t off = 0; };                       // map -1: nothing is mapped there
struct Entry { Loc from, to; int spec; };
struct Sample { int pid; Loc ip; uint64_t time; std::vector<Entry> stack; };
struct Rec { std::vector<Map> maps; std::map<std::string, std::string> ids; std::vector<Sample> samples; };
struct Want { std::map<std::pair<uint64_t, uint64_t>, uint64_t> range, branch; std::map<uint64_t, uint64_t> address, time; };
// The names of mapped files; the first is the usual one.
inline std::vector<std::string>& Names() { static std::vector<std::string> v = {"/opt/bin/app", "/opt/bin/app2", "/usr/lib/libc.so", "/old/opt/bin/app", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text", "/boot/vmlinux", "[vdso]", "/opt/bin/appx"}; return v; }
inline Rec MakeRec(Src& s, const std::vector<std::string>& build) {
  Rec r; int nm = 0; while (s.More(nm, 1, 7, 4)) { int k = nm++; r.maps.push_back({s.Chance(1, 8) ? -1 : (int)(10 + s.Draw(2)), s.Chance(1, 2) ? Names()[0] : s.Pick(Names()), 0x10000000000ull * (k + 1), s.Chance(1, 4) ? 0x400000 : 0x8000, s.Chance(1, 2) ? 0 : 0x1000 * s.Draw(0x300)}); if (r.maps.back().pid < 0) r.maps.back().name = s.OneOf<std::string>({"[kernel.kallsyms]_stext", "[kernel.kallsyms]_text", "/opt/bin/app"}); }
  for (auto& n : Names()) if (s.Chance(2, 3)) r.ids[n] = s.Pick(build); if (s.Chance(1, 2)) r.ids["[kernel.kallsyms]"] = s.Pick(build);
  int ns = 0; bool wild = s.Chance(1, 4); uint64_t stride = s.OneOf<uint64_t>({0x20, 0x200, 0x2000});
  auto visible = [&](int pid, int m) { return r.maps[m].pid == pid || r.maps[m].pid == -1; };
  while (s.More(ns, 0, 40, 10)) {
    ++ns; Sample x; x.pid = 10 + s.Draw(2); x.time = s.Draw(1000); std::vector<int> vis; for (size_t m = 0; m < r.maps.size(); ++m) if (visible(x.pid, m)) vis.push_back(m);
    auto any = [&]() -> Loc { if (vis.empty() || s.Chance(1, 15)) return {}; int m = s.Pick(vis); return {m, s.Chance(1, 30) ? r.maps[m].len - 1 : s.Draw(std::min<uint64_t>(r.maps[m].len - 1, s.Chance(1, 3) ? r.maps[m].len : 0x1fff))}; };
    auto near = [&](Loc l) -> Loc { if (l.map < 0) return any(); uint64_t o = l.off + (s.Chance(1, 50) ? (1 << 20) - 1 + s.Draw(2) : s.Draw(stride)); return o < r.maps[l.map].len ? Loc{l.map, o} : l; };
    x.ip = any(); int n = s.Chance(1, 8) ? 0 : s.Draw(s.Chance(1, 6) ? 31 : 8); Loc at = any();
    // The stack is built oldest first: control runs on from `at` to the next taken branch.
    for (int i = 0; i < n; ++i) { Entry e; e.from = wild && s.Chance(1, 3) ? any() : near(at); e.to = s.Chance(1, 3) || e.from.map < 0 ? any() : Loc{e.from.map, s.Draw(std::min<uint64_t>(r.maps[e.from.map].len - 1, 0x1fff))}; e.spec = s.Chance(1, 6) ? 1 : s.OneOf({0, 2, 3}); if (e.spec != 1) at = e.to; x.stack.push_back(e); }
    if (n && s.Chance(1, 4)) { Entry& e = x.stack.back(); if (e.from.map >= 0 && s.Bool()) { e.to.map = e.from.map; e.to.off = e.from.off - std::min<uint64_t>(e.from.off, s.OneOf<uint64_t>({0x1000, 0x1001, 0xfff, 0x10, 0x1fff, 0x40})); } x.stack.push_back(e); }
    std::reverse(x.stack.begin(), x.stack.end()); r.samples.push_back(x);
  }
  return r;
}
inline quipper::PerfDataProto ToPerf(const Rec& r) {
  quipper::PerfDataProto d; auto Add = [&](int type) { auto* e = d.add_events(); e->mutable_header()->set_type(type); return e; };
  for (auto& m : r.maps) { auto* e = Add(quipper::PERF_RECORD_MMAP)->mutable_mmap_event(); e->set_pid(m.pid); e->set_tid(m.pid); e->set_filename(m.name); e->set_start(m.start); e->set_len(m.len); e->set_pgoff(m.pgoff); }
  auto ip = [&](const Loc& l) -> uint64_t { return l.map < 0 ? 0x5500 + l.off : r.maps[l.map].start + l.off; };
  for (auto& x : r.samples) { auto* e = Add(quipper::PERF_RECORD_SAMPLE); e->set_timestamp(x.time); auto* v = e->mutable_sample_event(); v->set_pid(x.pid); v->set_tid(x.pid); v->set_ip(ip(x.ip)); for (auto& b : x.stack) { auto* y = v->add_branch_stack(); y->set_from_ip(ip(b.from)); y->set_to_ip(ip(b.to)); y->set_spec(b.spec); } }
  for (auto& [n, id] : r.ids) { auto* b = d.add_build_ids(); b->set_filename(n); b->set_build_id_hash(id); }
  return d;
}
struct Focus { std::string build, re; };
struct Tally { size_t wrong = 0, back = 0, large = 0, dup = 0, foreign_end = 0, ranges = 0, matched = 0; };
inline void Model(const Rec& r, const Focus& f, uint64_t limit, Want* w, Tally* t) {
  std::set<std::string> bins; bool kernel = false;
  if (f.build.size()) { for (auto& [n, id] : r.ids) if (id == f.build) { if (n == "[kernel.kallsyms]" || (n.size() >= 7 && n.substr(n.size() - 7) == "vmlinux")) kernel = true; else bins.insert(n); } if (kernel) for (const char* k : {"[kernel.kallsyms]", "[kernel.kallsyms]_stext", "[kernel.kallsyms]_text"}) bins.insert(k); if (bins.empty()) return; }
  std::regex re(f.re); auto name = [&](const Loc& l) { return l.map < 0 ? std::string() : r.maps[l.map].name; }; auto ours = [&](const Loc& l) { auto n = name(l); return f.build.size() ? bins.count(n) > 0 : std::regex_search(n, re); };
  auto off = [&](const Loc& l) -> uint64_t { return l.map < 0 ? 0 : l.off + r.maps[l.map].pgoff; };
  for (auto& x : r.samples) {
    if (ours(x.ip)) { w->address[off(x.ip)]++; w->time.insert({off(x.ip), x.time}); }
    const Entry* newer = nullptr;
    for (size_t i = 0; i < x.stack.size(); ++i) {
      auto& e = x.stack[i]; if (e.spec == 1) { ++t->wrong; continue; } const Entry* after = newer; newer = &e; if (!ours(e.to)) continue;
      if (i == 1 && after == &x.stack[0] && off(after->from) == off(e.from) && off(after->to) == off(e.to) && off(e.from) - off(e.to) > limit) { ++t->dup; continue; }
      if (after && ours(after->from)) { uint64_t b = off(e.to), z = off(after->from); if (z < b) { ++t->back; continue; } if (z - b > (1 << 20)) { ++t->large; continue; } w->range[{b, z}]++; ++t->ranges; } else if (after) ++t->foreign_end;
      if (ours(e.from)) { w->branch[{off(e.from), off(e.to)}]++; ++t->matched; }
    }
  }
}
}  // namespace rg
#endif
