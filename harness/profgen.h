// Reference model of a sampled profile: independent of SymbolMap, with
// generators, conversions to and from SymbolMap, and comparison.
#ifndef VERIF_PROFGEN_H_
#define VERIF_PROFGEN_H_
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "pbt.h"
#include "source_info.h"
#include "symbol_map.h"

namespace pg {
namespace dca = devtools_crosstool_autofdo;
using pbt::Src;

// Strings that outlive every symbol map.
// Names may be re-interned in another pool, in another address order.
inline std::set<std::string>*& Pool() { static auto* t = new std::set<std::string>; return t; }
inline const char* Intern(const std::string& s) { return Pool()->insert(s).first->c_str(); }
inline void SwitchPool(Src& s, bool back = false) {
  static auto* home = Pool(); static std::set<std::string>* other = nullptr; if (back) { Pool() = home; return; } delete other; other = new std::set<std::string>; std::vector<std::string> v(home->begin(), home->end()); if (v.size() < 200) s.Shuffle(v); for (auto& x : v) other->insert(x); Pool() = other;
}

struct Line {
  uint64_t count = 0;
  std::map<std::string, uint64_t> targets;
  bool operator==(const Line& o) const { return count == o.count && targets == o.targets; }
};
struct Func {
  std::string file;  // "" if none
  uint64_t head = 0, timestamp = 0;
  std::map<uint64_t, Line> lines;  // key: line << 32 | discriminator
  std::map<std::pair<uint64_t, std::string>, Func> calls;
  uint64_t Total() const { uint64_t t = 0; for (auto& [k, l] : lines) t += l.count; for (auto& [k, f] : calls) t += f.Total(); return t; }
  size_t NumLines() const { size_t t = lines.size(); for (auto& [k, f] : calls) t += f.NumLines(); return t; }
  int Depth() const { int d = 0; for (auto& [k, f] : calls) d = std::max(d, 1 + f.Depth()); return d; }
  bool HasTargets() const { for (auto& [k, l] : lines) if (!l.targets.empty()) return true; for (auto& [k, f] : calls) if (f.HasTargets()) return true; return false; }
};
using Profile = std::map<std::string, Func>;

inline std::string Show(const Func& f, int ind = 1) {
  std::string r, in(ind, ' ');
  for (auto& [k, l] : f.lines) { r += in + std::to_string(k >> 32) + "." + std::to_string((uint32_t)k) + ": " + std::to_string(l.count); for (auto& [t, n] : l.targets) r += " ->" + t + ":" + std::to_string(n); r += "\n"; }
  for (auto& [k, c] : f.calls) r += in + std::to_string(k.first >> 32) + "." + std::to_string((uint32_t)k.first) + " inlined " + k.second + " total " + std::to_string(c.Total()) + "\n" + Show(c, ind + 1);
  return r;
}
inline std::string Show(const Profile& p) {
  std::string r; for (auto& [n, f] : p) { r += n + " total " + std::to_string(f.Total()) + " head " + std::to_string(f.head); if (!f.file.empty()) r += " file " + f.file; if (f.timestamp) r += " timestamp " + std::to_string(f.timestamp); r += "\n" + Show(f); }
  return r;
}

struct Opt {
  int max_funcs = 6, max_depth = 3, max_lines = 5;
  uint64_t max_line = 65535, max_disc = 65535;
  uint64_t max_count = 1ull << 40;
  bool wide = true;  // now and then a function with hundreds of lines, targets or inline copies
  bool wild_names = false, timestamps = false, files = false, zero_counts = true, big_counts = true, heads = true;
  std::vector<std::string> extra_names;
  // Names may be shared between callers and callees.
};

inline std::string GenName(Src& s, const Opt& o) {
  static const char* common[] = {"main", "foo", "bar", "_ZN1A1fEv", "_ZN1B4workERKSs", "qux", "a", "_Z3barv", "baz123", "_ZN1AC2Ev"};
  if (!o.extra_names.empty() && s.Chance(1, 3)) return o.extra_names[s.Draw(o.extra_names.size() - 1)];
  if (o.wild_names && s.Chance(1, 3)) { static const char* w[] = {".text.foo", "foo.cold", "f oo", "foo.llvm.123", "operator()", "\xc3\xa9t\xc3\xa9", "foo:bar", "f@plt", "_ZN1AC4Ex", "x.part.3"}; return w[s.Draw(9)] + std::string(s.Bool() ? "" : std::to_string(s.Draw(3))); }
  std::string n = common[s.Draw(9)];
  if (s.Chance(1, 20)) n += std::string(1 + s.Draw(400), 'x');
  return n;
}
inline uint64_t GenCount(Src& s, const Opt& o) {
  switch (s.Weighted({5, 3, o.zero_counts ? 1 : 0, o.big_counts ? 2 : 0})) { case 0: return 1 + s.Draw(100); case 1: return 1 + s.Draw(100000); case 2: return 0; default: return 1 + s.U64(o.max_count - 1); }
}
inline uint64_t GenOffset(Src& s, const Opt& o) {
  uint64_t line = s.Weighted({6, 2, 1}) == 0 ? s.Draw(12) : s.Bool() ? s.U64(o.max_line) : o.max_line - s.Draw(2);
  uint64_t disc = s.Weighted({5, 3, 1}) == 0 ? 0 : s.Bool() ? s.Draw(4) : s.U64(o.max_disc);
  return line << 32 | disc;
}
inline void GenFunc(Src& s, const Opt& o, int depth, Func* f, bool allow_empty = false) {
  if (depth == 0 && o.wide && s.Chance(1, 600)) {
    uint64_t n = s.OneOf<uint64_t>({130, 257, 300, 520}), step = std::max<uint64_t>(1, o.max_line / 1500), base = s.Draw(std::min<uint64_t>(100, o.max_line / 3)), cnt = s.Draw(5); int kind = s.Draw(2);
    for (uint64_t i = 0; i < n; ++i) { uint64_t off = std::min(o.max_line, base + i * step) << 32 | (o.max_disc ? i % std::min<uint64_t>(3, o.max_disc) : 0); if (kind == 0) f->lines[off].count = cnt + i; else if (kind == 1) { f->lines[base << 32].count = cnt; f->lines[base << 32].targets["w" + std::to_string(i)] = 1 + cnt + i; } else f->calls[{off, GenName(s, o)}].lines[1ull << 32].count = cnt + i; }
  }
  if (depth == 0 && o.wide && o.max_depth >= 2 && s.Chance(1, 300)) {  // a deep chain of inline copies
    Func* g = f; int n = (int)s.Range(8, 40); for (int i = 0; i < n; ++i) { auto key = std::make_pair(GenOffset(s, o), GenName(s, o)); g = &g->calls[key]; if (i + 1 == n || s.Bool()) g->lines[GenOffset(s, o)].count = GenCount(s, o); }
  }
  while (s.More(f->lines.size(), allow_empty ? 0 : 1, o.max_lines, 2)) {
    Line& l = f->lines[GenOffset(s, o)]; l.count = GenCount(s, o);
    if (s.Chance(1, 4)) { int n = 0; while (s.More(n, 1, 5, 2)) { ++n; l.targets[GenName(s, o)] = GenCount(s, o); } }
    if (s.Chance(1, 40)) break;
  }
  if (depth < o.max_depth) { int n = 0; while (s.More(n, 0, 4, depth == 0 ? 1 : 1) && n < 4) { ++n; auto key = std::make_pair(s.Chance(1, 3) && !f->lines.empty() ? f->lines.begin()->first : s.Chance(1, 3) && !f->calls.empty() ? f->calls.begin()->first.first : GenOffset(s, o), GenName(s, o)); if (!f->calls.count(key)) GenFunc(s, o, depth + 1, &f->calls[key], s.Chance(1, 6) && depth + 1 < o.max_depth); if (f->calls[key].lines.empty() && f->calls[key].calls.empty()) f->calls[key].lines[0].count = 1; } }
}
// A file per function name, so that the mapping is a function.
inline void AssignFiles(Profile* p, Src& s) {
  std::map<std::string, std::string> m;
  std::function<void(const std::string&, Func*)> go = [&](const std::string& n, Func* f) {
    if (!m.count(n)) m[n] = s.OneOf<std::string>({"a.cc", "", "dir/b.cc", "/abs/path/c.cc", "d/e.cc", "dir/a.cc", "a.h", "very/long/name/" + n.substr(0, 10) + ".cc"});
    f->file = m[n]; for (auto& [k, c] : f->calls) go(k.second, &c);
  };
  for (auto& [n, f] : *p) go(n, &f);
}
inline Profile Gen(Src& s, const Opt& o) {
  Profile p;
  while (s.More(p.size(), 0, o.max_funcs, 3)) { std::string n = GenName(s, o); if (p.count(n)) { if (s.Bool()) break; continue; } Func& f = p[n]; GenFunc(s, o, 0, &f); if (o.heads) f.head = s.Chance(1, 3) ? 0 : GenCount(s, o); if (o.timestamps) f.timestamp = s.U64(); }
  if (o.files) AssignFiles(&p, s);
  return p;
}

// Builds the symbol map through its public mutators, in a drawn order, and
// possibly splitting counts into several additions.
inline dca::SourceInfo MakeInfo(const std::string& fn, const std::string& file, uint64_t off, uint32_t start) {
  size_t k = file.rfind('/');
  return dca::SourceInfo(Intern(fn), k == std::string::npos ? "" : file.substr(0, k), k == std::string::npos ? file : file.substr(k + 1), start, (uint32_t)(off >> 32) + start, (uint32_t)off);
}
struct BuildOp { std::string top; std::vector<std::pair<std::string, std::pair<uint64_t, std::string>>> stack; /* leaf first: (func,(offset,file)) */ uint64_t count; std::string target; bool is_target; };
inline void CollectOps(const std::string& top, const std::string& name, const Func& f, std::vector<std::pair<std::string, std::pair<uint64_t, std::string>>> outer, std::vector<BuildOp>* ops) {
  for (auto& [off, l] : f.lines) {
    BuildOp op; op.top = top; op.stack.push_back({name, {off, f.file}}); op.stack.insert(op.stack.end(), outer.begin(), outer.end()); op.count = l.count; op.is_target = false; ops->push_back(op);
    for (auto& [t, n] : l.targets) { BuildOp q = op; q.is_target = true; q.target = t; q.count = n; ops->push_back(q); }
  }
  for (auto& [k, c] : f.calls) { auto o2 = outer; o2.insert(o2.begin(), {name, {k.first, f.file}}); CollectOps(top, k.second, c, o2, ops); }
}
inline void Build(const Profile& p, dca::SymbolMap* m, Src* s = nullptr, bool split = false) {
  std::vector<BuildOp> ops;
  std::vector<std::string> names; for (auto& [n, f] : p) names.push_back(n);
  if (s) s->Shuffle(names);
  for (auto& n : names) m->AddSymbol(n);
  for (auto& n : names) { auto& f = p.at(n); if (f.head) m->AddSymbolEntryCount(n, f.head); m->AddSymbolTimestamp(n, f.timestamp); if (!f.file.empty()) const_cast<dca::Symbol*>(m->GetSymbolByName(n))->info.file_name = f.file; CollectOps(n, n, f, {}, &ops); }
  if (s) s->Shuffle(ops);
  for (auto& op : ops) {
    dca::SourceStack st; uint32_t start = s && s->Chance(1, 3) ? (uint32_t)s->Draw(1000) : 0;
    for (auto& e : op.stack) st.push_back(MakeInfo(e.first, e.second.second, e.second.first, start));
    if (op.is_target) m->AddIndirectCallTarget(op.top, st, op.target, op.count);
    else if (split && s && op.count > 1 && s->Chance(1, 4)) { uint64_t a = s->Draw(op.count); m->AddSourceCount(op.top, st, a, 1); m->AddSourceCount(op.top, st, op.count - a, 0); }
    else m->AddSourceCount(op.top, st, op.count, 1);
  }
}

inline Func FromSymbol(const dca::Symbol& sy) {
  Func f; f.head = sy.head_count; f.timestamp = 0; f.file = sy.info.dir_name.empty() ? sy.info.file_name : sy.info.dir_name + "/" + sy.info.file_name;
  for (auto& [o, pi] : sy.pos_counts) { Line& l = f.lines[o]; l.count = pi.count; for (auto& [t, n] : pi.target_map) l.targets[t] = n; }
  for (auto& [cs, c] : sy.callsites) f.calls[{cs.location, cs.callee_name ? cs.callee_name : "<null>"}] = FromSymbol(*c);
  return f;
}
inline Profile FromMap(const dca::SymbolMap& m) {
  Profile p; for (auto& [n, sy] : m.map()) { p[n] = FromSymbol(*sy); p[n].timestamp = sy->timestamp; } return p;
}

// Compares; returns a description of the first difference or "".
inline std::string Diff(const Func& got, const Func& want, const std::string& path, bool files, bool heads = true) {
  std::ostringstream o;
  if (heads && got.head != want.head) { o << path << ": head count " << got.head << ", want " << want.head; return o.str(); }
  if (files && got.file != want.file) { o << path << ": file '" << got.file << "', want '" << want.file << "'"; return o.str(); }
  for (auto& [k, l] : want.lines) { auto it = got.lines.find(k); if (it == got.lines.end()) { o << path << ": line " << (k >> 32) << "." << (uint32_t)k << " is missing"; return o.str(); }
    if (it->second.count != l.count) { o << path << ": line " << (k >> 32) << "." << (uint32_t)k << " count " << it->second.count << ", want " << l.count; return o.str(); }
    if (it->second.targets != l.targets) { o << path << ": line " << (k >> 32) << "." << (uint32_t)k << " targets " << pbt::ToText(it->second.targets, 0) << ", want " << pbt::ToText(l.targets, 0); return o.str(); } }
  for (auto& [k, l] : got.lines) if (!want.lines.count(k)) { o << path << ": unexpected line " << (k >> 32) << "." << (uint32_t)k; return o.str(); }
  for (auto& [k, c] : want.calls) { auto it = got.calls.find(k); std::string p2 = path + "/" + std::to_string(k.first >> 32) + "." + std::to_string((uint32_t)k.first) + ":" + k.second; if (it == got.calls.end()) { o << p2 << " is missing"; return o.str(); } std::string d = Diff(it->second, c, p2, files, false); if (!d.empty()) return d; }
  for (auto& [k, c] : got.calls) if (!want.calls.count(k)) { o << path << ": unexpected inlined call " << (k.first >> 32) << "." << (uint32_t)k.first << ":" << k.second; return o.str(); }
  return "";
}
inline std::string Diff(const Profile& got, const Profile& want, bool files = false, bool timestamps = false, bool heads = true) {
  for (auto& [n, f] : want) { auto it = got.find(n); if (it == got.end()) return "function " + n + " is missing"; std::string d = Diff(it->second, f, n, files, heads); if (!d.empty()) return d; if (timestamps && it->second.timestamp != f.timestamp) return n + ": timestamp " + std::to_string(it->second.timestamp) + ", want " + std::to_string(f.timestamp); }
  for (auto& [n, f] : got) if (!want.count(n)) return "unexpected function " + n;
  return "";
}
// Every symbol's stored total equals the sum below it.
inline std::string CheckTotals(const dca::Symbol& sy, const std::string& path) {
  uint64_t t = 0; for (auto& [o, pi] : sy.pos_counts) t += pi.count;
  for (auto& [cs, c] : sy.callsites) { t += c->total_count; std::string d = CheckTotals(*c, path + "/" + (cs.callee_name ? cs.callee_name : "<null>")); if (!d.empty()) return d; }
  if (t != sy.total_count) return path + ": total is " + std::to_string(sy.total_count) + ", its parts sum to " + std::to_string(t);
  return "";
}
inline std::string CheckTotals(const dca::SymbolMap& m) { for (auto& [n, sy] : m.map()) { std::string d = CheckTotals(*sy, n); if (!d.empty()) return d; } return ""; }
}  // namespace pg
#endif
