// MODE: GCOV
// SOURCES: profile_reader.cc profile_writer.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// BIN: dump_gcov = dump_gcov.cc profile_reader.cc profile_writer.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing: generated profiles in GCC's format (independent encoder) dumped by the tool's own main function, and generated symbol trees dumped by the library; the printed text against an independent rendering of the profile
// LEVEL_NOTE: Random search. Most cases run the tool's main function inside the check, some the program itself. Damaged files are judged only by exit status.
#include <cxxabi.h>
#include <fcntl.h>
#include <unistd.h>
#include <iostream>
#include "gcccodec.h"
#include "profile_writer.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
#define main dump_gcov_main
#include "dump_gcov.cc"
#undef main
using pbt::Case; using pbt::Src; using U = uint64_t; namespace dca = devtools_crosstool_autofdo;
ABSL_DECLARE_FLAG(uint64_t, gcov_version); ABSL_DECLARE_FLAG(bool, demangle_symbol_names); ABSL_DECLARE_FLAG(bool, debug_dump); ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
namespace {
// Runs f with standard output sent to a file; returns what it printed.
template <class F> std::string Captured(Case& c, F f) {
  std::cout.flush(); fflush(stdout); std::string path = c.Tmp("stdout"); int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), keep = dup(1); dup2(fd, 1); close(fd);
  try { f(); } catch (...) { fflush(stdout); dup2(keep, 1); close(keep); throw; }
  std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep); std::string r = pbt::ReadFile(path); unlink(path.c_str()); return r;
}
struct Style { bool demangle = false, incl = false; };
std::string Name(const std::string& n, const Style& st) { if (!st.demangle || n.compare(0, 2, "_Z")) return n; int rc = 0; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &rc); std::string r = d && rc == 0 && strlen(d) < 1024 ? d : n; free(d); return r; }
std::string At(U key) { std::string r = std::to_string(key >> 32); if ((uint32_t)key) r += "." + std::to_string((uint32_t)key); return r + ": "; }
struct Node { std::string file; U total = 0, head = 0, time = 0, incl = 0; std::map<U, pg::Line> lines; std::map<std::pair<U, std::string>, Node> calls; };
Node FromFunc(const pg::Func& f) { Node n; n.file = f.file; n.total = f.Total(); n.head = f.head; n.time = f.timestamp; n.lines = f.lines; for (auto& [k, c] : f.calls) n.calls[k] = FromFunc(c); return n; }
void Body(const Node& f, int in, const Style& st, std::string* o);
void Head(const std::string& name, const Node& f, int in, const Style& st, std::string* o) {
  *o += Name(name, st) + ":" + f.file + " total:" + std::to_string(f.total); if (in == 0) *o += " head:" + std::to_string(f.head);
  if (st.incl) { *o += " total_incl:" + std::to_string(f.incl); if (in == 0) { char b[400]; snprintf(b, sizeof b, "%.2f", f.head ? (float)f.incl / f.head : 0.0f); *o += std::string(" total_incl_per_iter:") + b; } } else if (in == 0) *o += " timestamp: " + std::to_string(f.time);
  *o += "\n"; Body(f, in, st, o);
}
void Body(const Node& f, int in, const Style& st, std::string* o) {
  for (auto& [k, l] : f.lines) { *o += std::string(in + 2, ' ') + At(k) + std::to_string(l.count); std::vector<std::pair<U, std::string>> t; for (auto& [n, c] : l.targets) t.push_back({c, n}); std::sort(t.rbegin(), t.rend()); for (auto& [c, n] : t) *o += "  " + Name(n, st) + ":" + f.file + ":" + std::to_string(c); *o += "\n"; }
  for (auto& [k, c] : f.calls) { *o += std::string(in + 2, ' ') + At(k.first); Head(k.second, c, in + 2, st, o); }
}
std::string Render(const std::map<std::string, Node>& p, const Style& st) { std::vector<std::pair<U, std::string>> v; for (auto& [n, f] : p) if (f.total) v.push_back({~f.total, n}); std::sort(v.begin(), v.end()); std::string o; for (auto& [t, n] : v) Head(n, p.at(n), 0, st, &o); return o; }
std::string FirstDiff(const std::string& got, const std::string& want) { std::istringstream a(got), b(want); std::string x, y; int n = 0; for (;;) { ++n; bool p = (bool)std::getline(a, x), q = (bool)std::getline(b, y); if (!p && !q) return ""; if (p != q || x != y) return "line " + std::to_string(n) + ": '" + (p ? x : "<end>") + "', want '" + (q ? y : "<end>") + "'"; } }
void Collect(const pg::Func& f, std::set<std::string>* n) { for (auto& [k, l] : f.lines) for (auto& [t, c] : l.targets) n->insert(t); for (auto& [k, c] : f.calls) { n->insert(k.second); Collect(c, n); } }
void FilesOf(const std::string& n, const pg::Func& f, std::map<std::string, std::string>* m) { (*m)[n] = f.file; for (auto& [k, c] : f.calls) FilesOf(k.second, c, m); }
std::string Encode(Src& s, const pg::Profile& p, uint32_t version) {
  gcc::File f; f.version = version; std::set<std::string> names = {""}; std::map<std::string, std::string> file; for (auto& [n, x] : p) { names.insert(n); Collect(x, &names); FilesOf(n, x, &file); f.tops.push_back({x.head, x.timestamp, n, x}); } s.Shuffle(f.tops);
  f.names.assign(names.begin(), names.end()); for (auto& [n, x] : file) if (!x.empty() && std::find(f.files.begin(), f.files.end(), x) == f.files.end()) f.files.push_back(x); s.Shuffle(f.files);
  for (auto& n : f.names) { auto i = file.find(n); auto k = i == file.end() || i->second.empty() ? f.files.end() : std::find(f.files.begin(), f.files.end(), i->second); f.name_file.push_back(k == f.files.end() ? ~0u : k - f.files.begin()); }
  std::vector<const pg::Func*> t; for (auto& [n, x] : p) t.push_back(&x); f.summary = gcc::Summarize(t, {10000, 500000, 999999}); for (int i = 0; i < 128; ++i) f.working_set.push_back({(uint32_t)i, 1000u - i}); return gcc::Encode(f);
}
pg::Profile Gen(Src& s, bool stamps) { pg::Opt o; o.wild_names = s.Bool(); o.timestamps = o.files = stamps; o.max_count = s.Bool() ? 1ull << 40 : 1ull << 57; o.extra_names = {"_ZN3foo3barIiEEvv", "_ZSt4sortIPiEvT_S1_", "_Zbad"}; auto p = pg::Gen(s, o); if (s.Chance(1, 3)) for (auto& [n, f] : p) for (auto& [k, l] : f.lines) { l.count = 1 + l.count % 3; for (auto& [t, x] : l.targets) x %= 3; } return p; }
int Tool(std::vector<std::string> a) { absl::SetFlag(&FLAGS_demangle_symbol_names, false); a.insert(a.begin(), "dump_gcov"); std::vector<char*> v; for (auto& x : a) v.push_back(x.data()); v.push_back(nullptr); return dump_gcov_main(a.size(), v.data()); }
void File(Src& s, Case& c) {
  uint32_t version = s.OneOf<uint32_t>({0x3430372a, 1, 2, 3}); bool v3 = version >= 3; auto p = Gen(s, v3); Style st; st.demangle = s.Chance(1, 4); std::string path = c.Tmp("in"); pbt::WriteFile(path, Encode(s, p, version));
  std::vector<std::string> a = {path}; if (st.demangle) a.push_back("--demangle_symbol_names"); a.push_back("--suffix_elision_policy=none"); s.Shuffle(a);
  c.Describe([&] { std::string r = "version " + std::to_string(version) + ":"; for (auto& x : a) r += " " + x; return r + "\n" + pg::Show(p); }); int deep = 0; bool targets = false; for (auto& [n, f] : p) { deep = std::max(deep, f.Depth()); targets |= f.HasTargets(); } c.NonTrivial(p.size() > 1 && deep && targets); c.LabelIf(deep > 1, "nested inlining"); c.LabelIf(st.demangle, "demangled"); c.Label(v3 ? "with files and time stamps" : "plain");
  std::map<std::string, Node> want; for (auto& [n, f] : p) want[n] = FromFunc(f);
  int rc = -1; std::string out, err; if (s.Chance(1, 40)) { auto x = a; x.insert(x.begin(), std::string(getenv("PBT_BIN")) + "/dump_gcov"); rc = pbt::Exec(x, &out, &err); c.Label("program"); } else { bool died = false; out = Captured(c, [&] { if (s.Chance(1, 30)) rc = Tool(a), (void)died; else rc = Tool(a); }); }
  PBT_CHECK(rc == 0, "exit " << rc << " " << err.substr(0, 2000)); auto d = FirstDiff(out, Render(want, st)); PBT_CHECK(d.empty(), d); unlink(path.c_str());
}
void Refuse(Src& s, Case& c) {
  auto p = Gen(s, true); if (p.empty()) p["main"].lines[1ull << 32].count = 5; uint32_t version = s.OneOf<uint32_t>({1, 2, 3}); std::string bytes = Encode(s, p, version), path = c.Tmp("in"); std::vector<std::string> a = {path}; std::string what;
  switch (s.Draw(3)) { case 0: what = "missing file"; a[0] = c.Tmp("absent"); break; case 1: what = "no file named"; a.clear(); break; case 2: what = "two files"; a.push_back(path); break; default: { what = "wrong magic"; bytes[s.Draw(3)] ^= 1 + s.Draw(254); break; } }
  if (s.Chance(1, 4)) a.push_back("--demangle_symbol_names"); pbt::WriteFile(path, bytes); c.Label(what); c.NonTrivial(true); c.Describe([&] { return what; }); a.insert(a.begin(), std::string(getenv("PBT_BIN")) + "/dump_gcov"); std::string out, err; int rc = pbt::Exec(a, &out, &err); PBT_CHECK(rc != 0, what << " was accepted; printed:\n" << out.substr(0, 500)); PBT_CHECK(rc == 134 || rc < 90, "crashed: exit " << rc << " " << err.substr(0, 2000)); PBT_CHECK(out.find(" total:") == out.npos, what << ": printed " << out.substr(0, 500)); unlink(path.c_str());
}
// Symbols given inclusive counts at random.
void SetIncl(Src& s, dca::Symbol* y, Node* n) { n->incl = y->total_count_incl = s.Chance(1, 5) ? s.U64(1ull << 50) : s.Draw(5000); for (auto& [cs, x] : y->callsites) SetIncl(s, x, &n->calls.at({cs.location, cs.callee_name})); }
void Analysis(Src& s, Case& c) {
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  auto p = Gen(s, false); c.Describe([&] { return pg::Show(p); }); dca::SymbolMap m; pg::Build(p, &m, &s, s.Bool()); std::map<std::string, Node> want; int deep = 0; for (auto& [n, f] : p) { want[n] = FromFunc(f); deep = std::max(deep, f.Depth()); }
  Style st; st.incl = s.Chance(3, 4); st.demangle = s.Chance(1, 4); absl::SetFlag(&FLAGS_demangle_symbol_names, st.demangle); c.NonTrivial(p.size() > 1 && deep > 0); c.Label(st.incl ? "inclusive" : "plain"); std::vector<std::string> names; for (auto& [n, f] : p) names.push_back(n);
  for (auto& n : names) { auto* y = const_cast<dca::Symbol*>(m.GetSymbolByName(n)); PBT_CHECK(y, "no symbol " << n); SetIncl(s, y, &want[n]); y->info.start_line = 0; }
  // Line numbers are shown relative to the start of the file where it is known.
  std::function<void(dca::Symbol*)> clear = [&](dca::Symbol* y) { y->info.start_line = 0; for (auto& [cs, x] : y->callsites) clear(x); }; for (auto& n : names) clear(const_cast<dca::Symbol*>(m.GetSymbolByName(n)));
  auto out = Captured(c, [&] { if (st.incl) m.Dump(true); else m.Dump(); }); absl::SetFlag(&FLAGS_demangle_symbol_names, false); auto d = FirstDiff(out, Render(want, st)); PBT_CHECK(d.empty(), d);
}
// The debugging dump of the writer says what it writes and does not change it.
void Debug(Src& s, Case& c) {
  absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  uint32_t version = s.OneOf<uint32_t>({0x3430372a, 1, 2, 3}); absl::SetFlag(&FLAGS_gcov_version, version); auto p = Gen(s, true); for (auto& [n, f] : p) if (version < 3) { f.timestamp = 0; } c.Describe([&] { return pg::Show(p); }); int deep = 0; for (auto& [n, f] : p) deep = std::max(deep, f.Depth()); c.NonTrivial(p.size() > 1 && deep > 0);
  std::string f1 = c.Tmp("a"), f2 = c.Tmp("b"), out; dca::SymbolMap m; pg::Build(p, &m, nullptr); m.set_count_threshold(-1); std::function<void(dca::Symbol*)> clear = [&](dca::Symbol* y) { y->info.start_line = 0; for (auto& [cs, x] : y->callsites) clear(x); }; for (auto& [n, f] : p) clear(const_cast<dca::Symbol*>(m.GetSymbolByName(n)));
  { dca::AutoFDOProfileWriter w(&m, version); PBT_CHECK(w.WriteToFile(f1), "not written"); } absl::SetFlag(&FLAGS_debug_dump, true); bool ok = false; out = Captured(c, [&] { dca::AutoFDOProfileWriter w(&m, version); ok = w.WriteToFile(f2); }); absl::SetFlag(&FLAGS_debug_dump, false); PBT_CHECK(ok, "not written"); PBT_CHECK(pbt::ReadFile(f1) == pbt::ReadFile(f2), "dumping changed the file");
  gcc::File f = gcc::Decode(pbt::ReadFile(f2)); std::map<std::string, Node> want; for (auto& [n, x] : p) { want[n] = FromFunc(x); }
  // The names of inlined functions' files lack their directories here.
  std::function<void(Node*)> base = [&](Node* n) { size_t k = n->file.rfind('/'); if (k != n->file.npos) n->file = n->file.substr(k + 1); for (auto& [q, x] : n->calls) base(&x); }; for (auto& [n, x] : want) for (auto& [q, y] : x.calls) base(&y);
  PBT_CHECK(out.find("Number of functions:  " + std::to_string(f.tops.size()) + "\n") != out.npos, "number of functions not as written: " << out.substr(0, 100));
  for (auto& t : f.tops) { auto* n = &want.at(t.name); std::string x; Head(t.name, *n, 0, {}, &x); std::string block = "VisitTopSymbol: " + t.name + "\n" + x + "node->head_count: " + std::to_string(t.head) + "\n"; PBT_CHECK(out.find(block) != out.npos, "not dumped as written:\n" << block << "dump:\n" << out.substr(0, 4000)); }
  unlink(f1.c_str()); unlink(f2.c_str());
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P51"; su.scale = 1.5; su.rule = "at least two functions, inlined copies and (files) call targets; every refused call";
  su.subs = {{"file", File, 30000, 600000}, {"refuse", Refuse, 400, 4000}, {"analysis", Analysis, 30000, 600000}, {"debug", Debug, 10000, 200000}};
  su.assumptions = {"functions without samples are not listed", "names are kept as they are (folding of suffixes is P08)", "an abort with a message counts as reported failure"};
  return pbt::Main(argc, argv, su);
}
