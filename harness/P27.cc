// MODE: LLVM
// SOURCES: addr2cu.cc
// TECHNIQUE: property-based testing: generated multi-unit programs (written debug information and compiled code, with and without split debug information), unit names compared with the generator's own layout
// LEVEL_NOTE: Random search over unit layouts, DWARF versions, compilers, split and packaged debug information. For compiled programs the symbol table and the command line give the expected unit.
#include <unistd.h>

#include <memory>

#include "addr2cu.h"
#include "dwarfprog.h"
#include "llvm/Support/MemoryBuffer.h"
#include "stackgen.h"
using pbt::Case; using pbt::Src; using dwenc::Enc;
namespace dw = devtools_crosstool_autofdo;

namespace {
struct Opened {
  std::unique_ptr<llvm::MemoryBuffer> buf; std::unique_ptr<llvm::object::ObjectFile> obj; absl::StatusOr<std::unique_ptr<llvm::DWARFContext>> ctx{nullptr};
  Opened(const std::string& path, const std::string& dwp = "") {
    auto b = llvm::MemoryBuffer::getFile(path); PBT_CHECK(bool(b), path); buf = std::move(*b); auto o = llvm::object::ObjectFile::createELFObjectFile(*buf); PBT_CHECK(bool(o), path); obj = std::move(*o); ctx = dw::CreateDWARFContext(*obj, dwp);
  }
};
std::string Show(const absl::StatusOr<absl::string_view>& r) { return r.ok() ? "\"" + std::string(*r) + "\"" : r.status().ToString(); }
bool Refused(const absl::Status& s) { return s.code() == absl::StatusCode::kFailedPrecondition; }
void Expect(dw::Addr2Cu& a, uint64_t x, const std::string* want) {
  auto r = a.GetCompileUnitFileNameForCodeAddress(x);
  if (want) PBT_CHECK(r.ok() && *r == *want, std::hex << x << " got " << Show(r) << " want " << *want); else PBT_CHECK(Refused(r.status()), std::hex << x << " got " << Show(r) << " want an error");
}
void Written(Src& s, Case& c) {
  auto p = dwarfprog::Generate(s, true); std::string path = c.Tmp("prog"); pbt::WriteFile(path, p.elf); c.Describe([&] { return p.text; });
  std::map<uint64_t, int> unit; for (size_t i = 0; i < p.units.size(); ++i) for (auto& in : p.units[i].insts) for (auto& r : in.r) for (uint64_t a = r.first; a < r.second; ++a) unit[a] = i;
  Opened o(path); PBT_CHECK(o.ctx.ok(), o.ctx.status()); dw::Addr2Cu a(**o.ctx); auto as = p.addrs; s.Shuffle(as); std::set<int> seen; size_t out = 0;
  for (uint64_t x : as) { auto it = unit.find(x); if (it == unit.end()) { Expect(a, x, nullptr); ++out; } else { Expect(a, x, &p.units[it->second].files[0].first); seen.insert(it->second); } }
  c.NonTrivial(seen.size() > 1); c.Label(std::to_string(seen.size()) + " units"); c.LabelIf(out > 3, "addresses outside");
}
// Units reduced to what matters here: kind, name, code range.
void Kinds(Src& s, Case& c) {
  struct U { int kind; int ver; std::string name; uint64_t lo, hi; bool named = true; }; std::vector<U> us; uint64_t at = 0x1000; Enc info, ab; std::string text;
  bool some_split = s.Chance(1, 2), allow5 = s.Chance(1, 2);
  while (s.More(us.size(), 0, 6, 3)) {
    U u; u.ver = s.Int(3, 5); u.kind = !some_split ? 0 : s.Weighted({3, allow5 ? 1 : 0, 2}); if (u.kind == 1) u.ver = 5; if (u.kind == 2) u.ver = 4; u.name = s.Text("abc/._-", 1, 20, 6) + std::to_string(us.size()); at += s.Draw(30); u.lo = at; u.hi = at += 1 + s.Draw(20); us.push_back(u);
  }
  s.Shuffle(us); int nab = 0;
  for (auto& u : us) {
    size_t abo = ab.b.size(); int tag = u.kind == 1 ? 0x4a : 0x11; ab.Uleb(++nab); ab.Uleb(tag); ab.U(0, 1); std::vector<std::pair<int, int>> at2 = {{0x11, 1}, {0x12, u.ver >= 4 ? 0x06 : 0x01}}; if (u.kind == 0) at2.insert(at2.begin() + s.Draw(2), {0x03, 0x08}); if (u.kind == 1) at2.push_back({0x76, 8}); if (u.kind == 2) { at2.push_back({0x2130, 8}); at2.push_back({0x2131, 7}); }
    for (auto& x : at2) { ab.Uleb(x.first); ab.Uleb(x.second); } ab.U(0, 2); ab.U(0, 1);
    size_t len = info.Len(); info.U(u.ver, 2); if (u.ver >= 5) { info.U(u.kind == 1 ? 4 : 1, 1); info.U(8, 1); info.U(abo, 4); if (u.kind == 1) info.U(0x1234 + nab, 8); } else { info.U(abo, 4); info.U(8, 1); }
    info.Uleb(nab); for (auto& x : at2) switch (x.first) { case 0x11: info.U(u.lo, 8); break; case 0x12: if (u.ver >= 4) info.U(u.hi - u.lo, 4); else info.U(u.hi, 8); break; case 0x2131: info.U(0x777, 8); break; default: info.Str(x.first == 3 ? u.name : c.Tmp("missing.dwo")); }
    info.Close(len); char t[80]; snprintf(t, sizeof t, "%s v%d [%llx,%llx)\n", u.kind == 0 ? "full" : u.kind == 1 ? "skeleton" : "gnu-split", u.ver, (unsigned long long)u.lo, (unsigned long long)u.hi); text += t + u.name + "\n";
  }
  elfgen::Image im; im.is64 = true; im.etype = 2; im.secs.resize(1); im.secs[0].type = 0; im.secs[0].align = 0; auto Add = [&](const std::string& n, const std::string& d) { if (d.empty()) return; elfgen::Sec x; x.name = n; x.data = d; x.type = 1; im.secs.push_back(x); };
  { elfgen::Sec x; x.name = ".text"; x.flags = 6; x.addr = 0x1000; x.data.assign(at - 0x1000 + 1, '\x90'); x.align = 16; im.secs.push_back(x); } Add(".debug_info", info.b); Add(".debug_abbrev", ab.b); elfgen::Sec t; t.name = ".shstrtab"; t.type = 3; im.shstrndx = im.secs.size(); im.secs.push_back(t);
  std::string path = c.Tmp("kinds"); pbt::WriteFile(path, elfgen::Write(&im)); c.Describe([&] { return text; });
  bool skel = false, gnu = false; for (auto& u : us) { skel |= u.kind == 1; gnu |= u.kind == 2; } Opened o(path);
  c.Label(us.empty() ? "no units" : skel ? "skeletons" : gnu ? "GNU split" : "full"); c.NonTrivial(us.size() > 1);
  if (us.empty() || skel) { PBT_CHECK(Refused(o.ctx.status()), o.ctx.status()); return; }
  PBT_CHECK(o.ctx.ok(), o.ctx.status()); dw::Addr2Cu a(**o.ctx);
  for (uint64_t x = 0xff0; x < at + 10; ++x) { const U* in = nullptr; for (auto& u : us) if (x >= u.lo && x < u.hi) in = &u; Expect(a, x, in && in->kind == 0 ? &in->name : nullptr); }
}
void Compiled(Src& s, Case& c) {
  auto src = stackgen::GenSource(s); std::string exe = c.Tmp("prog"), flags, err; bool lean = false /* clang puts units without functions to describe into the object */, sure5 = false, any5 = false, any4 = false, any = false; int split = s.Weighted({2, 2}); bool nodebug = s.Chance(1, 12), clang = split || s.Chance(3, 4);
  std::vector<std::string> link = {clang ? "clang++-18" : "g++", "-nostdlib", "-o", exe, s.OneOf<const char*>({"-no-pie", "-pie"})}, files, dwos; std::vector<bool> is_split; if (s.Chance(1, 3)) link.push_back("-fuse-ld=lld"); if (s.Chance(1, 4)) link.push_back("-Wl,--gc-sections"); int onever = s.Int(4, 5); bool mixed = s.Chance(1, 5);
  for (size_t i = 0; i < src.files.size(); ++i) {
    std::string f = c.Tmp((s.Bool() ? "u" : "unit_") + std::to_string(i) + ".cc"); pbt::WriteFile(f, src.files[i]); files.push_back(f); bool cl = clang && (split || s.Chance(3, 4)); int v = mixed ? (int)s.Int(split ? 4 : 2, 5) : onever; bool sp = split && !nodebug && !s.Chance(1, 5); is_split.push_back(sp);
    std::vector<std::string> a = {cl ? "clang++-18" : "g++", "-c", "-w", s.OneOf<const char*>({"-O2", "-O0", "-O1", "-Os"}), "-o", f + ".o", f, "-fno-exceptions"}; if (!nodebug) a.push_back("-gdwarf-" + std::to_string(v)); bool g1 = !nodebug && s.Chance(1, 5); if (g1) a.push_back("-g1"); if (s.Chance(1, 3)) a.push_back("-ffunction-sections"); if (s.Chance(1, 6) && cl) a.push_back("-gdwarf-aranges");
    if (sp) { a.push_back("-gsplit-dwarf"); (v == 5 ? any5 : any4) = true; any = true; lean |= g1; if (v == 5 && !g1) sure5 = true; std::string d = f; d.replace(d.size() - 3, 3, ".dwo"); dwos.push_back(f + ".dwo"); }
    for (auto& x : a) flags += x + " "; flags += ";"; if (pbt::Exec(a, nullptr, &err)) throw pbt::Discard(); link.push_back(f + ".o");
  }
  c.Describe([&] { return flags + "\n" + src.text(); }); if (pbt::Exec(link, nullptr, &err)) throw pbt::Discard();
  if (nodebug) { Opened o(exe); PBT_CHECK(Refused(o.ctx.status()), o.ctx.status()); c.Label("no debug information"); return; }
  std::string dwp; bool missing = false;
  if (any) {
    if (s.Chance(2, 3) && !mixed) { dwp = c.Tmp("prog.dwp_file"); std::vector<std::string> a = {"llvm-dwp-18", "-o", dwp, "-e", exe}; if (pbt::Exec(a, nullptr, &err)) { flags += err; throw pbt::Discard(); } c.Label("packaged"); }
    else if (any5) { if (!sure5) throw pbt::Discard(); Opened o(exe); PBT_CHECK(Refused(o.ctx.status()), o.ctx.status()); c.Label("split, version 5, no package"); c.NonTrivial(); return; }
    else if (s.Bool()) { if (lean) throw pbt::Discard(); missing = true; }
    if (missing || dwp.size()) for (auto& f : files) for (auto& d : {f.substr(0, f.size() - 3) + ".dwo", f + ".dwo"}) unlink(d.c_str());
  }
  Opened o(exe, dwp); PBT_CHECK(o.ctx.ok(), o.ctx.status()); dw::Addr2Cu a(**o.ctx); std::string out; if (pbt::Exec({"nm", "-S", exe}, &out, &err)) throw pbt::Discard(); size_t at = 0, seen = 0; std::set<size_t> units;
  while (at < out.size()) {
    size_t e = out.find('\n', at); std::string l = out.substr(at, e - at); at = e + 1; unsigned long long v, n; char ty, name[400]; if (sscanf(l.c_str(), "%llx %llx %c %399s", &v, &n, &ty, name) != 4 || (ty != 't' && ty != 'T')) continue;
    std::string nm = name; size_t u = files.size(); if (nm == "_start" || nm == "_Z3exti") u = files.size() - 1; else { unsigned id; int used = 0; if (sscanf(name, "_ZL%*uf%u%n", &id, &used) < 1 && sscanf(name, "_Z%*uf%u%n", &id, &used) < 1 && sscanf(name, "f%u%n", &id, &used) < 1) continue; for (size_t i = 0; i < files.size(); ++i) if (src.files[i].find("int f" + std::to_string(id) + "(int x) {") != std::string::npos) u = i; }
    if (u == files.size()) continue; bool gone = missing && is_split[u];
    for (uint64_t x = v; x < v + n && x < v + 200; ++x) Expect(a, x, gone ? nullptr : &files[u]); ++seen; units.insert(u);
  }
  Expect(a, 0x7fffffff0000, nullptr); c.Label(any ? missing ? "split, version 4, files gone" : dwp.empty() ? "split, version 4, files there" : any5 ? "package 5" : "package 4" : "not split"); c.NonTrivial(units.size() > 1); c.LabelIf(seen > 4, "several functions");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P27"; t.rule = "the binary has several units";
  t.subs = {{"written debug information", Written, 12000, 400000}, {"unit kinds", Kinds, 20000, 500000}, {"compiled programs", Compiled, 250, 6000}};
  return pbt::Main(argc, argv, t);
}
