// Programs to symbolize: generated C++ sources compiled by the installed
// compilers, with llvm-symbolizer as the reference.
#ifndef STACKGEN_H_
#define STACKGEN_H_
#include <algorithm>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include "pbt.h"
namespace stackgen {
using pbt::Case; using pbt::Src;
struct Frame { std::string name; uint32_t start = 0, line = 0, disc = 0; std::string file, dir; };
using Stack = std::vector<Frame>;
inline std::string Show(const Stack& s) { std::string r; for (auto& f : s) { char t[300]; snprintf(t, sizeof t, " <- %s start %u line %u.%u", f.name.c_str(), f.start, f.line, f.disc); r += t; } return r.empty() ? "(empty)" : r; }

// ---- source generator
struct Source { std::vector<std::string> files; std::string text() const { std::string r; for (size_t i = 0; i < files.size(); ++i) r += "// unit " + std::to_string(i) + "\n" + files[i]; return r; } };
struct Writer {
  Src& s; std::string o; int depth = 0; std::vector<std::string> callable; bool one_line = false; int lines = 0;
  explicit Writer(Src& src) : s(src) {}
  void NL() { if (!s.Chance(1, one_line ? 2 : 6)) o += "\n"; else o += " "; if (s.Chance(1, 40)) { lines += 1; o += "\n#line " + std::to_string(s.OneOf<uint32_t>({10, 300, 70000, 65535, 2000000, 128})) + "\n"; } }
  std::string Expr() {
    switch (s.Weighted({4, 3, 2, callable.empty() ? 0 : 6})) {
      case 0: return "x"; case 1: return std::to_string(s.Draw(9)); case 2: return "(sink + x)";
      default: return s.Pick(callable) + "(" + (s.Chance(1, 4) ? Expr() : s.OneOf<const char*>({"x", "x + 1", "3", "x ^ 5"})) + ")";
    }
  }
  void Stmt() {
    if (depth > 3) { o += "sink = " + Expr() + ";"; NL(); return; }
    ++depth;
    switch (s.Weighted({5, 3, 3, 2, 2, 1})) {
      case 0: o += "x += " + Expr() + ";"; NL(); break;
      case 1: o += "if (x > " + std::to_string(s.Draw(50)) + ") {"; NL(); Stmt(); if (s.Bool()) { o += "} else {"; NL(); Stmt(); } o += "}"; NL(); break;
      case 2: o += "for (int i = 0; i < " + Expr() + "; ++i) {"; NL(); Stmt(); if (s.Bool()) Stmt(); o += "}"; NL(); break;
      case 3: o += "sink = " + Expr() + ";"; NL(); break;
      case 4: o += "{ int x = sink; "; Stmt(); o += "sink = x; }"; NL(); break;
      default: o += "switch (x & 7) { case 0: "; Stmt(); o += "break; case 3: "; Stmt(); o += "case 4: "; Stmt(); o += "break; default: if (__builtin_expect(x == 12345, 0)) { sink = 1; sink = ext(sink); } }"; NL(); break;
    }
    --depth;
  }
};
inline Source GenSource(Src& s, bool text_only = false) {
  Source r; int units = text_only ? 1 : s.Int(1, 3), id = 0; std::vector<std::string> exported;
  for (int u = 0; u < units; ++u) {
    Writer w(s); w.one_line = s.Chance(1, 3); w.o = "extern volatile int sink; int ext(int);\n"; for (auto& e : exported) w.o += "int " + e + "(int);\n"; w.callable = {"ext"};
    for (auto& e : exported) w.callable.push_back(e);
    int n = s.Int(1, 6);
    for (int i = 0; i < n; ++i) {
      std::string f = "f" + std::to_string(id++); int kind = text_only ? s.Weighted({4, 4, 3}) : s.Weighted({4, 4, 3, 2, 2, 1, 1});
      bool more = i + 1 < n; if (!more) kind = 2;
      std::string attr = text_only ? "" : s.Chance(1, 8) ? " __attribute__((cold))" : s.Chance(1, 8) ? " __attribute__((hot))" : ""; std::string use = f;
      if (kind == 0) w.o += "static inline __attribute__((always_inline)) int " + f + "(int x) {";
      else if (kind == 1) w.o += "static" + attr + " int " + f + "(int x) {";
      else if (kind == 2) { w.o += "__attribute__((noinline))" + attr + " int " + f + "(int x) {"; exported.push_back(f); }
      else if (kind == 3) { w.o += "struct S" + f + " { int v;" + (s.Bool() ? "\n" : " ") + "int go(int x) const {"; use = "S" + f + "{3}.go"; }
      else if (kind == 4) { w.o += "namespace n" + f + " { template <int N> inline int go(int x) {"; use = "n" + f + "::go<" + std::to_string(s.Draw(5)) + ">"; }
      else if (kind == 5) { w.o += "extern \"C\" int " + f + "(int x) {"; exported.push_back(f); w.callable.push_back(f); use = ""; }
      else { w.o += "namespace { int " + f + "(int x) {"; }
      w.NL(); if (s.Chance(1, 4)) { w.o += "auto l = [&](int y) { sink = y; return y + x; };"; w.NL(); w.o += "x += l(sink);"; w.NL(); }
      int k = 0; while (s.More(k, 1, 6, 2)) { ++k; w.Stmt(); }
      w.o += "return x; }"; if (kind == 3) { if (s.Bool()) w.o += "\nint other(int); "; w.o += " };"; if (s.Bool()) w.o += " inline int S" + f + "::go2(int) { return 1; }"; }
      if (kind == 4) w.o += " }"; if (kind == 6) w.o += " }";
      size_t at; while ((at = w.o.find(" inline int S" + f + "::go2(int) { return 1; }")) != std::string::npos) w.o.erase(at, (" inline int S" + f + "::go2(int) { return 1; }").size());
      w.o += "\n"; if (kind == 5) { exported.pop_back(); w.callable.pop_back(); use = f; }
      w.callable.push_back(use);
    }
    r.files.push_back(w.o);
  }
  if (text_only) return r;
  std::string m = "volatile int sink; __attribute__((noinline)) int ext(int x) { asm volatile(\"\"); return x ^ sink; }\n"; for (auto& e : exported) m += "int " + e + "(int);\n";
  m += "extern \"C\" void _start() { sink = 0;"; for (auto& e : exported) m += " sink = sink + " + e + "(sink);" + (s.Bool() ? "\n" : ""); m += "}\n"; r.files.push_back(m);
  return r;
}
struct Binary { std::string path, flags; bool ok = false; int dwarf = 5; bool clang = false; uint64_t text_lo = 0, text_hi = 0; };
// ELF64 section header lookup of .text-like range.
inline std::vector<std::pair<uint64_t, uint64_t>> ExecRanges(const std::string& elf) {
  std::vector<std::pair<uint64_t, uint64_t>> r; if (elf.size() < 64) return r; auto U = [&](size_t at, int n) { uint64_t v = 0; if (at + n <= elf.size()) memcpy(&v, &elf[at], n); return v; };
  uint64_t sh = U(0x28, 8), n = U(0x3c, 2); for (uint64_t i = 0; i < n; ++i) { size_t h = sh + 64 * i; if ((U(h + 8, 8) & 6) == 6 && U(h + 4, 4) == 1 && U(h + 32, 8)) r.push_back({U(h + 16, 8), U(h + 32, 8)}); }
  return r;
}
// `forced` flags are added to every compilation.
enum Split { kWhole, kDwo, kDwp, kPart };  // where the debug information goes; kPart is left to be packaged in part
inline Binary Compile(Src& s, Case& c, const Source& src, bool llvm_mode, Split split = kWhole) {
  Binary b; b.path = c.Tmp("prog"); unlink((b.path + ".dwp").c_str()); unlink((b.path + ".nosym.dwp").c_str()); std::string opt = s.OneOf<const char*>({"-O2", "-O1", "-O3", "-Os", "-O0", "-Og"}); b.dwarf = (int[]){5, 4, 5, 4, 3, 2}[s.Draw(5)]; bool mixed = s.Chance(1, 6) && !split;
  std::string common = s.Chance(1, 3) ? "-ffunction-sections" : ""; bool lto = s.Chance(1, 8); if (split) { lto = false; b.dwarf = split != kDwo ? 4 : 4 + (b.dwarf & 1); } int comp = s.Weighted({3, 2, 1}); if (llvm_mode) comp = s.Weighted({1, 3, 1});
  std::vector<std::string> link = {comp == 0 ? "g++" : "clang++-18", "-nostdlib", "-o", b.path}; if (s.Chance(1, 3)) link.push_back("-no-pie"); if (s.Chance(1, 3)) link.push_back("-Wl,--gc-sections");
  if (comp != 0 || s.Bool()) link.push_back("-fuse-ld=" + std::string(s.Bool() ? "lld" : "bfd"));
  for (size_t i = 0; i < src.files.size(); ++i) {
    std::string f = c.Tmp("u" + std::to_string(i) + ".cc"); pbt::WriteFile(f, src.files[i]); bool cl = comp == 1 || (comp == 2 && s.Bool()); b.clang |= cl; int v = mixed ? (int)s.Range(2, 5) : b.dwarf;
    std::vector<std::string> a = {cl ? "clang++-18" : "g++", "-c", "-w", opt, "-gdwarf-" + std::to_string(v), "-o", f + ".o", f}; if (common.size()) a.push_back(common);
    a.push_back("-fno-exceptions"); a.push_back("-fno-stack-protector"); if (cl && s.Bool()) a.push_back("-fdebug-info-for-profiling"); if (split) a.push_back("-gsplit-dwarf"); else if (cl && s.Chance(1, 6)) a.push_back("-gmlt"); if (s.Chance(1, 6)) a.push_back("-gno-column-info"); if (!cl && s.Chance(1, 6)) a.push_back("-gno-as-locview-support"); if (!cl && !split && s.Chance(1, 6)) a.push_back("-g1"); if (!cl && s.Chance(1, 8)) a.push_back("-gno-as-loc-support");
    if (lto && comp != 2 && comp == 0) a.push_back("-flto"); if (s.Chance(1, 10)) a.push_back("-fno-inline"); if (s.Chance(1, 10)) a.push_back("-mno-sse");
    for (auto& x : a) if (x != f && x != f + ".o") b.flags += x + " "; b.flags += ";";
    std::string out, err; if (pbt::Exec(a, &out, &err)) { c.Label("did not compile"); b.flags += err.substr(0, 300); return b; }
    link.push_back(f + ".o");
  }
  if (lto && comp == 0) { link.push_back("-flto"); link.push_back("-O2"); link.push_back("-flto-partition=one"); c.Label("lto"); }
  std::string out, err; if (pbt::Exec(link, &out, &err)) { c.Label("did not link"); b.flags += err.substr(0, 300); return b; }
  if (split == kDwp) {
    std::vector<std::string> a = {s.Bool() && b.dwarf == 4 && !mixed ? "dwp" : "llvm-dwp-18"}; if (s.Bool() || a[0] == "dwp") { a.push_back("-e"); a.push_back(b.path); } else for (size_t i = 0; i < src.files.size(); ++i) a.push_back(c.Tmp("u" + std::to_string(i) + ".cc.dwo")); a.push_back("-o"); a.push_back(b.path + ".dwp"); if (pbt::Exec(a, &out, &err)) { c.Label("did not package"); b.flags += err.substr(0, 300); return b; } for (size_t i = 0; i < src.files.size(); ++i) unlink(c.Tmp("u" + std::to_string(i) + ".cc.dwo").c_str()); c.Label(a[0]);
  }
  b.ok = true; c.Label(b.clang ? "clang" : "gcc"); c.Label("dwarf " + (mixed ? std::string("mixed") : std::to_string(b.dwarf))); c.Label(opt); return b;
}
// The reference sees a copy without symbol tables, so that names come from debug information alone.
inline std::map<uint64_t, Stack> Symbolize(const std::string& original, const std::vector<uint64_t>& addrs, const std::string& scratch) {
  std::string path = scratch + ".nosym"; { std::string elf = pbt::ReadFile(original); uint64_t sh, n = 0; memcpy(&sh, &elf[0x28], 8); memcpy(&n, &elf[0x3c], 2); for (uint64_t i = 0; i < n; ++i) { char& ty = elf[sh + 64 * i + 4]; if (ty == 2 || ty == 11) ty = 1; } pbt::WriteFile(path, elf); }
  if (access((original + ".dwp").c_str(), R_OK) == 0) pbt::WriteFile(path + ".dwp", pbt::ReadFile(original + ".dwp"));
  std::string list; char t[32]; for (uint64_t a : addrs) { snprintf(t, sizeof t, "0x%llx\n", (unsigned long long)a); list += t; }
  pbt::WriteFile(scratch + ".rsp", list); std::string out, err;
  std::vector<std::string> args = {"/bin/sh", "-c", "exec llvm-symbolizer-18 --obj=\"$0\" --functions=linkage --no-demangle --inlines --verbose --no-debuginfod < \"$1\"", path, scratch + ".rsp"};
  if (pbt::Exec(args, &out, &err)) throw std::runtime_error("llvm-symbolizer failed: " + err.substr(0, 300));
  std::map<uint64_t, Stack> r; size_t at = 0, i = 0; Stack cur; std::vector<std::string> lines;
  while (at < out.size()) { size_t e = out.find('\n', at); if (e == std::string::npos) e = out.size(); lines.push_back(out.substr(at, e - at)); at = e + 1; }
  for (auto& l : lines) {
    if (l.empty()) { if (i < addrs.size()) r[addrs[i]] = cur; ++i; cur.clear(); continue; }
    if (l[0] != ' ') { cur.push_back({l}); continue; }
    unsigned v; char p[4]; if (sscanf(l.c_str(), "  Function start line: %u", &v) == 1) cur.back().start = v; else if (sscanf(l.c_str(), "  Line: %u", &v) == 1) cur.back().line = v; else if (sscanf(l.c_str(), "  Discriminator: %u", &v) == 1) cur.back().disc = v; else if (l.rfind("  Filename: ", 0) == 0) cur.back().file = l.substr(12);
  }
  return r;
}
}  // namespace stackgen
#endif
