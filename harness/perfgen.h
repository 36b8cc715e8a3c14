// Generated perf recordings of one binary (mappings, build ids), with a
// reference for selecting its mappings and translating run-time addresses.
#ifndef VERIF_PERFGEN_H_
#define VERIF_PERFGEN_H_
#include <optional>
#include "elfgen.h"
#include "pbt.h"
#include "quipper/arm_spe_decoder.h"
#include "quipper/perf_reader.h"
namespace pgn {
using U = uint64_t; using pbt::Src; constexpr uint32_t kKernel = ~0u; constexpr U kNone = ~0ull;
struct Seg { U off, vaddr, memsz; };
struct Bin { std::vector<Seg> segs; bool pie = true; std::string build_id; };  // raw build id
struct Map { uint32_t pid; U start, len, pgoff; std::string name; bool has_pid = true, has_start = true, has_len = true, has_name = true, has_pgoff = true; };
struct Id { std::string name, hash; bool has_name = true, has_hash = true; };
struct Rec { std::vector<Map> maps; std::vector<Id> ids; };
inline std::string HexOf(const std::string& b) { std::string h; for (unsigned char c : b) { char x[3]; snprintf(x, 3, "%02x", c); h += x; } return h; }
inline Bin GenBin(Src& s, bool kernel) {
  Bin b; b.pie = s.Chance(2, 3); if (s.Chance(4, 5)) { b.build_id.assign(s.OneOf<int>({20, 20, 8, 1}), 'a' + s.Draw(3)); b.build_id[0] = s.Bool() ? '\x01' : '\xf0'; } U off = s.OneOf<U>({0, 0x1000, 0x200000, 0x340}), d = kernel ? 0xffffffff81000000ull : b.pie ? s.OneOf<U>({0, 0x1000, 0x10000}) : 0x400000; int n = 1 + s.Weighted({3, 2, 1});
  for (int i = 0; i < n; ++i) { U sz = s.OneOf<U>({1, 0x10, 0x1000, 0x1801, 0x4000}) + s.Draw(20); b.segs.push_back({off, off + d, sz}); off += sz; if (s.Bool()) off = (off + 0xfff) & ~0xfffull; if (s.Chance(1, 3)) off += 0x1000; d += s.OneOf<U>({0, 0x1000, 0x200000}); } return b;
}
inline void Add(Src& s, const Bin& b, uint32_t pid, U base, const std::string& name, std::vector<Map>* out) {
  if (pid == kKernel) { U n = 0; for (auto& g : b.segs) n = std::max(n, g.off - b.segs[0].off + g.memsz); out->push_back({pid, base, n + s.OneOf<U>({0, 0, 0x1000}), s.OneOf<U>({0, base, 0x1000}), name}); return; }
  if (!b.pie) base = 0;
  U end = 0; for (auto& g : b.segs) { U lo = s.Bool() ? g.off & ~0xfffull : g.off, hi = s.Bool() ? (g.off + g.memsz + 0xfff) & ~0xfffull : g.off + g.memsz; U at = base + g.vaddr - (g.off - lo); if (at < end) { lo += end - at; at = end; } if (hi <= lo) continue; end = at + (hi - lo); out->push_back({pid, at, hi - lo, lo, name}); if (s.Chance(1, 8)) { out->back().len = 1 + s.Draw(out->back().len - 1); } }
}
inline const std::vector<std::string>& Names() { static auto* v = new std::vector<std::string>{"/bin/prog", "/opt/v2/prog", "/bin/prog2", "/lib/libx.so", "/memfd:prog", "[vdso]", "/boot/vmlinux", "[kernel.kallsyms]_text", "[kernel.kallsyms]_stext", "[kernel.kallsyms]", "[kernel.kallsyms]_etext", "/anon_hugepage (deleted)", "[anon:prog]", "/anon/prog", "[anonymous]"}; return *v; }
// kernel: records of the kernel exist.
inline Rec GenRec(Src& s, const Bin& b, bool kernel, const std::string& exe, bool clean = false) {
  Rec r; int np = s.Int(1, 3); for (int p = 0; p < np; ++p) { uint32_t pid = kernel && p == 0 ? kKernel : 100 + p; U base = pid == kKernel ? s.OneOf<U>({0xffffffff81000000ull, 0xffffffffa0200000ull}) : 0x550000000000ull + (s.Draw(3) << 24); if (!kernel && p && s.Chance(1, 3)) continue; Add(s, b, pid, base, exe, &r.maps); if (!kernel && b.pie && s.Chance(1, 4)) Add(s, b, pid, base + (1ull << 32), exe, &r.maps); }
  int n = 0; while (s.More(n, 0, 6, 2)) {
    ++n; int k = s.Weighted({6, 2, clean ? 0 : 1, clean ? 0 : 1, 2, clean ? 0 : 1}); Map m; if (r.maps.empty() || k == 0) { m = {100u + (uint32_t)s.Draw(3), (s.Draw(400)) << 12, (1 + s.Draw(8)) << 12, s.Draw(3) << 12, clean ? "/lib/other.so" : s.Pick(Names())}; }
    else { m = s.Pick(r.maps); switch (k) { case 1: break; case 2: m.start += m.len - 1; break; case 3: m.pgoff += 0x1000; break; case 4: m.start += m.len; m.pgoff += m.len; break; default: m.start = 0 - m.len; } if (k == 1 && s.Chance(1, 4)) m.name = s.Pick(Names()); if (s.Chance(1, 6)) m.pid = 100 + s.Draw(3); }
    if (!m.len) continue; if (m.start && m.start + m.len - 1 < m.start) continue; if (clean && m.start + m.len < m.start) continue;
    if (s.Chance(1, 8)) { switch (s.Draw(5)) { case 0: m.has_pid = false; break; case 1: m.has_start = false; break; case 2: m.has_len = false; break; case 3: m.has_name = false; break; case 4: m.name.clear(); break; default: m.has_pgoff = false; } }
    r.maps.push_back(m);
  }
  if (!clean) s.Shuffle(r.maps);
  n = 0; while (s.More(n, clean ? 1 : 0, 5, 3)) { ++n; Id d; d.name = n == 1 && s.Chance(3, 4) ? exe : s.Chance(1, 12) ? "" : s.Pick(Names()); d.hash = s.Chance(2, 3) ? b.build_id : s.Chance(1, 2) ? b.build_id.substr(0, b.build_id.size() / 2) : std::string(20, 'z'); if (n == 1 && clean) { d.name = exe; d.hash = b.build_id; } else if (clean) d = {"/lib/other.so", "z"}; if (!clean && s.Chance(1, 12)) d.has_name = false; if (!clean && s.Chance(1, 12)) d.has_hash = false; r.ids.push_back(d); }
  return r;
}
inline void Put(const Rec& r, quipper::PerfDataProto* p) {
  for (auto& m : r.maps) { auto* e = p->add_events(); e->mutable_header()->set_type(quipper::PERF_RECORD_MMAP); auto* v = e->mutable_mmap_event(); if (m.has_pid) v->set_pid(m.pid); if (m.has_start) v->set_start(m.start); if (m.has_len) v->set_len(m.len); if (m.has_pgoff) v->set_pgoff(m.pgoff); if (m.has_name) v->set_filename(m.name); }
  for (auto& d : r.ids) { auto* e = p->add_build_ids(); if (d.has_name) e->set_filename(d.name); if (d.has_hash) e->set_build_id_hash(d.hash); }
}
inline std::string Base(const std::string& n) { size_t k = n.rfind('/'); return k == n.npos ? n : n.substr(k + 1); }
// Names of the binary by build id; empty if there is none.
inline std::set<std::string> IdNames(const Rec& r, const std::string& hex) { std::set<std::string> o; if (hex.empty()) return o; for (auto& d : r.ids) if (d.has_name && d.has_hash && HexOf(d.hash) == hex && d.name.size() && d.name.compare(0, 14, "/anon_hugepage") && d.name.compare(0, 6, "[anon:")) o.insert(d.name); return o; }
using Maps = std::map<uint32_t, std::vector<Map>>;
// A name matches the whole path if it is one, the last part otherwise; the kernel has three names.
inline bool Matches(const std::set<std::string>& names, const std::string& f) { for (auto& n : names) { if (n == "[kernel.kallsyms]") { if (f == n || f == n + "_text" || f == n + "_stext") return true; continue; } if (n[0] == '/' ? f == n : Base(f) == Base(n)) return true; } return false; }
// The mappings of the binary. None if there are none, or conflicting ones.
inline std::optional<Maps> Select(const Rec& r, const std::set<std::string>& names) {
  Maps o; for (auto& m : r.maps) { if (!m.has_pid || !m.has_start || !m.has_len || !m.has_name || m.name.empty() || !Matches(names, m.name)) continue; U pg = m.has_pgoff ? m.pgoff : 0; bool dup = false; for (auto& e : o[m.pid]) { if (e.start == m.start && e.len == m.len && e.pgoff == pg) { dup = true; continue; } if (m.start <= e.start + (e.len - 1) && e.start <= m.start + (m.len - 1)) return std::nullopt; } if (!dup) { o[m.pid].push_back(m); o[m.pid].back().pgoff = pg; } }
  if (o.empty()) return std::nullopt; return o;
}
inline U Translate(const Bin& b, const Maps& maps, uint32_t pid, U a) {
  auto it = maps.find(pid); if (it == maps.end()) return kNone; for (auto& m : it->second) { if (a < m.start || a - m.start >= m.len) continue; if (pid != kKernel && !b.pie) return a; U off = a - m.start + (pid == kKernel ? b.segs[0].off : m.pgoff); for (auto& g : b.segs) if (off >= g.off && off - g.off < g.memsz) return g.vaddr + (off - g.off); return kNone; } return kNone;
}
inline std::string Show(const Bin& b, const Rec& r) {
  std::ostringstream o; o << std::hex << (b.pie ? "pie" : "fixed") << " build id " << HexOf(b.build_id) << "; segments"; for (auto& g : b.segs) o << " " << g.off << "@" << g.vaddr << "+" << g.memsz; o << "\n"; for (auto& m : r.maps) { o << "map pid "; if (m.has_pid) o << std::dec << (int)m.pid << std::hex; o << " "; if (m.has_start) o << m.start; o << "+"; if (m.has_len) o << m.len; if (m.has_pgoff) o << " offset " << m.pgoff; if (m.has_name) o << " '" << m.name << "'"; o << "\n"; } for (auto& d : r.ids) { o << "id "; if (d.has_name) o << "'" << d.name << "' "; if (d.has_hash) o << HexOf(d.hash); o << "\n"; } return o.str();
}
// An address at or near the edges of a mapping or of what a segment covers.
inline U SomeAddress(Src& s, const Bin& b, const Rec& r, uint32_t* pid = nullptr) {
  if (r.maps.empty() || s.Chance(1, 12)) return s.U64(); auto& m = s.Pick(r.maps); if (pid && s.Chance(9, 10)) *pid = m.pid; switch (s.Weighted({3, 2, 2, 2, 4})) { case 0: return m.start + s.Draw(m.len - 1); case 1: return m.start - s.Draw(1); case 2: return m.start + m.len - s.Draw(1); case 3: return m.start + s.Draw(std::min<U>(63, m.len - 1)); default: { auto& g = s.Pick(b.segs); U off = s.Bool() ? g.off - s.Draw(1) : g.off + g.memsz - s.Draw(1); return m.pid == kKernel ? m.start + off - b.segs[0].off : m.start + off - m.pgoff; } }
}
}  // namespace pgn
#endif
