// MODE: LLVM
// SOURCES: llvm_profile_writer.cc llvm_profile_reader.cc profile_writer.cc gcov.cc symbol_map.cc source_info.cc
// TECHNIQUE: property-based testing: write/read round trip of generated profiles, and LLVM's own sample-profile reader as a differential oracle
// LEVEL_NOTE: Random search over profiles, encodings and section options; trusts LLVM's reader and writer libraries.
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/MD5.h"
#include "llvm_profile_reader.h"
#include "llvm_profile_writer.h"
#include "llvmview.h"
#include "profgen.h"
#include "third_party/abseil/absl/container/node_hash_set.h"
#include "third_party/abseil/absl/flags/declare.h"
#include "third_party/abseil/absl/flags/flag.h"
ABSL_DECLARE_FLAG(std::string, suffix_elision_policy);
using pbt::Case; using pbt::Src; namespace dca = devtools_crosstool_autofdo; namespace sp = llvm::sampleprof;

namespace {
struct Enc { sp::SampleProfileFormat f; bool compress = false, md5 = false, split = false, partial = false; std::string name; };
Enc GenEnc(Src& s, bool allow_md5) {
  Enc e; switch (s.Draw(2)) { case 0: e.f = sp::SPF_Text; e.name = "text"; break; case 1: e.f = sp::SPF_Binary; e.name = "binary"; break; default: e.f = sp::SPF_Ext_Binary; e.name = "extbinary"; e.compress = s.Chance(1, 3); e.split = s.Chance(1, 4); e.partial = s.Chance(1, 4); e.md5 = allow_md5 && s.Chance(1, 3); }
  if (e.compress) e.name += " compressed"; if (e.split) e.name += " split"; if (e.md5) e.name += " md5"; return e;
}
bool WriteIt(dca::LLVMProfileWriter* w, const Enc& e, const std::string& path) {
  if (e.compress || e.split || e.partial || e.md5) { auto* sw = w->CreateSampleWriter(path); if (!sw) return false; if (e.split) sw->setUseCtxSplitLayout(); if (e.compress) sw->setToCompressAllSections(); if (e.md5) sw->setUseMD5(); if (e.partial) sw->setPartialProfile(); }
  return w->WriteToFile(path);
}
pg::Profile Hashed(const pg::Profile& p) {
  std::function<pg::Func(const pg::Func&)> go; auto h = [](const std::string& n) { return "#" + std::to_string(llvm::MD5Hash(n)); };
  go = [&](const pg::Func& f) { pg::Func r = f; for (auto& [k, l] : r.lines) { std::map<std::string, uint64_t> t; for (auto& [n, x] : l.targets) t[h(n)] = x; l.targets = t; } r.calls.clear(); for (auto& [k, c] : f.calls) r.calls[{k.first, h(k.second)}] = go(c); return r; };
  pg::Profile r; for (auto& [n, f] : p) r[h(n)] = go(f); return r;
}
// What reading with 8-bit base discriminators means.
pg::Func Masked(const pg::Func& f) {
  pg::Func r; r.head = f.head; r.file = f.file;
  for (auto& [k, l] : f.lines) { auto& x = r.lines[(k >> 32 << 32) | (k & 0xff)]; x.count += l.count; for (auto& [t, n] : l.targets) x.targets[t] += n; }
  std::function<void(pg::Func*, const pg::Func&)> add = [&](pg::Func* a, const pg::Func& b) { for (auto& [k, l] : b.lines) { auto& x = a->lines[k]; x.count += l.count; for (auto& [t, n] : l.targets) x.targets[t] += n; } for (auto& [k, c] : b.calls) add(&a->calls[k], c); };
  for (auto& [k, c] : f.calls) add(&r.calls[{(k.first >> 32 << 32) | (k.first & 0xff), k.second}], Masked(c)); return r;
}

void RoundTrip(Src& s, Case& c) {
  pg::Opt o; o.max_disc = 0xffffffffu; o.max_count = 1ull << 56; o.max_funcs = s.Chance(1, 6) ? 30 : 6; o.files = s.Chance(1, 3);
  Enc e = GenEnc(s, true); o.wild_names = e.f != sp::SPF_Text && s.Chance(1, 3);
  pg::Profile p = pg::Gen(s, o); absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  bool fs = e.f == sp::SPF_Ext_Binary && s.Chance(1, 4), base_only = fs && s.Chance(1, 3);
  uint64_t threshold = s.Weighted({3, 1}) == 0 || p.empty() ? 0 : s.Bool() ? s.Draw(300) : std::next(p.begin(), s.Draw(p.size() - 1))->second.Total();
  size_t kept = 0; int depth = 0; for (auto& [n, f] : p) { kept += f.Total() > threshold; depth = std::max(depth, f.Depth()); }
  c.NonTrivial(kept >= 1 && p.begin()->second.NumLines() >= 2); c.Label(e.name); c.LabelIf(fs, "fs discriminators"); c.LabelIf(base_only, "read with base discriminators only"); c.LabelIf(depth > 1, "two levels of inlining"); c.LabelIf(kept < p.size(), "some functions under the threshold"); c.LabelIf(o.wild_names, "unusual names");
  c.Describe([&] { return e.name + " threshold " + std::to_string(threshold) + "\n" + pg::Show(p); });
  dca::SymbolMap m; dca::SourceInfo::use_fs_discriminator = fs; pg::Build(p, &m, &s, true); PBT_EQ(pg::CheckTotals(m), std::string(), "totals as built"); m.set_count_threshold(threshold);
  std::string path = c.Tmp("p"); { dca::LLVMProfileWriter w(e.f); w.setSymbolMap(&m); PBT_CHECK(WriteIt(&w, e, path), "writing reports success"); }
  pg::Profile want; for (auto& [n, f] : p) if (f.Total() > threshold) want[n] = f;
  if (want.empty() && e.f == sp::SPF_Text) return;  // an empty text file is not a profile
  lv::View v = lv::Read(path); PBT_CHECK(v.error.empty(), "LLVM's reader: " << v.error);
  pg::Profile w2 = e.md5 ? Hashed(want) : want;
  std::string d = pg::Diff(v.p, w2); PBT_CHECK(d.empty(), "LLVM's reader sees " << d);
  d = lv::DiffTotals(v.totals, lv::Totals(w2)); PBT_CHECK(d.empty(), "LLVM's reader sees " << d);
  PBT_EQ(v.is_fs, fs && e.f == sp::SPF_Ext_Binary && true, "discriminator kind in the file");
  if (e.md5) return;
  dca::SourceInfo::use_fs_discriminator = false; if (base_only) absl::SetFlag(&FLAGS_use_base_only_in_fs_discriminator, true);
  if (base_only) for (auto& [n, f] : want) f = Masked(f);
  absl::node_hash_set<std::string> names; dca::SymbolMap back; bool fs_seen; { dca::LLVMProfileReader r(&back, names); PBT_CHECK(r.ReadFromFile(path), "reading reports success"); fs_seen = r.ProfileIsFS(); PBT_CHECK(r.GetProfileSymbolList() == nullptr || r.GetProfileSymbolList()->size() == 0, "no symbol list was written"); }
  PBT_EQ(fs_seen, fs, "discriminator kind"); 
  d = pg::Diff(pg::FromMap(back), want); PBT_CHECK(d.empty(), "read back: " << d);
  PBT_EQ(pg::CheckTotals(back), std::string(), "totals after reading");
  if (base_only) return;
  // A second generation in another encoding.
  Enc e2 = GenEnc(s, false); if (o.wild_names && e2.f == sp::SPF_Text) return; std::string path2 = c.Tmp("q"); { dca::LLVMProfileWriter w(e2.f); w.setSymbolMap(&back); PBT_CHECK(WriteIt(&w, e2, path2), "second write"); }
  pg::Profile nz; for (auto& [n, f] : want) if (f.Total()) nz[n] = f; if (nz.empty()) return;
  dca::SymbolMap back2; absl::node_hash_set<std::string> names2; dca::LLVMProfileReader r2(&back2, names2); PBT_CHECK(r2.ReadFromFile(path2), "second read"); d = pg::Diff(pg::FromMap(back2), nz); PBT_CHECK(d.empty(), "second generation (" << e2.name << "): " << d);
}

// Files produced by LLVM's writer, including functions with a total but no lines.
void Foreign(Src& s, Case& c) {
  pg::Opt o; o.max_disc = 0xffff; pg::Profile p = pg::Gen(s, o); absl::SetFlag(&FLAGS_suffix_elision_policy, "none");
  std::map<std::string, uint64_t> bare; while (s.More(bare.size(), 0, 3, 1)) { std::string n = "bare" + std::to_string(s.Draw(5)); bare[n] = s.U64(1ull << 40); }
  Enc e = GenEnc(s, false); c.Label(e.name); c.NonTrivial(!p.empty()); c.LabelIf(!bare.empty(), "functions without lines"); c.Describe([&] { return e.name + " bare " + pbt::ToText(bare, 0) + "\n" + pg::Show(p); });
  if (p.empty() && bare.empty()) throw pbt::Discard();
  sp::SampleProfileMap pm; llvm::sampleprof::FunctionSamples::ProfileIsFS = false;
  std::function<void(sp::FunctionSamples*, const pg::Func&)> fill = [&](sp::FunctionSamples* fs, const pg::Func& f) {
    fs->addTotalSamples(f.Total()); for (auto& [k, l] : f.lines) { fs->addBodySamples(k >> 32, (uint32_t)k, l.count); for (auto& [t, n] : l.targets) fs->addCalledTargetSamples(k >> 32, (uint32_t)k, sp::FunctionId(pg::Intern(t)), n); }
    for (auto& [k, x] : f.calls) { auto id = sp::FunctionId(pg::Intern(k.second)); auto& cs = fs->functionSamplesAt(sp::LineLocation(k.first >> 32, (uint32_t)k.first))[id]; cs.setFunction(id); fill(&cs, x); } };
  for (auto& [n, f] : p) { auto id = sp::FunctionId(pg::Intern(n)); auto& fs = pm[sp::SampleContext(pg::Intern(n))]; fs.setFunction(id); fs.addHeadSamples(f.head); fill(&fs, f); }
  for (auto& [n, t] : bare) { auto& fs = pm[sp::SampleContext(pg::Intern(n))]; fs.setFunction(sp::FunctionId(pg::Intern(n))); fs.addHeadSamples(7); fs.addTotalSamples(t); }
  std::string path = c.Tmp("f"); { auto w = sp::SampleProfileWriter::create(path, e.f); if (!w) throw std::runtime_error("writer"); if (e.split) (*w)->setUseCtxSplitLayout(); if (e.compress) (*w)->setToCompressAllSections(); if ((*w)->write(pm)) throw std::runtime_error("write"); (*w)->getOutputStream().flush(); }
  dca::SymbolMap back; absl::node_hash_set<std::string> names; dca::LLVMProfileReader r(&back, names); PBT_CHECK(r.ReadFromFile(path), "reading reports success");
  pg::Profile want = p; for (auto& [n, t] : bare) want[n].head = 7;
  std::string d = pg::Diff(pg::FromMap(back), want); PBT_CHECK(d.empty(), d);
  for (auto& [n, sy] : back.map()) PBT_EQ(sy->total_count, bare.count(n) ? bare[n] : p[n].Total(), n << " total");
  // Reading again adds everything once more, except that targets and bare totals keep their meaning.
  PBT_CHECK(!dca::LLVMProfileReader(&back, names).ReadFromFile(c.Tmp("missing")), "a missing file is an error"); d = pg::Diff(pg::FromMap(back), want); PBT_CHECK(d.empty(), "after a failed read: " << d);
}
}  // namespace

int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P06";
  su.rule = "roundtrip: a generated profile, an encoding (text, binary, extensible binary with compression, split layout, MD5 names, partial flag, FS discriminators) and a threshold; the file is compared with the model through LLVM's reader and through this repository's reader, twice. foreign: files made by LLVM's writer. Non-trivial: a function with two lines is written.";
  su.assumptions = {"names in text profiles have no spaces or colons", "line offsets fit 16 bits and discriminators 32", "reading back profiles with MD5 names is outside the claim (names are not in the file)"};
  su.subs = {{"roundtrip", RoundTrip, 60000, 1500000}, {"foreign", Foreign, 30000, 600000}};
  return pbt::Main(argc, argv, su);
}
