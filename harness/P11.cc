// MODE: LLVM
// SOURCES: symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// BIN: profile_merger = profile_merger.cc llvm_profile_reader.cc llvm_profile_writer.cc profile_reader.cc profile_writer.cc gcov.cc symbol_map.cc source_info.cc util/symbolize/elf_reader.cc
// TECHNIQUE: property-based testing of the profile_merger program: generated input files written by LLVM's own writer or an independent GCC encoder, output decoded independently and compared with the sum of the inputs under the drawn options
// LEVEL_NOTE: Random search over input lists, formats and options. The nesting limit is drawn at or above the depth of the inputs (its effect is judged by P10).
#include <regex>
#include "gcccodec.h"
#include "llvm/ProfileData/SampleProfWriter.h"
#include "llvm/Support/MD5.h"
#include "llvmview.h"
#include "profgen.h"
using pbt::Case; using pbt::Src; namespace sp = llvm::sampleprof; using U = uint64_t;
namespace {
struct In { pg::Profile p; std::map<std::string, U> bare; std::set<std::string> list; };  // bare: functions without lines and their totals
U Tot(const In& i, const std::string& n) { auto b = i.bare.find(n); return b != i.bare.end() ? b->second : i.p.at(n).Total(); }
void AddF(pg::Func* a, const pg::Func& b) { a->head += b.head; for (auto& [k, l] : b.lines) { auto& x = a->lines[k]; x.count += l.count; for (auto& [t, n] : l.targets) x.targets[t] += n; } for (auto& [k, c] : b.calls) AddF(&a->calls[k], c); }
sp::FunctionSamples Samples(const std::string& n, const pg::Func& f, U total, bool top) {
  sp::FunctionSamples s; s.setFunction(sp::FunctionId(llvm::StringRef(pg::Intern(n)))); s.addTotalSamples(total); if (top) s.addHeadSamples(f.head);
  for (auto& [k, l] : f.lines) { s.addBodySamples(k >> 32, (uint32_t)k, l.count); for (auto& [t, c] : l.targets) s.addCalledTargetSamples(k >> 32, (uint32_t)k, sp::FunctionId(llvm::StringRef(pg::Intern(t))), c); }
  for (auto& [k, c] : f.calls) s.functionSamplesAt(sp::LineLocation(k.first >> 32, (uint32_t)k.first))[sp::FunctionId(llvm::StringRef(pg::Intern(k.second)))] = Samples(k.second, c, c.Total(), false);
  return s;
}
bool WriteLLVM(const In& in, const std::string& path, int fmt, bool compress, bool fs = false) {
  sp::FunctionSamples::ProfileIsFS = fs; struct Reset { ~Reset() { sp::FunctionSamples::ProfileIsFS = false; } } reset; sp::SampleProfileMap m; for (auto& [n, f] : in.p) m[sp::SampleContext(pg::Intern(n))] = Samples(n, f, Tot(in, n), true);
  auto w = sp::SampleProfileWriter::create(path, fmt == 0 ? sp::SPF_Text : fmt == 1 ? sp::SPF_Binary : sp::SPF_Ext_Binary); if (!w) return false; sp::ProfileSymbolList l; for (auto& x : in.list) l.add(pg::Intern(x), true); if (fmt == 2 && !in.list.empty()) (*w)->setProfileSymbolList(&l); if (fmt == 2 && compress) (*w)->setToCompressAllSections(); return !(*w)->write(m);
}
void Names(const pg::Func& f, std::set<std::string>* n) { for (auto& [k, l] : f.lines) for (auto& [t, c] : l.targets) n->insert(t); for (auto& [k, c] : f.calls) { n->insert(k.second); Names(c, n); } }
using Sets = std::vector<std::pair<uint32_t, U>>;
Sets GenSets(Src& s) { Sets w; U x = s.Draw(1 << 20); for (int i = 0; i < 128; ++i) { uint32_t n = 1 + (uint32_t)(pbt::SplitMix(x) % 10000000); w.push_back({n, pbt::SplitMix(x) >> 20}); } return w; }
std::string EncodeGCC(const In& in, uint32_t version, const Sets& sets = {}) {
  gcc::File f; f.version = version; std::set<std::string> names = {""}; for (auto& [n, x] : in.p) { names.insert(n); Names(x, &names); f.tops.push_back({x.head, x.timestamp, n, x}); } f.names.assign(names.begin(), names.end()); f.name_file.assign(f.names.size(), ~0u);
  std::vector<const pg::Func*> t; for (auto& [n, x] : in.p) t.push_back(&x); f.summary = gcc::Summarize(t, {10000, 500000, 999999}); f.working_set = sets; if (sets.empty()) for (int i = 0; i < 128; ++i) f.working_set.push_back({(uint32_t)i, 1000u - i}); return gcc::Encode(f);
}
bool Special(const std::string& n, const char* p) { return n.compare(0, strlen(p), p) == 0; }
int Depth(const pg::Func& f) { int d = 0; for (auto& [k, c] : f.calls) d = std::max(d, 1 + Depth(c)); return d; }
const char* kStrip = "__strip_all_special_$erqweriwe2313541__"; const char* kSole = "__keep_sole_special_$sdlfa3293481293__"; const std::vector<std::string> kCold = {"__cxx_global_var_init", "_GLOBAL__sub_I_"};
void Throttle(pg::Func* f, size_t n) { std::map<U, std::vector<std::pair<U, std::string>>> at; for (auto& [k, c] : f->calls) at[k.first].push_back({c.Total(), k.second}); for (auto& [o, v] : at) { std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; }); for (size_t i = n; i < v.size(); ++i) f->calls.erase({o, v[i].second}); } for (auto& [k, c] : f->calls) Throttle(&c, n); }
void Trim(pg::Func* f, size_t n) { for (auto& [k, l] : f->lines) if (l.targets.size() > n) { std::vector<std::pair<U, std::string>> v; for (auto& [t, c] : l.targets) v.push_back({c, t}); std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first != b.first ? a.first > b.first : a.second < b.second; }); v.resize(n); l.targets.clear(); for (auto& [c, t] : v) l.targets[t] = c; } for (auto& [k, c] : f->calls) Trim(&c, n); }
std::string H(const std::string& n) { return "#" + std::to_string(llvm::MD5Hash(n)); }
pg::Func HashF(const pg::Func& f) { pg::Func r; r.head = f.head; for (auto& [k, l] : f.lines) { r.lines[k].count = l.count; for (auto& [t, c] : l.targets) r.lines[k].targets[H(t)] = c; } for (auto& [k, c] : f.calls) r.calls[{k.first, H(k.second)}] = HashF(c); return r; }
std::string Tool() { return std::string(getenv("PBT_BIN")) + "/profile_merger"; }
In GenIn(Src& s, const pg::Opt& o, bool gcc) {
  In i; i.p = pg::Gen(s, o); if (s.Chance(1, 10)) for (auto& [n, f] : i.p) for (auto& [k, l] : f.lines) l.count = 1 + l.count % 6; if (!gcc && s.Chance(1, 4)) { std::string n = pg::GenName(s, o); if (!i.p.count(n)) { i.p[n].head = s.Draw(30); i.bare[n] = s.Draw(200); } }
  if (i.p.empty()) { auto& l = i.p["main"].lines[1ull << 32]; l.count = 20; } return i;
}
// The sum of the inputs, with the threshold applied last.
struct Want { pg::Profile p; std::map<std::string, U> total; };
void Threshold(Want* w, U sum, double frac) { int64_t th = (int64_t)((int64_t)sum * frac); if (th < 10) th = 10; for (auto i = w->p.begin(); i != w->p.end();) if ((int64_t)w->total[i->first] <= th) { w->total.erase(i->first); i = w->p.erase(i); } else ++i; }
std::string Frac(Src& s, double* f) { switch (s.Draw(4)) { case 0: *f = 0.001; return "0.001"; case 1: *f = 0.02; return "0.02"; case 2: *f = 0.2; return "0.2"; default: *f = 0; return ""; } }
void LLVM(Src& s, Case& c) {
  pg::Opt o; o.max_funcs = 5; o.max_depth = 2; o.max_count = 1ull << 45; o.max_disc = 0xffffffff; bool special = s.Chance(2, 5); if (special) o.extra_names = {kStrip, kSole, std::string(kStrip) + ".x", std::string(kSole) + "2", "__cxx_global_var_init.12", "_GLOBAL__sub_I_a.cc"}; std::vector<In> in; int n = 0; while (s.More(n, 1, special ? 6 : 5, special ? 4 : 2)) { ++n; in.push_back(in.size() && s.Chance(1, 6) ? in[0] : GenIn(s, o, false)); if (special && s.Bool()) { auto& f = in.back().p[s.Pick(o.extra_names)]; if (!in.back().bare.size() && f.lines.empty() && f.calls.empty()) f.lines[1ull << 32].count = 20 + s.Draw(20); } if (s.Chance(1, 3)) for (const char* x : {"foo", "zed", "zap", "main2"}) if (s.Bool()) in.back().list.insert(x); }
  std::vector<std::string> av = {Tool(), "--is_llvm"}; std::string fmt = s.OneOf<std::string>({"text", "binary", "extbinary", ""}); if (fmt.size()) av.push_back("--format=" + fmt); else fmt = "binary"; bool ext = fmt == "extbinary", md5 = false, list = s.Chance(1, 3); if (list) av.push_back("--include_symbol_list");
  bool partial = false, fs_in = s.Chance(1, 4), fs_out = false; if (s.Chance(1, 10)) { fs_out = true; av.push_back("--use_fs_discriminator"); }
  if (ext) { for (const char* x : {"--compress", "--partial_profile", "--split_layout"}) if (s.Chance(1, 4)) { av.push_back(x); partial |= x[2] == 'p'; } if (s.Chance(1, 5)) { av.push_back("--use_md5"); md5 = true; } } double frac; std::string fs = Frac(s, &frac); if (fs.size()) av.push_back("--sample_threshold_frac=" + fs);
  bool msym = true; if (s.Chance(special ? 3 : 1, 4)) { msym = false; av.push_back("--merge_special_syms=false"); } std::string strip; if (s.Chance(1, 5)) { strip = s.OneOf<std::string>({"foo", "_Z.*", ".*a.*", "nothing", "(bar|qux)"}); av.push_back("--strip_symbols_regex=" + strip); } int mt = s.Chance(1, 4) ? s.Draw(3) : 0, mi = s.Chance(1, 4) ? s.Draw(3) : -1, nest = 0; if (s.Chance(1, 5)) { nest = 3; for (auto& i : in) for (auto& [f, x] : i.p) nest = std::max(nest, 1 + Depth(x)); nest += s.Draw(3); }
  if (mt) av.push_back("--max_call_targets=" + std::to_string(mt)); if (mi >= 0) av.push_back("--inline_instances_at_same_loc_cutoff=" + std::to_string(mi)); if (nest) av.push_back("--max_inline_callsite_nesting_level=" + std::to_string(nest)); std::string out = c.Tmp("out"); std::vector<std::string> path; std::string kinds;
  for (size_t i = 0; i < in.size(); ++i) { path.push_back(c.Tmp("in" + std::to_string(i))); int f = s.Draw(2); bool z = s.Bool(), fd = f == 2 && fs_in && s.Bool(); fs_out |= fd; if (fd) kinds += " (flow-sensitive)"; if (f != 2) in[i].list.clear(); PBT_CHECK(WriteLLVM(in[i], path[i], f, z, fd), "input not written"); kinds += f == 0 ? " text" : f == 1 ? " binary" : " extbinary"; }
  Want w; std::set<std::string> sole, seen, syms; size_t shared = 0; std::set<std::string> skip, cold;
  for (auto& i : in) { for (auto& [f, x] : i.p) { if (!msym) { if (Special(f, kStrip)) continue; if (Special(f, kSole)) { if (skip.count(f)) continue; if (!seen.insert(f).second) { skip.insert(f); w.total[f] = 0; continue; } } bool cd = false; for (auto& k : kCold) cd |= Special(f, k.c_str()); if (cd) { w.p[f]; w.total[f] = 11; continue; } } shared += w.p.count(f); AddF(&w.p[f], x); w.total[f] += Tot(i, f); } if (list && ext) syms.insert(i.list.begin(), i.list.end()); }
  U sum = 0; for (auto& [f, t] : w.total) sum += t; if (!strip.empty()) for (auto& [f, t] : w.total) if (std::regex_match(f, std::regex(strip))) t = 0; if (mi > 0) for (auto& [f, x] : w.p) { U b = x.Total(); Throttle(&x, mi); w.total[f] -= std::min(w.total[f], b - x.Total()); } if (mt > 0) for (auto& [f, x] : w.p) Trim(&x, mt); Threshold(&w, sum, frac);
  c.Describe([&] { std::string r; for (auto& a : av) r += (r.empty() ? "profile_merger" : " " + a); for (size_t i = 0; i < in.size(); ++i) { r += "\nfile " + std::to_string(i) + ":\n" + pg::Show(in[i].p); for (auto& [b, t] : in[i].bare) r += b + " has no lines and total " + std::to_string(t) + "\n"; if (in[i].list.size()) r += "symbols " + pbt::ToText(in[i].list, 0); } return r + "\ninputs:" + kinds; });
  c.NonTrivial(in.size() > 1 && shared && w.p.size()); c.LabelIf(in.size() == 1, "single input"); c.LabelIf(special && !msym, "special symbols"); c.LabelIf(frac > 0, "threshold"); c.LabelIf(md5, "hashed names"); c.LabelIf(fs_out, "flow-sensitive discriminators"); c.LabelIf(syms.size(), "symbol list"); c.LabelIf(mt > 0 || mi > 0 || strip.size(), "limits");
  for (int order = 0; order < (in.size() > 1 && (msym || !special) && s.Chance(1, 3) ? 2 : 1); ++order) {
    auto a = av; auto p = path; if (order) s.Shuffle(p); a.insert(a.end(), p.begin(), p.end()); a.push_back("--output_file=" + out); std::string so, se; int rc = pbt::Exec(a, &so, &se); PBT_CHECK(rc == 0, "exit " << rc << ": " << se.substr(0, 3000)); if (w.p.empty()) break; auto v = lv::Read(out); PBT_CHECK(v.error.empty(), v.error); pg::Profile want; for (auto& [f, x] : w.p) want[md5 ? H(f) : f] = md5 ? HashF(x) : x;
    std::string d = pg::Diff(v.p, want); PBT_CHECK(d.empty(), (order ? "in another order: " : "") << d); for (auto& [f, t] : w.total) if (w.p.count(f)) PBT_EQ(v.totals[md5 ? H(f) : f], t, "total of " << f); if (ext) { PBT_EQ(v.is_fs, fs_out, "flow-sensitive discriminators"); PBT_EQ(v.partial, partial, "partial profile"); } if (ext) PBT_CHECK(v.list == syms, "symbols " << pbt::ToText(v.list, 0) << ", want " << pbt::ToText(syms, 0)); unlink(out.c_str());
  }
  for (auto& x : path) unlink(x.c_str());
}
void GCC(Src& s, Case& c) {
  pg::Opt o; o.max_funcs = 5; o.max_depth = 2; o.max_count = 1ull << 45; o.zero_counts = false; uint32_t ver = s.OneOf<uint32_t>({1, 2, 3, 0x3430372a}); o.timestamps = ver >= 3; std::vector<In> in; int n = 0; while (s.More(n, 1, 5, 2)) { ++n; in.push_back(in.size() && s.Chance(1, 6) ? in[0] : GenIn(s, o, true)); }
  std::vector<std::string> av = {Tool()}; double frac; std::string fs = Frac(s, &frac); if (fs.size()) av.push_back("--sample_threshold_frac=" + fs); std::string out = c.Tmp("out"); std::vector<std::string> path; std::vector<Sets> sets; for (size_t i = 0; i < in.size(); ++i) { path.push_back(c.Tmp("in" + std::to_string(i))); sets.push_back(sets.size() && s.Chance(1, 4) ? sets[0] : GenSets(s)); pbt::WriteFile(path[i], EncodeGCC(in[i], ver, sets[i])); }
  Want w; size_t shared = 0; U sum = 0; for (auto& i : in) for (auto& [f, x] : i.p) { shared += w.p.count(f); AddF(&w.p[f], x); w.total[f] += x.Total(); sum += x.Total(); } if (in.size() == 1) for (auto& [f, x] : w.p) x.timestamp = in[0].p[f].timestamp; Threshold(&w, sum, frac);
  c.Describe([&] { std::string r = "version " + std::to_string(ver) + " " + fs; for (auto& i : in) r += "\nfile:\n" + pg::Show(i.p); return r; }); c.NonTrivial(in.size() > 1 && shared && w.p.size()); c.LabelIf(in.size() == 1, "single input"); c.LabelIf(frac > 0, "threshold"); c.LabelIf(w.p.size() < in[0].p.size(), "functions below the threshold");
  for (int order = 0; order < (in.size() > 1 && s.Chance(1, 3) ? 2 : 1); ++order) {
    auto a = av; auto p = path; if (order) s.Shuffle(p); a.insert(a.end(), p.begin(), p.end()); a.push_back("--output_file=" + out); std::string so, se; int rc = pbt::Exec(a, &so, &se); PBT_CHECK(rc == 0, "exit " << rc << ": " << se.substr(0, 3000)); auto f = gcc::Decode(pbt::ReadFile(out)); PBT_EQ(f.version, ver, "version"); pg::Profile got; for (auto& t : f.tops) { PBT_CHECK(!got.count(t.name), t.name << " is listed twice"); got[t.name] = t.f; got[t.name].head = t.head; got[t.name].timestamp = t.timestamp; }
    std::string d = pg::Diff(got, w.p, false, in.size() == 1 && ver >= 3); PBT_CHECK(d.empty(), (order ? "in another order: " : "") << d); unlink(out.c_str());
    PBT_EQ(f.working_set.size(), 128u, "working sets"); for (int k = 0; k < 128; ++k) { uint32_t lo = ~0u, hi = 0; U min = 0; for (auto& w : sets) { lo = std::min(lo, w[k].first); hi = std::max(hi, w[k].first); min += w[k].second; } PBT_EQ(f.working_set[k].second, min, "smallest count of working set " << k); PBT_CHECK(f.working_set[k].first >= lo && f.working_set[k].first <= hi, "size of working set " << k << " is " << f.working_set[k].first << ", the inputs have " << lo << " to " << hi); }
  }
  for (auto& x : path) unlink(x.c_str());
}
// Requests that cannot be served end with an error and do not pretend success.
void Refused(Src& s, Case& c) {
  bool llvm = s.Chance(2, 3); In ok; ok.p["main"].lines[1ull << 32].count = 100; std::string good = c.Tmp("good"), bad = c.Tmp("bad"), out = c.Tmp("out"); if (llvm) WriteLLVM(ok, good, s.Draw(2), false); else pbt::WriteFile(good, EncodeGCC(ok, 3)); int k = s.Draw(llvm ? 5 : 3); std::vector<std::string> av = {Tool()}; if (llvm) av.push_back("--is_llvm"); std::string what, err, so; bool first = s.Bool();
  auto two = [&](const std::string& b) { if (first) { av.push_back(b); av.push_back(good); } else { av.push_back(good); av.push_back(b); } };
  switch (k) { case 0: what = "a missing input"; two(bad + ".missing"); break; case 1: what = "an input that is no profile"; pbt::WriteFile(bad, "\x7f" "ELF" + s.Bytes(64)); two(bad); break; case 2: what = "an output in a missing directory"; av.push_back(good); out = bad + ".dir/out"; break; case 3: what = "no input at all"; av.resize(1); break; case 4: what = "an unknown format"; av.push_back(good); av.push_back("--format=" + s.OneOf<std::string>({"json", "Text", "bin"})); break; default: what = "an option of another format"; av.push_back(good); av.push_back(std::string("--format=") + (s.Bool() ? "text" : "binary")); av.push_back(s.OneOf<std::string>({"--compress", "--use_md5", "--partial_profile", "--split_layout"})); }
  if (k != 3) av.push_back("--output_file=" + out); c.Describe([&] { std::string r = what + ":"; for (auto& a : av) r += " " + a; return r; }); c.NonTrivial(true); c.Label(what); int rc = pbt::Exec(av, &so, &err); PBT_CHECK(rc != 0, what << " was accepted"); PBT_CHECK(err.find("AddressSanitizer") == std::string::npos, err);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P11"; su.rule = "at least two inputs share a function and the output is not empty; every refused request counts"; su.subs = {{"llvm", LLVM, 2500, 60000}, {"gcc", GCC, 2500, 60000}, {"refused", Refused, 400, 4000}};
  su.assumptions = {"GCC inputs have one version", "sums fit in 64 bits", "names are not hashed in the inputs"}; return pbt::Main(argc, argv, su);
}
