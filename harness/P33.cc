// MODE: LLVM
// SOURCES: frequencies_branch_aggregator.cc branch_aggregation.cc llvm_propeller_binary_address_mapper.cc llvm_propeller_binary_content.cc addr2cu.cc llvm_propeller_formatting.cc pb:options
// TECHNIQUE: property-based testing: generated programs and branch frequencies against a direct flow computation, with conservation checked block by block
// LEVEL_NOTE: Random search over programs, taken and not-taken counts (also at addresses outside of any block), fixed- and variable-length instruction sets.
#include <unistd.h>
#include "bbprog.h"
#include "branch_frequencies_aggregator.h"
#include "frequencies_branch_aggregator.h"
#include "llvm_propeller_binary_address_mapper.h"
#include "llvm_propeller_binary_content.h"
#include "llvm_propeller_options.pb.h"
#include "llvm_propeller_statistics.h"
using pbt::Case; using pbt::Src; using namespace devtools_crosstool_autofdo;
namespace {
using U = uint64_t; using Pair = std::pair<U, U>; using Counts = std::map<Pair, int64_t>;
struct Fixed : BranchFrequenciesAggregator { Fixed(BranchFrequencies f, int* n, bool fail) : f(std::move(f)), n(n), fail(fail) {} absl::StatusOr<BranchFrequencies> AggregateBranchFrequencies(const PropellerOptions&, const BinaryContent&, PropellerStats& st) override { ++*n; st.profile_stats.br_counters_accumulated += 77; if (fail) return absl::InternalError("none"); return f; } BranchFrequencies f; int* n; bool fail; };
void Flow(Src& s, Case& c) {
  bool arm = s.Bool(); bb::Opts o; o.max_funcs = 5; o.max_blocks = 8; if (arm && s.Chance(5, 6)) o.unit = 4; o.zero_funcs = false; bb::Program p = bb::Generate(s, o); if (arm) p.machine = 183; std::string path = c.Tmp("bin"); pbt::WriteFile(path, bb::Write(&p));
  bool all = s.Chance(2, 3), text = s.Chance(1, 3); std::vector<std::pair<bb::H, U>> ends; Counts taken; std::map<U, int64_t> not_taken; int n = 0; auto Num = [&]() -> int64_t { return s.Weighted({5, 1}) == 0 ? s.Draw(20) : s.OneOf<int64_t>({1000, 1ll << 40, 3000000000ll}); };
  auto From = [&]() -> U { if (s.Chance(1, 12)) return s.OneOf<U>({~0ull, 0, s.U64()}); auto& f = s.Pick(p.funcs); int k = s.Draw(f.blocks.size() - 1); U e = f.EndOf(k); if (s.Chance(1, 2)) return e - 4; return s.Chance(1, 2) ? bb::SomeAddress(s, p) : e - std::min<U>(f.blocks[k].size, o.unit); };
  auto To = [&]() -> U { if (s.Chance(1, 12)) return s.OneOf<U>({~0ull, 0, s.U64()}); auto& f = s.Pick(p.funcs); return s.Chance(4, 5) ? f.At(s.Draw(f.blocks.size() - 1)) : bb::SomeAddress(s, p); };
  while (s.More(n, 0, 25, 8)) { ++n; if (s.Chance(1, 3)) not_taken[taken.size() && s.Chance(1, 3) ? std::next(taken.begin(), s.Draw(taken.size() - 1))->first.first : From()] = Num(); else taken[{From(), To()}] = Num(); }
  c.Describe([&] { std::ostringstream r; r << bb::Show(p) << (arm ? "fixed-length" : "variable-length") << (all ? ", all functions" : "") << (text ? ", code sections only" : "") << "\n" << std::hex; for (auto& [k, v] : taken) r << k.first << " -> " << k.second << " x" << std::dec << v << std::hex << "\n"; for (auto& [k, v] : not_taken) r << "not taken " << k << " x" << std::dec << v << std::hex << "\n"; return r.str(); });
  BranchFrequencies f; for (auto& [k, v] : taken) f.taken_branch_counters[{.from = k.first, .to = k.second}] = v; for (auto& [k, v] : not_taken) f.not_taken_branch_counters[{.address = k}] = v;
  auto content = GetBinaryContent(path); unlink(path.c_str()); PBT_CHECK(content.ok(), content.status().ToString()); PropellerOptions opt; opt.set_filter_non_text_functions(text); PropellerStats st0, st; int calls = 0, how = s.Draw(2); bool fail = how == 2 && s.Chance(1, 10);
  PropellerStats given; given.profile_stats.br_counters_accumulated = 77; std::unique_ptr<FrequenciesBranchAggregator> a; if (how == 0) a = std::make_unique<FrequenciesBranchAggregator>(f, given, arm ? std::optional<int>(4) : std::nullopt); else if (how == 1) a = std::make_unique<FrequenciesBranchAggregator>(f, **content, given); else a = std::make_unique<FrequenciesBranchAggregator>(std::make_unique<Fixed>(f, &calls, fail), opt, **content);
  auto ea = a->GetBranchEndpointAddresses(); PBT_EQ(ea.ok(), !fail, "addresses"); absl::flat_hash_set<uint64_t> hot; std::set<U> hs; for (auto& [k, v] : taken) { hs.insert(k.first); hs.insert(k.second); } for (auto& [k, v] : not_taken) hs.insert(k); if (!fail) { PBT_EQ(pbt::ToText(std::set<U>(ea->begin(), ea->end()), 0), pbt::ToText(hs, 0), "endpoint addresses"); hot.insert(hs.begin(), hs.end()); }
  auto m = BuildBinaryAddressMapper(opt, **content, st0, all ? nullptr : &hot); PBT_CHECK(m.ok(), m.status().ToString()); auto r = a->Aggregate(**m, st); PBT_CHECK(r.ok() == !fail, "aggregation: " << r.status().ToString()); if (how == 2) PBT_EQ(calls, 1, "evaluations"); if (fail) { c.Label("aggregator fails"); return; }
  PBT_EQ(st.profile_stats.br_counters_accumulated, 77, "statistics of the profile");
  // Reference.
  std::set<int> sel = bb::Select(p, all ? nullptr : &hs, text); std::vector<bb::H> blocks; std::map<bb::H, int> index; for (int i : sel) for (size_t k = 0; k < p.funcs[i].blocks.size(); ++k) { index[{i, (int)k}] = blocks.size(); blocks.push_back({i, (int)k}); } int N = blocks.size(); std::vector<int64_t> in(N), out(N), fall(N); std::vector<std::optional<int64_t>> measured(N); std::vector<bool> seen(N);
  auto Find = [&](U x, bool to) { auto h = bb::Find(p, sel, x, to); return h ? index[*h] : -1; }; auto Ends = [&](U x) { int i = Find(x, false); return arm && i >= 0 && p.funcs[blocks[i].f].EndOf(blocks[i].b) - 4 == x ? i : -1; };
  for (auto& [k, v] : taken) { int i = Find(k.first, false), j = Find(k.second, true); if (i >= 0) { seen[i] = true; out[i] += v; } if (j >= 0) { seen[j] = true; in[j] += v; } if (int e = Ends(k.first); e >= 0) measured[e] = 0; } for (auto& [k, v] : not_taken) if (int e = Ends(k); e >= 0) { seen[e] = true; measured[e] = v; }
  Counts want; bool carried = false, blocked = false, meas = false, neg = false; auto At = [&](int i) { return p.funcs[blocks[i].f].At(blocks[i].b); };
  for (int i = 0; i < N; ++i) { if (!seen[i]) continue; int64_t w = measured[i].value_or(in[i] - out[i]); meas |= measured[i].value_or(0) > 0; neg |= w < 0; if (w <= 0) continue; int j = i + 1; while (j < N && !seen[j]) ++j; if (j < N && bb::CanFall(p, blocks[i], blocks[j])) { want[{At(i), At(j)}] += w; in[j] += w; carried = true; } else if (i + 1 < N && bb::CanFall(p, blocks[i], blocks[i + 1])) want[{At(i), At(i + 1)}] += w; else blocked = true; }
  Counts gt, gf; for (auto& [k, v] : r->branch_counters) gt[{k.from, k.to}] = v; for (auto& [k, v] : r->fallthrough_counters) gf[{k.from, k.to}] = v; auto T = [](const Counts& m) { std::ostringstream o; o << std::hex; for (auto& [k, v] : m) o << k.first << ">" << k.second << std::dec << " x" << v << std::hex << "; "; return o.str(); };
  PBT_EQ(T(gt), T(taken), "taken branches"); PBT_EQ(T(gf), T(want), "fall-throughs (how " << how << ", arch " << (int)(*content)->object_file->getArch() << ")"); int64_t sum = 0; for (auto& [k, v] : taken) sum += v; PBT_EQ(r->GetNumberOfBranchCounters(), sum, "number of branches");
  std::set<U> uw, ug; for (auto& [k, v] : gt) { uw.insert(k.first); uw.insert(k.second); } for (auto& [k, v] : gf) { uw.insert(k.first); uw.insert(k.second); } for (U x : r->GetUniqueAddresses()) ug.insert(x); PBT_EQ(pbt::ToText(ug, 0), pbt::ToText(uw, 0), "addresses of the aggregation");
  for (auto& [k, v] : gf) PBT_CHECK(v > 0, "fall-through of weight " << v);
  c.NonTrivial(want.size() > 1 || (want.size() && blocked)); c.LabelIf(carried, "flow carried on"); c.LabelIf(blocked, "no fall-through possible"); c.LabelIf(meas, "measured not-taken count"); c.LabelIf(neg, "more leaves than enters"); c.LabelIf(arm, "fixed-length instructions");
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "P33"; su.scale = 2; su.rule = "at least two inferred fall-throughs, or one and a block that cannot fall through";
  su.assumptions = {"counts are not negative", "flow that enters a block and is not seen to leave goes to the next sampled block if the code falls through to it, to the next block otherwise"};
  su.subs = {{"flow", Flow, 120000, 2000000}};
  return pbt::Main(argc, argv, su);
}
