// MODE: LLVM
// SOURCES: status_provider.cc status_consumer_registry.cc
// TECHNIQUE: model-based property testing: generated task trees and histories of progress, completion and registration calls against an exact integer model
// LEVEL_NOTE: Random search over trees up to depth 4, weights whose sum fits an int, histories up to 30 calls; also exhaustive over every progress value of every pair of small weights.
#include <algorithm>
#include <functional>
#include <string>
#include "pbt.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
using pbt::Case; using pbt::Src;
using namespace devtools_crosstool_autofdo;

namespace {
struct Node {
  std::string job; bool leaf = true; int progress = 0; std::vector<std::pair<int, std::unique_ptr<Node>>> kids; StatusProvider* real = nullptr;
  bool Done() const { if (leaf) return progress >= 100; for (auto& k : kids) if (!k.second->Done()) return false; return true; }
  int Progress() const {
    if (leaf) return progress; int64_t total = 0, sum = 0; bool open = false; int64_t part = 0; for (auto& k : kids) total += k.first; if (!total) return 100;
    for (auto& k : kids) { if (k.second->Done()) { sum += k.first; continue; } open = true; part = (int64_t)k.first * k.second->Progress(); break; }
    return open ? (int)((sum * 100 + part) / total) : 100;
  }
  std::string Job() const { if (!leaf) for (auto& k : kids) if (!k.second->Done()) return job + " - " + k.second->Job(); return job; }
  void SetDone() { progress = 100; for (auto& k : kids) k.second->SetDone(); }
  std::string Show() const { std::string r = job; if (leaf) return r + ":" + std::to_string(progress); r += "{"; for (auto& k : kids) r += std::to_string(k.first) + "*" + k.second->Show() + " "; return r + "}"; }
};
struct Tree {
  Src& s; std::vector<Node*> leaves, multis; int n = 0; bool big;
  std::string Name() { return s.Chance(1, 8) ? s.Text("a -%", 0, 4, 2) : "t" + std::to_string(n); }
  std::unique_ptr<StatusProvider> Make(Node* m, int depth, bool multi) {
    m->job = Name(); ++n;
    if (!multi) { auto p = std::make_unique<DefaultStatusProvider>(m->job); m->real = p.get(); leaves.push_back(m); return p; }
    m->leaf = false; auto p = std::make_unique<MultiStatusProvider>(m->job); m->real = p.get(); multis.push_back(m); size_t k = 0; while (s.More(k, 0, 6, 2)) { ++k; Add(m, depth); } return p;
  }
  void Add(Node* m, int depth) {
    int w = big ? 1 + (int)s.U64((1u << 30) / 6) : s.Chance(1, 4) ? 1 + (int)s.Draw(999) : 1 + (int)s.Draw(9); if (big) for (auto& k : m->kids) if (k.first > 1000000) w = std::min(w, 1000);
    auto kid = std::make_unique<Node>(); Node* q = kid.get(); m->kids.emplace_back(w, std::move(kid)); auto sub = Make(q, depth + 1, depth < 3 && s.Chance(1, 3)); static_cast<MultiStatusProvider*>(m->real)->AddStatusProvider(w, std::move(sub));
  }
};
void Check(const Node& n) {
  PBT_EQ(n.real->IsDone(), n.Done(), "done " << n.Show()); PBT_EQ(n.real->GetProgress(), n.Progress(), "progress " << n.Show()); PBT_EQ(n.real->GetJob(), n.Job(), "task " << n.Show());
  int p = n.real->GetProgress(); PBT_CHECK(p >= 0 && p <= 100 && (p == 100) == n.Done(), n.Show()); for (auto& k : n.kids) Check(*k.second);
}
void Trees(Src& s, Case& c) {
  Tree t{s}; t.big = s.Chance(1, 5); Node root; auto real = t.Make(&root, 0, true); std::string text = root.Show(); Check(root); int n = 0, partial = 0;
  while (s.More(n, 0, 30, 8)) {
    ++n; int op = s.Weighted({6, 2, 1, 1});
    if (op == 0 && t.leaves.size()) { Node* l = s.Pick(t.leaves); l->progress = s.Chance(1, 4) ? 100 : s.Draw(100); static_cast<DefaultStatusProvider*>(l->real)->SetProgress(l->progress); text += "; " + l->job + "=" + std::to_string(l->progress); }
    else if (op == 1 && t.leaves.size()) { Node* l = s.Pick(t.leaves); l->SetDone(); l->real->SetDone(); text += "; done " + l->job; }
    else if (op == 2) { Node* m = s.Pick(t.multis); m->SetDone(); m->real->SetDone(); text += "; done all " + m->job; }
    else if (t.n < 60) { Node* m = s.Pick(t.multis); t.Add(m, 3); text += "; add to " + m->job; }
    int p = root.Progress(); partial += p > 0 && p < 100; try { Check(root); } catch (...) { c.Describe([&] { return text; }); throw; }
  }
  c.Describe([&] { return text; }); c.NonTrivial(partial > 0); c.LabelIf(t.big, "large weights"); c.LabelIf(t.multis.size() > 1, "nested");
}
void Pairs(Src& s, Case& c) {  // every progress value of both tasks
  int a = 1 + s.Draw(60), b = 1 + s.Draw(600); MultiStatusProvider m("m"); auto p = std::make_unique<DefaultStatusProvider>("x"), q = std::make_unique<DefaultStatusProvider>("y"); auto *x = p.get(), *y = q.get(); m.AddStatusProvider(a, std::move(p)); m.AddStatusProvider(b, std::move(q)); c.Describe([&] { return std::to_string(a) + " " + std::to_string(b); });
  for (int i = 0; i <= 100; ++i) { x->SetProgress(i); y->SetProgress(s.Draw(100)); int w = i < 100 ? a * i / (a + b) : y->IsDone() ? 100 : (a * 100 + b * y->GetProgress()) / (a + b); PBT_EQ(m.GetProgress(), w, "first at " << i); }
  for (int i = 0; i <= 100; ++i) { y->SetProgress(i); PBT_EQ(m.GetProgress(), (a * 100 + b * i) / (a + b), "second at " << i); } c.NonTrivial();
}
struct Observer : StatusConsumer { int id; std::vector<std::string>* log; ~Observer() override { log->push_back("delete " + std::to_string(id)); } void Start(StatusProvider& p) override { char t[60]; snprintf(t, sizeof t, "start %d %p", id, (void*)&p); log->push_back(t); p.SetDone(); } void Stop() override { log->push_back("stop " + std::to_string(id)); } };
void Registry(Src& s, Case& c) {
  std::vector<std::string> log, want; std::vector<std::unique_ptr<DefaultStatusProvider>> ps; int n = 0, reg = 0, calls = 0; std::string text; auto r = std::make_unique<StatusConsumerRegistry>();
  while (s.More(n, 0, 25, 8)) {
    ++n; int op = s.Weighted({3, 3, 3});
    if (op == 0) { auto o = std::make_unique<Observer>(); o->id = reg++; o->log = &log; r->Register(std::move(o)); text += " register"; }
    else if (op == 1) { if (ps.empty() || s.Bool()) ps.push_back(std::make_unique<DefaultStatusProvider>("p")); auto* p = s.Pick(ps).get(); p->SetProgress(0); r->Start(*p); for (int i = 0; i < reg; ++i) { char t[60]; snprintf(t, sizeof t, "start %d %p", i, (void*)p); want.push_back(t); } text += " start"; ++calls; PBT_EQ(p->IsDone(), reg > 0, "provider passed to observers"); }
    else { r->Stop(); for (int i = 0; i < reg; ++i) want.push_back("stop " + std::to_string(i)); text += " stop"; ++calls; }
    PBT_EQ(log, want, text);
  }
  r.reset(); std::vector<std::string> tail(log.begin() + want.size(), log.end()), gone; for (int i = 0; i < reg; ++i) gone.push_back("delete " + std::to_string(i)); std::sort(tail.begin(), tail.end()); std::sort(gone.begin(), gone.end()); PBT_EQ(tail, gone, "observers deleted");
  PBT_CHECK(&StatusConsumerRegistry::GetInstance() == &StatusConsumerRegistry::GetInstance(), "more than one global registry"); c.Describe([&] { return text; }); c.NonTrivial(reg > 1 && calls > 0);
}
}  // namespace
int main(int argc, char** argv) {
  pbt::Suite t; t.property = "P42"; t.scale = 4; t.rule = "overall progress is partial at some point, or several observers are notified";
  t.subs = {{"task trees", Trees, 300000, 6000000}, {"weight pairs", Pairs, 30000, 400000}, {"registry", Registry, 150000, 3000000}};
  return pbt::Main(argc, argv, t);
}
