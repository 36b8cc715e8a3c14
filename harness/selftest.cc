// MODE: GCOV
// SOURCES:
#include "pbt.h"
#include <cassert>
int main(int argc, char** argv) {
  pbt::Suite su; su.property = "SELF"; su.rule = "x";
  const char* m = getenv("SELF"); std::string mode = m ? m : "";
  su.subs.push_back({"sum", [=](pbt::Src& s, pbt::Case& c) {
    std::vector<int> v; while (s.More(v.size(), 0, 50, 10)) v.push_back(s.Int(0, 1000));
    c.NonTrivial(v.size() > 2); c.Describe([&] { return pbt::ToText(v, 0); });
    int big = 0; for (int x : v) big += x > 500;
    if (big >= 3) { if (mode == "throw") PBT_EQ(big, 0, "hi"); if (mode == "abort") abort(); if (mode == "asan") { char* p = new char[3]; volatile char q = p[3 + big - 3]; (void)q; } if (mode == "hang") for (;;) { volatile int z = 0; (void)z; } }
  }, 20000, 100000});
  su.cpu_limit_s = 2;
  return pbt::Main(argc, argv, su);
}
