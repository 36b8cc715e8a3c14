#!/usr/bin/env python3
"""mkseed.py: reads a python file defining SEEDS = [dict(id, prop, edits=[(file, old, new)], demo_cc, srcs, flags, libs, needs, breaks, demo_sh)]
and writes seeded/<id>/."""
import sys, os, subprocess, json, runpy
PRE = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=/tmp/demo-{id}
rm -rf /tmp/demo-{id}; mkdir -p $t/inc/third_party/abseil; trap 'rm -rf /tmp/demo-{id}' EXIT
ln -s /usr/include/absl $t/inc/third_party/abseil/absl
g++ -std=c++17 -O1 -w -include filesystem -I$t/inc -I. -Iutil {flags} $d/demo.cc {srcs} -o $t/demo {libs} -lglog || exit 3
cd $t && ./demo
'''
for seedfile in sys.argv[1:]:
    for s in runpy.run_path(seedfile)["SEEDS"]:
        assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout == b"", "dirty"
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = "/verif/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        if "demo_cc" in s:
            open(d + "/demo.cc", "w").write(s["demo_cc"].lstrip("\n"))
        sh = s.get("demo_sh") or PRE.replace("{id}", s["id"]).replace("{flags}", s.get("flags", "")).replace("{srcs}", s.get("srcs", "")).replace("{libs}", s.get("libs", ""))
        open(d + "/demo.sh", "w").write(sh)
        for n, c in s.get("files", {}).items():
            open(d + "/" + n, "w").write(c)
        for n, c in s.get("copy", {}).items():
            import shutil
            shutil.copy(c, d + "/" + n + os.path.splitext(c)[1])
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
