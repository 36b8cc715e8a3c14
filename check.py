#!/usr/bin/env python3
"""Builds one property's harness from /repo's working tree and runs it.

usage: check.py Pxx            run the check (VERIF_SEED, VERIF_TIER)
       check.py Pxx --replay F replay one saved counterexample
       check.py Pxx --build    build only
Exit: 0 held, 1 violation (with a VIOLATION line), 2/3 error of the check.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")
CXX = "g++"
JOBS = os.cpu_count() or 8


def metadata(path):
    m = {"MODE": "GCOV", "SOURCES": "", "LIBS": "", "FLAGS": "", "BIN": [], "PROPERTY": "", "TECHNIQUE": "", "LEVEL_NOTE": "", "LEVEL": "exploration", "HELPERS": ""}
    for line in open(path):
        if not line.startswith("//"):
            break
        g = re.match(r"//\s*([A-Z_]+):\s*(.*)$", line)
        if g and g.group(1) in m:
            if g.group(1) == "BIN":
                m["BIN"].append(g.group(2).strip())
            else:
                m[g.group(1)] = g.group(2).strip() if g.group(1) in ("MODE", "LEVEL") else (m[g.group(1)] + " " + g.group(2).strip()).strip()
    return m


def sh(cmd, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    return p.returncode, p.stdout.decode(errors="replace")


def protos(out):
    os.makedirs(out, exist_ok=True)
    cmds = [["protoc", "-I" + REPO, "--cpp_out=" + out, os.path.join(REPO, "llvm_propeller_cfg.proto"), os.path.join(REPO, "llvm_propeller_options.proto")],
            ["protoc", "-I" + os.path.join(VERIF, "compat"), "--cpp_out=" + out, os.path.join(VERIF, "compat/perf_data.proto")]]
    for c in cmds:
        rc, o = sh(c)
        if rc:
            print(o); raise SystemExit(2)


PB = {"pb:cfg": "llvm_propeller_cfg.pb.cc", "pb:options": "llvm_propeller_options.pb.cc", "pb:perf": "perf_data.pb.cc"}


def flags_for(mode, pbdir, extra):
    f = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
         "-ffunction-sections", "-fdata-sections", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-include", os.path.join(VERIF, "compat/prelude.h"),
         "-I" + os.path.join(VERIF, "compat"), "-I" + pbdir, "-I" + REPO, "-I" + os.path.join(REPO, "util"), "-I" + HARNESS]
    if mode == "LLVM":
        f += ["-DHAVE_LLVM=1", "-isystem", "/usr/lib/llvm-20/include"]
    return f + extra


def compile_one(src, obj, flags, env):
    opt = ["-O0"] if os.path.basename(src) in ("symbol_map.cc", "sample_reader.cc", "spe_sample_reader.cc") or src.endswith(".pb.cc") else []
    cc = ["ccache"] if shutil.which("ccache") else []
    return src, *sh(cc + [CXX] + flags + opt + ["-c", src, "-o", obj], env)


def build(prop):
    main = os.path.join(HARNESS, prop + ".cc")
    md = metadata(main)
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    pbdir = os.path.join(d, "pb")
    targets = []  # (exe, [(src, mode, flags)])
    def src_path(s):
        if s in PB: return os.path.join(pbdir, PB[s])
        if s.startswith("h:"): return os.path.join(HARNESS, s[2:])
        return os.path.join(REPO, s)
    need_pb = True
    targets.append((os.path.join(d, "check"), [main, os.path.join(HARNESS, "pbt.cc")] + [src_path(s) for s in md["SOURCES"].split()], md["MODE"], md["FLAGS"].split(), md["LIBS"].split()))
    for b in md["BIN"]:
        name, rest = b.split("=", 1)
        words = rest.split()
        targets.append((os.path.join(d, name.strip()), [src_path(s) for s in words if not s.startswith("-")], md["MODE"], md["FLAGS"].split(), md["LIBS"].split() + [s for s in words if s.startswith("-")]))
    if need_pb:
        protos(pbdir)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="5G", CCACHE_NOHASHDIR="1")
    jobs, objs = {}, {}
    for exe, srcs, mode, fl, _ in targets:
        for s in srcs:
            key = hashlib.sha1((s + mode + " ".join(fl)).encode()).hexdigest()[:10]
            obj = os.path.join(d, os.path.basename(s) + "." + key + ".o")
            objs.setdefault(exe, []).append(obj)
            jobs[obj] = (s, flags_for(mode, pbdir, fl))
    slow = lambda it: 0 if "symbol_map" in it[1][0] or "spe_sample" in it[1][0] or "/harness/P" in it[1][0] else 1
    fails = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, s, o, f, env) for o, (s, f) in sorted(jobs.items(), key=slow)]
        for f in fs:
            src, rc, out = f.result()
            if rc: fails.append((src, out))
    if fails:
        for src, out in fails:
            print("cannot compile %s:\n%s" % (src, "\n".join(out.splitlines()[:30])))
        raise SystemExit(2)
    def link(t):
        exe, srcs, mode, fl, libs = t
        l = list(libs)
        if mode == "LLVM": l += ["-L/usr/lib/llvm-20/lib", "-lLLVM-20"]
        l += ["-lglog", "-lgflags", "-lprotobuf", "-lelf", "-lcrypto", "-lpthread"]
        l = [x for i, x in enumerate(l) if x not in l[:i]]
        return sh([CXX, "-fsanitize=address", "-fuse-ld=lld", "-Wl,--gc-sections", "-o", exe] + objs[exe] + l)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        bad = [(t, out) for t, (rc, out) in zip(targets, ex.map(link, targets)) if rc]
    if bad and any("undefined symbol" in out for _, out in bad):
        # Code moved to another file: offer every library file of the tree.
        lib = others(d, pbdir, md, env)
        bad = [(t, out) for t in [t for t, _ in bad] for rc, out in [link((t[0], t[1], t[2], t[3], [lib] + t[4]))] if rc]
    for t, out in bad:
        print("link failed:\n" + "\n".join(out.splitlines()[:40]))
        raise SystemExit(2)
    return d, md


def others(d, pbdir, md, env):
    """Compiles what else of the tree compiles, without programs and tests, into an archive."""
    srcs = [p for g in ("*.cc", "util/*.cc", "util/*/*.cc") for p in sorted(glob.glob(os.path.join(REPO, g)))]
    srcs = [p for p in srcs if not p.endswith(("_test.cc", "_test_utils.cc")) and not re.search(r"^int main\(", open(p, errors="replace").read(), re.M)]
    srcs += [os.path.join(pbdir, x) for x in PB.values()]
    od = os.path.join(d, "others"); os.makedirs(od, exist_ok=True)
    fl = flags_for(md["MODE"], pbdir, md["FLAGS"].split())
    objs = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for o, (_, rc, _) in zip([os.path.join(od, "%d.o" % i) for i in range(len(srcs))], ex.map(lambda a: compile_one(a[1], os.path.join(od, "%d.o" % a[0]), fl, env), enumerate(srcs))):
            if rc == 0: objs.append(o)
    lib = os.path.join(d, "libothers.a")
    if os.path.exists(lib): os.remove(lib)
    sh(["ar", "rcs", lib] + objs)
    return lib


def known(prop):
    ids = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            g = re.match(r"known: property=(\S+) id=(\S+)", line)
            if g and g.group(1) == prop: ids.append(g.group(2))
    return ids


def main():
    prop = sys.argv[1]
    t0 = time.time()
    d, md = build(prop)
    tb = time.time() - t0
    if "--build" in sys.argv:
        return 0
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    stats = os.path.join(d, "stats.json")
    if os.path.exists(stats): os.remove(stats)
    env = dict(os.environ, PBT_STATS=stats, PBT_REPLAYS=os.path.join(VERIF, "replays"), PBT_KNOWN=" ".join(known(prop)), PBT_BIN=d, VERIF_TIER=tier, VERIF_SEED=str(seed), PBT_REPO=REPO, PBT_VERIF=VERIF)
    os.makedirs(env["PBT_REPLAYS"], exist_ok=True)
    exe = os.path.join(d, "check")
    if "--replay" in sys.argv:
        return subprocess.call([exe, "--replay", sys.argv[sys.argv.index("--replay") + 1]], env=env)
    sys.stdout.flush()
    rc = subprocess.call([exe], env=env)
    if not os.path.exists(stats):
        print("the check left no statistics (exit %d)" % rc)
        return rc if rc not in (0, 1) else 2
    s = json.load(open(stats))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": md["LEVEL"],
          "coverage": {"evaluations": s["evaluations"], "distinct_nontrivial": s["distinct_nontrivial"], "rule": s["rule"], "samples": s["samples"] or ["(none)"],
                       "sub_properties": s["sub_properties"], "discarded": s["discarded"]},
          "assumptions": s["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": s["violations"]}
    ev["coverage"]["build_s"] = round(tb, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if rc == 0 and s["distinct_nontrivial"] == 0:
        print("no non-trivial case was generated"); return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
