#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property (from the harness and the records), tools/design_tail.md."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import check
NOTES = json.load(open(V + "/tools/design_notes.json"))
CAUGHT = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
def strings(body): return re.findall(r'"((?:[^"\\]|\\.)*)"', body)
def balanced(text, i):
    d = 0; q = False; j = i
    while j < len(text):
        ch = text[j]
        if q:
            if ch == "\\": j += 1
            elif ch == '"': q = False
        elif ch == '"': q = True
        elif ch == "{": d += 1
        elif ch == "}":
            d -= 1
            if d == 0: return text[i:j + 1]
        j += 1
    return ""
findings = {}
for l in open(V + "/known_findings.txt"):
    g = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if g: findings.setdefault(g.group(1), []).append("repaired (%s): %s" % (g.group(2), g.group(3)))
    g = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
    if g: findings.setdefault(g.group(1), []).append("known finding `%s`: %s" % (g.group(2), g.group(3)))
seeds = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); sid = os.path.basename(os.path.dirname(m)); seeds.setdefault(d["property"], []).append((sid, d))
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## The properties", ""]
for line in open(V + "/properties.jsonl"):
    p = json.loads(line); i = p["id"]; f = "%s/harness/%s.cc" % (V, i); md = check.metadata(f); text = open(f).read()
    out.append("### %s — %s" % (i, p["title"])); out.append("")
    out.append("*Method.* " + md["TECHNIQUE"][0].upper() + md["TECHNIQUE"][1:] + ".")
    if i in NOTES: out.append("*Oracle and generators.* " + NOTES[i])
    k = text.find("su.subs"); subs = []
    if k >= 0:
        body = balanced(text, text.index("{", k))
        for n, q, t in re.findall(r'\{"(\w+)",\s*[^{}]*?,\s*(\d+),\s*(\d+)\}', body): subs.append("`%s` %s / %s" % (n, format(int(q), ","), format(int(t), ",")))
    if subs: out.append("*Cases, quick / thorough.* " + ", ".join(subs) + ".")
    g = re.search(r'su\.rule = "((?:[^"\\]|\\.)*)"', text)
    if g: out.append("*Non-trivial:* " + g.group(1) + ".")
    k = text.find("su.assumptions")
    if k >= 0:
        a = strings(balanced(text, text.index("{", k)))
        if a: out.append("*Assumptions:* " + "; ".join(a) + ".")
    if md["LEVEL_NOTE"]: out.append("*Level:* " + md["LEVEL_NOTE"])
    for x in findings.get(i, []): out.append("- Defect, " + x + ".")
    for sid, d in seeds.get(i, []): out.append("- Planted `%s`: %s; needs %s. Caught by %s." % (sid, d["what_it_breaks"], d["needs"], CAUGHT.get(sid, i)))
    out.append("")
out.append(open(V + "/tools/design_tail.md").read().rstrip())
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n"); print(len(out), "lines")
