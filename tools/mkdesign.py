"""Fills the tables of DESIGN.md (between `<!-- x -->` and `<!-- /x -->`) from evidence/, tools/fixes.txt and seeded/."""
import glob
import json
import os
import re
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [f"C{i:02d}" for i in range(1, 26)]


def table():
    out = ["| id | functions under contract | obligations | bounded | s |", "|----|--------------------------|------------:|--------:|--:|"]
    for i in ids:
        c = json.load(open(f"{V}/evidence/{i}.json"))
        w, c = c["wall_s"], c["coverage"]
        fs = {}
        for f in c["functions_under_contract"]:
            m, n = f.split(":")
            fs.setdefault(m.replace("swiftsimio.", ""), []).append(n.split(".")[-1] if m.endswith("objects") else n)
        txt = "; ".join(f"{m}: " + ", ".join(f"`{n}`" for n in sorted(set(v))) for m, v in sorted(fs.items()))
        if len(txt) > 900:
            txt = "; ".join(f"{m}: {len(set(v))} functions" for m, v in sorted(fs.items()))
        out.append(f"| {i} | {txt} | {c['discharged']}/{c['obligations']} | {c['bounded_obligations']} | {w:.0f} |")
    return out


def fixes():
    by = {}
    for l in open(f"{V}/tools/fixes.txt"):
        if l.strip() and not l.startswith("#"):
            h, ps = l.split()
            s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", h], capture_output=True, text=True).stdout.strip()
            for p in ps.split(","):
                by.setdefault(p, []).append(f"{re.sub('^fix: *', '', s)} (`{h}`)")
    return [f"* **{p}** ({len(by[p])}): " + "; ".join(by[p]) + "." for p in sorted(by)]


def bugs():
    out = ["| change | property | what it breaks | needs |", "|--------|----------|----------------|-------|"]
    for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
        m = json.load(open(d))
        out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    return out


p = f"{V}/DESIGN.md"
s = open(p).read()
for n, f in (("table", table), ("fixes", fixes), ("bugs", bugs)):
    a, b = f"<!-- {n} -->", f"<!-- /{n} -->"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(f()) + "\n" + s[j:]
open(p, "w").write(s)
