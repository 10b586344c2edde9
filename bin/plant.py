#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE.py : (development aid) FILE.py defines EDITS=[(path, old, new)], DEMO (rust main), NEEDS, BREAKS.
Writes seeded/ID, applies it to /repo, builds, runs the stable tests and the demo, runs the quick check, undoes it, runs the demo again."""
import sys, os, subprocess, json, re
V = "/verif"
ident, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = f"{V}/seeded/{ident}"
os.makedirs(d, exist_ok=True)
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
try:
    for p, a, b in ns["EDITS"]:
        f = "/repo/" + p
        t = open(f).read()
        assert t.count(a) == 1, (p, t.count(a), a)
        ORIG = sh("git -C /repo show 9de3416:" + p).stdout
        import difflib
        for l in [l[2:] for l in difflib.ndiff(a.splitlines(), b.splitlines()) if l.startswith("- ")]:
            print("" if l in ORIG else "NOT ORIGINAL: " + l)
        open(f, "w").write(t.replace(a, b))
    diff = sh("git -C /repo diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    if ns["DEMO"]:
        open(d + "/demo.rs", "w").write(ns["DEMO"])
    open(d + "/demo.sh", "w").write(ns.get("DEMO_SH") or open(V + "/bin/demo.tmpl").read())
    b = sh("bash /opt/vp/build.sh")
    print("build", b.returncode); 
    if b.returncode: print(b.stdout[-2000:]); raise SystemExit
    print(sh("bash /verif/bin/basetest.sh").stdout.strip().splitlines()[-1])
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("demo with bug:", r.returncode, r.stdout.strip()[-300:])
    r = sh(f"python3 bin/check.py {prop} --tier quick", cwd=V)
    print("check:", r.returncode, [l[:260] for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")][-12:])
finally:
    sh("git -C /repo checkout -- .")
r = sh(f"bash {d}/demo.sh", cwd="/repo")
print("demo clean:", r.returncode, r.stdout.strip()[-300:])
