#!/usr/bin/env python3
"""mutate.py OUT SEED COUNT [FILES...]: (development aid) random small changes to /repo that survive the stable tests, replayed against the
quick vectors kept under /verif/work/*-quick; run it in a private mount namespace (see nsplant.sh) on copies of /repo and /verif."""
import sys, os, re, random, subprocess, json, glob, time
OUT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:] or [f for f in glob.glob("/repo/src/**/*.rs", recursive=True)] 
rnd = random.Random(SEED)
sys.path.insert(0, "/verif/bin")
import suites as S, check as C
def sh(c, t=600, **k):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = "timeout"
        return R
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b(\d+)\b", ["+1", "-1"]), (r"\b0x[0-9a-fA-F_]+\b", ["^1"]),
       (r"\bcontinue;", ["break;"]), (r"\bbreak;", ["continue;"]), (r"if !", ["if "]), (r"\bsaturating_sub\(", ["wrapping_sub("]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
       (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]), (r"\.find\(", [".filter("]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]), (r"\bis_empty\(\)", ["is_empty() == false"]),
       (r"\.\.=", [".."]), (r"u32::from", ["u32::from"]), (r" as u16", [" as u8 as u16"]), (r" as u32", [" as u16 as u32"]), (r"\bbig_endian|be_u", ["le_u"])]
# the second set (MUT_SET=2): conditions, chains, arms, literals
OPS2 = [(r"(?<=\bif )(?!let\b).+(?= \{$)", ["T", "F"]), (r"\.any\(", [".all("]), (r"\.all\(", [".any("]), (r"\.rev\(\)", [""]), (r"(?<=[\w\)])\.\.(?=[\w\(])", ["..="]), (r"\.or_else\(", [".and_then("]),
        (r"\bSome\((\w+)\)$", ["None"]), (r'(?<=")[^"\\{}]+(?=")', ["mut"]), (r"\?;$", [".ok();"]), (r"\breturn .+;$", ["// deleted"]), (r"\.saturating_add\(", [".wrapping_add("]), (r"\.chain\(.*\)$", [""]),
        (r"\.cloned\(\)\.or\(.*\)", [".cloned()"]), (r" as i(8|16|32|64)\b", [" as u8 as i64"]), (r"\bi16\b", ["u16"]), (r"\bi32\b", ["u32"]), (r"\bi8\b", ["u8"]), (r"\bu16\b", ["i16"]), (r"\bu8\b", ["i8"]),
        (r"LittleEndian|Endianness::Little", ["X"]), (r"\bstreaming\b", ["complete"]), (r"\bcomplete\b", ["streaming"]), (r"\.trim_end_matches\(.*?\)", [""]), (r"\.trim\(\)", ["", ".trim_start()"]), (r"\.take\(", [".skip("]), (r"\.skip\(", [".take("])]
def code_lines(t):
    i = t.find("#[cfg(test)]\nmod")
    return t if i < 0 else t[:i]
def sites2():
    r = []
    for f in files:
        off = 0
        for l in code_lines(open(f).read()).split("\n"):
            s = l.strip()
            if s and not s.startswith(("//", "#", "use ", "tracing::", "message", "kind:", "assert", "pub use", "mod ", "context:")) and "tracing" not in l and "format!" not in l and "Error" not in l and "context" not in l:
                for p, reps in OPS2:
                    for m in re.finditer(p, l):
                        for rep in reps:
                            x = m.group(0)
                            new = "(" + x + ") || true" if rep == "T" else "(" + x + ") && false" if rep == "F" else (x[:-1] + chr(ord(x[-1]) ^ 1)) if rep == "mut" else x.replace("Little", "Big") if rep == "X" else rep
                            if new != x: r.append((f, off + m.start(), x, new))
                # a link of a call chain, or a match arm
                if re.match(r"^\s*\.\w+\(.*\)\??$", l) or re.match(r"^\s*[^=]+ => .*,$", l): r.append((f, off, l, re.match(r"\s*", l).group(0) + "// deleted"))
            off += len(l) + 1
    return r
def sites():
    if os.environ.get("MUT_SET") == "2": return sites2()
    r = []
    for f in files:
        t = code_lines(open(f).read())
        off = 0
        for l in t.split("\n"):
            s = l.strip()
            if s and not s.startswith(("//", "#", "use ", "tracing::", "message", "kind:", "assert", "pub use", "mod ", "const fn")) and "tracing" not in l and '"' not in l:
                for p, reps in OPS:
                    for m in re.finditer(p, l):
                        for rep in reps:
                            x = m.group(0)
                            if rep in ("+1", "-1"):
                                if l[m.start() - 1:m.start()] in ("_", ".") or x.startswith("0") and len(x) > 1: continue
                                n = int(x) + int(rep)
                                if n < 0: continue
                                new = str(n)
                            elif rep == "^1":
                                new = hex(int(x.replace("_", ""), 16) ^ 1)
                            else: new = rep
                            if new != x: r.append((f, off + m.start(), x, new))
                if re.match(r"^\s*[\w\.\*\[\]]+(\.\w+\(.*\)|\s*[\+\-]?=\s.*);$", l) and not s.startswith("let"):
                    r.append((f, off, l, re.match(r"\s*", l).group(0) + "// deleted"))
            off += len(l) + 1
    return r
base = json.load(open("/opt/vp/BASELINE.json"))
REL = {"jpeg": "C07 C22 C11", "png": "C08 C16", "heif": "C09", "bbox": "C09 C20 C10", "iloc": "C09", "meta": "C09", "infe": "C09", "iinf": "C09", "cr3": "C10", "raf": "C11", "mov": "C20", "webm": "C21", "vint": "C21", "element": "C21", "gps": "C18", "values": "C13 C19 C25 C17",
       "exif_iter": "C12 C13 C14 C15 C17", "exif_exif": "C16 C12", "tags": "C24", "video": "C20 C21 C24", "parser": "C01 C02 C03 C04 C23", "parser_async": "C01 C02 C03 C23", "file": "C06", "travel": "C12 C01", "exif": "C01 C22 C07", "slice": "C13"}
def order(f):
    b = os.path.basename(f)[:-3]
    first = REL.get(b, "").split()
    rest = [p for p in ["C05", "C01", "C12", "C20", "C09", "C23", "C02", "C03", "C22"] if p not in first]
    return first + rest + [p for p in sorted(S.SUITES) if p not in first and p not in rest]
env = C.env0()
log = open(OUT, "a")
def say(**k):
    log.write(json.dumps(k) + "\n"); log.flush()
all_sites = sites()
rnd.shuffle(all_sites)
done = 0
for f, at, old, new in all_sites:
    if done >= COUNT: break
    t = open(f).read()
    assert t[at:at + len(old)] == old
    open(f, "w").write(t[:at] + new + t[at + len(old):])
    ln = t[:at].count("\n") + 1
    who = dict(file=f[6:], line=ln, old=old.strip(), new=new.strip(), text=t.split("\n")[ln - 1].strip()[:140])
    try:
        if sh("cargo check --offline --all-features", cwd="/repo", env=env).returncode:
            continue
        done += 1
        r = sh("bash /opt/vp/test.sh /tmp/out.json", 300)
        try:
            o = json.load(open("/tmp/out.json"))
            os.remove("/tmp/out.json")
            gs = lambda x: {k for k, v in x.items() if v in ("pass", "passed", True)} if isinstance(x, dict) else set(x)
            pick = lambda x: next((x[k] for k in ("passed", "stable", "pass", "tests") if isinstance(x, dict) and k in x), x)
            lost = gs(pick(base)) - gs(pick(o))
        except Exception:
            lost = {"?"}
        if lost:
            say(killed="tests", **who); continue
        r = sh("cargo build --offline --quiet", 600, cwd="/verif/harness", env=env)
        if r.returncode: say(killed="harness build", **who); continue
        hit, t0 = None, time.time()
        for p in order(f):
            for s in S.SUITES[p]["quick"]:
                vec = f"/verif/work/{p}-quick/{s['name']}/vectors.nd"
                if not os.path.exists(vec) or s.get("tool"): continue
                e = dict(env); e.update(s.get("env", {})); e.update(NXH_TRACE_DIR="/tmp", VERIF_SEED="1", NXH_KEYS=s.get("keys") or S.KEYS.get(p) or "kind,exif,track,imeta")
                kn = [json.loads(l)["match"] for l in open("/verif/known-findings.jsonl") if l.startswith("{")]
                json.dump(kn, open("/tmp/known.json", "w")); e["NXH_KNOWN"] = "/tmp/known.json"
                r = sh(f"target/debug/nxh run {vec} /tmp/rep.json 4 20", 400, cwd="/verif/harness", env=e)
                try: R = json.load(open("/tmp/rep.json")); os.remove("/tmp/rep.json")
                except Exception: R = {"violations": [{"result": {"viol": "no report: " + r.stdout[-200:]}}]}
                if R["violations"]:
                    v = R["violations"][0]["result"]
                    hit = (p, s["name"], str(v.get("viol") or v)[:200]); break
            if hit: break
        say(killed=hit[0] if hit else None, by=hit, secs=round(time.time() - t0), **who)
    finally:
        open(f, "w").write(t)
