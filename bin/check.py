#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SUITE]

Decides one property: builds the conformance harness against /repo's working
tree, lets TLC explore the specification modules of the property (invariants
checked on every state, one conformance vector per terminal state), replays the
vectors into the real library, and validates recorded traces with TLC where the
suite has a trace specification. Exit 0 held / 1 VIOLATION / 2 tool error.
"""
import argparse, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import suites as S

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class ToolError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build(env, extra=None):
    src = os.path.join(V, "harness")
    r = sh(["cargo", "build", "--offline", "--quiet"], cwd=src, env=env)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    return os.path.join(src, "target", "debug", "nxh")

def build_tool(env):
    """the rexiftool binary of /repo's tree"""
    out = os.path.join(V, "harness", "target", "tool")
    r = sh(["cargo", "build", "--offline", "--quiet", "-p", "rexiftool", "--manifest-path", "/repo/Cargo.toml", "--target-dir", out], cwd="/repo", env=env)
    if r.returncode != 0:
        raise ToolError("rexiftool build failed:\n" + r.stdout[-4000:])
    return os.path.join(out, "debug", "rexiftool")

def env0():
    e = dict(os.environ)
    e.update(HOME=os.environ.get("HOME", "/root"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0", TZ="UTC",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_LOG", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e

def make_cfg(base, over, out):
    text = open(os.path.join(V, "spec", base + ".cfg")).read()
    for k, val in over.items():
        op = "" if val.startswith("<-") else "= "
        text, n = re.subn(r"(?m)^(\s*%s\s*)(=|<-).*$" % re.escape(k), lambda m: m.group(1) + op + val, text)
        if n == 0:
            raise ToolError(f"constant {k} not in {base}.cfg")
    open(out, "w").write(text)

def tlc(module, cfgfile, out, meta, seed, sim=None, depth=None, timeout=600, heap="3g", extra_env=None):
    e = env0()
    if out:
        e["NX_OUT"] = out
    if extra_env:
        e.update(extra_env)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
           "-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-config", cfgfile]
    if sim:
        cmd += ["-simulate", f"num={sim}", "-depth", str(depth or 100)]
    cmd += ["-seed", str(seed)]
    cmd += [module + ".tla"]
    try:
        r = sh(cmd, cwd=os.path.join(V, "spec"), env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {module}")
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", r.stdout)
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m[-1])
    else:
        m = re.findall(r"number of states generated: ([\d,]+)", r.stdout)
        gen = int(m[-1].replace(",", "")) if m else 0
        dist = gen
    return r.returncode, r.stdout, gen, dist

class Check:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.work = os.path.join(V, "work", f"{prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.rows, self.viols, self.samples = [], [], []
        self.tot = dict(states=0, transitions=0, traces=0, calls=0)
        kf = os.path.join(V, "known-findings.jsonl")
        self.known = [json.loads(l) for l in open(kf) if l.startswith("{")] if os.path.exists(kf) else []
        self.known = [k for k in self.known if k.get("property") == prop and "match" in k]
        self.known_hit = {}

    def suite(self, s):
        name = s["name"]
        d = os.path.join(self.work, name)
        os.makedirs(d)
        vec = os.path.join(d, "vectors.nd")
        over = dict(s.get("over", {}))
        if "SEED" in over:
            over = {("Seed" if k == "SEED" else k): (str(self.seed) if k == "SEED" else v) for k, v in over.items()}
        make_cfg(s["cfg"], over, os.path.join(d, "m.cfg"))
        t = time.time()
        rc, log, gen, dist = tlc(s["module"], os.path.join(d, "m.cfg"), vec, os.path.join(d, "meta"),
                                 self.seed, s.get("sim"), s.get("depth"), s.get("timeout", 700), s.get("heap", "3g"), s.get("tlcenv"))
        open(os.path.join(d, "tlc.log"), "w").write(log)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if rc != 0:
            # the specification itself is wrong: not a statement about the code
            raise ToolError(f"TLC failed on {name} (rc {rc}):\n" + log[-3000:])
        if not os.path.exists(vec):
            raise ToolError(f"{name}: the specification produced no vectors")
        t1 = time.time()
        with self.lock:
            rep = os.path.join(d, "report.json")
            e = env0(); e.update(s.get("env", {}))
            e["NXH_TRACE_DIR"] = d
            if self.tool:
                e["NXH_TOOL"] = self.tool
            e["VERIF_SEED"] = str(self.seed)
            e["NXH_KEYS"] = s.get("keys") or S.KEYS.get(self.prop) or "kind,exif,track,imeta"
            args = [self.nxh, "run", vec, rep, str(s.get("jobs", 8)), str(s.get("per", 60))]
            if self.known:
                kfile = os.path.join(d, "known.json")
                json.dump([k["match"] for k in self.known], open(kfile, "w"))
                e["NXH_KNOWN"] = kfile
            r = sh(args, env=e)
            if r.returncode != 0 or not os.path.exists(rep):
                raise ToolError(f"harness failed on {name}: {r.stdout[-2000:]}")
            R = json.load(open(rep))
        for v in R["violations"]:
            if v["result"].get("tool"):
                raise ToolError(f"{name}: {v['result']['tool']}")
            self.viols.append((name, v))
        for k in R.get("known", []):
            self.known_hit[json.dumps(k["match"], sort_keys=True)] = k
        tv = R["passed"]
        if s.get("trace"):
            tv += self.trace(s, d, R)
        row = dict(suite=name, module=s["module"], mode="simulate" if s.get("sim") else "exhaustive", states=dist,
                   transitions=gen, vectors=R["vectors"], passed=R["passed"], impl_calls=R["impl_calls"],
                   tlc_s=round(t1 - t, 1), replay_s=round(time.time() - t1, 1))
        self.rows.append(row)
        self.tot["states"] += dist
        self.tot["transitions"] += gen
        self.tot["traces"] += tv
        self.tot["calls"] += R["impl_calls"]
        if R.get("samples"):
            self.samples.extend({"suite": name, **x} for x in R["samples"][:2])
        if R["vectors"] < s.get("min", 1):
            raise ToolError(f"{name}: only {R['vectors']} vectors")
        if not R["violations"] and not os.environ.get("NXH_KEEP"):
            os.remove(vec)

    def trace(self, s, d, R):
        """traces recorded from the implementation, checked against a trace spec"""
        t = s["trace"]
        f = os.path.join(d, "trace.nd")
        parts = sorted(x for x in os.listdir(d) if x.startswith("trace-"))
        n = 0
        with open(f, "w") as o:
            for p in parts:
                for l in open(os.path.join(d, p)):
                    o.write(l); n += 1
                os.remove(os.path.join(d, p))
        if n == 0:
            if R["violations"]:
                return 0
            raise ToolError(f"{s['name']}: no traces recorded")
        make_cfg(t["cfg"], t.get("over", {}), os.path.join(d, "t.cfg"))
        rc, log, gen, dist = tlc(t["module"], os.path.join(d, "t.cfg"), None, os.path.join(d, "meta"), self.seed,
                                 extra_env={"NX_TRACE": f}, timeout=700, heap="6g")
        open(os.path.join(d, "trace.log"), "w").write(log)
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        self.tot["states"] += dist
        self.tot["transitions"] += gen
        if rc == 0:
            os.remove(f)
            return n
        if rc in (12, 13, 10, 11, 14) and re.search(r"REJECTED (\d+)|is violated|[Pp]ost.?condition", log):
            m = re.search(r"REJECTED[^\d]*(\d+)", log)
            i = int(m.group(1)) if m else 0
            line = open(f).read().splitlines()[max(i - 1, 0)]
            self.viols.append((s["name"], {"i": i, "result": {"viol": "recorded trace is not a behaviour of " + t["module"]},
                                           "vector": json.loads(line)}))
            return n
        raise ToolError(f"trace check failed (rc {rc}) on {s['name']}:\n" + log[-3000:])

    def run(self):
        todo = S.SUITES[self.prop][self.tier]
        if self.only:
            todo = [s for s in todo if s["name"] == self.only]
        e = env0()
        with ThreadPoolExecutor(max_workers=1) as bx:
            self.tool = None
            def both():
                n = build(e)
                if any(s.get("tool") for s in todo):
                    self.tool = build_tool(e)
                return n
            fb = bx.submit(both)
            self.nxh = None
            self.lock.acquire()       # replay waits for the build
            ex = ThreadPoolExecutor(max_workers=6)
            fs = [ex.submit(self.suite, s) for s in todo]
            try:
                self.nxh = fb.result()
            finally:
                self.lock.release()
                if self.nxh is None:
                    self.nxh = "/bin/false"
            ex.shutdown(wait=True)
        errs = [f.exception() for f in fs if f.exception()]
        self.report(errs)
        if self.viols:
            return 1
        if errs:
            for x in errs:
                print(f"ERROR: {x}", file=sys.stderr)
            return 2
        return 0

    def report(self, errs):
        ev = os.path.join(V, "evidence")
        os.makedirs(ev, exist_ok=True)
        lv = S.LEVEL.get(self.prop, "model_checking")
        cov = dict(states=self.tot["states"], transitions=self.tot["transitions"],
                   traces_validated_against_impl=self.tot["traces"], impl_calls=self.tot["calls"],
                   samples=self.samples[:12] or [{"note": "no vector replayed"}],
                   suites=sorted(self.rows, key=lambda r: r["suite"]),
                   exhaustive=all(r["mode"] == "exhaustive" for r in self.rows) and not errs)
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=lv, coverage=cov,
                       assumptions=S.ASSUME.get(self.prop, S.ASSUME["*"]),
                       wall_s=round(time.time() - self.t0, 1), violations=len(self.viols)),
                  open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)
        for r in sorted(self.rows, key=lambda r: r["suite"]):
            print(f"  {r['suite']}: {r['states']} states, {r['vectors']} vectors, {r['impl_calls']} library calls"
                  f" ({r['tlc_s']}s + {r['replay_s']}s)")
        for k in self.known:
            h = self.known_hit.get(json.dumps(k["match"], sort_keys=True))
            if h:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rp = os.path.join(V, "work", "replay")
        os.makedirs(rp, exist_ok=True)
        for n, (name, v) in enumerate(self.viols[:5]):
            p = os.path.join(rp, f"{self.prop}-{self.tier}-{n}.json")
            json.dump({"suite": name, **v}, open(p, "w"))
            print(f"  {name}: {v['result'].get('viol', v['result'])!s:.600}")
            print(f"VIOLATION property={self.prop} replay={p}")
        print(f"{self.prop} {self.tier}: {len(self.viols)} violation(s), {self.tot['states']} states, "
              f"{self.tot['traces']} conformance traces, {time.time()-self.t0:.0f}s")

def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?"); a.add_argument("--build-only", action="store_true"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--only")
    a = a.parse_args()
    if a.build_only:
        try:
            build(env0())
            build_tool(env0())
        except ToolError as x:
            print(x, file=sys.stderr); sys.exit(2)
        sys.exit(0)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        c = Check(a.prop, a.tier, seed, a.only)
        rc = c.run()
    except ToolError as x:
        print(f"ERROR: {x}", file=sys.stderr)
        rc = 2
    sys.exit(rc)
if __name__ == "__main__":
    main()
