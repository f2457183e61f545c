#!/usr/bin/env python3
"""Run the monitors of one property against /repo's current working tree.

usage: check.py PROPERTY [quick|thorough]      (default: $VERIF_TIER or quick)

exit 0  property held on everything observed
exit 1  violated: prints "VIOLATION property=<id> replay=<path>"
exit 3  the check itself could not give an answer (build failure, harness error)
"""
import os, sys, json, time, subprocess, shutil, signal, re, threading, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import build as B
from spec import SPEC, DEFAULT_RULE

CASE_HANG = 150        # seconds without progress on one case before it is re-run as a suspected hang

def log(*a): print(*a, file=sys.stderr, flush=True)

def san_env(extra=None):
    e = dict(B.ENV)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:halt_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_segv=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    e["OCAMLRUNPARAM"] = "b"
    if extra: e.update(extra)
    for k in ("VERIF_SCALE", "VERIF_SKIP"):
        if k in os.environ: e[k] = os.environ[k]
    return e

class Run:
    """One shard of one variant."""
    def __init__(self, prop, tier, seed, variant, shard, nsh, exe, outdir, env, only=None):
        self.__dict__.update(locals()); del self.__dict__["self"]
        self.viol = []; self.err = None; self.res = None; self.hang = None
    def cmd(self, fam=None, case=None):
        c = [self.exe, self.prop, self.tier, str(self.seed), str(self.shard), str(self.nsh), self.outdir, "1e9"]
        if fam is not None: c.append(fam)
        if case is not None: c.append(str(case))
        return c
    def status(self):
        try:
            s = open(os.path.join(self.outdir, "%d.status" % self.shard), "rb").read().split(b"\0")[0].decode()
            f, c = s.rsplit(" ", 1); return f, int(c)
        except Exception: return None, None
    def go(self):
        for suffix in (".json", ".status", ".keys"):
            try: os.unlink(os.path.join(self.outdir, str(self.shard) + suffix))
            except OSError: pass
        fam, case = self.only or (None, None)
        errf = os.path.join(self.outdir, "%d.stderr" % self.shard)
        with open(errf, "wb") as ef:
            p = subprocess.Popen(self.cmd(fam, case), cwd=self.outdir, env=self.env, stdin=subprocess.DEVNULL,
                                 stdout=ef, stderr=ef, start_new_session=True)
            last, since = None, time.time()
            while True:
                try: p.wait(timeout=0.5); break
                except subprocess.TimeoutExpired: pass
                st = self.status()
                if st != last: last, since = st, time.time()
                if time.time() - since > CASE_HANG:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except OSError: pass
                    p.wait(); self.hang = last; return
        rc = p.returncode
        err = open(errf, "rb").read().decode("utf-8", "replace")
        js = os.path.join(self.outdir, "%d.json" % self.shard)
        if rc == 0 and os.path.exists(js):
            self.res = json.load(open(js))
            if self.res["harness_error"]: self.err = self.res["harness_error"]
            for v in self.res["violations"]: self.viol.append((v["family"], v["case"], v["msg"]))
            if self.res["truncated"]: self.err = "truncated"
            return
        fam, case = self.status()
        if "HARNESS-ERROR" in err or rc == 3 or fam is None:
            self.err = "monitor process failed (exit %s): %s" % (rc, err[-1500:]); return
        if "failed to allocate" in err or "ReserveShadowMemoryRange" in err or "Out_of_memory" in err or "Out of memory" in err:
            self.err = "out of memory or mappings: %s" % err[-600:]; return
        if rc == -signal.SIGKILL:
            self.err = "monitor process was killed (out of memory?)"; return
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|MONITOR: [^\n]*|Fatal error[^\n]*)", err)
        what = m.group(1) if m else ("process died with signal %d" % -rc if rc < 0 else "process exited with code %d" % rc)
        frames = [l.strip() for l in err.splitlines() if re.match(r"\s+#\d+ ", l)][:6]
        self.viol.append((fam, case, "%s%s" % (what, (" | " + " | ".join(frames)) if frames else "")))
        if rc == 2 and not m: self.viol[-1] = (fam, case, what + ": " + err[-400:])

def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in SPEC: log("unknown property", prop); return 3
    sp = SPEC[prop]
    t0 = time.time()
    evid = os.path.join(HERE, "evidence"); os.makedirs(evid, exist_ok=True)
    repl = os.path.join(HERE, "replays"); os.makedirs(repl, exist_ok=True)
    try:
        for f in os.listdir(repl):
            if f.startswith(prop + "-"): os.unlink(os.path.join(repl, f))
    except OSError: pass
    variants = sp["variants"] if tier == "quick" else sp.get("thorough_variants", sp["variants"])
    exes, berr = {}, []
    def bld(v):
        try: exes[v] = B.build(v)
        except B.BuildError as e: berr.append("%s: %s" % (v, e))
    ts = [threading.Thread(target=bld, args=(v,)) for v in dict.fromkeys(x.split(":")[0] for x in variants)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if berr:
        log("BUILD-ERROR", berr[0]); return 3
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=B.BUILD)
    runs = []
    nsh = sp.get("shards", 8)
    for v in variants:
        vv = v.split(":")[0]
        extra = dict(sp.get("env", {}))
        if v == variants[0]: extra["VERIF_FIRST"] = "1"      # the huge, slow cases run in one variant only
        if ":" in v: extra.update(x.split("=", 1) for x in v.split(":")[1].split(","))
        od = os.path.join(work, v.replace(":", "_").replace("=", "-").replace(",", "_")); os.makedirs(od)
        for s in range(nsh):
            runs.append(Run(prop, tier, seed, v, s, nsh, exes[vv], od, san_env(extra)))
    # a pool of 8 workers over all shards of all variants
    q = list(runs); lock = threading.Lock()
    def worker():
        while True:
            with lock:
                if not q or any(x.hang for x in runs): return
                r = q.pop(0)
            try: r.go()
            except Exception as e: r.err = "driver: %r" % e
    ths = [threading.Thread(target=worker) for _ in range(sp.get("jobs", 8))]
    [t.start() for t in ths]; [t.join() for t in ths]
    # suspected hangs: run the same case again, alone
    confirmed = False
    for r in runs:
        if confirmed: break
        if r.hang and r.hang[0]:
            r2 = Run(prop, tier, seed, r.variant, r.shard, r.nsh, r.exe, r.outdir, r.env, only=r.hang)
            r2.go()
            if r2.hang: confirmed = True; r.viol.append((r.hang[0], r.hang[1], "no progress for %d s, twice" % CASE_HANG))
            elif r2.viol: r.viol += r2.viol
            else: r.err = "case %s %s took more than %d s once (inconclusive)" % (r.hang[0], r.hang[1], CASE_HANG)
        elif r.hang: r.err = "no progress"
    viols = [(r, f, c, m) for r in runs for (f, c, m) in r.viol]
    errs = [r.err for r in runs if r.err]
    if not viols and q: errs.append("some shards were not run")
    extra_cov = {}
    if sp.get("post") and not viols and not errs:
        import posts
        pv, pe, extra_cov = getattr(posts, sp["post"])(runs, tier, seed, exes, work)
        viols += pv; errs += pe
    # merge
    keys, evals, cases, samples, events = set(), 0, 0, [], {}
    per_variant = {}
    for r in runs:
        if not r.res: continue
        evals += r.res["evals"]; cases += r.res["cases"]
        per_variant[r.variant] = per_variant.get(r.variant, 0) + r.res["evals"]
        for k, n in r.res["events"].items(): events[k] = events.get(k, 0) + n
        samples += r.res["samples"][:3]
        try: keys.update(open(os.path.join(r.outdir, "%d.keys" % r.shard)).read().split())
        except OSError: pass
    events = {k: n for k, n in sorted(events.items()) if n}
    if extra_cov.get("evaluations"): evals += extra_cov.pop("evaluations")
    distinct = len(keys) + extra_cov.pop("distinct", 0)
    samples = (extra_cov.pop("samples", []) + samples)
    known = known_findings(prop)
    rc = 0; nv = 0; shown = set(); nk = 0
    for i, (r, f, c, m) in enumerate(viols):
        hit = next((d for rx, d in known if rx.search(m)), None)
        if hit:
            if hit not in shown: print("KNOWN-FINDING: property=%s %s" % (prop, hit)); shown.add(hit)
            nk += 1; continue
        nv += 1
        if nv <= 5:
            path = os.path.join(repl, "%s-%d.txt" % (prop, nv))
            with open(path, "w") as fo:
                fo.write("property %s violated\nvariant: %s\nfamily: %s case: %s seed: %d tier: %s\nobserved: %s\n" % (prop, r.variant if r else "-", f, c, seed, tier, m))
                if r: fo.write("replay: cd /verif && python3 harness/build.py %s && env %s %s\n" % (
                    r.variant.split(":")[0], " ".join("%s=%s" % (k, r.env[k]) for k in ("OCAMLRUNPARAM", "ASAN_OPTIONS", "VERIF_FIRST", "VERIF_CPU_OFF") if k in r.env),
                    " ".join([r.exe.replace(HERE, "/verif"), prop, tier, str(seed), "0", "1", "/tmp", "1e9", str(f), str(c)])))
                errf = os.path.join(r.outdir, "%d.stderr" % r.shard) if r else ""
                if errf and os.path.exists(errf): fo.write("\nstderr:\n" + open(errf, errors="replace").read()[-6000:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s/%s: %s" % (r.variant if r else "-", f, c, m[:600]))
        rc = 1
    minev = sp.get("min_events", {})
    if rc == 0 and not errs:
        for k, n in minev.items():
            if events.get(k, 0) < n: errs.append("monitor observed too little: %s=%d (<%d)" % (k, events.get(k, 0), n))
        if evals == 0: errs.append("no evaluation was made")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": sp.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": sp.get("rule", DEFAULT_RULE),
                       "samples": samples[:12], "cases": cases, "per_variant_evaluations": per_variant,
                       "observed_events": events, **extra_cov},
          "assumptions": sp.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": nv}
    if nk: ev["coverage"]["known_finding_hits"] = nk
    tmp = os.path.join(evid, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evid, prop + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    if rc == 0 and errs:
        log("CHECK-ERROR", errs[0]); return 3
    print("%s %s: %d evaluations, %d distinct, %d violations, build %.1fs total %.1fs" % (prop, tier, evals, distinct, nv, tb, time.time() - t0))
    return rc

if __name__ == "__main__":
    sys.exit(main())
