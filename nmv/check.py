"""What every check shares: arguments, work directories, verdicts, evidence."""
import atexit, json, os, random, shutil, signal, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor
from . import tlc
from .build import build, BuildFailed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p))["findings"] if os.path.exists(p) else []

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.quick = tier != "thorough"
        base = VERIF + "/work"
        os.makedirs(base, exist_ok=True)
        os.chmod(base, 0o755)
        self.wd = tempfile.mkdtemp(prefix=pid + ".", dir=base)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.violations = []
        self.counts = {}
        self.notes = {}
        self.findings = set()
        self.level = "model_checking"
    def time_left(self, budget): return budget - (time.time() - self.t0)
    def cleanup(self): shutil.rmtree(self.wd, ignore_errors=True)
    def violation(self, what, replay):
        d = VERIF + "/replays"
        os.makedirs(d, exist_ok=True)
        p = "%s/%s-%d-%d.json" % (d, self.pid, self.seed, len(self.violations) + 1)
        with open(p, "w") as f: json.dump({"property": self.pid, "what": what, "replay": replay}, f, indent=1, default=str)
        self.violations.append((what, p))
        if len(self.violations) <= 5:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  " + what[:600])
            sys.stdout.flush()
    def finding(self, fid):
        """A known deviation was observed; it must be listed."""
        for k in known():
            if k["id"] == fid and k["property"] == self.pid:
                if fid not in self.findings:
                    self.findings.add(fid)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return True
        return False
    def sample(self, x):
        if len(self.samples) < 4: self.samples.append(str(x)[:400])
    def evidence(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "events": self.events, "by_event": self.counts, "samples": self.samples or ["none"], **self.notes},
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f: json.dump(ev, f, indent=1, default=str)
    # -- model checking of the specification itself
    def model(self, module, cfg, workers=4, timeout=600, heap="4g", args=()):
        rc, out = tlc.tlc(module, cfg, workers=workers, timeout=timeout, wd=self.wd, heap=heap, args=args)
        g, d = tlc.stats(out)
        self.states += d
        self.transitions += g
        if rc != 0: raise tlc.TLCError("the specification itself fails: %s %s\n%s" % (module, cfg, out[-3000:]))
        self.notes.setdefault("models", []).append("%s: %d distinct states" % (cfg, d))
        return out
    # -- traces
    def run_traces(self, fn, jobs, procs=7, timeout=700):
        """jobs: list of argument tuples (picklable); fn(args) -> list of lines, or None.  Returns list of (job, lines)."""
        res = []
        with ProcessPoolExecutor(procs) as ex:
            for job, r in zip(jobs, ex.map(_guard, [(fn, j) for j in jobs], chunksize=1)):
                if isinstance(r, dict) and "error" in r: raise RuntimeError("trace generation failed for %r:\n%s" % (job, r["error"]))
                if r: res.append((job, r))
        return res
    def count(self, lines):
        for ln in lines:
            self.counts[ln["ev"]] = self.counts.get(ln["ev"], 0) + 1
            self.events += 1
    def validate(self, module, cfg, fn, res, jobs=7, per_file=1500, heap="2500m", describe=None):
        """Validates the recorded traces; a rejected one is re-run to confirm."""
        traces = [r for _, r in res]
        if not traces: return
        bad, g = tlc.validate_many(module, cfg, traces, self.wd, jobs=jobs, per_file=per_file, heap=heap)
        self.transitions += g[0]
        self.states += g[1]
        self.traces += len(traces)
        for t in traces: self.count(t)
        for t in traces[:2]: self.sample(" ; ".join(brief(x) for x in t[1:12]))
        for i, n, why in sorted(bad)[:8]:
            job, lines = res[i]
            again = _guard((fn, job))
            if isinstance(again, dict) and "error" in again: again = None
            if again:
                bad2, _ = tlc.validate_many(module, cfg, [again], self.wd, jobs=1, heap=heap)
                if not bad2:
                    again = _guard((fn, job))
                    bad2, _ = tlc.validate_many(module, cfg, [again], self.wd, jobs=1, heap=heap) if again and not isinstance(again, dict) else ([], (0, 0))
                if not bad2:
                    self.notes.setdefault("unconfirmed", []).append(why[:300])
                    continue
                _, n, why = bad2[0]
                lines = again
            what = "trace rejected by %s at step %d (%s): %s" % (module, n, brief(lines[n]) if 0 <= n < len(lines) else "?", why)
            self.violation(what, {"job": job, "step": n, "why": why, "history": [brief(x) for x in lines[1:n + 1]], "trace": lines[:n + 1]})

    def strict_rejects(self, module, cfg, lines):
        bad, g = tlc.validate_many(module, cfg, [lines], self.wd, jobs=1)
        self.transitions += g[0]; self.states += g[1]
        return bool(bad)

def brief(x):
    d = {k: v for k, v in x.items() if k not in ("o", "peek", "contents", "probes", "paths", "dirs", "mids", "cmp")}
    ev = d.pop("ev")
    return ev + "(" + ", ".join("%s=%s" % (k, v) for k, v in d.items())[:200] + ")"

def _guard(a):
    fn, j = a
    try: return fn(*j)
    except Exception: return {"error": traceback.format_exc()}

def main(pid, fn, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv: tier = "thorough"
    if "--quick" in argv: tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(pid, tier, seed)
    rc = 2
    try:
        try:
            c.build = build()
        except BuildFailed as x:
            print("build failed; see %s" % x)
            sys.stdout.write(open(str(x), errors="replace").read()[-2000:])
            return 2
        fn(c)
        c.evidence()
        if c.violations:
            print("%s: %d violation(s) in %.0f s" % (pid, len(c.violations), time.time() - c.t0))
            rc = 1
        else:
            print("%s: held on %d traces, %d events, %d model states in %.0f s" % (pid, c.traces, c.events, c.states, time.time() - c.t0))
            rc = 0
    except Exception:
        traceback.print_exc()
        c.evidence()
        rc = 1 if c.violations else 2
    finally:
        c.cleanup()
    return rc
