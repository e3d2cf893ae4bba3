"""Runs TLC."""
import os, re, shutil, subprocess, tempfile, json, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = VERIF + "/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar"

class TLCError(Exception): pass

def classpath():
    cp = [JAR]
    d = os.path.dirname(JAR)
    for n in sorted(os.listdir(d)):
        if n.startswith("CommunityModules") and n.endswith(".jar"): cp.append(os.path.join(d, n))
    return ":".join(cp)

def tlc(module, cfg, env=None, args=(), workers=1, heap="3g", timeout=800, wd=None):
    meta = tempfile.mkdtemp(prefix="tlc", dir=wd)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env: e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-cp", classpath(), "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m: return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def parse_rejects(out):
    """PrintT output may be wrapped over several lines."""
    res = []
    for m in re.finditer(r"<<\s*\"REJECT\",\s*(\d+),\s*(\d+),\s*(.*?)(?=\n<<\s*\"(?:REJECT|DONE)\"|\nFinished|\nModel checking|\nError|\nProgress|\Z)", out, re.S):
        res.append({"line": int(m.group(1)), "base": int(m.group(2)), "why": re.sub(r"\s+", " ", m.group(3))[:2000]})
    return res

def validate(module, cfg, path, wd, timeout=800, heap="3g"):
    """Checks one ndjson trace file.  Returns (rejects, transitions)."""
    rc, out = tlc(module, cfg, env={"NMV_TRACE": path}, timeout=timeout, wd=wd, heap=heap)
    if rc != 0 or '"DONE"' not in out:
        inv = re.search(r"Invariant (\w+) is violated", out)
        keep = path + ".tlcout"
        open(keep, "w").write(out)
        if inv: return [{"line": 0, "base": 0, "why": "specification invariant %s violated" % inv.group(1)}], (0, 0)
        raise TLCError("TLC failed on %s (rc %d): %s" % (path, rc, out[-1500:]))
    g, d = stats(out)
    return parse_rejects(out), (g, d)

def clean(x):
    """TLC's JSON reader knows neither null nor fractions."""
    if x is None: return ""
    if isinstance(x, float): return str(x)
    if isinstance(x, dict): return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [clean(v) for v in x]
    return x

def validate_many(module, cfg, traces, wd, jobs=6, per_file=1500, timeout=800, heap="2500m"):
    """traces: list of lists of JSON-able lines (each list one trace).  Returns list of (trace index, line index in trace, why), transitions."""
    total = sum(len(t) for t in traces)
    nfiles = max(1, min(len(traces), max(jobs, -(-total // per_file)) if total > 400 else 1))
    bins = [[] for _ in range(nfiles)]
    sizes = [0] * nfiles
    for i in sorted(range(len(traces)), key=lambda i: -len(traces[i])):
        b = sizes.index(min(sizes))
        bins[b].append(i)
        sizes[b] += len(traces[i])
    files = []
    for b, idx in enumerate(bins):
        if not idx: continue
        p = os.path.join(wd, "trace%03d.ndjson" % b)
        starts = []
        n = 0
        with open(p, "w") as f:
            for i in idx:
                starts.append((n + 1, i))
                for ln in traces[i]:
                    f.write(json.dumps(clean(ln), ensure_ascii=True) + "\n")
                    n += 1
        files.append((p, starts))
    bad, tg, td = [], 0, 0
    with ThreadPoolExecutor(jobs) as ex:
        for (p, starts), (rej, (g, d)) in zip(files, ex.map(lambda x: validate(module, cfg, x[0], wd, timeout, heap), files)):
            tg += g
            td += d
            for r in rej:
                base, i = max((s for s in starts if s[0] <= max(r["line"], 1)), key=lambda s: s[0])
                bad.append((i, r["line"] - base, r["why"]))
    return bad, (tg, td)
