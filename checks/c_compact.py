"""Checks of compaction: P15."""
import hashlib, os, random, shutil, tempfile
from nmv.build import build
from nmv.cli import Cli
from nmv.proto import Driver, DriverDied
from nmv.store import Run
from . import c_store
from .c_store import Walker, universe

c_store.PROFILES["P15"] = dict(cmp="ids files tags props tid hdr lm rev uuid dirs conf find ff q", probes="id tag folder prop word", n=22, nmids=6, dup=2,
    w=dict(compact=4, close=0.5, begin=0.5, end=1, setdir=2, setconf=2, deldir=0, remove=7, add=12, prop=3, peek=0.3, view=0, getprops=0, freeze=0.3, thaw=0.5, ro=0, crash=0.2, badend=0, noop=0, reindex=1))

def hashdir(p):
    h = hashlib.sha1()
    if os.path.islink(p): h.update(b"l" + os.readlink(p).encode())
    elif os.path.isfile(p):
        with open(p, "rb") as f: h.update(b"f" + f.read())
    else:
        for d, ds, fs in os.walk(p):
            ds.sort()
            h.update(("d%s\0%s\0" % (d[len(p):], ds)).encode())
            for x in sorted(fs):
                if x == "flintlock": continue
                with open(d + "/" + x, "rb") as f: h.update(x.encode() + b"\0" + f.read())
    return h.hexdigest()[:12]

class ZWalker(Walker):
    def __init__(self, r, rng, pid, wd):
        super().__init__(r, rng, c_store.PROFILES[pid], pid)
        self.wd = wd
        self.cli = Cli(r.b, wd + "/home", r.root)
        self.seen = {}
        os.makedirs(wd + "/obs")
        with open(wd + "/obs.conf", "w") as f: f.write("[database]\npath=%s/obs\nmail_root=%s\n" % (wd, r.root))
        self.nb = 0
    def places(self):
        """what there is where a copy of the database may be"""
        out = []
        nm = self.r.root + "/.notmuch"
        ps = {"main": nm + "/xapian", "work": nm + "/xapian.compact", "old": nm + "/xapian.old"}
        for x in os.listdir(nm):
            if nm + "/" + x not in ps.values(): ps["nm/" + x] = nm + "/" + x
        for x in os.listdir(self.wd + "/bk"): ps["bk/" + x] = self.wd + "/bk/" + x
        for at, p in ps.items():
            if not os.path.lexists(p): continue
            h = hashdir(p)
            x = {"at": at, "kind": "foreign", "hash": h, "o": {}}
            if not os.path.islink(p) and os.path.exists(p + "/iamglass"): x.update(kind="db", o=self.observe(p, h))
            out.append(x)
        return out
    def observe(self, p, h):
        if h in self.seen: return self.seen[h]
        r = self.r
        if not r.reader or r.reader.dead:
            r.reader = Driver(r.b, {})
            r.probes(r.reader)
        ln = self.wd + "/obs/xapian"
        if os.path.lexists(ln): os.unlink(ln)
        os.symlink(p, ln)
        rep = r.reader("open", 2, "ro", self.wd + "/obs", self.wd + "/obs.conf")
        if rep["st"]: o = {"rev": -rep["st"], "failed": True}
        else:
            try: o = dict(r.dump(r.reader, 2), uuid="")  # a compacted database has an identity of its own
            except Exception as x: o = {"rev": -1, "failed": True, "why": str(x)}
            if not r.reader.dead: r.reader("destroy", 2)
        self.seen[h] = o
        return o
    def mail(self):
        return sorted((d, x, os.path.getsize(d + "/" + x) if not os.path.islink(d + "/" + x) else 0) for d, ds, fs in os.walk(self.r.root) if not d.startswith(self.r.root + "/.notmuch") for x in fs)
    def compact(self, backup, env, lib):
        """one compaction; its exit status"""
        b = self.r.b
        if lib:
            d = Driver(b, dict(env, XAPIAN_FLUSH_THRESHOLD=100000), preload=b.shim)
            try: return 0 if d("compact", self.r.root, backup or "-")["st"] == 0 else 1
            except DriverDied: return -9
            finally:
                if not d.dead: d.close()
        rc, out, err = self.cli.run("compact", *(["--quiet"] if self.rng.random() < 0.5 else []), *(["--backup=" + backup] if backup else []), env=env, preload=b.shim)
        return rc
    def op_compact(self):
        r, rng = self.r, self.rng
        r.dropall(); self.frozen = {}
        while self.depth: r.end(); self.depth -= 1
        r.close(); self.mode = "rw"
        bk = self.wd + "/bk"
        nm = r.root + "/.notmuch"
        shutil.rmtree(bk, ignore_errors=True); os.makedirs(bk)
        with open(bk + "/bystander", "w") as f: f.write("x")
        for x in os.listdir(nm):
            if x.startswith("xapian."): shutil.rmtree(nm + "/" + x)
        self.seen = {}
        steps = []
        sv = self.wd + "/saved"
        def keep():
            shutil.rmtree(sv, ignore_errors=True)
            shutil.copytree(nm, sv + "/nm", symlinks=True); shutil.copytree(bk, sv + "/bk", symlinks=True)
        def back():
            shutil.rmtree(nm); shutil.rmtree(bk)
            shutil.copytree(sv + "/nm", nm, symlinks=True); shutil.copytree(sv + "/bk", bk, symlinks=True)
        keep()
        log = self.wd + "/oplog"
        def one(how, lib, b, k=0, N=0):
            e = {"NMV_ROOT": r.root + "/.notmuch" if b in ("none", "old") else self.wd, "NMV_SKIP": "oplog", "NMV_LOG": log}
            if os.path.exists(log): os.unlink(log)
            if how == "kill": e.update(NMV_KILL_AT=k, NMV_KILL_HALF=rng.randint(0, 1))
            if how == "fail": e.update(NMV_FAIL_AT=k, NMV_FAIL_FOR=rng.choice([0, 0, 1, 2]), NMV_FAIL_ERRNO=rng.choice([5, 28, 18, 13]))
            if how == "int": e.update(NMV_INT_AT=k)
            before, mail = self.places(), self.mail()
            path = nm + b[2:] if b[:3] == "nm/" else {"none": None, "old": nm + "/xapian.old", "main": nm + "/xapian", "work": nm + "/xapian.compact", "bk/no/where": bk + "/no/where"}.get(b, self.wd + "/" + b)
            rc = self.compact(path, e, lib)
            ops = open(log, errors="replace").read().split("\n") if os.path.exists(log) else []
            faulty = any("\t-1\t" in x and not x.endswith("\t2") for x in ops) or b in ("bk/no/where", "work")
            if how == "int" and rc: rc = -2
            steps.append(dict(rc=rc, b=b, faulty=faulty, before=before, after=self.places(), kept=self.mail() == mail, how="%s %s/%s lib=%s" % (how, k, N, lib), ops=[x.replace(self.wd, "") for x in ops if "\t-1\t" in x or "\trename\t" in x]))
            return len(ops) - 1
        def target():
            self.nb += 1
            x = rng.random()
            if x < 0.45: return "none"
            if x < 0.8: return "bk/b%d" % self.nb
            if x < 0.86: return "nm/inside"
            if x < 0.89: return "old"
            if x < 0.92: return "work"
            if x < 0.95: return "bk/no/where"
            return rng.choice(["main", "bk/bystander"])
        N = one("none", False, "none"); back()
        for _ in range(3 if os.environ.get("VERIF_TIER") != "thorough" else 6):
            # something may be where the old database is to go
            b, lib = target(), rng.random() < 0.4
            if rng.random() < 0.2:
                q = {"none": nm + "/xapian.old", "nm/inside": nm + "/inside"}.get(b, self.wd + "/" + b)
                if not os.path.lexists(q) and os.path.isdir(os.path.dirname(q)) and b not in ("work", "main"):
                    y = rng.random()
                    if y < 0.3:
                        with open(q, "w") as f: f.write("precious")
                    elif y < 0.6: os.makedirs(q)
                    elif y < 0.8: os.makedirs(q + "/more")
                    else: os.symlink(self.wd + "/nowhere", q)
            if rng.random() < 0.15: shutil.copytree(nm + "/xapian", nm + "/xapian.compact", ignore=lambda d, ns: [n for n in ns if rng.random() < 0.4])
            keep2 = self.wd + "/saved2"
            for _ in range(rng.randint(1, 3)):
                how = rng.choice(["kill", "kill", "fail", "fail", "none", "int"])
                # mostly near the renames
                one(how, lib, b, rng.randint(1, N) if rng.random() < 0.4 else rng.randint(N - 32, N) if rng.random() < 0.7 else rng.choice([1, 2, 3]), N)
                if rng.random() < 0.4: b, lib = target(), rng.random() < 0.4
            back()
        one("none", rng.random() < 0.4, rng.choice(["none", "bk/fin", "nm/fin"]))
        r.event("compact", None, obs=False, steps=steps)
        r.uuid = None
        r.open("rw")

def history(pid, i, seed):
    rng = random.Random("%s/%s/%s" % (pid, i, seed))
    w = universe(rng, pid, rng.random() < 0.6)
    wd = tempfile.mkdtemp(prefix="%s-%s-" % (pid, i), dir=os.environ["NMV_WD"])
    r = Run(build(), w, wd + "/mail", set(c_store.PROFILES[pid]["cmp"].split()), flush=rng.random() < 0.3)
    try:
        r.create()
        st = ZWalker(r, rng, pid, wd)
        for _ in range(rng.randint(1, 6)): st.sync(); st.op_add()
        for _ in range(c_store.PROFILES[pid]["n"]):
            st.step()
            if r.died: break
        if not r.died: st.op_compact(); st.wind_up()
        return r.lines
    except DriverDied as x:
        r.lines.append({"ev": "look", "st": -999, "what": str(x)})
        return r.lines
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def P15(c):
    os.environ["NMV_WD"] = c.wd
    c.model("MCCompact.tla", "MCCompact.cfg")
    res = c.run_traces(history, [(c.pid, i, c.seed) for i in range(int(os.environ.get("NMV_N", 100 if c.quick else 1500)))])
    c.validate("StoreTrace.tla", "StoreTrace.cfg", history, res)
