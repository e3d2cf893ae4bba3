"""Runs notmuch commands on a mail tree and records traces for StoreTrace.tla."""
import os, re, shutil, stat, subprocess, time
from .store import Run, World
from .proto import Driver, DriverDied, deep
from .cli import Cli
from .mail import Names, dbid

MTAGS = ["draft", "flagged", "passed", "replied", "unread"]
AUTO = ("attachment", "signed", "encrypted")

def parsename(c):
    i = c.find(":2,")
    base, fl = (c, "") if i < 0 else (c[:i], c[i + 3:])
    return {"base": base, "info": i >= 0, "flags": sorted(set(fl)), "canon": list(fl) == sorted(set(fl)) and all(ord(x) < 128 for x in fl)}

class CWorld(World):
    def __init__(self, rng, odd=True, nmids=6, ntags=4, **kw):
        super().__init__(rng, nmids=nmids, odd=odd, ntags=ntags, **kw)
        for t in MTAGS + list(AUTO):
            if t in self.tags.s: del self.tags.c[self.tags.s.pop(t)]
        for t in MTAGS: self.tags.c[t] = t; self.tags.s[t] = t
        self.cidof = {}
    def finish(self):
        for c, b in self.bytes.items():
            if b in self.cidof and self.cidof[b] != c: raise RuntimeError("equal contents %s %s" % (c, self.cidof[b]))
            self.cidof[b] = c

class CRun(Run):
    """The database is changed by commands; a reader reports what is in it after each."""
    def __init__(self, build, world, wd, cmp, conf=None, hooks=None):
        self.wd = wd
        os.makedirs(wd, exist_ok=True)
        os.chmod(wd, 0o755)
        super().__init__(build, world, wd + "/mail", cmp)
        self.now = 1500000000
        self.dirs = world.dirs
        self.names = set()
        self.cli = Cli(build, wd + "/home", self.root, conf)
        self.lines[0]["names"] = {}
        self.tree_ = None
        self.failed = None
        self.nohooks = False
    def start(self):
        pass
    # -- the tree
    def tree(self):
        f, d = [], [[]]
        for p, ds, fs in os.walk(self.root, followlinks=True):
            rel = [] if p == self.root else p[len(self.root) + 1:].split("/")
            if not rel and ".notmuch" in ds: ds.remove(".notmuch")
            ds.sort()
            for x in ds: d.append(rel + [x])
            for x in sorted(fs):
                q = os.path.join(p, x)
                if not os.path.isfile(q): continue
                with open(q, "rb") as g: b = g.read()
                f.append([rel + [x], self.w.cidof.get(b, "?")])
                self.names.add(x)
        for x in d:
            if x not in self.dirs: self.dirs.append(x)
        self.tree_ = {"f": f, "d": d}
        self.have = {tuple(p): c for p, c in f}
        self.hasdir = {tuple(x) for x in d}
        return self.tree_
    def mtimes(self): return {p: os.stat(p).st_mtime for p, _, _ in os.walk(self.root, followlinks=True)}
    def fix_times(self, before=None, only=None):
        """directories changed by a command get the time of the scratch world"""
        for p, ds, _ in os.walk(self.root, followlinks=True):
            if p == self.root and ".notmuch" in ds: ds.remove(".notmuch")
            st = os.stat(p)
            if before is None or p not in before or before[p] != st.st_mtime: os.utime(p, (self.now, self.now))
    def touched(self, *dirs):
        for d in dirs:
            p = self.fp(d)
            if os.path.isdir(p): os.utime(p, (self.now, self.now))
    def fs_event(self, **f):
        self.lines.append(dict(ev="tree", st=0, tree=self.tree(), **f))
    # (paths given as lists)
    def put(self, p, cid):
        new = not os.path.isdir(self.fp(p[:-1]))
        d = self.fp(p[:-1])
        made = []
        q = list(p[:-1])
        while q and not os.path.isdir(self.fp(q)): made.append(q); q = q[:-1]
        os.makedirs(d, exist_ok=True)
        with open(self.fp(p), "wb") as f: f.write(self.w.bytes[cid])
        self.touched(p[:-1], *[x for m in made for x in (m, m[:-1])])
    def rm(self, p): os.unlink(self.fp(p)); self.touched(p[:-1])
    def mv(self, p, q):
        os.rename(self.fp(p), self.fp(q))
        self.touched(p[:-1], q[:-1])
    # -- observation
    def look_at(self):
        if not self.reader or self.reader.dead:
            self.reader = Driver(self.b, {})
            self.probes(self.reader)
        d = self.reader
        d("probes", "d", *[self.fp(x) for x in self.dirs]) if "dirfiles" in self.cmp or "dirs" in self.cmp else None
        r = d("open", 1, "ro", self.root)
        if r["st"]: return {"rev": -r["st"], "uuid": "?", "mail": [], "find": [], "ff": [], "q": [], "dirs": [], "failed": True}
        o = self.dump(d, 1)
        for m in o["mail"]: self.names |= {p[-1] for p in m["files"]}
        d("destroy", 1)
        return o
    def tsym(self, t): return t if t in AUTO else self.w.tags.sym(t)
    # -- commands
    def command(self, ev, args, input=b"", want=0, env=None, cli=None, **f):
        """one notmuch command, and everything that is there afterwards"""
        before = self.mtimes()
        e = {"NMV_TIME": self.now}
        if env: e.update(env)
        rc, out, err = (cli or self.cli).run(*args, input=input, env=e, preload=self.b.shim)
        self.fix_times(before)
        self.rc, self.out, self.err = rc, out, err
        line = dict(ev=ev, st=rc, want=want, args=[x.decode("utf-8", "replace") if isinstance(x, bytes) else str(x) for x in args], **f)
        line["tree"] = self.tree()
        line["o"] = self.look_at()
        if rc != want: line["err"] = err[-300:]
        self.lines.append(line)
        self.last = line
        return line
    def rxhits(self, rx):
        ps = {tuple(p[:i]) for p, _ in self.tree_["f"] for i in range(1, len(p) + 1)} | {tuple(d) for d in self.tree_["d"] if d}
        return [list(p) for p in sorted(ps) if any(re.search(x, "/".join(p)) for x in rx)]
    def new(self, tags=("new",), sync=True, verb=(), rx=(), full=False):
        """notmuch new with these settings (tags are symbols)"""
        self.cli.conf["new"] = {"tags": [self.w.tags.conc(t) for t in tags], "ignore": list(verb) + ["/%s/" % x for x in rx]}
        self.cli.conf["maildir"] = {"synchronize_flags": "true" if sync else "false"}
        self.cli.write()
        return self.command("clinew", ["new", "--quiet"] + (["--no-hooks"] if self.nohooks else []) + (["--full-scan"] if full else []), tags=list(tags), sync=sync, verb=list(verb), rx=self.rxhits(rx))
    def done(self):
        names = {n: parsename(n) for n in self.names}
        for n in list(names.values()):
            # the names that a file may have in between
            if not n["canon"]: continue
            rest = [f for f in n["flags"] if f not in "DFPRS"]
            for k in range(32):
                c = n["base"] + ":2," + "".join(sorted(rest + [f for i, f in enumerate("DFPRS") if k >> i & 1]))
                names.setdefault(c, parsename(c))
        self.lines[0]["names"] = names or {"": parsename("")}
        self.lines[0]["order"] = sorted({f for n in names.values() for f in n["flags"]})
        return self.lines
