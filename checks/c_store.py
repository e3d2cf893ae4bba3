"""Checks of the library store (Store.tla): P03 P04 P06 P08 P14 P18 P19."""
import itertools, os, random, tempfile, json
from nmv.build import build
from nmv.store import World, Run
from nmv.proto import DriverDied

BASE = {"add": 10, "remove": 5, "fetch": 6, "drop": 2, "tag": 4, "untag": 2, "cleartags": 1, "prop": 2, "unprop": 1, "clearprops": 1,
        "freeze": 1, "thaw": 1, "begin": 1, "end": 2, "badend": 0.3, "reindex": 1, "rewrite": 1, "unlink": 0.7, "close": 0.7, "crash": 0.3, "reopen": 0.3,
        "setdir": 0.3, "deldir": 0, "setconf": 0.3, "getconf": 0.3, "peek": 1, "ro": 0.2, "move": 1, "view": 1, "getprops": 0.5, "noop": 0.5}
PROFILES = {
 "P03": dict(cmp="ids files tags props tid lm rev dirs", probes="", w=dict(begin=7, end=8, peek=10, close=2, crash=2, setdir=2, setconf=1.5, getconf=1, reindex=1.5, badend=0.8), n=45, nmids=4),
 "P04": dict(cmp="ids tid", probes="", w=dict(add=14, remove=7, fetch=0.2, tag=0.1, reindex=1, close=0.5), n=45, nmids=8, dens=0.3),
 "P06": dict(cmp="ids files tags props tid hdr ff find q", probes="id tag", w=dict(add=12, remove=10, move=3, fetch=7, tag=5, prop=3), n=45, nmids=5, dup=3),
 "P08": dict(cmp="ids tags rev lm uuid", probes="", w=dict(begin=4, end=4, untag=5, unprop=3, add=6, noop=4, close=3, ro=1.5, peek=2, freeze=2, thaw=2, crash=1, badend=0.5, getprops=0.5, view=0.5, longtag=0.5), n=60, nmids=5),
 "P14": dict(cmp="ids files q dirs", probes="folder path", w=dict(add=12, remove=9, move=6, reindex=3, fetch=5, unlink=2, tag=1, deldir=0.2, begin=1, close=1), n=40, nmids=4, dup=3),
 "P18": dict(cmp="ids tags props tid q", probes="prop", w=dict(prop=14, unprop=7, clearprops=4, getprops=12, view=5, freeze=4, thaw=4, begin=3, end=3, reindex=1, fetch=8, peek=3, badprop=0.5), n=60, nmids=4),
 "P19": dict(cmp="ids files tags props tid hdr q", probes="word tag prop folder", w=dict(reindex=12, rewrite=8, unlink=4, fetch=12, tag=4, prop=5, add=10, remove=2), n=45, nmids=5, dup=3),
}

def universe(rng, p, odd):
    prof = PROFILES[p]
    fo = None
    if p == "P14" and rng.random() < 0.7:
        fo = [["cur"], ["new"], [], ["a"], ["a", "cur"], ["a", "new"], ["a", "b"], ["ab"], ["a b"], ["a", "b", "cur"], ["cur", "cur"], ["new", "x"], ["a", "cur", "new"], ["\u00fc", "cur"], ["A", "cur"]]
        rng.shuffle(fo)
        fo = fo[:rng.randint(9, 15)]
        # enough directories for their numbers to have several digits
        if rng.random() < 0.5: fo += [["d%d" % i] for i in range(rng.randint(8, 18))]
    w = World(rng, nmids=prof["nmids"] if not fo else 2, odd=odd, folders=fo, nbase=1 if fo else 3)
    ms = w.mids.syms()
    dens = prof.get("dens", 0.35)
    w.bymid = {}
    for m in ms:
        for _ in range(rng.randint(1, prof.get("dup", 2))):
            refs = [x for x in ms if rng.random() < dens and (x != m or rng.random() < 0.3)]
            rng.shuffle(refs)
            irt = rng.choice(ms) if rng.random() < dens else None
            base = dict(mid=m, refs=refs, irt=irt)
            c = w.content(auto=["attachment"] if rng.random() < 0.2 else [], words=["w%dw" % rng.randint(1, 5) for _ in range(2)], **base)
            # other contents with the same Message-ID and references, for files that change in place
            alts = [c, w.content(auto=["attachment"] if rng.random() < 0.3 else [], words=["w%dw" % rng.randint(4, 9)], **base)]
            w.bymid.setdefault(m, []).append(alts)
    w.bad = w.content(None, ok=False)
    w.std_probes(set(prof["probes"].split()))
    return w

def walk(pid, i, seed, n=None, kill=0, build_=None):
    """One random history.  kill: SIGKILL at the kill-th file-system change of the process that is running then."""
    rng = random.Random("%s/%s/%s" % (pid, i, seed))
    prof = PROFILES[pid]
    b = build_ or build()
    odd = rng.random() < 0.6
    w = universe(rng, pid, odd)
    flush = rng.random() < (0.6 if pid == "P03" else 0.5)
    wd = tempfile.mkdtemp(prefix="%s-%s-" % (pid, i), dir=os.environ["NMV_WD"])
    root = wd + "/mail"
    log = wd + "/ops"
    cmp = set(prof["cmp"].split())
    env = {"NMV_ROOT": root + "/.notmuch"} if kill else {}
    if kill == -1: env["NMV_LOG"] = log
    auto = rng.choice([0, 1, 2, 5]) if pid == "P03" and not flush else 0
    r = Run(b, w, root, cmp, flush=flush, env=env, preload=b.shim if kill else None, auto=auto)
    if kill: r.opcount = lambda: sum(1 for _ in open(log)) if os.path.exists(log) else 0
    try:
        r.create()
        if kill:
            # the process that will be killed starts here
            r.close(); r.d.close()
            if kill > 0: r.env = dict(r.env, NMV_KILL_AT=kill, NMV_KILL_HALF=rng.randint(0, 1))
            if kill == -1 and os.path.exists(log): os.unlink(log)
            r.start(); r.open("rw")
        st = Walker(r, rng, prof, pid, killing=bool(kill))
        big = len(w.folders) > 8
        if big: st.wt.update(add=16, remove=6, move=8)
        for _ in range(rng.randint(1, 4) if not big else rng.randint(len(w.folders), 2 * len(w.folders))): st.sync(); st.op_add()
        for _ in range(n or prof["n"]):
            st.step()
            if r.died: break
        if kill > 0 and r.died:
            return killed(r, rng)
        if kill == -1: return r.lines, r.opcount()
        if kill > 0: return None    # not reached this time
        if not r.died: st.wind_up()
        return r.lines
    except DriverDied as x:
        if kill: raise
        r.lines.append({"ev": "look", "st": -999})
        return r.lines
    finally:
        r.finish()
        import shutil
        shutil.rmtree(wd, ignore_errors=True)

def killed(r, rng):
    """The driver was killed inside the last event: recover, and record what is there."""
    inner = r.lines.pop()
    inner.pop("o", None)
    if inner["ev"] in ("remove", "reindex", "open"):
        depth = 0
        for x in r.lines:
            if x["ev"] == "begin": depth += 1
            if x["ev"] == "end" and x["st"] == 0: depth -= 1
            if x["ev"] in ("open", "close", "reopen", "crash", "reset"): depth = 0
        if depth == 0: return None
    r.died = None
    r.open_ = False
    r.env = {k: v for k, v in r.env.items() if not k.startswith("NMV_KILL")}
    r.d.kill()
    r.start()
    line = dict(ev="crashin", st=0, inner=inner)
    r.lines.append(line)
    r.open("rw")
    o = r.last.get("o")
    if inner["ev"] == "add" and o:
        mid = r.w.contents[r.fs[tuple(inner["p"])]]["mid"]
        inner["hint"] = next((m["tid"] for m in o["mail"] if m["id"] == mid), "zz")
    return r.lines

class Walker:
    def __init__(self, r, rng, prof, pid, killing=False):
        self.r, self.rng, self.pid = r, rng, pid
        self.wt = dict(BASE); self.wt.update(prof["w"])
        if killing:
            for k in ("crash", "ro"): self.wt[k] = 0
        self.depth = 0
        self.frozen = {}
        self.mode = "rw"
        self.present = {}     # mid -> files, from the last observation
        self.peeks = not killing
    def sync(self):
        for x in reversed(self.r.lines):
            if "o" in x:
                self.present = {m["id"]: [tuple(f) for f in m["files"]] for m in x["o"]["mail"] if m["id"] in self.r.w.mids.c}
                return
    def step(self):
        r, rng, w = self.r, self.rng, self.r.w
        self.sync()
        ops = list(self.wt)
        op = rng.choices(ops, [self.wt[o] for o in ops])[0]
        f = getattr(self, "op_" + op)
        f()
    def infiles(self): return [(m, f) for m, fs in self.present.items() for f in fs]
    def slot(self, frozen=False):
        s = [x for x in self.r.slots if not frozen or self.frozen.get(x, 0)]
        return self.rng.choice(s) if s else None
    def ensure(self):
        s = self.slot()
        if s is None:
            self.op_fetch()
            s = self.slot()
        return s
    def op_add(self):
        r, rng, w = self.r, self.rng, self.r.w
        r.dropall(); self.frozen = {}
        known = {f: m for m, f in self.infiles()}
        p = rng.choice(w.paths)
        if rng.random() < 0.04:
            free = [q for q in w.paths if tuple(q) not in known and tuple(q) not in r.fs]
            if free:
                if rng.random() < 0.5: r.write(free[0], w.bad)
                r.add(free[0])
            return
        if tuple(p) in known:
            if tuple(p) not in r.fs: return
            if rng.random() < 0.7: return
        elif tuple(p) not in r.fs or rng.random() < 0.5 or not w.contents[r.fs[tuple(p)]]["ok"]:
            m = rng.choice(w.mids.syms())
            r.write(p, rng.choice(rng.choice(w.bymid[m])))
        r.add(p)
    def op_remove(self):
        r, rng = self.r, self.rng
        r.dropall(); self.frozen = {}
        fs = self.infiles()
        if fs and rng.random() < 0.95:
            p = list(rng.choice(fs)[1])
            if rng.random() < 0.5 and tuple(p) in r.fs: r.unlink(p)
        else: p = rng.choice(r.w.paths)
        r.remove(p)
    def op_move(self):
        """rename a file the way the command line does: add the new name, remove the old one"""
        r, rng = self.r, self.rng
        fs = [x for x in self.infiles() if x[1] in r.fs]
        known = {f for _, f in self.infiles()}
        free = [p for p in r.w.paths if tuple(p) not in known]
        if not fs or not free: return
        r.dropall(); self.frozen = {}
        m, f = rng.choice(fs)
        p = rng.choice(free)
        c = r.fs[f]
        r.write(p, c); r.unlink(list(f))
        order = rng.random() < 0.7
        if order: r.add(p); r.remove(list(f))
        else: r.remove(list(f)); r.add(p)
    def op_unlink(self):
        r = self.r
        fs = [x for x in self.infiles() if x[1] in r.fs]
        if fs: r.unlink(list(self.rng.choice(fs)[1]))
    def op_rewrite(self):
        r, w, rng = self.r, self.r.w, self.rng
        fs = [x for x in self.infiles() if x[1] in r.fs]
        if not fs: return
        m, f = rng.choice(fs)
        c = r.fs[f]
        for alts in w.bymid[m]:
            if c in alts:
                r.write(list(f), rng.choice(alts))
                return
    def op_reindex(self):
        r, rng = self.r, self.rng
        if not self.present: return
        # the message is looked up afresh, all other objects are let go
        if self.mode == "rw":
            r.dropall(); self.frozen = {}
        m = rng.choice(list(self.present))
        # leave out messages whose references changed since they were indexed: never the case here
        r.fetch(3, m)
        if 3 in r.slots:
            for f in self.present.get(m, []):
                if f in r.fs and not r.w.contents[r.fs[f]]["ok"]: return
            r.reindex(3)
        self.frozen = {}
    def op_fetch(self):
        r, rng = self.r, self.rng
        s = rng.randint(0, 2)
        m = rng.choice(list(self.present) or r.w.mids.syms()) if rng.random() < 0.9 else rng.choice(r.w.mids.syms())
        # two objects for the same message would overwrite each other's changes
        if any(x != s and y == m for x, y in r.slots.items()): return
        self.frozen.pop(s, None)
        r.fetch(s, m)
    def op_drop(self):
        s = self.slot()
        if s is not None: self.r.drop(s); self.frozen.pop(s, None)
    def op_tag(self):
        s = self.ensure()
        if s is not None: self.r.tag(s, self.rng.choice(self.r.w.tags.syms()))
    def op_longtag(self):
        s = self.ensure()
        if s is not None: self.r.tag(s, "long", un=self.rng.random() < 0.3)
    def op_untag(self):
        s = self.ensure()
        if s is not None: self.r.tag(s, self.rng.choice(self.r.w.tags.syms()), un=True)
    def op_noop(self):
        """a change through an open object, then a removal of something that is not there"""
        s = self.slot()
        if s is None: return
        if self.rng.random() < 0.5: (self.op_tag if self.rng.random() < 0.5 else self.op_prop)()
        if s in self.r.slots: self.r.tag(s, "t9", un=True) if self.rng.random() < 0.6 else self.r.unprop(s, "never", "there")
    def op_cleartags(self):
        s = self.ensure()
        if s is not None: self.r.cleartags(s)
    def op_prop(self):
        s = self.ensure()
        if s is not None: self.r.prop(s, self.rng.choice(self.r.w.keys), self.rng.choice(self.r.w.vals))
    def op_badprop(self):
        s = self.ensure()
        if s is None: return
        k, v = self.rng.choice([("a=b", "c"), ("=", ""), ("k", "w" * 235), ("K" * 237, ""), ("k" * 236, "")])
        if self.rng.random() < 0.7: self.r.prop(s, k, v)
        else: self.r.unprop(s, k, v)
    def op_unprop(self):
        s = self.ensure()
        if s is not None: self.r.unprop(s, self.rng.choice(self.r.w.keys), self.rng.choice(self.r.w.vals))
    def op_clearprops(self):
        s = self.ensure()
        if s is None: return
        x = self.rng.random()
        k = self.rng.choice(self.r.w.keys)
        if x < 0.2: self.r.clearprops(s)
        elif x < 0.65: self.r.clearprops(s, k)
        else: self.r.clearpropsp(s, k[:self.rng.randint(1, len(k))])
    def op_getprops(self):
        s = self.ensure()
        if s is None: return
        k = self.rng.choice(self.r.w.keys)
        if self.rng.random() < 0.5: self.r.getprops(s, k, True)
        else: self.r.getprops(s, k[:self.rng.randint(1, len(k))], self.rng.random() < 0.3)
    def op_view(self):
        s = self.ensure()
        if s is not None: self.r.view(s)
    def op_freeze(self):
        s = self.ensure()
        if s is not None and self.frozen.get(s, 0) < 2:
            self.r.freeze(s)
            if self.mode == "rw": self.frozen[s] = self.frozen.get(s, 0) + 1
    def op_thaw(self):
        s = self.slot(frozen=self.rng.random() < 0.85)
        if s is not None:
            self.r.thaw(s)
            if self.frozen.get(s, 0): self.frozen[s] -= 1
    def op_begin(self):
        if self.depth < 3: self.r.begin(); self.depth += 1
    def op_end(self):
        if self.depth:
            self.r.end(); self.depth -= 1
            if self.rng.random() < 0.4: self.op_noop()
            if self.peeks and self.rng.random() < 0.5: self.r.peek()
    def op_badend(self):
        if not self.depth: self.r.end()
    def op_close(self):
        r, rng = self.r, self.rng
        r.dropall()
        self.depth = 0 if self.unwind() else self.depth
        r.close(); self.frozen = {}; self.depth = 0
        if self.peeks and rng.random() < 0.5: r.peek()
        self.mode = "rw"
        r.open("rw")
    def unwind(self):
        if self.rng.random() < 0.5:
            while self.depth: self.r.end(); self.depth -= 1
        return True
    def op_reopen(self):
        r = self.r
        r.dropall(); self.frozen = {}
        if self.rng.random() < 0.5:
            while self.depth: r.end(); self.depth -= 1
        r.reopen("rw")
        self.depth = 0
    def op_ro(self):
        """a read-only session in which everything is refused"""
        r, rng = self.r, self.rng
        r.dropall(); self.frozen = {}
        while self.depth: r.end(); self.depth -= 1
        r.reopen("ro") if rng.random() < 0.5 else (r.close(), r.open("ro"))
        self.mode = "ro"
        self.sync()
        save, self.wt = self.wt, dict(self.wt, close=0, crash=0, reopen=0, ro=0, peek=0, deldir=0)
        for _ in range(rng.randint(2, 6)):
            self.step()
            if r.died: break
        self.wt = save
        r.dropall(); self.frozen = {}
        while self.depth: r.end(); self.depth -= 1
        r.close(); self.mode = "rw"; r.open("rw")
    def op_crash(self):
        self.r.crash(); self.depth = 0; self.frozen = {}
        self.r.open("rw")
    def op_setdir(self): self.r.setdir(self.rng.choice(self.r.w.dirs), self.rng.randint(1, 2000000000))
    def op_deldir(self):
        # only a directory with no files and no subdirectories in the index
        for x in reversed(self.r.lines):
            if "o" in x and x["o"]["dirs"]:
                c = [d for d, y in zip(self.r.w.dirs, x["o"]["dirs"]) if d and y["there"] and not y["files"] and not y["dirs"]]
                if c: self.r.deldir(self.rng.choice(c))
                return
    def op_setconf(self): self.r.setconf(self.rng.choice(["a.b", "a.c", "x.y"]), self.rng.choice(["", "1", "v;w", "\u00fc"]))
    def op_getconf(self): self.r.getconf(self.rng.choice(["a.b", "a.c", "x.y"]))
    def op_peek(self):
        if self.peeks: self.r.peek()
    def wind_up(self):
        r = self.r
        r.dropall()
        while self.depth and self.rng.random() < 0.6: r.end(); self.depth -= 1
        r.close(); r.peek(); r.open("rw")

def killwalk(pid, i, seed, kill, n=None): return walk(pid, i, seed, n, kill)
def killcount(pid, i, seed, n=None):
    r = walk(pid, i, seed, n, -1)
    return [{"ev": "n", "n": r[1]}] if r else None

def crashes(c, seeds, per, n=25):
    """Kills the writer at file-system changes spread over the whole history, and inside operations."""
    os.environ["NMV_WD"] = c.wd
    cnt = c.run_traces(killcount, [(c.pid, "k%d" % i, c.seed, n) for i in range(seeds)])
    rng = random.Random(c.seed)
    jobs = []
    for j, r in cnt:
        total = r[0]["n"]
        c.notes["kill_points_available"] = c.notes.get("kill_points_available", 0) + total
        ks = list(range(1, total + 1)) if total <= per else sorted(rng.sample(range(1, total + 1), per))
        jobs += [(c.pid, j[1], c.seed, k, n) for k in ks]
    res = c.run_traces(killwalk, jobs)
    c.notes["killed_runs"] = len(res)
    c.validate("StoreTrace.tla", "StoreTrace.cfg", killwalk, res)

def replay(pid, k, flush, hists):
    """Drives the library through behaviours generated from MCStore.tla."""
    import shutil
    out = []
    prof = PROFILES[pid]
    wd = tempfile.mkdtemp(prefix="gen-", dir=os.environ["NMV_WD"])
    for n, hist in enumerate(hists):
        rng = random.Random("%s/%s/%s" % (pid, k, n))
        w = World(rng, nmids=3, odd=rng.random() < 0.3)
        cs = {}
        for a in hist:
            if a["ev"] == "add":
                key = (a["m"], tuple(a["refs"]))
                if key not in cs:
                    ref = ["m%d" % x for x in a["refs"]]
                    rng.shuffle(ref)
                    irt = rng.choice(ref) if ref and rng.random() < 0.5 else None
                    if irt and rng.random() < 0.5: ref.remove(irt)
                    cs[key] = w.content("m%d" % a["m"], ref, irt)
        w.std_probes(set(prof["probes"].split()) - {"folder", "path"})
        r = Run(build(), w, "%s/%d" % (wd, n), set(prof["cmp"].split()), flush=flush)
        try:
            r.create()
            depth = 0
            for a in hist:
                if a["ev"] in ("add", "remove"):
                    path = ["d%d" % a["m"], "".join(map(str, a["refs"])) or "x", "f%d" % a["i"]]
                    if a["ev"] == "add":
                        if tuple(path) not in r.fs: r.write(path, cs[a["m"], tuple(a["refs"])])
                        r.add(path)
                    else: r.remove(path)
                elif a["ev"] == "tag":
                    r.fetch(0, "m%d" % a["m"]); r.tag(0, "t1"); r.drop(0)
                elif a["ev"] == "begin": r.begin(); depth += 1
                elif a["ev"] == "end": r.end(); depth -= 1
                elif a["ev"] == "crash": r.crash(); r.open("rw"); depth = 0
                elif a["ev"] == "close": r.close(); r.open("rw")
                if pid == "P03": r.peek()
            out += r.lines
        finally: r.finish()
    shutil.rmtree(wd, ignore_errors=True)
    return out

def generated(c, which, limit):
    """Behaviours written out by TLC from the bounded model, replayed into the library."""
    import re
    os.environ["NMV_WD"] = c.wd
    out = c.model("MCStore.tla", "MCStore_%s_gen.cfg" % which, workers=6)
    hs = sorted(set(re.findall(r'<<"HIST", (TRUE|FALSE), "(.*)">>', out)))
    total = len(hs)
    if limit and limit < total: hs = random.Random(c.seed).sample(hs, limit)
    c.notes.setdefault("generated_behaviours", []).append("%s: %d of %d replayed" % (which, len(hs), total))
    jobs = []
    for fl in ("TRUE", "FALSE"):
        g = [json.loads(h.replace('\\"', '"')) for f, h in hs if f == fl]
        jobs += [(c.pid, i, fl == "TRUE", g[i:i + 12]) for i in range(0, len(g), 12)]
    res = c.run_traces(replay, jobs)
    c.validate("StoreTrace.tla", "StoreTrace.cfg", replay, res, per_file=4000)

def probe_run(which, strict):
    """Histories that show the known findings."""
    rng = random.Random(which)
    w = World(rng, nmids=2, odd=False)
    w.bymid = {}
    for m in w.mids.syms(): w.content(m)
    wd = tempfile.mkdtemp(prefix="probe-", dir=os.environ["NMV_WD"])
    r = Run(build(), w, wd + "/mail", set("ids files tags props tid rev".split()), flush=False)
    r.lines[0]["strict"] = strict
    try:
        r.create()
        r.write(["a", "f1"], "c1"); r.add(["a", "f1"]); r.remove(["a", "f1"]); r.close(); r.open("rw")
        return r.lines
    finally:
        r.finish()
        import shutil
        shutil.rmtree(wd, ignore_errors=True)

def known_probe(c, which, probe_run=probe_run):
    """Runs a known finding's history; a deviation other than the known one is a violation."""
    os.environ["NMV_WD"] = c.wd
    if not c.strict_rejects("StoreTrace.tla", "StoreTrace.cfg", probe_run(which, True)): return
    c.validate("StoreTrace.tla", "StoreTrace.cfg", probe_run, [((which, False), probe_run(which, False))])
    if not c.finding(which): c.violation("history of %s deviates from the strict specification and is not listed" % which, which)

def histories(c, n, steps=None):
    os.environ["NMV_WD"] = c.wd
    jobs = [(c.pid, i, c.seed, steps) for i in range(n)]
    res = c.run_traces(walk, jobs)
    c.validate("StoreTrace.tla", "StoreTrace.cfg", walk, res)

def model(c, which):
    c.model("MCStore.tla", "MCStore_%s%s.cfg" % (which, "" if c.quick else "_thorough"), workers=7, timeout=3000)
def P04(c):
    model(c, "threads")
    generated(c, "threads", 1000 if c.quick else None)
    histories(c, 200 if c.quick else 2500)
def P06(c):
    model(c, "threads")
    generated(c, "threads", 400 if c.quick else None)
    histories(c, 200 if c.quick else 2500)
def P08(c):
    known_probe(c, "F-P08-1")
    model(c, "sections")
    generated(c, "sections", 400 if c.quick else None)
    histories(c, 200 if c.quick else 2500)
    crashes(c, 8 if c.quick else 40, 12 if c.quick else 40)
def P14(c): histories(c, 130 if c.quick else 2500)
def P18(c): histories(c, 250 if c.quick else 2500)
def P19(c): histories(c, 150 if c.quick else 2000)
def P03(c):
    model(c, "sections")
    generated(c, "sections", 500 if c.quick else None)
    histories(c, 120 if c.quick else 1500)
    crashes(c, 20 if c.quick else 150, 16 if c.quick else 80)
