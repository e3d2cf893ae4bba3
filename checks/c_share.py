"""Checks of processes that share a database: P16."""
import os, random, shutil, subprocess, tempfile, time
from . import c_cli
from .c_cli import CMP, start, run
from .c_dump import DWalk
from .c_insert import IWalk
from .c_store import Walker, universe
from nmv.build import build
from nmv.store import Run

c_cli.PROFILES["P16"] = dict(cmp=CMP + " conf", n=5, nmids=6, refs=0, w=dict(par=8, tag=0.7, deliver=1, flags=0.7, rm=0.5, new=0.7))

class Captured(Exception): pass

class Proc:
    """A command that can be stopped just before its n-th change below the root."""
    def __init__(self, r, i, a, inp, stop):
        self.i, self.d = i, "%s/par%d" % (r.wd, i)
        os.makedirs(self.d, exist_ok=True)
        shutil.copy(r.cli.cfg, self.d + "/config")
        with open(self.d + "/in", "wb") as f: f.write(inp if isinstance(inp, bytes) else inp.encode("utf-8", "surrogateescape"))
        self.log = self.d + "/log"
        if os.path.exists(self.log): os.unlink(self.log)
        self.env = dict(r.cli.env, NOTMUCH_CONFIG=self.d + "/config", NMV_TIME=str(r.now), NMV_ROOT=r.root, NMV_STAMP="1", NMV_LOG=self.log, LD_PRELOAD=r.b.shim)
        if stop: self.env["NMV_STOP_AT"] = str(stop)
        a = list(a)
        for j, x in enumerate(a):
            if isinstance(x, str) and x.startswith("--input="):
                shutil.copy(x[8:], self.d + "/input")
                a[j] = "--input=" + self.d + "/input"
        self.argv = [r.b.notmuch] + [x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in a]
        self.home = r.cli.home
        self.p = None
        self.start, self.end = 0, 1 << 30
    def launch(self, t):
        self.start = t
        self.p = subprocess.Popen(self.argv, env=self.env, cwd=self.home, stdin=open(self.d + "/in", "rb"), stdout=open(self.d + "/out", "wb"), stderr=open(self.d + "/err", "wb"))
    def state(self):
        """R runs, T is stopped, E has ended, B sleeps (it waits for a lock)"""
        if self.p.poll() is not None: return "E"
        try:
            with open("/proc/%d/stat" % self.p.pid, "rb") as f: x = f.read().rsplit(b")", 1)[1].split()
        except OSError: return "R"
        s = x[0].decode()
        if s == "T": return "T"
        if s != "S": return "R"
        try:
            with open("/proc/%d/syscall" % self.p.pid) as f: return "B" if f.read().startswith("72 ") else "R"
        except OSError: pass
        k = x[11:13]
        if k == getattr(self, "ticks", None) and time.time() - self.since > 0.25: return "B"
        if k != getattr(self, "ticks", None): self.ticks, self.since = k, time.time()
        return "R"
    def go(self): self.p.send_signal(18)
    def out(self, x):
        with open(self.d + "/" + x, "rb") as f: return f.read()

class SWalk(IWalk):
    capturing = None
    bigs = bads = mbox = ()
    def __init__(self, r, rng, pid):
        super().__init__(r, rng, pid)
        self.st_ops = {}
        real = r.command
        def command(ev, args, input=b"", want=0, env=None, cli=None, **f):
            if self.capturing is None: return real(ev, args, input=input, want=want, env=env, cli=cli, **f)
            self.capturing.append((ev, args, input, dict(f, want=want)))
            raise Captured
        r.command = command
    def capture(self, fn):
        self.capturing = []
        try: fn()
        except Captured: pass
        x, self.capturing = self.capturing, None
        return x[0] if x else None
    # -- commands that are not run yet
    def cmd_tag(self): return self.capture(self.op_tag)
    def cmd_batch(self): return self.capture(self.op_batch)
    def cmd_restore(self): return self.capture(self.op_restore)
    def cmd_new(self): return self.capture(lambda: self.r.new(self.newtags, self.syncset, full=self.rng.random() < 0.2))
    def cmd_insert(self):
        r, rng, w = self.r, self.rng, self.w
        cid = rng.choice(w.bymid[rng.choice(w.mids.syms())])
        ops = [o for o in self.tagops() if not w.tags.conc(o["t"]).startswith("-") and "\n" not in w.tags.conc(o["t"])] if rng.random() < 0.6 else []
        fo = rng.choice([[], ["a"], ["c"]])
        r.cli.conf["new"] = {"tags": [w.tags.conc(t) for t in self.newtags]}
        r.cli.conf["maildir"] = {"synchronize_flags": "true" if self.syncset else "false"}
        r.cli.write()
        a = ["insert"] + (["--folder=" + "/".join(fo)] if fo else []) + ["--"] + [("+" if o["add"] else "-") + w.tags.conc(o["t"]) for o in ops]
        return "insert", a, w.bytes[cid], dict(want=0, folder=fo, create=False, keep=False, world=False, tags=list(self.newtags), ops=ops, sync=self.syncset, cid=cid, empty=False, refuse=False)
    def cmd_compact(self): return "compact", ["compact", "--quiet"], b"", dict(want=0)
    def cmd_reindex(self):
        q = self.query()
        return "reindex", ["reindex", "--", q.i], b"", dict(want=0, q=q.ast)
    def cmd_dump(self): return "dump", ["dump"], b"", dict(want=0, inc=["config", "properties", "tags"], q={"k": "all"})
    def cmd_conf(self):
        k, v = self.rng.choice(["query.one", "x.y", "a.b"]), self.rng.choice(["v", "w x", "", "u"])
        return "cliconf", ["config", "set", "--database", k] + ([v] if v else []), b"", dict(want=0, k=k, v=v)
    STEPS = {"tag": 24, "batch": 24, "restore": 24, "new": 40, "insert": 30, "compact": 34, "reindex": 24, "dump": 2, "cliconf": 14, "clitag": 24, "clinew": 40}
    def op_par(self):
        r, rng, w = self.r, self.rng, self.w
        self.settle()
        r.now += 1
        cmds = []
        n = rng.choice([2, 2, 2, 3, 3])
        # (writers that wait for a compaction, and others that come after it)
        queue = rng.random() < 0.25
        if queue: n = 3
        for i in range(n):
            k = "compact" if queue and i == 0 else rng.choice(["tag", "tag", "batch", "insert", "new"]) if queue else rng.choices(["tag", "batch", "restore", "new", "insert", "compact", "reindex", "dump", "conf"], [5, 2, 2, 4, 4, 2, 1, 2, 1])[0]
            x = getattr(self, "cmd_" + k)()
            if not x: continue
            stop = rng.choice([20, 26, 30]) if queue and i == 0 else 0 if rng.random() < 0.25 and i else 26 if k == "compact" and rng.random() < 0.3 else rng.choice([1, 2, rng.randint(1, 8), rng.randint(1, self.STEPS[x[0]])])
            cmds.append((x, Proc(r, i, x[1], x[2], stop)))
        # (the configuration the next commands see is that of the last)
        if len(cmds) < 2: return
        mt = r.mtimes()
        ps = [p for _, p in cmds]
        peeks, t, waiting, run = [], 0, ps[:], []
        deadline = time.time() + 60
        def settle():
            while True:
                s = [p.state() for p in run]
                if "R" not in s: return s
                if time.time() > deadline: raise TimeoutError
                time.sleep(0.002)
        hang = False
        sched = []
        try:
            while waiting or any(p.p.returncode is None for p in run):
                s = settle()
                t += 1
                if self.swapping():
                    for p in run: p.inswap = True
                for p, x in zip(run, s):
                    if x == "E" and p.end > t: p.end = t
                if "T" in s and len(peeks) < 4 and rng.random() < 0.4 and not self.swapping(): peeks.append(r.look_at()); sched.append("look")
                t += 1
                stopped = [p for p, x in zip(run, s) if x == "T"]
                # 1 starts while 0 is compacting, 2 when 1 has what it waited for
                if queue and len(waiting) == 1 and run[0] in stopped: run[0].go(); sched.append("go 0")
                elif waiting and (not stopped or rng.random() < 0.7 or queue):
                    p = waiting.pop(0)
                    p.launch(t)
                    p.inswap = self.swapping()
                    run.append(p)
                    sched.append("start %d" % p.i)
                elif stopped:
                    p = rng.choice(stopped)
                    p.go()
                    while p.state() == "T": time.sleep(0.001)
                    sched.append("go %d" % p.i)
                elif all(x in "EB" for x in s) and "B" in s: time.sleep(0.005)
                if time.time() > deadline: raise TimeoutError
        except TimeoutError:
            hang = True
            for p in run:
                if p.p.poll() is None: p.p.kill(); p.p.wait()
        r.fix_times(mt)
        r.now += 1
        tree = r.tree()
        out = []
        for (ev, a, inp, f), p in cmds:
            if p.p is None: continue
            fsops, _ = self.fslog(p.log)
            c = dict(f, ev=ev, st=-99 if hang else p.p.returncode, may=p.inswap, to=p.end, fsops=fsops if ev == "insert" else [], args=[str(x) for x in a])
            c["from"] = p.start
            if ev == "dump": c["lines"] = [x[1] for x in self.parse(p.out("out"))]
            if c["st"] != c["want"]: c["err"] = p.out("err").decode("utf-8", "replace")[-200:]
            out.append(c)
        line = dict(ev="par", st=0, want=0, cmds=out, peeks=peeks, tree=tree, sched=sched)
        line["o"] = r.look_at()
        r.lines.append(line)
        self.after()
    def swapping(self):
        """a compaction is between its two renames"""
        return not os.path.exists(self.r.root + "/.notmuch/xapian")

def history(pid, i, seed):
    rng, w, wd, r, st = start(pid, i, seed, None, SWalk)
    try:
        for d in [[], ["a"], ["c"]]:
            for x in ("cur", "new", "tmp"): os.makedirs(r.fp(d + [x]), exist_ok=True)
        r.touched([], ["a"], ["c"])
        r.fs_event(op="maildirs")
        for _ in range(3): st.op_deliver()
        st.op_new()
        st.sync()
        st.op_batch()
        for _ in range(c_cli.PROFILES[pid]["n"]): st.step()
        return r.done()
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

# -- library handles in several processes
HPROF = {"ro": {"look": 8, "fetch": 6, "ids": 6, "rev": 2, "getconf": 1.5, "reopen": 2.5, "close": 0.7, "tag": 0.4, "add": 0.3, "setconf": 0.3, "remove": 0.2, "drop": 0.5, "upgrade": 0.4, "crash": 0.2, "settle": 1},
         "rw": {"add": 6, "remove": 3, "fetch": 4, "tag": 5, "untag": 2, "cleartags": 0.5, "prop": 2, "unprop": 1, "begin": 2, "end": 3, "freeze": 0.5, "thaw": 0.6, "reindex": 0.5, "rewrite": 0.3,
                "setdir": 0.5, "setconf": 1, "getconf": 0.3, "close": 7, "crash": 0.8, "reopen": 0.6, "look": 1, "ids": 0.5, "rev": 0.5, "drop": 0.5}}
WRITES = "add remove tag untag cleartags prop unprop begin end thaw reindex setdir deldir setconf close reopen crash".split()
CL = lambda x: {"err": x is None, "v": "" if x is None else x}

class Party(Run):
    """One of the processes that share a database."""
    def join(self, group, p):
        self.g, self.p, self.mode, self.rng = group, p, "closed", group.rng
        self.waiting = None
        self.lines, self.fs = group.lines, group.fs
        return self
    def event(self, ev, cmd, obs=True, **f):
        n = len(self.lines)
        over = self.mode == "ro" and self.g.late[self.p] >= 2
        r = super().event(ev, cmd, obs=obs and not over, **f)
        for x in self.lines[n:]: x["pr"] = self.p
        if self.died:
            rc = self.d.p.returncode
            self.lines[n:] = [dict(ev="died", pr=self.p, st=0, rc=rc, during=ev)]
            self.lost()
            return None
        if ev in WRITES and self.mode == "rw": self.g.wrote(self.p, ev in ("close", "reopen", "crash"))
        return r
    def lost(self):
        self.died = None
        self.d.kill()
        self.slots = {}
        self.open_, self.mode, self.waiting = False, "closed", None
        self.start()
    def acquire(self, ev, mode):
        """open or reopen; somebody may have to wait"""
        cmd = ["open", self.h, mode, self.root] + self.conf if ev == "open" else ["reopen", self.h, mode]
        busy = any(x.mode == "rw" for x in self.g.ps if x is not self)
        self.d.send(*cmd)
        self.waiting, self.broken = (ev, mode), False
        if ev == "reopen" and self.mode == "rw": self.g.wrote(self.p, True)
        if not (mode == "rw" and busy): self.granted(20)
        elif not self.granted(0.1): self.lines.append(dict(ev="wait", pr=self.p, st=0))
    def granted(self, timeout):
        import select
        if b"\n" not in self.d.buf and not select.select([self.d.p.stdout], [], [], timeout)[0]:
            if timeout >= 20:
                # nobody else has it
                self.lines.append(dict(ev="wait", pr=self.p, st=0))
                self.lost()
                self.lines.append(dict(ev="gone", pr=self.p, st=0))
            return False
        (ev, mode), self.waiting = self.waiting, None
        st = self.d.recv()["st"]
        line = dict(ev=ev, pr=self.p, mode=mode, st=st)
        self.lines.append(line)
        self.slots = {}
        if st: return True
        self.open_, self.mode, self.g.late[self.p] = True, mode, 0
        if ev == "reopen":
            for s in range(4): self.d("drop", s)
        self.wk.depth, self.wk.frozen, self.wk.mode = 0, {}, mode
        line["o"] = self.dump()
        return True
    def crash(self):
        self.d.kill()
        if self.waiting:
            self.lines.append(dict(ev="gone", pr=self.p, st=0))
            if self.mode == "closed": return self.lost()
        n = self.mode
        self.open_ = False
        self.event("crash", None, obs=False)
        self.lost()
    def glance(self, s):
        """has the tags of a message read, and with them its other terms"""
        r = self.event("glance", ["glance", s], obs=False, s=str(s))
        if r: self.last["v"] = CL(None if r["tags"] is None else [self.tsym(t) for t in r["tags"]])
        if r and r["tags"] is None: self.broken = True
    def see(self, s):
        r = self.event("see", ["look", s], obs=False, s=str(s))
        if r: self.last["v"] = {"id": CL(r["id"] and self.msym(r["id"])), "tid": CL(r["tid"]), "files": CL(None if r["files"] is None else [self.psym(f) for f in r["files"]]),
                                "again": CL(None if r["again"] is None else [self.psym(f) for f in r["again"]]),
                                "tags": CL(None if r["tags"] is None else [self.tsym(t) for t in r["tags"]]), "props": CL(r["props"]), "subj": CL(r["subj"])}
        # (what comes after an error is of no use until the database has been reopened)
        if r and any(x["err"] for x in self.last["v"].values()): self.broken = True
    def ids(self, probe):
        r = self.event("ids", ["ids", self.h, probe[1]], obs=False, q=probe[0])
        if r: self.last["ids"] = ["!" if x is None else self.msym(x) for x in r["ids"]]
        if r and (r["st"] or "!" in self.last["ids"]): self.broken = True
    broken = False
    def again(self):
        self.broken = False
        self.dropall()
        if self.rng.random() < 0.5: self.close()
        else: self.acquire("reopen", "ro")
    def fetch(self, s, m):
        r = super().fetch(s, m)
        if r and r["st"]: self.broken = True
        return r
    def rev(self):
        r = self.event("rev", ["rev", self.h], obs=False)
        if r: self.last.update(rev=r["rev"], uuid=r["uuid"] == self.g.uuid)
    def close(self):
        r = super().close()
        self.mode = "closed"
        return r

class HWalk(Walker):
    def sync(self):
        for x in reversed(self.r.lines):
            if "o" in x and x["pr"] == self.r.p:
                self.present = {m["id"]: [tuple(f) for f in m["files"]] for m in x["o"]["mail"] if m["id"] in self.r.w.mids.c}
                return
    def step(self):
        r, rng = self.r, self.rng
        self.sync()
        wt = HPROF[r.mode]
        op = rng.choices(list(wt), list(wt.values()))[0]
        if op == "look":
            s = self.slot()
            if s is not None and (r.mode == "ro" or not self.frozen.get(s)): r.see(s)
        elif op == "ids": r.ids(rng.choice([({"k": "all"}, "*")] + self.w_probes))
        elif op == "rev": r.rev()
        elif op == "settle": r.event("look", None)
        elif op == "crash": r.crash()
        elif op == "upgrade": r.acquire("reopen", "rw")
        elif op == "reopen":
            if r.mode == "ro": r.acquire("reopen", "ro")
            elif self.depth == 0 and not any(x.waiting for x in r.g.ps): r.acquire("reopen", rng.choice(["rw", "ro"]))
        elif op == "close":
            if r.mode == "rw":
                while self.depth > 0 and rng.random() < 0.8: self.op_end()
            r.dropall()
            r.close()
            self.depth, self.frozen = 0, {}
        elif r.mode == "ro" and r.g.late[r.p] >= 2 and op in ("add", "remove"): pass
        else: getattr(self, "op_" + op)()

class Group:
    def __init__(self, rng, wd):
        self.rng = rng
        w = self.w = universe(rng, "P06", rng.random() < 0.5)
        # messages large enough that the tables of the database have several blocks
        for c in w.bytes:
            if rng.random() < 0.8 and w.contents[c]["ok"]: w.bytes[c] += (" ".join("%06x" % rng.getrandbits(24) for _ in range(rng.choice([300, 900, 2000]))) + "\n").encode()
        self.lines, self.fs, self.ps = [], {}, []
        auto = rng.choice([0, 0, 0, 1, 3])
        n = rng.choice([2, 2, 3])
        self.late = {}
        for i in range(n):
            r = Party(build(), w, wd + "/mail", set("ids files tags props tid hdr find q conf rev".split()), auto=auto)
            if i == 0: self.lines, self.fs = r.lines, r.fs
            r.join(self, "p%d" % (i + 1))
            r.wk = HWalk(r, rng, dict(w={}), "P16")
            r.wk.w_probes = w.probes
            self.ps.append(r)
            self.late[r.p] = 0
        self.lines[0]["procs"] = [r.p for r in self.ps]
        self.auto = auto
    def wrote(self, p, ends):
        for r in self.ps:
            if r.p != p and r.mode == "ro":
                x = self.late[r.p]
                self.late[r.p] = 2 if self.auto or x >= 1 else x + 1 if ends else x
    def poll(self):
        """those who wait, and may have got what they wait for"""
        while True:
            ws = [r for r in self.ps if r.waiting]
            if not ws: return
            if any(r.mode == "rw" and not r.waiting for r in self.ps):
                for r in ws: r.granted(0)
                return
            import select
            got = select.select([r.d.p.stdout for r in ws], [], [], 20)[0]
            for r in ws:
                if r.d.p.stdout in got: r.granted(0); break
            else:
                ws[0].granted(20)
    def overtake(self):
        """a reader looks at messages of which it has only the objects, while somebody else commits several times"""
        rng = self.rng
        a, b = rng.sample(self.ps, 2)
        for r in self.ps:
            if r.mode == "rw": r.wk.depth = 0; r.dropall(); r.close()
        if a.mode == "closed": a.acquire("open", "ro")
        for _ in range(3): a.wk.sync(); a.wk.op_fetch()
        for s in list(a.slots):
            if rng.random() < 0.6 and not a.waiting and not a.broken and s in a.slots: a.glance(s)
        for _ in range(rng.randint(1, 3)):
            if b.mode != "closed": b.dropall(); b.close()
            b.acquire("open", "rw")
            for _ in range(rng.randint(1, 3)):
                if b.mode != "rw": return True
                b.wk.sync()
                getattr(b.wk, "op_" + rng.choice(["add", "add", "remove", "tag", "reindex", "tag", "prop", "setdir"]))()
            b.dropall()
            b.close()
            for _ in range(rng.randint(0, 3)):
                if a.broken: a.again()
                if a.mode != "ro" or a.waiting: return True
                s = rng.choice(list(a.slots) or [None])
                k = rng.random()
                if s is not None and k < 0.6: a.see(s)
                elif k < 0.85: a.ids(({"k": "all"}, "*"))
                else: a.wk.op_fetch()
        return True
    def run(self, n):
        rng = self.rng
        a = self.ps[0]
        a.create()
        a.lines[-1]["pr"] = a.p
        a.mode = "rw"
        self.uuid = a.uuid
        for r in self.ps: r.uuid = a.uuid
        for _ in range(3): a.wk.sync(); a.wk.op_add()
        for _ in range(n):
            self.poll()
            free = [r for r in self.ps if not r.waiting]
            if rng.random() < 0.03 and len(free) < len(self.ps): rng.choice([r for r in self.ps if r.waiting]).crash(); continue
            r = rng.choice(free)
            for x in free:
                if x.broken and x.mode == "ro": x.again()
            if rng.random() < 0.1 and len(free) == len(self.ps) and self.overtake(): continue
            if r.mode == "closed": r.acquire("open", rng.choice(["ro", "rw"]))
            else: r.wk.step()
        return self.lines

def handles(pid, i, seed, n=None):
    rng = random.Random("%s/h%s/%s" % (pid, i, seed))
    wd = tempfile.mkdtemp(prefix="%s-h%s-" % (pid, i), dir=os.environ["NMV_WD"])
    g = Group(rng, wd)
    try: return g.run(n or 60)
    finally:
        for r in g.ps:
            r.d.kill()
            r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def P16(c):
    os.environ["NMV_WD"] = c.wd
    c.model("MCShare.tla", "MCShare.cfg" if c.quick else "MCShare_thorough.cfg", workers=7, timeout=3000)
    n = int(os.environ.get("NMV_H", 100 if c.quick else 4000))
    c.validate("ShareTrace.tla", "ShareTrace.cfg", handles, c.run_traces(handles, [(c.pid, i, c.seed) for i in range(n)]))
    run(c, history, int(os.environ.get("NMV_N", 70 if c.quick else 2500)))
