"""Checks of delivery with insert: P10."""
import os, random, shutil, stat
from nmv.clirun import MTAGS
from . import c_cli
from .c_cli import CWalk, cworld, start, run, CMP
from .c_dump import DWalk

c_cli.PROFILES["P10"] = dict(cmp=CMP + " hdr", n=16, nmids=6, w=dict(insert=16, deliver=1.5, copy=1, flags=1, rm=1, tag=2, new=2, tick=1, mvdir=0.3))

# as asked for, and the components
FOLDERS = ["", "", "", "", "a", "a", "c", "c", "a/", "a//", "/a", "b", "nowhere", "a/nowhere/deep", "new1/x", "x..y", "..x", "x..", "...", "a/..b", "\u00e9 \u65e5", "fold er",
           "..", "../x", "a/..", "a/../c", "a/../../x", "c/../..", "nowhere/../c", "../mail", "a//../x", "..//x", "/..", "/../x", "a/../", "Mail"]
ODD = ["a//new2", "./a", "a/.", ".", "a/./new3", "//a", "./new4"]

class IWalk(DWalk):
    def __init__(self, r, rng, pid):
        super().__init__(r, rng, pid)
        if rng.random() < 0.2: self.folders = FOLDERS + ODD
        else: self.folders = FOLDERS
    def outside(self):
        """everything that is there beside the mail tree"""
        out = set()
        for d, ds, fs in os.walk(self.r.wd):
            if d == self.r.wd: ds.remove("mail"); out |= {(d, x) for x in ds}
            else: out |= {(d, x) for x in ds + fs}
        return out
    def wire(self, c):
        b = self.w.bytes[c]
        return b"From " + b[len(b"X-Envelope-From: "):] if c in self.mbox else b
    mbox = ()
    def op_insert(self):
        r, rng, w = self.r, self.rng, self.w
        self.settle()
        x = rng.random()
        empty = x < 0.03
        if x < 0.1: cid = rng.choice(self.bads)
        elif x < 0.4: cid = rng.choice(w.bymid[rng.choice(w.mids.syms())])
        else: cid = rng.choice(self.bigs)
        data = b"" if empty else self.wire(cid)
        fo = rng.choice(self.folders) if rng.random() < 0.6 else rng.choice(["", "a", "c"])
        fs = [p for p in r.have if ":2," not in p[-1]]
        if fs and rng.random() < 0.03: fo = "/".join(rng.choice(fs)) + rng.choice(["", "/x"])
        parts = [p for p in fo.split("/") if p not in ("", ".")]
        # (below one of the directories of a maildir things are different)
        create, keep, world = rng.random() < 0.4, rng.random() < 0.25, rng.random() < 0.3
        ops = [o for o in self.tagops() if not w.tags.conc(o["t"]).startswith("-")] if rng.random() < 0.4 else []
        targs = [("+" if o["add"] else "-") + w.tags.conc(o["t"]) for o in ops]
        refuse = False
        if rng.random() < 0.06:
            refuse = True
            targs.insert(rng.randint(0, len(targs)), rng.choice(["+", "+-x", "tag:foo", "word"]))
            if targs and targs[-1] not in ("+", "+-x", "-", "tag:foo", "word"): targs = targs[::-1]
        if any("\n" in t for t in targs): return
        sync = self.syncset
        r.cli.conf["new"] = {"tags": [w.tags.conc(t) for t in self.newtags]}
        r.cli.conf["maildir"] = {"synchronize_flags": "true" if sync else "false"}
        r.cli.write()
        if fo or rng.random() < 0.3: fa = rng.choice([["--folder=" + fo], ["--folder", fo], ["--folder:" + fo]]) if fo else ["--folder="]
        else: fa = []
        a = ["insert"] + fa + (["--create-folder"] if create else []) + (["--keep"] if keep else []) + (["--world-readable"] if world else []) + (["--no-hooks"] if rng.random() < 0.3 else [])
        if targs and rng.random() < 0.5: a.append("--")
        a += targs
        e = {"NMV_ROOT": r.root}
        log = r.wd + "/fsops"
        if os.path.exists(log): os.unlink(log)
        e["NMV_LOG"] = log
        if rng.random() < 0.5: e["NMV_READ0"] = rng.choice([1, 2, 3, 4, 5, 5, 6, 7, 16, 17, 18, 22, 1000, 4095, 4097]) if len(data) < 3000 else rng.choice([3, 4, 5, 5, 6, 1000, 4095, 4096, 2048])
        if rng.random() < 0.3: e.update(NMV_SHORT=rng.choice([7, 100, 1000, 4095, 5000]), NMV_SKIP="/.notmuch")
        known = w.contents[cid]["mid"] in self.st.present
        how = rng.choice(["none"] * 6 + ["fail"] * 5 + ["kill", "kill", "int", "read", "eintr", "db"])
        k = rng.choice(list(range(1, 9)) + [rng.randint(1, 16)])
        if how in ("kill", "db") and sync and known: how = "none"
        if how == "fail": e.update(NMV_SKIP="/.notmuch", NMV_FAIL_AT=k, NMV_FAIL_ERRNO=rng.choice([5, 28, 28]), NMV_FAIL_FOR=rng.choice([1, 1, 1, 1, 2]))
        if how == "eintr": e.update(NMV_SKIP="/.notmuch", NMV_EINTR_AT=k, NMV_EINTR_FOR=rng.choice([1, 3]))
        if how == "int": e.update(NMV_SKIP="/.notmuch", NMV_INT_AT=k)
        if how == "read": e.update(NMV_READ_FAIL_AT=rng.choice([1, 1, 2, 2, 3, 4]), NMV_READ_ERRNO=rng.choice([5, 4]))
        if how in ("kill", "db"):
            if rng.random() < 0.5 or how == "db":
                e.pop("NMV_SHORT", 0)
                k = rng.randint(1 if how == "kill" else 8, 50)
                e.pop("NMV_SKIP", 0)
            else: e["NMV_SKIP"] = "/.notmuch"
            if how == "kill": e.update(NMV_KILL_AT=k, NMV_KILL_HALF=rng.choice([0, 1]))
            else: e.update(NMV_FAIL_AT=k, NMV_FAIL_ERRNO=rng.choice([28, 5]), NMV_FAIL_FOR=rng.choice([1, 0]))
        before, outside = set(r.have), self.outside() | {(r.wd, "fsops")}
        mt = r.mtimes()
        done = lambda rc, err: self.inserted(rc, err, e, log, how, data, before, outside, mt, cid, world, dict(args=a, folder=parts, create=create, keep=keep, world=world, tags=list(self.newtags), ops=ops, sync=sync, cid=cid, empty=empty, refuse=refuse))
        self.deliver(a, data, dict(e, NMV_TIME=r.now), done)
    def deliver(self, a, data, env, done):
        rc, out, err = self.r.cli.run(*a, input=data, env=env, preload=self.r.b.shim)
        done(rc, err)
    def inserted(self, rc, err, e, log, how, data, before, outside, mt, cid, world, f):
        """what is there after the command"""
        r, w = self.r, self.w
        r.fix_times(mt)
        fsops, dbfault = self.fslog(log)
        if how == "db" and not dbfault: how = "none"
        if how == "eintr": how = "none"
        if how == "read" and e["NMV_READ_ERRNO"] == 4: how = "none"
        if how == "read" and rc == 0: how = "none" if self.reads(data, e) < e["NMV_READ_FAIL_AT"] else "missed"
        r.now += 1
        tree = r.tree()
        newf = [p for p in r.have if p not in before]
        mode = stat.S_IMODE(os.stat(r.fp(newf[0])).st_mode) if len(newf) == 1 else -1
        if mode == -1 and rc == 0 and not newf: mode = 0
        # with several renames, the new file is the one with this content
        if rc == 0 and len(newf) != 1:
            c = [p for p in newf if r.have[p] == cid]
            mode = (0o644 if world else 0o600) if len(c) != 1 else stat.S_IMODE(os.stat(r.fp(c[0])).st_mode)
        line = dict(f, ev="insert", st=rc, mode=mode, size=len(self.w.bytes[cid]), fsops=fsops, how=how, left=self.outside() - {(r.wd, "fsops")} != outside - {(r.wd, "fsops")}, err=err[-200:], env=e, tree=tree)
        line["want"] = rc
        line["o"] = r.look_at()
        r.lines.append(line)
        # what is left of the interrupted ones
        for p in newf:
            if r.have[p] == "?" or p[-2:-1] == ("tmp",): os.unlink(r.fp(p)); r.touched(p[:-1])
        for p in list(self.outside() - outside):
            q = os.path.join(*p)
            if os.path.isdir(q): shutil.rmtree(q)
            elif os.path.exists(q): os.unlink(q)
        r.fs_event(op="after")
        self.after()
    def reads(self, data, e):
        k = min(4096, int(e.get("NMV_READ0", 4096)))
        return -(-len(data) // k) + 1
    def fslog(self, log):
        r, out, db = self.r, [], False
        if not os.path.exists(log): return out, db
        with open(log, encoding="utf-8", errors="surrogateescape") as f:
            for l in f:
                k, op, p, x, n, er = l.rstrip("\n").split("\t")
                ok = int(n) >= 0
                if "/.notmuch" in p[len(r.root):]:
                    db = db or not ok
                    continue
                def rel(p):
                    p = os.path.normpath(p)
                    return [] if p == r.root else p[len(r.root) + 1:].split("/") if p.startswith(r.root + "/") else ["", p]
                out.append(dict(op=op, p=rel(p), q=rel(x) if x.startswith("/") else [], n=int(n), ok=ok))
        return out, db

def contents(w, rng):
    """messages of all sizes, some the way an mbox has them"""
    bigs, bads, mbox = [], [], set()
    for i in range(8):
        m = rng.choice(w.mids.syms())
        c = w.content(mid=m, words=["wpad%d" % i], auto=["attachment"] if rng.random() < 0.15 else [])
        w.contents[c]["words"] = []
        if rng.random() < 0.5:
            w.bytes[c] = b"X-Envelope-From: someone@there  Thu Jan  1 00:00:00 1970\n" + w.bytes[c]
            mbox.add(c)
        want = rng.choice([0, 4096, 4096, 8192, 4095, 4097, 12288, 20000]) + rng.choice([0, 0, -12, 12, 1, -1, 5])
        have = len(w.bytes[c]) - (12 if c in mbox else 0)
        if want > have + 2: w.bytes[c] += b"\n" * (want - have) if rng.random() < 0.3 else (b"pad pad\n" * (want // 8))[:want - have]
        bigs.append(c)
    for b in [b"junk", b"F", b"From", b"not a message\n" * 500]:
        c = w.content(None, ok=False)
        w.bytes[c] = b
        bads.append(c)
    c = w.content(None, ok=False)
    w.bytes[c] = b"X-Envelope-From: "
    mbox.add(c); bads.append(c)
    return bigs, bads, mbox

def history(pid, i, seed):
    box = {}
    def extra(w, rng): box["b"] = contents(w, rng)
    rng, w, wd, r, st = start(pid, i, seed, extra, IWalk)
    st.bigs, st.bads, st.mbox = box["b"]
    st.bads.append(w.bad)
    try:
        for d in [[], ["a"], ["c"]]:
            for x in ("cur", "new", "tmp"): os.makedirs(r.fp(d + [x]), exist_ok=True)
        r.touched([], ["a"], ["c"])
        r.fs_event(op="maildirs")
        for _ in range(rng.randint(0, 2)): st.op_deliver()
        st.op_new()
        st.sync()
        for _ in range(c_cli.PROFILES[pid]["n"]): st.step()
        if not (st.verb or st.rx): st.op_new()
        return r.done()
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def P10(c): run(c, history, int(os.environ.get("NMV_N", 110 if c.quick else 2500)))
