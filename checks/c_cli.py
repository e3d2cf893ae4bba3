"""Checks of the command line: P07 P09 P01."""
import json, os, random, re, shutil, tempfile, time
from nmv.build import build
from nmv.clirun import CRun, CWorld, MTAGS, parsename
from nmv.proto import DriverDied
from nmv.mail import dbid
from .c_query import Gen, Q, VOC, iq, when

CMP = "ids files tags props tid find q alltags dirfiles"
PROFILES = {
 "P07": dict(cmp=CMP, n=12, nmids=7, w=dict(tag=10, batch=6, deliver=1.5, move=0.5, flags=0.5, rm=0.3, new=1)),
 "P09": dict(cmp=CMP, n=16, nmids=5, w=dict(tag=8, batch=3, deliver=3, copy=3, flags=5, move=2, rm=1, new=6, odd=2, shrink=1.5)),
 "P01": dict(cmp=CMP + " hdr", n=22, nmids=8, w=dict(race=5, deliver=8, copy=3, flags=3, move=6, rm=5, mkdir=2, mvdir=3, rmdir=2, link=1.5, alone=0.8, junk=1, swap=1.5, tick=4, new=12, tag=3, odd=0.5, todir=1, shrink=0.5)),
}
BASES = ["%d.M1P2.host", "%d", "%d.host,S=12", "%d:1", "%d:2", "%d!2,S", "%d\u00fc", "%d x", "%d,", "-%d", "%d~", "#%d#"]
WEIRDFLAGS = ["", "", "", "S", "F", "FS", "RS", "DFPRST", "a", "Sab", "PS", "T", "ST"]
BADFLAGS = ["SF", "SS", "RSF", "aS", "S\u00fc", "FRF", "SFS", "FSF", "aSa", "aR", "Sb", "SaF"]

class St:
    """what Gen wants to know"""
    def __init__(self): self.present, self.props, self.saved, self.macros = {}, [], {}, set()

def cworld(rng, pid, extra=None):
    prof = PROFILES[pid]
    fo = [["cur"], ["new"], ["a", "cur"], ["a", "new"], ["b"], [], ["a", "sub"], ["c", "cur"], ["c", "new"]]
    w = CWorld(rng, nmids=prof["nmids"], odd=rng.random() < 0.6, ntags=5, folders=fo)
    w.base = 0
    ms = w.mids.syms()
    w.bymid = {}
    for m in ms:
        for _ in range(rng.randint(1, 2)):
            refs = [x for x in ms if rng.random() < prof.get("refs", 0.15) and x != m]
            body = [rng.choice(VOC) for _ in range(2)]
            c = w.content(mid=m, refs=refs, auto=["attachment"] if rng.random() < 0.1 else [], words=body, **when(rng, 1000000000 + rng.randint(0, 500000)))
            w.contents[c]["words"] = sorted({"b:" + x for x in body})
            w.bymid.setdefault(m, []).append(c)
    w.bad = w.content(None, ok=False)
    if extra: extra(w, rng)
    w.finish()
    w.std_probes({"tag", "folder"})
    return w

class CWalk:
    def __init__(self, r, rng, pid):
        self.r, self.rng, self.pid, self.w = r, rng, pid, r.w
        self.wt = PROFILES[pid]["w"]
        self.st = St()
        self.st.present = {}
        self.syncset = rng.random() < (0.85 if pid == "P09" else 0.5)
        self.newtags = rng.choice([["t1"], ["t1", "unread"], ["unread", "t2"], [], ["t1", "t2", "flagged"]])
        self.newtags = [t for t in self.newtags if t in self.w.tags.c and self.cfgsafe(self.w.tags.conc(t))]
        self.verb, self.rx, self.full = [], [], False
        self.dirty = True
        self.taken = set()
    def cfgsafe(self, t): return ";" not in t and "\\" not in t and t.strip() == t and t and not t.startswith("-") and "\n" not in t
    def sync(self):
        for x in reversed(self.r.lines):
            if "o" in x:
                self.st.present = {m["id"]: [tuple(f) for f in m["files"]] for m in x["o"]["mail"] if m["id"] in self.w.mids.c}
                return
    def step(self):
        self.sync()
        op = self.rng.choices(list(self.wt), list(self.wt.values()))[0]
        getattr(self, "op_" + op)()
    # -- the mail tree
    def fresh(self):
        self.w.base += 1
        return self.rng.choice(BASES if self.rng.random() < 0.3 else BASES[:1]) % self.w.base
    def name(self, folder, base=None):
        base = base or self.fresh()
        if folder and folder[-1] == "cur" or self.rng.random() < 0.15:
            if self.rng.random() < 0.9: base += ":2," + self.rng.choice(WEIRDFLAGS)
        return base
    def somefiles(self): return [list(p) for p in self.r.have]
    def folder(self):
        if self.rng.random() < 0.15:
            # a directory that is reached through a link
            ln = [list(d) for d in self.r.hasdir if d and any(os.path.islink(self.r.fp(d[:i])) for i in range(1, len(d) + 1))]
            if ln: return self.rng.choice(ln)
        return list(self.rng.choice(self.w.folders))
    def free(self, p): return tuple(p) not in self.r.have and tuple(p) not in self.r.hasdir and not os.path.lexists(self.r.fp(p))
    def op_deliver(self):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            f = self.folder()
            m = rng.choice(self.w.mids.syms())
            self.putfile(f + [self.name(f)], rng.choice(self.w.bymid[m]))
        self.changed("deliver")
    def putfile(self, p, c):
        if not self.free(p) or tuple(p) in self.taken: return
        for i in range(len(p)):
            if tuple(p[:i]) in self.r.have: return
        self.r.put(p, c)
        self.r.tree()
    def changed(self, op): self.r.fs_event(op=op); self.dirty = True
    def op_copy(self):
        """one more file of a message there is, perhaps under nearly the same name"""
        fs = [p for p in self.somefiles() if self.r.have[tuple(p)] != "?" and self.w.contents[self.r.have[tuple(p)]]["ok"]]
        if not fs: return
        p = self.rng.choice(fs)
        c = self.r.have[tuple(p)]
        m = self.w.contents[c]["mid"]
        if self.rng.random() < 0.5: c = self.rng.choice(self.w.bymid[m])
        f = self.folder()
        if self.rng.random() < 0.4:
            f = p[:-1]
            if f and f[-1] in ("cur", "new") and self.rng.random() < 0.5: f = f[:-1] + [{"cur": "new", "new": "cur"}[f[-1]]]
            q = f + [self.name(f, parsename(p[-1])["base"])]
        else: q = f + [self.name(f)]
        self.putfile(q, c)
        self.changed("copy")
    def op_flags(self):
        """what a mail client does"""
        fs = [p for p in self.somefiles() if len(p) > 1 and p[-2] in ("cur", "new") and self.r.have[tuple(p)] != "?"]
        if not fs: return
        p = self.rng.choice(fs)
        q = p[:-2] + ["cur", parsename(p[-1])["base"] + ":2," + self.rng.choice(WEIRDFLAGS)]
        if self.free(q) and tuple(q[:-1]) in self.r.hasdir:
            self.r.mv(p, q)
        self.changed("flags")
    def op_odd(self):
        fs = [p for p in self.somefiles() if len(p) > 1 and p[-2] in ("cur", "new") and self.r.have[tuple(p)] != "?"]
        if not fs: return
        p = self.rng.choice(fs)
        q = p[:-1] + [parsename(p[-1])["base"] + ":2," + self.rng.choice(BADFLAGS)]
        if self.free(q): self.r.mv(p, q)
        self.changed("odd")
    def op_move(self):
        fs = self.somefiles()
        if not fs: return
        p = self.rng.choice(fs)
        f = self.folder()
        if self.rng.random() < 0.5: q = f + [p[-1]]
        else: q = f + [self.name(f, parsename(p[-1])["base"])]
        if self.free(q) and tuple(f) in self.r.hasdir | {()}: self.r.mv(p, q)
        self.changed("move")
    def op_rm(self):
        fs = self.somefiles()
        if fs: self.r.rm(self.rng.choice(fs))
        self.changed("rm")
    # -- directories
    def subdirs(self): return [list(d) for d in self.r.hasdir if d]
    def newdir(self):
        rng = self.rng
        up = list(rng.choice([()] + list(self.r.hasdir)))
        if up and up[-1] in ("cur", "new", "tmp") and rng.random() < 0.7: up = up[:-1]
        if len(up) > 3: up = []
        n = rng.choice(["a", "b", "c", "d", "x", "x y", "ab", "\u00e9", "Mail", ".hid", "cur", "new", "zz"])
        return up + [n]
    def op_mkdir(self):
        p = self.newdir()
        if not self.free(p): return
        os.mkdir(self.r.fp(p))
        self.r.touched(p, p[:-1])
        if self.rng.random() < 0.5:
            for x in ("cur", "new", "tmp"): os.mkdir(self.r.fp(p + [x])); self.r.touched(p + [x], p)
        self.r.tree()
        for q in [p, p + ["cur"], p + ["new"]]:
            if tuple(q) in self.r.hasdir and q[-1] not in self.verb and q not in self.w.folders: self.w.folders.append(q)
        self.changed("mkdir")
    def retime(self, p):
        """a directory that comes to a place where there was one before is noticed only if its time differs"""
        for d, ds, _ in os.walk(self.r.fp(p)): os.utime(d, (self.r.now, self.r.now))
    def op_mvdir(self):
        r, rng = self.r, self.rng
        ds = [d for d in self.subdirs() if not os.path.islink(r.fp(d))]
        if not ds: return
        p = rng.choice(ds)
        q = self.newdir() if rng.random() < 0.6 else rng.choice(self.subdirs() + [[x] for x in "abcdx"])
        if q[:len(p)] == p or not self.free(q): return
        if any(os.path.islink(r.fp(q[:i])) for i in range(1, len(q))): return
        if not os.path.isdir(r.fp(q[:-1])): return
        self.nolinks(p)
        os.rename(r.fp(p), r.fp(q))
        r.now += 1
        if any(tuple(q) == tuple(d[:len(q)]) for d in self.everdirs()): self.retime(q)
        r.touched(p[:-1], q[:-1])
        self.changed("mvdir")
    def everdirs(self): return self.r.dirs
    def nolinks(self, p):
        """links must not dangle"""
        for d, ds, fs in os.walk(self.r.root):
            for x in ds + fs:
                y = os.path.join(d, x)
                if os.path.islink(y) and (os.path.realpath(y) + "/").startswith(self.r.fp(p) + "/"):
                    os.unlink(y)
                    os.utime(d, (self.r.now, self.r.now))
    def op_rmdir(self):
        r, rng = self.r, self.rng
        ds = self.subdirs()
        if not ds: return
        p = rng.choice(ds)
        self.nolinks(p)
        if not os.path.lexists(r.fp(p)): r.tree(); return self.changed("rmdir")
        if os.path.islink(r.fp(p)): os.unlink(r.fp(p))
        else: shutil.rmtree(r.fp(p))
        r.touched(p[:-1])
        # something else may take its place
        if rng.random() < 0.25 and p[-1] not in ("cur", "new", "tmp") and os.path.isdir(r.fp(p[:-1])):
            r.tree()
            m = rng.choice(self.w.mids.syms())
            r.now += 1
            self.putfile(p, rng.choice(self.w.bymid[m]))
            self.taken.add(tuple(p))
        self.changed("rmdir")
    def op_link(self):
        """a symbolic link to a directory or a file elsewhere"""
        r, rng = self.r, self.rng
        out = r.wd + "/elsewhere%d" % rng.randint(1, 2)
        # (two ways to one directory would make every rename two)
        if any(os.path.realpath(r.fp(d)) == os.path.realpath(out) for d in r.hasdir): out = r.wd + "/elsewhere-%d" % self.w.base
        if rng.random() < 0.7:
            os.makedirs(out, exist_ok=True)
            m = rng.choice(self.w.mids.syms())
            n = out + "/" + self.fresh()
            with open(n, "wb") as f: f.write(self.w.bytes[rng.choice(self.w.bymid[m])])
            os.utime(out, (r.now, r.now))
            p = self.newdir()
            if self.free(p) and not any(os.path.islink(r.fp(p[:i])) for i in range(1, len(p))):
                os.symlink(out, r.fp(p)); r.touched(p[:-1])
                if any(tuple(p) == tuple(d[:len(p)]) for d in self.everdirs()): os.utime(out, (r.now, r.now))
        else:
            f = self.folder()
            q = f + [self.name(f)]
            m = rng.choice(self.w.mids.syms())
            n = r.wd + "/single%d" % self.w.base
            with open(n, "wb") as g: g.write(self.w.bytes[rng.choice(self.w.bymid[m])])
            if self.free(q) and tuple(f) in r.hasdir | {()}: os.symlink(n, r.fp(q)); r.touched(f)
        self.changed("link")
    def op_alone(self):
        """one change long after everything else has settled"""
        r, rng = self.r, self.rng
        self.op_new(); self.op_tick(); self.op_new(); self.op_tick()
        ln = [list(d) for d in r.hasdir if d and any(os.path.islink(r.fp(d[:i])) for i in range(1, len(d) + 1))]
        if ln and rng.random() < 0.7:
            f = rng.choice(ln)
            self.putfile(f + [self.name(f)], rng.choice(self.w.bymid[rng.choice(self.w.mids.syms())]))
            self.changed("alone")
        else: getattr(self, "op_" + rng.choice(["deliver", "copy", "flags", "move", "rm", "mkdir", "mvdir", "rmdir", "link", "todir"]))()
        self.op_new()
    def op_todir(self):
        """a directory takes the place of a file"""
        r, rng = self.r, self.rng
        fs = [p for p in self.somefiles() if r.have[tuple(p)] != "?" and ":2," not in p[-1] and not any(os.path.islink(r.fp(p[:i])) for i in range(1, len(p) + 1))]
        if not fs: return
        p = rng.choice(fs)
        r.rm(p)
        os.mkdir(r.fp(p))
        r.touched(p, p[:-1])
        r.tree()
        if rng.random() < 0.8:
            m = rng.choice(self.w.mids.syms())
            self.putfile(p + [self.fresh()], rng.choice(self.w.bymid[m]))
        if p not in self.w.folders: self.w.folders.append(p)
        self.changed("todir")
    def op_shrink(self):
        """nothing happens but that a message loses a file, or all those in one directory"""
        r, rng = self.r, self.rng
        self.sync()
        ms = [fs for fs in self.st.present.values() if len(fs) > 1]
        if not ms: return self.op_rm()
        self.op_new()
        p = list(rng.choice(rng.choice(ms)))
        if tuple(p) not in r.have: return
        if rng.random() < 0.5 and len(p) > 2 and not any(os.path.islink(r.fp(p[:i])) for i in range(1, len(p))):
            d = p[:rng.randint(1, len(p) - 1)]
            self.nolinks(d)
            if os.path.isdir(r.fp(d)):
                shutil.rmtree(r.fp(d))
                r.touched(d[:-1])
        else: r.rm(p)
        self.changed("shrink")
        self.op_new()
    def op_junk(self):
        f = self.folder()
        if tuple(f) in self.r.hasdir | {()}: self.putfile(f + [self.fresh()], self.w.bad)
        self.changed("junk")
    def op_swap(self):
        """change what is ignored"""
        rng = self.rng
        names = [p[-1] for p in self.subdirs()] + [p[-1] for p in self.somefiles()]
        names = [n for n in names if ";" not in n and "\\" not in n and n.strip() == n and not n.startswith("/") and "#" not in n]
        self.verb = rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2])))
        self.rx = rng.sample(["^a/", "cur", r"[.]host$", "^b$", "^.*/x", "sub", "new/[0-3]", "host:2,S"], rng.choice([0, 0, 1, 1]))
        self.full = True
    def op_tick(self): self.r.now += self.rng.randint(1, 3)
    # -- commands
    def op_new(self):
        rng = self.rng
        if rng.random() < 0.6: self.op_tick()
        self.r.new(self.newtags, self.syncset, self.verb, self.rx, self.full or rng.random() < 0.1)
        self.full = False
        self.dirty = False
        if rng.random() < 0.6: self.op_tick()
    def op_race(self):
        """the mail changes while a scan runs; later scans know about it"""
        from .c_share import Proc
        r, rng = self.r, self.rng
        if self.dirty and rng.random() < 0.5: self.op_new()
        if not os.path.isdir(r.root + "/.notmuch/xapian"): return self.op_new()
        for _ in range(rng.choice([0, 1, 1, 2])): getattr(self, "op_" + rng.choice(["deliver", "copy", "flags", "move", "rm"]))()
        if rng.random() < 0.5: self.op_tick()
        need = self.full
        full = need or rng.random() < 0.2
        self.full = False
        r.cli.conf["new"] = {"tags": [self.w.tags.conc(t) for t in self.newtags], "ignore": list(self.verb) + ["/%s/" % x for x in self.rx]}
        r.cli.conf["maildir"] = {"synchronize_flags": "true" if self.syncset else "false"}
        r.cli.write()
        tf = r.wd + "/clock"
        def clock():
            with open(tf + ".x", "w") as f: f.write(str(r.now))
            os.rename(tf + ".x", tf)
        clock()
        p = Proc(r, 9, ["new", "--quiet", "--no-hooks"] + (["--full-scan"] if full else []), b"", rng.randint(1, len(r.hasdir) + 4))
        p.env.update(NMV_OPS=rng.choice(["scandir,opendir,stat,openr", "scandir,opendir", "stat", "scandir,opendir,openr"]), NMV_SKIP="/.notmuch", NMV_TIME_FILE=tf)
        before = r.mtimes()
        p.launch(0)
        try:
            t0 = time.time()
            while p.state() not in "ET":
                time.sleep(0.001)
                if time.time() - t0 > 60: raise RuntimeError("scan does not stop")
            stopped = p.state() == "T"
            rx = r.rxhits(self.rx)
            what = []
            if stopped:
                n = len(r.lines)
                for _ in range(rng.choice([1, 1, 2, 3])):
                    if rng.random() < 0.4: self.op_tick(); clock()
                    getattr(self, "op_" + rng.choice(["deliver", "deliver", "copy", "flags", "move", "move", "rm", "mkdir", "rmdir"]))()
                what = [x["op"] for x in r.lines[n:]]
                del r.lines[n:]
                if rng.random() < 0.4: self.op_tick(); clock()
                before = r.mtimes()
                p.go()
            p.p.wait(60)
        finally:
            if p.p.poll() is None: p.p.kill(); p.p.wait()
        r.fix_times(before)
        t = r.tree()
        line = dict(ev="newrace", st=p.p.returncode, want=p.p.returncode, tags=list(self.newtags), sync=self.syncset, verb=list(self.verb), rx=sorted(set(map(tuple, rx + r.rxhits(self.rx)))), tree=t, what=what, stop=[p.env["NMV_OPS"], p.env["NMV_STOP_AT"]], err=p.out("err").decode("utf-8", "replace")[-200:])
        line["o"] = r.look_at()
        r.lines.append(line)
        # (An error may keep it from looking at everything, but not from doing so next time.)
        if rng.random() < 0.6: self.op_tick()
        r.new(self.newtags, self.syncset, self.verb, self.rx, need and p.p.returncode == 1)    # (see op_ignore)
        self.dirty = False
        if rng.random() < 0.5: self.op_tick()
    def query(self):
        rng = self.rng
        g = Gen(rng, self.r, self.st)
        g.kinds = ["tag"] * 6 + ["id"] * 4 + ["folder"] * 2 + ["path", "pathr"] + ["thread", "threadof", "all", "fieldop", "tagre", "idre", "swtag", "any", "date", "embed"]
        if rng.random() < 0.15: return Q({"k": "all"}, "*", "()")
        for _ in range(20):
            q = g.expr(rng.choice([0, 0, 1, 1, 2]))
            if q.i is None or len(q.i) + len(q.s) > 5000: continue
            if "\n" in q.i + q.s: continue
            return q
        return Q({"k": "all"}, "*", "()")
    def tagops(self):
        rng = self.rng
        ts = self.w.tags.syms()
        # maildir tags more often
        pool = ts + (MTAGS if self.pid == "P09" else [])
        ops = [{"add": rng.random() < 0.6, "t": rng.choice(pool)} for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 13]))]
        if rng.random() < 0.15: ops.append({"add": not ops[0]["add"], "t": ops[0]["t"]})
        return ops
    def tagconf(self):
        self.cli_sync = self.syncset if self.rng.random() < 0.8 else not self.syncset
        self.r.cli.conf["maildir"] = {"synchronize_flags": "true" if self.cli_sync else "false"}
        self.r.cli.write()
        return self.cli_sync
    def settle(self):
        """a command that renames files takes what is at their place, even a directory"""
        if any(f in self.r.hasdir for fs in self.st.present.values() for f in fs): self.op_new(); self.sync()
    def op_tag(self):
        r, rng, w = self.r, self.rng, self.w
        self.settle()
        sync = self.tagconf()
        ops = [o for o in self.tagops() if not w.tags.conc(o["t"]).startswith("-")]
        alln = rng.random() < 0.15
        if not ops and not alln: return
        q = self.query()
        if alln and ops and rng.random() < 0.4:
            q = Gen(rng, r, self.st).field("tag", w.tags.conc(ops[0]["t"]))
            q = Q({"k": "tag", "v": ops[0]["t"]}, *q) if not w.tags.conc(ops[0]["t"]).startswith("/") else self.query()
        sexp = rng.random() < 0.35
        text = q.s if sexp else q.i
        a = ["tag"] + (["--query=sexp"] if sexp else []) + (["--remove-all"] if alln else []) + [("+" if o["add"] else "-") + w.tags.conc(o["t"]) for o in ops]
        if rng.random() < 0.03:
            # refused as a whole
            a[-1:] = a[-1:] + [rng.choice(["+", "+-x"])]
            r.command("clitag", a + ["--", text], lines=[], all=False, sync=sync, want=1)
        else: r.command("clitag", a + ["--", text], lines=[{"ops": ops, "q": q.ast}], all=alln, sync=sync)
        self.after()
    def enc(self, t):
        out = ""
        for b in t.encode("utf-8"):
            c = chr(b)
            if (c.isalnum() and b < 128 or c in "+-_@=.,:") and self.rng.random() < 0.95: out += c
            else: out += "%%%02x" % b if self.rng.random() < 0.7 else "%%%02X" % b
        if out.startswith("-"): out = "%2d" + out[1:]
        return out
    def op_batch(self):
        r, rng, w = self.r, self.rng, self.w
        self.settle()
        sync = self.tagconf()
        alln = rng.random() < 0.08
        sexp = rng.random() < 0.3
        text, lines, want = "", [], 0
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < 0.1: text += rng.choice(["# +t1 -- *", "", "   ", "\t# x"]) + "\n"; continue
            if x < 0.2: text += rng.choice(["+foo", "+%zz -- *", "+ -- *", "+-x -- *", "+foo --", "-", "+foo -bar"]) + "\n"; want = 1; continue
            ops = self.tagops()
            q = self.query()
            qt = q.s if sexp else q.i
            if x < 0.25: ops = []
            t = " ".join(("+" if o["add"] else "-") + self.enc(w.tags.conc(o["t"])) for o in ops)
            sep = "-- " if rng.random() < 0.7 or qt[0] in "+-" or not ops else ""
            text += rng.choice(["", "", "  "]) + (t + rng.choice([" ", "  "]) if t else "") + sep + qt + "\n"
            lines.append({"ops": ops, "q": q.ast})
        if rng.random() < 0.2: text = text[:-1]
        a = ["tag", "--batch"] + (["--query=sexp"] if sexp else []) + (["--remove-all"] if alln else [])
        if rng.random() < 0.3:
            with open(r.wd + "/batch", "w") as f: f.write(text)
            r.command("clitag", a[:1] + a[2:] + ["--input=" + r.wd + "/batch"], lines=lines, all=alln, sync=sync, want=want, text=text)
        else: r.command("clitag", a, input=text, lines=lines, all=alln, sync=sync, want=want, text=text)
        self.after()
    def after(self):
        self.dirty = True
        # files may have moved to an ignored place, which only a full scan notices
        if self.verb or self.rx: self.full = True

def start(pid, i, seed, extra=None, walk=None):
    rng = random.Random("%s/%s/%s" % (pid, i, seed))
    w = cworld(rng, pid, extra)
    wd = tempfile.mkdtemp(prefix="%s-%s-" % (pid, i), dir=os.environ["NMV_WD"])
    r = CRun(build(), w, wd, set(PROFILES[pid]["cmp"].split()))
    r.lines[0]["saved"] = {}
    for f in w.folders: os.makedirs(r.fp(f), exist_ok=True)
    r.touched(*w.folders)
    r.fs_event(op="start")
    return rng, w, wd, r, (walk or CWalk)(r, rng, pid)

def history(pid, i, seed):
    rng, w, wd, r, st = start(pid, i, seed)
    try:
        for _ in range(rng.randint(2, 4)): st.op_deliver()
        st.op_new()
        if pid == "P07": st.op_batch()
        for _ in range(PROFILES[pid]["n"]): st.step()
        if pid != "P07": st.op_new()
        return r.done()
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def run(c, fn, n):
    os.environ["NMV_WD"] = c.wd
    res = c.run_traces(fn, [(c.pid, i, c.seed) for i in range(n)])
    c.validate("StoreTrace.tla", "StoreTrace.cfg", fn, res)
def P07(c): run(c, history, int(os.environ.get('NMV_N', 250 if c.quick else 3000)))
def P09(c): run(c, history, int(os.environ.get('NMV_N', 250 if c.quick else 3000)))
def scanmodel(c): c.model("Scan.tla", "MCScan.cfg" if c.quick else "MCScan_thorough.cfg", workers=7, timeout=3000)
def P01(c):
    scanmodel(c)
    run(c, history, int(os.environ.get('NMV_N', 300 if c.quick else 3000)))
