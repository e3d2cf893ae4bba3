"""Checks of interrupted commands: P02."""
import os, random, shutil
from nmv.mail import dbid
from . import c_cli
from .c_cli import CWalk, start, run, CMP
from .c_dump import DWalk
from .c_store import known_probe

c_cli.PROFILES["P02"] = dict(cmp=CMP + " hdr", n=9, nmids=7, w=dict(deliver=5, copy=3, flags=2, move=5, rm=2, mvdir=2, rmdir=1, mkdir=0.5, tag=3, give=3, tick=1, new=1, cut=6))

class KWalk(DWalk):
    def op_give(self):
        """tags and properties that must not get lost"""
        r = self.r
        xs = [x for x in (self.synth() for _ in range(8)) if x[1]["k"] != "c"]
        r.command("restore", ["restore", "--format=batch-tag"], input="\n".join(t for t, _ in xs).encode("utf-8", "surrogateescape"), lines=[x for _, x in xs], inc=["tags", "properties"], acc=False, sync=self.tagconf())
        self.after()
    def save(self, to):
        shutil.rmtree(to, ignore_errors=True)
        if os.path.isdir(self.r.root + "/.notmuch"): shutil.copytree(self.r.root + "/.notmuch", to)
    def back(self, frm):
        t = os.stat(self.r.root).st_mtime_ns
        shutil.rmtree(self.r.root + "/.notmuch", ignore_errors=True)
        if os.path.isdir(frm): shutil.copytree(frm, self.r.root + "/.notmuch")
        os.utime(self.r.root, ns=(t, t))
    def scan(self, args, env):
        """notmuch new, not recorded as such"""
        r = self.r
        before = r.mtimes()
        rc, out, err = r.cli.run(*args, env=dict(env, NMV_TIME=r.now, NMV_ROOT=r.root + "/.notmuch"), preload=r.b.shim)
        r.fix_times(before)
        return rc, err
    def halfborn(self):
        """left by Xapian when it is stopped while it creates the database files"""
        x = self.r.root + "/.notmuch/xapian"
        return os.path.isdir(x) and not os.path.exists(x + "/iamglass")
    def count(self, args, env):
        log = self.r.wd + "/ops"
        if os.path.exists(log): os.unlink(log)
        self.scan(args, dict(env, NMV_LOG=log))
        with open(log) as f: return f.read().count("\n")
    def op_cut(self, n=None):
        """stop a scan halfway, in several ways from the same state; then let it happen"""
        r, rng = self.r, self.rng
        if rng.random() < 0.6: self.op_tick()
        r.cli.conf["new"] = {"tags": [self.w.tags.conc(t) for t in self.newtags], "ignore": list(self.verb) + ["/%s/" % x for x in self.rx]}
        r.cli.conf["maildir"] = {"synchronize_flags": "true" if self.syncset else "false"}
        ac = rng.choice([None, 1, 1, 1, 2, 3])
        r.cli.conf["database"] = dict(r.cli.conf.get("database", {}), **({"autocommit": str(ac)} if ac else {}))
        r.cli.write()
        args = ["new", "--quiet"] + (["--full-scan"] if self.full else [])
        env = {"XAPIAN_FLUSH_THRESHOLD": rng.choice(["", "1", "2"])}
        env = {k: v for k, v in env.items() if v}
        r.reader and r.reader.kill() if hasattr(r.reader, "kill") else None
        sv = r.wd + "/saved"
        self.save(sv)
        N = self.count(args, env)
        for _ in range(n or (3 if os.environ.get("VERIF_TIER") != "thorough" else 8)):
            os_, how = [], []
            self.back(sv)
            if N == 0: break
            M = N
            while True:
                k = rng.randint(1, M)
                x = rng.random()
                e = {"NMV_KILL_AT": k, "NMV_KILL_HALF": rng.choice([0, 1])} if x < 0.5 else {"NMV_INT_AT": k} if x < 0.8 else {"NMV_FAIL_AT": k, "NMV_FAIL_FOR": rng.choice([0, 1]), "NMV_FAIL_ERRNO": rng.choice([5, 28]), "NMV_LOG": r.wd + "/log"}
                if os.path.exists(r.wd + "/log"): os.unlink(r.wd + "/log")
                rc, err = self.scan(args, dict(env, **e))
                how.append("%s autocommit=%s %s rc=%s %s" % (e, ac, env, rc, err[-100:]))
                if "NMV_LOG" in e and os.path.exists(e["NMV_LOG"]): how[-1] += "; ".join(x.strip() for x in open(e["NMV_LOG"]) if "\t-1\t" in x).replace(r.root, "")
                os_.append(r.look_at())
                if rng.random() < 0.75: break
            hb = self.halfborn()
            rc, err = self.scan(args, {})
            how.append("rc=%s %s" % (rc, err[-100:]))
            r.lines.append(dict(ev="newcut", st=0, halfborn=hb, want=rc, tags=list(self.newtags), sync=self.syncset, verb=list(self.verb), rx=r.rxhits(self.rx), cuts=os_, fin=r.look_at(), tree=r.tree(), how=how))
        self.back(sv)
        self.full, f = False, self.full
        r.cli.conf["database"].pop("autocommit", None)
        r.new(self.newtags, self.syncset, self.verb, self.rx, f)
        self.dirty = False
        if rng.random() < 0.6: self.op_tick()

def history(pid, i, seed):
    rng, w, wd, r, st = start(pid, i, seed)
    st = KWalk(r, rng, pid)
    try:
        for _ in range(rng.randint(2, 4)): st.op_deliver()
        if rng.random() < 0.25: st.op_cut()
        else: st.op_new()
        st.sync()
        for _ in range(c_cli.PROFILES[pid]["n"]): st.step()
        st.op_cut()
        return r.done()
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def probe(which, strict):
    """F-P02-1: the first scan ever is killed while Xapian creates its files"""
    rng, w, wd, r, st = start("P02", "probe", 0)
    st = KWalk(r, rng, "P02")
    r.lines[0]["strict"] = strict
    try:
        st.op_deliver()
        r.cli.conf["new"] = {"tags": []}
        r.cli.conf["maildir"] = {"synchronize_flags": "false"}
        r.cli.write()
        st.scan(["new", "--quiet"], {"NMV_OPS": "rename", "NMV_KILL_AT": 1})
        o, hb = r.look_at(), st.halfborn()
        rc, err = st.scan(["new", "--quiet"], {})
        r.lines.append(dict(ev="newcut", st=0, halfborn=hb, want=rc, tags=[], sync=False, verb=[], rx=[], cuts=[o], fin=r.look_at(), tree=r.tree(), how=[err]))
        return r.done()
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def P02(c):
    c_cli.scanmodel(c)
    known_probe(c, "F-P02-1", probe)
    run(c, history, int(os.environ.get("NMV_N", 120 if c.quick else 1200)))
