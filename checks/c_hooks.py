"""Checks of hooks: P20."""
import fcntl, os, random, select, shutil, socket, subprocess, time
from . import c_cli
from .c_cli import CMP, CWalk, start, run
from .c_insert import IWalk, contents

c_cli.PROFILES["P20"] = dict(cmp=CMP, n=14, nmids=6, w=dict(hnew=8, insert=6, deliver=3, copy=1, flags=1, rm=1, move=1, tag=2, mvdir=0.5, tick=1))
SCRIPT = """#!/usr/bin/python3 -ISE
import os, socket, sys
s = socket.socket(socket.AF_UNIX)
s.connect(%r)
s.sendall(("%%s\\n%%s\\n" %% (sys.argv[0].rsplit("/", 1)[-1], os.environ.get("NOTMUCH_CONFIG", "?"))).encode())
c = s.recv(10).decode()
if c == "k": os.kill(os.getpid(), 9)
os._exit(int(c))
"""

class HWalk(IWalk):
    def __init__(self, r, rng, pid):
        super().__init__(r, rng, pid)
        self.sock = socket.socket(socket.AF_UNIX)
        self.at = r.wd + "/sock"
        self.sock.bind(self.at)
        self.sock.listen(4)
        self.script = r.wd + "/hook-script"
        with open(self.script, "w") as f: f.write(SCRIPT % self.at)
        os.chmod(self.script, 0o755)
        r.nohooks = True
    def outside(self):
        mine = [self.r.wd + "/" + x for x in ("ownhooks", "saved", "out")]
        return {(d, x) for d, x in super().outside() if not any((d + "/").startswith(m + "/") for m in mine) and d + "/" + x not in mine}
    # -- setting up hooks
    def place(self, kinds):
        r, rng = self.r, self.rng
        default = r.root + "/.notmuch/hooks"
        own = r.wd + "/ownhooks"
        for d in (default, own): shutil.rmtree(d, ignore_errors=True)
        db = r.cli.conf["database"]
        db.pop("hook_dir", None)
        if rng.random() < 0.4:
            db["hook_dir"] = own
            # these are not the ones
            if rng.random() < 0.4:
                os.makedirs(default)
                for x in ("pre-new", "post-new", "post-insert"): os.symlink("/bin/false", default + "/" + x)
            d = own
        else: d = default
        r.cli.write()
        if all(k == "none" for k in kinds.values()) and rng.random() < 0.5: return
        os.makedirs(d, exist_ok=True)
        for n, k in kinds.items():
            p = d + "/" + n
            if k == "none":
                if rng.random() < 0.2: os.symlink(r.wd + "/nowhere", p)
                continue
            if k == "noexec":
                if rng.random() < 0.8: shutil.copy(self.script, p); os.chmod(p, 0o644)
                else: os.mkdir(p); os.chmod(p, 0o755)
            elif rng.random() < 0.2: os.symlink(self.script, p)
            else: shutil.copy(self.script, p); os.chmod(p, 0o755)
    def kind(self): return self.rng.choice(["none", "ok", "ok", "ok", "fail", "signal", "noexec"])
    def locked(self):
        try: f = open(self.r.root + "/.notmuch/xapian/flintlock", "r+b")
        except OSError: return False
        try:
            fcntl.lockf(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
            fcntl.lockf(f, fcntl.LOCK_UN)
            return False
        except OSError: return True
        finally: f.close()
    def serve(self, a, data, env, onhook):
        """runs a command, and calls onhook for each hook it runs"""
        r = self.r
        e = dict(r.cli.env, LD_PRELOAD=r.b.shim)
        e.update({k: str(v) for k, v in env.items()})
        pre = [r.b.notmuch]
        if self.rng.random() < 0.3: pre.append("--config=" + e.pop("NOTMUCH_CONFIG"))
        with open(r.wd + "/out/in", "wb") as f: f.write(data)
        ran = []
        with open(r.wd + "/out/in", "rb") as i, open(r.wd + "/out/err", "wb") as er:
            p = subprocess.Popen(pre + [x.encode("utf-8", "surrogateescape") for x in a], stdin=i, stdout=subprocess.DEVNULL, stderr=er, env=e, cwd=r.cli.home)
            fd = os.pidfd_open(p.pid)
            try:
                t0 = time.time()
                while True:
                    rd, _, _ = select.select([self.sock, fd], [], [], 60)
                    if not rd: p.kill(); break
                    # (a hook that is still running when its command is done was not waited for)
                    if self.sock in rd:
                        c, _ = self.sock.accept()
                        b = b""
                        while b.count(b"\n") < 2:
                            x = c.recv(4000)
                            if not x: break
                            b += x
                        n, cf = b.decode("utf-8", "surrogateescape").split("\n")[:2]
                        ran.append({"pre-new": "pre"}.get(n, "post"))
                        try: c.sendall(onhook(n, cf == r.cli.cfg).encode())
                        except BrokenPipeError: ran.append("unattended")
                        c.close()
                    elif fd in rd: break
                rc = p.wait()
            finally: os.close(fd)
        with open(r.wd + "/out/err", errors="replace") as f: return rc, f.read(), ran
    def hookrun(self, n, conf):
        r = self.r
        line = dict(ev="hookrun", st=0, hook=n, conf=conf, locked=self.locked())
        line["tree"] = r.tree()
        line["o"] = r.look_at()
        r.lines.append(line)
        return not line["locked"]
    def answer(self, k): return {"ok": "0", "signal": "k"}.get(k) or str(self.rng.choice([1, 2, 75, 255]))
    def within(self, free):
        """what a hook does itself"""
        if not free or self.rng.random() < 0.3: return
        self.r.now += 2
        for _ in range(self.rng.randint(1, 3)):
            self.sync()
            getattr(self, "op_" + self.rng.choice(["tag", "tag", "deliver", "deliver", "rm", "flags", "new", "batch", "copy"]))()
    # -- commands with hooks
    def op_hnew(self):
        r, rng = self.r, self.rng
        kinds = {"pre-new": self.kind(), "post-new": self.kind(), "post-insert": self.kind()}
        if rng.random() < 0.3: kinds["post-new"] = "ok"
        faulty = rng.random() < 0.3
        on = rng.random() < 0.8
        r.now += 2
        tags, sync = list(self.newtags), self.syncset
        r.cli.conf["new"] = {"tags": [self.w.tags.conc(t) for t in tags], "ignore": []}
        r.cli.conf["maildir"] = {"synchronize_flags": "true" if sync else "false"}
        self.place(kinds)
        a = ["new", "--quiet"] + ([] if on else ["--no-hooks"]) + (["--full-scan"] if rng.random() < 0.1 else [])
        if on and rng.random() < 0.1: a.append("--hooks")
        env = {"NMV_TIME": r.now}
        if faulty:
            sv = r.wd + "/saved"
            self.save(sv)
            env.update(NMV_ROOT=r.root + "/.notmuch/xapian", NMV_FAIL_ERRNO=rng.choice([5, 28]), NMV_FAIL_FOR=0)
            x = rng.random()
            if x < 0.4: env["NMV_FAIL_AT"] = rng.randint(3, 40)
            else: env["NMV_INT_AT"] = rng.randint(3, 30)
        box = {"before": r.mtimes(), "scan": False}
        def scanned(rc):
            r.fix_times(box["before"])
            box["scan"] = True
            line = dict(ev="clinew", st=rc, want=rc, args=a, tags=tags, sync=sync, verb=[], rx=[])
            line["tree"] = r.tree()
            line["o"] = r.look_at()
            r.lines.append(line)
        def onhook(n, conf):
            if n == "pre-new" and faulty: return self.answer(kinds[n])
            if n != "pre-new": scanned(0)
            free = self.hookrun(n, conf)
            if not faulty: self.within(free)
            if n == "pre-new": box["before"] = r.mtimes()
            return self.answer(kinds.get(n, "none"))
        rc, err, ran = self.serve(a, b"", env, onhook)
        r.now += 2
        if faulty and not box["scan"] and rc:
            r.fix_times(box["before"])
            self.back(sv)
            r.lines.append(dict(ev="hooks", st=rc, cmd="new", on=on, pre=kinds["pre-new"], post=kinds["post-new"], ran=ran, faulty=True, args=a, err=err[-200:]))
            return
        if not box["scan"] and not (on and kinds["pre-new"] in ("fail", "signal", "noexec")): scanned(0)
        line = dict(ev="hooks", st=rc, cmd="new", on=on, pre=kinds["pre-new"], post=kinds["post-new"], ran=ran, faulty=False, args=a, err=err[-200:])
        line["tree"] = r.tree()
        line["o"] = r.look_at()
        r.lines.append(line)
        if rng.random() < 0.2: r.fs_event(op="later")
    def save(self, to):
        shutil.rmtree(to, ignore_errors=True)
        if os.path.isdir(self.r.root + "/.notmuch"): shutil.copytree(self.r.root + "/.notmuch", to, symlinks=True)
    def back(self, frm):
        t = os.stat(self.r.root).st_mtime_ns
        shutil.rmtree(self.r.root + "/.notmuch", ignore_errors=True)
        if os.path.isdir(frm): shutil.copytree(frm, self.r.root + "/.notmuch", symlinks=True)
        os.utime(self.r.root, ns=(t, t))
    def deliver(self, a, data, env, done):
        r, rng = self.r, self.rng
        kinds = {"post-insert": self.kind(), "pre-new": self.kind(), "post-new": self.kind()}
        keep = dict(r.cli.conf["database"])
        self.place(kinds)
        box = {}
        def onhook(n, conf):
            if "done" not in box:
                box["done"] = True
                done(0, "")
                box["line"] = [x for x in r.lines if x["ev"] == "insert"][-1]
            free = self.hookrun(n, conf)
            self.within(free)
            return self.answer(kinds.get(n, "none"))
        rc, err, ran = self.serve(a, data, env, onhook)
        if "done" not in box: done(rc, err)
        else: box["line"].update(st=rc, want=rc, err=err[-200:])
        r.now += 2
        line = dict(ev="hooks", st=rc, cmd="insert", on="--no-hooks" not in a, pre=kinds["pre-new"], post=kinds["post-insert"], ran=ran, faulty=rc != 0, args=a, err=err[-200:])
        line["tree"] = r.tree()
        line["o"] = r.look_at()
        r.lines.append(line)

def history(pid, i, seed):
    box = {}
    def extra(w, rng): box["b"] = contents(w, rng)
    rng, w, wd, r, st = start(pid, i, seed, extra, HWalk)
    st.bigs, st.bads, st.mbox = box["b"]
    st.bads.append(w.bad)
    st.newtags = st.newtags
    try:
        for d in [[], ["a"], ["c"]]:
            for x in ("cur", "new", "tmp"): os.makedirs(r.fp(d + [x]), exist_ok=True)
        r.touched([], ["a"], ["c"])
        r.fs_event(op="maildirs")
        for _ in range(rng.randint(0, 2)): st.op_deliver()
        if rng.random() < 0.8: st.op_new()
        else:
            while not os.path.isdir(r.root + "/.notmuch/xapian"): st.op_hnew()
            st.op_new()
        for _ in range(c_cli.PROFILES[pid]["n"]): st.step()
        st.op_new()
        return r.done()
    finally:
        st.sock.close()
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def P20(c):
    c.model("MCHooks.tla", "MCHooks.cfg")
    run(c, history, int(os.environ.get("NMV_N", 200 if c.quick else 2500)))
