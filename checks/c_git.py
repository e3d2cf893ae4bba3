"""notmuch git: P21."""
import fcntl, hashlib, os, random, re, shutil, subprocess, sys, time
from urllib.parse import unquote_to_bytes
from nmv import tlc
from nmv.build import build, run as sh
from nmv.check import VERIF

MIDS = ["m1@x", "m2@x", "a/b@x", "50%@x", "q\"q@x", "\u00e9t\u00e9@x", "p)@x", "..x", "x~y@z", "*@x", "a&b=c;d@e", "id:1@x", "%41@x", "'s'$HOME@x", "-x", "\u65e5\u672c", "a\\b@x", "\"q\"", "#c@x", "tags@tags", "a..b", "x\u2028y@z"]
PREFIXES = ["x::", "notmuch::", "", "p", "a b:", "\u00e9:", "q\"", "~t", "#", "+", "x", "b/", "(", "50%", "c:\\"]
SUFFIXES = ["bug", "needs review", "a/b", "\u00e9", "50%", "~q", "-", "+x", "q\"q", "(a)", "%41", "fixed", "x::y", "a::b", "*", "...", "\\", "a\\nb", "UPPER", "upper", ".x", "FORMAT", "tags", "c\u2028d"]
OTHERS = ["inbox", "unread", "zz", "other tag", "y::bug"]

def binding(b):
    """the Python bindings, built in the scratch copy; None where that is not possible"""
    src, st = b.dir + "/src", b.dir + "/src/bindings/python-cffi/build/stage"
    with open(b.dir + "/git.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(b.dir + "/binding"):
            log = b.dir + "/log"
            ok = True
            if not os.path.exists(src + "/lib/libnotmuch.so"): os.symlink("libnotmuch.so.5", src + "/lib/libnotmuch.so")
            ok = sh(["python3", "setup.py", "build", "--build-lib", "build/stage"], src + "/bindings/python-cffi", log) == 0
            env = dict(os.environ, PYTHONPATH=st, LD_LIBRARY_PATH=src + "/lib")
            ok = ok and sh(["python3", "-c", "import notmuch2"], src, log, env) == 0
            with open(b.dir + "/binding", "w") as f: f.write(st if ok else "")
    s = open(b.dir + "/binding").read()
    return s or None

def hexdec(s): return re.sub(rb"%([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), s)
def hexenc(s): return "".join(chr(c) if chr(c).isalnum() and c < 128 else "%%%02x" % c for c in s.encode())

class User:
    def __init__(self, w, n):
        self.w, self.n = w, n
        self.home = w.wd + "/" + n
        self.mail = self.home + "/mail"
        self.repo = self.home + "/repo"
        for d in ("cur", "new", "tmp"): os.makedirs(self.mail + "/" + d)
        self.frac = (1, 1)
        self.px = w.px
        self.how = w.rng.choice(["config", "env", "option"]) if w.px else "config"
        self.env = {"PATH": w.wd + "/bin:/usr/bin:/bin", "HOME": self.home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "NOTMUCH_CONFIG": self.home + "/config", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                    "GIT_CONFIG_NOSYSTEM": "1", "GIT_MERGE_AUTOEDIT": "no", "PYTHONIOENCODING": "utf-8"}
        if w.bind: self.env.update(PYTHONPATH=w.bind, LD_LIBRARY_PATH=w.b.dir + "/src/lib")
        if self.how == "env": self.env["NOTMUCH_GIT_PREFIX"] = w.px
        with open(self.home + "/.gitconfig", "w") as f: f.write("[user]\nname=%s\nemail=%s@x\n[pull]\nrebase=false\n[gc]\nauto=0\n[safe]\ndirectory=*\n[init]\ndefaultBranch=master\n" % (n, n))
        self.conf()
        self.has = set()
        self.inited = False
    def conf(self):
        with open(self.home + "/config", "w") as f:
            f.write("[database]\npath=%s\n[user]\nname=x\nprimary_email=x@y\n[new]\ntags=\n[maildir]\nsynchronize_flags=false\n[search]\nexclude_tags=\n[git]\nsafe_fraction=%r\n" % (self.mail, self.frac[0] / self.frac[1]))
            f.write("path=%s\n" % self.repo)
            e = self.px if self.how == "config" else "wrong::"
            e = "".join({"\\": "\\\\"}.get(c) or ("\\s" if c == " " and not e[:i].strip() else c) for i, c in enumerate(e))
            f.write("tag_prefix=%s\n" % e)
    def nm(self, *a, input=b"", ok=(0,)):
        r = subprocess.run([self.w.b.notmuch] + [x.encode() for x in a], input=input, env=dict(self.env, PATH="/usr/bin:/bin"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        if r.returncode not in ok: raise RuntimeError("notmuch %r: %r" % (a, r.stderr))
        return r.stdout
    def git(self, *a, repo=None, ok=(0,)):
        r = subprocess.run(["git", "--git-dir", repo or self.repo] + list(a), env=dict(self.env, PATH="/usr/bin:/bin"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=100)
        if ok and r.returncode not in ok: raise RuntimeError("git %r: %r" % (a, r.stderr))
        return r.stdout.decode()
    def tags(self, changes):
        """changes: list of (mid, add, rem)"""
        self.nm("tag", "--batch", input="".join("%s -- id:\"%s\"\n" % (" ".join(["+" + hexenc(t) for t in a] + ["-" + hexenc(t) for t in r]), m.replace('"', '""')) for m, a, r in changes).encode())
    def run(self, args, env=None):
        """notmuch git ..."""
        pre = []
        rng = self.w.rng
        if self.how == "option" and self.px: pre += [rng.choice(["-p", "--tag-prefix"]), self.px]
        if rng.random() < 0.5: pre += ["-C", self.repo]
        if rng.random() < 0.15: a = [self.w.b.notmuch, "git"] + pre + args
        else: a = ["notmuch-git"] + pre + args
        e = dict(self.env)
        if env: e.update(env)
        p = subprocess.run([x.encode() for x in a], env=e, cwd=self.home, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    def dump(self):
        o = []
        raw = self.nm("dump", "--format=batch-tag", "--include=tags")
        for l in raw.split(b"\n"):
            if not l or l.startswith(b"#"): continue
            t, i = (l if not l.startswith(b" -- id:") else b"" + l).split(b" -- id:", 1)
            i = i.strip(b" ")
            if i.startswith(b'"'): i = i[1:-1].replace(b'""', b'"')
            ts = sorted(hexdec(x[1:]).decode("utf-8", "replace") for x in t.split())
            o.append([i.decode("utf-8", "replace"), ts])
        return o

class World:
    def __init__(self, b, wd, rng):
        self.b, self.wd, self.rng = b, wd, rng
        self.bind = binding(b) if rng.random() < 0.7 else None
        self.px = rng.choice(PREFIXES) if rng.random() < 0.7 else "x::"
        self.format = rng.choice([None, None, "1", "0"])
        self.fmt = 0 if self.format == "0" else 1
        n = rng.choice([3, 5, 7]) 
        self.mids = (["m1@x", "m2@x", "m3@x"] if rng.random() < 0.4 else []) + rng.sample(MIDS[2:], n)
        self.suf = rng.sample(SUFFIXES, 4) if rng.random() < 0.8 else ["bug", "fixed", "a", "b"]
        if self.px == "": self.suf = [s for s in self.suf if not s.startswith("-")]
        self.pool = [self.px + s for s in self.suf] + rng.sample(OTHERS, 2)
        self.sy, self.co = {"tag": {}, "mid": {}, "suf": {}}, {}
        os.makedirs(wd + "/bin")
        for n, real in (("notmuch", b.notmuch), ("git", shutil.which("git", path="/usr/bin:/bin"))):
            with open(wd + "/bin/" + n, "w") as f:
                f.write("#!/bin/sh\nif [ -n \"$NMV_N\" ]; then\nread n < \"$NMV_N\" || n=0\nn=$((n+1))\necho $n > \"$NMV_N\"\nif [ $n = $NMV_AT ]; then\n: > \"$NMV_N.fired\"\n"
                        "if [ $NMV_DO = kill ]; then kill -9 $PPID; else %s tag --batch < \"$NMV_DO\"; fi\nfi\nfi\nexec %s \"$@\"\n" % (b.notmuch, real))
            os.chmod(wd + "/bin/" + n, 0o755)
        with open(wd + "/bin/notmuch-git", "w") as f: f.write("#!/bin/sh\nexec python3 %s \"$@\"\n" % b.git)
        os.chmod(wd + "/bin/notmuch-git", 0o755)
        self.hub = wd + "/hub.git"
        subprocess.run(["git", "init", "-q", "--bare", "-b", "master", self.hub], check=True, stdout=subprocess.DEVNULL, env=dict(os.environ, HOME=wd, GIT_CONFIG_NOSYSTEM="1"))
        self.commits = {}
        self.lines = [dict(ev="reset")]
        self.u = {n: User(self, n) for n in "AB"}
        self.gone = False
        self.serial = 0
    def sym(self, kind, x):
        d = self.sy[kind]
        return d.setdefault(x, "%s%d" % (kind[0], len(d) + 1))
    # -- what is there
    def pairs(self, repo, c):
        r = subprocess.run(["git", "--git-dir", repo, "ls-tree", "-r", "--name-only", "-z", c], stdout=subprocess.PIPE, check=True, env=dict(os.environ, HOME=self.wd, GIT_CONFIG_NOSYSTEM="1"))
        out = []
        for p in r.stdout.split(b"\0"):
            if not p or (p == b"FORMAT" and self.fmt == 1): continue
            x = p.split(b"/")
            ok = x[0] == b"tags" and len(x) == (3 if self.fmt == 0 else 5)
            if ok and self.fmt == 1:
                h = hashlib.blake2b(x[3], digest_size=2).hexdigest().encode()
                ok = x[1:3] == [h[:2], h[2:]]
            # (letters, digits and +-_@=.:, stand for themselves)
            if not ok or not re.fullmatch(rb"(?:[A-Za-z0-9+_@=.:,~-]|%[0-9a-f]{2})+", x[-1]) or not re.fullmatch(rb"(?:[A-Za-z0-9+_@=.:,~-]|%[0-9a-f]{2})+", x[-2]): out.append(["?", p.decode("latin-1")]); continue
            out.append([self.sym("mid", unquote_to_bytes(x[-2]).decode("utf-8", "replace")), self.sym("suf", unquote_to_bytes(x[-1]).decode("utf-8", "replace"))])
        return sorted(out)
    def observe(self, u):
        o = {"db": [[self.sym("mid", m), [self.sym("tag", t) for t in ts]] for m, ts in u.dump()]}
        new = []
        def ref(repo, name):
            c = u.git("rev-parse", "-q", "--verify", name, repo=repo, ok=None).strip() if os.path.isdir(repo) else ""
            if not re.fullmatch("[0-9a-f]{40}", c): return "none"
            if c not in self.commits:
                rl = [l.split() for l in u.git("rev-list", "--topo-order", "--reverse", "--parents", c, repo=repo).split("\n") if l]
                for l in rl:
                    if l[0] in self.commits: continue
                    self.commits[l[0]] = "c%d" % (len(self.commits) + 1)
                    new.append({"c": self.commits[l[0]], "tree": self.pairs(repo, l[0]), "par": [self.commits[x] for x in l[1:]]})
            return self.commits[c]
        o["head"] = ref(u.repo, "HEAD")
        o["track"] = ref(u.repo, "refs/remotes/origin/master")
        o["hub"] = ref(self.hub, "HEAD")
        o["new"] = new
        return o
    def event(self, u, ev, st=0, **f):
        line = dict(ev=ev, u=u.n, st=st, ch=[], frac=list(u.frac), force=False, gone=self.gone, cfg=u.inited and u.remote)
        line.update(f)
        line["o"] = self.observe(u)
        self.lines.append(line)
        return line
    # -- what users do
    def mid(self, u): return self.rng.choice(sorted(u.has)) if u.has else None
    def op_tag(self, u, n=None):
        ch = []
        for _ in range(n or self.rng.choice([1, 1, 2, 4])):
            m = self.mid(u)
            if not m: return
            a = [t for t in self.pool if self.rng.random() < 0.35]
            r = [t for t in self.pool if t not in a and self.rng.random() < 0.35]
            if not a and not r: a = [self.rng.choice(self.pool)]
            ch.append((m, a, r))
        u.tags(ch)
        self.event(u, "own", what="tag")
    def deliver(self, u, m):
        self.serial += 1
        with open(u.mail + "/cur/%d" % self.serial, "wb") as f: f.write(b"From: a@b\nTo: c@d\nSubject: s\nMessage-ID: <" + m.encode() + b">\n\nb\n")
        u.has.add(m)
    def op_mail(self, u):
        out = [m for m in self.mids if m not in u.has]
        if out and (self.rng.random() < 0.6 or len(u.has) < 2): self.deliver(u, self.rng.choice(out))
        else:
            m = self.mid(u)
            for p in u.nm("search", "--exclude=false", "--output=files", "id:\"%s\"" % m.replace('"', '""')).decode().split("\n"):
                if p: os.unlink(p)
            u.has.discard(m)
            self.gone = True
        u.nm("new", "--quiet", "--full-scan")
        self.event(u, "own", what="mail")
    def op_uuid(self, u):
        """the database is built again"""
        d = u.nm("dump")
        shutil.rmtree(u.mail + "/.notmuch")
        u.nm("new", "--quiet")
        u.nm("restore", input=d)
        self.event(u, "own", what="uuid")
    def op_frac(self, u):
        u.frac = self.rng.choice([(1, 1), (1, 1), (1, 2), (1, 4), (1, 10)])
        u.conf()
    def cmd(self, u, ev, args, disturb=True, **f):
        env, ch, at = None, [], None
        rng = self.rng
        if disturb and u.has and rng.random() < 0.22:
            cf = u.home + "/calls"
            for x in (cf, cf + ".fired"):
                if os.path.exists(x): os.unlink(x)
            with open(cf, "w") as g: g.write("0\n")
            env = {"NMV_N": cf, "NMV_AT": str(rng.randint(1, 16)), "NMV_DO": "kill"}
            if rng.random() < 0.6:
                m = self.mid(u)
                a = [t for t in self.pool if rng.random() < 0.4]
                r = [t for t in self.pool if t not in a and rng.random() < 0.4]
                if not a and not r: a = [rng.choice(self.pool)]
                env["NMV_DO"] = u.home + "/change"
                with open(u.home + "/change", "w") as g: g.write("%s -- id:\"%s\"\n" % (" ".join(["+" + hexenc(t) for t in a] + ["-" + hexenc(t) for t in r]), m.replace('"', '""')))
        rc, out, err = u.run(args, env)
        if env and os.path.exists(u.home + "/calls.fired"):
            if env["NMV_DO"] == "kill": rc = -1
            else: ch = [{"m": self.sym("mid", m), "add": [self.sym("tag", t) for t in a], "rem": [self.sym("tag", t) for t in r]}]
        elif rc < 0: rc = 200
        if ev == "status":
            f["out"] = []
            for l in out.split("\n"):
                x = l.split("\t")
                if len(x) == 3: f["out"].append([x[0], self.sym("mid", x[1]), self.sym("suf", x[2])])
                elif l: f["out"].append(["?", l, ""])
        line = self.event(u, ev, rc, ch=ch, px=u.px, args=args, **f)
        if rc: line["err"] = err[-300:]
        # (a lock left by a child of a command that was killed)
        return line
    def op_commit(self, u):
        fo = self.rng.random() < 0.5
        self.cmd(u, "commit", ["commit"] + (["-f"] if fo else []) + self.rng.choice([[], ["a message"], ["\u00fc \"m\""]]), force=fo)
    def op_checkout(self, u):
        fo = self.rng.random() < 0.5
        self.cmd(u, "checkout", ["checkout"] + (["--force"] if fo else []), force=fo)
    def op_status(self, u): self.cmd(u, "status", ["status"])
    def op_fetch(self, u): self.cmd(u, "fetch", ["fetch"] + self.rng.choice([[], ["origin"]])) if u.remote else None
    def op_push(self, u): self.cmd(u, "push", ["push"] + self.rng.choice([[], ["origin"], ["origin", "master"]])) if u.remote else None
    def op_merge(self, u): self.cmd(u, "merge", ["merge"] + self.rng.choice([[], ["origin/master"]]))
    def op_pull(self, u): self.cmd(u, "pull", ["pull"] + self.rng.choice([[], ["origin", "master"]])) if u.remote else None
    def op_save(self, u): self.cmd(u, "commit", ["commit", "-f"], force=True, disturb=False)
    def op_share(self, u):
        """what one does to share one's tags"""
        self.op_save(u)
        if self.rng.random() < 0.6: self.op_pull(u)
        else: self.op_fetch(u); self.op_merge(u)
        self.op_push(u)
    def op_prefix(self, u):
        """another prefix in the same repository, for a while"""
        keep, how = u.px, u.how
        u.px = self.rng.choice([p for p in (self.others()) if p != keep and p != ""])
        u.how = "option"
        for _ in range(self.rng.randint(1, 2)): (self.op_status if self.rng.random() < 0.8 else self.op_commit)(u)
        u.px, u.how = keep, how
        if self.rng.random() < 0.6: self.op_status(u)
    def others(self): return ["in", "un", self.px + self.suf[0][:1], "z", "q::", self.px[:1] or "i"]
    W = dict(tag=10, commit=5, checkout=4, status=4, fetch=2, push=2, merge=2, pull=2, share=3, mail=2.5, uuid=0.7, prefix=1, frac=1)
    def step(self):
        ks = sorted(self.W)
        k = self.rng.choices(ks, [self.W[x] for x in ks])[0]
        u = self.u[self.rng.choice("AAB") if self.u["B"].inited is False else self.rng.choice("AB")]
        if not u.inited and k not in ("tag", "mail", "uuid", "frac"):
            if u.n == "B": self.clone(u)
            return
        getattr(self, "op_" + k)(u)
    def clone(self, u):
        if not os.path.exists(self.hub + "/refs/heads/master") : return
        u.remote = u.inited = True
        self.cmd(u, "clone", ["clone", self.hub], disturb=False)
    def begin(self):
        rng = self.rng
        for u in self.u.values():
            for m in self.mids:
                if rng.random() < 0.8: self.deliver(u, m)
            u.nm("new", "--quiet")
            u.remote = False
            u.has &= {m for m, _ in u.dump()}
            self.event(u, "own", what="start")
        A = self.u["A"]
        if rng.random() < 0.5: self.op_tag(A, 4)
        self.cmd(A, "init", ["init"] + (["--format-version=" + self.format] if self.format else []), disturb=False)
        A.inited = True
        if rng.random() < 0.5: self.op_status(A)
        self.op_tag(A, 5)
        if rng.random() < 0.8: self.op_save(A)
        for a in (["remote", "add", "origin", self.hub], ["config", "branch.master.remote", "origin"], ["config", "branch.master.merge", "refs/heads/master"]): A.git(*a)
        A.remote = True
        if rng.random() < 0.8: self.cmd(A, "push", ["push", "origin", "master"], disturb=False)
        if rng.random() < 0.6: self.op_tag(self.u["B"])
        if rng.random() < 0.8: self.clone(self.u["B"])
    def end(self):
        """everybody gets everything"""
        for n in "ABA":
            u = self.u[n]
            if not u.inited: continue
            u.frac = (1, 1)
            u.conf()
            self.op_save(u)
            for a in (["pull"], ["checkout", "-f"], ["push"]): self.cmd(u, a[0], a, disturb=False, force="-f" in a)
            self.cmd(u, "status", ["status"], disturb=False)
    def done(self):
        suf = {}
        pxs = {x["px"] for x in self.lines if "px" in x}
        known = dict(self.sy["suf"])
        for p in sorted(pxs):
            # (each rest of a tag that was seen may be seen with each prefix)
            for t in list(self.sy["tag"]):
                if t.startswith(p): self.sym("suf", t[len(p):])
        for p in sorted(pxs):
            suf[p] = [[self.sym("tag", p + s), y] for s, y in sorted(self.sy["suf"].items())]
        for x in self.lines:
            if "px" in x: x["px"] = "p%d" % sorted(pxs).index(x["px"])
        self.lines[0].update(suf={"p%d" % i: suf[p] for i, p in enumerate(sorted(pxs))}, prefixes=sorted(pxs), tags={y: x for x, y in self.sy["tag"].items()}, mids={y: x for x, y in self.sy["mid"].items()}, rest={y: x for x, y in self.sy["suf"].items()},
                             bind=bool(self.bind), format=self.fmt)
        return self.lines

def history(pid, i, seed, n):
    rng = random.Random("%s/%s/%s" % (pid, i, seed))
    wd = "%s/work/%s.%d.%d.%d" % (VERIF, pid, os.getpid(), i, int(time.time() * 1e6))
    os.makedirs(wd)
    try:
        w = World(build(), wd, rng)
        w.begin()
        for _ in range(n): w.step()
        w.end()
        return w.done()
    finally: shutil.rmtree(wd, ignore_errors=True)

def P21(c):
    t = "" if c.quick else "_thorough"
    c.model("MCGit.tla", "MCGit%s.cfg" % t, workers=6, timeout=2400, heap="8g")
    c.model("MCGitShare.tla", "MCGitShare%s.cfg" % t, workers=6, timeout=2400)
    c.notes["binding"] = binding(c.build) is not None
    for what in ("", ".", "..", ".git"):
        lines = odd(c.pid, c.seed, what)
        if c.strict_rejects("GitTrace.tla", "GitTrace.cfg", lines):
            # (it must be this tag that was left out, and nothing else)
            rest = [x for x in lines]
            for x in rest:
                if "o" in x: x["o"]["db"] = [[m, [t for t in ts if lines[0]["tags"][t] != "x::" + what]] for m, ts in x["o"]["db"]]
            if c.strict_rejects("GitTrace.tla", "GitTrace.cfg", rest) or not c.finding("F-P21-1"): c.violation("the tag x::%s is not committed" % what, lines)
    n = int(os.environ.get("NMV_N", 42 if c.quick else 900))
    jobs = [(c.pid, i, c.seed, 14 if c.quick else 24) for i in range(n)]
    c.validate("GitTrace.tla", "GitTrace.cfg", history, c.run_traces(history, jobs), per_file=2000)

def odd(pid, seed, what):
    """tags that cannot be the name of a file in a git repository"""
    rng = random.Random("odd%s" % seed)
    wd = "%s/work/%s.%d.odd.%d" % (VERIF, pid, os.getpid(), int(time.time() * 1e6))
    os.makedirs(wd)
    try:
        w = World(build(), wd, rng)
        w.px, w.format, w.fmt = "x::", None, 1
        u = w.u["A"]
        u.px, u.how = "x::", "option"
        u.conf()
        w.mids = ["m1@x", "m2@x"]
        for m in w.mids: w.deliver(u, m)
        u.nm("new", "--quiet")
        u.remote = False
        w.event(u, "own", what="start")
        w.cmd(u, "init", ["init"], disturb=False)
        u.tags([("m1@x", ["x::good", "x::" + what], [])])
        w.event(u, "own", what="tag")
        w.op_save(u)
        w.cmd(u, "status", ["status"], disturb=False)
        return w.done()
    finally: shutil.rmtree(wd, ignore_errors=True)
