"""Configuration: P17."""
import os, pwd, random, shutil, subprocess, tempfile
from nmv.build import build

KEYS = ["new.tags", "new.ignore", "search.exclude_tags", "user.name", "user.primary_email", "user.other_email", "maildir.synchronize_flags", "database.autocommit", "database.hook_dir", "database.backup_dir",
        "database.mail_root", "show.extra_headers", "query.a", "query.a.b", "squery.Q1", "index.header.List", "x.y", "Group 2.Key 3", "git.path", "query.\u00fc", "query.sp ace", "alias.one"]
BADKEYS = ["query.a=b", "query.#x", "query.a[b", "query.a]", "query. x", "query.x ", "a]b.c", "a[.c", ".x", "nodot", "x.", "built_with.compact", "built_with.nothing", "index.header.list", "squery.low", "index.header.a-B", "squery.", "query.a[de]"]
DBKEYS = ["query.a", "query.db", "squery.Q1", "squery.Zz", "index.header.List", "new.tags", "user.name", "search.exclude_tags", "maildir.synchronize_flags", "database.mail_root", "x.y", "show.extra_headers", "query.#x", "query.a=b", "query.q;r"]
WORDS = ["a", "inbox", "unread", "b c", " lead", "trail ", "x=y", "#c", "\u00fc\u00df", "\u65e5\u672c", "back\\slash", "a;b", ";", "\\", "end\\", "", "tag:x and not y", "[s]", "%s", "\"q\"", "tab\tin", "a  b", "\\s", "1;2;3;", ";;x"]
PLACES = ["/h/.notmuch-config", "/h/.notmuch-config.p1", "/h/.config/notmuch/default/config", "/h/.config/notmuch/p1/config", "/xc/notmuch/default/config", "/xc/notmuch/p1/config", "/c1", "/c2"]
DBPLACES = ["/h/mail", "/h/db", "/d1", "/d2", "/h/.local/share/notmuch/default", "/xd/notmuch/default", "/xd/notmuch/p1"]
EXTRADIRS = ["/h/.config/notmuch/default/hooks", "/xc/notmuch/p1/hooks", "/h/.local/share/notmuch/default/backups", "/xd/notmuch/p1/backups"]

def esc(v):
    o = ""
    for i, ch in enumerate(v):
        o += {"\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(ch) or ("\\s" if ch == " " and not o.strip("\\s ") and set(v[:i]) <= {" "} else ch)
    return o
def unesc(s):
    o, i = "", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            o += {"s": " ", "n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(s[i + 1], s[i:i + 2]); i += 2
        else: o += s[i]; i += 1
    return o
def parse(b):
    """what a configuration file says, and its comments"""
    kv, com, g = {}, [], None
    for l in b.decode("utf-8", "replace").split("\n"):
        if not l.strip(): continue
        if l.lstrip().startswith("#"): com.append(l)
        elif l.startswith("["): g = l[1:l.index("]")]
        elif g is not None and "=" in l:
            k, v = l.split("=", 1)
            kv["%s.%s" % (g, k.rstrip())] = unesc(v.lstrip())
        else: com.append("?" + l)
    return kv, com

class Walk:
    def __init__(self, b, wd, rng, templates):
        self.b, self.wd, self.rng, self.templates = b, wd, rng, templates
        self.files, self.dbs, self.dirs, self.links = {}, {}, set(), {}
        self.lines, self.tried = [dict(ev="reset")], set()
        self.user = pwd.getpwuid(os.getuid())
        for d in ["/h", "/xc", "/xd", "/real"]: os.makedirs(wd + d)
    def W(self, s): return s.replace(self.wd, "/w")
    def value(self, k):
        rng = self.rng
        if k == "database.autocommit": return rng.choice(["1", "8000", "17"])
        if k == "database.path": return rng.choice([self.wd + p for p in DBPLACES[:4]] + ["db", "mail"])
        if k in ("database.mail_root", "database.hook_dir", "database.backup_dir"): return rng.choice([self.wd + "/mr", self.wd + "/d1", "rel", "rel/two"])
        if k == "squery.Q1" or k == "squery.Zz": return rng.choice(["(tag a)", "*"])
        if k.startswith("index.header"): return rng.choice(["List-Id", "X-Thing"])
        if k == "maildir.synchronize_flags": return rng.choice(["true", "false", "Yes", "NO"])
        if k == "new.ignore": return rng.choice(["a", "a;b", ".x;"])
        if rng.random() < 0.3: return rng.choice(WORDS) + rng.choice(WORDS)
        return rng.choice(WORDS)
    # -- the world
    def write(self, p):
        rng = self.rng
        f = self.wd + p
        os.makedirs(os.path.dirname(f), exist_ok=True)
        kv = {}
        if rng.random() < 0.6: kv["database.path"] = self.value("database.path")
        for k in rng.sample(KEYS, rng.randint(0, 7)): kv[k] = self.value(k)
        gs = {}
        for k, v in kv.items(): gs.setdefault(k.split(".", 1)[0], []).append((k.split(".", 1)[1], v))
        # (a comment on nothing at all is lost by GLib)
        out = ["# about " + p] if gs and rng.random() < 0.5 else []
        parts = [(g, kvs) for g, kvs in gs.items()]
        rng.shuffle(parts)
        for g, kvs in parts:
            # (a section may come in two pieces)
            n = rng.randint(1, len(kvs)) if rng.random() < 0.2 else len(kvs)
            for piece in (kvs[:n], kvs[n:]):
                if not piece: continue
                out.append("[%s]" % g)
                for k, v in piece:
                    if rng.random() < 0.3: out.append("# on " + k)
                    out.append(k + rng.choice(["=", " = ", "=  "]) + esc(v))
                if rng.random() < 0.5: out.append("")
        b = ("\n".join(out) + ("\n" if rng.random() < 0.9 else "")).encode()
        if os.path.lexists(f): os.unlink(f)
        if p == "/c2":
            # a link to the file
            os.symlink(self.wd + "/real/c2", f)
        with open(f, "wb") as g: g.write(b)
        self.files[p] = kv
    def op_world(self):
        rng = self.rng
        for _ in range(rng.randint(1, 3)):
            x = rng.random()
            if x < 0.45: self.write(rng.choice(PLACES + PLACES[:1] * 2))
            elif x < 0.55 and self.files:
                p = rng.choice(sorted(self.files)); os.unlink(self.wd + p); del self.files[p]
            elif x < 0.62: os.makedirs(self.wd + rng.choice(EXTRADIRS), exist_ok=True)
            elif x < 0.92:
                p = rng.choice(DBPLACES)
                os.makedirs(self.wd + p, exist_ok=True)
                if rng.random() < 0.8 and p not in self.dbs:
                    i = rng.randrange(len(self.templates))
                    nested = "notmuch/" not in p
                    shutil.copytree(self.templates[i][0], self.wd + p + ("/.notmuch/xapian" if nested else "/xapian"))
                    self.dbs[p] = {"nested": nested, "fresh": True, "rel": self.templates[i][1]}
            else:
                p = rng.choice(DBPLACES)
                if os.path.isdir(self.wd + p): shutil.rmtree(self.wd + p); self.dbs.pop(p, None)
        self.dirs = {self.W(d) for d, _, _ in os.walk(self.wd) if "xapian" not in d}
        self.lines.append(dict(ev="world", w=dict(files=self.fileslist(self.files), dirs=sorted(self.dirs),
            dbs=[dict(p="/w" + p, nested=d["nested"], fresh=d.pop("fresh", False), rel=d["rel"]) for p, d in sorted(self.dbs.items())])))
    def pairs(self, kv): return [[k, self.W(v)] for k, v in kv.items()]
    def fileslist(self, fs): return [dict(p="/w" + p, kv=self.pairs(kv)) for p, kv in sorted(fs.items())]
    # -- commands
    def environ(self):
        rng, wd = self.rng, self.wd
        o = lambda p, xs: [rng.choice(xs)] if rng.random() < p else []
        return dict(arg=o(0.25, [wd + "/c1", wd + "/c2", wd + "/none", ""]), conf=o(0.3, [wd + "/c1", wd + "/c2", wd + "/h/.notmuch-config", wd + "/none"]), prof=o(0.3, ["p1", "default", "p2"]), db=o(0.25, [wd + p for p in DBPLACES] + [wd + "/none"]),
                    xdgc=o(0.3, [wd + "/xc"]), xdgd=o(0.3, [wd + "/xd"]), maildir=o(0.3, [wd + "/d1", wd + "/d2"]), name=o(0.4, ["N. Ame", "\u00d1"]), email=o(0.4, ["e@x"]))
    def run(self, E, args, extra=None, preload=None):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.wd + "/h", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC"}
        for k, v in dict(conf="NOTMUCH_CONFIG", prof="NOTMUCH_PROFILE", db="NOTMUCH_DATABASE", xdgc="XDG_CONFIG_HOME", xdgd="XDG_DATA_HOME", maildir="MAILDIR", name="NAME", email="EMAIL").items():
            if E[k]: e[v] = E[k][0]
        if extra: e.update({k: str(v) for k, v in extra.items()})
        if preload: e["LD_PRELOAD"] = preload
        a = ["--config=" + E["arg"][0]] if E["arg"] else []
        a = [x if isinstance(x, bytes) else x.encode() for x in [self.b.notmuch] + a + args]
        r = subprocess.run(a, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=self.wd + "/h")
        self.err = r.stderr.decode("utf-8", "replace")
        return r.returncode, r.stdout.decode("utf-8", "replace")
    def env(self, E):
        d = {k: [self.W(x) for x in v] for k, v in E.items()}
        return dict(d, home="/w/h", gecos=self.user.pw_gecos.split(",")[0], login=self.user.pw_name)
    def event(self, ev, E, st, **f):
        l = dict(ev=ev, env=self.env(E), st=st, **f)
        if st: l["err"] = self.W(self.err[-200:])
        self.lines.append(l)
    def pick(self):
        if not getattr(self, "E", None) or self.rng.random() < 0.5: self.E = self.environ()
        return self.E
    def op_list(self):
        E = self.pick()
        st, out = self.run(E, ["config", "list"])
        ps = [self.W(l).split("=", 1) for l in out.split("\n") if l and not l.startswith("built_with.")]
        # (keys with "=" are told apart by what is known)
        ps = [self.fixkey(p) for p in ps]
        self.event("list", E, st, out=ps)
    def fixkey(self, p):
        k, v = p if len(p) == 2 else (p[0], "?")
        if k == "query.a" and v.startswith("b=") and "query.a=b" in self.tried: return ["query.a=b", v[2:]]
        return [k, v]
    def op_get(self):
        E = self.pick()
        k = self.rng.choice(KEYS + ["database.path", "database.mail_root", "nosuch.key", "query.db"])
        st, out = self.run(E, ["config", "get", k])
        self.event("get", E, st, k=k, out=[self.W(x) for x in out.split("\n")[:-1]])
    def op_search(self):
        E = self.pick()
        st, out = self.run(E, ["search", "--output=files", "*"])
        self.event("search", E, st, out=[self.W(x) for x in out.split("\n")[:-1]])
    def scan(self):
        fs, com, kept = {}, {}, True
        for p in self.files:
            f = self.wd + p
            if not os.path.isfile(f): continue
            with open(f, "rb") as g: fs[p], com[p] = parse(g.read())
            if p == "/c2" and not os.path.islink(f): kept = False
        return fs, com, kept
    def op_set(self):
        rng = self.rng
        E = self.pick()
        indb = rng.random() < 0.3
        k = rng.choice(BADKEYS if rng.random() < 0.15 else DBKEYS if indb else KEYS + ["database.path"])
        utf8 = True
        n = rng.choice([0, 1, 1, 1, 1, 2, 3])
        vs = [self.value(k) for _ in range(n)]
        if k == "database.path" or k.startswith("database.") or k.startswith("squery") or k.startswith("index.header"): vs = vs[:1]
        args = list(vs)
        if vs and not indb and rng.random() < 0.06: args[0] = b"\xff" + vs[0].encode(); utf8 = False
        before = self.scan()
        extra, fault, kill = {}, False, False
        if not indb and rng.random() < 0.25:
            extra = {"NMV_ROOT": self.wd, "NMV_SKIP": "xapian"}
            if rng.random() < 0.5: extra["NMV_KILL_AT"] = rng.randint(1, 5); kill = True; extra["NMV_KILL_HALF"] = rng.randint(0, 1)
            else: extra["NMV_FAIL_AT"] = rng.randint(1, 4); extra["NMV_FAIL_ERRNO"] = rng.choice([5, 28, 13]); fault = True
        st, out = self.run(E, ["config", "set"] + (["--database"] if indb else []) + [k] + args, extra, self.b.shim if extra else None)
        fs, com, kept = self.scan()
        for p in before[1]:
            if p in com and any(c not in com[p] for c in before[1][p]): kept = False
        self.files = dict(fs)
        if indb: self.tried.add(k)
        self.event("set", E, st, k=k, vs=[self.W(v) for v in vs], utf8=utf8, indb=indb, fault=fault, kill=kill, kept=kept, files=self.fileslist(fs))
    def step(self):
        op = self.rng.choices(["world", "list", "get", "search", "set"], [1.5, 3, 3, 2, 5])[0]
        getattr(self, "op_" + op)()

def templates(b, wd):
    out = []
    for i in range(3):
        d = wd + "/t%d" % i
        os.makedirs(d + "/mail/s")
        rel = ["m%d" % i] + (["s/n"] if i else [])
        for r in rel:
            with open(d + "/mail/" + r, "w") as f: f.write("From: a@b\nTo: c@d\nSubject: s\nMessage-ID: <%s@x>\nDate: Fri, 20 Nov 2020 10:00:00 +0000\n\nhi\n" % r.replace("/", ""))
        with open(d + "/config", "w") as f: f.write("[database]\npath=%s/mail\n" % d)
        subprocess.run([b.notmuch, "--config=" + d + "/config", "new", "--quiet"], env={"HOME": d, "PATH": os.environ["PATH"]}, check=True, stdin=subprocess.DEVNULL)
        out.append((d + "/mail/.notmuch/xapian", rel))
    return out

def history(i, seed):
    rng = random.Random("P17/%s/%s" % (i, seed))
    b = build()
    wd = tempfile.mkdtemp(prefix="P17-%s-" % i, dir=os.environ["NMV_WD"])
    try:
        w = Walk(b, wd, rng, TEMPLATES)
        for _ in range(3): w.op_world()
        for _ in range(30): w.step()
        return w.lines
    finally: shutil.rmtree(wd, ignore_errors=True)

def P17(c):
    global TEMPLATES
    os.environ["NMV_WD"] = c.wd
    TEMPLATES = templates(build(), c.wd)
    n = int(os.environ.get("NMV_N", 200 if c.quick else 3000))
    res = c.run_traces(history, [(i, c.seed) for i in range(n)])
    c.validate("ConfTrace.tla", "ConfTrace.cfg", history, res)
    c.model("MCConfig.tla", "MCConfig.cfg")
