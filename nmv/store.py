"""Runs schedules against libnotmuch and records traces for StoreTrace.tla."""
import os, random, shutil
from .proto import Driver, DriverDied, deep
from . import mail
from .mail import sd, filed, Names, dbid, render

def badprop(k, v): return "=" in k or len((k + "=" + v).encode()) > 236

class World:
    """A universe of messages, contents, paths, tags, properties with concrete values."""
    def __init__(self, rng, nmids=6, odd=True, ntags=5, nkeys=4, nvals=4, folders=None, nbase=3):
        self.rng = rng
        pool = list(mail.PLAINMIDS)
        if odd:
            o = mail.MIDS[:]
            rng.shuffle(o)
            pool = o[:max(1, nmids - 2)] + pool
        self.mids = Names("m", pool[:nmids])
        self.midsym = {dbid(c): s for s, c in self.mids.c.items()}
        self.tags = Names("t", rng.sample(mail.TAGS, ntags) if odd else mail.TAGS[:ntags])
        self.keys = rng.sample(mail.KEYS, nkeys) if odd else mail.KEYS[:nkeys]
        self.vals = rng.sample(mail.VALS, nvals) if odd else mail.VALS[:nvals]
        self.contents = {}
        self.bytes = {}
        self.folders = folders or [["cur"], ["new"], ["a", "cur"], ["a", "new"], ["a"], ["a", "b"], []]
        self.names = ["f%d" % i for i in range(1, nbase + 1)]
        self.paths = [f + [n] for f in self.folders for n in self.names]
        self.probes = []      # (descriptor, query string)
        self.dirs = [[]] + [d for d in dict.fromkeys(tuple(f[:i + 1]) for f in self.folders for i in range(len(f)))]
        self.dirs = [list(d) for d in self.dirs]
    def content(self, mid, refs=(), irt=None, ok=True, auto=(), words=None, cid=None, date=None, subj=None, frm=None, irtfmt=None, author=None, nodate=False):
        """mid, refs, irt are symbols; returns the content's symbol"""
        cid = cid or "c%d" % (len(self.contents) + 1)
        n = len(self.contents) + 1
        subj = subj if subj is not None else "subject%d" % n
        frm = frm or "Name%d <n%d@ex.org>" % (n, n)
        date = date if date is not None else 1000000000 + n * 86400
        words = list(words if words is not None else ["word%dw" % n])
        rl = [self.mids.conc(r) for r in refs]
        self.bytes[cid] = render(self.mids.conc(mid) if mid else None, subj, frm, None if nodate else date, rl, (irtfmt or "<%s>") % self.mids.conc(irt) if irt else None,
                                 " ".join(words), attach="att.bin" if "attachment" in auto else None) if ok else b"not an e-mail at all\nreally\n"
        allrefs = set(refs) | ({irt} if irt else set())
        allrefs.discard(mid)
        self.contents[cid] = {"mid": mid, "refs": sorted(allrefs), "words": words, "auto": list(auto), "ok": ok,
                              "date": sd(filed(None if nodate else date)), "subj": subj, "from": frm,
                              "author": author if author is not None else frm.split(" <")[0].strip('"') if " <" in frm else frm.strip("<>"),
                              "shown": subj[4:] if subj[:4].lower() in ("re: ", "aw: ", "vs: ", "sv: ") else subj,
                              # the message this one says it is a reply to
                              "replyto": irt if irt and not irtfmt else next((x for x in reversed(refs) if x != mid), irt if irt and irt != mid else "") or ""}
        return cid
    def tag_s(self, t): return self.tags.conc(t)
    def prefix_keys(self, p): return [k for k in self.keys if k.startswith(p)]
    def probe(self, desc, query): self.probes.append((desc, query))
    def q(self, s): return '"' + s.replace('"', '""') + '"'
    def std_probes(self, what):
        """Probes for folder/path/tag/prop/id/word/thread queries."""
        r = self.rng
        if "folder" in what:
            fs = []
            for f in self.folders:
                g = f[:-1] if f and f[-1] in ("cur", "new") else f
                if g not in fs: fs.append(g)
                if f not in fs: fs.append(f)
            for f in fs: self.probe({"k": "folder", "v": f}, "folder:" + self.q("/".join(f)))
        if "path" in what:
            for d in self.dirs:
                self.probe({"k": "path", "v": d}, "path:" + self.q("/".join(d)))
                self.probe({"k": "pathr", "v": d}, "path:" + self.q("/".join(d + ["**"])))
        if "tag" in what:
            for t, c in self.tags.c.items(): self.probe({"k": "tag", "v": t}, "tag:" + self.q(c))
        if "prop" in what:
            for k in self.keys:
                for v in self.vals: self.probe({"k": "prop", "key": k, "v": v}, "property:" + self.q(k + "=" + v))
        if "id" in what:
            for m, c in self.mids.c.items(): self.probe({"k": "id", "v": m}, "id:" + self.q(dbid(c)))
        if "word" in what:
            for w in sorted({w for c in self.contents.values() for w in c["words"]}): self.probe({"k": "word", "v": w}, w)
    def reset_line(self, cmp, flush=False, strict=False):
        return {"strict": strict, "ev": "reset", "flush": flush, "cmp": sorted(cmp), "contents": self.contents, "mids": self.mids.syms(),
                "paths": self.paths, "probes": [d for d, _ in self.probes], "dirs": self.dirs, "uuid": ""}

class Run:
    """One database, driven through a Driver; self.lines is the recorded trace."""
    def __init__(self, build, world, root, cmp, flush=False, env=None, driver=None, lm=True, h=0, preload=None, obs=True, auto=0):
        self.b, self.w, self.root, self.cmp = build, world, root, set(cmp)
        self.flush = flush
        e = {"XAPIAN_FLUSH_THRESHOLD": 1} if flush else {"XAPIAN_FLUSH_THRESHOLD": 100000}
        if env: e.update(env)
        self.env, self.preload = e, preload
        self.h = h
        self.dumpflags = ("c" if "conf" in self.cmp else "") + ("l" if "lm" in self.cmp else "") + ("t" if "alltags" in self.cmp else "") + "-"
        self.lines = [world.reset_line(cmp, flush)]
        self.auto = auto
        self.conf = []
        if auto:
            self.lines[0]["auto"] = auto
            self.conf = [root + ".conf"]
            with open(root + ".conf", "w") as f: f.write("[database]\nautocommit=%d\n" % auto)
        self.script = []
        self.d = self.reader = None
        self.slots = {}
        self.fs = {}
        self.died = None
        self.obs = obs
        self.uuid = None
        os.makedirs(root, exist_ok=True)
        self.start()
    # -- processes
    def start(self):
        self.d = Driver(self.b, self.env, preload=self.preload)
        self.probes(self.d)
    def probes(self, d):
        w = self.w
        d("probes", "m", *[w.mids.conc(m) for m in w.mids.syms()])
        if "ff" in self.cmp: d("probes", "f", *[self.fp(p) for p in w.paths])
        if "q" in self.cmp: d("probes", "q", *[q for _, q in w.probes])
        if "dirs" in self.cmp: d("probes", "d", *[self.fp(x) for x in w.dirs])
    def fp(self, p): return "/".join([self.root] + list(p))
    def finish(self):
        for d in (self.d, self.reader):
            if d and not d.dead: d.kill() if self.died else d.close()
        shutil.rmtree(self.root, ignore_errors=True)
    # -- projection
    def msym(self, c): return self.w.midsym.get(c, "?" + c)
    def psym(self, p):
        r = self.root + "/"
        return p[len(r):].split("/") if p.startswith(r) else ["?", p]
    def project(self, j):
        o = {"rev": j["rev"], "mail": []}
        self.uuid = self.uuid or j["uuid"]
        o["uuid"] = "" if j["uuid"] == self.uuid else j["uuid"]
        for m in j["msgs"]:
            o["mail"].append({"id": self.msym(m["id"]), "tid": m["tid"], "files": [self.psym(f) for f in m["files"]], "nf": m["nfiles"],
                              "tags": [self.tsym(t) for t in m["tags"]], "props": m["props"], "date": sd(m["date"]), "from": m["from"], "subj": m["subj"]})
        if "lm" in j: o["lm"] = [[self.msym(a), b] for a, b in j["lm"]]
        if "conf" in j: o["conf"] = j["conf"]
        if "alltags" in j: o["alltags"] = [self.tsym(t) for t in j["alltags"]]
        o["find"] = [self.msym(x) if x else "" for x in j.get("pm", [])]
        o["ff"] = [self.msym(x) if x else "" for x in j.get("pf", [])]
        o["q"] = [[self.msym(x) for x in r] for r in j.get("pq", [])]
        o["dirs"] = j.get("pd", [])
        return o
    def tsym(self, t): return t if t in ("attachment", "signed", "encrypted") else self.w.tags.sym(t)
    def dump(self, d=None, h=None):
        d = d or self.d
        return self.project(deep(d("dump", self.h if h is None else h, self.dumpflags)))
    # -- events
    def event(self, ev, cmd, obs=True, **f):
        """cmd: driver command (or None); records the line, returns the reply"""
        if self.died: return None
        self.script.append([ev, cmd, {k: v for k, v in f.items()}])
        line = dict(ev=ev, st=0, **f)
        try:
            r = deep(self.d(*cmd)) if cmd else {"st": 0}
            line["st"] = r["st"]
            if obs and self.obs and self.open_: line["o"] = self.dump()
        except DriverDied as x:
            self.died = str(x)
            line["st"] = -999
            r = None
        self.lines.append(line)
        self.last = line
        return r
    open_ = False
    def create(self):
        r = self.d("create", self.h, self.root, *self.conf)
        self.open_ = True
        if r["st"]: raise RuntimeError("create: %s" % r)
        # the new database is open for writing
        line = dict(ev="open", mode="rw", st=0, o=self.dump())
        self.lines.append(line)
    def open(self, mode="rw"):
        self.open_ = True
        return self.event("open", ["open", self.h, mode, self.root] + self.conf, mode=mode)
    def close(self):
        self.slots = {}
        self.open_ = False
        return self.event("close", ["destroy", self.h], obs=False)
    def reopen(self, mode):
        self.slots = {}
        for s in range(4): self.event("drop", ["drop", s], obs=False, s=str(s))
        return self.event("reopen", ["reopen", self.h, mode], mode=mode)
    def crash(self):
        if self.died: return
        self.d.kill()
        self.open_ = False
        self.slots = {}
        self.event("crash", None, obs=False)
        self.start()
    def write(self, p, cid):
        os.makedirs(os.path.dirname(self.fp(p)), exist_ok=True)
        with open(self.fp(p), "wb") as f: f.write(self.w.bytes[cid])
        self.fs[tuple(p)] = cid
        self.event("file", None, obs=False, op="write", p=p, c=cid)
    def unlink(self, p):
        os.unlink(self.fp(p))
        self.fs.pop(tuple(p), None)
        self.event("file", None, obs=False, op="unlink", p=p)
    def add(self, p):
        r = self.event("add", ["add", self.h, self.fp(p)], p=p, hint="")
        if r and "o" in self.last:
            mid = self.msym(r["mid"]) if r["mid"] else None
            self.last["mid"] = mid or ""
            self.last["hint"] = next((m["tid"] for m in self.last["o"]["mail"] if m["id"] == mid), "")
        return r
    def remove(self, p): return self.event("remove", ["remove", self.h, self.fp(p)], p=p)
    def begin(self): return self.event("begin", ["begin", self.h])
    def end(self): return self.event("end", ["end", self.h])
    def fetch(self, s, m):
        r = self.event("fetch", ["msg", s, self.h, self.w.mids.conc(m)], s=str(s), m=m, found=False)
        if r:
            self.last["found"] = r["found"]
            if r["found"]: self.slots[s] = m
            else: self.slots.pop(s, None)
        return r
    def drop(self, s):
        self.slots.pop(s, None)
        return self.event("drop", ["drop", s], obs=False, s=str(s))
    def dropall(self):
        for s in list(self.slots): self.drop(s)
    def tag(self, s, t, un=False, obs=True):
        long = t == "long"
        c = "X" * 201 if long else self.w.tags.conc(t)
        return self.event("untag" if un else "tag", ["untag" if un else "tag", s, c], obs=obs, s=str(s), t=t, long=long)
    def cleartags(self, s): return self.event("cleartags", ["cleartags", s], s=str(s))
    def freeze(self, s): return self.event("freeze", ["freeze", s], s=str(s))
    def thaw(self, s): return self.event("thaw", ["thaw", s], s=str(s))
    def prop(self, s, k, v): return self.event("prop", ["prop", s, k, v], s=str(s), k=k, v=v, bad=badprop(k, v))
    def unprop(self, s, k, v): return self.event("unprop", ["unprop", s, k, v], s=str(s), k=k, v=v, bad=badprop(k, v))
    def clearprops(self, s, k=None): return self.event("clearprops", ["clearprops", s] + ([k] if k is not None else []), s=str(s), keys=[k] if k is not None else self.w.keys)
    def clearpropsp(self, s, pre): return self.event("clearprops", ["clearpropsp", s, pre], s=str(s), keys=self.w.prefix_keys(pre))
    def getprops(self, s, key, exact):
        r = self.event("getprops", ["getprops", s, key, int(exact)], obs=False, s=str(s), key=key, exact=bool(exact), pre=self.w.prefix_keys(key))
        if r: self.last.update(props=r["props"], count=r["count"], first=r["first"])
    def view(self, s):
        r = self.event("slotview", ["view", s], obs=False, s=str(s))
        if r:
            m = r["m"]
            self.last["v"] = {"tags": [self.tsym(t) for t in m["tags"]], "props": m["props"]}
    def reindex(self, s):
        r = self.event("reindex", ["reindex", s], s=str(s))
        # the object is stale now
        self.drop(s)
        return r
    def setdir(self, d, t): return self.event("setdir", ["setdir", self.h, self.fp(d), t], d=d, t=t)
    def deldir(self, d): return self.event("deldir", ["deldir", self.h, self.fp(d)], d=d)
    def setconf(self, k, v): return self.event("setconf", ["setconf", self.h, k, v], k=k, v=v)
    def getconf(self, k):
        r = self.event("getconf", ["getconf", self.h, k], obs=False, k=k, v="")
        if r: self.last["v"] = r["v"]
    def look(self): return self.event("look", None)
    def peek(self):
        """What another process sees."""
        if self.died: return
        if not self.reader or self.reader.dead:
            self.reader = Driver(self.b, {})
            self.probes(self.reader)
        r = self.reader("open", 1, "ro", self.root)
        if r["st"]:
            self.event("peek", None, obs=False, peek={"rev": -r["st"], "uuid": "", "mail": [], "find": [], "ff": [], "q": [], "dirs": [], "failed": True})
            return
        o = self.dump(self.reader, 1)
        self.reader("destroy", 1)
        self.event("peek", None, obs=False, peek=o)
