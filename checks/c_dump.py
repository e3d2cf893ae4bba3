"""Checks of dump and restore: P11."""
import gzip, os, random, re, shutil
from nmv.clirun import MTAGS
from nmv.mail import dbid
from nmv.proto import DriverDied
from . import c_cli
from .c_cli import CWalk, start, run, CMP
from .c_query import Q, iq

c_cli.PROFILES["P11"] = dict(cmp=CMP, n=14, nmids=7, w=dict(tag=2, batch=1, deliver=1, flags=0.7, rm=0.5, new=1, conf=2, dump=5, restore=7, dumpfile=1.5))

def unhex(s): return re.sub(rb"%([0-9a-fA-F]{2})", lambda m: bytes([int(m.group(1), 16)]), s.encode("utf-8", "surrogateescape")).decode("utf-8", "surrogateescape")
SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-_@=.,"

class DWalk(CWalk):
    def __init__(self, r, rng, pid):
        super().__init__(r, rng, pid)
        self.pool = []       # (text of a line, what it says)
        self.dumps = []
        os.makedirs(r.wd + "/out", exist_ok=True)
    # -- reading dumps
    def parse(self, raw):
        """the lines of a dump, as (text, record)"""
        r = self.r
        out = []
        ls = raw.decode("utf-8", "surrogateescape").split("\n")
        if ls[-1] == "": ls.pop()
        else: out.append((ls[-1], {"k": "x", "why": "unfinished line"}))
        if not ls or not ls[0].startswith("#notmuch-dump "): return [("", {"k": "x", "why": "no header"})]
        fmt = ls[0].split()[1].split(":")[0]
        for l in ls[1:]:
            rec = {"k": "x", "why": l}
            if l.startswith("#@ "):
                a = l[3:].split(" ")
                if len(a) == 2: rec = {"k": "c", "key": unhex(a[0]), "v": unhex(a[1])}
            elif l.startswith("#= "):
                a = l[3:].split(" ")
                if all("=" in x for x in a[1:]): rec = {"k": "p", "m": r.msym(unhex(a[0])), "props": [[unhex(y) for y in x.split("=", 1)] for x in a[1:]]}
            elif l.startswith("#"): pass
            elif fmt == "sup":
                m = re.fullmatch(r"([^ ]+) \(([^)]*)\)", l)
                if m: rec = {"k": "t", "m": r.msym(m.group(1)), "tags": [r.tsym(x) for x in m.group(2).split(" ") if x]}
            else:
                m = re.fullmatch(r"(.*?) ?-- id:(.*)", l)
                if m and all(x[0] == "+" for x in m.group(1).split()):
                    i = m.group(2)
                    if i.startswith('"') and i.endswith('"') and len(i) > 1: i = i[1:-1].replace('""', '"')
                    rec = {"k": "t", "m": r.msym(i), "tags": [r.tsym(unhex(x[1:])) for x in m.group(1).split()]}
            out.append((l, rec))
        return out
    def supsafe(self):
        ids = [dbid(self.w.mids.conc(m)) for m in self.st.present]
        o = next((x["o"] for x in reversed(self.r.lines) if "o" in x), {"mail": []})
        tags = [self.w.tags.conc(t) if t in self.w.tags.c else t for m in o["mail"] for t in m["tags"]]
        return all(" " not in x for x in ids) and all(not re.search(r"[ ()]", x) for x in tags)
    def inc(self):
        k = self.rng.sample(["config", "properties", "tags"], self.rng.choice([1, 2, 3, 3, 3]))
        return k, (["--include=" + x for x in k] if len(k) < 3 or self.rng.random() < 0.3 else [])
    def dumpargs(self):
        rng = self.rng
        inc, a = self.inc()
        fmt = "sup" if self.supsafe() and rng.random() < 0.25 else "batch-tag"
        if fmt == "sup" or rng.random() < 0.3: a = a + ["--format=" + fmt]
        q = Q({"k": "all"}, "", "()") if rng.random() < 0.6 else self.query()
        if rng.random() < 0.3 and q.i: qa = ["--query=sexp", q.s]
        else: qa = [q.i] if q.i else []
        if qa and rng.random() < 0.7: qa.insert(len(qa) - 1, "--")
        return inc, fmt, q, a + qa
    def keep(self, raw, parsed, fmt, inc, q):
        self.dumps.append((raw, [x[1] for x in parsed], fmt))
        self.dumps = self.dumps[-4:]
        if fmt != "sup": self.pool = (self.pool + parsed)[-60:]
    def op_dump(self):
        r, rng = self.r, self.rng
        inc, fmt, q, a = self.dumpargs()
        gz = rng.random() < 0.25
        rc, out, err = r.cli.run("dump", *((["--gzip"] if gz else []) + a))
        raw = gzip.decompress(out) if gz and rc == 0 else out
        parsed = self.parse(raw)
        r.lines.append(dict(ev="dump", st=rc, inc=inc, q=q.ast, lines=[x[1] for x in parsed], file="stdout", how="none", left=0, args=a))
        if rc == 0: self.keep(raw, parsed, fmt, inc, q)
    def op_dumpfile(self):
        """into a file; perhaps something goes wrong meanwhile"""
        r, rng = self.r, self.rng
        d = r.wd + "/out"
        for x in os.listdir(d): os.unlink(d + "/" + x)
        f = d + "/dump"
        old = None
        if rng.random() < 0.7:
            old = b"something else\n" * rng.randint(1, 9000)
            with open(f, "wb") as g: g.write(old)
        inc, fmt, q, a = self.dumpargs()
        gz = rng.random() < 0.3
        a = ["--output=" + f] + (["--gzip"] if gz else []) + a
        how = rng.choice(["none", "fail", "fail", "kill"])
        e = {"NMV_ROOT": d}
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5])
        if how == "fail": e.update(NMV_FAIL_AT=n, NMV_FAIL_ERRNO=rng.choice([28, 5]), NMV_FAIL_FOR=1)
        if how == "kill": e.update(NMV_KILL_AT=n, NMV_KILL_HALF=rng.choice([0, 1]))
        log = r.wd + "/dumplog"
        if os.path.exists(log): os.unlink(log)
        e["NMV_LOG"] = log
        rc, out, err = r.cli.run("dump", *a, env=e, preload=r.b.shim)
        now = open(f, "rb").read() if os.path.exists(f) else None
        lines = []
        if now == old: file = "old"
        else:
            file = "new"
            try: raw = gzip.decompress(now) if gz else now
            except Exception: raw = b"torn"
            parsed = self.parse(raw)
            lines = [x[1] for x in parsed]
            if rc == 0: self.keep(now, parsed, fmt, inc, q)
        left = len([x for x in os.listdir(d) if x != "dump"])
        # a failure that was never reached is none
        ops = open(log).read().count("\n") if os.path.exists(log) else 0
        if ops < n and rc >= 0: how = "none"
        r.lines.append(dict(ev="dump", st=rc, inc=inc, q=q.ast, lines=lines, file=file, how=how, left=left, args=a))
    # -- writing them
    def hexenc(self, t, soft=0.03):
        out = ""
        for b in t.encode("utf-8", "surrogateescape"):
            c = chr(b)
            if b < 128 and c in SAFE.replace("=", "") and self.rng.random() >= soft: out += c
            else: out += ("%%%02x" if self.rng.random() < 0.7 else "%%%02X") % b
        return out
    def synth(self):
        """a line made up"""
        rng, w = self.rng, self.w
        m = rng.choice(list(self.st.present) or w.mids.syms()) if rng.random() < 0.7 else rng.choice(w.mids.syms())
        c = dbid(w.mids.conc(m))
        x = rng.random()
        if x < 0.45:
            ts = rng.sample(w.tags.syms(), rng.randint(0, min(4, len(w.tags.syms()))))
            i = iq(c) if rng.random() < 0.5 or not re.fullmatch(r"[A-Za-z0-9@.]+", c) else c
            return " ".join("+" + self.hexenc(w.tags.conc(t)) for t in ts) + " -- id:" + i, {"k": "t", "m": m, "tags": ts}
        if x < 0.8:
            ps = [[rng.choice([k for k in w.keys if "=" not in k]), rng.choice(w.vals)] for _ in range(rng.randint(0, 3))]
            ps = [p for p in ps if len((p[0] + "=" + p[1]).encode()) <= 200]
            return "#= " + self.hexenc(c) + "".join(" %s=%s" % (self.hexenc(k), self.hexenc(v)) for k, v in ps), {"k": "p", "m": m, "props": ps}
        k, v = rng.choice(["query.x", "a.b", "zz z", "\u00fc.k"]), rng.choice(["v", "tag:inbox and x", "%25", "\u65e5 x;y", "  lead"])
        return "#@ %s %s" % (self.hexenc(k), self.hexenc(v)), {"k": "c", "key": k, "v": v}
    JUNK = ["# a comment", "", "   ", "+tag", "+t -- ", "+%zz -- id:a@b", "+foo -- tag:bar", "+foo -- id:unknown@nowhere.invalid", "#= unknown@nowhere.invalid k=v", "+a +b", "nonsense", "+x -- id:a@b and id:c@d", "#"]
    def op_restore(self):
        r, rng = self.r, self.rng
        self.settle()
        sync = self.tagconf()
        acc = rng.random() < 0.3
        inc, a = self.inc()
        if self.dumps and rng.random() < 0.5:
            raw, lines, fmt = rng.choice(self.dumps)
            if rng.random() < 0.3: a.append("--format=" + rng.choice([fmt, "auto"]))
        else:
            n = rng.randint(0, 14)
            xs = [rng.choice(self.pool) if self.pool and rng.random() < 0.5 else self.synth() for _ in range(n)]
            xs += [(j, {"k": "x"}) for j in rng.sample(self.JUNK, rng.choice([0, 0, 1, 3]))]
            rng.shuffle(xs)
            xs = [x for x in xs if x[1]["k"] == "c"] + [x for x in xs if x[1]["k"] != "c"]
            head = rng.random() < 0.7
            body = ["#notmuch-dump batch-tag:3 config,properties,tags"] if head else []
            first = next((t for t, x in xs if t.strip() and not t.startswith("#")), "")
            if not head and "(" in first: a.append("--format=batch-tag")
            raw = "\n".join(body + [t for t, _ in xs])
            if rng.random() < 0.85: raw += "\n"
            raw = raw.encode("utf-8", "surrogateescape")
            lines = [x for _, x in xs]
        if raw[:2] != b"\x1f\x8b" and rng.random() < 0.15: raw = gzip.compress(raw)
        a = ["restore"] + (["--accumulate"] if acc else []) + a
        f = dict(lines=lines, inc=inc, acc=acc, sync=sync)
        if rng.random() < 0.4:
            with open(r.wd + "/in", "wb") as g: g.write(raw)
            r.command("restore", a + ["--input=" + r.wd + "/in"], **f)
        else: r.command("restore", a, input=raw, **f)
        self.after()
        if rng.random() < 0.6: self.op_dump()
    def op_conf(self):
        r, rng = self.r, self.rng
        k = rng.choice(["query.one", "query.two", "squery.S", "x.y", "some.key with space", "\u00fc.\u00fc", "a.b=c"])
        v = rng.choice(["v", "tag:a and not tag:b", "a;b;c", "100%", "", "\u65e5\u672c \u8a9e", '"q"', "x" * 3000])
        if k.startswith("squery") and v: v = "(tag a)"
        if "=" in k or " " in k: k = "x.z"
        rc, o, e = r.cli.run("config", "set", "--database", k, *([v] if v else []))
        r.lines.append(dict(ev="cliconf", st=rc, k=k, v=v))

def history(pid, i, seed):
    rng, w, wd, r, st = start(pid, i, seed)
    st = DWalk(r, rng, pid)
    try:
        for _ in range(rng.randint(2, 4)): st.op_deliver()
        st.op_new()
        st.sync()
        for _ in range(c_cli.PROFILES[pid]["n"]): st.step()
        st.op_dump()
        return r.done()
    finally:
        r.finish()
        shutil.rmtree(wd, ignore_errors=True)

def P11(c): run(c, history, int(os.environ.get("NMV_N", 200 if c.quick else 2500)))
