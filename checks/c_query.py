"""Checks of queries and threads: P12 P13 P05."""
import json, os, random, re, shutil, tempfile
from nmv.build import build
from nmv.store import World, Run
from nmv.proto import DriverDied
from nmv.cli import Cli
from nmv.mail import dbid, sd, cd, BIG
from . import c_store
from .c_store import Walker, BASE

VOC = ["w%dw" % i for i in range(1, 7)]
WEIGHTS = dict(BASE, reindex=0, rewrite=0, unlink=0, ro=0, crash=0, reopen=0, setdir=0, setconf=0, getconf=0, peek=0, view=0, getprops=0, noop=0,
               freeze=0, thaw=0, begin=0, end=0, badend=0, close=0.3, add=8, remove=2.5, move=1.5, fetch=6, tag=9, untag=2, cleartags=0.3, prop=4, unprop=1)
PROFILES = {
 "P12": dict(cmp="ids tid rev", n=22, queries=40, nmids=7, dup=2),
 "P13": dict(cmp="ids tid rev", n=26, queries=8, nmids=9, dup=2),
 "P05": dict(cmp="ids tid rev", n=18, queries=8, nmids=9, dup=1),
}

def sq(s): return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
def iq(s): return '"' + s.replace('"', '""') + '"'
def wsafe(s): return re.fullmatch(r"[A-Za-z0-9_.@=-]+", s) is not None

class Q:
    """A query: its meaning and its two notations."""
    def __init__(self, ast, infix, sexp, atom=None): self.ast, self.i, self.s, self.f = ast, infix, sexp, atom

class Gen:
    def __init__(self, rng, r, st, simple=False, notags=()):
        self.rng, self.r, self.w, self.st, self.simple, self.notags = rng, r, r.w, st, simple, set(notags)
    # -- leaves
    def field(self, name, val, quote=None):
        """field name with a literal value in both notations"""
        q = self.rng.random() < 0.6 or not wsafe(val)
        return name + ":" + (iq(val) if q else val), "(%s %s)" % (name, sq(val) if q or val in ("", "*") or val[0] == "," else val)
    def leaf(self):
        r, rng, w = self.r, self.rng, self.w
        k = rng.choice(self.kinds)
        return getattr(self, "l_" + k)()
    kinds = ["tag"] * 5 + ["id"] * 3 + ["folder"] * 2 + ["path", "pathr"] + ["prop"] * 2 + ["word"] * 4 + ["phrase", "hdr", "date", "date", "lastmod", "lastmod", "thread", "tagre", "idre",
             "folderre", "propre", "swtag", "swfolder", "swprop", "swword", "any", "share", "threadof", "threadof", "saved", "saved", "all", "fieldop", "macro", "embed"]
    simplekinds = ["tag"] * 5 + ["id"] * 3 + ["folder", "path", "pathr", "prop", "word", "word", "word", "date", "date", "thread", "hdr", "savedtag", "fieldop"]
    def tagname(self, s): return self.w.tags.conc(s)
    def somebody(self): return self.rng.choice(list(self.st.present) or self.w.mids.syms())
    def l_tag(self):
        t = self.rng.choice([x for x in self.w.tags.syms() if x not in self.notags])
        c = self.tagname(t)
        if self.rng.random() < 0.03 and "attachment" not in self.notags: t = c = "attachment"
        f = self.rng.choice(["tag", "is"])
        i, s = self.field(f, c)
        if re.fullmatch("/.*/", c) or c.startswith("/"): i = None
        return Q({"k": "tag", "v": t}, i, s, f)
    def l_savedtag(self): return self.l_saved()
    def l_id(self):
        return self.q_id(self.somebody() if self.rng.random() < 0.8 else self.rng.choice(self.w.mids.syms()))
    def q_id(self, m):
        c = dbid(self.w.mids.conc(m))
        f = self.rng.choice(["id", "id", "mid"])
        i, s = self.field(f, c)
        return Q({"k": "id", "v": m}, i, s, f)
    def l_thread(self):
        for x in reversed(self.r.lines):
            if "o" in x and x["o"]["mail"]:
                t = self.rng.choice(x["o"]["mail"])["tid"]
                i, s = self.field("thread", t)
                return Q({"k": "thread", "v": t}, i, s, "thread")
        return self.l_all()
    def l_folder(self):
        d = self.rng.choice(self.w.folders)
        if d and d[-1] in ("cur", "new") and self.rng.random() < 0.8: d = d[:-1]
        p = "/".join(d) + ("/" if d and self.rng.random() < 0.2 else "")
        i, s = self.field("folder", p)
        return Q({"k": "folder", "v": d}, i, s, "folder")
    def l_path(self):
        d = self.rng.choice(self.w.dirs)
        i, s = self.field("path", "/".join(d) + ("/" if d and self.rng.random() < 0.2 else ""))
        return Q({"k": "path", "v": d}, i, s, "path")
    def l_pathr(self):
        d = self.rng.choice(self.w.dirs)
        i, s = self.field("path", "/".join(d + ["**"]))
        return Q({"k": "pathr", "v": d}, i, s, "path")
    def l_prop(self):
        have = [x for x in self.st.props]
        if have and self.rng.random() < 0.7: k, v = self.rng.choice(have)
        else: k, v = self.rng.choice(self.w.keys), self.rng.choice(self.w.vals)
        i, s = self.field("property", k + "=" + v)
        return Q({"k": "prop", "key": k, "v": v}, i, s, "property")
    FIELDS = {"b": "body", "s": "subject", "f": "from", "": ""}
    def l_word(self):
        v = self.rng.choice(VOC)
        p = self.rng.choice(["b", "s", "f", ""])
        ws = [x + ":" + v for x in "bsf"] if not p else [p + ":" + v]
        ast = {"k": "wordin", "v": ws} if not p else {"k": "word", "v": ws[0]}
        at = sq(v) if self.rng.random() < 0.4 else v.upper() if self.rng.random() < 0.3 else v
        i = (self.FIELDS[p] + ":" if p else "") + (at.upper() if self.rng.random() < 0.2 else at)
        return Q(ast, i, "(%s %s)" % (self.FIELDS[p], at) if p else at, None)
    def l_phrase(self):
        a, b = self.rng.choice(VOC), self.rng.choice(VOC)
        p = self.rng.choice(["s", "f"])
        # words of several files of a message overlay each other
        for m in self.w.bymid:
            cs = [c for c in self.w.contents.values() if c["mid"] == m]
            if len(cs) > 1 and not any("%s:%s %s" % (p, a, b) in c["words"] for c in cs) and {p + ":" + a, p + ":" + b} <= {x for c in cs for x in c["words"]}: return self.l_word()
        i, s = self.FIELDS[p] + ":" + iq(a + " " + b), "(%s %s)" % (self.FIELDS[p], sq(a + self.rng.choice([" ", "-", "/"]) + b))
        return Q({"k": "word", "v": "%s:%s %s" % (p, a, b)}, i, s, None)
    def pick(self, xs, matches):
        return [x for x in xs if matches(x)]
    def rx(self, samples):
        """a regular expression that Python and POSIX understand alike"""
        s = self.rng.choice(samples or ["x"])
        s = s.encode("utf-8").decode("latin-1")
        n = len(s)
        i = self.rng.randint(0, max(0, n - 1)); j = min(n, i + self.rng.randint(0, 4))
        lit = "".join("[" + c + "]" if c not in "^[\\]\"/" and ord(c) < 128 else "." for c in s[i:j])
        if self.rng.random() < 0.3: lit = re.sub(r"\[[^\]]\]", ".", lit, count=1)
        x = self.rng.random()
        if x < 0.25 and i == 0: lit = "^" + lit
        elif x < 0.5 and j == n: lit = lit + "$"
        elif x < 0.6: lit = "^.*" + lit
        elif x < 0.7: lit = "(%s|%s)" % (lit or ".", "zzz")
        return lit or "."
    def hit(self, rx, s): return re.search(rx, s.encode("utf-8").decode("latin-1"), re.S) is not None
    def alltags(self): return [(t, self.tagname(t)) for t in self.w.tags.syms()] + [("attachment", "attachment")]
    def l_tagre(self):
        rx = self.rx([c for _, c in self.alltags()])
        f = self.rng.choice(["tag", "is"])
        return Q({"k": "tagin", "v": [t for t, c in self.alltags() if self.hit(rx, c)]}, "%s:%s" % (f, iq("/" + rx + "/")), "(%s (%s %s))" % (f, self.rng.choice(["rx", "regex"]), sq(rx)), None)
    def l_idre(self):
        ids = [(m, dbid(c)) for m, c in self.w.mids.c.items()]
        rx = self.rx([c for _, c in ids])
        return Q({"k": "idin", "v": [m for m, c in ids if self.hit(rx, c)]}, "mid:" + iq("/" + rx + "/"), "(%s (rx %s))" % (self.rng.choice(["mid", "id"] if 0 else ["mid"]), sq(rx)), None)
    def folderset(self):
        fs = []
        for f in self.w.folders:
            g = f[:-1] if f and f[-1] in ("cur", "new") else f
            if g not in fs: fs.append(g)
        return fs
    def l_folderre(self):
        fs = self.folderset()
        rx = self.rx(["/".join(f) for f in fs if f])
        return Q({"k": "folderin", "v": [f for f in fs if self.hit(rx, "/".join(f))]}, "folder:" + iq("/" + rx + "/"), "(folder (rx %s))" % sq(rx), None)
    def kv(self): return [(k, v) for k in self.w.keys for v in self.w.vals]
    def l_propre(self):
        rx = self.rx([k + "=" + v for k, v in self.kv()])
        s = "(property (rx %s))" % sq(rx)
        return Q({"k": "propin", "v": [[k, v] for k, v in self.kv() if self.hit(rx, k + "=" + v)]}, "sexp:" + iq(s), s, None)
    def sw(self, field, pairs, ast):
        c = self.rng.choice([c for _, c in pairs if c] or ["x"])
        p = c[:self.rng.randint(1, len(c))]
        s = "(%s (starts-with %s))" % (field, sq(p))
        return Q({"k": ast, "v": [x for x, c in pairs if c.startswith(p)]}, "sexp:" + iq(s), s, None)
    def l_swtag(self): return self.sw(self.rng.choice(["tag", "is"]), self.alltags(), "tagin")
    def l_swfolder(self): return self.sw("folder", [(f, "/".join(f)) for f in self.folderset()], "folderin")
    def l_swprop(self): return self.sw("property", [([k, v], k + "=" + v) for k, v in self.kv()], "propin")
    def l_swword(self):
        p = "w" + self.rng.choice(["", "1", "2w", "3"])
        f = self.rng.choice(["s", "f"])
        return Q({"k": "wordin", "v": [f + ":" + x for x in VOC if x.startswith(p)]}, self.FIELDS[f] + ":" + p + "*", "(%s (starts-with %s))" % (self.FIELDS[f], p), None)
    def l_any(self):
        f, k = self.rng.choice([("tag", "anytag"), ("property", "anyprop"), ("folder", "all"), ("id", "all"), ("thread", "all"), ("from", "all")])
        s = "(%s *)" % f
        return Q({"k": k}, "sexp:" + iq(s), s, None)
    def l_hdr(self):
        f = self.rng.choice(["from", "subject"])
        key = {"from": "from", "subject": "subj"}[f]
        vals = {cid: c[key] for cid, c in self.w.contents.items() if c["ok"]}
        rx = self.rx([v for v in vals.values() if v])
        return Q({"k": "hdr", "v": [c for c, v in vals.items() if v and self.hit(rx, v)]}, f + ":" + iq("/" + rx + "/"), "(%s (rx %s))" % (f, sq(rx)), None)
    def l_date(self):
        ds = sorted({c["date"] for c in self.w.contents.values() if c["ok"]})
        a, b = sorted([max(0, self.rng.choice(ds) + self.rng.choice([-1, 0, 0, 1])) for _ in "ab"])
        A, B = cd(a), cd(b)
        x = self.rng.random()
        if x < 0.2: return Q({"k": "date", "lo": a, "hi": 2147483647}, "date:@%d.." % A, "(date @%d %s)" % (A, self.rng.choice(["*", '""'])), None)
        if x < 0.4: return Q({"k": "date", "lo": 0, "hi": b}, "date:..@%d" % B, "(date * @%d)" % B, None)
        if x < 0.5: return Q({"k": "date", "lo": a, "hi": a}, "date:@%d" % A, "(date @%d)" % A, None)
        if x < 0.6 and a == A:
            import time
            d = time.strftime("%Y-%m-%d", time.gmtime(a))
            lo = a - a % 86400
            return Q({"k": "date", "lo": lo, "hi": lo + 86399}, "date:" + d, "(date %s)" % d, None)
        return Q({"k": "date", "lo": a, "hi": b}, "date:@%d..@%d" % (A, B), "(date @%d @%d)" % (A, B), None)
    def l_lastmod(self):
        rev = next((x["o"]["rev"] for x in reversed(self.r.lines) if "o" in x), 1)
        a, b = sorted([self.rng.randint(0, rev + 1) for _ in "ab"])
        x = self.rng.random()
        if x < 0.2: return Q({"k": "lastmod", "lo": a, "hi": 999999}, "lastmod:%d.." % a, "(lastmod %d *)" % a, None)
        if x < 0.4: return Q({"k": "lastmod", "lo": 0, "hi": b}, "lastmod:..%d" % b, "(lastmod * %d)" % b, None)
        if x < 0.5: return Q({"k": "lastmod", "lo": b, "hi": b}, "lastmod:%d..%d" % (b, b), "(lastmod %d)" % b, None)
        if x < 0.75:
            n = self.rng.randint(1, max(1, rev))
            return Q({"k": "lastmod", "lo": -n, "hi": 999999}, "lastmod:-%d.." % n, "(lastmod -%d *)" % n, None)
        return Q({"k": "lastmod", "lo": a, "hi": b}, "lastmod:%d..%d" % (a, b), "(lastmod %d %d)" % (a, b), None)
    def l_all(self): return Q({"k": "all"}, "path:**", "()", None)
    def l_threadof(self):
        q = self.expr(self.rng.randint(0, 1))
        return Q({"k": "share", "f": "thread", "a": [q.ast]}, "thread:" + iq("{" + q.i + "}"), "(thread (%s %s))" % (self.rng.choice(["of", "matching"]), q.s), None)
    def l_share(self):
        f = self.rng.choice(["tag", "folder", "property"])
        q = self.expr(self.rng.randint(0, 1))
        s = "(%s (%s %s))" % (f, self.rng.choice(["of", "matching"]), q.s)
        return Q({"k": "share", "f": f, "a": [q.ast]}, "sexp:" + iq(s), s, None)
    def l_saved(self):
        if not self.st.saved: return self.l_tag()
        n, kind = self.rng.choice(list(self.st.saved.items()))
        if kind == "i": return Q({"k": "saved", "v": "query." + n}, "query:" + n, "(query %s)" % n, None)
        s = "(%s)" % n
        return Q({"k": "saved", "v": "squery." + n}, "sexp:" + iq(s), s, None)
    def l_fieldop(self):
        """several terms inside one field"""
        f = self.rng.choice(["tag", "id", "folder", "property"])
        qs = [getattr(self, "l_" + {"property": "prop"}.get(f, f))() for _ in range(self.rng.randint(2, 3))]
        op = self.rng.choice(["", "and", "or", "not"])
        atom = lambda q: q.s[q.s.index(" ") + 1:-1]
        ins = " ".join(atom(q) for q in qs)
        k = op or ("or" if f in ("id", "folder") else "and")
        ast = {"k": k, "a": [q.ast for q in qs]}
        if op == "not" and k == "not": inf = "(" + " and ".join("(not %s)" % q.i for q in qs) + ")"
        else: inf = "(" + (" %s " % k).join(q.i for q in qs) + ")"
        s = "(%s %s)" % (f, ins) if not op else "(%s (%s %s))" % (f, op, ins)
        return Q(ast, inf, s, None)
    def l_macro(self):
        if "Both" not in self.st.macros: return self.l_tag()
        a, b = self.l_tag(), self.l_word()
        atom = a.s[a.s.index(" ") + 1:-1]
        if "Nest" in self.st.macros and self.rng.random() < 0.5:
            b = self.l_tag()
            s = "(Nest %s %s)" % (atom, b.s[b.s.index(" ") + 1:-1])
            n = lambda x, y: {"k": "and", "a": [x.ast, {"k": "not", "a": [y.ast]}]}
            return Q({"k": "or", "a": [n(b, a), n(a, b)]}, "sexp:" + iq(s), s, None)
        s = "(Both %s %s)" % (atom, b.s)
        return Q({"k": "and", "a": [a.ast, {"k": "not", "a": [b.ast]}]}, "sexp:" + iq(s), s, None)
    def l_embed(self):
        q = self.expr(1)
        return Q(q.ast, "sexp:" + iq(q.s), "(infix %s)" % sq(q.i), None)
    # -- combinations
    def expr(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.15: return self.leaf()
        op = rng.choice(["and", "and", "or", "or", "not", "xor", "adj", "andnot"])
        if op == "not":
            q = self.expr(depth - 1)
            n = rng.randint(1, 2)
            qs = [q] + ([self.expr(depth - 1)] if n == 2 else [])
            inf = "(" + " and ".join("(not %s)" % x.i for x in qs) + ")"
            return Q({"k": "not", "a": [x.ast for x in qs]}, inf, "(not %s)" % " ".join(x.s for x in qs))
        if op == "xor":
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            return Q({"k": "xor", "a": [a.ast, b.ast]}, "(%s xor %s)" % (a.i, b.i), "(or (and %s (not %s)) (and %s (not %s)))" % (a.s, b.s, b.s, a.s))
        if op == "adj":
            # boolean terms one after the other: those with the same prefix are alternatives
            fs = [self.l_tag(), self.l_id(), self.l_folder()] if self.simple else [self.l_tag(), self.l_id(), self.l_folder(), self.l_pathr(), self.l_prop()]
            qs = [rng.choice(fs)]
            for _ in range(rng.randint(1, 3)):
                qs.append(getattr(self, rng.choice(["l_tag", "l_id", "l_folder", "l_prop"]))())
            groups = {}
            for q in qs: groups.setdefault(q.f, []).append(q)
            ast = {"k": "and", "a": [{"k": "or", "a": [q.ast for q in g]} for g in groups.values()]}
            return Q(ast, "(" + " ".join(q.i for q in qs) + ")", "(and " + " ".join("(or " + " ".join(q.s for q in g) + ")" for g in groups.values()) + ")")
        if op == "andnot":
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            return Q({"k": "and", "a": [a.ast, {"k": "not", "a": [b.ast]}]}, "(%s %s %s)" % (a.i, rng.choice(["and not", "not"]), b.i), "(and %s (not %s))" % (a.s, b.s))
        qs = [self.expr(depth - 1) for _ in range(rng.randint(2, 3))]
        return Q({"k": op, "a": [q.ast for q in qs]}, "(" + (" %s " % rng.choice([op, op.upper()])).join(q.i for q in qs) + ")", "(%s %s)" % (op, " ".join(q.s for q in qs)))

def hassaved(ast):
    return ast["k"] == "saved" or any(hassaved(x) for x in ast.get("a", []))

class QWalker(Walker):
    def __init__(self, r, rng, pid):
        super().__init__(r, rng, {"w": {}}, pid)
        self.wt = dict(WEIGHTS)
        self.saved, self.macros, self.props = {}, set(), []
    def op_prop(self):
        n = len(self.r.lines)
        super().op_prop()
        if len(self.r.lines) > n and self.r.lines[-1]["ev"] == "prop": self.props.append((self.r.lines[-1]["k"], self.r.lines[-1]["v"]))
    def op_save(self, simple=False):
        """stores or replaces a saved query"""
        r, rng = self.r, self.rng
        kind = rng.choice("is")
        n = rng.choice(["qa", "qb", "Qc"]) if kind == "i" else rng.choice(["sa", "sb"])
        old, self.saved = self.saved, {}   # no nesting
        g = Gen(rng, r, self, simple)
        if simple: g.kinds = g.simplekinds
        q = g.expr(1)
        self.saved = old
        text = q.i if kind == "i" else q.s
        if "\n" in text or text.startswith("sexp:") and kind == "s": return
        self.saved[n] = kind
        r.lines[0]["saved"][text] = q.ast
        r.setconf(("query." if kind == "i" else "squery.") + n, text)
    def op_macro(self):
        for n, t in [("Both", "(macro (x y) (and (tag ,x) (not ,y)))"), ("Nest", "(macro (x z) (or (Both ,z (tag ,x)) (Both ,x (tag ,z))))")]:
            self.macros.add(n)
            self.r.lines[0]["saved"][t] = {"k": "none"}
            self.r.setconf("squery." + n, t)

def when(rng, usual):
    """date (and whether it is left out of the message): now and then one at the edge"""
    if rng.random() >= 0.12: return dict(date=usual)
    return rng.choice([dict(date=0, nodate=True), dict(date=-86400 * rng.randint(1, 9)), dict(date=BIG + rng.randint(0, 50000)), dict(date=rng.randint(0, 90000))])

def world(pid, rng):
    prof = PROFILES[pid]
    w = World(rng, nmids=prof["nmids"], odd=rng.random() < 0.6)
    ms = w.mids.syms()
    w.bymid = {}
    dates = [1000000000 + rng.randint(0, 5) * 86400 + rng.randint(0, 2) * 4000 for _ in range(4)]
    for m in ms:
        for _ in range(rng.randint(1, prof["dup"])):
            refs = [x for x in ms if rng.random() < 0.15 and x != m]
            subj, body, fw = [[rng.choice(VOC) for _ in range(rng.randint(a, 3))] for a in (0, 1, 1)]
            words = {"b:" + x for x in body} | {"s:" + x for x in subj} | {"f:" + x for x in fw} | {"s:%s %s" % x for x in zip(subj, subj[1:])} | {"f:%s %s" % x for x in zip(fw, fw[1:])}
            c = w.content(mid=m, refs=refs, auto=["attachment"] if rng.random() < 0.1 else [], words=body, subj=" ".join(subj), frm=" ".join(fw) + " <nn%d@ex.org>" % rng.randint(1, 4),
                          **when(rng, rng.choice(dates) if rng.random() < 0.6 else 1000000000 + rng.randint(0, 500000)))
            w.contents[c]["words"] = sorted(words)
            w.bymid.setdefault(m, []).append([c])
    w.bad = w.content(None, ok=False)
    return w

def world05(rng):
    prof = PROFILES["P05"]
    w = World(rng, nmids=prof["nmids"], odd=rng.random() < 0.4)
    ms = w.mids.syms()
    w.bymid = {}
    shape = rng.choice(["forward", "any", "any", "dense"])
    dates = [1000000000 + rng.randint(0, 5) * 86400 for _ in range(4)]
    people = ["Ann One <a1@ex.org>", "Bob Two <b2@ex.org>", "<c3@ex.org>", '"Four, Dee" <dee.four@ex.org>', '"Five, Eve" <x@ex.org>', "Fay <f6@ex.org>"]
    who = {'"Four, Dee" <dee.four@ex.org>': "Dee Four", '"Five, Eve" <x@ex.org>': "Five, Eve"}
    for n, m in enumerate(ms):
        others = ms if shape != "forward" else ms[:n]
        k = rng.choice([0, 1, 1, 2, 2, 3]) if shape != "dense" else rng.randint(1, 4)
        refs = rng.sample(others, min(k, len(others)))
        irt = rng.choice(others) if others and rng.random() < 0.7 else None
        if refs and rng.random() < 0.4: irt = refs[-1]
        frm = rng.choice(people)
        v = rng.choice(VOC)
        subj = rng.choice(["Re: ", "re: ", "AW: ", "", "", "Re:"]) + "%s %s" % (rng.choice(VOC), m)
        body = [rng.choice(VOC) for _ in range(2)]
        c = w.content(mid=m, refs=refs, irt=irt, irtfmt=rng.choice([None, None, None, "<%s> (Joe)"]) if irt else None, words=body, subj=subj, frm=frm, author=who.get(frm),
                      **when(rng, rng.choice(dates) if rng.random() < 0.6 else 1000000000 + rng.randint(0, 500000)))
        w.contents[c]["words"] = sorted({"b:" + x for x in body})
        w.bymid[m] = [[c]]
    w.bad = w.content(None, ok=False)
    return w

def start(pid, i, seed):
    rng = random.Random("%s/%s/%s" % (pid, i, seed))
    w = world05(rng) if pid == "P05" else world(pid, rng)
    wd = tempfile.mkdtemp(prefix="%s-%s-" % (pid, i), dir=os.environ["NMV_WD"])
    r = Run(build(), w, wd + "/mail", set(PROFILES[pid]["cmp"].split()), flush=False)
    r.lines[0]["saved"] = {}
    r.lines[0]["rank"] = {m: n for n, m in enumerate(sorted(w.mids.syms(), key=lambda m: dbid(w.mids.conc(m)).encode()))}
    r.create()
    st = QWalker(r, rng, pid)
    for _ in range(rng.randint(3, 8)): st.sync(); st.op_add()
    return rng, w, wd, r, st

def guard(fn):
    def f(pid, i, seed, *a):
        rng, w, wd, r, st = start(pid, i, seed)
        try:
            fn(rng, w, wd, r, st, pid, *a)
            return r.lines
        except DriverDied as x:
            r.lines.append({"ev": "look", "st": -999, "what": str(x)})
            return r.lines
        finally:
            r.finish()
            shutil.rmtree(wd, ignore_errors=True)
    f.__name__ = f.__qualname__ = fn.__name__[1:]
    return f

def _history12(rng, w, wd, r, st, pid):
    prof = PROFILES[pid]
    n, nq = prof["n"], prof["queries"]
    for step in range(n):
        st.step()
        if rng.random() < 0.12: st.op_save()
        if rng.random() < 0.05: st.op_macro()
        if step < n // 3: continue
        st.sync()
        for _ in range(rng.randint(0, 2 * nq // n + 1)):
            g = Gen(rng, r, st)
            q = g.expr(rng.choice([0, 1, 1, 2, 2, 3]))
            for syn, text in (("infix", q.i), ("sexp", q.s)):
                if text is None: continue
                if len(text) > 6000: continue
                rep = r.event("query", ["query", r.h, syn, rng.choice(["old", "new", "id", "none"]), "true", text], obs=False, q=q.ast, text=text, syn=syn, ids=[])
                if rep: r.last["ids"] = [r.msym(x[0]) for x in rep["ids"]]
    # the terms of a few messages together
    st.sync()
    for _ in range(nq // 3):
        g = Gen(rng, r, st)
        ms = rng.sample(list(st.present), min(len(st.present), rng.randint(2, 4)))
        if len(ms) < 2: break
        sub = [g.q_id(m) for m in ms]
        f = rng.choice(["tag", "tag", "folder", "property"])
        text = "(%s (%s (or %s)))" % (f, rng.choice(["of", "matching"]), " ".join(q.s for q in sub))
        rep = r.event("query", ["query", r.h, "sexp", "none", "true", text], obs=False, q={"k": "share", "f": f, "a": [{"k": "or", "a": [q.ast for q in sub]}]}, text=text, syn="sexp", ids=[])
        if rep: r.last["ids"] = [r.msym(x[0]) for x in rep["ids"]]
history12 = guard(_history12)

def _history13(rng, w, wd, r, st, pid):
    prof = PROFILES[pid]
    st.wt.update(tag=14, fetch=8)
    for step in range(prof["n"]):
        st.step()
        if rng.random() < 0.1: st.op_save(simple=True)
    st.sync()
    ts = w.tags.syms()
    def query():
        g = Gen(rng, r, st, simple=True)
        g.kinds = g.simplekinds
        if rng.random() < 0.2: return Q({"k": "all"}, "*", "()")
        return g.expr(rng.choice([0, 1, 1, 2]))
    for _ in range(prof["queries"]):
        q = query()
        ex = rng.sample(ts, rng.randint(0, 3))
        mode = rng.choice(["true", "flag", "all", "false"])
        sort = rng.choice(["old", "new", "id", "none"])
        syn = rng.choice(["infix", "sexp"])
        text = q.i if syn == "infix" else q.s
        rep = r.event("search", ["query", r.h, syn, sort, mode, text] + [w.tags.conc(t) for t in ex], obs=False, q=q.ast, excl=ex, mode=mode, sort=sort, text=text, ids=[], nmsg=-1, nthr=-1)
        if rep and not rep["st"]:
            r.last.update(ids=[[r.msym(x[0]), x[1]] for x in rep["ids"]], nmsg=rep["nmsg"], nthr=rep["nthr"])
    # the same on the command line
    r.dropall()
    r.close()
    okex = [t for t in ts if ";" not in w.tags.conc(t) and not w.tags.conc(t).startswith(" ") and "\\" not in w.tags.conc(t)]
    for _ in range(3):
        q = query()
        ex = rng.sample(okex, min(len(okex), rng.randint(0, 3)))
        conf = {"search": {"exclude_tags": [w.tags.conc(t) for t in ex]}}
        # saved queries live in the database
        c = Cli(r.b, wd + "/home", r.root, conf)
        mode = rng.choice(["true", "false", "flag", "all"])
        sort = rng.choice(["old", "new"])
        syn = rng.choice(["infix", "sexp"])
        text = q.i if syn == "infix" else q.s
        cli_rows(c, r, rng, w, q, text, syn, ex, mode, sort)

def z(o): return [x.decode("utf-8", "surrogateescape") for x in o.split(b"\0") if x] if o is not None else ["!"]
def cli_rows(c, r, rng, w, q, text, syn, ex, mode, sort):
    base = ["--exclude=" + mode, "--sort=" + {"old": "oldest-first", "new": "newest-first"}[sort]]
    # only the summary can flag; the other outputs keep the excluded messages then
    eff = mode
    qa = ["--query=sexp"] if syn == "sexp" else []
    def s(out, *a): return c.out("search", *(qa + base + ["--output=" + out, "--format=text0"] + list(a) + ["--", text]))
    ids = lambda o: [r.msym(x[3:] if x.startswith("id:") else x) for x in z(o)]
    thr = lambda o: [x[7:] if x.startswith("thread:") else x for x in z(o)]
    full = s("messages")
    st = 0 if full is not None else 1
    F = ids(full)
    rows = []
    def ol():
        off = rng.choice([None, 0, 1, 2, -1, -2, -3, -20, 5, 50]); lim = rng.choice([None, 0, 1, 2, 3, 50])
        a = ([] if off is None else ["--offset=%d" % off]) + ([] if lim is None else ["--limit=%d" % lim])
        return a, 0 if off is None else off, -1 if lim is None else lim
    for _ in range(2):
        a, off, lim = ol()
        rows.append(dict(out="messages", off=off, lim=lim, got=ids(s("messages", *a))))
        a, off, lim = ol()
        rows.append(dict(out="threads", off=off, lim=lim, got=thr(s("threads", *a))))
    a, off, lim = ol()
    rows.append(dict(out="files", off=off, lim=lim, got=[r.psym(x) for x in z(s("files", *a))]))
    n = rng.randint(1, 3)
    rows.append(dict(out="dup", n=n, got=ids(s("messages", "--duplicate=%d" % n))))
    rows.append(dict(out="dupfiles", n=n, got=[r.psym(x) for x in z(s("files", "--duplicate=%d" % n))]))
    if text != "*": rows.append(dict(out="tags", got=[r.tsym(x) for x in z(s("tags"))]))
    a, off, lim = ol()
    o = c.out("search", *(qa + base + ["--format=json"] + a + ["--", text]))
    rows.append(dict(out="summary", off=off, lim=lim, got=[dict(tid=x["thread"], total=x["total"], matched=x["matched"], tags=[r.tsym(t) for t in x["tags"]]) for x in json.loads(o)] if o is not None else [dict(tid="!", total=0, matched=0, tags=[])]))
    if mode in ("true", "false"):
        for out, name in (("messages", "count"), ("threads", "countthreads"), ("files", "countfiles")):
            if rng.random() < 0.5 and "\n" not in text:
                k = rng.randint(1, 3)
                o = c.out("count", *(qa + ["--exclude=" + mode, "--output=" + out, "--batch"]), input=(text + "\n") * k)
                got = o.decode().split() if o is not None else []
                got = int(got[0]) if len(got) == k and len(set(got)) == 1 else -1
            else:
                o = c.out("count", *(qa + ["--exclude=" + mode, "--output=" + out, "--", text]))
                got = int(o) if o is not None else -1
            rows.append(dict(out=name, got=got))
    for x in rows:
        if x["out"] != "summary": x.setdefault("mode", mode)
    r.lines.append(dict(ev="cli", st=st, q=q.ast, excl=ex, mode="false" if mode == "flag" else mode, sort=sort, full=F, rows=[x for x in rows if x["out"] != "summary" or mode != "flag"], text=text))
    if mode == "flag":
        r.lines.append(dict(ev="cli", st=st, q=q.ast, excl=ex, mode="flag", sort=sort, full=F, rows=[x for x in rows if x["out"] == "summary"], text=text))
history13 = guard(_history13)

def flatten(msgs, sym, par=""):
    """message trees as a list, parents first"""
    out = []
    for x in msgs:
        if isinstance(x, str): out.append(dict(id="!deep", par=par, match=False, excl=False)); continue
        out.append(dict(id=sym(x["id"]), par=par, match=x["match"], excl=x["excl"]))
        out += flatten(x["kids"], sym, sym(x["id"]))
    return out
def shown(nodes, sym, par=""):
    out = []
    for m, *kids in nodes:
        if m is not None: out.append(dict(id=sym(m["id"]), par=par, match=m["match"], excl=m["excluded"]))
        out += shown(kids[0] if kids else [], sym, sym(m["id"]) if m is not None else par)
    return out
def authors(s):
    a, _, b = s.partition("| ")
    f = lambda x: [y for y in x.replace("Five, Eve", "Five; Eve").split(", ") if y]
    return [x.replace("Five; Eve", "Five, Eve") for x in f(a)], [x.replace("Five; Eve", "Five, Eve") for x in f(b)]

def _history05(rng, w, wd, r, st, pid):
    prof = PROFILES[pid]
    st.wt.update(add=14, tag=8, fetch=5)
    ts = w.tags.syms()
    def query():
        g = Gen(rng, r, st, simple=True)
        g.kinds = ["tag", "tag", "id", "id", "folder", "word5", "date", "thread"]
        g.l_word5 = lambda: (lambda v: Q({"k": "word", "v": "b:" + v}, "body:" + v, "(body %s)" % v))(rng.choice(VOC))
        if rng.random() < 0.3: return Q({"k": "all"}, "*", "()")
        return g.expr(rng.choice([0, 0, 1]))
    def ask():
        q = query()
        ex = rng.sample(ts, rng.choice([0, 0, 1, 2]))
        mode = rng.choice(["true", "flag", "all", "false"])
        sort = rng.choice(["old", "new"])
        syn = rng.choice(["infix", "sexp"])
        text = q.i if syn == "infix" else q.s
        rep = r.event("threads", ["threads", r.h, syn, sort, mode, text] + [w.tags.conc(t) for t in ex], obs=False, q=q.ast, excl=ex, mode=mode, sort=sort, text=text, threads=[])
        if rep and not rep["st"]:
            for y in rep["threads"]:
                a, b = authors(y["authors"])
                r.last["threads"].append(dict(tid=y["tid"], total=y["total"], matched=y["matched"], files=y["files"], oldest=sd(y["oldest"]), newest=sd(y["newest"]), subj=y["subj"], auth=a, other=b,
                                              tags=[r.tsym(t) for t in y["tags"]], all=[r.msym(x) for x in y["all"]], nodes=flatten(y["tops"], r.msym)))
    for step in range(prof["n"]):
        st.step()
        if rng.random() < 0.35: st.sync(); ask()
    st.sync()
    for _ in range(prof["queries"]): ask()
    r.dropall()
    r.close()
    okex = [t for t in ts if ";" not in w.tags.conc(t) and not w.tags.conc(t).startswith(" ") and "\\" not in w.tags.conc(t)]
    for _ in range(3):
        q = query()
        ex = rng.sample(okex, min(len(okex), rng.choice([0, 1, 2])))
        c = Cli(r.b, wd + "/home", r.root, {"search": {"exclude_tags": [w.tags.conc(t) for t in ex]}})
        mode, sort = rng.choice(["true", "flag"]), rng.choice(["old", "new"])
        def show(*a):
            o = c.out("show", "--format=json", "--body=false", "--exclude=" + ("true" if mode == "true" else "false"), "--sort=" + {"old": "oldest-first", "new": "newest-first"}[sort], *(list(a) + ["--", q.i]))
            return [shown(t, r.msym) for t in json.loads(o)] if o is not None else [[dict(id="!", par="", match=False, excl=False)]]
        off, lim = rng.choice([0, 0, 1, 2, -1, -2, 9]), rng.choice([-1, -1, 0, 1, 2])
        r.lines.append(dict(ev="show", st=0, q=q.ast, text=q.i, excl=ex, mode=mode, sort=sort, off=off, lim=lim, whole=show(), part=show("--entire-thread=false"),
                            page=show("--entire-thread=false", "--offset=%d" % off, *(["--limit=%d" % lim] if lim >= 0 else [])), flat=[x[0] if x else dict(id="!", par="", match=False, excl=False) for x in show("--unthreaded")]))
history05 = guard(_history05)

def run(c, fn, n):
    os.environ["NMV_WD"] = c.wd
    res = c.run_traces(fn, [(c.pid, i, c.seed) for i in range(n)])
    c.validate("StoreTrace.tla", "StoreTrace.cfg", fn, res)
def P12(c): run(c, history12, 160 if c.quick else 2500)
def P13(c): run(c, history13, 160 if c.quick else 2500)
def P05(c): run(c, history05, 160 if c.quick else 2500)
