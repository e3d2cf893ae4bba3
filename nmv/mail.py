"""Concrete e-mails and names for the symbols of the specification."""
import hashlib

MIDS = ["plain@ex.org", "UPPER.lower+x=1@ex.org", "a%b/c@ex.org", "semi;colon@[127.0.0.1]", "back\\slash@ex.org", "x" * 120 + "@ex.org",
        "L" * 300 + "@long.example", "M" * 290 + "@long.example", "quote\"d@ex.org", "dollar$&'@ex.org", "comma,(paren)@ex.org", "plain@ex.or", "plain@ex.org2",
        "tilde~^`@ex.org", "{brace}|@ex.org", "no-at-sign", "x*y@ex.org", "1@1", "mailto:m@ex.org", "id:m@ex.org", "**@ex.org"]
PLAINMIDS = ["m%d@ex.org" % i for i in range(1, 60)]
MAXID = 200 - 11  # NOTMUCH_MESSAGE_ID_MAX

def dbid(mid):
    """The id under which the database files a message."""
    b = mid.encode()
    return mid if len(b) <= MAXID else "notmuch-sha1-" + hashlib.sha1(b + b"\0").hexdigest()

TAGS = ["inbox", "unread", "with space", "\u00fcml\u00e4ut", "T" * 200, "pct%25", "quo\"te", "(paren", "tag:foo", "and", "*", "-minus", "+plus", "a", "aa", "'", "x\\y", "{}", "\u65e5\u672c", "i", "INBOX"]
KEYS = ["k", "k1", "key", "session-key", "\u00fckey", "index.a", "index.b", "K", "k 1", "a.b.c", "index", "indexed", "k" * 100]
VALS = ["v", "", "v=w", "=v", "V", "\u00fc \u65e5", "w" * 150, "v v", "100%", "\"q\"", "v1", "x" * 134]

class Names:
    """Bijection between symbols and concrete strings."""
    def __init__(self, prefix, pool):
        self.c = {"%s%d" % (prefix, i + 1): x for i, x in enumerate(pool)}
        self.s = {x: k for k, x in self.c.items()}
        assert len(self.s) == len(self.c)
    def conc(self, s): return self.c[s] if s != 't9' else 'not-there'
    def sym(self, c): return self.s.get(c, "?" + c)
    def syms(self): return list(self.c)

BIG, BIGSYM = 4102444800, 2147400000
def sd(d):
    """dates as TLC can represent them (it has 32-bit integers)"""
    return d if d < 2100000000 else d - BIG + BIGSYM
def cd(d): return d if d < 2100000000 else d - BIGSYM + BIG
def filed(date):
    """the date under which a message is filed: without one, or one before 1970, at 0"""
    return 0 if date is None or date < 0 else date

def render(mid, subject="s", frm="A <a@ex.org>", date=1000000000, refs=(), irt=None, body="", to="list@ex.org", attach=None, extra=(), omit=()):
    import time
    h = []
    def add(k, v):
        if k.lower() not in omit: h.append("%s: %s" % (k, v))
    add("From", frm)
    add("To", to)
    add("Subject", subject)
    if date is not None: add("Date", time.strftime("%a, %d %b %Y %H:%M:%S +0000", time.gmtime(date)))
    if mid is not None: add("Message-ID", "<%s>" % mid)
    if refs: add("References", "\n ".join("<%s>" % r for r in refs))
    if irt: add("In-Reply-To", irt if "<" in irt else "<%s>" % irt)
    h += list(extra)
    if attach:
        b = "=_b0undary"
        h += ["MIME-Version: 1.0", 'Content-Type: multipart/mixed; boundary="%s"' % b]
        text = "--%s\nContent-Type: text/plain; charset=utf-8\n\n%s\n\n--%s\nContent-Type: application/octet-stream\nContent-Disposition: attachment; filename=\"%s\"\n\nzzz\n--%s--\n" % (b, body, b, attach, b)
    else:
        h += ["MIME-Version: 1.0", "Content-Type: text/plain; charset=utf-8"]
        text = body + "\n"
    return ("\n".join(h) + "\n\n" + text).encode("utf-8", "surrogateescape")
