"""Runs the notmuch command line in a scratch home."""
import os, subprocess

class Cli:
    def __init__(self, build, home, root, conf=None, env=None):
        """conf: {"section": {"key": value}} written to the configuration file"""
        self.b, self.home, self.root = build, home, root
        os.makedirs(home, exist_ok=True)
        self.cfg = home + "/config"
        c = {"database": {"path": root}, "user": {"name": "Me", "primary_email": "me@ex.org"}}
        for s, kv in (conf or {}).items(): c.setdefault(s, {}).update(kv)
        self.conf = c
        self.write()
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": home, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "NOTMUCH_CONFIG": self.cfg, "TZ": "UTC"}
        if env: self.env.update(env)
    def write(self):
        with open(self.cfg, "w") as f:
            for s, kv in self.conf.items():
                f.write("[%s]\n" % s)
                for k, v in kv.items():
                    if isinstance(v, (list, tuple)): v = "".join(x + ";" for x in v)
                    f.write("%s=%s\n" % (k, v))
                f.write("\n")
    def run(self, *args, input=b"", env=None, timeout=120, cwd=None, preload=None):
        e = dict(self.env)
        if env: e.update({k: str(v) for k, v in env.items()})
        if preload: e["LD_PRELOAD"] = preload
        if isinstance(input, str): input = input.encode("utf-8", "surrogateescape")
        a = [x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in map(lambda x: x if isinstance(x, (str, bytes)) else str(x), args)]
        r = subprocess.run([self.b.notmuch] + a, env=e, input=input, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd or self.home)
        return r.returncode, r.stdout, r.stderr.decode("utf-8", "replace")
    def out(self, *args, **kw):
        rc, o, e = self.run(*args, **kw)
        return o if rc == 0 else None
