"""Client side of the nmdrv line protocol."""
import json, os, re, select, signal, subprocess

def esc(s):
    if isinstance(s, str): s = s.encode("utf-8", "surrogateescape")
    out = []
    for b in s:
        if 0x20 < b < 0x7f and b != 0x25: out.append(chr(b))
        else: out.append("%%%02x" % b)
    return "".join(out)

_un = re.compile(rb"%([0-9a-fA-F]{2})")
def unesc(s):
    if isinstance(s, str): s = s.encode("utf-8", "surrogateescape")
    return _un.sub(lambda m: bytes([int(m.group(1), 16)]), s).decode("utf-8", "surrogateescape")

class DriverDied(Exception): pass

class Driver:
    """One process that holds libnotmuch handles."""
    def __init__(self, build, env=None, timeout=60, preload=None, cwd="/"):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/nonexistent", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}
        if env: e.update({k: str(v) for k, v in env.items()})
        if preload: e["LD_PRELOAD"] = preload
        self.timeout = timeout
        self.p = subprocess.Popen([build.drv], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=(open(os.environ["NMV_STDERR"], "ab") if os.environ.get("NMV_STDERR") else subprocess.DEVNULL), env=e, cwd=cwd)
        self.buf = b""
        self.dead = False
    def send(self, *args):
        line = "\t".join(esc(a if isinstance(a, (str, bytes)) else str(a)) for a in args) + "\n"
        try:
            self.p.stdin.write(line.encode("ascii"))
            self.p.stdin.flush()
        except BrokenPipeError:
            self.died()
    def died(self):
        self.dead = True
        try: self.p.wait(5)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
        raise DriverDied("driver ended with %s" % self.p.returncode)
    def recv(self, timeout=None):
        timeout = timeout or self.timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], timeout)
            if not r:
                self.p.kill()
                self.died()
            d = os.read(fd, 1 << 20)
            if not d: self.died()
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line.decode("ascii"), object_pairs_hook=None)
    def __call__(self, *args):
        self.send(*args)
        return self.recv()
    def close(self):
        if self.p.poll() is None:
            try: self.p.stdin.close()
            except OSError: pass
            try: self.p.wait(10)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
        self.p.stdout.close()
        self.dead = True
    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout):
            try: f.close()
            except OSError: pass
        self.dead = True

def deep(x):
    """Undo the escaping in everything a driver reply contains."""
    if isinstance(x, str): return unesc(x)
    if isinstance(x, list): return [deep(y) for y in x]
    if isinstance(x, dict): return {k: deep(v) for k, v in x.items()}
    return x
