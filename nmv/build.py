"""Builds notmuch from /repo's working tree in a scratch copy below /verif/build, keyed by content."""
import fcntl, hashlib, os, shutil, subprocess, sys
REPO = os.environ.get("NMV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.join(VERIF, "build")

class BuildFailed(Exception): pass

def sources():
    env = dict(os.environ, GIT_OPTIONAL_LOCKS="0")
    r = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    if r.returncode == 0 and r.stdout:
        fs = [f.decode("utf-8", "surrogateescape") for f in r.stdout.split(b"\0") if f]
    else:
        fs = []
        for d, ds, names in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", ".deps")]
            for n in names:
                if not n.endswith((".o", ".a", ".so")):
                    fs.append(os.path.relpath(os.path.join(d, n), REPO))
    out = []
    for f in sorted(set(fs)):
        p = os.path.join(REPO, f)
        if os.path.islink(p) or os.path.isfile(p): out.append(f)
    return out

def own_files():
    d = os.path.join(VERIF, "driver")
    return [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith(".c")]

def digest(fs):
    h = hashlib.sha256()
    for f in fs:
        p = os.path.join(REPO, f)
        h.update(f.encode("utf-8", "surrogateescape") + b"\0")
        h.update(os.readlink(p).encode() if os.path.islink(p) else open(p, "rb").read())
    for p in own_files():
        h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    return h.hexdigest()[:20]

def run(cmd, cwd, log, env=None):
    with open(log, "ab") as l:
        l.write(("$ " + " ".join(cmd) + "\n").encode())
        l.flush()
        return subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=l, stderr=l, env=env).returncode

class Build:
    def __init__(self, d):
        self.dir = d
        self.notmuch = d + "/src/notmuch"
        self.drv = d + "/nmdrv"
        self.shim = d + "/shim.so"
        self.git = d + "/src/notmuch-git.py"
        self.bin = d + "/src"

def build():
    os.makedirs(ROOT, exist_ok=True)
    fs = sources()
    key = digest(fs)
    dst = os.path.join(ROOT, key)
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(dst + "/ok"):
            os.utime(dst)
            return Build(dst)
        old = [os.path.join(ROOT, x) for x in os.listdir(ROOT) if os.path.isdir(os.path.join(ROOT, x))]
        old.sort(key=os.path.getmtime)
        for o in old[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        src = dst + "/src"
        os.makedirs(src)
        for f in fs:
            t = os.path.join(src, f)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            p = os.path.join(REPO, f)
            if os.path.islink(p): os.symlink(os.readlink(p), t)
            else: shutil.copy2(p, t)
        log = dst + "/log"
        env = dict(os.environ, CC="gcc", CXX="g++", LANG="C.UTF-8", HOME="/root", PYTHON="/usr/bin/python3")
        for v in ("LD_PRELOAD", "MAKEFLAGS", "MAKELEVEL", "CFLAGS", "CXXFLAGS"): env.pop(v, None)
        if run(["./configure", "--without-docs", "--without-api-docs", "--without-emacs", "--without-bash-completion", "--without-zsh-completion", "--without-ruby"], src, log, env):
            if run(["./configure"], src, log, env): raise BuildFailed(log)
        ver = open(src + "/version.txt").read().strip() if os.path.exists(src + "/version.txt") else "0"
        if run(["make", "-j8", "VERSION=" + ver, "CFLAGS=-g -O1", "CXXFLAGS=-g -O0", "notmuch", "lib/libnotmuch.so.5"], src, log, env):
            raise BuildFailed(log)
        if run(["gcc", "-g", "-O1", "-o", dst + "/nmdrv", VERIF + "/driver/nmdrv.c", "-I" + src + "/lib",
                src + "/lib/libnotmuch.so.5", "-Wl,-rpath," + src + "/lib"], dst, log, env):
            raise BuildFailed(log)
        if os.path.exists(VERIF + "/driver/shim.c"):
            if run(["gcc", "-g", "-O1", "-shared", "-fPIC", "-o", dst + "/shim.so", VERIF + "/driver/shim.c", "-ldl", "-lpthread"], dst, log, env):
                raise BuildFailed(log)
        open(dst + "/ok", "w").close()
    return Build(dst)

if __name__ == "__main__":
    try: print(build().dir)
    except BuildFailed as e:
        sys.stdout.write(open(str(e)).read()[-3000:]); sys.exit(2)
