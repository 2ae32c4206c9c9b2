"""Shared machinery of the checks: building /repo's sources, running drivers, running TLC."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
JOBS = 8
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class Broken(Exception):
    """the check itself could not run (exit 2)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ build
BASEFLAGS = ["-std=c++14", "-g1", "-O1", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero", "-fno-sanitize-recover=all"]


def incdir():
    d = os.path.join(CACHE, "include" + ("" if REPO == "/repo" else "-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]))
    os.makedirs(d, exist_ok=True)
    link = os.path.join(d, "envire")
    want = os.path.join(REPO, "src")
    try:
        if os.path.islink(link) and os.readlink(link) != want:
            os.unlink(link)
        if not os.path.islink(link):
            os.symlink(want, link)
    except FileExistsError:
        pass
    return d


def includes(noshim=False):
    inc = ["-I" + os.path.join(VERIF, "driver"), "-I" + incdir(), "-I" + os.path.join(REPO, "src")]
    if not noshim:
        inc += ["-I" + os.path.join(VERIF, "shim")]
    return inc + ["-I/usr/include/eigen3"]


ALONE = threading.Lock()


def compile_one(src, flags):
    objdir = os.path.join(CACHE, "obj")
    os.makedirs(objdir, exist_ok=True)
    cmd = ["g++"] + flags + includes()
    p = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Broken("preprocessing %s failed:\n%s" % (src, p.stderr.decode(errors="replace")[-3000:]))
    # assert() expands to line numbers: harmless, it only costs cache hits
    h = hashlib.sha256((" ".join(flags) + "\0").encode() + p.stdout).hexdigest()[:24]
    obj = os.path.join(objdir, os.path.basename(src).replace(".cpp", "") + "-" + h + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        q = sh(cmd + ["-c", src, "-o", tmp])
        if q.returncode != 0 and "Killed" in q.stdout:   # out of memory: once more, alone
            with ALONE:
                time.sleep(5)
                q = sh(cmd + ["-c", src, "-o", tmp])
        if q.returncode != 0:
            raise Broken("compiling %s failed:\n%s" % (src, q.stdout[-3000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def build(name, sources, libs=(), sanitize=True, extra=()):
    """compile and link a driver from /repo's current tree; returns the path of the binary"""
    flags = BASEFLAGS + (SAN if sanitize else []) + list(extra)
    srcs = []
    for s in sources:
        if s.startswith("driver/"):
            srcs.append(os.path.join(VERIF, s))
        else:
            got = sorted(glob.glob(os.path.join(REPO, s)))
            if not got:
                raise Broken("no source " + s)
            srcs += got
    t0 = time.time()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda s: compile_one(s, flags), srcs))
    key = hashlib.sha256("\0".join([name] + objs + list(libs) + flags).encode()).hexdigest()[:16]
    exe = os.path.join(CACHE, "exe", name + "-" + key)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        q = sh(["g++"] + flags + objs + list(libs) + ["-o", tmp])
        if q.returncode != 0:
            raise Broken("linking %s failed:\n%s" % (name, q.stdout[-3000:]))
        os.replace(tmp, exe)
    prune()
    return exe


def prune(limit=6 << 30):
    fs = []
    for d in ("obj", "exe"):
        for f in glob.glob(os.path.join(CACHE, d, "*")):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    tot = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s


# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self):
        base = os.path.join(CACHE, "run")
        os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(dir=base)
        self.n = 0

    def path(self, suffix):
        self.n += 1
        return os.path.join(self.d, "%04d-%s" % (self.n, suffix))

    def dir(self, suffix):
        p = self.path(suffix)
        os.makedirs(p)
        return p

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ TLC
def tlc(scr, module, cfg, env=None, args=(), workers=1, timeout=800, heap="2g", extra_dir=None):
    """run TLC on spec/<module>.tla with the text of a cfg; returns (returncode, output)"""
    d = scr.dir("tlc-" + module)
    for f in glob.glob(os.path.join(VERIF, "spec", "*.tla")):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    if extra_dir:
        for f in glob.glob(os.path.join(extra_dir, "*.tla")):
            shutil.copy(f, d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    cp = TLA_JAR
    extra = os.environ.get("TLA_EXTRA_CP") or _community()
    if extra:
        cp += ":" + extra
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", cp, "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-config", module + ".cfg",
           "-noGenerateSpecTE", "-nowarning"] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        return 124, o
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return p.returncode, p.stdout


_cm = None


def _community():
    global _cm
    if _cm is None:
        c = glob.glob("/opt/veriftools/tla/*ommunity*.jar") + glob.glob("/opt/veriftools/tla/**/*ommunity*.jar", recursive=True)
        _cm = c[0] if c else ""
    return _cm


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", ""))
    m2 = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct", out)
    if m2:
        a, b = m2[-1]
        return int(a.replace(",", "")), int(b.replace(",", ""))
    m3 = re.findall(r"(\d[\d,]*) states checked", out)
    if m3:
        return int(m3[-1].replace(",", "")), int(m3[-1].replace(",", ""))
    return 0, 0


def pmap(f, xs, jobs=JOBS):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, xs))


# ------------------------------------------------------------------ running a driver
SANENV = {"ASAN_OPTIONS": "abort_on_error=0:detect_leaks=1:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=2500",
          "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=98", "LSAN_OPTIONS": "exitcode=97"}


def run_driver(exe, args, timeout=300, leaks=True):
    e = dict(os.environ)
    e.update(SANENV)
    if not leaks:
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
    try:
        p = subprocess.run([exe] + list(args), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stderr.decode(errors="replace")[-6000:]
    except subprocess.TimeoutExpired:
        return 124, "driver did not finish within %d s" % timeout
