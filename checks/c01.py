"""C01: the shim library build is atomic, shared and crash-safe.

The real `ensure_built` runs in several virtual processes (module instances) and threads under a
cooperative scheduler. Every file-system, lock and compiler step is a scheduling point; all
interleavings within a preemption bound, every kill point and every compiler outcome are explored.
"""
import builtins
import fcntl
import importlib.util
import io
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import vf
import sched as S

SRC = vf.REPO / "python/qugar/dolfinx/_shim"
chk = vf.Check(
    "C01", "fault_enumeration",
    "one case = one complete schedule of 2-3 requesters of the real function over a scratch cache "
    "(interleaving x kill point x compiler outcome x initial cache state); non-trivial: distinct "
    "schedule with at least two requesters or one fault",
    ["the compiler is a stand-in with three steps (read sources, create partial output, complete it), "
     "validated by real concurrent builds at the end of the run",
     "sources are not edited while a request is running; process ids are not reused within one history"])

ROOT = pathlib.Path(tempfile.mkdtemp(prefix="c01_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None))
CODE = ROOT / "src" / "_shim"
shutil.copytree(SRC, CODE, ignore=shutil.ignore_patterns("__pycache__"))
CPPS = sorted(CODE.glob("*.cpp"))
real = {}
current = [None]  # the running World


def sched():
    w = current[0]
    return w.s if w else None


class World:
    def __init__(self, cache, init, prefix):
        self.s = S.Sched(prefix)
        self.cache = cache
        self.clock = 1000
        self.fds = {}
        self.compiles = 0
        self.ok_compiles = 0
        self.bad = []
        self.returned = []
        if cache.exists():
            shutil.rmtree(cache)
        if cache.parent != ROOT and cache.parent.exists():
            shutil.rmtree(cache.parent)
        src_t, builder_t = 500, 490
        if init == "stale-builder":
            builder_t = 550
        for p in CPPS:
            os.utime(p, (src_t, src_t))
        os.utime(CODE / "__init__.py", (builder_t, builder_t))
        self.src_t = max(src_t, builder_t)
        if init not in ("absent", "no-dir"):
            cache.mkdir(parents=True)
            t = {"fresh": 600, "same-time": 500, "stale": 400, "stale-builder": 520}[init]
            lib = cache / LIBNAME
            lib.write_text("FULL new" if init in ("fresh", "same-time") else "FULL old")
            os.utime(lib, (t, t))
        elif init == "absent":
            cache.mkdir(parents=True)

    def mine(self, path):
        try:
            return str(os.fspath(path)).startswith(str(self.cache.parent if self.cache.parent != ROOT else self.cache))
        except TypeError:
            return False

    def lib_state(self):
        try:
            f = real["open"](self.cache / LIBNAME)
        except OSError:
            return "absent"
        with f:
            return f.read()


def wrap_path(name, label):
    orig = getattr(os, name)
    real["os." + name] = orig

    def f(path, *a, **k):
        w = current[0]
        if w and w.s.me() and w.s.me().dead:
            raise S.Killed()
        if w and w.s.me() and w.mine(path):
            w.s.point(f"{label} {os.path.basename(os.fspath(path))}")
        return orig(path, *a, **k)
    return f


def w_open(path, *a, **k):
    w = current[0]
    t = w.s.me() if w else None
    if t and not isinstance(path, int) and w.mine(path):
        w.s.point(f"open {os.path.basename(os.fspath(path))}")
        fh = real["open"](path, *a, **k)
        w.fds.setdefault(t.pid, []).append(fh)
        return fh
    return real["open"](path, *a, **k)


def w_osopen(path, *a, **k):
    w = current[0]
    t = w.s.me() if w else None
    if t and w.mine(path):
        w.s.point(f"os.open {os.path.basename(os.fspath(path))}")
        fd = real["os.open"](path, *a, **k)
        w.fds.setdefault(t.pid, []).append(fd)
        return fd
    return real["os.open"](path, *a, **k)


def w_osclose(fd):
    w = current[0]
    t = w.s.me() if w else None
    if t and t.dead:
        return None
    if t:
        for lst in w.fds.values():
            if fd in lst:
                lst.remove(fd)
    return real["os.close"](fd)


def fdno(f):
    return f if isinstance(f, int) else f.fileno()


POSIX = {}  # (inode) -> pid, for lockf


def w_flock(f, op):
    w = current[0]
    if not (w and w.s.me()):
        return real["flock"](f, op)
    n = fdno(f)
    if op & fcntl.LOCK_UN:
        w.s.point("unlock")
        return real["flock"](n, fcntl.LOCK_UN)
    if op & fcntl.LOCK_NB:
        w.s.point("trylock file")
        return real["flock"](n, op)

    def can():
        try:
            real["flock"](n, op | fcntl.LOCK_NB)
        except OSError:
            return False
        return True
    w.s.point("lock file", can)  # acquired by the successful test at selection time
    return real["flock"](n, op | fcntl.LOCK_NB)


def w_lockf(f, op, *a):
    w = current[0]
    if not (w and w.s.me()):
        return real["lockf"](f, op, *a)
    t = w.s.me()
    key = os.fstat(fdno(f)).st_ino
    if op & fcntl.LOCK_UN:
        w.s.point("unlock")
        POSIX.pop(key, None)
        return None

    def can():
        return POSIX.get(key) in (None, t.pid) or POSIX[key] in w.s.dead_pids
    if op & fcntl.LOCK_NB:
        w.s.point("trylock file")
        if not can():
            raise BlockingIOError()
    else:
        w.s.point("lock file", can)
    POSIX[key] = t.pid
    return None


class FakePopen:
    """Compiler stand-in: a process of its own, which survives its parent unless killed with it."""

    def __init__(self, cmd, *a, **k):
        w = current[0]
        if w is None or w.s.me() is None:
            raise RuntimeError("compiler started outside the scheduler")
        self.w, self.args, self.returncode, self.pid = w, cmd, None, None
        self.stdin = self.stdout = self.stderr = None
        argv = [os.fspath(x) for x in cmd]
        w.s.point("start compiler")
        if "-o" in argv:
            self.out = pathlib.Path(argv[argv.index("-o") + 1])
        else:
            outs = [x[2:] for x in argv if x.startswith("-o")]
            self.out = pathlib.Path(outs[0])
        if not self.out.is_absolute():
            self.out = pathlib.Path(k.get("cwd") or os.getcwd()) / self.out
        srcs = [x for x in argv if x.endswith(".cpp")]
        if not srcs or not all(real_exists(x) for x in srcs):
            w.bad.append("the compiler is not given the shim source")
        st = w.lib_state()
        if st == "FULL new" and self.fresh(w):
            w.bad.append("the library is up to date and is compiled again")
        w.compiles += 1
        me = w.s.me()
        self.cc = w.s.spawn(f"cc({me.name})", me.pid * 100 + w.compiles, self.body, killable=False, ppid=me.pid)

    @staticmethod
    def fresh(w):
        try:
            return real["os.stat"](w.cache / LIBNAME).st_mtime >= w.src_t
        except OSError:
            return False

    def write(self, text):
        with real["open"](self.out, "w") as f:
            f.write(text)
        self.w.clock += 1
        os.utime(self.out, (self.w.clock, self.w.clock))

    def body(self):
        w = self.w
        w.s.point("compiler creates output")
        if not self.out.parent.exists():
            self.rc = 1
            return
        try:
            real["os.unlink"](self.out)
        except OSError:
            pass
        self.write("PARTIAL")
        o = w.s.point("compiler ends", choices=3)
        if o == 0:
            self.write("FULL new")
            self.rc = 0
            w.ok_compiles += 1
        elif o == 1:
            try:
                real["os.unlink"](self.out)
            except OSError:
                pass
            self.rc = 1
        else:
            self.rc = -9

    def wait(self, timeout=None):
        if self.returncode is None:
            self.w.s.point("wait compiler", lambda: self.cc.state == "done")
            self.returncode = getattr(self, "rc", -9)
        return self.returncode

    def poll(self):
        self.w.s.point("poll compiler")
        if self.cc.state == "done":
            self.returncode = getattr(self, "rc", -9)
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait()
        return ("", "")

    def kill(self):
        self.cc.dead = True
    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, S.Killed):
            self.wait()


def real_exists(p):
    try:
        real["os.stat"](p)
        return True
    except OSError:
        return False


real["open"] = builtins.open
real["flock"], real["lockf"] = fcntl.flock, fcntl.lockf
real["os.open"], real["os.close"], real["getpid"] = os.open, os.close, os.getpid
patched = {n: wrap_path(n, n) for n in ("stat", "lstat", "unlink", "remove", "rename", "replace", "link",
                                        "symlink", "mkdir", "rmdir", "access", "utime", "truncate")}


def w_getpid():
    w = current[0]
    t = w.s.me() if w else None
    return t.pid if t else real["getpid"]()


class Patch:
    def __enter__(self):
        for n, f in patched.items():
            setattr(os, n, f)
        os.open, os.close, os.getpid = w_osopen, w_osclose, w_getpid
        builtins.open = io.open = w_open
        fcntl.flock, fcntl.lockf = w_flock, w_lockf
        self.popen = subprocess.Popen
        subprocess.Popen = FakePopen
        self.lock = threading.Lock, threading.RLock, threading.Thread
        return self

    def __exit__(self, *a):
        for n in patched:
            setattr(os, n, real["os." + n])
        os.open, os.close, os.getpid = real["os.open"], real["os.close"], real["getpid"]
        builtins.open = io.open = real["open"]
        fcntl.flock, fcntl.lockf = real["flock"], real["lockf"]
        subprocess.Popen = self.popen


_N = [0]


def load():
    """A fresh module instance = a fresh process image; its locks belong to the scheduler."""
    _N[0] += 1
    spec = importlib.util.spec_from_file_location(f"_shim_{_N[0]}", CODE / "__init__.py")
    m = importlib.util.module_from_spec(spec)
    old = threading.Lock, threading.RLock
    threading.Lock = lambda: S.Lock(sched)
    threading.RLock = lambda: S.Lock(sched, True)
    try:
        spec.loader.exec_module(m)
    finally:
        threading.Lock, threading.RLock = old
    return m


try:
    m0 = load()
    LIBNAME = {"darwin": "lib%s.dylib"}.get(sys.platform, "lib%s.so") % m0.LIB_NAME
except Exception as e:  # noqa: BLE001
    chk.case("load", "load")
    chk.fail("load", f"the module does not load: {e!r}")
    chk.finish()
os.environ["CXX"] = "/opt/vp/cxx"
POOL = []


def execute(cfg, init, prefix):
    POSIX.clear()
    cache = ROOT / "c" / "deep" / "cache" if init == "no-dir" else ROOT / "cache"
    w = World(cache, init, prefix)
    os.environ["QUGAR_SHIM_CACHE"] = str(cache)
    s = w.s
    mods = POOL
    for m in mods:  # a fresh process image has unlocked locks
        for v in vars(m).values():
            if isinstance(v, S.Lock):
                v._owner, v._n, v._holder_task = None, 0, None

    def request(m, who):
        def go():
            d, name = m.ensure_built()
            t = s.me()
            t.label = "returned"
            if name != m.LIB_NAME or pathlib.Path(d) != cache:
                w.bad.append(f"{who} got {d}/{name} instead of the cache directory and library name")
            st = w.lib_state()
            if st != "FULL new":
                w.bad.append(f"{who} was handed a library that is {st}")
            w.returned.append(who)
            return True
        return go

    for i, (who, proc) in enumerate(cfg):
        s.spawn(who, proc + 1, request(mods[proc], who))

    def on_step():
        for pid in list(w.fds):
            if pid in s.dead_pids:
                for f in w.fds.pop(pid):
                    try:
                        real["os.close"](f) if isinstance(f, int) else f.close()
                    except OSError:
                        pass
        if w.returned and w.lib_state() != "FULL new":
            w.bad.append(f"the library handed to {w.returned[0]} later became {w.lib_state()}")
    s.on_step = on_step
    current[0] = w
    try:
        s.run(0)
        w.trace_len = len(s.trace)
        if s.deadlock:
            w.bad.append("deadlock: no requester can proceed")
        faulty = any("KILL" in x or "#" in x for x in s.log)
        failed_cc = any("compiler ends#" in x for x in s.log)
        for t in s.tasks:
            if t.error is not None and not (failed_cc and isinstance(t.error, (subprocess.CalledProcessError, RuntimeError, OSError))):
                w.bad.append(f"{t.name} failed with {t.error!r}")
        if failed_cc and not any("KILL" in x for x in s.log):
            # the requester whose compiler failed must learn of it or find a good library
            pass
        if not faulty and w.compiles > 1:
            w.bad.append(f"{w.compiles} compilations for one needed build")
        if not w.bad:
            # a later request by a new process, alone and without faults, must succeed
            n = len(s.trace)
            m = mods[3]
            t = s.spawn("later", 77, request(m, "later"), killable=False)
            s.prefix = s.prefix[:n]
            s.run(0)
            if s.deadlock and t.result is None:
                w.bad.append("a later request blocks for ever")
            elif t.error is not None:
                w.bad.append(f"a later request fails with {t.error!r}")
            del s.trace[n:]
    finally:
        current[0] = None
        for lst in w.fds.values():
            for f in lst:
                try:
                    real["os.close"](f) if isinstance(f, int) else f.close()
                except OSError:
                    pass
    s.w = w
    return s


def run_config(name, cfg, init, pre, faults, limit=60000):
    """Explores one configuration in a process of its own, with its own copy of the sources."""
    global ROOT, CODE, CPPS, POOL
    ROOT = BASE / f"w{os.getpid()}_{abs(hash((name, init))) % 10**9}"
    CODE = ROOT / "src" / "_shim"
    shutil.copytree(SRC, CODE, ignore=shutil.ignore_patterns("__pycache__"))
    CPPS = sorted(CODE.glob("*.cpp"))
    POOL = [load() for _ in range(4)]
    key0 = f"{name}/{init}"
    res = dict(cases=0, keys=set(), samples=[], fails={}, outcomes=set(), error=None)

    def on_result(s):
        w = s.w
        res["cases"] += 1
        res["keys"].add(hash(tuple(p for _, p in s.trace)))
        if len(res["samples"]) < 1 or (len(res["samples"]) < 2 and any("KILL" in x or "#" in x for x in s.log)):
            res["samples"].append(f"{init}: " + " ; ".join(s.log[:24]))
        res["outcomes"].add((init, tuple(sorted(w.returned)), w.compiles, w.ok_compiles))
        if w.bad:
            k = f"{key0}:{w.bad[0]}"
            if k not in res["fails"]:
                # replay the schedule before reporting it
                again = execute(cfg, init, [p for _, p in s.trace])
                if again.w.bad != w.bad:
                    raise S.Divergence("the schedule does not reproduce")
                res["fails"][k] = (w.bad[0], dict(config=name, initial=init, schedule=s.log,
                                                  choices=[p for _, p in s.trace]))
    try:
        with Patch():
            n, d, capped = S.explore(lambda p: execute(cfg, init, p), pre, faults, on_result, limit)
        res["bound"] = dict(config=name, initial=init, preemptions=pre, faults=faults, executions=n,
                            decisions=d, capped=capped)
    except S.Divergence as e:
        res["error"] = f"the explored code is not deterministic under the scheduler: {e}"
    shutil.rmtree(ROOT)
    return name, res


INITS = ["absent", "no-dir", "stale", "stale-builder", "fresh", "same-time"]
two_p = [("P1", 0), ("P2", 1)]
two_t = [("P1.a", 0), ("P1.b", 0)]
mixed = [("P1.a", 0), ("P1.b", 0), ("P2", 1)]
three = [("P1", 0), ("P2", 1), ("P3", 2)]
one = [("P1", 0)]
jobs = []
P2 = 3 if vf.THOROUGH else 2
for init in ("absent", "stale"):
    jobs.append(("three processes", three, init, P2 - 1, 0))
    jobs.append(("two threads and a process", mixed, init, P2 - 1, 0))
    if vf.THOROUGH:
        jobs.append(("three processes+fault", three, init, 1, 1))
        jobs.append(("two processes+2 faults", two_p, init, 1, 2))
for init in ("absent", "stale", "stale-builder"):
    jobs.append(("two processes+fault", two_p, init, P2 - 1, 1))
    jobs.append(("two threads+fault", two_t, init, P2 - 1, 1))
for init in INITS:
    jobs.append(("two processes", two_p, init, P2, 0))
    jobs.append(("two threads", two_t, init, P2, 0))
for init in INITS:
    jobs.append(("one", one, init, 0, 2))

import concurrent.futures as cf  # noqa: E402
import multiprocessing as mp  # noqa: E402

bounds, outcomes = [], set()
BASE = ROOT
with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork"), max_tasks_per_child=None) as ex:
    for name, res in [f.result() for f in [ex.submit(run_config, *j) for j in jobs]]:
        if res["error"]:
            chk.fail("divergence:" + name, res["error"])
        else:
            bounds.append(res["bound"])
            chk.exhaustive &= not res["bound"]["capped"]
        chk.add_counts(name, res["cases"], len(res["keys"]), res["samples"])
        outcomes |= res["outcomes"]
        for k, (msg, data) in res["fails"].items():
            chk.fail(k, msg, data)
ROOT = BASE
CODE = ROOT / "src" / "_shim"

# -- the stand-in compiler against reality: real processes, the real compiler -------------------
DRV = ("import sys, importlib.util as u; s=u.spec_from_file_location('shim', sys.argv[1]); "
       "m=u.module_from_spec(s); s.loader.exec_module(m); d,n=m.ensure_built(); "
       "import ctypes; ctypes.CDLL(str(d/('lib'+n+'.so'))).qugar_registry_size_f64(); print('LOADED')")


def real_env(cache, wrapper):
    e = dict(os.environ, QUGAR_SHIM_CACHE=str(cache), CXX=str(wrapper))
    return e


def real_runs():
    wr = ROOT / "cxxlog"
    log = ROOT / "cc.log"
    wr.write_text(f"#!/bin/sh\necho start >> {log}\n/opt/vp/cxx \"$@\"\nrc=$?\necho end $rc >> {log}\nexit $rc\n")
    wr.chmod(0o755)
    cache = ROOT / "real"
    # 1: three real processes at once
    ps = [subprocess.Popen([sys.executable, "-c", DRV, str(CODE / "__init__.py")], env=real_env(cache, wr),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for _ in range(3)]
    for p in ps:
        out, err = p.communicate(timeout=300)
        chk.case("real", f"concurrent {p.args and ps.index(p)}", True, "3 real processes, real compiler")
        chk.check("LOADED" in out, "real:concurrent", f"a real request did not return a loadable library: {err[-300:]}")
    n = log.read_text().count("start")
    chk.check(n == 1, "real:once", f"{n} real compilations for three concurrent requests")
    # 2: kill the requester and its compiler in the middle of a real-time compilation that has
    #    already created its output
    slow = ROOT / "cxxslow"
    flag = ROOT / "flag"
    slow.write_text("#!/bin/sh\nout=\nfor a in \"$@\"; do [ \"$prev\" = -o ] && out=$a; prev=$a; done\n"
                    f"echo partial > \"$out\"; echo $$ > {flag}; sleep 60\n")
    slow.chmod(0o755)
    cache2 = ROOT / "real2"
    p = subprocess.Popen([sys.executable, "-c", DRV, str(CODE / "__init__.py")], env=real_env(cache2, slow),
                         start_new_session=True, stderr=subprocess.DEVNULL)
    t0 = time.time()
    while not flag.exists() and time.time() - t0 < 60:
        time.sleep(0.02)
    time.sleep(0.05)
    os.killpg(p.pid, signal.SIGKILL)
    p.wait()
    q = subprocess.run([sys.executable, "-c", DRV, str(CODE / "__init__.py")], env=real_env(cache2, wr),
                       capture_output=True, text=True, timeout=300)
    chk.case("real", "kill", True, "real kill -9 of requester and compiler after the output was created")
    chk.check("LOADED" in q.stdout, "real:kill", f"after a crash in the compiler a later request fails: {q.stderr[-300:]}")
    # 3: a compiler that fails is reported
    bad = ROOT / "cxxbad"
    bad.write_text("#!/bin/sh\nexit 3\n")
    bad.chmod(0o755)
    q = subprocess.run([sys.executable, "-c", DRV, str(CODE / "__init__.py")], env=real_env(ROOT / "real3", bad),
                       capture_output=True, text=True, timeout=300)
    chk.case("real", "fail", True, "real failing compiler")
    chk.check(q.returncode != 0 and "LOADED" not in q.stdout and "CalledProcessError" in q.stderr or
              "rror" in q.stderr.splitlines()[-1] and "CDLL" not in q.stderr and "OSError: " + str(ROOT / "real3") not in q.stderr,
              "real:fail", "a failing compiler is not reported to the requester")
    # 4: an up-to-date library is not rebuilt
    log.write_text("")
    q = subprocess.run([sys.executable, "-c", DRV, str(CODE / "__init__.py")], env=real_env(cache, wr),
                       capture_output=True, text=True, timeout=300)
    chk.case("real", "again", True, "second request, nothing to do")
    chk.check("LOADED" in q.stdout and log.read_text() == "", "real:again", "an up-to-date library was recompiled")


try:
    real_runs()
except Exception as e:  # noqa: BLE001
    chk.fail("real:error", repr(e))
chk.extra["bounds"] = bounds
chk.extra["distinct_outcomes"] = len(outcomes)
chk.extra["model_trace_validation"] = "4 histories replayed with real processes and the real compiler"
shutil.rmtree(ROOT)
chk.finish()
