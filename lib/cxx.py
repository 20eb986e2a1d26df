"""Builds a native harness (/verif/cpp/<name>.cpp) with the sources of the library in the tree under test and
runs it in shards. A case that brings the process down, or never ends, is a violation; the shard goes on after it."""
import concurrent.futures as cf
import hashlib
import mmap
import os
import pathlib
import struct
import subprocess
import sys
import threading
import time

import vf

CPP = vf.REPO / "cpp"
SRC = vf.VERIF / "cpp"
STD = ["-std=gnu++20"]
# the library is compiled with its assertions: one that fails on a valid input is a violation
FLAGS = STD + ["-O1", "-w", "-fno-math-errno", "-D_GLIBCXX_ASSERTIONS", f"-I{vf.VERIF}/lib", f"-I{CPP}/include"]
SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if vf.THOROUGH else []
MAX_CRASHES = 6
HANG = 300 if not vf.THOROUGH else 1500


def _digest(paths, extra):
    h = hashlib.blake2b(digest_size=16)
    for p in sorted(paths):
        h.update(str(p).encode())
        h.update(p.read_bytes())
    h.update(repr(extra).encode())
    return h.hexdigest()


def _gxx(args):
    r = subprocess.run(["g++"] + args, capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr


def build(name, skip=()):
    """Returns (path of the executable, None) or (None, errors)."""
    headers = list((CPP / "include").rglob("*.hpp")) + list((vf.VERIF / "lib/algoim").glob("*.hpp"))
    flags = FLAGS + SAN
    hd = _digest(headers, flags)
    odir = vf.BUILD / "cxx"
    odir.mkdir(parents=True, exist_ok=True)
    units = [s for s in sorted((CPP / "qugar").glob("*.cpp")) if s.stem not in skip] + [SRC / f"{name}.cpp"]
    jobs, objs = [], []
    for u in units:
        extra = [hd] + ([_digest(list(SRC.glob("*.hpp")), "")] if u.parent == SRC else [])
        o = odir / f"{u.stem}-{_digest([u], extra)}.o"
        objs.append(str(o))
        if not o.exists():
            jobs.append((u, o))
    jobs.sort(key=lambda j: -j[0].stat().st_size)

    def one(j):
        tmp = j[1].with_suffix(f".{os.getpid()}.tmp.o")
        e = _gxx(flags + ["-c", str(j[0]), "-o", str(tmp)])
        if e is None:
            tmp.replace(j[1])
        return e

    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        return None, errs[0]
    exe = odir / f"{name}-{hashlib.blake2b(''.join(objs).encode(), digest_size=12).hexdigest()}"
    if not exe.exists():
        tmp = exe.with_suffix(f".{os.getpid()}.tmp")
        e = _gxx(flags + objs + ["-o", str(tmp)])
        if e:
            return None, e
        tmp.replace(exe)
    # keep the cache small
    old = sorted(odir.iterdir(), key=lambda f: f.stat().st_mtime)
    for f in old[:-400]:
        f.unlink(missing_ok=True)
    return exe, None


def run(chk, name, shards=None):
    exe, err = build(name)
    if err:
        print(err[:3000])
        print(f"ERROR: {chk.pid}: the harness does not compile")
        sys.stdout.flush()
        os._exit(3)
    chk.extra["build_s"] = round(time.time() - chk.t0, 1)
    n = 1 if vf.ONLY else (shards or os.cpu_count())
    lock = threading.Lock()
    kinds, samples = {}, {}

    def shard(k):
        start, crashes = -1, 0
        while True:
            shm = vf.BUILD / f"shm-{name}-{os.getpid()}-{k}"
            shm.write_bytes(bytes(4096))
            args = [str(exe), "--shm", str(shm), "--shard", str(k), "--of", str(n), "--from", str(start), "--tier", vf.TIER]
            if vf.ONLY:
                args += ["--only", vf.ONLY]
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
                       UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
            errf = open(str(shm) + ".err", "w+b")
            p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=errf, env=env)
            lines, hung = [], []

            def reader(p=p, lines=lines):
                for ln in p.stdout:
                    lines.append(ln.decode("utf8", "replace").rstrip("\n"))

            t = threading.Thread(target=reader)
            t.start()
            with open(shm, "r+b") as f:
                m = mmap.mmap(f.fileno(), 4096)
            last, since = None, time.time()
            while p.poll() is None:
                time.sleep(0.02)
                now = bytes(m[:8])
                if now != last:
                    last, since = now, time.time()
                    with lock:
                        chk.evals += 0
                        chk.at(f"{k}:{struct.unpack('<q', now)[0]}")
                elif time.time() - since > HANG:
                    p.kill()
                    hung.append(1)
                    break
            p.wait()
            t.join()
            i, ln = struct.unpack("<qq", m[:16])
            key = m[16:16 + ln].decode("utf8", "replace")
            shm.unlink()
            errf.seek(0)
            etxt = errf.read().decode("utf8", "replace")
            errf.close()
            pathlib.Path(str(shm) + ".err").unlink()
            left = None
            with lock:
                done = False
                for line in lines:
                    x = line.split("\t")
                    if x[0] == "FAIL":
                        chk.fail(x[1], x[2])
                    elif x[0] == "KIND":
                        c = kinds.setdefault(x[1], [0, 0])
                        c[0] += int(x[2])
                        c[1] += int(x[3])
                    elif x[0] == "SAMPLE":
                        samples.setdefault(x[1], []).append(x[2])
                    elif x[0] == "LEFT":
                        left = int(x[1])
                    elif x[0] == "DONE":
                        done = True
                if not done:
                    sig = -p.returncode if p.returncode < 0 else p.returncode
                    why = [s for s in etxt.splitlines() if "ssert" in s or "ERROR: " in s or "runtime error" in s]
                    chk.fail(key or "start", "the code under test does not come back" if hung else
                             f"the code under test brings the process down (signal {sig}) {why[0][-300:] if why else etxt[-200:]}")
                    c = kinds.setdefault("crash", [0, 0])
                    c[0] += 1
                    left = i
            if left is None or vf.ONLY:
                return
            start = left
            crashes += 1
            if crashes >= MAX_CRASHES:
                chk.exhaustive = False
                return

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(shard, range(n)))
    for k, (c, d) in kinds.items():
        chk.add_counts(k, c, d, samples.get(k, []))
    chk.finish()
