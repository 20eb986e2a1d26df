"""Builds qugar.cpp, the native module, from the library and the wrappers of the tree under test, with stand-ins of nanobind and
algoim, and imports it. Everything else of qugar is its real Python code."""
import concurrent.futures as cf
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import subprocess
import sys
import sysconfig

import numpy

import vf
from cxx import CPP, FLAGS, _digest, _gxx

WRAP = vf.REPO / "python/nanobind_wrappers"


def _version():
    """qugar/version.hpp, that CMake would generate."""
    txt = (CPP / "include/qugar/version.hpp.in").read_text()
    txt = re.sub(r"@qugar_VERSION(_[A-Z]+)?@", lambda m: "1" if m.group(1) else "1.1.1", txt)
    txt = re.sub(r"@[A-Za-z_]+@", "unknown", txt)
    g = vf.BUILD / ("gen/" + hashlib.blake2b(txt.encode(), digest_size=8).hexdigest() + "/qugar")
    f = g / "version.hpp"
    if not f.exists():
        g.mkdir(parents=True, exist_ok=True)
        tmp = g / f"version.{os.getpid()}.tmp"
        tmp.write_text(txt)
        tmp.replace(f)
    return g.parent


def build(san=False, extra=()):
    """Returns (path of the module, None) or (None, errors)."""
    headers = (list((CPP / "include").rglob("*.hpp")) + list((vf.VERIF / "lib/algoim").glob("*.hpp"))
               + list((vf.VERIF / "lib/nanobind").rglob("*.h")) + list(WRAP.glob("*.hpp")))
    flags = FLAGS + ["-fPIC", "-fvisibility=hidden", *extra] + (
        ["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fsanitize-address-use-after-scope"] if san else [])
    inc = [f"-I{sysconfig.get_paths()['include']}", f"-I{numpy.get_include()}", f"-I{_version()}"]
    hd = _digest(headers, flags + inc)
    odir = vf.BUILD / "cxx"
    odir.mkdir(parents=True, exist_ok=True)
    jobs, objs = [], []
    for u in sorted((CPP / "qugar").glob("*.cpp")) + sorted(WRAP.glob("*.cpp")):
        wrapper = u.parent == WRAP
        o = odir / f"{'py' if wrapper else 'pic'}-{u.stem}-{_digest([u], [hd])}.o"
        objs.append(str(o))
        if not o.exists():
            jobs.append((u, o, inc + (["-DNB_STAND_IN_MODULE"] if re.search(r"\bNB_MODULE\b", u.read_text()) else []) if wrapper else []))
    jobs.sort(key=lambda j: -j[0].stat().st_size)

    def one(j):
        tmp = j[1].with_suffix(f".{os.getpid()}.tmp.o")
        e = _gxx(flags + j[2] + ["-c", str(j[0]), "-o", str(tmp)])
        if e is None:
            tmp.replace(j[1])
        return e

    with cf.ThreadPoolExecutor(os.cpu_count()) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        return None, errs[0]
    so = odir / f"cpp-{hashlib.blake2b(''.join(objs).encode(), digest_size=12).hexdigest()}.so"
    if not so.exists():
        tmp = so.with_suffix(f".{os.getpid()}.tmp")
        e = _gxx(flags + ["-shared"] + objs + ["-o", str(tmp)])
        if e:
            return None, e
        tmp.replace(so)
    return so, None


def sanitized():
    """Starts this very process again with the sanitizers' libraries preloaded; True once they are."""
    if "VF_SAN" not in os.environ:
        libs = [subprocess.run(["g++", f"-print-file-name=lib{n}.so"], capture_output=True, text=True).stdout.strip()
                for n in ("asan", "ubsan", "stdc++")]
        if not all(os.path.isabs(p) for p in libs):
            return False
        os.environ.update(VF_SAN="1", LD_PRELOAD=":".join(libs), ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", PYTHONMALLOC="malloc",
                          UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1")
        os.execv(sys.executable, [sys.executable, *sys.orig_argv[1:]])
    os.environ.pop("LD_PRELOAD", None)  # not for the compilers and commands started from here
    return True


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, path, hook):
        self.path, self.hook = path, hook

    def find_spec(self, name, path=None, target=None):
        if name != "qugar.cpp":
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, str(self.path))
        spec = importlib.util.spec_from_file_location(name, str(self.path), loader=loader)
        hook, run = self.hook, loader.exec_module

        def exec_module(m):
            run(m)
            hook(m)
        loader.exec_module = exec_module
        return spec


def load(path, hook=lambda m: None):
    """`import qugar.cpp` gives the module from now on; hook(module) runs before anything of qugar uses it."""
    sys.meta_path.insert(0, _Finder(path, hook))
