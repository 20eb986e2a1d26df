"""Common machinery of the checks: case accounting, violations, known findings, evidence.

A check creates one `Check`, reports every explored case with `case`, every disagreement with
`fail`, and ends with `finish`, which writes the evidence file, prints the KNOWN-FINDING and
VIOLATION lines and exits 0 or 1.
"""
import fnmatch
import hashlib
import json
import mmap
import os
import pathlib
import signal
import struct
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VF_REPO", "/repo"))
BUILD = VERIF / "build"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
ONLY = os.environ.get("VF_ONLY")  # replay: explore only the case with this key


def limit_memory(extra=4 << 30):
    """The code under test may ask for `extra` bytes more than it has now: a runaway allocation fails instead of taking the machine."""
    if os.environ.get("VF_SAN"):
        return
    import resource

    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (now + extra, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ValueError, OSError):
        pass


def known_findings(pid):
    """Entries of known-findings.txt for a property: (glob on the failure key, text)."""
    out = []
    f = VERIF / "known-findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line.startswith("finding:"):
                continue  # comments and "fixed:" lines suppress nothing
            fields = dict(x.split("=", 1) for x in line.split("::")[0].split()[1:])
            if fields.get("property") == pid:
                out.append((fields["key"], line.split("::", 1)[1].strip()))
    return out


class Check:
    def __init__(self, pid, level, rule, assumptions=(), max_report=int(os.environ.get("VF_REPORT", "10"))):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.by_kind = {}
        self.samples = []
        self.sample_kinds = {}
        self.fails = []
        self.extra = {}
        self.max_report = max_report
        self.exhaustive = True
        self._now = mmap.mmap(-1, 4096)
        self._isolate()
        sys.excepthook = self._uncaught

    CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}
    HANG = 400  # seconds on one case

    def _isolate(self):
        """The check goes on in a child process; this one reports the case at which the code under test
        brings the process down or does not come back."""
        sys.stdout.flush()
        pid = os.fork()
        if not pid:
            return
        seen, since = None, time.time()
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(0.02 if time.time() - self.t0 < 2 else 0.2)
            now = bytes(self._now)
            if now != seen:
                seen, since = now, time.time()
            elif time.time() - since > self.HANG:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                st = None
                break
        if st is not None and os.WIFEXITED(st):
            os._exit(os.WEXITSTATUS(st))
        sig = None if st is None else os.WTERMSIG(st)
        if sig is not None and sig not in self.CRASHES:
            print(f"ERROR: {self.pid}: ended by signal {sig}")
            sys.stdout.flush()
            os._exit(3)
        n, ln = struct.unpack("<qi", self._now[:12])
        key = self._now[12:12 + ln].decode("utf8", "replace")
        self.evals = max(n, 1)
        self.distinct.add(key)
        self.fail(key or "start", "the code under test does not come back" if sig is None else
                  f"the code under test brings the process down ({signal.Signals(sig).name})")
        try:
            self.finish()
        except SystemExit as x:
            sys.stdout.flush()
            os._exit(x.code)

    def at(self, key):
        """Notes the case about to run (reported if it crashes)."""
        b = str(key).encode()[:4000]
        self._now[:12 + len(b)] = struct.pack("<qi", self.evals, len(b)) + b

    def _uncaught(self, et, e, tb):
        """An exception of the code under test that no case guards: a failure, not an error of the check."""
        traceback.print_exception(et, e, tb)
        where = "".join(traceback.format_tb(tb)[-1:]).strip().split("\n")[0]
        self.fail("uncaught", f"{et.__name__}: {e} at {where}")
        self.evals = max(self.evals, 1)
        try:
            self.finish()
        except SystemExit as x:
            sys.stdout.flush()
            os._exit(x.code if x.code in (0, 1) else 1)

    # -- accounting -----------------------------------------------------------------
    def want(self, key):
        return ONLY is None or ONLY == key

    def case(self, kind, key, nontrivial=True, sample=None):
        self.evals += 1
        self.at(key)
        self.by_kind[kind] = self.by_kind.get(kind, 0) + 1
        if nontrivial:
            self.distinct.add(hashlib.blake2b(f"{kind}|{key}".encode(), digest_size=8).digest())
        if self.sample_kinds.get(kind, 0) < 2 and len(self.samples) < 40 and nontrivial:
            self.sample_kinds[kind] = self.sample_kinds.get(kind, 0) + 1
            self.samples.append(f"{kind}: {sample if sample is not None else key}"[:400])

    def add_counts(self, kind, n, distinct, samples=()):
        """Counts measured by a native harness."""
        self.evals += n
        self.by_kind[kind] = self.by_kind.get(kind, 0) + n
        self.extra_distinct = getattr(self, "extra_distinct", 0) + distinct
        for s in list(samples)[:3]:
            if len(self.samples) < 40:
                self.samples.append(f"{kind}: {s}"[:400])

    # -- verdicts -------------------------------------------------------------------
    def fail(self, key, msg, data=None):
        self.fails.append((str(key), str(msg), data))
        if os.environ.get("VF_FAST"):  # development: stop at the first failure
            print(f"VIOLATION property={self.pid} replay= key={key} :: {msg}", flush=True)
            os._exit(1)

    def check(self, cond, key, msg, data=None):
        if not cond:
            self.fail(key, msg, data)
        return bool(cond)

    def guard(self, key, fn, *a, **k):
        """Runs fn; an exception is a failure of the case. Returns (ok, value)."""
        try:
            return True, fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"
            self.fail(key, f"unexpected {type(e).__name__}: {e} in {where}")
            return False, None

    def finish(self):
        known = known_findings(self.pid)
        hit, bad, seen = {}, [], set()
        for key, msg, data in self.fails:
            for pat, text in known:
                if fnmatch.fnmatchcase(key, pat):
                    hit[pat] = text
                    break
            else:
                if key not in seen:
                    seen.add(key)
                    bad.append((key, msg, data))
        cov = {"samples": self.samples[:40], "cases_by_kind": self.by_kind}
        n = self.evals
        d = len(self.distinct) + getattr(self, "extra_distinct", 0)
        if self.level == "model_checking":
            cov.update(self.extra)
        else:
            cov.update(evaluations=n, distinct_nontrivial=d, rule=self.rule, exhaustive=self.exhaustive)
            cov.update(self.extra)
        cov["rule"] = self.rule
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(bad))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str))
        for pat, text in hit.items():
            print(f"KNOWN-FINDING: property={self.pid} {text}")
        if n == 0 and ONLY is None:
            print(f"ERROR: {self.pid}: nothing explored")
            sys.exit(3)
        if bad:
            rdir = VERIF / "replays"
            rdir.mkdir(exist_ok=True)
            for i, (key, msg, data) in enumerate(bad[: self.max_report]):
                r = rdir / f"{self.pid}-{i}.json"
                r.write_text(json.dumps(dict(
                    property=self.pid, key=key, what=msg, data=data,
                    replay=f"cd /verif && VF_ONLY={json.dumps(key)} ./run {self.pid}"), indent=1, default=str))
                print(f"VIOLATION property={self.pid} replay={r} key={key} :: {msg}"[:1500])
            if len(bad) > self.max_report:
                print(f"... and {len(bad) - self.max_report} more failing cases")
            sys.exit(1)
        print(f"OK {self.pid}: {n} cases, {d} distinct non-trivial, {time.time() - self.t0:.1f} s"
              + (f" {self.extra.get('states', '')}" if self.level == "model_checking" else ""))
        sys.exit(0)


def fresh_dir(path):
    """An empty directory under /verif/build."""
    import shutil
    p = pathlib.Path(path).resolve()
    assert str(p).startswith(str(BUILD) + "/"), p
    if p.exists():
        shutil.rmtree(p)
    p.mkdir(parents=True)
    return p
