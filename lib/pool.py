"""Work shared among forked processes. A process that is brought down by the code under test is
reported with the case it was at, and the rest of its work goes on in a new one."""
import mmap
import multiprocessing
import os
import pickle
import select
import signal
import struct
import time

import vf

SIGS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


class Progress:
    def __init__(self):
        self.m = mmap.mmap(-1, 4096)

    def set(self, item, key):
        b = str(key).encode()[:4000]
        self.m[:12 + len(b)] = struct.pack("<qi", item, len(b)) + b

    def get(self):
        i, n = struct.unpack("<qi", self.m[:12])
        return i, self.m[12:12 + n].decode("utf8", "replace")


def run(n_items, work, n_proc=8, hang=300, tick=lambda key: None):
    """work(item, at) yields picklable results; `at(key)` notes the case about to run. Yields the results
    and ("crash", key, what) for processes brought down."""
    counter = multiprocessing.Value("q", 0)  # the next item
    live = {}

    def take():
        with counter.get_lock():
            counter.value += 1
            return counter.value - 1

    def start(k):
        r, w = os.pipe()
        prog = Progress()
        prog.set(-1, "start")
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for rr in list(live):
                os.close(rr)
            f = os.fdopen(w, "wb")
            code = 0
            vf.limit_memory(6 << 30)
            try:
                while (item := take()) < n_items:
                    prog.set(item, f"item {item}")
                    for res in work(item, lambda key: prog.set(item, key)):
                        pickle.dump(("r", res), f)
                    f.flush()
            except BaseException as e:  # noqa: BLE001
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
                pickle.dump(("error", prog.get()[1], f"{type(e).__name__}: {e} at {where}"), f)
                code = 1
            f.flush()
            os._exit(code)
        os.close(w)
        live[r] = dict(k=k, pid=pid, prog=prog, buf=b"", last=time.time(), seen=None)

    for k in range(min(n_proc, n_items)):
        start(k)
    while live:
        ready, _, _ = select.select(list(live), [], [], 5)
        for r in list(live):
            s = live[r]
            now = s["prog"].get()
            if now != s["seen"]:
                s["seen"], s["last"] = now, time.time()
                tick(now[1])
            hung = time.time() - s["last"] > hang
            if r not in ready and not hung:
                continue
            if hung:
                os.kill(s["pid"], signal.SIGKILL)
            data = os.read(r, 1 << 20) if not hung else b""
            s["buf"] += data
            if data:
                # unpickle what is complete
                import io
                b = io.BytesIO(s["buf"])
                pos = 0
                while True:
                    try:
                        m = pickle.load(b)
                    except (EOFError, pickle.UnpicklingError, IndexError, ValueError, AttributeError, KeyError):
                        break
                    pos = b.tell()
                    if m[0] == "r":
                        yield m[1]
                    else:
                        yield ("crash", m[1], m[2])
                s["buf"] = s["buf"][pos:]
                continue
            os.close(r)
            del live[r]
            _, st = os.waitpid(s["pid"], 0)
            k = s["k"]
            if os.WIFSIGNALED(st):
                key = s["prog"].get()[1]
                sig = os.WTERMSIG(st)
                if hung:
                    yield ("crash", key, "the code under test does not come back")
                elif sig in SIGS:
                    yield ("crash", key, f"the code under test brings the process down ({signal.Signals(sig).name})")
                else:
                    raise RuntimeError(f"worker ended by signal {sig}")
            elif os.WEXITSTATUS(st) == 0:
                continue
            if counter.value < n_items:
                start(k)
