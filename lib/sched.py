"""Cooperative scheduler and bounded exhaustive explorer for Python code run in real threads.

Every controlled thread stops at `Sched.point` before each intercepted operation. One execution is
a sequence of decisions; the explorer enumerates all of them within bounds on preemptions and
injected faults (stateless search, re-executing every prefix).
"""
import threading


class Killed(BaseException):
    """The virtual process of the current thread has been killed."""


class Divergence(Exception):
    pass


class Task:
    def __init__(self, name, pid, fn):
        self.name, self.pid, self.fn = name, pid, fn
        self.sem = threading.Semaphore(0)
        self.state = "new"  # new, waiting, running, done
        self.enabled = lambda: True
        self.label = "start"
        self.choices = 1  # number of environment outcomes of the pending operation
        self.outcome = 0
        self.dead = False
        self.result = None
        self.error = None
        self.killable = True
        self.thread = None


class Sched:
    def __init__(self, prefix, max_steps=2000):
        self.tasks = []
        self.main = threading.Semaphore(0)
        self.prefix = prefix
        self.trace = []  # (options, index taken, labels)
        self.local = threading.local()
        self.max_steps = max_steps
        self.log = []
        self.dead_pids = set()
        self.on_step = None
        self.deadlock = False

    def me(self):
        return getattr(self.local, "task", None)

    def spawn(self, name, pid, fn, killable=True, ppid=None):
        t = Task(name, pid, fn)
        t.ppid = ppid
        t.killable = killable

        def body():
            self.local.task = t
            t.sem.acquire()
            try:
                if not t.dead:
                    t.result = fn()
            except Killed:
                t.dead = True
            except BaseException as e:  # noqa: BLE001
                t.error = e
            t.state = "done"
            self.main.release()

        t.thread = threading.Thread(target=body, daemon=True)
        t.state = "waiting"
        t.thread.start()
        self.tasks.append(t)
        return t

    def point(self, label, enabled=None, choices=1):
        """Called by a controlled thread before an operation; returns the chosen outcome."""
        t = self.me()
        if t is None:
            return 0
        if t.dead:
            raise Killed()
        t.label, t.enabled, t.choices = label, enabled or (lambda: True), choices
        t.state = "waiting"
        self.main.release()
        t.sem.acquire()
        if t.dead:
            raise Killed()
        t.state = "running"
        return t.outcome

    def alive(self):
        return [t for t in self.tasks if t.state != "done"]

    def run(self, faults_allowed):
        """Runs one execution; fills self.trace with (options, taken)."""
        cur = None
        steps = 0
        faults = 0
        while True:
            live = self.alive()
            if not live:
                break
            steps += 1
            if steps > self.max_steps:
                raise Divergence("horizon reached")
            en = [t for t in live if t.enabled()]
            if not en:
                self.deadlock = True
                self.abort()
                break
            order = ([cur] if cur in en else []) + [t for t in en if t is not cur]
            opts = []
            for k, t in enumerate(order):
                pre = 1 if (cur in en and t is not cur) else 0
                for o in range(t.choices):
                    opts.append(("run", t, o, pre, 1 if o else 0))
            for t in live:
                if t.killable and t.label != "start":
                    pre = 1 if (cur in en and t is not cur) else 0
                    opts.append(("kill", t, 0, pre, 1))
                    if any(u.ppid == t.pid for u in live):
                        opts.append(("killtree", t, 0, pre, 1))
            i = len(self.trace)
            pick = self.prefix[i] if i < len(self.prefix) else 0
            if pick >= len(opts):
                raise Divergence(f"choice {pick} of {len(opts)} at step {i}")
            desc = [(o[0], o[1].name, o[2], o[3], o[4]) for o in opts]
            self.trace.append((desc, pick))
            kind, t, o, _, f = opts[pick]
            faults += f
            self.log.append(f"{t.name}:{'' if kind == 'run' else kind.upper() + ' before '}{t.label}"
                            + (f"#{o}" if o else ""))
            if kind != "run":
                for u in self.tasks:  # the whole virtual process dies (and maybe its children)
                    if u.state != "done" and (u.pid == t.pid or kind == "killtree" and u.ppid == t.pid):
                        self._kill(u)
                self.dead_pids.add(t.pid)
            else:
                t.outcome = o
                t.sem.release()
                self.main.acquire()
                cur = t
            if self.on_step:
                self.on_step()
        return faults

    def _kill(self, u):
        u.dead = True
        u.sem.release()
        self.main.acquire()
        while u.state != "done":
            u.sem.release()
            self.main.acquire()

    def abort(self):
        for u in self.alive():
            self._kill(u)


class Lock:
    """threading.Lock under the scheduler."""

    def __init__(self, sched_of, reentrant=False):
        self._s, self._owner, self._n, self._re = sched_of, None, 0, reentrant
        self._holder_task = None

    def _free(self):
        if self._holder_task is not None and self._holder_task.dead:
            return True
        return self._n == 0 or (self._re and self._owner is threading.current_thread())

    def acquire(self, blocking=True, timeout=-1):
        s = self._s()
        me = threading.current_thread()
        if s is not None and s.me() is not None:
            t = s.me()
            if blocking and timeout == -1:
                s.point("lock", lambda: self._n == 0 or (self._re and self._owner is me))
            else:
                s.point("trylock")
                if not (self._n == 0 or (self._re and self._owner is me)):
                    return False
            self._holder_task = t
        self._owner = me
        self._n += 1
        return True

    def release(self):
        s = self._s()
        if s is not None and s.me() is not None and s.me().dead:
            return
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._n > 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def explore(execute, preemptions, faults, on_result, limit=None):
    """Depth-first enumeration of all executions within the bounds.

    execute(prefix) -> Sched after a complete run. Returns (executions, decisions, capped).
    """
    stack = [[]]
    n = decisions = 0
    while stack:
        prefix = stack.pop()
        s = execute(prefix)
        n += 1
        on_result(s)
        if limit and n >= limit:
            return n, decisions, True
        taken = [p for _, p in s.trace]
        decisions += len(taken)
        pre = flt = 0
        new = []
        for i, (opts, pick) in enumerate(s.trace):
            if i >= len(prefix):
                for alt in range(len(opts)):
                    if alt == pick:
                        continue
                    if pre + opts[alt][3] <= preemptions and flt + opts[alt][4] <= faults:
                        new.append(taken[:i] + [alt])
            pre += opts[pick][3]
            flt += opts[pick][4]
        stack.extend(reversed(new))
    return n, decisions, False
