"""A cooperative scheduler for real threads: exactly one simulated thread runs at a time, and the
seeded choice list decides who runs next at every yield point (vector field evaluations, meter
output, lock acquisitions)."""
from __future__ import annotations
import sys, threading

HANG_S = 60.0


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, choices=()):
        self.choices = list(choices)
        self.trace = []              # (thread, where) at every switch
        self.ids = {}
        self.main = threading.Semaphore(0)
        self.state = []              # ready / running / blocked / done
        self.sems = []
        self.blocked_on = []

    # -- called from simulated threads
    def me(self):
        return self.ids.get(threading.get_ident())

    def yield_point(self, where=""):
        i = self.me()
        if i is None:
            return
        self.trace.append((i, where))
        self.state[i] = "ready"
        self._switch(i)

    def block(self, lock):
        i = self.me()
        self.state[i] = "blocked"
        self.blocked_on[i] = lock
        self._switch(i)

    def wake(self, lock):
        for j, l in enumerate(self.blocked_on):
            if l is lock:
                self.blocked_on[j] = None
                self.state[j] = "ready"

    def _switch(self, i):
        self.main.release()
        self.sems[i].acquire()

    # -- called from the main thread
    def run(self, fns):
        n = len(fns)
        self.state, self.blocked_on = ["ready"] * n, [None] * n
        self.sems = [threading.Semaphore(0) for _ in fns]
        results = [None] * n

        def body(i):
            self.ids[threading.get_ident()] = i
            self.sems[i].acquire()
            try:
                results[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa: BLE001
                results[i] = ("error", e)
            self.state[i] = "done"
            self.main.release()
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        k = 0
        while any(s != "done" for s in self.state):
            ready = [i for i, s in enumerate(self.state) if s == "ready"]
            if not ready:
                raise Deadlock(f"no thread can run: {self.state}")
            c = self.choices[k] if k < len(self.choices) else 0
            k += 1
            i = ready[c % len(ready)]
            self.state[i] = "running"
            self.sems[i].release()
            if not self.main.acquire(timeout=HANG_S):
                raise Deadlock(f"thread {i} does not come back")
        for t in threads:
            t.join(5)
        return results


class SimLock:
    """Stands in for threading.Lock; blocking is decided by the scheduler."""
    def __init__(self, env, reentrant=False):
        self.env, self.owner, self.count, self.reentrant = env, None, 0, reentrant
        self.fallback = threading.RLock() if reentrant else threading.Lock()

    def acquire(self, blocking=True, timeout=-1):
        s = self.env.sched
        if s is None or s.me() is None:
            return self.fallback.acquire(blocking, 5.0 if blocking else -1)
        me = s.me()
        s.yield_point("lock")
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        while self.owner is not None:
            if not blocking:
                return False
            s.block(self)
        self.owner, self.count = me, 1
        return True

    def release(self):
        s = self.env.sched
        if s is None or s.me() is None:
            return self.fallback.release()
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            s.wake(self)

    def locked(self): return self.owner is not None
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


def install_locks(env, package="diffrax"):
    """Replaces every lock found in the globals of the package's modules, or in the attributes of
    objects living there."""
    L, R = type(threading.Lock()), type(threading.RLock())
    n = 0
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == package or name.startswith(package + ".")):
            continue
        for k, v in list(vars(mod).items()):
            if isinstance(v, (L, R)):
                setattr(mod, k, SimLock(env, isinstance(v, R))); n += 1
            elif type(v).__module__.startswith(package) and hasattr(v, "__dict__"):
                for a, b in list(vars(v).items()):
                    if isinstance(b, (L, R)):
                        try:
                            setattr(v, a, SimLock(env, isinstance(b, R))); n += 1
                        except Exception:
                            pass
    return n
