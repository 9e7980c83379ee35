"""A controlled scheduler for real threads running the real code.

One thread runs at a time. Before each line (or bytecode) of the package under test, and before each key
derivation and random draw, the running thread asks the exploration whether to go on or to hand over.
"""
import sys
import threading
import time
import _thread

from . import env

_allocate = _thread.allocate_lock
STALL = 2.0      # seconds without progress before the running thread counts as blocked on something unknown


class Stop(BaseException):
    pass


class Sched:
    def __init__(self, x, bodies, opcodes=False, repeat=2, first=None):
        self.x, self.opcodes, self.repeat, self.first = x, opcodes, repeat, first
        self.bodies = bodies
        self.n = len(bodies)
        self.gates = [_allocate() for _ in bodies]
        for g in self.gates:
            g.acquire()
        self.done = [False] * self.n
        self.results = [None] * self.n
        self.current = None
        self.error = None
        self.ids = {}
        self.progress = 0
        self.finished = _allocate()
        self.finished.acquire()
        self.root = env.REPO.rstrip("/") + "/bip38"
        self.log = []

    # -- called by the threads
    def point(self, where):
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        self.progress += 1
        if self.error is not None:
            raise Stop()
        others = [i for i in range(self.n) if i != me and not self.done[i]]
        if not others:
            return
        try:
            to = self.x.pick(where, [me] + others)
        except BaseException as e:  # noqa: BLE001
            self.error = e
            raise Stop()
        if to != me:
            self.hand_over(me, to, where)

    def blocked(self):
        """The running thread cannot get a lock: somebody else must run."""
        me = self.ids.get(_thread.get_ident())
        if me is None:
            time.sleep(0.001)
            return
        others = [i for i in range(self.n) if i != me and not self.done[i]]
        if not others:
            self.error = self.error or RuntimeError("deadlock")
            raise Stop()
        self.hand_over(me, others[0], "blocked")

    def hand_over(self, me, to, where):
        self.current = to
        self.log.append((me, to, where))
        self.gates[to].release()
        self.gates[me].acquire()
        if self.error is not None:
            raise Stop()

    def run(self):
        order = self.x.pick("first thread", self.first or list(range(self.n)), free=True)
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        hook = env.tap
        env.tap = lambda kind: self.point(kind)
        try:
            for t in threads:
                t.start()
            while len(self.ids) < self.n:
                time.sleep(0)
            self.current = order
            self.gates[order].release()
            last, seen = time.time(), -1
            while not self.finished.acquire(timeout=0.25):
                if self.progress != seen:
                    last, seen = time.time(), self.progress
                elif time.time() - last > STALL:
                    last = time.time()
                    for i in range(self.n):  # blocked on a lock that is not ours: let a waiting thread go on
                        if i != self.current and not self.done[i]:
                            self.current = i
                            try:
                                self.gates[i].release()
                            except RuntimeError:
                                pass
                            break
        finally:
            env.tap = hook
        if self.error is not None:
            raise self.error
        return self.results

    def body(self, i):
        self.ids[_thread.get_ident()] = i
        self.gates[i].acquire()
        try:
            if self.error is None:
                sys.settrace(self.trace)
                try:
                    self.results[i] = ("value", self.bodies[i]())
                finally:
                    sys.settrace(None)
        except Stop:
            pass
        except Exception as e:  # noqa: BLE001 - an observation
            self.results[i] = ("raise", type(e).__name__, str(e))
        finally:
            self.done[i] = True
            self.progress += 1
            rest = [j for j in range(self.n) if not self.done[j]]
            if not rest:
                self.finished.release()
            else:
                nxt = rest[0]
                if len(rest) > 1 and self.error is None:
                    try:
                        nxt = self.x.pick("next thread", rest)
                    except BaseException as e:  # noqa: BLE001
                        self.error = e
                self.current = nxt
                try:
                    self.gates[nxt].release()
                except RuntimeError:
                    pass

    def trace(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.root):
            return None
        seen = {}
        name = frame.f_code.co_filename[len(self.root) + 1:]
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False

        def local(frame, event, arg):
            if event == "line" or event == "opcode":
                at = frame.f_lasti if event == "opcode" else frame.f_lineno
                c = seen.get(at, 0)
                if c < self.repeat:
                    seen[at] = c + 1
                    self.point("%s:%d%s" % (name, frame.f_lineno, "@%d" % at if event == "opcode" else ""))
            return local
        return local


active = None
nesting = False


class AtLine:
    """A trace function: at one of the lines of the package that are executed, act."""

    def __init__(self, stop, act=None, repeat=1):
        self.stop, self.act, self.repeat, self.count, self.at = stop, act, repeat, 0, None
        self.root = env.REPO.rstrip("/") + "/bip38"

    def __call__(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.root):
            return None
        seen = {}

        def local(frame, event, arg):
            if event == "line" and seen.setdefault(frame.f_lineno, 0) < self.repeat:
                seen[frame.f_lineno] += 1
                self.count += 1
                if self.count - 1 == self.stop:
                    self.at = "%s:%d" % (frame.f_code.co_filename[len(self.root) + 1:], frame.f_lineno)
                    self.act()
            return local
        return local


class CoopLock:
    """threading.Lock for code under the scheduler: who cannot have it lets another thread run."""

    def __init__(self):
        self._lock = _allocate()
        self._owner, self._depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        while not self._lock.acquire(False):
            if not blocking or timeout == 0:
                return False
            if active is None and nesting:  # the one thread there is holds it
                raise RuntimeError("deadlock")
            if active is None:
                return self._lock.acquire(True, timeout)
            active.blocked()
        return True

    def release(self):
        self._lock.release()

    def locked(self):
        return self._lock.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._depth += 1
            return True
        got = CoopLock.acquire(self, blocking, timeout)
        if got:
            self._owner, self._depth = me, 1
        return got

    def release(self):
        self._depth -= 1
        if not self._depth:
            self._owner = None
            self._lock.release()


class Shim:
    """The threading module as the package under test sees it."""
    Lock, RLock = CoopLock, CoopRLock

    def __getattr__(self, name):
        return getattr(threading, name)


def run(x, bodies, **kw):
    global active
    active = Sched(x, bodies, **kw)
    try:
        results = active.run()
        x.observe("schedule", tuple(active.log))
        return results
    finally:
        active = None
