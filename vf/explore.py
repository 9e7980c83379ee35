"""Stateless exploration of the real code: every execution is a list of choices, all of them within
the deviation bound are run, and each one is judged against the reference model as it goes.

A harness is a function of one argument x. x.pick(name, options) is a choice point: option 0 is the
default, any other costs one deviation unless the point is free (free points multiply fully).
"""
import hashlib
import mmap
import multiprocessing
import os
import pickle
import queue
import re
import signal
import time
import traceback

from . import env

NPROC = int(os.environ.get("VF_PROCS", "0")) or max(1, min(8, os.cpu_count() or 1))
EXEC_LIMIT = 120     # seconds for one execution; none legitimately takes a tenth of it
STATE_CAP = 4_000_000
SLICE = 1.0          # seconds a worker keeps a task before it shares out the rest of it


class Violation(Exception):
    pass


class Divergence(Exception):
    """A replayed prefix met other choice points than before: the harness does not own all choices."""


class Hang(BaseException):
    pass


class Outcome:
    __slots__ = ("value", "error")

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error

    def __repr__(self):
        return "raised %s(%s)" % (type(self.error).__name__, self.error) if self.error is not None else repr(self.value)

    def key(self):
        """What is observable of it."""
        return ("raise", type(self.error).__name__) if self.error is not None else ("value", plain(self.value))


def plain(v):
    """repr without the addresses of objects"""
    s = repr(v)
    return re.sub(r" at 0x[0-9a-f]+", "", s) if " at 0x" in s else s


def short(v, n=400):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + "...(%d)" % len(s)


class X:
    """One execution."""

    def __init__(self, check, prefix=(), sig=()):
        self.check, self.prefix, self.sig = check, prefix, sig
        self.choices, self.points, self.calls, self.states, self.outcomes = [], [], [], [], []
        self.known_hits = []
        self.digest = b""

    # -- choices
    def pick(self, name, options, free=False):
        i, n = len(self.choices), len(options)
        if n == 0:
            raise Divergence("no option at %s" % name)
        c = 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n or (i < len(self.sig) and self.sig[i] != (name, n)):
                raise Divergence("choice point %d was %r, now %r" % (i, self.sig[i] if i < len(self.sig) else None, (name, n)))
        self.choices.append(c)
        self.points.append((name, n, free))
        return options[c]

    # -- the code under test
    def call(self, name, fn, *args, **kw):
        try:
            out = Outcome(fn(*args, **kw))
        except (Violation, Divergence, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001 - any exception is an observation
            out = Outcome(error=e)
        self.note(name, args, kw, out, getattr(fn, "__self__", None))
        return out

    def note(self, name, args, kw, out, on=None):
        if on is not None and hasattr(on, "cryptocurrency") and hasattr(on, "network"):
            name = "%s[%s %s]" % (name, getattr(on.cryptocurrency, "__name__", on.cryptocurrency), on.network)
        self.calls.append((name, args, kw, out))
        # a state is what the environment was made to answer and the calls made under it, with their outcomes
        key = plain((name, args, sorted(kw.items()), out.key(), sorted(env.script.items()) if env.script else "")).encode("utf-8", "surrogatepass")
        self.digest = hashlib.blake2b(self.digest + key, digest_size=8).digest()
        self.states.append(self.digest)
        self.outcomes.append(hashlib.blake2b(repr((name, out.key())).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def observe(self, *what):
        """A state reached without an API call of its own (e.g. one schedule of several threads)."""
        self.note("observe", what, {}, Outcome(None))

    # -- the oracle
    def fail(self, message):
        raise Violation(message)

    def check_that(self, cond, message):
        if not cond:
            raise Violation(message)

    def same(self, what, got, want):
        if type(got) is not type(want) or got != want:
            raise Violation("%s: got %s, the model says %s" % (what, short(got), short(want)))

    def value(self, what, out):
        if out.error is not None:
            raise Violation("%s: raised %s: %s" % (what, type(out.error).__name__, short(str(out.error)))) from out.error
        return out.value

    def gives(self, what, out, want):
        self.same(what, self.value(what, out), want)

    def raises(self, what, out, kinds=None):
        kinds = kinds or env.mod("exceptions").Error
        if out.error is None:
            raise Violation("%s: returned %s instead of an error" % (what, short(out.value)))
        if not isinstance(out.error, kinds):
            names = kinds.__name__ if isinstance(kinds, type) else "/".join(k.__name__ for k in kinds)
            raise Violation("%s: raised %s (%s) instead of %s" % (what, type(out.error).__name__, short(str(out.error)), names))

    def known(self, key, message):
        """A failure listed in known-findings.txt; anything unlisted is a violation."""
        if key not in self.check.known:
            raise Violation(message)
        self.known_hits.append((key, message))


class Harness:
    def __init__(self, name, fn, bound=0, about="", slow=False):
        self.name, self.fn, self.bound, self.about, self.slow = name, fn, bound, about, slow


def deviations(points, choices):
    return sum(1 for (n, k, free), c in zip(points, choices) if c and not free)


def children(x, bound):
    """Prefixes of the executions next to x: one later choice changed, within the bound."""
    cost = deviations(x.points[:len(x.prefix)], x.choices[:len(x.prefix)])
    for i in range(len(x.prefix), len(x.points)):
        name, n, free = x.points[i]
        if not free and cost + 1 > bound:
            continue
        sig = tuple((p[0], p[1]) for p in x.points[:i + 1])
        for alt in range(1, n):
            yield tuple(x.choices[:i]) + (alt,), sig


class Stats:
    def __init__(self):
        self.executions = self.transitions = self.choice_points = self.max_points = 0
        self.states, self.outcomes = set(), set()
        self.known, self.samples = {}, []

    def add(self, x):
        self.executions += 1
        self.transitions += len(x.calls)
        self.choice_points += len(x.points)
        self.max_points = max(self.max_points, len(x.points))
        if len(self.states) < STATE_CAP:
            self.states.update(x.states)
        self.outcomes.update(x.outcomes)
        for k, m in x.known_hits:
            self.known.setdefault(k, m)
        if len(self.samples) < 2:
            self.samples.append(describe(x))

    def merge(self, o):
        self.executions += o.executions
        self.transitions += o.transitions
        self.choice_points += o.choice_points
        self.max_points = max(self.max_points, o.max_points)
        self.states |= o.states
        self.outcomes |= o.outcomes
        for k, m in o.known.items():
            self.known.setdefault(k, m)
        self.samples = (self.samples + o.samples)[:3]


def describe(x, limit=12):
    return {"choices": ["%s=%d/%d" % (p[0], c, p[1]) for p, c in zip(x.points, x.choices)][:40 if limit < 60 else None],
            "calls": ["%s(%s) -> %s" % (n, short(", ".join([repr(a) for a in args] + ["%s=%r" % i for i in kw.items()]), 300),
                                        short(repr(out), 300)) for n, args, kw, out in x.calls[:limit]]}


def _alarm(signum, frame):
    raise Hang()


def from_the_code(e):
    """Did the package under test raise it?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(env.REPO.rstrip("/") + "/bip38/"):
            return True
        tb = tb.tb_next
    return False


def run_one(check, harness, prefix=(), sig=()):
    """-> (x, message or None)"""
    env.reset()
    x = X(check, prefix, sig)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT)
    try:
        harness.fn(x)
        return x, None
    except Violation as v:
        return x, str(v)
    except Hang:
        return x, "no result within %d s" % EXEC_LIMIT
    except (Divergence, MemoryError):
        raise
    except Exception as e:  # noqa: BLE001
        if not x.calls and not from_the_code(e):
            raise
        # the code was called and what it returned cannot even be read as a result (a missing field, a wrong type)
        return x, "unreadable result: %s: %s [%s]" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class Check:
    """One property's exploration."""

    def __init__(self, prop, tier, seed, known):
        self.prop, self.tier, self.seed, self.known = prop, tier, seed, known
        self.harnesses, self.assumptions, self.extra = [], [], {}
        self.level = "model_checking"
        self.deadline = time.time() + float(os.environ.get("VF_LIMIT", "700" if tier == "quick" else "3000"))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add(self, name, fn, bound=0, about="", slow=False):
        self.harnesses.append(Harness(name, fn, bound, about, slow))

    def by_name(self, name):
        return next(h for h in self.harnesses if h.name == name)


_check = None
_history = []
_slot = None         # where a worker notes what it runs, so that it is known when it dies
SLOT, SLOTS = 1 << 16, 256


def _worker(board, counter):
    global _slot
    with counter.get_lock():
        i = min(counter.value, SLOTS - 1)
        counter.value += 1
    _slot = (board, i * SLOT)


def _running(hi, prefix):
    if _slot is not None:
        b = pickle.dumps((hi, tuple(prefix), os.getpid()))
        if len(b) < SLOT:
            _slot[0][_slot[1]:_slot[1] + len(b)] = b


def _ran(board):
    out = {}
    for i in range(SLOTS):
        try:
            hi, prefix, pid = pickle.loads(board[i * SLOT:(i + 1) * SLOT])
            out[pid] = hi, prefix
        except Exception:  # noqa: BLE001 - nothing noted yet
            pass
    return out


def _task(arg):
    """Run in a worker: a list of subtrees, depth first."""
    hi, roots = arg
    check, st = _check, Stats()
    harness = check.harnesses[hi]
    stack, capped, rest = list(roots), False, []
    give_back = time.time() + SLICE
    while stack:
        now = time.time()
        if now > check.deadline:
            capped = True
            break
        if now > give_back and len(stack) > 1:  # share what is left with the other workers
            rest = stack
            break
        prefix, sig, expand = stack.pop()
        _running(hi, prefix)
        try:
            x, msg = run_one(check, harness, prefix, sig)
        except Exception:  # noqa: BLE001 - an error of the machinery, reported as such
            err = "harness %s, choices %r:\n%s" % (harness.name, prefix, traceback.format_exc())
            return hi, st, None, capped, err, []
        st.add(x)
        _history.append((hi, tuple(x.choices)))
        if msg is not None:
            return hi, st, (tuple(x.choices), msg, describe(x, 60), list(_history[:-1])), capped, None, []
        if expand:
            stack.extend((p, s, True) for p, s in children(x, harness.bound))
    return hi, st, None, capped, None, rest


def explore(check):
    """-> (per-harness Stats, violation or None, capped harness names, machinery error or None)"""
    global _check
    _check = check
    stats = [Stats() for _ in check.harnesses]
    tasks, violation, capped, error = [], None, set(), None
    # the default execution is run here; the subtrees next to it are shared out
    for hi, h in enumerate(check.harnesses):
        got = _forked(check, hi, (), ())
        if isinstance(got, str):
            if got.endswith(" died") and again(check, h.name, ()) == "the process died":
                return stats, dict(harness=h.name, choices=(), message="the process running it died", trace=dict(choices=[], calls=[]), history=[]), capped, None
            return stats, violation, capped, got
        st, bad, todo = got
        stats[hi].merge(st)
        if bad:
            return stats, dict(harness=h.name, choices=bad[0], message=bad[1], trace=bad[2], history=[]), capped, None
        size = max(1, min(32, len(todo) // (NPROC * 16)))
        mine = [(hi, [(p, s, True) for p, s in todo[i:i + size]]) for i in range(0, len(todo), size)]
        tasks = mine + tasks if h.slow else tasks + mine
    if tasks:
        ctx, board = multiprocessing.get_context("fork"), mmap.mmap(-1, SLOTS * SLOT)
        with ctx.Pool(NPROC, _worker, (board, ctx.Value("i", 0))) as pool:
            workers = list(pool._pool)
            done = queue.SimpleQueue()
            running = 0
            for t in tasks:
                pool.apply_async(_task, (t,), callback=done.put, error_callback=done.put)
                running += 1
            while running:
                try:
                    got = done.get(timeout=2)
                except queue.Empty:
                    dead = [w.pid for w in workers if not w.is_alive()]
                    if not dead:
                        continue
                    at = _ran(board)
                    for hi, prefix in (at[p] for p in dead if p in at):
                        msg = again(check, check.harnesses[hi].name, prefix)
                        if msg is not None:
                            violation = dict(harness=check.harnesses[hi].name, choices=prefix, message=msg, trace=dict(choices=[], calls=[]), history=[])
                            break
                    else:
                        error = "workers died: %r at %r" % (dead, at)
                    break
                running -= 1
                if isinstance(got, BaseException):
                    error = "worker: %r" % got
                    break
                hi, st, bad, cap, err, rest = got
                stats[hi].merge(st)
                if cap:
                    capped.add(check.harnesses[hi].name)
                if err:
                    error = err
                    break
                if bad:
                    violation = dict(harness=check.harnesses[hi].name, choices=bad[0], message=bad[1], trace=bad[2],
                                     history=bad[3])
                    break
                size = max(1, min(64, len(rest) // NPROC + 1))
                for i in range(0, len(rest), size):
                    pool.apply_async(_task, ((hi, rest[i:i + size]),), callback=done.put, error_callback=done.put)
                    running += 1
            pool.terminate()
    return stats, violation, capped, error


def _forked(check, hi, prefix, sig):
    """One execution in a child, so that the parent stays as it was after import."""
    ctx = multiprocessing.get_context("fork")
    recv, send = ctx.Pipe(False)

    def child():
        try:
            x, msg = run_one(check, check.harnesses[hi], prefix, sig)
            st = Stats()
            st.add(x)
            bad = (tuple(x.choices), msg, describe(x, 60)) if msg is not None else None
            send.send((st, bad, [] if bad else list(children(x, check.harnesses[hi].bound))))
        except Exception:  # noqa: BLE001
            send.send("harness %s, choices %r:\n%s" % (check.harnesses[hi].name, prefix, traceback.format_exc()))
        send.close()
    p = ctx.Process(target=child)
    p.start()
    send.close()
    try:
        got = recv.recv()
    except EOFError:
        got = "harness %s: the process running choices %r died" % (check.harnesses[hi].name, prefix)
    p.join()
    return got


def again(check, harness_name, choices, history=()):
    """Re-run one execution (after the given earlier ones) in a fresh child; -> message or None."""
    ctx = multiprocessing.get_context("fork")
    recv, send = ctx.Pipe(False)

    def child():
        msg = "not re-run"
        try:
            for hi, ch in history:
                run_one(check, check.harnesses[hi], ch)
            x, msg = run_one(check, check.by_name(harness_name), choices)
        except Exception:  # noqa: BLE001
            msg = "error: " + traceback.format_exc()
        send.send(msg)
        send.close()
    p = ctx.Process(target=child)
    p.start()
    send.close()
    try:
        got = recv.recv()
    except EOFError:
        got = "the process died"
    p.join()
    return got
