"""C17: a call that fails or is interrupted, at every point of it: it returns nothing, and later calls are as ever."""
import sys

from vf import dom, env, explore, iso, ref, sched
from checks import c15

TAPS = True
HARD = ("scrypt", "urandom", "aes-key", "aes-encrypt", "aes-decrypt", "ecdsa-private", "ecdsa-public", "ecdsa-parse", "ecdsa-point",
        "ecdsa-serialise", "ecdsa-multiply")
BOUNDARY = ("hashlib", "ecdsa", "six", "unicodedata")


class Injected(Exception):
    """A failure of the environment (not one the library knows)."""


def failures():
    import scrypt
    from ecdsa import keys
    return {"scrypt": [scrypt.error, MemoryError], "urandom": [OSError, NotImplementedError], "aes": [ValueError, Injected],
            "ecdsa": [keys.MalformedPointError, AssertionError, Injected], "sha256": [ValueError, Injected], "hashlib-new": [ValueError, OSError],
            "normalize": [ValueError, MemoryError]}


def kinds_of(kind):
    f = failures()
    return f.get(kind) or f[kind.split("-")[0]]


def bodies(calls):
    out = {}
    for op, pair in calls.ops.items():
        for i, (fn, want) in enumerate(pair):
            out["%s %d" % (op, i)] = (op, i, fn, want)
    return out


def clean(x, calls, b, op, i, what):
    calls.salts.clear()
    try:
        got = ("value", calls.ops[op][i][0](b))
    except Exception as e:  # noqa: BLE001
        got = ("raise", type(e).__name__, str(e))
    x.note("afterwards " + op, (i,), {}, iso.Seen(("value", explore.plain(got))))
    c15.judge(x, what, got, calls.ops[op][i][1])


def afterwards(x, calls, held, names, what):
    """Every operation, on the same instance and on a new one."""
    env.tap = None
    sys.settrace(None)
    new = dom.bip(dom.BTC_MAIN)
    for op, i in names:
        clean(x, calls, held, op, i, "%s, then %s" % (what, op))
    for op, i in names[::2]:
        clean(x, calls, new, op, i, "%s, then %s on another instance" % (what, op))


def no_verdict(x, what, raised, exc, want):
    """A failure says nothing about the passphrase."""
    import scrypt
    if want is not c15.PassphraseError and exc in (scrypt.error, MemoryError, OSError, NotImplementedError, KeyboardInterrupt, Injected):
        x.check_that(type(raised).__name__ != "PassphraseError", "%s: reported as %s: %s" % (what, type(raised).__name__, raised))


class Lines:
    """Trace: announce each line of the package; at one of them, interrupt."""

    def __init__(self, stop=None, repeat=1, exc=KeyboardInterrupt):
        self.stop, self.repeat, self.exc, self.count, self.at = stop, repeat, exc, 0, None
        self.root = env.REPO.rstrip("/") + "/bip38"

    def __call__(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.root):
            return None
        seen = {}

        def local(frame, event, arg):
            if event == "line":
                c = seen.get(frame.f_lineno, 0)
                if c < self.repeat:
                    seen[frame.f_lineno] = c + 1
                    self.count += 1
                    if self.count - 1 == self.stop:
                        self.at = "%s:%d" % (frame.f_code.co_filename[len(self.root) + 1:], frame.f_lineno)
                        raise self.exc("interrupted")
            return local
        return local


def build(check):
    T = check.thorough
    calls = c15.Calls()
    ops = bodies(calls)
    names = sorted(ops)
    others = [(op, i) for op in sorted(calls.ops) for i in (0, 1)]
    some = [("encrypt", 0), ("decrypt", 1), ("decrypt EC", 0), ("create", 1), ("confirm", 0), ("intermediate", 1), ("random", 0), ("functions", 1)]

    def sized(x, name, what):
        """How many fault points or lines a clean run of it has."""
        kinds, lines = [], Lines(repeat=2 if T else 1)
        calls.start()
        b = dom.bip(dom.BTC_MAIN)
        if what == "lines":
            sys.settrace(lines)
        else:
            env.tap = kinds.append
        try:
            ops[name][2](b)
        except Exception:  # noqa: BLE001
            pass
        finally:
            sys.settrace(None)
            env.tap = None
        return lines.count if what == "lines" else kinds
    env.reset()
    host = explore.X(check)
    sizes = {n: (iso.isolated(host, sized, n, "kinds"), iso.isolated(host, sized, n, "lines")) for n in names}
    check.extra["fault_points"] = {n: dict(primitive_calls=len(k), lines=c) for n, (k, c) in sizes.items()}

    def run_faulted(x, b, name, at, exc, kind):
        op, i, fn, want = ops[name]
        count = [0]

        def tap(k):
            n = count[0]
            count[0] += 1
            if n == at:
                raise exc("injected") if exc is not NotImplementedError else exc()
        env.tap = tap
        what = "%s failing in %s call %d with %s" % (name, kind, at, exc.__name__)
        try:
            got = fn(b)
        except BaseException as e:  # noqa: BLE001
            env.tap = None
            x.note(name, (at, exc.__name__), {}, iso.Seen(("raise", type(e).__name__)))
            no_verdict(x, what, e, exc, want)
            return what
        env.tap = None
        x.note(name, (at, exc.__name__), {}, iso.Seen(("value", explore.plain(got))))
        x.check_that(count[0] > at, "%s: the point was not reached" % what)
        # the failure was made good: then the result has to be the right one
        c15.judge(x, what, ("value", got), want)
        return what

    def primitives(x):
        name = x.pick("operation", names, free=True)
        kinds = sizes[name][0]
        if not kinds:
            x.observe("no primitive")
            return
        at = x.pick("primitive call", range(len(kinds)), free=True)
        exc = x.pick("failure", kinds_of(kinds[at]) + [KeyboardInterrupt], free=True)

        def run(x):
            calls.start()
            b = dom.bip(dom.BTC_MAIN)
            what = run_faulted(x, b, name, at, exc, kinds[at])
            afterwards(x, calls, b, [ops[name][:2]] + (others if T else some), what)
        iso.isolated(x, run)
    check.add("primitives", primitives, 0, "each operation, failing in each of its calls of key derivation, cipher, curve, hash, random source")

    def interrupted(x):
        name = x.pick("operation", names, free=True)
        at = x.pick("line", range(sizes[name][1]), free=True)
        exc = x.pick("how", (KeyboardInterrupt, MemoryError) if T else (KeyboardInterrupt,), free=True)

        def run(x):
            op, i, fn, want = ops[name]
            calls.start()
            b = dom.bip(dom.BTC_MAIN)
            lines = Lines(at, 2 if T else 1, exc)
            got, raised = None, None
            sys.settrace(lines)
            try:
                got = fn(b)
            except BaseException as e:  # noqa: BLE001
                raised = e
            finally:
                sys.settrace(None)
            what = "%s interrupted at %s" % (name, lines.at)
            x.note(name, (at, exc.__name__, lines.at), {}, iso.Seen(("raise", type(raised).__name__) if raised else ("value", explore.plain(got))))
            if raised is not None:
                no_verdict(x, what, raised, exc, want)
            if raised is None:
                x.check_that(lines.at is not None, "%s: line %d of %d was not reached" % (name, at, sizes[name][1]))
                if exc is KeyboardInterrupt:
                    x.fail("%s: returned %s" % (what, explore.short(repr(got))))
                c15.judge(x, what, ("value", got), want)
            afterwards(x, calls, b, [ops[name][:2]] + (others if T else some), what)
        iso.isolated(x, run)
    check.add("interrupts", interrupted, 0, "each operation, interrupted at each line it executes")

    def twice(x):
        """Two failures, then the operation in peace."""
        first = x.pick("first", names[::2], free=True)
        second = x.pick("second", names[::2], free=True)
        k1, k2 = sizes[first][0], sizes[second][0]
        if not k1 or not k2:
            x.observe("no primitive")
            return
        hard1 = [i for i, k in enumerate(k1) if k in HARD][:None if T else 8]
        hard2 = [i for i, k in enumerate(k2) if k in HARD][:None if T else 8]
        a = x.pick("first fails at", hard1, free=True)
        b_ = x.pick("second fails at", hard2, free=True)

        def run(x):
            calls.start()
            b = dom.bip(dom.BTC_MAIN)
            what = run_faulted(x, b, first, a, kinds_of(k1[a])[0], k1[a])
            what += "; " + run_faulted(x, b, second, b_, kinds_of(k2[b_])[0], k2[b_])
            afterwards(x, calls, b, [ops[second][:2], ops[first][:2]] + ([] if not T else some), what)
        iso.isolated(x, run)
    check.add("two-failures", twice, 0, "two failing calls in a row" + ("" if T else " (first eight points of each)"))
