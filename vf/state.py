"""What a call could change in the process around it, as one comparable snapshot."""
import atexit
import codecs
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import select
import signal
import sys
import threading
import time
import types
import warnings

# modules whose names belong to others: a call may add nothing but submodules, and change nothing
OTHERS = ("hashlib", "os", "sys", "unicodedata", "struct", "ecdsa", "ecdsa.ecdsa", "ecdsa.curves", "ecdsa.keys", "ecdsa.ellipticcurve", "ecdsa.util", "ecdsa.numbertheory", "pyaes",
          "pyaes.aes", "scrypt", "scrypt.scrypt", "six", "random", "secrets", "builtins", "warnings", "codecs", "locale", "time", "threading", "io", "json", "typing", "binascii")
OWN = ("const", "cryptocurrencies", "exceptions")


def plain(v, depth=0):
    """Data by value, everything else by identity."""
    if isinstance(v, (str, bytes, int, float, bool, type(None), complex)):
        return v
    if depth > 6:
        return id(v)
    if isinstance(v, dict) or isinstance(v, types.MappingProxyType):
        return ("dict", [(plain(k, depth + 1), plain(v[k], depth + 1)) for k in v])
    if isinstance(v, (list, tuple, bytearray)):
        return (type(v).__name__, [plain(i, depth + 1) for i in v])
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, sorted(map(repr, v)))
    return id(v)


def descriptors():
    out = []
    for n in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            out.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass  # the one that listed them
    return out


def listing(d):
    return sorted((r[len(d):], sorted(dirs), sorted(files)) for r, dirs, files in os.walk(d))


def zero_umask():
    u = os.umask(0o77)
    os.umask(u)
    return u


def snapshot(bip38=None, scratch=()):
    """-> {what: value}"""
    S = {
        "environment variables": dict(os.environ), "working directory": os.getcwd(), "umask": zero_umask(), "ids": (os.getuid(), os.geteuid(), os.getgid(), os.getpid(), os.getsid(0)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0), "limits": [resource.getrlimit(i) for i in range(16)], "affinity": sorted(os.sched_getaffinity(0)),
        "open files": descriptors(), "timers": [signal.getitimer(i)[1] for i in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())], "signal mask": sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, ()))),
        "locale": locale.setlocale(locale.LC_ALL), "time zone": (time.tzname, time.timezone, time.daylight),
        "random state": hash(random.getstate()), "decimal context": repr(decimal.getcontext()), "context variables": len(contextvars.copy_context()),
        "threads": sorted(t.name for t in threading.enumerate()), "gc": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug()),
        "exit handlers": atexit._ncallbacks(), "fault handler": faulthandler.is_enabled(),
        "warning filters": (list(warnings.filters), id(warnings.showwarning), id(warnings.formatwarning), warnings.defaultaction),
        "logging": (logging.root.level, list(map(id, logging.root.handlers)), logging.root.disabled, logging.root.manager.disable, list(map(id, logging.root.filters)),
                    id(logging.getLoggerClass()), logging.raiseExceptions, id(logging.getLogRecordFactory()), logging.getLevelName(10), logging.getLevelName(35)),
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "digits limit": sys.get_int_max_str_digits(),
        "tracing": (id(sys.gettrace()), id(sys.getprofile()), id(threading.gettrace()), id(threading.getprofile())), "coroutine tracking": sys.get_coroutine_origin_tracking_depth(),
        "sys": [(n, id(getattr(sys, n, None))) for n in ("stdout", "stderr", "stdin", "excepthook", "displayhook", "unraisablehook", "breakpointhook", "__stdout__", "modules")] +
               [sys.dont_write_bytecode, sys.pycache_prefix, getattr(sys, "tracebacklimit", None), repr(sys.flags)],
        "import system": (list(sys.path), list(map(id, sys.meta_path)), list(map(id, sys.path_hooks)), list(sys.argv)),
        "pickling": len(copyreg.dispatch_table), "default encoding": (sys.getdefaultencoding(), sys.getfilesystemencoding(), locale.getpreferredencoding(False)),
        "hashes available": sorted(hashlib.algorithms_available), "standard streams": [getattr(f, a, None) for f in (sys.stdout, sys.stderr, sys.stdin) for a in ("encoding", "errors", "line_buffering", "closed")],
        "hooks of threads": (id(threading.excepthook), threading.stack_size()), "terminal": bool(select) and os.isatty(0), "codec errors": [id(codecs.lookup_error(n)) for n in ("strict", "ignore", "replace", "surrogateescape")],
        "files": [(d, listing(d)) for d in scratch],
    }
    for n in OTHERS:
        m = sys.modules.get(n)
        if m is not None:
            S["module " + n] = {k: plain(v, 3) if n not in ("os", "sys", "warnings", "time", "threading", "random") else id(v) if callable(v) else 0 for k, v in vars(m).items()
                                if k not in ("__warningregistry__", "__builtins__", "last_exc", "last_value", "last_type", "last_traceback", "_") and not isinstance(v, types.ModuleType)}
    ec = sys.modules.get("ecdsa.curves")
    if ec is not None:
        c = ec.SECP256k1
        S["the curve"] = (c.name, c.order, c.baselen, c.generator.x(), c.generator.y(), c.curve.p(), c.curve.a(), c.curve.b(), id(c.generator))
    if bip38 is not None:
        for n in OWN:
            m = sys.modules.get("bip38." + n)
            for k, v in vars(m).items():
                if k.startswith("__"):
                    continue
                if isinstance(v, type) and v.__module__ == m.__name__:
                    S["bip38.%s.%s" % (n, k)] = {a: plain(b) for a, b in vars(v).items() if not a.startswith("_")}
                elif not isinstance(v, (types.ModuleType, types.FunctionType)) and n == "const":
                    S["bip38.%s.%s" % (n, k)] = plain(v)
        A = sys.modules["bip38.p2pkh_address"].P2PKHAddress
        S["P2PKHAddress"] = (A.address_prefix, A.alphabet)
    return S


def changes(a, b):
    """-> texts of what differs"""
    out = []
    for k in a:
        if k not in b:
            out.append("%s is gone" % k)
        elif a[k] != b[k]:
            if isinstance(a[k], dict) and isinstance(b[k], dict):
                diff = [n for n in a[k] if n not in b[k] or a[k][n] != b[k][n]]
                diff += [n for n in b[k] if n not in a[k]] if k == "environment variables" or k.startswith("bip38.") else []
                if diff:
                    out.append("%s: %s" % (k, ", ".join("%s (%.120r, then %.120r)" % (n, a[k].get(n), b[k].get(n)) for n in diff[:4])))
            else:
                out.append("%s: %.300r, then %.300r" % (k, a[k], b[k]))
    return out
