"""Runs in an interpreter of its own, under the configuration its parent chose, and prints what it observed (C10, C21)."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


def restrict():
    import hashlib
    mode = os.environ.get("VF_RIPEMD")
    if mode:
        real = hashlib.new

        def new(name, *a, **k):
            if str(name).lower().replace("-", "") in ("ripemd160", "rmd160", "ripemd"):
                raise ValueError("unsupported hash type " + str(name))
            return real(name, *a, **k)
        hashlib.new = new
        if mode == "absent":
            hashlib.algorithms_available = {a for a in hashlib.algorithms_available if "ripemd" not in a and "rmd" not in a}


PREIMPORT = """abc argparse array ast asyncio atexit base64 binascii bisect builtins calendar cmath codecs collections collections.abc concurrent.futures
 concurrent.futures.process configparser contextlib contextvars copy copyreg csv ctypes ctypes.util dataclasses datetime decimal difflib dis enum errno faulthandler
 fractions functools gc getpass gettext glob gzip hashlib heapq hmac importlib importlib.metadata importlib.resources inspect io ipaddress itertools json keyword
 linecache locale logging logging.handlers math mmap multiprocessing multiprocessing.pool numbers operator os pathlib pickle pkgutil platform pprint queue random
 re secrets select selectors shutil signal site socket ssl stat statistics string struct subprocess sys sysconfig tempfile textwrap threading time timeit
 tokenize traceback types typing unicodedata unittest unittest.mock urllib.parse uuid warnings weakref zipfile zlib""".split()


def around(mode):
    """Changes the surroundings, and returns what runs the calls in them."""
    import importlib
    for m in PREIMPORT + ["six", "scrypt", "scrypt.scrypt", "pyaes", "pyaes.aes", "pyaes.blockfeeder", "ecdsa", "ecdsa.util", "ecdsa.numbertheory", "ecdsa.curves", "ecdsa.keys", "ecdsa.ellipticcurve"]:
        importlib.import_module(m)
    import asyncio
    import datetime
    import decimal
    import gc
    import platform
    import random
    import threading
    import time
    run = lambda f: f()
    if mode == "thread":
        def run(f):
            out = []
            t = threading.Thread(target=lambda: out.append(f()))
            t.start()
            t.join()
            return out[0]
    elif mode == "small stack":
        def run(f):
            out = []
            threading.stack_size(256 * 1024)
            t = threading.Thread(target=lambda: out.append(f()))
            t.start()
            t.join()
            return out[0]
    elif mode == "traced":
        def run(f):
            def local(frame, event, arg):
                return local
            sys.settrace(lambda frame, event, arg: local if "/bip38/" in frame.f_code.co_filename else None)
            try:
                return f()
            finally:
                sys.settrace(None)
    elif mode == "profiled":
        def run(f):
            sys.setprofile(lambda *a: None)
            try:
                return f()
            finally:
                sys.setprofile(None)
    elif mode == "gc at once":
        gc.collect()
        gc.freeze()
        gc.set_threshold(20, 2, 1)
    elif mode == "no gc":
        gc.disable()
    elif mode == "deep":
        def run(f):
            def down(n):
                return f() if n == 0 else down(n - 1)
            return down(sys.getrecursionlimit() - 350)
    elif mode.startswith("clock"):
        t = float(mode.split()[1])
        real = {n: getattr(time, n) for n in ("localtime", "gmtime", "ctime", "strftime")}
        for n in ("time", "monotonic", "perf_counter", "process_time"):
            setattr(time, n, lambda: t)
            setattr(time, n + "_ns", lambda: int(t * 10**9))
        for n in ("localtime", "gmtime", "ctime"):
            setattr(time, n, lambda *a, n=n: real[n](*(a or (t,))))

        class fixed(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return cls.fromtimestamp(t, tz)

            @classmethod
            def utcnow(cls):
                return cls.fromtimestamp(t, datetime.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.fromtimestamp(t)

        class fixed_date(datetime.date):
            @classmethod
            def today(cls):
                return cls.fromtimestamp(t)
        datetime.datetime, datetime.date = fixed, fixed_date
    elif mode.startswith("platform"):
        sys.platform, os.name, system = {"Windows": ("win32", "nt", "Windows"), "Darwin": ("darwin", "posix", "Darwin"), "Java": ("java", "java", "Java")}[mode.split()[1]]
        platform.system = lambda: system
        platform.machine = lambda: "unknown"
        platform.python_implementation = lambda: "PyPy"
    elif mode == "decimal":
        c = decimal.getcontext()
        c.prec, c.rounding, c.Emax = 2, decimal.ROUND_FLOOR, 3
    elif mode == "loop":
        def run(f):
            async def main():
                return f()
            return asyncio.run(main())
    elif mode == "arguments":
        sys.argv[1:] = ["--help", "-v", "--network", "testnet"]
    elif mode == "seeded":
        random.seed(0)
    elif mode == "no streams":
        def run(f):
            keep = sys.stdin, sys.stdout, sys.stderr
            sys.stdin = sys.stdout = sys.stderr = None
            try:
                return f()
            finally:
                sys.stdin, sys.stdout, sys.stderr = keep
    elif mode == "no directory":
        import tempfile
        d = tempfile.mkdtemp(prefix="vf-gone.")
        os.chdir(d)
        os.rmdir(d)
    return run


AROUND = ("thread", "small stack", "traced", "profiled", "gc at once", "no gc", "deep", "clock 0", "clock 2147483648.5", "clock 1706745599.999", "platform Windows", "platform Darwin", "platform Java", "decimal", "loop", "arguments",
          "seeded", "no streams", "no directory")


def reads():
    """The environment variables that the package looks at."""
    seen, REPO = set(), "?"
    inner = os._Environ.__getitem__

    def get(self, key):
        f, n = sys._getframe(1), 0
        while f is not None and n < 8:
            if f.f_code.co_filename.startswith(REPO):
                seen.add(key if isinstance(key, str) else repr(key))
                break
            if "importlib" in f.f_code.co_filename:
                break
            f, n = f.f_back, n + 1
        return inner(self, key)
    os._Environ.__getitem__ = get
    from vf import env
    REPO = os.path.join(env.REPO.rstrip("/"), "bip38") + "/"
    env.install()
    from checks.c21 import transcript
    transcript()
    return sorted(seen)


def outcome(fn, *a, **k):
    try:
        v = fn(*a, **k)
    except Exception as e:  # noqa: BLE001
        return ["raise", type(e).__name__]
    return ["value", v.hex() if isinstance(v, bytes) else ascii(v)]


def hashes():
    from vf import env
    env.install()
    from checks.c10 import messages
    c, lib = env.mod("crypto"), env.mod("libs.ripemd160")
    out = []
    for m in messages():
        for f in ("sha256", "double_sha256", "get_checksum", "ripemd160", "hash160"):
            out.append([f, "bytes", m.hex(), outcome(getattr(c, f), m)])
            if len(m) < 100:
                out.append([f, "hex", m.hex(), outcome(getattr(c, f), m.hex())])
        out.append(["ripemd160", "own", m.hex(), outcome(lib.ripemd160, m)])
    return out


def calls():
    from vf import env
    env.install()
    from checks.c21 import transcript
    return transcript()


if __name__ == "__main__":
    restrict()
    import json
    todo = {"hashes": hashes, "calls": calls, "reads": reads}[sys.argv[1]]
    mode = os.environ.get("VF_AROUND")
    result = around(mode)(todo) if mode else todo()
    sys.stdout.write(json.dumps(result, ensure_ascii=True))
