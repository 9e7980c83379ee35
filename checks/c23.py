"""C23: calls leave the process around them, their arguments and the library's tables as they found them."""
import os
import shutil
import subprocess
import sys
import tempfile

from vf import dom, env, explore, iso, ref, refused, scen, state
from checks import c14, c17

TAPS = True
PW = dom.BASE_PASS
WRITES = ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.chown", "os.truncate", "os.utime", "os.chdir", "os.putenv", "os.unsetenv", "os.system",
          "os.exec", "os.posix_spawn", "os.startfile", "os.kill", "os.killpg", "os.fork", "os.forkpty", "subprocess.Popen", "shutil.rmtree", "shutil.copyfile", "shutil.move", "tempfile.mkstemp",
          "tempfile.mkdtemp", "socket.connect", "socket.bind", "socket.sendto", "socket.getaddrinfo", "socket.gethostbyname", "urllib.Request", "smtplib.connect", "sqlite3.connect",
          "sys.addaudithook", "sys.setprofile", "sys.settrace", "builtins.input", "webbrowser.open", "ctypes.dlopen", "mmap.__new__", "signal.pthread_kill", "gc.freeze", "syslog.syslog",
          "resource.setrlimit", "fcntl.fcntl", "pty.spawn", "msvcrt.locking")


class Audit:
    """Notes what goes out of the process, while it is on."""

    def __init__(self):
        self.on, self.seen = False, []
        sys.addaudithook(self.hook)

    def hook(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = (tuple(args) + (None, None, None))[:3]
            writes = isinstance(mode, str) and set(mode) & set("wax+") or isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
            if writes and not str(path).startswith("/dev/"):
                self.seen.append("opens %r for writing" % (path,))
        elif event in WRITES:
            self.seen.append("%s%.200r" % (event, args))


def build(check):
    T = check.thorough
    audit = Audit()
    a = c14.artefacts()
    K, V, F = c14.kinds(a), c14.variants(a), c14.families(a)
    calls = dict(K)
    calls.update(V)
    for n, values in F.items():
        for i, (fn, _) in enumerate(values if T else values[:6]):
            calls["%s %d" % (n, i)] = fn
    names = sorted(calls)
    kinds = sorted(K)

    def watched(x, what, act, before=None, w=None):
        """Run act in a process of its own whose working, home and temporary directories are new."""
        d = tempfile.mkdtemp(prefix="vf-state.")
        try:
            os.chdir(d)
            os.environ["HOME"] = os.environ["TMPDIR"] = os.environ["XDG_CACHE_HOME"] = d
            tempfile.tempdir = None
            w = c14.World()
            if before:
                before(w)
            s0 = state.snapshot(env.bip38, (d,))
            audit.on = True
            try:
                act(w)
            finally:
                audit.on = False
            s1 = state.snapshot(env.bip38, (d,))
            found = state.changes(s0, s1) + audit.seen
            try:
                pid, _ = os.waitpid(-1, os.WNOHANG)
                found.append("a child process is left")
            except ChildProcessError:
                pass
        finally:
            os.chdir("/")
            shutil.rmtree(d, ignore_errors=True)
        if found:
            x.fail("%s changes: %s" % (what, "; ".join(found[:5])))

    def single(x):
        n = x.pick("call", names, free=True)
        times = x.pick("time", ("first", "second"), free=True)

        def run(sub):
            fn = calls[n]
            watched(sub, "%s, for the %s time," % (n, times), lambda w: sub.call(n, fn, w), (lambda w: sub.call(n, fn, w)) if times == "second" else None)
        iso.isolated(x, run)
    check.add("calls", single, 0, "each call that C14 knows, alone in a process: first and second time")

    R = refused.refusals()
    rnames = sorted(R)

    def refusals(x):
        n = x.pick("refused", rnames, free=True)
        times = x.pick("times", (1, 3), free=True)

        def run(sub):
            watched(sub, "%s, %d times," % (n, times), lambda w: [sub.call(n, R[n], w) for _ in range(times)])
        iso.isolated(x, run)
    check.add("refusals", refusals, 0, "%d calls that are refused" % len(R))

    def coins(x):
        coin, net, wp, ap = x.pick("network", dom.NETS, free=True)
        comp = x.pick("compressed", (False, True), free=True)

        def run(sub):
            def act(w):
                b = w.b(coin, net)
                for name, fn, args in (("encrypt", b.encrypt, (ref.wif(dom.BASE_KEY, comp, wp), PW)), ("decrypt", b.decrypt, (ref.encrypt(dom.BASE_KEY, comp, PW, ap), PW, None, True)),
                                       ("create", b.create_new_encrypted_wif, (a["code", None], "wif", dom.BASE_SEED)),
                                       ("confirm", b.confirm_code, (PW, ref.create(a["code", None], comp, dom.BASE_SEED, ap)["confirmation_code"]))):
                    sub.call(name, fn, *args)
            watched(sub, "using %s %s" % (coin, net), act)
        iso.isolated(x, run)
    check.add("coins", coins, 0, "every network of every coin")

    def pairs(x):
        h = [x.pick("call %d" % i, kinds, free=True) for i in range(2)]

        def run(sub):
            watched(sub, "%s" % h, lambda w: [sub.call(n, K[n], w) for n in h])
        iso.isolated(x, run)
    check.add("histories", pairs, 0, "all histories of two calls of every kind")

    def long(x):
        n = x.pick("call", kinds, free=True)
        times = x.pick("times", (5, 40) if not T else (5, 40, 200), free=True)

        def run(sub):
            watched(sub, "%s %d times" % (n, times), lambda w: [sub.call(n, K[n], w) for _ in range(times)])
        iso.isolated(x, run)
    check.add("repeated", long, 0, "each call many times")

    # faults
    def size(x, n):
        seen = []
        env.tap = seen.append
        try:
            K[n](c14.World())
        except Exception:  # noqa: BLE001
            pass
        env.tap = None
        return seen
    host = explore.X(check)
    points = {n: iso.isolated(host, size, n) for n in kinds}
    faults = [(n, i, k) for n in kinds for i, k in enumerate(points[n]) if T or i == 0 or i == len(points[n]) - 1 or points[n][i] != points[n][i - 1]]

    def failing(x):
        n, at, kind = x.pick("fault", faults, free=True)
        excs = c17.kinds_of(kind) + [KeyboardInterrupt]
        exc = excs[x.pick("failure", range(len(excs) if T else 2), free=True) if T else x.pick("failure", (0, len(excs) - 1), free=True)]

        def run(sub):
            def act(w):
                count = [0]

                def tap(k):
                    count[0] += 1
                    if count[0] - 1 == at:
                        raise exc("injected")
                env.tap = tap
                try:
                    K[n](w)
                    sub.observe("went on")
                except BaseException as e:  # noqa: BLE001
                    sub.observe(n, at, type(e).__name__)
                    e.__traceback__ = None
                finally:
                    env.tap = None
            watched(sub, "%s with a failure in %s %d" % (n, kind, at), act)
        iso.isolated(x, run)
    check.add("failures", failing, 0, "each call of every kind, failing or interrupted in each kind of primitive")

    # arguments
    def arguments(x):
        """Mutable arguments are as they were."""
        alph = [ref.BTC, ref.XRP]
        table = {"mainnet": {"wif_prefix": 0x99, "address_prefix": 0x19}, "testnet": {"wif_prefix": 0x9A, "address_prefix": 0x1A}}
        c = type("Own", (env.mod("cryptocurrencies").ICryptocurrency,), {"NETWORKS": table})
        before = state.plain(table), state.plain({k: v for k, v in vars(c).items() if not k.startswith("__")})
        b = env.bip38.BIP38(c)
        comp = x.pick("compressed", (False, True), free=True)
        net = x.pick("network", ("mainnet", "testnet", None, "simnet"), free=True)
        wp, ap = (0x9A, 0x1A) if net == "testnet" else (0x99, 0x19)
        s = scen.Ec(net=("Own", "x", wp, ap), comp=comp)
        t = "wif-compressed" if comp else "wif"
        for name, fn, args in (("encrypt", b.encrypt, (ref.wif(dom.BASE_KEY, comp, wp), PW, net)), ("decrypt", b.decrypt, (ref.encrypt(dom.BASE_KEY, comp, PW, ap), PW, net, True)),
                               ("create", b.create_new_encrypted_wif, (s.code, t, s.seed, net)), ("confirm", b.confirm_code, (PW, s.created["confirmation_code"], net, True)),
                               ("wif", env.mod("wif").private_key_to_wif, (dom.BASE_KEY, t, c, net or "mainnet"))):
            x.call(name, fn, *args)
            x.same("the caller's table after " + name, (state.plain(table), state.plain({k: v for k, v in vars(c).items() if not k.startswith("__")})), before)
        kw = dict(address_prefix=0x30, alphabet=alph[1], public_key_type="uncompressed")
        A = env.mod("p2pkh_address").P2PKHAddress
        x.call("P2PKHAddress.encode", lambda: A.encode(ref.ser(ref.mul(7), True), **kw))
        x.same("keywords", kw, dict(address_prefix=0x30, alphabet=ref.XRP, public_key_type="uncompressed"))
        data = bytearray(dom.rnd("mutable", 25))
        keep = bytes(data)
        l58, U = env.mod("libs.base58"), env.mod("utils")
        for name, fn, args in (("base58.encode", l58.encode, (data,)), ("base58.check_encode", l58.check_encode, (data,)), ("bytes_reverse", U.bytes_reverse, (data,)),
                               ("bytes_to_integer", U.bytes_to_integer, (data,)), ("ripemd160", env.mod("libs.ripemd160").ripemd160, (data,)), ("bytes_to_string", U.bytes_to_string, (data,))):
            x.call(name, lambda *a: bytes(repr(fn(*a)), "ascii"), *args)
            x.same("the caller's bytes after " + name, bytes(data), keep)
        G = env.mod("secp256k1").Point
        p, q = [G.from_coordinates(*ref.mul(i)) for i in (3, 5)]
        for name, fn in (("sum", lambda: (p + q).x()), ("product", lambda: (p * 7).x()), ("product from the left", lambda: (9 * p).x()), ("double", lambda: (p + p).x()),
                         ("raw", lambda: (p.raw(), p.raw_encoded(), p.raw_decoded())),
                         ("public key", lambda: env.mod("secp256k1").PublicKey.from_point(p).raw_compressed())):
            x.call(name, fn)
            x.same("the operands after " + name, (p.x(), p.y(), q.x(), q.y()), ref.mul(3) + ref.mul(5))
        k = env.mod("secp256k1").PrivateKey.from_bytes(dom.BASE_KEY)
        for _ in range(3):
            x.gives("private key", x.call("raw", k.raw), dom.BASE_KEY)
            x.gives("public key", x.call("public_key", lambda: k.public_key().raw_compressed()), ref.ser(ref.mul(ref.b2i(dom.BASE_KEY)), True))
    check.add("arguments", arguments, 0, "tables, keywords, byte arrays, points and keys a caller passes")

    modes = ([], ["-O"], ["-OO"], ["-X", "dev"], ["-I"], ["-W", "error"], ["-X", "utf8=0"], ["-b"])
    code = """
import sys
sys.path[:0] = [%r, %r]
import ecdsa, ecdsa.ecdsa, ecdsa.curves, ecdsa.keys, ecdsa.ellipticcurve, pyaes, pyaes.aes, scrypt, scrypt.scrypt, six, struct, unicodedata, secrets, json, typing, binascii
from vf import state
import warnings, os
a = state.snapshot()
seen = []
on = [True]
def hook(event, args):
    if on[0] and (event in %r or event == "open" and (isinstance(args[1], str) and set(args[1]) & set("wax+") or isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))):
        seen.append((event, repr(args)[:200]))
sys.addaudithook(hook)
import bip38, bip38.bip38, bip38.wif, bip38.cryptocurrencies, bip38.p2pkh_address, bip38.crypto, bip38.utils, bip38.exceptions, bip38.const, bip38.libs.base58, bip38.libs.ripemd160, bip38.secp256k1
on[0] = False
b = state.snapshot()
assert bip38.__file__.startswith(%r), bip38.__file__
out = state.changes(a, b) + [repr(s) for s in seen]
print("RESULT", out)
"""

    def importing(x):
        flags = x.pick("interpreter", modes, free=True)
        root = os.path.dirname(os.path.dirname(os.path.abspath(state.__file__)))
        d = tempfile.mkdtemp(prefix="vf-import.")
        try:
            e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            r = subprocess.run([sys.executable, "-B"] + flags + ["-c", code % (env.REPO, root, WRITES, env.REPO)], cwd=d, env=dict(e, HOME=d, TMPDIR=d), capture_output=True, text=True, timeout=200)
            left = os.listdir(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        line = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
        x.note("import", tuple(flags), {}, iso.Seen(("value", repr(line))))
        if not line:
            x.fail("importing under %s: %s" % (flags, (r.stderr or r.stdout)[-300:]))
        x.same("what importing under %s changes" % flags, line[0], "RESULT []")
        x.same("what importing prints under %s" % flags, (r.stdout.strip(), r.stderr.strip()), (line[0], ""))
        x.same("files importing leaves under %s" % flags, left, [])
    check.add("import", importing, 0, "importing the package, in interpreters of several configurations")
