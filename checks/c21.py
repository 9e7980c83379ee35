"""C21: the same calls in interpreters configured in every way: the same results, the same rejections."""
import os
import subprocess
import sys

from vf import dom, env, probe, ref

PW = dom.BASE_PASS


def transcript():
    """[[call, outcome]] of a fixed set of calls. Runs in the interpreter under test."""
    from checks import c20
    from vf.explore import plain
    out = []

    def outcome(fn, *a, **k):
        try:
            v = fn(*a, **k)
        except Exception as e:  # noqa: BLE001
            return ["raise", type(e).__name__]
        return ["value", v.hex() if isinstance(v, bytes) else plain(v)]

    def add(name, fn, *a, **k):
        out.append([name, outcome(fn, *a, **k)])
    scenes, ecs = c20.scenes()
    for s in scenes:
        if "damaged" in s.name and s.name[-1] == "1" and "last" not in s.name:
            continue  # the compressed ones of those damaged alike
        env.reset()
        env.rand_hook = lambda n: dom.rnd("c21", n)
        if s.setup:
            s.setup()
        add(s.name, s.fn)
    env.reset()
    for coin, net, wp, ap in dom.NETS:
        def network(coin=coin, net=net):
            b = dom.bip((coin, net))
            return b.networks, b.network, b.alphabet, sorted(b.cryptocurrency.NETWORKS.items())
        add("network %s %s" % (coin, net), network)
    for coin, net, wp, ap in [n for n in dom.NETS if n[0] in ("Litecoin", "Ripple", "Zcash", "Dogecoin")]:
        b = dom.bip((coin, net))
        add("encrypt on %s %s" % (coin, net), b.encrypt, ref.wif(dom.BASE_KEY, True, wp), PW)
        add("decrypt on %s %s" % (coin, net), b.decrypt, ref.encrypt(dom.BASE_KEY, True, PW, ap), PW, None, True)
    b = dom.bip(dom.BTC_MAIN)
    for p in dom.PASSPHRASES:
        add("intermediate %r" % p, b.intermediate_code, p, owner_salt=dom.BASE_SALT)
    c, u, w, s = env.mod("crypto"), env.mod("utils"), env.mod("wif"), env.mod("secp256k1")
    a, b58 = env.mod("p2pkh_address").P2PKHAddress, env.mod("libs.base58")
    for m in (b"", b"abc", bytes(64), b"\xff" * 200):
        for f in ("sha256", "double_sha256", "ripemd160", "hash160", "get_checksum"):
            add("%s %r" % (f, m), getattr(c, f), m)
    for v in (0, 1, 255, 256, -1, 2**64, 2**2000):
        add("integer_to_bytes %d bits" % v.bit_length(), u.integer_to_bytes, v)
        add("integer_to_bytes 8 %d bits" % v.bit_length(), u.integer_to_bytes, v, 8)
        add("signed %d bits" % v.bit_length(), u.integer_to_bytes, v, 8, "little", True)
    for v in ("", "00ff", "xyz", b"\0", 5, "\u00e9"):
        add("get_bytes %r" % (v,), u.get_bytes, v)
        add("get_bytes text %r" % (v,), u.get_bytes, v, False)
        add("bytes_to_string %r" % (v,), u.bytes_to_string, v)
    g = ref.mul(1)
    points = [("G", *g), ("2G", *ref.mul(2)), ("off", g[0], g[1] + 1), ("zero", 0, 0), ("beyond", g[0] + ref.P, g[1]), ("one", 1, 1), ("negative", -1, 1)]
    for name, px, py in points:
        add("point " + name, lambda: s.Point.from_coordinates(px, py).raw().hex())
        for raw in (b"\2" + ref.i2b(px % 2**256, 32), b"\4" + ref.i2b(px % 2**256, 32) + ref.i2b(py % 2**256, 32), b"\5" + ref.i2b(px % 2**256, 32),
                    ref.i2b(px % 2**256, 32) + ref.i2b(py % 2**256, 32), b"\2" + ref.i2b(px % 2**256, 32)[:31]):
            add("public key %s %s" % (name, raw.hex()), lambda: s.PublicKey.from_bytes(raw).raw_compressed().hex())
            add("point bytes %s %s" % (name, raw.hex()), lambda: s.Point.from_bytes(raw).raw().hex())
            add("address %s %s" % (name, raw.hex()), a.encode, raw)
    for k in [bytes(32), ref.i2b(ref.N, 32), ref.i2b(ref.N - 1, 32), b"\xff" * 32, b"\1" * 31, b"\1" * 33, b"", ref.i2b(1, 32)]:
        add("private key " + k.hex(), lambda: s.PrivateKey.from_bytes(k).public_key().raw_uncompressed().hex())
        add("wif " + k.hex(), w.encode_wif, k)
        add("compressed wif " + k.hex(), w.private_key_to_wif, k, "wif-compressed")
    for x, y in ((1, 2), (3, 3), (5, ref.N - 5), (ref.N - 1, 2)):
        add("sum %d %d" % (x, y), lambda: (s.Point.from_bytes(ref.ser(ref.mul(x), True)) + s.Point.from_bytes(ref.ser(ref.mul(y), True))).raw().hex())
    for k in (0, 1, 2, ref.N, ref.N + 1, -1, 2**256):
        add("times %d" % k, lambda: (s.Point.from_bytes(ref.ser(g, True)) * k).raw().hex())
    for v in (b"", b"\0", b"\0\0a", b"abc", bytes(range(40))):
        for alphabet in (ref.BTC, ref.XRP):
            add("b58 %r" % v, b58.encode, v, alphabet)
            add("b58check %r" % v, b58.check_encode, v, alphabet)
    for t in ("", "1", "11z", "0", "l", "zzzz", "\u0131", "z z"):
        add("unb58 %r" % t, b58.decode, t)
        add("unb58check %r" % t, b58.check_decode, t)
        add("unaddress %r" % t, a.decode, t)
    addr = ref.address(g, True, 0)
    for t in (addr, addr[:-1], addr[:-1] + "1", addr + "1", ref.address(g, True, 5), ref.wif(dom.BASE_KEY, True, 0x80)):
        add("unaddress " + t, a.decode, t)
    for c_ in (object, int, "Bitcoin", None, type):
        add("class %r" % (c_,), lambda: env.bip38.BIP38(c_).network)
    return out


DIMENSIONS = [
    ("optimisation", [(), ("-O",), ("-OO",)], "options"),
    ("hash seed", ["0", "1", "2", "4294967295", "random"], "PYTHONHASHSEED"),
    ("locale", [None, "C", "POSIX", "C.UTF-8", "C.utf8", "de_DE.ISO-8859-1", "tr_TR.UTF-8"], "LC_ALL"),
    ("UTF-8 mode", [None, "0", "1"], "PYTHONUTF8"),
    ("warnings", [(), ("-W", "error"), ("-W", "always"), ("-X", "dev"), ("-bb", "-W", "error")], "options"),
    ("isolation", [(), ("-I",), ("-E",), ("-s",)], "options"),
    ("hashes", [{}, {"VF_RIPEMD": "absent"}, {"VF_RIPEMD": "refused"}, {"OPENSSL_CONF": os.path.join(dom.ROOT, "data", "openssl-default-only.cnf")}], "env"),
    ("integer text limit", [None, "640", "0"], "PYTHONINTMAXSTRDIGITS"),
    ("stream encoding", [None, "ascii:strict", "utf-16"], "PYTHONIOENCODING"),
    ("surroundings", [{}, {"HOME": "/nonexistent", "PATH": "/nonexistent", "TZ": "Pacific/Kiritimati", "LANG": "xx_XX"}, {"LANGUAGE": "tr", "COLUMNS": "1"}], "env"),
]


def build(check):
    import json
    T = check.thorough

    def run(chosen, more=(), what="calls"):
        e, options = {"HOME": "/tmp"}, []
        for (name, _, kind), v in zip(DIMENSIONS, chosen):
            if kind == "options":
                options += v
            elif kind == "env":
                e.update(v)
            elif v is not None:
                e[kind] = v
        base = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VF_RIPEMD", "OPENSSL_"))}
        base.update(PYTHONDONTWRITEBYTECODE="1", **e)
        base.update(more)
        p = subprocess.run([sys.executable, "-B", *options, os.path.join(dom.ROOT, "vf", "probe.py"), what], cwd="/", env=base,
                           stdin=subprocess.DEVNULL, capture_output=True, timeout=200)
        if p.returncode != 0:
            return None, p.stderr.decode("utf-8", "replace")[-800:]
        text = p.stdout.decode("utf-16" if e.get("PYTHONIOENCODING") == "utf-16" and "-I" not in options and "-E" not in options else "ascii")
        return json.loads(text), None

    here = {}

    def configurations(x):
        chosen = [x.pick(name, options) for name, options, _ in DIMENSIONS]
        if not here:  # the plain interpreter, once in each worker
            got, err = run([options[0] for _, options, _ in DIMENSIONS])
            if got is None:
                raise RuntimeError("the plain interpreter failed: " + err)
            here["want"] = got
        got, err = run(chosen)
        what = ", ".join("%s=%r" % (d[0], c) for d, c in zip(DIMENSIONS, chosen) if c != d[1][0]) or "the plain interpreter"
        if got is None:
            x.observe("ended early", what)
            x.fail("under %s: %s" % (what, err))
        x.same("number of calls under " + what, len(got), len(here["want"]))
        for (n1, o1), (n2, o2) in zip(got, here["want"]):
            x.note(n1, (what,), {}, _Seen(o1))
            x.same("under %s: %s" % (what, n1), (n1, o1), (n2, o2))
    check.add("configurations", configurations, 3 if T else 2, "interpreter configurations, %s settings at a time" % ("three" if T else "two"))

    PLAIN = [options[0] for _, options, _ in DIMENSIONS]

    def compared(x, what, got, err):
        if not here:
            plain, e = run(PLAIN)
            if plain is None:
                raise RuntimeError("the plain interpreter failed: " + e)
            here["want"] = plain
        if got is None:
            x.observe("ended early", what)
            x.fail("under %s: %s" % (what, err))
        for (n1, o1), (n2, o2) in zip(got, here["want"]):
            x.note(n1, (what,), {}, _Seen(o1))
            x.same("under %s: %s" % (what, n1), (n1, o1), (n2, o2))
        x.same("number of calls under " + what, len(got), len(here["want"]))

    def surrounded(x):
        """Around the interpreter, or around the call in it."""
        mode = x.pick("around", probe.AROUND, free=True)
        options = x.pick("options", ((), ("-O",), ("-W", "error")) if T else ((),), free=True)
        got, err = run([options] + PLAIN[1:], {"VF_AROUND": mode})
        compared(x, mode, got, err)
    check.add("surroundings", surrounded, 0, "calls from another thread, deep in the stack, in an event loop, traced, with another clock, platform name, decimal context ...")

    variables, err = run(PLAIN, what="reads")
    if variables is None:
        raise RuntimeError("watching the environment: " + err)
    check.extra["environment variables the package reads"] = variables

    def variable(x):
        names = x.pick("variable", [None] + variables, free=True)
        if names is None:
            x.observe("variables", variables)
            return
        value = x.pick("value", ("", "0", "1", "2", "true", "false", "no", "off", "testnet", "C", "1024", "xyz", "/nonexistent"), free=True)
        got, err = run(PLAIN, {names: value})
        compared(x, "%s=%r" % (names, value), got, err)
    check.add("variables", variable, 0, "each environment variable that the package looks at (found by watching it), with values of several kinds")

    core = [0, 1, 4, 5, 6]

    def combined(x):
        """The settings that change what code runs, all combinations (first two values of each)."""
        chosen = [d[1][x.pick(d[0], range(min(len(d[1]), 3 if T else 2)), free=True)] if i in core else d[1][0] for i, d in enumerate(DIMENSIONS)]
        if not here:
            got, err = run([options[0] for _, options, _ in DIMENSIONS])
            if got is None:
                raise RuntimeError("the plain interpreter failed: " + err)
            here["want"] = got
        got, err = run(chosen)
        what = ", ".join("%s=%r" % (d[0], c) for d, c in zip(DIMENSIONS, chosen) if c != d[1][0])
        if got is None:
            x.observe("ended early", what)
            x.fail("under %s: %s" % (what, err))
        for (n1, o1), (n2, o2) in zip(got, here["want"]):
            x.note(n1, (what,), {}, _Seen(o1))
            x.same("under %s: %s" % (what, n1), (n1, o1), (n2, o2))
        x.same("number of calls under " + what, len(got), len(here["want"]))
    check.add("combined", combined, 0, "asserts, hash seed, warnings, isolation and hashes, all combinations")

    def model(x):
        """What the plain interpreter answers is what the model says (so that all of them being wrong alike shows)."""
        if not here:
            got, err = run([options[0] for _, options, _ in DIMENSIONS])
            here["want"] = got
            x.check_that(got is not None, "the plain interpreter: %s" % err)
        table = dict((n, o) for n, o in here["want"])
        x.observe("plain", len(table))
        from checks import c20
        for c in (False, True):
            x.same("encrypt", table["encrypt %d" % c], ["value", repr(ref.encrypt(c20.KEY, c, c20.PW, 0))])
            x.same("decrypt", table["decrypt %d" % c], ["value", repr(ref.wif(c20.KEY, c, 0x80))])
            x.same("wrong passphrase", table["decrypt wrong %d" % c], ["raise", "PassphraseError"])
        for n, o in table.items():
            if n.startswith(("point off", "point zero", "point beyond", "point one", "point negative")):
                x.check_that(o[0] == "raise", "%s gave %s" % (n, o))
            if "damaged" in n:
                x.check_that(o[0] == "raise", "%s gave %s" % (n, o))
    check.add("plain", model, 0, "the plain interpreter against the model")


class _Seen:
    error = None

    def __init__(self, o):
        self.o = tuple(o)

    def key(self):
        return self.o

    def __repr__(self):
        return repr(self.o)
