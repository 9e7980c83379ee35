"""C25: every call ends, with no more key derivations, random bytes and steps than it needs."""
import gc
import sys

from vf import dom, env, iso, ref, refused, scen
from checks import c20

TAPS = True
SLOW, FAST = (16384, 8, 8), (1024, 1, 1)
STEPS = 3000000      # lines of the package one call may run; none takes a hundredth of it
PW, KEY, SEED, SALT = dom.BASE_PASS, dom.BASE_KEY, dom.BASE_SEED, dom.BASE_SALT
#           what each operation may use: derivations, random bytes
NEEDS = {"encrypt": ([SLOW], 0), "intermediate_code": ([SLOW], 8), "create_new_encrypted_wif": ([FAST], 24), "confirm_code": ([SLOW, FAST], 0), "decrypt": ([SLOW, FAST], 0)}


class TooMuch(BaseException):
    pass


class Meter:
    """An instance whose calls are counted."""

    def __init__(self, inner):
        self._inner = inner

    def __getattr__(self, name):
        got = getattr(self._inner, name)
        if name not in NEEDS:
            return got

        def call(*a, **k):
            used, rand = NEEDS[name]
            used = list(used)
            if name == "intermediate_code" and (a[3] if len(a) > 3 else k.get("owner_salt")) or name == "create_new_encrypted_wif" and (a[2] if len(a) > 2 else k.get("seed")):
                rand = 0
            if name == "decrypt":
                text = a[0] if a else k.get("encrypted_wif")
                try:
                    if ref.b58undo(text)[1] == 0x42:
                        used = [SLOW]
                except Exception:  # noqa: BLE001 - no code at all
                    pass
            ALLOWED.append((used, rand))
            return got(*a, **k)
        return call

    def b(self, coin="Bitcoin", network="mainnet"):
        """As a world (see C14)."""
        return Meter(dom.bip((coin, network) if coin != "Bitcoin" else dom.BTC_MAIN if network == "mainnet" else dom.BTC_TEST))


ALLOWED = []


class End(c20._Seen):
    def key(self):
        v = self.value
        return ("value", hex(v)) if type(v) is int else c20._Seen.key(self)

    def __repr__(self):
        return hex(self.value) if type(self.value) is int else c20._Seen.__repr__(self)


class Steps:
    """Counts the lines the package runs."""

    def __init__(self):
        self.n, self.root, self.limit = 0, env.REPO.rstrip("/") + "/bip38", STEPS

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.root):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.limit:
                raise TooMuch()
        return self.local


def measured(x, name, fn, args=(), shown=None):
    """-> lines run; checks derivations and draws"""
    env.kdf_log = log = []
    drawn = []
    answer = env.rand_hook
    env.rand_hook = lambda n: drawn.append(n) or (answer(n) if answer else dom.rnd("c25 %d" % len(drawn), n))
    ALLOWED.clear()
    s = Steps()
    over = False
    old = sys.gettrace()
    sys.settrace(s.trace)
    try:
        out = x_call(fn, args)
    except TooMuch:
        over, out = True, None
    finally:
        sys.settrace(old)
        env.kdf_log, env.rand_hook = None, answer
    x.note(name, shown if shown is not None else args, {}, out or End(None, TooMuch()))
    x.check_that(not over, "%s: no end after %d lines" % (name, s.limit))
    left = [d for used, rand in ALLOWED for d in used]
    for password, salt, n, r, p, length in log:
        x.check_that((n, r, p) in left, "%s: derives a key with N=%d r=%d p=%d, which is %s" % (name, n, r, p, "one more than BIP38 has it do" if (n, r, p) in (SLOW, FAST) else "no derivation of BIP38"))
        left.remove((n, r, p))
        x.check_that(length <= 64, "%s: derives %d bytes" % (name, length))
    most = sum(rand for used, rand in ALLOWED)
    x.check_that(sum(drawn) <= most, "%s: takes %d random bytes (%s), needs at most %d" % (name, sum(drawn), drawn, most))
    return s.n


def x_call(fn, args):
    try:
        return End(fn(*args), None)
    except RecursionError as e:
        return End(None, e)
    except Exception as e:  # noqa: BLE001 - any end is an end
        return End(None, e)


def texts():
    e, l = scen.Ec(comp=True), scen.Ec(comp=False, lot=(263183, 1))
    w, A, U, C, S, L = (env.mod(n) for n in ("wif", "p2pkh_address", "utils", "crypto", "secp256k1", "libs.base58"))
    m = Meter(None).b
    T = {}  # name: (a valid text, call)
    for n, v in (("encrypted", ref.encrypt(KEY, True, PW, 0)), ("encrypted EC", e.created["encrypted_wif"]), ("encrypted EC lot", l.created["encrypted_wif"])):
        T["decrypt " + n] = v, lambda t: m().decrypt(t, PW)
    for n, c in (("", e), (" lot", l)):
        T["create" + n] = c.code, lambda t: m().create_new_encrypted_wif(t, "wif", SEED)
        T["confirm" + n] = c.created["confirmation_code"], lambda t: m().confirm_code(PW, t)
    for n, c in (("", True), (" uncompressed", False)):
        v = ref.wif(KEY, c, 0x80)
        T["encrypt" + n] = v, lambda t: m().encrypt(t, PW)
        T["decode_wif" + n] = v, w.decode_wif
        T["get_wif_type" + n] = v, w.get_wif_type
        T["get_wif_checksum" + n] = v, w.get_wif_checksum
        T["wif_to_private_key" + n] = v, w.wif_to_private_key
    T["address"] = ref.address(ref.mul(7), True, 0), A.P2PKHAddress.decode
    T["base58"] = ref.wif(KEY, True, 0x80), L.decode
    T["base58 check"] = ref.wif(KEY, True, 0x80), L.check_decode
    T["base58 ripple"] = ref.wif(KEY, True, 0x80), lambda t: L.decode(t, ref.XRP)
    # passphrases: longer ones cost as much
    T["passphrase encrypt"] = PW, lambda t: m().encrypt(ref.wif(KEY, True, 0x80), t)
    T["passphrase decrypt"] = PW, lambda t: m().decrypt(ref.encrypt(KEY, True, PW, 0), t)
    T["passphrase decrypt EC"] = PW, lambda t: m().decrypt(l.created["encrypted_wif"], t)
    T["passphrase intermediate"] = PW, lambda t: m().intermediate_code(t, owner_salt=SALT)
    T["passphrase intermediate lot"] = PW, lambda t: m().intermediate_code(t, 100000, 1, SALT)
    T["passphrase confirm"] = PW, lambda t: m().confirm_code(t, l.created["confirmation_code"])
    # hexadecimal
    T["seed"] = SEED.hex(), lambda t: m().create_new_encrypted_wif(e.code, "wif", t)
    T["salt"] = SALT.hex(), lambda t: m().intermediate_code(PW, owner_salt=t)
    T["key"] = KEY.hex(), w.encode_wif
    T["private_key_to_wif"] = KEY.hex(), lambda t: w.private_key_to_wif(t, "wif-compressed")
    T["sha256"] = KEY.hex(), C.sha256
    T["double_sha256"] = KEY.hex(), C.double_sha256
    T["ripemd160"] = KEY.hex(), C.ripemd160
    T["hash160"] = KEY.hex(), C.hash160
    T["get_checksum"] = KEY.hex(), C.get_checksum
    T["get_bytes"] = KEY.hex(), U.get_bytes
    T["public key"] = ref.ser(ref.mul(7), True).hex(), lambda t: S.PublicKey.from_bytes(bytes.fromhex(t))
    T["private key"] = KEY.hex(), lambda t: S.PrivateKey.from_bytes(bytes.fromhex(t))
    T["address of"] = ref.ser(ref.mul(7), True).hex(), A.P2PKHAddress.encode
    T["base58 encode"] = KEY.hex(), lambda t: L.encode(bytes.fromhex(t))
    T["base58 check encode"] = KEY.hex(), lambda t: L.check_encode(bytes.fromhex(t))
    T["bytes_to_integer"] = KEY.hex(), lambda t: U.bytes_to_integer(bytes.fromhex(t))
    T["bytes_reverse"] = KEY.hex(), lambda t: U.bytes_reverse(bytes.fromhex(t))
    T["network"] = "testnet", lambda t: m().encrypt(ref.wif(KEY, True, 0x80), PW, t)
    T["wif type"] = "wif-compressed", lambda t: m().create_new_encrypted_wif(e.code, t, SEED)
    return T


def grown(v, how, n):
    """A text of n characters that has something of the valid one."""
    if how.startswith("spoiled "):
        return grown(v, how[8:], n - 1) + "!"
    if how == "repeated":
        return (v * (n // len(v) + 1))[:n]
    if how == "before":
        return v[:1] * (n - len(v)) + v if n > len(v) else v[-n:]
    if how == "after":
        return (v + v[-1:] * n)[:n]
    if how == "middle":
        return v[:len(v) // 2] + v[len(v) // 2] * (n - len(v)) + v[len(v) // 2:] if n > len(v) else v[:n]
    return (how * (n // len(how) + 1))[:n]


HOW = ("repeated", "before", "after", "middle", "1", "z", "0", "00", "ff", "0f", "r", " ", "\n", "\u00e9", "e\u0301", "\u0301", "\U0001f4a9", "\0", "1z", "6P", "a-", "wif-", "\uac01", "00 ", " 0f", "a1 ", "=", "a=", "\t\n")
HOW += tuple("spoiled " + h for h in HOW)


def build(check):
    env.reset()
    T = check.thorough
    R = refused.refusals()
    rnames = sorted(R)
    S, ecs = c20.scenes(lambda net=dom.BTC_MAIN: Meter(dom.bip(net)))
    check.extra["alphabet"] = {"refused": len(R), "others": len(S)}

    def calls(x):
        name, fn, setup = x.pick("call", [(n, lambda n=n: R[n](Meter(None)), None) for n in rnames] + [(c.name, c.fn, c.setup) for c in S], free=True)
        if setup:
            setup()
        measured(x, name, fn)
    check.add("calls", calls, 0, "%d accepted and rejected calls: derivations, random bytes, end" % (len(R) + len(S)))

    texts_ = texts()
    tnames = sorted(texts_)
    sizes = (1, 2, 3, 10, 33, 51, 52, 58, 75, 100, 1000) + ((300, 3000, 10000) if T else ())

    def lengths(x):
        """Longer texts take more steps by at most the square of how much longer they are."""
        name = x.pick("argument", tnames, free=True)
        v, fn = texts_[name]
        how = x.pick("text", HOW, free=True)
        counts = []
        for n in sizes:
            env.script.clear()
            counts.append((n, measured(x, "%s, %s to %d characters" % (name, how, n), fn, (grown(v, how, n),), (n,))))
        base = max(c for n, c in counts if n <= 100)
        for n, c in counts:
            if n > 100:
                x.check_that(c <= 50000 + 4 * base * (n / 100) ** 2, "%s, %r: %d characters take %d lines, up to 100 characters at most %d" % (name, how, n, c, base))
    check.add("lengths", lengths, 0, "every text argument, %d ways of growing it, up to %d characters" % (len(HOW), max(sizes)))

    # what the environment can answer without any call ever being right
    good = {"encrypt": lambda m: m.encrypt(ref.wif(KEY, True, 0x80), PW), "decrypt": lambda m: m.decrypt(ref.encrypt(KEY, True, PW, 0), PW)}
    plain = {}
    for tag, e in (("", scen.Ec(comp=True)), (" lot", scen.Ec(comp=False, lot=(263183, 1)))):
        good["intermediate" + tag] = lambda m, e=e: m.intermediate_code(PW, **e.lot_args)
        good["create" + tag] = lambda m, e=e: m.create_new_encrypted_wif(e.code)
        good["confirm" + tag] = lambda m, e=e: m.confirm_code(PW, e.created["confirmation_code"], None, True)
        good["decrypt EC" + tag] = lambda m, e=e: m.decrypt(e.created["encrypted_wif"], PW, None, True)
    kdfs = dom.uniq([bytes(64), b"\xff" * 64, b"\x80" * 64, ref.i2b(ref.N, 32) * 2, ref.i2b(ref.N - 1, 32) * 2, ref.i2b(1, 32) * 2, ref.i2b(ref.P, 32) * 2, bytes(range(64))] + [v * 2 for v in dom.BAD_SCALARS])
    rands = [lambda n: bytes(n), lambda n: b"\xff" * n, lambda n: b"\x80" * n, lambda n: bytes(range(n)), lambda n: b"", lambda n: b"\1" * (n + 1), lambda n: b"\1" * max(n - 1, 0), lambda n: b"\x80" + bytes(max(n - 1, 0))]

    def environment(x):
        """The same answer of key derivation and of the random source, for ever."""
        name = x.pick("operation", sorted(good), free=True)
        k = x.pick("derived", [None] + kdfs, free=True)
        k2 = x.pick("derived next", [None] + kdfs, free=True) if T else k
        i = x.pick("random", range(len(rands)), free=True)
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST, ("Zcash", "mainnet", 0x80, 0x1CB8)), free=True)
        env.rand_hook = rands[i]
        old = env.derive
        turn = [0]

        def answer(password, salt, n, r, p, length):
            turn[0] += 1
            v = k if turn[0] % 2 else k2
            return old(password, salt, n, r, p, length) if v is None else v[:length] + bytes(max(length - 64, 0))
        env.derive = answer
        try:
            measured(x, "%s, derived always %s, %s, random number %d" % (name, k and k.hex()[:8], k2 and k2.hex()[:8], i), good[name], (Meter(dom.bip(net)),), (net, k, k2, i))
        finally:
            env.derive = old
    check.add("environment", environment, 0, "one answer of key derivation (thorough: two in turn) and of the random source, for ever")

    def failing(x):
        """A primitive that fails every time it is asked, or every time from some point on, ends the call."""
        name = x.pick("operation", sorted(good), free=True)
        if name not in plain:
            kinds = []
            env.tap = kinds.append
            measured(x, name, good[name], (Meter(dom.bip(dom.BTC_MAIN)),), ())
            env.tap = None
            plain[name] = kinds
        kinds = plain[name]
        kind = x.pick("primitive", sorted(set(kinds)), free=True)
        exc = x.pick("failure", (ValueError, OSError, RuntimeError, TypeError, MemoryError, BlockingIOError, InterruptedError, TimeoutError, KeyError, NotImplementedError, AssertionError), free=True)
        at = x.pick("from call", range(min(kinds.count(kind), 6 if T else 3)), free=True)
        seen = [0]

        def tap(k):
            if k == kind:
                seen[0] += 1
                if seen[0] > at:
                    if seen[0] > at + 10000:
                        raise TooMuch()
                    raise exc("injected")
        env.tap = tap
        try:
            measured(x, "%s, %s failing for ever (%s) from call %d on" % (name, kind, exc.__name__, at), good[name], (Meter(dom.bip(dom.BTC_MAIN)),), (kind, exc.__name__, at))
        finally:
            env.tap = None
    check.add("failing", failing, 0, "each primitive failing for ever")

    # after any number of calls no more is kept than before
    w, A, C, L, sec = (env.mod(n) for n in ("wif", "p2pkh_address", "crypto", "libs.base58", "secp256k1"))
    e, l = scen.Ec(comp=True), scen.Ec(comp=False, lot=(263183, 1))
    k_ = lambda i: ref.i2b(ref.b2i(KEY) // 2 + i, 32)
    m = dom.bip(dom.BTC_MAIN)
    many = {  # name: (call with the argument number i)
        "encrypt": lambda i: m.encrypt(ref.wif(k_(i), bool(i & 1), 0x80), "pass %d" % i),
        "encrypt, passphrases": lambda i, t=ref.wif(KEY, True, 0x80): m.encrypt(t, "pass %d" % i),
        "intermediate": lambda i: m.intermediate_code("pass %d" % i, owner_salt=i.to_bytes(8, "big")),
        "intermediate, random": lambda i: m.intermediate_code("pass"),
        "intermediate, lots": lambda i: m.intermediate_code("pass", 100000 + i, i % 4096, i.to_bytes(8, "big")),
        "create": lambda i: m.create_new_encrypted_wif(e.code, "wif", i.to_bytes(24, "big")),
        "create, random": lambda i: m.create_new_encrypted_wif(l.code, "wif-compressed"),
        "confirm, wrong": lambda i: m.confirm_code("pass %d" % i, e.created["confirmation_code"]),
        "decrypt, wrong": lambda i, t=ref.encrypt(KEY, True, PW, 0): m.decrypt(t, "pass %d" % i),
        "decrypt EC, wrong": lambda i: m.decrypt(l.created["encrypted_wif"], "pass %d" % i),
        "decrypt, damaged": lambda i: m.decrypt("6P%d" % i, PW),
        "confirm, damaged": lambda i: m.confirm_code(PW, "cfrm%d" % i),
        "create, damaged": lambda i: m.create_new_encrypted_wif("passphrase%d" % i),
        "encrypt, damaged": lambda i: m.encrypt("5%d" % i, PW),
        "encrypt, networks": lambda i: m.encrypt(ref.wif(KEY, True, 0x80), PW, "net%d" % i),
        "right decryptions": lambda i, t=[(p, ref.encrypt(KEY, True, p, 0)) for p in ("a", "b", "c")]: m.decrypt(t[i % 3][1], t[i % 3][0], None, True),
        "right EC decryptions": lambda i, t=[scen.Ec(pw="p%d" % j, comp=True) for j in range(3)]: m.decrypt(t[i % 3].created["encrypted_wif"], t[i % 3].pw, None, True),
        "right confirmations": lambda i, t=[scen.Ec(pw="p%d" % j, lot=(100000 + j, j)) for j in range(3)]: m.confirm_code(t[i % 3].pw, t[i % 3].created["confirmation_code"], None, True),
        "instances": lambda i: env.bip38.BIP38(dom.cls("Bitcoin"), "testnet"),
        "instances refused": lambda i: env.bip38.BIP38(dom.cls("Bitcoin"), "net%d" % i),
        "classes": lambda i: env.bip38.BIP38(type("Own%d" % i, (env.mod("cryptocurrencies").ICryptocurrency,), {"NETWORKS": {"mainnet": {"wif_prefix": i % 256, "address_prefix": 7}}})),
        "encode_wif": lambda i: w.encode_wif(k_(i), i % 256), "decode_wif": lambda i: w.decode_wif(ref.wif(k_(i), True, 0x80)), "wif_to_private_key": lambda i: w.wif_to_private_key(ref.wif(k_(i), False, 0x80)),
        "private_key_to_wif": lambda i: w.private_key_to_wif(k_(i)), "private_key_to_wif, types": lambda i: w.private_key_to_wif(KEY, "wif%d" % i),
        "address": lambda i: A.P2PKHAddress.encode(sec.PrivateKey.from_bytes(k_(i)).public_key(), i % 256),
        "address decode": lambda i: A.P2PKHAddress.decode(ref.b58check(b"\0" + k_(i)[:20])),
        "hashes": lambda i: [f(k_(i)) for f in (C.sha256, C.double_sha256, C.ripemd160, C.hash160, C.get_checksum)],
        "base58": lambda i: (L.check_decode(L.check_encode(k_(i))), L.decode("%x" % i)),
        "keys": lambda i: sec.PublicKey.from_bytes(sec.PrivateKey.from_bytes(k_(i)).public_key().raw_compressed()).point().raw(),
        "points": lambda i: (sec.Point.from_bytes(ref.ser(ref.mul(7), True)) * (i + 2) + sec.G * (i + 3)).raw_encoded() if hasattr(sec, "G") else None,
        "keys refused": lambda i: sec.PrivateKey.from_bytes(b"x" * (i % 300 + 33)),
    }

    def kept(x):
        name = x.pick("call", sorted(many), free=True)
        fn = many[name]
        first, then, allowed = (2600, 2600, 600) if T else (1100, 500, 120)

        def run(sub):
            env.reset()


            def some(a, b):
                for i in range(a, b):
                    try:
                        fn(i)
                    except Exception:  # noqa: BLE001
                        pass
                gc.collect()
                return sys.getallocatedblocks()
            some(0, first)
            here = some(first, first + 50)
            there = some(first + 50, first + 50 + then)
            sub.observe(name, there - here > allowed)
            sub.check_that(there - here <= allowed, "%s: after %d calls %d more do not return %d blocks of memory" % (name, first + 50, then, there - here))
        iso.isolated(x, run)
    check.add("kept", kept, 0, "hundreds of different calls of each kind keep no memory")
