"""C20: secrets in nothing but the results they belong to: error texts and chains, standard streams, logs, warnings, files."""
import base64
import io
import logging
import os
import sys
import warnings

from vf import dom, env, ref, scen

TAPS = True
PW = "Zq7#vXw2!Kd9@Jm4$Ht6\u00e9%Rb8"
OTHER_PW = "yU3&gN5*fL1(eS0)cP8-aO2\u00f8+"
# forms of a passphrase that code could comment on
ODD = {"decomposed": "Hj4^bN6_e\u0301Gt9/o\u0308Wq2-Vk5", "compatibility": "Mf8;\ufb01Rx3,\uff21Cp7=\u2460Ly1", "blanks": "  Dz6:Sn4>Pw8<\t", "line end": "Xb5?Ek9]Uf2[\n", "controls": "Qc3}\0Jr7{\x1bTg5`\x7f",
       "long": "Yh1~Wm6*" * 12 + "Oa8'", "astral": "Iu4\"\U0001f4a9Ke2.\U00010400Bs9)", "bom": "\ufeffNd7(Vq3\u200bFt6\u202e"}
KEY = dom.rnd("c20 key", 32)
SEED = dom.rnd("c20 seed", 24)
SALT = dom.rnd("c20 salt", 8)
LOT = (263183, 1)


# ------------------------------------------------------------------ what must not be seen
class Needles:
    def __init__(self):
        self.plain, self.windows = [], {}
        self.names = set()

    def text(self, name, t, n=8):
        if len(t) < n:
            return
        self.names.add(name)
        for i in range(len(t) - n + 1):
            self.windows.setdefault(n, {})[t[i:i + n]] = name
            self.plain.append((ascii(t[i:i + n])[1:-1], name))
        self.raw(name, t.encode("utf-8", "surrogatepass"))

    def raw(self, name, b, n=6):
        """These bytes in hex (either case, either order), as a bytes literal, a list of numbers, an integer, Base58 or Base64."""
        if len(b) < 8:
            return
        self.names.add(name)
        for v in (b, b[::-1]):
            h = v.hex()
            for i in range(len(h) - 2 * n + 1):
                self.windows.setdefault(2 * n, {})[h[i:i + 2 * n]] = name
        for i in range(len(b) - n + 1):
            w = b[i:i + n]
            self.plain += [(repr(w)[2:-1], name), (", ".join(map(str, w)), name)]
            self.windows.setdefault(n, {})[w.decode("latin-1")] = name
        for part in (b, b[:16], b[16:], b[:8]):
            if len(part) >= 8:
                self.plain += [(str(int.from_bytes(part, "big")), name), (str(int.from_bytes(part, "little")), name),
                               (ref.b58enc(part), name), (base64.b64encode(part).decode()[:20], name)]

    def find(self, t):
        """-> the name of a secret seen in t, or None"""
        for n, table in self.windows.items():
            for s in (t, t.lower()):
                for i in range(len(s) - n + 1):
                    if s[i:i + n] in table:
                        return table[s[i:i + n]]
        for p, name in self.plain:
            if p in t:
                return name
        return None


# ------------------------------------------------------------------ everything that leaves the process
class Outside:
    """Records what a call writes, and where."""
    pid = None

    def setup(self):
        if self.pid == os.getpid():
            return
        first = self.pid is None
        self.pid = os.getpid()
        self.fd = os.memfd_create("vf-out")
        os.dup2(self.fd, 1)
        os.dup2(self.fd, 2)
        self.on, self.seen = False, []
        if first:
            sys.addaudithook(self.audit)

    def audit(self, event, args):
        if not self.on:
            return
        if event == "open":
            path, mode, flags = (tuple(args) + (None, None, None))[:3]
            if (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                self.seen.append(("file", repr(path)))
        elif event in ("os.putenv", "os.rename", "os.mkdir", "os.link", "os.symlink", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "subprocess.Popen",
                       "socket.connect", "socket.sendto", "socket.sendmsg", "os.setxattr", "syslog.syslog", "sqlite3.connect", "shutil.copyfile"):
            self.seen.append((event, repr(args)))

    def watch(self, fn, *args, **kw):
        """-> (value, error, [(where, text)])"""
        self.setup()
        self.seen = []
        os.ftruncate(self.fd, 0)
        old = sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__
        sys.stdout = sys.__stdout__ = _Stream(self, "standard output")
        sys.stderr = sys.__stderr__ = _Stream(self, "standard error")
        root = logging.getLogger()
        level, handle, last = root.level, logging.Logger.handle, logging.raiseExceptions
        disabled = logging.root.manager.disable
        seen = self.seen

        def record(logger, rec):
            try:
                text = rec.getMessage() + " " + repr(rec.args)
            except Exception:  # noqa: BLE001
                text = repr(rec.msg) + repr(rec.args)
            if rec.exc_info and rec.exc_info[1] is not None:
                text += " " + " ".join(texts(rec.exc_info[1]))
            seen.append(("log", text))
        logging.Logger.handle = record
        root.setLevel(1)
        value = error = None
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                self.on = True
                try:
                    value = fn(*args, **kw)
                except Exception as e:  # noqa: BLE001
                    error = e
                finally:
                    self.on = False
            for w in caught:
                self.seen.append(("warning", str(w.message)))
        finally:
            logging.Logger.handle = handle
            root.setLevel(level)
            logging.raiseExceptions = last
            logging.root.manager.disable = disabled
            sys.stdout, sys.stderr, sys.__stdout__, sys.__stderr__ = old
        size = os.fstat(self.fd).st_size
        if size:
            self.seen.append(("standard output or error", os.pread(self.fd, 4096, 0).decode("latin-1")))
        return value, error, list(self.seen)


class _Stream(io.TextIOBase):
    def __init__(self, out, name):
        self.out, self.name_ = out, name
        self.buffer = self

    def write(self, t):
        if t:
            self.out.seen.append((self.name_, t if isinstance(t, str) else repr(t)))
        return len(t)

    def fileno(self):
        return 1

    def flush(self):
        pass


OUT = Outside()


def texts(e, library=None):
    """What is printed of an error and of all the errors it is chained to."""
    out, todo, done = [], [e], []
    while todo:
        e = todo.pop()
        if e is None or any(e is d for d in done):
            continue
        done.append(e)
        out.append(str(e))
        out += [str(n) for n in getattr(e, "__notes__", ())]
        if library and isinstance(e, library):
            out += [repr(e), repr(e.args), repr(getattr(e, "__dict__", {}))]
        elif not isinstance(e, UnicodeError):  # Python itself keeps the text it could not encode in the error's arguments
            out.append(repr(e))
        todo += [e.__cause__, e.__context__]
        todo += list(getattr(e, "exceptions", ()))
    return out


# ------------------------------------------------------------------ the calls
MADE = []  # the instances the call was made on


def held(b):
    """All that can be read of an instance: how it is printed, and the data in its attributes."""
    own = dict(getattr(b, "__dict__", {}))
    for c in type(b).__mro__:
        if c.__module__.split(".")[0] == "bip38":
            slots = c.__dict__.get("__slots__", ())
            own.update((n, getattr(b, n, None)) for n in ([slots] if isinstance(slots, str) else slots))
            own.update(("class " + n, v) for n, v in c.__dict__.items() if not n.startswith("__") and not callable(v) and not hasattr(v, "__get__"))
    return [repr(b), str(b)] + ["%s = %r" % (n, v) for n, v in own.items()]


class Scene:
    def __init__(self, name, fn, public=(), ok=False, setup=None, result_secrets=("passphrase", "private key", "pass factor", "derived key")):
        self.name, self.fn, self.public, self.ok, self.setup, self.result_secrets = name, fn, public, ok, setup, result_secrets


def secrets(extra_keys=(), net=dom.BTC_MAIN):
    n = Needles()
    for p in (PW, OTHER_PW):
        n.text("passphrase", p, 6)
        n.raw("passphrase", ref.norm(p))
    for p in ODD.values():
        n.text("passphrase", p, 6)
        n.raw("passphrase", ref.norm(p))
    keys = [KEY] + list(extra_keys)
    for k in keys:
        n.raw("private key", k)
        for prefix in (net[2], 0x80, 0xEF):
            for c in (False, True):
                n.text("WIF", ref.wif(k, c, prefix))
    n.raw("seed", SEED)
    n.raw("factor", ref.dsha(SEED))
    return n


def scenes(B=lambda net=dom.BTC_MAIN: MADE.append(dom.bip(net)) or MADE[-1]):
    """B: makes the instance a call is made on"""
    m, t = dom.BTC_MAIN, dom.BTC_TEST
    s = []
    ecs = {}
    for lot in (None, LOT):
        for comp in (False, True):
            ecs[lot, comp] = scen.Ec(comp=comp, lot=lot, pw=PW, salt=SALT, seed=SEED)
    w, sec, addr = env.mod("wif"), env.mod("secp256k1"), env.mod("p2pkh_address").P2PKHAddress
    wifs = {c: ref.wif(KEY, c, 0x80) for c in (False, True)}
    codes = {c: ref.encrypt(KEY, c, PW, 0) for c in (False, True)}
    bad = ref.i2b(ref.N, 32)

    def damaged(text):
        return [("last", text[:-1] + ("1" if text[-1] != "1" else "2")), ("middle", text[:20] + ("q" if text[20] != "q" else "r") + text[21:]), ("short", text[:-1]),
                ("long", text + "1"), ("double", text + text), ("space", text + " "), ("foreign", text[:9] + "0" + text[10:]), ("nonascii", text[:9] + "\u00e9" + text[10:]),
                ("newline", "\n" + text), ("start", text[1:]), ("surrogate", text[:30] + "\udc80"), ("bytes", text.encode() + b"\xff"), ("quoted", "'%s'" % text)]
    for c in (False, True):
        s.append(Scene("encrypt %d" % c, lambda c=c: B().encrypt(wifs[c], PW), ok=True))
        s.append(Scene("decrypt %d" % c, lambda c=c: B().decrypt(codes[c], PW), ok=True, result_secrets=("passphrase", "derived key")))
        s.append(Scene("decrypt detail %d" % c, lambda c=c: B().decrypt(codes[c], PW, None, True), ok=True, result_secrets=("passphrase", "derived key")))
        s.append(Scene("decrypt wrong %d" % c, lambda c=c: B().decrypt(codes[c], OTHER_PW)))
        s.append(Scene("decrypt other network %d" % c, lambda c=c: B().decrypt(codes[c], PW, "testnet")))
        s.append(Scene("decrypt unknown network %d" % c, lambda c=c: B().decrypt(codes[c], PW, "simnet")))
        s.append(Scene("encrypt unknown network %d" % c, lambda c=c: B().encrypt(wifs[c], PW, "simnet")))
        s.append(Scene("encrypt other network %d" % c, lambda c=c: B().encrypt(wifs[c], PW, "testnet")))
        s.append(Scene("encrypt swapped arguments %d" % c, lambda c=c: B().encrypt(PW, wifs[c])))
        s.append(Scene("decrypt swapped arguments %d" % c, lambda c=c: B().decrypt(PW, codes[c])))
        s.append(Scene("decrypt of a WIF %d" % c, lambda c=c: B().decrypt(wifs[c], PW)))
        s.append(Scene("confirm of a WIF %d" % c, lambda c=c: B().confirm_code(PW, wifs[c])))
        s.append(Scene("create from a WIF %d" % c, lambda c=c: B().create_new_encrypted_wif(wifs[c], "wif", SEED)))
        s.append(Scene("WIF as type %d" % c, lambda c=c: w.private_key_to_wif(wifs[c], "wif")))
        s.append(Scene("WIF as key %d" % c, lambda c=c: w.encode_wif(wifs[c])))
        for how, text in damaged(wifs[c]):
            s.append(Scene("encrypt damaged %s %d" % (how, c), lambda text=text: B().encrypt(text, PW)))
            for f in ("decode_wif", "wif_to_private_key", "get_wif_type", "get_wif_checksum"):
                s.append(Scene("%s damaged %s %d" % (f, how, c), lambda text=text, f=f: getattr(w, f)(text)))
        for f in ("decode_wif", "wif_to_private_key"):
            s.append(Scene("%s %d" % (f, c), lambda c=c, f=f: getattr(w, f)(wifs[c]), ok=True, result_secrets=("passphrase",)))
            s.append(Scene("%s other prefix %d" % (f, c), lambda c=c, f=f: w.decode_wif(wifs[c], 0xEF) if f == "decode_wif" else w.wif_to_private_key(wifs[c], network="testnet")))
        for f in ("get_wif_type", "get_wif_checksum"):
            s.append(Scene("%s %d" % (f, c), lambda c=c, f=f: getattr(w, f)(wifs[c]), ok=True))
        suffix = ref.b58check(b"\x80" + KEY + b"\x02")
        s.append(Scene("WIF with another suffix %d" % c, lambda t=suffix: B().encrypt(t, PW)))
        s.append(Scene("WIF with a long key %d" % c, lambda: B().encrypt(ref.b58check(b"\x80" + KEY + b"\1\1"), PW)))
        s.append(Scene("WIF with a short key %d" % c, lambda: B().encrypt(ref.b58check(b"\x80" + KEY[:31]), PW)))
        s.append(Scene("WIF without a prefix %d" % c, lambda: B().encrypt(ref.b58check(KEY), PW)))
        s.append(Scene("WIF out of range %d" % c, lambda c=c: B().encrypt(ref.wif(bad, c, 0x80), PW)))
        for how, text in damaged(codes[c]):
            s.append(Scene("decrypt damaged %s %d" % (how, c), lambda text=text: B().decrypt(text, PW)))
        raw = ref.b58undo(codes[c])
        for how, payload in (("flag", raw[:2] + b"\x11" + raw[3:]), ("prefix", b"\1\x44" + raw[2:]), ("hash", raw[:3] + b"\0\0\0\0" + raw[7:]), ("to EC", b"\1\x43" + raw[2:]),
                             ("ciphertext", raw[:-1] + bytes([raw[-1] ^ 1]))):
            s.append(Scene("decrypt other %s %d" % (how, c), lambda t=ref.b58check(payload): B().decrypt(t, PW)))

        def invalid(c=c):
            h = dom.kdf_noec(KEY, c, PW, 0)
            k = env.key_of(ref.norm(PW), h, 16384, 8, 8)
            d = env.script[k]
            raw = ref.b58undo(codes[c])
            blocks = ref.aes_dec(d[32:], raw[7:23]) + ref.aes_dec(d[32:], raw[23:39])
            env.script[k] = ref.xor(blocks, bad) + d[32:]
        s.append(Scene("decrypt to an invalid key %d" % c, lambda c=c: B().decrypt(codes[c], PW), setup=invalid))
    for (lot, c), e in ecs.items():
        tag = "%d%d" % (lot is not None, c)
        kw = e.lot_args
        s.append(Scene("intermediate " + tag, lambda kw=kw: B().intermediate_code(PW, owner_salt=SALT, **kw), ok=True))
        s.append(Scene("intermediate random " + tag, lambda kw=kw: B().intermediate_code(PW, **kw), ok=True))
        s.append(Scene("create " + tag, lambda e=e, c=c: B().create_new_encrypted_wif(e.code, e.wif_type, SEED), ok=True))
        s.append(Scene("create hex " + tag, lambda e=e, c=c: B().create_new_encrypted_wif(e.code, e.wif_type, SEED.hex()), ok=True))
        s.append(Scene("create random " + tag, lambda e=e, c=c: B().create_new_encrypted_wif(e.code, e.wif_type), ok=True))
        s.append(Scene("confirm " + tag, lambda e=e: B().confirm_code(PW, e.created["confirmation_code"]), ok=True))
        s.append(Scene("confirm detail " + tag, lambda e=e: B().confirm_code(PW, e.created["confirmation_code"], None, True), ok=True))
        s.append(Scene("decrypt EC " + tag, lambda e=e: B().decrypt(e.created["encrypted_wif"], PW), ok=True, result_secrets=("passphrase", "pass factor", "derived key")))
        s.append(Scene("decrypt EC detail " + tag, lambda e=e: B().decrypt(e.created["encrypted_wif"], PW, None, True), ok=True,
                       result_secrets=("passphrase", "pass factor", "derived key")))
        s.append(Scene("confirm wrong " + tag, lambda e=e: B().confirm_code(OTHER_PW, e.created["confirmation_code"])))
        s.append(Scene("decrypt EC wrong " + tag, lambda e=e: B().decrypt(e.created["encrypted_wif"], OTHER_PW)))
        s.append(Scene("confirm other network " + tag, lambda e=e: B().confirm_code(PW, e.created["confirmation_code"], "testnet")))
        s.append(Scene("decrypt EC other network " + tag, lambda e=e: B().decrypt(e.created["encrypted_wif"], PW, "testnet")))
        s.append(Scene("confirm swapped arguments " + tag, lambda e=e: B().confirm_code(e.created["confirmation_code"], PW)))
        s.append(Scene("create from a passphrase " + tag, lambda: B().create_new_encrypted_wif(PW, "wif", SEED)))
        s.append(Scene("create, seed as type " + tag, lambda e=e: B().create_new_encrypted_wif(e.code, "wif_compressed", SEED)))
        s.append(Scene("create, unknown network " + tag, lambda e=e: B().create_new_encrypted_wif(e.code, "wif", SEED, "simnet")))
        for how, seed in (("short", SEED[:23]), ("long", SEED + b"\1"), ("double", SEED * 2), ("16", SEED[:16]), ("hex short", SEED.hex()[:-2]), ("hex odd", SEED.hex()[:-1]),
                          ("not hex", SEED.hex()[:-1] + "g"), ("in text", "seed:" + SEED.hex()), ("bytearray", bytearray(SEED)), ("list", list(SEED)), ("int", int(SEED.hex(), 16)),
                          ("hex of bytes", SEED.hex().encode())):
            s.append(Scene("create, seed %s %s" % (how, tag), lambda e=e, seed=seed: B().create_new_encrypted_wif(e.code, "wif", seed)))
        for how, text in damaged(e.code):
            s.append(Scene("create damaged %s %s" % (how, tag), lambda text=text: B().create_new_encrypted_wif(text, "wif", SEED)))
        for how, text in damaged(e.created["confirmation_code"]):
            s.append(Scene("confirm damaged %s %s" % (how, tag), lambda text=text: B().confirm_code(PW, text)))
        for how, text in damaged(e.created["encrypted_wif"]):
            s.append(Scene("decrypt EC damaged %s %s" % (how, tag), lambda text=text: B().decrypt(text, PW)))
        for kind, text in (("confirm", e.created["confirmation_code"]), ("decrypt", e.created["encrypted_wif"])):
            raw = ref.b58undo(text)
            at = 5 if kind == "confirm" else 2
            for how, payload in (("flag", raw[:at] + b"\x11" + raw[at + 1:]), ("hash", raw[:at + 1] + b"\0\0\0\0" + raw[at + 5:]), ("ciphertext", raw[:-1] + bytes([raw[-1] ^ 1])),
                                 ("first byte", b"\2" + raw[1:])):
                t_ = ref.b58check(payload)
                fn = (lambda t_=t_: B().confirm_code(PW, t_)) if kind == "confirm" else (lambda t_=t_: B().decrypt(t_, PW))
                s.append(Scene("%s other %s %s" % (kind, how, tag), fn))
        raw = ref.b58undo(e.code)
        for how, payload in (("magic", raw[:7] + b"\x52" + raw[8:]), ("point", raw[:16] + b"\4" + raw[17:]), ("point x", raw[:17] + b"\xff" * 32)):
            s.append(Scene("create other %s %s" % (how, tag), lambda t_=ref.b58check(payload): B().create_new_encrypted_wif(t_, "wif", SEED)))
        if lot is None:
            for v in dom.BAD_SCALARS:
                def scripted(e=e, v=v):
                    dom.kdf_owner(PW, e.oe, False, v)
                s.append(Scene("pass factor out of range, intermediate", lambda: B().intermediate_code(PW, owner_salt=SALT), setup=scripted))
                s.append(Scene("pass factor out of range, confirm", lambda e=e: B().confirm_code(PW, e.created["confirmation_code"]), setup=scripted))
                s.append(Scene("pass factor out of range, decrypt", lambda e=e: B().decrypt(e.created["encrypted_wif"], PW), setup=scripted))
    for how, pw in (("surrogate", PW + "\ud800"), ("bytes", PW.encode()), ("list", [PW]), ("bytearray", bytearray(PW.encode()))):
        s.append(Scene("intermediate, passphrase as %s" % how, lambda pw=pw: B().intermediate_code(pw, owner_salt=SALT)))
        s.append(Scene("encrypt, passphrase as %s" % how, lambda pw=pw: B().encrypt(wifs[True], pw)))
        s.append(Scene("decrypt, passphrase as %s" % how, lambda pw=pw: B().decrypt(codes[True], pw)))
        s.append(Scene("decrypt EC, passphrase as %s" % how, lambda pw=pw: B().decrypt(ecs[LOT, True].created["encrypted_wif"], pw)))
        s.append(Scene("confirm, passphrase as %s" % how, lambda pw=pw: B().confirm_code(pw, ecs[LOT, True].created["confirmation_code"])))
    for how, kw in (("lot only", dict(lot=100000)), ("sequence only", dict(sequence=1)), ("lot too small", dict(lot=1, sequence=1)), ("sequence too big", dict(lot=100000, sequence=4096)),
                    ("lot not a number", dict(lot="x", sequence=1)), ("salt short", dict(owner_salt=b"1234567")), ("salt of four", dict(owner_salt=b"1234")),
                    ("salt not hex", dict(owner_salt="g" * 16)), ("salt a number", dict(owner_salt=5)), ("passphrase as salt", dict(owner_salt=PW))):
        s.append(Scene("intermediate, " + how, lambda kw=kw: B().intermediate_code(PW, **kw)))
    for how, k in (("short", KEY[:31]), ("long", KEY + b"\1"), ("hex short", KEY.hex()[:-2]), ("hex odd", KEY.hex()[:-1]), ("not hex", KEY.hex()[:-1] + "g"), ("0x", "0x" + KEY.hex()),
                   ("hex of hex", KEY.hex().encode()), ("33", b"\0" + KEY), ("N+", ref.i2b(ref.N + ref.b2i(KEY) % 2**120, 32)), ("list", list(KEY)), ("number", ref.b2i(KEY)),
                   ("bytearray", bytearray(KEY)), ("half", KEY[:16])):
        for f in ("encode_wif", "private_key_to_wif"):
            s.append(Scene("%s, key %s" % (f, how), lambda k=k, f=f: getattr(w, f)(k)))
        s.append(Scene("private_key_to_wif, compressed, key %s" % how, lambda k=k: w.private_key_to_wif(k, "wif-compressed")))
        s.append(Scene("private_key_to_wif, bad type, key %s" % how, lambda k=k: w.private_key_to_wif(k, "WIF")))
        s.append(Scene("PrivateKey, key %s" % how, lambda k=k: sec.PrivateKey.from_bytes(k), ))
    for how, pw in sorted(ODD.items()) + [("passphrase %d" % i, p) for i, p in enumerate(dom.PASSPHRASES)]:
        s.append(Scene("intermediate, " + how, lambda pw=pw: B().intermediate_code(pw, owner_salt=SALT), ok=True))
        s.append(Scene("intermediate with lot, " + how, lambda pw=pw: B().intermediate_code(pw, *LOT, SALT), ok=True))
        s.append(Scene("encrypt, " + how, lambda pw=pw: B().encrypt(wifs[True], pw), ok=True))
        s.append(Scene("decrypt, wrong " + how, lambda pw=pw: B().decrypt(codes[True], pw)))
        s.append(Scene("decrypt EC, wrong " + how, lambda pw=pw: B().decrypt(ecs[LOT, True].created["encrypted_wif"], pw)))
        s.append(Scene("confirm, wrong " + how, lambda pw=pw: B().confirm_code(pw, ecs[None, True].created["confirmation_code"])))
    for how, pw in sorted(ODD.items()):
        for lot in (None, LOT):
            e = scen.Ec(comp=True, lot=lot, pw=pw, salt=SALT, seed=SEED)
            s.append(Scene("confirm, %s, %s" % (how, lot), lambda e=e: B().confirm_code(e.pw, e.created["confirmation_code"]), ok=True))
            s.append(Scene("decrypt EC, %s, %s" % (how, lot), lambda e=e: B().decrypt(e.created["encrypted_wif"], e.pw), ok=True, result_secrets=("passphrase", "derived key")))
        s.append(Scene("decrypt, " + how, lambda pw=pw: B().decrypt(ref.encrypt(KEY, True, pw, 0), pw), ok=True, result_secrets=("passphrase", "derived key")))
    for net in (t, ("Dogecoin", "mainnet", 0xF1, 0x1E), ("Zcash", "mainnet", 0x80, 0x1CB8), ("Ripple", "mainnet", 0x80, 0x00)):
        for c in (False, True):
            tag = "%s %s %d" % (net[0], net[1], c)
            s.append(Scene("encrypt " + tag, lambda net=net, c=c: B(net).encrypt(ref.wif(KEY, c, net[2]), PW), ok=True))
            s.append(Scene("decrypt " + tag, lambda net=net, c=c: B(net).decrypt(ref.encrypt(KEY, c, PW, net[3]), PW), ok=True, result_secrets=("passphrase", "derived key")))
            s.append(Scene("decrypt wrong " + tag, lambda net=net, c=c: B(net).decrypt(ref.encrypt(KEY, c, PW, net[3]), OTHER_PW)))
            e = ecs[LOT, c]
            s.append(Scene("create " + tag, lambda e=e, net=net: B(net).create_new_encrypted_wif(e.code, e.wif_type, SEED), ok=True))
            s.append(Scene("encrypt foreign " + tag, lambda net=net, c=c: B(net).encrypt(ref.wif(KEY, c, net[2] ^ 1), PW)))
    for f in ("encode_wif", "private_key_to_wif"):
        s.append(Scene(f, lambda f=f: getattr(w, f)(KEY), ok=True, result_secrets=("passphrase",)))
    s.append(Scene("public key", lambda: sec.PrivateKey.from_bytes(KEY).public_key().raw_compressed(), ok=True))
    s.append(Scene("address", lambda: addr.encode(sec.PrivateKey.from_bytes(KEY).public_key()), ok=True))
    s.append(Scene("address of a private key", lambda: addr.encode(KEY)))
    s.append(Scene("address of a private key in hex", lambda: addr.encode(KEY.hex())))
    s.append(Scene("decode a WIF as an address", lambda: addr.decode(wifs[True])))
    s.append(Scene("public key of a private key", lambda: sec.PublicKey.from_bytes(KEY)))
    names = {}
    for c in s:
        names[c.name] = names.get(c.name, 0) + 1
        if names[c.name] > 1:
            c.name += " (%d)" % names[c.name]
    return s, ecs


def build(check):
    env.reset()
    T = check.thorough
    all_scenes, ecs = scenes()
    main = [c for c in all_scenes if ", passphrase " not in c.name and ", wrong passphrase " not in c.name]
    by_name = {c.name: c for c in all_scenes}
    base = secrets([e.key for e in ecs.values()])
    for e in ecs.values():
        base.raw("pass factor", e.pf)
        # what encrypting it used
        for k in (ref.kdf(ref.ser(e.pass_point, True), e.hash + e.oe, 1024, 1, 1, 64),):
            base.raw("derived key", k[:32])
            base.raw("derived key", k[32:])
        for p in (PW, OTHER_PW):
            pre = ref.kdf(ref.norm(p), e.oe[:4] if e.has_lot else e.oe, 16384, 8, 8, 32)
            base.raw("pass factor", pre)
            base.raw("pass factor", ref.pass_factor(p, e.oe, e.has_lot))
            base.raw("private key", ref.i2b(ref.b2i(ref.pass_factor(p, e.oe, e.has_lot)) * ref.b2i(ref.dsha(SEED)) % ref.N, 32))
    wanted = {}

    def guarded(x, scene, tap=None, note=""):
        env.reset()
        env.rand_hook = lambda n: dom.rnd("c20 random", n)
        if scene.setup:
            scene.setup()
        log = env.kdf_log = []
        env.tap = tap
        MADE.clear()
        value, error, outside = OUT.watch(scene.fn)
        env.tap = None
        made = MADE[:]
        x.note(scene.name + note, (), {}, _Seen(value, error))
        what = scene.name + note
        # what leaves the process
        for where, text in outside:
            x.fail("%s: wrote to %s: %s" % (what, where, text[:200]))
        # what the key derivation gave in this call is secret as well
        derived = Needles()
        for password, salt, n, r, p, length in log:
            d = env.derive(password, salt, n, r, p, length)
            for part in (d[:32], d[32:]):
                if part not in dom.BAD_SCALARS:  # no secret: the group order and the like
                    derived.raw("derived key", part)
        env.kdf_log = None
        for b in made:
            for t in held(b):
                for n in (base, derived):
                    hit = n.find(t)
                    x.check_that(hit is None, "%s: afterwards the instance holds the %s: %s" % (what, hit, t[:300]))
        if error is not None:
            for t in texts(error, env.mod("exceptions").Error):
                for n in (base, derived):
                    hit = n.find(t)
                    x.check_that(hit is None, "%s: the %s is in what %s says: %s" % (what, hit, type(error).__name__, t[:300]))
            return error
        if scene.ok:
            shown = repr(value)
            for n in (base, derived):
                hit = n.find(shown)
                x.check_that(hit not in scene.result_secrets, "%s: the %s is in the result %s" % (what, hit, shown[:300]))
            codes = [value] if isinstance(value, str) else [v for k, v in value.items() if k in ("encrypted_wif", "confirmation_code")] if isinstance(value, dict) else []
            for c in codes:
                if not isinstance(c, str) or "passphrase" == c or not c.startswith(("6P", "cfrm", "passphrase")):
                    continue
                try:
                    payload = ref.b58undo(c)
                except ref.Reject:
                    continue
                inside = payload.hex() + " " + payload.decode("latin-1")
                for n in (base, derived):
                    hit = n.find(inside)
                    x.check_that(hit is None, "%s: the %s is inside %s" % (what, hit, c))
        return None

    def calls(x):
        scene = x.pick("call", all_scenes, free=True)
        guarded(x, scene)
    check.add("calls", calls, 0, "%d accepted and rejected calls" % len(all_scenes))

    def sequence(x):
        """A failure must not put the earlier call's secrets into what comes later."""
        first = x.pick("first", [by_name[n] for n in picks], free=True)
        second = x.pick("second", [by_name[n] for n in picks], free=True)
        guarded(x, first)
        guarded(x, second, note=" after " + first.name)
    picks = [c.name for c in main if c.ok or "wrong" in c.name or "damaged last" in c.name or "out of range" in c.name or "seed short" in c.name or "key short" in c.name]
    picks = picks[::1 if T else 3]
    check.add("pairs", sequence, 0, "pairs of calls")

    def faults(x):
        """A primitive fails in the middle of the operation."""
        from checks import c17
        scene = x.pick("call", [c for c in main if c.ok or "wrong" in c.name], free=True)
        if scene.name not in wanted:
            kinds = []
            env.tap = kinds.append
            if scene.setup:
                scene.setup()
            try:
                scene.fn()
            except Exception:  # noqa: BLE001
                pass
            env.tap = None
            wanted[scene.name] = kinds
        kinds = wanted[scene.name]
        if not kinds:
            x.observe("no primitive")
            return
        at = x.pick("primitive call", range(len(kinds)), free=True)
        exc = x.pick("failure", c17.kinds_of(kinds[at]), free=True)
        count = [0]

        def tap(k):
            n = count[0]
            count[0] += 1
            if n == at:
                raise exc("injected") if exc is not NotImplementedError else exc()
        guarded(x, scene, tap, " with %s (call %d of a primitive) failing (%s)" % (kinds[at], at, exc.__name__))
    check.add("faults", faults, 0, "each primitive failing in turn")

    def typing(x):
        """Every way to mistype a WIF or a code by one character: what the error says."""
        which = x.pick("text", ("wif", "compressed wif", "key hex", "passphrase-derived key"), free=True)
        text = {"wif": ref.wif(KEY, False, 0x80), "compressed wif": ref.wif(KEY, True, 0x80), "key hex": KEY.hex(), "passphrase-derived key": ecs[None, True].key.hex()}[which]
        at = x.pick("place", range(len(text)), free=True)
        options = [text[:at] + c + text[at + 1:] for c in ("1", "z", "0", " ", "\u00e9", "")] + [text[:at] + "2" + text[at:], text[:at], text[at:], text[:at] + text[at:].swapcase()]
        for i, v in enumerate(options):
            for f in (lambda: dom.bip(dom.BTC_MAIN).encrypt(v, PW), lambda: env.mod("wif").decode_wif(v), lambda: env.mod("wif").encode_wif(v),
                      lambda: env.mod("wif").private_key_to_wif(v, "wif-compressed")):
                guarded(x, Scene("mistyped %s, place %d, %d" % (which, at, i), f))
    check.add("mistyped", typing, 0, "WIFs and keys mistyped at every place")


class _Seen:
    def __init__(self, value, error):
        self.error, self.value = error, value

    def key(self):
        return ("raise", type(self.error).__name__) if self.error is not None else ("value", repr(self.value))

    def __repr__(self):
        return repr(self.error) if self.error is not None else repr(self.value)
