"""C14: histories of calls: each call returns what it returns in a fresh process."""
import copy
import pickle

from vf import dom, env, explore, iso, ref, refused, scen

PW = dom.BASE_PASS


class World:
    """The instances a caller holds."""

    def __init__(self):
        self.held = {}

    def b(self, coin="Bitcoin", network="mainnet"):
        if (coin, network) not in self.held:
            self.held[coin, network] = env.bip38.BIP38(dom.cls(coin), network)
        return self.held[coin, network]


def artefacts():
    """Inputs of the calls, from the model."""
    a = {}
    for comp in (False, True):
        for net, tag in ((dom.BTC_MAIN, "m"), (dom.BTC_TEST, "t")):
            a["wif", comp, tag] = ref.wif(dom.BASE_KEY, comp, net[2])
            a["enc", comp, tag] = ref.encrypt(dom.BASE_KEY, comp, PW, net[3])
            for lot in (None, (263183, 1), (263183, 2), (100000, 1)):
                s = scen.Ec(net=net, comp=comp, lot=lot)
                a["code", lot] = s.code
                a["ec", comp, tag, lot] = s.created["encrypted_wif"]
                a["cfrm", comp, tag, lot] = s.created["confirmation_code"]
    return a


def kinds(a):
    """Calls of every kind, succeeding and failing. -> {name: function of the world}; names starting with ~ have random inputs"""
    lot = (263183, 1)
    K = {}
    K["encrypt"] = lambda w: w.b().encrypt(a["wif", False, "m"], PW)
    K["encrypt testnet by call"] = lambda w: w.b().encrypt(a["wif", True, "t"], PW, network="testnet")
    K["encrypt on testnet instance"] = lambda w: w.b(network="testnet").encrypt(a["wif", False, "t"], "other passphrase")
    K["encrypt Dogecoin"] = lambda w: w.b("Dogecoin").encrypt(ref.wif(dom.BASE_KEY, True, 0xF1), PW)
    K["encrypt Ripple"] = lambda w: w.b("Ripple").encrypt(ref.wif(dom.BASE_KEY, True, 0x80), PW)
    K["instance on an unknown network"] = lambda w: env.bip38.BIP38(dom.cls("Litecoin"), "regtest")
    K["encrypt foreign WIF"] = lambda w: w.b().encrypt(a["wif", True, "t"], PW)
    K["decrypt detail"] = lambda w: w.b().decrypt(a["enc", True, "m"], PW, detail=True)
    K["decrypt wrong passphrase"] = lambda w: w.b().decrypt(a["enc", True, "m"], "wrong")
    K["decrypt damaged"] = lambda w: w.b().decrypt(a["enc", True, "m"][:-1] + "1", PW)
    K["decrypt testnet by call"] = lambda w: w.b().decrypt(a["enc", True, "t"], PW, network="testnet")
    K["decrypt EC lot detail"] = lambda w: w.b().decrypt(a["ec", False, "m", lot], PW, detail=True)
    K["decrypt EC detail"] = lambda w: w.b().decrypt(a["ec", True, "m", None], PW, detail=True)
    K["intermediate lot"] = lambda w: w.b().intermediate_code(PW, 263183, 1, dom.BASE_SALT)
    K["intermediate"] = lambda w: w.b().intermediate_code(PW, owner_salt=dom.BASE_SALT.hex())
    K["intermediate bad lot"] = lambda w: env.bip38.BIP38.intermediate_code(PW, 99999, 1, dom.BASE_SALT)
    K["create compressed"] = lambda w: w.b().create_new_encrypted_wif(a["code", lot], "wif-compressed", dom.BASE_SEED)
    K["create testnet by call"] = lambda w: w.b().create_new_encrypted_wif(a["code", None], "wif", dom.BASE_SEED.hex(), "testnet")
    K["create bad type"] = lambda w: w.b().create_new_encrypted_wif(a["code", None], "WIF", dom.BASE_SEED)
    K["confirm detail"] = lambda w: w.b().confirm_code(PW, a["cfrm", True, "m", lot], detail=True)
    K["confirm wrong passphrase"] = lambda w: w.b().confirm_code("wrong", a["cfrm", True, "m", None])
    K["confirm testnet by call"] = lambda w: w.b().confirm_code(PW, a["cfrm", False, "t", None], "testnet", True)
    K["unknown network"] = lambda w: w.b().decrypt(a["enc", True, "m"], PW, network="simnet")
    K["WIF functions"] = lambda w: (env.mod("wif").encode_wif(dom.BASE_KEY, 0xEF), env.mod("wif").decode_wif(a["wif", True, "m"]),
                                    env.mod("wif").private_key_to_wif(dom.BASE_KEY, "wif", dom.cls("Dogecoin")))
    K["address functions"] = lambda w: (env.mod("p2pkh_address").P2PKHAddress.encode(ref.ser(ref.mul(7), True), address_prefix=0x1CB8,
                                                                                     alphabet=ref.XRP, public_key_type="uncompressed"),
                                        env.mod("p2pkh_address").P2PKHAddress.encode(ref.ser(ref.mul(7), False)),
                                        env.mod("p2pkh_address").P2PKHAddress.decode(ref.address(ref.mul(7), True, 0)))
    K["base58 Ripple"] = lambda w: (env.mod("libs.base58").decode("rrp", ref.XRP), env.mod("libs.base58").encode(b"\0\1", ref.XRP),
                                    env.mod("libs.base58").check_encode(b"\0\1"))
    K["~intermediate"] = lambda w: w.b().intermediate_code(PW)
    K["~intermediate lot"] = lambda w: w.b().intermediate_code(PW, 263183, 1)
    K["~create"] = lambda w: w.b().create_new_encrypted_wif(a["code", None])
    return K


def variants(a):
    """The same operation with one argument changed at a time: what a cache with too small a key would mix up."""
    V = {}

    def put(name, fn, *args, **kw):
        V["%s %r" % (name, (args, sorted(kw.items())))] = lambda w: fn(w)(*args, **kw)
    for comp in (False, True):
        for pw in (PW, "Passphrase", "cafe\u0301", "caf\u00e9"):
            put("encrypt", lambda w: w.b().encrypt, a["wif", comp, "m"], pw)
    put("encrypt", lambda w: w.b().encrypt, ref.wif(dom.KEYS[5], True, 0x80), PW)
    for coin, p in (("Litecoin", 0xB0), ("BitcoinAtom", 0x80), ("Qtum", 0x80)):
        put("encrypt " + coin, lambda w, coin=coin: w.b(coin).encrypt, ref.wif(dom.BASE_KEY, True, p), PW)
        put("decrypt " + coin, lambda w, coin=coin: w.b(coin).decrypt, ref.encrypt(dom.BASE_KEY, True, PW, [n for n in dom.NETS if n[0] == coin][0][3]), PW)
    for comp in (False, True):
        for tag, net in (("m", "mainnet"), ("t", "testnet")):
            for pw in (PW, "wrong"):
                for detail in (False, True):
                    put("decrypt", lambda w: w.b().decrypt, a["enc", comp, tag], pw, net, detail)
                put("decrypt", lambda w: w.b().decrypt, a["ec", comp, tag, None], pw, net, True)
                put("confirm", lambda w: w.b().confirm_code, pw, a["cfrm", comp, tag, None], net, True)
        put("decrypt", lambda w: w.b().decrypt, a["enc", comp, "t"], PW, "mainnet")
    for lot in ((263183, 1), (263183, 2), (100000, 1)):
        for detail in (False, True):
            put("decrypt", lambda w: w.b().decrypt, a["ec", True, "m", lot], PW, None, detail)
            put("confirm", lambda w: w.b().confirm_code, PW, a["cfrm", True, "m", lot], None, detail)
        put("create", lambda w: w.b().create_new_encrypted_wif, a["code", lot], "wif", dom.BASE_SEED)
        put("intermediate", lambda w: w.b().intermediate_code, PW, lot[0], lot[1], dom.BASE_SALT)
    for pw in (PW, "Passphrase"):
        for salt in (dom.BASE_SALT, dom.BASE_SALT[:4] + bytes(4), bytes(8)):
            put("intermediate", lambda w: w.b().intermediate_code, pw, owner_salt=salt)
        put("intermediate", lambda w: w.b().intermediate_code, pw, 263183, 1, dom.BASE_SALT[:4])
        put("intermediate", lambda w: w.b().intermediate_code, pw, 263183, None, dom.BASE_SALT)
    for seed in (dom.BASE_SEED, dom.SEEDS[3]):
        for t in ("wif", "wif-compressed"):
            for net in ("mainnet", "testnet", "regtest"):
                put("create", lambda w: w.b().create_new_encrypted_wif, a["code", None], t, seed, net)
    put("create", lambda w: w.b().create_new_encrypted_wif, a["code", None], "wif", dom.BASE_SEED[:23])
    return V


def near(v):
    """All values next to v: each byte, character or bit changed, and lengths one off."""
    if isinstance(v, int):
        return [v ^ (1 << i) for i in range(max(v.bit_length(), 1))]
    if isinstance(v, bytes):
        return [v[:i] + bytes([v[i] ^ m]) + v[i + 1:] for i in range(len(v)) for m in (1, 0x80)]
    return [v[:i] + (chr(ord(v[i]) ^ 0x20) if v[i].isalpha() else "~") + v[i + 1:] for i in range(len(v))] + [v + " ", v + v]


PAIRS = {n: [[bytes.fromhex(k) for k in p] for p in v] for n, v in dom.SPECIAL["pairs"].items()}
REJECTED = ("rejected",)


def seen(out):
    """-> comparable outcome: a value, or that the call was refused"""
    if out.error is not None:
        return REJECTED
    return explore.plain(canonical(out.value))


def canonical(v):
    """Without the order of fields."""
    if isinstance(v, dict):
        return [(k, canonical(v[k])) for k in sorted(v)]
    return [canonical(i) for i in v] if isinstance(v, (list, tuple)) else v


def model(fn, *args):
    try:
        return fn(*args)
    except ref.Reject:
        return REJECTED


def again_set(b):
    for n, v in list(vars(b).items()):
        setattr(b, n, v)
    return b


def families(a):
    """-> {name: [(function of the world, model function)]}: the first is called before each of the others.
    The others differ from it in one place: a cache that looks at part of an argument confuses them."""
    F = {}

    def put(name, real, want, values):
        F[name] = [(lambda w, v=v: real(w, v), lambda v=v: model(want, v)) for v in dom.uniq(values)]

    def with_near(v, more=()):
        return [v] + near(v) + list(more)
    c = lambda: env.mod("crypto")
    b58 = lambda: env.mod("libs.base58")
    s = lambda: env.mod("secp256k1")
    W = lambda: env.mod("wif")
    A = lambda: env.mod("p2pkh_address").P2PKHAddress
    U = lambda: env.mod("utils")
    msg = dom.rnd("near", 37)
    for f, m in (("sha256", ref.sha256), ("double_sha256", ref.dsha), ("ripemd160", ref.ripemd160), ("hash160", ref.hash160),
                 ("get_checksum", lambda v: ref.dsha(v)[:4])):
        put(f, lambda w, v, f=f: getattr(c(), f)(v), m, with_near(msg, [msg.hex().encode(), msg[:-1], msg + b"\0", b"\0" + msg]))
        put(f + " of text", lambda w, v, f=f: getattr(c(), f)(v), lambda v, m=m: m(bytes.fromhex(v)), [msg.hex(), msg[::-1].hex(), msg.hex()[:-2]])
    put("libs.ripemd160", lambda w, v: env.mod("libs.ripemd160").ripemd160(v), ref.ripemd160, with_near(dom.rnd("near", 130)))
    for alph in (ref.BTC, ref.XRP):
        t = ref.b58check(msg[:25], alph)
        put("base58 encode " + alph[:2], lambda w, v, al=alph: (b58().encode(v, al), b58().check_encode(v, al)),
            lambda v, al=alph: (ref.b58enc(v, al), ref.b58check(v, al)), with_near(msg[:25], [b"\0" + msg[:25], msg[:24]]))
        put("base58 decode " + alph[:2], lambda w, v, al=alph: b58().decode(v, al), lambda v, al=alph: ref.b58dec(v, al),
            [t] + [t[:i] + alph[(alph.index(t[i]) + 1) % 58] + t[i + 1:] for i in range(len(t))] + [alph[0] + t, t[:-1]])
        put("base58 check_decode " + alph[:2], lambda w, v, al=alph: b58().check_decode(v, al), lambda v, al=alph: ref.b58undo(v, al),
            [t] + [t[:i] + alph[(alph.index(t[i]) + 1) % 58] + t[i + 1:] for i in range(len(t))])
    put("base58 alphabets", lambda w, v: (b58().encode(msg, v), b58().decode(ref.b58enc(msg, v), v)),
        lambda v: (ref.b58enc(msg, v), msg), [ref.BTC, ref.XRP, ref.BTC[::-1], ref.BTC[:-2] + ref.BTC[-1] + ref.BTC[-2]])
    keys = dom.uniq(with_near(dom.BASE_KEY, [ref.i2b(i, 32) for i in range(1, 20)] + [ref.i2b(ref.N - i, 32) for i in range(1, 8)] +
                              [ref.i2b(ref.N - ref.b2i(dom.BASE_KEY), 32), dom.BASE_KEY[::-1], dom.BASE_KEY[16:] + dom.BASE_KEY[:16]]))
    put("encode_wif", lambda w, v: W().encode_wif(v), lambda v: (ref.wif(v, False, 0x80), ref.wif(v, True, 0x80)), keys)
    put("encode_wif prefixes", lambda w, v: W().encode_wif(dom.BASE_KEY, v), lambda v: (ref.wif(dom.BASE_KEY, False, v), ref.wif(dom.BASE_KEY, True, v)), range(256))
    put("decode_wif", lambda w, v: W().decode_wif(ref.wif(v, True, 0x80))[:2], lambda v: (v, "wif-compressed"), keys)
    put("decode_wif types", lambda w, v: W().decode_wif(ref.wif(v, False, 0x80))[:2], lambda v: (v, "wif"), keys[:20])
    t = ref.wif(dom.BASE_KEY, True, 0x80)
    put("decode_wif damaged", lambda w, v: W().decode_wif(v)[0], lambda v: ref.unwif(v, 0x80)[0],
        [t] + [t[:i] + ref.BTC[(ref.BTC.index(t[i]) + 1) % 58] + t[i + 1:] for i in range(len(t))])
    put("wif_to_private_key", lambda w, v: (W().wif_to_private_key(ref.wif(v, False, 0x80)), W().get_wif_type(ref.wif(v, True, 0x80))),
        lambda v: (v.hex(), "wif-compressed"), keys)
    put("private_key_to_wif", lambda w, v: (W().private_key_to_wif(v.hex()), W().private_key_to_wif(v, "wif", dom.cls("Litecoin"), "testnet")),
        lambda v: (ref.wif(v, True, 0x80), ref.wif(v, False, 0xEF)), keys)

    def key_views(w, v):
        k = s().PrivateKey.from_bytes(v)
        p = k.public_key()
        q = s().PublicKey.from_bytes(p.raw_compressed())
        pt = q.point()
        return (k.raw(), p.raw_compressed(), p.raw_uncompressed(), q.raw_uncompressed(), pt.x(), pt.y(), s().Point.from_bytes(pt.raw()).raw_encoded())

    def key_model(v):
        p = ref.mul(ref.b2i(v))
        return (v, ref.ser(p, True), ref.ser(p, False), ref.ser(p, False), p[0], p[1], ref.ser(p, True))
    put("keys and points", key_views, key_model, keys)
    put("products", lambda w, v: (s().Point.from_coordinates(*ref.mul(7)) * v).raw(), lambda v: ref.ser(ref.mul(v, ref.mul(7)), False)[1:],
        with_near(ref.b2i(dom.rnd("scalar", 32)) % ref.N))
    put("sums", lambda w, v: (s().Point.from_coordinates(*ref.mul(7)) + s().Point.from_coordinates(*ref.mul(v))).raw(),
        lambda v: ref.ser(ref.mul(7 + v), False)[1:], list(range(1, 40)) + [ref.N - i for i in range(1, 7)])
    put("addresses", lambda w, v: (A().encode(ref.ser(ref.mul(ref.b2i(v)), True)), A().encode(ref.ser(ref.mul(ref.b2i(v)), True), public_key_type="uncompressed"),
                                   A().decode(ref.address(ref.mul(ref.b2i(v)), True, 0))),
        lambda v: (ref.address(ref.mul(ref.b2i(v)), True, 0), ref.address(ref.mul(ref.b2i(v)), False, 0), ref.hash160(ref.ser(ref.mul(ref.b2i(v)), True)).hex()), keys)
    put("address prefixes", lambda w, v: A().encode(ref.ser(ref.mul(7), True), address_prefix=v), lambda v: ref.address(ref.mul(7), True, v), range(0, 600))
    put("integers", lambda w, v: (U().integer_to_bytes(v), U().integer_to_bytes(v, 40), U().integer_to_bytes(v, 40, "little"), U().integer_to_bytes(v, 40, "big", True)),
        lambda v: (ref.i2b(v, max(1, (v.bit_length() + 7) // 8)), ref.i2b(v, 40), ref.i2b(v, 40)[::-1], ref.i2b(v, 40)),
        with_near(ref.b2i(dom.rnd("int", 33)), range(300)))
    put("bytes", lambda w, v: (U().bytes_to_integer(v), U().bytes_to_integer(v, "little"), U().bytes_to_string(v), U().bytes_reverse(v), U().get_bytes(v.hex())),
        lambda v: (ref.b2i(v), ref.b2i(v[::-1]), v.hex(), v[::-1], v), with_near(dom.rnd("bytes", 33)))

    few = keys[::3]
    put("encrypt keys", lambda w, v: w.b().encrypt(ref.wif(v, True, 0x80), PW), lambda v: ref.encrypt(v, True, PW, 0), few)
    put("encrypt passphrases", lambda w, v: w.b().encrypt(a["wif", False, "m"], v), lambda v: ref.encrypt(dom.BASE_KEY, False, v, 0), with_near(PW))
    put("decrypt keys", lambda w, v: (w.b().decrypt(ref.encrypt(v, False, PW, 0), PW), w.b().decrypt(ref.encrypt(v, True, PW, 0), PW, detail=True)),
        lambda v: (ref.wif(v, False, 0x80), ref.decrypt(ref.encrypt(v, True, PW, 0), PW, 0x80, 0)), few)
    put("decrypt passphrases", lambda w, v: w.b().decrypt(a["enc", False, "m"], v), lambda v: ref.decrypt(a["enc", False, "m"], v, 0x80, 0)["wif"], with_near(PW))
    put("decrypt EC passphrases", lambda w, v: w.b().decrypt(a["ec", False, "m", (263183, 1)], v), lambda v: ref.decrypt(a["ec", False, "m", (263183, 1)], v, 0x80, 0)["wif"], with_near(PW))
    put("confirm passphrases", lambda w, v: w.b().confirm_code(v, a["cfrm", False, "m", None]), lambda v: ref.confirm(v, a["cfrm", False, "m", None], 0)["address"], with_near(PW))
    put("intermediate passphrases", lambda w, v: w.b().intermediate_code(v, owner_salt=dom.BASE_SALT), lambda v: ref.intermediate(v, dom.BASE_SALT), with_near(PW))
    put("intermediate salts", lambda w, v: w.b().intermediate_code(PW, owner_salt=v), lambda v: ref.intermediate(PW, v), with_near(dom.BASE_SALT))
    put("intermediate lots", lambda w, v: w.b().intermediate_code(PW, v, 1, dom.BASE_SALT), lambda v: ref.intermediate(PW, dom.BASE_SALT, v, 1), with_near(263183))
    put("intermediate sequences", lambda w, v: w.b().intermediate_code(PW, 263183, v, dom.BASE_SALT), lambda v: ref.intermediate(PW, dom.BASE_SALT, 263183, v),
        with_near(0xABC))
    put("intermediate salts with lot", lambda w, v: w.b().intermediate_code(PW, 263183, 1, v), lambda v: ref.intermediate(PW, v, 263183, 1), with_near(dom.BASE_SALT[:4]))
    put("create seeds", lambda w, v: w.b().create_new_encrypted_wif(a["code", None], "wif", v), lambda v: ref.create(a["code", None], False, v, 0),
        [dom.BASE_SEED] + near(dom.BASE_SEED)[::2])
    put("create codes", lambda w, v: w.b().create_new_encrypted_wif(ref.intermediate(PW, v), "wif", dom.BASE_SEED),
        lambda v: ref.create(ref.intermediate(PW, v), False, dom.BASE_SEED, 0), with_near(dom.BASE_SALT))
    put("create codes of passphrases", lambda w, v: w.b().create_new_encrypted_wif(ref.intermediate(v, dom.BASE_SALT), "wif", dom.BASE_SEED),
        lambda v: ref.create(ref.intermediate(v, dom.BASE_SALT), False, dom.BASE_SEED, 0), with_near(PW))
    for name, mk in (("seeds", lambda v: ref.create(a["code", None], True, v, 0)),):
        put("decrypt EC " + name, lambda w, v: w.b().decrypt(mk(v)["encrypted_wif"], PW, detail=True), lambda v: ref.decrypt(mk(v)["encrypted_wif"], PW, 0x80, 0),
            [dom.BASE_SEED] + near(dom.BASE_SEED)[::2])
        put("confirm " + name, lambda w, v: w.b().confirm_code(PW, mk(v)["confirmation_code"], detail=True), lambda v: ref.confirm(PW, mk(v)["confirmation_code"], 0),
            [dom.BASE_SEED] + near(dom.BASE_SEED)[::2])
    of_salt = lambda v: ref.create(ref.intermediate(PW, v), True, dom.BASE_SEED, 0)
    put("decrypt EC salts", lambda w, v: (w.b().decrypt(of_salt(v)["encrypted_wif"], PW), w.b().confirm_code(PW, of_salt(v)["confirmation_code"])),
        lambda v: (ref.decrypt(of_salt(v)["encrypted_wif"], PW, 0x80, 0)["wif"], of_salt(v)["address"]), with_near(dom.BASE_SALT))
    for n, pairs in PAIRS.items():
        vals = [k for p in pairs for k in p]
        put("same " + n, lambda w, v: (key_views(w, v), A().encode(ref.ser(ref.mul(ref.b2i(v)), True)), A().encode(ref.ser(ref.mul(ref.b2i(v)), False), public_key_type="uncompressed"),
                                       A().decode(ref.address(ref.mul(ref.b2i(v)), True, 0)),
                                       [w.b().encrypt(ref.wif(v, comp, 0x80), PW) for comp in (True, False)],
                                       [w.b().decrypt(ref.encrypt(v, comp, PW, 0), PW, detail=True) for comp in (True, False)]),
            lambda v: (key_model(v), ref.address(ref.mul(ref.b2i(v)), True, 0), ref.address(ref.mul(ref.b2i(v)), False, 0), ref.hash160(ref.ser(ref.mul(ref.b2i(v)), True)).hex(),
                       [ref.encrypt(v, comp, PW, 0) for comp in (True, False)],
                       [ref.decrypt(ref.encrypt(v, comp, PW, 0), PW, 0x80, 0) for comp in (True, False)]), vals)
    return F


def do(x, world, name, fn):
    """One call: its outcome as the caller sees it; afterwards the caller writes over what it was given."""
    out = x.call(name, fn, world)
    key = out.key()
    if out.error is not None:
        key = ("raise", type(out.error).__name__, str(out.error))
    if isinstance(out.value, dict):
        for k in list(out.value):
            out.value[k] = "overwritten by the caller"
        out.value["more"] = 1
        x.calls[-1] = (name, (), {}, iso.Seen(key))
    return key


def history(x, calls, fresh, names):
    history_in(x, World(), calls, fresh, names)


def history_in(x, world, calls, fresh, names):
    for i, n in enumerate(names):
        got = do(x, world, n, calls[n])
        if n.startswith("~"):
            x.check_that(got[0] == "value", "%s after %r: %r" % (n, names[:i], got))
        elif got != fresh[n]:
            x.fail("%s: %s in a fresh process, %s after %r" % (n, explore.short(repr(fresh[n])), explore.short(repr(got)), names[:i]))


def build(check):
    T = check.thorough
    a = artefacts()
    K, V = kinds(a), variants(a)
    allc = dict(K)
    allc.update(V)
    fresh = {}
    host = explore.X(check)

    def one(x, n):
        return do(x, World(), n, allc[n])
    for n in allc:
        if not n.startswith("~"):
            try:
                fresh[n] = iso.isolated(host, one, n)
            except explore.Violation as v:
                fresh[n] = ("none", str(v))
    names, vnames = sorted(K), sorted(V)
    check.extra["alphabet"] = dict(kinds=len(names), variants=len(vnames))

    def again(x):
        n = x.pick("call", sorted(fresh), free=True)
        iso.isolated(x, history, allc, fresh, [n])
    check.add("fresh", again, 0, "each call alone, twice: nothing but its arguments counts")

    def kinds_(x):
        h = [x.pick("call %d" % i, names, free=True) for i in range(3)]
        iso.isolated(x, history, allc, fresh, h)
    check.add("histories", kinds_, 0, "all histories of three calls of every kind, each in a process of its own")

    def pairs(x):
        h = [x.pick("call %d" % i, vnames, free=True) for i in range(2)]
        iso.isolated(x, history, allc, fresh, h + h)
    check.add("variants", pairs, 0, "all pairs of calls that differ in single arguments, made twice over")

    def long(x):
        first = x.pick("repeated", names, free=True)
        n = x.pick("times", (300,) if T else (70,), free=True)
        iso.isolated(x, history, allc, fresh, [first] * n + names + vnames[::3])
    check.add("repeated", long, 0, "each call repeated, then every other")

    def coins(x):
        """Each coin and network used in between."""
        coin, net, wp, ap = x.pick("network", dom.NETS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        before = x.pick("before", (False, True), free=True)

        def run(sub):
            w = World()
            if before:
                history_in(sub, w, allc, fresh, names)
            b = w.b(coin, net)
            e = sub.call("encrypt " + coin, b.encrypt, ref.wif(dom.BASE_KEY, comp, wp), PW)
            if e.error is None:
                sub.call("decrypt " + coin, b.decrypt, e.value, PW, None, True)
            c = sub.call("create " + coin, b.create_new_encrypted_wif, a["code", None], "wif", dom.BASE_SEED)
            if c.error is None:
                sub.call("confirm " + coin, b.confirm_code, PW, c.value["confirmation_code"])
            history_in(sub, w, allc, fresh, names)
        iso.isolated(x, run)
    check.add("coins", coins, 0, "every network of every coin used before, or in between, all the calls")

    def alternating(x):
        p, q = x.pick("first", names, free=True), x.pick("second", names[::1 if T else 2], free=True)
        iso.isolated(x, history, allc, fresh, [p, q] * (20 if T else 8) + [p])
    check.add("alternating", alternating, 0, "pairs of calls taking turns")

    fam = families(a)
    check.extra["alphabet"]["families of neighbours"] = {n: len(v) for n, v in sorted(fam.items())}

    def neighbours(x):
        n = x.pick("family", sorted(fam), free=True)
        order = x.pick("order", ("each after the first", "in a row, there and back"), free=True)

        def run(sub):
            w, f = World(), fam[n]
            want = {}
            line = [i for k in range(1, len(f)) for i in (0, k)] if order[0] == "e" else list(range(len(f))) + list(range(len(f)))[::-1]
            for pos, i in enumerate(line):
                if i not in want:
                    want[i] = f[i][1]()
                    if want[i] != REJECTED:
                        want[i] = explore.plain(canonical(want[i]))
                got = seen(sub.call("%s %d" % (n, i), f[i][0], w))
                if got != want[i]:
                    sub.fail("%s, value %d: %s, the model %s, after %r" % (n, i, explore.short(repr(got)), explore.short(repr(want[i])), line[max(0, pos - 5):pos]))
        iso.isolated(x, run)
    check.add("neighbours", neighbours, 0, "arguments that differ in one byte, character or bit (or share the parts a cache may go by), one after the other")

    acts = {
        "empties the list of networks": lambda b: b.networks.clear() if isinstance(b.networks, list) else None,
        "turns the list of networks around": lambda b: b.networks.reverse() if isinstance(b.networks, list) else None,
        "adds to the list of networks": lambda b: b.networks.append("simnet") if isinstance(b.networks, list) else None,
        "sets network": lambda b: setattr(b, "network", "regtest"),
        "sets networks": lambda b: setattr(b, "networks", ["simnet"]),
        "sets alphabet": lambda b: setattr(b, "alphabet", ref.XRP),
        "sets cryptocurrency": lambda b: setattr(b, "cryptocurrency", dom.cls("Dogecoin")),
        "initialises it again": lambda b: b.__init__(dom.cls("Dogecoin"), "testnet"),
        "drops it": lambda b: None,
        "derives from its class": lambda b: type("Own", (type(b),), {"network": "testnet", "alphabet": ref.XRP})(dom.cls("Litecoin")),
        "derives from the address class": lambda b: type("Own", (env.mod("p2pkh_address").P2PKHAddress,), {"address_prefix": 0x30, "alphabet": ref.XRP}).encode(ref.ser(ref.mul(7), True)),
        "derives from the coin's class": lambda b: env.bip38.BIP38(type("Bitcoin", (b.cryptocurrency,), {"NETWORKS": {"mainnet": {"wif_prefix": 1, "address_prefix": 2}}})).encrypt(ref.wif(dom.BASE_KEY, True, 1), PW),
    }

    def handled(x):
        """What a caller does with an instance of his own concerns no other instance."""
        act = x.pick("the caller", sorted(acts), free=True)
        coin, net = x.pick("instance", (("Bitcoin", "mainnet"), ("Bitcoin", "testnet"), ("Litecoin", "mainnet"), ("Dogecoin", "mainnet"), ("Ripple", "mainnet")), free=True)
        used = x.pick("used before", (False, True), free=True)

        def run(sub):
            w, own = World(), World()
            if used:
                history_in(sub, own, allc, fresh, names[::3])
            acts[act](own.b(coin, net))
            del own
            for c, n in ((d[0], d[1]) for d in dom.NETS if d[0] in ("Bitcoin", "Litecoin", "Dogecoin", "Ripple")):
                b = sub.value("BIP38(%s, %r)" % (c, n), sub.call("BIP38", env.bip38.BIP38, dom.cls(c), n))
                sub.same("networks", (b.network, sorted(b.networks)), (n, sorted(d[1] for d in dom.NETS if d[0] == c)))
            history_in(sub, w, allc, fresh, names)
        iso.isolated(x, run)
    check.add("handled", handled, 0, "attributes of an instance changed, classes derived: other instances go on as before")

    R = refused.refusals()
    check.extra["alphabet"]["refusals"] = len(R)
    rnames = sorted(R)
    refusal = {}
    for n in rnames:
        refusal[n] = ("hung",)
        try:
            refusal[n] = iso.isolated(host, lambda x, n=n: x.call(n, R[n], World()).key())
        except explore.Violation as v:
            refusal[n] = ("none", str(v))

    ways = {"copy": copy.copy, "deep copy": copy.deepcopy, "copy of a copy": lambda b: copy.copy(copy.deepcopy(b)),
            "plain derived class": lambda b: type("Own", (type(b),), {})(b.cryptocurrency, b.network), "derived class with more": lambda b: More(b.cryptocurrency, b.network, "label"),
            "copy of a derived class": lambda b: copy.copy(More(b.cryptocurrency, b.network, label="x")), "attributes set again": again_set}
    for i in range(pickle.HIGHEST_PROTOCOL + 1):
        ways["pickle %d" % i] = lambda b, i=i: pickle.loads(pickle.dumps(b, i))

    class More(env.bip38.BIP38):
        def __init__(self, cryptocurrency, network="mainnet", label=None):
            super().__init__(cryptocurrency, network)
            self.label = label

    def copies(x):
        """A copy of an instance, and an instance of a derived class, acts like it."""
        way = x.pick("way", sorted(ways), free=True)
        used = x.pick("used before", (False, True), free=True)
        after = x.pick("the original afterwards", ("kept", "changed"), free=True)

        def run(sub):
            w, own = World(), World()
            for c, n in (d[:2] for d in dom.NETS if d[0] in ("Bitcoin", "Litecoin", "Dogecoin", "Ripple", "Zcash")):
                b = own.b(c, n)
                if used:
                    history_in(sub, own, allc, fresh, names[::5])
                w.held[c, n] = sub.value("%s of BIP38(%s, %r)" % (way, c, n), sub.call(way, ways[way], b))
            for b in own.held.values() if after == "changed" and way not in ("copy", "attributes set again") else ():
                if b not in w.held.values():
                    b.network = "simnet"
                    if isinstance(b.networks, list):
                        b.networks.clear()
            history_in(sub, w, allc, fresh, names)
            for n in rnames:
                got = sub.call(n, R[n], w).key()
                if got != refusal[n]:
                    sub.fail("%s: %s, on a new instance %s" % (n, explore.short(repr(got)), explore.short(repr(refusal[n]))))
        iso.isolated(x, run)
    check.add("copies", copies, 0, "instances copied, pickled, derived: they act like the original")


    def refusals(x):
        """A call that is refused is refused again, in the same way, and has no part in what other calls do."""
        n = x.pick("refused", rnames, free=True)

        def run(sub):
            w = World()
            first = sub.call(n, R[n], w).key()
            for i in range(3):
                got = sub.call(n, R[n], w).key()
                if got != first:
                    sub.fail("%s: first %s, then %s" % (n, explore.short(repr(first)), explore.short(repr(got))))
            history_in(sub, w, allc, fresh, [m for m in names if m in fresh] + vnames[::1 if T else 3])
        iso.isolated(x, run)
    check.add("refusals", refusals, 0, "each of %d calls that are refused: again, and before every other call" % len(R))

    def many(x):
        """Many different arguments, then the first again."""
        op = x.pick("operation", ("encrypt", "intermediate", "create", "decrypt", "wif", "address", "confirm"), free=True)
        n = 1100 if T else 530

        def run(sub):
            w, seen = World(), []
            for again_ in (0, 1):
                for i in range(n):
                    k = dom.rnd("k%d" % i, 32)
                    pw = "passphrase %d" % (i // 2)
                    fn, args = {
                        "encrypt": (w.b().encrypt, (ref.wif(k, bool(i & 1), 0x80), pw)),
                        "decrypt": (w.b().decrypt, (a["enc", bool(i & 1), "m"], PW if i % 3 == 0 else pw)),
                        "confirm": (w.b().confirm_code, (PW if i % 3 == 0 else pw, a["cfrm", bool(i & 1), "m", None])),
                        "intermediate": (w.b().intermediate_code, (pw, 100000 + i, i % 7, k[:8]) if i & 1 else (pw, None, None, k[:8])),
                        "create": (w.b().create_new_encrypted_wif, (a["code", None], "wif" if i & 1 else "wif-compressed", k[:24])),
                        "wif": (env.mod("wif").encode_wif, (k, i)),
                        "address": (env.mod("p2pkh_address").P2PKHAddress.encode, (ref.ser(ref.mul(ref.b2i(k)), True),))}[op]
                    out = sub.call(op, fn, *args).key()
                    if again_:
                        if out != seen[i]:
                            sub.fail("%s%r: first %s, later %s" % (op, args, explore.short(repr(seen[i])), explore.short(repr(out))))
                    else:
                        seen.append(out)
        iso.isolated(x, run)
    check.add("many", many, 0, "a long run of different arguments, twice")

    if T:
        short = [n for n in names if n in ("encrypt", "encrypt testnet by call", "encrypt Dogecoin", "decrypt detail", "decrypt wrong passphrase", "decrypt EC lot detail",
                                           "intermediate lot", "intermediate bad lot", "create compressed", "create testnet by call", "confirm detail",
                                           "confirm wrong passphrase", "unknown network", "~intermediate")]

        def deeper(x):
            h = [x.pick("call %d" % i, short, free=True) for i in range(4)]
            iso.isolated(x, history, allc, fresh, h)
        check.add("deeper", deeper, 0, "all histories of four calls over %d kinds" % len(short))

        def three(x):
            h = [x.pick("call %d" % i, vnames[::2], free=True) for i in range(3)]
            iso.isolated(x, history, allc, fresh, h)
        check.add("variants-three", three, 0, "all histories of three of every second variant")
