"""C24: each argument means the same by position, by name and in any order; left out, it is its documented default."""
import itertools

from vf import dom, env, ref, scen

PW, PW2 = dom.BASE_PASS, "\u00e9\u0301 other"
NEED = object()      # has to be given
OUT = object()       # left out
KEY = dom.BASE_KEY
MT = {"mainnet": dom.BTC_MAIN, "testnet": dom.BTC_TEST}
SEED2 = dom.rnd("c24 seed", 24)
DRAWN = dom.rnd("c24 drawn", 64)


def functions():
    """-> {name: (what is called, [(parameter, default, values)], model(dict of the parameters))}; a model may say ref.Reject"""
    F = {}
    w, u, c, s = env.mod("wif"), env.mod("utils"), env.mod("crypto"), env.mod("secp256k1")
    A, b58 = env.mod("p2pkh_address").P2PKHAddress, env.mod("libs.base58")
    B = env.bip38.BIP38
    coins = [dom.cls("Bitcoin"), dom.cls("Litecoin"), dom.cls("Zcash")]

    def net_of(a, own):
        return MT[a["network"] or own]

    def im(a):
        salt = a["owner_salt"]
        salt = DRAWN[:4] if salt is None and a["lot"] is not None and a["sequence"] is not None else DRAWN[:8] if salt is None else salt
        return ref.intermediate(a["passphrase"], bytes.fromhex(salt) if isinstance(salt, str) else salt, a["lot"], a["sequence"])
    im_params = [("passphrase", NEED, (PW, PW2)), ("lot", None, (None, 263183, 100001)), ("sequence", None, (None, 0, 1, 4095)),
                 ("owner_salt", None, (None, dom.BASE_SALT, dom.BASE_SALT.hex()))]
    F["intermediate_code of the class"] = (B.intermediate_code, im_params, im)
    F["intermediate_code of an instance"] = (dom.bip(dom.BTC_TEST).intermediate_code, im_params, im)
    F["intermediate_code of a class derived"] = (type("Own", (B,), {}).intermediate_code, im_params, im)
    for own in MT:
        b = dom.bip(MT[own])

        def enc(a, own=own):
            n = net_of(a, own)
            key, comp, _ = ref.unwif(a["wif"], n[2])
            return ref.encrypt(key, comp, a["passphrase"], n[3])
        F["encrypt on " + own] = (b.encrypt, [("wif", NEED, [ref.wif(KEY, comp, MT[n][2]) for n in MT for comp in (False, True)]), ("passphrase", NEED, (PW, PW2)),
                                              ("network", None, (None, "mainnet", "testnet"))], enc)
        codes = [ref.intermediate(PW, dom.BASE_SALT), ref.intermediate(PW, dom.BASE_SALT, 263183, 1)]

        def create(a, own=own):
            sd = a["seed"]
            return ref.create(a["intermediate_passphrase"], a["wif_type"] != "wif", DRAWN[:24] if sd is None else bytes.fromhex(sd) if isinstance(sd, str) else sd, net_of(a, own)[3])
        F["create_new_encrypted_wif on " + own] = (b.create_new_encrypted_wif, [("intermediate_passphrase", NEED, codes), ("wif_type", "wif", ("wif", "wif-compressed")),
                                                                            ("seed", None, (None, dom.BASE_SEED, SEED2.hex())), ("network", None, (None, "mainnet", "testnet"))], create)
        made = [ref.create(code, comp, dom.BASE_SEED, MT[n][3]) for code in codes for comp in (False, True) for n in MT]

        def confirm(a, own=own):
            r = ref.confirm(a["passphrase"], a["confirmation_code"], net_of(a, own)[3])
            return r if a["detail"] else r["address"]
        F["confirm_code on " + own] = (b.confirm_code, [("passphrase", NEED, (PW, PW2)), ("confirmation_code", NEED, [m["confirmation_code"] for m in made]),
                                                        ("network", None, (None, "mainnet", "testnet")), ("detail", False, (False, True))], confirm)

        def decrypt(a, own=own):
            n = net_of(a, own)
            r = ref.decrypt(a["encrypted_wif"], a["passphrase"], n[2], n[3])
            return r if a["detail"] else r["wif"]
        F["decrypt on " + own] = (b.decrypt, [("encrypted_wif", NEED, [m["encrypted_wif"] for m in made[::3]] + [ref.encrypt(KEY, comp, PW, MT[n][3]) for n in MT for comp in (False, True)]),
                                              ("passphrase", NEED, (PW, PW2)), ("network", None, (None, "mainnet", "testnet")), ("detail", False, (False, True))], decrypt)

    def instance(a):
        n = [d for d in dom.NETS if d[0] == a["cryptocurrency"].__name__ and d[1] == a["network"]]
        if not n:
            raise ref.Reject("bad", "network")
        return (a["cryptocurrency"].__name__, a["network"])

    def make(*a, **k):
        b = B(*a, **k)
        return (b.cryptocurrency.__name__, b.network)
    F["BIP38"] = (make, [("cryptocurrency", NEED, coins), ("network", "mainnet", ("mainnet", "testnet", "regtest", "simnet"))], instance)

    def table(a):
        n = [d for d in dom.NETS if d[0] == a["cryptocurrency"].__name__ and d[1] == a["network"]]
        return n[0] if n else None
    key_values = (KEY, KEY.hex(), dom.KEYS[5])
    as_key = lambda v: bytes.fromhex(v) if isinstance(v, str) else v
    F["encode_wif"] = (w.encode_wif, [("private_key", NEED, key_values), ("wif_prefix", 0x80, (0x80, 0xEF, 0x1CB8))],
                       lambda a: tuple(ref.wif(as_key(a["private_key"]), comp, a["wif_prefix"]) for comp in (False, True)))
    wifs = [ref.wif(k, comp, p) for k in (KEY, dom.KEYS[5]) for comp in (False, True) for p in (0x80, 0xEF)]

    def unwif(a):
        key, comp, chk = ref.unwif(a["wif"], a["wif_prefix"])
        return key, "wif-compressed" if comp else "wif", chk
    F["decode_wif"] = (w.decode_wif, [("wif", NEED, wifs), ("wif_prefix", 0x80, (0x80, 0xEF, 0xB0))], unwif)
    of_coin = [("cryptocurrency", coins[0], coins), ("network", "mainnet", ("mainnet", "testnet", "regtest"))]

    def to_wif(a):
        n = table(a)
        return ref.wif(as_key(a["private_key"]), a["wif_type"] != "wif", n[2]) if n else OUT
    F["private_key_to_wif"] = (w.private_key_to_wif, [("private_key", NEED, key_values), ("wif_type", "wif-compressed", ("wif", "wif-compressed"))] + of_coin, to_wif)
    for name, part in (("wif_to_private_key", lambda r: r[0].hex()), ("get_wif_type", lambda r: "wif-compressed" if r[1] else "wif"), ("get_wif_checksum", lambda r: r[2].hex())):
        F[name] = (getattr(w, name), [("wif", NEED, wifs)] + of_coin, lambda a, part=part: part(ref.unwif(a["wif"], table(a)[2])) if table(a) else OUT)
    pub = [ref.ser(ref.mul(7), True), ref.ser(ref.mul(7), False), ref.ser(ref.mul(11), True).hex()]
    point = {pub[0]: ref.mul(7), pub[1]: ref.mul(7), pub[2]: ref.mul(11)}
    KW = "keywords"
    F["P2PKHAddress.encode"] = (A.encode, [("public_key", NEED, pub), ("address_prefix", KW, (0x00, 0x6F, 0x1CB8)), ("public_key_type", KW, ("compressed", "uncompressed")),
                                           ("alphabet", KW, (ref.BTC, ref.XRP))],
                                lambda a: ref.b58check(ref.prefix_bytes(a["address_prefix"]) + ref.hash160(ref.ser(point[a["public_key"]], a["public_key_type"] == "compressed")), a["alphabet"]))
    addresses = [ref.b58check(ref.prefix_bytes(p) + ref.hash160(pub[0]), al) for p in (0, 0x6F, 0x1CB8) for al in (ref.BTC, ref.XRP)]

    def undo(a):
        raw = ref.b58undo(a["address"], a["alphabet"])
        p = ref.prefix_bytes(a["address_prefix"])
        if len(raw) != 20 + len(p) or not raw.startswith(p):
            raise ref.Reject("bad", "address")
        return raw[len(p):].hex()
    F["P2PKHAddress.decode"] = (A.decode, [("address", NEED, addresses), ("address_prefix", KW, (0x00, 0x6F, 0x1CB8)), ("alphabet", KW, (ref.BTC, ref.XRP))], undo)
    data = (b"\0\1data", dom.rnd("c24", 33), b"")
    for n, m in (("sha256", ref.sha256), ("double_sha256", ref.dsha), ("ripemd160", ref.ripemd160), ("hash160", ref.hash160), ("get_checksum", lambda v: ref.dsha(v)[:4])):
        F["crypto." + n] = (getattr(c, n), [("data", NEED, data + (data[1].hex(),))], lambda a, m=m: m(as_key(a["data"])))
    F["get_bytes"] = (u.get_bytes, [("data", NEED, (b"\0\1", "0001", "ab12", "")), ("unhexlify", True, (True, False))],
                      lambda a: a["data"] if isinstance(a["data"], bytes) else bytes.fromhex(a["data"]) if a["unhexlify"] else a["data"].encode())
    F["bytes_reverse"] = (u.bytes_reverse, [("data", NEED, data)], lambda a: a["data"][::-1])
    F["bytes_to_string"] = (u.bytes_to_string, [("data", NEED, data)], lambda a: a["data"].hex())
    F["bytes_to_integer"] = (u.bytes_to_integer, [("data", NEED, (b"\xff\0\1", b"\1\2\x80", b"\x80")), ("endianness", "big", ("big", "little")), ("signed", False, (False, True))],
                             lambda a: int.from_bytes(a["data"], a["endianness"], signed=a["signed"]))
    F["integer_to_bytes"] = (u.integer_to_bytes, [("data", NEED, (0, 1, 127, 0x1234, 0x10000)), ("bytes_num", None, (None, 3, 4, 9)), ("endianness", "big", ("big", "little")),
                                                  ("signed", False, (False, True))],
                             lambda a: a["data"].to_bytes(a["bytes_num"] or max(1, (a["data"].bit_length() + 7) // 8), a["endianness"], signed=a["signed"]))
    F["PrivateKey.from_bytes"] = (lambda *a, **k: s.PrivateKey.from_bytes(*a, **k).raw(), [("private_key", NEED, (KEY, dom.KEYS[5]))], lambda a: a["private_key"])
    F["PublicKey.from_bytes"] = (lambda *a, **k: s.PublicKey.from_bytes(*a, **k).raw_compressed(), [("public_key", NEED, (pub[0], pub[1]))], lambda a: pub[0])
    F["PublicKey.raw"] = (s.PublicKey.from_bytes(pub[0]).raw, [("public_key_type", NEED, ("compressed", "uncompressed"))], lambda a: ref.ser(ref.mul(7), a["public_key_type"] == "compressed"))
    F["Point.from_coordinates"] = (lambda *a, **k: s.Point.from_coordinates(*a, **k).raw(), [("x", NEED, (ref.mul(7)[0],)), ("y", NEED, (ref.mul(7)[1], ref.P - ref.mul(7)[1]))],
                                   lambda a: ref.i2b(a["x"], 32) + ref.i2b(a["y"], 32))
    F["Point.from_bytes"] = (lambda *a, **k: s.Point.from_bytes(*a, **k).raw(), [("point", NEED, (pub[0], pub[1][1:]))], lambda a: pub[1][1:])
    for n, m, vals in (("encode", ref.b58enc, data[:2]), ("check_encode", ref.b58check, data[:2]), ("decode", ref.b58dec, (ref.b58enc(data[0]), ref.b58enc(data[1]))),
                       ("check_decode", ref.b58undo, (ref.b58check(data[0]), ref.b58check(data[1], ref.XRP)))):
        F["base58." + n] = (getattr(b58, n), [("1", NEED, vals), ("alphabet", ref.BTC, (ref.BTC, ref.XRP))], lambda a, m=m: m(a["1"], a["alphabet"]))
    return F


DEFAULTS = {"address_prefix": 0, "public_key_type": "compressed", "alphabet": ref.BTC}


def build(check):
    F = functions()

    def ways(x):
        name = x.pick("function", sorted(F), free=True)
        fn, params, model = F[name]
        given, values = [], {}
        for p, default, options in params:
            vals = list(options) + ([OUT] if default is not NEED else [])
            v = x.pick(p, vals, free=True)
            if v is OUT:
                values[p] = DEFAULTS[p] if default == "keywords" else default
            else:
                values[p] = v
                given.append((p, v, default == "keywords", p == "1"))
        # as many leading arguments by position as can be, or fewer
        lead = 0
        while lead < len(given) and given[lead][0] == params[lead][0] and not given[lead][2]:
            lead += 1
        least = sum(1 for g in given if g[3])
        by_position = x.pick("by position", range(least, lead + 1), free=True)
        rest = given[by_position:]
        if check.thorough:
            rest = x.pick("names", list(itertools.permutations(rest)), free=True)
        elif len(rest) > 1 and x.pick("names", ("in order", "backwards"), free=True) == "backwards":
            rest = rest[::-1]
        env.rand_hook = lambda n: DRAWN[:n]
        what = "%s(%s)" % (name, ", ".join(["%r" % (v,) for _, v, _, _ in given[:by_position]] + ["%s=%r" % (p, v) for p, v, _, _ in rest]))
        out = x.call(name, fn, *[v for _, v, _, _ in given[:by_position]], **{p: v for p, v, _, _ in rest})
        try:
            want = model(values)
        except (ref.Reject, OverflowError):
            x.check_that(out.error is not None, "%s returned %r" % (what, out.value))
            return
        if want is OUT:
            x.check_that(out.error is not None, "%s returned %r" % (what, out.value))
        elif isinstance(want, dict):
            scen.same_dict(x, what, x.value(what, out), want)
        else:
            x.gives(what, out, want)
    check.add("ways", ways, 0, "every function: each argument with several values or left out, each split between positions and names, names in two (thorough: all) orders")

    NAMES = {"": ("BIP38", "__version__"), "bip38": ("BIP38",), "wif": ("encode_wif", "decode_wif", "private_key_to_wif", "wif_to_private_key", "get_wif_type", "get_wif_checksum"),
             "cryptocurrencies": sorted(dom.COINS) + ["ICryptocurrency"],
             "exceptions": ("Error", "CryptocurrencyError", "NetworkError", "Secp256k1Error", "AddressError", "WIFError", "PassphraseError")}

    def names(x):
        m = x.pick("module", sorted(NAMES), free=True)
        n = x.pick("name", NAMES[m], free=True)
        module = env.mod(m) if m else env.bip38
        x.check_that(hasattr(module, n), "bip38.%s has no %s" % (m, n))
        v = getattr(module, n)
        if m == "exceptions":
            x.check_that(issubclass(v, env.mod("exceptions").Error) and issubclass(v, Exception), "%s is no Error" % n)
        if n == "BIP38":
            x.check_that(v is env.bip38.BIP38, "two BIP38 classes")
        x.observe(m, n)
    check.add("names", names, 0, "documented names can be imported")
