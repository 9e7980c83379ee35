"""C18: arguments outside their domain are rejected, those inside are accepted: each argument of each operation, two at a time."""
from vf import dom, env, ref

BASE = dom.BASE_PASS
BAD_NETWORKS = ["Mainnet", "MAINNET", "main", "mainnet ", " mainnet", "mainnet\n", "simnet", "signet", "mainnett", "mainne", "0", "prod", "test net", "tesnet",
                "NETWORKS", "wif_prefix", "__class__", "main\0net", "mainnet,testnet"]
BAD_TYPES = ["", "WIF", "Wif", "wif ", " wif", "wif\n", "compressed", "uncompressed", "wif_compressed", "wif-Compressed", "wif-compressed ", "wif-uncompressed",
             "wifcompressed", "wi", "w", "wif-", "-compressed", "p2wpkh"]


def err(name="Error"):
    return getattr(env.mod("exceptions"), name)


def salts(T=False):
    """-> [(argument, bytes or None if not 8/4 bytes)]"""
    out = []
    for n in range(1, 65):
        for fill in (dom.rnd("salt", n), bytes(n), b"\xff" * n, bytes(n - 1) + b"\1", b"\1" + bytes(n - 1)):
            out += [fill, fill.hex()]
    return dom.uniq(out)


def as_bytes(v):
    return v if isinstance(v, bytes) else bytes.fromhex(v)


def reject(x, what, out, network_only=False):
    if network_only:
        x.raises(what, out, err("NetworkError"))
    else:
        x.raises(what, out, err())


def build(check):
    T = check.thorough
    all_salts = salts()
    lots = [None, -1, 0, 1, 99999, 100000, 100001, 263183, 999998, 999999, 1000000, 1048575, 1048576, 2**24, 2**32, 2**32 + 100000, -100000]
    seqs = [None, -1, 0, 1, 255, 256, 2047, 4094, 4095, 4096, 4097, 65535, 65536, 2**32, -4095]

    def owner_salt(x):
        salt = x.pick("salt", all_salts, free=True)
        lot = x.pick("lot", (None, (263183, 1), (100000, 0), (263183, None), (None, 1), (99999, 1)), free=True)
        kw = {} if lot is None else dict(lot=lot[0], sequence=lot[1])
        out = x.call("intermediate_code", env.bip38.BIP38.intermediate_code, BASE, owner_salt=salt, **kw)
        try:
            want = ref.intermediate(BASE, as_bytes(salt), *(lot or ()))
        except ref.Reject:
            reject(x, "owner salt %r with lot %r" % (salt, lot), out)
            return
        x.gives("owner salt %r with lot %r" % (salt, lot), out, want)
    check.add("owner-salt", owner_salt, 0, "salts of every length to 64, bytes and hex, with and without lot and sequence")

    def lot_sequence(x):
        lot, seq = x.pick("lot", lots, free=True), x.pick("sequence", seqs, free=True)
        salt = x.pick("salt", (dom.BASE_SALT, dom.BASE_SALT[:4], bytes(8)), free=True)
        out = x.call("intermediate_code", env.bip38.BIP38.intermediate_code, BASE, lot, seq, salt)
        try:
            want = ref.intermediate(BASE, salt, lot, seq)
        except ref.Reject:
            reject(x, "lot %r sequence %r" % (lot, seq), out)
            return
        x.gives("lot %r sequence %r" % (lot, seq), out, want)
    check.add("lot-sequence", lot_sequence, 0, "lots and sequences around their limits, both, one or neither")

    codes = {lot: ref.intermediate(BASE, dom.BASE_SALT, *(lot or ())) for lot in (None, (263183, 1))}

    def seeds(x):
        seed = x.pick("seed", all_salts, free=True)
        lot = x.pick("lot", sorted(codes, key=repr), free=True)
        comp = x.pick("compressed", (False, True), free=True)
        out = x.call("create_new_encrypted_wif", dom.bip(dom.BTC_MAIN).create_new_encrypted_wif, codes[lot], "wif-compressed" if comp else "wif", seed)
        if len(as_bytes(seed)) != 24:
            reject(x, "seed %r" % (seed,), out)
        else:
            x.gives("seed %r" % (seed,), out, ref.create(codes[lot], comp, as_bytes(seed), 0))
    check.add("seeds", seeds, 0, "seeds of every length to 64, bytes and hex")

    not_hex = ["xyz", "0", "75ed1cdeb254cb3", "75ed1cdeb254cb3g", "0x75ed1cdeb254cb38", "75-ed-1c-de-b2-54-cb-38", "\u0667" * 16, "75ed1cdeb254cb38z", "z" * 48,
               "9" * 47, "g" * 48, "0x" + "11" * 24]

    def not_hexadecimal(x):
        text = x.pick("text", not_hex, free=True)
        for lot in (None, (263183, 1)):
            kw = {} if lot is None else dict(lot=lot[0], sequence=lot[1])
            out = x.call("intermediate_code", env.bip38.BIP38.intermediate_code, BASE, owner_salt=text, **kw)
            x.check_that(out.error is not None, "owner salt %r: %r" % (text, out.value))
        out = x.call("create_new_encrypted_wif", dom.bip(dom.BTC_MAIN).create_new_encrypted_wif, codes[None], "wif", text)
        x.check_that(out.error is not None, "seed %r: %r" % (text, out.value))
    check.add("not-hex", not_hexadecimal, 0, "salts and seeds that are not hexadecimal")

    def wrong_types(x):
        v = x.pick("value", (5, 8, 24, 2**63, 1.5, ["a"] * 8, tuple(range(8)), {"a": 1}, object), free=True)
        out = x.call("intermediate_code", env.bip38.BIP38.intermediate_code, BASE, owner_salt=v)
        x.check_that(out.error is not None, "owner salt %r: %r" % (v, out.value))
        out = x.call("create_new_encrypted_wif", dom.bip(dom.BTC_MAIN).create_new_encrypted_wif, codes[None], "wif", v)
        x.check_that(out.error is not None, "seed %r: %r" % (v, out.value))
    check.add("wrong-types", wrong_types, 0, "salts and seeds of other types")

    coins = ["Bitcoin", "Dogecoin", "Litecoin", "BitcoinCash" if "BitcoinCash" in dom.COINS else "Zcash", "Ripple", "Adcoin", "Divi"]

    def matrix(x):
        """Every argument of every operation, up to two of them outside their domain."""
        op = x.pick("operation", ("encrypt", "create", "confirm", "decrypt", "decrypt EC"), free=True)
        coin = x.pick("coin", coins if T else coins[:3], free=True)
        known = dom.COINS[coin]["networks"]
        net = x.pick("network", [None, "mainnet", "testnet", "regtest"] + BAD_NETWORKS)
        b = dom.bip((coin, "mainnet"))
        name = net or "mainnet"
        bad_net = name not in known
        wp, ap = known.get(name, known["mainnet"])
        alphabet = None
        comp = x.pick("compressed", (False, True))
        bad = False
        kw = {} if net is None else dict(network=net)
        key = dom.BASE_KEY
        fn, args, want = None, None, None
        if op == "encrypt":
            w = x.pick("wif", ["good", "zero key", "N", "prefix", "checksum", "length", "empty"])
            text = {"good": ref.wif(key, comp, wp), "zero key": ref.wif(bytes(32), comp, wp), "N": ref.wif(ref.i2b(ref.N, 32), comp, wp),
                    "prefix": ref.wif(key, comp, wp ^ 0x55), "checksum": ref.wif(key, comp, wp)[:-1] + "1", "length": ref.b58check(ref.prefix_bytes(wp) + key[:31]),
                    "empty": ""}[w]
            bad = w != "good"
            fn, args = b.encrypt, (text, BASE)
            want = lambda: ref.encrypt(key, comp, BASE, ap)
        elif op == "create":
            lot = x.pick("lot", sorted(codes, key=repr))
            t = x.pick("wif type", ["good"] + BAD_TYPES)
            s = x.pick("seed", [dom.BASE_SEED, dom.BASE_SEED.hex()] + [dom.rnd("s", n) for n in (1, 8, 16, 23, 25, 32, 48)] + [bytes(25), "00" * 23])
            c = x.pick("code", ["good", "damaged", "encrypted", "short"])
            text = {"good": codes[lot], "damaged": codes[lot][:-2] + "zz", "encrypted": ref.encrypt(key, comp, BASE, ap), "short": codes[lot][:-5]}[c]
            wt = ("wif-compressed" if comp else "wif") if t == "good" else t
            bad = t != "good" or c != "good" or len(as_bytes(s)) != 24
            fn, args = b.create_new_encrypted_wif, (text, wt, s)
            want = lambda: ref.create(codes[lot], comp, as_bytes(s), ap)
        else:
            made = ref.create(codes[None], comp, dom.BASE_SEED, ap)
            c = x.pick("code", ["good", "damaged", "other", "empty"])
            bad = c != "good"
            if op == "confirm":
                text = {"good": made["confirmation_code"], "damaged": made["confirmation_code"][:-2] + "zz", "other": codes[None], "empty": ""}[c]
                fn, args, want = b.confirm_code, (BASE, text), lambda: made["address"]
            elif op == "decrypt":
                e = ref.encrypt(key, comp, BASE, ap)
                text = {"good": e, "damaged": e[:-2] + "zz", "other": ref.wif(key, comp, wp), "empty": ""}[c]
                fn, args, want = b.decrypt, (text, BASE), lambda: ref.wif(key, comp, wp)
            else:
                e = made["encrypted_wif"]
                text = {"good": e, "damaged": e[:-2] + "zz", "other": made["confirmation_code"], "empty": ""}[c]
                fn, args = b.decrypt, (text, BASE)

                def want():
                    pf = ref.pass_factor(BASE, dom.BASE_SALT, False)
                    k = ref.b2i(pf) * ref.b2i(ref.dsha(dom.BASE_SEED)) % ref.N
                    return ref.wif(ref.i2b(k, 32), comp, wp)
        out = x.call(op, fn, *args, **kw)
        what = "%s on %s, network %r, %r" % (op, coin, net, args)
        if bad_net and not bad:
            x.raises(what, out, err("NetworkError"))
        elif bad or bad_net:
            x.raises(what, out, err())
        elif op == "create":
            got = x.value(what, out)
            w = want()
            x.same(what, {k: got[k] for k in w if k != "address"}, {k: w[k] for k in w if k != "address"})
        else:
            x.gives(what, out, want())
    check.add("matrix", matrix, 4 if check.thorough else 2, "each argument of each operation, up to two (thorough: four) of them unusual or outside their domain")

    def constructor(x):
        coin = x.pick("coin", sorted(dom.COINS), free=True)
        net = x.pick("network", ["mainnet", "testnet", "regtest", "", None] + BAD_NETWORKS, free=True)
        out = x.call("BIP38", env.bip38.BIP38, dom.cls(coin), net)
        if net in dom.COINS[coin]["networks"]:
            b = x.value("BIP38(%s, %r)" % (coin, net), out)
            x.same("network", b.network, net)
        else:
            reject(x, "BIP38(%s, %r)" % (coin, net), out, True)
    check.add("networks", constructor, 0, "every coin with networks it has and has not")

    def per_call(x):
        """Networks the coin does not have, chosen per call."""
        coin = x.pick("coin", [c for c in sorted(dom.COINS) if len(dom.COINS[c]["networks"]) == 1], free=True)
        net = x.pick("network", ["testnet", "regtest"] + BAD_NETWORKS[:2], free=True)
        b = dom.bip((coin, "mainnet"))
        wp, ap = dom.COINS[coin]["networks"]["mainnet"]
        made = ref.create(codes[None], True, dom.BASE_SEED, ap)
        for name, fn, args in (("encrypt", b.encrypt, (ref.wif(dom.BASE_KEY, True, wp), BASE)),
                               ("create", b.create_new_encrypted_wif, (codes[None], "wif-compressed", dom.BASE_SEED)),
                               ("confirm", b.confirm_code, (BASE, made["confirmation_code"])), ("decrypt", b.decrypt, (made["encrypted_wif"], BASE))):
            reject(x, "%s on %s under %r" % (name, coin, net), x.call(name, fn, *args, network=net), True)
    check.add("networks-per-call", per_call, 0, "coins of one network under another")

    class NotACoin:
        NETWORKS = {"mainnet": {"wif_prefix": 0x80, "address_prefix": 0}}
        ALPHABET = None

    def classes(x):
        c = x.pick("class", (object, int, str, dict, type, NotACoin, Exception, env.bip38.BIP38, env.mod("p2pkh_address").P2PKHAddress), free=True)
        for args in ((c,), (c, "mainnet"), (c, "testnet")):
            x.raises("BIP38(%s)" % (args,), x.call("BIP38", env.bip38.BIP38, *args), err("CryptocurrencyError"))
        for v in ("Bitcoin", None, 5, dom.cls("Bitcoin")()):
            out = x.call("BIP38", env.bip38.BIP38, v)
            x.check_that(out.error is not None, "BIP38(%r) was accepted" % (v,))
    check.add("classes", classes, 0, "classes that are no cryptocurrency")

    def wif_types(x):
        w = env.mod("wif")
        t = x.pick("type", BAD_TYPES + ["wif", "wif-compressed"], free=True)
        for key in (dom.BASE_KEY, dom.BASE_KEY.hex()):
            out = x.call("private_key_to_wif", w.private_key_to_wif, key, t)
            if t in ("wif", "wif-compressed"):
                x.gives("type %r" % t, out, ref.wif(dom.BASE_KEY, t != "wif", 0x80))
            else:
                x.raises("type %r" % t, out, err())
            out = x.call("create_new_encrypted_wif", dom.bip(dom.BTC_MAIN).create_new_encrypted_wif, codes[None], t, dom.BASE_SEED)
            if t in ("wif", "wif-compressed"):
                x.gives("type %r" % t, out, ref.create(codes[None], t != "wif", dom.BASE_SEED, 0))
            else:
                x.raises("type %r" % t, out, err())
    check.add("wif-types", wif_types, 0, "WIF types")

    def private_keys(x):
        n = x.pick("length", range(0, 130), free=True)
        w, s = env.mod("wif"), env.mod("secp256k1")
        for fill in (dom.BASE_KEY, bytes(31) + b"\1", b"\1" * 32, b"\0\1"):
            k = (fill * 66)[:n]
            if n == 32:
                for arg in (k, k.hex(), k.hex().upper()):
                    x.gives("encode_wif", x.call("encode_wif", w.encode_wif, arg), (ref.wif(k, False, 0x80), ref.wif(k, True, 0x80)))
                x.gives("private key", x.call("PrivateKey", lambda k: s.PrivateKey.from_bytes(k).raw(), k), k)
                continue
            for arg in (k, k.hex()):
                reject(x, "encode_wif of %d bytes" % n, x.call("encode_wif", w.encode_wif, arg))
                reject(x, "private_key_to_wif of %d bytes" % n, x.call("private_key_to_wif", w.private_key_to_wif, arg))
            reject(x, "PrivateKey of %d bytes" % n, x.call("PrivateKey", s.PrivateKey.from_bytes, k))
    check.add("private-keys", private_keys, 0, "private keys of every length to 129")

    bad = dom.uniq(dom.BAD_SCALARS + [ref.i2b(ref.N + i, 32) for i in range(40)] + [ref.i2b(ref.N + (1 << i), 32) for i in range(128)])

    def ranges(x):
        k = x.pick("key", bad, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST, [n for n in dom.NETS if n[0] == "Zcash"][0]), free=True)
        reject(x, "encrypting %s" % k.hex(), x.call("encrypt", dom.bip(net).encrypt, ref.wif(k, comp, net[2]), BASE))
        reject(x, "private key %s" % k.hex(), x.call("PrivateKey", env.mod("secp256k1").PrivateKey.from_bytes, k))
    check.add("key-range", ranges, 0, "private keys 0, N and above")

    wrong = [1, -5, 1.5, True, b"mainnet", ["mainnet"], ("mainnet",), {"mainnet": 1}, object, bytearray(b"mainnet"), BASE.encode(), bytes(40), 1 << 70]

    def of_other_types(x):
        """Texts that are of another type, numbers that are no numbers: no result."""
        comp = x.pick("compressed", (False, True), free=True)
        made = ref.create(codes[None], comp, dom.BASE_SEED, 0)
        b = dom.bip(dom.BTC_MAIN)
        t = "wif-compressed" if comp else "wif"
        w = ref.wif(dom.BASE_KEY, comp, 0x80)
        ops = {
            "encrypt": (b.encrypt, dict(wif=w, passphrase=BASE, network="mainnet"), ("wif", "passphrase", "network")),
            "decrypt": (b.decrypt, dict(encrypted_wif=ref.encrypt(dom.BASE_KEY, comp, BASE, 0), passphrase=BASE, network="mainnet"), ("encrypted_wif", "passphrase", "network")),
            "decrypt EC": (b.decrypt, dict(encrypted_wif=made["encrypted_wif"], passphrase=BASE, network="mainnet"), ("passphrase", "network")),
            "create": (b.create_new_encrypted_wif, dict(intermediate_passphrase=codes[None], wif_type=t, seed=dom.BASE_SEED, network="mainnet"),
                       ("intermediate_passphrase", "wif_type", "network")),
            "confirm": (b.confirm_code, dict(passphrase=BASE, confirmation_code=made["confirmation_code"], network="mainnet"), ("passphrase", "confirmation_code", "network")),
            "intermediate_code": (b.intermediate_code, dict(passphrase=BASE, lot=263183, sequence=1, owner_salt=dom.BASE_SALT), ("passphrase", "lot", "sequence")),
            "BIP38": (env.bip38.BIP38, dict(cryptocurrency=dom.cls("Bitcoin"), network="mainnet"), ("cryptocurrency", "network")),
            "private_key_to_wif": (env.mod("wif").private_key_to_wif, dict(private_key=dom.BASE_KEY, wif_type=t), ("wif_type",)),
            "wif_to_private_key": (env.mod("wif").wif_to_private_key, dict(wif=w), ("wif",)),
        }
        op = x.pick("operation", sorted(ops), free=True)
        fn, kw, names = ops[op]
        name = x.pick("argument", names, free=True)
        own = [ref.norm(kw[name])] if isinstance(kw[name], str) else []
        pool = wrong + own + [None]
        if name in ("lot", "sequence"):
            pool = ["abc", "", "1e5", float("nan"), float("inf"), [263183], {}, b"", object, "26318 3"]
        elif name == "network":
            pool = pool[:-1]  # None is the instance's
        for i in range(len(pool)):
            v = pool[i]
            out = x.call(op, lambda **k: fn(**k), **dict(kw, **{name: v}))
            x.check_that(out.error is not None, "%s with %s=%r returned %r" % (op, name, v, out.value))
            if name == "network" and op != "BIP38":
                x.raises("%s with network %r" % (op, v), out, err("NetworkError"))
    check.add("other-types", of_other_types, 0, "each text of each operation given as another type, lots and sequences that are no numbers")

    surrogates = ["\ud800", "\udc80", "pass\udfffword", "\ud83d", "\udca9\ud83d", "caf\u00e9\udce9"]

    def not_utf8(x):
        """Text that has no UTF-8 form is no passphrase."""
        pw = x.pick("passphrase", surrogates, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", sorted(codes, key=repr), free=True)
        b = dom.bip(dom.BTC_MAIN)
        made = ref.create(codes[lot], comp, dom.BASE_SEED, 0)
        for name, fn, args in (("encrypt", b.encrypt, (ref.wif(dom.BASE_KEY, comp, 0x80), pw)), ("decrypt", b.decrypt, (ref.encrypt(dom.BASE_KEY, comp, BASE, 0), pw)),
                               ("decrypt EC", b.decrypt, (made["encrypted_wif"], pw)), ("confirm", b.confirm_code, (pw, made["confirmation_code"])),
                               ("intermediate_code", b.intermediate_code, (pw,) + (lot or (None, None)) + (dom.BASE_SALT,))):
            out = x.call(name, fn, *args)
            x.check_that(out.error is not None, "%s with %r returned %r" % (name, pw, out.value))
    check.add("not-utf-8", not_utf8, 0, "passphrases with lone surrogates")
