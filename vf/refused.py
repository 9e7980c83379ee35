"""Calls that are to be refused, one for each way of being wrong that the library knows."""
from vf import dom, env, ref, scen

PW = dom.BASE_PASS


def refusals():
    """-> {name: function of a world (see C14)}"""
    R = {}
    lot = (263183, 1)
    s, l = scen.Ec(net=dom.BTC_MAIN, comp=True), scen.Ec(net=dom.BTC_MAIN, comp=False, lot=lot)
    texts = {"encrypted": ref.encrypt(dom.BASE_KEY, True, PW, 0), "encrypted EC": s.created["encrypted_wif"], "encrypted EC lot": l.created["encrypted_wif"],
             "confirmation": s.created["confirmation_code"], "confirmation lot": l.created["confirmation_code"], "intermediate": s.code, "intermediate lot": l.code,
             "WIF": ref.wif(dom.BASE_KEY, True, 0x80), "WIF uncompressed": ref.wif(dom.BASE_KEY, False, 0x80), "address": ref.address(ref.mul(7), True, 0)}
    W, A, U, C, S, L = (lambda: env.mod("wif")), (lambda: env.mod("p2pkh_address").P2PKHAddress), (lambda: env.mod("utils")), (lambda: env.mod("crypto")), (lambda: env.mod("secp256k1")), (lambda: env.mod("libs.base58"))
    use = {}
    for n in texts:
        if n.startswith("encrypted"):
            use[n] = {"decrypt": lambda w, t: w.b().decrypt(t, PW)}
        elif n.startswith("conf"):
            use[n] = {"confirm": lambda w, t: w.b().confirm_code(PW, t)}
        elif n.startswith("inter"):
            use[n] = {"create": lambda w, t: w.b().create_new_encrypted_wif(t, "wif", dom.BASE_SEED)}
        elif n.startswith("WIF"):
            use[n] = {"encrypt": lambda w, t: w.b().encrypt(t, PW), "decode_wif": lambda w, t: W().decode_wif(t), "get_wif_type": lambda w, t: W().get_wif_type(t)}
        else:
            use[n] = {"address decode": lambda w, t: A().decode(t)}
    for n, t in texts.items():
        raw = ref.b58undo(t)
        flip = lambda i, m: ref.b58check(raw[:i] + bytes([raw[i] ^ m]) + raw[i + 1:])
        bad = {"a wrong character": t[:9] + "0" + t[10:], "a character outside ASCII": t[:9] + "\u00e9" + t[10:], "a space": t + " ", "nothing": "", "one character": t[:1],
               "a wrong checksum": ref.b58enc(raw + b"\1\2\3\4"), "a byte more": ref.b58check(raw + b"\0"), "a byte less": ref.b58check(raw[:-1]),
               "another prefix": flip(0, 0x40), "None": None, "a number": 5, "bytes": t.encode()}
        if n != "address" and not n.startswith("WIF"):
            bad["another second byte"] = flip(1, 0x10)
        if n.startswith("enc"):
            for f in (0xC4, 0x40, 0xFF, 0x01):
                bad["the flag %02x" % f] = ref.b58check(raw[:2] + bytes([f]) + raw[3:])
            bad["another address hash"], bad["another last byte"] = flip(4, 1), flip(38, 1)
        if n.startswith("conf"):
            for f in (0xC4, 0x40, 0xE0, 0x01):
                bad["the flag %02x" % f] = ref.b58check(raw[:5] + bytes([f]) + raw[6:])
            bad["another address hash"], bad["another point"], bad["another prefix of the point"] = flip(7, 1), flip(30, 1), flip(18, 0x40)
        if n.startswith("inter"):
            bad["another magic"], bad["no point"] = flip(7, 4), ref.b58check(raw[:16] + b"\2" + b"\xff" * 32)
            bad["the prefix 04"], bad["a point not on the curve"] = ref.b58check(raw[:16] + b"\4" + raw[17:]), ref.b58check(raw[:16] + b"\2" + ref.i2b(5, 32))
        if n.startswith("WIF"):
            bad["a key of 31 bytes"], bad["a key of 34"] = ref.b58check(b"\x80" + dom.BASE_KEY[1:]), ref.b58check(b"\x80" + dom.BASE_KEY + b"\1\1")
            bad["the suffix 2"] = ref.b58check(b"\x80" + dom.BASE_KEY + b"\2")
        for op, fn in use[n].items():
            for b, v in bad.items():
                R["%s of %s with %s" % (op, n, b)] = lambda w, fn=fn, v=v: fn(w, v)
    for k, v in (("0", bytes(32)), ("N", ref.i2b(ref.N, 32)), ("all ones", b"\xff" * 32)):
        R["encrypt the key " + k] = lambda w, v=v: w.b().encrypt(ref.wif(v, True, 0x80), PW)
        R["PrivateKey of " + k] = lambda w, v=v: S().PrivateKey.from_bytes(v)
    for net in ("simnet", "Mainnet", "mainnet ", 5, ("mainnet",)):
        for op, fn in (("encrypt", lambda w, n: w.b().encrypt(texts["WIF"], PW, n)), ("decrypt", lambda w, n: w.b().decrypt(texts["encrypted"], PW, n)),
                       ("create", lambda w, n: w.b().create_new_encrypted_wif(s.code, "wif", dom.BASE_SEED, n)), ("confirm", lambda w, n: w.b().confirm_code(PW, texts["confirmation"], n)),
                       ("BIP38", lambda w, n: env.bip38.BIP38(dom.cls("Bitcoin"), n)), ("private_key_to_wif", lambda w, n: W().private_key_to_wif(dom.BASE_KEY, "wif", dom.cls("Bitcoin"), n)),
                       ("wif_to_private_key", lambda w, n: W().wif_to_private_key(texts["WIF"], dom.cls("Bitcoin"), n))):
            R["%s on the network %r" % (op, net)] = lambda w, fn=fn, net=net: fn(w, net)
    for op, fn in (("decrypt", lambda w, p: w.b().decrypt(texts["encrypted"], p)), ("decrypt EC", lambda w, p: w.b().decrypt(texts["encrypted EC"], p)),
                   ("decrypt EC lot", lambda w, p: w.b().decrypt(texts["encrypted EC lot"], p, None, True)), ("confirm", lambda w, p: w.b().confirm_code(p, texts["confirmation"])),
                   ("confirm lot", lambda w, p: w.b().confirm_code(p, texts["confirmation lot"], detail=True)), ("encrypt", lambda w, p: w.b().encrypt(texts["WIF"], p)),
                   ("intermediate", lambda w, p: w.b().intermediate_code(p, owner_salt=dom.BASE_SALT))):
        for p in ("wrong", "", None, 5, b"bytes", "\ud800"):
            if not (op in ("encrypt", "intermediate") and p in ("wrong", "")):
                R["%s with the passphrase %r" % (op, p)] = lambda w, fn=fn, p=p: fn(w, p)
    for kw in (dict(lot=99999, sequence=1), dict(lot=1000000, sequence=1), dict(lot=100000, sequence=4096), dict(lot=100000, sequence=-1), dict(lot=100000), dict(sequence=1), dict(lot="x", sequence=1),
               dict(owner_salt=b"1234567"), dict(owner_salt=b"1234"), dict(owner_salt="xyz"), dict(owner_salt=5), dict(owner_salt=b"12345", lot=100000, sequence=1)):
        R["intermediate %r" % kw] = lambda w, kw=kw: w.b().intermediate_code(PW, **kw)
    for sd in (b"x" * 23, b"x" * 25, "00" * 23, "xyz", 5):
        R["create with the seed %r" % (sd,)] = lambda w, sd=sd: w.b().create_new_encrypted_wif(s.code, "wif", sd)
    for t in ("WIF", "", "wif-", "compressed", None, 5):
        R["create of the type %r" % (t,)] = lambda w, t=t: w.b().create_new_encrypted_wif(s.code, t, dom.BASE_SEED)
        R["private_key_to_wif of the type %r" % (t,)] = lambda w, t=t: W().private_key_to_wif(dom.BASE_KEY, t)
    for c in (None, str, 5, "Bitcoin", type("Own", (), {"NETWORKS": {}}), type("Own", (env.mod("cryptocurrencies").ICryptocurrency,), {})):
        R["BIP38(%s)" % getattr(c, "__name__", repr(c))] = lambda w, c=c: env.bip38.BIP38(c)
    for k in (b"k" * 31, b"k" * 33, "xyz", "00" * 31, 5, None):
        R["encode_wif of %r" % (k,)] = lambda w, k=k: W().encode_wif(k)
        R["PrivateKey of %r" % (k,)] = lambda w, k=k: S().PrivateKey.from_bytes(k)
    R["encode_wif with the prefix -1"] = lambda w: W().encode_wif(dom.BASE_KEY, -1)
    R["address with the prefix -1"] = lambda w: A().encode(ref.ser(ref.mul(7), True), address_prefix=-1)
    for p in (b"", b"\2" + b"\xff" * 32, b"\5" + ref.ser(ref.mul(7), True)[1:], ref.ser(ref.mul(7), False)[:-1] + b"\0", ref.ser(ref.mul(7), True)[:-1], None, 5):
        R["PublicKey of %r" % (p,)] = lambda w, p=p: S().PublicKey.from_bytes(p)
        R["Point of %r" % (p,)] = lambda w, p=p: S().Point.from_bytes(p)
        R["address of %r" % (p,)] = lambda w, p=p: A().encode(p)
    R["Point off the curve"] = lambda w: S().Point.from_coordinates(ref.mul(7)[0], ref.mul(8)[1])
    for n, fn in (("get_bytes", lambda v: U().get_bytes(v)), ("sha256", lambda v: C().sha256(v)), ("hash160", lambda v: C().hash160(v)), ("ripemd160", lambda v: C().ripemd160(v)), ("get_checksum", lambda v: C().get_checksum(v))):
        for v in ("xyz", "123", 5, 1.5, ["a"]):
            R["%s of %r" % (n, v)] = lambda w, fn=fn, v=v: fn(v)
    R["integer_to_bytes too wide"] = lambda w: U().integer_to_bytes(256, 1)
    R["integer_to_bytes negative"] = lambda w: U().integer_to_bytes(-5)
    R["integer_to_bytes in no order"] = lambda w: U().integer_to_bytes(5, 1, "middle")
    R["bytes_to_integer of text"] = lambda w: U().bytes_to_integer("text")
    R["bytes_reverse of text"] = lambda w: U().bytes_reverse("text")
    for al in (ref.BTC, ref.XRP):
        for v in ("0", "l", "\u00e9", "1 1", 5, None):
            R["base58 decode %r %s" % (v, al[:2])] = lambda w, v=v, al=al: L().decode(v, al)
        for v in ("1111", "", "2", texts["address"][:-1]):
            R["base58 check_decode %r %s" % (v, al[:2])] = lambda w, v=v, al=al: L().check_decode(v, al)
    R["base58 encode of None"] = lambda w: L().encode(None)
    R["base58 check_encode of text"] = lambda w: L().check_encode("text")
    return R
