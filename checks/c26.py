"""C26: the kind of an error tells what was wrong, wherever the error is carried."""
import concurrent.futures
import copy
import pickle
import traceback

from vf import dom, env, mutate, ref, refused, scen

PW = dom.BASE_PASS
KINDS = ("Error", "CryptocurrencyError", "NetworkError", "Secp256k1Error", "AddressError", "WIFError", "PassphraseError")
LOT = (263183, 1)
CONFUSING = ("PassphraseError", "NetworkError", "CryptocurrencyError")


def err(name):
    return getattr(env.mod("exceptions"), name)


def of_kind(x, what, out, name):
    x.raises(what, out, err(name))
    for k in KINDS[1:]:
        if k != name:
            x.check_that(not isinstance(out.error, err(k)), "%s: the error is a %s too, or is one instead of %s: %s" % (what, k, name, out.error))


def not_confusing(x, what, out):
    """A damaged code: the library's error, and none that sends the user after something else."""
    x.raises(what, out)
    for k in CONFUSING:
        x.check_that(not isinstance(out.error, err(k)), "%s: reported as %s: %s" % (what, type(out.error).__name__, out.error))


def artefacts():
    out = {}
    for comp in (False, True):
        out["encrypted " + "uc"[comp]] = ref.encrypt(dom.BASE_KEY, comp, PW, 0)
        for lot in (None, LOT):
            s = scen.Ec(comp=comp, lot=lot)
            t = "uc"[comp] + (" lot" if lot else "")
            out["encrypted EC " + t], out["confirmation " + t] = s.created["encrypted_wif"], s.created["confirmation_code"]
    return out


def use(x, name, code, pw, b=None, **kw):
    b = b or dom.bip(dom.BTC_MAIN)
    if name.startswith("confirmation"):
        return x.call("confirm_code", b.confirm_code, pw, code, **kw)
    return x.call("decrypt", b.decrypt, code, pw, **kw)


def build(check):
    T = check.thorough
    env.reset()
    A = artefacts()
    names = sorted(A)
    chars = {n: mutate.substitutions(A[n]) + mutate.edits(A[n]) for n in names}

    def text(x):
        n = x.pick("artefact", names, free=True)
        i = x.pick("block", range(len(chars[n]) // 100 + 1), free=True)
        pw = x.pick("passphrase", (PW, "wrong"), free=True)
        x.check_that(use(x, n, A[n], PW).error is None, "the undamaged %s is refused" % n)
        for m in chars[n][100 * i:100 * i + 100]:
            not_confusing(x, "%s damaged to %r, opened with %r" % (n, m, pw), use(x, n, m, pw))
    check.add("damaged-text", text, 0, "every substitution and edit of every code, with the right and a wrong passphrase")

    def payload(x):
        """Damage that the checksum does not show and the prefix, the length or the flag does."""
        n = x.pick("artefact", names, free=True)
        raw = ref.b58undo(A[n])
        what = x.pick("part", ("prefix", "flag", "length", "checksum"), free=True)
        pw = x.pick("passphrase", (PW, "wrong"), free=True)
        net = x.pick("network", (None, "testnet"))
        kw = dict(network=net) if net else {}
        w = 5 if n.startswith("conf") else 2
        bad = []
        if what == "prefix":
            bad = [raw[:i] + bytes([v]) + raw[i + 1:] for i in range(w) for v in range(256) if v != raw[i]]
            if w == 2:
                bad = [m for m in bad if m[:2] not in (b"\x01\x42", b"\x01\x43")]
        elif what == "flag":
            plain = n in ("encrypted u", "encrypted c")
            # reserved bits of an EC flag may be ignored (see C06), and then the code is intact
            ok = (lambda v: v in (0xC0, 0xE0)) if plain else (lambda v: not v & 0xC3)
            bad = [raw[:w] + bytes([v]) + raw[w + 1:] for v in range(256) if not ok(v)]
        elif what == "length":
            bad = [(raw + bytes(80))[:k] for k in range(0, 100) if k != len(raw)] + [raw[k:] for k in range(1, len(raw))]
        texts = [ref.b58check(m) for m in bad]
        if what == "checksum":
            full = ref.b58dec(A[n])
            texts = [ref.b58enc(full[:-4 + i] + bytes([full[-4 + i] ^ v]) + full[len(full) - 3 + i:]) for i in range(4) for v in range(1, 256)]
        for t in texts:
            not_confusing(x, "%s with another %s (%r), opened with %r" % (n, what, t, pw), use(x, n, t, pw, **kw))
    check.add("damaged-payload", payload, 1, "every other prefix and flag byte, length and checksum byte, with the right and a wrong passphrase, on two networks")

    misfits = ["wrong", "", PW[:-1], PW + " ", PW.lower(), "\u00e9" * 3, "x" * 70]
    elsewhere = [(None, None), ("Bitcoin", "testnet"), ("Litecoin", "mainnet"), ("Dogecoin", "testnet"), ("Ripple", "mainnet")]

    def misfit(x):
        n = x.pick("artefact", names, free=True)
        coin, net = x.pick("coin", elsewhere, free=True)
        # a coin with Bitcoin's address prefix and another WIF prefix opens the key: C13
        opens = coin is None or dom.COINS[coin]["networks"][net][1] == 0
        pw = x.pick("passphrase", misfits + ([] if opens else [PW]), free=True)
        detail = x.pick("detail", (False, True))
        way = x.pick("network chosen", ("by instance", "by call"))
        b = dom.bip((coin or "Bitcoin", net or "mainnet"))
        kw = dict(detail=detail)
        if way == "by call":
            b = dom.bip((coin or "Bitcoin", "mainnet"))
            kw["network"] = net or "mainnet"
        of_kind(x, "%s opened with %r on %s %s" % (n, pw, coin, net), use(x, n, A[n], pw, b, **kw), "PassphraseError")
    check.add("misfit", misfit, 2 if T else 1, "every code with passphrases and networks that do not fit")

    # codes whose address hash or payload was changed under a right checksum look like a wrong passphrase
    def unfit(x):
        n = x.pick("artefact", names, free=True)
        raw = ref.b58undo(A[n])
        start = 6 if n.startswith("conf") else 3
        i = x.pick("byte", range(start, len(raw)), free=True)
        for v in (1, 128):
            m = raw[:i] + bytes([raw[i] ^ v]) + raw[i + 1:]
            out = use(x, n, ref.b58check(m), PW)
            x.raises("%s with byte %d changed" % (n, i), out)
            for k in ("NetworkError", "CryptocurrencyError", "AddressError"):
                x.check_that(not isinstance(out.error, err(k)), "%s with byte %d changed: reported as %s" % (n, i, k))
    check.add("unfit-payload", unfit, 0, "each byte of the payload changed, checksum recomputed")

    bad_nets = ["simnet", "main", "Mainnet", "MAINNET", "mainnet ", " mainnet", "testnet3", "x", "None", "0", "bitcoin", "mainnet\n", "\u043cainnet", 5, 1.5, ("mainnet",), b"mainnet"]

    def network(x):
        coin = x.pick("coin", ("Bitcoin", "Litecoin", "Dogecoin", "Ripple", "Zcash"), free=True)
        net = x.pick("network", bad_nets, free=True)
        op = x.pick("operation", ("BIP38", "encrypt", "create", "decrypt", "decrypt EC", "confirm"), free=True)
        wrong = x.pick("passphrase", (PW, "wrong"))
        known = dom.COINS[coin]["networks"]
        if net in known:
            return
        if op == "BIP38":
            of_kind(x, "BIP38(%s, %r)" % (coin, net), x.call("BIP38", env.bip38.BIP38, dom.cls(coin), net), "NetworkError")
            return
        w, a = known["mainnet"]
        n = (coin, "mainnet", w, a)
        b, s = dom.bip(n), scen.Ec(net=n)
        out = {"encrypt": lambda: x.call("encrypt", b.encrypt, ref.wif(dom.BASE_KEY, False, w), wrong, network=net),
               "create": lambda: x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, s.code, seed=s.seed, network=net),
               "decrypt": lambda: x.call("decrypt", b.decrypt, ref.encrypt(dom.BASE_KEY, False, PW, a), wrong, network=net),
               "decrypt EC": lambda: x.call("decrypt", b.decrypt, s.created["encrypted_wif"], wrong, network=net),
               "confirm": lambda: x.call("confirm_code", b.confirm_code, wrong, s.created["confirmation_code"], network=net)}[op]()
        of_kind(x, "%s on the network %r of %s" % (op, net, coin), out, "NetworkError")
    check.add("network", network, 1, "every operation on unknown networks")

    s0 = scen.Ec()
    wifs = {c: ref.wif(dom.BASE_KEY, c, 0x80) for c in (False, True)}
    wif_bad = {c: mutate.substitutions(wifs[c]) + mutate.edits(wifs[c]) for c in wifs}
    W = lambda: env.mod("wif")

    def wif(x):
        comp = x.pick("compressed", (False, True), free=True)
        i = x.pick("block", range(len(wif_bad[comp]) // 100 + 1), free=True)
        op = x.pick("function", ("encrypt", "decode_wif", "get_wif_type", "get_wif_checksum", "wif_to_private_key"), free=True)
        fn = {"encrypt": lambda t: dom.bip(dom.BTC_MAIN).encrypt(t, PW)}.get(op) or getattr(W(), op)
        for t in wif_bad[comp][100 * i:100 * i + 100]:
            of_kind(x, "%s of the damaged WIF %r" % (op, t), x.call(op, fn, t), "WIFError")
    check.add("wif", wif, 0, "every substitution and edit of a WIF, by every function that takes one")

    def wif_payload(x):
        op = x.pick("function", ("encrypt", "decode_wif", "get_wif_type", "get_wif_checksum", "wif_to_private_key"), free=True)
        fn = {"encrypt": lambda t: dom.bip(dom.BTC_MAIN).encrypt(t, PW)}.get(op) or getattr(W(), op)
        part = x.pick("part", ("prefix", "suffix", "length", "checksum"), free=True)
        k = dom.BASE_KEY
        if part == "checksum":
            f = ref.b58dec(wifs[True])
            texts = [ref.b58enc(f[:-4 + i] + bytes([f[-4 + i] ^ v]) + f[len(f) - 3 + i:]) for i in range(4) for v in range(1, 256)]
        else:
            bad = {"prefix": [bytes([p]) + k + c for p in range(256) if p != 0x80 for c in (b"", b"\1")], "suffix": [b"\x80" + k + bytes([c]) for c in range(256) if c != 1],
                   "length": [b"\x80" + (k * 3)[:n] for n in range(0, 60) if n not in (32,)]}[part]
            texts = [ref.b58check(m) for m in bad]
        for t in texts:
            of_kind(x, "%s of a WIF with another %s: %r" % (op, part, t), x.call(op, fn, t), "WIFError")
    check.add("wif-payload", wif_payload, 0, "WIFs with every other prefix, suffix, length and checksum byte")

    def others(x):
        """Everything else that is refused, by what is wrong."""
        S, P = lambda: env.mod("secp256k1"), lambda: env.mod("p2pkh_address").P2PKHAddress
        b = lambda: dom.bip(dom.BTC_MAIN)
        table = []
        for v in (bytes(32), ref.i2b(ref.N, 32), ref.i2b(ref.N + 1, 32), b"\xff" * 32, b"k" * 31, b"k" * 33, b""):
            table.append(("PrivateKey of %s" % v.hex(), "Secp256k1Error", lambda v=v: S().PrivateKey.from_bytes(v)))
            if len(v) == 32:
                for c in (False, True):
                    table.append(("encrypt of the key %s" % v.hex(), "Secp256k1Error", lambda v=v, c=c: b().encrypt(ref.wif(v, c, 0x80), PW)))
            else:
                table.append(("encode_wif of %s" % v.hex(), "Secp256k1Error", lambda v=v: W().encode_wif(v)))
                table.append(("private_key_to_wif of %s" % v.hex(), "Secp256k1Error", lambda v=v: W().private_key_to_wif(v)))
        g = ref.ser(ref.mul(7), True)
        u = ref.ser(ref.mul(7), False)
        for v in (b"", g[:-1], g + b"\0", b"\5" + g[1:], b"\4" + g[1:], b"\2" + b"\xff" * 32, b"\2" + ref.i2b(5, 32), u[:-1], u + b"\0", u[:-1] + bytes([u[-1] ^ 1]), b"\2" + u[1:], bytes(33), bytes(65)):
            table.append(("PublicKey of %s" % v.hex(), "Secp256k1Error", lambda v=v: S().PublicKey.from_bytes(v)))
            table.append(("Point of %s" % v.hex(), "Secp256k1Error", lambda v=v: S().Point.from_bytes(v)))
            table.append(("the address of %s" % v.hex(), "Secp256k1Error", lambda v=v: P().encode(v)))
        px, py = ref.mul(7)
        for cx, cy in ((px, py ^ 1), (px + 1, py), (0, 0), (py, px), (px, 0)):
            table.append(("the point (%d, %d)" % (cx, cy), "Secp256k1Error", lambda cx=cx, cy=cy: S().Point.from_coordinates(cx, cy)))
        for pre in range(1, 256):
            table.append(("an address with the prefix %d" % pre, "AddressError", lambda pre=pre: P().decode(ref.address(ref.mul(7), True, pre))))
        for n in range(0, 40):
            if n != 21:
                table.append(("an address of %d bytes" % n, "AddressError", lambda n=n: P().decode(ref.b58check((b"\0" + dom.rnd("kind", 50))[:n]))))
        for kw in (dict(lot=99999, sequence=1), dict(lot=0, sequence=0), dict(lot=-1, sequence=1), dict(lot=1000000, sequence=1), dict(lot=1048576, sequence=1), dict(lot=100000, sequence=4096), dict(lot=100000, sequence=-1),
                   dict(lot=100000), dict(sequence=1), dict(sequence=0), dict(owner_salt=b"1234"), dict(owner_salt=b"12345678", lot=100000), dict(owner_salt=b"1234", sequence=0)):
            table.append(("intermediate_code with %r" % kw, "Error", lambda kw=kw: b().intermediate_code(PW, **kw)))
        for n in range(1, 40):
            if n not in (4, 8):
                table.append(("an owner salt of %d bytes" % n, "Error", lambda n=n: b().intermediate_code(PW, owner_salt=b"s" * n)))
                table.append(("an owner salt of %d bytes with a lot" % n, "Error", lambda n=n: b().intermediate_code(PW, 100000, 1, b"s" * n)))
            if n != 24:
                table.append(("a seed of %d bytes" % n, "Error", lambda n=n: b().create_new_encrypted_wif(s0.code, seed=b"s" * n)))
                table.append(("a seed of %d bytes in hex" % n, "Error", lambda n=n: b().create_new_encrypted_wif(s0.code, seed="5a" * n)))
        for t in ("", "WIF", "wif ", "compressed", "wif_compressed", "wif-uncompressed", "Wif-compressed", None, 5, b"wif", ("wif",)):
            table.append(("a key of the type %r" % (t,), "WIFError", lambda t=t: b().create_new_encrypted_wif(s0.code, t, s0.seed)))
            table.append(("a WIF of the type %r" % (t,), "WIFError", lambda t=t: W().private_key_to_wif(dom.BASE_KEY, t)))
        for c in (str, object, int, type("Own", (), {"NETWORKS": {"mainnet": {}}}), env.bip38.BIP38, Exception):
            table.append(("BIP38 of the class %s" % c.__name__, "CryptocurrencyError", lambda c=c: env.bip38.BIP38(c)))
        i = x.pick("block", range(len(table) // 20 + 1), free=True)
        for what, name, fn in table[20 * i:20 * i + 20]:
            of_kind(x, what, x.call(what, fn), name)
    check.add("others", others, 0, "keys, points, addresses, lots, salts, seeds, types and classes outside their domain")

    def family(x):
        a, c = x.pick("error", KINDS, free=True), x.pick("other", KINDS, free=True)
        x.observe(a, c, x.call("issubclass", issubclass, err(a), err(c)).value)
        x.same("%s is a kind of %s" % (a, c), issubclass(err(a), err(c)), a == c or c == "Error")
        x.check_that(issubclass(err(a), Exception), "%s is not an Exception" % a)
    check.add("family", family, 0, "every two kinds of error: neither is the other, all are the library's Error")

    R = refused.refusals()
    rnames = sorted(R)

    class World:
        def b(self):
            return dom.bip(dom.BTC_MAIN)

    def carried(x):
        """An error caught in one place and looked at in another is the same error."""
        i = x.pick("block", range(len(rnames) // 10 + 1), free=True)
        way = x.pick("carried", ("copy", "deepcopy", "thread", "raised again", "raised from", "printed") + tuple("pickle %d" % p for p in range(pickle.HIGHEST_PROTOCOL + 1)), free=True)
        for n in rnames[10 * i:10 * i + 10]:
            fn = lambda: R[n](World())
            if way == "thread":
                with concurrent.futures.ThreadPoolExecutor(1) as pool:
                    out = x.call(n, pool.submit(fn).result)
            else:
                out = x.call(n, fn)
            e = out.error
            if e is None or not isinstance(e, err("Error")):
                continue
            first = (type(e), str(e), e.args)
            x.check_that(first[1], "%s: the error has no text" % n)
            if way == "thread":
                g = x.call(n, fn).error
            elif way == "copy":
                g = copy.copy(e)
            elif way == "deepcopy":
                g = copy.deepcopy(e)
            elif way == "raised again":
                try:
                    raise e
                except err("Error") as caught:
                    g = caught
            elif way == "raised from":
                try:
                    try:
                        raise e
                    except err("Error") as inner:
                        raise RuntimeError("outer") from inner
                except RuntimeError as outer:
                    g = outer.__cause__
            elif way == "printed":
                lines = "".join(traceback.format_exception_only(type(e), e))
                x.check_that(type(e).__name__ in lines and str(e) in lines, "%s: printed as %r" % (n, lines))
                repr(e), "%s" % e, "{}".format(e)
                g = e
            else:
                g = pickle.loads(pickle.dumps(e, int(way[7:])))
            x.same("%s, the error after %s" % (n, way), (type(g), str(g), g.args), first)
            x.same("%s, the error read again" % n, (type(e), str(e), e.args), first)
    check.add("carried", carried, 0, "every refusal's error copied, pickled, carried from a thread, raised again, printed")
    check.assumptions += ["an error's kind is judged for codes, WIFs, addresses, keys, points, networks, classes and the documented arguments; values of foreign types may raise Python's own errors"]
