"""C08: addresses."""
from vf import dom, env, mutate, ref

PREFIXES = list(range(256)) + [0x0100, 0x0582, 0x1325, 0x1957, 0x1CB8, 0x2089, 0x0AB3, 0x1C28, 0x1D25, 0xFFFF, 0x8000, 0x010000, 0x123456]
ALPH = [("bitcoin", ref.BTC), ("ripple", ref.XRP), ("flickr", "123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ"), ("bitcoin backwards", ref.BTC[::-1])]


def build(check):
    T = check.thorough
    A = lambda: env.mod("p2pkh_address").P2PKHAddress

    def encode(x, key, prefix, comp, alph, form):
        pt = ref.mul(ref.b2i(key))
        PK = env.mod("secp256k1").PublicKey
        c, u = ref.ser(pt, True), ref.ser(pt, False)
        arg = {"object": lambda: PK.from_bytes(c), "object-u": lambda: PK.from_bytes(u), "bytes": lambda: c, "hex": lambda: c.hex(),
               "bytes-u": lambda: u, "hex-u": lambda: u.hex(), "HEX": lambda: c.hex().upper(),
               "private": lambda: env.mod("secp256k1").PrivateKey.from_bytes(key).public_key()}[form]()
        want = ref.address(pt, comp, prefix, alph)
        shown = arg if isinstance(arg, (str, bytes)) else form
        out = x.call("encode", lambda a, **k: A().encode(arg, **k), shown, address_prefix=prefix,
                     public_key_type="compressed" if comp else "uncompressed", alphabet=alph)
        x.gives("address of %s" % c.hex(), out, want)
        x.gives("decode(%s)" % want, x.call("decode", A().decode, want, address_prefix=prefix, alphabet=alph),
                ref.hash160(ref.ser(pt, comp)).hex())

    forms = ("object", "bytes", "hex", "object-u", "bytes-u", "hex-u", "HEX", "private")

    def keys(x):
        comp = x.pick("compressed", (True, False), free=True)
        key = x.pick("key", dom.uniq(dom.KEYS + dom.RARE_KEYS + dom.MORE_KEYS), free=True)
        encode(x, key, x.pick("prefix", [0] + PREFIXES[1:]), comp, x.pick("alphabet", ALPH)[1], x.pick("form", forms))
    check.add("keys", keys, 1 if T else 0, "every key pattern, both types")

    def prefixes(x):
        prefix = x.pick("prefix", PREFIXES, free=True)
        alph = x.pick("alphabet", ALPH, free=True)[1]
        comp = x.pick("compressed", (True, False), free=True)
        encode(x, x.pick("key", [dom.BASE_KEY] + dom.RARE_KEYS), prefix, comp, alph, x.pick("form", forms))
    check.add("prefixes", prefixes, 2 if T else 1, "every prefix and alphabet with argument forms and rare key hashes")

    def default(x):
        """Without options: Bitcoin's prefix and alphabet, compressed."""
        key = x.pick("key", [dom.BASE_KEY] + dom.RARE_KEYS, free=True)
        pt = ref.mul(ref.b2i(key))
        want = ref.address(pt, True, 0)
        x.gives("address", x.call("encode", A().encode, ref.ser(pt, True).hex()), want)
        x.gives("address of the uncompressed form", x.call("encode", A().encode, ref.ser(pt, False).hex()), want)
        x.gives("decode", x.call("decode", A().decode, want), ref.hash160(ref.ser(pt, True)).hex())
    check.add("defaults", default, 0, "no options given")

    hashes = dom.uniq(dom.shapes(20, "h160") + [bytes(20), b"\xff" * 20] + dom.shapes(20, "another"))

    def decode(x):
        h = x.pick("hash", hashes, free=True)
        alph = x.pick("alphabet", ALPH, free=True)[1]
        prefix = x.pick("prefix", PREFIXES if T else [0, 5, 0x30, 0x6F, 0xFF, 0x1CB8, 0x0582, 0x010000], free=True)
        a = ref.b58check(ref.prefix_bytes(prefix) + h, alph)
        x.gives("decode(%s)" % a, x.call("decode", A().decode, a, address_prefix=prefix, alphabet=alph), h.hex())
    check.add("decode", decode, 0, "every pattern of the key hash")

    bad = lambda: (ValueError, env.mod("exceptions").Error)
    good = {(p, n): ref.address(ref.mul(ref.b2i(dom.BASE_KEY)), True, p, a) for p in (0, 0x6F, 0x1CB8) for n, a in ALPH}
    damaged = {k: mutate.substitutions(v) + mutate.edits(v) for k, v in good.items()}

    def damage(x):
        k = x.pick("address", sorted(good), free=True)
        i = x.pick("block", range(len(damaged[k]) // 100 + 1), free=True)
        for m in damaged[k][100 * i:100 * i + 100]:
            x.raises("decode(%r)" % m, x.call("decode", A().decode, m, address_prefix=k[0], alphabet=dict(ALPH)[k[1]]), bad())
    check.add("damaged", damage, 0, "every changed, missing, added, swapped and foreign character")

    def strict(x):
        what = x.pick("what", ("prefix", "length", "length-zeros", "checksum", "two-byte"), free=True)
        v = x.pick("value", range(256), free=True)
        h, alph = dom.rnd("h", 20), x.pick("alphabet", ALPH, free=True)[1]
        texts, p = [], 5
        if what == "prefix" and v != p:
            texts = [ref.b58check(bytes([v]) + h, alph)]
        elif what == "length" and v != 20 and v < 100:
            texts = [ref.b58check(bytes([p]) + (h * 5)[:v], alph), ref.b58check((bytes([p]) + h * 5)[:v] if v != 21 else b"", alph)]
        elif what == "length-zeros" and v != 20 and v < 100:
            texts = [ref.b58check(bytes([p]) + bytes(v), alph), ref.b58check(bytes(v if v != 21 else 1), alph)]
        elif what == "checksum" and v:
            raw = bytes([p]) + h
            s = ref.dsha(raw)[:4]
            texts = [ref.b58enc(raw + s[:i] + bytes([s[i] ^ v]) + s[i + 1:], alph) for i in range(4)]
            texts += [ref.b58enc(raw + ref.sha256(raw)[:4], alph), ref.b58enc(raw, alph)]
        elif what == "two-byte":
            texts, p = [ref.b58check(bytes([0x1C, v]) + h, alph)] if v != 0xB8 else [], 0x1CB8
            texts += [ref.b58check(bytes([v, 0xB8]) + h, alph)] if v != 0x1C else []
            texts += [ref.b58check(bytes([v]) + h, alph)]
        for t in texts:
            x.raises("decode(%r, prefix %x)" % (t, p), x.call("decode", A().decode, t, address_prefix=p, alphabet=alph), bad())
        x.observe(what, v)
    check.add("strict", strict, 0, "every other prefix byte, length and checksum byte")

    def cross(x):
        p, q = x.pick("made for", PREFIXES, free=True), x.pick("read as", PREFIXES if T else PREFIXES[::7] + PREFIXES[-13:], free=True)
        (n, alph), (m, other) = x.pick("alphabet", ALPH, free=True), x.pick("read in", ALPH, free=True)
        if p == q and n == m:
            x.observe("same")
            return
        t = ref.address(ref.mul(7), True, p, alph)
        x.raises("an address for %x/%s read as %x/%s" % (p, n, q, m), x.call(
            "decode", A().decode, t, address_prefix=q, alphabet=other), bad())
    check.add("other-prefix", cross, 0, "addresses of one prefix and alphabet read under another")

    def bad_key(x):
        """What is no public key gets no address."""
        c = ref.ser(ref.mul(7), True)
        forms = [b"\2" + ref.i2b(5, 32), b"\4" + c[1:] + c[1:], b"\5" + c[1:], c[:-1], c + b"\0", b"\0" * 33, b"\2" + b"\xff" * 32, b"\4" + bytes(64)]
        k = x.pick("key", forms, free=True)
        k = k if x.pick("form", ("bytes", "hex"), free=True) == "bytes" else k.hex()
        out = x.call("encode", A().encode, k)
        x.check_that(out.error is not None, "an address for %r: %r" % (k, out.value))
    check.add("no-key", bad_key, 0, "byte strings that are no public key")
