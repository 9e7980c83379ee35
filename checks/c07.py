"""C07: WIF encoding and decoding are inverse and strict."""
from vf import dom, env, mutate, ref

PREFIXES = list(range(256)) + [0x0100, 0x0180, 0x8000, 0x80EF, 0xFFFF, 0x1CB8, 0x010000, 0x123456, 0x0488ADE4]


def build(check):
    T = check.thorough
    W = lambda: env.mod("wif")

    class Coin:  # made on first use, as a subclass of the library's base class
        cache = {}

        @classmethod
        def of(cls, prefix):
            if prefix not in cls.cache:
                base = env.mod("cryptocurrencies").ICryptocurrency
                cls.cache[prefix] = type("Coin%x" % prefix, (base,), {
                    "NETWORKS": {"mainnet": {"wif_prefix": prefix, "address_prefix": 0}, "testnet": {"wif_prefix": prefix ^ 1, "address_prefix": 0}}})
            return cls.cache[prefix]

    def codec(x, key, prefix, form):
        w = W()
        arg = {"bytes": key, "hex": key.hex(), "HEX": key.hex().upper()}[form]
        both = (ref.wif(key, False, prefix), ref.wif(key, True, prefix))
        got = x.value("encode_wif", x.call("encode_wif", w.encode_wif, arg, prefix))
        x.same("encode_wif", tuple(got), both)
        coin = Coin.of(prefix)
        for comp, wif in ((False, both[0]), (True, both[1])):
            t = "wif-compressed" if comp else "wif"
            chk = ref.b58dec(wif)[-4:]
            x.same("decode_wif", tuple(x.value("decode_wif", x.call("decode_wif", w.decode_wif, wif, prefix))), (key, t, chk))
            x.gives("private_key_to_wif", x.call("private_key_to_wif", w.private_key_to_wif, arg, t, coin, "mainnet"), wif)
            x.gives("wif_to_private_key", x.call("wif_to_private_key", w.wif_to_private_key, wif, coin, "mainnet"), key.hex())
            x.gives("get_wif_type", x.call("get_wif_type", w.get_wif_type, wif, coin, "mainnet"), t)
            x.gives("get_wif_checksum", x.call("get_wif_checksum", w.get_wif_checksum, wif, coin, "mainnet"), chk.hex())

    def keys(x):
        key = x.pick("key", dom.uniq(dom.KEYS + dom.MORE_KEYS + dom.shapes(32, "wifkey") + [bytes(32), b"\xff" * 32, ref.i2b(ref.N, 32)]), free=True)
        prefix = x.pick("prefix", [0x80] + [p for p in PREFIXES if p != 0x80])
        form = x.pick("form", ("bytes", "hex", "HEX"))
        codec(x, key, prefix, form)
    check.add("keys", keys, 1 if T else 0, "every key pattern")

    def prefixes(x):
        prefix = x.pick("prefix", PREFIXES, free=True)
        key = x.pick("key", dom.KEYS[:1] + dom.shapes(32, "wifkey") + [bytes(32)])
        form = x.pick("form", ("bytes", "hex", "HEX"))
        codec(x, key, prefix, form)
    check.add("prefixes", prefixes, 2 if T else 1, "every one-byte prefix and some longer ones, with key patterns and argument forms")

    good = {(p, c): ref.wif(dom.BASE_KEY, c, p) for p in (0x80, 0xEF, 0x1CB8) for c in (False, True)}
    damaged = {k: mutate.substitutions(v) + mutate.edits(v) for k, v in good.items()}

    def everyone(x, wif, prefix, encrypt=True):
        """Every function that takes a WIF refuses this one."""
        w, coin = W(), Coin.of(prefix)
        err = env.mod("exceptions").Error
        x.raises("decode_wif(%r)" % wif, x.call("decode_wif", w.decode_wif, wif, prefix), err)
        for f in (w.wif_to_private_key, w.get_wif_type, w.get_wif_checksum):
            x.raises("%s(%r)" % (f.__name__, wif), x.call(f.__name__, f, wif, coin, "mainnet"), err)
        if encrypt:
            b = env.bip38.BIP38(coin, "mainnet")
            x.raises("encrypt(%r)" % wif, x.call("encrypt", b.encrypt, wif, "p"), err)

    def damage(x):
        k = x.pick("WIF", sorted(good) if T else sorted(good)[:2] + sorted(good)[-1:], free=True)
        i = x.pick("block", range(len(damaged[k]) // 50 + 1), free=True)
        for m in damaged[k][50 * i:50 * i + 50]:
            everyone(x, m, k[0])
    check.add("damaged", damage, 0, "every changed, missing, added, swapped and foreign character, by every function that takes a WIF")

    def bytes_(x):
        """Under a right checksum: every prefix byte, every suffix byte, every length."""
        what = x.pick("what", ("prefix", "suffix", "suffix-two", "length", "length-pattern", "checksum"), free=True)
        v = x.pick("value", range(256), free=True)
        key, p = dom.BASE_KEY, 0x80
        if what == "prefix":
            if v != p:
                for c in (b"", b"\1"):
                    everyone(x, ref.b58check(bytes([v]) + key + c), p)
        elif what == "suffix":
            if v != 1:
                everyone(x, ref.b58check(b"\x80" + key + bytes([v])), p)
                everyone(x, ref.b58check(b"\x80" + key[:31] + b"\1" + bytes([v])), p)
        elif what == "suffix-two":
            everyone(x, ref.b58check(b"\x80" + key + b"\1" + bytes([v])), p)
            everyone(x, ref.b58check(b"\x80" + key + bytes([v]) + b"\1"), p)
        elif what == "length":
            if v not in (32, 33):
                everyone(x, ref.b58check(b"\x80" + (key * 9)[:v]), p)
                everyone(x, ref.b58check(b"\x80" + (key * 9)[:v] + b"\1") if v != 31 else ref.b58check(b"\x80"), p)
        elif what == "length-pattern":
            if v not in (32, 33) and v < 64:
                for f in (b"\0", b"\1", b"\xff"):
                    everyone(x, ref.b58check(b"\x80" + f * v), p)
                if v < 33:
                    everyone(x, ref.b58check((b"\x80" + key)[:v]) if v else "", p)
        else:
            for c in (b"", b"\1"):
                raw = b"\x80" + key + c
                good_sum = ref.dsha(raw)[:4]
                for i in range(4):
                    if v:
                        everyone(x, ref.b58enc(raw + good_sum[:i] + bytes([good_sum[i] ^ v]) + good_sum[i + 1:]), p)
                if not v:
                    for s in (ref.sha256(raw)[:4], ref.dsha(raw)[-4:], ref.dsha(raw[1:])[:4], ref.dsha(raw[1:33])[:4], good_sum[::-1], bytes(4),
                              ref.dsha(key)[:4]):
                        everyone(x, ref.b58enc(raw + s), p)
    check.add("bytes", bytes_, 0, "every prefix, suffix, length and checksum byte under Base58Check")

    def foreign_prefix(x):
        p, q = x.pick("made for", PREFIXES, free=True), x.pick("read as", PREFIXES if T else PREFIXES[::5] + PREFIXES[-9:], free=True)
        comp = x.pick("compressed", (False, True), free=True)
        if p == q:
            x.observe("same")
            return
        raw = ref.prefix_bytes(p) + dom.BASE_KEY + (b"\1" if comp else b"")
        try:
            ref.unwif(ref.b58check(raw), q)
            x.observe("also a WIF of the other prefix")  # 0x01 and 0x0180 cannot be told apart
        except ref.Reject:
            everyone(x, ref.b58check(raw), q, encrypt=False)
    check.add("foreign-prefix", foreign_prefix, 0, "WIFs of one prefix read under another")

    others = ["", "1", "1" * 51, "5", "K", "L" * 52, " ", ref.encrypt(dom.BASE_KEY, True, "p", 0), ref.address(ref.mul(5), True, 0),
              dom.BASE_KEY.hex(), dom.BASE_KEY.hex() + "01", "passphrase", ref.b58check(b"\x80"), ref.b58check(b""), ref.b58enc(b"\x80" + dom.BASE_KEY),
              ref.b58enc(b"\x80" + dom.BASE_KEY + b"\1"), ref.b58enc(ref.b58dec(good[0x80, True]), ref.XRP), ref.b58enc(ref.b58dec(good[0x80, False]), ref.XRP)]

    def foreign(x):
        everyone(x, x.pick("text", others, free=True), 0x80)
    check.add("foreign-text", foreign, 0, "other texts and codes, and WIFs without their checksum")

    def out_of_range_key(x):
        """A well-formed WIF of a number that is no private key is refused by encrypt."""
        key = x.pick("key", dom.BAD_SCALARS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        out = x.call("encrypt", dom.bip(dom.BTC_MAIN).encrypt, ref.wif(key, comp, 0x80), "p")
        x.raises("encrypt of key %s" % key.hex(), out)
    check.add("invalid-key", out_of_range_key, 0, "WIFs of 0, N and above are not encrypted")

    def bad_length(x):
        n = x.pick("length", [k for k in range(0, 70) if k != 32], free=True)
        key = x.pick("form", ("bytes", "hex"), free=True)
        arg = (dom.BASE_KEY * 3)[:n] if key == "bytes" else (dom.BASE_KEY * 3)[:n].hex()
        err = env.mod("exceptions").Error
        x.raises("encode_wif of %d bytes" % n, x.call("encode_wif", W().encode_wif, arg), err)
        x.raises("private_key_to_wif of %d bytes" % n, x.call("private_key_to_wif", W().private_key_to_wif, arg), err)
    check.add("key-length", bad_length, 0, "keys of every other length")
