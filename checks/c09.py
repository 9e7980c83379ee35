"""C09: Base58 and Base58Check."""
import itertools
import sys

from vf import dom, env, ref

ALPH = [("default", None), ("bitcoin", ref.BTC), ("ripple", ref.XRP), ("flickr", "123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ")]


def build(check):
    T = check.thorough
    B = lambda: env.mod("libs.base58")

    def both(x, raw, alph):
        a, args = alph or ref.BTC, () if alph is None else (alph,)
        t = ref.b58enc(raw, a)
        x.gives("encode(%s)" % raw.hex(), x.call("encode", B().encode, raw, *args), t)
        x.gives("decode(%s)" % t, x.call("decode", B().decode, t, *args), raw)

    def checked(x, raw, alph):
        a, args = alph or ref.BTC, () if alph is None else (alph,)
        t = ref.b58check(raw, a)
        x.gives("check_encode(%s)" % raw.hex(), x.call("check_encode", B().check_encode, raw, *args), t)
        x.gives("check_decode(%s)" % t, x.call("check_decode", B().check_decode, t, *args), raw)

    def small(x):
        n, alph = x.pick("alphabet", ALPH, free=True)
        hi = x.pick("first byte", range(257), free=True)
        if hi == 256:
            for raw in [b""] + [bytes([v]) for v in range(256)]:
                both(x, raw, alph)
                checked(x, raw, alph)
            return
        for lo in range(256):
            both(x, bytes([hi, lo]), alph)
            if T or hi < 4:
                checked(x, bytes([hi, lo]), alph)
    check.add("bytes-to-2", small, 0, "every byte string of at most two bytes")

    if T:
        def three(x):
            alph = x.pick("alphabet", ALPH[1:], free=True)[1]
            hi = x.pick("first byte", range(256), free=True)
            mid = x.pick("second byte", range(0, 256), free=True)
            for lo in range(0, 256, 3):
                both(x, bytes([hi, mid, lo]), alph)
        check.add("bytes-3", three, 0, "every third byte string of three bytes")

    def lengths(x):
        n, alph = x.pick("alphabet", ALPH, free=True)
        k = x.pick("length", range(0, 131), free=True)
        for raw in dom.shapes(k, "b58")[:400] if k > 2 else [bytes(k)]:
            if T or len(raw) <= 90:
                both(x, raw, alph)
        for raw in (bytes(k), b"\xff" * k, bytes(k // 2) + b"\1" * (k - k // 2), b"\1" + bytes(max(0, k - 1)), dom.rnd("bb", k)):
            both(x, raw, alph)
            checked(x, raw, alph)
    check.add("lengths", lengths, 0, "byte patterns of every length to 130, leading zeros of every number")

    def long(x):
        n, alph = x.pick("alphabet", ALPH, free=True)
        k = x.pick("length", list(range(131, 300)) + [511, 512, 513, 1023, 1024, 1025, 1100, 2047, 2048, 2049] + [4095, 4096, 4097] + ([8191, 8192, 8193, 10000] if T else []), free=True)
        for raw in (dom.rnd("long", k), b"\1" + bytes(k - 1), bytes(k), bytes(k - 40) + dom.rnd("long", 40)):
            both(x, raw, alph)
        checked(x, dom.rnd("long", k), alph)
    check.add("long", long, 0, "lengths from 131 to 299, and around the powers of two")

    def powers(x):
        """Around powers of 58 and 256, where the number of digits changes."""
        alph = x.pick("alphabet", ALPH, free=True)[1]
        base = x.pick("base", (58, 256), free=True)
        e = x.pick("exponent", range(1, 90), free=True)
        for d in (-1, 0, 1):
            v = base**e + d
            raw = v.to_bytes((v.bit_length() + 7) // 8, "big")
            both(x, raw, alph)
            both(x, b"\0" + raw, alph)
    check.add("powers", powers, 0, "numbers next to each power of 58 and 256")

    def texts(x):
        n, a = x.pick("alphabet", ALPH[1:], free=True)
        first = x.pick("first character", range(59), free=True)
        pre = [""] + list(a)
        for more in ([()] if first == 0 else itertools.chain(*(itertools.product(a, repeat=k) for k in range(0, 4 if T else 3)))):
            t = pre[first] + "".join(more)
            raw = x.value("decode(%r)" % t, x.call("decode", B().decode, t, a))
            x.same("decode(%r)" % t, raw, ref.b58dec(t, a))
            x.gives("encode(decode(%r))" % t, x.call("encode", B().encode, raw, a), t)
    check.add("texts", texts, 0, "every string over the alphabet of at most %d characters" % (4 if T else 3))

    def foreign(x):
        n, alph = x.pick("alphabet", ALPH, free=True)
        args = () if alph is None else (alph,)
        a = alph or ref.BTC
        block = x.pick("code points / 256", range(0, sys.maxunicode // 256 + 1 if T else 0x300), free=True)
        for cp in range(256 * block, 256 * block + 256):
            c = chr(cp)
            if c in a:
                continue
            for t in (c, "a" + c, c + "2", "a" + c + "z"):
                try:
                    got = B().decode(t, *args)
                except ValueError:
                    continue
                x.fail("decode(%r) returned %r" % (t, got))
        x.observe("refused", n, block)
    check.add("foreign-characters", foreign, 0, "every code point outside the alphabet%s, at each place" % ("" if T else " to U+2FFFF"))

    def sums(x):
        n, alph = x.pick("alphabet", ALPH, free=True)
        args = () if alph is None else (alph,)
        raw = x.pick("payload", [b"", b"\0", b"a", bytes(4), bytes(20), dom.rnd("p", 21), dom.rnd("q", 37), b"\0" + dom.rnd("r", 20), b"\xff" * 33], free=True)
        s = ref.dsha(raw)[:4]
        sums = [s[:i] + bytes([s[i] ^ v]) + s[i + 1:] for i in range(4) for v in range(1, 256)]
        sums += [ref.sha256(raw)[:4], s[::-1], b"", s[:3], s[1:], s + s, ref.dsha(raw)[-4:], ref.dsha(raw[:-1])[:4]]
        for c in dom.uniq(sums):
            if c == s:
                continue
            body = raw + c
            if len(body) >= 4 and ref.dsha(body[:-4])[:4] == body[-4:]:
                continue
            t = ref.b58enc(body, alph or ref.BTC)
            x.raises("check_decode(%r)" % t, x.call("check_decode", B().check_decode, t, *args), ValueError)
        for k in range(4):
            t = ref.b58enc(s[:k], alph or ref.BTC)
            x.raises("check_decode of %d bytes" % k, x.call("check_decode", B().check_decode, t, *args), ValueError)
        other = ref.XRP if (alph or ref.BTC) == ref.BTC else ref.BTC
        if len(raw) > 3 and raw.strip(b"\0"):
            t = ref.b58check(raw, other)
            x.raises("check_decode in the other alphabet", x.call("check_decode", B().check_decode, t, *args), ValueError)
    check.add("checksums", sums, 0, "every wrong value of every checksum byte, short texts, the other alphabet")

    def helpers(x):
        v = x.pick("bytes", dom.uniq([b"", b"\0", b"a"] + dom.shapes(9, "sti") + dom.shapes(33, "sti")[:60]), free=True)
        x.gives("string_to_int", x.call("string_to_int", B().string_to_int, v), int.from_bytes(v, "big"))
        t = v.hex()
        x.gives("ensure_string", x.call("ensure_string", B().ensure_string, t), t)
        x.gives("ensure_string", x.call("ensure_string", B().ensure_string, t.encode()), t)
    check.add("helpers", helpers, 0, "string_to_int, ensure_string")
