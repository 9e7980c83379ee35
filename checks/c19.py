"""C19: integer, byte and hex conversions, around every power of two, for all widths, orders and signs."""
from vf import dom, env, ref

U = None


def encoded(n, width, order, signed):
    """The encoding, from its definition (not via int.to_bytes). -> bytes or None if it does not fit"""
    lo, hi = (-(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1) if signed else (0, (1 << (8 * width)) - 1)
    if not lo <= n <= hi:
        return None
    v = n + (1 << (8 * width)) if n < 0 else n
    digits = []
    for _ in range(width):
        v, d = divmod(v, 256)
        digits.append(d)
    return bytes(digits if order == "little" else digits[::-1])


def decoded(b, order, signed):
    v = 0
    for d in (b if order == "big" else b[::-1]):
        v = v * 256 + d
    if signed and b and v >> (8 * len(b) - 1):
        v -= 1 << (8 * len(b))
    return v


def shortest(n):
    w = 1
    while n >= 256 ** w:
        w += 1
    return w


HEX = "0123456789abcdef"


def hexed(b):
    return "".join(HEX[v >> 4] + HEX[v & 15] for v in b)


def build(check):
    T = check.thorough
    u = env.mod("utils")
    top = 600 if T else 300

    def forward(x, n, width, order, signed, default=False):
        kw = {}
        if width is not None or not default:
            kw["bytes_num"] = width
        if order != "big" or not default:
            kw["endianness"] = order
        if signed or not default:
            kw["signed"] = signed
        out = x.call("integer_to_bytes", u.integer_to_bytes, n, **kw)
        what = "integer_to_bytes(%s, %s)" % (hex(n), kw)
        if width is None:
            if n >= 0 and not signed:
                x.gives(what, out, encoded(n, shortest(n), order, False))
            elif n < 0 and not signed:
                x.check_that(out.error is not None, "%s returned %r" % (what, out.value))
            elif out.error is None:
                # signed without a width: if it fits, it must be that number
                x.check_that(isinstance(out.value, bytes) and len(out.value) > 0 and decoded(out.value, order, True) == n, "%s returned %r" % (what, out.value))
            if out.error is not None:
                return
        else:
            want = encoded(n, width, order, signed)
            if want is None:
                x.check_that(out.error is not None, "%s returned %r" % (what, out.value))
                return
            x.gives(what, out, want)
        kw.pop("bytes_num", None)
        x.gives("back from %r, %s" % (out.value, kw), x.call("bytes_to_integer", u.bytes_to_integer, out.value, **kw), n)

    widths = [None] + list(range(1, 36)) + [63, 64, 65, 128]

    def powers(x):
        e = x.pick("power", range(top), free=True)
        for delta in (-1, 0, 1):
            for n in ((1 << e) + delta, -((1 << e) + delta)):
                for width in widths:
                    for order in ("big", "little"):
                        for signed in (False, True):
                            forward(x, n, width, order, signed)
    check.add("powers-of-two", powers, 0, "2^e-1, 2^e, 2^e+1 and their negatives, e below %d, every width to 35 and none, both orders and signs" % top)

    def small(x):
        block = x.pick("block", range(256), free=True)
        for low in range(0, 256, 1 if T else 3):
            n = 256 * block + low
            for width in (None, 1, 2, 3, 4):
                forward(x, n, width, "big", False, True)
            if T or low % 16 == 0:
                for order in ("big", "little"):
                    for signed in (False, True):
                        forward(x, -n, 2, order, signed)
                        forward(x, n, None, order, False)
    check.add("small", small, 0, "integers of up to two bytes, with default and explicit arguments" + ("" if T else " (every third)"))

    def multiples(x):
        """One or two bytes set, at every place: what a missing carry or a dropped zero byte shows in."""
        n = x.pick("length", range(1, 41), free=True)
        for i in range(n):
            for v in (1, 10, 0x30, 0x80, 255):
                b = bytearray(n)
                b[i] = v
                both(x, bytes(b))
                both(x, bytes(255 ^ c for c in b))

    def both(x, b):
        for order in ("big", "little"):
            for signed in (False, True):
                want = decoded(b, order, signed)
                x.gives("bytes_to_integer(%r, %s, %s)" % (b, order, signed), x.call("bytes_to_integer", u.bytes_to_integer, b, order, signed), want)
                if b:
                    x.gives("back", x.call("integer_to_bytes", u.integer_to_bytes, want, len(b), order, signed), b)
        x.gives("bytes_to_integer(%r)" % b, x.call("bytes_to_integer", u.bytes_to_integer, b), decoded(b, "big", False))
        x.gives("bytes_reverse(%r)" % b, x.call("bytes_reverse", u.bytes_reverse, b), b[::-1])
        h = hexed(b)
        x.gives("bytes_to_string(%r)" % b, x.call("bytes_to_string", u.bytes_to_string, b), h)
        x.gives("get_bytes(%r)" % h, x.call("get_bytes", u.get_bytes, h), b)
        x.gives("get_bytes(%r)" % h.upper(), x.call("get_bytes", u.get_bytes, h.upper()), b)
        x.gives("get_bytes(%r)" % b, x.call("get_bytes", u.get_bytes, b), b)
        x.gives("get_bytes(%r, False)" % b, x.call("get_bytes", u.get_bytes, b, False), b)
        again = x.value("bytes_to_string(%r)" % h, x.call("bytes_to_string", u.bytes_to_string, h))
        x.gives("bytes of the string of %r" % h, x.call("get_bytes", u.get_bytes, again), b)
    check.add("one-byte-set", multiples, 0, "strings with one byte set or cleared at each place")

    def tiny(x):
        hi = x.pick("first byte", range(257), free=True)
        for b in ([b""] + [bytes([v]) for v in range(256)] if hi == 256 else [bytes([hi, v]) for v in range(0, 256, 1 if T else 5)]):
            both(x, b)
    check.add("tiny", tiny, 0, "the empty string, every one-byte string, two-byte strings" + ("" if T else " (every fifth second byte)"))

    def patterns(x):
        n = x.pick("length", range(1, 200 if T else 90), free=True)
        for b in [bytes(n), b"\xff" * n, dom.rnd("c19", n), bytes([0]) + dom.rnd("c19", n - 1), dom.rnd("c19", n - 1) + bytes([0]), b"0" * n,
                  (b"0123456789abcdef" * n)[:n], (b"ABCDEF" * n)[:n], (b" " * n), ("\u00e9" * n).encode()[:n]] + (dom.shapes(n, "c19") if 2 < n < 40 else []):
            both(x, b)
    check.add("patterns", patterns, 0, "byte patterns of every length, hexadecimal text in bytes included")

    def text(x):
        """Text that is not hexadecimal: its UTF-8 bytes, in hex; never read as hex when told not to."""
        t = x.pick("text", dom.uniq([p for p in dom.PASSPHRASES if p] + ["g", "xyz", "abcg", "-1", "0x12", "0b1", "1_0"] + [chr(c) for c in range(1, 0x800)]), free=True)
        utf = t.encode("utf-8")
        x.gives("get_bytes(%r, False)" % t, x.call("get_bytes", u.get_bytes, t, False), utf)
        if any(c not in "0123456789abcdefABCDEF \t\n\r\x0b\x0c" for c in t):
            x.gives("bytes_to_string(%r)" % t, x.call("bytes_to_string", u.bytes_to_string, t), hexed(utf))
            out = x.call("get_bytes", u.get_bytes, t)
            x.check_that(out.error is not None, "get_bytes(%r) returned %r" % (t, out.value))
        elif len(t) % 2 and not t.isspace():
            out = x.call("get_bytes", u.get_bytes, t)
            x.check_that(out.error is not None or len(t.split()) > 1, "get_bytes(%r) returned %r" % (t, out.value))
    check.add("text", text, 0, "text given to the conversions")

    def others(x):
        v = x.pick("value", (5, 1.5, [1], (1, 2), {"a": 1}, object), free=True)
        out = x.call("get_bytes", u.get_bytes, v)
        x.check_that(out.error is not None, "get_bytes(%r) returned %r" % (v, out.value))
        for b in (b"", ""):
            x.gives("get_bytes(%r)" % b, x.call("get_bytes", u.get_bytes, b), b"")
            x.gives("bytes_to_string(%r)" % b, x.call("bytes_to_string", u.bytes_to_string, b), "")
        x.gives("bytes_reverse of nothing", x.call("bytes_reverse", u.bytes_reverse, b""), b"")
    check.add("others", others, 0, "empty values and other types")
