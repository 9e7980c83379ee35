"""C11: private keys, public keys and points against secp256k1."""
from vf import dom, env, ref

N, P = ref.N, ref.P


def S():
    return env.mod("secp256k1")


def encodings(pt):
    c, u = ref.ser(pt, True), ref.ser(pt, False)
    return [("compressed", c), ("uncompressed", u), ("raw", u[1:])]


def see_point(x, what, p, pt):
    """All that a Point shows."""
    x.same(what + " x", x.value(what, x.call("x", p.x)), pt[0])
    x.same(what + " y", x.value(what, x.call("y", p.y)), pt[1])
    x.gives(what + " raw", x.call("raw", p.raw), ref.ser(pt, False)[1:])
    x.gives(what + " raw_decoded", x.call("raw_decoded", p.raw_decoded), ref.ser(pt, False)[1:])
    x.gives(what + " raw_encoded", x.call("raw_encoded", p.raw_encoded), ref.ser(pt, True))


def see_public(x, what, k, pt, deep=True):
    x.gives(what + " raw_compressed", x.call("raw_compressed", k.raw_compressed), ref.ser(pt, True))
    x.gives(what + " raw_uncompressed", x.call("raw_uncompressed", k.raw_uncompressed), ref.ser(pt, False))
    x.gives(what + " raw compressed", x.call("raw", k.raw, "compressed"), ref.ser(pt, True))
    x.gives(what + " raw uncompressed", x.call("raw", k.raw, public_key_type="uncompressed"), ref.ser(pt, False))
    if deep:
        see_point(x, what + " point", x.value(what, x.call("point", k.point)), pt)


def everything(x, key):
    s = S()
    pt = ref.mul(ref.b2i(key))
    priv = x.value("PrivateKey.from_bytes", x.call("PrivateKey.from_bytes", s.PrivateKey.from_bytes, key))
    x.gives("raw private key", x.call("raw", priv.raw), key)
    pub = x.value("public_key", x.call("public_key", priv.public_key))
    see_public(x, "public key of %s" % key.hex(), pub, pt)
    for name, enc in encodings(pt):
        see_public(x, "PublicKey.from_bytes of the %s form" % name,
                   x.value("PublicKey.from_bytes", x.call("PublicKey.from_bytes", s.PublicKey.from_bytes, enc)), pt)
        see_point(x, "Point.from_bytes of the %s form" % name,
                  x.value("Point.from_bytes", x.call("Point.from_bytes", s.Point.from_bytes, enc)), pt)
    q = x.value("Point.from_coordinates", x.call("Point.from_coordinates", s.Point.from_coordinates, *pt))
    see_point(x, "Point.from_coordinates", q, pt)
    for name, p in (("coordinates", q), ("key", pub.point())):
        see_public(x, "PublicKey.from_point of %s" % name,
                   x.value("PublicKey.from_point", x.call("PublicKey.from_point", s.PublicKey.from_point, p)), pt)
    x.gives("raw private key again", x.call("raw", priv.raw), key)


MAKERS = ("key", "coordinates", "bytes", "compressed", "product", "sum", "public bytes")


def make(k, how):
    """k*G as a Point of the library, made in different ways (different internal forms)."""
    s = S()
    pt = ref.mul(k)
    if how == "key":
        return s.PrivateKey.from_bytes(ref.i2b(k % N, 32)).public_key().point()
    if how == "coordinates":
        return s.Point.from_coordinates(*pt)
    if how == "bytes":
        return s.Point.from_bytes(ref.ser(pt, False))
    if how == "compressed":
        return s.Point.from_bytes(ref.ser(pt, True))
    if how == "public bytes":
        return s.PublicKey.from_bytes(ref.ser(pt, True)).point()
    if how == "product":
        return s.Secp256k1.GENERATOR * (k % N)
    a = (k - 5) % N or 1
    b = (k - a) % N
    if b == 0 or a == b:
        return s.Secp256k1.GENERATOR * (k % N)
    return s.Point.from_coordinates(*ref.mul(a)) + s.Point.from_coordinates(*ref.mul(b))


def infinite(x, what, out):
    """The point at infinity has no coordinates and is no public key."""
    if out.error is not None:
        return
    p = out.value
    got = x.call("x", p.x)
    x.check_that(got.error is not None or got.value is None, "%s: x is %r" % (what, got.value))
    k = x.call("PublicKey.from_point", S().PublicKey.from_point, p)
    if k.error is None:
        r = x.call("raw_compressed", k.value.raw_compressed)
        x.check_that(r.error is not None, "%s: a public key %r" % (what, r.value))


def build(check):
    T = check.thorough
    keys = dom.uniq(dom.KEYS + dom.MORE_KEYS + [ref.i2b(v, 32) for v in range(1, 600 if T else 120)] +
                    [ref.i2b(N - v, 32) for v in range(1, 300 if T else 40)])

    def private(x):
        everything(x, x.pick("key", keys, free=True))
    check.add("keys", private, 0, "every view and encoding of the key of each scalar pattern")

    small = [v for v in range(-6, 7) if v] + [N // 2, N // 2 + 1, ref.b2i(dom.BASE_KEY), N - ref.b2i(dom.BASE_KEY), 2**255 % N]

    def sums(x):
        a = x.pick("a", small, free=True) % N
        b = x.pick("b", small, free=True) % N
        how = x.pick("a made by", MAKERS, free=T)
        how2 = x.pick("b made by", MAKERS, free=T)
        p, q = make(a, how), make(b, how2)
        out = x.call("add", lambda u, v: u + v, p, q)
        if (a + b) % N:
            see_point(x, "%d*G + %d*G" % (a, b), x.value("add", out), ref.mul(a + b))
        else:
            infinite(x, "P + (-P)", out)
        see_point(x, "left operand afterwards", p, ref.mul(a))
        see_point(x, "right operand afterwards", q, ref.mul(b))
    check.add("sums", sums, 2, "sums of pairs, equal and opposite ones too, of points made in different ways")

    scalars = dom.uniq([ref.b2i(k) for k in dom.KEYS] + [1 << i for i in range(0, 256, 1 if T else 8)] + list(range(0, 34)) +
                       [N - 1, N, N + 1, N + 2, 2**256 - 1, 2**256 - 2**32, 2 * N - 1, (1 << 255) - 1] + [(1 << i) - 1 for i in range(2, 256, 3 if T else 17)] + [-1, -2, -3, 1 - N, -N, -N - 1, -(1 << 128), -(1 << 256), 1 << 512, -ref.b2i(dom.BASE_KEY)])

    def products(x):
        base = x.pick("base", (1, 2, N - 1, ref.b2i(dom.BASE_KEY), N // 2), free=True)
        how = x.pick("made by", MAKERS)
        k = x.pick("scalar", scalars, free=True)
        side = x.pick("side", ("right", "left"))
        p = make(base, how)
        out = x.call("mul", (lambda u, n: u * n) if side == "right" else (lambda u, n: n * u), p, k)
        if k * base % N:
            see_point(x, "%d * (%d*G)" % (k, base), x.value("mul", out), ref.mul(k * base % N))
        else:
            infinite(x, "%d * (%d*G)" % (k, base), out)
        see_point(x, "operand afterwards", p, ref.mul(base))
    check.add("products", products, 2 if T else 1, "multiples, with scalars 0, N and above too")

    ops = ["+G", "+B", "double", "*2", "*3", "*5", "*-1", "*k", "via compressed", "via uncompressed", "via raw", "via coordinates", "via public key",
           "via public key bytes"]
    B = ref.b2i(dom.BASE_KEY)

    def chains(x):
        s = S()
        v = x.pick("start", (1, N - 1, B, N - B), free=True)
        p = make(v, "key")
        for i in range(4 if T else 3):
            op = x.pick("op%d" % i, ops, free=True)
            if op == "+G":
                v, f = v + 1, (lambda p: p + s.Secp256k1.GENERATOR)
            elif op == "+B":
                v, f = v + B, (lambda p: p + make(B, "bytes"))
            elif op == "double":
                v, f = 2 * v, (lambda p: p + p)
            elif op in ("*2", "*3", "*5"):
                n = int(op[1:])
                v, f = n * v, (lambda p, n=n: p * n)
            elif op == "*-1":
                v, f = -v, (lambda p: p * (N - 1))
            elif op == "*k":
                v, f = v * B, (lambda p: p * B)
            elif op == "via compressed":
                f = lambda p: s.Point.from_bytes(p.raw_encoded())
            elif op == "via uncompressed":
                f = lambda p: s.Point.from_bytes(s.PublicKey.from_point(p).raw_uncompressed())
            elif op == "via raw":
                f = lambda p: s.Point.from_bytes(p.raw())
            elif op == "via coordinates":
                f = lambda p: s.Point.from_coordinates(p.x(), p.y())
            elif op == "via public key":
                f = lambda p: s.PublicKey.from_point(p).point()
            else:
                f = lambda p: s.PublicKey.from_bytes(s.PublicKey.from_point(p).raw_compressed()).point()
            v %= N
            out = x.call(op, f, p)
            if not v:
                infinite(x, op, out)
                return
            p = x.value(op, out)
            x.observe(v)
        see_point(x, "the point reached", p, ref.mul(v))
    check.add("chains", chains, 0, "all sequences of additions, multiplications and conversions, %d long" % (4 if T else 3))

    bad_values = dom.uniq(dom.BAD_SCALARS + [ref.i2b(N + v, 32) for v in range(0, 400 if T else 60)] +
                          [ref.i2b(N + (1 << i), 32) for i in range(0, 128)] + [ref.i2b(2**256 - v, 32) for v in range(1, 400 if T else 60)])

    def bad_private(x):
        err = env.mod("exceptions").Error
        what = x.pick("what", ("value", "length"), free=True)
        if what == "value":
            k = x.pick("value", bad_values, free=True)
        else:
            n = x.pick("length", [n for n in range(0, 130) if n != 32], free=True)
            fill = x.pick("bytes", ("key", "zeros before", "zeros after", "zeros", "ff"), free=True)
            k = {"key": (dom.BASE_KEY * 5)[:n], "zeros before": (bytes(max(0, n - 32)) + dom.BASE_KEY[:n])[:n],
                 "zeros after": (dom.BASE_KEY + bytes(100))[:n], "zeros": bytes(n), "ff": b"\xff" * n}[fill]
        x.raises("private key %s" % k.hex(), x.call("PrivateKey.from_bytes", S().PrivateKey.from_bytes, k), err)
    check.add("bad-private-keys", bad_private, 0, "0, N and above, and every other length")

    def read_back(x, what, enc, want):
        """Both readers accept exactly the encodings of a point. want: a point, None to be refused."""
        s = S()
        for name, f in (("PublicKey.from_bytes", s.PublicKey.from_bytes), ("Point.from_bytes", s.Point.from_bytes)):
            out = x.call(name, f, enc)
            if want is None:
                x.raises("%s of %s (%s)" % (name, enc.hex(), what), out, env.mod("exceptions").Error)
            elif name.startswith("Pu"):
                see_public(x, "%s (%s)" % (name, what), x.value(name, out), want, False)
            else:
                see_point(x, "%s (%s)" % (name, what), x.value(name, out), want)

    xs = dom.uniq(list(range(0, 400 if T else 80)) + [P - v for v in range(1, 200 if T else 50)] + [P + v for v in range(0, 400 if T else 80)] +
                  [N + v for v in range(-5, 60)] + [2**256 - v for v in range(1, 80)] + [1 << i for i in range(256)])

    def abscissae(x):
        v = x.pick("x", xs, free=True)
        for odd in (0, 1):
            read_back(x, "x=%d" % v, bytes([2 + odd]) + ref.i2b(v, 32), ref.lift_x(v, odd))
        pt = ref.lift_x(v % P, 0)
        if pt is None:
            pt = (v, 5)
        for y in (pt[1], P - pt[1]):
            ok = (v, y) if ref.on_curve(v, y) else None
            read_back(x, "x=%d" % v, b"\4" + ref.i2b(v, 32) + ref.i2b(y, 32), ok)
            read_back(x, "x=%d" % v, ref.i2b(v, 32) + ref.i2b(y, 32), ok)
            out = x.call("Point.from_coordinates", S().Point.from_coordinates, v, y)
            if ok:
                see_point(x, "from_coordinates", x.value("from_coordinates", out), ok)
            else:
                x.raises("coordinates %d, %d" % (v, y), out, env.mod("exceptions").Error)
    check.add("abscissae", abscissae, 0, "x coordinates at 0, N, p and 2^256: read exactly if there is a point")

    def malformed(x):
        s = S()
        k = x.pick("key", (dom.BASE_KEY, ref.i2b(1, 32), ref.i2b(2, 32)), free=True)
        pt = ref.mul(ref.b2i(k))
        c, u = ref.ser(pt, True), ref.ser(pt, False)
        what = x.pick("what", ("prefix", "length", "bit", "swap"), free=True)
        if what == "prefix":
            v = x.pick("value", range(256), free=True)
            if v not in (2, 3):
                read_back(x, "prefix %02x" % v, bytes([v]) + c[1:], None)
            if v != 4 and v != 6 + (pt[1] & 1):  # the hybrid form is a standard encoding of the same point
                read_back(x, "prefix %02x" % v, bytes([v]) + u[1:], None)
        elif what == "length":
            n = x.pick("value", range(0, 140), free=True)
            for enc in (c, u, u[1:]):
                e = (enc + enc + enc + enc + enc)[:n]
                if n != len(enc) and not (n == 33 and e[:1] in (b"\2", b"\3")) and n != 64 and not (n == 65 and e[:1] in (b"\4", b"\6", b"\7")):
                    read_back(x, "length %d" % n, e, None)
                if len(enc) + n + 1 not in (64, 65, 33):
                    read_back(x, "padded by %d" % (n + 1), enc + bytes(n + 1), None)
                if len(enc) + n + 1 not in (64, 65, 33):
                    read_back(x, "padded before by %d" % (n + 1), bytes(n + 1) + enc, None)
        elif what == "bit":
            i = x.pick("value", range(512), free=True)
            bad = ref.i2b(ref.b2i(u[1:]) ^ (1 << i), 64)
            ok = (ref.b2i(bad[:32]), ref.b2i(bad[32:]))
            ok = ok if ref.on_curve(*ok) else None
            read_back(x, "bit %d" % i, b"\4" + bad, ok)
            read_back(x, "bit %d" % i, bad, ok)
        else:
            for a, b in ((pt[1], pt[0]), (pt[0], pt[0]), (pt[1], pt[1]), (0, 0), (pt[0], 0), (0, pt[1]), (-pt[0], pt[1]), (pt[0], -pt[1]),
                         (pt[0] + P, pt[1]), (pt[0], pt[1] + P), (pt[0] - P, pt[1]), (pt[0], pt[1] - P)):
                x.raises("coordinates %d, %d" % (a, b), x.call("Point.from_coordinates", s.Point.from_coordinates, a, b),
                         env.mod("exceptions").Error)
                if 0 <= a < 2**256 and 0 <= b < 2**256:
                    read_back(x, "swapped", b"\4" + ref.i2b(a, 32) + ref.i2b(b, 32), None)
                    read_back(x, "swapped", ref.i2b(a, 32) + ref.i2b(b, 32), None)
    check.add("malformed", malformed, 0, "every prefix byte, length and bit, swapped and unreduced coordinates")

    def constants(x):
        s = S()
        see_point(x, "GENERATOR", s.Secp256k1.GENERATOR, (ref.GX, ref.GY))
        x.same("ORDER", x.value("ORDER", x.call("ORDER", lambda: s.Secp256k1.ORDER)), N)
        x.gives("PrivateKey.length", x.call("length", s.PrivateKey.length), 32)
        x.gives("compressed_length", x.call("compressed_length", s.PublicKey.compressed_length), 33)
        x.gives("uncompressed_length", x.call("uncompressed_length", s.PublicKey.uncompressed_length), 65)
    check.add("constants", constants, 0, "order, generator and lengths")
