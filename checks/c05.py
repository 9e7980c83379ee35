"""C05: no passphrase but the right one opens an artefact; the whole address hash decides; scalars and points are valid."""
import unicodedata

from vf import dom, env, ref, scen

KINDS = ["no-ec", "ec", "ec-lot", "confirm", "confirm-lot"]


def near(p):
    """Passphrases next to p."""
    out = [p + c for c in " \0\n\ta1\u0301\u200b"] + [c + p for c in " \0a\ufeff"] + [p[:-1], p[1:], p[:8], p.upper(), p.lower(), p.swapcase(),
          p.title(), p[::-1], p + p, p.strip(), unicodedata.normalize("NFKC", p), unicodedata.normalize("NFKD", p),
          p.encode().hex(), p.replace("o", "0"), p.split(" ")[0], p[:32], p[:64], p.encode("utf-8").decode("latin-1")]
    for i in range(len(p)):
        for d in (1, 32, 128):
            c = ord(p[i]) ^ d
            out.append(p[:i] + chr(c) + p[i + 1:])
    return dom.uniq(out)


def same_to_scrypt(p, q):
    return env.hmac_key(ref.norm(p)) == env.hmac_key(ref.norm(q))


def artefact(kind, comp, pw, **kw):
    if kind == "no-ec":
        return ref.encrypt(dom.BASE_KEY, comp, pw, 0), None
    s = scen.Ec(comp=comp, pw=pw, lot=(263183, 1) if kind.endswith("lot") else None, **kw)
    return s.created["confirmation_code" if kind.startswith("confirm") else "encrypted_wif"], s


def open_it(x, kind, code, pw, detail=False, net=dom.BTC_MAIN):
    b = dom.bip(net)
    if kind.startswith("confirm"):
        return x.call("confirm_code", b.confirm_code, pw, code, detail=detail)
    return x.call("decrypt", b.decrypt, code, pw, detail=detail)


def build(check):
    T = check.thorough
    wrong_error = lambda: env.mod("exceptions").PassphraseError

    def pairs(x):
        kind = x.pick("kind", KINDS, free=True)
        p = x.pick("passphrase", dom.PASSPHRASES, free=True)
        comp, detail = x.pick("compressed", (False, True)), x.pick("detail", (False, True))
        code, _ = artefact(kind, comp, p)
        for q in dom.PASSPHRASES:
            if not same_to_scrypt(p, q):
                x.raises("opening with %r what is locked with %r" % (q, p), open_it(x, kind, code, q, detail), wrong_error())
    check.add("pairs", pairs, 1 if T else 0, "every ordered pair of the passphrases")

    def nears(x):
        kind = x.pick("kind", KINDS, free=True)
        p = x.pick("passphrase", [dom.BASE_PASS, "ab", "Passw\u00f6rd 1", "p" * 64, "\u03d2\u0301\0\U00010400\U0001f4a9", "x" * 100], free=True)
        comp = x.pick("compressed", (False, True), free=True)
        code, _ = artefact(kind, comp, p)
        q = x.pick("other", near(p), free=True)
        try:
            if same_to_scrypt(p, q):
                x.observe("same to scrypt")
                return
        except UnicodeEncodeError:
            x.observe("no UTF-8 form")
            return
        x.raises("opening with %r what is locked with %r" % (q, p), open_it(x, kind, code, q, True), wrong_error())
    check.add("near", nears, 0, "changed, added, dropped characters, case, compatibility forms")

    def near_keys(x):
        """The wrong passphrase's derivation yields a key next to the right one."""
        comp = x.pick("compressed", (False, True), free=True)
        k = ref.b2i(dom.BASE_KEY)
        others = [k ^ (1 << i) for i in range(256)] + [ref.N - k, k + 1, k - 1, k >> 8, k << 8 & (2**256 - 1), 2 * k % ref.N,
                                                       pow(k, -1, ref.N), k % 2**128, k >> 128]
        other = ref.i2b(x.pick("other key", others, free=True), 32)
        code = ref.encrypt(dom.BASE_KEY, comp, "right", 0)
        h = ref.b58undo(code)[3:7]
        d = ref.kdf(b"right", h, 16384, 8, 8, 64)
        env.script[env.key_of(b"wrong", h, 16384, 8, 8)] = ref.xor(ref.xor(d[:32], dom.BASE_KEY), other) + d[32:]
        want = wrong_error() if 0 < ref.b2i(other) < ref.N else None
        x.raises("key %s for %s" % (other.hex(), dom.BASE_KEY.hex()), open_it(x, "no-ec", code, "wrong", True), want)
        x.gives("the right passphrase", open_it(x, "no-ec", code, "right"), ref.wif(dom.BASE_KEY, comp, 0x80))
    check.add("near-keys", near_keys, 0, "derivation answers that give keys one bit, one, a sign or a shift away")

    def near_factors(x):
        comp = x.pick("compressed", (False, True), free=True)
        s = scen.Ec(comp=comp, pw="right")
        pf = ref.b2i(s.pf)
        v = x.pick("other", [pf ^ (1 << i) for i in range(0, 256, 1 if T else 5)] + [ref.N - pf, pf + 1, pf - 1, 2 * pf % ref.N], free=True)
        dom.kdf_owner("wrong", s.oe, False, ref.i2b(v, 32))
        for kind, code in (("confirm", s.created["confirmation_code"]), ("ec", s.created["encrypted_wif"])):
            x.raises("%s with pass factor %064x for %064x" % (kind, v, pf), open_it(x, kind, code, "wrong", True),
                     wrong_error() if 0 < v < ref.N else None)
    check.add("near-factors", near_factors, 0, "pass factors one bit, one or a sign away")

    def hashes(h, key_point):
        """Wrong address hashes: every single byte, permutations, hashes of related addresses."""
        out = [h[:i] + bytes([h[i] ^ v]) + h[i + 1:] for i in range(4) for v in range(1, 256)]
        out += [h[::-1], h[1:] + h[:1], h[2:] + h[:2], bytes(4), b"\xff" * 4, bytes(v ^ 255 for v in h), h[:2] + h[:2], h[2:] + h[2:]]
        out += [ref.address_hash(ref.address(key_point, c, a)) for c in (False, True) for a in (0x6F, 0x30, 0)]
        neg = (key_point[0], ref.P - key_point[1])
        out += [ref.address_hash(ref.address(neg, c, 0)) for c in (False, True)]
        out += [ref.sha256(ref.address(key_point, c, 0).encode())[:4] for c in (False, True)]
        out += [ref.dsha(ref.address(key_point, c, 0).encode())[4:8] for c in (False, True)]
        out += [ref.hash160(ref.ser(key_point, c))[:4] for c in (False, True)]
        return [v for v in dom.uniq(out) if v != h]

    def forged_no_ec(x):
        comp = x.pick("compressed", (False, True), free=True)
        pt = ref.mul(ref.b2i(dom.BASE_KEY))
        h = ref.address_hash(ref.address(pt, comp, 0))
        wrong = x.pick("hash", hashes(h, pt), free=True)
        code = ref.encrypt_with_hash(dom.BASE_KEY, comp, "right", wrong)
        x.raises("address hash %s for %s" % (wrong.hex(), h.hex()), open_it(x, "no-ec", code, "right", x.pick("detail", (False, True))))
    check.add("forged-hash-no-ec", forged_no_ec, 1, "artefacts that hold the key but another address hash")

    def forged_ec(x):
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", (None, (263183, 1)), free=True)
        s = scen.Ec(comp=comp, pw="right", lot=lot)
        wrong = x.pick("hash", hashes(s.hash, s.point), free=True)
        c = ref.create(s.code, comp, s.seed, 0, forge_hash=wrong, public=s.point)
        detail = x.pick("detail", (False, True))
        x.raises("address hash %s for %s" % (wrong.hex(), s.hash.hex()), open_it(x, "ec", c["encrypted_wif"], "right", detail))
        x.raises("confirming, address hash %s for %s" % (wrong.hex(), s.hash.hex()), open_it(x, "confirm", c["confirmation_code"], "right", detail))
    check.add("forged-hash-ec", forged_ec, 1 if T else 0, "the same for EC-multiplied keys and confirmation codes")

    def flags(x):
        """The type of public key is bound by the address hash: the other flag does not open."""
        comp = x.pick("compressed", (False, True), free=True)
        what = x.pick("kind", ("no-ec", "ec", "ec-lot"), free=True)
        if what == "no-ec":
            h = ref.address_hash(ref.address(ref.mul(ref.b2i(dom.BASE_KEY)), comp, 0))
            code = ref.encrypt_with_hash(dom.BASE_KEY, not comp, "right", h)
            x.raises("other flag", open_it(x, "no-ec", code, "right"))
            return
        s = scen.Ec(comp=comp, pw="right", lot=(263183, 1) if what == "ec-lot" else None)
        flag = x.pick("flag", [f for f in ref.EC_FLAGS.values() if f != ref.EC_FLAGS[s.has_lot, comp]], free=True)
        c = ref.create(s.code, comp, s.seed, 0, public=s.point, flag=flag)
        x.raises("flag %02x" % flag, open_it(x, "ec", c["encrypted_wif"], "right"))
        x.raises("flag %02x" % flag, open_it(x, "confirm", c["confirmation_code"], "right"))
    check.add("flags", flags, 0, "each other valid flag on an otherwise right artefact")

    def out_of_range(x):
        what = x.pick("what", ("key", "pass factor", "confirm pass factor", "intermediate pass factor"), free=True)
        bad = x.pick("scalar", dom.BAD_SCALARS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        residue = ref.b2i(bad) % ref.N
        if what == "key":
            pts = [ref.mul(residue)] if residue else [ref.mul(1)]
            h = ref.address_hash(ref.address(pts[0], comp, 0))
            code = ref.encrypt_with_hash(bad, comp, "right", h)
            out = open_it(x, "no-ec", code, "right", True)
        elif what == "intermediate pass factor":
            dom.kdf_owner("right", dom.BASE_SALT, False, bad)
            out = x.call("intermediate_code", dom.bip(dom.BTC_MAIN).intermediate_code, "right", owner_salt=dom.BASE_SALT)
            x.check_that(out.error is not None, "an intermediate code for pass factor %s: %r" % (bad.hex(), out.value))
            return
        else:
            s = scen.Ec(comp=comp, pw="right", pf=ref.i2b(residue or 1, 32))
            dom.kdf_owner("right", s.oe, False, bad)
            kind = "confirm" if what.startswith("confirm") else "ec"
            out = open_it(x, kind, s.created["confirmation_code" if kind == "confirm" else "encrypted_wif"], "right", True)
        x.raises("%s %s" % (what, bad.hex()), out)
    check.add("out-of-range", out_of_range, 0, "private keys and pass factors 0, N and above")

    no_point = [v for v in range(1, 40) if ref.lift_x(v, 0) is None]

    def bad_points(x):
        """Confirmation codes holding something that is no point."""
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", (None, (263183, 1)), free=True)
        parity = x.pick("parity", (0, 1), free=True)
        s = scen.Ec(comp=comp, pw="right", lot=lot, parity=parity)
        d = ref.kdf(ref.ser(s.pass_point, True), s.hash + s.oe, 1024, 1, 1, 64)
        good = ref.ser(ref.mul(ref.b2i(ref.dsha(s.seed))), True)
        pts = [bytes([v]) + good[1:] for v in range(256) if v not in (good[0],)]
        pts += [b"\2" + ref.i2b(v, 32) for v in no_point + [0, ref.P, ref.P + 1, ref.P + ref.b2i(good[1:]) % 900, 2**256 - 1]]
        pts += [bytes([good[0]]) + ref.i2b(ref.b2i(good[1:]) ^ (1 << i), 32) for i in range(0, 256, 1 if T else 9)]
        pt = x.pick("point", pts, free=True)
        raw = ref.b58undo(s.created["confirmation_code"])
        code = ref.b58check(raw[:18] + bytes([pt[0] ^ (d[63] & 1)]) + ref.aes_enc(d[32:], ref.xor(pt[1:17], d[:16])) +
                            ref.aes_enc(d[32:], ref.xor(pt[17:], d[16:32])))
        x.raises("confirming the point %s" % pt.hex(), open_it(x, "confirm", code, "right", True))
    check.add("bad-points", bad_points, 0, "every other prefix byte, x without a point, x >= p, other points")

    def right(x):
        """The same artefacts do open under the right passphrase (so that the rejections above mean something)."""
        kind = x.pick("kind", KINDS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        p = x.pick("passphrase", dom.PASSPHRASES, free=True)
        code, s = artefact(kind, comp, p)
        want = (ref.wif(dom.BASE_KEY, comp, 0x80) if s is None else s.address if kind.startswith("confirm") else s.decrypted["wif"])
        x.gives("opening with the right passphrase", open_it(x, kind, code, p), want)
    check.add("right", right, 0, "the right passphrase opens every one of them")
