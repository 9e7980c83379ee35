"""C06: damaged and foreign codes are rejected with the library's errors."""
from vf import dom, env, mutate, ref, scen

PW = dom.BASE_PASS


def artefacts():
    out = {}
    for comp in (False, True):
        c = "c" if comp else "u"
        out["no-ec-" + c] = ("enc", ref.encrypt(dom.BASE_KEY, comp, PW, 0), comp, None)
        for lot in (None, (263183, 1)):
            s = scen.Ec(comp=comp, lot=lot)
            t = ("lot-" if lot else "") + c
            out["ec-" + t] = ("enc", s.created["encrypted_wif"], comp, s)
            out["cfrm-" + t] = ("cfrm", s.created["confirmation_code"], comp, s)
            if comp:
                out["int-" + ("lot" if lot else "nolot")] = ("int", s.code, comp, s)
    return out


def use(x, op, code, detail=False, wif_type="wif"):
    b = dom.bip(dom.BTC_MAIN)
    if op == "enc":
        return x.call("decrypt", b.decrypt, code, PW, detail=detail)
    if op == "cfrm":
        return x.call("confirm_code", b.confirm_code, PW, code, detail=detail)
    return x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, code, wif_type=wif_type, seed=dom.BASE_SEED)


def build(check):
    T = check.thorough
    env.reset()
    A = artefacts()
    names = sorted(A)
    subs = {n: mutate.substitutions(A[n][1]) for n in names}
    eds = {n: mutate.edits(A[n][1], every_insert=True) for n in names}

    def batch(x, n, items):
        op = A[n][0]
        x.check_that(use(x, op, A[n][1]).error is None, "the undamaged %s is refused" % n)
        for m in items:
            x.raises("%s damaged to %r" % (A[n][1], m), use(x, op, m))

    def chars(x):
        n = x.pick("artefact", names, free=True)
        i = x.pick("block", range(len(subs[n]) // 57 + 1), free=True)
        batch(x, n, subs[n][57 * i:57 * i + 57])
    check.add("substitutions", chars, 0, "every position, every other character")

    def edits(x):
        n = x.pick("artefact", names, free=True)
        i = x.pick("block", range(len(eds[n]) // 100 + 1), free=True)
        batch(x, n, eds[n][100 * i:100 * i + 100])
    check.add("edits", edits, 0, "every missing, added, swapped, foreign character, truncation and decoration")

    def header(x):
        """Every value of every header byte, checksum recomputed."""
        n = x.pick("artefact", names, free=True)
        op, code, comp, s = A[n]
        raw = ref.b58undo(code)
        width = {"enc": 3, "cfrm": 6, "int": 8}[op]
        i = x.pick("byte", range(width), free=True)
        detail = x.pick("detail", (False, True))
        base = x.value("undamaged", use(x, op, code, detail))
        for v in range(256):
            m = raw[:i] + bytes([v]) + raw[i + 1:]
            if m == raw:
                continue
            out = use(x, op, ref.b58check(m), detail)
            if op == "int" and m[:8] in (ref.MAGIC_LOT, ref.MAGIC_NOLOT):
                continue  # a valid code of the other kind
            if (op == "cfrm" and i == 5 or op == "enc" and i == 2 and s) and v & 0x18 and not v & 0xC3 and v & 0x24 == raw[i]:
                # reserved bits of an EC flag: refused, or ignored
                if out.error is None:
                    x.same("flag %02x" % v, out.value, base)
                    continue
            x.raises("%s with byte %d = %02x" % (n, i, v), out)
    check.add("header-bytes", header, 1, "every value of every prefix, magic and flag byte, with a right checksum")

    def two(x):
        """Prefix and flag of one kind on the body of another; both prefix bytes."""
        n = x.pick("artefact", [k for k in names if A[k][0] == "enc"], free=True)
        p = x.pick("prefix", [b"\x01\x42", b"\x01\x43", b"\x01\x44", b"\x42\x01", b"\x00\x42", b"\x00\x43", b"\x02\x42", bytes(2), b"\xff\xff"], free=True)
        raw = ref.b58undo(A[n][1])
        for f in range(256):
            m = p + bytes([f]) + raw[3:]
            if m == raw:
                continue
            if p == raw[:2] and A[n][3] and f & 0x24 == raw[2] and not f & 0xC3:
                continue  # reserved bits: see header-bytes
            x.raises("prefix %s, flag %02x on %s" % (p.hex(), f, n), use(x, "enc", ref.b58check(m)))
    check.add("prefix-and-flag", two, 0, "prefixes with every flag on every body")

    def checksum(x):
        n = x.pick("artefact", names, free=True)
        op, code = A[n][:2]
        raw = ref.b58dec(code)
        i = x.pick("byte", range(4), free=True)
        for v in range(1, 256):
            k = len(raw) - 4 + i
            x.raises("checksum byte %d" % i, use(x, op, ref.b58enc(raw[:k] + bytes([raw[k] ^ v]) + raw[k + 1:])))
        for m in (raw[:-4] + ref.sha256(raw[:-4])[:4], raw[:-4] + ref.dsha(raw[:-4])[-4:], raw[:-4] + bytes(4), raw[:-4] + raw[-4:][::-1],
                  raw[:-4] + ref.dsha(raw[2:-4])[:4]):
            x.raises("checksum %s" % m[-4:].hex(), use(x, op, ref.b58enc(m)))
    check.add("checksum-bytes", checksum, 0, "every value of every checksum byte, other checksums")

    def payload(x):
        """Damage under a right checksum: whatever the address hash covers is refused."""
        n = x.pick("artefact", [k for k in names if A[k][0] != "int"], free=True)
        op, code, comp, s = A[n]
        raw = ref.b58undo(code)
        start = 3 if op == "enc" else 6
        i = x.pick("byte", range(start, len(raw)), free=True)
        for v in (range(1, 256) if T else (1, 2, 4, 8, 16, 32, 64, 128, 255)):
            x.raises("%s with byte %d ^ %02x" % (n, i, v), use(x, op, ref.b58check(raw[:i] + bytes([raw[i] ^ v]) + raw[i + 1:])))
    check.add("payload-bytes", payload, 0, "each payload byte: every bit (thorough: every value), checksum recomputed")

    def lengths(x):
        n = x.pick("artefact", names, free=True)
        op, code = A[n][:2]
        raw = ref.b58undo(code)
        fill = x.pick("filled with", ("zeros", "itself", "ff"), free=True)
        for k in range(0, 121):
            if k == len(raw):
                continue
            tail = {"zeros": bytes(k), "itself": raw * 3, "ff": b"\xff" * k}[fill]
            m = (raw[:k] + tail)[:k] if k > len(raw) else raw[:k]
            x.raises("%s of %d bytes" % (n, k), use(x, op, ref.b58check(m)))
            x.raises("%s of %d bytes, shortened or extended in front" % (n, k), use(x, op, ref.b58check((tail + raw)[-k:] if k else b"")))
            if k >= 4:
                x.raises("%s, %d bytes in all" % (n, k), use(x, op, ref.b58enc((ref.b58dec(code) + tail)[:k])) if k != len(raw) + 4 else
                         use(x, op, ref.b58enc(bytes(k))))
    check.add("lengths", lengths, 0, "every length up to 120 bytes with a right checksum, and truncations of checksum and payload")

    def sections(x):
        """A section of the payload left out, doubled or moved, checksum recomputed, length right or not."""
        n = x.pick("artefact", names, free=True)
        op, code = A[n][:2]
        raw = ref.b58undo(code)
        i = x.pick("from", range(len(raw)), free=True)
        for k in (1, 2, 4, 8, 16):
            for m in (raw[:i] + raw[i + k:], raw[:i] + raw[i:i + k] * 2 + raw[i + k:], raw[:i] + raw[i:i + k][::-1] + raw[i + k:]):
                if m == raw:
                    continue
                out = use(x, op, ref.b58check(m))
                if op == "int" and len(m) == 49 and m[:8] in (ref.MAGIC_LOT, ref.MAGIC_NOLOT) and ref.parse_compressed(m[16:]):
                    continue
                x.raises("%s, section %d+%d changed" % (n, i, k), out)
    check.add("sections", sections, 0, "runs of 1 to 16 bytes left out, doubled or reversed at every offset")

    foreign = {n: A[n][1] for n in names}
    foreign.update({"wif": ref.wif(dom.BASE_KEY, False, 0x80), "wifc": ref.wif(dom.BASE_KEY, True, 0x80), "testnet wif": ref.wif(dom.BASE_KEY, True, 0xEF),
                    "address": ref.address(ref.mul(5), True, 0), "address5": ref.address(ref.mul(5), True, 5), "hex": dom.BASE_KEY.hex(), "empty": "",
                    "ones": "1" * 58, "space": " ", "public": ref.ser(ref.mul(5), True).hex(), "xprv": ref.b58check(b"\x04\x88\xad\xe4" + bytes(74)),
                    "ripple": ref.address(ref.mul(5), True, 0, ref.XRP), "passphrase": "TestingOneTwoThree", "6P": "6P", "cfrm38V": "cfrm38V",
                    "word": "passphrase", "ones43": "1" * 43, "zs": "z" * 58, "ones75": "1" * 75})
    for n in list(foreign):
        if n in A:
            foreign["xrp-" + n] = ref.b58enc(ref.b58dec(foreign[n]), ref.XRP)

    def kinds(x):
        op = x.pick("operation", ("enc", "cfrm", "int"), free=True)
        n = x.pick("code", sorted(foreign), free=True)
        detail = x.pick("detail", (False, True), free=True)
        if n in A and A[n][0] == op:
            x.check_that(use(x, op, foreign[n], detail).error is None, "the undamaged %s is refused" % n)
        else:
            x.raises("%s given to %s" % (n, op), use(x, op, foreign[n], detail, "wif-compressed" if detail else "wif"))
    check.add("foreign", kinds, 0, "codes of every kind given to every operation")

    def points(x):
        """Intermediate codes whose pass point is no point."""
        n = x.pick("artefact", ("int-lot", "int-nolot"), free=True)
        raw = ref.b58undo(A[n][1])
        bad = [bytes([v]) + raw[17:] for v in range(256) if v not in (2, 3)]
        bad += [bytes([q]) + ref.i2b(v, 32) for q in (2, 3) for v in [0] + [v for v in range(1, 60) if ref.lift_x(v, 0) is None] +
                [ref.P, ref.P + 1, ref.P + 2, ref.P + 3, ref.P + 6, 2**256 - 1, 2**256 - 2**32]]
        for v in (1, 2, 7, 8):  # points of the curve, encoded in other ways than the 33 bytes of the code
            p = ref.mul(v)
            u = ref.ser(p, False)
            bad += [u, u[1:], bytes([6 + p[1] % 2]) + u[1:], ref.ser(p, True) + b"\0", b"\0" + ref.ser(p, True), u + b"\0", ref.ser(p, True)[1:], b"\2" + u[1:]]
        pt = x.pick("pass point", bad, free=True)
        for wt in ("wif", "wif-compressed"):
            x.raises("pass point %s" % pt.hex(), use(x, "int", ref.b58check(raw[:16] + pt), wif_type=wt))
    check.add("pass-points", points, 0, "intermediate codes with every other prefix byte, with x that has no point, with points in other encodings")
