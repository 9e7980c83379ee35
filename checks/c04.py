"""C04: lot and sequence numbers survive, and only valid ones are accepted."""
from vf import dom, env, ref, scen


def round_trip(x, lot, seq, salt, comp, pw=dom.BASE_PASS):
    b = dom.bip(dom.BTC_MAIN)
    s = scen.Ec(comp=comp, lot=(lot, seq), salt=salt, pw=pw)
    code = x.value("intermediate_code(lot=%d, sequence=%d)" % (lot, seq), x.call(
        "intermediate_code", b.intermediate_code, pw, lot=lot, sequence=seq, owner_salt=salt))
    x.same("intermediate code of lot %d, sequence %d" % (lot, seq), code, s.code)
    d = x.value("decrypt", x.call("decrypt", b.decrypt, s.created["encrypted_wif"], pw, detail=True))
    f = x.value("confirm", x.call("confirm_code", b.confirm_code, pw, s.created["confirmation_code"], detail=True))
    for what, v in (("decrypt", d), ("confirm", f)):
        x.same("%s: lot" % what, v["lot"], lot)
        x.same("%s: sequence" % what, v["sequence"], seq)


SPECIAL_LOTS = sorted({100000 + i for i in range(34)} | {999999 - i for i in range(34)} |
                      {(1 << k) + d for k in range(17, 20) for d in (-1, 0, 1)} | {65536 * k for k in range(2, 16)} |
                      {256 * k + d for k in range(400, 3900, 70) for d in (0, 255)} | set(range(100000, 1000000, 4999)) |
                      {111111 * k for k in range(1, 10)})
SPECIAL_SEQ = sorted({0, 1, 2, 9, 10, 15, 16, 17, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 2047, 2048, 4000, 4093, 4094, 4095})


def build(check):
    T = check.thorough

    def sequences(x):
        lot = x.pick("lot", (100000, 524288, 999999) if T else (100000, 999999), free=True)
        block = x.pick("sequence / 64", range(64), free=True)
        seq = x.pick("sequence % 64", range(64), free=True)
        round_trip(x, lot, 64 * block + seq, dom.BASE_SALT, bool(seq & 1))
    check.add("all-sequences", sequences, 0, "every sequence number, with the lowest, (a middle) and the highest lot")

    def lots(x):
        lot = x.pick("lot", [n for n in SPECIAL_LOTS if 100000 <= n <= 999999], free=True)
        seq = x.pick("sequence", SPECIAL_SEQ)
        salt = x.pick("owner salt", [dom.BASE_SALT, dom.BASE_SALT[:4], bytes(4), bytes(8), b"\0\0\0\1", b"\xff" * 8])
        comp = x.pick("compressed", (False, True))
        round_trip(x, lot, seq, salt, comp)
    check.add("lots", lots, 1 if not T else 2, "boundary, power-of-two, byte-boundary and spread lots with special sequences and salts")

    def every_lot(x):
        """Intermediate codes only: the numbers are read off the code by the model."""
        hi = x.pick("lot / 300", range(100000 // 300, 1000000 // 300 + 1) if T else range(100000 // 300, 1000000 // 300 + 1, 111), free=True)
        b = dom.bip(dom.BTC_MAIN)
        for lot in range(max(100000, hi * 300), min(1000000, hi * 300 + 300)):
            seq = (lot * 7) % 4096
            code = x.value("intermediate_code", x.call("intermediate_code", b.intermediate_code, "p", lot, seq, dom.BASE_SALT))
            lot_, oe, _ = ref.split_intermediate(code)
            x.check_that(lot_ and ref.b2i(oe[4:]) == lot * 4096 + seq, "lot %d, sequence %d are in the code as %s" % (lot, seq, oe.hex()))
    check.add("every-lot", every_lot, 0, "all 900000 lots" if T else "every 111th block of 300 lots")

    bad_lots = [0, 1, -1, 99999, 1000000, 1000001, 999999 * 10, 1 << 20, (1 << 20) - 1, -100000, 1 << 32, (1 << 32) + 100000, 4096, 4095,
                -(1 << 20) + 100000, 1 << 64]
    bad_seqs = [-1, 4096, 4097, -4095, -4096, 8191, 65536, 1 << 32, 1 << 20, -(1 << 12) - 1]

    def rejected(x):
        b = dom.bip(dom.BTC_MAIN)
        salt = x.pick("owner salt", [dom.BASE_SALT, dom.BASE_SALT[:4], dom.BASE_SALT.hex(), None], free=True)
        what = x.pick("what", ("lot", "sequence", "both", "no lot", "no sequence"), free=True)
        good_lots, good_seqs = [100000, 999999, 524288], [0, 1, 4095]
        lot = None if what == "no lot" else x.pick("lot", bad_lots if what in ("lot", "both") else good_lots, free=True)
        seq = None if what == "no sequence" else x.pick("sequence", bad_seqs if what in ("sequence", "both") else good_seqs, free=True)
        if what in ("no lot", "no sequence"):
            more = x.pick("other number", (None, 0, 1, 4095, 99999), free=True)
            if more is not None:
                lot, seq = (None, more) if what == "no lot" else (more, None)
        env.rand_hook = lambda n: dom.rnd("c04", n)
        x.raises("intermediate_code(lot=%r, sequence=%r)" % (lot, seq), x.call(
            "intermediate_code", b.intermediate_code, dom.BASE_PASS, lot=lot, sequence=seq, owner_salt=salt))
    check.add("rejected", rejected, 0, "numbers out of range and numbers without the other")

    def none(x):
        b = dom.bip(dom.BTC_MAIN)
        salt = x.pick("owner salt", dom.SALTS8, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        s = scen.Ec(comp=comp, salt=salt)
        x.gives("intermediate_code", x.call("intermediate_code", b.intermediate_code, s.pw, owner_salt=salt), s.code)
        d = x.value("decrypt", x.call("decrypt", b.decrypt, s.created["encrypted_wif"], s.pw, detail=True))
        f = x.value("confirm", x.call("confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"], detail=True))
        for v in (d, f):
            x.same("lot, sequence", (v["lot"], v["sequence"]), (None, None))
    check.add("without", none, 0, "owner salts that look like lot and sequence, without them")
