"""C03: what creation, confirmation and decryption report about one EC-multiplied key agrees."""
from vf import dom, env, ref, scen


def views(x, s, random=False, plain=True, form=None):
    b = dom.bip(s.net)
    given = form or (lambda b: b)
    kw = {} if random else dict(owner_salt=given(s.salt))
    code = x.value("intermediate_code", x.call("intermediate_code", b.intermediate_code, s.pw, **kw, **s.lot_args))
    x.check_that(isinstance(code, str), "intermediate_code returned %r" % (code,))
    kw = {} if random else dict(seed=given(s.seed))
    c = x.value("create_new_encrypted_wif", x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, code,
                                                   wif_type=s.wif_type, **kw))
    f = x.value("confirm_code", x.call("confirm_code", b.confirm_code, s.pw, c["confirmation_code"], detail=True))
    d = x.value("decrypt", x.call("decrypt", b.decrypt, c["encrypted_wif"], s.pw, detail=True))
    for k in ("public_key", "public_key_type", "address"):
        x.same("confirm/create %s" % k, f[k], c[k])
        x.same("decrypt/create %s" % k, d[k], c[k])
    x.same("seed of decrypt/create", d["seed"], c["seed"])
    if not random:
        x.same("seed", c["seed"], s.seed.hex())
    want = s.lot or (None, None)
    for v, what in ((f, "confirm"), (d, "decrypt")):
        x.same("%s lot" % what, v["lot"], want[0])
        x.same("%s sequence" % what, v["sequence"], want[1])
    x.same("public key type", c["public_key_type"], "compressed" if s.comp else "uncompressed")
    x.same("wif type", d["wif_type"], s.wif_type)
    key = bytes.fromhex(d["private_key"])
    x.same("private key length", len(key), 32)
    x.same("public key of the private key", d["public_key"], ref.ser(ref.mul(ref.b2i(key)), s.comp).hex())
    x.same("WIF of the private key", d["wif"], ref.wif(key, s.comp, s.net[2]))
    if plain:
        x.gives("plain decrypt", x.call("decrypt", b.decrypt, c["encrypted_wif"], s.pw), d["wif"])
        x.gives("plain confirm", x.call("confirm_code", b.confirm_code, s.pw, c["confirmation_code"]), f["address"])


def build(check):
    T = check.thorough

    def ec_all(x):
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", scen.LOTS[:2], free=True)
        seed = x.pick("seed", dom.SEEDS)
        s1, s2 = x.pick("first half", dom.EC_SITES), x.pick("second half", dom.EC_SITES)
        salt = x.pick("owner salt", dom.SALTS8)
        parity = x.pick("parity", (None, 0, 1))
        ak = x.pick("AES key", dom.AES_KEYS)
        pw = x.pick("passphrase", dom.PASSPHRASES)
        pf = x.pick("pass factor", dom.PASS_FACTORS[:12])
        s = scen.Ec(comp=comp, pw=pw, lot=lot, salt=salt, seed=seed, pf=pf, pre=pf, site1=s1, site2=s2, ak=ak, parity=parity)
        views(x, s)
    check.add("views", ec_all, 1, "seed, block, salt, passphrase and pass factor patterns")

    def scalars(x):
        comp = x.pick("compressed", (False, True), free=True)
        what = x.pick("scalar", ("final", "pass factor"), free=True)
        v = x.pick("value", dom.uniq(dom.KEYS + (dom.MORE_KEYS if T else dom.RARE_KEYS)), free=True)
        views(x, scen.Ec(comp=comp, **{"final" if what == "final" else "pf": v}), plain=False)
    check.add("scalars", scalars, 0, "pass factor and resulting private key over every key pattern (N-1, small, zeros)")

    forms = {"hex": bytes.hex, "HEX": lambda b: b.hex().upper(), "mixed case": lambda b: b.hex().title()}

    def given(x):
        form = x.pick("form", sorted(forms), free=True)
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", scen.LOTS[:2], free=True)
        seed = x.pick("seed", dom.SEEDS)
        salt = x.pick("owner salt", dom.SALTS8)
        views(x, scen.Ec(comp=comp, lot=lot, salt=salt, seed=seed), form=forms[form])
    check.add("forms", given, 2 if T else 1, "salt and seed given as hex, in either case")

    def lots(x):
        lot = x.pick("lot", scen.LOTS, free=True)
        salt = x.pick("owner salt", [dom.BASE_SALT, dom.BASE_SALT[:4], bytes(8)] + dom.SALTS4[1:])
        if lot is None and len(salt) != 8:
            x.observe("not in the domain")
            return
        comp = x.pick("compressed", (False, True), free=True)
        seed = x.pick("seed", dom.SEEDS[:2] + dom.RARE_SEEDS)
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST))
        pw = x.pick("passphrase", dom.PASSPHRASES[:3])
        views(x, scen.Ec(net=net, comp=comp, pw=pw, lot=lot, salt=salt, seed=seed))
    check.add("lots", lots, 2 if T else 1, "lots with 4- and 8-byte owner salts, seeds and networks")

    def networks(x):
        net = x.pick("network", dom.NETS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", scen.LOTS[:2], free=T)
        seed = x.pick("seed", dom.SEEDS[:2] + (dom.RARE_SEEDS if T else []))
        views(x, scen.Ec(net=net, comp=comp, lot=lot, seed=seed))
    check.add("networks", networks, 1, "every network")

    rands = [dom.rnd("rand", 64)] + [bytes([v]) * 64 for v in (0, 1, 255)] + [bytes(1) + dom.rnd("rand2", 63), bytes(9) + dom.rnd("rand3", 55)]

    def random_inputs(x):
        data = x.pick("random bytes", rands, free=True)
        lot = x.pick("lot", scen.LOTS[:4], free=True)
        comp = x.pick("compressed", (False, True), free=True)
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST), free=True)
        pos = [0]

        def give(n):
            out = (data * 4)[pos[0]:pos[0] + n]
            pos[0] = (pos[0] + n) % len(data)
            return out
        env.rand_hook = give
        views(x, scen.Ec(net=net, comp=comp, lot=lot), random=True)
    check.add("random-inputs", random_inputs, 0, "salt and seed omitted, the random source's answers chosen")

    def protocol(x):
        """Two owners' codes, two keys made from them, everything opened with everything."""
        owners = [(x.pick("owner %d" % i, ("Alice", "Bob", "alice "), free=True), x.pick("lot %d" % i, (None, (100000, 0), (100000, 1), (999999, 4095)))) for i in (0, 1)]
        b = {n[1]: dom.bip(n) for n in (dom.BTC_MAIN, dom.BTC_TEST)}
        codes = []
        for i, (pw, lot) in enumerate(owners):
            codes.append(x.value("intermediate_code", x.call("intermediate_code", b["mainnet"].intermediate_code, pw, *(lot or ()))))
        made = []
        for i in (0, 1):
            k = x.pick("code %d" % i, (0, 1), free=True)
            comp = x.pick("compressed %d" % i, (False, True))
            net = x.pick("network %d" % i, (dom.BTC_MAIN, dom.BTC_TEST))
            by_call = x.pick("by call %d" % i, (False, True))
            inst = b["mainnet"] if by_call else b[net[1]]
            c = x.value("create_new_encrypted_wif", x.call("create_new_encrypted_wif", inst.create_new_encrypted_wif, codes[k], "wif-compressed" if comp else "wif",
                                                           **(dict(network=net[1]) if by_call else {})))
            want = ref.create(codes[k], comp, bytes.fromhex(c["seed"]), net[3])
            scen.same_dict(x, "created key %d" % i, c, want)
            made.append((k, comp, net, c))
        x.check_that(made[0][3]["seed"] != made[1][3]["seed"] and made[0][3]["address"] != made[1][3]["address"], "two keys are the same")
        for k, comp, net, c in made[::-1]:
            pw, lot = owners[k]
            d = ref.decrypt(c["encrypted_wif"], pw, net[2], net[3])
            f = ref.confirm(pw, c["confirmation_code"], net[3])
            for other in dom.uniq([pw, owners[1 - k][0], "Alice", "Bob"]):
                for n in (dom.BTC_MAIN, dom.BTC_TEST):
                    dec = x.call("decrypt", b[n[1]].decrypt, c["encrypted_wif"], other, detail=True)
                    con = x.call("confirm_code", b["mainnet"].confirm_code, other, c["confirmation_code"], n[1], True)
                    if other == pw and n == net:
                        scen.same_dict(x, "decrypt", x.value("decrypt", dec), d)
                        scen.same_dict(x, "confirm", x.value("confirm", con), f)
                        x.same("address", d["address"], c["address"])
                        x.same("lot and sequence", (d["lot"], d["sequence"]), lot or (None, None))
                    else:
                        x.raises("decrypt by %r under %s" % (other, n[1]), dec)
                        x.raises("confirm by %r under %s" % (other, n[1]), con)
    check.add("protocol", protocol, 3 if T else 2, "two owners, two keys, everything opened with every passphrase under every network")

    def real(x):
        env.kdf_mode = "real"
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", scen.LOTS[:4] if T else scen.LOTS[:2], free=True)
        views(x, scen.Ec(comp=comp, lot=lot), plain=False)
    check.add("real-scrypt", real, 0, "with scrypt itself", slow=True)
