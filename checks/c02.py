"""C02: the artefacts are byte for byte those of the reference model, and the model's are opened."""
from vf import dom, env, ref, scen


def no_ec(x, net, key, comp, pw):
    b = dom.bip(net)
    want = ref.encrypt(key, comp, pw, net[3])
    x.gives("encrypt of %s" % key.hex(), x.call("encrypt", b.encrypt, ref.wif(key, comp, net[2]), pw), want)
    d = x.value("decrypt of %s" % want, x.call("decrypt", b.decrypt, want, pw, detail=True))
    scen.same_dict(x, "decrypt of %s" % want, d, ref.decrypt(want, pw, net[2], net[3]))


def ec(x, s):
    b = dom.bip(s.net)
    x.gives("intermediate_code", x.call("intermediate_code", b.intermediate_code, s.pw, owner_salt=s.salt, **s.lot_args), s.code)
    scen.same_dict(x, "create", x.value("create_new_encrypted_wif", x.call(
        "create_new_encrypted_wif", b.create_new_encrypted_wif, s.code, wif_type=s.wif_type, seed=s.seed)), s.created)
    scen.same_dict(x, "confirm", x.value("confirm_code", x.call(
        "confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"], detail=True)), s.confirmed)
    scen.same_dict(x, "decrypt", x.value("decrypt", x.call(
        "decrypt", b.decrypt, s.created["encrypted_wif"], s.pw, detail=True)), s.decrypted)


def build(check):
    T = check.thorough
    nets = [n for n in dom.NETS if n[0] != "Ripple"]  # Ripple: see C13

    def blocks(x):
        comp = x.pick("compressed", (False, True), free=True)
        key = x.pick("key", dom.uniq(dom.KEYS[:1] + dom.RARE_KEYS + dom.KEYS))
        s1, s2 = x.pick("first block", dom.SITES), x.pick("second block", dom.SITES)
        ak = x.pick("AES key", dom.AES_KEYS)
        pw = x.pick("passphrase", dom.PASSPHRASES)
        net = x.pick("network", [dom.BTC_MAIN] + [n for n in nets if n != dom.BTC_MAIN])
        dom.kdf_noec(key, comp, pw, net[3], s1, s2, ak)
        no_ec(x, net, key, comp, pw)
    check.add("no-ec", blocks, 2 if T else 1, "encrypt and decrypt: keys, passphrases, networks, block and AES key patterns")

    def ec_all(x):
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", scen.LOTS[:2], free=True)
        parity = x.pick("parity", (0, 1), free=True)
        s1, s2 = x.pick("first half", dom.EC_SITES), x.pick("second half", dom.EC_SITES)
        ak = x.pick("AES key", dom.AES_KEYS)
        salt = x.pick("owner salt", dom.SALTS8)
        seed = x.pick("seed", dom.SEEDS)
        pw = x.pick("passphrase", dom.PASSPHRASES)
        pf = x.pick("pass factor", dom.PASS_FACTORS if lot is None else dom.PASS_FACTORS[:12])
        ec(x, scen.Ec(comp=comp, pw=pw, lot=lot, salt=salt, seed=seed, pf=pf, pre=pf, site1=s1, site2=s2, ak=ak, parity=parity))
    check.add("ec", ec_all, 1, "the four EC-multiply operations: block, salt, seed, passphrase and pass factor patterns")

    def ec_pairs(x):
        comp = x.pick("compressed", (False, True), free=True)
        few = [None] + [(k, b) for k in ("seed", "enc", "point", "encpoint") for b in (dom.BLOCKS if T else dom.BLOCKS[:4:3] + dom.BLOCKS[15:16])]
        s1, s2 = x.pick("first half", few), x.pick("second half", few)
        lot = x.pick("lot", scen.LOTS)
        seed = x.pick("seed", [dom.BASE_SEED] + dom.RARE_SEEDS)
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST))
        ec(x, scen.Ec(net=net, comp=comp, lot=lot, seed=seed, site1=s1, site2=s2))
    check.add("ec-pairs", ec_pairs, 2, "pairs of those patterns with lots, seeds and networks")

    def real(x):
        env.kdf_mode = "real"
        which = x.pick("operation", ("no-ec", "ec", "ec-lot"), free=True)
        comp = x.pick("compressed", (False, True), free=True)
        pw = x.pick("passphrase", [dom.BASE_PASS, "\u03d2\u0301\0\U00010400\U0001f4a9"] + ([p for p in dom.PASSPHRASES[20:26]] if T else []), free=True)
        if which == "no-ec":
            no_ec(x, dom.BTC_MAIN, dom.BASE_KEY, comp, pw)
        else:
            ec(x, scen.Ec(comp=comp, pw=pw, lot=(263183, 1) if which == "ec-lot" else None))
    check.add("real-scrypt", real, 0, "the same with scrypt itself", slow=True)

    vectors = [(op, v) for op in ("encrypt", "decrypt", "intermediate_code", "create_new_encrypted_wif", "confirm_code")
               for v in dom.VECTORS[op]]

    def published(x):
        env.kdf_mode = "real"
        op, v = x.pick("vector", vectors, free=True)
        b = dom.bip(dom.BTC_TEST if v.get("network") == "testnet" else dom.BTC_MAIN)
        if op == "encrypt":
            x.gives("encrypt", x.call(op, b.encrypt, v["wif"], v["passphrase"]), v["encrypted_wif"])
        elif op == "intermediate_code":
            x.gives(op, x.call(op, b.intermediate_code, v["passphrase"], v["lot"], v["sequence"], v["owner_salt"]),
                    v["intermediate_passphrase"])
        else:
            got = x.value(op, (
                x.call(op, b.decrypt, v["encrypted_wif"], v["passphrase"], detail=True) if op == "decrypt" else
                x.call(op, b.confirm_code, v["passphrase"], v["confirmation_code"], detail=True) if op == "confirm_code" else
                x.call(op, b.create_new_encrypted_wif, v["intermediate_passphrase"], v["wif_type"], v["seed"])))
            for k in got:
                if k in v:
                    x.same("%s %s" % (op, k), got[k], v[k])
    check.add("published-vectors", published, 0, "the vectors of BIP38 and of the repository, real scrypt", slow=True)
    check.assumptions += ["the reference model (vf/ref.py) states BIP38 correctly: setup_cmd compares it with the published "
                          "vectors under real scrypt, and with OpenSSL, pyaes and ecdsa"]
