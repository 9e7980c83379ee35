"""C01: encrypt and decrypt without EC multiply are inverse."""
from vf import dom, env, ref


def round_trip(x, net, key, comp, passphrase):
    b = dom.bip(net)
    wif = ref.wif(key, comp, net[2])
    enc = x.value("encrypt(%s, %r)" % (wif, passphrase), x.call("encrypt", b.encrypt, wif, passphrase))
    x.check_that(isinstance(enc, str), "encrypt returned %r" % (enc,))
    x.gives("decrypt of what encrypt returned for %s" % wif, x.call("decrypt", b.decrypt, enc, passphrase), wif)
    point = ref.mul(ref.b2i(key))
    d = x.value("decrypt detail", x.call("decrypt", b.decrypt, enc, passphrase, detail=True))
    want = dict(wif=wif, private_key=key.hex(), wif_type="wif-compressed" if comp else "wif",
                public_key=ref.ser(point, comp).hex(), public_key_type="compressed" if comp else "uncompressed",
                seed=None, lot=None, sequence=None)
    for k, v in want.items():
        x.same("decrypt detail %s" % k, d[k], v)
    # which alphabet an address is reported in is C13's matter
    allowed = {ref.address(point, comp, net[3], dom.COINS[net[0]]["alphabet"] or ref.BTC), ref.address(point, comp, net[3])}
    x.check_that(d["address"] in allowed, "decrypt detail address: got %r, the model says %r" % (d["address"], allowed))


def build(check):
    def blocks(x):
        comp = x.pick("compressed", (False, True), free=True)
        key = x.pick("key", dom.KEYS[:1] + dom.RARE_KEYS[:6])
        pw = x.pick("passphrase", dom.PASSPHRASES[:3])
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST))
        s1, s2 = x.pick("first block", dom.SITES), x.pick("second block", dom.SITES)
        ak = x.pick("AES key", dom.AES_KEYS)
        dom.kdf_noec(key, comp, pw, net[3], s1, s2, ak)
        round_trip(x, net, key, comp, pw)
    check.add("block-values", blocks, 2, "every pair of patterns of the two XOR/AES blocks, chosen through the key derivation's answer")

    def keys(x):
        comp = x.pick("compressed", (False, True), free=True)
        key = x.pick("key", dom.uniq(dom.KEYS + dom.MORE_KEYS), free=True)
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST))
        pw = x.pick("passphrase", dom.PASSPHRASES[:2])
        round_trip(x, net, key, comp, pw)
    check.add("keys", keys, 2 if check.thorough else 1, "every key pattern")

    def networks(x):
        net = x.pick("network", dom.NETS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        key = x.pick("key", dom.KEYS[:2] + dom.RARE_KEYS if not check.thorough else dom.KEYS)
        round_trip(x, net, key, comp, dom.BASE_PASS)
    check.add("networks", networks, 1, "every network of every cryptocurrency")

    def passphrases(x):
        pw = x.pick("passphrase", dom.PASSPHRASES, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        key = x.pick("key", dom.KEYS[:4])
        net = x.pick("network", (dom.BTC_MAIN, dom.BTC_TEST))
        round_trip(x, net, key, comp, pw)
    check.add("passphrases", passphrases, 2, "every passphrase shape")

    def real(x):
        env.kdf_mode = "real"
        comp = x.pick("compressed", (False, True), free=True)
        key = x.pick("key", [dom.BASE_KEY, ref.i2b(5, 32)] + (dom.RARE_KEYS if check.thorough else []), free=True)
        pw = x.pick("passphrase", [dom.BASE_PASS, "\u03d2\u0301\0\U00010400\U0001f4a9"], free=True)
        round_trip(x, dom.BTC_MAIN, key, comp, pw)
    check.add("real-scrypt", real, 0, "the same with scrypt itself", slow=True)
    check.assumptions += ["scrypt, AES and ecdsa themselves are correct (scrypt is replaced by a deterministic stand-in that the "
                          "harness can script; the real-scrypt harness runs the real one)"]
