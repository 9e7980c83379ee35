"""C13: each network uses its own parameters: against the frozen table data/coins.json."""
from vf import dom, env, ref, scen

RIPPLE = "ripple-alphabet"


def reported(x, what, net, got, point, comp):
    """An address an operation reported: in the coin's alphabet."""
    alphabet = dom.COINS[net[0]]["alphabet"] or ref.BTC
    want = ref.address(point, comp, net[3], alphabet)
    if got == want and isinstance(got, str):
        return
    if net[0] == "Ripple" and got == ref.address(point, comp, net[3]):
        x.known(RIPPLE, "%s: %s in Bitcoin's alphabet, %s expected" % (what, got, want))
        return
    x.same(what, got, want)


def nets_of(coin):
    return [n for n in dom.NETS if n[0] == coin]


def operation(x, b, op, net, comp, lot, arg):
    """One operation under one network, judged against the model. arg: keyword arguments choosing the network."""
    key, pw = dom.BASE_KEY, dom.BASE_PASS
    if op == "encrypt":
        x.gives("encrypt on %s %s" % net[:2], x.call("encrypt", b.encrypt, ref.wif(key, comp, net[2]), pw, **arg), ref.encrypt(key, comp, pw, net[3]))
        return
    if op == "decrypt":
        d = x.value("decrypt on %s %s" % net[:2], x.call("decrypt", b.decrypt, ref.encrypt(key, comp, pw, net[3]), pw, detail=True, **arg))
        x.same("wif", d["wif"], ref.wif(key, comp, net[2]))
        reported(x, "address", net, d["address"], ref.mul(ref.b2i(key)), comp)
        x.gives("plain decrypt", x.call("decrypt", b.decrypt, ref.encrypt(key, comp, pw, net[3]), pw, **arg), ref.wif(key, comp, net[2]))
        return
    s = scen.Ec(net=net, comp=comp, lot=lot)
    if op == "create":
        c = x.value("create on %s %s" % net[:2], x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, s.code, wif_type=s.wif_type, seed=s.seed, **arg))
        for k in ("encrypted_wif", "confirmation_code", "public_key"):
            x.same("create on %s %s: %s" % (net[0], net[1], k), c[k], s.created[k])
        reported(x, "address", net, c["address"], s.point, comp)
    elif op == "confirm":
        f = x.value("confirm on %s %s" % net[:2], x.call("confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"], detail=True, **arg))
        reported(x, "address", net, f["address"], s.point, comp)
        a = x.value("confirm", x.call("confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"], **arg))
        reported(x, "address", net, a, s.point, comp)
    else:
        d = x.value("decrypt on %s %s" % net[:2], x.call("decrypt", b.decrypt, s.created["encrypted_wif"], s.pw, detail=True, **arg))
        x.same("wif", d["wif"], s.decrypted["wif"])
        reported(x, "address", net, d["address"], s.point, comp)
        x.gives("plain decrypt", x.call("decrypt", b.decrypt, s.created["encrypted_wif"], s.pw, **arg), s.decrypted["wif"])


OPS = ("encrypt", "decrypt", "create", "confirm", "decrypt-ec")


def build(check):
    T = check.thorough

    def table(x):
        coin = x.pick("coin", sorted(dom.COINS), free=True)
        m = env.mod("cryptocurrencies")
        c = x.value("class", x.call("class", getattr, m, coin))
        x.check_that(isinstance(c, type) and issubclass(c, m.ICryptocurrency), "%s is no cryptocurrency class" % coin)
        want = dom.COINS[coin]
        got = x.value("NETWORKS", x.call("NETWORKS", lambda: {n: (p["wif_prefix"], p["address_prefix"]) for n, p in c.NETWORKS.items()}))
        x.same("networks of " + coin, got, {n: tuple(v) for n, v in want["networks"].items()})
        x.gives("alphabet", x.call("ALPHABET", lambda: c.ALPHABET if c.ALPHABET else m.Bitcoin.ALPHABET), want["alphabet"] or ref.BTC)
        for n in want["networks"]:
            b = x.value("BIP38", x.call("BIP38", env.bip38.BIP38, c, n))
            x.same("network of the instance", b.network, n)
            x.gives("alphabet of the instance", x.call("alphabet", lambda: b.alphabet), want["alphabet"] or ref.BTC)
            x.gives("networks of the instance", x.call("networks", lambda: sorted(b.networks)), sorted(want["networks"]))
            x.gives("coin of the instance", x.call("cryptocurrency", lambda: b.cryptocurrency is c), True)
        x.same("default network", x.value("BIP38", x.call("BIP38", env.bip38.BIP38, c)).network, "mainnet")
    check.add("table", table, 0, "networks, prefixes and alphabet of each of the %d coins, and the attributes of an instance for each network" % len(dom.COINS))

    def operations(x):
        net = x.pick("network", dom.NETS, free=True)
        op = x.pick("operation", OPS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        own = x.pick("instance made for", nets_of(net[0]), free=True)
        how = x.pick("network given", ("keyword", "none"), free=True)
        lot = x.pick("lot", (None, (263183, 1)), free=T)
        if how == "none" and own != net:
            x.observe("this combination selects another network")
            return
        operation(x, dom.bip(own), op, net, comp, lot, dict(network=net[1]) if how == "keyword" else {})
    check.add("operations", operations, 0 if T else 1, "every operation on every network, by the instance's and by the call's choice")

    def wif_functions(x):
        net = x.pick("network", dom.NETS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        w, c = env.mod("wif"), dom.cls(net[0])
        t = "wif-compressed" if comp else "wif"
        text = ref.wif(dom.BASE_KEY, comp, net[2])
        x.gives("private_key_to_wif", x.call("private_key_to_wif", w.private_key_to_wif, dom.BASE_KEY, t, c, net[1]), text)
        x.gives("wif_to_private_key", x.call("wif_to_private_key", w.wif_to_private_key, text, c, net[1]), dom.BASE_KEY.hex())
        x.gives("get_wif_type", x.call("get_wif_type", w.get_wif_type, text, c, net[1]), t)
        x.gives("get_wif_checksum", x.call("get_wif_checksum", w.get_wif_checksum, text, c, net[1]), ref.unwif(text, net[2])[2].hex())
        if net[1] == "mainnet":
            x.gives("default network", x.call("private_key_to_wif", w.private_key_to_wif, dom.BASE_KEY, t, c), text)
        if net == dom.BTC_MAIN:
            x.gives("default coin", x.call("private_key_to_wif", w.private_key_to_wif, dom.BASE_KEY, t), text)
            x.gives("default type", x.call("private_key_to_wif", w.private_key_to_wif, dom.BASE_KEY), ref.wif(dom.BASE_KEY, True, 0x80))
    check.add("wif-functions", wif_functions, 0, "the WIF functions on every network")

    one_per_wif = [[n for n in dom.NETS if n[2] == p][0] for p in dom.uniq([n[2] for n in dom.NETS])]
    one_per_addr = [[n for n in dom.NETS if n[3] == p][0] for p in dom.uniq([n[3] for n in dom.NETS])]

    def foreign_wif(x):
        a = x.pick("made for", one_per_wif, free=True)
        b = x.pick("used under", dom.NETS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        if a[2] == b[2]:
            x.observe("the same prefix")
            return
        out = x.call("encrypt", dom.bip(b).encrypt, ref.wif(dom.BASE_KEY, comp, a[2]), "p")
        x.raises("a WIF with prefix %x under %s %s" % (a[2], b[0], b[1]), out, env.mod("exceptions").Error)
    check.add("foreign-wif", foreign_wif, 0, "WIFs of each prefix on every network with another")

    def foreign_artefact(x):
        a = x.pick("made for", one_per_addr, free=True)
        b = x.pick("opened under", dom.NETS if T else one_per_addr, free=True)
        if a[3] == b[3]:
            x.observe("the same prefix")
            return
        comp = x.pick("compressed", (False, True), free=T)
        err, bb = env.mod("exceptions").Error, dom.bip(b)
        s = scen.Ec(net=a, comp=comp)
        x.raises("decrypt", x.call("decrypt", bb.decrypt, ref.encrypt(dom.BASE_KEY, comp, "p", a[3]), "p"), err)
        x.raises("decrypt EC", x.call("decrypt", bb.decrypt, s.created["encrypted_wif"], s.pw), err)
        x.raises("confirm", x.call("confirm_code", bb.confirm_code, s.pw, s.created["confirmation_code"]), err)
    check.add("foreign-artefact", foreign_artefact, 0 if T else 1, "artefacts of each address prefix under each other one")

    coins = ["Bitcoin", "Dogecoin", "Ravencoin"] + (["BitcoinPrivate", "Zcash", "Blocknode", "Dash", "Slimcoin"] if T else [])

    def one_call_only(x):
        """Networks chosen call by call on one instance."""
        coin = x.pick("coin", coins, free=True)
        nets = nets_of(coin)[:3]
        own = x.pick("instance made for", nets, free=True)
        b = dom.bip(own)
        for i in range(3):
            op = x.pick("operation %d" % i, OPS, free=(i != 1))
            choice = x.pick("network %d" % i, [None] + nets + ["unknown"], free=True)
            comp = bool(i % 2)
            if choice == "unknown":
                out = x.call("encrypt", b.encrypt, ref.wif(dom.BASE_KEY, comp, own[2]), dom.BASE_PASS, network="unknown")
                x.raises("an unknown network", out, env.mod("exceptions").NetworkError)
            else:
                operation(x, b, op, choice or own, comp, None, dict(network=choice[1]) if choice else {})
            x.same("the instance's network", b.network, own[1])
    check.add("one-call-only", one_call_only, 0 if not T else 1, "all sequences of three calls with networks chosen per call")
