"""C22: cryptocurrencies of one's own work like the built-in ones."""
import collections
import types

from vf import dom, env, iso, ref, scen

KEY, PW = dom.BASE_KEY, dom.BASE_PASS
OPS = ("encrypt", "decrypt", "create", "confirm", "decrypt-ec", "wif")
PREFIXES = (0x00, 0x01, 0x05, 0x0F, 0x10, 0x20, 0x30, 0x7F, 0x80, 0xB0, 0xEF, 0xFF, 0x100, 0x0580, 0x1CB8, 0x2000, 0x8000, 0xFF00, 0xFFFF, 0x10000, 0x19A1CB, 0x800000,
            0xFFFFFF, 0x01000000, 0x19A1CB8E, 0xFFFFFFFF, 0x100000000, 0x0100000000000000)


def make(networks, name="Own", bases=None, entry=dict, table=dict, **attrs):
    """A class such as a user writes."""
    m = env.mod("cryptocurrencies")
    nets = table((n, entry(wif_prefix=w, address_prefix=a)) for n, (w, a) in networks.items())
    return type(name, bases or (m.ICryptocurrency,), dict(NETWORKS=nets, **attrs))


def use(x, b, c, op, net, comp, lot, arg):
    """One operation for a network (name, wif prefix, address prefix), judged against the model."""
    name, wp, ap = net
    n4 = ("Own", name, wp, ap)
    if op == "wif":
        w = env.mod("wif")
        t = "wif-compressed" if comp else "wif"
        text = ref.wif(KEY, comp, wp)
        x.gives("private_key_to_wif", x.call("private_key_to_wif", w.private_key_to_wif, KEY, t, c, name), text)
        x.gives("wif_to_private_key", x.call("wif_to_private_key", w.wif_to_private_key, text, c, name), KEY.hex())
        x.gives("get_wif_type", x.call("get_wif_type", w.get_wif_type, text, c, name), t)
        x.gives("get_wif_checksum", x.call("get_wif_checksum", w.get_wif_checksum, text, c, name), ref.unwif(text, wp)[2].hex())
        return
    if op == "encrypt":
        x.gives("encrypt on %r" % (net,), x.call("encrypt", b.encrypt, ref.wif(KEY, comp, wp), PW, **arg), ref.encrypt(KEY, comp, PW, ap))
        return
    if op == "decrypt":
        e = ref.encrypt(KEY, comp, PW, ap)
        scen.same_dict(x, "decrypt on %r" % (net,), x.value("decrypt", x.call("decrypt", b.decrypt, e, PW, detail=True, **arg)), ref.decrypt(e, PW, wp, ap))
        x.gives("plain decrypt", x.call("decrypt", b.decrypt, e, PW, **arg), ref.wif(KEY, comp, wp))
        return
    s = scen.Ec(net=n4, comp=comp, lot=lot)
    if op == "create":
        out = x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, s.code, wif_type=s.wif_type, seed=s.seed, **arg)
        scen.same_dict(x, "create on %r" % (net,), x.value("create", out), s.created)
    elif op == "confirm":
        out = x.call("confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"], detail=True, **arg)
        scen.same_dict(x, "confirm on %r" % (net,), x.value("confirm", out), s.confirmed)
        x.gives("plain confirm", x.call("confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"], **arg), s.address)
    else:
        out = x.call("decrypt", b.decrypt, s.created["encrypted_wif"], s.pw, detail=True, **arg)
        scen.same_dict(x, "decrypt EC on %r" % (net,), x.value("decrypt", out), s.decrypted)
        x.gives("plain decrypt EC", x.call("decrypt", b.decrypt, s.created["encrypted_wif"], s.pw, **arg), s.decrypted["wif"])


# tables of networks a user may write: {name: (WIF prefix, address prefix)}
TABLES = {
    "one": {"mainnet": (0x80, 0x00)},
    "two": {"mainnet": (0x99, 0x19), "testnet": (0x9A, 0x1A)},
    "three": {"mainnet": (0x99, 0x19), "testnet": (0x9A, 0x1A), "regtest": (0x9B, 0x1B)},
    "no mainnet": {"main": (0x80, 0x30), "test": (0xEF, 0x6F)},
    "mainnet last": {"testnet": (0x9A, 0x1A), "mainnet": (0x99, 0x19)},
    "same WIF prefix": {"mainnet": (0x99, 0x19), "testnet": (0x99, 0x1A)},
    "same address prefix": {"mainnet": (0x99, 0x19), "testnet": (0x9A, 0x19)},
    "swapped": {"mainnet": (0x19, 0x99), "testnet": (0x99, 0x19)},
    "wide and narrow": {"mainnet": (0x80, 0x1C), "testnet": (0x80AB, 0x1CB8), "regtest": (0xAB, 0xB8)},
    "names alike": {"mainnet": (0x99, 0x19), "Mainnet": (0x9A, 0x1A), "mainnet ": (0x9B, 0x1B), "main": (0x9C, 0x1C), "mainnet2": (0x9D, 0x1D)},
    "names of any kind": {"main net": (0x99, 0x19), "test-net/2": (0x9A, 0x1A), "\u0442\u0435\u0441\u0442": (0x9B, 0x1B), "0": (0x9C, 0x1C)},
    "Bitcoin's names, other numbers": {"mainnet": (0xEF, 0x6F), "testnet": (0x80, 0x00)},
    "many": {("mainnet" if i == 7 else "net%d" % i): (0x40 + i, 0x60 + i) for i in range(20)},
}


def shapes(t):
    """Ways to write such a class."""
    m = env.mod("cryptocurrencies")
    ro = lambda items: types.MappingProxyType(dict(items))
    yield "plain", make(t)
    yield "ALPHABET None", make(t, ALPHABET=None)
    yield "ALPHABET of Bitcoin", make(t, ALPHABET=m.Bitcoin.ALPHABET)
    yield "ordered table", make(t, table=collections.OrderedDict, entry=collections.OrderedDict)
    yield "read-only table", make(t, table=ro, entry=lambda **k: types.MappingProxyType(k))
    yield "more attributes", make(t, NAME="Own", SYMBOL="OWN", extra=lambda self: 1)
    yield "more fields", make(t, entry=lambda **k: dict(k, bip32_public=1, hrp="own"))
    yield "derived from Bitcoin", make(t, bases=(m.Bitcoin,))
    yield "derived from Litecoin", make(t, bases=(m.Litecoin,))
    yield "derived from a class of one's own", make(t, bases=(make({"mainnet": (1, 2), "testnet": (3, 4)}),))
    yield "table inherited", type("Heir", (make(t),), {})
    yield "named like a built-in", make(t, name="Bitcoin")
    yield "named like a built-in, with module", make(t, name="Bitcoin", __module__=m.__name__, __qualname__="Bitcoin")
    yield "mix-in", make(t, bases=(type("Mixin", (), {"NETWORKS": {"mainnet": {"wif_prefix": 7, "address_prefix": 8}}}), m.ICryptocurrency))


def build(check):
    T = check.thorough
    err = lambda: env.mod("exceptions")

    def nets(t):
        return [(n, w, a) for n, (w, a) in t.items()]

    def prefixes(x):
        wp = x.pick("WIF prefix", PREFIXES, free=True)
        ap = x.pick("address prefix", PREFIXES, free=True)
        op = x.pick("operation", OPS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", (None, (263183, 1)), free=T)
        c = make({"mainnet": (wp, ap)})
        use(x, env.bip38.BIP38(c), c, op, ("mainnet", wp, ap), comp, lot, {})
    check.add("prefixes", prefixes, 0, "WIF and address prefixes of up to eight bytes, all pairs, in every operation")

    def tables(x):
        tname = x.pick("table", sorted(TABLES), free=True)
        table = TABLES[tname]
        own = x.pick("instance made for", list(table) + ([None] if "mainnet" in table else []), free=True)
        chosen = x.pick("network of the call", [None] + nets(table), free=True)
        op = x.pick("operation", OPS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        lot = x.pick("lot", (None, (100000, 0)), free=T)
        c = make(table)
        b = x.value("BIP38", x.call("BIP38", env.bip38.BIP38, c, own) if own else x.call("BIP38", env.bip38.BIP38, c))
        own = own or "mainnet"
        x.same("network of the instance", b.network, own)
        use(x, b, c, op, chosen or (own,) + table[own], comp, lot, dict(network=chosen[0]) if chosen else {})
        x.same("network of the instance afterwards", b.network, own)
    check.add("tables", tables, 0, "tables of one to twenty networks: every instance, every choice of the call, every operation")

    kinds = [n for n, _ in shapes(TABLES["two"])]

    def classes(x):
        i = x.pick("class", kinds, free=True)
        t = TABLES[x.pick("table", ("two", "no mainnet", "names alike"), free=True)]
        net = x.pick("network", nets(t), free=True)
        how = x.pick("chosen by", ("instance", "call"), free=True)
        op = x.pick("operation", OPS, free=True)
        comp = x.pick("compressed", (False, True), free=True)
        c = dict(shapes(t))[i]
        b = x.value("BIP38", x.call("BIP38", env.bip38.BIP38, c, net[0] if how == "instance" else list(t)[0]))
        x.same("networks of the instance", sorted(b.networks), sorted(t))
        use(x, b, c, op, net, comp, None, dict(network=net[0]) if how == "call" else {})
    check.add("classes", classes, 0, "ways of writing the class")

    def foreign(x):
        """What is made for one table is refused under another with other prefixes."""
        tname = x.pick("table", sorted(TABLES), free=True)
        a = x.pick("made for", nets(TABLES[tname]) + [("Bitcoin", 0x80, 0x00), ("wide", 0x8000, 0x0000FF)], free=True)
        u = x.pick("used under", nets(TABLES[tname]), free=True)
        comp = x.pick("compressed", (False, True), free=True)
        c = make(TABLES[tname])
        b = env.bip38.BIP38(c, u[0])
        text = ref.wif(KEY, comp, a[1])
        try:
            ref.unwif(text, u[1])
        except ref.Reject:
            x.raises("a WIF of prefix %x under %x" % (a[1], u[1]), x.call("encrypt", b.encrypt, text, PW), err().Error)
            x.raises("a WIF of prefix %x under %x" % (a[1], u[1]), x.call("wif_to_private_key", env.mod("wif").wif_to_private_key, text, c, u[0]), err().Error)
        if a[2] != u[2]:
            s = scen.Ec(net=("Own",) + a, comp=comp)
            x.raises("decrypt", x.call("decrypt", b.decrypt, ref.encrypt(KEY, comp, PW, a[2]), PW), err().Error)
            x.raises("decrypt EC", x.call("decrypt", b.decrypt, s.created["encrypted_wif"], s.pw), err().Error)
            x.raises("confirm", x.call("confirm_code", b.confirm_code, s.pw, s.created["confirmation_code"]), err().Error)
        x.observe("done")
    check.add("foreign", foreign, 0, "artefacts of each network of a table under each other one")

    def refused(x):
        tname = x.pick("table", sorted(TABLES), free=True)
        bad = x.pick("network", ("simnet", "MAINNET", "mainne", "mainnet  ", "net", "Bitcoin", "1"), free=True)
        own = x.pick("instance made for", list(TABLES[tname]), free=True)
        c = make(TABLES[tname])
        x.raises("BIP38(%r)" % bad, x.call("BIP38", env.bip38.BIP38, c, bad), err().NetworkError)
        if "mainnet" not in TABLES[tname]:
            x.raises("BIP38 without a network", x.call("BIP38", env.bip38.BIP38, c), err().NetworkError)
        b = env.bip38.BIP38(c, own)
        net = (own,) + TABLES[tname][own]
        s = scen.Ec(net=("Own",) + net)
        for what, fn, args in (("encrypt", b.encrypt, (ref.wif(KEY, True, net[1]), PW)), ("decrypt", b.decrypt, (ref.encrypt(KEY, True, PW, net[2]), PW)),
                               ("create", b.create_new_encrypted_wif, (s.code,)), ("confirm", b.confirm_code, (PW, s.created["confirmation_code"]))):
            x.raises("%s on %r" % (what, bad), x.call(what, fn, *args, network=bad), err().NetworkError)
        if bad == "1":
            duck = type("Duck", (), {"NETWORKS": c.NETWORKS, "ALPHABET": None})
            x.raises("a class that is not derived from ICryptocurrency", x.call("BIP38", env.bip38.BIP38, duck, own), err().CryptocurrencyError)
            x.raises("an instance", x.call("BIP38", env.bip38.BIP38, c(), own), Exception)
    check.add("refused", refused, 0, "networks the table does not have, classes that are none")

    # classes that code could take for each other
    alike = (("Own", {"mainnet": (0x99, 0x19), "testnet": (0x9A, 0x1A)}), ("Own", {"mainnet": (0x80, 0x00), "testnet": (0xEF, 0x6F)}),
             ("Own", {"mainnet": (0x99, 0x1A), "testnet": (0x9A, 0x19)}), ("Bitcoin", {"mainnet": (0xEF, 0x6F), "testnet": (0x80, 0x00)}),
             (None, None))

    def mixed(x):
        """Classes of the same name, used in turn in one process."""
        steps = []
        for i in range(3):
            steps.append((x.pick("class %d" % i, range(len(alike)), free=True), x.pick("operation %d" % i, OPS, free=(i != 1)),
                          x.pick("network %d" % i, ("mainnet", "testnet"), free=T or i == 2), x.pick("by call %d" % i, (False, True))))

        def run(sub):
            made, inst = {}, {}
            for k, op, n, by_call in steps:
                if k not in made:
                    name, table = alike[k]
                    made[k] = make(table, name=name) if name else dom.cls("Bitcoin")
                    inst[k] = {m: env.bip38.BIP38(made[k], m) for m in ("mainnet", "testnet")}
                table = alike[k][1] or {"mainnet": (0x80, 0x00), "testnet": (0xEF, 0x6F)}
                b = inst[k]["mainnet" if by_call else n]
                use(sub, b, made[k], op, (n,) + table[n], False, None, dict(network=n) if by_call else {})
        iso.isolated(x, run)
    check.add("mixed", mixed, 0 if not T else 1, "all histories of three operations over classes of the same name")

    def later(x):
        """Classes made, used and dropped one after the other (object ids come again)."""
        op = x.pick("operation", OPS, free=True)
        how = x.pick("classes", ("same name", "other names"), free=True)
        n = 120 if T else 40

        def run(sub):
            for i in range(n):
                net = ("mainnet", 1 + i, 200 + i)
                c = make({"mainnet": net[1:]}, name="Own" if how == "same name" else "Own%d" % i)
                use(sub, env.bip38.BIP38(c), c, op, net, bool(i & 1), None, {})
                del c
        iso.isolated(x, run)
    check.add("later", later, 0, "many classes, one after the other")

    changes = ("a network more", "a network less", "other WIF prefix", "other address prefix", "another table", "inherited table")

    def changed(x):
        """A table that is changed between uses: instances made afterwards go by what it says then."""
        what = x.pick("change", changes, free=True)
        before = x.pick("operation before", OPS, free=True)
        op = x.pick("operation after", OPS, free=True)
        how = x.pick("chosen by", ("instance", "call"), free=True)
        comp = x.pick("compressed", (False, True), free=T)

        def run(sub):
            parent = make({"mainnet": (0x99, 0x19), "testnet": (0x9A, 0x1A)})
            c = type("Heir", (parent,), {})
            for n in ("mainnet", "testnet"):
                use(sub, env.bip38.BIP38(c, n), c, before, (n,) + ((0x99, 0x19) if n == "mainnet" else (0x9A, 0x1A)), comp, None, {})
            table = {"mainnet": (0x99, 0x19), "testnet": (0x9A, 0x1A)}
            if what == "a network more":
                c.NETWORKS["extra"] = {"wif_prefix": 0x9B, "address_prefix": 0x1B}
                table["extra"] = (0x9B, 0x1B)
            elif what == "a network less":
                del c.NETWORKS["testnet"], table["testnet"]
                sub.raises("a network that is gone", sub.call("BIP38", env.bip38.BIP38, c, "testnet"), err().NetworkError)
            elif what == "other WIF prefix":
                c.NETWORKS["testnet"]["wif_prefix"] = 0x77
                table["testnet"] = (0x77, 0x1A)
            elif what == "other address prefix":
                c.NETWORKS["testnet"]["address_prefix"] = 0x77
                table["testnet"] = (0x9A, 0x77)
            else:
                table = {"mainnet": (0x66, 0x67), "other": (0x68, 0x69)}
                (c if what == "another table" else parent).NETWORKS = {n: {"wif_prefix": w, "address_prefix": a} for n, (w, a) in table.items()}
            for n in table:
                b = env.bip38.BIP38(c, n if how == "instance" else "mainnet")
                use(sub, b, c, op, (n,) + table[n], comp, None, dict(network=n) if how == "call" else {})
        iso.isolated(x, run)
    check.add("changed", changed, 0, "tables changed after their first use, for instances made afterwards")
