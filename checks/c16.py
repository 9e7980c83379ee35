"""C16: omitted salts and seeds come whole from the system's random source, anew in each call; given ones are used as given."""
from vf import dom, env, ref

PW = dom.BASE_PASS
CODES = {}


class Source:
    """The random source, under our control: a stream of bytes, and what this call drew of it."""

    def __init__(self, stream):
        self.stream, self.pos, self.drawn = stream, 0, b""

    def __call__(self, n):
        out = self.stream[self.pos:self.pos + n]
        if len(out) != n:
            raise OSError("the stream is used up")
        self.pos += n
        self.drawn += out
        return out

    def take(self):
        out, self.drawn = self.drawn, b""
        return out


def code(lot):
    return CODES[lot]


def owner_salt(x, what, text, lot):
    """What the intermediate code holds, after comparing it with the model's code for just that."""
    raw = ref.b58undo(text)
    oe = raw[8:16]
    salt = oe[:4] if lot else oe
    x.same(what, text, ref.intermediate(PW, salt, *(lot or ())))
    return salt


def seed_of(x, what, got, lot, comp, net):
    seed = bytes.fromhex(got["seed"])
    x.same("length of the seed", len(seed), 24)
    want = ref.create(code(lot), comp, seed, net[3])
    for k in want:
        x.same("%s: %s" % (what, k), got[k], want[k])
    return seed


def op_call(x, b, op, **kw):
    """-> the random value this call used"""
    kind, lot = op
    if kind == "code":
        if lot:
            kw.update(lot=lot[0], sequence=lot[1])
        return owner_salt(x, "intermediate_code", x.value("intermediate_code", x.call("intermediate_code", b.intermediate_code, PW, **kw)), lot)
    comp = kind == "create compressed"
    net = kw.pop("net", dom.BTC_MAIN)
    if net != dom.BTC_MAIN:
        kw["network"] = net[1]
    out = x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, code(lot), "wif-compressed" if comp else "wif", **kw)
    return seed_of(x, "create", x.value("create", out), lot, comp, net)


LOT = (263183, 1)
OPS = [("code", None), ("code", LOT), ("code", (100000, 0)), ("create", None), ("create compressed", None), ("create", LOT), ("create compressed", LOT)]


def size(op):
    return 24 if op[0] != "code" else 4 if op[1] else 8


def build(check):
    T = check.thorough
    for lot in (None, LOT, (100000, 0)):
        CODES[lot] = ref.intermediate(PW, dom.BASE_SALT, *(lot or ()))

    def from_source(x, op, used, src):
        drawn = src.take()
        x.same("bytes used", len(used), size(op))
        x.check_that(used in drawn, "%s used %s, but the random source gave it %s" % (op, used.hex(), drawn.hex() or "nothing"))

    def one_byte(x):
        """Each byte of the source's answer takes every value."""
        op = x.pick("operation", OPS, free=True)
        n = 8 if op[0] == "code" else 24
        pos = x.pick("byte", range(n), free=True)
        for v in range(256):
            base = bytearray(dom.rnd("base", 256))
            base[pos] = v
            src = env.rand_hook = Source(bytes(base))
            from_source(x, op, op_call(x, dom.bip(dom.BTC_MAIN), op), src)
    check.add("bytes", one_byte, 0, "every value of every byte the source gives")

    patterns = [bytes(256), b"\xff" * 256, b"\x80" * 256, b"0" * 256, b" " * 256, b"\n" * 256] + [bytes([v]) * 256 for v in range(1, 255, 1 if T else 7)] + \
               [(bytes(k) + dom.rnd("p", 24 - k)) * 10 for k in range(1, 24)] + [(dom.rnd("p", 24 - k) + bytes(k)) * 10 for k in range(1, 24)] + \
               [s * 10 for s in dom.SEEDS]

    def pattern(x):
        op = x.pick("operation", OPS, free=True)
        src = env.rand_hook = Source(x.pick("pattern", patterns, free=True))
        from_source(x, op, op_call(x, dom.bip(dom.BTC_MAIN), op), src)
    check.add("patterns", pattern, 0, "zeros, ones and other patterns from the source are used like any other value")

    def histories(x):
        """Each call of a history draws its own bytes."""
        src = env.rand_hook = Source(dom.rnd("stream", 4096))
        held = dom.bip(dom.BTC_MAIN)
        depth = 4 if T else 3
        seen = []
        for i in range(depth):
            op = x.pick("operation %d" % i, OPS, free=True)
            where = x.pick("instance %d" % i, ("held", "new", "after a failure"))
            if where == "after a failure":
                x.call("intermediate_code", held.intermediate_code, PW, 1, 1)
                x.call("create_new_encrypted_wif", held.create_new_encrypted_wif, "x")
                x.call("create_new_encrypted_wif", held.create_new_encrypted_wif, code(None), "x")
                src.take()
            used = op_call(x, dom.bip(dom.BTC_MAIN) if where == "new" else held, op)
            from_source(x, op, used, src)
            seen.append(used)
        for i, a in enumerate(seen):
            for j, b in enumerate(seen[:i]):
                x.check_that(a[:4] != b[:4], "calls %d and %d share %s and %s" % (j, i, b.hex(), a.hex()))
    check.add("histories", histories, 1, "all histories of %d calls without salt or seed" % (4 if T else 3))

    def long_run(x):
        src = env.rand_hook = Source(dom.rnd("long stream", 1 << 16))
        op = x.pick("operation", OPS, free=True)
        b = dom.bip(dom.BTC_MAIN)
        for i in range(1000 if T else 150):
            from_source(x, op, op_call(x, b, op), src)
    check.add("long-run", long_run, 0, "long runs of one call")

    def given(x):
        """A given salt is used as given, whatever the random source says."""
        lot = x.pick("lot", (None, LOT, (100000, 0)), free=True)
        salt = x.pick("salt", dom.SALTS8 + (dom.SALTS4 if True else []), free=True)
        if lot is None and len(salt) != 8:
            x.observe("not in the domain")
            return
        src = env.rand_hook = Source(dom.rnd(x.pick("source", ("a", "b")), 256))
        want = ref.intermediate(PW, salt, *(lot or ()))
        for form in (salt, salt.hex(), salt.hex().upper()):
            kw = dict(owner_salt=form)
            if lot:
                kw.update(lot=lot[0], sequence=lot[1])
            x.gives("intermediate_code with salt %r" % (form,), x.call("intermediate_code", dom.bip(dom.BTC_MAIN).intermediate_code, PW, **kw), want)
    check.add("given-salt", given, 1, "every salt pattern, as bytes and hex")

    def given_seed(x):
        lot = x.pick("lot", (None, LOT), free=True)
        comp = x.pick("compressed", (False, True), free=True)
        seed = x.pick("seed", dom.SEEDS, free=True)
        env.rand_hook = Source(dom.rnd(x.pick("source", ("a", "b")), 256))
        want = ref.create(code(lot), comp, seed, 0)
        for form in (seed, seed.hex(), seed.hex().upper()):
            out = x.call("create_new_encrypted_wif", dom.bip(dom.BTC_MAIN).create_new_encrypted_wif, code(lot), "wif-compressed" if comp else "wif", form)
            x.gives("create with seed %r" % (form,), out, want)
    check.add("given-seed", given_seed, 1, "every seed pattern, as bytes and hex")

    def empty(x):
        """An empty value counts as omitted, or is refused: nothing takes the place of the random bytes."""
        op = x.pick("operation", OPS, free=True)
        form = x.pick("given as", (None, "", b""), free=True)
        where = x.pick("given", ("by name", "by position"), free=True)
        src = env.rand_hook = Source(dom.rnd("stream", 4096))
        b = dom.bip(dom.BTC_MAIN)
        seen = []
        for i in range(3):
            if op[0] == "code":
                lot = op[1] or (None, None)
                out = (x.call("intermediate_code", b.intermediate_code, PW, *lot, form) if where == "by position" else
                       x.call("intermediate_code", b.intermediate_code, PW, lot=lot[0], sequence=lot[1], owner_salt=form))
            else:
                t = "wif-compressed" if op[0] == "create compressed" else "wif"
                out = (x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, code(op[1]), t, form) if where == "by position" else
                       x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, code(op[1]), wif_type=t, seed=form))
            if out.error is not None and form is not None:
                x.observe("refused")
                src.take()
                continue
            used = (owner_salt(x, "intermediate_code", x.value("intermediate_code", out), op[1]) if op[0] == "code" else
                    seed_of(x, "create", x.value("create", out), op[1], op[0] == "create compressed", dom.BTC_MAIN))
            from_source(x, op, used, src)
            seen.append(used)
        x.same("different values", len(set(seen)), len(seen))
    check.add("empty", empty, 0, "None and empty values given for salt and seed: drawn, or refused")

    def networks(x):
        net = x.pick("network", [n for n in dom.NETS if n[0] in ("Bitcoin", "Litecoin", "Dogecoin", "Zcash")], free=True)
        op = x.pick("operation", OPS[3:], free=True)
        src = env.rand_hook = Source(dom.rnd("stream", 4096))
        b = dom.bip(net)
        for i in range(3):
            comp = op[0] == "create compressed"
            out = x.call("create_new_encrypted_wif", b.create_new_encrypted_wif, code(op[1]), "wif-compressed" if comp else "wif")
            from_source(x, op, seed_of(x, "create", x.value("create", out), op[1], comp, net), src)
    check.add("networks", networks, 0, "seeds on other networks")

    def failing(x):
        """No randomness, no result."""
        op = x.pick("operation", OPS, free=True)
        exc = x.pick("failure", (OSError, NotImplementedError, MemoryError, KeyboardInterrupt), free=True)
        at = x.pick("at draw", range(3), free=True)
        ok = [at]

        def hook(n):
            if ok[0] == 0:
                raise exc("no randomness")
            ok[0] -= 1
            return dom.rnd("r%d" % ok[0], n)
        env.rand_hook = hook
        b = dom.bip(dom.BTC_MAIN)
        try:
            got = (b.intermediate_code(PW, *(op[1] or ())) if op[0] == "code" else
                   b.create_new_encrypted_wif(code(op[1]), "wif-compressed" if op[0] != "create" else "wif"))
            x.observe(op, exc.__name__, at, repr(got))
        except BaseException as e:  # noqa: BLE001 - the failure we made
            x.observe(op, exc.__name__, at, type(e).__name__)
            return
        x.check_that(ok[0] >= 0 and at > 0, "%s returned %r although the random source failed" % (op, got))
    check.add("failing-source", failing, 0, "the source fails at the first, second, third draw")
