"""C15: calls made at the same time by several threads, in every interleaving up to a preemption bound, and calls made inside others."""
import sys

from vf import dom, env, explore, iso, ref, sched, scen
from checks import c14

LOCKS = True


class Calls:
    """Pairs of argument sets for each operation; every result differs from every other's."""

    def __init__(self):
        m, t = dom.BTC_MAIN, dom.BTC_TEST
        k1, k2 = dom.BASE_KEY, dom.rnd("other key", 32)
        p1, p2 = dom.BASE_PASS, "another passphrase \u00e9"
        lot = (263183, 1)
        e1, e2 = scen.Ec(comp=True, lot=lot, pw=p1), scen.Ec(net=t, comp=False, pw=p2, salt=dom.SALTS8[3], seed=dom.SEEDS[4])
        self.salts = []
        w1, w2 = ref.wif(k1, False, 0x80), ref.wif(k2, True, 0xEF)
        n1, n2 = ref.encrypt(k1, True, p1, 0), ref.encrypt(k2, False, p2, 0x6F)
        n3 = ref.encrypt(k1, True, p1, 0)
        self.ops = {  # nothing but the call itself in the functions: they run under fault injection too
            "encrypt": [(lambda b: b.encrypt(w1, p1), ref.encrypt(k1, False, p1, 0)),
                        (lambda b: b.encrypt(w2, p2, "testnet"), ref.encrypt(k2, True, p2, 0x6F))],
            "decrypt": [(lambda b: b.decrypt(n1, p1, detail=True)["private_key"], k1.hex()),
                        (lambda b: b.decrypt(n2, p2, "testnet"), ref.wif(k2, False, 0xEF))],
            "intermediate": [(lambda b: b.intermediate_code(p1, *lot, dom.BASE_SALT), e1.code),
                             (lambda b: b.intermediate_code(p2, owner_salt=dom.SALTS8[3]), e2.code)],
            "create": [(lambda b: b.create_new_encrypted_wif(e1.code, "wif-compressed", e1.seed), e1.created),
                       (lambda b: b.create_new_encrypted_wif(e2.code, "wif", e2.seed, "testnet"), e2.created)],
            "confirm": [(lambda b: b.confirm_code(p1, e1.created["confirmation_code"], None, True), e1.confirmed),
                        (lambda b: b.confirm_code(p2, e2.created["confirmation_code"], "testnet"), e2.address)],
            "decrypt EC": [(lambda b: b.decrypt(e1.created["encrypted_wif"], p1, None, True), e1.decrypted),
                           (lambda b: b.decrypt(e2.created["encrypted_wif"], p2, "testnet", True), e2.decrypted)],
            "wrong passphrase": [(lambda b: b.decrypt(n3, p2), PassphraseError),
                                 (lambda b: b.confirm_code(p1, e2.created["confirmation_code"], "testnet"), PassphraseError)],
            "random": [(lambda b: b.intermediate_code(p1), self.fresh(p1)),
                       (lambda b: b.intermediate_code(p2, 100000, 7), self.fresh(p2, 100000, 7))],
            "functions": [(functions(k1, 0x80, 0), functions_expected(k1, 0x80, 0)), (functions(k2, 0xEF, 0x1CB8), functions_expected(k2, 0xEF, 0x1CB8))],
        }

    def fresh(self, *args):
        """The code for one of the values the random source gave, used once only."""
        def ok(got):
            for s in self.salts:
                if got == ref.intermediate(args[0], s, *args[1:]):
                    self.salts.remove(s)
                    return True
            return False
        return ok

    def draw(self, n):
        self.count += 1
        out = dom.rnd("draw %d" % self.count, n)
        self.salts.append(out)
        return out

    def start(self):
        self.count = 0
        self.salts.clear()
        env.rand_hook = self.draw


class PassphraseError:
    """Marks a result that must be the library's PassphraseError."""


def functions(k, wp, ap):
    def f(b):
        w, a, s = env.mod("wif"), env.mod("p2pkh_address").P2PKHAddress, env.mod("secp256k1")
        enc = w.encode_wif(k, wp)
        pub = s.PrivateKey.from_bytes(k).public_key()
        addr = a.encode(pub, address_prefix=ap, alphabet=ref.XRP)
        return enc, w.decode_wif(enc[1], wp), addr, a.decode(addr, address_prefix=ap, alphabet=ref.XRP), (pub.point() + pub.point()).raw()
    return f


def functions_expected(k, wp, ap):
    pt = ref.mul(ref.b2i(k))
    return ((ref.wif(k, False, wp), ref.wif(k, True, wp)), (k, "wif-compressed", ref.unwif(ref.wif(k, True, wp), wp)[2]),
            ref.address(pt, True, ap, ref.XRP), ref.hash160(ref.ser(pt, True)).hex(), ref.ser(ref.mul(2 * ref.b2i(k)), False)[1:])


def judge(x, what, got, want):
    if want is PassphraseError:
        x.check_that(got[0] == "raise" and got[1] == "PassphraseError", "%s: %s instead of an incorrect passphrase" % (what, explore.short(repr(got))))
    else:
        x.check_that(got[0] == "value", "%s: raised %s: %s" % (what, got[1], got[2] if len(got) > 2 else ""))
        if callable(want):
            x.check_that(want(got[1]), "%s: %s was not made from a value drawn for this call" % (what, got[1]))
        else:
            x.check_that(got[1] == want, "%s: got %s, alone it returns %s" % (what, explore.short(repr(got[1]), 900), explore.short(repr(want), 900)))


def together(x, calls, todo, shared, **kw):
    """todo: [(operation, which argument set)]; all at the same time, in one process of its own."""
    def run(x):
        calls.start()
        held = [dom.bip(dom.BTC_MAIN)] * len(todo) if shared else [dom.bip(dom.BTC_MAIN) for _ in todo]
        bodies = [lambda b=b, op=op, i=i: calls.ops[op][i][0](b) for b, (op, i) in zip(held, todo)]
        results = sched.run(x, bodies, **kw)
        for (op, i), got in zip(todo, results):
            x.note(op, (i,), {}, iso.Seen(("value", explore.plain(got))))
        for n, ((op, i), got) in enumerate(zip(todo, results)):
            judge(x, "thread %d, %s" % (n, op), got, calls.ops[op][i][1])
        # and once more alone, in the state the threads left
        for op, i in todo:
            calls.salts.clear()
            try:
                got = ("value", calls.ops[op][i][0](held[0]))
            except Exception as e:  # noqa: BLE001
                got = ("raise", type(e).__name__, str(e))
            judge(x, "afterwards, alone, %s" % op, got, calls.ops[op][i][1])
    iso.isolated(x, run)


def build(check):
    T = check.thorough
    calls = Calls()
    ops = sorted(calls.ops)
    unordered = [(ops[i], ops[j]) for i in range(len(ops)) for j in range(i, len(ops))]

    def pairs(x):
        a, b = x.pick("operations", unordered, free=True)
        shared = x.pick("instance", (True, False) if a == b or T else (True,), free=True)
        together(x, calls, [(a, 0), (b, 1)], shared, repeat=2 if T else 1)
    check.add("pairs", pairs, 1, "two calls, preempted at each line (first %d executions of it in each function call)" % (2 if T else 1))

    def alike(x):
        a = x.pick("operation", [op for op in ops if op != "random"], free=True)
        i = x.pick("arguments", (0, 1), free=True)
        together(x, calls, [(a, i), (a, i)], x.pick("instance", (True, False) if T else (True,), free=True), repeat=2 if T else 1, first=[0])
    check.add("alike", alike, 1, "the same call with the same arguments twice, preempted at each line")

    def single(x, op, i, stop, act):
        """One call in this thread. -> how it ended, its trace"""
        lines = sched.AtLine(stop, act, 2 if T else 1)
        b = dom.bip(dom.BTC_MAIN)
        sys.settrace(lines)
        try:
            got = ("value", calls.ops[op][i][0](b))
        except Exception as e:  # noqa: BLE001
            got = ("raise", type(e).__name__, str(e))
        finally:
            sys.settrace(None)
        return got, lines, b

    def length(x, op, i):
        calls.start()
        return single(x, op, i, -1, None)[1].count
    env.reset()
    host = explore.X(check)
    sizes = {(op, i): iso.isolated(host, length, op, i) for op in ops for i in (0, 1)}

    def nested(x):
        """A signal handler that makes a call of its own while another is under way."""
        outer = x.pick("operation", ops, free=True)
        i = x.pick("arguments", (0, 1) if T else (0,), free=True)
        inner = x.pick("inside", ops, free=True)
        at = x.pick("line", range(sizes[outer, i]), free=True)

        def run(x):
            calls.start()
            sched.nesting, seen = True, []

            def act():
                for j in (i, 1 - i) if outer == inner else (1 - i,):
                    try:
                        seen.append((j, ("value", calls.ops[inner][j][0](dom.bip(dom.BTC_MAIN)))))
                    except Exception as e:  # noqa: BLE001
                        seen.append((j, ("raise", type(e).__name__, str(e))))
            got, lines, b = single(x, outer, i, at, act)
            sched.nesting = False
            x.check_that(seen, "%s: line %d of %d was not reached" % (outer, at, sizes[outer, i]))
            what = "%s inside %s at %s" % (inner, outer, lines.at)
            for j, g in seen:
                x.note(inner, (j, outer, at), {}, iso.Seen(("value", explore.plain(g))))
                judge(x, what, g, calls.ops[inner][j][1])
            x.note(outer, (i, inner, at), {}, iso.Seen(("value", explore.plain(got))))
            judge(x, "%s with %s" % (outer, what), got, calls.ops[outer][i][1])
            for op, j in ((outer, i), (inner, 1 - i)):
                calls.salts.clear()
                try:
                    got = ("value", calls.ops[op][j][0](b))
                except Exception as e:  # noqa: BLE001
                    got = ("raise", type(e).__name__, str(e))
                judge(x, "after %s, %s" % (what, op), got, calls.ops[op][j][1])
        iso.isolated(x, run)
    check.add("nested", nested, 0, "a call made inside another, as by a signal handler, at each line of it")

    if T:
        def opcodes(x):
            a = x.pick("operation", ops, free=True)
            together(x, calls, [(a, 0), (a, 1)], True, repeat=1, opcodes=True)
        check.add("bytecodes", opcodes, 1, "the same operation twice, preempted at each bytecode")

        def twice(x):
            a = x.pick("operation", ("encrypt", "create", "random"), free=True)
            together(x, calls, [(a, 0), (a, 1)], True, repeat=1)
        check.add("two-preemptions", twice, 2, "the same operation twice, with two preemptions")

        def three(x):
            a, b, c = x.pick("operations", [("encrypt", "decrypt", "intermediate"), ("create", "confirm", "decrypt EC"), ("random", "random", "encrypt")], free=True)
            together(x, calls, [(a, 0), (b, 1), (c, 0)], True, repeat=1)
        check.add("three", three, 1, "three calls at once, one preemption")
