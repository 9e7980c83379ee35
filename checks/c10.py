"""C10: hash functions, for every message and OpenSSL configuration."""
import hashlib
import json
import os
import subprocess
import sys

from vf import dom, env, ref


def messages(T=False):
    out = []
    for n in list(range(0, 300 if T else 140)) + [183, 184, 191, 192, 193, 247, 248, 255, 256, 257, 300, 511, 512, 513, 1000, 4096, 65536]:
        out += [bytes(n), dom.rnd("msg", n), b"\xff" * n]
        if n:
            out += [b"\0" + dom.rnd("msg", n - 1), dom.rnd("msg", n - 1) + b"\0", b"\x80" + bytes(n - 1)]
    return dom.uniq(out + [b"0123", b"0123456789abcdef", b"00", b"abc", b" ", b"\n"])


def expected(m):
    return dict(sha256=ref.sha256(m), double_sha256=ref.dsha(m), get_checksum=ref.dsha(m)[:4], ripemd160=ref.ripemd160(m),
                hash160=ref.ripemd160(ref.sha256(m)))


CONFIGS = {
    "default": {},
    "ripemd160 absent from hashlib": {"VF_RIPEMD": "absent"},
    "ripemd160 listed but refused": {"VF_RIPEMD": "refused"},
    "OpenSSL without the legacy provider": {"OPENSSL_CONF": os.path.join(dom.ROOT, "data", "openssl-default-only.cnf")},
}


def build(check):
    T = check.thorough
    msgs = messages(T)
    bits = [m for n in (1, 20, 33, 64, 65) for m in [(1 << i).to_bytes(n, "big") for i in range(8 * n)]]

    def one(x, m, forms=("bytes", "hex", "HEX")):
        c = env.mod("crypto")
        want = expected(m)
        for f, w in want.items():
            for form in forms:
                arg = {"bytes": m, "hex": m.hex(), "HEX": m.hex().upper()}[form]
                x.gives("%s of %d bytes as %s" % (f, len(m), form), x.call(f, getattr(c, f), arg), w)
        x.gives("libs ripemd160", x.call("libs.ripemd160", env.mod("libs.ripemd160").ripemd160, m), want["ripemd160"])

    def inputs(x):
        one(x, x.pick("message", msgs, free=True))
    check.add("messages", inputs, 0, "patterns of every length around the block sizes")

    def long(x):
        e = x.pick("power of two", range(9, 21 if T else 18), free=True)
        for n in (2**e - 9, 2**e - 1, 2**e, 2**e + 1, 2**e + 57):
            m = dom.rnd("long", n)
            c = env.mod("crypto")
            for f, w in expected(m).items():
                for form, arg in (("bytes", m), ("hex", m.hex())):
                    out = x.call(f, getattr(c, f), arg)
                    x.calls[-1] = (f, (n, form), {}, out)
                    x.gives("%s of %d bytes as %s" % (f, n, form), out, w)
            out = x.call("libs.ripemd160", env.mod("libs.ripemd160").ripemd160, m)
            x.calls[-1] = ("libs.ripemd160", (n,), {}, out)
            x.gives("libs.ripemd160 of %d bytes" % n, out, expected(m)["ripemd160"])
    check.add("long", long, 0, "lengths around each power of two, to %d" % (2**20 if T else 2**17))

    def bit(x):
        one(x, x.pick("message", bits, free=True), ("bytes",))
    check.add("bits", bit, 0, "messages with one bit set, each bit, five lengths")

    def small(x):
        hi = x.pick("first byte", range(257), free=True)
        for m in ([bytes([v]) for v in range(256)] if hi == 256 else [bytes([hi, v]) for v in range(0, 256, 1 if T else 5)]):
            one(x, m, ("bytes",))
    check.add("small", small, 0, "every message of one byte, and of two bytes" + ("" if T else " (every fifth)"))

    def configs(x):
        name = x.pick("configuration", sorted(CONFIGS), free=True)
        opt = x.pick("python options", ((), ("-O",), ("-OO",)), free=True)
        got, err = probe("hashes", CONFIGS[name], opt)
        if got is None:
            x.observe("probe failed", name, opt)
            x.fail("under '%s' %r: %s" % (name, opt, err))
        for line in got:
            f, form, m, out = line
            w = expected(bytes.fromhex(m))[f]
            x.note(f, (name, opt, form, m), {}, _Out(out))
            x.same("%s of %s as %s under '%s'" % (f, m[:80], form, name), out, ["value", w.hex()])
    check.add("configurations", configs, 0, "with OpenSSL lacking RIPEMD-160 in several ways, with and without asserts", slow=True)


class _Out:
    error = None

    def __init__(self, out):
        self.out = out

    def key(self):
        return tuple(self.out)

    def __repr__(self):
        return repr(self.out)


def probe(kind, extra_env, options=(), timeout=200):
    """Run vf.probe in an interpreter of its own. -> (transcript, None) or (None, what went wrong)"""
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")
    for k, v in extra_env.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    p = subprocess.run([sys.executable, "-B", *options, os.path.join(dom.ROOT, "vf", "probe.py"), kind], cwd=dom.ROOT, env=e,
                       stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
    if p.returncode != 0:
        return None, "the interpreter ended with %d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-600:])
    return json.loads(p.stdout.decode("ascii")), None
