"""Argument domains shared by the checks: small, and aimed at what code can treat specially."""
import hashlib
import json
import os

from . import env, ref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rnd(label, n):
    """n fixed bytes with no pattern (not a random choice: the same in every run)."""
    return hashlib.shake_256(("vf:" + str(label)).encode()).digest(n)


with open(os.path.join(ROOT, "data", "coins.json"), encoding="utf-8") as _f:
    COINS = json.load(_f)
NETS = [(c, n, w, a) for c, v in sorted(COINS.items()) for n, (w, a) in sorted(v["networks"].items())]
BTC_MAIN = ("Bitcoin", "mainnet", 0x80, 0x00)
BTC_TEST = ("Bitcoin", "testnet", 0xEF, 0x6F)
with open(os.path.join(ROOT, "data", "special.json"), encoding="utf-8") as _f:
    SPECIAL = json.load(_f)
with open(os.path.join(ROOT, "data", "vectors.json"), encoding="utf-8") as _f:
    VECTORS = json.load(_f)

BASE_KEY = bytes.fromhex("cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5")
BASE_PASS = "TestingOneTwoThree"
BASE_SALT = bytes.fromhex("75ed1cdeb254cb38")
BASE_SEED = bytes.fromhex("99241d58245c883896f80843d2846672d7312e6195ca1a6c")


def cls(name):
    return getattr(env.mod("cryptocurrencies"), name)


def bip(net):
    """A BIP38 instance for an entry of NETS."""
    return env.bip38.BIP38(cls(net[0]), net[1])


def uniq(seq):
    seen, out = set(), []
    for v in seq:
        if v not in seen:
            seen.add(v)
            out.append(v)
    return out


def shapes(n, label="shape"):
    """Byte strings of n bytes with patterns that width, sign, hex and text handling can trip over."""
    r = rnd(label, n)
    nz = bytes(b or 1 for b in r)
    out = [nz]
    out += [bytes(k) + nz[k:] for k in range(1, n)]               # leading zeros
    out += [nz[:n - k] + bytes(k) for k in range(1, n)]           # trailing zeros
    for i in (n // 2, n // 4, n - 2, 1):                          # zeros inside
        for k in (1, 2):
            if 0 < i < n:
                out.append((nz[:i] + bytes(k) + nz[i + k:])[:n])
    out += [bytes([v]) + nz[1:] for v in (0x01, 0x0A, 0x0F, 0x20, 0x30, 0x7F, 0x80, 0xFF)]
    out += [nz[:-1] + bytes([v]) for v in (0x01, 0x0A, 0x20, 0x80, 0xFF)]
    out += [bytes([v]) * n for v in (0x01, 0x11, 0x20, 0x30, 0x41, 0x7F, 0x80, 0xAA, 0xFE)]
    out += [(b"0123456789abcdef" * n)[:n], (b"deadBEEF" * n)[:n], (b" \t\r\n\x0b\x0c" * n)[:n],
            bytes(range(n)), bytes(range(255, 255 - n, -1))]
    return uniq(out)


def _keys():
    out = [BASE_KEY]
    out += [k for k in shapes(32, "key") if 0 < ref.b2i(k) < ref.N]
    out += [ref.i2b(i, 32) for i in range(1, 17)]
    out += [ref.i2b(ref.N - i, 32) for i in range(1, 9)]
    out += [bytes(16) + rnd("lo", 16), rnd("hi", 16) + bytes(15) + b"\1"]
    out += [rnd("mid", 16) + bytes(j) + rnd("mid2", 16 - j) for j in range(1, 16)]
    out += [ref.i2b(ref.N // 2 + d, 32) for d in (-1, 0, 1, 2)]
    out += [ref.i2b(2**255 + d, 32) for d in (-1, 0, 1)] + [ref.i2b(2**128 + d, 32) for d in (-1, 0, 1)]
    return uniq(out)


KEYS = _keys()
MORE_KEYS = uniq([ref.i2b(1 << i, 32) for i in range(256)] + [bytes([v]) * 32 for v in range(1, 255)] +
                 [bytes.fromhex(k) for v in SPECIAL["keys"].values() for k in v])
MORE_KEYS = [k for k in MORE_KEYS if 0 < ref.b2i(k) < ref.N]
# one key for each rare pattern of the address hash, the public key and the key hash
RARE_KEYS = [bytes.fromhex(v[0]) for v in SPECIAL["keys"].values()]
RARE_SEEDS = [bytes.fromhex(s) for v in SPECIAL["seeds"].values() for s in v]
SEEDS = uniq([BASE_SEED] + shapes(24, "seed") + [bytes(24)] + RARE_SEEDS)
SALTS8 = uniq([BASE_SALT] + shapes(8, "salt8") + [bytes(8)])
SALTS4 = uniq([BASE_SALT[:4]] + shapes(4, "salt4") + [bytes(4)])

PASSPHRASES = [
    BASE_PASS, "", " ", "a", "A", "0", "testingonetwothree", " TestingOneTwoThree", "TestingOneTwoThree ", "Testing One",
    "\tTab", "end\n", "\r\n", "nul\0inside", "\0", "\0start", "00ff", "0x1234", "123456", "None", "p" * 63, "p" * 64, "p" * 65,
    "p" * 128, "q" * 300, "\u03d2\u0301\0\U00010400\U0001f4a9", "caf\u00e9", "cafe\u0301", "\ufb01ne", "\uff21\uff22", "\ufeffbom",
    "zero\u200bwidth", "soft\u00adhyphen", "\u202ertl", "\u0301alone", "\U0001f468\u200d\U0001f469", "\u212b", "\u0958",
    "\u1112\u1161\u11ab", "\ud55c", "\u00df", "\u0130", "\u0131", "\u00a0nbsp", "\u3000wide", "\u0644\u0627", "\u0e33",
    "\u0345\u0301\u0323", "e\u0323\u0302", "e\u0302\u0323", "q\u0307\u0323", "\u00e9" * 32, "\u00e9" * 33, "e\u0301" * 40,
    "\U0001f4a9" * 16, "\U0001f4a9" * 17, "%s{}\\n", "'\"`$()", "\x7f\x80\x9f", "\x1a", "a\x00b\x00", "x" * 1000]

# block patterns for the XOR and AES sites
_r16 = bytes(b or 1 for b in rnd("block", 16))
BLOCKS = ([bytes(k) + _r16[k:] for k in range(1, 17)] + [_r16[:16 - k] + bytes(k) for k in (1, 2, 8)] +
          [b"\xff" * 16, b"\x0f" + _r16[1:], b"\x80" + _r16[1:], b"0123456789abcdef", b" \t\r\n" * 4, b"\x01" * 16,
           _r16[:7] + bytes(2) + _r16[9:], _r16[:8] + bytes(8), bytes(8) + _r16[8:]])
AES_KEYS = [None, bytes(32), b"\xff" * 32, bytes(1) + rnd("ak", 31), rnd("ak", 31) + bytes(1), rnd("ak2", 31) + b"\1"]

FLAGS_NOEC = {False: 0xC0, True: 0xE0}


def kdf_noec(key, compressed, passphrase, address_prefix, site1=None, site2=None, aes_key=None):
    """Script the key derivation so that the chosen blocks have the chosen values.
    site: None, ("xor", block) for the AES input, ("enc", block) for the AES output."""
    h = ref.address_hash(ref.address(ref.mul(ref.b2i(key)), compressed, address_prefix))
    k = env.key_of(ref.norm(passphrase), h, 16384, 8, 8)
    env.script.pop(k, None)
    d = ref.kdf(ref.norm(passphrase), h, 16384, 8, 8, 64)
    ak = d[32:] if aes_key is None else aes_key
    halves = []
    for half, site, default in ((key[:16], site1, d[:16]), (key[16:], site2, d[16:32])):
        if site is None:
            halves.append(default)
        else:
            block = site[1] if site[0] == "xor" else ref.aes_dec(ak, site[1])
            halves.append(ref.xor(block, half))
    env.script[k] = halves[0] + halves[1] + ak
    return h


SITES = [None] + [(s, b) for s in ("xor", "enc") for b in BLOCKS]
# EC-multiply: sites of the first half: seed XOR, its ciphertext, point_b XOR, its ciphertext; the same for the second
EC_SITES = [None] + [(s, b) for s in ("seed", "enc", "point", "encpoint") for b in BLOCKS]


def kdf_point(point, h, oe, seed, site1=None, site2=None, aes_key=None, parity=None):
    """Script scrypt(passpoint, addresshash+ownerentropy) so that the chosen blocks have the chosen values."""
    pp = ref.ser(point, True)
    k = env.key_of(pp, h + oe, 1024, 1, 1)
    env.script.pop(k, None)
    d = ref.kdf(pp, h + oe, 1024, 1, 1, 64)
    ak = d[32:] if aes_key is None else aes_key
    if parity is not None:
        ak = ak[:31] + bytes([ak[31] & 0xFE | parity])
    pb = ref.ser(ref.mul(ref.b2i(ref.dsha(seed))), True)

    def solve(site, default, plain, point_half):
        if site is None:
            return default
        kind, block = site
        if kind in ("enc", "encpoint"):
            block = ref.aes_dec(ak, block)
        return ref.xor(block, plain if kind in ("seed", "enc") else point_half)
    d1 = solve(site1, d[:16], seed[:16], pb[1:17])
    e1 = ref.aes_enc(ak, ref.xor(seed[:16], d1))
    d2 = solve(site2, d[16:32], e1[8:] + seed[16:], pb[17:])
    env.script[k] = d1 + d2 + ak


def scalar_for(pattern):
    """A pass factor (32 bytes) in range with that shape."""
    v = ref.b2i(pattern) % ref.N
    return ref.i2b(v or 1, 32)


PASS_FACTORS = [None] + [k for k in KEYS if k != BASE_KEY]
BAD_SCALARS = [bytes(32), ref.i2b(ref.N, 32), ref.i2b(ref.N + 1, 32), b"\xff" * 32, ref.i2b(2**256 - 2, 32)]


def kdf_owner(passphrase, oe, lot, pre):
    """Script scrypt(passphrase, owner salt) to give these 32 bytes."""
    k = env.key_of(ref.norm(passphrase), oe[:4] if lot else oe, 16384, 8, 8)
    env.script[k] = pre + rnd("rest", 32)
