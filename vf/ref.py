"""Reference model: BIP38 written from the specification, with nothing from /repo or its dependencies.

Own Base58, RIPEMD-160, AES-256 and secp256k1; SHA-256 and (real) scrypt come from hashlib.
The key derivation is reached through `kdf`, so that the harness can put the model and the
implementation in front of the same environment (see vf/env.py).
"""
import hashlib
import unicodedata

# --------------------------------------------------------------------------- numbers and hashes
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8


def i2b(n, width):
    return n.to_bytes(width, "big")


def b2i(b):
    return int.from_bytes(b, "big")


def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))


def prefix_bytes(n):
    """A prefix of the parameter table: the shortest big-endian form, at least one byte."""
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


_RHO = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
_SHIFTS = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
           [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
           [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
           [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
           [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]


def _ripemd_schedule():
    """Message word orders and rotations, built from rho and pi as the RIPEMD-160 paper defines them."""
    pi = [(9 * i + 5) % 16 for i in range(16)]
    left, right = list(range(16)), pi
    out = []
    for rnd in range(5):
        out.append((left, right))
        left = [_RHO[i] for i in left]
        right = [_RHO[i] for i in right]
    return out


_SCHED = _ripemd_schedule()
_KL = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
_KR = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]
_F = [lambda x, y, z: x ^ y ^ z,
      lambda x, y, z: (x & y) | (~x & z),
      lambda x, y, z: (x | ~y) ^ z,
      lambda x, y, z: (x & z) | (y & ~z),
      lambda x, y, z: x ^ (y | ~z)]
_M32 = 0xFFFFFFFF


def _rol(x, s):
    x &= _M32
    return ((x << s) | (x >> (32 - s))) & _M32


def ripemd160(msg):
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    data = msg + b"\x80"
    data += bytes(-(len(data) + 8) % 64) + (8 * len(msg)).to_bytes(8, "little")
    for off in range(0, len(data), 64):
        w = [int.from_bytes(data[off + 4 * i:off + 4 * i + 4], "little") for i in range(16)]
        lanes = []
        for side in (0, 1):
            a, b, c, d, e = h
            for rnd in range(5):
                order = _SCHED[rnd][side]
                k = (_KL, _KR)[side][rnd]
                f = _F[rnd if side == 0 else 4 - rnd]
                for i in order:
                    t = (_rol((a + f(b, c, d) + w[i] + k) & _M32, _SHIFTS[rnd][i]) + e) & _M32
                    a, e, d, c, b = e, d, _rol(c, 10), b, t
            lanes.append((a, b, c, d, e))
        (a, b, c, d, e), (a2, b2, c2, d2, e2) = lanes
        h = [(h[1] + c + d2) & _M32, (h[2] + d + e2) & _M32, (h[3] + e + a2) & _M32,
             (h[4] + a + b2) & _M32, (h[0] + b + c2) & _M32]
    return b"".join(x.to_bytes(4, "little") for x in h)


try:  # only for speed; setup's self test compares the two
    hashlib.new("ripemd160", b"")
    _rmd = lambda b: hashlib.new("ripemd160", b).digest()
except ValueError:
    _rmd = ripemd160


def hash160(b):
    return _rmd(sha256(b))


# --------------------------------------------------------------------------- Base58
BTC = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
XRP = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"


class Reject(Exception):
    """The model refuses the input. kind: 'pass' (incorrect passphrase) or 'bad' (anything else)."""

    def __init__(self, kind, why):
        super().__init__(why)
        self.kind = kind


def b58enc(raw, alphabet=BTC):
    zeros = len(raw) - len(raw.lstrip(b"\0"))
    n, out = int.from_bytes(raw, "big"), []
    while n:
        n, d = divmod(n, 58)
        out.append(alphabet[d])
    return alphabet[0] * zeros + "".join(reversed(out))


def b58dec(text, alphabet=BTC):
    n = 0
    for c in text:
        d = alphabet.find(c)
        if d < 0:
            raise Reject("bad", "character outside the alphabet")
        n = n * 58 + d
    zeros = len(text) - len(text.lstrip(alphabet[0]))
    return bytes(zeros) + n.to_bytes((n.bit_length() + 7) // 8, "big")


def b58check(raw, alphabet=BTC):
    return b58enc(raw + dsha(raw)[:4], alphabet)


def b58undo(text, alphabet=BTC):
    raw = b58dec(text, alphabet)
    if len(raw) < 4 or dsha(raw[:-4])[:4] != raw[-4:]:
        raise Reject("bad", "checksum")
    return raw[:-4]


# --------------------------------------------------------------------------- AES-256, one block
def _make_aes():
    sbox = [0] * 256
    p = q = 1
    while True:  # p runs over GF(256)* by multiplying with 3, q by dividing
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q ^ ((q << 1) | (q >> 7)) ^ ((q << 2) | (q >> 6)) ^ ((q << 3) | (q >> 5)) ^ ((q << 4) | (q >> 4))
        sbox[p] = (x & 0xFF) ^ 0x63
        if p == 1:
            break
    sbox[0] = 0x63
    inv = [0] * 256
    for i, v in enumerate(sbox):
        inv[v] = i

    def mul(a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a = ((a << 1) ^ (0x11B if a & 0x80 else 0)) & 0x1FF
            b >>= 1
        return r & 0xFF
    tab = {k: [mul(i, k) for i in range(256)] for k in (2, 3, 9, 11, 13, 14)}
    return sbox, inv, tab


_S, _SI, _MT = _make_aes()


def _expand(key):
    assert len(key) == 32
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rcon = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [_S[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon <<= 1
        elif i % 8 == 4:
            t = [_S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def aes_enc(key, block):
    assert len(block) == 16
    rk = _expand(key)
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, 15):
        s = [_S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 14:
            o = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                o += [_MT[2][a] ^ _MT[3][b] ^ d ^ e, a ^ _MT[2][b] ^ _MT[3][d] ^ e,
                      a ^ b ^ _MT[2][d] ^ _MT[3][e], _MT[3][a] ^ b ^ d ^ _MT[2][e]]
            s = o
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


def aes_dec(key, block):
    assert len(block) == 16
    rk = _expand(key)
    s = [a ^ b for a, b in zip(block, rk[14])]
    for r in range(13, -1, -1):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [_SI[x] for x in s]
        s = [a ^ b for a, b in zip(s, rk[r])]
        if r:
            o = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                o += [_MT[14][a] ^ _MT[11][b] ^ _MT[13][d] ^ _MT[9][e],
                      _MT[9][a] ^ _MT[14][b] ^ _MT[11][d] ^ _MT[13][e],
                      _MT[13][a] ^ _MT[9][b] ^ _MT[14][d] ^ _MT[11][e],
                      _MT[11][a] ^ _MT[13][b] ^ _MT[9][d] ^ _MT[14][e]]
            s = o
    return bytes(s)


# --------------------------------------------------------------------------- secp256k1
def on_curve(x, y):
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def lift_x(x, odd):
    """The point with this x and parity, or None."""
    if not 0 <= x < P:
        return None
    c = (pow(x, 3, P) + 7) % P
    y = pow(c, (P + 1) // 4, P)
    if y * y % P != c:
        return None
    return x, (y if y & 1 == odd else P - y)


def add(p, q):
    """Affine addition; None is the point at infinity."""
    if p is None:
        return q
    if q is None:
        return p
    (x1, y1), (x2, y2) = p, q
    if x1 == x2:
        if (y1 + y2) % P == 0:
            return None
        m = 3 * x1 * x1 * pow(2 * y1, -1, P) % P
    else:
        m = (y2 - y1) * pow(x2 - x1, -1, P) % P
    x3 = (m * m - x1 - x2) % P
    return x3, (m * (x1 - x3) - y1) % P


def _jdbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    yy = y * y % P
    s = 4 * x * yy % P
    m = 3 * x * x % P
    x3 = (m * m - 2 * s) % P
    return x3, (m * (s - x3) - 8 * yy * yy) % P, 2 * y * z % P


def _jadd_affine(p, q):
    x1, y1, z1 = p
    if not z1:
        return q[0], q[1], 1
    zz = z1 * z1 % P
    u2, s2 = q[0] * zz % P, q[1] * zz * z1 % P
    h, r = (u2 - x1) % P, (s2 - y1) % P
    if not h:
        return _jdbl(p) if not r else (0, 1, 0)
    hh = h * h % P
    hhh, v = hh * h % P, x1 * hh % P
    x3 = (r * r - hhh - 2 * v) % P
    return x3, (r * (v - x3) - y1 * hhh) % P, z1 * h % P


def _affine(p):
    x, y, z = p
    if not z:
        return None
    zi = pow(z, -1, P)
    return x * zi * zi % P, y * zi * zi * zi % P


def mul(k, q=None):
    """k * q (q defaults to G)."""
    k %= N
    acc = (0, 1, 0)
    if q is None:
        i = 0
        while k:
            if k & 255:
                acc = _jadd_affine(acc, _table()[i][k & 255])
            k >>= 8
            i += 1
        return _affine(acc)
    for bit in bin(k)[2:]:
        acc = _jdbl(acc)
        if bit == "1":
            acc = _jadd_affine(acc, q)
    return _affine(acc)


_T = []


def _table():
    if not _T:
        base = (GX, GY)
        for _ in range(32):
            row, cur = [None], None
            for _i in range(255):
                cur = add(cur, base)
                row.append(cur)
            _T.append(row)
            base = add(cur, base)
    return _T


def ser(point, compressed):
    x, y = point
    if compressed:
        return bytes([2 + (y & 1)]) + i2b(x, 32)
    return b"\x04" + i2b(x, 32) + i2b(y, 32)


def parse_compressed(raw):
    """The point of a 33-byte compressed encoding, or None."""
    if len(raw) != 33 or raw[0] not in (2, 3):
        return None
    return lift_x(b2i(raw[1:]), raw[0] & 1)


# --------------------------------------------------------------------------- WIF and addresses
def wif(key, compressed, wif_prefix):
    return b58check(prefix_bytes(wif_prefix) + key + (b"\x01" if compressed else b""))


def unwif(text, wif_prefix):
    """-> (32 key bytes, compressed, checksum)"""
    raw = b58undo(text)
    pre = prefix_bytes(wif_prefix)
    if not raw.startswith(pre):
        raise Reject("bad", "WIF prefix")
    body = raw[len(pre):]
    chk = dsha(raw)[:4]
    if len(body) == 32:
        return body, False, chk
    if len(body) == 33 and body[-1] == 1:
        return body[:32], True, chk
    raise Reject("bad", "WIF length or suffix")


def address(point, compressed, address_prefix, alphabet=BTC):
    return b58check(prefix_bytes(address_prefix) + hash160(ser(point, compressed)), alphabet)


def address_hash(addr):
    return dsha(addr.encode())[:4]


# --------------------------------------------------------------------------- BIP38
def real_kdf(password, salt, n, r, p, length):
    return hashlib.scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=1 << 30, dklen=length)


kdf = real_kdf  # replaced by vf/env.py

MAGIC_LOT = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NOLOT = bytes.fromhex("2ce9b3e1ff39e253")
CFRM = bytes.fromhex("643bf6a89a")
EC_FLAGS = {(False, False): 0x00, (False, True): 0x20, (True, False): 0x04, (True, True): 0x24}  # (lot, compressed)


def norm(passphrase):
    return unicodedata.normalize("NFC", passphrase).encode("utf-8")


def valid_scalar(b):
    return 0 < b2i(b) < N


def encrypt(key, compressed, passphrase, address_prefix):
    """No-EC-multiply. key: 32 bytes."""
    if len(key) != 32 or not valid_scalar(key):
        raise Reject("bad", "private key range")
    h = address_hash(address(mul(b2i(key)), compressed, address_prefix))
    return encrypt_with_hash(key, compressed, passphrase, h)


def encrypt_with_hash(key, compressed, passphrase, h, flag=None):
    """encrypt with a given address hash (a forged one, in the checks for wrong hashes)"""
    d = kdf(norm(passphrase), h, 16384, 8, 8, 64)
    body = bytes([(0xE0 if compressed else 0xC0) if flag is None else flag]) + h
    return b58check(b"\x01\x42" + body + aes_enc(d[32:], xor(key[:16], d[:16])) +
                    aes_enc(d[32:], xor(key[16:], d[16:32])))


def pass_factor(passphrase, owner_entropy, lot):
    if lot:
        pre = kdf(norm(passphrase), owner_entropy[:4], 16384, 8, 8, 32)
        return dsha(pre + owner_entropy)
    return kdf(norm(passphrase), owner_entropy, 16384, 8, 8, 32)


def owner_entropy(salt, lot=None, sequence=None):
    if (lot is None) != (sequence is None):
        raise Reject("bad", "lot without sequence or vice versa")
    if lot is None:
        if len(salt) != 8:
            raise Reject("bad", "owner salt length")
        return salt
    if len(salt) not in (4, 8):
        raise Reject("bad", "owner salt length")
    if not 100000 <= lot <= 999999 or not 0 <= sequence <= 4095:
        raise Reject("bad", "lot or sequence range")
    return salt[:4] + i2b(lot * 4096 + sequence, 4)


def intermediate(passphrase, salt, lot=None, sequence=None):
    oe = owner_entropy(salt, lot, sequence)
    pf = pass_factor(passphrase, oe, lot is not None)
    if not valid_scalar(pf):
        raise Reject("bad", "pass factor range")
    return b58check((MAGIC_NOLOT if lot is None else MAGIC_LOT) + oe + ser(mul(b2i(pf)), True))


def split_intermediate(code):
    """-> (has_lot, owner entropy, pass point)"""
    raw = b58undo(code)
    if len(raw) != 49 or raw[:8] not in (MAGIC_LOT, MAGIC_NOLOT):
        raise Reject("bad", "intermediate code")
    point = parse_compressed(raw[16:])
    if point is None:
        raise Reject("bad", "pass point")
    return raw[:8] == MAGIC_LOT, raw[8:16], point


def create(code, compressed, seed, address_prefix, forge_hash=None, public=None, flag=None):
    """EC-multiply, by whoever holds the intermediate code. `public` may be given to save a multiplication."""
    lot, oe, point = split_intermediate(code)
    if len(seed) != 24:
        raise Reject("bad", "seed length")
    fb = dsha(seed)
    pub = public or mul(b2i(fb), point)
    addr = address(pub, compressed, address_prefix)
    h = address_hash(addr) if forge_hash is None else forge_hash
    flag = EC_FLAGS[lot, compressed] if flag is None else flag
    d = kdf(ser(point, True), h + oe, 1024, 1, 1, 64)
    e1 = aes_enc(d[32:], xor(seed[:16], d[:16]))
    e2 = aes_enc(d[32:], xor(e1[8:] + seed[16:], d[16:32]))
    head = bytes([flag]) + h + oe
    pb = ser(mul(b2i(fb)), True)
    return dict(
        encrypted_wif=b58check(b"\x01\x43" + head + e1[:8] + e2),
        confirmation_code=b58check(CFRM + head + bytes([pb[0] ^ (d[63] & 1)]) + aes_enc(d[32:], xor(pb[1:17], d[:16])) +
                                   aes_enc(d[32:], xor(pb[17:], d[16:32]))),
        public_key=ser(pub, compressed).hex(), seed=seed.hex(),
        public_key_type="compressed" if compressed else "uncompressed", address=addr)


def _lotseq(oe, lot):
    return (b2i(oe[4:]) >> 12, b2i(oe[4:]) & 4095) if lot else (None, None)


def confirm(passphrase, code, address_prefix):
    raw = b58undo(code)
    if len(raw) != 51 or raw[:5] != CFRM or raw[5] not in EC_FLAGS.values():
        raise Reject("bad", "confirmation code")
    flag, h, oe, ep = raw[5], raw[6:10], raw[10:18], raw[18:]
    lot, compressed = bool(flag & 4), bool(flag & 0x20)
    pf = pass_factor(passphrase, oe, lot)
    if not valid_scalar(pf):
        raise Reject("bad", "pass factor range")
    d = kdf(ser(mul(b2i(pf)), True), h + oe, 1024, 1, 1, 64)
    pb = parse_compressed(bytes([ep[0] ^ (d[63] & 1)]) + xor(aes_dec(d[32:], ep[1:17]), d[:16]) +
                          xor(aes_dec(d[32:], ep[17:]), d[16:32]))
    if pb is None:
        raise Reject("pass", "no point")
    pub = mul(b2i(pf), pb)
    addr = address(pub, compressed, address_prefix)
    if address_hash(addr) != h:
        raise Reject("pass", "address hash")
    n, s = _lotseq(oe, lot)
    return dict(public_key=ser(pub, compressed).hex(),
                public_key_type="compressed" if compressed else "uncompressed", address=addr, lot=n, sequence=s)


def decrypt(code, passphrase, wif_prefix, address_prefix):
    raw = b58undo(code)
    if len(raw) != 39:
        raise Reject("bad", "length")
    flag, h = raw[2], raw[3:7]
    seed, lot, seq = None, None, None
    if raw[:2] == b"\x01\x42":
        if flag not in (0xC0, 0xE0):
            raise Reject("bad", "flag")
        compressed = flag == 0xE0
        d = kdf(norm(passphrase), h, 16384, 8, 8, 64)
        key = xor(aes_dec(d[32:], raw[7:23]), d[:16]) + xor(aes_dec(d[32:], raw[23:39]), d[16:32])
        if not valid_scalar(key):
            raise Reject("bad", "private key range")
    elif raw[:2] == b"\x01\x43":
        if flag not in EC_FLAGS.values():
            raise Reject("bad", "flag")
        has_lot, compressed = bool(flag & 4), bool(flag & 0x20)
        oe = raw[7:15]
        pf = pass_factor(passphrase, oe, has_lot)
        if not valid_scalar(pf):
            raise Reject("bad", "pass factor range")
        d = kdf(ser(mul(b2i(pf)), True), h + oe, 1024, 1, 1, 64)
        tail = xor(aes_dec(d[32:], raw[23:39]), d[16:32])
        sb = xor(aes_dec(d[32:], raw[15:23] + tail[:8]), d[:16]) + tail[8:]
        key = i2b(b2i(pf) * b2i(dsha(sb)) % N, 32)
        seed = sb.hex()
        lot, seq = _lotseq(oe, has_lot)
    else:
        raise Reject("bad", "prefix")
    pub = mul(b2i(key))
    addr = address(pub, compressed, address_prefix)
    if address_hash(addr) != h:
        raise Reject("pass", "address hash")
    return dict(wif=wif(key, compressed, wif_prefix), private_key=key.hex(),
                wif_type="wif-compressed" if compressed else "wif", public_key=ser(pub, compressed).hex(),
                public_key_type="compressed" if compressed else "uncompressed", seed=seed, address=addr,
                lot=lot, sequence=seq)
