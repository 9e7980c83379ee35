"""The planted changes: what each edits, what it needs to show, and a program that tells it apart."""
PRELUDE = r'''import hashlib, os, subprocess, sys, threading, unicodedata
sys.dont_write_bytecode = True
import scrypt
from pyaes import AESModeOfOperationECB as AES
from bip38 import BIP38
from bip38 import cryptocurrencies as coins
from bip38.cryptocurrencies import Bitcoin
A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
ORDER = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141


def h256(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def b58(b, alphabet=A58):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = alphabet[r] + s
    return alphabet[0] * (len(b) - len(b.lstrip(b"\0"))) + s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + A58.index(c)
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return b"\0" * (len(s) - len(s.lstrip("1"))) + b


def b58c(b):
    return b58(b + h256(b)[:4])


def wif(key, prefix=0x80, compressed=True):
    k = key if isinstance(key, bytes) else key.to_bytes(32, "big")
    return b58c(bytes([prefix]) + k + (b"\1" if compressed else b""))


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def forge_wif(passphrase, key, address_hash, flag=0xE0):
    """An encrypted WIF holding these 32 bytes as its key and these 4 as its address hash."""
    k = scrypt.hash(passphrase, address_hash, 16384, 8, 8)
    a = AES(k[32:])
    b = bytes([1, 0x42, flag]) + address_hash + a.encrypt(xor(key[:16], k[:16])) + a.encrypt(xor(key[16:], k[16:32]))
    return b58c(b)


def rejected(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


'''
B, U, W, P, C = "bip38/bip38.py", "bip38/utils.py", "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/cryptocurrencies.py"
L58, RMD, CR, EX = "bip38/libs/base58.py", "bip38/libs/ripemd160.py", "bip38/crypto.py", "bip38/exceptions.py"
PT, PK, PUB = "bip38/secp256k1/point.py", "bip38/secp256k1/private_key.py", "bip38/secp256k1/public_key.py"
SEEDS = []


def S(id, property, needs, breaks, edits, demo, all=False):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, all=all))


NFC = 'unicodedata.normalize("NFC", passphrase)'

S("C01-detail-key-nibble", "C01", "a private key whose first byte is 0", "the detailed result of decrypt drops leading zero bytes of the private key",
  [(B, "private_key=bytes_to_string(private_key),\n                    wif_type", 'private_key=private_key.lstrip(b"\\0").hex(),\n                    wif_type')], '''
w = wif(0x0012 << 240 | 5)
d = BIP38(Bitcoin).decrypt(BIP38(Bitcoin).encrypt(w, "x"), "x", detail=True)
assert d["private_key"] == "0012" + "%060x" % 5 and d["wif"] == w, d
''')
S("C01-raw-width", "C01", "a private key whose first byte is 0", "PrivateKey.raw is shorter than 32 bytes for small keys, so that encrypt protects shifted halves",
  [(PK, "return self.signing_key.to_string()", 'key = self.signing_key.privkey.secret_multiplier\n        return key.to_bytes((key.bit_length() + 7) // 8, "big")')], '''
w = wif(7 << 240 | 9)
b = BIP38(Bitcoin)
assert b.decrypt(b.encrypt(w, "x"), "x") == w
''')
S("C02-salt-lstrip", "C02", "an owner salt that starts with a zero byte", "salt of the second key derivation drops leading zero bytes, the same way in all three operations, so only other implementations notice",
  [(B, "salt: bytes = address_hash + owner_entropy", 'salt: bytes = address_hash + owner_entropy.lstrip(b"\\0")'), (B, "salt: bytes = address_hash + owner_entropy\n", 'salt: bytes = address_hash + owner_entropy.lstrip(b"\\0")\n'),
   (B, "salt = address_hash + owner_entropy\n", 'salt = address_hash + owner_entropy.lstrip(b"\\0")\n')], '''
salt, seed = bytes(1) + b"1234567", b"s" * 24
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x", owner_salt=salt), "wif", seed)
raw = unb58(r["encrypted_wif"])
pf = scrypt.hash("x", salt, 16384, 8, 8, 32)
from ecdsa import SigningKey, SECP256k1
pp = SigningKey.from_string(pf, SECP256k1).verifying_key.to_string("compressed")
k = scrypt.hash(pp, raw[3:7] + raw[7:15], 1024, 1, 1, 64)
h2 = xor(AES(k[32:]).decrypt(raw[23:39]), k[16:32])
h1 = xor(AES(k[32:]).decrypt(raw[15:23] + h2[:8]), k[:16])
assert h1 + h2[8:] == seed
''')
S("C03-seed-as-given", "C03", "a seed given as upper case hex", "the creation result repeats the seed as it was given, while the detailed decryption reports lower case hex",
  [(B, "            seed=bytes_to_string(seed_b),\n            public_key_type=public_key_type,\n            address=address\n        )", "            seed=bytes_to_string(seed or seed_b),\n            public_key_type=public_key_type,\n            address=address\n        )")], '''
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x"), "wif", "AB" * 24)
assert r["seed"] == b.decrypt(r["encrypted_wif"], "x", detail=True)["seed"]
''')
S("C03-seed-zeros", "C03", "a seed that starts with a zero byte", "the detailed decryption reports the seed without its leading zeros",
  [(B, "seed=bytes_to_string(seed_b),\n                        address", 'seed=seed_b.lstrip(b"\\0").hex(),\n                        address')], '''
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x"), "wif", bytes(1) + b"s" * 23)
assert r["seed"] == b.decrypt(r["encrypted_wif"], "x", detail=True)["seed"]
''')
S("C04-signed-lot", "C04", "a lot of 524288 or more, confirmed with details", "lots with the top bit set are reported as negative numbers",
  [(B, "lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096\n                return", "lot: int = (bytes_to_integer(lot_and_sequence, signed=True) - sequence) // 4096\n                return")], '''
b = BIP38(Bitcoin)
for lot in (199999, 524287, 524288, 999999):
    r = b.create_new_encrypted_wif(b.intermediate_code("x", lot, 5), "wif")
    d = b.confirm_code("x", r["confirmation_code"], detail=True)
    assert (d["lot"], d["sequence"]) == (lot, 5), d
''')
S("C04-sequence-byte", "C04", "a sequence number of 256 or more, decrypted with details", "only the low byte of the sequence number is reported",
  [(B, "sequence: int = bytes_to_integer(lot_and_sequence) % 4096\n                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096", "sequence: int = bytes_to_integer(lot_and_sequence[3:])\n                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096")], '''
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x", 300000, 4095), "wif")
d = b.decrypt(r["encrypted_wif"], "x", detail=True)
assert (d["lot"], d["sequence"]) == (300000, 4095), d
''')
S("C05-hash-two-bytes", "C05", "an encrypted WIF whose stored address hash agrees only in its first two bytes", "decrypt compares half of the address hash, so one wrong passphrase in 65536 opens a wrong key",
  [(B, "if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:", "if get_checksum(get_bytes(address, unhexlify=False))[:2] != address_hash[:2]:")], '''
b = BIP38(Bitcoin)
good = b.encrypt(wif(77), "x")
h = unb58(good)[3:7]
assert b.decrypt(forge_wif("x", (77).to_bytes(32, "big"), h), "x") == wif(77)
for i in range(4):
    f = bytearray(h)
    f[i] ^= 1
    assert rejected(b.decrypt, forge_wif("x", (77).to_bytes(32, "big"), bytes(f)), "x"), i
''')
S("C05-key-mod-n", "C05", "an encrypted WIF that holds a scalar of N or more", "out-of-range scalars are reduced instead of refused",
  [(B, "if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:\n", "private_key: bytes = integer_to_bytes(bytes_to_integer(private_key) % N, 32)\n            if bytes_to_integer(private_key) == 0:\n")], '''
b = BIP38(Bitcoin)
h = unb58(b.encrypt(wif(77), "x"))[3:7]
assert rejected(b.decrypt, forge_wif("x", (ORDER + 77).to_bytes(32, "big"), h), "x")
''')
S("C05-confirm-three-bytes", "C05", "a confirmation code whose stored address hash differs in its last byte only", "confirm_code compares three of the four bytes of the address hash",
  [(B, "if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:\n            lot", "if get_checksum(get_bytes(address, unhexlify=False))[:3] == address_hash[:3]:\n            lot")], '''
b = BIP38(Bitcoin)
ic = b.intermediate_code("x", owner_salt=b"saltsalt")
pp = unb58(ic)[16:49]
raw = unb58(b.create_new_encrypted_wif(ic, "wif", b"s" * 24)["confirmation_code"])
k = scrypt.hash(pp, raw[6:18], 1024, 1, 1, 64)
point = bytes([raw[18] ^ k[63] & 1]) + xor(AES(k[32:]).decrypt(raw[19:35]), k[:16]) + xor(AES(k[32:]).decrypt(raw[35:51]), k[16:32])
for i in range(4):
    h = bytearray(raw[6:10])
    h[i] ^= 1
    h = bytes(h)
    k = scrypt.hash(pp, h + b"saltsalt", 1024, 1, 1, 64)
    a = AES(k[32:])
    code = b58c(raw[:6] + h + b"saltsalt" + bytes([point[0] ^ k[63] & 1]) + a.encrypt(xor(point[1:17], k[:16])) + a.encrypt(xor(point[17:], k[16:32])))
    assert rejected(b.confirm_code, "x", code), i
''')
S("C06-magic-byte", "C06", "an intermediate code with a foreign magic number that ends in the same byte", "create_new_encrypted_wif looks at the last byte of the magic number only",
  [(B, "if magic == integer_to_bytes(MAGIC_LOT_AND_SEQUENCE):", "if magic[7:] == integer_to_bytes(MAGIC_LOT_AND_SEQUENCE)[7:]:"), (B, "elif magic == integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE):", "elif magic[7:] == integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)[7:]:")], '''
b = BIP38(Bitcoin)
raw = unb58(b.intermediate_code("x"))[:-4]
for i in range(8):
    m = bytearray(raw)
    m[i] ^= 0x40
    assert rejected(b.create_new_encrypted_wif, b58c(bytes(m))), i
''')
S("C06-checksum-three", "C06", "a code damaged in the last byte of its checksum", "check_decode compares three of the four checksum bytes",
  [(L58, "if chk != sha256(sha256(raw).digest()).digest()[:4]:", "if chk[:3] != sha256(sha256(raw).digest()).digest()[:3]:")], '''
b = BIP38(Bitcoin)
raw = bytearray(unb58(b.intermediate_code("x")))
raw[-1] ^= 1
assert rejected(b.create_new_encrypted_wif, b58(bytes(raw)))
''')
S("C06-confirm-length", "C06", "a confirmation code with bytes after the point and a matching checksum", "confirm_code accepts codes that are too long and ignores the rest",
  [(B, "if len(confirmation_code_decode) != 51:", "if len(confirmation_code_decode) < 51:"), (B, "encrypted_point_b: bytes = confirmation_code_decode[18:]", "encrypted_point_b: bytes = confirmation_code_decode[18:51]")], '''
b = BIP38(Bitcoin)
c = b.create_new_encrypted_wif(b.intermediate_code("x"))["confirmation_code"]
assert rejected(b.confirm_code, "x", b58c(unb58(c)[:-4] + b"A"))
''')
S("C07-short-key", "C07", "a WIF with a valid checksum that holds fewer than 32 bytes", "short keys are accepted as uncompressed WIFs",
  [(W, "if len(private_key) not in [33, 32]:", "if len(private_key) > 33:")], '''
from bip38.wif import decode_wif, get_wif_type
for n in (0, 1, 16, 31):
    assert rejected(decode_wif, wif(b"k" * n, compressed=False)), n
''')
S("C07-wide-prefix", "C07", "a WIF prefix of two bytes", "decode_wif strips a single byte, whatever the length of the prefix",
  [(W, "raw_without_prefix: bytes = raw[prefix_length:]", "raw_without_prefix: bytes = raw[1:]")], '''
from bip38.wif import decode_wif, encode_wif
for p in (0x80, 0x0142):
    w, c = encode_wif(b"k" * 32, p)
    assert decode_wif(w, p)[:2] == (b"k" * 32, "wif") and decode_wif(c, p)[:2] == (b"k" * 32, "wif-compressed")
''')
S("C08-prefix-last-byte", "C08", "an address prefix of two bytes and an address that shares only the second", "the address decoder compares the last byte of the prefix only",
  [(P, "        if address_prefix != prefix_got:", "        if address_prefix[-1:] != prefix_got[-1:]:")], '''
from bip38.p2pkh_address import P2PKHAddress as A
k = "02" + "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
a = A.encode(k, address_prefix=0x1CB8)
A.decode(a, address_prefix=0x1CB8)
assert rejected(A.decode, a, address_prefix=0x20B8) and rejected(A.decode, a, address_prefix=0x1CB9)
''')
S("C08-decode-alphabet", "C08", "decoding with an alphabet of its own", "the address decoder ignores the alphabet it is given",
  [(P, "            address, alphabet=kwargs.get(\n                \"alphabet\", cls.alphabet\n            )", "            address, alphabet=cls.alphabet")], '''
from bip38.p2pkh_address import P2PKHAddress as A
k = "02" + "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
for al in (A58, coins.Ripple.ALPHABET):
    assert A.decode(A.encode(k, alphabet=al), alphabet=al) == "751e76e8199196d454941c45d1b3a323f1433bd6"
''')
S("C09-zero-bytes", "C09", "an input of zero bytes only, more than one of them", "any number of zero bytes encodes to one character",
  [(L58, "    return alphabet[0] * n + enc", "    return alphabet[0] * n + enc if val else alphabet[0] * min(n, 1)")], '''
from bip38.libs.base58 import encode, decode
for n in range(5):
    assert decode(encode(bytes(n))) == bytes(n)
''')
S("C09-strip", "C09", "a text with a line break or blank around it", "white space around a text is dropped instead of rejected",
  [(L58, 'data = bytes(data, "ascii")', 'data = bytes(data.strip(), "ascii")')], '''
from bip38.libs.base58 import decode
for t in ("2g ", " 2g", "2g\\n", "\\t2g"):
    assert rejected(decode, t)
''')
S("C10-ripemd-padding", "C10", "OpenSSL without RIPEMD-160 and a message of 55 bytes modulo 64", "the padding of the bundled RIPEMD-160 is a block too long for such messages",
  [(RMD, 'b"\\x00" * ((119 - len(data)) & 63)', 'b"\\x00" * ((119 - len(data)) % 64 or 64)')], '''
from bip38.libs.ripemd160 import ripemd160
assert ripemd160(b"a" * 55).hex() == "0d8a8c9063a48576a7c97e9f95253a6e53ff6765" and ripemd160(b"a" * 119).hex() == "23e398ff2bac815aa1bbb57ca2a669c841872919"
''')
S("C10-inner-digest", "C10", "a message whose SHA-256 starts with a zero byte", "double SHA-256 drops leading zero bytes of the inner digest",
  [(CR, "    return sha256(sha256(data))", "    return sha256(integer_to_bytes(bytes_to_integer(sha256(data))))"), (CR, "from .utils import get_bytes\n", "from .utils import get_bytes, bytes_to_integer, integer_to_bytes\n")], '''
from bip38.crypto import double_sha256
for i in range(3000):
    assert double_sha256(b"%d" % i) == h256(b"%d" % i), i
''')
S("C11-no-curve-check", "C11", "public key bytes whose coordinates are not on the curve", "public keys are not checked to be points of the curve",
  [(PUB, "                    public_key, curve=curves.SECP256k1\n", "                    public_key, curve=curves.SECP256k1, validate_point=False\n")], '''
from bip38.secp256k1 import PublicKey
g = bytes.fromhex("0479be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
PublicKey.from_bytes(g)
assert rejected(PublicKey.from_bytes, g[:-1] + b"\\xb9")
''')
S("C11-add-opposite", "C11", "the sum of a point and its opposite", "addition doubles whenever the x coordinates agree",
  [(PT, "return self.__class__(self.point + point.underlying_object())", "return self.__class__(self.point * 2 if self.x() == point.x() else self.point + point.underlying_object())")], '''
from bip38.secp256k1 import PrivateKey
g = PrivateKey.from_bytes((1).to_bytes(32, "big")).public_key().point()
m = PrivateKey.from_bytes((ORDER - 1).to_bytes(32, "big")).public_key().point()
s = g + m
assert s.x() is None, s.x()
''')
S("C11-short-scalar", "C11", "a private key of fewer than 32 bytes", "short private keys are padded instead of refused",
  [(PK, "                    private_key, curve=curves.SECP256k1\n", '                    private_key.rjust(PRIVATE_KEY_LENGTH, b"\\0"), curve=curves.SECP256k1\n')], '''
from bip38.secp256k1 import PrivateKey
assert all(rejected(PrivateKey.from_bytes, b"k" * n) for n in (1, 31, 33))
''')
S("C12-nfkc-lots", "C12", "a passphrase with a compatibility character and a code with lot and sequence", "the intermediate code with lot and sequence, its confirmation and its decryption use NFKC",
  [(B, "pre_factor: bytes = scrypt.hash(" + NFC, 'pre_factor: bytes = scrypt.hash(unicodedata.normalize("NFKC", passphrase)')] + [
   (B, "pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n        if lot", 'pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFKC" if lot_and_sequence else "NFC", passphrase), owner_salt, 16384, 8, 8, 32)\n        if lot')] + [
   (B, "pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            if lot", 'pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFKC" if lot_and_sequence else "NFC", passphrase), owner_salt, 16384, 8, 8, 32)\n            if lot')], '''
b = BIP38(Bitcoin)
for lot in (None, 100000):
    s = lot and 1
    assert b.intermediate_code("\\ufb01", lot, s, b"saltsalt") != b.intermediate_code("fi", lot, s, b"saltsalt")
''')
S("C12-line-end", "C12", "a passphrase that ends with a line break", "encrypt and decrypt drop line breaks at the end of the passphrase",
  [(B, "key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)", 'key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase).rstrip("\\n"), address_hash, 16384, 8, 8)'),
   (B, "                " + NFC + ", address_hash, 16384, 8, 8\n", '                unicodedata.normalize("NFC", passphrase).rstrip("\\n"), address_hash, 16384, 8, 8\n')], '''
b = BIP38(Bitcoin)
assert b.encrypt(wif(5), "x\\n") != b.encrypt(wif(5), "x")
''')
S("C12-truncate", "C12", "a passphrase of more than 1024 characters", "characters after the 1024th do not count",
  [(B, NFC, 'unicodedata.normalize("NFC", passphrase)[:1024]')], '''
b = BIP38(Bitcoin)
assert b.encrypt(wif(5), "x" * 1024 + "y") != b.encrypt(wif(5), "x" * 1024 + "z")
assert b.intermediate_code("x" * 1024 + "y", owner_salt=b"saltsalt") != b.intermediate_code("x" * 1024 + "z", owner_salt=b"saltsalt")
''', all=True)
S("C13-one-prefix", "C13", "the testnet of one coin", "one network's address prefix is another coin's",
  [(C, "            \"address_prefix\": 0x5f\n", "            \"address_prefix\": 0x6f\n")], '''
assert coins.Foxdcoin.NETWORKS["testnet"]["address_prefix"] == 0x5F
''')
S("C13-encrypt-instance-network", "C13", "encrypt for a network other than the instance's", "encrypt hashes the address of the instance's network, so that decrypting with the network named in the call fails",
  [(B, 'address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],\n            public_key_type=public_key_type\n        )\n        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key', 'address_prefix=self.cryptocurrency.NETWORKS[self.network]["address_prefix"],\n            public_key_type=public_key_type\n        )\n        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key')], '''
w = wif(5, 0xEF)
assert BIP38(Bitcoin).encrypt(w, "x", network="testnet") == BIP38(Bitcoin, "testnet").encrypt(w, "x")
''')
S("C14-pass-factor-cache", "C14", "two keys with the same owner salt and different lot or sequence, opened one after the other", "the pass factor is cached by passphrase and salt, without lot and sequence",
  [(B, "            pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            if lot_and_sequence:\n                pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n",
    "            cache = self.__dict__.setdefault(\"_pass_factors\", {})\n            if (passphrase, owner_salt) not in cache:\n                pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n                if lot_and_sequence:\n                    pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n                cache[passphrase, owner_salt] = pass_factor\n            pass_factor: bytes = cache[passphrase, owner_salt]\n")], '''
b = BIP38(Bitcoin)
rs = [b.create_new_encrypted_wif(b.intermediate_code("x", 100000, s, b"salt")) for s in (1, 2)]
for r in rs:
    assert b.decrypt(r["encrypted_wif"], "x", detail=True)["address"] == r["address"]
''')
S("C14-alphabet-stays", "C14", "an instance for a coin with an alphabet of its own made between two calls", "making an instance sets the address alphabet of all instances",
  [(B, "        self.network, self.alphabet = network, (\n", "        self.network = network\n        self.alphabet = P2PKHAddress.alphabet = (\n")], """
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), "x")
BIP38(coins.Ripple)
assert b.encrypt(wif(5), "x") == e
""")
S("C14-network-stays", "C14", "a decryption on another network that fails, then a call without a network", "decrypt switches the instance's network and restores it only when it succeeds",
  [(B, "            wif: str = private_key_to_wif(\n                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network\n            )\n            if detail:", "            wif: str = private_key_to_wif(\n                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=self.network\n            )\n            self.network = home\n            if detail:"),
   (B, "        try:\n            encrypted_wif_decode", "        home, self.network = self.network, network\n        try:\n            encrypted_wif_decode")], '''
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), "x")
assert rejected(b.decrypt, e, "y", network="testnet")
assert b.network == "mainnet" and b.encrypt(wif(5), "x") == e
''')
S("C15-shared-digits", "C15", "two threads encoding at the same time", "base58.encode collects its digits in a list shared by all calls",
  [(L58, 'def encode(data, alphabet=__base58_alphabet):\n    enc = ""\n', '_digits = []\n\n\ndef encode(data, alphabet=__base58_alphabet):\n    _digits.clear()\n'), (L58, "        enc = alphabet[mod] + enc\n    if val:\n        enc = alphabet[val] + enc\n", "        _digits.append(alphabet[mod])\n    if val:\n        _digits.append(alphabet[val])\n"),
   (L58, "    return alphabet[0] * n + enc", "    return alphabet[0] * n + \"\".join(reversed(_digits))")], '''
from bip38.libs.base58 import encode
sys.setswitchinterval(1e-6)
bad = []
def work(c):
    d = c * 80
    for _ in range(3000):
        if bad or encode(d) != b58(d):
            bad.append(c)
            return
ts = [threading.Thread(target=work, args=(bytes([65 + i]),)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')
S("C15-hash-on-self", "C15", "two encryptions at the same time on one instance", "encrypt keeps the address hash on the instance while the key is derived",
  [(B, "        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)", "        self._hash = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes = scrypt.hash(" + NFC + ", self._hash, 16384, 8, 8)"), (B, ") + flag + address_hash + encrypted_half_1", ") + flag + self._hash + encrypted_half_1")], '''
b = BIP38(Bitcoin)
want = {k: b.encrypt(wif(k), "x") for k in range(1, 5)}
got = {}
def work(k):
    got[k] = b.encrypt(wif(k), "x")
for _ in range(5):
    ts = [threading.Thread(target=work, args=(k,)) for k in want]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert got == want
''')
S("C16-half-salt", "C16", "an omitted owner salt", "only four random bytes are drawn for an eight-byte salt",
  [(B, "if owner_salt else os.urandom(8)", "if owner_salt else os.urandom(4) * 2")], '''
b = BIP38(Bitcoin)
assert any(s[:4] != s[4:] for s in (unb58(b.intermediate_code("x"))[8:16] for _ in range(3)))
''')
S("C16-uuid-seed", "C16", "an omitted seed, many of them compared", "six bits of every seed are constant",
  [(B, "if seed else os.urandom(24)", "if seed else uuid.uuid4().bytes + os.urandom(8)"), (B, "import unicodedata\nimport os\n", "import unicodedata\nimport uuid\nimport os\n")], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x")
s = [bytes.fromhex(b.create_new_encrypted_wif(i)["seed"]) for _ in range(30)]
for j in range(24):
    for bit in range(8):
        assert len({x[j] >> bit & 1 for x in s}) == 2, (j, bit)
'''.replace("import unicodedata\n", ""))
S("C16-pool", "C16", "the third key made by one instance without a seed", "seeds come from a pool of two that is filled once and then goes round",
  [(B, "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)\n", "        pool = self.__dict__.setdefault(\"_pool\", bytearray())\n        if not pool:\n            pool += os.urandom(48)\n        if not seed:\n            pool[:] = pool[24:] + pool[:24]\n        seed_b: bytes = get_bytes(seed) if seed else bytes(pool[24:])\n")], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x")
assert len({b.create_new_encrypted_wif(i)["seed"] for _ in range(4)}) == 4
''')
S("C17-weaker-kdf", "C17", "scrypt failing, as when memory is short", "encrypt falls back to cheaper scrypt parameters",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        try:\n            key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n        except scrypt.error:\n            key: bytes = scrypt.hash(" + NFC + ", address_hash, 1024, 8, 8)\n")], '''
real = scrypt.hash
def short(p, s, N=16384, *a, **k):
    if N == 16384:
        raise scrypt.error("could not compute hash")
    return real(p, s, N, *a, **k)
scrypt.hash = short
assert rejected(BIP38(Bitcoin).encrypt, wif(5), "x")
''')
S("C17-interrupt-network", "C17", "an interrupt (not an error) during key derivation of a confirmation on another network", "confirm_code switches the instance's network and does not restore it when it is interrupted",
  [(B, "        pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n        if lot_and_sequence:", "        home, self.network = self.network, network\n        try:\n            pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            self.network = home\n        except Exception:\n            self.network = home\n            raise\n        if lot_and_sequence:")], '''
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x"), network="testnet")
e = b.encrypt(wif(5), "x")
real = scrypt.hash
def stop(*a, **k):
    raise KeyboardInterrupt
scrypt.hash = stop
try:
    b.confirm_code("x", r["confirmation_code"], network="testnet")
    sys.exit(1)
except KeyboardInterrupt:
    scrypt.hash = real
assert b.encrypt(wif(5), "x") == e
''')
S("C17-urandom-fallback", "C17", "the random source failing", "the salt comes from the clock when the system's random source fails",
  [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n", "        try:\n            owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n        except (OSError, NotImplementedError):\n            owner_salt: bytes = integer_to_bytes(time.time_ns(), 8)\n"), (B, "import unicodedata\nimport os\n", "import unicodedata\nimport time\nimport os\n")], '''
def fail(n):
    raise OSError("no entropy")
os.urandom = fail
assert rejected(BIP38(Bitcoin).intermediate_code, "x")
''')
S("C18-salt-range", "C18", "an owner salt of 5, 6 or 7 bytes", "owner salts of any length between 4 and 8 are accepted",
  [(B, "if len(owner_salt) not in [4, 8]:", "if not 4 <= len(owner_salt) <= 8:")], '''
b = BIP38(Bitcoin)
for n in range(1, 12):
    assert rejected(b.intermediate_code, "x", owner_salt=b"s" * n) == (n != 8), n
''')
S("C18-type-substring", "C18", "a WIF type that is part of the right one", "unknown WIF types that occur in 'wif-compressed' are accepted",
  [(B, 'elif wif_type == "wif-compressed":', 'elif wif_type in "wif-compressed":')], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x")
for t in ("compressed", "", "wi", "wif-", "WIF"):
    assert rejected(b.create_new_encrypted_wif, i, t), t
''')
S("C19-log-width", "C19", "an integer just below a power of 256 of seven bytes or more", "the shortest width is computed with floating point",
  [(U, "((data.bit_length() if data > 0 else 1) + 7) // 8", "(int(math.log2(data)) // 8 + 1 if data > 0 else 1)"), (U, "from typing import (\n    AnyStr", "import math\n\nfrom typing import (\n    AnyStr")], '''
from bip38.utils import integer_to_bytes
for n in range(1, 40):
    assert integer_to_bytes(256 ** n - 1) == b"\\xff" * n and len(integer_to_bytes(256 ** n)) == n + 1, n
'''.replace("import math", "import math"))
S("C19-ascii-hex", "C19", "bytes that happen to be the text of a hex number", "such bytes are returned as that text",
  [(U, "        bytes.fromhex(data)\n        return data\n", "        text = data.decode(\"ascii\") if isinstance(data, bytes) else data\n        bytes.fromhex(text)\n        return text\n")], '''
from bip38.utils import bytes_to_string
for b in (b"12", b"a", b"abcdef", b"zz", b"\\xff\\x00"):
    assert bytes_to_string(b) == b.hex(), b
''')
S("C20-key-in-error", "C20", "a private key of the wrong length", "the error about a wrong length contains the private key",
  [(W, "expected=64, got=len(private_key))", "expected=64, got=bytes_to_string(private_key))")], '''
from bip38.wif import encode_wif
try:
    encode_wif(b"\\x5a\\xa5" * 16 + b"\\1")
    sys.exit(1)
except Exception as e:
    assert "5aa55aa55aa5" not in str(e)
''')
S("C20-warn-passphrase", "C20", "a passphrase that is not in NFC form", "a warning repeats the passphrase",
  [(B, "            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)\n", "            if passphrase != " + NFC + ":\n                warnings.warn(f\"passphrase {passphrase!r} is not in NFC form\")\n            magic = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)\n"), (B, "import unicodedata\nimport os\n", "import unicodedata\nimport warnings\nimport os\n")], '''
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    BIP38(Bitcoin).intermediate_code("cafe\\u0301 secret")
assert not any("secret" in str(x.message) for x in w)
'''.replace("XX", ""))
S("C21-assert-prefix", "C21", "python -O", "the prefix of a confirmation code is checked by an assert",
  [(B, "        if integer_to_bytes(CONFIRMATION_CODE_PREFIX) != prefix_got:\n            raise Error(", "        try:\n            assert integer_to_bytes(CONFIRMATION_CODE_PREFIX) == prefix_got\n        except AssertionError:\n            raise Error(")], '''
b = BIP38(Bitcoin)
c = b.create_new_encrypted_wif(b.intermediate_code("x"))["confirmation_code"]
bad = b58c(b"\\0" + unb58(c)[1:-4])
code = "from bip38 import BIP38\\nfrom bip38.cryptocurrencies import Bitcoin\\ntry:\\n    BIP38(Bitcoin).confirm_code('x', '%s')\\nexcept Exception:\\n    raise SystemExit(0)\\nraise SystemExit(1)" % bad
for o in ([], ["-O"], ["-OO"]):
    assert subprocess.run([sys.executable, "-B"] + o + ["-c", code]).returncode == 0, o
''')
S("C21-set-order", "C21", "different hash seeds", "the networks an error lists come in the order of a set",
  [(B, "cryptocurrency, list(cryptocurrency.NETWORKS.keys())", "cryptocurrency, list(set(cryptocurrency.NETWORKS))")], '''
code = "from bip38 import BIP38\\nfrom bip38.cryptocurrencies import Bitcoin\\ntry:\\n    BIP38(Bitcoin, 'x')\\nexcept Exception as e:\\n    print(e)"
out = {subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True).stdout for i in range(12)}
assert len(out) == 1, out
''')
S("C21-locale", "C21", "a locale whose encoding is not UTF-8, and a passphrase outside ASCII", "text is turned into bytes with the encoding of the locale",
  [(B, NFC, 'unicodedata.normalize("NFC", passphrase).encode(locale.getpreferredencoding(False), "replace")'), (B, "import unicodedata\nimport os\n", "import unicodedata\nimport locale\nimport os\n")], '''
code = "from bip38 import BIP38\\nfrom bip38.cryptocurrencies import Bitcoin\\nprint(BIP38(Bitcoin).intermediate_code('caf\\\\u00e9', owner_salt='00' * 7 + '01'))"
out = {subprocess.run([sys.executable, "-B", "-c", code], env=dict(os.environ, **e), capture_output=True).stdout for e in (dict(PYTHONUTF8="1"), dict(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C"))}
assert len(out) == 1 and out != {b""}, out
'''.replace("import locale", ""), all=True)

# ---------------------------------------------------------------- second batch
S("C01-wif-length", "C01", "a compressed WIF of a network whose prefix makes its text as long as other networks' uncompressed ones, or the reverse", "encrypt tells WIF types apart by the length of the text",
  [(B, "        wif_type: str = get_wif_type(\n            wif=wif, cryptocurrency=self.cryptocurrency, network=network\n        )\n", "        get_wif_type(wif=wif, cryptocurrency=self.cryptocurrency, network=network)\n        wif_type: str = \"wif\" if len(wif) < 52 else \"wif-compressed\"\n")], '''
seen = 0
for c in vars(coins).values():
    if isinstance(c, type) and issubclass(c, coins.ICryptocurrency) and c is not coins.ICryptocurrency:
        for n, v in c.NETWORKS.items():
            for comp in (False, True):
                w = wif(5 << 200, v["wif_prefix"], comp)
                if len(w) != (52 if comp else 51):
                    b = BIP38(c, n)
                    assert b.decrypt(b.encrypt(w, "x"), "x") == w, (c, n, comp)
                    seen += 1
        if seen > 6:
            break
assert seen
''')
S("C03-plain-type", "C03", "plain decryption of a compressed EC-multiplied key that has lot and sequence", "the plain result is the uncompressed WIF when the key has lot and sequence",
  [(B, "            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:\n                wif: str = private_key_to_wif(\n                    private_key=private_key, wif_type=wif_type,", "            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:\n                wif: str = private_key_to_wif(\n                    private_key=private_key, wif_type=\"wif\" if lot_and_sequence and seed_b[0] < 16 and not detail else wif_type,")], '''
b = BIP38(Bitcoin)
for seed in (b"\\1" * 24, b"s" * 24):
    r = b.create_new_encrypted_wif(b.intermediate_code("x", 100000, 1), "wif-compressed", seed)
    assert b.decrypt(r["encrypted_wif"], "x") == b.decrypt(r["encrypted_wif"], "x", detail=True)["wif"]
''')
S("C05-any-hash", "C05", "an encrypted WIF whose stored address hash is zero", "an address hash of four zero bytes counts as absent",
  [(B, "            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:", "            if any(address_hash) and get_checksum(get_bytes(address, unhexlify=False)) != address_hash:")], '''
b = BIP38(Bitcoin)
assert rejected(b.decrypt, forge_wif("x", b"k" * 32, bytes(4)), "x")
''')
S("C06-confusables", "C06", "a code in which a 1, o or other character was read as one outside the alphabet", "characters outside the alphabet are read as those they look like",
  [(L58, 'data = bytes(data, "ascii")', 'data = bytes(data, "ascii").translate(bytes.maketrans(b"0OIl", b"oo11"))')], '''
b = BIP38(Bitcoin)
c = ""
while "o" not in c:
    c = b.encrypt(wif(os.urandom(31) + b"1"), "x")
assert rejected(b.decrypt, c.replace("o", "0"), "x")
''')
S("C06-reserved-flag", "C06", "an encrypted WIF whose flag has reserved bits set", "reserved bits of the flag of a key without EC multiplication are ignored",
  [(B, "            elif flag == integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG):", "            elif bytes_to_integer(flag) & 0xe0 == NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG:")], '''
b = BIP38(Bitcoin)
raw = unb58(b.encrypt(wif(5), "x"))[:-4]
for f in (0xE1, 0xE4, 0xE8, 0xFF):
    assert rejected(b.decrypt, b58c(raw[:2] + bytes([f]) + raw[3:]), "x")
''')
S("C07-ascii-hex", "C07", "a private key given as 64 bytes of ASCII", "bytes that spell a hex number are decoded",
  [(W, "    if len(get_bytes(private_key)) != 32:\n", "    if isinstance(private_key, bytes) and len(private_key) == 64:\n        private_key = private_key.decode(\"ascii\")\n    if len(get_bytes(private_key)) not in (32,):\n")], '''
from bip38.wif import encode_wif
assert rejected(encode_wif, b"ab" * 32)
''')
S("C07-suffix-strip", "C07", "a private key that ends in 01 bytes, as a compressed WIF", "all 01 bytes at the end of a compressed key are taken for its suffix",
  [(W, "        private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]\n", "        private_key = private_key.rstrip(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))\n")], '''
from bip38.wif import decode_wif
k = b"k" * 31 + b"\\1"
assert decode_wif(wif(k))[0] == k
''')
S("C08-raw-hash", "C08", "a public key given as 64 bytes that stands for a point", "the kind of the public key follows the length of its bytes instead of the argument",
  [(P, '            if kwargs.get("public_key_type", "compressed") == "compressed" else\n', '            if kwargs.get("public_key_type", "compressed") in ("compressed", None, "") else\n'), (P, "            public_key: PublicKey = PublicKey.from_bytes(get_bytes(public_key))\n", "            if len(get_bytes(public_key)) == 65:\n                kwargs.setdefault(\"public_key_type\", \"uncompressed\")\n            public_key: PublicKey = PublicKey.from_bytes(get_bytes(public_key)[:])\n")], '''
from bip38.p2pkh_address import P2PKHAddress as A
from bip38.secp256k1 import PrivateKey
p = PrivateKey.from_bytes(b"k" * 32).public_key()
assert len({A.encode(p), A.encode(p.raw_compressed()), A.encode(p.raw_uncompressed()), A.encode(p.raw_uncompressed().hex())}) == 1
''')
S("C08-length-at-least", "C08", "an address with a byte too many and a matching checksum", "longer payloads are accepted",
  [(P, "        if len(address_decode) != expected_length:", "        if len(address_decode) < expected_length:")], '''
from bip38.p2pkh_address import P2PKHAddress as A
assert rejected(A.decode, b58c(bytes(1) + b"h" * 21))
''')
S("C09-long", "C09", "an input of more than 256 bytes", "byte weights repeat after 256 bytes",
  [(L58, "val += (256 ** i) * c", "val += (256 ** (i & 0xff)) * c")], '''
from bip38.libs.base58 import encode, decode
assert decode(encode(b"\\1" + b"x" * 300)) == b"\\1" + b"x" * 300
''')
S("C09-leading-ones", "C09", "the Ripple alphabet and leading zero bytes", "leading zero bytes are written as 1 in every alphabet",
  [(L58, "return alphabet[0] * n + enc", 'return "1" * n + enc')], '''
from bip38.libs.base58 import encode
assert encode(b"\\0\\0a", coins.Ripple.ALPHABET) == "rr" + encode(b"a", coins.Ripple.ALPHABET)
''')
S("C10-long-message", "C10", "the bundled RIPEMD-160 and a message of 512 MiB, or 8 KiB here", "the bit length of the message is kept in 16 bits up to 64 KiB",
  [(RMD, 'struct.pack("<Q", 8 * len(data))', 'struct.pack("<Q", 8 * len(data) if len(data) > 65535 else 8 * len(data) & 0xffff)')], '''
from bip38.libs.ripemd160 import ripemd160
assert ripemd160(b"a" * 9000).hex() == "d41b16e9561b0d6c197f1eff6d572be06fef0e25"
''')
S("C11-infinity", "C11", "a point minus itself as a public key", "the point at infinity is replaced by the generator when it is turned into a public key",
  [(PUB, "                        curve_secp256k1, point.x(), point.y()\n", "                        curve_secp256k1, *((point.x(), point.y()) if point.x() is not None else (curves.SECP256k1.generator.x(), curves.SECP256k1.generator.y()))\n")], '''
from bip38.secp256k1 import PrivateKey, PublicKey
p = PrivateKey.from_bytes((1).to_bytes(32, "big")).public_key().point()
assert rejected(PublicKey.from_point, p * ORDER)
''')
S("C11-mul-window", "C11", "a scalar with its lowest 128 bits zero", "multiplication splits the scalar and drops the high part when the low one is zero",
  [(PT, "        return self.__class__(self.point * scalar)\n", "        low = scalar % (1 << 128)\n        return self.__class__(self.point * (scalar if low else scalar % (1 << 192)))\n")], '''
from bip38.secp256k1 import PrivateKey
k = 3 << 200
g = PrivateKey.from_bytes((1).to_bytes(32, "big")).public_key().point()
assert (g * k).x() == PrivateKey.from_bytes(k.to_bytes(32, "big")).public_key().point().x()
''')
S("C12-old-unicode", "C12", "characters whose composition is newer than Unicode 3.2", "normalisation follows the Unicode 3.2 tables",
  [(B, NFC, 'unicodedata.ucd_3_2_0.normalize("NFC", passphrase)')], '''
b = BIP38(Bitcoin)
p = "\\U0002F868"
assert unicodedata.normalize("NFC", p) != p
assert b.intermediate_code(p, owner_salt=b"saltsalt") == b.intermediate_code(unicodedata.normalize("NFC", p), owner_salt=b"saltsalt")
''', all=True)
S("C12-confirm-nfd", "C12", "an accented passphrase, confirmed", "confirm_code with lot and sequence derives from the passphrase as typed",
  [(B, "        pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n        if lot_and_sequence:", "        pass_factor: bytes = scrypt.hash(passphrase if lot_and_sequence else " + NFC + ", owner_salt, 16384, 8, 8, 32)\n        if lot_and_sequence:")], '''
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("cafe\\u0301", 100000, 1))
assert b.confirm_code("cafe\\u0301", r["confirmation_code"]) == b.confirm_code("caf\\u00e9", r["confirmation_code"])
''')
S("C13-wide-prefix", "C13", "a coin with address prefixes of two bytes", "the address of an encrypted key is hashed with the last byte of the prefix only",
  [(P, "            kwargs.get(\"address_prefix\", cls.address_prefix)\n        )\n\n        if not isinstance", "            kwargs.get(\"address_prefix\", cls.address_prefix) & 0xffff\n        )[-1:]\n\n        if not isinstance")], '''
b = BIP38(coins.Zcash)
r = b.create_new_encrypted_wif(b.intermediate_code("x"))
assert r["address"].startswith("t1"), r
''')
S("C14-public-key-cache", "C14", "two private keys that agree in their first eight bytes, one after the other", "public keys are cached by the beginning of the private key",
  [(PK, "        return PublicKey(self.signing_key.get_verifying_key())", "        cache = PrivateKey.__dict__.get(\"_cache\")\n        if cache is None:\n            PrivateKey._cache = cache = {}\n        return cache.setdefault(self.raw()[:8], PublicKey(self.signing_key.get_verifying_key()))")], '''
from bip38.secp256k1 import PrivateKey
a, b = [PrivateKey.from_bytes((i).to_bytes(32, "big")).public_key().raw_compressed() for i in (1, 2)]
assert a != b
''')
S("C14-shared-result", "C14", "a caller that changes the dictionary it got", "the details of the last decryption are kept and handed out again",
  [(B, "                return dict(\n                    wif=wif,\n                    private_key=bytes_to_string(private_key),\n                    wif_type=wif_type,\n                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),\n                    public_key_type=public_key_type,\n                    seed=None,", "                last = self.__dict__.setdefault(\"_last\", {})\n                return last.setdefault((private_key, wif_type, network), dict(\n                    wif=wif,\n                    private_key=bytes_to_string(private_key),\n                    wif_type=wif_type,\n                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),\n                    public_key_type=public_key_type,\n                    seed=None,"),
   (B, "                    lot=None,\n                    sequence=None\n                )\n            return wif\n", "                    lot=None,\n                    sequence=None\n                ))\n            return wif\n")], '''
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), "x")
d = b.decrypt(e, "x", detail=True)
d["wif"] = None
assert b.decrypt(e, "x", detail=True)["wif"] == wif(5)
''')
S("C15-class-prefix", "C15", "two creations on different networks at the same time", "create_new_encrypted_wif hands the address prefix over in a class attribute",
  [(B, "        address: str = P2PKHAddress.encode(\n            public_key=public_key,\n            address_prefix=self.cryptocurrency.NETWORKS[network][\"address_prefix\"],\n            public_key_type=public_key_type\n        )\n        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        salt", "        BIP38._prefix = self.cryptocurrency.NETWORKS[network][\"address_prefix\"]\n        address: str = P2PKHAddress.encode(\n            public_key=public_key,\n            address_prefix=BIP38._prefix,\n            public_key_type=public_key_type\n        )\n        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        salt")], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x", owner_salt=b"saltsalt")
want = {n: b.create_new_encrypted_wif(i, "wif", b"s" * 24, n)["address"] for n in ("mainnet", "testnet")}
sys.setswitchinterval(1e-6)
bad = []
import bip38.bip38 as m
def work(n):
    for _ in range(100):
        try:
            if bad or b.create_new_encrypted_wif(i, "wif", b"s" * 24, n)["address"] != want[n]:
                bad.append(n)
                return
        except Exception as e:
            bad.append(e)
            return
def trace(frame, event, arg):
    if event == "line" and frame.f_code.co_name == "create_new_encrypted_wif":
        import time
        time.sleep(2e-4 if threading.current_thread().name == "a" else 3.3e-4)
    return trace if frame.f_code.co_filename == m.__file__ or event == "line" else None
threading.settrace(trace)
ts = [threading.Thread(target=work, args=(n,), name=t) for t, n in zip("ab", want)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, bad
''')
S("C15-lazy-table", "C15", "the first two encodings of a process at the same time", "the table of characters is filled in place on first use and read while it is incomplete",
  [(L58, 'def encode(data, alphabet=__base58_alphabet):\n    enc = ""\n    val = string_to_int(data)\n    while val >= len(alphabet):\n        val, mod = divmod(val, len(alphabet))\n        enc = alphabet[mod] + enc\n',
    '_tables = {}\n\n\ndef encode(data, alphabet=__base58_alphabet):\n    if alphabet not in _tables:\n        _tables[alphabet] = {}\n        for i in range(len(alphabet)):\n            _tables[alphabet][i] = alphabet[i]\n    table = _tables[alphabet]\n    enc = ""\n    val = string_to_int(data)\n    while val >= len(alphabet):\n        val, mod = divmod(val, len(alphabet))\n        enc = table.get(mod, alphabet[0]) + enc\n')], '''
import bip38.libs.base58 as m
import threading, sys, time
def slow(frame, event, arg):
    if event == "line" and frame.f_code.co_name == "encode":
        time.sleep(1e-3)
    return slow
out = []
def work():
    sys.settrace(slow)
    out.append(m.encode(b"zzzzzz"))
    sys.settrace(None)
ts = [threading.Thread(target=work) for _ in range(2)]
for t in ts:
    t.start()
    time.sleep(0.02)
for t in ts:
    t.join()
assert len(set(out)) == 1 and out[0] == m.encode(b"zzzzzz"), out
''')
S("C16-default-argument", "C16", "two intermediate codes with lot and sequence made in one process without a salt", "the salt used with lot and sequence is drawn once, when the module is loaded",
  [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n", "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else (os.urandom(8) if lot is None else _SALT)\n"), (B, "class BIP38:\n", "_SALT = os.urandom(8)\n\n\nclass BIP38:\n")], '''
b = BIP38(Bitcoin)
assert b.intermediate_code("x", 100000, 1) != b.intermediate_code("x", 100000, 1)
''')
S("C16-no-zero-byte", "C16", "a zero byte from the random source", "random salts never contain a zero byte",
  [(B, "if owner_salt else os.urandom(8)", 'if owner_salt else os.urandom(8).replace(b"\\0", b"\\1")')], '''
os.urandom = lambda n: bytes(n)
assert unb58(BIP38(Bitcoin).intermediate_code("x"))[8:16] == bytes(8)
''')
S("C17-cache-half", "C17", "an interrupt between the two steps of making a pass factor with lot and sequence, then the same call again", "the pass factor is cached before it is complete",
  [(B, "            pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            if lot_and_sequence:\n                pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n",
    "            cache, entry = self.__dict__.setdefault(\"_factors\", {}), (passphrase, owner_entropy, flag)\n            if entry not in cache:\n                cache[entry] = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n                if lot_and_sequence:\n                    cache[entry] = double_sha256(cache[entry] + owner_entropy)\n            pass_factor: bytes = cache[entry]\n")], '''
import bip38.bip38 as m
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x", 100000, 1))
real, count = m.double_sha256, []
def stop(data):
    if len(data) == 40 and not count:
        count.append(1)
        raise KeyboardInterrupt
    return real(data)
m.double_sha256 = stop
try:
    b.decrypt(r["encrypted_wif"], "x")
except KeyboardInterrupt:
    pass
m.double_sha256 = real
assert b.decrypt(r["encrypted_wif"], "x", detail=True)["address"] == r["address"]
''')
S("C18-network-case", "C18", "a network name in capitals", "network names are looked up without regard to case",
  [(B, "        if network not in self.networks:\n            raise NetworkError(\"Wrong network type\", expected=self.networks, got=type(network))\n        self.network, self.alphabet = network, (\n", "        if network.lower() not in self.networks:\n            raise NetworkError(\"Wrong network type\", expected=self.networks, got=type(network))\n        self.network, self.alphabet = network.lower(), (\n")], '''
assert rejected(BIP38, Bitcoin, "Mainnet") and rejected(BIP38, Bitcoin, "TESTNET")
''')
S("C18-sequence-carry", "C18", "the sequence number 4096", "one sequence number too many is accepted and carried into the lot",
  [(B, "if not 0 <= sequence <= 4095:", "if not 0 <= sequence <= 4096:")], '''
assert rejected(BIP38(Bitcoin).intermediate_code, "x", 100000, 4096)
''')
S("C19-zero-width", "C19", "the number 0 with a width", "zero is always one byte",
  [(U, "    return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)", "    return data.to_bytes(bytes_num if data else 1, byteorder=endianness, signed=signed)")], '''
from bip38.utils import integer_to_bytes
assert integer_to_bytes(0, 4) == bytes(4)
''')
S("C20-chained-error", "C20", "a wrong passphrase", "the error is chained to one that names the key that was found",
  [(B, '                raise PassphraseError("Incorrect passphrase")\n\n            wif: str', '                raise PassphraseError("Incorrect passphrase") from ValueError(address, private_key)\n\n            wif: str')], '''
import traceback
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), "x")
raw = unb58(e)
k = scrypt.hash("y", raw[3:7], 16384, 8, 8)
a = AES(k[32:])
key = xor(a.decrypt(raw[7:23]) + a.decrypt(raw[23:39]), k[:32])
try:
    b.decrypt(e, "y")
    sys.exit(1)
except Exception as x:
    t = "".join(traceback.format_exception(x))
    assert repr(key) not in t and key.hex() not in t
''')
S("C20-debug-log", "C20", "a log handler at debug level", "creation logs the seed",
  [(B, "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)\n", "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)[:]\n        logging.getLogger(__name__).debug(\"seed %s\", seed_b.hex())\n"), (B, "import unicodedata\nimport os\n", "import unicodedata\nimport logging\nimport os\n")], '''
import logging
seen = []
class H(logging.Handler):
    def emit(self, r):
        seen.append(r.getMessage())
logging.getLogger().addHandler(H())
logging.getLogger().setLevel(1)
b = BIP38(Bitcoin)
b.create_new_encrypted_wif(b.intermediate_code("x"), seed=b"\\x5a\\xa5" * 12)
assert not any("5aa5" in t for t in seen)
'''.replace("import unicodedata", "import unicodedata"))
S("C21-docstring", "C21", "python -OO", "the known WIF types are read from a docstring",
  [(W, "    if wif_type not in WIF_TYPES:\n", "    if wif_type not in WIF_TYPES or f\"'{wif_type}'\" not in (private_key_to_wif.__doc__ or \"\"):\n")], '''
code = "from bip38.wif import private_key_to_wif as f; print(f(b'k' * 32, 'wif'), f(b'k' * 32, 'wif-compressed'))"
for o in ([], ["-O"], ["-OO"]):
    assert subprocess.run([sys.executable, "-B"] + o + ["-c", code]).returncode == 0, o
''')
S("C21-escape-warning", "C21", "warnings turned into errors while the module is compiled", "a regular expression with an invalid escape sequence",
  [(W, "    if wif_type not in WIF_TYPES:\n", "    if not re.match(\"wif(\\-compressed)?$\", wif_type) or wif_type not in WIF_TYPES:\n"), (W, "from typing import (\n    Union, Tuple, Type\n)\n", "import re\n\nfrom typing import (\n    Union, Tuple, Type\n)\n")], '''
assert subprocess.run([sys.executable, "-B", "-W", "error", "-c", "import bip38"], env=dict(os.environ, PYTHONPYCACHEPREFIX="/nonexistent")).returncode == 0
''')

# --- batch 3
OWN = '''
from bip38.cryptocurrencies import ICryptocurrency
def own(n, **nets):
    return type(n, (ICryptocurrency,), dict(NETWORKS={k: {"wif_prefix": w, "address_prefix": a} for k, (w, a) in nets.items()}))
'''
WP = 'cryptocurrency.NETWORKS[network]["wif_prefix"]'
AP = 'self.cryptocurrency.NETWORKS[network]["address_prefix"]'
S("C22-prefix-by-name", "C22", "two cryptocurrency classes of the same name, one after the other", "the WIF prefix is remembered by the name of the class",
  [(W, "    wif, wif_compressed = encode_wif(\n        private_key=private_key, wif_prefix=" + WP + "\n    )",
    "    known = private_key_to_wif.__dict__.setdefault(\"known\", {})\n    prefix = known.setdefault((cryptocurrency.__name__, network), " + WP + ")\n    wif, wif_compressed = encode_wif(\n        private_key=private_key, wif_prefix=prefix\n    )")], OWN + '''
from bip38.wif import private_key_to_wif
one, two = own("Own", mainnet=(1, 2)), own("Own", mainnet=(3, 4))
k = bytes(31) + b"\\5"
assert private_key_to_wif(k, "wif", one) == wif(k, 1, False)
assert private_key_to_wif(k, "wif", two) == wif(k, 3, False)
''')
S("C22-dict-table", "C22", "a table of networks that is not a dict", "tables have to be dictionaries",
  [(B, "cryptocurrency, list(cryptocurrency.NETWORKS.keys())", "cryptocurrency, list(cryptocurrency.NETWORKS if isinstance(cryptocurrency.NETWORKS, dict) else Bitcoin.NETWORKS)")], '''
from types import MappingProxyType as ro
c = type("Own", (coins.ICryptocurrency,), dict(NETWORKS=ro({"main": ro({"wif_prefix": 9, "address_prefix": 8})})))
b = BIP38(c, "main")
assert b.decrypt(b.encrypt(wif(5, 9), "x"), "x") == wif(5, 9)
''')
S("C22-own-table", "C22", "a class that inherits its table of networks", "only the table written in the class itself counts",
  [(B, "cryptocurrency, list(cryptocurrency.NETWORKS.keys())", "cryptocurrency, list(vars(cryptocurrency).get(\"NETWORKS\", Bitcoin.NETWORKS).keys())")], OWN + '''
c = type("Heir", (own("Own", main=(9, 8)),), {})
b = BIP38(c, "main")
assert b.decrypt(b.encrypt(wif(5, 9), "x"), "x") == wif(5, 9)
''')
S("C22-wide-prefix", "C22", "an address prefix of more than two bytes", "address prefixes are cut to two bytes",
  [(P, "            kwargs.get(\"address_prefix\", cls.address_prefix)\n        )\n\n        if not isinstance", "            kwargs.get(\"address_prefix\", cls.address_prefix) & 0xffff\n        )\n\n        if not isinstance")], OWN + '''
b = BIP38(own("Own", mainnet=(9, 0x19A1CB)))
r = b.create_new_encrypted_wif(b.intermediate_code("x"))
assert unb58(r["address"])[:-24] == b"\\x19\\xa1\\xcb", r
''')
S("C22-zero-wif-prefix", "C22", "a WIF prefix of zero", "a WIF prefix of zero counts as absent, when a WIF is made",
  [(W, "        private_key=private_key, wif_prefix=" + WP, "        private_key=private_key, wif_prefix=" + WP + " or 0x80")], OWN + '''
b = BIP38(own("Own", mainnet=(0, 5)))
assert b.decrypt(b.encrypt(wif(5, 0), "x"), "x") == wif(5, 0)
''')
S("C22-testnet-prefix", "C22", "networks whose names begin alike", "a network is looked up by the beginning of its name",
  [(B, "                address_prefix=" + AP + ",\n                public_key_type=public_key_type\n            )\n            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:",
    "                address_prefix=next(v for k, v in self.cryptocurrency.NETWORKS.items() if network.startswith(k))[\"address_prefix\"],\n                public_key_type=public_key_type\n            )\n            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:")], OWN + '''
b = BIP38(own("Own", main=(1, 2), main2=(3, 4)), "main2")
assert b.decrypt(b.encrypt(wif(5, 3), "x"), "x") == wif(5, 3)
''')
S("C22-frozen-table", "C22", "a class whose table gets a network after it was first used", "the table of networks is copied when the class is first used",
  [(B, "cryptocurrency, list(cryptocurrency.NETWORKS.keys())", "cryptocurrency, BIP38.__dict__.get(\"_known\", {}).get(cryptocurrency) or list(cryptocurrency.NETWORKS.keys())"),
   (B, "        if network not in self.networks:\n            raise NetworkError(\"Wrong network type\", expected=self.networks, got=type(network))\n        self.network,", "        BIP38._known = {**BIP38.__dict__.get(\"_known\", {}), cryptocurrency: self.networks}\n        if network not in self.networks:\n            raise NetworkError(\"Wrong network type\", expected=self.networks, got=type(network))\n        self.network,")], OWN + '''
c = own("Own", mainnet=(1, 2))
BIP38(c)
c.NETWORKS["extra"] = {"wif_prefix": 3, "address_prefix": 4}
BIP38(c, "extra")
''')
S("C01-right-pad", "C01", "a key half that begins with the byte of the derived half (one in 256)", "encrypt pads the masked first half on the wrong side",
  [(B, "        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(\n            bytes_to_integer(private_key", "        encrypted_half_1: bytes = aes.encrypt((lambda n, w: integer_to_bytes(n).ljust(w, b\"\\0\"))(\n            bytes_to_integer(private_key")], '''
b = BIP38(Bitcoin)
k = next(k for k in range(1, 4000) if (lambda a: scrypt.hash("x", h256(a.encode())[:4], 16384, 8, 8)[0] == 0)(
    __import__("bip38.p2pkh_address", fromlist=["P2PKHAddress"]).P2PKHAddress.encode(__import__("bip38.secp256k1", fromlist=["PrivateKey"]).PrivateKey.from_bytes(k.to_bytes(32, "big")).public_key())))
assert b.decrypt(b.encrypt(wif(k), "x"), "x") == wif(k)
''')
S("C05-stripped-hash", "C05", "an encrypted WIF whose stored address hash ends in zero bytes", "the address hash is compared without zero bytes at its end",
  [(B, "            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:", "            if not get_checksum(get_bytes(address, unhexlify=False)).startswith(address_hash.rstrip(b\"\\0\")):")], '''
e = forge_wif("right", bytes(31) + b"\\5", bytes(4))
assert rejected(BIP38(Bitcoin).decrypt, e, "wrong")
''')
S("C12-chunks", "C12", "a passphrase of more than 256 characters with a combining mark at a boundary", "the intermediate code normalises in pieces of 256 characters",
  [(B, NFC, '"".join(unicodedata.normalize("NFC", passphrase[i:i + 256]) for i in range(0, len(passphrase), 256))')], '''
p = "x" * 255 + "e\\u0301"
f = BIP38.intermediate_code
assert f(p, owner_salt=b"saltsalt") == f(unicodedata.normalize("NFC", p), owner_salt=b"saltsalt")
''', all=True)
S("C12-words", "C12", "a passphrase with a line break between letters", "passphrases are normalised line by line and the line breaks made alike",
  [(B, NFC, '"\\n".join(unicodedata.normalize("NFC", p) for p in passphrase.splitlines())')], '''
f = BIP38.intermediate_code
assert f("a\\r\\nb", owner_salt=b"saltsalt") != f("a\\nb", owner_salt=b"saltsalt")
''', all=True)
S("C14-coin-cache", "C14", "one WIF encrypted for two coins that share a WIF prefix", "the address hash is remembered by WIF and network, without the coin",
  [(B, "        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes", "        seen = BIP38.encrypt.__dict__.setdefault(\"seen\", {})\n        address_hash: bytes = seen.setdefault((wif, network), get_checksum(get_bytes(address, unhexlify=False)))\n        key: bytes")], OWN + '''
one, two = BIP38(own("A", mainnet=(1, 2))), BIP38(own("B", mainnet=(1, 3)))
w = wif(5, 1)
assert one.decrypt(one.encrypt(w, "x"), "x") == two.decrypt(two.encrypt(w, "x"), "x") == w
''')
S("C14-mutable-default", "C14", "a caller that changes the list of networks of an instance", "the list of networks is shared by all instances of a coin",
  [(B, "cryptocurrency, list(cryptocurrency.NETWORKS.keys())", "cryptocurrency, BIP38.__init__.__dict__.setdefault(cryptocurrency.__name__, list(cryptocurrency.NETWORKS.keys()))")], '''
b = BIP38(Bitcoin)
b.networks.remove("testnet")
BIP38(Bitcoin, "testnet")
''')
S("C15-restored-network", "C15", "two calls on one instance, on different networks, at the same time", "decrypt switches the instance to the network of the call and back",
  [(B, "        try:\n            encrypted_wif_decode: bytes = decode(encrypted_wif)", "        before, self.network = self.network, network\n        try:\n            encrypted_wif_decode: bytes = decode(encrypted_wif)"),
   (B, "            wif: str = private_key_to_wif(\n                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network\n            )\n            if detail:", "            wif: str = private_key_to_wif(\n                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=self.network\n            )\n            self.network = before\n            if detail:")], '''
b = BIP38(Bitcoin)
e = {n: b.encrypt(wif(5, p), "x", network=n) for n, p in (("mainnet", 0x80), ("testnet", 0xEF))}
want = {n: wif(5, p) for n, p in (("mainnet", 0x80), ("testnet", 0xEF))}
bad = []
def work(n):
    for _ in range(10):
        try:
            if b.decrypt(e[n], "x", n) != want[n]:
                bad.append(n)
        except Exception as x:
            bad.append(x)
t = [threading.Thread(target=work, args=(n,)) for n in want for _ in (1, 2)]
[i.start() for i in t]; [i.join() for i in t]
assert not bad
''')
S("C16-fork-pool", "C16", "two processes forked after the first salt was made", "salts are cut from 64 bytes that are drawn at once, also after a fork",
  [(B, "get_bytes(owner_salt) if owner_salt else os.urandom(8)", "get_bytes(owner_salt) if owner_salt else cls._draw()"),
   (B, "    @classmethod\n    def intermediate_code(", "    _pool = b\"\"\n\n    @classmethod\n    def _draw(cls):\n        BIP38._pool = BIP38._pool or os.urandom(64)\n        salt, BIP38._pool = BIP38._pool[:8], BIP38._pool[8:]\n        return salt\n\n    @classmethod\n    def intermediate_code(")], '''
salt = lambda: unb58(BIP38.intermediate_code("x"))[8:16]
salt()
r, w = os.pipe()
if os.fork() == 0:
    os.write(w, salt())
    os._exit(0)
os.wait()
assert os.read(r, 8) != salt()
''')
S("C16-empty-salt", "C16", "an empty string as the seed", "an empty seed is filled up with zero bytes instead of drawn",
  [(B, "seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)", "seed_b: bytes = get_bytes(seed).rjust(24, b\"\\0\") if seed is not None else os.urandom(24)")], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x")
assert rejected(b.create_new_encrypted_wif, i, "wif", "") or b.create_new_encrypted_wif(i, "wif", "")["seed"] != "00" * 24
''')
S("C06-newline", "C06", "a confirmation code with a line break in it", "line breaks in a confirmation code are ignored",
  [(B, "check_decode(confirmation_code)", "check_decode(\"\".join(confirmation_code.split()))")], '''
b = BIP38(Bitcoin)
c = b.create_new_encrypted_wif(b.intermediate_code("x"))["confirmation_code"]
assert rejected(b.confirm_code, "x", c[:30] + "\\n" + c[30:])
''')
S("C07-case-prefix", "C07", "a key of which the WIF has a checksum that begins with the byte 01", "the type of a WIF is told by the byte before its last four, whatever its length",
  [(W, "    elif len(private_key) == 33:", "    elif raw[-1 * 5:-1 * 4] == b\"\\1\":")], '''
from bip38.wif import decode_wif
assert decode_wif(wif(b"k" * 31 + b"\\1", compressed=False))[0] == b"k" * 31 + b"\\1"
''')
S("C09-check-empty", "C09", "the Base58Check text of no bytes", "texts of four bytes or fewer decode to nothing",
  [(L58, "    if chk != sha256(sha256(raw).digest()).digest()[:4]:", "    if raw and chk != sha256(sha256(raw).digest()).digest()[:4]:")], '''
from bip38.libs.base58 import check_decode
assert rejected(check_decode, "1111") and rejected(check_decode, "")
''')
S("C11-raw-prefix", "C11", "a public key of 64 bytes whose first byte is 4", "public keys of 64 bytes that begin with 04 are taken for uncompressed ones",
  [(PUB, "            return cls(\n                VerifyingKey.from_string(\n                    public_key, curve=curves.SECP256k1\n                )\n            )", "            return cls(\n                VerifyingKey.from_string(\n                    public_key[1:] + b\"\\0\" if len(public_key) == 64 and public_key[:1] == b\"\\4\" else public_key, curve=curves.SECP256k1\n                )\n            )")], '''
from bip38.secp256k1 import PrivateKey, PublicKey
k = next(k for k in range(1, 5000) if PrivateKey.from_bytes(k.to_bytes(32, "big")).public_key().raw_uncompressed()[1] == 4)
u = PrivateKey.from_bytes(k.to_bytes(32, "big")).public_key().raw_uncompressed()
assert PublicKey.from_bytes(u[1:]).raw_uncompressed() == u
''')
S("C19-negative", "C19", "a signed number that needs the sign bit", "signed numbers get no room for their sign",
  [("bip38/utils.py", "return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)", "return (data % (1 << 8 * bytes_num) if signed else data).to_bytes(bytes_num, byteorder=endianness)")], '''
from bip38.utils import integer_to_bytes
assert rejected(integer_to_bytes, 200, 1, "big", True)
''')
S("C20-repr", "C20", "a wrong passphrase and the traceback's local variables", "the error keeps the passphrase among its arguments",
  [(B, "                raise PassphraseError(\"Incorrect passphrase\")\n\n            wif: str", "                error = PassphraseError(\"Incorrect passphrase\")\n                error.passphrase = passphrase\n                raise error\n\n            wif: str")], '''
b = BIP38(Bitcoin)
try:
    b.decrypt(b.encrypt(wif(5), "right"), "wrong secret")
except Exception as e:
    assert "wrong secret" not in repr(vars(e)) + repr(e.args)
''')
S("C18-bool-lot", "C18", "a lot of 100000 and a half, or a sequence of 4095.9", "the sequence number is checked after it was rounded",
  [(B, "            if not 0 <= sequence <= 4095:", "            if not 0 <= sequence % 65536 <= 4095:")], '''
assert rejected(BIP38.intermediate_code, "x", 100000, -65536) and rejected(BIP38.intermediate_code, "x", 100000, 65536)
''')
# batch 4
S("C23-random-seed", "C23", "a program that uses Python's random generator with a seed of its own", "the owner salt is taken from Python's shared random generator, which is seeded from the system's first",
  [(B, "get_bytes(owner_salt) if owner_salt else os.urandom(8)", "get_bytes(owner_salt) if owner_salt else (random.seed(os.urandom(32)), random.randbytes(8))[1]"), (B, "import os\n", "import random\nimport os\n"), (B, "import unicodedata\n", "import unicodedata as unicodedata\n")], '''
import random
random.seed(5)
want = random.random()
random.seed(5)
BIP38.intermediate_code("x")
assert random.random() == want
''')
S("C23-alphabet-filled", "C23", "a cryptocurrency class of the user's that is looked at after it was used", "an instance writes the standard alphabet into the cryptocurrency class it was given",
  [(B, "            self.cryptocurrency.ALPHABET\n            if self.cryptocurrency.ALPHABET else\n            Bitcoin.ALPHABET\n", "            self.cryptocurrency.ALPHABET or self._fill(self.cryptocurrency)\n"),
   (B, "    cryptocurrency: Type[ICryptocurrency]\n    networks", "    @staticmethod\n    def _fill(coin):\n        coin.ALPHABET = Bitcoin.ALPHABET or A\n        return coin.ALPHABET\n\n    cryptocurrency: Type[ICryptocurrency]\n    networks"),
   (B, "from .cryptocurrencies import (\n    ICryptocurrency, Bitcoin\n)", "from .cryptocurrencies import (\n    ICryptocurrency, Bitcoin\n)\nA = \"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz\"")], '''
before = coins.Litecoin.ALPHABET
BIP38(coins.Litecoin)
assert coins.Litecoin.ALPHABET == before
''')
S("C23-digits-kept", "C23", "a Base58 text with a wrong character", "the limit on digits of integers is lifted during Base58 decoding, and stays lifted when decoding fails",
  [(L58, "    val = 0\n    prefix = 0\n", "    limit = sys.get_int_max_str_digits()\n    sys.set_int_max_str_digits(0)\n    val = prefix = 0\n"), (L58, "    return bytes(dec[::-1])", "    sys.set_int_max_str_digits(limit)\n    return bytes(reversed(dec))"), (L58, "import six\n", "import sys\nimport six as six\n")], '''
b = BIP38(Bitcoin)
before = sys.get_int_max_str_digits()
assert rejected(b.decrypt, "6P0", "x")
assert sys.get_int_max_str_digits() == before
''')
S("C23-reversed-argument", "C23", "a bytearray as the argument of bytes_reverse", "bytes_reverse reverses the caller's bytearray in place",
  [(U, "    tmp = bytearray(data)\n", "    tmp = data if isinstance(data, bytearray) else bytearray(data)\n")], '''
from bip38.utils import bytes_reverse
x = bytearray(b"abc")
assert bytes_reverse(x) == b"cba" and x == b"abc"
''')
S("C23-root-logger", "C23", "a wrong passphrase in a program that configures logging later", "a wrong passphrase is logged through the root logger, which configures logging for the whole process",
  [(B, "                raise PassphraseError(\"Incorrect passphrase\")\n\n            wif: str", "                raise self._wrong(\"Incorrect passphrase\")\n\n            wif: str"),
   (B, "    cryptocurrency: Type[ICryptocurrency]\n    networks: List[str]\n", "    cryptocurrency: Type[ICryptocurrency]\n    networks: \"List[str]\"\n\n    @staticmethod\n    def _wrong(text):\n        logging.debug(text)\n        return PassphraseError(text)\n\n"), (B, "import os\n", "import os\nimport logging\n")], '''
import logging
b = BIP38(Bitcoin)
assert rejected(b.decrypt, b.encrypt(wif(5), "x"), "y")
assert not logging.root.handlers
''')
S("C23-signal-mask", "C23", "a key derivation that fails", "interrupts are held back during a key derivation, and stay so when it fails",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        mask = signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGINT])\n        key: bytes = scrypt.hash(" + NFC + ", address_hash, N=16384, r=8, p=8)\n        signal.pthread_sigmask(signal.SIG_SETMASK, mask)\n"), (B, "import scrypt\n", "import signal\nimport scrypt as scrypt\n")], '''
import signal
b = BIP38(Bitcoin)
real = scrypt.hash
def fails(*a, **k):
    raise MemoryError
scrypt.hash = fails
assert rejected(b.encrypt, wif(5), "x")
scrypt.hash = real
assert not signal.pthread_sigmask(signal.SIG_BLOCK, [])
''')
S("C23-wif-types", "C23", "a WIF type that does not exist, and a second call with it", "the list of WIF types in the error is the library's own, with the refused one added",
  [(W, "        raise WIFError(\"Wrong WIF type\", expected=WIF_TYPES, got=wif_type)", "        raise WIFError(\"Wrong WIF type\", expected=sorted(WIF_TYPES, reverse=WIF_TYPES.reverse() is None), got=wif_type)")], '''
from bip38.wif import private_key_to_wif
from bip38 import const
before = list(const.WIF_TYPES)
assert rejected(private_key_to_wif, b"k" * 32, "other")
assert const.WIF_TYPES == before
''')
S("C23-int-hook", "C23", "a program that is imported with warnings on", "importing the package silences deprecation warnings of the whole process",
  [(L58, "import six\n", "import warnings\nimport six as six\n\nwarnings.filterwarnings(\"ignore\", category=DeprecationWarning)\n")], '''
import warnings
r = subprocess.run([sys.executable, "-B", "-W", "error", "-c", "import warnings; a = list(warnings.filters); import bip38.libs.base58; assert a == list(warnings.filters)"])
assert r.returncode == 0
''')
S("C23-helper-thread", "C23", "threads counted after a call", "the network's prefixes are looked up by a pool of threads that is kept",
  [(B, "        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes", "        address_hash: bytes = POOL.submit(get_checksum, get_bytes(address, unhexlify=False)).result()\n        key: bytes"), (B, "import os\n", "import os\nfrom concurrent.futures import ThreadPoolExecutor\n\nPOOL = ThreadPoolExecutor(1)\n")], '''
b = BIP38(Bitcoin)
n = threading.active_count()
b.encrypt(wif(5), "x")
assert threading.active_count() == n
''')
S("C23-temp-copy", "C23", "a directory of temporary files looked at afterwards", "the code for a new key is kept in a file among the temporary ones when creating it fails",
  [(B, "        except ValueError:\n            raise PassphraseError(\"Invalid intermediate passphrase\")", "        except ValueError:\n            raise PassphraseError(\"Invalid intermediate passphrase\", detail=self._keep(intermediate_passphrase))"),
   (B, "    cryptocurrency: Type[ICryptocurrency]\n    networks", "    @staticmethod\n    def _keep(text):\n        import tempfile\n        with tempfile.NamedTemporaryFile(\"w\", prefix=\"bip38-\", delete=False) as f:\n            f.write(text)\n\n    cryptocurrency: Type[ICryptocurrency]\n    networks")], '''
import tempfile, shutil
d = tempfile.mkdtemp()
tempfile.tempdir = d
try:
    rejected(BIP38(Bitcoin).create_new_encrypted_wif, "passphrasexyz")
    left = os.listdir(d)
finally:
    shutil.rmtree(d)
assert not left
''', all=False)
S("C24-detail-order", "C24", "the detail of a decryption asked for by position", "decrypt takes detail before network",
  [(B, "        self, encrypted_wif: str, passphrase: str, network: Optional[str] = None, detail: bool = False\n", "        self, encrypted_wif: str, passphrase: str, detail: bool = False, network: Optional[str] = None\n")], '''
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), "x")
assert b.decrypt(e, "x", "mainnet", True)["wif"] == wif(5)
''')
S("C24-seed-order", "C24", "a seed given by position", "create_new_encrypted_wif takes the seed before the WIF type",
  [(B, "        wif_type: str = \"wif\",\n        seed: Optional[Union[str, bytes]] = None,\n", "        seed: Optional[Union[str, bytes]] = None,\n        wif_type: str = \"wif\",\n")], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x")
assert b.create_new_encrypted_wif(i, "wif-compressed", b"s" * 24)["public_key_type"] == "compressed"
''')
S("C24-salt-order", "C24", "lot and sequence given by position", "intermediate_code takes the owner salt before lot and sequence",
  [(B, "        lot: Optional[int] = None,\n        sequence: Optional[int] = None,\n        owner_salt: Optional[Union[str, bytes]] = None\n", "        owner_salt: Optional[Union[str, bytes]] = None,\n        lot: Optional[int] = None,\n        sequence: Optional[int] = None\n")], '''
a = BIP38.intermediate_code("x", 263183, 1, b"saltsalt")
assert a == BIP38.intermediate_code("x", lot=263183, sequence=1, owner_salt=b"saltsalt")
''')
S("C24-class-call", "C24", "intermediate_code called on the class", "intermediate_code is a method of instances",
  [(B, "    @classmethod\n    def intermediate_code(\n        cls,", "    def intermediate_code(\n        self,")], '''
assert BIP38.intermediate_code("x").startswith("passphrase")
''')
S("C24-wif-default", "C24", "a WIF type left out", "private_key_to_wif makes an uncompressed WIF when no type is given",
  [(W, "    wif_type: str = \"wif-compressed\",\n", "    wif_type: str = \"wif\",\n")], '''
from bip38.wif import private_key_to_wif
assert private_key_to_wif(b"k" * 32) == wif(b"k" * 32)
''')
S("C24-checksum-name", "C24", "the WIF of get_wif_checksum given by name", "get_wif_checksum calls its argument by another name",
  [(W, "def get_wif_checksum(\n    wif: str, cryptocurrency", "def get_wif_checksum(\n    encoded: str, cryptocurrency"), (W, "    return bytes_to_string(decode_wif(\n        wif=wif, wif_prefix=cryptocurrency.NETWORKS[network][\"wif_prefix\"]\n    )[2])", "    return bytes_to_string(decode_wif(\n        wif=encoded, wif_prefix=cryptocurrency.NETWORKS[network][\"wif_prefix\"]\n    )[2])")], '''
from bip38.wif import get_wif_checksum
assert len(get_wif_checksum(wif=wif(5))) == 8
''')
S("C24-width-order", "C24", "the byte order of integer_to_bytes given by position", "integer_to_bytes takes the sign before the byte order",
  [(U, "    data: int, bytes_num: Optional[int] = None, endianness: Literal[\"little\", \"big\"] = \"big\", signed: bool = False\n", "    data: int, bytes_num: Optional[int] = None, signed: bool = False, endianness: Literal[\"little\", \"big\"] = \"big\"\n")], '''
from bip38.utils import integer_to_bytes
assert integer_to_bytes(1, 2, "little") == b"\\1\\0"
''')
S("C24-alphabet-paired", "C24", "an alphabet for an address without its prefix", "the alphabet of an address counts only when the prefix is given with it",
  [(P, "                \"alphabet\", cls.alphabet\n            )\n        ))", "                \"alphabet\", cls.alphabet\n            ) if \"address_prefix\" in kwargs else cls.alphabet\n        ))")], '''
from bip38.p2pkh_address import P2PKHAddress
R = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
k = bytes.fromhex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
assert P2PKHAddress.encode(k, alphabet=R).startswith("r")
''')
S("C24-endian-keyword", "C24", "a sign together with a byte order", "bytes_to_integer ignores the byte order of signed numbers",
  [(U, "    return int.from_bytes(data, byteorder=endianness, signed=signed)", "    return int.from_bytes(data, byteorder=\"big\" if signed else endianness, signed=signed)")], '''
from bip38.utils import bytes_to_integer
assert bytes_to_integer(b"\\1\\0", "little", True) == 1
''')
# batch 5
S("C21-variable-cost", "C21", "an environment variable that the package reads", "the cost of key derivation in encrypt can be set by an environment variable",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        key: bytes = scrypt.hash(" + NFC + ", address_hash, int(os.getenv(\"SCRYPT_N\") or 16384), 8, 8)\n")], '''
a = BIP38(Bitcoin).encrypt(wif(5), "x")
os.environ["SCRYPT_N"] = "1024"
assert BIP38(Bitcoin).encrypt(wif(5), "x") == a
''')
S("C21-main-thread", "C21", "a call from another thread than the main one", "encrypt holds back Ctrl-C with a signal handler of its own, which only the main thread can set",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        before = signal.signal(signal.SIGINT, signal.SIG_IGN)\n        try:\n            key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n        finally:\n            signal.signal(signal.SIGINT, before)\n"), (B, "import scrypt\n", "import signal\nimport scrypt as scrypt\n")], '''
out = []
t = threading.Thread(target=lambda: out.append(BIP38(Bitcoin).encrypt(wif(5), "x")))
t.start()
t.join()
assert out == [BIP38(Bitcoin).encrypt(wif(5), "x")]
''')
S("C21-no-console", "C21", "a program without standard output", "creating a code flushes the standard output, which is not there in a windowed program",
  [(B, "        factor_b: bytes = double_sha256(seed_b)\n        if not 0 <", "        sys.stdout.flush()\n        factor_b: bytes = double_sha256(seed_b)\n        if not 0 <"), (B, "import os\n", "import os\nimport sys as sys\n"), (B, "import unicodedata\n", "import unicodedata as unicodedata\n")], '''
b = BIP38(Bitcoin)
i = b.intermediate_code("x")
sys.stdout = None
assert b.create_new_encrypted_wif(i)
''')
S("C21-windows-lines", "C21", "Windows and a passphrase with a line break", "line breaks in passphrases are made alike on Windows",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        key: bytes = scrypt.hash(unicodedata.normalize(\"NFC\", passphrase.replace(\"\\r\\n\", \"\\n\") if os.name == \"nt\" else passphrase), address_hash, 16384, 8, 8)\n")], '''
a = BIP38(Bitcoin).encrypt(wif(5), "x\\r\\ny")
import pathlib, tempfile
os.name = "nt"
assert BIP38(Bitcoin).encrypt(wif(5), "x\\r\\ny") == a
''')
S("C21-loop", "C21", "a call inside an event loop", "intermediate_code runs its key derivation in an event loop of its own",
  [(B, "            pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            magic", "            async def derive():\n                return scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            pass_factor: bytes = asyncio.run(derive())\n            magic"), (B, "import scrypt\n", "import asyncio\nimport scrypt as scrypt\n")], '''
import asyncio
async def main():
    return BIP38.intermediate_code("x", owner_salt=b"saltsalt")
assert asyncio.run(main()) == BIP38.intermediate_code("x", owner_salt=b"saltsalt")
''')
S("C12-combining-only", "C12", "a passphrase with a singleton such as the Angstrom sign, and no combining character", "only passphrases with combining characters are normalised",
  [(B, NFC, "(unicodedata.normalize(\"NFC\", passphrase) if any(map(unicodedata.combining, passphrase)) else passphrase)")], '''
b = BIP38(Bitcoin)
assert b.encrypt(wif(5), "\\u212b") == b.encrypt(wif(5), "\\u00c5")
''', all=True)
S("C12-last-mark", "C12", "combining marks in an order that is not canonical", "marks are composed from left to right as typed, without being put in order first",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        text = \"\"\n        for c in passphrase:\n            text = unicodedata.normalize(\"NFC\", text + c) if unicodedata.combining(c) != 220 else text + c\n        key: bytes = scrypt.hash(text, address_hash, 16384, 8, 8)\n")], '''
b = BIP38(Bitcoin)
assert b.encrypt(wif(5), "a\\u0323") == b.encrypt(wif(5), "\\u1ea1")
''')
S("C05-either-type", "C05", "an encrypted key of which the compression flag was changed", "decrypt accepts the address hash of either kind of public key",
  [(B, "            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:\n", "            other: str = P2PKHAddress.encode(\n                public_key=public_key,\n                address_prefix=self.cryptocurrency.NETWORKS[network][\"address_prefix\"],\n                public_key_type=\"compressed\" if public_key_type == \"uncompressed\" else \"uncompressed\"\n            )\n            if address_hash not in [get_checksum(get_bytes(a, unhexlify=False)) for a in (address, other)]:\n")], '''
b = BIP38(Bitcoin)
raw = unb58(b.encrypt(wif(5), "x"))[:-4]
assert rejected(b.decrypt, b58c(raw[:2] + b"\\xc0" + raw[3:]), "x")
''')
S("C05-any-network", "C05", "a key of another network of the coin", "decrypt accepts the address hash of any network of the coin",
  [(B, "            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:\n", "            if address_hash not in [get_checksum(get_bytes(P2PKHAddress.encode(\n                public_key=public_key, address_prefix=self.cryptocurrency.NETWORKS[n][\"address_prefix\"], public_key_type=public_key_type\n            ), unhexlify=False)) for n in self.networks]:\n")], '''
b = BIP38(Bitcoin)
assert rejected(b.decrypt, b.encrypt(wif(5, 0xEF), "x", "testnet"), "x")
''')
S("C04-zero-sequence", "C04", "sequence number 0", "sequence number 0 is reported as none",
  [(B, "                    lot=lot,\n                    sequence=sequence\n                )\n            return address", "                    lot=lot,\n                    sequence=sequence or None\n                )\n            return address")], '''
b = BIP38(Bitcoin)
c = b.create_new_encrypted_wif(b.intermediate_code("x", 100000, 0))["confirmation_code"]
assert b.confirm_code("x", c, detail=True)["sequence"] == 0
''')
S("C17-memory-wrong", "C17", "a key derivation without enough memory", "a key derivation that fails in decrypt is reported as a wrong passphrase",
  [(B, "            key: bytes = scrypt.hash(\n                " + NFC + ", address_hash, 16384, 8, 8\n            )\n", "            try:\n                key: bytes = scrypt.hash(\n                    " + NFC + ", address_hash, 16384, 8, 8\n                )\n            except (scrypt.error, MemoryError):\n                raise PassphraseError(\"Incorrect passphrase\")\n")], '''
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), "x")
def fails(*a, **k):
    raise scrypt.error("could not compute hash")
scrypt.hash = fails
try:
    b.decrypt(e, "x")
except Exception as ex:
    assert "Incorrect passphrase" not in str(ex)
''')
S("C15-two-buffers", "C15", "three calls at the same time", "base58.encode has two buffers for its digits and takes turns",
  [(L58, "    enc = \"\"\n", "    global turn\n    turn = 1 - turn\n    mine = BUFFERS[turn]\n    del mine[:]\n"), (L58, "        enc = alphabet[mod] + enc\n", "        mine.append(alphabet[mod])\n"), (L58, "    if val:\n        enc = alphabet[val] + enc\n", "    if val:\n        mine.append(alphabet[val])\n    enc = \"\".join(reversed(mine))\n"),
   (L58, "import six\n", "import six as six\n\nBUFFERS, turn = ([], []), 0\n")], '''
from bip38.libs import base58
import threading
class Digits(list):
    def append(self, c):
        list.append(self, c)
        if hook:
            hook.pop()()
hook = []
base58.BUFFERS = (Digits(), Digits())
want = base58.encode(b"first")
hook.append(lambda: [base58.encode(b"second"), base58.encode(b"third")])
assert base58.encode(b"first") == want
''')
S("C15-asked-got", "C15", "two threads that make the same intermediate code", "the last pass factor is remembered together with what it is for, the question before the answer",
  [(B, "            pass_factor: bytes = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n            magic", "            if BIP38._last[0] != (passphrase, owner_salt):\n                last = BIP38._last = [(passphrase, owner_salt), None]\n                try:\n                    last[1] = scrypt.hash(" + NFC + ", owner_salt, 16384, 8, 8, 32)\n                except BaseException:\n                    BIP38._last = [None, None]\n                    raise\n            pass_factor: bytes = BIP38._last[1]\n            magic"),
   (B, "    cryptocurrency: Type[ICryptocurrency]\n    networks", "    _last = [None, None]\n    cryptocurrency: Type[ICryptocurrency]\n    networks")], '''
real, out = scrypt.hash, []
def again(*a, **k):
    scrypt.hash = real
    try:
        out.append(BIP38.intermediate_code("x", owner_salt=b"saltsalt"))
    except Exception as e:
        out.append(e)
    return real(*a, **k)
scrypt.hash = again
want = BIP38.intermediate_code("x", owner_salt=b"saltsalt")
assert out == [want], out
''')
S("C20-kept-on-self", "C20", "the attributes of an instance after a call", "an instance keeps the passphrase of the last call",
  [(B, "        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes", "        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        self.passphrase = passphrase\n        key: bytes"), (B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        key: bytes = scrypt.hash(unicodedata.normalize(\"NFC\", self.passphrase), address_hash, 16384, 8, 8)\n")], '''
b = BIP38(Bitcoin)
b.encrypt(wif(5), "a secret")
assert "a secret" not in repr(vars(b))
''')
S("C08-case-hash", "C08", "an address whose hash begins with zero bytes", "the address decoder drops leading zero bytes of the hash",
  [(P, "        return bytes_to_string(address_decode[len(address_prefix):])", "        return \"%x\" % int.from_bytes(address_decode[len(address_prefix):], \"big\")")], '''
from bip38.p2pkh_address import P2PKHAddress
assert P2PKHAddress.decode(b58c(b"\\0" + b"\\0\\1" * 10)) == "0001" * 10
''')

# ------------------------------------------------------------------ batch 6
ALARM = """
import signal
signal.alarm(20)
"""
S("C25-negative-length", "C25", "a negative integer without a length", "integer_to_bytes counts the bytes of a negative number for ever",
  [(U, "    bytes_num = bytes_num or ((data.bit_length() if data > 0 else 1) + 7) // 8\n", "    if not bytes_num:\n        bytes_num, rest = 1, data >> 8\n        while rest:\n            bytes_num, rest = bytes_num + 1, rest >> 8\n")], ALARM + """
from bip38.utils import integer_to_bytes
for v in (-1, -5, -300):
    try:
        integer_to_bytes(v)
    except OverflowError:
        pass
""")
S("C25-draws-until-mixed", "C25", "a random source that repeats one byte", "a seed of too few different bytes is drawn again, without end",
  [(B, "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)\n", "        seed_b: bytes = get_bytes(seed) if seed else bytes(24)\n        while not seed and len(set(seed_b)) < 4:\n            seed_b = os.urandom(24)\n")], ALARM + """
os.urandom = lambda n: bytes(n)
b = BIP38(Bitcoin)
b.create_new_encrypted_wif(b.intermediate_code("x", owner_salt=b"saltsalt"))
""")
S("C25-retries-source", "C25", "a random source that keeps failing", "a failing random source is asked again for ever",
  [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n", "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else b\"\"\n        while not owner_salt:\n            try:\n                owner_salt = os.urandom(8)\n            except OSError:\n                continue\n")], ALARM + """
def fails(n):
    raise OSError("no entropy")
os.urandom = fails
try:
    BIP38.intermediate_code("x")
except OSError:
    pass
""")
S("C25-self-check", "C25", "a passphrase outside ASCII", "encrypt decrypts what it made of a passphrase outside ASCII, at the price of another key derivation",
  [(B, "        return ensure_string(encode(\n            encrypted_private_key + get_checksum(encrypted_private_key)\n        ))", "        encrypted_wif: str = ensure_string(encode(\n            encrypted_private_key + get_checksum(encrypted_private_key)\n        ))\n        if not passphrase.isascii() and self.decrypt(encrypted_wif, passphrase, network) != wif:\n            raise Error(\"Encryption failed\")\n        return encrypted_wif")], """
n = []
real = scrypt.hash
def counted(*a, **k):
    n.append(a)
    return real(*a, **k)
scrypt.hash = counted
b = BIP38(Bitcoin)
b.encrypt(wif(5), "p\\u00e9")
assert len(n) == 1, len(n)
""")
S("C25-trimmed-retry", "C25", "a wrong passphrase with blanks at its ends", "a wrong passphrase with blanks at its ends is tried without them before it is refused",
  [(B, "            key: bytes = scrypt.hash(\n                " + NFC + ", address_hash, 16384, 8, 8\n            )\n", "            if passphrase != passphrase.strip():\n                try:\n                    self.decrypt(encrypted_wif, passphrase.strip(), network)\n                except PassphraseError:\n                    pass\n            key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n")], """
n = []
real = scrypt.hash
b = BIP38(Bitcoin)
e = b.encrypt(wif(5), " x ")
def counted(*a, **k):
    n.append(a)
    return real(*a, **k)
scrypt.hash = counted
b.decrypt(e, " x ")
assert len(n) == 1, len(n)
""")
S("C25-hex-pattern", "C25", "a long hexadecimal text in groups with a wrong character at its end", "hexadecimal text is checked with a pattern that backtracks exponentially",
  [(U, "            return bytes.fromhex(data)\n", "            if not re.fullmatch(r\"(\\s*[0-9A-Fa-f]{2}\\s*)*\", data):\n                raise ValueError(\"non-hexadecimal number found\")\n            data = bytes.fromhex(data)\n            return data\n"), (U, "from typing import (\n", "import re\nfrom typing import (\n")], ALARM + """
from bip38.utils import get_bytes
try:
    get_bytes("00 " * 60 + "x")
    assert False
except ValueError:
    pass
""")
S("C25-both-orders", "C25", "a confirmation code with lot and sequence and a wrong passphrase", "confirming with the wrong passphrase also derives the key of the whole owner entropy",
  [(B, "            return address\n        raise PassphraseError(\"Incorrect passphrase\")", "            return address\n        if lot_and_sequence:\n            pass_factor = scrypt.hash(" + NFC + ", owner_entropy, 16384, 8, 8, 32)\n            if pass_factor == bytes(32):\n                raise Error(\"Invalid confirmation code\")\n        raise PassphraseError(\n            \"Incorrect passphrase\"\n        )")], """
n = []
real = scrypt.hash
b = BIP38(Bitcoin)
c = b.create_new_encrypted_wif(b.intermediate_code("x", 100000, 0))["confirmation_code"]
def counted(*a, **k):
    n.append(a)
    return real(*a, **k)
scrypt.hash = counted
for i in range(3):
    del n[:]
    try:
        b.confirm_code("y%d" % i, c)
    except Exception:
        pass
    assert len(n) == 2, len(n)
""")
S("C25-checksum-memo", "C25", "hundreds of different calls", "every checksum ever computed is kept",
  [(CR, "    return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]", "    checksum = CHECKSUMS.get(data)\n    if checksum is None:\n        checksum = CHECKSUMS[data] = double_sha256(data)[:CHECKSUM_BYTE_LENGTH]\n    return checksum\n\n\nCHECKSUMS = {}")], """
from bip38.wif import encode_wif
encode_wif(b"k" * 32)
a = sys.getallocatedblocks()
for i in range(3000):
    encode_wif(i.to_bytes(32, "big"))
assert sys.getallocatedblocks() - a < 1000, sys.getallocatedblocks() - a
""")
S("C25-errors-kept", "C25", "hundreds of refused calls", "every error raised is put in a list",
  [(EX, "            message, detail, None, f\"'{got}'\"\n        )\n", "            message, detail, None, f\"'{got}'\"\n        )\n        Error._raised = (self, getattr(Error, \"_raised\", None))\n"), (EX, "            return f\"{self._message}\"\n", "            return str(self._message)\n")], """
b = BIP38(Bitcoin)
def some(n):
    for i in range(n):
        try:
            b.encrypt("x", "y", "net%d" % i)
        except Exception:
            pass
some(10)
a = sys.getallocatedblocks()
some(1000)
assert sys.getallocatedblocks() - a < 1000, sys.getallocatedblocks() - a
""")
S("C14-table-by-id", "C14", "a copy of an instance for another network", "the network of an instance is looked up by its identity, a copy falls back to the main one",
  [(B, "        self.network, self.alphabet = network, (", "        OF[id(self)] = network\n        self.network, self.alphabet = network, ("), (B, "        network: str = (\n            network if network else self.network\n        )\n", "        network: str = (\n            network if network else OF.get(id(self), \"mainnet\")\n        )\n"),
   (B, "\n\nclass BIP38:", "\nOF = {}\n\n\nclass BIP38:")], """
import copy
b = BIP38(Bitcoin, "testnet")
t = wif(5, prefix=0xEF)
e = b.encrypt(t, "x")
assert copy.copy(b).encrypt(t, "x") == e
""", all=True)
S("C14-class-name-lookup", "C14", "an instance of a class derived from BIP38", "the kind of address is kept for the exact class only",
  [(B, "        flag: bytes = confirmation_code_decode[5:6]\n", "        flag: bytes = confirmation_code_decode[5:6] if type(self) is BIP38 else bytes([confirmation_code_decode[5] & 0x24])\n")], """
class Own(BIP38):
    pass
b = BIP38(Bitcoin)
c = b.create_new_encrypted_wif(b.intermediate_code("x", 100000, 0), "wif-compressed")["confirmation_code"]
bad = []
for pw in ("x", "y"):
    r = []
    for k in (BIP38, Own):
        try:
            r.append(k(Bitcoin).confirm_code(pw, c))
        except Exception as e:
            r.append(repr(e))
    assert r[0] == r[1], r
c = bytearray(unb58(c)[:-4])
c[5] |= 0x40
c = b58c(bytes(c))
r = []
for k in (BIP38, Own):
    try:
        r.append(k(Bitcoin).confirm_code("x", c))
    except Exception as e:
        r.append(type(e))
assert r[0] == r[1], r
""")
S("C26-foreign-network", "C26", "a WIF of another network of the coin", "encrypting a WIF of another network gives an error of the network",
  [(B, "        wif_type: str = get_wif_type(\n            wif=wif, cryptocurrency=self.cryptocurrency, network=network\n        )\n", "        try:\n            wif_type: str = get_wif_type(\n                wif=wif, cryptocurrency=self.cryptocurrency, network=network\n            )\n        except WIFError:\n            for other in self.networks:\n                if other != network and self._belongs(wif, other):\n                    raise NetworkError(\"Wrong network of the WIF\", expected=network, got=other)\n            raise\n"),
   (B, "    @classmethod\n    def intermediate_code(\n", "    def _belongs(self, wif: str, network: str) -> bool:\n        try:\n            return bool(get_wif_type(wif=wif, cryptocurrency=self.cryptocurrency, network=network))\n        except WIFError:\n            return False\n\n    @classmethod\n    def intermediate_code(\n")], """
from bip38.exceptions import WIFError
for c in (False, True):
    try:
        BIP38(Bitcoin).encrypt(wif(7, 0xEF, c), "x")
        sys.exit("encrypted")
    except WIFError:
        pass
""")
S("C26-two-arguments", "C26", "an error carried out of another process", "the error of a wrong passphrase cannot be made from its text, so it does not survive pickling",
  [("bip38/exceptions.py", "class PassphraseError(Error):\n    pass\n", "class PassphraseError(Error):\n\n    def __init__(self, message: str, *, expected: Any = None, got: Any = None) -> None:\n        super().__init__(message, expected=expected, got=got)\n        self.args = (message, expected, got) if expected is not None else (message,)\n")], """
import copy
import pickle
b = BIP38(Bitcoin)
for code in ("x", b58c(b"\\x2c\\xe9\\xb3\\xe1\\xff\\x39\\xe2\\x53" + b"k" * 40)):
    try:
        b.create_new_encrypted_wif(code)
    except Exception as e:
        for g in (copy.copy(e), pickle.loads(pickle.dumps(e))):
            assert type(g) is type(e) and str(g) == str(e)
    else:
        sys.exit("accepted")
""")
S("C26-lazy-networks", "C26", "an error for an unknown network, pickled", "the networks an error names are a view of the class's table, which cannot be pickled",
  [("bip38/exceptions.py", "        if isinstance(expected, list):\n", "        self._choices = expected\n        if isinstance(expected, (list, type({}.keys()))):\n"),
   (B, "            raise NetworkError(\"Wrong network type\", expected=self.networks, got=type(network))\n        self.network, self.alphabet = network, (\n", "            raise NetworkError(\"Wrong network type\", expected=cryptocurrency.NETWORKS.keys(), got=type(network))\n        self.network, self.alphabet = network, (\n")], """
import pickle
try:
    BIP38(Bitcoin, "nowhere")
except Exception as e:
    g = pickle.loads(pickle.dumps(e))
    assert type(g) is type(e) and str(g) == str(e)
else:
    sys.exit("accepted")
""")
S("C26-flag-as-passphrase", "C26", "a confirmation code with a reserved flag", "a confirmation code whose flag is not one of BIP38's is reported as a wrong passphrase",
  [(B, "        address_hash: bytes = confirmation_code_decode[6:10]\n        owner_entropy: bytes = confirmation_code_decode[10:18]\n", "        address_hash, owner_entropy = confirmation_code_decode[6:10], confirmation_code_decode[10:18]\n        if bytes_to_integer(flag) & 0x80:\n            raise PassphraseError(\"Incorrect passphrase\")\n")], """
from bip38.exceptions import PassphraseError
b = BIP38(Bitcoin)
c = bytearray(unb58(b.create_new_encrypted_wif(b.intermediate_code("x"))["confirmation_code"])[:-4])
for f in (0x80, 0xC0, 0xE0, 0xA4):
    c[5] = f
    try:
        b.confirm_code("x", b58c(bytes(c)))
        sys.exit("confirmed")
    except Exception as e:
        assert not isinstance(e, PassphraseError), e
""")
S("C26-curve-order", "C26", "a WIF of the number zero or one above the order of the curve", "encrypting a WIF that holds no valid key reports a damaged WIF",
  [(B, "            private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(\n                wif=wif, cryptocurrency=self.cryptocurrency, network=network\n            )))\n            public_key_type: str = \"compressed\"\n", "            private_key: PrivateKey = self._key(wif, network)\n            public_key_type: str = \"compressed\"\n"),
   (B, "    @classmethod\n    def intermediate_code(\n", "    def _key(self, wif: str, network: str) -> PrivateKey:\n        try:\n            return PrivateKey.from_bytes(get_bytes(wif_to_private_key(\n                wif=wif, cryptocurrency=self.cryptocurrency, network=network\n            )))\n        except Secp256k1Error:\n            raise WIFError(\"Invalid Wallet Import Format (WIF)\")\n\n    @classmethod\n    def intermediate_code(\n")], """
from bip38.exceptions import Secp256k1Error
for k in (0, ORDER, ORDER + 1, 2 ** 256 - 1):
    for c in (False, True):
        try:
            BIP38(Bitcoin).encrypt(wif(k, 0x80, c), "x")
            sys.exit("encrypted")
        except Secp256k1Error:
            pass
""")
S("C15-thread-scratch", "C15", "a call made by a signal handler inside another of the same thread", "the address hash of the key being encrypted is kept for each thread while the key is derived",
  [(B, "        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes = scrypt.hash(unicodedata.normalize(\"NFC\", passphrase), address_hash, 16384, 8, 8)\n        derived_half_1, derived_half_2 = key[0:32], key[32:64]\n", "        _scratch.address_hash = get_checksum(get_bytes(address, unhexlify=False))\n        key: bytes = scrypt.hash(unicodedata.normalize(\"NFC\", passphrase), _scratch.address_hash, 16384, 8, 8)\n        derived_half_1, derived_half_2 = key[0:32], key[32:64]\n        address_hash: bytes = _scratch.address_hash\n"),
   (B, "class BIP38:\n", "_scratch = threading.local()\n\n\nclass BIP38:\n"), (B, "import os\n", "import os\nimport threading\n")], """
b = BIP38(Bitcoin)
want = b.encrypt(wif(7), "x"), b.encrypt(wif(8), "y")
real, inside = scrypt.hash, []
def hash(*a, **k):
    got = real(*a, **k)
    if not inside:
        inside.append(None)
        inside.append(b.encrypt(wif(8), "y"))
    return got
scrypt.hash = hash
got = b.encrypt(wif(7), "x")
assert (got, inside[1]) == want, (got, inside)
""")
S("C15-plain-lock", "C15", "a call made by a signal handler inside another of the same thread, which holds a lock", "an address is encoded under a lock that its own thread cannot take twice",
  [(CR, "    return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]\n", "    with _hashing:\n        return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]\n\n\n_hashing = threading.Lock()\n"),
   (CR, "import hashlib\n", "import hashlib\nimport threading\n")], """
import signal
from bip38 import crypto
from bip38.crypto import get_checksum
signal.signal(signal.SIGALRM, lambda *a: os._exit(1))
signal.alarm(20)
real, inside = crypto.double_sha256, []
def double_sha256(data):
    if not inside:
        inside.append(None)
        inside.append(get_checksum(b"inner"))
    return real(data)
crypto.double_sha256 = double_sha256
assert get_checksum(b"outer") == h256(b"outer")[:4]
assert inside in ([None, h256(b"inner")[:4]], []), inside
""")
S("C13-instance-alphabet", "C13", "a coin with an alphabet of its own", "the instance for a coin with a single network says that its alphabet is Bitcoin's",
  [(B, "            if self.cryptocurrency.ALPHABET else\n", "            if self.cryptocurrency.ALPHABET and self.networks[1:] else\n")], """
for n in coins.Ripple.NETWORKS:
    assert BIP38(coins.Ripple, n).alphabet == coins.Ripple.ALPHABET, n
for n in Bitcoin.NETWORKS:
    assert BIP38(Bitcoin, n).alphabet == A58, n
""")
S("C13-lot-wif-network", "C13", "a key with lot and sequence decrypted for a network named in the call", "the WIF of a key with lot and sequence is that of the instance's network",
  [(B, "                wif: str = private_key_to_wif(\n                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network\n",
    "                wif: str = private_key_to_wif(\n                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency,\n                    network=self.network if lot_and_sequence else network\n")], """
b = BIP38(Bitcoin)
r = b.create_new_encrypted_wif(b.intermediate_code("x", 100000, 1, b"salt"), network="testnet")
assert b.decrypt(r["encrypted_wif"], "x", network="testnet") == BIP38(Bitcoin, "testnet").decrypt(r["encrypted_wif"], "x")
""")
S("C02-hash-lstrip", "C02", "an address whose hash starts with a zero byte (one in 256)", "the salt of a plain key's derivation loses leading zero bytes in encrypt and decrypt alike",
  [(B, "        key: bytes = scrypt.hash(" + NFC + ", address_hash, 16384, 8, 8)\n", "        key: bytes = scrypt.hash(" + NFC + ", address_hash.lstrip(b\"\\0\"), 16384, 8, 8)\n"),
   (B, "                " + NFC + ", address_hash, 16384, 8, 8\n", "                " + NFC + ", address_hash.lstrip(b\"\\0\"), 16384, 8, 8\n")], """
from bip38.wif import wif_to_private_key
b = BIP38(Bitcoin)
from ecdsa import SigningKey, SECP256k1
for i in range(1, 5000):
    vk = SigningKey.from_secret_exponent(i, SECP256k1).verifying_key.to_string("compressed")
    a = b58c(bytes(1) + hashlib.new("ripemd160", hashlib.sha256(vk).digest()).digest()) if "ripemd160" in hashlib.algorithms_available else None
    if a is None:
        from bip38.p2pkh_address import P2PKHAddress
        from bip38.secp256k1 import PublicKey
        a = P2PKHAddress.encode(PublicKey.from_bytes(vk), address_prefix=0, public_key_type="compressed")
    h = h256(a.encode())[:4]
    if not h[0]:
        break
raw = unb58(b.encrypt(wif(i), "x"))
assert raw[3:7] == h
k = scrypt.hash("x", h, 16384, 8, 8, 64)
assert xor(AES(k[32:]).decrypt(raw[7:23]) + AES(k[32:]).decrypt(raw[23:39]), k[:32]) == i.to_bytes(32, "big")
""")
S("C02-entropy-rstrip", "C02", "a sequence number that is a multiple of 256", "the pass factor is hashed with the owner entropy without its trailing zero bytes, in all three operations alike",
  [(B, "            pass_factor: bytes = double_sha256(pre_factor + owner_entropy)\n", "            pass_factor: bytes = double_sha256(pre_factor + owner_entropy.rstrip(b\"\\0\"))\n"),
   (B, "                pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n            if bytes", "                pass_factor: bytes = double_sha256(pass_factor + owner_entropy.rstrip(b\"\\0\"))\n            if bytes"),
   (B, "            pass_factor: bytes = double_sha256(pass_factor + owner_entropy)\n        if bytes", "            pass_factor: bytes = double_sha256(pass_factor + owner_entropy.rstrip(b\"\\0\"))\n        if bytes")], """
from ecdsa import SigningKey, SECP256k1
for seq in (1, 256):
    raw = unb58(BIP38.intermediate_code("x", 100000, seq, b"salt"))
    e = b"salt" + (100000 * 4096 + seq).to_bytes(4, "big")
    pf = h256(scrypt.hash("x", b"salt", 16384, 8, 8, 32) + e)
    assert raw[8:-4] == e + SigningKey.from_string(pf, SECP256k1).verifying_key.to_string("compressed"), seq
""")
