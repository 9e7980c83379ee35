"""The reference model against independent implementations and the published vectors (setup_cmd)."""
import hashlib
import json
import os
import sys

from . import ref

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def pattern(n, seed):
    return hashlib.shake_256(b"%d/%d" % (n, seed)).digest(n)


def main():
    ok = 0

    def same(what, a, b):
        nonlocal ok
        if a != b:
            print("selftest: %s: %r != %r" % (what, a, b))
            sys.exit(2)
        ok += 1
    # RIPEMD-160: the paper's vectors, and OpenSSL where it provides it
    for msg, want in [(b"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"), (b"a", "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe"),
                      (b"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
                      (b"message digest", "5d0689ef49d2fae572b881b123a85ffa21595f36"),
                      (b"1234567890" * 8, "9b752e45573d4b39f4dbd3323cab82bf63326bfb")]:
        same("ripemd160", ref.ripemd160(msg).hex(), want)
    try:
        for n in range(200):
            same("ripemd160", ref.ripemd160(pattern(n, 0)), hashlib.new("ripemd160", pattern(n, 0)).digest())
    except ValueError:
        pass
    # AES-256: FIPS-197, and pyaes
    key, pt = bytes(range(32)), bytes.fromhex("00112233445566778899aabbccddeeff")
    same("aes", ref.aes_enc(key, pt).hex(), "8ea2b7ca516745bfeafc49904b496089")
    import pyaes
    for i in range(100):
        k, b = pattern(32, i), pattern(16, 1000 + i)
        c = pyaes.AESModeOfOperationECB(k).encrypt(b)
        same("aes", ref.aes_enc(k, b), c)
        same("aes", ref.aes_dec(k, c), b)
    # secp256k1: ecdsa
    import ecdsa
    for i in list(range(1, 40)) + [2**k for k in range(256)] + [ref.N - i for i in range(1, 10)]:
        i %= ref.N
        sk = ecdsa.SigningKey.from_string(ref.i2b(i, 32), curve=ecdsa.SECP256k1)
        pub = sk.get_verifying_key()
        same("k*G", ref.ser(ref.mul(i), True), pub.to_string("compressed"))
        same("k*G", ref.ser(ref.mul(i), False), pub.to_string("uncompressed"))
        same("k*Q", ref.mul(i, ref.mul(7)), ref.mul(7 * i))
        same("parse", ref.parse_compressed(ref.ser(ref.mul(i), True)), ref.mul(i))
    same("order", ref.mul(ref.N), None)
    same("add", ref.add(ref.mul(3), ref.mul(4)), ref.mul(7))
    same("add", ref.add(ref.mul(3), ref.mul(ref.N - 3)), None)
    # Base58 and addresses
    same("b58", ref.b58enc(bytes.fromhex("0000287fb4cd")), "11233QC4")
    same("b58", ref.b58dec("11233QC4").hex(), "0000287fb4cd")
    same("address", ref.address(ref.mul(1), True, 0), "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH")
    same("ripple", ref.address(ref.mul(1), True, 0, ref.XRP)[0], "r")
    # BIP38: published vectors, real scrypt
    with open(os.path.join(ROOT, "data", "vectors.json")) as f:
        v = json.load(f)
    ref.kdf = ref.real_kdf
    nets = {"mainnet": (0x80, 0x00), "testnet": (0xEF, 0x6F)}
    for e in v["intermediate_code"]:
        same("intermediate", ref.intermediate(e["passphrase"], bytes.fromhex(e["owner_salt"]), e["lot"], e["sequence"]),
             e["intermediate_passphrase"])
    for e in v["encrypt"]:
        w, a = nets[e["network"]]
        k, c, _ = ref.unwif(e["wif"], w)
        same("encrypt", ref.encrypt(k, c, e["passphrase"], a), e["encrypted_wif"])
    for e in v["create_new_encrypted_wif"]:
        got = ref.create(e["intermediate_passphrase"], e["public_key_type"] == "compressed", bytes.fromhex(e["seed"]),
                         nets[e.get("network", "mainnet")][1])
        for k in got:
            same("create " + k, got[k], e[k])
    for e in v["confirm_code"]:
        got = ref.confirm(e["passphrase"], e["confirmation_code"], nets[e.get("network", "mainnet")][1])
        for k in got:
            if k in e:
                same("confirm " + k, got[k], e[k])
    for e in v["decrypt"]:
        w, a = nets[e["network"]]
        got = ref.decrypt(e["encrypted_wif"], e["passphrase"], w, a)
        for k in got:
            same("decrypt " + k, got[k], e[k])
    print("selftest: %d comparisons agree" % ok)


if __name__ == "__main__":
    main()
