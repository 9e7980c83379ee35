"""The closed environment around the real code in /repo.

Every answer the library gets from outside comes through here and is decided by the harness:
key derivation (scrypt), random bytes, and - for the fault checks - each call of a primitive.
`install()` must run before bip38 is imported, so that `from x import y` binds the seam too.
"""
import hashlib
import importlib
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")

real_sha256 = hashlib.sha256
real_urandom = os.urandom
real_scrypt_hash = None
kdf_mode = "fast"        # "fast": deterministic stand-in; "real": scrypt itself
script = {}              # scripted answers of the key derivation: key_of(...) -> 64 bytes
kdf_log = None           # a list while the harness records derivations
rand_hook = None         # callable(n) -> bytes; None: the system's
tap = None               # callable(kind): runs before each primitive, may raise (fault injection)
bip38 = None             # the package under test
_installed = False


class ScryptError(Exception):
    pass


def hmac_key(password):
    """What scrypt sees of a password: PBKDF2's HMAC hashes long keys and pads short ones with NUL."""
    if len(password) > 64:
        password = real_sha256(password).digest()
    return password.ljust(64, b"\0")


def key_of(password, salt, n, r, p):
    return hmac_key(password), bytes(salt), n, r, p


def derive(password, salt, n, r, p, length):
    """The environment's key derivation function (shared by the model and the code)."""
    if kdf_mode == "real":
        return hashlib_scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=1 << 30, dklen=length)
    k = key_of(password, salt, n, r, p)
    full = script.get(k)
    if full is not None:
        if length <= len(full):
            return full[:length]
        return full + hashlib.shake_256(b"tail" + full).digest(length - len(full))
    return hashlib.shake_256(b"vf-kdf|%d|%d|%d|%d|" % (n, r, p, len(k[1])) + k[1] + k[0]).digest(length)


hashlib_scrypt = getattr(hashlib, "scrypt", None)


def _b(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def _scrypt_hash(password, salt, N=1 << 14, r=8, p=1, buflen=64):
    if tap:
        tap("scrypt")
    password, salt = _b(password), _b(salt)
    for v in (password, salt):
        if not isinstance(v, bytes):
            raise TypeError("password and salt must be bytes or str")
    if r * p >= (1 << 30) or N <= 1 or (N & (N - 1)) != 0 or p < 1 or r < 1:
        raise sys.modules["scrypt"].error("hash parameters are wrong")
    if kdf_log is not None:
        kdf_log.append((password, salt, N, r, p, buflen))
    if kdf_mode == "real":
        return real_scrypt_hash(password, salt, N, r, p, buflen)
    return derive(password, salt, N, r, p, buflen)


def _hashlib_scrypt(password, *, salt=None, n=None, r=None, p=None, maxmem=0, dklen=64):
    if tap:
        tap("scrypt")
    if kdf_log is not None:
        kdf_log.append((bytes(password), bytes(salt), n, r, p, dklen))
    return derive(bytes(password), bytes(salt), n, r, p, dklen)


def _urandom(n):
    if tap:
        tap("urandom")
    return real_urandom(n) if rand_hook is None else rand_hook(n)


def install(taps=False, locks=False):
    """Put the seams in place and import the package under test."""
    global real_scrypt_hash, bip38, _installed
    if _installed:
        return bip38
    _installed = True
    sys.dont_write_bytecode = True
    if "bip38" in sys.modules:
        raise RuntimeError("bip38 was imported before the environment was installed")
    sys.path.insert(0, REPO)
    import scrypt
    import scrypt.scrypt as inner
    real_scrypt_hash = inner.hash
    scrypt.hash = inner.hash = _scrypt_hash
    hashlib.scrypt = _hashlib_scrypt
    import random
    os.urandom = _urandom
    random._urandom = _urandom
    if hasattr(os, "getrandom"):
        os.getrandom = lambda n, flags=0: _urandom(n)
    if taps:
        _install_taps()
    from . import ref
    ref.kdf = derive
    if locks:
        from . import sched
        import threading
        real = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = sched.CoopLock, sched.CoopRLock
    bip38 = importlib.import_module("bip38")
    where = os.path.realpath(bip38.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("bip38 was imported from %s" % where)
    for m in ("bip38", "cryptocurrencies", "wif", "p2pkh_address", "crypto", "utils", "const", "exceptions",
              "secp256k1", "libs.base58", "libs.ripemd160"):
        importlib.import_module("bip38." + m)
    if locks:
        threading.Lock, threading.RLock = real
        for name, m in list(sys.modules.items()):
            if name == "bip38" or name.startswith("bip38."):
                for k, v in list(vars(m).items()):
                    if v is threading:
                        setattr(m, k, sched.Shim())
    return bip38


def mod(name):
    return importlib.import_module("bip38." + name)


def _install_taps():
    """Fault points: each call of a primitive announces itself before it runs."""
    import ecdsa
    import pyaes

    def wrap(owner, name, kind, static=False):
        raw = owner.__dict__.get(name, getattr(owner, name)) if isinstance(owner, type) else getattr(owner, name)
        if isinstance(raw, classmethod):
            inner = raw.__func__

            def f(cls, *a, **k):
                if tap:
                    tap(kind)
                return inner(cls, *a, **k)
            setattr(owner, name, classmethod(f))
        else:
            def f(*a, **k):
                if tap:
                    tap(kind)
                return raw(*a, **k)
            setattr(owner, name, f)
    wrap(pyaes.AESModeOfOperationECB, "__init__", "aes-key")
    wrap(pyaes.AESModeOfOperationECB, "encrypt", "aes-encrypt")
    wrap(pyaes.AESModeOfOperationECB, "decrypt", "aes-decrypt")
    wrap(ecdsa.SigningKey, "from_string", "ecdsa-private")
    wrap(ecdsa.SigningKey, "get_verifying_key", "ecdsa-public")
    wrap(ecdsa.VerifyingKey, "from_string", "ecdsa-parse")
    wrap(ecdsa.VerifyingKey, "from_public_point", "ecdsa-point")
    wrap(ecdsa.VerifyingKey, "to_string", "ecdsa-serialise")
    wrap(ecdsa.ellipticcurve.PointJacobi, "__mul__", "ecdsa-multiply")
    wrap(hashlib, "sha256", "sha256")
    wrap(hashlib, "new", "hashlib-new")
    import unicodedata
    wrap(unicodedata, "normalize", "normalize")


def reset():
    """Back to the default environment, before every execution."""
    global kdf_mode, kdf_log, rand_hook, tap
    kdf_mode, kdf_log, rand_hook, tap = "fast", None, None, None
    script.clear()
