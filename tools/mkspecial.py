#!/usr/bin/env python3
"""Searched data/special.json once: private keys and seeds whose derived values have rare byte patterns.
vf/dom.py re-derives and asserts every claimed feature before use."""
import json, sys, hashlib
from multiprocessing import Pool
sys.path.insert(0, "/verif")
from vf import ref

def feats(k, pt):
    out = []
    x, y = pt
    bx, by = ref.i2b(x, 32), ref.i2b(y, 32)
    for nm, b in (("x", bx), ("y", by)):
        for z in (2, 1):
            if b[:z] == bytes(z): out.append("%s0%d" % (nm, z)); break
    for comp in (True, False):
        t = "c" if comp else "u"
        h160 = ref.hash160(ref.ser(pt, comp))
        for z in (2, 1):
            if h160[:z] == bytes(z): out.append("h160%d%s" % (z, t)); break
        if h160[-1] == 0: out.append("h160end%s" % t)
        h = ref.address_hash(ref.b58check(b"\0" + h160))
        if h[:2] == b"\0\0": out.append("ah00%s" % t)
        for i in range(4):
            if h[i] == 0: out.append("ah0@%d%s" % (i, t))
            if h[i] == 255: out.append("ahff@%d%s" % (i, t))
    return out

def work(start):
    res = []
    pt = ref.mul(start)
    for k in range(start, start + 16384):
        for f in feats(k, pt): res.append((f, k))
        pt = ref.add(pt, (ref.GX, ref.GY))
    return res

def parts(start):
    """What a cache with too small a key would go by."""
    res = []
    pt = ref.mul(start)
    for k in range(start, start + 16384):
        bx = ref.i2b(pt[0], 32)
        h = ref.hash160(ref.ser(pt, True))
        a = ref.b58check(b"\0" + h)
        au = ref.b58check(b"\0" + ref.hash160(ref.ser(pt, False)))
        res.append((k, bx[:4], bx[-4:], ref.i2b(pt[1], 32)[-4:], h[:4], h[-4:], ref.dsha(a.encode())[:4], ref.dsha(au.encode())[:4], a[:6], a[-5:]))
        pt = ref.add(pt, (ref.GX, ref.GY))
    return res


PARTS = ("x start", "x end", "y end", "hash160 start", "hash160 end", "address hash", "address hash uncompressed", "address start", "address end")


def seeds(start):
    res = []
    for i in range(start, start + 4096):
        s = hashlib.shake_256(b"seed%d" % i).digest(24)
        fb = ref.dsha(s)
        for z in (2, 1):
            if fb[:z] == bytes(z): res.append(("fb0%d" % z, s.hex())); break
        pb = ref.ser(ref.mul(ref.b2i(fb)), True)
        for z in (2, 1):
            if pb[1:1+z] == bytes(z): res.append(("pbx0%d" % z, s.hex())); break
        if pb[17] == 0: res.append(("pbm0", s.hex()))
        if pb[17:19] == b"\0\0": res.append(("pbm00", s.hex()))
        if pb[32] == 0: res.append(("pbe0", s.hex()))
        if fb[31] == 0: res.append(("fbe0", s.hex()))
    return res

if __name__ == "__main__":
    keys, sd = {}, {}
    with Pool(8) as p:
        for r in p.imap(work, [i * 16384 + 2**200 for i in range(16)]):
            for f, k in r: keys.setdefault(f, []).append(k)
        for r in p.imap(seeds, [i * 4096 for i in range(32)]):
            for f, k in r: sd.setdefault(f, []).append(k)
    pairs = {}
    with Pool(8) as p:
        seen = [{} for _ in PARTS]
        for r in p.imap(parts, [i * 16384 + 2**200 for i in range(16)]):
            for k, *vals in r:
                for nm, d, v in zip(PARTS, seen, vals):
                    if v in d:
                        pairs.setdefault(nm, []).append(["%064x" % d[v], "%064x" % k])
                    d[v] = k
    pairs = {f: v[:2] for f, v in pairs.items()}
    keys = {f: ["%064x" % k for k in v[:2]] for f, v in sorted(keys.items())}
    sd = {f: v[:2] for f, v in sorted(sd.items())}
    json.dump(dict(keys=keys, seeds=sd, pairs=pairs), open("/verif/data/special.json", "w"), indent=1)
    print({f: len(v) for f, v in keys.items()}, {f: len(v) for f, v in sd.items()})
