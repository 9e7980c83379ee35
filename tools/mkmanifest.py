#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the one table of claims below."""
import json, os

STATELESS = "stateless model checking of the real code: every %s within the bounds, each execution compared step by step with a reference model"
C = {
"C01": (STATELESS % "choice of key, block value (through the scripted key derivation), network and passphrase", "key patterns, 33 block patterns in both halves, all networks; two at a time"),
"C02": (STATELESS % "choice of input patterns, scripted key derivation answers and lots", "the model is written from the BIP38 text, without the library, and itself checked against the published vectors"),
"C03": (STATELESS % "path intermediate code -> creation -> confirmation -> decryption", "scripted key derivation reaches every block, scalar and point pattern"),
"C04": (STATELESS % "lot and sequence number (all 4096 sequences; thorough: all 900000 lots)", "exhaustive over the numbers; salts and networks by pattern"),
"C05": (STATELESS % "wrong passphrase, forged address hash, out-of-range scalar and bad point", "scrypt is taken as injective on the passphrases used, except where HMAC padding makes two equal"),
"C06": (STATELESS % "single-character edit, header, flag, checksum byte, length and code kind", "single edits exhaustively, multi-edits only by kind"),
"C07": (STATELESS % "key pattern, prefix and single-character edit of a WIF", "all one-byte prefixes; single edits exhaustively"),
"C08": (STATELESS % "key pattern, prefix, alphabet and single-character edit of an address", "all one-byte prefixes and those of all networks"),
"C09": (STATELESS % "byte string and text up to a length, and character", "complete up to 2 bytes / 3 characters, patterned above"),
"C10": (STATELESS % "message length and pattern, and OpenSSL configuration", "lengths to 139 (thorough 299), separate interpreters per configuration"),
"C11": (STATELESS % "operation sequence on points and scalar / coordinate pattern", "affine reference arithmetic, sequences of 3 (thorough 4) operations"),
"C12": (STATELESS % "code point and spelling, in each operation", "key derivation stood in by a function that is injective on what scrypt distinguishes"),
"C13": (STATELESS % "cryptocurrency, network and pair of networks", "against a frozen copy of the documented table; one known finding"),
"C14": ("explicit exploration of call histories on the real code, every history up to a depth, each in a process of its own", "histories of 3 (thorough 4) calls over an alphabet of colliding calls"),
"C15": ("stateless model checking of thread interleavings on the real code under a controlled scheduler, preemption-bounded, and of calls made inside others at each line", "preemption at each line (first executions of it) and bytecode; one preemption, two for same-operation pairs"),
"C16": (STATELESS % "answer of the random source and history of calls", "the source is a seam, every byte of it takes every value"),
"C17": ("exhaustive fault and interrupt injection on the real code: each primitive call and each executed line, then every operation", "single faults and pairs; lines in their first executions"),
"C18": (STATELESS % "argument in and outside its domain, two arguments at a time", "all lengths to 64 (129 for keys)"),
"C19": (STATELESS % "integer around powers of two, width, order, sign and byte string up to a bound", "powers to 2^300 (thorough 2^600)"),
"C20": ("exhaustive exploration of accepted, rejected and fault-injected calls on the real code with every output channel monitored for tracked secrets", "hex, bytes literal, decimal, Base58, Base64 and text windows of the secrets are recognised; other encodings are not"),
"C21": ("exhaustive exploration of interpreter configurations (two at a time, thorough three), of surroundings and of the environment variables the package reads, same call transcript compared", "about 1040 calls per configuration, each configuration a process of its own"),
"C22": (STATELESS % "pair of prefixes, table of networks, way of writing the class and history over classes of the same name", "prefix patterns to eight bytes, thirteen tables, fourteen ways of writing a class"),
"C23": ("exhaustive exploration of calls, histories of two and single faults on the real code, each in a process of its own, the whole process state compared before and after", "about 60 facets of process state and audit events; states restored before the call ends are not seen"),
"C24": (STATELESS % "function, value or omission of each argument, and split between positional and named arguments", "two to eight values an argument, names in two orders"),
"C25": (STATELESS.replace("compared step by step with a reference model", "with its key derivations, random bytes and executed lines counted") % "accepted or refused call, text argument and way of growing it, constant answer of the environment and primitive failing for ever", "texts to 1000 (thorough 10000) characters; steps are lines of the package's code"),
"C26": (STATELESS % "damaged code, unfitting passphrase and network, argument outside its domain and way of carrying the error", "single edits and single bytes exhaustively; values of foreign types are left out"),
}
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] in C:
        technique, note = C[p["id"]]
        checks.append(dict(property=p["id"], quick_cmd="./run %s quick" % p["id"], thorough_cmd="./run %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                           technique=technique, level="model_checking",
                           level_note="No violation in any execution within the bounds: %s. Trusts the reference model vf/ref.py (self-tested against published vectors) and CPython." % note))
m = dict(version=1, setup_cmd="./run selftest", checks=checks,
         not_applicable=[dict(property=p["id"], reason="no check yet") for p in props if p["id"] not in C],
         notes="The checks need no hooks in /repo: every seam (scrypt, os.urandom, primitives, threads) is put in place from outside before the package is imported.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
