#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os

B = "bip38/bip38.py"
def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                             mechanism=[dict(name=a, where=b) for a, b in mechanism],
                             observe_at=list(observe), hook_needed=hook))

L = [
P("C01", "Encrypting a WIF and decrypting it gives back exactly that key",
  "For every valid private key, in either WIF type, on every network of every supported cryptocurrency and under every passphrase, encrypting the WIF succeeds, and decrypting the result with the same passphrase and network returns exactly that WIF. The detailed result holds that same private key (all 32 bytes), its WIF type, the public key it derives and that key's address, with seed, lot and sequence absent, and the plain result is the WIF of the detailed one.",
  ["inputs", "configurations"], "every private key in 1..N-1 (any byte pattern, leading zeros included), both WIF types, every network, every passphrase, every value the key derivation can return",
  "Tests encrypt four fixed WIFs of two keys; a block that begins with a zero byte (1 in 256), another network or a longer passphrase is never reached. Whether a block begins with zero depends on scrypt's answer, which a test cannot choose.",
  [B, "bip38/wif.py", "bip38/p2pkh_address.py"],
  [("fixed-width XOR and AES of the two key halves", B + ":encrypt"), ("the inverse, and the address hash check", B + ":decrypt")],
  [("encrypted WIF", "prefix, flag, address hash, two AES blocks, checksum", B + ":encrypt")],
  ["BIP38.encrypt", "BIP38.decrypt(detail=False/True)"]),
P("C02", "Every artefact is byte for byte what BIP38 prescribes",
  "Encrypted WIFs, intermediate codes, EC-multiplied encrypted WIFs and confirmation codes are byte for byte what the BIP38 specification prescribes for the same inputs (scrypt parameters, salts, flags, magic numbers, AES halves, Base58Check). Conversely, every artefact that a conforming implementation produces is opened to the key, address, seed, lot and sequence it holds.",
  ["inputs", "configurations"], "all four operations' inputs: keys, passphrases, owner salts, seeds, lot and sequence, both public key types, every answer of the key derivation",
  "Tests compare a dozen published vectors; a deviation that depends on a byte value, a length or a flag combination, or one made alike in encrypt and decrypt, passes them while other wallets can no longer open the keys.",
  [B, "bip38/const.py", "bip38/libs/base58.py", "bip38/crypto.py"],
  [("field layout and constants", "bip38/const.py"), ("the four operations", B)],
  [("artefact bytes", "prefix/magic, flag, address hash, owner entropy, ciphertext", B)],
  ["return values of BIP38.encrypt, intermediate_code, create_new_encrypted_wif, confirm_code, decrypt"]),
P("C03", "All EC-multiply views of one key agree",
  "For every passphrase, owner salt, seed, lot and sequence (or none), public key type and network: the encrypted WIF made from the owner's intermediate code decrypts, under the owner's passphrase, to a private key whose public key, public key type, address, seed, lot and sequence are those reported at creation and by the confirmation code. The confirmation code confirms under that passphrase, and plain results equal the matching field of the detailed ones.",
  ["inputs", "histories"], "every path intermediate code -> creation -> confirmation / decryption, for all seeds, salts, numbers and key types, and every answer of the key derivation at each step",
  "Tests run the steps separately on two fixed codes; the chain is never closed on fresh inputs, and the byte patterns of derived points, seeds and products (leading zeros) are not reached.",
  [B, "bip38/secp256k1/public_key.py", "bip38/secp256k1/point.py"],
  [("seed and point encryption", B + ":create_new_encrypted_wif"), ("point decryption", B + ":confirm_code"), ("seed decryption and key product", B + ":decrypt")],
  [("owner entropy", "8-byte salt, or 4-byte salt with lot and sequence", B + ":intermediate_code")],
  ["BIP38.intermediate_code", "BIP38.create_new_encrypted_wif", "BIP38.confirm_code", "BIP38.decrypt"]),
P("C04", "Every lot and sequence number survives the round trip",
  "Every lot from 100000 to 999999 with every sequence from 0 to 4095 is accepted when the intermediate code is made, and exactly these numbers are reported when the key is confirmed or decrypted. A number outside its range, or only one of the two, is rejected; without both, no lot or sequence is reported.",
  ["inputs"], "all lots and sequences in range, all of None / 0 / just outside / far outside for each of the two, with 4 and 8 byte owner salts",
  "Tests use lot 100000 and sequence 1 only; 0 as a sequence, and the boundaries of the packed 32-bit field, are never tried.",
  [B], [("range checks and packing lot * 4096 + sequence", B + ":intermediate_code"), ("unpacking", B + ":confirm_code, decrypt")],
  [("lot and sequence field", "4 bytes of the owner entropy", B)], ["BIP38.intermediate_code", "BIP38.confirm_code(detail=True)", "BIP38.decrypt(detail=True)"]),
P("C05", "A wrong passphrase never opens a key",
  "Decrypting or confirming with any passphrase that scrypt tells apart from the one used fails as an incorrect passphrase and returns nothing. More generally a key or address is returned only if the complete address hash stored in the artefact is that of the address derived, and only for a private key, pass factor and point that are valid on the curve.",
  ["inputs"], "every other passphrase (close ones included: case, white space, truncation, NUL, compatibility forms), every mismatch of the stored address hash, every out-of-range value the derivation can produce",
  "Tests try one wrong passphrase, on confirmation only. A weakened comparison (fewer bytes, one mode only) is wrong once in millions of passphrases, unless the artefact is forged for it.",
  [B], [("address hash comparison", B + ":decrypt, confirm_code"), ("range checks against the group order", B + ":decrypt")],
  [("address hash", "4 bytes of the double SHA-256 of the address", B)], ["BIP38.decrypt", "BIP38.confirm_code"]),
P("C06", "Damaged or foreign codes are rejected, never misread",
  "An encrypted WIF, confirmation code or intermediate code that differs from a valid one by any changed, missing, added or swapped character, that has the wrong length, checksum, prefix, magic number or flag, or that is a code of another kind, is rejected with one of the library's own errors. It never yields a key, an address or a new code.",
  ["inputs"], "every single-character substitution, deletion, insertion and transposition of every kind of code, every value of every header and checksum byte, every payload length",
  "Tests pass two nonsense strings; they do not show that each position and each checksum byte counts.",
  [B, "bip38/libs/base58.py", "bip38/const.py"],
  [("length, checksum, prefix and flag checks", B), ("alphabet and checksum checks", "bip38/libs/base58.py")],
  [("checksum", "last 4 bytes of each code", "bip38/libs/base58.py")], ["BIP38.decrypt", "BIP38.confirm_code", "BIP38.create_new_encrypted_wif"]),
P("C07", "WIF encoding is lossless and a mistyped WIF is rejected",
  "For every 32-byte private key and WIF prefix the two WIFs are the standard ones (prefix, key, 01 if compressed, checksum), and decoding either returns that key, its WIF type and its checksum. A string with a wrong checksum, prefix, length or compression suffix, or with characters outside the alphabet, is rejected with a library error by every function that takes a WIF, encryption included.",
  ["inputs", "configurations"], "every private key byte pattern, every one-byte prefix and every network, and every single-character damage of a WIF",
  "Tests encode one key for Bitcoin; no damaged WIF is ever decoded, so an undetected typing error (encrypting a different key) does not show.",
  ["bip38/wif.py", B], [("prefix, suffix, length and checksum handling", "bip38/wif.py:encode_wif, decode_wif")],
  [("WIF payload", "prefix, key, optional 01, checksum", "bip38/wif.py")], ["bip38.wif functions", "BIP38.encrypt"]),
P("C08", "Addresses encode the right key hash and decode only when intact",
  "For every public key, public key type, address prefix of one or more bytes and Base58 alphabet, the address is Base58Check of the prefix and the HASH160 of the key in that form, the same for every accepted form of the public key argument. Decoding returns that hash under the same prefix and alphabet, and rejects a damaged address, another prefix and a wrong length.",
  ["inputs", "configurations"], "all prefixes of one byte, two-byte ones, all prefixes of the supported networks, both alphabets, key patterns of both parities, every single-character damage",
  "Tests use the default prefix and alphabet on one key; multi-byte prefixes, other alphabets and rejection are not reached.",
  ["bip38/p2pkh_address.py", "bip38/libs/base58.py"], [("encode / decode", "bip38/p2pkh_address.py")],
  [("address payload", "prefix and 20-byte hash", "bip38/p2pkh_address.py")], ["P2PKHAddress.encode", "P2PKHAddress.decode"]),
P("C09", "Base58 and Base58Check are exact inverses and strict",
  "Base58 encoding and decoding are inverse to each other for every byte string, leading zero bytes included, and for every string over the alphabet, in the supported alphabets and any other of 58 different characters. Strings with any other character are rejected, and Base58Check decoding accepts exactly the strings whose last four bytes are the checksum of the rest.",
  ["inputs"], "all byte strings and all alphabet strings up to a bound, long patterned ones, all Unicode characters, all checksum deviations",
  "No test calls these functions directly; they only see the few payloads of the vectors.",
  ["bip38/libs/base58.py"], [("encode, decode, check_encode, check_decode", "bip38/libs/base58.py")], (), ["encode", "decode", "check_encode", "check_decode"]),
P("C10", "Hash functions are correct for every message and OpenSSL build",
  "SHA-256, double SHA-256, RIPEMD-160, HASH160 and the 4-byte checksum equal their definitions for every message, given as bytes or as hex, and do not depend on whether OpenSSL provides RIPEMD-160.",
  ["inputs", "configurations"], "all message lengths across several blocks, byte patterns, and OpenSSL with RIPEMD-160, without it, and listing it without providing it",
  "Tests hash one message with the OpenSSL of the machine; the library's own RIPEMD-160 is only used, and its padding only matters, in configurations and lengths they do not have.",
  ["bip38/crypto.py", "bip38/libs/ripemd160.py"], [("choice of implementation", "bip38/crypto.py:ripemd160"), ("own implementation", "bip38/libs/ripemd160.py")],
  (), ["bip38.crypto functions", "bip38.libs.ripemd160.ripemd160"]),
P("C11", "Curve keys and points follow secp256k1 and invalid ones are refused",
  "Private keys 1..N-1 give the secp256k1 public key k*G; public keys and points read back from each of their encodings are the same, and adding points and multiplying them by scalars follow the group law. Private keys outside 1..N-1 or of another length, and encodings or coordinates that are not a point of the curve, are refused.",
  ["inputs", "configurations"], "scalars at both ends of the range, powers of two and byte patterns; all pairs of small multiples; all prefix bytes and lengths; coordinates off the curve or not below the field prime; asserts on or off",
  "Tests use one key and valid encodings only.",
  ["bip38/secp256k1/point.py", "bip38/secp256k1/public_key.py", "bip38/secp256k1/private_key.py"],
  [("conversion and validation", "bip38/secp256k1")], (), ["PrivateKey", "PublicKey", "Point"]),
P("C12", "A passphrase counts through its NFC form, unaltered otherwise",
  "In all operations a passphrase counts only through the UTF-8 bytes of its NFC form: canonically equivalent spellings produce and open the same artefacts. Nothing else about it is altered, dropped or added: case, compatibility forms, white space, NUL characters and length all reach the key derivation.",
  ["inputs"], "every Unicode character whose normal forms differ, composed and decomposed, reordered combining marks, all ASCII characters, all lengths up to a bound, in each of the four operations",
  "Tests have one passphrase with combining characters, used for decryption only, and none that is compared with another spelling.",
  [B], [("NFC normalisation before scrypt", B + ":intermediate_code, encrypt, confirm_code, decrypt")], (), ["all operations that take a passphrase"]),
P("C13", "Each network uses its own documented parameters and no other's",
  "Each of the supported cryptocurrencies has the networks, WIF prefixes and address prefixes its documentation lists, and every operation uses exactly those of the network selected (the call's, else the instance's) and reports addresses in that cryptocurrency's alphabet; an instance's attributes say its cryptocurrency, networks, network and alphabet. A network chosen for one call affects that call only; an artefact made for an address prefix does not open under another, and a WIF of another prefix is refused.",
  ["configurations", "inputs", "histories"], "all cryptocurrencies and networks, all pairs of instance network and call network, all ordered pairs of different networks",
  "Tests use Bitcoin only, and the network argument only with an unknown name.",
  ["bip38/cryptocurrencies.py", B, "bip38/wif.py", "bip38/p2pkh_address.py"],
  [("network resolution", B), ("parameter table", "bip38/cryptocurrencies.py")], [("network", "instance default", B + ":BIP38.__init__")], ["results of all operations"]),
P("C14", "A call's result depends only on its arguments, not on earlier calls",
  "Whatever sequence of calls was made before, succeeded or failed, on the same or other instances, of the same or other cryptocurrencies, and whatever the caller did to results it received, a call with given arguments (random inputs given) returns what it returns in a fresh process. A copy of an instance (copied or pickled) and an instance of a class derived from BIP38 act as the instance does.",
  ["histories"], "all call sequences up to a bound over an alphabet of calls that share passphrases, salts, codes, instances or networks pairwise",
  "Tests make each call once or in one order; stale state shows only for particular pairs of calls.",
  [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/cryptocurrencies.py"], [("no mutable state beside the constructor's", B)],
  [("cryptocurrency, networks, network, alphabet", "set once by the constructor", B)], ["all operations"]),
P("C15", "Concurrent calls return what they return alone",
  "Calls made at the same time from several threads, on a shared instance or on different ones, each return exactly what they return when made alone, in every interleaving; so do a call made in the middle of another (by a signal handler, say) and the one it interrupts.",
  ["schedules"], "all interleavings of two threads at source-line granularity up to a preemption bound, over pairs of operations with different arguments",
  "Tests are single-threaded.",
  [B, "bip38/libs/base58.py", "bip38/libs/ripemd160.py", "bip38/crypto.py"], [("only local variables during a call", B)], (), ["all operations"]),
P("C16", "Omitted salts and seeds are fresh, full-length system randomness",
  "When the owner salt or the seed is omitted (an empty one counts as omitted or is refused), all of its bytes (8, or the 4 used with lot and sequence; 24 for the seed) come from the operating system's random source, drawn anew in every call. A value that is given is used exactly as given, as bytes or as hex, and two calls without one never share it.",
  ["inputs", "histories"], "every answer pattern of the random source, each of its bytes, and all sequences of calls up to a bound",
  "Tests always give salt and seed.",
  [B], [("os.urandom", B + ":intermediate_code, create_new_encrypted_wif")], (), ["owner entropy in the intermediate code", "'seed' in the creation result"]),
P("C17", "A failed or interrupted call returns nothing and spoils nothing",
  "If key derivation, the cipher, curve arithmetic or the random source fails during a call, or the call is interrupted at any point, it raises and returns no result (in particular none made with weaker randomness or key derivation), and does not blame the passphrase. Afterwards the same instance and other ones give the same results as if it had not been made.",
  ["fault_sequences", "crash_points"], "a failure at each use of an external primitive, and an interrupt at each executed source line, of each operation, followed by each operation",
  "Tests inject no failure.",
  [B, "bip38/crypto.py", "bip38/secp256k1"], [("errors propagate, no state is kept during a call", B)], (), ["all operations"]),
P("C18", "Arguments outside their domain are rejected before anything is made",
  "Unknown networks, unknown WIF types, classes that are not cryptocurrencies, lot and sequence numbers outside their range, owner salts that are not 8 bytes (or 4 with lot and sequence), seeds that are not 24 bytes and private keys of the wrong length or outside 1..N-1 are rejected, by the BIP38 operations with the library's own errors (an unknown network as a network error), and no code is made; so, with any error, are arguments of other types and passphrases that have no UTF-8 form. An empty salt or seed counts as omitted; everything inside the domain is accepted.",
  ["inputs"], "all lengths up to a bound for each byte argument, as bytes and as hex; all combinations of presence; all network names",
  "Tests reject one unknown network per operation, and no other argument.",
  [B, "bip38/wif.py", "bip38/exceptions.py"], [("argument checks", B), ("length check", "bip38/wif.py:encode_wif")], (), ["constructor and all operations"]),
P("C19", "Byte, integer and hex conversions are exact inverses",
  "Integer to bytes and back, for every width, byte order and sign, hex string to bytes and back, and byte reversal are exact inverses; without a width a non-negative number takes the shortest encoding of at least one byte, with one exactly that many bytes, and a number that does not fit is refused.",
  ["inputs"], "all integers around each power of two up to a bound, all widths, both orders and signs; all byte strings up to a bound",
  "Tests check only the types of the results.",
  ["bip38/utils.py"], [("conversions", "bip38/utils.py")], (), ["bip38.utils functions"]),
P("C20", "Secrets appear only in the results they belong to",
  "No operation writes to standard output, standard error, a log, a warning, a file or the environment, and no error it raises carries in its text or in the errors it is chained to the passphrase, the private key, the WIF, the seed or a value derived from the passphrase; the BIP38 instance it was called on neither shows nor keeps them. Encrypted WIFs, intermediate codes, confirmation codes and the result of creating a key contain neither the passphrase nor the private key.",
  ["inputs", "fault_sequences"], "every operation on accepted and on every kind of rejected input, with every primitive failing in turn",
  "Tests look at the type of an error only.",
  [B, "bip38/exceptions.py", "bip38/wif.py"], [("error texts", "bip38/exceptions.py"), ("results", B)], (), ["raised errors", "standard streams, logging, warnings, file writes"]),
P("C21", "Results do not depend on how the interpreter is configured",
  "With asserts on or off, docstrings stripped, any hash seed, any locale and UTF-8 mode, with warnings (byte and text mix-ups included) as errors, in an isolated interpreter, with or without OpenSSL's RIPEMD-160, whatever the environment variables, the clock and the name of the platform say, from any thread, depth of calls or event loop, the same calls give the same results and the same rejections.",
  ["configurations"], "all combinations of the interpreter settings listed, over a fixed set of accepted and rejected calls of every operation",
  "Tests run in one configuration; a check that rests on an assert or on set order is not noticed.",
  [B, "bip38/crypto.py", "bip38/secp256k1/point.py"], [("explicit checks rather than asserts", B)], (), ["all operations"]),
P("C22", "A cryptocurrency class of one's own works like a built-in one",
  "Any class derived from ICryptocurrency, however it is written, with any names of networks and WIF and address prefixes of any number of bytes, can be used in every operation and in the WIF functions, which then use exactly the prefixes its table gives for the network selected (the call's, else the instance's), as the table stands when the instance is made. Classes that share a name, a network name or a prefix, with one another or with a built-in one, are never confused; networks not in the class's own table, and classes not derived from ICryptocurrency, are refused.",
  ["configurations", "inputs", "histories"], "all pairs of WIF and address prefix patterns up to eight bytes; tables of one to twenty networks with every instance and call network; ways of writing the class; all histories of three operations over classes of the same name",
  "Tests use the Bitcoin class only.",
  [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/cryptocurrencies.py"], [("network resolution", B), ("class check", B + ":BIP38.__init__")], [("cryptocurrency, networks", "taken from the class by the constructor", B + ":BIP38.__init__")], ["constructor, all operations and the WIF functions"]),
P("C23", "Calls leave the process and their arguments as they found them",
  "Importing the package and calling any of its functions, whether the call succeeds, is rejected, fails or is interrupted inside a primitive, leaves the process around it as it was: environment variables, working directory, signal handlers, locale, the state of Python's random generator, interpreter limits and hooks, warning filters, logging, threads, open files, files on disk, other modules. The library's tables of networks and constants, and the objects the caller passes (tables, keywords, byte arrays, keys and points), are not changed.",
  ["histories", "fault_sequences"], "each call the history alphabet has, first and second time, all pairs of kinds, every network, each kind of primitive failing or interrupted, and imports under several interpreter configurations",
  "Tests look at results only.",
  [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/crypto.py", "bip38/libs/base58.py", "bip38/secp256k1", "bip38/const.py"], [("no mutable state beside the constructor's", B)], [("NETWORKS, const", "read only", "bip38/cryptocurrencies.py, bip38/const.py")], ["snapshots of the process before and after each call"]),
P("C24", "Each argument means the same by position, by name, and left out",
  "Every argument of the documented functions (the BIP38 operations and constructor, WIF, address, hash, conversion and key functions) means the same whether it is given at its documented position or by its documented name, with names in any order and other arguments given or left out; leaving an optional argument out is the same as giving its documented default, a network left out being the instance's. intermediate_code works on the class, on instances and on derived classes alike.",
  ["inputs", "configurations"], "for every function all combinations of several values and omission per argument, all splits between positions and names, two orders of names",
  "Tests use one form of each call, mostly by name, so that positions, defaults and combinations are not settled.",
  [B, "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/crypto.py", "bip38/utils.py", "bip38/secp256k1"], [("signatures and defaults", B)], (), ["results of the functions"]),
P("C25", "Every call ends, and takes no more than BIP38 prescribes",
  "Every call of every function ends, with a result or an error, whatever its arguments (of alphabets, those with at least two characters) and whatever key derivation, the random source and the other primitives answer (the same bad answer or the same failure for ever included). In no call is a key derived more often than BIP38 has it: encrypting and making an intermediate code derive one with the slow parameters (16384, 8, 8), creating a key one with the fast ones (1024, 1, 1), decrypting a key encrypted without EC multiplication one slow, decrypting any other and confirming one of each, and all other functions none; no more random bytes are taken than the salt (8) or seed (24) that was left out. The steps taken grow no faster than the square of the length of a text argument, and the memory kept does not grow with the number of calls.",
  ["inputs", "fault_sequences"], "the alphabets of accepted and refused calls; every text argument grown in several ways; constant answers of the environment and each primitive failing for ever",
  "Tests show that a few calls return; a retry without end, or a second derivation of the expensive key, passes them.",
  [B, "bip38/libs/base58.py", "bip38/utils.py", "bip38/crypto.py", "bip38/secp256k1"], [("no retries", B), ("one derivation a key", B)], (), ["key derivations, random draws and executed lines counted through the seams"]),
P("C26", "The kind of an error tells what was wrong",
  "What is wrong with a refused call can be told from the type of the error. From decrypt and confirm_code, a passphrase that does not fit an intact code (and a code of another network) is always a PassphraseError, and a code that its characters, length, checksum, prefix or flag show to be damaged never is one, whatever passphrase is tried. A damaged WIF, or one of another network, and an unknown WIF type give a WIFError; a network the cryptocurrency does not have gives a NetworkError from the constructor and from every operation; a class that is no cryptocurrency gives a CryptocurrencyError; bytes, coordinates and WIFs that hold no valid key or point give a Secp256k1Error; an address of another prefix or length gives an AddressError; lots, sequences, salts and seeds outside their domain give an Error that is none of these. No kind is a kind of another, all are the library's Error, and an error keeps its type, text and arguments when it is copied, pickled, raised again or carried out of a thread.",
  ["inputs"], "all single edits and all values of the bytes that show damage, with right and wrong passphrases; tables of the other refusals; every refusal in every way of carrying it",
  "Tests expect an error of some kind in a few cases; a caller that asks for the passphrase again on PassphraseError depends on it for all of them.",
  [B, "bip38/exceptions.py", "bip38/wif.py", "bip38/p2pkh_address.py", "bip38/secp256k1"], [("one type a cause", B)], [("Error", "message, expected, got", "bip38/exceptions.py")], ["types and texts of the errors raised"]),
]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(L))
