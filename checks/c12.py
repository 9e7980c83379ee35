"""C12: a passphrase counts through the UTF-8 bytes of its NFC form and nothing else."""
import unicodedata

from vf import dom, env, ref, scen


def bip38():
    return dom.bip(dom.BTC_MAIN)


def seen_by_kdf(x, name, fn, *args, **kw):
    env.kdf_log = []
    out = x.call(name, fn, *args, **kw)
    log, env.kdf_log = env.kdf_log, None
    return out, log


def kdf_password(x, what, log, p):
    """The first derivation got exactly the NFC form's bytes."""
    x.check_that(log, "%s: no key was derived" % what)
    x.same("%s: what the key derivation was given for %r" % (what, p), log[0][0] if isinstance(log[0][0], bytes) else log[0][0].encode(),
           ref.norm(p))


def all_operations(x, p, spellings=(), decrypt_only=False):
    """p in every operation against the model, and the other spellings against p."""
    b = bip38()
    key = dom.BASE_KEY
    h = ref.encrypt(key, True, p, 0)
    spell = [p] + [s for s in spellings if s != p]
    for s in spell:
        x.gives("encrypt with %r" % s, x.call("encrypt", b.encrypt, ref.wif(key, True, 0x80), s), h)
        x.gives("decrypt with %r" % s, x.call("decrypt", b.decrypt, h, s), ref.wif(key, True, 0x80))
    for lot in (None, (263183, 1)):
        sc = scen.Ec(comp=True, pw=p, lot=lot)
        for s in spell:
            x.gives("intermediate_code of %r" % s, x.call("intermediate_code", b.intermediate_code, s, owner_salt=dom.BASE_SALT, **sc.lot_args), sc.code)
            x.gives("decrypt with %r" % s, x.call("decrypt", b.decrypt, sc.created["encrypted_wif"], s), sc.decrypted["wif"])
            x.gives("confirm_code with %r" % s, x.call("confirm_code", b.confirm_code, s, sc.created["confirmation_code"]), sc.address)


# code points with some normal form of their own, and a sample of every kind of the others
def interesting():
    out = []
    for cp in range(0x110000):
        if 0xD800 <= cp < 0xE000:
            continue
        c = chr(cp)
        if unicodedata.normalize("NFC", c) != c or unicodedata.normalize("NFD", c) != c or unicodedata.normalize("NFKC", c) != c:
            out.append(cp)
        elif unicodedata.combining(c) or unicodedata.category(c) in ("Cc", "Cf", "Zs", "Zl", "Zp", "Co") and cp < 0xF000:
            out.append(cp)
        elif c.lower() != c or c.upper() != c or c.casefold() != c:
            out.append(cp)
    return out


def build(check):
    T = check.thorough
    inter = interesting()
    if not T:
        # Hangul syllables and CJK compatibility ideographs are long runs of one kind: take every 16th of them
        inter = [c for i, c in enumerate(inter) if not (0xAC00 <= c < 0xD7A4 or 0x2F800 <= c < 0x2FA20 or 0xF900 <= c < 0xFAD9 or c >= 0x1D400) or i % 16 == 0]
    blocks = [inter[i:i + 16] for i in range(0, len(inter), 16)]

    def code_points(x):
        block = x.pick("block", blocks, free=True)
        b = bip38()
        for cp in block:
            for p in (chr(cp), "a" + chr(cp) + "b", chr(cp) + "\u0301", "\u1100" + chr(cp)):
                env.kdf_log = []
                out = x.call("intermediate_code", b.intermediate_code, p, owner_salt=dom.BASE_SALT)
                log, env.kdf_log = env.kdf_log, None
                x.value("intermediate_code of %r" % p, out)
                kdf_password(x, "intermediate_code", log, p)
    check.add("code-points", code_points, 0, "each code point that some normalisation, case change or stripping would change, alone and in context")

    def every(x):
        """Every code point, as one chunk per execution: what reaches the key derivation."""
        start = x.pick("start", range(0, 0x110000, 64 if T else 512), free=True)
        b = bip38()
        cps = [c for c in range(start, start + (64 if T else 512)) if not 0xD800 <= c < 0xE000]
        if not cps:
            x.observe("surrogates")
            return
        groups = [[c] for c in cps] if T else [cps]
        for g in groups:
            p = "x".join(map(chr, g))
            out, log = seen_by_kdf(x, "intermediate_code", b.intermediate_code, p, owner_salt=dom.BASE_SALT)
            x.value("intermediate_code of U+%04X.." % g[0], out)
            kdf_password(x, "intermediate_code", log, p)
    check.add("every-code-point", every, 0, "every code point" + ("" if T else ", 512 to a passphrase"))

    canon = [c for c in inter if unicodedata.normalize("NFD", chr(c)) != chr(c) or unicodedata.normalize("NFC", chr(c)) != chr(c)]
    if not T:
        canon = [c for i, c in enumerate(canon) if i % 6 == 0 or c in (0x212B, 0x958, 0x1E69, 0xAC00, 0x2126, 0x1F81, 0x344)]

    def equivalent(x):
        c = chr(x.pick("code point", canon, free=True))
        p = x.pick("context", ("%s", "pass%sword", "%s\u0323", "e%s"), free=T) % c
        forms = [unicodedata.normalize(f, p) for f in ("NFC", "NFD")]
        all_operations(x, p, forms)
    check.add("equivalent", equivalent, 1 if T else 0, "canonically equivalent spellings, in every operation")

    marks = "\u0301\u0302\u0307\u0323\u031b\u0345\u05b0\u3099"
    bases = ["a", "A", "e", "\u1ea1", "s", "\u30ab", "\u05d0"]

    def reordered(x):
        base = x.pick("base", bases, free=True)
        m1, m2 = x.pick("mark 1", marks, free=True), x.pick("mark 2", marks, free=True)
        m3 = x.pick("mark 3", [""] + list(marks), free=T)
        p = base + m1 + m2 + m3
        b = bip38()
        for q in dom.uniq([p, base + m2 + m1 + m3, unicodedata.normalize("NFC", p), unicodedata.normalize("NFD", p)]):
            x.gives("intermediate_code of %r" % q, x.call("intermediate_code", b.intermediate_code, q, owner_salt=dom.BASE_SALT),
                    ref.intermediate(q, dom.BASE_SALT))
    check.add("reordered", reordered, 0 if not T else 1, "combining marks in every order: equal exactly if canonically equivalent")

    def lengths(x):
        n = x.pick("length", list(range(0, 300)) + [511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000] + ([65536, 100000] if T else []), free=True)
        ch = x.pick("character", ("p", "\u00e9", "\U0001f4a9", "e\u0301", "\0", " "), free=True)
        all_operations(x, ch * n) if n % 16 == 0 or n in (1, 7, 31, 63, 65) else None
        out, log = seen_by_kdf(x, "intermediate_code", bip38().intermediate_code, ch * n, owner_salt=dom.BASE_SALT)
        x.gives("intermediate_code", out, ref.intermediate(ch * n, dom.BASE_SALT))
        kdf_password(x, "intermediate_code", log, ch * n)
    check.add("lengths", lengths, 0, "every length to 300 and some above")

    clusters = ("e\u0301", "\u1112\u1161\u11ab", "a\u0302\u0323", "\u212b", "\U00011099\U000110ba", "\r\n")
    powers = [2**i + d for i in range(11, 18) for d in range(-3, 4)] + [10000, 100000]

    def boundaries(x):
        """A sequence that composes, at every place of a long passphrase."""
        cl = x.pick("sequence", clusters, free=True)
        lo = x.pick("from", list(range(0, 8193 if T else 1057, 16)) + powers, free=True)
        b = bip38()
        for n in (range(lo, lo + 16) if lo not in powers else [lo]):
            p = "x" * n + cl + "yz"
            q = ref.norm(p)
            out, log = seen_by_kdf(x, "intermediate_code", b.intermediate_code, p, owner_salt=dom.BASE_SALT)
            x.gives("intermediate_code", out, ref.intermediate(p, dom.BASE_SALT))
            kdf_password(x, "intermediate_code", log, p)
            if n % 16 in (0, 15) or lo in powers or T and n < 1100:
                h = ref.encrypt(dom.BASE_KEY, True, p, 0)
                x.gives("encrypt", x.call("encrypt", b.encrypt, ref.wif(dom.BASE_KEY, True, 0x80), p), h)
                x.gives("decrypt", x.call("decrypt", b.decrypt, h, q.decode()), ref.wif(dom.BASE_KEY, True, 0x80))
                sc = scen.Ec(comp=False, pw=p, lot=(100000, n % 4096))
                x.gives("decrypt", x.call("decrypt", b.decrypt, sc.created["encrypted_wif"], p), sc.decrypted["wif"])
                x.gives("confirm_code", x.call("confirm_code", b.confirm_code, p, sc.created["confirmation_code"]), sc.address)
    check.add("boundaries", boundaries, 0, "sequences that compose, begun at every place up to %d and around powers of two up to 2^17" % (8192 if T else 1056))

    def runs(x):
        """Runs of combining marks of every length (no joiners are put in, none taken out)."""
        n = x.pick("marks", list(range(0, 140)) + [255, 256, 257, 1000], free=True)
        run = x.pick("kind", ("\u0323", "\u0323\u0301", "\u0301\u0323", "\u0345\u0301\u031b"), free=True)
        for base in ("a", "", "\u1ea1", "x" * 30 + "a"):
            p = base + (run * n)[:n] + "\u0302z"
            all_operations(x, p) if n % 32 in (0, 1, 30, 31) else None
            out, log = seen_by_kdf(x, "intermediate_code", bip38().intermediate_code, p, owner_salt=dom.BASE_SALT)
            x.gives("intermediate_code", out, ref.intermediate(p, dom.BASE_SALT))
            kdf_password(x, "intermediate_code", log, p)
    check.add("runs", runs, 0, "runs of combining marks of every length up to 139")

    def ascii_(x):
        c = chr(x.pick("character", range(0x180), free=True))
        all_operations(x, x.pick("place", ("%s", "%spassphrase", "passphrase%s", "pass%sphrase"), free=True).replace("%s", c))
    check.add("latin", ascii_, 0, "each character below U+0180 alone, first, last and inside, in every operation")

    texts = dom.PASSPHRASES + ["0x" + "ab" * 8, "ab" * 16, "passphrase", ref.wif(dom.BASE_KEY, True, 0x80), "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg",
                               "true", "null", "\\u0041", "&amp;", "%41", "a\\\n", "$HOME", "~"]

    def corpus(x):
        p = x.pick("passphrase", texts, free=True)
        all_operations(x, p, [unicodedata.normalize("NFD", p)])
    check.add("corpus", corpus, 0, "passphrases that parsing, trimming or decoding could mistake for something else")

    def distinct(x):
        """Spellings that are not canonically equivalent stay apart."""
        a, b_ = x.pick("pair", [("\ufb01", "fi"), ("\uff21", "A"), ("A", "a"), ("\u00df", "ss"), ("\u0130", "i\u0307"), ("a", "a "), ("a", " a"), ("a\0b", "ab"),
                                ("\u2460", "1"), ("\u00b2", "2"), ("\u00a0", " "), ("\ufeffa", "a"), ("a\u200db", "ab"), ("\u00ada", "a"), ("a\r\n", "a\n"),
                                ("\u03c2", "\u03c3"), ("\uff76", "\u30ab"), ("\u01c4", "D\u017d"), ("\u2126", "\u2127"), ("\u0130", "i"), ("a\u0301\u0323", "a\u0301"),
                                ("p" * 72, "p" * 73), ("p" * 64, "p" * 65), ("a\0a", "a"), ("", " ")], free=True)
        comp = x.pick("compressed", (False, True), free=True)
        b = bip38()
        for p, q in ((a, b_), (b_, a)):
            code = ref.encrypt(dom.BASE_KEY, comp, p, 0)
            x.raises("decrypting what %r encrypted with %r" % (p, q), x.call("decrypt", b.decrypt, code, q), env.mod("exceptions").PassphraseError)
            s = scen.Ec(comp=comp, pw=p)
            x.raises("decrypting what %r made with %r" % (p, q), x.call("decrypt", b.decrypt, s.created["encrypted_wif"], q), env.mod("exceptions").Error)
            x.raises("confirming what %r made with %r" % (p, q), x.call("confirm_code", b.confirm_code, q, s.created["confirmation_code"]), env.mod("exceptions").Error)
    check.add("distinct", distinct, 0, "compatibility forms, case, blanks, joiners and NULs are told apart")
