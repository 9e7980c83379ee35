"""One EC-multiply key, from passphrase to private key: the environment scripted, the model's answers ready."""
from . import dom, env, ref

LOTS = [None, (100000, 1), (100000, 0), (999999, 4095), (263183, 1), (524288, 2048), (199999, 256), (65536 * 4, 255)]


class Ec:
    """pf: wanted pass factor (32 bytes) or None; final: wanted private key or None (both without lot only);
    pre: wanted scrypt answer with lot; site1, site2, ak, parity: see dom.kdf_point."""

    def __init__(self, net=dom.BTC_MAIN, comp=False, pw=dom.BASE_PASS, lot=None, salt=dom.BASE_SALT, seed=dom.BASE_SEED,
                 pf=None, final=None, pre=None, site1=None, site2=None, ak=None, parity=None):
        self.net, self.comp, self.pw, self.lot, self.salt, self.seed = net, comp, pw, lot, salt, seed
        l, s = lot if lot else (None, None)
        self.oe = ref.owner_entropy(salt, l, s)
        self.has_lot = lot is not None
        fb = ref.b2i(ref.dsha(seed))
        if final is not None and not self.has_lot:
            pf = ref.i2b(ref.b2i(final) * pow(fb, -1, ref.N) % ref.N, 32)
        if self.has_lot:
            if pre is not None:
                dom.kdf_owner(pw, self.oe, True, pre)
        elif pf is not None:
            dom.kdf_owner(pw, self.oe, False, pf)
        self.pf = ref.pass_factor(pw, self.oe, self.has_lot)
        self.pass_point = ref.mul(ref.b2i(self.pf))
        magic = ref.MAGIC_LOT if self.has_lot else ref.MAGIC_NOLOT
        self.code = ref.b58check(magic + self.oe + ref.ser(self.pass_point, True))
        self.key = ref.i2b(ref.b2i(self.pf) * fb % ref.N, 32)
        self.point = ref.mul(ref.b2i(self.key))
        self.address = ref.address(self.point, comp, net[3])
        self.hash = ref.address_hash(self.address)
        if site1 or site2 or ak is not None or parity is not None:
            dom.kdf_point(self.pass_point, self.hash, self.oe, seed, site1, site2, ak, parity)
        self.created = ref.create(self.code, comp, seed, net[3], public=self.point)
        lot_no, seq = lot if lot else (None, None)
        self.wif_type = "wif-compressed" if comp else "wif"
        self.confirmed = dict(public_key=self.created["public_key"], public_key_type=self.created["public_key_type"],
                              address=self.address, lot=lot_no, sequence=seq)
        self.decrypted = dict(wif=ref.wif(self.key, comp, net[2]), private_key=self.key.hex(), wif_type=self.wif_type,
                              public_key=self.created["public_key"], public_key_type=self.created["public_key_type"],
                              seed=seed.hex(), address=self.address, lot=lot_no, sequence=seq)

    @property
    def lot_args(self):
        return dict(lot=self.lot[0], sequence=self.lot[1]) if self.lot else {}




def same_dict(x, what, got, want):
    x.check_that(isinstance(got, dict), "%s: returned %r" % (what, got))
    for k, v in want.items():
        x.check_that(k in got, "%s: no field %s in %r" % (what, k, got))
        x.same("%s field %s" % (what, k), got[k], v)
    extra = set(got) - set(want)
    x.check_that(not extra, "%s: undocumented fields %r" % (what, extra))
