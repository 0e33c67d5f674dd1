"""Contracts of the silent payment code: keys, labels, placeholder script, text form."""
from specs_sp import *

def spc(ex): return adt(ex, "bdk_sp", "SilentPaymentCode")
def cf(ex, c, n): return fld(ex, spc(ex), c, n)
def net(ex, n):
    t = adt(ex, "bitcoin", "Network"); return ex.T.mk(t, vidx(t, n))
plain("code.new_v0", "SilentPaymentCode::new_v0", ["scan", "spend", "network"], lambda ex, a, ty: mkrec(ex, ty, version=z3.IntVal(0), scan=a[0], spend=a[1], network=a[2]))
plain("code.version", "SilentPaymentCode::version", ["self"], lambda ex, a, ty: cf(ex, a[0], "version"))
def label_code(ex, c, l):
    return mkrec(ex, spc(ex), version=cf(ex, c, "version"), scan=cf(ex, c, "scan"), spend=lin(cf(ex, c, "spend") + l), network=cf(ex, c, "network"))
def c_addlabel(ex, st, inst, args, ty):
    c, l = ex.term(st, args[0]), ex.term(st, args[1]); p = lin(cf(ex, c, "spend") + l)
    return fork2(ex, st, p != 0, ok(ty, label_code(ex, c, l)), lambda s: err(ty, mkerr(ex, s, errty(ty), "InvalidTweak")))
CONTRACTS["SilentPaymentCode::add_label"] = c_addlabel
@spec("code.add_label", "SilentPaymentCode::add_label")
class _:
    def setup(v): return v.args("self", "label")
    def post(v, st, ret):
        T = v.T; r = v.term(st, ret); rt = v.retty(); c, l = v.a["self"], v.a["label"]; g = lin(cf(v.ex, c, "spend") + l) != 0
        return [("error-iff-infinity", T.is_v(rt, 0, r) == g), ("only-spend-moves", z3.Implies(g, T.acc(rt, 0, 0, r) == label_code(v.ex, c, l)))]
# ------------------------------------------------------------------ placeholder
def S_ph(ex, c):
    h = hsc("sha256", ser(cf(ex, c, "spend"))); p = lin(cf(ex, c, "scan") + h); fact(p, p != 0)
    return p2tr(xonly(p))
plain("code.placeholder", "SilentPaymentCode::get_placeholder_p2tr_spk", ["self"], lambda ex, a, ty: S_ph(ex, a[0]))
# ------------------------------------------------------------------ text form
def hrp_of(ex, n):
    return z3.If(n == net(ex, "Bitcoin"), lit(b"sp"), z3.If(z3.Or(n == net(ex, "Testnet"), n == net(ex, "Testnet4"), n == net(ex, "Signet")), lit(b"tsp"), lit(b"sprt")))
def S_text(ex, c):
    return bech32m(hrp_of(ex, cf(ex, c, "network")), cf(ex, c, "version"), cat(ser(cf(ex, c, "scan")), ser(cf(ex, c, "spend"))))
@spec("code.fmt", "<SilentPaymentCode as Display>::fmt")
class _:
    def setup(v):
        # invariant of the type: codes are built by new_v0 (version 0) and the parser (versions up to 30)
        v.a["self"] = v.term(v.st, r := v.sym("self", v.argty(0))); v.assume(cf(v.ex, v.a["self"], "version") <= 30)
        v.f = newcell(v.st, Fmt(), "fmt"); return [r, Ref(v.f)]
    def post(v, st, ret):
        return [("text", st.heap[v.f].t == S_text(v.ex, v.a["self"]))]
def parse_parts(ex, s):
    """(accepted, code) for string s"""
    okc, h, n = b32(s); v = b32_sym(s, z3.IntVal(0)); d = b32_bytes(s, z3.IntVal(1)); ln = blen(d)
    a, b = bslice(d, 0, 33), bslice(d, 33, 66)
    known = z3.Or(*[h == lit(x) for x in (b"sp", b"tsp", b"sprt")])
    good = z3.And(okc, n >= 1, v <= 30, z3.If(v == 0, ln == 66, ln >= 66), known, validpk_(a), validpk_(b))
    nw = z3.If(h == lit(b"sp"), net(ex, "Bitcoin"), z3.If(h == lit(b"tsp"), net(ex, "Testnet"), net(ex, "Regtest")))
    return good, mkrec(ex, spc(ex), version=v, scan=unser(a), spend=unser(b), network=nw)
@spec("code.parse", "<SilentPaymentCode as TryFrom>::try_from")
class _:
    def setup(v): return v.args("s")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); g, c = parse_parts(v.ex, v.a["s"])
        return [("accepted-iff", T.is_v(rt, 0, r) == g), ("code", z3.Implies(g, T.acc(rt, 0, 0, r) == c)), ("type-invariant", z3.Implies(T.is_v(rt, 0, r), cf(v.ex, T.acc(rt, 0, 0, r), "version") <= 30))]
upper_ = UF("ascii_upper", Bytes, Bytes)
@lemma("lemma.code-roundtrip")
def _(v):
    """parsing what fmt wrote, in either case; uses the decoder's contract on the encoder's output"""
    ex = v.ex; T = v.T; ty = spc(ex); c = v.sym("c", ty); t = S_text(ex, c); v.assume(cf(ex, c, "version") <= 30); out = []
    ver = cf(ex, c, "version"); data = cat(ser(cf(ex, c, "scan")), ser(cf(ex, c, "spend"))); h = hrp_of(ex, cf(ex, c, "network"))
    for nm, s in (("lower", t), ("upper", upper_(t))):
        okc, hl, n = b32(s)
        # assumed contract of the bech32 crate: its checked decoder inverts its encoder, in both cases
        for f in (okc, hl == h, n >= 1, b32_sym(s, z3.IntVal(0)) == ver, b32_bytes(s, z3.IntVal(1)) == data): v.assume(f)
        unser(bslice(data, 0, 33)); unser(bslice(data, 33, 66))
        d = b32_bytes(s, z3.IntVal(1)); a, b = bslice(d, 0, 33), bslice(d, 33, 66)
        v.assume(z3.And(a == bslice(data, 0, 33), b == bslice(data, 33, 66)))     # congruence of slicing under d = data
        g, p = parse_parts(ex, s); nw = cf(ex, p, "network")
        out += [(nm + "-accepted", g), (nm + "-keys", z3.And(cf(ex, p, "scan") == cf(ex, c, "scan"), cf(ex, p, "spend") == cf(ex, c, "spend"), cf(ex, p, "version") == ver)),
                (nm + "-network-class", hrp_of(ex, nw) == h)]
    return out
@lemma("lemma.placeholder")
def _(v):
    ex = v.ex; ty = spc(ex); a, b = v.sym("a", ty), v.sym("b", ty); sa, sb = S_ph(ex, a), S_ph(ex, b)
    ha, hb = hsc("sha256", ser(cf(ex, a, "spend"))), hsc("sha256", ser(cf(ex, b, "spend"))); A, Bp = cf(ex, a, "scan") + ha, cf(ex, b, "scan") + hb
    for t in (sa, sb):
        x = pieces(t)[1].arg(0); fact(t, z3.Implies(x != 0, even(x))) if False else None
    same_keys = z3.And(cf(ex, a, "scan") == cf(ex, b, "scan"), cf(ex, a, "spend") == cf(ex, b, "spend"))
    return [("valid-p2tr", is_p2tr(sa)), ("function-of-the-keys", z3.Implies(same_keys, sa == sb)),
            # equal placeholders mean equal points up to sign: for one scan key, a collision or relation of the hash
            ("injective-up-to-hash", z3.Implies(sa == sb, z3.Or(A == Bp, A == -Bp))),
            ("labelled-differs", z3.Implies(z3.And(cf(ex, a, "scan") == cf(ex, b, "scan"), ha != hb, A + Bp != 0), sa != sb))]
