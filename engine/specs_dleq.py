"""Contracts of the dleq crate (BIP374)."""
from specs_scan import *

def m_bytes(ex, oty, m): return ex.T.is_v(oty, 1, m), ex.T.acc(oty, 1, 0, m)
def with_msg(pre, has, msg, f):
    """f of the absorbed bytes with or without the message"""
    return z3.If(has, f(cat(pre, msg)), f(pre))
def S_chal(A, B_, C, R1, R2, has, msg, G):
    return with_msg(cat(ser(A), ser(B_), ser(C), ser(G), ser(R1), ser(R2)), has, msg, lambda b: hsc("BIP0374/challenge", b))
def verify_parts(A, B_, C, proof, G, has, msg):
    """(no error, accepted)"""
    eb, sb = bslice(proof, 0, 32), bslice(proof, 32, 64)
    def sc_of(b):
        if z3.is_app(b) and b.decl().eq(sers_): sers(b.arg(0)); return z3.BoolVal(True), b.arg(0)
        return validsc_(b), unsers(b)
    ve, e = sc_of(eb); vs, s = sc_of(sb)
    R1 = lin(mul(s, G) - mul(e, A)); R2 = lin(mul(s, B_) - mul(e, C))
    okc = z3.And(ve, vs, e != 0, s != 0, R1 != 0, R2 != 0); return okc, e == S_chal(A, B_, C, R1, R2, has, msg, G)
def pts(v, *ns): return [v.a[n] for n in ns]
def c_verify(ex, st, inst, args, ty):
    A, B_, C, p, G = [ex.term(st, a) for a in args[:5]]; oty = ex.prog.types[inst.body.locals[6]["ty"]]; m = ex.term(st, args[5])
    for t in (A, B_, C, G): fact(t, t != 0) if not z3.is_rational_value(t) else None
    has, msg = m_bytes(ex, oty, m); setlen(msg, 32); okc, acc = verify_parts(A, B_, C, p, G, has, msg)
    return fork2(ex, st, okc, lambda s: ok(ty, acc), lambda s: err(ty, mkerr(ex, s, errty(ty))))
CONTRACTS["dleq::dleq_verify_proof"] = c_verify
@spec("dleq.verify", "dleq::dleq_verify_proof")
class _:
    def setup(v): return v.args("A", "B", "C", "proof", "G", "m")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); oty = v.argty(5); has, msg = m_bytes(v.ex, oty, v.a["m"]); setlen(msg, 32)
        okc, acc = verify_parts(*pts(v, "A", "B", "C", "proof", "G"), has, msg)
        return [("refused-iff", T.is_v(rt, 0, r) == okc), ("accepts-iff-challenge-recomputes", z3.Implies(okc, T.acc(rt, 0, 0, r) == acc))]
def xor32(a, b): return cat(*[be(1, bxor8(bat(a, i), bat(b, i))) for i in range(32)])
def bxor8(x, y):
    x, y = sorted([x, y], key=lambda t: t.get_id()); r = UF("BitXor8", I, I, I)(x, y); fact(r, z3.And(r >= 0, r <= 255)); return r
@spec("dleq.generate", "dleq::dleq_generate_proof")
class _:
    def setup(v): return v.args("a", "B", "r", "G", "m")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); oty = v.argty(4); has, msg = m_bytes(v.ex, oty, v.a["m"]); setlen(msg, 32); a, B_, rr, G = pts(v, "a", "B", "r", "G")
        A, C = mul(a, G), mul(a, B_); aux = hsc("BIP0374/aux", rr); t = xor32(sers(a), sers(aux)); 
        k = with_msg(cat(t, ser(A), ser(C)), has, msg, lambda b: hsc("BIP0374/nonce", b)); fact(k, k != 0)
        out = []
        for nm, cond, hm in (("message", has, True), ("no-message", z3.Not(has), False)):
            nb = cat(t, ser(A), ser(C), msg) if hm else cat(t, ser(A), ser(C)); k = hsc("BIP0374/nonce", nb); R1, R2 = mul(k, G), mul(k, B_)
            cb = cat(ser(A), ser(B_), ser(C), ser(G), ser(R1), ser(R2)); e = hsc("BIP0374/challenge", cat(cb, msg) if hm else cb); s = lin(k + mul(a, e))
            out += [(f"always-a-proof[{nm}]", z3.Implies(z3.And(cond, s != 0), T.is_v(rt, 0, r))), (f"bip374-proof[{nm}]", z3.Implies(z3.And(cond, s != 0), T.acc(rt, 0, 0, r) == cat(sers(e), sers(s)))), (f"refused-only-then[{nm}]", z3.Implies(z3.And(cond, s == 0), T.is_v(rt, 1, r)))]
        return out
@lemma("lemma.dleq-complete")
def _(v):
    """a proof with the honest commitments passes verification against the matching points"""
    a, B_, G, k, e = z3.Consts("a B G k e", R); v.assume(z3.And(a != 0, B_ != 0, G != 0, k != 0, e != 0)); has = z3.Bool("has"); msg = setlen(z3.Const("msg", Bytes), 32); s = lin(k + mul(a, e)); v.assume(s != 0); A, C = mul(a, G), mul(a, B_)
    p = cat(sers(e), sers(s)); okc, acc = verify_parts(A, B_, C, p, G, has, msg); want = S_chal(A, B_, C, mul(k, G), mul(k, B_), has, msg, G)
    return [("no-error", okc), ("accepts-iff-honest-challenge", acc == (e == want))]
