"""Contracts of the hand-written serialisation of labels, against an abstract data format (roots/src/lib.rs, mod format)."""
from specs_load import *

def fm(ex, n): return adt(ex, "roots", n)
def ftype(ex, ty, name): return dict(ex.T.vfields(ty, 0))[name]
@model("<u32 as Serialize>::serialize")
def m_w32(ex, st, inst, args, ty): return wr(ex, st, args[1], ty, ex.T.mk(fm(ex, "Out"), 0, tm(ex, st, args[0])))
@model("<PublicKey as Serialize>::serialize")
def m_wpk(ex, st, inst, args, ty): return wr(ex, st, args[1], ty, ex.T.mk(fm(ex, "Out"), 2, tm(ex, st, args[0])))
def wr(ex, st, ser_, ty, o):
    """an external value hands the writer what it is (its own serialisation is outside /repo)"""
    return fork2(ex, st, z3.Not(fld(ex, fm(ex, "ElemSer"), tm(ex, st, ser_), "fail")), ok(ty, o), lambda s: err(ty, mkerr(ex, s, errty(ty))))
def rd(name, tn):
    def f(ex, st, inst, args, ty):
        x = tm(ex, st, args[0])
        if x.sort() != ex.T.sort(fm(ex, tn)): raise Unsupported("reading from another format")
        if tn == "ItemDe": x = fld(ex, fm(ex, tn), x, "it")
        ot = ftype(ex, fm(ex, "Item" if tn == "ItemDe" else tn), name); o = fld(ex, fm(ex, "Item" if tn == "ItemDe" else tn), x, name)
        return fork2(ex, st, ex.T.is_v(ot, 1, o), ok(ty, ex.T.note(ex.T.acc(ot, 1, 0, o), ot.args()[0])), lambda s: err(ty, mkerr(ex, s, errty(ty))))
    return f
TAB["<u8 as Deserialize>::deserialize"] = rd("b", "ByteDe")
TAB["<u32 as Deserialize>::deserialize"] = rd("num", "ItemDe")
TAB["<PublicKey as Deserialize>::deserialize"] = rd("point", "ItemDe")
@model("format::take")
def m_take(ex, st, inst, args, ty):
    l, i = tm(ex, st, args[0]), tm(ex, st, args[1]); ex.c.oblige("item-in-range", st, z3.And(0 <= i, i < llen(l))); return ex.T.deep_note(lat(l, i), fm(ex, "Item"), 2)
def scal_t(ex): return adt(ex, "indexer", "ScalarBytes")
def S_raw(ex, ab):
    """(accepted, the 32 bytes) an item reads as"""
    T = ex.T; t = fm(ex, "AsBytes"); b = T.acc(t, 0, 0, ab); sq = T.acc(t, 1, 0, ab); ot = T.elem(T.vfields(t, 1)[0][1])
    n = [lat(sq, z3.IntVal(j)) for j in range(32)]; full = z3.And(llen(sq) == 32, *[T.is_v(ot, 1, x) for x in n]); sb = setlen(cat(*[byte1(T.note(T.acc(ot, 1, 0, x), ot.args()[0])) for x in n]), 32)
    return z3.Or(z3.And(T.is_v(t, 0, ab), blen(b) == 32), z3.And(T.is_v(t, 1, ab), full)), z3.If(T.is_v(t, 0, ab), b, sb)
def S_scalar(ex, ab):
    ok_, b = S_raw(ex, ab); return z3.And(ok_, validsc_(b)), unsers(b)
def it(ex, x, n): return fld(ex, fm(ex, "Item"), x, n)
@spec("v2.scalar_read", "<ScalarBytes as Deserialize>::deserialize")
class _:
    def setup(v): return v.args("de")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); g, s = S_scalar(v.ex, it(v.ex, fld(v.ex, fm(v.ex, "ItemDe"), v.a["de"], "it"), "bytes"))
        return [("accepted-iff-32-bytes-below-the-order", T.is_v(rt, 0, r) == g), ("value", z3.Implies(g, fld(v.ex, scal_t(v.ex), T.acc(rt, 0, 0, r), "0") == s))]
def c_sread(ex, st, inst, args, ty):
    d = tm(ex, st, args[0])
    if d.sort() != ex.T.sort(fm(ex, "ItemDe")): raise Unsupported("reading from another format")
    g, s = S_scalar(ex, it(ex, fld(ex, fm(ex, "ItemDe"), d, "it"), "bytes")); return fork2(ex, st, g, ok(ty, mkrec(ex, scal_t(ex), **{"0": s})), lambda q: err(ty, mkerr(ex, q, errty(ty))))
CONTRACTS["<ScalarBytes as Deserialize>::deserialize"] = c_sread
@spec("v2.scalar_write", "<ScalarBytes as Serialize>::serialize")
class _:
    def setup(v): return v.args("self", "ser")
    def post(v, st, ret):
        ex = v.ex; T = v.T; rt = v.retty(); r = v.term(st, ret); g = z3.Not(fld(ex, fm(ex, "ElemSer"), v.a["ser"], "fail"))
        return [("fails-iff-the-writer-does", T.is_v(rt, 0, r) == g), ("writes-the-32-bytes", z3.Implies(g, T.acc(rt, 0, 0, r) == S_sout(ex, fld(ex, scal_t(ex), v.a["self"], "0"))))]
def S_sout(ex, s): return ex.T.mk(fm(ex, "Out"), 1, sers(s))
def c_swrite(ex, st, inst, args, ty): return wr(ex, st, args[1], ty, S_sout(ex, fld(ex, scal_t(ex), tm(ex, st, args[0]), "0")))
CONTRACTS["<ScalarBytes as Serialize>::serialize"] = c_swrite
def S_out(ex, l):
    T = ex.T; o = fm(ex, "Out"); t = ix(ex, "Label"); r = lempty(T.sort(o))
    for x in (T.mk(o, 0, fld(ex, t, l, "num")), S_sout(ex, fld(ex, t, l, "tweak")), T.mk(o, 2, fld(ex, t, l, "point"))): r = lpush(r, x)
    return r
@spec("v2.label_write", "<Label as Serialize>::serialize")
class _:
    def setup(v): return v.args("self", "ser")
    def post(v, st, ret):
        ex = v.ex; T = v.T; rt = v.retty(); r = v.term(st, ret); g = fld(ex, fm(ex, "TopSer"), v.a["ser"], "limit") >= 5
        return [("fails-iff-the-writer-does", T.is_v(rt, 0, r) == g), ("writes-number-tweak-point", z3.Implies(g, leq(T.acc(rt, 0, 0, r), S_out(ex, v.a["self"]))))]
def S_items(ex, l):
    """(read, the label) of a list of items; what follows the third is left to the format"""
    T = ex.T; I0, I1, I2 = [lat(l, z3.IntVal(j)) for j in range(3)]; g, s = S_scalar(ex, it(ex, I1, "bytes")); f = lambda n, x: (T.is_v(ftype(ex, fm(ex, "Item"), n), 1, it(ex, x, n)), T.acc(ftype(ex, fm(ex, "Item"), n), 1, 0, it(ex, x, n))); a, n = f("num", I0); b, p = f("point", I2)
    return z3.And(llen(l) >= 3, a, g, b), mkrec(ex, ix(ex, "Label"), num=n, tweak=s, point=p)
@spec("v2.label_read", "<Label as Deserialize>::deserialize")
class _:
    def setup(v): return v.args("de")
    def post(v, st, ret):
        ex = v.ex; T = v.T; rt = v.retty(); r = v.term(st, ret); ot = ftype(ex, fm(ex, "TopDe"), "items"); o = fld(ex, fm(ex, "TopDe"), v.a["de"], "items"); g, l = S_items(ex, T.acc(ot, 1, 0, o)); g = z3.And(T.is_v(ot, 1, o), g)
        return [("read-iff-three-items-valid", T.is_v(rt, 0, r) == g), ("label", z3.Implies(g, T.acc(rt, 0, 0, r) == l))]
@lemma("lemma.label-roundtrip")
def _(v):
    """what a label is written as reads back as the same label, whether the format gives bytes back as bytes or as a sequence of numbers"""
    ex = v.ex; T = ex.T; l = v.sym("label", ix(ex, "Label")); o = S_out(ex, l); xs = z3.Const("items", T.sort(ftype(ex, fm(ex, "ItemSeq"), "items"))); t = fm(ex, "Item"); ab = fm(ex, "AsBytes"); ot = fm(ex, "Out"); no = ftype(ex, t, "num"); po = ftype(ex, t, "point"); bo = T.elem(T.vfields(ab, 1)[0][1]); j = z3.Const("j", I)
    v.assume(llen(xs) == llen(o)); g, back = S_items(ex, xs); X = [lat(xs, z3.IntVal(i)) for i in range(3)]; O = [lat(o, z3.IntVal(i)) for i in range(3)]
    # the format reads numbers, byte strings and points back as what was written
    v.assume(it(ex, X[0], "num") == T.mk(no, 1, T.acc(ot, 0, 0, O[0]))); v.assume(it(ex, X[2], "point") == T.mk(po, 1, T.acc(ot, 2, 0, O[2])))
    b = T.acc(ot, 1, 0, O[1]); a = it(ex, X[1], "bytes"); sq = T.acc(ab, 1, 0, a)
    v.assume(z3.Or(a == T.mk(ab, 0, b), z3.And(T.is_v(ab, 1, a), llen(sq) == blen(b), *[lat(sq, z3.IntVal(i)) == T.mk(bo, 1, bat(b, i)) for i in range(32)])))
    v.assume(cat(*[setlen(UF("be1", I, Bytes)(bat(b, i)), 1) for i in range(32)]) == b)      # a string of 32 bytes is its bytes in order
    return [("read", g), ("same-label", back == l)]
