"""Contracts of the sender."""
from specs_enc import *

def signed(sk): return z3.If(even(sk), sk, -sk)
def spk_elig(spk): return z3.Or(is_p2tr(spk), is_p2pkh(spk), is_p2sh(spk), is_p2wpkh(spk))
def ps_accs(ex, l):
    """over (script, key) pairs: sum of the eligible keys (even parity for taproot) and their number"""
    s0 = L(l.sort()).es
    def parts(i):
        t = lat(l, i); spk, sk = ap(s0.accessor(0, 0), t), ap(s0.accessor(0, 1), t); fact(sk, sk != 0); return spk, sk
    def s_sum(i, a):
        spk, sk = parts(i); return z3.If(is_p2tr(spk), a + signed(sk), z3.If(spk_elig(spk), a + sk, a))
    def s_cnt(i, a):
        spk, sk = parts(i); return z3.If(spk_elig(spk), a + 1, a)
    return Acc("send_sum", R, z3.RealVal(0), s_sum, (l,)), Acc("send_cnt", I, z3.IntVal(0), s_cnt, (l,))
def ps_parts(ex, o, l, accs=None):
    sm, cn = accs or ps_accs(ex, l); n = llen(l); a = sm.at(n)
    return z3.And(cn.at(n) > 0, a != 0), cn.at(n) > 0, mul(S_inhash(o, a), a)
def S_ps(ex, o, l):
    okf = UF("S_ps_ok", l.sort(), B)(l); val = UF("S_ps", Bytes, l.sort(), R)(o, l)
    FACTS.add_lazy(okf, lambda: [okf == ps_parts(ex, o, l)[0]]); FACTS.add_lazy(val, lambda: [val == ps_parts(ex, o, l)[2]])
    fact(val, z3.Implies(okf, val != 0)); return okf, val
def c_ps(ex, st, inst, args, ty):
    okf, val = S_ps(ex, ex.term(st, args[0]), ex.term(st, args[1]))
    return fork2(ex, st, okf, ok(ty, val), lambda s: err(ty, mkerr(ex, s, errty(ty))))
CONTRACTS["send::create_silentpayment_partial_secret"] = c_ps
@spec("create_silentpayment_partial_secret", "send::create_silentpayment_partial_secret")
class _:
    def setup(v):
        a = v.args("lexmin", "spks"); v.accs = list(ps_accs(v.ex, v.a["spks"])); return a
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); okc, have, val = ps_parts(v.ex, v.a["lexmin"], v.a["spks"], v.accs); et = rt.args()[1]
        return [("error-iff", T.is_v(rt, 0, r) == okc), ("secret", z3.Implies(okc, T.acc(rt, 0, 0, r) == val)), ("not-zero", z3.Implies(okc, val != 0)),
                ("no-eligible-input-error", z3.Implies(z3.Not(have), r == T.mk(rt, 1, T.mk(et, vidx(et, "MissingInputsForSharedSecretDerivation")))))]
# ------------------------------------------------------------------ output keys
def out_accs(ex, ps, outs):
    """occ: how often each scan key occurred before position i; pay: keys derived per code before position i"""
    T = ex.T; cs = L(outs.sort()).es; AS = z3.ArraySort(R, I); MS = MapS(cs, ListS(R))
    occ = Acc("occ", AS, z3.K(R, z3.IntVal(0)), lambda i, a: z3.Store(a, cf(ex, lat(outs, i), "scan"), z3.Select(a, cf(ex, lat(outs, i), "scan")) + 1), (outs,))
    def pay_step(i, m):
        c = lat(outs, i); T.deep_note(c, spc(ex)); k = z3.Select(occ.at(i), cf(ex, c, "scan"))
        x = xonly(S_out(cf(ex, c, "spend"), mul(ps, cf(ex, c, "scan")), k))
        return mput(m, c, lpush(z3.If(mhas(m, c), mget(m, c), lempty(R)), x))
    return occ, Acc("pay", MS, mempty(cs, ListS(R)), pay_step, (ps, outs))
def S_pay(ex, ps, outs):
    """contract value of the derivation"""
    cs = L(outs.sort()).es; t = UF("S_pay", R, outs.sort(), MapS(cs, ListS(R)))(ps, outs)
    return define(t, lambda: out_accs(ex, ps, outs)[1].at(llen(outs)))
def c_pay(ex, st, inst, args, ty):
    outs = ex.term(st, args[1]); ex.c.oblige("requires[fewer than 2^32 payments]", st, llen(outs) < 2**32); return S_pay(ex, ex.term(st, args[0]), outs)
CONTRACTS["send::create_silentpayment_scriptpubkeys"] = c_pay
def out_cands(v, ex, st0, h, mods, leaves, pos):
    ps = v.a["secret"]; occ, pay = v.accs; out = []
    for ln, lf, s in leaves:
        if is_map(s) and M(s).ks == R:
            vs = M(s).vs
            if vs.kind() != z3.Z3_DATATYPE_SORT or vs.constructor(0).arity() != 2: continue
            for pn, pf in pos:
                def cache(st, l=lf, p=pf, vs=vs):
                    m = core.named(l(st)); q = fresh("qs", R); e = mget(m, q); o = z3.Select(occ.at(p(st)), q); f = [vs.accessor(0, j)(e) for j in (0, 1)]
                    if f[0].sort() != I: f.reverse()
                    return z3.ForAll([q], z3.If(mhas(m, q), z3.And(f[0] == o, o >= 1, o <= p(st), f[1] == mul(ps, q)), o == 0), patterns=[z3.Select(mdom(m), q)] if True else [])
                out.append(Cand(f"cache({ln},{pn})", cache))
    return out
@spec("create_silentpayment_scriptpubkeys", "send::create_silentpayment_scriptpubkeys", opt={"cands": out_cands})
class _:
    def setup(v):
        a = v.args("secret", "outputs"); v.accs = list(out_accs(v.ex, v.a["secret"], v.a["outputs"]))
        v.assume(llen(v.a["outputs"]) < 2**32); return a
    def post(v, st, ret): return [("keys-per-code", v.term(st, ret) == v.accs[1].at(llen(v.a["outputs"])))]
@lemma("lemma.pay-step")
def _(v):
    """one payment adds one key to its own code and its own scan key's counter, and touches nothing else"""
    ex = v.ex; cty = spc(ex); outs = z3.Const("outs", ListS(ex.T.sort(cty))); ps = z3.Const("ps", R); i = z3.Const("i", I); j = z3.Const("j", I)
    v.assume(z3.And(0 <= i, i < llen(outs), ps != 0)); occ, pay = out_accs(ex, ps, outs); c = lat(outs, i); d = v.sym("d", cty); s = z3.Const("s", R)
    o0, o1, p0, p1 = occ.at(i), occ.at(i + 1), pay.at(i), pay.at(i + 1); l0 = z3.If(mhas(p0, c), mget(p0, c), lempty(R)); l1 = mget(p1, c); k = z3.Select(o0, cf(ex, c, "scan"))
    for b in (occ.at(0), pay.at(0)): pass
    return [("starts-empty", z3.And(z3.Select(occ.at(0), s) == 0, z3.Not(mhas(pay.at(0), d)))),
            ("own-counter-moves", z3.Select(o1, s) == z3.Select(o0, s) + z3.If(s == cf(ex, c, "scan"), 1, 0)),
            ("one-key-added", z3.And(mhas(p1, c), llen(l1) == llen(l0) + 1, lat(l1, llen(l0)) == xonly(S_out(cf(ex, c, "spend"), mul(ps, cf(ex, c, "scan")), k)))),
            ("earlier-keys-kept", z3.Implies(z3.And(0 <= j, j < llen(l0)), lat(l1, j) == lat(l0, j))),
            ("others-unchanged", z3.Implies(d != c, z3.And(mhas(p1, d) == mhas(p0, d), mget(p1, d) == mget(p0, d))))]
# ------------------------------------------------------------------ senders holding keys
def min_acc(ex, name, params, op):
    T = ex.T; opt = adt(ex, "bitcoin", "OutPoint"); oop = opt_of_ref(ex, opt)
    def step(i, a):
        o = op(i); T.deep_note(o, opt); return T.mk(oop, 1, lm_new(ex, oop, a, o))
    return Acc(name, T.sort(oop), T.mk(oop, 0), step, params)
def min_bytes(ex, m):
    """bytes of an accumulated minimum"""
    T = ex.T; opt = adt(ex, "bitcoin", "OutPoint"); oop = opt_of_ref(ex, opt); o = T.acc(oop, 1, 0, m); T.deep_note(o, opt); return T.is_v(oop, 1, m), op_bytes(ex, o)
def list_acc(name, es, params, f, when=None):
    """list of f(i) in order"""
    return Acc(name, ListS(es), lempty(es), lambda i, a: lpush(a, f(i)) if when is None else z3.If(when(i), lpush(a, f(i)), a), params)
def any_acc(name, params, f, length):
    """does f hold somewhere from position i on"""
    return Acc(name, B, z3.BoolVal(False), lambda i, nx: z3.Or(f(i), nx), params, back=True, length=length)
def pair_sort(ex): return ex.T.tupsort([Bytes, R])
def sender_result(ex, rt, keys, mn, n, outs, bad):
    T = ex.T; has, mb = min_bytes(ex, mn.at(n)); okf, ps = S_ps(ex, mb, keys.at(n))
    good = z3.And(z3.Not(bad), has, okf); return good, S_pay(ex, ps, outs)
def sender_post(v, st, ret, bad, n):
    T = v.T; rt = v.retty(); r = v.term(st, ret); keys, mn = v.accs[0], v.accs[1]; good, pay = sender_result(v.ex, rt, keys, mn, n, v.a["outputs"], bad)
    return [("ok-iff", T.is_v(rt, 0, r) == good), ("outputs", z3.Implies(good, T.acc(rt, 0, 0, r) == pay))]
def sps_accs(ex, spend, ins):
    st = adt(ex, "bdk_sp", "SpOut"); es = pair_sort(ex); P = (spend, ins)
    def key(i): 
        s = lat(ins, i); ex.T.deep_note(s, st, 1); return lin(spend + fld(ex, st, s, "tweak"))
    def pair(i):
        k = key(i); return es.constructor(0)(p2tr(xonly(k)), k)
    return [list_acc("spsend_keys", es, P, pair), min_acc(ex, "spsend_min", P, lambda i: fld(ex, st, lat(ins, i), "outpoint")), any_acc("spsend_bad", P, lambda i: key(i) == 0, llen(ins))]
@spec("SpSender.send_to", "SpSender::send_to")
class _:
    def setup(v):
        a = v.args("self", "inputs", "outputs"); v.spend = fld(v.ex, adt(v.ex, "bdk_sp", "SpSender"), v.a["self"], "spend_sk"); v.accs = sps_accs(v.ex, v.spend, v.a["inputs"]); v.assume(llen(v.a["outputs"]) < 2**32); return a
    def post(v, st, ret): return sender_post(v, st, ret, v.accs[2].at(0), llen(v.a["inputs"]))
plain("SpSender.new", "SpSender::new", ["spend_sk"], lambda ex, a, ty: mkrec(ex, ty, spend_sk=a[0]))
plain("Xpriv.new", "XprivSilentPaymentSender::new", ["xpriv"], lambda ex, a, ty: mkrec(ex, ty, xpriv=a[0]))
# ------------------------------------------------------------------ bip32 sender
def tap_output(sk, root=None):
    """bip341 output key of an internal key: its even form plus the taproot tweak"""
    p = signed(sk); x = xonly(sk); r = lin(p + tap_scalar(x, root)); fact(r, r != 0); return r
def xps_accs(ex, xp, ins):
    es = pair_sort(ex); P = (xp, ins); T = ex.T; tup = ex.prog_tup(("bitcoin", "OutPoint")) if False else None
    xt = adt(ex, "bitcoin", "Xpriv"); s0 = L(ins.sort()).es; s1 = s0.accessor(0, 1).range()
    def parts(i):
        t = lat(ins, i); u = ap(s0.accessor(0, 1), t); o = ap(s0.accessor(0, 0), t); spk, path = ap(s1.accessor(0, 0), u), ap(s1.accessor(0, 1), u)
        okf = UF("derive_ok", xp.sort(), path.sort(), B)(xp, path); ch = UF("derive", xp.sort(), path.sort(), xp.sort())(xp, path); k = fld(ex, xt, ch, "private_key"); return o, spk, okf, k
    def pair(i):
        o, spk, okf, k = parts(i); return es.constructor(0)(spk, z3.If(is_p2tr(spk), tap_output(k), k))
    return [list_acc("xpsend_keys", es, P, pair), min_acc(ex, "xpsend_min", P, lambda i: parts(i)[0]), any_acc("xpsend_bad", P, lambda i: z3.Not(parts(i)[2]), llen(ins))]
@spec("Xpriv.send_to", "XprivSilentPaymentSender::send_to")
class _:
    def setup(v):
        a = v.args("self", "inputs", "outputs"); xp = fld(v.ex, adt(v.ex, "bdk_sp", "XprivSilentPaymentSender"), v.a["self"], "xpriv"); v.accs = xps_accs(v.ex, xp, v.a["inputs"]); v.assume(llen(v.a["outputs"]) < 2**32); return a
    def post(v, st, ret): return sender_post(v, st, ret, v.accs[2].at(0), llen(v.a["inputs"]))
# ------------------------------------------------------------------ both sides agree
def pair_list(ex, name): return z3.Const(name, ListS(pair_sort(ex)))
@lemma("lemma.eligible-key")
def _(v):
    """an input spent the way the sender's wallet spends it exposes exactly the key the sender sums up"""
    ex = v.ex; T = ex.T; xt = adt(ex, "bitcoin", "TxIn"); x = v.sym("txin", xt); spk = z3.Const("spk", Bytes); sk = z3.Const("sk", R); v.assume(sk != 0)
    e, oty = S_extract(ex, x, spk); tup = T.acc(oty, 1, 0, e); P = T.acc(oty.args()[0], 0, 1, tup); some_ = T.is_v(oty, 1, e)
    w = fld(ex, xt, x, "witness"); sig = fld(ex, xt, x, "script_sig"); key = ser(sk); lv, lp, lc = bpk_valid(key); wit_empty(w)
    fact(lv, z3.Implies(blen_(key) == 33, lv == validpk_(key)))
    wit = z3.And(wit_has_last(w), wit_last(w) == key); blen(sig)
    nums = z3.And(wit_has_cb(w), blen(wit_cb(w)) >= 33, bslice(wit_cb(w), 1, 33) == NUMS)
    a = z3.And(wit, blen(sig) == 0, is_p2wpkh(spk)); b = z3.And(wit, blen(sig) != 0, is_p2sh(spk), redeem_ok(sig), is_p2wpkh(redeem(sig)))
    tr = p2tr(xonly(sk)); et, _ = S_extract(ex, x, tr); pt = T.acc(oty.args()[0], 0, 1, T.acc(oty, 1, 0, et)); c = z3.And(wit_has_last(w), blen(sig) == 0, z3.Not(nums))
    serx(xonly(sk))
    return [("p2wpkh", z3.Implies(a, z3.And(some_, P == sk))), ("p2sh-p2wpkh", z3.Implies(b, z3.And(some_, P == sk))), ("p2tr-even", z3.Implies(c, z3.And(T.is_v(oty, 1, et), pt == signed(sk))))]
@lemma("lemma.key-sums-agree")
def _(v):
    """when the keys agree input by input, so do the sums and the counts (induction over the inputs)"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); prevs = z3.Const("prevs", ListS(T.sort(adt(ex, "bitcoin", "TxOut")))); l = pair_list(ex, "keys"); i = z3.Const("i", I)
    rs, rc, _ = td_accs(ex, tx, prevs); ss, sc_ = ps_accs(ex, l); s0 = pair_sort(ex)
    x = lat(fld(ex, tt, tx, "input"), i); e, oty = S_extract(ex, x, fld(ex, adt(ex, "bitcoin", "TxOut"), lat(prevs, i), "script_pubkey")); P = T.acc(oty.args()[0], 0, 1, T.acc(oty, 1, 0, e)); some_ = T.is_v(oty, 1, e)
    t = lat(l, i); spk, sk = ap(s0.accessor(0, 0), t), ap(s0.accessor(0, 1), t)
    v.assume(i >= 0)
    same = z3.And(some_ == spk_elig(spk), z3.Implies(some_, P == z3.If(is_p2tr(spk), signed(sk), sk)))
    for a in (rs, rc, ss, sc_): a.at(i + 1); a.at(0)
    I0 = lambda k: z3.And(rs.at(k) == ss.at(k), rc.at(k) == sc_.at(k))
    return [("start", I0(z3.IntVal(0))), ("step", z3.Implies(z3.And(same, I0(i)), I0(i + 1)))]
@lemma("lemma.same-secret")
def _(v):
    """equal sums give the same scalar and, for each scan key, the same shared secret; and both sides refuse alike"""
    ex = v.ex; a = z3.Const("a", R); s = z3.Const("s", R); o = z3.Const("o", Bytes); A = z3.Const("A", R); v.assume(z3.And(a != 0, s != 0, a == A))
    ps = mul(S_inhash(o, a), a); td = mul(S_inhash(o, A), A)
    return [("tweak-data", ps == td), ("shared-secret", mul(ps, s) == mul(s, mul(S_inhash(o, a), a))), ("not-zero", ps != 0)]
@lemma("lemma.same-secret-recipient")
def _(v):
    """the secret the sender uses for a code is the one its receiver computes from the transaction"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); prevs = z3.Const("prevs", ListS(T.sort(adt(ex, "bitcoin", "TxOut")))); l = pair_list(ex, "keys"); s = z3.Const("s", R)
    accs = td_accs(ex, tx, prevs); acs = ps_accs(ex, l); n = td_len(ex, tx, prevs); opt = adt(ex, "bitcoin", "OutPoint"); oop = opt_of_ref(ex, opt); rt = None
    for a in accs + acs: a.at = a.raw   # the sums are opaque here
    okr, val, m = td_parts(ex, tx, prevs, accs); mo = T.acc(oop, 1, 0, m); oks, have, ps = ps_parts(ex, op_bytes(ex, mo), l, acs)
    v.assume(z3.And(accs[0].at(n) == acs[0].at(llen(l)), accs[1].at(n) == acs[1].at(llen(l)), s != 0))
    return [("both-or-neither", okr == oks), ("same-point", z3.Implies(okr, ps == val)), ("same-secret", z3.Implies(okr, mul(ps, s) == mul(s, val)))]
@lemma("lemma.minimum")
def _(v):
    """folding the outpoints keeps a value that is one of them and not larger than any (induction over the sequence)"""
    ex = v.ex; T = ex.T; opt = adt(ex, "bitcoin", "OutPoint"); oop = opt_of_ref(ex, opt); m = v.sym("m", opt); o = v.sym("o", opt); p = v.sym("p", opt)
    n = lm_new(ex, oop, T.mk(oop, 1, m), o); f = lm_new(ex, oop, T.mk(oop, 0), o)
    for x, y in ((o, p), (p, o), (m, p), (p, m), (o, m), (m, o)): op_lt(ex, x, y)
    for x in (m, o, p): T.deep_note(x, opt)
    return [("first", f == o), ("one-of-them", z3.Or(n == m, n == o)), ("not-larger-than-new", z3.Not(op_lt(ex, o, n))), ("not-larger-than-old", z3.Implies(z3.Not(op_lt(ex, p, m)), z3.Not(op_lt(ex, p, n))))]
