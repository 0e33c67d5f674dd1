"""Contracts of signing a received output from a PSBT."""
from specs_psbt import *

class SigCache:
    """SighashCache of a transaction; it caches what the previous outputs hash to, so every call must pass the same ones"""
    def __init__(c, tx): c.tx = tx
@model("SighashCache::new")
def m_cache(ex, st, inst, args, ty): return SigCache(tm(ex, st, args[0]))
def sst(ex): return adt(ex, "bitcoin", "TapSighashType")
def sigt(ex): return next(t for t in ex.prog.types.values() if t.k == "adt" and adt_key(t)[1] == "Signature" and [n for n, _ in t.fields(0)] == ["signature", "sighash_type"] and "taproot" in str(t.d))
def sigmsg(tx, i, prevs, ty): return setlen(UF("tapsighash", tx.sort(), I, prevs.sort(), ty.sort(), Bytes)(tx, i, prevs, ty), 32)
@model("SighashCache::taproot_key_spend_signature_hash")
def m_tks(ex, st, inst, args, ty):
    c = D(ex, st, args[0]); i = tm(ex, st, args[1]); p = D(ex, st, args[2]); t = tm(ex, st, args[3])
    if not isinstance(c, SigCache) or not isinstance(p, Agg): raise Unsupported("sighash arguments")
    if p.ty.d["variants"][p.v]["name"] != "All": raise Unsupported("sighash over one previous output")
    prevs = tm(ex, st, p.f[0]); n = llen(fld(ex, adt(ex, "bitcoin", "Transaction"), c.tx, "input")); want = getattr(ex.c.v, "prevs", None)
    if want is None: raise Unsupported("sighash cache without declared previous outputs")
    ex.c.oblige("requires[same previous outputs for the cache]", st, prevs == want); st.add(prevs == want)
    return fork2(ex, st, simp(z3.And(i < n, llen(prevs) == n)), ok(ty, sigmsg(c.tx, i, prevs, t)), lambda s: err(ty, mkerr(ex, s, errty(ty))))
@model("<Message as From>::from")
def m_msg(ex, st, inst, args, ty): return tm(ex, st, args[0])
def schnorr_ok(sig, msg, x): return UF("schnorr_verifies", sig.sort(), Bytes, R, B)(sig, msg, x)
def schnorr(ex, msg, sk, ty):
    """a signature that verifies under the x-only key of the secret (assumed of secp256k1)"""
    s = UF("schnorr_sign", Bytes, R, ex.T.sort(ty))(msg, sk); fact(s, z3.Implies(sk != 0, schnorr_ok(s, msg, xonly(sk)))); return s
@model("Secp256k1::sign_schnorr_no_aux_rand", "Secp256k1::sign_schnorr")
def m_ssign(ex, st, inst, args, ty): return schnorr(ex, tm(ex, st, args[1]), tm(ex, st, args[2]), ty)

class Sgn:
    """the intended key path signatures of a PSBT"""
    def __init__(u, ex, psbt, k):
        T = ex.T; u.ex, u.psbt, u.k = ex, psbt, k; u.pt = pin_t(ex); u.tt = adt(ex, "bitcoin", "Transaction"); u.ot = adt(ex, "bitcoin", "TxOut"); u.tx = fld(ex, ps_t(ex), psbt, "unsigned_tx"); u.ins = fld(ex, ps_t(ex), psbt, "inputs"); u.n = llen(u.ins); u.nt = llen(fld(ex, u.tt, u.tx, "input"))
        u.names = [n for n, _ in T.vfields(u.pt, 0)]; u.si = u.names.index("tap_key_sig"); u.wi = u.names.index("witness_utxo"); u.soty = ftype(ex, u.pt, "tap_key_sig"); u.woty = ftype(ex, u.pt, "witness_utxo"); u.sty = u.soty.args()[0]; u.sso = T.sort(u.soty)
        u.prevs_a = list_acc("sign_prevs", T.sort(u.ot), (u.ins,), lambda j: T.acc(u.woty, 1, 0, u.wit(u.ins, j))); u.miss = any_acc("sign_missing", (u.ins,), lambda j: T.is_v(u.woty, 0, u.wit(u.ins, j)), u.n); u.miss.only = lambda src: isinstance(src, loops.ListSrc); u.prevs = u.prevs_a.at(u.n); u.accs = {}
        u.typ = T.mk(sst(ex), vidx(sst(ex), "Default"))
    def el(u, l, j): return z3.Select(ap(L(l.sort()).larr, l), j)
    def wit(u, l, j): return u.ex.T.acc(u.pt, 0, u.wi, u.el(l, j))
    def old(u, j): return u.ex.T.acc(u.pt, 0, u.si, u.el(u.ins, j))
    def sig(u, i, sk):
        msg = sigmsg(u.tx, i, u.prevs, u.typ); s = schnorr(u.ex, msg, sk, dict(u.ex.T.vfields(u.sty, 0))["signature"]); return s, mkrec(u.ex, u.sty, signature=s, sighash_type=u.typ), msg
    def acc(u, i):
        """the signature of input i after its first fields have been looked at"""
        i = z3.simplify(i); a = u.accs.get(i.get_id())
        if a is None:
            T = u.ex.T; pin = u.el(u.ins, i); T.deep_note(pin, u.pt, 2); m = pf(u.ex, pin, "proprietary"); n, at = enum_map(mdom(m))
            def step(q, s):
                f, sk = spfield(u.ex, pin, u.k, at(q), mget(m, at(q))); return z3.If(z3.And(T.is_v(u.soty, 0, s), f, z3.Not(u.miss.at(0))), T.mk(u.soty, 1, u.sig(i, sk)[1]), s)
            a = Acc("sign_input", u.sso, u.old(i), step, (u.psbt, u.k, i)); a.n = n; a.i = i; u.accs[i.get_id()] = a
        return a
    def final(u, j):
        return UF("S_sign", u.psbt.sort(), u.k.sort(), I, u.sso)(u.psbt, u.k, j)
    def fin(u, i):
        """the final signature of one input, with its definition"""
        t = u.final(i); a = u.acc(i); fact(t, t == a.at(a.n)); return t
    def rec(u, j, s): return rec_upd(u.ex, u.pt, u.el(u.ins, j), tap_key_sig=s)
    def is_(u, l, f):
        """inputs l are the given ones with the key path signatures f(j)"""
        j = z3.Const("sj", I); new = u.el(l, j); pats = [new] if not z3.is_store(ap(L(l.sort()).larr, l)) else []
        return z3.And(llen(l) == u.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < u.n), new == u.rec(j, f(j))), patterns=pats or [u.el(u.ins, j)]))
def sign_cands(v, ex, st0, h, mods, leaves, pos):
    u = v.u; out = []
    if all(s != u.ins.sort() for _, _, s in leaves):
        # nothing is signed in this loop: the accumulators stay where they were
        rng = [w for w in h.heap.values() if isinstance(w, It) and isinstance(w.src, loops.RangeSrc)]; j = z3.Const("kj", I)
        for pn, pf_ in pos:
            src = getattr(pf_, "src", None)
            if isinstance(src, loops.RangeSrc):
                def kept(st, p=pf_):
                    i = p(st); last = u.fin(simp(i - 1)); return z3.And(z3.Implies(i > 0, last == u.old(i - 1)), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), u.final(j) == u.old(j)), patterns=[u.final(j)]))
                out.append(Cand(f"unsigned({pn})", kept))
            if isinstance(src, loops.FnSrc):
                for w in {str(w.pos): w for w in rng}.values():
                    out.append(Cand(f"unsigned-yet({pn})", lambda st, p=pf_, w=w: (lambda i: u.acc(i).at(p(st)) == u.old(i))(simp(w.pos - 1))))
        return out
    rng = [w for w in h.heap.values() if isinstance(w, It) and isinstance(w.src, loops.RangeSrc)]
    for ln, lf, s in leaves:
        if s != u.ins.sort(): continue
        for pn, pf_ in pos:
            src = getattr(pf_, "src", None)
            if isinstance(src, loops.RangeSrc):
                def outer(st, l=lf, p=pf_):
                    i = p(st); last = u.fin(simp(i - 1)); return u.is_(l(st), lambda j: z3.If(j == i - 1, last, z3.If(j < i, u.final(j), u.old(j))))
                out.append(Cand(f"signed({ln},{pn})", outer))
            if isinstance(src, loops.FnSrc):
                for w in {str(w.pos): w for w in rng}.values():
                    def inner(st, l=lf, p=pf_, w=w):
                        i = simp(w.pos - 1); a = u.acc(i); return u.is_(l(st), lambda j: z3.If(j < i, u.final(j), z3.If(j == i, a.at(p(st)), u.old(j))))
                    out.append(Cand(f"signing({ln},{pn})", inner))
    return out
@spec("psbt.sign_sp", "sign::sign_sp", opt={"cands": sign_cands})
class _:
    def setup(v):
        a = v.args("psbt", "k", "secp"); v.cell = a[0].cell; v.u = u = Sgn(v.ex, v.a["psbt"], v.a["k"]); v.prevs = u.prevs; v.accs = [u.prevs_a, u.miss]; v.assume(u.n == u.nt); return a
    def post(v, st, ret):
        u = v.u; ex = v.ex; p2 = v.term(st, st.heap[v.cell]); l = fld(ex, ps_t(ex), p2, "inputs")
        return [("only-inputs-change", p2 == rec_upd(ex, ps_t(ex), u.psbt, inputs=l)), ("only-signatures-change", u.is_(l, u.final))]
@spec("psbt.add_sp_data", "sign::add_sp_data_to_input")
class _:
    def setup(v):
        a = v.args("psbt", "i", "spend", "tweak"); v.cell = a[0].cell; return a
    def post(v, st, ret):
        ex = v.ex; T = ex.T; p = v.a["psbt"]; p2 = v.term(st, st.heap[v.cell]); pt = pin_t(ex); ins = fld(ex, ps_t(ex), p, "inputs"); l = fld(ex, ps_t(ex), p2, "inputs"); i = v.a["i"]; at = lambda q, j: z3.Select(ap(L(q.sort()).larr, q), j); j = z3.Const("aj", I); inr = z3.And(0 <= i, i < llen(ins))
        kv = mkrec(ex, adt(ex, "bitcoin", "ProprietaryKey"), prefix=lit(b"bip352"), subtype=z3.IntVal(SUB), key=ser(v.a["spend"])); val = sers(v.a["tweak"]); m, m2 = pf(ex, at(ins, i), "proprietary"), pf(ex, at(l, i), "proprietary"); x = fresh("kk", kv.sort()); wf, pk, t = S_spdata(fld(ex, adt(ex, "bitcoin", "ProprietaryKey"), kv, "key"), val)
        return [("only-inputs-change", p2 == rec_upd(ex, ps_t(ex), p, inputs=l)), ("length", llen(l) == llen(ins)), ("others-unchanged", z3.Implies(z3.And(0 <= j, j < llen(ins), j != i), at(l, j) == at(ins, j))), ("out-of-range", z3.Implies(z3.Not(inr), l == ins)),
                ("only-field-added", z3.Implies(inr, at(l, i) == rec_upd(ex, pt, at(ins, i), proprietary=m2))), ("field", z3.Implies(inr, z3.And(mhas(m2, kv), mget(m2, kv) == val))), ("other-fields", z3.Implies(z3.And(inr, x != kv), z3.And(mhas(m2, x) == mhas(m, x), mget(m2, x) == mget(m, x)))),
                ("reads-back", z3.And(wf, pk == v.a["spend"], t == v.a["tweak"]))]
@lemma("lemma.signature-verifies")
def _(v):
    """with a key provider that answers a request for a key with its secret, the signature a usable field yields verifies under the key of the spent output"""
    ex = v.ex; T = ex.T; psbt = v.sym("psbt", ps_t(ex)); k = z3.Const("k", T.sort(adt(ex, "roots", "AbsKeys"))); i = z3.Const("i", I); u = Sgn(ex, psbt, k); v.assume(z3.And(0 <= i, i < u.n)); pin = u.el(u.ins, i); T.deep_note(pin, u.pt, 2)
    kv = v.sym("field", adt(ex, "bitcoin", "ProprietaryKey")); val = z3.Const("val", Bytes); ok_, sk = spfield(ex, pin, k, kv, val); wf, p, t = S_spdata(fld(ex, adt(ex, "bitcoin", "ProprietaryKey"), kv, "key"), val); v.assume(found(ex, k, req(ex, "Pubkey", bpk(ex, p)))[2] == p)
    w = T.acc(u.woty, 1, 0, pf(ex, pin, "witness_utxo")); x = S_outkey(fld(ex, u.ot, w, "script_pubkey"))[1]; s, full, msg = u.sig(i, sk); q = lin(p + t); even(q); even(sk)
    pj = u.prevs_a; a = pj.at(simp(i + 1))
    return [("verifies", z3.Implies(ok_, schnorr_ok(s, msg, x))), ("default-type", mkrec(ex, u.sty, signature=s, sighash_type=u.typ) == full)]
@lemma("lemma.signs-usable")
def _(v):
    """an unsigned input with a usable field ends up signed by the first such field (induction over the fields), an input without one as it was"""
    ex = v.ex; T = ex.T; psbt = v.sym("psbt", ps_t(ex)); k = z3.Const("k", T.sort(adt(ex, "roots", "AbsKeys"))); i = z3.Const("i", I); q = z3.Const("q", I); u = Sgn(ex, psbt, k); v.assume(z3.And(0 <= i, i < u.n)); a = u.acc(i); v.assume(z3.And(0 <= q, q < a.n)); pin = u.el(u.ins, i); m = pf(ex, pin, "proprietary"); n, at = enum_map(mdom(m)); f, sk = spfield(ex, pin, k, at(q), mget(m, at(q)))
    now, nxt = a.at(q), a.at(simp(q + 1)); no = lambda t: T.is_v(u.soty, 0, t); full = T.mk(u.soty, 1, u.sig(i, sk)[1])
    return [("starts-as-it-was", a.at(0) == u.old(i)), ("signed-stays", z3.Implies(z3.Not(no(now)), nxt == now)), ("usable-signs", z3.Implies(z3.And(no(now), f, z3.Not(u.miss.at(0))), nxt == full)), ("unusable-skipped", z3.Implies(z3.Not(z3.And(f, z3.Not(u.miss.at(0)))), nxt == now))]
