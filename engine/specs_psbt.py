"""Contracts of the PSBT derivation and signing."""
from specs_dleq import *

def opt_parts(ex, oty, t): return ex.T.is_v(oty, 1, t), ex.T.note(ex.T.acc(oty, 1, 0, t), oty.args()[0])
def pin_t(ex): return adt(ex, "bitcoin", "Input")
def ftype(ex, ty, name): return dict(ex.T.vfields(ty, 0))[name]
def pf(ex, pin, name): return fld(ex, pin_t(ex), pin, name)
def popt(ex, pin, name): return opt_parts(ex, ftype(ex, pin_t(ex), name), pf(ex, pin, name))
# ---------------------------------------------------------------- previous output and final input
def S_prevout(ex, pin, txin):
    """(known, script) of the spent output"""
    tt, xt, ot, opt = adt(ex, "bitcoin", "Transaction"), adt(ex, "bitcoin", "TxIn"), adt(ex, "bitcoin", "TxOut"), adt(ex, "bitcoin", "OutPoint")
    hw, w = popt(ex, pin, "witness_utxo"); hn, n = popt(ex, pin, "non_witness_utxo"); op = fld(ex, xt, txin, "previous_output"); ex.T.deep_note(op, opt)
    outs = fld(ex, tt, n, "output"); vout = fld(ex, opt, op, "vout")
    return z3.Or(hw, z3.And(hn, vout < llen(outs))), z3.If(hw, fld(ex, ot, w, "script_pubkey"), fld(ex, ot, lat(outs, vout), "script_pubkey"))
def c_prevout(ex, st, inst, args, ty):
    k, s = S_prevout(ex, ex.term(st, args[0]), ex.term(st, args[1])); return fork2(ex, st, k, ok(ty, s), lambda s_: err(ty, mkerr(ex, s_, errty(ty))))
CONTRACTS["psbt::get_prevout_script"] = c_prevout
@spec("psbt.prevout", "psbt::get_prevout_script")
class _:
    def setup(v): return v.args("input", "txin")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); k, s = S_prevout(v.ex, v.a["input"], v.a["txin"]); return [("known-iff", T.is_v(rt, 0, r) == k), ("script", z3.Implies(k, T.acc(rt, 0, 0, r) == s))]
def rec_upd(ex, ty, t, **f): return mkrec(ex, ty, **{n: f.get(n, ex.T.acc(ty, 0, i, t)) for i, (n, _) in enumerate(ex.T.vfields(ty, 0))})
def S_full(ex, txin, pin):
    """(finalised, the input as it will be in the transaction)"""
    xt = adt(ex, "bitcoin", "TxIn"); hw, w = popt(ex, pin, "final_script_witness"); hs, s = popt(ex, pin, "final_script_sig")
    return z3.Or(hw, hs), rec_upd(ex, xt, txin, witness=z3.If(hw, w, fld(ex, xt, txin, "witness")), script_sig=z3.If(hs, s, fld(ex, xt, txin, "script_sig")))
def c_full(ex, st, inst, args, ty):
    k, s = S_full(ex, ex.term(st, args[0]), ex.term(st, args[1])); return fork2(ex, st, k, ok(ty, s), lambda s_: err(ty, mkerr(ex, s_, errty(ty))))
CONTRACTS["psbt::build_full_txin"] = c_full
@spec("psbt.full_txin", "psbt::build_full_txin")
class _:
    def setup(v): return v.args("txin", "input")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); k, s = S_full(v.ex, v.a["txin"], v.a["input"]); return [("finalised-iff", T.is_v(rt, 0, r) == k), ("final-input", z3.Implies(k, T.acc(rt, 0, 0, r) == s))]
# ---------------------------------------------------------------- key providers
def getkey_ty(ex): return ty_of(ex, lambda t: t.k == "adt" and adt_key(t) == ("core", "Result") and t.args()[1].k == "adt" and adt_key(t.args()[1])[1] == "AbsKeyErr" and t.args()[0].k == "adt" and adt_key(t.args()[0]) == ("core", "Option") and adt_key(t.args()[0].args()[0])[1] == "PrivateKey")
def req_t(ex): return adt(ex, "bitcoin", "KeyRequest")
def S_getkey(ex, k, req):
    """an arbitrary key provider: some function of the request"""
    ty = getkey_ty(ex); return UF("getkey", k.sort(), req.sort(), ex.T.sort(ty))(k, req), ty
def c_getkey(ex, st, inst, args, ty): return S_getkey(ex, ex.term(st, args[0]), ex.term(st, args[1]))[0]
CONTRACTS["<AbsKeys as GetKey>::get_key"] = c_getkey
def req(ex, variant, x): t = req_t(ex); return ex.T.mk(t, vidx(t, variant), x)
def bpk(ex, p): return mkrec(ex, adt(ex, "bitcoin", "PublicKey"), compressed=z3.BoolVal(True), inner=p)
def found(ex, k, rq):
    """(is error, has key, secret) the provider answers"""
    t, ty = S_getkey(ex, k, rq); ot = ty.args()[0]; T = ex.T; o = T.acc(ty, 0, 0, t); pk = T.acc(ot, 1, 0, o); s = fld(ex, adt(ex, "bitcoin", "PrivateKey"), pk, "inner"); fact(s, s != 0)
    return T.is_v(ty, 1, t), z3.And(T.is_v(ty, 0, t), T.is_v(ot, 1, o)), s
def lookup(ex, k, src, rq2):
    """derivation path first, then the key itself: (error, has key, secret)"""
    e1, h1, s1 = found(ex, k, req(ex, "Bip32", src)); e2, h2, s2 = found(ex, k, rq2)
    return z3.And(z3.Not(h1), e2), z3.Or(h1, h2), z3.If(h1, s1, s2)
def root_of(ex, pin): oty = ftype(ex, pin_t(ex), "tap_merkle_root"); r = pf(ex, pin, "tap_merkle_root"); return z3.If(ex.T.is_v(oty, 0, r), EMPTY, ex.T.acc(oty, 1, 0, r))
def first_accs(name, params, f, n):
    """first position whose lookup answers with an error (2) or a key (1), else 0; f(i) = (error, has key, key)"""
    def st_(i, nx): e, h, s = f(i); return z3.If(e, z3.IntVal(2), z3.If(h, z3.IntVal(1), nx))
    def ky(i, nx): e, h, s = f(i); return z3.If(z3.And(h, z3.Not(e)), s, nx)
    return Acc(name + "_status", I, z3.IntVal(0), st_, params, back=True, length=n), Acc(name + "_key", R, z3.RealVal(0), ky, params, back=True, length=n)
def tr_accs(ex, pin, k):
    m = pf(ex, pin, "tap_key_origins"); n, at = enum_map(mdom(m)); T = ex.T
    def f(i):
        x = at(i); v = mget(m, x); fact(x, z3.And(x != 0, even(x))); vs = v.sort(); src = ap(vs.accessor(0, 1), v); e, h, s = lookup(ex, k, src, req(ex, "XOnlyPubkey", x)); return e, h, tap_output(s, root_of(ex, pin))
    return first_accs("trsecret", (pin, k), f, n)
def ntr_accs(ex, pin, k):
    m = pf(ex, pin, "bip32_derivation"); n, at = enum_map(mdom(m))
    def f(i):
        x = at(i); fact(x, x != 0); return lookup(ex, k, mget(m, x), req(ex, "Pubkey", bpk(ex, x)))
    return first_accs("ntrsecret", (pin, k), f, n)
def S_secret(ex, name, accs, pin, k):
    """(status, key) as functions of the input and the provider"""
    a = UF("S_" + name + "_status", pin.sort(), k.sort(), I)(pin, k); b = UF("S_" + name + "_key", pin.sort(), k.sort(), R)(pin, k)
    FACTS.add_lazy(a, lambda: [a == accs(ex, pin, k)[0].at(0)]); FACTS.add_lazy(b, lambda: [b == accs(ex, pin, k)[1].at(0)]); fact(a, z3.And(a >= 0, a <= 2)); fact(b, z3.Implies(a == 1, b != 0)); return a, b
def secret_contract(name, accs):
    def c(ex, st, inst, args, ty):
        a, b = S_secret(ex, name, accs, ex.term(st, args[0]), ex.term(st, args[1])); out = []; oty = ty.args()[0]
        for s, w in ex.branch(st, [(a == 0, 0), (a == 1, 1), (a == 2, 2)]): out.append((s, ok(ty, none(oty)) if w == 0 else ok(ty, some(oty, b)) if w == 1 else err(ty, mkerr(ex, s, errty(ty)))))
        return out
    return c
def secret_post(v, st, ret):
    T = v.T; rt = v.retty(); r = v.term(st, ret); a, b = v.accs; oty = rt.args()[0]; o = T.acc(rt, 0, 0, r)
    return [("error-iff", T.is_v(rt, 1, r) == (a.at(0) == 2)), ("none-iff", z3.And(T.is_v(rt, 0, r), T.is_v(oty, 0, o)) == (a.at(0) == 0)), ("first-key", z3.Implies(a.at(0) == 1, T.acc(oty, 1, 0, o) == b.at(0))), ("not-zero", z3.Implies(a.at(0) == 1, b.at(0) != 0)), ("status", z3.And(a.at(0) >= 0, a.at(0) <= 2))]
for nm, key, accs in (("psbt.taproot_secret", "psbt::get_taproot_secret", tr_accs), ("psbt.other_secret", "psbt::get_non_taproot_secret", ntr_accs)):
    def setup(v, accs=accs):
        a = v.args("input", "k", "secp"); v.accs = list(accs(v.ex, v.a["input"], v.a["k"])); return a
    SPECS[nm] = Spec(nm, key, setup, secret_post); CONTRACTS[key] = secret_contract(accs.__name__, accs)
# ---------------------------------------------------------------- silent payment fields of an input
SUB = 1
def S_spdata(key, val):
    """(well formed, spend key, tweak) of a bip352 field"""
    v, p = models_btc.secp_pk(key); n = blen(val); t = unsers(val); return z3.And(v, n == 32, validsc_(val)), p, t
def opt_pair(ex): return ty_of(ex, lambda t: t.k == "adt" and adt_key(t) == ("core", "Option") and t.args()[0].k == "tuple" and [adt_key(x) if x.k == "adt" else None for x in t.args()[0].args()] == [("secp256k1", "PublicKey"), ("secp256k1", "Scalar")])
def c_spdata(ex, st, inst, args, ty):
    k, p, t = S_spdata(ex.term(st, args[0]), ex.term(st, args[1])); tt = ty.args()[0]; return fork2(ex, st, k, lambda s: some(ty, Agg(tt, 0, [p, t])), none(ty))
CONTRACTS["sign::parse_sp_data"] = c_spdata
@spec("psbt.parse_sp_data", "sign::parse_sp_data")
class _:
    def setup(v): return v.args("key", "value")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); k, p, t = S_spdata(v.a["key"], v.a["value"]); tt = rt.args()[0]; x = T.acc(rt, 1, 0, r)
        return [("well-formed-iff", T.is_v(rt, 1, r) == k), ("spend-key", z3.Implies(k, T.acc(tt, 0, 0, x) == p)), ("tweak", z3.Implies(k, T.acc(tt, 0, 1, x) == t))]
def S_outkey(spk):
    """(is taproot with a valid key, its x-only key)"""
    x = bslice(spk, 2, 34); r = unserx(x); return z3.And(is_p2tr(spk), validx_(x)), r
def c_outkey(ex, st, inst, args, ty):
    k, x = S_outkey(fld(ex, adt(ex, "bitcoin", "TxOut"), ex.term(st, args[0]), "script_pubkey")); return fork2(ex, st, k, some(ty, x), none(ty))
CONTRACTS["sign::output_key"] = c_outkey
@spec("psbt.output_key", "sign::output_key")
class _:
    def setup(v): return v.args("txout")
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); k, x = S_outkey(fld(v.ex, adt(v.ex, "bitcoin", "TxOut"), v.a["txout"], "script_pubkey")); return [("taproot-iff", T.is_v(rt, 1, r) == k), ("key", z3.Implies(k, T.acc(rt, 1, 0, r) == x))]
def spfield(ex, pin, k, kv, val):
    """does this proprietary field give the key of the input's output? (usable, output secret)"""
    pt = adt(ex, "bitcoin", "ProprietaryKey"); pre, sub, key = fld(ex, pt, kv, "prefix"), fld(ex, pt, kv, "subtype"), fld(ex, pt, kv, "key")
    wf, p, t = S_spdata(key, val); hw, w = popt(ex, pin, "witness_utxo"); ko, x = S_outkey(fld(ex, adt(ex, "bitcoin", "TxOut"), w, "script_pubkey")); fact(p, z3.Implies(wf, p != 0))
    q = lin(p + t); e, h, s = found(ex, k, req(ex, "Pubkey", bpk(ex, p))); sk = lin(s + t)
    return z3.And(pre == lit(b"bip352"), sub == SUB, wf, hw, ko, q != 0, h, xonly(q) == x, sk != 0), sk
def sp_accs(ex, pin, k):
    m = pf(ex, pin, "proprietary"); n, at = enum_map(mdom(m))
    def f(i):
        u, s = spfield(ex, pin, k, at(i), mget(m, at(i))); return z3.BoolVal(False), u, s
    return first_accs("spsecret", (pin, k), f, n)
def setup(v):
    a = v.args("input", "k", "secp"); v.accs = list(sp_accs(v.ex, v.a["input"], v.a["k"])); return a
SPECS["psbt.sp_secret"] = Spec("psbt.sp_secret", "psbt::get_sp_secret", setup, secret_post); CONTRACTS["psbt::get_sp_secret"] = secret_contract("sp_accs", sp_accs)
# ---------------------------------------------------------------- collecting the input keys
def ps_t(ex): return adt(ex, "bitcoin", "Psbt")
def psbt_ins(ex, psbt):
    tt = adt(ex, "bitcoin", "Transaction"); tx = fld(ex, ps_t(ex), psbt, "unsigned_tx"); a = fld(ex, ps_t(ex), psbt, "inputs"); b = fld(ex, tt, tx, "input"); n = z3.If(llen(a) <= llen(b), llen(a), llen(b)); return a, b, simp(n)
def extracted(ex, e, oty):
    """(eligible, is taproot, key)"""
    T = ex.T; tt = oty.args()[0]; t = T.acc(oty, 1, 0, e); ity = tt.args()[0]; p = T.acc(tt, 0, 1, t); fact(p, z3.Implies(T.is_v(oty, 1, e), p != 0)); return T.is_v(oty, 1, e), T.is_v(ity, vidx(ity, "Tr"), T.acc(tt, 0, 0, t)), p
def input_step(ex, pin, x, k):
    """(no error, contributes, script, secret) of one input"""
    T = ex.T; T.deep_note(x, adt(ex, "bitcoin", "TxIn"), 2); kp, spk = S_prevout(ex, pin, x); a, s0 = S_secret(ex, "sp_accs", sp_accs, pin, k); kf, full = S_full(ex, x, pin); e, oty = S_extract(ex, full, spk); el, tr, p = extracted(ex, e, oty)
    ta, ts = S_secret(ex, "tr_accs", tr_accs, pin, k); na, ns = S_secret(ex, "ntr_accs", ntr_accs, pin, k)
    owns = z3.If(tr, z3.And(ta == 1, xonly(ts) == p), z3.And(na == 1, ns == p)); sp = a == 1
    return z3.And(kp, z3.Or(sp, z3.And(kf, z3.Or(z3.Not(el), owns)))), z3.Or(sp, el), spk, z3.If(sp, s0, z3.If(tr, ts, ns))
def cid_accs(ex, psbt, k):
    ins, txins, n = psbt_ins(ex, psbt); es = pair_sort(ex); P = (psbt, k); xt = adt(ex, "bitcoin", "TxIn"); st = lambda i: input_step(ex, lat(ins, i), lat(txins, i), k)
    def push(i, l):
        ok_, c, spk, sk = st(i); return z3.If(c, lpush(l, es.constructor(0)(spk, sk)), l)
    return [Acc("cid_ok", B, z3.BoolVal(True), lambda i, nx: z3.And(st(i)[0], nx), P, back=True, length=n), Acc("cid_keys", ListS(es), lempty(es), push, P), min_acc(ex, "cid_min", P, lambda i: fld(ex, xt, lat(txins, i), "previous_output"))]
def cid_parts(ex, psbt, k, accs):
    okf, keys, mn = accs; n = psbt_ins(ex, psbt)[2]; l = keys.at(n); has, mb = min_bytes(ex, mn.at(n)); return z3.And(okf.at(0), llen(l) > 0), l, mb
@spec("psbt.collect_input_data", "psbt::collect_input_data")
class _:
    def setup(v):
        a = v.args("psbt", "k", "secp"); v.accs = cid_accs(v.ex, v.a["psbt"], v.a["k"]); return a
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); good, l, mb = cid_parts(v.ex, v.a["psbt"], v.a["k"], v.accs); dt = rt.args()[0]; d = T.acc(rt, 0, 0, r)
        return [("error-iff", T.is_v(rt, 0, r) == good), ("keys", z3.Implies(good, fld(v.ex, dt, d, "scripts_with_secrets") == l)), ("smallest", z3.Implies(good, fld(v.ex, dt, d, "lex_min_outpoint") == mb))]
def S_cid(ex, psbt, k):
    okf = UF("S_cid_ok", psbt.sort(), k.sort(), B)(psbt, k); l = UF("S_cid_keys", psbt.sort(), k.sort(), ListS(pair_sort(ex)))(psbt, k); mb = setlen(UF("S_cid_min", psbt.sort(), k.sort(), Bytes)(psbt, k), 36)
    for j, t in enumerate((okf, l, mb)): FACTS.add_lazy(t, lambda t=t, j=j: [t == cid_parts(ex, psbt, k, cid_accs(ex, psbt, k))[j]])
    return okf, l, mb
def c_cid(ex, st, inst, args, ty):
    okf, l, mb = S_cid(ex, ex.term(st, args[0]), ex.term(st, args[1])); return fork2(ex, st, okf, lambda s: ok(ty, mkrec(ex, ty.args()[0], scripts_with_secrets=l, lex_min_outpoint=mb)), lambda s: err(ty, mkerr(ex, s, errty(ty))))
CONTRACTS["psbt::collect_input_data"] = c_cid
# ---------------------------------------------------------------- replacing the placeholders
def PH(ex, c):
    """placeholder script of a code, as the (opaque) value its contract promises"""
    t = UF("S_ph", c.sort(), Bytes)(c); return define(t, lambda: S_ph(ex, c))
CONTRACTS["SilentPaymentCode::get_placeholder_p2tr_spk"] = lambda ex, st, inst, args, ty: PH(ex, ex.term(st, args[0]))
def phf(c): return UF("S_ph", c.sort(), Bytes)(c)
def codeof(cs, s): return UF("codeof", Bytes, cs)(s)
class Upd:
    """the intended result of filling the placeholders of psbt with the keys sp"""
    def __init__(u, ex, psbt, sp):
        u.ex, u.psbt, u.sp = ex, psbt, sp; u.tt, u.ot = adt(ex, "bitcoin", "Transaction"), adt(ex, "bitcoin", "TxOut"); u.tx = fld(ex, ps_t(ex), psbt, "unsigned_tx"); u.outs = fld(ex, u.tt, u.tx, "output"); u.n = llen(u.outs); u.cs = M(sp.sort()).ks
        AS = z3.ArraySort(Bytes, I); u.occ = Acc("outocc", AS, z3.K(Bytes, z3.IntVal(0)), lambda i, a: z3.Store(a, u.spk(i), z3.Select(a, u.spk(i)) + 1), (u.outs,))
        u.cn, u.at = enum_map(mdom(sp)); u.ix = lambda c: UF(f"enumix<{u.cs}>", mdom(sp).sort(), u.cs, I)(mdom(sp), c)
    def o(u, l, j, f): return u.ex.T.acc(u.ot, 0, [n for n, _ in u.ex.T.vfields(u.ot, 0)].index(f), z3.Select(ap(L(l.sort()).larr, l), j))
    def spk(u, j): return u.o(u.outs, j, "script_pubkey")
    def code(u, j): return codeof(u.cs, u.spk(j))
    def cnt(u, s): return z3.Select(u.occ.at(u.n), s)
    def target(u, j): c = u.code(j); return z3.And(z3.Select(mdom(u.sp), c), phf(c) == u.spk(j))
    def rank(u, j): return z3.Select(u.occ.raw(j), u.spk(j))
    def want(u, j): ks = z3.Select(mval(u.sp), u.code(j)); return p2tr(z3.Select(ap(L(ks.sort()).larr, ks), u.rank(j)))
    def keys(u, c): return llen_raw(z3.Select(mval(u.sp), c))
    def rng(u, j): return z3.And(0 <= j, j < u.n)
    def distinct(u): c = z3.Const("dc", u.cs); return z3.And(u.cn >= 0, z3.ForAll([c], z3.Implies(z3.Select(mdom(u.sp), c), codeof(u.cs, phf(c)) == c), patterns=[phf(c)]))
    def mism(u, c): return z3.And(z3.Select(mdom(u.sp), c), u.cnt(phf(c)) > 0, u.cnt(phf(c)) != u.keys(c))
    def filled(u, l, cov):
        """outputs l: the covered targets carry their key, everything else is as before"""
        j = z3.Const("fj", I); s = L(l.sort()); old = z3.Select(ap(s.larr, u.outs), j); new = z3.Select(ap(s.larr, l), j)
        return z3.And(llen(l) == u.n, z3.ForAll([j], z3.Implies(u.rng(j), z3.And(u.o(l, j, "value") == u.o(u.outs, j, "value"), z3.If(cov(j), u.o(l, j, "script_pubkey") == u.want(j), new == old))), patterns=[new, old] if not z3.is_store(ap(s.larr, l)) else [old]))
    def final(u, l): return u.filled(l, u.target)
def llen_raw(l): return ap(L(l.sort()).llen, l)
def cov(l, n=None):
    """the indices listed by the first n elements of a list of (index, script)"""
    s = L(l.sort()); AB = z3.ArraySort(I, B); f = UF("cov", z3.ArraySort(I, s.es), I, AB); F0 = z3.K(I, z3.BoolVal(False)); fst = lambda e: ap(s.es.accessor(0, 0), e)
    def go(arr, n, d):
        n = z3.simplify(n); k = as_int(n)
        if k == 0: return F0
        r = f(arr, n); fact(r, z3.Implies(n == 0, r == F0))
        if z3.is_store(arr) and d < 8 and z3.is_true(z3.simplify(n == arr.arg(1) + 1)):
            fact(r, z3.Implies(arr.arg(1) >= 0, r == z3.Store(go(arr.arg(0), arr.arg(1), d + 1), fst(arr.arg(2)), z3.BoolVal(True))))
        m = z3.simplify(n - 1); fact(r, z3.Implies(n > 0, r == z3.Store(f(arr, m), fst(z3.Select(arr, m)), z3.BoolVal(True))))
        return r
    return go(ap(s.larr, l), llen(l) if n is None else n, 0)
def upd_cands(v, ex, st0, h, mods, leaves, pos):
    u = v.u; out = []; I0 = lambda t: z3.And(0 <= t, t < u.n); j = z3.Const("cj", I); k = z3.Const("ck", Bytes)
    def overmap(pf): src = getattr(pf, "src", None); return isinstance(src, loops.FnSrc) and src.key[0] == "map" and src.key[3].eq(u.sp)
    outer = [w for w in h.heap.values() if isinstance(w, It) and isinstance(w.src, loops.FnSrc) and w.src.key[0] == "map" and w.src.key[3].eq(u.sp)]
    for ln, lf, s in leaves:
        for pn, pf in pos:
            if is_map(s) and M(s).ks == Bytes and is_list(M(s).vs) and L(M(s).vs).es == I:
                def idx(st, l=lf, p=pf):
                    m = l(st); i = p(st); e = z3.Select(mval(m), k); ea = z3.Select(ap(L(e.sort()).larr, e), j); oc = z3.Select(u.occ.at(i), k); ej = z3.Select(mval(m), u.spk(j)); dm = z3.Select(mdom(m), k)
                    return z3.And(z3.ForAll([k], z3.And(dm == (oc > 0), oc >= 0, z3.Implies(dm, llen_raw(e) == oc)), patterns=[z3.Select(mdom(m), k)]),
                                  z3.ForAll([k, j], z3.Implies(z3.And(dm, 0 <= j, j < llen_raw(e)), z3.And(0 <= ea, ea < i, u.spk(ea) == k, z3.Select(u.occ.raw(ea), k) == j)), patterns=[ea]),
                                  z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.And(z3.Select(mdom(m), u.spk(j)), 0 <= u.rank(j), u.rank(j) < llen_raw(ej), z3.Select(ap(L(ej.sort()).larr, ej), u.rank(j)) == j)), patterns=[u.spk(j)]))
                out.append(Cand(f"index({ln},{pn})", idx))
            if is_list(s) and str(L(s).es).startswith("Tup<Int,Bytes"):
                fst, snd = L(s).es.accessor(0, 0), L(s).es.accessor(0, 1)
                def entry(l): e = z3.Select(ap(L(l.sort()).larr, l), j); return ap(fst, e), ap(snd, e), e
                def good(st, l=lf, s=s):
                    l = l(st); a, b, e = entry(l); return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen_raw(l)), z3.And(I0(a), u.target(a), b == u.want(a))), patterns=[e])
                out.append(Cand(f"replacements({ln})", good))
                def covers(st, l=lf, p=pf): l = l(st); c = cov(l); i = p(st); return z3.ForAll([j], z3.Implies(I0(j), z3.Select(c, j) == z3.And(u.target(j), u.ix(u.code(j)) < i)), patterns=[u.spk(j)])
                if overmap(pf): out.append(Cand(f"covered({ln},{pn})", covers))
                for w in {str(w.pos): w for w in outer}.values() if not overmap(pf) else []:
                    def inner(st, l=lf, p=pf, w=w):
                        l = l(st); c = cov(l); i = simp(w.pos - 1); q = p(st); return z3.ForAll([j], z3.Implies(I0(j), z3.Select(c, j) == z3.And(u.target(j), z3.Or(u.ix(u.code(j)) < i, z3.And(u.ix(u.code(j)) == i, u.rank(j) < q)))), patterns=[u.spk(j)])
                    out.append(Cand(f"covering({ln},{pn})", inner))
            if s == u.outs.sort():
                for w in [x for x in h.heap.values() if isinstance(x, It) and isinstance(x.src, loops.ListSrc) and is_list(x.src.t.sort()) and str(L(x.src.t.sort()).es).startswith("Tup<Int,Bytes")]:
                    def part(st, l=lf, p=pf, t=w.src.t): c = cov(t, p(st)); return u.filled(l(st), lambda j: z3.Select(c, j))
                    out.append(Cand(f"filled({ln},{pn})", part))
    for pn, pf in pos:
        if not overmap(pf): continue
        def match(st, p=pf): c = z3.Const("mc", u.cs); return z3.ForAll([c], z3.Implies(z3.And(z3.Select(mdom(u.sp), c), u.ix(c) < p(st)), z3.Or(u.cnt(phf(c)) == 0, u.cnt(phf(c)) == u.keys(c))), patterns=[z3.Select(mdom(u.sp), c)])
        out.append(Cand(f"matched({pn})", match))
    return out
@spec("psbt.update_outputs", "psbt::update_outputs", opt={"cands": upd_cands})
class _:
    def setup(v):
        a = v.args("psbt", "sp"); v.cell = a[0].cell; v.u = u = Upd(v.ex, v.a["psbt"], v.a["sp"]); v.assume(u.distinct()); return a
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); u = v.u; p2 = v.term(st, st.heap[v.cell]); okr = T.is_v(rt, 0, r); c = z3.Const("xc", u.cs); tx2 = fld(v.ex, ps_t(v.ex), p2, "unsigned_tx"); l = fld(v.ex, u.tt, tx2, "output")
        return [("error-if-mismatch", z3.Implies(okr, z3.Not(z3.Exists([c], u.mism(c), patterns=[z3.Select(mdom(u.sp), c)])))), ("error-only-if-mismatch", z3.Implies(z3.Not(okr), z3.Exists([c], u.mism(c), patterns=[z3.Select(mdom(u.sp), c)]))),
                ("unchanged-on-error", z3.Implies(z3.Not(okr), p2 == u.psbt)), ("only-outputs-change", p2 == rec_upd(v.ex, ps_t(v.ex), u.psbt, unsigned_tx=rec_upd(v.ex, u.tt, u.tx, output=l))), ("placeholders-filled", z3.Implies(okr, u.final(l)))]
def S_upd(ex, psbt, sp):
    """(no error, the outputs afterwards)"""
    a = UF("S_upd_ok", psbt.sort(), sp.sort(), B)(psbt, sp); u = Upd(ex, psbt, sp); l = UF("S_upd", psbt.sort(), sp.sort(), u.outs.sort())(psbt, sp); c = z3.Const("xc", u.cs)
    FACTS.add_lazy(a, lambda: [a == z3.Not(z3.Exists([c], u.mism(c), patterns=[z3.Select(mdom(sp), c)]))]); FACTS.add_lazy(l, lambda: [z3.Implies(a, u.final(l))]); return a, l, u
def c_upd(ex, st, inst, args, ty):
    rr = models.rootref(ex, st, args[0]); psbt = ex.term(st, ex.load(st, rr)); sp = ex.term(st, args[1]); a, l, u = S_upd(ex, psbt, sp); ex.c.oblige("requires[distinct placeholders]", st, u.distinct()); out = []
    for s, w in ex.branch(st, [(a, 1), (z3.Not(a), 0)]):
        if w: ex.store(s, rr, rec_upd(ex, ps_t(ex), psbt, unsigned_tx=rec_upd(ex, u.tt, u.tx, output=l))); out.append((s, ok(ty, UNIT)))
        else: out.append((s, err(ty, mkerr(ex, s, errty(ty)))))
    return out
CONTRACTS["psbt::update_outputs"] = c_upd
@spec("psbt.derive_sp", "psbt::derive_sp")
class _:
    def setup(v):
        a = v.args("psbt", "k", "recipients", "secp"); v.cell = a[0].cell; ex = v.ex; p = v.a["psbt"]; v.assume(llen(v.a["recipients"]) < 2**32)
        v.okc, v.keys, v.mb = S_cid(ex, p, v.a["k"]); v.okp, v.ps = S_ps(ex, v.mb, v.keys); v.sp = S_pay(ex, v.ps, v.a["recipients"]); v.oku, v.l, v.u = S_upd(ex, p, v.sp); v.assume(v.u.distinct()); return a
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); p = v.a["psbt"]; u = v.u; p2 = v.term(st, st.heap[v.cell]); good = z3.And(v.okc, v.okp, v.oku)
        return [("ok-iff", T.is_v(rt, 0, r) == good), ("unchanged-on-error", z3.Implies(z3.Not(good), p2 == p)), ("outputs-replaced", z3.Implies(good, p2 == rec_upd(v.ex, ps_t(v.ex), p, unsigned_tx=rec_upd(v.ex, u.tt, u.tx, output=v.l))))]
# ---------------------------------------------------------------- the collected keys own the eligible inputs
def extract_ctx(v):
    ex = v.ex; T = ex.T; xt = adt(ex, "bitcoin", "TxIn"); x = v.sym("txin", xt); spk = z3.Const("spk", Bytes); e, oty = S_extract(ex, x, spk); return ex, T, xt, x, spk, e, oty
def kind_is(ex, e, oty, name): T = ex.T; tt = oty.args()[0]; ity = tt.args()[0]; return T.is_v(ity, vidx(ity, name), T.acc(tt, 0, 0, T.acc(oty, 1, 0, e)))
@lemma("lemma.extract-kind")
def _(v):
    """the public key search over a script signature yields nothing or a p2pkh key (induction over the windows)"""
    ex, T, xt, x, spk, e, oty = extract_ctx(v); sig = fld(ex, xt, x, "script_sig"); a = pkh_search(ex, sig, spk, oty); i = z3.Const("i", I); v.assume(i >= 0); ok_ = lambda t: z3.Or(T.is_v(oty, 0, t), kind_is(ex, t, oty, "Pkh"))
    return [("past-the-end", z3.Implies(i >= a.length, ok_(a.at(i)))), ("step", z3.Implies(ok_(a.raw(simp(i + 1))), ok_(a.at(i))))]
@lemma("lemma.psbt-owns")
def _(v):
    """an input that contributes a secret to the collection contributes the one behind the key its final form exposes"""
    ex = v.ex; T = ex.T; pin = v.sym("pin", pin_t(ex)); x = v.sym("txin", adt(ex, "bitcoin", "TxIn")); k = z3.Const("k", T.sort(adt(ex, "roots", "AbsKeys"))) if True else None
    good, c, spk, sk = input_step(ex, pin, x, k); sp = S_secret(ex, "sp_accs", sp_accs, pin, k)[0] == 1; kf, full = S_full(ex, x, pin); e, oty = S_extract(ex, full, spk); el, tr, p = extracted(ex, e, oty); a = pkh_search(ex, fld(ex, adt(ex, "bitcoin", "TxIn"), full, "script_sig"), spk, oty)
    v.assume(z3.Or(T.is_v(oty, 0, a.at(0)), kind_is(ex, a.at(0), oty, "Pkh")))      # lemma.extract-kind
    for f in (is_p2tr, is_p2pkh, is_p2sh, is_p2wpkh): f(spk)
    key = z3.If(is_p2tr(spk), signed(sk), sk)
    return [("eligible-key-owned", z3.Implies(z3.And(good, c, z3.Not(sp)), z3.And(el, key == p, spk_elig(spk)))), ("ineligible-left-out", z3.Implies(z3.And(good, z3.Not(c)), z3.And(kf, z3.Not(el))))]
@lemma("lemma.psbt-owns-sp")
def _(v):
    """with a key provider that answers a request for a key with its secret, a usable field gives the secret of the output's key"""
    ex = v.ex; T = ex.T; pin = v.sym("pin", pin_t(ex)); k = z3.Const("k", T.sort(adt(ex, "roots", "AbsKeys"))); kv = v.sym("field", adt(ex, "bitcoin", "ProprietaryKey")); val = z3.Const("val", Bytes)
    u, sk = spfield(ex, pin, k, kv, val); wf, p, t = S_spdata(fld(ex, adt(ex, "bitcoin", "ProprietaryKey"), kv, "key"), val); s = found(ex, k, req(ex, "Pubkey", bpk(ex, p)))[2]
    hw, w = popt(ex, pin, "witness_utxo"); spk = fld(ex, adt(ex, "bitcoin", "TxOut"), w, "script_pubkey"); known, ps = S_prevout(ex, pin, v.sym("txin", adt(ex, "bitcoin", "TxIn"))); v.assume(s == p)
    q = lin(p + t); even(q); even(sk)
    return [("output-key-owned", z3.Implies(u, z3.And(xonly(sk) == S_outkey(spk)[1], signed(sk) == xonly(sk), is_p2tr(spk)))), ("of-the-spent-output", z3.Implies(u, z3.And(known, ps == spk)))]
@lemma("lemma.psbt-sum-frame")
def _(v):
    """adding an entry at the end leaves the sums over the earlier entries as they are (induction over the positions)"""
    ex = v.ex; l = pair_list(ex, "keys"); x = z3.Const("x", pair_sort(ex)); l2 = lpush(l, x); j = z3.Const("j", I); v.assume(z3.And(0 <= j, j < llen(l))); a, b = ps_accs(ex, l), ps_accs(ex, l2)
    eq = lambda i: z3.And(a[0].at(i) == b[0].at(i), a[1].at(i) == b[1].at(i))
    return [("start", eq(z3.IntVal(0))), ("step", z3.Implies(eq(j), eq(simp(j + 1))))]
@lemma("lemma.psbt-sum")
def _(v):
    """when every contributing input's secret is the one behind the key the receiver extracts, the sums agree (induction over the inputs)"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); prevs = z3.Const("prevs", ListS(T.sort(adt(ex, "bitcoin", "TxOut")))); psbt = v.sym("psbt", ps_t(ex)); k = z3.Const("k", T.sort(adt(ex, "roots", "AbsKeys"))); i = z3.Const("i", I)
    ins, txins, n = psbt_ins(ex, psbt); v.assume(z3.And(0 <= i, i < n)); okf, keys, mn = cid_accs(ex, psbt, k); rs, rc, _ = td_accs(ex, tx, prevs)
    good, c, spk, sk = input_step(ex, lat(ins, i), lat(txins, i), k); x = lat(fld(ex, tt, tx, "input"), i); e, oty = S_extract(ex, x, fld(ex, adt(ex, "bitcoin", "TxOut"), lat(prevs, i), "script_pubkey")); el, tr, p = extracted(ex, e, oty); es = pair_sort(ex)
    S_extract_keep = e
    l = z3.Const("l", ListS(es)); v.assume(llen(l) >= 0); y = es.constructor(0)(spk, sk); l2 = lpush(l, y); a, b = ps_accs(ex, l), ps_accs(ex, l2); m = llen(l); C = z3.Const("contributes", B); K = z3.Const("secret", R); SP = z3.Const("script", Bytes); v.assume(z3.And(C == c, K == sk, SP == spk, K != 0))
    v.assume(z3.And(keys.at(i) == l, b[0].raw(m) == a[0].raw(m), b[1].raw(m) == a[1].raw(m)))     # lemma.psbt-sum-frame
    v.assume(z3.And(c == el, z3.Implies(el, z3.And(spk_elig(spk), p == z3.If(is_p2tr(spk), signed(sk), sk)))))   # lemma.psbt-owns for this input
    for t in (rs, rc, keys): t.at(simp(i + 1)); t.at(0)
    b[0].at(simp(m + 1)); b[1].at(simp(m + 1)); l3 = keys.at(simp(i + 1))
    d = [UF(f"send_{q}", l.sort(), I, s) for q, s in (("sum", R), ("cnt", I))]
    I0 = lambda li, j: z3.And(d[0](li, llen(li)) == rs.raw(j), d[1](li, llen(li)) == rc.raw(j))
    return [("grows-by-one-or-stays", l3 == z3.If(c, l2, l)), ("start", z3.Implies(llen(l) == 0, z3.And(ps_accs(ex, l)[0].at(0) == rs.at(0), ps_accs(ex, l)[1].at(0) == rc.at(0)))), ("step-contributing", z3.Implies(z3.And(c, I0(l, i)), I0(l2, simp(i + 1)))), ("step-other", z3.Implies(z3.And(z3.Not(c), I0(l, i)), I0(l, simp(i + 1))))]
