"""Contracts of the silentpayments crate."""
from verify import *
from models_btc import *
import models_btc
from core import *

def define(t, thunk):
    """lazily attach a definitional equation to a spec-function application"""
    FACTS.add_lazy(t, lambda: [t == thunk()]); return t
def ty_of(ex, pred):
    for t in ex.prog.types.values():
        if pred(t): return t
    raise Unsupported("type not found")
def adt(ex, crate, name):
    return ty_of(ex, lambda t: t.k == "adt" and adt_key(t) == (crate, name))
def opt_of(ex, ty):
    return ty_of(ex, lambda t: t.k == "adt" and adt_key(t) == ("core", "Option") and t.args()[0].id == ty.id)
def fld(ex, ty, t, name):
    for i, (n, ft) in enumerate(ex.T.vfields(ty, 0)):
        if n == name: return ex.T.note(ex.T.acc(ty, 0, i, t), ft)
    raise Unsupported(f"field {name} of {ty.name}")
def vidx(ty, name):
    for i, v in enumerate(ty.d["variants"]):
        if v["name"] == name: return i
    raise Unsupported(f"variant {name} of {ty.name}")
NUMS = lit("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0")

# ------------------------------------------------------------------ tag_txin
def S_tag(ex, txin, spk):
    ity = adt(ex, "bdk_sp", "SpInputs"); oty = opt_of(ex, ity)
    f = UF("S_tag", txin.sort(), Bytes, ex.T.sort(oty)); t = f(txin, spk)
    return define(t, lambda: tag_def(ex, txin, spk, ity, oty))
def tag_def(ex, txin, spk, ity, oty):
    T = ex.T; xt = adt(ex, "bitcoin", "TxIn")
    w = fld(ex, xt, txin, "witness"); sig = fld(ex, xt, txin, "script_sig")
    we = wit_empty(w); se = blen(sig) == 0
    k = lambda n: T.mk(oty, 1, T.mk(ity, vidx(ity, n))); no = T.mk(oty, 0)
    cb = wit_cb(w)
    nums = z3.And(wit_has_cb(w), blen(cb) >= 33, bslice(cb, 1, 33) == NUMS)
    return z3.If(z3.And(z3.Not(we), z3.Not(se), is_p2sh(spk), redeem_ok(sig), is_p2wpkh(redeem(sig))), k("ShWpkh"),
           z3.If(z3.And(z3.Not(we), se, is_p2wpkh(spk)), k("Wpkh"),
           z3.If(z3.And(z3.Not(we), se, is_p2tr(spk), z3.Not(nums)), k("Tr"),
           z3.If(z3.And(we, z3.Not(se), is_p2pkh(spk)), k("Pkh"), no))))
def c_tag(ex, st, inst, args, ty): return S_tag(ex, ex.term(st, args[0]), ex.term(st, args[1]))
CONTRACTS["bdk_sp::tag_txin"] = c_tag
@spec("tag_txin", "bdk_sp::tag_txin")
class _:
    def setup(v): return v.args("txin", "spk")
    def post(v, st, ret): return [("eligible-kind", v.term(st, ret) == tag_def(v.ex, v.a["txin"], v.a["spk"], adt(v.ex, "bdk_sp", "SpInputs"), v.retty()))]

# ------------------------------------------------------------------ hashes
def S_label(sk, m): return hsc("BIP0352/Label", cat(sers(sk), be(4, m)))
def S_inhash(o, p): return hsc("BIP0352/Inputs", cat(o, ser(p)))
def S_tk(p, k): return hsc("BIP0352/SharedSecret", cat(ser(p), be(4, k)))
def hash_spec(name, key, fn, names):
    CONTRACTS[key] = lambda ex, st, inst, args, ty: fn(*[ex.term(st, a) for a in args])
    class C:
        def setup(v): return v.args(*names)
        def post(v, st, ret): return [("layout", v.term(st, ret) == fn(*[v.a[n] for n in names]))]
    SPECS[name] = Spec(name, key, C.setup, C.post)
hash_spec("get_label_tweak", "hashes::get_label_tweak", S_label, ["sk", "m"])
hash_spec("get_input_hash", "hashes::get_input_hash", S_inhash, ["lexmin", "pk"])
hash_spec("get_shared_secret", "hashes::get_shared_secret", S_tk, ["pk", "k"])
hash_spec("compute_shared_secret", "bdk_sp::compute_shared_secret", lambda a, b: mul(a, b), ["sk", "pk"])
hash_spec("code.get_label", "SilentPaymentCode::get_label", S_label, ["sk", "m"])
# ------------------------------------------------------------------ LexMin
def op_bytes(ex, o):
    t = adt(ex, "bitcoin", "OutPoint"); return cat(fld(ex, t, o, "txid"), le(4, fld(ex, t, o, "vout")))
def op_lt(ex, a, b):
    """order of the 36-byte serialisations: txid bytes, then little-endian vout bytes"""
    t = adt(ex, "bitcoin", "OutPoint"); ta, tb = fld(ex, t, a, "txid"), fld(ex, t, b, "txid"); va, vb = le(4, fld(ex, t, a, "vout")), le(4, fld(ex, t, b, "vout"))
    return z3.Or(models.blt(ta, tb), z3.And(ta == tb, models.blt(va, vb)))
def lm_new(ex, oty, cur, o):
    T = ex.T; c = T.acc(oty, 1, 0, cur)
    return z3.If(z3.And(T.is_v(oty, 1, cur), op_lt(ex, c, o)), c, o)
def c_lexmin_update(ex, st, inst, args, ty):
    rr = models.rootref(ex, st, args[0]); lt = ex.T.strip(ex.prog.types[inst.body.locals[1]["ty"]]); oty = lt.fields(0)[0][1]
    cur = ex.T.acc(lt, 0, 0, ex.term(st, ex.load(st, rr))); o = ex.term(st, args[1])
    n = lm_new(ex, oty, cur, o); ex.store(st, rr, Agg(lt, 0, [ex.T.mk(oty, 1, n)])); return n
CONTRACTS["LexMin::update"] = c_lexmin_update
@spec("LexMin.update", "LexMin::update")
class _:
    def setup(v): return v.args("self", "o")
    def post(v, st, ret):
        lt = v.T.strip(v.argty(0)); oty = lt.fields(0)[0][1]; ex = v.ex
        cur = v.T.acc(lt, 0, 0, v.a["self"]); new = ex.term(st, st.heap[v.selfcell]); nc = v.T.acc(lt, 0, 0, new); r = v.term(st, ret)
        n = lm_new(ex, oty, cur, v.a["o"]); A = v.T.acc(oty, 1, 0, cur)
        return [("min-kept", nc == v.T.mk(oty, 1, r)), ("is-minimum", z3.And(z3.Or(r == v.a["o"], z3.And(v.T.is_v(oty, 1, cur), r == A)), z3.Not(op_lt(ex, v.a["o"], r)), z3.Implies(v.T.is_v(oty, 1, cur), z3.Not(op_lt(ex, A, r))))),
                ("canonical", r == n)]
def _lm_setup(v):
    a = v.args("self", "o"); v.selfcell = a[0].cell; 
    for t in (v.a["o"], v.T.acc(v.T.strip(v.argty(0)).fields(0)[0][1], 1, 0, v.T.acc(v.T.strip(v.argty(0)), 0, 0, v.a["self"]))): v.T.deep_note(t, adt(v.ex, "bitcoin", "OutPoint"))
    return a
SPECS["LexMin.update"].setup = _lm_setup
def c_lexmin_bytes(ex, st, inst, args, ty):
    lt = ex.T.strip(ex.prog.types[inst.body.locals[1]["ty"]]); oty = lt.fields(0)[0][1]; cur = ex.T.acc(lt, 0, 0, ex.term(st, args[0]))
    o = ex.T.acc(oty, 1, 0, cur); ex.T.deep_note(o, adt(ex, "bitcoin", "OutPoint"))
    return fork2(ex, st, ex.T.is_v(oty, 1, cur), lambda s: ok(ty, op_bytes(ex, o)), lambda s: err(ty, Agg(errty(ty), 0, [])))
CONTRACTS["LexMin::bytes"] = c_lexmin_bytes
@spec("LexMin.bytes", "LexMin::bytes")
class _:
    def setup(v): return v.args("self")
    def post(v, st, ret):
        lt = v.T.strip(v.argty(0)); oty = lt.fields(0)[0][1]; cur = v.T.acc(lt, 0, 0, v.a["self"]); o = v.T.acc(oty, 1, 0, cur)
        v.T.deep_note(o, adt(v.ex, "bitcoin", "OutPoint")); r = v.term(st, ret); rt = v.retty()
        return [("serialised-minimum", r == z3.If(v.T.is_v(oty, 1, cur), v.T.mk(rt, 0, op_bytes(v.ex, o)), v.T.mk(rt, 1, v.T.mk(rt.args()[1], 0))))]
# ------------------------------------------------------------------ extract_pubkey
def parsed(b):
    """what bitcoin::PublicKey::from_slice says about b: (valid, point, compressed)"""
    return bpk_valid(b)
def S_extract(ex, txin, spk):
    oty = opt_of(ex, ty_of(ex, lambda t: t.k == "tuple" and len(t.d["elems"]) == 2 and [adt_key(x) if x.k == "adt" else None for x in t.args()] == [("bdk_sp", "SpInputs"), ("secp256k1", "PublicKey")]))
    f = UF("S_extract", txin.sort(), Bytes, ex.T.sort(oty)); t = f(txin, spk)
    return define(t, lambda: extract_def(ex, txin, spk, oty)), oty
def pkh_search(ex, sig, spk, oty):
    """last 33-byte window of the script signature whose key hash is the one committed to"""
    T = ex.T; tt = oty.args()[0]; ity = tt.args()[0]; n = blen(sig); cnt = z3.If(n - 32 >= 0, n - 32, z3.IntVal(0))
    def step(i, nx):
        w = bslice(sig, simp(cnt - 1 - i), simp(cnt - 1 - i + 33)); v, p, comp = parsed(w); fact(w, z3.Implies(z3.And(0 <= i, i < cnt), blen_(w) == 33))
        hit = z3.And(v, pkh(comp, p) == bslice(spk, 3, 23))
        return z3.If(hit, T.mk(oty, 1, T.mk(tt, 0, T.mk(ity, vidx(ity, "Pkh")), p)), nx)
    return Acc("pkh_search", T.sort(oty), T.mk(oty, 0), step, (sig, spk), back=True, length=cnt)
def extract_def(ex, txin, spk, oty, acc=None):
    T = ex.T; tt = oty.args()[0]; ity = tt.args()[0]; xt = adt(ex, "bitcoin", "TxIn")
    tag = tag_def(ex, txin, spk, ity, opt_of(ex, ity)); tty = opt_of(ex, ity); w = fld(ex, xt, txin, "witness"); sig = fld(ex, xt, txin, "script_sig")
    none_ = T.mk(oty, 0); k = lambda n: T.mk(tty, 1, T.mk(ity, vidx(ity, n))); mk = lambda n, p: T.mk(oty, 1, T.mk(tt, 0, T.mk(ity, vidx(ity, n)), p))
    lv, lp, lc = parsed(wit_last(w)); x = bslice(spk, 2, 34); wok = z3.And(lv, lc)
    acc = acc or pkh_search(ex, sig, spk, oty); unserx(x)
    return z3.If(tag == k("ShWpkh"), z3.If(wok, mk("ShWpkh", lp), none_),
           z3.If(tag == k("Wpkh"), z3.If(wok, mk("Wpkh", lp), none_),
           z3.If(tag == k("Tr"), z3.If(validx_(x), mk("Tr", unserx(x)), none_),
           z3.If(tag == k("Pkh"), acc.at(0), none_))))
CONTRACTS["receive::extract_pubkey"] = lambda ex, st, inst, args, ty: S_extract(ex, ex.term(st, args[0]), ex.term(st, args[1]))[0]
@spec("extract_pubkey", "receive::extract_pubkey")
class _:
    def setup(v):
        a = v.args("txin", "spk"); xt = adt(v.ex, "bitcoin", "TxIn")
        v.oty = v.retty(); v.accs = [pkh_search(v.ex, fld(v.ex, xt, v.a["txin"], "script_sig"), v.a["spk"], v.oty)]; return a
    def post(v, st, ret): return [("bip352-key", v.term(st, ret) == extract_def(v.ex, v.a["txin"], v.a["spk"], v.oty, v.accs[0]))]
# ------------------------------------------------------------------ candidate scripts
def S_out(spend, ss, k, label=None):
    """the output key for payment k (optionally labelled): spend + t_k (+ label)"""
    p = lin(spend + S_tk(ss, k)) if label is None else lin(spend + S_tk(ss, k) + label)
    fact(p, p != 0); return p
def S_spk(spend, ss, k, label=None):
    return p2tr(xonly(S_out(spend, ss, k, label)))
def c_get_spk(ex, st, inst, args, ty):
    a, b, k = [ex.term(st, x) for x in args[:3]]; l = args[3]; out = []
    oty = ex.prog.types[inst.body.locals[4]["ty"]]
    for s, x in optsplit(ex, st, l, oty): out.append((s, S_spk(a, b, k) if x is None else S_spk(a, b, k, ex.term(s, x))))
    return out
CONTRACTS["receive::get_silentpayment_script_pubkey"] = c_get_spk
@spec("get_silentpayment_script_pubkey", "receive::get_silentpayment_script_pubkey")
class _:
    def setup(v): return v.args("spend", "ss", "k", "label")
    def post(v, st, ret):
        T = v.T; oty = v.argty(3); l = T.acc(oty, 1, 0, v.a["label"]); T.note(l, oty.args()[0])
        return [("script", v.term(st, ret) == z3.If(T.is_v(oty, 1, v.a["label"]), S_spk(v.a["spend"], v.a["ss"], v.a["k"], l), S_spk(v.a["spend"], v.a["ss"], v.a["k"])))]
# ------------------------------------------------------------------ tweak data
def td_accs(ex, tx, prevs):
    """over the zipped inputs: sum and number of the eligible keys, smallest outpoint"""
    T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); xt = adt(ex, "bitcoin", "TxIn"); ot = adt(ex, "bitcoin", "TxOut"); opt = adt(ex, "bitcoin", "OutPoint")
    ins = fld(ex, tt, tx, "input"); oop = opt_of_ref(ex, opt)
    def key(i):
        x = lat(ins, i); T.deep_note(x, xt, 2); e, oty = S_extract(ex, x, fld(ex, ot, lat(prevs, i), "script_pubkey")); tup = T.acc(oty, 1, 0, e)
        p = T.acc(oty.args()[0], 0, 1, tup); T.note(p, oty.args()[0].args()[1]); return T.is_v(oty, 1, e), p
    def s_sum(i, a):
        h, p = key(i); return z3.If(h, a + p, a)
    def s_cnt(i, a):
        h, p = key(i); return z3.If(h, a + 1, a)
    def s_min(i, a):
        x = lat(ins, i); o = fld(ex, xt, x, "previous_output"); T.deep_note(o, opt); return T.mk(oop, 1, lm_new(ex, oop, a, o))
    P = (tx, prevs)
    return Acc("elig_sum", R, z3.RealVal(0), s_sum, P), Acc("elig_cnt", I, z3.IntVal(0), s_cnt, P), Acc("min_outpoint", T.sort(oop), T.mk(oop, 0), s_min, P)
def opt_of_ref(ex, ty):
    return ty_of(ex, lambda t: t.k == "adt" and adt_key(t) == ("core", "Option") and t.args()[0].k == "ref" and t.args()[0].elem.id == ty.id)
def td_len(ex, tx, prevs):
    tt = adt(ex, "bitcoin", "Transaction"); a, b = llen(fld(ex, tt, tx, "input")), llen(prevs); return z3.If(a <= b, a, b)
def td_parts(ex, tx, prevs, accs=None):
    """(is ok, tweak data)"""
    sm, cn, mn = accs or td_accs(ex, tx, prevs); n = td_len(ex, tx, prevs); T = ex.T; opt = adt(ex, "bitcoin", "OutPoint"); oop = opt_of_ref(ex, opt)
    m = mn.at(n); o = T.acc(oop, 1, 0, m); T.deep_note(o, opt); A = sm.at(n)
    return z3.And(cn.at(n) > 0, A != 0), mul(S_inhash(op_bytes(ex, o), A), A), m
def S_td(ex, tx, prevs, rty):
    """contract value: Result<PublicKey, SpReceiveError>"""
    okf = UF("S_td_ok", tx.sort(), prevs.sort(), B)(tx, prevs); val = UF("S_td", tx.sort(), prevs.sort(), R)(tx, prevs)
    FACTS.add_lazy(okf, lambda: [okf == td_parts(ex, tx, prevs)[0]]); FACTS.add_lazy(val, lambda: [val == td_parts(ex, tx, prevs)[1]])
    fact(val, z3.Implies(okf, val != 0)); return okf, val
def c_td(ex, st, inst, args, ty):
    tx, pv = ex.term(st, args[0]), ex.term(st, args[1]); okf, val = S_td(ex, tx, pv, ty)
    return fork2(ex, st, okf, ok(ty, val), lambda s: err(ty, mkerr(ex, s, errty(ty))))
CONTRACTS["receive::compute_tweak_data"] = c_td
@spec("compute_tweak_data", "receive::compute_tweak_data")
class _:
    def setup(v):
        a = v.args("tx", "prevs"); v.accs = list(td_accs(v.ex, v.a["tx"], v.a["prevs"])); return a
    def post(v, st, ret):
        ex = v.ex; T = v.T; rt = v.retty(); r = v.term(st, ret); okc, val, m = td_parts(ex, v.a["tx"], v.a["prevs"], v.accs)
        return [("error-iff", T.is_v(rt, 0, r) == okc), ("tweak-data", z3.Implies(okc, T.acc(rt, 0, 0, r) == val)), ("not-infinity", z3.Implies(okc, val != 0))]
# ------------------------------------------------------------------ Scanner, conversions
def plain(name, key, names, fn, posts=None, contract=True):
    """contract whose value is a pure function fn(ex, terms, return type) of the arguments"""
    if contract: CONTRACTS[key] = lambda ex, st, inst, args, ty: fn(ex, [ex.term(st, a) for a in args], ty)
    def setup(v): return v.args(*names)
    def post(v, st, ret): return [("value", v.term(st, ret) == fn(v.ex, [v.a[n] for n in names], v.retty()))]
    SPECS[name] = Spec(name, key, setup, post)
def mkrec(ex, ty, **f):
    fs = ex.T.vfields(ty, 0)
    return ex.T.mk(ty, 0, *[f[n] for n, _ in fs])
plain("SpOut.to_txout", "<TxOut as From>::from", ["spout"], lambda ex, a, ty: mkrec(ex, ty, value=fld(ex, adt(ex, "bdk_sp", "SpOut"), a[0], "amount"), script_pubkey=fld(ex, adt(ex, "bdk_sp", "SpOut"), a[0], "script_pubkey")))
plain("SpOut.to_meta", "<SpMeta as From>::from", ["spout"], lambda ex, a, ty: mkrec(ex, ty, tweak=fld(ex, adt(ex, "bdk_sp", "SpOut"), a[0], "tweak"), label=fld(ex, adt(ex, "bdk_sp", "SpOut"), a[0], "label")))
plain("Scanner.new", "Scanner::new", ["scan", "spend", "labels"], lambda ex, a, ty: mkrec(ex, ty, scan_sk=a[0], spend_pk=a[1], label_lookup=a[2]))
def sc(ex, s, n): return fld(ex, adt(ex, "bdk_sp", "Scanner"), s, n)
def c_sc_shared(ex, st, inst, args, ty):
    s, tx, pv = [ex.term(st, a) for a in args]; okf, val = S_td(ex, tx, pv, ty); m = mul(sc(ex, s, "scan_sk"), val)
    return fork2(ex, st, okf, ok(ty, m), lambda s_: err(ty, mkerr(ex, s_, errty(ty))))
CONTRACTS["Scanner::get_shared_secret"] = c_sc_shared
@spec("Scanner.get_shared_secret", "Scanner::get_shared_secret")
class _:
    def setup(v): return v.args("self", "tx", "prevs")
    def post(v, st, ret):
        ex = v.ex; T = v.T; rt = v.retty(); r = v.term(st, ret); okf, val = S_td(ex, v.a["tx"], v.a["prevs"], rt)
        return [("error-iff", T.is_v(rt, 0, r) == okf), ("shared", z3.Implies(okf, T.acc(rt, 0, 0, r) == mul(sc(ex, v.a["self"], "scan_sk"), val)))]
def spks_members(ex, spend, ss, k, labels, r):
    """the members of list r are exactly the base script and one script per label point (given by the map's domain)"""
    n, at = enum_map(mdom(labels)); i = fresh("mi", I); ln = llen(r)
    lb = lambda j: S_spk_g(spend, ss, k, at(j)); base = S_spk(spend, ss, k)
    sound = z3.Implies(z3.And(0 <= i, i < ln), z3.Or(lat(r, i) == base, z3.And(i < n, lat(r, i) == lb(i)), z3.And(i >= 1, i - 1 < n, lat(r, i) == lb(i - 1))))
    compl = z3.Implies(z3.And(0 <= i, i < n), z3.Or(z3.And(i < ln, lat(r, i) == lb(i)), z3.And(i + 1 < ln, lat(r, i + 1) == lb(i))))
    hasb = z3.Or(z3.And(n < ln, lat(r, n) == base), z3.And(0 < ln, lat(r, 0) == base))
    return [("only-candidates~", sound), ("every-label~", compl), ("base~", hasb), ("count~", ln == n + 1)]
def S_spk_g(spend, ss, k, label):
    fact(label, label != 0); return S_spk(spend, ss, k, label)
def spks_list(ex, spend, ss, k, labels, term=lambda ex, s: s):
    """canonical result: one script per label in key order, then the base script"""
    n, at = enum_map(mdom(labels)); f = UF("S_spks", R, R, I, labels.sort(), ListS(Bytes)); r = f(spend, ss, k, labels); i = z3.Const("spks_i", I)
    return r
@spec("Scanner.get_spks_from_tweak", "Scanner::get_spks_from_tweak")
class _:
    def setup(v): return v.args("self", "tweak", "k")
    def post(v, st, ret):
        ex = v.ex; s = v.a["self"]; return spks_members(ex, sc(ex, s, "spend_pk"), mul(sc(ex, s, "scan_sk"), v.a["tweak"]), v.a["k"], sc(ex, s, "label_lookup"), v.term(st, ret))
