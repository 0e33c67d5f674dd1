"""Assumed contracts of secp256k1, bitcoin, bitcoin_hashes, bech32, bdk_chain (discrete-log group model)."""
import z3, hashlib, struct
from core import *
from values import *
from loops import *
from models import model, D, tm, some, none, ok, err, ref, fork2, mkerr, errty, pure, m_same, TAB, rootref, range_of, m_ident, skippable, newcell
import models
import core

# ---------------------------------------------------------------- tags
def _sha_mid(block, _k=[]):
    if not _k:
        def primes(n):
            ps = []; x = 2
            while len(ps) < n:
                if all(x % p for p in ps): ps.append(x)
                x += 1
            return ps
        def frac(r, bits): return None
        import decimal
        decimal.getcontext().prec = 60
        _k.append([int((decimal.Decimal(p) ** (decimal.Decimal(1) / 3) % 1) * (1 << 32)) for p in primes(64)])
        _k.append([int((decimal.Decimal(p).sqrt() % 1) * (1 << 32)) for p in primes(8)])
    K, H0 = _k; w = list(struct.unpack(">16I", block)); M = 0xffffffff
    rr = lambda x, n: ((x >> n) | (x << (32 - n))) & M
    for i in range(16, 64):
        s0 = rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ (w[i-15] >> 3); s1 = rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ (w[i-2] >> 10)
        w.append((w[i-16] + s0 + w[i-7] + s1) & M)
    a, b, c, d, e, f, g, h = H0
    for i in range(64):
        S1 = rr(e, 6) ^ rr(e, 11) ^ rr(e, 25); ch = (e & f) ^ (~e & g); t1 = (h + S1 + ch + K[i] + w[i]) & M
        S0 = rr(a, 2) ^ rr(a, 13) ^ rr(a, 22); mj = (a & b) ^ (a & c) ^ (b & c); t2 = (S0 + mj) & M
        h, g, f, e, d, c, b, a = g, f, e, (d + t1) & M, c, b, a, (t1 + t2) & M
    return b"".join(struct.pack(">I", (x + y) & M) for x, y in zip(H0, (a, b, c, d, e, f, g, h)))
def midstate(tag):
    t = hashlib.sha256(tag.encode()).digest(); return _sha_mid(t + t).hex()
TAGS = ["BIP0352/Inputs", "BIP0352/Label", "BIP0352/SharedSecret", "BIP0374/aux", "BIP0374/nonce", "BIP0374/challenge", "TapTweak"]
MID = {midstate(t): t for t in TAGS}
def H(tag, b):
    """tagged hash as 32 bytes"""
    import re
    r = UF("H_" + re.sub(r"\W", "_", tag), Bytes, Bytes)(b); return setlen(r, 32)
@model("HashEngine::from_midstate")
def m_frommid(ex, st, inst, args, ty):
    v = D(ex, st, args[0]); h = None
    t = tm(ex, st, v)
    if t.get_id() in LITOF: h = LITOF[t.get_id()]
    if h is None: raise Unsupported("symbolic midstate")
    return Eng(MID.get(h, "mid_" + h))
@model("<HashEngine as HashEngine>::input")
def m_input(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); e = ex.load(st, rr); b = tm(ex, st, args[1])
    if not isinstance(e, Eng): raise Unsupported("hash engine " + type(e).__name__)
    ex.store(st, rr, Eng(e.tag, cat(e.b, b))); return UNIT
@model("sha256t::from_engine_x")
def m_fromeng(ex, st, inst, args, ty):
    e = D(ex, st, args[0]); return H(e.tag, e.b)
@model("<Hash as Hash>::from_engine", "Hash::from_engine", "sha256::from_engine")
def m_fromeng2(ex, st, inst, args, ty):
    e = D(ex, st, args[0])
    if not isinstance(e, Eng): raise Unsupported("engine")
    t = H(e.tag, e.b); return t
@model("<Hash as Hash>::hash")
def m_hash(ex, st, inst, args, ty):
    if "sha256::Hash" not in inst.name: raise Unsupported("hash " + inst.name[:80])
    return H("sha256", tm(ex, st, args[0]))
@model("<Hash as Hash>::as_byte_array", "<Hash as Hash>::to_byte_array", "<Hash as Hash>::from_byte_array", "Hash::to_byte_array", "Hash::as_byte_array", "Hash::from_byte_array", "Txid::as_byte_array", "Txid::to_byte_array", "<Txid as Hash>::as_byte_array", "<Txid as Hash>::to_byte_array", "<PubkeyHash as AsRef>::as_ref", *[f"<{h} as {t}" for h in ("PubkeyHash", "WPubkeyHash", "ScriptHash", "WScriptHash", "BlockHash", "sha256::Hash", "hash160::Hash") for t in ("Hash>::to_byte_array", "Hash>::as_byte_array", "Hash>::from_byte_array", "AsRef>::as_ref")])
def m_hb(ex, st, inst, args, ty): return m_same(ex, st, inst, args, ty)
@model("sha256t::from_engine")
def m_s256t(ex, st, inst, args, ty):
    return m_fromeng2(ex, st, inst, args, ty)
# ---------------------------------------------------------------- secp contexts
@model("Secp256k1::new", "Secp256k1::verification_only", "Secp256k1::signing_only", "Secp256k1::gen_new")
def m_secp(ex, st, inst, args, ty): return Opaque("secp")
# ---------------------------------------------------------------- keys
def S(ex, st, v): return tm(ex, st, v)
@model("SecretKey::public_key", "Keypair::public_key", "SecretKey::keypair", "Keypair::secret_key", "Keypair::from_secret_key_x", "PublicKey::from_secret_key_x", "<Scalar as From>::from", "<SecretKey as Into>::into")
def m_sk_pk(ex, st, inst, args, ty): return ex.T.note(S(ex, st, args[0]), ty)
@model("Keypair::from_secret_key", "PublicKey::from_secret_key")
def m_kp(ex, st, inst, args, ty): return S(ex, st, args[1])
@model("Keypair::x_only_public_key_x")
def _(ex, st, inst, args, ty): raise Unsupported("x")
@model("SecretKey::negate", "PublicKey::negate")
def m_neg(ex, st, inst, args, ty): return lin(-S(ex, st, args[0]))
def lin(t): return unlin(lincomb(t))
@model("PrivateKey::negate")
def m_pneg(ex, st, inst, args, ty):
    v = args[0]; d = D(ex, st, v); t = tm(ex, st, d); T = ex.T
    fs = [T.acc(ty, 0, i, t) for i in range(len(ty.fields(0)))]
    out = [lin(-f) if n == "inner" else f for (n, _), f in zip(ty.fields(0), fs)]
    return Agg(ty, 0, out)
def fallible(ex, st, val, ty, variant):
    """Ok(val) unless val is the zero scalar / point at infinity"""
    r = simp_real(val)
    if hash_shifted(r): fact(r, r != 0); st.add(r != 0); return ok(ty, r)
    return fork2(ex, st, r != 0, ok(ty, r), lambda s: err(ty, mkerr(ex, s, errty(ty), variant)))
def simp_real(t): return t
def hash_shifted(t):
    """assumption: a sum in which a payment's hash scalar occurs with coefficient one is not zero (the
    code's "computationally unreachable")"""
    for m, q in lincomb(t).items():
        if len(m) == 1 and q == 1:
            a = ATOM[m[0]]
            if z3.is_app(a) and a.decl().eq(unsers_) and z3.is_app(a.arg(0)) and a.arg(0).decl().name() in ("H_BIP0352_SharedSecret", "H_sha256", "H_taptweak"): return True
    return False
@model("PublicKey::combine")
def m_combine(ex, st, inst, args, ty): return fallible(ex, st, lin(S(ex, st, args[0]) + S(ex, st, args[1])), ty, "InvalidPublicKeySum")
@model("SecretKey::add_tweak")
def m_addtweak(ex, st, inst, args, ty): return fallible(ex, st, lin(S(ex, st, args[0]) + S(ex, st, args[1])), ty, "InvalidTweak")
@model("SecretKey::mul_tweak")
def m_multweak(ex, st, inst, args, ty): return fallible(ex, st, mul(S(ex, st, args[0]), S(ex, st, args[1])), ty, "InvalidTweak")
@model("PublicKey::add_exp_tweak")
def m_aet(ex, st, inst, args, ty): return fallible(ex, st, lin(S(ex, st, args[0]) + S(ex, st, args[2])), ty, "InvalidTweak")
@model("PublicKey::mul_tweak")
def m_pmul(ex, st, inst, args, ty): return fallible(ex, st, mul(S(ex, st, args[0]), S(ex, st, args[2])), ty, "InvalidTweak")
_psum = UF("psum", z3.ArraySort(I, R), I, R)
def psum(arr, n, depth=0):
    """sum of the first n elements of an array of group elements"""
    n = z3.simplify(n) if z3.is_expr(n) else z3.IntVal(n)
    k = as_int(n)
    r = _psum(arr, n)
    if k == 0: return z3.RealVal(0)
    if k is not None and k > 0:
        if k > 64: return r
        return lin(psum(arr, z3.IntVal(k - 1)) + zselect(arr, z3.IntVal(k - 1)))
    fact(r, z3.Implies(n == 0, r == 0))
    if z3.is_store(arr):
        i, x = arr.arg(1), arr.arg(2)
        if z3.is_true(z3.simplify(n == i + 1)) and depth < 20:
            base = psum(arr.arg(0), i, depth + 1); fact(r, z3.Implies(i >= 0, r == base + x))
    m = z3.simplify(n - 1); r1 = _psum(arr, m); fact(r, z3.Implies(n > 0, r == r1 + zselect(arr, m)))
    return r
def lsum(l): return psum(ap(L(l.sort()).larr, l), llen(l))
@model("PublicKey::combine_keys")
def m_combine_keys(ex, st, inst, args, ty):
    v = D(ex, st, args[0])
    l = tm(ex, st, v); s = lsum(l); n = llen(l)
    if as_int(n) is not None and as_int(n) > 0 and hash_shifted(s): return fallible(ex, st, s, ty, "InvalidPublicKeySum")
    ex.c.note_sum(ex, st, l, s) if hasattr(ex.c, "note_sum") else None
    # an empty list has no sum
    return fork2(ex, st, z3.And(n > 0, s != 0), ok(ty, s), lambda s_: err(ty, mkerr(ex, s_, errty(ty), "InvalidPublicKeySum")))
def parity_ty(ex):
    for t in ex.prog.types.values():
        if t.k == "adt" and adt_key(t) == ("secp256k1", "Parity"): return t
    raise Unsupported("Parity type")
def parity(ex, e):
    T = ex.T; p = parity_ty(ex)
    if z3.is_true(e): return Agg(p, 0, [])
    return z3.If(e, T.mk(p, 0), T.mk(p, 1))
@model("PublicKey::x_only_public_key", "SecretKey::x_only_public_key", "Keypair::x_only_public_key")
def m_xonly(ex, st, inst, args, ty):
    t = S(ex, st, args[0]); x = xonly(t); fact(x, z3.Implies(t != 0, z3.And(x != 0, even(x))))
    return Agg(ty, 0, [x, parity(ex, even(t))])
@model("XOnlyPublicKey::public_key")
def m_xpk(ex, st, inst, args, ty):
    x = S(ex, st, args[0]); p = args[1]; p = D(ex, st, p)
    if isinstance(p, Agg): return x if p.v == 0 else lin(-x)
    return z3.If(ex.T.is_v(parity_ty(ex), 0, p), x, -x)
@model("PublicKey::from_x_only_public_key")
def m_pkx(ex, st, inst, args, ty): return m_xpk(ex, st, inst, args, ty)
@model("TweakedPublicKey::dangerous_assume_tweaked", "TweakedPublicKey::to_inner", "TweakedPublicKey::to_x_only_public_key", "TweakedPublicKey::as_x_only_public_key", "TweakedPublicKey::to_x_only")
def m_tw(ex, st, inst, args, ty): return S(ex, st, args[0])
@model("PublicKey::serialize")
def m_ser(ex, st, inst, args, ty): return ser(S(ex, st, args[0]))
@model("XOnlyPublicKey::serialize", "TweakedPublicKey::serialize")
def m_serx(ex, st, inst, args, ty): return serx(S(ex, st, args[0]))
@model("SecretKey::secret_bytes", "Scalar::to_be_bytes", "SecretKey::to_secret_bytes", "Keypair::secret_bytes")
def m_sers(ex, st, inst, args, ty): return sers(S(ex, st, args[0]))
ser64_ = UF("ser64", R, Bytes)
def ser64(p): r = ser64_(p); setlen(r, 64); return r
@model("ecdh::shared_secret_point")
def m_ssp(ex, st, inst, args, ty): return ser64(mul(S(ex, st, args[0]), S(ex, st, args[1])))
def parse_pk(ex, st, b, ty, mk=lambda t: t, variant="InvalidPublicKey"):
    """secp256k1 PublicKey::from_slice: 33-byte compressed or 65-byte uncompressed"""
    ps = pieces(b)
    if len(ps) == 2 and ps[0].eq(lit("04")) and z3.is_app(ps[1]) and ps[1].decl().eq(ser64_):
        return fork2(ex, st, ps[1].arg(0) != 0, ok(ty, mk(ps[1].arg(0))), lambda s: err(ty, mkerr(ex, s, errty(ty), variant)))
    if len(ps) == 1 and z3.is_app(b) and b.decl().eq(ser_): 
        return fork2(ex, st, b.arg(0) != 0, ok(ty, mk(b.arg(0))), lambda s: err(ty, mkerr(ex, s, errty(ty), variant)))
    k = klen(b)
    if k is not None and k not in (33, 65): return err(ty, mkerr(ex, st, errty(ty), variant))
    v, r = secp_pk(b)
    return fork2(ex, st, v, ok(ty, mk(r)), lambda s: err(ty, mkerr(ex, s, errty(ty), variant)))
def secp_pk(b):
    """(valid, point): secp256k1's reading of 33 or 65 bytes"""
    if klen(b) == 33: return validpk_(b), unser(b)
    v = UF("validpkany", Bytes, B)(b); r = UF("parsepkany", Bytes, R)(b); n = blen(b)
    fact(v, z3.Implies(v, z3.Or(n == 33, n == 65))); fact(v, z3.Implies(n == 33, z3.And(v == validpk_(b), r == unser(b)))); fact(v, z3.Implies(v, r != 0)); return v, r
def is_btc(inst):
    return inst.crate == "bitcoin" or inst.name.startswith("bitcoin::") or "bitcoin::PublicKey" in inst.name and "secp256k1" not in inst.name
@model("PublicKey::from_slice")
def m_pkfs(ex, st, inst, args, ty):
    b = tm(ex, st, args[0]); okty = ty.args()[0]
    if adt_key(okty)[0] == "bitcoin":
        # bitcoin::PublicKey { compressed, inner }: 33 bytes compressed, 65 uncompressed
        return bpk_parse(ex, st, b, ty)
    return parse_pk(ex, st, b, ty)
def bpk_valid(b):
    v = UF("validbpk", Bytes, B)(b); n = blen(b); r = UF("parsepkany", Bytes, R)(b)
    fact(v, z3.Implies(v, z3.Or(n == 33, n == 65))); fact(v, z3.Implies(v, r != 0)); fact(v, z3.Implies(n == 33, z3.And(v == validpk_(b), z3.Implies(v, r == unser(b)))))
    return v, r, n == 33
def bpk_parse(ex, st, b, ty):
    v, r, comp = bpk_valid(b); okty = ty.args()[0]; names = [n for n, _ in okty.fields(0)]
    return fork2(ex, st, v, lambda s: ok(ty, Agg(okty, 0, [comp if n == "compressed" else r for n in names])), lambda s: err(ty, mkerr(ex, s, errty(ty))))
pkh_ = UF("hash160pk", B, R, Bytes)
def pkh(comp, p): r = pkh_(comp, p); return setlen(r, 20)
@model("ScriptBuf::new_p2pkh")
def m_np2pkh(ex, st, inst, args, ty): return cat(lit("76a914"), setlen(tm(ex, st, args[0]), 20), lit("88ac"))
@model("ScriptBuf::new_p2sh")
def m_np2sh(ex, st, inst, args, ty): return cat(lit("a914"), setlen(tm(ex, st, args[0]), 20), lit("87"))
@model("ScriptBuf::new_p2wpkh")
def m_np2wpkh(ex, st, inst, args, ty): return cat(lit("0014"), setlen(tm(ex, st, args[0]), 20))
@model("PublicKey::pubkey_hash", "<PubkeyHash as From>::from")
def m_pkh(ex, st, inst, args, ty):
    v = D(ex, st, args[0]); t = tm(ex, st, v); s = t.sort(); d = {}
    for j in range(s.constructor(0).arity()): d[s.accessor(0, j).name().split(".")[-1]] = ap(s.accessor(0, j), t)
    return pkh(d["compressed"], d["inner"])
@model("XOnlyPublicKey::from_slice")
def m_xfs(ex, st, inst, args, ty):
    b = tm(ex, st, args[0]); x = unserx(b); v = validx_(b); fact(v, z3.Implies(v, blen(b) == 32))
    if klen(b) is not None and klen(b) != 32: return err(ty, mkerr(ex, st, errty(ty), "InvalidPublicKey"))
    if z3.is_app(b) and b.decl().eq(serx_): serx(b.arg(0))
    return fork2(ex, st, v, ok(ty, x), lambda s: err(ty, mkerr(ex, s, errty(ty), "InvalidPublicKey")))
def hash_valid(b, v):
    """assumption: no hash output is >= n or zero (cryptographically negligible)"""
    return z3.is_app(b) and b.decl().name().startswith("H_")
@model("SecretKey::from_slice", "SecretKey::from_byte_array")
def m_skfs(ex, st, inst, args, ty):
    b = tm(ex, st, args[0]); r = unsers(b)
    if klen(b) is not None and klen(b) != 32: return err(ty, mkerr(ex, st, errty(ty), "InvalidSecretKey"))
    if z3.is_app(b) and b.decl().eq(sers_): sers(b.arg(0)); r = b.arg(0); return fork2(ex, st, r != 0, ok(ty, r), lambda s: err(ty, mkerr(ex, s, errty(ty), "InvalidSecretKey")))
    if hash_valid(b, None): fact(r, z3.And(validsk_(b), validsc_(b), r != 0)); return ok(ty, r)
    return fork2(ex, st, validsk_(b), ok(ty, r), lambda s: err(ty, mkerr(ex, s, errty(ty), "InvalidSecretKey")))
@model("Scalar::from_be_bytes")
def m_scfb(ex, st, inst, args, ty):
    b = tm(ex, st, args[0]); r = unsers(b)
    if z3.is_app(b) and b.decl().eq(sers_): sers(b.arg(0)); return ok(ty, b.arg(0))
    if hash_valid(b, None): fact(r, z3.And(validsk_(b), validsc_(b), r != 0)); return ok(ty, r)
    return fork2(ex, st, validsc_(b), ok(ty, r), lambda s: err(ty, mkerr(ex, s, errty(ty))))
def hsc(tag, b):
    """hash-to-scalar used by the specifications"""
    h = H(tag, b); r = unsers(h); fact(r, z3.And(validsk_(h), validsc_(h), r != 0)); return r
# ---------------------------------------------------------------- scripts
def is_p2tr(b): return z3.And(blen(b) == 34, bslice(b, 0, 2) == lit("5120"))
def is_p2wpkh(b): return z3.And(blen(b) == 22, bslice(b, 0, 2) == lit("0014"))
def is_p2sh(b): return z3.And(blen(b) == 23, bslice(b, 0, 2) == lit("a914"), bslice(b, 22, 23) == lit("87"))
def is_p2pkh(b): return z3.And(blen(b) == 25, bslice(b, 0, 3) == lit("76a914"), bslice(b, 23, 25) == lit("88ac"))
def p2tr(x): return cat(lit("5120"), serx(x))
def pred(f):
    def m(ex, st, inst, args, ty): return z3.simplify(f(tm(ex, st, args[0])))
    return m
for n, f in (("is_p2tr", is_p2tr), ("is_p2wpkh", is_p2wpkh), ("is_p2sh", is_p2sh), ("is_p2pkh", is_p2pkh)): TAB["Script::" + n] = pred(f)
def redeem_ok(b): return UF("redeem_ok", Bytes, B)(b)
def redeem(b): return UF("redeem", Bytes, Bytes)(b)
@model("Script::redeem_script")
def m_redeem(ex, st, inst, args, ty):
    b = tm(ex, st, args[0]); return fork2(ex, st, redeem_ok(b), lambda s: some(ty, ref(s, redeem(b))), none(ty))
@model("<Script as Index>::index")
def m_sidx(ex, st, inst, args, ty):
    return models.m_index(ex, st, inst, args, ty)
@model("ScriptBuf::new_p2tr_tweaked")
def m_p2tr(ex, st, inst, args, ty): return p2tr(S(ex, st, args[0]))
# ---------------------------------------------------------------- witness
def wsort(ex):
    for t in ex.prog.types.values():
        if t.k == "adt" and adt_key(t) == ("bitcoin", "Witness"): return ex.T.sort(t)
def wit_empty(w):
    r = UF("wit_empty", w.sort(), B)(w); fact(r, r == z3.Not(wit_has_last(w))); return r
def wit_has_last(w): return UF("wit_has_last", w.sort(), B)(w)
def wit_last(w): return UF("wit_last", w.sort(), Bytes)(w)
def wit_has_cb(w): return UF("wit_has_cb", w.sort(), B)(w)
def wit_cb(w): return UF("wit_cb", w.sort(), Bytes)(w)
@model("Witness::is_empty")
def m_we(ex, st, inst, args, ty): return wit_empty(tm(ex, st, args[0]))
@model("Witness::last")
def m_wl(ex, st, inst, args, ty):
    w = tm(ex, st, args[0]); wit_empty(w); fact(wit_has_last(w), wit_empty(w) == z3.Not(wit_has_last(w)))
    return fork2(ex, st, wit_has_last(w), lambda s: some(ty, ref(s, wit_last(w))), none(ty))
@model("Witness::taproot_control_block")
def m_wcb(ex, st, inst, args, ty):
    w = tm(ex, st, args[0]); return fork2(ex, st, wit_has_cb(w), lambda s: some(ty, ref(s, wit_cb(w))), none(ty))
# ---------------------------------------------------------------- transactions
@model("OutPoint::new")
def m_op(ex, st, inst, args, ty): return Agg(ty, 0, [args[0], args[1]])
@model("Transaction::tx_out")
def m_txout(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); i = tm(ex, st, args[1]); tt = next(x for x in ex.prog.types.values() if x.k == "adt" and adt_key(x) == ("bitcoin", "Transaction"))
    outs = next(ex.T.acc(tt, 0, j, t) for j, (n, _) in enumerate(ex.T.vfields(tt, 0)) if n == "output"); n = llen(outs)
    return fork2(ex, st, simp(i < n), lambda s: ok(ty, ref(s, ex.T.deep_note(lat(outs, i), ex.T.strip(ty.args()[0]), 2))), lambda s: err(ty, mkerr(ex, s, errty(ty))))
@model("PublicKey::new")
def m_pknew(ex, st, inst, args, ty):
    return Agg(ty, 0, [z3.BoolVal(True) if n == "compressed" else tm(ex, st, args[0]) for n, _ in ty.fields(0)])
def txid_of(t): r = UF("txid", t.sort(), Bytes)(t); return setlen(r, 32)
@model("Transaction::compute_txid")
def m_txid(ex, st, inst, args, ty): return txid_of(tm(ex, st, args[0]))
@model("[T]::swap_remove", "Vec::swap_remove")
def m_swap_remove(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); l = tm(ex, st, ex.load(st, rr)); i = tm(ex, st, args[1]); s = L(l.sort()); n = llen(l)
    g = z3.And(i >= 0, i < n); ex.c.oblige("no-panic[swap_remove index]", st, g); st.add(g)
    x = lat(l, i); last = lat(l, simp(n - 1)); ex.store(st, rr, s.mkL(simp(n - 1), z3.Store(ap(s.larr, l), i, last))); return x
@model("Vec::remove")
def m_remove(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); l = tm(ex, st, ex.load(st, rr)); i = tm(ex, st, args[1]); s = L(l.sort()); n = llen(l)
    g = z3.And(i >= 0, i < n); ex.c.oblige("no-panic[remove index]", st, g); st.add(g)
    f = UF(f"lremove<{l.sort()}>", l.sort(), I, l.sort()); r = f(l, i); j = z3.Const("lrm", I)
    fact(r, s.llen(r) == n - 1); fact(r, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n - 1), z3.Select(s.larr(r), j) == z3.If(j < i, lat(l, j), lat(l, j + 1))), patterns=[z3.Select(s.larr(r), j)]))
    ex.store(st, rr, r); return lat(l, i)

@model("Xpriv::derive_priv")
def m_derive(ex, st, inst, args, ty):
    """deterministic derivation: which paths fail and the child key are functions of parent and path"""
    a = [tm(ex, st, x) for x in args if not skippable(ex, st, x)]; okf = UF("derive_ok", a[0].sort(), a[1].sort(), B)(*a); xt = ty.args()[0]; r = UF("derive", a[0].sort(), a[1].sort(), ex.T.sort(xt))(*a); ex.T.deep_note(r, xt, 2)
    return fork2(ex, st, okf, ok(ty, r), lambda s: err(ty, mkerr(ex, s, errty(ty))))
taptweak_ = UF("H_taptweak", R, Bytes, Bytes)
def taptweak(x, root): return setlen(taptweak_(x, root), 32)
@model("TapTweakHash::from_key_and_tweak")
def m_ttw(ex, st, inst, args, ty):
    x = tm(ex, st, args[0]); m = D(ex, st, args[1]); oty = ex.prog.types[inst.d["args"][1]] if inst.d.get("args") and False else None
    if isinstance(m, Agg): return taptweak(x, EMPTY if m.v == 0 else tm(ex, st, m.f[0]))
    s = m.sort(); return taptweak(x, z3.If(s.recognizer(0)(m), EMPTY, s.accessor(1, 0)(m)))
@model("TapTweakHash::to_scalar")
def m_ttsc(ex, st, inst, args, ty):
    b = tm(ex, st, args[0]); return hbytes_sc(b)
def hbytes_sc(h):
    r = unsers(h); fact(r, z3.And(validsk_(h), validsc_(h), r != 0)); return r
def tap_scalar(x, root=None): return hbytes_sc(taptweak(x, EMPTY if root is None else root))
# ---------------------------------------------------------------- bech32
def hrp_lc(h): return UF("hrp_lc", h.sort(), Bytes)(h)
def hrp_const(ex, ty, fs):
    """a constant human readable part: buffer and length"""
    buf = next(f for f in fs if z3.is_expr(f) and f.sort() == Bytes); n = next(as_int(f) for f in fs if z3.is_expr(f) and f.sort() == I)
    s = bytes.fromhex(LITOF[buf.get_id()])[:n]; t = z3.Const("hrp_" + s.decode(), ex.T.sort(ty)); fact(t, hrp_lc(t) == lit(s.lower())); return t
class Fmt:
    """a formatter and what has been written to it"""
    def __init__(self, t=None): self.t = EMPTY if t is None else t
class Enc:
    def __init__(self, data, hrp=None, ver=None, kind=None): self.data = data; self.hrp = hrp; self.ver = ver; self.kind = kind
class FeIt:
    def __init__(self, s, pos): self.s = s; self.pos = pos
def fe_ty(ex):
    for t in ex.prog.types.values():
        if t.k == "adt" and adt_key(t)[1] == "Fe32": return t
    raise Unsupported("Fe32")
def fe_val(ex, f):
    r = UF("fe_val", f.sort(), I)(f); fact(r, z3.And(r >= 0, r <= 31)); return r
def fe_mk(ex, i):
    t = UF("fe_mk", I, ex.T.sort(fe_ty(ex)))(i); fact(t, z3.Implies(z3.And(0 <= i, i <= 31), UF("fe_val", t.sort(), I)(t) == i)); return t
@model("<Fe32 as TryFrom>::try_from")
def m_fe_try(ex, st, inst, args, ty):
    i = tm(ex, st, args[0]); return fork2(ex, st, simp(z3.And(i >= 0, i < 32)), ok(ty, fe_mk(ex, i)), lambda s: err(ty, mkerr(ex, s, errty(ty))))
@model("Fe32::to_u8")
def m_fe_u8(ex, st, inst, args, ty): return fe_val(ex, tm(ex, st, args[0]))
@model("<Copied as ByteIterExt>::bytes_to_fes", "<Iter as ByteIterExt>::bytes_to_fes", "<IntoIter as ByteIterExt>::bytes_to_fes")
def m_b2f(ex, st, inst, args, ty):
    it = D(ex, st, args[0])
    if not (isinstance(it, It) and isinstance(it.src, ListSrc) and it.src.t.sort() == Bytes) or [s for s in it.stages if s[0] not in ("copied", "cloned")]: raise Unsupported("bytes_to_fes of a transformed iterator")
    return Enc(bslice(it.src.t, it.pos, it.end))
@model("<BytesToFes as Fe32IterExt>::with_checksum")
def m_wck(ex, st, inst, args, ty):
    if "Bech32m" not in inst.name: raise Unsupported("checksum " + inst.name[-60:])
    e = D(ex, st, args[0]); return Enc(e.data, tm(ex, st, args[1]), None, "bech32m")
@model("Encoder::with_witness_version")
def m_wwv(ex, st, inst, args, ty):
    e = D(ex, st, args[0]); return Enc(e.data, e.hrp, fe_val(ex, tm(ex, st, args[1])), e.kind)
@model("Encoder::chars")
def m_chars(ex, st, inst, args, ty): return D(ex, st, args[0])
def bech32m(hl, ver, data):
    return UF("bech32m", Bytes, I, Bytes, Bytes)(hl, ver, data)
@model("<CharIter as Iterator>::collect")
def m_ccollect(ex, st, inst, args, ty):
    e = D(ex, st, args[0])
    if not isinstance(e, Enc) or e.ver is None or e.kind != "bech32m": raise Unsupported("text encoding")
    return bech32m(hrp_lc(e.hrp), e.ver, e.data)
@model("Formatter::write_str")
def m_wstr(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); f = ex.load(st, rr)
    if not isinstance(f, Fmt): raise Unsupported("formatter")
    ex.store(st, rr, Fmt(cat(f.t, tm(ex, st, args[1])))); b = fresh("write_ok", B)
    return fork2(ex, st, b, ok(ty, UNIT), lambda s: err(ty, mkerr(ex, s, errty(ty))))
def b32(s):
    """what the checksummed decoder sees in string s: (valid, hrp lower case, number of payload characters)"""
    n = UF("b32_n", Bytes, I)(s); fact(n, n >= 0); return UF("b32_ok", Bytes, B)(s), UF("b32_hrp", Bytes, Bytes)(s), n
def b32_sym(s, i):
    r = UF("b32_sym", Bytes, I, I)(s, i); fact(r, z3.And(r >= 0, r <= 31)); return r
def b32_bytes(s, i):
    r = UF("b32_bytes", Bytes, I, Bytes)(s, i); return r
class Chk:
    def __init__(self, s): self.s = s
@model("CheckedHrpstring::new")
def m_chk(ex, st, inst, args, ty):
    if "Bech32m" not in inst.name: raise Unsupported("checksum " + inst.name[-60:])
    s = tm(ex, st, args[0]); return fork2(ex, st, b32(s)[0], ok(ty, Chk(s)), lambda q: err(ty, mkerr(ex, q, errty(ty))))
@model("CheckedHrpstring::hrp")
def m_chrp(ex, st, inst, args, ty):
    c = D(ex, st, args[0]); t = UF("b32_hrpv", Bytes, ex.T.sort(ty))(c.s); fact(t, hrp_lc(t) == b32(c.s)[1]); return t
@model("CheckedHrpstring::fe32_iter")
def m_cfe(ex, st, inst, args, ty): return FeIt(D(ex, st, args[0]).s, z3.IntVal(0))
@model("<AsciiToFe32Iter as Iterator>::next")
def m_fnext(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); f = ex.load(st, rr); n = b32(f.s)[2]; out = []
    for s, w in ex.branch(st, [(simp(f.pos < n), 1), (simp(f.pos >= n), 0)]):
        if w: ex.store(s, rr, FeIt(f.s, simp(f.pos + 1))); out.append((s, some(ty, fe_mk(ex, b32_sym(f.s, f.pos)))))
        else: out.append((s, none(ty)))
    return out
@model("<AsciiToFe32Iter as Fe32IterExt>::fes_to_bytes")
def m_f2b(ex, st, inst, args, ty): return D(ex, st, args[0])
@model("<FesToBytes as Iterator>::collect")
def m_f2bc(ex, st, inst, args, ty):
    f = D(ex, st, args[0])
    if not isinstance(f, FeIt) or ex.T.kind(ty) != "bytes": raise Unsupported("fes_to_bytes")
    return b32_bytes(f.s, f.pos)
@model("<Hrp as PartialEq>::eq")
def m_hrpeq(ex, st, inst, args, ty): return hrp_lc(tm(ex, st, args[0])) == hrp_lc(tm(ex, st, args[1]))
@model("Hrp::to_lowercase")
def m_hrplc(ex, st, inst, args, ty): return hrp_lc(tm(ex, st, args[0]))
class FmtArgs:
    """formatting arguments that write a known text"""
    def __init__(self, t): self.t = t
@model("Argument::new_display")
def m_argdisp(ex, st, inst, args, ty):
    try: t = tm(ex, st, args[0])
    except Unsupported: return Opaque("fmt arg")
    a = inst.args(); q = ex.T.strip(a[0]) if a else None
    text = q is not None and (q.k == "str" or q.k == "adt" and adt_key(q)[1] == "String")
    return FmtArgs(t) if text and t.sort() == Bytes else Opaque("fmt arg")
@model("Arguments::from_str_nonconst", "Arguments::from_str", "Arguments::new_const", "Arguments::new", "Arguments::new_v1")
def m_args(ex, st, inst, args, ty):
    try:
        if len(args) == 1: return FmtArgs(tm(ex, st, args[0])) if not isinstance(D(ex, st, args[0]), Agg) else Opaque("fmt args")
        tpl = tm(ex, st, args[0]); l = D(ex, st, args[1])
        if tpl.get_id() not in LITOF or not isinstance(l, Agg): return Opaque("fmt args")
        b = bytes.fromhex(LITOF[tpl.get_id()]); out = []; i = 0; n = 0
        while b[i]:
            if b[i] < 0x80: out.append(lit(b[i + 1:i + 1 + b[i]])); i += 1 + b[i]
            elif b[i] == 0xC0:
                v = D(ex, st, l.f[n]); n += 1; i += 1
                if not isinstance(v, FmtArgs): return Opaque("fmt args")
                out.append(v.t)
            else: return Opaque("fmt args")
        return FmtArgs(cat(*out))
    except (Unsupported, IndexError): return Opaque("fmt args")
def fmtargs(ex, st, v):
    a = D(ex, st, v)
    if not isinstance(a, FmtArgs): raise Unsupported("formatted text")
    return a.t
@model("Formatter::write_fmt", "<Formatter as Write>::write_fmt")
def m_wfmt(ex, st, inst, args, ty): return m_wstr(ex, st, inst, [args[0], fmtargs(ex, st, args[1])], ty)
@model("fmt::format")
def m_format(ex, st, inst, args, ty): return fmtargs(ex, st, args[0])
@model("Formatter::pad")
def m_pad(ex, st, inst, args, ty): return m_wstr(ex, st, inst, args, ty)
@model("<String as Display>::fmt", "<str as Display>::fmt")
def m_sdisp(ex, st, inst, args, ty): return m_wstr(ex, st, inst, [args[1], args[0]], ty)
