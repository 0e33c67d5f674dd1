"""Assumed contracts of further std and bitcoin functions that changed code may call (continued)."""
import z3, re
from models import *
from models_more import *
from models_more import ltty, opty, size, sub, keep, checked, each, two, rng
import core, loops, models, models_btc, models_more
from models_btc import ser64, pkh, wit_last, wit_empty, wit_has_last

def pres(names, tag=None):
    for n in names: TAB.setdefault(n, pure("f_" + re.sub(r"\W+", "_", tag or n)))
# a value of these depends on its arguments only; nothing more is assumed
pres(["Transaction::is_explicitly_rbf", "Transaction::is_lock_time_enabled", "Sequence::is_rbf", "Sequence::is_final", "Sequence::enables_absolute_lock_time", "Sequence::is_relative_lock_time", "Sequence::is_height_locked", "Sequence::is_time_locked", "Script::minimal_non_dust", "Script::dust_value", "Transaction::compute_wtxid", "Transaction::compute_ntxid", "Block::bip34_block_height", "Transaction::weight", "Transaction::vsize", "Transaction::total_size", "Transaction::base_size", "Block::weight", "Block::total_size", "Header::difficulty", "Header::difficulty_float", "Header::work", "Header::target", "Block::check_merkle_root", "Block::check_witness_commitment", "Witness::size", "Witness::second_to_last_x", "Script::count_sigops", "Script::is_provably_unspendable", "Script::is_push_only", "Script::is_multisig", "TxIn::weight", "TxOut::weight", "TxIn::segwit_weight", "TxIn::legacy_weight", "TxIn::enables_lock_time", "OutPoint::is_null_x", "Input::taproot_hash_ty", "Input::ecdsa_hash_ty", "Script::to_hex_string", "Script::to_asm_string", "Script::first_opcode",
      "u8::leading_zeros", "u32::leading_zeros", "u64::leading_zeros", "usize::leading_zeros", "u8::trailing_zeros", "u32::trailing_zeros", "u64::trailing_zeros", "usize::trailing_zeros", "u8::count_ones", "u32::count_ones", "u64::count_ones", "usize::count_ones",
      "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::eq_ignore_ascii_case", "str::trim", "str::trim_start", "str::trim_end", "str::is_ascii", "[T]::is_ascii"])
@model("hint::must_use")
def m_mustuse(ex, st, inst, args, ty): return args[0]
# ---------------------------------------------------------------- integers
for n in each("is_power_of_two"):
    TAB[n] = lambda ex, st, inst, args, ty: simp(z3.Or([tm(ex, st, args[0]) == 2 ** i for i in range(64)]))
def over(f):
    def m(ex, st, inst, args, ty):
        v = f(tm(ex, st, args[0]), tm(ex, st, args[1])); it = ty.fields(0)[0][1]; lo, hi = rng(ex, it); return Agg(ty, 0, [wrapt(ex, it, v), simp(z3.Or(v < lo, v > hi))])
    return m
for n in each("overflowing_add"): TAB[n] = over(lambda a, b: a + b)
for n in each("overflowing_sub"): TAB[n] = over(lambda a, b: a - b)
def m_inttry(ex, st, inst, args, ty):
    to = ty.args()[0]; v = tm(ex, st, args[0])
    if ex.T.kind(to) != "int" or v.sort() != I: raise Unsupported("external " + inst.name[:100])
    lo, hi = rng(ex, to); return fork2(ex, st, simp(z3.And(lo <= v, v <= hi)), ok(ty, v), lambda s: err(ty, mkerr(ex, s, errty(ty))))
for t in INTS: TAB[f"<{t} as TryFrom>::try_from"] = m_inttry; TAB[f"<{t} as TryInto>::try_into"] = m_inttry
class _NoTy: pass
def m_intop(op):
    def m(ex, st, inst, args, ty):
        x, y = tm(ex, st, args[0]), tm(ex, st, args[1])
        if op in ("Add", "Sub", "Mul"):
            lo, hi = rng(ex, ty); v = simp({"Add": x + y, "Sub": x - y, "Mul": x * y}[op]); g = simp(z3.And(lo <= v, v <= hi)); ex.c.oblige("no-overflow[" + op + "]", st, g); st.add(g); return v
        if op in ("Div", "Rem"): ex.c.oblige("no-panic[division by zero]", st, simp(y != 0)); st.add(simp(y != 0))
        return ex.binop(st, op, x, y, ty, False, ty)
    return m
for t in INTS + ("bool",):
    for tr, fn in (("BitOr", "bitor"), ("BitAnd", "bitand"), ("BitXor", "bitxor"), ("Rem", "rem"), ("Div", "div"), ("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Shr", "shr"), ("Shl", "shl")):
        TAB.setdefault(f"<{t} as {tr}>::{fn}", m_intop(tr))
# ---------------------------------------------------------------- lists
def plist(ex, st, a): rr = rootref(ex, st, a); return rr, tm(ex, st, ex.load(st, rr))
def catl(x, y): return cat(x, y) if x.sort() == Bytes else lcat(x, y)
def one(t, x): return be(1, x) if t.sort() == Bytes else lpush(lempty(L(t.sort()).es), x)
@model("Vec::insert", "VecDeque::insert")
def m_vinsert(ex, st, inst, args, ty):
    rr, t = plist(ex, st, args[0]); i = tm(ex, st, args[1]); n = size(t); g = simp(i <= n); ex.c.oblige("no-panic[insert index]", st, g); st.add(g)
    ex.store(st, rr, catl(catl(sub(ex, t, z3.IntVal(0), i), one(t, tm(ex, st, args[2]))), sub(ex, t, i, n))); return UNIT
@model("VecDeque::push_front")
def m_pushf(ex, st, inst, args, ty): rr, t = plist(ex, st, args[0]); ex.store(st, rr, catl(one(t, tm(ex, st, args[1])), t)); return UNIT
@model("Vec::append", "VecDeque::append")
def m_vappend(ex, st, inst, args, ty):
    a, x = plist(ex, st, args[0]); b, y = plist(ex, st, args[1]); ex.store(st, a, catl(x, y)); ex.store(st, b, EMPTY if y.sort() == Bytes else lempty(L(y.sort()).es)); return UNIT
def bounds(ex, st, a, n):
    a = D(ex, st, a)
    if not isinstance(a, Agg): raise Unsupported("range value")
    if adt_key(a.ty)[1] == "RangeInclusive": return tm(ex, st, a.f[0]), simp(tm(ex, st, a.f[1]) + 1)
    if adt_key(a.ty)[1] == "RangeToInclusive": return z3.IntVal(0), simp(tm(ex, st, a.f[0]) + 1)
    return range_of(ex, st, a, n)
@model("Vec::drain", "VecDeque::drain")
def m_vdrain(ex, st, inst, args, ty):
    rr, t = plist(ex, st, args[0]); n = size(t); lo, hi = bounds(ex, st, args[1], n); g = simp(z3.And(lo <= hi, hi <= n)); ex.c.oblige("no-panic[drain range]", st, g); st.add(g)
    ex.store(st, rr, catl(sub(ex, t, z3.IntVal(0), lo), sub(ex, t, hi, n))); ety = inst.args()[0] if inst.args() else None
    if ety is not None and ex.T.sort(ety) != (I if t.sort() == Bytes else L(t.sort()).es): ety = None
    return It(ListSrc(sub(ex, t, lo, hi), ety, by_ref=False))
@model("Vec::split_off", "VecDeque::split_off")
def m_splitoff(ex, st, inst, args, ty):
    rr, t = plist(ex, st, args[0]); k = tm(ex, st, args[1]); n = size(t); g = simp(k <= n); ex.c.oblige("no-panic[split_off]", st, g); st.add(g)
    ex.store(st, rr, sub(ex, t, z3.IntVal(0), k)); return sub(ex, t, k, n)
@model("[T]::swap", "VecDeque::swap")
def m_swap(ex, st, inst, args, ty):
    rr, t = plist(ex, st, args[0]); i, j = tm(ex, st, args[1]), tm(ex, st, args[2]); n = size(t); g = simp(z3.And(i < n, j < n)); ex.c.oblige("no-panic[swap index]", st, g); st.add(g)
    if t.sort() == Bytes: raise Unsupported("swap of bytes")
    ex.store(st, rr, lset(lset(t, i, lat(t, j)), j, lat(t, i))); return UNIT
def affix(ex, st, t, p, end):
    """(holds?, rest) of p being a prefix (suffix) of t"""
    if t.sort() != Bytes:
        q = sub(ex, t, size(t) - size(p), size(t)) if end else sub(ex, t, z3.IntVal(0), size(p))
        return lambda s: s.add(z3.BoolVal(True)) or leqb(q, p), None
    k = klen(p)
    if k is None: raise Unsupported("affix of unknown length")
    n = blen(t); lo = simp(n - k) if end else z3.IntVal(0); hi = n if end else z3.IntVal(k)
    return (lambda s: eqv(ex, s, bslice(t, lo, hi), p)), (bslice(t, z3.IntVal(0), simp(n - k)) if end else bslice(t, z3.IntVal(k), n))
def m_affix(end, strip):
    def m(ex, st, inst, args, ty):
        t, p = tm(ex, st, args[0]), tm(ex, st, args[1])
        if p.sort() == I: p = be(1, p)
        if p.sort() != t.sort(): raise Unsupported("affix")
        out = []
        for s, w in ex.branch(st, [(simp(size(t) >= size(p)), 1), (simp(size(t) < size(p)), 0)]):
            if not w: out.append((s, none(ty) if strip else z3.BoolVal(False))); continue
            f, rest = affix(ex, s, t, p, end); b = f(s)
            if not strip: out.append((s, b)); continue
            if rest is None: raise Unsupported("strip of a list")
            for s2, y in boolsplit(ex, s, b): out.append((s2, some(ty, ref(s2, rest)) if y else none(ty)))
        return out
    return m
TAB["[T]::ends_with"] = m_affix(True, False); TAB["[T]::starts_with"] = m_affix(False, False)
TAB["[T]::strip_prefix"] = m_affix(False, True); TAB["[T]::strip_suffix"] = m_affix(True, True)
def strlit(ex, st, a):
    t = tm(ex, st, a); return t.sort() == Bytes
for n, e, s_ in (("str::starts_with", False, False), ("str::ends_with", True, False), ("str::strip_prefix", False, True), ("str::strip_suffix", True, True)):
    def mk(n, e, s_):
        def m(ex, st, inst, args, ty):
            d = D(ex, st, args[1])
            if z3.is_expr(d) and d.sort() in (Bytes,) and klen(d) is not None: return m_affix(e, s_)(ex, st, inst, args, ty)
            if not z3.is_expr(d): raise Unsupported("external " + n)
            return pure("f_" + re.sub(r"\W+", "_", n))(ex, st, inst, args, ty)
        return m
    TAB[n] = mk(n, e, s_)
def m_chunk(last, split=False):
    def m(ex, st, inst, args, ty):
        aty = ty.args()[0].elem if not split else None; t = tm(ex, st, args[0]); n = size(t); N = aty.d["len"]
        return fork2(ex, st, simp(n >= N), lambda s: some(ty, ref(s, sub(ex, t, n - N if last else z3.IntVal(0), n if last else z3.IntVal(N)))), none(ty))
    return m
TAB["[T]::first_chunk"] = m_chunk(False); TAB["[T]::last_chunk"] = m_chunk(True)
_sort = TAB["[T]::reverse"]
@model("[T]::reverse", "Vec::reverse")
def m_reverse(ex, st, inst, args, ty):
    rr, t = plist(ex, st, args[0])
    if t.sort() != Bytes: return _sort(ex, st, inst, args, ty)
    k = klen(t)
    if k is not None and k <= 64: ex.store(st, rr, models.bytes_of([bat(t, k - 1 - i) for i in range(k)])); return UNIT
    r = UF("brev", Bytes, Bytes)(t); fact(r, blen(r) == blen(t)); ex.store(st, rr, r); return UNIT
_concat = TAB["[T]::concat"]
@model("[T]::concat")
def m_concat2(ex, st, inst, args, ty):
    v = D(ex, st, args[0])
    if isinstance(v, Agg): return _concat(ex, st, inst, args, ty)
    t = tm(ex, st, v); acc = newcell(st, empty_of(ex, ty), "concat")
    def body(s, x): s.heap[acc] = catl(s.heap[acc], tm(ex, s, x)); return [("next", s)]
    return [(s, s.heap[acc]) for s, _ in consume(ex, st, It(ListSrc(t, None)), body, "concat")]
@model("Vec::dedup", "VecDeque::dedup_x")
def m_dedup(ex, st, inst, args, ty):
    """a list without equal neighbours, whose elements are those of the old one"""
    rr, t = plist(ex, st, args[0])
    if t.sort() == Bytes: raise Unsupported("dedup of bytes")
    t = core.named(t); r = fresh("dedup", t.sort()); n, m = llen(t), llen(r); i = z3.Const("ddi", I); p, q = UF(f"ddp!{r}", I, I), UF(f"ddq!{r}", I, I)
    fact(r, z3.And(m >= 0, m <= n, (m == 0) == (n == 0)))
    fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m), z3.And(lat(r, i) == lat(t, p(i)), i <= p(i), p(i) < n)), patterns=[lat(r, i)]))
    fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < m), z3.And(lat(r, i) != lat(r, i + 1), p(i) < p(i + 1))), patterns=[lat(r, i)]))
    fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < m, lat(r, q(i)) == lat(t, i))), patterns=[lat(t, i)]))
    ex.store(st, rr, r); return UNIT
@model("[T]::is_sorted")
def m_issorted(ex, st, inst, args, ty):
    t = core.named(tm(ex, st, args[0])); r = UF(f"lsorted<{t.sort()}>", t.sort(), B)(t)
    if t.sort() == Bytes: return r
    i = z3.Const("isi", I); w = UF(f"lsortedw<{t.sort()}>", t.sort(), I)(t)
    if L(t.sort()).es in (I,): fact(r, z3.Implies(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < llen(t)), z3.Not(ltv(lat(t, i + 1), lat(t, i)))), patterns=[lat(t, i)])))
    fact(r, z3.Implies(z3.Not(r), z3.And(0 <= w, w + 1 < llen(t)))); return r
@model("[T]::binary_search")
def m_bsearch(ex, st, inst, args, ty):
    """on a list not known to be sorted: any position in range, equal to the key if Ok"""
    t = core.named(tm(ex, st, args[0])); x = tm(ex, st, args[1]); n = size(t); ident = f"{t.sort()},{x.sort()}"
    g, w = UF(f"bsok<{ident}>", t.sort(), x.sort(), B)(t, x), UF(f"bsix<{ident}>", t.sort(), x.sort(), I)(t, x); st.add(z3.And(0 <= w, w <= n))
    def good(s): s.add(w < n); s.add(elem_at(ex, t, w) == x); return ok(ty, w)
    return fork2(ex, st, g, good, lambda s: err(ty, w))
# ---------------------------------------------------------------- maps and sets
def ends(name, last, pop=False):
    def m(ex, st, inst, args, ty):
        m_ = tm(ex, st, args[0]); mp = is_map(m_.sort()); d = mdom(m_) if mp else m_; ks = d.sort().domain(); n, at = enum_map(d); domempty(d); out = []
        for q, w in ex.branch(st, [(n > 0, 1), (n == 0, 0)]):
            if not w: out.append((q, none(ty))); continue
            k = fresh("endk", ks); j = z3.Const("end_j", ks); q.add(z3.Select(d, k)); q.add(z3.ForAll([j], z3.Implies(z3.Select(d, j), z3.Not(ltv(k, j) if last else ltv(j, k))), patterns=[z3.Select(d, j)]))
            if name == "kv": v = Agg(ty.args()[0], 0, [ref(q, k), ref(q, mget(m_, k))])
            else: v = ref(q, mget(m_, k) if mp else k)
            out.append((q, some(ty, v)))
        return out
    return m
TAB["BTreeMap::first_key_value"] = ends("kv", False); TAB["BTreeMap::last_key_value"] = ends("kv", True); TAB["BTreeSet::first"] = ends("k", False); TAB["BTreeSet::last"] = ends("k", True)
def plainset(ex, st, a):
    t = tm(ex, st, a)
    if is_map(t.sort()): raise Unsupported("operation on a keyed set")
    return t
_sops = {}
def setop(kind, x, y):
    """a named set with its pointwise definition"""
    if kind == "union": x, y = sorted([x, y], key=lambda t: t.get_id()) if False else (x, y)
    key = (kind, x.get_id(), y.get_id())
    if key not in _sops:
        r = fresh("set_" + kind, x.sort()); k = z3.Const("so_k", x.sort().domain()); a, b = zsel(x, k), zsel(y, k)
        e = {"union": z3.Or(a, b), "intersection": z3.And(a, b), "difference": z3.And(a, z3.Not(b)), "symmetric_difference": z3.Xor(a, b)}[kind]
        fact(r, z3.ForAll([k], z3.Select(r, k) == e, patterns=[z3.Select(r, k)])); _sops[key] = (r, x, y)
        for t in (x, y):
            if z3.is_const(t): fact(r, z3.ForAll([k], z3.Select(r, k) == e, patterns=[z3.Select(t, k)]))
    return _sops[key][0]
def m_setop(kind):
    def m(ex, st, inst, args, ty):
        x, y = core.named(plainset(ex, st, args[0])), core.named(plainset(ex, st, args[1])); return It(map_src(ex, st, setop(kind, x, y), inst.args()[0], None, "k", True))
    return m
def sub_of(x, y, disjoint=False):
    f = UF(f"{'disj' if disjoint else 'subset'}<{x.sort()}>", x.sort(), x.sort(), B); r = f(x, y); k = z3.Const("su_k", x.sort().domain()); w = UF(f"subw{int(disjoint)}<{x.sort()}>", x.sort(), x.sort(), x.sort().domain())(x, y)
    bad = (lambda q: z3.And(zsel(x, q), zsel(y, q))) if disjoint else (lambda q: z3.And(zsel(x, q), z3.Not(zsel(y, q))))
    fact(r, z3.Implies(z3.Not(r), bad(w)))
    for t in (x, y): fact(r, z3.Implies(r, z3.ForAll([k], z3.Not(bad(k)), patterns=[z3.Select(t, k)])) if z3.is_const(t) else z3.BoolVal(True))
    return r
for c in ("BTreeSet", "HashSet"):
    for k in ("union", "intersection", "difference", "symmetric_difference"): TAB[f"{c}::{k}"] = m_setop(k)
    TAB[f"{c}::is_subset"] = lambda ex, st, inst, args, ty: sub_of(core.named(plainset(ex, st, args[0])), core.named(plainset(ex, st, args[1])))
    TAB[f"{c}::is_superset"] = lambda ex, st, inst, args, ty: sub_of(core.named(plainset(ex, st, args[1])), core.named(plainset(ex, st, args[0])))
    TAB[f"{c}::is_disjoint"] = lambda ex, st, inst, args, ty: sub_of(core.named(plainset(ex, st, args[0])), core.named(plainset(ex, st, args[1])), True)
_subsets = {}
@model("BTreeSet::range")
def m_srange(ex, st, inst, args, ty):
    kty = inst.args()[0]; r = D(ex, st, args[1]); m = tm(ex, st, args[0])
    if not isinstance(r, Agg): raise Unsupported("range bounds")
    n = adt_key(r.ty)[1]
    if is_map(m.sort()):
        # a keyed set: bounds are elements, compared by their key
        ks = [skey(ex, st, m, x) for x in r.f[:2]] if n != "RangeFull" else []; lo, hi = {"RangeInclusive": lambda: ks, "Range": lambda: ks, "RangeFrom": lambda: (ks[0], None), "RangeTo": lambda: (None, ks[0]), "RangeToInclusive": lambda: (None, ks[0]), "RangeFull": lambda: (None, None)}[n]()
        kk = next(t for t in ex.prog.types.values() if t.name == "u32"); return It(map_src(ex, st, submap(ex, m, lo, hi, kk, n in ("Range", "RangeTo")), None, kty, "v", True))
    f = [tm(ex, st, x) for x in r.f[:2]]; excl = n in ("Range", "RangeTo")
    lo, hi = {"RangeInclusive": lambda: f, "Range": lambda: f, "RangeFrom": lambda: (f[0], None), "RangeTo": lambda: (None, f[0]), "RangeToInclusive": lambda: (None, f[0]), "RangeFull": lambda: (None, None)}[n]()
    m = core.named(m); key = (m.get_id(), lo is not None and lo.get_id(), hi is not None and hi.get_id(), excl)
    if key not in _subsets:
        d = fresh("srange", m.sort()); _subsets[key] = (d, m, lo, hi); k = z3.Const("srg_k", m.sort().domain()); c = [zsel(m, k)]
        if lo is not None: c.append(lex_le(ex, kty, lo, k))
        if hi is not None: c.append(z3.Not(lex_le(ex, kty, hi, k)) if excl else lex_le(ex, kty, k, hi))
        fact(d, z3.ForAll([k], z3.Select(d, k) == z3.And(*c), patterns=[z3.Select(d, k)]))
        if z3.is_const(m): fact(d, z3.ForAll([k], z3.Select(d, k) == z3.And(*c), patterns=[z3.Select(m, k)]))
    return It(map_src(ex, st, _subsets[key][0], kty, None, "k", True))
@model("BTreeMap::split_off")
def m_msplit(ex, st, inst, args, ty):
    rr, m = plist(ex, st, args[0]); k = tm(ex, st, args[1]); kty = inst.args()[0]; m = core.named(m)
    ex.store(st, rr, submap(ex, m, None, k, kty, True)); return submap(ex, m, k, None, kty)
@model("BTreeSet::split_off")
def m_ssplit(ex, st, inst, args, ty):
    rr, m = plist(ex, st, args[0])
    if not is_map(m.sort()): raise Unsupported("split_off of a set")
    k = skey(ex, st, m, args[1]); m = core.named(m); kk = next(t for t in ex.prog.types.values() if t.name == "u32")
    ex.store(st, rr, submap(ex, m, None, k, kk, True)); return submap(ex, m, k, None, kk)
@model("BTreeMap::retain", "HashMap::retain")
def m_mretain2(ex, st, inst, args, ty):
    rr, m = plist(ex, st, args[0]); k, v = mapargs(ex, inst); m = core.named(m)
    ex.store(st, rr, mempty(M(m.sort()).ks, M(m.sort()).vs)); cur = {}
    def ask(s, p):
        p = D(ex, s, p); kk, vv = p.f; c = newcell(s, D(ex, s, vv), "rv"); cur["c"] = c; cur["k"] = kk
        return ex.callv(s, args[1], [kk, Ref(c)])
    def push(s, p):
        ex.store(s, rr, mput(tm(ex, s, ex.load(s, rr)), tm(ex, s, cur["k"]), tm(ex, s, s.heap[cur["c"]])))
    return keep(ex, st, rr, It(map_src(ex, st, m, k, v, "kv", True)), ask, push, "retain")
# ---------------------------------------------------------------- iterators
def cmpf(least):
    """min_by/max_by by a comparison closure"""
    def f(ex, s, inst, args, best, v):
        a, b = (v, best) if least else (best, v); out = []   # min: replace when v < best; max: replace unless best > v
        ca, cb = newcell(s, best, "ca"), newcell(s, v, "cb")
        for s1, w in ex.callv(s, args[1], [Ref(ca), Ref(cb)]):
            o = D(ex, s1, w)
            if isinstance(o, Agg): gt = z3.BoolVal(o.v == 2)
            else: gt = o.sort().recognizer(2)(o)
            out += boolsplit(ex, s1, simp(gt) if least else simp(z3.Not(gt)))
        return out
    return f
models.ITER[("iter", "min_by")] = pick(cmpf(True)); models.ITER[("iter", "max_by")] = pick(cmpf(False))
def seq_cmp(ne):
    def f(ex, st, inst, args, ty):
        a = getit(ex, st, args[0]); b = args[1]; d = D(ex, st, b)
        if not isinstance(d, It):
            d = models.m_into_iter(ex, st, models.FakeInst(inst, 1), [b], None)
            if isinstance(d, list): raise Unsupported("eq of iterators")
        if not (a.mapped() and d.mapped()): raise Unsupported("eq of filtering iterators")
        n, m = simp(a.end - a.pos), simp(d.end - d.pos); out = []
        for s, w in ex.branch(st, [(simp(n == m), 1), (simp(n != m), 0)]):
            if not w: out.append((s, z3.BoolVal(ne))); continue
            def body(s1, v):
                x, y = v.f; o = []
                for s2, q in boolsplit(ex, s1, eqv(ex, s1, x, y)): o.append(("next", s2) if q else ("done", s2, z3.BoolVal(ne)))
                return o
            out += [(s3, z3.BoolVal(not ne) if p is None else p) for s3, p in consume(ex, s, It(loops.ZipSrc(a, d, PairTy)), body, "iter_eq")]
        return out
    return f
models.ITER[("iter", "eq")] = seq_cmp(False); models.ITER[("iter", "ne")] = seq_cmp(True)
@itm("rposition")
def i_rposition(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if not it.mapped(): raise Unsupported("rposition")
    n = newcell(st, simp(it.end - it.pos), "rpos"); rv = It(loops.RevSrc(it))
    def body(s, v):
        o = []
        for s1, w in ex.callv(s, args[1], [v]):
            s1.heap[n] = simp(s1.heap[n] - 1)
            for s2, b in boolsplit(ex, s1, w): o.append(("done", s2, s2.heap[n]) if b else ("next", s2))
        return o
    return [(s, none(ty) if p is None else some(ty, p)) for s, p in consume(ex, st, rv, body, "rposition")]
@itm("step_by")
def i_stepby(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); k = as_int(tm(ex, st, args[1]))
    if not it.mapped() or not k: raise Unsupported("step_by")
    n = simp(it.end - it.pos); return It(FnSrc(simp((n + k - 1) / k), lambda ex, s, i: it.elem(ex, s, simp(it.pos + i * k)), ["step", str(k), it]))
# scan: map_while over a state
def i_scan(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); c = newcell(st, args[1], "scan"); f = args[2]
    class F:
        def callv(self, ex, s, a): return ex.callv(s, f, [Ref(c), a[0]])
    return it.with_(stages=it.stages + (("map_while", F(), closure_ret(ex, st, f)),))
models.ITER[("iter", "scan")] = i_scan
@itm("peekable")
def i_peekable(ex, st, inst, args, ty): return getit(ex, st, args[0])
@model("Peekable::peek")
def m_peek(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if not it.mapped(): raise Unsupported("peek of a filtering iterator")
    c = newcell(st, it, "peek"); return [(s, none(ty) if v is None else some(ty, ref(s, v))) for s, v in next_(ex, st, Ref(c))]
@model("Peekable::next_if")
def m_nextif(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if not it.mapped(): raise Unsupported("next_if of a filtering iterator")
    c = newcell(st, it, "peek"); out = []
    for s, v in next_(ex, st, Ref(c)):
        if v is None: out.append((s, none(ty))); continue
        q = newcell(s, v, "pk")
        for s1, w in ex.callv(s, args[1], [Ref(q)]):
            for s2, b in boolsplit(ex, s1, w):
                if b: loops.set_it(ex, s2, args[0], s2.heap[c]); out.append((s2, some(ty, v)))
                else: out.append((s2, none(ty)))
    return out
_next = models.ITER[("iter", "next")]
def i_next2(ex, st, inst, args, ty):
    """first element of a flattened iterator that is not used afterwards"""
    d = D(ex, st, args[0])
    if isinstance(d, It) and any(s[0] in ("flat_map", "flatten") for s in d.stages):
        def body(s, v): return [("done", s, v)]
        out = []
        for s, p in consume(ex, st, d, body, "flat_next"):
            loops.set_it(ex, s, args[0], It(FnSrc(z3.IntVal(0), lambda ex, s, i: _used(), ["used", str(id(d))]))) if p is None else ex.store(s, rootref(ex, s, args[0]), Opaque("partly used flattened iterator"))
            out.append((s, none(ty) if p is None else some(ty, p)))
        return out
    return _next(ex, st, inst, args, ty)
def _used(): raise Unsupported("used iterator")
models.ITER[("iter", "next")] = i_next2
# ---------------------------------------------------------------- amounts
def amt(ex, st, a):
    t = tm(ex, st, a)
    return t if t.sort() == I else ap(t.sort().accessor(0, 0), t)
def mkamt(ex, ty, v): return Agg(ty, 0, [v])
@model("Amount::from_sat")
def m_fromsat(ex, st, inst, args, ty): return mkamt(ex, ty, args[0])
@model("Amount::to_sat")
def m_tosat(ex, st, inst, args, ty): return ex.T.note(amt(ex, st, args[0]), ty)
def m_amt(f):
    def m(ex, st, inst, args, ty):
        v = simp(f(amt(ex, st, args[0]), amt(ex, st, args[1]))); aty = ty.args()[0]; return fork2(ex, st, simp(z3.And(0 <= v, v < 2**64)), lambda s: some(ty, mkamt(ex, aty, v)), none(ty))
    return m
TAB["Amount::checked_add"] = m_amt(lambda a, b: a + b); TAB["Amount::checked_sub"] = m_amt(lambda a, b: a - b); TAB["Amount::checked_mul"] = m_amt(lambda a, b: a * b)
def m_amtop(op):
    def m(ex, st, inst, args, ty):
        v = simp(op(amt(ex, st, args[0]), amt(ex, st, args[1]))); g = simp(z3.And(0 <= v, v < 2**64)); ex.c.oblige("no-panic[amount overflow]", st, g); st.add(g); return mkamt(ex, ty, v)
    return m
TAB["<Amount as Add>::add"] = m_amtop(lambda a, b: a + b); TAB["<Amount as Sub>::sub"] = m_amtop(lambda a, b: a - b)
_sum = models.ITER[("iter", "sum")]
@itm("sum")
def i_sum2(ex, st, inst, args, ty):
    if not (ty.k == "adt" and adt_key(ty)[1] == "Amount"): return _sum(ex, st, inst, args, ty)
    acc = newcell(st, z3.IntVal(0), "sum")
    def body(s, v):
        r = simp(s.heap[acc] + amt(ex, s, v)); g = simp(r < 2**64); ex.c.oblige("no-panic[sum overflow]", s, g); s.add(g); s.heap[acc] = r; return [("next", s)]
    return [(s, mkamt(ex, ty, s.heap[acc])) for s, _ in consume(ex, st, getit(ex, st, args[0]), body, "sum")]
# ---------------------------------------------------------------- keys, networks, transactions
@model("PublicKey::serialize_uncompressed")
def m_seru(ex, st, inst, args, ty): return cat(lit("04"), ser64(tm(ex, st, args[0])))
@model("XOnlyPublicKey::add_tweak")
def m_xadd(ex, st, inst, args, ty):
    x, t = tm(ex, st, args[0]), tm(ex, st, args[2]); p = models_btc.lin(x + t); tt = ty.args()[0]
    return fork2(ex, st, simp(p != 0), lambda s: ok(ty, Agg(tt, 0, [models_more.m_xonly_t(p), models_btc.parity(ex, models_btc.even(p))])), lambda s: err(ty, mkerr(ex, s, errty(ty))))
@model("NetworkKind::is_mainnet")
def m_ismain(ex, st, inst, args, ty):
    d = D(ex, st, args[0])
    if isinstance(d, Agg): return z3.BoolVal(d.v == 0)
    return d.sort().recognizer(0)(d)
def fld(ex, name, crate_ty, t):
    tt = next(x for x in ex.prog.types.values() if x.k == "adt" and adt_key(x) == crate_ty and ex.T.sort(x) == t.sort()); return next(ex.T.acc(tt, 0, j, t) for j, (n, _) in enumerate(ex.T.vfields(tt, 0)) if n == name)
@model("Transaction::is_coinbase")
def m_iscb(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); ins = fld(ex, "input", ("bitcoin", "Transaction"), t); i0 = lat(ins, z3.IntVal(0)); po = fld(ex, "previous_output", ("bitcoin", "TxIn"), i0)
    return z3.And(llen(ins) == 1, fld(ex, "txid", ("bitcoin", "OutPoint"), po) == lit("00" * 32), fld(ex, "vout", ("bitcoin", "OutPoint"), po) == 2**32 - 1)
@model("consensus::serialize", "encode::serialize")
def m_cser(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); aty = inst.args()[0] if inst.args() else None
    if aty is not None and aty.k == "adt" and adt_key(aty) == ("bitcoin", "OutPoint"): return cat(setlen(fld(ex, "txid", ("bitcoin", "OutPoint"), t), 32), le(4, fld(ex, "vout", ("bitcoin", "OutPoint"), t)))
    if t.sort() == I: lo, hi = rng(ex, aty); return le((hi.bit_length() + 7) // 8, t)
    return pure("consensus_" + str(t.sort()))(ex, st, inst, args, ty)
def pkparts(ex, st, a):
    t = tm(ex, st, a); s = t.sort(); d = {}
    for j in range(s.constructor(0).arity()): d[s.accessor(0, j).name().split(".")[-1]] = ap(s.accessor(0, j), t)
    return d["compressed"], d["inner"]
@model("PublicKey::wpubkey_hash")
def m_wpkh(ex, st, inst, args, ty):
    c, p = pkparts(ex, st, args[0]); return fork2(ex, st, simp(c), lambda s: ok(ty, pkh(z3.BoolVal(True), p)), lambda s: err(ty, mkerr(ex, s, errty(ty))))
@model("Script::script_hash", "ScriptBuf::script_hash")
def m_sh(ex, st, inst, args, ty): r = UF("hash160", Bytes, Bytes)(tm(ex, st, args[0])); return setlen(r, 20)
@model("Script::wscript_hash", "ScriptBuf::wscript_hash")
def m_wsh(ex, st, inst, args, ty): r = UF("sha256script", Bytes, Bytes)(tm(ex, st, args[0])); return setlen(r, 32)
def wit_len(w): r = UF("wit_len", w.sort(), I)(w); fact(r, r >= 0); fact(r, (r == 0) == wit_empty(w)); wit_empty(w); return r
def wit_at(w, i): r = UF("wit_at", w.sort(), I, Bytes)(w, i); fact(r, z3.Implies(z3.And(i == wit_len(w) - 1, wit_len(w) > 0), r == wit_last(w))); return r
@model("Witness::len")
def m_wlen(ex, st, inst, args, ty): r = wit_len(tm(ex, st, args[0])); fact(r, r < 2**63); return r
@model("Witness::nth")
def m_wnth(ex, st, inst, args, ty):
    w = tm(ex, st, args[0]); i = tm(ex, st, args[1]); return fork2(ex, st, simp(i < wit_len(w)), lambda s: some(ty, ref(s, wit_at(w, i))), none(ty))
@model("Witness::second_to_last")
def m_w2l(ex, st, inst, args, ty):
    w = tm(ex, st, args[0]); return fork2(ex, st, simp(wit_len(w) >= 2), lambda s: some(ty, ref(s, wit_at(w, simp(wit_len(w) - 2)))), none(ty))
@model("Witness::iter", "<Witness as IntoIterator>::into_iter")
def m_witer(ex, st, inst, args, ty):
    w = tm(ex, st, args[0]); return It(FnSrc(wit_len(w), lambda ex, s, i: ref(s, wit_at(w, i)), ["wit", w]))
@model("Witness::to_vec")
def m_wvec(ex, st, inst, args, ty):
    w = tm(ex, st, args[0]); i = z3.Const("wvi", I); wit_at(w, z3.IntVal(0)); return models.comp_list(i, wit_at(w, i), z3.IntVal(0), wit_len(w), Bytes)
# ---------------------------------------------------------------- anything else of the bitcoin crate that only looks at values
_generic = models.Models.generic
def generic2(self, key, inst):
    m = _generic(self, key, inst)
    if m is not None or inst.has_body: return m
    mm = re.match(r"<(.+) as ToString>::to_string$", key)
    if mm: return tostring
    if inst.crate in ("bitcoin", "bitcoin_units", "bip157", "bdk_chain") and re.match(r"[A-Z]\w*::is_\w+$", key): return lookonly(key)
    return None
def tostring(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); return UF(f"f_to_string<{t.sort()}>", t.sort(), Bytes)(t)
def lookonly(key):
    f = pure("f_" + re.sub(r"\W+", "_", key))
    def m(ex, st, inst, args, ty):
        if ty is None or ty.k != "bool": raise Unsupported("external " + key)
        for a in args:
            if isinstance(a, It): raise Unsupported("external " + key)
        return f(ex, st, inst, args, ty)
    return m
models.Models.generic = generic2
