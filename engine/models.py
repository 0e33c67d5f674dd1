"""Assumed contracts of dependencies (std, bitcoin, secp256k1, ...), keyed by canonical name."""
import z3, re, hashlib
from core import *
from values import *
from loops import *
from exec import newcell
import core

TAB = {}
def model(*names):
    def d(f):
        for n in names: TAB[n] = f
        return f
    return d
def m_clonefrom(ex, st, inst, args, ty): ex.store(st, rootref(ex, st, args[0]), tm(ex, st, args[1])); return UNIT
class Models:
    def __init__(self): self.t = dict(TAB)
    def get(self, k): return self.t.get(k)
    def generic(self, key, inst):
        m = re.match(r"<(.+) as (\w+)>::(\w+)$", key)
        if m:
            ty, tr, fn = m.groups()
            if (tr, fn) == ("Clone", "clone") and not (inst.has_body): return m_copy
            if (tr, fn) == ("Clone", "clone_from") and not inst.has_body: return m_clonefrom
            if tr in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "Fe32IterExt", "ByteIterExt") and ("iter", fn) in ITER and not inst.has_body: return ITER[("iter", fn)]
            if tr == "IntoIterator" and fn == "into_iter": return m_into_iter
            if tr in ("PartialEq",) and fn in ("eq", "ne") and not inst.has_body: return m_eq if fn == "eq" else m_ne
            if tr in ("Ord",) and fn == "cmp" and not inst.has_body: return m_cmp
            if tr == "PartialOrd" and fn in ("lt", "le", "gt", "ge") and not inst.has_body: return lambda *a: m_pord(fn, *a)
            if tr in ("Deref", "AsRef", "Borrow", "DerefMut", "AsMut", "BorrowMut") and not inst.has_body: return m_ident
            if tr in ("From", "Into") and not inst.has_body: return m_from
            if tr == "Default" and not inst.has_body: return m_default
            if tr == "Extend" and fn == "extend": return m_extend
            if tr in ("Index", "IndexMut") and fn in ("index", "index_mut"): return m_index
            if tr == "ToOwned" or (tr, fn) == ("SpecToString", "x"): return m_copy
        return None

def D(ex, st, v): return deref(ex, st, v)
def tm(ex, st, v): return ex.term(st, v)
def some(ty, v): return Agg(ty, 1, [v])
def none(ty): return Agg(ty, 0, [])
def ok(ty, v): return Agg(ty, 0, [v])
def err(ty, v): return Agg(ty, 1, [v])
def ref(st, v): return Ref(newcell(st, v, "m"))
def optref(ty):
    """is the payload of this Option type a reference?"""
    return ty.args()[0].k == "ref"
def errty(ty): return ty.args()[1]
def mkerr(ex, st, ty, variant=None):
    """an error value of Rust type ty (enum variant by name, or an arbitrary value)"""
    if ty.k == "adt" and ex.T.kind(ty) == "dt" and variant is not None:
        for i, v in enumerate(ty.d["variants"]):
            if v["name"] == variant: return Agg(ty, i, [])
    if ty.k == "tuple" and not ty.d["elems"]: return UNIT
    f = UF("err_" + (variant or "any"), ex.T.sort(ty)); return f()
def fork2(ex, st, cond, a, b):
    """[(st,a) when cond] + [(st,b) when not cond]; a, b may be thunks taking the state"""
    out = []
    for s, w in ex.branch(st, [(cond, a), (z3.Not(cond), b)]): out.append((s, w(s) if callable(w) else w))
    return out
def pure(name):
    """uninterpreted deterministic function of the argument values"""
    def f(ex, st, inst, args, ty):
        ts = [tm(ex, st, a) for a in args if not skippable(ex, st, a)]
        if ty is None: raise Unsupported("no return type for " + name)
        s = ex.T.sort(ty); r = UF(name, *[t.sort() for t in ts], s)(*ts) if ts else z3.Const(name, s)
        ex.T.deep_note(r, ty, 2); return r
    return f
def skippable(ex, st, a):
    v = D(ex, st, a) if isinstance(a, Ref) else a
    return isinstance(v, Opaque)

# ---------------------------------------------------------------- generic
def m_copy(ex, st, inst, args, ty):
    return D(ex, st, args[0])
def m_ident(ex, st, inst, args, ty): 
    v = args[0]
    # &Box<T>/&Arc<T>/&Vec<T>: the reference itself denotes the pointee
    return v
def m_eq(ex, st, inst, args, ty): return eqv(ex, st, args[0], args[1])
def eqv(ex, st, a, b):
    x, y = tm(ex, st, a), tm(ex, st, b)
    if x.eq(y): return z3.BoolVal(True)
    if is_list(x.sort()): return leqb(x, y)
    if is_map(x.sort()): return meqb(x, y)
    if x.sort() == Bytes:
        for p, q in ((x, y), (y, x)):
            ps = pieces(q)
            if len(ps) >= 2 and len(pieces(p)) == 1 and klen(q) is not None and not all(isbsl(w) for w in ps):
                # equal to a concatenation of parts of known lengths: part by part
                o = 0; cs = [blen(p) == klen(q)]
                for w in ps: k = klen(w); cs.append(bslice(p, o, o + k) == w); o += k
                fact(q, (p == q) == z3.And(cs))
        return x == y
    return x == y
def leqb(x, y):
    """boolean list equality with definition"""
    f = UF(f"leq<{x.sort()}>", x.sort(), x.sort(), B); r = f(x, y); i = z3.Const("leqi", I); w = UF(f"leqw<{x.sort()}>", x.sort(), x.sort(), I)(x, y)
    fact(r, z3.Implies(r, z3.And(llen(x) == llen(y), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(x)), lat(x, i) == lat(y, i)), patterns=[z3.Select(ap(L(x.sort()).larr, x), i)] if z3.is_const(ap(L(x.sort()).larr, x)) else []))))
    fact(r, z3.Implies(z3.Not(r), z3.Or(llen(x) != llen(y), z3.And(0 <= w, w < llen(x), lat(x, w) != lat(y, w)))))
    fact(r, z3.Implies(z3.And(llen(x) == 0, llen(y) == 0), r))
    return r
def meqb(x, y):
    f = UF(f"meq<{x.sort()}>", x.sort(), x.sort(), B); r = f(x, y); fact(r, z3.Implies(x == y, r)); return r
def m_ne(ex, st, inst, args, ty): return z3.Not(eqv(ex, st, args[0], args[1]))
ble_ = UF("blt", Bytes, Bytes, B)
def blt(a, b):
    """strict lexicographic order on byte strings: total order facts"""
    r = ble_(a, b)
    fact(r, z3.Implies(r, z3.And(z3.Not(ble_(b, a)), a != b)))
    fact(r, z3.Or(r, ble_(b, a), a == b))
    x, y, z = z3.Consts("blx bly blz", Bytes)
    fact(r, z3.ForAll([x, y, z], z3.Implies(z3.And(ble_(x, y), ble_(y, z)), ble_(x, z)), patterns=[z3.MultiPattern(ble_(x, y), ble_(y, z))]))
    fact(r, z3.ForAll([x, y], z3.Or(ble_(x, y), ble_(y, x), x == y), patterns=[ble_(x, y)]))
    fact(r, z3.ForAll([x, y], z3.Not(z3.And(ble_(x, y), ble_(y, x))), patterns=[ble_(x, y)]))
    fact(r, z3.ForAll([x], z3.Not(ble_(x, x)), patterns=[ble_(x, x)]))
    return r
def ltv(x, y):
    if x.sort() == I: return x < y
    if x.sort() == Bytes: return blt(x, y)
    f = UF(f"lt<{x.sort()}>", x.sort(), x.sort(), B); r = f(x, y)
    fact(r, z3.Implies(r, z3.And(z3.Not(f(y, x)), x != y))); fact(r, z3.Or(r, f(y, x), x == y)); return r
def m_cmp(ex, st, inst, args, ty):
    x, y = tm(ex, st, args[0]), tm(ex, st, args[1]); return ex.ordering(ty, ltv(x, y), x == y)
def m_pord(fn, ex, st, inst, args, ty):
    x, y = tm(ex, st, args[0]), tm(ex, st, args[1])
    return {"lt": lambda: ltv(x, y), "gt": lambda: ltv(y, x), "le": lambda: z3.Or(ltv(x, y), x == y), "ge": lambda: z3.Or(ltv(y, x), x == y)}[fn]()
def m_from(ex, st, inst, args, ty):
    v = args[0]; d = D(ex, st, v) if isinstance(v, Ref) else v
    try:
        t = tm(ex, st, d)
        if ty is not None and t.sort() == ex.T.sort(ty): return d
    except Unsupported: pass
    if ty is not None and ty.k == "adt" and ex.T.kind(ty) in ("map", "set", "list", "bytes") and isinstance(d, Agg) and d.ty.k == "array":
        return i_collect_into(ex, st, It(AggSrc(d.f, False)), ty, None)
    return pure("from_" + canon_ty(ex, inst, ty))(ex, st, inst, args, ty)
def canon_ty(ex, inst, ty): return re.sub(r"\W+", "_", inst.name)[:80]
def empty_of(ex, ty):
    T = ex.T; k = T.kind(ty)
    if k == "bytes": return EMPTY
    if k == "list": return lempty(T.sort(T.elem(ty)))
    if k == "map": a = ty.args(); return mempty(T.sort(a[0]), T.sort(a[1]))
    if k == "set": return z3.K(T.sort(ty.args()[0]), z3.BoolVal(False))
    if k == "kset": q = T.sort(ty); return mempty(M(q).ks, M(q).vs)
    if k == "int": return z3.IntVal(0)
    if k == "bool": return z3.BoolVal(False)
    if ty.k == "adt" and adt_key(ty) == ("core", "Option"): return none(ty)
    if k == "dt" and ty.k == "tuple": return Agg(ty, 0, [empty_of(ex, t) for t in ty.args()])
    if k == "unit": return UNIT
    if k == "box": return empty_of(ex, ty.args()[0])
    if k == "dt" and ty.k == "adt" and len(ty.d["variants"]) == 1 and adt_key(ty)[1] in ("ChangeSet", "Transaction", "Input", "Output"):
        return Agg(ty, 0, [empty_of(ex, t) for _, t in ty.fields(0)])
    return z3.Const("default_" + re.sub(r"\W+", "_", T.oname(ty)), T.sort(ty))
def m_default(ex, st, inst, args, ty): return empty_of(ex, ty)
@model("Vec::new", "BTreeMap::new", "HashMap::new", "BTreeSet::new", "HashSet::new", "VecDeque::new", "String::new", "ScriptBuf::new", "Vec::with_capacity", "HashMap::with_capacity", "HashSet::with_capacity", "VecDeque::with_capacity")
def m_new(ex, st, inst, args, ty): return empty_of(ex, ty)
@model("Vec::len", "[T]::len", "Script::len", "String::len", "str::len", "VecDeque::len", "[T;N]::len", "Witness::len")
def m_len(ex, st, inst, args, ty):
    t = tm(ex, st, args[0])
    def bounded(r):
        """no allocation exceeds isize::MAX bytes"""
        if not z3.is_int_value(r): fact(r, r < 2**63)
        return r
    if t.sort() == Bytes: return bounded(blen(t))
    if is_list(t.sort()): return bounded(llen(t))
    return pure("len_" + str(t.sort()))(ex, st, inst, args, ty)
@model("Vec::is_empty", "[T]::is_empty", "VecDeque::is_empty", "Script::is_empty", "String::is_empty", "str::is_empty")
def m_isempty(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); return simp((blen(t) if t.sort() == Bytes else llen(t)) == 0)
@model("Vec::push", "VecDeque::push_back")
def m_push(ex, st, inst, args, ty):
    r = rootref(ex, st, args[0]); x = tm(ex, st, args[1]); t = tm(ex, st, ex.load(st, r))
    ex.store(st, r, cat(t, be(1, x)) if t.sort() == Bytes else lpush(t, x)); return UNIT
def rootref(ex, st, r):
    while True:
        v = ex.load(st, r)
        if isinstance(v, Ref): r = v
        else: return r
@model("Vec::clear", "BTreeMap::clear", "HashMap::clear", "BTreeSet::clear", "HashSet::clear")
def m_clear(ex, st, inst, args, ty):
    r = rootref(ex, st, args[0]); t = tm(ex, st, ex.load(st, r)); s = t.sort()
    ex.store(st, r, EMPTY if s == Bytes else lempty(L(s).es) if is_list(s) else mempty(M(s).ks, M(s).vs) if is_map(s) else z3.K(s.domain(), z3.BoolVal(False))); return UNIT
@model("[T]::first", "[T]::last", "Vec::first", "Vec::last")
def m_first(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); n = blen(t) if t.sort() == Bytes else llen(t); last = inst.name.split("::<")[0].endswith("last") or inst.name.endswith("last")
    i = simp(n - 1) if last else z3.IntVal(0)
    return fork2(ex, st, simp(n > 0), lambda s: some(ty, ref(s, elem_at(ex, t, i, ty))), none(ty))
def elem_at(ex, t, i, optty=None):
    v = bat(t, i) if t.sort() == Bytes else lat(t, i)
    if optty is not None:
        e = ex.T.strip(optty.args()[0]) if optty.k == "adt" else optty
        if ex.T.sort(e) == v.sort(): ex.T.deep_note(v, e, 2)
    return v
@model("[T]::get", "Vec::get", "[T]::get_mut", "Vec::get_mut")
def m_get(ex, st, inst, args, ty):
    r = args[0]; t = tm(ex, st, r); idx = args[1]; n = blen(t) if t.sort() == Bytes else llen(t)
    if isinstance(idx, Agg):   # range
        lo, hi = range_of(ex, st, idx, n)
        return fork2(ex, st, simp(z3.And(lo <= hi, hi <= n)), lambda s: some(ty, ref(s, ex.slice(t, lo, hi))), none(ty))
    i = tm(ex, st, idx)
    if "get_mut" in inst.name.split("<")[0] or "::get_mut" in inst.name:
        rr = rootref(ex, st, r); ety = ty.args()[0].elem
        return fork2(ex, st, simp(z3.And(i >= 0, i < n)), some(ty, Ref(rr.cell, rr.path + (("i", i, ety),))), none(ty))
    return fork2(ex, st, simp(z3.And(i >= 0, i < n)), lambda s: some(ty, ref(s, elem_at(ex, t, i, ty))), none(ty))
def range_of(ex, st, a, n):
    nm = adt_key(a.ty)[1]; f = [tm(ex, st, x) for x in a.f]
    if nm == "Range": return f[0], f[1]
    if nm == "RangeFrom": return f[0], n
    if nm == "RangeTo": return z3.IntVal(0), f[0]
    if nm == "RangeFull": return z3.IntVal(0), n
    raise Unsupported("range " + nm)
def m_index(ex, st, inst, args, ty):
    r = args[0]; t = tm(ex, st, r); idx = args[1]
    if is_map(t.sort()):
        k = tm(ex, st, idx); ex.c.oblige("no-panic[map index]", st, mhas(t, k)); st.add(mhas(t, k)); return ref(st, mget(t, k))
    n = blen(t) if t.sort() == Bytes else llen(t) if is_list(t.sort()) else None
    if n is None: raise Unsupported("index of " + str(t.sort()))
    mut = canon_fn(inst) == "index_mut"
    if isinstance(idx, Agg):
        lo, hi = range_of(ex, st, idx, n)
        g = simp(z3.And(lo <= hi, hi <= n)); ex.c.oblige("no-panic[slice range]", st, g); st.add(g)
        lo, hi = simp(lo), simp(hi)
        if mut:
            rr = rootref(ex, st, r); return Ref(rr.cell, rr.path + (("s", lo, hi),))
        return ref(st, ex.slice(t, lo, hi))
    i = tm(ex, st, idx)
    if i.sort() != I: raise Unsupported("index")
    g = simp(z3.And(i >= 0, i < n)); ex.c.oblige("no-panic[index]", st, g); st.add(g)
    ety = ty.elem if ty.k == "ref" else None
    if mut:
        rr = rootref(ex, st, r); return Ref(rr.cell, rr.path + (("i", i, ety),))
    v = elem_at(ex, t, i)
    if ety is not None and ex.T.sort(ety) == v.sort(): ex.T.deep_note(v, ety, 2)
    return ref(st, v)
def canon_fn(inst):
    from mir import canon
    return canon(inst.name).split("::")[-1]
@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def m_copyfrom(ex, st, inst, args, ty):
    dst = args[0]; src = tm(ex, st, args[1]); d = tm(ex, st, dst)
    n, m = (blen(d), blen(src)) if d.sort() == Bytes else (llen(d), llen(src))
    g = simp(n == m); ex.c.oblige("no-panic[copy_from_slice length]", st, g); st.add(g)
    rr = rootref(ex, st, dst); ex.store(st, rr, src); return UNIT
@model("[T]::to_vec", "Script::to_owned", "Script::to_bytes", "ScriptBuf::into_bytes", "Script::as_bytes", "ScriptBuf::as_bytes", "Vec::as_slice", "Vec::into_boxed_slice", "str::as_bytes", "String::as_str", "String::as_bytes", "ScriptBuf::as_script", "ScriptBuf::from_bytes", "Script::from_bytes", "[T;N]::as_slice", "str::to_owned", "str::to_string", "Script::to_p2sh_x", "Vec::as_mut_slice", "ScriptBuf::to_bytes", "array::as_slice", "Option::as_deref_x", "Box::new", "Arc::new", "Arc::clone", "Rc::new", "slice::from_ref_x", "Txid::to_raw_hash", "Txid::from_raw_hash", "BlockHash::to_raw_hash", "black_box", "hint::black_box", "ScriptBuf::into_boxed_script", "Arc::unwrap_or_clone", "Box::leak")
def m_same(ex, st, inst, args, ty):
    if ty is not None and ty.k == "ref": return args[0] if isinstance(args[0], Ref) else ref(st, args[0])
    return D(ex, st, args[0])
@model("Box::new_uninit")
def m_newuninit(ex, st, inst, args, ty): return BoxU(newcell(st, Poison("uninit"), "box"))
@model("boxed::box_assume_init_into_vec_unsafe")
def m_boxvec(ex, st, inst, args, ty): return tm(ex, st, st.heap[D(ex, st, args[0]).cell])
@model("[T]::concat")
def m_concat(ex, st, inst, args, ty):
    v = D(ex, st, args[0])
    if isinstance(v, Agg): return cat(*[tm(ex, st, x) for x in v.f])
    raise Unsupported("concat of symbolic list")
@model("array::from_fn")
def m_fromfn(ex, st, inst, args, ty):
    n = ty.d["len"]; bytesy = ex.T.kind(ty) == "bytes"; cur = [(st, [])]
    if n > 64: raise Unsupported("from_fn of a large array")
    for i in range(n):
        cur = [(s2, vs + [v]) for s, vs in cur for s2, v in ex.callv(s, args[0], [z3.IntVal(i)])]
    return [(s, bytes_of([tm(ex, s, v) for v in vs]) if bytesy else Agg(ty, 0, vs)) for s, vs in cur]
def bytes_of(ts):
    """the byte string with these bytes; a run of consecutive bytes of one string is that slice"""
    out = []; i = 0
    def src(t):
        if z3.is_app(t) and t.decl().eq(core.bat_) and as_int(t.arg(1)) is not None: return t.arg(0), as_int(t.arg(1))
        return None
    while i < len(ts):
        p = src(ts[i]); j = i + 1
        if p is None: out.append(be(1, ts[i])); i = j; continue
        while j < len(ts) and src(ts[j]) is not None and src(ts[j])[0].eq(p[0]) and src(ts[j])[1] == p[1] + (j - i): j += 1
        out.append(bslice(p[0], p[1], p[1] + (j - i))); i = j
    return cat(*out)
@model("<Vec as TryInto>::try_into", "<[T] as TryInto>::try_into", "<[T;N] as TryFrom>::try_from", "<[T] as TryInto>::try_into")
def m_arrtry(ex, st, inst, args, ty):
    aty = ty.args()[0]
    if aty.k == "ref": aty = aty.elem
    if aty.k != "array": raise Unsupported("try_into " + inst.name[:80])
    t = tm(ex, st, args[0]); n = blen(t) if t.sort() == Bytes else llen(t); N = aty.d["len"]
    good = (lambda s: ok(ty, ref(s, t))) if ty.args()[0].k == "ref" else (lambda s: ok(ty, t))
    return fork2(ex, st, simp(n == N) if as_int(n) is not None else n == N, good, lambda s: err(ty, mkerr(ex, s, errty(ty)) if ex.T.kind(errty(ty)) != "list" and ex.T.sort(errty(ty)) != t.sort() else t))
# ---------------------------------------------------------------- option/result panics
@model("option::unwrap_failed", "option::expect_failed", "result::unwrap_failed", "panicking::panic_fmt", "panicking::panic", "panicking::unreachable_display", "panicking::assert_failed", "panicking::panic_explicit", "rt::begin_panic", "panicking::panic_display", "panicking::panic_const::panic_const_add_overflow")
def m_panic(ex, st, inst, args, ty): return ex.panic(st, canon_fn(inst))
# ---------------------------------------------------------------- integers
@model("u32::to_be_bytes", "u64::to_be_bytes", "u16::to_be_bytes")
def m_be(ex, st, inst, args, ty): return be(ty.d["len"], tm(ex, st, args[0]))
@model("u32::to_le_bytes", "u64::to_le_bytes", "u16::to_le_bytes")
def m_le(ex, st, inst, args, ty): return le(ty.d["len"], tm(ex, st, args[0]))
def unbe(t):
    """big-endian value of a byte string of constant length; the order of the values is the order of the strings"""
    n = klen(t); g = UF(f"unbe{n}", Bytes, I); r = g(t); f = UF(f"be{n}", I, Bytes); x, y = z3.Consts("ubx uby", Bytes)
    fact(r, f(r) == t); fact(r, z3.And(r >= 0, r < 256 ** n)); blt(t, t)
    fact(r, z3.ForAll([x, y], z3.Implies(z3.And(blen_(x) == n, blen_(y) == n), (g(x) < g(y)) == ble_(x, y)), patterns=[z3.MultiPattern(g(x), g(y))])); return r
@model("u32::from_be_bytes", "u64::from_be_bytes", "u16::from_be_bytes")
def m_fbe(ex, st, inst, args, ty): return ex.T.note(unbe(tm(ex, st, args[0])), ty)
@model("u32::swap_bytes", "u64::swap_bytes", "u16::swap_bytes", "u32::to_be", "u64::to_be", "u16::to_be")
def m_swapb(ex, st, inst, args, ty):
    lo, hi = ex.T.intrange(ty); n = (hi.bit_length() + 7) // 8; return ex.T.note(unbe(le(n, tm(ex, st, args[0]))), ty)
@model("u32::from_le_bytes", "u64::from_le_bytes", "u16::from_le_bytes")
def m_fle(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); n = klen(t); g = UF(f"unle{n}", Bytes, I); r = g(t); f = UF(f"le{n}", I, Bytes)
    fact(r, f(r) == t); return ex.T.note(r, ty)
@model("u32::checked_add", "usize::checked_add", "u64::checked_add")
def m_cadd(ex, st, inst, args, ty):
    v = simp(tm(ex, st, args[0]) + tm(ex, st, args[1])); lo, hi = ex.T.intrange(ty.args()[0]); return fork2(ex, st, v <= hi, some(ty, v), none(ty))
@model("u32::saturating_sub", "usize::saturating_sub", "u64::saturating_sub")
def m_ssub(ex, st, inst, args, ty):
    a, b = tm(ex, st, args[0]), tm(ex, st, args[1]); return z3.If(a >= b, a - b, z3.IntVal(0))
@model("<u8 as BitXor>::bitxor")
def m_bxor(ex, st, inst, args, ty):
    X, Y = tm(ex, st, args[0]), tm(ex, st, args[1]); return bxor8(X, Y)
def bxor8(X, Y):
    f = UF("BitXor8", I, I, I); a, b = sorted([X, Y], key=lambda t: t.get_id()); r = f(a, b); fact(r, z3.And(r >= 0, r <= 255)); return r
# ---------------------------------------------------------------- maps and sets
def key_t(ex, st, a): return tm(ex, st, a)
@model("BTreeMap::get", "HashMap::get")
def m_mget(ex, st, inst, args, ty):
    m = tm(ex, st, args[0]); k = tm(ex, st, args[1])
    return fork2(ex, st, mhas(m, k), lambda s: some(ty, ref(s, ex.T.deep_note(mget(m, k), ex.T.strip(ty.args()[0]), 2))), none(ty))
@model("BTreeMap::get_mut", "HashMap::get_mut")
def m_mgetmut(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); m = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1]); vt = ty.args()[0].elem
    return fork2(ex, st, mhas(m, k), some(ty, Ref(rr.cell, rr.path + (("k", k, vt),))), none(ty))
@model("BTreeMap::contains_key", "HashMap::contains_key")
def m_mhas(ex, st, inst, args, ty): return mhas(tm(ex, st, args[0]), tm(ex, st, args[1]))
@model("BTreeMap::insert", "HashMap::insert")
def m_minsert(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); m = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1]); v = tm(ex, st, args[2])
    ex.store(st, rr, mput(m, k, v))
    T = ex.T; return simp(z3.If(mhas(m, k), T.mk(ty, 1, mget(m, k)), T.mk(ty, 0)))
@model("BTreeMap::remove", "HashMap::remove")
def m_mremove(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); m = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1]); ex.store(st, rr, mdel(m, k))
    T = ex.T; return simp(z3.If(mhas(m, k), T.mk(ty, 1, mget(m, k)), T.mk(ty, 0)))
@model("BTreeMap::is_empty", "HashMap::is_empty", "BTreeSet::is_empty", "HashSet::is_empty")
def m_mempty(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); d = mdom(t) if is_map(t.sort()) else t
    return domempty(d)
def domempty(d):
    r = d == z3.K(d.sort().domain(), z3.BoolVal(False))
    n, at = enum_map(d); k = z3.Const("demp", d.sort().domain())
    fact(r, (n == 0) == r); return r
@model("BTreeMap::len", "HashMap::len", "BTreeSet::len", "HashSet::len")
def m_mlen(ex, st, inst, args, ty): return m_mlen_t(tm(ex, st, args[0]))
def m_mlen_t(t):
    d = mdom(t) if is_map(t.sort()) else t
    n, at = enum_map(d); domempty(d); fact(n, (n == 0) == (d == z3.K(d.sort().domain(), z3.BoolVal(False)))); fact(n, n < 2**63); return n
def skey(ex, st, m, a):
    """the key an ordered set of a keyed type compares an element by"""
    x = tm(ex, st, a); ety = next(t for t in ex.prog.types.values() if t.k == "adt" and adt_key(t) in KEYED and ex.T.sort(t) == x.sort()); i = [n for n, _ in ex.T.vfields(ety, 0)].index(KEYED[adt_key(ety)]); return ex.T.acc(ety, 0, i, x)
@model("BTreeSet::insert", "HashSet::insert")
def m_sinsert(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); s = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1])
    if is_map(s.sort()):
        h = skey(ex, st, s, args[1]); ex.store(st, rr, z3.If(mhas(s, h), s, mput(s, h, k))); return z3.Not(mhas(s, h))
    ex.store(st, rr, z3.Store(s, k, z3.BoolVal(True))); return z3.Not(zsel(s, k))
@model("BTreeSet::pop_first", "BTreeSet::pop_last", "BTreeMap::pop_first", "BTreeMap::pop_last")
def m_popend(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); m = tm(ex, st, ex.load(st, rr)); mp = is_map(m.sort()); d = mdom(m) if mp else m; ks = d.sort().domain(); n, at = enum_map(d); domempty(d); out = []
    for q, w in ex.branch(st, [(n > 0, 1), (n == 0, 0)]):
        if not w: out.append((q, none(ty))); continue
        k = fresh("popk", ks); j = z3.Const("pop_j", ks); q.add(z3.Select(d, k)); first = "first" in canon_fn(inst)
        q.add(z3.ForAll([j], z3.Implies(z3.Select(d, j), z3.Not(ltv(j, k) if first else ltv(k, j))), patterns=[z3.Select(d, j)]))
        if not mp: ex.store(q, rr, z3.Store(d, k, z3.BoolVal(False))); v = k
        else:
            ex.store(q, rr, mdel(m, k)); v = mget(m, k)
            if "BTreeMap::" in inst.name: v = Agg(PairTy, 0, [k, v])
        out.append((q, some(ty, v)))
    return out
@model("BTreeSet::take")
def m_stake(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); s = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1])
    if not is_map(s.sort()): return [(q, some(ty, k) if w else none(ty)) for q, w in _settake(ex, st, rr, s, k)]
    h = skey(ex, st, s, args[1]); out = []
    for q, w in ex.branch(st, [(mhas(s, h), 1), (z3.Not(mhas(s, h)), 0)]):
        if w: ex.store(q, rr, mdel(s, h)); out.append((q, some(ty, mget(s, h))))
        else: out.append((q, none(ty)))
    return out
def _settake(ex, st, rr, s, k):
    for q, w in ex.branch(st, [(zsel(s, k), 1), (z3.Not(zsel(s, k)), 0)]):
        if w: ex.store(q, rr, z3.Store(s, k, z3.BoolVal(False)))
        yield q, w
@model("BTreeSet::replace")
def m_sreplace(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); s = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1])
    if not is_map(s.sort()): ex.store(st, rr, z3.Store(s, k, z3.BoolVal(True))); return simp(z3.If(zsel(s, k), ex.T.mk(ty, 1, k), ex.T.mk(ty, 0)))
    h = skey(ex, st, s, args[1]); ex.store(st, rr, mput(s, h, k)); return simp(z3.If(mhas(s, h), ex.T.mk(ty, 1, mget(s, h)), ex.T.mk(ty, 0)))
@model("BTreeSet::remove", "HashSet::remove")
def m_sremove(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); s = tm(ex, st, ex.load(st, rr))
    if is_map(s.sort()): h = skey(ex, st, s, args[1]); ex.store(st, rr, mdel(s, h)); return mhas(s, h)
    k = tm(ex, st, args[1]); ex.store(st, rr, z3.Store(s, k, z3.BoolVal(False))); return zsel(s, k)
@model("BTreeSet::contains", "HashSet::contains")
def m_shas(ex, st, inst, args, ty):
    s = tm(ex, st, args[0]); return mhas(s, skey(ex, st, s, args[1])) if is_map(s.sort()) else zsel(s, tm(ex, st, args[1]))
class EntryV:
    def __init__(self, rr, k, ty): self.rr = rr; self.k = k; self.ty = ty
@model("BTreeMap::entry", "HashMap::entry")
def m_entry(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); k = tm(ex, st, args[1]); m = tm(ex, st, ex.load(st, rr)); e = EntryV(rr, k, ty)
    names = [v.get("name") for v in ty.d["variants"]]; oc, va = names.index("Occupied"), names.index("Vacant")
    return fork2(ex, st, mhas(m, k), Agg(ty, oc, [e]), Agg(ty, va, [e]))
def entry_of(ex, st, v):
    """(occupied?, entry) of an Entry, a VacantEntry or an OccupiedEntry"""
    d = D(ex, st, v)
    if isinstance(d, Agg): return d.ty.d["variants"][d.v]["name"] == "Occupied", d.f[0] if isinstance(d.f[0], EntryV) else D(ex, st, d.f[0])
    if isinstance(d, EntryV): return None, d
    raise Unsupported("map entry " + type(d).__name__)
def slot(e, vt): return Ref(e.rr.cell, e.rr.path + (("k", e.k, vt),))
def entry_put(ex, st, e, v): ex.store(st, e.rr, mput(tm(ex, st, ex.load(st, e.rr)), e.k, tm(ex, st, v)))
def entry_or(ex, st, e, vt, mk):
    occ, e = entry_of(ex, st, e); out = []
    if occ: return [(st, slot(e, vt))]
    for s2, v in mk(st): entry_put(ex, s2, e, v); out.append((s2, slot(e, vt)))
    return out
@model("Entry::or_default")
def m_ordef(ex, st, inst, args, ty): return entry_or(ex, st, args[0], ty.elem, lambda s: [(s, empty_of(ex, ty.elem))])
@model("Entry::or_insert")
def m_orins(ex, st, inst, args, ty): return entry_or(ex, st, args[0], ty.elem, lambda s: [(s, args[1])])
@model("Entry::or_insert_with")
def m_orinsw(ex, st, inst, args, ty): return entry_or(ex, st, args[0], ty.elem, lambda s: ex.callv(s, args[1], []))
@model("Entry::and_modify")
def m_andmod(ex, st, inst, args, ty):
    occ, e = entry_of(ex, st, args[0]); vt = e.ty.args()[1] if len(e.ty.args()) > 1 else None
    if not occ: return args[0]
    return [(s2, args[0]) for s2, _ in ex.callv(st, args[1], [slot(e, vt)])]
@model("Entry::key", "VacantEntry::key", "OccupiedEntry::key")
def m_ekey(ex, st, inst, args, ty): return ref(st, entry_of(ex, st, args[0])[1].k)
@model("VacantEntry::insert")
def m_vins(ex, st, inst, args, ty):
    e = entry_of(ex, st, args[0])[1]; entry_put(ex, st, e, args[1]); return slot(e, ty.elem)
@model("OccupiedEntry::get", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut")
def m_oget(ex, st, inst, args, ty): return slot(entry_of(ex, st, args[0])[1], ty.elem)
@model("OccupiedEntry::insert")
def m_oins(ex, st, inst, args, ty):
    e = entry_of(ex, st, args[0])[1]; o = mget(tm(ex, st, ex.load(st, e.rr)), e.k); entry_put(ex, st, e, args[1]); return o
@model("OccupiedEntry::remove")
def m_orem(ex, st, inst, args, ty):
    e = entry_of(ex, st, args[0])[1]; m = tm(ex, st, ex.load(st, e.rr)); ex.store(st, e.rr, mdel(m, e.k)); return mget(m, e.k)
# ---------------------------------------------------------------- iterators: sources
def kv_ty(ex, ety_name): return None
def find_tuple(ex, a, b, refs=(True, True)):
    """the tuple type (&A, &B) if the dump has it, else a structural stand-in"""
    return TupTy(ex, [RefTy(a) if refs[0] else a, RefTy(b) if refs[1] else b])
class RefTy:
    k = "ref"
    def __init__(self, e): self.elem = e; self.name = "&" + e.name; self.id = -7 * e.id - 3; self.d = {"mut": False}
    def args(self): return []
class TupTy:
    k = "tuple"
    def __init__(self, ex, ts): self.ts = ts; self.d = {"elems": [t.id for t in ts]}; self.name = "(" + ", ".join(t.name for t in ts) + ")"; self.id = -1 - abs(hash(self.name)) % (1 << 40)
    def fields(self, v=0): return [(str(i), t) for i, t in enumerate(self.ts)]
    def args(self): return self.ts
@model("[T]::iter", "Vec::iter", "VecDeque::iter", "Option::iter_x")
def m_iter(ex, st, inst, args, ty):
    v = D(ex, st, args[0])
    if isinstance(v, Agg) and v.ty.k == "array": return It(AggSrc(v.f, True))
    t = tm(ex, st, v); ety = ex.T.elem(tyof_arg(ex, inst, v)) if False else None
    ety = slice_elem(ex, inst)
    return It(ListSrc(t, ety))
def slice_elem(ex, inst):
    for a in inst.args():
        return a
    return None
@model("[T]::iter_mut", "Vec::iter_mut")
def m_itermut(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); t = tm(ex, st, ex.load(st, rr)); return It(ListSrc(t, slice_elem(ex, inst), rr, True))
def map_src(ex, st, t, kty, vty, what, byref, ref_=None):
    n, at = enum_map(mdom(t) if is_map(t.sort()) else t)
    def el(ex, s, i):
        k = at(i); s.add(z3.Implies(z3.And(0 <= i, i < n), zsel(mdom(t) if is_map(t.sort()) else t, k))); 
        if kty is not None: ex.T.deep_note(k, kty, 2)
        kv = ref(s, k) if byref else k
        if what == "k": return kv
        v = mget(t, k)
        if vty is not None: ex.T.deep_note(v, vty, 2)
        if what == "mut": vv = Ref(ref_.cell, ref_.path + (("k", k, vty),))
        else: vv = ref(s, v) if byref else v
        if what == "v": return vv
        return Agg(find_tuple(ex, kty, vty, (byref, byref)), 0, [kv, vv])
    return FnSrc(n, el, ["map", what, str(byref), t])
def mapargs(ex, inst):
    a = inst.args(); return a[0], a[1] if len(a) > 1 else None
def lex_le(ex, kty, x, y):
    """x <= y in the derived order of a key type"""
    if kty.k == "adt" and adt_key(kty) == ("bitcoin", "OutPoint"):
        f = lambda t, n: ap(t.sort().accessor(0, [m for m, _ in ex.T.vfields(kty, 0)].index(n)), t)
        a, b = f(x, "txid"), f(y, "txid"); return z3.Or(blt(a, b), z3.And(a == b, f(x, "vout") <= f(y, "vout")))
    return z3.Or(ltv(x, y), x == y)
_ranges = {}
def submap(ex, m, lo, hi, kty, excl=False):
    """entries of a map whose keys lie between two bounds (either may be absent)"""
    key = (m.get_id(), lo is not None and lo.get_id(), hi is not None and hi.get_id(), excl)
    if key not in _ranges:
        s = M(m.sort()); d = fresh("range", mdom(m).sort()); _ranges[key] = (d, m, lo, hi); k = z3.Const("rg_k", s.ks); c = [mhas(m, k)]
        ex.T.deep_note(k, kty, 2)
        if lo is not None: c.append(lex_le(ex, kty, lo, k))
        if hi is not None: c.append(z3.Not(lex_le(ex, kty, hi, k)) if excl else lex_le(ex, kty, k, hi))
        fact(d, z3.ForAll([k], z3.Select(d, k) == z3.And(*c), patterns=[z3.Select(d, k)])); fact(d, z3.ForAll([k], z3.Select(d, k) == z3.And(*c), patterns=[z3.Select(mdom(m), k)]) if good_map(m) else z3.BoolVal(True))
    d = _ranges[key][0]; return M(m.sort()).mkM(d, mval(m))
def good_map(m): d = mdom(m); return not (z3.is_store(d) or z3.is_K(d) or has_ite(d))
@model("RangeInclusive::new")
def m_rangeinc(ex, st, inst, args, ty): return Agg(ty, 0, [args[0], args[1], z3.BoolVal(False)])
@model("BTreeMap::range")
def m_range(ex, st, inst, args, ty):
    k, v = mapargs(ex, inst); r = D(ex, st, args[1]) if isinstance(args[1], Ref) else args[1]; m = tm(ex, st, args[0])
    if not isinstance(r, Agg): raise Unsupported("range bounds")
    n = adt_key(r.ty)[1]; f = [tm(ex, st, x) for x in r.f[:2]]
    lo, hi = {"RangeInclusive": lambda: f, "Range": lambda: f, "RangeFrom": lambda: (f[0], None), "RangeTo": lambda: (None, f[0]), "RangeToInclusive": lambda: (None, f[0]), "RangeFull": lambda: (None, None)}[n]()
    return It(map_src(ex, st, submap(ex, m, lo, hi, k, n in ("Range", "RangeTo")), k, v, "kv", True))
@model("BTreeMap::iter", "HashMap::iter")
def m_miter(ex, st, inst, args, ty): k, v = mapargs(ex, inst); return It(map_src(ex, st, tm(ex, st, args[0]), k, v, "kv", True))
@model("BTreeMap::keys", "HashMap::keys")
def m_mkeys(ex, st, inst, args, ty): k, v = mapargs(ex, inst); return It(map_src(ex, st, tm(ex, st, args[0]), k, v, "k", True))
@model("BTreeMap::values", "HashMap::values")
def m_mvals(ex, st, inst, args, ty): k, v = mapargs(ex, inst); return It(map_src(ex, st, tm(ex, st, args[0]), k, v, "v", True))
@model("BTreeMap::iter_mut", "HashMap::iter_mut")
def m_mitermut(ex, st, inst, args, ty):
    k, v = mapargs(ex, inst); rr = rootref(ex, st, args[0]); return It(map_src(ex, st, tm(ex, st, ex.load(st, rr)), k, v, "mut", True, rr))
@model("BTreeMap::into_keys", "HashMap::into_keys")
def m_mintok(ex, st, inst, args, ty): k, v = mapargs(ex, inst); return It(map_src(ex, st, tm(ex, st, args[0]), k, v, "k", False))
@model("BTreeMap::into_values", "HashMap::into_values")
def m_mintov(ex, st, inst, args, ty): k, v = mapargs(ex, inst); return It(map_src(ex, st, tm(ex, st, args[0]), k, v, "v", False))
@model("BTreeSet::iter", "HashSet::iter")
def m_siter(ex, st, inst, args, ty):
    t = tm(ex, st, args[0])
    if is_map(t.sort()): return It(map_src(ex, st, t, None, inst.args()[0], "v", True))
    return It(map_src(ex, st, tm(ex, st, args[0]), inst.args()[0], None, "k", True))
def adt_key_of(t): return adt_key(t) if t.k == "adt" else None
def rangefrom(ex, st, d):
    ety = d.ty.args()[0]; return It(OpenRangeSrc(tm(ex, st, d.f[0]), z3.IntVal(ex.T.intrange(ety)[1] + 1)))
def m_into_iter(ex, st, inst, args, ty):
    v = args[0]; byref = isinstance(v, Ref); d = D(ex, st, v)
    if isinstance(d, It): return v if byref else d
    if isinstance(d, Agg) and d.ty.k == "array": return It(AggSrc(d.f, byref))
    if isinstance(d, Agg) and d.ty.k == "adt" and adt_key(d.ty)[1] in ("Range",):
        return It(RangeSrc(tm(ex, st, d.f[0]), tm(ex, st, d.f[1])))
    if isinstance(d, Agg) and d.ty.k == "adt" and adt_key(d.ty)[1] == "RangeFrom": return rangefrom(ex, st, d)
    if isinstance(d, Agg) and adt_key(d.ty) == ("core", "Option"):
        return It(AggSrc(d.f, byref))
    t = tm(ex, st, d); a = inst.args(); self_ = a[0] if a else None
    if t.sort() == Bytes or is_list(t.sort()):
        ety = None
        if self_ is not None:
            sty = ex.T.strip(self_)
            if ex.T.kind(sty) in ("list", "bytes") and sty.k in ("adt", "slice", "array"):
                try: ety = ex.T.elem(sty)
                except Exception: ety = None
            else: ety = sty
        if ety is not None and ex.T.sort(ety) != (I if t.sort() == Bytes else L(t.sort()).es): ety = None
        mut = byref and "mut" in inst.name.split(" as ")[0][:8]
        if mut:
            rr = rootref(ex, st, v); return It(ListSrc(t, ety, rr, True))
        return It(ListSrc(t, ety, by_ref=byref))
    if is_map(t.sort()) and a and (ex.T.kind(ex.T.strip(a[0])) == "kset" or adt_key_of(ex.T.strip(a[0])) in KEYED):
        s0 = ex.T.strip(a[0]); return It(map_src(ex, st, t, None, s0.args()[0] if ex.T.kind(s0) == "kset" else s0, "v", byref))
    if is_map(t.sort()):
        tys = [ex.T.strip(x) for x in a]; kt = vt = None
        if len(tys) >= 1 and ex.T.kind(tys[0]) == "map": kt, vt = tys[0].args()[0], tys[0].args()[1]
        elif len(tys) >= 2: kt, vt = tys[0], tys[1]
        if kt is None: raise Unsupported("map iterator type")
        if byref and "&mut" in inst.name.split(" as ")[0][:8]:
            rr = rootref(ex, st, v); return It(map_src(ex, st, t, kt, vt, "mut", True, rr))
        return It(map_src(ex, st, t, kt, vt, "kv", byref))
    if isinstance(t.sort(), z3.ArraySortRef) and t.sort().range() == B:
        s0 = ex.T.strip(a[0]); kt = s0.args()[0] if ex.T.kind(s0) == "set" else s0
        return It(map_src(ex, st, t, kt, None, "k", byref))
    if isinstance(t, z3.ExprRef) and a and ex.T.strip(a[0]).k == "adt" and adt_key(ex.T.strip(a[0])) == ("core", "Option"):
        oty = ex.T.strip(a[0]); out = []
        for s, x in optsplit(ex, st, t, oty): out.append((s, It(AggSrc([] if x is None else [x], byref))))
        return out
    raise Unsupported("into_iter of " + str(t.sort()))
@model("[T]::windows")
def m_windows(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); k = tm(ex, st, args[1]); n = blen(t) if t.sort() == Bytes else llen(t)
    return It(FnSrc(z3.If(n - k + 1 >= 0, n - k + 1, z3.IntVal(0)), lambda ex, s, i: ref(s, ex.slice(t, i, simp(i + k))), ["win", t, k]))
@model("iter::once", "sources::once")
def m_once(ex, st, inst, args, ty): return It(AggSrc([args[0]], False))
@model("iter::empty", "sources::empty")
def m_iempty(ex, st, inst, args, ty): return It(AggSrc([], False))
@model("Option::into_iter_x", "Option::iter")
def m_optiter(ex, st, inst, args, ty): raise Unsupported("option iter")
# ---------------------------------------------------------------- iterators: adapters and consumers
ITER = {}
def itm(*names):
    def d(f):
        for n in names: ITER[("iter", n)] = f
        return f
    return d
def getit(ex, st, v):
    d = D(ex, st, v)
    if isinstance(d, Agg) and d.ty.k == "adt" and adt_key(d.ty)[1] == "Range": d = It(RangeSrc(tm(ex, st, d.f[0]), tm(ex, st, d.f[1])))
    if isinstance(d, Agg) and d.ty.k == "adt" and adt_key(d.ty)[1] == "RangeFrom": d = rangefrom(ex, st, d)
    if not isinstance(d, It): raise Unsupported("iterator " + type(d).__name__ + " " + str(getattr(d, "name", "")))
    return d
def it_item(ty):
    return None
@itm("next")
def i_next(ex, st, inst, args, ty):
    d = D(ex, st, args[0])
    if isinstance(d, Agg):   # Range used directly as iterator
        it = getit(ex, st, d); set_it_agg(ex, st, args[0], it)
    return [(s, none(ty) if v is None else some(ty, v)) for s, v in next_(ex, st, args[0])]
def set_it_agg(ex, st, r, it):
    ex.store(st, rootref(ex, st, r), it)
@itm("map")
def i_map(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("map", args[1]),))
@itm("filter")
def i_filter(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("filter", args[1]),))
@itm("inspect")
def i_inspect(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("inspect", args[1]),))
@itm("take_while")
def i_tw(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("take_while", args[1]),))
def closure_ret(ex, st, f):
    f = D(ex, st, f)
    if isinstance(f, FnV): return ex.retty(ex.prog.insts[f.ty.d["inst"]])
    i = next(f.ty.d["insts"][k] for k in ("Fn", "FnMut", "FnOnce") if k in f.ty.d["insts"])
    return ex.retty(ex.prog.insts[i])
@itm("filter_map")
def i_fm(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("filter_map", args[1], closure_ret(ex, st, args[1])),))
@itm("map_while")
def i_mw(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("map_while", args[1], closure_ret(ex, st, args[1])),))
@itm("copied", "cloned")
def i_copied(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("copied",),))
@itm("by_ref", "fuse", "peekable_x")
def i_byref(ex, st, inst, args, ty): return args[0]
@itm("enumerate")
def i_enum(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if not it.mapped(): raise Unsupported("enumerate after filter")
    return It(FnSrc(simp(it.end - it.pos), lambda ex, s, i: [(s2, Agg(PairTy, 0, [i, v])) for s2, v in it.elem(ex, s, simp(it.pos + i))], ["enum", it]))
class _PairTy:
    k = "tuple"; d = {"elems": [0, 0]}; name = "(usize,?)"; id = -999
    def fields(self, v=0): return [("0", AnyTy), ("1", AnyTy)]
class _AnyTy:
    k = "any"; d = {}; name = "?"; id = -998
AnyTy = _AnyTy(); PairTy = _PairTy()
@itm("zip")
def i_zip(ex, st, inst, args, ty):
    a = getit(ex, st, args[0]); b = args[1]; d = D(ex, st, b)
    if not isinstance(d, It): 
        r = m_into_iter(ex, st, FakeInst(inst, 1), [b], None); 
        if isinstance(r, list): raise Unsupported("zip")
        d = r
    if not (a.mapped() and d.mapped()): raise Unsupported("zip of filtering iterators")
    for x, y in ((a, d), (d, a)):
        if getattr(x.src, "open", False) and not getattr(y.src, "open", False):
            # the counter's values suffice for the other iterator
            ex.c.oblige("no-overflow[open range]", st, simp(z3.Or(y.end - y.pos <= x.end - x.pos, y.end < y.pos))); st.add(simp(y.end - y.pos <= x.end - x.pos))
    return It(ZipSrc(a, d, PairTy))
class FakeInst:
    def __init__(self, inst, n): self.i = inst; self.n = n; a = inst.args(); self.name = a[n].name if len(a) > n else ""; self._a = [a[n]] if len(a) > n else []
    def args(self): return self._a
@itm("chain")
def i_chain(ex, st, inst, args, ty):
    a = getit(ex, st, args[0]); d = D(ex, st, args[1])
    if not isinstance(d, It):
        r = m_into_iter(ex, st, FakeInst(inst, 1), [args[1]], None)
        rs = r if isinstance(r, list) else [(st, r)]
    else: rs = [(st, d)]
    if not a.mapped(): raise Unsupported("chain of filtering iterator")
    return [(s, It(ChainSrc(a, x))) for s, x in rs]
@itm("rev")
def i_rev(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    base = it.with_(stages=()); return It(RevSrc(base), stages=it.stages)
@itm("skip")
def i_skip(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); n = tm(ex, st, args[1])
    if not it.mapped(): raise Unsupported("skip after filter")
    p = simp(z3.If(it.pos + n <= it.end, it.pos + n, it.end)) ; return it.with_(pos=p)
@itm("take")
def i_take(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); n = tm(ex, st, args[1])
    if not it.mapped(): raise Unsupported("take after filter")
    return fork2(ex, st, simp(it.pos + n <= it.end), it.with_(end=simp(it.pos + n)), it)
@itm("len")
def i_len(ex, st, inst, args, ty): it = getit(ex, st, args[0]); return simp(it.end - it.pos)
@itm("count")
def i_count(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if it.mapped(): return simp(z3.If(it.end >= it.pos, it.end - it.pos, z3.IntVal(0)))
    acc = newcell(st, z3.IntVal(0), "count")
    def body(s, v): s.heap[acc] = simp(s.heap[acc] + 1); return [("next", s)]
    return [(s, s.heap[acc]) for s, _ in consume(ex, st, it, body, "count")]
@itm("nth")
def i_nth(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); n = tm(ex, st, args[1])
    if not it.mapped(): raise Unsupported("nth")
    p = simp(z3.If(it.pos + n <= it.end, it.pos + n, it.end)); set_it(ex, st, args[0], it.with_(pos=p))
    return [(s, none(ty) if v is None else some(ty, v)) for s, v in next_(ex, st, args[0])]
@itm("last")
def i_last(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if not it.mapped(): raise Unsupported("last")
    out = []
    for s, w in ex.branch(st, [(simp(it.pos < it.end), 1), (simp(it.pos >= it.end), 0)]):
        if w == 0: out.append((s, none(ty)))
        else: out += [(s2, some(ty, v)) for s2, v in it.elem(ex, s, simp(it.end - 1))]
    return out
@itm("any")
def i_any(ex, st, inst, args, ty):
    def body(s, v): return [("done", s2, z3.BoolVal(True)) if b else ("next", s2) for s1, w in ex.callv(s, args[1], [v]) for s2, b in boolsplit(ex, s1, w)]
    return [(s, z3.BoolVal(False) if p is None else p) for s, p in consume(ex, st, getit(ex, st, args[0]), body, "any")]
@itm("all")
def i_all(ex, st, inst, args, ty):
    def body(s, v): return [("next", s2) if b else ("done", s2, z3.BoolVal(False)) for s1, w in ex.callv(s, args[1], [v]) for s2, b in boolsplit(ex, s1, w)]
    return [(s, z3.BoolVal(True) if p is None else p) for s, p in consume(ex, st, getit(ex, st, args[0]), body, "all")]
@itm("find")
def i_find(ex, st, inst, args, ty):
    def body(s, v):
        c = newcell(s, v, "find"); return [("done", s2, v) if b else ("next", s2) for s1, w in ex.callv(s, args[1], [Ref(c)]) for s2, b in boolsplit(ex, s1, w)]
    return [(s, none(ty) if p is None else some(ty, p)) for s, p in consume(ex, st, getit(ex, st, args[0]), body, "find")]
@itm("find_map")
def i_findmap(ex, st, inst, args, ty):
    def body(s, v): return [("next", s2) if x is None else ("done", s2, x) for s1, w in ex.callv(s, args[1], [v]) for s2, x in optsplit(ex, s1, w, ty)]
    return [(s, none(ty) if p is None else some(ty, p)) for s, p in consume(ex, st, getit(ex, st, args[0]), body, "find_map")]
@itm("position")
def i_position(ex, st, inst, args, ty):
    n = newcell(st, z3.IntVal(0), "posn")
    def body(s, v):
        o = []
        for s1, w in ex.callv(s, args[1], [v]):
            for s2, b in boolsplit(ex, s1, w):
                if b: o.append(("done", s2, s2.heap[n]))
                else: s2.heap[n] = simp(s2.heap[n] + 1); o.append(("next", s2))
        return o
    return [(s, none(ty) if p is None else some(ty, p)) for s, p in consume(ex, st, getit(ex, st, args[0]), body, "position")]
@itm("for_each")
def i_foreach(ex, st, inst, args, ty):
    def body(s, v): return [("next", s2) for s2, _ in ex.callv(s, args[1], [v])]
    return [(s, UNIT) for s, _ in consume(ex, st, getit(ex, st, args[0]), body, "for_each")]
@itm("fold")
def i_fold(ex, st, inst, args, ty):
    acc = newcell(st, args[1], "fold")
    def body(s, v):
        o = []
        for s2, r in ex.callv(s, args[2], [s.heap[acc], v]): s2.heap[acc] = r; o.append(("next", s2))
        return o
    return [(s, s.heap[acc]) for s, _ in consume(ex, st, getit(ex, st, args[0]), body, "fold")]
@itm("try_fold", "try_for_each")
def i_tryfold(ex, st, inst, args, ty):
    fold = canon_fn(inst) == "try_fold"; f = args[2] if fold else args[1]
    acc = newcell(st, args[1] if fold else UNIT, "tfold"); rty = ty
    isopt = adt_key(rty)[1] == "Option"
    def body(s, v):
        o = []
        for s1, r in ex.callv(s, f, ([s.heap[acc], v] if fold else [v])):
            for s2, good, p in trysplit(ex, s1, r, rty):
                if good: s2.heap[acc] = p; o.append(("next", s2))
                else: o.append(("done", s2, p))
        return o
    return [(s, (some(ty, s.heap[acc]) if isopt else ok(ty, s.heap[acc])) if p is None else p) for s, p in consume(ex, st, getit(ex, st, args[0]), body, "try_fold")]
def trysplit(ex, st, v, ty):
    """[(state, ok?, payload-or-residual value)]"""
    v = D(ex, st, v) if isinstance(v, Ref) else v; isopt = adt_key(ty)[1] == "Option"; gv = 1 if isopt else 0
    if isinstance(v, Agg): return [(st, v.v == gv, v.f[0] if v.v == gv else v)]
    out = []
    for s, w in ex.branch(st, [(ex.T.is_v(ty, gv, v), 1), (ex.T.is_v(ty, 1 - gv, v), 0)]):
        if w: out.append((s, True, ex.T.note(ex.T.acc(ty, gv, 0, v), ty.fields(gv)[0][1])))
        else: out.append((s, False, v))
    return out
def collection_push(ex, st, cell, cty, v):
    T = ex.T; k = T.kind(cty); cur = st.heap[cell]
    if k == "list":
        st.heap[cell] = lpush(tm(ex, st, cur), tm(ex, st, v))
    elif k == "bytes":
        x = D(ex, st, v); x = tm(ex, st, x); st.heap[cell] = cat(tm(ex, st, cur), be(1, x) if x.sort() == I else x)
    elif k == "map":
        v = D(ex, st, v); m = tm(ex, st, cur)
        if isinstance(v, Agg): kk, vv = tm(ex, st, v.f[0]), tm(ex, st, v.f[1])
        else: s = v.sort(); kk, vv = ap(s.accessor(0, 0), v), ap(s.accessor(0, 1), v)
        st.heap[cell] = mput(m, kk, vv)
    elif k == "set": st.heap[cell] = z3.Store(tm(ex, st, cur), tm(ex, st, v), z3.BoolVal(True))
    else: raise Unsupported("collect into " + cty.name[:80])
def summarize(ex, st, it, cty):
    """pointwise summary of a map-only iterator: term of the element at symbolic position j (None if not pure)"""
    j = fresh("pt", I); s0 = st.fork(); s0.add(z3.And(it.pos <= j, j < it.end)); n0 = len(s0.pc); before = dict(s0.heap)
    c = ex.c; saved = len(c.obls)
    outs = it.elem(ex, s0, j); val = None
    for s, v in reversed(outs):
        for cell, x in before.items():
            if cell in s.heap and s.heap[cell] is not x and not same(s.heap[cell], x): return None
        t = tm(ex, s, v); cond = z3.And(*s.pc[n0:]) if len(s.pc) > n0 else z3.BoolVal(True)
        val = t if val is None else z3.If(cond, t, val)
    return (j, val) if val is not None else None
def i_collect_into(ex, st, it, cty, wrap):
    """collect iterator `it` into collection type cty; items may be unwrapped by `wrap`"""
    T = ex.T
    conc = it.concrete()
    if wrap is None and T.kind(cty) == "bytes" and isinstance(it.src, ListSrc) and it.src.t.sort() == Bytes and not [s for s in it.stages if s[0] not in ("copied", "cloned")]:
        return [(st, bslice(it.src.t, it.pos, it.end))]
    if wrap is None and it.mapped() and T.kind(cty) == "list" and not conc:
        if isinstance(it.src, ListSrc) and not [s for s in it.stages if s[0] not in ("copied", "cloned")] and as_int(it.pos) == 0 and it.end.eq(it.src.n):
            return [(st, it.src.t)]
        sm = summarize(ex, st, it, cty)
        if sm is not None:
            j, val = sm; es = T.sort(T.elem(cty))
            if val.sort() == es:
                # the list value is a function of (pos,end) and the free symbols of val: name it by its comprehension
                r = comp_list(j, val, it.pos, it.end, es)
                return [(st, r)]
    if wrap is None and T.kind(cty) in ("map", "set") and it.mapped() and map_enum(it) is not None:
        r = map_comp(ex, st, it, cty)
        if r is not None: return [(st, r)]
    acc = newcell(st, empty_of(ex, cty), "collect")
    def body(s, v):
        if wrap is None:
            collection_push(ex, s, acc, cty, v); return [("next", s)]
        o = []
        for s2, good, p in trysplit(ex, s, v, wrap):
            if good: collection_push(ex, s2, acc, cty, p); o.append(("next", s2))
            else: o.append(("done", s2, ("bad", p)))
        return o
    return [(s, s.heap[acc] if p is None else p) for s, p in consume(ex, st, it, body, "collect")]
def map_enum(it):
    """domain of the map or set a full enumeration runs over"""
    src = it.src
    if isinstance(src, FnSrc) and src.key[0] == "map" and src.key[1] in ("kv", "k", "v") and as_int(it.pos) == 0 and it.end.eq(src.n):
        t = src.key[3]; return mdom(t) if is_map(t.sort()) else t
    return None
def map_comp(ex, st, it, cty):
    """collection of a mapped map: key-preserving map, or set of images; None if not of that form"""
    sm = summarize(ex, st, it, cty)
    if sm is None: return None
    j, val = sm; dom = map_enum(it); n, at = enum_map(dom); ks = dom.sort().domain(); d = at(j).arg(0); k = z3.Const("mc_k", ks); S = ex.T.sort(cty)
    val = z3.substitute(val, (at(j), k))
    if any(x.eq(j) for x in consts_of(val)): return None
    if is_map(S):
        q = val.sort(); kk, vv = ap(q.accessor(0, 0), val), ap(q.accessor(0, 1), val)
        if not kk.eq(k) or vv.sort() != M(S).vs: return None
        key = ("m", vv.get_id(), d.get_id())
        if key not in _comp:
            r = fresh("mcomp", S); _comp[key] = (r, vv, d)
            fact(r, M(S).mdom(r) == d); fact(r, z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.Select(M(S).mval(r), k) == vv), patterns=[z3.Select(M(S).mval(r), k)]))
        return _comp[key][0]
    if val.sort() != S.domain(): return None
    key = ("s", val.get_id(), d.get_id())
    if key not in _comp:
        r = fresh("scomp", S); _comp[key] = (r, val, d); w = UF(f"scompw!{r}", S.domain(), ks); x = z3.Const("mc_x", S.domain())
        fact(r, z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.Select(r, val)), patterns=[z3.Select(d, k)]))
        fact(r, z3.ForAll([x], z3.Implies(z3.Select(r, x), z3.And(z3.Select(d, w(x)), z3.substitute(val, (k, w(x))) == x)), patterns=[z3.Select(r, x)]))
    return _comp[key][0]
def consts_of(t):
    out = []; st = [t]; vis = set()
    while st:
        x = st.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0: out.append(x)
            st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body())
    return out
_comp = {}
def comp_list(j, val, lo, hi, es):
    """the list [val(j) for j in lo..hi]"""
    J = z3.Const("compj", I); key = z3.substitute(val, (j, J)); k = (key.get_id(), lo.get_id(), hi.get_id())
    if k not in _comp:
        s = ListS(es); r = fresh("comp", s); _comp[k] = (r, key, lo, hi)
        n = z3.simplify(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
        fact(r, s.llen(r) == n); i = z3.Const("comp_i", I)
        body = z3.substitute(key, (J, simp(lo + i)))
        fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(s.larr(r), i) == body), patterns=[z3.Select(s.larr(r), i)]))
        if es == Bytes and klen(val) is not None: fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), core.blen_(z3.Select(s.larr(r), i)) == klen(val)), patterns=[z3.Select(s.larr(r), i)]))
    return _comp[k][0]
@itm("collect")
def i_collect(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if ty.k == "adt" and adt_key(ty)[0] == "core" and adt_key(ty)[1] in ("Option", "Result"):
        isopt = adt_key(ty)[1] == "Option"; cty = ty.args()[0]; wty = item_ty(ex, st, it) or ty
        outs = []
        for s, r in i_collect_into(ex, st, it, cty, wty):
            if isinstance(r, tuple):
                bad = r[1]; outs.append((s, none(ty) if isopt else err(ty, bad.f[0] if isinstance(bad, Agg) else ex.T.acc(wty, 1, 0, bad))))
            else: outs.append((s, some(ty, r) if isopt else ok(ty, r)))
        return outs
    return i_collect_into(ex, st, it, ty, None)
def item_ty(ex, st, it):
    for sg in reversed(it.stages):
        if sg[0] == "map": return closure_ret(ex, st, sg[1])
        if sg[0] in ("filter_map", "map_while"): return sg[2].args()[0]
    if isinstance(it.src, ListSrc): return it.src.ety
    return None
@itm("sum")
def i_sum(ex, st, inst, args, ty): raise Unsupported("sum")
def m_extend(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); src = args[1]; d = D(ex, st, src); cty = ex.T.strip(inst.args()[0]) if inst.args() else None
    cur = tm(ex, st, ex.load(st, rr)); s = cur.sort()
    if z3.is_expr(d) and not isinstance(d, It):
        t = d
        if is_map(s) and t.sort() == s:
            ex.store(st, rr, munion(cur, t)); return UNIT
        if isinstance(s, z3.ArraySortRef) and t.sort() == s: ex.store(st, rr, sunion(cur, t)); return UNIT
        if is_list(s) and t.sort() == s: ex.store(st, rr, lcat(cur, t)); return UNIT
        if s == Bytes and t.sort() == Bytes: ex.store(st, rr, cat(cur, t)); return UNIT
    its = d
    if not isinstance(d, It):
        r = m_into_iter(ex, st, FakeInst(inst, len(inst.args()) - 1), [src], None); its = r
    if isinstance(its, It) and isinstance(its.src, FnSrc) and its.src.key[0] == "map" and its.src.key[1] == "kv" and is_map(s) and not its.stages and as_int(its.pos) == 0 and its.src.key[3].sort() == s:
        ex.store(st, rr, munion(cur, its.src.key[3])); return UNIT
    kty = {"m": "map"}; fakety = KindTy(ex, s)
    def body(s2, v):
        c = newcell(s2, ex.load(s2, rr), "ext"); collection_push_s(ex, s2, c, s, v); ex.store(s2, rr, s2.heap.pop(c)); return [("next", s2)]
    return [(s2, UNIT) for s2, _ in consume(ex, st, its, body, "extend")]
class KindTy:
    def __init__(self, ex, s): pass
def collection_push_s(ex, st, cell, s, v):
    cur = tm(ex, st, st.heap[cell])
    if is_list(s): st.heap[cell] = lpush(cur, tm(ex, st, v))
    elif is_map(s):
        v = D(ex, st, v)
        if isinstance(v, Agg): kk, vv = tm(ex, st, v.f[0]), tm(ex, st, v.f[1])
        else: q = v.sort(); kk, vv = ap(q.accessor(0, 0), v), ap(q.accessor(0, 1), v)
        st.heap[cell] = mput(cur, kk, vv)
    elif s == Bytes: 
        x = tm(ex, st, v); st.heap[cell] = cat(cur, be(1, x) if x.sort() == I else x)
    else: st.heap[cell] = z3.Store(cur, tm(ex, st, v), z3.BoolVal(True))
def munion(a, b):
    """b overrides a"""
    s = M(a.sort())
    if z3.is_K(mdom(b)) and z3.is_false(mdom(b).arg(0)): return a
    a, b = core.named(a), core.named(b)
    f = UF(f"munion<{a.sort()}>", a.sort(), a.sort(), a.sort()); r = f(a, b); k = z3.Const("munk", s.ks)
    fact(r, z3.ForAll([k], z3.Select(s.mdom(r), k) == z3.Or(mhas(a, k), mhas(b, k)), patterns=[z3.Select(s.mdom(r), k)]))
    fact(r, z3.ForAll([k], z3.Select(s.mval(r), k) == z3.If(mhas(b, k), mget(b, k), mget(a, k)), patterns=[z3.Select(s.mval(r), k)]))
    return r
def sunion(a, b):
    return z3.SetUnion(a, b)
def lcat(a, b):
    s = L(a.sort())
    if as_int(llen(b)) == 0: return a
    f = UF(f"lcat<{a.sort()}>", a.sort(), a.sort(), a.sort()); r = f(a, b); i = z3.Const("lcati", I)
    fact(r, s.llen(r) == llen(a) + llen(b))
    fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < s.llen(r)), z3.Select(s.larr(r), i) == z3.If(i < llen(a), lat(a, i), lat(b, i - llen(a)))), patterns=[z3.Select(s.larr(r), i)]))
    return r
@model("Vec::extend_from_slice", "Vec::append_x")
def m_efs(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); cur = tm(ex, st, ex.load(st, rr)); t = tm(ex, st, args[1]); ex.store(st, rr, cat(cur, t) if cur.sort() == Bytes else lcat(cur, t)); return UNIT
import models_btc
