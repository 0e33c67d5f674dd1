"""Assumed contracts of further std functions, which the current code does not call but changed code may."""
import z3, re
from models import *
from models import _comp
from loops import consume
import core, models, models_btc
from models_btc import is_p2tr, is_p2wpkh

# ---------------------------------------------------------------- integers
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
def each(fn): return [f"{t}::{fn}" for t in INTS]
def two(f):
    def m(ex, st, inst, args, ty):
        a, b = tm(ex, st, args[0]), tm(ex, st, args[1])
        if a.sort() != I or b.sort() != I: raise Unsupported("integer function of " + str(a.sort()))
        return simp(f(ex, ty, a, b))
    return m
def rng(ex, ty): return ex.T.intrange(ty)
def clampt(ex, ty, v): lo, hi = rng(ex, ty); return z3.If(v > hi, z3.IntVal(hi), z3.If(v < lo, z3.IntVal(lo), v))
def wrapt(ex, ty, v): lo, hi = rng(ex, ty); n = hi - lo + 1; return z3.If(v > hi, v - n, z3.If(v < lo, v + n, v))
mi = two(lambda ex, ty, a, b: z3.If(a <= b, a, b)); ma = two(lambda ex, ty, a, b: z3.If(a >= b, a, b))
for n in each("min") + ["intrinsics::integer_min"]: TAB[n] = mi
for n in each("max") + ["intrinsics::integer_max"]: TAB[n] = ma
def m_tmin(ex, st, inst, args, ty): return mi(ex, st, inst, args, ty)
for t in INTS: TAB[f"<{t} as Ord>::min"] = mi; TAB[f"<{t} as Ord>::max"] = ma
for n in each("abs_diff"): TAB[n] = two(lambda ex, ty, a, b: z3.If(a >= b, a - b, b - a))
for n in each("saturating_add") + ["intrinsics::saturating_add"]: TAB[n] = two(lambda ex, ty, a, b: clampt(ex, ty, a + b))
for n in each("saturating_sub") + ["intrinsics::saturating_sub"]: TAB.setdefault(n, two(lambda ex, ty, a, b: clampt(ex, ty, a - b)))
for n in each("wrapping_add") + ["intrinsics::wrapping_add"]: TAB[n] = two(lambda ex, ty, a, b: wrapt(ex, ty, a + b))
for n in each("wrapping_sub") + ["intrinsics::wrapping_sub"]: TAB[n] = two(lambda ex, ty, a, b: wrapt(ex, ty, a - b))
def checked(f):
    def m(ex, st, inst, args, ty):
        v = simp(f(tm(ex, st, args[0]), tm(ex, st, args[1]))); lo, hi = rng(ex, ty.args()[0]); return fork2(ex, st, simp(z3.And(lo <= v, v <= hi)), some(ty, v), none(ty))
    return m
for n in each("checked_add"): TAB.setdefault(n, checked(lambda a, b: a + b))
for n in each("checked_sub"): TAB[n] = checked(lambda a, b: a - b)
for n in each("checked_mul"): TAB[n] = checked(lambda a, b: a * b)
# ---------------------------------------------------------------- scripts
def witver(b):
    """witness version opcode: -1 if the script is no witness program"""
    v = bat(b, z3.IntVal(0)); n = blen(b)
    shape = z3.And(n >= 4, n <= 42, z3.Or(v == 0, z3.And(v >= 81, v <= 96)), bat(b, z3.IntVal(1)) == n - 2)
    return shape, z3.If(v == 0, z3.IntVal(0), v - 80)
def wfacts(b):
    fact(b, z3.Implies(is_p2tr(b), z3.And(bat(b, z3.IntVal(0)) == 81, bat(b, z3.IntVal(1)) == 32)))
    fact(b, z3.Implies(is_p2wpkh(b), z3.And(bat(b, z3.IntVal(0)) == 0, bat(b, z3.IntVal(1)) == 20)))
    fact(b, z3.Implies(z3.And(blen(b) == 34, bat(b, z3.IntVal(0)) == 81, bat(b, z3.IntVal(1)) == 32), is_p2tr(b)))
    fact(b, z3.Implies(z3.And(blen(b) == 22, bat(b, z3.IntVal(0)) == 0, bat(b, z3.IntVal(1)) == 20), is_p2wpkh(b)))
@model("Script::witness_version")
def m_wv(ex, st, inst, args, ty):
    b = core.named(tm(ex, st, args[0])); wfacts(b); g, v = witver(b); wty = ty.args()[0]; T = ex.T
    if T.kind(wty) != "dt": raise Unsupported("witness version type")
    vs = wty.d["variants"]; t = T.mk(wty, len(vs) - 1)
    for i in range(len(vs) - 1): t = z3.If(v == i, T.mk(wty, i), t)
    return fork2(ex, st, g, some(ty, t), none(ty))
@model("Script::is_witness_program")
def m_iswp(ex, st, inst, args, ty): b = core.named(tm(ex, st, args[0])); wfacts(b); return witver(b)[0]
@model("Script::is_op_return")
def m_isopr(ex, st, inst, args, ty): b = tm(ex, st, args[0]); return z3.And(blen(b) >= 1, bat(b, z3.IntVal(0)) == 0x6a)
@model("Script::is_p2wsh")
def m_p2wsh(ex, st, inst, args, ty): b = tm(ex, st, args[0]); return z3.And(blen(b) == 34, bslice(b, 0, 2) == lit("0020"))
# ---------------------------------------------------------------- lists
def size(t): return blen(t) if t.sort() == Bytes else llen(t)
def sub(ex, t, lo, hi): return ex.slice(t, simp(lo), simp(hi))
@model("Vec::pop", "VecDeque::pop_back")
def m_pop(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); t = tm(ex, st, ex.load(st, rr)); n = size(t); out = []
    for s, w in ex.branch(st, [(simp(n > 0), 1), (simp(n <= 0), 0)]):
        if w: ex.store(s, rr, sub(ex, t, z3.IntVal(0), n - 1)); out.append((s, some(ty, elem_at(ex, t, simp(n - 1), ty))))
        else: out.append((s, none(ty)))
    return out
@model("VecDeque::pop_front")
def m_popf(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); t = tm(ex, st, ex.load(st, rr)); n = size(t); out = []
    for s, w in ex.branch(st, [(simp(n > 0), 1), (simp(n <= 0), 0)]):
        if w: ex.store(s, rr, sub(ex, t, z3.IntVal(1), n)); out.append((s, some(ty, elem_at(ex, t, z3.IntVal(0), ty))))
        else: out.append((s, none(ty)))
    return out
@model("Vec::truncate", "VecDeque::truncate")
def m_trunc(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); t = tm(ex, st, ex.load(st, rr)); k = tm(ex, st, args[1]); n = size(t); out = []
    for s, w in ex.branch(st, [(simp(k < n), 1), (simp(k >= n), 0)]):
        if w: ex.store(s, rr, sub(ex, t, z3.IntVal(0), k))
        out.append((s, UNIT))
    return out
@model("[T]::contains", "Vec::contains", "VecDeque::contains")
def m_contains(ex, st, inst, args, ty):
    t = core.named(tm(ex, st, args[0])); x = tm(ex, st, args[1])
    if t.sort() == Bytes: raise Unsupported("contains of bytes")
    f = UF(f"lhas<{t.sort()}>", t.sort(), x.sort(), B); r = f(t, x); w = UF(f"lhasw<{t.sort()}>", t.sort(), x.sort(), I)(t, x); i = z3.Const("lhasi", I)
    fact(r, z3.Implies(r, z3.And(0 <= w, w < llen(t), lat(t, w) == x)))
    p = z3.Select(ap(L(t.sort()).larr, t), i)
    fact(r, z3.Implies(z3.Not(r), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(t)), lat(t, i) != x), patterns=[p])))
    return r
@model("[T]::split_at")
def m_splitat(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); k = tm(ex, st, args[1]); n = size(t); g = simp(k <= n); ex.c.oblige("no-panic[split_at]", st, g); st.add(g)
    return Agg(ty, 0, [ref(st, sub(ex, t, z3.IntVal(0), k)), ref(st, sub(ex, t, k, n))])
@model("[T]::split_first")
def m_splitfirst(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); n = size(t); tt = ty.args()[0]
    return fork2(ex, st, simp(n > 0), lambda s: some(ty, Agg(tt, 0, [ref(s, elem_at(ex, t, z3.IntVal(0))), ref(s, sub(ex, t, z3.IntVal(1), n))])), none(ty))
@model("[T]::split_last")
def m_splitlast(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); n = size(t); tt = ty.args()[0]
    return fork2(ex, st, simp(n > 0), lambda s: some(ty, Agg(tt, 0, [ref(s, elem_at(ex, t, simp(n - 1))), ref(s, sub(ex, t, z3.IntVal(0), n - 1))])), none(ty))
@model("[T]::starts_with")
def m_starts(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); p = tm(ex, st, args[1])
    if t.sort() != Bytes or klen(p) is None: raise Unsupported("starts_with")
    k = klen(p); return fork2(ex, st, simp(blen(t) >= k), lambda s: bslice(t, z3.IntVal(0), z3.IntVal(k)) == p, z3.BoolVal(False))
def keep(ex, st, rr, it, ask, push, label):
    """rebuild the collection at rr from the items that ask() keeps"""
    def body(s, v):
        o = []
        for s1, w in ask(s, v):
            for s2, b in boolsplit(ex, s1, w):
                if b: push(s2, v)
                o.append(("next", s2))
        return o
    return [(s, UNIT) for s, _ in consume(ex, st, it, body, label)]
@model("Vec::retain", "VecDeque::retain", "Vec::retain_mut_x")
def m_retain(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); t = tm(ex, st, ex.load(st, rr))
    if t.sort() == Bytes: raise Unsupported("retain of bytes")
    ety = inst.args()[0] if inst.args() else None
    if ety is not None and ex.T.sort(ety) != L(t.sort()).es: ety = None
    ex.store(st, rr, lempty(L(t.sort()).es))
    return keep(ex, st, rr, It(ListSrc(t, ety, by_ref=True)), lambda s, v: ex.callv(s, args[1], [v]),
                lambda s, v: ex.store(s, rr, lpush(tm(ex, s, ex.load(s, rr)), tm(ex, s, v))), "retain")
@model("BTreeMap::retain", "HashMap::retain")
def m_mretain(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); m = tm(ex, st, ex.load(st, rr)); k, v = mapargs(ex, inst)
    ex.store(st, rr, mempty(M(m.sort()).ks, M(m.sort()).vs)); cell = {}
    def ask(s, p):
        p = D(ex, s, p); kk, vv = p.f; c = newcell(s, D(ex, s, vv), "rv"); p.f[1] = Ref(c)
        return ex.callv(s, args[1], [kk, Ref(c)])
    def push(s, p):
        p = D(ex, s, p); kk, vv = tm(ex, s, p.f[0]), tm(ex, s, p.f[1]); ex.store(s, rr, mput(tm(ex, s, ex.load(s, rr)), kk, vv))
    return keep(ex, st, rr, It(map_src(ex, st, m, k, v, "kv", True)), ask, push, "retain")
@model("BTreeSet::retain", "HashSet::retain")
def m_sretain(ex, st, inst, args, ty):
    rr = rootref(ex, st, args[0]); m = tm(ex, st, ex.load(st, rr))
    if is_map(m.sort()): raise Unsupported("retain of a keyed set")
    ex.store(st, rr, z3.K(m.sort().domain(), z3.BoolVal(False)))
    return keep(ex, st, rr, It(map_src(ex, st, m, inst.args()[0], None, "k", True)), lambda s, v: ex.callv(s, args[1], [v]),
                lambda s, v: ex.store(s, rr, z3.Store(tm(ex, s, ex.load(s, rr)), tm(ex, s, v), z3.BoolVal(True))), "retain")
# ---------------------------------------------------------------- maps
@model("BTreeMap::values_mut", "HashMap::values_mut")
def m_valmut(ex, st, inst, args, ty):
    k, v = mapargs(ex, inst); rr = rootref(ex, st, args[0]); it = It(map_src(ex, st, tm(ex, st, ex.load(st, rr)), k, v, "mut", True, rr))
    return it.with_(stages=it.stages + (("snd",),))
@model("BTreeMap::append", "BTreeSet::append_x")
def m_append(ex, st, inst, args, ty):
    a, b = rootref(ex, st, args[0]), rootref(ex, st, args[1]); x, y = tm(ex, st, ex.load(st, a)), tm(ex, st, ex.load(st, b))
    ex.store(st, a, munion(x, y)); ex.store(st, b, mempty(M(x.sort()).ks, M(x.sort()).vs)); return UNIT
@model("BTreeSet::append")
def m_sappend(ex, st, inst, args, ty):
    a, b = rootref(ex, st, args[0]), rootref(ex, st, args[1]); x, y = tm(ex, st, ex.load(st, a)), tm(ex, st, ex.load(st, b))
    if is_map(x.sort()): raise Unsupported("append of a keyed set")
    ex.store(st, a, sunion(x, y)); ex.store(st, b, z3.K(x.sort().domain(), z3.BoolVal(False))); return UNIT
@model("BTreeMap::get_key_value", "HashMap::get_key_value")
def m_gkv(ex, st, inst, args, ty):
    m = tm(ex, st, args[0]); k = tm(ex, st, args[1]); tt = ty.args()[0]
    return fork2(ex, st, mhas(m, k), lambda s: some(ty, Agg(tt, 0, [ref(s, k), ref(s, mget(m, k))])), none(ty))
@model("BTreeSet::is_disjoint_x")
def _x(*a): raise Unsupported("x")
# ---------------------------------------------------------------- iterators
import loops
_stage = loops.stage
def stage2(ex, st, sg, v, i):
    if sg[0] == "snd":
        p = deref(ex, st, v)
        if not isinstance(p, Agg): raise Unsupported("value of a map item")
        return [("yield", st, p.f[1])]
    if sg[0] == "skip_while":   # sg = (skip_while, closure, cell of the flag that skipping is over)
        out = []; c = newc(st, v); cell = sg[2]
        for s0, over in boolsplit(ex, st, st.heap[cell]):
            if over: out.append(("yield", s0, v)); continue
            for s, w in ex.callv(s0, sg[1], [Ref(c)]):
                for s2, b in boolsplit(ex, s, w):
                    if b: out.append(("skip", s2, v))
                    else: s2.heap[cell] = z3.BoolVal(True); out.append(("yield", s2, v))
        return out
    if sg[0] in ("flat_map", "flatten"): raise Unsupported("flattened iterator outside a consumer")
    return _stage(ex, st, sg, v, i)
loops.stage = stage2
_mapped = loops.It.mapped
loops.It.mapped = lambda self: _mapped(self) and not any(s[0] in ("flat_map", "flatten", "skip_while") for s in self.stages)
_consume = loops.consume
def consume2(ex, st, it, body, label, cells=()):
    for j, sg in enumerate(it.stages):
        if sg[0] in ("flat_map", "flatten"):
            rest = it.stages[j + 1:]
            if any(s[0] in ("take_while", "map_while", "enumerate", "skip_while") for s in rest): raise Unsupported("cutting a flattened iterator")
            def outer(s, v):
                vs = [(s, v)] if sg[0] == "flatten" else ex.callv(s, sg[1], [v]); out = []
                for s1, w in vs:
                    inner = inner_it(ex, s1, w, sg[2])
                    for s2, x in inner:
                        if x.stages is None: raise Unsupported("inner iterator")
                        for s3, p in consume2(ex, s2, x.with_(stages=x.stages + tuple(rest)), body, label + ".inner"):
                            out.append(("next", s3) if p is None else ("done", s3, p))
                return out
            return _consume(ex, st, it.with_(stages=it.stages[:j]), outer, label)
    return _consume(ex, st, it, body, label, cells)
for mod in (loops, models, models_btc): setattr(mod, "consume", consume2)
consume = consume2
def inner_it(ex, st, w, ty):
    d = D(ex, st, w)
    if isinstance(d, It): return [(st, d)]
    class F:
        name = ("&mut " if False else "") + (ty.name if ty is not None else "")
        def args(self): return [ty] if ty is not None else []
    r = models.m_into_iter(ex, st, F(), [w], None)
    return r if isinstance(r, list) else [(st, r)]
@itm("flat_map")
def i_flatmap(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); return it.with_(stages=it.stages + (("flat_map", args[1], closure_ret(ex, st, args[1])),))
@itm("flatten")
def i_flatten(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); ety = models.item_ty(ex, st, it)
    if ety is not None and ety.k == "ref" and ety.elem is None: ety = None
    return it.with_(stages=it.stages + (("flatten", None, ety),))
@itm("skip_while")
def i_skipwhile(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); c = newcell(st, z3.BoolVal(False), "sw"); return it.with_(stages=it.stages + (("skip_while", args[1], c),))
@itm("sum")
def i_sum(ex, st, inst, args, ty):
    if ex.T.kind(ty) != "int": raise Unsupported("sum of " + ty.name[:60])
    lo, hi = ex.T.intrange(ty); acc = newcell(st, z3.IntVal(0), "sum")
    def body(s, v):
        r = simp(s.heap[acc] + tm(ex, s, v)); g = simp(z3.And(lo <= r, r <= hi)); ex.c.oblige("no-panic[sum overflow]", s, g); s.add(g); s.heap[acc] = r; return [("next", s)]
    return [(s, s.heap[acc]) for s, _ in consume(ex, st, getit(ex, st, args[0]), body, "sum")]
def pick(better):
    """max/min by comparing: better(ex, s, best, v) -> [(state, bool)]; ties as std does"""
    def f(ex, st, inst, args, ty):
        it = getit(ex, st, args[0]); c = newcell(st, it, "pick"); out = []
        for s, v in next_(ex, st, Ref(c)):
            if v is None: out.append((s, none(ty))); continue
            best = newcell(s, v, "best"); rest = s.heap[c]
            def body(s1, w):
                o = []
                for s2, b in better(ex, s1, inst, args, s1.heap[best], w):
                    if b: s2.heap[best] = w
                    o.append(("next", s2))
                return o
            out += [(s3, some(ty, s3.heap[best])) for s3, _ in consume(ex, s, rest, body, "pick")]
        return out
    return f
def cmpv(flip):
    def f(ex, s, inst, args, best, v):
        a, b = tm(ex, s, best), tm(ex, s, v); return boolsplit(ex, s, simp(ltv(b, a)) if flip else simp(z3.Not(ltv(b, a))))
    return f
def cmpk(flip):
    def f(ex, s, inst, args, best, v):
        out = []; cb, cv = newcell(s, best, "kb"), newcell(s, v, "kv")
        for s1, x in ex.callv(s, args[1], [Ref(cb)]):
            for s2, y in ex.callv(s1, args[1], [Ref(cv)]): out += boolsplit(ex, s2, simp(ltv(tm(ex, s2, y), tm(ex, s2, x)) if flip else z3.Not(ltv(tm(ex, s2, y), tm(ex, s2, x)))))
        return out
    return f
models.ITER[("iter", "min")] = pick(cmpv(True)); models.ITER[("iter", "max")] = pick(cmpv(False))
models.ITER[("iter", "min_by_key")] = pick(cmpk(True)); models.ITER[("iter", "max_by_key")] = pick(cmpk(False))
@itm("reduce")
def i_reduce(ex, st, inst, args, ty):
    it = getit(ex, st, args[0]); c = newcell(st, it, "red"); out = []
    for s, v in next_(ex, st, Ref(c)):
        if v is None: out.append((s, none(ty))); continue
        acc = newcell(s, v, "acc"); rest = s.heap[c]
        def body(s1, w):
            o = []
            for s2, r in ex.callv(s1, args[1], [s1.heap[acc], w]): s2.heap[acc] = r; o.append(("next", s2))
            return o
        out += [(s3, some(ty, s3.heap[acc])) for s3, _ in consume(ex, s, rest, body, "reduce")]
    return out
_last = models.ITER[("iter", "last")]
@itm("last")
def i_last2(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if it.mapped(): return _last(ex, st, inst, args, ty)
    acc = newcell(st, none(ty), "last")
    def body(s, v): s.heap[acc] = some(ty, v); return [("next", s)]
    return [(s, s.heap[acc]) for s, _ in consume(ex, st, it, body, "last")]
@itm("partition")
def i_partition(ex, st, inst, args, ty):
    tys = [t for _, t in ty.fields(0)]; a, b = newcell(st, empty_of(ex, tys[0]), "pa"), newcell(st, empty_of(ex, tys[1]), "pb")
    def body(s, v):
        o = []; c = newcell(s, v, "pv")
        for s1, w in ex.callv(s, args[1], [Ref(c)]):
            for s2, q in boolsplit(ex, s1, w): models.collection_push(ex, s2, a if q else b, tys[0 if q else 1], v); o.append(("next", s2))
        return o
    return [(s, Agg(ty, 0, [s.heap[a], s.heap[b]])) for s, _ in consume(ex, st, getit(ex, st, args[0]), body, "partition")]
@itm("unzip")
def i_unzip(ex, st, inst, args, ty):
    tys = [t for _, t in ty.fields(0)]; a, b = newcell(st, empty_of(ex, tys[0]), "ua"), newcell(st, empty_of(ex, tys[1]), "ub")
    def body(s, v):
        v = D(ex, s, v)
        if not isinstance(v, Agg):
            q = v.sort(); x, y = ap(q.accessor(0, 0), v), ap(q.accessor(0, 1), v)
        else: x, y = v.f
        models.collection_push(ex, s, a, tys[0], x); models.collection_push(ex, s, b, tys[1], y); return [("next", s)]
    return [(s, Agg(ty, 0, [s.heap[a], s.heap[b]])) for s, _ in consume(ex, st, getit(ex, st, args[0]), body, "unzip")]
@itm("next_back")
def i_nextback(ex, st, inst, args, ty):
    it = getit(ex, st, args[0])
    if not it.mapped(): raise Unsupported("next_back of a filtering iterator")
    out = []
    for s, w in ex.branch(st, [(simp(it.pos < it.end), 1), (simp(it.pos >= it.end), 0)]):
        if not w: out.append((s, none(ty))); continue
        loops.set_it(ex, s, args[0], it.with_(end=simp(it.end - 1))); out += [(s2, some(ty, v)) for s2, v in it.elem(ex, s, simp(it.end - 1))]
    return out
@model("[T]::sort", "[T]::sort_unstable", "[T]::sort_by", "[T]::sort_by_key", "[T]::sort_unstable_by", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "[T]::reverse", "Vec::reverse")
def m_sort(ex, st, inst, args, ty):
    """a permutation (sortedness only for the natural order; a comparison closure is run once, on arbitrary elements, for its panics)"""
    rr = rootref(ex, st, args[0]); t = core.named(tm(ex, st, ex.load(st, rr))); fn = models.canon_fn(inst)
    if t.sort() == Bytes: raise Unsupported(fn + " of bytes")
    s = L(t.sort()); n = llen(t); i, j = z3.Const("sorti", I), z3.Const("sortj", I)
    r = fresh("sorted", t.sort()); fact(r, llen(r) == n)
    if fn == "reverse":
        fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), lat(r, i) == lat(t, n - 1 - i)), patterns=[lat(r, i)]))
    else:
        p, q = UF(f"perm!{r}", I, I), UF(f"permi!{r}", I, I)
        fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(lat(r, i) == lat(t, p(i)), 0 <= p(i), p(i) < n, q(p(i)) == i)), patterns=[lat(r, i)]))
        fact(r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= q(i), q(i) < n, p(q(i)) == i)), patterns=[lat(t, i)]))
        if fn in ("sort", "sort_unstable"):
            fact(r, z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.Not(ltv(lat(r, j), lat(r, i)))), patterns=[z3.MultiPattern(lat(r, i), lat(r, j))]) if s.es in (I,) else z3.BoolVal(True))
    states = [st]
    if len(args) > 1:
        k = 2 if fn in ("sort_by", "sort_unstable_by") else 1; s0 = st.fork(); cs = []
        for _ in range(k):
            x = fresh("sortx", I); s0.add(z3.And(0 <= x, x < n)); cs.append(ref(s0, lat(t, x)))
        before = dict(s0.heap)
        for s1, _ in ex.callv(s0, args[1], cs):
            if any(c in s1.heap and s1.heap[c] is not x and not models.same(s1.heap[c], x) for c, x in before.items()): raise Unsupported(fn + " with an effect")
    ex.store(st, rr, r); return UNIT
# ---------------------------------------------------------------- conversions between keys
def from_keys(ex, st, inst, args, ty):
    """From/Into between key types; None if it is no such conversion"""
    if ty is None or ty.k != "adt": return None
    mm = re.match(r"<(.+) as std::convert::(From|Into)<(.+)>>::\w+$", inst.name)
    if mm is None: return None
    sn = (mm.group(3) if mm.group(2) == "From" else mm.group(1)).lstrip("&").removeprefix("mut ")
    src = next((t for t in ex.prog.types.values() if t.k == "adt" and t.name == sn), None)
    if src is None: return None
    k, q = adt_key(ty), adt_key(src); s = ("secp256k1", "XOnlyPublicKey")
    if k == s and q in (("secp256k1", "PublicKey"), ("secp256k1", "Keypair")): return models_btc.m_xonly_t(tm(ex, st, args[0]))
    if k == s and q == ("bitcoin", "PublicKey"): 
        t = tm(ex, st, args[0]); return models_btc.m_xonly_t(next(ap(t.sort().accessor(0, i), t) for i in range(t.sort().constructor(0).arity()) if t.sort().accessor(0, i).range() == R))
    if ex.T.kind(ty) == "real" and ex.T.kind(src) == "real" and (k, q) not in SAMEKEY: raise Unsupported("key conversion " + inst.name[:80])
    return None
SAMEKEY = {(("secp256k1", a), ("secp256k1", b)) for a, b in (("Scalar", "SecretKey"), ("SecretKey", "Keypair"), ("PublicKey", "Keypair"))} | {(("secp256k1", "XOnlyPublicKey"), ("bitcoin", "TweakedPublicKey")), (("secp256k1", "Keypair"), ("bitcoin", "TweakedKeypair")), (("bitcoin", "TweakedKeypair"), ("secp256k1", "Keypair"))}
def taproot_root(ex, st, v):
    m = D(ex, st, v)
    if isinstance(m, Agg): return models_btc.EMPTY if m.v == 0 else tm(ex, st, m.f[0])
    s = m.sort(); return z3.If(s.recognizer(0)(m), models_btc.EMPTY, s.accessor(1, 0)(m))
def signed_even(sk):
    """the secret of the even lift of its public key"""
    return z3.If(models_btc.even(sk), sk, models_btc.lin(-sk))
@model("<Keypair as TapTweak>::tap_tweak", "Keypair::tap_tweak")
def m_kptt(ex, st, inst, args, ty):
    sk = tm(ex, st, args[0]); x = models_btc.m_xonly_t(sk); t = models_btc.tap_scalar(x, taproot_root(ex, st, args[2])); r = models_btc.lin(signed_even(sk) + t)
    fact(r, r != 0); st.add(r != 0); return r
@model("<XOnlyPublicKey as TapTweak>::tap_tweak", "XOnlyPublicKey::tap_tweak")
def m_xott(ex, st, inst, args, ty):
    x = tm(ex, st, args[0]); t = models_btc.tap_scalar(x, taproot_root(ex, st, args[2])); p = models_btc.lin(x + t); fact(p, p != 0); st.add(p != 0)
    return Agg(ty, 0, [models_btc.m_xonly_t(p), models_btc.parity(ex, models_btc.even(p))])
@model("TweakedKeypair::to_inner", "TweakedKeypair::to_keypair", "TweakedKeypair::as_keypair", "TweakedKeypair::dangerous_assume_tweaked", "<Keypair as TapTweak>::dangerous_assume_tweaked", "Keypair::from_seckey_slice_x")
def m_twkp(ex, st, inst, args, ty): return tm(ex, st, args[0])
def m_xonly_t(t):
    x = models_btc.xonly(t); fact(x, z3.Implies(t != 0, z3.And(x != 0, models_btc.even(x)))); return x
models_btc.m_xonly_t = m_xonly_t
_from = models.m_from
def m_from2(ex, st, inst, args, ty):
    r = from_keys(ex, st, inst, args, ty)
    return _from(ex, st, inst, args, ty) if r is None else r
models.m_from = m_from2
# ---------------------------------------------------------------- order of tuples and arrays of them
def ltty(ex, ty, x, y):
    """x < y for values of Rust type ty: tuples by their parts in order, everything else as before"""
    ty = ex.T.strip(ty) if ty is not None and not isinstance(ty, _Tup) else ty
    if ty is not None and ty.k == "tuple" and x.sort().kind() == z3.Z3_DATATYPE_SORT:
        fs = [t for _, t in ty.fields(0)]; r = z3.BoolVal(False)
        for i in reversed(range(len(fs))):
            a, b = ap(x.sort().accessor(0, i), x), ap(y.sort().accessor(0, i), y); r = z3.Or(ltty(ex, fs[i], a, b), z3.And(a == b, r))
        return simp(r)
    return ltv(x, y)
class _Tup:
    k = "tuple"
    def __init__(self, ts): self.ts = ts
    def fields(self, v=0): return [(str(i), t) for i, t in enumerate(self.ts)]
def opty(inst):
    a = inst.args()
    if "tuple::<impl" in inst.name: return _Tup(a)
    return a[0] if a else None
def m_cmp2(ex, st, inst, args, ty):
    x, y = tm(ex, st, args[0]), tm(ex, st, args[1]); return ex.ordering(ty, ltty(ex, opty(inst), x, y), x == y)
def m_pord2(fn, ex, st, inst, args, ty):
    x, y = tm(ex, st, args[0]), tm(ex, st, args[1]); l = lambda a, b: ltty(ex, opty(inst), a, b)
    return {"lt": lambda: l(x, y), "gt": lambda: l(y, x), "le": lambda: z3.Or(l(x, y), x == y), "ge": lambda: z3.Or(l(y, x), x == y)}[fn]()
models.m_cmp = m_cmp2; models.m_pord = m_pord2

@model("[T]::chunks_exact", "[T]::chunks")
def m_chunks(ex, st, inst, args, ty):
    t = tm(ex, st, args[0]); k = as_int(tm(ex, st, args[1]))
    if not k: raise Unsupported("chunks of unknown size")
    n = size(t); exact = "chunks_exact" in inst.name
    def el(ex, s, i): return ref(s, sub(ex, t, simp(i * k), simp(i * k + k) if exact else simp(z3.If(i * k + k <= n, i * k + k, n))))
    return It(FnSrc(simp(n / k if exact else (n + k - 1) / k), el, ["chunks", str(k), t]))
