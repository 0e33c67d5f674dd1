"""Loop cutting: inferred frame (mod-set), candidate invariants filtered Houdini-style, and the
iterator abstraction (sources, stages, consumers as synthetic loops)."""
import z3, time, os
from core import *
from values import *
import core

CT = 1200   # resource limit of one candidate invariant
TRACE = bool(os.environ.get("VTRACE"))
class Cand:
    __slots__ = ("name", "fn")
    def __init__(self, name, fn): self.name = name; self.fn = fn

def same(a, b):
    if a is b: return True
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(pe(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, Agg) and isinstance(b, Agg): return a.v == b.v and len(a.f) == len(b.f) and a.ty.id == b.ty.id and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, FnV) and isinstance(b, FnV): return a.ty.id == b.ty.id
    if isinstance(a, BV) and isinstance(b, BV): return a.term().eq(b.term())
    if isinstance(a, Eng) and isinstance(b, Eng): return a.tag == b.tag and a.b.eq(b.b)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a.name == b.name
    if isinstance(a, Poison) and isinstance(b, Poison): return True
    if isinstance(a, It) and isinstance(b, It): return a.same(b)
    return False
def pe(x, y):
    if x[0] != y[0]: return False
    if x[0] == "f": return x[1] == y[1] and x[2] == y[2]
    return x[1].eq(y[1]) if z3.is_expr(x[1]) else x[1] == y[1]

def diff(ex, a, b, path, ty, out):
    """leaf paths where b differs from a"""
    if same(a, b): return
    if isinstance(a, Agg) != isinstance(b, Agg):   # one side is still a whole term: compare field by field
        g = a if isinstance(a, Agg) else b; t = b if g is a else a
        if z3.is_expr(t) and g.ty.k == "adt" and len(g.ty.d["variants"]) == 1 and ex.T.kind(g.ty) == "dt" and t.sort() == ex.T.sort(g.ty):
            x = Agg(g.ty, 0, [ex.T.acc(g.ty, 0, i, t) for i in range(len(g.f))])
            a, b = (a, x) if g is a else (x, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and a.ty.id == b.ty.id and len(a.f) == len(b.f) and a.ty.k in ("adt", "tuple", "closure"):
        if ex.T.kind(a.ty) in ("dt", "unit"):
            for i, (x, y) in enumerate(zip(a.f, b.f)):
                ft = ex.T.vfields(a.ty, a.v)[i][1]
                diff(ex, x, y, path + (("f", a.v, i, ft, a.ty),), ft, out)
            return
    out.append((path, ty, a, b))

def cell_ty(ex, cell):
    if cell[0] == "l":
        fr = ex.frames.get(cell[1])
        if fr is not None: return ex.prog.types[fr.body.locals[cell[2]]["ty"]]
    return None

def havoc_val(ex, st, a, b, ty, label):
    for v in (a, b):
        if isinstance(v, It):
            o = b if v is a else a
            if isinstance(o, It) and v.compatible(o): return a.havoc(ex, st, b)
            return Poison("iterator")
        if isinstance(v, Eng):
            o = b if v is a else a
            if isinstance(o, Eng) and o.tag == v.tag: return Eng(v.tag, fresh("h_eng", Bytes))
            return Poison("engine")
    try:
        if containsref(ex, a, True) or containsref(ex, b, True): return Poison("mutable reference")
        ta = ex.term(st, a); 
        s = ta.sort()
        t = fresh("h_" + label, s)
        if ty is not None: ex.T.note(t, ty)
        elif s == I: pass
        if is_list(s): fact(t, llen(t) >= 0)
        if s == Bytes and klen(ta) is not None: setlen(t, klen(ta)) if ty is not None and ty.k == "array" else None
        return t
    except Unsupported as e:
        return Poison(str(e))
def containsref(ex, v, mut):
    if isinstance(v, Ref): return False
    if isinstance(v, Agg):
        for i, x in enumerate(v.f):
            if isinstance(x, Ref):
                fts = ex.T.vfields(v.ty, v.v) if v.ty.k in ("adt", "tuple", "closure") else None
                if fts and fts[i][1].k == "ref" and fts[i][1].d.get("mut"): return True
            if containsref(ex, x, mut): return True
    return False

def covered(mods, cell, path):
    for (c, p) in mods:
        if c == cell and len(p) <= len(path) and all(pe(x, y) for x, y in zip(p, path)): return True
    return False

def cut_loop(ex, st0, step, label, ignore=()):
    """step(st) -> [(kind, payload, st)], kind 'back' or 'exit'. Returns exits."""
    c = ex.c; saved = len(c.obls)
    # 0. concretely bounded iteration: unroll
    if any(isinstance(v, It) and v.concrete() for v in st0.heap.values()):
        outs = unroll(ex, st0, step)
        if outs is not None: return outs
        del c.obls[saved:]
    c.havocs += 1
    # 1. frame inference
    mods = {}
    hv = None
    for rnd in range(12):
        mark = dict(core._fresh); h = st0.fork(); hvals = {}
        havoc(ex, h, mods, label)
        base = dict(h.heap); hb = h.fork()
        c.discover += 1     # only the frame is wanted here: inner loops run without invariants
        try: outs = step(h.fork())
        finally: c.discover -= 1
        del c.obls[saved:]
        new = False
        for kind, p, s in outs:
            if kind != "back": continue
            for cell, v in base.items():
                if cell in ignore or cell not in s.heap: continue
                w = s.heap[cell]
                if w is v: continue
                ds = []; diff(ex, v, w, (), cell_ty(ex, cell), ds)
                for path, ty, a, b in ds:
                    if covered(mods, cell, path): continue
                    for k in [k for k in mods if k[0] == cell and len(k[1]) > len(path) and covered({(cell, path): 0}, cell, k[1])]: del mods[k]
                    mods[(cell, path)] = (ty, a, b); new = True
        if not new: break
    else: raise Unsupported("loop frame does not stabilise")
    if not any(k == "back" for k, _, _ in outs):
        # body never iterates: run it directly
        return [(p, s) for k, p, s in step(st0) if k == "exit"]
    c.used["loops"] += 1
    # 2. candidate invariants
    closed = [] if c.discover else closed_cands(ex, st0, hb, [s for k, _, s in outs if k == "back"], mods, mark)
    if TRACE: print("   mods", label, [(k[0], [(e[0], e[2] if e[0] == "f" else e[1]) for e in k[1]]) for k in mods], flush=True)
    h = st0.fork(); havoc(ex, h, mods, label)
    cands = []
    if c.cands is not None and not c.discover: cands = c.cands(ex, st0, h, mods)
    cands = closed + cands
    alive = []
    for cd in cands:
        try:
            f = cd.fn(st0)
        except (Unsupported, z3.Z3Exception): continue
        r, _ = c.prove(st0.pc, f, CT)
        if r == "proved": alive.append(cd)
        if TRACE: print("   init", label, cd.name, r, flush=True)
    # 3. Houdini
    for rnd in range(20):
        s1 = h.fork(); hyp = {}
        for cd in alive:
            f = cd.fn(s1); hyp[id(cd)] = f
        for cd in alive: s1.add(hyp[id(cd)])
        del c.obls[saved:]
        outs = step(s1)
        backs = [s for k, _, s in outs if k == "back"]
        before = len(alive); ch = True; live = list(alive)
        while ch:
            ch = False
            dead = {hyp[id(cd)].get_id() for cd in alive if cd not in live}
            keepids = {hyp[id(cd)].get_id() for cd in live}
            for cd in list(live):
                for s in backs:
                    hy = [f for f in s.pc if f.get_id() not in dead or f.get_id() in keepids]
                    try: g = cd.fn(s)
                    except (Unsupported, z3.Z3Exception):
                        ok = "unknown"
                    else: ok, _ = c.prove(hy, g, CT)
                    if TRACE: print("   keep", label, cd.name, ok, flush=True)
                    if ok != "proved":
                        live.remove(cd); ch = True; break
        alive = live
        if len(alive) == before: break
    c.used.setdefault("invariants", []).append((label, [cd.name for cd in alive]))
    for cd in alive:
        c.invs = getattr(c, "invs", 0) + 1
    return [(p, s) for k, p, s in outs if k == "exit"]

def closed_cands(ex, st0, h, backs, mods, mark):
    """candidates in closed form for collections which every iteration extends by a value that depends on the position alone:
    a list gets one element per iteration, a map the entry of the enumerated key (under conditions on it)"""
    out = []
    if not 1 <= len(backs) <= 4: return out
    poss = []
    for cell, v in h.heap.items():
        if isinstance(v, It) and is_uconst(v.pos) and all(isinstance(s.heap.get(cell), It) and s.heap[cell].pos.eq(z3.simplify(v.pos + 1)) for s in backs): poss.append((v.pos, (lambda st, c=cell: st.heap[c].pos)))
    leaves = []
    for (cell, path) in mods:
        try:
            o = ex.load(h, Ref(cell, path)); ns = [ex.load(s, Ref(cell, path)) for s in backs]
            if isinstance(o, (It, Poison, Ref)): continue
            leaves.append(((lambda st, c=cell, q=path: ex.term(st, ex.load(st, Ref(c, q)))), ex.term(h, o), [ex.term(s, b) for s, b in zip(backs, ns)], f"{cell}"))
        except (Unsupported, z3.Z3Exception, KeyError): continue
    for lf, o, ns, name in leaves:
        if o.sort() == I and all(n.eq(z3.simplify(o + 1)) for n in ns) and is_uconst(o): poss.append((o, lf))
    hids = {x.get_id() for x in h.pc}
    for lf, o, ns, name in leaves:
        for P, pf in poss:
            def pure(t):
                """the term depends on the position and on nothing the loop makes or changes"""
                for x in consts_in(t):
                    if x.eq(P): continue
                    nm = x.decl().name(); b, _, k = nm.rpartition("!")
                    if b and k.isdigit() and int(k) >= mark.get(b, 0): return False
                return True
            try: p0 = pf(st0)
            except (Unsupported, KeyError): continue
            if not z3.is_expr(p0) or p0.sort() != I: continue
            if is_list(o.sort()) and all(x.eq(ns[0]) for x in ns):
                S = L(o.sort()); n = ns[0]
                if not (z3.is_app(n) and n.decl().eq(S.mkL) and z3.is_store(n.arg(1))): continue
                arr, ix, v = n.arg(1).arg(0), n.arg(1).arg(1), n.arg(1).arg(2)
                if not (arr.eq(ap(S.larr, o)) and ix.eq(llen(o)) and n.arg(0).eq(z3.simplify(llen(o) + 1)) and pure(v)): continue
                def lst(st, lf=lf, pf=pf, P=P, v=v, p0=p0, S=S):
                    l = atom(lf(st)); l0 = atom(lf(st0)); p = pf(st); j = z3.Const("cl_j", I); n0 = llen(l0)
                    return z3.And(llen(l) == z3.simplify(n0 + (p - p0)), p >= p0, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen(l)), z3.Select(S.larr(l), j) == z3.If(j < n0, z3.Select(S.larr(l0), j), z3.substitute(v, (P, z3.simplify(p0 + (j - n0)))))), patterns=[z3.Select(S.larr(l), j)]))
                out.append(Cand(f"closed({name},{P})", lst))
            elif is_map(o.sort()):
                S = M(o.sort()); alts = []; en = None
                for n, s in zip(ns, backs):
                    if n.eq(o): continue
                    d, w = mdom(n), mval(n)
                    if not (z3.is_store(d) and z3.is_store(w) and d.arg(0).eq(mdom(o)) and w.arg(0).eq(mval(o)) and d.arg(1).eq(w.arg(1)) and z3.is_true(d.arg(2))): alts = None; break
                    k = d.arg(1)
                    if not (z3.is_app(k) and k.decl().name().startswith("enum<") and k.arg(1).eq(P)) or (en is not None and not en.eq(k)): alts = None; break
                    en = k; cond = z3.And([f for f in s.pc if f.get_id() not in hids]) if len(ns) > 1 else z3.BoolVal(True); alts.append((cond, w.arg(2)))
                if not alts or not z3.is_const(en.arg(0)) and core.has_ite(en.arg(0)): continue
                kv = z3.Const("cl_k", S.ks); back = lambda t: z3.substitute(t, (en, kv)); alts = [(back(c), back(v)) for c, v in alts]
                if not all(pure(x) and not any(y.eq(P) for y in consts_in(x)) for q in alts for x in q): continue
                dom = en.arg(0); ixf = UF(f"enumix<{S.ks}>", dom.sort(), S.ks, I)
                def mp(st, lf=lf, pf=pf, p0=p0, S=S, alts=alts, dom=dom, ixf=ixf, kv=kv):
                    m = atom(lf(st)); m0 = atom(lf(st0)); p = pf(st); core.enum_map(dom)
                    seen = z3.And(z3.Select(dom, kv), p0 <= ixf(dom, kv), ixf(dom, kv) < p); val = z3.Select(S.mval(m0), kv)
                    for c, v in alts: val = z3.If(z3.And(seen, c), v, val)
                    a = z3.Or([c for c, _ in alts])
                    return z3.And(z3.ForAll([kv], z3.Select(S.mdom(m), kv) == z3.Or(z3.Select(S.mdom(m0), kv), z3.And(seen, a)), patterns=[z3.Select(S.mdom(m), kv)]), z3.ForAll([kv], z3.Implies(z3.Select(S.mdom(m), kv), z3.Select(S.mval(m), kv) == val), patterns=[z3.Select(S.mval(m), kv)]))
                out.append(Cand(f"closed({name},{P})", mp))
    return out
def is_uconst(t): return z3.is_expr(t) and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
_atoms = {}
def atom(t):
    """a constant equal to the term"""
    if is_uconst(t): return t
    if t.get_id() not in _atoms:
        c = fresh("atm", t.sort()); fact(c, c == t); _atoms[t.get_id()] = (t, c)
    return _atoms[t.get_id()][1]
def consts_in(t):
    out = []; st = [t]; vis = set()
    while st:
        x = st.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_app(x):
            if is_uconst(x): out.append(x)
            st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body())
    return out
def unroll(ex, st0, step, limit=70):
    work = [st0.fork()]; res = []
    for _ in range(limit):
        nxt = []
        for s in work:
            outs = step(s); kinds = {k for k, _, _ in outs}
            its = True
            for k, p, s2 in outs:
                if k == "exit": res.append((p, s2))
                else: nxt.append(s2)
        if not nxt: return res
        if len(nxt) > 24: return None
        if not any(isinstance(v, It) and v.concrete() for s in nxt for v in s.heap.values()): return None
        work = nxt
    return None

def havoc(ex, h, mods, label):
    for (cell, path), (ty, a, b) in mods.items():
        cur = ex.load(h, Ref(cell, path))
        v = havoc_val(ex, h, cur, b, ty, label)
        ex.store(h, Ref(cell, path), v)

def do_loop(ex, fr, st, header):
    if not hasattr(ex, "frames"): ex.frames = {}
    ex.frames[fr.id] = fr
    loop = fr.loops[header]
    def step(s):
        outs = []
        for kind, b, s2 in ex.region(fr, s, header, loop, header):
            if kind == "back": outs.append(("back", None, s2))
            elif kind == "ret": outs.append(("exit", "ret", s2))
            else: outs.append(("exit", b, s2))
        return outs
    return cut_loop(ex, st, step, f"{fr.inst.name.split('::')[-1][:30]}.bb{header}")

# =================================================================== iterators
class Src:
    """indexable source: n (Int term) and at(ex, st, i) -> [(st, value)]"""
    def same(self, o): return self is o
class ListSrc(Src):
    """elements of a list held in a place (yielding references) or of a list value"""
    def __init__(self, term, ety, ref=None, mut=False, by_ref=True): self.t = term; self.ety = ety; self.ref = ref; self.mut = mut; self.by_ref = by_ref
    @property
    def n(self): return blen(self.t) if self.t.sort() == Bytes else llen(self.t)
    def at(self, ex, st, i):
        if self.mut: return [(st, Ref(self.ref.cell, self.ref.path + (("i", i, self.ety),)))]
        v = bat(self.t, i) if self.t.sort() == Bytes else lat(self.t, i)
        if self.ety is not None: ex.T.deep_note(v, self.ety, 2)
        if not self.by_ref: return [(st, v)]
        return [(st, Ref(newc(st, v)))]
    def same(self, o): return isinstance(o, ListSrc) and self.t.eq(o.t) and self.mut == o.mut and self.by_ref == o.by_ref
def newc(st, v):
    from exec import newcell
    return newcell(st, v, "it")
class AggSrc(Src):
    """elements of a concrete array value"""
    def __init__(self, vals, by_ref): self.vals = list(vals); self.by_ref = by_ref; self.n = z3.IntVal(len(self.vals))
    def at(self, ex, st, i):
        k = as_int(i)
        if k is None:
            ts = [ex.term(st, v) for v in self.vals]; t = ts[-1]
            for j in range(len(ts) - 2, -1, -1): t = z3.If(i == j, ts[j], t)
            v = t
        else: v = self.vals[k]
        return [(st, Ref(newc(st, v)) if self.by_ref and not isinstance(v, Ref) else v)]
    def same(self, o): return isinstance(o, AggSrc) and len(o.vals) == len(self.vals) and all(same(a, b) for a, b in zip(self.vals, o.vals))
class RangeSrc(Src):
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi; self.n = z3.simplify(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
    def at(self, ex, st, i): return [(st, z3.simplify(self.lo + i))]
    def same(self, o): return isinstance(o, RangeSrc) and self.lo.eq(o.lo) and self.hi.eq(o.hi)
class OpenRangeSrc(RangeSrc):
    """lo.. : the positions before the counter type's values run out; running out is a panic (or a wrap-around)"""
    open = True
class FnSrc(Src):
    """n and element function"""
    def __init__(self, n, f, key): self.n = n; self.f = f; self.key = key
    def at(self, ex, st, i):
        v = self.f(ex, st, i); return v if isinstance(v, list) else [(st, v)]
    def same(self, o): return isinstance(o, FnSrc) and len(self.key) == len(o.key) and all(x.eq(y) if z3.is_expr(x) and z3.is_expr(y) else x is y or (isinstance(x, str) and x == y) for x, y in zip(self.key, o.key))
class ZipSrc(Src):
    def __init__(self, a, b, ty):
        self.a, self.b, self.ty = a, b, ty
        na, nb = z3.simplify(a.end - a.pos), z3.simplify(b.end - b.pos)
        self.n = na if na.eq(nb) else z3.If(na <= nb, na, nb)
    def at(self, ex, st, i):
        out = []
        for s, x in self.a.elem(ex, st, z3.simplify(self.a.pos + i)):
            for s2, y in self.b.elem(ex, s, z3.simplify(self.b.pos + i)): out.append((s2, Agg(self.ty, 0, [x, y])))
        return out
    def same(self, o): return isinstance(o, ZipSrc) and self.a.same(o.a) and self.b.same(o.b)
class RevSrc(Src):
    def __init__(self, it): self.it = it; self.n = z3.simplify(it.end - it.pos)
    def at(self, ex, st, i): return self.it.elem(ex, st, z3.simplify(self.it.end - 1 - i))
    def same(self, o): return isinstance(o, RevSrc) and self.it.same(o.it)
class ChainSrc(Src):
    def __init__(self, a, b): self.a, self.b = a, b; self.na = z3.simplify(a.end - a.pos); self.n = z3.simplify(self.na + (b.end - b.pos))
    def at(self, ex, st, i):
        out = []
        for s, w in ex.branch(st, [(z3.simplify(i < self.na), 0), (z3.simplify(i >= self.na), 1)]):
            out += self.a.elem(ex, s, z3.simplify(self.a.pos + i)) if w == 0 else self.b.elem(ex, s, z3.simplify(self.b.pos + i - self.na))
        return out
    def same(self, o): return isinstance(o, ChainSrc) and self.a.same(o.a) and self.b.same(o.b)
class WindowSrc(Src): pass

class It:
    """iterator: positions [pos, end) of src, mapped through stages"""
    __slots__ = ("src", "pos", "end", "stages")
    def __init__(self, src, pos=None, end=None, stages=()):
        self.src = src; self.pos = z3.IntVal(0) if pos is None else pos; self.end = src.n if end is None else end; self.stages = tuple(stages)
    def __repr__(self): return f"It({type(self.src).__name__},{self.pos},{self.end},{[s[0] for s in self.stages]})"
    def with_(self, **k):
        d = dict(src=self.src, pos=self.pos, end=self.end, stages=self.stages); d.update(k); return It(**d)
    def compatible(self, o): return self.src.same(o.src) and len(self.stages) == len(o.stages)
    def same(self, o): return self.compatible(o) and self.pos.eq(o.pos) and self.end.eq(o.end)
    def concrete(self):
        p, e = as_int(self.pos), as_int(self.end); return p is not None and e is not None and e - p <= 4096
    def havoc(self, ex, st, other=None):
        p, e = self.pos, self.end
        if other is None or not p.eq(other.pos):
            q = fresh("pos", I); fact(q, q >= 0); st.add(q >= self.pos); p = q
        if other is not None and not e.eq(other.end):
            q = fresh("end", I); st.add(q <= self.end); e = q
        st.add(z3.Or(p <= e, p == self.pos))
        return It(self.src, p, e, self.stages)
    def mapped(self): return not any(s[0] in ("filter", "filter_map", "take_while", "skip_while", "map_while", "flat") for s in self.stages)
    def elem(self, ex, st, i):
        """value at absolute position i through map-like stages; [(st, v)]"""
        outs = []
        for k, s, v in self.full(ex, st, i):
            if k != "yield": raise Unsupported("filtering iterator used positionally")
            outs.append((s, v))
        return outs
    def full(self, ex, st, i):
        """[(yield|skip|stop, st, v)]"""
        cur = [("yield", s, v) for s, v in self.src.at(ex, st, i)]
        for sg in self.stages:
            nxt = []
            for k, s, v in cur:
                if k != "yield": nxt.append((k, s, v)); continue
                nxt += stage(ex, s, sg, v, i)
            cur = nxt
        return cur

def deref(ex, st, v):
    while isinstance(v, Ref): v = ex.load(st, v)
    return v
def boolsplit(ex, st, v):
    b = ex.term(st, v)
    if z3.is_true(b): return [(st, True)]
    if z3.is_false(b): return [(st, False)]
    return ex.branch(st, [(b, True), (z3.Not(b), False)])
def optsplit(ex, st, v, ty):
    """-> [(st, None | value)] for an Option value"""
    v = deref(ex, st, v) if isinstance(v, Ref) else v
    if isinstance(v, Agg): return [(st, v.f[0] if v.v == 1 else None)]
    T = ex.T
    if ty is None: raise Unsupported("option of unknown type")
    out = []
    for s, w in ex.branch(st, [(T.is_v(ty, 1, v), 1), (T.is_v(ty, 0, v), 0)]):
        if w == 0: out.append((s, None))
        else:
            ft = ty.fields(1)[0][1]; out.append((s, T.note(T.acc(ty, 1, 0, v), ft)))
    return out
def stage(ex, st, sg, v, i):
    k = sg[0]
    if k == "map": return [("yield", s, w) for s, w in ex.callv(st, sg[1], [v])]
    if k in ("copied", "cloned"): return [("yield", st, deref(ex, st, v))]
    if k == "filter":
        out = []
        c = newc(st, v)
        for s, w in ex.callv(st, sg[1], [Ref(c)]):
            for s2, b in boolsplit(ex, s, w): out.append(("yield" if b else "skip", s2, v))
        return out
    if k in ("filter_map", "map_while"):
        out = []
        for s, w in ex.callv(st, sg[1], [v]):
            for s2, x in optsplit(ex, s, w, sg[2]):
                out.append(("yield", s2, x) if x is not None else ("skip" if k == "filter_map" else "stop", s2, None))
        return out
    if k == "flat_opt":
        return [("yield", s2, x) if x is not None else ("skip", s2, None) for s2, x in optsplit(ex, st, v, sg[1])]
    if k == "enumerate":   # sg = (enumerate, base, tuple type)
        return [("yield", st, Agg(sg[2], 0, [z3.simplify(i - sg[1]), v]))]
    if k == "inspect":
        c = newc(st, v); return [("yield", s, v) for s, _ in ex.callv(st, sg[1], [Ref(c)])]
    if k == "take_while":
        out = []; c = newc(st, v)
        for s, w in ex.callv(st, sg[1], [Ref(c)]):
            for s2, b in boolsplit(ex, s, w): out.append(("yield" if b else "stop", s2, v))
        return out
    raise Unsupported("iterator stage " + k)

def advance(ex, st, itref):
    """one raw position of the iterator stored at itref -> [(kind end|yield|skip|stop, st, v)]"""
    it = deref(ex, st, itref)
    if not isinstance(it, It): raise Unsupported("iterator value " + type(it).__name__)
    outs = []
    for s, w in ex.branch(st, [(z3.simplify(it.pos < it.end), 1), (z3.simplify(it.pos >= it.end), 0)]):
        if w == 0:
            if getattr(it.src, "open", False) and it.end.eq(it.src.n): ex.c.oblige("no-overflow[open range]", s, z3.BoolVal(False)); continue
            outs.append(("end", s, None)); continue
        set_it(ex, s, itref, it.with_(pos=z3.simplify(it.pos + 1)))
        outs += it.full(ex, s, it.pos)
    return outs
def set_it(ex, st, itref, it):
    r = itref
    while True:
        v = ex.load(st, r)
        if isinstance(v, Ref): r = v
        else: break
    ex.store(st, r, it)
def next_(ex, st, itref):
    """[(st, value or None)]"""
    it = deref(ex, st, itref)
    if not isinstance(it, It): raise Unsupported("next on " + type(it).__name__)
    if it.mapped():
        return [(s, v if k == "yield" else None) for k, s, v in advance(ex, st, itref)]
    def step(s):
        o = []
        for k, s2, v in advance(ex, s, itref):
            if k == "skip": o.append(("back", None, s2))
            else: o.append(("exit", (v if k == "yield" else None), s2))
        return o
    return [(s, p) for p, s in cut_loop(ex, st, step, "next")]
def consume(ex, st, it, body, label, cells=()):
    """synthetic loop: for x in it { body(st, x) -> [('next', st)|('done', st, payload)] }; [(st, payload|None)]"""
    if isinstance(it.src, ChainSrc) and as_int(it.pos) == 0 and it.end.eq(it.src.n) and not any(s[0] in ("take_while", "map_while", "skip_while", "enumerate") for s in it.stages):
        # a whole chain: its first part, then its second
        a, b = (x.with_(stages=x.stages + it.stages) for x in (it.src.a, it.src.b)); out = []
        tag = lambda s, v: [r if r[0] == "next" else ("done", r[1], (r[2],)) for r in body(s, v)]
        for s, p in consume(ex, st, a, tag, label, cells):
            if p is not None: out.append((s, p[0]))
            else: out += consume(ex, s, b, body, label, cells)
        return out
    c = newc(st, it)
    def step(s):
        o = []
        for k, s2, v in advance(ex, s, Ref(c)):
            if k in ("end", "stop"): o.append(("exit", None, s2))
            elif k == "skip": o.append(("back", None, s2))
            else:
                for r in body(s2, v):
                    if r[0] == "next": o.append(("back", None, r[1]))
                    else: o.append(("exit", r[2], r[1]))
        return o
    return [(s, p) for p, s in cut_loop(ex, st, step, label)]
