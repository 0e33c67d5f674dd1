"""Symbolic executor for rustc's MIR (monomorphic), generating proof obligations."""
import z3, time, os
from core import *
from values import *
from mir import canon, Inst
import core

RSCALE = 1.0; RSEED = 0
class State:
    __slots__ = ("heap", "pc", "tag")
    def __init__(self, heap=None, pc=(), tag=()): self.heap = heap or {}; self.pc = pc; self.tag = tag
    def fork(self): return State(dict(self.heap), self.pc, self.tag)
    def add(self, f):
        if z3.is_true(f): return self
        self.pc = self.pc + (f,); return self
_cell = [0]
def newcell(st, v, hint="c"):
    _cell[0] += 1; c = f"{hint}#{_cell[0]}"; st.heap[c] = v; return c

class Obl:
    __slots__ = ("name", "hyps", "goal", "res", "time", "kind", "model")
    def __init__(self, name, hyps, goal, kind): self.name = name; self.hyps = hyps; self.goal = goal; self.res = None; self.time = 0; self.kind = kind; self.model = None

class Ctx:
    """one verification run of one function"""
    def __init__(self, prog, T, models, contracts, unfold=()):
        self.prog = prog; self.T = T; self.models = models; self.contracts = contracts
        self.obls = []; self.cands = None; self.used = {"contracts": set(), "models": set(), "inlined": set(), "loops": 0}
        self.nq = 0; self.tq = 0.0; self.deadline = None; self.fname = "?"; self.inline_local = set(); self.depth = 0; self.nfork = 0
        self.base = ()
        self.accs = []; self.havocs = 0; self.discover = 0; self.final = False
    # ------------------------------------------------ solver
    def check(self, fs, timeout, quant=True):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
        sc = RSCALE if self.final else min(RSCALE, 1.5)
        t0 = time.time(); s = z3.Solver(); s.set("rlimit", int(timeout * 10000 * sc)); s.set("timeout", int(timeout * 3 * sc)); s.set("smt.mbqi", False) if quant else None   # resource-bounded: the verdict does not depend on the machine's speed
        if RSEED: s.set("smt.random_seed", RSEED)
        for f in fs:
            s.add(f)
        r = s.check(); self.nq += 1; self.tq += time.time() - t0
        return r, s
    reads = None
    def watch(self, fs):
        """records every use of a watched argument other than through the parts it may be read by"""
        t, ok, seen, bad = self.reads; work = list(fs)
        while work:
            x = work.pop()
            if x.get_id() in seen: continue
            seen[x.get_id()] = x
            if z3.is_quantifier(x): work.append(x.body()); continue
            for c in x.children():
                if c.eq(t):
                    if not (z3.is_app(x) and any(x.decl().eq(d) for d in ok)): bad.append(x)
                else: work.append(c)
    def feasible(self, st, extra=None):
        if self.reads: self.watch(list(st.pc) + ([extra] if extra is not None else []))
        fs = list(self.base) + list(st.pc) + ([extra] if extra is not None else [])
        if extra is not None:
            e = z3.simplify(extra)
            if z3.is_false(e): return False
        fs = [f for f in FACTS.close([f for f in fs if not has_q(f)], lazy=False) if not has_q(f)]
        r, _ = self.check(fs, 1500, False)
        return r != z3.unsat
    def prove(self, hyps, goal, timeout=10000, want_model=False):
        g = z3.simplify(goal)
        if z3.is_true(g): return "proved", None
        hy = list(self.base) + list(hyps)
        if self.reads: self.watch(hy + [goal])
        for lazy in (False, True):
            fs = FACTS.close(hy + [z3.Not(goal)], lazy=lazy)
            r, s = self.check(fs, timeout)
            if r == z3.unsat: return "proved", None
        if r == z3.sat: return "refuted", (s.model() if want_model else None)
        # quantified context: is the quantifier-free part already satisfiable?
        return "unknown", None
    def oblige(self, name, st, goal, kind="panic"):
        self.obls.append(Obl(f"{self.fname}::{name}", tuple(st.pc), goal, kind))

_hq = {}
def has_q(f):
    k = f.get_id()
    if k in _hq: return _hq[k][1]
    if z3.is_quantifier(f): r = True
    else: r = any(has_q(c) for c in f.children())
    _hq[k] = (f, r); return r

# ------------------------------------------------------------------- CFG utilities
def succs(b):
    t = b["terminator"]["kind"]
    if isinstance(t, str): return []
    k, v = next(iter(t.items()))
    if k == "Goto": return [v["target"]]
    if k == "SwitchInt": return [x[1] for x in v["targets"]["branches"]] + [v["targets"]["otherwise"]]
    if k in ("Drop", "Assert"): return [v["target"]]
    if k == "Call": return [] if v["target"] is None else [v["target"]]
    return []
def cfg(body):
    if hasattr(body, "_loops"): return body._loops
    n = len(body.blocks); sc = [succs(b) for b in body.blocks]
    reach = []; seen = {0}; st = [(0, iter(sc[0]))]
    while st:
        x, it = st[-1]
        for y in it:
            if y not in seen: seen.add(y); st.append((y, iter(sc[y]))); break
        else: reach.append(x); st.pop()
    rpo = reach[::-1]; pred = {x: [] for x in rpo}
    for x in rpo:
        for y in sc[x]: pred[y].append(x)
    dom = {x: set(rpo) for x in rpo}; dom[0] = {0}; ch = True
    while ch:
        ch = False
        for x in rpo:
            if x == 0: continue
            d = set.intersection(*[dom[p] for p in pred[x]]) | {x}
            if d != dom[x]: dom[x] = d; ch = True
    loops = {}
    for x in rpo:
        for y in sc[x]:
            if y in dom[x]:
                l = loops.setdefault(y, {y}); w = [x]
                while w:
                    z = w.pop()
                    if z not in l: l.add(z); w.extend(pred[z])
    body._loops = loops; body._live = None
    return loops

def addr_free(body):
    """locals whose address is never taken (the others may outlive the frame through a stored reference's cell)"""
    r = getattr(body, "_addr_free", None)
    if r is None:
        taken = set()
        for b in body.blocks:
            for st in b["statements"]:
                k = st["kind"]
                if isinstance(k, dict) and "Assign" in k:
                    rv = k["Assign"][1]
                    if isinstance(rv, dict):
                        for nm in ("Ref", "AddressOf", "RawPtr"):
                            if nm in rv:
                                taken.add(rv[nm][-1]["local"])   # also `&*l`: l may hold a reference erased to its value
        r = body._addr_free = [l for l in range(len(body.locals)) if l not in taken]
    return r
class Frame:
    __slots__ = ("inst", "body", "id", "loops")
    n = 0
    def __init__(self, inst):
        Frame.n += 1; self.id = Frame.n; self.inst = inst; self.body = inst.body; self.loops = cfg(inst.body)
    def cell(self, l): return ("l", self.id, l)

class Exec:
    def __init__(self, ctx): self.c = ctx; self.T = ctx.T; self.prog = ctx.prog
    # ------------------------------------------------ values <-> terms
    def term(self, st, v, ty=None):
        """z3 term of a value (references erased to the value they point to)"""
        if z3.is_expr(v): return v
        if isinstance(v, Ref): return self.term(st, self.load(st, v))
        if isinstance(v, BV): return v.term()
        if isinstance(v, Agg):
            k = self.T.kind(v.ty)
            if k == "unit": return UNIT
            if k in ("bytes", "real", "box"): return self.term(st, v.f[0])
            if k == "list": 
                l = lempty(self.T.sort(self.T.elem(v.ty)))
                for x in v.f: l = lpush(l, self.term(st, x))
                return l
            if v.ty.k == "tuple":
                ts = [self.term(st, x) for x in v.f]; return self.T.tupsort([t.sort() for t in ts]).constructor(0)(*ts)
            return self.T.mk(v.ty, v.v, *[self.term(st, x) for x in v.f])
        if hasattr(v, "to_term"): return v.to_term(self, st)
        if isinstance(v, Opaque):
            raise Unsupported(f"opaque value {v.name} used as data")
        raise Unsupported(f"no term for {type(v).__name__} {v if not isinstance(v, Poison) else v.why}")
    # ------------------------------------------------ places
    def proj(self, st, v, e):
        k = e[0]
        if k == "f" and isinstance(v, BoxU): return v
        if k == "f":
            _, vi, i, ty, oty = e
            if isinstance(v, Agg):
                if vi is not None and v.v != vi and self.T.nvars(v.ty) > 1: raise Unsupported("field of wrong variant")
                return v.f[i]
            if isinstance(v, Ref): return self.proj(st, self.load(st, v), e)
            if z3.is_expr(v):
                if oty.k == "adt" and self.T.kind(oty) in ("bytes", "real", "box", "opaque", "list"):
                    if self.T.kind(oty) == "opaque": raise Unsupported("field of opaque " + oty.name)
                    return v
                r = self.T.acc(oty, vi or 0, i, v); return self.T.note(r, ty)
            if isinstance(v, BV): return v
            if hasattr(v, "field"): return v.field(self, st, i)
            raise Unsupported(f"project field of {type(v).__name__}:{oty.name[:60]}")
        if k == "i":
            t = v
            if isinstance(t, Ref): t = self.load(st, t)
            if isinstance(t, BV) or z3.is_expr(t) and t.sort() == Bytes: return bat(self.term(st, t), e[1])
            if isinstance(t, Agg):
                n = as_int(e[1])
                if n is not None: return t.f[n]
                t = self.term(st, t)
            r = lat(t, e[1]); return self.T.note(r, e[2]) if e[2] is not None else r
        if k == "s":   # subslice
            t = self.term(st, v); return self.slice(t, e[1], e[2])
        if k == "k":
            t = self.term(st, v); r = mget(t, e[1]); return self.T.note(r, e[2]) if e[2] is not None else r
        raise Unsupported("proj " + k)
    def slice(self, t, lo, hi):
        if t.sort() == Bytes: return bslice(t, lo, hi)
        if as_int(lo) == 0 and z3.is_true(simp(hi == llen(t))): return t
        s = L(t.sort()); f = UF(f"lslice<{t.sort()}>", t.sort(), I, I, t.sort()); r = f(t, lo, hi); j = z3.Const("lsl_j", I)
        fact(r, s.llen(r) == hi - lo); fact(r, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < hi - lo), z3.Select(s.larr(r), j) == lat(t, lo + j)), patterns=[z3.Select(s.larr(r), j)]))
        return r
    def load(self, st, r):
        if r.cell not in st.heap: raise Unsupported(f"dead cell {r.cell}")
        v = st.heap[r.cell]
        for e in r.path: v = self.proj(st, v, e)
        return v
    def upd(self, st, v, path, x):
        if not path: return x
        e = path[0]; k = e[0]
        if isinstance(v, Ref):   # box/erased reference boundary: write through
            self.store(st, Ref(v.cell, v.path + tuple(path)), x); return v
        if k == "f" and isinstance(v, Poison) and v.why == "uninit": return self.upd(st, v, path[1:], x)
        if k == "f":
            _, vi, i, ty, oty = e
            if isinstance(v, Agg):
                f = list(v.f); f[i] = self.upd(st, f[i], path[1:], x); return Agg(v.ty, v.v, f)
            if z3.is_expr(v):
                if oty.k == "adt" and self.T.kind(oty) in ("bytes", "real", "box"): return self.upd(st, v, path[1:], x)
                vi = vi or 0; n = len(self.T.vfields(oty, vi))
                fs = [self.T.acc(oty, vi, j, v) for j in range(n)]
                fs[i] = self.upd(st, fs[i], path[1:], x)
                return Agg(oty, vi, fs)
        if k == "i":
            if isinstance(v, Agg) and as_int(e[1]) is not None:
                f = list(v.f); n = as_int(e[1]); f[n] = self.upd(st, f[n], path[1:], x); return Agg(v.ty, v.v, f)
            t = self.term(st, v)
            if t.sort() == Bytes: return self.bwrite(t, e[1], z3.simplify(e[1] + 1), be(1, self.term(st, x)))
            return lset(t, e[1], self.term(st, self.upd(st, lat(t, e[1]), path[1:], x)))
        if k == "k":
            t = self.term(st, v); return mput(t, e[1], self.term(st, self.upd(st, mget(t, e[1]), path[1:], x)))
        if k == "s":
            t = self.term(st, v)
            if t.sort() == Bytes:
                new = self.term(st, self.upd(st, bslice(t, e[1], e[2]), path[1:], x))
                return self.bwrite(t, e[1], e[2], new)
        raise Unsupported(f"update {k} of {type(v).__name__}")
    def bwrite(self, t, lo, hi, new):
        l, h = as_int(lo), as_int(hi); n = klen(t)
        if l is None or h is None or n is None: raise Unsupported("symbolic byte range write")
        return setlen(cat(bslice(t, 0, l), new, bslice(t, h, n)), n)
    def store(self, st, r, x):
        if r.path:
            st.heap[r.cell] = self.upd(st, st.heap[r.cell], r.path, x)
        else: st.heap[r.cell] = x
    def place(self, st, fr, p):
        """(Ref to the place, type)"""
        cell = fr.cell(p["local"]); path = (); ty = self.prog.types[fr.body.locals[p["local"]]["ty"]]; vi = None
        for e in p["projection"]:
            if e == "Deref":
                v = self.load(st, Ref(cell, path))
                if isinstance(v, Ref): cell, path = v.cell, v.path
                elif isinstance(v, BoxU): cell, path = v.cell, ()
                elif ty.k == "ref" and ty.d.get("mut"): raise Unsupported("mutable reference erased")
                ty = ty.args()[0] if self.T.kind(ty) == "box" else ty.elem
                vi = None
            elif "Field" in e:
                i, t = e["Field"]; fty = self.prog.types[t]
                if ty.k == "coroutine":   # every captured and saved variable of an async body is a place of its own
                    if path or cell[0] != "gen": raise Unsupported("coroutine outside its declared state")
                    cell = cell[:2] + (vi, i); ty = fty; vi = None; continue
                path = path + (("f", vi, i, fty, ty),); ty = fty; vi = None
            elif "Downcast" in e: vi = e["Downcast"]
            elif "Index" in e:
                i = self.term(st, st.heap[fr.cell(e["Index"])]); ty = ty.elem; path = path + (("i", i, ty),)
            elif "ConstantIndex" in e:
                d = e["ConstantIndex"]; et = ty.elem
                if d["from_end"]:
                    t = self.term(st, self.load(st, Ref(cell, path))); i = (blen(t) if t.sort() == Bytes else llen(t)) - d["offset"]
                else: i = z3.IntVal(d["offset"])
                ty = et; path = path + (("i", i, ty),)
            else: raise Unsupported("place projection " + str(e))
        return Ref(cell, path), ty
    # ------------------------------------------------ constants
    def alloc_bytes(self, aid):
        a = self.prog.allocs.get(aid)
        if a is None or "mem" not in a: raise Unsupported("allocation kind")
        import json
        if isinstance(a["mem"], str): a["mem"] = json.loads(a["mem"])
        return a["mem"]
    def const(self, st, c):
        ty = self.prog.types[c["ty"]]; k = c["kind"]
        if k == "ZeroSized": return self.zst(ty)
        if isinstance(k, dict) and "Allocated" in k: return self.decode(st, k["Allocated"], 0, ty)
        raise Unsupported(f"constant {k}")
    def zst(self, ty):
        if ty.k == "fndef": return FnV(ty)
        if ty.k == "tuple" and not ty.d["elems"]: return UNIT
        if ty.k == "closure": return Agg(ty, 0, ())
        if ty.k == "adt" and len(ty.d["variants"]) <= 1:
            return Agg(ty, 0, [self.zst(t) for _, t in ty.fields(0)]) if ty.d["variants"] and self.T.kind(ty) == "dt" else Opaque(ty.name)
        if ty.k == "array" and ty.d["len"] == 0: return EMPTY if self.T.kind(ty) == "bytes" else lempty(self.T.sort(ty.elem))
        if ty.k == "adt":  # enum with a single inhabited zero-sized variant
            return Agg(ty, 0, [self.zst(t) for _, t in ty.fields(0)])
        raise Unsupported("zst " + ty.name)
    def size(self, ty):
        l = ty.layout
        if l is None: raise Unsupported("no layout " + ty.name)
        s = l["size"]; return s["num_bits"] // 8 if isinstance(s, dict) else s
    def decode(self, st, a, off, ty):
        bs = a["bytes"]; prov = {o: p for o, p in a["provenance"]["ptrs"]}
        k = self.T.kind(ty)
        def raw(n):
            x = bs[off:off+n]
            return None if any(b is None for b in x) else bytes(x)
        if k in ("int", "bool"):
            n = self.size(ty); b = raw(n)
            if b is None: raise Unsupported("uninit const")
            v = int.from_bytes(b, "little", signed=ty.k == "int")
            return z3.BoolVal(bool(v)) if k == "bool" else z3.IntVal(v)
        if k == "ref":
            if ty.elem.k == "fndef" or off not in prov:
                b = raw(8)
                if b is None or off not in prov:
                    # dangling pointer to a zero-sized value / empty slice
                    e = ty.elem
                    if e.k in ("slice", "str"): return EMPTY if self.T.kind(e) == "bytes" else lempty(self.T.sort(e.elem))
                    return Ref(newcell(st, self.zst(e), "k"))
            aid = prov[off]; e = ty.elem; base = int.from_bytes(raw(8), "little")
            m = self.prog.allocs.get(aid)
            if m is None or "mem" not in m: return Opaque("const " + e.name)
            m = self.alloc_bytes(aid)
            if e.k in ("str", "slice"):
                n = int.from_bytes(bytes(bs[off+8:off+16]), "little")
                if self.T.kind(e) == "bytes": return lit(bytes(m["bytes"][base:base+n]))
                sz = self.size(e.elem); l = Agg(ArrTy(e.elem, n), 0, [self.decode(st, m, base + i*sz, e.elem) for i in range(n)])
                return self.term(st, l)
            if e.k == "dyn": return Opaque("const dyn")
            return Ref(newcell(st, self.decode(st, m, base, e), "k"))
        if k == "bytes" and ty.k == "array":
            b = raw(ty.d["len"])
            if b is None: raise Unsupported("uninit const")
            return lit(b)
        if k == "list" and ty.k == "array":
            sz = self.size(ty.elem); return Agg(ty, 0, [self.decode(st, a, off + i*sz, ty.elem) for i in range(ty.d["len"])])
        if ty.k in ("adt", "tuple"):
            sz = self.size(ty)
            if ty.k == "adt" and adt_key(ty)[1] == "Hrp":
                from models_btc import hrp_const
                return hrp_const(self, ty, [self.decode(st, a, off + o, t) for o, (_, t) in zip(self.offsets(ty), ty.fields(0))])
            if ty.k == "adt" and k in ("real", "opaque"):
                b = raw(sz)
                if b is None: raise Unsupported("const " + ty.name)
                if adt_key(ty)[1] in ("Midstate", "Hash"): return lit(b)
                return ConstRaw(ty, b).value(self)
            if ty.k == "adt" and len(ty.d["variants"]) > 1:
                return self.decode_enum(st, a, off, ty)
            offs = self.offsets(ty)
            fs = self.T.vfields(ty)
            return Agg(ty, 0, [self.decode(st, a, off + offs[i], t) for i, (_, t) in enumerate(fs)])
        raise Unsupported("const of type " + ty.name[:80])
    def offsets(self, ty):
        sh = ty.layout["fields"]
        return [o["num_bits"] // 8 if isinstance(o, dict) else o for o in sh["Arbitrary"]["offsets"]] if isinstance(sh, dict) and "Arbitrary" in sh else []
    def decode_enum(self, st, a, off, ty):
        l = ty.layout; vs = l["variants"]
        if "Single" in vs:
            i = vs["Single"]["index"]; i = i if isinstance(i, int) else 0
            return Agg(ty, i, [self.decode(st, a, off, t) for _, t in ty.fields(i)])
        m = vs["Multiple"]; enc = m["tag_encoding"]; tagf = m["tag_field"]
        sh = l["fields"]["Arbitrary"]["offsets"]; to = sh[tagf if isinstance(tagf, int) else 0]; to = to["num_bits"] // 8 if isinstance(to, dict) else to
        tag = m["tag"]; prim = (tag.get("Initialized") or tag.get("Union"))["value"]
        if "Int" in prim: n = {"I8": 1, "I16": 2, "I32": 4, "I64": 8}[prim["Int"]["length"]]
        else: n = 8
        prov = {o for o, p in a["provenance"]["ptrs"]}
        b = a["bytes"][off+to:off+to+n]
        if any(x is None for x in b): raise Unsupported("uninit tag")
        v = int.from_bytes(bytes(b), "little")
        if enc == "Direct":
            for i, vv in enumerate(ty.d["variants"]):
                if int(vv["discr"]) % (1 << 8*n) == v:
                    idx = i; break
            else: raise Unsupported("tag")
        else:
            nn = enc["Niche"]; nv = nn["niche_variants"]; s0 = nv["start"]; e0 = nv["end"]; start = nn["niche_start"]; 
            rel = (v - start) % (1 << 8*n)
            idx = s0 + rel if rel <= e0 - s0 and (off + to) not in prov else nn["untagged_variant"]
        var = m["variants"][idx]; fsh = var["fields"] if "fields" in var else None
        offs = []
        if isinstance(fsh, dict) and "Arbitrary" in fsh: offs = [o["num_bits"] // 8 if isinstance(o, dict) else o for o in fsh["Arbitrary"]["offsets"]]
        elif "offsets" in var: offs = [o["num_bits"] // 8 if isinstance(o, dict) else o for o in var["offsets"]]
        return Agg(ty, idx, [self.decode(st, a, off + offs[i], t) for i, (_, t) in enumerate(ty.fields(idx))])
    # ------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        k, v = next(iter(o.items()))
        if k in ("Copy", "Move"):
            r, ty = self.place(st, fr, v); return self.load(st, r)
        if k == "Constant":
            x = self.const(st, v["const_"])
            return self.fixraw(x)
        raise Unsupported("operand " + k)
    def fixraw(self, x):
        if isinstance(x, ConstRaw): return x.value(self)
        return x
    def optype(self, fr, o):
        k, v = next(iter(o.items()))
        if k == "Constant": return self.prog.types[v["const_"]["ty"]]
        ty = self.prog.types[fr.body.locals[v["local"]]["ty"]]
        for e in v["projection"]:
            if e == "Deref": ty = ty.args()[0] if self.T.kind(ty) == "box" else ty.elem
            elif "Field" in e: ty = self.prog.types[e["Field"][1]]
            elif "Index" in e or "ConstantIndex" in e: ty = ty.elem
        return ty
    def snorm(self, x, ty):
        """raw (zero-extended) switch / discriminant value -> mathematical value at integer type ty"""
        try: lo, hi = self.T.intrange(ty)
        except Exception: return x
        if lo < 0 and x > hi:
            n = hi - lo + 1; x %= n
            if x > hi: x -= n
        return x
    def rvalue(self, st, fr, r, dty):
        k, v = next(iter(r.items()))
        if k == "Use": return self.operand(st, fr, v[0] if isinstance(v, list) else v)
        if k == "Ref":
            rf, ty = self.place(st, fr, v[2])
            return rf
        if k == "CopyForDeref":
            rf, _ = self.place(st, fr, v); return self.load(st, rf)
        if k in ("AddressOf", "RawPtr"):
            rf, _ = self.place(st, fr, v[-1]); return rf
        if k == "Aggregate":
            a, ops = v; fs = [self.operand(st, fr, o) for o in ops]
            if isinstance(a, dict) and "Adt" in a:
                return Agg(dty, a["Adt"][1], fs)
            if isinstance(a, dict) and "Array" in a:
                if self.T.kind(dty) == "bytes":
                    return setlen(cat(*[be(1, self.term(st, x)) for x in fs]), len(fs))
                return Agg(dty, 0, fs)
            if a == "Tuple": return Agg(dty, 0, fs) if fs else UNIT
            if isinstance(a, dict) and "Closure" in a: return Agg(dty, 0, fs)
            raise Unsupported("aggregate " + str(a)[:40])
        if k in ("BinaryOp", "CheckedBinaryOp"):
            op, x, y = v; ty = self.optype(fr, x); X = self.term(st, self.operand(st, fr, x)); Y = self.term(st, self.operand(st, fr, y))
            return self.binop(st, op, X, Y, ty, k[0] == "C", dty)
        if k == "UnaryOp":
            op, x = v; X = self.operand(st, fr, x)
            if op == "Not":
                X = self.term(st, X)
                if X.sort() == B: return z3.Not(X) if not z3.is_true(X) and not z3.is_false(X) else z3.BoolVal(z3.is_false(X))
                lo, hi = self.T.intrange(dty); return hi - X if lo == 0 else -1 - X
            if op == "PtrMetadata":
                t = self.term(st, X); return blen(t) if t.sort() == Bytes else llen(t)
            raise Unsupported("unary " + str(op))
        if k == "Discriminant":
            rf, ty = self.place(st, fr, v)
            if ty.k == "coroutine": return st.heap[rf.cell[:2] + ("state",)]
            x = self.load(st, rf)
            if isinstance(x, Ref): x = self.load(st, x)
            ds = lambda w: z3.IntVal(self.snorm(int(w["discr"]), dty))
            if isinstance(x, Agg): return ds(x.ty.d["variants"][x.v]) if x.ty.k == "adt" else z3.IntVal(0)
            x = self.term(st, x); vs = ty.d["variants"]; out = ds(vs[-1])
            for i in range(len(vs) - 2, -1, -1): out = z3.If(self.T.is_v(ty, i, x), ds(vs[i]), out)
            return out
        if k == "Len":
            rf, _ = self.place(st, fr, v); t = self.term(st, self.load(st, rf)); return blen(t) if t.sort() == Bytes else llen(t)
        if k == "Repeat":
            x = self.operand(st, fr, v[0]); n = dty.d["len"]
            if self.T.kind(dty) == "bytes":
                x = self.term(st, x); c = as_int(x)
                if c is not None: return lit(bytes([c]) * n)
            return Agg(dty, 0, [x] * n)
        if k == "Cast":
            ck, o, t = v; x = self.operand(st, fr, o); ty = self.prog.types[t]
            if isinstance(x, BoxU): return x if ck in ("BoxDerefTransmute", "PtrToPtr", "Transmute") and ty.k == "ptr" else self.T.note(fresh("addr", I), ty)
            if ck == "BoxDerefTransmute": return x
            if ck == "Transmute" and ty.name == "usize" and self.optype(fr, o).k == "ptr": return self.T.note(fresh("addr", I), ty)
            if isinstance(ck, dict) and "PointerCoercion" in ck: 
                if ck["PointerCoercion"] == "Unsize" or "ReifyFnPointer" in str(ck) or "Closure" in str(ck): return x
            if ck == "IntToInt":
                x = self.term(st, x)
                sty = self.optype(fr, o)
                if x.sort() == B: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
                if ty.k in ("int", "uint"):
                    lo, hi = self.T.intrange(ty); slo, shi = self.T.intrange(sty)
                    if slo >= lo and shi <= hi: return x
                    m = hi - lo + 1
                    return x % m if lo == 0 else z3.If(x % m > hi, x % m - m, x % m)
            if ck in ("PtrToPtr",): return x
            if ck == "Transmute" and (isinstance(x, Opaque) or isinstance(x, Ref) and not x.path and isinstance(st.heap.get(x.cell), Opaque)): return x   # a pointer to something only passed on
            raise Unsupported("cast " + str(ck))
        raise Unsupported("rvalue " + k)
    def binop(self, st, op, X, Y, ty, checked, dty):
        if op in ("Eq", "Ne"):
            e = X == Y
            if z3.is_int_value(X) and z3.is_int_value(Y): e = z3.BoolVal(X.as_long() == Y.as_long())
            return e if op == "Eq" else z3.Not(e)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if X.sort() != I: raise Unsupported("compare")
            return {"Lt": X < Y, "Le": X <= Y, "Gt": X > Y, "Ge": X >= Y}[op]
        if op == "Cmp": return self.ordering(dty, X < Y, X == Y)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if X.sort() == B: return {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](X, Y)
            lo, hi = self.T.intrange(ty); n = (hi + 1).bit_length() - 1
            y = as_int(Y)
            if op == "BitAnd" and y is not None and (y & (y + 1)) == 0: return X % (y + 1)
            f = UF(f"{op}{n}", I, I, I); a, b = sorted([X, Y], key=lambda t: t.get_id()); r = f(a, b); fact(r, z3.And(r >= 0, r <= hi)); return r
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked"):
            v = {"A": lambda: X + Y, "S": lambda: X - Y, "M": lambda: X * Y}[op[0]]()
            if as_int(X) is not None and as_int(Y) is not None: v = z3.simplify(v)
            lo, hi = self.T.intrange(ty)
            if checked: return Agg(dty, 0, [v, z3.simplify(z3.Or(v < lo, v > hi))])
            return v % (hi + 1) if lo == 0 else v
        if op in ("Div", "Rem"):
            if self.T.intrange(ty)[0] < 0: raise Unsupported("signed division")
            return X / Y if op == "Div" else X % Y
        if op in ("Shr", "ShrUnchecked", "Shl", "ShlUnchecked"):
            k = as_int(Y); lo, hi = self.T.intrange(ty)
            if k is not None and lo == 0 and 0 <= k < hi.bit_length(): return X / (1 << k) if op[:3] == "Shr" else (X * (1 << k)) % (hi + 1)
            f = UF(f"{op[:3]}{hi}", I, I, I); r = f(X, Y); fact(r, z3.And(r >= lo, r <= hi)); return r
        raise Unsupported("binop " + op)
    def ordering(self, ty, lt, eq):
        return z3.If(lt, self.T.mk(ty, 0), z3.If(eq, self.T.mk(ty, 1), self.T.mk(ty, 2)))
    # ------------------------------------------------ control
    def branch(self, st, conds):
        """split st over [(cond, payload)] keeping feasible branches"""
        out = []
        live = [(c, p) for c, p in conds if not z3.is_false(z3.simplify(c))]
        for c, p in live:
            if len(live) == 1 or self.c.feasible(st, c):
                s = st.fork() if len(live) > 1 else st
                if not z3.is_true(z3.simplify(c)): s.add(c)
                out.append((s, p))
        self.c.nfork += max(0, len(out) - 1)
        if self.c.nfork > 6000: raise Unsupported("too many paths")
        return out
    def run_fn(self, inst, args, st):
        """execute the real body; returns [(state, value)]"""
        body = inst.body
        if body is None: raise Unsupported("no body for " + inst.name[:120])
        self.c.depth += 1
        if self.c.depth > 60: raise Unsupported("call depth")
        fr = Frame(inst)
        for i, a in enumerate(args): st.heap[fr.cell(i + 1)] = a
        if len(args) != body.arg_count: raise Unsupported(f"arity of {inst.name[:80]}")
        try:
            outs = self.region(fr, st, 0, None, None)
        finally: self.c.depth -= 1
        res = []
        for kind, b, s in outs:
            v = s.heap.get(fr.cell(0), UNIT)
            v = self.escape(s, fr, v)
            for l in addr_free(body): s.heap.pop(fr.cell(l), None)
            res.append((s, v))
        return res
    def escape(self, st, fr, v):
        """a returned reference into the callee frame cannot exist in safe Rust, except through promoted temporaries"""
        return v
    def region(self, fr, st, bb, loop, header):
        """run from bb; stop at back-edges to `header` and at exits of `loop`. -> [(kind, block, state)]"""
        outs = []; work = [(bb, st, True)]
        while work:
            b, s, first = work.pop()
            if loop is not None and b not in loop: outs.append(("exit", b, s)); continue
            if header is not None and b == header and not first: outs.append(("back", b, s)); continue
            if b in fr.loops and not (b == header and first):
                for (b2, s2) in self.loop(fr, s, b): 
                    if b2 == "ret": outs.append(("ret", None, s2))
                    else: work.append((b2, s2, False))
                continue
            for nb, ns in self.block(fr, s, b):
                if nb == "ret": outs.append(("ret", None, ns))
                else: work.append((nb, ns, False))
        return outs
    def block(self, fr, st, b):
        """execute one basic block; -> [(next block | 'ret', state)]"""
        if self.c.deadline and time.time() > self.c.deadline: raise Unsupported("time budget exhausted")
        blk = fr.body.blocks[b]
        for s in blk["statements"]:
            k = s["kind"]
            if isinstance(k, str): continue
            kk = next(iter(k))
            if kk == "Assign":
                p, r = k["Assign"]
                rf, ty = self.place(st, fr, p) if p["projection"] else (Ref(fr.cell(p["local"])), self.prog.types[fr.body.locals[p["local"]]["ty"]])
                self.store(st, rf, self.rvalue(st, fr, r, ty))
            elif kk == "StorageDead": st.heap.pop(fr.cell(k[kk]), None) if False else None
            elif kk in ("StorageLive", "FakeRead", "Retag", "AscribeUserType", "Coverage", "ConstEvalCounter", "Nop", "PlaceMention", "Intrinsic"):
                if kk == "Intrinsic" and "Assume" not in str(k): raise Unsupported("intrinsic " + str(k)[:60])
            elif kk == "SetDiscriminant":
                rf, ty = self.place(st, fr, k[kk]["place"])
                if ty.k != "coroutine": raise Unsupported("SetDiscriminant")
                st.heap[rf.cell[:2] + ("state",)] = z3.IntVal(k[kk]["variant_index"])
            else: raise Unsupported("statement " + kk)
        t = blk["terminator"]["kind"]
        if t == "Return": return [("ret", st)]
        if t == "Unreachable": return []
        if isinstance(t, str): raise Unsupported("terminator " + t)
        k, v = next(iter(t.items()))
        if k == "Goto": return [(v["target"], st)]
        if k == "Drop": return [(v["target"], st)]
        if k == "Assert":
            if self.msg(v["msg"]) in ("MisalignedPointerDereference", "NullPointerDereference"): return [(v["target"], st)]   # debug checks of the compiler on raw pointers
            c = self.term(st, self.operand(st, fr, v["cond"])); g = c if v["expected"] else z3.Not(c)
            self.c.oblige(f"no-panic[{self.msg(v['msg'])}]", st, g)
            st.add(g)
            return [(v["target"], st)] if not z3.is_false(z3.simplify(g)) else []
        if k == "SwitchInt":
            d = self.term(st, self.operand(st, fr, v["discr"])); br = v["targets"]["branches"]; conds = []
            if d.sort() == B: d = z3.If(d, z3.IntVal(1), z3.IntVal(0)) if not (z3.is_true(d) or z3.is_false(d)) else z3.IntVal(1 if z3.is_true(d) else 0)
            n = as_int(d); dt = self.optype(fr, v["discr"])
            if n is not None:
                for x, y in br:
                    if self.snorm(x, dt) == n: return [(y, st)]
                return [(v["targets"]["otherwise"], st)]
            ty = self.optype(fr, v["discr"]); neg = []
            for x, y in br:
                x = self.snorm(x, ty)
                e = z3.simplify(d == x); conds.append((e, y)); neg.append(z3.Not(e))
            ot = v["targets"]["otherwise"]
            if fr.body.blocks[ot]["terminator"]["kind"] != "Unreachable": conds.append((z3.And(*neg) if len(neg) > 1 else neg[0], ot))
            return [(y, s) for s, y in self.branch(st, conds)]
        if k == "Call":
            f = self.operand(st, fr, v["func"]); args = [self.operand(st, fr, a) for a in v["args"]]
            dr, dty = self.place(st, fr, v["destination"])
            if not isinstance(f, FnV): raise Unsupported("indirect call")
            inst = self.prog.insts[f.ty.d["inst"]] if f.ty.d.get("inst") is not None else None
            if inst is None: raise Unsupported("unresolved call " + f.ty.name[:100])
            res = self.call(inst, args, st, dty)
            if v["target"] is None: return []
            out = []
            for s, val in res:
                dr2, _ = self.place(s, fr, v["destination"])
                self.store(s, dr2, val); out.append((v["target"], s))
            return out
        raise Unsupported("terminator " + k)
    def msg(self, m): return m if isinstance(m, str) else next(iter(m))
    def panic(self, st, why):
        self.c.oblige(f"no-panic[{why}]", st, z3.BoolVal(False)); return []
    # ------------------------------------------------ calls
    def callee(self, f):
        """resolve a callable value -> (inst, env, by_ref)"""
        return f
    def callv(self, st, f, args):
        """call a closure / fn item value with already untupled args"""
        f0 = f
        while isinstance(f, Ref): f = self.load(st, f)
        if isinstance(f, FnV):
            inst = self.prog.insts[f.ty.d["inst"]]
            sigty = None
            return self.call(inst, list(args), st, self.retty(inst))
        if isinstance(f, Agg) and f.ty.k == "closure":
            ins = f.ty.d.get("insts") or {}
            i = next((ins[k] for k in ("Fn", "FnMut", "FnOnce") if k in ins), None)
            if i is None: raise Unsupported("closure instance")
            inst = self.prog.insts[i]; body = inst.body
            if body is None: raise Unsupported("closure body")
            e = self.prog.types[body.locals[1]["ty"]]
            if e.k == "ref": env = f0 if isinstance(f0, Ref) else Ref(newcell(st, f, "clo"))
            else: env = f
            while isinstance(env, Ref) and isinstance(self.load(st, env), Ref): env = self.load(st, env)
            self.c.used["inlined"].add(inst.name[:160])
            if len(args) + 1 != body.arg_count: raise Unsupported("closure arity")
            return self.run_fn(inst, [env] + list(args), st)
        if hasattr(f, "callv"): return f.callv(self, st, args)
        raise Unsupported("call of " + type(f).__name__)
    def retty(self, inst):
        if inst.has_body: return self.prog.types[inst.body.locals[0]["ty"]]
        r = inst.d.get("ret"); return self.prog.types.get(r) if r is not None else None
    def call(self, inst, args, st, dty):
        key = canon(inst.name)
        if key.endswith(("::call_once", "::call_mut", "::call")) and "as Fn" in key:
            f = args[0]; tup = args[1]
            if isinstance(tup, Ref): tup = self.load(st, tup)
            if z3.is_expr(tup) and tup.sort() == Unit: al = []
            elif isinstance(tup, Agg): al = list(tup.f)
            else: raise Unsupported("untuple")
            return self.callv(st, f, al)
        if key.split("::")[-1].startswith("{closure#") and len(args) == 2:
            tup = args[1]
            if isinstance(tup, Agg) and tup.ty.k == "tuple" or z3.is_expr(tup) and tup.sort() == Unit:
                return self.callv(st, args[0], list(tup.f) if isinstance(tup, Agg) else [])
        ct = self.c.contracts.get(key)
        if ct is not None and key not in self.c.inline_local:
            self.c.used["contracts"].add(key)
            return self.norm(ct(self, st, inst, args, dty), st)
        m = self.models.get(key) if hasattr(self, "models") else self.c.models.get(key)
        if m is None: m = self.c.models.generic(key, inst)
        if m is not None:
            self.c.used["models"].add(key)
            return self.norm(m(self, st, inst, args, dty), st)
        if inst.has_body:
            self.c.used["inlined"].add(inst.name[:160])
            return self.run_fn(inst, args, st)
        if dty is not None and dty.k == "adt" and self.T.kind(dty) == "dt":   # a tuple-like constructor used as a function
            for i, w in enumerate(dty.d["variants"]):
                if w["name"] == key.split("::")[-1] and len(dty.fields(i)) == len(args) and adt_key(dty)[1] in key: return [(st, Agg(dty, i, args))]
        raise Unsupported("external " + key + "   [" + inst.name[:140] + "]")
    def norm(self, r, st):
        if isinstance(r, list): return r
        return [(st, r)]
    # ------------------------------------------------ loops
    def loop(self, fr, st, header):
        from loops import do_loop
        return do_loop(self, fr, st, header)

class ConstRaw:
    """constant of an opaque/secp type given by its bytes"""
    def __init__(self, ty, b): self.ty = ty; self.b = b
    def value(self, ex):
        c, n = adt_key(self.ty)
        if ex.T.kind(self.ty) == "real":
            if n == "Scalar" : 
                v = int.from_bytes(self.b, "big")
                if v < 2: return z3.RealVal(v)
            t = z3.Const(f"const_{n}_{self.b.hex()}", R); ex.T.note(t, self.ty); return t
        return z3.Const(f"const_{n}_{self.b.hex()}", ex.T.sort(self.ty))
class ArrTy:
    def __init__(self, elem, n):
        self.elem = elem; self.k = "array"; self.d = {"len": n}; self.name = f"[{elem.name}; {n}]"; self.id = -elem.id * 1000 - n - 1
