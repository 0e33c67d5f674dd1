"""Contract checking: one symbolic run per function, obligations discharged by z3."""
import z3, time, sys, traceback
from core import *
from values import *
from exec import *
from loops import Cand, It, diff, same
import loops
import models, models_btc
from mir import canon, Prog
import core

CONTRACTS = {}       # canon name -> callable used at call sites
SPECS = {}           # name -> Spec
class Spec:
    def __init__(self, name, target, setup, post, props=(), inline=(), accs=None, crate=None, timeout=12000, opt=None):
        self.name = name; self.target = target; self.setup = setup; self.post = post; self.props = props; self.inline = set(inline); self.accs = accs; self.timeout = timeout
        self.opt = opt or {}
def spec(name, target, props=(), **kw):
    def d(cls):
        SPECS[name] = Spec(name, target, cls.setup, cls.post, props, **kw); return cls
    return d

def find_fn(prog, key):
    c = [i for i in prog.insts.values() if i.has_body and canon(i.name) == key]
    if not c: c = [i for i in prog.insts.values() if i.has_body and i.name == key]
    return c[0] if c else None

class Acc:
    """recursively defined specification function over an index"""
    def __init__(self, name, sort, init, step, params=(), back=False, length=None):
        self.name = name; self.sort = sort; self.init = init; self.step = step; self.params = tuple(params); self.back = back; self.length = length
        self.f = UF(name, *[p.sort() for p in self.params], I, sort); self.unf = set()
    def raw(self, i): return self.f(*self.params, i)
    def at(self, i, unfold=True):
        i = z3.IntVal(i) if isinstance(i, int) else z3.simplify(i); t = self.raw(i)
        if not unfold or t.get_id() in self.unf: return t
        self.unf.add(t.get_id()); self.keep = getattr(self, "keep", []) + [t]
        k = as_int(i)
        if self.back:
            nx = z3.simplify(i + 1); fact(t, t == z3.If(i >= self.length, self.init, self.step(i, self.raw(nx))))
            if k is not None and as_int(self.length) is not None and k < as_int(self.length): self.at(nx)
        else:
            if k == 0: fact(t, t == self.init)
            elif k is None or k > 0:
                pv = z3.simplify(i - 1)
                fact(t, z3.Implies(i >= 1, t == self.step(pv, self.raw(pv)))); fact(t, z3.Implies(i == 0, t == self.init))
                if k is not None: self.at(pv)
        return t

def std_cands(accs, extra=None):
    """candidate invariants: every modified place of the right sort equals an accumulator at some position"""
    def gen(ex, st0, h, mods):
        T = ex.T; pos = []; leaves = []; seen = set(); srcs = []
        for (cell, path) in mods:
            for n in range(len(path), -1, -1):
                p = path[:n]
                if (cell, n, str(p)) in seen: continue
                seen.add((cell, n, str(p)))
                try: v = ex.load(h, Ref(cell, p))
                except Unsupported: continue
                if isinstance(v, It):
                    def pf(st, c=cell, q=p):
                        w = ex.load(st, Ref(c, q)); return z3.simplify(w.src.lo + w.pos) if isinstance(w.src, loops.RangeSrc) else w.pos
                    pf.src = v.src; pos.append((f"{cell}", pf))
                    if isinstance(v.src, loops.ListSrc) and is_list(v.src.t.sort()) and L(v.src.t.sort()).es == R: srcs.append((f"{cell}", v.src.t, pos[-1][1]))
                elif isinstance(v, (Poison, Ref)): continue
                else:
                    try: t = ex.term(h, v)
                    except Unsupported: continue
                    leaves.append((f"{cell}{len(p)}", (lambda st, c=cell, q=p: ex.term(st, ex.load(st, Ref(c, q)))), t.sort()))
                    if t.sort() == I: pos.append((f"int{cell}", (lambda st, c=cell, q=p: ex.term(st, ex.load(st, Ref(c, q))))))
        out = []
        for ln, lf, s in leaves:
            if s == I:
                for pn, pf in pos:
                    if pn != "int" + ln[:-1]: out.append(Cand(f"{ln}=={pn}", lambda st, a=lf, b=pf: a(st) == b(st)))
            for a in accs:
                for pn, pf in pos:
                    if a.back: continue
                    if a.sort == s: out.append(Cand(f"{ln}=={a.name}({pn})", lambda st, l=lf, a=a, p=pf: l(st) == a.at(p(st))))
                    if is_list(s) and L(s).es == R and a.sort == R: out.append(Cand(f"sum({ln})=={a.name}({pn})", lambda st, l=lf, a=a, p=pf: models_btc.lsum(l(st)) == a.at(p(st))))
                    if is_list(s) and a.sort == I: out.append(Cand(f"len({ln})=={a.name}({pn})", lambda st, l=lf, a=a, p=pf: llen(l(st)) == a.at(p(st))))
            if is_list(s):
                for pn, pf in pos: out.append(Cand(f"len({ln})=={pn}", lambda st, l=lf, p=pf: llen(l(st)) == p(st)))
            if s.kind() == z3.Z3_DATATYPE_SORT and s.num_constructors() == 2 and s.constructor(0).arity() == 0 and s.constructor(1).arity() == 1 and s.accessor(1, 0).range() == R:
                # an optional running sum: absent exactly when the sum is zero
                for pn, t, pf in srcs:
                    def osum(st, l=lf, t=t, p=pf, s=s):
                        x = l(st); ps = models_btc.psum(ap(L(t.sort()).larr, t), p(st)); return z3.If(s.recognizer(1)(x), z3.And(ap(s.accessor(1, 0), x) == ps, ps != 0), ps == 0)
                    out.append(Cand(f"optsum({ln},{pn})", osum))
            if s == R:
                for pn, t, pf in srcs: out.append(Cand(f"{ln}==psum({pn})", lambda st, l=lf, t=t, p=pf: l(st) == models_btc.psum(ap(L(t.sort()).larr, t), p(st))))
        for a in accs:
            if a.back:
                for pn, pf in pos:
                    if getattr(a, "only", None) is not None and not (hasattr(pf, "src") and a.only(pf.src)): continue
                    out.append(Cand(f"{a.name}({pn})=={a.name}(0)", lambda st, a=a, p=pf: a.at(p(st)) == a.at(0)))
        if extra: out += extra(ex, st0, h, mods, leaves, pos)
        return out
    return gen

class V:
    """the environment handed to a specification"""
    def __init__(self, ex, st, inst): self.ex = ex; self.st = st; self.inst = inst; self.T = ex.T; self.a = {}; self.accs = []
    def argty(self, i): return self.ex.prog.types[self.inst.body.locals[i + 1]["ty"]]
    def retty(self): return self.ex.prog.types[self.inst.body.locals[0]["ty"]]
    def sym(self, name, ty, depth=3):
        T = self.T
        if ty.k in ("ref", "ptr"):
            return Ref(newcell(self.st, self.sym(name, ty.elem, depth), name))
        if T.kind(ty) == "opaque" and adt_key(ty)[1] in ("Secp256k1", "Formatter") if ty.k == "adt" else False: return Opaque(ty.name)
        t = z3.Const(name, T.sort(ty)); T.deep_note(t, ty, depth); return t
    def args(self, *names):
        out = []
        for i, n in enumerate(names):
            v = self.sym(n, self.argty(i)); out.append(v)
            self.a[n] = self.ex.term(self.st, v) if not isinstance(self.ex_deref(v), Opaque) else None
        return out
    def ex_deref(self, v):
        while isinstance(v, Ref): v = self.ex.load(self.st, v)
        return v
    def assume(self, f): self.st.add(f)
    def term(self, st, v): return self.ex.term(st, v)
    def field(self, ty, t, name, v=0):
        for i, (n, ft) in enumerate(self.T.vfields(ty, v)):
            if n == name: return self.T.acc(ty, v, i, t)
        raise KeyError(name)

class Result:
    def __init__(self, name): self.name = name; self.status = "?"; self.obls = []; self.reason = ""; self.wall = 0; self.info = {}

def run_spec(prog, sp, budget=240, verbose=False):
    import core as _c
    res = Result(sp.name); t0 = time.time()
    T = Types(prog); ctx = Ctx(prog, T, models.Models(), CONTRACTS); ctx.fname = sp.name; ctx.deadline = t0 + budget
    ex = Exec(ctx); ex.frames = {}
    try:
        if sp.target is None:   # a lemma over the contracts
            st = State(); v = V(ex, st, None); ctx.v = v
            gs = sp.post(v)
            r, _ = ctx.check(FACTS.close(list(st.pc)), 3000)
            if r == z3.unsat: raise Exception("vacuous lemma")
            for nm, g in gs: ctx.obls.append(Obl(f"{sp.name}::lemma[{nm}]", tuple(st.pc), g, "lemma"))
            res.info["paths"] = 0
            return finish(ctx, sp, res, verbose)
        inst = find_fn(prog, sp.target)
        if inst is None: raise Unsupported(f"function {sp.target} not found")
        ctx.inline_local = set(sp.inline) | {sp.target}
        st = State(); v = V(ex, st, inst); ctx.v = v
        args = sp.setup(v)
        ctx.base = st.pc and tuple(st.pc) or (); st.pc = ()
        if v.accs or sp.opt.get("cands"): ctx.cands = std_cands(v.accs, sp.opt.get("cands") and (lambda *a: sp.opt["cands"](v, *a)))
        r, _ = ctx.check(FACTS.close(list(ctx.base)), 3000)
        if r == z3.unsat: raise Exception("vacuous precondition")
        if sp.opt.get("reads"): t, ok = sp.opt["reads"](v); ctx.reads = (t, ok, {}, [])
        outs = ex.run_fn(inst, args, st)
        res.info["paths"] = len(outs)
        reach = 0
        for n, (s, ret) in enumerate(outs):
            for nm, g in sp.post(v, s, ret): ctx.obls.append(Obl(f"{sp.name}::ensures[{nm}]@path{n}", tuple(s.pc), g, "ensures"))
        if not outs: raise Unsupported("no terminating path")
        if ctx.reads:
            for o in ctx.obls: ctx.watch([o.goal])
            ctx.obls.append(Obl(f"{sp.name}::frame[reads only the stated parts]", (), z3.BoolVal(not ctx.reads[3]), "frame"))
        # reachability guard against vacuity: at least one path must be satisfiable
        for s, _ in outs:
            if ctx.feasible(s): reach += 1; break
        if not reach: raise Exception("vacuous: no reachable exit")
        finish(ctx, sp, res, verbose)
    except Unsupported as e:
        res.status = "unsupported"; res.reason = str(e)
        if verbose: traceback.print_exc()
    except z3.Z3Exception as e:
        res.status = "unsupported"; res.reason = "z3: " + str(e)[:200]
        if verbose: traceback.print_exc()
    except Exception as e:
        res.status = "unsupported"; res.reason = type(e).__name__ + ": " + str(e)[:200]
        if verbose: traceback.print_exc()
    finally:
        res.obls = ctx.obls; res.used = ctx.used; res.wall = time.time() - t0; res.nq = ctx.nq; res.tq = ctx.tq; res.info["havocs"] = ctx.havocs
    return res
def finish(ctx, sp, res, verbose):
    failed = 0; ctx.final = True
    for o in ctx.obls:
        if failed >= 3 and not verbose: o.res = "open"; continue      # the verdict is settled: leave the rest undecided
        t1 = time.time()
        try: o.res, o.model = ctx.prove(o.hyps, o.goal, sp.timeout, True)
        except Unsupported as e:
            if "time budget" not in str(e): raise
            o.res = "unknown"; failed = 3
        o.time = time.time() - t1
        if o.res == "refuted" and "~]" in o.name: o.res = "unknown"   # stated through witnesses: sufficient, not necessary
        if o.res != "proved": failed += 1
        if verbose and o.res != "proved": print("   ", o.name, o.res)
    rs = {o.res for o in ctx.obls}
    res.status = "refuted" if "refuted" in rs else "unknown" if "unknown" in rs else "proved"
    return res
def lemma(name):
    """obligation about specification functions only; post(v) may add hypotheses to v.st"""
    def d(fn):
        SPECS[name] = Spec(name, None, None, fn); return fn
    return d

_prog = None
def _one(a):
    n, verbose = a; r = run_spec(_prog, SPECS[n], verbose=verbose)
    t = f"{r.status:12s} {n:30s} obls={len(r.obls)} paths={r.info.get('paths')} {r.wall:.1f}s q={r.nq} {r.reason}"
    if verbose: t += "\n    " + str({k: (sorted(v) if isinstance(v, set) else v) for k, v in r.used.items()})
    return t
def main():
    global _prog
    import specs, multiprocessing as mp
    _prog = Prog(sys.argv[1]); names = sys.argv[2:] or list(SPECS)
    if len(names) == 1: print(_one((names[0], True))); return
    with mp.Pool(8, maxtasksperchild=1) as p:
        for t in p.imap(_one, [(n, len(sys.argv) > 2) for n in names], 1): print(t, flush=True)
if __name__ == "__main__":
    import verify; verify.main()
