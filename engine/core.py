"""Terms, sorts and values of the contract verifier.

Sorts: machine integers -> Int (range facts), bool -> Bool, curve points / secret keys /
scalars -> Real through their discrete logarithm (group laws = linear arithmetic, scalar
multiplication = canonicalised uninterpreted product), x-only keys -> Real with even parity,
byte strings -> uninterpreted sort with canonical concatenation, Vec/slice -> (len, Array),
maps -> (dom, val) arrays, sets -> Array(K,Bool), structs/enums -> datatypes,
anything else -> an uninterpreted sort per Rust type."""
import z3, re, sys
sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Infeasible(Exception): pass

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
Bytes = z3.DeclareSort("Bytes")
Unit_ = z3.Datatype("Unit"); Unit_.declare("unit"); Unit = Unit_.create(); UNIT = Unit.unit

# ---------------------------------------------------------------- global facts
class Facts:
    """universally valid facts, each indexed by the term that triggers it"""
    def __init__(self): self.by = {}; self.keep = []; self.seen = set(); self.lazy = {}; self._sub = {}
    def add(self, trig, f):
        k = (trig.get_id(), f.get_id())
        if k in self.seen: return
        self.seen.add(k); self.keep.append((trig, f)); self.by.setdefault(trig.get_id(), []).append(f)
    def add_lazy(self, trig, thunk):
        if trig.get_id() in self.lazy: return
        self.keep.append((trig, None)); self.lazy[trig.get_id()] = thunk
    def subs(self, t):
        out = self._sub.get(t.get_id())
        if out is not None: return out[1]
        ids = set(); st = [t]; vis = set()
        while st:
            x = st.pop(); i = x.get_id()
            if i in vis: continue
            vis.add(i)
            c = self._sub.get(i)
            if c is not None: ids |= c[1]; continue
            if z3.is_quantifier(x): st.append(x.body())
            elif z3.is_app(x):
                ids.add(i); st.extend(x.children())
        self._sub[t.get_id()] = (t, ids)
        return ids
    def close(self, fs, lazy=True, depth=12):
        """fs plus every fact triggered by a subterm (transitively)"""
        out = list(fs); done = set(); work = list(fs); fired = set()
        for _ in range(depth):
            new = []
            for f in work:
                for i in self.subs(f):
                    if i in done: continue
                    done.add(i)
                    new.extend(self.by.get(i, []))
                    if lazy and i in self.lazy and i not in fired:
                        fired.add(i); new.extend(self.lazy[i]())
                        new.extend(g for g in self.by.get(i, []) if not any(g is h for h in new))
            if not new: break
            out.extend(new); work = new
        return out
FACTS = Facts()
def fact(trig, f): FACTS.add(trig, f)

_fresh = {}
def fresh(name, sort):
    n = _fresh.get(name, 0); _fresh[name] = n + 1
    return z3.Const(f"{name}!{n}", sort)
_uf = {}
def UF(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _uf: _uf[k] = z3.Function(name, *sorts)
    return _uf[k]

def simp(t): return z3.simplify(t)
def is_true(t): return z3.is_true(t)
def as_int(t):
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None

# ---------------------------------------------------------------- bytes
blen_ = UF("blen", Bytes, I); bat_ = UF("bat", Bytes, I, I); cat_ = UF("cat", Bytes, Bytes, Bytes); bsl_ = UF("bslice", Bytes, I, I, Bytes)
_lits = {}
def lit(hexs):
    if isinstance(hexs, (bytes, bytearray)): hexs = bytes(hexs).hex()
    if hexs not in _lits:
        c = z3.Const(f"lit_{hexs}", Bytes)
        _lits[hexs] = c
        FACTS.add(c, blen_(c) == len(hexs) // 2)
        FACTS.add(c, litid_(c) == len(_lits))
        LITOF[c.get_id()] = hexs
    return _lits[hexs]
litid_ = UF("litid", Bytes, I)
LITOF = {}
BLEN = {}   # term id -> (term, python int length)
def setlen(t, n):
    if t.get_id() not in BLEN:
        BLEN[t.get_id()] = (t, n); fact(t, blen_(t) == n)
    return t
def klen(t):
    if t.get_id() in LITOF: return len(LITOF[t.get_id()]) // 2
    if t.get_id() in BLEN: return BLEN[t.get_id()][1]
    if z3.is_app(t) and t.decl().eq(cat_):
        a, b = klen(t.arg(0)), klen(t.arg(1))
        return None if a is None or b is None else a + b
    return None
def blen(t):
    k = klen(t)
    if k is not None: return z3.IntVal(k)
    if z3.is_app(t) and t.decl().eq(cat_): return blen(t.arg(0)) + blen(t.arg(1))
    r = blen_(t); fact(r, r >= 0); return r
EMPTY = lit("")
def pieces(t):
    if z3.is_app(t) and t.decl().eq(cat_): return pieces(t.arg(0)) + pieces(t.arg(1))
    return [] if t.get_id() == EMPTY.get_id() else [t]
def isbsl(p): return z3.is_app(p) and p.decl().eq(bsl_) and as_int(p.arg(1)) is not None and as_int(p.arg(2)) is not None
def cat(*ts):
    ps = []
    for t in ts: ps += pieces(t)
    out = []
    for p in ps:
        if out and p.get_id() in LITOF and out[-1].get_id() in LITOF:
            out[-1] = lit(LITOF[out[-1].get_id()] + LITOF[p.get_id()])
        elif out and isbsl(p) and isbsl(out[-1]) and p.arg(0).eq(out[-1].arg(0)) and as_int(out[-1].arg(2)) == as_int(p.arg(1)) and as_int(p.arg(2)) is not None:
            # adjacent parts of one byte string
            base, a, b = p.arg(0), as_int(out[-1].arg(1)), as_int(p.arg(2))
            out[-1] = base if a == 0 and b == klen(base) else setlen(bsl_(base, z3.IntVal(a), z3.IntVal(b)), b - a)
        else: out.append(p)
    if not out: return EMPTY
    r = out[-1]
    for p in reversed(out[:-1]):
        r = cat_(p, r)
        # right-nested cat with fixed-length head is injective in both parts
        k = klen(p)
        if k is not None:
            fact(r, bhead(k)(r) == p); fact(r, btail(k)(r) == r.arg(1))
        fact(r, blen_(r) == blen_(p) + blen_(r.arg(1)))
    return r
def bhead(k): return UF(f"bhead{k}", Bytes, Bytes)
def btail(k): return UF(f"btail{k}", Bytes, Bytes)
def bslice(t, lo, hi):
    l, h = as_int(lo), as_int(hi)
    if z3.is_app(t) and t.decl().eq(bsl_) and z3.is_app(t.arg(2)) and t.arg(2).decl().eq(blen_) and t.arg(2).arg(0).eq(t.arg(0)):
        # a part of a suffix is a part of the whole, at an offset
        o = t.arg(1); return bslice(t.arg(0), z3.simplify(o + lo), t.arg(2) if z3.is_app(hi) and hi.decl().eq(blen_) and hi.arg(0).eq(t) else z3.simplify(o + hi))
    if l is not None and h is not None:
        if l == h: return EMPTY
        if z3.is_app(t) and t.decl().eq(bsl_):
            l0, h0 = as_int(t.arg(1)), as_int(t.arg(2))
            if l0 is not None and h0 is not None and h <= h0 - l0: return bslice(t.arg(0), l + l0, h + l0)
        ps = pieces(t); out = []; o = 0; ok = True
        for p in ps:
            k = klen(p)
            if k is None:
                ok = False; break
            a, b = max(l, o), min(h, o + k)
            if a < b:
                if a == o and b == o + k: out.append(p)
                elif p.get_id() in LITOF: out.append(lit(LITOF[p.get_id()][2*(a-o):2*(b-o)]))
                elif len(ps) == 1: return setlen(bsl_(p, z3.IntVal(l), z3.IntVal(h)), h - l)
                else: out.append(setlen(bsl_(p, z3.IntVal(a-o), z3.IntVal(b-o)), b - a))
            o += k
        if ok and o >= h: return cat(*out)
        if l is not None: 
            r = setlen(bsl_(t, z3.IntVal(l), z3.IntVal(h)), h - l)
            return r
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo; hi = z3.IntVal(hi) if isinstance(hi, int) else hi
    if as_int(lo) == 0 and z3.is_true(simp(hi == blen(t))): return t
    r = bsl_(t, lo, hi)
    fact(r, z3.Implies(z3.And(0 <= lo, lo <= hi, hi <= blen_(t)), blen_(r) == hi - lo))
    return r
def bat(t, i):
    k = as_int(i)
    if k is not None:
        o = 0
        for p in pieces(t):
            n = klen(p)
            if n is None: break
            if o <= k < o + n:
                if p.get_id() in LITOF: return z3.IntVal(int(LITOF[p.get_id()][2*(k-o):2*(k-o)+2], 16))
                if isbsl(p): return bat(p.arg(0), k - o + as_int(p.arg(1)))
                if n == 1 and z3.is_app(p) and p.decl().name() == "be1":
                    x = p.arg(0); fact(p, z3.Implies(z3.And(x >= 0, x <= 255), bat_(p, z3.IntVal(0)) == x))
                r = bat_(p, z3.IntVal(k - o)); fact(r, z3.And(r >= 0, r <= 255)); return r
            o += n
    i = z3.IntVal(i) if isinstance(i, int) else i
    r = bat_(t, i); fact(r, z3.And(r >= 0, r <= 255)); return r
def be(n, t):
    """big-endian n-byte encoding of an Int term"""
    k = as_int(t)
    if n == 1 and k is None and z3.is_app(t) and t.decl().eq(bat_):
        j = as_int(t.arg(1)); m = klen(t.arg(0))
        if j is not None and m is not None and 0 <= j < m: r = bslice(t.arg(0), j, j + 1); fact(r, UF("be1", I, Bytes)(t) == r); return r
    f = UF(f"be{n}", I, Bytes); g = UF(f"unbe{n}", Bytes, I)
    if k is not None:
        l = lit(int(k).to_bytes(n, "big")); fact(l, z3.And(f(z3.IntVal(k)) == l, g(l) == k)); return l
    r = f(t); setlen(r, n); fact(r, g(r) == t); return r
def le(n, t):
    k = as_int(t)
    f = UF(f"le{n}", I, Bytes); g = UF(f"unle{n}", Bytes, I)
    if k is not None:
        l = lit(int(k).to_bytes(n, "little")); fact(l, z3.And(f(z3.IntVal(k)) == l, g(l) == k)); return l
    r = f(t); setlen(r, n); fact(r, g(r) == t); return r
def byte1(t):
    return be(1, t)

# ---------------------------------------------------------------- discrete-log group
mul_ = UF("mul", R, R, R); even_ = UF("even", R, B)
ser_ = UF("ser", R, Bytes); unser_ = UF("unser", Bytes, R); validpk_ = UF("validpk", Bytes, B)
serx_ = UF("serx", R, Bytes); unserx_ = UF("unserx", Bytes, R); validx_ = UF("validx", Bytes, B)
sers_ = UF("sers", R, Bytes); unsers_ = UF("unsers", Bytes, R); validsk_ = UF("validsk", Bytes, B); validsc_ = UF("validsc", Bytes, B)
def lincomb(t):
    """dict monomial(tuple of atoms as term-keys)->(coef); atoms kept in AT"""
    t0 = t
    if z3.is_rational_value(t): return {(): t.as_fraction()} if t.as_fraction() != 0 else {}
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in t.children():
                for m, q in lincomb(c).items(): out[m] = out.get(m, 0) + q
            return {m: q for m, q in out.items() if q}
        if k == z3.Z3_OP_SUB:
            out = dict(lincomb(t.arg(0)))
            for c in t.children()[1:]:
                for m, q in lincomb(c).items(): out[m] = out.get(m, 0) - q
            return {m: q for m, q in out.items() if q}
        if k == z3.Z3_OP_UMINUS: return {m: -q for m, q in lincomb(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            q0 = t.arg(0).as_fraction(); return {m: q * q0 for m, q in lincomb(t.arg(1)).items()}
        if t.decl().eq(mul_): return {tuple(sorted(_atoms(t))): 1}
    ATOM[t.get_id()] = t
    return {(t.get_id(),): 1}
ATOM = {}
def _atoms(t):
    if z3.is_app(t) and t.decl().eq(mul_): return _atoms(t.arg(0)) + _atoms(t.arg(1))
    ATOM[t.get_id()] = t
    return [t.get_id()]
def unlin(d):
    ts = []
    for m in sorted(d, key=lambda m: (len(m), m)):
        q = d[m]
        if not m: ts.append(z3.RealVal(str(q))); continue
        at = [ATOM[i] for i in m]
        x = at[-1]
        for a in reversed(at[:-1]): x = mul_(a, x)
        ts.append(x if q == 1 else (-x if q == -1 else z3.RealVal(str(q)) * x))
    if not ts: return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)
def mul(a, b):
    """product of scalars / scalar by point, distributed over sums and ites"""
    for (x, y) in ((a, b), (b, a)):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(x.arg(0), mul(x.arg(1), y), mul(x.arg(2), y))
    la, lb = lincomb(a), lincomb(b); out = {}
    for m1, q1 in la.items():
        for m2, q2 in lb.items():
            m = tuple(sorted(m1 + m2)); out[m] = out.get(m, 0) + q1 * q2
    r = unlin({m: q for m, q in out.items() if q})
    if len(la) == 1 and len(lb) == 1 and z3.is_app(r) and r.decl().eq(mul_):
        # the field has no zero divisors
        fact(r, (r == 0) == z3.Or(a == 0, b == 0))
        if not (z3.is_app(r.arg(1)) and r.arg(1).decl().eq(mul_)): fact(r, r == mul_(r.arg(1), r.arg(0)))
    return r
def even(p):
    e = even_(p)
    n = z3.simplify(-p)
    fact(e, z3.Implies(p != 0, even_(n) == z3.Not(e)))
    return e
def xonly(p):
    """even-y representative of a point"""
    return z3.If(even(p), p, -p)
def mk_inv(f, g, v, t, n, extra=None):
    r = f(t); setlen(r, n); fact(r, g(r) == t)
    if v is not None: fact(r, v(r))
    return r
def ser(p):
    r = mk_inv(ser_, unser_, None, p, 33); fact(r, z3.Implies(p != 0, validpk_(r)))
    # compressed encoding = parity byte then x coordinate
    return r
def serx(x):
    r = serx_(x); setlen(r, 32); fact(r, z3.Implies(z3.And(x != 0, even(x)), z3.And(validx_(r), unserx_(r) == x)))
    return r
def sers(s):
    r = mk_inv(sers_, unsers_, validsc_, s, 32); fact(r, z3.Implies(s != 0, validsk_(r))); return r
def unser(b):
    r = unser_(b); fact(r, z3.Implies(validpk_(b), z3.And(r != 0, ser_(r) == b))); return r
def unserx(b):
    r = unserx_(b); fact(r, z3.Implies(validx_(b), z3.And(r != 0, even_(r), serx_(r) == b))); return r
def unsers(b):
    r = unsers_(b)
    fact(r, z3.Implies(validsc_(b), sers_(r) == b)); fact(r, validsk_(b) == z3.And(validsc_(b), r != 0)); return r

# ---------------------------------------------------------------- lists / maps / sets
_list = {}
def ListS(es):
    k = str(es)
    if k not in _list:
        d = z3.Datatype(f"List<{k}>"); d.declare("mkL", ("llen", I), ("larr", z3.ArraySort(I, es))); s = d.create()
        s.es = es; _list[k] = s; _list_by[str(s)] = s
    return _list[k]
_list_by = {}
def is_list(s): return str(s) in _list_by
def L(s): return _list_by[str(s)]
def ap(acc, t):
    """accessor application with immediate beta on constructors / ites of constructors"""
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            s = t.sort()
            for c in range(s.num_constructors()):
                if s.constructor(c).eq(t.decl()):
                    for j in range(t.num_args()):
                        if s.accessor(c, j).eq(acc): return t.arg(j)
    return acc(t)
def llen(l):
    r = ap(L(l.sort()).llen, l)
    if z3.is_app(r) and r.decl().eq(L(l.sort()).llen): fact(r, r >= 0)
    return r
def lat(l, i):
    a = ap(L(l.sort()).larr, l)
    return zselect(a, i)
def zselect(a, i):
    i = z3.IntVal(i) if isinstance(i, int) else i
    while z3.is_store(a):
        if a.arg(1).eq(i): return a.arg(2)
        e = z3.simplify(a.arg(1) == i)
        if z3.is_true(e): return a.arg(2)
        if z3.is_false(e): a = a.arg(0); continue
        break
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, i)
def lpush(l, x):
    s = L(l.sort()); n = llen(l)
    return s.mkL(z3.simplify(n + 1), z3.Store(ap(s.larr, l), n, x))
def lset(l, i, x):
    s = L(l.sort()); return s.mkL(llen(l), z3.Store(ap(s.larr, l), i, x))
_dflt = {}
def dflt(sort):
    k = str(sort)
    if k not in _dflt: _dflt[k] = z3.Const(f"dflt<{k}>", sort)
    return _dflt[k]
def lempty(es):
    s = ListS(es); return s.mkL(z3.IntVal(0), z3.K(I, dflt(es)))
def leq(a, b):
    """extensional list equality (as a goal)"""
    i = fresh("leq_i", I)
    return z3.And(llen(a) == llen(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(a)), lat(a, i) == lat(b, i))))
_map = {}; _map_by = {}
def MapS(ks, vs):
    k = (str(ks), str(vs))
    if k not in _map:
        d = z3.Datatype(f"Map<{k[0]},{k[1]}>"); d.declare("mkM", ("mdom", z3.ArraySort(ks, B)), ("mval", z3.ArraySort(ks, vs))); s = d.create()
        s.ks, s.vs = ks, vs; _map[k] = s; _map_by[str(s)] = s
    return _map[k]
def M(s): return _map_by[str(s)]
def is_map(s): return str(s) in _map_by
def mdom(m): return ap(M(m.sort()).mdom, m)
def mval(m): return ap(M(m.sort()).mval, m)
def mhas(m, k): return zsel(mdom(m), k)
def mget(m, k): return zsel(mval(m), k)
def zsel(a, k):
    while z3.is_store(a):
        if a.arg(1).eq(k): return a.arg(2)
        e = z3.simplify(a.arg(1) == k)
        if z3.is_true(e): return a.arg(2)
        if z3.is_false(e): a = a.arg(0); continue
        break
    if z3.is_K(a): return a.arg(0)
    return z3.Select(a, k)
def mput(m, k, v):
    s = M(m.sort()); return s.mkM(z3.Store(mdom(m), k, z3.BoolVal(True)), z3.Store(mval(m), k, v))
def mdel(m, k):
    s = M(m.sort()); return s.mkM(z3.Store(mdom(m), k, z3.BoolVal(False)), mval(m))
def mempty(ks, vs):
    s = MapS(ks, vs); return s.mkM(z3.K(ks, z3.BoolVal(False)), z3.K(ks, dflt(vs)))
def meq(a, b):
    k = fresh("meq_k", M(a.sort()).ks)
    return z3.ForAll([k], z3.And(mhas(a, k) == mhas(b, k), z3.Implies(mhas(a, k), mget(a, k) == mget(b, k))))
_enum = {}; _domname = {}
def has_ite(t):
    st = [t]; vis = set()
    while st:
        x = st.pop()
        if x.get_id() in vis: continue
        vis.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE: return True
            st.extend(x.children())
    return False
def enum_map(dom):
    """enumeration of the (finite) domain array: (len, at) with bijectivity facts"""
    if has_ite(dom):   # not allowed inside a pattern: name it
        if dom.get_id() not in _domname: _domname[dom.get_id()] = (dom, fresh("dom", dom.sort()))
        d = _domname[dom.get_id()][1]; fact(d, d == dom); dom = d
    ks = dom.sort().domain()
    en = UF(f"enum<{ks}>", dom.sort(), I, ks); n = UF(f"card<{ks}>", dom.sort(), I)(dom); ix = UF(f"enumix<{ks}>", dom.sort(), ks, I)
    i = z3.Const("enum_i", I); k = z3.Const("enum_k", ks)
    if dom.get_id() not in _enum:
        _enum[dom.get_id()] = dom
        fact(n, n >= 0)
        fact(n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(dom, en(dom, i)), ix(dom, en(dom, i)) == i)), patterns=[en(dom, i)]))
        fact(n, z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= ix(dom, k), ix(dom, k) < n, en(dom, ix(dom, k)) == k)), patterns=[ix(dom, k)]))
        fact(n, z3.ForAll([k], z3.Implies(z3.Select(dom, k), z3.And(0 <= ix(dom, k), ix(dom, k) < n, en(dom, ix(dom, k)) == k)), patterns=[z3.Select(dom, k)]))
    return n, (lambda j: en(dom, j))
_named = {}
def named(t):
    """a constant for a term that may not occur in a quantifier pattern"""
    if not has_ite(t): return t
    if t.get_id() not in _named:
        c = fresh("nm", t.sort()); fact(c, c == t); _named[t.get_id()] = (t, c)
    return _named[t.get_id()][1]
