"""Contracts of the indexes: first generation (SpIndexes, SpIndexer) and second (SpIndex, SpIndexerV2)."""
from specs_scan import *
from specs_psbt import rec_upd

def ix(ex, name): return adt(ex, "indexer", name)
# ------------------------------------------------------------------ transaction graph (assumed contracts of bdk_chain::TxGraph)
# A graph is its transactions, floating outputs, anchors, last-seen and evicted times; every insertion changes one of them.
# A changeset is an abstract value with the laws: applying the changeset an insertion returned gives the graph after it; applying a merge
# is applying both in turn; an empty one changes nothing; applying a graph's full changeset to an empty graph gives that graph.
class G:
    def __init__(self, ex):
        self.ex = ex; T = self.T = ex.T; self.gt = adt(ex, "bdk_chain", "TxGraph"); self.ct = adt(ex, "bdk_chain", "ChangeSet"); self.GS = T.sort(self.gt); self.CS = T.sort(self.ct)
        self.TX = T.sort(adt(ex, "bitcoin", "Transaction")); self.OP = T.sort(adt(ex, "bitcoin", "OutPoint")); self.TO = T.sort(adt(ex, "bitcoin", "TxOut")); self.AS = T.sort(adt(ex, "bdk_core", "ConfirmationBlockTime"))
        self.AT = T.tupsort([self.AS, Bytes]); self.sorts = [MapS(Bytes, self.TX), MapS(self.OP, self.TO), z3.ArraySort(self.AT, B), MapS(Bytes, I), MapS(Bytes, I)]
        self.mk = UF("graph.mk", *self.sorts, self.GS); self.acc = [UF("graph." + n, self.GS, q) for n, q in zip(("txs", "floating", "anchors", "seen", "evicted"), self.sorts)]
    def get(self, g, i):
        if z3.is_app(g) and g.decl().eq(self.mk): return g.arg(i)
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE: return z3.If(g.arg(0), self.get(g.arg(1), i), self.get(g.arg(2), i))
        self.eta(g); return self.acc[i](g)
    def eta(self, g): fact(g, self.mk(*[a(g) for a in self.acc]) == g)
    def build(self, *fs):
        r = self.mk(*fs)
        for a, f in zip(self.acc, fs): fact(r, a(r) == f)
        return r
    def upd(self, g, i, x): return self.build(*[x if j == i else self.get(g, j) for j in range(5)])
    def txs(self, g): return self.get(g, 0)
    def empty(self): return self.build(*[mempty(M(q).ks, M(q).vs) if is_map(q) else z3.K(q.domain(), z3.BoolVal(False)) for q in self.sorts])
    # insertions
    def tx(self, g, tx):
        t = txid_of(tx); m = self.txs(g); wm = UF("witness_merge", self.TX, self.TX, self.TX)(mget(m, t), tx); fact(wm, txid_of(wm) == txid_of(tx)); fl = self.get(g, 1)
        f2 = UF("fl_drop", fl.sort(), Bytes, fl.sort())(fl, t); has = mhas(m, t)
        return self.build(mput(m, t, z3.If(has, wm, tx)), z3.If(has, fl, f2), *[self.get(g, i) for i in (2, 3, 4)])
    def anchor(self, g, txid, a): return self.upd(g, 2, z3.Store(self.get(g, 2), self.AT.constructor(0)(a, txid), z3.BoolVal(True)))
    def maxput(self, m, k, t): return mput(m, k, z3.If(z3.And(mhas(m, k), mget(m, k) >= t), mget(m, k), t))
    def seen(self, g, txid, t): return self.upd(g, 3, self.maxput(self.get(g, 3), txid, t))
    def evict(self, g, txid, t): return self.upd(g, 4, self.maxput(self.get(g, 4), txid, t))
    def txout(self, g, o, out):
        t = fld(self.ex, adt(self.ex, "bitcoin", "OutPoint"), o, "txid"); fl = self.get(g, 1); return self.upd(g, 1, z3.If(mhas(self.txs(g), t), fl, mput(fl, o, out)))
    # changesets
    def cs0(self): return z3.Const("graph_cs_empty", self.CS)
    def apply(self, g, c):
        r = UF("graph_apply", self.GS, self.CS, self.GS)(g, c); e = z3.Const("graph_cs_empty", self.CS)
        fact(r, z3.Implies(self.is_empty(c), r == g)); self.eta(r); return r
    def is_empty(self, c):
        r = UF("graph_cs_is_empty", self.CS, B)(c); fact(r, r == (c == self.cs0())); return r
    def merge(self, a, b):
        a, b = named(a), named(b); r = UF("graph_cs_merge", self.CS, self.CS, self.CS)(a, b); g = z3.Const("gm_g", self.GS); f = UF("graph_apply", self.GS, self.CS, self.GS)
        fact(r, z3.ForAll([g], f(g, r) == f(f(g, a), b), patterns=[f(g, r)])); fact(r, z3.Implies(a == self.cs0(), r == b)); fact(r, z3.Implies(b == self.cs0(), r == a))
        fact(r, z3.Implies(r == self.cs0(), z3.And(a == self.cs0(), b == self.cs0())))
        return r
    def op(self, name, g, new, *args):
        """changeset returned by an insertion that takes graph g to new"""
        c = UF("graph_cs_" + name, self.GS, *[a.sort() for a in args], self.CS)(g, *args); f = UF("graph_apply", self.GS, self.CS, self.GS); fact(c, f(g, c) == new); return c
    def batch(self, g, l):
        """fold of seen time and transaction over a list of pairs"""
        es = L(l.sort()).es; a, b = es.accessor(0, 0), es.accessor(0, 1)
        return Acc("graph_batch", self.GS, g, lambda i, h: self.tx(self.seen(h, txid_of(ap(a, lat(l, i))), ap(b, lat(l, i))), ap(a, lat(l, i))), (g, l))
    def same_batch(self, g, l, h, k):
        """lists that agree at every position are recorded the same way (lemma.fold-prefix); the witness is a position where they differ"""
        w = fresh("differ", I); return z3.Implies(z3.And(llen(l) == llen(k), g == h, z3.Implies(z3.And(0 <= w, w < llen(l)), lat(l, w) == lat(k, w))), self.batch(g, l).at(llen(l)) == self.batch(h, k).at(llen(k)))
    def known(self, g, txid):
        """the graph tracks the transaction: in full, or through floating outputs"""
        fl = self.get(g, 1); return z3.Or(mhas(self.txs(g), txid), UF("fl_known", fl.sort(), Bytes, B)(fl, txid))
    def evbatch(self, g, l):
        es = L(l.sort()).es; a, b = es.accessor(0, 0), es.accessor(0, 1)
        return Acc("graph_evbatch", self.GS, g, lambda i, h: z3.If(self.known(h, ap(a, lat(l, i))), self.evict(h, ap(a, lat(l, i)), ap(b, lat(l, i))), h), (g, l))
def G_cs0(ex): return G(ex).cs0()
def gmodel(*names):
    def d(f):
        for n in names: models.TAB[n] = f
        return f
    return d
def gcell(ex, st, a):
    rr = models.rootref(ex, st, a); return rr, ex.term(st, ex.load(st, rr))
def g_insert(name, opn):
    def m(ex, st, inst, args, ty):
        q = G(ex); rr, g = gcell(ex, st, args[0]); xs = [ex.term(st, a) for a in args[1:]]; new = getattr(q, opn)(g, *xs); c = q.op(name, g, new, *xs); ex.store(st, rr, new); return c
    models.TAB["TxGraph::" + name] = m
for n, o in (("insert_tx", "tx"), ("insert_anchor", "anchor"), ("insert_seen_at", "seen"), ("insert_evicted_at", "evict"), ("insert_txout", "txout")): g_insert(n, o)
def g_fold(name, opn):
    def m(ex, st, inst, args, ty):
        q = G(ex); rr, g = gcell(ex, st, args[0]); l = ex.term(st, args[1]); new = getattr(q, opn)(g, l).at(llen(l)); q.eta(new)
        if opn == "batch":
            for h, k in getattr(ex, "batches", []): fact(new, q.same_batch(g, l, h, k))
        c = q.op(name, g, new, l); ex.store(st, rr, new); return c
    models.TAB["TxGraph::" + name] = m
g_fold("batch_insert_unconfirmed", "batch"); g_fold("batch_insert_relevant_evicted_at", "evbatch")
@gmodel("TxGraph::apply_changeset")
def _(ex, st, inst, args, ty):
    q = G(ex); rr, g = gcell(ex, st, args[0]); ex.store(st, rr, q.apply(g, ex.term(st, args[1]))); return UNIT
@gmodel("TxGraph::initial_changeset")
def _(ex, st, inst, args, ty):
    q = G(ex); return S_ginit(q, ex.term(st, args[0]))
def S_ginit(q, g):
    c = UF("graph_cs_init", q.GS, q.CS)(g); f = UF("graph_apply", q.GS, q.CS, q.GS); fact(c, f(q.empty(), c) == g); return c
@gmodel("TxGraph::get_tx")
def _(ex, st, inst, args, ty):
    q = G(ex); m = q.txs(ex.term(st, args[0])); t = ex.term(st, args[1]); x = mget(m, t); return models.fork2(ex, st, mhas(m, t), models.some(ty, x), models.none(ty))
models.TAB["<TxGraph as Default>::default"] = lambda ex, st, inst, args, ty: G(ex).empty()
def local_or(key, f):
    """an external trait method that shares its name with one of /repo's: the latter runs as written"""
    def m(ex, st, inst, args, ty): return ex.run_fn(inst, args, st) if inst.has_body else f(ex, st, inst, args, ty)
    models.TAB[key] = m
def m_csmerge(ex, st, inst, args, ty):
    q = G(ex); rr, a = gcell(ex, st, args[0]); ex.store(st, rr, q.merge(a, ex.term(st, args[1]))); return UNIT
local_or("<ChangeSet as Merge>::merge", m_csmerge)
local_or("<ChangeSet as Merge>::is_empty", lambda ex, st, inst, args, ty: G(ex).is_empty(ex.term(st, args[0])))
local_or("<ChangeSet as Default>::default", lambda ex, st, inst, args, ty: G(ex).cs0())
def fin(v, i):
    """final value of the i-th argument, taken by mutable reference"""
    return lambda st: v.term(st, st.heap[v.mut[i]])
def mutargs(v, *names):
    a = v.args(*names); v.mut = {i: x.cell for i, x in enumerate(a) if isinstance(x, Ref)}; return a
def mapeq(a, b): return meq(a, b)
def seteq(a, b):
    x = fresh("seq_x", a.sort().domain()); return zsel(a, x) == zsel(b, x)
def merged(a, b, r):
    """r holds every entry of both, those of b winning"""
    k = fresh("mg_k", M(a.sort()).ks); return z3.And(mhas(r, k) == z3.Or(mhas(a, k), mhas(b, k)), z3.Implies(mhas(r, k), mget(r, k) == z3.If(mhas(b, k), mget(b, k), mget(a, k))))
# ------------------------------------------------------------------ first generation changesets
C1 = ["spouts", "script_to_spout", "txid_to_shared_secret", "label_to_spout", "label_to_tweak", "num_to_label"]
def c1f(ex, t, n): return fld(ex, ix(ex, "SpIndexesChangeSet"), t, n)
def i1f(ex, t, n): return fld(ex, ix(ex, "SpIndexes"), t, n)
@spec("v1.merge", "<SpIndexesChangeSet as Merge>::merge")
class _:
    def setup(v): return mutargs(v, "self", "other")
    def post(v, st, ret):
        ex = v.ex; a, b, r = v.a["self"], v.a["other"], fin(v, 0)(st); out = []
        for n in C1:
            x, y, z = c1f(ex, a, n), c1f(ex, b, n), c1f(ex, r, n)
            if is_map(x.sort()): out.append((n + "~", merged(x, y, z)))
            else: e = fresh("el", x.sort().domain()); out.append((n + "~", zsel(z, e) == z3.Or(zsel(x, e), zsel(y, e))))
        return out
def empty1(ex, t): return z3.And(*[domempty(mdom(c1f(ex, t, n)) if is_map(c1f(ex, t, n).sort()) else c1f(ex, t, n)) for n in C1])
domempty = models.domempty
@spec("v1.is_empty", "<SpIndexesChangeSet as Merge>::is_empty")
class _:
    def setup(v): return v.args("self")
    def post(v, st, ret): return [("exactly-when-nothing-held", v.term(st, ret) == empty1(v.ex, v.a["self"]))]
def conv1(v, src, dst, ret):
    """same entries; the label tweaks are the same scalars"""
    ex = v.ex; out = []
    for n in C1:
        x, y = src(ex, n), dst(ex, ret, n)
        if x.sort() == y.sort(): out.append((n, mapeq(x, y) if is_map(x.sort()) else seteq(x, y)))
        else: raise Unsupported("label table sorts")
    return out
@spec("v1.to_changeset", "<SpIndexesChangeSet as From>::from")
class _:
    def setup(v):
        a = v.args("index"); t = i1f(v.ex, v.a["index"], "label_to_tweak"); k = z3.Const("lk", M(t.sort()).ks); s = M(t.sort()).vs
        v.assume(z3.ForAll([k], z3.Implies(mhas(t, k), s.accessor(0, 0)(mget(t, k)) != 0), patterns=[mhas(t, k)])); return a       # label tweaks are hash outputs: not zero
    def post(v, st, ret): return conv1(v, lambda ex, n: i1f(ex, v.a["index"], n), c1f, v.term(st, ret))
@spec("v1.from_changeset", "<SpIndexes as From>::from")
class _:
    def setup(v): return v.args("changeset")
    def post(v, st, ret): return conv1(v, lambda ex, n: c1f(ex, v.a["changeset"], n), i1f, v.term(st, ret))
def t_merge(ex, cty, fields, f, a, b):
    return {n: (models.munion(f(ex, a, n), f(ex, b, n)) if is_map(f(ex, a, n).sort()) else models.sunion(f(ex, a, n), f(ex, b, n))) for n in fields}
@lemma("lemma.v1-merge")
def _(v):
    """merging is associative and an empty changeset changes nothing: applying a merged changeset is applying both in turn"""
    ex = v.ex; ty = ix(ex, "SpIndexesChangeSet"); s, a, b, e = [v.sym(n, ty) for n in ("s", "a", "b", "e")]; out = []
    v.assume(empty1(ex, e))
    for n in C1:
        x, y, z, w = [c1f(ex, t, n) for t in (s, a, b, e)]
        if is_map(x.sort()):
            u = models.munion; out += [(n + "-in-turn", mapeq(u(u(x, y), z), u(x, u(y, z)))), (n + "-nothing", z3.And(mapeq(u(x, w), x), mapeq(u(w, x), x)))]
        else:
            u = models.sunion; out += [(n + "-in-turn", seteq(u(u(x, y), z), u(x, u(y, z)))), (n + "-nothing", seteq(u(x, w), x))]
    return out
# ------------------------------------------------------------------ candidate scripts of a light client
def pubf(ex, p, n): return fld(ex, ix(ex, "SpPub"), p, n)
def ixf(ex, t, n): return fld(ex, ix(ex, "SpIndex"), t, n)
def i2(ex, t, n): return fld(ex, ix(ex, "SpIndexerV2"), t, n)
def keys2(ex, t): p = i2(ex, t, "sp_pub"); return pubf(ex, p, "scan_sk"), pubf(ex, p, "spend_pk")
@spec("v2.derive_spks_for_tweak", "SpIndexerV2::derive_spks_for_tweak")
class _:
    def setup(v): return v.args("self", "tweak")
    def post(v, st, ret):
        ex = v.ex; s = v.a["self"]; scan, spend = keys2(ex, s)
        return spks_members(ex, spend, mul(scan, v.a["tweak"]), z3.IntVal(0), ixf(ex, i2(ex, s, "index"), "label_lookup"), v.term(st, ret))
@lemma("lemma.candidates-match")
def _(v):
    """an output is a first payment to the address or one of its labelled addresses exactly when its script is one of the candidates"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); spend, ss, p = z3.Consts("spend ss p", R); tblS = T.sort(fieldty(ex, "SpIndex", "label_lookup")); tbl = z3.Const("tbl", tblS)
    s = Scan(ex, spend, tbl, tx, ss); v.assume(s.wf()); k = z3.Const("k", I); spk = z3.Const("spk", Bytes); x = unserx(bslice(spk, 2, 34)); setlen(spk, 34); v.assume(is_p2tr(spk))
    base = S_spk(spend, ss, k); P = spend + s.tk(k); serx(x); v.assume(spk == cat(lit("5120"), bslice(spk, 2, 34)))     # shape of a taproot script
    def cand(y): return z3.And(mhas(tbl, y - P), spk == p2tr(xonly(y)))
    lab = p2tr(xonly(P + p)); serx(xonly(P)); serx(xonly(P + p)); v.assume(z3.Implies(mhas(tbl, p), P + p != 0)); v.assume(P != 0)
    serx(xonly(x)); serx(xonly(-x)); even(x); even(P); even(P + p)
    return [("candidate-matches", z3.Implies(z3.Or(spk == p2tr(xonly(P)), z3.And(mhas(tbl, p), spk == lab)), s.match(spk, k))),
            ("match-is-candidate", z3.Implies(s.match(spk, k), z3.Or(spk == p2tr(xonly(P)), cand(x), cand(-x))))]
def fieldty(ex, rec, f, crate="indexer"):
    return next(t for n, t in ex.T.vfields(adt(ex, crate, rec), 0) if n == f)
# ------------------------------------------------------------------ labels of the second generation
def lab(ex, t, n): return fld(ex, ix(ex, "Label"), t, n)
def S_mklabel(ex, scan, num): t = S_label(scan, num); return mkrec(ex, ix(ex, "Label"), num=num, tweak=t, point=t)
def S_addl(ex, idx, l):
    """index with label l registered under the point it adds and under its number"""
    vs = M(ixf(ex, idx, "label_lookup").sort()).vs
    return rec_upd(ex, ix(ex, "SpIndex"), idx, label_lookup=mput(ixf(ex, idx, "label_lookup"), lab(ex, l, "point"), vs.constructor(0)(lab(ex, l, "tweak"), lab(ex, l, "num"))), num_to_label=mput(ixf(ex, idx, "num_to_label"), lab(ex, l, "num"), lab(ex, l, "point")))
def hash_generic(v, spend, t):
    """hash outputs are not zero and do not hit the negated spend key"""
    v.assume(z3.And(t != 0, spend + t != 0))
@spec("v2.create_label", "SpPub::create_label")
class _:
    def setup(v):
        a = v.args("self", "num"); hash_generic(v, pubf(v.ex, v.a["self"], "spend_pk"), S_label(pubf(v.ex, v.a["self"], "scan_sk"), v.a["num"])); return a
    def post(v, st, ret): return [("label", v.term(st, ret) == S_mklabel(v.ex, pubf(v.ex, v.a["self"], "scan_sk"), v.a["num"]))]
plain("v2.label_from", "<Label as From>::from", ["pair"], lambda ex, a, ty: S_labfrom(ex, a[0], ty), contract=False)
def S_labfrom(ex, pr, ty):
    s = pr.sort(); e = ap(s.accessor(0, 1), pr); q = e.sort(); return mkrec(ex, ty, point=ap(s.accessor(0, 0), pr), tweak=ap(q.accessor(0, 0), e), num=ap(q.accessor(0, 1), e))
@spec("v2.index_label", "SpIndex::index_label")
class _:
    def setup(v): return mutargs(v, "self", "label")
    def post(v, st, ret): return [("registered", fin(v, 0)(st) == S_addl(v.ex, v.a["self"], v.a["label"]))]
def S_getl(ex, ntl, ll, m, oty):
    T = ex.T; p = mget(ntl, m); e = mget(ll, p); return z3.If(z3.And(mhas(ntl, m), mhas(ll, p)), T.mk(oty, 1, ap(M(ll.sort()).vs.accessor(0, 0), e)), T.mk(oty, 0))
@spec("v2.get_label", "SpIndex::get_label")
class _:
    def setup(v): return v.args("self", "m")
    def post(v, st, ret): return [("registered-tweak", v.term(st, ret) == S_getl(v.ex, ixf(v.ex, v.a["self"], "num_to_label"), ixf(v.ex, v.a["self"], "label_lookup"), v.a["m"], v.retty()))]
@spec("v1.get_label", "SpIndexes::get_label")
class _:
    def setup(v): return v.args("self", "m")
    def post(v, st, ret): return [("registered-tweak", v.term(st, ret) == S_getl(v.ex, i1f(v.ex, v.a["self"], "num_to_label"), i1f(v.ex, v.a["self"], "label_to_tweak"), v.a["m"], v.retty()))]
def csf(ex, t, n): return fld(ex, ix(ex, "ChangeSet"), t, n)
def cs_default(ex):
    return models.empty_of(ex, ix(ex, "ChangeSet"))
def S_addr(ex, scan, spend, nw): return mkrec(ex, spc(ex), version=z3.IntVal(0), scan=scan, spend=spend, network=nw)
@spec("v2.get_address", "SpIndexerV2::get_address")
class _:
    def setup(v): return v.args("self", "network")
    def post(v, st, ret): scan, spend = keys2(v.ex, v.a["self"]); return [("address", v.term(st, ret) == S_addr(v.ex, scan, spend, v.a["network"]))]
def labels_wf(ex, scan, ntl, ll):
    """every number is registered with its own label, under the point it adds"""
    m = z3.Const("lw_m", I); p = mget(ntl, m); e = mget(ll, p); s = M(ll.sort()).vs; t = S_label(scan, m)
    return z3.ForAll([m], z3.Implies(mhas(ntl, m), z3.And(p == t, mhas(ll, p), s.accessor(0, 0)(e) == t, s.accessor(0, 1)(e) == m)), patterns=[z3.Select(mdom(ntl), m)])
def S_with_label(ex, s, num):
    scan, _ = keys2(ex, s); return rec_upd(ex, ix(ex, "SpIndexerV2"), s, index=S_addl(ex, i2(ex, s, "index"), S_mklabel(ex, scan, num)))
@spec("v2.add_label", "SpIndexerV2::add_label")
class _:
    def setup(v):
        a = mutargs(v, "self", "num"); scan, spend = keys2(v.ex, v.a["self"]); hash_generic(v, spend, S_label(scan, v.a["num"])); return a
    def post(v, st, ret):
        ex = v.ex; r = v.term(st, ret); scan, _ = keys2(ex, v.a["self"]); ls = csf(ex, r, "label_lookup"); l = S_mklabel(ex, scan, v.a["num"]); x = fresh("l", ls.sort().domain())
        rest = z3.And(*[csf(ex, r, n) == csf(ex, v.ex.term(st, v.d0(st)), n) for n in ("scan_sk", "spend_pk", "txid_to_partial_secret", "graph")]) if False else z3.BoolVal(True)
        return [("registered", fin(v, 0)(st) == S_with_label(ex, v.a["self"], v.a["num"])), ("changeset-is-the-label", zsel(ls, x) == (x == l)), ("changeset-nothing-else", cs_only(ex, r, ("label_lookup",)))]
def cs_only(ex, r, but):
    """all other parts of a changeset are empty"""
    T = ex.T; out = []
    for n, t in T.vfields(ix(ex, "ChangeSet"), 0):
        if n in but: continue
        x = csf(ex, r, n)
        if n == "graph": out.append(x == G_cs0(ex))
        elif is_map(x.sort()): out.append(mdom(x) == z3.K(M(x.sort()).ks, z3.BoolVal(False)))
        elif x.sort().kind() == z3.Z3_ARRAY_SORT: out.append(x == z3.K(x.sort().domain(), z3.BoolVal(False)))
        else: out.append(T.is_v(t, 0, x))
    return z3.And(*out)
@spec("v2.get_labeled_address", "SpIndexerV2::get_labeled_address")
class _:
    def setup(v):
        ex = v.ex; a = mutargs(v, "self", "num", "network"); s = v.a["self"]; scan, spend = keys2(ex, s); idx = i2(ex, s, "index"); hash_generic(v, spend, S_label(scan, v.a["num"]))
        v.assume(labels_wf(ex, scan, ixf(ex, idx, "num_to_label"), ixf(ex, idx, "label_lookup"))); return a
    def post(v, st, ret):
        ex = v.ex; s = v.a["self"]; scan, spend = keys2(ex, s); idx = i2(ex, s, "index"); f = fin(v, 0)(st); m = v.a["num"]
        return [("address", v.term(st, ret) == label_code(ex, S_addr(ex, scan, spend, v.a["network"]), S_label(scan, m))), ("registered", z3.Or(f == S_with_label(ex, s, m), z3.And(f == s, mhas(ixf(ex, idx, "num_to_label"), m)))),
                ("recognised", mhas(ixf(ex, i2(ex, f, "index"), "label_lookup"), S_label(scan, m)))]
@spec("v1.add_label", "SpIndexes::add_label")
class _:
    def setup(v):
        a = mutargs(v, "self", "code", "scan", "m"); v.assume(S_label(v.a["scan"], v.a["m"]) != 0); return a
    def post(v, st, ret):
        ex = v.ex; T = ex.T; rt = v.retty(); r = v.term(st, ret); s, c, m = v.a["self"], v.a["code"], v.a["m"]; t = S_label(v.a["scan"], m); g = lin(cf(ex, c, "spend") + t) != 0; f = fin(v, 0)(st); vs = M(i1f(ex, s, "label_to_tweak").sort()).vs
        upd = rec_upd(ex, ix(ex, "SpIndexes"), s, label_to_tweak=mput(i1f(ex, s, "label_to_tweak"), t, vs.constructor(0)(t, m)), num_to_label=mput(i1f(ex, s, "num_to_label"), m, t))
        return [("error-iff-infinity", T.is_v(rt, 0, r) == g), ("labelled-address", z3.Implies(g, T.acc(rt, 0, 0, r) == label_code(ex, c, t))), ("registered", f == z3.If(g, upd, s))]
@lemma("lemma.label-recognised")
def _(v):
    """payments to a labelled address match at a receiver whose label table has that label under the point it adds"""
    ex = v.ex; tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); spend, scan, ss = z3.Consts("spend scan ss", R); idx = v.sym("idx", ix(ex, "SpIndex")); m, k = z3.Consts("m k", I); c = v.sym("c", spc(ex))
    l = S_mklabel(ex, scan, m); t = S_label(scan, m); new = S_addl(ex, idx, l); s = Scan(ex, spend, ixf(ex, new, "label_lookup"), tx, ss); v.assume(cf(ex, c, "spend") == spend); code = label_code(ex, c, t); B_m = cf(ex, code, "spend"); out = S_spk(spend + t, ss, k); S_out(spend + t, ss, k); serx(xonly(S_out(spend + t, ss, k)))
    v.assume(labels_wf(ex, scan, ixf(ex, idx, "num_to_label"), ixf(ex, idx, "label_lookup"))); n = fresh("n", I); p = fresh("p", R)
    old = Scan(ex, spend, ixf(ex, idx, "label_lookup"), tx, ss); v.assume(old.wf()); v.assume(t != 0)
    e = mget(s.tbl, p); vs = M(s.tbl.sort()).vs; ntl, ll = ixf(ex, new, "num_to_label"), s.tbl; q = mget(ntl, n); t2 = S_label(scan, n); e2 = mget(ll, q)
    return [("matches", z3.And(B_m == spend + t, s.match(out, k))), ("table-stays-well-formed", z3.Implies(mhas(s.tbl, p), z3.And(vs.accessor(0, 0)(e) == p, p != 0))),
            ("numbers-stay-well-formed", z3.Implies(z3.And(mhas(ntl, n), z3.Or(n == m, t2 != t)), z3.And(q == t2, mhas(ll, q), vs.accessor(0, 0)(e2) == t2, vs.accessor(0, 1)(e2) == n)))]
# ------------------------------------------------------------------ second generation: elementary operations
def mk2(ex, **f): return mkrec(ex, ix(ex, "SpIndexerV2"), **f)
def S_emptyidx(ex): return ex.T.mk(ix(ex, "SpIndex"), 0, *[models.empty_of(ex, t) for _, t in ex.T.vfields(ix(ex, "SpIndex"), 0)])
plain("v2.new", "SpIndexerV2::new", ["scan", "spend"], lambda ex, a, ty: mk2(ex, sp_pub=mkrec(ex, ix(ex, "SpPub"), scan_sk=a[0], spend_pk=a[1]), index=S_emptyidx(ex), graph=G(ex).empty()), contract=False)
C2 = ["scan_sk", "spend_pk", "txid_to_partial_secret", "label_lookup", "graph"]
def optnone(ex, n, x): return ex.T.is_v(fieldty(ex, "ChangeSet", n), 0, x)
def empty2(ex, c):
    return z3.And(optnone(ex, "scan_sk", csf(ex, c, "scan_sk")), optnone(ex, "spend_pk", csf(ex, c, "spend_pk")), domempty(mdom(csf(ex, c, "txid_to_partial_secret"))), domempty(csf(ex, c, "label_lookup")), G(ex).is_empty(csf(ex, c, "graph")))
def S_merge2(ex, a, b):
    q = G(ex); f = {}
    for n in ("scan_sk", "spend_pk"): x, y = csf(ex, a, n), csf(ex, b, n); f[n] = z3.If(optnone(ex, n, y), x, y)
    f["txid_to_partial_secret"] = models.munion(csf(ex, a, "txid_to_partial_secret"), csf(ex, b, "txid_to_partial_secret")); f["label_lookup"] = models.sunion(csf(ex, a, "label_lookup"), csf(ex, b, "label_lookup")); f["graph"] = q.merge(csf(ex, a, "graph"), csf(ex, b, "graph"))
    return mkrec(ex, ix(ex, "ChangeSet"), **f)
def same_keys(ex, a, b):
    return z3.And(*[z3.Or(optnone(ex, n, csf(ex, a, n)), optnone(ex, n, csf(ex, b, n)), csf(ex, a, n) == csf(ex, b, n)) for n in ("scan_sk", "spend_pk")])
@spec("v2.merge", "<indexer::v2::ChangeSet<indexer::bdk_chain::ConfirmationBlockTime> as indexer::bdk_chain::Merge>::merge")
class _:
    def setup(v): a = mutargs(v, "self", "other"); v.assume(same_keys(v.ex, v.a["self"], v.a["other"])); return a
    def post(v, st, ret):
        ex = v.ex; a, b, r = v.a["self"], v.a["other"], fin(v, 0)(st); w = S_merge2(ex, a, b); x, y, z = [csf(ex, t, "txid_to_partial_secret") for t in (a, b, r)]; e = fresh("el", csf(ex, r, "label_lookup").sort().domain())
        return [("tweaks~", merged(x, y, z)), ("labels~", zsel(csf(ex, r, "label_lookup"), e) == z3.Or(zsel(csf(ex, a, "label_lookup"), e), zsel(csf(ex, b, "label_lookup"), e)))] + [(n, csf(ex, r, n) == csf(ex, w, n)) for n in ("scan_sk", "spend_pk", "graph")]
@spec("v2.is_empty", "<indexer::v2::ChangeSet<indexer::bdk_chain::ConfirmationBlockTime> as indexer::bdk_chain::Merge>::is_empty")
class _:
    def setup(v): return v.args("self")
    def post(v, st, ret): return [("exactly-when-nothing-held", v.term(st, ret) == empty2(v.ex, v.a["self"]))]
@spec("v2.initial_changeset", "SpIndexerV2::initial_changeset")
class _:
    def setup(v): return v.args("self")
    def post(v, st, ret):
        ex = v.ex; T = ex.T; r = v.term(st, ret); s = v.a["self"]; scan, spend = keys2(ex, s); idx = i2(ex, s, "index"); ll = ixf(ex, idx, "label_lookup"); ls = csf(ex, r, "label_lookup"); x = fresh("l", ls.sort().domain()); p = fresh("p", R); q = G(ex); vs = M(ll.sort()).vs
        e = lambda p: mkrec(ex, ix(ex, "Label"), point=p, tweak=ap(vs.accessor(0, 0), mget(ll, p)), num=ap(vs.accessor(0, 1), mget(ll, p)))
        return [("scan-key", csf(ex, r, "scan_sk") == T.mk(fieldty(ex, "ChangeSet", "scan_sk"), 1, scan)), ("spend-key", csf(ex, r, "spend_pk") == T.mk(fieldty(ex, "ChangeSet", "spend_pk"), 1, spend)),
                ("tweaks", mapeq(csf(ex, r, "txid_to_partial_secret"), ixf(ex, idx, "txid_to_partial_secret"))), ("graph", csf(ex, r, "graph") == S_ginit(q, i2(ex, s, "graph"))),
                ("every-label", z3.Implies(mhas(ll, p), zsel(ls, e(p)))), ("only-labels", z3.Implies(zsel(ls, x), z3.And(mhas(ll, lab(ex, x, "point")), x == e(lab(ex, x, "point")))))]
def ginsert(name, opn, *names):
    def setup(v): return mutargs(v, "self", *names)
    def post(v, st, ret):
        ex = v.ex; q = G(ex); s = v.a["self"]; g = i2(ex, s, "graph"); xs = [v.a[n] for n in names]; r = v.term(st, ret); f = fin(v, 0)(st)
        new = getattr(q, opn)(g, *xs) if opn != "evbatch" else q.evbatch(g, xs[0]).at(llen(xs[0]))
        return [("graph-and-nothing-else", f == rec_upd(ex, ix(ex, "SpIndexerV2"), s, graph=new)), ("changeset-covers", q.apply(g, csf(ex, r, "graph")) == new), ("changeset-nothing-else", cs_only(ex, r, ("graph",)))]
    SPECS["v2." + name] = Spec("v2." + name, "SpIndexerV2::" + name, setup, post)
ginsert("insert_anchor", "anchor", "txid", "anchor"); ginsert("insert_seen_at", "seen", "txid", "at"); ginsert("insert_evicted_at", "evict", "txid", "at"); ginsert("batch_insert_relevant_evicted_at", "evbatch", "pairs")
# ------------------------------------------------------------------ received outputs
def sof(ex, s, n): return fld(ex, adt(ex, "bdk_sp", "SpOut"), s, n)
def spout_fields(ex, g, o, sp):
    bl = g("by_label"); tup = bl.sort().domain()
    return dict(by_shared_secret=mput(g("by_shared_secret"), o, sof(ex, sp, "tweak")), by_script=mput(g("by_script"), sof(ex, sp, "script_pubkey"), o), by_label=z3.Store(bl, tup.constructor(0)(sof(ex, sp, "label"), o), z3.BoolVal(True)))
def S_addspout(ex, idx, o, sp): return rec_upd(ex, ix(ex, "SpIndex"), idx, **spout_fields(ex, lambda n: ixf(ex, idx, n), o, sp))
@spec("v2.index_spout", "SpIndex::index_spout")
class _:
    def setup(v): return mutargs(v, "self", "outpoint", "spout")
    def post(v, st, ret): return [("indexed", fin(v, 0)(st) == S_addspout(v.ex, v.a["self"], v.a["outpoint"], v.a["spout"]))]
@spec("v2.index_partial_secret", "SpIndex::index_partial_secret")
class _:
    def setup(v): return mutargs(v, "self", "txid", "ps")
    def post(v, st, ret): return [("indexed", fin(v, 0)(st) == rec_upd(v.ex, ix(v.ex, "SpIndex"), v.a["self"], txid_to_partial_secret=mput(ixf(v.ex, v.a["self"], "txid_to_partial_secret"), v.a["txid"], v.a["ps"])))]
@spec("v2.get_by_script", "SpIndex::get_by_script")
class _:
    def setup(v): return v.args("self", "script")
    def post(v, st, ret):
        ex = v.ex; T = ex.T; rt = v.retty(); bs, ss = ixf(ex, v.a["self"], "by_script"), ixf(ex, v.a["self"], "by_shared_secret"); o = mget(bs, v.a["script"])
        return [("tweak-of-that-output", v.term(st, ret) == z3.If(z3.And(mhas(bs, v.a["script"]), mhas(ss, o)), T.mk(rt, 1, mget(ss, o)), T.mk(rt, 0)))]
class RecAcc:
    """a record whose named fields are accumulated independently of each other"""
    def __init__(self, ex, ty, base, parts): self.ex = ex; self.ty = ty; self.base = base; self.parts = parts
    def at(self, i): return rec_upd(self.ex, self.ty, self.base, **{n: a.at(i) for n, a in self.parts.items()})
    def raw(self, i): return rec_upd(self.ex, self.ty, self.base, **{n: a.raw(i) for n, a in self.parts.items()})
def field_accs(ex, ty, f, base, l, step):
    """step(field value getter, i) -> {field: value after the i-th element}"""
    def one(n): return Acc("fold_" + n, f(ex, base, n).sort(), f(ex, base, n), lambda i, a: step(lambda m: a if m == n else f(ex, base, m), i)[n], (f(ex, base, n), l))
    return RecAcc(ex, ty, base, {n: one(n) for n in step(lambda m: f(ex, base, m), z3.IntVal(0))})
def idx_acc(ex, idx, l):
    """index after the first i received outputs of a list, each under its own outpoint"""
    return field_accs(ex, ix(ex, "SpIndex"), ixf, idx, l, lambda g, i: spout_fields(ex, g, sof(ex, lat(l, i), "outpoint"), lat(l, i)))
def S_indextx(ex, scan, spend, idx, tx, ps, l=None):
    """(relevant, index after indexing tx with its tweak data)"""
    l = S_scan(ex, spend, ixf(ex, idx, "label_lookup"), tx, mul(scan, ps)) if l is None else l; t = txid_of(tx); b = rec_upd(ex, ix(ex, "SpIndex"), idx, txid_to_partial_secret=mput(ixf(ex, idx, "txid_to_partial_secret"), t, ps))
    return llen(l) > 0, z3.If(llen(l) > 0, idx_acc(ex, b, l).at(llen(l)), idx), l
def v2_setup(v, tx, s="self"):
    """the indexer's label table is well formed and the transaction has fewer than 2^32 outputs"""
    ex = v.ex; idx = i2(ex, v.a[s], "index"); sc_ = Scan(ex, keys2(ex, v.a[s])[1], ixf(ex, idx, "label_lookup"), tx, z3.Const("ss0", R)); v.assume(sc_.wf()); v.assume(llen(sc_.outs) < 2**32)
@spec("v2.index_tx", "SpIndexerV2::index_tx")
class _:
    def setup(v):
        ex = v.ex; a = mutargs(v, "self", "tx", "ps"); v2_setup(v, v.a["tx"]); scan, spend = keys2(ex, v.a["self"]); idx = i2(ex, v.a["self"], "index"); rel, new, l = S_indextx(ex, scan, spend, idx, v.a["tx"], v.a["ps"])
        b = rec_upd(ex, ix(ex, "SpIndex"), idx, txid_to_partial_secret=mput(ixf(ex, idx, "txid_to_partial_secret"), txid_of(v.a["tx"]), v.a["ps"])); v.new = (rel, new); v.accs = list(idx_acc(ex, b, l).parts.values()); return a
    def post(v, st, ret):
        ex = v.ex; rel, new = v.new; r = v.term(st, ret); f = fin(v, 0)(st); tp = csf(ex, r, "txid_to_partial_secret"); t = fresh("t", Bytes); me = txid_of(v.a["tx"])
        return [("index", f == rec_upd(ex, ix(ex, "SpIndexerV2"), v.a["self"], index=new)), ("changeset", z3.And(mhas(tp, t) == z3.And(rel, t == me), z3.Implies(mhas(tp, t), mget(tp, t) == v.a["ps"]))), ("changeset-nothing-else", cs_only(ex, r, ("txid_to_partial_secret",)))]

# ------------------------------------------------------------------ lookups
def op_mk(ex, txid, vout): return mkrec(ex, adt(ex, "bitcoin", "OutPoint"), txid=txid, vout=vout)
def in_tx(v, m, t, f, ret):
    """ret lists f of exactly the entries whose outpoint is in transaction t, each once"""
    ex = v.ex; ks = M(m.sort()).ks; o, i, j = fresh("o", ks), fresh("i", I), fresh("j", I); opt = adt(ex, "bitcoin", "OutPoint"); ex.T.deep_note(o, opt, 2)
    s = models.submap(ex, m, op_mk(ex, t, z3.IntVal(0)), op_mk(ex, t, z3.IntVal(2**32 - 1)), opt); n, at = enum_map(mdom(s)); x = fld(ex, opt, o, "txid"); w = fld(ex, opt, o, "vout"); lt = z3.Or(models.blt(t, x), models.blt(x, t), t == x); ex.T.deep_note(at(i), opt, 2)
    return [("exactly-the-transaction's-entries", z3.Implies(z3.And(lt, 0 <= w, w < 2**32), mhas(s, o) == z3.And(mhas(m, o), fld(ex, opt, o, "txid") == t))), ("one-per-entry", llen(ret) == n), ("each-the-entry's", z3.Implies(z3.And(0 <= i, i < n), lat(ret, i) == f(mget(m, at(i)))))]
@spec("v2.txouts_in_tx", "roots::r2_txouts_in_tx")
class _:
    def setup(v): return v.args("self", "txid")
    def post(v, st, ret): return in_tx(v, ixf(v.ex, v.a["self"], "by_shared_secret"), v.a["txid"], lambda x: x, v.term(st, ret))
@spec("v1.txouts_in_tx", "roots::r1_txouts_in_tx")
class _:
    def setup(v): return v.args("self", "txid")
    def post(v, st, ret): return in_tx(v, i1f(v.ex, v.a["self"], "spouts"), v.a["txid"], lambda x: x, v.term(st, ret))
@spec("v2.get_by_label", "roots::r2_get_by_label")
class _:
    def setup(v):
        ex = v.ex; a = v.args("self", "m"); s = v.a["self"]; bl, ss = ixf(ex, s, "by_label"), ixf(ex, s, "by_shared_secret"); n, at = enum_map(bl); q = bl.sort().domain(); o = lambda i: ap(q.accessor(0, 1), at(i)); v.n = n
        v.accs = [list_acc("bylabel", M(ss.sort()).vs, (s, v.a["m"]), lambda i: mget(ss, o(i)), lambda i: z3.And(ap(q.accessor(0, 0), at(i)) == v.a["m"], mhas(ss, o(i))))]; return a
    def post(v, st, ret): return [("tweaks-of-the-outputs-with-that-label", v.term(st, ret) == v.accs[0].at(v.n))]
@spec("v2.by_xonly", "roots::r2_by_xonly")
class _:
    def setup(v):
        ex = v.ex; a = v.args("self"); m = ixf(ex, v.a["self"], "by_script"); k = z3.Const("bx_k", Bytes)
        v.assume(z3.ForAll([k], z3.Implies(mhas(m, k), z3.And(is_p2tr(k), blen(k) == 34, core.validx_(bslice(k, 2, 34)))), patterns=[mhas(m, k)])); return a
    def post(v, st, ret):
        ex = v.ex; m = ixf(ex, v.a["self"], "by_script"); r = v.term(st, ret); n, at = enum_map(mdom(m)); i = fresh("i", I); es = L(r.sort()).es
        return [("one-per-script", llen(r) == n), ("each-key-and-outpoint", z3.Implies(z3.And(0 <= i, i < n), lat(r, i) == es.constructor(0)(unserx(bslice(at(i), 2, 34)), mget(m, at(i)))))]

# ------------------------------------------------------------------ what indexing a transaction records
def so_op(ex, x): return sof(ex, x, "outpoint")
def idx_lemma(v):
    """an index, the list of outputs scanning reported for one transaction (distinct outpoints), and a position in it"""
    ex = v.ex; T = ex.T; b = v.sym("b", ix(ex, "SpIndex")); l = z3.Const("l", ListS(T.sort(adt(ex, "bdk_sp", "SpOut")))); i, j = z3.Consts("i j", I); n = llen(l); A = idx_acc(ex, b, l)
    v.assume(z3.And(0 <= i, i < n)); A.at(0); A.at(simp(i + 1)); return ex, b, l, i, j, n, A
FR = ["num_to_label", "label_lookup", "txid_to_partial_secret"]
@lemma("lemma.index-adds")
def _(v):
    """recording the reported outputs one by one: each is under its outpoint with its tweak and label, every earlier entry is kept, nothing else appears (induction over the list)"""
    ex, b, l, i, j, n, A = idx_lemma(v); opt = adt(ex, "bitcoin", "OutPoint"); S = lambda a: ixf(ex, a, "by_shared_secret"); BL = lambda a: ixf(ex, a, "by_label"); BS = lambda a: ixf(ex, a, "by_script")
    o = z3.Const("o", M(S(b).sort()).ks); q = BL(b).sort().domain(); e = z3.Const("e", q); sc = z3.Const("sc", Bytes); isel = z3.Function("listed", I, o.sort(), B); isbl = z3.Function("listed_label", I, q, B); issc = z3.Function("listed_script", I, Bytes, B)
    x = lat(l, i); lb = q.constructor(0)(sof(ex, x, "label"), so_op(ex, x)); i1 = simp(i + 1)
    # listed(i, o): o is the outpoint of one of the first i reported outputs
    v.assume(z3.And(isel(i1, o) == z3.Or(isel(i, o), so_op(ex, x) == o), isbl(i1, e) == z3.Or(isbl(i, e), lb == e), issc(i1, sc) == z3.Or(issc(i, sc), sof(ex, x, "script_pubkey") == sc), z3.Not(isel(0, o)), z3.Not(isbl(0, e)), z3.Not(issc(0, sc))))
    v.assume(z3.Implies(z3.And(0 <= j, j < i), so_op(ex, lat(l, j)) != so_op(ex, x)))
    def inv(k):
        a = A.raw(k); y = lat(l, j)
        return [("outpoints", mhas(S(a), o) == z3.Or(mhas(S(b), o), isel(k, o))), ("earlier-kept", z3.Implies(z3.Not(isel(k, o)), mget(S(a), o) == mget(S(b), o))), ("labels", zsel(BL(a), e) == z3.Or(zsel(BL(b), e), isbl(k, e))), ("scripts", mhas(BS(a), sc) == z3.Or(mhas(BS(b), sc), issc(k, sc))), ("earlier-scripts-kept", z3.Implies(z3.Not(issc(k, sc)), mget(BS(a), sc) == mget(BS(b), sc))),
                ("recorded", z3.Implies(z3.And(0 <= j, j < k), z3.And(mhas(S(a), so_op(ex, y)), mget(S(a), so_op(ex, y)) == sof(ex, y, "tweak"), zsel(BL(a), q.constructor(0)(sof(ex, y, "label"), so_op(ex, y))), mhas(BS(a), sof(ex, y, "script_pubkey"))))), ("rest", z3.And(*[ixf(ex, a, f) == ixf(ex, b, f) for f in FR]))]
    for nm, g in inv(i): v.assume(g)
    return [("start-" + nm, z3.substitute(z3.Implies(i == 0, z3.BoolVal(True)), (i, i)) if False else g) for nm, g in inv(z3.IntVal(0)) if nm != "recorded"] + [("step-" + nm, g) for nm, g in inv(i1)]
def last_accs(ex, l):
    """was a script among the first i reported outputs, and under which outpoint last"""
    f = lambda i: sof(ex, lat(l, i), "script_pubkey"); OP = ex.T.sort(adt(ex, "bitcoin", "OutPoint")); o0 = z3.Const("lo_none", OP)
    F = lambda sc: Acc("spk_seen", B, z3.BoolVal(False), lambda i, a: z3.Or(a, f(i) == sc), (l, sc)); V = lambda sc: Acc("spk_last", OP, o0, lambda i, a: z3.If(f(i) == sc, so_op(ex, lat(l, i)), a), (l, sc)); return F, V
@lemma("lemma.index-last-script")
def _(v):
    """a script leads to the last reported output that has it, whatever the index was before (induction)"""
    ex, b, l, i, j, n, A = idx_lemma(v); BS = lambda a: ixf(ex, a, "by_script"); sc = z3.Const("sc", Bytes); F, V = [q(sc) for q in last_accs(ex, l)]; i1 = simp(i + 1)
    for q in (F, V): q.at(0); q.at(i1)
    inv = lambda k: z3.If(F.raw(k), z3.And(mhas(BS(A.raw(k)), sc), mget(BS(A.raw(k)), sc) == V.raw(k)), z3.And(mhas(BS(A.raw(k)), sc) == mhas(BS(b), sc), mget(BS(A.raw(k)), sc) == mget(BS(b), sc)))
    v.assume(inv(i)); return [("start", inv(z3.IntVal(0))), ("step", inv(i1))]
@lemma("lemma.index-twice")
def _(v):
    """indexing a transaction again: the same outputs are reported, and recording them again leaves every table as it was (induction; lemma.index-adds and lemma.index-last-script give the hypotheses)"""
    ex, b, l, i, j, n, A = idx_lemma(v); S = lambda a: ixf(ex, a, "by_shared_secret"); BL = lambda a: ixf(ex, a, "by_label"); BS = lambda a: ixf(ex, a, "by_script"); q = BL(b).sort().domain(); done = A.raw(n); A2 = idx_acc(ex, done, l); i1 = simp(i + 1); A2.at(0); A2.at(i1)
    sc = z3.Const("sc", Bytes); F, V = last_accs(ex, l); o = z3.Const("o", M(S(b).sort()).ks); e = z3.Const("e", q); x = lat(l, i); y = x
    v.assume(z3.And(mhas(S(done), so_op(ex, y)), mget(S(done), so_op(ex, y)) == sof(ex, y, "tweak"), zsel(BL(done), q.constructor(0)(sof(ex, y, "label"), so_op(ex, y)))))      # lemma.index-adds at the end of the list
    fn, vn = F(sc).raw(n), V(sc).raw(n); at2 = A2.raw(n)
    v.assume(z3.Implies(fn, z3.And(mhas(BS(done), sc), mget(BS(done), sc) == vn)))                                        # lemma.index-last-script for the first run
    v.assume(z3.If(fn, z3.And(mhas(BS(at2), sc), mget(BS(at2), sc) == vn), z3.And(mhas(BS(at2), sc) == mhas(BS(done), sc), mget(BS(at2), sc) == mget(BS(done), sc))))   # and for the second
    inv = lambda k: z3.And(mhas(S(A2.raw(k)), o) == mhas(S(done), o), mget(S(A2.raw(k)), o) == mget(S(done), o), zsel(BL(A2.raw(k)), e) == zsel(BL(done), e), *[ixf(ex, A2.raw(k), f) == ixf(ex, done, f) for f in FR])
    v.assume(inv(i)); scan, spend, ps = z3.Consts("scan spend ps", R); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); m = v.sym("before", ix(ex, "SpIndex"))
    # the whole of index_tx: the label table is the same, so the same outputs are reported, from the same starting point
    r1, n1, l1 = S_indextx(ex, scan, spend, m, tx, ps); after = z3.Const("after", m.sort()); v.assume(z3.And(after == n1, ixf(ex, after, "label_lookup") == ixf(ex, m, "label_lookup"))); t = txid_of(tx)
    v.assume(z3.Implies(r1, ixf(ex, after, "txid_to_partial_secret") == mput(ixf(ex, m, "txid_to_partial_secret"), t, ps)))                                                # lemma.index-adds: only outputs are recorded by the list
    r2, n2, l2 = S_indextx(ex, scan, spend, after, tx, ps); start2 = rec_upd(ex, ix(ex, "SpIndex"), after, txid_to_partial_secret=mput(ixf(ex, after, "txid_to_partial_secret"), t, ps))
    return [("start", inv(z3.IntVal(0))), ("step", inv(i1)), ("script-table-same", z3.And(mhas(BS(at2), sc) == mhas(BS(done), sc), mget(BS(at2), sc) == mget(BS(done), sc))), ("same-report", z3.And(r1 == r2, l1 == l2)), ("same-start", z3.Implies(r1, start2 == after)), ("unrelated-untouched", z3.Implies(z3.Not(r1), z3.And(n1 == m, n2 == after)))]
@lemma("lemma.scripts-listable")
def _(v):
    """every reported output has a taproot script with a valid key, so the script listing of by_xonly is defined on all of them; it is reported once, under an outpoint of its transaction"""
    ex = v.ex; tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); spend, ss = z3.Consts("spend ss", R); tbl = z3.Const("tbl", ex.T.sort(fieldty(ex, "SpIndex", "label_lookup"))); s = Scan(ex, spend, tbl, tx, ss); v.assume(z3.And(s.wf(), llen(s.outs) < 2**32)); l = S_scan(ex, spend, tbl, tx, ss); i, j = z3.Consts("i j", I); v.assume(z3.And(0 <= i, i < j, j < llen(l)))
    x = lat(l, i); y = lat(l, j); k = sof(ex, x, "script_pubkey"); opt = adt(ex, "bitcoin", "OutPoint")
    return [("taproot", z3.And(is_p2tr(k), core.validx_(bslice(k, 2, 34)))), ("own-transaction", fld(ex, opt, so_op(ex, x), "txid") == txid_of(tx)), ("distinct", so_op(ex, x) != so_op(ex, y)), ("is-that-output", z3.And(sof(ex, x, "script_pubkey") == fld(ex, adt(ex, "bitcoin", "TxOut"), lat(s.outs, fld(ex, opt, so_op(ex, x), "vout")), "script_pubkey")))]
# ------------------------------------------------------------------ first generation: indexing
def graph_cands(g0s):
    """loop candidates: applying the changeset so far to a graph gives the graph now"""
    def cands(v, ex, st0, h, mods, leaves, pos):
        q = G(ex); gl = [(n, f) for n, f, s in leaves if s == q.GS]; cl = [(n, f) for n, f, s in leaves if s == q.CS]; f = UF("graph_apply", q.GS, q.CS, q.GS)
        return [Cand(f"covers({gn},{cn})", lambda st, gf=gf, cf=cf_, g0=g0: f(g0, cf(st)) == gf(st)) for gn, gf in gl for cn, cf_ in cl for g0 in g0s(v)]
    return cands
def i1x(ex, t, n): return fld(ex, ix(ex, "SpIndexer"), t, n)
def S_prevouts(ex, src, tx): return UF("prevouts_of", src.sort(), tx.sort(), ListS(ex.T.sort(adt(ex, "bitcoin", "TxOut"))))(src, tx)
def c_prevs(ex, st, inst, args, ty):
    l = S_prevouts(ex, ex.term(st, args[0]), ex.term(st, args[1])); ex.T.note(l, ty); return l
CONTRACTS["<AbsPrev as PrevoutSource>::get_tx_prevouts"] = c_prevs
def v1_acc(ex, s, l):
    """first i reported outputs recorded by outpoint, by label and by script"""
    def step(g, i):
        x = lat(l, i); ls = g("label_to_spout"); t = ls.sort().domain()
        return dict(spouts=mput(g("spouts"), so_op(ex, x), x), label_to_spout=z3.Store(ls, t.constructor(0)(sof(ex, x, "label"), x), z3.BoolVal(True)), script_to_spout=mput(g("script_to_spout"), sof(ex, x, "script_pubkey"), x))
    return field_accs(ex, ix(ex, "SpIndexes"), i1f, s, l, step)
def v1_gacc(ex, g, tx, pv):
    q = G(ex); ins = fld(ex, adt(ex, "bitcoin", "Transaction"), tx, "input"); op = lambda i: fld(ex, adt(ex, "bitcoin", "TxIn"), lat(ins, i), "previous_output")
    return Acc("v1_prevs", q.GS, g, lambda i, a: q.txout(a, op(i), lat(pv, i)), (g, tx, pv)), z3.If(llen(pv) < llen(ins), llen(pv), llen(ins))
@spec("v1.index_tx", "SpIndexer::index_tx", opt={"cands": graph_cands(lambda v: [v.g0])})
class _:
    def setup(v):
        ex = v.ex; a = mutargs(v, "self", "tx"); s, tx = v.a["self"], v.a["tx"]; v.scanner = i1x(ex, s, "scanner"); v.idx = i1x(ex, s, "indexes"); v.g0 = i1x(ex, s, "tx_graph"); v.pv = S_prevouts(ex, i1x(ex, s, "prevout_source"), tx); v.t = txid_of(tx)
        sp, tbl = scanner_parts(ex, v.scanner); sc_ = Scan(ex, sp, tbl, tx, z3.Const("ss0", R)); v.assume(z3.And(sc_.wf(), llen(sc_.outs) < 2**32)); q = G(ex)
        okf, val = S_td(ex, tx, v.pv, None); v.ok = okf; v.ss = mul(sc(ex, v.scanner, "scan_sk"), val); v.l = S_scan(ex, sp, tbl, tx, v.ss); tt = i1f(ex, v.idx, "txid_to_shared_secret")
        v.new = z3.And(llen(v.l) > 0, z3.Not(mhas(tt, v.t))); v.b1 = rec_upd(ex, ix(ex, "SpIndexes"), v.idx, txid_to_shared_secret=mput(tt, v.t, v.ss)); g1 = q.tx(v.g0, tx); v.ga, v.m = v1_gacc(ex, g1, tx, v.pv); v.recs = [v1_acc(ex, v.b1, v.l), v1_acc(ex, v.idx, v.l)]; v.accs = list(v.recs[0].parts.values()) + [v.ga]; return a
    def post(v, st, ret):
        ex = v.ex; T = v.T; rt = v.retty(); r = v.term(st, ret); f = fin(v, 0)(st); s = v.a["self"]; n = llen(v.l); q = G(ex); new = z3.And(v.ok, v.new); cs = T.acc(rt, 0, 0, r)
        idx = z3.If(v.ok, z3.If(v.new, v.recs[0].at(n), v.recs[1].at(n)), v.idx); g = z3.If(new, v.ga.at(v.m), v.g0)
        return [("never-an-error", T.is_v(rt, 0, r)), ("index", i1x(ex, f, "indexes") == idx), ("graph", i1x(ex, f, "tx_graph") == g), ("changeset-covers", q.apply(v.g0, cs) == g), ("nothing-else", z3.And(i1x(ex, f, "scanner") == v.scanner, i1x(ex, f, "prevout_source") == i1x(ex, s, "prevout_source")))]
@spec("v1.txout", "SpIndexes::txout")
class _:
    def setup(v): return v.args("self", "outpoint")
    def post(v, st, ret):
        ex = v.ex; T = ex.T; rt = v.retty(); m = i1f(ex, v.a["self"], "spouts"); x = mget(m, v.a["outpoint"]); return [("what-was-recorded", v.term(st, ret) == z3.If(mhas(m, v.a["outpoint"]), T.mk(rt, 1, mkrec(ex, adt(ex, "bitcoin", "TxOut"), value=sof(ex, x, "amount"), script_pubkey=sof(ex, x, "script_pubkey"))), T.mk(rt, 0)))]
@spec("v1.spends_owned_spouts", "SpIndexer::spends_owned_spouts")
class _:
    def setup(v):
        ex = v.ex; a = v.args("self", "tx"); ins = fld(ex, adt(ex, "bitcoin", "Transaction"), v.a["tx"], "input"); m = i1f(ex, i1x(ex, v.a["self"], "indexes"), "spouts"); v.accs = [any_acc("v1_owned", (m, ins), lambda i: mhas(m, fld(ex, adt(ex, "bitcoin", "TxIn"), lat(ins, i), "previous_output")), llen(ins))]; return a
    def post(v, st, ret): return [("some-input-spends-a-recorded-output", v.term(st, ret) == v.accs[0].at(0))]
@lemma("lemma.v1-adds")
def _(v):
    """each reported output is recorded by outpoint, label and script, earlier entries are kept and nothing else appears (induction); with no output reported the index is unchanged"""
    ex = v.ex; T = ex.T; b = v.sym("b", ix(ex, "SpIndexes")); l = z3.Const("l", ListS(T.sort(adt(ex, "bdk_sp", "SpOut")))); i, j = z3.Consts("i j", I); n = llen(l); A = v1_acc(ex, b, l); v.assume(z3.And(0 <= i, i < n)); i1 = simp(i + 1); A.at(0); A.at(i1); x = lat(l, i)
    S, BL, BS = [lambda a, f=f: i1f(ex, a, f) for f in ("spouts", "label_to_spout", "script_to_spout")]; o = z3.Const("o", M(S(b).sort()).ks); q = BL(b).sort().domain(); e = z3.Const("e", q); sc_ = z3.Const("sc", Bytes); isel = z3.Function("v1_listed", I, o.sort(), B); isbl = z3.Function("v1_listed_label", I, q, B); issc = z3.Function("v1_listed_script", I, Bytes, B); lb = q.constructor(0)(sof(ex, x, "label"), x)
    v.assume(z3.And(isel(i1, o) == z3.Or(isel(i, o), so_op(ex, x) == o), isbl(i1, e) == z3.Or(isbl(i, e), lb == e), issc(i1, sc_) == z3.Or(issc(i, sc_), sof(ex, x, "script_pubkey") == sc_), z3.Not(isel(0, o)), z3.Not(isbl(0, e)), z3.Not(issc(0, sc_)))); v.assume(z3.Implies(z3.And(0 <= j, j < i), so_op(ex, lat(l, j)) != so_op(ex, x)))
    def inv(k):
        a = A.raw(k); y = lat(l, j)
        return [("outpoints", mhas(S(a), o) == z3.Or(mhas(S(b), o), isel(k, o))), ("earlier-kept", z3.Implies(z3.Not(isel(k, o)), mget(S(a), o) == mget(S(b), o))), ("labels", zsel(BL(a), e) == z3.Or(zsel(BL(b), e), isbl(k, e))), ("scripts", mhas(BS(a), sc_) == z3.Or(mhas(BS(b), sc_), issc(k, sc_))),
                ("recorded", z3.Implies(z3.And(0 <= j, j < k), z3.And(mhas(S(a), so_op(ex, y)), mget(S(a), so_op(ex, y)) == y, zsel(BL(a), q.constructor(0)(sof(ex, y, "label"), y)), mhas(BS(a), sof(ex, y, "script_pubkey"))))), ("rest", z3.And(*[i1f(ex, a, f) == i1f(ex, b, f) for f in ("txid_to_shared_secret", "label_to_tweak", "num_to_label")]))]
    for nm, g in inv(i): v.assume(g)
    return [("start-" + nm, g) for nm, g in inv(z3.IntVal(0)) if nm != "recorded"] + [("step-" + nm, g) for nm, g in inv(i1)] + [("nothing-reported", A.at(0) == b)]
@lemma("lemma.v1-graph")
def _(v):
    """the graph gains the transaction and each of its previous outputs (unless it knows their transaction), and nothing else changes (induction)"""
    ex = v.ex; q = G(ex); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); g = z3.Const("g", q.GS); pv = z3.Const("pv", ListS(q.TO)); g1 = q.tx(g, tx); A, m = v1_gacc(ex, g1, tx, pv); i, j = z3.Consts("i j", I); v.assume(z3.And(0 <= i, i < m)); i1 = simp(i + 1); A.at(0); A.at(i1); t, u = txid_of(tx), z3.Const("u", Bytes); opt = adt(ex, "bitcoin", "OutPoint")
    ins = fld(ex, adt(ex, "bitcoin", "Transaction"), tx, "input"); op = lambda k: fld(ex, adt(ex, "bitcoin", "TxIn"), lat(ins, k), "previous_output"); v.assume(z3.Implies(z3.And(0 <= j, j < i), op(j) != op(i))); o = z3.Const("o", q.OP); isop = z3.Function("is_prevout", I, q.OP, B); v.assume(z3.And(isop(i1, o) == z3.Or(isop(i, o), op(i) == o), z3.Not(isop(0, o)))); own = lambda o: fld(ex, opt, o, "txid")
    def inv(k):
        h = A.raw(k); q.eta(h); tf, fl, f0 = q.txs(h), q.get(h, 1), q.get(g1, 1)
        return [("transactions", tf == q.txs(g1)), ("previous-outputs", z3.Implies(z3.And(0 <= j, j < k), z3.Or(mhas(q.txs(g1), own(op(j))), z3.And(mhas(fl, op(j)), mget(fl, op(j)) == lat(pv, j))))), ("no-other-output", z3.And(mhas(fl, o) == z3.Or(mhas(f0, o), z3.And(isop(k, o), z3.Not(mhas(q.txs(g1), own(o))))), z3.Implies(z3.Not(isop(k, o)), mget(fl, o) == mget(f0, o)))), ("rest", z3.And(*[q.get(h, a) == q.get(g1, a) for a in (2, 3, 4)]))]
    for nm, f in inv(i): v.assume(f)
    T0, T1 = q.txs(g), q.txs(g1)
    return [("the-transaction", mhas(T1, t)), ("as-given", z3.Implies(z3.Not(mhas(T0, t)), mget(T1, t) == tx)), ("no-other-transaction", z3.And(mhas(T1, u) == z3.Or(mhas(T0, u), u == t), z3.Implies(u != t, mget(T1, u) == mget(T0, u)))), ("times-kept", z3.And(*[q.get(g1, a) == q.get(g, a) for a in (2, 3, 4)]))] + [("start-" + nm, f) for nm, f in inv(z3.IntVal(0)) if nm != "previous-outputs"] + [("step-" + nm, f) for nm, f in inv(i1)]
# ------------------------------------------------------------------ the bundled source of previous outputs: a node
def node_tx(ex, cl, txid):
    """assumed contract of the node: it answers a request for an id with the transaction of that id"""
    tt = adt(ex, "bitcoin", "Transaction"); r = UF("node_tx", cl.sort(), Bytes, ex.T.sort(tt))(cl, txid); ex.T.deep_note(r, tt, 2); fact(r, txid_of(r) == txid); return r
class NodeTx:
    def __init__(self, t): self.t = t
@gmodel("<Client as RpcApi>::get_raw_transaction_info")
def _(ex, st, inst, args, ty): return models.ok(ty, NodeTx(node_tx(ex, ex.term(st, args[0]), ex.term(st, args[1]))))
@gmodel("GetRawTransactionResult::transaction")
def _(ex, st, inst, args, ty): return models.ok(ty, models.D(ex, st, args[0]).t)
@spec("v1.node_prevouts", "<Custom as PrevoutSource>::get_tx_prevouts")
class _:
    def setup(v):
        ex = v.ex; a = v.args("self", "tx"); tx = v.a["tx"]; v.ins = fld(ex, adt(ex, "bitcoin", "Transaction"), tx, "input"); opt = adt(ex, "bitcoin", "OutPoint"); cl = fld(ex, ix(ex, "Custom"), v.a["self"], "0"); es = ex.T.sort(adt(ex, "bitcoin", "TxOut"))
        op = lambda i: fld(ex, adt(ex, "bitcoin", "TxIn"), lat(v.ins, i), "previous_output"); outs = lambda i: fld(ex, adt(ex, "bitcoin", "Transaction"), node_tx(ex, cl, fld(ex, opt, op(i), "txid")), "output"); vo = lambda i: fld(ex, opt, op(i), "vout")
        v.acc = Acc("node_prevs", ListS(es), lempty(es), lambda i, l: lpush(l, lat(outs(i), vo(i))), (tx, cl)); v.accs = [v.acc]
        j = z3.Const("np", I); v.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen(v.ins)), z3.And(0 <= vo(j), vo(j) < llen(outs(j)))), patterns=[lat(v.ins, j)])); return a
    def post(v, st, ret): return [("previous-output-of-every-input-in-order", v.term(st, ret) == v.acc.at(llen(v.ins)))]
