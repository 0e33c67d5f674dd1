"""Contracts of the second generation index: loading changesets, and what a restored index is."""
from specs_blk import *

def lwf(ex, ls):
    """labels in a changeset carry the tweak of the point they add"""
    x = z3.Const("lwf_x", ls.sort().domain()); return z3.ForAll([x], z3.Implies(z3.Select(ls, x), z3.And(lab(ex, x, "tweak") == lab(ex, x, "point"), lab(ex, x, "point") != 0)), patterns=[z3.Select(ls, x)])
def load_accs(ex, s, cs):
    """index after the labels, then after the first i tweaks: only transactions the graph has are indexed"""
    q = G(ex); i0 = i2(ex, s, "index"); scan, spend = keys2(ex, s); g1 = q.apply(i2(ex, s, "graph"), csf(ex, cs, "graph")); ls, tw = csf(ex, cs, "label_lookup"), csf(ex, cs, "txid_to_partial_secret"); nl, la = enum_map(ls); nt, ta = enum_map(mdom(tw))
    LA = Acc("load_labels", i0.sort(), i0, lambda i, x: S_addl(ex, x, la(i)), (s, cs)); i1 = LA.at(nl)
    TA = Acc("load_tweaks", i0.sort(), i1, lambda i, x: z3.If(mhas(q.txs(g1), ta(i)), S_index(ex, scan, spend, x, mget(q.txs(g1), ta(i)), mget(tw, ta(i)))[1], x), (s, cs)); return q, g1, LA, TA, (nl, la), (nt, ta)
def keymatch(ex, s, cs):
    T = ex.T; scan, spend = keys2(ex, s); return z3.And(csf(ex, cs, "scan_sk") == T.mk(fieldty(ex, "ChangeSet", "scan_sk"), 1, scan), csf(ex, cs, "spend_pk") == T.mk(fieldty(ex, "ChangeSet", "spend_pk"), 1, spend))
def load_pre(v, s, cs):
    ex = v.ex; q = G(ex); v.assume(lwf(ex, csf(ex, cs, "label_lookup"))); v.assume(Scan(ex, keys2(ex, s)[1], ixf(ex, i2(ex, s, "index"), "label_lookup"), z3.Const("any_tx", q.TX), z3.Const("ss0", R)).wf())
    m = q.txs(q.apply(i2(ex, s, "graph"), csf(ex, cs, "graph"))); k = z3.Const("lp_k", Bytes); v.assume(z3.ForAll([k], z3.Implies(mhas(m, k), llen(txf(ex, mget(m, k), "output")) < 2**32), patterns=[mhas(m, k)]))
def load_cands(v, ex, st0, h, mods, leaves, pos):
    IS = ex.T.sort(ix(ex, "SpIndexerV2")); out = []; s0 = v.a["self"] if "self" in v.a else v.s0
    for sn, sf in [(n, l) for n, l, z in leaves if z == IS]:
        out.append(Cand(f"labels-wf({sn})", lambda st, sf=sf: Scan(ex, keys2(ex, sf(st))[1], core.named(ixf(ex, i2(ex, sf(st), "index"), "label_lookup")), z3.Const("any_tx", G(ex).TX), z3.Const("ss0", R)).wf()))
        for pn, pf in pos:
            for nm, ac in (("labels", v.LA), ("tweaks", v.TA)): out.append(Cand(f"{sn}=={nm}({pn})", lambda st, sf=sf, pf=pf, ac=ac: (lambda x: x == state2(ex, s0, ac.at(pf(st)), i2(ex, x, "graph")))(sf(st))))
    return out
def S_load(ex, s, cs):
    q, g1, LA, TA, l, t = load_accs(ex, s, cs); return z3.If(keymatch(ex, s, cs), state2(ex, s, TA.at(t[0]), g1), s)
@spec("v2.apply_changeset", "SpIndexerV2::apply_changeset", opt={"cands": load_cands})
class _:
    def setup(v):
        ex = v.ex; a = mutargs(v, "self", "changeset"); s, cs = v.a["self"], v.a["changeset"]; load_pre(v, s, cs); v.q, v.g1, v.LA, v.TA, v.l, v.t = load_accs(ex, s, cs); v.LA.at(0); v.TA.at(0); return a
    def post(v, st, ret):
        ex = v.ex; s, cs = v.a["self"], v.a["changeset"]; k = keymatch(ex, s, cs); f = fin(v, 0)(st)
        return [("other-keys-not-applied", z3.Implies(z3.Not(k), f == s)), ("graph", z3.Implies(k, i2(ex, f, "graph") == v.g1)), ("index", z3.Implies(k, i2(ex, f, "index") == v.TA.at(v.t[0]))), ("keys-kept", i2(ex, f, "sp_pub") == i2(ex, s, "sp_pub"))]
def load_reqs(ex, s, cs):
    q = G(ex); i0 = i2(ex, s, "index"); m = q.txs(q.apply(i2(ex, s, "graph"), csf(ex, cs, "graph"))); k = z3.Const("lp_k", Bytes)
    return [("well-formed labels in the changeset", lwf(ex, csf(ex, cs, "label_lookup"))), ("labels registered under their points", Scan(ex, keys2(ex, s)[1], core.named(ixf(ex, i0, "label_lookup")), z3.Const("any_tx", q.TX), z3.Const("ss0", R)).wf()), ("fewer than 2^32 outputs", z3.ForAll([k], z3.Implies(mhas(m, k), llen(txf(ex, mget(m, k), "output")) < 2**32), patterns=[mhas(m, k)]))]
def c_load(ex, st, inst, args, ty):
    rr, s = gcell(ex, st, args[0]); cs = ex.term(st, args[1])
    for nm, g in load_reqs(ex, s, cs): ex.c.oblige(f"requires[{nm}]", st, g)
    ex.store(st, rr, S_load(ex, s, cs)); return UNIT
CONTRACTS["SpIndexerV2::apply_changeset"] = c_load
@spec("v2.try_from", "<SpIndexerV2 as TryFrom>::try_from")
class _:
    def setup(v):
        ex = v.ex; a = v.args("changeset"); cs = v.a["changeset"]; q = G(ex); T = ex.T; v.ks = [T.is_v(fieldty(ex, "ChangeSet", n), 1, csf(ex, cs, n)) for n in ("scan_sk", "spend_pk")]; scan, spend = [T.acc(fieldty(ex, "ChangeSet", n), 1, 0, csf(ex, cs, n)) for n in ("scan_sk", "spend_pk")]
        v.s0 = mk2(ex, sp_pub=mkrec(ex, ix(ex, "SpPub"), scan_sk=scan, spend_pk=spend), index=S_emptyidx(ex), graph=q.empty())
        for nm, g in load_reqs(ex, v.s0, cs)[:1] + load_reqs(ex, v.s0, cs)[2:]: v.assume(g)
        return a
    def post(v, st, ret):
        ex = v.ex; T = ex.T; rt = v.retty(); r = v.term(st, ret); cs = v.a["changeset"]; q, g1, LA, TA, l, t = load_accs(ex, v.s0, cs); k = z3.And(*v.ks); x = T.acc(rt, 0, 0, r)
        return [("loaded-iff-both-keys", T.is_v(rt, 0, r) == k), ("loaded-with-its-keys", z3.Implies(k, x == state2(ex, v.s0, TA.at(t[0]), g1)))]
# ------------------------------------------------------------------ what the index holds, said without the order things were found in
def LP(l, ex, o): return Acc("listed_pos", I, z3.IntVal(-1), lambda i, a: z3.If(so_op(ex, lat(l, i)) == o, i, a), (l, o))
def SL(l, ex, sc): return Acc("listed_script", I, z3.IntVal(-1), lambda i, a: z3.If(sof(ex, lat(l, i), "script_pubkey") == sc, i, a), (l, sc))
def after_list(ex, b, a, l, p, s, o, lb, sc):
    """the tables of index a, reached from b by recording outputs: p and s are the positions in l of outpoint o and of script sc, -1 if absent"""
    S = lambda x: ixf(ex, x, "by_shared_secret"); BL = lambda x: ixf(ex, x, "by_label"); BS = lambda x: ixf(ex, x, "by_script"); e = BL(b).sort().domain().constructor(0)(lb, o); at = lambda j, f: sof(ex, lat(l, j), f)
    return [("outpoints", z3.And(mhas(S(a), o) == z3.Or(mhas(S(b), o), p >= 0), mget(S(a), o) == z3.If(p >= 0, at(p, "tweak"), mget(S(b), o)))), ("labels", zsel(BL(a), e) == z3.Or(zsel(BL(b), e), z3.And(p >= 0, at(p, "label") == lb))),
            ("scripts", z3.And(mhas(BS(a), sc) == z3.Or(mhas(BS(b), sc), s >= 0), mget(BS(a), sc) == z3.If(s >= 0, at(s, "outpoint"), mget(BS(b), sc)))), ("rest", z3.And(*[ixf(ex, a, f) == ixf(ex, b, f) for f in FR]))]
def positions(ex, l, p, s, o, sc, j, k):
    at = lambda i, f: sof(ex, lat(l, i), f)
    return [("position", z3.And(-1 <= p, p < k, z3.Implies(p >= 0, at(p, "outpoint") == o))), ("script-position", z3.And(-1 <= s, s < k, z3.Implies(s >= 0, at(s, "script_pubkey") == sc))), ("every-position", z3.Implies(z3.And(0 <= j, j < k), z3.And(z3.Implies(at(j, "outpoint") == o, p == j), z3.Implies(at(j, "script_pubkey") == sc, s >= j))))]
def lty(ex): return fieldty_of(ex, "bdk_sp", "SpOut", "label")
def fieldty_of(ex, crate, rec, f): return next(t for n, t in ex.T.vfields(adt(ex, crate, rec), 0) if n == f)
@lemma("lemma.index-set")
def _(v):
    """recording a list of outputs with distinct outpoints: what each table holds for any outpoint, label and script, by position in the list (induction)"""
    ex, b, l, i, j, n, A = idx_lemma(v); o = z3.Const("o", so_op(ex, lat(l, i)).sort()); sc = z3.Const("sc", Bytes); lb = z3.Const("lb", sof(ex, lat(l, i), "label").sort()); P, Q = LP(l, ex, o), SL(l, ex, sc)
    d = lambda y: z3.Implies(z3.And(0 <= y, y < i), so_op(ex, lat(l, y)) != so_op(ex, lat(l, i))); v.assume(z3.And(d(j), d(P.raw(i))))                 # outpoints are distinct (lemma.scripts-listable)
    return induct(v, i, lambda k: positions(ex, l, P.raw(k), Q.raw(k), o, sc, j, k) + after_list(ex, b, A.raw(k), l, P.raw(k), Q.raw(k), o, lb, sc), [A, P, Q])
class RI:
    """the invariant that makes an index a function of its labels, its tweaks and the transactions with those ids"""
    def __init__(self, ex, scan, spend, L):
        self.ex, self.scan, self.spend, self.L = ex, scan, spend, L; tt = ex.T.sort(adt(ex, "bitcoin", "Transaction")); self.TXof = z3.Function("tx_of_id", Bytes, tt); self.PS = z3.Function("tweak_of_id", Bytes, R); self.opt = adt(ex, "bitcoin", "OutPoint")
    # the outputs scanning reports for the transaction with this id, under these keys and labels: S_scan(spend, L, TXof(t), scan * PS(t)), which by scan_txouts' frame depends on its id and outputs alone
    def lst(self, t): return z3.Function("reported", self.L.sort(), Bytes, ListS(self.ex.T.sort(adt(self.ex, "bdk_sp", "SpOut"))))(self.L, t)
    def pos(self, o): l = self.lst(self.tid(o)); return LP(l, self.ex, o).raw(llen(l))
    def tid(self, o): return fld(self.ex, self.opt, o, "txid")
    def out(self, o, f): return sof(self.ex, lat(self.lst(self.tid(o)), self.pos(o)), f)
    def known(self, t): return txid_of(self.TXof(t)) == t
    def V(self, idx, t, o, lb, sc):
        ex = self.ex; g = lambda f: ixf(ex, idx, f); tp, S, BL, BS = g("txid_to_partial_secret"), g("by_shared_secret"), g("by_label"), g("by_script"); e = BL.sort().domain().constructor(0)(lb, o); rep = lambda o: z3.And(mhas(tp, self.tid(o)), self.pos(o) >= 0); b = mget(BS, sc)
        return [("tweaks", z3.Implies(mhas(tp, t), z3.And(llen(self.lst(t)) > 0, mget(tp, t) == self.PS(t)))), ("outpoints", z3.And(mhas(S, o) == rep(o), z3.Implies(rep(o), mget(S, o) == self.out(o, "tweak")))), ("labels", zsel(BL, e) == z3.And(rep(o), self.out(o, "label") == lb)),
                ("scripts-lead-to-outputs", z3.Implies(mhas(BS, sc), z3.And(rep(b), self.out(b, "script_pubkey") == sc))), ("outputs-have-scripts", z3.Implies(rep(o), mhas(BS, self.out(o, "script_pubkey"))))]
def ri_syms(v, *names):
    ex = v.ex; scan, spend = z3.Consts("scan spend", R); out = [ex, scan, spend]; SO = ex.T.sort(adt(ex, "bdk_sp", "SpOut")); x = z3.Const("so_any", SO)
    return ex, scan, spend, z3.Const("t", Bytes), z3.Const("o", so_op(ex, x).sort()), z3.Const("lb", sof(ex, x, "label").sort()), z3.Const("sc", Bytes)
@lemma("lemma.index-keeps-invariant")
def _(v):
    """indexing a transaction with its own tweak data keeps the invariant; an empty index has it"""
    ex, scan, spend, t, o, lb, sc = ri_syms(v); idx = v.sym("idx", ix(ex, "SpIndex")); L = ixf(ex, idx, "label_lookup"); ri = RI(ex, scan, spend, L); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); me = txid_of(tx); ps = ri.PS(me)
    rel, new, l = S_indextx(ex, scan, spend, idx, tx, ps, ri.lst(me)); b = rec_upd(ex, ix(ex, "SpIndex"), idx, txid_to_partial_secret=mput(ixf(ex, idx, "txid_to_partial_secret"), me, ps)); end = idx_acc(ex, b, l).raw(llen(l)); n = llen(l)
    s2 = z3.Const("s2", Bytes)
    # lemma.index-set at the end of the list, for the outpoint and for the output its script leads to
    def use(o, sc, js):
        p, s = LP(l, ex, o).raw(n), SL(l, ex, sc).raw(n)
        for nm, f in after_list(ex, b, end, l, p, s, o, lb, sc): v.assume(f)
        for j in js:
            for nm, f in positions(ex, l, p, s, o, sc, j, n): v.assume(f)
        v.assume(z3.Implies(p >= 0, fld(ex, ri.opt, o, "txid") == me)); return p, s                             # lemma.scripts-listable
    p, s = use(o, sc, [SL(l, ex, sc).raw(n)]); ob = mget(ixf(ex, end, "by_script"), sc); use(ob, sc, [s]); use(o, ri.out(o, "script_pubkey"), [p])
    for nm, f in ri.V(idx, t, o, lb, sc) + ri.V(idx, me, o, lb, sc): v.assume(f)
    e = S_emptyidx(ex)
    return [("step-" + nm, g) for nm, g in ri.V(new, t, o, lb, sc)] + [("step-labels-table", z3.And(ixf(ex, new, "label_lookup") == L, ixf(ex, new, "num_to_label") == ixf(ex, idx, "num_to_label")))] + [("start-" + nm, g) for nm, g in RI(ex, scan, spend, L).V(e, t, o, lb, sc)]
@lemma("lemma.scan-by-id")
def _(v):
    """scanning a transaction gives what the id alone determines: the id commits to the outputs"""
    ex, scan, spend, t, o, lb, sc = ri_syms(v); ri = RI(ex, scan, spend, z3.Const("L", ex.T.sort(fieldty(ex, "SpIndex", "label_lookup")))); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); me = txid_of(tx); v.assume(z3.And(ri.known(me), txf(ex, tx, "output") == txf(ex, ri.TXof(me), "output")))
    return [("same-report", S_scan(ex, spend, ri.L, tx, mul(scan, ri.PS(me))) == S_scan(ex, spend, ri.L, ri.TXof(me), mul(scan, ri.PS(me))))]
@lemma("lemma.same-data-same-index")
def _(v):
    """two indexes with the invariant for the same labels, and with the same tweaks, are equal (no two received outputs share a script)"""
    ex, scan, spend, t, o, lb, sc = ri_syms(v); a, b = v.sym("a", ix(ex, "SpIndex")), v.sym("b", ix(ex, "SpIndex")); L = ixf(ex, a, "label_lookup"); v.assume(ixf(ex, b, "label_lookup") == L); ri = RI(ex, scan, spend, L); g = lambda x, f: ixf(ex, x, f); tp = "txid_to_partial_secret"; bo = [mget(g(x, "by_script"), sc) for x in (a, b)]
    for x in (a, b):
        for y in [o] + bo:
            for z in [ri.tid(o)] + [ri.tid(q) for q in bo]: v.assume(mhas(g(a, tp), z) == mhas(g(b, tp), z))
            for nm, f in ri.V(x, ri.tid(y), y, lb, sc): v.assume(f)
    v.assume(z3.And(mhas(g(a, tp), t) == mhas(g(b, tp), t))); 
    for x in (a, b):
        for nm, f in ri.V(x, t, o, lb, sc): v.assume(f)
    rep = lambda y: z3.And(mhas(g(a, tp), ri.tid(y)), ri.pos(y) >= 0); v.assume(z3.Implies(z3.And(rep(bo[0]), rep(bo[1]), ri.out(bo[0], "script_pubkey") == ri.out(bo[1], "script_pubkey")), bo[0] == bo[1]))
    S, BL, BS = [[g(x, f) for x in (a, b)] for f in ("by_shared_secret", "by_label", "by_script")]; e = BL[0].sort().domain().constructor(0)(lb, o)
    return [("tweaks", z3.Implies(mhas(g(a, tp), t), mget(g(a, tp), t) == mget(g(b, tp), t))), ("outpoints", z3.And(mhas(S[0], o) == mhas(S[1], o), z3.Implies(mhas(S[0], o), mget(S[0], o) == mget(S[1], o)))), ("labels", zsel(BL[0], e) == zsel(BL[1], e)), ("scripts", z3.And(mhas(BS[0], sc) == mhas(BS[1], sc), z3.Implies(mhas(BS[0], sc), bo[0] == bo[1])))]
# ------------------------------------------------------------------ labels, and the loops of loading
def W(ex, scan, idx, p, m):
    """the label table holds each registered number's own label under the point it adds, and the numbers lead to them"""
    ll, ntl = ixf(ex, idx, "label_lookup"), ixf(ex, idx, "num_to_label"); vs = M(ll.sort()).vs; tw, nm = [ap(vs.accessor(0, k), mget(ll, p)) for k in (0, 1)]; q = mget(ntl, m)
    return [("table", z3.Implies(mhas(ll, p), z3.And(tw == p, p != 0, p == S_label(scan, nm), mhas(ntl, nm), mget(ntl, nm) == p))), ("numbers", z3.Implies(mhas(ntl, m), z3.And(mhas(ll, q), ap(vs.accessor(0, 1), mget(ll, q)) == m)))]
def lelem(ex, ll, p): vs = M(ll.sort()).vs; return mkrec(ex, ix(ex, "Label"), point=p, tweak=ap(vs.accessor(0, 0), mget(ll, p)), num=ap(vs.accessor(0, 1), mget(ll, p)))
def lset(ex, ls, ll, x): return zsel(ls, x) == z3.And(mhas(ll, lab(ex, x, "point")), x == lelem(ex, ll, lab(ex, x, "point")))
@lemma("lemma.label-keeps-invariant")
def _(v):
    """registering a label keeps the label table's invariant, and the index's if the label belongs to no output of the transactions indexed before (distinct numbers have distinct labels)"""
    ex, scan, spend, t, o, lb, sc = ri_syms(v); idx = v.sym("idx", ix(ex, "SpIndex")); num, m = z3.Consts("num m", I); p = z3.Const("p", R); l = S_mklabel(ex, scan, num); new = S_addl(ex, idx, l); L, L2 = ixf(ex, idx, "label_lookup"), ixf(ex, new, "label_lookup"); a, b = RI(ex, scan, spend, L), RI(ex, scan, spend, L2); pt = S_label(scan, num); q = mget(ixf(ex, idx, "num_to_label"), m)
    v.assume(z3.And(pt != 0)); vs = M(L.sort()).vs; nm = lambda p: ap(vs.accessor(0, 1), mget(L, p))
    for x in (p, pt, q):
        for y in (m, num, nm(p), nm(pt)):
            for n_, f in W(ex, scan, idx, x, y): v.assume(f)
            v.assume(z3.Implies(S_label(scan, y) == pt, y == num))                                              # labels of distinct numbers are distinct
    bo = mget(ixf(ex, idx, "by_script"), sc); tp = ixf(ex, idx, "txid_to_partial_secret")
    for x in (t, a.tid(o), a.tid(bo)): v.assume(z3.Implies(mhas(tp, x), a.lst(x) == b.lst(x)))                  # labels come before the transactions they belong to
    for n_, f in a.V(idx, t, o, lb, sc): v.assume(f)
    return [("table-" + n_, g) for n_, g in W(ex, scan, new, p, m)] + [("index-" + n_, g) for n_, g in b.V(new, t, o, lb, sc)]
@lemma("lemma.labels-restored")
def _(v):
    """registering the labels listed by a changeset, in any order, gives the label table they were listed from (induction over the list)"""
    ex = v.ex; scan = z3.Const("scan", R); idx = v.sym("idx", ix(ex, "SpIndex")); ll, ntl = ixf(ex, idx, "label_lookup"), ixf(ex, idx, "num_to_label"); LT = ex.T.sort(ix(ex, "Label")); ls = z3.Const("ls", z3.ArraySort(LT, B)); n, at = enum_map(ls); e0 = S_emptyidx(ex); A = Acc("load_labels_", e0.sort(), e0, lambda i, x: S_addl(ex, x, at(i)), (ls,))
    i, m = z3.Consts("i m", I); p = z3.Const("p", R); v.assume(z3.And(0 <= i, i < n)); ixn = z3.Function(f"enumix<{LT}>", ls.sort(), LT, I); x = at(i); done = lambda k, y: z3.And(zsel(ls, y), ixn(ls, y) < k); E = lambda p: lelem(ex, ll, p); xp, xn = lab(ex, x, "point"), lab(ex, x, "num")
    for y in (x, E(p), E(mget(ntl, m))): v.assume(lset(ex, ls, ll, y)); v.assume(z3.Implies(zsel(ls, y), z3.And(0 <= ixn(ls, y), ixn(ls, y) < n, at(ixn(ls, y)) == y)))
    v.assume(z3.And(zsel(ls, x), ixn(ls, x) == i))
    for a_ in (p, xp, mget(ntl, m)):
        for b_ in (m, xn):
            for nm, f in W(ex, scan, idx, a_, b_): v.assume(f)
    L_ = lambda k: ixf(ex, A.raw(k), "label_lookup"); N_ = lambda k: ixf(ex, A.raw(k), "num_to_label")
    inv = lambda k: [("table", z3.And(mhas(L_(k), p) == z3.And(mhas(ll, p), done(k, E(p))), z3.Implies(mhas(L_(k), p), mget(L_(k), p) == mget(ll, p)))), ("numbers", z3.And(mhas(N_(k), m) == z3.And(mhas(ntl, m), done(k, E(mget(ntl, m)))), z3.Implies(mhas(N_(k), m), mget(N_(k), m) == mget(ntl, m)))),
                     ("nothing-else", z3.And(*[ixf(ex, A.raw(k), f) == ixf(ex, e0, f) for f in ("txid_to_partial_secret", "by_shared_secret", "by_script", "by_label")]))]
    r = induct(v, i, inv, [A]); return r + [("all-listed", z3.And(z3.Implies(mhas(ll, p), done(n, E(p))), z3.Implies(mhas(ntl, m), done(n, E(mget(ntl, m))))))]
@lemma("lemma.tweaks-restored")
def _(v):
    """indexing the graph's transactions with the tweaks of a changeset, in any order, restores exactly those tweaks, when each has received outputs under the labels (induction over them)"""
    ex, scan, spend, t, o, lb, sc = ri_syms(v); q = G(ex); g1 = z3.Const("g1", q.GS); q.eta(g1); tw = z3.Const("tw", MapS(Bytes, R)); n, at = enum_map(mdom(tw)); b = v.sym("b", ix(ex, "SpIndex")); L = ixf(ex, b, "label_lookup"); i = z3.Const("i", I); v.assume(z3.And(0 <= i, i < n)); tx = lambda j: mget(q.txs(g1), at(j))
    A = Acc("load_tweaks_", b.sort(), b, lambda j, x: z3.If(mhas(q.txs(g1), at(j)), S_index(ex, scan, spend, x, tx(j), mget(tw, at(j)))[1], x), (b, tw, g1)); ixn = z3.Function(f"enumix<{Bytes}>", mdom(tw).sort(), Bytes, I); d = mdom(tw); v.assume(domempty(mdom(ixf(ex, b, "txid_to_partial_secret"))))
    v.assume(z3.And(z3.Select(d, at(i)), ixn(d, at(i)) == i, z3.Implies(z3.Select(d, t), z3.And(0 <= ixn(d, t), ixn(d, t) < n, at(ixn(d, t)) == t))))
    v.assume(z3.And(mhas(q.txs(g1), at(i)), txid_of(tx(i)) == at(i), llen(S_scan(ex, spend, L, tx(i), mul(scan, mget(tw, at(i))))) > 0))     # recorded, with received outputs (lemma.block-keeps-tweaks, lemma.batch-keeps-tweaks)
    TP = lambda k: ixf(ex, A.raw(k), "txid_to_partial_secret"); done = lambda k: z3.And(z3.Select(d, t), ixn(d, t) < k)
    inv = lambda k: [("tweaks", z3.And(mhas(TP(k), t) == done(k), z3.Implies(mhas(TP(k), t), mget(TP(k), t) == mget(tw, t)))), ("labels", z3.And(*[ixf(ex, A.raw(k), f) == ixf(ex, b, f) for f in FR[:2]]))]
    r = induct(v, i, inv, [A]); return r + [("all", z3.Implies(z3.Select(d, t), done(n)))]
# ------------------------------------------------------------------ changesets of a history
def H(ex, cs, s, t, x):
    """a changeset that restores s: its keys, the tweaks, the labels, and a graph part that leads from the empty graph to that of s"""
    q = G(ex); idx = i2(ex, s, "index"); a, b = csf(ex, cs, "txid_to_partial_secret"), ixf(ex, idx, "txid_to_partial_secret"); f = UF("graph_apply", q.GS, q.CS, q.GS)
    return [("keys", keymatch(ex, s, cs)), ("graph", f(q.empty(), csf(ex, cs, "graph")) == i2(ex, s, "graph")), ("tweaks", z3.And(mhas(a, t) == mhas(b, t), z3.Implies(mhas(a, t), mget(a, t) == mget(b, t)))), ("labels", lset(ex, csf(ex, cs, "label_lookup"), ixf(ex, idx, "label_lookup"), x))]
@lemma("lemma.history-step")
def _(v):
    """merging the changeset an operation returned keeps a changeset that restores the state: operations that add no label, and those that add one"""
    ex = v.ex; q = G(ex); cs, c = v.sym("cs", ix(ex, "ChangeSet")), v.sym("c", ix(ex, "ChangeSet")); s = v.sym("s", ix(ex, "SpIndexerV2")); s2 = v.sym("s2", ix(ex, "SpIndexerV2")); t = z3.Const("t", Bytes); num = z3.Const("num", I); scan, _ = keys2(ex, s); x = z3.Const("x", ex.T.sort(ix(ex, "Label"))); i0, i1 = i2(ex, s, "index"), i2(ex, s2, "index"); tp = "txid_to_partial_secret"
    for y in (x,):
        for nm, g in H(ex, cs, s, t, y): v.assume(g)
    v.assume(z3.And(i2(ex, s2, "sp_pub") == i2(ex, s, "sp_pub"), *[optnone(ex, n, csf(ex, c, n)) for n in ("scan_sk", "spend_pk")])); v.assume(q.apply(i2(ex, s, "graph"), csf(ex, c, "graph")) == i2(ex, s2, "graph"))
    a, b, d = ixf(ex, i0, tp), csf(ex, c, tp), ixf(ex, i1, tp); v.assume(z3.And(mhas(d, t) == z3.Or(mhas(a, t), mhas(b, t)), z3.Implies(mhas(d, t), mget(d, t) == z3.If(mhas(b, t), mget(b, t), mget(a, t)))))
    l = S_mklabel(ex, scan, num); ll = ixf(ex, i0, "label_lookup"); vs = M(ll.sort()).vs; pt = lab(ex, l, "point"); before = zsel(csf(ex, c, "label_lookup"), x)
    v.assume(z3.Or(z3.And(ixf(ex, i1, "label_lookup") == ll, z3.Not(before)), z3.And(ixf(ex, i1, "label_lookup") == ixf(ex, S_addl(ex, i0, l), "label_lookup"), before == (x == l))))
    v.assume(z3.Implies(mhas(ll, pt), lelem(ex, ll, pt) == l))                                                    # a label registered under this point is this label: labels of distinct numbers are distinct
    m = S_merge2(ex, cs, c); return [(nm, g) for nm, g in H(ex, m, s2, t, x)]
@lemma("lemma.merge-groups")
def _(v):
    """changesets may be merged in any grouping"""
    ex = v.ex; q = G(ex); a, b, c = [v.sym(n, ix(ex, "ChangeSet")) for n in "abc"]; l, r = S_merge2(ex, S_merge2(ex, a, b), c), S_merge2(ex, a, S_merge2(ex, b, c)); t = z3.Const("t", Bytes); x = z3.Const("x", ex.T.sort(ix(ex, "Label"))); g = z3.Const("g", q.GS); f = UF("graph_apply", q.GS, q.CS, q.GS); tp = lambda y: csf(ex, y, "txid_to_partial_secret")
    return [(n, csf(ex, l, n) == csf(ex, r, n)) for n in ("scan_sk", "spend_pk")] + [("tweaks", z3.And(mhas(tp(l), t) == mhas(tp(r), t), z3.Implies(mhas(tp(l), t), mget(tp(l), t) == mget(tp(r), t)))), ("labels", zsel(csf(ex, l, "label_lookup"), x) == zsel(csf(ex, r, "label_lookup"), x)), ("graph", f(g, csf(ex, l, "graph")) == f(g, csf(ex, r, "graph")))]
# ------------------------------------------------------------------ every tweak's transaction is in the graph
@lemma("lemma.block-keeps-tweaks")
def _(v):
    """after a block, with or without the relevance filter, every transaction with a recorded tweak is in the graph (induction; an output reported for a transaction makes it relevant)"""
    out = []; ex = v.ex; q = G(ex); s = v.sym("s", ix(ex, "SpIndexerV2")); b = v.sym("b", adt(ex, "bitcoin", "Block")); i, h = z3.Consts("i h", I); ps = z3.Const("ps", MapS(Bytes, R)); t = z3.Const("t", Bytes); tp = lambda x: mhas(ixf(ex, x, "txid_to_partial_secret"), t); g0 = i2(ex, s, "graph"); v.assume(z3.Implies(tp(i2(ex, s, "index")), mhas(q.txs(g0), t)))
    for flt in (False, True):
        IA, GA, keep, l, an = blk_accs(ex, s, b, ps, h, flt); v.assume(z3.And(0 <= i, i < llen(l))); tx = lat(l, i); me = txid_of(tx); rel, new = S_index(ex, *keys2(ex, s), IA.raw(i), tx, mget(ps, me))
        if flt: v.assume(z3.Implies(rel, S_rel(ex, ixf(ex, new, "by_shared_secret"), tx)))                        # lemma.reported-is-relevant
        inv = lambda k, IA=IA, GA=GA: [("graph-has-them" + ("-relevant" if flt else ""), z3.Implies(tp(IA.raw(k)), mhas(q.txs(GA.raw(k)), t)))]
        out += induct(v, i, inv, [IA, GA])
    return out
@lemma("lemma.reported-is-relevant")
def _(v):
    """a transaction scanning reports outputs of is relevant under the index after it (lemma.index-grows, lemma.own-output-relevant, lemma.scripts-listable)"""
    ex = v.ex; scan, spend, ps = z3.Consts("scan spend ps", R); idx = v.sym("idx", ix(ex, "SpIndex")); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); rel, new, l = S_indextx(ex, scan, spend, idx, tx, ps, z3.Const("l", ListS(ex.T.sort(adt(ex, "bdk_sp", "SpOut"))))); opt = adt(ex, "bitcoin", "OutPoint"); o = so_op(ex, lat(l, 0)); bys = ixf(ex, new, "by_shared_secret"); j = fld(ex, opt, o, "vout"); A = rel_accs(ex, bys, tx)
    v.assume(z3.Implies(rel, z3.And(mhas(bys, o), fld(ex, opt, o, "txid") == txid_of(tx), 0 <= j, j < llen(txf(ex, tx, "output"))))); v.assume(z3.Implies(z3.And(0 <= j, j < llen(txf(ex, tx, "output")), mhas(bys, op_mk(ex, txid_of(tx), j))), A[0].at(0)))
    return [("relevant", z3.Implies(rel, S_rel(ex, bys, tx)))]
@lemma("lemma.relevance-grows")
def _(v):
    """a transaction relevant under an index stays relevant when more is recorded (induction over its outputs and inputs, downwards)"""
    ex = v.ex; bs = [z3.Const(n, ex.T.sort(fieldty(ex, "SpIndex", "by_shared_secret"))) for n in ("bys", "bys2")]; tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); i = z3.Const("i", I); As = [rel_accs(ex, b, tx) for b in bs]; out = []
    for k, n in ((0, llen(txf(ex, tx, "output"))), (1, llen(txf(ex, tx, "input")))):
        a, b = As[0][k], As[1][k]; inv = lambda j: z3.Implies(a.raw(j), b.raw(j)); o = op_mk(ex, txid_of(tx), i) if k == 0 else fld(ex, adt(ex, "bitcoin", "TxIn"), lat(txf(ex, tx, "input"), i), "previous_output"); v.assume(z3.Implies(mhas(bs[0], o), mhas(bs[1], o))); a.at(n); b.at(n); a.at(i); b.at(i)
        out += [("start", inv(n)), ("step", z3.Implies(z3.And(0 <= i, i < n, inv(simp(i + 1))), inv(i)))]
    return [(f"{nm}-{j}", g) for j, (nm, g) in enumerate(out)]
@lemma("lemma.batch-keeps-tweaks")
def _(v):
    """after a batch, with or without the relevance filter, every transaction with a recorded tweak is in the graph (lemma.batch-records-relevant and lemma.batch-unconfirmed at the end of the batch: position j is recorded if relevant)"""
    ex, q, s, l, el, bys, i, t, a, g0 = bat_lemma(v, "anchors"); IA = Acc("bat_index", i2(ex, s, "index").sort(), i2(ex, s, "index"), lambda j, x: S_index(ex, *keys2(ex, s), x, el(0, j), el(1, j))[1], (s, l)); TP = lambda k: mhas(ixf(ex, IA.raw(k), "txid_to_partial_secret"), t); RC = or_acc("bat_recorded", (s, l, t), lambda j: z3.And(S_rel(ex, bys, el(0, j)), txid_of(el(0, j)) == t)); AC = or_acc("bat_listed", (s, l, t), lambda j: txid_of(el(0, j)) == t)
    rel, new = S_index(ex, *keys2(ex, s), IA.raw(i), el(0, i), el(1, i)); v.assume(z3.Implies(rel, S_rel(ex, bys, el(0, i))))          # lemma.reported-is-relevant, lemma.index-grows and lemma.relevance-grows up to the end of the batch
    inv = lambda k: [("relevant", z3.Implies(TP(k), z3.Or(mhas(ixf(ex, i2(ex, s, "index"), "txid_to_partial_secret"), t), RC.raw(k)))), ("all", z3.Implies(TP(k), z3.Or(mhas(ixf(ex, i2(ex, s, "index"), "txid_to_partial_secret"), t), AC.raw(k))))]
    return induct(v, i, inv, [IA, RC, AC])
