"""Contracts of the second generation index: relevance, blocks and batches."""
from specs_idx import *

def txf(ex, t, n): return fld(ex, adt(ex, "bitcoin", "Transaction"), t, n)
def rel_accs(ex, bys, tx):
    """is one of the transaction's outputs, or of the outputs it spends, recorded (from position i on)"""
    t = txid_of(tx); outs, ins = txf(ex, tx, "output"), txf(ex, tx, "input")
    return any_acc("rel_out", (bys, tx), lambda i: mhas(bys, op_mk(ex, t, i)), llen(outs)), any_acc("rel_in", (bys, tx), lambda i: mhas(bys, fld(ex, adt(ex, "bitcoin", "TxIn"), lat(ins, i), "previous_output")), llen(ins))
def S_rel(ex, bys, tx):
    r = UF("S_relevant", bys.sort(), tx.sort(), B)(bys, tx); FACTS.add_lazy(r, lambda: [r == z3.Or(*[a.at(0) for a in rel_accs(ex, bys, tx)])]); return r
def bys_of(ex, s): return ixf(ex, i2(ex, s, "index"), "by_shared_secret")
@spec("v2.is_tx_relevant", "SpIndexerV2::is_tx_relevant")
class _:
    def setup(v):
        ex = v.ex; a = v.args("self", "tx"); v.assume(llen(txf(ex, v.a["tx"], "output")) < 2**32); v.accs = list(rel_accs(ex, bys_of(ex, v.a["self"]), v.a["tx"])); return a
    def post(v, st, ret): return [("some-output-recorded-or-spent", v.term(st, ret) == z3.Or(v.accs[0].at(0), v.accs[1].at(0)))]
def c_rel(ex, st, inst, args, ty):
    s, tx = [ex.term(st, a) for a in args]; ex.c.oblige("requires[fewer than 2^32 outputs]", st, llen(txf(ex, tx, "output")) < 2**32); return S_rel(ex, bys_of(ex, s), tx)
CONTRACTS["SpIndexerV2::is_tx_relevant"] = c_rel
# ------------------------------------------------------------------ callers of index_tx see its contract
def empty_cs(ex, **f):
    ty = ix(ex, "ChangeSet"); T = ex.T; d = {}
    for n, t in T.vfields(ty, 0):
        s = T.sort(t)
        d[n] = G_cs0(ex) if n == "graph" else mempty(M(s).ks, M(s).vs) if is_map(s) else z3.K(s.domain(), z3.BoolVal(False)) if s.kind() == z3.Z3_ARRAY_SORT else T.mk(t, 0)
    d.update(f); return mkrec(ex, ty, **d)
def S_index(ex, scan, spend, idx, tx, ps):
    """index_tx on an index: (recorded something, the index after)"""
    S = idx.sort(); rel = UF("S_index_rel", R, R, S, tx.sort(), R, B)(scan, spend, idx, tx, ps); new = UF("S_index", R, R, S, tx.sort(), R, S)(scan, spend, idx, tx, ps)
    def facts():
        r, n, l = S_indextx(ex, scan, spend, idx, tx, ps); return [rel == r, new == n]
    FACTS.add_lazy(new, facts) if False else None
    r = llen(S_scan(ex, spend, ixf(ex, idx, "label_lookup"), tx, mul(scan, ps))) > 0; fact(rel, rel == r)
    for f in FR[:2]: fact(new, ixf(ex, new, f) == ixf(ex, idx, f))                  # lemma.index-adds (rest)
    tp = "txid_to_partial_secret"; fact(new, z3.If(rel, ixf(ex, new, tp) == mput(ixf(ex, idx, tp), txid_of(tx), ps), new == idx)); rel_keep(new, rel)
    return rel, new
_rk = {}
def rel_keep(a, b): _rk[a.get_id()] = (a, b)
def c_indextx(ex, st, inst, args, ty):
    rr, s = gcell(ex, st, args[0]); tx, ps = ex.term(st, args[1]), ex.term(st, args[2]); scan, spend = keys2(ex, s); idx = i2(ex, s, "index"); scan_pre(ex, st, ixf(ex, idx, "label_lookup"), tx, mul(scan, ps), spend)
    rel, new = S_index(ex, scan, spend, idx, tx, ps); t = ixf(ex, idx, "txid_to_partial_secret"); e = mempty(M(t.sort()).ks, M(t.sort()).vs)
    ex.store(st, rr, rec_upd(ex, ix(ex, "SpIndexerV2"), s, index=new)); out = []
    for q, w in ex.branch(st, [(rel, 1), (z3.Not(rel), 0)]): out.append((q, empty_cs(ex, txid_to_partial_secret=mput(e, txid_of(tx), ps)) if w else empty_cs(ex)))
    return out
CONTRACTS["SpIndexerV2::index_tx"] = c_indextx
def c_merge2(ex, st, inst, args, ty):
    rr, a = gcell(ex, st, args[0]); b = ex.term(st, args[1]); ex.c.oblige("requires[changesets of the same keys]", st, same_keys(ex, a, b)); ex.store(st, rr, S_merge2(ex, a, b)); return UNIT
def m_merge_any(ex, st, inst, args, ty):
    if inst.has_body and "v2::ChangeSet" in inst.name: return c_merge2(ex, st, inst, args, ty)
    return ex.run_fn(inst, args, st) if inst.has_body else m_csmerge(ex, st, inst, args, ty)
models.TAB["<ChangeSet as Merge>::merge"] = m_merge_any
# ------------------------------------------------------------------ blocks
def bf(ex, b, n): return fld(ex, adt(ex, "bitcoin", "Block"), b, n)
def S_bhash(ex, b): return UF("block_hash", b.sort(), Bytes)(b)
def m_bhash(ex, st, inst, args, ty):
    r = S_bhash(ex, ex.term(st, args[0])); core.setlen(r, 32); return r
models.TAB["Block::block_hash"] = m_bhash
def S_anchor(ex, block, height):
    h = bf(ex, block, "header"); ht = adt(ex, "bitcoin", "Header"); return mkrec(ex, adt(ex, "bdk_core", "ConfirmationBlockTime"), block_id=mkrec(ex, adt(ex, "bdk_core", "BlockId"), height=height, hash=S_bhash(ex, block)), confirmation_time=fld(ex, ht, h, "time"))
def m_anchor(ex, st, inst, args, ty):
    a = args[0]
    if not isinstance(a, Agg): raise Unsupported("anchor source")
    fs = dict(zip([n for n, _ in a.ty.fields(0)], a.f)); b = ex.term(st, fs["block"]); h = bf(ex, b, "header"); return mkrec(ex, ty, block_id=ex.term(st, fs["block_id"]), confirmation_time=fld(ex, adt(ex, "bitcoin", "Header"), h, "time"))
models.TAB["<ConfirmationBlockTime as From>::from"] = m_anchor
def state2(ex, s, idx, g): return rec_upd(ex, ix(ex, "SpIndexerV2"), s, index=idx, graph=g)
def tps_cover(ex, old, cs, new):
    """every tweak the index gained is in the changeset, and every one there was gained"""
    k = z3.Const("tc_k", Bytes); f = "txid_to_partial_secret"; a, b, c = ixf(ex, old, f), csf(ex, cs, f), ixf(ex, new, f)
    return z3.ForAll([k], z3.And(mhas(c, k) == z3.Or(mhas(a, k), mhas(b, k)), z3.Implies(mhas(c, k), mget(c, k) == z3.If(mhas(b, k), mget(b, k), mget(a, k)))))
def blk_cands(v, ex, st0, h, mods, leaves, pos):
    q = G(ex); out = []; IS, CS = ex.T.sort(ix(ex, "SpIndexerV2")), ex.T.sort(ix(ex, "ChangeSet")); s0 = v.a["self"]; i0 = i2(ex, s0, "index"); g0 = i2(ex, s0, "graph"); f = UF("graph_apply", q.GS, q.CS, q.GS)
    sl = [(n, l) for n, l, s in leaves if s == IS]; cl = [(n, l) for n, l, s in leaves if s == CS]
    for sn, sf in sl:
        for pn, pf in pos:
            for nm, fn in v.states(st0, getattr(pf, "src", None)): out.append(Cand(f"{sn}=={nm}({pn})", lambda st, sf=sf, fn=fn, pf=pf: sf(st) == fn(pf(st))))
        out.append(Cand(f"labels({sn})", lambda st, sf=sf: ixf(ex, i2(ex, sf(st), "index"), "label_lookup") == ixf(ex, i0, "label_lookup")))
    for cn, cf_ in cl:
        out.append(Cand(f"nokeys({cn})", lambda st, c=cf_: cs_only(ex, c(st), ("graph", "txid_to_partial_secret"))))
        if not any(z == q.GS for n, l, z in leaves): out.append(Cand(f"nograph({cn})", lambda st, c=cf_: csf(ex, c(st), "graph") == G_cs0(ex)))
        for sn, sf in sl:
            out.append(Cand(f"covers({sn},{cn})", lambda st, sf=sf, c=cf_: q.apply(g0, csf(ex, c(st), "graph")) == i2(ex, sf(st), "graph")))
            out.append(Cand(f"tweaks({sn},{cn})", lambda st, sf=sf, c=cf_: tps_cover(ex, i0, c(st), i2(ex, sf(st), "index"))))
        # the indexer itself is not changed by this loop
        out.append(Cand(f"covers0({cn})", lambda st, c=cf_: q.apply(g0, csf(ex, c(st), "graph")) == i2(ex, fin(v, 0)(st), "graph")))
    return out
def all_small(v, ex, l, tx):
    """transactions have fewer than 2^32 outputs"""
    i = z3.Const("as_i", I); x = lat(l, i); v.assume(z3.ForAll([i], llen(txf(ex, tx(x), "output")) < 2**32, patterns=[idx(l, i)]))
def ends(v, st, ret, idx, g):
    ex = v.ex; q = G(ex); s0 = v.a["self"]; r = v.term(st, ret); f = fin(v, 0)(st); i0 = i2(ex, s0, "index"); k = fresh("k", Bytes); tp = "txid_to_partial_secret"; a, b, c = ixf(ex, i0, tp), csf(ex, r, tp), ixf(ex, idx, tp)
    return [("index", i2(ex, f, "index") == idx), ("graph", i2(ex, f, "graph") == g), ("keys-kept", i2(ex, f, "sp_pub") == i2(ex, s0, "sp_pub")), ("changeset-covers-the-graph", q.apply(i2(ex, s0, "graph"), csf(ex, r, "graph")) == g), ("changeset-covers-the-tweaks", z3.And(mhas(c, k) == z3.Or(mhas(a, k), mhas(b, k)), z3.Implies(mhas(c, k), mget(c, k) == z3.If(mhas(b, k), mget(b, k), mget(a, k))))), ("changeset-nothing-else", cs_only(ex, r, ("graph", "txid_to_partial_secret")))]
def blk_accs(ex, s, b, ps, height, filtered):
    """index and graph after the first i transactions of a block: each but the coinbase is indexed with the tweak data given for it, then recorded with its anchor if kept"""
    q = G(ex); l = bf(ex, b, "txdata"); scan, spend = keys2(ex, s); i0, g0 = i2(ex, s, "index"), i2(ex, s, "graph"); an = S_anchor(ex, b, height)
    def istep(i, x):
        tx = lat(l, i); t = txid_of(tx); return z3.If(z3.And(i >= 1, mhas(ps, t)), S_index(ex, scan, spend, x, tx, mget(ps, t))[1], x)
    IA = Acc("blk_index", i0.sort(), i0, istep, (s, b, ps))
    keep = lambda i: z3.And(i >= 1, S_rel(ex, ixf(ex, IA.raw(z3.simplify(i + 1)), "by_shared_secret"), lat(l, i))) if filtered else i >= 1
    GA = Acc("blk_graph" + ("_rel" if filtered else ""), q.GS, g0, lambda i, g: z3.If(keep(i), q.anchor(q.tx(g, lat(l, i)), txid_of(lat(l, i)), an), g), (s, b, ps, height)); return IA, GA, keep, l, an
def blk_setup(filtered):
    def setup(v):
        ex = v.ex; a = mutargs(v, "self", "block", "secrets", "height"); s = v.a["self"]; q = G(ex)
        v2_setup(v, z3.Const("any_tx", q.TX)); v.IA, v.GA, keep, v.l, an = blk_accs(ex, s, v.a["block"], v.a["secrets"], v.a["height"], filtered); all_small(v, ex, v.l, lambda x: x)
        v.assume(v.IA.at(0) == i2(ex, s, "index")); v.accs = [v.IA, v.GA]; v.assume(v.GA.at(0) == i2(ex, s, "graph")); v.states = lambda st0, src: [("block", lambda p: state2(ex, s, v.IA.at(p), v.GA.at(p)))]
        return a
    return setup
def blk_post(v, st, ret): n = llen(v.l); return ends(v, st, ret, v.IA.at(n), v.GA.at(n))
for nm, flt in (("apply_block", False), ("apply_block_relevant", True)): SPECS["v2." + nm] = Spec("v2." + nm, "SpIndexerV2::" + nm, blk_setup(flt), blk_post, opt={"cands": blk_cands})

# ------------------------------------------------------------------ batches
def bat_setup(v):
    ex = v.ex; a = mutargs(v, "self", "txs"); s = v.a["self"]; l = v.a["txs"]; v.l = l; q = v.q = G(ex); v2_setup(v, z3.Const("any_tx", q.TX)); es = L(l.sort()).es; v.el = el = lambda n, i: ap(es.accessor(0, n), lat(l, i)); v.es = es
    i = z3.Const("as_i", I); v.assume(z3.ForAll([i], llen(txf(ex, ap(es.accessor(0, 0), lat(l, i)), "output")) < 2**32, patterns=[idx(l, i)]))
    scan, spend = keys2(ex, s); v.i0, v.g0 = i2(ex, s, "index"), i2(ex, s, "graph"); v.n = llen(l)
    v.IA = Acc("bat_index", v.i0.sort(), v.i0, lambda i, x: S_index(ex, scan, spend, x, el(0, i), el(1, i))[1], (s, l)); v.last = v.IA.at(v.n); v.bys = ixf(ex, v.last, "by_shared_secret"); v.accs = [v.IA]; v.assume(v.IA.at(0) == v.i0)
    v.states = lambda st0, src: [("indexed", lambda p: state2(ex, s, v.IA.at(p), v.g0))]; return a
def bat_step(ex, q, el, bys):
    def step(i, g):
        tx, an = el(0, i), el(2, i); t = txid_of(tx); return z3.If(S_rel(ex, bys, tx), anchors_acc(q, q.tx(g, tx), t, an).at(llen(an)), g)
    return step
def anchors_acc(q, g, t, l): return Acc("graph_anchors", q.GS, g, lambda i, h: q.anchor(h, t, lat(l, i)), (g, t, l))
@spec("v2.batch_insert_relevant", "SpIndexerV2::batch_insert_relevant")
class _:
    def setup(v):
        a = bat_setup(v); ex, q, s = v.ex, v.q, v.a["self"]
        v.GR = GR = Acc("bat_graph", q.GS, v.g0, bat_step(ex, q, v.el, v.bys), (s, v.l)); v.assume(GR.at(0) == v.g0); v.accs.append(GR)
        def main(x):
            if not (isinstance(x, loops.ListSrc) and is_list(x.t.sort())): return False
            e = L(x.t.sort()).es; return e == v.es or e.kind() == z3.Z3_DATATYPE_SORT and e.num_constructors() == 1 and {v.es.accessor(0, k).range() for k in (0, 2)} <= {e.accessor(0, k).range() for k in range(e.constructor(0).arity())}
        GR.only = v.IA.only = main
        def states(st0, src):
            if main(src): return [("indexed", lambda p: state2(ex, s, v.IA.at(p), v.g0)), ("recorded", lambda p: state2(ex, s, v.last, GR.at(p)))]
            o = []
            for x in st0.heap.values():
                if isinstance(x, It) and main(x.src) and as_int(x.pos) is None:
                    tx, an = v.el(0, simp(x.pos - 1)), v.el(2, simp(x.pos - 1))
                    o.append(("anchored", lambda p, tx=tx, an=an, x=x: state2(ex, s, v.last, anchors_acc(q, q.tx(GR.at(simp(x.pos - 1)), tx), txid_of(tx), an).at(p))))
            return o
        v.states = states; return a
    def post(v, st, ret): return ends(v, st, ret, v.last, v.GR.at(v.n))
def pairs_of(v, name, when):
    ex = v.ex; ts = ex.T.tupsort([v.q.TX, I]); return list_acc(name, ts, (v.a["self"], v.l), lambda i: ts.constructor(0)(v.el(0, i), v.el(2, i)), when)
@spec("v2.batch_insert_relevant_unconfirmed", "SpIndexerV2::batch_insert_relevant_unconfirmed")
class _:
    def setup(v):
        a = bat_setup(v); ex, q = v.ex, v.q; v.RL = pairs_of(v, "bat_relevant", lambda i: S_rel(ex, v.bys, v.el(0, i))); v.assume(v.RL.at(0) == v.RL.init); v.accs.append(v.RL); return a
    def post(v, st, ret): rl = v.RL.at(v.n); return ends(v, st, ret, v.last, v.q.batch(v.g0, rl).at(llen(rl)))
@spec("v2.batch_insert_unconfirmed", "SpIndexerV2::batch_insert_unconfirmed")
class _:
    def setup(v):
        a = bat_setup(v); ex, q = v.ex, v.q; ts = ex.T.tupsort([q.TX, I]); v.pl = pl = z3.Const("all_pairs", ListS(ts)); i = z3.Const("pl_i", I)
        v.assume(z3.And(llen(pl) == v.n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.n), lat(pl, i) == ts.constructor(0)(v.el(0, i), v.el(2, i))), patterns=[lat(pl, i)]))); ex.batches = [(v.g0, pl)]
        v.gb = q.batch(v.g0, pl).at(v.n); s = v.a["self"]; v.states = lambda st0, src: [("indexed", lambda p: state2(ex, s, v.IA.at(p), v.gb))]; return a
    def post(v, st, ret): return ends(v, st, ret, v.last, v.gb)
for nm in ("batch_insert_relevant", "batch_insert_relevant_unconfirmed", "batch_insert_unconfirmed"): SPECS["v2." + nm].opt = {"cands": blk_cands}

# ------------------------------------------------------------------ what a block or a batch records (induction over its transactions)
def atup(q, a, t): return q.AT.constructor(0)(a, t)
def records(q, g0, g, t, a, rec, ranch, seen=True):
    """the transactions, anchors and times of graph g against those of g0"""
    o = [("transactions", mhas(q.txs(g), t) == z3.Or(mhas(q.txs(g0), t), rec)), ("untouched-otherwise", z3.Implies(z3.Not(rec), mget(q.txs(g), t) == mget(q.txs(g0), t))), ("content-of-its-id", z3.Implies(mhas(q.txs(g), t), txid_of(mget(q.txs(g), t)) == t)),
         ("anchors", zsel(q.get(g, 2), atup(q, a, t)) == z3.Or(zsel(q.get(g0, 2), atup(q, a, t)), ranch)), ("evictions", q.get(g, 4) == q.get(g0, 4))]
    return o + ([("times", q.get(g, 3) == q.get(g0, 3))] if seen else [])
def or_acc(name, params, f): return Acc(name, B, z3.BoolVal(False), lambda i, a: z3.Or(a, f(i)), params)
def induct(v, i, inv, accs):
    """base and step of an induction; inv(k) is a list of (name, formula)"""
    i1 = simp(i + 1)
    for a in accs: a.at(0); a.at(i1)
    for nm, g in inv(i): v.assume(g)
    return [("start-" + n, g) for n, g in inv(z3.IntVal(0))] + [("step-" + n, g) for n, g in inv(i1)]
def blk_lemma(filtered):
    def f(v):
        ex = v.ex; T = ex.T; q = G(ex); s = v.sym("s", ix(ex, "SpIndexerV2")); b = v.sym("b", adt(ex, "bitcoin", "Block")); i, h = z3.Consts("i h", I); PS = MapS(Bytes, R); ps = z3.Const("ps", PS); IA, GA, keep, l, an = blk_accs(ex, s, b, ps, h, filtered)
        g0 = i2(ex, s, "graph"); t = z3.Const("t", Bytes); a = z3.Const("a", q.AS); v.assume(z3.And(0 <= i, i < llen(l))); v.assume(z3.Implies(mhas(q.txs(g0), t), txid_of(mget(q.txs(g0), t)) == t))
        RC = or_acc("blk_recorded", (s, b, ps, h, t), lambda j: z3.And(keep(j), txid_of(lat(l, j)) == t))
        return induct(v, i, lambda k: records(q, g0, GA.raw(k), t, a, RC.raw(k), z3.And(RC.raw(k), a == an)), [GA, RC])
    f.__doc__ = "a transaction is recorded by a block, with the block's anchor, exactly when it was before or it is kept: not the coinbase" + (", and relevant under the index as it is right after the transaction itself was indexed" if filtered else "")
    return f
lemma("lemma.block-records-all")(blk_lemma(False)); lemma("lemma.block-records-relevant")(blk_lemma(True))
@lemma("lemma.block-tweaks")
def _(v):
    """the tweak data recorded for a transaction of a block is that given under its own id, and only for transactions of the block with received outputs"""
    ex = v.ex; s = v.sym("s", ix(ex, "SpIndexerV2")); b = v.sym("b", adt(ex, "bitcoin", "Block")); i, h = z3.Consts("i h", I); ps = z3.Const("ps", MapS(Bytes, R)); IA, GA, keep, l, an = blk_accs(ex, s, b, ps, h, False); t = z3.Const("t", Bytes); i0 = i2(ex, s, "index"); TP = lambda k: ixf(ex, IA.raw(k), "txid_to_partial_secret"); scan, spend = keys2(ex, s)
    v.assume(z3.And(0 <= i, i < llen(l))); hit = lambda j: z3.And(j >= 1, mhas(ps, t), txid_of(lat(l, j)) == t, llen(S_scan(ex, spend, ixf(ex, i0, "label_lookup"), lat(l, j), mul(scan, mget(ps, t)))) > 0); H = or_acc("blk_hit", (s, b, ps, t), hit); m0 = ixf(ex, i0, "txid_to_partial_secret")
    inv = lambda k: [("tweaks", z3.And(mhas(TP(k), t) == z3.Or(mhas(m0, t), H.raw(k)), mget(TP(k), t) == z3.If(H.raw(k), mget(ps, t), mget(m0, t)))), ("labels", z3.And(*[ixf(ex, IA.raw(k), f) == ixf(ex, i0, f) for f in FR[:2]]))]
    return induct(v, i, inv, [IA, H])
@lemma("lemma.index-grows")
def _(v):
    """outputs recorded earlier stay recorded when another transaction is indexed, and all its received outputs are (lemma.index-adds at the end of the list)"""
    ex = v.ex; scan, spend, ps = z3.Consts("scan spend ps", R); idx = v.sym("idx", ix(ex, "SpIndex")); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); rel, new, l = S_indextx(ex, scan, spend, idx, tx, ps); o = z3.Const("o", M(ixf(ex, idx, "by_shared_secret").sort()).ks); S = lambda a: ixf(ex, a, "by_shared_secret"); n = llen(l); j = z3.Const("j", I)
    st = rec_upd(ex, ix(ex, "SpIndex"), idx, txid_to_partial_secret=mput(ixf(ex, idx, "txid_to_partial_secret"), txid_of(tx), ps)); end = idx_acc(ex, st, l).raw(n); listed = z3.Bool("listed"); x = lat(l, j)
    v.assume(z3.And(mhas(S(end), o) == z3.Or(mhas(S(st), o), listed), z3.Implies(z3.And(0 <= j, j < n), mhas(S(end), so_op(ex, x)))))
    return [("kept", z3.Implies(mhas(S(idx), o), mhas(S(new), o))), ("received", z3.Implies(z3.And(0 <= j, j < n), mhas(S(new), so_op(ex, x)))), ("only-received", z3.Implies(z3.And(mhas(S(new), o), z3.Not(mhas(S(idx), o))), z3.And(rel, listed)))]
@lemma("lemma.own-output-relevant")
def _(v):
    """after indexing, a transaction with a received output is relevant, and so is one that spends a recorded output (the witness of the existential is the output's position)"""
    ex = v.ex; bys = z3.Const("bys", ex.T.sort(fieldty(ex, "SpIndex", "by_shared_secret"))); tx = v.sym("tx", adt(ex, "bitcoin", "Transaction")); A = rel_accs(ex, bys, tx); i, j = z3.Consts("i j", I); opt = adt(ex, "bitcoin", "OutPoint"); outs, ins = txf(ex, tx, "output"), txf(ex, tx, "input"); f = [lambda k: mhas(bys, op_mk(ex, txid_of(tx), k)), lambda k: mhas(bys, fld(ex, adt(ex, "bitcoin", "TxIn"), lat(ins, k), "previous_output"))]; ob = []
    for nm, ac, fn, n in (("outputs", A[0], f[0], llen(outs)), ("inputs", A[1], f[1], llen(ins))):
        # downward induction: some position from k on holds iff the accumulator says so; the witness of a true accumulator is w
        w = z3.Function("w_" + nm, I, I); ac.at(i)
        inv = lambda k, ac=ac, fn=fn, n=n, w=w: z3.And(z3.Implies(z3.And(k <= j, j < n, fn(j)), ac.raw(k)), z3.Implies(ac.raw(k), z3.And(k <= w(k), w(k) < n, fn(w(k)))))
        v.assume(z3.Implies(z3.And(0 <= i, i < n), z3.And(inv(simp(i + 1)), w(i) == z3.If(fn(i), i, w(simp(i + 1)))))); ac.at(n); ob += [(nm + "-start", inv(n)), (nm + "-step", z3.Implies(z3.And(0 <= i, i < n), inv(i)))]
    return ob
@lemma("lemma.anchors-recorded")
def _(v):
    """inserting a list of anchors for one transaction adds exactly those (induction)"""
    q = G(v.ex); g = z3.Const("g", q.GS); q.eta(g); t, t2 = z3.Consts("t t2", Bytes); a = z3.Const("a", q.AS); l = z3.Const("l", ListS(q.AS)); i = z3.Const("i", I); v.assume(z3.And(0 <= i, i < llen(l))); A = anchors_acc(q, g, t, l); C = or_acc("listed_anchor", (l, a), lambda j: lat(l, j) == a)
    return induct(v, i, lambda k: anchors_rec(q, g, A.raw(k), t, t2, a, C.raw(k)), [A, C])
def anchors_rec(q, g, h, t, t2, a, listed): return [("anchors", zsel(q.get(h, 2), atup(q, a, t2)) == z3.Or(zsel(q.get(g, 2), atup(q, a, t2)), z3.And(t2 == t, listed))), ("nothing-else", z3.And(*[q.get(h, j) == q.get(g, j) for j in (0, 1, 3, 4)]))]
def bat_lemma(v, nm):
    ex = v.ex; s = v.sym("s", ix(ex, "SpIndexerV2")); q = G(ex); third = ListS(q.AS) if nm == "anchors" else I; ts = ex.T.tupsort([q.TX, R, third]); l = z3.Const("txs", ListS(ts)); el = lambda n, i: ap(ts.accessor(0, n), lat(l, i)); bys = z3.Const("bys", ex.T.sort(fieldty(ex, "SpIndex", "by_shared_secret"))); i = z3.Const("i", I); v.assume(z3.And(0 <= i, i < llen(l))); t = z3.Const("t", Bytes); a = z3.Const("a", q.AS); g0 = i2(ex, s, "graph"); v.assume(z3.Implies(mhas(q.txs(g0), t), txid_of(mget(q.txs(g0), t)) == t))
    return ex, q, s, l, el, bys, i, t, a, g0
@lemma("lemma.batch-records-relevant")
def _(v):
    """a batch records a transaction with the anchors given for it exactly when it is relevant under the index after the whole batch was indexed"""
    ex, q, s, l, el, bys, i, t, a, g0 = bat_lemma(v, "anchors"); rel = lambda j: S_rel(ex, bys, el(0, j)); GR = Acc("bat_graph", q.GS, g0, bat_step(ex, q, el, bys), (s, l))
    RC = or_acc("bat_recorded", (s, l, t), lambda j: z3.And(rel(j), txid_of(el(0, j)) == t)); LA = lambda j: or_acc("listed_anchor", (el(2, j), a), lambda k: lat(el(2, j), k) == a).raw(llen(el(2, j))); RA = or_acc("bat_anchored", (s, l, t, a), lambda j: z3.And(rel(j), txid_of(el(0, j)) == t, LA(j)))
    g1 = q.tx(GR.raw(i), el(0, i)); an = el(2, i)
    for _, f in anchors_rec(q, g1, anchors_acc(q, g1, txid_of(el(0, i)), an).raw(llen(an)), txid_of(el(0, i)), t, a, LA(i)): v.assume(f)          # lemma.anchors-recorded for this transaction
    return induct(v, i, lambda k: records(q, g0, GR.raw(k), t, a, RC.raw(k), RA.raw(k)), [GR, RC, RA])
@lemma("lemma.fold-prefix")
def _(v):
    """recording lists of pairs depends on the pairs alone: two lists that agree on a prefix give the same graph after it (induction)"""
    q = G(v.ex); g = z3.Const("g", q.GS); LS = ListS(v.ex.T.tupsort([q.TX, I])); l, k = z3.Consts("l k", LS); i = z3.Const("i", I); v.assume(z3.And(0 <= i, i < llen(l), i < llen(k), lat(l, i) == lat(k, i))); a, b = q.batch(g, l), q.batch(g, k)
    return induct(v, i, lambda n: [("same", a.raw(n) == b.raw(n))], [a, b])
@lemma("lemma.batch-unconfirmed")
def _(v):
    """recording the relevant pairs of a batch is recording, in order, those transactions that are relevant: each gets its last seen time raised to the one given (the list after each step is a prefix of the next)"""
    ex, q, s, l, el, bys, i, t, a, g0 = bat_lemma(v, "times"); ts = ex.T.tupsort([q.TX, I]); rel = lambda j: S_rel(ex, bys, el(0, j)); RL = list_acc("bat_relevant", ts, (s, l), lambda j: ts.constructor(0)(el(0, j), el(2, j)), rel)
    UR = Acc("bat_unconf", q.GS, g0, lambda j, g: z3.If(rel(j), q.tx(q.seen(g, txid_of(el(0, j)), el(2, j)), el(0, j)), g), (s, l, bys)); r0, r1 = RL.raw(i), RL.raw(simp(i + 1)); v.assume(llen(r0) >= 0)
    v.assume(z3.Implies(rel(i), q.batch(g0, r1).raw(llen(r0)) == q.batch(g0, r0).raw(llen(r0)))); b1, b0 = q.batch(g0, r1), q.batch(g0, lempty(ts)); v.assume(z3.And(b1.raw(llen(r0) + 1) == b1.step(llen(r0), b1.raw(llen(r0))), b0.raw(z3.IntVal(0)) == g0))                                # lemma.fold-prefix
    RC = or_acc("bat_recorded", (s, l, t), lambda j: z3.And(rel(j), txid_of(el(0, j)) == t)); m0 = q.get(g0, 3); mx = Acc("bat_seen", I, z3.If(mhas(m0, t), mget(m0, t), z3.IntVal(-1)), lambda j, x: z3.If(z3.And(rel(j), txid_of(el(0, j)) == t, el(2, j) > x), el(2, j), x), (s, l, bys, t)); v.assume(z3.And(el(2, i) >= 0, z3.Implies(mhas(m0, t), mget(m0, t) >= 0))); sn = lambda k: q.get(UR.raw(k), 3)
    inv = lambda k: [("filtered", q.batch(g0, RL.raw(k)).raw(llen(RL.raw(k))) == UR.raw(k))] + records(q, g0, UR.raw(k), t, a, RC.raw(k), z3.BoolVal(False), False) + [("times", z3.And(mhas(sn(k), t) == z3.Or(mhas(m0, t), RC.raw(k)), z3.Implies(mhas(sn(k), t), mget(sn(k), t) == mx.raw(k)), z3.Implies(z3.Not(mhas(sn(k), t)), mx.raw(k) == -1)))]
    return induct(v, i, inv, [RL, UR, RC, mx])
