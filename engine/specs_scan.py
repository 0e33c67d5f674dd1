"""Contracts of the output scanner."""
from specs_send import *

class Scan:
    """vocabulary of one scan: spend point, label table, transaction, shared secret"""
    def __init__(self, ex, spend, tbl, tx, ss):
        self.ex = ex; self.T = ex.T; self.spend, self.tbl, self.tx, self.ss = spend, tbl, tx, ss
        self.tt = adt(ex, "bitcoin", "Transaction"); self.ot = adt(ex, "bitcoin", "TxOut"); self.opt = adt(ex, "bitcoin", "OutPoint"); self.so = adt(ex, "bdk_sp", "SpOut")
        self.outs = fld(ex, self.tt, tx, "output"); self.txid = txid_of(tx); self.SO = ex.T.sort(self.so); self.LS = ListS(self.SO); self.TUP = ex.T.tupsort([ex.T.sort(self.opt), ex.T.sort(self.ot)])
    def f(self, ty, t, n): return fld(self.ex, ty, t, n)
    def tk(self, k): return S_tk(self.ss, k)
    def x(self, spk): b = bslice(spk, 2, 34); return validx_(b), unserx(b)
    def match(self, spk, k):
        """some sign of the output key is the k-th base key or lies a label point above it"""
        v, x = self.x(spk); P = self.spend + self.tk(k); return z3.And(v, z3.Or(x == P, mhas(self.tbl, x - P), -x == P, mhas(self.tbl, -x - P)))
    def matchk(self, spk, kk):
        v, x = self.x(spk); P = self.spend + kk; return z3.And(v, z3.Or(x == P, mhas(self.tbl, x - P), -x == P, mhas(self.tbl, -x - P)))
    def wf(self):
        """each label is registered under the point it adds"""
        d = mdom(self.tbl)
        if z3.is_K(d) and z3.is_false(d.arg(0)): return z3.BoolVal(True)
        p = z3.Const("lbl_p", R); e = mget(self.tbl, p); s = M(self.tbl.sort()).vs
        return z3.ForAll([p], z3.Implies(mhas(self.tbl, p), z3.And(s.accessor(0, 0)(e) == p, p != 0)), patterns=[mhas(self.tbl, p)])
    def entry(self, o, txout):
        """an output of the transaction under its outpoint"""
        j = self.f(self.opt, o, "vout"); return z3.And(0 <= j, j < llen(self.outs), self.f(self.opt, o, "txid") == self.txid, lat(self.outs, j) == txout, is_p2tr(self.f(self.ot, txout, "script_pubkey")))
    def valid(self, s, i):
        """s is a payment received with counter i"""
        o = self.f(self.so, s, "outpoint"); j = self.f(self.opt, o, "vout"); spk = self.f(self.so, s, "script_pubkey"); tw = self.f(self.so, s, "tweak"); lb = self.f(self.so, s, "label"); t = lat(self.outs, j)
        v, x = self.x(spk); p = tw - self.tk(i); oty = opt_of(self.ex, self.u32()); e = mget(self.tbl, p); ss = M(self.tbl.sort()).vs
        return z3.And(0 <= j, j < llen(self.outs), self.f(self.opt, o, "txid") == self.txid, self.f(self.ot, t, "script_pubkey") == spk, self.f(self.ot, t, "value") == self.f(self.so, s, "amount"), is_p2tr(spk), v,
            z3.Or(x == self.spend + tw, -x == self.spend + tw), z3.If(self.T.is_v(oty, 0, lb), p == 0, z3.And(mhas(self.tbl, p), ss.accessor(0, 0)(e) == p, ss.accessor(0, 1)(e) == self.T.acc(oty, 1, 0, lb))))
    def u32(self):
        return ty_of(self.ex, lambda t: t.k == "uint" and t.name == "u32")
    def vout_s(self, s): return self.f(self.opt, self.f(self.so, s, "outpoint"), "vout")
    def vout_o(self, t): return self.f(self.opt, ap(self.TUP.accessor(0, 0), t), "vout")
    def elems(self, l, f, nm):
        """set of the projections of a list's elements (defined through a witness function)"""
        A = z3.ArraySort(I, B); s = L(l.sort()); e = UF("elems_" + nm, l.sort(), A)(l); w = UF("elemw_" + nm, l.sort(), I, I); v = z3.Const("el_v", I); i = z3.Const("el_i", I)
        if z3.is_app(l) and l.decl().name().startswith("lremove<"):                                                  # remove
            bl, i0 = l.arg(0), l.arg(1); eb = self.elems(bl, f, nm); rem = f(lat(bl, i0)); b = z3.Implies(z3.And(0 <= i0, i0 < llen(bl)), z3.Select(eb, v) == z3.Or(z3.Select(e, v), v == rem))
            fact(e, z3.ForAll([v], b, patterns=[z3.Select(e, v)])); fact(e, z3.ForAll([v], b, patterns=[z3.Select(eb, v)])); return e
        if not (z3.is_app(l) and l.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR):
            fact(e, z3.ForAll([v], z3.Implies(z3.Select(e, v), z3.And(0 <= w(l, v), w(l, v) < llen(l), f(lat(l, w(l, v))) == v)), patterns=[z3.Select(e, v)]))
            fact(e, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < llen(l)), z3.Select(e, f(lat(l, i)))), patterns=[lat(l, i)]))
            return e
        n = llen(l); a = ap(s.larr, l)
        if as_int(n) == 0: fact(e, e == z3.K(I, z3.BoolVal(False))); return e
        if z3.is_store(a):
            base, i0, x = a.arg(0), a.arg(1), a.arg(2)
            if z3.is_app(base) and base.decl().eq(s.larr): bl = base.arg(0)
            elif z3.is_K(base): bl = lempty(s.es)
            else: bl = None
            if bl is not None and z3.is_true(z3.simplify(n == i0 + 1)) and z3.is_true(z3.simplify(i0 == llen(bl))):
                eb = self.elems(bl, f, nm); fact(e, e == z3.Store(eb, f(x), z3.BoolVal(True))); return e            # append
            if bl is not None and z3.is_true(z3.simplify(n == llen(bl) - 1)) and x.eq(lat(bl, simp(llen(bl) - 1))):
                eb = self.elems(bl, f, nm); rem = f(lat(bl, i0))                                                     # swap_remove
                fact(e, z3.ForAll([v], z3.Implies(z3.And(0 <= i0, i0 < llen(bl)), z3.Select(eb, v) == z3.Or(z3.Select(e, v), v == rem)), patterns=[z3.Select(e, v)]))
                fact(e, z3.ForAll([v], z3.Implies(z3.And(0 <= i0, i0 < llen(bl)), z3.Select(eb, v) == z3.Or(z3.Select(e, v), v == rem)), patterns=[z3.Select(eb, v)])); return e
        return e
def idx(l, i): return z3.Select(ap(L(l.sort()).larr, l), i)
def allof(l, g, name="ai"):
    i = z3.Const(name, I); pt = idx(l, i); b = z3.Implies(z3.And(0 <= i, i < llen(l)), g(lat(l, i), i))
    return z3.ForAll([i], b, patterns=[pt] if good_pat(pt) else [])
def good_pat(t): return not (z3.is_store(t.arg(0)) or z3.is_K(t.arg(0)))
def pairs(l, m, g, same):
    i, j = z3.Consts("pi pj", I); a, b = idx(l, i), idx(m, j)
    body = z3.Implies(z3.And(0 <= i, i < llen(l), 0 <= j, j < llen(m), i < j if same else z3.BoolVal(True)), g(lat(l, i), lat(m, j)))
    return z3.ForAll([i, j], body, patterns=[z3.MultiPattern(a, b)] if good_pat(a) and good_pat(b) else [])
def heap_lists(ex, st, sort):
    out = []
    for c, v in st.heap.items():
        if z3.is_expr(v) and v.sort() == sort: out.append(c)
        elif isinstance(v, Agg) and False: pass
    return out
def scan_cands(v, ex, st0, h, mods, leaves, pos):
    s = v.scan; out = []; LO = ListS(s.TUP); n0 = llen(s.outs)
    outl = [(ln, lf) for ln, lf, q in leaves if q == LO]; spl = [(ln, lf) for ln, lf, q in leaves if q == s.LS]
    spk = lambda t: s.f(s.ot, ap(s.TUP.accessor(0, 1), t), "script_pubkey")
    for ln, lf in outl:
        out.append(Cand(f"outputs({ln})", lambda st, l=lf: allof(l(st), lambda t, i: s.entry(ap(s.TUP.accessor(0, 0), t), ap(s.TUP.accessor(0, 1), t)))))
        out.append(Cand(f"distinct({ln})", lambda st, l=lf: pairs(l(st), l(st), lambda a, b: s.vout_o(a) != s.vout_o(b), True)))
        for pn, pf in pos:
            def p2tr_in(st, l=lf, p=pf):
                j = z3.Const("pj", I); o = lat(s.outs, j); e = s.elems(l(st), s.vout_o, "o"); return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p(st), is_p2tr(s.f(s.ot, o, "script_pubkey"))), z3.Select(e, j)), patterns=[z3.Select(e, j)])
            out.append(Cand(f"alltaproot({ln},{pn})", p2tr_in))
            out.append(Cand(f"len<=({ln},{pn})", lambda st, l=lf, p=pf: z3.And(llen(l(st)) <= p(st), p(st) <= n0)))
            out.append(Cand(f"below({ln},{pn})", lambda st, l=lf, p=pf: allof(l(st), lambda t, i: s.vout_o(t) < p(st))))
        out.append(Cand(f"atmost({ln})", lambda st, l=lf: llen(l(st)) <= n0))
    for sn, sf in spl:
        out.append(Cand(f"valid({sn})", lambda st, l=sf: allof(l(st), lambda x, i: s.valid(x, i))))
        out.append(Cand(f"distinctS({sn})", lambda st, l=sf: pairs(l(st), l(st), lambda a, b: s.vout_s(a) != s.vout_s(b), True)))
        for ln, lf in outl:
            out.append(Cand(f"disjoint({sn},{ln})", lambda st, l=sf, m=lf: pairs(l(st), m(st), lambda a, b: s.vout_s(a) != s.vout_o(b), False)))
            def cover(st, l=sf, m=lf):
                j = z3.Const("pj", I); o = lat(s.outs, j); e, es = s.elems(m(st), s.vout_o, "o"), s.elems(l(st), s.vout_s, "s")
                return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n0, is_p2tr(s.f(s.ot, o, "script_pubkey"))), z3.Or(z3.Select(e, j), z3.Select(es, j))), patterns=[z3.Select(e, j), z3.Select(es, j)])
            out.append(Cand(f"cover({sn},{ln})", cover))
            out.append(Cand(f"sizes({sn},{ln})", lambda st, l=sf, m=lf: llen(l(st)) + llen(m(st)) <= n0))
    # search for the next payment
    for (cell, path) in mods:
        try: it = ex.load(h, Ref(cell, path))
        except Unsupported: continue
        src = getattr(it, "src", None)
        base = None
        while src is not None and base is None:
            if isinstance(src, loops.ListSrc): base = src.t
            elif isinstance(src, loops.FnSrc) and src.key[0] == "enum": src = src.key[1].src
            else: break
        if base is None or base.sort() != LO: continue
        for c in heap_lists(ex, st0, s.LS):
            k = llen(st0.heap[c])
            def none_yet(st, c=cell, q=path, b=base, k=k):
                p = ex.load(st, Ref(c, q)).pos; kk = s.tk(k); return allof(b, lambda t, i: z3.Implies(i < p, z3.Not(s.matchk(spk(t), kk))), "nm_i")
            out.append(Cand(f"nomatch({cell})", none_yet))
    return out
def scan_facts(s, r):
    """what callers may rely on"""
    return [allof(r, lambda x, i: s.valid(x, i)), pairs(r, r, lambda a, b: s.vout_s(a) != s.vout_s(b), True)]
def scan_reads(v):
    """of the transaction, the scan reads the outputs and the id alone"""
    tx = v.a["tx"]; return tx, [fld(v.ex, adt(v.ex, "bitcoin", "Transaction"), tx, "output").decl(), txid_of(tx).decl()]
@spec("scan_txouts", "receive::scan_txouts", opt={"cands": scan_cands, "reads": scan_reads}, timeout=30000)
class _:
    def setup(v):
        a = v.args("spend", "labels", "tx", "ss"); s = v.scan = Scan(v.ex, v.a["spend"], v.a["labels"], v.a["tx"], v.a["ss"]); v.assume(s.wf()); v.assume(llen(s.outs) < 2**32); return a
    def post(v, st, ret):
        T = v.T; rt = v.retty(); r = v.term(st, ret); s = v.scan; l = T.acc(rt, 0, 0, r); i = fresh("i", I); j = fresh("j", I); o = lat(s.outs, j); n = llen(l); e = s.elems(l, s.vout_s, "s")
        return [("ok", T.is_v(rt, 0, r)), ("every-reported-output-is-spendable~", z3.Implies(z3.And(0 <= i, i < n), s.valid(lat(l, i), i))), ("reported-once~", z3.Implies(z3.And(0 <= i, i < j, j < n), s.vout_s(lat(l, i)) != s.vout_s(lat(l, j)))),
                ("next-payment-not-missed~", z3.Implies(z3.And(0 <= j, j < llen(s.outs), is_p2tr(s.f(s.ot, o, "script_pubkey")), s.match(s.f(s.ot, o, "script_pubkey"), n)), z3.Select(e, j))), ("finite~", n <= llen(s.outs))]
# ------------------------------------------------------------------ contract value and users
def S_scan(ex, spend, tbl, tx, ss):
    spend, tbl, tx, ss = [core.named(x) for x in (spend, tbl, tx, ss)]; s = Scan(ex, spend, tbl, tx, ss); r = UF("S_scan", R, tbl.sort(), Bytes, s.outs.sort(), R, s.LS)(spend, tbl, s.txid, s.outs, ss); e = s.elems(r, s.vout_s, "s"); j = z3.Const("sj", I); n = llen(r)
    if r.get_id() not in _scan_done:
        _scan_done[r.get_id()] = r
        pre = z3.And(s.wf(), llen(s.outs) < 2**32); spk = s.f(s.ot, z3.Select(ap(L(s.outs.sort()).larr, s.outs), j), "script_pubkey")
        fact(r, z3.Implies(pre, z3.And(*scan_facts(s, r), n <= llen(s.outs))))
        fact(r, z3.Implies(pre, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < llen(s.outs), is_p2tr(spk), s.match(spk, n)), z3.Select(e, j)), patterns=[z3.Select(e, j)])))
    return r
_scan_done = {}
def scan_pre(ex, st, tbl, tx, ss, spend):
    spend, tbl, tx, ss = [core.named(x) for x in (spend, tbl, tx, ss)]; s = Scan(ex, spend, tbl, tx, ss); ex.c.oblige("requires[labels registered under their points]", st, s.wf()); ex.c.oblige("requires[fewer than 2^32 outputs]", st, llen(s.outs) < 2**32)
def c_scan(ex, st, inst, args, ty):
    sp, tbl, tx, ss = [ex.term(st, a) for a in args]; scan_pre(ex, st, tbl, tx, ss, sp); return ok(ty, S_scan(ex, sp, tbl, tx, ss))
CONTRACTS["receive::scan_txouts"] = c_scan
def scanner_parts(ex, s): return sc(ex, s, "spend_pk"), sc(ex, s, "label_lookup")
def scanner_setup(v, tx):
    sp, tbl = scanner_parts(v.ex, v.a["self"]); s = Scan(v.ex, sp, tbl, v.a[tx], z3.Const("ss0", R)); v.assume(s.wf()); v.assume(llen(s.outs) < 2**32)
@spec("Scanner.scan_txouts", "Scanner::scan_txouts")
class _:
    def setup(v): a = v.args("self", "tx", "ss"); scanner_setup(v, "tx"); return a
    def post(v, st, ret):
        rt = v.retty(); sp, tbl = scanner_parts(v.ex, v.a["self"]); return [("reports", v.term(st, ret) == v.T.mk(rt, 0, S_scan(v.ex, sp, tbl, v.a["tx"], v.a["ss"])))]
def c_sscan(ex, st, inst, args, ty):
    s, tx, ss = [ex.term(st, a) for a in args]; sp, tbl = scanner_parts(ex, s); scan_pre(ex, st, tbl, tx, ss, sp); return ok(ty, S_scan(ex, sp, tbl, tx, ss))
CONTRACTS["Scanner::scan_txouts"] = c_sscan
def S_scan_tx(ex, s, tx, pv, rty):
    okf, val = S_td(ex, tx, pv, rty); sp, tbl = scanner_parts(ex, s); return okf, S_scan(ex, sp, tbl, tx, mul(sc(ex, s, "scan_sk"), val))
def c_scantx(ex, st, inst, args, ty):
    s, tx, pv = [ex.term(st, a) for a in args]; sp, tbl = scanner_parts(ex, s); okf, r = S_scan_tx(ex, s, tx, pv, ty)
    scan_pre(ex, st, tbl, tx, z3.Const("ss0", R), sp); return fork2(ex, st, okf, ok(ty, r), lambda q: err(ty, mkerr(ex, q, errty(ty))))
CONTRACTS["Scanner::scan_tx"] = c_scantx
@spec("Scanner.scan_tx", "Scanner::scan_tx")
class _:
    def setup(v): a = v.args("self", "tx", "prevs"); scanner_setup(v, "tx"); return a
    def post(v, st, ret):
        rt = v.retty(); r = v.term(st, ret); okf, l = S_scan_tx(v.ex, v.a["self"], v.a["tx"], v.a["prevs"], rt); return [("error-iff", v.T.is_v(rt, 0, r) == okf), ("reports", z3.Implies(okf, v.T.acc(rt, 0, 0, r) == l))]
@lemma("lemma.all-payments-found")
def _(v):
    """a transaction that pays counters 0..m-1, each with one output, and nothing else that looks like a payment: all m are reported, in order"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); spend, ss = z3.Consts("spend ss", R); tblS = ex.T.sort([t for _, t in T.vfields(adt(ex, "bdk_sp", "Scanner"), 0) if T.kind(t) == "map"][0]); tbl = z3.Const("tbl", tblS)
    s = Scan(ex, spend, tbl, tx, ss); l = z3.Const("found", s.LS); n = llen(l); m = z3.Const("m", I); o = z3.Function("pays", I, I); i, j, c, d = z3.Consts("i j c d", I)
    mt = z3.Function("pays_at", I, I, B)     # output j matches counter c
    spk = lambda j: s.f(s.ot, lat(s.outs, j), "script_pubkey")
    e = s.elems(l, s.vout_s, "s"); vo = lambda i: s.vout_s(lat(l, i))
    v.assume(z3.And(m >= 0, n >= 0)); N = llen(s.outs)
    v.assume(z3.ForAll([c], z3.Implies(z3.And(0 <= c, c < m), z3.And(0 <= o(c), o(c) < N, is_p2tr(spk(o(c))), mt(o(c), c))), patterns=[o(c)]))
    v.assume(z3.ForAll([c, d], z3.Implies(z3.And(0 <= c, c < d, d < m), o(c) != o(d)), patterns=[z3.MultiPattern(o(c), o(d))]))
    v.assume(z3.ForAll([j, c], z3.Implies(z3.And(mt(j, c), 0 <= c), z3.And(c < m, j == o(c))), patterns=[mt(j, c)]))
    v.assume(allof(l, lambda x, i: mt(s.vout_s(x), i)))         # every report matches its counter (lemma report-matches)
    v.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N, is_p2tr(spk(j)), mt(j, n)), z3.Select(e, j)), patterns=[mt(j, n)]))
    a = fresh("a", I); o(n)
    return [("all", n == m), ("in-order", z3.Implies(z3.And(0 <= a, a < n), vo(a) == o(a)))]
@lemma("lemma.report-matches")
def _(v):
    """a valid report for counter k is of an output that matches counter k"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); spend, ss = z3.Consts("spend ss", R); tbl = z3.Const("tbl", ex.T.sort([t for _, t in T.vfields(adt(ex, "bdk_sp", "Scanner"), 0) if T.kind(t) == "map"][0]))
    s = Scan(ex, spend, tbl, tx, ss); x = z3.Const("report", s.SO); k = z3.Const("k", I); j = s.vout_s(x); v.assume(s.valid(x, k))
    return [("matches", s.match(s.f(s.ot, lat(s.outs, j), "script_pubkey"), k)), ("taproot", is_p2tr(s.f(s.ot, lat(s.outs, j), "script_pubkey")))]
@lemma("lemma.payment-matches")
def _(v):
    """what a sender pays for counter k, to the address or a labelled one, matches counter k at the receiver"""
    ex = v.ex; T = ex.T; tt = adt(ex, "bitcoin", "Transaction"); tx = v.sym("tx", tt); spend, ss, p = z3.Consts("spend ss p", R); tbl = z3.Const("tbl", ex.T.sort([t for _, t in T.vfields(adt(ex, "bdk_sp", "Scanner"), 0) if T.kind(t) == "map"][0]))
    s = Scan(ex, spend, tbl, tx, ss); k = z3.Const("k", I); base = S_spk(spend, ss, k); v.assume(p != 0); lab = S_spk(spend + p, ss, k); S_out(spend, ss, k)
    for b in (S_out(spend, ss, k), S_out(spend + p, ss, k)): serx(xonly(b))
    return [("base", s.match(base, k)), ("labelled", z3.Implies(mhas(tbl, p), s.match(lab, k))), ("taproot", z3.And(is_p2tr(base), is_p2tr(lab)))]
