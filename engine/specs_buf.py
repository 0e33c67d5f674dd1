"""Contracts of the compact filter buffer: the queue is an ordered set of filters compared by height, the database one table of filter contents."""
from specs_serde import *

DISK = ("disk",)
def bf(ex, n): return adt(ex, "bdk_sp_oracles", n)
def filt(ex): return adt(ex, "bip157", "IndexedFilter")
def f_h(ex, f): return fld(ex, filt(ex), f, "height")
def f_bh(ex, f): return setlen(UF("filter_block_hash", f.sort(), Bytes)(f), 32)
def f_ct(ex, f): return UF("filter_contents", f.sort(), Bytes)(f)
@model("IndexedFilter::height")
def m_fh(ex, st, inst, args, ty): return f_h(ex, tm(ex, st, args[0]))
@model("IndexedFilter::block_hash")
def m_fbh(ex, st, inst, args, ty): return f_bh(ex, tm(ex, st, args[0]))
@model("IndexedFilter::into_contents")
def m_fct(ex, st, inst, args, ty): return f_ct(ex, tm(ex, st, args[0]))
# the database: storage operations succeed (the code unwraps them) and a transaction takes effect when it is committed
class Txn:
    def __init__(t, cell): t.cell = cell
@model("Mutex::lock")
def m_lock(ex, st, inst, args, ty): return ok(ty, Opaque("database"))
@model("Database::begin_write")
def m_begin(ex, st, inst, args, ty):
    if DISK not in st.heap: raise Unsupported("database without a declared state")
    return ok(ty, Txn(newcell(st, st.heap[DISK], "txn")))
@model("WriteTransaction::open_table")
def m_open(ex, st, inst, args, ty):
    t = D(ex, st, args[0])
    if not isinstance(t, Txn): raise Unsupported("table of an unknown transaction")
    return ok(ty, t)
@model("Table::insert")
def m_tins(ex, st, inst, args, ty):
    t = D(ex, st, args[0]); m = st.heap[t.cell]; k, v = tm(ex, st, args[1]), tm(ex, st, args[2]); st.heap[t.cell] = mput(m, k, v); return ok(ty, Agg(ty.args()[0], 0, []))
@model("WriteTransaction::commit")
def m_commit(ex, st, inst, args, ty): t = D(ex, st, args[0]); st.heap[DISK] = st.heap[t.cell]; return ok(ty, UNIT)

def buf(ex, s): return fld(ex, bf(ex, "DatabaseBuffer"), s, "queue")
def q_wf(ex, q):
    k = z3.Const("qk", I); return z3.ForAll([k], z3.Implies(mhas(q, k), f_h(ex, mget(q, k)) == k), patterns=[mhas(q, k)])
def overwritten(q, old, new, val, upto=None):
    """new holds val of every element of q (of those before a position) under its key, and otherwise what old held"""
    k = z3.Const("ow_k", I); inn = mhas(q, k)
    if upto is not None: ix = UF(f"enumix<{I}>", mdom(q).sort(), I, I); inn = z3.And(inn, ix(mdom(q), k) < upto); n = enum_map(mdom(q))[0]
    has = z3.Or(inn, mhas(old, k)) if old is not None else inn; v = z3.If(inn, val(mget(q, k)), mget(old, k)) if old is not None else val(mget(q, k))
    r = z3.ForAll([k], z3.And(mhas(new, k) == has, z3.Implies(has, mget(new, k) == v)), patterns=[mhas(q, k)]); return r if upto is None else z3.And(n >= 0, r)
def drained(q, rem, old, new, val):
    """rem is what is left of q, and new holds val of every element gone from it"""
    k = z3.Const("dr_k", I); gone = z3.And(mhas(q, k), z3.Not(mhas(rem, k))); has = z3.Or(gone, mhas(old, k)) if old is not None else gone; v = z3.If(gone, val(mget(q, k)), mget(old, k)) if old is not None else val(mget(q, k))
    return z3.ForAll([k], z3.And(z3.Implies(mhas(rem, k), z3.And(mhas(q, k), mget(rem, k) == mget(q, k))), mhas(new, k) == has, z3.Implies(has, mget(new, k) == v)), patterns=[mhas(q, k)])
def buf_cands(v, ex, st0, h, mods, leaves, pos):
    out = []; q, d = v.q, v.d; enum_map(mdom(q)); BH = MapS(I, Bytes)
    rems = [(ln, lf) for ln, lf, s in leaves if s == q.sort()]
    for ln, lf, s in leaves:
        if s != BH: continue
        for rn, rf in rems:
            out.append(Cand(f"drained({ln},{rn})", lambda st, lf=lf, rf=rf: drained(q, rf(st), d, lf(st), lambda f: f_ct(ex, f))))
            out.append(Cand(f"drained-reported({ln},{rn})", lambda st, lf=lf, rf=rf: drained(q, rf(st), None, lf(st), lambda f: f_bh(ex, f))))
        for pn, pf in pos:
            out.append(Cand(f"written({ln},{pn})", lambda st, lf=lf, pf=pf: overwritten(q, d, lf(st), lambda f: f_ct(ex, f), pf(st))))
            out.append(Cand(f"reported({ln},{pn})", lambda st, lf=lf, pf=pf: overwritten(q, None, lf(st), lambda f: f_bh(ex, f), pf(st))))
    return out
def set_disk(v): v.d = z3.Const("disk", MapS(I, Bytes)); v.st.heap[DISK] = v.d
def flushed(ex, q, d, rng, d2, s2):
    w = fld(ex, bf(ex, "WriteRange"), rng, "writes"); k = fresh("fk", I); return [("writes-every-queued-filter", z3.And(mhas(d2, k) == z3.Or(mhas(q, k), mhas(d, k)), z3.Implies(mhas(q, k), mget(d2, k) == f_ct(ex, mget(q, k))), z3.Implies(z3.And(z3.Not(mhas(q, k)), mhas(d, k)), mget(d2, k) == mget(d, k)))), ("reports-what-was-written", z3.And(mhas(w, k) == mhas(q, k), z3.Implies(mhas(q, k), mget(w, k) == f_bh(ex, mget(q, k))))), ("queue-left-empty", z3.Not(mhas(buf(ex, s2), k)))]
@spec("kyoto.write_queue", "DatabaseBuffer::write_queue", opt={"cands": buf_cands})
class _:
    def setup(v): a = mutargs(v, "self"); set_disk(v); v.q = buf(v.ex, v.a["self"]); v.assume(q_wf(v.ex, v.q)); return a
    def post(v, st, ret):
        f = fin(v, 0)(st); return flushed(v.ex, v.q, v.d, v.term(st, ret), st.heap[DISK], f) + [("database-kept", fld(v.ex, bf(v.ex, "DatabaseBuffer"), f, "db") == fld(v.ex, bf(v.ex, "DatabaseBuffer"), v.a["self"], "db"))]
def c_flush(ex, st, inst, args, ty):
    rr, s = gcell(ex, st, args[0]); q = core.named(buf(ex, s)); ex.c.oblige("requires[queue by height]", st, q_wf(ex, q)); d = st.heap[DISK]; d2 = fresh("disk", d.sort()); w = fresh("writes", MapS(I, Bytes)); q2 = models.empty_of(ex, ftype(ex, bf(ex, "DatabaseBuffer"), "queue"))
    k = z3.Const("cf_k", I)
    st.add(z3.ForAll([k], z3.And(mhas(d2, k) == z3.Or(mhas(q, k), mhas(d, k)), z3.Implies(mhas(q, k), mget(d2, k) == f_ct(ex, mget(q, k))), z3.Implies(z3.And(z3.Not(mhas(q, k)), mhas(d, k)), mget(d2, k) == mget(d, k))), patterns=[mhas(d2, k)])); st.add(z3.ForAll([k], z3.And(mhas(w, k) == mhas(q, k), z3.Implies(mhas(q, k), mget(w, k) == f_bh(ex, mget(q, k)))), patterns=[mhas(w, k)]))
    st.heap[DISK] = d2; ex.store(st, rr, rec_upd(ex, bf(ex, "DatabaseBuffer"), s, queue=q2)); return mkrec(ex, bf(ex, "WriteRange"), writes=w)
CONTRACTS["DatabaseBuffer::write_queue"] = c_flush
@spec("kyoto.push_filter", "DatabaseBuffer::push_filter")
class _:
    def setup(v): a = mutargs(v, "self", "filter"); set_disk(v); v.q = buf(v.ex, v.a["self"]); v.assume(q_wf(v.ex, v.q)); return a
    def post(v, st, ret):
        ex = v.ex; T = ex.T; f = v.a["filter"]; q1 = mput(v.q, f_h(ex, f), f); n = models.m_mlen_t(q1); r = v.term(st, ret); rt = v.retty(); full = n > 999; s2 = fin(v, 0)(st); d2 = st.heap[DISK]
        return [("flushes-iff-over-999", T.is_v(rt, 1, r) == full), ("queued-otherwise", z3.Implies(z3.Not(full), z3.And(buf(ex, s2) == q1, d2 == v.d)))] + [(nm, z3.Implies(full, g)) for nm, g in flushed(ex, q1, v.d, T.acc(rt, 1, 0, r), d2, s2)]
def latest(ex, l, q, d, k): return z3.Implies(mhas(l, k), z3.If(mhas(q, k), mget(q, k) == mget(l, k), z3.And(mhas(d, k), mget(d, k) == f_ct(ex, mget(l, k)))))
@lemma("lemma.latest-filter-wins")
def _(v):
    """over a history of pushes and flushes the queue, and below it the table, hold the filter pushed last for every height (one step of each)"""
    ex = v.ex; F = ex.T.sort(filt(ex)); QS = MapS(I, F); BS = MapS(I, Bytes); l, q, d, d2 = z3.Const("latest", QS), z3.Const("queue", QS), z3.Const("disk", BS), z3.Const("disk2", BS); f = v.sym("filter", filt(ex)); h = f_h(ex, f); j = z3.Const("j", I); k = z3.Const("k", I)
    v.assume(z3.ForAll([j], latest(ex, l, q, d, j), patterns=[mhas(l, j)])); v.assume(q_wf(ex, q))
    v.assume(z3.ForAll([j], z3.And(mhas(d2, j) == z3.Or(mhas(q, j), mhas(d, j)), z3.Implies(mhas(q, j), mget(d2, j) == f_ct(ex, mget(q, j))), z3.Implies(z3.And(z3.Not(mhas(q, j)), mhas(d, j)), mget(d2, j) == mget(d, j))), patterns=[mhas(d2, j)]))
    e = mempty(I, F); q1, l1 = mput(q, h, f), mput(l, h, f)
    return [("push", latest(ex, l1, q1, d, k)), ("flush", latest(ex, l, e, d2, k)), ("push-keeps-queue-by-height", z3.Implies(mhas(q1, k), f_h(ex, mget(q1, k)) == k)), ("start", latest(ex, e, e, d, k))]
