"""Contract of the filter subscriber's event loop: one poll of the async body, from its start and from its suspension point, handles a prefix of the events received exactly as the step function says."""
import copy
from specs_buf import *

POS, SENT, RUN = ("ev", "pos"), ("ev", "sent"), "run_state"
def evt(ex): return adt(ex, "bip157", "Event")
def fev(ex): return bf(ex, "FilterEvent")
# the channels: events[0..] are what the receiver yields, `avail` of them are there during the poll, after which it is closed or not; the sender takes `cap` messages before its receiver is dropped
@model("UnboundedReceiver::recv")
def m_recv(ex, st, inst, args, ty): return Opaque("recv future")
@model("<recv()} as IntoFuture>::into_future")
def m_recvf(ex, st, inst, args, ty): return args[0]
@model("Pin::new_unchecked")
def m_pin(ex, st, inst, args, ty): return Agg(ty, 0, [args[0]])
@model("UnboundedReceiver::recv::{closure#0}")
def m_recvpoll(ex, st, inst, args, ty):
    if POS not in st.heap: raise Unsupported("channel without declared events")
    v = ex.c.v; i = st.heap[POS]; ot = ty.args()[0]
    if not isinstance(D(ex, st, args[0].f[0]), Opaque): raise Unsupported("poll of an unknown future")
    out = []
    for s, w in ex.branch(st, [(i < v.avail, 0), (z3.And(z3.Not(i < v.avail), v.closed), 1), (z3.And(z3.Not(i < v.avail), z3.Not(v.closed)), 2)]):
        if w == 0: s.heap[POS] = simp(i + 1); out.append((s, Agg(ty, 0, [some(ot, lat(v.ev, i))])))
        elif w == 1: out.append((s, Agg(ty, 0, [none(ot)])))
        else: out.append((s, Agg(ty, 1, [])))
    return out
@model("UnboundedSender::send")
def m_send(ex, st, inst, args, ty):
    if SENT not in st.heap: raise Unsupported("channel without a declared state")
    v = ex.c.v; l = st.heap[SENT]; out = []; m = tm(ex, st, args[1])
    for s, w in ex.branch(st, [(llen(l) < v.cap, 0), (z3.Not(llen(l) < v.cap), 1)]):
        if w == 0: s.heap[SENT] = lpush(l, m); out.append((s, ok(ty, UNIT)))
        else: out.append((s, err(ty, mkerr(ex, s, errty(ty)))))
    return out
@model("<Level as PartialOrd>::le")
def m_le(ex, st, inst, args, ty): return z3.BoolVal(False)     # no log subscriber: logging writes nothing the properties speak about

# the two buffer operations as functions of the queue and the table (kyoto.write_queue and kyoto.push_filter prove what they are)
def FD(q, d): return UF("flushed_disk", q.sort(), d.sort(), d.sort())(q, d)
def FW(q): return UF("flushed_writes", q.sort(), MapS(I, Bytes))(q)
def wrange(ex, q): return mkrec(ex, bf(ex, "WriteRange"), writes=FW(q))
def emptyq(ex): return models.empty_of(ex, ftype(ex, bf(ex, "DatabaseBuffer"), "queue"))
def a_flush(ex, st, inst, args, ty):
    if not hasattr(ex.c.v, "abstract_buffer"): return c_flush(ex, st, inst, args, ty)
    rr, s = gcell(ex, st, args[0]); q = buf(ex, s); d = st.heap[DISK]; st.heap[DISK] = FD(q, d); ex.store(st, rr, rec_upd(ex, bf(ex, "DatabaseBuffer"), s, queue=emptyq(ex))); return wrange(ex, q)
CONTRACTS["DatabaseBuffer::write_queue"] = a_flush
def pushed(ex, q, f): q1 = mput(q, f_h(ex, f), f); return q1, models.m_mlen_t(q1) > 999
def a_push(ex, st, inst, args, ty):
    if not hasattr(ex.c.v, "abstract_buffer"): raise Unsupported("push_filter outside its event loop")
    rr, s = gcell(ex, st, args[0]); q1, full = pushed(ex, buf(ex, s), tm(ex, st, args[1])); out = []; bt = bf(ex, "DatabaseBuffer"); d = st.heap[DISK]
    for s2, w in ex.branch(st, [(full, 1), (z3.Not(full), 0)]):
        if w: s2.heap[DISK] = FD(q1, d); ex.store(s2, rr, rec_upd(ex, bt, s, queue=emptyq(ex))); out.append((s2, some(ty, wrange(ex, q1))))
        else: ex.store(s2, rr, rec_upd(ex, bt, s, queue=q1)); out.append((s2, none(ty)))
    return out
CONTRACTS["DatabaseBuffer::push_filter"] = a_push

class RS:
    """the state a history of events leads to: queue, table, messages sent, and whether the channel was found closed"""
    def __init__(r, ex, q, d, l): r.ex = ex; r.s = ex.T.tupsort([q.sort(), d.sort(), l.sort(), B]); r.mk = lambda *a: r.s.constructor(0)(*a); r.get = lambda t, i: ap(r.s.accessor(0, i), t)
def step(v, r, e, s):
    ex = v.ex; T = ex.T; et = evt(ex); q, d, l, dead = [r.get(s, i) for i in range(4)]; fi, si = vidx(et, "IndexedFilter"), vidx(et, "FiltersSynced"); ft = fev(ex); CH, TIP = vidx(ft, "Changes"), vidx(ft, "Tip")
    f = T.acc(et, fi, 0, e); q1, full = pushed(ex, q, f); room = llen(l) < v.cap
    one = z3.If(f_h(ex, f) < v.birth, s, z3.If(full, z3.If(room, r.mk(emptyq(ex), FD(q1, d), lpush(l, T.mk(ft, CH, wrange(ex, q1))), z3.BoolVal(False)), r.mk(emptyq(ex), FD(q1, d), l, z3.BoolVal(True))), r.mk(q1, d, l, z3.BoolVal(False))))
    tip = fld(ex, adt(ex, "bip157", "SyncUpdate"), T.acc(et, si, 0, e), "tip"); ht = adt(ex, "bip157", "HeaderCheckpoint"); bid = mkrec(ex, adt(ex, "bdk_core", "BlockId"), height=fld(ex, ht, tip, "height"), hash=fld(ex, ht, tip, "hash"))
    l1 = lpush(l, T.mk(ft, CH, wrange(ex, q))); room2 = llen(l1) < v.cap
    sync = z3.If(room, r.mk(emptyq(ex), FD(q, d), z3.If(room2, lpush(l1, T.mk(ft, TIP, bid)), l1), z3.Not(room2)), r.mk(emptyq(ex), FD(q, d), l, z3.BoolVal(True)))
    return z3.If(dead, s, z3.If(T.is_v(et, fi, e), one, z3.If(T.is_v(et, si, e), sync, s)))
def run_cands(v, ex, st0, h, mods, leaves, pos):
    out = []; A, r = v.A, v.r
    if any(c == POS for c, _ in mods):
        P = lambda st: st.heap[POS]; out += [Cand("pos-range", lambda st: z3.And(P(st) >= v.p0, P(st) <= v.avail)), Cand("alive", lambda st: z3.Not(r.get(A.at(P(st)), 3)))]
        for ln, lf, s in leaves:
            for i in range(3):
                if s == r.s.accessor(0, i).range(): out.append(Cand(f"{ln}==state{i}", lambda st, lf=lf, i=i: lf(st) == r.get(A.at(P(st)), i)))
        for ln, lf, s in leaves:
            if s == ex.T.sort(bf(ex, "DatabaseBuffer")): out.append(Cand(f"queue({ln})", lambda st, lf=lf: buf(ex, lf(st)) == r.get(A.at(P(st)), 0)))
            if s == v.a0.sort(): out.append(Cand(f"queue(self {ln})", lambda st, lf=lf: v.q_of(lf(st)) == r.get(A.at(P(st)), 0)))
    return out
def run_spec_(name, state):
    @spec(name, "FilterSubscriber::run::{closure#0}", opt={"cands": run_cands})
    class _:
        def setup(v):
            ex = v.ex; st = v.st; v.abstract_buffer = True; body = v.inst.body; b0 = body.blocks[0]["terminator"]["kind"]
            if not isinstance(b0, dict) or "SwitchInt" not in b0: raise Unsupported("shape of the async body")
            br = dict((int(a), b) for a, b in b0["SwitchInt"]["targets"]["branches"])
            if sorted(br) != [0, 1, 2, 3]: raise Unsupported("more than one suspension point")
            blocks = list(body.blocks); blocks[0] = dict(blocks[0]); blocks[0]["terminator"] = dict(blocks[0]["terminator"]); blocks[0]["terminator"]["kind"] = {"Goto": {"target": br[state]}}; b2 = copy.copy(body); b2.blocks = blocks; v.inst._body = b2
            sty = bf(ex, "FilterSubscriber"); sc = newcell(st, v.sym("self", sty), "self"); v.sc = sc; a0 = v.a0 = ex.term(st, st.heap[sc]); v.q_of = lambda s: buf(ex, fld(ex, sty, s, "db_buffer")); v.birth = fld(ex, sty, a0, "birthday")
            set_disk(v); es = ListS(ex.T.sort(evt(ex))); v.ev = z3.Const("events", es); ls = ListS(ex.T.sort(fev(ex))); v.sent0 = z3.Const("sent", ls); v.p0, v.avail, v.cap = z3.Int("p0"), z3.Int("avail"), z3.Int("cap"); v.closed = z3.Bool("closed")
            v.assume(z3.And(v.p0 >= 0, v.p0 <= v.avail, v.avail <= llen(v.ev), llen(v.sent0) >= 0))
            st.heap[POS] = v.p0; st.heap[SENT] = v.sent0; g = ("gen", RUN); st.heap[g + ("state",)] = z3.IntVal(state); ref = Ref(sc); st.heap[g] = Opaque("async body")
            if state == 0: st.heap[g + (None, 0)] = ref
            else: st.heap[g + (3, 0)] = ref; st.heap[g + (3, 1)] = Opaque("recv future")
            v.r = r = RS(ex, v.q_of(a0), v.d, v.sent0); s0 = r.mk(v.q_of(a0), v.d, v.sent0, z3.BoolVal(False))
            v.A = Acc("subscriber", r.s, s0, lambda i, s: step(v, r, lat(v.ev, simp(v.p0 + i)), s), (s0, v.ev, v.birth, v.cap, v.p0)); at = v.A.at; v.A0 = at; v.A = type("Sh", (), {"at": staticmethod(lambda p: at(simp(p - v.p0)))}); v.assume(v.A.at(v.p0) == s0)
            return [Agg(v.argty(0), 0, [Ref(g)]), Ref(newcell(st, Opaque("context"), "cx"))]
        def post(v, st, ret):
            ex = v.ex; T = ex.T; r = v.r; p = st.heap[POS]; S = v.A.at(p); s2 = ex.term(st, st.heap[v.sc]); sty = bf(ex, "FilterSubscriber"); rt = v.retty(); res = rt.args()[0]; ut = bf(ex, "UpdateError"); t = v.term(st, ret)
            pend = T.is_v(rt, 1, t); val = T.acc(rt, 0, 0, t); isok = T.is_v(res, 0, val); e = T.acc(res, 1, 0, val); closed = T.is_v(ut, vidx(ut, "ChannelClosed"), e); stopped = T.is_v(ut, vidx(ut, "NodeStopped"), e)
            out = [("state-after-the-events-handled", z3.And(v.q_of(s2) == r.get(S, 0), st.heap[DISK] == r.get(S, 1))), ("messages-sent", st.heap[SENT] == r.get(S, 2)), ("waits-only-when-nothing-is-left", z3.Implies(pend, z3.And(p == v.avail, z3.Not(v.closed), z3.Not(r.get(S, 3))))),
                ("stops-only-with-a-reason", z3.Implies(z3.Not(pend), z3.And(z3.Not(isok), z3.If(stopped, z3.And(p == v.avail, v.closed, z3.Not(r.get(S, 3))), z3.And(closed, r.get(S, 3), z3.Not(r.get(v.A.at(simp(p - 1)), 3))))))), ("subscriber-kept", z3.And(*[fld(ex, sty, s2, n) == fld(ex, sty, v.a0, n) for n in ("birthday", "sender", "receiver")]))]
            if z3.is_true(simp(pend)): g = ("gen", RUN); out.append(("resumable", z3.And(st.heap[g + ("state",)] == 3, z3.BoolVal(loops.same(st.heap[g + (3, 0)], Ref(v.sc)) and isinstance(st.heap[g + (3, 1)], Opaque)))))
            return out
run_spec_("kyoto.run_started", 0)
run_spec_("kyoto.run_resumed", 3)
