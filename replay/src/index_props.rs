//! Indexers (v1 and v2), change sets and labels.
use crate::core_props::*;
use crate::util::*;
use crate::{Rep, F};
use bdk_sp::bitcoin::hashes::Hash as _;
use bdk_sp::bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bdk_sp::bitcoin::*;
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime as A, Merge, TxGraph};
use indexer::v2::{indexes::{Label, ScalarBytes, SpIndex}, ChangeSet, SpIndexerV2};
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub fn table() -> Vec<(&'static str, F, usize)> {
    vec![("C19", c19, 200), ("C20", c20, 200), ("C21", c21, 200), ("C22", c22, 1500), ("C23", c23, 250), ("C24", c24, 400), ("C25", c25, 200)]
}
type Ix = SpIndexerV2<A>;
fn v2(w: &Wallet) -> Ix { let mut i = Ix::new(w.scan, w.spend_pk); for m in &w.ms { let _ = i.add_label(*m); } i }
/// a transaction with `paid` payments to `w` and other outputs, spending `prev`
fn pay(r: &mut Rng, w: &Wallet, ps: &PublicKey, paid: usize, prev: &[OutPoint]) -> Transaction {
    let ss = pmul(ps, &Scalar::from(w.scan)); let mut spks: Vec<ScriptBuf> = vec![];
    for k in 0..paid as u32 { let l = if w.ms.is_empty() || r.coin() { None } else { Some(*r.pick(&w.ms)) }; spks.push(p2tr_p(&point(w, &ss, k, l))) }
    for _ in 0..r.below(3) { let o = loop { let b = r.below(3); let o = match b { 0 => p2tr_p(&r.pk()), 1 => p2tr_p(&point(w, &ss, 9, None)), _ => ScriptBuf::from_bytes([vec![0u8, 0x14], r.bytes(20)].concat()) }; break o }; spks.push(o) }
    r.shuffle(&mut spks);
    let outs = spks.into_iter().map(|s| TxOut { value: r.sats(), script_pubkey: s }).collect();
    let mut input: Vec<TxIn> = prev.iter().map(|o| TxIn { previous_output: *o, ..Default::default() }).collect();
    if input.is_empty() || r.coin() { let at = r.below(input.len() + 1); input.insert(at, TxIn { previous_output: r.outpoint(), ..Default::default() }) }
    Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::from_consensus(r.u32() >> 8), input, output: outs }
}
#[derive(Default, Clone, PartialEq, Debug)]
struct Want { secrets: BTreeMap<OutPoint, SecretKey>, script: BTreeMap<ScriptBuf, OutPoint>, label: BTreeSet<(Option<u32>, OutPoint)>, txs: BTreeMap<Txid, PublicKey> }
impl Want {
    /// None: several outputs are possible at one position
    fn index(&mut self, w: &Wallet, tx: &Transaction, ps: &PublicKey) -> Option<bool> {
        let f = ref_scan(w, &pmul(ps, &Scalar::from(w.scan)), tx).ok()?; let txid = tx.compute_txid();
        if f.is_empty() { return Some(false) }
        self.txs.insert(txid, *ps);
        for (i, l, t) in f { let o = OutPoint::new(txid, i as u32); self.secrets.insert(o, t); self.script.insert(tx.output[i].script_pubkey.clone(), o); self.label.insert((l, o)); }
        Some(true)
    }
    fn of(i: &SpIndex) -> Want { Want { secrets: i.by_shared_secret.clone(), script: i.by_script.clone().into_iter().collect(), label: i.by_label.iter().cloned().collect(), txs: i.txid_to_partial_secret.clone() } }
    fn relevant(&self, tx: &Transaction) -> bool { let t = tx.compute_txid(); self.secrets.keys().any(|o| o.txid == t) || tx.input.iter().any(|i| self.secrets.contains_key(&i.previous_output)) }
}
fn labels_of(w: &Wallet) -> BTreeMap<PublicKey, (Scalar, u32)> { w.labels.clone() }
fn wd(w: &Wallet) -> String { format!("scan_sk={} spend_sk={} labels={:?}", hx(&w.scan.secret_bytes()), hx(&w.spend.secret_bytes()), w.ms) }
fn txs_d(v: &[(Transaction, PublicKey)]) -> String { v.iter().map(|(t, p)| format!("({p}, {})", txhex(t))).collect::<Vec<_>>().join(" ") }
/// a chain of transactions: payments, spends of earlier payments, both, unrelated
fn history(r: &mut Rng, w: &Wallet, n: usize) -> Vec<(Transaction, PublicKey)> {
    let mut v: Vec<(Transaction, PublicKey)> = vec![];
    for _ in 0..n {
        let ps = r.pk(); let paid = [0, 0, 1, 2, 3][r.below(5)];
        let prev: Vec<OutPoint> = if v.is_empty() || r.coin() { vec![] } else { let t = r.pick(&v).0.clone(); if t.output.is_empty() { vec![] } else { vec![OutPoint::new(t.compute_txid(), r.below(t.output.len()) as u32)] } };
        v.push((pay(r, w, &ps, paid, &prev), ps));
    }
    v
}
fn c19(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let w = wallet(r); let mut ix = Ix::new(w.scan, w.spend_pk); let mut seen = BTreeMap::new();
    rep.set(|| wd(&w));
    for m in &w.ms { let cs = ix.add_label(*m); let t = label(&w.scan, *m); seen.insert(mulg(&t), (t, *m));
        let want = ChangeSet::<A> { label_lookup: [Label { num: *m, tweak: t, point: mulg(&t) }].into(), ..Default::default() };
        rep.check(cs == want && ix.index().label_lookup == seen && ix.index().get_label(*m) == Some(t) && ix.index().num_to_label.get(m) == Some(&mulg(&t)), || format!("add_label({m}): {}", wd(&w))) }
    rep.check(ix.index().num_to_label.len() == seen.len() && ix.scan_sk() == &w.scan && ix.spend_pk() == &w.spend_pk, || format!("labels: {}", wd(&w)));
    let n = 1 + r.below(4); let h = history(r, &w, n); let mut want = Want::default(); let d = || format!("{} txs={}", wd(&w), txs_d(&h)); rep.set(d);
    for (tx, ps) in &h {
        let Some(hit) = want.index(&w, tx, ps) else { return };
        let cs = ix.index_tx(tx, ps); rep.hit(if hit { "found" } else { "nothing" });
        let wcs = ChangeSet::<A> { txid_to_partial_secret: if hit { [(tx.compute_txid(), *ps)].into() } else { Default::default() }, ..Default::default() };
        rep.check(cs == wcs, || format!("change set {:?}: {}", cs, d()));
        let got = Want::of(ix.index()); rep.check(got == want, || format!("index {:?} expected {:?}: {}", got, want, d()));
        rep.check(ix.index().label_lookup == seen && ix.graph() == &TxGraph::default(), || format!("other state changed: {}", d()));
        let txid = tx.compute_txid(); let a: Vec<SecretKey> = ix.index().txouts_in_tx(txid).cloned().collect(); let b: Vec<SecretKey> = want.secrets.iter().filter(|x| x.0.txid == txid).map(|x| *x.1).collect(); rep.check(a == b, || format!("txouts_in_tx: {}", d()));
    }
    for (s, o) in &want.script { rep.check(ix.index().get_by_script(s) == want.secrets.get(o), || format!("get_by_script({s}): {}", d())) }
    rep.check(ix.index().get_by_script(&p2tr_p(&r.pk())).is_none(), || format!("get_by_script of a foreign script: {}", d()));
    let bx: BTreeMap<_, _> = ix.index().by_xonly().map(|(x, o)| (x.serialize().to_vec(), *o)).collect(); rep.check(bx == want.script.iter().map(|(s, o)| (s.as_bytes()[2..].to_vec(), *o)).collect(), || format!("by_xonly: {}", d()));
    for l in w.ms.iter().map(|m| Some(*m)).chain([None, Some(77777)]) { let mut a: Vec<_> = ix.index().get_by_label(l).map(|s| s.secret_bytes()).collect(); let mut b: Vec<_> = want.label.iter().filter(|x| x.0 == l).map(|x| want.secrets[&x.1].secret_bytes()).collect(); a.sort(); b.sort(); rep.check(a == b, || format!("get_by_label({l:?}): {}", d())) }
    // addresses
    let net = r.network(); let base = SilentPaymentCode::new_v0(w.scan.public_key(&secp()), w.spend_pk, net);
    rep.check(ix.get_address(net) == base, || format!("get_address: {}", wd(&w)));
    let m = if w.ms.is_empty() || r.coin() { r.m() } else { *r.pick(&w.ms) }; let t = label(&w.scan, m); let sp = w.spend_pk.combine(&mulg(&t)).unwrap();
    let c = ix.get_labeled_address(m, net); rep.check(c == SilentPaymentCode::new_v0(base.scan, sp, net), || format!("get_labeled_address({m}): {}", wd(&w)));
    rep.check(ix.index().label_lookup.get(&mulg(&t)) == Some(&(t, m)) && ix.index().get_label(m) == Some(t), || format!("get_labeled_address({m}) does not register the label: {}", wd(&w)));
}
fn block(r: &mut Rng, txs: Vec<Transaction>) -> Block {
    let cb = Transaction { version: transaction::Version::ONE, lock_time: absolute::LockTime::ZERO, input: vec![TxIn::default()], output: vec![] };
    Block { header: block::Header { version: block::Version::ONE, prev_blockhash: BlockHash::from_byte_array(r.b32()), merkle_root: TxMerkleNode::from_byte_array(r.b32()), time: r.u32(), bits: CompactTarget::from_consensus(r.u32()), nonce: r.u32() }, txdata: std::iter::once(cb).chain(txs).collect() }
}
type G = BTreeMap<Txid, (Transaction, BTreeSet<A>, Option<u64>)>;
fn gof(g: &TxGraph<A>) -> G { g.full_txs().map(|n| (n.txid, (n.tx.as_ref().clone(), n.anchors.clone(), n.last_seen))).collect() }
fn c20(r: &mut Rng, i: usize, rep: &mut Rep) {
    let w = wallet(r); let mut ix = v2(&w); let mut want = Want::default(); let mut g: G = Default::default();
    let n = 2 + r.below(5); let h = history(r, &w, n); let cut = r.below(h.len());
    let mode = i % 6; let d = || format!("mode={mode} cut={cut} {} txs={}", wd(&w), txs_d(&h)); rep.set(d);
    let mut all = ChangeSet::<A>::default();
    let from = if r.coin() { cut } else { r.below(cut + 1) };
    for (part, txs) in [&h[..cut], &h[from..]].into_iter().enumerate() {
        let mode = if part == 0 { [0, 2, 4][mode % 3] } else { mode };
        let with: Vec<bool> = txs.iter().map(|_| mode >= 2 && mode <= 4 || r.below(5) != 0).collect();
        let before = Want::of(ix.index()); let _ = before;
        match mode {
            0 | 1 => { let mut txs: Vec<_> = txs.to_vec(); let hgt = r.u32() >> 4; let bl = block(r, txs.iter().map(|x| x.0.clone()).collect()); let id = BlockId { height: hgt, hash: bl.block_hash() };
                let mut ps: HashMap<Txid, PublicKey> = txs.iter().zip(&with).filter(|x| *x.1).map(|(x, _)| (x.0.compute_txid(), x.1)).collect();
                // a partial secret for the coinbase never matters
                ps.insert(bl.txdata[0].compute_txid(), r.pk());
                for (j, (t, p)) in txs.drain(..).enumerate() { if with[j] { if want.index(&w, &t, &p).is_none() { return } } if mode == 1 || want.relevant(&t) { let e = g.entry(t.compute_txid()).or_insert((t.clone(), Default::default(), None)); e.1.insert(A { block_id: id, confirmation_time: bl.header.time as u64 }); rep.hit("in block") } else { rep.hit("not relevant") } }
                all.merge(if mode == 0 { ix.apply_block_relevant(&bl, ps, hgt) } else { ix.apply_block(&bl, ps, hgt) }); }
            _ => { let mut txs: Vec<(Transaction, PublicKey)> = txs.to_vec(); r.shuffle(&mut txs); let mk = |r: &mut Rng| A { block_id: BlockId { height: r.u32(), hash: BlockHash::from_byte_array(r.b32()) }, confirmation_time: r.next() >> 20 };
                for (t, p) in &txs { if want.index(&w, t, p).is_none() { return } }
                match mode { 2 | 3 => { let v: Vec<(Arc<Transaction>, PublicKey, Vec<A>)> = txs.iter().map(|(t, p)| { let n = r.below(3); (Arc::new(t.clone()), *p, (0..n).map(|_| mk(r)).collect()) }).collect();
                        for (t, _, a) in &v { if want.relevant(t) { rep.hit("in batch"); g.entry(t.compute_txid()).or_insert((t.as_ref().clone(), Default::default(), None)).1.extend(a.iter().cloned()) } else { rep.hit("not relevant") } }
                        all.merge(ix.batch_insert_relevant(v)) }
                    _ => { let v: Vec<(Arc<Transaction>, PublicKey, u64)> = txs.iter().map(|(t, p)| (Arc::new(t.clone()), *p, r.next() >> 10)).collect();
                        for (t, _, s) in &v { if mode == 5 || want.relevant(t) { rep.hit("unconfirmed"); { let e = &mut g.entry(t.compute_txid()).or_insert((t.as_ref().clone(), Default::default(), None)).2; *e = (*e).max(Some(*s)) } } else { rep.hit("not relevant") } }
                        all.merge(if mode == 4 { ix.batch_insert_relevant_unconfirmed(v) } else { ix.batch_insert_unconfirmed(v) }) } } }
        }
        let got = gof(ix.graph()); rep.check(got == g, || format!("graph has {:?}, expected {:?}: {}", got.iter().map(|x| (x.0, &x.1 .1, x.1 .2)).collect::<Vec<_>>(), g.iter().map(|x| (x.0, &x.1 .1, x.1 .2)).collect::<Vec<_>>(), d()));
        rep.check(Want::of(ix.index()) == want, || format!("index: {}", d()));
        rep.check(ix.index().label_lookup == labels_of(&w), || format!("labels changed: {}", d()));
        rep.check(all.graph == ix.graph().initial_changeset() && all.txid_to_partial_secret == want.txs, || format!("the change sets do not describe the new state: {}", d()));
    }
}
/// bdk_chain itself does not restore the first-seen times
fn graph_cs(i: &Ix) -> indexer::bdk_chain::tx_graph::ChangeSet<A> { let mut c = i.graph().initial_changeset(); c.first_seen.clear(); c }
fn foreign(r: &mut Rng) -> ChangeSet<A> { let w = wallet(r); let mut x = v2(&w); let h = history(r, &w, 2); let _ = x.batch_insert_unconfirmed(h.into_iter().map(|(t, p)| (Arc::new(t), p, 5))); x.initial_changeset() }
fn c21(r: &mut Rng, i: usize, rep: &mut Rep) {
    let w = wallet(r); let mut ix = Ix::new(w.scan, w.spend_pk); let n = 1 + r.below(5); let h = history(r, &w, n); let d = || format!("{} txs={}", wd(&w), txs_d(&h)); rep.set(d);
    let mut log = ix.initial_changeset(); let mut prim: Vec<ChangeSet<A>> = vec![];
    for m in &w.ms { prim.push(ix.add_label(*m)) }
    let mut pos = 0; while pos < h.len() { let k = 1 + r.below(h.len() - pos); let part = &h[pos..pos + k]; pos += k;
        prim.push(match r.below(4) {
            0 => { let bl = block(r, part.iter().map(|x| x.0.clone()).collect()); let hg = r.u32(); ix.apply_block_relevant(&bl, part.iter().map(|x| (x.0.compute_txid(), x.1)).collect(), hg) }
            1 => { let bl = block(r, part.iter().map(|x| x.0.clone()).collect()); let hg = r.u32(); ix.apply_block(&bl, part.iter().map(|x| (x.0.compute_txid(), x.1)).collect(), hg) }
            2 => ix.batch_insert_relevant_unconfirmed(part.iter().map(|x| (Arc::new(x.0.clone()), x.1, 9u64))),
            _ => ix.batch_insert_relevant(part.iter().map(|x| (Arc::new(x.0.clone()), x.1, vec![A { block_id: BlockId { height: 3, hash: BlockHash::from_byte_array([3; 32]) }, confirmation_time: 7 }]))),
        });
        let t = part[0].0.compute_txid();
        match r.below(4) { 0 => prim.push(ix.insert_seen_at(t, 50)), 1 => prim.push(ix.insert_evicted_at(t, 60)), 2 => prim.push(ix.insert_anchor(t, A { block_id: BlockId { height: 1, hash: BlockHash::from_byte_array([1; 32]) }, confirmation_time: 1 })), _ => prim.push(ix.batch_insert_relevant_evicted_at([(t, 70)])) }
    }
    let full = ix.initial_changeset();
    for p in &prim { log.merge(p.clone()) }
    rep.check(log == full, || format!("merged change sets {:?} differ from the initial change set {:?}: {}", log, full, d()));
    for (name, cs) in [("initial", full.clone()), ("merged", log)] {
        let back = Ix::try_from(cs.clone()); rep.check(back.is_ok(), || format!("{name}: not restored: {}", d()));
        if let Ok(b) = back { rep.hit("restored"); rep.check(b.index() == ix.index(), || format!("{name}: restored index {:?} expected {:?}: {}", b.index(), ix.index(), d())); rep.check(graph_cs(&b) == graph_cs(&ix), || format!("{name}: restored graph {:?} expected {:?}: {}", b.graph().initial_changeset(), ix.graph().initial_changeset(), d())); rep.check(b.scan_sk() == ix.scan_sk() && b.spend_pk() == ix.spend_pk(), || format!("{name}: restored state differs: {:?} expected {:?}: {}", b.index(), ix.index(), d())) }
        let j = serde_json::to_string(&cs).unwrap(); let k: ChangeSet<A> = match serde_json::from_str(&j) { Ok(k) => k, Err(e) => { rep.check(false, || format!("json {e}: {}", d())); return } }; rep.check(k == cs, || format!("json: {}", d()));
        let b = bincode::serialize(&cs).unwrap(); let k: ChangeSet<A> = match bincode::deserialize(&b) { Ok(k) => k, Err(e) => { rep.check(false, || format!("bincode {e}: {}", d())); return } }; rep.check(k == cs, || format!("bincode: {}", d()));
    }
    // without both keys there is nothing to restore
    for (s, p) in [(true, false), (false, true), (false, false)] { let cs = ChangeSet { scan_sk: full.scan_sk.filter(|_| s), spend_pk: full.spend_pk.filter(|_| p), ..full.clone() }; rep.check(Ix::try_from(cs).is_err(), || format!("restored without keys ({s},{p}): {}", d())) }
    // a change set of another wallet or without keys is ignored
    let f = loop { let f = foreign(r); if f.scan_sk != full.scan_sk && f.spend_pk != full.spend_pk { break f } }; for cs in [f.clone(), ChangeSet { spend_pk: full.spend_pk, ..f.clone() }, ChangeSet { scan_sk: full.scan_sk, ..f.clone() }, ChangeSet { scan_sk: None, ..full.clone() }, ChangeSet { spend_pk: None, ..full.clone() }] { let (a, b) = (ix.index().clone(), ix.graph().clone()); ix.apply_changeset(cs.clone()); rep.check(ix.index() == &a && ix.graph() == &b, || format!("a change set of other keys was applied: {:?} {}", cs, d())) }
    // merge unions, the empty change set is neutral and is_empty means equal to the default
    let e = ChangeSet::<A>::default(); rep.check(e.is_empty(), || "default is not empty".into());
    let mut probes = prim; probes.push(full.clone()); probes.push(ChangeSet { scan_sk: full.scan_sk, ..Default::default() }); probes.push(ChangeSet { spend_pk: full.spend_pk, ..Default::default() }); probes.push(ChangeSet { txid_to_partial_secret: [(r.txid(), r.pk())].into(), ..Default::default() });
    for p in &probes { rep.check(p.is_empty() == (p == &e), || format!("is_empty of {:?}", p)); let mut a = e.clone(); a.merge(p.clone()); rep.check(&a == p, || format!("merge into the empty change set: {:?}", p)); let mut a = p.clone(); a.merge(e.clone()); rep.check(&a == p, || format!("merge of the empty change set: {:?}", p)) }
    let _ = i;
}
fn c22(r: &mut Rng, i: usize, rep: &mut Rep) {
    let m = r.m(); let s = match i { 0 => Scalar::ZERO, 1 => Scalar::MAX, 2 => Scalar::ONE, _ => r.scalar() };
    let l = Label { num: m, tweak: s, point: r.pk() }; let d = || format!("{:?}", l); rep.set(d);
    let j = serde_json::to_string(&l).unwrap(); rep.check(serde_json::from_str::<Label>(&j).ok() == Some(l), || format!("json {j}: {}", d()));
    let v = serde_json::to_value(l).unwrap(); rep.check(serde_json::from_value::<Label>(v.clone()).ok() == Some(l), || format!("json value {v}: {}", d()));
    let b = bincode::serialize(&l).unwrap(); rep.check(bincode::deserialize::<Label>(&b).ok() == Some(l), || format!("bincode {}: {}", hx(&b), d()));
    rep.hit("label");
    // scalars: only 32 bytes below the order
    let n = match i % 8 { 0 => 31, 1 => 33, 2 => 0, 3 => r.below(70), _ => 32 }; let mut x = r.bytes(n); if i % 4 == 1 || r.below(5) == 0 { for b in x.iter_mut().take(16) { *b = 0xff } }
    let want = <[u8; 32]>::try_from(&x[..]).ok().and_then(|a| Scalar::from_be_bytes(a).ok()); rep.hit(if want.is_some() { "scalar" } else { "refused" });
    let js = serde_json::to_string(&x).unwrap(); let got = serde_json::from_str::<ScalarBytes>(&js).ok().map(|s| s.0); rep.check(got == want, || format!("scalar json {js} gave {:?}", got));
    let bs = bincode::serialize(&x).unwrap(); let got = bincode::deserialize::<ScalarBytes>(&bs).ok().map(|s| s.0); rep.check(got == want, || format!("scalar bincode {} gave {:?}", hx(&bs), got));
    let o = Label::from((&l.point, &(l.tweak, l.num))); rep.check(o == l, || format!("conversion {}", d()));
}
struct Src(HashMap<OutPoint, TxOut>);
impl PrevoutSource for Src { fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> { tx.input.iter().map(|i| self.0[&i.previous_output].clone()).collect() } }
fn spout(r: &mut Rng) -> SpOut { let (o, t, p) = (r.outpoint(), r.sk(), r.pk()); SpOut { outpoint: o, tweak: t, script_pubkey: p2tr_p(&p), amount: r.sats(), label: if r.coin() { Some(r.m()) } else { None } } }
fn c23(r: &mut Rng, i: usize, rep: &mut Rep) {
    let w = wallet(r); let n = 1 + r.below(3); let mut src = HashMap::new(); let mut txs = vec![]; let mut ours: Vec<OutPoint> = vec![];
    for j in 0..n {
        let ni = 1 + r.below(3); let mut ins: Vec<In> = (0..ni).map(|_| { let k = if i % 3 == 0 { 7 + r.below(NKINDS - 7) } else if r.below(3) == 0 { r.below(NKINDS) } else { r.below(7) }; input(r, k) }).collect();
        if j > 0 && !ours.is_empty() && r.coin() { let o = *r.pick(&ours); if !src.contains_key(&o) { ins[0].txin.previous_output = o } }
        let (t0, pvs) = mktx(&ins, vec![]); let mut outs: Vec<ScriptBuf> = vec![];
        if let Some(td) = tweak_data(&t0, &pvs) { let ss = pmul(&td, &Scalar::from(w.scan)); for k in 0..r.below(4) as u32 { let l = if w.ms.is_empty() || r.coin() { None } else { Some(*r.pick(&w.ms)) }; outs.push(p2tr_p(&point(&w, &ss, k, l))) } }
        let no = outs.len(); if no > 0 && r.below(5) == 0 { let o = r.pick(&outs).clone(); outs.push(o) } for _ in 0..r.below(3) { outs.push(p2tr_p(&r.pk())) } r.shuffle(&mut outs); let _ = no;
        let (t, p) = mktx(&ins, outs.into_iter().map(|s| TxOut { value: r.sats(), script_pubkey: s }).collect());
        for (x, y) in t.input.iter().zip(&p) { src.insert(x.previous_output, y.clone()); } ours.extend((0..t.output.len() as u32).map(|v| OutPoint::new(t.compute_txid(), v))); txs.push((t, p));
    }
    let d = || format!("{} txs={}", wd(&w), txs.iter().map(|(t, p)| format!("({} prevouts {})", txhex(t), pv(p))).collect::<Vec<_>>().join(" ")); rep.set(d);
    let mut pre = SpIndexes::default(); if r.coin() { let mut s = spout(r); if r.coin() { s.outpoint = OutPoint::new(txs[0].0.compute_txid(), [u32::MAX, 0x7fff_ffff, 300][r.below(3)]) } if r.coin() { if let Some(o) = txs[0].0.output.first() { s.script_pubkey = o.script_pubkey.clone() } } pre.spouts.insert(s.outpoint, s.clone()); pre.script_to_spout.insert(s.script_pubkey.clone(), s.clone()); pre.label_to_spout.insert((s.label, s)); pre.txid_to_shared_secret.insert(r.txid(), r.pk()); pre.label_to_tweak = w.labels.clone(); }
    let mut want = pre.clone(); let mut ix: SpIndexer<Src, A> = SpIndexer::new(Src(src), Scanner::new(w.scan, w.spend_pk, w.labels.clone()), pre, TxGraph::default()); let mut wtx: BTreeMap<Txid, Transaction> = Default::default(); let mut wto: BTreeMap<OutPoint, TxOut> = Default::default();
    for (t, p) in &txs { for again in [false, true] {
        let g0 = ix.tx_graph.clone(); let res = ix.index_tx(t); let txid = t.compute_txid(); let mut hit = false;
        if let Some(td) = tweak_data(t, p) { let ss = pmul(&td, &Scalar::from(w.scan)); let Ok(f) = ref_scan(&w, &ss, t) else { return };
            if !f.is_empty() { hit = true; want.txid_to_shared_secret.insert(txid, ss); wtx.insert(txid, t.clone()); for (x, y) in t.input.iter().zip(p) { wto.insert(x.previous_output, y.clone()); } }
            for (v, l, tw) in f { let o = SpOut { outpoint: OutPoint::new(txid, v as u32), tweak: tw, script_pubkey: t.output[v].script_pubkey.clone(), amount: t.output[v].value, label: l }; want.spouts.insert(o.outpoint, o.clone()); want.script_to_spout.insert(o.script_pubkey.clone(), o.clone()); want.label_to_spout.insert((l, o)); } }
        rep.hit(if hit { "found" } else { "nothing" });
        let Ok(cs) = res else { rep.check(false, || format!("index_tx failed with {:?}: {}", res.err(), d())); return };
        rep.check(ix.indexes == want && ix.indexes.label_to_spout.iter().map(|x| &x.1).eq(want.label_to_spout.iter().map(|x| &x.1)), || format!("indexes {:?} expected {:?}: {}", ix.indexes, want, d()));
        let gt: BTreeMap<Txid, Transaction> = ix.tx_graph.full_txs().map(|n| (n.txid, n.tx.as_ref().clone())).collect(); rep.check(gt == wtx, || format!("graph transactions {:?}: {}", gt.keys(), d()));
        for (o, x) in &wto { rep.check(wtx.contains_key(&o.txid) || ix.tx_graph.get_txout(*o) == Some(x), || format!("prevout {o} not in the graph: {}", d())) }
        for (o, _) in ix.tx_graph.floating_txouts() { rep.check(wto.contains_key(&o), || format!("unexpected txout {o}: {}", d())) }
        let mut g1 = g0.clone(); g1.apply_changeset(cs.clone()); rep.check(g1 == ix.tx_graph, || format!("the change set does not describe the graph: {}", d()));
        if again { rep.check(cs.is_empty(), || format!("indexing twice changes the graph: {:?} {}", cs, d())) }
        rep.check(ix.spends_owned_spouts(t) == t.input.iter().any(|x| want.spouts.contains_key(&x.previous_output)), || format!("spends_owned_spouts {txid}: {}", d()));
        let a: Vec<&SpOut> = ix.indexes.txouts_in_tx(txid).collect(); let b: Vec<&SpOut> = want.spouts.values().filter(|x| x.outpoint.txid == txid).collect(); rep.check(a == b, || format!("txouts_in_tx {txid}: {}", d()));
        for o in ours.iter() { rep.check(ix.indexes.txout(*o) == want.spouts.get(o).map(|s| TxOut { value: s.amount, script_pubkey: s.script_pubkey.clone() }), || format!("txout {o}: {}", d())) }
    } }
    // labels of the index
    let m = r.m(); let net = r.network(); let code = SilentPaymentCode::new_v0(w.scan.public_key(&secp()), w.spend_pk, net); let t = label(&w.scan, m); let c = ix.indexes.add_label(code.clone(), w.scan, m).unwrap();
    rep.check(c == SilentPaymentCode::new_v0(code.scan, w.spend_pk.combine(&mulg(&t)).unwrap(), net), || format!("add_label({m}): {}", wd(&w)));
    want.label_to_tweak.insert(mulg(&t), (t, m)); want.num_to_label.insert(m, mulg(&t)); rep.check(ix.indexes == want && ix.indexes.get_label(m) == Some(t) && ix.indexes.get_label(m ^ 1) == None, || format!("indexes after add_label({m}): {}", wd(&w)));
}
fn rand_indexes(r: &mut Rng) -> SpIndexes {
    let mut s = SpIndexes::default();
    for _ in 0..r.below(4) { let o = spout(r); if r.below(5) != 0 { s.spouts.insert(o.outpoint, o.clone()); } if r.below(5) != 0 { s.script_to_spout.insert(o.script_pubkey.clone(), o.clone()); } if r.below(5) != 0 { s.label_to_spout.insert((o.label, o)); } if r.coin() { s.txid_to_shared_secret.insert(r.txid(), r.pk()); } }
    for _ in 0..r.below(3) { let (p, m) = (r.pk(), r.m()); if r.below(5) != 0 { s.label_to_tweak.insert(p, (r.scalar(), m)); } if r.below(5) != 0 { s.num_to_label.insert(m, p); } }
    s
}
fn c24(r: &mut Rng, i: usize, rep: &mut Rep) {
    let mut s = rand_indexes(r);
    if i < 8 { s = SpIndexes::default(); let o = spout(r); match i { 0 => { s.spouts.insert(o.outpoint, o); } 1 => { s.script_to_spout.insert(o.script_pubkey.clone(), o); } 2 => { s.label_to_spout.insert((o.label, o)); } 3 => { s.txid_to_shared_secret.insert(r.txid(), r.pk()); } 4 => { s.label_to_tweak.insert(r.pk(), (r.scalar(), 1)); } 5 => { s.num_to_label.insert(3, r.pk()); } _ => {} } }
    let d = || format!("{:?}", s); rep.set(d);
    let c: SpIndexesChangeSet = s.clone().into(); let b: SpIndexes = c.clone().into(); rep.hit("round trip"); rep.check(b == s, || format!("round trip gave {:?}: {}", b, d()));
    let (p, q): (SpIndexesChangeSet, SpIndexesChangeSet) = (c.clone(), SpIndexes::from(c.clone()).into()); rep.check(p == q, || format!("change set round trip: {}", d()));
    rep.check(c.is_empty() == (s == SpIndexes::default()) && SpIndexesChangeSet::default().is_empty(), || format!("is_empty: {}", d()));
    let j = serde_json::to_string(&c).unwrap(); rep.check(serde_json::from_str::<SpIndexesChangeSet>(&j).ok().as_ref() == Some(&c), || format!("json {j}"));
    let bi = bincode::serialize(&c).unwrap(); rep.check(bincode::deserialize::<SpIndexesChangeSet>(&bi).ok().as_ref() == Some(&c), || format!("bincode: {}", d()));
    // merge: key by key, the merged in value wins
    let mut o = rand_indexes(r); if r.coin() { for (k, v) in s.spouts.iter() { o.spouts.insert(*k, SpOut { label: Some(5), ..v.clone() }); } for k in s.label_to_tweak.keys() { o.label_to_tweak.insert(*k, (r.scalar(), 9)); } for k in s.txid_to_shared_secret.keys() { o.txid_to_shared_secret.insert(*k, r.pk()); } for k in s.num_to_label.keys() { o.num_to_label.insert(*k, r.pk()); } for (k, v) in s.script_to_spout.iter() { o.script_to_spout.insert(k.clone(), SpOut { label: Some(6), ..v.clone() }); } }
    let oc: SpIndexesChangeSet = o.clone().into(); let mut m = c.clone(); m.merge(oc.clone()); let mut w = s.clone();
    w.spouts.extend(o.spouts.clone()); w.script_to_spout.extend(o.script_to_spout.clone()); w.txid_to_shared_secret.extend(o.txid_to_shared_secret.clone()); w.label_to_spout.extend(o.label_to_spout.clone()); w.label_to_tweak.extend(o.label_to_tweak.clone()); w.num_to_label.extend(o.num_to_label.clone());
    let m: SpIndexes = m.into(); rep.check(m == w, || format!("merge of {:?} gave {:?}: {}", o, m, d()));
}
fn c25(r: &mut Rng, i: usize, rep: &mut Rep) {
    let w = wallet(r); let ix = v2(&w); let ps = r.pk(); let ss = pmul(&ps, &Scalar::from(w.scan)); let d = || format!("{} tweak={ps}", wd(&w)); rep.set(d);
    let got = ix.derive_spks_for_tweak(&ps); let set: HashSet<Vec<u8>> = got.iter().map(|x| x.to_vec()).collect();
    let want: HashSet<Vec<u8>> = std::iter::once(None).chain(w.ms.iter().map(|m| Some(*m))).map(|l| p2tr_p(&point(&w, &ss, 0, l)).into_bytes()).collect();
    rep.check(set == want && got.len() == want.len(), || format!("candidates {:?} expected {:?}: {}", got.iter().map(|x| hx(x)).collect::<Vec<_>>(), want.iter().map(|x| hx(x)).collect::<Vec<_>>(), d()));
    let sc = Scanner::new(w.scan, w.spend_pk, w.labels.clone()); let k = if i < 3 { i as u32 } else { r.m() }; let s: HashSet<Vec<u8>> = sc.get_spks_from_tweak(&ps, k).iter().map(|x| x.to_bytes()).collect();
    let want: HashSet<Vec<u8>> = std::iter::once(None).chain(w.ms.iter().map(|m| Some(*m))).map(|l| p2tr_p(&point(&w, &ss, k, l)).into_bytes()).collect(); rep.check(s == want, || format!("get_spks_from_tweak({k}): {}", d()));
    // a transaction with something for the wallet has one of the candidates
    let n = r.below(3); let tx = pay(r, &w, &ps, n, &[]); let mut jx = v2(&w); let cs = jx.index_tx(&tx, &ps); let any = tx.output.iter().any(|o| set.contains(o.script_pubkey.as_bytes())); rep.hit(if any { "candidate" } else { "none" });
    rep.check(any == !cs.is_empty(), || format!("filter says {any}, scan found {:?}: {} tx={}", cs.txid_to_partial_secret, d(), txhex(&tx)));
}
