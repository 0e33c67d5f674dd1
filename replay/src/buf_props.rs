//! The compact filter buffer against a map of heights.
use crate::{util::*, Rep};
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, WriteRange, TABLE_DEF};
use bip157::IndexedFilter;
use bitcoin::{bip158::{BlockFilter, FilterHash}, hashes::Hash, BlockHash};
use redb::{backends::InMemoryBackend, Database};
use std::{collections::BTreeMap, sync::{Arc, Mutex}};
type F = fn(&mut Rng, usize, &mut Rep);
pub fn table() -> Vec<(&'static str, F, usize)> { vec![("C27", c27, 40), ("C30", c30, 60)] }
/// a filter as the node hands it out: the type has no public constructor, so one of the same definition stands for it
/// (used only when the accessors read back what was put in)
pub fn filter(height: u32, hash: BlockHash, content: Vec<u8>) -> Option<IndexedFilter> {
    #[allow(dead_code)]
    struct Inner { filter_hash: FilterHash, block_hash: BlockHash, block_filter: BlockFilter }
    #[allow(dead_code)]
    struct Mirror { height: u32, filter: Inner }
    if std::mem::size_of::<Mirror>() != std::mem::size_of::<IndexedFilter>() || std::mem::align_of::<Mirror>() != std::mem::align_of::<IndexedFilter>() { return None }
    let m = Mirror { height, filter: Inner { filter_hash: FilterHash::all_zeros(), block_hash: hash, block_filter: BlockFilter::new(&content) } };
    let f: IndexedFilter = unsafe { std::mem::transmute_copy(&std::mem::ManuallyDrop::new(m)) };
    (f.height() == height && f.block_hash() == hash && f.clone().into_contents() == content).then_some(f)
}
type Queue = BTreeMap<u32, (BlockHash, Vec<u8>)>;
fn c27(r: &mut Rng, i: usize, rep: &mut Rep) {
    let db = Arc::new(Mutex::new(Database::builder().create_with_backend(InMemoryBackend::new()).unwrap()));
    let mut buf = DatabaseBuffer::new(db.clone());
    let (mut q, mut disk) = (Queue::new(), BTreeMap::<u32, Vec<u8>>::new());
    let long = i % 4 == 0;
    let (base, step) = if long { (r.u32() >> 1, 1 + r.below(3) as u32) } else { (r.below(5) as u32, 1) };
    let n = if long { 2100 + r.below(200) } else { 1 + r.below(60) };
    let mut done = |rep: &mut Rep, got: &WriteRange, q: &mut Queue, disk: &mut BTreeMap<u32, Vec<u8>>| {
        let want: BTreeMap<u32, BlockHash> = q.iter().map(|(h, f)| (*h, f.0)).collect();
        rep.check(got.writes == want, || format!("a flush of {} heights reported {} with {} differing", want.len(), got.writes.len(), want.iter().filter(|(h, b)| got.writes.get(h) != Some(b)).count()));
        for (h, f) in std::mem::take(q) { disk.insert(h, f.1); }
        let g = db.lock().unwrap(); let t = g.begin_read().unwrap();
        let mut rows = BTreeMap::new();
        if let Ok(t) = t.open_table(TABLE_DEF) { for x in redb::ReadableTable::iter(&t).unwrap() { let (k, v) = x.unwrap(); rows.insert(k.value(), v.value()); } }
        rep.check(&rows == disk, || format!("the table holds {} rows, expected {}; first difference {:?}", rows.len(), disk.len(), disk.iter().find(|(k, v)| rows.get(*k) != Some(*v))));
        rep.hit("flush");
    };
    rep.set(|| format!("{n} pushes from height {base} step {step}"));
    let mut h = base; let mut top = base;
    for j in 0..n {
        // mostly ascending; a reorganisation goes back some blocks and brings other filters for the same heights
        match r.below(if long { 400 } else { 6 }) { 0 => { h = h.saturating_sub(step * r.below(20) as u32).max(base); rep.hit("reorg") } 1 if !long => { let g = buf.write_queue(); done(rep, &g, &mut q, &mut disk); rep.hit("write") } _ => {} }
        let (hash, k) = (BlockHash::from_byte_array(r.b32()), r.below(40)); let c = r.bytes(k);
        let Some(f) = filter(h, hash, c.clone()) else { rep.hit("layout"); return };
        q.insert(h, (hash, c));
        let over = q.len() > 999;
        match buf.push_filter(f) {
            Some(g) => { rep.check(over, || format!("push {j} flushed with {} heights queued", q.len())); rep.hit("auto"); done(rep, &g, &mut q, &mut disk) }
            None => rep.check(!over, || format!("push {j} did not flush with {} heights queued", q.len())),
        }
        h += step; top = top.max(h);
    }
    let g = buf.write_queue(); done(rep, &g, &mut q, &mut disk);
    let g = buf.write_queue(); done(rep, &g, &mut q, &mut disk);
}

/// one event as the node reports it, and what it should lead to
enum Ev { Filter(u32, BlockHash, Vec<u8>), Synced(u32, BlockHash), Other }
/// the subscriber's event loop against the same events handled one by one: events arrive in bursts, the consumer may go away
fn c30(r: &mut Rng, i: usize, rep: &mut Rep) {
    use bdk_sp_oracles::filters::kyoto::{FilterEvent, FilterSubscriber, UpdateError};
    use bip157::{chain::{BlockHeaderChanges, IndexedHeader}, HeaderCheckpoint, tokio::sync::mpsc, Event, SyncUpdate};
    use std::{future::Future, task::{Context, Poll, Waker}};
    if i % 3 == 2 { return c30_race(r, rep) }
    let db = Arc::new(Mutex::new(Database::builder().create_with_backend(InMemoryBackend::new()).unwrap()));
    let (etx, erx) = mpsc::unbounded_channel::<Event>(); let (utx, mut urx) = mpsc::unbounded_channel::<FilterEvent>();
    let long = i % 6 == 0;
    let birthday = if long { r.below(400) as u32 } else { r.below(12) as u32 };
    let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), erx, utx, birthday);
    let n = if long { 2300 } else { 1 + r.below(40) };
    let header = bitcoin::block::Header { version: bitcoin::block::Version::ONE, prev_blockhash: BlockHash::all_zeros(), merkle_root: bitcoin::TxMerkleNode::all_zeros(), time: 0, bits: bitcoin::CompactTarget::from_consensus(0), nonce: 0 };
    let mut h = 0u32; let mut evs = vec![];
    for _ in 0..n { evs.push(match r.below(if long { 900 } else { 8 }) {
        0 => Ev::Synced(h, BlockHash::from_byte_array(r.b32())),
        1 => Ev::Other,
        2 => { h = h.saturating_sub(r.below(4) as u32); continue }
        _ => { let k = r.below(20); h += 1; Ev::Filter(h - 1, BlockHash::from_byte_array(r.b32()), r.bytes(k)) }
    }) }
    // the consumer goes away after this many events (never, mostly)
    let gone = if r.below(3) == 0 { r.below(n + 1) } else { usize::MAX };
    rep.set(|| format!("{} events, birthday {birthday}, consumer gone after {gone}", evs.len()));
    let (mut q, mut disk) = (Queue::new(), BTreeMap::<u32, Vec<u8>>::new()); let (mut want, mut dead) = (vec![], false);
    let flush = |q: &mut Queue, disk: &mut BTreeMap<u32, Vec<u8>>| { let w: BTreeMap<u32, BlockHash> = q.iter().map(|(h, f)| (*h, f.0)).collect(); for (h, f) in std::mem::take(q) { disk.insert(h, f.1); } w };
    let mut got = vec![]; let mut end = None;
    {
        let mut fut = Box::pin(sub.run()); let mut cx = Context::from_waker(Waker::noop()); let mut alive = true;
        let mut j = 0;
        loop {
            if j == gone { urx.close(); alive = false; rep.hit("gone") }
            if j == evs.len() { break }
            // a burst of events between two polls
            let mut m = (j + 1 + r.below(30)).min(evs.len());
            if gone > j && gone < m { m = gone }
            for e in &evs[j..m] {
                let _ = etx.send(match e {
                    Ev::Filter(h, b, c) => { let Some(f) = filter(*h, *b, c.clone()) else { rep.hit("layout"); return }; Event::IndexedFilter(f) }
                    Ev::Synced(h, b) => Event::FiltersSynced(SyncUpdate { tip: HeaderCheckpoint { height: *h, hash: *b }, recent_history: Default::default() }),
                    Ev::Other => Event::ChainUpdate(BlockHeaderChanges::Connected(IndexedHeader { height: 7, header })),
                });
                if dead { continue }
                match e {
                    Ev::Filter(h, ..) if *h < birthday => rep.hit("old"),
                    Ev::Filter(h, b, c) => { q.insert(*h, (*b, c.clone())); if q.len() > 999 { let w = flush(&mut q, &mut disk); rep.hit("auto"); if alive { want.push((Some(w), None)) } else { dead = true } } }
                    Ev::Synced(h, b) => { let w = flush(&mut q, &mut disk); rep.hit("sync"); if alive { want.push((Some(w), None)); want.push((None, Some((*h, *b)))) } else { dead = true } }
                    Ev::Other => rep.hit("other"),
                }
            }
            if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) { end = Some(x); break }
            while let Ok(x) = urx.try_recv() { got.push(x) }
            j = m;
        }
        if end.is_none() { drop(etx); match fut.as_mut().poll(&mut cx) { Poll::Ready(x) => end = Some(x), Poll::Pending => {} } }
    }
    while let Ok(x) = urx.try_recv() { got.push(x) }
    let got: Vec<_> = got.into_iter().map(|x| match x { FilterEvent::Changes(w) => (Some(w.writes), None), FilterEvent::Tip(t) => (None, Some((t.height, t.hash))) }).collect();
    rep.check(got == want, || format!("{} messages to the consumer, expected {}; first difference at {:?}", got.len(), want.len(), (0..got.len().max(want.len())).find(|k| got.get(*k) != want.get(*k))));
    rep.check(match end { Some(Err(UpdateError::ChannelClosed)) => dead, Some(Err(UpdateError::NodeStopped)) => !dead, _ => false }, || format!("the loop ended with {end:?}, consumer found gone: {dead}"));
    let g = db.lock().unwrap(); let t = g.begin_read().unwrap(); let mut rows = BTreeMap::new();
    if let Ok(t) = t.open_table(TABLE_DEF) { for x in redb::ReadableTable::iter(&t).unwrap() { let (k, v) = x.unwrap(); rows.insert(k.value(), v.value()); } }
    rep.check(rows == disk, || format!("the table holds {} rows, expected {}", rows.len(), disk.len()));
}
/// the consumer goes away at some moment of the loop's own: it ends with an error, never with a panic
fn c30_race(r: &mut Rng, rep: &mut Rep) {
    use bdk_sp_oracles::filters::kyoto::{FilterEvent, FilterSubscriber};
    use bip157::{HeaderCheckpoint, tokio::sync::mpsc, Event, SyncUpdate};
    use std::{future::Future, task::{Context, Poll, Waker}};
    let db = Arc::new(Mutex::new(Database::builder().create_with_backend(InMemoryBackend::new()).unwrap()));
    let keep = r.below(4);
    rep.set(|| format!("the consumer leaves after its message {keep} while the loop runs"));
    let (etx, erx) = mpsc::unbounded_channel::<Event>(); let (utx, mut urx) = mpsc::unbounded_channel::<FilterEvent>();
    for k in 0..40 { let _ = etx.send(Event::FiltersSynced(SyncUpdate { tip: HeaderCheckpoint { height: k, hash: BlockHash::all_zeros() }, recent_history: Default::default() })); }
    drop(etx);
    let t = std::thread::spawn(move || { let mut n = 0; while n <= keep { match urx.try_recv() { Ok(_) => n += 1, Err(mpsc::error::TryRecvError::Disconnected) => break, _ => std::hint::spin_loop() } } drop(urx) });
    let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db), erx, utx, 0);
    let end = { let mut fut = Box::pin(sub.run()); match fut.as_mut().poll(&mut Context::from_waker(Waker::noop())) { Poll::Ready(x) => Some(x), Poll::Pending => None } };
    drop(sub); let _ = t.join();
    rep.check(matches!(end, Some(Err(_))), || format!("the loop ended with {end:?} after the node stopped")); rep.hit("race");
}
