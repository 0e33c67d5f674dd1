//! Samples the contracts the deductive engine assumes of the libraries (never of /repo): evidence that the assumptions
//! are true, not a proof of them.
use crate::util::*;
use crate::{Rep, F};
use bdk_chain::{tx_graph, BlockId, ConfirmationBlockTime, Merge, TxGraph};
use bech32::{primitives::decode::CheckedHrpstring, ByteIterExt, Bech32m, Fe32, Fe32IterExt, Hrp};
use bitcoin::bip32::{ChildNumber, DerivationPath, Xpriv};
use bitcoin::hashes::{hash160, sha256, Hash, HashEngine};
use bitcoin::key::{TapTweak, TweakedPublicKey, UntweakedKeypair};
use bitcoin::secp256k1::{ecdh, Keypair, Message, Parity, PublicKey, Scalar, SecretKey, XOnlyPublicKey};
use bitcoin::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn table() -> Vec<(&'static str, F, usize)> { vec![("ASSUME", all, 40)] }
fn all(r: &mut Rng, _i: usize, rep: &mut Rep) {
    rep.set(|| "library contracts".into());
    for (n, f) in [("group", group as fn(&mut Rng, &mut Rep)), ("encodings", encodings), ("hashes", hashes), ("scripts", scripts), ("witness", witness), ("transactions", transactions), ("derivation", derivation), ("taproot", taproot), ("bech32", text), ("graph", graph), ("psbt", psbtc), ("filters", filters), ("std", stdc)] { let b = rep.cases; f(r, rep); for _ in b..rep.cases { rep.hit(n) } }
}
macro_rules! law { ($rep:expr, $n:expr, $e:expr) => { { let ok = $e; $rep.check(ok, || format!("assumed contract does not hold: {}", $n)) } } }
fn group(r: &mut Rng, rep: &mut Rep) {
    let s = secp(); let (a, b) = (r.sk(), if r.below(4) == 0 { one() } else { r.sk() }); let (ga, gb) = (a.public_key(&s), b.public_key(&s)); let (sa, sb) = (Scalar::from(a), Scalar::from(b));
    law!(rep, "pk(a+b) = pk(a)+pk(b)", a.add_tweak(&sb).ok().map(|x| x.public_key(&s)) == ga.combine(&gb).ok());
    law!(rep, "pk(a*b) = b*pk(a)", a.mul_tweak(&sb).unwrap().public_key(&s) == ga.mul_tweak(&s, &sb).unwrap());
    law!(rep, "a*pk(b) = b*pk(a)", gb.mul_tweak(&s, &sa).unwrap() == ga.mul_tweak(&s, &sb).unwrap());
    law!(rep, "P + t*G", ga.add_exp_tweak(&s, &sb).ok() == ga.combine(&gb).ok());
    law!(rep, "negation", ga.negate(&s) == a.negate().public_key(&s) && ga.combine(&ga.negate(&s)).is_err() && a.add_tweak(&Scalar::from(a.negate())).is_err() && ga.add_exp_tweak(&s, &Scalar::from(a.negate())).is_err());
    law!(rep, "sum with zero", a.add_tweak(&Scalar::ZERO) == Ok(a) && a.mul_tweak(&Scalar::ZERO).is_err() && ga.mul_tweak(&s, &Scalar::ZERO).is_err() && ga.add_exp_tweak(&s, &Scalar::ZERO) == Ok(ga));
    let ks: Vec<PublicKey> = (0..1 + r.below(5)).map(|_| r.pk()).collect(); let rs: Vec<&PublicKey> = ks.iter().collect();
    law!(rep, "combine_keys is the sum", PublicKey::combine_keys(&rs).ok() == psum(&ks)); law!(rep, "combine_keys of nothing", PublicKey::combine_keys(&[]).is_err());
    let n = ga.negate(&s); law!(rep, "combine_keys to infinity", PublicKey::combine_keys(&[&ga, &n]).is_err());
    let (x, p) = ga.x_only_public_key(); let (x2, p2) = ga.negate(&s).x_only_public_key();
    law!(rep, "x-only identifies +-P", x == x2 && p != p2 && x.public_key(p) == ga && x.public_key(Parity::Even).x_only_public_key() == (x, Parity::Even) && x.public_key(p2) == ga.negate(&s));
    law!(rep, "x-only of secret, pair, key", a.x_only_public_key(&s) == (x, p) && Keypair::from_secret_key(&s, &a).x_only_public_key() == (x, p) && Keypair::from_secret_key(&s, &a).secret_key() == a && Keypair::from_secret_key(&s, &a).public_key() == ga);
    law!(rep, "order of points is the order of encodings", ga.cmp(&gb) == ga.serialize().cmp(&gb.serialize()));
    law!(rep, "ecdh point", { let q = ecdh::shared_secret_point(&gb, &a); let mut u = vec![4u8]; u.extend(q); PublicKey::from_slice(&u).ok() == gb.mul_tweak(&s, &sa).ok() });
    let kp = Keypair::from_secret_key(&s, &a); let m = Message::from_digest(r.b32()); let sig = s.sign_schnorr_with_aux_rand(&m, &kp, &r.b32());
    law!(rep, "schnorr signature verifies, under that key only", s.verify_schnorr(&sig, &m, &x).is_ok() && s.verify_schnorr(&sig, &m, &gb.x_only_public_key().0).is_ok() == (gb.x_only_public_key().0 == x));
}
fn encodings(r: &mut Rng, rep: &mut Rep) {
    let s = secp(); let a = r.sk(); let p = a.public_key(&s); let x = p.x_only_public_key().0; let e = r.e32();
    law!(rep, "points round trip", PublicKey::from_slice(&p.serialize()) == Ok(p) && PublicKey::from_slice(&p.serialize_uncompressed()) == Ok(p) && XOnlyPublicKey::from_slice(&x.serialize()) == Ok(x) && p.serialize()[1..] == x.serialize() && p.serialize()[0] == 2 + (p.x_only_public_key().1 == Parity::Odd) as u8);
    law!(rep, "secrets round trip", SecretKey::from_slice(&a.secret_bytes()) == Ok(a) && Scalar::from(a).to_be_bytes() == a.secret_bytes() && Scalar::from_be_bytes(a.secret_bytes()) == Ok(Scalar::from(a)));
    law!(rep, "secret key valid iff nonzero scalar", SecretKey::from_slice(&e).is_ok() == (Scalar::from_be_bytes(e).is_ok() && e != [0; 32]));
    let n = *r.pick(&[0usize, 1, 31, 32, 33, 34, 64, 65, 66]); let b = r.bytes(n);
    law!(rep, "lengths", (n == 33 || n == 65 || PublicKey::from_slice(&b).is_err()) && (n == 32 || XOnlyPublicKey::from_slice(&b).is_err()) && (n == 32 || SecretKey::from_slice(&b).is_err()));
    let mut c = r.bytes(33); c[0] = *r.pick(&[2u8, 3, 2, 3, 4, 0, 5]);
    law!(rep, "33 bytes parse to the point they encode", match PublicKey::from_slice(&c) { Ok(q) => q.serialize()[..] == c[..] && c[0] | 1 == 3, Err(_) => true });
    law!(rep, "32 bytes parse to the x-only key they encode", match XOnlyPublicKey::from_slice(&c[1..]) { Ok(q) => q.serialize()[..] == c[1..], Err(_) => true });
    law!(rep, "bitcoin keys: compressed iff 33 bytes", bitcoin::PublicKey::from_slice(&p.serialize()) == Ok(bitcoin::PublicKey { compressed: true, inner: p }) && bitcoin::PublicKey::from_slice(&p.serialize_uncompressed()) == Ok(bitcoin::PublicKey { compressed: false, inner: p }) && bitcoin::PublicKey::new(p).compressed);
    law!(rep, "TweakedPublicKey keeps the bytes", TweakedPublicKey::dangerous_assume_tweaked(x).serialize() == x.serialize());
}
fn hashes(r: &mut Rng, rep: &mut Rep) {
    let n = r.below(200); let b = r.bytes(n); let k = r.below(n + 1);
    law!(rep, "hashing in pieces", { let mut e = sha256::Hash::engine(); e.input(&b[..k]); e.input(&b[k..]); sha256::Hash::from_engine(e) == sha256::Hash::hash(&b) });
    law!(rep, "tagged hash", { let t = bitcoin::TapTweakHash::hash(&b).to_byte_array(); t == tagged("TapTweak", &[&b]) });
    law!(rep, "hash160 of a key", { let p = r.pk(); let c = bitcoin::PublicKey::new(p); c.pubkey_hash().to_byte_array() == hash160::Hash::hash(&p.serialize()).to_byte_array() && c.wpubkey_hash().unwrap().to_byte_array() == hash160::Hash::hash(&p.serialize()).to_byte_array() });
}
fn scripts(r: &mut Rng, rep: &mut Rep) {
    let shape = |r: &mut Rng, n: usize, pre: &[u8], suf: &[u8]| { let mut v = r.bytes(n); let m = pre.len().min(n); v[..m].copy_from_slice(&pre[..m]); let l = v.len(); if l >= suf.len() { v[l - suf.len()..].copy_from_slice(suf) } if !v.is_empty() && r.below(3) == 0 { let i = r.below(v.len()); v[i] ^= 1 << r.below(8) } v };
    for _ in 0..12 {
        let d = r.below(5); let v = match r.below(5) { 0 => shape(r, 32 + d, &[0x51, 0x20], &[]), 1 => shape(r, 20 + d, &[0, 0x14], &[]), 2 => shape(r, 21 + d, &[0xa9, 0x14], &[0x87]), 3 => shape(r, 23 + d, &[0x76, 0xa9, 0x14], &[0x88, 0xac]), _ => { let n = r.below(40); r.bytes(n) } };
        let s = ScriptBuf::from_bytes(v.clone());
        law!(rep, format!("script shapes of {}", hx(&v)), s.is_p2tr() == is_p2tr(&v) && s.is_p2wpkh() == is_wpkh(&v) && s.is_p2sh() == is_sh(&v) && s.is_p2pkh() == is_pkh(&v));
        law!(rep, "script bytes", s.as_bytes() == &v[..] && s.is_empty() == v.is_empty() && s.len() == v.len() && s.to_bytes() == v);
        if v.len() > 3 { law!(rep, "script slicing", s[1..3].as_bytes() == &v[1..3]) }
    }
    let x = r.pk().x_only_public_key().0; let t = ScriptBuf::new_p2tr_tweaked(TweakedPublicKey::dangerous_assume_tweaked(x));
    law!(rep, "taproot script", t.as_bytes()[..2] == [0x51, 0x20] && t.as_bytes()[2..] == x.serialize() && t.len() == 34);
    let p = bitcoin::PublicKey::new(r.pk()); let h = hash160::Hash::hash(&p.to_bytes()).to_byte_array();
    law!(rep, "hash scripts", ScriptBuf::new_p2pkh(&p.pubkey_hash()).as_bytes() == [&[0x76u8, 0xa9, 0x14][..], &h, &[0x88, 0xac]].concat() && ScriptBuf::new_p2wpkh(&p.wpubkey_hash().unwrap()).as_bytes() == [&[0u8, 0x14][..], &h].concat() && ScriptBuf::new_p2sh(&ScriptHash::from_byte_array(h)).as_bytes() == [&[0xa9u8, 0x14][..], &h, &[0x87]].concat());
}
fn witness(r: &mut Rng, rep: &mut Rep) {
    let n = r.below(5); let v: Vec<Vec<u8>> = (0..n).map(|_| { let k = *r.pick(&[0, 1, 33, 64, 65]); r.bytes(k) }).collect(); let w = Witness::from_slice(&v);
    law!(rep, "witness elements", w.is_empty() == v.is_empty() && w.len() == n && w.last() == v.last().map(|x| &x[..]) && w.iter().map(|x| x.to_vec()).collect::<Vec<_>>() == v && w.to_vec() == v && (0..6).all(|i| w.nth(i) == v.get(i).map(|x| &x[..])) && w.second_to_last() == (if n < 2 { None } else { Some(&v[n - 2][..]) }));
    let mut u = v.clone(); let annex = r.coin(); if annex { u.push([&[0x50u8][..], &r.bytes(4)].concat()) } let wu = Witness::from_slice(&u);
    // BIP-341: the control block is the last element once an annex (last of at least two, first byte 0x50) is taken off, when two remain
    let want = { let mut k = u.clone(); if k.len() > 1 && k[k.len() - 1].first() == Some(&0x50) { k.pop(); } if k.len() > 1 { k.pop() } else { None } };
    law!(rep, format!("control block of {u:?}"), wu.taproot_control_block().map(|x| x.to_vec()) == want);
}
fn tx(r: &mut Rng) -> Transaction { let ins: Vec<In> = (0..1 + r.below(3)).map(|_| { let k = r.below(NKINDS); input(r, k) }).collect(); let outs = (0..r.below(4)).map(|_| TxOut { value: r.sats(), script_pubkey: { let n = r.below(40); ScriptBuf::from_bytes(r.bytes(n)) } }).collect(); mktx(&ins, outs).0 }
fn transactions(r: &mut Rng, rep: &mut Rep) {
    let o = r.outpoint(); law!(rep, "consensus encoding of an outpoint", consensus::serialize(&o) == ser_op(&o));
    let t = tx(r); let i = r.below(5); law!(rep, "tx_out", t.tx_out(i).ok() == t.output.get(i));
    let mut u = t.clone(); for x in &mut u.input { x.witness = Witness::new() }
    law!(rep, "the id ignores witnesses", t.compute_txid() == u.compute_txid()); law!(rep, "the id commits to the outputs", { let mut u = t.clone(); u.output.push(TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::new() }); u.compute_txid() != t.compute_txid() });
    let q = r.outpoint(); law!(rep, "outpoints order by id bytes, then index", o.cmp(&q) == (o.txid.to_byte_array(), o.vout).cmp(&(q.txid.to_byte_array(), q.vout)));
    law!(rep, "coinbase", { let mut c = t.clone(); c.input.truncate(1); c.input[0].previous_output = OutPoint::null(); c.is_coinbase() } && t.is_coinbase() == (t.input.len() == 1 && t.input[0].previous_output == OutPoint::null()));
}
fn derivation(r: &mut Rng, rep: &mut Rep) {
    let s = secp(); let n = r.network(); let m = Xpriv::new_master(n, &r.b32()).unwrap(); let cs: Vec<ChildNumber> = (0..r.below(4)).map(|_| { let i = r.u32() >> 1; if r.coin() { ChildNumber::Hardened { index: i } } else { ChildNumber::Normal { index: i } } }).collect(); let p = DerivationPath::from(cs.clone());
    let d = m.derive_priv(&s, &p).unwrap(); let mut e = m; for c in &cs { e = e.derive_priv(&s, &[*c]).unwrap() }
    law!(rep, "derivation is a function of parent and path", d == m.derive_priv(&s, &cs).unwrap() && d == e);
    law!(rep, "Xpriv keeps its network", d.network == m.network && PrivateKey::new(d.private_key, n).inner == d.private_key);
}
fn taproot(r: &mut Rng, rep: &mut Rep) {
    let s = secp(); let a = r.sk(); let kp = UntweakedKeypair::from_secret_key(&s, &a); let (x, par) = kp.x_only_public_key(); let root = if r.coin() { Some(TapNodeHash::from_byte_array(r.b32())) } else { None };
    let h = match root { None => tagged("TapTweak", &[&x.serialize()]), Some(m) => tagged("TapTweak", &[&x.serialize(), &m.to_byte_array()]) };
    law!(rep, "tap tweak hash", TapTweakHash::from_key_and_tweak(x, root).to_byte_array() == h && TapTweakHash::from_key_and_tweak(x, root).to_scalar() == sc(h));
    let e = if par == Parity::Odd { a.negate() } else { a };
    law!(rep, "tap_tweak adds the hash to the even secret", kp.tap_tweak(&s, root).to_inner().secret_key() == e.add_tweak(&sc(h)).unwrap() && x.tap_tweak(&s, root).0.serialize() == e.add_tweak(&sc(h)).unwrap().x_only_public_key(&s).0.serialize());
    let (y, q) = x.add_tweak(&s, &sc(h)).unwrap(); law!(rep, "x-only add_tweak", (y, q) == x.public_key(Parity::Even).add_exp_tweak(&s, &sc(h)).unwrap().x_only_public_key());
}
fn text(r: &mut Rng, rep: &mut Rep) {
    let n = r.below(90); let data = r.bytes(n); let v = r.below(32) as u8; let h = *r.pick(&["sp", "tsp", "sprt", "SP", "x"]); let hrp = Hrp::parse(h).unwrap();
    let s: String = data.iter().copied().bytes_to_fes().with_checksum::<Bech32m>(&hrp).with_witness_version(Fe32::try_from(v).unwrap()).chars().collect();
    let c = CheckedHrpstring::new::<Bech32m>(&s);
    law!(rep, format!("the bech32m decoder inverts the encoder ({h}, {v}, {})", hx(&data)), match c { Ok(c) => { let mut it = c.fe32_iter::<&mut dyn Iterator<Item = u8>>(); let f = it.next().map(|x| x.to_u8()); let rest: Vec<u8> = it.fes_to_bytes().collect(); c.hrp().to_lowercase() == hrp.to_lowercase() && f == Some(v) && rest == data } Err(_) => s.len() > 1023 });
    law!(rep, "the decoder is insensitive to the whole string's case", { let up = s.to_uppercase(); let lo = s.to_lowercase(); CheckedHrpstring::new::<Bech32m>(&up).is_ok() == CheckedHrpstring::new::<Bech32m>(&lo).is_ok() });
    law!(rep, "human readable parts compare without case", Hrp::parse("SP").unwrap() == Hrp::parse("sp").unwrap() && Hrp::parse("sp").unwrap() != Hrp::parse("tsp").unwrap());
    law!(rep, "a field element is below 32", { let b = r.next() as u8; Fe32::try_from(b).is_ok() == (b < 32) && Fe32::try_from(b).map_or(true, |f| f.to_u8() == b) });
}
type Gr = TxGraph<ConfirmationBlockTime>;
#[derive(PartialEq, Debug, Clone)] struct Obs { txs: BTreeMap<Txid, Transaction>, fl: BTreeMap<OutPoint, TxOut>, an: BTreeSet<(ConfirmationBlockTime, Txid)>, seen: BTreeMap<Txid, u64>, ev: BTreeMap<Txid, u64> }
fn obs(g: &Gr) -> Obs { let c = g.initial_changeset(); Obs { txs: g.full_txs().map(|n| (n.txid, (*n.tx).clone())).collect(), fl: g.floating_txouts().map(|(o, t)| (o, t.clone())).collect(), an: g.all_anchors().iter().flat_map(|(t, s)| s.iter().map(|a| (*a, *t)).collect::<Vec<_>>()).collect(), seen: c.last_seen.clone(), ev: c.last_evicted.clone() } }
fn graph(r: &mut Rng, rep: &mut Rep) {
    let pool: Vec<Transaction> = (0..3).map(|_| tx(r)).collect(); let mut g = Gr::default(); let mut h = Gr::default(); let mut sum = tx_graph::ChangeSet::<ConfirmationBlockTime>::default();
    law!(rep, "an empty changeset changes nothing", { let mut k = g.clone(); k.apply_changeset(Default::default()); obs(&k) == obs(&g) && tx_graph::ChangeSet::<ConfirmationBlockTime>::default().is_empty() });
    for _ in 0..r.below(10) {
        let t = r.pick(&pool).clone(); let id = if r.below(4) == 0 { r.txid() } else { t.compute_txid() }; let before = obs(&g); let mut want = before.clone(); let at = r.next() % 5;
        let maxput = |m: &mut BTreeMap<Txid, u64>, k: Txid, v: u64| { let e = m.entry(k).or_insert(v); if v > *e { *e = v } };
        let add = |w: &mut Obs, t: &Transaction| { let id = t.compute_txid(); if let std::collections::btree_map::Entry::Vacant(e) = w.txs.entry(id) { e.insert(t.clone()); w.fl.retain(|o, _| o.txid != id) } };
        let op = r.below(7); let cs = match op {
            0 => { let c = g.insert_tx(t.clone()); add(&mut want, &t); c }
            1 => { let a = ConfirmationBlockTime { block_id: BlockId { height: r.below(3) as u32, hash: BlockHash::from_byte_array([r.below(2) as u8; 32]) }, confirmation_time: r.next() % 3 }; want.an.insert((a, id)); g.insert_anchor(id, a) }
            2 => { maxput(&mut want.seen, id, at); g.insert_seen_at(id, at) }
            3 => { maxput(&mut want.ev, id, at); g.insert_evicted_at(id, at) }
            4 => { let vout = r.below(3) as u32; let o = OutPoint { txid: id, vout }; let out = TxOut { value: Amount::from_sat(vout as u64), script_pubkey: ScriptBuf::new() }; if !want.txs.contains_key(&id) { want.fl.insert(o, out.clone()); } g.insert_txout(o, out) }
            5 => { let l: Vec<(Transaction, u64)> = (0..r.below(4)).map(|_| (r.pick(&pool).clone(), r.next() % 5)).collect(); for (t, s) in &l { maxput(&mut want.seen, t.compute_txid(), *s); add(&mut want, t) } g.batch_insert_unconfirmed(l) }
            _ => { let l: Vec<(Txid, u64)> = (0..r.below(4)).map(|_| (if r.below(3) == 0 { r.txid() } else { r.pick(&pool).compute_txid() }, r.next() % 5)).collect(); for (t, s) in &l { if want.txs.contains_key(t) || want.fl.keys().any(|o| o.txid == *t) { maxput(&mut want.ev, *t, *s) } } g.batch_insert_relevant_evicted_at(l) }
        };
        law!(rep, format!("an insertion changes only its own component: {op} got {:?} want {want:?} before {before:?}", obs(&g)), obs(&g) == want);
        law!(rep, "an insertion that changes nothing observable returns a changeset that changes nothing", !cs.is_empty() || obs(&g) == before);
        h.apply_changeset(cs.clone()); law!(rep, "applying what an insertion returned gives the graph after it", obs(&h) == obs(&g));
        let (se, ce) = (sum.is_empty(), cs.is_empty()); sum.merge(cs); law!(rep, "a merge is empty iff both are", sum.is_empty() == (se && ce));
    }
    law!(rep, "applying merged changesets is applying them in turn", { let mut k = Gr::default(); k.apply_changeset(sum); obs(&k) == obs(&g) });
    law!(rep, "a graph's changeset rebuilds it", { let mut k = Gr::default(); k.apply_changeset(g.initial_changeset()); obs(&k) == obs(&g) });
    law!(rep, "get_tx finds exactly the full transactions", pool.iter().all(|t| g.get_tx(t.compute_txid()).map(|x| (*x).clone()) == obs(&g).txs.get(&t.compute_txid()).cloned()));
}
fn psbtc(r: &mut Rng, rep: &mut Rep) {
    let t0 = tx(r); let prev: Vec<TxOut> = t0.input.iter().map(|_| TxOut { value: r.sats(), script_pubkey: ScriptBuf::new() }).collect(); let i = r.below(t0.input.len());
    let h = |t: &Transaction, p: &[TxOut]| sighash::SighashCache::new(t).taproot_key_spend_signature_hash(i, &sighash::Prevouts::All(p), TapSighashType::Default).unwrap();
    law!(rep, "a taproot sighash is a function of transaction, index, previous outputs and type", h(&t0, &prev) == h(&t0.clone(), &prev.clone()) && { let mut u = t0.clone(); for x in &mut u.input { x.witness = Witness::new() } h(&u, &prev) == h(&t0, &prev) } && { let mut q = prev.clone(); q[i].value = Amount::from_sat(prev[i].value.to_sat() ^ 1); h(&t0, &q) != h(&t0, &prev) });
    let mut t = tx(r); for i in &mut t.input { i.witness = Witness::new(); i.script_sig = ScriptBuf::new() }
    let p = Psbt::from_unsigned_tx(t.clone()).unwrap(); law!(rep, "a psbt has a record per input and output", p.inputs.len() == t.input.len() && p.outputs.len() == t.output.len() && p.unsigned_tx == t);
}
fn filters(r: &mut Rng, rep: &mut Rep) {
    let mk = |r: &mut Rng| { let b = r.b32(); crate::buf_props::filter(r.below(3) as u32, BlockHash::from_byte_array(b), r.bytes(4)) };
    if let (Some(a), Some(b)) = (mk(r), mk(r)) { law!(rep, "compact filters are ordered by height alone", a.cmp(&b) == a.height().cmp(&b.height())); let mut s = BTreeSet::new(); s.insert(a.clone()); s.insert(b.clone()); law!(rep, "insertion in a set keeps the first filter of a height", s.len() == 1 + (a.height() != b.height()) as usize && s.iter().any(|f| f.block_hash() == a.block_hash())) }
    let def = redb::TableDefinition::<u32, Vec<u8>>::new("t"); let db = redb::Database::builder().create_with_backend(redb::backends::InMemoryBackend::new()).unwrap(); let mut want = BTreeMap::new();
    for _ in 0..3 {
        let keep = r.coin(); let t = db.begin_write().unwrap(); let mut w = want.clone();
        { let mut tab = t.open_table(def).unwrap(); for _ in 0..r.below(3) { let (k, v) = (r.below(3) as u32, r.bytes(3)); tab.insert(k, v.clone()).unwrap(); w.insert(k, v); } }
        if keep { t.commit().unwrap(); want = w } else { drop(t) }
        let t = db.begin_read().unwrap(); let rows: BTreeMap<u32, Vec<u8>> = match t.open_table(def) { Ok(t) => redb::ReadableTable::iter(&t).unwrap().map(|x| { let (k, v) = x.unwrap(); (k.value(), v.value()) }).collect(), Err(_) => BTreeMap::new() };
        law!(rep, "a write takes effect at commit", rows == want);
    }
}
fn stdc(r: &mut Rng, rep: &mut Rep) {
    let n = r.below(8); let v: Vec<u8> = (0..n).map(|_| r.below(6) as u8).collect(); let m: BTreeMap<u8, usize> = v.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    law!(rep, "collect keeps the last of equal keys, in key order", v.iter().all(|x| m[x] == v.iter().rposition(|y| y == x).unwrap()) && m.keys().zip(m.keys().skip(1)).all(|(a, b)| a < b) && m.len() == v.iter().collect::<BTreeSet<_>>().len());
    let mut s = v.clone(); s.sort(); law!(rep, "min, max, sort", v.iter().min() == s.first() && v.iter().max() == s.last() && v.iter().min_by_key(|x| **x / 2).map(|x| v.iter().position(|y| y == x)) == v.iter().enumerate().min_by_key(|(i, x)| (**x / 2, *i)).map(|(_, x)| v.iter().position(|y| y == x)));
    let mut d = v.clone(); d.dedup(); law!(rep, "dedup", d.windows(2).all(|w| w[0] != w[1]) && d.first() == v.first());
    if n > 0 { let i = r.below(n); let mut a = v.clone(); let x = a.swap_remove(i); law!(rep, "swap_remove", x == v[i] && a.len() == n - 1 && (i == n - 1 || a[i] == v[n - 1])) }
    if n > 1 { let k = r.below(n - 1) + 1; law!(rep, "windows and chunks", v.windows(k).count() == n - k + 1 && v.windows(k).enumerate().all(|(i, w)| w == &v[i..i + k]) && v.chunks(k).count() == n.div_ceil(k) && v.chunks(k).enumerate().all(|(i, w)| w == &v[i * k..n.min((i + 1) * k)])) }
}
