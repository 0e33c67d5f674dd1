//! Receiving, hashes, addresses, DLEQ.
use crate::util::*;
use crate::{Rep, F};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{compute_tweak_data, extract_pubkey, get_silentpayment_script_pubkey, scan::Scanner, scan_txouts, SpMeta, SpOut};
use bdk_sp::{compute_shared_secret, hashes, tag_txin, LexMin, SpInputs};
use bitcoin::secp256k1::{Parity, PublicKey, Scalar, SecretKey};
use bitcoin::hashes::Hash as _;
use bitcoin::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn table() -> Vec<(&'static str, F, usize)> {
    vec![("C01", c01, 300), ("C02", c02, 300), ("C03", c03, 500), ("C04", c04, 1500), ("C07", c07, 1500), ("C08", c08, 600), ("C09", c09, 1500), ("C10", c10, 400), ("C11", c11, 400),
         ("C17", c17, 150), ("C18", c18, 150), ("C26", c26, 400)]
}
pub type Labels = BTreeMap<PublicKey, (Scalar, u32)>;
pub struct Wallet { pub scan: SecretKey, pub spend: SecretKey, pub spend_pk: PublicKey, pub labels: Labels, pub ms: Vec<u32> }
pub fn wallet(r: &mut Rng) -> Wallet {
    let (scan, mut spend) = (r.sk(), r.sk()); match r.below(20) { 0 => spend = scan, 1 => spend = scan.negate(), 2 => spend = one(), _ => {} } let mut labels = Labels::new(); let mut ms = vec![];
    let n = if r.below(40) == 0 { 60 + r.below(220) } else { [0, 1, 2, 4, 9][r.below(5)] };
    for _ in 0..n { let m = if n > 9 { r.u32() } else { r.m() }; let t = label(&scan, m); labels.insert(mulg(&t), (t, m)); if !ms.contains(&m) { ms.push(m) } }
    Wallet { scan, spend, spend_pk: spend.public_key(&secp()), labels, ms }
}
pub fn relabel(mut w: Wallet) -> Wallet { w.labels = w.ms.iter().map(|m| { let t = label(&w.scan, *m); (mulg(&t), (t, *m)) }).collect(); w }
/// the point paid at position k, through label `l`
pub fn point(w: &Wallet, s: &PublicKey, k: u32, l: Option<u32>) -> PublicKey {
    let p = w.spend_pk.combine(&mulg(&Scalar::from(t_k(s, k)))).unwrap();
    match l { None => p, Some(m) => p.combine(&mulg(&label(&w.scan, m))).unwrap() }
}
pub struct Scan { pub w: Wallet, pub ss: PublicKey, pub tx: Transaction, pub paid: Vec<(u32, Option<u32>)> }
pub fn other_out(r: &mut Rng, w: &Wallet, ss: &PublicKey) -> ScriptBuf {
    match r.below(9) {
        0 => p2tr_p(&r.pk()),
        1 => { let mut v = vec![0x51u8, 0x20]; v.extend([0xffu8; 32]); ScriptBuf::from_bytes(v) }   // not a point
        2 => { let mut v = vec![0u8, 0x14]; v.extend(r.bytes(20)); ScriptBuf::from_bytes(v) }
        3 => { let mut v = vec![[0u8, 0x52][r.below(2)], 0x20]; v.extend(point(w, ss, 0, None).x_only_public_key().0.serialize()); ScriptBuf::from_bytes(v) }   // right key, wrong kind of script
        4 => ScriptBuf::new(),
        5 => p2tr_p(&point(w, ss, 7, None)),      // beyond a gap
        6 => { let m = r.u32(); p2tr_p(&point(w, ss, 0, Some(m))) }   // a label that (almost surely) is not ours
        7 => p2tr_p(&w.spend_pk),
        _ => { let m = loop { let m = r.below(40) as u32; if !w.ms.contains(&m) { break m } }; p2tr_p(&point(w, ss, 1, Some(m))) }
    }
}
pub fn scan_case(r: &mut Rng, i: usize) -> Scan {
    let w = wallet(r); let ss = r.pk(); let mut spks: Vec<ScriptBuf> = vec![]; let mut paid = vec![];
    let n = if i < 8 { i } else if i % 50 == 9 { 17 + r.below(24) } else if i % 400 == 20 { 300 } else { r.below(6) };
    for k in 0..n as u32 { let l = if w.ms.is_empty() || r.coin() { None } else { Some(*r.pick(&w.ms)) }; spks.push(p2tr_p(&point(&w, &ss, k, l))); paid.push((k, l)); }
    for _ in 0..r.below(4) { let o = other_out(r, &w, &ss); spks.push(o) }
    if !spks.is_empty() && r.below(6) == 0 { let d = r.pick(&spks).clone(); spks.push(d) }
    if r.below(12) == 0 { for _ in 0..260 { let b = r.pk(); spks.push(p2tr_p(&b)) } }
    r.shuffle(&mut spks);
    let outs = spks.into_iter().map(|s| TxOut { value: r.sats(), script_pubkey: s }).collect();
    let (kd, nin) = (r.below(7), 1 + r.below(2)); let ins: Vec<In> = (0..nin).map(|_| input(r, kd)).collect();
    let (tx, _) = mktx(&ins, outs);
    Scan { w, ss, tx, paid }
}
pub fn describe(s: &Scan) -> String { format!("scan_sk={} spend_sk={} labels={:?} shared={} tx={}", hx(&s.w.scan.secret_bytes()), hx(&s.w.spend.secret_bytes()), s.w.ms, s.ss, txhex(&s.tx)) }
/// the reported outputs really are payments to the wallet
pub fn sound(w: &Wallet, tx: &Transaction, found: &[SpOut]) -> Result<(), String> {
    let txid = tx.compute_txid(); let mut seen = BTreeSet::new();
    for f in found {
        if f.outpoint.txid != txid { return Err("wrong txid".into()) }
        let Some(o) = tx.output.get(f.outpoint.vout as usize) else { return Err("no such output".into()) };
        if o.script_pubkey != f.script_pubkey || o.value != f.amount { return Err(format!("script or amount of output {}", f.outpoint.vout)) }
        let Some(x) = xonly_of(o.script_pubkey.as_bytes()) else { return Err("not p2tr".into()) };
        let sk = w.spend.add_tweak(&Scalar::from(f.tweak)).map_err(|e| e.to_string())?;
        if sk.x_only_public_key(&secp()).0 != x { return Err(format!("output {} is not spendable with the reported tweak", f.outpoint.vout)) }
        if !seen.insert(f.outpoint) { return Err("reported twice".into()) }
        if let Some(m) = f.label { if !w.ms.contains(&m) { return Err("unknown label".into()) } }
    }
    Ok(())
}
/// reference scan: position by position, any matching output. Err when several outputs match at one position.
pub fn ref_scan(w: &Wallet, ss: &PublicKey, tx: &Transaction) -> Result<Vec<(usize, Option<u32>, SecretKey)>, ()> {
    let mut used = BTreeSet::new(); let mut out = vec![]; let mut amb = false;
    for k in 0.. {
        let t = t_k(ss, k); let mut hit = vec![];
        let mut cands = vec![(None, p2tr_p(&point(w, ss, k, None)), t)];
        for m in &w.ms { cands.push((Some(*m), p2tr_p(&point(w, ss, k, Some(*m))), t.add_tweak(&label(&w.scan, *m)).unwrap())) }
        for (i, o) in tx.output.iter().enumerate() { if !used.contains(&i) { for (l, s, t) in &cands { if o.script_pubkey == *s { hit.push((i, *l, *t)) } } } }
        if hit.len() > 1 { amb = true }
        match hit.first() { None => break, Some(h) => { used.insert(h.0); out.push(*h) } }
    }
    if amb { Err(()) } else { Ok(out) }
}
fn c01(r: &mut Rng, i: usize, rep: &mut Rep) {
    let s = scan_case(r, i); rep.set(|| describe(&s));
    let f = scan_txouts(s.w.spend_pk, &s.w.labels, &s.tx, s.ss).unwrap();
    if !f.is_empty() { rep.hit("found") } if f.iter().any(|x| x.label.is_some()) { rep.hit("labelled") }
    let e = sound(&s.w, &s.tx, &f); rep.check(e.is_ok(), || format!("{:?}: {}", e, describe(&s)));
    for x in &f { // the label is the one whose scalar is in the tweak
        let ok = (0..s.tx.output.len() as u32).any(|k| { let t = t_k(&s.ss, k); x.tweak == match x.label { None => t, Some(m) => t.add_tweak(&label(&s.w.scan, m)).unwrap() } });
        rep.check(ok, || format!("tweak or label of {:?}: {}", x.outpoint, describe(&s)));
        let (m, o) = (SpMeta::from(x), TxOut::from(x));
        rep.check(m.tweak == x.tweak && m.label == x.label && o == s.tx.output[x.outpoint.vout as usize], || format!("conversion of {:?}", x));
    }
    let n = Scanner::new(s.w.scan, s.w.spend_pk, s.w.labels.clone()).scan_txouts(&s.tx, s.ss).unwrap();
    let e = sound(&s.w, &s.tx, &n); rep.check(e.is_ok(), || format!("Scanner {:?}: {}", e, describe(&s)));
}
pub fn complete(w: &Wallet, ss: &PublicKey, tx: &Transaction, f: &[SpOut]) -> Result<(), String> {
    match ref_scan(w, ss, tx) {
        Ok(want) => {
            let mut a: Vec<_> = want.iter().map(|x| (x.0, x.1, x.2.secret_bytes())).collect(); a.sort();
            let mut b: Vec<_> = f.iter().map(|x| (x.outpoint.vout as usize, x.label, x.tweak.secret_bytes())).collect(); b.sort();
            if a == b { Ok(()) } else { Err(format!("expected outputs {:?}, reported {:?}", a.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(), b.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>())) }
        }
        Err(()) => Ok(()),
    }
}
fn c02(r: &mut Rng, i: usize, rep: &mut Rep) {
    let s = scan_case(r, i); rep.set(|| describe(&s));
    let f = scan_txouts(s.w.spend_pk, &s.w.labels, &s.tx, s.ss).unwrap();
    if f.len() > 1 { rep.hit("several") } if f.iter().any(|x| x.label.is_some()) { rep.hit("labelled") }
    let e = complete(&s.w, &s.ss, &s.tx, &f); rep.check(e.is_ok(), || format!("{:?}: {}", e, describe(&s)));
    rep.check(f.len() >= s.paid.len(), || format!("{} of {} payments reported: {}", f.len(), s.paid.len(), describe(&s)));
    // whole transaction, from its inputs
    let n = 1 + r.below(4); let ins: Vec<In> = (0..n).map(|_| { let k = if r.below(3) == 0 { r.below(NKINDS) } else { r.below(7) }; input(r, k) }).collect();
    let (tx0, pv0) = mktx(&ins, s.tx.output.clone());
    let sc = Scanner::new(s.w.scan, s.w.spend_pk, s.w.labels.clone());
    if let Some(td) = tweak_data(&tx0, &pv0) {
        let ss = pmul(&td, &Scalar::from(s.w.scan)); let mut outs: Vec<TxOut> = s.paid.iter().map(|(k, l)| TxOut { value: Amount::from_sat(1), script_pubkey: p2tr_p(&point(&s.w, &ss, *k, *l)) }).collect();
        r.shuffle(&mut outs);
        let (tx, pvs) = mktx(&ins, outs);
        rep.set(|| format!("scan_tx kinds={:?} {}", ins.iter().map(|x| x.kind).collect::<Vec<_>>(), txhex(&tx)));
        let got = sc.scan_tx(&tx, &pvs).unwrap(); let e = sound(&s.w, &tx, &got).and_then(|_| complete(&s.w, &ss, &tx, &got));
        rep.check(e.is_ok(), || format!("{:?} scan_tx kinds={:?} prevouts={} tx={}", e, ins.iter().map(|x| x.kind).collect::<Vec<_>>(), pv(&pvs), txhex(&tx)));
        rep.check(got.len() >= s.paid.len(), || format!("scan_tx {} of {} kinds={:?} {}", got.len(), s.paid.len(), ins.iter().map(|x| x.kind).collect::<Vec<_>>(), txhex(&tx)));
        rep.check(sc.get_shared_secret(&tx, &pvs).ok() == Some(ss), || format!("get_shared_secret {}", txhex(&tx)));
    }
}
fn c03(r: &mut Rng, i: usize, rep: &mut Rep) {
    let n = if i < 4 { i } else { 1 + r.below(6) };
    let mut ins: Vec<In> = vec![];
    for _ in 0..n {
        let k = if r.below(3) == 0 { r.below(NKINDS) } else { r.below(7) };
        let x = match r.below(8) { 0 if !ins.is_empty() => { let s = r.pick(&ins).key; input_with(r, k, s) } 1 if !ins.is_empty() => { let s = r.pick(&ins).key.negate(); input_with(r, k, s) } _ => input(r, k) };
        ins.push(x);
    }
    if n > 1 && r.below(3) == 0 { let o = ins[0].txin.previous_output; for (j, x) in ins.iter_mut().enumerate() { x.txin.previous_output.txid = o.txid; x.txin.previous_output.vout = [0, 255, 256, 65536, 1, 2][j] } let l = ins.len(); let a = r.below(l); ins.swap(0, a) }
    let (tx, pvs) = mktx(&ins, vec![]); rep.set(|| format!("prevouts={} tx={}", pv(&pvs), txhex(&tx)));
    let (want, got) = (tweak_data(&tx, &pvs), compute_tweak_data(&tx, &pvs).ok());
    rep.hit(if want.is_some() { "some" } else { "none" });
    rep.check(want == got, || format!("tweak data expected {:?} got {:?} prevouts={} tx={}", want, got, pv(&pvs), txhex(&tx)));
    let (a, b) = (r.sk(), r.pk()); rep.check(compute_shared_secret(&a, &b) == pmul(&b, &Scalar::from(a)), || format!("shared secret {} {}", hx(&a.secret_bytes()), b));
    let (w, sc) = (r.sk(), r.pk());
    let got = Scanner::new(w, sc, Labels::new()).get_shared_secret(&tx, &pvs).ok();
    rep.check(got == want.map(|t| pmul(&t, &Scalar::from(w))), || format!("Scanner::get_shared_secret {}", txhex(&tx)));
}
fn kindof(t: Option<SpInputs>) -> Option<Kind> { t.map(|t| match t { SpInputs::Tr => Kind::Tr, SpInputs::Wpkh => Kind::Wpkh, SpInputs::ShWpkh => Kind::ShWpkh, SpInputs::Pkh => Kind::Pkh }) }
fn mutate(r: &mut Rng, x: &mut In) {
    match r.below(8) {
        0 => { let b = r.bytes(33); x.txin.witness.push(b) }
        1 => { let w: Vec<Vec<u8>> = x.txin.witness.to_vec(); x.txin.witness = Witness::from_slice(&w[..w.len().saturating_sub(1)]) }
        2 => { let n = r.below(40); let mut w: Vec<Vec<u8>> = x.txin.witness.to_vec(); if let Some(l) = w.last_mut() { l.truncate(n) } x.txin.witness = Witness::from_slice(&w) }
        3 => { x.txin.script_sig = ScriptBuf::from_bytes({ let n = r.below(80); r.bytes(n) }) }
        4 => { x.txin.script_sig = ScriptBuf::new() }
        5 => { let mut s = x.spk.to_bytes(); if !s.is_empty() { let j = r.below(s.len()); s[j] ^= 1 << r.below(8) } x.spk = ScriptBuf::from_bytes(s) }
        6 => { let mut w: Vec<Vec<u8>> = x.txin.witness.to_vec(); if let Some(l) = w.last_mut() { if !l.is_empty() { let j = r.below(l.len()); l[j] ^= 1 << r.below(8) } } x.txin.witness = Witness::from_slice(&w) }
        _ => { let mut s = x.spk.to_bytes(); s.truncate(r.below(36)); x.spk = ScriptBuf::from_bytes(s) }
    }
}
fn c04(r: &mut Rng, i: usize, rep: &mut Rep) {
    let k = if i < 4 * NKINDS { i % NKINDS } else { r.below(NKINDS) }; let mut x = input(r, k);
    if i >= 4 * NKINDS && r.coin() { for _ in 0..1 + r.below(2) { mutate(r, &mut x) } }
    let d = |x: &In| format!("script_pubkey={} script_sig={} witness=[{}]", hx(x.spk.as_bytes()), hx(x.txin.script_sig.as_bytes()), x.txin.witness.iter().map(hx).collect::<Vec<_>>().join(","));
    rep.set(|| d(&x)); let want = eligible(&x.txin, &x.spk); rep.hit(format!("{:?}", want));
    let got = tag_txin(&x.txin, &x.spk);
    rep.check(kindof(got) == want, || format!("kind expected {:?} got {:?}: {}", want, got, d(&x)));
    let want = input_key(&x.txin, &x.spk); let got = extract_pubkey(x.txin.clone(), &x.spk).map(|(t, p)| (kindof(Some(t)).unwrap(), p));
    rep.check(got == want, || format!("key expected {:?} got {:?}: {}", want, got, d(&x)));
}
fn c07(r: &mut Rng, i: usize, rep: &mut Rep) {
    let n = if i < 3 { i } else { 1 + r.below(6) }; let t = r.txid(); let mut b = t.to_byte_array(); b[31] ^= 1; let t2 = Txid::from_byte_array(b); b[0] ^= 0x80; let t3 = Txid::from_byte_array(b);
    let ops: Vec<OutPoint> = (0..n).map(|_| if r.coin() { r.outpoint() } else { OutPoint { txid: *r.pick(&[t, t2, t3]), vout: *r.pick(&[0, 1, 255, 256, 257, 65535, 65536, 1 << 24, u32::MAX]) } }).collect();
    let d = || format!("outpoints {:?}", ops); rep.set(d);
    let mut l = LexMin::default(); let mut m: Option<[u8; 36]> = None;
    for o in &ops { let x = ser_op(o); m = Some(m.map_or(x, |a| a.min(x))); let ret = *l.update(o); rep.check(Some(ser_op(&ret)) == m, || format!("update returned {:?}: {}", ret, d())); let cur = l.bytes().ok(); rep.check(cur == m, || format!("bytes {:?}: {}", cur, d())); }
    let got = l.bytes().ok(); rep.check(got == m, || format!("bytes {:?} of {}", got, d()));
}
// ---------------------------------------------------------------- addresses
const CH: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn polymod(v: &[u8]) -> u32 { let mut c: u32 = 1; for x in v { let t = c >> 25; c = ((c & 0x1ffffff) << 5) ^ *x as u32; for (i, g) in [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3].iter().enumerate() { if (t >> i) & 1 == 1 { c ^= g } } } c }
pub fn bech(hrp: &str, data: &[u8], m: u32) -> String {
    let mut v: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect(); v.push(0); v.extend(hrp.bytes().map(|b| b & 31)); v.extend(data); v.extend([0; 6]);
    let p = polymod(&v) ^ m; let mut s = format!("{hrp}1"); for d in data { s.push(CH[*d as usize] as char) } for i in 0..6 { s.push(CH[((p >> (5 * (5 - i))) & 31) as usize] as char) } s
}
const M: u32 = 0x2bc830a3;
pub fn to5(b: &[u8], pad: u8) -> Vec<u8> { let mut acc = 0u32; let mut n = 0; let mut o = vec![]; for x in b { acc = (acc << 8) | *x as u32; n += 8; while n >= 5 { n -= 5; o.push(((acc >> n) & 31) as u8) } acc &= (1 << n) - 1 } if n > 0 { o.push((((acc << (5 - n)) as u8) & 31) | (pad & ((1 << (5 - n)) - 1))) } o }
fn hrp(n: Network) -> &'static str { match n { Network::Bitcoin => "sp", Network::Regtest => "sprt", _ => "tsp" } }
fn fold(n: Network) -> Network { match n { Network::Bitcoin => Network::Bitcoin, Network::Regtest => Network::Regtest, _ => Network::Testnet } }
fn c08(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let (a, b, n) = (r.pk(), r.pk(), r.network()); let c = SilentPaymentCode::new_v0(a, b, n); let s = c.to_string(); let mut d = vec![0u8]; d.extend(to5(&[a.serialize(), b.serialize()].concat(), 0));
    rep.set(|| s.clone()); rep.check(s == bech(hrp(n), &d, M), || format!("encoding of scan={a} spend={b} {n:?}: {s}"));
    for t in [s.clone(), s.to_uppercase()] { match SilentPaymentCode::try_from(&t[..]) { Ok(p) => rep.check(p.scan == a && p.spend == b && p.version() == 0 && p.network == fold(n) && p.to_string() == s, || format!("round trip of {t}: {p:?}")), Err(e) => rep.check(false, || format!("{t}: {e:?}")) } }
    let l = r.scalar(); let lc = c.add_label(l).unwrap(); rep.check(SilentPaymentCode::try_from(&lc.to_string()[..]).map(|p| p.spend == lc.spend && p.scan == a).unwrap_or(false), || format!("labelled code of {s}"));
    // versions 1..=30 read the first 66 bytes and print back as themselves
    let v = 1 + r.below(30) as u8; let mut d = vec![v]; let ex = r.below(8); let e = r.bytes(ex); d.extend(to5(&[&a.serialize()[..], &b.serialize()[..], &e[..]].concat(), 0)); let t = bech(hrp(n), &d, M);
    match SilentPaymentCode::try_from(&t[..]) { Ok(p) => { let ok = p.scan == a && p.spend == b && p.version() == v && p.network == fold(n); let q = SilentPaymentCode::try_from(&p.to_string()[..]).map(|q| q == p).unwrap_or(false); rep.check(ok && q, || format!("version {v} code {t}: {p:?}")) } Err(e) => rep.check(false, || format!("version {v} code {t}: {e:?}")) }
}
fn c09(r: &mut Rng, i: usize, rep: &mut Rep) {
    let v = (if i < 64 { i % 33 } else { r.below(32) }) as u8 & 31; let (a, b) = (r.pk().serialize(), r.pk().serialize()); let mut body = [a, b].concat();
    let mode = r.below(10); let mut good = true; let n = r.network(); let mut h = hrp(n).to_string(); let mut m = M;
    match mode { 0 => { let k = r.below(70); body.truncate(k) } 1 => { let k = r.below(40); body.extend(r.bytes(k)) } 2 => { let j = [0, 33][r.below(2)]; body[j] = [0, 1, 4, 5, 6, 7, 0xff][r.below(7)] } 3 => { let j = [1, 34][r.below(2)]; for x in &mut body[j..j + 32] { *x = 0xff } } 4 => { h = ["bc", "tb", "s", "spx", "xsp", "sprt1", "ts", "tspp", "rt"][r.below(9)].to_string() } 5 => { m = 1 } _ => {} }
    let mut d: Vec<u8> = vec![v]; d.extend(to5(&body, 0)); if mode == 6 { d.clear(); if r.coin() { d.push(v) } body.clear() }
    let mut t = bech(&h, &d, m);
    if mode == 7 { let mut x = t.into_bytes(); let j = r.below(x.len()); x[j] = CH[r.below(32)]; t = String::from_utf8(x).unwrap(); }
    if mode == 8 && r.coin() { t = String::from_utf8_lossy(&{ let k = r.below(150); r.bytes(k) }).into_owned() }
    rep.set(|| format!("code {t:?}"));
    let got = SilentPaymentCode::try_from(&t[..]);
    if mode == 7 || mode == 8 { if let Ok(p) = &got { rep.check(SilentPaymentCode::try_from(&p.to_string()[..]).is_ok(), || format!("{t:?} parsed as {p:?}")); } if mode == 8 { return } if bech(&h, &d, m) != t { rep.check(got.is_err(), || format!("corrupted code accepted {t:?}")); return } }
    if m != M || d.is_empty() || v == 31 { good = false }
    if !["sp", "tsp", "sprt"].contains(&&h[..]) { good = false }
    if v == 0 && body.len() != 66 || body.len() < 66 { good = false }
    if good { good = PublicKey::from_slice(&body[..33]).is_ok() && PublicKey::from_slice(&body[33..66]).is_ok() }
    rep.hit(if good { "accepted" } else { "rejected" });
    rep.check(got.is_ok() == good, || format!("{t:?} expected to be {} got {:?}", if good { "accepted" } else { "rejected" }, got));
    if let (true, Ok(p)) = (good, &got) { rep.check(p.scan.serialize()[..] == body[..33] && p.spend.serialize()[..] == body[33..66] && p.version() == v && p.network == match &h[..] { "sp" => Network::Bitcoin, "tsp" => Network::Testnet, _ => Network::Regtest }, || format!("{t:?} parsed as {p:?}")) }
}
fn c10(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let w = wallet(r); let m = r.m(); let want = label(&w.scan, m); let d = format!("scan_sk={} m={m}", hx(&w.scan.secret_bytes())); rep.set(|| d.clone());
    let l = SilentPaymentCode::get_label(w.scan, m); rep.check(l == want && hashes::get_label_tweak(w.scan, m) == want, || format!("label tweak {d}"));
    let n = r.network(); let c = SilentPaymentCode::new_v0(w.scan.public_key(&secp()), w.spend_pk, n); let lc = c.add_label(l).unwrap();
    rep.check(lc.scan == c.scan && lc.network == n && lc.version() == 0 && lc.spend == w.spend_pk.combine(&mulg(&want)).unwrap(), || format!("labelled code {d}"));
    let v = r.below(31) as u8; let mut dd = vec![v]; dd.extend(to5(&[c.scan.serialize(), c.spend.serialize()].concat(), 0));
    if let Ok(p) = SilentPaymentCode::try_from(&bech(hrp(n), &dd, M)[..]) { let q = p.add_label(l).unwrap(); rep.check(q.version() == p.version() && q.scan == p.scan && q.network == p.network && q.spend == lc.spend, || format!("labelled code of version {v}: {q:?} {d}")) }
    // v1 and v2 registries and what scanning finds with them
    let mut ix = indexer::SpIndexes::default(); let mut ms: Vec<u32> = vec![m]; for _ in 0..r.below(3) { ms.push(r.m()) }
    let mut v2 = indexer::v2::SpIndexerV2::<indexer::bdk_chain::ConfirmationBlockTime>::new(w.scan, w.spend_pk);
    for x in &ms { let a = ix.add_label(c.clone(), w.scan, *x).unwrap(); let t = label(&w.scan, *x); let want = w.spend_pk.combine(&mulg(&t)).unwrap();
        rep.check(a.spend == want && a.scan == c.scan && a.network == n, || format!("v1 labelled code {d}"));
        let cs = if r.coin() { let _a = v2.get_labeled_address(*x, n); None } else { Some(v2.add_label(*x)) };
        if let Some(cs) = cs { rep.check(cs.label_lookup.iter().any(|q| q.num == *x && q.tweak == t && q.point == mulg(&t)), || format!("v2 label changeset {d}")) }
        let b = v2.get_labeled_address(*x, n); rep.check(b == a, || format!("v2 labelled code {d} {x}")); }
    for x in &ms { let t = label(&w.scan, *x); rep.check(ix.get_label(*x) == Some(t) && ix.label_to_tweak.get(&mulg(&t)) == Some(&(t, *x)) && v2.index().get_label(*x) == Some(t) && v2.index().label_lookup.get(&mulg(&t)) == Some(&(t, *x)), || format!("registered label {x} {d}"));
        let w2 = Wallet { labels: ix.label_to_tweak.clone(), ms: ms.clone(), ..wallet_copy(&w) }; let ss = r.pk(); let o = TxOut { value: Amount::from_sat(5), script_pubkey: p2tr_p(&point(&w2, &ss, 0, Some(*x))) }; let (tx, _) = mktx(&[], vec![o]);
        let f = scan_txouts(w2.spend_pk, &w2.labels, &tx, ss).unwrap(); rep.check(f.len() == 1 && f[0].label == Some(*x) && sound(&w2, &tx, &f).is_ok(), || format!("payment to label {x} not found {d}")); }
    let un = loop { let u = r.u32(); if !ms.contains(&u) { break u } }; rep.check(ix.get_label(un).is_none() && v2.index().get_label(un).is_none(), || format!("unregistered label {un} {d}"));
    rep.check(v2.get_address(n) == c, || format!("unlabelled address {d}"));
}
pub fn wallet_copy(w: &Wallet) -> Wallet { Wallet { scan: w.scan, spend: w.spend, spend_pk: w.spend_pk, labels: w.labels.clone(), ms: w.ms.clone() } }
fn c11(r: &mut Rng, i: usize, rep: &mut Rep) {
    use bitcoin::hashes::Hash;
    let (a, mut b, n) = (r.pk(), r.pk(), r.network()); match i % 7 { 0 => { b = a; rep.hit("same keys") } 1 => { b = a.negate(&secp()); rep.hit("negated") } _ => {} } let c = SilentPaymentCode::new_v0(a, b, n); let s = c.get_placeholder_p2tr_spk(); rep.set(|| c.to_string());
    let t = sc(bitcoin::hashes::sha256::Hash::hash(&b.serialize()).to_byte_array()); let want = p2tr_p(&a.combine(&mulg(&t)).unwrap());
    rep.check(s == want, || format!("placeholder of {c} is {}", hx(s.as_bytes())));
    rep.check(SilentPaymentCode::new_v0(a, b, r.network()).get_placeholder_p2tr_spk() == s && (a == b || SilentPaymentCode::new_v0(b, a, n).get_placeholder_p2tr_spk() != s) && c.add_label(r.scalar()).unwrap().get_placeholder_p2tr_spk() != s, || format!("placeholder of {c} not characteristic"));
}
fn c26(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let (s, p, m) = (r.sk(), r.pk(), r.m()); let mut o = [0u8; 36]; o.copy_from_slice(&r.bytes(36)); rep.set(|| format!("sk={} pk={p} m={m}", hx(&s.secret_bytes())));
    rep.check(hashes::get_label_tweak(s, m) == label(&s, m), || format!("label hash sk={} m={m}", hx(&s.secret_bytes())));
    rep.check(hashes::get_input_hash(&o, &p) == input_hash(&o, &p), || format!("input hash outpoint={} pk={p}", hx(&o)));
    rep.check(hashes::get_shared_secret(p, m) == t_k(&p, m), || format!("output hash pk={p} k={m}"));
}
// ---------------------------------------------------------------- dleq
fn chal(a: &PublicKey, b: &PublicKey, c: &PublicKey, gg: &PublicKey, r1: &PublicKey, r2: &PublicKey, m: Option<&[u8; 32]>) -> [u8; 32] { tagged("BIP0374/challenge", &[&a.serialize(), &b.serialize(), &c.serialize(), &gg.serialize(), &r1.serialize(), &r2.serialize(), m.map(|x| &x[..]).unwrap_or(&[])]) }
fn dverify(a: &PublicKey, b: &PublicKey, c: &PublicKey, p: &[u8; 64], gg: &PublicKey, m: Option<&[u8; 32]>) -> Option<bool> {
    let (mut e, mut s) = ([0u8; 32], [0u8; 32]); e.copy_from_slice(&p[..32]); s.copy_from_slice(&p[32..]); let (es, ss) = (Scalar::from_be_bytes(e).ok()?, Scalar::from_be_bytes(s).ok()?); let q = secp();
    let r1 = gg.mul_tweak(&q, &ss).ok()?.combine(&a.mul_tweak(&q, &es).ok()?.negate(&q)).ok()?; let r2 = b.mul_tweak(&q, &ss).ok()?.combine(&c.mul_tweak(&q, &es).ok()?.negate(&q)).ok()?;
    Some(chal(a, b, c, gg, &r1, &r2, m) == e)
}
fn dprove(a: &SecretKey, b: &PublicKey, k: &SecretKey, gg: &PublicKey, m: Option<&[u8; 32]>) -> [u8; 64] {
    let x = Scalar::from(*a); let (aa, c) = (pmul(gg, &x), pmul(b, &x)); let kk = Scalar::from(*k); let e = chal(&aa, b, &c, gg, &pmul(gg, &kk), &pmul(b, &kk), m); let s = k.add_tweak(&Scalar::from(a.mul_tweak(&sc(e)).unwrap())).unwrap();
    let mut p = [0u8; 64]; p[..32].copy_from_slice(&e); p[32..].copy_from_slice(&s.secret_bytes()); p
}
fn gen(r: &mut Rng) -> PublicKey { if r.coin() { g() } else { r.pk() } }
fn c17(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let (a, b, gg, k) = (r.sk(), r.pk(), gen(r), r.sk()); let mm = r.e32(); let m = if r.coin() { Some(&mm) } else { None }; let x = Scalar::from(a); let (mut aa, mut bb, mut c, mut g2) = (pmul(&gg, &x), b, pmul(&b, &x), gg); let mut p = dprove(&a, &b, &k, &gg, m); let mut m2 = m; let o = r.b32();
    let mode = r.below(14);
    match mode { 0 | 1 => {} 2 => aa = r.pk(), 3 => bb = r.pk(), 4 => c = r.pk(), 5 => g2 = r.pk(), 6 => m2 = match m { Some(_) => if r.coin() { None } else { Some(&o) }, None => Some(&o) }, 7 => { let j = r.below(64); p[j] ^= 1 << r.below(8) } 8 => c = c.negate(&secp()), 9 => { aa = aa.negate(&secp()); c = c.negate(&secp()) } 10 => { for z in &mut p[..32] { *z = 0xff } } 11 => { for z in &mut p[32..] { *z = 0xff } }
        12 => { let s = SecretKey::from_slice(&p[32..]).unwrap().negate(); p[32..].copy_from_slice(&s.secret_bytes()) }
        _ => { // a proof of a false statement: same nonce, unequal logarithms
            let y = r.sk(); c = pmul(&b, &Scalar::from(y)); let kk = Scalar::from(k); let e = chal(&aa, &b, &c, &gg, &pmul(&gg, &kk), &pmul(&b, &kk), m); let w = if r.coin() { a } else { y }; let s = k.add_tweak(&Scalar::from(w.mul_tweak(&sc(e)).unwrap())).unwrap(); p[..32].copy_from_slice(&e); p[32..].copy_from_slice(&s.secret_bytes()) } }
    let d = format!("A={aa} B={bb} C={c} G={g2} m={:?} proof={}", m2.map(|x| hx(x)), hx(&p)); rep.set(|| d.clone());
    let want = dverify(&aa, &bb, &c, &p, &g2, m2); let got = dleq::dleq_verify_proof(aa, bb, c, &p, g2, m2).ok(); rep.hit(format!("{:?}", want));
    rep.check(got.unwrap_or(false) == want.unwrap_or(false), || format!("verification of {d}: expected {want:?} got {got:?}"));
    if mode < 2 { rep.check(got == Some(true), || format!("honest proof rejected: {d}")) } else { rep.check(got != Some(true), || format!("accepted: {d}")) }
}
fn c18(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let (a, b, gg, aux) = (r.sk(), r.pk(), gen(r), r.e32()); let mm = r.e32(); let m = if r.coin() { Some(&mm) } else { None }; let d = format!("a={} B={b} r={} G={gg} m={:?}", hx(&a.secret_bytes()), hx(&aux), m.map(|x| hx(x))); rep.set(|| d.clone());
    let x = Scalar::from(a); let (aa, c) = (pmul(&gg, &x), pmul(&b, &x));
    match dleq::dleq_generate_proof(a, b, &aux, gg, m) { Err(e) => rep.check(false, || format!("no proof {e:?}: {d}")), Ok(p) => {
        rep.check(dverify(&aa, &b, &c, &p, &gg, m) == Some(true), || format!("invalid proof {}: {d}", hx(&p)));
        let ah = tagged("BIP0374/aux", &[&aux]); let ab = a.secret_bytes(); let t: Vec<u8> = (0..32).map(|i| ab[i] ^ ah[i]).collect(); let mb: &[u8] = m.map(|x| &x[..]).unwrap_or(&[]);
        let k = SecretKey::from_slice(&tagged("BIP0374/nonce", &[&t, &aa.serialize(), &c.serialize(), mb])).unwrap(); let want = dprove(&a, &b, &k, &gg, m);
        rep.check(p == want, || format!("proof {} expected {}: {d}", hx(&p), hx(&want)));
        let mut a2 = aux; a2[r.below(32)] ^= 1; let q = dleq::dleq_generate_proof(a, b, &a2, gg, m).unwrap(); rep.check(q != p, || format!("auxiliary randomness ignored: {d}")); } }
    let _ = Parity::Even;
    let _ = get_silentpayment_script_pubkey;
}
