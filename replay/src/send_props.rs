//! Sending: partial secrets, outputs, PSBTs, senders.
use crate::core_props::*;
use crate::util::*;
use crate::{Rep, F};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{compute_tweak_data, scan::Scanner, SpOut};
use bdk_sp::send::psbt::{derive_sp, sign::{add_sp_data_to_input, sign_sp}};
use bdk_sp::send::{bip32::XprivSilentPaymentSender, bip352::SpSender, create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource, Xpriv};
use bitcoin::hashes::Hash as _;
use bitcoin::psbt::{GetKey, KeyRequest};
use bitcoin::secp256k1::{Parity, PublicKey, Scalar, Secp256k1, SecretKey, Signing};
use bitcoin::*;
use std::collections::{BTreeMap, HashMap};

pub fn table() -> Vec<(&'static str, F, usize)> {
    vec![("C05", c05, 250), ("C06", c06, 300), ("C12", c12, 300), ("C13", c13, 400), ("C14", c14, 300), ("C15", c15, 150), ("C16", c16, 200)]
}
type Pay = HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>;
/// the secret an output script contributes
fn contrib(spk: &Script, sk: &SecretKey) -> Option<SecretKey> { let s = spk.as_bytes(); if is_p2tr(s) { Some(even(*sk)) } else if is_pkh(s) || is_sh(s) || is_wpkh(s) { Some(*sk) } else { None } }
pub fn partial(o: &[u8; 36], v: &[(ScriptBuf, SecretKey)]) -> Option<SecretKey> {
    let ks: Vec<SecretKey> = v.iter().filter_map(|(s, k)| contrib(s, k)).collect(); let a = ssum(&ks)?;
    Some(a.mul_tweak(&input_hash(o, &a.public_key(&secp()))).unwrap())
}
pub fn pays(ps: &SecretKey, outs: &[SilentPaymentCode]) -> Pay {
    let mut n: BTreeMap<PublicKey, u32> = BTreeMap::new(); let mut r = Pay::new();
    for c in outs { let k = n.entry(c.scan).or_insert(0); let ss = pmul(&c.scan, &Scalar::from(*ps)); let p = c.spend.combine(&mulg(&Scalar::from(t_k(&ss, *k)))).unwrap(); *k += 1; r.entry(c.clone()).or_default().push(p.x_only_public_key().0) }
    r
}
pub fn recipients(r: &mut Rng, n: usize) -> Vec<(Wallet, SilentPaymentCode, Option<u32>)> {
    let net = r.network(); let mut ws: Vec<Wallet> = vec![]; let mut v: Vec<(Wallet, SilentPaymentCode, Option<u32>)> = vec![];
    for _ in 0..n {
        let w = match r.below(6) { 3 if !ws.is_empty() => { let mut w = wallet(r); w.scan = r.pick(&ws).scan.negate(); relabel(w) } 4 if !ws.is_empty() => { let mut w = wallet(r); let o = wallet_copy(r.pick(&ws)); w.spend = if r.coin() { o.spend.negate() } else { o.spend }; w.spend_pk = w.spend.public_key(&secp()); if r.coin() { w.scan = o.scan } relabel(w) } 5 if !ws.is_empty() => { let mut w = wallet(r); let o = wallet_copy(r.pick(&ws)); w.scan = o.spend; w.spend = o.scan; w.spend_pk = w.spend.public_key(&secp()); relabel(w) } 0 if !ws.is_empty() => wallet_copy(r.pick(&ws)), 1 if !ws.is_empty() => { let mut w = wallet(r); let o = r.pick(&ws); w.scan = o.scan; w.labels = o.labels.clone(); w.ms = o.ms.clone(); w } _ => wallet(r) };
        let l = if w.ms.is_empty() || r.coin() { None } else { Some(*r.pick(&w.ms)) }; let c = SilentPaymentCode::new_v0(w.scan.public_key(&secp()), w.spend_pk, net);
        let c = match l { Some(m) => c.add_label(label(&w.scan, m)).unwrap(), None => c }; ws.push(wallet_copy(&w)); v.push((w, c, l));
    }
    v
}
fn keys(v: &[(ScriptBuf, SecretKey)]) -> String { v.iter().map(|(s, k)| format!("({},{})", hx(s.as_bytes()), hx(&k.secret_bytes()))).collect::<Vec<_>>().join(" ") }
fn spk_for(r: &mut Rng, k: usize, sk: &SecretKey) -> ScriptBuf {
    // a witness program of any version and length, and scripts one byte off
    if r.below(8) == 0 { let n = [2, 20, 31, 32, 33, 40][r.below(6)]; let mut v = vec![[0u8, 0x51, 0x51, 0x52, 0x60, 0x50][r.below(6)], n as u8]; v.extend(r.bytes(n)); return ScriptBuf::from_bytes(v) }
    if r.below(12) == 0 { let mut v = input_with(r, k, *sk).spk.to_bytes(); if !v.is_empty() { let j = r.below(v.len().min(3)); v[j] ^= 1 << r.below(8) } return ScriptBuf::from_bytes(v) }
    input_with(r, k, *sk).spk }
fn c05(r: &mut Rng, i: usize, rep: &mut Rep) {
    // the sum itself
    let n = if i < 4 { i } else { 1 + r.below(6) }; let mut v: Vec<(ScriptBuf, SecretKey)> = vec![];
    for _ in 0..n { let k = if r.below(4) == 0 { r.below(NKINDS) } else { r.below(7) };
        let sk = match r.below(6) { 0 if !v.is_empty() => v[r.below(v.len())].1.negate(), 1 if !v.is_empty() => v[r.below(v.len())].1, 2 if v.len() > 1 => ssum(&v.iter().filter_map(|(s, k)| contrib(s, k)).collect::<Vec<_>>()).map(|x| x.negate()).unwrap_or(r.sk()), _ => r.sk() };
        let s = spk_for(r, k, &sk); v.push((s, sk)) }
    let o = ser_op(&r.outpoint()); rep.set(|| format!("outpoint={} keys={}", hx(&o), keys(&v)));
    let (want, got) = (partial(&o, &v), create_silentpayment_partial_secret(&o, &v).ok()); rep.hit(if want.is_some() { "some" } else { "none" });
    rep.check(want == got, || format!("partial secret expected {:?} got {:?}: outpoint={} keys={}", want.map(|x| hx(&x.secret_bytes())), got.map(|x| hx(&x.secret_bytes())), hx(&o), keys(&v)));
    // both sides of a real transaction
    let n = 1 + r.below(4); let ins: Vec<In> = (0..n).map(|_| { let k = if r.below(4) == 0 { 7 + r.below(4) } else { r.below(7) }; input(r, k) }).collect();
    let m = 1 + r.below(4); let rs = recipients(r, m); let codes: Vec<SilentPaymentCode> = rs.iter().map(|x| x.1.clone()).collect();
    // the sender only knows the inputs it can use
    let own: Vec<(ScriptBuf, SecretKey)> = ins.iter().filter(|x| x.sk.is_some()).map(|x| (x.spk.clone(), x.key)).collect();
    let o = min_op(ins.iter().map(|x| &x.txin.previous_output)).unwrap();
    let d = || format!("kinds={:?} outpoint={} keys={}", ins.iter().map(|x| x.kind).collect::<Vec<_>>(), hx(&o), keys(&own)); rep.set(d);
    let Ok(ps) = create_silentpayment_partial_secret(&o, &own) else { rep.check(own.is_empty(), || format!("no partial secret: {}", d())); return };
    let mut outs: Vec<TxOut> = create_silentpayment_scriptpubkeys(ps, &codes).values().flatten().map(|x| TxOut { value: Amount::from_sat(7), script_pubkey: p2tr_x(x) }).collect();
    rep.check(outs.len() == codes.len(), || format!("{} outputs for {} payments: {}", outs.len(), codes.len(), d())); r.shuffle(&mut outs);
    let (tx, pvs) = mktx(&ins, outs);
    let td = compute_tweak_data(&tx, &pvs).ok(); rep.check(td == Some(ps.public_key(&secp())), || format!("tweak data {:?} is not the public side of the partial secret: prevouts={} tx={} {}", td, pv(&pvs), txhex(&tx), d()));
    let mut per: BTreeMap<([u8; 32], [u8; 33]), (Wallet, usize)> = BTreeMap::new(); for (w, c, l) in &rs { let key = (w.scan.secret_bytes(), w.spend_pk.serialize()); let e = per.entry(key).or_insert((wallet_copy(w), 0)); e.1 += 1; e.0.labels.extend(w.labels.clone()); e.0.ms.extend(w.ms.iter()); let _ = (c, l); }
    let single_scan = { let mut s: Vec<_> = per.values().map(|x| x.0.scan.secret_bytes()).collect(); s.sort(); let n = s.len(); s.dedup(); s.len() == n };
    if single_scan { for (w, n) in per.values() { let f = Scanner::new(w.scan, w.spend_pk, w.labels.clone()).scan_tx(&tx, &pvs).unwrap(); rep.hit("end-to-end");
        rep.check(f.len() == *n && sound(w, &tx, &f).is_ok(), || format!("recipient found {} of {} payments: scan={} spend={} tx={} {}", f.len(), n, hx(&w.scan.secret_bytes()), hx(&w.spend.secret_bytes()), txhex(&tx), d())) } }
}
fn c06(r: &mut Rng, i: usize, rep: &mut Rep) {
    let n = if i < 3 { i } else { 1 + r.below(8) }; let rs = recipients(r, n); let codes: Vec<SilentPaymentCode> = rs.iter().map(|x| x.1.clone()).collect(); let ps = r.sk();
    let d = || format!("partial={} codes={:?}", hx(&ps.secret_bytes()), codes.iter().map(|c| c.to_string()).collect::<Vec<_>>()); rep.set(d);
    let (want, got) = (pays(&ps, &codes), create_silentpayment_scriptpubkeys(ps, &codes)); if want.len() < codes.len() { rep.hit("repeated") }
    rep.check(want == got, || format!("outputs expected {:?} got {:?}: {}", want.values().collect::<Vec<_>>(), got.values().collect::<Vec<_>>(), d()));
    let mut all: Vec<_> = got.values().flatten().map(|x| x.serialize()).collect(); let n = all.len(); all.sort(); all.dedup(); rep.check(n == codes.len() && all.len() == n, || format!("{} distinct outputs for {} payments: {}", all.len(), codes.len(), d()));
}
// ------------------------------------------------------------------ psbt
#[derive(Default)]
pub struct Keys { pub path: BTreeMap<DerivationPath, SecretKey>, pub x: BTreeMap<XOnlyPublicKey, SecretKey>, pub p: BTreeMap<PublicKey, SecretKey>, pub fail: Vec<DerivationPath> }
impl GetKey for Keys {
    type Error = String;
    fn get_key<C: Signing>(&self, q: KeyRequest, _: &Secp256k1<C>) -> Result<Option<PrivateKey>, String> {
        let k = match q { KeyRequest::Bip32((_, p)) => { if self.fail.contains(&p) { return Err("no".into()) } self.path.get(&p) } KeyRequest::XOnlyPubkey(x) => self.x.get(&x), KeyRequest::Pubkey(p) => self.p.get(&p.inner), _ => None };
        Ok(k.map(|k| PrivateKey::new(*k, Network::Regtest)))
    }
}
fn src(n: u32) -> KeySource { (Fingerprint::from([1, 2, 3, 4]), DerivationPath::from(vec![ChildNumber::from_normal_idx(n).unwrap()])) }
pub fn taptweak(internal: &SecretKey, root: Option<bitcoin::TapNodeHash>) -> SecretKey {
    let k = even(*internal); let x = k.x_only_public_key(&secp()).0.serialize(); let rt = root.map(|h| h.to_byte_array().to_vec()).unwrap_or_default();
    k.add_tweak(&sc(tagged("TapTweak", &[&x, &rt]))).unwrap()
}
/// adds an input to the psbt; returns the secret it contributes when eligible
pub struct PIn { pub input: In, pub psbt: psbt::Input, pub sp: Option<(SecretKey, Scalar)> }
pub fn pinput(r: &mut Rng, idx: u32, kind: usize, keys: &mut Keys, give: usize) -> PIn {
    let mut p = psbt::Input::default();
    if kind == 20 { // a silent payment output
        let (sp, t) = (r.sk(), r.scalar()); let sk = sp.add_tweak(&t).unwrap(); let i = input_with(r, 0, sk); p.witness_utxo = Some(TxOut { value: r.sats(), script_pubkey: i.spk.clone() });
        if give > 0 { keys.p.insert(sp.public_key(&secp()), sp); } if r.coin() { p.final_script_witness = Some(i.txin.witness.clone()) }
        return PIn { input: i, psbt: p, sp: Some((sp, t)) };
    }
    let internal = r.sk(); let root = if r.coin() { Some(bitcoin::TapNodeHash::from_byte_array(r.b32())) } else { None };
    let tr = matches!(kind, 0 | 1 | 6 | 7 | 12); let sk = if tr { taptweak(&internal, root) } else { internal }; let i = input_with(r, kind, sk); let ik = internal.public_key(&secp());
    if tr { p.tap_merkle_root = root; p.tap_key_origins.insert(ik.x_only_public_key().0, (vec![], src(idx))); p.tap_internal_key = Some(ik.x_only_public_key().0) } else { p.bip32_derivation.insert(ik, src(idx)); }
    // derivations of other signers come before or after ours
    for j in 0..r.below(3) as u32 { let o = r.pk(); if tr { p.tap_key_origins.insert(o.x_only_public_key().0, (vec![], src(1000 + idx * 10 + j))); } else { p.bip32_derivation.insert(o, src(1000 + idx * 10 + j)); } }
    match give { 1 => { keys.path.insert(src(idx).1, internal); } 2 => { if tr { keys.x.insert(ik.x_only_public_key().0, internal); } else { keys.p.insert(ik, internal); } } 3 => { keys.fail.push(src(idx).1); if tr { keys.x.insert(ik.x_only_public_key().0, internal); } else { keys.p.insert(ik, internal); } } 4 => { let w = r.sk(); keys.path.insert(src(idx).1, w); } _ => {} }
    if !i.txin.witness.is_empty() { p.final_script_witness = Some(i.txin.witness.clone()) } if !i.txin.script_sig.is_empty() { p.final_script_sig = Some(i.txin.script_sig.clone()) }
    if p.final_script_sig.is_none() && p.final_script_witness.is_none() { p.final_script_witness = Some(Witness::new()) }
    let out = TxOut { value: r.sats(), script_pubkey: i.spk.clone() };
    if matches!(kind, 4 | 5 | 10 | 11 | 13) { let mut o = vec![TxOut { value: Amount::from_sat(1), script_pubkey: p2tr_p(&r.pk()) }; 3]; let v = r.below(3); o[v] = out; let t = Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input: vec![], output: o }; let mut i = i; i.txin.previous_output = OutPoint { txid: t.compute_txid(), vout: v as u32 }; p.non_witness_utxo = Some(t); return PIn { input: i, psbt: p, sp: None } }
    p.witness_utxo = Some(out);
    PIn { input: i, psbt: p, sp: None }
}
pub fn mkpsbt(ins: &[PIn], outs: Vec<TxOut>) -> Psbt {
    let tx = Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input: ins.iter().map(|i| TxIn { script_sig: ScriptBuf::new(), witness: Witness::new(), ..i.input.txin.clone() }).collect(), output: outs };
    let mut p = Psbt::from_unsigned_tx(tx).unwrap();
    for (j, i) in ins.iter().enumerate() { p.inputs[j] = i.psbt.clone(); if let Some((sp, t)) = &i.sp { add_sp_data_to_input(&mut p, j, sp.public_key(&secp()), *t) } }
    p
}
pub fn phex(p: &Psbt) -> String { hx(&p.serialize()) }
fn spk_of(i: &PIn) -> ScriptBuf { i.input.spk.clone() }
/// what the inputs contribute when the key provider knows everything
fn reference(ins: &[PIn]) -> Option<SecretKey> {
    let v: Vec<(ScriptBuf, SecretKey)> = ins.iter().filter(|i| i.sp.is_some() || i.input.sk.is_some()).map(|i| (spk_of(i), i.input.key)).collect(); partial(&min_op(ins.iter().map(|i| &i.input.txin.previous_output))?, &v)
}
fn c12(r: &mut Rng, i: usize, rep: &mut Rep) {
    let mut ks = Keys::default(); let n = 1 + r.below(2); let ins: Vec<PIn> = (0..n).map(|j| { let k = r.below(6); pinput(r, j as u32, k, &mut ks, 1) }).collect();
    let m = 1 + r.below(4); let rs = recipients(r, m); let codes: Vec<SilentPaymentCode> = rs.iter().map(|x| x.1.clone()).collect();
    let mut outs: Vec<TxOut> = codes.iter().map(|c| TxOut { value: r.sats(), script_pubkey: c.get_placeholder_p2tr_spk() }).collect();
    for _ in 0..r.below(4) { let s = match r.below(4) { 0 => p2tr_p(&r.pk()), 1 => ScriptBuf::from_bytes(vec![0x6a]), 2 => { let mut v = vec![0u8, 0x14]; v.extend(r.bytes(20)); ScriptBuf::from_bytes(v) } _ => { let c = SilentPaymentCode::new_v0(r.pk(), r.pk(), Network::Regtest); c.get_placeholder_p2tr_spk() } }; outs.push(TxOut { value: r.sats(), script_pubkey: s }) }
    let mode = if i % 3 == 0 { 1 + r.below(3) } else { 0 }; let mut list = codes.clone();
    match mode { 1 => { list.push(r.pick(&codes).clone()) } 2 => { let o = outs[r.below(codes.len())].clone(); outs.push(o) } 3 => { let c = r.pick(&codes).clone(); outs.retain(|o| o.script_pubkey != c.get_placeholder_p2tr_spk()) } _ => {} }
    r.shuffle(&mut outs); let p0 = mkpsbt(&ins, outs); let mut p = p0.clone();
    let d = || format!("codes={:?} psbt={}", list.iter().map(|c| c.to_string()).collect::<Vec<_>>(), phex(&p0)); rep.set(d);
    let Some(ps) = reference(&ins) else { return }; let want = pays(&ps, &list);
    let res = derive_sp(&mut p, &ks, &list, &secp());
    let count = |s: &ScriptBuf| p0.unsigned_tx.output.iter().filter(|o| o.script_pubkey == *s).count();
    let bad = want.iter().any(|(c, v)| { let k = count(&c.get_placeholder_p2tr_spk()); k != 0 && k != v.len() });
    rep.hit(if bad { "mismatch" } else { "matched" });
    if bad { rep.check(res.is_err(), || format!("placeholder count mismatch accepted: {}", d())); rep.check(p == p0, || format!("psbt changed by a failed update: {}", d())); return }
    rep.check(res.is_ok(), || format!("{:?}: {}", res, d()));
    let mut e = p0.clone(); for (c, v) in &want { let ph = c.get_placeholder_p2tr_spk(); let mut it = v.iter(); for o in e.unsigned_tx.output.iter_mut() { if o.script_pubkey == ph { if let Some(x) = it.next() { o.script_pubkey = p2tr_x(x) } } } }
    rep.check(e == p, || format!("outputs expected {:?} got {:?}: {}", e.unsigned_tx.output, p.unsigned_tx.output, d()));
}
fn c13(r: &mut Rng, i: usize, rep: &mut Rep) {
    let mut ks = Keys::default(); let n = 1 + r.below(4); let mut bad = false; let mode = r.below(8); let victim = r.below(n);
    let mut ins: Vec<PIn> = (0..n).map(|j| {
        let kind = match r.below(9) { 0..=5 => r.below(7), 6 => 20, _ => [7, 8, 9, 10, 12][r.below(5)] }; let mut give = 1 + r.below(3);
        let elig = kind < 7 || kind == 20; if mode == 1 && j == victim && elig && kind != 20 { give = 0; bad = true } if mode == 2 && j == victim && elig && kind != 20 { give = 4; bad = true }
        pinput(r, j as u32, kind, &mut ks, give) }).collect();
    if i < 14 { ins.truncate(1); ks = Keys::default(); ins[0] = pinput(r, 0, i % 7, &mut ks, 1 + i / 7); bad = false }
    if mode == 3 && ins.len() > victim && ins[victim].sp.is_none() { ins[victim].psbt.final_script_sig = None; ins[victim].psbt.final_script_witness = None; bad = true }
    if mode == 4 && ins.len() > victim && ins[victim].sp.is_none() { ins[victim].psbt.witness_utxo = None; ins[victim].psbt.non_witness_utxo = None; bad = true }
    let rs = recipients(r, 1); let codes: Vec<SilentPaymentCode> = rs.iter().map(|x| x.1.clone()).collect(); let outs: Vec<TxOut> = codes.iter().map(|c| TxOut { value: Amount::from_sat(5), script_pubkey: c.get_placeholder_p2tr_spk() }).collect();
    let p0 = mkpsbt(&ins, outs); let mut p = p0.clone(); let d = || format!("kinds={:?} mode={mode} codes={:?} psbt={}", ins.iter().map(|x| if x.sp.is_some() { 20 } else { x.input.kind }).collect::<Vec<_>>(), codes.iter().map(|c| c.to_string()).collect::<Vec<_>>(), phex(&p0)); rep.set(d);
    let res = derive_sp(&mut p, &ks, &codes, &secp()); let want = reference(&ins);
    match (bad, &want) {
        (false, Some(ps)) => { rep.check(res.is_ok(), || format!("{:?}: {}", res, d())); let x = pays(ps, &codes); let s = p2tr_x(&x[&codes[0]][0]); rep.hit("derived"); rep.check(p.unsigned_tx.output[0].script_pubkey == s, || format!("output {} expected {}: {}", hx(p.unsigned_tx.output[0].script_pubkey.as_bytes()), hx(s.as_bytes()), d())) }
        _ => { rep.hit("refused"); rep.check(res.is_err(), || format!("expected a failure: {}", d())); rep.check(p == p0, || format!("psbt changed by a failed derivation: {}", d())) }
    }
}
fn c14(r: &mut Rng, _i: usize, rep: &mut Rep) {
    use bitcoin::sighash::{Prevouts, SighashCache};
    let mut ks = Keys::default(); let n = 1 + r.below(4); let mut ins: Vec<PIn> = vec![]; let mut expect = vec![]; let mut extra: Vec<(usize, psbt::raw::ProprietaryKey, Vec<u8>)> = vec![]; let mut allutxo = true;
    for j in 0..n {
        let sp = r.below(4) != 0; let kind = if sp { 20 } else { [0, 2, 3, 7, 8][r.below(5)] }; let give = (r.below(6) != 0) as usize; let mut p = pinput(r, j as u32, kind, &mut ks, give); let mut e = sp && give == 1;
        p.psbt.final_script_witness = None;
        if sp { match r.below(12) { 0 => { p.sp = Some((p.sp.unwrap().0, r.scalar())); e = false } 1 => { p.psbt.tap_key_sig = Some(taproot::Signature { signature: bitcoin::secp256k1::schnorr::Signature::from_slice(&[7; 64]).unwrap(), sighash_type: TapSighashType::All }); e = false } 2 => { p.psbt.witness_utxo.as_mut().unwrap().script_pubkey = ScriptBuf::from_bytes([vec![0u8, 0x20], r.bytes(32)].concat()); e = false } 3 => { p.psbt.witness_utxo.as_mut().unwrap().script_pubkey = ScriptBuf::from_bytes(vec![0x51]); e = false } 4 => { p.psbt.witness_utxo.as_mut().unwrap().script_pubkey = p2tr_p(&r.pk()); e = false } _ => {} } }
        if r.below(12) == 0 { p.psbt.witness_utxo = None; allutxo = false; e = false }
        let key = |s: u8, k: Vec<u8>, pre: &[u8]| psbt::raw::ProprietaryKey { prefix: pre.to_vec(), subtype: s, key: k };
        match r.below(8) { 0 => { let a = r.below(40); let b = r.below(40); let x = r.bytes(a); let y = r.bytes(b); extra.push((j, key(1, x, b"bip352"), y)) } 1 => { let x = r.pk().serialize().to_vec(); let y = r.b32().to_vec(); extra.push((j, key(1, x, b"bip352"), y)) } 2 => { let x = r.pk().serialize().to_vec(); extra.push((j, key(1, x, b"bip352"), vec![0xff; 32])) } 3 => { let k = r.sk(); ks.p.insert(k.public_key(&secp()), k); extra.push((j, key(1, k.public_key(&secp()).serialize().to_vec(), b"bip352"), r.scalar().to_be_bytes().to_vec())) } 4 if e => { let (s, t) = p.sp.unwrap(); let pb = s.public_key(&secp()).serialize().to_vec(); p.sp = None; e = false; extra.push((j, key(2, pb.clone(), b"bip352"), t.to_be_bytes().to_vec())); extra.push((j, key(1, pb, b"bip353"), t.to_be_bytes().to_vec())) } _ => {} }
        ins.push(p); expect.push(e);
    }
    let nout = r.below(3); let outs = (0..nout).map(|_| TxOut { value: r.sats(), script_pubkey: p2tr_p(&r.pk()) }).collect(); let mut p0 = mkpsbt(&ins, outs); for (j, k, v) in extra { p0.inputs[j].proprietary.insert(k, v); }
    let d = || format!("psbt={}", phex(&p0)); rep.set(d); let mut p = p0.clone(); sign_sp(&mut p, &ks, &secp());
    let mut e = p.clone(); for j in 0..n { e.inputs[j].tap_key_sig = p0.inputs[j].tap_key_sig } rep.check(e == p0, || format!("something else than the key path signatures changed: {}", d()));
    for j in 0..n {
        if let (true, true) = (expect[j], allutxo) {
            let pv: Vec<TxOut> = p0.inputs.iter().map(|x| x.witness_utxo.clone().unwrap()).collect(); let h = SighashCache::new(&p0.unsigned_tx).taproot_key_spend_signature_hash(j, &Prevouts::All(&pv), TapSighashType::Default).unwrap(); rep.hit("signed");
            let ok = p.inputs[j].tap_key_sig.map(|s| s.sighash_type == TapSighashType::Default && secp().verify_schnorr(&s.signature, &bitcoin::secp256k1::Message::from(h), &xonly_of(pv[j].script_pubkey.as_bytes()).unwrap()).is_ok());
            rep.check(ok == Some(true), || format!("input {j} signature {:?}: {}", ok, d()));
        } else { rep.check(p.inputs[j].tap_key_sig == p0.inputs[j].tap_key_sig, || format!("input {j} must not be signed: {}", d())) }
    }
}
fn c15(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let x = Xpriv::new_master(Network::Regtest, &r.b32()).unwrap(); let n = 1 + r.below(4); let mut v = vec![]; let mut ks = vec![]; let mut ins = vec![];
    for _ in 0..n { let depth = r.below(4); let path = DerivationPath::from((0..depth).map(|_| { let i = r.u32() >> 1; if r.coin() { ChildNumber::from_hardened_idx(i).unwrap() } else { ChildNumber::from_normal_idx(i).unwrap() } }).collect::<Vec<_>>());
        let k = x.derive_priv(&secp(), &path).unwrap().private_key; let kind = [0, 2, 3, 4, 0][r.below(5)]; let key = if kind == 0 { taptweak(&k, None) } else { k }; let i = input_with(r, kind, key); v.push((i.txin.previous_output, (i.spk.clone(), path))); ks.push((i.spk.clone(), key)); ins.push(i) }
    let m = 1 + r.below(3); let codes: Vec<SilentPaymentCode> = recipients(r, m).into_iter().map(|x| x.1).collect(); let d = || format!("xpriv={} inputs={:?} codes={:?}", x, v, codes.iter().map(|c| c.to_string()).collect::<Vec<_>>()); rep.set(d);
    let want = partial(&min_op(v.iter().map(|x| &x.0)).unwrap(), &ks).map(|p| pays(&p, &codes)); let got = XprivSilentPaymentSender::new(x).send_to(&v, &codes).ok(); rep.check(want == got, || format!("expected {:?} got {:?}: {}", want, got, d()));
    if let Some(g) = got { let (tx, pvs) = mktx(&ins, vec![]); if let Some(t) = tweak_data(&tx, &pvs) { let _ = t; rep.hit("sent"); } let e = XprivSilentPaymentSender::new(x).send_to(&[], &codes); rep.check(e.is_err() && !g.is_empty(), || format!("no inputs: {}", d())) }
}
fn c16(r: &mut Rng, _i: usize, rep: &mut Rep) {
    let spend = r.sk(); let n = 1 + r.below(4); let mut v: Vec<SpOut> = vec![]; let mut ks = vec![];
    for _ in 0..n { let t = r.sk(); let t = if r.below(6) == 0 && !v.is_empty() { v[0].tweak } else { t }; let sk = spend.add_tweak(&Scalar::from(t)).unwrap(); let spk = p2tr_x(&sk.x_only_public_key(&secp()).0); let l = if r.coin() { Some(r.m()) } else { None }; v.push(SpOut { outpoint: r.outpoint(), tweak: t, script_pubkey: spk.clone(), amount: r.sats(), label: l }); ks.push((spk, sk)) }
    let m = 1 + r.below(3); let codes: Vec<SilentPaymentCode> = recipients(r, m).into_iter().map(|x| x.1).collect(); let d = || format!("spend={} inputs={:?} codes={:?}", hx(&spend.secret_bytes()), v, codes.iter().map(|c| c.to_string()).collect::<Vec<_>>()); rep.set(d);
    let want = partial(&min_op(v.iter().map(|x| &x.outpoint)).unwrap(), &ks).map(|p| pays(&p, &codes)); let got = SpSender::new(spend).send_to(&v, &codes).ok(); rep.check(want == got, || format!("expected {:?} got {:?}: {}", want, got, d()));
    rep.check(SpSender::new(spend).send_to(&[], &codes).is_err(), || "no inputs accepted".into());
    let _ = Parity::Even;
}
