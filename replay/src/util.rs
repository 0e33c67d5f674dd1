//! Random inputs and the independent reference (BIP-352 / BIP-374 written from the documents).
use bitcoin::hashes::{hash160, sha256, Hash, HashEngine};
use bitcoin::secp256k1::{All, Parity, PublicKey, Scalar, Secp256k1, SecretKey, XOnlyPublicKey};
use bitcoin::*;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
    pub fn coin(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn b32(&mut self) -> [u8; 32] { let mut b = [0; 32]; for c in b.chunks_mut(8) { c.copy_from_slice(&self.next().to_be_bytes()) } b }
    /// 32 bytes, sometimes of a special shape
    pub fn e32(&mut self) -> [u8; 32] { let mut b = self.b32(); match self.below(8) { 0 => b = [0; 32], 1 => { b[0] = 0; b[31] = 0 } 2 => b[0] = 0, 3 => b = [0xff; 32], 4 => { let h = self.b32(); b[..16].copy_from_slice(&h[..16]); b[16..].copy_from_slice(&h[..16]) } _ => {} } b }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn sk(&mut self) -> SecretKey { loop { if let Ok(k) = SecretKey::from_slice(&self.b32()) { return k } } }
    pub fn pk(&mut self) -> PublicKey { self.sk().public_key(&secp()) }
    pub fn scalar(&mut self) -> Scalar { Scalar::from(self.sk()) }
    pub fn txid(&mut self) -> Txid { Txid::from_byte_array(self.b32()) }
    pub fn sats(&mut self) -> Amount { Amount::from_sat(if self.below(4) == 0 { [0, 1, 545, 546, 2_100_000_000_000_000][self.below(5)] } else { self.next() >> 20 }) }
    pub fn outpoint(&mut self) -> OutPoint { if let Some(h) = self.hint() { return OutPoint { txid: self.txid(), vout: h as u32 } } OutPoint { txid: self.txid(), vout: [0, 1, 255, 256, 65536, u32::MAX, self.u32()][self.below(7)] } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j) } }
    /// values of a verifier's counterexample to be tried on the real code
    pub fn hint(&mut self) -> Option<u64> { let h = hints(); if !h.is_empty() && self.coin() { Some(h[self.below(h.len())]) } else { None } }
    /// label numbers: the change label, small ones and large ones
    pub fn m(&mut self) -> u32 { if let Some(h) = self.hint() { return h as u32 } [0, 1, 2, 255, 256, 65535, 65536, u32::MAX, self.u32()][self.below(9)] }
    pub fn network(&mut self) -> Network { [Network::Bitcoin, Network::Testnet, Network::Testnet4, Network::Signet, Network::Regtest][self.below(5)] }
}
pub fn hints() -> &'static [u64] {
    static H: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    H.get_or_init(|| std::env::var("REPLAY_HINTS").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
pub fn secp() -> Secp256k1<All> { Secp256k1::new() }
pub fn g() -> PublicKey { one().public_key(&secp()) }
pub fn one() -> SecretKey { let mut b = [0; 32]; b[31] = 1; SecretKey::from_slice(&b).unwrap() }

pub fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256::Hash::hash(tag.as_bytes());
    let mut e = sha256::Hash::engine();
    e.input(&t[..]); e.input(&t[..]);
    for p in parts { e.input(p) }
    sha256::Hash::from_engine(e).to_byte_array()
}
pub fn sc(b: [u8; 32]) -> Scalar { Scalar::from_be_bytes(b).unwrap() }
pub fn mulg(s: &Scalar) -> PublicKey { g().mul_tweak(&secp(), s).unwrap() }
pub fn pmul(p: &PublicKey, s: &Scalar) -> PublicKey { p.mul_tweak(&secp(), s).unwrap() }
pub fn psum(ps: &[PublicKey]) -> Option<PublicKey> {
    let mut acc: Option<PublicKey> = None;
    for p in ps { acc = match acc { None => Some(*p), Some(a) => a.combine(p).ok() } }
    acc
}
pub fn ssum(ss: &[SecretKey]) -> Option<SecretKey> {
    let mut acc: Option<SecretKey> = None;
    for s in ss { acc = match acc { None => Some(*s), Some(a) => a.add_tweak(&Scalar::from(*s)).ok() } }
    acc
}
pub fn label(scan: &SecretKey, m: u32) -> Scalar { sc(tagged("BIP0352/Label", &[&scan.secret_bytes(), &m.to_be_bytes()])) }
pub fn input_hash(o: &[u8; 36], a: &PublicKey) -> Scalar { sc(tagged("BIP0352/Inputs", &[o, &a.serialize()])) }
pub fn t_k(s: &PublicKey, k: u32) -> SecretKey { SecretKey::from_slice(&tagged("BIP0352/SharedSecret", &[&s.serialize(), &k.to_be_bytes()])).unwrap() }
pub fn ser_op(o: &OutPoint) -> [u8; 36] { let mut r = [0; 36]; r[..32].copy_from_slice(&o.txid.to_byte_array()); r[32..].copy_from_slice(&o.vout.to_le_bytes()); r }
pub fn min_op<'a>(it: impl Iterator<Item = &'a OutPoint>) -> Option<[u8; 36]> { it.map(ser_op).min() }
pub fn p2tr_x(x: &XOnlyPublicKey) -> ScriptBuf { let mut v = vec![0x51, 0x20]; v.extend(x.serialize()); ScriptBuf::from_bytes(v) }
pub fn p2tr_p(p: &PublicKey) -> ScriptBuf { p2tr_x(&p.x_only_public_key().0) }
pub fn xonly_of(spk: &[u8]) -> Option<XOnlyPublicKey> { if spk.len() == 34 && spk[0] == 0x51 && spk[1] == 0x20 { XOnlyPublicKey::from_slice(&spk[2..]).ok() } else { None } }
pub fn is_p2tr(s: &[u8]) -> bool { s.len() == 34 && s[0] == 0x51 && s[1] == 0x20 }
pub fn is_wpkh(s: &[u8]) -> bool { s.len() == 22 && s[0] == 0 && s[1] == 0x14 }
pub fn is_sh(s: &[u8]) -> bool { s.len() == 23 && s[0] == 0xa9 && s[1] == 0x14 && s[22] == 0x87 }
pub fn is_pkh(s: &[u8]) -> bool { s.len() == 25 && s[..3] == [0x76, 0xa9, 0x14] && s[23..] == [0x88, 0xac] }
pub const NUMS: [u8; 32] = [0x50, 0x92, 0x9b, 0x74, 0xc1, 0xa0, 0x49, 0x54, 0xb7, 0x8b, 0x4b, 0x60, 0x35, 0xe9, 0x7a, 0x5e, 0x07, 0x8a, 0x5a, 0x0f, 0x28, 0xec, 0x96, 0xd5, 0x47, 0xbf, 0xee, 0x9a, 0xce, 0x80, 0x3a, 0xc0];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Tr, Wpkh, ShWpkh, Pkh }
/// Input eligibility and public key of BIP-352
pub fn eligible(txin: &TxIn, spk: &Script) -> Option<Kind> {
    let s = spk.as_bytes(); let w: Vec<&[u8]> = txin.witness.iter().collect(); let sig = txin.script_sig.as_bytes();
    if w.is_empty() { return if !sig.is_empty() && is_pkh(s) { Some(Kind::Pkh) } else { None } }
    if is_sh(s) {
        // the last push of the script_sig is the redeem script
        let last = txin.script_sig.instructions().last()?;
        return match last { Ok(script::Instruction::PushBytes(b)) if is_wpkh(b.as_bytes()) => Some(Kind::ShWpkh), _ => None };
    }
    if !sig.is_empty() { return None }
    if is_wpkh(s) { return Some(Kind::Wpkh) }
    if is_p2tr(s) {
        let mut st = w.clone();
        if st.len() > 1 && st[st.len() - 1].first() == Some(&0x50) { st.pop(); }
        if st.len() > 1 { let cb = st[st.len() - 1]; if cb.len() >= 33 && cb[1..33] == NUMS { return None } }
        return Some(Kind::Tr);
    }
    None
}
pub fn ckey(b: &[u8]) -> Option<PublicKey> { if b.len() == 33 && (b[0] == 2 || b[0] == 3) { PublicKey::from_slice(b).ok() } else { None } }
pub fn input_key(txin: &TxIn, spk: &Script) -> Option<(Kind, PublicKey)> {
    let k = eligible(txin, spk)?; let s = spk.as_bytes();
    let p = match k {
        Kind::Tr => xonly_of(s)?.public_key(Parity::Even),
        Kind::Wpkh | Kind::ShWpkh => ckey(txin.witness.iter().last()?)?,
        Kind::Pkh => { let sig = txin.script_sig.as_bytes(); let mut r = None;
            for i in (33..=sig.len()).rev() { let c = &sig[i - 33..i]; if hash160::Hash::hash(c).to_byte_array() == s[3..23] { if let Some(p) = ckey(c) { r = Some(p); break } } } r? }
    };
    Some((k, p))
}
/// every candidate output point at position k
pub fn tweak_data(tx: &Transaction, prevouts: &[TxOut]) -> Option<PublicKey> {
    let n = tx.input.len().min(prevouts.len());
    let keys: Vec<PublicKey> = (0..n).filter_map(|i| input_key(&tx.input[i], &prevouts[i].script_pubkey)).map(|x| x.1).collect();
    let a = psum(&keys)?; let o = min_op(tx.input[..n].iter().map(|i| &i.previous_output))?;
    Some(pmul(&a, &input_hash(&o, &a)))
}
/// a spendable input: the secret that goes into the shared secret, the input and its prevout
pub struct In { pub txin: TxIn, pub spk: ScriptBuf, pub sk: Option<SecretKey>, pub key: SecretKey, pub kind: usize }
pub fn pushes(v: &[&[u8]]) -> ScriptBuf { let mut b = script::Builder::new(); for x in v { b = b.push_slice(script::PushBytesBuf::try_from(x.to_vec()).unwrap()) } b.into_script() }
pub fn even(sk: SecretKey) -> SecretKey { if sk.x_only_public_key(&secp()).1 == Parity::Odd { sk.negate() } else { sk } }
pub fn h160(b: &[u8]) -> Vec<u8> { hash160::Hash::hash(b).to_byte_array().to_vec() }
pub const NKINDS: usize = 16;
/// kinds 0..=6 are eligible, the others are not
pub fn input(r: &mut Rng, kind: usize) -> In { let sk = r.sk(); input_with(r, kind, sk) }
pub fn input_with(r: &mut Rng, kind: usize, sk: SecretKey) -> In {
    let pk = sk.public_key(&secp()); let c = pk.serialize(); let x = pk.x_only_public_key().0; let u = pk.serialize_uncompressed();
    let mut txin = TxIn { previous_output: r.outpoint(), script_sig: ScriptBuf::new(), sequence: Sequence::MAX, witness: Witness::new() };
    let sig = r.bytes(71); let mut used = None;
    let wpkh = |h: Vec<u8>| { let mut v = vec![0u8, 0x14]; v.extend(h); ScriptBuf::from_bytes(v) };
    let shs = |s: &[u8]| { let mut v = vec![0xa9u8, 0x14]; v.extend(h160(s)); v.push(0x87); ScriptBuf::from_bytes(v) };
    let pkh = |h: Vec<u8>| { let mut v = vec![0x76u8, 0xa9, 0x14]; v.extend(h); v.extend([0x88, 0xac]); ScriptBuf::from_bytes(v) };
    let cbk = |r: &mut Rng, key: [u8; 32], n: usize| { let mut v = vec![0xc0u8 | r.coin() as u8]; v.extend(key); v.extend(r.bytes(32 * n)); v };
    let spk = match kind {
        0 => { txin.witness.push(r.bytes(64)); if r.coin() { txin.witness.push([&[0x50u8][..], &r.bytes(5)].concat()) } used = Some(even(sk)); p2tr_x(&x) }
        1 => { // script path, ordinary internal key, maybe with annex
            let n = r.below(3); let ik = r.pk().x_only_public_key().0.serialize(); let cb = cbk(r, ik, n);
            txin.witness.push(r.bytes(40)); txin.witness.push(r.bytes(34)); txin.witness.push(cb); if r.coin() { txin.witness.push([&[0x50u8][..], &NUMS[..]].concat()) } used = Some(even(sk)); p2tr_x(&x) }
        2 => { txin.witness.push(&sig); txin.witness.push(c); used = Some(sk); wpkh(h160(&c)) }
        3 => { txin.witness.push(&sig); txin.witness.push(c); let rs = wpkh(h160(&c)); txin.script_sig = pushes(&[rs.as_bytes()]); used = Some(sk); shs(rs.as_bytes()) }
        4 => { txin.script_sig = pushes(&[&sig, &c]); used = Some(sk); pkh(h160(&c)) }
        5 => { // malleated: other keys and junk around the right key
            let o = r.pk().serialize(); let j = r.bytes(10); txin.script_sig = match r.below(6) { 4 => ScriptBuf::from_bytes(c.to_vec()), 5 => pushes(&[&c]), 0 => pushes(&[&o, &sig, &c]), 1 => pushes(&[&sig, &c, &o]), 2 => pushes(&[&sig, &j, &c, &j]), _ => { let v = [&sig[..], &c[..]].concat(); pushes(&[&v]) } }; used = Some(sk); pkh(h160(&c)) }
        6 => { // key path with a signature that looks like NUMS data, witness of a single element
            txin.witness.push([&[0xc0u8][..], &NUMS[..]].concat()); used = Some(even(sk)); p2tr_x(&x) }
        7 => { // NUMS script path
            let n = r.below(3); let cb = cbk(r, NUMS, n); txin.witness.push(r.bytes(40)); txin.witness.push(r.bytes(34)); txin.witness.push(cb); if r.coin() { txin.witness.push([&[0x50u8][..], &r.bytes(3)].concat()) } p2tr_x(&x) }
        8 => { txin.witness.push(&sig); txin.witness.push(r.bytes(50)); let mut v = vec![0u8, 0x20]; v.extend(r.b32()); ScriptBuf::from_bytes(v) } // p2wsh
        9 => { let mut v = vec![0u8, 0x20]; v.extend(r.b32()); txin.witness.push(&sig); txin.witness.push(c); txin.script_sig = pushes(&[&v]); shs(&v) } // p2sh-p2wsh
        10 => { let rs = r.bytes(40); txin.script_sig = pushes(&[&sig, &rs]); shs(&rs) } // bare p2sh
        11 => { txin.script_sig = pushes(&[&sig]); let mut v = vec![0x21u8]; v.extend(c); v.push(0xac); ScriptBuf::from_bytes(v) } // p2pk
        12 => { txin.witness.push(r.bytes(64)); let mut v = vec![[0x52u8, 0x60][r.below(2)], 0x20]; v.extend(x.serialize()); ScriptBuf::from_bytes(v) } // future version
        13 => { txin.script_sig = pushes(&[&sig, &u]); pkh(h160(&u)) } // uncompressed p2pkh
        14 => { txin.witness.push(&sig); txin.witness.push(u); wpkh(h160(&u)) } // uncompressed p2wpkh
        _ => { ScriptBuf::from_bytes(vec![0x51]) }
    };
    In { txin, spk, sk: used, key: sk, kind }
}
pub fn mktx(ins: &[In], outs: Vec<TxOut>) -> (Transaction, Vec<TxOut>) {
    (Transaction { version: transaction::Version::TWO, lock_time: absolute::LockTime::ZERO, input: ins.iter().map(|i| i.txin.clone()).collect(), output: outs },
     ins.iter().map(|i| TxOut { value: Amount::from_sat([0, 1, 546, 10_000, 2_100_000_000_000_000][(i.txin.previous_output.vout % 251 + i.txin.previous_output.txid.to_byte_array()[0] as u32) as usize % 5]), script_pubkey: i.spk.clone() }).collect())
}
pub fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn txhex(t: &Transaction) -> String { consensus::encode::serialize_hex(t) }
pub fn pv(p: &[TxOut]) -> String { p.iter().map(|o| hx(o.script_pubkey.as_bytes())).collect::<Vec<_>>().join(",") }
