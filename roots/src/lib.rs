//! Roots for the contract verifier: one function per verified entry point, each
//! instantiating a generic function of /repo at concrete (or abstract) types.
//! None of these is ever executed; they exist so that rustc monomorphises the real bodies.
#![allow(non_snake_case, clippy::all)]
use bdk_sp::bitcoin::{
    self,
    bip32::Xpriv,
    key::{PrivateKey, Secp256k1},
    psbt::{self, GetKey, KeyRequest},
    secp256k1::{self, PublicKey, Scalar, SecretKey},
    Block, Network, OutPoint, Psbt, ScriptBuf, Transaction, TxIn, TxOut, Txid, XOnlyPublicKey,
};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::{scan::Scanner, SpOut};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// Abstract key provider: every call is havoc for the verifier.
pub struct AbsKeys;
#[derive(Debug)]
pub struct AbsKeyErr;
impl GetKey for AbsKeys {
    type Error = AbsKeyErr;
    fn get_key<C: secp256k1::Signing>(
        &self,
        _r: KeyRequest,
        _s: &Secp256k1<C>,
    ) -> Result<Option<PrivateKey>, AbsKeyErr> {
        unimplemented!()
    }
}

// silentpayments: shared
pub fn r_tag_txin(a: &TxIn, b: &ScriptBuf) -> Option<bdk_sp::SpInputs> { bdk_sp::tag_txin(a, b) }
pub fn r_lexmin_update<'a>(l: &mut bdk_sp::LexMin<'a>, o: &'a OutPoint) -> &'a OutPoint { l.update(o) }
pub fn r_lexmin_bytes(l: &bdk_sp::LexMin) -> Result<[u8; 36], bdk_sp::LexMinError> { l.bytes() }
pub fn r_compute_shared_secret(a: &SecretKey, b: &PublicKey) -> PublicKey { bdk_sp::compute_shared_secret(a, b) }
pub fn r_get_label_tweak(a: SecretKey, m: u32) -> Scalar { bdk_sp::hashes::get_label_tweak(a, m) }
pub fn r_get_input_hash(a: &[u8; 36], p: &PublicKey) -> Scalar { bdk_sp::hashes::get_input_hash(a, p) }
pub fn r_get_shared_secret(a: PublicKey, k: u32) -> SecretKey { bdk_sp::hashes::get_shared_secret(a, k) }
// encoding
pub fn r_code_new(a: PublicKey, b: PublicKey, n: Network) -> SilentPaymentCode { SilentPaymentCode::new_v0(a, b, n) }
pub fn r_code_label(a: SecretKey, m: u32) -> Scalar { SilentPaymentCode::get_label(a, m) }
pub fn r_code_add_label(c: &SilentPaymentCode, l: Scalar) -> Result<SilentPaymentCode, secp256k1::Error> { c.add_label(l) }
pub fn r_code_placeholder(c: &SilentPaymentCode) -> ScriptBuf { c.get_placeholder_p2tr_spk() }
pub fn r_code_version(c: &SilentPaymentCode) -> u8 { c.version() }
pub fn r_code_fmt(c: &SilentPaymentCode, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(c, f) }
pub fn r_code_parse(s: &str) -> Result<SilentPaymentCode, bdk_sp::encoding::ParseError> { SilentPaymentCode::try_from(s) }
// receive
pub fn r_extract_pubkey(t: TxIn, s: &ScriptBuf) -> Option<(bdk_sp::SpInputs, PublicKey)> { bdk_sp::receive::extract_pubkey(t, s) }
pub fn r_scan_txouts(p: PublicKey, l: &BTreeMap<PublicKey, (Scalar, u32)>, t: &Transaction, s: PublicKey) -> Result<Vec<SpOut>, bdk_sp::receive::SpReceiveError> { bdk_sp::receive::scan_txouts(p, l, t, s) }
pub fn r_get_sp_spk(a: &PublicKey, b: &PublicKey, k: u32, l: Option<&PublicKey>) -> ScriptBuf { bdk_sp::receive::get_silentpayment_script_pubkey(a, b, k, l) }
pub fn r_compute_tweak_data(t: &Transaction, p: &[TxOut]) -> Result<PublicKey, bdk_sp::receive::SpReceiveError> { bdk_sp::receive::compute_tweak_data(t, p) }
pub fn r_spout_to_txout(s: &SpOut) -> TxOut { TxOut::from(s) }
pub fn r_spout_to_meta(s: &SpOut) -> bdk_sp::receive::SpMeta { s.into() }
pub fn r_scanner_new(a: SecretKey, b: PublicKey, l: BTreeMap<PublicKey, (Scalar, u32)>) -> Scanner { Scanner::new(a, b, l) }
pub fn r_scanner_shared(s: &Scanner, t: &Transaction, p: &[TxOut]) -> Result<PublicKey, bdk_sp::receive::SpReceiveError> { s.get_shared_secret(t, p) }
pub fn r_scanner_scan_txouts(s: &Scanner, t: &Transaction, e: PublicKey) -> Result<Vec<SpOut>, bdk_sp::receive::SpReceiveError> { s.scan_txouts(t, e) }
pub fn r_scanner_scan_tx(s: &Scanner, t: &Transaction, p: &[TxOut]) -> Result<Vec<SpOut>, bdk_sp::receive::SpReceiveError> { s.scan_tx(t, p) }
pub fn r_scanner_spks(s: &Scanner, t: &PublicKey, k: u32) -> Vec<ScriptBuf> { s.get_spks_from_tweak(t, k) }
// send
pub fn r_partial_secret(a: &[u8; 36], k: &[(ScriptBuf, SecretKey)]) -> Result<SecretKey, bdk_sp::send::error::SpSendError> { bdk_sp::send::create_silentpayment_partial_secret(a, k) }
pub fn r_create_spks(a: SecretKey, o: &[SilentPaymentCode]) -> HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>> { bdk_sp::send::create_silentpayment_scriptpubkeys(a, o) }
pub fn r_xpriv_send(s: &bdk_sp::send::bip32::XprivSilentPaymentSender, i: &[(OutPoint, (ScriptBuf, bitcoin::bip32::DerivationPath))], o: &[SilentPaymentCode]) -> Result<HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>, bdk_sp::send::error::SpSendError> { s.send_to(i, o) }
pub fn r_xpriv_new(x: Xpriv) -> bdk_sp::send::bip32::XprivSilentPaymentSender { bdk_sp::send::bip32::XprivSilentPaymentSender::new(x) }
pub fn r_spsender_send(s: &bdk_sp::send::bip352::SpSender, i: &[SpOut], o: &[SilentPaymentCode]) -> Result<HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>, bdk_sp::send::error::SpSendError> { s.send_to(i, o) }
pub fn r_spsender_new(s: SecretKey) -> bdk_sp::send::bip352::SpSender { bdk_sp::send::bip352::SpSender::new(s) }
// psbt
pub fn r_derive_sp(p: &mut Psbt, k: &AbsKeys, r: &[SilentPaymentCode], s: &Secp256k1<secp256k1::All>) -> Result<(), bdk_sp::send::error::SpSendError> { bdk_sp::send::psbt::derive_sp(p, k, r, s) }
pub fn r_sign_sp(p: &mut Psbt, k: &AbsKeys, s: &Secp256k1<secp256k1::All>) { bdk_sp::send::psbt::sign::sign_sp(p, k, s) }
pub fn r_add_sp_data(p: &mut Psbt, i: usize, k: PublicKey, t: Scalar) { bdk_sp::send::psbt::sign::add_sp_data_to_input(p, i, k, t) }
// dleq
pub fn r_dleq_verify(A: PublicKey, B: PublicKey, C: PublicKey, p: &[u8; 64], G: PublicKey, m: Option<&[u8; 32]>) -> Result<bool, dleq::DleqError> { dleq::dleq_verify_proof(A, B, C, p, G, m) }
pub fn r_dleq_gen(a: SecretKey, B: PublicKey, r: &[u8; 32], G: PublicKey, m: Option<&[u8; 32]>) -> Result<[u8; 64], dleq::DleqError> { dleq::dleq_generate_proof(a, B, r, G, m) }
// indexer v2
pub type A = indexer::bdk_chain::ConfirmationBlockTime;
use indexer::v2::{indexes::{Label, SpIndex}, ChangeSet, SpIndexerV2, SpPub};
pub fn r2_new(s: SecretKey, p: PublicKey) -> SpIndexerV2<A> { SpIndexerV2::new(s, p) }
pub fn r2_try_from(c: ChangeSet<A>) -> Result<SpIndexerV2<A>, ()> { SpIndexerV2::try_from(c) }
pub fn r2_add_label(i: &mut SpIndexerV2<A>, n: u32) -> ChangeSet<A> { i.add_label(n) }
pub fn r2_get_address(i: &SpIndexerV2<A>, n: Network) -> SilentPaymentCode { i.get_address(n) }
pub fn r2_get_labeled_address(i: &mut SpIndexerV2<A>, m: u32, n: Network) -> SilentPaymentCode { i.get_labeled_address(m, n) }
pub fn r2_apply_changeset(i: &mut SpIndexerV2<A>, c: ChangeSet<A>) { i.apply_changeset(c) }
pub fn r2_derive_spks(i: &SpIndexerV2<A>, t: &PublicKey) -> Vec<[u8; 34]> { i.derive_spks_for_tweak(t) }
pub fn r2_index_tx(i: &mut SpIndexerV2<A>, t: &Transaction, p: &PublicKey) -> ChangeSet<A> { i.index_tx(t, p) }
pub fn r2_initial_changeset(i: &SpIndexerV2<A>) -> ChangeSet<A> { i.initial_changeset() }
pub fn r2_batch_relevant(i: &mut SpIndexerV2<A>, t: Vec<(Arc<Transaction>, PublicKey, Vec<A>)>) -> ChangeSet<A> { i.batch_insert_relevant(t) }
pub fn r2_batch_relevant_unconf(i: &mut SpIndexerV2<A>, t: Vec<(Arc<Transaction>, PublicKey, u64)>) -> ChangeSet<A> { i.batch_insert_relevant_unconfirmed(t) }
pub fn r2_batch_unconf(i: &mut SpIndexerV2<A>, t: Vec<(Arc<Transaction>, PublicKey, u64)>) -> ChangeSet<A> { i.batch_insert_unconfirmed(t) }
pub fn r2_apply_block_relevant(i: &mut SpIndexerV2<A>, b: &Block, p: HashMap<Txid, PublicKey>, h: u32) -> ChangeSet<A> { i.apply_block_relevant(b, p, h) }
pub fn r2_apply_block(i: &mut SpIndexerV2<A>, b: &Block, p: HashMap<Txid, PublicKey>, h: u32) -> ChangeSet<A> { i.apply_block(b, p, h) }
pub fn r2_merge(a: &mut ChangeSet<A>, b: ChangeSet<A>) { indexer::bdk_chain::Merge::merge(a, b) }
pub fn r2_is_empty(a: &ChangeSet<A>) -> bool { indexer::bdk_chain::Merge::is_empty(a) }
pub fn r2_create_label(p: &SpPub, n: u32) -> Label { p.create_label(n) }
pub fn r2_index_label(p: &mut SpIndex, n: &Label) { p.index_label(n) }
pub fn r2_index_partial(p: &mut SpIndex, t: Txid, k: PublicKey) { p.index_partial_secret(t, k) }
pub fn r2_index_spout(p: &mut SpIndex, o: OutPoint, s: SpOut) { p.index_spout(o, s) }
pub fn r2_get_by_script<'a>(p: &'a SpIndex, s: &ScriptBuf) -> Option<&'a SecretKey> { p.get_by_script(s) }
pub fn r2_by_xonly<'a>(p: &'a SpIndex) -> Vec<(XOnlyPublicKey, &'a OutPoint)> { p.by_xonly().collect() }
pub fn r2_get_by_label<'a>(p: &'a SpIndex, m: Option<u32>) -> Vec<&'a SecretKey> { p.get_by_label(m).collect() }
pub fn r2_txouts_in_tx<'a>(p: &'a SpIndex, t: Txid) -> Vec<&'a SecretKey> { p.txouts_in_tx(t).collect() }
pub fn r2_insert_anchor(i: &mut SpIndexerV2<A>, t: Txid, a: A) -> ChangeSet<A> { i.insert_anchor(t, a) }
pub fn r2_insert_seen_at(i: &mut SpIndexerV2<A>, t: Txid, s: u64) -> ChangeSet<A> { i.insert_seen_at(t, s) }
pub fn r2_insert_evicted_at(i: &mut SpIndexerV2<A>, t: Txid, s: u64) -> ChangeSet<A> { i.insert_evicted_at(t, s) }
pub fn r2_batch_evicted(i: &mut SpIndexerV2<A>, t: Vec<(Txid, u64)>) -> ChangeSet<A> { i.batch_insert_relevant_evicted_at(t) }
pub fn r2_get_label(p: &SpIndex, m: u32) -> Option<Scalar> { p.get_label(m) }
pub fn r2_label_from(a: &PublicKey, b: &(Scalar, u32)) -> Label { Label::from((a, b)) }
// indexer v1
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
pub struct AbsPrev;
impl PrevoutSource for AbsPrev {
    fn get_tx_prevouts(&self, _tx: &Transaction) -> Vec<TxOut> { unimplemented!() }
}
pub fn r1_add_label(i: &mut SpIndexes, c: SilentPaymentCode, s: SecretKey, m: u32) -> Result<SilentPaymentCode, bdk_sp::receive::SpReceiveError> { i.add_label(c, s, m) }
pub fn r1_get_label(i: &SpIndexes, m: u32) -> Option<Scalar> { i.get_label(m) }
pub fn r1_txout(i: &SpIndexes, m: OutPoint) -> Option<TxOut> { i.txout(m) }
pub fn r1_to_changeset(i: SpIndexes) -> SpIndexesChangeSet { SpIndexesChangeSet::from(i) }
pub fn r1_from_changeset(i: SpIndexesChangeSet) -> SpIndexes { SpIndexes::from(i) }
pub fn r1_txouts_in_tx<'a>(i: &'a SpIndexes, t: Txid) -> Vec<&'a SpOut> { i.txouts_in_tx(t).collect() }
pub fn r1_merge(a: &mut SpIndexesChangeSet, b: SpIndexesChangeSet) { indexer::bdk_chain::Merge::merge(a, b) }
pub fn r1_is_empty(a: &SpIndexesChangeSet) -> bool { indexer::bdk_chain::Merge::is_empty(a) }
pub fn r1_spends_owned(i: &SpIndexer<AbsPrev, A>, t: &Transaction) -> bool { i.spends_owned_spouts(t) }
pub fn r1_index_tx(i: &mut SpIndexer<AbsPrev, A>, t: &Transaction) -> Result<indexer::bdk_chain::tx_graph::ChangeSet<A>, bdk_sp::receive::SpReceiveError> { i.index_tx(t) }
pub fn r1_custom(c: &indexer::Custom, t: &Transaction) -> Vec<TxOut> { indexer::PrevoutSource::get_tx_prevouts(c, t) }
// oracles
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, WriteRange};
pub fn r3_write_queue(b: &mut DatabaseBuffer) -> WriteRange { b.write_queue() }
pub fn r3_push(b: &mut DatabaseBuffer, f: bip157::IndexedFilter) -> Option<WriteRange> { b.push_filter(f) }
pub fn r3_run(s: &mut bdk_sp_oracles::filters::kyoto::FilterSubscriber, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), bdk_sp_oracles::filters::kyoto::UpdateError>> {
    let mut f = std::pin::pin!(s.run());
    std::future::Future::poll(f.as_mut(), cx)
}
// serialisation of a label: an abstract data format, described by what it accepts and what its items read as
pub mod format {
    use super::*;
    use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, SeqAccess, Visitor};
    use serde::ser::{self, Impossible, Serialize, SerializeTuple, Serializer};
    use std::fmt;
    #[derive(Debug)]
    pub struct AbsErr;
    impl fmt::Display for AbsErr { fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { unimplemented!() } }
    impl std::error::Error for AbsErr {}
    impl de::Error for AbsErr {
        fn custom<T: fmt::Display>(_m: T) -> Self { AbsErr }
        fn invalid_length(_n: usize, _e: &dyn de::Expected) -> Self { AbsErr }
        fn invalid_type(_n: de::Unexpected, _e: &dyn de::Expected) -> Self { AbsErr }
        fn invalid_value(_n: de::Unexpected, _e: &dyn de::Expected) -> Self { AbsErr }
    }
    impl ser::Error for AbsErr { fn custom<T: fmt::Display>(_m: T) -> Self { AbsErr } }
    /// what was written for one value
    pub enum Out { U32(u32), Bytes(Vec<u8>), Point(PublicKey), Other }
    /// writes one value, or fails
    pub struct ElemSer { pub fail: bool }
    impl ElemSer { fn put(self, o: Out) -> Result<Out, AbsErr> { if self.fail { Err(AbsErr) } else { Ok(o) } } }
    /// writes a tuple; the writer takes `limit` steps and then fails
    pub struct TopSer { pub limit: usize }
    pub struct TupSer { pub items: Vec<Out>, pub len: usize, pub limit: usize }
    impl SerializeTuple for TupSer {
        type Ok = Vec<Out>;
        type Error = AbsErr;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), AbsErr> {
            let o = v.serialize(ElemSer { fail: self.items.len() >= self.limit })?;
            self.items.push(o);
            Ok(())
        }
        fn end(self) -> Result<Vec<Out>, AbsErr> {
            if self.items.len() >= self.limit || self.items.len() != self.len { return Err(AbsErr); }
            Ok(self.items)
        }
    }
    macro_rules! other { ($($f:ident $t:ty),*) => { $(fn $f(self, _v: $t) -> Result<Self::Ok, AbsErr> { unimplemented!() })* } }
    macro_rules! rest { ($ok:ty) => {
        type Ok = $ok; type Error = AbsErr;
        type SerializeSeq = Impossible<$ok, AbsErr>; type SerializeTupleStruct = Impossible<$ok, AbsErr>; type SerializeTupleVariant = Impossible<$ok, AbsErr>;
        type SerializeMap = Impossible<$ok, AbsErr>; type SerializeStruct = Impossible<$ok, AbsErr>; type SerializeStructVariant = Impossible<$ok, AbsErr>;
        other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_unit_struct &'static str);
        fn serialize_none(self) -> Result<$ok, AbsErr> { unimplemented!() }
        fn serialize_some<T: ?Sized + Serialize>(self, _v: &T) -> Result<$ok, AbsErr> { unimplemented!() }
        fn serialize_unit(self) -> Result<$ok, AbsErr> { unimplemented!() }
        fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<$ok, AbsErr> { unimplemented!() }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, _v: &T) -> Result<$ok, AbsErr> { unimplemented!() }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, _v: &'static str, _t: &T) -> Result<$ok, AbsErr> { unimplemented!() }
        fn serialize_seq(self, _n: Option<usize>) -> Result<Self::SerializeSeq, AbsErr> { unimplemented!() }
        fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Self::SerializeTupleStruct, AbsErr> { unimplemented!() }
        fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeTupleVariant, AbsErr> { unimplemented!() }
        fn serialize_map(self, _n: Option<usize>) -> Result<Self::SerializeMap, AbsErr> { unimplemented!() }
        fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Self::SerializeStruct, AbsErr> { unimplemented!() }
        fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeStructVariant, AbsErr> { unimplemented!() }
    } }
    impl Serializer for ElemSer {
        rest!(Out);
        type SerializeTuple = Impossible<Out, AbsErr>;
        fn serialize_u32(self, v: u32) -> Result<Out, AbsErr> { self.put(Out::U32(v)) }
        fn serialize_bytes(self, v: &[u8]) -> Result<Out, AbsErr> { self.put(Out::Bytes(v.to_vec())) }
        fn serialize_tuple(self, _n: usize) -> Result<Self::SerializeTuple, AbsErr> { unimplemented!() }
    }
    impl Serializer for TopSer {
        rest!(Vec<Out>);
        type SerializeTuple = TupSer;
        fn serialize_u32(self, _v: u32) -> Result<Vec<Out>, AbsErr> { unimplemented!() }
        fn serialize_bytes(self, _v: &[u8]) -> Result<Vec<Out>, AbsErr> { unimplemented!() }
        fn serialize_tuple(self, len: usize) -> Result<TupSer, AbsErr> {
            if self.limit == 0 { return Err(AbsErr); }
            Ok(TupSer { items: Vec::new(), len, limit: self.limit - 1 })
        }
    }
    /// what the bytes of an item read as: a byte string, a sequence of numbers, or a refusal
    pub enum AsBytes { Bytes(Vec<u8>), Seq(Vec<Option<u8>>), Refused }
    /// one item of the input, described by what it reads as when asked for each kind of value
    pub struct Item { pub num: Option<u32>, pub bytes: AsBytes, pub point: Option<PublicKey> }
    pub struct ByteSeq { pub items: Vec<Option<u8>>, pub pos: usize }
    pub struct ByteDe { pub b: Option<u8> }
    impl<'de> SeqAccess<'de> for ByteSeq {
        type Error = AbsErr;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, _s: T) -> Result<Option<T::Value>, AbsErr> { unimplemented!() }
        fn next_element<T: Deserialize<'de>>(&mut self) -> Result<Option<T>, AbsErr> {
            if self.pos >= self.items.len() { return Ok(None); }
            let b = self.items[self.pos];
            self.pos += 1;
            match T::deserialize(ByteDe { b }) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
        }
    }
    /// a tuple of items
    pub struct ItemSeq { pub items: Vec<Item>, pub pos: usize, pub end: usize }
    impl<'de> SeqAccess<'de> for ItemSeq {
        type Error = AbsErr;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, _s: T) -> Result<Option<T::Value>, AbsErr> { unimplemented!() }
        fn next_element<T: Deserialize<'de>>(&mut self) -> Result<Option<T>, AbsErr> {
            if self.pos >= self.end { return Ok(None); }
            let d = ItemDe { it: take(&self.items, self.pos) };
            self.pos += 1;
            match T::deserialize(d) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }
        }
    }
    /// the item at a position, by value
    pub fn take(v: &Vec<Item>, i: usize) -> Item { unimplemented!() }
    pub struct ItemDe { pub it: Item }
    /// a whole input: a tuple of items, or something that is not one
    /// (a binary format gives as many items as it is asked for, another may give all it has)
    pub struct TopDe { pub items: Option<Vec<Item>>, pub exact: bool }
    macro_rules! dother { ($($f:ident),*) => { $(fn $f<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, AbsErr> { unimplemented!() })* } }
    macro_rules! drest { () => {
        type Error = AbsErr;
        dother!(deserialize_any, deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u16, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_str, deserialize_string, deserialize_option, deserialize_unit, deserialize_seq, deserialize_map, deserialize_identifier, deserialize_ignored_any);
        fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
        fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, _l: usize, _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
        fn deserialize_struct<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
        fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
    } }
    impl<'de> Deserializer<'de> for ByteDe {
        drest!();
        dother!(deserialize_u8, deserialize_u32, deserialize_bytes, deserialize_byte_buf);
        fn deserialize_tuple<V: Visitor<'de>>(self, _n: usize, _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
    }
    impl ItemDe {
        fn give<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> {
            match self.it.bytes {
                AsBytes::Bytes(b) => v.visit_bytes(&b),
                AsBytes::Seq(items) => v.visit_seq(ByteSeq { items, pos: 0 }),
                AsBytes::Refused => Err(AbsErr),
            }
        }
    }
    impl<'de> Deserializer<'de> for ItemDe {
        drest!();
        dother!(deserialize_u8, deserialize_u32);
        fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> { self.give(v) }
        fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, AbsErr> { self.give(v) }
        fn deserialize_tuple<V: Visitor<'de>>(self, _n: usize, _v: V) -> Result<V::Value, AbsErr> { unimplemented!() }
    }
    impl<'de> Deserializer<'de> for TopDe {
        drest!();
        dother!(deserialize_u8, deserialize_u32, deserialize_bytes, deserialize_byte_buf);
        fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, AbsErr> {
            match self.items {
                Some(items) => {
                    let end = if self.exact && n < items.len() { n } else { items.len() };
                    v.visit_seq(ItemSeq { items, pos: 0, end })
                }
                None => Err(AbsErr),
            }
        }
    }
    use indexer::v2::indexes::ScalarBytes;
    pub fn r2_label_write(l: &Label, s: TopSer) -> Result<Vec<Out>, AbsErr> { l.serialize(s) }
    pub fn r2_scalar_write(l: &ScalarBytes, s: ElemSer) -> Result<Out, AbsErr> { l.serialize(s) }
    pub fn r2_label_read(d: TopDe) -> Result<Label, AbsErr> { Label::deserialize(d) }
    pub fn r2_scalar_read(d: ItemDe) -> Result<ScalarBytes, AbsErr> { ScalarBytes::deserialize(d) }
}
