#!/usr/bin/env python3
"""writes properties.jsonl (the single source of the property texts)"""
import json, os
SP = "silentpayments/src/"
def m(*a): return [{"name": n, "where": w} for n, w in a]
P = []
def p(id, title, statement, over, text, why, files, mech): P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over if isinstance(over, list) else [over], text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=mech)))
VEC = "The tests run the BIP352 vectors and a few fixed transactions; "
p("C01", "Scanning reports only outputs the spend key can really spend",
  "Whatever transaction is scanned, every output reported as received is one of that transaction's outputs at the reported position and amount, pays to a taproot key, and that key equals the public spend key plus the reported tweak times the generator (up to the sign x-only keys drop). A reported label is one the scanner was given and the reported tweak includes it. No output is reported twice.",
  "inputs", "every transaction (any number and kind of outputs), tweak data, scan key, spend key and label set",
  VEC + "a wrong tweak that only shows for a labelled output of negated parity, a duplicated output or a late counter is never sampled, and funds reported with a wrong tweak are unspendable.",
  [SP + "receive/mod.rs", SP + "receive/scan.rs", SP + "hashes.rs"], m(("output scanning", SP + "receive/mod.rs: scan_txouts"), ("scanner", SP + "receive/scan.rs: Scanner")))
p("C02", "Scanning finds every payment made to the receiver",
  "If a transaction pays outputs derived from consecutive counters starting at zero for the receiver's address or any of its labelled addresses, scanning it with the right tweak data and label set reports every one of them, whatever their order and number and whatever other outputs surround them, including repeated use of one label. Scanning terminates on every transaction.",
  "inputs", "every number and order of payments, labels and foreign outputs, every key",
  VEC + "they contain few outputs and few label combinations, and a missed output is lost money that no assertion notices.",
  [SP + "receive/mod.rs", SP + "receive/scan.rs"], m(("output scanning", SP + "receive/mod.rs: scan_txouts"), ("label lookup by difference", SP + "receive/mod.rs: scan_txouts")))
p("C03", "Tweak data and the shared secret follow BIP352",
  "The public tweak data computed for a transaction equals the input hash (of the smallest outpoint and the sum of the eligible input keys) times the sum of the eligible input keys, and the receiver's shared secret is the scan key times it. It is an error, never a panic, when there is no eligible input or when the keys sum to the point at infinity.",
  "inputs", "every transaction and every list of previous outputs",
  VEC + "sums of one to three inputs are sampled, cancelling keys, ineligible inputs among eligible ones and arbitrary outpoints are not.",
  [SP + "receive/mod.rs", SP + "hashes.rs", SP + "lib.rs"], m(("tweak data", SP + "receive/mod.rs: compute_tweak_data"), ("shared secret", SP + "lib.rs: compute_shared_secret")))
p("C04", "Exactly the BIP352 eligible inputs contribute their key",
  "An input contributes a public key exactly when it spends a p2tr, p2wpkh, p2sh-p2wpkh or p2pkh output in the way BIP352 allows, and the key is then the one that the spent output commits to; taproot script-path spends with the unspendable internal key are left out. Malformed or adversarial witnesses and scripts are treated as ineligible and never cause a panic.",
  "inputs", "every previous output script, script signature and witness, well formed or not",
  VEC + "malformed control blocks, annexes, malleated p2pkh script signatures, uncompressed keys and nested scripts are open ended.",
  [SP + "lib.rs", SP + "receive/mod.rs"], m(("input classification", SP + "lib.rs: tag_txin"), ("key extraction", SP + "receive/mod.rs: extract_pubkey")))
p("C05", "Sender and receiver always derive the same shared secret",
  "For any eligible inputs the scalar the sender derives, times the generator, equals the public tweak data the receiver computes from the same transaction, with x-only keys negated to even parity exactly for taproot inputs; hence both sides derive the same shared secret for every recipient. Having no eligible input, or eligible keys that add up to zero, is refused with an error, and nothing else is.",
  "inputs", "every list of inputs (kind, key, outpoint) in any order, including keys that cancel part way",
  VEC + "the order of inputs, the parity of each key and intermediate cancellations are sampled a handful of times.",
  [SP + "send/mod.rs", SP + "receive/mod.rs", SP + "hashes.rs"], m(("partial secret", SP + "send/mod.rs: create_silentpayment_partial_secret"), ("tweak data", SP + "receive/mod.rs: compute_tweak_data")))
p("C06", "Each recipient gets its own output keys with per scan key counters",
  "For every list of recipients the sender derives, for each recipient code, output keys equal to its spend key plus the hash of shared secret and counter times the generator; recipients that share a scan key share one counter that starts at zero and increases by one per payment, so keys are distinct and the receiver finds them. Other scan keys do not influence the counter and every payment of a repeated code yields an output of its own.",
  "inputs", "every list of recipients, with repeated codes and shared scan keys, and every partial secret",
  VEC + "interleavings of several recipients sharing a scan key through labels are barely sampled.",
  [SP + "send/mod.rs"], m(("output derivation", SP + "send/mod.rs: create_silentpayment_scriptpubkeys")))
p("C07", "The smallest outpoint is selected by its serialised bytes",
  "Feeding outpoints one after another always leaves the smallest one by byte order of its 36 byte serialisation (transaction id as serialised, then little endian output index), whatever the order and number fed, and yields exactly these bytes. Without any outpoint it is an error.",
  ["inputs", "histories"], "every sequence of outpoints",
  "Tests feed few outpoints; numeric instead of byte comparison of the output index shows only for particular indices with equal transaction ids.",
  [SP + "lib.rs"], m(("minimum", SP + "lib.rs: LexMin")))
p("C08", "Silent payment codes survive encoding and decoding",
  "Encoding any version 0 code (scan key, spend key, network) gives the BIP352 string for it, whose prefix follows the network, and parsing that string, in lower or upper case, yields the same version, keys and network class. Codes of versions 1 to 30 survive printing and parsing too.",
  "inputs", "every pair of keys and every network",
  "A handful of codes is tested; data part layout and network mapping must hold for all keys.",
  [SP + "encoding/mod.rs"], m(("encoding", SP + "encoding/mod.rs: Display"), ("decoding", SP + "encoding/mod.rs: TryFrom<&str>")))
p("C09", "Parsing a code accepts exactly the well formed ones and never panics",
  "Parsing any string either returns an error or a code; a version 0 string is accepted exactly when its checksum is right, its prefix is known and its data decodes to exactly the 66 bytes of two valid keys, later versions up to 30 take the keys from their first 66 bytes, and version 31 is refused. No string causes a panic.",
  "inputs", "every string", "Tests try few malformed strings; empty data, other lengths, versions and checksums are an open ended space.",
  [SP + "encoding/mod.rs"], m(("decoding", SP + "encoding/mod.rs: TryFrom<&str>")))
p("C10", "A labelled address only moves the spend key by the label tweak",
  "The label tweak for a scan key and index is the BIP352 label hash of them; adding it to an address yields the same scan key, version and network and the spend key plus the label tweak times the generator, whatever the index. The indexes register that label under the point it adds, so payments to the labelled address are recognised.",
  "inputs", "every key pair and every 32 bit index", "Tests use a few label indices.",
  [SP + "encoding/mod.rs", SP + "hashes.rs"], m(("labels", SP + "encoding/mod.rs: add_label, get_label"), ("hash", SP + "hashes.rs: get_label_tweak")))
p("C11", "The placeholder script is a fixed injective function of the code",
  "The placeholder script of a code is the taproot script of the x-only key of the scan key plus the hash of the spend key times the generator, the same for equal keys on every call, and is a valid p2tr script. Labelled and unlabelled variants of one address therefore get different placeholders.",
  "inputs", "every code", "One value is tested at most.",
  [SP + "encoding/mod.rs"], m(("placeholder", SP + "encoding/mod.rs: get_placeholder_p2tr_spk")))
p("C12", "Filling a PSBT only replaces the placeholder output scripts",
  "Deriving the silent payment outputs of a PSBT replaces exactly the scripts that are placeholders of the given recipients, the i-th placeholder of a code with its i-th derived key, and changes nothing else: amounts, order, inputs and other outputs stay. When the numbers of derived keys and placeholders of a recipient differ it is an error and the PSBT is unchanged; a recipient without any placeholder is left out.",
  "inputs", "every PSBT and every recipient list, with repeated and missing placeholders",
  "Tests fill one or two outputs; a swapped or skipped output with several recipients pays the wrong person.",
  [SP + "send/psbt/mod.rs", SP + "send/psbt/sign.rs"], m(("output update", SP + "send/psbt/mod.rs: update_outputs")))
p("C13", "A PSBT's input keys are the ones that own the eligible inputs",
  "Collecting the sender's secrets from a PSBT uses, for each eligible input, the secret key whose public key the spent output commits to (tweaked for taproot), classified as BIP352 does on the final transaction; ineligible inputs contribute nothing. A missing or non matching key of an eligible input is an error instead of silently deriving outputs that cannot be found.",
  "inputs", "every PSBT (any mixture of input kinds and key sources) and every key map",
  "Tests cover one kind of input at a time; mixtures, missing keys and other derivations are not sampled.",
  [SP + "send/psbt/mod.rs", SP + "send/psbt/sign.rs"], m(("secrets", SP + "send/psbt/mod.rs: collect_input_data")))
p("C14", "Signing a received output uses the spend key plus its tweak",
  "A PSBT input that carries a silent payment tweak belonging to its output, and whose spend key is known, gets a key path signature that verifies against that output's key for the PSBT's transaction and previous outputs. Nothing else in the PSBT changes: inputs with other or malformed fields, with a foreign tweak, or that are already signed stay as they are. It never panics.",
  "inputs", "every PSBT, spend key and tweak", "One signing flow is tested; parity and malformed fields are not enumerated.",
  [SP + "send/psbt/mod.rs", SP + "send/psbt/sign.rs"], m(("signing", SP + "send/psbt/sign.rs: sign_sp")))
p("C15", "The extended key sender derives and tweaks the right input keys",
  "A sender that holds an extended private key derives for each input the key at the given derivation path, applies the taproot tweak only to inputs whose script is taproot, and produces the outputs that a sender holding the plain keys would produce.",
  "inputs", "every extended key, path and input script kind", "The tests derive a few taproot inputs only.",
  [SP + "send/bip32.rs"], m(("derivation", SP + "send/bip32.rs: XprivSilentPaymentSender")))
p("C16", "Spending received outputs uses every input's own tweaked key",
  "A sender that spends received silent payment outputs uses for every input the spend key plus that output's tweak, as a taproot key, and the smallest outpoint over all inputs, and derives from them the outputs of exactly the recipients given. Without inputs it is an error.",
  "inputs", "every list of inputs and recipients", "No test exercises it with several inputs, repeated tweaks or odd keys.",
  [SP + "send/bip352.rs"], m(("sender", SP + "send/bip352.rs: SpSender")))
p("C17", "A DLEQ proof verifies exactly when its equations hold",
  "Verification of a proof accepts exactly when the challenge recomputed from the bases, public points, commitments reconstructed from the proof and message equals the challenge in the proof, for every generator and message; malformed proofs and points at infinity are refused without a panic.",
  "inputs", "every five points, 64 byte proof and message", "The tests check fixed vectors.",
  ["dleq/src/lib.rs"], m(("verification", "dleq/src/lib.rs: dleq_verify_proof")))
p("C18", "Every generated DLEQ proof verifies and depends on all its inputs",
  "For every secret, base point, generator, message and auxiliary randomness the generated proof verifies against the matching public points, and the nonce is derived from secret, auxiliary randomness, points and message as BIP374 says.",
  "inputs", "every secret, points, message and auxiliary bytes", "The tests check fixed vectors.",
  ["dleq/src/lib.rs"], m(("generation", "dleq/src/lib.rs: dleq_generate_proof")))
p("C19", "Indexing one transaction records precisely its received outputs",
  "Indexing a transaction with its tweak data adds to the index exactly the outputs that scanning with the index's keys and labels reports, keyed by their outpoint with their tweak and label, and keeps every earlier entry. Indexing the same transaction twice changes nothing more, and lookups return what was indexed.",
  "histories", "every sequence of transactions, labels and keys", "The indexer has no tests.",
  ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], m(("indexing", "indexer/src/v2/mod.rs: index_tx")))
p("C20", "Block and batch application keep precisely the relevant transactions",
  "Applying the relevant part of a block or of a batch records a transaction, with its anchors or times, exactly when one of its outputs is indexed or it spends an indexed output, counting outputs found earlier in the block and anywhere in the batch; the variants without that filter record every transaction but the coinbase. Tweak data is matched to its own transaction only. The changesets returned cover every change made.",
  "histories", "every block, batch and order of application", "The indexer has no tests.",
  ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], m(("graph", "indexer/src/v2/mod.rs: apply_block_with_filter, batch_insert_relevant, is_tx_relevant")))
p("C21", "Persisted changes restore the same index",
  "Merging the changesets returned by a history of operations (labels registered before the transactions they belong to) into the initial one and loading the result gives an index and graph equal to the live ones; the full changeset of the live index does too. A changeset is reported empty exactly when it holds nothing, one of other keys is not applied, and one without both keys is not loaded. Changesets survive serialisation.",
  "histories", "every sequence of operations and every grouping of the changesets", "The indexer has no tests.",
  ["indexer/src/v2/mod.rs", "indexer/src/v2/indexes.rs"], m(("changeset", "indexer/src/v2/mod.rs: ChangeSet, apply_changeset")))
p("C22", "Labels survive serialisation and listing in every format",
  "A label serialises to a form that deserialises to the same label in both human readable and binary formats; a scalar is read exactly from 32 bytes below the group order and anything else is refused with an error.",
  "inputs", "every label and every serialised input", "There are no tests of it.",
  ["indexer/src/v2/indexes.rs"], m(("label serde", "indexer/src/v2/indexes.rs: Serialize and Deserialize of Label")))
p("C23", "The first generation index records exactly the received outputs",
  "Indexing a transaction in the first generation index records exactly the outputs that scanning reports, by outpoint, with tweak and label, together with the transaction's shared secret and, in the graph, the transaction and its previous outputs, and never panics; a transaction without eligible inputs or payments leaves the index unchanged. Looking up an outpoint returns what was recorded. The bundled node source supplies, for every input in order, the output it spends.",
  "histories", "every sequence of transactions", "The indexer has no tests.",
  ["indexer/src/lib.rs"], m(("indexing", "indexer/src/lib.rs: SpIndexer::index_tx")))
p("C24", "First generation changesets convert and merge without loss",
  "Converting and merging the first generation's changesets loses nothing: after merging, the result holds every entry of both, emptiness is reported exactly when nothing is held, and applying the merged changeset equals applying both in turn.",
  "histories", "every pair of changesets", "The indexer has no tests.",
  ["indexer/src/lib.rs"], m(("changeset", "indexer/src/lib.rs: SpIndexesChangeSet")))
p("C25", "A light client's candidate scripts cover the first payment of each address",
  "From a transaction's tweak data the candidate scripts derived are exactly the taproot scripts that a first payment to the address or to each of its labelled addresses would use, so a transaction pays the wallet exactly when it has one of them. The scanner derives the same for any position asked.",
  "inputs", "every set of tweak data, keys and labels", "There are no tests of it.",
  ["indexer/src/v2/mod.rs", SP + "receive/mod.rs"], m(("candidates", "indexer/src/v2/mod.rs: derive_spks_for_tweak; silentpayments/src/receive/scan.rs: get_spks_from_tweak")))
p("C26", "Every hash uses the BIP352 tag and byte layout",
  "Input hash, shared secret hash and label hash are the tagged hashes of BIP352 with its tags, field order and integer byte order, reduced to a scalar, for all inputs.",
  "inputs", "all inputs of each hash", "Vectors fix few inputs; indices above 255 and other corner values are not sampled.",
  [SP + "hashes.rs"], m(("hashes", SP + "hashes.rs")))
p("C27", "The compact filter buffer stores each height's latest filter exactly once",
  "Filters pushed for block heights are queued with the one pushed last for a height winning; flushing writes every queued filter's contents under its height, reports precisely the heights and block hashes written, and leaves the queue empty. A push flushes by itself exactly when more than 999 heights are queued.",
  "histories", "every sequence of writes and pushes", "There are no tests of it.",
  ["oracles/src/filters/kyoto.rs"], m(("buffer", "oracles/src/filters/kyoto.rs: DatabaseBuffer")))
p("C28", "The tweak server client yields complete, verified tweak data",
  "The client of the tweak server returns, for each block asked, every tweak the server has for it and no other, and errors are reported to the caller.",
  "inputs", "every server reply", "The client needs a running server.",
  ["oracles/src/tweaks/blindbit.rs"], m(("client", "oracles/src/tweaks/blindbit.rs: tweak server client")))
p("C29", "The wallet keeps its silent payment state across restarts",
  "A wallet reloaded from its database has the same keys, birthday, indexed outputs and balance as the one that was persisted.",
  "histories", "every history of wallet operations", "The wallet crate has no tests that run here.",
  ["wallet/src"], m(("persistence", "wallet/src/lib.rs: ChangeSet")))
p("C30", "The filter subscriber forwards exactly what the node reports",
  "Whatever events the node reports, in whatever bursts they arrive, the subscriber handles each once and in order: a filter at or above the birthday is queued (one below is ignored), a full queue is flushed and its changes sent to the consumer, and a completed sync flushes the queue, sends the changes and then the tip with its height and hash; other events have no effect. The loop waits only when no event is left, and it ends only with an error: node stopped after the last event of a closed node, or channel closed as soon as the consumer is gone. It never panics on a consumer that leaves.",
  "histories", "every sequence of events, every split of it into bursts between polls, and every moment at which either end of the channels closes", "There are no tests of it, and a test would sample a few sequences of one schedule.",
  ["oracles/src/filters/kyoto.rs"], m(("event loop", "oracles/src/filters/kyoto.rs: FilterSubscriber::run")))
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(d + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
