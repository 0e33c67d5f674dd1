"""Which contracts decide which property."""
PROPS = {
    "C01": ["scan_txouts", "Scanner.new", "Scanner.scan_txouts", "Scanner.scan_tx", "Scanner.get_shared_secret", "get_shared_secret", "compute_shared_secret", "lemma.report-matches"],
    "C02": ["scan_txouts", "Scanner.scan_txouts", "Scanner.scan_tx", "Scanner.get_shared_secret", "get_silentpayment_script_pubkey", "get_shared_secret", "compute_shared_secret", "lemma.report-matches", "lemma.payment-matches", "lemma.all-payments-found"],
    "C03": ["compute_tweak_data", "LexMin.update", "LexMin.bytes", "extract_pubkey", "tag_txin", "get_input_hash", "compute_shared_secret", "Scanner.get_shared_secret"],
    "C04": ["tag_txin", "extract_pubkey"],
    "C05": ["create_silentpayment_partial_secret", "compute_tweak_data", "LexMin.update", "LexMin.bytes", "extract_pubkey", "tag_txin", "get_input_hash", "compute_shared_secret", "Scanner.get_shared_secret", "lemma.eligible-key", "lemma.key-sums-agree", "lemma.same-secret", "lemma.same-secret-recipient", "lemma.minimum"],
    "C06": ["create_silentpayment_scriptpubkeys", "get_shared_secret", "compute_shared_secret", "get_silentpayment_script_pubkey", "lemma.pay-step"],
    "C07": ["LexMin.update", "LexMin.bytes", "lemma.minimum"],
    "C08": ["code.new_v0", "code.version", "code.fmt", "code.parse", "lemma.code-roundtrip"],
    "C09": ["code.parse"],
    "C10": ["get_label_tweak", "code.get_label", "code.add_label", "code.new_v0", "v2.create_label", "v2.label_from", "v2.index_label", "v2.get_label", "v1.get_label", "v2.get_address", "v2.add_label", "v2.get_labeled_address", "v1.add_label", "lemma.label-recognised", "lemma.payment-matches"],
    "C11": ["code.placeholder", "lemma.placeholder"],
    "C12": ["psbt.update_outputs", "psbt.derive_sp", "code.placeholder", "create_silentpayment_scriptpubkeys", "get_shared_secret", "compute_shared_secret", "lemma.placeholder"],
    "C13": ["psbt.collect_input_data", "psbt.derive_sp", "psbt.prevout", "psbt.full_txin", "psbt.taproot_secret", "psbt.other_secret", "psbt.sp_secret", "psbt.parse_sp_data", "psbt.output_key", "extract_pubkey", "tag_txin", "LexMin.update", "LexMin.bytes", "lemma.extract-kind", "lemma.psbt-owns", "lemma.psbt-owns-sp", "lemma.psbt-sum-frame", "lemma.psbt-sum", "lemma.minimum"],
    "C14": ["psbt.sign_sp", "psbt.add_sp_data", "psbt.parse_sp_data", "psbt.output_key", "lemma.signature-verifies", "lemma.signs-usable", "lemma.psbt-owns-sp"],
    "C15": ["Xpriv.send_to", "Xpriv.new", "create_silentpayment_partial_secret", "create_silentpayment_scriptpubkeys", "get_input_hash", "get_shared_secret", "compute_shared_secret", "LexMin.update", "LexMin.bytes", "lemma.minimum"],
    "C16": ["SpSender.send_to", "SpSender.new", "create_silentpayment_partial_secret", "create_silentpayment_scriptpubkeys", "get_input_hash", "get_shared_secret", "compute_shared_secret", "LexMin.update", "LexMin.bytes", "lemma.minimum"],
    "C17": ["dleq.verify"],
    "C18": ["dleq.generate", "dleq.verify", "lemma.dleq-complete"],
    "C19": ["v2.index_tx", "v2.index_spout", "v2.index_partial_secret", "v2.get_by_script", "v2.get_by_label", "v2.txouts_in_tx", "v2.by_xonly", "v2.get_label", "SpOut.to_txout", "SpOut.to_meta", "scan_txouts", "get_shared_secret", "get_silentpayment_script_pubkey", "compute_shared_secret", "lemma.report-matches", "lemma.index-adds", "lemma.index-last-script", "lemma.index-twice", "lemma.scripts-listable"],
    "C20": ["v2.apply_block", "v2.apply_block_relevant", "v2.batch_insert_relevant", "v2.batch_insert_relevant_unconfirmed", "v2.batch_insert_unconfirmed", "v2.batch_insert_relevant_evicted_at", "v2.is_tx_relevant", "v2.index_tx", "v2.index_spout", "v2.index_partial_secret", "v2.merge", "v2.insert_anchor", "v2.insert_seen_at", "v2.insert_evicted_at", "scan_txouts", "compute_shared_secret", "lemma.index-adds", "lemma.index-grows", "lemma.own-output-relevant", "lemma.block-records-all", "lemma.block-records-relevant", "lemma.block-tweaks", "lemma.anchors-recorded", "lemma.batch-records-relevant", "lemma.fold-prefix", "lemma.batch-unconfirmed"],
    "C21": ["v2.new", "v2.try_from", "v2.apply_changeset", "v2.index_label", "v2.create_label", "v2.add_label", "v2.label_from", "v2.initial_changeset", "v2.merge", "v2.is_empty", "v2.index_tx", "v2.index_spout", "v2.index_partial_secret", "v2.apply_block", "v2.apply_block_relevant", "v2.batch_insert_relevant", "v2.batch_insert_relevant_unconfirmed", "v2.batch_insert_unconfirmed", "v2.batch_insert_relevant_evicted_at", "v2.insert_anchor", "v2.insert_seen_at", "v2.insert_evicted_at", "v2.is_tx_relevant", "scan_txouts", "compute_shared_secret", "lemma.index-adds", "lemma.index-grows", "lemma.own-output-relevant", "lemma.scripts-listable", "lemma.batch-records-relevant", "lemma.batch-unconfirmed", "lemma.fold-prefix", "lemma.anchors-recorded", "lemma.index-set", "lemma.index-keeps-invariant", "lemma.scan-by-id", "lemma.same-data-same-index", "lemma.label-keeps-invariant", "lemma.labels-restored", "lemma.tweaks-restored", "lemma.history-step", "lemma.merge-groups", "lemma.block-keeps-tweaks", "lemma.reported-is-relevant", "lemma.relevance-grows", "lemma.batch-keeps-tweaks"],
    "C22": ["v2.label_write", "v2.label_read", "v2.scalar_write", "v2.scalar_read", "lemma.label-roundtrip"],
    "C23": ["v1.index_tx", "v1.node_prevouts", "v1.txout", "v1.txouts_in_tx", "v1.spends_owned_spouts", "Scanner.get_shared_secret", "Scanner.scan_txouts", "scan_txouts", "compute_tweak_data", "LexMin.update", "LexMin.bytes", "extract_pubkey", "tag_txin", "get_input_hash", "compute_shared_secret", "get_shared_secret", "get_silentpayment_script_pubkey", "SpOut.to_txout", "lemma.report-matches", "lemma.v1-adds", "lemma.v1-graph", "lemma.scripts-listable"],
    "C24": ["v1.merge", "v1.is_empty", "v1.to_changeset", "v1.from_changeset", "lemma.v1-merge"],
    "C25": ["v2.derive_spks_for_tweak", "Scanner.get_spks_from_tweak", "get_silentpayment_script_pubkey", "get_shared_secret", "compute_shared_secret", "lemma.candidates-match"],
    "C26": ["get_label_tweak", "get_input_hash", "get_shared_secret"],
    "C27": ["kyoto.write_queue", "kyoto.push_filter", "lemma.latest-filter-wins"],
    "C30": ["kyoto.run_started", "kyoto.run_resumed", "kyoto.write_queue", "kyoto.push_filter"],
}
# properties whose obligations cover every function they depend on: claimed as proof
PROOF = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C30"}
NOREPLAY = set()
LEVEL_TXT = {}
NA = {
    "C28": "the client is asynchronous network code: its obligations are about futures, a tokio runtime and a remote server's replies, for which no contract within the engine's reach can be stated",
    "C29": "the wallet crate cannot be built here (its dependencies are not available offline), so there is no compiled code to put under contract",
}
