"""What each property's check consists of: the units to prove, which of their functions and lemmas belong to
the property (globs over function keys; `lemma:NAME` for lemmas), and the replay harness."""

UNITS = {}

T_KECCAK = "keccak-256 (hasher crate): a function of the bytes, 32 bytes long"
T_HEX = "hex crate: decode/encode as specified in units/hexspec.vrs"
T_TRIE = "cita_trie::PatriciaTrie: get/insert/contains/root/from as specified in units/state.vrs (archive store; the root determines the content and back)"
T_CODEC = "ProtocolFixedCodec of ledger keys and values: decode(encode(x)) = x, distinct keys encode differently (what C12 is about)"
A_PRE = ("the executor starts with empty caches (what from_root returns) and well-formed addresses; "
         "2100 x price x number of transactions fits in u64; a nonce does not reach 2^64")
A_CELL = "Rc<RefCell<..>> is modelled by an explicit heap; a double borrow is not modelled (the harness would see the panic)"
A_IO = "completeness clauses (what must succeed) hold when the node store does not fail (io_ok)"
A_ROOT = "two different trie contents have different roots (collision freedom of keccak-256)"

T_ROCKS = "rocksdb crate: DB/ColumnFamily/WriteBatch as specified in units/rocks.vrs (a batch is written entirely or not at all, and survives a crash once written)"
T_WIRE = "wire encoding of the stored objects: decode(encode(x)) = x (what C13 is about)"
T_LOCK = "parking_lot::RwLock: lock operations are erased; each method is taken to run without interference"
A_HASHFREE = "keccak-256 does not collide on epoch headers and the two reserved keys"

LEDGER_T = [T_KECCAK, T_TRIE, T_CODEC]
LEDGER_A = [A_PRE, A_CELL, A_IO]

PROPS = {
    "C01": {
        "level": "proof",
        "note": "NativeAccountContract and the executor's transfer path are proved against contracts over an abstract ledger (account -> nonce, balances); exactness, "
                "conservation of the sum over all accounts and the effect of one whole transaction are lemmas over those contracts.",
        "theorems": ["c01_total_after", "c01_conserved", "c01_step"],
        "units": {
            "exec": ["exec::handle_transfer", "exec::dispatch", "exec::exec", "exec::get_balance", "exec::gen_invoke_ctx", "lemma:c01_*", "lemma:lemma_moved"],
            "ledger": ["Account::*"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T, "assumptions": LEDGER_A,
    },
    "C02": {
        "level": "proof",
        "note": "The executor's loop is proved to step an abstract ledger per transaction, a failed one only bumping the nonce; revert and stash of every contract's state are proved.",
        "theorems": ["c02_failed"],
        "units": {
            "exec": ["exec::exec", "exec::dispatch", "exec::revert", "exec::stash", "exec::handle_transfer", "exec::handle_deploy", "lemma:c02_*"],
            "ledger": ["Account::transfer", "Account::sub_balance*", "Bank::register"],
            "state": ["Adapter::revert_cache", "Adapter::stash", "Adapter::insert_cache"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T, "assumptions": LEDGER_A,
    },
    "C03": {
        "level": "proof",
        "note": "Receipts, fee totals and the coinbase's credit are postconditions of exec and modify_all_cycles_used, tied together by lemmas.",
        "theorems": ["c03_coinbase", "c03_totals"],
        "units": {
            "exec": ["exec::exec", "exec::modify_all_cycles_used", "exec::gen_invoke_ctx", "exec::stash", "exec::commit", "lemma:c03_*", "lemma:lemma_fee*", "lemma:lemma_totals", "lemma:lemma_credit"],
            "ledger": ["Account::add_balance*", "Account::find_or_create"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T,
        "assumptions": LEDGER_A + ["the failure text of a receipt is not specified"],
    },
    "C04": {
        "level": "proof",
        "note": "inc_nonce, stash and commit are proved; the nonce after a block is a lemma by induction over the executor's steps.",
        "theorems": ["c04_nonces"],
        "units": {
            "exec": ["exec::exec", "exec::stash", "exec::revert", "exec::commit", "exec::gen_invoke_ctx", "lemma:c04_*", "lemma:lemma_bump*"],
            "ledger": ["Account::inc_nonce", "Account::add_balance*", "Account::sub_balance*", "Account::get_nonce", "Account::find_or_create"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T, "assumptions": LEDGER_A,
    },
    "C05": {
        "level": "proof",
        "note": "consume_cycles (all u64 inputs, no overflow), the operations that call it, and the fee on each receipt.",
        "theorems": ["c05_cycles"],
        "units": {
            "exec": ["exec::exec", "exec::dispatch", "exec::handle_transfer", "exec::handle_deploy", "exec::gen_invoke_ctx", "lemma:c05_*"],
            "ledger": ["cycles::*", "Account::transfer", "Bank::register"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T, "assumptions": LEDGER_A,
    },
    "C06": {
        "level": "proof",
        "note": "NativeBankContract::register/get_asset and the deployment path, for all inputs; that other identifiers keep their records is part of the contract.",
        "theorems": ["c06_step", "lemma_reg"],
        "units": {
            "exec": ["exec::handle_deploy", "exec::dispatch", "exec::exec", "lemma:c06_*"],
            "ledger": ["Bank::*", "Account::get_nonce", "Account::get_account", "lemma:lemma_reg"],
            "state": ["Adapter::*"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T + ["ContractAddress::from_code, Hash::digest: proved in unit prim (C11)"], "assumptions": LEDGER_A,
    },
    "C07": {
        "level": "proof",
        "note": "Every function of GeneralContractStateAdapter, with loop invariants over the drained maps, against a three-layer map.",
        "theorems": [],
        "units": {"state": ["Adapter::*", "MPTTrie::*", "lemma:lemma_tput_all"]},
        "harness": "state", "secs": 8, "trusted": LEDGER_T, "assumptions": [A_IO],
    },
    "C08": {
        "level": "proof",
        "note": "Every function of RocksTrieDB against a map with atomic batches (archive and light mode), and MPTTrie against the trie's content; independence of insertion order rests on the assumed contract of cita_trie's root.",
        "theorems": ["c08_batch_read"],
        "units": {"triedb": ["RocksTrieDB::*", "lemma:*"], "state": ["MPTTrie::*"]},
        "harness": "state", "secs": 10, "trusted": [T_ROCKS, T_TRIE, T_KECCAK], "assumptions": [A_IO, A_ROOT],
    },
    "C09": {
        "level": "proof",
        "note": "create_genesis with both loops, for every genesis: Ok exactly with the declared allocation in the committed trie, Err on malformed texts.",
        "theorems": ["c09_allocation", "c09_nothing_else"],
        "units": {
            "exec": ["exec::create_genesis", "exec::stash", "exec::commit", "exec::from_root", "lemma:c09_*", "lemma:lemma_listed"],
            "ledger": ["Account::add_balance*", "Account::create_account", "Account::find_or_create", "Bank::register"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T + [T_HEX], "assumptions": LEDGER_A,
    },
    "C10": {
        "level": "proof",
        "note": "exec's contract determines receipts, totals and the committed trie content from the opened state alone (two runs agree), and from_root after exec opens exactly that state (fn reopened).",
        "theorems": ["c10_deterministic", "c10_upto", "c10_root", "c10_same_root", "reopened"],
        "units": {
            "exec": ["exec::exec", "exec::commit", "exec::stash", "exec::from_root", "exec::gen_contract_state", "native_contract::*", "lemma:c10_*", "lemma:reopened", "lemma:lemma_committed"],
            "state": ["MPTTrie::*", "Adapter::commit", "Adapter::new"],
        },
        "harness": "exec", "secs": 12, "trusted": LEDGER_T, "assumptions": LEDGER_A + [A_ROOT],
    },
    "C11": {
        "level": "proof",
        "note": "Every listed function of protocol/src/types/primitive.rs is proved against its contract for all inputs; keccak, hex and Bytes are assumed contracts.",
        "theorems": ["c11_hash_prefixed"],
        "units": {"prim": ["*"]},
        "harness": "types",
        "secs": 5,
        "trusted": [T_KECCAK, T_HEX, "rlp::NULL_RLP is the one byte 0x80"],
        "assumptions": [],
    },
}

PROPS.update({
    "C15": {
        "level": "proof",
        "note": "ImplStorage and both back ends are proved against one abstract store (category, key) -> bytes; reading back what was stored, and nothing else changing, are lemmas over those contracts.",
        "theorems": ["c15_epoch", "c15_proof", "c15_transactions", "c15_receipts"],
        "units": {"storage": ["Storage::*", "Rocks::*", "Memory::*", "rocks::*", "memory::*", "schema::*", "LATEST*", "opts_to_flat", "check_none", "get_batch", "lemma:c15_*", "lemma:lemma_*"]},
        "harness": "storage", "secs": 10, "trusted": [T_ROCKS, T_WIRE, T_LOCK, T_KECCAK, "HashMap<Vec<u8>, Vec<u8>>: a map"], "assumptions": [A_IO, A_HASHFREE],
    },
    "C16": {
        "level": "proof",
        "note": "batch_modify of both back ends, with loop invariants, against the fold of the paired operations; refusal on unequal lengths; get_batch in order.",
        "theorems": ["c16_batch"],
        "units": {"storage": ["Rocks::*", "Memory::*", "rocks::*", "memory::*", "get_batch", "lemma:c16_*", "lemma:lemma_ops", "lemma:lemma_app_push", "lemma:lemma_mem_store", "lemma:lemma_store_of"]},
        "harness": "storage", "secs": 10, "trusted": [T_ROCKS, T_WIRE, T_LOCK, "HashMap<Vec<u8>, Vec<u8>>: a map"], "assumptions": [A_IO],
    },
    "C17": {
        "level": "proof",
        "note": "Merkle's functions are proved to build, read and prove the tree over the list (static_merkle_tree by contract); that the root binds the list and proofs recompute it are lemmas by induction over that tree.",
        "theorems": ["c17_small", "c17_binds", "c17_proof", "c17_leaf"],
        "units": {"merkle": ["Merkle::*", "merge", "lemma:c17_*", "lemma:lemma_nodes", "lemma:lemma_same", "lemma:lemma_climb", "lemma:lemma_below*", "lemma:lemma_path*"], "prim": ["Hash::digest", "Hash::as_bytes"]},
        "harness": "merkle", "secs": 8,
        "trusted": [T_KECCAK, "static_merkle_tree::Tree as specified in units/merkle.vrs (a complete binary tree in an array; the path of a leaf)"],
        "assumptions": ["keccak-256 does not collide (only for: a changed element changes the root)", "changed element: lists of the same length are compared"],
    },
})

T_RLP = "rlp crate: RlpStream/Rlp as specified in units/rlp.vrs (what was appended is what is read back, a reader of a malformed item errs)"
T_PROST = "prost crate: the derived encode/decode of a message type whose tags differ are inverse and never panic (units/codec.vrs); that the tags differ is proved"
T_BIG = "num_bigint: from_bytes_be inverts to_bytes_be"

PROPS.update({
    "C12": {
        "level": "proof",
        "note": "Every rlp_append, decode, encode_fixed and decode_fixed of protocol/src/fixed_codec is proved: what is appended is the object's item, and decoding that item gives an equal object; losslessness and injectivity are theorems over those contracts, for every object.",
        "theorems": ["c12_lossless", "c12_injective"],
        "units": {"fixed": ["fixed::*", "lemma:c12_*", "lemma:lemma_*"], "prim": ["*"]},
        "harness": "codec", "secs": 10, "trusted": [T_RLP, T_BIG, T_HEX, T_KECCAK],
        "assumptions": ["a Vec, a String and a BTreeMap are determined by their contents (structural equality)", "keccak-256 does not collide (only for: the transaction hash binds every field)"],
    },
    "C13": {
        "level": "proof",
        "note": "Every From/TryFrom conversion of protocol/src/codec and the encode/decode functions over them are proved against a field-by-field correspondence; losslessness is a theorem over those contracts. That no two fields of a message share a tag is proved from the #[prost] attributes.",
        "theorems": ["c13_lossless"],
        "units": {"codec": ["codec::*", "lemma:c13_*", "lemma:prost_tags_*"], "prim": ["*"]},
        "harness": "codec", "secs": 10, "trusted": [T_PROST, T_BIG, T_KECCAK],
        "assumptions": ["a Vec, a String and a BTreeMap are determined by their contents (structural equality)"],
    },
    "C14": {
        "level": "proof",
        "note": "Every decoding function of both encodings is proved free of panics (indexing, unwrap, arithmetic, slicing, library preconditions) for arbitrary bytes, and its loops to terminate.",
        "theorems": [],
        "units": {
            "fixed": ["fixed::*::decode", "fixed::*::decode_fixed", "fixed::help_decode_raw_tx", "fixed::clean_0x", "fixed::hex_to_bytes"],
            "codec": ["codec::*::try_from", "codec::*::decode_sync", "codec::decode", "codec::ensure_len", "codec::ContractType::from"],
            "prim": ["*from_bytes*", "*from_hex*", "*digest*"],
        },
        "harness": "codec", "secs": 10, "trusted": [T_RLP, T_PROST, T_BIG, T_HEX, T_KECCAK],
        "assumptions": ["the rlp and prost crates themselves do not panic or loop on malformed input (exercised by the harness)"],
    },
})

T_TEXT = "str, String, format!, to_string and integer parsing as specified in units/text.vrs"
T_CHAN = "oneshot/mpsc channels, parking_lot::RwLock, Arc, AtomicU64 and Any::downcast as specified in units/netmsg.vrs"
A_SEQ = "concurrent calls are not modelled by the proof (each table operation is one step); the harness runs threads against each other"

PROPS.update({
    "C23": {
        "level": "proof",
        "note": "Every function of core/network/src/endpoint.rs is proved against a specification of splitting, schemes, roots and decimal ids over arbitrary strings; equality of roots and of the first three components, and extension by an id, are theorems over those contracts.",
        "theorems": ["c23_extend", "c23_root"],
        "units": {"endpoint": ["Endpoint::*", "RpcEndpoint::*", "RpcId::*", "Endpoint@*", "RpcEndpoint@*", "*SCHEME*", "MAX_*", "lemma:c23_*", "lemma:lemma_*"]},
        "harness": "network", "secs": 6, "trusted": [T_TEXT, "a hash map's hasher sees only what Hash::hash feeds it"], "assumptions": [],
    },
    "C24": {
        "level": "proof",
        "note": "RpcMap, NetworkRpc::call/response and Reactor::react are proved over a ghost record of ids, waiting calls, channels and messages; that a new call never displaces another, that an answer reaches only its own call, once, and only with its type, are theorems over those contracts.",
        "theorems": ["c24_fresh", "c24_answer", "c24_found"],
        "units": {
            "netmsg": ["RpcMap::*", "Context*", "NetworkRpc*", "Reactor::*", "NetworkMessage::*", "lemma:c24_*", "lemma:lemma_keys", "lemma:lemma_prost", "lemma:prost_tags_*"],
            "endpoint": ["Endpoint::extend", "Endpoint@*", "RpcEndpoint::*", "RpcEndpoint@*", "RpcId::value", "Endpoint::scheme", "lemma:c23_extend"],
        },
        "harness": "network", "secs": 8, "trusted": [T_CHAN, T_TEXT, T_PROST, "creep::Context: typed values under names"],
        "assumptions": [A_SEQ, "fewer than 2^64 calls are made", "the compression undoes itself (checked by the harness of C25)", "what others do while a call waits is not part of that call's contract"],
    },
    "C25": {
        "level": "proof",
        "note": "Framing, sending (rpc and gossip), routing, handling and the embedded single-object serialisation are proved to hand on url, content and bytes unchanged. Compressing and decompressing are proved to use the snap crate's stream format both ways and to refuse what does not unpack. serde_multi is outside the verifier's reach (serde visitors generated inside functions) and is checked by bounded runs of the real code, as is the absence of crashes inside bincode, prost and snap on corrupt input.",
        "theorems": ["c25_framed", "c25_value"],
        "units": {
            "netmsg": ["NetworkMessage::*", "NetworkGossip*", "NetworkRpc*", "MessageRouter::*", "Reactor::*", "Snappy*", "serde::*", "BytesVisit*", "T@MessageCodec*", "lemma:c25_*", "lemma:lemma_prost", "lemma:prost_tags_*"],
            "endpoint": ["Endpoint::*", "Endpoint@*", "RpcEndpoint@*"],
        },
        "harness": "network", "secs": 10, "trusted": [T_CHAN, T_TEXT, T_PROST, "bincode and serde derive: reading inverts writing", "snap: a finished frame reads back, what is no frame is an error; std::io::copy between memory"],
        "assumptions": ["serde_multi::serialize/deserialize: bounded (lists up to the generator's lengths), not proved", A_SEQ],
    },
})

T_QUEUE = "crossbeam ArrayQueue, std atomics and HashMap: a bounded queue, a cell, a map"
T_CRYPTO = "Crypto::verify_signature and the hash of a transaction's fixed encoding: functions of their arguments (the latter C12's subject)"
T_STORE = "Storage: reading a transaction by hash fails with `GetNone` exactly when none is stored (C15's subject)"
T_POOLNET = "gossip, rpc, the runtime and the futures channels: a record of what went in and out; a task that is spawned runs, select! may take any arm"
T_PULL = "network, broadcasting and pull_txs: answer anything, touch nothing of the pool"
POOL_A = [A_SEQ + "; the concurrent case is run by the harness with real threads (bounded)",
          "latest height + timeout gap fits in u64; 0 < pool size <= usize::MAX / 4",
          "rayon's parallel iteration over transactions is read as an iteration in order; the order matters to nothing it does"]

PROPS.update({
    "C18": {
        "level": "proof",
        "note": "Insertion, the checks on a submitted and on a pulled transaction, the adapter's own three checks, the handler of transactions heard from peers and the broadcaster are proved against contracts over the pool's content (hash -> transaction, two queues, the removal marks): what enters, when, and that a refusal changes nothing.",
        "theorems": ["lemma_inserted", "lemma_grown"],
        "units": {"mempool": ["HashMemPool@MemPool::insert", "HashMemPool::check_pulled_tx", "HashMemPool::sync_propose_txs", "HashMemPool::ensure_order_txs", "HashMemPool::new",
                              "TxCache::insert*", "TxCache::check_*", "TxCache::contain", "TxCache::get", "TxCache::len", "TxCache::queue_len", "TxCache::get_queue_role", "TxCache::new",
                              "TxWrapper::*", "Map::*", "Bucket::*", "get_index", "DefaultMemPoolAdapter@*",
                              "lemma:lemma_inserted", "lemma:lemma_grown", "lemma:lemma_agree_append", "lemma:lemma_append", "lemma:lemma_pool", "lemma:lemma_idx", "lemma:lemma_upto*", "lemma:lemma_one", "lemma:lemma_fresh"],
                  "poolnet": ["Context@TxContext::*", "NewTxsHandler*", "DefaultMemPoolAdapter@MemPoolAdapter::broadcast_tx", "AdapterError@*", "IntervalTxsBroadcaster::*"]},
        "harness": "mempool", "secs": 10, "trusted": [T_KECCAK, T_QUEUE, T_CRYPTO, T_STORE, T_PULL, T_LOCK, T_POOLNET], "assumptions": POOL_A,
    },
    "C19": {
        "level": "proof",
        "note": "TxCache::package, process_omission_txs and the two queue roles are proved against a specification of the packaging of a queue; that both lists are disjoint, distinct, pooled, unexpired, in insertion order, within the limit, hold no foreign proposal, and that packaging again gives the same answer, is a theorem over those contracts.",
        "theorems": ["theorem_package", "lemma_cut", "lemma_pack"],
        "units": {"mempool": ["HashMemPool::package", "TxCache::package", "TxCache::process_omission_txs", "TxCache::get_queue_role", "TxCache::switch_queue_role", "TxCache::insert*", "TxCache::queue_len",
                              "TxWrapper::*", "Stage::next", "Map::deletes", "Map::remove", "Map::contains_key", "Map::len", "Bucket::deletes", "Bucket::remove",
                              "DefaultMemPoolAdapter@MemPoolAdapter::get_latest_epoch_id",
                              "lemma:theorem_package", "lemma:lemma_*"]},
        "harness": "mempool", "secs": 10, "trusted": [T_KECCAK, T_QUEUE, T_LOCK], "assumptions": POOL_A,
    },
    "C20": {
        "level": "proof",
        "note": "get_full_txs, ensure_order_txs, show_unknown, flush and the bucketed map are proved exact against the pool's content; so are the question to a peer for missing transactions and the answer to one.",
        "theorems": ["lemma_flushed", "lemma_pool"],
        "units": {"mempool": ["HashMemPool::get_full_txs", "HashMemPool::ensure_order_txs", "HashMemPool::sync_propose_txs", "HashMemPool::flush", "HashMemPool::check_pulled_tx", "TxCache::show_unknown", "TxCache::flush", "TxCache::process_omission_txs",
                              "TxCache::get", "TxCache::contain", "TxCache::insert*", "TxCache::len", "TxCache::queue_len", "TxCache::get_queue_role", "TxWrapper::*", "Map::*", "Bucket::*", "get_index",
                              "lemma:lemma_flushed", "lemma:lemma_pool", "lemma:lemma_idx", "lemma:lemma_upto*", "lemma:lemma_one", "lemma:lemma_fresh", "lemma:lemma_keep_in", "lemma:lemma_agree_*", "lemma:lemma_grown", "lemma:lemma_map_*"],
                  "poolnet": ["PullTxsHandler*", "DefaultMemPoolAdapter@MemPoolAdapter::pull_txs"]},
        "harness": "mempool", "secs": 10, "trusted": [T_KECCAK, T_QUEUE, T_PULL, T_LOCK, T_POOLNET], "assumptions": POOL_A,
    },
})

PROPS.update({
    "C26": {
        "level": "proof",
        "note": "Every function of peer.rs, Inner and UnknownAddr and all of PeerManager's but poll, handle, enable_persistence and drop are proved: process_event keeps the book's invariant and does to it what its event calls for, for every state and event. What the statement says of indexes, removals, ended sessions, retries and unknown addresses are theorems over those contracts.",
        "theorems": ["c26_kept", "c26_ended", "c26_removed", "c26_retried", "c26_unknown"],
        "units": {"peers": ["PeerState::*", "Peer::*", "duration_since", "Inner::*", "UnknownAddr*", "Multiaddr@*", "multi_addr_ip", "PeerManager::*", "PeerManagerHandle::*", "MAX_RETRY_COUNT", "ALIVE_RETRY_INTERVAL", "BACKOFF_BASE", "VALID_ATTEMPT_INTERVAL", "lemma:c26_*", "lemma:lemma_*"]},
        "harness": "peers", "secs": 12,
        "trusted": ["tentacle's PeerId, PublicKey, Multiaddr and Protocol: a key has one peer id and one user address, different keys different ones; an address is its components",
                    "HashMap, HashSet, Vec, Option, Duration, Instant and SystemTime as specified in units/peers.vrs; choose_multiple picks that many different items",
                    "futures' mpsc and oneshot senders: a record of what was sent", T_LOCK],
        "assumptions": [A_SEQ, "no event names the node's own peer id, and a session id that is attached is not in use (tentacle numbers sessions)",
                        "clocks show less than 2^62 s; no collection is longer than usize::MAX / 4",
                        "the AtomicBool an unknown address shares is not followed by the proof: which unknown addresses are being dialed is checked by the harness (bounded)",
                        "PeerManager::poll, Drop and the peer file (persist.rs): bounded, run by the harness, not proved"],
    },
})

NOT_APPLICABLE = {}

T_OVERLORD = "overlord crate: the consensus messages, Proof and Commit are carried as they are; a handler's messages reach it (units/cons.vrs)"
T_BINCODE = "bincode/serde of the announced id and of lists of hashes and transactions: reading inverts writing, what cannot be read is an error"
T_SIG = "common_crypto: Secp256k1 signing and verification are functions of key, hash and signature bytes; what is not a key or a signature is an error"
T_API = "juniper, tide: a resolver is called with the texts of the request, its value or error is what the client sees; common_crypto signing is a function of key and hash; str::to_uppercase keeps the value of hex digits; u64::from_str_radix reads what it documents (units/api.vrs)"
T_ADAPT = "what an adapter call returns: mempool (C18-C20), storage (C15, C16), executor (C01-C10); a peer may answer anything"
A_TRY = "a lock that try_lock finds free is held until the function returns (the lifetime of the guard is checked by the harness, which re-enters the engine in the middle of every step)"
CONS_H = [A_SEQ, A_TRY]

PROPS.update({
    "C21": {
        "level": "proof",
        "note": "ConsensusEngine::commit, update_status, exec, get_epoch and check_epoch, and every method of the node's adapter, are proved against contracts over a ghost record of what was asked of mempool, executor and storage, in order; that the next proposal extends the epoch committed and repeats what its execution left is a theorem over those contracts.",
        "theorems": ["c21_next"],
        "units": {"cons": ["ConsensusEngine::*", "OverlordConsensusAdapter@*", "covert_to_overlord_authority", "MixedTxHashes::clap", "FixedPill::*", "FixedEpochID::new", "FixedSignedTxs::new", "lemma:c21_*", "lemma:lemma_bytes_eq", "lemma:lemma_hashes"],
                  "merkle": ["Merkle::from_hashes", "Merkle::get_root_hash", "merge"], "prim": ["Hash::digest", "Hash::as_bytes", "Hash::from_empty", "Hash::from_bytes"]},
        "harness": "consensus", "secs": 10, "trusted": [T_KECCAK, T_OVERLORD, T_ADAPT, T_BINCODE], "assumptions": CONS_H,
    },
    "C22": {
        "level": "proof",
        "note": "OverlordConsensus::update_epoch is proved, for every announcement, every answer of a peer and every failing step, to have saved a chain that extends the local one and to leave the status the last epoch saved calls for; the loop invariant holds for any number of epochs.",
        "theorems": ["c22_chain", "c22_status"],
        "units": {"cons": ["OverlordConsensus::*", "check_txs", "ConsensusEngine::*", "OverlordConsensusAdapter@*", "covert_to_overlord_authority", "gen_overlord_status", "RichEpochIDMessageHandler*", "PullTxsRequest::new", "FixedEpochID::new", "lemma:c22_*", "lemma:lemma_*"],
                  "merkle": ["Merkle::from_hashes", "Merkle::get_root_hash", "merge"], "prim": ["Hash::digest", "Hash::as_bytes", "Hash::from_empty", "Hash::from_bytes"]},
        "harness": "consensus", "secs": 10, "trusted": [T_KECCAK, T_OVERLORD, T_ADAPT, T_BINCODE], "assumptions": CONS_H + ["check_proof accepts every proof, as the code does (DESIGN.md, known limits)"],
    },
    "C27": {
        "level": "proof",
        "note": "The node's answers to pull requests, the reading and writing of answers, the signer's hash, sign and verify, and both ends of the gossip of proposals, votes and proofs are proved; that one hears what the other sent is a theorem over those contracts.",
        "theorems": ["c27_gossip"],
        "units": {"cons": ["OverlordConsensus::set_*", "ConsensusEngine::broadcast_to_other", "ConsensusEngine::transmit_to_relayer", "ProposalMessageHandler*", "VoteMessageHandler*", "QCMessageHandler*", "lemma:c27_*", "RpcHandler::process", "ConsensusRpcResponse@*", "OverlordCrypto::*", "OverlordCrypto@*", "FixedSignedTxs::new", "PullTxsRequest::new", "FixedEpochID::new", "OverlordConsensusAdapter@ConsensusAdapter::pull_epoch", "OverlordConsensusAdapter@ConsensusAdapter::pull_txs", "OverlordConsensusAdapter@ConsensusAdapter::transmit"],
                  "prim": ["Hash::from_bytes", "Hash::as_bytes", "Hash::digest", "UserAddress::from_bytes"]},
        "harness": "consensus", "secs": 10, "trusted": [T_KECCAK, T_OVERLORD, T_SIG, T_CODEC, T_BINCODE], "assumptions": [A_SEQ, "overlord's own RLP of proposals, votes and proofs reads back what it wrote; the absence of panics inside bincode and rlp on malformed bytes is bounded, not proved"],
    },
    "C28": {
        "level": "proof",
        "note": "Every resolver, conversion and the adapter behind them are proved against what the texts denote; the language itself (juniper) and the server (tide) are outside.",
        "theorems": ["lemma_text", "lemma_same_raw"],
        "units": {"api": ["*"],
                  "prim": ["Hash::from_hex", "Hash::as_hex", "Hash::digest", "Hash::from_bytes", "Hash::as_bytes", "Address::from_hex", "Address::as_hex", "Address::from_bytes", "UserAddress::from_hex", "UserAddress::from_bytes", "UserAddress::as_hex", "clean_0x"]},
        "harness": "api", "secs": 10, "trusted": [T_KECCAK, T_HEX, T_BIG, T_API], "assumptions": [A_SEQ, "the adapter the resolvers are given is the one the node makes (dyn APIAdapter); what the pool, the storage and the executor answer is C18, C15 and C01-C10"],
    },
    "C29": {
        "level": "proof",
        "note": "handle_init and start are proved to begin the chain and to put the node together as the configuration says; the parts' constructors are recorded models, and main's argument parsing is run by the harness only.",
        "theorems": ["lemma_apart"],
        "units": {"node": ["*"],
                  "prim": ["Hash::from_hex", "Hash::digest", "Hash::from_empty", "UserAddress::from_hex", "UserAddress::from_pubkey_bytes", "clean_0x"]},
        "harness": "node", "secs": 10, "trusted": [T_KECCAK, T_HEX, "the constructors of the parts (storage, state, executor, network, pool, consensus, interface) keep what they are given: what the parts then do is C07-C10, C15, C18-C28"], "assumptions": [A_SEQ, "the latest epoch's height is below 2^64 - 1", "an error's text contains GetNone just when there is nothing stored (the harness runs the real storage)"],
    },
    "C30": {
        "level": "proof",
        "note": "The keeper, the controls, the requests, the reports of the protocols and the message protocol are proved over recorded channels and a recorded transport; so is how a node's network service is put together (NetworkService, CoreProtocolBuilder, every constructor) and its configuration (NetworkConfig). The service's poll loop, the builder closures of build_meta, NetworkConfig::bootstraps and nodes linked to each other are run by the harness.",
        "theorems": [],
        "units": {"conn": ["*"], "netconf": ["*"], "netsrv": ["*"]},
        "harness": "conn", "secs": 12, "trusted": ["tentacle's service, its sessions and its wire", "futures' channels: what is sent is received in order, an unbounded channel is never full"], "assumptions": [A_SEQ, "connections are encrypted, so a session's remote key is known"],
    },
})
