#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a table because JSON lines are hard to edit)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
EX='core/executor/src/'
p('C01','Transfers move exactly the carried amount and never create or destroy assets',
  "A successful transfer debits the sender and credits the receiver by exactly the carried amount of the carried asset (a transfer to oneself changes nothing), and no other account or asset balance changes. A transfer that carries more than the sender holds fails. Hence the sum over all accounts of every asset's balance is the same before and after any transfer.",
  ['inputs','histories'],'every ledger state, every pair of accounts (users and contracts), every asset and every amount, including zero, the full balance and amounts beyond 64 bits',
  'The one account test moves 1000 of 10000 between two distinct users; it never tries an overdraft, a self transfer, a contract account, an absent asset or a second asset.',
  [EX+'native_contract/account.rs',EX+'lib.rs'],[('transfer, sub_balance*, add_balance*',EX+'native_contract/account.rs'),('handle_transfer',EX+'lib.rs')],
  ['balances read back after the call','the transfer receipt (before and after amounts)'],[('account','nonce and per-asset balances of one address',EX+'native_contract/account.rs')])
p('C02','A failed transaction leaves the ledger as if it had not run',
  "When a transaction of a block fails, for whatever reason and at whatever step, none of its balance or registry effects is visible to later transactions or in the committed state; only its nonce bump remains. The transactions before and after it take effect exactly as they would have in a block without it, and its receipt says it failed.",
  ['inputs','histories'],'every block of transfers and asset registrations, every failing position and every failure cause (unknown asset, unknown sender, overdraft, out of cycles, duplicate registration)',
  'No test executes a block at all; the only revert test clears one key of one adapter.',
  [EX+'lib.rs',EX+'adapter/contract.rs',EX+'native_contract/account.rs',EX+'native_contract/bank.rs'],[('exec: stash on success, revert on failure',EX+'lib.rs'),('revert_cache, stash',EX+'adapter/contract.rs')],
  ['receipts','balances through a reopened executor','state root'],[('cache layer','uncommitted writes of the running transaction',EX+'adapter/contract.rs')])
p('C03','One receipt per transaction, and fee totals that match the receipts',
  "Executing a block yields exactly one receipt per transaction, in order, each carrying that transaction's hash, the block's height, the final state root and a fee equal to the cycles it used times the cycle price, in the fee asset it named. The reported fee totals hold one entry per fee asset equal to the sum of the receipts' fees in it, and the block's coinbase is credited with exactly those totals in the committed state.",
  ['inputs','histories'],'every block, every mix of fee assets and every cycle price for which the products fit 64 bits',
  'No test calls block execution or the fee aggregation.',
  [EX+'lib.rs'],[('exec receipt construction and coinbase reward',EX+'lib.rs'),('modify_all_cycles_used',EX+'lib.rs')],['the execution response','coinbase balance after reopening at the returned root'])
p('C04','Every executed transaction bumps its sender nonce exactly once, durably',
  "After a block is executed the stored nonce of each sender that has an account equals its nonce before the block plus the number of that sender's transactions in the block, whether they succeeded or failed, and this survives reopening the ledger at the returned state root. Nothing else changes a nonce.",
  ['inputs','histories'],'every block, any interleaving of senders and of failing and succeeding transactions',
  'No test reads a nonce.',
  [EX+'lib.rs',EX+'native_contract/account.rs'],[('inc_nonce and its place relative to stash/commit',EX+'lib.rs')],['the contract address of a later deployment (a function of sender nonce)','the stored account'])
p('C05','Cycle metering: fixed price per operation and a hard limit',
  "A transfer consumes exactly 210 cycles and an asset registration exactly 2100; the consumption recorded for a transaction is what its successful operations cost. A transaction whose consumption would exceed the cycle limit it declares fails, one that exactly reaches it does not, and no limit or prior consumption makes the meter wrap around.",
  ['inputs'],'every operation, prior consumption and limit in the full 64-bit range',
  'Tests use one limit of 1,000,000 and never reach it.',
  [EX+'cycles.rs',EX+'native_contract/account.rs',EX+'native_contract/bank.rs'],[('consume_cycles',EX+'cycles.rs')],['receipts','success or failure at the boundary'])
p('C06','Asset registry: deterministic ids, no duplicates, faithful lookup',
  "Registering an asset under an asset-contract address stores it under the identifier that is the digest of chain id followed by that address, refuses any other kind of address, and refuses an identifier that already exists without altering the stored asset. Looking an asset up returns exactly the name, symbol, supply and manager it was registered with, and an unregistered identifier is reported as missing. A deployment registers under the address derived from its code and the sender's current nonce.",
  ['inputs','histories'],'every chain id, address, name, symbol, supply and every sequence of registrations',
  'One registration and one duplicate are tried, with a single address and chain id.',
  [EX+'native_contract/bank.rs',EX+'lib.rs','protocol/src/types/primitive.rs'],[('register, get_asset',EX+'native_contract/bank.rs'),('handle_deploy',EX+'lib.rs'),('ContractAddress::from_code','protocol/src/types/primitive.rs')],['registered asset and lookup results'])
p('C07','Layered contract state: latest write wins, revert and commit are exact',
  "A read of contract state returns the most recent value written for that key among the running transaction, the earlier transactions of the block and the committed trie, in that order. Reverting discards exactly the running transaction's writes; stashing makes exactly them part of the block; committing makes exactly the stashed values part of the trie; none of these touches any other key.",
  ['inputs','histories'],'every sequence of insert, get, contains, revert, stash and commit over arbitrary keys and values',
  'Two tests use a single key and a single fixed sequence each.',
  [EX+'adapter/contract.rs'],[('get, contains, insert_cache, revert_cache, stash, commit',EX+'adapter/contract.rs')],['get and contains after each operation','trie content after commit'],
  [('cache_map / stash_map / trie','three layers of the state view',EX+'adapter/contract.rs')])
p('C08','State trie and node store keep what they are given',
  "The state trie returns for each key the last value inserted, also after commit and after reopening at the returned root, and its root depends only on the content, not on insertion order. The node store returns what was stored, writes a batch entirely or rejects it when the numbers of keys and values differ, and in archive mode never drops a node, so every earlier root stays readable; in light mode removal removes exactly the named nodes.",
  ['inputs','histories','crash_points'],'every sequence of inserts, batches, removals, commits and reopenings',
  'Three trie tests use one or two keys on an in-memory store; the RocksDB node store has no test.',
  [EX+'trie/mod.rs',EX+'trie/trie_db.rs'],[('MPTTrie get/contains/insert/commit/from',EX+'trie/mod.rs'),('insert_batch, remove, remove_batch',EX+'trie/trie_db.rs')],['values read back by key and by root'])
p('C09','Genesis state is exactly the declared allocation',
  "Building the genesis state registers the declared system asset and gives every allocated address exactly the balances the genesis lists for it (amounts listed more than once add up), and nothing else; a malformed address, asset id, balance or code is refused with an error. The result is persisted: reopening at the returned root shows the same state.",
  ['inputs'],'every genesis document, including duplicate addresses and assets, empty allocations and malformed hex',
  'No test builds a genesis state.',
  [EX+'lib.rs','protocol/src/types/genesis.rs'],[('create_genesis',EX+'lib.rs')],['balances and registry after reopening at the genesis root'])
p('C10','Block execution is deterministic and resumable from its state root',
  "Executing the same block from the same state root always yields the same receipts, fee totals and state root, on any node and in any process. Executing two blocks one after the other, reopening the ledger at the intermediate root in between, gives the same result as any other node that does so, and each returned root describes exactly the state the block produced.",
  ['inputs','histories'],'every block and every sequence of blocks; every iteration order of the internal hash maps',
  'No test executes a block, and a single run samples a single hash-map order.',
  [EX+'lib.rs',EX+'adapter/contract.rs',EX+'trie/mod.rs'],[('commit of each contract root into the world trie, from_root',EX+'lib.rs'),('commit drains the stash',EX+'adapter/contract.rs')],['state root','receipts'])
p('C11','Hashes and addresses parse strictly and format losslessly',
  "A 32-byte hash and a 21-byte address survive formatting to bytes or hex (with or without the 0x prefix) and parsing back, and every input of another length, with non-hex characters or with an address type byte other than user, asset, app, library or native is refused. The type byte decides the kind of address. Addresses derived from a public key or from contract code and nonce are the type byte followed by the first 20 bytes of the digest, so equal inputs give equal addresses.",
  ['inputs'],'every byte string and every string',
  'Three sampled values are parsed; no rejected input is tried.',
  ['protocol/src/types/primitive.rs'],[('Hash::from_bytes/from_hex, Address/UserAddress/ContractAddress::from_bytes/from_hex/from_pubkey_bytes/from_code, check_address, clean_0x','protocol/src/types/primitive.rs')],['parsed values and errors'])
p('C12','Canonical encoding is lossless and injective',
  "Every ledger object (transactions of every action kind, receipts of every result kind, epochs, proofs, pills, validators, accounts, assets, fees, balances, addresses, hashes, genesis) decodes from its canonical encoding back to an equal object. Two different objects of the same kind never share an encoding, so a transaction hash binds every field of the transaction.",
  ['inputs'],'every value of every type, including empty collections, zero and maximal integers, arbitrary-precision amounts and empty byte strings',
  'The tests decode a handful of random values per type, with non-zero fields and one shape each, and compare only re-encoded bytes.',
  ['protocol/src/fixed_codec/transaction.rs','protocol/src/fixed_codec/receipt.rs','protocol/src/fixed_codec/epoch.rs','protocol/src/fixed_codec/primitive.rs','protocol/src/fixed_codec/genesis.rs'],[('rlp::Encodable / rlp::Decodable impls','protocol/src/fixed_codec/'),('encode_fixed, decode_fixed','protocol/src/fixed_codec/mod.rs')],['decode_fixed(encode_fixed(x))','transaction hash'])
p('C13','Wire and storage encoding is lossless',
  "Every object exchanged with peers or written to the database (transactions of every action kind, receipts of every result kind, epochs, proofs, pills, validators, hashes, balances, addresses, bloom filters) decodes from its protobuf encoding to an equal object.",
  ['inputs'],'every value of every type, including every contract kind, empty collections and extreme integers',
  'Tests round-trip a few random values with one contract kind.',
  ['protocol/src/codec/transaction.rs','protocol/src/codec/receipt.rs','protocol/src/codec/epoch.rs','protocol/src/codec/primitive.rs','protocol/src/codec/mod.rs'],[('From/TryFrom conversions between protocol and protobuf types','protocol/src/codec/')],['decode(encode(x))'])
p('C14','Malformed bytes are refused with an error, never a crash',
  "Decoding arbitrary bytes as any ledger object, in the canonical or the wire encoding, returns either an object or an error; it never panics and never loops.",
  ['inputs'],'every byte string, in particular truncated, over-long and type-confused encodings',
  'No test feeds a decoder anything but its own encoder output.',
  ['protocol/src/fixed_codec/','protocol/src/codec/'],[('Decodable impls, TryFrom impls, field!','protocol/src/')],['decode results on hostile bytes'])
p('C15','Chain storage returns exactly what was stored, by every key',
  "A stored epoch can be read back by its height and by its hash and the epoch of greatest height most recently stored is the latest one; transactions, receipts and the latest proof read back equal to what was stored under their hash; several hashes are answered in request order. What was never stored is reported as missing, different kinds of object never shadow each other, and this holds for the persistent and for the in-memory back end.",
  ['inputs','histories'],'every sequence of insertions and reads, with colliding keys across kinds',
  'Each test inserts one batch of one kind and reads it back once on the in-memory back end.',
  ['core/storage/src/lib.rs','core/storage/src/adapter/memory.rs','core/storage/src/adapter/rocks.rs'],[('ImplStorage insert/get functions and schemas','core/storage/src/lib.rs'),('MemoryAdapter / RocksAdapter','core/storage/src/adapter/')],['values and errors read back'])
p('C16','Storage batches are all-or-nothing and keep key and value together',
  "A batch of database writes binds the i-th value to the i-th key and removes exactly the keys marked for removal; a batch whose numbers of keys and values differ is refused and changes nothing. Reading a batch of keys answers each key independently and in order.",
  ['inputs','crash_points'],'every batch, including empty ones, duplicates and mixed inserts and removals, on both back ends',
  'One batch of inserts of distinct keys is tried.',
  ['core/storage/src/adapter/memory.rs','core/storage/src/adapter/rocks.rs'],[('batch_modify, get_batch','core/storage/src/adapter/')],['values read back after the batch'])
p('C17','Merkle roots and proofs bind the list of hashes',
  "The root of a list of hashes is a function of the list alone, is absent exactly for the empty list, and equals the hash itself for a single one; it changes when any element is changed. Every in-range position has a proof that recomputes the root from that leaf, and out-of-range positions have none.",
  ['inputs'],'every list of hashes and every position',
  'The merkle crate has no test.',
  ['common/merkle/src/lib.rs'],[('Merkle::from_hashes, get_root_hash, get_proof_by_input_index','common/merkle/src/lib.rs')],['roots and proofs'])
p('C18','The pool admits only fresh, valid, unique transactions, up to its size',
  "A submitted transaction enters the pool only if the pool is below its size, no transaction of the same hash is pooled or already stored, its signature and hash are right, it is for this chain and its timeout is neither past nor beyond the allowed gap; otherwise it is refused, the pool is unchanged and nothing is broadcast. A transaction pulled for a proposal enters under the same rules except the size. An admitted transaction is retrievable under its hash, unchanged. A transaction a user submitted goes out to the peers once, in the order of admission and unchanged; one heard from a peer is offered to the pool once and is not sent on.",
  ['inputs','histories'],'every pool content, transaction and adapter answer',
  'The mempool tests sample random fresh transactions and one duplicate.',
  ['core/mempool/src/lib.rs','core/mempool/src/tx_cache.rs','core/mempool/src/map.rs','core/mempool/src/adapter/mod.rs','core/mempool/src/adapter/message.rs','core/mempool/src/context.rs'],[('IntervalTxsBroadcaster','core/mempool/src/adapter/mod.rs'),('NewTxsHandler','core/mempool/src/adapter/message.rs'),('HashMemPool::insert','core/mempool/src/lib.rs'),('TxCache::insert','core/mempool/src/tx_cache.rs'),('check_transaction, check_storage_exist','core/mempool/src/adapter/mod.rs')],['pool content and result of each insertion'])
p('C19','Packaging offers each live transaction once, in order, within the cycle limit',
  "Packaging returns two disjoint lists of distinct hashes of pooled, unexpired transactions in insertion order, the ordered list within the cycle limit, and expired transactions leave the pool. Transactions that came from another proposal are not proposed again, and packaging loses no unexpired transaction: packaging again with nothing changed gives the same answer.",
  ['inputs','histories'],'every pool content, cycle limit, height and timeout',
  'The tests check only list lengths with equal-cycle transactions.',
  ['core/mempool/src/tx_cache.rs'],[('TxCache::package, is_timeout, process_omission_txs','core/mempool/src/tx_cache.rs')],['the two returned lists and the remaining pool'])
p('C20','Pool lookups are exact and flushing removes exactly what was committed',
  "Asking the pool for the full transactions of a list of hashes returns those transactions in that order or an error if any is missing, never a shorter or reordered list. The hashes reported as unknown are exactly those not pooled, in order. Flushing removes exactly the named transactions; all others stay. A peer that asks for transactions is answered with all of them, in the order asked for, or not at all.",
  ['inputs','histories'],'every pool content and every list of hashes, including repeats and foreign hashes',
  'Tests use disjoint random transactions and check only counts.',
  ['core/mempool/src/lib.rs','core/mempool/src/tx_cache.rs','core/mempool/src/map.rs','core/mempool/src/adapter/message.rs'],[('PullTxsHandler','core/mempool/src/adapter/message.rs'),('get_full_txs, ensure_order_txs','core/mempool/src/lib.rs'),('flush, show_unknown','core/mempool/src/tx_cache.rs'),('Map, Bucket','core/mempool/src/map.rs')],['returned lists and remaining pool'])
p('C21','Each committed epoch advances the node status to describe it',
  "After an epoch is committed the node's status has the next height, the digest of that epoch as previous hash, the proof that committed it, the state root its execution produced, and the merkle roots of its ordered transactions and of its receipts. The epoch is executed on the state root of the status before it, at its own height, with the transactions it orders and its proposer as the one paid; its proof, its receipts, its transactions and the epoch are all saved and its transactions leave the pool before the status moves, and a step that fails stops the commit with the status as it was. The node then announces the next height, and answers the engine with it and the validators. A proposal is only built for the height of the status, its header repeats the status, and its orders are the ones packaged; a proposal of another node is only accepted after its transactions were fetched and checked.",
  ['inputs','histories','fault_sequences'],'every epoch, proof, execution result, status and failing step',
  'The consensus engine has no test (and does not build without its engine dependency).',
  ['core/consensus/src/engine.rs','core/consensus/src/adapter.rs'],[('update_status, get_epoch, check_epoch, commit','core/consensus/src/engine.rs'),('what the node does for the engine','core/consensus/src/adapter.rs')],['status after commit','proposed header','what is asked of storage, mempool and executor'])
p('C22','Catching up accepts only epochs that extend the local chain',
  "While catching up, an epoch is executed and saved only if it is the one asked for and its previous-hash field equals the digest of the epoch before it; heights are processed one by one without gaps up to the announced height, each on the state root produced by the one before it, starting from that of the status. The transactions executed with it are exactly those it orders, in that order and each under its own digest; they leave the pool. Status and storage move together: the status is always the one the last epoch saved calls for, whatever step fails. An announcement that is malformed or not ahead of the local chain, or one that comes while the node is committing or already catching up, changes nothing; nor does a commit in the middle of catching up.",
  ['inputs','histories','fault_sequences'],'every announced height, every answer of a remote peer and every failing step',
  'There is no test of synchronisation.',
  ['core/consensus/src/consensus.rs'],[('update_epoch, check_txs','core/consensus/src/consensus.rs'),('exec, update_status, pull_epoch, pull_txs','core/consensus/src/engine.rs')],['epochs saved and executed, state root used, status'])
p('C23','Network endpoints parse strictly and identify handlers by their root',
  "An endpoint string is accepted exactly if it is 1 to 120 bytes long, starts with a known scheme and has three or four path components; its scheme, root and full text are then those of the string. Two endpoints are equal, and hash equally, exactly if their first three components agree. An rpc endpoint, read from a string or made from an endpoint, additionally has a call or response scheme and its last component is its decimal 64-bit id; extending an endpoint of three components by an id gives an endpoint of the same root with that id.",
  ['inputs'],'every string',
  'One well-formed endpoint is parsed.',
  ['core/network/src/endpoint.rs'],[('FromStr, scheme, root, extend, extract_rpc_id_from','core/network/src/endpoint.rs')],['parsed endpoints and errors'])
p('C24','An rpc answer reaches its own caller, at most once',
  "Call ids are never repeated. A pending call registered for a session and id is found by exactly that session and id, at most once, and only with the type of answer it was registered for; anything else is an error and leaves the other pending calls untouched.",
  ['inputs','histories'],'every sequence of registrations and lookups over sessions, ids and answer types',
  'The rpc table has no test.',
  ['core/network/src/rpc_map.rs'],[('next_rpc_id, insert, take','core/network/src/rpc_map.rs')],['which receiver gets the answer, errors'])
p('C25','Messages survive the network layer unchanged',
  "A message framed with its endpoint, compressed, decompressed and unframed is the same endpoint and content; single protocol objects and lists of them survive the embedded serialisation, in order. Corrupt input is an error, never a crash.",
  ['inputs'],'every endpoint, content and list; every corrupt byte string',
  'The quick-check tests only assert that decoding succeeds, not that the result is equal.',
  ['core/network/src/message/mod.rs','core/network/src/message/serde.rs','core/network/src/message/serde_multi.rs','core/network/src/compression/snappy.rs'],[('NetworkMessage encode/decode','core/network/src/message/mod.rs'),('Snappy','core/network/src/compression/snappy.rs'),('serde, serde_multi','core/network/src/message/')],['decoded message'])
p('C26','The peer book stays consistent and unreachable peers are dropped',
  "Whatever sessions, addresses, failures and removals a node hears of: every address and user in the peer book's indexes leads to a peer of the book that has it, the peers that are connected are those with a session, each has one, and it is known in both directions. Removing a peer removes its entries and sessions and no other's; the end of a session ends that peer's connection and no other's; a message for users goes to those with a session, and the others are dialed and reported as missed. A failure raises a peer's retry count at most once per attempt window, and its next dial waits 5^count seconds; a peer at its last retry is dropped and its session ended, unless it is a bootstrap peer, which stays with a reset count. A peer whose dial failed may be dialed again. An unknown address is kept for every retry but its last and dropped then. Only peers that are neither connected nor being dialed, have an address and have waited long enough are dialed, and no more than there is room for. Peers that are saved are there again when loaded.",
  ['histories','fault_sequences'],'every sequence of connection, discovery, failure and removal events',
  'The peer manager has no test; its indexes are maps kept in step by hand over every order of events.',
  ['core/network/src/peer_manager/mod.rs','core/network/src/peer_manager/peer.rs'],[('PeerManager::process_event and what it calls','core/network/src/peer_manager/mod.rs'),('Inner: the book and its indexes','core/network/src/peer_manager/mod.rs'),('PeerManager::unconnected_addrs, poll','core/network/src/peer_manager/mod.rs'),('Peer::increase_retry, retry_ready','core/network/src/peer_manager/peer.rs')],['the book, its indexes and the requests to the connection service after each event'])
p('C27','Consensus messages, answers and signatures arrive as they were sent',
  "A request for an epoch or for a list of transactions is answered with what the node has stored under that height or those hashes, or not at all. An answer that was written reads back as the same epoch or the same transactions; any other bytes are an error, never a crash. A pull request yields what the peer answered to exactly that height or those hashes, or an error. A proposal, vote or aggregated proof the node sends reaches the engine of the node it is for unchanged; one cut short is an error. A signature made by a node carries its public key and verifies for the hash it was made for, with the address of that key as its voter; a signature for another hash, one that was changed or one too short is refused.",
  ['inputs'],'every height, list of hashes, answer, signature and byte string',
  'The consensus crate has one test, of the signer, and it does not build here.',
  ['core/consensus/src/message.rs','core/consensus/src/fixed_types.rs','core/consensus/src/util.rs'],[('RpcHandler','core/consensus/src/message.rs'),('ConsensusRpcResponse, FixedPill, FixedSignedTxs','core/consensus/src/fixed_types.rs'),('OverlordCrypto','core/consensus/src/util.rs')],['answers sent, values read back, errors'])
AP='core/api/src/'
p('C28','What is submitted and asked over GraphQL is what the texts of the fields say',
  "A transfer or deployment submitted over GraphQL reaches the pool as exactly the transaction its fields spell: chain, nonce, timeout, fee, action, hash, public key and signature are the values their hex text denotes, with or without 0x and in either case. If any field spells no such value the submission is refused and the pool is given nothing; otherwise the pool is given that one transaction and its refusal is the answer, its acceptance the transaction's hash. A submission with a private key is submitted under the digest of its own canonical encoding, signed over that hash with that key. A query yields the epoch of the height asked for, or the latest, every field as the hex of its stored value; and the balance of the address and asset asked for in the state that epoch names, or zero where none can be read. A malformed query is an error; none crashes the node.",
  ['inputs','histories'],'every text in every field of every query and submission, every stored chain and every pool that accepts or refuses',
  'The crate has no test at all, and is not built by the ones there are.',
  [AP+'lib.rs',AP+'schema/mod.rs',AP+'schema/epoch.rs',AP+'adapter/mod.rs'],[('Query, Mutation and the cover_* conversions',AP+'lib.rs'),('as_hex and From of every scalar, Epoch, EpochHeader',AP+'schema/mod.rs'),('DefaultAPIAdapter',AP+'adapter/mod.rs')],['what the pool is given','the answer or error of each field'])
p('C29','A node begins with its genesis file and goes on where its chain ends',
  "A node whose store holds no epoch stores, before anything else, the epoch at height 0 its genesis file declares: the state root that executing the file yields, the file's timestamp, no transactions, and with it the proof it carries. Every node with the same chain id, price and genesis file stores the same epoch, whatever its key. A node that has a chain leaves it as it is. A started node takes up consensus at the height after its latest epoch, on that epoch's hash, with the validators, interval, prices and limits of its configuration and the roots and proof a node that never stopped would have. Every endpoint is served by its own handler over the node's one pool, store or consensus, every answer its peers send is read as the kind it is, and every value of the configuration reaches the part it is for: chain and state each have a directory of their own.",
  ['inputs','crash points','histories'],'every configuration, every genesis file, every stored chain and every point at which the node was stopped',
  'The program has no test at all, and is not built by the ones there are.',
  ['src/main.rs','src/config.rs'],[('handle_init, start','src/main.rs'),('data_path_for_state, data_path_for_block','src/config.rs')],['the stored genesis epoch and proof','what each part is made of, and what is put to run'])
p('C30','What connections do reaches the peer book; what is sent reaches who it is for',
  "Every opening and closing of a connection, every address listened to and every failure to connect, to agree on a protocol or to stay alive is told to the peer manager exactly once, as what it is and with the peer, session and address it is about: a failed dial names the address that failed, one to ourselves makes the address ours, one that timed out or was interrupted is tried again later, any other is given up. When the peer manager is gone, the error is reported instead, while anybody listens. A message is handed to the transport once, with its bytes, its target, its priority and the message protocol; what the transport would not take for now is asked again later, unchanged, until it does, and nothing is asked of a transport that is closed. A message to users fails with the users that were not reached. A message from a peer reaches the router once, with the session it came by. Linked nodes get each other's gossip, calls and answers by the session they share, each once, and nobody else does.",
  ['inputs','histories'],'every event and failure of a connection, every request, target and message, and every pattern of refusals by the transport',
  'No test reaches the connection keeper, the connection service, its control, the protocols\' reports or the network service.',
  ['core/network/src/connection','core/network/src/protocols','core/network/src/service.rs','core/network/src/peer_manager'],[('handle_event, handle_error, process_connect_error','core/network/src/connection/keeper.rs'),('send, users_send','core/network/src/connection/control.rs'),('process_event','core/network/src/connection/mod.rs'),('received','core/network/src/protocols/transmitter.rs')],['what the peer manager is told','what is asked of the transport','what the router and the handlers get'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
