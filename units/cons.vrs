//@include merkle.vrs assume
//@type "Box<dyn Error + Send>" => "ProtocolError"
//@type "RwLock<$>" => "VxLock<$>"
//@path RwLock::new => VxLock::vx_new
//@cell *current_consensus_status hs
//@cell *exemption_hash hx
//@heapfn RwLock::new hs
//@heapfn VxLock::vx_new hs
//@heapfn self.adapter.get_full_txs w
//@heapfn self.adapter.sync_txs w
//@heapfn self.adapter.check_txs w
//@heapfn self.adapter.transmit w
//@heapfn self.adapter.execute w
//@heapfn self.adapter.flush_mempool w
//@heapfn self.adapter.save_* w
//@heapfn self.exec w hs
//@heapfn self.update_status w hs
//@heapfn self.engine.exec w hs
//@heapfn self.engine.update_status w hs
//@heapfn self.engine.save_proof w
//@heapfn self.engine.flush_mempool w
//@heapfn self.engine.get_current_state_root hs
//@heapfn self.engine.get_current_interval hs
//@heapfn self.engine.get_current_authority_list hs
//@heapfn self.handler.send_msg w
//@path rlp::decode => rlp_decode
//@heapfn VxLock::new hs
//@heapfn self.mempool.package w
//@heapfn self.mempool.ensure_order_txs w
//@heapfn self.mempool.sync_propose_txs w
//@heapfn self.mempool.get_full_txs w
//@heapfn self.mempool.flush w
//@heapfn self.storage.insert_* w
//@heapfn self.storage.update_latest_proof w
//@heapfn self.network.* w
//@heapfn executor.exec w
//@heapfn self.rpc.response w
//@heapfn self.rpc.call w
//@heapfn self.consensus.* w
//@cell epoch -
//@type "PhantomData<$>" => "core::marker::PhantomData<$>"
//@method sort/0 => vx_sort
//@method to_owned/0 => clone
//@known time_now
verus! {

// ------------------------------------------------------------------ locks
/// parking_lot::RwLock<T>: which value it guards.
pub struct VxLock<T> {
    pub i: Ghost<int>,
    pub ph: core::marker::PhantomData<T>,
}

pub struct LockHeap<T> {
    pub x: Ghost<Map<int, T>>,
}

impl<T> VxLock<T> {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    #[verifier::external_body]
    pub fn vx_new(x: T, h: &mut LockHeap<T>) -> (r: Self)
        ensures
            !old(h).x@.contains_key(r.id()),
            final(h).x@ == old(h).x@.insert(r.id(), x),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn read<'a>(&self, h: &'a mut LockHeap<T>) -> (r: &'a T)
        requires
            old(h).x@.contains_key(self.id()),
        ensures
            *r == old(h).x@[self.id()],
            final(h).x@ == old(h).x@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn write<'a>(&self, h: &'a mut LockHeap<T>) -> (r: &'a mut T)
        requires
            old(h).x@.contains_key(self.id()),
        ensures
            *r == old(h).x@[self.id()],
            final(h).x@ == old(h).x@.insert(self.id(), *final(r)),
    {
        unimplemented!()
    }
}

/// futures::lock::Mutex<T>; `free` is what the attempt to take it finds.
pub struct Mutex<T> {
    pub t: T,
}

pub struct MutexGuard {
    pub u: (),
}

impl<T> Mutex<T> {
    pub uninterp spec fn free(&self) -> bool;

    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn try_lock(&self) -> (r: Option<MutexGuard>)
        ensures
            r is Some <==> self.free(),
    {
        unimplemented!()
    }
}

/// HashSet<Bytes>
pub struct HashSet<T> {
    pub s: Ghost<Set<Seq<u8>>>,
    pub ph: core::marker::PhantomData<T>,
}

impl HashSet<Bytes> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures
            r.s@ == Set::<Seq<u8>>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, b: Bytes) -> (r: bool)
        ensures
            final(self).s@ == old(self).s@.insert(b@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains(&self, b: &Bytes) -> (r: bool)
        ensures
            r == self.s@.contains(b@),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ what goes over the wire
pub struct Context {
    pub c: Ghost<int>,
}

impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Context {
    #[verifier::external_body]
    pub fn new() -> (r: Self) {
        unimplemented!()
    }
}

/// Canonical encoding (C12).
pub trait ProtocolFixedCodec: Sized {
    spec fn enc(&self) -> Seq<u8>;

    spec fn dec(b: Seq<u8>) -> Option<Self>;

    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok,
            r->Ok_0@ == self.enc(),
    ;

    fn decode_fixed(b: Bytes) -> (r: ProtocolResult<Self>)
        ensures
            r.ok() == Self::dec(b@),
    ;
}

impl ProtocolFixedCodec for RawTransaction {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(b: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Receipt {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(b: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Epoch {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(b: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Pill {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(b: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

pub struct BincodeError;

/// bincode (serde's derives), as far as it is used here.
pub trait VxSer {
    spec fn ser(&self) -> Seq<u8>;
}

pub trait VxDe: Sized {
    spec fn de(b: Seq<u8>) -> Option<Self>;
}

/// The bytes of an announced height.
pub uninterp spec fn id_bytes(n: u64) -> Seq<u8>;

/// The height announced by these bytes, if they are one.
pub uninterp spec fn id_of(b: Seq<u8>) -> Option<u64>;

impl VxSer for FixedEpochID {
    open spec fn ser(&self) -> Seq<u8> {
        id_bytes(self.inner)
    }
}

impl VxDe for FixedEpochID {
    open spec fn de(b: Seq<u8>) -> Option<Self> {
        match id_of(b) {
            Some(inner) => Some(FixedEpochID { inner }),
            None => None,
        }
    }
}

/// The bytes of a list of transactions.
pub uninterp spec fn txs_bytes(t: FixedSignedTxs) -> Seq<u8>;

pub uninterp spec fn txs_of(b: Seq<u8>) -> Option<FixedSignedTxs>;

impl VxSer for FixedSignedTxs {
    open spec fn ser(&self) -> Seq<u8> {
        txs_bytes(*self)
    }
}

impl VxDe for FixedSignedTxs {
    open spec fn de(b: Seq<u8>) -> Option<Self> {
        txs_of(b)
    }
}

impl<'a, T: VxSer> VxSer for &'a T {
    open spec fn ser(&self) -> Seq<u8> {
        (**self).ser()
    }
}

impl<'a, T: VxSer> VxSer for &'a mut T {
    open spec fn ser(&self) -> Seq<u8> {
        (**self).ser()
    }
}

#[verifier::external_body]
pub fn serialize<T: VxSer>(x: &T) -> (r: Result<Vec<u8>, BincodeError>)
    ensures
        r is Ok ==> r->Ok_0@ == x.ser(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn deserialize<T: VxDe, B: VxBytes>(b: &B) -> (r: Result<T, BincodeError>)
    ensures
        r.ok() == T::de(b.vb()),
{
    unimplemented!()
}

// ------------------------------------------------------------------ items
//@item protocol/src/types/epoch.rs struct Epoch need:Clone
//@item protocol/src/types/epoch.rs struct EpochHeader need:Clone
//@item protocol/src/types/epoch.rs struct Proof need:Clone
//@item protocol/src/types/epoch.rs struct Pill need:Clone
//@item protocol/src/types/epoch.rs struct Validator need:Clone
//@item protocol/src/traits/consensus.rs struct CurrentConsensusStatus need:Clone
//@item protocol/src/traits/consensus.rs struct NodeInfo need:Clone
//@item protocol/src/traits/consensus.rs enum MessageTarget
//@item protocol/src/traits/executor/mod.rs struct ExecutorExecResp need:Clone
//@item protocol/src/traits/mempool.rs struct MixedTxHashes
//@item core/consensus/src/lib.rs enum MsgType
//@item core/consensus/src/lib.rs enum ConsensusError
//@item core/consensus/src/fixed_types.rs struct FixedPill
//@item core/consensus/src/fixed_types.rs struct FixedSignedTxs
//@item core/consensus/src/fixed_types.rs struct FixedEpochID
//@item core/consensus/src/message.rs const END_GOSSIP_RICH_EPOCH_ID
//@item core/consensus/src/message.rs const END_GOSSIP_SIGNED_PROPOSAL
//@item core/consensus/src/message.rs const END_GOSSIP_SIGNED_VOTE
//@item core/consensus/src/message.rs const END_GOSSIP_AGGREGATED_VOTE
//@item core/consensus/src/message.rs const RPC_SYNC_PULL
//@item core/consensus/src/message.rs const RPC_RESP_SYNC_PULL

pub struct CryptoError;

impl core::convert::From<ConsensusError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: ConsensusError) -> ProtocolError {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ overlord
/// overlord::types::Node
pub struct Node {
    pub address: Bytes,
    pub propose_weight: u8,
    pub vote_weight: u8,
}

/// The list in overlord's order.
pub uninterp spec fn in_order(s: Seq<Node>) -> Seq<Node>;

pub trait VxSort {
    fn vx_sort(&mut self)
    ;
}

impl VxSort for Vec<Node> {
    #[verifier::external_body]
    fn vx_sort(&mut self)
        ensures
            final(self)@ == in_order(old(self)@),
    {
        unimplemented!()
    }
}

pub struct Status {
    pub epoch_id: u64,
    pub interval: Option<u64>,
    pub authority_list: Vec<Node>,
}

pub struct AggregatedSignature {
    pub signature: Bytes,
    pub address_bitmap: Bytes,
}

pub struct OvProof {
    pub epoch_id: u64,
    pub round: u64,
    pub epoch_hash: Bytes,
    pub signature: AggregatedSignature,
}

pub struct Commit<T> {
    pub epoch_id: u64,
    pub content: T,
    pub proof: OvProof,
}

// ------------------------------------------------------------------ the world outside
/// One execution of a block.
pub struct Run {
    pub chain: Hash,
    pub root: Hash,
    pub height: u64,
    pub price: u64,
    pub coinbase: Address,
    pub txs: Seq<SignedTransaction>,
    pub resp: Option<ExecutorExecResp>,
}

/// What the engine asked of storage, pool, executor and network, and whether it was done.
pub struct World {
    pub proofs: Ghost<Seq<(Proof, bool)>>,
    pub epochs: Ghost<Seq<(Epoch, bool)>>,
    pub receipts: Ghost<Seq<(Seq<Receipt>, bool)>>,
    pub txs: Ghost<Seq<(Seq<SignedTransaction>, bool)>>,
    pub flushed: Ghost<Seq<(Seq<Hash>, bool)>>,
    pub runs: Ghost<Seq<Run>>,
    pub synced: Ghost<Seq<(Seq<Hash>, bool)>>,
    pub checked: Ghost<Seq<(Seq<Hash>, bool)>>,
    pub sent: Ghost<Seq<(Seq<u8>, Seq<char>, MessageTarget, bool)>>,
    pub told: Ghost<Seq<(OverlordMsg<FixedPill>, bool)>>,
    pub answered: Ghost<Seq<(Context, Seq<char>, ConsensusRpcResponse, bool)>>,
    pub calls: Ghost<Seq<(Context, Seq<char>, ConsensusRpcRequest, Option<ConsensusRpcResponse>)>>,
    pub heard: Ghost<Seq<(Gossiped, Seq<u8>, bool)>>,
}

/// protocol::traits::ConsensusAdapter
pub trait ConsensusAdapter: Sized {
    fn get_txs_from_mempool(&self, ctx: Context, epoch_id: u64, cycle_limit: u64) -> (r: ProtocolResult<MixedTxHashes>)
        ensures
            r is Ok ==> r->Ok_0 == self.packed(epoch_id, cycle_limit),
    ;

    spec fn packed(&self, epoch_id: u64, cycle_limit: u64) -> MixedTxHashes;

    fn check_txs(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { checked: Ghost(old(w).checked@.push((txs@, r is Ok))), ..*old(w) }),
    ;

    fn sync_txs(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { synced: Ghost(old(w).synced@.push((txs@, r is Ok))), ..*old(w) }),
    ;

    /// (C20)
    fn get_full_txs(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<Vec<SignedTransaction>>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> named(r->Ok_0@, txs@),
    ;

    fn transmit(&self, ctx: Context, msg: Vec<u8>, end: &str, target: MessageTarget, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { sent: Ghost(old(w).sent@.push((msg@, end@, target, r is Ok))), ..*old(w) }),
    ;

    fn execute(&self, node_info: NodeInfo, state_root: MerkleRoot, epoch_id: u64, cycles_price: u64, coinbase: Address, signed_txs: Vec<SignedTransaction>, w: &mut World) -> (r: ProtocolResult<ExecutorExecResp>)
        ensures
            asked(*old(w), *final(w), Run {
                chain: node_info.chain_id,
                root: state_root,
                height: epoch_id,
                price: cycles_price,
                coinbase,
                txs: signed_txs@,
                resp: r.ok(),
            }),
    ;

    fn flush_mempool(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { flushed: Ghost(old(w).flushed@.push((txs@, r is Ok))), ..*old(w) }),
    ;

    fn save_epoch(&self, ctx: Context, epoch: Epoch, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { epochs: Ghost(old(w).epochs@.push((epoch, r is Ok))), ..*old(w) }),
    ;

    fn save_receipts(&self, ctx: Context, receipts: Vec<Receipt>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { receipts: Ghost(old(w).receipts@.push((receipts@, r is Ok))), ..*old(w) }),
    ;

    fn save_proof(&self, ctx: Context, proof: Proof, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { proofs: Ghost(old(w).proofs@.push((proof, r is Ok))), ..*old(w) }),
    ;

    fn save_signed_txs(&self, ctx: Context, signed_txs: Vec<SignedTransaction>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { txs: Ghost(old(w).txs@.push((signed_txs@, r is Ok))), ..*old(w) }),
    ;

    fn get_last_validators(&self, ctx: Context, epoch_id: u64) -> (r: ProtocolResult<Vec<Validator>>)
        ensures
            r is Ok ==> r->Ok_0@ == self.stored(epoch_id).header.validators@,
    ;

    /// The epoch stored under this height, and the greatest such height.
    spec fn stored(&self, epoch_id: u64) -> Epoch;

    spec fn latest(&self) -> u64;

    fn get_current_epoch_id(&self, ctx: Context) -> (r: ProtocolResult<u64>)
        ensures
            r is Ok ==> r->Ok_0 == self.latest(),
    ;

    /// Whatever a peer answers.
    fn pull_epoch(&self, ctx: Context, epoch_id: u64, end: &str) -> (r: ProtocolResult<Epoch>)
    ;

    fn pull_txs(&self, ctx: Context, hashes: Vec<Hash>, end: &str) -> (r: ProtocolResult<Vec<SignedTransaction>>)
    ;

    fn get_epoch_by_id(&self, ctx: Context, epoch_id: u64) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok ==> r->Ok_0 == self.stored(epoch_id),
    ;
}

/// The execution was asked for; one that yields nothing may not even have begun.
pub open spec fn asked(a: World, b: World, run: Run) -> bool {
    b == (World { runs: Ghost(a.runs@.push(run)), ..a }) || run.resp is None && b == a
}

/// The transactions carry these hashes, one by one.
pub open spec fn named(txs: Seq<SignedTransaction>, hashes: Seq<Hash>) -> bool {
    &&& txs.len() == hashes.len()
    &&& forall|i: int| 0 <= i < hashes.len() ==> (#[trigger] txs[i]).tx_hash == hashes[i]
}

// ------------------------------------------------------------------ the engine
//@item core/consensus/src/engine.rs struct ConsensusEngine

pub open spec fn root_or_empty(s: Seq<Hash>) -> Hash {
    match root(s) {
        Some(h) => h,
        None => hash_of(keccak(null_rlp())),
    }
}

/// The digests of the receipts.
pub open spec fn digests(s: Seq<Receipt>) -> Seq<Hash> {
    s.map_values(|x: Receipt| hash_of(keccak(x.enc())))
}

/// The first n of them.
pub open spec fn digested(v: Seq<Hash>, s: Seq<Receipt>, n: int) -> bool {
    &&& v.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == keccak(s[i].enc())
}

/// What no epoch changes.
pub open spec fn same_terms(s: CurrentConsensusStatus, s0: CurrentConsensusStatus) -> bool {
    &&& s.cycles_price == s0.cycles_price
    &&& s.cycles_limit == s0.cycles_limit
    &&& s.logs_bloom == s0.logs_bloom
    &&& s.cycles_used == s0.cycles_used
    &&& s.validators == s0.validators
    &&& s.consensus_interval == s0.consensus_interval
}

/// What the status is after this epoch.
pub open spec fn describes(s: CurrentConsensusStatus, s0: CurrentConsensusStatus, id: u64, e: Epoch, proof: Proof, resp: ExecutorExecResp) -> bool {
    &&& s.epoch_id == id + 1
    &&& s.prev_hash@ == keccak(e.enc())
    &&& s.proof == proof
    &&& s.state_root == resp.state_root
    &&& s.order_root == root_or_empty(e.ordered_tx_hashes@)
    &&& s.confirm_root@ == seq![root_or_empty(e.ordered_tx_hashes@)]
    &&& s.receipt_root@ == seq![root_or_empty(digests(resp.receipts@))]
    &&& same_terms(s, s0)
}

impl<Adapter: ConsensusAdapter> ConsensusEngine<Adapter> {
    pub open spec fn st(&self, hs: &LockHeap<CurrentConsensusStatus>) -> CurrentConsensusStatus {
        hs.x@[self.current_consensus_status.id()]
    }

    pub open spec fn ok(&self, hs: &LockHeap<CurrentConsensusStatus>) -> bool {
        hs.x@.contains_key(self.current_consensus_status.id())
    }

    pub open spec fn own(&self, hx: &LockHeap<HashSet<Bytes>>) -> Set<Seq<u8>> {
        hx.x@[self.exemption_hash.id()].s@
    }

//@fn core/consensus/src/engine.rs ConsensusEngine::exec
//@. params w: &mut World, hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.ok(old(hs)),
//@. ensures
        final(hs).x@ == old(hs).x@,
        asked(*old(w), *final(w), Run {
            chain: self.node_info.chain_id,
            root: state_root,
            height: epoch_id,
            price: self.st(old(hs)).cycles_price,
            coinbase: address,
            txs: txs@,
            resp: r.ok(),
        }),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::update_status
//@. params w: &mut World, hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.ok(old(hs)),
        epoch_id < u64::MAX,
//@. ensures
        self.ok(final(hs)),
        r is Err ==> final(hs).x@ == old(hs).x@,
        r is Ok ==> describes(self.st(final(hs)), self.st(old(hs)), epoch_id, epoch, proof, exec_resp),
        r is Ok ==> final(hs).x@ =~= old(hs).x@.insert(self.current_consensus_status.id(), self.st(final(hs))),
        // everything is saved by then
        r is Ok ==> *final(w) == saved(*old(w), epoch, exec_resp.receipts@, txs@),
        r is Err ==> saving(*old(w), *final(w), epoch, exec_resp.receipts@, txs@),
//@. at start
        let ghost rs = exec_resp.receipts@;
        proof {
            lemma_hashes();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == rs,
            digested(__v2@, rs, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert(digested(__v2@, rs, rs.len() as int));
            assert(__v2@ =~= digests(rs));
        }
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine@Engine::get_epoch key ConsensusEngine::get_epoch
//@. params hs: &mut LockHeap<CurrentConsensusStatus>, hx: &mut LockHeap<HashSet<Bytes>>
//@. requires
        self.ok(old(hs)),
        old(hx).x@.contains_key(self.exemption_hash.id()),
//@. ensures
        final(hs).x@ == old(hs).x@,
        r is Ok ==> self.st(old(hs)).epoch_id == epoch_id,
        r is Ok ==> repeats((r->Ok_0).0.inner.epoch.header, self.st(old(hs)), self.node_info),
        r is Ok ==> (r->Ok_0).0.inner.epoch.header.order_root == root_or_empty((r->Ok_0).0.inner.epoch.ordered_tx_hashes@),
        r is Ok ==> (r->Ok_0).0.inner.epoch.ordered_tx_hashes == self.adapter.packed(epoch_id, self.st(old(hs)).cycles_limit).order_tx_hashes,
        r is Ok ==> (r->Ok_0).0.inner.propose_hashes == self.adapter.packed(epoch_id, self.st(old(hs)).cycles_limit).propose_tx_hashes,
        // remembered as its own
        r is Ok ==> (r->Ok_0).1@ == keccak((r->Ok_0).0.inner.enc()),
        r is Ok ==> self.own(final(hx)) == self.own(old(hx)).insert((r->Ok_0).1@),
        r is Err ==> final(hx).x@ == old(hx).x@,
//@. at start
        proof {
            lemma_hashes();
        }
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine@Engine::check_epoch key ConsensusEngine::check_epoch
//@. params w: &mut World, hx: &mut LockHeap<HashSet<Bytes>>
//@. requires
        old(hx).x@.contains_key(self.exemption_hash.id()),
//@. ensures
        final(hx).x@ == old(hx).x@,
        r is Ok ==> named(r->Ok_0.inner@, epoch.inner.epoch.ordered_tx_hashes@),
        // its own proposals are not looked at again, the others are
        r is Ok && self.own(old(hx)).contains(hash@) ==> *final(w) == *old(w),
        r is Ok && !self.own(old(hx)).contains(hash@) ==> *final(w) == (World {
            synced: Ghost(old(w).synced@.push((epoch.inner.propose_hashes@, true))),
            checked: Ghost(old(w).checked@.push((epoch.inner.epoch.ordered_tx_hashes@, true))),
            ..*old(w)
        }),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine@Engine::commit key ConsensusEngine::commit
//@. params w: &mut World, hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.ok(old(hs)),
        epoch_id < u64::MAX,
//@. ensures
        self.ok(final(hs)),
        !self.lock.free() ==> r is Err && final(hs).x@ == old(hs).x@ && *final(w) == *old(w),
        final(hs).x@ =~= old(hs).x@.insert(self.current_consensus_status.id(), self.st(final(hs))),
        committed(*old(w), *final(w), self.st(old(hs)), self.st(final(hs)), self.node_info, epoch_id, commit, r is Ok),
        r is Ok ==> r->Ok_0.epoch_id == epoch_id + 1 && r->Ok_0.interval == Some(self.st(final(hs)).consensus_interval)
            && r->Ok_0.authority_list@ == nodes(self.st(final(hs)).validators@),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine@Engine::get_authority_list key ConsensusEngine::get_authority_list
//@. ensures
        r is Ok ==> r->Ok_0@ == nodes(self.adapter.stored(epoch_id).header.validators@),
//@. at start
        let ghost vs = self.adapter.stored(epoch_id).header.validators@;
        proof {
            lemma_bytes_eq();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == vs,
            __v2@.len() == __it0.p@,
            forall|i: int| 0 <= i < __v2@.len() ==> #[trigger] __v2@[i] == node_of(vs[i]),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert(__v2@ =~= vs.map_values(|v: Validator| node_of(v)));
        }
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine@Engine::broadcast_to_other key ConsensusEngine::broadcast_to_other
//@. params w: &mut World
//@. requires
        msg is SignedProposal || msg is AggregatedVote,
//@. ensures
        *final(w) == (World { sent: Ghost(old(w).sent@.push((gossiped(msg), to_all(msg), MessageTarget::Broadcast, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine@Engine::transmit_to_relayer key ConsensusEngine::transmit_to_relayer
//@. params w: &mut World
//@. requires
        msg is SignedVote,
//@. ensures
        user_ok(addr@) ==> final(w).sent@.len() == old(w).sent@.len() + 1,
        *final(w) == *old(w) || *final(w) == (World { sent: Ghost(old(w).sent@.push(final(w).sent@.last())), ..*old(w) }),
        *final(w) == *old(w) ==> r is Err,
        *final(w) != *old(w) ==> final(w).sent@.last().0 == gossiped(msg) && final(w).sent@.last().1 == END_GOSSIP_SIGNED_VOTE@
            && (final(w).sent@.last().2 matches MessageTarget::Specified(u) && u@ == addr@) && final(w).sent@.last().3 == (r is Ok),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::get_current_epoch_id
//@. ensures
        r is Ok ==> r->Ok_0 == self.adapter.latest(),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::get_epoch_by_id
//@. ensures
        r is Ok ==> r->Ok_0 == self.adapter.stored(epoch_id),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::pull_epoch
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::pull_txs
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::save_proof
//@. params w: &mut World
//@. ensures
        *final(w) == (World { proofs: Ghost(old(w).proofs@.push((proof, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::flush_mempool
//@. params w: &mut World
//@. ensures
        *final(w) == (World { flushed: Ghost(old(w).flushed@.push((hashes@, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::get_current_state_root
//@. params hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.ok(old(hs)),
//@. ensures
        final(hs).x@ == old(hs).x@,
        r == self.st(old(hs)).state_root,
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::get_current_interval
//@. params hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.ok(old(hs)),
//@. ensures
        final(hs).x@ == old(hs).x@,
        r == self.st(old(hs)).consensus_interval,
//@end
//@fn core/consensus/src/engine.rs ConsensusEngine::get_current_authority_list
//@. params hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.ok(old(hs)),
//@. ensures
        final(hs).x@ == old(hs).x@,
        r@ == nodes(self.st(old(hs)).validators@),
//@end
}

//@fn core/consensus/src/engine.rs covert_to_overlord_authority
//@. ensures
        r@ == nodes(validators@),
//@. at start
        let ghost vs = validators@;
        proof {
            lemma_bytes_eq();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == vs,
            __v2@.len() == __it0.p@,
            forall|i: int| 0 <= i < __v2@.len() ==> #[trigger] __v2@[i] == node_of(vs[i]),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert(__v2@ =~= vs.map_values(|v: Validator| node_of(v)));
        }
//@end

impl MixedTxHashes {
//@fn protocol/src/traits/mempool.rs MixedTxHashes::clap
//@. ensures
        r.0 == self.order_tx_hashes,
        r.1 == self.propose_tx_hashes,
//@end
}

impl FixedPill {
//@fn core/consensus/src/fixed_types.rs FixedPill::get_ordered_hashes
//@. ensures
        r@ == self.inner.epoch.ordered_tx_hashes@,
//@end
//@fn core/consensus/src/fixed_types.rs FixedPill::get_propose_hashes
//@. ensures
        r@ == self.inner.propose_hashes@,
//@end
}

impl FixedEpochID {
//@fn core/consensus/src/fixed_types.rs FixedEpochID::new
//@. ensures
        r.inner == inner,
//@end
}

impl FixedSignedTxs {
//@fn core/consensus/src/fixed_types.rs FixedSignedTxs::new
//@. ensures
        r.inner == inner,
//@end
}

#[verifier::external_body]
pub fn time_now() -> u64 {
    unimplemented!()
}

// ------------------------------------------------------------------ what a commit does
/// The epoch, its receipts and its transactions were saved.
pub open spec fn saved(w: World, e: Epoch, receipts: Seq<Receipt>, txs: Seq<SignedTransaction>) -> World {
    World {
        epochs: Ghost(w.epochs@.push((e, true))),
        receipts: Ghost(w.receipts@.push((receipts, true))),
        txs: Ghost(w.txs@.push((txs, true))),
        ..w
    }
}

/// At most this was done to a list of requests.
pub open spec fn upto<T>(a: Seq<(T, bool)>, b: Seq<(T, bool)>, x: T) -> bool {
    b == a || b == a.push((x, true)) || b == a.push((x, false))
}

/// Some of it was tried.
pub open spec fn saving(a: World, b: World, e: Epoch, receipts: Seq<Receipt>, txs: Seq<SignedTransaction>) -> bool {
    &&& b == World { epochs: b.epochs, receipts: b.receipts, txs: b.txs, ..a }
    &&& upto(a.epochs@, b.epochs@, e)
    &&& upto(a.receipts@, b.receipts@, receipts)
    &&& upto(a.txs@, b.txs@, txs)
}

/// The header of a proposal made in this status.
pub open spec fn repeats(h: EpochHeader, s: CurrentConsensusStatus, me: NodeInfo) -> bool {
    &&& h.chain_id == me.chain_id
    &&& h.pre_hash == s.prev_hash
    &&& h.epoch_id == s.epoch_id
    &&& h.logs_bloom == s.logs_bloom
    &&& h.confirm_root@ == seq![s.order_root]
    &&& h.state_root == s.state_root
    &&& h.receipt_root@ == s.receipt_root@
    &&& h.cycles_used == s.cycles_used
    &&& h.proposer == me.self_address
    &&& h.proof == s.proof
    &&& h.validator_version == 0
    &&& h.validators@ == s.validators@
}

/// The authority list of these validators.
pub open spec fn nodes(s: Seq<Validator>) -> Seq<Node> {
    in_order(s.map_values(|v: Validator| node_of(v)))
}

pub proof fn lemma_bytes_eq()
    ensures
        forall|b: Bytes| bytes_of(#[trigger] b@) == b,
{
}

pub open spec fn node_of(v: Validator) -> Node {
    Node { address: bytes_of(v.address@), propose_weight: v.propose_weight, vote_weight: v.vote_weight }
}

/// The proof kept for a commit.
pub open spec fn proof_of_commit(p: Proof, c: OvProof) -> bool {
    &&& p.epoch_id == c.epoch_id
    &&& p.round == c.round
    &&& p.epoch_hash@ == c.epoch_hash@
    &&& p.signature == c.signature.signature
    &&& p.bitmap == c.signature.address_bitmap
}

/// The execution asked for by a commit in this status.
pub open spec fn run_of(r: Run, s: CurrentConsensusStatus, me: NodeInfo, id: u64, e: Epoch) -> bool {
    &&& r.chain == me.chain_id
    &&& r.root == s.state_root
    &&& r.height == id
    &&& r.price == s.cycles_price
    &&& r.coinbase == Address::User(e.header.proposer)
    &&& named(r.txs, e.ordered_tx_hashes@)
}

/// What a commit does: all of it when it succeeds, otherwise perhaps a part, and the status
/// does not move before everything is saved.
pub open spec fn committed(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, c: Commit<FixedPill>, ok: bool) -> bool {
    let e = c.content.inner.epoch;
    let run = b.runs@.last();
    let resp = run.resp->Some_0;
    let p = b.proofs@.last().0;
    let ran = b.runs@.len() > a.runs@.len();
    let kept = b.proofs@.len() > a.proofs@.len();
    let moved = describes(s1, s0, id, e, p, resp) && kept && ran && run.resp is Some
        && b.proofs@.last().1
        && b.epochs@ == a.epochs@.push((e, true))
        && b.receipts@ == a.receipts@.push((resp.receipts@, true))
        && b.txs@ == a.txs@.push((run.txs, true))
        && b.flushed@ == a.flushed@.push((e.ordered_tx_hashes@, true));
    &&& b == World { proofs: b.proofs, epochs: b.epochs, receipts: b.receipts, txs: b.txs, flushed: b.flushed, runs: b.runs, sent: b.sent, ..a }
    &&& s1 == s0 || moved
    &&& ok ==> moved
    &&& kept ==> b.proofs@ == a.proofs@.push(b.proofs@.last()) && proof_of_commit(p, c.proof)
    &&& !kept ==> b.proofs@ == a.proofs@
    &&& ran ==> b.runs@ == a.runs@.push(run) && run_of(run, s0, me, id, e)
    &&& !ran ==> b.runs@ == a.runs@
    &&& upto(a.flushed@, b.flushed@, e.ordered_tx_hashes@)
    &&& upto(a.epochs@, b.epochs@, e)
    &&& b.receipts@ == a.receipts@ || ran && run.resp is Some && upto(a.receipts@, b.receipts@, resp.receipts@)
    &&& b.txs@ == a.txs@ || upto(a.txs@, b.txs@, run.txs) && ran
    // the others hear of the next height
    &&& b.sent@ == a.sent@ || moved && b.sent@ == a.sent@.push((id_bytes((id + 1) as u64), END_GOSSIP_RICH_EPOCH_ID@, MessageTarget::Broadcast, ok))
    &&& ok ==> b.sent@.len() == a.sent@.len() + 1
}

// ------------------------------------------------------------------ catching up
/// overlord::types::{SignedProposal, SignedVote, AggregatedVote} and how they are written (rlp).
pub struct SignedProposal<T> {
    pub t: T,
}

pub struct SignedVote {
    pub v: Ghost<int>,
}

pub struct AggregatedVote {
    pub v: Ghost<int>,
}

pub struct DecoderError;

pub trait Rlp: Sized {
    spec fn text(&self) -> Seq<u8>;

    /// What is read from these bytes.
    spec fn of(b: Seq<u8>) -> Option<Self>;

    fn rlp_bytes(&self) -> (r: Vec<u8>)
        ensures
            r@ == self.text(),
    ;

    fn read(b: &Vec<u8>) -> (r: Result<Self, DecoderError>)
        ensures
            r is Ok <==> Self::of(b@) is Some,
            r is Ok ==> r->Ok_0 == Self::of(b@)->Some_0,
    ;

    proof fn round(&self)
        ensures
            Self::of(self.text()) == Some(*self),
    ;
}

pub fn rlp_decode<T: Rlp>(b: &Vec<u8>) -> (r: Result<T, DecoderError>)
    ensures
        r is Ok <==> T::of(b@) is Some,
        r is Ok ==> r->Ok_0 == T::of(b@)->Some_0,
{
    T::read(b)
}

impl Rlp for SignedProposal<FixedPill> {
    uninterp spec fn text(&self) -> Seq<u8>;

    uninterp spec fn of(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn rlp_bytes(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn read(b: &Vec<u8>) -> (r: Result<Self, DecoderError>) {
        unimplemented!()
    }

    #[verifier::external_body]
    proof fn round(&self) {
    }
}

impl Rlp for SignedVote {
    uninterp spec fn text(&self) -> Seq<u8>;

    uninterp spec fn of(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn rlp_bytes(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn read(b: &Vec<u8>) -> (r: Result<Self, DecoderError>) {
        unimplemented!()
    }

    #[verifier::external_body]
    proof fn round(&self) {
    }
}

impl Rlp for AggregatedVote {
    uninterp spec fn text(&self) -> Seq<u8>;

    uninterp spec fn of(b: Seq<u8>) -> Option<Self>;

    #[verifier::external_body]
    fn rlp_bytes(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn read(b: &Vec<u8>) -> (r: Result<Self, DecoderError>) {
        unimplemented!()
    }

    #[verifier::external_body]
    proof fn round(&self) {
    }
}

/// overlord::types::OverlordMsg
pub enum OverlordMsg<T> {
    SignedProposal(SignedProposal<T>),
    SignedVote(SignedVote),
    AggregatedVote(AggregatedVote),
    RichStatus(Status),
}

pub struct Overlord<A, B, C, D> {
    pub a: A,
    pub b: B,
    pub c: C,
    pub d: D,
}

//@item core/consensus/src/util.rs struct OverlordCrypto

/// overlord::OverlordHandler
pub struct OverlordHandler<T> {
    pub t: T,
}

impl OverlordHandler<FixedPill> {
    #[verifier::external_body]
    pub fn send_msg(&self, ctx: Context, msg: OverlordMsg<FixedPill>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { told: Ghost(old(w).told@.push((msg, r is Ok))), ..*old(w) }),
    {
        unimplemented!()
    }
}

//@item core/consensus/src/consensus.rs struct OverlordConsensus

/// Each epoch extends the one before it, from this height and this digest on.
#[verifier::opaque]
pub open spec fn chain(es: Seq<Epoch>, id: u64, h: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> #[trigger] linked(es, i, id, h)
}

pub open spec fn linked(es: Seq<Epoch>, i: int, id: u64, h: Seq<u8>) -> bool {
    &&& es[i].header.epoch_id == id + 1 + i
    &&& es[i].header.pre_hash@ == (if i == 0 {
        h
    } else {
        keccak(es[i - 1].enc())
    })
}

/// The transactions are the ones of this order, each under its own digest.
pub open spec fn ordered(txs: Seq<SignedTransaction>, hashes: Seq<Hash>) -> bool {
    &&& named(txs, hashes)
    &&& forall|i: int| 0 <= i < txs.len() ==> (#[trigger] txs[i]).tx_hash@ == keccak(txs[i].raw.enc())
}

/// An epoch executed on this state.
pub open spec fn ran(r: Run, root: Hash, s: CurrentConsensusStatus, me: NodeInfo, e: Epoch) -> bool {
    &&& r.chain == me.chain_id
    &&& r.root == root
    &&& r.height == e.header.epoch_id
    &&& r.price == s.cycles_price
    &&& r.coinbase == Address::User(e.header.proposer)
    &&& ordered(r.txs, e.ordered_tx_hashes@)
}

/// The state root the first n epochs leave.
pub open spec fn left(a: World, b: World, s0: CurrentConsensusStatus, n: int) -> Hash {
    if n == 0 {
        s0.state_root
    } else {
        b.runs@[a.runs@.len() + n - 1].resp->Some_0.state_root
    }
}

/// b is a with one more entry for each of the first n epochs.
pub open spec fn more<T>(a: Seq<T>, b: Seq<T>, n: int) -> bool {
    &&& b.len() == a.len() + n
    &&& a.is_prefix_of(b)
}

/// The first n epochs were executed one on the other, and saved.
#[verifier::opaque]
pub open spec fn progress(a: World, b: World, s0: CurrentConsensusStatus, me: NodeInfo, es: Seq<Epoch>, n: int) -> bool {
    &&& 0 <= n <= es.len()
    &&& grew(a, b, n)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] done(a, b, s0, me, es, i)
}

/// One more entry of every kind for each of them.
pub open spec fn grew(a: World, b: World, n: int) -> bool {
    &&& b == World { proofs: b.proofs, epochs: b.epochs, receipts: b.receipts, txs: b.txs, flushed: b.flushed, runs: b.runs, ..a }
    &&& more(a.proofs@, b.proofs@, n)
    &&& more(a.epochs@, b.epochs@, n)
    &&& more(a.receipts@, b.receipts@, n)
    &&& more(a.txs@, b.txs@, n)
    &&& more(a.flushed@, b.flushed@, n)
    &&& more(a.runs@, b.runs@, n)
}

pub open spec fn done(a: World, b: World, s0: CurrentConsensusStatus, me: NodeInfo, es: Seq<Epoch>, i: int) -> bool {
    let e = es[i];
    let run = b.runs@[a.runs@.len() + i];
    &&& ran(run, left(a, b, s0, i), s0, me, e)
    &&& run.resp is Some
    &&& b.proofs@[a.proofs@.len() + i] == (e.header.proof, true)
    &&& b.epochs@[a.epochs@.len() + i] == (e, true)
    &&& b.receipts@[a.receipts@.len() + i] == (run.resp->Some_0.receipts@, true)
    &&& b.txs@[a.txs@.len() + i] == (run.txs, true)
    &&& b.flushed@[a.flushed@.len() + i] == (e.ordered_tx_hashes@, true)
}

/// The status after n epochs.
#[verifier::opaque]
pub open spec fn status_at(a: World, b: World, s0: CurrentConsensusStatus, s: CurrentConsensusStatus, es: Seq<Epoch>, n: int) -> bool {
    if n == 0 {
        s == s0
    } else {
        describes(s, s0, es[n - 1].header.epoch_id, es[n - 1], es[n - 1].header.proof, b.runs@[a.runs@.len() + n - 1].resp->Some_0)
    }
}

/// A part of what is done for an epoch, on top of m.
pub open spec fn tried(m: World, b: World, root: Hash, s0: CurrentConsensusStatus, sm: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, e: Epoch) -> bool {
    let run = b.runs@.last();
    let resp = run.resp->Some_0;
    let did = b.runs@.len() > m.runs@.len();
    &&& b == World { proofs: b.proofs, epochs: b.epochs, receipts: b.receipts, txs: b.txs, flushed: b.flushed, runs: b.runs, ..m }
    &&& upto(m.proofs@, b.proofs@, e.header.proof)
    &&& did ==> b.runs@ == m.runs@.push(run) && ran(run, root, s0, me, e)
    &&& !did ==> b.runs@ == m.runs@
    &&& b.receipts@ == m.receipts@ || did && run.resp is Some && upto(m.receipts@, b.receipts@, resp.receipts@)
    &&& b.txs@ == m.txs@ || did && upto(m.txs@, b.txs@, run.txs)
    &&& b.epochs@ == m.epochs@ || did && upto(m.epochs@, b.epochs@, e)
    &&& upto(m.flushed@, b.flushed@, e.ordered_tx_hashes@)
    // the status moves only once all is saved
    &&& s1 == sm || {
        &&& did
        &&& run.resp is Some
        &&& describes(s1, s0, e.header.epoch_id, e, e.header.proof, resp)
        &&& b.proofs@ == m.proofs@.push((e.header.proof, true))
        &&& b.receipts@ == m.receipts@.push((resp.receipts@, true))
        &&& b.txs@ == m.txs@.push((run.txs, true))
        &&& b.epochs@ == m.epochs@.push((e, true))
    }
}

/// What catching up comes to: the epochs es, of which the first n are done and another may be
/// begun (on top of m, with the status sm).
#[verifier::opaque]
pub open spec fn caught(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>, es: Seq<Epoch>, n: int, m: World, sm: CurrentConsensusStatus) -> bool {
    &&& chain(es, id, h)
    &&& progress(a, m, s0, me, es, n)
    &&& status_at(a, m, s0, sm, es, n)
    &&& n == es.len() ==> s1 == sm && b == World { told: b.told, ..m }
    &&& n != es.len() ==> n + 1 == es.len() && tried(m, b, left(a, m, s0, n), s0, sm, s1, me, es[n])
}

/// Always so: a term that names where things end, for the proof to match on.
pub open spec fn here(a: World, b: World, s: CurrentConsensusStatus) -> bool {
    true
}

pub open spec fn extends(es: Seq<Epoch>, e: Epoch, id: u64, h: Seq<u8>) -> bool {
    &&& e.header.epoch_id == id + 1 + es.len()
    &&& e.header.pre_hash@ == (if es.len() == 0 {
        h
    } else {
        keccak(es.last().enc())
    })
}

pub proof fn lemma_more<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>, n: int, x: T)
    requires
        more(a, b, n),
        c == b.push(x),
        0 <= n,
    ensures
        more(a, c, n + 1),
        c[a.len() + n] == x,
        forall|i: int| 0 <= i < n ==> c[#[trigger] (a.len() + i)] == b[a.len() + i],
{
}

pub proof fn lemma_begin(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>, es: Seq<Epoch>, m: World, sm: CurrentConsensusStatus, e: Epoch)
    requires
        chain(es, id, h),
        extends(es, e, id, h),
        progress(a, m, s0, me, es, es.len() as int),
        status_at(a, m, s0, sm, es, es.len() as int),
        tried(m, b, left(a, m, s0, es.len() as int), s0, sm, s1, me, e),
    ensures
        caught(a, b, s0, s1, me, id, h, es.push(e), es.len() as int, m, sm),
{
    let n = es.len() as int;
    let fs = es.push(e);
    assert(fs[n] == e && fs.len() == n + 1);
    assert(chain(fs, id, h)) by {
        lemma_chain(es, e, id, h);
    }
    assert(progress(a, m, s0, me, fs, n)) by {
        lemma_same_progress(a, m, s0, me, es, fs, n);
    }
    assert(status_at(a, m, s0, sm, fs, n)) by {
        reveal(status_at);
        assert(n > 0 ==> fs[n - 1] == es[n - 1]);
    }
    reveal(caught);
}

pub proof fn lemma_chain(es: Seq<Epoch>, e: Epoch, id: u64, h: Seq<u8>)
    requires
        chain(es, id, h),
        extends(es, e, id, h),
    ensures
        chain(es.push(e), id, h),
{
    reveal(chain);
    let fs = es.push(e);
    assert forall|i: int| 0 <= i < fs.len() implies #[trigger] linked(fs, i, id, h) by {
        if i < es.len() {
            assert(linked(es, i, id, h));
            assert(fs[i] == es[i]);
            assert(i > 0 ==> fs[i - 1] == es[i - 1]);
        }
    }
}

pub proof fn lemma_same_done(a: World, m: World, s0: CurrentConsensusStatus, me: NodeInfo, es: Seq<Epoch>, fs: Seq<Epoch>, i: int)
    requires
        done(a, m, s0, me, es, i),
        fs[i] == es[i],
    ensures
        done(a, m, s0, me, fs, i),
{
}

pub proof fn lemma_same_progress(a: World, m: World, s0: CurrentConsensusStatus, me: NodeInfo, es: Seq<Epoch>, fs: Seq<Epoch>, n: int)
    requires
        progress(a, m, s0, me, es, n),
        es.is_prefix_of(fs),
    ensures
        progress(a, m, s0, me, fs, n),
{
    hide(done);
    hide(grew);
    reveal(progress);
    assert forall|i: int| 0 <= i < n implies #[trigger] done(a, m, s0, me, fs, i) by {
        assert(done(a, m, s0, me, es, i));
        assert(fs[i] == es[i]);
        lemma_same_done(a, m, s0, me, es, fs, i);
    }
}

/// Everything is done for an epoch.
pub open spec fn complete(m: World, b: World, root: Hash, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, e: Epoch) -> bool {
    let run = b.runs@.last();
    let resp = run.resp->Some_0;
    &&& b == World { proofs: b.proofs, epochs: b.epochs, receipts: b.receipts, txs: b.txs, flushed: b.flushed, runs: b.runs, ..m }
    &&& b.runs@ == m.runs@.push(run)
    &&& ran(run, root, s0, me, e)
    &&& run.resp is Some
    &&& describes(s1, s0, e.header.epoch_id, e, e.header.proof, resp)
    &&& b.proofs@ == m.proofs@.push((e.header.proof, true))
    &&& b.receipts@ == m.receipts@.push((resp.receipts@, true))
    &&& b.txs@ == m.txs@.push((run.txs, true))
    &&& b.epochs@ == m.epochs@.push((e, true))
    &&& b.flushed@ == m.flushed@.push((e.ordered_tx_hashes@, true))
}

pub proof fn lemma_one_more(a: World, m: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>, es: Seq<Epoch>, e: Epoch)
    requires
        chain(es, id, h),
        extends(es, e, id, h),
        progress(a, m, s0, me, es, es.len() as int),
        complete(m, b, left(a, m, s0, es.len() as int), s0, s1, me, e),
    ensures
        chain(es.push(e), id, h),
        progress(a, b, s0, me, es.push(e), es.len() as int + 1),
        status_at(a, b, s0, s1, es.push(e), es.len() as int + 1),
        left(a, b, s0, es.len() as int + 1) == b.runs@.last().resp->Some_0.state_root,
{
    hide(ran);
    hide(describes);
    hide(more);
    let n = es.len() as int;
    let fs = es.push(e);
    assert(fs[n] == e);
    assert(chain(fs, id, h)) by {
        lemma_chain(es, e, id, h);
    }
    reveal(progress);
    lemma_more(a.proofs@, m.proofs@, b.proofs@, n, (e.header.proof, true));
    lemma_more(a.epochs@, m.epochs@, b.epochs@, n, (e, true));
    lemma_more(a.receipts@, m.receipts@, b.receipts@, n, b.receipts@.last());
    lemma_more(a.txs@, m.txs@, b.txs@, n, b.txs@.last());
    lemma_more(a.flushed@, m.flushed@, b.flushed@, n, (e.ordered_tx_hashes@, true));
    lemma_more(a.runs@, m.runs@, b.runs@, n, b.runs@.last());
    assert(b.runs@[a.runs@.len() + n] == b.runs@.last());
    assert forall|i: int| 0 <= i <= n implies left(a, b, s0, i) == left(a, m, s0, i) by {
        if i > 0 {
            assert(b.runs@[a.runs@.len() + (i - 1)] == m.runs@[a.runs@.len() + (i - 1)]);
        }
    }
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] done(a, b, s0, me, fs, i) by {
        assert(left(a, b, s0, i) == left(a, m, s0, i));
        if i < n {
            assert(fs[i] == es[i]);
            assert(done(a, m, s0, me, es, i));
            assert(b.runs@[a.runs@.len() + i] == m.runs@[a.runs@.len() + i]);
            assert(b.proofs@[a.proofs@.len() + i] == m.proofs@[a.proofs@.len() + i]);
            assert(b.epochs@[a.epochs@.len() + i] == m.epochs@[a.epochs@.len() + i]);
            assert(b.receipts@[a.receipts@.len() + i] == m.receipts@[a.receipts@.len() + i]);
            assert(b.txs@[a.txs@.len() + i] == m.txs@[a.txs@.len() + i]);
            assert(b.flushed@[a.flushed@.len() + i] == m.flushed@[a.flushed@.len() + i]);
        }
    }
    assert(status_at(a, b, s0, s1, fs, n + 1)) by {
        reveal(status_at);
    }
}

/// All that is begun is done.
pub proof fn lemma_done(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>, es: Seq<Epoch>)
    requires
        chain(es, id, h),
        progress(a, b, s0, me, es, es.len() as int),
        status_at(a, b, s0, s1, es, es.len() as int),
    ensures
        forall|c: World| c == (World { told: c.told, ..b }) && #[trigger] here(a, c, s1) ==> caught(a, c, s0, s1, me, id, h, es, es.len() as int, b, s1),
{
    reveal(caught);
}

pub proof fn lemma_none(a: World, s0: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>)
    ensures
        chain(Seq::empty(), id, h),
        progress(a, a, s0, me, Seq::empty(), 0),
        status_at(a, a, s0, s0, Seq::empty(), 0),
{
    reveal(chain);
    reveal(progress);
    reveal(status_at);
}

/// What is saved while catching up is a chain that extends the epoch of the digest h, each epoch executed
/// on the state the one before it left, with the transactions it orders.
pub proof fn c22_chain(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>, es: Seq<Epoch>, n: int, m: World, sm: CurrentConsensusStatus, i: int)
    requires
        caught(a, b, s0, s1, me, id, h, es, n, m, sm),
        0 <= i < n,
    ensures
        n <= es.len(),
        m.epochs@[a.epochs@.len() + i] == (es[i], true),
        es[i].header.epoch_id == id + 1 + i,
        es[i].header.pre_hash@ == (if i == 0 { h } else { keccak(es[i - 1].enc()) }),
        m.runs@[a.runs@.len() + i].root == (if i == 0 { s0.state_root } else { m.runs@[a.runs@.len() + i - 1].resp->Some_0.state_root }),
        m.runs@[a.runs@.len() + i].height == es[i].header.epoch_id,
        ordered(m.runs@[a.runs@.len() + i].txs, es[i].ordered_tx_hashes@),
        m.txs@[a.txs@.len() + i] == (m.runs@[a.runs@.len() + i].txs, true),
        m.receipts@[a.receipts@.len() + i] == (m.runs@[a.runs@.len() + i].resp->Some_0.receipts@, true),
{
    reveal(caught);
    assert(chain(es, id, h) && progress(a, m, s0, me, es, n));
    reveal(chain);
    reveal(progress);
    assert(linked(es, i, id, h));
    assert(done(a, m, s0, me, es, i));
}

/// The status stays what it was, or is the one the last epoch saved calls for.
pub proof fn c22_status(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, h: Seq<u8>, es: Seq<Epoch>, n: int, m: World, sm: CurrentConsensusStatus)
    requires
        caught(a, b, s0, s1, me, id, h, es, n, m, sm),
    ensures
        s1 == s0 || (exists|k: int| 0 <= k < es.len() && #[trigger] rests_on(a, b, s0, s1, es[k], k)),
{
    reveal(caught);
    assert(chain(es, id, h) && progress(a, m, s0, me, es, n) && status_at(a, m, s0, sm, es, n));
    reveal(progress);
    reveal(status_at);
    if s1 == sm {
        if n > 0 {
            assert(done(a, m, s0, me, es, n - 1));
            assert(rests_on(a, b, s0, s1, es[n - 1], n - 1));
        }
    } else {
        assert(rests_on(a, b, s0, s1, es[n], n));
    }
}

/// The status is the one the k-th epoch saved calls for.
pub open spec fn rests_on(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, e: Epoch, k: int) -> bool {
    let run = b.runs@[a.runs@.len() + k];
    &&& b.epochs@[a.epochs@.len() + k] == (e, true)
    &&& describes(s1, s0, e.header.epoch_id, e, e.header.proof, run.resp->Some_0)
    &&& b.txs@[a.txs@.len() + k] == (run.txs, true)
    &&& b.receipts@[a.receipts@.len() + k] == (run.resp->Some_0.receipts@, true)
}

/// A proposal made after a commit extends the epoch committed, and repeats what its execution left.
pub proof fn c21_next(a: World, b: World, s0: CurrentConsensusStatus, s1: CurrentConsensusStatus, me: NodeInfo, id: u64, c: Commit<FixedPill>, next: EpochHeader)
    requires
        committed(a, b, s0, s1, me, id, c, true),
        repeats(next, s1, me),
    ensures
        next.epoch_id == id + 1,
        next.pre_hash@ == keccak(c.content.inner.epoch.enc()),
        next.state_root == b.runs@.last().resp->Some_0.state_root,
        next.confirm_root@ == seq![root_or_empty(c.content.inner.epoch.ordered_tx_hashes@)],
        next.receipt_root@ == seq![root_or_empty(digests(b.runs@.last().resp->Some_0.receipts@))],
        next.proof == b.proofs@.last().0,
        proof_of_commit(next.proof, c.proof),
        b.epochs@ == a.epochs@.push((c.content.inner.epoch, true)),
        named(b.runs@.last().txs, c.content.inner.epoch.ordered_tx_hashes@),
        b.runs@.last().root == s0.state_root,
{
}

/// The height to catch up to.
pub open spec fn target(msg: Seq<u8>) -> u64 {
    if id_of(msg)->Some_0 == 0 {
        0
    } else {
        (id_of(msg)->Some_0 - 1) as u64
    }
}

impl<Adapter: ConsensusAdapter> OverlordConsensus<Adapter> {
    /// An announcement that is one, is ahead, and finds nobody at work.
    pub open spec fn behind(&self, msg: Seq<u8>) -> bool {
        &&& self.lock.free()
        &&& self.engine.lock.free()
        &&& id_of(msg) is Some
        &&& self.engine.adapter.latest() + 1 < target(msg)
    }

//@fn core/consensus/src/consensus.rs OverlordConsensus@Consensus::update_epoch key OverlordConsensus::update_epoch
//@. params w: &mut World, hs: &mut LockHeap<CurrentConsensusStatus>
//@. requires
        self.engine.ok(old(hs)),
//@. ensures
        self.engine.ok(final(hs)),
        !self.behind(msg@) ==> final(hs).x@ == old(hs).x@ && *final(w) == *old(w),
        final(hs).x@ =~= old(hs).x@.insert(self.engine.current_consensus_status.id(), self.engine.st(final(hs))),
        here(*old(w), *final(w), self.engine.st(final(hs))) ==> exists|es: Seq<Epoch>, n: int, m: World, sm: CurrentConsensusStatus| #[trigger] caught(*old(w), *final(w), self.engine.st(old(hs)), self.engine.st(final(hs)), self.engine.node_info,
            self.engine.adapter.latest(), keccak(self.engine.adapter.stored(self.engine.adapter.latest()).enc()), es, n, m, sm)
            && self.upto_target(es, msg@)
            && (r is Ok && self.behind(msg@) ==> self.finished(es, n, msg@, old(w), final(w), final(hs))),
//@. at start
        let ghost a = *w;
        let ghost hs0 = *hs;
        let ghost eng = self.engine;
        let ghost cell = self.engine.current_consensus_status.id();
        let ghost s0 = self.engine.st(hs);
        let ghost me = self.engine.node_info;
        let ghost id0 = self.engine.adapter.latest();
        let ghost h0 = keccak(self.engine.adapter.stored(id0).enc());
        let ghost mut es = Seq::<Epoch>::empty();
        proof {
            lemma_hashes();
            lemma_none(a, s0, me, id0, h0);
            lemma_done(a, a, s0, s0, me, id0, h0, es);
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@.len() == rich_epoch_id - id0,
            id0 + 1 < rich_epoch_id,
            rich_epoch_id == target(msg@),
            forall|i: int| 0 <= i < __it0.s@.len() ==> (#[trigger] __it0.s@[i]).vi() == id0 + 1 + i,
            eng == self.engine,
            cell == self.engine.current_consensus_status.id(),
            me == self.engine.node_info,
            id0 == self.engine.adapter.latest(),
            h0 == keccak(self.engine.adapter.stored(id0).enc()),
            self.behind(msg@),
            hs0 == *old(hs),
            a == *old(w),
            s0 == self.engine.st(&hs0),
            self.engine.ok(hs),
            hs.x@ =~= hs0.x@.insert(cell, self.engine.st(hs)),
            es.len() == __it0.p@,
            chain(es, id0, h0),
            progress(a, *w, s0, me, es, es.len() as int),
            status_at(a, *w, s0, self.engine.st(hs), es, es.len() as int),
            same_terms(self.engine.st(hs), s0),
            w.told@ == a.told@,
            state_root == left(a, *w, s0, es.len() as int),
            current_hash@ == (if es.len() == 0 {
                h0
            } else {
                keccak(es.last().enc())
            }),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost m = *w;
            let ghost sm = self.engine.st(hs);
            let ghost n = es.len() as int;
            let ghost root = state_root;
            proof {
                lemma_hashes();
                assert(__it0.s@[n].vi() == id0 + 1 + n);
                lemma_done(a, m, s0, sm, me, id0, h0, es);
            }
//@. at before:save_proof:0
            proof {
                assert(extends(es, epoch, id0, h0));
                assert forall|b: World, s1: CurrentConsensusStatus| tried(m, b, root, s0, sm, s1, me, epoch)
                    && #[trigger] here(a, b, s1) implies caught(a, b, s0, s1, me, id0, h0, es.push(epoch), n, m, sm) by {
                    lemma_begin(a, b, s0, s1, me, id0, h0, es, m, sm, epoch);
                }
            }
//@. at loop:0:after
        proof {
            lemma_done(a, *w, s0, self.engine.st(hs), me, id0, h0, es);
        }
//@. at loop:0:end
            proof {
                assert(complete(m, *w, root, s0, self.engine.st(hs), me, epoch));
                lemma_one_more(a, m, *w, s0, self.engine.st(hs), me, id0, h0, es, epoch);
                es = es.push(epoch);
            }
//@end
//@fn core/consensus/src/consensus.rs OverlordConsensus::check_proof
//@end
//@fn core/consensus/src/consensus.rs OverlordConsensus@Consensus::set_proposal key OverlordConsensus::set_proposal
//@. params w: &mut World
//@. ensures
        told_of(*old(w), *final(w), match SignedProposal::<FixedPill>::of(proposal@) { Some(x) => Some(OverlordMsg::SignedProposal(x)), None => None }, r is Ok),
//@end
//@fn core/consensus/src/consensus.rs OverlordConsensus@Consensus::set_vote key OverlordConsensus::set_vote
//@. params w: &mut World
//@. ensures
        told_of(*old(w), *final(w), match SignedVote::of(vote@) { Some(x) => Some(OverlordMsg::SignedVote(x)), None => None }, r is Ok),
//@end
//@fn core/consensus/src/consensus.rs OverlordConsensus@Consensus::set_qc key OverlordConsensus::set_qc
//@. params w: &mut World
//@. ensures
        told_of(*old(w), *final(w), match AggregatedVote::of(qc@) { Some(x) => Some(OverlordMsg::AggregatedVote(x)), None => None }, r is Ok),
//@end

    pub open spec fn upto_target(&self, es: Seq<Epoch>, msg: Seq<u8>) -> bool {
        es.len() == 0 || self.engine.adapter.latest() + es.len() <= target(msg)
    }

    /// All epochs up to the height announced, and consensus goes on above it.
    pub open spec fn finished(&self, es: Seq<Epoch>, n: int, msg: Seq<u8>, w0: &World, w1: &World, hs: &LockHeap<CurrentConsensusStatus>) -> bool {
        &&& n == es.len()
        &&& self.engine.adapter.latest() + n == target(msg)
        &&& w1.told@.len() == w0.told@.len() + 1
        &&& w0.told@.is_prefix_of(w1.told@)
        &&& w1.told@.last().1
        &&& w1.told@.last().0 matches OverlordMsg::RichStatus(s) && {
            &&& s.epoch_id == target(msg) + 1
            &&& s.interval == Some(self.engine.st(hs).consensus_interval)
            &&& s.authority_list@ == nodes(self.engine.st(hs).validators@)
        }
    }
}

/// The engine is told this message, if it is one.
pub open spec fn told_of(a: World, b: World, m: Option<OverlordMsg<FixedPill>>, ok: bool) -> bool {
    match m {
        Some(x) => b == (World { told: Ghost(a.told@.push((x, ok))), ..a }),
        None => b == a && !ok,
    }
}

/// What goes over the wire for a message.
pub open spec fn gossiped(m: OverlordMsg<FixedPill>) -> Seq<u8> {
    match m {
        OverlordMsg::SignedProposal(x) => x.text(),
        OverlordMsg::SignedVote(x) => x.text(),
        OverlordMsg::AggregatedVote(x) => x.text(),
        _ => Seq::empty(),
    }
}

/// Where it goes.
pub open spec fn to_all(m: OverlordMsg<FixedPill>) -> Seq<char> {
    if m is SignedProposal {
        END_GOSSIP_SIGNED_PROPOSAL@
    } else {
        END_GOSSIP_AGGREGATED_VOTE@
    }
}

/// What one node gossips, the engine of another is told unchanged.
pub proof fn c27_gossip(m: OverlordMsg<FixedPill>, a: World, b: World, ok: bool)
    ensures
        m is SignedProposal && told_of(a, b, match SignedProposal::<FixedPill>::of(gossiped(m)) { Some(x) => Some(OverlordMsg::SignedProposal(x)), None => None }, ok)
            ==> b.told@ == a.told@.push((m, ok)),
        m is SignedVote && told_of(a, b, match SignedVote::of(gossiped(m)) { Some(x) => Some(OverlordMsg::SignedVote(x)), None => None }, ok)
            ==> b.told@ == a.told@.push((m, ok)),
        m is AggregatedVote && told_of(a, b, match AggregatedVote::of(gossiped(m)) { Some(x) => Some(OverlordMsg::AggregatedVote(x)), None => None }, ok)
            ==> b.told@ == a.told@.push((m, ok)),
{
    match m {
        OverlordMsg::SignedProposal(x) => x.round(),
        OverlordMsg::SignedVote(x) => x.round(),
        OverlordMsg::AggregatedVote(x) => x.round(),
        _ => {}
    }
}

//@fn core/consensus/src/consensus.rs gen_overlord_status key gen_overlord_status
//@. ensures
        r.epoch_id == epoch_id,
        r.interval == Some(interval),
        r.authority_list@ == nodes(validators@),
//@. at start
        let ghost vs = validators@;
        proof {
            lemma_bytes_eq();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == vs,
            __v2@.len() == __it0.p@,
            forall|i: int| 0 <= i < __v2@.len() ==> #[trigger] __v2@[i] == node_of(vs[i]),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert(__v2@ =~= vs.map_values(|v: Validator| node_of(v)));
        }
//@end
//@fn core/consensus/src/consensus.rs check_txs key check_txs
//@. ensures
        r is Ok <==> ordered(txs@, ordered_tx_hashes@),
//@. at start
        let ghost hs = ordered_tx_hashes@;
        proof {
            lemma_hashes();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@.len() == hs.len(),
            hs.len() == txs@.len(),
            hs == ordered_tx_hashes@,
            forall|i: int| 0 <= i < hs.len() ==> (#[trigger] __it0.s@[i]).0 == hs[i] && __it0.s@[i].1 == txs@[i],
            forall|i: int| 0 <= i < __it0.p@ ==> (#[trigger] txs@[i]).tx_hash == hs[i],
            forall|i: int| 0 <= i < __it0.p@ ==> (#[trigger] txs@[i]).tx_hash@ == keccak(txs@[i].raw.enc()),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                lemma_hashes();
                let n = __it0.p@ as int;
                assert(__it0.s@[n].1 == txs@[n]);
            }
//@end

// ------------------------------------------------------------------ the adapter in use
pub enum Priority {
    High,
    Normal,
}

/// protocol::traits::Gossip
pub trait Gossip: Sized {
    fn broadcast(&self, cx: Context, end: &str, msg: Vec<u8>, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { sent: Ghost(old(w).sent@.push((msg@, end@, MessageTarget::Broadcast, r is Ok))), ..*old(w) }),
    ;

    /// To one user.
    fn users_cast(&self, cx: Context, end: &str, users: Vec<UserAddress>, msg: Vec<u8>, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            users@.len() == 1 ==> *final(w) == (World { sent: Ghost(old(w).sent@.push((msg@, end@, MessageTarget::Specified(users@[0]), r is Ok))), ..*old(w) }),
    ;
}

/// protocol::traits::Rpc
pub trait Rpc: Sized {
    /// Whatever the peer answers.
    fn call<M: IsRequest, R: IsAnswer>(&self, ctx: Context, end: &str, msg: M, pri: Priority, w: &mut World) -> (r: ProtocolResult<R>)
        ensures
            *final(w) == (World { calls: Ghost(old(w).calls@.push((ctx, end@, msg.request(), if r is Ok { Some(r->Ok_0.answer()) } else { None }))), ..*old(w) }),
    ;

    fn response(&self, cx: Context, end: &str, msg: ConsensusRpcResponse, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { answered: Ghost(old(w).answered@.push((cx, end@, msg, r is Ok))), ..*old(w) }),
    ;
}

pub trait IsRequest: Sized {
    spec fn request(&self) -> ConsensusRpcRequest;
}

impl IsRequest for ConsensusRpcRequest {
    open spec fn request(&self) -> ConsensusRpcRequest {
        *self
    }
}

pub trait IsAnswer: Sized {
    spec fn answer(&self) -> ConsensusRpcResponse;
}

impl IsAnswer for ConsensusRpcResponse {
    open spec fn answer(&self) -> ConsensusRpcResponse {
        *self
    }
}

/// protocol::traits::MemPool (C18-C20)
pub trait MemPool: Sized {
    spec fn packed(&self, cycle_limit: u64) -> MixedTxHashes;

    fn package(&self, ctx: Context, cycle_limit: u64, w: &mut World) -> (r: ProtocolResult<MixedTxHashes>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> r->Ok_0 == self.packed(cycle_limit),
    ;

    fn ensure_order_txs(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { checked: Ghost(old(w).checked@.push((txs@, r is Ok))), ..*old(w) }),
    ;

    fn sync_propose_txs(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { synced: Ghost(old(w).synced@.push((txs@, r is Ok))), ..*old(w) }),
    ;

    fn get_full_txs(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<Vec<SignedTransaction>>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> named(r->Ok_0@, txs@),
    ;

    fn flush(&self, ctx: Context, txs: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { flushed: Ghost(old(w).flushed@.push((txs@, r is Ok))), ..*old(w) }),
    ;
}

/// protocol::traits::Storage (C15)
pub trait Storage: Sized {
    spec fn stored(&self, epoch_id: u64) -> Epoch;

    spec fn latest(&self) -> u64;

    fn insert_epoch(&self, epoch: Epoch, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { epochs: Ghost(old(w).epochs@.push((epoch, r is Ok))), ..*old(w) }),
    ;

    fn insert_receipts(&self, receipts: Vec<Receipt>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { receipts: Ghost(old(w).receipts@.push((receipts@, r is Ok))), ..*old(w) }),
    ;

    fn insert_transactions(&self, signed_txs: Vec<SignedTransaction>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { txs: Ghost(old(w).txs@.push((signed_txs@, r is Ok))), ..*old(w) }),
    ;

    fn update_latest_proof(&self, proof: Proof, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { proofs: Ghost(old(w).proofs@.push((proof, r is Ok))), ..*old(w) }),
    ;

    fn get_epoch_by_epoch_id(&self, epoch_id: u64) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok ==> r->Ok_0 == self.stored(epoch_id),
    ;

    /// The transaction stored under this hash.
    spec fn tx(&self, h: Hash) -> SignedTransaction;

    fn get_transaction_by_hash(&self, h: Hash) -> (r: ProtocolResult<SignedTransaction>)
        ensures
            r is Ok ==> r->Ok_0 == self.tx(h),
    ;

    fn get_latest_epoch(&self) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok ==> r->Ok_0.header.epoch_id == self.latest(),
    ;
}

pub trait TrieDB: Sized {
}

/// Box<dyn Executor> (C10): what it was opened with.
pub struct AnyExecutor {
    pub chain: Ghost<Hash>,
    pub root: Ghost<Hash>,
    pub height: Ghost<u64>,
    pub price: Ghost<u64>,
    pub coinbase: Ghost<Address>,
}

impl AnyExecutor {
    #[verifier::external_body]
    pub fn exec(&mut self, signed_txs: Vec<SignedTransaction>, w: &mut World) -> (r: ProtocolResult<ExecutorExecResp>)
        ensures
            asked(*old(w), *final(w), Run {
                chain: old(self).chain@,
                root: old(self).root@,
                height: old(self).height@,
                price: old(self).price@,
                coinbase: old(self).coinbase@,
                txs: signed_txs@,
                resp: r.ok(),
            }),
    {
        unimplemented!()
    }
}

pub trait ExecutorFactory<DB>: Sized {
    fn from_root(chain_id: Hash, state_root: MerkleRoot, db: DB, epoch_id: u64, cycles_price: u64, coinbase: Address) -> (r: ProtocolResult<AnyExecutor>)
        ensures
            r is Ok ==> r->Ok_0.chain@ == chain_id && r->Ok_0.root@ == state_root && r->Ok_0.height@ == epoch_id && r->Ok_0.price@ == cycles_price
                && r->Ok_0.coinbase@ == coinbase,
    ;
}

//@item core/consensus/src/fixed_types.rs struct PullTxsRequest
//@item core/consensus/src/fixed_types.rs enum ConsensusRpcRequest
//@item core/consensus/src/fixed_types.rs enum ConsensusRpcResponse
//@item core/consensus/src/adapter.rs struct OverlordConsensusAdapter

impl PullTxsRequest {
//@fn core/consensus/src/fixed_types.rs PullTxsRequest::new
//@. ensures
        r.inner == inner,
//@end
}

impl<EF: ExecutorFactory<DB>, G: Gossip, M: MemPool, R: Rpc, S: Storage, DB: TrieDB + Clone> OverlordConsensusAdapter<EF, G, M, R, S, DB> {
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::get_txs_from_mempool
//@. params w: &mut World
//@. ensures
        *final(w) == *old(w),
        r is Ok ==> r->Ok_0 == self.mempool.packed(cycle_limit),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::check_txs
//@. params w: &mut World
//@. ensures
        *final(w) == (World { checked: Ghost(old(w).checked@.push((check_txs@, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::sync_txs
//@. params w: &mut World
//@. ensures
        *final(w) == (World { synced: Ghost(old(w).synced@.push((txs@, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::get_full_txs
//@. params w: &mut World
//@. ensures
        *final(w) == *old(w),
        r is Ok ==> named(r->Ok_0@, txs@),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::transmit
//@. params w: &mut World
//@. ensures
        *final(w) == (World { sent: Ghost(old(w).sent@.push((msg@, end@, target, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::execute
//@. params w: &mut World
//@. ensures
        asked(*old(w), *final(w), Run {
            chain: node_info.chain_id,
            root: state_root,
            height: epoch_id,
            price: cycles_price,
            coinbase,
            txs: signed_txs@,
            resp: r.ok(),
        }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::flush_mempool
//@. params w: &mut World
//@. ensures
        *final(w) == (World { flushed: Ghost(old(w).flushed@.push((txs@, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::save_epoch
//@. params w: &mut World
//@. ensures
        *final(w) == (World { epochs: Ghost(old(w).epochs@.push((epoch, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::save_receipts
//@. params w: &mut World
//@. ensures
        *final(w) == (World { receipts: Ghost(old(w).receipts@.push((receipts@, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::save_proof
//@. params w: &mut World
//@. ensures
        *final(w) == (World { proofs: Ghost(old(w).proofs@.push((proof, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::save_signed_txs
//@. params w: &mut World
//@. ensures
        *final(w) == (World { txs: Ghost(old(w).txs@.push((signed_txs@, r is Ok))), ..*old(w) }),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::get_last_validators
//@. ensures
        r is Ok ==> r->Ok_0@ == self.storage.stored(epoch_id).header.validators@,
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::get_current_epoch_id
//@. ensures
        r is Ok ==> r->Ok_0 == self.storage.latest(),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::pull_epoch
//@. params w: &mut World
//@. ensures
        *final(w) == (World { calls: Ghost(old(w).calls@.push((ctx, end@, ConsensusRpcRequest::PullEpochs(epoch_id), final(w).calls@.last().3))), ..*old(w) }),
        r is Ok ==> final(w).calls@.last().3 == Some(ConsensusRpcResponse::PullEpochs(r->Ok_0)),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::pull_txs
//@. params w: &mut World
//@. ensures
        *final(w) == (World { calls: Ghost(old(w).calls@.push(final(w).calls@.last())), ..*old(w) }),
        final(w).calls@.last().2 matches ConsensusRpcRequest::PullTxs(q) && q.inner == hashes,
        final(w).calls@.last().0 == ctx && final(w).calls@.last().1 == end@,
        r is Ok ==> (final(w).calls@.last().3 matches Some(ConsensusRpcResponse::PullTxs(t)) && t.inner == r->Ok_0),
//@end
//@fn core/consensus/src/adapter.rs OverlordConsensusAdapter@ConsensusAdapter::get_epoch_by_id
//@. ensures
        r is Ok ==> r->Ok_0 == self.storage.stored(epoch_id),
//@end
}

// ------------------------------------------------------------------ hearing from peers
pub enum Gossiped {
    Proposal,
    Vote,
    QC,
    EpochID,
}

pub open spec fn hears(a: World, b: World, k: Gossiped, m: Seq<u8>, ok: bool) -> bool {
    b == (World { heard: Ghost(a.heard@.push((k, m, ok))), ..a })
}

/// protocol::traits::Consensus (what it does with it: set_*, update_epoch)
pub trait Consensus: Sized {
    fn set_proposal(&self, ctx: Context, proposal: Vec<u8>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            hears(*old(w), *final(w), Gossiped::Proposal, proposal@, r is Ok),
    ;

    fn set_vote(&self, ctx: Context, vote: Vec<u8>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            hears(*old(w), *final(w), Gossiped::Vote, vote@, r is Ok),
    ;

    fn set_qc(&self, ctx: Context, qc: Vec<u8>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            hears(*old(w), *final(w), Gossiped::QC, qc@, r is Ok),
    ;

    fn update_epoch(&self, ctx: Context, msg: Vec<u8>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            hears(*old(w), *final(w), Gossiped::EpochID, msg@, r is Ok),
    ;
}

//@item core/consensus/src/message.rs struct Proposal
//@item core/consensus/src/message.rs struct ProposalMessageHandler

impl<C: Consensus> ProposalMessageHandler<C> {
//@fn core/consensus/src/message.rs ProposalMessageHandler@MessageHandler::process key ProposalMessageHandler::process
//@. params w: &mut World
//@. type Self::Message => Proposal
//@. ensures
        hears(*old(w), *final(w), Gossiped::Proposal, msg.0@, r is Ok),
//@end
}

//@item core/consensus/src/message.rs struct Vote
//@item core/consensus/src/message.rs struct VoteMessageHandler

impl<C: Consensus> VoteMessageHandler<C> {
//@fn core/consensus/src/message.rs VoteMessageHandler@MessageHandler::process key VoteMessageHandler::process
//@. params w: &mut World
//@. type Self::Message => Vote
//@. ensures
        hears(*old(w), *final(w), Gossiped::Vote, msg.0@, r is Ok),
//@end
}

//@item core/consensus/src/message.rs struct QC
//@item core/consensus/src/message.rs struct QCMessageHandler

impl<C: Consensus> QCMessageHandler<C> {
//@fn core/consensus/src/message.rs QCMessageHandler@MessageHandler::process key QCMessageHandler::process
//@. params w: &mut World
//@. type Self::Message => QC
//@. ensures
        hears(*old(w), *final(w), Gossiped::QC, msg.0@, r is Ok),
//@end
}

//@item core/consensus/src/message.rs struct RichEpochID
//@item core/consensus/src/message.rs struct RichEpochIDMessageHandler

impl<C: Consensus> RichEpochIDMessageHandler<C> {
//@fn core/consensus/src/message.rs RichEpochIDMessageHandler@MessageHandler::process key RichEpochIDMessageHandler::process
//@. params w: &mut World
//@. type Self::Message => RichEpochID
//@. ensures
        hears(*old(w), *final(w), Gossiped::EpochID, msg.0@, r is Ok),
//@end
}

// ------------------------------------------------------------------ answering peers
//@item core/consensus/src/message.rs struct RpcHandler

impl<R: Rpc, S: Storage> RpcHandler<R, S> {
//@fn core/consensus/src/message.rs RpcHandler@MessageHandler::process key RpcHandler::process
//@. params w: &mut World
//@. ensures
        r is Err ==> *final(w) == *old(w) || final(w).answered@.len() == old(w).answered@.len() + 1,
        *final(w) == (World { answered: final(w).answered, ..*old(w) }),
        final(w).answered@ == old(w).answered@ || final(w).answered@ == old(w).answered@.push((ctx, RPC_RESP_SYNC_PULL@, final(w).answered@.last().2, r is Ok)),
        r is Ok ==> final(w).answered@ != old(w).answered@,
        final(w).answered@ != old(w).answered@ ==> self.answer(msg, final(w).answered@.last().2),
//@. at start
        let ghost hs = if let ConsensusRpcRequest::PullTxs(ref q) = msg { q.inner@ } else { Seq::empty() };
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == hs,
            res@.len() == __it0.p@,
            forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] == self.storage.tx(hs[i]),
        decreases __it0.s@.len() - __it0.p@,
//@end

    /// What the peer asked for.
    pub open spec fn answer(&self, q: ConsensusRpcRequest, a: ConsensusRpcResponse) -> bool {
        match q {
            ConsensusRpcRequest::PullEpochs(n) => a == ConsensusRpcResponse::PullEpochs(self.storage.stored(n)),
            ConsensusRpcRequest::PullTxs(t) => a matches ConsensusRpcResponse::PullTxs(x) && x.inner@ =~= t.inner@.map_values(|h: Hash| self.storage.tx(h)),
        }
    }
}

impl VxExtend for Bytes {
    open spec fn xv(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_extend<B: VxBytes>(&mut self, b: B) {
        unimplemented!()
    }
}

/// The bytes of an answer: its own, and a letter for its kind.
pub open spec fn answer_bytes(a: ConsensusRpcResponse) -> Seq<u8> {
    match a {
        ConsensusRpcResponse::PullEpochs(e) => e.enc() + seq![97u8],
        ConsensusRpcResponse::PullTxs(t) => txs_bytes(t) + seq![98u8],
    }
}

pub open spec fn answer_of(b: Seq<u8>) -> Option<ConsensusRpcResponse> {
    let d = b.drop_last();
    if b.len() == 0 {
        None
    } else if b.last() == 97 && Epoch::dec(d) is Some {
        Some(ConsensusRpcResponse::PullEpochs(Epoch::dec(d)->Some_0))
    } else if b.last() == 98 && txs_of(d) is Some {
        Some(ConsensusRpcResponse::PullTxs(txs_of(d)->Some_0))
    } else {
        None
    }
}

impl ConsensusRpcResponse {
//@fn core/consensus/src/fixed_types.rs ConsensusRpcResponse@MessageCodec::encode
//@. ensures
        r is Ok ==> r->Ok_0@ == answer_bytes(*old(self)),
        *final(self) == *old(self),
//@end
//@fn core/consensus/src/fixed_types.rs ConsensusRpcResponse@MessageCodec::decode
//@. ensures
        r.ok() == answer_of(bytes@),
//@. at start
        proof {
            let d = bytes@.drop_last();
            assert(bytes@.len() > 0 ==> bytes@.take(bytes@.len() - 1) =~= d && bytes@.skip(bytes@.len() - 1) =~= seq![bytes@.last()]);
            assert([97u8]@ =~= seq![97u8] && [98u8]@ =~= seq![98u8]);
            assert(seq![97u8][0] == 97 && seq![98u8][0] == 98);
        }
//@end
}

// ------------------------------------------------------------------ signatures
/// common_crypto
pub uninterp spec fn genuine(hash: Seq<u8>, sig: Seq<u8>, key: Seq<u8>) -> bool;

/// The public key of a private key.
pub uninterp spec fn pub_of(key: Seq<u8>) -> Seq<u8>;

pub struct Secp256k1PublicKey {
    pub b: Ghost<Seq<u8>>,
}

pub struct Secp256k1PrivateKey {
    pub b: Ghost<Seq<u8>>,
}

pub struct Secp256k1Signature {
    pub b: Ghost<Seq<u8>>,
}

impl Secp256k1PublicKey {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Bytes)
        ensures
            r@ == self.b@,
    {
        unimplemented!()
    }
}

impl Secp256k1PrivateKey {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Bytes)
        ensures
            r@ == self.b@,
    {
        unimplemented!()
    }
}

impl Secp256k1Signature {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Bytes)
        ensures
            r@ == self.b@,
    {
        unimplemented!()
    }
}

pub struct Secp256k1;

impl Secp256k1 {
    #[verifier::external_body]
    pub fn sign_message(hash: &Bytes, key: &Bytes) -> (r: Result<Secp256k1Signature, CryptoError>)
        ensures
            r is Ok ==> genuine(hash@, r->Ok_0.b@, pub_of(key@)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn verify_signature(hash: &Bytes, sig: &Bytes, key: &Bytes) -> (r: Result<(), CryptoError>)
        ensures
            r is Ok <==> genuine(hash@, sig@, key@),
    {
        unimplemented!()
    }
}

impl OverlordCrypto {
    /// The keys are a pair.
    pub open spec fn ok(&self) -> bool {
        self.public_key.b@ == pub_of(self.private_key.b@) && self.public_key.b@.len() == 33
    }

//@fn core/consensus/src/util.rs OverlordCrypto::new
//@. ensures
        r.public_key == public_key,
        r.private_key == private_key,
//@end
//@fn core/consensus/src/util.rs OverlordCrypto@Crypto::hash
//@. ensures
        r@ == keccak(msg@),
//@end
//@fn core/consensus/src/util.rs OverlordCrypto@Crypto::sign
//@. requires
        self.ok(),
//@. ensures
        r is Ok ==> speaks(r->Ok_0@, hash@, self.public_key.b@),
//@. at start
        proof {
            let k = self.public_key.b@;
            assert forall|s: Seq<u8>| (#[trigger] (k + s)).take(33) == k && (k + s).skip(33) == s by {
                assert((k + s).take(33) =~= k);
                assert((k + s).skip(33) =~= s);
            }
        }
//@end
//@fn core/consensus/src/util.rs OverlordCrypto@Crypto::verify_signature
//@. ensures
        r is Ok <==> signature@.len() >= 33 && speaks(signature@, hash@, signature@.take(33)),
        r is Ok ==> r->Ok_0@ == seq![0x10u8] + keccak(signature@.take(33)).take(20),
//@end
}

/// A signature of this hash that carries its key.
pub open spec fn speaks(s: Seq<u8>, hash: Seq<u8>, key: Seq<u8>) -> bool {
    &&& s.len() >= 33
    &&& s.take(33) == key
    &&& genuine(hash, s.skip(33), key)
}
} // verus!
