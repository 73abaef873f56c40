//@include types.vrs assume
//@type "PhantomData<$>" => "core::marker::PhantomData<$>"
//@type "Box<dynExecutor>" => "Ex"
//@path runtime::spawn => vx_spawn
//@path Hash::from_hex => Hash::from_hex
//@method unwrap/0 => vx_must
//@method contains/1 => vx_has
//@method to_string/0 => vx_text
//@method to_owned/0 => vx_to_owned
//@heapfn RocksAdapter::new w
//@heapfn RocksTrieDB::new w
//@heapfn storage.get_latest_epoch w
//@heapfn storage.insert_epoch w
//@heapfn storage.update_latest_proof w
//@heapfn executor.create_genesis w
//@heapfn vx_spawn w
//@heapfn overlord_consensus.run w
use core::marker::PhantomData;

verus! {

//@item protocol/src/types/epoch.rs struct Epoch need:Clone
//@item protocol/src/types/epoch.rs struct EpochHeader need:Clone
//@item protocol/src/types/epoch.rs struct Proof need:Clone
//@item protocol/src/types/epoch.rs struct Validator need:Clone
//@item protocol/src/traits/consensus.rs struct NodeInfo
//@item protocol/src/traits/consensus.rs struct CurrentConsensusStatus

/// A result the program does not go on without: it stops with an error message.
pub trait VxMust {
    type T;

    spec fn must(&self) -> Option<Self::T>;

    fn vx_must(self) -> (r: Self::T)
        ensures
            self.must() == Some(r),
    ;
}

impl<T, E> VxMust for Result<T, E> {
    type T = T;

    open spec fn must(&self) -> Option<T> {
        match *self {
            Ok(t) => Some(t),
            Err(_) => None,
        }
    }

    #[verifier::external_body]
    fn vx_must(self) -> (r: T) {
        unimplemented!()
    }
}

impl<T> VxMust for Option<T> {
    type T = T;

    open spec fn must(&self) -> Option<T> {
        *self
    }

    #[verifier::external_body]
    fn vx_must(self) -> (r: T) {
        unimplemented!()
    }
}

impl Epoch {
    /// Its canonical encoding (C12).
    pub uninterp spec fn enc(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok ==> r->Ok_0@ == self.enc(),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ std
#[derive(Clone, Copy)]
pub struct SocketAddr {
    pub a: u64,
}

/// std::path::PathBuf: its parts
pub struct PathBuf {
    pub p: Ghost<Seq<Seq<char>>>,
}

impl View for PathBuf {
    type V = Seq<Seq<char>>;

    open spec fn view(&self) -> Seq<Seq<char>> {
        self.p@
    }
}

impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl PathBuf {
    /// of one relative part
    #[verifier::external_body]
    pub fn push(&mut self, s: &str)
        ensures
            final(self)@ == old(self)@.push(s@),
    {
        unimplemented!()
    }
}

//@item src/config.rs struct ConfigGraphQL
//@item src/config.rs struct ConfigNetwork
//@item src/config.rs struct ConfigNetworkBootstrap
//@item src/config.rs struct ConfigMempool
//@item src/config.rs struct ConfigConsensus
//@item src/config.rs struct ConfigExecutor
//@item src/config.rs struct Config

/// overlord::DurationConfig
pub struct DurationConfig {
    pub d: Ghost<int>,
}

impl Clone for DurationConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Config {
    pub open spec fn block_path(&self) -> Seq<Seq<char>> {
        self.data_path@.push("rocksdb"@).push("block_data"@)
    }

    pub open spec fn state_path(&self) -> Seq<Seq<char>> {
        self.data_path@.push("rocksdb"@).push("state_data"@)
    }

//@fn src/config.rs Config::data_path_for_state
//@. ensures
        r@ == self.state_path(),
//@end
//@fn src/config.rs Config::data_path_for_block
//@. ensures
        r@ == self.block_path(),
//@end
}

/// The chain and the state never share a directory.
pub proof fn lemma_apart(c: Config, d: Config)
    requires
        c.data_path@ == d.data_path@,
    ensures
        c.block_path() != d.state_path(),
{
    reveal_strlit("block_data");
    reveal_strlit("state_data");
    assert("block_data"@[0] == 'b' && "state_data"@[0] == 's');
    assert(c.block_path().last() == "block_data"@ && d.state_path().last() == "state_data"@);
}

// ------------------------------------------------------------------ keys
pub trait PrivateKey {}

pub struct Secp256k1 {}

pub struct Secp256k1PrivateKey {
    pub b: Ghost<Seq<u8>>,
}

pub struct Secp256k1PublicKey {
    pub b: Ghost<Seq<u8>>,
}

/// The public key of a private one.
pub uninterp spec fn pub_of(key: Seq<u8>) -> Seq<u8>;

pub struct CryptoError {}

impl Secp256k1PrivateKey {
    #[verifier::external_body]
    pub fn try_from(b: &[u8]) -> (r: Result<Self, CryptoError>)
        ensures
            r is Ok ==> r->Ok_0.b@ == b@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn pub_key(&self) -> (r: Secp256k1PublicKey)
        ensures
            r.b@ == pub_of(self.b@),
    {
        unimplemented!()
    }
}

impl Secp256k1PublicKey {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Bytes)
        ensures
            r@ == self.b@,
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ what is on the disk, and what is put to run
pub struct Chain {
    pub latest: Option<Epoch>,
    pub proof: Option<Proof>,
}

pub struct World {
    /// the chain in each directory
    pub chains: Map<Seq<Seq<char>>, Chain>,
    /// the roots of the states in each directory
    pub states: Map<Seq<Seq<char>>, Set<Seq<u8>>>,
    pub nets: Seq<NetworkService>,
    pub apis: Seq<(GraphQLConfig, Api)>,
    pub runs: Seq<(Cons, u64, Option<DurationConfig>)>,
}

/// core-storage over RocksDB (C15, C16)
pub struct RocksAdapter {
    pub p: Ghost<Seq<Seq<char>>>,
}

impl Clone for RocksAdapter {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl RocksAdapter {
    #[verifier::external_body]
    pub fn new(path: PathBuf, w: &mut World) -> (r: ProtocolResult<RocksAdapter>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> r->Ok_0.p@ == path@ && old(w).chains.contains_key(path@),
    {
        unimplemented!()
    }
}

pub struct ImplStorage<A> {
    pub adapter: A,
}

impl Clone for ImplStorage<RocksAdapter> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

/// The text of an error, and whether a text says that there is nothing stored.
pub uninterp spec fn says_none(s: Seq<char>) -> bool;

pub trait VxHas {
    spec fn vc(&self) -> Seq<char>;

    fn vx_has(&self, s: &str) -> (r: bool)
        ensures
            s@ == "GetNone"@ ==> r == says_none(self.vc()),
    ;
}

impl VxHas for String {
    open spec fn vc(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_has(&self, s: &str) -> (r: bool) {
        unimplemented!()
    }
}

pub uninterp spec fn err_text(e: ProtocolError) -> Seq<char>;

impl ProtocolError {
    #[verifier::external_body]
    pub fn vx_text(&self) -> (r: String)
        ensures
            r@ == err_text(*self),
    {
        unimplemented!()
    }
}

impl ImplStorage<RocksAdapter> {
    pub fn new(adapter: RocksAdapter) -> (r: Self)
        ensures
            r.adapter == adapter,
    {
        ImplStorage { adapter }
    }

    pub open spec fn chain(&self, w: World) -> Chain {
        w.chains[self.adapter.p@]
    }

    #[verifier::external_body]
    pub fn get_latest_epoch(&self, w: &mut World) -> (r: ProtocolResult<Epoch>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> self.chain(*old(w)).latest == Some(r->Ok_0),
            r is Err && says_none(err_text(r->Err_0)) ==> self.chain(*old(w)).latest is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_latest_proof(&self, w: &mut World) -> (r: ProtocolResult<Proof>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> self.chain(*old(w)).proof == Some(r->Ok_0),
    {
        unimplemented!()
    }

    /// Once a latest epoch is there, a node that was stopped does not begin the chain again: what goes
    /// with the epoch is stored before it.
    #[verifier::external_body]
    pub fn insert_epoch(&self, e: Epoch, w: &mut World) -> (r: ProtocolResult<()>)
        requires
            self.chain(*old(w)).proof is Some,
        ensures
            r is Ok ==> *final(w) == (World {
                chains: old(w).chains.insert(self.adapter.p@, Chain { latest: Some(e), ..self.chain(*old(w)) }),
                ..*old(w)
            }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn update_latest_proof(&self, p: Proof, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            r is Ok ==> *final(w) == (World {
                chains: old(w).chains.insert(self.adapter.p@, Chain { proof: Some(p), ..self.chain(*old(w)) }),
                ..*old(w)
            }),
    {
        unimplemented!()
    }
}

/// The state (C07, C08)
pub struct RocksTrieDB {
    pub p: Ghost<Seq<Seq<char>>>,
    pub light: bool,
}

impl Clone for RocksTrieDB {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl RocksTrieDB {
    #[verifier::external_body]
    pub fn new(path: PathBuf, light: bool, w: &mut World) -> (r: ProtocolResult<RocksTrieDB>)
        ensures
            *final(w) == *old(w),
            r is Ok ==> r->Ok_0.p@ == path@ && r->Ok_0.light == light && old(w).states.contains_key(path@),
    {
        unimplemented!()
    }
}

/// The root of the state a genesis file declares (C09, C10); whoever makes it.
pub uninterp spec fn genesis_root(chain: Seq<u8>, price: u64, g: Genesis) -> Seq<u8>;

pub struct TransactionExecutorFactory {}

pub struct Ex {
    pub chain: Ghost<Seq<u8>>,
    pub root: Ghost<Seq<u8>>,
    pub db: RocksTrieDB,
    pub id: u64,
    pub price: u64,
}

impl TransactionExecutorFactory {
    #[verifier::external_body]
    pub fn from_root(chain_id: Hash, root: MerkleRoot, db: RocksTrieDB, epoch_id: u64, cycles_price: u64, coinbase: Address) -> (r: ProtocolResult<Ex>)
        ensures
            r is Ok ==> r->Ok_0.chain@ == chain_id@ && r->Ok_0.root@ == root@ && r->Ok_0.db == db && r->Ok_0.id == epoch_id && r->Ok_0.price == cycles_price,
    {
        unimplemented!()
    }
}

pub struct VxRoot {}

impl VxRoot {
    /// The root of a trie of nothing.
    pub uninterp spec fn empty() -> Seq<u8>;
}

impl Ex {
    #[verifier::external_body]
    pub fn create_genesis(&mut self, genesis: &Genesis, w: &mut World) -> (r: ProtocolResult<MerkleRoot>)
        ensures
            r is Ok && old(self).root@ == keccak(null_rlp()) && old(self).id == 0
                ==> r->Ok_0@ == genesis_root(old(self).chain@, old(self).price, *genesis),
            r is Ok ==> *final(w) == (World {
                states: old(w).states.insert(old(self).db.p@, old(w).states[old(self).db.p@].insert(r->Ok_0@)),
                ..*old(w)
            }),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ the genesis file
pub struct File {
    pub p: Ghost<Seq<char>>,
}

pub struct IoError {}

/// What the file of this name declares.
pub uninterp spec fn declared(p: Seq<char>) -> Genesis;

impl File {
    #[verifier::external_body]
    pub fn open(p: &str) -> (r: Result<File, IoError>)
        ensures
            r is Ok ==> r->Ok_0.p@ == p@,
    {
        unimplemented!()
    }
}

pub mod serde_json {
    use super::*;

    #[verifier::external_body]
    pub fn from_reader(f: &mut File) -> (r: Result<Genesis, IoError>)
        ensures
            r is Ok ==> r->Ok_0 == declared(old(f).p@),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ the network
/// Who serves an endpoint.
pub enum Served {
    NewTxs(Pool),
    PullTxs(Pool),
    Proposal(Cons),
    Vote(Cons),
    QC(Cons),
    RichEpochID(Cons),
    Pull(ImplStorage<RocksAdapter>),
}

pub trait Handler {
    spec fn served(&self) -> Served;
}

pub uninterp spec fn answer<M>() -> int;

pub struct NetworkConfig {
    pub boots: Ghost<Seq<(Seq<char>, SocketAddr)>>,
    pub key: Ghost<Seq<char>>,
}

impl NetworkConfig {
    #[verifier::external_body]
    pub fn new() -> (r: NetworkConfig)
        ensures
            r.boots@.len() == 0,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn bootstraps(self, pairs: Vec<(String, SocketAddr)>) -> (r: ProtocolResult<NetworkConfig>)
        ensures
            r is Ok ==> r->Ok_0.key == self.key && r->Ok_0.boots@ == pairs@.map_values(|p: (String, SocketAddr)| (p.0@, p.1)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn secio_keypair(self, sk_hex: String) -> (r: ProtocolResult<NetworkConfig>)
        ensures
            r is Ok ==> r->Ok_0.boots == self.boots && r->Ok_0.key@ == sk_hex@,
    {
        unimplemented!()
    }
}

pub struct NetworkServiceHandle {
    pub h: Ghost<int>,
}

pub struct NetworkService {
    pub config: NetworkConfig,
    pub listen: Ghost<Option<SocketAddr>>,
    pub ends: Ghost<Map<Seq<char>, Served>>,
    pub answers: Ghost<Map<Seq<char>, int>>,
}

impl NetworkService {
    #[verifier::external_body]
    pub fn new(config: NetworkConfig) -> (r: NetworkService)
        ensures
            r.config == config,
            r.listen@ is None,
            r.ends@ == Map::<Seq<char>, Served>::empty(),
            r.answers@ == Map::<Seq<char>, int>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn listen(&mut self, a: SocketAddr) -> (r: ProtocolResult<()>)
        ensures
            r is Ok ==> *final(self) == (NetworkService { listen: Ghost(Some(a)), ..*old(self) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn register_endpoint_handler<H: Handler>(&mut self, end: &str, handler: H) -> (r: ProtocolResult<()>)
        ensures
            r is Ok ==> *final(self) == (NetworkService { ends: Ghost(old(self).ends@.insert(end@, handler.served())), ..*old(self) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn register_rpc_response<M>(&mut self, end: &str) -> (r: ProtocolResult<()>)
        ensures
            r is Ok ==> *final(self) == (NetworkService { answers: Ghost(old(self).answers@.insert(end@, answer::<M>())), ..*old(self) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn handle(&self) -> (r: NetworkServiceHandle) {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ the pool (C18-C20)
//@item core/mempool/src/adapter/message.rs const END_GOSSIP_NEW_TXS
//@item core/mempool/src/adapter/message.rs const END_RPC_PULL_TXS
//@item core/mempool/src/adapter/message.rs const END_RESP_PULL_TXS

pub struct MsgPushTxs {}

pub struct DefaultMemPoolAdapter<C, N, S> {
    pub storage: S,
    pub gap: u64,
    pub size: usize,
    pub interval: u64,
    pub pin: core::marker::PhantomData<(C, N)>,
}

impl<C, N, S> DefaultMemPoolAdapter<C, N, S> {
    #[verifier::external_body]
    pub fn new(network: N, storage: S, timeout_gap: u64, broadcast_txs_size: usize, broadcast_txs_interval: u64) -> (r: Self)
        ensures
            r.storage == storage && r.gap == timeout_gap && r.size == broadcast_txs_size && r.interval == broadcast_txs_interval,
    {
        unimplemented!()
    }
}

pub struct HashMemPool<A> {
    pub size: usize,
    pub gap: u64,
    pub adapter: A,
}

pub type Pool = HashMemPool<DefaultMemPoolAdapter<Secp256k1, NetworkServiceHandle, ImplStorage<RocksAdapter>>>;

impl<A> HashMemPool<A> {
    #[verifier::external_body]
    pub fn new(pool_size: usize, timeout_gap: u64, adapter: A) -> (r: Self)
        ensures
            r.size == pool_size && r.gap == timeout_gap && r.adapter == adapter,
    {
        unimplemented!()
    }
}

impl<A> Clone for HashMemPool<A> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

//@item core/mempool/src/adapter/message.rs struct NewTxsHandler
//@item core/mempool/src/adapter/message.rs struct PullTxsHandler

impl<M> NewTxsHandler<M> {
//@fn core/mempool/src/adapter/message.rs NewTxsHandler::new
//@. ensures
        r.mem_pool == mem_pool,
//@end
}

impl<N, M> PullTxsHandler<N, M> {
//@fn core/mempool/src/adapter/message.rs PullTxsHandler::new
//@. ensures
        r.mem_pool == mem_pool && r.network == network,
//@end
}

impl Handler for NewTxsHandler<Pool> {
    open spec fn served(&self) -> Served {
        Served::NewTxs(self.mem_pool)
    }
}

impl Handler for PullTxsHandler<NetworkServiceHandle, Pool> {
    open spec fn served(&self) -> Served {
        Served::PullTxs(self.mem_pool)
    }
}

// ------------------------------------------------------------------ consensus (C21, C22, C27)
//@item core/consensus/src/message.rs const END_GOSSIP_SIGNED_PROPOSAL
//@item core/consensus/src/message.rs const END_GOSSIP_SIGNED_VOTE
//@item core/consensus/src/message.rs const END_GOSSIP_AGGREGATED_VOTE
//@item core/consensus/src/message.rs const END_GOSSIP_RICH_EPOCH_ID
//@item core/consensus/src/message.rs const RPC_SYNC_PULL
//@item core/consensus/src/message.rs const RPC_RESP_SYNC_PULL

pub struct ConsensusRpcResponse {}

pub struct OverlordConsensusAdapter<EF, G, M, R, S, DB> {
    pub rpc: R,
    pub network: G,
    pub mempool: M,
    pub storage: S,
    pub trie_db: DB,
    pub pin: core::marker::PhantomData<EF>,
}

impl<EF, G, M, R, S, DB> OverlordConsensusAdapter<EF, G, M, R, S, DB> {
    #[verifier::external_body]
    pub fn new(rpc: R, network: G, mempool: M, storage: S, trie_db: DB) -> (r: Self)
        ensures
            r.mempool == mempool && r.storage == storage && r.trie_db == trie_db,
    {
        unimplemented!()
    }
}

pub type ConsAdapter = OverlordConsensusAdapter<TransactionExecutorFactory, NetworkServiceHandle, Pool, NetworkServiceHandle, ImplStorage<RocksAdapter>, RocksTrieDB>;

pub struct OverlordConsensus<A> {
    pub status: CurrentConsensusStatus,
    pub info: NodeInfo,
    pub key: Secp256k1PrivateKey,
    pub adapter: A,
}

pub type Cons = OverlordConsensus<ConsAdapter>;

impl<A> OverlordConsensus<A> {
    #[verifier::external_body]
    pub fn new(init_status: CurrentConsensusStatus, node_info: NodeInfo, priv_key: Secp256k1PrivateKey, adapter: A) -> (r: Self)
        ensures
            r.status == init_status && r.info == node_info && r.key == priv_key && r.adapter == adapter,
    {
        unimplemented!()
    }
}

impl Clone for Cons {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Cons {
    #[verifier::external_body]
    pub fn run(&self, interval: u64, timer: Option<DurationConfig>, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { runs: old(w).runs.push((*self, interval, timer)), ..*old(w) }),
    {
        unimplemented!()
    }
}

//@item core/consensus/src/message.rs struct ProposalMessageHandler
//@item core/consensus/src/message.rs struct VoteMessageHandler
//@item core/consensus/src/message.rs struct QCMessageHandler
//@item core/consensus/src/message.rs struct RichEpochIDMessageHandler
//@item core/consensus/src/message.rs struct RpcHandler

impl<C> ProposalMessageHandler<C> {
//@fn core/consensus/src/message.rs ProposalMessageHandler::new
//@. ensures
        r.consensus == consensus,
//@end
}

impl<C> VoteMessageHandler<C> {
//@fn core/consensus/src/message.rs VoteMessageHandler::new
//@. ensures
        r.consensus == consensus,
//@end
}

impl<C> QCMessageHandler<C> {
//@fn core/consensus/src/message.rs QCMessageHandler::new
//@. ensures
        r.consensus == consensus,
//@end
}

impl<C> RichEpochIDMessageHandler<C> {
//@fn core/consensus/src/message.rs RichEpochIDMessageHandler::new
//@. ensures
        r.consensus == consensus,
//@end
}

impl<R, S> RpcHandler<R, S> {
//@fn core/consensus/src/message.rs RpcHandler::new
//@. ensures
        r.rpc == rpc && r.storage == storage,
//@end
}

impl Handler for ProposalMessageHandler<Cons> {
    open spec fn served(&self) -> Served {
        Served::Proposal(self.consensus)
    }
}

impl Handler for VoteMessageHandler<Cons> {
    open spec fn served(&self) -> Served {
        Served::Vote(self.consensus)
    }
}

impl Handler for QCMessageHandler<Cons> {
    open spec fn served(&self) -> Served {
        Served::QC(self.consensus)
    }
}

impl Handler for RichEpochIDMessageHandler<Cons> {
    open spec fn served(&self) -> Served {
        Served::RichEpochID(self.consensus)
    }
}

impl Handler for RpcHandler<NetworkServiceHandle, ImplStorage<RocksAdapter>> {
    open spec fn served(&self) -> Served {
        Served::Pull(self.storage)
    }
}

// ------------------------------------------------------------------ the interface (C28)
//@item core/api/src/config.rs struct GraphQLConfig

impl GraphQLConfig {
    #[verifier::external_body]
    pub fn default() -> (r: GraphQLConfig) {
        unimplemented!()
    }
}

pub struct DefaultAPIAdapter<EF, M, S, DB> {
    pub mempool: M,
    pub storage: S,
    pub trie_db: DB,
    pub pin_ef: core::marker::PhantomData<EF>,
}

pub type Api = DefaultAPIAdapter<TransactionExecutorFactory, Pool, ImplStorage<RocksAdapter>, RocksTrieDB>;

impl<EF, M, S, DB> DefaultAPIAdapter<EF, M, S, DB> {
//@fn core/api/src/adapter/mod.rs DefaultAPIAdapter::new
//@. ensures
        r.mempool == mempool && r.storage == storage && r.trie_db == trie_db,
//@end
}

pub struct Serving {
    pub cfg: GraphQLConfig,
    pub api: Api,
}

pub mod core_api {
    use super::*;

    #[verifier::external_body]
    pub fn start_graphql(cfg: GraphQLConfig, api: Api) -> (r: Serving)
        ensures
            r.cfg == cfg && r.api == api,
    {
        unimplemented!()
    }
}

pub trait Task {
    spec fn put(&self, w: World) -> World;
}

impl Task for NetworkService {
    open spec fn put(&self, w: World) -> World {
        World { nets: w.nets.push(*self), ..w }
    }
}

impl Task for Serving {
    open spec fn put(&self, w: World) -> World {
        World { apis: w.apis.push((self.cfg, self.api)), ..w }
    }
}

#[verifier::external_body]
pub fn vx_spawn<T: Task>(t: T, w: &mut World)
    ensures
        *final(w) == t.put(*old(w)),
{
    unimplemented!()
}

// ------------------------------------------------------------------ C29
/// The chain id the configuration names.
pub open spec fn chain_of(c: Config) -> Seq<u8> {
    hex_dec(no0x(c.chain_id@))
}

/// The address of the node of this configuration.
pub open spec fn self_of(c: Config) -> Seq<u8> {
    seq![0x10u8] + keccak(pub_of(hex_dec(c.privkey@))).take(20)
}

pub open spec fn nil() -> Seq<u8> {
    keccak(null_rlp())
}

/// The epoch at height 0: it depends on the chain, the price and the genesis file alone.
pub open spec fn is_genesis(e: Epoch, chain: Seq<u8>, price: u64, g: Genesis) -> bool {
    &&& e.header.chain_id@ == chain
    &&& e.header.epoch_id == 0
    &&& e.header.pre_hash@ == nil()
    &&& e.header.timestamp == g.timestamp
    &&& e.header.logs_bloom.b@ == Seq::new(256, |i: int| 0u8)
    &&& e.header.order_root@ == nil()
    &&& e.header.confirm_root@.len() == 0
    &&& e.header.state_root@ == genesis_root(chain, price, g)
    &&& e.header.receipt_root@.len() == 1 && e.header.receipt_root@[0]@ == nil()
    &&& e.header.cycles_used == 0
    &&& e.header.proposer@ == hex_dec(no0x("100000000000000000000000000000000000000000"@))
    &&& e.header.proof.epoch_id == 0 && e.header.proof.round == 0 && e.header.proof.epoch_hash@ == nil()
    &&& e.header.proof.signature@.len() == 0 && e.header.proof.bitmap@.len() == 0
    &&& e.header.validator_version == 0 && e.header.validators@.len() == 0
    &&& e.ordered_tx_hashes@.len() == 0
}

/// A chain that is there is left as it is; otherwise it begins with the epoch of the genesis file.
pub open spec fn begun(c: Config, p: Seq<char>, a: World, b: World) -> bool {
    let was = a.chains[c.block_path()];
    if was.latest is Some {
        b == a
    } else {
        let is = b.chains[c.block_path()];
        &&& is.latest is Some
        &&& is_genesis(is.latest->0, chain_of(c), c.consensus.cycles_price, declared(p))
        &&& is.proof == Some(is.latest->0.header.proof)
        &&& b.states[c.state_path()].contains(is.latest->0.header.state_root@)
        &&& b.chains =~= a.chains.insert(c.block_path(), is)
        &&& b.states =~= a.states.insert(c.state_path(), a.states[c.state_path()].insert(is.latest->0.header.state_root@))
        &&& b.nets == a.nets && b.apis == a.apis && b.runs == a.runs
    }
}

pub open spec fn the_pool(c: Config, s: ImplStorage<RocksAdapter>, p: Pool) -> bool {
    &&& p.size == c.mempool.pool_size as usize
    &&& p.gap == c.mempool.timeout_gap
    &&& p.adapter.storage == s
    &&& p.adapter.gap == c.mempool.timeout_gap
    &&& p.adapter.size == c.mempool.broadcast_txs_size
    &&& p.adapter.interval == c.mempool.broadcast_txs_interval
}

/// Each endpoint, and who is to serve it.
pub open spec fn endpoints(p: Pool, n: Cons, s: ImplStorage<RocksAdapter>) -> Map<Seq<char>, Served> {
    Map::<Seq<char>, Served>::empty()
        .insert(END_GOSSIP_NEW_TXS@, Served::NewTxs(p))
        .insert(END_RPC_PULL_TXS@, Served::PullTxs(p))
        .insert(END_GOSSIP_SIGNED_PROPOSAL@, Served::Proposal(n))
        .insert(END_GOSSIP_AGGREGATED_VOTE@, Served::QC(n))
        .insert(END_GOSSIP_SIGNED_VOTE@, Served::Vote(n))
        .insert(END_GOSSIP_RICH_EPOCH_ID@, Served::RichEpochID(n))
        .insert(RPC_SYNC_PULL@, Served::Pull(s))
}

pub open spec fn answers() -> Map<Seq<char>, int> {
    Map::<Seq<char>, int>::empty()
        .insert(END_RESP_PULL_TXS@, answer::<MsgPushTxs>())
        .insert(RPC_RESP_SYNC_PULL@, answer::<ConsensusRpcResponse>())
}

/// The peers it begins with: those of the configuration.
pub open spec fn is_boots(b: Seq<(Seq<char>, SocketAddr)>, c: Config) -> bool {
    match c.network.bootstraps {
        Some(v) => b.len() == v@.len() && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 == v@[i].pubkey@ && b[i].1 == v@[i].address,
        None => b.len() == 0,
    }
}

pub open spec fn boots_upto(b: Seq<(String, SocketAddr)>, v: Seq<ConfigNetworkBootstrap>, n: int) -> bool {
    b.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).0@ == v[i].pubkey@ && b[i].1 == v[i].address
}

pub open spec fn valid_upto(b: Seq<Validator>, v: Seq<String>, n: int) -> bool {
    b.len() == n && forall|i: int| 0 <= i < n ==> is_validator(#[trigger] b[i], v[i]@)
}

pub open spec fn is_validator(v: Validator, text: Seq<char>) -> bool {
    v.address@ == hex_dec(no0x(text)) && user_wf(v.address) && v.propose_weight == 1 && v.vote_weight == 1
}

/// Where consensus is taken up: at the height after the latest epoch, on that epoch's hash.
pub open spec fn resumes(c: Config, latest: Epoch, s: CurrentConsensusStatus) -> bool {
    &&& s.epoch_id == latest.header.epoch_id + 1
    &&& s.prev_hash@ == keccak(latest.enc())
    &&& s.cycles_price == c.consensus.cycles_price
    &&& s.cycles_limit == c.consensus.cycles_limit
    &&& s.consensus_interval == c.consensus.interval
    &&& s.logs_bloom == latest.header.logs_bloom
    &&& s.cycles_used == latest.header.cycles_used
    &&& s.validators@.len() == c.consensus.verifier_list@.len()
    &&& forall|i: int| 0 <= i < s.validators@.len() ==> is_validator(#[trigger] s.validators@[i], c.consensus.verifier_list@[i]@)
    &&& latest.header.epoch_id == 0 ==> {
        // what the epochs before left: nothing yet
        &&& s.order_root@ == nil()
        &&& s.confirm_root@.len() == 1 && s.confirm_root@[0]@ == nil()
        &&& s.receipt_root@.len() == 1 && s.receipt_root@[0]@ == nil()
        &&& s.state_root == latest.header.state_root
        &&& s.proof == latest.header.proof
    }
}

pub open spec fn is_node(c: Config, latest: Epoch, a: World, b: World) -> bool {
    let (n, interval, timer) = b.runs.last();
    let net = b.nets.last();
    let (g, api) = b.apis.last();
    let s = n.adapter.storage;
    let p = n.adapter.mempool;
    let db = n.adapter.trie_db;
    // one network, one interface, one consensus
    &&& b.runs.len() == a.runs.len() + 1
    &&& b.nets.len() == a.nets.len() + 1
    &&& b.apis.len() == a.apis.len() + 1
    // what is on the disk is as it was
    &&& b.chains == a.chains && b.states == a.states
    // all over the node's pool, storage and state
    &&& s.adapter.p@ == c.block_path()
    &&& db.p@ == c.state_path() && db.light == c.executor.light
    &&& the_pool(c, s, p)
    &&& api.mempool == p && api.storage == s && api.trie_db == db
    // the network
    &&& is_boots(net.config.boots@, c)
    &&& net.config.key@ == c.privkey@
    &&& net.listen@ == Some(c.network.listening_address)
    &&& net.ends@ =~= endpoints(p, n, s)
    &&& net.answers@ =~= answers()
    // the interface
    &&& g.listening_address == c.graphql.listening_address
    &&& g.graphql_uri@ == c.graphql.graphql_uri@
    &&& g.graphiql_uri@ == c.graphql.graphiql_uri@
    // consensus
    &&& interval == c.consensus.interval
    &&& timer == Some(c.consensus.duration)
    &&& n.info.chain_id@ == chain_of(c)
    &&& n.info.self_address@ == self_of(c)
    &&& n.key.b@ == hex_dec(c.privkey@)
    &&& resumes(c, latest, n.status)
}

//@fn src/main.rs handle_init
//@. sig (cfg: &Config, genesis_path: &str, w: &mut World) -> (r: ProtocolResult<()>)
//@. ensures
        r is Ok ==> begun(*cfg, genesis_path@, *old(w), *final(w)),
//@end
//@fn src/main.rs start
//@. params w: &mut World
//@. requires
        old(w).chains[cfg.block_path()].latest is Some ==> old(w).chains[cfg.block_path()].latest->0.header.epoch_id < u64::MAX,
//@. ensures
        r is Ok ==> old(w).chains[cfg.block_path()].latest is Some
            && is_node(*cfg, old(w).chains[cfg.block_path()].latest->0, *old(w), *final(w)),
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            cfg.network.bootstraps is Some,
            __it0.s@ == cfg.network.bootstraps->0@,
            boots_upto(bootstrap_pairs@, __it0.s@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
        invariant
            __it1.p@ <= __it1.s@.len(),
            __it1.s@ == cfg.consensus.verifier_list@,
            valid_upto(__v2@, __it1.s@, __it1.p@ as int),
        decreases __it1.s@.len() - __it1.p@,
//@end

} // verus!
