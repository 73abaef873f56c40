// C29: the node's program itself (src/main.rs), put together with recorders in place of the parts it starts.
#![feature(async_closure)]
#![allow(dead_code, unused_imports)]
extern crate hex03 as hex;
extern crate vx_network as core_network;
include!(concat!(env!("OUT_DIR"), "/node.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

// ------------------------------------------------------------------ the parts the program starts
mod rec {
    use lazy_static::lazy_static;
    use protocol::traits::{CurrentConsensusStatus, NodeInfo};
    use protocol::types::{Address, AssetID, Hash};
    use std::net::SocketAddr;
    use std::sync::Mutex;

    #[derive(Default)]
    pub struct Rec {
        /// What the command line says: the configuration's and the genesis file.
        pub args:      (String, String),
        /// (size, gap), and the adapter's (gap, size, interval, height of the latest epoch it sees).
        pub pools:     Vec<((usize, u64), (u64, usize, u64, Option<u64>))>,
        pub status:    Option<(CurrentConsensusStatus, NodeInfo, Vec<u8>)>,
        /// The pool and the height of the latest epoch the consensus adapter has.
        pub consensus: Option<(usize, Option<u64>)>,
        /// Whom to ask for in the state at the status' root, and the answer.
        pub ask:       Vec<(Address, AssetID)>,
        pub balances:  Option<Vec<String>>,
        pub run:       Vec<(u64, String)>,
        pub graphql:   Vec<(SocketAddr, String, String, usize, Option<u64>, Option<Vec<String>>)>,
        /// What the pool, the consensus and the storage were asked for.
        pub did:       Vec<String>,
        pub spawned:   usize,
    }

    lazy_static! {
        pub static ref REC: Mutex<Rec> = Mutex::new(Rec::default());
    }

    pub fn did(s: String) {
        REC.lock().unwrap().did.push(s)
    }
}

mod runtime {
    use futures::task::ArcWake;
    use std::future::Future;
    use std::sync::Arc;
    use std::task::{Context, Poll};

    struct Still;

    impl ArcWake for Still {
        fn wake_by_ref(_: &Arc<Self>) {}
    }

    /// Polls until it is done; nothing here waits for anything.
    pub fn drive<F: Future>(f: F) -> F::Output {
        let waker = futures::task::waker(Arc::new(Still));
        let mut f = Box::pin(f);
        loop {
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                return r;
            }
        }
    }

    pub fn spawn<F: Future + Send + 'static>(f: F) {
        crate::rec::REC.lock().unwrap().spawned += 1;
        drive(f);
    }
}

mod common_logger {
    pub enum Flag {
        Main,
    }

    pub fn init(_: Flag) {}
}

mod common_config_parser {
    pub fn parse<T: serde::de::DeserializeOwned>(name: &str) -> Result<T, String> {
        let text = std::fs::read_to_string(name).map_err(|e| e.to_string())?;
        serde_json::from_str(&text).map_err(|e| e.to_string())
    }
}

mod clap {
    pub struct App;

    pub struct Arg;

    pub struct Matches(String, String);

    impl Arg {
        pub fn from_usage(_: &str) -> Arg {
            Arg
        }

        pub fn default_value(self, _: &str) -> Arg {
            self
        }
    }

    impl App {
        pub fn new(_: &str) -> App {
            App
        }

        pub fn version(self, _: &str) -> App {
            self
        }

        pub fn author(self, _: &str) -> App {
            self
        }

        pub fn arg(self, _: Arg) -> App {
            self
        }

        pub fn get_matches(self) -> Matches {
            let r = crate::rec::REC.lock().unwrap();
            Matches(r.args.0.clone(), r.args.1.clone())
        }
    }

    impl Matches {
        pub fn value_of(&self, k: &str) -> Option<&str> {
            match k {
                "config" => Some(&self.0),
                "genesis" => Some(&self.1),
                _ => None,
            }
        }
    }
}

mod core_mempool {
    use crate::rec::{did, REC};
    use async_trait::async_trait;
    use futures::executor::block_on;
    use protocol::traits::{Context, Gossip, MemPool, MessageHandler, MixedTxHashes, Priority, Rpc, Storage};
    use protocol::types::{Hash, SignedTransaction};
    use protocol::ProtocolResult;
    use serde_derive::{Deserialize, Serialize};
    use std::marker::PhantomData;
    use std::sync::Arc;

    pub const END_GOSSIP_NEW_TXS: &str = "/gossip/mempool/new_txs";
    pub const END_RPC_PULL_TXS: &str = "/rpc_call/mempool/pull_txs";
    pub const END_RESP_PULL_TXS: &str = "/rpc_resp/mempool/pull_txs";
    pub const DEFAULT_BROADCAST_TXS_SIZE: usize = 200;
    pub const DEFAULT_BROADCAST_TXS_INTERVAL: u64 = 200;

    #[derive(Debug, Serialize, Deserialize)]
    pub struct MsgNewTxs;

    #[derive(Debug, Serialize, Deserialize)]
    pub struct MsgPullTxs;

    #[derive(Debug, Serialize, Deserialize)]
    pub struct MsgPushTxs;

    pub struct DefaultMemPoolAdapter<C, N, S>((u64, usize, u64, Option<u64>), PhantomData<(C, N, S)>);

    impl<C, N: Gossip + Rpc, S: Storage> DefaultMemPoolAdapter<C, N, S> {
        pub fn new(_: N, storage: Arc<S>, gap: u64, size: usize, interval: u64) -> Self {
            let at = block_on(storage.get_latest_epoch()).ok().map(|e| e.header.epoch_id);
            DefaultMemPoolAdapter((gap, size, interval, at), PhantomData)
        }
    }

    pub trait Params {
        fn params(&self) -> (u64, usize, u64, Option<u64>);
    }

    impl<C, N, S> Params for DefaultMemPoolAdapter<C, N, S> {
        fn params(&self) -> (u64, usize, u64, Option<u64>) {
            self.0
        }
    }

    pub struct HashMemPool<A>(pub usize, PhantomData<Box<dyn Fn(A) + Send + Sync>>);

    impl<A: Params> HashMemPool<A> {
        pub fn new(pool_size: usize, gap: u64, adapter: A) -> Self {
            let mut r = REC.lock().unwrap();
            let id = r.pools.len();
            r.pools.push(((pool_size, gap), adapter.params()));
            HashMemPool(id, PhantomData)
        }
    }

    #[async_trait]
    impl<A: 'static> MemPool for HashMemPool<A> {
        async fn insert(&self, _: Context, _: SignedTransaction) -> ProtocolResult<()> {
            did(format!("pool {}: take a transaction in", self.0));
            Ok(())
        }

        async fn package(&self, _: Context, _: u64) -> ProtocolResult<MixedTxHashes> {
            did(format!("pool {}: package", self.0));
            Ok(MixedTxHashes { order_tx_hashes: vec![], propose_tx_hashes: vec![] })
        }

        async fn flush(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
            did(format!("pool {}: flush", self.0));
            Ok(())
        }

        async fn get_full_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
            did(format!("pool {}: look transactions up", self.0));
            Ok(vec![])
        }

        async fn ensure_order_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
            Ok(())
        }

        async fn sync_propose_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
            Ok(())
        }
    }

    fn tx() -> SignedTransaction {
        crate::gen::signed(&mut crate::vxh::Rng::new(1))
    }

    pub struct NewTxsHandler<M>(Arc<M>);

    impl<M: MemPool> NewTxsHandler<M> {
        pub fn new(m: Arc<M>) -> Self {
            NewTxsHandler(m)
        }
    }

    #[async_trait]
    impl<M: MemPool + 'static> MessageHandler for NewTxsHandler<M> {
        type Message = MsgNewTxs;

        async fn process(&self, ctx: Context, _: MsgNewTxs) -> ProtocolResult<()> {
            self.0.insert(ctx, tx()).await
        }
    }

    pub struct PullTxsHandler<N, M>(N, Arc<M>);

    impl<N: Rpc + 'static, M: MemPool + 'static> PullTxsHandler<N, M> {
        pub fn new(n: N, m: Arc<M>) -> Self {
            PullTxsHandler(n, m)
        }
    }

    #[async_trait]
    impl<N: Rpc + 'static, M: MemPool + 'static> MessageHandler for PullTxsHandler<N, M> {
        type Message = MsgPullTxs;

        async fn process(&self, ctx: Context, _: MsgPullTxs) -> ProtocolResult<()> {
            self.1.get_full_txs(ctx.clone(), vec![]).await?;
            self.0.response(ctx, END_RESP_PULL_TXS, MsgPushTxs, Priority::High).await
        }
    }
}

mod core_consensus {
    use serde_derive::Deserialize;

    #[derive(Clone, Debug, Deserialize, PartialEq)]
    pub struct DurationConfig {
        pub propose_numerator:     u64,
        pub propose_denominator:   u64,
        pub prevote_numerator:     u64,
        pub prevote_denominator:   u64,
        pub precommit_numerator:   u64,
        pub precommit_denominator: u64,
    }

    pub mod fixed_types {
        use serde_derive::{Deserialize, Serialize};

        #[derive(Debug, Serialize, Deserialize)]
        pub struct ConsensusRpcResponse;
    }

    pub mod adapter {
        use crate::rec::REC;
        use futures::executor::block_on;
        use protocol::traits::executor::{ExecutorFactory, TrieDB};
        use protocol::traits::{Gossip, MemPool, Rpc, Storage};
        use protocol::types::{Address, MerkleRoot};
        use std::marker::PhantomData;
        use std::sync::Arc;

        pub struct OverlordConsensusAdapter<EF, G, M, R, S, DB> {
            pool:    Arc<M>,
            storage: Arc<S>,
            trie:    Arc<DB>,
            pin:     PhantomData<(EF, G, R)>,
        }

        impl<EF: ExecutorFactory<DB>, G: Gossip, M: MemPool, R: Rpc, S: Storage, DB: TrieDB> OverlordConsensusAdapter<EF, G, M, R, S, DB> {
            pub fn new(_: Arc<R>, _: Arc<G>, pool: Arc<M>, storage: Arc<S>, trie: Arc<DB>) -> Self {
                OverlordConsensusAdapter { pool, storage, trie, pin: PhantomData }
            }
        }

        /// What those asked for hold under the root, if there is such a state.
        pub fn balances<EF: ExecutorFactory<DB>, DB: TrieDB>(trie: &Arc<DB>, root: MerkleRoot) -> Option<Vec<String>> {
            let ask = REC.lock().unwrap().ask.clone();
            let who = ask.get(0)?.0.clone();
            let e = EF::from_root(root.clone(), root, Arc::clone(trie), 1, 1, who).ok()?;
            Some(ask.iter().map(|(a, id)| e.get_balance(a, id).map(|b| b.to_string()).unwrap_or_else(|_| "no account".to_owned())).collect())
        }

        pub trait Probe {
            fn pool(&self) -> usize;
            fn height(&self) -> Option<u64>;
            fn state(&self, root: MerkleRoot) -> Option<Vec<String>>;
        }

        /// Which pool this is: it says so when it is asked to flush.
        pub fn which<M: MemPool>(m: &Arc<M>) -> usize {
            block_on(m.flush(protocol::traits::Context::new(), vec![])).unwrap();
            let s = REC.lock().unwrap().did.pop().unwrap();
            s["pool ".len()..].split(':').next().unwrap().parse().unwrap()
        }

        impl<EF: ExecutorFactory<DB>, G, M: MemPool, R, S: Storage, DB: TrieDB> Probe for OverlordConsensusAdapter<EF, G, M, R, S, DB> {
            fn pool(&self) -> usize {
                which(&self.pool)
            }

            fn height(&self) -> Option<u64> {
                block_on(self.storage.get_latest_epoch()).ok().map(|e| e.header.epoch_id)
            }

            fn state(&self, root: MerkleRoot) -> Option<Vec<String>> {
                balances::<EF, DB>(&self.trie, root)
            }
        }
    }

    pub mod consensus {
        use super::adapter::Probe;
        use super::DurationConfig;
        use crate::rec::{did, REC};
        use async_trait::async_trait;
        use common_crypto::{PrivateKey, Secp256k1PrivateKey};
        use protocol::traits::{Consensus, Context, CurrentConsensusStatus, NodeInfo};
        use protocol::ProtocolResult;
        use std::sync::Arc;

        pub struct OverlordConsensus<A>(Arc<A>);

        impl<A: Probe> OverlordConsensus<A> {
            pub fn new(status: CurrentConsensusStatus, info: NodeInfo, key: Secp256k1PrivateKey, adapter: Arc<A>) -> Self {
                let has = (adapter.pool(), adapter.height());
                let state = adapter.state(status.state_root.clone());
                let mut r = REC.lock().unwrap();
                r.consensus = Some(has);
                r.balances = state;
                r.status = Some((status, info, key.to_bytes().to_vec()));
                drop(r);
                OverlordConsensus(adapter)
            }

            pub async fn run(&self, interval: u64, timer: Option<DurationConfig>) -> ProtocolResult<()> {
                REC.lock().unwrap().run.push((interval, format!("{:?}", timer)));
                Ok(())
            }
        }

        #[async_trait]
        impl<A: Send + Sync> Consensus for OverlordConsensus<A> {
            async fn set_proposal(&self, _: Context, _: Vec<u8>) -> ProtocolResult<()> {
                did("consensus: proposal".into());
                Ok(())
            }

            async fn set_vote(&self, _: Context, _: Vec<u8>) -> ProtocolResult<()> {
                did("consensus: vote".into());
                Ok(())
            }

            async fn set_qc(&self, _: Context, _: Vec<u8>) -> ProtocolResult<()> {
                did("consensus: aggregated vote".into());
                Ok(())
            }

            async fn update_epoch(&self, _: Context, _: Vec<u8>) -> ProtocolResult<()> {
                did("consensus: rich epoch id".into());
                Ok(())
            }
        }
    }

    pub mod message {
        use super::fixed_types::ConsensusRpcResponse;
        use crate::rec::did;
        use async_trait::async_trait;
        use protocol::traits::{Consensus, Context, MessageHandler, Priority, Rpc, Storage};
        use protocol::ProtocolResult;
        use serde_derive::{Deserialize, Serialize};
        use std::sync::Arc;

        pub const END_GOSSIP_SIGNED_PROPOSAL: &str = "/gossip/consensus/signed_proposal";
        pub const END_GOSSIP_SIGNED_VOTE: &str = "/gossip/consensus/signed_vote";
        pub const END_GOSSIP_AGGREGATED_VOTE: &str = "/gossip/consensus/qc";
        pub const END_GOSSIP_RICH_EPOCH_ID: &str = "/gossip/consensus/rich_epoch_id";
        pub const RPC_SYNC_PULL: &str = "/rpc_call/consensus/sync_pull";
        pub const RPC_RESP_SYNC_PULL: &str = "/rpc_resp/consensus/sync_pull";

        #[derive(Debug, Serialize, Deserialize)]
        pub struct Proposal;

        pub struct ProposalMessageHandler<C>(Arc<C>);

        impl<C: Consensus + 'static> ProposalMessageHandler<C> {
            pub fn new(c: Arc<C>) -> Self {
                ProposalMessageHandler(c)
            }
        }

        #[async_trait]
        impl<C: Consensus + 'static> MessageHandler for ProposalMessageHandler<C> {
            type Message = Proposal;

            async fn process(&self, ctx: Context, _: Proposal) -> ProtocolResult<()> {
                self.0.set_proposal(ctx, vec![]).await
            }
        }

        #[derive(Debug, Serialize, Deserialize)]
        pub struct Vote;

        pub struct VoteMessageHandler<C>(Arc<C>);

        impl<C: Consensus + 'static> VoteMessageHandler<C> {
            pub fn new(c: Arc<C>) -> Self {
                VoteMessageHandler(c)
            }
        }

        #[async_trait]
        impl<C: Consensus + 'static> MessageHandler for VoteMessageHandler<C> {
            type Message = Vote;

            async fn process(&self, ctx: Context, _: Vote) -> ProtocolResult<()> {
                self.0.set_vote(ctx, vec![]).await
            }
        }

        #[derive(Debug, Serialize, Deserialize)]
        pub struct QC;

        pub struct QCMessageHandler<C>(Arc<C>);

        impl<C: Consensus + 'static> QCMessageHandler<C> {
            pub fn new(c: Arc<C>) -> Self {
                QCMessageHandler(c)
            }
        }

        #[async_trait]
        impl<C: Consensus + 'static> MessageHandler for QCMessageHandler<C> {
            type Message = QC;

            async fn process(&self, ctx: Context, _: QC) -> ProtocolResult<()> {
                self.0.set_qc(ctx, vec![]).await
            }
        }

        #[derive(Debug, Serialize, Deserialize)]
        pub struct RichEpochID;

        pub struct RichEpochIDMessageHandler<C>(Arc<C>);

        impl<C: Consensus + 'static> RichEpochIDMessageHandler<C> {
            pub fn new(c: Arc<C>) -> Self {
                RichEpochIDMessageHandler(c)
            }
        }

        #[async_trait]
        impl<C: Consensus + 'static> MessageHandler for RichEpochIDMessageHandler<C> {
            type Message = RichEpochID;

            async fn process(&self, ctx: Context, _: RichEpochID) -> ProtocolResult<()> {
                self.0.update_epoch(ctx, vec![]).await
            }
        }

        #[derive(Debug, Serialize, Deserialize)]
        pub struct ConsensusRpcRequest;

        pub struct RpcHandler<R, S>(Arc<R>, Arc<S>);

        impl<R: Rpc + 'static, S: Storage + 'static> RpcHandler<R, S> {
            pub fn new(r: Arc<R>, s: Arc<S>) -> Self {
                RpcHandler(r, s)
            }
        }

        #[async_trait]
        impl<R: Rpc + 'static, S: Storage + 'static> MessageHandler for RpcHandler<R, S> {
            type Message = ConsensusRpcRequest;

            async fn process(&self, ctx: Context, _: ConsensusRpcRequest) -> ProtocolResult<()> {
                let at = self.1.get_latest_epoch().await.ok().map(|e| e.header.epoch_id);
                did(format!("storage at {:?}: a peer pulls", at));
                self.0.response(ctx, RPC_RESP_SYNC_PULL, ConsensusRpcResponse, Priority::High).await
            }
        }
    }
}

mod core_api {
    use crate::rec::REC;

    pub mod config {
        use std::net::SocketAddr;

        #[derive(Debug, Clone)]
        pub struct GraphQLConfig {
            pub listening_address: SocketAddr,
            pub graphql_uri:       String,
            pub graphiql_uri:      String,
        }

        impl Default for GraphQLConfig {
            fn default() -> Self {
                Self {
                    listening_address: "127.0.0.1:8080".parse().unwrap(),
                    graphql_uri:       "/graphql".to_owned(),
                    graphiql_uri:      "/graphiql".to_owned(),
                }
            }
        }
    }

    pub mod adapter {
        use crate::core_consensus::adapter::{balances, which};
        use futures::executor::block_on;
        use protocol::traits::executor::{ExecutorFactory, TrieDB};
        use protocol::traits::{MemPool, Storage};
        use std::marker::PhantomData;
        use std::sync::Arc;

        pub struct DefaultAPIAdapter<EF, M, S, DB>(Arc<M>, Arc<S>, Arc<DB>, PhantomData<Box<dyn Fn(EF) + Send + Sync>>);

        impl<EF: ExecutorFactory<DB>, M: MemPool, S: Storage, DB: TrieDB> DefaultAPIAdapter<EF, M, S, DB> {
            pub fn new(m: Arc<M>, s: Arc<S>, db: Arc<DB>) -> Self {
                DefaultAPIAdapter(m, s, db, PhantomData)
            }
        }

        pub trait Probe {
            fn probe(&self) -> (usize, Option<u64>, Option<Vec<String>>);
        }

        impl<EF: ExecutorFactory<DB>, M: MemPool, S: Storage, DB: TrieDB> Probe for DefaultAPIAdapter<EF, M, S, DB> {
            fn probe(&self) -> (usize, Option<u64>, Option<Vec<String>>) {
                let e = block_on(self.1.get_latest_epoch()).ok();
                let b = e.as_ref().and_then(|e| balances::<EF, DB>(&self.2, e.header.state_root.clone()));
                (which(&self.0), e.map(|e| e.header.epoch_id), b)
            }
        }
    }

    pub async fn start_graphql<A: adapter::Probe + 'static>(cfg: config::GraphQLConfig, a: A) {
        let (pool, at, state) = a.probe();
        let it = (cfg.listening_address, cfg.graphql_uri, cfg.graphiql_uri, pool, at, state);
        REC.lock().unwrap().graphql.push(it);
    }
}

// ------------------------------------------------------------------ the cases
mod h {
    use super::gen;
    use super::rec::{Rec, REC};
    use super::vxh::{guard, Ctx, Rng};
    use bytes::Bytes;
    use cita_trie::MemoryDB;
    use common_crypto::{PrivateKey, PublicKey, Secp256k1PrivateKey};
    use common_merkle::Merkle;
    use core_executor::trie::RocksTrieDB;
    use core_executor::TransactionExecutorFactory;
    use core_network::REC as NET;
    use core_storage::adapter::rocks::RocksAdapter;
    use core_storage::ImplStorage;
    use futures::executor::block_on;
    use num_bigint::BigUint;
    use protocol::fixed_codec::ProtocolFixedCodec;
    use protocol::traits::executor::{ExecutorFactory, TrieDB};
    use protocol::traits::{CurrentConsensusStatus, Storage, StorageAdapter, StorageCategory, StorageSchema};
    use protocol::types::*;
    use std::convert::TryFrom;
    use std::net::SocketAddr;
    use std::path::{Path, PathBuf};
    use std::sync::Arc;

    type Res = Result<(), (String, String)>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    /// What the configuration says, and what it means.
    struct Conf {
        chain:      Hash,
        key:        Vec<u8>,
        key_text:   String,
        data:       PathBuf,
        graphql:    (SocketAddr, String, String),
        listen:     SocketAddr,
        bootstraps: Option<Vec<(String, SocketAddr)>>,
        gap:        u64,
        size:       u64,
        cast:       (Option<usize>, Option<u64>),
        limit:      u64,
        price:      u64,
        interval:   u64,
        duration:   [u64; 6],
        verifiers:  Vec<UserAddress>,
        light:      bool,
        text:       String,
    }

    fn maybe_0x(r: &mut Rng, s: String) -> String {
        if r.chance(1, 4) {
            format!("0x{}", s)
        } else {
            s
        }
    }

    fn sock(r: &mut Rng) -> SocketAddr {
        format!("{}.{}.{}.{}:{}", r.u8(), r.u8(), r.u8(), r.u8(), r.below(65536)).parse().unwrap()
    }

    impl Conf {
        fn new(r: &mut Rng, data: &Path) -> Conf {
            let chain = gen::hash(r);
            let mut key = r.bytes(32);
            key[31] |= 1;
            let verifiers = gen::many(r, gen::user);
            let mut c = Conf {
                chain,
                key_text: gen::hx(&key),
                key,
                data: data.to_owned(),
                graphql: (sock(r), format!("/g{}", r.u8()), format!("/i{}", r.u8())),
                listen: sock(r),
                bootstraps: if r.chance(1, 4) {
                    None
                } else {
                    Some(gen::many(r, |r| (gen::hx(&r.bytes(33)), sock(r))))
                },
                gap: r.u64() >> 1,
                size: r.below(100_000) as u64,
                cast: (
                    if r.chance(1, 3) { None } else { Some(r.below(1000)) },
                    if r.chance(1, 3) { None } else { Some(r.u64() >> 1) },
                ),
                limit: r.u64() >> 1,
                price: if r.chance(1, 2) { 1 } else { r.below(1000) as u64 },
                interval: r.u64() >> 1,
                duration: [r.u64() >> 1, r.u64() >> 1, r.u64() >> 1, r.u64() >> 1, r.u64() >> 1, r.u64() >> 1],
                verifiers,
                light: r.chance(1, 4),
                text: String::new(),
            };
            let list: Vec<String> = c.verifiers.iter().map(|v| maybe_0x(r, v.as_hex().trim_start_matches("0x").to_owned())).collect();
            let mut mempool = serde_json::json!({"timeout_gap": c.gap, "pool_size": c.size});
            if let Some(n) = c.cast.0 {
                mempool["broadcast_txs_size"] = n.into();
            }
            if let Some(n) = c.cast.1 {
                mempool["broadcast_txs_interval"] = n.into();
            }
            let mut network = serde_json::json!({"listening_address": c.listen.to_string()});
            if let Some(b) = &c.bootstraps {
                let b: Vec<_> = b.iter().map(|(k, a)| serde_json::json!({"pubkey": k, "address": a.to_string()})).collect();
                network["bootstraps"] = b.into();
            }
            let chain_text = maybe_0x(r, gen::hx(&c.chain.as_bytes()));
            c.text = serde_json::json!({
                "chain_id": chain_text,
                "privkey": c.key_text,
                "data_path": c.data.to_str().unwrap(),
                "graphql": {
                    "listening_address": c.graphql.0.to_string(),
                    "graphql_uri": c.graphql.1,
                    "graphiql_uri": c.graphql.2,
                },
                "network": network,
                "mempool": mempool,
                "consensus": {
                    "cycles_limit": c.limit,
                    "cycles_price": c.price,
                    "interval": c.interval,
                    "duration": {
                        "propose_numerator": c.duration[0],
                        "propose_denominator": c.duration[1],
                        "prevote_numerator": c.duration[2],
                        "prevote_denominator": c.duration[3],
                        "precommit_numerator": c.duration[4],
                        "precommit_denominator": c.duration[5],
                    },
                    "verifier_list": list,
                },
                "executor": {"light": c.light},
            })
            .to_string();
            c
        }

        fn address(&self) -> UserAddress {
            let k = Secp256k1PrivateKey::try_from(&self.key[..]).unwrap();
            UserAddress::from_pubkey_bytes(k.pub_key().to_bytes()).unwrap()
        }

        fn block(&self) -> PathBuf {
            self.data.join("rocksdb").join("block_data")
        }

        fn state(&self) -> PathBuf {
            self.data.join("rocksdb").join("state_data")
        }
    }

    fn genesis(r: &mut Rng) -> (Genesis, String, Vec<(Address, AssetID)>) {
        let mut ask = vec![(Address::User(gen::user(r)), gen::hash(r))];
        let mut alloc = vec![];
        for _ in 0..r.below(4) {
            let a = Address::User(gen::user(r));
            let mut assets = vec![];
            for _ in 0..r.below(4) {
                let id = gen::hash(r);
                ask.push((a.clone(), id.clone()));
                assets.push(serde_json::json!({"asset_id": gen::hx(&id.as_bytes()), "balance": format!("{:016x}", r.u64() >> 8)}));
            }
            alloc.push(serde_json::json!({"address": a.as_hex(), "assets": assets}));
        }
        let text = serde_json::json!({
            "timestamp": r.edgy(),
            "prevhash": "44915be5",
            "system_token": {"code": "", "name": gen::text(r), "symbol": gen::text(r), "supply": r.edgy()},
            "state_alloc": alloc,
        })
        .to_string();
        (serde_json::from_str(&text).unwrap(), text, ask)
    }

    fn genesis_root(chain: &Hash, g: &Genesis, price: u64) -> MerkleRoot {
        let db = Arc::new(MemoryDB::new(false));
        let who = Address::from_hex("10f8389d774afdad8755ef8e629e5a154fddc6325a").unwrap();
        let mut e = TransactionExecutorFactory::from_root(chain.clone(), Hash::from_empty(), db, 0, price, who).unwrap();
        e.create_genesis(g).unwrap()
    }

    fn store(c: &Conf) -> ImplStorage<RocksAdapter> {
        ImplStorage::new(Arc::new(RocksAdapter::new(c.block()).unwrap()))
    }

    /// What is under the latest epoch's key, when it is not an epoch.
    struct Damaged;

    impl StorageSchema for Damaged {
        type Key = Hash;
        type Value = Proof;

        fn category() -> StorageCategory {
            StorageCategory::Epoch
        }
    }

    fn latest_key() -> Hash {
        Hash::digest(Bytes::from("latest_hash"))
    }

    /// Runs the program once, and gives back what its parts were given.
    fn run(conf: &Path, gen: &Path, ask: &[(Address, AssetID)]) -> Rec {
        *NET.lock().unwrap() = Default::default();
        *REC.lock().unwrap() = Rec {
            args: (conf.to_str().unwrap().into(), gen.to_str().unwrap().into()),
            ask: ask.to_vec(),
            ..Default::default()
        };
        super::runtime::drive(super::node_main());
        std::mem::replace(&mut *REC.lock().unwrap(), Rec::default())
    }

    fn same<T: PartialEq + std::fmt::Debug>(key: &str, what: &str, got: &T, want: &T) -> Res {
        if got == want {
            Ok(())
        } else {
            f(key, format!("{} is {:?}, and should be {:?}", what, got, want))
        }
    }

    /// The parts are those the configuration asks for, over this node's pool, storage and state.
    fn parts(c: &Conf, rec: &Rec, at: u64) -> Res {
        same("pool", "the pools", &rec.pools, &vec![(
            (c.size as usize, c.gap),
            (c.gap, c.cast.0.unwrap_or(200), c.cast.1.unwrap_or(200), Some(at)),
        )])?;
        {
            let net = NET.lock().unwrap();
            same("network", "the number of networks", &net.made, &1)?;
            same("network", "the bootstraps", &net.bootstraps, &c.bootstraps.clone().unwrap_or_default())?;
            same("network", "the key pair", &net.keypair, &Some(c.key_text.clone()))?;
            same("network", "the listening address", &net.listen, &vec![c.listen])?;
            same("network", "the endpoints when it runs", &net.running, &Some(net.ends.len() + net.answers.len()))?;
        }
        same("graphql", "the interface", &rec.graphql.iter().map(|g| (g.0, g.1.clone(), g.2.clone(), g.3, g.4)).collect::<Vec<_>>(),
            &vec![(c.graphql.0, c.graphql.1.clone(), c.graphql.2.clone(), 0, Some(at))])?;
        same("consensus", "what consensus works on", &rec.consensus, &Some((0, Some(at))))?;
        let d = &c.duration;
        let duration = super::core_consensus::DurationConfig {
            propose_numerator:     d[0],
            propose_denominator:   d[1],
            prevote_numerator:     d[2],
            prevote_denominator:   d[3],
            precommit_numerator:   d[4],
            precommit_denominator: d[5],
        };
        same("consensus", "how consensus is run", &rec.run, &vec![(c.interval, format!("{:?}", Some(duration)))])
    }

    /// Each endpoint's messages reach the part that is to serve them.
    fn served(at: u64) -> Res {
        let ends = std::mem::replace(&mut NET.lock().unwrap().ends, vec![]);
        let mut want = vec![
            ("/gossip/mempool/new_txs", "pool 0: take a transaction in".to_owned(), None),
            ("/rpc_call/mempool/pull_txs", "pool 0: look transactions up".to_owned(), Some(("/rpc_resp/mempool/pull_txs", "MsgPushTxs"))),
            ("/gossip/consensus/signed_proposal", "consensus: proposal".to_owned(), None),
            ("/gossip/consensus/qc", "consensus: aggregated vote".to_owned(), None),
            ("/gossip/consensus/signed_vote", "consensus: vote".to_owned(), None),
            ("/gossip/consensus/rich_epoch_id", "consensus: rich epoch id".to_owned(), None),
            ("/rpc_call/consensus/sync_pull", format!("storage at {:?}: a peer pulls", Some(at)), Some(("/rpc_resp/consensus/sync_pull", "ConsensusRpcResponse"))),
        ];
        for (end, deliver) in ends {
            REC.lock().unwrap().did.clear();
            NET.lock().unwrap().sent.clear();
            deliver();
            let did = std::mem::replace(&mut REC.lock().unwrap().did, vec![]);
            let sent = std::mem::replace(&mut NET.lock().unwrap().sent, vec![]);
            let i = match want.iter().position(|w| w.0 == end) {
                Some(i) => i,
                None => return f("endpoint", format!("{} is registered twice, or not to be", end)),
            };
            let w = want.remove(i);
            same("endpoint", &format!("what a message at {} does", end), &did, &vec![w.1])?;
            let answer: Vec<(String, String)> = w.2.iter().map(|(e, m)| (e.to_string(), m.to_string())).collect();
            same("endpoint", &format!("the answer to a message at {}", end), &sent, &answer)?;
        }
        if let Some(w) = want.get(0) {
            return f("endpoint", format!("nobody serves {}", w.0));
        }
        let answers = NET.lock().unwrap().answers.clone();
        let mut got: Vec<_> = answers.iter().map(|(e, m)| (e.as_str(), m.rsplit("::").next().unwrap())).collect();
        got.sort();
        same("endpoint", "the answers known", &got, &vec![
            ("/rpc_resp/consensus/sync_pull", "ConsensusRpcResponse"),
            ("/rpc_resp/mempool/pull_txs", "MsgPushTxs"),
        ])
    }

    fn show(s: &CurrentConsensusStatus) -> String {
        format!("{:?}", s)
    }

    /// The status taken up, next to the one a node that never stopped has.
    fn status(c: &Conf, rec: &Rec, want: &CurrentConsensusStatus, latest: &Epoch) -> Vec<(String, String)> {
        let (got, info, key) = match &rec.status {
            Some(s) => s,
            None => return vec![("consensus".into(), "consensus was not started".into())],
        };
        let mut bad = vec![];
        let mut add = |key: &str, ok: bool, what: String| {
            if !ok {
                bad.push((key.to_owned(), what));
            }
        };
        add("node", info.chain_id == c.chain, format!("the chain id is {:?}, and should be {:?}", info.chain_id, c.chain));
        add("node", info.self_address == c.address(), format!("the node's address is {:?}, and should be {:?}", info.self_address, c.address()));
        add("node", key == &c.key, "the key consensus signs with is not the node's".into());
        let eq = |what: &str, a: String, b: String| {
            if a == b {
                None
            } else {
                Some(format!("the {} is {}, and should be {}", what, a, b))
            }
        };
        let d = |x: &dyn std::fmt::Debug| format!("{:?}", x);
        for w in &[
            eq("height", d(&got.epoch_id), d(&want.epoch_id)),
            eq("previous hash", d(&got.prev_hash), d(&want.prev_hash)),
            eq("price", d(&got.cycles_price), d(&want.cycles_price)),
            eq("limit", d(&got.cycles_limit), d(&want.cycles_limit)),
            eq("bloom", d(&got.logs_bloom), d(&want.logs_bloom)),
            eq("cycles used", d(&got.cycles_used), d(&want.cycles_used)),
            eq("interval", d(&got.consensus_interval), d(&want.consensus_interval)),
            eq("validators", d(&got.validators), d(&want.validators)),
        ] {
            add("status", w.is_none(), w.clone().unwrap_or_default());
        }
        // What is known to be wrong, on a chain past its genesis, is told from what is not.
        let past = latest.header.epoch_id > 0;
        let e = Hash::from_empty();
        for (name, got, want, known) in &[
            ("state-root", d(&got.state_root), d(&want.state_root), d(&latest.header.state_root)),
            ("order-root", d(&got.order_root), d(&want.order_root), d(&e)),
            ("confirm-root", d(&got.confirm_root), d(&want.confirm_root), d(&vec![e.clone()])),
            ("receipt-root", d(&got.receipt_root), d(&want.receipt_root), d(&vec![e.clone()])),
            ("proof", d(&got.proof), d(&want.proof), d(&latest.header.proof)),
        ] {
            let key = if past && got == known { format!("restart:{}", name) } else { "status".to_owned() };
            let w = eq(name, got.clone(), want.clone());
            add(&key, w.is_none(), w.clone().unwrap_or_default());
        }
        bad
    }

    struct Case {
        r:    Rng,
        dir:  PathBuf,
        log:  Vec<String>,
        bad:  Vec<(String, String)>,
    }

    impl Case {
        fn all(&mut self) -> Res {
            let dir = self.dir.clone();
            let r = &mut self.r;
            let c = Conf::new(r, &dir.join("data"));
            let (g, gtext, ask) = genesis(r);
            let (cp, gp) = (dir.join("config"), dir.join("genesis"));
            std::fs::write(&cp, &c.text).unwrap();
            std::fs::write(&gp, &gtext).unwrap();
            self.log.push(format!("configuration {}\ngenesis {}", c.text, gtext));

            // ---- a new chain
            let rec = run(&cp, &gp, &ask);
            parts(&c, &rec, 0)?;
            served(0)?;
            let root = genesis_root(&c.chain, &g, c.price);
            let genesis = {
                let s = store(&c);
                let e = match block_on(s.get_latest_epoch()) {
                    Ok(e) => e,
                    Err(e) => return f("genesis", format!("no epoch is stored: {:?}", e)),
                };
                let p = match block_on(s.get_latest_proof()) {
                    Ok(p) => p,
                    Err(e) => return f("genesis", format!("no proof is stored: {:?}", e)),
                };
                same("genesis", "the proof stored", &p, &e.header.proof)?;
                match block_on(s.get_epoch_by_epoch_id(0)) {
                    Ok(x) => same("genesis", "the epoch at height 0", &x, &e)?,
                    Err(e) => return f("genesis", format!("there is no epoch at height 0: {:?}", e)),
                }
                e
            };
            let h = &genesis.header;
            let empty = Hash::from_empty();
            same("genesis", "the chain id", &h.chain_id, &c.chain)?;
            same("genesis", "the height", &h.epoch_id, &0)?;
            same("genesis", "the state root", &h.state_root, &root)?;
            same("genesis", "the timestamp", &h.timestamp, &g.timestamp)?;
            same("genesis", "the predecessor", &h.pre_hash, &empty)?;
            same("genesis", "the order root", &h.order_root, &empty)?;
            same("genesis", "the transactions", &genesis.ordered_tx_hashes, &vec![])?;
            same("genesis", "the proof's height", &h.proof.epoch_id, &0)?;
            let validators: Vec<Validator> =
                c.verifiers.iter().map(|v| Validator { address: v.clone(), propose_weight: 1, vote_weight: 1 }).collect();
            let want = CurrentConsensusStatus {
                cycles_price:       c.price,
                cycles_limit:       c.limit,
                epoch_id:           1,
                prev_hash:          Hash::digest(genesis.encode_fixed().unwrap()),
                logs_bloom:         h.logs_bloom.clone(),
                order_root:         empty.clone(),
                confirm_root:       vec![empty.clone()],
                state_root:         root.clone(),
                receipt_root:       vec![empty.clone()],
                cycles_used:        h.cycles_used,
                proof:              h.proof.clone(),
                validators:         validators.clone(),
                consensus_interval: c.interval,
            };
            self.bad.extend(status(&c, &rec, &want, &genesis));
            let held: Vec<String> = {
                let mut sums: Vec<BigUint> = vec![BigUint::from(0u32); ask.len()];
                for (i, (a, id)) in ask.iter().enumerate() {
                    for al in &g.state_alloc {
                        for s in &al.assets {
                            if Address::from_hex(&al.address).unwrap() == *a && Hash::from_hex(&s.asset_id).unwrap() == *id {
                                sums[i] += BigUint::from_bytes_be(&hex::decode(&s.balance).unwrap());
                            }
                        }
                    }
                }
                // One listed without assets holds nothing: that it reads as no account is as good.
                let known = |a: &Address| {
                    g.state_alloc.iter().any(|al| Address::from_hex(&al.address).unwrap() == *a && !al.assets.is_empty())
                };
                let text = |(b, x): (&BigUint, &(Address, AssetID))| if known(&x.0) { b.to_string() } else { "no account".to_owned() };
                sums.iter().zip(&ask).map(text).collect()
            };
            let seen = |x: &Option<Vec<String>>| -> Option<Vec<String>> {
                let listed = |a: &Address| g.state_alloc.iter().any(|al| Address::from_hex(&al.address).unwrap() == *a);
                let one = |((s, w), x): ((&String, &String), &(Address, AssetID))| {
                    if w == "no account" && s == "0" && listed(&x.0) { w.clone() } else { s.clone() }
                };
                x.as_ref().map(|x| if x.len() == held.len() { x.iter().zip(&held).zip(&ask).map(one).collect() } else { x.clone() })
            };
            same("state", "what consensus sees in the state", &seen(&rec.balances), &Some(held.clone()))?;
            same("state", "what the interface sees in the state", &seen(&rec.graphql[0].5), &Some(held.clone()))?;

            // ---- another node, of another key, on the same genesis
            if self.r.chance(1, 4) {
                let mut c2 = Conf::new(&mut self.r, &dir.join("other"));
                c2.text = c2.text.replace(&gen::hx(&c2.chain.as_bytes()), &gen::hx(&c.chain.as_bytes()));
                let cp2 = dir.join("config2");
                std::fs::write(&cp2, &c2.text).unwrap();
                self.log.push(format!("another node: {}", c2.text));
                run(&cp2, &gp, &ask);
                *NET.lock().unwrap() = Default::default();
                let e = block_on(store(&c2).get_latest_epoch());
                same("genesis", "another node's genesis epoch", &e.ok(), &Some(genesis.clone()))?;
            }

            // ---- started again, perhaps after an epoch, and with another genesis file
            let mut latest = genesis.clone();
            let mut want = want;
            if self.r.chance(2, 3) {
                let r = &mut self.r;
                let mut txs = gen::many(r, gen::signed);
                for t in txs.iter_mut() {
                    t.raw.fee.cycle &= 0xffff;
                }
                let mut e = gen::epoch(r);
                e.header.epoch_id = 1 + r.edgy() % 1_000_000;
                e.header.chain_id = c.chain.clone();
                e.header.pre_hash = want.prev_hash.clone();
                e.header.state_root = root.clone();
                e.ordered_tx_hashes = txs.iter().map(|t| t.tx_hash.clone()).collect();
                let db = Arc::new(RocksTrieDB::new(c.state(), c.light).unwrap());
                let mut x = TransactionExecutorFactory::from_root(
                    c.chain.clone(), root.clone(), db, e.header.epoch_id, c.price, Address::User(e.header.proposer.clone())).unwrap();
                let resp = x.exec(txs.clone()).unwrap();
                let mut proof = gen::proof(r);
                proof.epoch_id = e.header.epoch_id;
                {
                    let s = store(&c);
                    block_on(s.insert_transactions(txs.clone())).unwrap();
                    block_on(s.insert_receipts(resp.receipts.clone())).unwrap();
                    block_on(s.insert_epoch(e.clone())).unwrap();
                    block_on(s.update_latest_proof(proof.clone())).unwrap();
                }
                self.log.push(format!("then the epoch {:?} of the transactions {:?} with the proof {:?}", e, txs, proof));
                let order = Merkle::from_hashes(e.ordered_tx_hashes.clone()).get_root_hash().unwrap_or_else(Hash::from_empty);
                let receipts: Vec<Hash> = resp.receipts.iter().map(|x| Hash::digest(x.encode_fixed().unwrap())).collect();
                want = CurrentConsensusStatus {
                    epoch_id: e.header.epoch_id + 1,
                    prev_hash: Hash::digest(e.encode_fixed().unwrap()),
                    logs_bloom: e.header.logs_bloom.clone(),
                    order_root: order.clone(),
                    confirm_root: vec![order],
                    state_root: resp.state_root.clone(),
                    receipt_root: vec![Merkle::from_hashes(receipts).get_root_hash().unwrap_or_else(Hash::from_empty)],
                    cycles_used: e.header.cycles_used,
                    proof,
                    ..want
                };
                latest = e;
            }
            let proof_before = block_on(store(&c).get_latest_proof()).unwrap();
            if self.r.chance(1, 2) {
                let (_, t, _) = genesis_of(&mut self.r);
                std::fs::write(&gp, &t).unwrap();
                self.log.push("and another genesis file".into());
            }
            let rec = run(&cp, &gp, &ask);
            parts(&c, &rec, latest.header.epoch_id)?;
            served(latest.header.epoch_id)?;
            {
                let s = store(&c);
                same("restart", "the latest epoch after a restart", &block_on(s.get_latest_epoch()).ok(), &Some(latest.clone()))?;
                same("restart", "the genesis epoch after a restart", &block_on(s.get_epoch_by_epoch_id(0)).ok(), &Some(genesis.clone()))?;
                same("restart", "the latest proof after a restart", &block_on(s.get_latest_proof()).ok(), &Some(proof_before))?;
            }
            self.bad.extend(status(&c, &rec, &want, &latest));

            // ---- a chain whose latest epoch cannot be read is not begun anew
            if self.r.chance(1, 4) {
                let mut junk = gen::proof(&mut self.r);
                junk.epoch_id |= 1;
                {
                    let a = RocksAdapter::new(c.block()).unwrap();
                    block_on(a.insert::<Damaged>(latest_key(), junk.clone())).unwrap();
                }
                let unreadable = block_on(store(&c).get_latest_epoch()).is_err();
                if unreadable {
                    self.log.push(format!("then the latest epoch's record is damaged: it is {:?}", junk));
                    if guard(|| run(&cp, &gp, &ask)).is_ok() {
                        return f("damaged", "the node starts on a chain whose latest epoch it cannot read".into());
                    }
                    let a = RocksAdapter::new(c.block()).unwrap();
                    same("damaged", "the record of the latest epoch", &block_on(a.get::<Damaged>(latest_key())).ok(), &Some(Some(junk)))?;
                    let s = ImplStorage::new(Arc::new(a));
                    same("damaged", "the epoch at height 0", &block_on(s.get_epoch_by_epoch_id(0)).ok(), &Some(genesis))?;
                }
            }
            Ok(())
        }
    }

    fn genesis_of(r: &mut Rng) -> (Genesis, String, Vec<(Address, AssetID)>) {
        genesis(r)
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        c.rule = "distinct generated configurations and genesis files; each is a new chain, started again, perhaps after an epoch".into();
        let base = std::env::temp_dir().join(format!("vxh-node-{}-{}", std::process::id(), c.seed));
        while c.go(1.0) {
            let seed = c.rng.u64();
            let dir = base.join(format!("{:x}", seed));
            std::fs::create_dir_all(&dir).unwrap();
            let mut case = Case { r: Rng::new(seed), dir: dir.clone(), log: vec![], bad: vec![] };
            let res = guard(|| case.all());
            *NET.lock().unwrap_or_else(|e| e.into_inner()) = Default::default();
            c.case(&seed);
            let log = case.log.join("; ");
            for (k, what) in case.bad {
                c.fail(&k, "consensus is not taken up where the chain ends", format!("{} :: {}", log, what));
            }
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, what))) => c.fail(&k, "the node is not put together as its configuration and its chain say", format!("{} :: {}", log, what)),
                Err(p) => c.fail("panic", "the node does not start", format!("{} :: {}", log, p)),
            }
            c.sample(|| log);
            let _ = std::fs::remove_dir_all(&dir);
        }
        let _ = std::fs::remove_dir_all(&base);
        c.finish()
    }
}
