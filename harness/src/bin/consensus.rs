// C21, C22, C27: the consensus engine, catching up and the wire forms, over an adapter that notes what it is asked.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/consensus.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::adapter::OverlordConsensusAdapter;
    use super::consensus::OverlordConsensus;
    use super::engine::ConsensusEngine;
    use super::fixed_types::{ConsensusRpcRequest, ConsensusRpcResponse, FixedEpochID, FixedPill, FixedSignedTxs, PullTxsRequest};
    use super::gen;
    use super::message::*;
    use super::util::OverlordCrypto;
    use super::vxh::{guard, Ctx, Rng};
    use super::ConsensusError;
    use async_trait::async_trait;
    use bytes::Bytes;
    use common_crypto::{PrivateKey, PublicKey, Secp256k1PrivateKey};
    use common_merkle::Merkle;
    use core_storage::adapter::memory::MemoryAdapter;
    use core_storage::ImplStorage;
    use futures::executor::block_on;
    use overlord::types::{AggregatedSignature, AggregatedVote, Commit, Node, OverlordMsg, Proof as OvProof, SignedProposal, SignedVote, Status};
    use overlord::{Codec, Consensus as Engine, Crypto, OverlordHandler};
    use parking_lot::RwLock;
    use protocol::fixed_codec::ProtocolFixedCodec;
    use protocol::traits::executor::{Executor, ExecutorExecResp, ExecutorFactory};
    use protocol::traits::{
        Consensus, ConsensusAdapter, Context, CurrentConsensusStatus, Gossip, MemPool, MessageCodec, MessageHandler, MessageTarget, MixedTxHashes, NodeInfo,
        Priority, Rpc, Storage,
    };
    use protocol::types::*;
    use protocol::{ProtocolError, ProtocolResult};
    use std::collections::{HashMap, HashSet};
    use std::sync::{Arc, Mutex, Weak};

    type Res = Result<(), (String, String)>;
    type Store = ImplStorage<MemoryAdapter>;
    type Cons = OverlordConsensus<Fake>;
    type Eng = ConsensusEngine<Fake>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    macro_rules! must {
        ($c:expr, $k:expr, $($m:tt)*) => {
            if !($c) {
                return f($k, format!($($m)*));
            }
        };
    }

    fn no() -> ProtocolError {
        ConsensusError::Other("told to fail".to_owned()).into()
    }

    fn digest(b: Bytes) -> Hash {
        Hash::digest(b)
    }

    fn of<T: ProtocolFixedCodec>(x: &T) -> Hash {
        digest(x.encode_fixed().unwrap())
    }

    fn short(h: &Hash) -> String {
        h.as_hex()[..10].to_owned()
    }

    fn list(h: &[Hash]) -> String {
        h.iter().map(short).collect::<Vec<_>>().join(",")
    }

    fn root(h: Vec<Hash>) -> Hash {
        Merkle::from_hashes(h).get_root_hash().unwrap_or_else(Hash::from_empty)
    }

    /// The only state the status can be in after these, as the statement has it.
    fn after(s: &CurrentConsensusStatus, id: u64, e: &Epoch, p: &Proof, resp: &ExecutorExecResp) -> CurrentConsensusStatus {
        let order = root(e.ordered_tx_hashes.clone());
        CurrentConsensusStatus {
            epoch_id: id + 1,
            prev_hash: of(e),
            proof: p.clone(),
            state_root: resp.state_root.clone(),
            order_root: order.clone(),
            confirm_root: vec![order],
            receipt_root: vec![root(resp.receipts.iter().map(of).collect())],
            ..s.clone()
        }
    }

    fn differ(a: &CurrentConsensusStatus, b: &CurrentConsensusStatus) -> Option<&'static str> {
        if a.epoch_id != b.epoch_id {
            return Some("epoch_id");
        }
        if a.prev_hash != b.prev_hash {
            return Some("prev_hash");
        }
        if a.state_root != b.state_root {
            return Some("state_root");
        }
        if a.order_root != b.order_root {
            return Some("order_root");
        }
        if a.confirm_root != b.confirm_root {
            return Some("confirm_root");
        }
        if a.receipt_root != b.receipt_root {
            return Some("receipt_root");
        }
        if a.proof != b.proof {
            return Some("proof");
        }
        if a.cycles_price != b.cycles_price || a.cycles_limit != b.cycles_limit || a.cycles_used != b.cycles_used {
            return Some("cycles");
        }
        if a.validators != b.validators || a.logs_bloom != b.logs_bloom || a.consensus_interval != b.consensus_interval {
            return Some("terms");
        }
        None
    }

    fn run(root: &Hash, height: u64, txs: &[SignedTransaction]) -> ExecutorExecResp {
        let mut v = root.as_bytes().to_vec();
        v.extend_from_slice(&height.to_le_bytes());
        for t in txs {
            v.extend_from_slice(&t.tx_hash.as_bytes());
        }
        let d = digest(Bytes::from(v));
        let mut s = [0u8; 8];
        s.copy_from_slice(&d.as_bytes()[..8]);
        let mut r = Rng::new(u64::from_le_bytes(s));
        ExecutorExecResp {
            receipts: txs.iter().map(|_| gen::receipt(&mut r)).collect(),
            all_cycles_used: vec![],
            logs_bloom: gen::bloom(&mut r),
            state_root: d,
        }
    }

    #[derive(Clone, Debug)]
    enum Op {
        Proof(Proof),
        Epoch(Epoch),
        Receipts(Vec<Receipt>),
        Txs(Vec<SignedTransaction>),
        Flush(Vec<Hash>),
        Run { chain: Hash, root: Hash, height: u64, price: u64, coinbase: Address, txs: Vec<SignedTransaction> },
        Sync(Vec<Hash>),
        Check(Vec<Hash>),
        Send(Vec<u8>, String, MessageTarget),
    }

    impl Op {
        fn name(&self) -> String {
            match self {
                Op::Proof(p) => format!("proof {}", short(&p.epoch_hash)),
                Op::Epoch(e) => format!("epoch {}", e.header.epoch_id),
                Op::Receipts(r) => format!("{} receipts", r.len()),
                Op::Txs(t) => format!("{} txs", t.len()),
                Op::Flush(h) => format!("flush [{}]", list(h)),
                Op::Run { root, height, txs, .. } => format!("run of {} txs at {} on {}", txs.len(), height, short(root)),
                Op::Sync(h) => format!("sync [{}]", list(h)),
                Op::Check(h) => format!("check [{}]", list(h)),
                Op::Send(m, end, _) => format!("send {} bytes to {}", m.len(), end),
            }
        }
    }

    struct Did {
        op: Op,
        ok: bool,
        /// The state root of the status then.
        at: Option<Hash>,
    }

    #[derive(Default)]
    struct Inner {
        latest:  u64,
        stored:  HashMap<u64, Epoch>,
        pool:    HashMap<Hash, SignedTransaction>,
        packed:  (Vec<Hash>, Vec<Hash>),
        limits:  Vec<(u64, u64)>,
        ops:     Vec<Did>,
        fail_at: Option<usize>,
        peer:    HashMap<u64, Epoch>,
        ptxs:    HashMap<Vec<Hash>, Vec<SignedTransaction>>,
        pulled:  Vec<u64>,
        eng:     Option<Weak<Eng>>,
        cons:    Option<Weak<Cons>>,
        /// Try to commit and to catch up in the middle of this request.
        nest_at: Option<usize>,
        nested:  Option<String>,
        order:   Option<(u64, Commit<FixedPill>)>,
    }

    struct Fake(Mutex<Inner>);

    impl Fake {
        async fn op(&self, op: Op) -> ProtocolResult<()> {
            let (ok, nest) = {
                let mut g = self.0.lock().unwrap();
                let n = g.ops.len();
                let ok = g.fail_at != Some(n);
                let eng = g.eng.as_ref().and_then(Weak::upgrade);
                let at = eng.as_ref().map(|e| e.get_current_state_root());
                g.ops.push(Did { op, ok, at });
                let nest = if g.nest_at == Some(n) {
                    g.nest_at = None;
                    eng.map(|e| (e, g.cons.as_ref().and_then(Weak::upgrade), g.order.clone(), n + 1))
                } else {
                    None
                };
                (ok, nest)
            };
            if let Some((e, cons, order, n)) = nest {
                let mut said = String::new();
                let root = e.get_current_state_root();
                if let Some((id, order)) = order {
                    let r = e.commit(Context::new(), id, order).await;
                    if r.is_ok() {
                        said += "commit did something; ";
                    }
                }
                if let Some(c) = cons {
                    let msg = announce(u64::max_value() / 2);
                    let r = c.update_epoch(Context::new(), msg).await;
                    if r.is_err() {
                        said += "update_epoch failed; ";
                    }
                }
                let mut g = self.0.lock().unwrap();
                if g.ops.len() != n || e.get_current_state_root() != root {
                    said += "something was done; ";
                }
                g.nested = Some(said);
            }
            if ok {
                Ok(())
            } else {
                Err(no())
            }
        }
    }

    fn announce(n: u64) -> Vec<u8> {
        bincode::serialize(&FixedEpochID::new(n)).unwrap()
    }

    #[async_trait]
    impl ConsensusAdapter for Fake {
        async fn get_txs_from_mempool(&self, _: Context, epoch_id: u64, cycle_limit: u64) -> ProtocolResult<MixedTxHashes> {
            let mut g = self.0.lock().unwrap();
            g.limits.push((epoch_id, cycle_limit));
            Ok(MixedTxHashes { order_tx_hashes: g.packed.0.clone(), propose_tx_hashes: g.packed.1.clone() })
        }

        async fn check_txs(&self, _: Context, txs: Vec<Hash>) -> ProtocolResult<()> {
            let z = self.op(Op::Check(txs)).await;
            z
        }

        async fn sync_txs(&self, _: Context, txs: Vec<Hash>) -> ProtocolResult<()> {
            let z = self.op(Op::Sync(txs)).await;
            z
        }

        async fn get_full_txs(&self, _: Context, txs: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
            let g = self.0.lock().unwrap();
            let mut v = vec![];
            for h in &txs {
                match g.pool.get(h) {
                    Some(t) => v.push(t.clone()),
                    None => return Err(no()),
                }
            }
            Ok(v)
        }

        async fn transmit(&self, _: Context, msg: Vec<u8>, end: &str, target: MessageTarget) -> ProtocolResult<()> {
            let op = Op::Send(msg, end.to_owned(), target);
            let z = self.op(op).await;
            z
        }

        async fn execute(
            &self,
            node_info: NodeInfo,
            state_root: MerkleRoot,
            epoch_id: u64,
            cycles_price: u64,
            coinbase: Address,
            signed_txs: Vec<SignedTransaction>,
        ) -> ProtocolResult<ExecutorExecResp> {
            let resp = run(&state_root, epoch_id, &signed_txs);
            let op = Op::Run { chain: node_info.chain_id, root: state_root, height: epoch_id, price: cycles_price, coinbase, txs: signed_txs };
            self.op(op).await?;
            Ok(resp)
        }

        async fn flush_mempool(&self, _: Context, txs: Vec<Hash>) -> ProtocolResult<()> {
            let z = self.op(Op::Flush(txs)).await;
            z
        }

        async fn save_epoch(&self, _: Context, epoch: Epoch) -> ProtocolResult<()> {
            let z = self.op(Op::Epoch(epoch)).await;
            z
        }

        async fn save_receipts(&self, _: Context, receipts: Vec<Receipt>) -> ProtocolResult<()> {
            let z = self.op(Op::Receipts(receipts)).await;
            z
        }

        async fn save_proof(&self, _: Context, proof: Proof) -> ProtocolResult<()> {
            let z = self.op(Op::Proof(proof)).await;
            z
        }

        async fn save_signed_txs(&self, _: Context, txs: Vec<SignedTransaction>) -> ProtocolResult<()> {
            let z = self.op(Op::Txs(txs)).await;
            z
        }

        async fn get_last_validators(&self, _: Context, epoch_id: u64) -> ProtocolResult<Vec<Validator>> {
            match self.0.lock().unwrap().stored.get(&epoch_id) {
                Some(e) => Ok(e.header.validators.clone()),
                None => Err(no()),
            }
        }

        async fn get_current_epoch_id(&self, _: Context) -> ProtocolResult<u64> {
            let g = self.0.lock().unwrap();
            if g.stored.is_empty() {
                return Err(no());
            }
            Ok(g.latest)
        }

        async fn pull_epoch(&self, _: Context, epoch_id: u64, end: &str) -> ProtocolResult<Epoch> {
            let mut g = self.0.lock().unwrap();
            g.pulled.push(epoch_id);
            match g.peer.get(&epoch_id) {
                Some(e) if end == RPC_SYNC_PULL => Ok(e.clone()),
                _ => Err(no()),
            }
        }

        async fn pull_txs(&self, _: Context, hashes: Vec<Hash>, end: &str) -> ProtocolResult<Vec<SignedTransaction>> {
            match self.0.lock().unwrap().ptxs.get(&hashes) {
                Some(e) if end == RPC_SYNC_PULL => Ok(e.clone()),
                _ => Err(no()),
            }
        }

        async fn get_epoch_by_id(&self, _: Context, epoch_id: u64) -> ProtocolResult<Epoch> {
            match self.0.lock().unwrap().stored.get(&epoch_id) {
                Some(e) => Ok(e.clone()),
                None => Err(no()),
            }
        }
    }

    fn status(r: &mut Rng) -> CurrentConsensusStatus {
        CurrentConsensusStatus {
            cycles_price:       r.edgy(),
            cycles_limit:       r.edgy(),
            epoch_id:           r.below(1000) as u64,
            prev_hash:          gen::hash(r),
            logs_bloom:         gen::bloom(r),
            order_root:         gen::hash(r),
            confirm_root:       gen::many(r, gen::hash),
            state_root:         gen::hash(r),
            receipt_root:       gen::many(r, gen::hash),
            cycles_used:        r.edgy(),
            proof:              gen::proof(r),
            validators:         gen::many(r, gen::validator),
            consensus_interval: r.edgy(),
        }
    }

    /// A transaction under its own digest.
    fn tx(r: &mut Rng) -> SignedTransaction {
        let mut t = gen::signed(r);
        t.tx_hash = of(&t.raw);
        t
    }

    fn txs(r: &mut Rng) -> Vec<SignedTransaction> {
        let n = r.below(5);
        (0..n).map(|_| tx(r)).collect()
    }

    fn hashes(t: &[SignedTransaction]) -> Vec<Hash> {
        t.iter().map(|t| t.tx_hash.clone()).collect()
    }

    fn nodes(v: &[Validator]) -> Vec<Node> {
        let mut n = v
            .iter()
            .map(|v| Node { address: v.address.as_bytes(), propose_weight: v.propose_weight, vote_weight: v.vote_weight })
            .collect::<Vec<_>>();
        n.sort();
        n
    }

    fn info(r: &mut Rng) -> NodeInfo {
        NodeInfo { chain_id: gen::hash(r), self_address: gen::user(r) }
    }

    fn fake() -> Arc<Fake> {
        Arc::new(Fake(Mutex::new(Inner::default())))
    }

    fn written(a: &Fake) -> String {
        a.0.lock().unwrap().ops.iter().map(|d| format!("{}{}", d.op.name(), if d.ok { "" } else { " (fails)" })).collect::<Vec<_>>().join("; ")
    }

    // -------------------------------------------------------------- committing (C21)
    /// A proposal repeats the status, and only its height can be proposed.
    fn propose(r: &mut Rng, a: &Arc<Fake>, e: &Eng, s: &CurrentConsensusStatus, me: &NodeInfo) -> Res {
        {
            // What was to come in the middle of a commit which never got there.
            let mut g = a.0.lock().unwrap();
            g.nest_at = None;
            g.fail_at = None;
        }
        let (order, offer) = {
            let t = txs(r);
            let p = gen::many(r, gen::hash);
            let mut g = a.0.lock().unwrap();
            for t in &t {
                g.pool.insert(t.tx_hash.clone(), t.clone());
            }
            g.packed = (hashes(&t), p.clone());
            g.limits.clear();
            (t, p)
        };
        let other = if r.chance(1, 2) { s.epoch_id + 1 + r.below(3) as u64 } else { s.epoch_id.wrapping_sub(1) };
        must!(block_on(e.get_epoch(Context::new(), other)).is_err(), "ConsensusEngine::get_epoch", "a proposal for height {} in a status of {}", other, s.epoch_id);
        a.0.lock().unwrap().limits.clear();
        let (pill, hash) = match block_on(e.get_epoch(Context::new(), s.epoch_id)) {
            Ok(x) => x,
            Err(e) => return f("ConsensusEngine::get_epoch", format!("no proposal for the height of the status: {:?}", e)),
        };
        let k = "ConsensusEngine::get_epoch";
        let h = &pill.inner.epoch.header;
        must!(a.0.lock().unwrap().limits == vec![(s.epoch_id, s.cycles_limit)], k, "packaged under {:?}", a.0.lock().unwrap().limits);
        must!(h.chain_id == me.chain_id && h.proposer == me.self_address, k, "not of this node");
        must!(h.pre_hash == s.prev_hash, k, "pre_hash {:?}, not {:?}", h.pre_hash, s.prev_hash);
        must!(h.epoch_id == s.epoch_id, k, "epoch_id {}", h.epoch_id);
        must!(h.confirm_root == vec![s.order_root.clone()], k, "confirm_root {:?}, not {:?}", h.confirm_root, s.order_root);
        must!(h.state_root == s.state_root, k, "state_root {:?}, not {:?}", h.state_root, s.state_root);
        must!(h.receipt_root == s.receipt_root, k, "receipt_root {:?}, not {:?}", h.receipt_root, s.receipt_root);
        must!(h.proof == s.proof && h.cycles_used == s.cycles_used && h.logs_bloom == s.logs_bloom, k, "header {:?}", h);
        must!(h.validators == s.validators && h.validator_version == 0, k, "validators {:?}", h.validators);
        must!(h.order_root == root(hashes(&order)), k, "order_root {:?}", h.order_root);
        must!(pill.inner.epoch.ordered_tx_hashes == hashes(&order) && pill.inner.propose_hashes == offer, k, "other transactions");
        must!(hash == of(&pill.inner).as_bytes(), k, "hash {:?}", hash);

        // Its own proposals are taken as they are, the others are looked at.
        let own = r.chance(1, 2);
        let id = if own { hash } else { gen::hash(r).as_bytes() };
        let n = a.0.lock().unwrap().ops.len();
        let bad = r.chance(1, 4);
        if bad {
            let add = r.below(2);
            a.0.lock().unwrap().fail_at = Some(n + add);
        }
        let res = block_on(e.check_epoch(Context::new(), s.epoch_id, id, pill));
        let k = "ConsensusEngine::check_epoch";
        let mut g = a.0.lock().unwrap();
        g.fail_at = None;
        let did = g.ops.split_off(n);
        match res {
            Ok(t) => {
                must!(t.inner == order, k, "other transactions");
                must!(did.iter().all(|d| d.ok), k, "a failure was passed over");
                if !own {
                    must!(
                        did.len() == 2
                            && did.iter().any(|d| if let Op::Sync(h) = &d.op { *h == offer } else { false })
                            && did.iter().any(|d| if let Op::Check(h) = &d.op { *h == hashes(&order) } else { false }),
                        k,
                        "another node's proposal: {}",
                        did.iter().map(|d| d.op.name()).collect::<Vec<_>>().join("; ")
                    );
                } else {
                    must!(did.is_empty(), k, "looked at its own proposal");
                }
            }
            Err(e) => must!(bad && !own, k, "fails: {:?}", e),
        }
        Ok(())
    }

    fn commit(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let k = "ConsensusEngine::commit";
        let me = info(r);
        let mut s = status(r);
        let a = fake();
        let st = Arc::new(RwLock::new(s.clone()));
        let e = Arc::new(ConsensusEngine::new(Arc::clone(&st), me.clone(), Arc::clone(&a)));
        a.0.lock().unwrap().eng = Some(Arc::downgrade(&e));
        let v = gen::epoch(r);
        a.0.lock().unwrap().stored.insert(7, v.clone());
        match block_on(e.get_authority_list(Context::new(), 7)) {
            Ok(n) => must!(n == nodes(&v.header.validators), "ConsensusEngine::get_authority_list", "{:?} for {:?}", n, v.header.validators),
            Err(x) => return f("ConsensusEngine::get_authority_list", format!("{:?}", x)),
        }
        must!(e.get_current_authority_list() == nodes(&s.validators), "ConsensusEngine::get_current_authority_list", "{:?}", s.validators);
        must!(e.get_current_interval() == s.consensus_interval, "ConsensusEngine::get_current_interval", "{}", s.consensus_interval);
        let rounds = 1 + r.below(3);
        for _ in 0..rounds {
            if r.chance(1, 2) {
                propose(r, &a, &e, &s, &me)?;
            }
            let t = txs(r);
            let mut ep = gen::epoch(r);
            ep.ordered_tx_hashes = hashes(&t);
            ep.header.epoch_id = s.epoch_id;
            let lost = !t.is_empty() && r.chance(1, 12);
            {
                let mut g = a.0.lock().unwrap();
                g.ops.clear();
                g.pool.clear();
                for (i, t) in t.iter().enumerate() {
                    if !(lost && i + 1 == ep.ordered_tx_hashes.len()) {
                        g.pool.insert(t.tx_hash.clone(), t.clone());
                    }
                }
                g.fail_at = if r.chance(1, 2) { Some(r.below(8)) } else { None };
                g.nest_at = None;
                g.nested = None;
            }
            let mut hash = gen::hash(r).as_bytes().to_vec();
            let short_hash = r.chance(1, 16);
            if short_hash {
                hash.truncate(31);
            }
            let id = if r.chance(1, 8) { r.edgy() >> 1 } else { s.epoch_id };
            let c = Commit {
                epoch_id: id,
                content: FixedPill { inner: Pill { epoch: ep.clone(), propose_hashes: vec![] } },
                proof: OvProof {
                    epoch_id: r.edgy(),
                    round: r.edgy(),
                    epoch_hash: Bytes::from(hash.clone()),
                    signature: AggregatedSignature { signature: gen::data(r), address_bitmap: gen::data(r) },
                },
            };
            let locked = r.chance(1, 8);
            if !locked && r.chance(1, 4) {
                let mut g = a.0.lock().unwrap();
                g.nest_at = Some(r.below(7));
                g.order = Some((id, c.clone()));
            }
            log.push(format!("commit {} of {} txs{}{}, request {:?} fails", id, t.len(), if locked { ", locked" } else { "" }, if lost { ", one not pooled" } else { "" }, a.0.lock().unwrap().fail_at));
            let res = {
                let _l = if locked { e.lock.try_lock() } else { None };
                block_on(e.commit(Context::new(), id, c.clone()))
            };
            let now = st.read().clone();
            log.push(format!("=> {}: {}", if res.is_ok() { "ok" } else { "error" }, written(&a)));
            let g = a.0.lock().unwrap();
            if locked {
                must!(res.is_err() && g.ops.is_empty() && differ(&s, &now).is_none(), k, "committed while catching up");
                continue;
            }
            if let Some(n) = &g.nested {
                must!(n.is_empty(), k, "in the middle of a commit: {}", n);
            }
            let find = |p: &dyn Fn(&Op) -> bool| -> Vec<&Did> { g.ops.iter().filter(|d| p(&d.op)).collect() };
            let proofs = find(&|o| if let Op::Proof(_) = o { true } else { false });
            let epochs = find(&|o| if let Op::Epoch(_) = o { true } else { false });
            let receipts = find(&|o| if let Op::Receipts(_) = o { true } else { false });
            let saved = find(&|o| if let Op::Txs(_) = o { true } else { false });
            let flushed = find(&|o| if let Op::Flush(_) = o { true } else { false });
            let runs = find(&|o| if let Op::Run { .. } = o { true } else { false });
            let sent = find(&|o| if let Op::Send(..) = o { true } else { false });
            for (what, l) in &[("proof", &proofs), ("epoch", &epochs), ("receipts", &receipts), ("txs", &saved), ("flush", &flushed), ("run", &runs), ("send", &sent)] {
                must!(l.len() <= 1, k, "{} twice", what);
            }
            must!(find(&|o| if let Op::Sync(_) = o { true } else { false }).is_empty(), k, "syncs");
            let resp = run(&s.state_root, id, &t);
            let proof = Proof {
                epoch_id: c.proof.epoch_id,
                round: c.proof.round,
                epoch_hash: Hash::from_bytes(Bytes::from(hash.clone())).unwrap_or_else(|_| Hash::from_empty()),
                signature: c.proof.signature.signature.clone(),
                bitmap: c.proof.signature.address_bitmap.clone(),
            };
            for d in &g.ops {
                let same = match &d.op {
                    Op::Proof(p) => !short_hash && *p == proof,
                    Op::Epoch(x) => *x == ep,
                    Op::Receipts(x) => !runs.is_empty() && *x == resp.receipts,
                    Op::Txs(x) => *x == t,
                    Op::Flush(x) => *x == ep.ordered_tx_hashes,
                    Op::Run { chain, root, height, price, coinbase, txs } => {
                        *chain == me.chain_id && *root == s.state_root && *height == id && *price == s.cycles_price && *txs == t
                            && *coinbase == Address::User(ep.header.proposer.clone())
                    }
                    Op::Send(m, end, to) => *m == announce(id + 1) && end == END_GOSSIP_RICH_EPOCH_ID && *to == MessageTarget::Broadcast,
                    _ => false,
                };
                must!(same, k, "not what the commit calls for: {}", d.op.name());
                if let Op::Send(..) = &d.op {
                } else {
                    must!(d.at == Some(s.state_root.clone()), k, "the status moved before {} was asked for", d.op.name());
                }
            }
            let ok = |l: &Vec<&Did>| l.len() == 1 && l[0].ok;
            let all = ok(&proofs) && ok(&epochs) && ok(&receipts) && ok(&saved) && ok(&runs) && ok(&flushed);
            let want = after(&s, id, &ep, &proof, &resp);
            let moved = differ(&s, &now).is_some();
            if moved {
                must!(all, k, "the status moved, though not everything is saved");
                if let Some(d) = differ(&want, &now) {
                    return f("ConsensusEngine::update_status", format!("{} is not that of the epoch committed", d));
                }
            }
            must!(sent.is_empty() || moved, k, "announced what was not committed");
            must!(g.ops.iter().all(|d| d.ok) || res.is_err(), k, "a failure was passed over");
            if res.is_err() {
                must!(lost || short_hash || g.ops.iter().any(|d| !d.ok), k, "fails");
            }
            if let Ok(x) = &res {
                must!(moved && ok(&sent), k, "done, but not all of it");
                must!(x.epoch_id == id + 1 && x.interval == Some(s.consensus_interval) && x.authority_list == nodes(&s.validators), k, "answers {:?}", x);
            }
            s = now;
        }
        Ok(())
    }

    // -------------------------------------------------------------- catching up (C22)
    fn catch_up(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let k = "OverlordConsensus::update_epoch";
        let me = info(r);
        let latest = if r.chance(1, 3) { 0 } else { r.below(50) as u64 };
        let mut s = status(r);
        s.epoch_id = latest + 1;
        let a = fake();
        let mut base = gen::epoch(r);
        base.header.epoch_id = latest;
        s.prev_hash = of(&base);
        let nothing = r.chance(1, 24);

        // What a peer has: epochs that extend this one, up to one that does not.
        let len = r.below(5);
        let mut chain: Vec<(Epoch, Vec<SignedTransaction>)> = vec![];
        let mut good = len;
        let mut good_proofs = len;
        let mut how = String::new();
        {
            let mut g = a.0.lock().unwrap();
            g.latest = latest;
            if !nothing {
                g.stored.insert(latest, base.clone());
            }
            // Other heights are stored as well.
            for i in 0..latest {
                if r.chance(1, 10) {
                    let mut e = gen::epoch(r);
                    e.header.epoch_id = i;
                    g.stored.insert(i, e);
                }
            }
            let mut prev = of(&base);
            let bad = if r.chance(1, 2) { r.below(5) } else { 99 };
            for i in 0..len {
                let mut t = txs(r);
                if i == bad && t.is_empty() {
                    // The peer answers by list: the bad answer is not to be that of another epoch.
                    t.push(tx(r));
                }
                let mut e = gen::epoch(r);
                e.header.epoch_id = latest + 1 + i as u64;
                e.header.pre_hash = prev.clone();
                e.ordered_tx_hashes = hashes(&t);
                let h = e.ordered_tx_hashes.clone();
                let mut served = true;
                if i == bad {
                    good = i;
                    good_proofs = i;
                    let kind = r.below(12);
                    how = format!("number {} is bad ({})", i, kind);
                    match kind {
                        0 => e.header.pre_hash = gen::hash(r),
                        1 => e.header.pre_hash = e.header.state_root.clone(),
                        2 => e.header.epoch_id += 1,
                        3 => e.header.epoch_id -= 1,
                        4 => served = false,
                        5 => {
                            // Not even transactions.
                            good_proofs = i + 1;
                        }
                        6 | 7 if !t.is_empty() => {
                            let j = r.below(t.len());
                            t.remove(j);
                            good_proofs = i + 1;
                        }
                        8 if !t.is_empty() => {
                            let j = r.below(t.len());
                            t[j] = tx(r);
                            good_proofs = i + 1;
                        }
                        9 if !t.is_empty() => {
                            // Another transaction under the right name.
                            let j = r.below(t.len());
                            let mut x = tx(r);
                            x.tx_hash = t[j].tx_hash.clone();
                            t[j] = x;
                            good_proofs = i + 1;
                        }
                        10 if !t.is_empty() => {
                            // The right transaction under another name.
                            let j = r.below(t.len());
                            t[j].tx_hash = gen::hash(r);
                            good_proofs = i + 1;
                        }
                        11 if t.len() > 1 => {
                            t.swap(0, 1);
                            good_proofs = i + 1;
                        }
                        _ => {
                            t.push(tx(r));
                            good_proofs = i + 1;
                        }
                    }
                    if kind != 5 {
                        g.ptxs.insert(h, t.clone());
                    }
                } else {
                    g.ptxs.insert(h, t.clone());
                }
                prev = of(&e);
                if served {
                    g.peer.insert(latest + 1 + i as u64, e.clone());
                }
                chain.push((e, t));
            }
            g.fail_at = if r.chance(1, 3) { Some(r.below(7 * 4)) } else { None };
        }
        let cons = Arc::new(OverlordConsensus::new(s.clone(), me.clone(), Secp256k1PrivateKey(r.bytes(32)), Arc::clone(&a)));
        let (eng, told) = overlord::LAST.with(|l| {
            let l = l.borrow();
            let l = l.as_ref().unwrap();
            (Arc::clone(l.0.downcast_ref::<Arc<Eng>>().unwrap()), l.1.downcast_ref::<OverlordHandler<FixedPill>>().unwrap().clone())
        });
        {
            let first = told.0.lock().unwrap().split_off(0);
            must!(
                first == vec![OverlordMsg::RichStatus(Status { epoch_id: s.epoch_id, interval: Some(s.consensus_interval), authority_list: nodes(&s.validators) })],
                "OverlordConsensus::new",
                "tells {:?}",
                first
            );
        }
        a.0.lock().unwrap().eng = Some(Arc::downgrade(&eng));
        let n = match r.below(10) {
            0 => r.below(3) as u64,
            1 => latest,
            2 => latest + 1,
            3 => latest + 2,
            4 => latest + len as u64 + 3,
            5 => (latest + 2).saturating_sub(r.below(5) as u64),
            _ => latest + len as u64 + 1,
        };
        let garbage = r.chance(1, 16);
        let msg = if garbage { r.bytes(5) } else { announce(n) };
        let target = n.saturating_sub(1);
        let ahead = !garbage && !nothing && latest + 1 < target;
        let locked = r.chance(1, 10);
        if r.chance(1, 3) {
            let ep = gen::epoch(r);
            let c = Commit {
                epoch_id: s.epoch_id,
                content: FixedPill { inner: Pill { epoch: ep, propose_hashes: vec![] } },
                proof: OvProof {
                    epoch_id: 1,
                    round: 1,
                    epoch_hash: gen::hash(r).as_bytes(),
                    signature: AggregatedSignature { signature: gen::data(r), address_bitmap: gen::data(r) },
                },
            };
            let mut c = c;
            c.content.inner.epoch.ordered_tx_hashes = vec![];
            let mut g = a.0.lock().unwrap();
            g.nest_at = Some(r.below(14));
            g.order = Some((s.epoch_id, c));
            g.cons = Some(Arc::downgrade(&cons));
        }
        log.push(format!(
            "at {}{}, announced {}{}, the peer has {} more, {}, request {:?} fails{}",
            latest,
            if nothing { " (not stored)" } else { "" },
            n,
            if garbage { " (garbage)" } else { "" },
            len,
            how,
            a.0.lock().unwrap().fail_at,
            if locked { ", a commit is under way" } else { "" }
        ));
        let res = {
            let _l = if locked { eng.lock.try_lock() } else { None };
            block_on(cons.update_epoch(Context::new(), msg))
        };
        log.push(format!("=> {}: {}", if res.is_ok() { "ok" } else { "error" }, written(&a)));
        {
            let g = a.0.lock().unwrap();
            let told = told.0.lock().unwrap();
            if !ahead || locked {
                must!(g.ops.is_empty() && told.is_empty(), k, "something was done though there is nothing to do");
                must!(!garbage || res.is_err(), k, "takes garbage");
                must!(garbage || nothing || res.is_ok(), k, "fails though there is nothing to do");
            }
            if let Some(n) = &g.nested {
                must!(n.is_empty(), k, "in the middle of catching up: {}", n);
            }
            // What was asked for, kind by kind, has to be that of the peer's epochs, one by one.
            let mut count = [0usize; 6];
            let mut done = [0usize; 6];
            let mut roots = vec![s.state_root.clone()];
            let mut resps = vec![];
            for (e, t) in &chain {
                let x = run(roots.last().unwrap(), e.header.epoch_id, t);
                roots.push(x.state_root.clone());
                resps.push(x);
            }
            for d in &g.ops {
                let c = match &d.op {
                    Op::Proof(_) => 0,
                    Op::Run { .. } => 1,
                    Op::Receipts(_) => 2,
                    Op::Txs(_) => 3,
                    Op::Epoch(_) => 4,
                    Op::Flush(_) => 5,
                    _ => return f(k, format!("asks for {}", d.op.name())),
                };
                let i = count[c];
                count[c] += 1;
                must!(i < if c == 0 { good_proofs } else { good }, k, "goes on past the last good epoch: {}", d.op.name());
                must!(i as u64 + latest < target, k, "goes past the height announced: {}", d.op.name());
                let (e, t) = &chain[i];
                let same = match &d.op {
                    Op::Proof(p) => *p == e.header.proof,
                    Op::Run { chain, root, height, price, coinbase, txs } => {
                        *chain == me.chain_id && *root == roots[i] && *height == e.header.epoch_id && *price == s.cycles_price && txs == t
                            && *coinbase == Address::User(e.header.proposer.clone())
                    }
                    Op::Receipts(x) => *x == resps[i].receipts,
                    Op::Txs(x) => x == t,
                    Op::Epoch(x) => x == e,
                    Op::Flush(x) => *x == e.ordered_tx_hashes,
                    _ => false,
                };
                must!(same, k, "not what epoch {} calls for: {}", latest + 1 + i as u64, d.op.name());
                if d.ok {
                    done[c] += 1;
                }
                // The status is that of an epoch which is saved.
                let at = done[2].min(done[3]).min(done[4]);
                must!(d.at == Some(roots[at].clone()) || at > 0 && d.at == Some(roots[at - 1].clone()), k, "the status moved before everything was saved: {}", d.op.name());
            }
            for c in &[0usize, 1, 2, 3] {
                must!(done[4] <= done[*c], k, "an epoch was saved without all that belongs to it");
            }
            let whole = (target - latest.min(target)) as usize;
            let bad_op = g.ops.iter().any(|d| !d.ok);
            if ahead && !locked {
                must!(!bad_op || res.is_err(), k, "a failure was passed over");
                must!(res.is_err() || (0..6).all(|c| done[c] == whole), k, "says it caught up, but {:?} of {} are done", done, whole);
                must!(bad_op || good < whole || res.is_ok(), k, "does not catch up with a good peer");
                if res.is_ok() {
                    must!(
                        *told == vec![OverlordMsg::RichStatus(Status { epoch_id: target + 1, interval: Some(s.consensus_interval), authority_list: nodes(&s.validators) })],
                        k,
                        "tells {:?}",
                        *told
                    );
                } else {
                    must!(told.is_empty(), k, "tells {:?}", *told);
                }
            }
            let m = done[2].min(done[3]).min(done[4]);
            if m > 0 {
                s = after(&s, chain[m - 1].0.header.epoch_id, &chain[m - 1].0, &chain[m - 1].0.header.proof, &resps[m - 1]);
            }
        }
        a.0.lock().unwrap().ops.clear();
        a.0.lock().unwrap().fail_at = None;
        a.0.lock().unwrap().nest_at = None;
        propose(r, &a, &eng, &s, &me)
    }

    // -------------------------------------------------------------- the adapter, answers and signatures (C27)
    #[derive(Default)]
    struct Wire {
        cast:  Vec<(String, Option<Vec<UserAddress>>, Bytes, bool)>,
        calls: Vec<(String, Bytes)>,
        back:  Bytes,
        resps: Vec<(String, Bytes)>,
    }

    struct Net(Mutex<Wire>);

    #[async_trait]
    impl Gossip for Net {
        async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, p: Priority) -> ProtocolResult<()> {
            let b = msg.encode().await?;
            let high = if let Priority::High = p { true } else { false };
            self.0.lock().unwrap().cast.push((end.to_owned(), None, b, high));
            Ok(())
        }

        async fn users_cast<M: MessageCodec>(&self, _: Context, end: &str, to: Vec<UserAddress>, mut msg: M, p: Priority) -> ProtocolResult<()> {
            let b = msg.encode().await?;
            let high = if let Priority::High = p { true } else { false };
            self.0.lock().unwrap().cast.push((end.to_owned(), Some(to), b, high));
            Ok(())
        }
    }

    #[async_trait]
    impl Rpc for Net {
        async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
            let b = msg.encode().await?;
            let back = {
                let mut g = self.0.lock().unwrap();
                g.calls.push((end.to_owned(), b));
                g.back.clone()
            };
            let z = R::decode(back).await;
            z
        }

        async fn response<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
            let b = msg.encode().await?;
            self.0.lock().unwrap().resps.push((end.to_owned(), b));
            Ok(())
        }
    }

    #[derive(Default)]
    struct Pool(Mutex<(Vec<String>, HashMap<Hash, SignedTransaction>, (Vec<Hash>, Vec<Hash>), bool)>);

    impl Pool {
        fn say(&self, what: String) -> ProtocolResult<()> {
            let mut g = self.0.lock().unwrap();
            g.0.push(what);
            if g.3 {
                Err(no())
            } else {
                Ok(())
            }
        }
    }

    #[async_trait]
    impl MemPool for Pool {
        async fn insert(&self, _: Context, _: SignedTransaction) -> ProtocolResult<()> {
            self.say("insert".into())
        }

        async fn package(&self, _: Context, limit: u64) -> ProtocolResult<MixedTxHashes> {
            self.say(format!("package {}", limit))?;
            let g = self.0.lock().unwrap();
            Ok(MixedTxHashes { order_tx_hashes: (g.2).0.clone(), propose_tx_hashes: (g.2).1.clone() })
        }

        async fn flush(&self, _: Context, h: Vec<Hash>) -> ProtocolResult<()> {
            self.say(format!("flush {}", list(&h)))
        }

        async fn get_full_txs(&self, _: Context, h: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
            self.say(format!("full {}", list(&h)))?;
            let g = self.0.lock().unwrap();
            Ok(h.iter().filter_map(|h| g.1.get(h).cloned()).collect())
        }

        async fn ensure_order_txs(&self, _: Context, h: Vec<Hash>) -> ProtocolResult<()> {
            self.say(format!("ensure {}", list(&h)))
        }

        async fn sync_propose_txs(&self, _: Context, h: Vec<Hash>) -> ProtocolResult<()> {
            self.say(format!("propose {}", list(&h)))
        }
    }

    struct Ex(Hash, Hash, u64, u64, Address);

    impl Executor for Ex {
        fn create_genesis(&mut self, _: &Genesis) -> ProtocolResult<MerkleRoot> {
            Err(no())
        }

        fn exec(&mut self, txs: Vec<SignedTransaction>) -> ProtocolResult<ExecutorExecResp> {
            let mut x = run(&self.1, self.2, &txs);
            // Everything it was told goes into the answer.
            x.all_cycles_used.push(Fee { asset_id: self.0.clone(), cycle: self.3 });
            if let Address::User(u) = &self.4 {
                x.logs_bloom = Bloom::from_slice(&digest(u.as_bytes()).as_bytes().iter().cycle().take(256).cloned().collect::<Vec<u8>>()[..]);
            }
            Ok(x)
        }

        fn get_balance(&self, _: &Address, _: &Hash) -> ProtocolResult<Balance> {
            Err(no())
        }
    }

    struct Factory;

    impl ExecutorFactory<cita_trie::MemoryDB> for Factory {
        fn from_root(
            chain_id: Hash,
            state_root: MerkleRoot,
            _db: Arc<cita_trie::MemoryDB>,
            epoch_id: u64,
            price: u64,
            coinbase: Address,
        ) -> ProtocolResult<Box<dyn Executor>> {
            if price == 13 {
                return Err(no());
            }
            Ok(Box::new(Ex(chain_id, state_root, epoch_id, price, coinbase)))
        }
    }

    fn adapter(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let net = Arc::new(Net(Mutex::new(Wire::default())));
        let pool = Arc::new(Pool::default());
        let store = Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new())));
        let a: OverlordConsensusAdapter<Factory, Net, Pool, Net, Store, cita_trie::MemoryDB> =
            OverlordConsensusAdapter::new(Arc::clone(&net), Arc::clone(&net), Arc::clone(&pool), Arc::clone(&store), Arc::new(cita_trie::MemoryDB::new(false)));
        let cx = Context::new;
        let fail = r.chance(1, 6);
        pool.0.lock().unwrap().3 = fail;
        let t = txs(r);
        for t in &t {
            pool.0.lock().unwrap().1.insert(t.tx_hash.clone(), t.clone());
        }
        let h = hashes(&t);
        let said = |what: &str| {
            let mut g = pool.0.lock().unwrap();
            let all = g.0.split_off(0);
            all == vec![what.to_owned()]
        };
        let k = "OverlordConsensusAdapter";
        log.push(format!("adapter with {} txs", t.len()));

        let limit = r.edgy();
        let p = (gen::many(r, gen::hash), gen::many(r, gen::hash));
        pool.0.lock().unwrap().2 = p.clone();
        let x = block_on(a.get_txs_from_mempool(cx(), r.edgy(), limit));
        must!(said(&format!("package {}", limit)) && x.is_ok() != fail, k, "get_txs_from_mempool");
        if let Ok(x) = x {
            must!(x.order_tx_hashes == p.0 && x.propose_tx_hashes == p.1, k, "get_txs_from_mempool: lists mixed up");
            must!(MixedTxHashes { order_tx_hashes: p.0.clone(), propose_tx_hashes: p.1.clone() }.clap() == p, "MixedTxHashes::clap", "mixed up");
        }
        must!(block_on(a.check_txs(cx(), h.clone())).is_ok() != fail && said(&format!("ensure {}", list(&h))), k, "check_txs");
        must!(block_on(a.sync_txs(cx(), h.clone())).is_ok() != fail && said(&format!("propose {}", list(&h))), k, "sync_txs");
        must!(block_on(a.flush_mempool(cx(), h.clone())).is_ok() != fail && said(&format!("flush {}", list(&h))), k, "flush_mempool");
        let x = block_on(a.get_full_txs(cx(), h.clone()));
        must!(said(&format!("full {}", list(&h))) && x.is_ok() != fail && x.map(|x| x == t).unwrap_or(true), k, "get_full_txs");

        // Execution.
        let (me, s, height, price, who) = (info(r), gen::hash(r), r.edgy(), if r.chance(1, 5) { 13 } else { r.edgy() }, gen::user(r));
        let x = block_on(a.execute(me.clone(), s.clone(), height, price, Address::User(who.clone()), t.clone()));
        match x {
            Ok(x) => {
                let mut ex = Ex(me.chain_id, s, height, price, Address::User(who));
                let y = ex.exec(t.clone()).unwrap();
                must!(price != 13 && x.state_root == y.state_root && x.receipts == y.receipts && x.all_cycles_used == y.all_cycles_used && x.logs_bloom == y.logs_bloom, "OverlordConsensusAdapter::execute", "not the execution asked for");
            }
            Err(_) => must!(price == 13, "OverlordConsensusAdapter::execute", "fails"),
        }

        // Storage.
        must!(block_on(a.get_current_epoch_id(cx())).is_err(), k, "an empty storage has a height");
        let mut tops = vec![];
        for _ in 0..1 + r.below(3) {
            let mut e = gen::epoch(r);
            e.header.epoch_id = r.below(6) as u64;
            if block_on(a.save_epoch(cx(), e.clone())).is_err() {
                return f(k, "save_epoch".into());
            }
            tops.push(e);
        }
        let last = tops.last().unwrap();
        let n = last.header.epoch_id;
        must!(block_on(store.get_epoch_by_epoch_id(n)).ok().as_ref() == Some(last), k, "save_epoch: {} not stored", n);
        must!(block_on(a.get_epoch_by_id(cx(), n)).ok().as_ref() == Some(last), k, "get_epoch_by_id {}", n);
        must!(block_on(a.get_epoch_by_id(cx(), 77)).is_err() && block_on(a.get_last_validators(cx(), 77)).is_err(), k, "an epoch never stored");
        must!(block_on(a.get_last_validators(cx(), n)).ok() == Some(last.header.validators.clone()), k, "get_last_validators");
        must!(block_on(a.get_current_epoch_id(cx())).ok() == block_on(store.get_latest_epoch()).ok().map(|e| e.header.epoch_id), k, "get_current_epoch_id");
        let (rc, pr) = (vec![gen::receipt(r), gen::receipt(r)], gen::proof(r));
        must!(block_on(a.save_receipts(cx(), rc.clone())).is_ok() && block_on(store.get_receipt(rc[1].tx_hash.clone())).ok() == Some(rc[1].clone()), k, "save_receipts");
        must!(block_on(a.save_proof(cx(), pr.clone())).is_ok() && block_on(store.get_latest_proof()).ok() == Some(pr), k, "save_proof");
        must!(block_on(a.save_signed_txs(cx(), t.clone())).is_ok(), k, "save_signed_txs");
        for t in &t {
            must!(block_on(store.get_transaction_by_hash(t.tx_hash.clone())).ok().as_ref() == Some(t), k, "save_signed_txs");
        }

        // What goes out.
        let to = gen::user(r);
        let data = r.bytes(9);
        let end = *r.pick(&[END_GOSSIP_SIGNED_PROPOSAL, END_GOSSIP_SIGNED_VOTE, END_GOSSIP_AGGREGATED_VOTE]);
        let b = block_on(a.transmit(cx(), data.clone(), end, MessageTarget::Broadcast));
        let c = block_on(a.transmit(cx(), data.clone(), end, MessageTarget::Specified(to.clone())));
        let mut m = data.clone();
        let coded = block_on(MessageCodec::encode(&mut m)).unwrap();
        let cast = net.0.lock().unwrap().cast.split_off(0);
        must!(
            b.is_ok() && c.is_ok() && cast == vec![(end.to_owned(), None, coded.clone(), true), (end.to_owned(), Some(vec![to]), coded, true)],
            "OverlordConsensusAdapter::transmit",
            "{:?}",
            cast
        );

        // Pulling, and answering a pull.
        let handler = RpcHandler::new(Arc::clone(&net), Arc::clone(&store));
        let unknown = r.chance(1, 4);
        let ask = if unknown { 99 } else { n };
        net.0.lock().unwrap().resps.clear();
        let k = "RpcHandler::process";
        let res = block_on(handler.process(cx(), ConsensusRpcRequest::PullEpochs(ask)));
        let out = net.0.lock().unwrap().resps.split_off(0);
        must!(res.is_ok() != unknown, k, "pull of epoch {}: {:?}", ask, res);
        if unknown {
            must!(out.is_empty(), k, "answers for an epoch that is not stored");
        } else {
            must!(out.len() == 1 && out[0].0 == RPC_RESP_SYNC_PULL, k, "pull of an epoch answered {} times", out.len());
            net.0.lock().unwrap().back = out[0].1.clone();
            let got = block_on(a.pull_epoch(cx(), ask, RPC_SYNC_PULL));
            must!(got.as_ref().ok() == Some(last), "OverlordConsensusAdapter::pull_epoch", "{:?}", got);
            must!(block_on(a.pull_txs(cx(), h.clone(), RPC_SYNC_PULL)).is_err(), "OverlordConsensusAdapter::pull_txs", "takes an epoch for transactions");
        }
        let mut ask = h.clone();
        if unknown {
            ask.push(gen::hash(r));
        }
        let res = block_on(handler.process(cx(), ConsensusRpcRequest::PullTxs(PullTxsRequest::new(ask.clone()))));
        let out = net.0.lock().unwrap().resps.split_off(0);
        must!(res.is_ok() != unknown, k, "pull of transactions: {:?}", res);
        if unknown {
            must!(out.is_empty(), k, "answers for a transaction that is not stored");
        } else {
            must!(out.len() == 1 && out[0].0 == RPC_RESP_SYNC_PULL, k, "pull of transactions answered {} times", out.len());
            net.0.lock().unwrap().back = out[0].1.clone();
            net.0.lock().unwrap().calls.clear();
            let got = block_on(a.pull_txs(cx(), ask.clone(), RPC_SYNC_PULL));
            must!(got.as_ref().ok() == Some(&t), "OverlordConsensusAdapter::pull_txs", "{:?}", got);
            must!(block_on(a.pull_epoch(cx(), n, RPC_SYNC_PULL)).is_err(), "OverlordConsensusAdapter::pull_epoch", "takes transactions for an epoch");
            let calls = net.0.lock().unwrap().calls.split_off(0);
            let q = block_on(ConsensusRpcRequest::decode(calls[0].1.clone()));
            let same = match q {
                Ok(ConsensusRpcRequest::PullTxs(q)) => q.inner == ask,
                _ => false,
            };
            must!(calls[0].0 == RPC_SYNC_PULL && same, "OverlordConsensusAdapter::pull_txs", "asks for something else");
            let q = block_on(ConsensusRpcRequest::decode(calls[1].1.clone()));
            let same = match q {
                Ok(ConsensusRpcRequest::PullEpochs(q)) => q == n,
                _ => false,
            };
            must!(calls[1].0 == RPC_SYNC_PULL && same, "OverlordConsensusAdapter::pull_epoch", "asks for something else");
        }
        Ok(())
    }

    fn wire(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let k = "ConsensusRpcResponse";
        let e = gen::epoch(r);
        let t = gen::many(r, gen::signed);
        let mut x = if r.chance(1, 2) { ConsensusRpcResponse::PullEpochs(Box::new(e)) } else { ConsensusRpcResponse::PullTxs(Box::new(FixedSignedTxs::new(t.clone()))) };
        let orig = x.clone();
        log.push(format!("answer {:?}", x));
        let b = match block_on(x.encode()) {
            Ok(b) => b,
            Err(e) => return f(k, format!("does not encode: {:?}", e)),
        };
        must!(x == orig, k, "encoding changes it");
        match block_on(<ConsensusRpcResponse as MessageCodec>::decode(b.clone())) {
            Ok(y) => must!(y == orig, k, "comes back as {:?}", y),
            Err(e) => return f(k, format!("does not come back: {:?}", e)),
        }
        // What is no answer.
        let mut v = b.to_vec();
        match r.below(4) {
            0 => v.truncate(r.below(3)),
            1 => {
                let n = v.len();
                v.truncate(r.below(n));
            }
            2 => {
                let n = v.len();
                v[n - 1] = r.u8();
            }
            _ => v = r.bytes(9),
        }
        log.push(format!("bytes {}", gen::hx(&v)));
        let last = v.last().cloned();
        let body = if v.is_empty() { vec![] } else { v[..v.len() - 1].to_vec() };
        let want = match last {
            Some(b'a') => <Epoch as ProtocolFixedCodec>::decode_fixed(Bytes::from(body)).ok().map(|e| ConsensusRpcResponse::PullEpochs(Box::new(e))),
            Some(b'b') => bincode::deserialize::<FixedSignedTxs>(&body).ok().map(|e| ConsensusRpcResponse::PullTxs(Box::new(e))),
            _ => None,
        };
        match guard(|| block_on(<ConsensusRpcResponse as MessageCodec>::decode(Bytes::from(v.clone()))).ok()) {
            Ok(got) => must!(got == want, k, "read as {:?}", got),
            Err(p) => return f(k, format!("panics: {}", p)),
        }
        // Proposals and lists of transactions.
        let pill = FixedPill { inner: gen::pill(r) };
        let back = pill.encode().ok().and_then(|b| FixedPill::decode(b).ok());
        must!(back.as_ref() == Some(&pill), "FixedPill", "comes back as {:?}", back);
        must!(pill.get_ordered_hashes() == pill.inner.epoch.ordered_tx_hashes && pill.get_propose_hashes() == pill.inner.propose_hashes, "FixedPill", "lists mixed up");
        let l = FixedSignedTxs::new(t);
        let back = l.encode().ok().and_then(|b| <FixedSignedTxs as overlord::Codec>::decode(b).ok());
        must!(back.as_ref() == Some(&l), "FixedSignedTxs", "comes back as {:?}", back);
        let junk = Bytes::from(r.bytes(9));
        if let Err(p) = guard(|| (FixedPill::decode(junk.clone()).is_ok(), <FixedSignedTxs as overlord::Codec>::decode(junk.clone()).is_ok())) {
            return f("FixedPill", format!("decoding {} panics: {}", gen::hx(&junk), p));
        }

        // Signatures.
        let key = Secp256k1PrivateKey(r.bytes(32));
        let pk = key.pub_key().to_bytes();
        let c = OverlordCrypto::new(key.pub_key(), key);
        let k = "OverlordCrypto";
        let m = gen::data(r);
        must!(c.hash(m.clone()) == digest(m.clone()).as_bytes(), k, "hash");
        let h = c.hash(m);
        let s = match c.sign(h.clone()) {
            Ok(s) => s,
            Err(e) => return f(k, format!("does not sign: {:?}", e)),
        };
        must!(s.len() > 33 && s[..33] == pk[..], k, "the signature does not carry its key");
        let who = UserAddress::from_pubkey_bytes(pk).unwrap().as_bytes();
        match c.verify_signature(s.clone(), h.clone()) {
            Ok(a) => must!(a == who, k, "signed by {:?}, not {:?}", a, who),
            Err(e) => return f(k, format!("its own signature: {:?}", e)),
        }
        let (mut s2, mut h2) = (s.to_vec(), h.to_vec());
        match r.below(4) {
            0 => {
                let i = r.below(s2.len());
                s2[i] ^= 1 << r.below(8);
            }
            1 => h2[r.below(32)] ^= 1 << r.below(8),
            2 => s2.truncate(r.below(40)),
            _ => s2.push(0),
        }
        log.push(format!("signature {} of {}", gen::hx(&s2), gen::hx(&h2)));
        match guard(|| c.verify_signature(Bytes::from(s2.clone()), Bytes::from(h2.clone())).is_ok()) {
            Ok(ok) => must!(!ok, k, "takes a forged signature"),
            Err(p) => return f(k, format!("panics: {}", p)),
        }
        Ok(())
    }

    /// What overlord wants sent, and what the others send.
    fn gossip(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let a = fake();
        let me = info(r);
        let s = status(r);
        let cons = Arc::new(OverlordConsensus::new(s, me, Secp256k1PrivateKey(r.bytes(32)), Arc::clone(&a)));
        let (eng, told) = overlord::LAST.with(|l| {
            let l = l.borrow();
            let l = l.as_ref().unwrap();
            (Arc::clone(l.0.downcast_ref::<Arc<Eng>>().unwrap()), l.1.downcast_ref::<OverlordHandler<FixedPill>>().unwrap().clone())
        });
        told.0.lock().unwrap().clear();
        let kind = r.below(3);
        let msg = match kind {
            0 => OverlordMsg::SignedProposal(SignedProposal { signature: gen::data(r), content: FixedPill { inner: gen::pill(r) } }),
            1 => OverlordMsg::SignedVote(SignedVote { signature: gen::data(r), vote: gen::data(r) }),
            _ => OverlordMsg::AggregatedVote(AggregatedVote { signature: gen::data(r), vote: gen::data(r) }),
        };
        log.push(format!("message {:?}", msg));
        let to = gen::user(r);
        let res = if kind == 1 {
            block_on(eng.transmit_to_relayer(Context::new(), to.as_bytes(), msg.clone()))
        } else {
            block_on(eng.broadcast_to_other(Context::new(), msg.clone()))
        };
        let ops = a.0.lock().unwrap().ops.split_off(0);
        let k = if kind == 1 { "ConsensusEngine::transmit_to_relayer" } else { "ConsensusEngine::broadcast_to_other" };
        must!(res.is_ok() && ops.len() == 1, k, "sent {} times", ops.len());
        let bytes = match &ops[0].op {
            Op::Send(m, end, target) => {
                let (e, t) = match kind {
                    0 => (END_GOSSIP_SIGNED_PROPOSAL, MessageTarget::Broadcast),
                    1 => (END_GOSSIP_SIGNED_VOTE, MessageTarget::Specified(to)),
                    _ => (END_GOSSIP_AGGREGATED_VOTE, MessageTarget::Broadcast),
                };
                must!(end == e && *target == t, k, "sent to {} {:?}", end, target);
                m.clone()
            }
            o => return f(k, o.name()),
        };
        // At the other side.
        let cut = r.chance(1, 4);
        let mut b = bytes;
        if cut {
            b.truncate(r.below(b.len().max(1)));
        }
        let res = match kind {
            0 => block_on(ProposalMessageHandler::new(Arc::clone(&cons)).process(Context::new(), Proposal(b))),
            1 => block_on(VoteMessageHandler::new(Arc::clone(&cons)).process(Context::new(), Vote(b))),
            _ => block_on(QCMessageHandler::new(Arc::clone(&cons)).process(Context::new(), QC(b))),
        };
        let told = told.0.lock().unwrap();
        let k = "OverlordConsensus::set_*";
        if cut {
            must!(res.is_err() && told.is_empty(), k, "takes a message cut short");
        } else {
            must!(res.is_ok() && *told == vec![msg], k, "hands on {:?}", *told);
        }
        Ok(())
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        c.rule = "distinct generated cases: histories of commits, announcements met by a peer, messages".into();
        let prop = c.prop.clone();
        let mut n = 0u64;
        while c.go(1.0) {
            let seed = c.rng.u64();
            n += 1;
            let mut r = Rng::new(seed);
            let mut log = vec![];
            let res = guard(|| match (prop.as_str(), n % 8) {
                ("C21", 0) | ("C22", 0) => adapter(&mut r, &mut log),
                ("C21", _) => commit(&mut r, &mut log),
                ("C22", 1) => commit(&mut r, &mut log),
                ("C22", _) => catch_up(&mut r, &mut log),
                (_, 0) | (_, 1) => adapter(&mut r, &mut log),
                (_, 2) | (_, 3) => gossip(&mut r, &mut log),
                _ => wire(&mut r, &mut log),
            });
            c.case(&seed);
            let log = log.join("; ");
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, what))) => c.fail(&k, "not what is called for", format!("{} :: {}", log, what)),
                Err(p) => c.fail("panic", "panicked", format!("{} :: {}", log, p)),
            }
            c.sample(|| log);
        }
        c.finish()
    }
}
