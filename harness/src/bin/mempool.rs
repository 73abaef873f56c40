// C18, C19, C20: the pool against a list of transactions, over the adapter and the storage the node uses.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports)]
extern crate select as futures;
include!(concat!(env!("OUT_DIR"), "/mempool.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::adapter::message::{MsgNewTxs, MsgPullTxs, MsgPushTxs, NewTxsHandler, PullTxsHandler, END_GOSSIP_NEW_TXS, END_RESP_PULL_TXS, END_RPC_PULL_TXS};
    use super::adapter::DefaultMemPoolAdapter;
    use super::context::TxContext;
    use super::gen;
    use super::tx_cache::TxCache;
    use super::vxh::{guard, Ctx, Rng};
    use super::HashMemPool;
    use async_trait::async_trait;
    use bytes::Bytes;
    use common_crypto::{Crypto, CryptoError};
    use core_storage::adapter::memory::MemoryAdapter;
    use core_storage::ImplStorage;
    use futures::executor::block_on;
    use protocol::fixed_codec::ProtocolFixedCodec;
    use protocol::traits::{Context, Gossip, MemPool, MemPoolAdapter, MessageCodec, MessageHandler, MixedTxHashes, Priority, Rpc, Storage};
    use protocol::types::*;
    use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
    use std::collections::{HashMap, HashSet};
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::{Arc, Mutex};

    type Res = Result<(), (String, String)>;
    type Store = ImplStorage<MemoryAdapter>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    /// A signature is the hash and the key, backwards.
    struct Fake;

    fn sign(hash: &[u8], key: &[u8]) -> Vec<u8> {
        let mut s = hash.to_vec();
        s.extend_from_slice(key);
        s.reverse();
        s
    }

    impl Crypto for Fake {
        fn verify_signature(hash: &[u8], sig: &[u8], key: &[u8]) -> Result<(), CryptoError> {
            if sig == &sign(hash, key)[..] {
                Ok(())
            } else {
                Err(CryptoError)
            }
        }
    }

    /// A peer that answers what it was told to, and notes what it hears.
    #[derive(Default)]
    struct Heard {
        answer: Vec<SignedTransaction>,
        asked:  Vec<(String, Vec<Hash>)>,
        told:   Vec<(String, Vec<SignedTransaction>)>,
        cast:   Vec<(String, Vec<SignedTransaction>)>,
        deaf:   bool,
    }

    #[derive(Clone)]
    struct Net(Arc<Mutex<Heard>>);

    #[derive(Debug)]
    struct Down;

    impl std::fmt::Display for Down {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "out of order")
        }
    }

    impl std::error::Error for Down {}

    fn down() -> ProtocolError {
        ProtocolError::new(ProtocolErrorKind::Storage, Box::new(Down))
    }

    #[async_trait]
    impl Gossip for Net {
        async fn broadcast<M: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
            let m = MsgNewTxs::decode(msg.encode().await?).await?;
            let mut g = self.0.lock().unwrap();
            g.cast.push((end.to_owned(), m.batch_stxs));
            if g.deaf {
                Err(down())
            } else {
                Ok(())
            }
        }

        async fn users_cast<M: MessageCodec>(&self, _: Context, _: &str, _: Vec<UserAddress>, _: M, _: Priority) -> ProtocolResult<()> {
            Ok(())
        }
    }

    #[async_trait]
    impl Rpc for Net {
        async fn call<M: MessageCodec, R: MessageCodec>(&self, _: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<R> {
            let asked = MsgPullTxs::decode(msg.encode().await?).await?.hashes;
            let sig_txs = {
                let mut g = self.0.lock().unwrap();
                g.asked.push((end.to_owned(), asked));
                g.answer.clone()
            };
            let mut m = MsgPushTxs { sig_txs };
            let b = m.encode().await?;
            R::decode(b).await
        }

        async fn response<M: MessageCodec>(&self, ctx: Context, end: &str, mut msg: M, _: Priority) -> ProtocolResult<()> {
            let end = if ctx.get::<usize>("who") == Some(&7) { end } else { "someone who did not ask" };
            let m = MsgPushTxs::decode(msg.encode().await?).await?;
            self.0.lock().unwrap().told.push((end.to_owned(), m.sig_txs));
            Ok(())
        }
    }

    /// The storage of the case at hand.
    struct Swap(Mutex<Arc<Store>>, AtomicBool);

    impl Swap {
        /// It may not be able to say whether it has a transaction.
        fn up(&self) -> ProtocolResult<()> {
            if self.1.load(Ordering::SeqCst) {
                Err(down())
            } else {
                Ok(())
            }
        }

        fn s(&self) -> Arc<Store> {
            Arc::clone(&self.0.lock().unwrap())
        }
    }

    #[async_trait]
    impl Storage for Swap {
        async fn insert_transactions(&self, x: Vec<SignedTransaction>) -> ProtocolResult<()> {
            let s = self.s();            let z = s.insert_transactions(x).await;            z
        }

        async fn insert_epoch(&self, x: Epoch) -> ProtocolResult<()> {
            let s = self.s();            let z = s.insert_epoch(x).await;            z
        }

        async fn insert_receipts(&self, x: Vec<Receipt>) -> ProtocolResult<()> {
            let s = self.s();            let z = s.insert_receipts(x).await;            z
        }

        async fn update_latest_proof(&self, x: Proof) -> ProtocolResult<()> {
            let s = self.s();            let z = s.update_latest_proof(x).await;            z
        }

        async fn get_transaction_by_hash(&self, x: Hash) -> ProtocolResult<SignedTransaction> {
            self.up()?;
            let s = self.s();
            let z = s.get_transaction_by_hash(x).await;
            z
        }

        async fn get_transactions(&self, x: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
            let s = self.s();            let z = s.get_transactions(x).await;            z
        }

        async fn get_latest_epoch(&self) -> ProtocolResult<Epoch> {
            let s = self.s();            let z = s.get_latest_epoch().await;            z
        }

        async fn get_epoch_by_epoch_id(&self, x: u64) -> ProtocolResult<Epoch> {
            let s = self.s();            let z = s.get_epoch_by_epoch_id(x).await;            z
        }

        async fn get_epoch_by_hash(&self, x: Hash) -> ProtocolResult<Epoch> {
            let s = self.s();            let z = s.get_epoch_by_hash(x).await;            z
        }

        async fn get_receipt(&self, x: Hash) -> ProtocolResult<Receipt> {
            let s = self.s();            let z = s.get_receipt(x).await;            z
        }

        async fn get_receipts(&self, x: Vec<Hash>) -> ProtocolResult<Vec<Receipt>> {
            let s = self.s();            let z = s.get_receipts(x).await;            z
        }

        async fn get_latest_proof(&self) -> ProtocolResult<Proof> {
            let s = self.s();            let z = s.get_latest_proof().await;            z
        }
    }

    type Real = DefaultMemPoolAdapter<Fake, Net, Swap>;

    /// The node's adapter, but that what it is asked to broadcast is only noted.
    struct Spy {
        real: Arc<Real>,
        sent: Mutex<Vec<SignedTransaction>>,
    }

    #[async_trait]
    impl MemPoolAdapter for Spy {
        async fn pull_txs(&self, c: Context, h: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
            self.real.pull_txs(c, h).await
        }

        async fn broadcast_tx(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
            self.sent.lock().unwrap().push(tx);
            Ok(())
        }

        async fn check_signature(&self, c: Context, tx: SignedTransaction) -> ProtocolResult<()> {
            self.real.check_signature(c, tx).await
        }

        async fn check_transaction(&self, c: Context, tx: SignedTransaction) -> ProtocolResult<()> {
            self.real.check_transaction(c, tx).await
        }

        async fn check_storage_exist(&self, c: Context, h: Hash) -> ProtocolResult<()> {
            self.real.check_storage_exist(c, h).await
        }

        async fn get_latest_epoch_id(&self, c: Context) -> ProtocolResult<u64> {
            self.real.get_latest_epoch_id(c).await
        }
    }

    struct World {
        net:   Net,
        swap:  Arc<Swap>,
        reals: Vec<(u64, Arc<Real>)>,
        casters: Vec<Caster>,
    }

    /// An adapter whose broadcaster is listened to.
    struct Caster {
        real:  Arc<Real>,
        net:   Net,
        size:  usize,
        timed: bool,
        left:  Mutex<Vec<SignedTransaction>>,
    }

    struct E {
        tx:   SignedTransaction,
        prop: bool,
        gone: bool,
    }

    struct Case<'a> {
        r:      Rng,
        w:      &'a World,
        pool:   Arc<HashMemPool<Spy>>,
        store:  Arc<Store>,
        size:   usize,
        gap:    u64,
        chain:  Hash,
        latest: u64,
        q:      Vec<E>,
        cb:     HashMap<Hash, SignedTransaction>,
        stored: HashSet<Hash>,
        seen:   Vec<SignedTransaction>,
        sent:   Vec<SignedTransaction>,
        log:    Vec<String>,
    }

    fn same(a: &SignedTransaction, b: &SignedTransaction) -> bool {
        a == b
    }

    fn short(h: &Hash) -> String {
        h.as_hex()[..10].to_owned()
    }

    fn list(h: &[Hash]) -> String {
        h.iter().map(short).collect::<Vec<_>>().join(",")
    }

    impl<'a> Case<'a> {
        fn live(&self, h: &Hash) -> Option<&E> {
            self.q.iter().find(|e| !e.gone && &e.tx.tx_hash == h)
        }

        fn count(&self) -> usize {
            self.q.iter().filter(|e| !e.gone).count()
        }

        fn set_latest(&mut self, id: u64) {
            let mut e = gen::epoch(&mut self.r);
            e.header.chain_id = self.chain.clone();
            e.header.epoch_id = id;
            block_on(self.store.insert_epoch(e)).expect("insert_epoch");
            self.latest = id;
            self.log.push(format!("epoch {}", id));
        }

        fn fresh(&mut self) -> (SignedTransaction, &'static str) {
            let r = &mut self.r;
            let mut raw = gen::raw(r);
            raw.chain_id = self.chain.clone();
            raw.fee.cycle = match r.below(8) {
                0 => 0,
                1 => u64::max_value() - r.below(3) as u64,
                2 => u64::max_value() / 2 + r.below(3) as u64,
                _ => r.below(12) as u64,
            };
            raw.timeout = match r.below(8) {
                0 => self.latest,
                1 => self.latest + self.gap,
                _ => self.latest + r.below(self.gap as usize + 1) as u64,
            };
            let mut kind = "valid";
            match r.below(14) {
                0 => {
                    raw.chain_id = gen::hash(r);
                    kind = "wrong chain";
                }
                1 => {
                    raw.timeout = self.latest + self.gap + 1 + if r.chance(1, 2) { 0 } else { r.edgy() >> 1 };
                    kind = "late timeout";
                }
                2 if self.latest > 0 => {
                    raw.timeout = if r.chance(1, 2) { self.latest - 1 } else { r.below(self.latest as usize) as u64 };
                    kind = "past timeout";
                }
                _ => {}
            }
            // Hashes of the same bucket now and then.
            let mut hash = Hash::digest(raw.encode_fixed().unwrap());
            if r.chance(1, 2) {
                for _ in 0..20 {
                    if hash.as_bytes()[0] >> 4 == 3 {
                        break;
                    }
                    raw.nonce = gen::hash(r);
                    hash = Hash::digest(raw.encode_fixed().unwrap());
                }
            }
            let key = r.bytes(5);
            let mut tx = SignedTransaction {
                raw,
                signature: gen::by(&sign(&hash.as_bytes(), &key)),
                pubkey: gen::by(&key),
                tx_hash: hash,
            };
            match r.below(14) {
                0 if kind == "valid" => {
                    tx.tx_hash = if r.chance(1, 2) {
                        gen::hash(r)
                    } else {
                        // Nearly the right one.
                        let mut b = tx.tx_hash.as_bytes().to_vec();
                        let i = r.below(32);
                        b[i] ^= 1 << r.below(8);
                        Hash::from_bytes(Bytes::from(b)).unwrap()
                    };
                    tx.signature = gen::by(&sign(&tx.tx_hash.as_bytes(), &key));
                    kind = "wrong hash";
                }
                1 if kind == "valid" => {
                    let mut s = tx.signature.to_vec();
                    let i = r.below(s.len());
                    s[i] ^= 1 << r.below(8);
                    tx.signature = gen::by(&s);
                    kind = "wrong signature";
                }
                2 if kind == "valid" => {
                    tx.pubkey = gen::by(&r.bytes(5));
                    kind = "wrong key";
                }
                _ => {}
            }
            self.seen.push(tx.clone());
            if self.r.chance(1, 10) {
                // Committed by the others.
                block_on(self.store.insert_transactions(vec![tx.clone()])).expect("insert_transactions");
                self.stored.insert(tx.tx_hash.clone());
            }
            (tx, kind)
        }

        fn some_tx(&mut self) -> SignedTransaction {
            if !self.seen.is_empty() && self.r.chance(1, 3) {
                let i = self.r.below(self.seen.len());
                self.seen[i].clone()
            } else {
                self.fresh().0
            }
        }

        fn sig_ok(&self, tx: &SignedTransaction) -> bool {
            tx.signature.as_ref() == &sign(&tx.tx_hash.as_bytes(), tx.pubkey.as_ref())[..]
        }

        fn tx_ok(&self, tx: &SignedTransaction) -> bool {
            Hash::digest(tx.raw.encode_fixed().unwrap()) == tx.tx_hash
                && tx.raw.chain_id == self.chain
                && tx.raw.timeout >= self.latest
                && tx.raw.timeout <= self.latest + self.gap
        }

        fn cap(&self) -> usize {
            self.size * 4
        }

        fn hashes(&mut self) -> Vec<Hash> {
            let n = self.r.below(7);
            let mut out = vec![];
            for _ in 0..n {
                if self.r.chance(4, 5) && !self.seen.is_empty() {
                    let i = self.r.below(self.seen.len());
                    out.push(self.seen[i].tx_hash.clone());
                } else {
                    out.push(gen::hash(&mut self.r));
                }
            }
            out
        }

        fn insert(&mut self) -> Res {
            let tx = self.some_tx();
            let net = self.r.chance(1, 3);
            let ctx = Context::new();
            self.log.push(format!("insert {}{}", short(&tx.tx_hash), if net { " from the network" } else { "" }));
            let fits = self.count() < self.size;
            let dup = self.live(&tx.tx_hash).is_some();
            let mute = self.r.chance(1, 12);
            let good = self.sig_ok(&tx) && self.tx_ok(&tx) && !self.stored.contains(&tx.tx_hash) && !mute;
            let room = self.q.len() < self.cap();
            let may = fits && !dup && good;
            self.w.swap.1.store(mute, Ordering::SeqCst);
            let got = if net {
                let (h, tx) = (NewTxsHandler::new(Arc::clone(&self.pool)), tx.clone());
                runtime::raw::enter(runtime::native::Native, async move {
                    let m = MsgNewTxs { batch_stxs: vec![tx] };
                    let r = h.process(ctx, m).await;
                    r
                })
            } else {
                block_on(self.pool.insert(ctx, tx.clone()))
            };
            self.w.swap.1.store(false, Ordering::SeqCst);
            let sent = self.pool.get_adapter().sent.lock().unwrap().clone();
            if got.is_ok() && !may {
                return f("admitted", format!(
                    "entered although size={} of {} duplicate={} signature={} transaction={} stored={} storage answers={}",
                    self.count(), self.size, dup, self.sig_ok(&tx), self.tx_ok(&tx), self.stored.contains(&tx.tx_hash), !mute
                ));
            }
            if got.is_err() && may && room {
                return f("refused", format!("refused although admissible: {}", got.unwrap_err()));
            }
            if got.is_ok() {
                self.q.push(E { tx: tx.clone(), prop: false, gone: false });
                if !net {
                    self.sent.push(tx);
                }
            }
            if sent != self.sent {
                return f("broadcast", format!("{} transactions were handed to the network, {} expected", sent.len(), self.sent.len()));
            }
            Ok(())
        }

        /// What a peer might answer to these hashes.
        fn answer(&mut self, unknown: &[Hash]) -> Vec<SignedTransaction> {
            let mut out: Vec<SignedTransaction> = vec![];
            let all = self.seen.clone();
            for h in unknown {
                if let Some(t) = all.iter().find(|t| &t.tx_hash == h) {
                    out.push(t.clone());
                } else if self.r.chance(1, 2) {
                    out.push(self.some_tx());
                }
            }
            match self.r.below(6) {
                0 => {
                    out.pop();
                }
                1 => {
                    let t = self.some_tx();
                    out.push(t);
                }
                2 if !out.is_empty() => {
                    let t = self.some_tx();
                    let i = self.r.below(out.len());
                    out[i] = t;
                }
                3 if out.len() > 1 => out.swap(0, 1),
                _ => {}
            }
            out
        }

        fn unknown(&self, hs: &[Hash]) -> Vec<Hash> {
            hs.iter().filter(|h| self.live(h).is_none()).cloned().collect()
        }

        fn asked(&self, want: &[Hash]) -> Res {
            let a: Vec<(String, Vec<Hash>)> = self.w.net.0.lock().unwrap().asked.drain(..).collect();
            if a.iter().any(|x| x.0 != END_RPC_PULL_TXS) {
                return f("pull_txs", format!("asked at {:?}", a.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
            let a: Vec<Vec<Hash>> = a.into_iter().map(|x| x.1).collect();
            let ok = if want.is_empty() { a.is_empty() } else { a.len() == 1 && &a[0][..] == want };
            if !ok {
                return f("unknown", format!("asked the peer for {:?}, unknown are {}", a.iter().map(|x| list(x)).collect::<Vec<_>>(), list(want)));
            }
            Ok(())
        }

        fn ensure(&mut self) -> Res {
            // Some transactions that only the others have.
            for _ in 0..self.r.below(3) {
                self.fresh();
            }
            let hs = self.hashes();
            let unknown = self.unknown(&hs);
            let ans = self.answer(&unknown);
            self.w.net.0.lock().unwrap().answer = ans.clone();
            self.log.push(format!("ensure {} answered {}", list(&hs), list(&ans.iter().map(|t| t.tx_hash.clone()).collect::<Vec<_>>())));
            let got = block_on(self.pool.ensure_order_txs(Context::new(), hs.clone()));
            self.asked(&unknown)?;
            let mut want = true;
            if !unknown.is_empty() {
                if ans.len() != unknown.len() {
                    want = false;
                } else {
                    for t in ans {
                        if !self.sig_ok(&t) || !self.tx_ok(&t) {
                            want = false;
                            break;
                        }
                        self.cb.entry(t.tx_hash.clone()).or_insert(t);
                    }
                }
            }
            if got.is_ok() != want {
                return f("ensure_order_txs", format!("ok = {}, expected {}", got.is_ok(), want));
            }
            Ok(())
        }

        fn sync(&mut self) -> Res {
            for _ in 0..self.r.below(4) {
                self.fresh();
            }
            let hs = self.hashes();
            let unknown = self.unknown(&hs);
            let ans = self.answer(&unknown);
            self.w.net.0.lock().unwrap().answer = ans.clone();
            self.log.push(format!("sync {} answered {}", list(&hs), list(&ans.iter().map(|t| t.tx_hash.clone()).collect::<Vec<_>>())));
            let got = block_on(self.pool.sync_propose_txs(Context::new(), hs.clone()));
            self.asked(&unknown)?;
            if !unknown.is_empty() {
                for t in ans {
                    let may = self.sig_ok(&t) && self.tx_ok(&t) && !self.stored.contains(&t.tx_hash) && self.live(&t.tx_hash).is_none();
                    if may && self.q.len() < self.cap() {
                        self.q.push(E { tx: t, prop: true, gone: false });
                    }
                }
            }
            if let Err(e) = got {
                return f("sync_propose_txs", e.to_string());
            }
            Ok(())
        }

        fn full(&mut self) -> Res {
            let hs = self.hashes();
            self.log.push(format!("full {}", list(&hs)));
            let want: Vec<Option<SignedTransaction>> =
                hs.iter().map(|h| self.live(h).map(|e| e.tx.clone()).or_else(|| self.cb.get(h).cloned())).collect();
            let got = if self.r.chance(1, 2) {
                block_on(self.pool.get_full_txs(Context::new(), hs.clone()))
            } else {
                self.log.push("for a peer".into());
                let h = PullTxsHandler::new(self.w.net.clone(), Arc::clone(&self.pool));
                let res = block_on(h.process(Context::new().with_value::<usize>("who", 7), MsgPullTxs { hashes: hs.clone() }));
                let mut told = self.w.net.0.lock().unwrap().told.split_off(0);
                let n = told.len();
                match res {
                    Ok(()) => match told.pop() {
                        Some((end, v)) => {
                            if n != 1 || end != END_RESP_PULL_TXS {
                                return f("PullTxsHandler", format!("{} answers, to {}", n, end));
                            }
                            Ok(v)
                        }
                        None => return f("PullTxsHandler", "no answer and no error".into()),
                    },
                    Err(e) => {
                        if n != 0 {
                            return f("PullTxsHandler", "an answer and an error".into());
                        }
                        Err(e)
                    }
                }
            };
            match got {
                Ok(v) => {
                    if v.len() != want.len() || !v.iter().zip(want.iter()).all(|(a, b)| b.as_ref() == Some(a)) {
                        return f("get_full_txs", format!("answered {} for {}", list(&v.iter().map(|t| t.tx_hash.clone()).collect::<Vec<_>>()), list(&hs)));
                    }
                }
                Err(e) => {
                    if want.iter().all(|x| x.is_some()) {
                        return f("get_full_txs", format!("failed although all are held: {}", e));
                    }
                }
            }
            Ok(())
        }

        fn flush(&mut self) -> Res {
            let hs = self.hashes();
            self.log.push(format!("flush {}", list(&hs)));
            for e in self.q.iter_mut() {
                if hs.contains(&e.tx.tx_hash) {
                    e.gone = true;
                }
            }
            self.cb.clear();
            if self.r.chance(1, 2) {
                // committed
                let txs: Vec<SignedTransaction> = self.seen.iter().filter(|t| hs.contains(&t.tx_hash)).cloned().collect();
                for t in &txs {
                    self.stored.insert(t.tx_hash.clone());
                }
                block_on(self.store.insert_transactions(txs)).expect("insert_transactions");
                self.log.push("stored".into());
            }
            match block_on(self.pool.flush(Context::new(), hs)) {
                Ok(()) => Ok(()),
                Err(e) => f("flush", e.to_string()),
            }
        }

        fn package(&mut self) -> Res {
            let limit = match self.r.below(5) {
                0 => u64::max_value(),
                1 => 0,
                2 => u64::max_value() / 2,
                _ => self.r.below(60) as u64,
            };
            self.log.push(format!("package limit {}", limit));
            let (lo, hi) = (self.latest, self.latest + self.gap);
            self.q.retain(|e| !e.gone && e.tx.raw.timeout > lo && e.tx.raw.timeout <= hi);
            let mut sum: u128 = 0;
            let mut cut = 0;
            for e in &self.q {
                sum += u128::from(e.tx.raw.fee.cycle);
                if sum > u128::from(limit) {
                    break;
                }
                cut += 1;
            }
            let want: Vec<Hash> = self.q[..cut].iter().map(|e| e.tx.tx_hash.clone()).collect();
            let own: Vec<Hash> = self.q[cut..].iter().filter(|e| !e.prop).map(|e| e.tx.tx_hash.clone()).collect();
            let (o, p) = match block_on(self.pool.package(Context::new(), limit)) {
                Ok(m) => m.clap(),
                Err(e) => return f("package", format!("failed: {}", e)),
            };
            if o != want {
                return f("order", format!("ordered {}, expected {}", list(&o), list(&want)));
            }
            if p.len() > own.len() || p[..] != own[..p.len()] {
                return f("propose", format!("proposed {}, expected to begin {}", list(&p), list(&own)));
            }
            if p.is_empty() && !own.is_empty() {
                // the first of the rest is proposed, unless it was proposed by another and alone fills the list
                let e = &self.q[cut];
                if !e.prop {
                    return f("propose", format!("proposed nothing, expected to begin {}", list(&own)));
                }
            }
            match block_on(self.pool.package(Context::new(), limit)) {
                Ok(m) => {
                    let (o2, p2) = m.clap();
                    if o2 != o || p2 != p {
                        return f("again", format!("packaging again: ordered {} then {}, proposed {} then {}", list(&o), list(&o2), list(&p), list(&p2)));
                    }
                }
                Err(e) => return f("package", format!("again: {}", e)),
            }
            Ok(())
        }

        fn look(&mut self) -> Res {
            let c = self.pool.get_tx_cache();
            if c.len() != self.count() {
                return f("content", format!("{} transactions pooled, expected {}", c.len(), self.count()));
            }
            for t in &self.seen {
                let want = self.live(&t.tx_hash).map(|e| &e.tx);
                let got = c.get(&t.tx_hash);
                if got.as_ref() != want {
                    return f("content", format!("{}: pooled = {}, expected {}", short(&t.tx_hash), got.is_some(), want.is_some()));
                }
                if c.contain(&t.tx_hash) != want.is_some() {
                    return f("content", format!("{}: contain = {}", short(&t.tx_hash), want.is_none()));
                }
                let cb = self.pool.get_callback_cache().get(&t.tx_hash);
                if cb.as_ref() != self.cb.get(&t.tx_hash) {
                    return f("cache", format!("{}: kept for the proposal = {}, expected {}", short(&t.tx_hash), cb.is_some(), self.cb.contains_key(&t.tx_hash)));
                }
            }
            let hs = self.hashes();
            let got = self.pool.get_tx_cache().show_unknown(hs.clone());
            if got != self.unknown(&hs) {
                return f("show_unknown", format!("{} unknown of {}", list(&got), list(&hs)));
            }
            Ok(())
        }

        /// Insertions that end while one packages, again and again: the next package has them all.
        fn omitted(&mut self) -> Res {
            self.log.push("insertions while a package is made".into());
            const ROUNDS: usize = 300;
            const N: usize = 2;
            let (mut t, _) = self.fresh();
            t.raw.timeout = 50;
            t.raw.fee.cycle = 1;
            let txs: Vec<SignedTransaction> = (0..N)
                .map(|i| {
                    let mut t = t.clone();
                    t.tx_hash = Hash::digest(Bytes::from(vec![i as u8]));
                    t
                })
                .collect();
            let hs: Vec<Hash> = txs.iter().map(|t| t.tx_hash.clone()).collect();
            let pool = Arc::new(TxCache::new(64));
            let step = Arc::new((std::sync::Barrier::new(N + 1), std::sync::Barrier::new(N + 1), AtomicBool::new(false)));
            let ths: Vec<_> = txs
                .iter()
                .map(|t| {
                    let (p, t, step) = (Arc::clone(&pool), t.clone(), Arc::clone(&step));
                    std::thread::spawn(move || loop {
                        step.0.wait();
                        if step.2.load(Ordering::SeqCst) {
                            return;
                        }
                        let _ = p.insert_new_tx(t.clone());
                        step.1.wait();
                    })
                })
                .collect();
            let mut bad = None;
            for n in 0..ROUNDS {
                step.0.wait();
                for _ in 0..6 {
                    let _ = pool.package(1000, 10, 100);
                }
                step.1.wait();
                let o = pool.package(1000, 10, 100).map(|m| m.clap().0).unwrap_or_default();
                let s: HashSet<Hash> = o.iter().cloned().collect();
                if o.len() != N || s.len() != N {
                    bad = Some(format!("round {}: {} of {} inserted transactions are packaged", n, s.len(), N));
                    break;
                }
                pool.flush(&hs);
                let o = pool.package(1000, 10, 100).map(|m| m.clap().0).unwrap_or_default();
                if !o.is_empty() {
                    bad = Some(format!("round {}: {} transactions are packaged after they were committed", n, o.len()));
                    break;
                }
            }
            step.2.store(true, Ordering::SeqCst);
            step.0.wait();
            for t in ths {
                let _ = t.join();
            }
            match bad {
                Some(b) => f("concurrent insertion", b),
                None => Ok(()),
            }
        }

        /// What is handed to the network goes out once, in order, in batches.
        fn cast(&mut self) -> Res {
            let w = self.w;
            let i = self.r.below(w.casters.len());
            let c = &w.casters[i];
            let mut left = c.left.lock().unwrap();
            let n = 1 + self.r.below(8);
            self.log.push(format!("{} transactions to the broadcaster, in batches of {}", n, c.size));
            for _ in 0..n {
                let t = self.fresh().0;
                left.push(t.clone());
                if let Err(e) = block_on(c.real.broadcast_tx(Context::new(), t)) {
                    return f("broadcast_tx", e.to_string());
                }
            }
            let whole = if c.timed { left.len() } else { left.len() / c.size * c.size };
            let rest = left.split_off(whole);
            let want = std::mem::replace(&mut *left, rest);
            let mut got: Vec<SignedTransaction> = vec![];
            for i in 0..20_000 {
                for (end, b) in c.net.0.lock().unwrap().cast.split_off(0) {
                    if end != END_GOSSIP_NEW_TXS || b.is_empty() || c.size > 0 && b.len() > c.size || !c.timed && b.len() != c.size {
                        return f("broadcast", format!("{} transactions in a batch of {} to {}", b.len(), c.size, end));
                    }
                    got.extend(b);
                }
                if got.len() >= want.len() && i > 0 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            if got != want {
                return f("broadcast", format!("{} of {} transactions went out", got.len(), want.len()));
            }
            Ok(())
        }

        /// Many at once from a peer: the good ones may enter, no other does, and none goes back.
        fn batch(&mut self) -> Res {
            let n = 1 + self.r.below(self.size);
            let txs: Vec<SignedTransaction> = (0..n).map(|_| self.fresh().0).collect();
            self.log.push(format!("from a peer: {}", list(&txs.iter().map(|t| t.tx_hash.clone()).collect::<Vec<_>>())));
            let good = |c: &Self, t: &SignedTransaction| c.sig_ok(t) && c.tx_ok(t) && !c.stored.contains(&t.tx_hash);
            let all = txs.iter().all(|t| good(self, t));
            let h = NewTxsHandler::new(Arc::clone(&self.pool));
            let m = MsgNewTxs { batch_stxs: txs.clone() };
            let res = runtime::raw::enter(runtime::native::Native, async move {
                let r = h.process(Context::new(), m).await;
                r
            });
            if res.is_ok() != all {
                return f("NewTxsHandler", format!("ok = {}, all are good = {}", res.is_ok(), all));
            }
            for t in &txs {
                let has = self.pool.get_tx_cache().get(&t.tx_hash);
                if has.is_some() && (has.as_ref() != Some(t) || !good(self, t)) || has.is_none() && all {
                    return f("NewTxsHandler", format!("{} is pooled = {}", short(&t.tx_hash), has.is_some()));
                }
            }
            if !self.pool.get_adapter().sent.lock().unwrap().is_empty() {
                return f("broadcast", "what a peer sent goes out again".into());
            }
            Ok(())
        }

        /// Insertions from several threads while one packages.
        fn threads(&mut self) -> Res {
            self.log.push("threads".into());
            let size = 400;
            let pool = Arc::new(TxCache::new(size * 2));
            let txs: Vec<SignedTransaction> = (0..60)
                .map(|_| {
                    let (mut t, _) = self.fresh();
                    t.raw.timeout = 50;
                    t.raw.fee.cycle = 1;
                    t
                })
                .collect();
            let mut seen = HashSet::new();
            let txs: Vec<SignedTransaction> = txs.into_iter().filter(|t| seen.insert(t.tx_hash.clone())).collect();
            let stop = Arc::new(AtomicBool::new(false));
            let packer = {
                let (p, stop) = (Arc::clone(&pool), Arc::clone(&stop));
                std::thread::spawn(move || {
                    let mut bad = None;
                    while !stop.load(Ordering::SeqCst) {
                        match p.package(1000, 10, 100) {
                            Ok(m) => {
                                let (o, _) = m.clap();
                                let s: HashSet<Hash> = o.iter().cloned().collect();
                                if s.len() != o.len() {
                                    bad = Some("a hash twice".to_owned());
                                }
                            }
                            Err(e) => bad = Some(e.to_string()),
                        }
                    }
                    bad
                })
            };
            let hs: Vec<_> = (0..3)
                .map(|n| {
                    let (p, mut txs) = (Arc::clone(&pool), txs.clone());
                    std::thread::spawn(move || {
                        let k = txs.len() * n / 3;
                        txs.rotate_left(k);
                        txs.into_iter().filter(|t| p.insert_new_tx(t.clone()).is_ok()).count()
                    })
                })
                .collect();
            let ok: usize = hs.into_iter().map(|h| h.join().unwrap_or(0)).sum();
            stop.store(true, Ordering::SeqCst);
            match packer.join() {
                Ok(Some(b)) => return f("concurrent packaging", b),
                Err(_) => return f("concurrent packaging", "panicked".into()),
                _ => {}
            }
            if ok != txs.len() {
                return f("concurrent insertion", format!("{} insertions of {} transactions succeeded", ok, txs.len()));
            }
            let (o, _) = pool.package(1000, 10, 100).map_err(|e| ("package".to_owned(), e.to_string()))?.clap();
            let s: HashSet<Hash> = o.iter().cloned().collect();
            if o.len() != txs.len() || s.len() != txs.len() {
                return f("concurrent insertion", format!("{} of {} inserted transactions are packaged", o.len(), txs.len()));
            }
            Ok(())
        }

        fn run(&mut self, prop: &str) -> Res {
            for _ in 0..self.r.below(30) + 3 {
                let k = self.r.below(20);
                match (prop, k) {
                    (_, 0) => {
                        let d = self.r.below(3) as u64 + if self.r.chance(1, 4) { self.gap } else { 0 };
                        let n = self.latest + d;
                        self.set_latest(n);
                    }
                    ("C18", 1) | ("C20", 1) | ("C19", 1..=5) => self.package()?,
                    ("C20", 2..=6) => self.flush()?,
                    ("C20", 7..=9) => self.full()?,
                    ("C20", 10) | ("C20", 11) => self.ensure()?,
                    (_, 12) | (_, 13) => self.sync()?,
                    (_, 14) => self.flush()?,
                    ("C18", 15) => self.ensure()?,
                    _ => self.insert()?,
                }
                self.look()?;
            }
            Ok(())
        }
    }

    fn world() -> World {
        let net = Net(Arc::new(Mutex::new(Heard::default())));
        let swap = Arc::new(Swap(Mutex::new(Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new())))), AtomicBool::new(false)));
        let (n, s) = (net.clone(), Arc::clone(&swap));
        let reals = runtime::raw::enter(runtime::native::Native, async move {
            [0u64, 1, 7, 30, 200]
                .iter()
                .map(|g| (*g, Arc::new(Real::new(n.clone(), Arc::clone(&s), *g, 1000, 3_600_000))))
                .collect::<Vec<_>>()
        });
        let s = Arc::clone(&swap);
        let casters = runtime::raw::enter(runtime::native::Native, async move {
            [(1usize, false), (3, false), (4, true), (1000, true), (0, true)]
                .iter()
                .map(|(size, timed)| {
                    let net = Net(Arc::new(Mutex::new(Heard::default())));
                    let real = Arc::new(Real::new(net.clone(), Arc::clone(&s), 10, *size, if *timed { 3 } else { 3_600_000 }));
                    Caster { real, net, size: *size, timed: *timed, left: Mutex::new(vec![]) }
                })
                .collect::<Vec<_>>()
        });
        World { net, swap, reals, casters }
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        let w = world();
        c.rule = "distinct generated histories of insertions, pulls, packagings and flushes".into();
        let mut n = 0u64;
        while c.go(1.0) {
            let seed = c.rng.u64();
            n += 1;
            let mut r = Rng::new(seed);
            let store = Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new())));
            *w.swap.0.lock().unwrap() = Arc::clone(&store);
            *w.net.0.lock().unwrap() = Heard::default();
            w.swap.1.store(false, Ordering::SeqCst);
            let (gap, real) = r.pick(&w.reals).clone();
            let top = if r.chance(1, 2) { 3 } else { 12 };
            let size = 1 + r.below(top);
            let spy = Spy { real, sent: Mutex::new(vec![]) };
            let chain = gen::hash(&mut r);
            let prop = c.prop.clone();
            let mut case = Case {
                pool: Arc::new(HashMemPool::new(size, gap, spy)),
                w: &w,
                store,
                size,
                gap,
                chain,
                latest: 0,
                q: vec![],
                cb: HashMap::new(),
                stored: HashSet::new(),
                seen: vec![],
                sent: vec![],
                log: vec![format!("pool of {}, gap {}", size, gap)],
                r,
            };
            let res = guard(|| {
                let at = if case.r.chance(1, 4) { 0 } else { case.r.below(100) as u64 };
                case.set_latest(at);
                if prop == "C19" && n % 32 == 19 {
                    case.omitted()
                } else if prop == "C18" && n % 16 == 5 {
                    case.cast()
                } else if prop == "C18" && n % 8 == 1 {
                    case.batch()
                } else if prop != "C20" && n % 16 == 3 {
                    case.threads()
                } else {
                    case.run(&prop)
                }
            });
            c.case(&seed);
            let log = case.log.join("; ");
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, what))) => c.fail(&k, "the pool does not do what was asked", format!("{} :: {}", log, what)),
                Err(p) => c.fail("panic", "the pool panicked", format!("{} :: {}", log, p)),
            }
            c.sample(|| log);
        }
        c.finish()
    }
}
