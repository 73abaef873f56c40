// C28: what is asked and submitted over GraphQL, against the texts of the fields.
#![feature(trait_alias, async_closure)]
#![allow(dead_code, unused_imports)]
extern crate hex03 as hex;
include!(concat!(env!("OUT_DIR"), "/api.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::adapter::DefaultAPIAdapter;
    use super::gen;
    use super::schema;
    use super::vxh::{guard, Ctx, Rng};
    use super::{Mutation, Query, State};
    use async_trait::async_trait;
    use bytes::Bytes;
    use cita_trie::MemoryDB;
    use common_crypto::{HashValue, PrivateKey, PublicKey, Secp256k1PrivateKey, Signature};
    use core_storage::adapter::memory::MemoryAdapter;
    use core_storage::ImplStorage;
    use futures::executor::block_on;
    use juniper::{FieldResult, VxScalar};
    use num_bigint::BigUint;
    use protocol::fixed_codec::ProtocolFixedCodec;
    use protocol::traits::executor::{Executor, ExecutorExecResp, ExecutorFactory};
    use protocol::traits::{APIAdapter, Context, MemPool, MixedTxHashes, Storage};
    use protocol::types::*;
    use protocol::{ProtocolError, ProtocolErrorKind, ProtocolResult};
    use std::convert::TryFrom;
    use std::sync::{Arc, Mutex};

    type Res = Result<(), (String, String)>;
    type Store = ImplStorage<MemoryAdapter>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    #[derive(Debug)]
    struct Down;

    impl std::fmt::Display for Down {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "out of order")
        }
    }

    impl std::error::Error for Down {}

    fn down() -> ProtocolError {
        ProtocolError::new(ProtocolErrorKind::Storage, Box::new(Down))
    }

    // ------------------------------------------------------------------ the node behind it
    /// Takes, or refuses, what it is given.
    #[derive(Default)]
    struct Pool {
        put:     Mutex<Vec<SignedTransaction>>,
        refuses: bool,
    }

    #[async_trait]
    impl MemPool for Pool {
        async fn insert(&self, _: Context, tx: SignedTransaction) -> ProtocolResult<()> {
            self.put.lock().unwrap().push(tx);
            if self.refuses {
                Err(down())
            } else {
                Ok(())
            }
        }

        async fn package(&self, _: Context, _: u64) -> ProtocolResult<MixedTxHashes> {
            Err(down())
        }

        async fn flush(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
            Err(down())
        }

        async fn get_full_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<Vec<SignedTransaction>> {
            Err(down())
        }

        async fn ensure_order_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
            Err(down())
        }

        async fn sync_propose_txs(&self, _: Context, _: Vec<Hash>) -> ProtocolResult<()> {
            Err(down())
        }
    }

    /// What an account holds under a root: a digest of the three, if there is such a state.
    fn held(root: &Hash, a: &Address, id: &AssetID) -> Option<Balance> {
        if root.as_bytes()[0] % 8 == 7 {
            return None;
        }
        let mut b = root.as_bytes().to_vec();
        b.extend_from_slice(&a.as_bytes());
        b.extend_from_slice(&id.as_bytes());
        let d = Hash::digest(Bytes::from(b)).as_bytes();
        match d[0] % 8 {
            0 => None,
            1 => Some(BigUint::from(0u32)),
            k => Some(BigUint::from_bytes_be(&d[1..(4 * k as usize)])),
        }
    }

    struct Factory;

    struct Exec(Hash);

    impl ExecutorFactory<MemoryDB> for Factory {
        fn from_root(_: Hash, root: MerkleRoot, _: Arc<MemoryDB>, _: u64, _: u64, _: Address) -> ProtocolResult<Box<dyn Executor>> {
            if root.as_bytes()[0] % 8 == 7 {
                return Err(down());
            }
            Ok(Box::new(Exec(root)))
        }
    }

    impl Executor for Exec {
        fn create_genesis(&mut self, _: &Genesis) -> ProtocolResult<MerkleRoot> {
            Err(down())
        }

        fn exec(&mut self, _: Vec<SignedTransaction>) -> ProtocolResult<ExecutorExecResp> {
            Err(down())
        }

        fn get_balance(&self, a: &Address, id: &AssetID) -> ProtocolResult<Balance> {
            held(&self.0, a, id).ok_or_else(down)
        }
    }

    // ------------------------------------------------------------------ texts
    fn digits(s: &str) -> Vec<char> {
        let s = if s.starts_with("0x") { &s[2..] } else { s };
        s.chars().collect()
    }

    fn spelled(s: &str) -> Option<Vec<u8>> {
        let d = digits(s);
        let mut v = vec![];
        if d.len() % 2 != 0 {
            return None;
        }
        for p in d.chunks(2) {
            v.push((p[0].to_digit(16)? * 16 + p[1].to_digit(16)?) as u8);
        }
        Some(v)
    }

    fn spelled_hash(s: &str) -> Option<Vec<u8>> {
        spelled(s).filter(|b| b.len() == 32)
    }

    fn spelled_u64(s: &str) -> Option<u64> {
        let mut d = digits(s);
        if !d.is_empty() && d[0] == '+' {
            d.remove(0);
        }
        if d.is_empty() {
            return None;
        }
        let mut n = 0u64;
        for c in d {
            n = n.checked_mul(16)?.checked_add(u64::from(c.to_digit(16)?))?;
        }
        Some(n)
    }

    fn spelled_user(s: &str) -> Option<Vec<u8>> {
        spelled(s).filter(|b| b.len() == 21 && b[0] == 0x10)
    }

    fn spelled_address(s: &str) -> Option<Vec<u8>> {
        spelled(s).filter(|b| b.len() == 21 && [0x10, 0x20, 0x21, 0x22, 0x23].contains(&b[0]))
    }

    /// With or without its prefix, in either case.
    fn spell(r: &mut Rng, b: &[u8]) -> String {
        let mut s: String = gen::hx(b);
        match r.below(3) {
            0 => s = s.to_uppercase(),
            1 => {}
            _ => s = s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        }
        if r.chance(1, 2) {
            s = format!("0x{}", s);
        }
        s
    }

    fn spell_u64(r: &mut Rng, n: u64) -> String {
        match r.below(4) {
            0 => spell(r, &n.to_be_bytes()),
            1 => format!("0x{:x}", n),
            2 => format!("{:X}", n),
            _ => format!("0x{:020x}", n),
        }
    }

    /// Mostly as it is.
    fn spoil(r: &mut Rng, s: String) -> String {
        if !r.chance(1, 24) {
            return s;
        }
        let mut c: Vec<char> = s.chars().collect();
        match r.below(10) {
            0 => {
                c.pop();
            }
            1 => c.push('0'),
            2 => {
                c.push('0');
                c.push('a');
            }
            3 => {
                c.pop();
                c.pop();
            }
            4 => return format!("0x{}", s),
            5 => return format!("0X{}", s),
            6 => return r.pick(&["", "0x", "0X", "+", "0x+1", "-1", " ", "0x0x", "é", "0xé漢", "10000000000000000"]).to_string(),
            7 => return format!("+{}", s),
            _ => {
                let i = r.below(c.len());
                if i < c.len() {
                    c[i] = *r.pick(&['g', 'x', ' ', 'é', '+', 'G', '\u{0}', 'ſ', '０']);
                }
            }
        }
        c.into_iter().collect()
    }

    fn text_bytes(r: &mut Rng, b: &[u8]) -> String {
        let s = spell(r, b);
        spoil(r, s)
    }

    fn text_hash(r: &mut Rng) -> String {
        let h = gen::hash(r);
        text_bytes(r, &h.as_bytes())
    }

    fn text_u64(r: &mut Rng) -> String {
        let n = r.edgy();
        let s = spell_u64(r, n);
        spoil(r, s)
    }

    // ------------------------------------------------------------------ one case
    struct Case {
        r:     Rng,
        pool:  Arc<Pool>,
        store: Arc<Store>,
        all:   Vec<Epoch>,
        recs:  Vec<Receipt>,
        ad:    Arc<DefaultAPIAdapter<Factory, Pool, Store, MemoryDB>>,
        state: State,
        log:   Vec<String>,
    }

    impl Case {
        fn new(seed: u64) -> Case {
            let mut r = Rng::new(seed);
            let pool = Arc::new(Pool { put: Mutex::new(vec![]), refuses: r.chance(1, 4) });
            let store = Arc::new(ImplStorage::new(Arc::new(MemoryAdapter::new())));
            let db = Arc::new(MemoryDB::new(false));
            let mut all = vec![];
            for i in 0..r.below(4) as u64 {
                let mut e = gen::epoch(&mut r);
                e.header.epoch_id = i * (1 + r.below(2) as u64);
                if all.iter().any(|x: &Epoch| x.header.epoch_id == e.header.epoch_id) {
                    continue;
                }
                block_on(store.insert_epoch(e.clone())).unwrap();
                all.push(e);
            }
            let mut recs: Vec<Receipt> = vec![];
            for _ in 0..r.below(3) {
                let x = gen::receipt(&mut r);
                if recs.iter().all(|y| y.tx_hash != x.tx_hash) {
                    recs.push(x);
                }
            }
            block_on(store.insert_receipts(recs.clone())).unwrap();
            let make = || DefaultAPIAdapter::<Factory, _, _, _>::new(Arc::clone(&pool), Arc::clone(&store), Arc::clone(&db));
            Case {
                ad: Arc::new(make()),
                state: State { adapter: Arc::new(Box::new(make())) },
                pool,
                store,
                all,
                recs,
                log: vec![],
                r,
            }
        }

        /// The epoch of a height, or the newest.
        fn epoch(&self, at: Option<u64>) -> Option<Epoch> {
            match at {
                Some(n) => self.all.iter().find(|e| e.header.epoch_id == n).cloned(),
                None => self.all.last().cloned(),
            }
        }

        fn at(&mut self) -> Option<String> {
            if self.r.chance(1, 3) {
                return None;
            }
            let n = if self.r.chance(3, 4) { self.r.below(4) as u64 } else { self.r.edgy() };
            let s = spell_u64(&mut self.r, n);
            Some(spoil(&mut self.r, s))
        }

        fn adapter(&mut self) -> Res {
            let ad = Arc::clone(&self.ad);
            let at = if self.r.chance(1, 3) { None } else { Some(self.r.below(5) as u64) };
            self.log.push(format!("epoch {:?}", at));
            let want = self.epoch(at);
            let got = block_on(ad.get_epoch_by_id(Context::new(), at)).ok();
            if got != want {
                return f("epoch", format!("the epoch of {:?} is {:?}, stored is {:?}", at, got, want));
            }
            let a = gen::address(&mut self.r);
            let id = gen::hash(&mut self.r);
            let want = self.epoch(at).and_then(|e| held(&e.header.state_root, &a, &id));
            let got = block_on(ad.get_balance(Context::new(), &a, &id, at)).ok();
            if got != want {
                return f("balance", format!("{:?} holds {:?} of {:?} at {:?}, the answer is {:?}", a, want, id, at, got));
            }
            let h = if self.recs.is_empty() || self.r.chance(1, 3) { gen::hash(&mut self.r) } else { self.r.pick(&self.recs).tx_hash.clone() };
            let want = self.recs.iter().find(|x| x.tx_hash == h).cloned();
            let got = block_on(ad.get_receipt_by_tx_hash(Context::new(), h.clone())).ok();
            if format!("{:?}", got) != format!("{:?}", want) {
                return f("receipt", format!("the receipt of {:?} is {:?}, stored is {:?}", h, got, want));
            }
            let tx = gen::signed(&mut self.r);
            let ok = block_on(ad.insert_signed_txs(Context::new(), tx.clone())).is_ok();
            self.gave(Some(tx), ok)
        }

        /// The pool was given exactly this, and its word is the answer.
        fn gave(&mut self, tx: Option<SignedTransaction>, ok: bool) -> Res {
            let put: Vec<SignedTransaction> = self.pool.put.lock().unwrap().drain(..).collect();
            let want: Vec<SignedTransaction> = tx.into_iter().collect();
            if put != want {
                return f("pool", format!("the pool was given {:?}, the submission says {:?}", put, want));
            }
            let taken = !want.is_empty() && !self.pool.refuses;
            if ok != taken {
                return f("answer", format!("the answer is a success: {}, the pool took it: {}", ok, taken));
            }
            Ok(())
        }

        fn latest(&mut self) -> Res {
            let at = self.at();
            self.log.push(format!("getLatestEpoch({:?})", at));
            let got = Query::get_latest_epoch(&self.state, at.clone().map(schema::Uint64::vx_from));
            let n = match &at {
                None => Some(None),
                Some(s) => spelled_u64(s).map(Some),
            };
            let want = n.and_then(|n| self.epoch(n));
            match (got, want) {
                (Err(_), None) => Ok(()),
                (Ok(g), Some(e)) => {
                    let h = g.vx_header();
                    let list = |v: &Vec<schema::Hash>| -> Vec<String> { v.iter().map(|x| x.vx_text()).collect() };
                    let hs = |v: &Vec<Hash>| -> Vec<String> { v.iter().map(|x| gen::hx(&x.as_bytes())).collect() };
                    let n8 = |n: u64| gen::hx(&n.to_be_bytes());
                    let w = &e.header;
                    let got = vec![
                        vec![h.chain_id.vx_text()],
                        vec![h.epoch_id.vx_text()],
                        vec![h.pre_hash.vx_text()],
                        vec![h.timestamp.vx_text()],
                        vec![h.order_root.vx_text()],
                        list(&h.confirm_root),
                        vec![h.state_root.vx_text()],
                        list(&h.receipt_root),
                        vec![h.cycles_used.vx_text()],
                        vec![h.proposer.vx_text()],
                        vec![h.validator_version.vx_text()],
                        list(g.vx_ordered_tx_hashes()),
                    ];
                    let want = vec![
                        vec![gen::hx(&w.chain_id.as_bytes())],
                        vec![n8(w.epoch_id)],
                        vec![gen::hx(&w.pre_hash.as_bytes())],
                        vec![n8(w.timestamp)],
                        vec![gen::hx(&w.order_root.as_bytes())],
                        hs(&w.confirm_root),
                        vec![gen::hx(&w.state_root.as_bytes())],
                        hs(&w.receipt_root),
                        vec![n8(w.cycles_used)],
                        vec![gen::hx(&w.proposer.as_bytes())],
                        vec![n8(w.validator_version)],
                        hs(&e.ordered_tx_hashes),
                    ];
                    if got != want {
                        return f("epoch fields", format!("the answer for {:?} is {:?}, stored is {:?}", at, got, want));
                    }
                    Ok(())
                }
                (g, w) => f("epoch asked", format!("asked for {:?}: answered {}, stored {:?}", at, g.is_ok(), w)),
            }
        }

        fn balance(&mut self) -> Res {
            let at = self.at();
            let a = gen::address(&mut self.r).as_bytes();
            let a = if self.r.chance(1, 12) { self.r.bytes(21) } else { a.to_vec() };
            let a = text_bytes(&mut self.r, &a);
            let id = text_hash(&mut self.r);
            self.log.push(format!("getBalance({:?}, {:?}, {:?})", a, id, at));
            let got = Query::get_balance(
                &self.state,
                schema::Address::vx_from(a.clone()),
                schema::AssetID::vx_from(id.clone()),
                at.clone().map(schema::Uint64::vx_from),
            );
            let n = match &at {
                None => Some(None),
                Some(s) => spelled_u64(s).map(Some),
            };
            let want = match (n, spelled_address(&a), spelled_hash(&id)) {
                (Some(n), Some(a), Some(id)) => {
                    let a = Address::from_bytes(Bytes::from(a)).unwrap();
                    let id = Hash::from_bytes(Bytes::from(id)).unwrap();
                    let b = self.epoch(n).and_then(|e| held(&e.header.state_root, &a, &id));
                    Some(gen::hx(&b.unwrap_or_else(|| BigUint::from(0u32)).to_bytes_be()))
                }
                _ => None,
            };
            let got = got.ok().map(|b| b.vx_text());
            if got != want {
                return f("balance asked", format!("the balance of {:?} in {:?} at {:?} is {:?}, the answer {:?}", a, id, at, want, got));
            }
            Ok(())
        }

        fn submit(&mut self) -> Res {
            let r = &mut self.r;
            let (chain, nonce, asset) = (text_hash(r), text_hash(r), text_hash(r));
            let (timeout, cycle) = (text_u64(r), text_u64(r));
            let input_raw = schema::InputRawTransaction {
                chain_id:     schema::Hash::vx_from(chain.clone()),
                fee_cycle:    schema::Uint64::vx_from(cycle.clone()),
                fee_asset_id: schema::Hash::vx_from(asset.clone()),
                nonce:        schema::Hash::vx_from(nonce.clone()),
                timeout:      schema::Uint64::vx_from(timeout.clone()),
            };
            let transfer = r.chance(1, 2);
            let bytes = if transfer { gen::amount(r).to_bytes_be() } else { gen::data(r).to_vec() };
            let bytes = text_bytes(r, &bytes);
            let carried = text_hash(r);
            let to = if r.chance(1, 16) { gen::address(r).as_bytes() } else { gen::user(r).as_bytes() };
            let to = text_bytes(r, &to);
            let kind = r.below(3);
            let (hash, key) = (text_hash(r), if r.chance(1, 16) { gen::data(r).to_vec() } else { r.bytes(32) });
            let (key, sig) = (text_bytes(r, &key), gen::data(r));
            let sig = text_bytes(r, &sig);
            let here = r.chance(1, 3);

            let action = if transfer {
                match (spelled_user(&to), spelled_hash(&carried), spelled(&bytes)) {
                    (Some(to), Some(id), Some(n)) => Some(TransactionAction::Transfer {
                        receiver:       UserAddress::from_bytes(Bytes::from(to)).unwrap(),
                        carrying_asset: CarryingAsset {
                            asset_id: Hash::from_bytes(Bytes::from(id)).unwrap(),
                            amount:   BigUint::from_bytes_be(&n),
                        },
                    }),
                    _ => None,
                }
            } else {
                spelled(&bytes).map(|b| TransactionAction::Deploy {
                    code:          Bytes::from(b),
                    contract_type: [ContractType::Asset, ContractType::App, ContractType::Library][kind].clone(),
                })
            };
            let h = |s: &str| spelled_hash(s).map(|b| Hash::from_bytes(Bytes::from(b)).unwrap());
            let raw = match (action, h(&chain), h(&nonce), h(&asset), spelled_u64(&timeout), spelled_u64(&cycle)) {
                (Some(action), Some(chain_id), Some(nonce), Some(asset_id), Some(timeout), Some(cycle)) => Some(RawTransaction {
                    chain_id,
                    nonce,
                    timeout,
                    fee: Fee { asset_id, cycle },
                    action,
                }),
                _ => None,
            };
            let want = match raw {
                None => None,
                Some(raw) => {
                    if here {
                        spelled(&key).and_then(|k| Secp256k1PrivateKey::try_from(&k[..]).ok()).map(|k| {
                            let tx_hash = Hash::digest(raw.encode_fixed().unwrap());
                            let v = HashValue::try_from(&tx_hash.as_bytes()[..]).unwrap();
                            SignedTransaction {
                                raw,
                                tx_hash,
                                pubkey: k.pub_key().to_bytes(),
                                signature: k.sign_message(&v).to_bytes(),
                            }
                        })
                    } else {
                        match (h(&hash), spelled(&key), spelled(&sig)) {
                            (Some(tx_hash), Some(k), Some(s)) => {
                                Some(SignedTransaction { raw, tx_hash, pubkey: Bytes::from(k), signature: Bytes::from(s) })
                            }
                            _ => None,
                        }
                    }
                }
            };

            let it = schema::InputTransferAction {
                carrying_amount:   schema::Balance::vx_from(bytes.clone()),
                carrying_asset_id: schema::Hash::vx_from(carried.clone()),
                receiver:          schema::Address::vx_from(to.clone()),
            };
            let id = schema::InputDeployAction {
                code:          schema::Bytes::vx_from(bytes.clone()),
                contract_type: [schema::ContractType::Asset, schema::ContractType::App, schema::ContractType::Library][kind].clone(),
            };
            let enc = schema::InputTransactionEncryption {
                tx_hash:   schema::Hash::vx_from(hash.clone()),
                pubkey:    schema::Bytes::vx_from(key.clone()),
                signature: schema::Bytes::vx_from(sig.clone()),
            };
            let pk = schema::Bytes::vx_from(key.clone());
            self.log.push(format!(
                "{} chain {:?} nonce {:?} timeout {:?} fee {:?} {:?}; {:?} {:?} {:?} {}; hash {:?} key {:?} signature {:?}, signed here: {}",
                if transfer { "transfer" } else { "deploy" },
                chain, nonce, timeout, asset, cycle, bytes, carried, to, kind, hash, key, sig, here
            ));
            let s = &self.state;
            let got = match (transfer, here) {
                (true, false) => Mutation::send_transfer_transaction(s, input_raw, it, enc),
                (false, false) => Mutation::send_deploy_transaction(s, input_raw, id, enc),
                (true, true) => Mutation::send_unsafe_transfer_transaction(s, input_raw, it, pk),
                (false, true) => Mutation::send_unsafe_deploy_transaction(s, input_raw, id, pk),
            };
            let told = got.ok().map(|x| spelled_hash(&x.vx_text()));
            self.gave(want.clone(), told.is_some())?;
            if let (Some(t), Some(w)) = (told, want) {
                if t.as_ref().map(|b| &b[..]) != Some(&w.tx_hash.as_bytes()[..]) {
                    return f("hash", format!("the answer is {:?}, the transaction's hash {:?}", t, w.tx_hash));
                }
            }
            Ok(())
        }
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        c.rule = "distinct generated requests and submissions".into();
        while c.go(1.0) {
            let seed = c.rng.u64();
            let mut case = Case::new(seed);
            let res = guard(|| {
                for _ in 0..8 {
                    match case.r.below(6) {
                        0 => case.adapter()?,
                        1 => case.latest()?,
                        2 => case.balance()?,
                        _ => case.submit()?,
                    }
                }
                Ok(())
            });
            c.case(&seed);
            let log = case.log.join("; ");
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, what))) => c.fail(&k, "the interface does not say or do what was asked", format!("{} :: {}", log, what)),
                Err(p) => c.fail("panic", "the interface panicked", format!("{} :: {}", log, p)),
            }
            c.sample(|| log);
        }
        c.finish()
    }
}
