// C15, C16: chain storage over both back ends against plain maps.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/storage.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::adapter::memory::MemoryAdapter;
    use super::adapter::rocks::RocksAdapter;
    use super::gen;
    use super::vxh::{guard, Ctx, Rng};
    use super::{EpochSchema, HashEpochSchema, ImplStorage, LatestEpochSchema, LatestProofSchema, ReceiptSchema, TransactionSchema};
    use bytes::Bytes;
    use futures::executor::block_on;
    use protocol::codec::ProtocolCodec;
    use protocol::traits::{Storage, StorageAdapter, StorageBatchModify, StorageSchema};
    use protocol::types::*;
    use protocol::ProtocolResult;
    use std::collections::{BTreeMap, HashMap};
    use std::fmt::Debug;
    use std::sync::Arc;

    type Res = Result<(), (String, String)>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    fn one<T: PartialEq + Debug>(key: &str, got: ProtocolResult<T>, want: Option<&T>) -> Res {
        match (got, want) {
            (Ok(ref g), Some(w)) if g == w => Ok(()),
            (Err(_), None) => Ok(()),
            (g, w) => f(key, format!("got {:?}, stored {:?}", g.map_err(|e| e.to_string()), w)),
        }
    }

    fn h32(n: u8, m: u8) -> Hash {
        let mut b = vec![n; 32];
        b[0] = m;
        Hash::from_bytes(Bytes::from(b)).unwrap()
    }

    // ------------------------------------------------------------------ C15
    fn chain<A: StorageAdapter + 'static>(a: Arc<A>, r: &mut Rng, log: &mut Vec<String>) -> Res {
        let s = ImplStorage::new(a);
        let mut txs: HashMap<Hash, SignedTransaction> = HashMap::new();
        let mut rcs: HashMap<Hash, Receipt> = HashMap::new();
        let mut eps: BTreeMap<u64, Epoch> = BTreeMap::new();
        let mut ehs: HashMap<Hash, u64> = HashMap::new();
        let mut latest: Option<Epoch> = None;
        let mut proof: Option<Proof> = None;
        // Few hashes, so that kinds share them.
        let mut pool: Vec<Hash> = (0..6).map(|i| if i < 2 { gen::hash(r) } else { h32(i, r.below(3) as u8) }).collect();
        let mut height = r.below(3) as u64;
        for _ in 0..2 + r.below(14) {
            match r.below(5) {
                0 => {
                    let n = *r.pick(&[0usize, 1, 2, 3, 6]);
                    let v: Vec<SignedTransaction> = (0..n)
                        .map(|_| {
                            let mut t = gen::signed(r);
                            t.tx_hash = r.pick(&pool).clone();
                            t
                        })
                        .collect();
                    log.push(format!("insert_transactions {:?}", v.iter().map(|t| t.tx_hash.as_hex()).collect::<Vec<_>>()));
                    for t in &v {
                        txs.insert(t.tx_hash.clone(), t.clone());
                    }
                    if let Err(e) = block_on(s.insert_transactions(v)) {
                        return f("insert_transactions", e.to_string());
                    }
                }
                1 => {
                    let n = *r.pick(&[0usize, 1, 2, 3, 6]);
                    let v: Vec<Receipt> = (0..n)
                        .map(|_| {
                            let mut t = gen::receipt(r);
                            t.tx_hash = r.pick(&pool).clone();
                            t
                        })
                        .collect();
                    log.push(format!("insert_receipts {:?}", v.iter().map(|t| t.tx_hash.as_hex()).collect::<Vec<_>>()));
                    for t in &v {
                        rcs.insert(t.tx_hash.clone(), t.clone());
                    }
                    if let Err(e) = block_on(s.insert_receipts(v)) {
                        return f("insert_receipts", e.to_string());
                    }
                }
                2 | 3 => {
                    let mut e = gen::epoch(r);
                    let again = r.below(4) == 0;
                    match &latest {
                        // The epoch at the top once more, with other transactions.
                        Some(top) if again => e.header = top.header.clone(),
                        _ => e.header.epoch_id = height,
                    }
                    height = height.max(e.header.epoch_id);
                    height += *r.pick(&[1u64, 1, 1, 2, 127, 128, 1 << 31, 1 << 32]);
                    let eh = Hash::digest(block_on(e.header.clone().encode()).unwrap());
                    log.push(format!("insert_epoch height {} hash {}", e.header.epoch_id, eh.as_hex()));
                    eps.insert(e.header.epoch_id, e.clone());
                    ehs.insert(eh.clone(), e.header.epoch_id);
                    latest = Some(e.clone());
                    pool.push(eh);
                    if let Err(e) = block_on(s.insert_epoch(e)) {
                        return f("insert_epoch", e.to_string());
                    }
                }
                _ => {
                    let p = gen::proof(r);
                    log.push("update_latest_proof".into());
                    proof = Some(p.clone());
                    if let Err(e) = block_on(s.update_latest_proof(p)) {
                        return f("update_latest_proof", e.to_string());
                    }
                }
            }
            one("get_latest_epoch", block_on(s.get_latest_epoch()), latest.as_ref())?;
            one("get_latest_proof", block_on(s.get_latest_proof()), proof.as_ref())?;
            let mut hs: Vec<u64> = eps.keys().cloned().collect();
            hs.extend(&[0, 1, height, u64::max_value()]);
            for n in hs {
                one("get_epoch_by_epoch_id", block_on(s.get_epoch_by_epoch_id(n)), eps.get(&n))?;
            }
            for h in &pool {
                one("get_transaction_by_hash", block_on(s.get_transaction_by_hash(h.clone())), txs.get(h))?;
                one("get_receipt", block_on(s.get_receipt(h.clone())), rcs.get(h))?;
                one("get_epoch_by_hash", block_on(s.get_epoch_by_hash(h.clone())), ehs.get(h).and_then(|n| eps.get(n)))?;
            }
            let n = r.below(8);
            let q: Vec<Hash> = (0..n).map(|_| r.pick(&pool).clone()).collect();
            let want: Vec<SignedTransaction> = q.iter().filter_map(|h| txs.get(h).cloned()).collect();
            one("get_transactions", block_on(s.get_transactions(q.clone())), Some(&want))?;
            let want: Vec<Receipt> = q.iter().filter_map(|h| rcs.get(h).cloned()).collect();
            one("get_receipts", block_on(s.get_receipts(q)), Some(&want))?;
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C16
    fn enc<T: ProtocolCodec>(t: &mut T) -> Vec<u8> {
        block_on(t.encode()).unwrap().to_vec()
    }

    fn batch<S: StorageSchema<Key = Hash>, A: StorageAdapter>(a: &A, r: &mut Rng, pool: &[Hash], m: &mut BTreeMap<Hash, Vec<u8>>, log: &mut Vec<String>, make: &dyn Fn(&mut Rng) -> S::Value) -> Res {
        let n = *r.pick(&[0usize, 1, 2, 3, 5, 9]);
        let dup = r.chance(1, 2);
        let mut keys: Vec<Hash> = (0..n).map(|i| if dup { r.pick(pool).clone() } else { pool[i % pool.len()].clone() }).collect();
        let mut vals: Vec<StorageBatchModify<S>> = vec![];
        let mut ops: Vec<Option<Vec<u8>>> = vec![];
        for _ in 0..n {
            if r.chance(1, 3) {
                vals.push(StorageBatchModify::Remove);
                ops.push(None);
            } else {
                let mut v = make(r);
                ops.push(Some(enc(&mut v)));
                vals.push(StorageBatchModify::Insert(v));
            }
        }
        match r.below(8) {
            0 if n > 0 => {
                vals.pop();
            }
            1 if n > 0 => {
                keys.pop();
            }
            2 => {
                keys.push(pool[0].clone());
            }
            _ => {}
        }
        let ok = keys.len() == vals.len();
        log.push(format!(
            "batch {:?} {:?} ({} keys, {} values)",
            keys.iter().map(|k| k.as_hex()).collect::<Vec<_>>(),
            ops.iter().map(|o| if o.is_some() { "insert" } else { "remove" }).collect::<Vec<_>>(),
            keys.len(),
            vals.len()
        ));
        let res = block_on(a.batch_modify::<S>(keys.clone(), vals));
        if ok != res.is_ok() {
            return f("batch_modify:result", format!("{:?}", res.map_err(|e| e.to_string())));
        }
        if ok {
            for (k, o) in keys.into_iter().zip(ops) {
                match o {
                    Some(v) => {
                        m.insert(k, v);
                    }
                    None => {
                        m.remove(&k);
                    }
                }
            }
        }
        Ok(())
    }

    fn look<S: StorageSchema<Key = Hash>, A: StorageAdapter>(a: &A, r: &mut Rng, pool: &[Hash], m: &BTreeMap<Hash, Vec<u8>>) -> Res {
        for k in pool {
            let got = match block_on(a.get::<S>(k.clone())) {
                Ok(g) => g.map(|mut v| enc(&mut v)),
                Err(e) => return f("get", e.to_string()),
            };
            if got.as_ref() != m.get(k) {
                return f("get", format!("{}: got {:?}, want {:?}", k.as_hex(), got.map(|g| gen::hx(&g)), m.get(k).map(|g| gen::hx(g))));
            }
            match block_on(a.contains::<S>(k.clone())) {
                Ok(b) if b == m.contains_key(k) => {}
                e => return f("contains", format!("{}: {:?}", k.as_hex(), e.map_err(|e| e.to_string()))),
            }
        }
        let n = r.below(7);
        let q: Vec<Hash> = (0..n).map(|_| r.pick(pool).clone()).collect();
        match block_on(a.get_batch::<S>(q.clone())) {
            Ok(v) => {
                let got: Vec<Option<Vec<u8>>> = v.into_iter().map(|o| o.map(|mut v| enc(&mut v))).collect();
                let want: Vec<Option<Vec<u8>>> = q.iter().map(|k| m.get(k).cloned()).collect();
                if got != want {
                    return f("get_batch", format!("asked {:?}: {} answers", q.iter().map(|k| k.as_hex()).collect::<Vec<_>>(), got.len()));
                }
            }
            Err(e) => return f("get_batch", e.to_string()),
        }
        Ok(())
    }

    fn batches<A: StorageAdapter>(a: Arc<A>, r: &mut Rng, log: &mut Vec<String>) -> Res {
        let pool: Vec<Hash> = (0..5).map(|i| if i < 2 { gen::hash(r) } else { h32(i, r.below(3) as u8) }).collect();
        let mut pool = pool;
        pool.sort();
        pool.dedup();
        let mut ts = BTreeMap::new();
        let mut rs = BTreeMap::new();
        let mut ps = BTreeMap::new();
        for _ in 0..1 + r.below(8) {
            match r.below(5) {
                0 | 1 => batch::<TransactionSchema, A>(&a, r, &pool, &mut ts, log, &|r| gen::signed(r))?,
                2 => batch::<ReceiptSchema, A>(&a, r, &pool, &mut rs, log, &|r| gen::receipt(r))?,
                3 => batch::<LatestProofSchema, A>(&a, r, &pool, &mut ps, log, &|r| gen::proof(r))?,
                _ => {
                    let k = r.pick(&pool).clone();
                    log.push(format!("remove transaction {}", k.as_hex()));
                    ts.remove(&k);
                    if let Err(e) = block_on(a.remove::<TransactionSchema>(k)) {
                        return f("remove", e.to_string());
                    }
                }
            }
            look::<TransactionSchema, A>(&a, r, &pool, &ts)?;
            look::<ReceiptSchema, A>(&a, r, &pool, &rs)?;
            look::<LatestProofSchema, A>(&a, r, &pool, &ps)?;
        }
        Ok(())
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        let p15 = c.prop == "C15";
        c.rule = "distinct generated operation sequences with at least one write".into();
        let dir = format!("{}/rocks-{}-{}", c.out, c.prop, std::process::id());
        let mut n = 0;
        while c.go(1.0) {
            let seed = c.rng.u64();
            let rocks = n % 8 == 7;
            n += 1;
            let mut log: Vec<String> = vec![];
            let res = guard(|| {
                let mut r = Rng::new(seed);
                if rocks {
                    let d = format!("{}/{}", dir, n);
                    std::fs::create_dir_all(&d).unwrap();
                    let a = match RocksAdapter::new(d.clone()) {
                        Ok(a) => Arc::new(a),
                        Err(e) => return f("RocksAdapter::new", e.to_string()),
                    };
                    let x = if p15 { chain(a, &mut r, &mut log) } else { batches(a, &mut r, &mut log) };
                    let _ = std::fs::remove_dir_all(&d);
                    x
                } else {
                    let a = Arc::new(MemoryAdapter::new());
                    if p15 {
                        chain(a, &mut r, &mut log)
                    } else {
                        batches(a, &mut r, &mut log)
                    }
                }
            });
            c.case(&seed);
            let back = if rocks { "RocksDB" } else { "memory" };
            match res {
                Ok(Ok(())) => {}
                Ok(Err((k, w))) => c.fail(&format!("{}:{}", back, k), "storage does not answer what was stored", format!("{}: {} :: {}", back, log.join("; "), w)),
                Err(p) => c.fail(&format!("{}:panic", back), "storage panicked", format!("{}: {} :: {}", back, log.join("; "), p)),
            }
            c.sample(|| format!("{}: {}", back, log.join("; ")));
        }
        let _ = std::fs::remove_dir_all(&dir);
        c.finish()
    }
}
