// C07, C08: the contract state adapter, the trie and the node stores, against plain maps.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/executor.rs"));

#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::adapter::GeneralContractStateAdapter;
    use super::trie::{MPTTrie, RocksTrieDB};
    use super::vxh::{guard, Ctx, Rng};
    use bytes::Bytes;
    use cita_trie::{MemoryDB, DB};
    use protocol::fixed_codec::ProtocolFixedCodec;
    use protocol::traits::executor::contract::ContractStateAdapter;
    use protocol::traits::executor::{ContractSchema, TrieDB};
    use protocol::types::{Hash, MerkleRoot};
    use std::collections::{BTreeMap, HashMap};
    use std::sync::Arc;

    struct BytesSchema;
    impl ContractSchema for BytesSchema {
        type Key = Bytes;
        type Value = Bytes;
    }
    struct HashSchema;
    impl ContractSchema for HashSchema {
        type Key = Hash;
        type Value = Bytes;
    }

    type V = Vec<u8>;
    type Map = BTreeMap<V, V>;

    fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    fn by(b: &[u8]) -> Bytes {
        Bytes::from(b.to_vec())
    }

    /// Keys sharing prefixes, one a prefix of the other, of one length and of several.
    fn keys(r: &mut Rng) -> Vec<V> {
        let n = r.below(3) + 1;
        let base = r.bytes(n);
        let mut ks = vec![base.clone()];
        let same = r.chance(1, 2);
        for _ in 0..2 + r.below(8) {
            let mut k = ks[r.below(ks.len())].clone();
            match r.below(4) {
                0 if !same => k.push(r.u8()),
                1 if !same && k.len() > 1 => {
                    k.pop();
                }
                2 => {
                    let i = r.below(k.len());
                    k[i] ^= 1 << r.below(8);
                }
                _ => {
                    let i = k.len() - 1;
                    k[i] = k[i].wrapping_add(1);
                }
            }
            ks.push(k);
        }
        ks.sort();
        ks.dedup();
        ks
    }
    fn value(r: &mut Rng) -> V {
        let n = *r.pick(&[1usize, 2, 31, 32, 33, 60]);
        r.bytes(n)
    }

    // ------------------------------------------------------------------ C07
    #[derive(Default, Clone)]
    struct Layers {
        cache: Map,
        stash: Map,
        trie:  Map,
    }
    impl Layers {
        fn get(&self, k: &V) -> Option<&V> {
            self.cache.get(k).or_else(|| self.stash.get(k)).or_else(|| self.trie.get(k))
        }
    }

    fn layers(c: &mut Ctx) {
        let mut r = Rng::new(c.rng.u64());
        let ks = keys(&mut r);
        let db = Arc::new(MemoryDB::new(false));
        let mut a = GeneralContractStateAdapter::new(MPTTrie::new(Arc::clone(&db)));
        let mut m = Layers::default();
        let mut log: Vec<String> = vec![];
        let mut saved: Vec<(MerkleRoot, Map)> = vec![];
        let n = 2 + r.below(25);
        for _ in 0..n {
            let op = r.below(12);
            let k = r.pick(&ks).clone();
            let v = value(&mut r);
            let res: Result<Option<MerkleRoot>, String> = guard(|| match op {
                0..=5 => {
                    log.push(format!("insert {} = {}", hx(&k), hx(&v)));
                    m.cache.insert(k.clone(), v.clone());
                    a.insert_cache::<BytesSchema>(by(&k), by(&v)).map(|_| None).map_err(|e| e.to_string())
                }
                6 | 7 => {
                    log.push("revert".into());
                    m.cache.clear();
                    a.revert_cache().map(|_| None).map_err(|e| e.to_string())
                }
                8 | 9 => {
                    log.push("stash".into());
                    let c = std::mem::replace(&mut m.cache, Map::new());
                    m.stash.extend(c);
                    a.stash().map(|_| None).map_err(|e| e.to_string())
                }
                _ => {
                    log.push("commit".into());
                    let s = std::mem::replace(&mut m.stash, Map::new());
                    m.trie.extend(s);
                    a.commit().map(Some).map_err(|e| e.to_string())
                }
            })
            .and_then(|x| x);
            let root = match res {
                Ok(x) => x,
                Err(e) => {
                    let l = log.join("; ");
                    c.fail("Adapter:error", "an operation on contract state failed", format!("{}: {}", l, e));
                    return;
                }
            };
            if let Some(root) = root {
                saved.push((root.clone(), m.trie.clone()));
                if r.chance(1, 4) && m.cache.is_empty() {
                    if let Ok(t) = MPTTrie::from(root, Arc::clone(&db)) {
                        log.push("reopen".into());
                        a = GeneralContractStateAdapter::new(t);
                    }
                }
            }
            for k in &ks {
                let want = m.get(k).cloned();
                let got = guard(|| {
                    let g = a.get::<BytesSchema>(&by(k)).map_err(|e| e.to_string())?;
                    let h = a.contains::<BytesSchema>(&by(k)).map_err(|e| e.to_string())?;
                    Ok((g.map(|b| b.to_vec()), h))
                })
                .and_then(|x: Result<_, String>| x);
                if got != Ok((want.clone(), want.is_some())) {
                    let l = log.join("; ");
                    c.fail("Adapter:read", "a read of contract state is not the latest write", format!("{}; then key {}: got {:?}, want {:?}", l, hx(k), got, want));
                    return;
                }
            }
        }
        c.case(&log);
        // each committed root holds exactly what was stashed until then
        for (root, want) in saved {
            let empty = want.is_empty();
            let got = guard(|| {
                let t = if empty { MPTTrie::new(Arc::clone(&db)) } else { MPTTrie::from(root.clone(), Arc::clone(&db)).map_err(|e| e.to_string())? };
                let b = GeneralContractStateAdapter::new(t);
                let mut m = Map::new();
                for k in &ks {
                    if let Some(v) = b.get::<BytesSchema>(&by(k)).map_err(|e| e.to_string())? {
                        m.insert(k.clone(), v.to_vec());
                    }
                }
                Ok(m)
            })
            .and_then(|x: Result<_, String>| x);
            if got != Ok(want.clone()) {
                let l = log.join("; ");
                c.fail("Adapter:commit", "a committed root does not hold exactly the stashed values", format!("{}\nroot {:?}\ngot  {:?}\nwant {:?}", l, root, got, want));
                return;
            }
        }
        c.sample(|| log.join("; "));
    }

    /// The zero-length value and several schemas on one adapter.
    fn schemas(c: &mut Ctx) {
        let mut r = Rng::new(c.rng.u64());
        let db = Arc::new(MemoryDB::new(false));
        let mut a = GeneralContractStateAdapter::new(MPTTrie::new(Arc::clone(&db)));
        let k = Hash::digest(by(&r.bytes(4)));
        let (v, w) = (value(&mut r), value(&mut r));
        let lg = format!("hash key {:?} = {}, bytes key 6b = {}", k, hx(&v), hx(&w));
        let got = guard(|| {
            a.insert_cache::<HashSchema>(k.clone(), by(&v)).unwrap();
            a.insert_cache::<BytesSchema>(by(b"k"), by(&w)).unwrap();
            a.stash().unwrap();
            a.commit().unwrap();
            (a.get::<HashSchema>(&k).unwrap(), a.get::<BytesSchema>(&by(b"k")).unwrap())
        });
        c.case(&lg);
        if got != Ok((Some(by(&v)), Some(by(&w)))) {
            c.fail("Adapter:read", "a read of contract state is not the latest write", format!("{}: got {:?}", lg, got));
        }
    }

    // ------------------------------------------------------------------ C08
    fn trie(c: &mut Ctx) {
        let mut r = Rng::new(c.rng.u64());
        let ks = keys(&mut r);
        let db = Arc::new(MemoryDB::new(false));
        let mut t = MPTTrie::new(Arc::clone(&db));
        let mut m = Map::new();
        let mut log = vec![];
        let mut saved: Vec<(MerkleRoot, Map)> = vec![];
        for _ in 0..3 + r.below(20) {
            if r.chance(1, 5) {
                log.push("commit".to_owned());
                let root = match guard(|| t.commit().map_err(|e| e.to_string())).and_then(|x| x) {
                    Ok(x) => x,
                    Err(e) => {
                        c.fail("MPTTrie:error", "committing failed", format!("{}: {}", log.join("; "), e));
                        return;
                    }
                };
                saved.push((root.clone(), m.clone()));
                if r.chance(1, 3) && !m.is_empty() {
                    log.push("reopen".to_owned());
                    t = match MPTTrie::from(root, Arc::clone(&db)) {
                        Ok(t) => t,
                        Err(e) => {
                            c.fail("MPTTrie:reopen", "a committed root cannot be opened", format!("{}: {}", log.join("; "), e));
                            return;
                        }
                    };
                }
            } else {
                let k = r.pick(&ks).clone();
                let v = value(&mut r);
                log.push(format!("insert {} = {}", hx(&k), hx(&v)));
                m.insert(k.clone(), v.clone());
                if let Err(e) = guard(|| t.insert(by(&k), by(&v)).map_err(|e| e.to_string())).and_then(|x| x) {
                    c.fail("MPTTrie:error", "inserting failed", format!("{}: {}", log.join("; "), e));
                    return;
                }
            }
            for k in &ks {
                let got = guard(|| (t.get(&by(k)).ok().map(|x| x.map(|b| b.to_vec())), t.contains(&by(k)).ok()));
                let want = Ok((Some(m.get(k).cloned()), Some(m.contains_key(k))));
                if got != want {
                    c.fail("MPTTrie:read", "the trie does not return the last value inserted", format!("{}; key {}: got {:?} want {:?}", log.join("; "), hx(k), got, want));
                    return;
                }
            }
        }
        c.case(&log);
        c.sample(|| log.join("; "));
        for (root, want) in &saved {
            if want.is_empty() {
                continue;
            }
            let got = guard(|| {
                let t = MPTTrie::from(root.clone(), Arc::clone(&db)).map_err(|e| e.to_string())?;
                let mut m = Map::new();
                for k in &ks {
                    if let Some(v) = t.get(&by(k)).map_err(|e| e.to_string())? {
                        m.insert(k.clone(), v.to_vec());
                    }
                }
                Ok(m)
            })
            .and_then(|x: Result<_, String>| x);
            if got != Ok(want.clone()) {
                c.fail("MPTTrie:reopen", "the trie reopened at a committed root holds something else", format!("{}\nroot {:?}: got {:?}\nwant {:?}", log.join("; "), root, got, want));
                return;
            }
            // another order
            let mut o: Vec<(&V, &V)> = want.iter().collect();
            for i in (1..o.len()).rev() {
                let j = r.below(i + 1);
                o.swap(i, j);
            }
            let other = guard(|| {
                let mut t = MPTTrie::new(Arc::new(MemoryDB::new(false)));
                for (i, (k, v)) in o.iter().enumerate() {
                    if i == 1 {
                        t.insert(by(o[0].0), by(b"overwritten")).unwrap();
                        t.insert(by(o[0].0), by(o[0].1)).unwrap();
                    }
                    t.insert(by(k), by(v)).unwrap();
                }
                t.commit().unwrap()
            });
            if other != Ok(root.clone()) {
                c.fail("MPTTrie:order", "the root depends on the order of insertion", format!("{}\nroot {:?}, inserted as {:?}: {:?}", log.join("; "), root, o, other));
                return;
            }
        }
    }

    fn store(c: &mut Ctx, dir: &str, light: bool) {
        let mut r = Rng::new(c.rng.u64());
        let db = match RocksTrieDB::new(dir, light) {
            Ok(d) => d,
            Err(e) => {
                c.fail("RocksTrieDB:open", "the node store cannot be opened", e.to_string());
                return;
            }
        };
        let ks: Vec<V> = (0..4 + r.below(4)).map(|i| if i % 2 == 0 { vec![i as u8; 32] } else { vec![i as u8; i] }).collect();
        let mut m = Map::new();
        let mut log: Vec<String> = vec![format!("light mode: {}", light)];
        let key = format!("RocksTrieDB:{}", if light { "light" } else { "archive" });
        for _ in 0..3 + r.below(12) {
            let pickn = |r: &mut Rng, n: usize| -> Vec<V> { (0..n).map(|_| r.pick(&ks).clone()).collect() };
            let (n, d) = (r.below(4), r.below(4));
            let kk = pickn(&mut r, n);
            let ok: Result<bool, String> = match r.below(6) {
                0 => {
                    let (k, v) = (r.pick(&ks).clone(), value(&mut r));
                    log.push(format!("insert {} = {}", hx(&k), hx(&v)));
                    m.insert(k.clone(), v.clone());
                    guard(|| db.insert(k, v).is_ok())
                }
                1 | 2 => {
                    let nv = if d == 0 { r.below(5) } else { n };
                    let vv: Vec<V> = (0..nv).map(|_| value(&mut r)).collect();
                    log.push(format!("insert_batch {:?} = {:?}", kk, vv));
                    if nv == n {
                        for (k, v) in kk.iter().zip(&vv) {
                            m.insert(k.clone(), v.clone());
                        }
                        guard(|| db.insert_batch(kk, vv).is_ok())
                    } else {
                        guard(|| db.insert_batch(kk, vv).is_err())
                    }
                }
                3 => {
                    let k = r.pick(&ks).clone();
                    log.push(format!("remove {}", hx(&k)));
                    if light {
                        m.remove(&k);
                    }
                    guard(|| db.remove(&k).is_ok())
                }
                4 => {
                    log.push(format!("remove_batch {:?}", kk));
                    if light {
                        for k in &kk {
                            m.remove(k);
                        }
                    }
                    guard(|| db.remove_batch(&kk).is_ok())
                }
                _ => {
                    log.push("flush".into());
                    guard(|| db.flush().is_ok())
                }
            };
            if ok != Ok(true) {
                c.fail(&key, "an operation of the node store did not end as it has to", format!("{}: {:?}", log.join("; "), ok));
                break;
            }
            let bad: Vec<String> = ks
                .iter()
                .filter(|k| guard(|| (db.get(k).ok(), db.contains(k).ok())) != Ok((Some(m.get(*k).cloned()), Some(m.contains_key(*k)))))
                .map(|k| hx(k))
                .collect();
            if !bad.is_empty() {
                c.fail(&key, "the node store does not hold what was stored", format!("{}: keys {:?}", log.join("; "), bad));
                break;
            }
        }
        c.case(&log);
        if r.chance(1, 2) {
            drop(db);
            let ok = guard(|| {
                let db = RocksTrieDB::new(dir, light).unwrap();
                ks.iter().all(|k| db.get(k).unwrap() == m.get(k).cloned())
            });
            if ok != Ok(true) {
                c.fail(&key, "the node store reopened does not hold what was stored", format!("{}: {:?}", log.join("; "), ok));
            }
        }
    }

    /// A trie over the archive node store: every root stays readable.
    fn archive(c: &mut Ctx, dir: &str) {
        let mut r = Rng::new(c.rng.u64());
        let ks = keys(&mut r);
        let mut log = vec![];
        let mut roots: Vec<(MerkleRoot, Map)> = vec![];
        let res = guard(|| {
            let db = Arc::new(RocksTrieDB::new(dir, false).unwrap());
            let mut t = MPTTrie::new(Arc::clone(&db));
            let mut m = Map::new();
            for _ in 0..2 + r.below(5) {
                for _ in 0..1 + r.below(4) {
                    let (k, v) = (r.pick(&ks).clone(), value(&mut r));
                    log.push(format!("insert {} = {}", hx(&k), hx(&v)));
                    m.insert(k.clone(), v.clone());
                    t.insert(by(&k), by(&v)).unwrap();
                }
                log.push("commit".to_owned());
                let root = t.commit().unwrap();
                t = MPTTrie::from(root.clone(), Arc::clone(&db)).unwrap();
                roots.push((root, m.clone()));
            }
            for (root, m) in &roots {
                let t = MPTTrie::from(root.clone(), Arc::clone(&db)).map_err(|e| e.to_string())?;
                for k in &ks {
                    let g = t.get(&by(k)).map_err(|e| e.to_string())?.map(|b| b.to_vec());
                    if g != m.get(k).cloned() {
                        return Err(format!("root {:?} key {}: got {:?} want {:?}", root, hx(k), g, m.get(k)));
                    }
                }
            }
            Ok(())
        })
        .and_then(|x: Result<(), String>| x);
        c.case(&log);
        if let Err(e) = res {
            c.fail("RocksTrieDB:archive-root", "an earlier root is no longer readable", format!("{}: {}", log.join("; "), e));
        }
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        if c.prop == "C07" {
            c.rule = "random sequences of insert, revert, stash, commit and reopen over a few keys that share prefixes; after every operation every key is read and compared with the layered reference, at the end every committed root; a case is one distinct sequence".into();
            while c.go(1.0) {
                layers(&mut c);
                schemas(&mut c);
            }
        } else {
            c.rule = "random sequences of insert, commit and reopen on the trie (every key read back after every step, every root reopened, roots compared between insertion orders) and of single and batch operations on the node store in both modes; a case is one distinct sequence".into();
            let mut i = 0u32;
            while c.go(0.5) {
                trie(&mut c);
            }
            while c.go(1.0) {
                let dir = format!("triedb-{}", i);
                i += 1;
                match i % 3 {
                    0 => archive(&mut c, &dir),
                    1 => store(&mut c, &dir, true),
                    _ => store(&mut c, &dir, false),
                }
                let _ = std::fs::remove_dir_all(&dir);
            }
        }
        c.finish();
    }
}
