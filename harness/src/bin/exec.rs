// C01-C06, C09, C10: blocks executed by the real executor, against a reference ledger kept in plain maps.
// Only the public API of the executor crate is used; the whole committed state is read back by walking the
// trie nodes in the node store.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/executor.rs"));

#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::vxh::{guard, Ctx, Rng};
    use super::{trie::MPTTrie, TransactionExecutorFactory};
    use bytes::Bytes;
    use cita_trie::{MemoryDB, DB};
    use hasher::{Hasher, HasherKeccak};
    use protocol::fixed_codec::ProtocolFixedCodec;
    use protocol::traits::executor::{Executor, ExecutorFactory};
    use protocol::types::*;
    use std::collections::BTreeMap;
    use std::sync::Arc;

    const ACC: [u8; 21] = [0x23, 0xC0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1];
    const BANK: [u8; 21] = [0x23, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2];

    type V = Vec<u8>;

    fn keccak(b: &[u8]) -> V {
        HasherKeccak::new().digest(b)
    }
    fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    fn by(b: &[u8]) -> Bytes {
        Bytes::from(b.to_vec())
    }
    fn hash(b: &[u8]) -> Hash {
        Hash::from_bytes(by(b)).unwrap()
    }
    fn addr(b: &[u8]) -> Address {
        Address::from_bytes(by(b)).unwrap()
    }
    fn user(pubkey: &[u8]) -> V {
        let mut v = vec![0x10];
        v.extend_from_slice(&keccak(pubkey)[..20]);
        v
    }
    fn contract(code: &[u8], nonce: u64) -> V {
        let mut p = code.to_vec();
        p.extend_from_slice(&nonce.to_be_bytes());
        let mut v = vec![0x20];
        v.extend_from_slice(&keccak(&p)[..20]);
        v
    }
    fn asset_id(chain: &[u8], contract: &[u8]) -> V {
        keccak(&[chain, contract].concat())
    }

    // ------------------------------------------------------------------ the reference
    #[derive(Clone, Default, Debug, PartialEq)]
    struct Acct {
        nonce: u64,
        bal:   BTreeMap<V, Balance>,
    }
    #[derive(Clone, Debug, PartialEq)]
    struct Reg {
        name:    String,
        symbol:  String,
        supply:  Balance,
        manager: V,
    }
    #[derive(Clone, Default, Debug, PartialEq)]
    struct State {
        acc:    BTreeMap<V, Acct>,
        assets: BTreeMap<V, Reg>,
    }

    impl State {
        fn bal(&self, a: &[u8], id: &[u8]) -> Balance {
            self.acc.get(a).and_then(|x| x.bal.get(id)).cloned().unwrap_or_else(|| Balance::from(0u64))
        }
        fn set(&mut self, a: &[u8], id: &[u8], v: Balance) {
            self.acc.entry(a.to_vec()).or_default().bal.insert(id.to_vec(), v);
        }
        fn holds(&self, a: &[u8], id: &[u8]) -> bool {
            self.acc.get(a).map(|x| x.bal.contains_key(id)).unwrap_or(false)
        }
        fn nonce(&self, a: &[u8]) -> u64 {
            self.acc.get(a).map(|x| x.nonce).unwrap_or(0)
        }
    }

    #[derive(Clone, Debug)]
    enum Kind {
        Transfer { to: V, asset: V, amount: Balance },
        Deploy { code: V, ty: ContractType },
        Approve,
        Call { carrying: bool },
    }
    #[derive(Clone, Debug)]
    struct Tx {
        pk:    V,
        hash:  V,
        limit: u64,
        fee:   V,
        kind:  Kind,
    }
    #[derive(Clone, Debug)]
    struct Block {
        epoch:    u64,
        price:    u64,
        coinbase: V,
        txs:      Vec<Tx>,
    }
    #[derive(Clone, Debug, PartialEq)]
    enum Res {
        Moved { before: Balance, after: Balance },
        Deployed(V),
        Fail(&'static str),
        Either,
    }

    fn step(s: &mut State, chain: &[u8], tx: &Tx) -> (Res, u64) {
        let me = user(&tx.pk);
        let (res, cycles) = match &tx.kind {
            Kind::Transfer { to, asset, amount } => {
                let have = s.bal(&me, asset);
                if !s.assets.contains_key(asset) {
                    (Res::Fail("asset"), 0)
                } else if have < *amount {
                    (Res::Fail("insufficient"), 0)
                } else if !s.holds(&me, asset) {
                    (Res::Either, 0)
                } else if tx.limit < 210 {
                    (Res::Fail("limit"), 0)
                } else {
                    s.set(&me, asset, have.clone() - amount.clone());
                    let b = s.bal(to, asset);
                    s.set(to, asset, b + amount.clone());
                    (Res::Moved { before: have, after: s.bal(&me, asset) }, 210)
                }
            }
            Kind::Deploy { code, ty } => {
                if *ty != ContractType::Asset {
                    (Res::Fail("kind"), 0)
                } else if !s.acc.contains_key(&me) {
                    // a sender without an account: not specified whether it may deploy
                    (Res::Either, 0)
                } else {
                    let c = contract(code, s.nonce(&me));
                    let id = asset_id(chain, &c);
                    if s.assets.contains_key(&id) {
                        (Res::Fail("exists"), 0)
                    } else if tx.limit < 2100 {
                        (Res::Fail("limit"), 0)
                    } else {
                        s.assets.insert(id, Reg {
                            name:    "System token".into(),
                            symbol:  "ST".into(),
                            supply:  Balance::from(21_000_000_000_000_000u64),
                            manager: c.clone(),
                        });
                        (Res::Deployed(c), 2100)
                    }
                }
            }
            _ => (Res::Fail("unsupported"), 0),
        };
        s.acc.entry(me).or_default().nonce += 1;
        (res, cycles)
    }

    fn reference(s: &mut State, chain: &[u8], b: &Block) -> (Vec<(Res, u64)>, BTreeMap<V, u64>) {
        let mut out = vec![];
        let mut fees: BTreeMap<V, u64> = BTreeMap::new();
        for tx in &b.txs {
            let r = step(s, chain, tx);
            *fees.entry(tx.fee.clone()).or_insert(0) += r.1 * b.price;
            out.push(r);
        }
        for (id, f) in &fees {
            let old = s.bal(&b.coinbase, id);
            s.set(&b.coinbase, id, old + Balance::from(*f));
        }
        (out, fees)
    }

    // ------------------------------------------------------------------ the real thing
    fn real_tx(tx: &Tx, chain: &[u8]) -> SignedTransaction {
        let action = match &tx.kind {
            Kind::Transfer { to, asset, amount } => TransactionAction::Transfer {
                receiver:       UserAddress::from_bytes(by(to)).unwrap(),
                carrying_asset: CarryingAsset { asset_id: hash(asset), amount: amount.clone() },
            },
            Kind::Deploy { code, ty } => TransactionAction::Deploy { code: by(code), contract_type: ty.clone() },
            Kind::Approve => TransactionAction::Approve {
                spender:  ContractAddress::from_bytes(by(&contract(b"x", 0))).unwrap(),
                asset_id: hash(&tx.fee),
                max:      Balance::from(5u64),
            },
            Kind::Call { carrying } => TransactionAction::Call {
                contract:       ContractAddress::from_bytes(by(&contract(b"x", 0))).unwrap(),
                method:         "m".into(),
                args:           vec![by(b"a")],
                carrying_asset: if *carrying {
                    Some(CarryingAsset { asset_id: hash(&tx.fee), amount: Balance::from(1u64) })
                } else {
                    None
                },
            },
        };
        SignedTransaction {
            raw:       RawTransaction {
                chain_id: hash(chain),
                nonce: hash(&keccak(&tx.hash)),
                timeout: 100,
                fee: Fee { asset_id: hash(&tx.fee), cycle: tx.limit },
                action,
            },
            tx_hash:   hash(&tx.hash),
            pubkey:    by(&tx.pk),
            signature: by(b"sig"),
        }
    }

    #[derive(Clone, Debug, PartialEq)]
    struct Out {
        receipts: Vec<Receipt>,
        fees:     Vec<Fee>,
        root:     Hash,
    }

    fn open(db: &Arc<MemoryDB>, chain: &[u8], root: &Hash, b: &Block) -> Result<Box<dyn Executor>, String> {
        TransactionExecutorFactory::from_root(hash(chain), root.clone(), Arc::clone(db), b.epoch, b.price, addr(&b.coinbase))
            .map_err(|e| format!("from_root: {}", e))
    }

    /// Also what the executor itself says about balances right after the block.
    fn run(db: &Arc<MemoryDB>, chain: &[u8], root: &Hash, b: &Block, ask: &[(V, V)]) -> Result<(Out, Vec<Option<Balance>>), String> {
        guard(|| {
            let mut e = open(db, chain, root, b)?;
            let r = e
                .exec(b.txs.iter().map(|t| real_tx(t, chain)).collect())
                .map_err(|e| format!("exec: {}", e))?;
            let view = ask.iter().map(|(a, id)| e.get_balance(&addr(a), &hash(id)).ok()).collect();
            Ok((Out { receipts: r.receipts, fees: r.all_cycles_used, root: r.state_root }, view))
        })
        .map_err(|p| format!("panic: {}", p))
        .and_then(|x| x)
    }

    // ------------------------------------------------------------------ reading the committed state
    fn walk(db: &MemoryDB, node: &rlp::Rlp, nib: &mut Vec<u8>, out: &mut Vec<(V, V)>) -> Result<(), String> {
        let e = |x: rlp::DecoderError| format!("node: {:?}", x);
        if node.is_empty() {
            return Ok(());
        }
        if node.is_data() {
            let h: V = node.as_val().map_err(e)?;
            let n = db.get(&h).map_err(|_| "db".to_owned())?.ok_or_else(|| format!("missing node {}", hx(&h)))?;
            return walk(db, &rlp::Rlp::new(&n), nib, out);
        }
        let key = |nib: &Vec<u8>| -> V { nib.chunks(2).map(|c| c[0] * 16 + if c.len() > 1 { c[1] } else { 0 }).collect() };
        match node.item_count().map_err(e)? {
            2 => {
                let p: V = node.val_at(0).map_err(e)?;
                let n0 = nib.len();
                let leaf = p[0] & 0x20 != 0;
                if p[0] & 0x10 != 0 {
                    nib.push(p[0] & 15);
                }
                for x in &p[1..] {
                    nib.push(x >> 4);
                    nib.push(x & 15);
                }
                if leaf {
                    out.push((key(nib), node.val_at(1).map_err(e)?));
                } else {
                    walk(db, &node.at(1).map_err(e)?, nib, out)?;
                }
                nib.truncate(n0);
            }
            17 => {
                for i in 0..16 {
                    nib.push(i as u8);
                    walk(db, &node.at(i).map_err(e)?, nib, out)?;
                    nib.pop();
                }
                let v = node.at(16).map_err(e)?;
                if !v.is_empty() {
                    out.push((key(nib), v.as_val().map_err(e)?));
                }
            }
            k => return Err(format!("node of {} items", k)),
        }
        Ok(())
    }

    fn entries(db: &MemoryDB, root: &[u8]) -> Result<Vec<(V, V)>, String> {
        let mut out = vec![];
        if root == &keccak(&[0x80])[..] {
            return Ok(out);
        }
        let n = db.get(root).map_err(|_| "db".to_owned())?.ok_or("the root is not in the store")?;
        walk(db, &rlp::Rlp::new(&n), &mut vec![], &mut out)?;
        Ok(out)
    }

    fn dump(db: &MemoryDB, root: &Hash) -> Result<State, String> {
        guard(|| {
            let top = entries(db, &root.as_bytes())?;
            let mut s = State::default();
            for (k, v) in top {
                if k == ACC.to_vec() {
                    for (k, v) in entries(db, &v)? {
                        let a = Address::decode_fixed(Bytes::from(k)).map_err(|e| e.to_string())?;
                        let x = Account::decode_fixed(Bytes::from(v)).map_err(|e| e.to_string())?;
                        let mut r = Acct::default();
                        match x {
                            Account::User(u) => {
                                r.nonce = u.nonce;
                                for (id, i) in u.assets {
                                    r.bal.insert(id.as_bytes().to_vec(), i.balance);
                                }
                            }
                            Account::Contract(u) => {
                                r.nonce = u.nonce;
                                for (id, i) in u.assets {
                                    r.bal.insert(id.as_bytes().to_vec(), i);
                                }
                            }
                        }
                        s.acc.insert(a.as_bytes().to_vec(), r);
                    }
                } else if k == BANK.to_vec() {
                    for (k, v) in entries(db, &v)? {
                        let id = Hash::decode_fixed(Bytes::from(k)).map_err(|e| e.to_string())?;
                        let a = Asset::decode_fixed(Bytes::from(v)).map_err(|e| e.to_string())?;
                        if a.id != id {
                            return Err(format!("asset {:?} stored under {:?}", a.id, id));
                        }
                        s.assets.insert(id.as_bytes().to_vec(), Reg {
                            name:    a.name,
                            symbol:  a.symbol,
                            supply:  a.supply,
                            manager: a.manage_contract.as_bytes().to_vec(),
                        });
                    }
                } else {
                    return Err(format!("unexpected contract {}", hx(&k)));
                }
            }
            Ok(s)
        })
        .map_err(|p| format!("panic: {}", p))
        .and_then(|x| x)
    }

    /// Balances, holes counted as 0.
    fn balances(s: &State) -> BTreeMap<(V, V), Balance> {
        let z = Balance::from(0u64);
        let mut m = BTreeMap::new();
        for (a, x) in &s.acc {
            for (id, b) in &x.bal {
                if *b != z {
                    m.insert((a.clone(), id.clone()), b.clone());
                }
            }
        }
        m
    }
    fn nonces(s: &State) -> BTreeMap<V, u64> {
        s.acc.iter().filter(|(_, x)| x.nonce != 0).map(|(a, x)| (a.clone(), x.nonce)).collect()
    }
    fn diff<K: Ord + Clone, T: PartialEq>(a: &BTreeMap<K, T>, b: &BTreeMap<K, T>) -> Vec<K> {
        let mut d: Vec<K> = a.iter().filter(|(k, v)| b.get(k) != Some(v)).map(|(k, _)| k.clone()).collect();
        d.extend(b.keys().filter(|k| !a.contains_key(k)).cloned());
        d
    }

    // ------------------------------------------------------------------ texts
    fn show_tx(t: &Tx) -> String {
        let k = match &t.kind {
            Kind::Transfer { to, asset, amount } => format!("transfer {} of {} to {}", amount, &hx(asset)[..8], &hx(to)[..12]),
            Kind::Deploy { code, ty } => format!("deploy {:?} code {}", ty, hx(code)),
            x => format!("{:?}", x),
        };
        format!("  {} from {} (pubkey {}), cycle limit {}, fee asset {}", k, &hx(&user(&t.pk))[..12], hx(&t.pk), t.limit, &hx(&t.fee)[..8])
    }
    fn show_state(s: &State) -> String {
        let mut o = String::new();
        for (a, x) in &s.acc {
            o.push_str(&format!("  {} nonce {}:", hx(a), x.nonce));
            for (id, b) in &x.bal {
                o.push_str(&format!(" {}={}", &hx(id)[..8], b));
            }
            o.push('\n');
        }
        for (id, r) in &s.assets {
            o.push_str(&format!("  asset {} {:?} {:?} supply {} of {}\n", hx(id), r.name, r.symbol, r.supply, hx(&r.manager)));
        }
        o
    }
    fn show_block(b: &Block) -> String {
        let mut o = format!("block at height {}, cycles price {}, coinbase {}:\n", b.epoch, b.price, hx(&b.coinbase));
        for t in &b.txs {
            o.push_str(&show_tx(t));
            o.push('\n');
        }
        o
    }

    fn blame(c: &mut Ctx, who: &[&str], key: &str, what: &str, replay: String) {
        if who.iter().any(|w| *w == c.prop) {
            c.fail(key, what, replay);
        }
    }

    // ------------------------------------------------------------------ generation
    struct World {
        chain: V,
        pks:   Vec<V>,
        /// addresses that receive, without a key
        other: Vec<V>,
        conts: Vec<V>,
        /// identifiers not registered
        junk:  Vec<V>,
        codes: Vec<V>,
    }

    fn world(r: &mut Rng) -> World {
        let mut conts: Vec<V> = vec![ACC.to_vec(), BANK.to_vec()];
        for m in &[0x20u8, 0x21, 0x22, 0x23] {
            let mut v = r.bytes(21);
            v[0] = *m;
            conts.push(v);
        }
        let mut other = vec![];
        for _ in 0..3 {
            let mut v = r.bytes(21);
            v[0] = 0x10;
            other.push(v);
        }
        // addresses sharing long prefixes
        let mut v = other[0].clone();
        v[20] ^= 1;
        other.push(v);
        let n = 2 + r.below(4);
        let mut pks: Vec<V> = (0..n).map(|i| {
            let k = if i == 0 { r.below(3) } else { 33 };
            r.bytes(k)
        }).collect();
        pks.dedup();
        World {
            chain: r.bytes(32),
            pks,
            other,
            conts,
            junk: (0..2).map(|_| r.bytes(32)).collect(),
            codes: vec![vec![], r.bytes(1), r.bytes(40)],
        }
    }

    fn recase(r: &mut Rng, h: String) -> String {
        match r.below(3) {
            0 => h.to_uppercase(),
            1 => h.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
            _ => h,
        }
    }

    fn amount(r: &mut Rng) -> Balance {
        match r.below(6) {
            0 => Balance::from(0u64),
            1 => Balance::from(1 + r.below(300) as u64),
            2 => Balance::from(r.edgy()),
            3 => Balance::from_bytes_be(&r.bytes(9)),
            4 => (Balance::from(1u64) << 256) + Balance::from(r.below(3) as u64),
            _ => Balance::from(10_000u64),
        }
    }

    fn genesis(r: &mut Rng, w: &World) -> (Genesis, Option<State>) {
        let code = w.codes[r.below(w.codes.len())].clone();
        let mut s = State::default();
        let mut ok = true;
        let bad = r.chance(1, 6);
        let bad_at = r.below(5);
        let mut code_txt = recase(r, hx(&code));
        if bad && bad_at == 0 {
            ok = false;
            code_txt = (*r.pick(&["0x00", "0", "zz", "0x"])).to_owned();
        }
        let c = contract(&code, 0);
        let sys = asset_id(&w.chain, &c);
        let supply = r.edgy();
        let (name, symbol) = ((*r.pick(&["", "System token", "T\u{f6}ken"])).to_owned(), (*r.pick(&["ST", "", "x"])).to_owned());
        s.assets.insert(sys.clone(), Reg { name: name.clone(), symbol: symbol.clone(), supply: Balance::from(supply), manager: c });
        let mut alloc = vec![];
        let n = r.below(6);
        let bad_n = r.below(n);
        for i in 0..n {
            let a = match r.below(8) {
                0 => w.conts[r.below(w.conts.len())].clone(),
                1 | 2 => w.other[r.below(w.other.len())].clone(),
                _ => user(&w.pks[r.below(w.pks.len())]),
            };
            let pre = *r.pick(&["", "0x"]);
            let mut at = format!("{}{}", pre, recase(r, hx(&a)));
            let mut assets = vec![];
            let k = r.below(4);
            let bad_k = r.below(k);
            for j in 0..k {
                let id = if r.chance(2, 3) { sys.clone() } else { w.junk[r.below(w.junk.len())].clone() };
                let b = amount(r);
                let mut bt = recase(r, hx(&b.to_bytes_be()));
                if r.chance(1, 4) {
                    bt = format!("00{}", bt);
                }
                if r.chance(1, 10) && b == Balance::from(0u64) {
                    bt = String::new();
                }
                let mut it = format!("{}{}", *r.pick(&["", "0x"]), recase(r, hx(&id)));
                let o = s.bal(&a, &id);
                s.set(&a, &id, o + b);
                if bad && i == bad_n && j == bad_k {
                    if bad_at == 1 {
                        ok = false;
                        bt = (*r.pick(&["0x1", "0", "123", "fg", "0x00", "\u{e9}"])).to_owned();
                    } else if bad_at == 2 {
                        ok = false;
                        it = match r.below(4) {
                            0 => String::new(),
                            1 => hx(&id[1..]),
                            2 => format!("{}00", hx(&id)),
                            _ => format!("0x0x{}", hx(&id)),
                        };
                    }
                }
                assets.push(GenesisStateAsset { asset_id: it, balance: bt });
            }
            if bad && i == bad_n && bad_at >= 3 {
                ok = false;
                at = match r.below(5) {
                    0 => "0x".into(),
                    1 => hx(&a[1..]),
                    2 => format!("24{}", hx(&a[1..])),
                    3 => format!("{}0", hx(&a)),
                    _ => format!("00{}", hx(&a[1..])),
                };
            }
            alloc.push(GenesisStateAlloc { address: at, assets });
        }
        let mut g: Genesis = serde_json::from_str(
            r#"{"timestamp":0,"prevhash":"0x","system_token":{"code":"","name":"","symbol":"","supply":0},"state_alloc":[]}"#,
        )
        .unwrap();
        g.system_token.code = code_txt;
        g.system_token.name = name;
        g.system_token.symbol = symbol;
        g.system_token.supply = supply;
        g.state_alloc = alloc;
        (g, if ok { Some(s) } else { None })
    }

    fn block(r: &mut Rng, w: &World, s: &State, epoch: u64, prop: &str) -> Block {
        let n = match r.below(8) {
            0 => 0,
            1 => 1,
            _ => 1 + r.below(9),
        };
        let price = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 1000,
            4 => u64::max_value() / 2100 / (n as u64 + 1),
            _ => 7,
        };
        let coinbase = match r.below(4) {
            0 => w.conts[r.below(w.conts.len())].clone(),
            1 => w.other[r.below(w.other.len())].clone(),
            _ => user(&w.pks[r.below(w.pks.len())]),
        };
        let mut ids: Vec<V> = s.assets.keys().cloned().collect();
        let sys_n = ids.len();
        ids.extend(w.junk.iter().cloned());
        let fees: Vec<V> = (0..1 + r.below(3)).map(|_| ids[r.below(ids.len())].clone()).collect();
        let few = r.chance(1, 2);
        // what the block has done so far, so that amounts hit the exact balance
        let mut m = s.clone();
        let mut txs = vec![];
        for _ in 0..n {
            let pk = if few { w.pks[r.below(2)].clone() } else { w.pks[r.below(w.pks.len())].clone() };
            let me = user(&pk);
            let k = match prop {
                "C06" => r.below(12) + 4,
                _ => r.below(12),
            };
            let kind = match k {
                0..=7 => {
                    let asset = if r.chance(7, 8) { ids[r.below(sys_n)].clone() } else { ids[r.below(ids.len())].clone() };
                    let to = match r.below(8) {
                        0 | 1 => w.other[r.below(w.other.len())].clone(),
                        2 => me.clone(),
                        _ => user(&w.pks[r.below(w.pks.len())]),
                    };
                    let have = m.bal(&me, &asset);
                    let amount = match r.below(7) {
                        0 => have.clone(),
                        1 => have.clone() + Balance::from(1u64),
                        2 => have.clone() / Balance::from(2u64),
                        3 => Balance::from(0u64),
                        4 => amount(r),
                        _ => {
                            let a = Balance::from(1 + r.below(50) as u64);
                            if a > have {
                                have
                            } else {
                                a
                            }
                        }
                    };
                    Kind::Transfer { to, asset, amount }
                }
                8 => match r.below(3) {
                    0 => Kind::Approve,
                    1 => Kind::Call { carrying: false },
                    _ => Kind::Call { carrying: true },
                },
                _ => Kind::Deploy {
                    code: w.codes[r.below(w.codes.len())].clone(),
                    ty:   match r.below(8) {
                        0 => ContractType::App,
                        1 => ContractType::Library,
                        2 => ContractType::Native,
                        _ => ContractType::Asset,
                    },
                },
            };
            let limit = match r.below(9) {
                0 => [0u64, 1, 209, 210, 211, 2099, 2100, 2101][r.below(8)],
                1 => 210,
                2 => 2100,
                3 => u64::max_value(),
                _ => 100_000,
            };
            let t = Tx { pk, hash: r.bytes(32), limit, fee: fees[r.below(fees.len())].clone(), kind };
            step(&mut m, &w.chain, &t);
            txs.push(t);
        }
        Block { epoch, price, coinbase, txs }
    }

    // ------------------------------------------------------------------ judging
    /// Returns the new state and root when everything is as the reference says.
    fn judge(c: &mut Ctx, w: &World, dbs: &[Arc<MemoryDB>], root: &Hash, s0: &State, b: &Block, nested: bool) -> Option<(State, Hash)> {
        let mut s = s0.clone();
        let (want, fees) = reference(&mut s, &w.chain, b);
        let fails = want.iter().any(|(x, _)| if let Res::Fail(_) = x { true } else { false });
        let head = format!("chain id {}\nstate before:\n{}{}", hx(&w.chain), show_state(s0), show_block(b));
        let mut ask: Vec<(V, V)> = vec![];
        for (a, x) in &s.acc {
            for id in x.bal.keys() {
                ask.push((a.clone(), id.clone()));
            }
        }
        let (out, view) = match run(&dbs[0], &w.chain, root, b, &ask) {
            Ok(x) => x,
            Err(e) => {
                let mut who = vec!["C03"];
                if fails {
                    who.push("C02");
                    if want.iter().any(|(x, _)| *x == Res::Fail("insufficient")) {
                        who.push("C01");
                    }
                    if want.iter().any(|(x, _)| *x == Res::Fail("limit")) {
                        who.push("C05");
                    }
                    if want.iter().any(|(x, _)| *x == Res::Fail("exists")) {
                        who.push("C06");
                    }
                } else {
                    who.extend(&["C01", "C06"]);
                }
                blame(c, &who, "exec:refused", "executing the block failed", format!("{}got: {}", head, e));
                return None;
            }
        };
        let head = || format!("{}receipts: {:?}\nfee totals: {:?}\n", head, out.receipts, out.fees);

        // receipts
        if out.receipts.len() != b.txs.len() {
            blame(c, &["C03"], "receipts:count", "not one receipt per transaction", head());
            return None;
        }
        let mut either = false;
        let mut clean = true;
        for (i, (t, r)) in b.txs.iter().zip(&out.receipts).enumerate() {
            let ok = r.tx_hash == hash(&t.hash) && r.epoch_id == b.epoch && r.state_root == out.root && r.cycles_used.asset_id == hash(&t.fee);
            if !ok {
                blame(c, &["C03"], "receipts:fields", "a receipt does not carry its transaction's hash, height, root or fee asset", format!("{}receipt {}", head(), i));
            }
            let failed = if let ReceiptResult::Fail { .. } = r.result { true } else { false };
            let txt = || format!("{}receipt {}: want {:?}, {} cycles at price {}", head(), i, want[i].0, want[i].1, b.price);
            let mut same = true;
            match &want[i].0 {
                Res::Either => {
                    either = true;
                    continue;
                }
                Res::Fail(why) => {
                    if !failed {
                        same = false;
                        let who: &[&str] = match *why {
                            "insufficient" => &["C01"],
                            "asset" => &["C06", "C01"],
                            "limit" => &["C05"],
                            "exists" => &["C06"],
                            _ => &["C02"],
                        };
                        blame(c, who, "receipts:not-failed", &format!("a transaction that has to fail ({}) did not", why), txt());
                    }
                }
                Res::Moved { before, after } => {
                    if failed {
                        same = false;
                        let mut who = vec!["C01", "C02"];
                        if t.limit < 2100 {
                            who.push("C05");
                        }
                        blame(c, &who, "transfer:refused", "a transfer the sender can afford failed", txt());
                    } else if let Kind::Transfer { to, asset, .. } = &t.kind {
                        let w = ReceiptResult::Transfer {
                            receiver:      UserAddress::from_bytes(by(to)).unwrap(),
                            asset_id:      hash(asset),
                            before_amount: before.clone(),
                            after_amount:  after.clone(),
                        };
                        if r.result != w {
                            same = false;
                            blame(c, &["C01"], "transfer:amounts", "the receipt of a transfer does not show the amounts moved", txt());
                        }
                    }
                }
                Res::Deployed(a) => {
                    if failed {
                        same = false;
                        let mut who = vec!["C06", "C02"];
                        if t.limit < 10_000 {
                            who.push("C05");
                        }
                        blame(c, &who, "deploy:refused", "a deployment that has to succeed failed", txt());
                    } else {
                        let w = ReceiptResult::Deploy { contract: ContractAddress::from_bytes(by(a)).unwrap(), contract_type: ContractType::Asset };
                        if r.result != w {
                            same = false;
                            blame(c, &["C06"], "deploy:address", "a deployment registered under another address", txt());
                        }
                    }
                }
            }
            if same && u128::from(r.cycles_used.cycle) != u128::from(want[i].1) * u128::from(b.price) {
                same = false;
                // metering (wrong at price 1 as well) or pricing?
                let mut meter = false;
                if b.price != 1 && !nested {
                    let b1 = Block { price: 1, ..b.clone() };
                    if let Ok((o, _)) = run(&dbs[0], &w.chain, root, &b1, &[]) {
                        meter = o.receipts.get(i).map(|r| r.cycles_used.cycle != want[i].1).unwrap_or(true);
                    }
                } else {
                    meter = true;
                }
                let who: &[&str] = if meter { &["C05"] } else { &["C03"] };
                blame(c, who, "receipts:cycles", "a receipt's fee is not the cycles used times the price", txt());
            }
            clean &= same;
        }
        if either || !clean {
            // what follows depends on an outcome that is left open, or is a consequence of what was reported
            return None;
        }

        // totals
        let mut sums: BTreeMap<V, u64> = BTreeMap::new();
        for r in &out.receipts {
            *sums.entry(r.cycles_used.asset_id.as_bytes().to_vec()).or_insert(0) += r.cycles_used.cycle;
        }
        let mut got: BTreeMap<V, u64> = BTreeMap::new();
        for f in &out.fees {
            got.insert(f.asset_id.as_bytes().to_vec(), f.cycle);
        }
        if got.len() != out.fees.len() || got != sums || sums != fees {
            blame(c, &["C03"], "totals", "the fee totals are not the sums of the receipts' fees", format!("{}want {:?}", head(), sums));
            return None;
        }

        // the committed state
        let st = match dump(&dbs[0], &out.root) {
            Ok(x) => x,
            Err(e) => {
                blame(c, &["C10", "C08"], "state:unreadable", "the state at the returned root cannot be read", format!("{}got: {}", head(), e));
                return None;
            }
        };
        let mut good = true;
        let (wb, gb) = (balances(&s), balances(&st));
        let db = diff(&wb, &gb);
        let da = diff(&s.assets, &st.assets);
        let dn = diff(&nonces(&s), &nonces(&st));
        let txt = |st: &State| format!("{}state after:\n{}want:\n{}", head(), show_state(st), show_state(&s));
        // is it the failed transactions that matter?
        let mut sub_ok = None;
        if (!db.is_empty() || !da.is_empty()) && fails && !nested {
            let sub = Block {
                txs: b.txs.iter().zip(&want).filter(|(_, x)| if let Res::Fail(_) = x.0 { false } else { true }).map(|(t, _)| t.clone()).collect(),
                ..b.clone()
            };
            let mut q = s0.clone();
            reference(&mut q, &w.chain, &sub);
            sub_ok = Some(match run(&dbs[0], &w.chain, root, &sub, &[]) {
                Ok((o, _)) => dump(&dbs[0], &o.root).map(|g| balances(&g) == balances(&q) && g.assets == q.assets).unwrap_or(false),
                Err(_) => false,
            });
        }
        for k in &db {
            good = false;
            let fee_cell = k.0 == b.coinbase && fees.contains_key(&k.1);
            let who: &[&str] = if sub_ok == Some(true) {
                &["C02"]
            } else if fee_cell {
                &["C03"]
            } else {
                &["C01"]
            };
            blame(c, who, "state:balance", "a committed balance is not what the block's transactions make it", format!("{}at account {} asset {}", txt(&st), hx(&k.0), hx(&k.1)));
        }
        if !da.is_empty() {
            good = false;
            let who: &[&str] = if sub_ok == Some(true) { &["C02"] } else { &["C06"] };
            blame(c, who, "state:registry", "the committed asset registry is not what the block's transactions make it", txt(&st));
        }
        if !dn.is_empty() {
            good = false;
            blame(c, &["C04"], "state:nonce", "a committed nonce is not the old one plus the transactions sent", format!("{}at account {}", txt(&st), hx(&dn[0])));
        }
        if c.prop == "C02" && good && fails && !nested {
            // the surviving transactions, in a block without the failed ones
            let keep: Vec<usize> = (0..b.txs.len()).filter(|i| if let Res::Fail(_) = want[*i].0 { false } else { true }).collect();
            let sub = Block { txs: keep.iter().map(|i| b.txs[*i].clone()).collect(), ..b.clone() };
            let deploys = sub.txs.iter().any(|t| if let Kind::Deploy { .. } = t.kind { true } else { false });
            if let (Ok((o, _)), false) = (run(&dbs[0], &w.chain, root, &sub, &[]), deploys) {
                let ok = o.receipts.len() == keep.len()
                    && keep.iter().zip(&o.receipts).all(|(i, r)| r.result == out.receipts[*i].result && r.cycles_used == out.receipts[*i].cycles_used)
                    && dump(&dbs[0], &o.root).map(|g| balances(&g) == gb && g.assets == st.assets).unwrap_or(false);
                if !ok {
                    blame(c, &["C02"], "state:neighbours", "transactions do not take effect as in a block without the failed ones", txt(&st));
                }
            }
        }
        // the executor's own view
        for ((a, id), v) in ask.iter().zip(&view) {
            if v.clone().unwrap_or_else(|| Balance::from(0u64)) != st.bal(a, id) {
                blame(c, &["C10", "C07"], "view", "the executor and the ledger reopened at its root disagree", format!("{}at account {} asset {}: {:?}", txt(&st), hx(a), hx(id), v));
            }
        }
        if !good {
            return None;
        }

        // reopening, other nodes
        let next = Block { txs: vec![], ..b.clone() };
        match guard(|| {
            let e = open(&dbs[0], &w.chain, &out.root, &next)?;
            for (a, id) in &ask {
                let v = e.get_balance(&addr(a), &hash(id)).map_err(|e| e.to_string())?;
                if v != st.bal(a, id) {
                    return Err(format!("reopened: account {} asset {} holds {}", hx(a), hx(id), v));
                }
            }
            Ok(())
        }) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => blame(c, &["C10"], "reopen", "the ledger reopened at the returned root shows another state", format!("{}{}", txt(&st), e)),
        }
        if let Ok(old) = dump(&dbs[0], root) {
            if balances(&old) != balances(s0) || old.assets != s0.assets || nonces(&old) != nonces(s0) {
                blame(c, &["C10", "C08"], "history", "executing a block changed the state at an earlier root", txt(&old));
            }
        } else if *root != Hash::from_empty() {
            blame(c, &["C10", "C08"], "history", "executing a block destroyed the state at an earlier root", txt(&st));
        }
        for (i, d) in dbs.iter().enumerate() {
            match run(d, &w.chain, root, b, &[]) {
                Ok((o, _)) => {
                    if o != out {
                        blame(c, &["C10"], "determinism", "executing the block again gives another result", format!("{}node {}: {:?}", head(), i, o));
                        return None;
                    }
                }
                Err(e) => {
                    blame(c, &["C10"], "determinism", "executing the block again fails", format!("{}node {}: {}", head(), i, e));
                    return None;
                }
            }
        }
        Some((s, out.root))
    }

    fn scenario(c: &mut Ctx) {
        let mut r = Rng::new(c.rng.u64());
        let w = world(&mut r);
        let dbs: Vec<Arc<MemoryDB>> = (0..2).map(|_| Arc::new(MemoryDB::new(false))).collect();
        let (g, want) = genesis(&mut r, &w);
        let coinbase = user(&w.pks[0]);
        let gb = Block { epoch: 0, price: 1, coinbase, txs: vec![] };
        let gh = format!("chain id {}\ngenesis {:?}\n", hx(&w.chain), g);
        c.case(&gh);
        let mut roots = vec![];
        for d in &dbs {
            roots.push(
                guard(|| {
                    let mut e = open(d, &w.chain, &Hash::from_empty(), &gb)?;
                    e.create_genesis(&g).map_err(|e| e.to_string())
                })
                .map_err(|p| format!("panic: {}", p))
                .and_then(|x| x),
            );
        }
        let mut s = match want {
            None => {
                match &roots[0] {
                    Ok(_) => blame(c, &["C09"], "genesis:accepted", "a malformed genesis is accepted", gh),
                    Err(e) if e.starts_with("panic") => blame(c, &["C09"], "genesis:panic", "a malformed genesis panics", format!("{}{}", gh, e)),
                    _ => {}
                }
                return;
            }
            Some(s) => s,
        };
        let mut root = match &roots[0] {
            Ok(x) => x.clone(),
            Err(e) => {
                blame(c, &["C09"], "genesis:refused", "a well-formed genesis is refused", format!("{}{}", gh, e));
                return;
            }
        };
        if roots[0] != roots[1] {
            blame(c, &["C10", "C09"], "genesis:determinism", "two nodes disagree on the genesis root", format!("{}{:?}", gh, roots));
            return;
        }
        match dump(&dbs[0], &root) {
            Ok(st) => {
                if balances(&st) != balances(&s) || st.assets != s.assets || st.acc.values().any(|x| x.nonce != 0) {
                    let who: &[&str] = if st.assets != s.assets { &["C09", "C06"] } else { &["C09"] };
                    blame(c, who, "genesis:state", "the genesis state is not the declared allocation", format!("{}got:\n{}want:\n{}", gh, show_state(&st), show_state(&s)));
                    return;
                }
                // accounts that hold nothing may or may not exist
                s.acc = st.acc;
            }
            Err(e) => {
                blame(c, &["C09", "C10"], "genesis:unreadable", "the genesis state cannot be read back", format!("{}{}", gh, e));
                return;
            }
        }
        let next = gb.clone();
        match guard(|| {
            let e = open(&dbs[0], &w.chain, &root, &next)?;
            for (a, x) in &s.acc {
                for (id, b) in &x.bal {
                    let v = e.get_balance(&addr(a), &hash(id)).map_err(|e| e.to_string())?;
                    if v != *b {
                        return Err(format!("reopened: account {} asset {} holds {}", hx(a), hx(id), v));
                    }
                }
            }
            Ok(())
        }) {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => {
                blame(c, &["C09", "C10"], "genesis:reopen", "the ledger reopened at the genesis root shows another state", format!("{}{}", gh, e));
                return;
            }
        }
        c.sample(|| gh.clone());
        if c.prop == "C09" && r.chance(9, 10) {
            return;
        }
        let n = 1 + r.below(4);
        for i in 0..n {
            let prop = c.prop.clone();
            let mut b = block(&mut r, &w, &s, i as u64 + 1, &prop);
            // prefer runs that stay on specified ground
            for _ in 0..6 {
                let (res, _) = reference(&mut s.clone(), &w.chain, &b);
                match res.iter().position(|(x, _)| *x == Res::Either) {
                    Some(j) => {
                        b.txs.remove(j);
                    }
                    None => break,
                }
            }
            c.case(&show_block(&b));
            c.note_case(&format!("chain id {}\nstate before:\n{}{}", hx(&w.chain), show_state(&s), show_block(&b)));
            match judge(c, &w, &dbs, &root, &s, &b, false) {
                Some((s2, r2)) => {
                    s = s2;
                    root = r2;
                }
                None => return,
            }
        }
    }

    // ------------------------------------------------------------------ the contracts called directly
    // What a block cannot reach: accounts of contracts that spend and count, a context that has used cycles before.
    fn direct(c: &mut Ctx) {
        use super::adapter::GeneralContractStateAdapter;
        use super::native_contract::{NativeAccountContract, NativeBankContract};
        use protocol::traits::executor::contract::{AccountContract, BankContract};
        use protocol::traits::executor::InvokeContext;
        use std::cell::RefCell;
        use std::rc::Rc;
        let mut r = Rng::new(c.rng.u64());
        let w = world(&mut r);
        let db = Arc::new(MemoryDB::new(false));
        let mut acct = NativeAccountContract::new(Rc::new(RefCell::new(GeneralContractStateAdapter::new(MPTTrie::new(Arc::clone(&db))))));
        let mut bank = NativeBankContract::new(hash(&w.chain), Rc::new(RefCell::new(GeneralContractStateAdapter::new(MPTTrie::new(db)))));
        let mut who: Vec<V> = w.conts.clone();
        who.extend(w.other.iter().cloned());
        let ids: Vec<V> = (0..3).map(|_| r.bytes(32)).collect();
        let mut s = State::default();
        let mut regs: BTreeMap<V, Reg> = BTreeMap::new();
        let mut log = format!("chain id {}\n", hx(&w.chain));
        let n = 1 + r.below(20);
        for _ in 0..n {
            let a = r.pick(&who).clone();
            let b = r.pick(&who).clone();
            let id = r.pick(&ids).clone();
            let have = s.bal(&a, &id);
            let v = match r.below(4) {
                0 => have.clone(),
                1 => have.clone() + Balance::from(1u64),
                2 => Balance::from(r.below(4) as u64),
                _ => amount(&mut r),
            };
            let (used, limit) = match r.below(4) {
                0 => (0, 210),
                1 => (r.below(300) as u64, r.below(4000) as u64),
                2 => (r.edgy(), r.edgy()),
                _ => (r.below(1000) as u64, u64::max_value()),
            };
            let ictx = |asset: Option<CarryingAsset>| {
                Rc::new(RefCell::new(InvokeContext {
                    chain_id: hash(&w.chain),
                    cycles_used: used,
                    cycles_limit: limit,
                    fee_asset_id: hash(&id),
                    cycles_price: 1,
                    epoch_id: 1,
                    caller: addr(&a),
                    coinbase: addr(&w.other[0]),
                    carrying_asset: asset,
                }))
            };
            let fits = |cost: u64| used.checked_add(cost).map(|x| x <= limit).unwrap_or(false);
            let op = r.below(6);
            let name = ["add_balance", "sub_balance", "transfer", "inc_nonce", "create_account", "register"][op];
            log.push_str(&format!("{}: account {} to {} asset {} amount {} cycles used {} limit {}\n", name, hx(&a), hx(&b), hx(&id), v, used, limit));
            c.case(&log);
            let before = s.clone();
            let mut undone = false;
            // (accepted, expected to be accepted, cycles, expected cycles)
            let got = guard(|| match op {
                0 => (acct.add_balance(&hash(&id), &addr(&a), v.clone()).is_ok(), 0),
                1 => (acct.sub_balance(&hash(&id), &addr(&a), v.clone()).is_ok(), 0),
                2 => {
                    let x = ictx(Some(CarryingAsset { asset_id: hash(&id), amount: v.clone() }));
                    let ok = acct.transfer(Rc::clone(&x), &addr(&b)).is_ok();
                    let u = x.borrow().cycles_used;
                    (ok, u)
                }
                3 => (acct.inc_nonce(ictx(None)).is_ok(), 0),
                4 => (acct.create_account(&addr(&a)).is_ok(), 0),
                _ => {
                    let x = ictx(None);
                    let at = ContractAddress::from_bytes(by(if a[0] >> 4 == 2 { &a } else { &w.conts[2] }));
                    match at {
                        Ok(at) => {
                            let ok = bank.register(Rc::clone(&x), &at, "n".to_owned(), "s".to_owned(), v.clone());
                            let u = x.borrow().cycles_used;
                            match ok {
                                Ok(asset) => {
                                    let want = asset_id(&w.chain, &at.as_bytes());
                                    if asset.id.as_bytes().as_ref() != &want[..] || asset.supply != v || asset.manage_contract != at {
                                        (true, u64::max_value())
                                    } else {
                                        (true, u)
                                    }
                                }
                                Err(_) => (false, u),
                            }
                        }
                        Err(_) => (false, used),
                    }
                }
            });
            let (ok, cyc) = match got {
                Ok(x) => x,
                Err(p) => {
                    blame(c, &["C01", "C04", "C05", "C06"], "direct:panic", &format!("{} panics", name), format!("{}{}", log, p));
                    return;
                }
            };
            let mut want_cyc = used;
            let mut want = true;
            match op {
                0 => s.set(&a, &id, have.clone() + v.clone()),
                1 | 2 => {
                    if !s.holds(&a, &id) || have < v {
                        want = false;
                    } else {
                        s.set(&a, &id, have.clone() - v.clone());
                    }
                    if op == 2 && want {
                        let t = s.bal(&b, &id) + v.clone();
                        s.set(&b, &id, t);
                        if fits(210) {
                            want_cyc = used + 210;
                        } else {
                            want = false;
                            undone = true;
                        }
                    }
                }
                3 => s.acc.entry(a.clone()).or_default().nonce += 1,
                4 => {}
                _ => {
                    let at = if a[0] >> 4 == 2 { a.clone() } else { w.conts[2].clone() };
                    let asset = ContractAddress::from_bytes(by(&at)).map(|x| x.contract_type() == ContractType::Asset).unwrap_or(false);
                    let known = regs.contains_key(&at);
                    want = asset && !known && fits(2100);
                    if asset && !known {
                        if fits(2100) {
                            want_cyc = used + 2100;
                            regs.insert(at.clone(), Reg { name: "n".to_owned(), symbol: "s".to_owned(), supply: v.clone(), manager: at });
                        } else {
                            undone = true;
                        }
                    }
                }
            }
            if ok != want {
                let by: &[&str] = match op {
                    2 if undone => &["C05", "C01"],
                    5 if undone => &["C05"],
                    5 => &["C06"],
                    3 => &["C04"],
                    _ => &["C01"],
                };
                blame(c, by, "direct:verdict", &format!("{} {}", name, if ok { "succeeds where it must fail" } else { "fails where it must succeed" }), log);
                return;
            }
            if (op == 2 || op == 5) && ok && cyc != want_cyc {
                if op == 5 && cyc == u64::max_value() && want_cyc != cyc {
                    blame(c, &["C06"], "direct:asset", "register returns another asset than the one to be registered", log);
                } else {
                    blame(c, &["C05"], "direct:cycles", &format!("{} leaves {} cycles used, not {}", name, cyc, want_cyc), log);
                }
                return;
            }
            if !want {
                s = before;
            }
            if undone {
                // only reverting the cache would undo what was done; the state is no longer of interest
                return;
            }
            for x in &who {
                for i in &ids {
                    let real = guard(|| acct.get_balance(&hash(i), &addr(x)).ok());
                    let exp = s.bal(x, i);
                    match real {
                        Ok(Some(ref v)) if *v == exp => {}
                        Ok(None) if exp == Balance::from(0u64) => {}
                        other => {
                            blame(c, &["C01"], "direct:balance", &format!("account {} shows {:?} of {}, not {}", hx(x), other, hx(i), exp), log);
                            return;
                        }
                    }
                }
                let real = guard(|| acct.get_nonce(&addr(x)).ok());
                match real {
                    Ok(Some(v)) if v == s.nonce(x) => {}
                    Ok(None) if s.nonce(x) == 0 => {}
                    other => {
                        blame(c, &["C04"], "direct:nonce", &format!("account {} has nonce {:?}, not {}", hx(x), other, s.nonce(x)), log);
                        return;
                    }
                }
            }
        }
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        c.rule = "random genesis blocks (duplicate entries, contract and native addresses, malformed texts) followed by random blocks of transfers (0, exact, one too many, self, fresh receivers, unknown senders and assets), deployments (duplicates, other kinds), unsupported kinds, cycle limits around 210 and 2100, several fee assets and prices, the coinbase taking part; the whole committed state is compared with a reference ledger; a case is one distinct genesis or block".into();
        while c.go(1.0) {
            if ["C01", "C04", "C05", "C06"].contains(&c.prop.as_str()) && c.rng.chance(1, 4) {
                direct(&mut c);
            } else {
                scenario(&mut c);
            }
        }
        c.finish();
    }
}
