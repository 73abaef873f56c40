// C12, C13, C14: the canonical (RLP) and the wire (protobuf) encoding of every protocol object: decoding what was
// encoded, one encoding per object, and hostile bytes.
#[path = "../vxh.rs"]
mod vxh;
#[path = "../gen.rs"]
#[allow(dead_code)]
mod gen;

use bytes::Bytes;
use gen::hx;
use protocol::codec::ProtocolCodecSync;
use protocol::fixed_codec::ProtocolFixedCodec;
use protocol::types::*;
use std::collections::HashMap;
use std::fmt::Debug;
use vxh::{guard, Ctx, Rng};

fn show(b: &[u8]) -> String {
    if b.len() > 1200 {
        format!("{}.. ({} bytes)", hx(&b[..1200]), b.len())
    } else {
        hx(b)
    }
}

fn clip(s: String) -> String {
    s.chars().take(3000).collect()
}

// One lossless round trip; the key carries type and, for enums, the kind.
fn trip<T: PartialEq + Debug, E, D>(c: &mut Ctx, key: &str, x: &T, enc: E, dec: D) -> Option<Bytes>
where
    E: Fn(&T) -> protocol::ProtocolResult<Bytes>,
    D: Fn(Bytes) -> protocol::ProtocolResult<T>,
{
    c.case(&format!("{} {:?}", key, x));
    let b = match guard(|| enc(x)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => {
            c.fail(key, "cannot be encoded", clip(format!("{:?}: {:?}", x, e)));
            return None;
        }
        Err(p) => {
            c.fail(key, "encoding panics", clip(format!("{:?}: {}", x, p)));
            return None;
        }
    };
    match guard(|| dec(b.clone())) {
        Ok(Ok(ref y)) if y == x => Some(b),
        Ok(Ok(y)) => {
            c.fail(key, "decodes to another object", clip(format!("{:?} encodes to {} which decodes to {:?}", x, show(&b), y)));
            None
        }
        Ok(Err(e)) => {
            c.fail(key, "the encoding is refused", clip(format!("{:?} encodes to {} which is refused: {}", x, show(&b), e)));
            None
        }
        Err(p) => {
            c.fail(key, "decoding the encoding panics", clip(format!("{:?} encodes to {}: {}", x, show(&b), p)));
            None
        }
    }
}

struct Seen(HashMap<(String, Vec<u8>), String>);

fn fixed<T: ProtocolFixedCodec + PartialEq + Debug>(c: &mut Ctx, seen: &mut Seen, key: &str, x: &T) {
    if let Some(b) = trip(c, &format!("fixed {}", key), x, |x| x.encode_fixed(), |b| T::decode_fixed(b)) {
        if seen.0.len() < 200_000 && b.len() < 400 {
            let d = format!("{:?}", x);
            if let Some(o) = seen.0.insert((key.split(' ').next().unwrap().to_owned(), b.to_vec()), d.clone()) {
                if o != d {
                    c.fail(&format!("fixed {}", key), "two objects share an encoding", clip(format!("{} and {}", o, d)));
                }
            }
        }
    }
}

fn wire<T: ProtocolCodecSync + PartialEq + Debug>(c: &mut Ctx, key: &str, x: &T) {
    trip(c, &format!("wire {}", key), x, |x| x.encode_sync(), |b| T::decode_sync(b));
}

fn action_kind(a: &TransactionAction) -> &'static str {
    match a {
        TransactionAction::Transfer { .. } => "transfer",
        TransactionAction::Approve { .. } => "approve",
        TransactionAction::Deploy { .. } => "deploy",
        TransactionAction::Call { carrying_asset: Some(_), .. } => "call carrying",
        TransactionAction::Call { .. } => "call",
    }
}

fn result_kind(a: &ReceiptResult) -> &'static str {
    match a {
        ReceiptResult::Transfer { .. } => "transfer",
        ReceiptResult::Approve { .. } => "approve",
        ReceiptResult::Deploy { .. } => "deploy",
        ReceiptResult::Call { .. } => "call",
        ReceiptResult::Fail { .. } => "fail",
    }
}

fn each_fixed(c: &mut Ctx, s: &mut Seen, r: &mut Rng) {
    let x = gen::raw(r);
    fixed(c, s, &format!("RawTransaction {}", action_kind(&x.action)), &x);
    // The hash of a transaction binds every field: one field changed, the encoding changes.
    let mut y = x.clone();
    match r.below(5) {
        0 => y.chain_id = gen::hash(r),
        1 => y.nonce = gen::hash(r),
        2 => y.timeout = r.edgy(),
        3 => y.fee = gen::fee(r),
        _ => y.action = gen::action(r),
    }
    if x != y {
        if let (Ok(Ok(a)), Ok(Ok(b))) = (guard(|| x.encode_fixed()), guard(|| y.encode_fixed())) {
            c.check(a != b && Hash::digest(a) != Hash::digest(b), "hash binds", "two transactions with one hash", &|| clip(format!("{:?} and {:?}", x, y)));
        }
    }
    let x = gen::signed(r);
    fixed(c, s, &format!("SignedTransaction {}", action_kind(&x.raw.action)), &x);
    let x = gen::result(r);
    fixed(c, s, &format!("ReceiptResult {}", result_kind(&x)), &x);
    let x = gen::receipt(r);
    fixed(c, s, &format!("Receipt {}", result_kind(&x.result)), &x);
    fixed(c, s, "Proof", &gen::proof(r));
    fixed(c, s, "Validator", &gen::validator(r));
    fixed(c, s, "EpochHeader", &gen::header(r));
    fixed(c, s, "Epoch", &gen::epoch(r));
    fixed(c, s, "Pill", &gen::pill(r));
    fixed(c, s, "EpochId", &EpochId { id: r.edgy() });
    fixed(c, s, "Hash", &gen::hash(r));
    fixed(c, s, "Asset", &gen::asset(r));
    fixed(c, s, "Fee", &gen::fee(r));
    fixed(c, s, "Address", &gen::address(r));
    fixed(c, s, "UserAddress", &gen::user(r));
    fixed(c, s, "ContractAddress", &gen::contract(r));
    let x = gen::account(r);
    fixed(c, s, if let Account::User(_) = x { "Account user" } else { "Account contract" }, &x);
    fixed(c, s, "Bytes", &gen::data(r));
    let x = gen::genesis(r);
    fixed(c, s, "GenesisSystemToken", &x.system_token);
    fixed(c, s, "Genesis", &x);
    fixed(c, s, "GenesisStateAlloc", &gen::state_alloc(r));
    fixed(c, s, "GenesisStateAsset", &gen::state_asset(r));
}

fn each_wire(c: &mut Ctx, r: &mut Rng) {
    let x = gen::raw(r);
    wire(c, &format!("RawTransaction {}", action_kind(&x.action)), &x);
    let x = gen::signed(r);
    wire(c, &format!("SignedTransaction {}", action_kind(&x.raw.action)), &x);
    let x = gen::receipt(r);
    wire(c, &format!("Receipt {}", result_kind(&x.result)), &x);
    wire(c, "Proof", &gen::proof(r));
    wire(c, "Validator", &gen::validator(r));
    wire(c, "EpochHeader", &gen::header(r));
    wire(c, "Epoch", &gen::epoch(r));
    wire(c, "Pill", &gen::pill(r));
    wire(c, "EpochId", &EpochId { id: r.edgy() });
    wire(c, "Hash", &gen::hash(r));
    wire(c, "Asset", &gen::asset(r));
    wire(c, "Fee", &gen::fee(r));
    wire(c, "UserAddress", &gen::user(r));
    wire(c, "ContractAddress", &gen::contract(r));
    wire(c, "Balance", &gen::amount(r));
}

type Dec = fn(Bytes);

fn df<T: ProtocolFixedCodec>(b: Bytes) {
    let _ = T::decode_fixed(b);
}
fn dw<T: ProtocolCodecSync>(b: Bytes) {
    let _ = T::decode_sync(b);
}
// GenesisSystemToken cannot be named from here.
fn df_like<T: ProtocolFixedCodec>(_: fn(&Genesis) -> &T, b: Bytes) {
    df::<T>(b)
}
fn df_token(b: Bytes) {
    df_like(|g| &g.system_token, b)
}

fn ef<T: ProtocolFixedCodec>(x: T) -> Vec<u8> {
    guard(|| x.encode_fixed().map(|b| b.to_vec()).unwrap_or_default()).unwrap_or_default()
}
fn ew<T: ProtocolCodecSync>(x: T) -> Vec<u8> {
    guard(|| x.encode_sync().map(|b| b.to_vec()).unwrap_or_default()).unwrap_or_default()
}

fn targets() -> Vec<(&'static str, Dec, fn(&mut Rng) -> Vec<u8>)> {
    vec![
        ("fixed RawTransaction", df::<RawTransaction>, |r| ef(gen::raw(r))),
        ("fixed SignedTransaction", df::<SignedTransaction>, |r| ef(gen::signed(r))),
        ("fixed ReceiptResult", df::<ReceiptResult>, |r| ef(gen::result(r))),
        ("fixed Receipt", df::<Receipt>, |r| ef(gen::receipt(r))),
        ("fixed Proof", df::<Proof>, |r| ef(gen::proof(r))),
        ("fixed Validator", df::<Validator>, |r| ef(gen::validator(r))),
        ("fixed EpochHeader", df::<EpochHeader>, |r| ef(gen::header(r))),
        ("fixed Epoch", df::<Epoch>, |r| ef(gen::epoch(r))),
        ("fixed Pill", df::<Pill>, |r| ef(gen::pill(r))),
        ("fixed EpochId", df::<EpochId>, |r| ef(EpochId { id: r.edgy() })),
        ("fixed Hash", df::<Hash>, |r| ef(gen::hash(r))),
        ("fixed Asset", df::<Asset>, |r| ef(gen::asset(r))),
        ("fixed Fee", df::<Fee>, |r| ef(gen::fee(r))),
        ("fixed Address", df::<Address>, |r| ef(gen::address(r))),
        ("fixed UserAddress", df::<UserAddress>, |r| ef(gen::user(r))),
        ("fixed ContractAddress", df::<ContractAddress>, |r| ef(gen::contract(r))),
        ("fixed Account", df::<Account>, |r| ef(gen::account(r))),
        ("fixed GenesisSystemToken", df_token, |r| ef(gen::genesis(r).system_token)),
        ("fixed Genesis", df::<Genesis>, |r| ef(gen::genesis(r))),
        ("fixed GenesisStateAlloc", df::<GenesisStateAlloc>, |r| ef(gen::state_alloc(r))),
        ("fixed GenesisStateAsset", df::<GenesisStateAsset>, |r| ef(gen::state_asset(r))),
        ("wire RawTransaction", dw::<RawTransaction>, |r| ew(gen::raw(r))),
        ("wire SignedTransaction", dw::<SignedTransaction>, |r| ew(gen::signed(r))),
        ("wire Receipt", dw::<Receipt>, |r| ew(gen::receipt(r))),
        ("wire Proof", dw::<Proof>, |r| ew(gen::proof(r))),
        ("wire Validator", dw::<Validator>, |r| ew(gen::validator(r))),
        ("wire EpochHeader", dw::<EpochHeader>, |r| ew(gen::header(r))),
        ("wire Epoch", dw::<Epoch>, |r| ew(gen::epoch(r))),
        ("wire Pill", dw::<Pill>, |r| ew(gen::pill(r))),
        ("wire EpochId", dw::<EpochId>, |r| ew(EpochId { id: r.edgy() })),
        ("wire Hash", dw::<Hash>, |r| ew(gen::hash(r))),
        ("wire Asset", dw::<Asset>, |r| ew(gen::asset(r))),
        ("wire Fee", dw::<Fee>, |r| ew(gen::fee(r))),
        ("wire UserAddress", dw::<UserAddress>, |r| ew(gen::user(r))),
        ("wire ContractAddress", dw::<ContractAddress>, |r| ew(gen::contract(r))),
        ("wire Balance", dw::<Balance>, |r| ew(gen::amount(r))),
    ]
}

// ---- hostile bytes: a tree of the encoding, one part replaced, encoded again with right lengths.
#[derive(Clone)]
enum Tree {
    Leaf(Vec<u8>),
    Node(Vec<Tree>),
}

fn rlp_parse(b: &[u8]) -> Option<(Tree, usize)> {
    let f = *b.first()?;
    let long = |n: usize| -> Option<usize> {
        let mut v = 0usize;
        if n > 4 {
            return None;
        }
        for i in 0..n {
            v = v * 256 + *b.get(1 + i)? as usize;
        }
        Some(v)
    };
    let (list, head, n) = match f {
        0..=0x7f => return Some((Tree::Leaf(vec![f]), 1)),
        0x80..=0xb7 => (false, 1, f as usize - 0x80),
        0xb8..=0xbf => (false, 1 + (f as usize - 0xb7), long(f as usize - 0xb7)?),
        0xc0..=0xf7 => (true, 1, f as usize - 0xc0),
        _ => (true, 1 + (f as usize - 0xf7), long(f as usize - 0xf7)?),
    };
    let body = b.get(head..head.checked_add(n)?)?;
    if !list {
        return Some((Tree::Leaf(body.to_vec()), head + n));
    }
    let mut v = vec![];
    let mut at = 0;
    while at < body.len() {
        let (t, k) = rlp_parse(&body[at..])?;
        v.push(t);
        at += k;
    }
    Some((Tree::Node(v), head + n))
}

fn head(out: &mut Vec<u8>, base: u8, n: usize) {
    if n < 56 {
        out.push(base + n as u8);
    } else {
        let b: Vec<u8> = (n as u64).to_be_bytes().iter().cloned().skip_while(|x| *x == 0).collect();
        out.push(base + 55 + b.len() as u8);
        out.extend(b);
    }
}

fn rlp_write(t: &Tree, out: &mut Vec<u8>) {
    match t {
        Tree::Leaf(b) if b.len() == 1 && b[0] < 0x80 => out.push(b[0]),
        Tree::Leaf(b) => {
            head(out, 0x80, b.len());
            out.extend(b);
        }
        Tree::Node(v) => {
            let mut o = vec![];
            for t in v {
                rlp_write(t, &mut o);
            }
            head(out, 0xc0, o.len());
            out.extend(o);
        }
    }
}

fn any_tree(r: &mut Rng, depth: usize) -> Tree {
    if depth == 0 || r.chance(2, 3) {
        let n = *r.pick(&[0usize, 1, 1, 2, 8, 9, 19, 20, 21, 22, 31, 32, 33, 256]);
        Tree::Leaf(if r.chance(1, 6) { vec![0; n] } else { r.bytes(n) })
    } else {
        let n = r.below(5);
        Tree::Node((0..n).map(|_| any_tree(r, depth - 1)).collect())
    }
}

fn twist(t: &mut Tree, r: &mut Rng) {
    let deeper = r.chance(4, 5);
    match t {
        Tree::Node(v) if !v.is_empty() && deeper => {
            let i = r.below(v.len());
            twist(&mut v[i], r)
        }
        Tree::Node(v) => match r.below(6) {
            0 => {
                v.pop();
            }
            1 => {
                if !v.is_empty() {
                    let i = r.below(v.len());
                    v.remove(i);
                }
            }
            2 => v.push(any_tree(r, 2)),
            3 => {
                if !v.is_empty() {
                    let i = r.below(v.len());
                    let x = v[i].clone();
                    v.insert(i, x)
                }
            }
            4 => *t = any_tree(r, 2),
            _ => *v = vec![],
        },
        Tree::Leaf(b) => match r.below(7) {
            0 => *b = vec![],
            1 => {
                b.pop();
            }
            2 => b.push(r.u8()),
            3 => {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.u8()
                }
            }
            4 => *b = vec![r.u8()],
            5 => *b = vec![0xff, 0xfe, 0x80],
            _ => *t = any_tree(r, 2),
        },
    }
}

// protobuf: a sequence of fields, each with its key and its content.
fn varint(b: &[u8], at: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let x = *b.get(*at)?;
        *at += 1;
        v |= u64::from(x & 0x7f).checked_shl(7 * k)?;
        if x & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}

fn put(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

fn fields(b: &[u8]) -> Option<Vec<(u64, Vec<u8>)>> {
    let mut at = 0;
    let mut v = vec![];
    while at < b.len() {
        let key = varint(b, &mut at)?;
        let from = at;
        match key & 7 {
            0 => {
                varint(b, &mut at)?;
                v.push((key, b[from..at].to_vec()));
            }
            2 => {
                let n = varint(b, &mut at)? as usize;
                let to = at.checked_add(n)?;
                v.push((key, b.get(at..to)?.to_vec()));
                at = to;
            }
            _ => return None,
        }
    }
    Some(v)
}

fn proto_twist(b: &[u8], r: &mut Rng, depth: usize) -> Vec<u8> {
    let mut v = match fields(b) {
        Some(v) => v,
        None => {
            let n = r.below(40);
            return r.bytes(n);
        }
    };
    if v.is_empty() {
        let n = r.below(4);
        return r.bytes(n);
    }
    let i = r.below(v.len());
    match r.below(8) {
        0 => {
            v.remove(i);
        }
        1 => {
            let x = v[i].clone();
            v.push(x)
        }
        2 => v[i].0 = (v[i].0 & 7) | (1 + r.below(16) as u64) << 3,
        3 => v[i].1 = vec![],
        4 if v[i].0 & 7 == 2 => {
            let n = *r.pick(&[0usize, 1, 2, 19, 20, 21, 22, 31, 32, 33, 64, 255, 256, 257]);
            v[i].1 = r.bytes(n)
        }
        5 if v[i].0 & 7 == 0 => {
            v[i].1 = vec![];
            let x = r.edgy();
            put(&mut v[i].1, x)
        }
        _ if v[i].0 & 7 == 2 && depth > 0 => v[i].1 = proto_twist(&v[i].1.clone(), r, depth - 1),
        _ => {
            v[i].1.pop();
        }
    }
    let mut out = vec![];
    for (k, c) in v {
        put(&mut out, k);
        if k & 7 == 2 {
            put(&mut out, c.len() as u64);
        }
        out.extend(c);
    }
    out
}

fn hostile(name: &str, good: Vec<u8>, r: &mut Rng) -> Vec<u8> {
    let mut b = good;
    match r.below(9) {
        0 => {
            let n = r.below(b.len() + 1);
            b.truncate(n)
        }
        1 => {
            for _ in 0..1 + r.below(4) {
                if !b.is_empty() {
                    let i = r.below(b.len());
                    b[i] = r.u8()
                }
            }
        }
        2 => {
            let n = r.below(80);
            b = r.bytes(n);
            if n > 0 && r.chance(1, 2) {
                b[0] = *r.pick(&[0xc0, 0xc1, 0xf7, 0xf8, 0xf9, 0xfa, 0xff, 0xb8, 0xbf, 0x80])
            }
        }
        3 => {
            let n = r.below(b.len() + 1);
            let x = r.u8();
            b.insert(n, x)
        }
        4 => {
            let t = any_tree(r, 4);
            b = vec![];
            rlp_write(&t, &mut b)
        }
        _ if name.starts_with("fixed") => {
            if let Some((mut t, _)) = rlp_parse(&b) {
                for _ in 0..1 + r.below(3) {
                    twist(&mut t, r);
                }
                b = vec![];
                rlp_write(&t, &mut b)
            }
        }
        _ => {
            for _ in 0..1 + r.below(2) {
                b = proto_twist(&b, r, 3)
            }
        }
    }
    b
}

fn main() {
    let mut c = Ctx::from_args();
    match c.prop.as_str() {
        "C12" => {
            c.rule = "distinct objects encoded and decoded canonically".into();
            let mut s = Seen(HashMap::new());
            while c.go(1.0) {
                let mut r = Rng::new(c.rng.u64());
                each_fixed(&mut c, &mut s, &mut r);
                let x = r.clone();
                c.sample(|| clip(format!("{:?}", gen::raw(&mut x.clone()))));
            }
        }
        "C13" => {
            c.rule = "distinct objects encoded and decoded for the wire".into();
            while c.go(1.0) {
                let mut r = Rng::new(c.rng.u64());
                each_wire(&mut c, &mut r);
                let x = r.clone();
                c.sample(|| clip(format!("{:?}", gen::receipt(&mut x.clone()))));
            }
        }
        _ => {
            c.rule = "distinct byte strings given to a decoder".into();
            let t = targets();
            while c.go(1.0) {
                let mut r = Rng::new(c.rng.u64());
                for (name, dec, good) in t.iter() {
                    let g = good(&mut r);
                    for _ in 0..4 {
                        let b = hostile(name, g.clone(), &mut r);
                        c.case(&(name, &b));
                        let d = || format!("{} bytes {}", name, show(&b));
                        c.sample(d);
                        if let Err(p) = guard(|| dec(Bytes::from(b.clone()))) {
                            c.fail(name, "decoding panics", format!("{}: {}", d(), p));
                        }
                    }
                }
            }
        }
    }
    c.finish()
}
