// Random protocol objects of every kind, with empty, boundary and large parts.
use super::vxh::Rng;
use bytes::Bytes;
use num_bigint::BigUint;
use protocol::types::*;
use std::collections::BTreeMap;

pub fn by(b: &[u8]) -> Bytes {
    Bytes::from(b.to_vec())
}
pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn hash(r: &mut Rng) -> Hash {
    let b = match r.below(8) {
        0 => vec![0; 32],
        1 => vec![255; 32],
        2 => {
            let mut b = vec![0; 32];
            b[31] = r.u8();
            b
        }
        _ => r.bytes(32),
    };
    Hash::from_bytes(Bytes::from(b)).unwrap()
}

pub fn len(r: &mut Rng) -> usize {
    let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 20, 55, 56, 57, 127, 128, 255, 256, 300]);
    n
}

pub fn data(r: &mut Rng) -> Bytes {
    let n = len(r);
    let mut b = r.bytes(n);
    if r.chance(1, 3) {
        for x in b.iter_mut() {
            *x &= *[0u8, 1, 0x7f, 0x80, 0xff].get(n % 5).unwrap();
        }
    }
    Bytes::from(b)
}

pub fn text(r: &mut Rng) -> String {
    let n = *r.pick(&[0usize, 1, 1, 2, 5, 55, 56, 130]);
    (0..n)
        .map(|_| *r.pick(&['a', 'z', '0', 'x', '\u{0}', '\u{7f}', '\u{80}', 'é', '漢', '\u{10ffff}', '"', ' ']))
        .collect()
}

pub fn amount(r: &mut Rng) -> Balance {
    match r.below(6) {
        0 => BigUint::from(0u32),
        1 => BigUint::from(r.edgy()),
        2 => BigUint::from(r.below(300) as u32),
        _ => {
            let n = r.below(70);
            BigUint::from_bytes_be(&r.bytes(n))
        }
    }
}

pub fn user(r: &mut Rng) -> UserAddress {
    let mut b = vec![0x10];
    b.extend(if r.chance(1, 6) { vec![0; 20] } else { r.bytes(20) });
    UserAddress::from_bytes(Bytes::from(b)).unwrap()
}

pub fn kind(r: &mut Rng) -> ContractType {
    match r.below(4) {
        0 => ContractType::Asset,
        1 => ContractType::App,
        2 => ContractType::Library,
        _ => ContractType::Native,
    }
}

pub fn contract(r: &mut Rng) -> ContractAddress {
    let mut b = vec![*r.pick(&[0x20u8, 0x21, 0x22, 0x23])];
    b.extend(if r.chance(1, 6) { vec![0; 20] } else { r.bytes(20) });
    ContractAddress::from_bytes(Bytes::from(b)).unwrap()
}

pub fn bloom(r: &mut Rng) -> Bloom {
    let b = match r.below(3) {
        0 => vec![0; 256],
        1 => vec![255; 256],
        _ => r.bytes(256),
    };
    Bloom::from_slice(&b)
}

pub fn fee(r: &mut Rng) -> Fee {
    Fee { asset_id: hash(r), cycle: r.edgy() }
}

pub fn carrying(r: &mut Rng) -> CarryingAsset {
    CarryingAsset { asset_id: hash(r), amount: amount(r) }
}

pub fn action(r: &mut Rng) -> TransactionAction {
    match r.below(5) {
        0 => TransactionAction::Transfer { receiver: user(r), carrying_asset: carrying(r) },
        1 => TransactionAction::Approve { spender: contract(r), asset_id: hash(r), max: amount(r) },
        2 => TransactionAction::Deploy { code: data(r), contract_type: kind(r) },
        _ => TransactionAction::Call {
            contract:       contract(r),
            method:         text(r),
            args:           {
                let n = *r.pick(&[0usize, 1, 2, 5, 60]);
                (0..n).map(|_| data(r)).collect()
            },
            carrying_asset: if r.chance(1, 2) { Some(carrying(r)) } else { None },
        },
    }
}

pub fn raw(r: &mut Rng) -> RawTransaction {
    RawTransaction { chain_id: hash(r), nonce: hash(r), timeout: r.edgy(), fee: fee(r), action: action(r) }
}

pub fn signed(r: &mut Rng) -> SignedTransaction {
    SignedTransaction { raw: raw(r), tx_hash: hash(r), pubkey: data(r), signature: data(r) }
}

pub fn result(r: &mut Rng) -> ReceiptResult {
    match r.below(5) {
        0 => ReceiptResult::Transfer { receiver: user(r), asset_id: hash(r), before_amount: amount(r), after_amount: amount(r) },
        1 => ReceiptResult::Approve { spender: contract(r), asset_id: hash(r), max: amount(r) },
        2 => ReceiptResult::Deploy { contract: contract(r), contract_type: kind(r) },
        3 => ReceiptResult::Call { contract: contract(r), return_value: data(r), logs_bloom: Box::new(bloom(r)) },
        _ => ReceiptResult::Fail { system: text(r), user: text(r) },
    }
}

pub fn receipt(r: &mut Rng) -> Receipt {
    Receipt { state_root: hash(r), epoch_id: r.edgy(), tx_hash: hash(r), cycles_used: fee(r), result: result(r) }
}

pub fn proof(r: &mut Rng) -> Proof {
    Proof { epoch_id: r.edgy(), round: r.edgy(), epoch_hash: hash(r), signature: data(r), bitmap: data(r) }
}

pub fn validator(r: &mut Rng) -> Validator {
    let w = |r: &mut Rng| *r.pick(&[0u8, 1, 2, 127, 128, 255]);
    Validator { address: user(r), propose_weight: w(r), vote_weight: w(r) }
}

pub fn many<T, F: Fn(&mut Rng) -> T>(r: &mut Rng, f: F) -> Vec<T> {
    let n = *r.pick(&[0usize, 0, 1, 1, 2, 3, 9, 40]);
    (0..n).map(|_| f(r)).collect()
}

pub fn header(r: &mut Rng) -> EpochHeader {
    EpochHeader {
        chain_id:          hash(r),
        epoch_id:          r.edgy(),
        pre_hash:          hash(r),
        timestamp:         r.edgy(),
        logs_bloom:        bloom(r),
        order_root:        hash(r),
        confirm_root:      many(r, hash),
        state_root:        hash(r),
        receipt_root:      many(r, hash),
        cycles_used:       r.edgy(),
        proposer:          user(r),
        proof:             proof(r),
        validator_version: r.edgy(),
        validators:        many(r, validator),
    }
}

pub fn epoch(r: &mut Rng) -> Epoch {
    Epoch { header: header(r), ordered_tx_hashes: many(r, hash) }
}

pub fn pill(r: &mut Rng) -> Pill {
    Pill { epoch: epoch(r), propose_hashes: many(r, hash) }
}

pub fn approved(r: &mut Rng) -> BTreeMap<ContractAddress, ApprovedInfo> {
    many(r, |r| (contract(r), ApprovedInfo { max: amount(r), used: amount(r) })).into_iter().collect()
}

pub fn account(r: &mut Rng) -> Account {
    if r.chance(1, 2) {
        let assets = many(r, |r| (hash(r), AssetInfo { balance: amount(r), approved: approved(r) })).into_iter().collect();
        Account::User(UserAccount { nonce: r.edgy(), assets })
    } else {
        let assets = many(r, |r| (hash(r), amount(r))).into_iter().collect();
        Account::Contract(ContractAccount { nonce: r.edgy(), assets, storage_root: hash(r) })
    }
}

pub fn asset(r: &mut Rng) -> Asset {
    Asset { id: hash(r), name: text(r), symbol: text(r), supply: amount(r), manage_contract: contract(r), storage_root: hash(r) }
}

pub fn address(r: &mut Rng) -> Address {
    if r.chance(1, 2) {
        Address::User(user(r))
    } else {
        Address::Contract(contract(r))
    }
}

/// A text in hexadecimal, with or without the prefix.
pub fn hextext(r: &mut Rng) -> String {
    let d = data(r);
    let mut s = hx(&d);
    if r.chance(1, 4) {
        s = s.to_uppercase();
    }
    s
}

pub fn state_asset(r: &mut Rng) -> GenesisStateAsset {
    GenesisStateAsset { asset_id: text(r), balance: text(r) }
}

pub fn state_alloc(r: &mut Rng) -> GenesisStateAlloc {
    GenesisStateAlloc { address: text(r), assets: many(r, state_asset) }
}

pub fn genesis(r: &mut Rng) -> Genesis {
    let mut g = Genesis {
        timestamp:    r.edgy(),
        prevhash:     text(r),
        system_token: serde_json::from_str(r#"{"code":"","name":"","symbol":"","supply":0}"#).unwrap(),
        state_alloc:  many(r, state_alloc),
    };
    g.system_token.code = hextext(r);
    g.system_token.name = text(r);
    g.system_token.symbol = text(r);
    g.system_token.supply = r.edgy();
    g
}
