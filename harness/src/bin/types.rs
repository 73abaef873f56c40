// C11: hashes and addresses, against a reference written from the contracts of units/prim.vrs.
#[path = "../vxh.rs"]
mod vxh;
use bytes::Bytes;
use hasher::{Hasher, HasherKeccak};
use protocol::types::{Address, ContractAddress, ContractType, Hash, UserAddress};
use std::panic::UnwindSafe;
use vxh::{guard, Ctx};

fn keccak(b: &[u8]) -> Vec<u8> {
    HasherKeccak::new().digest(b)
}

fn hexenc(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn hexdec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    b.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}

fn strip(s: &str) -> &str {
    if s.starts_with("0x") {
        &s[2..]
    } else {
        s
    }
}

fn kind(m: u8) -> Option<Option<ContractType>> {
    match m {
        0x10 => Some(None),
        0x20 => Some(Some(ContractType::Asset)),
        0x21 => Some(Some(ContractType::App)),
        0x22 => Some(Some(ContractType::Library)),
        0x23 => Some(Some(ContractType::Native)),
        _ => None,
    }
}

type Obs = Result<Option<(Vec<u8>, String, Option<ContractType>)>, String>;

fn obs_hash<F: FnOnce() -> protocol::ProtocolResult<Hash>>(f: F) -> Obs {
    guard(|| f().ok().map(|h| (h.as_bytes().to_vec(), h.as_hex(), None)))
}
fn obs_addr<F: FnOnce() -> protocol::ProtocolResult<Address>>(f: F) -> Obs {
    guard(|| {
        f().ok().map(|h| {
            let t = match &h {
                Address::User(_) => None,
                Address::Contract(c) => Some(c.contract_type()),
            };
            (h.as_bytes().to_vec(), h.as_hex(), t)
        })
    })
}
fn obs_user<F: FnOnce() -> protocol::ProtocolResult<UserAddress>>(f: F) -> Obs {
    guard(|| f().ok().map(|h| (h.as_bytes().to_vec(), h.as_hex(), None)))
}
fn obs_con<F: FnOnce() -> protocol::ProtocolResult<ContractAddress>>(f: F) -> Obs {
    guard(|| f().ok().map(|h| (h.as_bytes().to_vec(), h.as_hex(), Some(h.contract_type()))))
}

fn want_hash(b: Option<&[u8]>) -> Obs {
    Ok(b.filter(|b| b.len() == 32).map(|b| (b.to_vec(), hexenc(b), None)))
}
/// which: 0 any address, 1 user, 2 contract
fn want_addr(b: Option<&[u8]>, which: u8) -> Obs {
    Ok(b.filter(|b| b.len() == 21).and_then(|b| {
        let k = kind(b[0])?;
        match (which, &k) {
            (1, Some(_)) | (2, None) => None,
            _ => Some((b.to_vec(), hexenc(b), k)),
        }
    }))
}

fn cmp(c: &mut Ctx, key: &str, got: Obs, want: Obs, input: &dyn Fn() -> String) {
    if got != want {
        c.fail(key, "result differs from the contract", format!("input: {}\ngot:  {:?}\nwant: {:?}", input(), got, want));
    }
}

fn one(c: &mut Ctx, b: &[u8]) {
    c.case(&(0u8, b.to_vec()));
    let by = || Bytes::from(b.to_vec());
    let inp = || format!("bytes {}", hexenc(b));
    cmp(c, "Hash::from_bytes", obs_hash(|| Hash::from_bytes(by())), want_hash(Some(b)), &inp);
    cmp(c, "Address::from_bytes", obs_addr(|| Address::from_bytes(by())), want_addr(Some(b), 0), &inp);
    cmp(c, "UserAddress::from_bytes", obs_user(|| UserAddress::from_bytes(by())), want_addr(Some(b), 1), &inp);
    cmp(c, "ContractAddress::from_bytes", obs_con(|| ContractAddress::from_bytes(by())), want_addr(Some(b), 2), &inp);
}

fn text(c: &mut Ctx, s: &str) {
    c.case(&(1u8, s.to_owned()));
    let d = hexdec(strip(s));
    let d = d.as_ref().map(|v| &v[..]);
    let inp = || format!("string {:?}", s);
    cmp(c, "Hash::from_hex", obs_hash(|| Hash::from_hex(s)), want_hash(d), &inp);
    cmp(c, "Address::from_hex", obs_addr(|| Address::from_hex(s)), want_addr(d, 0), &inp);
    cmp(c, "UserAddress::from_hex", obs_user(|| UserAddress::from_hex(s)), want_addr(d, 1), &inp);
    cmp(c, "ContractAddress::from_hex", obs_con(|| ContractAddress::from_hex(s)), want_addr(d, 2), &inp);
}

fn derived(c: &mut Ctx) {
    let n = c.rng.below(70);
    let code = c.rng.bytes(n);
    let nonce = c.rng.edgy();
    c.case(&(2u8, code.clone(), nonce));
    let mut pre = code.clone();
    pre.extend_from_slice(&nonce.to_be_bytes());
    for (t, m) in &[(ContractType::Asset, 0x20u8), (ContractType::App, 0x21), (ContractType::Library, 0x22), (ContractType::Native, 0x23)] {
        let mut w = vec![*m];
        w.extend_from_slice(&keccak(&pre)[..20]);
        cmp(
            c,
            "ContractAddress::from_code",
            obs_con(|| ContractAddress::from_code(Bytes::from(code.clone()), nonce, t.clone())),
            Ok(Some((w.clone(), hexenc(&w), Some(t.clone())))),
            &|| format!("code {} nonce {} type {:?}", hexenc(&code), nonce, t),
        );
    }
    let mut w = vec![0x10];
    w.extend_from_slice(&keccak(&code)[..20]);
    cmp(
        c,
        "UserAddress::from_pubkey_bytes",
        obs_user(|| UserAddress::from_pubkey_bytes(Bytes::from(code.clone()))),
        Ok(Some((w.clone(), hexenc(&w), None))),
        &|| format!("pubkey {}", hexenc(&code)),
    );
    let k = keccak(&code);
    cmp(
        c,
        "Hash::digest",
        obs_hash(|| Ok(Hash::digest(Bytes::from(code.clone())))),
        Ok(Some((k.clone(), hexenc(&k), None))),
        &|| format!("bytes {}", hexenc(&code)),
    );
}

fn main() {
    let mut c = Ctx::from_args();
    c.rule = "every length 0..70 and every first byte of 21- and 32-byte strings, then random byte strings, hex texts (valid, prefixed, mutated, multi-byte) and derivations; a case is one distinct input, judged against the reference parser".into();
    let e = keccak(&[0x80]);
    cmp(&mut c, "Hash::from_empty", obs_hash(|| Ok(Hash::from_empty())), Ok(Some((e.clone(), hexenc(&e), None))), &|| "from_empty".into());
    cmp(&mut c, "Hash::default", obs_hash(|| Ok(Hash::default())), Ok(Some((e.clone(), hexenc(&e), None))), &|| "default".into());
    for len in 0..70usize {
        for m in &[0u8, 0x10, 0x20, 0x21, 0x22, 0x23, 0x24, 0xff] {
            let mut b = c.rng.bytes(len);
            if len > 0 {
                b[0] = *m;
            }
            one(&mut c, &b);
            let h = hexenc(&b);
            text(&mut c, &h);
            text(&mut c, &format!("0x{}", h));
        }
    }
    for m in 0..=255u8 {
        for len in &[20usize, 21, 22, 32] {
            let mut b = c.rng.bytes(*len);
            b[0] = m;
            one(&mut c, &b);
            text(&mut c, &format!("0x{}", hexenc(&b)));
        }
    }
    c.sample(|| "Hash::from_bytes over 32 bytes, Address::from_hex over 0x10.. (21 bytes)".into());
    while c.go(1.0) {
        let n = *c.rng.pick(&[0usize, 1, 20, 21, 21, 21, 22, 31, 32, 32, 33, 42, 64]);
        let mut b = c.rng.bytes(n);
        if n > 0 && c.rng.chance(2, 3) {
            b[0] = *c.rng.pick(&[0x10, 0x20, 0x21, 0x22, 0x23, 0x11, 0x1f, 0x30, 0x12]);
        }
        one(&mut c, &b);
        let mut h = hexenc(&b);
        if c.rng.chance(1, 3) {
            h = h.to_uppercase();
        }
        match c.rng.below(8) {
            0 => h = format!("0x{}", h),
            1 => h = format!("0X{}", h),
            2 => h = format!("0x0x{}", h),
            3 => h = format!(" {}", h),
            4 => {
                let mut v: Vec<char> = h.chars().collect();
                if !v.is_empty() {
                    let i = c.rng.below(v.len());
                    v[i] = *c.rng.pick(&['g', 'x', ' ', '\u{0}', '\u{e9}', '\u{4e2d}', '\n', '-', 'Z', '/', ':', '@', '`', 'G']);
                }
                h = v.into_iter().collect();
            }
            5 => {
                h.pop();
            }
            6 => h = format!("0x{}0", h),
            _ => {}
        }
        text(&mut c, &h);
        derived(&mut c);
        c.sample(|| format!("text {:?}", h));
    }
    c.finish();
}
