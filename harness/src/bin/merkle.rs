// C17: merkle roots and proofs against an independent computation.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports)]
include!(concat!(env!("OUT_DIR"), "/merkle.rs"));

#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::vxh::{guard, Ctx, Rng};
    use super::Merkle;
    use bytes::Bytes;
    use protocol::types::Hash;

    type Res = Result<(), (String, String)>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    fn up(l: &Hash, r: &Hash) -> Hash {
        let mut v = l.as_bytes().to_vec();
        v.extend(r.as_bytes().to_vec());
        Hash::digest(Bytes::from(v))
    }

    // The root, top down: node j of 2n-1 stands above 2j+1 and 2j+2; the last n are the list.
    fn node(s: &[Hash], j: usize) -> Hash {
        if j + 1 >= s.len() {
            s[j + 1 - s.len()].clone()
        } else {
            up(&node(s, 2 * j + 1), &node(s, 2 * j + 2))
        }
    }

    fn show(s: &[Hash]) -> String {
        format!("{} hashes [{}]", s.len(), s.iter().map(|h| h.as_hex()[..8].to_owned()).collect::<Vec<_>>().join(" "))
    }

    fn round(s: &[Hash], r: &mut Rng) -> Res {
        let n = s.len();
        let m = Merkle::from_hashes(s.to_vec());
        let root = m.get_root_hash();
        let want = if n == 0 { None } else { Some(node(s, 0)) };
        if root != want {
            return f("root", format!("{}: root {:?}, computed {:?}", show(s), root, want));
        }
        if Merkle::from_hashes(s.to_vec()).get_root_hash() != root {
            return f("root again", show(s));
        }
        for i in 0..n + 3 {
            let p = m.get_proof_by_input_index(i);
            match p {
                None => {
                    if i < n {
                        return f("no proof", format!("{}: position {}", show(s), i));
                    }
                }
                Some(p) => {
                    if i >= n {
                        return f("proof out of range", format!("{}: position {} has a proof", show(s), i));
                    }
                    let mut h = s[i].clone();
                    for q in p.iter() {
                        h = if q.is_right { up(&h, &q.hash) } else { up(&q.hash, &h) };
                    }
                    if Some(h) != root {
                        return f("proof", format!("{}: the proof of position {} does not recompute the root", show(s), i));
                    }
                }
            }
        }
        for i in &[usize::max_value(), usize::max_value() / 2, 1 << 32] {
            if m.get_proof_by_input_index(*i).is_some() {
                return f("proof out of range", format!("{}: position {} has a proof", show(s), i));
            }
        }
        if n > 0 {
            let i = r.below(n);
            let mut t = s.to_vec();
            let old = t[i].as_bytes().to_vec();
            let mut b = old.clone();
            let k = r.below(32);
            b[k] ^= 1 << r.below(8);
            t[i] = Hash::from_bytes(Bytes::from(b)).unwrap();
            if Merkle::from_hashes(t.clone()).get_root_hash() == root {
                return f("root unchanged", format!("{}: element {} changed, the root did not", show(s), i));
            }
            if n > 1 {
                let (i, j) = (r.below(n), r.below(n));
                let mut t = s.to_vec();
                t.swap(i, j);
                if t != s && Merkle::from_hashes(t).get_root_hash() == root {
                    return f("root unchanged", format!("{}: elements {} and {} swapped, the root did not change", show(s), i, j));
                }
            }
        }
        Ok(())
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        c.rule = "distinct generated lists of hashes".into();
        let mut n = 0;
        while c.go(1.0) {
            let mut r = Rng::new(c.rng.u64());
            // Every length up to 70 first, then random ones.
            let len = if n < 71 { n } else if r.chance(1, 50) { r.below(600) } else { r.below(40) };
            n += 1;
            let few = r.chance(1, 4);
            let s: Vec<Hash> = (0..len)
                .map(|_| if few { Hash::digest(Bytes::from(vec![r.below(3) as u8])) } else { Hash::digest(Bytes::from(r.bytes(4))) })
                .collect();
            c.case(&show(&s));
            match guard(|| round(&s, &mut r.clone())) {
                Ok(Ok(())) => {}
                Ok(Err((k, w))) => c.fail(&k, "merkle root or proof is wrong", w),
                Err(p) => c.fail("panic", "merkle panicked", format!("{}: {}", show(&s), p)),
            }
            c.sample(|| show(&s));
        }
        c.finish()
    }
}
