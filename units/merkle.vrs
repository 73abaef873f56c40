//@include types.vrs assume
//@method extend_from_slice => vx_extend
verus! {

pub trait VxExtend {
    spec fn xv(&self) -> Seq<u8>;

    fn vx_extend<B: VxBytes>(&mut self, b: B)
        ensures
            final(self).xv() == old(self).xv() + b.vb(),
    ;
}

impl VxExtend for Vec<u8> {
    open spec fn xv(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_extend<B: VxBytes>(&mut self, b: B) {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ static_merkle_tree, by contract
pub struct TreeProofNode<T> {
    pub is_right: bool,
    pub hash: T,
}

pub struct TreeProof<T>(pub Vec<TreeProofNode<T>>);

/// A complete binary tree in an array: the inputs are its tail, node j stands above 2j+1 and 2j+2.
pub struct Tree<T> {
    pub n: Ghost<nat>,
    pub t: Ghost<Seq<T>>,
}

/// The other child of the same parent.
pub open spec fn sib(j: int) -> int {
    if j % 2 == 1 {
        j + 1
    } else {
        j - 1
    }
}

/// The siblings met on the way from node j to the root.
pub open spec fn path(j: int) -> Seq<int>
    decreases j,
{
    if j <= 0 {
        Seq::empty()
    } else {
        seq![sib(j)] + path((j - 1) / 2)
    }
}

/// In a tree of 2n-1 nodes, the siblings of a node are nodes.
pub proof fn lemma_path_in(j: int, n: int, k: int)
    requires
        0 <= j < 2 * n - 1,
        0 <= k < path(j).len(),
    ensures
        0 < path(j)[k] < 2 * n - 1,
    decreases j,
{
    if j > 0 && k > 0 {
        let p = path((j - 1) / 2);
        assert(path(j) == seq![sib(j)] + p);
        assert(path(j)[k] == p[k - 1]);
        lemma_path_in((j - 1) / 2, n, k - 1);
    }
}

impl<T> Tree<T> {
    pub open spec fn twf(&self) -> bool {
        self.t@.len() == (if self.n@ == 0 { 0 } else { 2 * self.n@ - 1 })
    }

    #[verifier::external_body]
    pub fn from_hashes<M: Fn(&T, &T) -> T>(input: Vec<T>, merge: M) -> (r: Tree<T>)
        requires
            forall|a: &T, b: &T| call_requires(merge, (a, b)),
        ensures
            r.n@ == input@.len(),
            r.twf(),
            forall|i: int| 0 <= i < input@.len() ==> r.t@[input@.len() - 1 + i] == #[trigger] input@[i],
            forall|j: int| 0 <= j < input@.len() - 1 ==> call_ensures(merge, (&r.t@[2 * j + 1], &r.t@[2 * j + 2]), #[trigger] r.t@[j]),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_root_hash(&self) -> (r: Option<&T>)
        ensures
            self.t@.len() == 0 ==> r is None,
            self.t@.len() > 0 ==> r == Some(&self.t@[0]),
    {
        unimplemented!()
    }

    /// As in the crate: position 0 of an empty list has an (empty) proof.
    #[verifier::external_body]
    pub fn get_proof_by_input_index(&self, input_index: usize) -> (r: Option<TreeProof<T>>)
        requires
            self.twf(),
        ensures
            r is Some <==> (input_index < self.n@ || (input_index == 0 && self.n@ == 0)),
            r is Some && self.n@ == 0 ==> (r->0).0@.len() == 0,
            r is Some && self.n@ > 0 ==> {
                let p = path(self.n@ - 1 + input_index);
                &&& (r->0).0@.len() == p.len()
                &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] (r->0).0@[k]).is_right == (p[k] % 2 == 0) && (r->0).0@[k].hash == self.t@[p[k]]
            },
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ common/merkle/src/lib.rs
//@item common/merkle/src/lib.rs struct ProofNode
//@item common/merkle/src/lib.rs struct Merkle
/// The hash with the given bytes.
pub open spec fn hash_of(s: Seq<u8>) -> Hash {
    choose|h: Hash| h@ == s
}

/// Every 32 bytes are an array.
pub axiom fn arr32(s: Seq<u8>) -> (a: [u8; 32])
    requires
        s.len() == 32,
    ensures
        a@ == s,
;

pub proof fn lemma_hash_of(s: Seq<u8>)
    requires
        s.len() == 32,
    ensures
        hash_of(s)@ == s,
{
    let h = Hash(arr32(s));
    assert(h@ == s);
}

pub proof fn lemma_hashes()
    ensures
        forall|h: Hash| hash_of(#[trigger] h@) == h,
        forall|h: Hash| (#[trigger] h@).len() == 32,
{
    assert forall|h: Hash| hash_of(#[trigger] h@) == h by {
        let g = hash_of(h@);
        assert(g@ == h@);
        assert(g.0@ =~= h.0@);
    }
}

pub proof fn lemma_merged(l: Hash, r: Hash)
    ensures
        merged(l, r)@ == keccak(l@ + r@),
{
    lemma_hash_of(keccak(l@ + r@));
}

/// What stands above two hashes.
pub open spec fn merged(l: Hash, r: Hash) -> Hash {
    hash_of(keccak(l@ + r@))
}

/// Node j of the tree over a list.
pub open spec fn node(s: Seq<Hash>, j: int) -> Hash
    decreases 2 * s.len() - j,
{
    if j < 0 || j >= s.len() - 1 {
        s[j - (s.len() - 1)]
    } else {
        merged(node(s, 2 * j + 1), node(s, 2 * j + 2))
    }
}

/// The root of a list.
pub open spec fn root(s: Seq<Hash>) -> Option<Hash> {
    if s.len() == 0 {
        None
    } else {
        Some(node(s, 0))
    }
}

pub open spec fn copied(v: Seq<ProofNode>, s: Seq<TreeProofNode<Hash>>, n: int) -> bool {
    &&& v.len() == n
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] v[k]).is_right == s[k].is_right && v[k].hash == s[k].hash
}

/// What the proof of position i consists of.
pub open spec fn proof_of(s: Seq<Hash>, i: int) -> Option<Seq<ProofNode>> {
    if 0 <= i < s.len() {
        Some(path(s.len() - 1 + i).map_values(|k: int| ProofNode { is_right: k % 2 == 0, hash: node(s, k) }))
    } else {
        None
    }
}

impl Merkle {
    /// The tree of list `s`.
    pub open spec fn of(&self, s: Seq<Hash>) -> bool {
        &&& self.tree.n@ == s.len()
        &&& self.tree.twf()
        &&& forall|j: int| 0 <= j < self.tree.t@.len() ==> #[trigger] self.tree.t@[j] == node(s, j)
    }

//@fn common/merkle/src/lib.rs Merkle::from_hashes key Merkle::from_hashes
//@. ensures
        r.of(hashes@),
//@. at start
        let ghost input = hashes@;
        proof {
            lemma_hashes();
        }
//@. at after:from_hashes:0
        proof {
            assert forall|j: int| 0 <= j < input.len() - 1 implies #[trigger] tree.t@[j] == merged(tree.t@[2 * j + 1], tree.t@[2 * j + 2]) by {
                assert(call_ensures(merge, (&tree.t@[2 * j + 1], &tree.t@[2 * j + 2]), tree.t@[j]));
            }
            assert forall|j: int| 0 <= j < tree.t@.len() implies #[trigger] tree.t@[j] == node(input, j) by {
                lemma_nodes(tree, input, j);
            }
        }
//@end
//@fn common/merkle/src/lib.rs Merkle::get_root_hash key Merkle::get_root_hash
//@. ensures
        forall|s: Seq<Hash>| #[trigger] self.of(s) ==> r == root(s),
//@end
//@fn common/merkle/src/lib.rs Merkle::get_proof_by_input_index key Merkle::get_proof_by_input_index
//@. requires
        self.tree.twf(),
//@. ensures
        forall|s: Seq<Hash>| #[trigger] self.of(s) ==> match proof_of(s, input_index as int) {
            Some(p) => r is Some && r->0@ =~= p,
            None => r is None,
        },
//@. at start
        proof {
            let j = self.tree.n@ as int - 1 + input_index;
            let want = path(j).map_values(|k: int| ProofNode { is_right: k % 2 == 0, hash: self.tree.t@[k] });
            assert forall|s: Seq<Hash>| #[trigger] self.of(s) && input_index < self.tree.n@ implies proof_of(s, input_index as int) == Some(want) by {
                assert forall|k: int| 0 <= k < path(j).len() implies 0 < #[trigger] path(j)[k] < self.tree.t@.len() by {
                    lemma_path_in(j, self.tree.n@ as int, k);
                }
                assert(proof_of(s, input_index as int)->0 =~= want);
            }
        }
//@. loop 0
        invariant
            __it0.s@ == proof.0@,
            __it0.p@ <= __it0.s@.len(),
            copied(__v2@, __it0.s@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@end
}

//@fn common/merkle/src/lib.rs merge key merge
//@. ensures
        r == merged(*left, *right),
//@. at start
        proof {
            lemma_hashes();
        }
//@end

pub proof fn lemma_nodes(tree: Tree<Hash>, input: Seq<Hash>, j: int)
    requires
        0 <= j < tree.t@.len(),
        tree.n@ == input.len(),
        tree.twf(),
        forall|i: int| 0 <= i < input.len() ==> tree.t@[input.len() - 1 + i] == #[trigger] input[i],
        forall|j: int| 0 <= j < input.len() - 1 ==> #[trigger] tree.t@[j] == merged(tree.t@[2 * j + 1], tree.t@[2 * j + 2]),
    ensures
        tree.t@[j] == node(input, j),
    decreases 2 * input.len() - j,
{
    if j < input.len() - 1 {
        lemma_nodes(tree, input, 2 * j + 1);
        lemma_nodes(tree, input, 2 * j + 2);
    } else {
        let i = j - (input.len() - 1);
        assert(tree.t@[input.len() - 1 + i] == input[i]);
    }
}

// ------------------------------------------------------------------ C17
/// keccak-256 does not collide.
pub open spec fn keccak_free() -> bool {
    forall|a: Seq<u8>, b: Seq<u8>| #![trigger keccak(a), keccak(b)] keccak(a) == keccak(b) ==> a == b
}

/// Absent exactly for the empty list, the hash itself for a single one.
pub proof fn c17_small(s: Seq<Hash>)
    ensures
        root(s) is None <==> s.len() == 0,
        s.len() == 1 ==> root(s) == Some(s[0]),
{
}

pub proof fn lemma_same(a: Seq<Hash>, b: Seq<Hash>, j: int)
    requires
        keccak_free(),
        a.len() == b.len(),
        0 <= j < 2 * a.len() - 1,
        node(a, j) == node(b, j),
    ensures
        forall|k: int| 0 <= k < a.len() && #[trigger] below(j, a.len() - 1 + k) ==> a[k] == b[k],
    decreases 2 * a.len() - j,
{
    lemma_hashes();
    if j < a.len() - 1 {
        let (l1, r1) = (node(a, 2 * j + 1), node(a, 2 * j + 2));
        let (l2, r2) = (node(b, 2 * j + 1), node(b, 2 * j + 2));
        lemma_merged(l1, r1);
        lemma_merged(l2, r2);
        assert(keccak(l1@ + r1@) == keccak(l2@ + r2@));
        assert(l1@ + r1@ == l2@ + r2@);
        assert((l1@ + r1@).take(32) =~= l1@);
        assert((l2@ + r2@).take(32) =~= l2@);
        assert((l1@ + r1@).skip(32) =~= r1@);
        assert((l2@ + r2@).skip(32) =~= r2@);
        lemma_same(a, b, 2 * j + 1);
        lemma_same(a, b, 2 * j + 2);
        assert forall|k: int| 0 <= k < a.len() && #[trigger] below(j, a.len() - 1 + k) implies a[k] == b[k] by {
            lemma_below(j, a.len() - 1 + k);
        }
    } else {
        assert forall|k: int| 0 <= k < a.len() && #[trigger] below(j, a.len() - 1 + k) implies a[k] == b[k] by {
            if a.len() - 1 + k != j {
                lemma_below(j, a.len() - 1 + k);
                if below(2 * j + 1, a.len() - 1 + k) {
                    lemma_below_big(2 * j + 1, a.len() - 1 + k);
                } else {
                    lemma_below_big(2 * j + 2, a.len() - 1 + k);
                }
            }
        }
    }
}

/// Whether node x stands below (or is) node j.
pub open spec fn below(j: int, x: int) -> bool
    decreases x,
{
    x == j || (x > 0 && below(j, (x - 1) / 2))
}

pub proof fn lemma_below(j: int, x: int)
    requires
        0 <= j,
        below(j, x),
        x != j,
    ensures
        below(2 * j + 1, x) || below(2 * j + 2, x),
    decreases x,
{
    if (x - 1) / 2 != j {
        lemma_below(j, (x - 1) / 2);
    }
}

pub proof fn lemma_below_big(j: int, x: int)
    requires
        below(j, x),
    ensures
        x >= j || x < 0,
    decreases x,
{
    if x != j {
        lemma_below_big(j, (x - 1) / 2);
    }
}

pub proof fn lemma_below_root(x: int)
    requires
        x >= 0,
    ensures
        below(0, x),
    decreases x,
{
    if x > 0 {
        lemma_below_root((x - 1) / 2);
    }
}

/// Lists of the same length with the same root are the same: changing any element changes the root.
pub proof fn c17_binds(a: Seq<Hash>, b: Seq<Hash>)
    requires
        keccak_free(),
        a.len() == b.len(),
        root(a) == root(b),
    ensures
        a == b,
{
    if a.len() > 0 {
        lemma_same(a, b, 0);
        assert forall|k: int| 0 <= k < a.len() implies a[k] == b[k] by {
            lemma_below_root(a.len() - 1 + k);
        }
    }
    assert(a =~= b);
}

/// What a verifier makes of a leaf and its proof.
pub open spec fn fold_up(h: Hash, p: Seq<ProofNode>) -> Hash
    decreases p.len(),
{
    if p.len() == 0 {
        h
    } else {
        fold_up(if p[0].is_right { merged(h, p[0].hash) } else { merged(p[0].hash, h) }, p.skip(1))
    }
}

pub proof fn lemma_climb(s: Seq<Hash>, j: int)
    requires
        s.len() > 0,
        0 <= j < 2 * s.len() - 1,
    ensures
        fold_up(node(s, j), path(j).map_values(|k: int| ProofNode { is_right: k % 2 == 0, hash: node(s, k) })) == node(s, 0),
    decreases j,
{
    let f = |k: int| ProofNode { is_right: k % 2 == 0, hash: node(s, k) };
    if j > 0 {
        let up = (j - 1) / 2;
        lemma_climb(s, up);
        assert(path(j).map_values(f).skip(1) =~= path(up).map_values(f));
        assert(path(j).map_values(f)[0] == f(sib(j)));
        if j % 2 == 1 {
            assert(2 * up + 1 == j);
        } else {
            assert(2 * up + 2 == j);
        }
        assert(node(s, up) == merged(node(s, 2 * up + 1), node(s, 2 * up + 2)));
    }
}

/// The proof of every position in range recomputes the root from that leaf; other positions have none.
pub proof fn c17_proof(s: Seq<Hash>, i: int)
    ensures
        0 <= i < s.len() ==> proof_of(s, i) is Some && root(s) == Some(fold_up(s[i], proof_of(s, i)->0)),
        !(0 <= i < s.len()) ==> proof_of(s, i) is None,
{
    if 0 <= i < s.len() {
        lemma_climb(s, s.len() - 1 + i);
    }
}

/// A verifier accepts no other leaf with a given proof and root.
pub proof fn c17_leaf(a: Hash, b: Hash, p: Seq<ProofNode>)
    requires
        keccak_free(),
        fold_up(a, p) == fold_up(b, p),
    ensures
        a == b,
    decreases p.len(),
{
    lemma_hashes();
    if p.len() > 0 {
        let n = p[0].hash;
        let x = if p[0].is_right { merged(a, n) } else { merged(n, a) };
        let y = if p[0].is_right { merged(b, n) } else { merged(n, b) };
        lemma_merged(a, n);
        lemma_merged(b, n);
        lemma_merged(n, a);
        lemma_merged(n, b);
        c17_leaf(x, y, p.skip(1));
        if p[0].is_right {
            assert(a@ + n@ == b@ + n@);
            assert((a@ + n@).take(32) =~= a@);
            assert((b@ + n@).take(32) =~= b@);
        } else {
            assert(n@ + a@ == n@ + b@);
            assert((n@ + a@).skip(32) =~= a@);
            assert((n@ + b@).skip(32) =~= b@);
        }
        assert(a@ == b@);
    }
}

} // verus!
