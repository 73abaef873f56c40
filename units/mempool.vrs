//@include types.vrs assume
//@type "RwLock<HashMap<Hash,V>>" => "StoreCell<V>"
//@type "Map<$>" => "Pool<$>"
//@path RwLock::new => StoreCell::vx_new
//@path Clone::clone => vx_copy
//@cell *store hm
//@heapfn vx_new hm
//@index *.as_bytes()
//@heapfn self.map.insert hm
//@heapfn self.map.get hm
//@heapfn self.map.contains_key hm
//@heapfn self.map.deletes hm
//@heapfn self.map.remove hm
//@heapfn self.map.len hm
//@heapfn self.map.clear hm
//@heapfn self.contain hm
//@heapfn self.insert hm hp
//@heapfn self.len hm
//@heapfn AtomicBool::new hp
//@heapfn AtomicUsize::new hp
//@heapfn ArrayQueue::new hp
//@heapfn TxWrapper::new hp
//@heapfn TxWrapper::propose hp
//@heapfn Map::new hm
//@heapfn Pool::new hm
//@heapfn load hp
//@heapfn store hp
//@heapfn fetch_xor hp
//@heapfn fetch_add hp
//@heapfn fetch_sub hp
//@heapfn set_removed hp
//@heapfn is_removed hp
//@heapfn is_proposed hp
//@heapfn get_queue_role hp
//@heapfn switch_queue_role hp
//@heapfn process_omission_txs hp
//@heapfn *incumbent.push hp
//@heapfn *incumbent.pop hp
//@heapfn *incumbent.len hp
//@heapfn *candidate.push hp
//@heapfn *candidate.pop hp
//@heapfn *candidate.len hp
//@heapfn self.queue_0.push hp
//@heapfn self.queue_0.pop hp
//@heapfn self.queue_0.len hp
//@heapfn self.queue_1.push hp
//@heapfn self.queue_1.pop hp
//@heapfn self.queue_1.len hp
//@heapfn TxCache::new hm hp
//@heapfn self.tx_cache.check_reach_limit hm
//@heapfn self.tx_cache.check_exist hm
//@heapfn self.tx_cache.insert_new_tx hm hp
//@heapfn self.tx_cache.insert_propose_tx hm hp
//@heapfn self.tx_cache.package hm hp
//@heapfn self.tx_cache.flush hm hp
//@heapfn self.tx_cache.get hm
//@heapfn self.tx_cache.show_unknown hm
//@heapfn self.callback_cache.insert hc
//@heapfn self.callback_cache.get hc
//@heapfn self.callback_cache.clear hc
//@heapfn self.adapter.broadcast_tx ha
//@method to_string/0 => vx_err_text
//@path Map::new => Pool::new
verus! {

// ------------------------------------------------------------------ the locked buckets
/// RwLock<HashMap<Hash, V>>: which map it guards.
pub struct StoreCell<V> {
    pub i: Ghost<int>,
    pub ph: core::marker::PhantomData<V>,
}

/// The guarded maps, and how many times a lock was taken.
pub struct MapHeap<V> {
    pub x: Ghost<Map<int, HashMap<Hash, V>>>,
    pub n: Ghost<nat>,
}

impl<V> MapHeap<V> {
    pub open spec fn m(&self) -> Map<int, HashMap<Hash, V>> {
        self.x@
    }

    pub open spec fn locks(&self) -> nat {
        self.n@
    }
}

impl<V> StoreCell<V> {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    #[verifier::external_body]
    pub fn vx_new(x: HashMap<Hash, V>, h: &mut MapHeap<V>) -> (r: Self)
        ensures
            !old(h).m().contains_key(r.id()),
            final(h).m() == old(h).m().insert(r.id(), x),
            final(h).locks() == old(h).locks(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn read<'a>(&self, h: &'a mut MapHeap<V>) -> (r: &'a HashMap<Hash, V>)
        requires
            old(h).m().contains_key(self.id()),
        ensures
            *r == old(h).m()[self.id()],
            final(h).m() == old(h).m(),
            final(h).locks() == old(h).locks() + 1,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn write<'a>(&self, h: &'a mut MapHeap<V>) -> (r: &'a mut HashMap<Hash, V>)
        requires
            old(h).m().contains_key(self.id()),
        ensures
            *r == old(h).m()[self.id()],
            final(h).m() == old(h).m().insert(self.id(), *final(r)),
            final(h).locks() == old(h).locks() + 1,
    {
        unimplemented!()
    }
}

impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures
            r@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }
}

impl<K, V> VxIntoIter for HashMap<K, V> {
    type It = VxIter<(K, V)>;

    open spec fn into_rel(self, it: VxIter<(K, V)>) -> bool {
        map_seq_ok(self@, it.s@) && it.p@ == 0
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<(K, V)>) {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn vx_at(b: &Bytes, i: usize) -> (r: u8)
    requires
        i < b@.len(),
    ensures
        r == b@[i as int],
{
    unimplemented!()
}

/// Clone of a value without interior mutability, or of a shared pointer.
#[verifier::external_body]
pub fn vx_copy<T>(x: &T) -> (r: T)
    ensures
        r == *x,
{
    unimplemented!()
}

//@item core/mempool/src/map.rs struct Map as:Pool
//@item core/mempool/src/map.rs struct Bucket

pub open spec fn idx(k: Hash) -> int {
    (k@[0] >> 4) as int
}

pub proof fn lemma_idx(k: Hash)
    ensures
        0 <= idx(k) < 16,
{
    let b = k@[0];
    assert(b >> 4 < 16) by (bit_vector);
}

impl<V> Bucket<V> {
    pub open spec fn ok(&self, h: &MapHeap<V>) -> bool {
        h.m().contains_key(self.store.id())
    }

    pub open spec fn v(&self, h: &MapHeap<V>) -> Map<Hash, V> {
        h.m()[self.store.id()]@
    }

    /// Only this bucket may have changed.
    pub open spec fn only(&self, h0: &MapHeap<V>, h1: &MapHeap<V>) -> bool {
        &&& forall|i: int| #[trigger] h1.m().contains_key(i) <==> h0.m().contains_key(i)
        &&& forall|i: int| i != self.store.id() ==> #[trigger] h1.m()[i] == h0.m()[i]
    }
}

/// Everything in the first n of these buckets.
pub open spec fn upto<V>(b: Seq<Bucket<V>>, h: &MapHeap<V>, n: int) -> Map<Hash, V>
    decreases n,
{
    if n <= 0 {
        Map::empty()
    } else {
        upto(b, h, n - 1).union_prefer_right(b[n - 1].v(h))
    }
}

impl<V> Pool<V> {
    pub open spec fn ok(&self, h: &MapHeap<V>) -> bool {
        &&& self.buckets@.len() == 16
        &&& forall|i: int| 0 <= i < 16 ==> (#[trigger] self.buckets@[i]).ok(h)
        &&& forall|i: int, j: int| 0 <= i < j < 16 ==> (#[trigger] self.buckets@[i]).store.id() != (#[trigger] self.buckets@[j]).store.id()
        &&& forall|i: int, k: Hash| 0 <= i < 16 && #[trigger] self.buckets@[i].v(h).contains_key(k) ==> idx(k) == i
    }

    /// The content.
    pub open spec fn v(&self, h: &MapHeap<V>) -> Map<Hash, V> {
        upto(self.buckets@, h, 16)
    }
}

pub proof fn lemma_upto<V>(p: &Pool<V>, h: &MapHeap<V>, n: int)
    requires
        p.ok(h),
        0 <= n <= 16,
    ensures
        forall|k: Hash| #[trigger] upto(p.buckets@, h, n).contains_key(k) <==> idx(k) < n && p.buckets@[idx(k)].v(h).contains_key(k),
        forall|k: Hash| #[trigger] upto(p.buckets@, h, n).contains_key(k) ==> upto(p.buckets@, h, n)[k] == p.buckets@[idx(k)].v(h)[k],
    decreases n,
{
    assert forall|k: Hash| 0 <= #[trigger] idx(k) < 16 by {
        lemma_idx(k);
    }
    if n > 0 {
        lemma_upto(p, h, n - 1);
        let a = upto(p.buckets@, h, n - 1);
        let b = p.buckets@[n - 1].v(h);
        let u = upto(p.buckets@, h, n);
        assert forall|k: Hash| #[trigger] u.contains_key(k) <==> idx(k) < n && p.buckets@[idx(k)].v(h).contains_key(k) by {
            assert(u.contains_key(k) <==> a.contains_key(k) || b.contains_key(k));
        }
        assert forall|k: Hash| #[trigger] u.contains_key(k) implies u[k] == p.buckets@[idx(k)].v(h)[k] by {
            if b.contains_key(k) {
                assert(u[k] == b[k]);
            } else {
                assert(a.contains_key(k));
                assert(u[k] == a[k]);
            }
        }
    }
}

/// A bucket is the pool restricted to its keys.
pub proof fn lemma_pool<V>(p: &Pool<V>, h: &MapHeap<V>)
    requires
        p.ok(h),
    ensures
        forall|k: Hash| #[trigger] p.v(h).contains_key(k) <==> p.buckets@[idx(k)].v(h).contains_key(k),
        forall|k: Hash| #[trigger] p.v(h).contains_key(k) ==> p.v(h)[k] == p.buckets@[idx(k)].v(h)[k],
        forall|k: Hash| 0 <= #[trigger] idx(k) < 16,
{
    lemma_upto(p, h, 16);
    assert forall|k: Hash| 0 <= #[trigger] idx(k) < 16 by {
        lemma_idx(k);
    }
}

pub proof fn lemma_upto_len<V>(p: &Pool<V>, h: &MapHeap<V>, n: int)
    requires
        p.ok(h),
        0 <= n < 16,
    ensures
        upto(p.buckets@, h, n + 1).len() == upto(p.buckets@, h, n).len() + p.buckets@[n].v(h).len(),
{
    lemma_upto(p, h, n);
    lemma_upto(p, h, n + 1);
    let a = upto(p.buckets@, h, n);
    let b = p.buckets@[n].v(h);
    let u = upto(p.buckets@, h, n + 1);
    assert(u.dom() =~= a.dom() + b.dom());
    assert(a.dom().disjoint(b.dom())) by {
        assert forall|k: Hash| a.dom().contains(k) implies !b.dom().contains(k) by {
            assert(a.contains_key(k));
            if b.contains_key(k) {
                assert(p.buckets@[n].v(h).contains_key(k));
            }
        }
    }
    vstd::set_lib::lemma_set_disjoint_lens(a.dom(), b.dom());
}

pub proof fn lemma_upto_le<V>(p: &Pool<V>, h: &MapHeap<V>, n: int)
    requires
        p.ok(h),
        0 <= n <= 16,
    ensures
        upto(p.buckets@, h, n).len() <= p.v(h).len(),
    decreases 16 - n,
{
    if n < 16 {
        lemma_upto_len(p, h, n);
        lemma_upto_le(p, h, n + 1);
    }
}

/// m1 is m0 without these keys.
pub open spec fn is_rm<V>(m0: Map<Hash, V>, m1: Map<Hash, V>, ks: Seq<Hash>) -> bool {
    &&& forall|k: Hash| #[trigger] m1.contains_key(k) <==> m0.contains_key(k) && !ks.contains(k)
    &&& forall|k: Hash| #[trigger] m1.contains_key(k) ==> m1[k] == m0[k]
}

/// Entries of a table fit in memory.
pub axiom fn pool_fits<V>(p: &Pool<V>, h: &MapHeap<V>)
    ensures
        p.v(h).len() <= usize::MAX,
;

/// Changing one bucket changes the pool at its keys.
pub proof fn lemma_one<V>(p: &Pool<V>, h0: &MapHeap<V>, h1: &MapHeap<V>, i: int)
    requires
        p.ok(h0),
        0 <= i < 16,
        p.buckets@[i].only(h0, h1),
        forall|k: Hash| #[trigger] p.buckets@[i].v(h1).contains_key(k) ==> idx(k) == i,
    ensures
        p.ok(h1),
        forall|j: int| 0 <= j < 16 && j != i ==> (#[trigger] p.buckets@[j]).v(h1) == p.buckets@[j].v(h0),
        forall|k: Hash| idx(k) != i ==> (#[trigger] p.v(h1).contains_key(k) <==> p.v(h0).contains_key(k)),
        forall|k: Hash| idx(k) != i && #[trigger] p.v(h1).contains_key(k) ==> p.v(h1)[k] == p.v(h0)[k],
        forall|k: Hash| idx(k) == i ==> (#[trigger] p.v(h1).contains_key(k) <==> p.buckets@[i].v(h1).contains_key(k)),
        forall|k: Hash| idx(k) == i && #[trigger] p.v(h1).contains_key(k) ==> p.v(h1)[k] == p.buckets@[i].v(h1)[k],
{
    assert forall|j: int| 0 <= j < 16 implies (#[trigger] p.buckets@[j]).ok(h1) by {
        assert(p.buckets@[j].ok(h0));
        assert(h1.m().dom().contains(p.buckets@[j].store.id()));
    }
    assert forall|j: int| 0 <= j < 16 && j != i implies (#[trigger] p.buckets@[j]).v(h1) == p.buckets@[j].v(h0) by {
        if j < i {
            assert(p.buckets@[j].store.id() != p.buckets@[i].store.id());
        } else {
            assert(p.buckets@[i].store.id() != p.buckets@[j].store.id());
        }
    }
    assert forall|j: int, k: Hash| 0 <= j < 16 && #[trigger] p.buckets@[j].v(h1).contains_key(k) implies idx(k) == j by {
        if j != i {
            assert(p.buckets@[j].v(h0).contains_key(k));
        }
    }
    assert(p.ok(h1));
    lemma_pool(p, h0);
    lemma_pool(p, h1);
}

//@fn core/mempool/src/map.rs get_index
//@. ensures
        r == idx(*hash),
        r < 16,
//@. at start
        proof {
            lemma_idx(*hash);
            assert(forall|b: u8| b >> 4 == b / 16) by (bit_vector);
        }
//@end

impl<V> Bucket<V> {
//@fn core/mempool/src/map.rs Bucket::insert
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.only(old(hm), final(hm)),
        final(hm).locks() == old(hm).locks() + 1,
        self.v(old(hm)).contains_key(hash) ==> r is Some && self.v(final(hm)) == self.v(old(hm)),
        !self.v(old(hm)).contains_key(hash) ==> r is None && self.v(final(hm)) == self.v(old(hm)).insert(hash, value),
//@end
//@fn core/mempool/src/map.rs Bucket::contains_key
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r == self.v(old(hm)).contains_key(*tx_hash),
//@end
//@fn core/mempool/src/map.rs Bucket::get
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r is Some <==> self.v(old(hm)).contains_key(*tx_hash),
        r is Some ==> r->0 == self.v(old(hm))[*tx_hash],
//@end
//@fn core/mempool/src/map.rs Bucket::deletes
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.only(old(hm), final(hm)),
        is_rm(self.v(old(hm)), self.v(final(hm)), tx_hashes@),
//@. at start
        let ghost h0 = *hm;
        let ghost b = *self;
//@. loop 0
        invariant
            __it0.s@ == tx_hashes@,
            __it0.p@ <= __it0.s@.len(),
            is_rm(b.v(&h0), store@, tx_hashes@.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost t0 = __it0.s@.take(__it0.p@ as int);
            let ghost t1 = __it0.s@.take(__it0.p@ as int + 1);
            proof {
                assert(t1 =~= t0.push(__it0.s@[__it0.p@ as int]));
                lemma_push_contains(t0, __it0.s@[__it0.p@ as int]);
            }
//@. at loop:0:after
            proof {
                assert(tx_hashes@.take(tx_hashes@.len() as int) =~= tx_hashes@);
            }
//@end
//@fn core/mempool/src/map.rs Bucket::remove
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.only(old(hm), final(hm)),
        self.v(final(hm)) == self.v(old(hm)).remove(*tx_hash),
//@end
//@fn core/mempool/src/map.rs Bucket::len
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r == self.v(old(hm)).len(),
//@end
//@fn core/mempool/src/map.rs Bucket::clear
//@. params hm: &mut MapHeap<V>
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.only(old(hm), final(hm)),
        self.v(final(hm)) == Map::<Hash, V>::empty(),
//@end
}

pub proof fn lemma_push_contains(s: Seq<Hash>, x: Hash)
    ensures
        forall|k: Hash| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x,
{
    assert forall|k: Hash| #[trigger] s.push(x).contains(k) <==> s.contains(k) || k == x by {
        if s.contains(k) {
            let i = s.index_of(k);
            assert(s.push(x)[i] == k);
        }
        if k == x {
            assert(s.push(x)[s.len() as int] == k);
        }
        if s.push(x).contains(k) {
            let i = s.push(x).index_of(k);
            if i < s.len() {
                assert(s[i] == k);
            }
        }
    }
}

pub open spec fn fresh_buckets<V>(b: Seq<Bucket<V>>, h: &MapHeap<V>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).ok(h) && b[i].v(h) == Map::<Hash, V>::empty()
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).store.id() != (#[trigger] b[j]).store.id()
}

pub proof fn lemma_fresh<V>(b: Seq<Bucket<V>>, h: &MapHeap<V>, n: int)
    requires
        fresh_buckets(b, h),
        n <= b.len(),
    ensures
        upto(b, h, n) == Map::<Hash, V>::empty(),
    decreases n,
{
    if n > 0 {
        lemma_fresh(b, h, n - 1);
        assert(b[n - 1].v(h) == Map::<Hash, V>::empty());
        assert(upto(b, h, n) =~= Map::<Hash, V>::empty());
    }
}

/// Every hash is with the hashes of its bucket.
pub open spec fn grouped(h: Map<usize, Vec<Hash>>, ks: Seq<Hash>, n: int) -> bool {
    &&& forall|j: usize| #[trigger] h.contains_key(j) ==> j < 16
    &&& forall|j: usize, x: Hash| h.contains_key(j) && #[trigger] h[j]@.contains(x) ==> idx(x) == j && ks.contains(x)
    &&& forall|i: int| 0 <= i < n ==> h.contains_key(idx(#[trigger] ks[i]) as usize) && h[idx(ks[i]) as usize]@.contains(ks[i])
}

/// One of the first n groups holds this hash.
pub open spec fn gone(s: Seq<(usize, Vec<Hash>)>, n: int, k: Hash) -> bool {
    exists|i: int| 0 <= i < n && (#[trigger] s[i]).1@.contains(k)
}

impl<V> Pool<V> {
//@fn core/mempool/src/map.rs Map::new
//@. params hm: &mut MapHeap<V>
//@. ensures
        r.ok(final(hm)),
        r.v(final(hm)) == Map::<Hash, V>::empty(),
//@. loop 0
        invariant
            __it0.s@.len() == 16,
            __it0.p@ <= 16,
            buckets@.len() == __it0.p@,
            fresh_buckets::<V>(buckets@, hm),
        decreases 16 - __it0.p@,
//@. at end
        proof {
            lemma_fresh(__r.buckets@, hm, 16);
        }
//@end
//@fn core/mempool/src/map.rs Map::insert
//@. params hm: &mut MapHeap<V>
//@. heapfn *.insert hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.ok(final(hm)),
        final(hm).locks() == old(hm).locks() + 1,
        self.v(old(hm)).contains_key(tx_hash) ==> r is Some && self.v(final(hm)) == self.v(old(hm)),
        !self.v(old(hm)).contains_key(tx_hash) ==> r is None && self.v(final(hm)) == self.v(old(hm)).insert(tx_hash, value),
//@. at start
        let ghost h0 = *hm;
        let ghost k0 = tx_hash;
        let ghost v0 = value;
        proof {
            lemma_pool(self, hm);
        }
//@. at end
        proof {
            lemma_pool(self, &h0);
            lemma_one(self, &h0, hm, idx(k0));
            if self.v(&h0).contains_key(k0) {
                assert(self.v(hm) =~= self.v(&h0));
            } else {
                assert(self.v(hm) =~= self.v(&h0).insert(k0, v0));
            }
        }
//@end
//@fn core/mempool/src/map.rs Map::contains_key
//@. params hm: &mut MapHeap<V>
//@. heapfn *.contains_key hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r == self.v(old(hm)).contains_key(*tx_hash),
//@. at start
        let ghost h0 = *hm;
        let ghost k0 = *tx_hash;
        proof {
            lemma_pool(self, hm);
        }
//@. at end
        proof {
            lemma_pool(self, &h0);
            assert(self.v(&h0).contains_key(k0) <==> self.buckets@[idx(k0)].v(&h0).contains_key(k0));
            assert(self.v(&h0).contains_key(k0) ==> self.v(&h0)[k0] == self.buckets@[idx(k0)].v(&h0)[k0]);
        }
//@end
//@fn core/mempool/src/map.rs Map::get
//@. params hm: &mut MapHeap<V>
//@. heapfn *.get hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r is Some <==> self.v(old(hm)).contains_key(*tx_hash),
        r is Some ==> r->0 == self.v(old(hm))[*tx_hash],
//@. at start
        let ghost h0 = *hm;
        let ghost k0 = *tx_hash;
        proof {
            lemma_pool(self, hm);
        }
//@. at end
        proof {
            lemma_pool(self, &h0);
            assert(self.v(&h0).contains_key(k0) <==> self.buckets@[idx(k0)].v(&h0).contains_key(k0));
            assert(self.v(&h0).contains_key(k0) ==> self.v(&h0)[k0] == self.buckets@[idx(k0)].v(&h0)[k0]);
        }
//@end
//@fn core/mempool/src/map.rs Map::deletes
//@. params hm: &mut MapHeap<V>
//@. heapfn *.deletes hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.ok(final(hm)),
        is_rm(self.v(old(hm)), self.v(final(hm)), tx_hashes@),
//@. at start
        let ghost h0 = *hm;
        let ghost ks = tx_hashes@;
        let ghost mut gm: Map<usize, Vec<Hash>> = Map::empty();
        proof {
            lemma_pool(self, hm);
        }
//@. loop 0
        invariant
            __it0.s@ == ks,
            __it0.p@ <= __it0.s@.len(),
            *hm == h0,
            grouped(h@, ks, __it0.p@ as int),
            forall|k: Hash| 0 <= #[trigger] idx(k) < 16,
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost g0 = h@;
            let ghost n0 = __it0.p@ as int;
            let ghost x0 = __it0.s@[n0];
//@. at loop:0:end
            proof {
                let j = idx(x0) as usize;
                assert(h@.contains_key(j));
                let before: Seq<Hash> = if g0.contains_key(j) { g0[j]@ } else { Seq::empty() };
                assert(h@[j]@ == before.push(x0));
                lemma_push_contains(before, x0);
                assert(ks[n0] == x0);
                assert(ks.contains(x0));
                assert forall|i: int| 0 <= i < n0 + 1 implies h@.contains_key(idx(#[trigger] ks[i]) as usize) && h@[idx(ks[i]) as usize]@.contains(ks[i]) by {
                    if i < n0 {
                        assert(g0.contains_key(idx(ks[i]) as usize));
                    }
                }
                assert forall|q: usize, x: Hash| h@.contains_key(q) && #[trigger] h@[q]@.contains(x) implies idx(x) == q && ks.contains(x) by {
                    if q != j {
                        assert(g0.contains_key(q));
                        assert(g0[q]@.contains(x));
                    } else if x != x0 {
                        assert(g0.contains_key(q));
                        assert(g0[q]@.contains(x));
                    }
                }
            }
//@. at loop:0:after
            proof {
                gm = h@;
            }
//@. loop 1
        invariant
            __it1.p@ <= __it1.s@.len(),
            map_seq_ok(gm, __it1.s@),
            grouped(gm, ks, ks.len() as int),
            self.ok(&h0),
            self.ok(hm),
            self.buckets@.len() == 16,
            forall|k: Hash| #[trigger] self.v(hm).contains_key(k) <==> self.v(&h0).contains_key(k) && !gone(__it1.s@, __it1.p@ as int, k),
            forall|k: Hash| #[trigger] self.v(hm).contains_key(k) ==> self.v(hm)[k] == self.v(&h0)[k],
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
            let ghost s1 = __it1.s@;
            let ghost n1 = __it1.p@ as int;
            let ghost h1 = *hm;
            proof {
                assert(gm.contains_key(s1[n1].0));
                lemma_pool(self, hm);
            }
//@. at loop:1:end
            proof {
                let b = s1[n1].0 as int;
                let dl = s1[n1].1@;
                assert(self.buckets@[b].only(&h1, hm));
                assert forall|k: Hash| #[trigger] self.buckets@[b].v(hm).contains_key(k) implies idx(k) == b by {
                    assert(self.buckets@[b].v(&h1).contains_key(k));
                }
                lemma_one(self, &h1, hm, b);
                assert forall|k: Hash| #[trigger] gone(s1, n1 + 1, k) <==> gone(s1, n1, k) || dl.contains(k) by {
                    if dl.contains(k) {
                        assert(s1[n1].1@.contains(k));
                    }
                    if gone(s1, n1, k) {
                        let i = choose|i: int| 0 <= i < n1 && (#[trigger] s1[i]).1@.contains(k);
                        assert(s1[i].1@.contains(k));
                    }
                }
                assert forall|k: Hash| #[trigger] dl.contains(k) implies idx(k) == b by {
                    assert(gm[s1[n1].0]@.contains(k));
                }
                assert forall|k: Hash| #[trigger] self.v(hm).contains_key(k) <==> self.v(&h0).contains_key(k) && !gone(s1, n1 + 1, k) by {
                    if idx(k) == b {
                        assert(self.buckets@[b].v(hm).contains_key(k) <==> self.buckets@[b].v(&h1).contains_key(k) && !dl.contains(k));
                        assert(self.v(&h1).contains_key(k) <==> self.buckets@[b].v(&h1).contains_key(k));
                    }
                }
                assert forall|k: Hash| #[trigger] self.v(hm).contains_key(k) implies self.v(hm)[k] == self.v(&h0)[k] by {
                    assert(self.v(&h1).contains_key(k));
                    if idx(k) == b {
                        assert(self.buckets@[b].v(hm).contains_key(k));
                    }
                }
            }
//@. at loop:1:after
            proof {
                let s1 = __it1.s@;
                let n1 = s1.len() as int;
                assert forall|k: Hash| #[trigger] gone(s1, n1, k) <==> ks.contains(k) by {
                    if ks.contains(k) {
                        let i = ks.index_of(k);
                        assert(ks[i] == k);
                        let j = idx(k) as usize;
                        assert(gm.contains_key(j) && gm[j]@.contains(k));
                        let q = choose|q: int| 0 <= q < s1.len() && (#[trigger] s1[q]).0 == j;
                        assert(s1[q].1@.contains(k));
                    }
                    if gone(s1, n1, k) {
                        let i = choose|i: int| 0 <= i < n1 && (#[trigger] s1[i]).1@.contains(k);
                        assert(gm.contains_key(s1[i].0));
                        assert(gm[s1[i].0]@.contains(k));
                    }
                }
            }
//@end
//@fn core/mempool/src/map.rs Map::remove
//@. params hm: &mut MapHeap<V>
//@. heapfn *.remove hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.ok(final(hm)),
        self.v(final(hm)) == self.v(old(hm)).remove(*tx_hash),
//@. at start
        let ghost h0 = *hm;
        let ghost k0 = *tx_hash;
        proof {
            lemma_pool(self, hm);
        }
//@. at end
        proof {
            lemma_pool(self, &h0);
            lemma_one(self, &h0, hm, idx(k0));
            assert(self.v(hm) =~= self.v(&h0).remove(k0));
        }
//@end
//@fn core/mempool/src/map.rs Map::len
//@. params hm: &mut MapHeap<V>
//@. heapfn *.len hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r == self.v(old(hm)).len(),
//@. at start
        let ghost h0 = *hm;
        proof {
            pool_fits(self, hm);
        }
//@. loop 0
        invariant
            __it0.s@ == self.buckets@,
            __it0.p@ <= __it0.s@.len(),
            self.ok(&h0),
            hm.m() == h0.m(),
            len == upto(self.buckets@, &h0, __it0.p@ as int).len(),
            self.v(&h0).len() <= usize::MAX,
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                lemma_upto_len(self, &h0, __it0.p@ as int);
                lemma_upto_le(self, &h0, __it0.p@ as int + 1);
                assert(self.buckets@[__it0.p@ as int].ok(&h0));
            }
//@end
//@fn core/mempool/src/map.rs Map::clear
//@. params hm: &mut MapHeap<V>
//@. heapfn *.clear hm
//@. requires
        self.ok(old(hm)),
//@. ensures
        self.ok(final(hm)),
        self.v(final(hm)) == Map::<Hash, V>::empty(),
//@. loop 0
        invariant
            __it0.s@ == self.buckets@,
            __it0.p@ <= __it0.s@.len(),
            self.ok(hm),
            forall|i: int| 0 <= i < __it0.p@ ==> (#[trigger] self.buckets@[i]).v(hm) == Map::<Hash, V>::empty(),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost h1 = *hm;
            let ghost n1 = __it0.p@ as int;
            proof {
                assert(self.buckets@[n1].ok(hm));
            }
//@. at loop:0:end
            proof {
                lemma_one(self, &h1, hm, n1);
            }
//@. at end
            proof {
                lemma_fresh(self.buckets@, hm, 16);
            }
//@end
//@fn core/mempool/src/map.rs Map::get_bucket
//@. requires
        self.buckets@.len() == 16,
//@. ensures
        *r == self.buckets@[idx(*hash)],
//@end
}

// ------------------------------------------------------------------ atomics and queues
pub enum Ordering {
    Relaxed,
    Release,
    Acquire,
    AcqRel,
    SeqCst,
}

pub struct AtomicBool {
    pub i: Ghost<int>,
}

pub struct AtomicUsize {
    pub i: Ghost<int>,
}

/// crossbeam_queue::ArrayQueue: a bounded first-in first-out queue.
pub struct ArrayQueue<T> {
    pub i: Ghost<int>,
    pub c: Ghost<nat>,
    pub ph: core::marker::PhantomData<T>,
}

pub struct PushError<T>(pub T);

pub struct PopError;

/// The flags, the counters, the queues, and how many pushes were made while a counter was raised.
pub struct PoolHeap {
    pub b: Ghost<Map<int, bool>>,
    pub n: Ghost<Map<int, int>>,
    pub q: Ghost<Map<int, Seq<TxWrapper>>>,
    pub g: Ghost<nat>,
}

impl PoolHeap {
    pub open spec fn b(&self) -> Map<int, bool> {
        self.b@
    }

    pub open spec fn n(&self) -> Map<int, int> {
        self.n@
    }

    pub open spec fn q(&self) -> Map<int, Seq<TxWrapper>> {
        self.q@
    }

    pub open spec fn guarded(&self) -> nat {
        self.g@
    }

    pub open spec fn raised(&self) -> bool {
        exists|i: int| self.n().contains_key(i) && #[trigger] self.n()[i] > 0
    }
}

impl AtomicBool {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    #[verifier::external_body]
    pub fn new(v: bool, h: &mut PoolHeap) -> (r: Self)
        ensures
            !old(h).b().contains_key(r.id()),
            final(h).b() == old(h).b().insert(r.id(), v),
            final(h).n() == old(h).n(),
            final(h).q() == old(h).q(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn load(&self, o: Ordering, h: &PoolHeap) -> (r: bool)
        requires
            h.b().contains_key(self.id()),
        ensures
            r == h.b()[self.id()],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering, h: &mut PoolHeap)
        requires
            old(h).b().contains_key(self.id()),
        ensures
            final(h).b() == old(h).b().insert(self.id(), v),
            final(h).n() == old(h).n(),
            final(h).q() == old(h).q(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn fetch_xor(&self, v: bool, o: Ordering, h: &mut PoolHeap) -> (r: bool)
        requires
            old(h).b().contains_key(self.id()),
        ensures
            r == old(h).b()[self.id()],
            final(h).b() == old(h).b().insert(self.id(), r != v),
            final(h).n() == old(h).n(),
            final(h).q() == old(h).q(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }
}

impl AtomicUsize {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    #[verifier::external_body]
    pub fn new(v: usize, h: &mut PoolHeap) -> (r: Self)
        ensures
            !old(h).n().contains_key(r.id()),
            final(h).n() == old(h).n().insert(r.id(), v as int),
            final(h).b() == old(h).b(),
            final(h).q() == old(h).q(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn load(&self, o: Ordering, h: &PoolHeap) -> (r: usize)
        requires
            h.n().contains_key(self.id()),
        ensures
            r == h.n()[self.id()],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn fetch_add(&self, v: usize, o: Ordering, h: &mut PoolHeap) -> (r: usize)
        requires
            old(h).n().contains_key(self.id()),
            old(h).n()[self.id()] + v <= usize::MAX,
        ensures
            r == old(h).n()[self.id()],
            final(h).n() == old(h).n().insert(self.id(), r + v),
            final(h).b() == old(h).b(),
            final(h).q() == old(h).q(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn fetch_sub(&self, v: usize, o: Ordering, h: &mut PoolHeap) -> (r: usize)
        requires
            old(h).n().contains_key(self.id()),
            old(h).n()[self.id()] >= v,
        ensures
            r == old(h).n()[self.id()],
            final(h).n() == old(h).n().insert(self.id(), r - v),
            final(h).b() == old(h).b(),
            final(h).q() == old(h).q(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }
}

impl ArrayQueue<TxWrapper> {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    pub open spec fn cap(&self) -> nat {
        self.c@
    }

    #[verifier::external_body]
    pub fn new(cap: usize, h: &mut PoolHeap) -> (r: Self)
        requires
            cap > 0,
        ensures
            r.cap() == cap,
            !old(h).q().contains_key(r.id()),
            final(h).q() == old(h).q().insert(r.id(), Seq::empty()),
            final(h).b() == old(h).b(),
            final(h).n() == old(h).n(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn push(&self, x: TxWrapper, h: &mut PoolHeap) -> (r: Result<(), PushError<TxWrapper>>)
        requires
            old(h).q().contains_key(self.id()),
        ensures
            r is Ok <==> old(h).q()[self.id()].len() < self.cap(),
            r is Ok ==> final(h).q() == old(h).q().insert(self.id(), old(h).q()[self.id()].push(x)),
            r is Err ==> final(h).q() == old(h).q(),
            final(h).b() == old(h).b(),
            final(h).n() == old(h).n(),
            final(h).guarded() == old(h).guarded() + (if old(h).raised() { 1nat } else { 0nat }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn pop(&self, h: &mut PoolHeap) -> (r: Result<TxWrapper, PopError>)
        requires
            old(h).q().contains_key(self.id()),
        ensures
            r is Ok <==> old(h).q()[self.id()].len() > 0,
            r is Ok ==> r->Ok_0 == old(h).q()[self.id()][0] && final(h).q() == old(h).q().insert(self.id(), old(h).q()[self.id()].skip(1)),
            r is Err ==> final(h).q() == old(h).q(),
            final(h).b() == old(h).b(),
            final(h).n() == old(h).n(),
            final(h).guarded() == old(h).guarded(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self, h: &PoolHeap) -> (r: usize)
        requires
            h.q().contains_key(self.id()),
        ensures
            r == h.q()[self.id()].len(),
    {
        unimplemented!()
    }
}

//@item protocol/src/traits/mempool.rs struct MixedTxHashes
//@item core/mempool/src/lib.rs enum MemPoolError
//@item core/mempool/src/tx_cache.rs struct TxWrapper
//@item core/mempool/src/tx_cache.rs type SharedTx
//@item core/mempool/src/tx_cache.rs enum Stage
//@item core/mempool/src/tx_cache.rs struct QueueRole
//@item core/mempool/src/tx_cache.rs struct TxCache

impl core::convert::From<MemPoolError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: MemPoolError) -> ProtocolError {
        unimplemented!()
    }
}

/// Arc::clone
impl Clone for TxWrapper {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl vstd::std_specs::cmp::PartialEqSpecImpl for Stage {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &Stage) -> bool {
        *self == *o
    }
}

impl PartialEq for Stage {
    #[verifier::external_body]
    fn eq(&self, o: &Stage) -> bool {
        unimplemented!()
    }
}

pub type Flags = Map<int, bool>;

impl TxWrapper {
    pub open spec fn hash(&self) -> Hash {
        self.tx.tx_hash
    }

    pub open spec fn gone(&self, b: Flags) -> bool {
        b[self.removed.id()]
    }

    pub open spec fn prop(&self, b: Flags) -> bool {
        b[self.proposed.id()]
    }

    pub open spec fn cyc(&self) -> int {
        self.tx.raw.fee.cycle as int
    }

    pub open spec fn ok(&self, b: Flags) -> bool {
        b.contains_key(self.removed.id()) && b.contains_key(self.proposed.id())
    }

    pub open spec fn old_at(&self, lo: u64, hi: u64) -> bool {
        self.tx.raw.timeout <= lo || self.tx.raw.timeout > hi
    }

//@fn core/mempool/src/tx_cache.rs TxWrapper::new
//@. params hp: &mut PoolHeap
//@. ensures
        r.tx == tx,
        wrapped(old(hp), final(hp), r, false),
//@end
//@fn core/mempool/src/tx_cache.rs TxWrapper::propose
//@. params hp: &mut PoolHeap
//@. ensures
        r.tx == tx,
        wrapped(old(hp), final(hp), r, true),
//@end
//@fn core/mempool/src/tx_cache.rs TxWrapper::set_removed
//@. params hp: &mut PoolHeap
//@. requires
        self.ok(old(hp).b()),
//@. ensures
        final(hp).b() == old(hp).b().insert(self.removed.id(), true),
        final(hp).n() == old(hp).n(),
        final(hp).q() == old(hp).q(),
        final(hp).guarded() == old(hp).guarded(),
//@end
//@fn core/mempool/src/tx_cache.rs TxWrapper::is_removed
//@. params hp: &PoolHeap
//@. requires
        self.ok(hp.b()),
//@. ensures
        r == self.gone(hp.b()),
//@end
//@fn core/mempool/src/tx_cache.rs TxWrapper::is_proposed
//@. params hp: &PoolHeap
//@. requires
        self.ok(hp.b()),
//@. ensures
        r == self.prop(hp.b()),
//@end
//@fn core/mempool/src/tx_cache.rs TxWrapper::is_timeout
//@. ensures
        r == self.old_at(current_epoch_id, timeout),
//@end
}

impl Stage {
//@fn core/mempool/src/tx_cache.rs Stage::next
//@. requires
        *self != Stage::Finished,
//@. ensures
        *self == Stage::OrderTxs ==> r == Stage::ProposeTxs,
        *self == Stage::ProposeTxs ==> r == Stage::Finished,
//@end
}

/// A wrapper with two fresh flags.
pub open spec fn wrapped(h0: &PoolHeap, h1: &PoolHeap, w: TxWrapper, prop: bool) -> bool {
    &&& w.removed.id() != w.proposed.id()
    &&& !h0.b().contains_key(w.removed.id())
    &&& !h0.b().contains_key(w.proposed.id())
    &&& h1.b() =~= h0.b().insert(w.removed.id(), false).insert(w.proposed.id(), prop)
    &&& h1.n() == h0.n()
    &&& h1.q() == h0.q()
    &&& h1.guarded() == h0.guarded()
}

// ------------------------------------------------------------------ what the queue stands for
/// The transactions of a queue that were not flushed.
pub open spec fn live(b: Flags, q: Seq<TxWrapper>) -> Seq<TxWrapper>
    decreases q.len(),
{
    if q.len() == 0 {
        Seq::empty()
    } else if q.last().gone(b) {
        live(b, q.drop_last())
    } else {
        live(b, q.drop_last()).push(q.last())
    }
}

/// Those that have not expired.
pub open spec fn fresh(q: Seq<TxWrapper>, lo: u64, hi: u64) -> Seq<TxWrapper>
    decreases q.len(),
{
    if q.len() == 0 {
        Seq::empty()
    } else if q.last().old_at(lo, hi) {
        fresh(q.drop_last(), lo, hi)
    } else {
        fresh(q.drop_last(), lo, hi).push(q.last())
    }
}

/// The hashes of those that have.
pub open spec fn stale(q: Seq<TxWrapper>, lo: u64, hi: u64) -> Seq<Hash>
    decreases q.len(),
{
    if q.len() == 0 {
        Seq::empty()
    } else if q.last().old_at(lo, hi) {
        stale(q.drop_last(), lo, hi).push(q.last().hash())
    } else {
        stale(q.drop_last(), lo, hi)
    }
}

/// Those whose hash is not listed.
pub open spec fn keep(q: Seq<TxWrapper>, ks: Seq<Hash>) -> Seq<TxWrapper>
    decreases q.len(),
{
    if q.len() == 0 {
        Seq::empty()
    } else if ks.contains(q.last().hash()) {
        keep(q.drop_last(), ks)
    } else {
        keep(q.drop_last(), ks).push(q.last())
    }
}

pub open spec fn hashes(q: Seq<TxWrapper>) -> Seq<Hash> {
    Seq::new(q.len(), |i: int| q[i].hash())
}

/// Those that did not come from another proposal.
pub open spec fn own(b: Flags, q: Seq<TxWrapper>) -> Seq<TxWrapper>
    decreases q.len(),
{
    if q.len() == 0 {
        Seq::empty()
    } else if q.last().prop(b) {
        own(b, q.drop_last())
    } else {
        own(b, q.drop_last()).push(q.last())
    }
}

pub open spec fn cycles(q: Seq<TxWrapper>) -> int
    decreases q.len(),
{
    if q.len() == 0 {
        0
    } else {
        cycles(q.drop_last()) + q.last().cyc()
    }
}

/// How packaging goes along the queue.
pub struct Pack {
    pub order: Seq<Hash>,
    pub propose: Seq<Hash>,
    pub count: int,
    pub stage: Stage,
}

pub open spec fn next_stage(s: Stage) -> Stage {
    match s {
        Stage::OrderTxs => Stage::ProposeTxs,
        _ => Stage::Finished,
    }
}

pub open spec fn step(b: Flags, p: Pack, w: TxWrapper, limit: u64) -> Pack {
    if p.stage == Stage::Finished || (p.stage == Stage::ProposeTxs && w.prop(b)) {
        p
    } else {
        let (stage, count) = if p.count + w.cyc() > limit { (next_stage(p.stage), w.cyc()) } else { (p.stage, p.count + w.cyc()) };
        match stage {
            Stage::OrderTxs => Pack { order: p.order.push(w.hash()), propose: p.propose, count, stage },
            Stage::ProposeTxs => if w.prop(b) {
                Pack { order: p.order, propose: p.propose, count: 0, stage }
            } else {
                Pack { order: p.order, propose: p.propose.push(w.hash()), count, stage }
            },
            Stage::Finished => Pack { order: p.order, propose: p.propose, count, stage },
        }
    }
}

pub open spec fn pack(b: Flags, q: Seq<TxWrapper>, limit: u64) -> Pack
    decreases q.len(),
{
    if q.len() == 0 {
        Pack { order: Seq::empty(), propose: Seq::empty(), count: 0, stage: Stage::OrderTxs }
    } else {
        step(b, pack(b, q.drop_last(), limit), q.last(), limit)
    }
}

// ------------------------------------------------------------------ the cache's invariant
impl TxCache {
    pub open spec fn inc(&self, hp: &PoolHeap) -> ArrayQueue<TxWrapper> {
        if hp.b()[self.is_zero.id()] {
            self.queue_0
        } else {
            self.queue_1
        }
    }

    pub open spec fn cand(&self, hp: &PoolHeap) -> ArrayQueue<TxWrapper> {
        if hp.b()[self.is_zero.id()] {
            self.queue_1
        } else {
            self.queue_0
        }
    }

    /// The queue that insertions go to.
    pub open spec fn queue(&self, hp: &PoolHeap) -> Seq<TxWrapper> {
        hp.q()[self.inc(hp).id()]
    }

    /// The pooled transactions in insertion order.
    pub open spec fn txs(&self, hp: &PoolHeap) -> Seq<TxWrapper> {
        live(hp.b(), self.queue(hp))
    }

    /// The pooled transactions by hash.
    pub open spec fn v(&self, hm: &MapHeap<TxWrapper>) -> Map<Hash, TxWrapper> {
        self.map.v(hm)
    }

    pub open spec fn base_ok(&self, hp: &PoolHeap) -> bool {
        &&& self.queue_0.id() != self.queue_1.id()
        &&& self.queue_0.cap() == self.queue_1.cap()
        &&& hp.q().contains_key(self.queue_0.id())
        &&& hp.q().contains_key(self.queue_1.id())
        &&& hp.b().contains_key(self.is_zero.id())
        &&& hp.n().contains_key(self.concurrent_count.id())
        &&& hp.n()[self.concurrent_count.id()] == 0
        &&& self.queue(hp).len() <= self.inc(hp).cap()
    }

    /// Flags are not shared.
    pub open spec fn flags_ok(&self, b: Flags, q: Seq<TxWrapper>) -> bool {
        &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).ok(b) && q[i].removed.id() != self.is_zero.id() && q[i].proposed.id() != self.is_zero.id()
        &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).removed.id() != (#[trigger] q[j]).removed.id()
        &&& forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() ==> (#[trigger] q[i]).removed.id() != (#[trigger] q[j]).proposed.id()
    }

    pub open spec fn ok(&self, hm: &MapHeap<TxWrapper>, hp: &PoolHeap) -> bool {
        &&& self.map.ok(hm)
        &&& self.base_ok(hp)
        &&& hp.q()[self.cand(hp).id()] == Seq::<TxWrapper>::empty()
        &&& self.flags_ok(hp.b(), self.queue(hp))
        &&& agree(self.v(hm), self.txs(hp))
    }

//@fn core/mempool/src/tx_cache.rs TxCache::get_queue_role
//@. params hp: &PoolHeap
//@. requires
        hp.b().contains_key(self.is_zero.id()),
//@. ensures
        *r.incumbent == self.inc(hp),
        *r.candidate == self.cand(hp),
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::switch_queue_role
//@. params hp: &mut PoolHeap
//@. requires
        old(hp).b().contains_key(self.is_zero.id()),
//@. ensures
        *r.incumbent == self.cand(old(hp)),
        *r.candidate == self.inc(old(hp)),
        final(hp).b() == old(hp).b().insert(self.is_zero.id(), !old(hp).b()[self.is_zero.id()]),
        final(hp).n() == old(hp).n(),
        final(hp).q() == old(hp).q(),
        final(hp).guarded() == old(hp).guarded(),
//@end
}

/// The map holds exactly the listed transactions, each under its hash.
pub open spec fn agree(m: Map<Hash, TxWrapper>, l: Seq<TxWrapper>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).hash()) && m[l[i].hash()] == l[i]
    &&& forall|k: Hash| #[trigger] m.contains_key(k) ==> m[k].hash() == k && l.contains(m[k])
}

// ------------------------------------------------------------------ lemmas about queues
pub proof fn lemma_live_same(b0: Flags, b1: Flags, q: Seq<TxWrapper>)
    requires
        forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).gone(b0) == q[i].gone(b1),
    ensures
        live(b0, q) == live(b1, q),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).gone(b0) == d[i].gone(b1) by {
            assert(d[i] == q[i]);
        }
        lemma_live_same(b0, b1, d);
        assert(q.last() == q[q.len() - 1]);
    }
}

/// What is live is in the queue and is not marked; what is in the queue and is not marked is live.
pub proof fn lemma_live_in(b: Flags, q: Seq<TxWrapper>)
    ensures
        live(b, q).len() <= q.len(),
        forall|j: int| 0 <= j < live(b, q).len() ==> !(#[trigger] live(b, q)[j]).gone(b) && q.contains(live(b, q)[j]),
        forall|i: int| 0 <= i < q.len() && !(#[trigger] q[i]).gone(b) ==> live(b, q).contains(q[i]),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        let l = live(b, d);
        lemma_live_in(b, d);
        assert forall|j: int| 0 <= j < live(b, q).len() implies !(#[trigger] live(b, q)[j]).gone(b) && q.contains(live(b, q)[j]) by {
            if j < l.len() {
                assert(live(b, q)[j] == l[j]);
                let i = d.index_of(l[j]);
                assert(q[i] == d[i]);
            } else {
                assert(live(b, q)[j] == q.last());
                assert(q[q.len() - 1] == q.last());
            }
        }
        assert forall|i: int| 0 <= i < q.len() && !(#[trigger] q[i]).gone(b) implies live(b, q).contains(q[i]) by {
            if i < d.len() {
                assert(d[i] == q[i]);
                let j = l.index_of(d[i]);
                assert(live(b, q)[j] == l[j]);
            } else {
                assert(live(b, q)[l.len() as int] == q[i]);
            }
        }
    }
}

/// Entries of the live list stand at different places of the queue.
pub proof fn lemma_live_distinct(c: &TxCache, b: Flags, q: Seq<TxWrapper>)
    requires
        c.flags_ok(b, q),
    ensures
        forall|i: int, j: int| 0 <= i < j < live(b, q).len() ==> (#[trigger] live(b, q)[i]).removed.id() != (#[trigger] live(b, q)[j]).removed.id(),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        lemma_flags_part(c, b, q, d, 0);
        lemma_live_distinct(c, b, d);
        lemma_live_in(b, d);
        let l = live(b, d);
        assert forall|i: int, j: int| 0 <= i < j < live(b, q).len() implies (#[trigger] live(b, q)[i]).removed.id() != (#[trigger] live(b, q)[j]).removed.id() by {
            assert(live(b, q)[i] == l[i]);
            if j < l.len() {
                assert(live(b, q)[j] == l[j]);
            } else {
                let a = d.index_of(l[i]);
                assert(q[a] == l[i]);
                assert(live(b, q)[j] == q[q.len() - 1]);
            }
        }
    }
}

/// A run of the queue has its flags.
pub proof fn lemma_flags_part(c: &TxCache, b: Flags, q: Seq<TxWrapper>, d: Seq<TxWrapper>, o: int)
    requires
        c.flags_ok(b, q),
        0 <= o,
        o + d.len() <= q.len(),
        forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == q[i + o],
    ensures
        c.flags_ok(b, d),
{
    assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).removed.id() != (#[trigger] d[j]).removed.id() by {
        assert(q[i + o].removed.id() != q[j + o].removed.id());
    }
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() implies (#[trigger] d[i]).removed.id() != (#[trigger] d[j]).proposed.id() by {
        assert(q[i + o].removed.id() != q[j + o].proposed.id());
    }
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).ok(b) && d[i].removed.id() != c.is_zero.id() && d[i].proposed.id() != c.is_zero.id() by {
        assert(q[i + o].ok(b));
    }
}

/// Appending a fresh wrapper.
pub proof fn lemma_append(c: &TxCache, b0: Flags, b1: Flags, q: Seq<TxWrapper>, w: TxWrapper)
    requires
        c.flags_ok(b0, q),
        b0.contains_key(c.is_zero.id()),
        !b0.contains_key(w.removed.id()),
        !b0.contains_key(w.proposed.id()),
        w.removed.id() != w.proposed.id(),
        forall|i: int| #[trigger] b0.contains_key(i) ==> b1.contains_key(i) && b1[i] == b0[i],
        w.ok(b1),
        !w.gone(b1),
    ensures
        c.flags_ok(b1, q.push(w)),
        live(b1, q.push(w)) == live(b0, q).push(w),
        live(b1, q) == live(b0, q),
        c.flags_ok(b1, q),
{
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).gone(b0) == q[i].gone(b1) by {
        assert(q[i].ok(b0));
    }
    lemma_live_same(b0, b1, q);
    let r = q.push(w);
    assert(r.drop_last() =~= q);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok(b1) && r[i].removed.id() != c.is_zero.id() && r[i].proposed.id() != c.is_zero.id() by {
        if i < q.len() {
            assert(q[i].ok(b0));
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).removed.id() != (#[trigger] r[j]).removed.id() by {
        assert(q[i].ok(b0));
        if j < q.len() {
            assert(q[i].removed.id() != q[j].removed.id());
        }
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() implies (#[trigger] r[i]).removed.id() != (#[trigger] r[j]).proposed.id() by {
        if i < q.len() {
            assert(q[i].ok(b0));
        }
        if j < q.len() {
            assert(q[j].ok(b0));
        }
        if i < q.len() && j < q.len() {
            assert(q[i].removed.id() != q[j].proposed.id());
        }
    }
}

pub proof fn lemma_agree_append(m: Map<Hash, TxWrapper>, l: Seq<TxWrapper>, w: TxWrapper)
    requires
        agree(m, l),
        !m.contains_key(w.hash()),
    ensures
        agree(m.insert(w.hash(), w), l.push(w)),
{
    let m2 = m.insert(w.hash(), w);
    let l2 = l.push(w);
    assert forall|i: int| 0 <= i < l2.len() implies m2.contains_key((#[trigger] l2[i]).hash()) && m2[l2[i].hash()] == l2[i] by {
        if i < l.len() {
            assert(l2[i] == l[i]);
            assert(m.contains_key(l[i].hash()));
        }
    }
    assert forall|k: Hash| #[trigger] m2.contains_key(k) implies m2[k].hash() == k && l2.contains(m2[k]) by {
        if k == w.hash() {
            assert(l2[l.len() as int] == w);
        } else {
            assert(m.contains_key(k));
            let i = l.index_of(m[k]);
            assert(l2[i] == m[k]);
        }
    }
}

impl TxCache {
//@fn core/mempool/src/tx_cache.rs TxCache::new
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        0 < pool_size <= usize::MAX / 2,
//@. ensures
        r.ok(final(hm), final(hp)),
        r.v(final(hm)) == Map::<Hash, TxWrapper>::empty(),
        r.txs(final(hp)) == Seq::<TxWrapper>::empty(),
        r.queue_0.cap() == pool_size * 2,
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::len
//@. params hm: &mut MapHeap<TxWrapper>
//@. requires
        self.map.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r == self.v(old(hm)).len(),
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::contain
//@. params hm: &mut MapHeap<TxWrapper>
//@. requires
        self.map.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r == self.v(old(hm)).contains_key(*tx_hash),
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::get
//@. params hm: &mut MapHeap<TxWrapper>
//@. requires
        self.map.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r is Some <==> self.v(old(hm)).contains_key(*tx_hash),
        r is Some ==> r->0 == self.v(old(hm))[*tx_hash].tx,
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::check_exist
//@. params hm: &mut MapHeap<TxWrapper>
//@. requires
        self.map.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r is Ok <==> !self.v(old(hm)).contains_key(*tx_hash),
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::check_reach_limit
//@. params hm: &mut MapHeap<TxWrapper>
//@. requires
        self.map.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r is Ok <==> self.v(old(hm)).len() < pool_size,
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::queue_len
//@. params hp: &PoolHeap
//@. requires
        self.base_ok(hp),
//@. ensures
        r == self.queue(hp).len(),
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::show_unknown
//@. params hm: &mut MapHeap<TxWrapper>
//@. requires
        self.map.ok(old(hm)),
//@. ensures
        final(hm).m() == old(hm).m(),
        r@ == unknown(self.v(old(hm)), tx_hashes@),
//@. at start
        let ghost h0 = *hm;
        let ghost ks = tx_hashes@;
//@. loop 0
        invariant
            __it0.s@ == ks,
            __it0.p@ <= __it0.s@.len(),
            self.map.ok(&h0),
            hm.m() == h0.m(),
            __v2@ == unknown(self.v(&h0), ks.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                let n = __it0.p@ as int;
                assert(ks.take(n + 1).drop_last() =~= ks.take(n));
                lemma_map_same(&self.map, &h0, hm);
            }
//@. at loop:0:after
            proof {
                assert(ks.take(ks.len() as int) =~= ks);
            }
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::insert
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.map.ok(old(hm)),
        self.base_ok(old(hp)),
//@. ensures
        self.map.ok(final(hm)),
        self.base_ok(final(hp)),
        r is Ok <==> !self.v(old(hm)).contains_key(tx_hash) && self.queue(old(hp)).len() < self.inc(old(hp)).cap(),
        r is Ok ==> self.v(final(hm)) == self.v(old(hm)).insert(tx_hash, shared_tx),
        r is Ok ==> final(hp).q() == old(hp).q().insert(self.inc(old(hp)).id(), self.queue(old(hp)).push(shared_tx)),
        // the test and the insertion are one critical section, and the push is made under the raised counter
        r is Ok ==> final(hm).locks() == old(hm).locks() + 1 && final(hp).guarded() == old(hp).guarded() + 1,
        r is Err ==> self.v(final(hm)) == self.v(old(hm)) && final(hp).q() == old(hp).q(),
        final(hp).b() == old(hp).b(),
        final(hp).n() =~= old(hp).n(),
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::insert_new_tx
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.ok(old(hm), old(hp)),
//@. ensures
        inserted(self, old(hm), old(hp), final(hm), final(hp), signed_tx, false, r is Ok),
//@. at start
        let ghost h0 = *hp;
        let ghost m0 = *hm;
        let ghost t = signed_tx;
//@. at end
        proof {
            lemma_inserted(self, &m0, &h0, hm, hp, shared_tx, t, false, __r is Ok);
        }
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::insert_propose_tx
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.ok(old(hm), old(hp)),
//@. ensures
        inserted(self, old(hm), old(hp), final(hm), final(hp), signed_tx, true, r is Ok),
//@. at start
        let ghost h0 = *hp;
        let ghost m0 = *hm;
        let ghost t = signed_tx;
//@. at end
        proof {
            lemma_inserted(self, &m0, &h0, hm, hp, shared_tx, t, true, __r is Ok);
        }
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::flush
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.ok(old(hm), old(hp)),
//@. ensures
        self.ok(final(hm), final(hp)),
        self.txs(final(hp)) == keep(self.txs(old(hp)), tx_hashes@),
        is_rm(self.v(old(hm)), self.v(final(hm)), tx_hashes@),
        flushed(old(hp).b(), final(hp).b(), self.queue(old(hp)), tx_hashes@),
//@. at start
        let ghost h0 = *hp;
        let ghost m0 = *hm;
        let ghost q = self.queue(&h0);
        let ghost ks = tx_hashes@;
        proof {
            lemma_live_in(h0.b(), q);
        }
//@. loop 0
        invariant
            __it0.s@ == ks,
            ks == tx_hashes@,
            __it0.p@ <= __it0.s@.len(),
            self.ok(&m0, &h0),
            hm.m() == m0.m(),
            hp.q() == h0.q(),
            hp.n() == h0.n(),
            q == self.queue(&h0),
            hp.b()[self.is_zero.id()] == h0.b()[self.is_zero.id()],
            forall|i: int| #[trigger] hp.b().contains_key(i) <==> h0.b().contains_key(i),
            forall|i: int| 0 <= i < q.len() ==> ((#[trigger] q[i]).gone(hp.b()) <==> q[i].gone(h0.b()) || ks.take(__it0.p@ as int).contains(q[i].hash())),
            forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).prop(hp.b()) == q[i].prop(h0.b()),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost b1 = hp.b();
            let ghost n = __it0.p@ as int;
            proof {
                lemma_map_same(&self.map, &m0, hm);
                assert(ks.take(n + 1) =~= ks.take(n).push(ks[n]));
                lemma_push_contains(ks.take(n), ks[n]);
                lemma_live_in(h0.b(), q);
                if self.v(&m0).contains_key(ks[n]) {
                    let w = self.v(&m0)[ks[n]];
                    let l = self.txs(&h0);
                    assert(l.contains(w));
                    assert(q.contains(l[l.index_of(w)]));
                    assert(q[q.index_of(w)].ok(h0.b()));
                    assert(w.ok(hp.b()));
                }
            }
//@. at loop:0:end
            proof {
                let k = ks[n];
                let l = self.txs(&h0);
                if self.v(&m0).contains_key(k) {
                    let w = self.v(&m0)[k];
                    let a = q.index_of(w);
                    assert(q[a] == w);
                    assert(hp.b() == b1.insert(w.removed.id(), true));
                    assert forall|i: int| 0 <= i < q.len() implies ((#[trigger] q[i]).gone(hp.b()) <==> q[i].gone(h0.b()) || ks.take(n + 1).contains(q[i].hash())) && q[i].prop(hp.b()) == q[i].prop(h0.b()) by {
                        assert(q[a].removed.id() != q[i].proposed.id());
                        if i < a {
                            assert(q[i].removed.id() != q[a].removed.id());
                        } else if i > a {
                            assert(q[a].removed.id() != q[i].removed.id());
                        }
                        if q[i].hash() == k && !q[i].gone(h0.b()) {
                            assert(l.contains(q[i]));
                            assert(l[l.index_of(q[i])] == q[i]);
                        }
                    }
                } else {
                    assert forall|i: int| 0 <= i < q.len() && (#[trigger] q[i]).hash() == k implies q[i].gone(h0.b()) by {
                        if !q[i].gone(h0.b()) {
                            assert(l.contains(q[i]));
                            assert(l[l.index_of(q[i])] == q[i]);
                        }
                    }
                }
            }
//@. at loop:0:after
            proof {
                assert(ks.take(ks.len() as int) =~= ks);
                lemma_map_same(&self.map, &m0, hm);
            }
//@. at end
        proof {
            lemma_flushed(h0.b(), hp.b(), q, ks);
            lemma_flags_same(self, h0.b(), hp.b(), q);
            lemma_agree_keep(self.v(&m0), self.v(hm), self.txs(&h0), ks);
        }
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::process_omission_txs
//@. params hp: &mut PoolHeap
//@. requires
        old(hp).n().contains_key(self.concurrent_count.id()),
        old(hp).n()[self.concurrent_count.id()] == 0,
        old(hp).q().contains_key(queue_role.incumbent.id()),
        old(hp).q().contains_key(queue_role.candidate.id()),
        queue_role.incumbent.id() != queue_role.candidate.id(),
        old(hp).q()[queue_role.incumbent.id()].len() + old(hp).q()[queue_role.candidate.id()].len() <= queue_role.incumbent.cap(),
//@. ensures
        final(hp).b() == old(hp).b(),
        final(hp).n() == old(hp).n(),
        final(hp).q() =~= old(hp).q().insert(queue_role.candidate.id(), Seq::empty()).insert(queue_role.incumbent.id(), old(hp).q()[queue_role.incumbent.id()] + old(hp).q()[queue_role.candidate.id()]),
//@. at start
        let ghost h0 = *hp;
        let ghost qi = h0.q()[queue_role.incumbent.id()];
        let ghost qc = h0.q()[queue_role.candidate.id()];
        let ghost mut k: int = 0;
//@. loop 0
        invariant_except_break
            *hp == h0,
            k == 0,
        invariant
            qi == h0.q()[queue_role.incumbent.id()],
            qc == h0.q()[queue_role.candidate.id()],
            h0.n().contains_key(self.concurrent_count.id()),
            h0.n()[self.concurrent_count.id()] == 0,
            h0.q().contains_key(queue_role.incumbent.id()),
            h0.q().contains_key(queue_role.candidate.id()),
            queue_role.incumbent.id() != queue_role.candidate.id(),
            qi.len() + qc.len() <= queue_role.incumbent.cap(),
        ensures
            hp.b() == h0.b(),
            hp.n() == h0.n(),
            hp.q() =~= h0.q().insert(queue_role.candidate.id(), Seq::empty()).insert(queue_role.incumbent.id(), qi + qc),
        decreases 0int,
//@. at loop:0:start
            proof {
                assert(qc.skip(0) =~= qc);
                assert(qi + qc.take(0) =~= qi);
            }
//@. loop 1
        invariant
            hp.b() == h0.b(),
            hp.n() == h0.n(),
            0 <= k <= qc.len(),
            hp.q() =~= h0.q().insert(queue_role.candidate.id(), qc.skip(k)).insert(queue_role.incumbent.id(), qi + qc.take(k)),
            hp.q().contains_key(queue_role.incumbent.id()),
            hp.q().contains_key(queue_role.candidate.id()),
            queue_role.incumbent.id() != queue_role.candidate.id(),
            qi.len() + qc.len() <= queue_role.incumbent.cap(),
        ensures
            k == qc.len(),
        decreases qc.len() - k,
//@. at loop:1:start
                proof {
                    assert(qc.skip(k).len() == qc.len() - k);
                    if k < qc.len() {
                        assert(qc.skip(k).skip(1) =~= qc.skip(k + 1));
                        assert((qi + qc.take(k)).push(qc[k]) =~= qi + qc.take(k + 1));
                    }
                }
//@. at loop:1:end
                proof {
                    k = k + 1;
                }
//@. at loop:1:after
            proof {
                assert(qc.skip(k) =~= Seq::empty());
                assert(qc.take(k) =~= qc);
            }
//@end
//@fn core/mempool/src/tx_cache.rs TxCache::package
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.ok(old(hm), old(hp)),
//@. ensures
        self.ok(final(hm), final(hp)),
        r is Ok,
        // what is handed to consensus is what the pool's order yields
        ({
            let p = pack(old(hp).b(), fresh(self.txs(old(hp)), current_epoch_id, timeout), cycle_limit);
            r->Ok_0.order_tx_hashes@ == p.order && r->Ok_0.propose_tx_hashes@ == p.propose
        }),
        // nothing is lost but the expired
        self.txs(final(hp)) == fresh(self.txs(old(hp)), current_epoch_id, timeout),
        is_rm(self.v(old(hm)), self.v(final(hm)), stale(self.txs(old(hp)), current_epoch_id, timeout)),
        forall|i: int| i != self.is_zero.id() && #[trigger] old(hp).b().contains_key(i) ==> final(hp).b().contains_key(i) && final(hp).b()[i] == old(hp).b()[i],
//@. at start
        let ghost h0 = *hp;
        let ghost m0 = *hm;
        let ghost b0 = h0.b();
        let ghost q = self.queue(&h0);
        let ghost lo = current_epoch_id;
        let ghost hi = timeout;
        let ghost mut n: int = 0;
        proof {
            assert(q.take(0) =~= Seq::<TxWrapper>::empty());
            assert(q.skip(0) =~= q);
            assert(Seq::<TxWrapper>::empty() + q =~= q);
        }
//@. loop 0
        invariant_except_break
            0 <= n <= q.len(),
            hp.b() == b0,
            hp.q() =~= h0.q().insert(self.inc(&h0).id(), q.skip(n)).insert(self.cand(&h0).id(), fresh(live(b0, q.take(n)), lo, hi)),
            self.flags_ok(b0, fresh(live(b0, q.take(n)), lo, hi) + q.skip(n)),
            (Pack { order: order_tx_hashes@, propose: propose_tx_hashes@, count: cycle_count as int, stage }) == packed(b0, q, n, lo, hi, cycle_limit),
        invariant
            self.ok(&m0, &h0),
            *hm == m0,
            b0 == h0.b(),
            q == self.queue(&h0),
            lo == current_epoch_id,
            hi == timeout,
            *queue_role.incumbent == self.inc(&h0),
            *queue_role.candidate == self.cand(&h0),
            hp.n() == h0.n(),
            timeout_tx_hashes@ == stale(live(b0, q.take(n)), lo, hi),
        ensures
            n == q.len(),
            hp.b() == b0.insert(self.is_zero.id(), !b0[self.is_zero.id()]),
            hp.q() =~= h0.q().insert(self.inc(&h0).id(), Seq::empty()).insert(self.cand(&h0).id(), fresh(live(b0, q), lo, hi)),
            self.flags_ok(b0, fresh(live(b0, q), lo, hi)),
            (Pack { order: order_tx_hashes@, propose: propose_tx_hashes@, count: cycle_count as int, stage }) == pack(b0, fresh(live(b0, q), lo, hi), cycle_limit),
        decreases q.len() - n,
//@. at loop:0:start
            let ghost n0 = n;
            proof {
                let f = fresh(live(b0, q.take(n)), lo, hi);
                lemma_fresh_in(live(b0, q.take(n)), lo, hi);
                lemma_live_in(b0, q.take(n));
                assert(q.skip(n).len() == q.len() - n);
                if n < q.len() {
                    lemma_take_step(b0, q, n, lo, hi, cycle_limit);
                    lemma_flags_remove(self, b0, f + q.skip(n), f.len() as int);
                    assert((f + q.skip(n)).remove(f.len() as int) =~= f + q.skip(n + 1));
                    assert(f.push(q[n]) + q.skip(n + 1) =~= f + q.skip(n));
                    assert(q.skip(n).skip(1) =~= q.skip(n + 1));
                    assert(q.skip(n)[0] == q[n]);
                    assert(q[n].ok(b0));
                    n = n + 1;
                } else {
                    assert(q.take(n) =~= q);
                    assert(q.skip(n) =~= Seq::<TxWrapper>::empty());
                    assert(f + q.skip(n) =~= f);
                }
            }
//@. at loop:0:after
        proof {
            assert(q.take(n) =~= q);
            lemma_live_in(b0, q);
            lemma_fresh_in(live(b0, q), lo, hi);
        }
//@. at end
        proof {
            let f = fresh(live(b0, q), lo, hi);
            assert forall|i: int| 0 <= i < f.len() implies !(#[trigger] f[i]).gone(hp.b()) by {
                assert(f[i].ok(b0));
                let l = live(b0, q);
                let j = l.index_of(f[i]);
                assert(!l[j].gone(b0));
            }
            lemma_live_id(hp.b(), f);
            lemma_flags_same(self, b0, hp.b(), f);
            lemma_agree_fresh(self.v(&m0), self.v(hm), self.txs(&h0), lo, hi);
        }
//@end
}


// ------------------------------------------------------------------ flushing and packaging
/// Flags after flushing these hashes.
pub open spec fn flushed(b0: Flags, b1: Flags, q: Seq<TxWrapper>, ks: Seq<Hash>) -> bool {
    &&& forall|i: int| #[trigger] b1.contains_key(i) <==> b0.contains_key(i)
    &&& forall|i: int| 0 <= i < q.len() ==> ((#[trigger] q[i]).gone(b1) <==> q[i].gone(b0) || ks.contains(q[i].hash()))
    &&& forall|i: int| 0 <= i < q.len() ==> ((#[trigger] q[i]).prop(b1) == q[i].prop(b0))
}

pub proof fn lemma_flushed(b0: Flags, b1: Flags, q: Seq<TxWrapper>, ks: Seq<Hash>)
    requires
        flushed(b0, b1, q, ks),
    ensures
        live(b1, q) == keep(live(b0, q), ks),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies ((#[trigger] d[i]).gone(b1) <==> d[i].gone(b0) || ks.contains(d[i].hash())) && d[i].prop(b1) == d[i].prop(b0) by {
            assert(d[i] == q[i]);
        }
        lemma_flushed(b0, b1, d, ks);
        let l = live(b0, d);
        assert(q.last() == q[q.len() - 1]);
        if !q.last().gone(b0) {
            assert(live(b0, q).drop_last() =~= l);
            assert(live(b0, q).last() == q.last());
        }
    }
}

/// What is kept is listed before and not named; what is listed and not named is kept.
pub proof fn lemma_keep_in(q: Seq<TxWrapper>, ks: Seq<Hash>)
    ensures
        keep(q, ks).len() <= q.len(),
        forall|j: int| 0 <= j < keep(q, ks).len() ==> !ks.contains((#[trigger] keep(q, ks)[j]).hash()) && q.contains(keep(q, ks)[j]),
        forall|i: int| 0 <= i < q.len() && !ks.contains((#[trigger] q[i]).hash()) ==> keep(q, ks).contains(q[i]),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        let l = keep(d, ks);
        lemma_keep_in(d, ks);
        assert forall|j: int| 0 <= j < keep(q, ks).len() implies !ks.contains((#[trigger] keep(q, ks)[j]).hash()) && q.contains(keep(q, ks)[j]) by {
            if j < l.len() {
                assert(keep(q, ks)[j] == l[j]);
                let i = d.index_of(l[j]);
                assert(q[i] == d[i]);
            } else {
                assert(keep(q, ks)[j] == q.last());
                assert(q[q.len() - 1] == q.last());
            }
        }
        assert forall|i: int| 0 <= i < q.len() && !ks.contains((#[trigger] q[i]).hash()) implies keep(q, ks).contains(q[i]) by {
            if i < d.len() {
                assert(d[i] == q[i]);
                let j = l.index_of(d[i]);
                assert(keep(q, ks)[j] == l[j]);
            } else {
                assert(keep(q, ks)[l.len() as int] == q[i]);
            }
        }
    }
}

pub proof fn lemma_agree_keep(m0: Map<Hash, TxWrapper>, m1: Map<Hash, TxWrapper>, l: Seq<TxWrapper>, ks: Seq<Hash>)
    requires
        agree(m0, l),
        is_rm(m0, m1, ks),
    ensures
        agree(m1, keep(l, ks)),
{
    lemma_keep_in(l, ks);
    let k2 = keep(l, ks);
    assert forall|i: int| 0 <= i < k2.len() implies m1.contains_key((#[trigger] k2[i]).hash()) && m1[k2[i].hash()] == k2[i] by {
        let j = l.index_of(k2[i]);
        assert(l[j] == k2[i]);
        assert(m0.contains_key(l[j].hash()));
        assert(m1.contains_key(k2[i].hash()));
    }
    assert forall|k: Hash| #[trigger] m1.contains_key(k) implies m1[k].hash() == k && k2.contains(m1[k]) by {
        assert(m0.contains_key(k));
        let j = l.index_of(m0[k]);
        assert(l[j].hash() == k);
    }
}

/// Dropping the expired ones is dropping their hashes, when no hash is listed twice.
pub proof fn lemma_fresh_in(q: Seq<TxWrapper>, lo: u64, hi: u64)
    ensures
        fresh(q, lo, hi).len() <= q.len(),
        forall|j: int| 0 <= j < fresh(q, lo, hi).len() ==> !(#[trigger] fresh(q, lo, hi)[j]).old_at(lo, hi) && q.contains(fresh(q, lo, hi)[j]),
        forall|i: int| 0 <= i < q.len() && !(#[trigger] q[i]).old_at(lo, hi) ==> fresh(q, lo, hi).contains(q[i]),
        forall|k: Hash| #[trigger] stale(q, lo, hi).contains(k) <==> exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).old_at(lo, hi) && q[i].hash() == k,
    decreases q.len(),
{
    let f = fresh(q, lo, hi);
    let s = stale(q, lo, hi);
    if q.len() > 0 {
        let d = q.drop_last();
        let l = fresh(d, lo, hi);
        lemma_fresh_in(d, lo, hi);
        assert forall|j: int| 0 <= j < f.len() implies !(#[trigger] f[j]).old_at(lo, hi) && q.contains(f[j]) by {
            if j < l.len() {
                assert(f[j] == l[j]);
                let i = d.index_of(l[j]);
                assert(q[i] == d[i]);
            } else {
                assert(f[j] == q.last());
                assert(q[q.len() - 1] == q.last());
            }
        }
        assert forall|i: int| 0 <= i < q.len() && !(#[trigger] q[i]).old_at(lo, hi) implies f.contains(q[i]) by {
            if i < d.len() {
                assert(d[i] == q[i]);
                let j = l.index_of(d[i]);
                assert(f[j] == l[j]);
            } else {
                assert(f[l.len() as int] == q[i]);
            }
        }
        let sd = stale(d, lo, hi);
        assert forall|k: Hash| #[trigger] s.contains(k) <==> exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).old_at(lo, hi) && q[i].hash() == k by {
            if q.last().old_at(lo, hi) {
                lemma_push_contains(sd, q.last().hash());
            }
            if s.contains(k) {
                if sd.contains(k) {
                    let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).old_at(lo, hi) && d[i].hash() == k;
                    assert(q[i] == d[i]);
                } else {
                    assert(q[q.len() - 1] == q.last());
                }
            }
            if exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).old_at(lo, hi) && q[i].hash() == k {
                let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).old_at(lo, hi) && q[i].hash() == k;
                if i < d.len() {
                    assert(d[i] == q[i]);
                    assert(sd.contains(k));
                }
            }
        }
    } else {
        assert forall|k: Hash| !(#[trigger] s.contains(k)) by {}
    }
}

pub proof fn lemma_agree_fresh(m0: Map<Hash, TxWrapper>, m1: Map<Hash, TxWrapper>, l: Seq<TxWrapper>, lo: u64, hi: u64)
    requires
        agree(m0, l),
        is_rm(m0, m1, stale(l, lo, hi)),
    ensures
        agree(m1, fresh(l, lo, hi)),
{
    lemma_fresh_in(l, lo, hi);
    let f = fresh(l, lo, hi);
    let s = stale(l, lo, hi);
    assert forall|i: int| 0 <= i < f.len() implies m1.contains_key((#[trigger] f[i]).hash()) && m1[f[i].hash()] == f[i] by {
        let j = l.index_of(f[i]);
        assert(l[j] == f[i]);
        assert(m0.contains_key(l[j].hash()));
        if s.contains(f[i].hash()) {
            let a = choose|a: int| 0 <= a < l.len() && (#[trigger] l[a]).old_at(lo, hi) && l[a].hash() == f[i].hash();
            assert(m0[l[a].hash()] == l[a]);
            assert(m0[l[j].hash()] == l[j]);
        }
        assert(m1.contains_key(f[i].hash()));
    }
    assert forall|k: Hash| #[trigger] m1.contains_key(k) implies m1[k].hash() == k && f.contains(m1[k]) by {
        assert(m0.contains_key(k));
        let j = l.index_of(m0[k]);
        assert(l[j].hash() == k);
        assert(!s.contains(k));
    }
}

/// Nothing is marked in a list of unmarked ones.
pub proof fn lemma_live_id(b: Flags, q: Seq<TxWrapper>)
    requires
        forall|i: int| 0 <= i < q.len() ==> !(#[trigger] q[i]).gone(b),
    ensures
        live(b, q) == q,
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i]).gone(b) by {
            assert(d[i] == q[i]);
        }
        lemma_live_id(b, d);
        assert(!q[q.len() - 1].gone(b));
        assert(d.push(q.last()) =~= q);
    } else {
        assert(live(b, q) =~= q);
    }
}

pub proof fn lemma_flags_remove(c: &TxCache, b: Flags, q: Seq<TxWrapper>, n: int)
    requires
        c.flags_ok(b, q),
        0 <= n < q.len(),
    ensures
        c.flags_ok(b, q.remove(n)),
{
    let r = q.remove(n);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).ok(b) && r[i].removed.id() != c.is_zero.id() && r[i].proposed.id() != c.is_zero.id() by {
        let a = if i < n { i } else { i + 1 };
        assert(r[i] == q[a]);
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).removed.id() != (#[trigger] r[j]).removed.id() by {
        let a = if i < n { i } else { i + 1 };
        let e = if j < n { j } else { j + 1 };
        assert(q[a].removed.id() != q[e].removed.id());
    }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() implies (#[trigger] r[i]).removed.id() != (#[trigger] r[j]).proposed.id() by {
        let a = if i < n { i } else { i + 1 };
        let e = if j < n { j } else { j + 1 };
        assert(q[a].removed.id() != q[e].proposed.id());
    }
}

pub proof fn lemma_flags_same(c: &TxCache, b0: Flags, b1: Flags, q: Seq<TxWrapper>)
    requires
        c.flags_ok(b0, q),
        forall|i: int| #[trigger] b0.contains_key(i) ==> b1.contains_key(i),
    ensures
        c.flags_ok(b1, q),
{
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).ok(b1) && q[i].removed.id() != c.is_zero.id() && q[i].proposed.id() != c.is_zero.id() by {
        assert(q[i].ok(b0));
    }
}

/// Packaging of one more queue entry.
pub open spec fn packed(b: Flags, q: Seq<TxWrapper>, n: int, lo: u64, hi: u64, limit: u64) -> Pack {
    pack(b, fresh(live(b, q.take(n)), lo, hi), limit)
}

pub proof fn lemma_take_step(b: Flags, q: Seq<TxWrapper>, n: int, lo: u64, hi: u64, limit: u64)
    requires
        0 <= n < q.len(),
    ensures
        q[n].gone(b) ==> live(b, q.take(n + 1)) == live(b, q.take(n)),
        !q[n].gone(b) ==> live(b, q.take(n + 1)) == live(b, q.take(n)).push(q[n]),
        !q[n].gone(b) && q[n].old_at(lo, hi) ==> fresh(live(b, q.take(n + 1)), lo, hi) == fresh(live(b, q.take(n)), lo, hi) && stale(live(b, q.take(n + 1)), lo, hi) == stale(live(b, q.take(n)), lo, hi).push(q[n].hash()),
        !q[n].gone(b) && !q[n].old_at(lo, hi) ==> fresh(live(b, q.take(n + 1)), lo, hi) == fresh(live(b, q.take(n)), lo, hi).push(q[n]) && stale(live(b, q.take(n + 1)), lo, hi) == stale(live(b, q.take(n)), lo, hi)
            && packed(b, q, n + 1, lo, hi, limit) == step(b, packed(b, q, n, lo, hi, limit), q[n], limit),
{
    let t = q.take(n + 1);
    assert(t.drop_last() =~= q.take(n));
    assert(t.last() == q[n]);
    let l = live(b, q.take(n));
    let l1 = l.push(q[n]);
    assert(l1.drop_last() =~= l);
    let f = fresh(l, lo, hi);
    let f1 = f.push(q[n]);
    assert(f1.drop_last() =~= f);
}

/// Hashes that are not in the pool, in the order given.
pub open spec fn unknown(m: Map<Hash, TxWrapper>, ks: Seq<Hash>) -> Seq<Hash>
    decreases ks.len(),
{
    if ks.len() == 0 {
        Seq::empty()
    } else if m.contains_key(ks.last()) {
        unknown(m, ks.drop_last())
    } else {
        unknown(m, ks.drop_last()).push(ks.last())
    }
}

/// Insertion of one transaction: all or nothing.
pub open spec fn inserted(c: &TxCache, hm0: &MapHeap<TxWrapper>, hp0: &PoolHeap, hm1: &MapHeap<TxWrapper>, hp1: &PoolHeap, tx: SignedTransaction, prop: bool, ok: bool) -> bool {
    &&& c.ok(hm1, hp1)
    &&& ok <==> !c.v(hm0).contains_key(tx.tx_hash) && c.queue(hp0).len() < c.inc(hp0).cap()
    &&& ok ==> ({
        let w = c.txs(hp1).last();
        &&& c.txs(hp1) == c.txs(hp0).push(w)
        &&& c.v(hm1) == c.v(hm0).insert(tx.tx_hash, w)
        &&& w.tx == tx
        &&& w.prop(hp1.b()) == prop
    })
    &&& !ok ==> c.txs(hp1) == c.txs(hp0) && c.v(hm1) == c.v(hm0)
    &&& forall|i: int| #[trigger] hp0.b().contains_key(i) ==> hp1.b().contains_key(i) && hp1.b()[i] == hp0.b()[i]
}

pub proof fn lemma_inserted(c: &TxCache, hm0: &MapHeap<TxWrapper>, hp0: &PoolHeap, hm1: &MapHeap<TxWrapper>, hp1: &PoolHeap, w: TxWrapper, tx: SignedTransaction, prop: bool, ok: bool)
    requires
        c.ok(hm0, hp0),
        c.map.ok(hm1),
        c.base_ok(hp1),
        w.tx == tx,
        w.removed.id() != w.proposed.id(),
        !hp0.b().contains_key(w.removed.id()),
        !hp0.b().contains_key(w.proposed.id()),
        hp1.b() =~= hp0.b().insert(w.removed.id(), false).insert(w.proposed.id(), prop),
        hp1.n() =~= hp0.n(),
        ok <==> !c.v(hm0).contains_key(tx.tx_hash) && c.queue(hp0).len() < c.inc(hp0).cap(),
        ok ==> c.v(hm1) == c.v(hm0).insert(tx.tx_hash, w) && hp1.q() == hp0.q().insert(c.inc(hp0).id(), c.queue(hp0).push(w)),
        !ok ==> c.v(hm1) == c.v(hm0) && hp1.q() == hp0.q(),
    ensures
        inserted(c, hm0, hp0, hm1, hp1, tx, prop, ok),
{
    lemma_append(c, hp0.b(), hp1.b(), c.queue(hp0), w);
    if ok {
        lemma_agree_append(c.v(hm0), c.txs(hp0), w);
        assert(c.txs(hp1) == c.txs(hp0).push(w));
        assert(c.txs(hp1).last() == w);
    }
}

pub proof fn lemma_map_same<V>(p: &Pool<V>, h0: &MapHeap<V>, h1: &MapHeap<V>)
    requires
        p.ok(h0),
        h0.m() == h1.m(),
    ensures
        p.ok(h1),
        p.v(h1) == p.v(h0),
{
    lemma_same_upto(p.buckets@, h0, h1, 16);
    assert forall|i: int, k: Hash| 0 <= i < 16 && #[trigger] p.buckets@[i].v(h1).contains_key(k) implies idx(k) == i by {
        assert(p.buckets@[i].v(h0).contains_key(k));
    }
    assert forall|i: int| 0 <= i < 16 implies (#[trigger] p.buckets@[i]).ok(h1) by {
        assert(p.buckets@[i].ok(h0));
    }
}

/// The same, wherever both are spoken of.
pub broadcast proof fn lemma_map_reads<V>(p: &Pool<V>, h0: &MapHeap<V>, h1: &MapHeap<V>)
    requires
        #[trigger] p.ok(h0),
        h0.m() == h1.m(),
    ensures
        p.ok(h1),
        #[trigger] p.v(h1) == p.v(h0),
{
    lemma_map_same(p, h0, h1);
}

pub broadcast proof fn lemma_map_stays<V>(p: &Pool<V>, h0: &MapHeap<V>, h1: &MapHeap<V>)
    requires
        #[trigger] p.ok(h0),
        h0.m() == h1.m(),
    ensures
        #[trigger] p.ok(h1),
{
    lemma_map_same(p, h0, h1);
}

pub proof fn lemma_same_upto<V>(b: Seq<Bucket<V>>, h0: &MapHeap<V>, h1: &MapHeap<V>, n: int)
    requires
        h0.m() == h1.m(),
    ensures
        upto(b, h1, n) == upto(b, h0, n),
    decreases n,
{
    if n > 0 {
        lemma_same_upto(b, h0, h1, n - 1);
    }
}

// ------------------------------------------------------------------ the pool
pub struct Context {
    pub c: Ghost<int>,
}

impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

/// The context says that the transaction came from the network.
pub uninterp spec fn net_origin(c: Context) -> bool;

impl Context {
    #[verifier::external_body]
    pub fn is_network_origin_txs(&self) -> (r: bool)
        ensures
            r == net_origin(*self),
    {
        unimplemented!()
    }
}

/// What was handed to the network, in order.
pub struct Sent {
    pub s: Ghost<Seq<SignedTransaction>>,
}

/// MemPoolAdapter (protocol/src/traits/mempool.rs), with what each answer means.
pub trait MemPoolAdapter: Sized {
    /// The signature is the sender's, over this hash.
    spec fn sig_ok(&self, tx: SignedTransaction) -> bool;

    /// The hash is the transaction's, the chain this one, the timeout neither past nor too far.
    spec fn tx_ok(&self, tx: SignedTransaction) -> bool;

    /// A transaction of this hash was committed.
    spec fn stored(&self, h: Hash) -> bool;

    spec fn height(&self) -> u64;

    /// The node's storage answers.
    spec fn answers(&self) -> bool;

    fn pull_txs(&self, ctx: Context, tx_hashes: Vec<Hash>) -> (r: ProtocolResult<Vec<SignedTransaction>>)
    ;

    fn broadcast_tx(&self, ctx: Context, tx: SignedTransaction, ha: &mut Sent) -> (r: ProtocolResult<()>)
        ensures
            final(ha).s@ == old(ha).s@.push(tx),
    ;

    fn check_signature(&self, ctx: Context, tx: SignedTransaction) -> (r: ProtocolResult<()>)
        ensures
            r is Ok <==> self.sig_ok(tx),
    ;

    fn check_transaction(&self, ctx: Context, tx: SignedTransaction) -> (r: ProtocolResult<()>)
        ensures
            r is Ok ==> self.tx_ok(tx),
            self.answers() && self.tx_ok(tx) ==> r is Ok,
    ;

    fn check_storage_exist(&self, ctx: Context, tx_hash: Hash) -> (r: ProtocolResult<()>)
        ensures
            r is Ok ==> !self.stored(tx_hash),
            self.answers() && !self.stored(tx_hash) ==> r is Ok,
    ;

    fn get_latest_epoch_id(&self, ctx: Context) -> (r: ProtocolResult<u64>)
        ensures
            r is Ok ==> r->Ok_0 == self.height(),
            self.answers() ==> r is Ok,
    ;
}

//@item core/mempool/src/lib.rs struct HashMemPool

impl<Adapter: MemPoolAdapter> HashMemPool<Adapter> {
    pub open spec fn ok(&self, hm: &MapHeap<TxWrapper>, hp: &PoolHeap, hc: &MapHeap<SignedTransaction>) -> bool {
        &&& self.tx_cache.ok(hm, hp)
        &&& self.cache_ok(hc)
    }

    /// The proposal cache lists transactions under their hashes.
    pub open spec fn cache_ok(&self, hc: &MapHeap<SignedTransaction>) -> bool {
        &&& self.callback_cache.ok(hc)
        &&& forall|k: Hash| #[trigger] self.callback_cache.v(hc).contains_key(k) ==> self.callback_cache.v(hc)[k].tx_hash == k
    }

    /// A transaction that may enter, size apart.
    pub open spec fn rule(&self, tx: SignedTransaction) -> bool {
        self.adapter.sig_ok(tx) && self.adapter.tx_ok(tx) && !self.adapter.stored(tx.tx_hash)
    }

    /// Transactions of other proposals were added, under the rules, and nothing else.
    pub open spec fn grown(&self, hm0: &MapHeap<TxWrapper>, hp0: &PoolHeap, hm1: &MapHeap<TxWrapper>, hp1: &PoolHeap) -> bool {
        let t0 = self.tx_cache.txs(hp0);
        let t1 = self.tx_cache.txs(hp1);
        let v0 = self.tx_cache.v(hm0);
        let v1 = self.tx_cache.v(hm1);
        &&& t0.is_prefix_of(t1)
        &&& forall|i: int| t0.len() <= i < t1.len() ==> self.rule((#[trigger] t1[i]).tx) && t1[i].prop(hp1.b())
        &&& forall|k: Hash| #[trigger] v0.contains_key(k) ==> v1.contains_key(k) && v1[k] == v0[k]
        &&& forall|k: Hash| #[trigger] v1.contains_key(k) ==> v0.contains_key(k) || self.rule(v1[k].tx)
        &&& forall|i: int| #[trigger] hp0.b().contains_key(i) ==> hp1.b().contains_key(i) && hp1.b()[i] == hp0.b()[i]
    }

    /// The transaction of this hash, wherever it is held.
    pub open spec fn held(&self, hm: &MapHeap<TxWrapper>, hc: &MapHeap<SignedTransaction>, k: Hash) -> Option<SignedTransaction> {
        if self.tx_cache.v(hm).contains_key(k) {
            Some(self.tx_cache.v(hm)[k].tx)
        } else if self.callback_cache.v(hc).contains_key(k) {
            Some(self.callback_cache.v(hc)[k])
        } else {
            None
        }
    }

//@fn core/mempool/src/lib.rs HashMemPool::new
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap, hc: &mut MapHeap<SignedTransaction>
//@. heapfn TxCache::new hm hp
//@. heapfn Map::new hc
//@. heapfn Pool::new hc
//@. requires
        0 < pool_size <= usize::MAX / 4,
//@. ensures
        r.ok(final(hm), final(hp), final(hc)),
        r.pool_size == pool_size,
        r.timeout_gap == timeout_gap,
        r.adapter == adapter,
        r.tx_cache.v(final(hm)) == Map::<Hash, TxWrapper>::empty(),
        r.callback_cache.v(final(hc)) == Map::<Hash, SignedTransaction>::empty(),
//@end
//@fn core/mempool/src/lib.rs HashMemPool::check_pulled_tx
//@. ensures
        r is Ok ==> self.rule(*tx),
        self.adapter.answers() && self.rule(*tx) ==> r is Ok,
//@end
//@fn core/mempool/src/lib.rs HashMemPool@MemPool::insert
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap, ha: &mut Sent
//@. requires
        self.tx_cache.ok(old(hm), old(hp)),
//@. ensures
        self.tx_cache.ok(final(hm), final(hp)),
        admitted(&self.tx_cache, old(hm), old(hp), final(hm), final(hp), tx) || refused(&self.tx_cache, old(hm), old(hp), final(hm), final(hp)),
        r is Ok ==> admitted(&self.tx_cache, old(hm), old(hp), final(hm), final(hp), tx),
        // only under the rules
        admitted(&self.tx_cache, old(hm), old(hp), final(hm), final(hp), tx) ==> self.rule(tx) && self.tx_cache.v(old(hm)).len() < self.pool_size && !self.tx_cache.v(old(hm)).contains_key(tx.tx_hash),
        // always under the rules, if there is room in the queue
        self.adapter.answers() && self.rule(tx) && self.tx_cache.v(old(hm)).len() < self.pool_size && !self.tx_cache.v(old(hm)).contains_key(tx.tx_hash)
            && self.tx_cache.queue(old(hp)).len() < self.tx_cache.inc(old(hp)).cap() ==> admitted(&self.tx_cache, old(hm), old(hp), final(hm), final(hp), tx),
        // announced exactly when it entered from a user
        admitted(&self.tx_cache, old(hm), old(hp), final(hm), final(hp), tx) && !net_origin(ctx) ==> final(ha).s@ == old(ha).s@.push(tx),
        net_origin(ctx) || !admitted(&self.tx_cache, old(hm), old(hp), final(hm), final(hp), tx) ==> final(ha).s@ == old(ha).s@,
//@. at start
        broadcast use {lemma_map_reads, lemma_map_stays};
//@end
//@fn core/mempool/src/lib.rs HashMemPool@MemPool::package key HashMemPool::package
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.tx_cache.ok(old(hm), old(hp)),
        self.adapter.height() + self.timeout_gap <= u64::MAX,
//@. ensures
        self.tx_cache.ok(final(hm), final(hp)),
        self.adapter.answers() ==> r is Ok,
        r is Err ==> refused(&self.tx_cache, old(hm), old(hp), final(hm), final(hp)),
        r is Ok ==> ({
            let lo = self.adapter.height();
            let hi = (lo + self.timeout_gap) as u64;
            let p = pack(old(hp).b(), fresh(self.tx_cache.txs(old(hp)), lo, hi), cycle_limit);
            &&& r->Ok_0.order_tx_hashes@ == p.order
            &&& r->Ok_0.propose_tx_hashes@ == p.propose
            &&& self.tx_cache.txs(final(hp)) == fresh(self.tx_cache.txs(old(hp)), lo, hi)
            &&& is_rm(self.tx_cache.v(old(hm)), self.tx_cache.v(final(hm)), stale(self.tx_cache.txs(old(hp)), lo, hi))
        }),
//@end
//@fn core/mempool/src/lib.rs HashMemPool@MemPool::flush key HashMemPool::flush
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap, hc: &mut MapHeap<SignedTransaction>
//@. requires
        self.ok(old(hm), old(hp), old(hc)),
//@. ensures
        self.ok(final(hm), final(hp), final(hc)),
        r is Ok,
        self.tx_cache.txs(final(hp)) == keep(self.tx_cache.txs(old(hp)), tx_hashes@),
        is_rm(self.tx_cache.v(old(hm)), self.tx_cache.v(final(hm)), tx_hashes@),
        self.callback_cache.v(final(hc)) == Map::<Hash, SignedTransaction>::empty(),
//@end
//@fn core/mempool/src/lib.rs HashMemPool@MemPool::ensure_order_txs key HashMemPool::ensure_order_txs
//@. params hm: &mut MapHeap<TxWrapper>, hc: &mut MapHeap<SignedTransaction>
//@. requires
        self.tx_cache.map.ok(old(hm)),
        self.cache_ok(old(hc)),
//@. ensures
        final(hm).m() == old(hm).m(),
        self.cache_ok(final(hc)),
        // what was cached stays, and what is new is genuine
        forall|k: Hash| #[trigger] self.callback_cache.v(old(hc)).contains_key(k) ==> self.callback_cache.v(final(hc)).contains_key(k)
            && self.callback_cache.v(final(hc))[k] == self.callback_cache.v(old(hc))[k],
        forall|k: Hash| #[trigger] self.callback_cache.v(final(hc)).contains_key(k) && !self.callback_cache.v(old(hc)).contains_key(k) ==>
            self.adapter.sig_ok(self.callback_cache.v(final(hc))[k]) && self.adapter.tx_ok(self.callback_cache.v(final(hc))[k]),
        // all known: nothing to do
        unknown(self.tx_cache.v(old(hm)), order_tx_hashes@).len() == 0 ==> r is Ok && final(hc).m() == old(hc).m(),
//@. at start
        broadcast use {lemma_map_reads, lemma_map_stays};
        let ghost c0 = *hc;
        let ghost cc = self.callback_cache;
        let ghost ks = order_tx_hashes@;
        let ghost u = unknown(self.tx_cache.v(hm), ks);
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            cc == self.callback_cache,
            u.len() > 0,
            ks == order_tx_hashes@,
            u == unknown(self.tx_cache.v(old(hm)), ks),
            c0 == *old(hc),
            hm.m() == old(hm).m(),
            self.cache_ok(hc),
            forall|k: Hash| #[trigger] cc.v(&c0).contains_key(k) ==> cc.v(hc).contains_key(k) && cc.v(hc)[k] == cc.v(&c0)[k],
            forall|k: Hash| #[trigger] cc.v(hc).contains_key(k) && !cc.v(&c0).contains_key(k) ==> self.adapter.sig_ok(cc.v(hc)[k]) && self.adapter.tx_ok(cc.v(hc)[k]),
        decreases __it0.s@.len() - __it0.p@,
//@end
//@fn core/mempool/src/lib.rs HashMemPool@MemPool::sync_propose_txs key HashMemPool::sync_propose_txs
//@. params hm: &mut MapHeap<TxWrapper>, hp: &mut PoolHeap
//@. requires
        self.tx_cache.ok(old(hm), old(hp)),
//@. ensures
        self.tx_cache.ok(final(hm), final(hp)),
        self.grown(old(hm), old(hp), final(hm), final(hp)),
//@. at start
        broadcast use {lemma_map_reads, lemma_map_stays};
        let ghost m0 = *hm;
        let ghost h0 = *hp;
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            self.tx_cache.ok(hm, hp),
            self.grown(&m0, &h0, hm, hp),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
                let ghost m1 = *hm;
                let ghost h1 = *hp;
                let ghost x = __it0.s@[__it0.p@ as int];
//@. at loop:0:end
                proof {
                    lemma_grown(self, &m0, &h0, &m1, &h1, hm, hp, x);
                }
//@end
//@fn core/mempool/src/lib.rs HashMemPool@MemPool::get_full_txs key HashMemPool::get_full_txs
//@. params hm: &mut MapHeap<TxWrapper>, hc: &mut MapHeap<SignedTransaction>
//@. requires
        self.tx_cache.map.ok(old(hm)),
        self.callback_cache.ok(old(hc)),
//@. ensures
        final(hm).m() == old(hm).m(),
        final(hc).m() == old(hc).m(),
        r is Ok <==> forall|i: int| 0 <= i < tx_hashes@.len() ==> self.held(old(hm), old(hc), #[trigger] tx_hashes@[i]) is Some,
        r is Ok ==> r->Ok_0@.len() == tx_hashes@.len(),
        r is Ok ==> forall|i: int| 0 <= i < tx_hashes@.len() ==> self.held(old(hm), old(hc), tx_hashes@[i]) == Some(#[trigger] r->Ok_0@[i]),
//@. at start
        let ghost h0 = *hm;
        let ghost c0 = *hc;
        let ghost ks = tx_hashes@;
//@. loop 0
        invariant
            __it0.s@ == ks,
            __it0.p@ <= __it0.s@.len(),
            len == ks.len(),
            self.tx_cache.map.ok(&h0),
            self.callback_cache.ok(&c0),
            hm.m() == h0.m(),
            hc.m() == c0.m(),
            full_txs@.len() <= __it0.p@,
            full_txs@.len() == __it0.p@ <==> forall|i: int| 0 <= i < __it0.p@ ==> self.held(&h0, &c0, #[trigger] ks[i]) is Some,
            full_txs@.len() == __it0.p@ ==> forall|i: int| 0 <= i < __it0.p@ ==> self.held(&h0, &c0, ks[i]) == Some(#[trigger] full_txs@[i]),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost n = __it0.p@ as int;
            let ghost f0 = full_txs@;
            proof {
                lemma_map_same(&self.tx_cache.map, &h0, hm);
                lemma_map_same(&self.callback_cache, &c0, hc);
            }
//@. at loop:0:end
            proof {
                if full_txs@.len() == n + 1 {
                    assert(self.held(&h0, &c0, ks[n]) is Some);
                } else if f0.len() == n {
                    assert(self.held(&h0, &c0, ks[n]) is None);
                }
            }
//@end
}

pub proof fn lemma_grown<A: MemPoolAdapter>(p: &HashMemPool<A>, m0: &MapHeap<TxWrapper>, h0: &PoolHeap, m1: &MapHeap<TxWrapper>, h1: &PoolHeap, m2: &MapHeap<TxWrapper>, h2: &PoolHeap, x: SignedTransaction)
    requires
        p.tx_cache.ok(m1, h1),
        p.grown(m0, h0, m1, h1),
        inserted(&p.tx_cache, m1, h1, m2, h2, x, true, true) && p.rule(x) || inserted(&p.tx_cache, m1, h1, m2, h2, x, true, false) || (*m2 == *m1 && *h2 == *h1),
    ensures
        p.grown(m0, h0, m2, h2),
{
    let c = &p.tx_cache;
    let t0 = c.txs(h0);
    let t1 = c.txs(h1);
    let t2 = c.txs(h2);
    lemma_live_in(h1.b(), c.queue(h1));
    assert forall|i: int| t0.len() <= i < t2.len() implies p.rule((#[trigger] t2[i]).tx) && t2[i].prop(h2.b()) by {
        if i < t1.len() {
            assert(t2[i] == t1[i]);
            let z = c.queue(h1).index_of(t1[i]);
            assert(c.queue(h1)[z].ok(h1.b()));
        }
    }
    assert forall|k: Hash| #[trigger] c.v(m0).contains_key(k) implies c.v(m2).contains_key(k) && c.v(m2)[k] == c.v(m0)[k] by {
        assert(c.v(m1).contains_key(k));
    }
}

/// The transaction was added to the pool, and nothing else.
pub open spec fn admitted(c: &TxCache, hm0: &MapHeap<TxWrapper>, hp0: &PoolHeap, hm1: &MapHeap<TxWrapper>, hp1: &PoolHeap, tx: SignedTransaction) -> bool {
    let w = c.txs(hp1).last();
    &&& c.txs(hp1) == c.txs(hp0).push(w)
    &&& c.v(hm1) == c.v(hm0).insert(tx.tx_hash, w)
    &&& w.tx == tx
    &&& !w.prop(hp1.b())
}

/// The pool is as it was.
pub open spec fn refused(c: &TxCache, hm0: &MapHeap<TxWrapper>, hp0: &PoolHeap, hm1: &MapHeap<TxWrapper>, hp1: &PoolHeap) -> bool {
    &&& c.txs(hp1) == c.txs(hp0)
    &&& c.v(hm1) == c.v(hm0)
}

// ------------------------------------------------------------------ what packaging yields
/// How many transactions are ordered: the longest run from the front within the limit.
pub open spec fn cut(q: Seq<TxWrapper>, limit: u64) -> int
    decreases q.len(),
{
    if q.len() == 0 {
        0
    } else {
        let k = cut(q.drop_last(), limit);
        if k == q.len() - 1 && cycles(q) <= limit {
            q.len() as int
        } else {
            k
        }
    }
}

pub proof fn lemma_cycles(q: Seq<TxWrapper>, n: int)
    requires
        0 <= n <= q.len(),
    ensures
        0 <= cycles(q.take(n)) <= cycles(q),
    decreases q.len(),
{
    if n < q.len() {
        lemma_cycles(q.drop_last(), n);
        assert(q.drop_last().take(n) =~= q.take(n));
    } else {
        assert(q.take(n) =~= q);
        if n > 0 {
            lemma_cycles(q.drop_last(), n - 1);
        }
    }
}

pub proof fn lemma_cut(q: Seq<TxWrapper>, limit: u64)
    ensures
        0 <= cut(q, limit) <= q.len(),
        cycles(q.take(cut(q, limit))) <= limit,
        cut(q, limit) < q.len() ==> cycles(q.take(cut(q, limit) + 1)) > limit,
    decreases q.len(),
{
    let k = cut(q, limit);
    if q.len() > 0 {
        let d = q.drop_last();
        lemma_cut(d, limit);
        let k0 = cut(d, limit);
        assert(d.take(k0) =~= q.take(k0));
        if k0 < d.len() {
            assert(d.take(k0 + 1) =~= q.take(k0 + 1));
        } else {
            assert(q.take(k0 + 1) =~= q);
        }
        if k == q.len() {
            assert(q.take(k) =~= q);
        }
    } else {
        assert(q.take(0) =~= q);
    }
}

pub proof fn lemma_own(b: Flags, q: Seq<TxWrapper>)
    ensures
        own(b, q).len() <= q.len(),
        forall|j: int| 0 <= j < own(b, q).len() ==> !(#[trigger] own(b, q)[j]).prop(b) && q.contains(own(b, q)[j]),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        let l = own(b, d);
        lemma_own(b, d);
        assert forall|j: int| 0 <= j < own(b, q).len() implies !(#[trigger] own(b, q)[j]).prop(b) && q.contains(own(b, q)[j]) by {
            if j < l.len() {
                assert(own(b, q)[j] == l[j]);
                let i = d.index_of(l[j]);
                assert(q[i] == d[i]);
            } else {
                assert(q[q.len() - 1] == q.last());
            }
        }
    }
}

/// The shape of a package.
pub proof fn lemma_pack(b: Flags, q: Seq<TxWrapper>, limit: u64)
    ensures
        ({
            let p = pack(b, q, limit);
            let k = cut(q, limit);
            &&& p.order == hashes(q.take(k))
            &&& p.propose.is_prefix_of(hashes(own(b, q.skip(k))))
            &&& p.stage == Stage::OrderTxs <==> k == q.len()
            &&& p.stage == Stage::OrderTxs ==> p.count == cycles(q)
            &&& p.stage == Stage::ProposeTxs ==> p.propose == hashes(own(b, q.skip(k)))
        }),
    decreases q.len(),
{
    let p = pack(b, q, limit);
    let k = cut(q, limit);
    lemma_cut(q, limit);
    if q.len() == 0 {
        assert(p.order =~= hashes(q.take(0)));
        assert(p.propose =~= hashes(own(b, q.skip(0))));
    } else {
        let d = q.drop_last();
        let x = q.last();
        lemma_pack(b, d, limit);
        lemma_cut(d, limit);
        let k0 = cut(d, limit);
        let p0 = pack(b, d, limit);
        assert(cycles(q) == cycles(d) + x.cyc());
        if k == q.len() {
            assert(d.take(k0) =~= d);
            assert(q.take(k) =~= q);
            assert(hashes(d).push(x.hash()) =~= hashes(q));
            assert(q.skip(k) =~= Seq::<TxWrapper>::empty());
            assert(d.skip(k0) =~= Seq::<TxWrapper>::empty());
            assert(p.propose =~= Seq::<Hash>::empty());
        } else {
            assert(k == k0);
            assert(q.take(k) =~= d.take(k));
            let r0 = d.skip(k);
            let r = q.skip(k);
            assert(r =~= r0.push(x));
            assert(r.drop_last() =~= r0);
            let o0 = own(b, r0);
            let o = own(b, r);
            assert(o == if x.prop(b) { o0 } else { o0.push(x) });
            if !x.prop(b) {
                assert(hashes(o) =~= hashes(o0).push(x.hash()));
            }
            assert(hashes(o0).is_prefix_of(hashes(o)));
            if p0.stage == Stage::OrderTxs {
                assert(r0 =~= Seq::<TxWrapper>::empty());
                assert(hashes(o0) =~= Seq::<Hash>::empty());
                assert(p0.propose =~= Seq::<Hash>::empty());
            }
        }
    }
}

pub open spec fn distinct(s: Seq<Hash>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
}

/// No two pooled transactions have the same hash.
pub proof fn lemma_agree_distinct(c: &TxCache, b: Flags, q: Seq<TxWrapper>, m: Map<Hash, TxWrapper>)
    requires
        c.flags_ok(b, q),
        agree(m, live(b, q)),
    ensures
        distinct(hashes(live(b, q))),
{
    let l = live(b, q);
    lemma_live_distinct(c, b, q);
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] hashes(l)[i] != #[trigger] hashes(l)[j] by {
        assert(l[i].removed.id() != l[j].removed.id());
        assert(m[l[i].hash()] == l[i]);
        assert(m[l[j].hash()] == l[j]);
    }
}

/// Order is kept by leaving some out.
pub open spec fn sub(a: Seq<TxWrapper>, q: Seq<TxWrapper>) -> bool
    decreases q.len(),
{
    a.len() == 0 || (q.len() > 0 && (sub(a, q.drop_last()) || (a.last() == q.last() && sub(a.drop_last(), q.drop_last()))))
}

pub proof fn lemma_sub_distinct(a: Seq<TxWrapper>, q: Seq<TxWrapper>)
    requires
        sub(a, q),
        distinct(hashes(q)),
    ensures
        distinct(hashes(a)),
        forall|i: int| 0 <= i < a.len() ==> q.contains(#[trigger] a[i]),
    decreases q.len(),
{
    if a.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] hashes(d)[i] != #[trigger] hashes(d)[j] by {
            assert(hashes(q)[i] != hashes(q)[j]);
        }
        if sub(a, d) {
            lemma_sub_distinct(a, d);
            assert forall|i: int| 0 <= i < a.len() implies q.contains(#[trigger] a[i]) by {
                let n = d.index_of(a[i]);
                assert(q[n] == a[i]);
            }
        } else {
            let e = a.drop_last();
            lemma_sub_distinct(e, d);
            assert(q[q.len() - 1] == a.last());
            assert forall|i: int| 0 <= i < a.len() implies q.contains(#[trigger] a[i]) by {
                if i < e.len() {
                    assert(a[i] == e[i]);
                    let n = d.index_of(e[i]);
                    assert(q[n] == a[i]);
                }
            }
            assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] hashes(a)[i] != #[trigger] hashes(a)[j] by {
                if j < e.len() {
                    assert(hashes(e)[i] != hashes(e)[j]);
                } else {
                    let n = d.index_of(e[i]);
                    assert(d[n] == a[i]);
                    assert(hashes(q)[n] != hashes(q)[q.len() - 1]);
                }
            }
        }
    }
}

pub proof fn lemma_sub_id(q: Seq<TxWrapper>)
    ensures
        sub(q, q),
    decreases q.len(),
{
    if q.len() > 0 {
        lemma_sub_id(q.drop_last());
    }
}

pub proof fn lemma_sub_fresh(q: Seq<TxWrapper>, lo: u64, hi: u64)
    ensures
        sub(fresh(q, lo, hi), q),
    decreases q.len(),
{
    if q.len() > 0 {
        lemma_sub_fresh(q.drop_last(), lo, hi);
        let f = fresh(q.drop_last(), lo, hi);
        assert(f.push(q.last()).drop_last() =~= f);
    }
}

pub proof fn lemma_sub_own(b: Flags, q: Seq<TxWrapper>)
    ensures
        sub(own(b, q), q),
    decreases q.len(),
{
    if q.len() > 0 {
        lemma_sub_own(b, q.drop_last());
        let f = own(b, q.drop_last());
        assert(f.push(q.last()).drop_last() =~= f);
    }
}

pub proof fn lemma_fresh_id(q: Seq<TxWrapper>, lo: u64, hi: u64)
    requires
        forall|i: int| 0 <= i < q.len() ==> !(#[trigger] q[i]).old_at(lo, hi),
    ensures
        fresh(q, lo, hi) == q,
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !(#[trigger] d[i]).old_at(lo, hi) by {
            assert(d[i] == q[i]);
        }
        lemma_fresh_id(d, lo, hi);
        assert(!q[q.len() - 1].old_at(lo, hi));
        assert(d.push(q.last()) =~= q);
    } else {
        assert(fresh(q, lo, hi) =~= q);
    }
}

pub proof fn lemma_pack_flags(b0: Flags, b1: Flags, q: Seq<TxWrapper>, limit: u64)
    requires
        forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).prop(b0) == q[i].prop(b1),
    ensures
        pack(b0, q, limit) == pack(b1, q, limit),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).prop(b0) == d[i].prop(b1) by {
            assert(d[i] == q[i]);
        }
        lemma_pack_flags(b0, b1, d, limit);
        assert(q[q.len() - 1].prop(b0) == q.last().prop(b1));
    }
}

/// C19. What TxCache::package returns (p) for a pool whose transactions are t: the ordered list is the longest run of
/// the unexpired within the limit, the proposed one continues it in order without those proposed by others, no hash is
/// listed twice, and a second packaging of what is left, with nothing changed, yields the same.
pub proof fn theorem_package(c: &TxCache, hm: &MapHeap<TxWrapper>, hp: &PoolHeap, b1: Flags, lo: u64, hi: u64, limit: u64)
    requires
        c.ok(hm, hp),
        forall|i: int| i != c.is_zero.id() && #[trigger] hp.b().contains_key(i) ==> b1.contains_key(i) && b1[i] == hp.b()[i],
    ensures
        ({
            let t = fresh(c.txs(hp), lo, hi);
            let p = pack(hp.b(), t, limit);
            let k = cut(t, limit);
            &&& p.order == hashes(t.take(k))
            &&& 0 <= k <= t.len()
            &&& cycles(t.take(k)) <= limit
            &&& k < t.len() ==> cycles(t.take(k + 1)) > limit
            &&& p.propose.is_prefix_of(hashes(own(hp.b(), t.skip(k))))
            &&& distinct(p.order + p.propose)
            &&& forall|i: int| 0 <= i < t.len() ==> !(#[trigger] t[i]).old_at(lo, hi) && c.v(hm).contains_key(t[i].hash())
            &&& fresh(t, lo, hi) == t
            &&& pack(b1, fresh(t, lo, hi), limit) == p
        }),
{
    let b = hp.b();
    let l = c.txs(hp);
    let t = fresh(l, lo, hi);
    let p = pack(b, t, limit);
    let k = cut(t, limit);
    lemma_cut(t, limit);
    lemma_pack(b, t, limit);
    lemma_fresh_in(l, lo, hi);
    lemma_fresh_id(t, lo, hi);
    lemma_agree_distinct(c, b, c.queue(hp), c.v(hm));
    lemma_sub_fresh(l, lo, hi);
    lemma_sub_distinct(t, l);
    let r = t.skip(k);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] hashes(r)[i] != #[trigger] hashes(r)[j] by {
        assert(hashes(t)[i + k] != hashes(t)[j + k]);
    }
    lemma_sub_own(b, r);
    let o = own(b, r);
    lemma_sub_distinct(o, r);
    let a = p.order + p.propose;
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies #[trigger] a[i] != #[trigger] a[j] by {
        if j < k {
            assert(hashes(t)[i] != hashes(t)[j]);
        } else if i >= k {
            assert(p.propose[i - k] == hashes(o)[i - k]);
            assert(p.propose[j - k] == hashes(o)[j - k]);
            assert(hashes(o)[i - k] != hashes(o)[j - k]);
        } else {
            assert(p.propose[j - k] == hashes(o)[j - k]);
            let n = r.index_of(o[j - k]);
            assert(r[n] == o[j - k]);
            assert(hashes(t)[i] != hashes(t)[n + k]);
        }
    }
    assert forall|i: int| 0 <= i < t.len() implies !(#[trigger] t[i]).old_at(lo, hi) && c.v(hm).contains_key(t[i].hash()) by {
        let n = l.index_of(t[i]);
        assert(l[n] == t[i]);
    }
    lemma_live_in(b, c.queue(hp));
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).prop(b) == t[i].prop(b1) by {
        let n = l.index_of(t[i]);
        assert(l[n] == t[i]);
        let z = c.queue(hp).index_of(l[n]);
        assert(c.queue(hp)[z].ok(b));
        assert(b.contains_key(t[i].proposed.id()));
    }
    lemma_pack_flags(b, b1, t, limit);
}

// ------------------------------------------------------------------ the adapter in use
/// Canonical encoding (C12).
pub trait ProtocolFixedCodec: Sized {
    spec fn enc(&self) -> Seq<u8>;

    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok,
            r->Ok_0@ == self.enc(),
    ;
}

impl ProtocolFixedCodec for RawTransaction {
    uninterp spec fn enc(&self) -> Seq<u8>;

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }
}

/// common_crypto::Crypto
pub trait Crypto: Sized {
    spec fn genuine(hash: Seq<u8>, sig: Seq<u8>, key: Seq<u8>) -> bool;

    fn verify_signature(hash: &[u8], sig: &[u8], key: &[u8]) -> (r: Result<(), CryptoError>)
        ensures
            r is Ok <==> Self::genuine(hash@, sig@, key@),
    ;
}

pub struct CryptoError;

/// The text of an error.
pub struct ErrText {
    pub e: Ghost<ProtocolError>,
}

/// The error says that nothing is stored under the key.
pub uninterp spec fn says(e: ProtocolError, t: Seq<char>) -> bool;

pub trait VxErrText: Sized {
    fn vx_err_text(&self) -> (r: ErrText)
    ;
}

impl VxErrText for ProtocolError {
    #[verifier::external_body]
    fn vx_err_text(&self) -> (r: ErrText)
        ensures
            r.e@ == *self,
    {
        unimplemented!()
    }
}

impl ErrText {
    #[verifier::external_body]
    pub fn contains(&self, t: &str) -> (r: bool)
        ensures
            r == says(self.e@, t@),
    {
        unimplemented!()
    }
}

//@item protocol/src/types/epoch.rs struct Epoch
//@item protocol/src/types/epoch.rs struct EpochHeader
//@item protocol/src/types/epoch.rs struct Proof
//@item protocol/src/types/epoch.rs struct Validator

/// protocol::traits::Storage, the reads the pool makes (C15).
pub trait Storage: Sized {
    spec fn latest(&self) -> Epoch;

    spec fn has(&self, h: Hash) -> bool;

    spec fn io_ok(&self) -> bool;

    fn get_latest_epoch(&self) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok ==> r->Ok_0 == self.latest(),
            self.io_ok() ==> r is Ok,
    ;

    fn get_transaction_by_hash(&self, h: Hash) -> (r: ProtocolResult<SignedTransaction>)
        ensures
            r is Ok ==> self.has(h),
            r is Err && says(r->Err_0, "GetNone"@) ==> !self.has(h),
            self.io_ok() && !self.has(h) ==> r is Err && says(r->Err_0, "GetNone"@),
    ;
}

pub struct AtomicU64 {
    pub v: Ghost<u64>,
}

impl AtomicU64 {
    #[verifier::external_body]
    pub fn new(v: u64) -> (r: Self)
        ensures
            r.v@ == v,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u64)
        ensures
            r == self.v@,
    {
        unimplemented!()
    }
}

/// core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter, the fields its checks use.
pub struct DefaultMemPoolAdapter<C, S> {
    pub storage: S,
    pub timeout_gap: AtomicU64,
    pub pin_c: core::marker::PhantomData<C>,
}

impl<C: Crypto, S: Storage> DefaultMemPoolAdapter<C, S> {
    pub open spec fn sig_ok(&self, tx: SignedTransaction) -> bool {
        C::genuine(tx.tx_hash@, tx.signature@, tx.pubkey@)
    }

    pub open spec fn tx_ok(&self, tx: SignedTransaction) -> bool {
        let h = self.storage.latest().header;
        &&& tx.tx_hash@ == keccak(tx.raw.enc())
        &&& tx.raw.chain_id == h.chain_id
        &&& h.epoch_id <= tx.raw.timeout <= h.epoch_id + self.timeout_gap.v@
    }

//@fn core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter@MemPoolAdapter::check_signature
//@. ensures
        r is Ok <==> self.sig_ok(tx),
//@end
//@fn core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter@MemPoolAdapter::check_transaction
//@. heapfn load
//@. requires
        self.storage.latest().header.epoch_id + self.timeout_gap.v@ <= u64::MAX,
//@. ensures
        r is Ok ==> self.tx_ok(stx),
        self.storage.io_ok() && self.tx_ok(stx) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter@MemPoolAdapter::check_storage_exist
//@. ensures
        r is Ok ==> !self.storage.has(tx_hash),
        self.storage.io_ok() && !self.storage.has(tx_hash) ==> r is Ok,
//@end
//@fn core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter@MemPoolAdapter::get_latest_epoch_id
//@. ensures
        r is Ok ==> r->Ok_0 == self.storage.latest().header.epoch_id,
        self.storage.io_ok() ==> r is Ok,
//@end
}
} // verus!
