//@include rocks.vrs
//@include wire.vrs
//@type "Arc<RwLock<HashMap<Vec<u8>,Vec<u8>>>>" => "ByteMap"
//@path HashMap::new => ByteMap::new
//@type "RwLock<$>" => "$"
//@cell self.db -
//@path <_>::decode => ProtocolCodec::decode
//@method iter => vx_iter
//@method cloned => vx_cloned
verus! {

//@item protocol/src/traits/storage.rs enum StorageCategory
//@item protocol/src/types/epoch.rs struct Epoch need:Clone
//@item protocol/src/types/epoch.rs struct EpochHeader need:Clone
//@item protocol/src/types/epoch.rs struct Proof need:Clone
//@item protocol/src/types/epoch.rs struct Validator need:Clone
//@item protocol/src/types/epoch.rs struct EpochId need:Clone

macro_rules! wire_of {
    ($($t:ident),*) => { verus!{ $(
        impl ProtocolCodec for $t {
            uninterp spec fn wenc(&self) -> Seq<u8>;
            uninterp spec fn wdec(b: Seq<u8>) -> Option<Self>;
            uninterp spec fn wok(&self) -> bool;
            axiom fn wlaw(x: &Self);
            #[verifier::external_body]
            fn encode(&mut self) -> (r: ProtocolResult<Bytes>) { unimplemented!() }
            #[verifier::external_body]
            fn decode<B: VxBytes>(bytes: B) -> (r: ProtocolResult<Self>) { unimplemented!() }
        }
    )* } };
}
} // verus!

wire_of!(Hash, EpochId, SignedTransaction, Receipt, Epoch, EpochHeader, Proof);

verus! {

/// Hashes and heights have no ill-formed values.
pub axiom fn plain_ok(h: Hash, e: EpochId)
    ensures
        h.wok(),
        e.wok(),
;

/// The encoding of a height is never the encoding of a hash (field 1 as a varint against field 1 as bytes).
pub axiom fn keys_apart(h: Hash, e: EpochId)
    ensures
        h.wenc() != e.wenc(),
;

pub trait StorageSchema {
    type Key: ProtocolCodec;

    type Value: ProtocolCodec;

    spec fn cat() -> StorageCategory;

    fn category() -> (r: StorageCategory)
        ensures
            r == Self::cat(),
    ;
}

//@item protocol/src/traits/storage.rs enum StorageBatchModify

// ------------------------------------------------------------------ the abstract store
pub type Store = vstd::imap::IMap<(StorageCategory, Seq<u8>), Seq<u8>>;

pub type KOp = (Seq<u8>, Option<Seq<u8>>);

pub open spec fn app1(s: Store, c: StorageCategory, o: KOp) -> Store {
    match o.1 {
        Some(v) => s.insert((c, o.0), v),
        None => s.remove((c, o.0)),
    }
}

pub open spec fn app(s: Store, c: StorageCategory, o: Seq<KOp>) -> Store
    decreases o.len(),
{
    if o.len() == 0 {
        s
    } else {
        app1(app(s, c, o.drop_last()), c, o.last())
    }
}

pub open spec fn op_val<S: StorageSchema>(v: StorageBatchModify<S>) -> Option<Seq<u8>> {
    match v {
        StorageBatchModify::Insert(x) => Some(x.wenc()),
        StorageBatchModify::Remove => None,
    }
}

/// The i-th value goes to the i-th key.
pub open spec fn kops<S: StorageSchema>(keys: Seq<S::Key>, vals: Seq<StorageBatchModify<S>>) -> Seq<KOp> {
    Seq::new(keys.len(), |i: int| (keys[i].wenc(), op_val::<S>(vals[i])))
}

pub open spec fn look<V: ProtocolCodec>(s: Store, c: StorageCategory, k: Seq<u8>) -> Option<V> {
    if s.contains_key((c, k)) {
        V::wdec(s[(c, k)])
    } else {
        None
    }
}

pub proof fn lemma_app_push(s: Store, c: StorageCategory, o: Seq<KOp>, x: KOp)
    ensures
        app(s, c, o.push(x)) == app1(app(s, c, o), c, x),
{
    assert(o.push(x).drop_last() =~= o);
}

pub trait StorageAdapter: Sized {
    spec fn store(&self) -> Store;

    spec fn awf(&self) -> bool;

    fn insert<S: StorageSchema>(&mut self, key: <S as StorageSchema>::Key, val: <S as StorageSchema>::Value) -> (r: ProtocolResult<()>)
        requires
            old(self).awf(),
        ensures
            final(self).awf(),
            r is Ok ==> final(self).store() == old(self).store().insert((S::cat(), key.wenc()), val.wenc()),
            r is Err ==> final(self).store() == old(self).store(),
            io_ok() ==> r is Ok,
    ;

    fn get<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> (r: ProtocolResult<Option<<S as StorageSchema>::Value>>)
        requires
            self.awf(),
        ensures
            r is Ok ==> r->Ok_0 == look::<S::Value>(self.store(), S::cat(), key.wenc()),
            r is Ok && self.store().contains_key((S::cat(), key.wenc())) ==> r->Ok_0 is Some,
            io_ok() && (self.store().contains_key((S::cat(), key.wenc())) ==> S::Value::wdec(self.store()[(S::cat(), key.wenc())]) is Some) ==> r is Ok,
    ;

//@fn protocol/src/traits/storage.rs StorageAdapter::get_batch key get_batch
//@. nopub
//@. requires
        self.awf(),
//@. ensures
        r is Ok ==> r->Ok_0@.len() == keys@.len(),
        r is Ok ==> forall|i: int| 0 <= i < keys@.len() ==> #[trigger] r->Ok_0@[i] == look::<S::Value>(self.store(), S::cat(), keys@[i].wenc()),
        io_ok() && (forall|i: int| 0 <= i < keys@.len() && self.store().contains_key((S::cat(), (#[trigger] keys@[i]).wenc())) ==> S::Value::wdec(self.store()[(S::cat(), keys@[i].wenc())]) is Some) ==> r is Ok,
//@. loop 0
        invariant
            self.awf(),
            __it0.s@ == keys@,
            __it0.p@ <= __it0.s@.len(),
            vec@.len() == __it0.p@,
            forall|i: int| 0 <= i < __it0.p@ ==> #[trigger] vec@[i] == look::<S::Value>(self.store(), S::cat(), keys@[i].wenc()),
        decreases __it0.s@.len() - __it0.p@,
//@end

    fn remove<S: StorageSchema>(&mut self, key: <S as StorageSchema>::Key) -> (r: ProtocolResult<()>)
        requires
            old(self).awf(),
        ensures
            final(self).awf(),
            r is Ok ==> final(self).store() == old(self).store().remove((S::cat(), key.wenc())),
            r is Err ==> final(self).store() == old(self).store(),
            io_ok() ==> r is Ok,
    ;

    fn contains<S: StorageSchema>(&self, key: <S as StorageSchema>::Key) -> (r: ProtocolResult<bool>)
        requires
            self.awf(),
        ensures
            r is Ok ==> r->Ok_0 == self.store().contains_key((S::cat(), key.wenc())),
            io_ok() ==> r is Ok,
    ;

    fn batch_modify<S: StorageSchema>(&mut self, keys: Vec<<S as StorageSchema>::Key>, vals: Vec<StorageBatchModify<S>>) -> (r: ProtocolResult<()>)
        requires
            old(self).awf(),
        ensures
            final(self).awf(),
            keys@.len() != vals@.len() ==> r is Err,
            r is Ok ==> final(self).store() == app(old(self).store(), S::cat(), kops::<S>(keys@, vals@)),
            r is Err ==> final(self).store() == old(self).store(),
            io_ok() && keys@.len() == vals@.len() ==> r is Ok,
    ;
}

// ------------------------------------------------------------------ RocksDB back end
//@item core/storage/src/adapter/rocks.rs enum RocksAdapterError
impl core::convert::From<RocksError> for RocksAdapterError {
    #[verifier::external_body]
    fn from(e: RocksError) -> RocksAdapterError {
        unimplemented!()
    }
}

impl core::convert::From<&'static str> for RocksAdapterError {
    #[verifier::external_body]
    fn from(e: &'static str) -> RocksAdapterError {
        unimplemented!()
    }
}

impl core::convert::From<RocksAdapterError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: RocksAdapterError) -> ProtocolError {
        unimplemented!()
    }
}

//@item core/storage/src/adapter/rocks.rs struct RocksAdapter
/// The column family of a category.
pub open spec fn cf_of(c: StorageCategory) -> Seq<char> {
    match c {
        StorageCategory::Epoch => "c1"@,
        StorageCategory::Receipt => "c3"@,
        StorageCategory::SignedTransaction => "c2"@,
    }
}

pub proof fn lemma_cf()
    ensures
        forall|a: StorageCategory, b: StorageCategory| #[trigger] cf_of(a) == #[trigger] cf_of(b) ==> a == b,
{
    reveal_strlit("c1");
    reveal_strlit("c2");
    reveal_strlit("c3");
    assert("c1"@[1] == '1');
    assert("c2"@[1] == '2');
    assert("c3"@[1] == '3');
}

pub open spec fn store_of(d: DbMap) -> Store {
    vstd::imap::IMap::new(|k: (StorageCategory, Seq<u8>)| d.contains_key((cf_of(k.0), k.1)), |k: (StorageCategory, Seq<u8>)| d[(cf_of(k.0), k.1)])
}

pub proof fn lemma_store_of(d: DbMap, c: StorageCategory, k: Seq<u8>, v: Seq<u8>)
    ensures
        store_of(d.insert((cf_of(c), k), v)) == store_of(d).insert((c, k), v),
        store_of(d.remove((cf_of(c), k))) == store_of(d).remove((c, k)),
{
    lemma_cf();
    assert(store_of(d.insert((cf_of(c), k), v)) =~= store_of(d).insert((c, k), v));
    assert(store_of(d.remove((cf_of(c), k))) =~= store_of(d).remove((c, k)));
}

pub open spec fn dbop(c: StorageCategory, o: KOp) -> Op {
    ((cf_of(c), o.0), o.1)
}

pub proof fn lemma_ops(d: DbMap, c: StorageCategory, o: Seq<KOp>)
    ensures
        store_of(do_ops(d, o.map_values(|x: KOp| dbop(c, x)))) == app(store_of(d), c, o),
    decreases o.len(),
{
    let m = o.map_values(|x: KOp| dbop(c, x));
    if o.len() > 0 {
        lemma_ops(d, c, o.drop_last());
        assert(m.drop_last() =~= o.drop_last().map_values(|x: KOp| dbop(c, x)));
        let e = do_ops(d, m.drop_last());
        lemma_store_of(e, c, o.last().0, match o.last().1 { Some(v) => v, None => Seq::empty() });
    }
}

//@fn core/storage/src/adapter/rocks.rs map_category key rocks::map_category
//@. ensures
        r@ == cf_of(c),
//@end
//@fn core/storage/src/adapter/rocks.rs get_column key rocks::get_column
//@. ensures
        r is Ok ==> r->Ok_0.n@ == cf_of(S::cat()),
        db.f@.contains(cf_of(S::cat())) ==> r is Ok,
//@end
//@item core/storage/src/adapter/rocks.rs const C_EPOCHS
//@item core/storage/src/adapter/rocks.rs const C_SIGNED_TRANSACTIONS
//@item core/storage/src/adapter/rocks.rs const C_RECEIPTS

/// The i-th pair to be written is the i-th key with its value.
pub open spec fn pairs_ok<S: StorageSchema>(p: Seq<(Bytes, Option<Bytes>)>, keys: Seq<S::Key>, vals: Seq<StorageBatchModify<S>>, n: int) -> bool {
    &&& p.len() == n
    &&& n <= keys.len()
    &&& forall|i: int| 0 <= i < n ==> pair_op(#[trigger] p[i]) == kops::<S>(keys, vals)[i]
}

pub open spec fn pair_op(p: (Bytes, Option<Bytes>)) -> KOp {
    (p.0@, match p.1 { Some(v) => Some(v@), None => None })
}

pub open spec fn mpairs_ok<S: StorageSchema>(p: Seq<(Vec<u8>, Option<Bytes>)>, keys: Seq<S::Key>, vals: Seq<StorageBatchModify<S>>, n: int) -> bool {
    &&& p.len() == n
    &&& n <= keys.len()
    &&& forall|i: int| 0 <= i < n ==> {
        &&& (#[trigger] p[i]).0@ == mem_key(S::cat(), kops::<S>(keys, vals)[i].0)
        &&& (match p[i].1 { Some(v) => Some(v@), None => None }) == kops::<S>(keys, vals)[i].1
    }
}

impl RocksAdapter {
//@fn core/storage/src/adapter/rocks.rs RocksAdapter::new key Rocks::new
//@. generics <P>
//@. ensures
        r is Ok ==> r->Ok_0.awf(),
//@. at before:open_cf:0
        proof {
            let s = categories@;
            assert(s[0]@ == cf_of(StorageCategory::Epoch));
            assert(s[1]@ == cf_of(StorageCategory::Receipt));
            assert(s[2]@ == cf_of(StorageCategory::SignedTransaction));
        }
//@end
}

impl StorageAdapter for RocksAdapter {
    open spec fn store(&self) -> Store {
        store_of(self.db.x@)
    }

    open spec fn awf(&self) -> bool {
        forall|c: StorageCategory| self.db.f@.contains(#[trigger] cf_of(c))
    }

//@fn core/storage/src/adapter/rocks.rs RocksAdapter::insert key Rocks::insert
//@. nopub
//@. self mut
//@. at end
        proof {
            lemma_store_of(old(self).db.x@, S::cat(), key@, val@);
        }
//@end
//@fn core/storage/src/adapter/rocks.rs RocksAdapter::get key Rocks::get
//@. nopub
//@end
//@fn core/storage/src/adapter/rocks.rs RocksAdapter::remove key Rocks::remove
//@. nopub
//@. self mut
//@. at end
        proof {
            lemma_store_of(old(self).db.x@, S::cat(), key@, Seq::empty());
        }
//@end
//@fn core/storage/src/adapter/rocks.rs RocksAdapter::contains key Rocks::contains
//@. nopub
//@end
//@fn core/storage/src/adapter/rocks.rs RocksAdapter::batch_modify key Rocks::batch_modify
//@. nopub
//@. self mut
//@. loop 0
        invariant
            *self == *old(self),
            old(self).awf(),
            keys@.len() == vals@.len(),
            __it0.s@.len() == keys@.len(),
            forall|i: int| 0 <= i < keys@.len() ==> #[trigger] __it0.s@[i] == (keys@[i], vals@[i]),
            __it0.p@ <= __it0.s@.len(),
            pairs_ok::<S>(pairs@, keys@, vals@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
        invariant
            *self == *old(self),
            old(self).awf(),
            column.n@ == cf_of(S::cat()),
            __it1.s@.len() == keys@.len(),
            pairs_ok::<S>(__it1.s@, keys@, vals@, keys@.len() as int),
            __it1.p@ <= __it1.s@.len(),
            batch.o@ == kops::<S>(keys@, vals@).take(__it1.p@ as int).map_values(|x: KOp| dbop(S::cat(), x)),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
        let ghost p0 = __it1.p@ as int;
        let ghost o0 = batch.o@;
//@. at loop:1:end
        proof {
            let k = kops::<S>(keys@, vals@);
            assert(pair_op(__it1.s@[p0]) == k[p0]);
            assert(batch.o@ == o0.push(dbop(S::cat(), k[p0])));
            assert(k.take(p0 + 1) =~= k.take(p0).push(k[p0]));
            assert(batch.o@ =~= k.take(p0 + 1).map_values(|x: KOp| dbop(S::cat(), x)));
        }
//@. at loop:1:after
        proof {
            let k = kops::<S>(keys@, vals@);
            assert(k.take(keys@.len() as int) =~= k);
            lemma_ops(old(self).db.x@, S::cat(), k);
        }
//@. at after:default:0
        proof {
            assert(batch.o@ =~= kops::<S>(keys@, vals@).take(0).map_values(|x: KOp| dbop(S::cat(), x)));
        }
//@. at before:write:0 opt
        proof {
            assert(kops::<S>(keys@, vals@).len() == 0 ==> batch.o@ =~= kops::<S>(keys@, vals@).map_values(|x: KOp| dbop(S::cat(), x)));
        }
//@end
}

// ------------------------------------------------------------------ in-memory back end
pub struct ByteMap {
    pub x: Ghost<Map<Seq<u8>, Seq<u8>>>,
}

impl ByteMap {
    #[verifier::external_body]
    pub fn new() -> (r: ByteMap)
        ensures
            r.x@ == Map::<Seq<u8>, Seq<u8>>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: Vec<u8>, v: Vec<u8>) -> (r: Option<Vec<u8>>)
        ensures
            final(self).x@ == old(self).x@.insert(k@, v@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &Vec<u8>) -> (r: Option<Vec<u8>>)
        ensures
            final(self).x@ == old(self).x@.remove(k@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get(&self, k: &Vec<u8>) -> (r: Option<&Vec<u8>>)
        ensures
            self.x@.contains_key(k@) ==> r is Some && (*r->0)@ == self.x@[k@],
            !self.x@.contains_key(k@) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &Vec<u8>) -> (r: bool)
        ensures
            r == self.x@.contains_key(k@),
    {
        unimplemented!()
    }
}

pub trait VxCloned {
    type O;

    spec fn cl(self, o: Self::O) -> bool;

    fn vx_cloned(self) -> (r: Self::O)
        ensures
            self.cl(r),
    ;
}

impl<'a> VxCloned for Option<&'a Vec<u8>> {
    type O = Option<Vec<u8>>;

    open spec fn cl(self, o: Option<Vec<u8>>) -> bool {
        match self {
            Some(x) => o is Some && o->0@ == (*x)@,
            None => o is None,
        }
    }

    #[verifier::external_body]
    fn vx_cloned(self) -> Option<Vec<u8>> {
        unimplemented!()
    }
}

//@item core/storage/src/adapter/memory.rs enum MemoryAdapterError
impl core::convert::From<MemoryAdapterError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: MemoryAdapterError) -> ProtocolError {
        unimplemented!()
    }
}

//@item core/storage/src/adapter/memory.rs struct MemoryAdapter
/// The key under which an object of a category is kept.
pub open spec fn mem_key(c: StorageCategory, k: Seq<u8>) -> Seq<u8> {
    match c {
        StorageCategory::Epoch => seq![0u8] + k,
        StorageCategory::Receipt => seq![1u8] + k,
        StorageCategory::SignedTransaction => seq![2u8] + k,
    }
}

pub open spec fn mem_store(d: Map<Seq<u8>, Seq<u8>>) -> Store {
    vstd::imap::IMap::new(|k: (StorageCategory, Seq<u8>)| d.contains_key(mem_key(k.0, k.1)), |k: (StorageCategory, Seq<u8>)| d[mem_key(k.0, k.1)])
}

pub proof fn lemma_mem_key(a: StorageCategory, x: Seq<u8>, b: StorageCategory, y: Seq<u8>)
    requires
        mem_key(a, x) == mem_key(b, y),
    ensures
        a == b,
        x == y,
{
    let t = |c: StorageCategory| match c {
        StorageCategory::Epoch => 0u8,
        StorageCategory::Receipt => 1u8,
        StorageCategory::SignedTransaction => 2u8,
    };
    assert(mem_key(a, x)[0] == t(a));
    assert(mem_key(b, y)[0] == t(b));
    assert(mem_key(a, x).skip(1) =~= x);
    assert(mem_key(b, y).skip(1) =~= y);
}

pub proof fn lemma_mem_store(d: Map<Seq<u8>, Seq<u8>>, c: StorageCategory, k: Seq<u8>, v: Seq<u8>)
    ensures
        mem_store(d.insert(mem_key(c, k), v)) == mem_store(d).insert((c, k), v),
        mem_store(d.remove(mem_key(c, k))) == mem_store(d).remove((c, k)),
{
    assert forall|b: StorageCategory, y: Seq<u8>| #[trigger] mem_key(b, y) == mem_key(c, k) implies b == c && y == k by {
        lemma_mem_key(b, y, c, k);
    }
    assert(mem_store(d.insert(mem_key(c, k), v)) =~= mem_store(d).insert((c, k), v));
    assert(mem_store(d.remove(mem_key(c, k))) =~= mem_store(d).remove((c, k)));
}

//@fn core/storage/src/adapter/memory.rs category_key key memory::category_key
//@. ensures
        r@ == mem_key(S::cat(), key@),
//@. at end
        proof {
            assert(__r@ =~= mem_key(S::cat(), key@));
        }
//@end

impl MemoryAdapter {
//@fn core/storage/src/adapter/memory.rs MemoryAdapter@-::new key Memory::new
//@. ensures
        r.store() == vstd::imap::IMap::<(StorageCategory, Seq<u8>), Seq<u8>>::empty(),
        r.awf(),
//@. at end
        proof {
            assert(__r.store() =~= vstd::imap::IMap::<(StorageCategory, Seq<u8>), Seq<u8>>::empty());
        }
//@end
//@fn core/storage/src/adapter/memory.rs MemoryAdapter@Default::default key Memory::default
//@. ensures
        r.store() == vstd::imap::IMap::<(StorageCategory, Seq<u8>), Seq<u8>>::empty(),
        r.awf(),
//@. at end
        proof {
            assert(__r.store() =~= vstd::imap::IMap::<(StorageCategory, Seq<u8>), Seq<u8>>::empty());
        }
//@end
}

impl StorageAdapter for MemoryAdapter {
    open spec fn store(&self) -> Store {
        mem_store(self.db.x@)
    }

    open spec fn awf(&self) -> bool {
        true
    }

//@fn core/storage/src/adapter/memory.rs MemoryAdapter@StorageAdapter::insert key Memory::insert
//@. nopub
//@. self mut
//@. at start
        let ghost k0 = key.wenc();
//@. at end
        proof {
            lemma_mem_store(old(self).db.x@, S::cat(), k0, val@);
        }
//@end
//@fn core/storage/src/adapter/memory.rs MemoryAdapter@StorageAdapter::get key Memory::get
//@. nopub
//@end
//@fn core/storage/src/adapter/memory.rs MemoryAdapter@StorageAdapter::remove key Memory::remove
//@. nopub
//@. self mut
//@. at start
        let ghost k0 = key.wenc();
//@. at end
        proof {
            lemma_mem_store(old(self).db.x@, S::cat(), k0, Seq::empty());
        }
//@end
//@fn core/storage/src/adapter/memory.rs MemoryAdapter@StorageAdapter::contains key Memory::contains
//@. nopub
//@end
//@fn core/storage/src/adapter/memory.rs MemoryAdapter@StorageAdapter::batch_modify key Memory::batch_modify
//@. nopub
//@. self mut
//@. loop 0
        invariant
            *self == *old(self),
            keys@.len() == vals@.len(),
            __it0.s@.len() == keys@.len(),
            forall|i: int| 0 <= i < keys@.len() ==> #[trigger] __it0.s@[i] == (keys@[i], vals@[i]),
            __it0.p@ <= __it0.s@.len(),
            mpairs_ok::<S>(pairs@, keys@, vals@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
        invariant
            mpairs_ok::<S>(__it1.s@, keys@, vals@, keys@.len() as int),
            __it1.p@ <= __it1.s@.len(),
            self.store() == app(old(self).store(), S::cat(), kops::<S>(keys@, vals@).take(__it1.p@ as int)),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
        let ghost p0 = __it1.p@ as int;
        let ghost d0 = self.db.x@;
//@. at loop:1:end
        proof {
            let k = kops::<S>(keys@, vals@);
            assert(__it1.s@[p0].0@ == mem_key(S::cat(), k[p0].0));
            lemma_mem_store(d0, S::cat(), k[p0].0, match k[p0].1 { Some(v) => v, None => Seq::empty() });
            assert(k.take(p0 + 1) =~= k.take(p0).push(k[p0]));
            lemma_app_push(old(self).store(), S::cat(), k.take(p0), k[p0]);
        }
//@. at loop:1:after
        proof {
            let k = kops::<S>(keys@, vals@);
            assert(k.take(keys@.len() as int) =~= k);
        }
//@end
}

// ------------------------------------------------------------------ the schemas
//@macros core/storage/src/lib.rs
pub struct TransactionSchema;

pub struct ReceiptSchema;

pub struct EpochSchema;

pub struct HashEpochSchema;

pub struct LatestEpochSchema;

pub struct LatestProofSchema;

impl StorageSchema for TransactionSchema {
//@item core/storage/src/lib.rs assoc TransactionSchema@StorageSchema
    open spec fn cat() -> StorageCategory {
        StorageCategory::SignedTransaction
    }

//@fn core/storage/src/lib.rs TransactionSchema@StorageSchema::category key schema::transaction
//@. nopub
//@end
}

impl StorageSchema for ReceiptSchema {
//@item core/storage/src/lib.rs assoc ReceiptSchema@StorageSchema
    open spec fn cat() -> StorageCategory {
        StorageCategory::Receipt
    }

//@fn core/storage/src/lib.rs ReceiptSchema@StorageSchema::category key schema::receipt
//@. nopub
//@end
}

impl StorageSchema for EpochSchema {
//@item core/storage/src/lib.rs assoc EpochSchema@StorageSchema
    open spec fn cat() -> StorageCategory {
        StorageCategory::Epoch
    }

//@fn core/storage/src/lib.rs EpochSchema@StorageSchema::category key schema::epoch
//@. nopub
//@end
}

impl StorageSchema for HashEpochSchema {
//@item core/storage/src/lib.rs assoc HashEpochSchema@StorageSchema
    open spec fn cat() -> StorageCategory {
        StorageCategory::Epoch
    }

//@fn core/storage/src/lib.rs HashEpochSchema@StorageSchema::category key schema::hash_epoch
//@. nopub
//@end
}

impl StorageSchema for LatestEpochSchema {
//@item core/storage/src/lib.rs assoc LatestEpochSchema@StorageSchema
    open spec fn cat() -> StorageCategory {
        StorageCategory::Epoch
    }

//@fn core/storage/src/lib.rs LatestEpochSchema@StorageSchema::category key schema::latest_epoch
//@. nopub
//@end
}

impl StorageSchema for LatestProofSchema {
//@item core/storage/src/lib.rs assoc LatestProofSchema@StorageSchema
    open spec fn cat() -> StorageCategory {
        StorageCategory::Epoch
    }

//@fn core/storage/src/lib.rs LatestProofSchema@StorageSchema::category key schema::latest_proof
//@. nopub
//@end
}

// ------------------------------------------------------------------ ImplStorage
//@fn core/storage/src/lib.rs LATEST_EPOCH_KEY lazy key LATEST_EPOCH_KEY
//@. ensures
        r == the_hash(keccak(utf8("latest_hash"@))),
//@. at end
        proof {
            lemma_the_hash(__r);
        }
//@end
//@fn core/storage/src/lib.rs LATEST_PROOF_KEY lazy key LATEST_PROOF_KEY
//@. ensures
        r == the_hash(keccak(utf8("latest_proof"@))),
//@. at end
        proof {
            lemma_the_hash(__r);
        }
//@end
/// The hash with these bytes.
pub open spec fn the_hash(s: Seq<u8>) -> Hash {
    choose|h: Hash| h@ == s
}

pub proof fn lemma_the_hash(h: Hash)
    ensures
        the_hash(h@) == h,
{
    assert(the_hash(h@)@ == h@);
    axb::array_ext(the_hash(h@).0, h.0);
}

pub open spec fn k_tx(h: Hash) -> (StorageCategory, Seq<u8>) {
    (StorageCategory::SignedTransaction, h.wenc())
}

pub open spec fn k_receipt(h: Hash) -> (StorageCategory, Seq<u8>) {
    (StorageCategory::Receipt, h.wenc())
}

pub open spec fn k_height(n: u64) -> (StorageCategory, Seq<u8>) {
    (StorageCategory::Epoch, EpochId { id: n }.wenc())
}

pub open spec fn k_epoch_hash(h: Hash) -> (StorageCategory, Seq<u8>) {
    (StorageCategory::Epoch, h.wenc())
}

pub open spec fn k_latest() -> (StorageCategory, Seq<u8>) {
    (StorageCategory::Epoch, the_hash(keccak(utf8("latest_hash"@))).wenc())
}

pub open spec fn k_proof() -> (StorageCategory, Seq<u8>) {
    (StorageCategory::Epoch, the_hash(keccak(utf8("latest_proof"@))).wenc())
}

pub open spec fn epoch_hash(e: Epoch) -> Hash {
    the_hash(keccak(e.header.wenc()))
}

pub open spec fn tx_ops(t: Seq<SignedTransaction>) -> Seq<KOp> {
    Seq::new(t.len(), |i: int| (t[i].tx_hash.wenc(), Some(t[i].wenc())))
}

pub open spec fn receipt_ops(t: Seq<Receipt>) -> Seq<KOp> {
    Seq::new(t.len(), |i: int| (t[i].tx_hash.wenc(), Some(t[i].wenc())))
}

pub open spec fn flat<T>(v: Seq<Option<T>>) -> Seq<T>
    decreases v.len(),
{
    if v.len() == 0 {
        Seq::empty()
    } else if v.last() is Some {
        flat(v.drop_last()).push(v.last()->0)
    } else {
        flat(v.drop_last())
    }
}

/// What is stored for these hashes, in the order of the request.
pub open spec fn found<T: ProtocolCodec>(s: Store, c: StorageCategory, h: Seq<Hash>) -> Seq<T> {
    flat(Seq::new(h.len(), |i: int| look::<T>(s, c, h[i].wenc())))
}

/// A read that answers what is stored under `k`, and an error when nothing is.
pub open spec fn reads<T: ProtocolCodec>(s: Store, k: (StorageCategory, Seq<u8>), r: ProtocolResult<T>) -> bool {
    &&& r is Ok ==> look::<T>(s, k.0, k.1) == Some(r->Ok_0)
    &&& io_ok() && look::<T>(s, k.0, k.1) is Some ==> r is Ok
    &&& !s.contains_key(k) ==> r is Err
}

//@item core/storage/src/lib.rs enum StorageError
impl core::convert::From<StorageError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: StorageError) -> ProtocolError {
        unimplemented!()
    }
}

//@fn core/storage/src/lib.rs opts_to_flat
//@. ensures
        r@ == flat(values@),
//@. loop 0
        invariant
            __it0.s@ == values@,
            __it0.p@ <= values@.len(),
            __v2@ == flat(values@.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        let ghost p0 = __it0.p@ as int;
//@. at loop:0:end
        proof {
            assert(values@.take(p0 + 1).drop_last() =~= values@.take(p0));
        }
//@. at loop:0:after
        proof {
            assert(values@.take(values@.len() as int) =~= values@);
        }
//@end
//@fn core/storage/src/lib.rs check_none
//@. ensures
        r is Ok <==> opt is Some,
        r is Ok ==> r->Ok_0 == opt->0,
//@end

//@item core/storage/src/lib.rs struct ImplStorage
impl<Adapter: StorageAdapter> ImplStorage<Adapter> {
    pub open spec fn st(&self) -> Store {
        self.adapter.store()
    }

//@fn core/storage/src/lib.rs ImplStorage@-::new key Storage::new
//@. ensures
        r.adapter == adapter,
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::insert_transactions key Storage::insert_transactions
//@. self mut
//@. requires
        old(self).adapter.awf(),
//@. ensures
        final(self).adapter.awf(),
        r is Ok ==> final(self).st() == app(old(self).st(), StorageCategory::SignedTransaction, tx_ops(signed_txs@)),
        r is Err ==> final(self).st() == old(self).st(),
        io_ok() ==> r is Ok,
//@. loop 0
        invariant
            *self == *old(self),
            __it0.s@ == signed_txs@,
            __it0.p@ <= signed_txs@.len(),
            __m1_hashes@ == Seq::new(__it0.p@, |i: int| signed_txs@[i].tx_hash),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:end
        proof {
            assert(__m1_hashes@ =~= Seq::new(__it0.p@, |i: int| signed_txs@[i].tx_hash));
        }
//@. loop 1
        invariant
            *self == *old(self),
            __it1.s@ == signed_txs@,
            __it1.p@ <= signed_txs@.len(),
            __v2@ == Seq::new(__it1.p@, |i: int| StorageBatchModify::<TransactionSchema>::Insert(signed_txs@[i])),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:end
        proof {
            assert(__v2@ =~= Seq::new(__it1.p@, |i: int| StorageBatchModify::<TransactionSchema>::Insert(signed_txs@[i])));
        }
//@. at before:batch_modify:0
        let ghost ks = __m1_hashes@;
        let ghost vs = __m1_batch_insert@;
        proof {
            assert(kops::<TransactionSchema>(ks, vs) =~= tx_ops(signed_txs@));
        }
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::insert_receipts key Storage::insert_receipts
//@. self mut
//@. requires
        old(self).adapter.awf(),
//@. ensures
        final(self).adapter.awf(),
        r is Ok ==> final(self).st() == app(old(self).st(), StorageCategory::Receipt, receipt_ops(receipts@)),
        r is Err ==> final(self).st() == old(self).st(),
        io_ok() ==> r is Ok,
//@. loop 0
        invariant
            *self == *old(self),
            __it0.s@ == receipts@,
            __it0.p@ <= receipts@.len(),
            __m1_hashes@ == Seq::new(__it0.p@, |i: int| receipts@[i].tx_hash),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:end
        proof {
            assert(__m1_hashes@ =~= Seq::new(__it0.p@, |i: int| receipts@[i].tx_hash));
        }
//@. loop 1
        invariant
            *self == *old(self),
            __it1.s@ == receipts@,
            __it1.p@ <= receipts@.len(),
            __v2@ == Seq::new(__it1.p@, |i: int| StorageBatchModify::<ReceiptSchema>::Insert(receipts@[i])),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:end
        proof {
            assert(__v2@ =~= Seq::new(__it1.p@, |i: int| StorageBatchModify::<ReceiptSchema>::Insert(receipts@[i])));
        }
//@. at before:batch_modify:0
        let ghost ks = __m1_hashes@;
        let ghost vs = __m1_batch_insert@;
        proof {
            assert(kops::<ReceiptSchema>(ks, vs) =~= receipt_ops(receipts@));
        }
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::insert_epoch key Storage::insert_epoch
//@. self mut
//@. requires
        old(self).adapter.awf(),
//@. ensures
        final(self).adapter.awf(),
        r is Ok ==> final(self).st() == put_epoch(old(self).st(), epoch),
        io_ok() ==> r is Ok,
//@. at before:insert:0 opt
        proof {
            lemma_the_hash(epoch_hash);
        }
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::update_latest_proof key Storage::update_latest_proof
//@. self mut
//@. requires
        old(self).adapter.awf(),
//@. ensures
        final(self).adapter.awf(),
        r is Ok ==> final(self).st() == old(self).st().insert(k_proof(), proof.wenc()),
        r is Err ==> final(self).st() == old(self).st(),
        io_ok() ==> r is Ok,
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_transaction_by_hash key Storage::get_transaction_by_hash
//@. requires
        self.adapter.awf(),
//@. ensures
        reads::<SignedTransaction>(self.st(), k_tx(tx_hash), r),
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_transactions key Storage::get_transactions
//@. requires
        self.adapter.awf(),
//@. ensures
        r is Ok ==> r->Ok_0@ == found::<SignedTransaction>(self.st(), StorageCategory::SignedTransaction, hashes@),
        io_ok() && (forall|i: int| 0 <= i < hashes@.len() && self.st().contains_key(k_tx(#[trigger] hashes@[i])) ==> look::<SignedTransaction>(self.st(), StorageCategory::SignedTransaction, hashes@[i].wenc()) is Some) ==> r is Ok,
//@. at after:get_batch:0 opt
        proof {
            assert(__m1_opt@ =~= Seq::new(hashes@.len(), |i: int| look::<SignedTransaction>(self.st(), StorageCategory::SignedTransaction, hashes@[i].wenc())));
        }
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_latest_epoch key Storage::get_latest_epoch
//@. requires
        self.adapter.awf(),
//@. ensures
        reads::<Epoch>(self.st(), k_latest(), r),
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_epoch_by_epoch_id key Storage::get_epoch_by_epoch_id
//@. requires
        self.adapter.awf(),
//@. ensures
        reads::<Epoch>(self.st(), k_height(epoch_id), r),
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_epoch_by_hash key Storage::get_epoch_by_hash
//@. requires
        self.adapter.awf(),
//@. ensures
        ({
            let id = look::<EpochId>(self.st(), StorageCategory::Epoch, epoch_hash.wenc());
            &&& r is Ok ==> id is Some && look::<Epoch>(self.st(), StorageCategory::Epoch, id->0.wenc()) == Some(r->Ok_0)
            &&& io_ok() && id is Some && look::<Epoch>(self.st(), StorageCategory::Epoch, id->0.wenc()) is Some ==> r is Ok
        }),
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_receipt key Storage::get_receipt
//@. requires
        self.adapter.awf(),
//@. ensures
        reads::<Receipt>(self.st(), k_receipt(hash), r),
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_receipts key Storage::get_receipts
//@. requires
        self.adapter.awf(),
//@. ensures
        r is Ok ==> r->Ok_0@ == found::<Receipt>(self.st(), StorageCategory::Receipt, hashes@),
        io_ok() && (forall|i: int| 0 <= i < hashes@.len() && self.st().contains_key(k_receipt(#[trigger] hashes@[i])) ==> look::<Receipt>(self.st(), StorageCategory::Receipt, hashes@[i].wenc()) is Some) ==> r is Ok,
//@. at after:get_batch:0 opt
        proof {
            assert(__m1_opt@ =~= Seq::new(hashes@.len(), |i: int| look::<Receipt>(self.st(), StorageCategory::Receipt, hashes@[i].wenc())));
        }
//@end
//@fn core/storage/src/lib.rs ImplStorage@Storage::get_latest_proof key Storage::get_latest_proof
//@. requires
        self.adapter.awf(),
//@. ensures
        reads::<Proof>(self.st(), k_proof(), r),
//@end
}

pub open spec fn put_epoch(s: Store, e: Epoch) -> Store {
    s.insert(k_height(e.header.epoch_id), e.wenc()).insert(k_epoch_hash(epoch_hash(e)), EpochId { id: e.header.epoch_id }.wenc()).insert(k_latest(), e.wenc())
}

// ------------------------------------------------------------------ C15
/// The hash of an epoch is none of the two reserved keys, and epochs of different headers have different
/// hashes (collision freedom of keccak-256); the two reserved keys differ.
pub axiom fn hash_free(a: Epoch, b: Epoch)
    ensures
        epoch_hash(a)@ == keccak(a.header.wenc()),
        keccak(a.header.wenc()) != keccak(utf8("latest_hash"@)),
        keccak(a.header.wenc()) != keccak(utf8("latest_proof"@)),
        keccak(a.header.wenc()) == keccak(b.header.wenc()) ==> a.header.wenc() == b.header.wenc(),
        keccak(utf8("latest_hash"@)) != keccak(utf8("latest_proof"@)),
;

/// Keys of the stored objects are pairwise apart.
proof fn lemma_keys(e: Epoch, n: u64, h: Hash)
    ensures
        k_height(n) != k_epoch_hash(h),
        k_height(n) == k_height(e.header.epoch_id) ==> n == e.header.epoch_id,
        k_epoch_hash(h) == k_epoch_hash(epoch_hash(e)) ==> h == epoch_hash(e),
        k_height(n) != k_latest(),
        k_height(n) != k_proof(),
        k_latest() != k_proof(),
        k_epoch_hash(epoch_hash(e)) != k_latest(),
        k_epoch_hash(epoch_hash(e)) != k_proof(),
{
    let lh = vx_hash(keccak(utf8("latest_hash"@)));
    let lp = vx_hash(keccak(utf8("latest_proof"@)));
    hash_free(e, e);
    keys_apart(h, EpochId { id: n });
    keys_apart(lh, EpochId { id: n });
    keys_apart(lp, EpochId { id: n });
    plain_ok(h, EpochId { id: n });
    plain_ok(epoch_hash(e), EpochId { id: e.header.epoch_id });
    plain_ok(lh, EpochId { id: n });
    plain_ok(lp, EpochId { id: n });
    <EpochId as ProtocolCodec>::wlaw(&EpochId { id: n });
    <EpochId as ProtocolCodec>::wlaw(&EpochId { id: e.header.epoch_id });
    <Hash as ProtocolCodec>::wlaw(&h);
    <Hash as ProtocolCodec>::wlaw(&lh);
    <Hash as ProtocolCodec>::wlaw(&lp);
    <Hash as ProtocolCodec>::wlaw(&epoch_hash(e));
}

proof fn vx_hash(s: Seq<u8>) -> (h: Hash)
    requires
        s.len() == 32,
    ensures
        h@ == s,
        the_hash(s) == h,
{
    let h = mk_hash(s);
    lemma_the_hash(h);
    h
}

/// Every 32 bytes are the bytes of a hash.
axiom fn mk_hash(s: Seq<u8>) -> (h: Hash)
    requires
        s.len() == 32,
    ensures
        h@ == s,
;

/// A stored epoch reads back by height, by hash and as the latest; every other height, every other epoch's
/// hash, the latest proof, the transactions and the receipts are as before.
proof fn c15_epoch(s: Store, e: Epoch, f: Epoch, n: u64, h: Hash)
    requires
        e.wok(),
    ensures
        ({
            let t = put_epoch(s, e);
            &&& look::<Epoch>(t, StorageCategory::Epoch, k_height(e.header.epoch_id).1) == Some(e)
            &&& look::<EpochId>(t, StorageCategory::Epoch, epoch_hash(e).wenc()) == Some(EpochId { id: e.header.epoch_id })
            &&& look::<Epoch>(t, StorageCategory::Epoch, k_latest().1) == Some(e)
            &&& n != e.header.epoch_id ==> look::<Epoch>(t, StorageCategory::Epoch, k_height(n).1) == look::<Epoch>(s, StorageCategory::Epoch, k_height(n).1)
            &&& f.header.wenc() != e.header.wenc() ==> look::<EpochId>(t, StorageCategory::Epoch, epoch_hash(f).wenc()) == look::<EpochId>(s, StorageCategory::Epoch, epoch_hash(f).wenc())
            &&& look::<Proof>(t, k_proof().0, k_proof().1) == look::<Proof>(s, k_proof().0, k_proof().1)
            &&& look::<SignedTransaction>(t, k_tx(h).0, k_tx(h).1) == look::<SignedTransaction>(s, k_tx(h).0, k_tx(h).1)
            &&& look::<Receipt>(t, k_receipt(h).0, k_receipt(h).1) == look::<Receipt>(s, k_receipt(h).0, k_receipt(h).1)
        }),
{
    lemma_keys(e, n, h);
    lemma_keys(e, n, epoch_hash(e));
    lemma_keys(e, e.header.epoch_id, epoch_hash(f));
    lemma_keys(e, e.header.epoch_id, epoch_hash(e));
    lemma_keys(f, n, h);
    hash_free(e, f);
    hash_free(f, e);
    plain_ok(h, EpochId { id: e.header.epoch_id });
    <Epoch as ProtocolCodec>::wlaw(&e);
    <EpochId as ProtocolCodec>::wlaw(&EpochId { id: e.header.epoch_id });
    let t = put_epoch(s, e);
    assert(look::<Epoch>(t, StorageCategory::Epoch, k_height(e.header.epoch_id).1) == Some(e));
    assert(look::<EpochId>(t, StorageCategory::Epoch, epoch_hash(e).wenc()) == Some(EpochId { id: e.header.epoch_id }));
    assert(look::<Epoch>(t, StorageCategory::Epoch, k_latest().1) == Some(e));
    if n != e.header.epoch_id {
        assert(look::<Epoch>(t, StorageCategory::Epoch, k_height(n).1) == look::<Epoch>(s, StorageCategory::Epoch, k_height(n).1));
    }
    if f.header.wenc() != e.header.wenc() {
        assert(epoch_hash(f) != epoch_hash(e));
        assert(k_epoch_hash(epoch_hash(f)) != k_epoch_hash(epoch_hash(e)));
        assert(k_epoch_hash(epoch_hash(f)) != k_latest());
        assert(k_epoch_hash(epoch_hash(f)) != k_height(e.header.epoch_id));
        assert(look::<EpochId>(t, StorageCategory::Epoch, epoch_hash(f).wenc()) == look::<EpochId>(s, StorageCategory::Epoch, epoch_hash(f).wenc()));
    }
    assert(look::<Proof>(t, k_proof().0, k_proof().1) == look::<Proof>(s, k_proof().0, k_proof().1));
    assert(look::<SignedTransaction>(t, k_tx(h).0, k_tx(h).1) == look::<SignedTransaction>(s, k_tx(h).0, k_tx(h).1));
}

/// The latest proof reads back; the epochs do not notice.
proof fn c15_proof(s: Store, p: Proof, e: Epoch, n: u64, h: Hash)
    requires
        p.wok(),
    ensures
        ({
            let t = s.insert(k_proof(), p.wenc());
            &&& look::<Proof>(t, k_proof().0, k_proof().1) == Some(p)
            &&& look::<Epoch>(t, k_height(n).0, k_height(n).1) == look::<Epoch>(s, k_height(n).0, k_height(n).1)
            &&& look::<EpochId>(t, StorageCategory::Epoch, epoch_hash(e).wenc()) == look::<EpochId>(s, StorageCategory::Epoch, epoch_hash(e).wenc())
            &&& look::<Epoch>(t, k_latest().0, k_latest().1) == look::<Epoch>(s, k_latest().0, k_latest().1)
            &&& look::<SignedTransaction>(t, k_tx(h).0, k_tx(h).1) == look::<SignedTransaction>(s, k_tx(h).0, k_tx(h).1)
            &&& look::<Receipt>(t, k_receipt(h).0, k_receipt(h).1) == look::<Receipt>(s, k_receipt(h).0, k_receipt(h).1)
        }),
{
    lemma_keys(e, n, h);
    <Proof as ProtocolCodec>::wlaw(&p);
}

/// Of the operations of a batch on one key, the last one decides.
pub open spec fn last_op(o: Seq<KOp>, k: Seq<u8>) -> int
    decreases o.len(),
{
    if o.len() == 0 {
        -1
    } else if o.last().0 == k {
        o.len() - 1
    } else {
        last_op(o.drop_last(), k)
    }
}

/// C16: after a batch every key named in it holds the value paired with it (nothing, if it was marked for
/// removal), and no other key of any category changes.
proof fn c16_batch(s: Store, c: StorageCategory, o: Seq<KOp>, d: StorageCategory, k: Seq<u8>)
    ensures
        ({
            let t = app(s, c, o);
            let i = last_op(o, k);
            &&& -1 <= i < o.len()
            &&& i >= 0 ==> o[i].0 == k
            &&& d == c && i >= 0 ==> (t.contains_key((d, k)) <==> o[i].1 is Some) && (o[i].1 is Some ==> t[(d, k)] == o[i].1->0)
            &&& d != c || i < 0 ==> (t.contains_key((d, k)) <==> s.contains_key((d, k))) && t[(d, k)] == s[(d, k)]
            &&& forall|j: int| i < j < o.len() ==> (#[trigger] o[j]).0 != k
        }),
    decreases o.len(),
{
    if o.len() > 0 {
        c16_batch(s, c, o.drop_last(), d, k);
        let i = last_op(o, k);
        assert forall|j: int| i < j < o.len() implies (#[trigger] o[j]).0 != k by {
            if j < o.len() - 1 {
                assert(o.drop_last()[j] == o[j]);
            }
        }
    }
}

/// Stored transactions read back under their hash, in any order of the request; other objects are as before.
proof fn c15_transactions(s: Store, t: Seq<SignedTransaction>, i: int, h: Hash, n: u64)
    requires
        0 <= i < t.len(),
        t[i].wok(),
        forall|j: int| i < j < t.len() ==> (#[trigger] t[j]).tx_hash != t[i].tx_hash,
    ensures
        ({
            let u = app(s, StorageCategory::SignedTransaction, tx_ops(t));
            &&& look::<SignedTransaction>(u, k_tx(t[i].tx_hash).0, k_tx(t[i].tx_hash).1) == Some(t[i])
            &&& (forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]).tx_hash != h) ==> look::<SignedTransaction>(u, k_tx(h).0, k_tx(h).1) == look::<SignedTransaction>(s, k_tx(h).0, k_tx(h).1)
            &&& look::<Receipt>(u, k_receipt(h).0, k_receipt(h).1) == look::<Receipt>(s, k_receipt(h).0, k_receipt(h).1)
            &&& look::<Epoch>(u, k_height(n).0, k_height(n).1) == look::<Epoch>(s, k_height(n).0, k_height(n).1)
        }),
{
    let c = StorageCategory::SignedTransaction;
    let o = tx_ops(t);
    let k = t[i].tx_hash.wenc();
    lemma_hash_inj();
    c16_batch(s, c, o, c, k);
    c16_batch(s, c, o, c, h.wenc());
    c16_batch(s, c, o, StorageCategory::Receipt, h.wenc());
    c16_batch(s, c, o, StorageCategory::Epoch, k_height(n).1);
    let l = last_op(o, k);
    if l < i {
        assert(o[i].0 != k);
    } else if l > i {
        assert(t[l].tx_hash != t[i].tx_hash);
    }
    let m = last_op(o, h.wenc());
    if m >= 0 {
        assert(t[m].tx_hash == h);
    }
    <SignedTransaction as ProtocolCodec>::wlaw(&t[i]);
}

proof fn c15_receipts(s: Store, t: Seq<Receipt>, i: int, h: Hash, n: u64)
    requires
        0 <= i < t.len(),
        t[i].wok(),
        forall|j: int| i < j < t.len() ==> (#[trigger] t[j]).tx_hash != t[i].tx_hash,
    ensures
        ({
            let u = app(s, StorageCategory::Receipt, receipt_ops(t));
            &&& look::<Receipt>(u, k_receipt(t[i].tx_hash).0, k_receipt(t[i].tx_hash).1) == Some(t[i])
            &&& (forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]).tx_hash != h) ==> look::<Receipt>(u, k_receipt(h).0, k_receipt(h).1) == look::<Receipt>(s, k_receipt(h).0, k_receipt(h).1)
            &&& look::<SignedTransaction>(u, k_tx(h).0, k_tx(h).1) == look::<SignedTransaction>(s, k_tx(h).0, k_tx(h).1)
            &&& look::<Epoch>(u, k_height(n).0, k_height(n).1) == look::<Epoch>(s, k_height(n).0, k_height(n).1)
        }),
{
    let c = StorageCategory::Receipt;
    let o = receipt_ops(t);
    let k = t[i].tx_hash.wenc();
    lemma_hash_inj();
    c16_batch(s, c, o, c, k);
    c16_batch(s, c, o, c, h.wenc());
    c16_batch(s, c, o, StorageCategory::SignedTransaction, h.wenc());
    c16_batch(s, c, o, StorageCategory::Epoch, k_height(n).1);
    let l = last_op(o, k);
    if l < i {
        assert(o[i].0 != k);
    } else if l > i {
        assert(t[l].tx_hash != t[i].tx_hash);
    }
    let m = last_op(o, h.wenc());
    if m >= 0 {
        assert(t[m].tx_hash == h);
    }
    <Receipt as ProtocolCodec>::wlaw(&t[i]);
}

proof fn lemma_hash_inj()
    ensures
        forall|a: Hash, b: Hash| #[trigger] a.wenc() == #[trigger] b.wenc() ==> a == b,
{
    assert forall|a: Hash, b: Hash| #[trigger] a.wenc() == #[trigger] b.wenc() implies a == b by {
        plain_ok(a, EpochId { id: 0 });
        plain_ok(b, EpochId { id: 0 });
        <Hash as ProtocolCodec>::wlaw(&a);
        <Hash as ProtocolCodec>::wlaw(&b);
    }
}

} // verus!
