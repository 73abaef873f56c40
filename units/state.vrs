//@include types.vrs
//@type "RcInvokeContext" => "CtxRc"
//@type "Rc<RefCell<StateAdapter>>" => "StRc"
//@type "RcGeneralContractStateAdapter<DB>" => "StRc"
//@type "Rc<RefCell<GeneralContractStateAdapter<DB>>>" => "StRc"
//@type "MPTTrie<DB>" => "MPTTrie"
//@type "PatriciaTrie<DB,HasherKeccak>" => "PatriciaTrie"
//@type "Arc<DB>" => "Db"
//@type "NativeAccountContract<GeneralContractStateAdapter<DB>>" => "NativeAccountContract"
//@type "NativeBankContract<GeneralContractStateAdapter<DB>>" => "NativeBankContract"
//@type "dynExecutor" => "TransactionExecutor"
//@path PatriciaTrie::from => PatriciaTrie::open
//@path MPTTrie::from => MPTTrie::open
//@cell *ictx hc
//@cell *state_adapter hs
//@cell state hs
//@heapfn PatriciaTrie::open hd
//@heapfn MPTTrie::open hd
//@heapfn *.trie.root hd
//@heapfn *.trie.commit hd
//@heapfn *.borrow_mut(hs).commit hd
//@heapfn self.commit hs hd
//@heapfn self.stash hs
//@heapfn self.revert hs
//@heapfn find_or_create hs
//@heapfn self.account_contract.transfer hc hs
//@heapfn inc_nonce hc hs
//@heapfn create_account hs
//@heapfn add_balance hs
//@heapfn sub_balance hs
//@heapfn get_balance hs
//@heapfn get_account hs
//@heapfn get_nonce hs
//@heapfn register hc hs
//@heapfn get_asset hs
//@heapfn self.dispatch hc hs
//@heapfn self.handle_transfer hc hs
//@heapfn self.handle_deploy hc hs
//@heapfn gen_invoke_ctx hc
//@heapfn gen_contract_state hs hd
//@opassign *.balance
//@opassign *balance
//@method to_owned => vx_to_owned
verus! {

// ------------------------------------------------------------------ canonical encoding, as a contract
/// What C12 establishes for every type used as a key or a value of the ledger.
pub trait ProtocolFixedCodec: Sized {
    spec fn enc(&self) -> Seq<u8>;

    spec fn dec(b: Seq<u8>) -> Option<Self>;

    spec fn cwf(&self) -> bool;

    proof fn law(x: &Self)
        requires
            x.cwf(),
        ensures
            Self::dec(x.enc()) == Some(*x),
            x.enc().len() > 0,
    ;

    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok,
            r->Ok_0 == bytes_of(self.enc()),
    ;

    fn decode_fixed(bytes: Bytes) -> (r: ProtocolResult<Self>)
        ensures
            r is Ok <==> Self::dec(bytes@) is Some,
            r is Ok ==> r->Ok_0 == Self::dec(bytes@)->0,
    ;
}

pub uninterp spec fn address_enc(a: Seq<u8>) -> Seq<u8>;

pub uninterp spec fn address_dec(b: Seq<u8>) -> Option<Address>;

impl ProtocolFixedCodec for Address {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    open spec fn cwf(&self) -> bool {
        address_wf(*self)
    }

    axiom fn law(x: &Self);

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(bytes: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Hash {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    open spec fn cwf(&self) -> bool {
        true
    }

    axiom fn law(x: &Self);

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(bytes: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Account {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    open spec fn cwf(&self) -> bool {
        true
    }

    axiom fn law(x: &Self);

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(bytes: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Asset {
    uninterp spec fn enc(&self) -> Seq<u8>;

    uninterp spec fn dec(b: Seq<u8>) -> Option<Self>;

    open spec fn cwf(&self) -> bool {
        contract_wf(self.manage_contract)
    }

    axiom fn law(x: &Self);

    #[verifier::external_body]
    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode_fixed(bytes: Bytes) -> (r: ProtocolResult<Self>) {
        unimplemented!()
    }
}

pub trait ContractSchema {
    type Key: ProtocolFixedCodec;

    type Value: ProtocolFixedCodec;
}

pub struct FixedAssetSchema;

impl ContractSchema for FixedAssetSchema {
    type Key = AssetID;
    type Value = Asset;
}

pub struct FixedAccountSchema;

impl ContractSchema for FixedAccountSchema {
    type Key = Address;
    type Value = Account;
}

// ------------------------------------------------------------------ the trie library
pub type KV = Map<Bytes, Bytes>;

pub uninterp spec fn root_of(c: KV) -> Seq<u8>;

/// Merkle roots of different contents differ (collision freedom of keccak).
pub axiom fn root_injective(a: KV, b: KV)
    ensures
        root_of(a).len() == 32,
        root_of(a) == root_of(b) ==> a == b,
;

pub axiom fn root_empty()
    ensures
        root_of(Map::empty()) == keccak(null_rlp()),
;

/// The node database: the contents readable from each root.
pub struct DbHeap {
    pub x: Ghost<Map<Seq<u8>, KV>>,
}

impl DbHeap {
    pub open spec fn m(&self) -> Map<Seq<u8>, KV> {
        self.x@
    }

    /// Every root recorded is the root of the content recorded for it.
    pub open spec fn wf(&self) -> bool {
        forall|r: Seq<u8>| #[trigger] self.m().contains_key(r) ==> root_of(self.m()[r]) == r
    }
}

pub struct Db;

impl Clone for Db {
    #[verifier::external_body]
    fn clone(&self) -> Self {
        unimplemented!()
    }
}

impl Clone for HasherKeccak {
    #[verifier::external_body]
    fn clone(&self) -> Self {
        unimplemented!()
    }
}

pub struct TrieError;

//@item core/executor/src/trie/mod.rs enum MPTTrieError
impl core::convert::From<TrieError> for MPTTrieError {
    #[verifier::external_body]
    fn from(e: TrieError) -> MPTTrieError {
        unimplemented!()
    }
}

impl core::convert::From<MPTTrieError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: MPTTrieError) -> ProtocolError {
        unimplemented!()
    }
}

/// cita_trie::PatriciaTrie
pub struct PatriciaTrie {
    pub c: Ghost<KV>,
}

/// Inserting an empty value removes the key.
pub open spec fn tput(c: KV, k: Bytes, v: Bytes) -> KV {
    if v@.len() == 0 {
        c.remove(k)
    } else {
        c.insert(k, v)
    }
}

impl PatriciaTrie {
    #[verifier::external_body]
    pub fn new(db: Db, h: HasherKeccak) -> (r: PatriciaTrie)
        ensures
            r.c@ == Map::<Bytes, Bytes>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn open(db: Db, h: HasherKeccak, root: &Bytes, hd: &mut DbHeap) -> (r: Result<PatriciaTrie, TrieError>)
        ensures
            *final(hd) == *old(hd),
            r is Ok ==> old(hd).m().contains_key(root@) && r->Ok_0.c@ == old(hd).m()[root@],
            io_ok() && old(hd).m().contains_key(root@) ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get(&self, key: &Bytes) -> (r: Result<Option<Vec<u8>>, TrieError>)
        ensures
            r is Ok && self.c@.contains_key(*key) ==> r->Ok_0 is Some && r->Ok_0->0@ == self.c@[*key]@,
            r is Ok && !self.c@.contains_key(*key) ==> r->Ok_0 is None,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains(&self, key: &Bytes) -> (r: Result<bool, TrieError>)
        ensures
            r is Ok ==> r->Ok_0 == self.c@.contains_key(*key),
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, key: Vec<u8>, value: Vec<u8>) -> (r: Result<(), TrieError>)
        ensures
            r is Ok ==> final(self).c@ == tput(old(self).c@, bytes_of(key@), bytes_of(value@)),
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn root(&mut self, hd: &mut DbHeap) -> (r: Result<Vec<u8>, TrieError>)
        ensures
            final(self).c@ == old(self).c@,
            r is Ok ==> r->Ok_0@ == root_of(old(self).c@) && r->Ok_0@.len() == 32,
            r is Ok ==> final(hd).m() == old(hd).m().insert(root_of(old(self).c@), old(self).c@),
            r is Err ==> *final(hd) == *old(hd),
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }
}

//@item core/executor/src/trie/mod.rs struct MPTTrie drop_generics
impl MPTTrie {
//@fn core/executor/src/trie/mod.rs MPTTrie::new key MPTTrie::new
//@. ensures
        r.trie.c@ == Map::<Bytes, Bytes>::empty(),
//@end
//@fn core/executor/src/trie/mod.rs MPTTrie::from as open key MPTTrie::from
//@. params hd: &mut DbHeap
//@. ensures
        *final(hd) == *old(hd),
        r is Ok ==> old(hd).m().contains_key(root@) && r->Ok_0.trie.c@ == old(hd).m()[root@],
        io_ok() && old(hd).m().contains_key(root@) ==> r is Ok,
//@end
//@fn core/executor/src/trie/mod.rs MPTTrie::get key MPTTrie::get
//@. ensures
        r is Ok && self.trie.c@.contains_key(*key) ==> r->Ok_0 == Some(self.trie.c@[*key]),
        r is Ok && !self.trie.c@.contains_key(*key) ==> r->Ok_0 is None,
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/mod.rs MPTTrie::contains key MPTTrie::contains
//@. ensures
        r is Ok ==> r->Ok_0 == self.trie.c@.contains_key(*key),
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/mod.rs MPTTrie::insert key MPTTrie::insert
//@. ensures
        r is Ok ==> final(self).trie.c@ == tput(old(self).trie.c@, key, value),
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/mod.rs MPTTrie::commit key MPTTrie::commit
//@. params hd: &mut DbHeap
//@. ensures
        final(self).trie.c@ == old(self).trie.c@,
        r is Ok ==> r->Ok_0@ == root_of(old(self).trie.c@),
        r is Ok ==> final(hd).m() == old(hd).m().insert(root_of(old(self).trie.c@), old(self).trie.c@),
        io_ok() ==> r is Ok,
        r is Err ==> final(hd).m() == old(hd).m() || final(hd).m() == old(hd).m().insert(root_of(old(self).trie.c@), old(self).trie.c@),
//@end
}

// ------------------------------------------------------------------ the layered state adapter
//@item core/executor/src/adapter/contract.rs struct GeneralContractStateAdapter drop_generics
impl GeneralContractStateAdapter {
    /// Committed and stashed: what the earlier transactions of the block left.
    pub open spec fn base(&self) -> KV {
        self.trie.trie.c@.union_prefer_right(self.stash_map@)
    }

    /// What a read sees.
    pub open spec fn cur(&self) -> KV {
        self.base().union_prefer_right(self.cache_map@)
    }

    /// The content of the trie after the stashed values are written to it.
    pub open spec fn flushed(&self) -> KV {
        tput_all(self.trie.trie.c@, self.stash_map@)
    }
}

pub open spec fn tput_all(c: KV, s: KV) -> KV {
    Map::new(c.dom().union(s.dom()).filter(|k: Bytes| s.contains_key(k) ==> s[k]@.len() > 0), |k: Bytes| if s.contains_key(k) { s[k] } else { c[k] })
}

pub proof fn lemma_tput_all(c: KV, s: KV)
    ensures
        forall|k: Bytes| #[trigger] tput_all(c, s).contains_key(k) <==> (if s.contains_key(k) { s[k]@.len() > 0 } else { c.contains_key(k) }),
        forall|k: Bytes| #[trigger] tput_all(c, s).contains_key(k) ==> tput_all(c, s)[k] == (if s.contains_key(k) { s[k] } else { c[k] }),
        (forall|k: Bytes| #[trigger] s.contains_key(k) ==> s[k]@.len() > 0) ==> tput_all(c, s) == c.union_prefer_right(s),
{
    if forall|k: Bytes| #[trigger] s.contains_key(k) ==> s[k]@.len() > 0 {
        assert(tput_all(c, s) =~= c.union_prefer_right(s));
    }
}

impl GeneralContractStateAdapter {
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::new key Adapter::new
//@. ensures
        r.trie == trie,
        r.cache_map@ == Map::<Bytes, Bytes>::empty(),
        r.stash_map@ == Map::<Bytes, Bytes>::empty(),
//@end
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::get key Adapter::get
//@. ensures
        ({
            let k = bytes_of(key.enc());
            let v = <Schema as ContractSchema>::Value::dec(self.cur()[k]@);
            &&& r is Ok && self.cur().contains_key(k) ==> v is Some && r->Ok_0 == v
            &&& r is Ok && !self.cur().contains_key(k) ==> r->Ok_0 is None
            &&& io_ok() && !self.cur().contains_key(k) ==> r is Ok
            &&& io_ok() && self.cur().contains_key(k) && v is Some ==> r is Ok
        }),
//@end
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::contains key Adapter::contains
//@. ensures
        r is Ok ==> r->Ok_0 == self.cur().contains_key(bytes_of(key.enc())),
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::insert_cache key Adapter::insert_cache
//@. ensures
        r is Ok,
        final(self).trie == old(self).trie,
        final(self).stash_map == old(self).stash_map,
        final(self).cache_map@ == old(self).cache_map@.insert(bytes_of(key.enc()), bytes_of(value.enc())),
        final(self).cur() == old(self).cur().insert(bytes_of(key.enc()), bytes_of(value.enc())),
        final(self).base() == old(self).base(),
//@. at end
        proof {
            assert(self.cur() =~= old(self).cur().insert(bytes_of(key.enc()), bytes_of(value.enc())));
        }
//@end
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::revert_cache key Adapter::revert_cache
//@. ensures
        r is Ok,
        final(self).trie == old(self).trie,
        final(self).stash_map == old(self).stash_map,
        final(self).cache_map@ == Map::<Bytes, Bytes>::empty(),
        final(self).cur() == old(self).base(),
        final(self).base() == old(self).base(),
//@. at end
        proof {
            assert(self.cur() =~= old(self).base());
        }
//@end
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::stash key Adapter::stash
//@. ensures
        r is Ok,
        final(self).trie == old(self).trie,
        final(self).stash_map@ == old(self).stash_map@.union_prefer_right(old(self).cache_map@),
        final(self).cache_map@ == Map::<Bytes, Bytes>::empty(),
        final(self).cur() == old(self).cur(),
        final(self).base() == old(self).cur(),
//@. loop 0
        invariant
            self.trie == old(self).trie,
            self.cache_map@ == Map::<Bytes, Bytes>::empty(),
            map_seq_ok(old(self).cache_map@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            forall|k: Bytes| #[trigger] self.stash_map@.contains_key(k) <==> old(self).stash_map@.contains_key(k) || exists|j: int| 0 <= j < __it0.p@ && (#[trigger] __it0.s@[j]).0 == k,
            forall|j: int| 0 <= j < __it0.p@ ==> self.stash_map@[(#[trigger] __it0.s@[j]).0] == __it0.s@[j].1,
            forall|k: Bytes| #[trigger] old(self).stash_map@.contains_key(k) && (forall|j: int| 0 <= j < __it0.p@ ==> (#[trigger] __it0.s@[j]).0 != k) ==> self.stash_map@[k] == old(self).stash_map@[k],
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert(self.stash_map@ =~= old(self).stash_map@.union_prefer_right(old(self).cache_map@));
        }
//@. at end
        proof {
            assert(self.cur() =~= old(self).cur());
            assert(self.base() =~= old(self).cur());
        }
//@end
//@fn core/executor/src/adapter/contract.rs GeneralContractStateAdapter::commit key Adapter::commit
//@. params hd: &mut DbHeap
//@. ensures
        final(self).cache_map == old(self).cache_map,
        r is Ok ==> final(self).trie.trie.c@ == old(self).flushed(),
        r is Ok ==> final(self).stash_map@ == Map::<Bytes, Bytes>::empty(),
        r is Ok ==> r->Ok_0@ == root_of(old(self).flushed()),
        r is Ok ==> final(hd).m() == old(hd).m().insert(root_of(old(self).flushed()), old(self).flushed()),
        io_ok() ==> r is Ok,
//@. loop 0
        invariant
            *hd == *old(hd),
            self.cache_map == old(self).cache_map,
            self.stash_map@ == Map::<Bytes, Bytes>::empty(),
            map_seq_ok(old(self).stash_map@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            forall|j: int| 0 <= j < __it0.p@ ==> {
                &&& self.trie.trie.c@.contains_key((#[trigger] __it0.s@[j]).0) <==> __it0.s@[j].1@.len() > 0
                &&& __it0.s@[j].1@.len() > 0 ==> self.trie.trie.c@[__it0.s@[j].0] == __it0.s@[j].1
            },
            forall|k: Bytes| (forall|j: int| 0 <= j < __it0.p@ ==> (#[trigger] __it0.s@[j]).0 != k) ==>
                (#[trigger] self.trie.trie.c@.contains_key(k) <==> old(self).trie.trie.c@.contains_key(k)) && (old(self).trie.trie.c@.contains_key(k) ==> self.trie.trie.c@[k] == old(self).trie.trie.c@[k]),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            lemma_tput_all(old(self).trie.trie.c@, old(self).stash_map@);
            assert(self.trie.trie.c@ =~= old(self).flushed());
        }
//@end
}


} // verus!
