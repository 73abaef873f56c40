//@include state.vrs assume
verus! {

// ------------------------------------------------------------------ shared cells
pub struct StRc {
    pub i: Ghost<int>,
}

pub struct StHeap {
    pub x: Ghost<Map<int, GeneralContractStateAdapter>>,
}

pub type StateAdapter = GeneralContractStateAdapter;

impl Clone for StRc {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl StRc {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    #[verifier::external_body]
    pub fn borrow<'a>(&self, h: &'a StHeap) -> (r: &'a StateAdapter)
        requires
            h.m().contains_key(self.id()),
        ensures
            *r == h.m()[self.id()],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn borrow_mut<'a>(&self, h: &'a mut StHeap) -> (r: &'a mut StateAdapter)
        requires
            old(h).m().contains_key(self.id()),
        ensures
            *r == old(h).m()[self.id()],
            final(h).m() == old(h).m().insert(self.id(), *final(r)),
    {
        unimplemented!()
    }
}

impl StHeap {
    pub open spec fn m(&self) -> Map<int, StateAdapter> {
        self.x@
    }
}

//@item protocol/src/traits/executor/mod.rs struct InvokeContext need:Clone
pub struct CtxRc {
    pub i: Ghost<int>,
}

pub struct CtxHeap {
    pub x: Ghost<Map<int, InvokeContext>>,
}

impl Clone for CtxRc {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl CtxRc {
    pub open spec fn id(&self) -> int {
        self.i@
    }

    #[verifier::external_body]
    pub fn borrow<'a>(&self, h: &'a CtxHeap) -> (r: &'a InvokeContext)
        requires
            h.m().contains_key(self.id()),
        ensures
            *r == h.m()[self.id()],
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn borrow_mut<'a>(&self, h: &'a mut CtxHeap) -> (r: &'a mut InvokeContext)
        requires
            old(h).m().contains_key(self.id()),
        ensures
            *r == old(h).m()[self.id()],
            final(h).m() == old(h).m().insert(self.id(), *final(r)),
    {
        unimplemented!()
    }
}

impl CtxHeap {
    pub open spec fn m(&self) -> Map<int, InvokeContext> {
        self.x@
    }
}

/// Rc::new(RefCell::new(x)): a fresh cell.
pub trait VxCells<T> {
    type Rc;

    spec fn newcell(o: &Self, x: T, f: &Self, r: Self::Rc) -> bool;

    fn vx_newcell(&mut self, x: T) -> (r: Self::Rc)
        ensures
            Self::newcell(old(self), x, final(self), r),
    ;
}

impl VxCells<InvokeContext> for CtxHeap {
    type Rc = CtxRc;

    open spec fn newcell(o: &Self, x: InvokeContext, f: &Self, r: CtxRc) -> bool {
        !o.m().contains_key(r.id()) && f.m() == o.m().insert(r.id(), x)
    }

    #[verifier::external_body]
    fn vx_newcell(&mut self, x: InvokeContext) -> (r: CtxRc) {
        unimplemented!()
    }
}

impl VxCells<StateAdapter> for StHeap {
    type Rc = StRc;

    open spec fn newcell(o: &Self, x: StateAdapter, f: &Self, r: StRc) -> bool {
        !o.m().contains_key(r.id()) && f.m() == o.m().insert(r.id(), x)
    }

    #[verifier::external_body]
    fn vx_newcell(&mut self, x: StateAdapter) -> (r: StRc) {
        unimplemented!()
    }
}

pub fn vx_newcell<T, H: VxCells<T>>(x: T, h: &mut H) -> (r: H::Rc)
    ensures
        H::newcell(old(h), x, final(h), r),
{
    h.vx_newcell(x)
}

// ------------------------------------------------------------------ accounts, as mathematics
pub open spec fn akey(a: Address) -> Bytes {
    bytes_of(a.enc())
}

pub open spec fn readable(m: KV, a: Address) -> bool {
    m.contains_key(akey(a)) ==> Account::dec(m[akey(a)]@) is Some
}

/// Every account of the ledger can be read.
pub open spec fn accs_wf(m: KV) -> bool {
    forall|a: Address| address_wf(a) ==> #[trigger] readable(m, a)
}

pub open spec fn has_acct(m: KV, a: Address) -> bool {
    m.contains_key(akey(a))
}

pub open spec fn bt_of<K, V>(m: Map<K, V>) -> BTreeMap<K, V> {
    BTreeMap { m: Ghost(m) }
}

pub open spec fn bt_empty<K, V>() -> BTreeMap<K, V> {
    BTreeMap { m: Ghost(Map::empty()) }
}

pub open spec fn hash_of(s: Seq<u8>) -> Hash {
    choose|h: Hash| h@ == s
}

pub proof fn lemma_hash_of(h: Hash)
    ensures
        hash_of(h@) == h,
{
    let g = hash_of(h@);
    assert(g@ == h@);
    assert(g.0@ =~= h.0@);
}

pub open spec fn empty_hash() -> Hash {
    hash_of(keccak(null_rlp()))
}

pub proof fn lemma_hashes()
    ensures
        forall|h: Hash| hash_of(#[trigger] h@) == h,
{
    assert forall|h: Hash| hash_of(#[trigger] h@) == h by {
        lemma_hash_of(h);
    }
}

pub proof fn lemma_accounts()
    ensures
        forall|x: Account| (#[trigger] x.enc()).len() > 0 && Account::dec(x.enc()) == Some(x),
{
    assert forall|x: Account| (#[trigger] x.enc()).len() > 0 && Account::dec(x.enc()) == Some(x) by {
        Account::law(&x);
    }
}

pub open spec fn fresh_acct(a: Address) -> Account {
    match a {
        Address::User(_) => Account::User(UserAccount { nonce: 0, assets: bt_empty() }),
        Address::Contract(_) => Account::Contract(
            ContractAccount { nonce: 0, assets: bt_empty(), storage_root: empty_hash() },
        ),
    }
}

pub open spec fn acct(m: KV, a: Address) -> Account {
    if m.contains_key(akey(a)) {
        Account::dec(m[akey(a)]@)->0
    } else {
        fresh_acct(a)
    }
}

pub open spec fn a_nonce(x: Account) -> u64 {
    match x {
        Account::User(u) => u.nonce,
        Account::Contract(c) => c.nonce,
    }
}

pub open spec fn a_has(x: Account, id: Hash) -> bool {
    match x {
        Account::User(u) => u.assets@.contains_key(id),
        Account::Contract(c) => c.assets@.contains_key(id),
    }
}

pub open spec fn a_bal(x: Account, id: Hash) -> nat {
    if !a_has(x, id) {
        0
    } else {
        match x {
            Account::User(u) => u.assets@[id].balance@,
            Account::Contract(c) => c.assets@[id]@,
        }
    }
}

/// The account with the balance of one asset replaced and nothing else changed.
pub open spec fn a_set(x: Account, id: Hash, n: nat) -> Account {
    match x {
        Account::User(u) => Account::User(
            UserAccount {
                nonce: u.nonce,
                assets: bt_of(
                    u.assets@.insert(
                        id,
                        AssetInfo {
                            balance: big(n),
                            approved: if u.assets@.contains_key(id) {
                                u.assets@[id].approved
                            } else {
                                bt_empty()
                            },
                        },
                    ),
                ),
            },
        ),
        Account::Contract(c) => Account::Contract(
            ContractAccount {
                nonce: c.nonce,
                assets: bt_of(c.assets@.insert(id, big(n))),
                storage_root: c.storage_root,
            },
        ),
    }
}

pub open spec fn a_bump(x: Account) -> Account {
    match x {
        Account::User(u) => Account::User(UserAccount { nonce: (u.nonce + 1) as u64, assets: u.assets }),
        Account::Contract(c) => Account::Contract(
            ContractAccount { nonce: (c.nonce + 1) as u64, assets: c.assets, storage_root: c.storage_root },
        ),
    }
}

pub open spec fn put(m: KV, a: Address, x: Account) -> KV {
    m.insert(akey(a), bytes_of(x.enc()))
}

pub open spec fn credit(m: KV, a: Address, id: Hash, n: nat) -> KV {
    put(m, a, a_set(acct(m, a), id, a_bal(acct(m, a), id) + n))
}

pub open spec fn can_debit(m: KV, a: Address, id: Hash, n: nat) -> bool {
    a_has(acct(m, a), id) && a_bal(acct(m, a), id) >= n
}

pub open spec fn debit(m: KV, a: Address, id: Hash, n: nat) -> KV {
    put(m, a, a_set(acct(m, a), id, (a_bal(acct(m, a), id) - n) as nat))
}

pub open spec fn bump(m: KV, a: Address) -> KV {
    put(m, a, a_bump(acct(m, a)))
}

pub open spec fn bal(m: KV, a: Address, id: Hash) -> nat {
    a_bal(acct(m, a), id)
}

pub open spec fn nonce(m: KV, a: Address) -> u64 {
    a_nonce(acct(m, a))
}

/// What a successful transfer does to the accounts.
pub open spec fn moved(m: KV, from: Address, to: Address, id: Hash, n: nat) -> KV {
    credit(debit(m, from, id, n), to, id, n)
}

pub proof fn lemma_enc_inj(a: Address, b: Address)
    requires
        address_wf(a),
        address_wf(b),
        akey(a) == akey(b),
    ensures
        a == b,
{
    Address::law(&a);
    Address::law(&b);
    assert(bytes_of(a.enc()).s@ == bytes_of(b.enc()).s@);
}

/// Writing one account shows at that address and nowhere else.
pub proof fn lemma_put(m: KV, a: Address, x: Account, b: Address)
    requires
        address_wf(a),
        address_wf(b),
    ensures
        acct(put(m, a, x), b) == if a == b { x } else { acct(m, b) },
        has_acct(put(m, a, x), b) <==> a == b || has_acct(m, b),
        readable(m, b) || a == b ==> readable(put(m, a, x), b),
{
    Account::law(&x);
    assert(bytes_of(x.enc())@ == x.enc());
    if a != b && akey(a) == akey(b) {
        lemma_enc_inj(a, b);
    }
}


// ------------------------------------------------------------------ heaps of state adapters
/// Every value an adapter holds back is non-empty, so that flushing it to the trie is an insertion.
pub open spec fn nz(a: StateAdapter) -> bool {
    &&& forall|k: Bytes| #[trigger] a.cache_map@.contains_key(k) ==> a.cache_map@[k]@.len() > 0
    &&& forall|k: Bytes| #[trigger] a.stash_map@.contains_key(k) ==> a.stash_map@[k]@.len() > 0
}

/// Only the running transaction's writes of adapter `i` may differ.
pub open spec fn frame(h: StHeap, h2: StHeap, i: int) -> bool {
    &&& forall|j: int| #![trigger h2.m().contains_key(j)] #![trigger h.m().contains_key(j)] h2.m().contains_key(j) <==> h.m().contains_key(j)
    &&& forall|j: int| #[trigger] h.m().contains_key(j) && j != i ==> h2.m()[j] == h.m()[j]
    &&& h.m().contains_key(i) ==> {
        &&& h2.m()[i].trie == h.m()[i].trie
        &&& h2.m()[i].stash_map == h.m()[i].stash_map
        &&& nz(h.m()[i]) ==> nz(h2.m()[i])
    }
}

pub open spec fn cur_of(h: StHeap, i: int) -> KV {
    h.m()[i].cur()
}

/// Only the cell `i` may differ, and only in the cycles used.
pub open spec fn cframe(h: CtxHeap, h2: CtxHeap, i: int) -> bool {
    &&& forall|j: int| #![trigger h2.m().contains_key(j)] #![trigger h.m().contains_key(j)] h2.m().contains_key(j) <==> h.m().contains_key(j)
    &&& forall|j: int| #[trigger] h.m().contains_key(j) && j != i ==> h2.m()[j] == h.m()[j]
    &&& h.m().contains_key(i) ==> h2.m()[i] == (InvokeContext { cycles_used: h2.m()[i].cycles_used, ..h.m()[i] })
}

// ------------------------------------------------------------------ cycles
//@item core/executor/src/cycles.rs const NATIVE_BASE_CYCLES
//@item core/executor/src/cycles.rs enum CyclesAction need:Clone,PartialEq
//@item core/executor/src/cycles.rs enum CyclesError
impl core::convert::From<CyclesError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: CyclesError) -> ProtocolError {
        unimplemented!()
    }
}

pub open spec fn cost(a: CyclesAction) -> u64 {
    match a {
        CyclesAction::AccountTransfer => 210,
        CyclesAction::BankRegister => 2100,
    }
}

//@lazy CYCLES_TABLE
//@fn core/executor/src/cycles.rs CYCLES_TABLE as CYCLES_TABLE_lazy key cycles::CYCLES_TABLE lazy
//@. ensures
        forall|a: CyclesAction| #[trigger] r@.contains_key(a) && r@[a] == cost(a),
//@end
//@fn core/executor/src/cycles.rs consume_cycles key cycles::consume_cycles
//@. ensures
        r is Ok <==> cycles_used + cost(action) <= cycles_limit,
        r is Ok ==> r->Ok_0 == cycles_used + cost(action),
//@end

// ------------------------------------------------------------------ the account contract
//@item core/executor/src/native_contract/account.rs struct NativeAccountContract drop_generics
//@item core/executor/src/native_contract/account.rs enum NativeAccountContractError
impl core::convert::From<NativeAccountContractError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: NativeAccountContractError) -> ProtocolError {
        unimplemented!()
    }
}

impl NativeAccountContract {
    pub open spec fn i(&self) -> int {
        self.state_adapter.id()
    }

//@fn core/executor/src/native_contract/account.rs NativeAccountContract::new key Account::new
//@. ensures
        r.state_adapter == state_adapter,
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::transfer key Account::transfer
//@. params hc: &mut CtxHeap, hs: &mut StHeap
//@. requires
        old(hc).m().contains_key(ictx.id()),
        old(hs).m().contains_key(old(self).i()),
        address_wf(old(hc).m()[ictx.id()].caller),
        address_wf(*to),
//@. ensures
        *final(self) == *old(self),
        frame(*old(hs), *final(hs), old(self).i()),
        cframe(*old(hc), *final(hc), ictx.id()),
        ({
            let c = old(hc).m()[ictx.id()];
            let m = cur_of(*old(hs), old(self).i());
            let id = c.carrying_asset->0.asset_id;
            let n = c.carrying_asset->0.amount@;
            let can = c.carrying_asset is Some && readable(m, c.caller) && can_debit(m, c.caller, id, n) && readable(m, *to)
                && c.cycles_used + 210 <= c.cycles_limit;
            &&& r is Ok ==> can && cur_of(*final(hs), old(self).i()) == moved(m, c.caller, *to, id, n)
            &&& r is Ok ==> final(hc).m()[ictx.id()].cycles_used == c.cycles_used + 210
            &&& r is Err ==> final(hc).m()[ictx.id()].cycles_used == c.cycles_used
            &&& io_ok() && can ==> r is Ok
        }),
//@. at start
        proof {
            let c = old(hc).m()[ictx.id()];
            let m = cur_of(*old(hs), old(self).i());
            let id = c.carrying_asset->0.asset_id;
            let n = c.carrying_asset->0.amount@;
            lemma_put(m, c.caller, a_set(acct(m, c.caller), id, (a_bal(acct(m, c.caller), id) - n) as nat), *to);
        }
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::create_account key Account::create_account
//@. params hs: &StHeap
//@. requires
        hs.m().contains_key(old(self).i()),
//@. ensures
        *final(self) == *old(self),
        r is Ok ==> readable(cur_of(*hs, old(self).i()), *address) && r->Ok_0 == acct(cur_of(*hs, old(self).i()), *address),
        io_ok() && readable(cur_of(*hs, old(self).i()), *address) ==> r is Ok,
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::add_balance key Account::add_balance
//@. params hs: &mut StHeap
//@. requires
        old(hs).m().contains_key(old(self).i()),
//@. ensures
        *final(self) == *old(self),
        frame(*old(hs), *final(hs), old(self).i()),
        r is Ok ==> readable(cur_of(*old(hs), old(self).i()), *address) && cur_of(*final(hs), old(self).i()) == credit(cur_of(*old(hs), old(self).i()), *address, *id, amount@),
        r is Err ==> *final(hs) == *old(hs),
        io_ok() && readable(cur_of(*old(hs), old(self).i()), *address) ==> r is Ok,
//@. at start
        proof {
            lemma_accounts();
        }
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::sub_balance key Account::sub_balance
//@. params hs: &mut StHeap
//@. requires
        old(hs).m().contains_key(old(self).i()),
//@. ensures
        *final(self) == *old(self),
        frame(*old(hs), *final(hs), old(self).i()),
        ({
            let m = cur_of(*old(hs), old(self).i());
            &&& r is Ok ==> readable(m, *address) && can_debit(m, *address, *id, amount@) && cur_of(*final(hs), old(self).i()) == debit(m, *address, *id, amount@)
            &&& r is Err ==> *final(hs) == *old(hs)
            &&& io_ok() && readable(m, *address) && can_debit(m, *address, *id, amount@) ==> r is Ok
        }),
//@. at start
        proof {
            lemma_accounts();
        }
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::inc_nonce key Account::inc_nonce
//@. params hc: &CtxHeap, hs: &mut StHeap
//@. requires
        hc.m().contains_key(ictx.id()),
        old(hs).m().contains_key(old(self).i()),
        readable(cur_of(*old(hs), old(self).i()), hc.m()[ictx.id()].caller) ==> nonce(cur_of(*old(hs), old(self).i()), hc.m()[ictx.id()].caller) < u64::MAX,
//@. ensures
        *final(self) == *old(self),
        frame(*old(hs), *final(hs), old(self).i()),
        ({
            let m = cur_of(*old(hs), old(self).i());
            let a = hc.m()[ictx.id()].caller;
            &&& r is Ok ==> readable(m, a) && cur_of(*final(hs), old(self).i()) == bump(m, a)
            &&& r is Err ==> *final(hs) == *old(hs)
            &&& io_ok() && readable(m, a) ==> r is Ok
        }),
//@. at start
        proof {
            lemma_accounts();
        }
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::get_balance key Account::get_balance
//@. params hs: &StHeap
//@. requires
        hs.m().contains_key(self.i()),
//@. ensures
        r is Ok ==> has_acct(cur_of(*hs, self.i()), *address) && readable(cur_of(*hs, self.i()), *address) && r->Ok_0@ == bal(cur_of(*hs, self.i()), *address, *id),
        io_ok() && has_acct(cur_of(*hs, self.i()), *address) && readable(cur_of(*hs, self.i()), *address) ==> r is Ok,
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::get_account key Account::get_account
//@. params hs: &StHeap
//@. requires
        hs.m().contains_key(self.i()),
//@. ensures
        r is Ok ==> has_acct(cur_of(*hs, self.i()), *address) && readable(cur_of(*hs, self.i()), *address) && r->Ok_0 == acct(cur_of(*hs, self.i()), *address),
        io_ok() && has_acct(cur_of(*hs, self.i()), *address) && readable(cur_of(*hs, self.i()), *address) ==> r is Ok,
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::get_nonce key Account::get_nonce
//@. params hs: &StHeap
//@. requires
        hs.m().contains_key(self.i()),
//@. ensures
        r is Ok ==> has_acct(cur_of(*hs, self.i()), *address) && readable(cur_of(*hs, self.i()), *address) && r->Ok_0 == nonce(cur_of(*hs, self.i()), *address),
        io_ok() && has_acct(cur_of(*hs, self.i()), *address) && readable(cur_of(*hs, self.i()), *address) ==> r is Ok,
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::find_or_create key Account::find_or_create
//@. params hs: &StHeap
//@. requires
        hs.m().contains_key(self.i()),
//@. ensures
        r is Ok ==> readable(cur_of(*hs, self.i()), *address) && r->Ok_0 == acct(cur_of(*hs, self.i()), *address),
        io_ok() && readable(cur_of(*hs, self.i()), *address) ==> r is Ok,
//@. at start
        proof {
            lemma_hashes();
        }
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::get_balance_with_user key Account::get_balance_with_user
//@. ensures
        r is Ok,
        r->Ok_0@ == a_bal(Account::User(*account), *id),
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::get_balance_with_contract key Account::get_balance_with_contract
//@. ensures
        r is Ok,
        r->Ok_0@ == a_bal(Account::Contract(*account), *id),
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::add_balance_with_user key Account::add_balance_with_user
//@. ensures
        r is Ok,
        Account::User(*final(account)) == a_set(Account::User(*old(account)), *id, a_bal(Account::User(*old(account)), *id) + amount@),
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::add_balance_with_contract key Account::add_balance_with_contract
//@. ensures
        *final(self) == *old(self),
        r is Ok,
        Account::Contract(*final(account)) == a_set(Account::Contract(*old(account)), *id, a_bal(Account::Contract(*old(account)), *id) + amount@),
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::sub_balance_with_user key Account::sub_balance_with_user
//@. ensures
        *final(self) == *old(self),
        ({
            let x = Account::User(*old(account));
            &&& r is Ok <==> a_has(x, *id) && a_bal(x, *id) >= amount@
            &&& r is Ok ==> Account::User(*final(account)) == a_set(x, *id, (a_bal(x, *id) - amount@) as nat)
        }),
//@end
//@fn core/executor/src/native_contract/account.rs NativeAccountContract::sub_balance_with_contract key Account::sub_balance_with_contract
//@. ensures
        ({
            let x = Account::Contract(*old(account));
            &&& r is Ok <==> a_has(x, *id) && a_bal(x, *id) >= amount@
            &&& r is Ok ==> Account::Contract(*final(account)) == a_set(x, *id, (a_bal(x, *id) - amount@) as nat)
        }),
//@end
}

// ------------------------------------------------------------------ the bank contract
//@item core/executor/src/native_contract/bank.rs struct NativeBankContract drop_generics
//@item core/executor/src/native_contract/bank.rs enum NativeBankContractError
impl core::convert::From<NativeBankContractError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: NativeBankContractError) -> ProtocolError {
        unimplemented!()
    }
}

pub open spec fn bkey(id: Hash) -> Bytes {
    bytes_of(id.enc())
}

pub open spec fn asset_id(chain: Hash, a: ContractAddress) -> Hash {
    hash_of(keccak(chain@ + a@))
}

/// The registry entry a registration creates.
pub open spec fn new_asset(chain: Hash, a: ContractAddress, name: String, symbol: String, supply: Balance) -> Asset {
    Asset { id: asset_id(chain, a), name: name, symbol: symbol, supply: supply, manage_contract: a, storage_root: empty_hash() }
}

pub open spec fn has_asset(m: KV, id: Hash) -> bool {
    m.contains_key(bkey(id))
}

pub open spec fn asset_of(m: KV, id: Hash) -> Option<Asset> {
    Asset::dec(m[bkey(id)]@)
}

pub open spec fn reg(m: KV, x: Asset) -> KV {
    m.insert(bkey(x.id), bytes_of(x.enc()))
}

/// The registry shows a registered asset unchanged, and every other entry as before.
pub proof fn lemma_reg(m: KV, x: Asset, id: Hash)
    requires
        contract_wf(x.manage_contract),
    ensures
        has_asset(reg(m, x), id) <==> id == x.id || has_asset(m, id),
        asset_of(reg(m, x), id) == if id == x.id { Some(x) } else { asset_of(m, id) },
{
    Asset::law(&x);
    Hash::law(&x.id);
    Hash::law(&id);
    assert(bytes_of(x.enc())@ == x.enc());
    if bkey(id) == bkey(x.id) {
        assert(bytes_of(id.enc()).s@ == bytes_of(x.id.enc()).s@);
    }
}

impl NativeBankContract {
    pub open spec fn i(&self) -> int {
        self.state_adapter.id()
    }

//@fn core/executor/src/native_contract/bank.rs NativeBankContract::new key Bank::new
//@. ensures
        r.state_adapter == state_adapter,
        r.chain_id == chain_id,
//@end
//@fn core/executor/src/native_contract/bank.rs NativeBankContract::register key Bank::register
//@. params hc: &mut CtxHeap, hs: &mut StHeap
//@. requires
        old(hc).m().contains_key(ictx.id()),
        old(hs).m().contains_key(old(self).i()),
        contract_wf(*address),
//@. ensures
        *final(self) == *old(self),
        frame(*old(hs), *final(hs), old(self).i()),
        cframe(*old(hc), *final(hc), ictx.id()),
        ({
            let c = old(hc).m()[ictx.id()];
            let m = cur_of(*old(hs), old(self).i());
            let x = new_asset(old(self).chain_id, *address, name, symbol, supply);
            let can = address.contract_type is Asset && !has_asset(m, x.id) && c.cycles_used + 2100 <= c.cycles_limit;
            &&& r is Ok ==> can && cur_of(*final(hs), old(self).i()) == reg(m, x) && r->Ok_0 == x
            &&& r is Ok ==> final(hc).m()[ictx.id()].cycles_used == c.cycles_used + 2100
            &&& r is Err ==> final(hc).m()[ictx.id()].cycles_used == c.cycles_used
            &&& io_ok() && can ==> r is Ok
        }),
//@. at start
        proof {
            lemma_hashes();
            Asset::law(&new_asset(old(self).chain_id, *address, name, symbol, supply));
        }
//@end
//@fn core/executor/src/native_contract/bank.rs NativeBankContract::get_asset key Bank::get_asset
//@. params hs: &StHeap
//@. requires
        hs.m().contains_key(self.i()),
//@. ensures
        r is Ok ==> has_asset(cur_of(*hs, self.i()), *id) && asset_of(cur_of(*hs, self.i()), *id) == Some(r->Ok_0),
        io_ok() && has_asset(cur_of(*hs, self.i()), *id) && asset_of(cur_of(*hs, self.i()), *id) is Some ==> r is Ok,
//@end
}

} // verus!
