//@include types.vrs assume

//@type "Box<dynAPIAdapter>" => "Adapter"
//@path u64::from_str_radix => vx_radix
//@method to_owned/0 => vx_own
//@method to_uppercase/0 => vx_upper
//@heapfn *.adapter.insert_signed_txs w
//@heapfn self.mempool.insert w
use core::marker::PhantomData;
verus! {

//@item protocol/src/types/epoch.rs struct Epoch
//@item protocol/src/types/epoch.rs struct EpochHeader
//@item protocol/src/types/epoch.rs struct Proof
//@item protocol/src/types/epoch.rs struct Validator

impl RawTransaction {
    /// Its canonical encoding (C12).
    pub uninterp spec fn enc(&self) -> Seq<u8>;

    #[verifier::external_body]
    pub fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok ==> r->Ok_0@ == self.enc(),
    {
        unimplemented!()
    }
}

pub struct Context {
    pub c: Ghost<int>,
}

impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Context {
    #[verifier::external_body]
    pub fn new() -> (r: Context) {
        unimplemented!()
    }
}

/// What was given to the pool, and whether it took it.
pub struct World {
    pub put: Seq<(SignedTransaction, bool)>,
}

pub open spec fn given(a: World, b: World, tx: SignedTransaction, ok: bool) -> bool {
    b == (World { put: a.put.push((tx, ok)), ..a })
}

// ------------------------------------------------------------------ the node behind the interface
/// protocol::traits::MemPool (C18)
pub trait MemPool: Sized {
    fn insert(&self, ctx: Context, tx: SignedTransaction, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            given(*old(w), *final(w), tx, r is Ok),
    ;
}

/// protocol::traits::Storage (C15)
pub trait Storage: Sized {
    spec fn latest(&self) -> Option<Epoch>;

    spec fn at(&self, id: u64) -> Option<Epoch>;

    spec fn receipt(&self, h: Hash) -> Option<Receipt>;

    fn get_latest_epoch(&self) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok ==> self.latest() == Some(r->Ok_0),
    ;

    fn get_epoch_by_epoch_id(&self, id: u64) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok ==> self.at(id) == Some(r->Ok_0),
    ;

    fn get_receipt(&self, h: Hash) -> (r: ProtocolResult<Receipt>)
        ensures
            r is Ok ==> self.receipt(h) == Some(r->Ok_0),
    ;
}

pub trait TrieDB: Sized {
    /// the same store (Arc::clone)
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    ;
}

/// What an account holds of an asset in the state under a root, if it can be read (C01, C07).
pub uninterp spec fn holds<DB>(db: DB, root: Seq<u8>, a: Address, id: AssetID) -> Option<Balance>;

/// protocol::traits::executor
pub trait ExecutorFactory<DB>: Sized {
    type Ex: Executor<DB>;

    fn from_root(chain_id: Hash, root: MerkleRoot, db: DB, epoch_id: u64, cycles_price: u64, coinbase: Address) -> (r: ProtocolResult<Self::Ex>)
        ensures
            r is Ok ==> r->Ok_0.db() == db && r->Ok_0.root() == root@,
    ;
}

pub trait Executor<DB>: Sized {
    spec fn db(&self) -> DB;

    spec fn root(&self) -> Seq<u8>;

    fn get_balance(&self, address: &Address, id: &AssetID) -> (r: ProtocolResult<Balance>)
        ensures
            r is Ok ==> holds(self.db(), self.root(), *address, *id) == Some(r->Ok_0),
    ;
}

//@item core/api/src/adapter/mod.rs struct DefaultAPIAdapter

impl<EF: ExecutorFactory<DB>, M: MemPool, S: Storage, DB: TrieDB> DefaultAPIAdapter<EF, M, S, DB> {
    pub open spec fn epoch(&self, id: Option<u64>) -> Option<Epoch> {
        match id {
            Some(n) => self.storage.at(n),
            None => self.storage.latest(),
        }
    }

    /// The balance in the state that the epoch of this height names.
    pub open spec fn balance(&self, a: Address, id: AssetID, n: Option<u64>) -> Option<Balance> {
        match self.epoch(n) {
            Some(e) => holds(self.trie_db, e.header.state_root@, a, id),
            None => None,
        }
    }

//@fn core/api/src/adapter/mod.rs DefaultAPIAdapter::new
//@. ensures
        r.mempool == mempool && r.storage == storage && r.trie_db == trie_db,
//@end
//@fn core/api/src/adapter/mod.rs DefaultAPIAdapter@APIAdapter::insert_signed_txs
//@. params w: &mut World
//@. ensures
        given(*old(w), *final(w), signed_tx, r is Ok),
//@end
//@fn core/api/src/adapter/mod.rs DefaultAPIAdapter@APIAdapter::get_epoch_by_id
//@. ensures
        r is Ok ==> self.epoch(epoch_id) == Some(r->Ok_0),
//@end
//@fn core/api/src/adapter/mod.rs DefaultAPIAdapter@APIAdapter::get_receipt_by_tx_hash
//@. ensures
        r is Ok ==> self.storage.receipt(tx_hash) == Some(r->Ok_0),
//@end
//@fn core/api/src/adapter/mod.rs DefaultAPIAdapter@APIAdapter::get_balance
//@. ensures
        r is Ok ==> self.balance(*address, *id, epoch_id) == Some(r->Ok_0),
//@end
}

/// dyn APIAdapter, as DefaultAPIAdapter is
pub struct Adapter {
    pub i: Ghost<int>,
}

impl Adapter {
    pub uninterp spec fn epoch(&self, id: Option<u64>) -> Option<Epoch>;

    pub uninterp spec fn balance(&self, a: Address, id: AssetID, n: Option<u64>) -> Option<Balance>;

    #[verifier::external_body]
    pub fn insert_signed_txs(&self, ctx: Context, signed_tx: SignedTransaction, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            given(*old(w), *final(w), signed_tx, r is Ok),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_epoch_by_id(&self, ctx: Context, epoch_id: Option<u64>) -> (r: ProtocolResult<Epoch>)
        ensures
            r is Ok <==> self.epoch(epoch_id) is Some,
            r is Ok ==> self.epoch(epoch_id) == Some(r->Ok_0),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_balance(&self, ctx: Context, address: &Address, id: &AssetID, epoch_id: Option<u64>) -> (r: ProtocolResult<Balance>)
        ensures
            r is Ok <==> self.balance(*address, *id, epoch_id) is Some,
            r is Ok ==> self.balance(*address, *id, epoch_id) == Some(r->Ok_0),
    {
        unimplemented!()
    }
}

pub mod protocol {
    pub use super::ProtocolResult;
    pub mod types {
        pub use super::super::*;
    }
}

pub mod bytes {
    pub use super::Bytes;
}

// ------------------------------------------------------------------ texts
/// str::to_uppercase
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;

/// Of hex digits the case changes, not the value; and nothing becomes a small x.
pub axiom fn upper_hex(s: Seq<char>)
    ensures
        (forall|i: int| 0 <= i < s.len() ==> hex_val(#[trigger] s[i]) >= 0) ==> {
            &&& upper(s).len() == s.len()
            &&& forall|i: int| 0 <= i < s.len() ==> hex_val(#[trigger] upper(s)[i]) == hex_val(s[i])
        },
;

pub trait VxText {
    spec fn tx(&self) -> Seq<char>;

    fn vx_own(&self) -> (r: String)
        ensures
            r@ == self.tx(),
    ;

    fn vx_upper(&self) -> (r: String)
        ensures
            r@ == upper(self.tx()),
            no0x(r@) == r@,
    ;
}

impl VxText for str {
    open spec fn tx(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_own(&self) -> (r: String) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_upper(&self) -> (r: String) {
        unimplemented!()
    }
}

impl VxText for String {
    open spec fn tx(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_own(&self) -> (r: String) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_upper(&self) -> (r: String) {
        unimplemented!()
    }
}

/// The number hex digits denote.
pub open spec fn num(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else {
        16 * num(s.drop_last()) + hex_val(s.last()) as nat
    }
}

/// u64::from_str_radix of radix 16: digits, after a plus that may be there
pub open spec fn radix16(s: Seq<char>) -> Option<u64> {
    let d = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && (forall|i: int| 0 <= i < d.len() ==> hex_val(#[trigger] d[i]) >= 0) && num(d) <= u64::MAX {
        Some(num(d) as u64)
    } else {
        None
    }
}

pub struct ParseIntError;

#[verifier::external_body]
pub fn vx_radix(s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires
        2 <= radix <= 36,
    ensures
        radix == 16 ==> (r is Ok <==> radix16(s@) is Some),
        radix == 16 && r is Ok ==> radix16(s@) == Some(r->Ok_0),
{
    unimplemented!()
}

pub fn block_on<T>(t: T) -> (r: T)
    ensures
        r == t,
{
    t
}

// ------------------------------------------------------------------ keys
pub struct CryptoError;

/// common_crypto, as the unsafe submissions use it
pub struct Secp256k1PrivateKey {
    pub k: Ghost<Seq<u8>>,
}

pub struct Secp256k1PublicKey {
    pub k: Ghost<Seq<u8>>,
}

pub struct Secp256k1Signature {
    pub k: Ghost<Seq<u8>>,
}

pub struct HashValue {
    pub h: Ghost<Seq<u8>>,
}

pub uninterp spec fn is_key(k: Seq<u8>) -> bool;

pub uninterp spec fn pub_of(k: Seq<u8>) -> Seq<u8>;

pub uninterp spec fn sig_of(k: Seq<u8>, h: Seq<u8>) -> Seq<u8>;

impl Secp256k1PrivateKey {
    #[verifier::external_body]
    pub fn try_from(b: &[u8]) -> (r: Result<Self, CryptoError>)
        ensures
            r is Ok <==> is_key(b@),
            r is Ok ==> r->Ok_0.k@ == b@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn pub_key(&self) -> (r: Secp256k1PublicKey)
        ensures
            r.k@ == pub_of(self.k@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn sign_message(&self, h: &HashValue) -> (r: Secp256k1Signature)
        ensures
            r.k@ == sig_of(self.k@, h.h@),
    {
        unimplemented!()
    }
}

impl HashValue {
    #[verifier::external_body]
    pub fn try_from(b: &[u8]) -> (r: Result<Self, CryptoError>)
        ensures
            r is Ok <==> b@.len() == 32,
            r is Ok ==> r->Ok_0.h@ == b@,
    {
        unimplemented!()
    }
}

impl Secp256k1PublicKey {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Bytes)
        ensures
            r@ == self.k@,
    {
        unimplemented!()
    }
}

impl Secp256k1Signature {
    #[verifier::external_body]
    pub fn to_bytes(&self) -> (r: Bytes)
        ensures
            r@ == self.k@,
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ the schema
pub mod gql {
use super::*;

/// juniper::FieldError
pub struct FieldError;

pub type FieldResult<T> = Result<T, FieldError>;

pub trait VxShow {}

impl VxShow for ProtocolError {}

impl VxShow for super::hex::FromHexError {}

impl VxShow for ParseIntError {}

impl VxShow for CryptoError {}

impl<T: VxShow> core::convert::From<T> for FieldError {
    #[verifier::external_body]
    fn from(t: T) -> (r: FieldError) {
        unimplemented!()
    }
}

//@item core/api/src/schema/mod.rs struct Hash need:Clone
//@item core/api/src/schema/mod.rs struct Address need:Clone
//@item core/api/src/schema/mod.rs struct Uint64 need:Clone
//@item core/api/src/schema/mod.rs struct Balance need:Clone
//@item core/api/src/schema/mod.rs struct Bytes need:Clone
//@item core/api/src/schema/mod.rs struct Fee
pub type MerkleRoot = Hash;
pub type AssetID = Hash;
//@item core/api/src/schema/epoch.rs struct Epoch
//@item core/api/src/schema/epoch.rs struct EpochHeader
//@item core/api/src/schema/transaction.rs enum ContractType
//@item core/api/src/schema/transaction.rs struct InputRawTransaction
//@item core/api/src/schema/transaction.rs struct InputTransactionEncryption
//@item core/api/src/schema/transaction.rs struct InputTransferAction
//@item core/api/src/schema/transaction.rs struct InputDeployAction
//@item core/api/src/lib.rs struct State
pub struct Query;
pub struct Mutation;

/// The hex digits of a text.
pub open spec fn digits(s: Seq<char>) -> Seq<char> {
    upper(no0x(s))
}

/// The bytes a text stands for.
pub open spec fn text_bytes(s: Seq<char>) -> Option<Seq<u8>> {
    if hex_ok(digits(s)) { Some(hex_dec(digits(s))) } else { None }
}

//@fn core/api/src/schema/mod.rs clean_0x key api::clean_0x
//@. ensures
        r@ == no0x(s@),
//@. at start
        proof {
            reveal_strlit("0x");
            assert("0x"@ =~= seq!['0', 'x']);
            if s@.len() >= 2 {
                assert(s@.subrange(0, 2) =~= seq![s@[0], s@[1]]);
                if "0x"@.is_prefix_of(s@) {
                    assert(s@.subrange(0, 2)[0] == '0' && s@.subrange(0, 2)[1] == 'x');
                }
            }
        }
//@end

impl Hash {
//@fn core/api/src/schema/mod.rs Hash::as_hex key api::Hash::as_hex
//@. ensures
        r@ == digits(self.0@) && no0x(r@) == r@,
//@end
//@fn core/api/src/schema/mod.rs Hash@From<protocol::types::Hash>::from key api::Hash::from
//@. ensures
        r.0@ == hex_enc(hash@),
//@end
}

impl Address {
//@fn core/api/src/schema/mod.rs Address::as_hex key api::Address::as_hex
//@. ensures
        r@ == digits(self.0@) && no0x(r@) == r@,
//@end
//@fn core/api/src/schema/mod.rs Address@From<protocol::types::Address>::from key api::Address::from
//@. ensures
        r.0@ == hex_enc(address@),
//@end
}

impl Uint64 {
//@fn core/api/src/schema/mod.rs Uint64::as_hex key api::Uint64::as_hex
//@. ensures
        r@ == digits(self.0@) && no0x(r@) == r@,
//@end
//@fn core/api/src/schema/mod.rs Uint64@From<u64>::from key api::Uint64::from
//@. ensures
        r.0@ == hex_enc(be8(n)),
//@end
}

impl Balance {
//@fn core/api/src/schema/mod.rs Balance::as_hex key api::Balance::as_hex
//@. ensures
        r@ == digits(self.0@) && no0x(r@) == r@,
//@end
//@fn core/api/src/schema/mod.rs Balance@From<protocol::types::Balance>::from key api::Balance::from
//@. ensures
        r.0@ == hex_enc(nat_be(balance@)),
//@end
}

impl Bytes {
//@fn core/api/src/schema/mod.rs Bytes::as_hex key api::Bytes::as_hex
//@. ensures
        r@ == digits(self.0@) && no0x(r@) == r@,
//@end
//@fn core/api/src/schema/mod.rs Bytes@From<bytes::Bytes>::from key api::Bytes::from
//@. ensures
        r.0@ == hex_enc(bytes@),
//@end
}

//@fn core/api/src/lib.rs hex_to_vec_u8
//@. ensures
        r is Ok <==> hex_ok(s@),
        r is Ok ==> r->Ok_0@ == hex_dec(s@),
//@end
//@fn core/api/src/lib.rs hex_to_u64
//@. ensures
        r is Ok <==> radix16(s@) is Some,
        r is Ok ==> Some(r->Ok_0) == radix16(s@),
//@end
//@fn core/api/src/lib.rs opt_hex_to_u64
//@. ensures
        s is None ==> r is Ok && r->Ok_0 is None,
        s is Some ==> (r is Ok <==> radix16(s->0@) is Some),
        s is Some && r is Ok ==> r->Ok_0 == radix16(s->0@),
//@end

// ------------------------------------------------------------------ what a submission says
/// The text of a hash.
pub open spec fn text_hash(s: Seq<char>) -> Option<Seq<u8>> {
    match text_bytes(s) {
        Some(b) => if b.len() == 32 { Some(b) } else { None },
        None => None,
    }
}

/// The transaction carries what the form says.
pub open spec fn raw_says(raw: RawTransaction, f: InputRawTransaction, a: TransactionAction) -> bool {
    &&& text_hash(f.chain_id.0@) == Some(raw.chain_id@)
    &&& text_hash(f.nonce.0@) == Some(raw.nonce@)
    &&& radix16(digits(f.timeout.0@)) == Some(raw.timeout)
    &&& text_hash(f.fee_asset_id.0@) == Some(raw.fee.asset_id@)
    &&& radix16(digits(f.fee_cycle.0@)) == Some(raw.fee.cycle)
    &&& raw.action == a
}

/// The form can be read.
pub open spec fn raw_ok(f: InputRawTransaction) -> bool {
    &&& text_hash(f.chain_id.0@) is Some
    &&& text_hash(f.nonce.0@) is Some
    &&& radix16(digits(f.timeout.0@)) is Some
    &&& text_hash(f.fee_asset_id.0@) is Some
    &&& radix16(digits(f.fee_cycle.0@)) is Some
}

pub open spec fn signed_says(t: SignedTransaction, e: InputTransactionEncryption) -> bool {
    &&& text_hash(e.tx_hash.0@) == Some(t.tx_hash@)
    &&& text_bytes(e.pubkey.0@) == Some(t.pubkey@)
    &&& text_bytes(e.signature.0@) == Some(t.signature@)
}

pub open spec fn signed_ok(e: InputTransactionEncryption) -> bool {
    &&& text_hash(e.tx_hash.0@) is Some
    &&& text_bytes(e.pubkey.0@) is Some
    &&& text_bytes(e.signature.0@) is Some
}

pub open spec fn transfer_says(a: TransactionAction, f: InputTransferAction) -> bool {
    &&& a is Transfer
    &&& text_bytes(f.receiver.0@) == Some(a->receiver@)
    &&& user_wf(a->receiver)
    &&& text_hash(f.carrying_asset_id.0@) == Some(a->Transfer_carrying_asset.asset_id@)
    &&& text_bytes(f.carrying_amount.0@) is Some
    &&& a->Transfer_carrying_asset.amount@ == be_nat(text_bytes(f.carrying_amount.0@)->0)
}

pub open spec fn transfer_ok(f: InputTransferAction) -> bool {
    &&& text_bytes(f.receiver.0@) is Some && user_ok(text_bytes(f.receiver.0@)->0)
    &&& text_hash(f.carrying_asset_id.0@) is Some
    &&& text_bytes(f.carrying_amount.0@) is Some
}

pub open spec fn deploy_says(a: TransactionAction, f: InputDeployAction) -> bool {
    &&& a is Deploy
    &&& text_bytes(f.code.0@) == Some(a->code@)
    &&& a->contract_type == match f.contract_type {
        ContractType::Asset => super::ContractType::Asset,
        ContractType::App => super::ContractType::App,
        ContractType::Library => super::ContractType::Library,
    }
}

//@fn core/api/src/lib.rs cover_transfer_action
//@. ensures
        r is Ok <==> transfer_ok(*input_action),
        r is Ok ==> transfer_says(r->Ok_0, *input_action),
//@end
//@fn core/api/src/lib.rs cover_deploy_action
//@. ensures
        r is Ok <==> text_bytes(input_action.code.0@) is Some,
        r is Ok ==> deploy_says(r->Ok_0, *input_action),
//@end
//@fn core/api/src/lib.rs cover_to_raw_tx
//@. ensures
        r is Ok <==> raw_ok(*input_raw),
        r is Ok ==> raw_says(r->Ok_0, *input_raw, *action),
//@end
//@fn core/api/src/lib.rs cover_to_signed_tx
//@. ensures
        r is Ok <==> raw_ok(*input_raw) && signed_ok(*input_encryption),
        r is Ok ==> raw_says(r->Ok_0.raw, *input_raw, *action) && signed_says(r->Ok_0, *input_encryption),
//@end
//@fn core/api/src/lib.rs gen_input_tx_encryption
//@. ensures
        r is Ok <==> text_bytes(input_privkey.0@) is Some && is_key(text_bytes(input_privkey.0@)->0) && text_hash(tx_hash.0@) is Some,
        r is Ok ==> ({
            let k = text_bytes(input_privkey.0@)->0;
            &&& r->Ok_0.tx_hash == tx_hash
            &&& r->Ok_0.pubkey.0@ == hex_enc(pub_of(k))
            &&& r->Ok_0.signature.0@ == hex_enc(sig_of(k, text_hash(tx_hash.0@)->0))
        }),
//@end

// ------------------------------------------------------------------ what an answer says
pub open spec fn hexes(s: Seq<Hash>, v: Seq<super::Hash>) -> bool {
    s.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i]).0@ == hex_enc(v[i]@)
}

pub open spec fn header_says(r: EpochHeader, h: super::EpochHeader) -> bool {
    &&& r.chain_id.0@ == hex_enc(h.chain_id@)
    &&& r.epoch_id.0@ == hex_enc(be8(h.epoch_id))
    &&& r.pre_hash.0@ == hex_enc(h.pre_hash@)
    &&& r.timestamp.0@ == hex_enc(be8(h.timestamp))
    &&& r.order_root.0@ == hex_enc(h.order_root@)
    &&& hexes(r.confirm_root@, h.confirm_root@)
    &&& r.state_root.0@ == hex_enc(h.state_root@)
    &&& hexes(r.receipt_root@, h.receipt_root@)
    &&& r.cycles_used.0@ == hex_enc(be8(h.cycles_used))
    &&& r.proposer.0@ == hex_enc(h.proposer@)
    &&& r.validator_version.0@ == hex_enc(be8(h.validator_version))
}

pub open spec fn epoch_says(r: Epoch, e: super::Epoch) -> bool {
    header_says(r.header, e.header) && hexes(r.ordered_tx_hashes@, e.ordered_tx_hashes@)
}

impl EpochHeader {
//@fn core/api/src/schema/epoch.rs EpochHeader@From<protocol::types::EpochHeader>::from key api::EpochHeader::from
//@. ensures
        header_says(r, epoch_header),
//@. at start
        let ghost h = epoch_header;
//@. loop 0
        invariant
            __it0.s@ == h.confirm_root@,
            __it0.p@ <= __it0.s@.len(),
            hexes(__v2@, h.confirm_root@.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
        invariant
            __it1.s@ == h.receipt_root@,
            __it1.p@ <= __it1.s@.len(),
            hexes(__v5@, h.receipt_root@.take(__it1.p@ as int)),
        decreases __it1.s@.len() - __it1.p@,
//@end
}

impl Epoch {
//@fn core/api/src/schema/epoch.rs Epoch@From<protocol::types::Epoch>::from key api::Epoch::from
//@. ensures
        epoch_says(r, epoch),
//@. at start
        let ghost h = epoch.ordered_tx_hashes@;
//@. loop 0
        invariant
            __it0.s@ == h,
            __it0.p@ <= __it0.s@.len(),
            hexes(__v2@, h.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@end
}

/// The height asked for.
pub open spec fn asked(id: Option<Uint64>) -> Option<Option<u64>> {
    match id {
        None => Some(None),
        Some(t) => match radix16(digits(t.0@)) {
            Some(n) => Some(Some(n)),
            None => None,
        },
    }
}

impl Query {
//@fn core/api/src/lib.rs Query::get_latest_epoch
//@. ensures
        r is Ok <==> asked(epoch_id) is Some && state_ctx.adapter.epoch(asked(epoch_id)->0) is Some,
        r is Ok ==> epoch_says(r->Ok_0, state_ctx.adapter.epoch(asked(epoch_id)->0)->0),
//@end
//@fn core/api/src/lib.rs Query::get_balance
//@. ensures
        r is Ok <==> asked(epoch_id) is Some && text_hash(id.0@) is Some && text_bytes(address.0@) is Some
            && (user_ok(text_bytes(address.0@)->0) || contract_ok(text_bytes(address.0@)->0)),
        r is Ok ==> forall|a: super::Address, i: super::AssetID| a@ == text_bytes(address.0@)->0 && address_wf(a) && i@ == text_hash(id.0@)->0
            ==> #[trigger] balance_says(r->Ok_0, state_ctx.adapter, a, i, asked(epoch_id)->0),
//@. at end
        proof {
            assert(__r is Ok);
            assert(be_nat(Seq::<u8>::empty()) == 0);
            assert forall|a: super::Address, i: super::AssetID| a@ == address@ && address_wf(a) && i@ == id@
                implies #[trigger] balance_says(__r->Ok_0, state_ctx.adapter, a, i, epoch_id) by {
                lemma_addr_ext(a, address);
                axb::array_ext(i.0, id.0);
            }
        }
//@end
}

/// The balance, or zero where none can be read.
pub open spec fn balance_says(r: Balance, n: Adapter, a: super::Address, i: super::AssetID, at: Option<u64>) -> bool {
    match n.balance(a, i, at) {
        Some(b) => r.0@ == hex_enc(nat_be(b@)),
        None => r.0@ == hex_enc(nat_be(0)),
    }
}

// ------------------------------------------------------------------ submissions
pub open spec fn sent(a: World, b: World, r: FieldResult<Hash>, f: InputRawTransaction, e: InputTransactionEncryption) -> bool {
    let t = b.put.last().0;
    raw_says(t.raw, f, t.raw.action) && signed_says(t, e) && given(a, b, t, r is Ok)
}

/// Submitted under its own hash, signed with the key.
pub open spec fn signed_here(a: World, b: World, r: FieldResult<Hash>, f: InputRawTransaction, k: Bytes) -> bool {
    let t = b.put.last().0;
    &&& raw_says(t.raw, f, t.raw.action)
    &&& t.tx_hash@ == keccak(t.raw.enc())
    &&& text_bytes(k.0@) is Some
    &&& t.pubkey@ == pub_of(text_bytes(k.0@)->0)
    &&& t.signature@ == sig_of(text_bytes(k.0@)->0, t.tx_hash@)
    &&& given(a, b, t, r is Ok)
    &&& r is Ok ==> r->Ok_0.0@ == hex_enc(t.tx_hash@)
}

/// A text written in hex reads back.
pub proof fn lemma_text(b: Seq<u8>)
    ensures
        text_bytes(hex_enc(b)) == Some(b),
{
    let e = hex_enc(b);
    lemma_hex_round(b);
    if b.len() >= 1 {
        lemma_hex_first(b);
    }
    assert(no0x(e) == e);
    upper_hex(e);
    assert(forall|i: int| 0 <= i < e.len() ==> hex_val(#[trigger] e[i]) >= 0);
    assert(hex_dec(upper(e)) =~= hex_dec(e));
}

/// Forms that say the same make the same transaction.
pub proof fn lemma_same_raw(x: RawTransaction, y: RawTransaction, f: InputRawTransaction, a: TransactionAction)
    requires
        raw_says(x, f, a),
        raw_says(y, f, a),
    ensures
        x == y,
{
    axb::array_ext(x.chain_id.0, y.chain_id.0);
    axb::array_ext(x.nonce.0, y.nonce.0);
    axb::array_ext(x.fee.asset_id.0, y.fee.asset_id.0);
}

impl Mutation {
//@fn core/api/src/lib.rs Mutation::send_transfer_transaction
//@. params w: &mut World
//@. ensures
        !(transfer_ok(input_action) && raw_ok(input_raw) && signed_ok(input_encryption)) ==> r is Err && *final(w) == *old(w),
        transfer_ok(input_action) && raw_ok(input_raw) && signed_ok(input_encryption) ==>
            sent(*old(w), *final(w), r, input_raw, input_encryption) && transfer_says(final(w).put.last().0.raw.action, input_action),
        r is Ok ==> r->Ok_0 == input_encryption.tx_hash,
//@end
//@fn core/api/src/lib.rs Mutation::send_deploy_transaction
//@. params w: &mut World
//@. ensures
        !(text_bytes(input_action.code.0@) is Some && raw_ok(input_raw) && signed_ok(input_encryption)) ==> r is Err && *final(w) == *old(w),
        text_bytes(input_action.code.0@) is Some && raw_ok(input_raw) && signed_ok(input_encryption) ==>
            sent(*old(w), *final(w), r, input_raw, input_encryption) && deploy_says(final(w).put.last().0.raw.action, input_action),
        r is Ok ==> r->Ok_0 == input_encryption.tx_hash,
//@end
//@fn core/api/src/lib.rs Mutation::send_unsafe_transfer_transaction
//@. params w: &mut World
//@. ensures
        *final(w) == *old(w) && r is Err || signed_here(*old(w), *final(w), r, input_raw, input_privkey) && transfer_says(final(w).put.last().0.raw.action, input_action),
//@. at after:cover_to_raw_tx:0
        proof {
            lemma_text(keccak(raw_tx.enc()));
        }
//@. at after:cover_to_signed_tx:0
        proof {
            let k = text_bytes(input_privkey.0@)->0;
            lemma_text(pub_of(k));
            lemma_text(sig_of(k, keccak(raw_tx.enc())));
            lemma_same_raw(raw_tx, signed_tx.raw, input_raw, action);
        }
//@end
//@fn core/api/src/lib.rs Mutation::send_unsafe_deploy_transaction
//@. params w: &mut World
//@. ensures
        *final(w) == *old(w) && r is Err || signed_here(*old(w), *final(w), r, input_raw, input_privkey) && deploy_says(final(w).put.last().0.raw.action, input_action),
//@. at after:cover_to_raw_tx:0
        proof {
            lemma_text(keccak(raw_tx.enc()));
        }
//@. at after:cover_to_signed_tx:0
        proof {
            let k = text_bytes(input_privkey.0@)->0;
            lemma_text(pub_of(k));
            lemma_text(sig_of(k, keccak(raw_tx.enc())));
            lemma_same_raw(raw_tx, signed_tx.raw, input_raw, action);
        }
//@end
}
} // mod gql
} // verus!
