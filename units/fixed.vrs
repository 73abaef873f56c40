//@include types.vrs assume
//@include rlp.vrs
//@path String::from_utf8 => vx_from_utf8
//@method iter => vx_iter
//@macros protocol/src/fixed_codec/macro.rs
verus! {

use rlp::{all_wf, item_of, items, num, AsItem, Item};

//@item protocol/src/types/epoch.rs struct Epoch
//@item protocol/src/types/epoch.rs struct EpochHeader
//@item protocol/src/types/epoch.rs struct Proof
//@item protocol/src/types/epoch.rs struct Pill
//@item protocol/src/types/epoch.rs struct Validator
//@item protocol/src/types/epoch.rs struct EpochId
//@item protocol/src/fixed_codec/primitive.rs struct FixedUserAsset
//@item protocol/src/fixed_codec/primitive.rs struct FixedUserAssetApproved
//@item protocol/src/fixed_codec/primitive.rs struct FixedContractAsset
//@item protocol/src/fixed_codec/primitive.rs const USER_ACCOUNT_FLAG
//@item protocol/src/fixed_codec/primitive.rs const CONTRACT_ACCOUNT_FLAG
//@item protocol/src/fixed_codec/transaction.rs const TRANSFER_ACTION_FLAG
//@item protocol/src/fixed_codec/transaction.rs const DEPLOY_ACTION_FLAG
//@item protocol/src/fixed_codec/transaction.rs const CALL_ACTION_WITH_ASSET_FLAG
//@item protocol/src/fixed_codec/transaction.rs const CALL_ACTION_WITHOUT_ASSET_FLAG
//@item protocol/src/fixed_codec/transaction.rs const APPROVE_ACTION_FLAG
//@item protocol/src/fixed_codec/receipt.rs const TRANSFER_RESULT_FLAG
//@item protocol/src/fixed_codec/receipt.rs const DEPLOY_RESULT_FLAG
//@item protocol/src/fixed_codec/receipt.rs const CALL_RESULT_FLAG
//@item protocol/src/fixed_codec/receipt.rs const FAIL_RESULT_FLAG
//@item protocol/src/fixed_codec/receipt.rs const APPROVE_RESULT_FLAG

/// The vector with these elements.
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;

pub axiom fn vec_ext<T>(v: Vec<T>)
    ensures
        vec_of(v@) == v,
;

/// A vector, a text and a 32-byte hash are their content.
pub proof fn same_all<T>()
    ensures
        forall|v: Vec<T>| vec_of(#[trigger] v@) == v,
        forall|s: String| string_of(#[trigger] s@) == s,
        forall|n: nat| be_nat(#[trigger] nat_be(n)) == n,
{
    assert forall|n: nat| be_nat(#[trigger] nat_be(n)) == n by {
        nat_be_ok(n);
    }
    assert forall|v: Vec<T>| vec_of(#[trigger] v@) == v by {
        vec_ext(v);
    }
    assert forall|s: String| string_of(#[trigger] s@) == s by {
        string_ext(s);
    }
}

pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures
        r@ == utf8(s@),
;

#[verifier::external_body]
pub fn vx_from_utf8(b: Vec<u8>) -> (r: Result<String, ()>)
    ensures
        forall|c: Seq<char>| b@ == #[trigger] utf8(c) ==> r is Ok && r->Ok_0@ == c,
{
    unimplemented!()
}

impl Bloom {
    #[verifier::external_body]
    pub fn vx_as_ref(&self) -> (r: &Bloom)
        ensures
            *r == *self,
    {
        unimplemented!()
    }
}

pub open spec fn d(b: Seq<u8>) -> Item {
    Item::Data(b)
}

pub open spec fn t(s: String) -> Item {
    Item::Data(utf8(s@))
}

pub open spec fn n(b: Balance) -> Item {
    Item::Data(nat_be(b@))
}

pub open spec fn kind_no(k: ContractType) -> u8 {
    match k {
        ContractType::Asset => 0,
        ContractType::App => 1,
        ContractType::Library => 2,
        ContractType::Native => 3,
    }
}

// ------------------------------------------------------------------ what encode_fixed and decode_fixed promise
pub trait ProtocolFixedCodec: Sized {
    /// Whether `b` is an encoding of this value.
    spec fn is_enc(&self, b: Seq<u8>) -> bool;

    spec fn fwf(&self) -> bool;

    fn encode_fixed(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok,
            self.is_enc(r->Ok_0@),
    ;

    fn decode_fixed(bytes: Bytes) -> (res: ProtocolResult<Self>)
        ensures
            forall|x: Self| x.fwf() && #[trigger] x.is_enc(bytes@) ==> res == Ok::<Self, ProtocolError>(x),
    ;
}

pub enum FixedCodecError {
    Decoder(rlp::DecoderError),
}

impl core::convert::From<rlp::DecoderError> for FixedCodecError {
    #[verifier::external_body]
    fn from(e: rlp::DecoderError) -> FixedCodecError {
        unimplemented!()
    }
}

impl core::convert::From<FixedCodecError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: FixedCodecError) -> ProtocolError {
        unimplemented!()
    }
}

impl ProtocolFixedCodec for Bytes {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        b == self@
    }

    open spec fn fwf(&self) -> bool {
        true
    }

//@fn protocol/src/fixed_codec/primitive.rs Bytes@ProtocolFixedCodec::encode_fixed key fixed::Bytes::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs Bytes@ProtocolFixedCodec::decode_fixed key fixed::Bytes::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Hash {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(d(self@)))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for Hash {
//@fn protocol/src/fixed_codec/primitive.rs Hash@Encodable::rlp_append key fixed::Hash::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Hash {
//@fn protocol/src/fixed_codec/primitive.rs Hash@Decodable::decode key fixed::Hash::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for Hash {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs Hash@ProtocolFixedCodec::encode_fixed key fixed::Hash::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs Hash@ProtocolFixedCodec::decode_fixed key fixed::Hash::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Asset {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.id.item()).push(self.manage_contract.item()).push(t(self.name)).push(self.storage_root.item()).push(n(self.supply)).push(t(self.symbol)))
    }

    open spec fn iwf(&self) -> bool {
        contract_wf(self.manage_contract)
    }
}

impl rlp::Encodable for Asset {
//@fn protocol/src/fixed_codec/primitive.rs Asset@Encodable::rlp_append key fixed::Asset::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Asset {
//@fn protocol/src/fixed_codec/primitive.rs Asset@Decodable::decode key fixed::Asset::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<u8>();
        }
//@end
}

impl ProtocolFixedCodec for Asset {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs Asset@ProtocolFixedCodec::encode_fixed key fixed::Asset::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs Asset@ProtocolFixedCodec::decode_fixed key fixed::Asset::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Fee {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.asset_id.item()).push(self.cycle.item()))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for Fee {
//@fn protocol/src/fixed_codec/primitive.rs Fee@Encodable::rlp_append key fixed::Fee::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Fee {
//@fn protocol/src/fixed_codec/primitive.rs Fee@Decodable::decode key fixed::Fee::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for Fee {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs Fee@ProtocolFixedCodec::encode_fixed key fixed::Fee::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs Fee@ProtocolFixedCodec::decode_fixed key fixed::Fee::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Address {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(d(self@)))
    }

    open spec fn iwf(&self) -> bool {
        address_wf(*self)
    }
}

impl rlp::Encodable for Address {
//@fn protocol/src/fixed_codec/primitive.rs Address@Encodable::rlp_append key fixed::Address::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Address {
//@fn protocol/src/fixed_codec/primitive.rs Address@Decodable::decode key fixed::Address::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            assert forall|a: Address, b: Address| address_wf(a) && address_wf(b) && #[trigger] a@ == #[trigger] b@ implies a == b by {
                lemma_addr_ext(a, b);
            }
        }
//@end
}

impl ProtocolFixedCodec for Address {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs Address@ProtocolFixedCodec::encode_fixed key fixed::Address::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs Address@ProtocolFixedCodec::decode_fixed key fixed::Address::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for UserAddress {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(d(self@)))
    }

    open spec fn iwf(&self) -> bool {
        user_wf(*self)
    }
}

impl rlp::Encodable for UserAddress {
//@fn protocol/src/fixed_codec/primitive.rs UserAddress@Encodable::rlp_append key fixed::UserAddress::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for UserAddress {
//@fn protocol/src/fixed_codec/primitive.rs UserAddress@Decodable::decode key fixed::UserAddress::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for UserAddress {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs UserAddress@ProtocolFixedCodec::encode_fixed key fixed::UserAddress::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs UserAddress@ProtocolFixedCodec::decode_fixed key fixed::UserAddress::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for ContractAddress {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(d(self@)))
    }

    open spec fn iwf(&self) -> bool {
        contract_wf(*self)
    }
}

impl rlp::Encodable for ContractAddress {
//@fn protocol/src/fixed_codec/primitive.rs ContractAddress@Encodable::rlp_append key fixed::ContractAddress::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for ContractAddress {
//@fn protocol/src/fixed_codec/primitive.rs ContractAddress@Decodable::decode key fixed::ContractAddress::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for ContractAddress {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs ContractAddress@ProtocolFixedCodec::encode_fixed key fixed::ContractAddress::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs ContractAddress@ProtocolFixedCodec::decode_fixed key fixed::ContractAddress::decode_fixed
//@. ret res
//@. nopub
//@end
}

// ------------------------------------------------------------------ accounts
/// A map rebuilt by inserting its pairs one after the other.
pub open spec fn rebuilt<K, V>(s: Seq<(K, V)>, n: int) -> Map<K, V>
    decreases n,
{
    if n <= 0 {
        Map::empty()
    } else {
        rebuilt(s, n - 1).insert(s[n - 1].0, s[n - 1].1)
    }
}

pub proof fn lemma_rebuilt_part<K, V>(m: Map<K, V>, s: Seq<(K, V)>, n: int)
    requires
        map_seq_ok(m, s),
        0 <= n <= s.len(),
    ensures
        forall|k: K| #[trigger] rebuilt(s, n).contains_key(k) <==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k,
        forall|k: K| #[trigger] rebuilt(s, n).contains_key(k) ==> m.contains_key(k) && rebuilt(s, n)[k] == m[k],
    decreases n,
{
    if n > 0 {
        lemma_rebuilt_part(m, s, n - 1);
        assert(m.contains_key(s[n - 1].0));
        assert(m[s[n - 1].0] == s[n - 1].1);
        assert forall|k: K| #[trigger] rebuilt(s, n).contains_key(k) implies m.contains_key(k) && rebuilt(s, n)[k] == m[k] by {
            if k != s[n - 1].0 {
                assert(rebuilt(s, n - 1).contains_key(k));
            }
        }
        assert forall|k: K| #[trigger] rebuilt(s, n).contains_key(k) implies exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k by {
            if k == s[n - 1].0 {
                assert(s[n - 1].0 == k);
            } else {
                assert(rebuilt(s, n - 1).contains_key(k));
                let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0 == k;
                assert(0 <= i < n && s[i].0 == k);
            }
        }
        assert forall|k: K| (exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k) implies #[trigger] rebuilt(s, n).contains_key(k) by {
            let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k;
            if i < n - 1 {
                assert(rebuilt(s, n - 1).contains_key(k));
            }
        }
    }
}

pub proof fn lemma_rebuilt<K, V>(m: Map<K, V>, s: Seq<(K, V)>)
    requires
        map_seq_ok(m, s),
    ensures
        rebuilt(s, s.len() as int) == m,
{
    lemma_rebuilt_part(m, s, s.len() as int);
    let r = rebuilt(s, s.len() as int);
    assert forall|k: K| #[trigger] m.contains_key(k) implies r.contains_key(k) by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(0 <= i < s.len() && s[i].0 == k);
    }
    assert(r =~= m);
}

pub open spec fn approvals(m: Map<ContractAddress, ApprovedInfo>) -> Seq<FixedUserAssetApproved> {
    bt_seq(m).map_values(|p: (ContractAddress, ApprovedInfo)| FixedUserAssetApproved { contract_address: p.0, max: p.1.max, used: p.1.used })
}

pub open spec fn approval_pairs(s: Seq<FixedUserAssetApproved>) -> Seq<(ContractAddress, ApprovedInfo)> {
    s.map_values(|v: FixedUserAssetApproved| (v.contract_address, ApprovedInfo { max: v.max, used: v.used }))
}

pub open spec fn holdings(m: Map<Hash, AssetInfo>) -> Seq<FixedUserAsset> {
    bt_seq(m).map_values(|p: (Hash, AssetInfo)| FixedUserAsset { id: p.0, balance: p.1.balance, approved: p.1.approved })
}

pub open spec fn holding_pairs(s: Seq<FixedUserAsset>) -> Seq<(Hash, AssetInfo)> {
    s.map_values(|v: FixedUserAsset| (v.id, AssetInfo { balance: v.balance, approved: v.approved }))
}

pub open spec fn balances(m: Map<Hash, Balance>) -> Seq<FixedContractAsset> {
    bt_seq(m).map_values(|p: (Hash, Balance)| FixedContractAsset { id: p.0, balance: p.1 })
}

pub open spec fn balance_pairs(s: Seq<FixedContractAsset>) -> Seq<(Hash, Balance)> {
    s.map_values(|v: FixedContractAsset| (v.id, v.balance))
}

pub open spec fn approvals_wf(m: Map<ContractAddress, ApprovedInfo>) -> bool {
    forall|k: ContractAddress| #[trigger] m.contains_key(k) ==> contract_wf(k)
}

pub proof fn lemma_approvals(m: Map<ContractAddress, ApprovedInfo>)
    ensures
        rebuilt(approval_pairs(approvals(m)), approvals(m).len() as int) == m,
        approvals_wf(m) ==> all_wf(approvals(m)),
{
    bt_seq_ok(m);
    assert(approval_pairs(approvals(m)) =~= bt_seq(m));
    lemma_rebuilt(m, bt_seq(m));
    if approvals_wf(m) {
        assert forall|i: int| 0 <= i < approvals(m).len() implies (#[trigger] approvals(m)[i]).iwf() by {
            assert(m.contains_key(bt_seq(m)[i].0));
        }
    }
}

pub open spec fn holdings_wf(m: Map<Hash, AssetInfo>) -> bool {
    forall|k: Hash| #[trigger] m.contains_key(k) ==> approvals_wf(m[k].approved@)
}

pub proof fn lemma_holdings(m: Map<Hash, AssetInfo>)
    ensures
        rebuilt(holding_pairs(holdings(m)), holdings(m).len() as int) == m,
        holdings_wf(m) ==> all_wf(holdings(m)),
{
    bt_seq_ok(m);
    assert(holding_pairs(holdings(m)) =~= bt_seq(m));
    lemma_rebuilt(m, bt_seq(m));
    if holdings_wf(m) {
        assert forall|i: int| 0 <= i < holdings(m).len() implies (#[trigger] holdings(m)[i]).iwf() by {
            assert(m.contains_key(bt_seq(m)[i].0));
        }
    }
}

pub proof fn lemma_balances(m: Map<Hash, Balance>)
    ensures
        rebuilt(balance_pairs(balances(m)), balances(m).len() as int) == m,
        all_wf(balances(m)),
{
    bt_seq_ok(m);
    assert(balance_pairs(balances(m)) =~= bt_seq(m));
    lemma_rebuilt(m, bt_seq(m));
}

impl AsItem for FixedUserAssetApproved {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.contract_address.item()).push(n(self.max)).push(n(self.used)))
    }

    open spec fn iwf(&self) -> bool {
        contract_wf(self.contract_address)
    }
}

impl rlp::Encodable for FixedUserAssetApproved {
//@fn protocol/src/fixed_codec/primitive.rs FixedUserAssetApproved@Encodable::rlp_append key fixed::FixedUserAssetApproved::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for FixedUserAssetApproved {
//@fn protocol/src/fixed_codec/primitive.rs FixedUserAssetApproved@Decodable::decode key fixed::FixedUserAssetApproved::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<u8>();
        }
//@end
}

impl AsItem for FixedUserAsset {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(Item::List(items(approvals(self.approved@)))).push(n(self.balance)).push(self.id.item()))
    }

    open spec fn iwf(&self) -> bool {
        approvals_wf(self.approved@)
    }
}

impl rlp::Encodable for FixedUserAsset {
//@fn protocol/src/fixed_codec/primitive.rs FixedUserAsset@Encodable::rlp_append key fixed::FixedUserAsset::rlp_append
//@. nopub
//@. loop 0
        invariant
            __it0.s@ == bt_seq(self.approved@),
            __it0.p@ <= __it0.s@.len(),
            info_list@ == approvals(self.approved@).take(__it0.p@ as int),
            s.k@ == rlp::open_list(old(s).k@, 3),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:end
        proof {
            assert(info_list@ =~= approvals(self.approved@).take(__it0.p@ as int));
        }
//@. at loop:0:after
        proof {
            assert(rlp::lent::<FixedUserAssetApproved, FixedUserAssetApproved>(info_list@) =~= approvals(self.approved@));
        }
//@end
}

impl rlp::Decodable for FixedUserAsset {
//@fn protocol/src/fixed_codec/primitive.rs FixedUserAsset@Decodable::decode key fixed::FixedUserAsset::decode
//@. ret res
//@. nopub
//@. loop 0
        invariant
            __it0.s@ == approved_list@,
            __it0.p@ <= __it0.s@.len(),
            approved@ == rebuilt(approval_pairs(approved_list@), __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert forall|m: Map<ContractAddress, ApprovedInfo>| approved_list@ == #[trigger] approvals(m) implies approved@ == m by {
                lemma_approvals(m);
            }
        }
//@. at start
        proof {
            same_all::<u8>();
            assert forall|m: Map<ContractAddress, ApprovedInfo>| approvals_wf(m) implies all_wf(#[trigger] approvals(m)) by {
                lemma_approvals(m);
            }
        }
//@end
}

impl AsItem for FixedContractAsset {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(n(self.balance)).push(self.id.item()))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for FixedContractAsset {
//@fn protocol/src/fixed_codec/primitive.rs FixedContractAsset@Encodable::rlp_append key fixed::FixedContractAsset::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for FixedContractAsset {
//@fn protocol/src/fixed_codec/primitive.rs FixedContractAsset@Decodable::decode key fixed::FixedContractAsset::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<u8>();
        }
//@end
}

impl AsItem for Account {
    open spec fn item(&self) -> Item {
        match *self {
            Account::User(u) => Item::List(Seq::empty().push(0u8.item()).push(Item::List(items(holdings(u.assets@)))).push(u.nonce.item())),
            Account::Contract(c) => Item::List(Seq::empty().push(1u8.item()).push(Item::List(items(balances(c.assets@)))).push(c.nonce.item()).push(c.storage_root.item())),
        }
    }

    open spec fn iwf(&self) -> bool {
        match *self {
            Account::User(u) => holdings_wf(u.assets@),
            Account::Contract(_) => true,
        }
    }
}

impl rlp::Encodable for Account {
//@fn protocol/src/fixed_codec/primitive.rs Account@Encodable::rlp_append key fixed::Account::rlp_append
//@. nopub
//@. loop 0
        invariant
            __it0.s@ == bt_seq(user.assets@),
            __it0.p@ <= __it0.s@.len(),
            asset_list@ == holdings(user.assets@).take(__it0.p@ as int),
            s.k@ == rlp::put(rlp::open_list(old(s).k@, 3), num(0)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:end
        proof {
            assert(asset_list@ =~= holdings(user.assets@).take(__it0.p@ as int));
        }
//@. at loop:0:after
        proof {
            assert(rlp::lent::<FixedUserAsset, FixedUserAsset>(asset_list@) =~= holdings(user.assets@));
        }
//@. loop 1
        invariant
            __it1.s@ == bt_seq(contract.assets@),
            __it1.p@ <= __it1.s@.len(),
            asset_list@ == balances(contract.assets@).take(__it1.p@ as int),
            s.k@ == rlp::put(rlp::open_list(old(s).k@, 4), num(1)),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:end
        proof {
            assert(asset_list@ =~= balances(contract.assets@).take(__it1.p@ as int));
        }
//@. at loop:1:after
        proof {
            assert(rlp::lent::<FixedContractAsset, FixedContractAsset>(asset_list@) =~= balances(contract.assets@));
        }
//@end
}

impl rlp::Decodable for Account {
//@fn protocol/src/fixed_codec/primitive.rs Account@Decodable::decode key fixed::Account::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            assert forall|m: Map<Hash, AssetInfo>| holdings_wf(m) implies all_wf(#[trigger] holdings(m)) by {
                lemma_holdings(m);
            }
            assert forall|m: Map<Hash, Balance>| all_wf(#[trigger] balances(m)) by {
                lemma_balances(m);
            }
        }
//@. loop 0
        invariant
            __it0.s@ == asset_list@,
            __it0.p@ <= __it0.s@.len(),
            assets@ == rebuilt(holding_pairs(asset_list@), __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert forall|m: Map<Hash, AssetInfo>| asset_list@ == #[trigger] holdings(m) implies assets@ == m by {
                lemma_holdings(m);
            }
        }
//@. loop 1
        invariant
            __it1.s@ == asset_list@,
            __it1.p@ <= __it1.s@.len(),
            assets@ == rebuilt(balance_pairs(asset_list@), __it1.p@ as int),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:after
        proof {
            assert forall|m: Map<Hash, Balance>| asset_list@ == #[trigger] balances(m) implies assets@ == m by {
                lemma_balances(m);
            }
        }
//@end
}

impl ProtocolFixedCodec for Account {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/primitive.rs Account@ProtocolFixedCodec::encode_fixed key fixed::Account::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/primitive.rs Account@ProtocolFixedCodec::decode_fixed key fixed::Account::decode_fixed
//@. ret res
//@. nopub
//@end
}

// ------------------------------------------------------------------ epochs
impl AsItem for Proof {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(d(self.bitmap@)).push(self.epoch_hash.item()).push(self.epoch_id.item()).push(self.round.item()).push(d(self.signature@)))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for Proof {
//@fn protocol/src/fixed_codec/epoch.rs Proof@Encodable::rlp_append key fixed::Proof::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Proof {
//@fn protocol/src/fixed_codec/epoch.rs Proof@Decodable::decode key fixed::Proof::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for Proof {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/epoch.rs Proof@ProtocolFixedCodec::encode_fixed key fixed::Proof::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/epoch.rs Proof@ProtocolFixedCodec::decode_fixed key fixed::Proof::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Validator {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.address.item()).push(self.propose_weight.item()).push(self.vote_weight.item()))
    }

    open spec fn iwf(&self) -> bool {
        user_wf(self.address)
    }
}

impl rlp::Encodable for Validator {
//@fn protocol/src/fixed_codec/epoch.rs Validator@Encodable::rlp_append key fixed::Validator::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Validator {
//@fn protocol/src/fixed_codec/epoch.rs Validator@Decodable::decode key fixed::Validator::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for Validator {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/epoch.rs Validator@ProtocolFixedCodec::encode_fixed key fixed::Validator::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/epoch.rs Validator@ProtocolFixedCodec::decode_fixed key fixed::Validator::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for EpochHeader {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.chain_id.item()).push(Item::List(items(self.confirm_root@))).push(self.cycles_used.item()).push(self.epoch_id.item()).push(self.logs_bloom.item()).push(self.order_root.item()).push(self.pre_hash.item()).push(self.proof.item()).push(self.proposer.item()).push(Item::List(items(self.receipt_root@))).push(self.state_root.item()).push(self.timestamp.item()).push(self.validator_version.item()).push(Item::List(items(self.validators@))))
    }

    open spec fn iwf(&self) -> bool {
        self.logs_bloom.iwf() && user_wf(self.proposer) && all_wf(self.validators@)
    }
}

impl rlp::Encodable for EpochHeader {
//@fn protocol/src/fixed_codec/epoch.rs EpochHeader@Encodable::rlp_append key fixed::EpochHeader::rlp_append
//@. nopub
//@. at start
        proof {
            lent_all::<Hash>();
            lent_all::<Validator>();
        }
//@end
}

impl rlp::Decodable for EpochHeader {
//@fn protocol/src/fixed_codec/epoch.rs EpochHeader@Decodable::decode key fixed::EpochHeader::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<Hash>();
            same_all::<Validator>();
        }
//@end
}

impl ProtocolFixedCodec for EpochHeader {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/epoch.rs EpochHeader@ProtocolFixedCodec::encode_fixed key fixed::EpochHeader::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/epoch.rs EpochHeader@ProtocolFixedCodec::decode_fixed key fixed::EpochHeader::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Epoch {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.header.item()).push(Item::List(items(self.ordered_tx_hashes@))))
    }

    open spec fn iwf(&self) -> bool {
        self.header.iwf()
    }
}

impl rlp::Encodable for Epoch {
//@fn protocol/src/fixed_codec/epoch.rs Epoch@Encodable::rlp_append key fixed::Epoch::rlp_append
//@. nopub
//@. at start
        proof {
            lent_all::<Hash>();
        }
//@end
}

impl rlp::Decodable for Epoch {
//@fn protocol/src/fixed_codec/epoch.rs Epoch@Decodable::decode key fixed::Epoch::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<Hash>();
        }
//@end
}

impl ProtocolFixedCodec for Epoch {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/epoch.rs Epoch@ProtocolFixedCodec::encode_fixed key fixed::Epoch::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/epoch.rs Epoch@ProtocolFixedCodec::decode_fixed key fixed::Epoch::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Pill {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.epoch.item()).push(Item::List(items(self.propose_hashes@))))
    }

    open spec fn iwf(&self) -> bool {
        self.epoch.iwf()
    }
}

impl rlp::Encodable for Pill {
//@fn protocol/src/fixed_codec/epoch.rs Pill@Encodable::rlp_append key fixed::Pill::rlp_append
//@. nopub
//@. at start
        proof {
            lent_all::<Hash>();
        }
//@end
}

impl rlp::Decodable for Pill {
//@fn protocol/src/fixed_codec/epoch.rs Pill@Decodable::decode key fixed::Pill::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<Hash>();
        }
//@end
}

impl ProtocolFixedCodec for Pill {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/epoch.rs Pill@ProtocolFixedCodec::encode_fixed key fixed::Pill::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/epoch.rs Pill@ProtocolFixedCodec::decode_fixed key fixed::Pill::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for EpochId {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.id.item()))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for EpochId {
//@fn protocol/src/fixed_codec/epoch.rs EpochId@Encodable::rlp_append key fixed::EpochId::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for EpochId {
//@fn protocol/src/fixed_codec/epoch.rs EpochId@Decodable::decode key fixed::EpochId::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for EpochId {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/epoch.rs EpochId@ProtocolFixedCodec::encode_fixed key fixed::EpochId::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/epoch.rs EpochId@ProtocolFixedCodec::decode_fixed key fixed::EpochId::decode_fixed
//@. ret res
//@. nopub
//@end
}

// ------------------------------------------------------------------ genesis
impl AsItem for GenesisSystemToken {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(t(self.code)).push(t(self.name)).push(self.supply.item()).push(t(self.symbol)))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for GenesisSystemToken {
//@fn protocol/src/fixed_codec/genesis.rs GenesisSystemToken@Encodable::rlp_append key fixed::GenesisSystemToken::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for GenesisSystemToken {
//@fn protocol/src/fixed_codec/genesis.rs GenesisSystemToken@Decodable::decode key fixed::GenesisSystemToken::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<u8>();
        }
//@end
}

impl ProtocolFixedCodec for GenesisSystemToken {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/genesis.rs GenesisSystemToken@ProtocolFixedCodec::encode_fixed key fixed::GenesisSystemToken::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/genesis.rs GenesisSystemToken@ProtocolFixedCodec::decode_fixed key fixed::GenesisSystemToken::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for GenesisStateAsset {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(t(self.asset_id)).push(t(self.balance)))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for GenesisStateAsset {
//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAsset@Encodable::rlp_append key fixed::GenesisStateAsset::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for GenesisStateAsset {
//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAsset@Decodable::decode key fixed::GenesisStateAsset::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<u8>();
        }
//@end
}

impl ProtocolFixedCodec for GenesisStateAsset {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAsset@ProtocolFixedCodec::encode_fixed key fixed::GenesisStateAsset::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAsset@ProtocolFixedCodec::decode_fixed key fixed::GenesisStateAsset::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for GenesisStateAlloc {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(t(self.address)).push(Item::List(items(self.assets@))))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for GenesisStateAlloc {
//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAlloc@Encodable::rlp_append key fixed::GenesisStateAlloc::rlp_append
//@. nopub
//@. at start
        proof {
            lent_all::<GenesisStateAsset>();
        }
//@end
}

impl rlp::Decodable for GenesisStateAlloc {
//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAlloc@Decodable::decode key fixed::GenesisStateAlloc::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<GenesisStateAsset>();
        }
//@end
}

impl ProtocolFixedCodec for GenesisStateAlloc {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAlloc@ProtocolFixedCodec::encode_fixed key fixed::GenesisStateAlloc::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/genesis.rs GenesisStateAlloc@ProtocolFixedCodec::decode_fixed key fixed::GenesisStateAlloc::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for Genesis {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(t(self.prevhash)).push(Item::List(items(self.state_alloc@))).push(self.system_token.item()).push(self.timestamp.item()))
    }

    open spec fn iwf(&self) -> bool {
        true
    }
}

impl rlp::Encodable for Genesis {
//@fn protocol/src/fixed_codec/genesis.rs Genesis@Encodable::rlp_append key fixed::Genesis::rlp_append
//@. nopub
//@. at start
        proof {
            lent_all::<GenesisStateAlloc>();
        }
//@end
}

impl rlp::Decodable for Genesis {
//@fn protocol/src/fixed_codec/genesis.rs Genesis@Decodable::decode key fixed::Genesis::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<GenesisStateAlloc>();
        }
//@end
}

impl ProtocolFixedCodec for Genesis {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/genesis.rs Genesis@ProtocolFixedCodec::encode_fixed key fixed::Genesis::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/genesis.rs Genesis@ProtocolFixedCodec::decode_fixed key fixed::Genesis::decode_fixed
//@. ret res
//@. nopub
//@end
}

// ------------------------------------------------------------------ receipts
impl AsItem for Receipt {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(self.cycles_used.item()).push(self.epoch_id.item()).push(self.result.item()).push(self.state_root.item()).push(self.tx_hash.item()))
    }

    open spec fn iwf(&self) -> bool {
        self.result.iwf()
    }
}

impl rlp::Encodable for Receipt {
//@fn protocol/src/fixed_codec/receipt.rs Receipt@Encodable::rlp_append key fixed::Receipt::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for Receipt {
//@fn protocol/src/fixed_codec/receipt.rs Receipt@Decodable::decode key fixed::Receipt::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for Receipt {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/receipt.rs Receipt@ProtocolFixedCodec::encode_fixed key fixed::Receipt::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/receipt.rs Receipt@ProtocolFixedCodec::decode_fixed key fixed::Receipt::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for ReceiptResult {
    open spec fn item(&self) -> Item {
        match *self {
            ReceiptResult::Transfer { receiver, asset_id, before_amount, after_amount } => Item::List(Seq::empty().push(0u8.item()).push(n(after_amount)).push(asset_id.item()).push(n(before_amount)).push(receiver.item())),
            ReceiptResult::Deploy { contract, contract_type } => Item::List(Seq::empty().push(1u8.item()).push(contract.item()).push(kind_no(contract_type).item())),
            ReceiptResult::Call { contract, return_value, logs_bloom } => Item::List(Seq::empty().push(2u8.item()).push(contract.item()).push(logs_bloom.item()).push(d(return_value@))),
            ReceiptResult::Fail { system, user } => Item::List(Seq::empty().push(3u8.item()).push(t(system)).push(t(user))),
            ReceiptResult::Approve { spender, asset_id, max } => Item::List(Seq::empty().push(4u8.item()).push(asset_id.item()).push(n(max)).push(spender.item())),
        }
    }

    open spec fn iwf(&self) -> bool {
        match *self {
            ReceiptResult::Transfer { receiver, asset_id, before_amount, after_amount } => user_wf(receiver),
            ReceiptResult::Deploy { contract, contract_type } => contract_wf(contract),
            ReceiptResult::Call { contract, return_value, logs_bloom } => contract_wf(contract) && logs_bloom.iwf(),
            ReceiptResult::Fail { system, user } => true,
            ReceiptResult::Approve { spender, asset_id, max } => contract_wf(spender),
        }
    }
}

impl rlp::Encodable for ReceiptResult {
//@fn protocol/src/fixed_codec/receipt.rs ReceiptResult@Encodable::rlp_append key fixed::ReceiptResult::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for ReceiptResult {
//@fn protocol/src/fixed_codec/receipt.rs ReceiptResult@Decodable::decode key fixed::ReceiptResult::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<u8>();
        }
//@end
}

impl ProtocolFixedCodec for ReceiptResult {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/receipt.rs ReceiptResult@ProtocolFixedCodec::encode_fixed key fixed::ReceiptResult::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/receipt.rs ReceiptResult@ProtocolFixedCodec::decode_fixed key fixed::ReceiptResult::decode_fixed
//@. ret res
//@. nopub
//@end
}

// ------------------------------------------------------------------ transactions
/// What every action starts with.
pub open spec fn head(x: RawTransaction, flag: u8) -> Seq<Item> {
    Seq::empty().push(flag.item()).push(d(x.chain_id@)).push(d(x.fee.asset_id@)).push(x.fee.cycle.item()).push(d(x.nonce@)).push(x.timeout.item())
}

/// The fields every action starts with are where they belong.
pub open spec fn head_at(r: rlp::Rlp, x: RawTransaction) -> bool {
    &&& r.nth(1) == Some(d(x.chain_id@))
    &&& r.nth(2) == Some(d(x.fee.asset_id@))
    &&& r.nth(3) == Some(x.fee.cycle.item())
    &&& r.nth(4) == Some(d(x.nonce@))
    &&& r.nth(5) == Some(x.timeout.item())
}

pub open spec fn hexed(s: Seq<Bytes>) -> Seq<String> {
    s.map_values(|b: Bytes| string_of(hex_enc(b@)))
}

/// hex::encode gives a string for every byte string.
pub axiom fn hex_string(b: Bytes)
    ensures
        string_of(hex_enc(b@))@ == hex_enc(b@),
;

/// The arguments of a call.
pub open spec fn call_args(x: RawTransaction) -> Seq<Bytes> {
    x.action->args@
}

pub proof fn lemma_hexed(s: Seq<Bytes>, i: int)
    requires
        0 <= i < s.len(),
    ensures
        hex_ok(no0x(hexed(s)[i]@)),
        hex_dec(no0x(hexed(s)[i]@)) == s[i]@,
{
    hex_string(s[i]);
    lemma_hex_round(s[i]@);
    if s[i]@.len() > 0 {
        lemma_hex_first(s[i]@);
    }
}

pub open spec fn hexed_upto(v: Seq<String>, s: Seq<Bytes>, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == string_of(hex_enc(s[i]@))
}

pub open spec fn unhexed_upto(v: Seq<Bytes>, s: Seq<String>, n: int) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i])@ == hex_dec(no0x(s[i]@)) && hex_ok(no0x(s[i]@))
}

pub open spec fn args_item(s: Seq<Bytes>) -> Item {
    Item::List(items(hexed(s)))
}

impl AsItem for RawTransaction {
    open spec fn item(&self) -> Item {
        match self.action {
            TransactionAction::Transfer { receiver, carrying_asset } => Item::List(head(*self, 0).push(n(carrying_asset.amount)).push(d(carrying_asset.asset_id@)).push(d(receiver@))),
            TransactionAction::Deploy { code, contract_type } => Item::List(head(*self, 1).push(d(code@)).push(kind_no(contract_type).item())),
            TransactionAction::Call { contract, method, args, carrying_asset } => match carrying_asset {
                Some(c) => Item::List(head(*self, 2).push(args_item(args@)).push(n(c.amount)).push(d(c.asset_id@)).push(d(contract@)).push(t(method))),
                None => Item::List(head(*self, 3).push(args_item(args@)).push(d(contract@)).push(t(method))),
            },
            TransactionAction::Approve { spender, asset_id, max } => Item::List(head(*self, 4).push(d(asset_id@)).push(n(max)).push(d(spender@))),
        }
    }

    open spec fn iwf(&self) -> bool {
        match self.action {
            TransactionAction::Transfer { receiver, carrying_asset } => user_wf(receiver),
            TransactionAction::Deploy { code, contract_type } => true,
            TransactionAction::Call { contract, method, args, carrying_asset } => contract_wf(contract),
            TransactionAction::Approve { spender, asset_id, max } => contract_wf(spender),
        }
    }
}

impl rlp::Encodable for RawTransaction {
//@fn protocol/src/fixed_codec/transaction.rs RawTransaction@Encodable::rlp_append key fixed::RawTransaction::rlp_append
//@. nopub
//@. at start
        proof {
            lent_all::<String>();
            same_all::<u8>();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == args@,
            hexed_upto(__v2@, args@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            same_all::<u8>();
        }
//@. at loop:0:after
        proof {
            assert(__v2@ =~= hexed(args@));
        }
//@end
}

impl rlp::Decodable for RawTransaction {
//@fn protocol/src/fixed_codec/transaction.rs RawTransaction@Decodable::decode key fixed::RawTransaction::decode
//@. ret res
//@. nopub
//@. at start
        proof {
            same_all::<Bytes>();
            assert forall|x: RawTransaction| r.it() == Some(#[trigger] x.item()) implies head_at(*r, x) by {}
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == args@,
            unhexed_upto(__v2@, args@, __it0.p@ as int),
            forall|x: RawTransaction| x.iwf() && r.it() == Some(#[trigger] x.item()) ==> args@ == hexed(call_args(x)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            assert forall|x: RawTransaction| x.iwf() && r.it() == Some(#[trigger] x.item()) implies hex_ok(no0x(args@[__it0.p@ as int]@)) by {
                lemma_hexed(call_args(x), __it0.p@ as int);
            }
        }
//@. at loop:0:after
        proof {
            assert forall|x: RawTransaction| x.iwf() && r.it() == Some(#[trigger] x.item()) implies __v2@ == call_args(x) by {
                assert forall|i: int| 0 <= i < __v2@.len() implies __v2@[i] == call_args(x)[i] by {
                    lemma_hexed(call_args(x), i);
                }
                assert(__v2@ =~= call_args(x));
            }
        }
//@end
}

impl ProtocolFixedCodec for RawTransaction {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/transaction.rs RawTransaction@ProtocolFixedCodec::encode_fixed key fixed::RawTransaction::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/transaction.rs RawTransaction@ProtocolFixedCodec::decode_fixed key fixed::RawTransaction::decode_fixed
//@. ret res
//@. nopub
//@end
}

impl AsItem for SignedTransaction {
    open spec fn item(&self) -> Item {
        Item::List(Seq::empty().push(d(self.pubkey@)).push(self.raw.item()).push(d(self.signature@)).push(self.tx_hash.item()))
    }

    open spec fn iwf(&self) -> bool {
        self.raw.iwf()
    }
}

impl rlp::Encodable for SignedTransaction {
//@fn protocol/src/fixed_codec/transaction.rs SignedTransaction@Encodable::rlp_append key fixed::SignedTransaction::rlp_append
//@. nopub
//@end
}

impl rlp::Decodable for SignedTransaction {
//@fn protocol/src/fixed_codec/transaction.rs SignedTransaction@Decodable::decode key fixed::SignedTransaction::decode
//@. ret res
//@. nopub
//@end
}

impl ProtocolFixedCodec for SignedTransaction {
    open spec fn is_enc(&self, b: Seq<u8>) -> bool {
        item_of(b) == Some(self.item())
    }

    open spec fn fwf(&self) -> bool {
        self.iwf()
    }

//@fn protocol/src/fixed_codec/transaction.rs SignedTransaction@ProtocolFixedCodec::encode_fixed key fixed::SignedTransaction::encode_fixed
//@. nopub
//@end
//@fn protocol/src/fixed_codec/transaction.rs SignedTransaction@ProtocolFixedCodec::decode_fixed key fixed::SignedTransaction::decode_fixed
//@. ret res
//@. nopub
//@end
}

pub proof fn lent_all<T>()
    ensures
        forall|s: Seq<T>| #[trigger] rlp::lent::<T, T>(s) == s,
{
    assert forall|s: Seq<T>| #[trigger] rlp::lent::<T, T>(s) == s by {
        assert(rlp::lent::<T, T>(s) =~= s);
    }
}

//@fn protocol/src/fixed_codec/transaction.rs help_decode_raw_tx key fixed::help_decode_raw_tx
//@. ret res
//@. ensures
        forall|x: RawTransaction| #[trigger] head_at(*r, x) ==> res == Ok::<(Hash, Fee, Hash, u64), rlp::DecoderError>((x.chain_id, x.fee, x.nonce, x.timeout)),
//@end
//@fn protocol/src/fixed_codec/transaction.rs clean_0x as clean_0x_fixed key fixed::clean_0x
//@. ensures
        r@ == no0x(s@),
//@. at start
        proof {
            reveal_strlit("0x");
            assert("0x"@ =~= seq!['0', 'x']);
            if s@.len() >= 2 {
                assert(s@.subrange(0, 2) =~= seq![s@[0], s@[1]]);
                if "0x"@.is_prefix_of(s@) {
                    assert(s@.subrange(0, 2)[0] == '0' && s@.subrange(0, 2)[1] == 'x');
                }
            }
        }
//@end
//@fn protocol/src/fixed_codec/transaction.rs hex_to_bytes key fixed::hex_to_bytes
//@. ensures
        r is Ok <==> hex_ok(no0x(s@)),
        r is Ok ==> r->Ok_0@ == hex_dec(no0x(s@)),
//@end

// ------------------------------------------------------------------ C12
/// Encoding never fails and decoding gives back an equal object.
fn c12_lossless<T: ProtocolFixedCodec>(x: &T)
    requires
        x.fwf(),
{
    let b = x.encode_fixed();
    assert(b is Ok);
    if let Ok(b) = b {
        let y = T::decode_fixed(b);
        assert(y == Ok::<T, ProtocolError>(*x));
    }
}

/// Two objects of one kind with the same encoding are one object.
fn c12_injective<T: ProtocolFixedCodec>(x: &T, y: &T, b: Bytes)
    requires
        x.fwf(),
        y.fwf(),
        x.is_enc(b@),
        y.is_enc(b@),
    ensures
        *x == *y,
{
    let z = T::decode_fixed(b);
    assert(z == Ok::<T, ProtocolError>(*x));
    assert(z == Ok::<T, ProtocolError>(*y));
}

} // verus!
