//@include types.vrs assume
//@macros protocol/src/codec/macro.rs
//@method into_iter => vx_into_iter
//@method into/0 => vx_into
verus! {

//@item protocol/src/types/epoch.rs struct Epoch need:Clone
//@item protocol/src/types/epoch.rs struct EpochHeader need:Clone
//@item protocol/src/types/epoch.rs struct Proof need:Clone
//@item protocol/src/types/epoch.rs struct Pill need:Clone
//@item protocol/src/types/epoch.rs struct Validator need:Clone
//@item protocol/src/types/epoch.rs struct EpochId need:Clone

/// The vector with these elements.
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;

pub axiom fn vec_ext<T>(v: Vec<T>)
    ensures
        vec_of(v@) == v,
;

/// A vector is its content.
pub proof fn same_vec<T>()
    ensures
        forall|v: Vec<T>| vec_of(#[trigger] v@) == v,
{
    assert forall|v: Vec<T>| vec_of(#[trigger] v@) == v by {
        vec_ext(v);
    }
}

pub proof fn nums()
    ensures
        forall|n: nat| be_nat(#[trigger] nat_be(n)) == n,
{
    assert forall|n: nat| be_nat(#[trigger] nat_be(n)) == n by {
        nat_be_ok(n);
    }
}

impl Bloom {
    #[verifier::external_body]
    pub fn len_bytes() -> (r: usize)
        ensures
            r == 256,
    {
        unimplemented!()
    }

    /// Panics when the length is another.
    #[verifier::external_body]
    pub fn from_slice(b: &[u8]) -> (r: Bloom)
        requires
            b@.len() == 256,
        ensures
            r.b@ == b@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8])
        ensures
            r@ == self.b@,
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ the prost crate, by contract
/// The message these bytes encode, if any.  `encode` and `decode` are what prost derives from the
/// message declaration; that they are inverse to each other is assumed.
pub uninterp spec fn msg_of<M>(b: Seq<u8>) -> Option<M>;

pub enum CodecError {
    ProtobufEncode(EncodeError),
    ProtobufDecode(DecodeError),
    MissingField { raw_type: &'static str, field: &'static str },
    InvalidContractType(i32),
    WrongBytesLength { expect: usize, real: usize },
}

pub mod codec {
    pub use super::CodecError;
}

pub struct EncodeError {}

pub struct DecodeError {}

impl core::convert::From<EncodeError> for CodecError {
    #[verifier::external_body]
    fn from(e: EncodeError) -> CodecError {
        unimplemented!()
    }
}

impl core::convert::From<DecodeError> for CodecError {
    #[verifier::external_body]
    fn from(e: DecodeError) -> CodecError {
        unimplemented!()
    }
}

impl core::convert::From<CodecError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: CodecError) -> ProtocolError {
        unimplemented!()
    }
}

pub trait Message: Sized {
    fn encoded_len(&self) -> (r: usize);

    fn encode(&self, buf: &mut Vec<u8>) -> (r: Result<(), EncodeError>)
        ensures
            old(buf)@.len() == 0 ==> r is Ok && msg_of::<Self>(final(buf)@) == Some(*self),
    ;

    fn decode(b: Bytes) -> (r: Result<Self, DecodeError>)
        ensures
            msg_of::<Self>(b@) is Some ==> r == Ok::<Self, DecodeError>(msg_of::<Self>(b@)->0),
    ;
}

macro_rules! messages {
    ($($t:ty),*) => { verus!{ $(
        impl Message for $t {
            #[verifier::external_body]
            fn encoded_len(&self) -> usize { unimplemented!() }

            #[verifier::external_body]
            fn encode(&self, buf: &mut Vec<u8>) -> Result<(), EncodeError> { unimplemented!() }

            #[verifier::external_body]
            fn decode(b: Bytes) -> Result<Self, DecodeError> { unimplemented!() }
        }
    )* } };
}

/// The conversions say more than a function of their argument could, so they have no spec function.
macro_rules! conv {
    ($($t:ident),*) => { verus!{ $(
        impl FromSpecImpl<crate::$t> for $t {
            open spec fn obeys_from_spec() -> bool { false }

            open spec fn from_spec(v: crate::$t) -> $t { arbitrary() }
        }

        impl TryFromSpecImpl<$t> for crate::$t {
            open spec fn obeys_try_from_spec() -> bool { false }

            open spec fn try_from_spec(v: $t) -> Result<crate::$t, ProtocolError> { arbitrary() }
        }
    )* } };
}

impl<T> VxIntoIter for VxIter<T> {
    type It = VxIter<T>;

    open spec fn into_rel(self, it: VxIter<T>) -> bool {
        it == self
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) {
        unimplemented!()
    }
}

/// Which message stands for a value.
pub trait Says<M>: Valid {
    spec fn says(&self, m: M) -> bool;
}

pub trait Valid: Sized {
    /// What the constructors establish.
    spec fn cwf(&self) -> bool;
}

pub open spec fn says_opt<T: Says<M>, M>(x: T, m: Option<M>) -> bool {
    m is Some && x.says(m->0)
}

pub open spec fn says_all<T: Says<M>, M>(s: Seq<T>, m: Seq<M>) -> bool {
    s.len() == m.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).says(m[i])
}

pub open spec fn says_upto<T: Says<M>, M>(s: Seq<T>, m: Seq<M>, n: int) -> bool {
    m.len() == n && n <= s.len() && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).says(m[i])
}

pub open spec fn all_cwf<T: Says<M>, M>(s: Seq<T>, m: Seq<M>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).cwf()
}

pub open spec fn texts(s: Seq<Bytes>, m: Seq<Vec<u8>>) -> bool {
    s.len() == m.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == m[i]@
}

pub open spec fn texts_upto(s: Seq<Bytes>, m: Seq<Vec<u8>>, n: int) -> bool {
    m.len() == n && n <= s.len() && forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ == m[i]@
}

pub open spec fn texts_back(s: Seq<Bytes>, m: Seq<Vec<u8>>, n: int) -> bool {
    s.len() == n && n <= m.len() && forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@ == m[i]@
}

pub open spec fn kind_no(k: ContractType) -> i32 {
    match k {
        ContractType::Asset => 0,
        ContractType::Library => 1,
        ContractType::App => 2,
        ContractType::Native => 3,
    }
}

// ------------------------------------------------------------------ what encode and decode promise
pub trait ProtocolCodecSync: Sized {
    /// Whether `b` is an encoding of this value.
    spec fn is_wire(&self, b: Seq<u8>) -> bool;

    spec fn wwf(&self) -> bool;

    fn encode_sync(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok,
            self.is_wire(r->Ok_0@),
    ;

    fn decode_sync(bytes: Bytes) -> (res: ProtocolResult<Self>)
        ensures
            forall|x: Self| x.wwf() && #[trigger] x.is_wire(bytes@) ==> res == Ok::<Self, ProtocolError>(x),
    ;
}

/// Into::into, where the code calls it.
pub trait VxInto<T> {
    spec fn into_is(&self, r: T) -> bool;

    fn vx_into(self) -> (r: T)
        ensures
            self.into_is(r),
    ;
}

impl VxInto<Bytes> for Bytes {
    open spec fn into_is(&self, r: Bytes) -> bool {
        r == *self
    }

    fn vx_into(self) -> (r: Bytes) {
        self
    }
}

impl VxInto<ProtocolError> for CodecError {
    open spec fn into_is(&self, r: ProtocolError) -> bool {
        true
    }

    #[verifier::external_body]
    fn vx_into(self) -> (r: ProtocolError) {
        unimplemented!()
    }
}

/// The asynchronous form, the same for every type.
pub trait ProtocolCodec: ProtocolCodecSync {
    fn encode(&mut self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok,
            old(self).is_wire(r->Ok_0@),
            *final(self) == *old(self),
    ;

    fn decode(bytes: Bytes) -> (res: ProtocolResult<Self>)
        ensures
            forall|x: Self| x.wwf() && #[trigger] x.is_wire(bytes@) ==> res == Ok::<Self, ProtocolError>(x),
    ;
}

impl<T: ProtocolCodecSync> ProtocolCodec for T {
//@fn protocol/src/codec/mod.rs T@ProtocolCodec::encode key codec::encode
//@. nopub
//@end
//@fn protocol/src/codec/mod.rs T@ProtocolCodec::decode key codec::decode
//@. generics
//@. type "B" => "Bytes"
//@. ret res
//@. nopub
//@end
}

// ------------------------------------------------------------------ primitive
pub mod pbp {
    use super::*;
    use crate as primitive;
    use crate as protocol_primitive;

    broadcast use {axk::keccak_len, axb::array_ext};

//@item protocol/src/codec/primitive.rs enum ContractType prost need:Clone,Copy
//@item protocol/src/codec/primitive.rs struct Balance prost
//@item protocol/src/codec/primitive.rs struct Hash prost
//@item protocol/src/codec/primitive.rs struct MerkleRoot prost
//@item protocol/src/codec/primitive.rs struct AssetID prost
//@item protocol/src/codec/primitive.rs struct Address prost
//@item protocol/src/codec/primitive.rs struct UserAddress prost
//@item protocol/src/codec/primitive.rs struct ContractAddress prost
//@item protocol/src/codec/primitive.rs struct Asset prost
//@item protocol/src/codec/primitive.rs struct Fee prost
    messages!(Balance, Hash, MerkleRoot, AssetID, Address, UserAddress, ContractAddress, Asset, Fee);

//@fn protocol/src/codec/primitive.rs ensure_len key codec::ensure_len
//@. ensures
        r is Ok <==> real == expect,
//@end


    conv!(Balance);

impl Says<Balance> for crate::Balance {
    open spec fn says(&self, m: Balance) -> bool {
        m.value@ == nat_be(self@)
    }
}

impl Valid for crate::Balance {
    open spec fn cwf(&self) -> bool {
        true
    }
}

impl core::convert::From<crate::Balance> for Balance {
//@fn protocol/src/codec/primitive.rs Balance@From::from key codec::Balance::from
//@. nopub
//@. ensures
        balance.says(r),
//@end
}

impl core::convert::TryFrom<Balance> for crate::Balance {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs Balance@TryFrom::try_from key codec::Balance::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Balance| x.cwf() && #[trigger] x.says(ser_balance) ==> res == Ok::<crate::Balance, ProtocolError>(x),
//@. at start
        proof {
            nums();
        }
//@end
}

impl ProtocolCodecSync for crate::Balance {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Balance>(b) is Some && self.says(msg_of::<Balance>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/primitive.rs Balance@ProtocolCodecSync::encode_sync key codec::Balance::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/primitive.rs Balance@ProtocolCodecSync::decode_sync key codec::Balance::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(Hash);

impl Says<Hash> for crate::Hash {
    open spec fn says(&self, m: Hash) -> bool {
        m.value@ == self@
    }
}

impl Valid for crate::Hash {
    open spec fn cwf(&self) -> bool {
        true
    }
}

impl core::convert::From<crate::Hash> for Hash {
//@fn protocol/src/codec/primitive.rs Hash@From::from key codec::Hash::from
//@. nopub
//@. ensures
        hash.says(r),
//@end
}

impl core::convert::TryFrom<Hash> for crate::Hash {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs Hash@TryFrom::try_from key codec::Hash::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Hash| x.cwf() && #[trigger] x.says(hash) ==> res == Ok::<crate::Hash, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::Hash {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Hash>(b) is Some && self.says(msg_of::<Hash>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/primitive.rs Hash@ProtocolCodecSync::encode_sync key codec::Hash::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/primitive.rs Hash@ProtocolCodecSync::decode_sync key codec::Hash::decode_sync
//@. ret res
//@. nopub
//@end
}


impl FromSpecImpl<crate::Hash> for MerkleRoot {
    open spec fn obeys_from_spec() -> bool { false }

    open spec fn from_spec(v: crate::Hash) -> MerkleRoot { arbitrary() }
}

impl TryFromSpecImpl<MerkleRoot> for crate::Hash {
    open spec fn obeys_try_from_spec() -> bool { false }

    open spec fn try_from_spec(v: MerkleRoot) -> Result<crate::Hash, ProtocolError> { arbitrary() }
}

impl FromSpecImpl<crate::Hash> for AssetID {
    open spec fn obeys_from_spec() -> bool { false }

    open spec fn from_spec(v: crate::Hash) -> AssetID { arbitrary() }
}

impl TryFromSpecImpl<AssetID> for crate::Hash {
    open spec fn obeys_try_from_spec() -> bool { false }

    open spec fn try_from_spec(v: AssetID) -> Result<crate::Hash, ProtocolError> { arbitrary() }
}

impl Says<MerkleRoot> for crate::Hash {
    open spec fn says(&self, m: MerkleRoot) -> bool {
        says_opt(*self, m.value)
    }
}

impl core::convert::From<crate::Hash> for MerkleRoot {
//@fn protocol/src/codec/primitive.rs MerkleRoot@From::from key codec::MerkleRoot::from
//@. nopub
//@. ensures
        root.says(r),
//@end
}

impl core::convert::TryFrom<MerkleRoot> for crate::Hash {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs MerkleRoot@TryFrom::try_from key codec::MerkleRoot::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Hash| x.cwf() && #[trigger] x.says(root) ==> res == Ok::<crate::Hash, ProtocolError>(x),
//@end
}

impl Says<AssetID> for crate::Hash {
    open spec fn says(&self, m: AssetID) -> bool {
        says_opt(*self, m.value)
    }
}

impl core::convert::From<crate::Hash> for AssetID {
//@fn protocol/src/codec/primitive.rs AssetID@From::from key codec::AssetID::from
//@. nopub
//@. ensures
        id.says(r),
//@end
}

impl core::convert::TryFrom<AssetID> for crate::Hash {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs AssetID@TryFrom::try_from key codec::AssetID::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Hash| x.cwf() && #[trigger] x.says(id) ==> res == Ok::<crate::Hash, ProtocolError>(x),
//@end
}

    conv!(UserAddress);

impl Says<UserAddress> for crate::UserAddress {
    open spec fn says(&self, m: UserAddress) -> bool {
        m.value is Some && m.value->0.value@ == self@
    }
}

impl Valid for crate::UserAddress {
    open spec fn cwf(&self) -> bool {
        user_wf(*self)
    }
}

impl core::convert::From<crate::UserAddress> for UserAddress {
//@fn protocol/src/codec/primitive.rs UserAddress@From::from key codec::UserAddress::from
//@. nopub
//@. ensures
        account.says(r),
//@end
}

impl core::convert::TryFrom<UserAddress> for crate::UserAddress {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs UserAddress@TryFrom::try_from key codec::UserAddress::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::UserAddress| x.cwf() && #[trigger] x.says(account) ==> res == Ok::<crate::UserAddress, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::UserAddress {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<UserAddress>(b) is Some && self.says(msg_of::<UserAddress>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/primitive.rs UserAddress@ProtocolCodecSync::encode_sync key codec::UserAddress::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/primitive.rs UserAddress@ProtocolCodecSync::decode_sync key codec::UserAddress::decode_sync
//@. ret res
//@. nopub
//@end
}

impl FromSpecImpl<crate::ContractType> for ContractType {
    open spec fn obeys_from_spec() -> bool { false }

    open spec fn from_spec(v: crate::ContractType) -> ContractType { arbitrary() }
}

impl core::convert::From<crate::ContractType> for ContractType {
//@fn protocol/src/codec/primitive.rs ContractType@From::from key codec::ContractType::from
//@. nopub
//@. ensures
        r as i32 == kind_no(contract_type),
//@end
}

    conv!(ContractAddress);

impl Says<ContractAddress> for crate::ContractAddress {
    open spec fn says(&self, m: ContractAddress) -> bool {
        &&& m.value is Some
        &&& m.value->0.value@ == self@
        &&& m.contract_type == kind_no(self.contract_type)
    }
}

impl Valid for crate::ContractAddress {
    open spec fn cwf(&self) -> bool {
        contract_wf(*self)
    }
}

impl core::convert::From<crate::ContractAddress> for ContractAddress {
//@fn protocol/src/codec/primitive.rs ContractAddress@From::from key codec::ContractAddress::from
//@. nopub
//@. ensures
        contract.says(r),
//@end
}

impl core::convert::TryFrom<ContractAddress> for crate::ContractAddress {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs ContractAddress@TryFrom::try_from key codec::ContractAddress::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::ContractAddress| x.cwf() && #[trigger] x.says(contract) ==> res == Ok::<crate::ContractAddress, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::ContractAddress {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<ContractAddress>(b) is Some && self.says(msg_of::<ContractAddress>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/primitive.rs ContractAddress@ProtocolCodecSync::encode_sync key codec::ContractAddress::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/primitive.rs ContractAddress@ProtocolCodecSync::decode_sync key codec::ContractAddress::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(Asset);

impl Says<Asset> for crate::Asset {
    open spec fn says(&self, m: Asset) -> bool {
        &&& says_opt(self.id, m.id)
        &&& says_opt(self.supply, m.supply)
        &&& says_opt(self.manage_contract, m.manage_contract)
        &&& says_opt(self.storage_root, m.storage_root)
        &&& self.name == m.name
        &&& self.symbol == m.symbol
    }
}

impl Valid for crate::Asset {
    open spec fn cwf(&self) -> bool {
        self.manage_contract.cwf()
    }
}

impl core::convert::From<crate::Asset> for Asset {
//@fn protocol/src/codec/primitive.rs Asset@From::from key codec::Asset::from
//@. nopub
//@. ensures
        asset.says(r),
//@end
}

impl core::convert::TryFrom<Asset> for crate::Asset {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs Asset@TryFrom::try_from key codec::Asset::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Asset| x.cwf() && #[trigger] x.says(asset) ==> res == Ok::<crate::Asset, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::Asset {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Asset>(b) is Some && self.says(msg_of::<Asset>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/primitive.rs Asset@ProtocolCodecSync::encode_sync key codec::Asset::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/primitive.rs Asset@ProtocolCodecSync::decode_sync key codec::Asset::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(Fee);

impl Says<Fee> for crate::Fee {
    open spec fn says(&self, m: Fee) -> bool {
        &&& says_opt(self.asset_id, m.asset_id)
        &&& self.cycle == m.cycle
    }
}

impl Valid for crate::Fee {
    open spec fn cwf(&self) -> bool {
        true
    }
}

impl core::convert::From<crate::Fee> for Fee {
//@fn protocol/src/codec/primitive.rs Fee@From::from key codec::Fee::from
//@. nopub
//@. ensures
        fee.says(r),
//@end
}

impl core::convert::TryFrom<Fee> for crate::Fee {
    type Error = ProtocolError;

//@fn protocol/src/codec/primitive.rs Fee@TryFrom::try_from key codec::Fee::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Fee| x.cwf() && #[trigger] x.says(fee) ==> res == Ok::<crate::Fee, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::Fee {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Fee>(b) is Some && self.says(msg_of::<Fee>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/primitive.rs Fee@ProtocolCodecSync::encode_sync key codec::Fee::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/primitive.rs Fee@ProtocolCodecSync::decode_sync key codec::Fee::decode_sync
//@. ret res
//@. nopub
//@end
}

}

// ------------------------------------------------------------------ epoch
pub mod pbe {
    use super::*;
    use crate as epoch;
    use super::pbp::{ensure_len, AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress};
    use crate as protocol_primitive;

    broadcast use {axk::keccak_len, axb::array_ext};

//@item protocol/src/codec/epoch.rs struct Epoch prost
//@item protocol/src/codec/epoch.rs struct EpochHeader prost
//@item protocol/src/codec/epoch.rs struct Proof prost
//@item protocol/src/codec/epoch.rs struct Validator prost
//@item protocol/src/codec/epoch.rs struct Pill prost
//@item protocol/src/codec/epoch.rs struct EpochId prost
    messages!(Epoch, EpochHeader, Proof, Validator, Pill, EpochId);

    conv!(Proof);

impl Says<Proof> for crate::Proof {
    open spec fn says(&self, m: Proof) -> bool {
        &&& self.epoch_id == m.epoch_id
        &&& self.round == m.round
        &&& says_opt(self.epoch_hash, m.epoch_hash)
        &&& self.signature@ == m.signature@
        &&& self.bitmap@ == m.bitmap@
    }
}

impl Valid for crate::Proof {
    open spec fn cwf(&self) -> bool {
        true
    }
}

impl core::convert::From<crate::Proof> for Proof {
//@fn protocol/src/codec/epoch.rs Proof@From::from key codec::Proof::from
//@. nopub
//@. ensures
        proof.says(r),
//@end
}

impl core::convert::TryFrom<Proof> for crate::Proof {
    type Error = ProtocolError;

//@fn protocol/src/codec/epoch.rs Proof@TryFrom::try_from key codec::Proof::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Proof| x.cwf() && #[trigger] x.says(proof) ==> res == Ok::<crate::Proof, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::Proof {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Proof>(b) is Some && self.says(msg_of::<Proof>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/epoch.rs Proof@ProtocolCodecSync::encode_sync key codec::Proof::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/epoch.rs Proof@ProtocolCodecSync::decode_sync key codec::Proof::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(Validator);

impl Says<Validator> for crate::Validator {
    open spec fn says(&self, m: Validator) -> bool {
        &&& says_opt(self.address, m.address)
        &&& self.propose_weight as u32 == m.propose_weight
        &&& self.vote_weight as u32 == m.vote_weight
    }
}

impl Valid for crate::Validator {
    open spec fn cwf(&self) -> bool {
        self.address.cwf()
    }
}

impl core::convert::From<crate::Validator> for Validator {
//@fn protocol/src/codec/epoch.rs Validator@From::from key codec::Validator::from
//@. nopub
//@. ensures
        validator.says(r),
//@end
}

impl core::convert::TryFrom<Validator> for crate::Validator {
    type Error = ProtocolError;

//@fn protocol/src/codec/epoch.rs Validator@TryFrom::try_from key codec::Validator::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Validator| x.cwf() && #[trigger] x.says(validator) ==> res == Ok::<crate::Validator, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::Validator {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Validator>(b) is Some && self.says(msg_of::<Validator>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/epoch.rs Validator@ProtocolCodecSync::encode_sync key codec::Validator::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/epoch.rs Validator@ProtocolCodecSync::decode_sync key codec::Validator::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(EpochHeader);

impl Says<EpochHeader> for crate::EpochHeader {
    open spec fn says(&self, m: EpochHeader) -> bool {
        &&& says_opt(self.chain_id, m.chain_id)
        &&& says_opt(self.pre_hash, m.pre_hash)
        &&& says_opt(self.order_root, m.order_root)
        &&& says_opt(self.state_root, m.state_root)
        &&& says_opt(self.proposer, m.proposer)
        &&& says_opt(self.proof, m.proof)
        &&& self.epoch_id == m.epoch_id
        &&& self.timestamp == m.timestamp
        &&& self.cycles_used == m.cycles_used
        &&& self.validator_version == m.validator_version
        &&& self.logs_bloom.b@ == m.logs_bloom@
        &&& says_all(self.confirm_root@, m.confirm_root@)
        &&& says_all(self.receipt_root@, m.receipt_root@)
        &&& says_all(self.validators@, m.validators@)
    }
}

impl Valid for crate::EpochHeader {
    open spec fn cwf(&self) -> bool {
        &&& self.logs_bloom.b@.len() == 256
        &&& self.proposer.cwf()
        &&& forall|i: int| 0 <= i < self.validators@.len() ==> (#[trigger] self.validators@[i]).cwf()
    }
}

impl core::convert::From<crate::EpochHeader> for EpochHeader {
//@fn protocol/src/codec/epoch.rs EpochHeader@From::from key codec::EpochHeader::from
//@. nopub
//@. ensures
        epoch_header.says(r),
//@. at start
        let ghost x0 = epoch_header;
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == x0.confirm_root@,
            says_upto(x0.confirm_root@, __v2@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
        invariant
            __it1.p@ <= __it1.s@.len(),
            __it1.s@ == x0.receipt_root@,
            says_upto(x0.receipt_root@, __v5@, __it1.p@ as int),
        decreases __it1.s@.len() - __it1.p@,
//@. loop 2
        invariant
            __it2.p@ <= __it2.s@.len(),
            __it2.s@ == x0.validators@,
            says_upto(x0.validators@, __v8@, __it2.p@ as int),
        decreases __it2.s@.len() - __it2.p@,
//@end
}

impl core::convert::TryFrom<EpochHeader> for crate::EpochHeader {
    type Error = ProtocolError;

//@fn protocol/src/codec/epoch.rs EpochHeader@TryFrom::try_from key codec::EpochHeader::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(epoch_header) ==> res == Ok::<crate::EpochHeader, ProtocolError>(x),
//@. at start
        let ghost m0 = epoch_header;
        proof {
            same_vec::<crate::Hash>();
            same_vec::<crate::Validator>();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == m0.confirm_root@,
            m0 == epoch_header,
            forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) ==> confirm_root@ =~= x.confirm_root@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            let p = __it0.p@ as int;
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies x.confirm_root@[p].cwf() && x.confirm_root@[p].says(m0.confirm_root@[p]) by {}
        }
//@. at loop:0:end
        proof {
            let p = __it0.p@ as int;
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies confirm_root@ =~= x.confirm_root@.take(p) by {}
        }
//@. at loop:0:after
        proof {
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies confirm_root@ == x.confirm_root@ by {
                assert(x.confirm_root@.take(m0.confirm_root@.len() as int) =~= x.confirm_root@);
            }
        }
//@. loop 1
        invariant
            __it1.p@ <= __it1.s@.len(),
            __it1.s@ == m0.receipt_root@,
            m0 == epoch_header,
            forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) ==> confirm_root@ == x.confirm_root@,
            forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) ==> receipt_root@ =~= x.receipt_root@.take(__it1.p@ as int),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
        proof {
            let p = __it1.p@ as int;
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies x.receipt_root@[p].cwf() && x.receipt_root@[p].says(m0.receipt_root@[p]) by {}
        }
//@. at loop:1:end
        proof {
            let p = __it1.p@ as int;
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies receipt_root@ =~= x.receipt_root@.take(p) by {}
        }
//@. at loop:1:after
        proof {
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies receipt_root@ == x.receipt_root@ by {
                assert(x.receipt_root@.take(m0.receipt_root@.len() as int) =~= x.receipt_root@);
            }
        }
//@. loop 2
        invariant
            __it2.p@ <= __it2.s@.len(),
            __it2.s@ == m0.validators@,
            m0 == epoch_header,
            forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) ==> confirm_root@ == x.confirm_root@,
            forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) ==> receipt_root@ == x.receipt_root@,
            forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) ==> validators@ =~= x.validators@.take(__it2.p@ as int),
        decreases __it2.s@.len() - __it2.p@,
//@. at loop:2:start
        proof {
            let p = __it2.p@ as int;
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies x.validators@[p].cwf() && x.validators@[p].says(m0.validators@[p]) by {}
        }
//@. at loop:2:end
        proof {
            let p = __it2.p@ as int;
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies validators@ =~= x.validators@.take(p) by {}
        }
//@. at loop:2:after
        proof {
            assert forall|x: crate::EpochHeader| x.cwf() && #[trigger] x.says(m0) implies validators@ == x.validators@ by {
                assert(x.validators@.take(m0.validators@.len() as int) =~= x.validators@);
            }
        }
//@end
}

impl ProtocolCodecSync for crate::EpochHeader {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<EpochHeader>(b) is Some && self.says(msg_of::<EpochHeader>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/epoch.rs EpochHeader@ProtocolCodecSync::encode_sync key codec::EpochHeader::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/epoch.rs EpochHeader@ProtocolCodecSync::decode_sync key codec::EpochHeader::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(Epoch);

impl Says<Epoch> for crate::Epoch {
    open spec fn says(&self, m: Epoch) -> bool {
        &&& says_opt(self.header, m.header)
        &&& says_all(self.ordered_tx_hashes@, m.ordered_tx_hashes@)
    }
}

impl Valid for crate::Epoch {
    open spec fn cwf(&self) -> bool {
        self.header.cwf()
    }
}

impl core::convert::From<crate::Epoch> for Epoch {
//@fn protocol/src/codec/epoch.rs Epoch@From::from key codec::Epoch::from
//@. nopub
//@. ensures
        epoch.says(r),
//@. at start
        let ghost x0 = epoch;
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == x0.ordered_tx_hashes@,
            says_upto(x0.ordered_tx_hashes@, __v2@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@end
}

impl core::convert::TryFrom<Epoch> for crate::Epoch {
    type Error = ProtocolError;

//@fn protocol/src/codec/epoch.rs Epoch@TryFrom::try_from key codec::Epoch::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Epoch| x.cwf() && #[trigger] x.says(epoch) ==> res == Ok::<crate::Epoch, ProtocolError>(x),
//@. at start
        let ghost m0 = epoch;
        proof {
            same_vec::<crate::Hash>();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == m0.ordered_tx_hashes@,
            m0 == epoch,
            forall|x: crate::Epoch| x.cwf() && #[trigger] x.says(m0) ==> ordered_tx_hashes@ =~= x.ordered_tx_hashes@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            let p = __it0.p@ as int;
            assert forall|x: crate::Epoch| x.cwf() && #[trigger] x.says(m0) implies x.ordered_tx_hashes@[p].cwf() && x.ordered_tx_hashes@[p].says(m0.ordered_tx_hashes@[p]) by {}
        }
//@. at loop:0:end
        proof {
            let p = __it0.p@ as int;
            assert forall|x: crate::Epoch| x.cwf() && #[trigger] x.says(m0) implies ordered_tx_hashes@ =~= x.ordered_tx_hashes@.take(p) by {}
        }
//@. at loop:0:after
        proof {
            assert forall|x: crate::Epoch| x.cwf() && #[trigger] x.says(m0) implies ordered_tx_hashes@ == x.ordered_tx_hashes@ by {
                assert(x.ordered_tx_hashes@.take(m0.ordered_tx_hashes@.len() as int) =~= x.ordered_tx_hashes@);
            }
        }
//@end
}

impl ProtocolCodecSync for crate::Epoch {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Epoch>(b) is Some && self.says(msg_of::<Epoch>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/epoch.rs Epoch@ProtocolCodecSync::encode_sync key codec::Epoch::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/epoch.rs Epoch@ProtocolCodecSync::decode_sync key codec::Epoch::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(Pill);

impl Says<Pill> for crate::Pill {
    open spec fn says(&self, m: Pill) -> bool {
        &&& says_opt(self.epoch, m.epoch)
        &&& says_all(self.propose_hashes@, m.propose_hashes@)
    }
}

impl Valid for crate::Pill {
    open spec fn cwf(&self) -> bool {
        self.epoch.cwf()
    }
}

impl core::convert::From<crate::Pill> for Pill {
//@fn protocol/src/codec/epoch.rs Pill@From::from key codec::Pill::from
//@. nopub
//@. ensures
        pill.says(r),
//@. at start
        let ghost x0 = pill;
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == x0.propose_hashes@,
            says_upto(x0.propose_hashes@, __v2@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@end
}

impl core::convert::TryFrom<Pill> for crate::Pill {
    type Error = ProtocolError;

//@fn protocol/src/codec/epoch.rs Pill@TryFrom::try_from key codec::Pill::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Pill| x.cwf() && #[trigger] x.says(pill) ==> res == Ok::<crate::Pill, ProtocolError>(x),
//@. at start
        let ghost m0 = pill;
        proof {
            same_vec::<crate::Hash>();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == m0.propose_hashes@,
            m0 == pill,
            forall|x: crate::Pill| x.cwf() && #[trigger] x.says(m0) ==> propose_hashes@ =~= x.propose_hashes@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            let p = __it0.p@ as int;
            assert forall|x: crate::Pill| x.cwf() && #[trigger] x.says(m0) implies x.propose_hashes@[p].cwf() && x.propose_hashes@[p].says(m0.propose_hashes@[p]) by {}
        }
//@. at loop:0:end
        proof {
            let p = __it0.p@ as int;
            assert forall|x: crate::Pill| x.cwf() && #[trigger] x.says(m0) implies propose_hashes@ =~= x.propose_hashes@.take(p) by {}
        }
//@. at loop:0:after
        proof {
            assert forall|x: crate::Pill| x.cwf() && #[trigger] x.says(m0) implies propose_hashes@ == x.propose_hashes@ by {
                assert(x.propose_hashes@.take(m0.propose_hashes@.len() as int) =~= x.propose_hashes@);
            }
        }
//@end
}

impl ProtocolCodecSync for crate::Pill {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Pill>(b) is Some && self.says(msg_of::<Pill>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/epoch.rs Pill@ProtocolCodecSync::encode_sync key codec::Pill::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/epoch.rs Pill@ProtocolCodecSync::decode_sync key codec::Pill::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(EpochId);

impl Says<EpochId> for crate::EpochId {
    open spec fn says(&self, m: EpochId) -> bool {
        &&& self.id == m.id
    }
}

impl Valid for crate::EpochId {
    open spec fn cwf(&self) -> bool {
        true
    }
}

impl core::convert::From<crate::EpochId> for EpochId {
//@fn protocol/src/codec/epoch.rs EpochId@From::from key codec::EpochId::from
//@. nopub
//@. ensures
        epoch_id.says(r),
//@end
}

impl core::convert::TryFrom<EpochId> for crate::EpochId {
    type Error = ProtocolError;

//@fn protocol/src/codec/epoch.rs EpochId@TryFrom::try_from key codec::EpochId::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::EpochId| x.cwf() && #[trigger] x.says(epoch_id) ==> res == Ok::<crate::EpochId, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::EpochId {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<EpochId>(b) is Some && self.says(msg_of::<EpochId>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/epoch.rs EpochId@ProtocolCodecSync::encode_sync key codec::EpochId::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/epoch.rs EpochId@ProtocolCodecSync::decode_sync key codec::EpochId::decode_sync
//@. ret res
//@. nopub
//@end
}

}

// ------------------------------------------------------------------ receipt
pub mod pbr {
    use super::*;
    use crate as receipt;
    use super::pbp::{ensure_len, AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress};
    use crate as protocol_primitive;

    broadcast use {axk::keccak_len, axb::array_ext};

//@item protocol/src/codec/receipt.rs struct Receipt prost
//@item protocol/src/codec/receipt.rs enum ReceiptResult prost
//@item protocol/src/codec/receipt.rs struct Transfer prost
//@item protocol/src/codec/receipt.rs struct Approve prost
//@item protocol/src/codec/receipt.rs struct Deploy prost
//@item protocol/src/codec/receipt.rs struct Call prost
//@item protocol/src/codec/receipt.rs struct Fail prost
    messages!(Receipt, Transfer, Approve, Deploy, Call, Fail);

    conv!(ReceiptResult);

impl Says<ReceiptResult> for crate::ReceiptResult {
    open spec fn says(&self, m: ReceiptResult) -> bool {
        match *self {
            crate::ReceiptResult::Transfer { receiver, asset_id, before_amount, after_amount } => m is Transfer && {
                let t = m->Transfer_0;
                says_opt(receiver, t.receiver) && says_opt(asset_id, t.asset_id) && says_opt(before_amount, t.before_amount) && says_opt(after_amount, t.after_amount)
            },
            crate::ReceiptResult::Approve { spender, asset_id, max } => m is Approve && {
                let t = m->Approve_0;
                says_opt(spender, t.spender) && says_opt(asset_id, t.asset_id) && says_opt(max, t.max)
            },
            crate::ReceiptResult::Deploy { contract, contract_type } => m is Deploy && {
                let t = m->Deploy_0;
                says_opt(contract, t.contract) && t.contract_type == kind_no(contract_type)
            },
            crate::ReceiptResult::Call { contract, return_value, logs_bloom } => m is Call && {
                let t = m->Call_0;
                says_opt(contract, t.contract) && return_value@ == t.return_value@ && logs_bloom.b@ == t.logs_bloom@
            },
            crate::ReceiptResult::Fail { system, user } => m is Fail && m->Fail_0.system == system && m->Fail_0.user == user,
        }
    }
}

impl Valid for crate::ReceiptResult {
    open spec fn cwf(&self) -> bool {
        match *self {
            crate::ReceiptResult::Transfer { receiver, asset_id, before_amount, after_amount } => receiver.cwf(),
            crate::ReceiptResult::Approve { spender, asset_id, max } => spender.cwf(),
            crate::ReceiptResult::Deploy { contract, contract_type } => contract.cwf(),
            crate::ReceiptResult::Call { contract, return_value, logs_bloom } => contract.cwf() && logs_bloom.b@.len() == 256,
            crate::ReceiptResult::Fail { system, user } => true,
        }
    }
}

impl core::convert::From<crate::ReceiptResult> for ReceiptResult {
//@fn protocol/src/codec/receipt.rs ReceiptResult@From::from key codec::ReceiptResult::from
//@. nopub
//@. ensures
        result.says(r),
//@end
}

impl core::convert::TryFrom<ReceiptResult> for crate::ReceiptResult {
    type Error = ProtocolError;

//@fn protocol/src/codec/receipt.rs ReceiptResult@TryFrom::try_from key codec::ReceiptResult::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::ReceiptResult| x.cwf() && #[trigger] x.says(result) ==> res == Ok::<crate::ReceiptResult, ProtocolError>(x),
//@end
}

    conv!(Receipt);

impl Says<Receipt> for crate::Receipt {
    open spec fn says(&self, m: Receipt) -> bool {
        &&& self.epoch_id == m.epoch_id
        &&& says_opt(self.state_root, m.state_root)
        &&& says_opt(self.tx_hash, m.tx_hash)
        &&& says_opt(self.cycles_used, m.cycles_used)
        &&& says_opt(self.result, m.result)
    }
}

impl Valid for crate::Receipt {
    open spec fn cwf(&self) -> bool {
        self.result.cwf()
    }
}

impl core::convert::From<crate::Receipt> for Receipt {
//@fn protocol/src/codec/receipt.rs Receipt@From::from key codec::Receipt::from
//@. nopub
//@. ensures
        receipt.says(r),
//@end
}

impl core::convert::TryFrom<Receipt> for crate::Receipt {
    type Error = ProtocolError;

//@fn protocol/src/codec/receipt.rs Receipt@TryFrom::try_from key codec::Receipt::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::Receipt| x.cwf() && #[trigger] x.says(receipt) ==> res == Ok::<crate::Receipt, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::Receipt {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<Receipt>(b) is Some && self.says(msg_of::<Receipt>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/receipt.rs Receipt@ProtocolCodecSync::encode_sync key codec::Receipt::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/receipt.rs Receipt@ProtocolCodecSync::decode_sync key codec::Receipt::decode_sync
//@. ret res
//@. nopub
//@end
}

}

// ------------------------------------------------------------------ transaction
pub mod pbt {
    use super::*;
    use crate as transaction;
    use super::pbp::{ensure_len, AssetID, Balance, ContractAddress, ContractType, Fee, Hash, UserAddress};
    use crate as protocol_primitive;

    broadcast use {axk::keccak_len, axb::array_ext};

//@item protocol/src/codec/transaction.rs struct CarryingAsset prost
//@item protocol/src/codec/transaction.rs struct Transfer prost
//@item protocol/src/codec/transaction.rs struct Approve prost
//@item protocol/src/codec/transaction.rs struct Deploy prost
//@item protocol/src/codec/transaction.rs struct Call prost
//@item protocol/src/codec/transaction.rs enum TransactionAction prost
//@item protocol/src/codec/transaction.rs struct RawTransaction prost
//@item protocol/src/codec/transaction.rs struct SignedTransaction prost
    messages!(CarryingAsset, Transfer, Approve, Deploy, Call, RawTransaction, SignedTransaction);

    conv!(CarryingAsset);

impl Says<CarryingAsset> for crate::CarryingAsset {
    open spec fn says(&self, m: CarryingAsset) -> bool {
        &&& says_opt(self.asset_id, m.asset_id)
        &&& says_opt(self.amount, m.amount)
    }
}

impl Valid for crate::CarryingAsset {
    open spec fn cwf(&self) -> bool {
        true
    }
}

impl core::convert::From<crate::CarryingAsset> for CarryingAsset {
//@fn protocol/src/codec/transaction.rs CarryingAsset@From::from key codec::CarryingAsset::from
//@. nopub
//@. ensures
        ca.says(r),
//@end
}

impl core::convert::TryFrom<CarryingAsset> for crate::CarryingAsset {
    type Error = ProtocolError;

//@fn protocol/src/codec/transaction.rs CarryingAsset@TryFrom::try_from key codec::CarryingAsset::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::CarryingAsset| x.cwf() && #[trigger] x.says(ca) ==> res == Ok::<crate::CarryingAsset, ProtocolError>(x),
//@end
}

    conv!(TransactionAction);

impl Says<TransactionAction> for crate::TransactionAction {
    open spec fn says(&self, m: TransactionAction) -> bool {
        match *self {
            crate::TransactionAction::Transfer { receiver, carrying_asset } => m is Transfer && {
                let t = m->Transfer_0;
                says_opt(receiver, t.receiver) && says_opt(carrying_asset, t.carrying_asset)
            },
            crate::TransactionAction::Approve { spender, asset_id, max } => m is Approve && {
                let t = m->Approve_0;
                says_opt(spender, t.spender) && says_opt(asset_id, t.asset_id) && says_opt(max, t.max)
            },
            crate::TransactionAction::Deploy { code, contract_type } => m is Deploy && {
                let t = m->Deploy_0;
                code@ == t.code@ && t.contract_type == kind_no(contract_type)
            },
            crate::TransactionAction::Call { contract, method, args, carrying_asset } => m is Call && {
                let t = m->Call_0;
                &&& says_opt(contract, t.contract)
                &&& method == t.method
                &&& texts(args@, t.args@)
                &&& match carrying_asset {
                    Some(c) => says_opt(c, t.carrying_asset),
                    None => t.carrying_asset is None,
                }
            },
        }
    }
}

impl Valid for crate::TransactionAction {
    open spec fn cwf(&self) -> bool {
        match *self {
            crate::TransactionAction::Transfer { receiver, carrying_asset } => receiver.cwf(),
            crate::TransactionAction::Approve { spender, asset_id, max } => spender.cwf(),
            crate::TransactionAction::Deploy { code, contract_type } => true,
            crate::TransactionAction::Call { contract, method, args, carrying_asset } => contract.cwf(),
        }
    }
}

impl core::convert::From<crate::TransactionAction> for TransactionAction {
//@fn protocol/src/codec/transaction.rs TransactionAction@From::from key codec::TransactionAction::from
//@. nopub
//@. ensures
        action.says(r),
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == args@,
            texts_upto(args@, __v2@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@end
}

impl core::convert::TryFrom<TransactionAction> for crate::TransactionAction {
    type Error = ProtocolError;

//@fn protocol/src/codec/transaction.rs TransactionAction@TryFrom::try_from key codec::TransactionAction::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::TransactionAction| x.cwf() && #[trigger] x.says(action) ==> res == Ok::<crate::TransactionAction, ProtocolError>(x),
//@. at start
        proof {
            same_vec::<Bytes>();
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == args.s@,
            texts_back(__v2@, args.s@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert forall|s: Seq<Bytes>| #[trigger] texts(s, args.s@) implies __v2@ == s by {
                assert(__v2@ =~= s);
            }
        }
//@end
}

    conv!(RawTransaction);

impl Says<RawTransaction> for crate::RawTransaction {
    open spec fn says(&self, m: RawTransaction) -> bool {
        &&& says_opt(self.chain_id, m.chain_id)
        &&& says_opt(self.nonce, m.nonce)
        &&& says_opt(self.fee, m.fee)
        &&& says_opt(self.action, m.action)
        &&& self.timeout == m.timeout
    }
}

impl Valid for crate::RawTransaction {
    open spec fn cwf(&self) -> bool {
        self.action.cwf()
    }
}

impl core::convert::From<crate::RawTransaction> for RawTransaction {
//@fn protocol/src/codec/transaction.rs RawTransaction@From::from key codec::RawTransaction::from
//@. nopub
//@. ensures
        raw.says(r),
//@end
}

impl core::convert::TryFrom<RawTransaction> for crate::RawTransaction {
    type Error = ProtocolError;

//@fn protocol/src/codec/transaction.rs RawTransaction@TryFrom::try_from key codec::RawTransaction::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::RawTransaction| x.cwf() && #[trigger] x.says(raw) ==> res == Ok::<crate::RawTransaction, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::RawTransaction {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<RawTransaction>(b) is Some && self.says(msg_of::<RawTransaction>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/transaction.rs RawTransaction@ProtocolCodecSync::encode_sync key codec::RawTransaction::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/transaction.rs RawTransaction@ProtocolCodecSync::decode_sync key codec::RawTransaction::decode_sync
//@. ret res
//@. nopub
//@end
}

    conv!(SignedTransaction);

impl Says<SignedTransaction> for crate::SignedTransaction {
    open spec fn says(&self, m: SignedTransaction) -> bool {
        &&& says_opt(self.raw, m.raw)
        &&& says_opt(self.tx_hash, m.tx_hash)
        &&& self.pubkey@ == m.pubkey@
        &&& self.signature@ == m.signature@
    }
}

impl Valid for crate::SignedTransaction {
    open spec fn cwf(&self) -> bool {
        self.raw.cwf()
    }
}

impl core::convert::From<crate::SignedTransaction> for SignedTransaction {
//@fn protocol/src/codec/transaction.rs SignedTransaction@From::from key codec::SignedTransaction::from
//@. nopub
//@. ensures
        stx.says(r),
//@end
}

impl core::convert::TryFrom<SignedTransaction> for crate::SignedTransaction {
    type Error = ProtocolError;

//@fn protocol/src/codec/transaction.rs SignedTransaction@TryFrom::try_from key codec::SignedTransaction::try_from
//@. ret res
//@. nopub
//@. ensures
        forall|x: crate::SignedTransaction| x.cwf() && #[trigger] x.says(stx) ==> res == Ok::<crate::SignedTransaction, ProtocolError>(x),
//@end
}

impl ProtocolCodecSync for crate::SignedTransaction {
    open spec fn is_wire(&self, b: Seq<u8>) -> bool {
        msg_of::<SignedTransaction>(b) is Some && self.says(msg_of::<SignedTransaction>(b)->0)
    }

    open spec fn wwf(&self) -> bool {
        self.cwf()
    }

//@fn protocol/src/codec/transaction.rs SignedTransaction@ProtocolCodecSync::encode_sync key codec::SignedTransaction::encode_sync
//@. nopub
//@end
//@fn protocol/src/codec/transaction.rs SignedTransaction@ProtocolCodecSync::decode_sync key codec::SignedTransaction::decode_sync
//@. ret res
//@. nopub
//@end
}

}

// ------------------------------------------------------------------ C13
/// Encoding never fails and decoding gives back an equal object.
fn c13_lossless<T: ProtocolCodecSync>(x: &T)
    requires
        x.wwf(),
{
    let b = x.encode_sync();
    assert(b is Ok);
    if let Ok(b) = b {
        let y = T::decode_sync(b);
        assert(y == Ok::<T, ProtocolError>(*x));
    }
}

} // verus!
