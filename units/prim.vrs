//@include base.vrs
//@include hexspec.vrs
//@path rlp::NULL_RLP => vx_null_rlp()
//@lazy HASHER_INST
//@method copy_from_slice => vx_copy_from
//@method as_ref => vx_as_ref
//@method to_vec => vx_to_vec
//@method starts_with => vx_starts_with
//@method insert_str => vx_insert_str
//@method to_be_bytes => vx_to_be_bytes
verus! {

broadcast use {axk::keccak_len, axb::array_ext};

//@item protocol/src/types/mod.rs enum TypesError
impl core::convert::From<hex::FromHexError> for TypesError {
    #[verifier::external_body]
    fn from(e: hex::FromHexError) -> TypesError {
        unimplemented!()
    }
}

impl core::convert::From<TypesError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: TypesError) -> ProtocolError {
        unimplemented!()
    }
}

//@item protocol/src/types/primitive.rs const HASH_LEN
//@item protocol/src/types/primitive.rs const ADDRESS_LEN
//@item protocol/src/types/primitive.rs const ACCOUNT_ADDRESS_MAGIC
//@item protocol/src/types/primitive.rs const ASSET_CONTRACT_ADDRESS_MAGIC
//@item protocol/src/types/primitive.rs const APP_CONTRACT_ADDRESS_MAGIC
//@item protocol/src/types/primitive.rs const LIBRARY_CONTRACT_ADDRESS_MAGIC
//@item protocol/src/types/primitive.rs const NATIVE_CONTRACT_ADDRESS_MAGIC
//@item protocol/src/types/primitive.rs struct Hash need:Clone,PartialEq
//@item protocol/src/types/primitive.rs enum ContractType need:Clone,PartialEq
//@item protocol/src/types/primitive.rs enum Address need:Clone,PartialEq
//@item protocol/src/types/primitive.rs struct InnerAddress need:Clone,PartialEq
//@item protocol/src/types/primitive.rs struct UserAddress need:Clone,PartialEq
//@item protocol/src/types/primitive.rs struct ContractAddress need:Clone,PartialEq
pub type MerkleRoot = Hash;
pub type AssetID = Hash;
pub type Balance = BigUint;

impl View for Hash {
    type V = Seq<u8>;

    open spec fn view(&self) -> Seq<u8> {
        self.0@
    }
}

impl View for InnerAddress {
    type V = Seq<u8>;

    open spec fn view(&self) -> Seq<u8> {
        self.0@
    }
}

impl View for UserAddress {
    type V = Seq<u8>;

    open spec fn view(&self) -> Seq<u8> {
        self.inner@
    }
}

impl View for ContractAddress {
    type V = Seq<u8>;

    open spec fn view(&self) -> Seq<u8> {
        self.inner@
    }
}

impl View for Address {
    type V = Seq<u8>;

    open spec fn view(&self) -> Seq<u8> {
        match *self {
            Address::User(u) => u@,
            Address::Contract(c) => c@,
        }
    }
}

/// The kind of contract a type byte stands for.
pub open spec fn kind_of(b: u8) -> Option<ContractType> {
    if b == 0x20 {
        Some(ContractType::Asset)
    } else if b == 0x21 {
        Some(ContractType::App)
    } else if b == 0x22 {
        Some(ContractType::Library)
    } else if b == 0x23 {
        Some(ContractType::Native)
    } else {
        None
    }
}

pub open spec fn magic_of(t: ContractType) -> u8 {
    match t {
        ContractType::Asset => 0x20,
        ContractType::App => 0x21,
        ContractType::Library => 0x22,
        ContractType::Native => 0x23,
    }
}

pub open spec fn user_ok(b: Seq<u8>) -> bool {
    b.len() == 21 && b[0] == 0x10
}

pub open spec fn contract_ok(b: Seq<u8>) -> bool {
    b.len() == 21 && kind_of(b[0]) is Some
}

/// The type byte and the recorded kind agree.
pub open spec fn contract_wf(c: ContractAddress) -> bool {
    contract_ok(c@) && kind_of(c@[0]) == Some(c.contract_type)
}

pub open spec fn user_wf(u: UserAddress) -> bool {
    user_ok(u@)
}

pub open spec fn address_wf(a: Address) -> bool {
    match a {
        Address::User(u) => user_wf(u),
        Address::Contract(c) => contract_wf(c),
    }
}

pub proof fn lemma_addr_ext(a: Address, b: Address)
    requires
        address_wf(a),
        address_wf(b),
        a@ == b@,
    ensures
        a == b,
{
}

impl Hash {
//@fn protocol/src/types/primitive.rs Hash::digest
//@. ensures
        r@ == keccak(bytes@),
//@end
//@fn protocol/src/types/primitive.rs Hash::from_empty
//@. ensures
        r@ == keccak(null_rlp()),
//@end
//@fn protocol/src/types/primitive.rs Hash::from_bytes
//@. ensures
        r is Ok <==> bytes@.len() == 32,
        r is Ok ==> r->Ok_0@ == bytes@,
//@end
//@fn protocol/src/types/primitive.rs Hash::from_hex
//@. ensures
        r is Ok <==> hex_ok(no0x(s@)) && no0x(s@).len() == 64,
        r is Ok ==> r->Ok_0@ == hex_dec(no0x(s@)),
//@end
//@fn protocol/src/types/primitive.rs Hash::as_bytes
//@. ensures
        r@ == self@,
        r@.len() == 32,
//@end
//@fn protocol/src/types/primitive.rs Hash::as_hex
//@. ensures
        r@ == hex_enc(self@),
//@end
}

impl Address {
//@fn protocol/src/types/primitive.rs Address::from_bytes
//@. ensures
        r is Ok <==> user_ok(bytes@) || contract_ok(bytes@),
        r is Ok ==> r->Ok_0@ == bytes@ && address_wf(r->Ok_0),
        r is Ok ==> (r->Ok_0 is User <==> bytes@[0] == 0x10),
//@end
//@fn protocol/src/types/primitive.rs Address::from_hex
//@. ensures
        r is Ok <==> hex_ok(no0x(s@)) && (user_ok(hex_dec(no0x(s@))) || contract_ok(hex_dec(no0x(s@)))),
        r is Ok ==> r->Ok_0@ == hex_dec(no0x(s@)) && address_wf(r->Ok_0),
//@end
//@fn protocol/src/types/primitive.rs Address::as_bytes
//@. ensures
        r@ == self@,
//@end
//@fn protocol/src/types/primitive.rs Address::as_hex
//@. ensures
        r@ == hex_enc(self@),
//@end
}

impl InnerAddress {
//@fn protocol/src/types/primitive.rs InnerAddress::from_bytes
//@. ensures
        r is Ok <==> bytes@.len() == 21,
        r is Ok ==> r->Ok_0@ == bytes@,
//@end
//@fn protocol/src/types/primitive.rs InnerAddress::as_bytes
//@. ensures
        r@ == self@,
//@end
//@fn protocol/src/types/primitive.rs InnerAddress::as_hex
//@. ensures
        r@ == hex_enc(self@),
//@end
}

impl UserAddress {
//@fn protocol/src/types/primitive.rs UserAddress::from_bytes
//@. ensures
        r is Ok <==> user_ok(bytes@),
        r is Ok ==> r->Ok_0@ == bytes@ && user_wf(r->Ok_0),
//@end
//@fn protocol/src/types/primitive.rs UserAddress::from_pubkey_bytes
//@. rename truncate => vx_truncate
//@. ensures
        r is Ok,
        user_wf(r->Ok_0),
        r->Ok_0@ == seq![0x10u8] + keccak(bytes@).take(20),
//@. at start
        proof {
            let k = keccak(bytes@);
            lemma_hex_parts(seq![0x10u8], k.take(20));
            lemma_hex_parts(seq![0x10u8], k);
            lemma_hex_round(seq![0x10u8] + k.take(20));
            lemma_hex_round(k);
            assert forall|b: Seq<u8>, i: int| 0 <= i < hex_enc(b).len() implies (#[trigger] hex_enc(b)[i] as u32) < 128 by {}
            assert(hex_enc(k).take(0) =~= Seq::<char>::empty());
            assert(forall|s: Seq<char>| #[trigger] s.take(0) =~= Seq::<char>::empty());
            assert(forall|s: Seq<char>| #[trigger] s.skip(0) =~= s);
            assert(forall|s: Seq<char>| Seq::<char>::empty() + s =~= s);
            assert([0x10u8]@ =~= seq![0x10u8]);
        }
//@end
//@fn protocol/src/types/primitive.rs UserAddress::from_hex
//@. ensures
        r is Ok <==> hex_ok(no0x(s@)) && user_ok(hex_dec(no0x(s@))),
        r is Ok ==> r->Ok_0@ == hex_dec(no0x(s@)) && user_wf(r->Ok_0),
//@end
//@fn protocol/src/types/primitive.rs UserAddress::as_hex
//@. ensures
        r@ == hex_enc(self@),
//@end
//@fn protocol/src/types/primitive.rs UserAddress::as_bytes
//@. ensures
        r@ == self@,
//@end
}

impl ContractAddress {
//@fn protocol/src/types/primitive.rs ContractAddress::from_bytes
//@. ensures
        r is Ok <==> contract_ok(bytes@),
        r is Ok ==> r->Ok_0@ == bytes@ && contract_wf(r->Ok_0),
//@end
//@fn protocol/src/types/primitive.rs ContractAddress::from_code
//@. ensures
        r is Ok,
        contract_wf(r->Ok_0),
        r->Ok_0.contract_type == contract_type,
        r->Ok_0@ == seq![magic_of(contract_type)] + keccak(code@ + be8(nonce)).take(20),
//@. at start
        proof {
            assert([0x20u8]@ =~= seq![0x20u8]);
            assert([0x21u8]@ =~= seq![0x21u8]);
            assert([0x22u8]@ =~= seq![0x22u8]);
            assert([0x23u8]@ =~= seq![0x23u8]);
        }
//@end
//@fn protocol/src/types/primitive.rs ContractAddress::from_hex
//@. ensures
        r is Ok <==> hex_ok(no0x(s@)) && contract_ok(hex_dec(no0x(s@))),
        r is Ok ==> r->Ok_0@ == hex_dec(no0x(s@)) && contract_wf(r->Ok_0),
//@end
//@fn protocol/src/types/primitive.rs ContractAddress::as_hex
//@. ensures
        r@ == hex_enc(self@),
//@end
//@fn protocol/src/types/primitive.rs ContractAddress::as_bytes
//@. ensures
        r@ == self@,
//@end
//@fn protocol/src/types/primitive.rs ContractAddress::contract_type
//@. ensures
        r == self.contract_type,
//@end
}

//@fn protocol/src/types/primitive.rs clean_0x
//@. ensures
        r@ == no0x(s@),
//@. at start
        proof {
            reveal_strlit("0x");
            assert("0x"@ =~= seq!['0', 'x']);
            if s@.len() >= 2 {
                assert(s@.subrange(0, 2) =~= seq![s@[0], s@[1]]);
                if "0x"@.is_prefix_of(s@) {
                    assert(s@.subrange(0, 2)[0] == '0' && s@.subrange(0, 2)[1] == 'x');
                }
            }
        }
//@end
//@fn protocol/src/types/primitive.rs ensure_len
//@. ensures
        r is Ok <==> real == expect,
//@end

// ------------------------------------------------------------------ C11
/// Formatting and parsing are inverse, with and without the prefix.
fn c11_hash_roundtrip(h: Hash)
{
    let b = h.as_bytes();
    let h2 = Hash::from_bytes(b);
    assert(h2 is Ok && h2->Ok_0 == h);
    let s = h.as_hex();
    proof {
        lemma_hex_round(h@);
        lemma_hex_first(h@);
    }
    assert(no0x(s@) == s@);
    let h3 = Hash::from_hex(s.as_str());
    assert(h3 is Ok && h3->Ok_0 == h);
}

proof fn c11_hash_prefixed(h: Hash, s: Seq<char>)
    requires
        s == seq!['0', 'x'] + hex_enc(h@),
    ensures
        hex_ok(no0x(s)) && no0x(s).len() == 64 && hex_dec(no0x(s)) == h@,
{
    lemma_hex_round(h@);
    let e = hex_enc(h@);
    assert(s.len() == e.len() + 2 && s[0] == '0' && s[1] == 'x');
    assert(s.skip(2) =~= e);
    assert(no0x(s) == e);
}

fn c11_address_roundtrip(a: Address)
    requires
        address_wf(a),
{
    let b = a.as_bytes();
    let r = Address::from_bytes(b);
    assert(r is Ok);
    proof {
        lemma_addr_ext(r->Ok_0, a);
        lemma_hex_round(a@);
        lemma_hex_first(a@);
    }
    assert(r->Ok_0 == a);
    let s = a.as_hex();
    let r2 = Address::from_hex(s.as_str());
    assert(r2 is Ok);
    proof {
        lemma_addr_ext(r2->Ok_0, a);
    }
    assert(r2->Ok_0 == a);
}



} // verus!
