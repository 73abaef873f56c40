//@include prim.vrs assume
//@type "Rc<$>" => "$"
//@type "Arc<$>" => "$"
//@type "Box<$>" => "$"
verus! {

// ------------------------------------------------------------------ ledger types
pub struct Bloom {
    pub b: Ghost<Seq<u8>>,
}

impl Copy for Bloom {}

impl Clone for Bloom {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Bloom {
    #[verifier::external_body]
    pub fn default() -> (r: Bloom)
        ensures
            r.b@ == Seq::new(256, |i: int| 0u8),
    {
        unimplemented!()
    }
}

//@item protocol/src/types/primitive.rs struct Fee need:Clone,PartialEq
//@item protocol/src/types/primitive.rs struct Asset need:Clone
//@item protocol/src/types/primitive.rs enum Account need:Clone
//@item protocol/src/types/primitive.rs struct UserAccount need:Clone
//@item protocol/src/types/primitive.rs struct AssetInfo need:Clone
//@item protocol/src/types/primitive.rs struct ApprovedInfo need:Clone
//@item protocol/src/types/primitive.rs struct ContractAccount need:Clone
//@item protocol/src/types/transaction.rs struct RawTransaction need:Clone
//@item protocol/src/types/transaction.rs enum TransactionAction need:Clone
//@item protocol/src/types/transaction.rs struct CarryingAsset need:Clone
//@item protocol/src/types/transaction.rs struct SignedTransaction need:Clone
//@item protocol/src/types/receipt.rs struct Receipt need:Clone
//@item protocol/src/types/receipt.rs enum ReceiptResult need:Clone
//@item protocol/src/types/genesis.rs struct Genesis
//@item protocol/src/types/genesis.rs struct GenesisStateAlloc
//@item protocol/src/types/genesis.rs struct GenesisStateAsset
//@item protocol/src/types/genesis.rs struct GenesisSystemToken
} // verus!
