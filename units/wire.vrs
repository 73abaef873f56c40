//@include types.vrs
verus! {

// ------------------------------------------------------------------ wire encoding, as a contract
/// What C13 establishes for every type written to the database or sent to a peer.
pub trait ProtocolCodec: Sized {
    spec fn wenc(&self) -> Seq<u8>;

    spec fn wdec(b: Seq<u8>) -> Option<Self>;

    spec fn wok(&self) -> bool;

    proof fn wlaw(x: &Self)
        requires
            x.wok(),
        ensures
            Self::wdec(x.wenc()) == Some(*x),
    ;

    fn encode(&mut self) -> (r: ProtocolResult<Bytes>)
        ensures
            *final(self) == *old(self),
            r is Ok ==> r->Ok_0 == bytes_of(old(self).wenc()),
            io_ok() ==> r is Ok,
    ;

    fn decode<B: VxBytes>(bytes: B) -> (r: ProtocolResult<Self>)
        ensures
            r is Ok <==> Self::wdec(bytes.vb()) is Some,
            r is Ok ==> r->Ok_0 == Self::wdec(bytes.vb())->0,
    ;
}

} // verus!
