verus! {

// ------------------------------------------------------------------ keccak, hex
pub use axk::keccak;

pub mod axk {
    use super::*;

    /// keccak-256 of the real hasher: some function into 32-byte strings.
    pub uninterp spec fn keccak(s: Seq<u8>) -> Seq<u8>;

    /// keccak-256 gives 32 bytes.
    pub broadcast axiom fn keccak_len(s: Seq<u8>)
        ensures
            #[trigger] keccak(s).len() == 32,
    ;
}

pub struct HasherKeccak;

impl HasherKeccak {
    #[verifier::external_body]
    pub fn digest<T: VxBytes + ?Sized>(&self, b: &T) -> (r: Vec<u8>)
        ensures
            r@ == keccak(b.vb()),
            r@.len() == 32,
    {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn vx_static_HASHER_INST() -> &'static HasherKeccak {
    unimplemented!()
}

/// rlp::NULL_RLP
pub open spec fn null_rlp() -> Seq<u8> {
    seq![0x80u8]
}

#[verifier::external_body]
pub fn vx_null_rlp() -> (r: [u8; 1])
    ensures
        r@ == null_rlp(),
{
    unimplemented!()
}

pub open spec fn hex_digit(n: int) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' }
    else if n == 10 { 'a' } else if n == 11 { 'b' } else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' }
    else { 'f' }
}

pub open spec fn hex_val(c: char) -> int {
    if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 }
    else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else if c == '9' { 9 }
    else if c == 'a' || c == 'A' { 10 } else if c == 'b' || c == 'B' { 11 } else if c == 'c' || c == 'C' { 12 }
    else if c == 'd' || c == 'D' { 13 } else if c == 'e' || c == 'E' { 14 } else if c == 'f' || c == 'F' { 15 }
    else { -1 }
}

/// Lower-case hex, two digits a byte.
pub open spec fn hex_enc(b: Seq<u8>) -> Seq<char> {
    Seq::new(
        2 * b.len(),
        |i: int| if i % 2 == 0 { hex_digit(b[i / 2] as int / 16) } else { hex_digit(b[i / 2] as int % 16) },
    )
}

/// A string the hex crate decodes: an even number of hex digits of either case.
pub open spec fn hex_ok(s: Seq<char>) -> bool {
    s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> hex_val(#[trigger] s[i]) >= 0
}

pub open spec fn hex_dec(s: Seq<char>) -> Seq<u8> {
    Seq::new(s.len() / 2, |i: int| (hex_val(s[2 * i]) * 16 + hex_val(s[2 * i + 1])) as u8)
}

pub proof fn lemma_hex_round(b: Seq<u8>)
    ensures
        hex_ok(hex_enc(b)),
        hex_dec(hex_enc(b)) == b,
{
    let e = hex_enc(b);
    assert forall|i: int| 0 <= i < e.len() implies hex_val(#[trigger] e[i]) >= 0 by {}
    assert(hex_dec(e) =~= b) by {
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] hex_dec(e)[i] == b[i] by {
            assert(e[2 * i] == hex_digit(b[i] as int / 16));
            assert(e[2 * i + 1] == hex_digit(b[i] as int % 16));
        }
    }
}

pub proof fn lemma_hex_parts(a: Seq<u8>, b: Seq<u8>)
    ensures
        hex_enc(a + b) == hex_enc(a) + hex_enc(b),
        forall|n: int| 0 <= n <= b.len() ==> #[trigger] hex_enc(b.take(n)) == hex_enc(b).take(2 * n),
{
    assert(hex_enc(a + b) =~= hex_enc(a) + hex_enc(b));
    assert forall|n: int| 0 <= n <= b.len() implies #[trigger] hex_enc(b.take(n)) == hex_enc(b).take(2 * n) by {
        assert(hex_enc(b.take(n)) =~= hex_enc(b).take(2 * n));
    }
}

pub proof fn lemma_hex_first(b: Seq<u8>)
    requires
        b.len() >= 1,
    ensures
        hex_enc(b).len() == 2 * b.len(),
        hex_enc(b)[0] == hex_digit(b[0] as int / 16),
        hex_enc(b)[1] == hex_digit(b[0] as int % 16),
        hex_enc(b)[1] != 'x',
{
}

pub mod hex {
    use super::*;

    pub struct FromHexError;

    #[verifier::external_body]
    pub fn encode<T: VxBytes>(b: T) -> (r: String)
        ensures
            r@ == hex_enc(b.vb()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn decode<T: VxStr>(s: T) -> (r: Result<Vec<u8>, FromHexError>)
        ensures
            hex_ok(s.vc()) <==> r is Ok,
            r is Ok ==> r->Ok_0@ == hex_dec(s.vc()),
    {
        unimplemented!()
    }
}

/// Without the optional `0x`.
pub open spec fn no0x(s: Seq<char>) -> Seq<char> {
    if s.len() >= 2 && s[0] == '0' && s[1] == 'x' { s.skip(2) } else { s }
}

pub trait VxStrEdit {
    spec fn ve(&self) -> Seq<char>;

    /// String::truncate on an ASCII string
    fn vx_truncate(&mut self, n: usize)
        requires
            forall|i: int| 0 <= i < old(self).ve().len() ==> (#[trigger] old(self).ve()[i] as u32) < 128,
        ensures
            final(self).ve() == (if n < old(self).ve().len() { old(self).ve().take(n as int) } else { old(self).ve() }),
    ;

    fn vx_insert_str(&mut self, n: usize, s: &str)
        requires
            n <= old(self).ve().len(),
            forall|i: int| 0 <= i < old(self).ve().len() ==> (#[trigger] old(self).ve()[i] as u32) < 128,
        ensures
            final(self).ve() == old(self).ve().take(n as int) + s@ + old(self).ve().skip(n as int),
    ;
}

impl VxStrEdit for String {
    open spec fn ve(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_truncate(&mut self, n: usize) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_insert_str(&mut self, n: usize, s: &str) {
        unimplemented!()
    }
}

pub trait VxStrSlice {
    spec fn vcs(&self) -> Seq<char>;

    /// `&s[i..]` where the first i characters are ASCII
    fn vx_slice_from(&self, i: usize) -> (r: &str)
        requires
            i <= self.vcs().len(),
            forall|k: int| 0 <= k < i ==> (#[trigger] self.vcs()[k] as u32) < 128,
        ensures
            r@ == self.vcs().skip(i as int),
    ;
}

impl VxStrSlice for str {
    open spec fn vcs(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_slice_from(&self, i: usize) -> (r: &str) {
        unimplemented!()
    }
}

} // verus!
