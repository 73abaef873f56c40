//@include base.vrs
//@macro format => concat:vx_fmt
verus! {

// ------------------------------------------------------------------ text
/// Bytes of one character in UTF-8.
pub open spec fn clen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}

/// Bytes of a text in UTF-8.
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}

pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures
        blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_blen_add(a, b.drop_last());
    }
}

pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures
        blen(s) >= s.len(),
        blen(s) <= 4 * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_blen_ge(s.drop_last());
    }
}

/// Different prefixes have different byte lengths.
pub proof fn lemma_blen_inj(s: Seq<char>, i: int, j: int)
    requires
        0 <= i <= s.len(),
        0 <= j <= s.len(),
        blen(s.take(i)) == blen(s.take(j)),
    ensures
        i == j,
{
    if i < j {
        assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
        lemma_blen_add(s.take(i), s.subrange(i, j));
        lemma_blen_ge(s.subrange(i, j));
    } else if j < i {
        assert(s.take(i) =~= s.take(j) + s.subrange(j, i));
        lemma_blen_add(s.take(j), s.subrange(j, i));
        lemma_blen_ge(s.subrange(j, i));
    }
}

/// Where the last c is.
pub open spec fn last_at(s: Seq<char>, c: char, k: int) -> bool {
    0 <= k < s.len() && s[k] == c && forall|j: int| k < j < s.len() ==> s[j] != c
}

/// The pieces between the c's.
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![Seq::<char>::empty()]
    } else {
        let p = pieces(s.drop_last(), c);
        if s.last() == c {
            p.push(Seq::empty())
        } else {
            p.update(p.len() - 1, p.last().push(s.last()))
        }
    }
}

pub proof fn lemma_pieces_some(s: Seq<char>, c: char)
    ensures
        pieces(s, c).len() >= 1,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_pieces_some(s.drop_last(), c);
    }
}

/// A text without c is one piece; what follows a c is cut on its own.
pub proof fn lemma_pieces_plain(s: Seq<char>, c: char)
    requires
        !s.contains(c),
    ensures
        pieces(s, c) == seq![s],
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s =~= Seq::<char>::empty());
    } else {
        let d = s.drop_last();
        assert(!d.contains(c)) by {
            if d.contains(c) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == c;
                assert(s[i] == c);
            }
        }
        lemma_pieces_plain(d, c);
        assert(s.last() != c) by {
            if s.last() == c {
                assert(s[s.len() - 1] == c);
            }
        }
        assert(d.push(s.last()) =~= s);
        assert(pieces(s, c) =~= seq![s]);
    }
}

pub proof fn lemma_pieces_cut(a: Seq<char>, b: Seq<char>, c: char)
    ensures
        pieces(a.push(c) + b, c) == pieces(a, c) + pieces(b, c),
    decreases b.len(),
{
    let s = a.push(c) + b;
    if b.len() == 0 {
        assert(s =~= a.push(c));
        assert(s.drop_last() =~= a);
        assert(pieces(s, c) =~= pieces(a, c) + pieces(b, c));
    } else {
        let d = a.push(c) + b.drop_last();
        assert(s.drop_last() =~= d);
        lemma_pieces_cut(a, b.drop_last(), c);
        lemma_pieces_some(b.drop_last(), c);
        lemma_pieces_some(a, c);
        assert(s.last() == b.last());
        assert(pieces(s, c) =~= pieces(a, c) + pieces(b, c));
    }
}

pub open spec fn kept(p: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases p.len(),
{
    if p.len() == 0 {
        Seq::empty()
    } else if p.last().len() == 0 {
        kept(p.drop_last())
    } else {
        kept(p.drop_last()).push(p.last())
    }
}

pub proof fn lemma_kept_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures
        kept(a + b) == kept(a) + kept(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(kept(a) + kept(b) =~= kept(a));
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_kept_add(a, b.drop_last());
        assert(kept(a + b) =~= kept(a) + kept(b));
    }
}

/// Decimal digits.
pub open spec fn digit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' }
    else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' }
}

pub open spec fn digit_val(c: char) -> Option<nat> {
    if c == '0' { Some(0) } else if c == '1' { Some(1) } else if c == '2' { Some(2) } else if c == '3' { Some(3) }
    else if c == '4' { Some(4) } else if c == '5' { Some(5) } else if c == '6' { Some(6) } else if c == '7' { Some(7) }
    else if c == '8' { Some(8) } else if c == '9' { Some(9) } else { None }
}

pub open spec fn dec(n: nat) -> Seq<char>
    decreases n,
{
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}

/// The number written by these digits, at least one.
pub open spec fn undec(s: Seq<char>) -> Option<nat>
    decreases s.len(),
{
    if s.len() == 0 {
        None
    } else if s.len() == 1 {
        digit_val(s[0])
    } else {
        match (undec(s.drop_last()), digit_val(s.last())) {
            (Some(a), Some(b)) => Some(10 * a + b),
            _ => None,
        }
    }
}

/// What `str::parse::<u64>` accepts: digits, an optional plus sign before them, a value of 64 bits.
pub open spec fn as_u64(s: Seq<char>) -> Option<u64> {
    let t = if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s };
    match undec(t) {
        Some(n) => if n <= u64::MAX { Some(n as u64) } else { None },
        None => None,
    }
}

pub proof fn lemma_dec(n: nat)
    ensures
        undec(dec(n)) == Some(n),
        dec(n).len() >= 1,
        blen(dec(n)) == dec(n).len(),
        forall|i: int| 0 <= i < dec(n).len() ==> digit_val(#[trigger] dec(n)[i]) is Some,
        !dec(n).contains('/'),
        dec(n)[0] != '+',
    decreases n,
{
    let s = dec(n);
    if n < 10 {
        assert(s.drop_last() =~= Seq::<char>::empty());
        assert(blen(s.drop_last()) == 0);
        assert(blen(s) == 1);
    } else {
        lemma_dec(n / 10);
        assert(s.drop_last() =~= dec(n / 10));
        assert(digit_val(digit(n % 10)) == Some(n % 10));
        assert forall|i: int| 0 <= i < s.len() implies digit_val(#[trigger] s[i]) is Some by {
            if i < s.len() - 1 {
                assert(s[i] == dec(n / 10)[i]);
            }
        }
        assert(s[0] == dec(n / 10)[0]);
    }
    if s.contains('/') {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == '/';
        assert(digit_val(s[i]) is Some);
    }
}

pub proof fn lemma_dec_u64(n: u64)
    ensures
        as_u64(dec(n as nat)) == Some(n),
{
    lemma_dec(n as nat);
}

/// Display
pub trait VxShow {
    spec fn shown(&self) -> Seq<char>;

    fn vx_to_string(&self) -> (r: String)
        ensures
            r@ == self.shown(),
    ;
}

impl VxShow for str {
    open spec fn shown(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

impl VxShow for String {
    open spec fn shown(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

impl VxShow for u64 {
    open spec fn shown(&self) -> Seq<char> {
        dec(*self as nat)
    }

    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

impl<'a, T: VxShow + ?Sized> VxShow for &'a T {
    open spec fn shown(&self) -> Seq<char> {
        (**self).shown()
    }

    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn vx_fmt0() -> (r: String)
    ensures
        r@ == Seq::<char>::empty(),
{
    unimplemented!()
}

pub trait VxFmt: Sized {
    spec fn vf(&self) -> Seq<char>;

    fn vx_fmt<T: VxShow + ?Sized>(self, x: &T) -> (r: String)
        ensures
            r@ == self.vf() + x.shown(),
    ;
}

impl VxFmt for String {
    open spec fn vf(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_fmt<T: VxShow + ?Sized>(self, x: &T) -> (r: String) {
        unimplemented!()
    }
}

/// core::str::FromStr
pub trait VxFromStr: Sized {
    type Err;

    spec fn reads(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;

    fn from_str(s: &str) -> (r: Result<Self, Self::Err>)
        ensures
            Self::reads(s@, r),
    ;
}

pub struct ParseIntError;

impl VxFromStr for u64 {
    type Err = ParseIntError;

    open spec fn reads(s: Seq<char>, r: Result<u64, ParseIntError>) -> bool {
        &&& r is Ok <==> as_u64(s) is Some
        &&& r is Ok ==> as_u64(s) == Some(r->Ok_0)
    }

    #[verifier::external_body]
    fn from_str(s: &str) -> (r: Result<u64, ParseIntError>) {
        unimplemented!()
    }
}

pub trait VxText {
    spec fn vt(&self) -> Seq<char>;

    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>)
        ensures
            T::reads(self.vt(), r),
    ;

    fn vx_split(&self, c: char) -> (r: VxIter<&str>)
        ensures
            r.p@ == 0,
            r.s@.len() == pieces(self.vt(), c).len(),
            forall|i: int| 0 <= i < r.s@.len() ==> (#[trigger] r.s@[i])@ == pieces(self.vt(), c)[i],
    ;

    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures
            r is None ==> !self.vt().contains(c),
            r is Some ==> exists|k: int| #[trigger] last_at(self.vt(), c, k) && blen(self.vt().take(k)) == r->0,
    ;

    fn vx_trim_start_matches(&self, c: char) -> (r: &str)
        ensures
            exists|k: int| 0 <= k <= self.vt().len() && r@ == #[trigger] self.vt().skip(k)
                && (forall|i: int| 0 <= i < k ==> self.vt()[i] == c) && (k < self.vt().len() ==> self.vt()[k] != c),
    ;

    /// `&s[i..]`: i is where a character starts
    fn vx_slice_from(&self, i: usize) -> (r: &str)
        requires
            exists|k: int| 0 <= k <= self.vt().len() && blen(#[trigger] self.vt().take(k)) == i,
        ensures
            exists|k: int| 0 <= k <= self.vt().len() && blen(#[trigger] self.vt().take(k)) == i && r@ == self.vt().skip(k),
    ;
}

impl VxText for str {
    open spec fn vt(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: VxIter<&str>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_slice_from(&self, i: usize) -> (r: &str) {
        unimplemented!()
    }
}

impl VxText for String {
    open spec fn vt(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::Err>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_split(&self, c: char) -> (r: VxIter<&str>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_rfind(&self, c: char) -> (r: Option<usize>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_slice_from(&self, i: usize) -> (r: &str) {
        unimplemented!()
    }
}

/// Length: bytes of a text, elements of a list.
pub trait VxLen {
    spec fn size(&self) -> nat;

    fn vx_len(&self) -> (r: usize)
        ensures
            r == self.size(),
    ;
}

impl VxLen for str {
    open spec fn size(&self) -> nat {
        blen(self@)
    }

    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) {
        unimplemented!()
    }
}

impl VxLen for String {
    open spec fn size(&self) -> nat {
        blen(self@)
    }

    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) {
        unimplemented!()
    }
}

impl<T> VxLen for Vec<T> {
    open spec fn size(&self) -> nat {
        self@.len()
    }

    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) {
        unimplemented!()
    }
}

impl<T> VxLen for [T] {
    open spec fn size(&self) -> nat {
        self@.len()
    }

    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) {
        unimplemented!()
    }
}

} // verus!
