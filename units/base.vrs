use vstd::prelude::*;
use vstd::std_specs::cmp::*;
#[allow(unused_imports)]
use vstd::std_specs::convert::*;
verus! {

// a local of /repo may be called `real`; this keeps it from meaning vstd's type of that name
pub fn real() {
}

// ------------------------------------------------------------------ abnormal ends
/// `panic!`, `unreachable!`, ... : reaching one is an obligation that must be refuted.
#[verifier::external_body]
pub fn vx_panic() -> !
    requires
        false,
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_any<T>() -> T {
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_format() -> String {
    unimplemented!()
}

/// The machine underneath works: the database answers, encodings of well-formed objects succeed.
/// Completeness clauses ("succeeds when ...") are stated under it; safety clauses are not.
pub uninterp spec fn io_ok() -> bool;

// ------------------------------------------------------------------ byte strings
/// A byte string literal.
#[verifier::external_body]
pub fn vx_b<const N: usize>(a: [u8; N]) -> (r: &'static [u8])
    ensures
        r@ == a@,
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_is(a: &[u8], b: &[u8]) -> (r: bool)
    ensures
        r == (a@ == b@),
{
    unimplemented!()
}

pub trait VxBytes {
    spec fn vb(&self) -> Seq<u8>;

    fn vx_to_vec(&self) -> (r: Vec<u8>)
        ensures
            r@ == self.vb(),
    ;

    fn vx_as_ref(&self) -> (r: &[u8])
        ensures
            r@ == self.vb(),
    ;
}

impl VxBytes for Vec<u8> {
    open spec fn vb(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) {
        unimplemented!()
    }
}

impl VxBytes for [u8] {
    open spec fn vb(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) {
        unimplemented!()
    }
}

impl<const N: usize> VxBytes for [u8; N] {
    open spec fn vb(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) {
        unimplemented!()
    }
}

/// bytes::Bytes
pub struct Bytes {
    pub s: Ghost<Seq<u8>>,
}

impl VxBytes for Bytes {
    open spec fn vb(&self) -> Seq<u8> {
        self.s@
    }

    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) {
        unimplemented!()
    }
}

impl<'a, T: VxBytes + ?Sized> VxBytes for &'a T {
    open spec fn vb(&self) -> Seq<u8> {
        (**self).vb()
    }

    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<u8>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) {
        unimplemented!()
    }
}

pub open spec fn bytes_of(s: Seq<u8>) -> Bytes {
    Bytes { s: Ghost(s) }
}

impl View for Bytes {
    type V = Seq<u8>;

    open spec fn view(&self) -> Seq<u8> {
        self.s@
    }
}

impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Bytes)
        ensures
            r@ == Seq::<u8>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self@.len() == 0),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&u8>)
        ensures
            i < self@.len() ==> r is Some && *r->0 == self@[i as int],
            i >= self@.len() ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures
            final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn split_off(&mut self, n: usize) -> (r: Bytes)
        requires
            n <= old(self)@.len(),
        ensures
            final(self)@ == old(self)@.take(n as int),
            r@ == old(self)@.skip(n as int),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, x: &[u8])
        ensures
            final(self)@ == old(self)@ + x@,
    {
        unimplemented!()
    }
}

impl Clone for Bytes {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl PartialEqSpecImpl for Bytes {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &Bytes) -> bool {
        *self == *o
    }
}

impl PartialEq for Bytes {
    #[verifier::external_body]
    fn eq(&self, o: &Bytes) -> bool {
        unimplemented!()
    }
}

impl FromSpecImpl<Vec<u8>> for Bytes {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: Vec<u8>) -> Bytes {
        bytes_of(v@)
    }
}

impl core::convert::From<Vec<u8>> for Bytes {
    #[verifier::external_body]
    fn from(v: Vec<u8>) -> Bytes {
        unimplemented!()
    }
}

impl<'a> FromSpecImpl<&'a [u8]> for Bytes {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: &'a [u8]) -> Bytes {
        bytes_of(v@)
    }
}

impl<'a> core::convert::From<&'a [u8]> for Bytes {
    #[verifier::external_body]
    fn from(v: &'a [u8]) -> Bytes {
        unimplemented!()
    }
}

/// The UTF-8 bytes of a text.
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;

pub axiom fn utf8_ascii(s: Seq<char>)
    requires
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128,
    ensures
        utf8(s) == s.map_values(|c: char| c as u8),
;

impl<'a> FromSpecImpl<&'a str> for Bytes {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: &'a str) -> Bytes {
        bytes_of(utf8(v@))
    }
}

impl<'a> core::convert::From<&'a str> for Bytes {
    #[verifier::external_body]
    fn from(v: &'a str) -> Bytes {
        unimplemented!()
    }
}

pub trait VxSlice {
    spec fn vs(&self) -> Seq<u8>;

    fn vx_slice_from(&self, i: usize) -> (r: &[u8])
        requires
            i <= self.vs().len(),
        ensures
            r@ == self.vs().skip(i as int),
    ;

    fn vx_slice_to(&self, i: usize) -> (r: &[u8])
        requires
            i <= self.vs().len(),
        ensures
            r@ == self.vs().take(i as int),
    ;

    fn vx_slice(&self, i: usize, j: usize) -> (r: &[u8])
        requires
            i <= j <= self.vs().len(),
        ensures
            r@ == self.vs().subrange(i as int, j as int),
    ;

    fn vx_slice_full(&self) -> (r: &[u8])
        ensures
            r@ == self.vs(),
    ;
}

impl<T: VxBytes + ?Sized> VxSlice for T {
    open spec fn vs(&self) -> Seq<u8> {
        self.vb()
    }

    #[verifier::external_body]
    fn vx_slice_from(&self, i: usize) -> (r: &[u8]) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_slice_to(&self, i: usize) -> (r: &[u8]) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_slice(&self, i: usize, j: usize) -> (r: &[u8]) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_slice_full(&self) -> (r: &[u8]) {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn vx_concat2<A: VxBytes, B: VxBytes>(a: A, b: B) -> (r: Vec<u8>)
    ensures
        r@ == a.vb() + b.vb(),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_concat3<A: VxBytes, B: VxBytes, C: VxBytes>(a: A, b: B, c: C) -> (r: Vec<u8>)
    ensures
        r@ == a.vb() + b.vb() + c.vb(),
{
    unimplemented!()
}

pub open spec fn be8(n: u64) -> Seq<u8> {
    Seq::new(8, |i: int| ((n as nat / pow256((7 - i) as nat)) % 256) as u8)
}

pub open spec fn pow256(k: nat) -> nat
    decreases k,
{
    if k == 0 {
        1
    } else {
        256 * pow256((k - 1) as nat)
    }
}

pub trait VxCopyFrom {
    spec fn vw(&self) -> Seq<u8>;

    fn vx_copy_from<T: VxBytes + ?Sized>(&mut self, src: &T)
        requires
            old(self).vw().len() == src.vb().len(),
        ensures
            final(self).vw() == src.vb(),
    ;
}

impl<const N: usize> VxCopyFrom for [u8; N] {
    open spec fn vw(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn vx_copy_from<T: VxBytes + ?Sized>(&mut self, src: &T) {
        unimplemented!()
    }
}

pub trait VxBe {
    fn vx_to_be_bytes(&self) -> (r: [u8; 8])
        ensures
            r@ == self.be(),
    ;

    spec fn be(&self) -> Seq<u8>;
}

impl VxBe for u64 {
    open spec fn be(&self) -> Seq<u8> {
        be8(*self)
    }

    #[verifier::external_body]
    fn vx_to_be_bytes(&self) -> (r: [u8; 8]) {
        unimplemented!()
    }
}

pub mod axb {
    use super::*;

    /// Two arrays with the same elements are the same array.
    pub broadcast axiom fn array_ext<const N: usize>(a: [u8; N], b: [u8; N])
        requires
            #[trigger] a@ == #[trigger] b@,
        ensures
            a == b,
    ;
}

// ------------------------------------------------------------------ strings
pub trait VxStr {
    spec fn vc(&self) -> Seq<char>;

    fn vx_to_owned(&self) -> (r: String)
        ensures
            r@ == self.vc(),
    ;

    fn vx_starts_with(&self, p: &str) -> (r: bool)
        ensures
            r == p@.is_prefix_of(self.vc()),
    ;
}

impl VxStr for str {
    open spec fn vc(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) {
        unimplemented!()
    }
}

impl VxStr for String {
    open spec fn vc(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) {
        unimplemented!()
    }
}

impl<'a, T: VxStr + ?Sized> VxStr for &'a T {
    open spec fn vc(&self) -> Seq<char> {
        (**self).vc()
    }

    #[verifier::external_body]
    fn vx_to_owned(&self) -> (r: String) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> (r: bool) {
        unimplemented!()
    }
}

/// The string of these characters.
pub uninterp spec fn string_of(c: Seq<char>) -> String;

pub axiom fn string_ext(s: String)
    ensures
        string_of(s@) == s,
;

// ------------------------------------------------------------------ errors
pub struct ProtocolError {
    pub k: Ghost<int>,
}

#[verifier::external]
impl core::fmt::Debug for ProtocolError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        unimplemented!()
    }
}

impl ProtocolError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String {
        unimplemented!()
    }
}

pub type ProtocolResult<T> = Result<T, ProtocolError>;

// ------------------------------------------------------------------ iterators
/// An iterator over owned values: the values it will give, and how many it has given.
pub struct VxIter<T> {
    pub s: Ghost<Seq<T>>,
    pub p: Ghost<nat>,
}

impl<T> VxIter<T> {
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures
            r == (self.p@ < self.s@.len()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires
            old(self).p@ < old(self).s@.len(),
        ensures
            r == old(self).s@[old(self).p@ as int],
            final(self).s@ == old(self).s@,
            final(self).p@ == old(self).p@ + 1,
    {
        unimplemented!()
    }
}

/// An iterator over references.
pub struct VxRefIter<'a, T> {
    pub s: Ghost<Seq<T>>,
    pub p: Ghost<nat>,
    pub ph: core::marker::PhantomData<&'a T>,
}

impl<'a, T> VxRefIter<'a, T> {
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures
            r == (self.p@ < self.s@.len()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: &'a T)
        requires
            old(self).p@ < old(self).s@.len(),
        ensures
            *r == old(self).s@[old(self).p@ as int],
            final(self).s@ == old(self).s@,
            final(self).p@ == old(self).p@ + 1,
    {
        unimplemented!()
    }
}

pub trait VxSeqIter<T> {
    spec fn sq(&self) -> Seq<T>;

    fn vx_iter(&self) -> (r: VxRefIter<'_, T>)
        ensures
            r.s@ == self.sq(),
            r.p@ == 0,
    ;
}

impl<T> VxSeqIter<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> {
        self@
    }

    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxRefIter<'_, T>) {
        unimplemented!()
    }
}

impl<T> VxSeqIter<T> for [T] {
    open spec fn sq(&self) -> Seq<T> {
        self@
    }

    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxRefIter<'_, T>) {
        unimplemented!()
    }
}

pub trait VxIntoIter: Sized {
    type It;

    spec fn into_rel(self, it: Self::It) -> bool;

    fn vx_into_iter(self) -> (r: Self::It)
        ensures
            self.into_rel(r),
    ;
}

impl<T> VxIntoIter for Vec<T> {
    type It = VxIter<T>;

    open spec fn into_rel(self, it: VxIter<T>) -> bool {
        it.s@ == self@ && it.p@ == 0
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIter<T>) {
        unimplemented!()
    }
}

impl<'a, T> VxIntoIter for &'a Vec<T> {
    type It = VxRefIter<'a, T>;

    open spec fn into_rel(self, it: VxRefIter<'a, T>) -> bool {
        it.s@ == (*self)@ && it.p@ == 0
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxRefIter<'a, T>) {
        unimplemented!()
    }
}

impl<'a, T> VxIntoIter for &'a [T] {
    type It = VxRefIter<'a, T>;

    open spec fn into_rel(self, it: VxRefIter<'a, T>) -> bool {
        it.s@ == (*self)@ && it.p@ == 0
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxRefIter<'a, T>) {
        unimplemented!()
    }
}

pub trait VxStep: Sized {
    spec fn vi(&self) -> int;
}

impl VxStep for usize {
    open spec fn vi(&self) -> int {
        *self as int
    }
}

impl VxStep for u64 {
    open spec fn vi(&self) -> int {
        *self as int
    }
}

impl VxStep for u32 {
    open spec fn vi(&self) -> int {
        *self as int
    }
}

impl VxStep for u8 {
    open spec fn vi(&self) -> int {
        *self as int
    }
}

impl VxStep for i32 {
    open spec fn vi(&self) -> int {
        *self as int
    }
}

#[verifier::external_body]
pub fn vx_range<T: VxStep>(a: T, b: T) -> (r: VxIter<T>)
    ensures
        r.p@ == 0,
        r.s@.len() == (if a.vi() <= b.vi() { b.vi() - a.vi() } else { 0 }),
        forall|i: int| 0 <= i < r.s@.len() ==> (#[trigger] r.s@[i]).vi() == a.vi() + i,
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_range_incl<T: VxStep>(a: T, b: T) -> (r: VxIter<T>)
    ensures
        r.p@ == 0,
        r.s@.len() == (if a.vi() <= b.vi() { b.vi() - a.vi() + 1 } else { 0 }),
        forall|i: int| 0 <= i < r.s@.len() ==> (#[trigger] r.s@[i]).vi() == a.vi() + i,
{
    unimplemented!()
}

/// Iterators built from iterators.
pub trait VxAnyIter: Sized {
    type Item;

    /// What is still to come.
    spec fn left(&self) -> Seq<Self::Item>;
}

impl<T> VxAnyIter for VxIter<T> {
    type Item = T;

    open spec fn left(&self) -> Seq<T> {
        self.s@.skip(self.p@ as int)
    }
}

impl<'a, T> VxAnyIter for VxRefIter<'a, T> {
    type Item = &'a T;

    open spec fn left(&self) -> Seq<&'a T> {
        Seq::new((self.s@.len() - self.p@) as nat, |i: int| &self.s@[self.p@ + i])
    }
}

pub trait VxAdapt: VxAnyIter {
    fn vx_zip<J: VxAnyIter>(self, j: J) -> (r: VxIter<(Self::Item, J::Item)>)
        ensures
            r.p@ == 0,
            r.s@.len() == (if self.left().len() <= j.left().len() { self.left().len() } else { j.left().len() }),
            forall|i: int| 0 <= i < r.s@.len() ==> #[trigger] r.s@[i] == (self.left()[i], j.left()[i]),
    ;

    fn vx_enumerate(self) -> (r: VxIter<(usize, Self::Item)>)
        ensures
            r.p@ == 0,
            r.s@.len() == self.left().len(),
            r.s@.len() <= usize::MAX,
            forall|i: int| 0 <= i < r.s@.len() ==> #[trigger] r.s@[i] == (i as usize, self.left()[i]),
    ;

    fn vx_rev(self) -> (r: VxIter<Self::Item>)
        ensures
            r.p@ == 0,
            r.s@ == self.left().reverse(),
    ;

    fn vx_skip(self, n: usize) -> (r: VxIter<Self::Item>)
        ensures
            r.p@ == 0,
            r.s@ == (if n <= self.left().len() { self.left().skip(n as int) } else { Seq::empty() }),
    ;

    fn vx_take(self, n: usize) -> (r: VxIter<Self::Item>)
        ensures
            r.p@ == 0,
            r.s@ == (if n <= self.left().len() { self.left().take(n as int) } else { self.left() }),
    ;

    fn vx_chain<J: VxAnyIter<Item = Self::Item>>(self, j: J) -> (r: VxIter<Self::Item>)
        ensures
            r.p@ == 0,
            r.s@ == self.left() + j.left(),
    ;
}

impl<I: VxAnyIter> VxAdapt for I {
    #[verifier::external_body]
    fn vx_zip<J: VxAnyIter>(self, j: J) -> (r: VxIter<(Self::Item, J::Item)>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_enumerate(self) -> (r: VxIter<(usize, Self::Item)>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_rev(self) -> (r: VxIter<Self::Item>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_skip(self, n: usize) -> (r: VxIter<Self::Item>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_take(self, n: usize) -> (r: VxIter<Self::Item>) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn vx_chain<J: VxAnyIter<Item = Self::Item>>(self, j: J) -> (r: VxIter<Self::Item>) {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ maps and sets
pub open spec fn map_seq_ok<K, V>(m: Map<K, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}

/// The pairs of a BTreeMap in the order it gives them.
pub uninterp spec fn bt_seq<K, V>(m: Map<K, V>) -> Seq<(K, V)>;

pub axiom fn bt_seq_ok<K, V>(m: Map<K, V>)
    ensures
        map_seq_ok(m, bt_seq(m)),
;

pub struct VxPairIter<'a, K, V> {
    pub s: Ghost<Seq<(K, V)>>,
    pub p: Ghost<nat>,
    pub ph: core::marker::PhantomData<&'a (K, V)>,
}

impl<'a, K, V> VxPairIter<'a, K, V> {
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool)
        ensures
            r == (self.p@ < self.s@.len()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: (&'a K, &'a V))
        requires
            old(self).p@ < old(self).s@.len(),
        ensures
            *r.0 == old(self).s@[old(self).p@ as int].0,
            *r.1 == old(self).s@[old(self).p@ as int].1,
            final(self).s@ == old(self).s@,
            final(self).p@ == old(self).p@ + 1,
    {
        unimplemented!()
    }
}

pub struct HashMap<K, V> {
    pub m: Ghost<Map<K, V>>,
}

pub struct BTreeMap<K, V> {
    pub m: Ghost<Map<K, V>>,
}

impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;

    open spec fn view(&self) -> Map<K, V> {
        self.m@
    }
}

impl<K, V> View for BTreeMap<K, V> {
    type V = Map<K, V>;

    open spec fn view(&self) -> Map<K, V> {
        self.m@
    }
}

impl<K, V> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl<K, V> Clone for BTreeMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures
            r@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures
            self@.contains_key(*k) ==> r is Some && *r->0 == self@[*k],
            !self@.contains_key(*k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures
            match r {
                Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@
                    == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures
            r == self@.contains_key(*k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]),
            !old(self)@.contains_key(k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            old(self)@.contains_key(*k) ==> r == Some(old(self)@[*k]),
            !old(self)@.contains_key(*k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures
            final(self)@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self@ == Map::<K, V>::empty()),
    {
        unimplemented!()
    }

    /// `drain()`: gives every pair once, in no particular order, and leaves the map empty.
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: VxIter<(K, V)>)
        ensures
            final(self)@ == Map::<K, V>::empty(),
            map_seq_ok(old(self)@, r.s@),
            r.p@ == 0,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VxPairIter<'a, K, V>)
        ensures
            map_seq_ok(self@, r.s@),
            r.p@ == 0,
    {
        unimplemented!()
    }
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures
            r@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures
            self@.contains_key(*k) ==> r is Some && *r->0 == self@[*k],
            !self@.contains_key(*k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures
            match r {
                Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@
                    == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
            },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures
            r == self@.contains_key(*k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            old(self)@.contains_key(k) ==> r == Some(old(self)@[k]),
            !old(self)@.contains_key(k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            old(self)@.contains_key(*k) ==> r == Some(old(self)@[*k]),
            !old(self)@.contains_key(*k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures
            final(self)@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self@ == Map::<K, V>::empty()),
    {
        unimplemented!()
    }

    /// `drain()`: gives every pair once, in no particular order, and leaves the map empty.
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: VxIter<(K, V)>)
        ensures
            final(self)@ == Map::<K, V>::empty(),
            map_seq_ok(old(self)@, r.s@),
            r.p@ == 0,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VxPairIter<'a, K, V>)
        ensures
            r.s@ == bt_seq(self@),
            map_seq_ok(self@, r.s@),
            r.p@ == 0,
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ big integers
pub struct BigUint {
    pub v: Ghost<nat>,
}

impl View for BigUint {
    type V = nat;

    open spec fn view(&self) -> nat {
        self.v@
    }
}

impl Clone for BigUint {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl PartialEqSpecImpl for BigUint {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &BigUint) -> bool {
        *self == *o
    }
}

impl PartialEq for BigUint {
    #[verifier::external_body]
    fn eq(&self, o: &BigUint) -> bool {
        unimplemented!()
    }
}

impl PartialOrdSpecImpl for BigUint {
    open spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    open spec fn partial_cmp_spec(&self, o: &BigUint) -> Option<core::cmp::Ordering> {
        if self@ < o@ {
            Some(core::cmp::Ordering::Less)
        } else if self@ == o@ {
            Some(core::cmp::Ordering::Equal)
        } else {
            Some(core::cmp::Ordering::Greater)
        }
    }
}

impl PartialOrd for BigUint {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &BigUint) -> Option<core::cmp::Ordering> {
        unimplemented!()
    }
}

pub open spec fn big(n: nat) -> BigUint {
    BigUint { v: Ghost(n) }
}

impl FromSpecImpl<u64> for BigUint {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: u64) -> BigUint {
        big(v as nat)
    }
}

impl core::convert::From<u64> for BigUint {
    #[verifier::external_body]
    fn from(v: u64) -> BigUint {
        unimplemented!()
    }
}

impl BigUint {
    /// `+=`
    #[verifier::external_body]
    pub fn vx_add_assign(&mut self, o: BigUint)
        ensures
            final(self)@ == old(self)@ + o@,
            *final(self) == big(old(self)@ + o@),
    {
        unimplemented!()
    }

    /// `-=`: num-bigint panics when the result would be negative
    #[verifier::external_body]
    pub fn vx_sub_assign(&mut self, o: BigUint)
        requires
            o@ <= old(self)@,
        ensures
            final(self)@ == old(self)@ - o@,
            *final(self) == big((old(self)@ - o@) as nat),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn from_bytes_be(b: &[u8]) -> (r: BigUint)
        ensures
            r == big(be_nat(b@)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn to_bytes_be(&self) -> (r: Vec<u8>)
        ensures
            r@ == nat_be(self@),
            be_nat(r@) == self@,
    {
        unimplemented!()
    }
}

/// The natural number a big-endian byte string denotes.
pub open spec fn be_nat(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else {
        256 * be_nat(s.drop_last()) + s.last() as nat
    }
}

pub uninterp spec fn nat_be(n: nat) -> Seq<u8>;

pub axiom fn nat_be_ok(n: nat)
    ensures
        be_nat(nat_be(n)) == n,
;

// ------------------------------------------------------------------ small vectors
#[verifier::external_body]
pub fn vx_vec1<T>(a: T) -> (r: Vec<T>)
    ensures
        r@ == seq![a],
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_vec2<T>(a: T, b: T) -> (r: Vec<T>)
    ensures
        r@ == seq![a, b],
{
    unimplemented!()
}

} // verus!
