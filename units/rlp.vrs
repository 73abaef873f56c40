verus! {

// ------------------------------------------------------------------ the rlp crate, by contract
// A value is encoded to an item, an item to bytes.  `item_of` is what the crate reads back from bytes it
// wrote; nothing is said about other bytes except that no function panics on them (only decode_list,
// which does, has a precondition).
pub mod rlp {
    use super::*;

    pub enum Item {
        Data(Seq<u8>),
        List(Seq<Item>),
    }

    pub enum DecoderError {
        RlpIsTooBig,
        RlpIsTooShort,
        RlpExpectedToBeList,
        RlpExpectedToBeData,
        RlpIncorrectListLen,
        RlpDataLenWithZeroPrefix,
        RlpListLenWithZeroPrefix,
        RlpInvalidIndirection,
        RlpInconsistentLengthAndData,
        RlpInvalidLength,
        Custom(&'static str),
    }

    /// The item these bytes are the encoding of, if any.
    pub uninterp spec fn item_of(b: Seq<u8>) -> Option<Item>;

    /// The shortest big-endian encoding of a number, empty for 0.
    pub uninterp spec fn min_be(n: nat) -> Seq<u8>;

    pub open spec fn num(n: nat) -> Item {
        Item::Data(min_be(n))
    }

    pub trait AsItem: Sized {
        /// How a value is laid out.
        spec fn item(&self) -> Item;

        /// What the decoder can give back.
        spec fn iwf(&self) -> bool;
    }

    pub open spec fn items<T: AsItem>(s: Seq<T>) -> Seq<Item> {
        s.map_values(|x: T| x.item())
    }

    /// Whether each element is one the decoder can give back.
    pub open spec fn all_wf<T: AsItem>(s: Seq<T>) -> bool {
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).iwf()
    }

    // -------------------------------------------------------------- writing
    /// An unfinished list waits for n items; a finished one is an item of the list around it.
    pub enum Stk {
        Out(Seq<Item>),
        In { n: nat, got: Seq<Item>, rest: Box<Stk> },
    }

    pub open spec fn put(s: Stk, i: Item) -> Stk
        decreases s,
    {
        match s {
            Stk::Out(o) => Stk::Out(o.push(i)),
            Stk::In { n, got, rest } => if got.len() + 1 == n {
                put(*rest, Item::List(got.push(i)))
            } else {
                Stk::In { n, got: got.push(i), rest }
            },
        }
    }

    pub open spec fn open_list(s: Stk, n: nat) -> Stk {
        if n == 0 {
            put(s, Item::List(Seq::empty()))
        } else {
            Stk::In { n, got: Seq::empty(), rest: Box::new(s) }
        }
    }

    pub struct RlpStream {
        pub k: Ghost<Stk>,
    }

    impl RlpStream {
        #[verifier::external_body]
        pub fn begin_list(&mut self, len: usize) -> (r: &mut RlpStream)
            ensures
                r.k@ == open_list(old(self).k@, len as nat),
                *final(self) == *final(r),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn append<E: Encodable>(&mut self, value: &E) -> (r: &mut RlpStream)
            ensures
                r.k@ == put(old(self).k@, value.item()),
                *final(self) == *final(r),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn append_list<E: Encodable, K: Borrowed<E>>(&mut self, values: &Vec<K>) -> (r: &mut RlpStream)
            ensures
                r.k@ == put(old(self).k@, Item::List(items(lent(values@)))),
                *final(self) == *final(r),
        {
            unimplemented!()
        }
    }

    /// `Borrow<E>` for E itself.
    pub trait Borrowed<E> {
        spec fn lend(&self) -> E;
    }

    impl<T> Borrowed<T> for T {
        open spec fn lend(&self) -> T {
            *self
        }
    }

    pub open spec fn lent<E, K: Borrowed<E>>(s: Seq<K>) -> Seq<E> {
        s.map_values(|x: K| x.lend())
    }

    pub trait Encodable: AsItem {
        fn rlp_append(&self, s: &mut RlpStream)
            ensures
                final(s).k@ == put(old(s).k@, self.item()),
        ;
    }

    #[verifier::external_body]
    pub fn encode<E: Encodable>(object: &E) -> (r: Vec<u8>)
        ensures
            item_of(r@) == Some(object.item()),
    {
        unimplemented!()
    }

    // -------------------------------------------------------------- reading
    pub struct Rlp<'a> {
        pub b: &'a [u8],
    }

    impl<'a> Rlp<'a> {
        pub open spec fn it(&self) -> Option<Item> {
            item_of(self.b@)
        }

        /// Element k of a list.
        pub open spec fn nth(&self, k: int) -> Option<Item> {
            match self.it() {
                Some(Item::List(s)) => if 0 <= k < s.len() { Some(s[k]) } else { None },
                _ => None,
            }
        }

        #[verifier::external_body]
        pub fn is_list(&self) -> (r: bool)
            ensures
                self.it() is Some ==> r == (self.it()->0 is List),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn size(&self) -> (r: usize) {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn at(&self, k: usize) -> (r: Result<Rlp<'a>, DecoderError>)
            ensures
                self.nth(k as int) is Some ==> r is Ok && r->Ok_0.it() == self.nth(k as int),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn as_raw(&self) -> (r: &'a [u8])
            ensures
                r@ == self.b@,
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn data(&self) -> (r: Result<&'a [u8], DecoderError>)
            ensures
                self.it() is Some && self.it()->0 is Data ==> r is Ok && r->Ok_0@ == self.it()->0->Data_0,
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn as_val<T: Decodable>(&self) -> (r: Result<T, DecoderError>)
            ensures
                forall|x: T| x.iwf() && self.it() == Some(#[trigger] x.item()) ==> r == Ok::<T, DecoderError>(x),
        {
            unimplemented!()
        }

        #[verifier::external_body]
        pub fn as_list<T: Decodable>(&self) -> (r: Result<Vec<T>, DecoderError>)
            ensures
                forall|v: Seq<T>| all_wf(v) && self.it() == Some(Item::List(#[trigger] items(v))) ==> r is Ok && r->Ok_0@ == v,
        {
            unimplemented!()
        }
    }

    pub trait Decodable: AsItem {
        fn decode(r: &Rlp) -> (res: Result<Self, DecoderError>)
            ensures
                forall|x: Self| x.iwf() && r.it() == Some(#[trigger] x.item()) ==> res == Ok::<Self, DecoderError>(x),
        ;
    }

    #[verifier::external_body]
    pub fn decode<T: Decodable>(bytes: &[u8]) -> (res: Result<T, DecoderError>)
        ensures
            forall|x: T| x.iwf() && item_of(bytes@) == Some(#[trigger] x.item()) ==> res == Ok::<T, DecoderError>(x),
    {
        unimplemented!()
    }

    /// Panics unless the bytes are a list of decodable elements.
    #[verifier::external_body]
    pub fn decode_list<T: Decodable>(bytes: &[u8]) -> (res: Vec<T>)
        requires
            exists|v: Seq<T>| all_wf(v) && item_of(bytes@) == Some(Item::List(#[trigger] items(v))),
        ensures
            forall|v: Seq<T>| all_wf(v) && item_of(bytes@) == Some(Item::List(#[trigger] items(v))) ==> res@ == v,
    {
        unimplemented!()
    }

    // -------------------------------------------------------------- what the crate encodes itself
    impl AsItem for u8 {
        open spec fn item(&self) -> Item {
            num(*self as nat)
        }

        open spec fn iwf(&self) -> bool {
            true
        }
    }

    impl AsItem for u64 {
        open spec fn item(&self) -> Item {
            num(*self as nat)
        }

        open spec fn iwf(&self) -> bool {
            true
        }
    }

    impl<'a> AsItem for &'a [u8] {
        open spec fn item(&self) -> Item {
            Item::Data(self@)
        }

        open spec fn iwf(&self) -> bool {
            true
        }
    }

    impl AsItem for Vec<u8> {
        open spec fn item(&self) -> Item {
            Item::Data(self@)
        }

        open spec fn iwf(&self) -> bool {
            true
        }
    }

    impl AsItem for String {
        open spec fn item(&self) -> Item {
            Item::Data(utf8(self@))
        }

        open spec fn iwf(&self) -> bool {
            true
        }
    }

    impl<'a> AsItem for &'a str {
        open spec fn item(&self) -> Item {
            Item::Data(utf8(self@))
        }

        open spec fn iwf(&self) -> bool {
            true
        }
    }

    impl AsItem for Bloom {
        open spec fn item(&self) -> Item {
            Item::Data(self.b@)
        }

        open spec fn iwf(&self) -> bool {
            self.b@.len() == 256
        }
    }

    macro_rules! ext_enc {
        ($($t:ty),*) => { verus!{ $(
            impl Encodable for $t {
                #[verifier::external_body]
                fn rlp_append(&self, s: &mut RlpStream) { unimplemented!() }
            }
        )* } };
    }
    macro_rules! ext_dec {
        ($($t:ty),*) => { verus!{ $(
            impl Decodable for $t {
                #[verifier::external_body]
                fn decode(r: &Rlp) -> Result<Self, DecoderError> { unimplemented!() }
            }
        )* } };
    }
    ext_enc!(u8, u64, &[u8], Vec<u8>, String, &str, Bloom);
    ext_dec!(u8, u64, Vec<u8>, String, Bloom);
}

} // verus!
