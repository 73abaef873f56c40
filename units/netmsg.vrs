//@include endpoint.vrs assume
//@type "Arc<AtomicU64>" => "Counter"
//@type "Arc<RwLock<HashMap<Key,BackSender>>>" => "Table"
//@type "Arc<RpcMap>" => "RpcMap"
//@type "Box<Arc<dynAny+Send+Sync+'static>>" => "AnySender"
//@type "Arc<Sender<T>>" => "Shared<Sender<T>>"
//@type "Arc<Box<dynMessageHandler<Message=M>>>" => "Handler<M>"
//@type "Arc<RwLock<HashMap<Endpoint,UnboundedSender<SessionMessage>>>>" => "Reactors"
//@path Arc::new => Shared::new
//@path Box::new => VxBox::vx_box
//@path Arc::try_unwrap => Shared::try_unwrap
//@path oneshot::channel => vx_channel
//@path bincode::serialize => vx_bin_write
//@path bincode::deserialize::<T> => vx_bin_read::<T>
//@path de::Error::custom => SerError::custom
//@path ser::Error::custom => SerError::custom
//@path Default::default => Table::empty
//@path AtomicU64::new => vx_number
//@path bytes.as_ref => vx_as_ref
//@cell self.map -
//@cell self.reactor_map -
//@cell reactor_map -
//@heapfn self.map.contains_key net
//@heapfn self.map.insert net
//@heapfn self.map.remove net
//@heapfn self.map.next_rpc_id net
//@heapfn rpc_map.take net
//@heapfn self.next_id.fetch_add net
//@heapfn vx_channel net
//@heapfn send net
//@heapfn users_send net
//@heapfn handler.process net
//@heapfn *.unbounded_send net
//@path io::copy => vx_copy
//@path io::Error::new => IoError::other
//@path io::ErrorKind::Other => IoKind::Other
//@path snap::Writer::new => SnapWriter::on
//@path snap::Reader::new => SnapReader::on
//@type "io::ErrorKind" => "IoKind"
//@dropped snap::Writer::new
//@method to_vec => vx_to_vec
//@method as_ref => vx_as_ref
verus! {

// ------------------------------------------------------------------ what the network does, as ghost state
/// A value of any type.
pub struct AnyVal {
    pub k: int,
}

pub uninterp spec fn any_of<T>(t: T) -> AnyVal;

pub uninterp spec fn as_any<T>(a: AnyVal) -> Option<T>;

/// The type T, as a value.
pub uninterp spec fn tid<T>() -> int;

pub axiom fn any_back<T>(t: T)
    ensures
        as_any::<T>(any_of::<T>(t)) == Some(t),
;

/// One waiting call: the type of answer it waits for and the channel the answer goes to.
pub struct Waiting {
    pub ty: int,
    pub chan: int,
}

//@item core/network/src/rpc_map.rs struct Key

//@item protocol/src/traits/network.rs enum Priority

/// tentacle::service::TargetSession
pub enum TargetSession {
    All,
    Single(SessionId),
    Multi(Vec<SessionId>),
}

/// creep::Context: values of any type under names
pub struct Context {
    pub m: Ghost<Map<Seq<char>, AnyVal>>,
}

impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Context)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Context {
    #[verifier::external_body]
    pub fn new() -> (r: Context)
        ensures
            r.m@ == Map::<Seq<char>, AnyVal>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn with_value<V>(&self, k: &str, v: V) -> (r: Context)
        ensures
            r.m@ == self.m@.insert(k@, any_of::<V>(v)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get<V>(&self, k: &str) -> (r: Option<&V>)
        ensures
            r is Some <==> self.m@.contains_key(k@) && as_any::<V>(self.m@[k@]) is Some,
            r is Some ==> as_any::<V>(self.m@[k@]) == Some(*r->0),
    {
        unimplemented!()
    }
}

/// Everything the network code can change or has done so far.
pub struct Net {
    /// the id counters
    pub ids: Map<int, u64>,
    /// the tables of waiting calls
    pub tables: Map<int, Map<Key, Waiting>>,
    /// channels handed out so far
    pub chans: int,
    /// messages given to the connection service
    pub sent: Seq<(TargetSession, Seq<u8>, Priority)>,
    /// answers put into channels
    pub answers: Seq<(int, AnyVal)>,
    /// messages sent to users
    pub cast: Seq<(Seq<UserAddress>, Seq<u8>, Priority)>,
    /// messages put into channels of reactors
    pub routed: Seq<(int, AnyVal)>,
    /// messages given to handlers
    pub handled: Seq<(Context, AnyVal)>,
}

pub struct Ordering;

impl Ordering {
    pub const SeqCst: Ordering = Ordering;
    pub const Relaxed: Ordering = Ordering;
    pub const Acquire: Ordering = Ordering;
    pub const Release: Ordering = Ordering;
    pub const AcqRel: Ordering = Ordering;
}

/// Arc<AtomicU64>
pub struct Counter {
    pub id: Ghost<int>,
}

impl Counter {
    /// The addition wraps around.
    #[verifier::external_body]
    pub fn fetch_add(&self, n: u64, o: Ordering, net: &mut Net) -> (r: u64)
        ensures
            r == old(net).ids[self.id@],
            *final(net) == (Net { ids: old(net).ids.insert(self.id@, ((r + n) % 0x1_0000_0000_0000_0000) as u64), ..*old(net) }),
    {
        unimplemented!()
    }
}

/// Arc<RwLock<HashMap<Key, BackSender>>>
pub struct Table {
    pub id: Ghost<int>,
}

/// Box<Arc<dyn Any>> around the sending end of a channel
pub struct AnySender {
    pub w: Ghost<Waiting>,
}

//@item core/network/src/rpc_map.rs struct BackSender
//@item core/network/src/rpc_map.rs struct RpcMap need:Default

impl Clone for RpcMap {
    /// Another handle of the same table.
    #[verifier::external_body]
    fn clone(&self) -> (r: RpcMap)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Table {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &Key, net: &mut Net) -> (r: bool)
        ensures
            r == old(net).tables[self.id@].contains_key(*k),
            *final(net) == *old(net),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&self, k: Key, v: BackSender, net: &mut Net) -> (r: Option<BackSender>)
        ensures
            *final(net) == (Net { tables: old(net).tables.insert(self.id@, old(net).tables[self.id@].insert(k, v.0.w@)), ..*old(net) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&self, k: &Key, net: &mut Net) -> (r: Option<BackSender>)
        ensures
            r is Some <==> old(net).tables[self.id@].contains_key(*k),
            r is Some ==> (r->0).0.w@ == old(net).tables[self.id@][*k],
            *final(net) == (if old(net).tables[self.id@].contains_key(*k) {
                Net { tables: old(net).tables.insert(self.id@, old(net).tables[self.id@].remove(*k)), ..*old(net) }
            } else { *old(net) }),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ channels
pub struct Sender<T> {
    pub chan: Ghost<int>,
    pub t: Ghost<Option<T>>,
}

pub struct Receiver<T> {
    pub chan: Ghost<int>,
    pub t: Ghost<Option<T>>,
}

pub struct Canceled;

/// The value came out of the channel, so it was put in.
pub uninterp spec fn arrived<T>(chan: int, t: T) -> bool;

/// futures::channel::oneshot::channel: a new channel
#[verifier::external_body]
pub fn vx_channel<T>(net: &mut Net) -> (r: (Sender<T>, Receiver<T>))
    ensures
        r.0.chan@ == old(net).chans,
        r.1.chan@ == old(net).chans,
        *final(net) == (Net { chans: old(net).chans + 1, ..*old(net) }),
{
    unimplemented!()
}

impl<T> Sender<T> {
    #[verifier::external_body]
    pub fn send(self, t: T, net: &mut Net) -> (r: Result<(), T>)
        ensures
            r is Ok ==> *final(net) == (Net { answers: old(net).answers.push((self.chan@, any_of::<T>(t))), ..*old(net) }),
            r is Err ==> *final(net) == *old(net),
    {
        unimplemented!()
    }
}

impl<T> Receiver<T> {
    /// `.map_err(f).await`; what others do in the meantime is left out
    #[verifier::external_body]
    pub fn vx_map_err<E, F: FnOnce(Canceled) -> E>(self, f: F) -> (r: Result<T, E>)
        ensures
            r is Ok ==> arrived::<T>(self.chan@, r->Ok_0),
    {
        unimplemented!()
    }
}

pub trait VxErrInto<T, E> {
    spec fn as_res(self) -> Result<T, E>;

    fn vx_err_into<F: core::convert::From<E>>(self) -> (r: Result<T, F>)
        ensures
            r is Ok <==> self.as_res() is Ok,
            r is Ok ==> r->Ok_0 == self.as_res()->Ok_0,
    ;
}

impl<T, E> VxErrInto<T, E> for Result<T, E> {
    open spec fn as_res(self) -> Result<T, E> {
        self
    }

    #[verifier::external_body]
    fn vx_err_into<F: core::convert::From<E>>(self) -> (r: Result<T, F>) {
        unimplemented!()
    }
}

/// Arc, where it is never cloned
pub struct Shared<T> {
    pub t: T,
}

impl<T> Shared<T> {
    pub fn new(t: T) -> (r: Shared<T>)
        ensures
            r.t == t,
    {
        Shared { t }
    }

    /// There is no other handle: this type cannot be cloned.
    pub fn try_unwrap(s: Shared<T>) -> (r: Result<T, Shared<T>>)
        ensures
            r == Ok::<T, Shared<T>>(s.t),
    {
        Ok(s.t)
    }
}

/// Box::new, into a trait object
pub trait VxBox: Sized {
    type Out;

    spec fn in_box(self, o: Self::Out) -> bool;

    fn vx_box(self) -> (r: Self::Out)
        ensures
            self.in_box(r),
    ;
}

impl<T> VxBox for Shared<Sender<T>> {
    type Out = AnySender;

    open spec fn in_box(self, r: AnySender) -> bool {
        r.w@.ty == tid::<T>() && r.w@.chan == self.t.chan@
    }

    #[verifier::external_body]
    fn vx_box(self) -> AnySender {
        unimplemented!()
    }
}

impl VxBox for EncodeError {
    type Out = VxCause;

    open spec fn in_box(self, r: VxCause) -> bool {
        true
    }

    #[verifier::external_body]
    fn vx_box(self) -> VxCause {
        unimplemented!()
    }
}

impl VxBox for DecodeError {
    type Out = VxCause;

    open spec fn in_box(self, r: VxCause) -> bool {
        true
    }

    #[verifier::external_body]
    fn vx_box(self) -> VxCause {
        unimplemented!()
    }
}

/// The other half of a sender's type.
pub trait VxSends: Sized {
    spec fn ends(&self) -> int;

    spec fn ty() -> int;
}

impl<T> VxSends for Sender<T> {
    open spec fn ends(&self) -> int {
        self.chan@
    }

    open spec fn ty() -> int {
        tid::<T>()
    }
}

impl AnySender {
    #[verifier::external_body]
    pub fn downcast<S: VxSends>(self) -> (r: Result<Shared<S>, AnySender>)
        ensures
            r is Ok <==> self.w@.ty == S::ty(),
            r is Ok ==> r->Ok_0.t.ends() == self.w@.chan,
    {
        unimplemented!()
    }
}

impl Key {
    /// derive_more::Constructor
    pub fn new(sid: SessionId, rid: u64) -> (r: Key)
        ensures
            r == (Key { sid, rid }),
    {
        Key { sid, rid }
    }
}

impl RpcMap {
    pub open spec fn of(&self, n: Net) -> Map<Key, Waiting> {
        n.tables[self.map.id@]
    }

    pub open spec fn next(&self, n: Net) -> u64 {
        n.ids[self.next_id.id@]
    }

    pub open spec fn with(&self, n: Net, m: Map<Key, Waiting>) -> Net {
        Net { tables: n.tables.insert(self.map.id@, m), ..n }
    }

//@fn core/network/src/rpc_map.rs RpcMap::next_rpc_id
//@. params net: &mut Net
//@. ensures
        r == self.next(*old(net)),
        *final(net) == (Net { ids: old(net).ids.insert(self.next_id.id@, ((r + 1) % 0x1_0000_0000_0000_0000) as u64), ..*old(net) }),
//@end
//@fn core/network/src/rpc_map.rs RpcMap::insert
//@. params net: &mut Net
//@. generics <T>
//@. ensures
        r.chan@ == old(net).chans,
        *final(net) == self.with(Net { chans: old(net).chans + 1, ..*old(net) },
            self.of(*old(net)).insert(Key { sid, rid }, Waiting { ty: tid::<T>(), chan: old(net).chans })),
//@end
//@fn core/network/src/rpc_map.rs RpcMap::take
//@. params net: &mut Net
//@. generics <T>
//@. ensures
        ({
            let k = Key { sid, rid };
            let m = self.of(*old(net));
            &&& r is Ok <==> m.contains_key(k) && m[k].ty == tid::<T>()
            &&& r is Ok ==> r->Ok_0.chan@ == m[k].chan
            &&& *final(net) == (if m.contains_key(k) { self.with(*old(net), m.remove(k)) } else { *old(net) })
        }),
//@end
}


// ------------------------------------------------------------------ who the message is from, which call it answers

//@item core/network/src/traits.rs struct CtxSessionId
//@item core/network/src/traits.rs struct CtxRpcId

impl Context {
    pub open spec fn sid(&self) -> Option<SessionId> {
        if self.m@.contains_key("session_id"@) && as_any::<CtxSessionId>(self.m@["session_id"@]) is Some {
            Some((as_any::<CtxSessionId>(self.m@["session_id"@])->0).0)
        } else {
            None
        }
    }

    pub open spec fn rid(&self) -> Option<u64> {
        if self.m@.contains_key("rpc_id"@) && as_any::<CtxRpcId>(self.m@["rpc_id"@]) is Some {
            Some((as_any::<CtxRpcId>(self.m@["rpc_id"@])->0).0)
        } else {
            None
        }
    }

//@fn core/network/src/traits.rs Context@NetworkContext::session_id
//@. ensures
        r is Ok <==> self.sid() is Some,
        r is Ok ==> self.sid() == Some(r->Ok_0),
//@end
//@fn core/network/src/traits.rs Context@NetworkContext::set_session_id
//@. sig (&self, sid: SessionId) -> (r: Context)
//@. ensures
        r.sid() == Some(sid),
        r.rid() == self.rid(),
//@. at start
        proof {
            any_back::<CtxSessionId>(CtxSessionId(sid));
            lemma_keys();
        }
//@end
//@fn core/network/src/traits.rs Context@NetworkContext::rpc_id
//@. ensures
        r is Ok <==> self.rid() is Some,
        r is Ok ==> self.rid() == Some(r->Ok_0),
//@end
//@fn core/network/src/traits.rs Context@NetworkContext::set_rpc_id
//@. sig (&self, rid: u64) -> (r: Context)
//@. ensures
        r.rid() == Some(rid),
        r.sid() == self.sid(),
//@. at start
        proof {
            any_back::<CtxRpcId>(CtxRpcId(rid));
            lemma_keys();
        }
//@end
}

pub proof fn lemma_keys()
    ensures
        "session_id"@ != "rpc_id"@,
{
    reveal_strlit("session_id");
    reveal_strlit("rpc_id");
    assert("session_id"@.len() != "rpc_id"@.len());
}

// ------------------------------------------------------------------ messages
/// The bincode crate with the serde code of the type: what a value is written as, what is read back.
pub uninterp spec fn bin_write<T>(t: T) -> Seq<u8>;

pub uninterp spec fn bin_read<T>(b: Seq<u8>) -> Option<T>;

pub struct BinError;

#[verifier::external_body]
pub fn vx_bin_write<T>(t: &T) -> (r: Result<Vec<u8>, BinError>)
    ensures
        r is Ok ==> r->Ok_0@ == bin_write::<T>(*t),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_bin_read<T>(b: &[u8]) -> (r: Result<T, BinError>)
    ensures
        r is Ok <==> bin_read::<T>(b@) is Some,
        r is Ok ==> bin_read::<T>(b@) == Some(r->Ok_0),
{
    unimplemented!()
}

pub struct SerdeError(pub VxCause);

impl core::convert::From<SerdeError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: SerdeError) -> ProtocolError {
        unimplemented!()
    }
}

pub trait MessageCodec: Sized {
    spec fn mw(&self) -> Seq<u8>;

    spec fn mr(b: Seq<u8>) -> Option<Self>;

    fn encode(&mut self) -> (r: ProtocolResult<Bytes>)
        ensures
            *final(self) == *old(self),
            r is Ok ==> r->Ok_0@ == old(self).mw(),
    ;

    fn decode(bytes: Bytes) -> (r: ProtocolResult<Self>)
        ensures
            r is Ok <==> Self::mr(bytes@) is Some,
            r is Ok ==> Self::mr(bytes@) == Some(r->Ok_0),
    ;
}

/// What prost makes of a message, and reads back.
pub uninterp spec fn net_wire(m: NetworkMessage) -> Seq<u8>;

pub uninterp spec fn net_read(b: Seq<u8>) -> Option<NetworkMessage>;

pub axiom fn prost_net(m: NetworkMessage)
    ensures
        net_read(net_wire(m)) == Some(m),
;

pub proof fn lemma_prost()
    ensures
        forall|m: NetworkMessage| net_read(#[trigger] net_wire(m)) == Some(m),
{
    assert forall|m: NetworkMessage| net_read(#[trigger] net_wire(m)) == Some(m) by {
        prost_net(m);
    }
}

pub struct EncodeError;

pub struct DecodeError;

//@item core/network/src/message/mod.rs struct NetworkMessage prost
//@item core/network/src/message/mod.rs struct RawSessionMessage
//@item core/network/src/message/mod.rs struct SessionMessage

pub trait Message: Sized {
    fn encoded_len(&self) -> (r: usize);

    fn encode(&self, buf: &mut Vec<u8>) -> (r: Result<(), EncodeError>)
        ensures
            self.wire(final(buf)@.skip(old(buf)@.len() as int)) || r is Err,
            old(buf)@.is_prefix_of(final(buf)@),
            old(buf)@.len() == 0 ==> self.wire(final(buf)@) || r is Err,
    ;

    spec fn wire(&self, b: Seq<u8>) -> bool;

    spec fn unwire(b: Seq<u8>) -> Option<Self>;

    fn decode(b: Bytes) -> (r: Result<Self, DecodeError>)
        ensures
            r is Ok <==> Self::unwire(b@) is Some,
            r is Ok ==> Self::unwire(b@) == Some(r->Ok_0),
    ;
}

impl Message for NetworkMessage {
    #[verifier::external_body]
    fn encoded_len(&self) -> usize {
        unimplemented!()
    }

    open spec fn wire(&self, b: Seq<u8>) -> bool {
        b == net_wire(*self)
    }

    open spec fn unwire(b: Seq<u8>) -> Option<NetworkMessage> {
        net_read(b)
    }

    #[verifier::external_body]
    fn encode(&self, buf: &mut Vec<u8>) -> Result<(), EncodeError> {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode(b: Bytes) -> Result<NetworkMessage, DecodeError> {
        unimplemented!()
    }
}

impl NetworkMessage {
    pub open spec fn says(&self, url: Seq<char>, content: Seq<u8>) -> bool {
        self.url@ == url && self.content@ == content
    }

//@fn core/network/src/message/mod.rs NetworkMessage::new
//@. ensures
        r.says(endpoint.url(), content@),
//@end
//@fn core/network/src/message/mod.rs NetworkMessage::encode
//@. ensures
        r is Ok ==> r->Ok_0@ == net_wire(self),
//@end
//@fn core/network/src/message/mod.rs NetworkMessage::decode
//@. ensures
        r is Ok <==> net_read(bytes@) is Some,
        r is Ok ==> net_read(bytes@) == Some(r->Ok_0),
//@end
}

impl SessionMessage {
    /// derive_more::Constructor
    pub fn new(sid: SessionId, msg: NetworkMessage) -> (r: SessionMessage)
        ensures
            r == (SessionMessage { sid, msg }),
    {
        SessionMessage { sid, msg }
    }
}

// ------------------------------------------------------------------ the way out
/// Compression: what comes out of decompression.
pub uninterp spec fn unzip(b: Seq<u8>) -> Option<Seq<u8>>;

pub trait Compression: Sized {
    fn compress(&self, bytes: Bytes) -> (r: Result<Bytes, NetworkError>)
        ensures
            r is Ok,
            unzip(r->Ok_0@) == Some(bytes@),
    ;

    fn decompress(&self, bytes: Bytes) -> (r: Result<Bytes, NetworkError>)
        ensures
            r is Ok <==> unzip(bytes@) is Some,
            r is Ok ==> unzip(bytes@) == Some(r->Ok_0@),
    ;
}

/// What snap writes for these bytes once its writer is finished.
pub uninterp spec fn zip(b: Seq<u8>) -> Seq<u8>;

/// snap reads back what it wrote.
pub axiom fn snap_back(b: Seq<u8>)
    ensures
        unzip(zip(b)) == Some(b),
;

pub enum IoKind {
    Other,
}

/// std::io::Error
pub struct IoError {
    pub k: int,
}

impl IoError {
    #[verifier::external_body]
    pub fn other(k: IoKind, what: &str) -> (r: IoError) {
        unimplemented!()
    }
}

impl core::convert::From<IoError> for NetworkError {
    #[verifier::external_body]
    fn from(e: IoError) -> (r: NetworkError) {
        unimplemented!()
    }
}

/// std::io::Read: all that is still to come, nothing if it cannot be read to its end.
pub trait VxRead {
    spec fn rest(&self) -> Option<Seq<u8>>;
}

/// std::io::Write into memory: what was written so far.
pub trait VxWrite {
    spec fn had(&self) -> Seq<u8>;

    /// What the writer keeps besides.
    spec fn aside(&self) -> Seq<u8>;
}

impl<'a> VxRead for &'a [u8] {
    open spec fn rest(&self) -> Option<Seq<u8>> {
        Some(self@)
    }
}

impl VxWrite for Vec<u8> {
    open spec fn had(&self) -> Seq<u8> {
        self@
    }

    open spec fn aside(&self) -> Seq<u8> {
        Seq::empty()
    }
}

impl VxLen for Bytes {
    open spec fn size(&self) -> nat {
        self@.len()
    }

    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) {
        unimplemented!()
    }
}

/// std::io::copy, between memory and memory.
#[verifier::external_body]
pub fn vx_copy<R: VxRead, W: VxWrite>(r: &mut R, w: &mut W) -> (n: Result<u64, IoError>)
    ensures
        n is Ok <==> old(r).rest() is Some,
        final(w).aside() == old(w).aside(),
        n is Ok ==> final(w).had() == old(w).had() + old(r).rest()->0 && n->Ok_0 == old(r).rest()->0.len(),
{
    unimplemented!()
}

/// snap::Writer on a vector: what it was given is written when it is dropped.
pub struct SnapWriter {
    pub before: Ghost<Seq<u8>>,
    pub given: Ghost<Seq<u8>>,
}

impl VxWrite for SnapWriter {
    open spec fn had(&self) -> Seq<u8> {
        self.given@
    }

    open spec fn aside(&self) -> Seq<u8> {
        self.before@
    }
}

impl SnapWriter {
    #[verifier::external_body]
    pub fn on(v: Vec<u8>) -> (r: SnapWriter)
        ensures
            r.before@ == v@,
            r.given@ == Seq::<u8>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn write_all<B: VxBytes + ?Sized>(&mut self, b: &B) -> (r: Result<(), IoError>)
        ensures
            r is Ok,
            final(self).given@ == old(self).given@ + b.vb(),
            final(self).before@ == old(self).before@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_drop(self) -> (v: Vec<u8>)
        ensures
            v@ == self.before@ + zip(self.given@),
    {
        unimplemented!()
    }
}

/// snap::Reader on bytes: reads what they unpack to, and fails when they do not.
pub struct SnapReader {
    pub all: Ghost<Seq<u8>>,
}

impl VxRead for SnapReader {
    open spec fn rest(&self) -> Option<Seq<u8>> {
        unzip(self.all@)
    }
}

impl SnapReader {
    #[verifier::external_body]
    pub fn on(v: &[u8]) -> (r: SnapReader)
        ensures
            r.all@ == v@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures
            r is Ok <==> old(self).rest() is Some,
            r is Ok ==> final(v)@ == old(v)@ + old(self).rest()->0,
    {
        unimplemented!()
    }
}

//@item core/network/src/compression/snappy.rs struct Snappy

impl Compression for Snappy {
//@fn core/network/src/compression/snappy.rs Snappy@Compression::compress
//@. nopub
//@. at end
        proof {
            snap_back(bytes@);
            assert(Seq::<u8>::empty() + zip(bytes@) =~= zip(bytes@));
            assert(Seq::<u8>::empty() + bytes@ =~= bytes@);
        }
//@end
//@fn core/network/src/compression/snappy.rs Snappy@Compression::decompress
//@. nopub
//@. at end
        proof {
            if unzip(bytes@) is Some {
                assert(Seq::<u8>::empty() + unzip(bytes@)->0 =~= unzip(bytes@)->0);
            }
        }
//@end
}

pub trait MessageSender: Sized {
    fn send(&self, tar: TargetSession, msg: Bytes, pri: Priority, net: &mut Net) -> (r: Result<(), NetworkError>)
        ensures
            r is Ok ==> *final(net) == (Net { sent: old(net).sent.push((tar, msg@, pri)), ..*old(net) }),
            r is Err ==> *final(net) == *old(net),
    ;

    fn users_send(&self, users: Vec<UserAddress>, msg: Bytes, pri: Priority, net: &mut Net) -> (r: Result<(), NetworkError>)
        ensures
            r is Ok ==> *final(net) == (Net { cast: old(net).cast.push((users@, msg@, pri)), ..*old(net) }),
            r is Err ==> *final(net) == *old(net),
    ;
}

/// The bytes carry exactly this message for this url.
pub open spec fn carries(b: Seq<u8>, url: Seq<char>, content: Seq<u8>) -> bool {
    &&& unzip(b) is Some
    &&& net_read(unzip(b)->0) is Some
    &&& net_read(unzip(b)->0)->0.says(url, content)
}

/// Exactly this was sent, nothing else happened.
pub open spec fn sends(a: Net, b: Net, tar: TargetSession, url: Seq<char>, content: Seq<u8>, pri: Priority) -> bool {
    exists|m: Seq<u8>| #![trigger unzip(m)] carries(m, url, content) && b == (Net { sent: a.sent.push((tar, m, pri)), ..a })
}

//@item core/network/src/outbound/rpc.rs struct NetworkRpc

impl<S: MessageSender, C: Compression> NetworkRpc<S, C> {
//@fn core/network/src/outbound/rpc.rs NetworkRpc@-::send
//@. params net: &mut Net
//@. nopub
//@. ensures
        r is Ok ==> exists|m: Seq<u8>| unzip(m) == Some(msg@)
            && *final(net) == (Net { sent: old(net).sent.push((TargetSession::Single(s), m, p)), ..*old(net) }),
        r is Err ==> *final(net) == *old(net),
//@end
}

/// What a call does: it waits under a new id, then exactly one message is sent, to the session of the call.
pub open spec fn waiting(map: RpcMap, a: Net, sid: SessionId, ty: int) -> Net {
    let rid = map.next(a);
    map.with(Net { ids: a.ids.insert(map.next_id.id@, ((rid + 1) % 0x1_0000_0000_0000_0000) as u64), chans: a.chans + 1, ..a },
        map.of(a).insert(Key { sid, rid }, Waiting { ty, chan: a.chans }))
}

/// Every waiting call has an id that was handed out.
pub open spec fn handed_out(map: RpcMap, n: Net) -> bool {
    forall|k: Key| #[trigger] map.of(n).contains_key(k) ==> k.rid < map.next(n)
}

pub open spec fn extended(url: Seq<char>, rid: u64) -> Seq<char> {
    url + seq!['/'] + no_slash(dec(rid as nat))
}

impl<S: MessageSender, C: Compression> NetworkRpc<S, C> {
//@fn core/network/src/outbound/rpc.rs NetworkRpc@Rpc::call
//@. params net: &mut Net
//@. nopub
//@. rename map_err => vx_map_err
//@. rename err_into => vx_err_into
//@. ensures
        r is Ok ==> cx.sid() is Some
            && sends(waiting(self.map, *old(net), cx.sid()->0, tid::<R>()), *final(net), TargetSession::Single(cx.sid()->0), extended(end@, self.map.next(*old(net))), msg.mw(), p)
            && arrived::<R>(old(net).chans, r->Ok_0),
        r is Err ==> *final(net) == *old(net) || cx.sid() is Some && ({
            let mid = waiting(self.map, *old(net), cx.sid()->0, tid::<R>());
            *final(net) == mid
                || sends(mid, *final(net), TargetSession::Single(cx.sid()->0), extended(end@, self.map.next(*old(net))), msg.mw(), p)
        }),
//@. at start
        proof {
            lemma_prost();
        }
//@end
//@fn core/network/src/outbound/rpc.rs NetworkRpc@Rpc::response
//@. params net: &mut Net
//@. nopub
//@. ensures
        r is Ok ==> cx.sid() is Some && cx.rid() is Some
            && sends(*old(net), *final(net), TargetSession::Single(cx.sid()->0), extended(end@, cx.rid()->0), msg.mw(), p),
        r is Err ==> *final(net) == *old(net),
//@. at start
        proof {
            lemma_prost();
        }
//@end
}

//@item core/network/src/outbound/gossip.rs struct NetworkGossip

impl<S: MessageSender, C: Compression> NetworkGossip<S, C> {
//@fn core/network/src/outbound/gossip.rs NetworkGossip::package_message
//@. nopub
//@. ensures
        r is Ok ==> carries(r->Ok_0@, end@, msg.mw()),
//@. at start
        proof {
            lemma_prost();
        }
//@end
//@fn core/network/src/outbound/gossip.rs NetworkGossip@-::send
//@. params net: &mut Net
//@. nopub
//@. ensures
        r is Ok ==> *final(net) == (Net { sent: old(net).sent.push((tar, msg@, pri)), ..*old(net) }),
        r is Err ==> *final(net) == *old(net),
//@end
//@fn core/network/src/outbound/gossip.rs NetworkGossip::users_send
//@. params net: &mut Net
//@. nopub
//@. ensures
        r is Ok ==> *final(net) == (Net { cast: old(net).cast.push((users@, msg@, pri)), ..*old(net) }),
        r is Err ==> *final(net) == *old(net),
//@end
//@fn core/network/src/outbound/gossip.rs NetworkGossip@Gossip::broadcast
//@. params net: &mut Net
//@. nopub
//@. ensures
        r is Ok ==> sends(*old(net), *final(net), TargetSession::All, end@, msg.mw(), p),
        r is Err ==> *final(net) == *old(net),
//@end
//@fn core/network/src/outbound/gossip.rs NetworkGossip@Gossip::users_cast
//@. params net: &mut Net
//@. nopub
//@. ensures
        r is Ok ==> exists|m: Seq<u8>| #![trigger unzip(m)] carries(m, end@, msg.mw())
            && *final(net) == (Net { cast: old(net).cast.push((users@, m, p)), ..*old(net) }),
        r is Err ==> *final(net) == *old(net),
//@end
}

// ------------------------------------------------------------------ the way in
/// Arc<Box<dyn MessageHandler<Message = M>>>
pub struct Handler<M> {
    pub m: Ghost<Option<M>>,
}

impl<M> Clone for Handler<M> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Handler<M>)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl<M> Handler<M> {
    #[verifier::external_body]
    pub fn process(&self, ctx: Context, msg: M, net: &mut Net) -> (r: ProtocolResult<()>)
        ensures
            *final(net) == (Net { handled: old(net).handled.push((ctx, any_of::<M>(msg))), ..*old(net) }),
    {
        unimplemented!()
    }
}

pub struct UnboundedReceiver<T> {
    pub t: Ghost<Option<T>>,
}

pub struct UnboundedSender<T> {
    pub chan: Ghost<int>,
    pub t: Ghost<Option<T>>,
}

impl<T> Clone for UnboundedSender<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: UnboundedSender<T>)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

pub struct SendError;

impl<T> UnboundedSender<T> {
    #[verifier::external_body]
    pub fn unbounded_send(&self, t: T, net: &mut Net) -> (r: Result<(), SendError>)
        ensures
            r is Ok ==> *final(net) == (Net { routed: old(net).routed.push((self.chan@, any_of::<T>(t))), ..*old(net) }),
            r is Err ==> *final(net) == *old(net),
    {
        unimplemented!()
    }
}

/// RwLock<HashMap<Endpoint, UnboundedSender<SessionMessage>>>; equality and hash of an endpoint are
/// those of its root (Endpoint::eq, Endpoint::hash).
pub struct Reactors {
    pub m: Ghost<Map<Seq<char>, UnboundedSender<SessionMessage>>>,
}

impl Clone for Reactors {
    #[verifier::external_body]
    fn clone(&self) -> (r: Reactors)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Reactors {
    #[verifier::external_body]
    pub fn insert(&mut self, e: Endpoint, tx: UnboundedSender<SessionMessage>) -> (r: Option<UnboundedSender<SessionMessage>>)
        ensures
            final(self).m@ == old(self).m@.insert(root_of(e.url()), tx),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get(&self, e: &Endpoint) -> (r: Option<&UnboundedSender<SessionMessage>>)
        ensures
            r is Some <==> self.m@.contains_key(root_of(e.url())),
            r is Some ==> *r->0 == self.m@[root_of(e.url())],
    {
        unimplemented!()
    }
}

pub trait VxCloned<T>: Sized {
    spec fn dup(self, r: Option<T>) -> bool;

    fn vx_cloned(self) -> (r: Option<T>)
        ensures
            self.dup(r),
    ;
}

impl VxCloned<UnboundedSender<SessionMessage>> for Option<&UnboundedSender<SessionMessage>> {
    open spec fn dup(self, r: Option<UnboundedSender<SessionMessage>>) -> bool {
        &&& r is Some <==> self is Some
        &&& r is Some ==> r->0 == *self->0
    }

    #[verifier::external_body]
    fn vx_cloned(self) -> Option<UnboundedSender<SessionMessage>> {
        unimplemented!()
    }
}

//@item core/network/src/reactor/mod.rs struct Reactor
//@item core/network/src/reactor/router.rs struct MessageRouter

/// What a message does to the waiting calls, the channels and the handlers.
pub open spec fn reacts<M: MessageCodec>(map: RpcMap, a: Net, b: Net, sid: SessionId, m: NetworkMessage) -> bool {
    let url = m.url@;
    let c = M::mr(m.content@);
    if !ep_ok(url) || c is None {
        b == a
    } else if scheme_of(url) == Some(EndpointScheme::Gossip) {
        exists|ctx: Context| #![trigger ctx.sid()] ctx.sid() == Some(sid) && ctx.rid() is None
            && b == (Net { handled: a.handled.push((ctx, any_of::<M>(c->0))), ..a })
    } else if as_u64(tail_of(url)) is None {
        b == a
    } else if scheme_of(url) == Some(EndpointScheme::RpcCall) {
        exists|ctx: Context| #![trigger ctx.sid()] ctx.sid() == Some(sid) && ctx.rid() == as_u64(tail_of(url))
            && b == (Net { handled: a.handled.push((ctx, any_of::<M>(c->0))), ..a })
    } else {
        let k = Key { sid, rid: as_u64(tail_of(url))->0 };
        let t = map.of(a);
        let gone = map.with(a, t.remove(k));
        if !t.contains_key(k) {
            b == a
        } else {
            b == gone || t[k].ty == tid::<M>() && b == (Net { answers: gone.answers.push((t[k].chan, any_of::<M>(c->0))), ..gone })
        }
    }
}

impl<M: MessageCodec> Reactor<M> {
//@fn core/network/src/reactor/mod.rs Reactor::react#async as react_body key Reactor::react#async
//@. sig (handler: Handler<M>, rpc_map: RpcMap, sid: SessionId, net_msg: NetworkMessage, ctx: Context, net: &mut Net) -> (r: ProtocolResult<()>)
//@. requires
        ctx.sid() == Some(sid),
        ctx.rid() is None,
//@. ensures
        reacts::<M>(rpc_map, *old(net), *final(net), sid, net_msg),
//@. at start
        proof {
            lemma_schemes();
        }
//@end
//@fn core/network/src/reactor/mod.rs Reactor::react
//@. sig (&self, smsg: SessionMessage, net: &mut Net)
//@. async Self::react_body(handler, rpc_map, sid, net_msg, ctx, net)
//@. ensures
        reacts::<M>(self.rpc_map, *old(net), *final(net), smsg.sid, smsg.msg),
//@end
}

impl<C: Compression + Clone> MessageRouter<C> {
    pub open spec fn routes(&self) -> Map<Seq<char>, UnboundedSender<SessionMessage>> {
        self.reactor_map.m@
    }

//@fn core/network/src/reactor/router.rs MessageRouter::register_reactor
//@. ensures
        final(self).routes() == old(self).routes().insert(root_of(endpoint.url()), smsg_tx),
        final(self).raw_msg_rx == old(self).raw_msg_rx,
        final(self).compression == old(self).compression,
        final(self).sys_tx == old(self).sys_tx,
//@end
//@fn core/network/src/reactor/router.rs MessageRouter::route_raw_message#async as route_body key MessageRouter::route_raw_message#async
//@. sig (compression: C, raw_msg: RawSessionMessage, reactor_map: Reactors, sys_tx: UnboundedSender<NetworkError>, net: &mut Net) -> (r: Result<(), NetworkError>)
//@. rename cloned => vx_cloned
//@. ensures
        delivers(reactor_map.m@, sys_tx.chan@, *old(net), *final(net), raw_msg),
//@end
//@fn core/network/src/reactor/router.rs MessageRouter::route_raw_message
//@. sig (&self, raw_msg: RawSessionMessage, net: &mut Net)
//@. async Self::route_body(compression, raw_msg, reactor_map, sys_tx, net)
//@. ensures
        delivers(self.routes(), self.sys_tx.chan@, *old(net), *final(net), raw_msg),
//@end
}

/// A message goes, as it is, to the reactor of its endpoint's root and to no other.
pub open spec fn delivers(routes: Map<Seq<char>, UnboundedSender<SessionMessage>>, sys: int, a: Net, b: Net, raw: RawSessionMessage) -> bool {
    let d = unzip(raw.msg@);
    if d is None || net_read(d->0) is None || !ep_ok(net_read(d->0)->0.url@) || !routes.contains_key(root_of(net_read(d->0)->0.url@)) {
        b == a
    } else {
        let m = net_read(d->0)->0;
        let tx = routes[root_of(m.url@)];
        ||| b == (Net { routed: a.routed.push((tx.chan@, any_of::<SessionMessage>(SessionMessage { sid: raw.sid, msg: m }))), ..a })
        ||| b == a
        ||| exists|e: AnyVal| b == (Net { routed: #[trigger] a.routed.push((sys, e)), ..a })
    }
}

// ------------------------------------------------------------------ what is in a message
/// Types with serde code.
pub trait Serialize: Sized {

}

pub trait BinCodec: Sized {
    fn encode(&mut self) -> (r: ProtocolResult<Bytes>)
        ensures
            *final(self) == *old(self),
            r is Ok ==> r->Ok_0@ == bin_write::<Self>(*old(self)),
    ;

    fn decode(bytes: Bytes) -> (r: ProtocolResult<Self>)
        ensures
            r is Ok <==> bin_read::<Self>(bytes@) is Some,
            r is Ok ==> bin_read::<Self>(bytes@) == Some(r->Ok_0),
    ;
}

impl VxBox for BinError {
    type Out = VxCause;

    open spec fn in_box(self, r: VxCause) -> bool {
        true
    }

    #[verifier::external_body]
    fn vx_box(self) -> VxCause {
        unimplemented!()
    }
}

impl<T: Serialize> BinCodec for T {
//@fn protocol/src/traits/network.rs T@MessageCodec::encode
//@. nopub
//@end
//@fn protocol/src/traits/network.rs T@MessageCodec::decode
//@. nopub
//@end
}

/// The wire form of a protocol type (units codec).
pub trait ProtocolCodecSync: Sized {
    spec fn cw(&self) -> Seq<u8>;

    spec fn cr(b: Seq<u8>) -> Option<Self>;

    fn encode_sync(&self) -> (r: ProtocolResult<Bytes>)
        ensures
            r is Ok ==> r->Ok_0@ == self.cw(),
    ;

    fn decode_sync(b: Bytes) -> (r: ProtocolResult<Self>)
        ensures
            r is Ok <==> Self::cr(b@) is Some,
            r is Ok ==> Self::cr(b@) == Some(r->Ok_0),
    ;
}

pub trait SerError: Sized {
    fn custom(e: ProtocolError) -> (r: Self);
}

pub trait Serializer: Sized {
    type Ok;

    type Error: SerError;

    spec fn wrote(b: Seq<u8>, o: Self::Ok) -> bool;

    fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>)
        ensures
            r is Ok ==> Self::wrote(v@, r->Ok_0),
    ;
}

pub trait Visitor: Sized {
    type Value;

    spec fn makes(b: Seq<u8>, v: Self::Value) -> bool;

    fn visit_byte_buf<E: SerError>(self, v: Vec<u8>) -> (r: Result<Self::Value, E>)
        ensures
            r is Ok && Self::makes(v@, r->Ok_0),
    ;
}

pub trait Deserializer: Sized {
    type Error: SerError;

    /// The byte string that comes next.
    spec fn holds(&self) -> Option<Seq<u8>>;

    fn deserialize_byte_buf<V: Visitor>(self, v: V) -> (r: Result<V::Value, Self::Error>)
        ensures
            r is Ok <==> self.holds() is Some,
            r is Ok ==> V::makes(self.holds()->0, r->Ok_0),
    ;
}

//@item core/network/src/message/serde.rs struct BytesVisit

impl Visitor for BytesVisit {
    type Value = Bytes;

    open spec fn makes(b: Seq<u8>, v: Bytes) -> bool {
        v@ == b
    }

//@fn core/network/src/message/serde.rs BytesVisit@Visitor::visit_byte_buf
//@. nopub
//@. generics <E: SerError>
//@. sig (self, v: Vec<u8>) -> (r: Result<Bytes, E>)
//@end
}

//@fn core/network/src/message/serde.rs serialize as serde_out key serde::serialize
//@. generics <T: ProtocolCodecSync, S: Serializer>
//@. sig (val: &T, s: S) -> (r: Result<S::Ok, S::Error>)
//@. ensures
        r is Ok ==> S::wrote(val.cw(), r->Ok_0),
//@end
//@fn core/network/src/message/serde.rs deserialize as serde_in key serde::deserialize
//@. generics <T: ProtocolCodecSync, D: Deserializer>
//@. sig (deserializer: D) -> (r: Result<T, D::Error>)
//@. ensures
        r is Ok <==> deserializer.holds() is Some && T::cr(deserializer.holds()->0) is Some,
        r is Ok ==> T::cr(deserializer.holds()->0) == Some(r->Ok_0),
//@end

// ------------------------------------------------------------------ C24
/// A new call never takes the place of a waiting one, and its id is not handed out again.
pub proof fn c24_fresh(map: RpcMap, a: Net, sid: SessionId, ty: int)
    requires
        handed_out(map, a),
        map.next(a) < u64::MAX,
    ensures
        forall|s: SessionId| !(#[trigger] map.of(a).contains_key(Key { sid: s, rid: map.next(a) })),
        handed_out(map, waiting(map, a, sid, ty)),
        map.next(waiting(map, a, sid, ty)) == map.next(a) + 1,
        map.of(waiting(map, a, sid, ty)) == map.of(a).insert(Key { sid, rid: map.next(a) }, Waiting { ty, chan: a.chans }),
{
    let rid = map.next(a);
    let b = waiting(map, a, sid, ty);
    assert(map.next(b) == rid + 1);
    assert forall|s: SessionId| !(#[trigger] map.of(a).contains_key(Key { sid: s, rid: map.next(a) })) by {
        let k = Key { sid: s, rid: map.next(a) };
        if map.of(a).contains_key(k) {
            assert(k.rid < map.next(a));
        }
    }
}

/// An incoming message takes away at most the call of its own session and id; the answer goes to that
/// call's channel, only if it waits for that type; the second answer finds nothing.
pub proof fn c24_answer<M: MessageCodec>(map: RpcMap, a: Net, b: Net, sid: SessionId, m: NetworkMessage)
    requires
        reacts::<M>(map, a, b, sid, m),
    ensures
        forall|k: Key| #[trigger] map.of(a).contains_key(k) && !map.of(b).contains_key(k)
            ==> k.sid == sid && as_u64(tail_of(m.url@)) == Some(k.rid) && scheme_of(m.url@) == Some(EndpointScheme::RpcResponse),
        forall|k: Key| #[trigger] map.of(b).contains_key(k) ==> map.of(a).contains_key(k) && map.of(b)[k] == map.of(a)[k],
        handed_out(map, a) ==> handed_out(map, b),
        b.sent == a.sent && b.chans == a.chans && b.ids == a.ids,
        b.answers != a.answers ==> {
            let k = Key { sid, rid: as_u64(tail_of(m.url@))->0 };
            &&& map.of(a).contains_key(k)
            &&& map.of(a)[k].ty == tid::<M>()
            &&& b.answers == a.answers.push((map.of(a)[k].chan, any_of::<M>(M::mr(m.content@)->0)))
            &&& !map.of(b).contains_key(k)
        },
{
}

/// A call's own answer finds it.
pub proof fn c24_found<M: MessageCodec>(map: RpcMap, a: Net, sid: SessionId, url: Seq<char>, m: NetworkMessage, b: Net)
    requires
        ep_ok(url),
        comps(url).len() == 3,
        scheme_of(url) == Some(EndpointScheme::RpcResponse),
        blen(url) + 21 <= 120,
        m.url@ == extended(url, map.next(a)),
        M::mr(m.content@) is Some,
        reacts::<M>(map, waiting(map, a, sid, tid::<M>()), b, sid, m),
    ensures
        !map.of(b).contains_key(Key { sid, rid: map.next(a) }),
        b.answers == a.answers || b.answers == a.answers.push((a.chans, any_of::<M>(M::mr(m.content@)->0))),
{
    c23_extend(url, map.next(a));
    let w = waiting(map, a, sid, tid::<M>());
    assert(map.of(w).contains_key(Key { sid, rid: map.next(a) }));
}

// ------------------------------------------------------------------ C25
/// What was framed with an endpoint arrives at the reactor of that endpoint's root, unchanged.
pub proof fn c25_framed(routes: Map<Seq<char>, UnboundedSender<SessionMessage>>, sys: int, a: Net, b: Net, raw: RawSessionMessage, url: Seq<char>, content: Seq<u8>)
    requires
        carries(raw.msg@, url, content),
        delivers(routes, sys, a, b, raw),
        routes.contains_key(root_of(url)),
        ep_ok(url),
    ensures
        b.routed.len() <= a.routed.len() + 1,
        b.handled == a.handled && b.tables == a.tables && b.sent == a.sent,
        exists|m: NetworkMessage| #[trigger] m.says(url, content) && {
            let v = any_of::<SessionMessage>(SessionMessage { sid: raw.sid, msg: m });
            ||| b.routed == a.routed.push((routes[root_of(url)].chan@, v))
            ||| b == a
            ||| exists|e: AnyVal| b.routed == #[trigger] a.routed.push((sys, e))
        },
{
    let m = net_read(unzip(raw.msg@)->0)->0;
    assert(m.says(url, content));
}

/// A value whose serde code reads back what it wrote is handled as it was sent.
pub proof fn c25_value<M: MessageCodec>(map: RpcMap, a: Net, b: Net, sid: SessionId, m: NetworkMessage, url: Seq<char>, v: M)
    requires
        m.says(url, v.mw()),
        M::mr(v.mw()) == Some(v),
        ep_ok(url),
        scheme_of(url) == Some(EndpointScheme::Gossip),
        reacts::<M>(map, a, b, sid, m),
    ensures
        b.handled.len() == a.handled.len() + 1,
        b.handled.drop_last() == a.handled,
        b.handled.last().0.sid() == Some(sid),
        b.handled.last().1 == any_of::<M>(v),
{
    let ctx = choose|ctx: Context| #![trigger ctx.sid()] ctx.sid() == Some(sid) && ctx.rid() is None
            && b == (Net { handled: a.handled.push((ctx, any_of::<M>(v))), ..a });
    assert(b.handled.drop_last() =~= a.handled);
}

} // verus!
