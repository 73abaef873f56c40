//@include netconf.vrs assume
//@type "Box<dynMessageHandler<Message=M>>" => "Handler<M>"
//@type "Arc<Box<dynMessageHandler<Message=M>>>" => "Handler<M>"
//@type "PhantomData<fn()->P>" => "core::marker::PhantomData<P>"
//@type "PhantomData<P>" => "core::marker::PhantomData<P>"
//@type "Compat01As03<Service<ConnectionServiceKeeper>>" => "Service"
//@type "Arc<RwLock<HashMap<Endpoint,UnboundedSender<SessionMessage>>>>" => "Reactors"
//@type "VecDeque<ConnectionEvent>" => "Vec<ConnectionEvent>"
//@type "Box<dynError+Send>" => "VxCause"
//@path unbounded => vx_unbounded
//@path Box::new => vx_dummy
//@path runtime::spawn => vx_spawn
//@path RpcMap::new => vx_rpc_map
//@path AtomicWaker::new => vx_waker
//@path PhantomData => core::marker::PhantomData
//@path ProtocolId::new => vx_pid
//@path Default::default => VxEmpty::vx_empty
//@method into/0 => vx_into
//@method compat/0 => vx_compat
//@method map_err/1 => vx_quiet
//@heapfn vx_unbounded w
//@heapfn vx_spawn w
//@heapfn vx_rpc_map w
//@heapfn vx_waker w
//@heapfn PeerManager::new w
//@heapfn *.poll_next w
//@heapfn *peer_mgr.set_listen w
//@heapfn peer_mgr.listen w
//@macro pin_mut => ()
//@heapfn *.gossip.broadcast w
//@heapfn *.gossip.users_cast w
//@heapfn *.rpc.call w
//@heapfn *.rpc.response w
verus! {

// ------------------------------------------------------------------ what is made and what is put to run
pub struct World {
    /// names given out so far: channels, wakers, maps, peer books
    pub next: int,
    /// what was put to run
    pub conns: Seq<ConnectionService<CoreProtocol>>,
    pub books: Seq<PeerManager>,
    pub routers: Seq<MessageRouter<Snappy>>,
    pub beats: Seq<HeartBeat>,
    pub reactors: Seq<(int, int, int)>,
    /// where each peer book says it listens
    pub listens: Map<int, Multiaddr>,
    /// what the network was asked to send
    pub sent: Seq<Sent>,
    /// errors reported so far and not looked at, and whether somebody still may
    pub errors: nat,
    pub reporters: bool,
}

pub enum Sent {
    Broadcast(ConnectionServiceControl<CoreProtocol>, Context, Seq<char>, int, Priority),
    Cast(ConnectionServiceControl<CoreProtocol>, Context, Seq<char>, Seq<UserAddress>, int, Priority),
    Call(ConnectionServiceControl<CoreProtocol>, RpcMap, Context, Seq<char>, int, Priority),
    Answer(ConnectionServiceControl<CoreProtocol>, RpcMap, Context, Seq<char>, int, Priority),
}

/// futures::channel::mpsc
pub struct UnboundedSender<T> {
    pub id: Ghost<int>,
    pub t: Ghost<Option<T>>,
}

pub struct UnboundedReceiver<T> {
    pub id: Ghost<int>,
    pub t: Ghost<Option<T>>,
}

impl<T> Clone for UnboundedSender<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: UnboundedSender<T>)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl<T> UnboundedSender<T> {
    /// Whether anybody still listens: only said in the log.
    #[verifier::external_body]
    pub fn is_closed(&self) -> (r: bool) {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn vx_unbounded<T>(w: &mut World) -> (r: (UnboundedSender<T>, UnboundedReceiver<T>))
    ensures
        r.0.id@ == old(w).next,
        r.1.id@ == old(w).next,
        *final(w) == (World { next: old(w).next + 1, ..*old(w) }),
{
    unimplemented!()
}

pub struct AtomicWaker {
    pub id: Ghost<int>,
}

#[verifier::external_body]
pub fn vx_waker(w: &mut World) -> (r: AtomicWaker)
    ensures
        r.id@ == old(w).next,
        *final(w) == (World { next: old(w).next + 1, ..*old(w) }),
{
    unimplemented!()
}

/// Which task runs when it is woken: nothing is claimed of it.
pub struct Waker;

pub struct TaskContext;

impl TaskContext {
    #[verifier::external_body]
    pub fn waker(&self) -> &Waker {
        unimplemented!()
    }
}

impl AtomicWaker {
    #[verifier::external_body]
    pub fn register(&self, k: &Waker) {
        unimplemented!()
    }
}

/// The table of waiting calls: C24.
pub struct RpcMap {
    pub id: Ghost<int>,
}

#[verifier::external_body]
pub fn vx_rpc_map(w: &mut World) -> (r: RpcMap)
    ensures
        r.id@ == old(w).next,
        *final(w) == (World { next: old(w).next + 1, ..*old(w) }),
{
    unimplemented!()
}

/// std::sync::atomic::AtomicBool: what it is set to first
pub struct AtomicBool {
    pub b: bool,
}

impl AtomicBool {
    pub fn new(b: bool) -> (r: AtomicBool)
        ensures
            r.b == b,
    {
        AtomicBool { b }
    }
}

/// std::task::Poll
pub enum Poll<T> {
    Ready(T),
    Pending,
}

impl UnboundedReceiver<NetworkError> {
    #[verifier::external_body]
    pub fn poll_next(&mut self, ctx: &mut TaskContext, w: &mut World) -> (r: Poll<Option<NetworkError>>)
        ensures
            *final(self) == *old(self),
            *final(w) == (World { errors: final(w).errors, ..*old(w) }),
            old(w).errors > 0 ==> r is Ready && r->Ready_0 is Some && final(w).errors == old(w).errors - 1,
            old(w).errors == 0 ==> final(w).errors == 0,
            old(w).errors == 0 && old(w).reporters ==> r is Pending,
            old(w).errors == 0 && !old(w).reporters ==> r == Poll::<Option<NetworkError>>::Ready(None),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
pub fn vx_vec4<T>(a: T, b: T, c: T, d: T) -> (r: Vec<T>)
    ensures
        r@ == seq![a, b, c, d],
{
    unimplemented!()
}

// ------------------------------------------------------------------ events
#[derive(Clone, Copy)]
pub enum Priority {
    High,
    Normal,
}

pub struct Context {
    pub k: Ghost<int>,
}

/// What the peer manager is told, what is asked of connections, what arrives: C30, C26, C24.
pub struct PeerManagerEvent;
pub struct ConnectionEvent;
pub struct RawSessionMessage;
pub struct SessionMessage;

// ------------------------------------------------------------------ the peer book
/// C26: its configuration, its ends of the channels, the book itself; and what it was told to do before it ran.
pub struct PeerManager {
    pub config: PeerManagerConfig,
    pub event_rx: UnboundedReceiver<PeerManagerEvent>,
    pub conn_tx: UnboundedSender<ConnectionEvent>,
    pub book: Ghost<int>,
    pub keeps: Ghost<bool>,
    pub loaded: Ghost<bool>,
    pub dials: Ghost<Seq<Peer>>,
}

pub struct PeerManagerHandle {
    pub book: Ghost<int>,
}

copied!(PeerManagerHandle, RpcMap, AtomicWaker, ServiceControl);

impl PeerManager {
    #[verifier::external_body]
    pub fn new(config: PeerManagerConfig, event_rx: UnboundedReceiver<PeerManagerEvent>, conn_tx: UnboundedSender<ConnectionEvent>, w: &mut World) -> (r: PeerManager)
        ensures
            r.config == config,
            r.event_rx == event_rx,
            r.conn_tx == conn_tx,
            r.book@ == old(w).next,
            !r.keeps@,
            !r.loaded@,
            r.dials@ == Seq::<Peer>::empty(),
            !old(w).listens.contains_key(old(w).next),
            *final(w) == (World { next: old(w).next + 1, ..*old(w) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn handle(&self) -> (r: PeerManagerHandle)
        ensures
            r.book@ == self.book@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn enable_persistence(&mut self)
        ensures
            *final(self) == (PeerManager { keeps: Ghost(true), ..*old(self) }),
    {
        unimplemented!()
    }

    /// The real one takes the book by a shared reference; it fills what is behind it.
    #[verifier::external_body]
    pub fn load_peers(&mut self) -> (r: Result<(), NetworkError>)
        ensures
            *final(self) == (PeerManager { loaded: Ghost(old(self).keeps@), ..*old(self) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn bootstrap(&mut self)
        ensures
            *final(self) == (PeerManager { dials: Ghost(old(self).config.bootstraps@), ..*old(self) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn set_listen(&self, a: Multiaddr, w: &mut World)
        ensures
            *final(w) == (World { listens: old(w).listens.insert(self.book@, a), ..*old(w) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn listen(&self, w: &mut World) -> (r: Option<Multiaddr>)
        ensures
            r is Some <==> old(w).listens.contains_key(self.book@),
            r is Some ==> r->0 == old(w).listens[self.book@],
            *final(w) == *old(w),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ the protocols
pub trait VxInto<T>: Sized {
    spec fn as_into(self) -> T;

    fn vx_into(self) -> (r: T)
        ensures
            r == self.as_into(),
    ;
}

impl VxInto<usize> for usize {
    open spec fn as_into(self) -> usize {
        self
    }

    fn vx_into(self) -> (r: usize) {
        self
    }
}

impl VxInto<ProtocolError> for NetworkError {
    uninterp spec fn as_into(self) -> ProtocolError;

    #[verifier::external_body]
    fn vx_into(self) -> (r: ProtocolError) {
        unimplemented!()
    }
}

pub fn vx_pid(n: usize) -> (r: usize)
    ensures
        r == n,
{
    n
}

/// tentacle::service::DialProtocol
pub enum DialProtocol {
    All,
    Single(usize),
    Multi(Vec<usize>),
}

//@item core/network/src/connection/keeper.rs struct ConnectionServiceKeeper
//@item core/network/src/protocols/ping.rs struct PingEventReporter
//@item core/network/src/peer_manager/disc.rs struct AddrReporter
//@item core/network/src/peer_manager/disc.rs struct DiscoveryAddrManager
//@item core/network/src/protocols/transmitter.rs struct Transmitter

pub use ident::IdentifyCallback;

/// tentacle_ping::PingHandler
pub struct PingHandler<R> {
    pub interval: Duration,
    pub timeout: Duration,
    pub reporter: R,
}

impl<R> PingHandler<R> {
    pub fn new(interval: Duration, timeout: Duration, reporter: R) -> (r: PingHandler<R>)
        ensures
            r == (PingHandler { interval, timeout, reporter }),
    {
        PingHandler { interval, timeout, reporter }
    }
}

pub mod tentacle_discovery {
    use super::*;

    pub struct Discovery<M> {
        pub addr_mgr: M,
        pub every: Option<Duration>,
    }

    impl<M> Discovery<M> {
        pub fn new(addr_mgr: M, every: Option<Duration>) -> (r: Discovery<M>)
            ensures
                r == (Discovery { addr_mgr, every }),
        {
            Discovery { addr_mgr, every }
        }

        pub fn global_ip_only(self, b: bool) -> (r: Self)
            ensures
                r == self,
        {
            self
        }
    }

    pub struct DiscoveryProtocol<M> {
        pub d: Discovery<M>,
    }

    impl<M> DiscoveryProtocol<M> {
        pub fn new(d: Discovery<M>) -> (r: DiscoveryProtocol<M>)
            ensures
                r == (DiscoveryProtocol { d }),
        {
            DiscoveryProtocol { d }
        }
    }
}

/// tentacle_identify::IdentifyProtocol
pub struct IdentifyProtocol<C> {
    pub c: C,
}

impl<C> IdentifyProtocol<C> {
    pub fn new(c: C) -> (r: IdentifyProtocol<C>)
        ensures
            r == (IdentifyProtocol { c }),
    {
        IdentifyProtocol { c }
    }

    pub fn global_ip_only(self, b: bool) -> (r: Self)
        ensures
            r == self,
    {
        self
    }
}

pub trait AddressManager {
}

pub trait Callback {
}

impl AddressManager for DiscoveryAddrManager {
}

impl Callback for IdentifyCallback {
}

//@item core/network/src/protocols/ping.rs struct Ping
//@item core/network/src/protocols/discovery.rs struct Discovery
//@item core/network/src/protocols/identify.rs struct Identify
//@item core/network/src/protocols/core.rs const PING_PROTOCOL_ID
//@item core/network/src/protocols/core.rs const IDENTIFY_PROTOCOL_ID
//@item core/network/src/protocols/core.rs const DISCOVERY_PROTOCOL_ID
//@item core/network/src/protocols/core.rs const TRANSMITTER_PROTOCOL_ID

/// tentacle::service::ProtocolMeta: under which number which handler speaks
pub struct ProtocolMeta {
    pub id: usize,
    pub h: Ghost<Speaks>,
}

pub ghost enum Speaks {
    Ping(Ping),
    Identify(IdentifyCallback),
    Discovery(DiscoveryAddrManager, Option<Duration>),
    Raw(Transmitter),
    Other,
}

/// The handler an address manager or a callback stands for.
pub uninterp spec fn as_disc<M>(m: M) -> DiscoveryAddrManager;

pub uninterp spec fn as_ident<C>(c: C) -> IdentifyCallback;

pub broadcast axiom fn as_disc_is(m: DiscoveryAddrManager)
    ensures
        #[trigger] as_disc(m) == m,
;

pub broadcast axiom fn as_ident_is(c: IdentifyCallback)
    ensures
        #[trigger] as_ident(c) == c,
;

/// build_meta hands the handler over inside a closure of tentacle's builder.
impl Ping {
    #[verifier::external_body]
    pub fn build_meta(self, id: usize) -> (r: ProtocolMeta)
        ensures
            r == (ProtocolMeta { id, h: Ghost(Speaks::Ping(self)) }),
    {
        unimplemented!()
    }
}

impl<C> Identify<C> {
    #[verifier::external_body]
    pub fn build_meta(self, id: usize) -> (r: ProtocolMeta)
        ensures
            r == (ProtocolMeta { id, h: Ghost(Speaks::Identify(as_ident(self.inner.c))) }),
    {
        unimplemented!()
    }
}

impl<M> Discovery<M> {
    #[verifier::external_body]
    pub fn build_meta(self, id: usize) -> (r: ProtocolMeta)
        ensures
            r == (ProtocolMeta { id, h: Ghost(Speaks::Discovery(as_disc(self.inner.d.addr_mgr), self.inner.d.every)) }),
    {
        unimplemented!()
    }
}

impl Transmitter {
    #[verifier::external_body]
    pub fn build_meta(self, id: usize) -> (r: ProtocolMeta)
        ensures
            r == (ProtocolMeta { id, h: Ghost(Speaks::Raw(self)) }),
    {
        unimplemented!()
    }

//@fn core/network/src/protocols/transmitter.rs Transmitter::new
//@. ensures
        r.msg_deliver == msg_deliver,
//@end
}

impl ConnectionServiceKeeper {
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper::new
//@. ensures
        r.peer_mgr == peer_mgr,
        r.sys_reporter == sys_reporter,
        !r.sys_shutdown.b,
//@end
}

impl PingEventReporter {
//@fn core/network/src/protocols/ping.rs PingEventReporter::new
//@. ensures
        r.reporter == reporter,
        !r.mgr_shutdown.b,
//@end
}

impl Ping {
//@fn core/network/src/protocols/ping.rs Ping::new
//@. ensures
        r.handler.interval == interval,
        r.handler.timeout == timeout,
        r.handler.reporter.reporter == sender,
        !r.handler.reporter.mgr_shutdown.b,
//@end
}

impl AddrReporter {
//@fn core/network/src/peer_manager/disc.rs AddrReporter::new key disc::AddrReporter::new
//@. ensures
        r.inner == reporter,
        !r.shutdown,
//@end
}

impl DiscoveryAddrManager {
//@fn core/network/src/peer_manager/disc.rs DiscoveryAddrManager::new
//@. ensures
        r.peer_mgr == peer_mgr,
        r.reporter.inner == event_tx,
        !r.reporter.shutdown,
//@end
}

pub mod ident {
    use super::*;

//@item core/network/src/peer_manager/ident.rs struct AddrReporter
//@item core/network/src/peer_manager/ident.rs struct IdentifyCallback

impl AddrReporter {
//@fn core/network/src/peer_manager/ident.rs AddrReporter::new key ident::AddrReporter::new
//@. ensures
        r.inner == reporter,
        !r.shutdown.b,
//@end
}

impl IdentifyCallback {
//@fn core/network/src/peer_manager/ident.rs IdentifyCallback::new
//@. ensures
        r.peer_mgr == peer_mgr,
        r.reporter.inner == event_tx,
        !r.reporter.shutdown.b,
//@end
}

}

impl<M> Discovery<M> {
//@fn core/network/src/protocols/discovery.rs Discovery::new
//@. ensures
        r.inner.d.addr_mgr == addr_mgr,
        r.inner.d.every == Some(sync_interval),
//@end
}

impl<C> Identify<C> {
//@fn core/network/src/protocols/identify.rs Identify::new
//@. ensures
        r.inner.c == callback,
//@end
}

//@item core/network/src/protocols/core.rs struct CoreProtocolBuilder
//@item core/network/src/protocols/core.rs struct CoreProtocol

/// Which handler speaks under which number; of two under one number the later.
pub open spec fn spoken(m: Seq<ProtocolMeta>) -> Map<usize, Speaks>
    decreases m.len(),
{
    if m.len() == 0 {
        Map::empty()
    } else {
        spoken(m.drop_last()).insert(m.last().id, m.last().h@)
    }
}

pub trait NetworkProtocol: Sized {
    spec fn metas_spec(self) -> Seq<ProtocolMeta>;

    fn metas(self) -> (r: Vec<ProtocolMeta>)
        ensures
            r@ == self.metas_spec(),
    ;
}

impl NetworkProtocol for CoreProtocol {
    open spec fn metas_spec(self) -> Seq<ProtocolMeta> {
        self.metas@
    }

//@fn core/network/src/protocols/core.rs CoreProtocol@NetworkProtocol::metas
//@. nopub
//@end
}

impl CoreProtocol {
//@fn core/network/src/protocols/core.rs CoreProtocol@NetworkProtocol::target
//@. ensures
        r is Multi,
        r->Multi_0@ =~= seq![1usize, 2, 3, 4],
//@end
//@fn core/network/src/protocols/core.rs CoreProtocol@NetworkProtocol::message_proto_id
//@. ensures
        r == 4,
//@end
//@fn core/network/src/protocols/core.rs CoreProtocol::build
//@. ensures
        r.ping is None,
        r.identify is None,
        r.discovery is None,
        r.transmitter is None,
//@end
}

impl<M: AddressManager, C: Callback> CoreProtocolBuilder<M, C> {
//@fn core/network/src/protocols/core.rs CoreProtocolBuilder::new
//@. ensures
        r.ping is None,
        r.identify is None,
        r.discovery is None,
        r.transmitter is None,
//@end
//@fn core/network/src/protocols/core.rs CoreProtocolBuilder::ping
//@. ensures
        r == (CoreProtocolBuilder { ping: r.ping, ..self }),
        r.ping is Some,
        r.ping->0.handler.interval == interval,
        r.ping->0.handler.timeout == timeout,
        r.ping->0.handler.reporter.reporter == event_tx,
        !r.ping->0.handler.reporter.mgr_shutdown.b,
//@end
//@fn core/network/src/protocols/core.rs CoreProtocolBuilder::identify
//@. ensures
        r == (CoreProtocolBuilder { identify: r.identify, ..self }),
        r.identify is Some,
        r.identify->0.inner.c == callback,
//@end
//@fn core/network/src/protocols/core.rs CoreProtocolBuilder::discovery
//@. ensures
        r == (CoreProtocolBuilder { discovery: r.discovery, ..self }),
        r.discovery is Some,
        r.discovery->0.inner.d.addr_mgr == addr_mgr,
        r.discovery->0.inner.d.every == Some(sync_interval),
//@end
//@fn core/network/src/protocols/core.rs CoreProtocolBuilder::transmitter
//@. ensures
        r == (CoreProtocolBuilder { transmitter: r.transmitter, ..self }),
        r.transmitter is Some,
        r.transmitter->0.msg_deliver == bytes_tx,
//@end
//@fn core/network/src/protocols/core.rs CoreProtocolBuilder::build key CoreProtocolBuilder::build
//@. requires
        self.ping is Some,
        self.identify is Some,
        self.discovery is Some,
        self.transmitter is Some,
//@. ensures
        spoken(r.metas@) =~= map![
            1usize => Speaks::Ping(self.ping->0),
            2usize => Speaks::Identify(as_ident(self.identify->0.inner.c)),
            3usize => Speaks::Discovery(as_disc(self.discovery->0.inner.d.addr_mgr), self.discovery->0.inner.d.every),
            4usize => Speaks::Raw(self.transmitter->0)
        ],
//@. at end
        proof {
            reveal_with_fuel(spoken, 6);
            let m = __r.metas@;
            assert(m.len() == 4 ==> m.drop_last().drop_last().drop_last().drop_last() =~= Seq::empty());
        }
//@end
}

// ------------------------------------------------------------------ the connection service
/// tentacle::builder::ServiceBuilder and the service it builds
pub struct ServiceBuilder {
    pub key: Ghost<Option<SecioKeyPair>>,
    pub forever: Ghost<bool>,
    pub frame: Ghost<Option<usize>>,
    pub metas: Ghost<Seq<ProtocolMeta>>,
}

pub struct Service {
    pub b: ServiceBuilder,
    pub keeper: ConnectionServiceKeeper,
    pub id: Ghost<int>,
    pub at: Ghost<Seq<Multiaddr>>,
}

/// Its control; a clone controls the same service.
pub struct ServiceControl {
    pub id: Ghost<int>,
}

pub uninterp spec fn service_id(b: ServiceBuilder, k: ConnectionServiceKeeper) -> int;

/// What listen() says.
pub uninterp spec fn may_listen(s: Service, a: Multiaddr) -> bool;

impl ServiceBuilder {
    #[verifier::external_body]
    pub fn default() -> (r: ServiceBuilder)
        ensures
            r.key@ is None,
            !r.forever@,
            r.frame@ is None,
            r.metas@ == Seq::<ProtocolMeta>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn key_pair(self, k: SecioKeyPair) -> (r: Self)
        ensures
            r == (ServiceBuilder { key: Ghost(Some(k)), ..self }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn forever(self, b: bool) -> (r: Self)
        ensures
            r == (ServiceBuilder { forever: Ghost(b), ..self }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn max_frame_length(self, n: usize) -> (r: Self)
        ensures
            r == (ServiceBuilder { frame: Ghost(Some(n)), ..self }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert_protocol(self, m: ProtocolMeta) -> (r: Self)
        ensures
            r == (ServiceBuilder { metas: Ghost(self.metas@.push(m)), ..self }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn build(self, keeper: ConnectionServiceKeeper) -> (r: Service)
        ensures
            r.b == self,
            r.keeper == keeper,
            r.id@ == service_id(self, keeper),
            r.at@ == Seq::<Multiaddr>::empty(),
    {
        unimplemented!()
    }
}

impl Service {
    pub fn vx_compat(self) -> (r: Self)
        ensures
            r == self,
    {
        self
    }

    pub fn get_ref(&self) -> (r: &Service)
        ensures
            *r == *self,
    {
        self
    }

    /// Compat01As03::get_mut
    pub fn get_mut(&mut self) -> (r: &mut Service)
        ensures
            *r == *old(self),
            *final(self) == *final(r),
    {
        self
    }

    #[verifier::external_body]
    pub fn control(&self) -> (r: &ServiceControl)
        ensures
            r.id@ == self.id@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn listen(&mut self, a: Multiaddr) -> (r: Result<Multiaddr, NetworkError>)
        ensures
            r is Ok <==> may_listen(*old(self), a),
            *final(self) == (if r is Ok { Service { at: Ghost(old(self).at@.push(a)), ..*old(self) } } else { *old(self) }),
    {
        unimplemented!()
    }
}

//@item core/network/src/connection/control.rs struct ConnectionServiceControl
//@item core/network/src/connection/mod.rs struct ConnectionService

impl<P: NetworkProtocol> ConnectionServiceControl<P> {
//@fn core/network/src/connection/control.rs ConnectionServiceControl::new
//@. ensures
        r.inner == control,
        r.mgr_tx == mgr_tx,
//@end
//@fn core/network/src/connection/control.rs ConnectionServiceControl@Clone::clone as vx_clone key ConnectionServiceControl::clone
//@. ensures
        r.inner == self.inner,
        r.mgr_tx == self.mgr_tx,
//@end
}

impl<P: NetworkProtocol> Clone for ConnectionServiceControl<P> {
    fn clone(&self) -> (r: Self)
        ensures
            r.inner == self.inner,
            r.mgr_tx == self.mgr_tx,
    {
        self.vx_clone()
    }
}

impl<P: NetworkProtocol> ConnectionService<P> {
//@fn core/network/src/connection/mod.rs ConnectionService::new
//@. ensures
        r.inner.b.key@ == Some(config.secio_keypair),
        r.inner.b.forever@,
        r.inner.b.frame@ == config.max_frame_length,
        spoken(r.inner.b.metas@) == spoken(protocol.metas_spec()),
        r.inner.keeper == keeper,
        r.inner.at@.len() == 0,
        r.event_rx == event_rx,
        r.pending_events@.len() == 0,
//@. at loop:0:before
        let ghost b0 = builder;
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == protocol.metas_spec(),
            b0.metas@.len() == 0,
            builder == (ServiceBuilder { metas: builder.metas, ..b0 }),
            builder.metas@ =~= __it0.s@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
        proof {
            assert(__it0.s@.take(__it0.s@.len() as int) =~= __it0.s@);
        }
//@end
//@fn core/network/src/connection/mod.rs ConnectionService::listen
//@. ensures
        r is Ok <==> may_listen(old(self).inner, address),
        *final(self) == (if r is Ok {
            ConnectionService { inner: Service { at: Ghost(old(self).inner.at@.push(address)), ..old(self).inner }, ..*old(self) }
        } else { *old(self) }),
//@end
//@fn core/network/src/connection/mod.rs ConnectionService::control
//@. ensures
        r.inner.id@ == self.inner.id@,
        r.mgr_tx == mgr_tx,
//@end
}


/// A connection service that listens at one more address.
pub open spec fn listening(cs: ConnectionService<CoreProtocol>, a: Multiaddr) -> ConnectionService<CoreProtocol> {
    ConnectionService { inner: Service { at: Ghost(cs.inner.at@.push(a)), ..cs.inner }, ..cs }
}

// ------------------------------------------------------------------ the heart beat
/// futures_timer::Delay
pub struct Delay {
    pub every: Duration,
}

impl Delay {
    pub fn new(every: Duration) -> (r: Delay)
        ensures
            r == (Delay { every }),
    {
        Delay { every }
    }
}

//@item core/network/src/common.rs struct HeartBeat

impl HeartBeat {
//@fn core/network/src/common.rs HeartBeat::new
//@. ensures
        r.waker == waker,
        r.interval == interval,
        r.delay.every == interval,
//@end

    /// TryFutureExt::map_err: the same future with another error
    pub fn vx_quiet<F: FnOnce(())>(self, f: F) -> (r: Self)
        ensures
            r == self,
    {
        self
    }
}

// ------------------------------------------------------------------ messages
//@item core/network/src/compression/snappy.rs struct Snappy need:Clone

/// Box<dyn MessageHandler>, whichever it is
pub struct Handler<M> {
    pub id: Ghost<int>,
    pub m: Ghost<Option<M>>,
}

pub trait MessageCodec {
}

/// What a message says.
pub uninterp spec fn says<M>(m: M) -> int;

/// What the network answers to its n-th request.
pub uninterp spec fn answer<T>(n: nat) -> T;

/// The table from endpoints to reactors: C24.
pub struct Reactors {
    pub log: Ghost<Seq<(Endpoint, int)>>,
}

impl VxEmpty for Reactors {
    open spec fn is_vx_empty(&self) -> bool {
        self.log@.len() == 0
    }

    #[verifier::external_body]
    fn vx_empty() -> (r: Self) {
        unimplemented!()
    }
}

//@item core/network/src/reactor/router.rs struct MessageRouter
//@item core/network/src/reactor/mod.rs struct Reactor
//@item core/network/src/outbound/gossip.rs struct NetworkGossip
//@item core/network/src/outbound/rpc.rs struct NetworkRpc

impl<C> MessageRouter<C> {
//@fn core/network/src/reactor/router.rs MessageRouter::new
//@. ensures
        r.raw_msg_rx == raw_msg_rx,
        r.compression == compression,
        r.sys_tx == sys_tx,
        r.reactor_map.log@.len() == 0,
//@end

    #[verifier::external_body]
    pub fn register_reactor(&mut self, endpoint: Endpoint, smsg_tx: UnboundedSender<SessionMessage>)
        ensures
            final(self).reactor_map.log@ == old(self).reactor_map.log@.push((endpoint, smsg_tx.id@)),
            final(self).raw_msg_rx == old(self).raw_msg_rx,
            final(self).sys_tx == old(self).sys_tx,
    {
        unimplemented!()
    }
}

impl<S, C> NetworkGossip<S, C> {
//@fn core/network/src/outbound/gossip.rs NetworkGossip::new
//@. ensures
        r.sender == sender,
//@end
}

impl<S, C> NetworkRpc<S, C> {
//@fn core/network/src/outbound/rpc.rs NetworkRpc::new
//@. ensures
        r.sender == sender,
        r.map == map,
//@end
}

/// derive(Clone): field by field
impl<S, C> Clone for NetworkGossip<S, C> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl<S, C> Clone for NetworkRpc<S, C> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

/// What sending does: C25, C24.
impl<C> NetworkGossip<ConnectionServiceControl<CoreProtocol>, C> {
    #[verifier::external_body]
    pub fn broadcast<M>(&self, cx: Context, end: &str, msg: M, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            r == answer::<ProtocolResult<()>>(old(w).sent.len()),
            *final(w) == (World { sent: old(w).sent.push(Sent::Broadcast(self.sender, cx, end@, says(msg), p)), ..*old(w) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn users_cast<M>(&self, cx: Context, end: &str, users: Vec<UserAddress>, msg: M, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            r == answer::<ProtocolResult<()>>(old(w).sent.len()),
            *final(w) == (World { sent: old(w).sent.push(Sent::Cast(self.sender, cx, end@, users@, says(msg), p)), ..*old(w) }),
    {
        unimplemented!()
    }
}

impl<C> NetworkRpc<ConnectionServiceControl<CoreProtocol>, C> {
    #[verifier::external_body]
    pub fn call<M, R>(&self, cx: Context, end: &str, msg: M, p: Priority, w: &mut World) -> (r: ProtocolResult<R>)
        ensures
            r == answer::<ProtocolResult<R>>(old(w).sent.len()),
            *final(w) == (World { sent: old(w).sent.push(Sent::Call(self.sender, self.map, cx, end@, says(msg), p)), ..*old(w) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn response<M>(&self, cx: Context, end: &str, msg: M, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            r == answer::<ProtocolResult<()>>(old(w).sent.len()),
            *final(w) == (World { sent: old(w).sent.push(Sent::Answer(self.sender, self.map, cx, end@, says(msg), p)), ..*old(w) }),
    {
        unimplemented!()
    }
}

pub struct DummyHandler;

impl DummyHandler {
    pub fn new() -> DummyHandler {
        DummyHandler
    }
}

/// The handler of answers, which are taken by the calls that wait for them.
pub uninterp spec fn dummy() -> int;

#[verifier::external_body]
pub fn vx_dummy<M>(d: DummyHandler) -> (r: Handler<M>)
    ensures
        r.id@ == dummy(),
{
    unimplemented!()
}

impl<M> Reactor<M> {
//@fn core/network/src/reactor/mod.rs Reactor::new key Reactor::new
//@. ensures
        r.smsg_rx == smsg_rx,
        r.handler == boxed_handler,
        r.rpc_map == rpc_map,
//@end
//@fn core/network/src/reactor/mod.rs Reactor::rpc_resp
//@. ensures
        r.smsg_rx == smsg_rx,
        r.handler.id@ == dummy(),
        r.rpc_map == rpc_map,
//@end
}

// ------------------------------------------------------------------ what runs
pub trait VxTask: Sized {
    spec fn put(self, w: World) -> World;
}

impl VxTask for ConnectionService<CoreProtocol> {
    open spec fn put(self, w: World) -> World {
        World { conns: w.conns.push(self), ..w }
    }
}

impl VxTask for PeerManager {
    open spec fn put(self, w: World) -> World {
        World { books: w.books.push(self), ..w }
    }
}

impl VxTask for MessageRouter<Snappy> {
    open spec fn put(self, w: World) -> World {
        World { routers: w.routers.push(self), ..w }
    }
}

impl VxTask for HeartBeat {
    open spec fn put(self, w: World) -> World {
        World { beats: w.beats.push(self), ..w }
    }
}

impl<M> VxTask for Reactor<M> {
    open spec fn put(self, w: World) -> World {
        World { reactors: w.reactors.push((self.smsg_rx.id@, self.handler.id@, self.rpc_map.id@)), ..w }
    }
}

#[verifier::external_body]
pub fn vx_spawn<T: VxTask>(t: T, w: &mut World)
    ensures
        *final(w) == t.put(*old(w)),
{
    unimplemented!()
}

// ------------------------------------------------------------------ the network service
//@item core/network/src/service.rs struct NetworkServiceHandle
//@item core/network/src/service.rs enum NetworkConnectionService
//@item core/network/src/service.rs struct NetworkService

impl NetworkServiceHandle {
//@fn core/network/src/service.rs NetworkServiceHandle@Gossip::broadcast
//@. params w: &mut World
//@. ensures
        r == answer::<ProtocolResult<()>>(old(w).sent.len()),
        *final(w) == (World { sent: old(w).sent.push(Sent::Broadcast(self.gossip.sender, cx, end@, says(msg), p)), ..*old(w) }),
//@end
//@fn core/network/src/service.rs NetworkServiceHandle@Gossip::users_cast
//@. params w: &mut World
//@. ensures
        r == answer::<ProtocolResult<()>>(old(w).sent.len()),
        *final(w) == (World { sent: old(w).sent.push(Sent::Cast(self.gossip.sender, cx, end@, users@, says(msg), p)), ..*old(w) }),
//@end
//@fn core/network/src/service.rs NetworkServiceHandle@Rpc::call
//@. params w: &mut World
//@. ensures
        r == answer::<ProtocolResult<R>>(old(w).sent.len()),
        *final(w) == (World { sent: old(w).sent.push(Sent::Call(self.rpc.sender, self.rpc.map, cx, end@, says(msg), p)), ..*old(w) }),
//@end
//@fn core/network/src/service.rs NetworkServiceHandle@Rpc::response
//@. params w: &mut World
//@. ensures
        r == answer::<ProtocolResult<()>>(old(w).sent.len()),
        *final(w) == (World { sent: old(w).sent.push(Sent::Answer(self.rpc.sender, self.rpc.map, cx, end@, says(msg), p)), ..*old(w) }),
//@end
}

/// Nothing but names was given out.
pub open spec fn named_more(a: World, b: World) -> bool {
    &&& b == (World { next: b.next, ..a })
    &&& a.next <= b.next
}

#[verifier::external]
impl core::fmt::Debug for NetworkError {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        unimplemented!()
    }
}

impl NetworkService {
    /// Pin::as_mut
    pub fn as_mut(&mut self) -> (r: &mut NetworkService)
        ensures
            *r == *old(self),
            *final(self) == *final(r),
    {
        self
    }

    /// The one connection service, as it is configured.
    pub open spec fn connects(&self, cs: ConnectionService<CoreProtocol>, pm: PeerManager) -> bool {
        let c = self.config;
        let said = spoken(cs.inner.b.metas@);
        &&& cs.event_rx.id@ == self.conn_tx.id@
        &&& cs.pending_events@.len() == 0
        &&& cs.inner.at@.len() == 0
        &&& cs.inner.keeper.peer_mgr.id@ == self.mgr_tx.id@
        &&& cs.inner.keeper.sys_reporter.id@ == self.sys_rx.id@
        &&& !cs.inner.keeper.sys_shutdown.b
        &&& cs.inner.b.key@ == Some(c.secio_keypair)
        &&& cs.inner.b.frame@ == Some(c.max_frame_length)
        &&& cs.inner.b.forever@
        // four protocols and no more
        &&& said.dom() =~= set![1usize, 2, 3, 4]
        // pings are reported to the peer manager
        &&& said[1] is Ping
        &&& said[1]->Ping_0.handler.interval == c.ping_interval
        &&& said[1]->Ping_0.handler.timeout == c.ping_timeout
        &&& said[1]->Ping_0.handler.reporter.reporter.id@ == self.mgr_tx.id@
        &&& !said[1]->Ping_0.handler.reporter.mgr_shutdown.b
        // what peers say of themselves and of others too, and they are told from the same book
        &&& said[2] is Identify
        &&& said[2]->Identify_0.peer_mgr.book@ == pm.book@
        &&& said[2]->Identify_0.reporter.inner.id@ == self.mgr_tx.id@
        &&& !said[2]->Identify_0.reporter.shutdown.b
        &&& said[3] is Discovery
        &&& said[3]->Discovery_0.peer_mgr.book@ == pm.book@
        &&& said[3]->Discovery_0.reporter.inner.id@ == self.mgr_tx.id@
        &&& !said[3]->Discovery_0.reporter.shutdown
        &&& said[3]->Discovery_1 == Some(c.discovery_sync_interval)
        // messages go to the router
        &&& said[4] is Raw
        &&& said[4]->Raw_0.msg_deliver.id@ == self.raw_msg_tx.id@
    }

    /// What sends, sends through that service and asks that peer manager.
    pub open spec fn sends(&self, s: ConnectionServiceControl<CoreProtocol>, cs: ConnectionService<CoreProtocol>) -> bool {
        &&& s.inner.id@ == cs.inner.id@
        &&& s.mgr_tx.id@ == self.mgr_tx.id@
    }

//@fn core/network/src/service.rs NetworkService::new
//@. params w: &mut World
//@. ensures
        named_more(*old(w), *final(w)),
        r.config == config,
        // four channels, nobody else's
        old(w).next <= r.mgr_tx.id@ < final(w).next,
        old(w).next <= r.conn_tx.id@ < final(w).next,
        old(w).next <= r.raw_msg_tx.id@ < final(w).next,
        old(w).next <= r.sys_rx.id@ < final(w).next,
        r.mgr_tx.id@ != r.conn_tx.id@,
        r.mgr_tx.id@ != r.raw_msg_tx.id@,
        r.mgr_tx.id@ != r.sys_rx.id@,
        r.conn_tx.id@ != r.raw_msg_tx.id@,
        r.conn_tx.id@ != r.sys_rx.id@,
        r.raw_msg_tx.id@ != r.sys_rx.id@,
        // the peer manager hears what it is told and asks for connections
        r.peer_mgr is Some,
        r.peer_mgr->0.event_rx.id@ == r.mgr_tx.id@,
        r.peer_mgr->0.conn_tx.id@ == r.conn_tx.id@,
        r.peer_mgr->0.config.our_id == id_of(config.secio_keypair),
        r.peer_mgr->0.config.pubkey == pk_of(config.secio_keypair),
        r.peer_mgr->0.config.bootstraps@ == config.bootstraps@,
        r.peer_mgr->0.config.max_connections == config.max_connections,
        r.peer_mgr->0.config.routine_interval == config.peer_manager_heart_beat_interval,
        r.peer_mgr->0.config.persistence_path == config.persistence_path,
        // it keeps peers where that is wanted, has loaded what was kept, dials those it is to start from
        r.peer_mgr->0.keeps@ == config.enable_persistence,
        r.peer_mgr->0.loaded@ == config.enable_persistence,
        r.peer_mgr->0.dials@ =~= config.bootstraps@,
        !final(w).listens.contains_key(r.peer_mgr->0.book@),
        // the connection service, not listening yet
        r.net_conn_srv is Some,
        r.net_conn_srv->0 is NoListen,
        r.connects(r.net_conn_srv->0->NoListen_0, r.peer_mgr->0),
        r.sends(r.gossip.sender, r.net_conn_srv->0->NoListen_0),
        r.sends(r.rpc.sender, r.net_conn_srv->0->NoListen_0),
        // calls wait in one table
        r.rpc.map.id@ == r.rpc_map.id@,
        // the router
        r.router is Some,
        r.router->0.raw_msg_rx.id@ == r.raw_msg_tx.id@,
        r.router->0.sys_tx.id@ == r.sys_rx.id@,
        r.router->0.reactor_map.log@.len() == 0,
        // the heart beat wakes this service
        r.heart_beat is Some,
        r.heart_beat->0.waker.id@ == r.hb_waker.id@,
        r.heart_beat->0.interval == config.heart_beat_interval,
        r.heart_beat->0.delay.every == config.heart_beat_interval,
//@. at start
        broadcast use {as_disc_is, as_ident_is};
//@end
//@fn core/network/src/service.rs NetworkService::register_endpoint_handler
//@. params w: &mut World
//@. ensures
        r is Ok <==> ep_ok(end@) && scheme_of(end@) != Some(EndpointScheme::RpcResponse),
        *final(self) == (NetworkService { router: final(self).router, ..*old(self) }),
        r is Err || old(self).router is None ==> final(self).router == old(self).router && named_more(*old(w), *final(w)),
        r is Ok && old(self).router is Some ==> {
            let e = final(self).router->0.reactor_map.log@.last();
            &&& final(self).router is Some
            &&& final(self).router->0.raw_msg_rx == old(self).router->0.raw_msg_rx
            &&& final(self).router->0.sys_tx == old(self).router->0.sys_tx
            &&& final(self).router->0.reactor_map.log@ == old(self).router->0.reactor_map.log@.push(e)
            &&& e.0.url() == end@
            &&& old(w).next <= e.1 < final(w).next
            &&& *final(w) == (World {
                next: final(w).next,
                reactors: old(w).reactors.push((e.1, handler.id@, old(self).rpc_map.id@)),
                ..*old(w) })
        },
//@end
//@fn core/network/src/service.rs NetworkService::register_rpc_response
//@. params w: &mut World
//@. ensures
        r is Ok <==> ep_ok(end@) && scheme_of(end@) == Some(EndpointScheme::RpcResponse),
        *final(self) == (NetworkService { router: final(self).router, ..*old(self) }),
        r is Err || old(self).router is None ==> final(self).router == old(self).router && named_more(*old(w), *final(w)),
        r is Ok && old(self).router is Some ==> {
            let e = final(self).router->0.reactor_map.log@.last();
            &&& final(self).router is Some
            &&& final(self).router->0.raw_msg_rx == old(self).router->0.raw_msg_rx
            &&& final(self).router->0.sys_tx == old(self).router->0.sys_tx
            &&& final(self).router->0.reactor_map.log@ == old(self).router->0.reactor_map.log@.push(e)
            &&& e.0.url() == end@
            &&& old(w).next <= e.1 < final(w).next
            &&& *final(w) == (World {
                next: final(w).next,
                reactors: old(w).reactors.push((e.1, dummy(), old(self).rpc_map.id@)),
                ..*old(w) })
        },
//@end
//@fn core/network/src/service.rs NetworkService::handle
//@. ensures
        r.gossip == self.gossip,
        r.rpc == self.rpc,
//@end
//@fn core/network/src/service.rs NetworkService::listen
//@. params w: &mut World
//@. ensures
        ({
            let a = socket_multi(socket_addr);
            match old(self).net_conn_srv {
                Some(NetworkConnectionService::NoListen(cs)) => {
                    &&& r is Ok <==> may_listen(cs.inner, a)
                    &&& *final(self) == (NetworkService { net_conn_srv: final(self).net_conn_srv, ..*old(self) })
                    &&& r is Err ==> final(self).net_conn_srv == old(self).net_conn_srv && *final(w) == *old(w)
                    &&& r is Ok ==> final(self).net_conn_srv == Some(NetworkConnectionService::Ready(listening(cs, a)))
                        && *final(w) == (match old(self).peer_mgr {
                            Some(pm) => World { listens: old(w).listens.insert(pm.book@, a), ..*old(w) },
                            None => *old(w),
                        })
                },
                _ => r is Ok && *final(self) == *old(self) && *final(w) == *old(w),
            }
        }),
//@end
//@fn core/network/src/service.rs NetworkService@Future::poll
//@. sig (&mut self, ctx: &mut TaskContext, w: &mut World) -> (r: Poll<()>)
//@. requires
        // the address to listen at by default is one to listen at
        old(self).net_conn_srv is Some && old(self).net_conn_srv->0 is NoListen
            ==> may_listen(old(self).net_conn_srv->0->NoListen_0.inner, old(self).config.default_listen),
//@. ensures
        // each part is put to run, once
        final(self).net_conn_srv is None,
        final(self).peer_mgr is None,
        final(self).router is None,
        final(self).heart_beat is None,
        final(w).conns =~= (match old(self).net_conn_srv {
            Some(NetworkConnectionService::NoListen(cs)) => old(w).conns.push(listening(cs, old(self).config.default_listen)),
            Some(NetworkConnectionService::Ready(cs)) => old(w).conns.push(cs),
            None => old(w).conns,
        }),
        final(w).books =~= (match old(self).peer_mgr {
            Some(pm) => old(w).books.push(pm),
            None => old(w).books,
        }),
        final(w).listens =~= (match old(self).peer_mgr {
            Some(pm) => if old(w).listens.contains_key(pm.book@) { old(w).listens } else { old(w).listens.insert(pm.book@, old(self).config.default_listen) },
            None => old(w).listens,
        }),
        final(w).routers =~= (match old(self).router {
            Some(x) => old(w).routers.push(x),
            None => old(w).routers,
        }),
        final(w).beats =~= (match old(self).heart_beat {
            Some(x) => old(w).beats.push(x),
            None => old(w).beats,
        }),
        final(w).reactors == old(w).reactors,
        final(w).sent == old(w).sent,
        // all errors are looked at; it ends when nobody is left to report one
        final(w).errors == 0,
        r is Ready <==> !old(w).reporters,
//@. loop 0
        invariant
            self.net_conn_srv is None,
            self.peer_mgr is None,
            self.router is None,
            self.heart_beat is None,
            w.conns =~= (match old(self).net_conn_srv {
                Some(NetworkConnectionService::NoListen(cs)) => old(w).conns.push(listening(cs, old(self).config.default_listen)),
                Some(NetworkConnectionService::Ready(cs)) => old(w).conns.push(cs),
                None => old(w).conns,
            }),
            w.books =~= (match old(self).peer_mgr {
                Some(pm) => old(w).books.push(pm),
                None => old(w).books,
            }),
            w.listens =~= (match old(self).peer_mgr {
                Some(pm) => if old(w).listens.contains_key(pm.book@) { old(w).listens } else { old(w).listens.insert(pm.book@, old(self).config.default_listen) },
                None => old(w).listens,
            }),
            w.routers =~= (match old(self).router {
                Some(x) => old(w).routers.push(x),
                None => old(w).routers,
            }),
            w.beats =~= (match old(self).heart_beat {
                Some(x) => old(w).beats.push(x),
                None => old(w).beats,
            }),
            w.reactors == old(w).reactors,
            w.sent == old(w).sent,
            w.reporters == old(w).reporters,
        ensures
            w.errors == 0,
            w.reporters,
        decreases w.errors,
//@end
}

} // verus!
