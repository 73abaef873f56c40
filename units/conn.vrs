//@include endpoint.vrs assume
//@type "Arc<$>" => "$"
//@type "oneshot::Sender<Vec<UserAddress>>" => "Sender<Vec<UserAddress>>"
//@type "PhantomData<fn()->P>" => "PhantomData<P>"
//@type "Compat01As03<Service<ConnectionServiceKeeper>>" => "Inner"
//@type "VecDeque<ConnectionEvent>" => "Pending"
//@path Box::new => vx_cause
//@path oneshot::channel => vx_channel
//@path AtomicBool::new => vx_flag
//@path Ordering::SeqCst => Order::SeqCst
//@heapfn *.sys_shutdown.load net
//@heapfn *.sys_shutdown.store net
//@heapfn *.mgr_shutdown.load net
//@heapfn *.mgr_shutdown.store net
//@heapfn *.shutdown.load net
//@heapfn *.shutdown.store net
//@heapfn *.unbounded_send net
//@heapfn self.report_error net
//@heapfn self.report_peer net
//@heapfn self.is_sys_shutdown net
//@heapfn self.sys_shutdown net
//@heapfn self.is_mgr_shutdown net
//@heapfn self.mgr_shutdown net
//@heapfn self.process_connect_error net
//@heapfn self.reporter.report net
//@heapfn *.quick_filter_broadcast net
//@heapfn *.filter_broadcast net
//@heapfn *.dial net
//@heapfn *.disconnect net
//@heapfn vx_channel net
verus! {

// ------------------------------------------------------------------ what tentacle works with
/// std::io::ErrorKind
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum IoKind {
    NotFound,
    ConnectionRefused,
    ConnectionReset,
    ConnectionAborted,
    NotConnected,
    BrokenPipe,
    WouldBlock,
    TimedOut,
    Interrupted,
    UnexpectedEof,
    Other,
}

pub mod io {
    pub use super::IoKind as ErrorKind;
    pub use super::IoError as Error;
}

/// std::io::Error
pub struct IoError {
    pub k: IoKind,
}

impl IoError {
    pub fn kind(&self) -> (r: IoKind)
        ensures
            r == self.k,
    {
        self.k
    }
}

/// tentacle::error::Error
pub enum TentacleError {
    IoError(IoError),
    ConnectSelf,
    PeerIdNotMatch,
    RepeatedConnection(SessionId),
    HandshakeError(VxCause),
    DNSResolverError(IoError),
    ServiceProtoHandleBlock,
    ServiceProtoHandleAbnormallyClosed,
    SessionProtoHandleBlock(SessionId),
    SessionProtoHandleAbnormallyClosed(SessionId),
}

/// Box::new of an error
#[verifier::external_body]
pub fn vx_cause<T>(t: T) -> (r: VxCause)
    ensures
        r == VxCause,
{
    unimplemented!()
}

pub struct PeerId {
    pub b: Ghost<Seq<u8>>,
}

pub struct PublicKey {
    pub b: Ghost<Seq<u8>>,
}

pub struct Multiaddr {
    pub b: Ghost<Seq<u8>>,
}

pub uninterp spec fn pid_of(k: PublicKey) -> PeerId;

impl PublicKey {
    #[verifier::external_body]
    pub fn peer_id(&self) -> (r: PeerId)
        ensures
            r == pid_of(*self),
    {
        unimplemented!()
    }
}

macro_rules! copies {
    ($($t:ty),*) => {$(
        verus! {
        impl Clone for $t {
            #[verifier::external_body]
            fn clone(&self) -> (r: $t)
                ensures
                    r == *self,
            {
                unimplemented!()
            }
        }
        }
    )*};
}

copies!(PeerId, PublicKey, Multiaddr, TargetSession, DialProtocol);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SessionType {
    Outbound,
    Inbound,
}

/// tentacle::service::TargetSession
pub enum TargetSession {
    All,
    Single(SessionId),
    Multi(Vec<SessionId>),
}

/// tentacle::service::DialProtocol
pub enum DialProtocol {
    All,
    Single(usize),
    Multi(Vec<usize>),
}

/// tentacle::context::SessionContext
pub struct SessionContext {
    pub id: SessionId,
    pub address: Multiaddr,
    pub ty: SessionType,
    pub remote_pubkey: Option<PublicKey>,
}

/// tentacle::context::ServiceContext
pub struct ServiceContext;

/// tentacle::context::ProtocolContextMutRef
pub struct ProtocolContextMutRef {
    pub session: SessionContext,
}

pub struct ProtocolContext;

/// tentacle::service::ServiceError
pub enum ServiceError {
    DialerError { address: Multiaddr, error: TentacleError },
    ListenError { address: Multiaddr, error: TentacleError },
    ProtocolSelectError { proto_name: Option<String>, session_context: SessionContext },
    ProtocolError { id: SessionId, proto_id: usize, error: TentacleError },
    SessionTimeout { session_context: SessionContext },
    MuxerError { session_context: SessionContext, error: TentacleError },
    ProtocolHandleError { error: TentacleError, proto_id: usize },
    SessionBlocked { session_context: SessionContext },
}

/// tentacle::service::ServiceEvent
pub enum ServiceEvent {
    SessionClose { session_context: SessionContext },
    SessionOpen { session_context: SessionContext },
    ListenClose { address: Multiaddr },
    ListenStarted { address: Multiaddr },
}

// ------------------------------------------------------------------ events
//@item protocol/src/traits/network.rs enum Priority
//@item core/network/src/event.rs enum ConnectionEvent
//@item core/network/src/event.rs enum RetryKind
//@item core/network/src/event.rs enum RemoveKind
//@item core/network/src/event.rs struct MultiUsersMessage
//@item core/network/src/event.rs enum ConnectionType need:PartialEq
//@item core/network/src/event.rs struct Session
//@item core/network/src/event.rs enum PeerManagerEvent
//@item core/network/src/message/mod.rs struct RawSessionMessage

// ------------------------------------------------------------------ the world
/// One thing asked of the connection service.
pub enum Op {
    Dial(Multiaddr, DialProtocol),
    Cut(SessionId),
    Send(bool, TargetSession, usize, Bytes),
}

pub struct Net {
    /// what the peer manager was told, in order, and whether it is there
    pub events: Seq<PeerManagerEvent>,
    pub mgr_up: bool,
    /// how many errors were reported, and whether anybody listens
    pub errors: nat,
    pub sys_up: bool,
    /// messages given to the router
    pub raw: Seq<RawSessionMessage>,
    pub raw_up: bool,
    /// the flags
    pub flags: Map<int, bool>,
    /// what was asked of the connection service, and what it said
    pub ops: Seq<(Op, Result<(), TentacleError>)>,
    /// channels made so far
    pub chans: int,
}

pub enum Order {
    SeqCst,
    Relaxed,
    Acquire,
    Release,
    AcqRel,
}

/// std::sync::atomic::AtomicBool; a clone of an Arc around it is the same flag
pub struct AtomicBool {
    pub id: Ghost<int>,
}

impl AtomicBool {
    #[verifier::external_body]
    pub fn load(&self, o: Order, net: &mut Net) -> (r: bool)
        ensures
            r == old(net).flags[self.id@],
            *final(net) == *old(net),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn store(&self, b: bool, o: Order, net: &mut Net)
        ensures
            *final(net) == (Net { flags: old(net).flags.insert(self.id@, b), ..*old(net) }),
    {
        unimplemented!()
    }
}

/// futures::channel::mpsc
pub struct UnboundedSender<T> {
    pub t: Ghost<Option<T>>,
}

/// futures::channel::mpsc::TrySendError
pub struct SendError<T> {
    pub t: T,
}

impl<T> SendError<T> {
    /// An unbounded channel is never full.
    #[verifier::external_body]
    pub fn is_full(&self) -> (r: bool)
        ensures
            !r,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_disconnected(&self) -> (r: bool)
        ensures
            r,
    {
        unimplemented!()
    }
}

impl UnboundedSender<PeerManagerEvent> {
    #[verifier::external_body]
    pub fn unbounded_send(&self, t: PeerManagerEvent, net: &mut Net) -> (r: Result<(), SendError<PeerManagerEvent>>)
        ensures
            r is Ok <==> old(net).mgr_up,
            *final(net) == (if old(net).mgr_up { Net { events: old(net).events.push(t), ..*old(net) } } else { *old(net) }),
    {
        unimplemented!()
    }
}

impl UnboundedSender<NetworkError> {
    #[verifier::external_body]
    pub fn unbounded_send(&self, t: NetworkError, net: &mut Net) -> (r: Result<(), SendError<NetworkError>>)
        ensures
            r is Ok <==> old(net).sys_up,
            *final(net) == (if old(net).sys_up { Net { errors: old(net).errors + 1, ..*old(net) } } else { *old(net) }),
    {
        unimplemented!()
    }
}

impl UnboundedSender<RawSessionMessage> {
    #[verifier::external_body]
    pub fn unbounded_send(&self, t: RawSessionMessage, net: &mut Net) -> (r: Result<(), SendError<RawSessionMessage>>)
        ensures
            r is Ok <==> old(net).raw_up,
            *final(net) == (if old(net).raw_up { Net { raw: old(net).raw.push(t), ..*old(net) } } else { *old(net) }),
    {
        unimplemented!()
    }
}

/// Only the flags differ, and a flag that is newly up says that its receiver is gone.
pub open spec fn same_but(a: Net, b: Net, id: int) -> bool {
    &&& b.mgr_up == a.mgr_up
    &&& b.sys_up == a.sys_up
    &&& b.raw == a.raw
    &&& b.raw_up == a.raw_up
    &&& b.ops == a.ops
    &&& b.chans == a.chans
    &&& forall|i: int| i != id ==> b.flags[i] == a.flags[i]
}

// ------------------------------------------------------------------ the keeper of connections
//@item core/network/src/connection/keeper.rs struct ConnectionServiceKeeper

impl ConnectionServiceKeeper {
    /// Reports stop only when nobody is there to hear them.
    pub open spec fn wf(&self, n: Net) -> bool {
        n.flags[self.sys_shutdown.id@] ==> !n.sys_up
    }

    /// The peer manager was told es and errs errors were reported, each to whoever is there.
    pub open spec fn said(&self, a: Net, b: Net, es: Seq<PeerManagerEvent>, errs: nat) -> bool {
        &&& same_but(a, b, self.sys_shutdown.id@)
        &&& self.wf(b)
        &&& b.events =~= (if a.mgr_up { a.events + es } else { a.events })
        &&& b.errors == a.errors + (if a.sys_up { errs + (if a.mgr_up { 0 } else { es.len() }) } else { 0 })
    }
}

impl ConnectionServiceKeeper {
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper::is_sys_shutdown
//@. params net: &mut Net
//@. ensures
        r == old(net).flags[self.sys_shutdown.id@],
        *final(net) == *old(net),
//@end
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper::sys_shutdown
//@. params net: &mut Net
//@. ensures
        *final(net) == (Net { flags: old(net).flags.insert(self.sys_shutdown.id@, true), ..*old(net) }),
//@end
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper::report_error
//@. params net: &mut Net
//@. requires
        self.wf(*old(net)),
//@. ensures
        self.said(*old(net), *final(net), Seq::empty(), 1),
        final(net).events == old(net).events,
//@end
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper::report_peer
//@. params net: &mut Net
//@. requires
        self.wf(*old(net)),
//@. ensures
        self.said(*old(net), *final(net), seq![event], 0),
//@end
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper::process_connect_error
//@. params net: &mut Net
//@. requires
        self.wf(*old(net)),
//@. ensures
        self.said(*old(net), *final(net), seq![of_failed(ty, error, addr)], 0),
//@end
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper@ServiceHandle::handle_error
//@. params net: &mut Net
//@. requires
        old(self).wf(*old(net)),
        err_has_key(err),
//@. ensures
        *final(self) == *old(self),
        old(self).said(*old(net), *final(net), of_error(err), errs_of(err)),
//@end
//@fn core/network/src/connection/keeper.rs ConnectionServiceKeeper@ServiceHandle::handle_event
//@. params net: &mut Net
//@. requires
        old(self).wf(*old(net)),
        evt_has_key(evt),
//@. ensures
        *final(self) == *old(self),
        old(self).said(*old(net), *final(net), seq![of_event(evt)], 0),
//@end
}

/// What a failed attempt to connect means: the address is ours, is connected already, is tried again
/// later, or is given up.
pub open spec fn of_failed(ty: ConnectionType, error: TentacleError, addr: Multiaddr) -> PeerManagerEvent {
    match error {
        TentacleError::ConnectSelf => PeerManagerEvent::AddListenAddr { addr },
        TentacleError::RepeatedConnection(sid) => PeerManagerEvent::RepeatedConnection { ty, sid, addr },
        TentacleError::IoError(e) if e.k == IoKind::TimedOut => PeerManagerEvent::ReconnectLater { addr, kind: RetryKind::TimedOut },
        TentacleError::IoError(e) if e.k == IoKind::Interrupted => PeerManagerEvent::ReconnectLater { addr, kind: RetryKind::Interrupted },
        _ => PeerManagerEvent::UnconnectableAddress { addr, kind: RemoveKind::UnableToConnect { addr, err: VxCause } },
    }
}

/// Connections are encrypted, so the key of the other side is known.
pub open spec fn err_has_key(e: ServiceError) -> bool {
    match e {
        ServiceError::ProtocolSelectError { session_context, .. } => session_context.remote_pubkey is Some,
        ServiceError::SessionTimeout { session_context } => session_context.remote_pubkey is Some,
        ServiceError::MuxerError { session_context, .. } => session_context.remote_pubkey is Some,
        ServiceError::SessionBlocked { session_context } => session_context.remote_pubkey is Some,
        _ => true,
    }
}

pub open spec fn evt_has_key(e: ServiceEvent) -> bool {
    match e {
        ServiceEvent::SessionOpen { session_context } => session_context.remote_pubkey is Some,
        ServiceEvent::SessionClose { session_context } => session_context.remote_pubkey is Some,
        _ => true,
    }
}

pub open spec fn pid_in(c: SessionContext) -> PeerId {
    pid_of(c.remote_pubkey->0)
}

/// What the peer manager is told about an error: a broken peer goes, an unstable one is tried again.
pub open spec fn of_error(e: ServiceError) -> Seq<PeerManagerEvent> {
    match e {
        ServiceError::DialerError { error, address } => seq![of_failed(ConnectionType::Dialer, error, address)],
        ServiceError::ListenError { error, address } => seq![of_failed(ConnectionType::Listen, error, address)],
        ServiceError::ProtocolSelectError { session_context, proto_name } => match proto_name {
            Some(name) => seq![PeerManagerEvent::RemovePeer { pid: pid_in(session_context), kind: RemoveKind::UnknownProtocol(name) }],
            None => seq![PeerManagerEvent::RetryPeerLater { pid: pid_in(session_context), kind: RetryKind::ProtocolSelect }],
        },
        ServiceError::ProtocolError { id, error, proto_id } =>
            seq![PeerManagerEvent::RemovePeerBySession { sid: id, kind: RemoveKind::BrokenProtocol { proto_id, err: VxCause } }],
        ServiceError::SessionTimeout { session_context } =>
            seq![PeerManagerEvent::RetryPeerLater { pid: pid_in(session_context), kind: RetryKind::TimedOut }],
        ServiceError::MuxerError { session_context, error } =>
            seq![PeerManagerEvent::RetryPeerLater { pid: pid_in(session_context), kind: RetryKind::Multiplex(VxCause) }],
        ServiceError::ProtocolHandleError { error, proto_id } => seq![],
        ServiceError::SessionBlocked { session_context } =>
            seq![PeerManagerEvent::RemovePeerBySession {
                sid: session_context.id,
                kind: RemoveKind::SessionBlocked { pid: pid_in(session_context), sid: session_context.id },
            }],
    }
}

/// How many errors are reported to the node itself.
pub open spec fn errs_of(e: ServiceError) -> nat {
    match e {
        ServiceError::ProtocolHandleError { .. } => 1,
        ServiceError::SessionBlocked { .. } => 1,
        _ => 0,
    }
}

pub open spec fn of_event(e: ServiceEvent) -> PeerManagerEvent {
    match e {
        ServiceEvent::SessionOpen { session_context: c } => PeerManagerEvent::AttachPeerSession {
            pubkey: c.remote_pubkey->0,
            session: Session { sid: c.id, addr: c.address, ty: c.ty },
        },
        ServiceEvent::SessionClose { session_context: c } => PeerManagerEvent::DetachPeerSession { pid: pid_in(c), sid: c.id, ty: c.ty },
        ServiceEvent::ListenStarted { address } => PeerManagerEvent::AddListenAddr { addr: address },
        ServiceEvent::ListenClose { address } => PeerManagerEvent::RemoveListenAddr { addr: address },
    }
}

// ------------------------------------------------------------------ sending
/// traits::NetworkProtocol
pub trait NetworkProtocol: Sized {
    spec fn target_spec() -> DialProtocol;

    spec fn message_proto_spec() -> usize;

    fn target() -> (r: DialProtocol)
        ensures
            r == Self::target_spec(),
    ;

    fn message_proto_id() -> (r: usize)
        ensures
            r == Self::message_proto_spec(),
    ;
}

/// tentacle::service::ServiceControl
pub struct ServiceControl;

pub open spec fn asked(a: Net, b: Net, op: Op, r: Result<(), TentacleError>) -> bool {
    b == (Net { ops: a.ops.push((op, r)), ..a })
}

impl ServiceControl {
    #[verifier::external_body]
    pub fn quick_filter_broadcast(&self, tar: TargetSession, p: usize, m: Bytes, net: &mut Net) -> (r: Result<(), TentacleError>)
        ensures
            asked(*old(net), *final(net), Op::Send(true, tar, p, m), r),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn filter_broadcast(&self, tar: TargetSession, p: usize, m: Bytes, net: &mut Net) -> (r: Result<(), TentacleError>)
        ensures
            asked(*old(net), *final(net), Op::Send(false, tar, p, m), r),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn dial(&self, a: Multiaddr, p: DialProtocol, net: &mut Net) -> (r: Result<(), TentacleError>)
        ensures
            asked(*old(net), *final(net), Op::Dial(a, p), r),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn disconnect(&self, s: SessionId, net: &mut Net) -> (r: Result<(), TentacleError>)
        ensures
            asked(*old(net), *final(net), Op::Cut(s), r),
    {
        unimplemented!()
    }
}

pub struct Sender<T> {
    pub chan: Ghost<int>,
    pub t: Ghost<Option<T>>,
}

pub struct Canceled;

/// The receiving end: what will come out of it.  What others do in the meantime is left out.
pub type Receiver<T> = Result<T, Canceled>;

/// What comes out of a channel in the end.
pub uninterp spec fn outcome<T>(chan: int) -> Result<T, Canceled>;

/// futures::channel::oneshot::channel: a new channel
#[verifier::external_body]
pub fn vx_channel<T>(net: &mut Net) -> (r: (Sender<T>, Receiver<T>))
    ensures
        r.0.chan@ == old(net).chans,
        r.1 == outcome::<T>(old(net).chans),
        *final(net) == (Net { chans: old(net).chans + 1, ..*old(net) }),
{
    unimplemented!()
}

pub struct PhantomData<P> {
    pub p: Ghost<Option<P>>,
}

//@item core/network/src/connection/control.rs struct ConnectionServiceControl

/// What a refused request means.
pub open spec fn refusal(e: TentacleError) -> NetworkError {
    match e {
        TentacleError::IoError(e) if e.k == IoKind::BrokenPipe => NetworkError::Shutdown,
        TentacleError::IoError(e) if e.k == IoKind::WouldBlock => NetworkError::Busy,
        _ => NetworkError::UnexpectedError(VxCause),
    }
}

impl<P: NetworkProtocol> ConnectionServiceControl<P> {
//@fn core/network/src/connection/control.rs ConnectionServiceControl@MessageSender::send
//@. params net: &mut Net
//@. ensures
        ({
            let x = final(net).ops.last().1;
            &&& asked(*old(net), *final(net), Op::Send(pri is High, tar, P::message_proto_spec(), msg), x)
            &&& x is Ok ==> r is Ok
            &&& x is Err ==> r == Err::<(), NetworkError>(refusal(x->Err_0))
        }),
//@end
//@fn core/network/src/connection/control.rs ConnectionServiceControl@MessageSender::users_send
//@. params net: &mut Net
//@. ensures
        ({
            let e = PeerManagerEvent::RouteMultiUsersMessage {
                users_msg: MultiUsersMessage { user_addrs, msg, pri },
                miss_tx: Sender { chan: Ghost(old(net).chans), t: final(net).events.last()->miss_tx.t },
            };
            let x = outcome::<Vec<UserAddress>>(old(net).chans);
            &&& *final(net) == (Net {
                chans: old(net).chans + 1,
                events: if old(net).mgr_up { old(net).events.push(e) } else { old(net).events },
                ..*old(net) })
            &&& match x {
                Ok(m) => if m@.len() == 0 { r is Ok } else { r == Err::<(), NetworkError>(NetworkError::PartialRouteMessage { miss: m }) },
                Err(_) => r is Err,
            }
        }),
//@end
}

// ------------------------------------------------------------------ requests to the connection service
//@item core/network/src/connection/mod.rs enum State
/// VecDeque
pub struct Pending {
    pub q: Ghost<Seq<ConnectionEvent>>,
}

impl Pending {
    #[verifier::external_body]
    pub fn push_back(&mut self, e: ConnectionEvent)
        ensures
            final(self).q@ == old(self).q@.push(e),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn push_front(&mut self, e: ConnectionEvent)
        ensures
            final(self).q@ == seq![e] + old(self).q@,
    {
        unimplemented!()
    }
}

pub struct UnboundedReceiver<T> {
    pub t: Ghost<Option<T>>,
}

/// tentacle's service behind the compatibility layer
pub struct Inner;

impl Inner {
    pub fn get_ref(&self) -> (r: &Inner) {
        self
    }

    #[verifier::external_body]
    pub fn control(&self) -> (r: &ServiceControl) {
        unimplemented!()
    }
}

//@item core/network/src/connection/mod.rs struct ConnectionService


/// The service said no because it is gone.
pub open spec fn closed(r: Result<(), TentacleError>) -> bool {
    match r {
        Err(TentacleError::IoError(e)) => e.k == IoKind::BrokenPipe,
        _ => false,
    }
}

/// The addresses the service would not take, from the n-th request on.
pub open spec fn refused(ops: Seq<(Op, Result<(), TentacleError>)>, n: nat) -> Seq<Multiaddr>
    decreases ops.len(),
{
    if ops.len() <= n {
        Seq::empty()
    } else if ops.last().1 is Err {
        refused(ops.drop_last(), n).push(ops.last().0->Dial_0)
    } else {
        refused(ops.drop_last(), n)
    }
}

/// More was asked of the service, nothing else.
pub open spec fn asked_more(a: Net, b: Net) -> bool {
    &&& b == (Net { ops: b.ops, ..a })
    &&& a.ops.len() <= b.ops.len()
    &&& forall|i: int| 0 <= i < a.ops.len() ==> b.ops[i] == a.ops[i]
}

impl<P: NetworkProtocol> ConnectionService<P> {
    pub open spec fn q(&self) -> Seq<ConnectionEvent> {
        self.pending_events.q@
    }

    /// What was refused is asked again later, unchanged; once the service is gone, nothing is.
    pub open spec fn handled(a: Seq<ConnectionEvent>, b: Seq<ConnectionEvent>, e: ConnectionEvent, n: nat, ops: Seq<(Op, Result<(), TentacleError>)>) -> bool {
        match e {
            ConnectionEvent::Connect { addrs, .. } => {
                &&& ops.len() <= n + addrs@.len()
                &&& forall|i: int| n <= i < ops.len() ==> (#[trigger] ops[i]).0 == Op::Dial(addrs@[i - n], P::target_spec())
                &&& forall|i: int| n <= i < ops.len() - 1 ==> !closed((#[trigger] ops[i]).1)
                &&& if ops.len() > n && closed(ops.last().1) {
                    b == a
                } else {
                    &&& ops.len() == n + addrs@.len()
                    &&& if refused(ops, n).len() == 0 {
                        b == a
                    } else {
                        &&& b.len() == a.len() + 1
                        &&& b.drop_last() =~= a
                        &&& b.last() is Connect
                        &&& b.last()->addrs@ == refused(ops, n)
                        &&& b.last()->proto == P::target_spec()
                    }
                }
            },
            ConnectionEvent::Disconnect(sid) => {
                &&& ops.len() == n + 1
                &&& ops[n as int].0 == Op::Cut(sid)
                &&& b == (if ops[n as int].1 is Err && !closed(ops[n as int].1) { a.push(e) } else { a })
            },
            ConnectionEvent::SendMsg { tar, msg, pri } => {
                &&& ops.len() == n + 1
                &&& ops[n as int].0 == Op::Send(pri is High, tar, P::message_proto_spec(), msg)
                &&& b == (if ops[n as int].1 is Err && !closed(ops[n as int].1) { a.push(e) } else { a })
            },
        }
    }

//@fn core/network/src/connection/mod.rs ConnectionService::process_event
//@. params net: &mut Net
//@. ensures
        asked_more(*old(net), *final(net)),
        Self::handled(old(self).q(), final(self).q(), event, old(net).ops.len(), final(net).ops),
//@. loop 0
        invariant
            self.q() == q0,
            event is Connect,
            __it0.s@ == event->addrs@,
            __it0.p@ <= __it0.s@.len(),
            asked_more(net0, *net),
            net.ops.len() == net0.ops.len() + __it0.p@,
            forall|i: int| net0.ops.len() <= i < net.ops.len() ==> (#[trigger] net.ops[i]).0 == Op::Dial(event->addrs@[i - net0.ops.len()], P::target_spec()),
            forall|i: int| net0.ops.len() <= i < net.ops.len() ==> !closed((#[trigger] net.ops[i]).1),
            pending_addrs@ == refused(net.ops, net0.ops.len()),
            target_protocol == P::target_spec(),
            net0 == *old(net),
            q0 == old(self).q(),
        decreases __it0.s@.len() - __it0.p@,
//@. at start
        let ghost net0 = *net;
        let ghost q0 = self.q();
//@. at loop:0:start
        let ghost net1 = *net;
//@. at loop:0:end
        proof {
            assert(net.ops.drop_last() =~= net1.ops);
        }
//@end
}

// ------------------------------------------------------------------ pings
/// generic_channel::TrySendError
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}

#[derive(Clone, Copy)]
pub struct Duration {
    pub ns: Ghost<nat>,
}

/// tentacle_ping::Event
pub enum PingEvent {
    Ping(PeerId),
    Pong(PeerId, Duration),
    Timeout(PeerId),
    UnexpectedError(PeerId),
}

//@item core/network/src/protocols/ping.rs struct PingEventReporter

/// An answer shows that the peer is alive; without one it is tried again later.
pub open spec fn of_ping(e: PingEvent) -> PeerManagerEvent {
    match e {
        PingEvent::Ping(pid) => PeerManagerEvent::PeerAlive { pid },
        PingEvent::Pong(pid, _) => PeerManagerEvent::PeerAlive { pid },
        PingEvent::Timeout(pid) => PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::TimedOut },
        PingEvent::UnexpectedError(pid) => PeerManagerEvent::RetryPeerLater {
            pid,
            kind: RetryKind::Other("ping unexpected error, maybe unstable network"),
        },
    }
}

impl PingEventReporter {
    pub open spec fn wf(&self, n: Net) -> bool {
        n.flags[self.mgr_shutdown.id@] ==> !n.mgr_up
    }

//@fn core/network/src/protocols/ping.rs PingEventReporter::is_mgr_shutdown
//@. params net: &mut Net
//@. ensures
        r == old(net).flags[self.mgr_shutdown.id@],
        *final(net) == *old(net),
//@end
//@fn core/network/src/protocols/ping.rs PingEventReporter::mgr_shutdown
//@. params net: &mut Net
//@. ensures
        *final(net) == (Net { flags: old(net).flags.insert(self.mgr_shutdown.id@, true), ..*old(net) }),
//@end
//@fn core/network/src/protocols/ping.rs PingEventReporter@Sender::try_send
//@. params net: &mut Net
//@. requires
        old(self).wf(*old(net)),
//@. ensures
        *final(self) == *old(self),
        old(self).wf(*final(net)),
        same_but(*old(net), *final(net), old(self).mgr_shutdown.id@),
        final(net).errors == old(net).errors,
        old(net).mgr_up ==> r is Ok && final(net).events == old(net).events.push(of_ping(event)),
        !old(net).mgr_up ==> r == Err::<(), TrySendError<PingEvent>>(TrySendError::Disconnected(event)) && final(net).events == old(net).events,
//@end
}

// ------------------------------------------------------------------ addresses from other peers
/// tentacle_discovery::Misbehavior and tentacle_identify::Misbehavior
pub enum Misbehavior {
    InvalidData,
    DuplicateListenAddrs,
    DuplicateObservedAddr,
    TooManyAddresses(usize),
    Timeout,
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum MisbehaveResult {
    Continue,
    Disconnect,
}

/// The peer book's handle: C26.
pub struct PeerManagerHandle {
    pub listen: Ghost<Seq<Multiaddr>>,
}

pub uninterp spec fn some_addrs(h: PeerManagerHandle, n: usize) -> Vec<Multiaddr>;

impl PeerManagerHandle {
    #[verifier::external_body]
    pub fn random_addrs(&self, n: usize) -> (r: Vec<Multiaddr>)
        ensures
            r == some_addrs(*self, n),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn listen_addrs(&self) -> (r: Vec<Multiaddr>)
        ensures
            r@ == self.listen@,
    {
        unimplemented!()
    }
}

//@item core/network/src/peer_manager/disc.rs struct AddrReporter
//@item core/network/src/peer_manager/disc.rs struct DiscoveryAddrManager

/// Told, if anybody is there.
pub open spec fn told(a: Net, b: Net, e: PeerManagerEvent) -> bool {
    b == (if a.mgr_up { Net { events: a.events.push(e), ..a } } else { a })
}

impl AddrReporter {
    pub open spec fn wf(&self, n: Net) -> bool {
        self.shutdown ==> !n.mgr_up
    }

//@fn core/network/src/peer_manager/disc.rs AddrReporter::report key disc::AddrReporter::report
//@. params net: &mut Net
//@. requires
        old(self).wf(*old(net)),
//@. ensures
        final(self).wf(*final(net)),
        told(*old(net), *final(net), event),
//@end
}

impl DiscoveryAddrManager {
//@fn core/network/src/peer_manager/disc.rs DiscoveryAddrManager@AddressManager::add_new_addr
//@. params net: &mut Net
//@. requires
        old(self).reporter.wf(*old(net)),
//@. ensures
        final(self).reporter.wf(*final(net)),
        final(self).peer_mgr == old(self).peer_mgr,
        told(*old(net), *final(net), PeerManagerEvent::DiscoverAddr { addr }),
//@end
//@fn core/network/src/peer_manager/disc.rs DiscoveryAddrManager@AddressManager::add_new_addrs
//@. params net: &mut Net
//@. requires
        old(self).reporter.wf(*old(net)),
//@. ensures
        final(self).reporter.wf(*final(net)),
        final(self).peer_mgr == old(self).peer_mgr,
        told(*old(net), *final(net), PeerManagerEvent::DiscoverMultiAddrs { addrs }),
//@end
//@fn core/network/src/peer_manager/disc.rs DiscoveryAddrManager@AddressManager::misbehave key disc::misbehave
//@. params net: &mut Net
//@. requires
        old(self).reporter.wf(*old(net)),
//@. ensures
        final(self).reporter.wf(*final(net)),
        final(self).peer_mgr == old(self).peer_mgr,
        old(net).mgr_up ==> final(net).events.len() == old(net).events.len() + 1
            && final(net).events.last() is RemovePeerBySession && final(net).events.last()->RemovePeerBySession_sid == sid
            && told(*old(net), *final(net), final(net).events.last()),
        !old(net).mgr_up ==> *final(net) == *old(net),
        r is Disconnect,
//@end
//@fn core/network/src/peer_manager/disc.rs DiscoveryAddrManager@AddressManager::get_random
//@. ensures
        *final(self) == *old(self),
        r == some_addrs(old(self).peer_mgr, n),
//@end
}

//@item core/network/src/peer_manager/ident.rs struct AddrReporter as:IdentReporter

pub struct IdentifyCallback {
    pub peer_mgr: PeerManagerHandle,
    pub reporter: IdentReporter,
}

impl IdentReporter {
    pub open spec fn wf(&self, n: Net) -> bool {
        n.flags[self.shutdown.id@] ==> !n.mgr_up
    }

    pub open spec fn told(&self, a: Net, b: Net, e: PeerManagerEvent) -> bool {
        &&& same_but(a, b, self.shutdown.id@)
        &&& self.wf(b)
        &&& b.errors == a.errors
        &&& b.events == (if a.mgr_up { a.events.push(e) } else { a.events })
    }

//@fn core/network/src/peer_manager/ident.rs AddrReporter::report key ident::AddrReporter::report
//@. params net: &mut Net
//@. requires
        old(self).wf(*old(net)),
//@. ensures
        *final(self) == *old(self),
        old(self).told(*old(net), *final(net), event),
//@end
}

impl IdentifyCallback {
//@fn core/network/src/peer_manager/ident.rs IdentifyCallback@Callback::local_listen_addrs
//@. ensures
        *final(self) == *old(self),
        r@ == old(self).peer_mgr.listen@,
//@end
//@fn core/network/src/peer_manager/ident.rs IdentifyCallback@Callback::add_remote_listen_addrs
//@. params net: &mut Net
//@. requires
        old(self).reporter.wf(*old(net)),
//@. ensures
        *final(self) == *old(self),
        old(self).reporter.told(*old(net), *final(net), PeerManagerEvent::IdentifiedAddrs { pid: *peer, addrs }),
//@end
//@fn core/network/src/peer_manager/ident.rs IdentifyCallback@Callback::misbehave key ident::misbehave
//@. ensures
        r is Disconnect,
//@end
}

// ------------------------------------------------------------------ messages from other peers
impl RawSessionMessage {
    /// derive_more::Constructor: the fields in their order
    pub fn new(sid: SessionId, msg: Bytes) -> (r: RawSessionMessage)
        ensures
            r == (RawSessionMessage { sid, msg }),
    {
        RawSessionMessage { sid, msg }
    }
}

//@item core/network/src/protocols/transmitter.rs struct Transmitter

impl Transmitter {
//@fn core/network/src/protocols/transmitter.rs Transmitter@ServiceProtocol::received
//@. params net: &mut Net
//@. ensures
        *final(self) == *old(self),
        *final(net) == (if old(net).raw_up {
            Net { raw: old(net).raw.push(RawSessionMessage { sid: ctx.session.id, msg: data }), ..*old(net) }
        } else { *old(net) }),
//@end
}

} // verus!
