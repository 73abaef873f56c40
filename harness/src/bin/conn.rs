// C30: what connections do reaches the peer book, and what is sent reaches who it is for.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports, macro_expanded_macro_exports_accessed_by_absolute_paths)]
include!(concat!(env!("OUT_DIR"), "/conn.rs"));

#[path = "../conn_tentacle.rs"]
mod vxt;
#[path = "../vxh.rs"]
mod vxh;

mod h {
    use crate::connection::{ConnectionConfig, ConnectionService, ConnectionServiceControl, ConnectionServiceKeeper};
    use crate::error::NetworkError;
    use crate::event::*;
    use crate::message::RawSessionMessage;
    use crate::peer_manager::{DiscoveryAddrManager, IdentifyCallback, PeerManager, PeerManagerConfig};
    use crate::protocols::{vx_try_send, CoreProtocol};
    use crate::traits::{MessageSender, NetworkContext, NetworkProtocol};
    use crate::vxh::{guard, Ctx, Rng};
    use crate::vxt::service::{ServiceControl, ServiceError, ServiceEvent};
    use crate::vxt::{Op, Say, Wire, LAST};
    use crate::{NetworkConfig, NetworkService, NetworkServiceHandle};
    use async_trait::async_trait;
    use bytes::Bytes;
    use futures::channel::mpsc::{unbounded, UnboundedReceiver};
    use futures::executor::block_on;
    use futures::future::{BoxFuture, FutureExt};
    use futures::stream::StreamExt;
    use futures::task::{ArcWake, SpawnError};
    use protocol::traits::{Context, Gossip, MessageHandler, Priority, Rpc};
    use protocol::types::UserAddress;
    use protocol::ProtocolResult;
    use std::collections::{BTreeMap, HashSet, VecDeque};
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    use std::sync::{Arc, Mutex};
    use std::task::{Context as TaskContext, Poll};
    use std::time::Duration;
    use tentacle::context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext};
    use tentacle::error::Error as TentacleError;
    use tentacle::multiaddr::{Multiaddr, Protocol};
    use tentacle::secio::{PeerId, PublicKey, SecioKeyPair};
    use tentacle::service::{DialProtocol, SessionType, TargetSession};
    use tentacle::traits::{ServiceHandle, ServiceProtocol};
    use tentacle::{ProtocolId, SessionId};
    use tentacle_discovery::AddressManager;
    use tentacle_identify::Callback;

    type R = Result<(), (String, String)>;

    fn f<T>(k: &str, w: String) -> Result<T, (String, String)> {
        Err((k.to_owned(), w))
    }

    // -------------------------------------------------------------- what only the library can make
    #[repr(C)]
    struct Blank([u64; 512]);

    fn service_context() -> &'static mut ServiceContext {
        // Never read by what is called here
        unsafe { &mut *(Box::into_raw(Box::new(Blank([0; 512]))) as *mut ServiceContext) }
    }

    struct SessionMirror {
        id:            SessionId,
        address:       Multiaddr,
        ty:            SessionType,
        remote_pubkey: Option<PublicKey>,
        closed:        Arc<AtomicBool>,
        pending:       Arc<AtomicUsize>,
    }

    fn session(id: usize, address: Multiaddr, ty: SessionType, key: Option<PublicKey>) -> SessionContext {
        assert_eq!(std::mem::size_of::<SessionMirror>(), std::mem::size_of::<SessionContext>());
        let m = SessionMirror { id: SessionId::new(id), address, ty, remote_pubkey: key, closed: Default::default(), pending: Default::default() };
        unsafe { std::mem::transmute(m) }
    }

    struct RefMirror<'a> {
        inner:   &'a mut ProtocolContext,
        session: &'a SessionContext,
    }

    fn received(p: &mut Box<dyn ServiceProtocol + Send>, s: &SessionContext, data: Bytes) {
        let inner = unsafe { &mut *(Box::into_raw(Box::new(Blank([0; 512]))) as *mut ProtocolContext) };
        let keep = inner as *mut ProtocolContext;
        let c: ProtocolContextMutRef = unsafe { std::mem::transmute(RefMirror { inner, session: s }) };
        p.received(c, data);
        drop(unsafe { Box::from_raw(keep as *mut Blank) });
    }

    fn tell(k: &mut Box<dyn ServiceHandle + Send>, e: ServiceEvent) {
        let c = service_context();
        let keep = c as *mut ServiceContext;
        k.handle_event(c, e);
        drop(unsafe { Box::from_raw(keep as *mut Blank) });
    }

    fn fail(k: &mut Box<dyn ServiceHandle + Send>, e: ServiceError) {
        let c = service_context();
        let keep = c as *mut ServiceContext;
        k.handle_error(c, e);
        drop(unsafe { Box::from_raw(keep as *mut Blank) });
    }

    // -------------------------------------------------------------- values
    fn keypair(r: &mut Rng) -> SecioKeyPair {
        loop {
            if let Ok(k) = SecioKeyPair::secp256k1_raw_key(r.bytes(32)) {
                return k;
            }
        }
    }

    fn addr(r: &mut Rng) -> Multiaddr {
        let ip: std::net::IpAddr =
            if r.chance(1, 4) { std::net::Ipv6Addr::from(r.u64() as u128 * 3).into() } else { std::net::Ipv4Addr::from(r.u64() as u32).into() };
        let mut a = Multiaddr::from(ip);
        a.push(Protocol::Tcp(r.u64() as u16));
        a
    }

    fn addrs(r: &mut Rng, n: usize) -> Vec<Multiaddr> {
        (0..r.below(n + 1)).map(|_| addr(r)).collect()
    }

    fn pri(high: bool) -> Priority {
        if high { Priority::High } else { Priority::Normal }
    }

    fn target(r: &mut Rng) -> TargetSession {
        match r.below(3) {
            0 => TargetSession::All,
            1 => TargetSession::Single(SessionId::new(r.edgy() as usize)),
            _ => TargetSession::Multi((0..r.below(5)).map(|_| SessionId::new(r.edgy() as usize)).collect()),
        }
    }

    fn say(r: &mut Rng) -> Say {
        *r.pick(&[Say::Yes, Say::Yes, Say::Busy, Say::Odd, Say::Strange, Say::Closed])
    }

    fn io(r: &mut Rng) -> std::io::ErrorKind {
        use std::io::ErrorKind::*;
        *r.pick(&[TimedOut, Interrupted, ConnectionRefused, ConnectionReset, BrokenPipe, WouldBlock, NotFound, Other])
    }

    /// The same failure twice, since an error cannot be copied.
    fn failure(r: &mut Rng) -> Box<dyn Fn() -> TentacleError> {
        let k = io(r);
        let n = r.edgy() as usize;
        match r.below(10) {
            0 => Box::new(|| TentacleError::ConnectSelf),
            1 | 2 => Box::new(move || TentacleError::RepeatedConnection(SessionId::new(n))),
            3 => Box::new(|| TentacleError::PeerIdNotMatch),
            4 => Box::new(move || TentacleError::DNSResolverError(k.into())),
            5 => Box::new(move || TentacleError::SessionProtoHandleBlock(SessionId::new(n))),
            6 => Box::new(|| TentacleError::ServiceProtoHandleBlock),
            _ => Box::new(move || TentacleError::IoError(k.into())),
        }
    }

    fn drain<T>(rx: &mut UnboundedReceiver<T>) -> Vec<T> {
        let mut o = vec![];
        while let Ok(Some(x)) = rx.try_next() {
            o.push(x);
        }
        o
    }

    fn show<T: std::fmt::Debug>(v: &[T]) -> Vec<String> {
        v.iter().map(|x| format!("{:?}", x)).collect()
    }

    // -------------------------------------------------------------- the keeper of connections
    fn of_failed(listen: bool, e: TentacleError, addr: Multiaddr) -> PeerManagerEvent {
        use std::io::ErrorKind;
        let ty = if listen { ConnectionType::Listen } else { ConnectionType::Dialer };
        match e {
            TentacleError::ConnectSelf => PeerManagerEvent::AddListenAddr { addr },
            TentacleError::RepeatedConnection(sid) => PeerManagerEvent::RepeatedConnection { ty, sid, addr },
            TentacleError::IoError(ref x) if x.kind() == ErrorKind::TimedOut => PeerManagerEvent::ReconnectLater { addr, kind: RetryKind::TimedOut },
            TentacleError::IoError(ref x) if x.kind() == ErrorKind::Interrupted => PeerManagerEvent::ReconnectLater { addr, kind: RetryKind::Interrupted },
            e => PeerManagerEvent::UnconnectableAddress { addr: addr.clone(), kind: RemoveKind::UnableToConnect { addr, err: Box::new(e) } },
        }
    }

    fn keeper(r: &mut Rng, log: &mut Vec<String>) -> R {
        let (mgr_tx, mgr_rx) = unbounded();
        let (sys_tx, sys_rx) = unbounded();
        let (mut mgr, mut sys) = (Some(mgr_rx), Some(sys_rx));
        let mut k: Box<dyn ServiceHandle + Send> = Box::new(ConnectionServiceKeeper::new(mgr_tx, sys_tx));
        for _ in 0..1 + r.below(12) {
            if r.chance(1, 12) {
                mgr = None;
            }
            if r.chance(1, 12) {
                sys = None;
            }
            let key = keypair(r).to_public_key();
            let pid = key.peer_id();
            let a = addr(r);
            let id = r.edgy() as usize;
            let sid = SessionId::new(id);
            let ty = if r.chance(1, 2) { SessionType::Inbound } else { SessionType::Outbound };
            let sc = Arc::new(session(id, a.clone(), ty, Some(key.clone())));
            let e = failure(r);
            let what = r.below(14);
            let name = if r.chance(1, 2) { Some(format!("p{}", r.u8())) } else { None };
            log.push(format!("event {} session {} error {:?} manager {} errors {}", what, id, e(), mgr.is_some(), sys.is_some()));
            let (want, errs) = match what {
                0 | 1 => {
                    fail(&mut k, ServiceError::DialerError { address: a.clone(), error: e() });
                    (Some(of_failed(false, e(), a)), 0)
                }
                2 | 3 => {
                    fail(&mut k, ServiceError::ListenError { address: a.clone(), error: e() });
                    (Some(of_failed(true, e(), a)), 0)
                }
                4 => {
                    fail(&mut k, ServiceError::ProtocolSelectError { proto_name: name.clone(), session_context: sc });
                    (Some(match name {
                        Some(n) => PeerManagerEvent::RemovePeer { pid, kind: RemoveKind::UnknownProtocol(n) },
                        None => PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::ProtocolSelect },
                    }), 0)
                }
                5 => {
                    let p = ProtocolId::new(r.below(6));
                    fail(&mut k, ServiceError::ProtocolError { id: sid, proto_id: p, error: e() });
                    (Some(PeerManagerEvent::RemovePeerBySession { sid, kind: RemoveKind::BrokenProtocol { proto_id: p, err: Box::new(e()) } }), 0)
                }
                6 => {
                    fail(&mut k, ServiceError::SessionTimeout { session_context: sc });
                    (Some(PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::TimedOut }), 0)
                }
                7 => {
                    fail(&mut k, ServiceError::MuxerError { session_context: sc, error: e() });
                    (Some(PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::Multiplex(Box::new(e())) }), 0)
                }
                8 => {
                    fail(&mut k, ServiceError::ProtocolHandleError { error: e(), proto_id: ProtocolId::new(r.below(6)) });
                    (None, 1)
                }
                9 => {
                    fail(&mut k, ServiceError::SessionBlocked { session_context: sc });
                    (Some(PeerManagerEvent::RemovePeerBySession { sid, kind: RemoveKind::SessionBlocked { pid, sid } }), 1)
                }
                10 => {
                    tell(&mut k, ServiceEvent::SessionOpen { session_context: sc });
                    (Some(PeerManagerEvent::AttachPeerSession { pubkey: key, session: Session { sid, addr: a, ty } }), 0)
                }
                11 => {
                    tell(&mut k, ServiceEvent::SessionClose { session_context: sc });
                    (Some(PeerManagerEvent::DetachPeerSession { pid, sid, ty }), 0)
                }
                12 => {
                    tell(&mut k, ServiceEvent::ListenStarted { address: a.clone() });
                    (Some(PeerManagerEvent::AddListenAddr { addr: a }), 0)
                }
                _ => {
                    tell(&mut k, ServiceEvent::ListenClose { address: a.clone() });
                    (Some(PeerManagerEvent::RemoveListenAddr { addr: a }), 0)
                }
            };
            let errs = errs + if mgr.is_none() && want.is_some() { 1 } else { 0 };
            if let Some(rx) = &mut mgr {
                let got = show(&drain(rx));
                let want: Vec<String> = want.iter().map(|x| format!("{:?}", x)).collect();
                if got != want {
                    return f("connection event", format!("the peer manager was told {:?}, not {:?}", got, want));
                }
            }
            if let Some(rx) = &mut sys {
                let n = drain(rx).len();
                if n != errs {
                    return f("connection error", format!("{} errors were reported, not {}", n, errs));
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- sending
    fn op_text(o: &Op) -> String {
        match o {
            Op::Send(h, t, p, d) => format!("send high {} {:?} protocol {} {}", h, t, p, hex::encode(d)),
            o => format!("{:?}", o),
        }
    }

    fn control(r: &mut Rng, log: &mut Vec<String>) -> R {
        let wire = Arc::new(Mutex::new(Wire::default()));
        let (mgr_tx, mgr_rx) = unbounded();
        let mut mgr = Some(mgr_rx);
        let mut c = ConnectionServiceControl::<CoreProtocol>::new(ServiceControl { wire: wire.clone() }, mgr_tx);
        for _ in 0..1 + r.below(6) {
            if r.chance(1, 6) {
                c = c.clone();
            }
            let n = r.below(40);
            let data = Bytes::from(r.bytes(n));
            let high = r.chance(1, 2);
            if r.chance(1, 2) {
                let t = target(r);
                let s = say(r);
                log.push(format!("send {:?} {} high {}: {:?}", t, hex::encode(&data), high, s));
                wire.lock().unwrap().script.push_back(s);
                let got = c.send(t.clone(), data.clone(), pri(high));
                let ops: Vec<(Op, Say)> = wire.lock().unwrap().ops.drain(..).collect();
                let want = op_text(&Op::Send(high, t, ProtocolId::new(4), data));
                if ops.len() != 1 || op_text(&ops[0].0) != want {
                    return f("message sent", format!("asked {:?}, not {}", ops.iter().map(|o| op_text(&o.0)).collect::<Vec<_>>(), want));
                }
                let ok = match (s, &got) {
                    (Say::Yes, Ok(())) => true,
                    (Say::Busy, Err(NetworkError::Busy)) => true,
                    (Say::Closed, Err(NetworkError::Shutdown)) => true,
                    (Say::Odd, Err(NetworkError::UnexpectedError(_))) => true,
                    (Say::Strange, Err(NetworkError::UnexpectedError(_))) => true,
                    _ => false,
                };
                if !ok {
                    return f("send answer", format!("{:?} was answered as {:?}", s, got));
                }
            } else {
                if r.chance(1, 10) {
                    mgr = None;
                }
                let users: Vec<UserAddress> = (0..r.below(5)).map(|_| UserAddress::from_pubkey_bytes(Bytes::from(r.bytes(33))).unwrap()).collect();
                let missed: Vec<UserAddress> = if r.chance(1, 2) { vec![] } else { users.iter().filter(|_| r.chance(1, 2)).cloned().collect() };
                let answer = !r.chance(1, 6);
                log.push(format!("send to users {:?}, missed {:?}, answered {}, manager {}", users, missed, answer, mgr.is_some()));
                let mut fut = c.users_send(users.clone(), data.clone(), pri(high));
                let w = futures::task::noop_waker();
                let mut cx = TaskContext::from_waker(&w);
                let first = fut.as_mut().poll(&mut cx);
                let got = match &mut mgr {
                    None => first,
                    Some(rx) => {
                        if first.is_ready() {
                            return f("users unanswered", "done before the peer manager said who was missed".to_owned());
                        }
                        let mut es = drain(rx);
                        match (es.pop(), es.is_empty()) {
                            (Some(PeerManagerEvent::RouteMultiUsersMessage { users_msg, miss_tx }), true) => {
                                if users_msg.user_addrs != users || users_msg.msg != data || format!("{:?}", users_msg.pri) != format!("{:?}", pri(high)) {
                                    return f("users message", format!("{:?}", users_msg));
                                }
                                if answer {
                                    let _ = miss_tx.send(missed.clone());
                                }
                            }
                            (e, _) => return f("users routed", format!("the peer manager was told {:?} and {} more", e, es.len())),
                        }
                        fut.as_mut().poll(&mut cx)
                    }
                };
                let ok = match &got {
                    Poll::Ready(Ok(())) => mgr.is_some() && answer && missed.is_empty(),
                    Poll::Ready(Err(NetworkError::PartialRouteMessage { miss })) => mgr.is_some() && answer && !missed.is_empty() && *miss == missed,
                    Poll::Ready(Err(NetworkError::UnexpectedError(_))) => mgr.is_none() || !answer,
                    _ => false,
                };
                if !ok {
                    return f("users answer", format!("{:?}", got));
                }
                if !wire.lock().unwrap().ops.is_empty() {
                    return f("users sent", "something was sent past the peer manager".to_owned());
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- requests to the connection service
    #[derive(Clone, Debug)]
    enum Ask {
        Connect(Vec<Multiaddr>),
        Cut(SessionId),
        Send(TargetSession, Bytes, bool),
    }

    fn event(a: &Ask) -> ConnectionEvent {
        match a.clone() {
            Ask::Connect(addrs) => ConnectionEvent::Connect { addrs, proto: CoreProtocol::target() },
            Ask::Cut(s) => ConnectionEvent::Disconnect(s),
            Ask::Send(tar, msg, high) => ConnectionEvent::SendMsg { tar, msg, pri: pri(high) },
        }
    }

    struct Model {
        script:  VecDeque<Say>,
        ops:     Vec<(String, Say)>,
        pending: Vec<Ask>,
    }

    impl Model {
        fn ask(&mut self, o: Op) -> Say {
            let s = self.script.pop_front().unwrap_or(Say::Yes);
            self.ops.push((op_text(&o), s));
            s
        }

        fn take(&mut self, a: Ask) {
            match a {
                Ask::Connect(v) => {
                    let mut left = vec![];
                    for x in v {
                        match self.ask(Op::Dial(x.clone(), DialProtocol::Multi((1..5).map(ProtocolId::new).collect()))) {
                            Say::Yes => {}
                            Say::Closed => return,
                            _ => left.push(x),
                        }
                    }
                    if !left.is_empty() {
                        self.pending.push(Ask::Connect(left));
                    }
                }
                Ask::Cut(s) => match self.ask(Op::Cut(s)) {
                    Say::Yes | Say::Closed => {}
                    _ => self.pending.push(Ask::Cut(s)),
                },
                Ask::Send(t, m, h) => match self.ask(Op::Send(h, t.clone(), ProtocolId::new(4), m.clone())) {
                    Say::Yes | Say::Closed => {}
                    _ => self.pending.push(Ask::Send(t, m, h)),
                },
            }
        }
    }

    fn protocols(raw: futures::channel::mpsc::UnboundedSender<RawSessionMessage>) -> CoreProtocol {
        let (tx, rx) = unbounded();
        let (conn_tx, _) = unbounded();
        let pm = PeerManager::new(PeerManagerConfig::from(&NetworkConfig::new()), rx, conn_tx);
        let h = pm.handle();
        CoreProtocol::build()
            .ping(Duration::from_secs(1), Duration::from_secs(2), tx.clone())
            .identify(IdentifyCallback::new(h.clone(), tx.clone()))
            .discovery(DiscoveryAddrManager::new(h, tx), Duration::from_secs(3))
            .transmitter(raw)
            .build()
    }

    fn service(r: &mut Rng, log: &mut Vec<String>) -> R {
        let (mgr_tx, _mgr_rx) = unbounded();
        let (sys_tx, _sys_rx) = unbounded();
        let (tx, rx) = unbounded();
        let (raw_tx, _raw_rx) = unbounded();
        let frame = if r.chance(1, 4) { None } else { Some(r.below(1 << 24)) };
        let key = keypair(r);
        let keeper = ConnectionServiceKeeper::new(mgr_tx.clone(), sys_tx);
        let cfg = ConnectionConfig { secio_keypair: key.clone(), max_frame_length: frame };
        let mut s = ConnectionService::<CoreProtocol>::new(protocols(raw_tx), cfg, keeper, rx);
        let wire = LAST.with(|l| l.borrow_mut().take()).ok_or(("no service".to_owned(), String::new()))?;
        {
            let w = wire.lock().unwrap();
            let mut ids: Vec<usize> = w.protos.iter().map(|p| p.0.value()).collect();
            ids.sort();
            if ids != [1, 2, 3, 4] || w.frame != frame || w.key.as_ref().map(|k| k.to_public_key()) != Some(key.to_public_key()) || !w.forever {
                return f("service made", format!("protocols {:?}, frame {:?} for {:?}, forever {}", ids, w.frame, frame, w.forever));
            }
        }
        if r.chance(1, 2) {
            let a = addr(r);
            let ok = s.listen(a.clone()).is_ok();
            if !ok || wire.lock().unwrap().listens != vec![a.clone()] {
                return f("listen", format!("{} {:?}", a, wire.lock().unwrap().listens));
            }
        }
        let mut m = Model { script: Default::default(), ops: vec![], pending: vec![] };
        let mut queue: VecDeque<Ask> = Default::default();
        let w = futures::task::noop_waker();
        let mut cx = TaskContext::from_waker(&w);
        let mut tx = Some(tx);
        for _ in 0..1 + r.below(8) {
            let a = match r.below(5) {
                0 | 1 => Ask::Connect(addrs(r, 4)),
                2 => Ask::Cut(SessionId::new(r.edgy() as usize)),
                _ => {
                    let n = r.below(20);
                    Ask::Send(target(r), Bytes::from(r.bytes(n)), r.chance(1, 2))
                }
            };
            for _ in 0..r.below(5) {
                let x = if r.chance(9, 10) { *r.pick(&[Say::Yes, Say::Busy, Say::Odd, Say::Strange]) } else { Say::Closed };
                m.script.push_back(x);
                wire.lock().unwrap().script.push_back(x);
            }
            log.push(format!("{:?}, answers {:?}", a, m.script));
            if r.chance(1, 4) {
                s.process_event(event(&a));
                m.take(a);
            } else if let Some(t) = &tx {
                let _ = t.unbounded_send(event(&a));
                queue.push_back(a);
            }
            let mut done = false;
            if r.chance(2, 3) {
                log.push("poll".to_owned());
                for a in std::mem::replace(&mut m.pending, vec![]) {
                    m.take(a);
                }
                while m.pending.is_empty() {
                    match queue.pop_front() {
                        Some(a) => m.take(a),
                        None => {
                            done = tx.is_none();
                            break;
                        }
                    }
                }
                let p = Pin::new(&mut s).poll(&mut cx);
                if p.is_ready() != done {
                    return f("service ended", format!("{:?}, asked for more: {}", p, tx.is_some()));
                }
            }
            let ops: Vec<(String, Say)> = wire.lock().unwrap().ops.iter().map(|o| (op_text(&o.0), o.1)).collect();
            if ops != m.ops {
                let i = ops.iter().zip(&m.ops).position(|(a, b)| a != b).unwrap_or_else(|| ops.len().min(m.ops.len()));
                return f("requests", format!("request {}: {:?}, not {:?}", i, ops.get(i), m.ops.get(i)));
            }
            if done {
                return Ok(());
            }
            if r.chance(1, 20) {
                log.push("nobody asks for more".to_owned());
                tx = None;
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- pings, addresses, messages
    fn reports(r: &mut Rng, log: &mut Vec<String>) -> R {
        use tentacle_ping::Event as E;
        let (tx, rx) = unbounded();
        let mut rx = Some(rx);
        let (conn_tx, _conn_rx) = unbounded();
        let (_t, prx) = unbounded();
        let pm = PeerManager::new(PeerManagerConfig::from(&NetworkConfig::new()), prx, conn_tx);
        let h = pm.handle();
        let mut ping = vx_try_send(tx.clone());
        let mut disc = DiscoveryAddrManager::new(h.clone(), tx.clone());
        let mut ident = IdentifyCallback::new(h.clone(), tx.clone());
        let (raw_tx, raw_rx) = unbounded();
        let mut raw = Some(raw_rx);
        let mut protos: Vec<_> = protocols(raw_tx).metas();
        let mut talk = match protos.iter_mut().find(|p| p.id().value() == 4).and_then(|p| p.handle.take()) {
            Some(p) => p,
            None => return f("no protocol", "messages have no protocol".to_owned()),
        };
        for _ in 0..1 + r.below(10) {
            if r.chance(1, 15) {
                rx = None;
            }
            let pid = keypair(r).to_peer_id();
            let sid = SessionId::new(r.edgy() as usize);
            let a = addr(r);
            let many = addrs(r, 4);
            let d = Duration::from_millis(r.below(10000) as u64);
            let what = r.below(11);
            log.push(format!("report {} peer {:?} session {} address {} {:?}, manager {}", what, pid, sid, a, many, rx.is_some()));
            let (want, bad): (Option<PeerManagerEvent>, Option<bool>) = match what {
                0..=3 => match &mut ping {
                    None => (None, None),
                    Some(p) => {
                        let (e, want) = match what {
                            0 => (E::Ping(pid.clone()), PeerManagerEvent::PeerAlive { pid }),
                            1 => (E::Pong(pid.clone(), d), PeerManagerEvent::PeerAlive { pid }),
                            2 => (E::Timeout(pid.clone()), PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::TimedOut }),
                            _ => (
                                E::UnexpectedError(pid.clone()),
                                PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::Other("ping unexpected error, maybe unstable network") },
                            ),
                        };
                        let got = p(e);
                        let ok = match got {
                            Ok(()) => rx.is_some(),
                            Err(generic_channel::TrySendError::Disconnected(_)) => rx.is_none(),
                            Err(generic_channel::TrySendError::Full(_)) => false,
                        };
                        if !ok {
                            return f("ping report", format!("{:?} with the peer manager there: {}", got.is_ok(), rx.is_some()));
                        }
                        (Some(want), None)
                    }
                },
                4 => {
                    disc.add_new_addr(sid, a.clone());
                    (Some(PeerManagerEvent::DiscoverAddr { addr: a }), None)
                }
                5 => {
                    disc.add_new_addrs(sid, many.clone());
                    (Some(PeerManagerEvent::DiscoverMultiAddrs { addrs: many }), None)
                }
                6 => {
                    use tentacle_discovery::Misbehavior::*;
                    let k = match r.below(4) {
                        0 => DuplicateGetNodes,
                        1 => DuplicateFirstNodes,
                        2 => TooManyItems { announce: r.chance(1, 2), length: r.below(100) },
                        _ => TooManyAddresses(r.below(100)),
                    };
                    if disc.misbehave(sid, k).is_continue() {
                        return f("bad discovery", "a peer that misbehaves stays connected".to_owned());
                    }
                    if let Some(rx) = &mut rx {
                        let mut es = drain(rx);
                        match es.pop() {
                            Some(PeerManagerEvent::RemovePeerBySession { sid: s, .. }) if s == sid && es.is_empty() => {}
                            e => return f("bad discovery", format!("session {} misbehaved, the peer manager was told {:?}", sid, e)),
                        }
                    }
                    continue;
                }
                7 => {
                    use tentacle_identify::Misbehavior::*;
                    let k = match r.below(5) {
                        0 => DuplicateListenAddrs,
                        1 => DuplicateObservedAddr,
                        2 => Timeout,
                        3 => InvalidData,
                        _ => TooManyAddresses(r.below(100)),
                    };
                    (None, Some(ident.misbehave(&pid, k).is_continue()))
                }
                8 => {
                    ident.add_remote_listen_addrs(&pid, many.clone());
                    (Some(PeerManagerEvent::IdentifiedAddrs { pid, addrs: many }), None)
                }
                9 => {
                    pm.set_listen(a.clone());
                    let (x, y) = (ident.local_listen_addrs(), h.listen_addrs());
                    if x != y {
                        return f("listen addresses", format!("{:?} told to others, {:?} ours", x, y));
                    }
                    (None, None)
                }
                _ => {
                    if r.chance(1, 10) {
                        raw = None;
                    }
                    let n = r.below(30);
                    let data = Bytes::from(r.bytes(n));
                    let sc = session(sid.value(), a, SessionType::Inbound, None);
                    received(&mut talk, &sc, data.clone());
                    if let Some(rx) = &mut raw {
                        let got = drain(rx);
                        if got.len() != 1 || got[0].sid != sid || got[0].msg != data {
                            return f("message taken", format!("session {} sent {}, the router got {:?}", sid, hex::encode(&data), got.len()));
                        }
                    }
                    (None, None)
                }
            };
            if bad == Some(true) {
                return f("bad identify", "a peer that misbehaves stays connected".to_owned());
            }
            if let Some(rx) = &mut rx {
                let got = show(&drain(rx));
                let want: Vec<String> = want.iter().map(|x| format!("{:?}", x)).collect();
                if got != want {
                    return f("report", format!("the peer manager was told {:?}, not {:?}", got, want));
                }
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- the configuration
    fn config(r: &mut Rng, log: &mut Vec<String>) -> R {
        let sk = r.bytes(32);
        let key = SecioKeyPair::secp256k1_raw_key(&sk);
        let n = |r: &mut Rng| r.below(1 << 30);
        let (mc, mf, pi, pt, ds, ph, hb) = (n(r), n(r), n(r) as u64, n(r) as u64, n(r) as u64, n(r) as u64, n(r) as u64);
        let boots: Vec<(PublicKey, std::net::SocketAddr)> = (0..r.below(4))
            .map(|_| {
                let ip: std::net::IpAddr = if r.chance(1, 4) { std::net::Ipv6Addr::from(r.u64() as u128).into() } else { std::net::Ipv4Addr::from(r.u64() as u32).into() };
                (keypair(r).to_public_key(), (ip, r.u64() as u16).into())
            })
            .collect();
        log.push(format!("bootstraps {:?}, numbers {:?}", boots, (mc, mf, pi, pt, ds, ph, hb)));
        let mut c = NetworkConfig::new();
        // In any order
        let mut order: Vec<usize> = (0..10).collect();
        for i in (1..10).rev() {
            order.swap(i, r.below(i + 1));
        }
        let dir = format!("d{}", r.u8());
        for o in order {
            c = match o {
                0 => c.max_connections(mc),
                1 => c.max_frame_length(mf),
                2 => c.ping_interval(pi),
                3 => c.ping_timeout(pt),
                4 => c.discovery_sync_interval(ds),
                5 => c.peer_manager_heart_beat_interval(ph),
                6 => c.heart_beat_interval(hb),
                7 => c.persistence_path(&dir),
                8 => c.bootstraps(boots.iter().map(|(k, a)| (hex::encode(k.inner_ref()), *a)).collect()).map_err(|e| ("bootstraps".to_owned(), e.to_string()))?,
                _ => match (c.secio_keypair(hex::encode(&sk)), &key) {
                    (Ok(c), Ok(_)) => c,
                    (Err(_), Err(_)) => return Ok(()),
                    (x, _) => return f("private key", format!("taken {} good {}", x.is_ok(), key.is_ok())),
                },
            };
        }
        let key = key.unwrap();
        let secs = Duration::from_secs;
        if c.ping_interval != secs(pi)
            || c.ping_timeout != secs(pt)
            || c.discovery_sync_interval != secs(ds)
            || c.heart_beat_interval != secs(hb)
            || c.max_frame_length != mf
            || c.enable_persistence
        {
            return f("configured", format!("{:?}", c));
        }
        let cc = ConnectionConfig::from(&c);
        if cc.max_frame_length != Some(mf) || cc.secio_keypair.to_public_key() != key.to_public_key() {
            return f("connection configured", format!("frames {:?}, not {}", cc.max_frame_length, mf));
        }
        let p = PeerManagerConfig::from(&c);
        let got: Vec<(Vec<u8>, String, Vec<String>)> = p
            .bootstraps
            .iter()
            .map(|b| (b.id().as_bytes().to_vec(), format!("{:?}", b.user_addr()), b.addrs().into_iter().map(|a| a.to_string()).collect()))
            .collect();
        let want: Vec<(Vec<u8>, String, Vec<String>)> = boots
            .iter()
            .map(|(k, a)| {
                let mut m = Multiaddr::from(a.ip());
                m.push(Protocol::Tcp(a.port()));
                (k.peer_id().as_bytes().to_vec(), format!("{:?}", UserAddress::from_pubkey_bytes(Bytes::from(k.inner_ref().to_vec())).unwrap()), vec![m.to_string()])
            })
            .collect();
        if got != want {
            return f("bootstraps", format!("{:?}, not {:?}", got, want));
        }
        if p.max_connections != mc
            || p.routine_interval != secs(ph)
            || p.our_id != key.to_peer_id()
            || p.pubkey != key.to_public_key()
            || p.persistence_path != std::path::Path::new(&dir).join("peers.dat")
        {
            return f("peer manager configured", format!("{:?} {:?} {:?}", p.max_connections, p.routine_interval, p.persistence_path));
        }
        for bad in &["", "zz", "0x11", "123"] {
            if NetworkConfig::new().secio_keypair((*bad).to_owned()).is_ok() {
                return f("private key", format!("{:?} was taken as a key", bad));
            }
        }
        if NetworkConfig::new().bootstraps(vec![("zz".to_owned(), ([1, 2, 3, 4], 5).into())]).is_ok() {
            return f("public key", "\"zz\" was taken as a key".to_owned());
        }
        Ok(())
    }

    // -------------------------------------------------------------- several nodes
    struct Flag(AtomicBool);

    impl ArcWake for Flag {
        fn wake_by_ref(a: &Arc<Self>) {
            a.0.store(true, Ordering::SeqCst)
        }
    }

    /// Runs what is spawned, on this thread, when told to.
    struct Own {
        q: Mutex<Vec<BoxFuture<'static, ()>>>,
    }

    impl runtime::raw::Runtime for Own {
        fn spawn_boxed(&self, fut: BoxFuture<'static, ()>) -> Result<(), SpawnError> {
            self.q.lock().unwrap().push(fut);
            Ok(())
        }

        fn connect_tcp_stream(&self, _: &std::net::SocketAddr) -> BoxFuture<'static, std::io::Result<Pin<Box<dyn runtime::raw::TcpStream>>>> {
            unimplemented!()
        }

        fn bind_tcp_listener(&self, _: &std::net::SocketAddr) -> std::io::Result<Pin<Box<dyn runtime::raw::TcpListener>>> {
            unimplemented!()
        }

        fn bind_udp_socket(&self, _: &std::net::SocketAddr) -> std::io::Result<Pin<Box<dyn runtime::raw::UdpSocket>>> {
            unimplemented!()
        }

        fn new_delay(&self, _: Duration) -> Pin<Box<dyn runtime::raw::Delay>> {
            unimplemented!()
        }

        fn new_delay_at(&self, _: std::time::Instant) -> Pin<Box<dyn runtime::raw::Delay>> {
            unimplemented!()
        }

        fn new_interval(&self, _: Duration) -> Pin<Box<dyn runtime::raw::Interval>> {
            unimplemented!()
        }
    }

    type Got = Arc<Mutex<Vec<(String, Option<usize>, String)>>>;

    struct Take {
        end:    String,
        got:    Got,
        answer: Option<(NetworkServiceHandle, String)>,
    }

    #[async_trait]
    impl MessageHandler for Take {
        type Message = String;

        async fn process(&self, ctx: Context, msg: String) -> ProtocolResult<()> {
            self.got.lock().unwrap().push((self.end.clone(), ctx.session_id().ok().map(|s| s.value()), msg.clone()));
            if let Some((h, end)) = &self.answer {
                h.response(ctx, end, format!("re: {}", msg), Priority::High).await?;
            }
            Ok(())
        }
    }

    struct Node {
        key:    SecioKeyPair,
        addr:   Multiaddr,
        wire:   Arc<Mutex<Wire>>,
        handle: NetworkServiceHandle,
        got:    Got,
        here:   Option<Box<dyn Fn() -> Vec<Multiaddr> + Send>>,
        seen:   usize,
        sids:   usize,
    }

    struct Link {
        ends: [(usize, usize); 2],
        ctx:  [Arc<SessionContext>; 2],
    }

    struct World {
        own:   &'static Own,
        tasks: Vec<(BoxFuture<'static, ()>, Arc<Flag>)>,
        nodes: Vec<Node>,
        links: Vec<Link>,
        dials: Vec<(usize, usize)>,
    }

    impl World {
        fn run(&mut self) {
            loop {
                for t in self.own.q.lock().unwrap().drain(..) {
                    self.tasks.push((t, Arc::new(Flag(AtomicBool::new(true)))));
                }
                let mut any = false;
                let mut i = 0;
                while i < self.tasks.len() {
                    let (t, fl) = &mut self.tasks[i];
                    if fl.0.swap(false, Ordering::SeqCst) {
                        any = true;
                        let w = futures::task::waker(fl.clone());
                        if t.as_mut().poll(&mut TaskContext::from_waker(&w)).is_ready() {
                            let _ = self.tasks.swap_remove(i);
                            continue;
                        }
                    }
                    i += 1;
                }
                if !any && self.own.q.lock().unwrap().is_empty() {
                    return;
                }
            }
        }

        fn event(&mut self, n: usize, e: ServiceEvent) {
            let mut k = self.nodes[n].wire.lock().unwrap().keeper.take().expect("a keeper");
            tell(&mut k, e);
            self.nodes[n].wire.lock().unwrap().keeper = Some(k);
        }

        fn error(&mut self, n: usize, e: ServiceError) {
            let mut k = self.nodes[n].wire.lock().unwrap().keeper.take().expect("a keeper");
            fail(&mut k, e);
            self.nodes[n].wire.lock().unwrap().keeper = Some(k);
        }

        fn close(&mut self, i: usize) {
            let l = self.links.remove(i);
            for k in 0..2 {
                self.event(l.ends[k].0, ServiceEvent::SessionClose { session_context: l.ctx[k].clone() });
            }
        }

        /// Does for the transport what it was asked to, until nobody asks for more.
        fn pump(&mut self) -> R {
            for _ in 0..200 {
                self.run();
                let mut quiet = true;
                for n in 0..self.nodes.len() {
                    let (seen, ops) = {
                        let w = self.nodes[n].wire.lock().unwrap();
                        (self.nodes[n].seen, w.ops.clone())
                    };
                    self.nodes[n].seen = ops.len();
                    for (op, say) in &ops[seen..] {
                        quiet = false;
                        if *say == Say::Yes {
                            self.act(n, op)?;
                        }
                    }
                }
                if quiet {
                    return Ok(());
                }
            }
            f("restless", "the nodes do not come to rest".to_owned())
        }

        fn act(&mut self, n: usize, op: &Op) -> R {
            match op {
                Op::Dial(a, p) => {
                    if format!("{:?}", p) != format!("{:?}", DialProtocol::Multi((1..5).map(ProtocolId::new).collect())) {
                        return f("dialled protocols", format!("{:?}", p));
                    }
                    let root: Multiaddr = a.iter().take(2).collect();
                    let to = match self.nodes.iter().position(|x| x.addr == root) {
                        Some(t) => t,
                        None => return f("dialled whom", format!("node {} dialled {}, where nobody is", n, a)),
                    };
                    self.dials.push((n, to));
                    if to == n {
                        self.error(n, ServiceError::DialerError { address: a.clone(), error: TentacleError::ConnectSelf });
                        return Ok(());
                    }
                    let old = self.links.iter().find_map(|l| (0..2).find(|k| l.ends[*k].0 == n && l.ends[1 - *k].0 == to).map(|k| l.ends[k].1));
                    if let Some(s) = old {
                        self.error(n, ServiceError::DialerError { address: a.clone(), error: TentacleError::RepeatedConnection(SessionId::new(s)) });
                        return Ok(());
                    }
                    self.nodes[n].sids += 1 + n;
                    self.nodes[to].sids += 1 + to;
                    let (s, t) = (self.nodes[n].sids, self.nodes[to].sids);
                    let mut from: Multiaddr = self.nodes[n].addr.iter().take(1).collect();
                    from.push(Protocol::Tcp(40000 + s as u16));
                    let a0 = Arc::new(session(s, a.clone(), SessionType::Outbound, Some(self.nodes[to].key.to_public_key())));
                    let a1 = Arc::new(session(t, from, SessionType::Inbound, Some(self.nodes[n].key.to_public_key())));
                    self.links.push(Link { ends: [(n, s), (to, t)], ctx: [a0.clone(), a1.clone()] });
                    self.event(n, ServiceEvent::SessionOpen { session_context: a0 });
                    self.event(to, ServiceEvent::SessionOpen { session_context: a1 });
                }
                Op::Cut(s) => {
                    let i = self.links.iter().position(|l| l.ends.contains(&(n, s.value())));
                    if let Some(i) = i {
                        self.close(i);
                    }
                }
                Op::Send(_, t, p, d) => {
                    for i in 0..self.links.len() {
                        for k in 0..2 {
                            let (a, s) = self.links[i].ends[k];
                            let meant = match t {
                                TargetSession::All => true,
                                TargetSession::Single(x) => x.value() == s,
                                TargetSession::Multi(v) => v.contains(&SessionId::new(s)),
                            };
                            if a != n || !meant {
                                continue;
                            }
                            let b = self.links[i].ends[1 - k].0;
                            let ctx = self.links[i].ctx[1 - k].clone();
                            let mut w = self.nodes[b].wire.lock().unwrap();
                            match w.protos.iter_mut().find(|x| x.0 == *p) {
                                Some(x) => received(&mut x.3, &ctx, d.clone()),
                                None => return f("unknown protocol", format!("sent by protocol {}", p)),
                            }
                        }
                    }
                }
            }
            Ok(())
        }

        fn spawn<T: Send + 'static>(&self, fut: impl Future<Output = T> + Send + 'static) -> Arc<Mutex<Option<T>>> {
            let out = Arc::new(Mutex::new(None));
            let o = out.clone();
            self.own.q.lock().unwrap().push(
                async move {
                    let t = fut.await;
                    *o.lock().unwrap() = Some(t);
                }
                    .boxed(),
            );
            out
        }
    }

    const G1: &str = "/gossip/vx/one";
    const G2: &str = "/gossip/vx/two";
    const CALL: &str = "/rpc_call/vx/ask";
    const RESP: &str = "/rpc_resp/vx/ask";

    fn node(r: &mut Rng, i: usize, w: &World, keys: &[SecioKeyPair], at: &[std::net::SocketAddr], log: &mut Vec<String>) -> Result<(Node, BoxFuture<'static, ()>), (String, String)> {
        let boots: Vec<usize> = if i == 0 { vec![] } else { vec![r.below(i)] };
        log.push(format!("node {} at {} begins with {:?}", i, at[i], boots));
        let err = |e: protocol::ProtocolError| ("node".to_owned(), e.to_string());
        let mut cfg = NetworkConfig::new().bootstraps(boots.iter().map(|b| (hex::encode(keys[*b].to_public_key().inner_ref()), at[*b])).collect()).map_err(err)?;
        cfg.secio_keypair = keys[i].clone();
        let mut me = Multiaddr::from(at[i].ip());
        me.push(Protocol::Tcp(at[i].port()));
        let frame = r.below(1 << 20);
        cfg.max_frame_length = frame;
        let by_default = r.chance(1, 3);
        if by_default {
            cfg.default_listen = me.clone();
        }
        LAST.with(|l| *l.borrow_mut() = None);
        let mut s = NetworkService::new(cfg);
        let wire = LAST.with(|l| l.borrow_mut().take()).ok_or(("no service".to_owned(), String::new()))?;
        let got: Got = Default::default();
        let handle = s.handle();
        for end in &[G1, G2] {
            s.register_endpoint_handler(end, Box::new(Take { end: end.to_string(), got: got.clone(), answer: None })).map_err(err)?;
        }
        s.register_endpoint_handler(CALL, Box::new(Take { end: CALL.to_owned(), got: got.clone(), answer: Some((s.handle(), RESP.to_owned())) })).map_err(err)?;
        s.register_rpc_response::<String>(RESP).map_err(err)?;
        if s.register_endpoint_handler(RESP, Box::new(Take { end: RESP.to_owned(), got: got.clone(), answer: None })).is_ok() {
            return f("answers handled", "a handler was taken for answers".to_owned());
        }
        for end in &[G1, CALL, "/nonsense/vx/ask", "gossip"] {
            if s.register_rpc_response::<String>(end).is_ok() {
                return f("answers expected", format!("{} was taken for answers", end));
            }
        }
        if s.register_endpoint_handler("/nonsense/vx/ask", Box::new(Take { end: String::new(), got: got.clone(), answer: None })).is_ok() {
            return f("unknown scheme", "a handler was taken for no scheme".to_owned());
        }
        if !by_default {
            s.listen(at[i]).map_err(err)?;
            if r.chance(1, 4) {
                // The second address is not listened to
                s.listen(([9, 9, 9, 9], 9).into()).map_err(err)?;
            }
        }
        let key = wire.lock().unwrap().key.as_ref().map(|k| k.to_public_key());
        if key != Some(keys[i].to_public_key()) || wire.lock().unwrap().frame != Some(frame) {
            return f("node configured", format!("frames of {:?}, not {}", wire.lock().unwrap().frame, frame));
        }
        let n = Node { key: keys[i].clone(), addr: me, wire, handle, got, here: s.vx_listen(), seen: 0, sids: 0 };
        let _ = w;
        Ok((n, s.boxed()))
    }

    fn user(k: &SecioKeyPair) -> UserAddress {
        UserAddress::from_pubkey_bytes(Bytes::from(k.to_public_key().inner_ref().to_vec())).unwrap()
    }

    fn world(r: &mut Rng, own: &'static Own, log: &mut Vec<String>) -> R {
        own.q.lock().unwrap().clear();
        let n = 2 + r.below(4);
        let keys: Vec<SecioKeyPair> = (0..n).map(|_| keypair(r)).collect();
        let at: Vec<std::net::SocketAddr> = (0..n).map(|i| ([10, 0, 0, i as u8 + 1], 1000 + r.below(9) as u16).into()).collect();
        let mut w = World { own, tasks: vec![], nodes: vec![], links: vec![], dials: vec![] };
        let mut boots = vec![];
        let mut starts = vec![];
        for i in 0..n {
            let (x, s) = node(r, i, &w, &keys, &at, log)?;
            let l = log.last().unwrap().clone();
            if let Some(b) = l.rsplit('[').next().and_then(|x| x.trim_end_matches(']').parse::<usize>().ok()) {
                boots.push((i, b));
            }
            w.nodes.push(x);
            starts.push(s);
        }
        for s in starts {
            w.own.q.lock().unwrap().push(s);
        }
        // Now and then the transport is busy at first
        for x in &w.nodes {
            for _ in 0..if r.chance(1, 4) { r.below(3) } else { 0 } {
                x.wire.lock().unwrap().script.push_back(Say::Busy);
            }
        }
        w.pump()?;
        for x in &w.nodes {
            if x.wire.lock().unwrap().listens != vec![x.addr.clone()] {
                return f("listens", format!("{:?}, not {}", x.wire.lock().unwrap().listens, x.addr));
            }
        }
        for x in &w.nodes {
            if let Some(h) = &x.here {
                if h() != vec![x.addr.clone()] {
                    return f("announced", format!("others are told {:?}, not {}", h(), x.addr));
                }
            }
        }
        for _ in 0..3 {
            // A request that was refused is made again when the service runs next
            for (_, fl) in &w.tasks {
                fl.0.store(true, Ordering::SeqCst);
            }
            w.pump()?;
        }
        for x in &w.nodes {
            x.wire.lock().unwrap().script.clear();
        }
        for b in &boots {
            if !w.links.iter().any(|l| (l.ends[0].0, l.ends[1].0) == *b) {
                return f("bootstraps dialled", format!("node {} did not connect to {}", b.0, b.1));
            }
        }
        for step in 0..r.below(10) {
            let a = r.below(n);
            let near: Vec<(usize, usize, usize)> =
                w.links.iter().flat_map(|l| (0..2).filter(|k| l.ends[*k].0 == a).map(|k| (l.ends[k].1, l.ends[1 - k].0, l.ends[1 - k].1)).collect::<Vec<_>>()).collect();
            let msg = format!("m{}-{}", step, r.u64());
            let end = if r.chance(1, 2) { G1 } else { G2 };
            let h = w.nodes[a].handle.clone();
            let p = pri(r.chance(1, 2));
            let mut want: Vec<Vec<(String, Option<usize>, String)>> = vec![vec![]; n];
            match r.below(4) {
                0 => {
                    log.push(format!("node {} gossips {} on {}", a, msg, end));
                    let m = msg.clone();
                    let out = w.spawn(async move { h.broadcast(Context::new(), end, m, p).await.map_err(|e| e.to_string()) });
                    w.pump()?;
                    for (_, b, s) in &near {
                        want[*b].push((end.to_owned(), Some(*s), msg.clone()));
                    }
                    let got = out.lock().unwrap().take();
                    if got != Some(Ok(())) {
                        return f("gossip answer", format!("{:?}", got));
                    }
                }
                1 => {
                    let mut to: Vec<usize> = (0..n).filter(|x| *x != a && r.chance(1, 2)).collect();
                    if r.chance(1, 2) {
                        to.reverse();
                    }
                    let mut users: Vec<UserAddress> = to.iter().map(|x| user(&keys[*x])).collect();
                    if r.chance(1, 4) {
                        users.push(user(&keypair(r)));
                    }
                    log.push(format!("node {} sends {} to the users of {:?}, {} in all", a, msg, to, users.len()));
                    let m = msg.clone();
                    let us = users.clone();
                    let out = w.spawn(async move { h.users_cast(Context::new(), end, us, m, p).await.map_err(|e| e.to_string()) });
                    w.pump()?;
                    for (_, b, s) in &near {
                        if to.contains(b) {
                            want[*b].push((end.to_owned(), Some(*s), msg.clone()));
                        }
                    }
                    let got = out.lock().unwrap().take();
                    let all = users.len() == to.len() && to.iter().all(|x| near.iter().any(|y| y.1 == *x));
                    match &got {
                        Some(Ok(())) if all => {}
                        Some(Err(_)) if !all => {}
                        g => return f("users answer", format!("{:?}, all reached: {}", g, all)),
                    }
                }
                2 => {
                    let (s, b, t) = match near.is_empty() {
                        true => continue,
                        false => *r.pick(&near),
                    };
                    log.push(format!("node {} asks node {} {}", a, b, msg));
                    let m = msg.clone();
                    let cx = Context::new().set_session_id(SessionId::new(s));
                    let out = w.spawn(async move { h.call::<String, String>(cx, CALL, m, p).await.map_err(|e| e.to_string()) });
                    w.pump()?;
                    want[b].push((CALL.to_owned(), Some(t), msg.clone()));
                    let got = out.lock().unwrap().take();
                    if got != Some(Ok(format!("re: {}", msg))) {
                        return f("call answer", format!("{:?}", got));
                    }
                }
                _ => {
                    if w.links.is_empty() {
                        continue;
                    }
                    let i = r.below(w.links.len());
                    log.push(format!("the connection of {:?} is closed", w.links[i].ends));
                    w.close(i);
                    w.pump()?;
                }
            }
            for (i, x) in w.nodes.iter().enumerate() {
                let got: Vec<_> = x.got.lock().unwrap().drain(..).collect();
                if got != want[i] {
                    return f("delivered", format!("node {} got {:?}, not {:?}", i, got, want[i]));
                }
            }
        }
        Ok(())
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        c.rule = "random connection events, requests under a scripted transport, reports of the protocols, configurations, and nodes linked by the transport".to_owned();
        let own: &'static Own = Box::leak(Box::new(Own { q: Default::default() }));
        runtime::raw::set_runtime(own);
        let mut k = 0u64;
        while c.go(1.0) {
            let seed = c.rng.u64();
            let which = k % 8;
            k += 1;
            let mut r = Rng::new(seed);
            let mut log = vec![];
            let got = guard(|| match which {
                0 => keeper(&mut r, &mut log),
                1 => control(&mut r, &mut log),
                2 => service(&mut r, &mut log),
                3 => reports(&mut r, &mut log),
                4 => config(&mut r, &mut log),
                _ => world(&mut r, own, &mut log),
            });
            c.case(&(which, seed));
            c.sample(|| log.join("; "));
            match got {
                Ok(Ok(())) => {}
                Ok(Err((key, what))) => c.fail(&key, &what, log.join("\n")),
                Err(p) => c.fail("panic", &p, log.join("\n")),
            }
        }
        c.finish();
    }
}

fn main() {
    h::main()
}
