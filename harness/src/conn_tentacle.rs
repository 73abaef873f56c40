// The network library, but for its service: what is asked of it is written down and answered as scripted, and the
// parts handed to it (keeper and protocols) may be called as the library would.
pub use tentacle::*;

use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

use tentacle::{
    bytes::Bytes,
    multiaddr::Multiaddr,
    secio::SecioKeyPair,
    service::{DialProtocol, ProtocolHandle, TargetSession},
    traits::{ServiceHandle, ServiceProtocol},
};
pub use tentacle::{ProtocolId, SessionId};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Say {
    Yes,
    Busy,
    Closed,
    Odd,
    Strange,
}

#[derive(Clone, Debug)]
pub enum Op {
    Dial(Multiaddr, DialProtocol),
    Cut(SessionId),
    Send(bool, TargetSession, ProtocolId, Bytes),
}

#[derive(Default)]
pub struct Wire {
    pub ops:     Vec<(Op, Say)>,
    pub script:  VecDeque<Say>,
    pub listens: Vec<Multiaddr>,
    pub key:     Option<SecioKeyPair>,
    pub frame:   Option<usize>,
    pub forever: bool,
    pub keeper:  Option<Box<dyn ServiceHandle + Send>>,
    pub protos:  Vec<(ProtocolId, String, Vec<String>, Box<dyn ServiceProtocol + Send>)>,
}

impl Wire {
    fn put(&mut self, op: Op) -> Result<(), error::Error> {
        use std::io::ErrorKind::*;
        let say = self.script.pop_front().unwrap_or(Say::Yes);
        self.ops.push((op, say));
        match say {
            Say::Yes => Ok(()),
            Say::Busy => Err(error::Error::IoError(WouldBlock.into())),
            Say::Closed => Err(error::Error::IoError(BrokenPipe.into())),
            Say::Odd => Err(error::Error::IoError(NotConnected.into())),
            Say::Strange => Err(error::Error::ServiceProtoHandleBlock),
        }
    }
}

thread_local! {
    pub static LAST: std::cell::RefCell<Option<Arc<Mutex<Wire>>>> = Default::default();
}

pub mod service {
    pub use tentacle::service::*;

    use super::*;

    #[derive(Clone)]
    pub struct ServiceControl {
        pub wire: Arc<Mutex<Wire>>,
    }

    impl ServiceControl {
        pub fn dial(&self, a: Multiaddr, t: DialProtocol) -> Result<(), error::Error> {
            self.wire.lock().unwrap().put(Op::Dial(a, t))
        }

        pub fn disconnect(&self, s: SessionId) -> Result<(), error::Error> {
            self.wire.lock().unwrap().put(Op::Cut(s))
        }

        pub fn filter_broadcast(&self, t: TargetSession, p: ProtocolId, d: Bytes) -> Result<(), error::Error> {
            self.wire.lock().unwrap().put(Op::Send(false, t, p, d))
        }

        pub fn quick_filter_broadcast(&self, t: TargetSession, p: ProtocolId, d: Bytes) -> Result<(), error::Error> {
            self.wire.lock().unwrap().put(Op::Send(true, t, p, d))
        }

        pub fn send_message_to(&self, s: SessionId, p: ProtocolId, d: Bytes) -> Result<(), error::Error> {
            self.filter_broadcast(TargetSession::Single(s), p, d)
        }

        pub fn quick_send_message_to(&self, s: SessionId, p: ProtocolId, d: Bytes) -> Result<(), error::Error> {
            self.quick_filter_broadcast(TargetSession::Single(s), p, d)
        }
    }

    pub struct ProtocolMeta {
        pub id:       ProtocolId,
        pub name:     String,
        pub versions: Vec<String>,
        pub handle:   Option<Box<dyn ServiceProtocol + Send>>,
    }

    impl ProtocolMeta {
        pub fn id(&self) -> ProtocolId {
            self.id
        }

        pub fn name(&self) -> String {
            self.name.clone()
        }
    }

    pub struct Service<H> {
        pub control: ServiceControl,
        pub h:       std::marker::PhantomData<H>,
    }

    impl<H> Service<H> {
        pub fn control(&self) -> &ServiceControl {
            &self.control
        }

        pub fn listen(&mut self, a: Multiaddr) -> Result<Multiaddr, std::io::Error> {
            self.control.wire.lock().unwrap().listens.push(a.clone());
            Ok(a)
        }
    }

    impl<H> futures01::Stream for Service<H> {
        type Error = ();
        type Item = ();

        fn poll(&mut self) -> futures01::Poll<Option<()>, ()> {
            Ok(futures01::Async::NotReady)
        }
    }
}

pub mod builder {
    pub use tentacle::builder::*;

    use super::service::{ProtocolMeta, Service};
    use super::*;

    #[derive(Default)]
    pub struct ServiceBuilder {
        wire: Wire,
    }

    impl ServiceBuilder {
        pub fn new() -> Self {
            Default::default()
        }

        pub fn key_pair(mut self, k: SecioKeyPair) -> Self {
            self.wire.key = Some(k);
            self
        }

        pub fn forever(mut self, b: bool) -> Self {
            self.wire.forever = b;
            self
        }

        pub fn max_frame_length(mut self, n: usize) -> Self {
            self.wire.frame = Some(n);
            self
        }

        pub fn insert_protocol(mut self, m: ProtocolMeta) -> Self {
            let ProtocolMeta { id, name, versions, handle } = m;
            self.wire.protos.push((id, name, versions, handle.expect("a protocol has a handle")));
            self
        }

        pub fn build<H: ServiceHandle + Send + 'static>(mut self, h: H) -> Service<H> {
            self.wire.keeper = Some(Box::new(h));
            let wire = Arc::new(Mutex::new(self.wire));
            LAST.with(|l| *l.borrow_mut() = Some(wire.clone()));
            Service { control: super::service::ServiceControl { wire }, h: std::marker::PhantomData }
        }
    }

    pub struct MetaBuilder {
        id:       ProtocolId,
        name:     Box<dyn Fn(ProtocolId) -> String + Send + Sync>,
        versions: Vec<String>,
        handle:   Option<Box<dyn ServiceProtocol + Send>>,
    }

    impl MetaBuilder {
        pub fn new() -> Self {
            MetaBuilder { id: ProtocolId::new(0), name: Box::new(|id| format!("/p2p/{}", id)), versions: vec![], handle: None }
        }

        pub fn id(mut self, id: ProtocolId) -> Self {
            self.id = id;
            self
        }

        pub fn name<T: Fn(ProtocolId) -> String + 'static + Send + Sync>(mut self, name: T) -> Self {
            self.name = Box::new(name);
            self
        }

        pub fn support_versions(mut self, v: Vec<String>) -> Self {
            self.versions = v;
            self
        }

        pub fn service_handle<T: FnOnce() -> ProtocolHandle<Box<dyn ServiceProtocol + Send + 'static>>>(mut self, f: T) -> Self {
            self.handle = match f() {
                ProtocolHandle::Callback(h) | ProtocolHandle::Both(h) => Some(h),
                _ => None,
            };
            self
        }

        pub fn build(self) -> ProtocolMeta {
            ProtocolMeta { name: (self.name)(self.id), id: self.id, versions: self.versions, handle: self.handle }
        }
    }
}
