// Stands in for core/network where the node is put together: it records what it is given.
use async_trait::async_trait;
use bytes::Bytes;
use futures::executor::block_on;
use lazy_static::lazy_static;
use protocol::traits::{Context, Gossip, MessageCodec, MessageHandler, Priority, Rpc};
use protocol::types::UserAddress;
use protocol::ProtocolResult;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::Poll;

#[derive(Default)]
pub struct Rec {
    pub made:       usize,
    pub bootstraps: Vec<(String, SocketAddr)>,
    pub keypair:    Option<String>,
    pub listen:     Vec<SocketAddr>,
    /// Each endpoint, and what delivers a message to its handler.
    pub ends:       Vec<(String, Box<dyn Fn() + Send>)>,
    pub answers:    Vec<(String, &'static str)>,
    /// How many endpoints were registered when it was put to run.
    pub running:    Option<usize>,
    /// What was sent, and over which endpoint.
    pub sent:       Vec<(String, String)>,
}

lazy_static! {
    pub static ref REC: Mutex<Rec> = Mutex::new(Rec::default());
}

#[derive(Debug, Default)]
pub struct NetworkConfig {
    bootstraps: Vec<(String, SocketAddr)>,
    keypair:    Option<String>,
}

impl NetworkConfig {
    pub fn new() -> Self {
        NetworkConfig::default()
    }

    pub fn bootstraps(mut self, pairs: Vec<(String, SocketAddr)>) -> ProtocolResult<Self> {
        self.bootstraps = pairs;
        Ok(self)
    }

    pub fn secio_keypair(mut self, sk_hex: String) -> ProtocolResult<Self> {
        self.keypair = Some(sk_hex);
        Ok(self)
    }
}

#[derive(Clone)]
pub struct NetworkServiceHandle;

#[async_trait]
impl Gossip for NetworkServiceHandle {
    async fn broadcast<M>(&self, _: Context, end: &str, msg: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        REC.lock().unwrap().sent.push((end.to_owned(), format!("{:?}", msg)));
        Ok(())
    }

    async fn users_cast<M>(&self, _: Context, end: &str, _: Vec<UserAddress>, msg: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        REC.lock().unwrap().sent.push((end.to_owned(), format!("{:?}", msg)));
        Ok(())
    }
}

#[async_trait]
impl Rpc for NetworkServiceHandle {
    async fn call<M, R>(&self, _: Context, end: &str, msg: M, _: Priority) -> ProtocolResult<R>
    where
        M: MessageCodec,
        R: MessageCodec,
    {
        REC.lock().unwrap().sent.push((end.to_owned(), format!("{:?}", msg)));
        R::decode(Bytes::new()).await
    }

    async fn response<M>(&self, _: Context, end: &str, msg: M, _: Priority) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        REC.lock().unwrap().sent.push((end.to_owned(), format!("{:?}", msg)));
        Ok(())
    }
}

pub struct NetworkService;

impl NetworkService {
    pub fn new(config: NetworkConfig) -> Self {
        let mut r = REC.lock().unwrap();
        r.made += 1;
        r.bootstraps = config.bootstraps;
        r.keypair = config.keypair;
        NetworkService
    }

    pub fn register_endpoint_handler<M>(
        &mut self,
        end: &str,
        handler: Box<dyn MessageHandler<Message = M>>,
    ) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        let deliver = move || {
            let m = block_on(M::decode(Bytes::new())).unwrap();
            let _ = block_on(handler.process(Context::new(), m));
        };
        REC.lock().unwrap().ends.push((end.to_owned(), Box::new(deliver)));
        Ok(())
    }

    pub fn register_rpc_response<M>(&mut self, end: &str) -> ProtocolResult<()>
    where
        M: MessageCodec,
    {
        REC.lock().unwrap().answers.push((end.to_owned(), std::any::type_name::<M>()));
        Ok(())
    }

    pub fn handle(&self) -> NetworkServiceHandle {
        NetworkServiceHandle
    }

    pub fn listen(&mut self, socket_addr: SocketAddr) -> ProtocolResult<()> {
        REC.lock().unwrap().listen.push(socket_addr);
        Ok(())
    }
}

impl Future for NetworkService {
    type Output = ();

    fn poll(self: Pin<&mut Self>, _: &mut std::task::Context<'_>) -> Poll<()> {
        let mut r = REC.lock().unwrap();
        r.running = Some(r.ends.len() + r.answers.len());
        Poll::Ready(())
    }
}
