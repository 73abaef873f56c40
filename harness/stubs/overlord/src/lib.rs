// Stands in for the overlord crate, which is not available here: its interface, and a handler that only
// notes what it is sent.
pub mod types;

use std::any::Any;
use std::cell::RefCell;
use std::error::Error;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use bytes::Bytes;
use creep::Context;

use types::{AggregatedSignature, Commit, Node, OverlordMsg, Status};

pub trait Codec: Clone + Debug + Send + PartialEq + Eq {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>>;

    fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>>;
}

#[async_trait]
pub trait Consensus<T: Codec, S: Codec>: Send + Sync {
    async fn get_epoch(&self, ctx: Context, epoch_id: u64) -> Result<(T, Bytes), Box<dyn Error + Send>>;

    async fn check_epoch(&self, ctx: Context, epoch_id: u64, hash: Bytes, epoch: T) -> Result<S, Box<dyn Error + Send>>;

    async fn commit(&self, ctx: Context, epoch_id: u64, commit: Commit<T>) -> Result<Status, Box<dyn Error + Send>>;

    async fn get_authority_list(&self, ctx: Context, epoch_id: u64) -> Result<Vec<Node>, Box<dyn Error + Send>>;

    async fn broadcast_to_other(&self, ctx: Context, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;

    async fn transmit_to_relayer(&self, ctx: Context, addr: Bytes, msg: OverlordMsg<T>) -> Result<(), Box<dyn Error + Send>>;
}

pub trait Crypto: Send {
    fn hash(&self, msg: Bytes) -> Bytes;

    fn sign(&self, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;

    fn aggregate_signatures(&self, signatures: Vec<Bytes>, voters: Vec<Bytes>) -> Result<Bytes, Box<dyn Error + Send>>;

    fn verify_signature(&self, signature: Bytes, hash: Bytes) -> Result<Bytes, Box<dyn Error + Send>>;

    fn verify_aggregated_signature(&self, aggregate_signature: AggregatedSignature) -> Result<(), Box<dyn Error + Send>>;
}

#[derive(Debug)]
pub struct ConsensusError;

impl std::fmt::Display for ConsensusError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "overlord")
    }
}

impl Error for ConsensusError {}

#[derive(Clone, Debug)]
pub struct DurationConfig;

#[derive(Clone, Debug)]
pub struct OverlordHandler<T: Codec>(pub Arc<Mutex<Vec<OverlordMsg<T>>>>);

impl<T: Codec> OverlordHandler<T> {
    pub fn send_msg(&self, _ctx: Context, msg: OverlordMsg<T>) -> Result<(), ConsensusError> {
        self.0.lock().unwrap().push(msg);
        Ok(())
    }
}

thread_local! {
    /// The engine and the handler of the last instance made on this thread.
    pub static LAST: RefCell<Option<(Box<dyn Any>, Box<dyn Any>)>> = RefCell::new(None);
}

pub struct Overlord<T: Codec, S: Codec, F: Consensus<T, S>, C: Crypto> {
    handler: OverlordHandler<T>,
    pin:     PhantomData<fn(S, F, C)>,
}

impl<T: Codec + 'static, S: Codec, F: Consensus<T, S> + 'static, C: Crypto> Overlord<T, S, F, C> {
    pub fn new(_address: Bytes, function: Arc<F>, _crypto: C) -> Self {
        let handler = OverlordHandler(Arc::new(Mutex::new(vec![])));
        LAST.with(|l| *l.borrow_mut() = Some((Box::new(function), Box::new(handler.clone()))));
        Overlord { handler, pin: PhantomData }
    }

    pub fn get_handler(&self) -> OverlordHandler<T> {
        self.handler.clone()
    }

    pub async fn run(&self, _interval: u64, _timer: Option<DurationConfig>) -> Result<(), ConsensusError> {
        Ok(())
    }
}
