//@include types.vrs assume
//@type "PhantomData<$>" => "core::marker::PhantomData<$>"
//@path runtime::spawn => vx_spawn
//@heapfn mem_pool.insert w
//@heapfn self.mem_pool.get_full_txs w
//@heapfn self.network.* w
//@heapfn gossip.broadcast w
//@heapfn Self::do_broadcast w
//@heapfn err_tx.unbounded_send w
//@heapfn self.stx_tx.unbounded_send w
//@heapfn *err_rx.try_lock w
//@heapfn *rx.try_next w
//@heapfn *stx_rx.next w
//@heapfn *interval_rx.next w
verus! {

// ------------------------------------------------------------------ contexts
/// A value of any type, as kept in a context.
pub struct AnyVal {
    pub a: Ghost<int>,
}

pub uninterp spec fn any_of<T>(t: T) -> AnyVal;

pub uninterp spec fn as_any<T>(a: AnyVal) -> Option<T>;

pub broadcast axiom fn any_roundtrip<T>(t: T)
    ensures
        as_any::<T>(#[trigger] any_of::<T>(t)) == Some(t),
;

/// creep::Context: values of any type under names
pub struct Context {
    pub m: Ghost<Map<Seq<char>, AnyVal>>,
}

impl Clone for Context {
    #[verifier::external_body]
    fn clone(&self) -> (r: Context)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl Context {
    #[verifier::external_body]
    pub fn new() -> (r: Context)
        ensures
            r.m@ == Map::<Seq<char>, AnyVal>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn with_value<V>(&self, k: &str, v: V) -> (r: Context)
        ensures
            r.m@ == self.m@.insert(k@, any_of::<V>(v)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get<V>(&self, k: &str) -> (r: Option<&V>)
        ensures
            r is Some <==> self.m@.contains_key(k@) && as_any::<V>(self.m@[k@]) is Some,
            r is Some ==> as_any::<V>(self.m@[k@]) == Some(*r->0),
    {
        unimplemented!()
    }

    /// It came from the network.
    pub open spec fn net_origin(&self) -> bool {
        self.m@.contains_key("txs_original"@) && as_any::<usize>(self.m@["txs_original"@]) == Some(1usize)
    }

    pub open spec fn heard(&self) -> Context {
        Context { m: Ghost(self.m@.insert("txs_original"@, any_of::<usize>(1usize))) }
    }
}

//@item core/mempool/src/context.rs const TXS_ORIGINAL_KEY
//@item core/mempool/src/context.rs const NETWORK_TXS

impl Context {
//@fn core/mempool/src/context.rs Context@TxContext::mark_network_origin_new_txs
//@. sig (&self) -> (r: Context)
//@. ensures
        r.net_origin(),
        r.m@ =~= self.heard().m@,
//@. at start
        broadcast use any_roundtrip;
//@end
//@fn core/mempool/src/context.rs Context@TxContext::is_network_origin_txs
//@. ensures
        r == self.net_origin(),
//@end
}

// ------------------------------------------------------------------ what goes in and out
pub enum Priority {
    High,
    Normal,
}

//@item core/mempool/src/adapter/message.rs struct MsgNewTxs
//@item core/mempool/src/adapter/message.rs struct MsgPullTxs
//@item core/mempool/src/adapter/message.rs struct MsgPushTxs
//@item core/mempool/src/adapter/message.rs const END_GOSSIP_NEW_TXS
//@item core/mempool/src/adapter/message.rs const END_RPC_PULL_TXS
//@item core/mempool/src/adapter/message.rs const END_RESP_PULL_TXS

pub struct World {
    /// given to the pool, and whether it took it
    pub put: Seq<(Context, SignedTransaction, bool)>,
    /// asked of the pool
    pub asked: Seq<(Context, Seq<Hash>)>,
    /// answers to peers
    pub told: Seq<(Context, Seq<char>, MsgPushTxs, Priority)>,
    /// questions to peers, and what they answered
    pub calls: Seq<(Context, Seq<char>, MsgPullTxs, Priority, Option<MsgPushTxs>)>,
    /// sent to all peers, and whether it went out
    pub cast: Seq<(Context, Seq<char>, MsgNewTxs, Priority, bool)>,
    /// on the way to the broadcaster
    pub queued: Seq<SignedTransaction>,
    /// taken by the broadcaster
    pub taken: Seq<SignedTransaction>,
    /// how often the interval was over
    pub ticks: int,
    /// errors on the way back from it
    pub errs: Seq<ProtocolError>,
}

/// protocol::traits::MemPool (C18-C20)
pub trait MemPool: Sized {
    /// the same pool (Arc::clone)
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    ;

    spec fn full(&self, hashes: Seq<Hash>) -> Option<Seq<SignedTransaction>>;

    fn insert(&self, ctx: Context, tx: SignedTransaction, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { put: old(w).put.push((ctx, tx, r is Ok)), ..*old(w) }),
    ;

    fn get_full_txs(&self, ctx: Context, tx_hashes: Vec<Hash>, w: &mut World) -> (r: ProtocolResult<Vec<SignedTransaction>>)
        ensures
            *final(w) == (World { asked: old(w).asked.push((ctx, tx_hashes@)), ..*old(w) }),
            r is Ok ==> self.full(tx_hashes@) == Some(r->Ok_0@),
    ;
}

/// protocol::traits::Rpc
pub trait Rpc: Sized {
    /// Whatever the peer answers.
    fn call<M: IsPull, R: IsPush>(&self, ctx: Context, end: &str, msg: M, p: Priority, w: &mut World) -> (r: ProtocolResult<R>)
        ensures
            *final(w) == (World { calls: old(w).calls.push((ctx, end@, msg.pull(), p, if r is Ok { Some(r->Ok_0.push()) } else { None })), ..*old(w) }),
    ;

    fn response<M: IsPush>(&self, ctx: Context, end: &str, msg: M, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { told: old(w).told.push((ctx, end@, msg.push(), p)), ..*old(w) }),
    ;
}

/// protocol::traits::Gossip
pub trait Gossip: Sized {
    fn broadcast(&self, ctx: Context, end: &str, msg: MsgNewTxs, p: Priority, w: &mut World) -> (r: ProtocolResult<()>)
        ensures
            *final(w) == (World { cast: old(w).cast.push((ctx, end@, msg, p, r is Ok)), ..*old(w) }),
    ;
}

pub trait IsPull: Sized {
    spec fn pull(&self) -> MsgPullTxs;
}

impl IsPull for MsgPullTxs {
    open spec fn pull(&self) -> MsgPullTxs {
        *self
    }
}

pub trait IsPush: Sized {
    spec fn push(&self) -> MsgPushTxs;
}

impl IsPush for MsgPushTxs {
    open spec fn push(&self) -> MsgPushTxs {
        *self
    }
}

/// A task started on the runtime: here, done at once.
pub fn vx_spawn<T>(t: T) -> (r: T)
    ensures
        r == t,
{
    t
}

/// futures::future::try_join_all, the tasks done
#[verifier::external_body]
pub fn try_join_all(v: Vec<ProtocolResult<()>>) -> (r: ProtocolResult<Vec<()>>)
    ensures
        r is Ok <==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok,
{
    unimplemented!()
}

// ------------------------------------------------------------------ messages of peers
//@item core/mempool/src/adapter/message.rs struct NewTxsHandler
//@item core/mempool/src/adapter/message.rs struct PullTxsHandler

/// Each was given to the pool once, in order, as heard from the network.
pub open spec fn handed(a: World, b: World, c: Context, txs: Seq<SignedTransaction>, n: int) -> bool {
    &&& b == (World { put: b.put, ..a })
    &&& b.put.len() == a.put.len() + n
    &&& a.put.is_prefix_of(b.put)
    &&& forall|i: int| 0 <= i < n ==> {
        let e = b.put[a.put.len() + i];
        &&& (#[trigger] b.put[a.put.len() + i]).1 == txs[i]
        &&& e.0.net_origin()
        &&& e.0.m@ =~= c.heard().m@
    }
}

/// The pool took the i-th of them.
pub open spec fn took(a: &World, b: &World, i: int) -> bool {
    b.put[a.put.len() + i].2
}

impl<M: MemPool> NewTxsHandler<M> {
//@fn core/mempool/src/adapter/message.rs NewTxsHandler::new
//@. ensures
        r.mem_pool == mem_pool,
//@end
//@fn core/mempool/src/adapter/message.rs NewTxsHandler@MessageHandler::process
//@. sig (&self, ctx: Context, msg: MsgNewTxs, w: &mut World) -> (r: ProtocolResult<()>)
//@. resmap 0
//@. ensures
        handed(*old(w), *final(w), ctx, msg.batch_stxs@, msg.batch_stxs@.len() as int),
        r is Ok <==> forall|i: int| 0 <= i < msg.batch_stxs@.len() ==> #[trigger] took(old(w), final(w), i),
//@. at start
        let ghost w0 = *w;
        let ghost c0 = ctx;
        let ghost txs = msg.batch_stxs@;
//@. loop 0
        invariant
            __it0.s@ == txs,
            __it0.p@ <= __it0.s@.len(),
            ctx.net_origin(),
            ctx.m@ =~= c0.heard().m@,
            handed(w0, *w, c0, txs, __it0.p@ as int),
            __v2@.len() == __it0.p@,
            forall|i: int| #![trigger __v2@[i]] #![trigger took(&w0, w, i)] 0 <= i < __it0.p@ ==> (__v2@[i] is Ok <==> took(&w0, w, i)),
        decreases __it0.s@.len() - __it0.p@,
//@end
}

impl<N: Rpc, M: MemPool> PullTxsHandler<N, M> {
//@fn core/mempool/src/adapter/message.rs PullTxsHandler::new
//@. ensures
        r.network == network,
        r.mem_pool == mem_pool,
//@end
//@fn core/mempool/src/adapter/message.rs PullTxsHandler@MessageHandler::process
//@. sig (&self, ctx: Context, msg: MsgPullTxs, w: &mut World) -> (r: ProtocolResult<()>)
//@. ensures
        final(w).asked == old(w).asked.push((ctx, msg.hashes@)),
        *final(w) == (World { asked: final(w).asked, told: final(w).told, ..*old(w) }),
        // the full transactions, or nothing
        final(w).told == old(w).told || {
            let e = final(w).told.last();
            &&& final(w).told == old(w).told.push(e)
            &&& e.0 == ctx
            &&& e.1 == "/rpc_resp/mempool/pull_txs"@
            &&& self.mem_pool.full(msg.hashes@) == Some(e.2.sig_txs@)
        },
        r is Ok ==> final(w).told != old(w).told,
//@end
}

// ------------------------------------------------------------------ the adapter
/// futures' channel ends.
pub struct UnboundedSender<T> {
    pub i: Ghost<int>,
    pub ph: core::marker::PhantomData<T>,
}

pub struct UnboundedReceiver<T> {
    pub i: Ghost<int>,
    pub ph: core::marker::PhantomData<T>,
}

pub struct Receiver<T> {
    pub i: Ghost<int>,
    pub ph: core::marker::PhantomData<T>,
}

/// The other end is gone, or not.
pub uninterp spec fn gone(i: int) -> bool;

pub struct TrySendError<T> {
    pub t: Ghost<T>,
}

pub struct TryRecvError;

impl<T> Clone for UnboundedSender<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

impl UnboundedSender<SignedTransaction> {
    #[verifier::external_body]
    pub fn unbounded_send(&self, t: SignedTransaction, w: &mut World) -> (r: Result<(), TrySendError<SignedTransaction>>)
        ensures
            r is Ok <==> !gone(self.i@),
            *final(w) == (World { queued: if gone(self.i@) { old(w).queued } else { old(w).queued.push(t) }, ..*old(w) }),
    {
        unimplemented!()
    }
}

impl UnboundedSender<ProtocolError> {
    #[verifier::external_body]
    pub fn unbounded_send(&self, t: ProtocolError, w: &mut World) -> (r: Result<(), TrySendError<ProtocolError>>)
        ensures
            r is Ok <==> !gone(self.i@),
            *final(w) == (World { errs: if gone(self.i@) { old(w).errs } else { old(w).errs.push(t) }, ..*old(w) }),
    {
        unimplemented!()
    }
}

/// futures::lock::Mutex around the receiving end for errors
pub struct Mutex<T> {
    pub t: T,
}

pub struct Guard {
    pub i: Ghost<int>,
}

impl Mutex<UnboundedReceiver<ProtocolError>> {
    #[verifier::external_body]
    pub fn try_lock(&self, w: &mut World) -> (r: Option<Guard>)
        ensures
            *final(w) == *old(w),
    {
        unimplemented!()
    }
}

impl Guard {
    #[verifier::external_body]
    pub fn try_next(&mut self, w: &mut World) -> (r: Result<Option<ProtocolError>, TryRecvError>)
        ensures
            r is Ok && r->Ok_0 is Some ==> old(w).errs.len() > 0 && r->Ok_0->0 == old(w).errs[0] && *final(w) == (World { errs: old(w).errs.skip(1), ..*old(w) }),
            !(r is Ok && r->Ok_0 is Some) ==> *final(w) == *old(w),
    {
        unimplemented!()
    }
}

pub struct AtomicU64;

//@item core/mempool/src/adapter/mod.rs struct DefaultMemPoolAdapter
//@item core/mempool/src/adapter/mod.rs enum AdapterError

impl core::convert::From<AdapterError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: AdapterError) -> (r: ProtocolError) {
        unimplemented!()
    }
}

impl AdapterError {
//@fn core/mempool/src/adapter/mod.rs AdapterError@From<TrySendError<T>>::from
//@. generics <T>
//@end
}

impl<C, N: Rpc + Gossip, S> DefaultMemPoolAdapter<C, N, S> {
//@fn core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter@MemPoolAdapter::pull_txs
//@. params w: &mut World
//@. ensures
        // one question, and what was answered
        ({
            let e = final(w).calls.last();
            &&& *final(w) == (World { calls: old(w).calls.push(e), ..*old(w) })
            &&& e.0 == ctx
            &&& e.1 == "/rpc_call/mempool/pull_txs"@
            &&& e.2.hashes@ == tx_hashes@
            &&& r is Ok <==> e.4 is Some
            &&& r is Ok ==> r->Ok_0@ == (e.4->0).sig_txs@
        }),
//@end
//@fn core/mempool/src/adapter/mod.rs DefaultMemPoolAdapter@MemPoolAdapter::broadcast_tx
//@. params w: &mut World
//@. ensures
        !gone(self.stx_tx.i@) ==> final(w).queued == old(w).queued.push(stx),
        *final(w) == (World { queued: final(w).queued, errs: final(w).errs, ..*old(w) }),
//@end
}

// ------------------------------------------------------------------ the broadcaster
impl<T> VxDrain<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_drain(&mut self) -> (r: VxIter<T>)
    {
        unimplemented!()
    }
}

pub trait VxDrain<T>: Sized + View<V = Seq<T>> {
    fn vx_drain(&mut self) -> (r: VxIter<T>)
        ensures
            r.s@ == old(self)@,
            r.p@ == 0,
            final(self)@.len() == 0,
    ;
}

/// Everything sent out so far, in order.
pub open spec fn sent(c: Seq<(Context, Seq<char>, MsgNewTxs, Priority, bool)>) -> Seq<SignedTransaction>
    decreases c.len(),
{
    if c.len() == 0 {
        Seq::empty()
    } else {
        sent(c.drop_last()) + c.last().2.batch_stxs@
    }
}

/// Only to the end point that peers take new transactions at, and never an empty message.
pub open spec fn rightly(a: World, b: World) -> bool {
    &&& a.cast.is_prefix_of(b.cast)
    &&& forall|i: int| a.cast.len() <= i < b.cast.len() ==> (#[trigger] b.cast[i]).1 == "/gossip/mempool/new_txs"@ && b.cast[i].2.batch_stxs@.len() > 0
}

/// What was taken went out once, in order, but for what waits for the next message.
pub open spec fn passed(a: World, b: World, wait: Seq<SignedTransaction>) -> bool {
    &&& a.taken.is_prefix_of(b.taken)
    &&& sent(b.cast) + wait =~= sent(a.cast) + b.taken.skip(a.taken.len() as int)
}

impl<T> UnboundedReceiver<T> {
    pub fn fuse(self) -> (r: Self)
        ensures
            r == self,
    {
        self
    }
}

impl UnboundedReceiver<SignedTransaction> {
    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<SignedTransaction>)
        ensures
            *final(w) == (World { taken: if r is Some { old(w).taken.push(r->0) } else { old(w).taken }, ..*old(w) }),
    {
        unimplemented!()
    }
}

impl<T> Receiver<T> {
    pub fn fuse(self) -> (r: Self)
        ensures
            r == self,
    {
        self
    }

    #[verifier::external_body]
    pub fn next(&mut self, w: &mut World) -> (r: Option<T>)
        ensures
            *final(w) == (World { ticks: if r is Some { old(w).ticks + 1 } else { old(w).ticks }, ..*old(w) }),
    {
        unimplemented!()
    }
}

/// Whichever arm is ready.
#[verifier::external_body]
pub fn vx_select() -> (r: u8)
{
    unimplemented!()
}

pub struct IntervalTxsBroadcaster;

impl IntervalTxsBroadcaster {
//@fn core/mempool/src/adapter/mod.rs IntervalTxsBroadcaster::do_broadcast
//@. params w: &mut World
//@. ensures
        final(txs_cache)@.len() == 0,
        old(txs_cache)@.len() == 0 ==> *final(w) == *old(w),
        old(txs_cache)@.len() > 0 ==> {
            let e = final(w).cast.last();
            &&& final(w).cast == old(w).cast.push(e)
            &&& e.1 == "/gossip/mempool/new_txs"@
            &&& e.2.batch_stxs@ == old(txs_cache)@
            // a batch that did not go out is reported to the pool
            &&& e.4 ==> final(w).errs == old(w).errs
            &&& !e.4 && !gone(err_tx.i@) ==> final(w).errs.len() == old(w).errs.len() + 1 && old(w).errs.is_prefix_of(final(w).errs)
        },
        *final(w) == (World { cast: final(w).cast, errs: final(w).errs, ..*old(w) }),
        sent(final(w).cast) =~= sent(old(w).cast) + old(txs_cache)@,
//@. at start
        let ghost c0 = txs_cache@;
        let ghost w0 = *w;
//@. at end
        proof {
            if c0.len() > 0 {
                assert(w.cast.drop_last() =~= w0.cast);
            }
        }
//@. loop 0
        invariant
            __it0.s@ == c0,
            __it0.p@ <= __it0.s@.len(),
            txs_cache@.len() == 0,
            __v2@ =~= c0.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@end
//@fn core/mempool/src/adapter/mod.rs IntervalTxsBroadcaster::broadcast
//@. params w: &mut World
//@. attr
#[verifier::exec_allows_no_decreases_clause]
//@. ensures
        rightly(*old(w), *final(w)),
        exists|wait: Seq<SignedTransaction>| #[trigger] passed(*old(w), *final(w), wait) && (tx_size > 0 ==> wait.len() < tx_size),
//@. at start
        let ghost w0 = *w;
//@. loop 0
        invariant
            rightly(w0, *w),
            passed(w0, *w, txs_cache@),
            tx_size > 0 ==> txs_cache@.len() < tx_size,
//@. at loop:0:start
            let ghost wi = *w;
            let ghost ci = txs_cache@;
//@. at loop:0:end
            proof {
                let n = w0.taken.len() as int;
                // nothing waits past the end of an interval
                assert(w.ticks > wi.ticks ==> txs_cache@.len() == 0);
                if w.taken.len() > wi.taken.len() {
                    let x = w.taken.last();
                    assert(w.taken.skip(n) =~= wi.taken.skip(n).push(x));
                    assert(sent(w.cast) + txs_cache@ =~= (sent(wi.cast) + ci).push(x));
                } else {
                    assert(sent(w.cast) + txs_cache@ =~= sent(wi.cast) + ci);
                }
            }
//@end
}
} // verus!
