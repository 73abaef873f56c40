//@include text.vrs
//@type "Arc<$>" => "$"
//@type "RwLock<$>" => "$"
//@type "Box<dynPersistence>" => "Store"
//@type "HashSet<UnknownAddr>" => "UnknownSet"
//@type "oneshot::Sender<Vec<UserAddress>>" => "Sender<Vec<UserAddress>>"
//@path Default::default => VxEmpty::vx_empty
//@path UNIX_EPOCH => vx_epoch()
//@path Arc::clone => vx_share
//@path Box::new => vx_store
//@path rand::thread_rng => vx_rng
//@cell self.connecting -
//@cell self.connected -
//@cell self.addr_pid -
//@cell self.user_pid -
//@cell self.pool -
//@cell self.listen -
//@cell self.inner.pool -
//@method pow => vx_pow
//@method cloned => vx_cloned
//@method as_hex => vx_as_hex
//@method as_bytes => vx_as_bytes
//@method with => vx_with
//@method to_owned => vx_owned
//@method into => vx_into
//@heapfn miss_tx.send out
//@heapfn self.route_multi_users_message out
//@heapfn self.process_event out
verus! {

// ------------------------------------------------------------------ the names the peer book works with
/// tentacle::secio::PeerId
pub struct PeerId {
    pub b: Ghost<Seq<u8>>,
}

pub struct UserAddress {
    pub k: Ghost<int>,
}

/// tentacle::secio::PublicKey
pub struct PublicKey {
    pub b: Ghost<Seq<u8>>,
}

/// tentacle::multiaddr::Multiaddr: its components
pub struct Multiaddr {
    pub comps: Ghost<Seq<Protocol>>,
}

/// tentacle::multiaddr::Protocol, as far as this code looks
pub enum Protocol {
    P2p(PeerHash),
    Ip4(Ipv4Addr),
    Ip6(Ipv6Addr),
    Other(Ghost<int>),
}

pub struct PeerHash {
    pub b: Ghost<Seq<u8>>,
}

#[derive(Clone, Copy)]
pub struct Ipv4Addr {
    pub k: Ghost<int>,
}

#[derive(Clone, Copy)]
pub struct Ipv6Addr {
    pub k: Ghost<int>,
}

#[derive(Clone, Copy)]
pub enum IpAddr {
    V4(Ipv4Addr),
    V6(Ipv6Addr),
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct SessionId(pub usize);

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum SessionType {
    Outbound,
    Inbound,
}

pub enum TargetSession {
    All,
    Single(SessionId),
    Multi(Vec<SessionId>),
}

pub enum DialProtocol {
    All,
    Single(usize),
    Multi(Vec<usize>),
}

pub struct RemoveKind;

pub struct RetryKind;

/// tentacle::multiaddr::Error
pub enum MultiaddrError {
    DataLessThanLen,
    InvalidMultiaddr,
}

pub struct SendError;

pub struct NetworkError;

pub struct HeartBeat;

pub struct AtomicWaker;

pub struct PathBuf;

pub struct NoopPersistence;

pub struct PeerPersistence;

pub struct Rng;

pub struct UnboundedReceiver<T> {
    pub t: Ghost<Option<T>>,
}

macro_rules! names {
    ($($t:ident),*) => {$(
        verus! {
        impl Clone for $t {
            #[verifier::external_body]
            fn clone(&self) -> (r: $t)
                ensures
                    r == *self,
            {
                unimplemented!()
            }
        }

        impl PartialEqSpecImpl for $t {
            open spec fn obeys_eq_spec() -> bool {
                true
            }

            open spec fn eq_spec(&self, o: &$t) -> bool {
                *self == *o
            }
        }

        impl PartialEq for $t {
            #[verifier::external_body]
            fn eq(&self, o: &$t) -> bool {
                unimplemented!()
            }
        }

        impl Eq for $t {
        }
        }
    )*};
}

names!(PeerId, UserAddress, PublicKey, Multiaddr, Protocol, PeerHash);

pub uninterp spec fn pid_of(k: PublicKey) -> PeerId;

pub uninterp spec fn user_of_bytes(s: Seq<u8>) -> UserAddress;

pub open spec fn user_of(k: PublicKey) -> UserAddress {
    user_of_bytes(k.b@)
}

/// Different keys are different peers and different users.
pub axiom fn keys_differ(a: PublicKey, b: PublicKey)
    requires
        pid_of(a) == pid_of(b) || user_of(a) == user_of(b),
    ensures
        a == b,
;

impl PublicKey {
    #[verifier::external_body]
    pub fn peer_id(&self) -> (r: PeerId)
        ensures
            r == pid_of(*self),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn inner_ref(&self) -> (r: &Vec<u8>)
        ensures
            r@ == self.b@,
    {
        unimplemented!()
    }
}

impl PeerId {
    #[verifier::external_body]
    pub fn vx_as_bytes(&self) -> (r: Bytes)
        ensures
            r == bytes_of(self.b@),
    {
        unimplemented!()
    }

    pub fn vx_owned(&self) -> (r: PeerId)
        ensures
            r == *self,
    {
        self.clone()
    }

    /// Arc::as_ref
    pub fn as_ref(&self) -> (r: &PeerId)
        ensures
            *r == *self,
    {
        self
    }
}

impl PeerHash {
    #[verifier::external_body]
    pub fn vx_as_bytes(&self) -> (r: Bytes)
        ensures
            r == bytes_of(self.b@),
    {
        unimplemented!()
    }
}

impl UserAddress {
    /// Under contract in the unit prim: C11.
    #[verifier::external_body]
    pub fn from_pubkey_bytes(b: Bytes) -> (r: ProtocolResult<UserAddress>)
        ensures
            r == Ok::<UserAddress, ProtocolError>(user_of_bytes(b@)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_as_hex(&self) -> String {
        unimplemented!()
    }
}

impl Multiaddr {
    #[verifier::external_body]
    pub fn empty() -> (r: Multiaddr)
        ensures
            r.comps@ == Seq::<Protocol>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_with(self, p: Protocol) -> (r: Multiaddr)
        ensures
            r.comps@ == self.comps@.push(p),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIter<Protocol>)
        ensures
            r.s@ == self.comps@,
            r.p@ == 0,
    {
        unimplemented!()
    }
}

pub trait VxCloned<T> {
    spec fn vopt(self) -> Option<T>;

    fn vx_cloned(self) -> (r: Option<T>)
        ensures
            r == self.vopt(),
    ;
}

/// Option::cloned; the types it is used for are cloned exactly
impl<'a, T> VxCloned<T> for Option<&'a T> {
    open spec fn vopt(self) -> Option<T> {
        match self {
            Some(x) => Some(*x),
            None => None,
        }
    }

    #[verifier::external_body]
    fn vx_cloned(self) -> Option<T> {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ clocks
/// std::time::Duration, in nanoseconds
#[derive(Clone, Copy)]
pub struct Duration {
    pub ns: Ghost<nat>,
}

/// std::time::SystemTime, in nanoseconds since the epoch
#[derive(Clone, Copy)]
pub struct SystemTime {
    pub ns: Ghost<int>,
}

#[derive(Clone, Copy)]
pub struct Instant {
    pub ns: Ghost<int>,
}

pub struct SystemTimeError {
    pub d: Duration,
}

pub open spec fn far() -> int {
    0x4000_0000_0000_0000
}

/// The system clock showed this at some time.
pub uninterp spec fn shown_by_clock(ns: int) -> bool;

/// The monotonic clock showed this at some time.
pub uninterp spec fn shown_by_timer(ns: int) -> bool;

pub open spec fn apart(a: int, b: int) -> nat {
    if a >= b { (a - b) as nat } else { (b - a) as nat }
}

pub open spec fn giga() -> int {
    1_000_000_000
}

impl Duration {
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration)
        ensures
            r.ns@ == s * giga(),
    {
        unimplemented!()
    }

    /// A Duration holds its seconds in a u64.
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64)
        ensures
            r == self.ns@ / (giga() as nat),
    {
        unimplemented!()
    }
}

impl SystemTimeError {
    pub fn duration(&self) -> (r: Duration)
        ensures
            r == self.d,
    {
        self.d
    }
}

#[verifier::external_body]
pub fn vx_epoch() -> (r: SystemTime)
    ensures
        r.ns@ == 0,
{
    unimplemented!()
}

impl SystemTime {
    /// within 10^11 years of the epoch
    #[verifier::external_body]
    pub fn now() -> (r: SystemTime)
        ensures
            shown_by_clock(r.ns@),
            secs_apart(r.ns@, 0) < far(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn duration_since(&self, o: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures
            r is Ok <==> self.ns@ >= o.ns@,
            r is Ok ==> r->Ok_0.ns@ == self.ns@ - o.ns@,
            r is Err ==> r->Err_0.d.ns@ == o.ns@ - self.ns@,
    {
        unimplemented!()
    }
}

impl vstd::std_specs::ops::AddSpecImpl<Duration> for SystemTime {
    open spec fn obeys_add_spec() -> bool {
        true
    }

    /// it panics when the result cannot be represented
    open spec fn add_req(self, d: Duration) -> bool {
        -far() * giga() < self.ns@ + d.ns@ < far() * giga()
    }

    open spec fn add_spec(self, d: Duration) -> SystemTime {
        SystemTime { ns: Ghost(self.ns@ + d.ns@) }
    }
}

impl core::ops::Add<Duration> for SystemTime {
    type Output = SystemTime;

    #[verifier::external_body]
    fn add(self, d: Duration) -> SystemTime {
        unimplemented!()
    }
}

impl Instant {
    #[verifier::external_body]
    pub fn now() -> (r: Instant)
        ensures
            shown_by_timer(r.ns@),
    {
        unimplemented!()
    }
}

impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool {
        true
    }

    open spec fn add_req(self, d: Duration) -> bool {
        d.ns@ < far() * giga()
    }

    open spec fn add_spec(self, d: Duration) -> Instant {
        Instant { ns: Ghost(self.ns@ + d.ns@) }
    }
}

impl core::ops::Add<Duration> for Instant {
    type Output = Instant;

    #[verifier::external_body]
    fn add(self, d: Duration) -> Instant {
        unimplemented!()
    }
}

impl PartialEqSpecImpl for Instant {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &Instant) -> bool {
        *self == *o
    }
}

impl PartialEq for Instant {
    #[verifier::external_body]
    fn eq(&self, o: &Instant) -> bool {
        unimplemented!()
    }
}

impl PartialOrdSpecImpl for Instant {
    open spec fn obeys_partial_cmp_spec() -> bool {
        true
    }

    open spec fn partial_cmp_spec(&self, o: &Instant) -> Option<core::cmp::Ordering> {
        if self.ns@ < o.ns@ {
            Some(core::cmp::Ordering::Less)
        } else if self.ns@ == o.ns@ {
            Some(core::cmp::Ordering::Equal)
        } else {
            Some(core::cmp::Ordering::Greater)
        }
    }
}

impl PartialOrd for Instant {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Instant) -> Option<core::cmp::Ordering> {
        unimplemented!()
    }
}

pub open spec fn ipow(b: nat, e: nat) -> nat
    decreases e,
{
    if e == 0 { 1 } else { b * ipow(b, (e - 1) as nat) }
}

pub trait VxPow {
    spec fn nv(self) -> nat;

    fn vx_pow(self, e: u32) -> (r: usize)
        requires
            ipow(self.nv(), e as nat) <= usize::MAX,
        ensures
            r == ipow(self.nv(), e as nat),
    ;
}

impl VxPow for usize {
    open spec fn nv(self) -> nat {
        self as nat
    }

    #[verifier::external_body]
    fn vx_pow(self, e: u32) -> usize {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ collections
pub struct HashSet<T> {
    pub s: Ghost<Set<T>>,
}

impl<T> View for HashSet<T> {
    type V = Set<T>;

    open spec fn view(&self) -> Set<T> {
        self.s@
    }
}

impl<T> Clone for HashSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

pub open spec fn set_seq_ok<T>(m: Set<T>, s: Seq<T>) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
    &&& forall|x: T| #[trigger] m.contains(x) ==> s.contains(x)
    &&& s.len() == m.len()
}

/// No collection fills a quarter of the address space.
pub open spec fn many() -> int {
    usize::MAX as int / 4
}

impl<T> HashSet<T> {
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool)
        ensures
            final(self)@ == old(self)@.insert(t),
            r == !old(self)@.contains(t),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, t: &T) -> (r: bool)
        ensures
            final(self)@ == old(self)@.remove(*t),
            r == old(self)@.contains(*t),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains(&self, t: &T) -> (r: bool)
        ensures
            r == self@.contains(*t),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self@.len(),
            r < many(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self@ == Set::<T>::empty()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VxRefIter<'a, T>)
        ensures
            set_seq_ok(self@, r.s@),
            r.p@ == 0,
    {
        unimplemented!()
    }

    pub fn vx_put(&mut self, t: T)
        ensures
            final(self)@ == old(self)@.insert(t),
    {
        let _ = self.insert(t);
    }
}

pub open spec fn has_value<K, V>(m: Map<K, V>, v: V) -> bool {
    exists|k: K| #[trigger] m.contains_key(k) && m[k] == v
}

pub open spec fn values_of<K, V>(m: Map<K, V>, s: Seq<V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> has_value(m, #[trigger] s[i])
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> s.contains(m[k])
}

impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_values<'a>(&'a self) -> (r: VxRefIter<'a, V>)
        ensures
            r.p@ == 0,
            r.s@.len() == self@.len(),
            values_of(self@, r.s@),
    {
        unimplemented!()
    }
}

pub trait VxPush<T> {
    spec fn pushed(self, t: T, o: Self) -> bool;

    fn vx_put(&mut self, t: T)
        ensures
            old(self).pushed(t, *final(self)),
    ;
}

impl<T> VxPush<T> for Vec<T> {
    open spec fn pushed(self, t: T, o: Vec<T>) -> bool {
        o@ == self@.push(t)
    }

    #[verifier::external_body]
    fn vx_put(&mut self, t: T) {
        unimplemented!()
    }
}

pub trait VxEmpty: Sized {
    spec fn is_emp(self) -> bool;

    fn vx_empty() -> (r: Self)
        ensures
            r.is_emp(),
    ;
}

impl<T> VxEmpty for HashSet<T> {
    open spec fn is_emp(self) -> bool {
        self@ == Set::<T>::empty()
    }

    #[verifier::external_body]
    fn vx_empty() -> HashSet<T> {
        unimplemented!()
    }
}

impl<K, V> VxEmpty for HashMap<K, V> {
    open spec fn is_emp(self) -> bool {
        self@ == Map::<K, V>::empty()
    }

    #[verifier::external_body]
    fn vx_empty() -> HashMap<K, V> {
        unimplemented!()
    }
}

/// rand::seq::IteratorRandom::choose_multiple: some of them, as many as asked for if there are
#[verifier::external_body]
pub fn vx_choose_multiple<T>(all: Vec<T>, g: &mut Rng, max: usize) -> (r: Vec<T>)
    ensures
        r@.len() == (if all@.len() <= max { all@.len() } else { max as nat }),
        forall|i: int| 0 <= i < r@.len() ==> all@.contains(#[trigger] r@[i]),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_rng() -> Rng {
    unimplemented!()
}

// ------------------------------------------------------------------ peer.rs
//@item core/network/src/peer_manager/peer.rs const BACKOFF_BASE
//@item core/network/src/peer_manager/peer.rs const VALID_ATTEMPT_INTERVAL
//@item core/network/src/peer_manager/peer.rs struct PeerState need:Clone
//@item core/network/src/peer_manager/peer.rs struct Peer need:Clone

/// No time a peer remembers is absurd.
pub open spec fn sane(s: PeerState) -> bool {
    s.connect_at < far() && s.attempt_at < far()
}

/// A peer's names come from its key.
pub open spec fn named(p: Peer) -> bool {
    p.id == pid_of(p.pubkey) && p.user_addr == user_of(p.pubkey)
}

pub open spec fn peer_ok(p: Peer) -> bool {
    named(p) && sane(p.state)
}

/// A state nothing happened to.
pub open spec fn fresh(s: PeerState) -> bool {
    &&& s.connection_ip is None
    &&& s.retry_count == 0
    &&& s.connect_at == 0
    &&& s.disconnect_at == 0
    &&& s.attempt_at == 0
    &&& s.alive == 0
}

impl PeerState {
//@fn core/network/src/peer_manager/peer.rs PeerState::new
//@. ensures
        fresh(r),
        r.addr_set@ == Set::<Multiaddr>::empty(),
//@end

//@fn core/network/src/peer_manager/peer.rs PeerState::from_addrs
//@. ensures
        fresh(r),
        r.addr_set@ =~= addrs@.to_set(),
//@. loop 0
        invariant
            __it0.s@ == addrs@,
            __it0.p@ <= __it0.s@.len(),
            fresh(state),
            state.addr_set@ =~= addrs@.take(__it0.p@ as int).to_set(),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                lemma_take_set(addrs@, __it0.p@ as int);
            }
//@. at loop:0:after
            proof {
                assert(addrs@.take(addrs@.len() as int) =~= addrs@);
            }
//@end

//@fn core/network/src/peer_manager/peer.rs PeerState::addrs
//@. ensures
        listed(r@, self.addr_set@),
//@. loop 0
        invariant
            set_seq_ok(self.addr_set@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            refs_of(__v2@, __it0.s@, __it0.p@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                lemma_listed(__v2@, __it0.s@);
            }
//@end
}

/// The first n items, as references.
pub open spec fn refs_of<T>(v: Seq<&T>, s: Seq<T>, n: nat) -> bool {
    v.len() == n && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == s[i]
}

pub proof fn lemma_listed<T>(v: Seq<&T>, s: Seq<T>)
    requires
        refs_of(v, s, s.len()),
    ensures
        listed(v, s.to_set()),
        forall|m: Set<T>| set_seq_ok(m, s) ==> #[trigger] listed(v, m),
{
    assert forall|m: Set<T>| set_seq_ok(m, s) implies #[trigger] listed(v, m) by {
        assert forall|x: T| #[trigger] m.contains(x) implies exists|i: int| 0 <= i < v.len() && *#[trigger] v[i] == x by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
            assert(*v[i] == x);
        }
    }
    assert forall|x: T| #[trigger] s.to_set().contains(x) implies exists|i: int| 0 <= i < v.len() && *#[trigger] v[i] == x by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(*v[i] == x);
    }
}

/// The items, as references, of a set.
pub open spec fn listed<T>(v: Seq<&T>, s: Set<T>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> s.contains(*#[trigger] v[i])
    &&& forall|x: T| #[trigger] s.contains(x) ==> exists|i: int| 0 <= i < v.len() && *#[trigger] v[i] == x
}

pub proof fn lemma_take_set<T>(s: Seq<T>, n: int)
    requires
        0 <= n < s.len(),
    ensures
        s.take(n + 1).to_set() =~= s.take(n).to_set().insert(s[n]),
{
    assert(s.take(n + 1) =~= s.take(n).push(s[n]));
    assert forall|x: T| #[trigger] s.take(n + 1).to_set().contains(x) <==> s.take(n).to_set().insert(s[n]).contains(x) by {
        if s.take(n + 1).contains(x) {
            let i = choose|i: int| 0 <= i < n + 1 && #[trigger] s.take(n + 1)[i] == x;
            if i < n {
                assert(s.take(n)[i] == x);
            }
        }
        if s.take(n).contains(x) {
            let i = choose|i: int| 0 <= i < n && #[trigger] s.take(n)[i] == x;
            assert(s.take(n + 1)[i] == x);
        }
        if x == s[n] {
            assert(s.take(n + 1)[n] == x);
        }
    }
}

/// The seconds between two times.
pub open spec fn secs_apart(a: int, b: int) -> nat {
    apart(a, b) / (giga() as nat)
}

/// Still in the window of the last attempt.
pub open spec fn in_window(now: int, p: Peer) -> bool {
    secs_apart(now, p.state.attempt_at * giga()) < 4
}

/// A failed attempt was counted, or it belongs to one that was.
pub open spec fn retried(a: Peer, b: Peer) -> bool {
    ||| a == b && exists|t: int| #[trigger] shown_by_clock(t) && in_window(t, a)
    ||| {
        &&& exists|t: int| #[trigger] shown_by_clock(t) && !in_window(t, a)
        &&& exists|t: int| #[trigger] shown_by_clock(t) && b.state.attempt_at == secs_apart(t, 0)
        &&& exists|t: int| #[trigger] shown_by_timer(t) && b.state.next_retry.ns@ == t + ipow(5, a.state.retry_count as nat + 1) * giga()
        &&& b.state.retry_count == a.state.retry_count + 1
        &&& b == Peer {
            state: PeerState {
                retry_count: b.state.retry_count,
                attempt_at: b.state.attempt_at,
                next_retry: b.state.next_retry,
                ..a.state
            },
            ..a
        }
    }
}

pub proof fn lemma_pow5(e: nat)
    requires
        e <= 9,
    ensures
        ipow(5, e) <= 1953125,
        ipow(5, e) >= 1,
    decreases e,
{
    reveal_with_fuel(ipow, 11);
}

impl Peer {
//@fn core/network/src/peer_manager/peer.rs Peer::new
//@. ensures
        r.id == pid,
        r.pubkey == pubkey,
        r.user_addr == user_of(pubkey),
        fresh(r.state),
        r.state.addr_set@ == Set::<Multiaddr>::empty(),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::from_pair
//@. ensures
        r.pubkey == pk_addr.0,
        peer_ok(r),
        fresh(r.state),
        r.state.addr_set@ == set![pk_addr.1],
//@. at end
        proof {
            assert(seq![pk_addr.1].to_set() =~= set![pk_addr.1]) by {
                assert(seq![pk_addr.1][0] == pk_addr.1);
            }
        }
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::id
//@. ensures
        *r == self.id,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::pubkey
//@. ensures
        *r == self.pubkey,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::connection_ip
//@. ensures
        r == self.state.connection_ip,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::user_addr
//@. ensures
        *r == self.user_addr,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::state
//@. ensures
        *r == self.state,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::addrs
//@. ensures
        listed(r@, self.state.addr_set@),
        r@.len() > 0 ==> self.state.addr_set@.contains(*r@[0]),
//@. loop 0
        invariant
            set_seq_ok(self.state.addr_set@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            refs_of(__v2@, __it0.s@, __it0.p@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                lemma_listed(__v2@, __it0.s@);
            }
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::owned_addrs
//@. ensures
        r@.to_set() =~= self.state.addr_set@,
//@. loop 0
        invariant
            set_seq_ok(self.state.addr_set@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            __v2@ == __it0.s@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                assert(__it0.s@.take(__it0.s@.len() as int) =~= __it0.s@);
            }
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::set_state
//@. ensures
        *final(self) == (Peer { state: state, ..*old(self) }),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::set_connection_ip
//@. ensures
        *final(self) == (Peer { state: PeerState { connection_ip: ip, ..old(self).state }, ..*old(self) }),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::add_addr
//@. ensures
        *final(self) == with_addr(*old(self), addr),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::remove_addr
//@. ensures
        *final(self) == without_addr(*old(self), *addr),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::update_connect
//@. ensures
        connected_now(*old(self), *final(self)),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::update_disconnect
//@. ensures
        *final(self) == (Peer { state: PeerState { disconnect_at: final(self).state.disconnect_at, ..old(self).state }, ..*old(self) }),
        exists|t: int| #[trigger] shown_by_clock(t) && final(self).state.disconnect_at == secs_apart(t, 0),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::update_alive
//@. requires
        sane(old(self).state),
//@. ensures
        *final(self) == (Peer { state: PeerState { alive: final(self).state.alive, ..old(self).state }, ..*old(self) }),
        exists|t: int| #[trigger] shown_by_clock(t) && final(self).state.alive == secs_apart(t, old(self).state.connect_at * giga()),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::alive
//@. ensures
        r == self.state.alive,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::retry_ready
//@. ensures
        r ==> exists|t: int| #[trigger] shown_by_timer(t) && t > self.state.next_retry.ns@,
        !r ==> exists|t: int| #[trigger] shown_by_timer(t) && t <= self.state.next_retry.ns@,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::retry_count
//@. ensures
        r == self.state.retry_count,
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::increase_retry
//@. requires
        sane(old(self).state),
        old(self).state.retry_count <= 8,
//@. ensures
        retried(*old(self), *final(self)),
        sane(final(self).state),
//@. at start
        proof {
            lemma_pow5((old(self).state.retry_count + 1) as nat);
        }
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::reset_retry
//@. ensures
        *final(self) == (Peer { state: PeerState { retry_count: 0, ..old(self).state }, ..*old(self) }),
//@end

//@fn core/network/src/peer_manager/peer.rs Peer::pubkey_to_addr
//@. ensures
        r == user_of(*pubkey),
//@end
}

//@fn core/network/src/peer_manager/peer.rs duration_since
//@. ensures
        r.ns@ == apart(now.ns@, early.ns@),
//@end

pub open spec fn with_addr(p: Peer, a: Multiaddr) -> Peer {
    Peer { state: PeerState { addr_set: HashSet { s: Ghost(p.state.addr_set@.insert(a)) }, ..p.state }, ..p }
}

pub open spec fn without_addr(p: Peer, a: Multiaddr) -> Peer {
    Peer { state: PeerState { addr_set: HashSet { s: Ghost(p.state.addr_set@.remove(a)) }, ..p.state }, ..p }
}

pub open spec fn connected_now(a: Peer, b: Peer) -> bool {
    &&& b == Peer { state: PeerState { connect_at: b.state.connect_at, ..a.state }, ..a }
    &&& b.state.connect_at < far()
    &&& exists|t: int| #[trigger] shown_by_clock(t) && b.state.connect_at == secs_apart(t, 0)
}

// ------------------------------------------------------------------ the peer book
//@item core/network/src/peer_manager/mod.rs const MAX_RETRY_COUNT
//@item core/network/src/peer_manager/mod.rs const ALIVE_RETRY_INTERVAL
//@item core/network/src/peer_manager/mod.rs struct Inner

/// Every peer is under its own name.
pub open spec fn keyed(pool: Map<PeerId, Peer>) -> bool {
    forall|k: PeerId| #[trigger] pool.contains_key(k) ==> pool[k].id == k && peer_ok(pool[k]) && pool[k].state.retry_count <= MAX_RETRY_COUNT
}

/// An address in the index leads to a peer that has it.
pub open spec fn addrs_lead(pool: Map<PeerId, Peer>, m: Map<Multiaddr, PeerId>) -> bool {
    forall|a: Multiaddr| #[trigger] m.contains_key(a) ==> pool.contains_key(m[a]) && pool[m[a]].state.addr_set@.contains(a)
}

/// A user in the index leads to the peer it is, and every peer is in the index.
pub open spec fn users_lead(pool: Map<PeerId, Peer>, m: Map<UserAddress, PeerId>) -> bool {
    &&& forall|u: UserAddress| #[trigger] m.contains_key(u) ==> pool.contains_key(m[u]) && pool[m[u]].user_addr == u
    &&& forall|k: PeerId| #[trigger] pool.contains_key(k) ==> m.contains_key(pool[k].user_addr) && m[pool[k].user_addr] == k
}

pub open spec fn links_ok(pool: Map<PeerId, Peer>, connecting: Set<PeerId>, connected: Set<PeerId>) -> bool {
    &&& forall|k: PeerId| #[trigger] connecting.contains(k) ==> pool.contains_key(k)
    &&& forall|k: PeerId| #[trigger] connected.contains(k) ==> pool.contains_key(k) && !connecting.contains(k)
}

impl Inner {
    pub open spec fn book_ok(self) -> bool {
        &&& keyed(self.pool@)
        &&& addrs_lead(self.pool@, self.addr_pid@)
        &&& users_lead(self.pool@, self.user_pid@)
        &&& links_ok(self.pool@, self.connecting@, self.connected@)
    }

    /// The book lists ourself, as connected.
    pub open spec fn ok(self) -> bool {
        self.book_ok() && self.connected@.contains(self.peer_id)
    }
}

/// Nothing but the entry of p differs.
pub open spec fn only<V>(a: Map<PeerId, V>, b: Map<PeerId, V>, p: PeerId) -> bool {
    a.contains_key(p) && b =~= a.insert(p, b[p])
}

/// The first n addresses lead to p, the others where they did.
pub open spec fn laid(a: Map<Multiaddr, PeerId>, b: Map<Multiaddr, PeerId>, s: Seq<&Multiaddr>, n: nat, p: PeerId) -> bool {
    &&& forall|i: int| 0 <= i < n ==> b.contains_key(*#[trigger] s[i]) && b[*s[i]] == p
    &&& forall|x: Multiaddr| #[trigger] a.contains_key(x) ==> b.contains_key(x) && (b[x] == p || b[x] == a[x])
    &&& forall|x: Multiaddr| #[trigger] b.contains_key(x) ==> (a.contains_key(x) && b[x] == a[x]) || exists|i: int| 0 <= i < n && *#[trigger] s[i] == x
}

/// The addresses of a set lead to p, the others where they did.
pub open spec fn pointed(a: Map<Multiaddr, PeerId>, b: Map<Multiaddr, PeerId>, s: Set<Multiaddr>, p: PeerId) -> bool {
    &&& forall|x: Multiaddr| #[trigger] b.contains_key(x) <==> a.contains_key(x) || s.contains(x)
    &&& forall|x: Multiaddr| #[trigger] b.contains_key(x) ==> b[x] == (if s.contains(x) { p } else { a[x] })
}

pub proof fn lemma_laid(a: Map<Multiaddr, PeerId>, b: Map<Multiaddr, PeerId>, s: Seq<&Multiaddr>, t: Set<Multiaddr>, p: PeerId)
    requires
        laid(a, b, s, s.len(), p),
        listed(s, t),
    ensures
        pointed(a, b, t, p),
{
    assert forall|x: Multiaddr| #[trigger] t.contains(x) implies b.contains_key(x) && b[x] == p by {
        let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == x;
        assert(b.contains_key(*s[i]));
    }
}

/// The addresses that led to p are gone, and no other entry is.
pub open spec fn dropped(a: Map<Multiaddr, PeerId>, b: Map<Multiaddr, PeerId>, p: PeerId) -> bool {
    &&& forall|x: Multiaddr| #[trigger] b.contains_key(x) <==> a.contains_key(x) && a[x] != p
    &&& forall|x: Multiaddr| #[trigger] b.contains_key(x) ==> b[x] == a[x]
}

/// The first n addresses do not lead to p any more; nothing else has changed.
pub open spec fn cleared(a: Map<Multiaddr, PeerId>, b: Map<Multiaddr, PeerId>, s: Seq<&Multiaddr>, n: nat, p: PeerId) -> bool {
    &&& forall|x: Multiaddr| #[trigger] b.contains_key(x) ==> a.contains_key(x) && b[x] == a[x]
    &&& forall|x: Multiaddr| #[trigger] a.contains_key(x) && a[x] != p ==> b.contains_key(x)
    &&& forall|i: int| 0 <= i < n ==> !(b.contains_key(*#[trigger] s[i]) && b[*s[i]] == p)
}

pub proof fn lemma_same_user(pool: Map<PeerId, Peer>, peer: Peer)
    requires
        keyed(pool),
        peer_ok(peer),
    ensures
        forall|k: PeerId| #[trigger] pool.contains_key(k) && (pool[k].user_addr == peer.user_addr || k == peer.id)
            ==> k == peer.id && pool[k].user_addr == peer.user_addr,
{
    assert forall|k: PeerId| #[trigger] pool.contains_key(k) && (pool[k].user_addr == peer.user_addr || k == peer.id)
            implies k == peer.id && pool[k].user_addr == peer.user_addr by {
        keys_differ(pool[k].pubkey, peer.pubkey);
    }
}

pub proof fn lemma_one_user(pool: Map<PeerId, Peer>, p: PeerId)
    requires
        keyed(pool),
    ensures
        pool.contains_key(p) ==> forall|k: PeerId| #[trigger] pool.contains_key(k) && pool[k].user_addr == pool[p].user_addr ==> k == p,
{
    if pool.contains_key(p) {
        lemma_same_user(pool, pool[p]);
    }
}

/// What adding a peer to the book does.
pub open spec fn added(a: Inner, b: Inner, peer: Peer) -> bool {
    &&& b == (Inner { pool: b.pool, addr_pid: b.addr_pid, user_pid: b.user_pid, ..a })
    &&& b.user_pid@ == a.user_pid@.insert(peer.user_addr, peer.id)
    &&& pointed(a.addr_pid@, b.addr_pid@, peer.state.addr_set@, peer.id)
    &&& b.pool@ =~= a.pool@.insert(peer.id, b.pool@[peer.id])
    &&& a.pool@.contains_key(peer.id) ==> {
        &&& b.pool@[peer.id].state.addr_set@ =~= a.pool@[peer.id].state.addr_set@.union(peer.state.addr_set@)
        &&& b.pool@[peer.id] == (Peer { state: PeerState { addr_set: b.pool@[peer.id].state.addr_set, ..a.pool@[peer.id].state }, ..a.pool@[peer.id] })
    }
    &&& !a.pool@.contains_key(peer.id) ==> b.pool@[peer.id] == peer
}

/// Another address of a known peer.
pub open spec fn addr_added(a: Inner, p: PeerId, x: Multiaddr) -> Inner {
    if a.pool@.contains_key(p) {
        Inner {
            pool: HashMap { m: Ghost(a.pool@.insert(p, with_addr(a.pool@[p], x))) },
            addr_pid: HashMap { m: Ghost(a.addr_pid@.insert(x, p)) },
            ..a
        }
    } else {
        a
    }
}

pub open spec fn addr_removed(a: Inner, p: PeerId, x: Multiaddr) -> Inner {
    Inner {
        pool: if a.pool@.contains_key(p) {
            HashMap { m: Ghost(a.pool@.insert(p, without_addr(a.pool@[p], x))) }
        } else {
            a.pool
        },
        addr_pid: if a.addr_pid@.contains_key(x) && a.addr_pid@[x] == p {
            HashMap { m: Ghost(a.addr_pid@.remove(x)) }
        } else {
            a.addr_pid
        },
        ..a
    }
}

/// A peer and its entries are gone, and no other's.
pub open spec fn removed(a: Inner, b: Inner, p: PeerId) -> bool {
    &&& b == (Inner { pool: b.pool, addr_pid: b.addr_pid, user_pid: b.user_pid, connecting: b.connecting, connected: b.connected, ..a })
    &&& b.pool@ =~= a.pool@.remove(p)
    &&& dropped(a.addr_pid@, b.addr_pid@, p)
    &&& b.user_pid@ =~= (if a.pool@.contains_key(p) { a.user_pid@.remove(a.pool@[p].user_addr) } else { a.user_pid@ })
    &&& b.connecting@ =~= a.connecting@.remove(p)
    &&& b.connected@ =~= a.connected@.remove(p)
}

pub open spec fn not_dialed(a: Inner, p: PeerId) -> Inner {
    Inner { connecting: HashSet { s: Ghost(a.connecting@.remove(p)) }, ..a }
}

pub open spec fn set_online(a: Inner, b: Inner, p: PeerId, ip: Option<IpAddr>) -> bool {
    &&& b == (Inner { pool: b.pool, connecting: b.connecting, connected: b.connected, ..a })
    &&& b.connecting@ =~= a.connecting@.remove(p)
    &&& b.connected@ =~= a.connected@.insert(p)
    &&& !a.pool@.contains_key(p) ==> b.pool@ == a.pool@
    &&& a.pool@.contains_key(p) ==> only(a.pool@, b.pool@, p) && {
        let (x, y) = (a.pool@[p], b.pool@[p]);
        &&& y == Peer { state: PeerState { connect_at: y.state.connect_at, connection_ip: ip, ..x.state }, ..x }
        &&& y.state.connect_at < far()
        &&& exists|t: int| #[trigger] shown_by_clock(t) && y.state.connect_at == secs_apart(t, 0)
    }
}

pub open spec fn set_offline(a: Inner, b: Inner, p: PeerId) -> bool {
    &&& b == (Inner { pool: b.pool, connecting: b.connecting, connected: b.connected, ..a })
    &&& b.connecting@ =~= a.connecting@.remove(p)
    &&& b.connected@ =~= a.connected@.remove(p)
    &&& !a.pool@.contains_key(p) ==> b.pool@ == a.pool@
    &&& a.pool@.contains_key(p) ==> only(a.pool@, b.pool@, p) && went_off(a.pool@[p], b.pool@[p])
}

pub open spec fn went_off(x: Peer, y: Peer) -> bool {
    &&& y == Peer {
        state: PeerState { disconnect_at: y.state.disconnect_at, alive: y.state.alive, connection_ip: None, ..x.state },
        ..x
    }
    &&& exists|t: int| #[trigger] shown_by_clock(t) && y.state.disconnect_at == secs_apart(t, 0)
    &&& exists|t: int| #[trigger] shown_by_clock(t) && y.state.alive == secs_apart(t, x.state.connect_at * giga())
}

/// A failure of this peer was counted.
pub open spec fn counted(a: Inner, b: Inner, p: PeerId) -> bool {
    &&& b == (Inner { pool: b.pool, ..a })
    &&& !a.pool@.contains_key(p) ==> b == a
    &&& a.pool@.contains_key(p) ==> only(a.pool@, b.pool@, p) && retried(a.pool@[p], b.pool@[p])
}

pub open spec fn forgiven(a: Inner, p: PeerId) -> Inner {
    if a.pool@.contains_key(p) {
        Inner {
            pool: HashMap { m: Ghost(a.pool@.insert(p, Peer { state: PeerState { retry_count: 0, ..a.pool@[p].state }, ..a.pool@[p] })) },
            ..a
        }
    } else {
        a
    }
}

/// The peer an address belongs to: the one it leads to, or the one its first two parts lead to, when
/// nothing else follows or that peer's name does.
pub open spec fn owner(m: Map<Multiaddr, PeerId>, a: Multiaddr) -> Option<PeerId> {
    let c = a.comps@;
    let root = Multiaddr { comps: Ghost(c.take(2)) };
    if m.contains_key(a) {
        Some(m[a])
    } else if c.len() >= 2 && m.contains_key(root) && (c.len() == 2 || (c[2] is P2p && c[2]->P2p_0.b@ == m[root].b@)) {
        Some(m[root])
    } else {
        None
    }
}

impl Inner {
//@fn core/network/src/peer_manager/mod.rs Inner::new
//@. ensures
        r.peer_id == pid,
        r.listen is None,
        r.connecting@ == Set::<PeerId>::empty(),
        r.connected@ == Set::<PeerId>::empty(),
        r.addr_pid@ == Map::<Multiaddr, PeerId>::empty(),
        r.user_pid@ == Map::<UserAddress, PeerId>::empty(),
        r.pool@ == Map::<PeerId, Peer>::empty(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::connected_peers
//@. ensures
        r@.no_duplicates(),
        forall|k: PeerId| #[trigger] r@.contains(k) <==> self.connected@.contains(k) && k != self.peer_id,
//@. loop 0
        invariant
            set_seq_ok(self.connected@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            picked(__it0.s@, __it0.p@, __v2@, self.peer_id),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                lemma_picked(__it0.s@, __it0.p@, __v2@, self.peer_id);
            }
//@. at loop:0:after
            proof {
                assert(__it0.s@.take(__it0.s@.len() as int) =~= __it0.s@);
            }
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::connection_ip
//@. ensures
        r == (if self.pool@.contains_key(*pid) { self.pool@[*pid].state.connection_ip } else { None }),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::peer_exist
//@. ensures
        r == self.pool@.contains_key(*pid),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::listen
//@. ensures
        r == self.listen,
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::user_peer
//@. ensures
        self.user_pid@.contains_key(*user) && self.pool@.contains_key(self.user_pid@[*user])
            ==> r == Some(self.pool@[self.user_pid@[*user]]),
        !(self.user_pid@.contains_key(*user) && self.pool@.contains_key(self.user_pid@[*user])) ==> r is None,
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::pid_user_addr
//@. ensures
        r == (if self.pool@.contains_key(*pid) { Some(self.pool@[*pid].user_addr) } else { None }),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::peer_addrs
//@. ensures
        r is Some <==> self.pool@.contains_key(*pid),
        r is Some ==> r->0@.to_set() =~= self.pool@[*pid].state.addr_set@,
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::set_listen
//@. self mut
//@. ensures
        *final(self) == (Inner { listen: Some(addr), ..*old(self) }),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::add_peer
//@. self mut
//@. requires
        old(self).book_ok(),
        peer_ok(peer),
        peer.state.retry_count <= MAX_RETRY_COUNT,
//@. ensures
        added(*old(self), *final(self), peer),
        final(self).book_ok(),
//@. loop 0
        invariant
            listed(__it0.s@, peer.state.addr_set@),
            __it0.p@ <= __it0.s@.len(),
            laid(old(self).addr_pid@, addr_pid@, __it0.s@, __it0.p@, peer.id),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                lemma_laid(old(self).addr_pid@, addr_pid@, __it0.s@, peer.state.addr_set@, peer.id);
            }
//@. loop 1
        invariant
            __it1.s@.to_set() =~= peer.state.addr_set@,
            __it1.p@ <= __it1.s@.len(),
            known.state.addr_set@ =~= old(self).pool@[peer.id].state.addr_set@.union(__it1.s@.take(__it1.p@ as int).to_set()),
            *known == (Peer { state: PeerState { addr_set: known.state.addr_set, ..old(self).pool@[peer.id].state }, ..old(self).pool@[peer.id] }),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
            proof {
                lemma_take_set(__it1.s@, __it1.p@ as int);
            }
//@. at loop:1:after
            proof {
                assert(__it1.s@.take(__it1.s@.len() as int) =~= __it1.s@);
            }
//@. at start
        proof {
            lemma_same_user(self.pool@, peer);
        }
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::add_peer_addr
//@. self mut
//@. ensures
        *final(self) == addr_added(*old(self), *peer_id, addr),
        old(self).book_ok() ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::remove_peer_addr
//@. self mut
//@. ensures
        *final(self) == addr_removed(*old(self), *peer_id, *addr),
        old(self).book_ok() ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::match_pid
//@. ensures
        r == owner(self.addr_pid@, *addr),
//@. loop 0
        invariant
            __it0.s@ == addr.comps@,
            __it0.p@ <= __it0.s@.len(),
            __v2@ == __it0.s@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                assert(__it0.s@.take(__it0.s@.len() as int) =~= __it0.s@);
            }
//@. at start
        proof {
            let c = addr.comps@;
            if c.len() >= 2 {
                assert(c.take(2) =~= Seq::<Protocol>::empty().push(c[0]).push(c[1]));
            }
        }
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::try_remove_addr
//@. self mut
//@. ensures
        *final(self) == (if old(self).addr_pid@.contains_key(*addr) {
            addr_removed(*old(self), old(self).addr_pid@[*addr], *addr)
        } else {
            *old(self)
        }),
        old(self).book_ok() ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::remove_peer
//@. self mut
//@. requires
        old(self).book_ok(),
//@. ensures
        removed(*old(self), *final(self), *peer_id),
        final(self).book_ok(),
//@. loop 0
        invariant
            listed(__it0.s@, peer.state.addr_set@),
            __it0.p@ <= __it0.s@.len(),
            cleared(old(self).addr_pid@, addr_pid@, __it0.s@, __it0.p@, *peer_id),
        decreases __it0.s@.len() - __it0.p@,
//@. at start
        proof {
            lemma_one_user(self.pool@, *peer_id);
        }
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::register_self
//@. self mut
//@. requires
        pid_of(pubkey) == peer_id,
//@. ensures
        final(self).pool@.contains_key(peer_id),
        final(self).connected@ == old(self).connected@.insert(peer_id),
        final(self).pool@ == old(self).pool@.insert(peer_id, final(self).pool@[peer_id]),
        final(self).user_pid@ == old(self).user_pid@.insert(user_of(pubkey), peer_id),
        *final(self) == (Inner { pool: final(self).pool, user_pid: final(self).user_pid, connected: final(self).connected, ..*old(self) }),
        final(self).pool@[peer_id].pubkey == pubkey,
        peer_ok(final(self).pool@[peer_id]),
        fresh(final(self).pool@[peer_id].state),
        final(self).pool@[peer_id].state.addr_set@ == Set::<Multiaddr>::empty(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::peer_connected
//@. ensures
        r == self.connected@.contains(*peer_id),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::connect_peer
//@. self mut
//@. ensures
        *final(self) == (Inner { connecting: final(self).connecting, ..*old(self) }),
        final(self).connecting@ == (if old(self).connected@.contains(*peer_id) { old(self).connecting@ } else { old(self).connecting@.insert(*peer_id) }),
        old(self).book_ok() && old(self).pool@.contains_key(*peer_id) ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::stop_connecting
//@. self mut
//@. ensures
        *final(self) == not_dialed(*old(self), *peer_id),
        old(self).book_ok() ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::set_connected
//@. self mut
//@. ensures
        set_online(*old(self), *final(self), *peer_id, ip),
        old(self).book_ok() && old(self).pool@.contains_key(*peer_id) ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::disconnect_peer
//@. self mut
//@. requires
        old(self).book_ok(),
//@. ensures
        set_offline(*old(self), *final(self), *peer_id),
        final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::peer_alive
//@. ensures
        r == (if self.pool@.contains_key(*peer_id) { Some(self.pool@[*peer_id].state.alive) } else { None }),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::connection_count
//@. requires
        self.ok(),
//@. ensures
        r == self.connected@.len() + self.connecting@.len() - 1,
//@. at start
        proof {
            assert(self.connected@.remove(self.peer_id).len() + 1 == self.connected@.len());
        }
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::increase_retry_count
//@. self mut
//@. requires
        keyed(old(self).pool@),
//@. ensures
        counted(*old(self), *final(self), *peer_id),
        sane_still(final(self).pool@),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::reset_retry
//@. self mut
//@. ensures
        *final(self) == forgiven(*old(self), *peer_id),
        old(self).book_ok() ==> final(self).book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::reach_max_retry
//@. ensures
        r == (!self.pool@.contains_key(*peer_id) || self.pool@[*peer_id].state.retry_count >= MAX_RETRY_COUNT),
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::unconnected_peers
//@. requires
        keyed(self.pool@),
//@. ensures
        r@.len() <= max,
        forall|i: int| 0 <= i < r@.len() ==> idle(*self, #[trigger] r@[i]),
//@. loop 0
        invariant
            keyed(self.pool@),
            forall|i: int| 0 <= i < __it0.s@.len() ==> idle(*self, (#[trigger] __it0.s@[i]).id),
            __it0.p@ <= __it0.s@.len(),
            __it0.s@.len() <= max,
            __v2@.len() == __it0.p@,
            forall|i: int| 0 <= i < __v2@.len() ==> idle(*self, #[trigger] __v2@[i]),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
                        invariant
                            keyed(self.pool@),
                            *connecting == self.connecting,
                            *connected == self.connected,
                            values_of(self.pool@, __it1.s@),
                            __it1.p@ <= __it1.s@.len(),
                            all_idle(*self, __v6@),
                        decreases __it1.s@.len() - __it1.p@,
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::package_peers
//@. ensures
        r@.len() == self.pool@.len(),
        all_packed(self.pool@, r@),
//@. loop 0
        invariant
            *pool == self.pool,
            __it0.s@.len() == self.pool@.len(),
            values_of(self.pool@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            packed(peer_box@, __it0.s@, __it0.p@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                lemma_packed(self.pool@, __it0.s@, peer_box@);
            }
//@end

//@fn core/network/src/peer_manager/mod.rs Inner::insert_peers
//@. self mut
//@. requires
        old(self).book_ok(),
        loadable(old(self).pool@, peers@),
//@. ensures
        final(self).book_ok(),
        loaded(old(self).pool@, final(self).pool@, peers@),
        *final(self) == (Inner { pool: final(self).pool, addr_pid: final(self).addr_pid, user_pid: final(self).user_pid, ..*old(self) }),
//@. loop 0
        invariant
            __it0.s@ == peers@,
            __it0.p@ <= __it0.s@.len(),
            loadable(old(self).pool@, peers@),
            keyed(pool@),
            addrs_lead(pool@, addr_pid@),
            users_lead(pool@, user_pid@),
            loading(old(self).pool@, pool@, peers@, __it0.p@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost n0 = __it0.p@;
            let ghost m0 = addr_pid@;
            let ghost p0 = pool@;
            let ghost x0 = peers@[n0 as int];
            proof {
                lemma_same_user(pool@, entry_of(x0));
                assert(saved(peers@[n0 as int].1));
                if pool@.contains_key(pid_of(x0.0)) {
                    keys_differ(pool@[pid_of(x0.0)].pubkey, x0.0);
                }
            }
//@. at loop:0:end
            proof {
                let b = pool@;
                let k0 = pid_of(x0.0);
                assert(b =~= p0.insert(k0, b[k0]));
                assert(b[k0] == entry_of(x0));
                assert forall|k: PeerId| #[trigger] b.contains_key(k) implies (old(self).pool@.contains_key(k) && b[k] == old(self).pool@[k])
                    || exists|i: int| 0 <= i < n0 + 1 && pid_of((#[trigger] peers@[i]).0) == k by {
                    if k == k0 {
                        assert(pid_of(peers@[n0 as int].0) == k);
                    } else {
                        assert(p0.contains_key(k));
                    }
                }
            }
//@. loop 1
            invariant
                listed(__it1.s@, x0.1.addr_set@),
                __it1.p@ <= __it1.s@.len(),
                peer_id == pid_of(x0.0),
                laid(m0, addr_pid@, __it1.s@, __it1.p@, peer_id),
            decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:after
            proof {
                lemma_laid(m0, addr_pid@, __it1.s@, x0.1.addr_set@, peer_id);
            }
//@end
}

/// Known, and not connected to, nor being connected to, and there is an address to dial.
pub open spec fn idle(a: Inner, k: PeerId) -> bool {
    &&& a.pool@.contains_key(k) && !a.connecting@.contains(k) && !a.connected@.contains(k)
    &&& exists|x: Multiaddr| #[trigger] a.pool@[k].state.addr_set@.contains(x)
    &&& exists|t: int| #[trigger] shown_by_timer(t) && t > a.pool@[k].state.next_retry.ns@
}

pub open spec fn all_idle(a: Inner, v: Seq<&Peer>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> idle(a, (#[trigger] v[i]).id)
}

pub open spec fn packed(v: Seq<(PublicKey, PeerState)>, s: Seq<Peer>, n: nat) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == (s[i].pubkey, s[i].state)
}

pub open spec fn pack(p: Peer) -> (PublicKey, PeerState) {
    (p.pubkey, p.state)
}

pub open spec fn packs(m: Map<PeerId, Peer>, x: (PublicKey, PeerState)) -> bool {
    exists|k: PeerId| #[trigger] m.contains_key(k) && pack(m[k]) == x
}

/// Every peer is in the list once, and nothing else.
pub open spec fn all_packed(m: Map<PeerId, Peer>, v: Seq<(PublicKey, PeerState)>) -> bool {
    &&& v.len() == m.len()
    &&& forall|i: int| 0 <= i < v.len() ==> packs(m, #[trigger] v[i])
    &&& forall|k: PeerId| #[trigger] m.contains_key(k) ==> v.contains(pack(m[k]))
}

pub proof fn lemma_packed(m: Map<PeerId, Peer>, s: Seq<Peer>, v: Seq<(PublicKey, PeerState)>)
    requires
        values_of(m, s),
        s.len() == m.len(),
        packed(v, s, s.len()),
    ensures
        all_packed(m, v),
{
    assert forall|i: int| 0 <= i < v.len() implies packs(m, #[trigger] v[i]) by {
        assert(has_value(m, s[i]));
        let k = choose|k: PeerId| #[trigger] m.contains_key(k) && m[k] == s[i];
        assert(pack(m[k]) == v[i]);
    }
    assert forall|k: PeerId| #[trigger] m.contains_key(k) implies v.contains(pack(m[k])) by {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == m[k];
        assert(v[i] == pack(m[k]));
    }
}

/// What comes out of the file: what is not written there is as in a new state.
pub open spec fn saved(s: PeerState) -> bool {
    s.retry_count == 0 && s.attempt_at == 0 && s.connect_at < far()
}

pub open spec fn entry_of(x: (PublicKey, PeerState)) -> Peer {
    Peer { id: pid_of(x.0), user_addr: user_of(x.0), pubkey: x.0, state: x.1 }
}

/// One entry for each peer, and no address yet of one that is known already.
pub open spec fn loadable(pool: Map<PeerId, Peer>, s: Seq<(PublicKey, PeerState)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> saved((#[trigger] s[i]).1)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> pid_of((#[trigger] s[i]).0) != pid_of((#[trigger] s[j]).0)
    &&& forall|i: int| 0 <= i < s.len() && pool.contains_key(pid_of((#[trigger] s[i]).0))
        ==> pool[pid_of(s[i].0)].state.addr_set@ == Set::<Multiaddr>::empty()
}

/// The first n entries are in the book.
pub open spec fn loading(a: Map<PeerId, Peer>, b: Map<PeerId, Peer>, s: Seq<(PublicKey, PeerState)>, n: nat) -> bool {
    &&& forall|k: PeerId| #[trigger] a.contains_key(k) ==> b.contains_key(k)
    &&& forall|i: int| 0 <= i < n ==> b.contains_key(pid_of((#[trigger] s[i]).0)) && b[pid_of(s[i].0)] == entry_of(s[i])
    &&& forall|k: PeerId| #[trigger] b.contains_key(k) ==> (a.contains_key(k) && b[k] == a[k])
        || exists|i: int| 0 <= i < n && pid_of((#[trigger] s[i]).0) == k
}

pub open spec fn loaded(a: Map<PeerId, Peer>, b: Map<PeerId, Peer>, s: Seq<(PublicKey, PeerState)>) -> bool {
    loading(a, b, s, s.len())
}

pub open spec fn sane_still(pool: Map<PeerId, Peer>) -> bool {
    forall|k: PeerId| #[trigger] pool.contains_key(k) ==> pool[k].id == k && peer_ok(pool[k])
}

/// The first n of s but the one left out.
pub open spec fn picked(s: Seq<PeerId>, n: nat, v: Seq<PeerId>, not: PeerId) -> bool {
    &&& v.no_duplicates()
    &&& forall|x: PeerId| #[trigger] v.contains(x) <==> s.take(n as int).contains(x) && x != not
}

pub proof fn lemma_picked(s: Seq<PeerId>, n: nat, v: Seq<PeerId>, not: PeerId)
    requires
        s.no_duplicates(),
        n < s.len(),
        picked(s, n, v, not),
    ensures
        s[n as int] == not ==> picked(s, (n + 1) as nat, v, not),
        s[n as int] != not ==> picked(s, (n + 1) as nat, v.push(s[n as int]), not),
{
    let w = v.push(s[n as int]);
    lemma_take_set(s, n as int);
    assert forall|x: PeerId| #[trigger] s.take(n as int + 1).contains(x) <==> s.take(n as int).contains(x) || x == s[n as int] by {
        assert(s.take(n as int + 1).to_set().contains(x) == s.take(n as int + 1).contains(x));
        assert(s.take(n as int).to_set().contains(x) == s.take(n as int).contains(x));
    }
    assert(!s.take(n as int).contains(s[n as int])) by {
        if s.take(n as int).contains(s[n as int]) {
            let i = choose|i: int| 0 <= i < n && #[trigger] s.take(n as int)[i] == s[n as int];
            assert(s[i] == s[n as int]);
        }
    }
    assert forall|x: PeerId| #[trigger] w.contains(x) <==> v.contains(x) || x == s[n as int] by {
        if v.contains(x) {
            let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] == x;
            assert(w[i] == x);
        }
        assert(w[v.len() as int] == s[n as int]);
        if w.contains(x) && x != s[n as int] {
            let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == x;
            assert(v[i] == x);
        }
    }
    if s[n as int] != not {
        assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies #[trigger] w[i] != #[trigger] w[j] by {
            if i == v.len() {
                assert(v.contains(v[j]));
            } else if j == v.len() {
                assert(v.contains(v[i]));
            }
        }
    }
}


// ------------------------------------------------------------------ unknown addresses
/// std::sync::atomic::AtomicBool: what it holds is left open
pub struct AtomicBool;

pub struct Ordering;

impl Ordering {
    pub const SeqCst: Ordering = Ordering;
    pub const Relaxed: Ordering = Ordering;
    pub const Acquire: Ordering = Ordering;
    pub const Release: Ordering = Ordering;
    pub const AcqRel: Ordering = Ordering;
}

impl AtomicBool {
    #[verifier::external_body]
    pub fn new(b: bool) -> AtomicBool {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> bool {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn store(&self, b: bool, o: Ordering) {
        unimplemented!()
    }
}

//@item core/network/src/peer_manager/mod.rs struct UnknownAddr

pub open spec fn unknown(a: Multiaddr, n: usize) -> UnknownAddr {
    UnknownAddr { addr: a, connecting: AtomicBool, retry_count: n }
}

pub trait VxTurn<T> {
    spec fn turned(self) -> T;

    fn vx_into(self) -> (r: T)
        ensures
            r == self.turned(),
    ;
}

impl VxTurn<Multiaddr> for UnknownAddr {
    open spec fn turned(self) -> Multiaddr {
        self.addr
    }

//@fn core/network/src/peer_manager/mod.rs UnknownAddr@Into::into as vx_into
//@. nopub
//@end
}

impl VxTurn<UnknownAddr> for Multiaddr {
    open spec fn turned(self) -> UnknownAddr {
        unknown(self, 0)
    }

//@fn core/network/src/peer_manager/mod.rs Multiaddr@Into::into as vx_into
//@. nopub
//@end
}

impl UnknownAddr {
//@fn core/network/src/peer_manager/mod.rs UnknownAddr::new
//@. ensures
        r == unknown(addr, 0),
//@end

//@fn core/network/src/peer_manager/mod.rs UnknownAddr::connecting
//@end

//@fn core/network/src/peer_manager/mod.rs UnknownAddr::set_connecting
//@end

//@fn core/network/src/peer_manager/mod.rs UnknownAddr::increase_retry_count
//@. requires
        old(self).retry_count < MAX_RETRY_COUNT,
//@. ensures
        *final(self) == unknown(old(self).addr, (old(self).retry_count + 1) as usize),
//@end

//@fn core/network/src/peer_manager/mod.rs UnknownAddr::reach_max_retry
//@. ensures
        r == (self.retry_count >= MAX_RETRY_COUNT),
//@end
}

/// PartialEq of UnknownAddr: the addresses are equal. The sets below rest on it.
pub open spec fn same_addr(a: UnknownAddr, b: UnknownAddr) -> bool {
    a.addr == b.addr
}

impl UnknownAddr {
//@fn core/network/src/peer_manager/mod.rs UnknownAddr@PartialEq::eq
//@. ensures
        r == same_addr(*self, *other),
//@end
}

/// HashSet<UnknownAddr>: at most one for each address
pub struct UnknownSet {
    pub m: Ghost<Map<Multiaddr, UnknownAddr>>,
}

impl View for UnknownSet {
    type V = Map<Multiaddr, UnknownAddr>;

    open spec fn view(&self) -> Map<Multiaddr, UnknownAddr> {
        self.m@
    }
}

impl VxEmpty for UnknownSet {
    open spec fn is_emp(self) -> bool {
        self@ == Map::<Multiaddr, UnknownAddr>::empty()
    }

    #[verifier::external_body]
    fn vx_empty() -> UnknownSet {
        unimplemented!()
    }
}

impl UnknownSet {
    /// One that is there stays.
    #[verifier::external_body]
    pub fn insert(&mut self, u: UnknownAddr) -> (r: bool)
        ensures
            r == !old(self)@.contains_key(u.addr),
            final(self)@ == (if old(self)@.contains_key(u.addr) { old(self)@ } else { old(self)@.insert(u.addr, u) }),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, u: &UnknownAddr) -> (r: bool)
        ensures
            r == old(self)@.contains_key(u.addr),
            final(self)@ == old(self)@.remove(u.addr),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn take(&mut self, u: &UnknownAddr) -> (r: Option<UnknownAddr>)
        ensures
            r == (if old(self)@.contains_key(u.addr) { Some(old(self)@[u.addr]) } else { None }),
            final(self)@ == old(self)@.remove(u.addr),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains(&self, u: &UnknownAddr) -> (r: bool)
        ensures
            r == self@.contains_key(u.addr),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VxRefIter<'a, UnknownAddr>)
        ensures
            r.p@ == 0,
            values_of(self@, r.s@),
    {
        unimplemented!()
    }
}

/// Iterator::take
#[verifier::external_body]
pub fn vx_first<T>(all: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures
        r@ == all@.take(if n < all@.len() { n as int } else { all@.len() as int }),
{
    unimplemented!()
}

/// Every address is under itself and has a try left.
pub open spec fn pool_ok(m: Map<Multiaddr, UnknownAddr>) -> bool {
    forall|a: Multiaddr| #[trigger] m.contains_key(a) ==> m[a].addr == a && m[a].retry_count < MAX_RETRY_COUNT
}

// ------------------------------------------------------------------ events
/// protocol::traits::Priority
//@item protocol/src/traits/network.rs enum Priority
//@item core/network/src/event.rs enum ConnectionEvent
//@item core/network/src/event.rs struct MultiUsersMessage
//@item core/network/src/event.rs enum ConnectionType need:PartialEq
//@item core/network/src/event.rs struct Session
//@item core/network/src/event.rs enum PeerManagerEvent

/// What was put into channels by now.
pub struct Out {
    pub missed: Seq<Seq<UserAddress>>,
}

/// futures::channel::oneshot::Sender
pub struct Sender<T> {
    pub t: Ghost<Option<T>>,
}

impl Sender<Vec<UserAddress>> {
    #[verifier::external_body]
    pub fn send(self, t: Vec<UserAddress>, out: &mut Out) -> (r: Result<(), Vec<UserAddress>>)
        ensures
            final(out).missed == old(out).missed.push(t@),
    {
        unimplemented!()
    }
}

/// What is given to the connection service, in order.
pub struct UnboundedSender<T> {
    pub log: Ghost<Seq<T>>,
}

impl<T> UnboundedSender<T> {
    #[verifier::external_body]
    pub fn unbounded_send(&mut self, t: T) -> (r: Result<(), SendError>)
        ensures
            *final(self) == (UnboundedSender { log: Ghost(old(self).log@.push(t)) }),
    {
        unimplemented!()
    }
}

// ------------------------------------------------------------------ storage of the book, heart beat
pub struct Store {
    pub k: Ghost<int>,
}

/// Box::new of what implements Persistence
#[verifier::external_body]
pub fn vx_store<T>(t: T) -> Store {
    unimplemented!()
}

impl Store {
    /// What was saved: one entry for each peer; what is not written is as in a new state.
    #[verifier::external_body]
    pub fn load(&self) -> (r: Result<Vec<(PublicKey, PeerState)>, NetworkError>)
        ensures
            r is Ok ==> forall|i: int| 0 <= i < r->Ok_0@.len() ==> saved((#[trigger] r->Ok_0@[i]).1),
            r is Ok ==> forall|i: int, j: int| 0 <= i < j < r->Ok_0@.len() ==> pid_of((#[trigger] r->Ok_0@[i]).0) != pid_of((#[trigger] r->Ok_0@[j]).0),
    {
        unimplemented!()
    }
}

pub fn vx_share<T>(t: &T) -> (r: T)
    where T: Clone
    ensures
        call_ensures(T::clone, (t,), r),
{
    t.clone()
}

impl Clone for AtomicWaker {
    #[verifier::external_body]
    fn clone(&self) -> AtomicWaker {
        unimplemented!()
    }
}

impl AtomicWaker {
    #[verifier::external_body]
    pub fn new() -> AtomicWaker {
        unimplemented!()
    }
}

impl HeartBeat {
    #[verifier::external_body]
    pub fn new(w: AtomicWaker, d: Duration) -> HeartBeat {
        unimplemented!()
    }
}

/// The ip an address begins with.
pub open spec fn ip_of(a: Multiaddr) -> Option<IpAddr> {
    if a.comps@.len() < 2 {
        None
    } else {
        match a.comps@[0] {
            Protocol::Ip4(ip) => Some(IpAddr::V4(ip)),
            Protocol::Ip6(ip) => Some(IpAddr::V6(ip)),
            _ => None,
        }
    }
}

//@fn core/network/src/common.rs multi_addr_ip
//@. ensures
        r is Ok <==> ip_of(*addr) is Some,
        r is Ok ==> Some(r->Ok_0) == ip_of(*addr),
//@. loop 0
        invariant
            __it0.s@ == addr.comps@,
            __it0.p@ <= __it0.s@.len(),
            __v2@ == __it0.s@.take(__it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:after
            proof {
                assert(__it0.s@.take(__it0.s@.len() as int) =~= __it0.s@);
            }
//@end

// ------------------------------------------------------------------ the peer manager
//@item core/network/src/peer_manager/mod.rs struct PeerManagerConfig
//@item core/network/src/peer_manager/mod.rs struct PeerManager
//@item core/network/src/peer_manager/mod.rs struct PeerManagerHandle

/// Each the other's inverse.
pub open spec fn both_ways(ps: Map<PeerId, SessionId>, sp: Map<SessionId, PeerId>) -> bool {
    &&& forall|p: PeerId| #[trigger] ps.contains_key(p) ==> sp.contains_key(ps[p]) && sp[ps[p]] == p
    &&& forall|s: SessionId| #[trigger] sp.contains_key(s) ==> ps.contains_key(sp[s]) && ps[sp[s]] == s
}

/// The peers that are connected are ourself and those with a session.
pub open spec fn online(c: Set<PeerId>, ps: Map<PeerId, SessionId>, own: PeerId) -> bool {
    &&& !ps.contains_key(own)
    &&& forall|p: PeerId| #[trigger] ps.contains_key(p) ==> c.contains(p)
    &&& forall|p: PeerId| #[trigger] c.contains(p) ==> p == own || ps.contains_key(p)
}

/// Nobody is at the last retry.
pub open spec fn few(pool: Map<PeerId, Peer>) -> bool {
    forall|k: PeerId| #[trigger] pool.contains_key(k) ==> pool[k].state.retry_count < MAX_RETRY_COUNT
}

pub open spec fn others_few(pool: Map<PeerId, Peer>, p: PeerId) -> bool {
    forall|k: PeerId| #[trigger] pool.contains_key(k) && k != p ==> pool[k].state.retry_count < MAX_RETRY_COUNT
}

pub open spec fn boots_ok(s: Seq<Peer>, own: PeerId) -> bool {
    forall|i: int| 0 <= i < s.len() ==> peer_ok(#[trigger] s[i]) && s[i].id != own && s[i].state.retry_count == 0
}

pub open spec fn is_boot(s: Seq<Peer>, p: PeerId) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).id == p
}

impl PeerManager {
    pub open spec fn keeps(self) -> bool {
        &&& self.inner.ok()
        &&& self.inner.peer_id == self.peer_id
        &&& self.config.our_id == self.peer_id
        &&& boots_ok(self.config.bootstraps@, self.peer_id)
        &&& both_ways(self.peer_session@, self.session_peer@)
        &&& online(self.inner.connected@, self.peer_session@, self.peer_id)
        &&& pool_ok(self.unknown_addrs@)
    }

    pub open spec fn ok(self) -> bool {
        self.keeps() && few(self.inner.pool@)
    }
}

/// Something is given to the connection service.
pub open spec fn told(a: UnboundedSender<ConnectionEvent>, e: ConnectionEvent) -> UnboundedSender<ConnectionEvent> {
    UnboundedSender { log: Ghost(a.log@.push(e)) }
}

/// One more thing was given to the connection service.
pub open spec fn told_one(a: UnboundedSender<ConnectionEvent>, b: UnboundedSender<ConnectionEvent>) -> bool {
    b.log@.len() == a.log@.len() + 1 && b.log@.take(a.log@.len() as int) =~= a.log@
}

/// The connection of p has ended, and no other.
pub open spec fn closed(a: PeerManager, b: PeerManager, p: PeerId) -> bool {
    &&& b == (PeerManager { inner: b.inner, peer_session: b.peer_session, session_peer: b.session_peer, ..a })
    &&& set_offline(a.inner, b.inner, p)
    &&& b.peer_session@ =~= a.peer_session@.remove(p)
    &&& b.session_peer@ =~= (if a.peer_session@.contains_key(p) { a.session_peer@.remove(a.peer_session@[p]) } else { a.session_peer@ })
}

/// p is dropped, with everything the book has of it; one to bootstrap from stays, and is not near its last retry.
pub open spec fn cleaned(a: PeerManager, b: PeerManager, p: PeerId) -> bool {
    exists|m: PeerManager| #[trigger] closed(a, m, p) && dropped_from(m, b, p)
}

pub open spec fn dropped_from(m: PeerManager, b: PeerManager, p: PeerId) -> bool {
    &&& b == (PeerManager { inner: b.inner, ..m })
    &&& !is_boot(m.config.bootstraps@, p) ==> removed(m.inner, b.inner, p)
    &&& is_boot(m.config.bootstraps@, p) ==> exists|i: Inner| #[trigger] counted(forgiven(m.inner, p), i, p) && counted(i, b.inner, p)
}

pub open spec fn spent(a: Inner, p: PeerId) -> bool {
    !a.pool@.contains_key(p) || a.pool@[p].state.retry_count >= MAX_RETRY_COUNT
}

/// A failure of p was counted; if there is no retry left, p is dropped.
pub open spec fn failed(a: PeerManager, b: PeerManager, p: PeerId) -> bool {
    exists|i: Inner| #[trigger] counted(a.inner, i, p) && after_count(PeerManager { inner: i, ..a }, b, p)
}

pub open spec fn after_count(m: PeerManager, b: PeerManager, p: PeerId) -> bool {
    if spent(m.inner, p) { cleaned(m, b, p) } else { b == m }
}

/// A peer nothing is known of but its key and perhaps an address.
pub open spec fn newborn(p: Peer, k: PublicKey, x: Option<Multiaddr>) -> bool {
    &&& p.pubkey == k && peer_ok(p) && fresh(p.state)
    &&& p.state.addr_set@ =~= (match x {
        Some(a) => set![a],
        None => Set::<Multiaddr>::empty(),
    })
}

pub open spec fn joined(a: Inner, b: Inner, k: PublicKey, x: Option<Multiaddr>) -> bool {
    exists|p: Peer| #[trigger] added(a, b, p) && newborn(p, k, x)
}

/// The peer with this key is in the book, with this address.
pub open spec fn known(a: Inner, b: Inner, k: PublicKey, x: Option<Multiaddr>) -> bool {
    if !a.pool@.contains_key(pid_of(k)) {
        joined(a, b, k, x)
    } else {
        match x {
            Some(addr) => b == addr_added(a, pid_of(k), addr),
            None => b == a,
        }
    }
}

/// The address the session tells where to reach the peer.
pub open spec fn reach(s: Session) -> Option<Multiaddr> {
    if s.ty is Outbound { Some(s.addr) } else { None }
}

pub open spec fn forgot(m: Map<Multiaddr, UnknownAddr>, x: Option<Multiaddr>) -> Map<Multiaddr, UnknownAddr> {
    match x {
        Some(addr) => m.remove(addr),
        None => m,
    }
}

/// A peer connected: it is in the book, and this is its one session.
pub open spec fn attached(a: PeerManager, b: PeerManager, k: PublicKey, s: Session) -> bool {
    &&& b == (PeerManager { inner: b.inner, peer_session: b.peer_session, session_peer: b.session_peer, unknown_addrs: b.unknown_addrs, ..a })
    &&& exists|i: Inner| #[trigger] known(a.inner, i, k, reach(s)) && set_online(i, b.inner, pid_of(k), ip_of(s.addr))
    &&& b.peer_session@ =~= a.peer_session@.insert(pid_of(k), s.sid)
    &&& b.session_peer@ =~= (if a.peer_session@.contains_key(pid_of(k)) { a.session_peer@.remove(a.peer_session@[pid_of(k)]) } else {
        a.session_peer@
    }).insert(s.sid, pid_of(k))
    &&& b.unknown_addrs@ =~= (if a.inner.pool@.contains_key(pid_of(k)) { a.unknown_addrs@ } else { forgot(a.unknown_addrs@, reach(s)) })
}

pub open spec fn with_unknown(a: PeerManager, m: Map<Multiaddr, UnknownAddr>) -> PeerManager {
    PeerManager { unknown_addrs: UnknownSet { m: Ghost(m) }, ..a }
}

/// An address was heard of.
pub open spec fn heard(a: PeerManager, x: Multiaddr) -> PeerManager {
    match owner(a.inner.addr_pid@, x) {
        Some(p) => PeerManager { inner: if a.inner.connected@.contains(p) { addr_added(a.inner, p, x) } else { a.inner }, ..a },
        None => with_unknown(a, if a.unknown_addrs@.contains_key(x) { a.unknown_addrs@ } else { a.unknown_addrs@.insert(x, unknown(x, 0)) }),
    }
}

pub open spec fn heard_all(a: PeerManager, s: Seq<Multiaddr>) -> PeerManager
    decreases s.len(),
{
    if s.len() == 0 {
        a
    } else {
        heard(heard_all(a, s.drop_last()), s.last())
    }
}

pub open spec fn all_added(a: Inner, p: PeerId, s: Seq<Multiaddr>) -> Inner
    decreases s.len(),
{
    if s.len() == 0 {
        a
    } else {
        addr_added(all_added(a, p, s.drop_last()), p, s.last())
    }
}

impl PeerManager {
//@fn core/network/src/peer_manager/mod.rs PeerManager::new
//@. mutlet inner
//@. requires
        boots_ok(config.bootstraps@, config.our_id),
        pid_of(config.pubkey) == config.our_id,
//@. ensures
        r.ok(),
        r.config == config,
        r.conn_tx == conn_tx,
        r.event_rx == event_rx,
        forall|k: PeerId| #[trigger] r.inner.pool@.contains_key(k) ==> k == config.our_id && r.inner.pool@[k].state.addr_set@ == Set::<Multiaddr>::empty(),
        r.unknown_addrs@ == Map::<Multiaddr, UnknownAddr>::empty(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::load_peers
//@. self mut
//@. requires
        old(self).ok(),
        forall|k: PeerId| #[trigger] old(self).inner.pool@.contains_key(k) ==> old(self).inner.pool@[k].state.addr_set@ == Set::<Multiaddr>::empty(),
//@. ensures
        final(self).ok(),
        *final(self) == (PeerManager { inner: final(self).inner, ..*old(self) }),
        r is Err ==> *final(self) == *old(self),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::set_listen
//@. self mut
//@. ensures
        *final(self) == (PeerManager { inner: Inner { listen: Some(addr), ..old(self).inner }, ..*old(self) }),
        old(self).ok() ==> final(self).ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::listen
//@. ensures
        r == self.inner.listen,
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::connect_peers
//@. ensures
        *final(self) == (PeerManager { conn_tx: told(old(self).conn_tx, ConnectionEvent::Connect { addrs, proto: DialProtocol::All }), ..*old(self) }),
        old(self).ok() ==> final(self).ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::add_session_addr
//@. requires
        old(self).ok(),
//@. ensures
        final(self).ok(),
        *final(self) == (PeerManager { inner: final(self).inner, unknown_addrs: final(self).unknown_addrs, ..*old(self) }),
        final(self).unknown_addrs@ == old(self).unknown_addrs@.remove(addr),
        final(self).inner == (if old(self).session_peer@.contains_key(sid) {
            addr_added(old(self).inner, old(self).session_peer@[sid], addr)
        } else {
            old(self).inner
        }),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::add_peer
//@. requires
        old(self).inner.book_ok(),
//@. ensures
        *final(self) == (PeerManager { inner: final(self).inner, unknown_addrs: final(self).unknown_addrs, ..*old(self) }),
        final(self).unknown_addrs@ == forgot(old(self).unknown_addrs@, addr),
        joined(old(self).inner, final(self).inner, pubkey, addr),
        final(self).inner.book_ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::attach_peer_session
//@. requires
        old(self).ok(),
        pid_of(pubkey) != old(self).peer_id,
        !old(self).session_peer@.contains_key(session.sid),
//@. ensures
        final(self).ok(),
        attached(*old(self), *final(self), pubkey, session),
//@. at before:set_connected:0
        proof {
            assert(known(old(self).inner, self.inner, pubkey, reach(session)));
        }
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::close_peer_session
//@. requires
        old(self).keeps(),
        *pid != old(self).peer_id,
//@. ensures
        closed(*old(self), *final(self), *pid),
        final(self).keeps(),
        old(self).ok() ==> final(self).ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::detach_session_id
//@. requires
        old(self).ok(),
//@. ensures
        final(self).ok(),
        old(self).session_peer@.contains_key(sid) ==> closed(*old(self), *final(self), old(self).session_peer@[sid]),
        !old(self).session_peer@.contains_key(sid) ==> *final(self) == *old(self),
//@. at end
        proof {
            assert(!old(self).session_peer@.contains_key(sid) ==> old(self).session_peer@.remove(sid) =~= old(self).session_peer@);
        }
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::is_bootstrap_peer
//@. ensures
        r == is_boot(self.config.bootstraps@, *pid),
//@. loop 0
        invariant
            __it0.s@ == self.config.bootstraps@,
            __it0.p@ <= __it0.s@.len(),
            forall|i: int| 0 <= i < __it0.p@ ==> (#[trigger] __it0.s@[i]).id != *pid,
        decreases __it0.s@.len() - __it0.p@,
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::cleanly_remove_peer
//@. requires
        old(self).keeps(),
        *pid != old(self).peer_id,
        others_few(old(self).inner.pool@, *pid),
//@. ensures
        cleaned(*old(self), *final(self), *pid),
        final(self).ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::increase_peer_retry
//@. requires
        old(self).ok(),
        *pid != old(self).peer_id,
//@. ensures
        failed(*old(self), *final(self), *pid),
        final(self).ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::detach_peer_session
//@. requires
        old(self).ok(),
        pid != old(self).peer_id,
//@. ensures
        exists|m: PeerManager| #[trigger] closed(*old(self), m, pid)
            && (if m.inner.pool@.contains_key(pid) && m.inner.pool@[pid].state.alive < 3 { failed(m, *final(self), pid) } else { *final(self) == m }),
        final(self).ok(),
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::identify_addr
//@. requires
        old(self).ok(),
//@. ensures
        *final(self) == heard(*old(self), addr),
        final(self).ok(),
//@end
}


// ------------------------------------------------------------------ dialing
/// The peers of s are dialed, and no others are that were not.
pub open spec fn dials(a: Inner, b: Inner, s: Seq<PeerId>) -> bool {
    &&& b == (Inner { connecting: b.connecting, ..a })
    &&& b.connecting@ =~= a.connecting@.union(s.to_set())
}

/// Peers to dial: at most n, each idle, none twice.
pub open spec fn choice(a: Inner, s: Seq<PeerId>, n: usize) -> bool {
    s.len() <= n && forall|i: int| 0 <= i < s.len() ==> idle(a, #[trigger] s[i])
}

pub open spec fn has_addr(a: Inner, s: Seq<PeerId>, x: Multiaddr) -> bool {
    exists|i: int| 0 <= i < s.len() && a.pool@.contains_key(#[trigger] s[i]) && a.pool@[s[i]].state.addr_set@.contains(x)
}

/// The addresses of the peers of s.
pub open spec fn addrs_all(a: Inner, s: Seq<PeerId>, v: Seq<Multiaddr>) -> bool {
    forall|x: Multiaddr| #[trigger] v.contains(x) <==> has_addr(a, s, x)
}

/// What to dial: every address of the peers chosen, then unknown addresses, as many as are left to choose.
pub open spec fn offered(a: PeerManager, s: Seq<PeerId>, max: usize, v: Seq<Multiaddr>) -> bool {
    exists|k: int| 0 <= k <= v.len() && addrs_all(a.inner, s, #[trigger] v.take(k)) && v.len() - k <= max - s.len()
        && forall|i: int| k <= i < v.len() ==> a.unknown_addrs@.contains_key(#[trigger] v[i])
}

pub open spec fn ips(a: Inner, s: Seq<PeerId>, n: nat, v: Seq<(PeerId, Option<IpAddr>)>) -> bool {
    v.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == (s[i], if a.pool@.contains_key(s[i]) { a.pool@[s[i]].state.connection_ip } else { None })
}

/// v0 and the first n of s
pub open spec fn plus(v0: Seq<Multiaddr>, s: Seq<Multiaddr>, n: nat, v: Seq<Multiaddr>) -> bool {
    v =~= v0 + s.take(n as int)
}

pub proof fn lemma_addr_step(a: Inner, s: Seq<PeerId>, n: int, v0: Seq<Multiaddr>, t: Seq<Multiaddr>, v: Seq<Multiaddr>)
    requires
        0 <= n < s.len(),
        a.pool@.contains_key(s[n]),
        t.to_set() =~= a.pool@[s[n]].state.addr_set@,
        addrs_all(a, s.take(n), v0),
        plus(v0, t, t.len(), v),
    ensures
        addrs_all(a, s.take(n + 1), v),
{
    assert(t.take(t.len() as int) =~= t);
    assert forall|x: Multiaddr| #[trigger] v.contains(x) <==> has_addr(a, s.take(n + 1), x) by {
        assert(v.contains(x) <==> v0.contains(x) || t.contains(x)) by {
            if v0.contains(x) {
                let i = choose|i: int| 0 <= i < v0.len() && v0[i] == x;
                assert(v[i] == x);
            }
            if t.contains(x) {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
                assert(v[v0.len() + i] == x);
            }
        }
        assert(t.contains(x) <==> t.to_set().contains(x));
        if has_addr(a, s.take(n), x) {
            let i = choose|i: int| 0 <= i < n && a.pool@.contains_key(#[trigger] s.take(n)[i]) && a.pool@[s.take(n)[i]].state.addr_set@.contains(x);
            assert(s.take(n + 1)[i] == s.take(n)[i]);
        }
        if has_addr(a, s.take(n + 1), x) {
            let i = choose|i: int| 0 <= i < n + 1 && a.pool@.contains_key(#[trigger] s.take(n + 1)[i]) && a.pool@[s.take(n + 1)[i]].state.addr_set@.contains(x);
            if i < n {
                assert(s.take(n)[i] == s.take(n + 1)[i]);
            }
        }
        if t.contains(x) {
            assert(s.take(n + 1)[n] == s[n]);
        }
    }
}

pub open spec fn all_known(m: Map<Multiaddr, UnknownAddr>, v: Seq<&UnknownAddr>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).addr)
}

impl PeerManager {
//@fn core/network/src/peer_manager/mod.rs PeerManager::connected_peers_ip
//@. requires
        self.ok(),
//@. ensures
        exists|s: Seq<PeerId>| #[trigger] ips(self.inner, s, s.len(), r@) && s.no_duplicates()
            && forall|p: PeerId| #[trigger] s.contains(p) <==> self.peer_session@.contains_key(p),
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            ips(self.inner, __it0.s@, __it0.p@, __v2@),
            __it0.s@.no_duplicates(),
            forall|p: PeerId| #[trigger] __it0.s@.contains(p) <==> self.peer_session@.contains_key(p),
        decreases __it0.s@.len() - __it0.p@,
//@. at start
        proof {
            assert(self.inner.peer_id == self.peer_id);
        }
//@. at loop:0:after
            proof {
                assert(ips(self.inner, __it0.s@, __it0.s@.len(), __v2@));
            }
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::unconnected_unknowns
//@. requires
        pool_ok(self.unknown_addrs@),
//@. ensures
        r@.len() <= max,
        all_known(self.unknown_addrs@, r@),
//@. loop 0
        invariant
            __it0.s@.len() <= max,
            all_known(self.unknown_addrs@, __it0.s@),
            __it0.p@ <= __it0.s@.len(),
            __v2@.len() == __it0.p@,
            all_known(self.unknown_addrs@, __v2@),
        decreases __it0.s@.len() - __it0.p@,
//@. loop 1
                        invariant
                            pool_ok(self.unknown_addrs@),
                            values_of(self.unknown_addrs@, __it1.s@),
                            __it1.p@ <= __it1.s@.len(),
                            all_known(self.unknown_addrs@, __v4@),
                        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
                        proof {
                            assert(has_value(self.unknown_addrs@, __it1.s@[__it1.p@ as int]));
                        }
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManager::unconnected_addrs
//@. self mut
//@. requires
        old(self).ok(),
//@. ensures
        final(self).ok(),
        *final(self) == (PeerManager { inner: final(self).inner, ..*old(self) }),
        exists|s: Seq<PeerId>| #[trigger] dials(old(self).inner, final(self).inner, s) && choice(old(self).inner, s, max) && offered(*old(self), s, max, r@),
//@. at before:unconnected_unknowns:0
        let ghost base = condidates@;
        let ghost ps = condidate_pids@;
        proof {
            assert(ps.take(ps.len() as int) =~= ps);
            assert(dials(old(self).inner, self.inner, ps));
            if ps.len() == 0 {
                assert(addrs_all(old(self).inner, ps, base));
            }
        }
//@. loop 0
                invariant
                    __it0.p@ <= __it0.s@.len(),
                    __it0.s@ == condidate_pids@,
                    old(self).ok(),
                    self.ok(),
                    choice(old(self).inner, condidate_pids@, max),
                    *self == (PeerManager { inner: self.inner, ..*old(self) }),
                    dials(old(self).inner, self.inner, __it0.s@.take(__it0.p@ as int)),
                    addrs_all(old(self).inner, __it0.s@.take(__it0.p@ as int), __v2@),
                decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
                    let ghost n = __it0.p@ as int;
                    let ghost v0 = __v2@;
                    proof {
                        assert(idle(old(self).inner, condidate_pids@[n]));
                        lemma_take_set(__it0.s@, n);
                    }
//@. loop 1
                        invariant
                            __it1.p@ <= __it1.s@.len(),
                            plus(v0, __it1.s@, __it1.p@, __v2@),
                            __it1.s@.to_set() =~= old(self).inner.pool@[condidate_pids@[n]].state.addr_set@,
                        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:after
                        proof {
                            lemma_addr_step(old(self).inner, condidate_pids@, n, v0, __it1.s@, __v2@);
                        }
//@. loop 2
                invariant
                    __it2.p@ <= __it2.s@.len(),
                    all_known(old(self).unknown_addrs@, __it2.s@),
                    __it2.s@.len() <= remain,
                    condidates@.len() == base.len() + __it2.p@,
                    condidates@.take(base.len() as int) =~= base,
                    forall|i: int| base.len() <= i < condidates@.len() ==> old(self).unknown_addrs@.contains_key(#[trigger] condidates@[i]),
                decreases __it2.s@.len() - __it2.p@,
//@. at end
        proof {
            assert(condidates@.take(base.len() as int) =~= base);
            assert(remain == max - ps.len());
            assert(addrs_all(old(self).inner, ps, base));
            assert(offered(*old(self), ps, max, condidates@));
        }
//@end
}

pub open spec fn all_listed(m: Map<PeerId, Peer>, v: Seq<&Peer>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> has_value(m, *#[trigger] v[i])
}

pub open spec fn someone_has(m: Map<PeerId, Peer>, x: Multiaddr) -> bool {
    exists|k: PeerId| #[trigger] m.contains_key(k) && m[k].state.addr_set@.contains(x)
}

/// Every address in the list is one some peer has.
pub open spec fn all_from(m: Map<PeerId, Peer>, v: Seq<Multiaddr>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> someone_has(m, #[trigger] v[i])
}

impl PeerManagerHandle {
//@fn core/network/src/peer_manager/mod.rs PeerManagerHandle::random_addrs
//@. ensures
        all_from(self.inner.pool@, r@),
//@. loop 0
                    invariant
                        *pool == self.inner.pool,
                        __it0.p@ <= __it0.s@.len(),
                        values_of(self.inner.pool@, __it0.s@),
                        all_listed(self.inner.pool@, __v2@),
                    decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
                        proof {
                            assert(has_value(self.inner.pool@, __it0.s@[__it0.p@ as int]));
                        }
//@. loop 1
                invariant
                    __it1.p@ <= __it1.s@.len(),
                    all_listed(self.inner.pool@, __it1.s@),
                    all_from(self.inner.pool@, __v4@),
                decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
                    let ghost n = __it1.p@ as int;
//@. loop 2
                        invariant
                            __it2.p@ <= __it2.s@.len(),
                            0 <= n < __it1.s@.len(),
                            all_listed(self.inner.pool@, __it1.s@),
                            __it2.s@.to_set() =~= __it1.s@[n].state.addr_set@,
                            all_from(self.inner.pool@, __v4@),
                        decreases __it2.s@.len() - __it2.p@,
//@. at loop:2:start
                            proof {
                                let x = __it2.s@[__it2.p@ as int];
                                assert(__it2.s@.to_set().contains(x));
                                assert(has_value(self.inner.pool@, *__it1.s@[n]));
                                assert(someone_has(self.inner.pool@, x));
                            }
//@end

//@fn core/network/src/peer_manager/mod.rs PeerManagerHandle::listen_addrs
//@. ensures
        self.inner.listen is None ==> r@.len() == 0,
        self.inner.listen is Some ==> r@ =~= seq![self.inner.listen->0],
//@end
}


// ------------------------------------------------------------------ the peers to start from
/// One of these peers has the address.
pub open spec fn peers_have(s: Seq<Peer>, x: Multiaddr) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).state.addr_set@.contains(x)
}

/// The addresses of these peers.
pub open spec fn addrs_of(s: Seq<Peer>, v: Seq<Multiaddr>) -> bool {
    forall|x: Multiaddr| #[trigger] v.contains(x) <==> peers_have(s, x)
}

pub proof fn lemma_flat_step(s: Seq<Peer>, n: int, v0: Seq<Multiaddr>, t: Seq<Multiaddr>, v: Seq<Multiaddr>)
    requires
        0 <= n < s.len(),
        t.to_set() =~= s[n].state.addr_set@,
        addrs_of(s.take(n), v0),
        plus(v0, t, t.len(), v),
    ensures
        addrs_of(s.take(n + 1), v),
{
    assert(t.take(t.len() as int) =~= t);
    assert forall|x: Multiaddr| #[trigger] v.contains(x) <==> peers_have(s.take(n + 1), x) by {
        assert(v.contains(x) <==> v0.contains(x) || t.contains(x)) by {
            if v0.contains(x) {
                let i = choose|i: int| 0 <= i < v0.len() && v0[i] == x;
                assert(v[i] == x);
            }
            if t.contains(x) {
                let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
                assert(v[v0.len() + i] == x);
            }
        }
        assert(t.contains(x) <==> t.to_set().contains(x));
        if peers_have(s.take(n), x) {
            let i = choose|i: int| 0 <= i < n && (#[trigger] s.take(n)[i]).state.addr_set@.contains(x);
            assert(s.take(n + 1)[i] == s.take(n)[i]);
        }
        if peers_have(s.take(n + 1), x) {
            let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s.take(n + 1)[i]).state.addr_set@.contains(x);
            if i < n {
                assert(s.take(n)[i] == s.take(n + 1)[i]);
            }
        }
        if t.contains(x) {
            assert(s.take(n + 1)[n] == s[n]);
        }
    }
}

/// The first n of s are in the book with their addresses, and dialed; what was in the book is still there.
pub open spec fn booted(a: Inner, b: Inner, s: Seq<Peer>, n: nat) -> bool {
    &&& b == (Inner { pool: b.pool, addr_pid: b.addr_pid, user_pid: b.user_pid, connecting: b.connecting, ..a })
    &&& forall|i: int| 0 <= i < n ==> {
        &&& b.pool@.contains_key((#[trigger] s[i]).id)
        &&& s[i].state.addr_set@.subset_of(b.pool@[s[i].id].state.addr_set@)
        &&& b.connecting@.contains(s[i].id) || b.connected@.contains(s[i].id)
    }
    &&& forall|k: PeerId| #[trigger] a.pool@.contains_key(k) ==> {
        &&& b.pool@.contains_key(k)
        &&& a.pool@[k].state.addr_set@.subset_of(b.pool@[k].state.addr_set@)
        &&& b.pool@[k].state.retry_count == a.pool@[k].state.retry_count
    }
    &&& forall|k: PeerId| #[trigger] b.pool@.contains_key(k) ==> a.pool@.contains_key(k) || exists|i: int| 0 <= i < n && (#[trigger] s[i]).id == k
    &&& a.connecting@.subset_of(b.connecting@)
}

impl PeerManager {
//@fn core/network/src/peer_manager/mod.rs PeerManager::bootstrap
//@. requires
        old(self).ok(),
//@. ensures
        final(self).ok(),
        *final(self) == (PeerManager { inner: final(self).inner, bootstraps: final(self).bootstraps, conn_tx: final(self).conn_tx, ..*old(self) }),
        booted(old(self).inner, final(self).inner, old(self).config.bootstraps@, old(self).config.bootstraps@.len()),
        exists|addrs: Vec<Multiaddr>| final(self).conn_tx == told(old(self).conn_tx, ConnectionEvent::Connect { addrs, proto: DialProtocol::All })
            && #[trigger] addrs_of(old(self).config.bootstraps@, addrs@)
            && final(self).bootstraps@ =~= old(self).bootstraps@.union(addrs@.to_set()),
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == old(self).config.bootstraps@,
            old(self).ok(),
            self.ok(),
            *self == (PeerManager { inner: self.inner, ..*old(self) }),
            booted(old(self).inner, self.inner, __it0.s@, __it0.p@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            let ghost i0 = self.inner;
            let ghost n = __it0.p@ as int;
//@. at loop:0:end
            proof {
                let own = old(self).peer_id;
                let q = __it0.s@[n];
                assert(q.id != own);
                assert forall|k: PeerId| #[trigger] self.inner.pool@.contains_key(k) implies
                    old(self).inner.pool@.contains_key(k) || exists|i: int| 0 <= i < n + 1 && (#[trigger] __it0.s@[i]).id == k by {
                    if k == q.id {
                        assert(__it0.s@[n].id == k);
                    } else {
                        assert(i0.pool@.contains_key(k));
                    }
                }
                assert forall|i: int| 0 <= i < n + 1 implies {
                    &&& self.inner.pool@.contains_key((#[trigger] __it0.s@[i]).id)
                    &&& __it0.s@[i].state.addr_set@.subset_of(self.inner.pool@[__it0.s@[i].id].state.addr_set@)
                    &&& self.inner.connecting@.contains(__it0.s@[i].id) || self.inner.connected@.contains(__it0.s@[i].id)
                } by {
                    if i < n {
                        assert(i0.pool@.contains_key(__it0.s@[i].id));
                    }
                }
                assert forall|k: PeerId| #[trigger] old(self).inner.pool@.contains_key(k) implies {
                    &&& self.inner.pool@.contains_key(k)
                    &&& old(self).inner.pool@[k].state.addr_set@.subset_of(self.inner.pool@[k].state.addr_set@)
                    &&& self.inner.pool@[k].state.retry_count == old(self).inner.pool@[k].state.retry_count
                } by {
                    assert(i0.pool@.contains_key(k));
                }
            }
//@. loop 1
            invariant
                __it1.p@ <= __it1.s@.len(),
                __it1.s@ == peers@,
                addrs_of(peers@.take(__it1.p@ as int), __v2@),
            decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
                let ghost n = __it1.p@ as int;
                let ghost v0 = __v2@;
//@. loop 2
                    invariant
                        __it2.p@ <= __it2.s@.len(),
                        plus(v0, __it2.s@, __it2.p@, __v2@),
                        __it2.s@.to_set() =~= peers@[n].state.addr_set@,
                    decreases __it2.s@.len() - __it2.p@,
//@. at loop:2:after
                proof {
                    lemma_flat_step(peers@, n, v0, __it2.s@, __v2@);
                }
//@. at loop:1:after
                proof {
                    assert(peers@.take(peers@.len() as int) =~= peers@);
                }
//@. loop 3
        invariant
            __it3.p@ <= __it3.s@.len(),
            __it3.s@ == addrs@,
            old(self).ok(),
            self.ok(),
            *self == (PeerManager { inner: self.inner, bootstraps: self.bootstraps, ..*old(self) }),
            booted(old(self).inner, self.inner, old(self).config.bootstraps@, old(self).config.bootstraps@.len()),
            self.bootstraps@ =~= old(self).bootstraps@.union(addrs@.take(__it3.p@ as int).to_set()),
        decreases __it3.s@.len() - __it3.p@,
//@. at loop:3:start
            proof {
                lemma_take_set(addrs@, __it3.p@ as int);
            }
//@. at loop:3:after
        proof {
            assert(addrs@.take(addrs@.len() as int) =~= addrs@);
        }
//@end
}

// ------------------------------------------------------------------ messages to users
/// The peer a user is.
pub open spec fn who(a: PeerManager, u: UserAddress) -> Option<Peer> {
    if a.inner.user_pid@.contains_key(u) {
        Some(a.inner.pool@[a.inner.user_pid@[u]])
    } else {
        None
    }
}

/// The sessions of the users that have one, in order.
pub open spec fn sids(a: PeerManager, s: Seq<UserAddress>) -> Seq<SessionId>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        let r = sids(a, s.drop_last());
        match who(a, s.last()) {
            Some(p) => if a.peer_session@.contains_key(p.id) { r.push(a.peer_session@[p.id]) } else { r },
            None => r,
        }
    }
}

/// The peers known for a user that have no session.
pub open spec fn away(a: PeerManager, s: Seq<UserAddress>) -> Seq<Peer>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        let r = away(a, s.drop_last());
        match who(a, s.last()) {
            Some(p) => if a.peer_session@.contains_key(p.id) { r } else { r.push(p) },
            None => r,
        }
    }
}

/// The users no peer is known for.
pub open spec fn strangers(a: PeerManager, s: Seq<UserAddress>) -> Seq<UserAddress>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        let r = strangers(a, s.drop_last());
        if who(a, s.last()) is None { r.push(s.last()) } else { r }
    }
}

pub open spec fn users(s: Seq<Peer>) -> Seq<UserAddress> {
    Seq::new(s.len(), |i: int| s[i].user_addr)
}

/// The message goes to the users with a session, the others are dialed and reported as missed.
pub open spec fn routed(a: PeerManager, b: PeerManager, m: MultiUsersMessage) -> bool {
    exists|tar: Vec<SessionId>, addrs: Vec<Multiaddr>|
        #[trigger] two_told(a, b, m, tar, addrs) && tar@ == sids(a, m.user_addrs@) && addrs_of(away(a, m.user_addrs@), addrs@)
}

pub open spec fn two_told(a: PeerManager, b: PeerManager, m: MultiUsersMessage, tar: Vec<SessionId>, addrs: Vec<Multiaddr>) -> bool {
    b == (PeerManager {
        conn_tx: told(
            told(a.conn_tx, ConnectionEvent::SendMsg { tar: TargetSession::Multi(tar), msg: m.msg, pri: m.pri }),
            ConnectionEvent::Connect { addrs, proto: DialProtocol::All },
        ),
        ..a
    })
}

impl PeerManager {
//@fn core/network/src/peer_manager/mod.rs PeerManager::route_multi_users_message
//@. params out: &mut Out
//@. requires
        old(self).ok(),
//@. ensures
        final(self).ok(),
        routed(*old(self), *final(self), users_msg),
        final(out).missed == old(out).missed.push(users(away(*old(self), users_msg.user_addrs@)) + strangers(*old(self), users_msg.user_addrs@)),
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == users_msg.user_addrs@,
            old(self).ok(),
            *self == *old(self),
            connected@ == sids(*self, __it0.s@.take(__it0.p@ as int)),
            unconnected_peers@ == away(*self, __it0.s@.take(__it0.p@ as int)),
            no_peers@ == strangers(*self, __it0.s@.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                let n = __it0.p@ as int;
                assert(__it0.s@.take(n + 1).drop_last() =~= __it0.s@.take(n));
                assert(__it0.s@.take(n + 1).last() == __it0.s@[n]);
            }
//@. at loop:0:after
        proof {
            assert(users_msg.user_addrs@.take(users_msg.user_addrs@.len() as int) =~= users_msg.user_addrs@);
        }
//@. loop 1
            invariant
                __it1.p@ <= __it1.s@.len(),
                __it1.s@ == unconnected_peers@,
                addrs_of(unconnected_peers@.take(__it1.p@ as int), __v3@),
            decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
                let ghost n = __it1.p@ as int;
                let ghost v0 = __v3@;
//@. loop 2
                    invariant
                        __it2.p@ <= __it2.s@.len(),
                        plus(v0, __it2.s@, __it2.p@, __v3@),
                        __it2.s@.to_set() =~= unconnected_peers@[n].state.addr_set@,
                    decreases __it2.s@.len() - __it2.p@,
//@. at loop:2:after
                proof {
                    lemma_flat_step(unconnected_peers@, n, v0, __it2.s@, __v3@);
                }
//@. at loop:1:after
                proof {
                    assert(unconnected_peers@.take(unconnected_peers@.len() as int) =~= unconnected_peers@);
                }
//@. at before:connect_peers:0
        let ghost adr = unconnected_addrs;
        let ghost us = users_msg.user_addrs@;
        let ghost tars = connected;
//@. loop 3
            invariant
                __it3.p@ <= __it3.s@.len(),
                __it3.s@ == unconnected_peers@,
                __v7@ =~= users(__it3.s@.take(__it3.p@ as int)),
            decreases __it3.s@.len() - __it3.p@,
//@. at loop:3:after
            proof {
                assert(__it3.s@.take(__it3.s@.len() as int) =~= __it3.s@);
            }
//@. loop 4
        invariant
            __it4.p@ <= __it4.s@.len(),
            __it4.s@ == strangers(*old(self), us),
            missed_accounts@ =~= users(unconnected_peers@) + __it4.s@.take(__it4.p@ as int),
        decreases __it4.s@.len() - __it4.p@,
//@. at loop:4:after
        proof {
            assert(__it4.s@.take(__it4.s@.len() as int) =~= __it4.s@);
            assert(two_told(*old(self), *self, users_msg, tars, adr));
        }
//@end
}


// ------------------------------------------------------------------ events
/// No event names ourself; a session that is attached is a new one.
pub open spec fn event_ok(a: PeerManager, e: PeerManagerEvent) -> bool {
    match e {
        PeerManagerEvent::AttachPeerSession { pubkey, session } => pid_of(pubkey) != a.peer_id && !a.session_peer@.contains_key(session.sid),
        PeerManagerEvent::DetachPeerSession { pid, .. } => pid != a.peer_id,
        PeerManagerEvent::RemovePeer { pid, .. } => pid != a.peer_id,
        PeerManagerEvent::RetryPeerLater { pid, .. } => pid != a.peer_id,
        _ => true,
    }
}

pub open spec fn unlisted(a: Inner, x: Multiaddr) -> Inner {
    if a.addr_pid@.contains_key(x) { addr_removed(a, a.addr_pid@[x], x) } else { a }
}

/// The peer an address belongs to is not being dialed any more.
pub open spec fn dial_over(a: Inner, x: Multiaddr) -> Inner {
    match owner(a.addr_pid@, x) {
        Some(p) => not_dialed(a, p),
        None => a,
    }
}

/// An unknown address has one try less; after the last it is dropped.
pub open spec fn tried(m: Map<Multiaddr, UnknownAddr>, x: Multiaddr) -> Map<Multiaddr, UnknownAddr> {
    if !m.contains_key(x) {
        m
    } else if m[x].retry_count + 1 >= MAX_RETRY_COUNT {
        m.remove(x)
    } else {
        m.insert(x, unknown(x, (m[x].retry_count + 1) as usize))
    }
}

/// The session of p ended; if it was short, that counts as a failure.
pub open spec fn detached(a: PeerManager, b: PeerManager, p: PeerId) -> bool {
    exists|m: PeerManager| #[trigger] closed(a, m, p)
        && (if m.inner.pool@.contains_key(p) && m.inner.pool@[p].state.alive < 3 { failed(m, b, p) } else { b == m })
}

/// A failure of p was counted and its session, if it had one, is to be ended.
pub open spec fn put_off(a: PeerManager, b: PeerManager, p: PeerId) -> bool {
    exists|m: PeerManager| #[trigger] failed(a, m, p)
        && b == (if a.peer_session@.contains_key(p) {
            PeerManager { conn_tx: told(m.conn_tx, ConnectionEvent::Disconnect(a.peer_session@[p])), ..m }
        } else {
            m
        })
}

pub open spec fn unreachable_addr(a: PeerManager, b: PeerManager, x: Multiaddr) -> bool {
    let i = dial_over(a.inner, x);
    &&& b == (PeerManager { inner: b.inner, unknown_addrs: b.unknown_addrs, ..a })
    &&& b.unknown_addrs@ =~= a.unknown_addrs@.remove(x)
    &&& b.inner == (if a.bootstraps@.contains(x) { i } else { unlisted(i, x) })
}

/// Dialing x failed for now: the unknown address has one try less, the peer it belongs to, if it is not
/// connected, is not being dialed any more and one failure of it is counted.
pub open spec fn later(a: PeerManager, b: PeerManager, x: Multiaddr) -> bool {
    let m = with_unknown(a, tried(a.unknown_addrs@, x));
    match owner(a.inner.addr_pid@, x) {
        Some(p) => if a.inner.connected@.contains(p) { b == m } else { failed(PeerManager { inner: not_dialed(a.inner, p), ..m }, b, p) },
        None => b == m,
    }
}

pub proof fn lemma_replaced<K, V>(m: Map<K, V>)
    ensures
        forall|x: K, v: V| #[trigger] m.remove(x).insert(x, v) == m.insert(x, v),
        forall|x: K| !m.contains_key(x) ==> #[trigger] m.remove(x) == m,
{
    assert forall|x: K, v: V| #[trigger] m.remove(x).insert(x, v) == m.insert(x, v) by {
        assert(m.remove(x).insert(x, v) =~= m.insert(x, v));
    }
    assert forall|x: K| !m.contains_key(x) implies #[trigger] m.remove(x) == m by {
        assert(m.remove(x) =~= m);
    }
}

pub open spec fn stepped(a: PeerManager, b: PeerManager, e: PeerManagerEvent) -> bool {
    match e {
        PeerManagerEvent::AttachPeerSession { pubkey, session } => attached(a, b, pubkey, session),
        PeerManagerEvent::DetachPeerSession { pid, .. } => detached(a, b, pid),
        PeerManagerEvent::PeerAlive { pid } => b == (PeerManager { inner: forgiven(a.inner, pid), ..a }),
        PeerManagerEvent::RemovePeer { pid, .. } => cleaned(a, b, pid),
        PeerManagerEvent::RemovePeerBySession { sid, .. } => if a.session_peer@.contains_key(sid) { cleaned(a, b, a.session_peer@[sid]) } else { b == a },
        PeerManagerEvent::RetryPeerLater { pid, .. } => put_off(a, b, pid),
        PeerManagerEvent::DiscoverAddr { addr } => b == heard(a, addr),
        PeerManagerEvent::DiscoverMultiAddrs { addrs } => b == heard_all(a, addrs@),
        PeerManagerEvent::IdentifiedAddrs { pid, addrs } => b == (PeerManager { inner: all_added(a.inner, pid, addrs@), ..a }),
        PeerManagerEvent::RepeatedConnection { ty, sid, addr } => if ty is Dialer {
            &&& b == (PeerManager { inner: b.inner, unknown_addrs: b.unknown_addrs, ..a })
            &&& b.unknown_addrs@ =~= a.unknown_addrs@.remove(addr)
            &&& b.inner == (if a.session_peer@.contains_key(sid) { addr_added(a.inner, a.session_peer@[sid], addr) } else { a.inner })
        } else {
            b == a
        },
        PeerManagerEvent::UnconnectableAddress { addr, .. } => unreachable_addr(a, b, addr),
        PeerManagerEvent::ReconnectLater { addr, .. } => later(a, b, addr),
        PeerManagerEvent::AddListenAddr { addr } => b == (PeerManager { inner: addr_added(a.inner, a.peer_id, addr), ..a }),
        PeerManagerEvent::RemoveListenAddr { addr } => b == (PeerManager { inner: addr_removed(a.inner, a.peer_id, addr), ..a }),
        PeerManagerEvent::RouteMultiUsersMessage { users_msg, .. } => routed(a, b, users_msg),
    }
}

impl PeerManager {
//@fn core/network/src/peer_manager/mod.rs PeerManager::process_event
//@. params out: &mut Out
//@. requires
        old(self).ok(),
        event_ok(*old(self), event),
//@. ensures
        final(self).ok(),
        stepped(*old(self), *final(self), event),
        event is RouteMultiUsersMessage ==> final(out).missed == old(out).missed.push(
            users(away(*old(self), event->users_msg.user_addrs@)) + strangers(*old(self), event->users_msg.user_addrs@)),
        !(event is RouteMultiUsersMessage) ==> *final(out) == *old(out),
//@. at start
        proof {
            lemma_replaced(self.unknown_addrs@);
            assert(forall|q: PeerManager| #[trigger] heard_all(q, Seq::empty()) == q);
            assert(forall|i: Inner, p: PeerId| #[trigger] all_added(i, p, Seq::empty()) == i);
        }
//@. loop 0
        invariant
            __it0.p@ <= __it0.s@.len(),
            __it0.s@ == addrs@,
            self.ok(),
            *self == heard_all(*old(self), __it0.s@.take(__it0.p@ as int)),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
            proof {
                let n = __it0.p@ as int;
                assert(__it0.s@.take(n + 1).drop_last() =~= __it0.s@.take(n));
                assert(__it0.s@.take(n + 1).last() == __it0.s@[n]);
            }
//@. at loop:0:after
        proof {
            assert(__it0.s@.take(__it0.s@.len() as int) =~= __it0.s@);
        }
//@. loop 1
        invariant
            __it1.p@ <= __it1.s@.len(),
            __it1.s@ == addrs@,
            self.ok(),
            *self == (PeerManager { inner: all_added(old(self).inner, pid, __it1.s@.take(__it1.p@ as int)), ..*old(self) }),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
            proof {
                let n = __it1.p@ as int;
                assert(__it1.s@.take(n + 1).drop_last() =~= __it1.s@.take(n));
                assert(__it1.s@.take(n + 1).last() == __it1.s@[n]);
            }
//@. at loop:1:after
        proof {
            assert(__it1.s@.take(__it1.s@.len() as int) =~= __it1.s@);
        }
//@end
}

// ------------------------------------------------------------------ what it comes to
/// In a book that is kept, an entry of an index leads to the peer it is of, and sessions are known both ways.
pub proof fn c26_kept(a: PeerManager)
    requires
        a.ok(),
    ensures
        forall|x: Multiaddr| #[trigger] a.inner.addr_pid@.contains_key(x) ==> {
            let p = a.inner.addr_pid@[x];
            a.inner.pool@.contains_key(p) && a.inner.pool@[p].id == p && a.inner.pool@[p].state.addr_set@.contains(x)
        },
        forall|u: UserAddress| #[trigger] a.inner.user_pid@.contains_key(u) ==> {
            let p = a.inner.user_pid@[u];
            a.inner.pool@.contains_key(p) && a.inner.pool@[p].id == p && user_of(a.inner.pool@[p].pubkey) == u
        },
        forall|p: PeerId, s: SessionId| #![auto] a.peer_session@.contains_key(p) && a.peer_session@[p] == s <==> a.session_peer@.contains_key(s) && a.session_peer@[s] == p,
        forall|p: PeerId| #[trigger] a.peer_session@.contains_key(p) ==> a.inner.connected@.contains(p) && a.inner.pool@.contains_key(p),
{
    assert forall|p: PeerId, s: SessionId| #![auto] a.peer_session@.contains_key(p) && a.peer_session@[p] == s <==> a.session_peer@.contains_key(s) && a.session_peer@[s]
        == p by {}
}

/// The end of a peer's connection is no other's.
pub proof fn c26_ended(a: PeerManager, b: PeerManager, p: PeerId)
    requires
        a.ok(),
        closed(a, b, p),
    ensures
        !b.peer_session@.contains_key(p),
        !b.inner.connected@.contains(p),
        forall|s: SessionId| #[trigger] b.session_peer@.contains_key(s) ==> b.session_peer@[s] != p,
        forall|q: PeerId| q != p ==> (#[trigger] b.peer_session@.contains_key(q) <==> a.peer_session@.contains_key(q)),
        forall|q: PeerId| q != p && #[trigger] b.peer_session@.contains_key(q) ==> b.peer_session@[q] == a.peer_session@[q]
            && b.session_peer@.contains_key(b.peer_session@[q]) && b.session_peer@[b.peer_session@[q]] == q,
        forall|q: PeerId| q != p ==> (#[trigger] b.inner.connected@.contains(q) <==> a.inner.connected@.contains(q)),
        forall|q: PeerId| q != p && a.inner.pool@.contains_key(q) ==> #[trigger] b.inner.pool@.contains_key(q) && b.inner.pool@[q] == a.inner.pool@[q],
        b.inner.addr_pid == a.inner.addr_pid,
        b.inner.user_pid == a.inner.user_pid,
{
}

/// A peer that is removed leaves nothing behind, and takes nothing of another's along.
pub proof fn c26_removed(a: PeerManager, b: PeerManager, p: PeerId)
    requires
        a.ok(),
        cleaned(a, b, p),
        !is_boot(a.config.bootstraps@, p),
    ensures
        !b.inner.pool@.contains_key(p),
        !b.peer_session@.contains_key(p),
        !b.inner.connected@.contains(p),
        !b.inner.connecting@.contains(p),
        forall|x: Multiaddr| #[trigger] b.inner.addr_pid@.contains_key(x) <==> a.inner.addr_pid@.contains_key(x) && a.inner.addr_pid@[x] != p,
        forall|x: Multiaddr| #[trigger] b.inner.addr_pid@.contains_key(x) ==> b.inner.addr_pid@[x] == a.inner.addr_pid@[x],
        forall|u: UserAddress| #[trigger] b.inner.user_pid@.contains_key(u) <==> a.inner.user_pid@.contains_key(u) && a.inner.user_pid@[u] != p,
        forall|u: UserAddress| #[trigger] b.inner.user_pid@.contains_key(u) ==> b.inner.user_pid@[u] == a.inner.user_pid@[u],
        forall|s: SessionId| #[trigger] b.session_peer@.contains_key(s) <==> a.session_peer@.contains_key(s) && a.session_peer@[s] != p,
        forall|s: SessionId| #[trigger] b.session_peer@.contains_key(s) ==> b.session_peer@[s] == a.session_peer@[s],
        forall|q: PeerId| q != p && #[trigger] a.inner.pool@.contains_key(q) ==> b.inner.pool@.contains_key(q) && b.inner.pool@[q] == a.inner.pool@[q],
        forall|q: PeerId| q != p && #[trigger] a.peer_session@.contains_key(q) ==> b.peer_session@.contains_key(q) && b.peer_session@[q] == a.peer_session@[q],
{
    let m = choose|m: PeerManager| #[trigger] closed(a, m, p) && dropped_from(m, b, p);
    assert(removed(m.inner, b.inner, p));
}

/// A failure counts once in an attempt window, its peer waits five times as long, and after the last one it is
/// dropped unless it is one to bootstrap from.
pub proof fn c26_retried(a: PeerManager, b: PeerManager, p: PeerId)
    requires
        a.ok(),
        failed(a, b, p),
        a.inner.pool@.contains_key(p),
    ensures
        !b.inner.pool@.contains_key(p) ==> !is_boot(a.config.bootstraps@, p) && a.inner.pool@[p].state.retry_count + 1 == MAX_RETRY_COUNT,
        b.inner.pool@.contains_key(p) ==> {
            let (x, y) = (a.inner.pool@[p].state, b.inner.pool@[p].state);
            &&& y.retry_count <= x.retry_count + 1
            &&& y.retry_count < MAX_RETRY_COUNT
            &&& !is_boot(a.config.bootstraps@, p) ==> (x == y && exists|t: int| #[trigger] shown_by_clock(t) && in_window(t, a.inner.pool@[p])) || {
                &&& y.retry_count == x.retry_count + 1
                &&& exists|t: int| #[trigger] shown_by_timer(t) && y.next_retry.ns@ == t + ipow(5, y.retry_count as nat) * giga()
                &&& exists|t: int| #[trigger] shown_by_clock(t) && !in_window(t, a.inner.pool@[p])
            }
        },
{
    let i = choose|i: Inner| #[trigger] counted(a.inner, i, p) && after_count(PeerManager { inner: i, ..a }, b, p);
    let n = PeerManager { inner: i, ..a };
    if spent(i, p) {
        let m = choose|m: PeerManager| #[trigger] closed(n, m, p) && dropped_from(m, b, p);
        assert(retried(a.inner.pool@[p], i.pool@[p]));
        if is_boot(a.config.bootstraps@, p) {
            let j = choose|j: Inner| #[trigger] counted(forgiven(m.inner, p), j, p) && counted(j, b.inner, p);
            assert(retried(forgiven(m.inner, p).pool@[p], j.pool@[p]));
            assert(retried(j.pool@[p], b.inner.pool@[p]));
            assert(i.pool@[p].state.retry_count <= a.inner.pool@[p].state.retry_count + 1);
        } else {
            assert(removed(m.inner, b.inner, p));
        }
    }
}

/// n failures to reach an unknown address.
pub open spec fn tried_times(m: Map<Multiaddr, UnknownAddr>, x: Multiaddr, n: nat) -> Map<Multiaddr, UnknownAddr>
    decreases n,
{
    if n == 0 {
        m
    } else {
        tried(tried_times(m, x, (n - 1) as nat), x)
    }
}

/// An unknown address just heard of is kept for five failures and dropped at the sixth.
pub proof fn c26_unknown(m: Map<Multiaddr, UnknownAddr>, x: Multiaddr, n: nat)
    requires
        m.contains_key(x),
        m[x].retry_count == 0,
    ensures
        tried_times(m, x, n).contains_key(x) <==> n < MAX_RETRY_COUNT,
        n < MAX_RETRY_COUNT ==> tried_times(m, x, n)[x].retry_count == n,
        forall|y: Multiaddr| y != x ==> (#[trigger] tried_times(m, x, n).contains_key(y) <==> m.contains_key(y)),
        forall|y: Multiaddr| y != x && #[trigger] m.contains_key(y) ==> tried_times(m, x, n)[y] == m[y],
    decreases n,
{
    if n > 0 {
        c26_unknown(m, x, (n - 1) as nat);
    }
}

} // verus!
