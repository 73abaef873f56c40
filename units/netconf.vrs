//@include endpoint.vrs assume
//@include hexspec.vrs
//@type "Arc<$>" => "$"
//@type "multiaddr::Multiaddr" => "Multiaddr"
//@path DEFAULT_LISTEN_IP_ADDR => vx_listen_ip()
//@path Default::default => VxEmpty::vx_empty
//@path Multiaddr::from => vx_ip_addr
//@path PathBuf::from => vx_path
//@method as_ref/0 => vx_as_path
verus! {

// ------------------------------------------------------------------ what a configuration is made of
#[derive(Clone, Copy)]
pub struct Duration {
    pub ns: Ghost<nat>,
}

pub open spec fn secs(n: nat) -> nat {
    n * 1_000_000_000
}

impl Duration {
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration)
        ensures
            r.ns@ == secs(s as nat),
    {
        unimplemented!()
    }
}

#[derive(Clone, Copy)]
pub struct Ipv4Addr {
    pub a: u8,
    pub b: u8,
    pub c: u8,
    pub d: u8,
}

#[derive(Clone, Copy)]
pub struct Ipv6Addr {
    pub b: Ghost<int>,
}

#[derive(Clone, Copy)]
pub enum IpAddr {
    V4(Ipv4Addr),
    V6(Ipv6Addr),
}

/// std::net::SocketAddr
#[derive(Clone, Copy)]
pub struct SocketAddr {
    pub i: IpAddr,
    pub p: u16,
}

impl SocketAddr {
    pub fn ip(&self) -> (r: IpAddr)
        ensures
            r == self.i,
    {
        self.i
    }

    pub fn port(&self) -> (r: u16)
        ensures
            r == self.p,
    {
        self.p
    }
}

/// tentacle::multiaddr::Protocol, as far as this code looks
pub enum Protocol {
    Ip4(Ipv4Addr),
    Ip6(Ipv6Addr),
    Tcp(u16),
    Other(Ghost<int>),
}

/// tentacle::multiaddr::Multiaddr: its components
pub struct Multiaddr {
    pub comps: Ghost<Seq<Protocol>>,
}

pub open spec fn ip_comp(i: IpAddr) -> Protocol {
    match i {
        IpAddr::V4(a) => Protocol::Ip4(a),
        IpAddr::V6(a) => Protocol::Ip6(a),
    }
}

/// DEFAULT_LISTEN_IP_ADDR
#[verifier::external_body]
pub fn vx_listen_ip() -> (r: IpAddr)
    ensures
        r == IpAddr::V4(Ipv4Addr { a: 0, b: 0, c: 0, d: 0 }),
{
    unimplemented!()
}

#[verifier::external_body]
pub fn vx_ip_addr(i: IpAddr) -> (r: Multiaddr)
    ensures
        r.comps@ == seq![ip_comp(i)],
{
    unimplemented!()
}

impl Multiaddr {
    #[verifier::external_body]
    pub fn push(&mut self, p: Protocol)
        ensures
            final(self).comps@ == old(self).comps@.push(p),
    {
        unimplemented!()
    }
}

/// Where a socket listens, as an address.
pub open spec fn socket_multi(s: SocketAddr) -> Multiaddr {
    Multiaddr { comps: Ghost(seq![ip_comp(s.i), Protocol::Tcp(s.p)]) }
}

/// tentacle::secio
pub struct PublicKey {
    pub b: Ghost<Seq<u8>>,
}

impl PublicKey {
    #[verifier::external_body]
    pub fn Secp256k1(v: Vec<u8>) -> (r: PublicKey)
        ensures
            r.b@ == v@,
    {
        unimplemented!()
    }
}

pub struct PeerId {
    pub b: Ghost<Seq<u8>>,
}

pub struct SecioError;

pub struct SecioKeyPair {
    pub sk: Ghost<Seq<u8>>,
}

/// Bytes that are a secp256k1 secret key.
pub uninterp spec fn sk_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn id_of(k: SecioKeyPair) -> PeerId;
pub uninterp spec fn pk_of(k: SecioKeyPair) -> PublicKey;

impl SecioKeyPair {
    #[verifier::external_body]
    pub fn secp256k1_generated() -> (r: SecioKeyPair)
        ensures
            sk_ok(r.sk@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn secp256k1_raw_key(b: Vec<u8>) -> (r: Result<SecioKeyPair, SecioError>)
        ensures
            r is Ok <==> sk_ok(b@),
            r is Ok ==> r->Ok_0.sk@ == b@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn to_peer_id(&self) -> (r: PeerId)
        ensures
            r == id_of(*self),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn to_public_key(&self) -> (r: PublicKey)
        ensures
            r == pk_of(*self),
    {
        unimplemented!()
    }
}

/// A peer as C26 makes it of a key and an address.
pub struct Peer {
    pub key: PublicKey,
    pub at: Multiaddr,
}

impl Peer {
    #[verifier::external_body]
    pub fn from_pair(p: (PublicKey, Multiaddr)) -> (r: Peer)
        ensures
            r == (Peer { key: p.0, at: p.1 }),
    {
        unimplemented!()
    }
}

/// std::path
pub struct PathBuf {
    pub p: Ghost<Seq<char>>,
}

pub uninterp spec fn joined(p: Seq<char>, name: Seq<char>) -> Seq<char>;
pub uninterp spec fn with_ext(p: Seq<char>, ext: Seq<char>) -> Seq<char>;

pub fn vx_path(s: String) -> (r: PathBuf)
    ensures
        r.p@ == s@,
{
    PathBuf { p: Ghost(s@) }
}

impl PathBuf {
    #[verifier::external_body]
    pub fn vx_to_owned(&self) -> (r: PathBuf)
        ensures
            r == *self,
    {
        unimplemented!()
    }

    pub fn vx_as_path(&self) -> (r: &PathBuf)
        ensures
            *r == *self,
    {
        self
    }

    #[verifier::external_body]
    pub fn push(&mut self, s: &str)
        ensures
            final(self).p@ == joined(old(self).p@, s@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn set_extension(&mut self, s: &str) -> (r: bool)
        ensures
            final(self).p@ == with_ext(old(self).p@, s@),
    {
        unimplemented!()
    }
}

pub trait VxEmpty: Sized {
    spec fn is_vx_empty(&self) -> bool;

    fn vx_empty() -> (r: Self)
        ensures
            r.is_vx_empty(),
    ;
}

impl<T> VxEmpty for Vec<T> {
    open spec fn is_vx_empty(&self) -> bool {
        self@.len() == 0
    }

    fn vx_empty() -> (r: Self) {
        Vec::new()
    }
}

macro_rules! copied {
    ($($t:ty),*) => {$(
        verus! {
        impl Clone for $t {
            #[verifier::external_body]
            fn clone(&self) -> (r: $t)
                ensures
                    r == *self,
            {
                unimplemented!()
            }
        }
        }
    )*};
}

copied!(PeerId, PublicKey, Multiaddr, SecioKeyPair, Peer, PathBuf);

// ------------------------------------------------------------------ the configuration
//@item core/network/src/config.rs const DEFAULT_LISTEN_PORT
//@item core/network/src/config.rs const DEFAULT_MAX_CONNECTIONS
//@item core/network/src/config.rs const DEFAULT_MAX_FRAME_LENGTH
//@item core/network/src/config.rs const DEFAULT_PEER_FILE_NAME
//@item core/network/src/config.rs const DEFAULT_PEER_FILE_EXT
//@item core/network/src/config.rs const DEFAULT_PEER_PERSISTENCE_PATH
//@item core/network/src/config.rs const DEFAULT_PING_INTERVAL
//@item core/network/src/config.rs const DEFAULT_PING_TIMEOUT
//@item core/network/src/config.rs const DEFAULT_DISCOVERY_SYNC_INTERVAL
//@item core/network/src/config.rs const DEFAULT_PEER_MANAGER_HEART_BEAT_INTERVAL
//@item core/network/src/config.rs const DEFAULT_SELF_HEART_BEAT_INTERVAL
//@item core/network/src/config.rs struct NetworkConfig
//@item core/network/src/connection/mod.rs struct ConnectionConfig
//@item core/network/src/peer_manager/mod.rs struct PeerManagerConfig

pub type PublicKeyHexStr = String;
pub type PrivateKeyHexStr = String;

//@fn core/network/src/common.rs socket_to_multi_addr
//@. ensures
        r.comps@ =~= socket_multi(socket_addr).comps@,
//@end

impl NetworkConfig {
//@fn core/network/src/config.rs NetworkConfig::new
//@. ensures
        r.default_listen.comps@ =~= seq![Protocol::Ip4(Ipv4Addr { a: 0, b: 0, c: 0, d: 0 }), Protocol::Tcp(2337)],
        r.bootstraps@.len() == 0,
        !r.enable_persistence,
        sk_ok(r.secio_keypair.sk@),
//@end
//@fn core/network/src/config.rs NetworkConfig::max_connections
//@. ensures
        r == (NetworkConfig { max_connections: max, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::max_frame_length
//@. ensures
        r == (NetworkConfig { max_frame_length: max, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::persistence_path
//@. sig (self, path: PathBuf) -> (r: Self)
//@. ensures
        r == (NetworkConfig { persistence_path: PathBuf { p: Ghost(with_ext(joined(path.p@, "peers"@), "dat"@)) }, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::secio_keypair
//@. resmap 0
//@. ensures
        r is Ok <==> hex_ok(sk_hex@) && sk_ok(hex_dec(sk_hex@)),
        r is Ok ==> r->Ok_0 == (NetworkConfig { secio_keypair: SecioKeyPair { sk: Ghost(hex_dec(sk_hex@)) }, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::ping_interval
//@. ensures
        r == (NetworkConfig { ping_interval: Duration { ns: Ghost(secs(interval as nat)) }, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::ping_timeout
//@. ensures
        r == (NetworkConfig { ping_timeout: Duration { ns: Ghost(secs(timeout as nat)) }, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::discovery_sync_interval
//@. ensures
        r == (NetworkConfig { discovery_sync_interval: Duration { ns: Ghost(secs(interval as nat)) }, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::peer_manager_heart_beat_interval
//@. ensures
        r == (NetworkConfig { peer_manager_heart_beat_interval: Duration { ns: Ghost(secs(interval as nat)) }, ..self }),
//@end
//@fn core/network/src/config.rs NetworkConfig::heart_beat_interval
//@. ensures
        r == (NetworkConfig { heart_beat_interval: Duration { ns: Ghost(secs(interval as nat)) }, ..self }),
//@end
}

impl ConnectionConfig {
//@fn core/network/src/config.rs ConnectionConfig@From<&NetworkConfig>::from key ConnectionConfig::from
//@. nopub
//@. ensures
        r.secio_keypair == config.secio_keypair,
        r.max_frame_length == Some(config.max_frame_length),
//@end
}

impl PeerManagerConfig {
//@fn core/network/src/config.rs PeerManagerConfig@From<&NetworkConfig>::from key PeerManagerConfig::from
//@. nopub
//@. ensures
        r.our_id == id_of(config.secio_keypair),
        r.pubkey == pk_of(config.secio_keypair),
        r.bootstraps@ =~= config.bootstraps@,
        r.max_connections == config.max_connections,
        r.routine_interval == config.peer_manager_heart_beat_interval,
        r.persistence_path == config.persistence_path,
//@end
}

} // verus!
