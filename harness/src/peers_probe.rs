// C26: random histories of what a node hears from its peers, run through the real peer manager and through a
// model of the peer book written from the property; after every step the two are compared, the manager's
// indexes and requests included.  Clocks are the real ones; a peer's stamps are set back to let time pass.
use super::*;
use crate::event::{RemoveKind, RetryKind};
use crate::vxh::{guard, Ctx, Rng};
use futures::channel::mpsc::{unbounded, UnboundedReceiver as Rx, UnboundedSender as Tx};
use protocol::traits::Priority;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use tentacle::bytes::Bytes;
use tentacle::secio::SecioKeyPair;

type Res<T> = Result<T, (String, String)>;

fn f<T>(key: &str, what: String) -> Res<T> {
    Err((key.to_owned(), what))
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

// The current second, with enough of it left for one step.
fn settle() -> u64 {
    let d = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
    if d.subsec_millis() > 900 {
        std::thread::sleep(Duration::from_millis(1002 - u64::from(d.subsec_millis())));
    }
    now()
}

const WINDOW: u64 = 4;
const SHORT: u64 = 3;
const MOST: u32 = 6;

#[derive(Clone, Debug, PartialEq)]
struct Known {
    addrs:   HashSet<Multiaddr>,
    user:    UserAddress,
    retries: u32,
    tried:   u64,
    ip:      Option<IpAddr>,
    up_at:   u64,
    down_at: u64,
    alive:   u64,
    waits:   u64, // 0: may be dialed
}

impl Known {
    fn new(pk: &PublicKey) -> Known {
        Known {
            addrs: HashSet::new(),
            user: user(pk),
            retries: 0,
            tried: 0,
            ip: None,
            up_at: 0,
            down_at: 0,
            alive: 0,
            waits: 0,
        }
    }
}

fn user(pk: &PublicKey) -> UserAddress {
    UserAddress::from_pubkey_bytes(Bytes::from(pk.inner_ref().clone())).unwrap()
}

fn ip_of(a: &Multiaddr) -> Option<IpAddr> {
    let c: Vec<Protocol> = a.iter().collect();
    if c.len() < 2 {
        return None;
    }
    match c[0] {
        Protocol::Ip4(i) => Some(IpAddr::V4(i)),
        Protocol::Ip6(i) => Some(IpAddr::V6(i)),
        _ => None,
    }
}

#[derive(Clone)]
struct Book {
    me:       PeerId,
    boots:    HashSet<PeerId>,
    boot_at:  HashSet<Multiaddr>,
    book:     HashMap<PeerId, Known>,
    of:       HashMap<Multiaddr, PeerId>,
    users:    HashMap<UserAddress, PeerId>,
    dialing:  HashSet<PeerId>,
    up:       HashSet<PeerId>,
    sess:     HashMap<PeerId, SessionId>,
    unknown:  HashMap<Multiaddr, (usize, bool)>,
    most:     usize,
}

#[derive(Debug, PartialEq, Clone)]
enum Ask {
    Connect(Vec<String>),
    Hang(SessionId),
    Send(Vec<SessionId>, Vec<u8>),
}

fn sorted<'a, I: Iterator<Item = &'a Multiaddr>>(i: I) -> Vec<String> {
    let mut v: Vec<String> = i.map(|a| a.to_string()).collect();
    v.sort();
    v
}

impl Book {
    fn who_has(&self, s: SessionId) -> Option<PeerId> {
        self.sess.iter().find(|(_, x)| **x == s).map(|(p, _)| p.clone())
    }

    fn learn(&mut self, p: &PeerId, a: &Multiaddr) {
        self.of.insert(a.clone(), p.clone());
        self.book.get_mut(p).unwrap().addrs.insert(a.clone());
    }

    fn hang(&mut self, p: &PeerId, t: u64) {
        self.dialing.remove(p);
        self.up.remove(p);
        self.sess.remove(p);
        if let Some(k) = self.book.get_mut(p) {
            k.down_at = t;
            k.alive = if t > k.up_at { t - k.up_at } else { k.up_at - t };
            k.ip = None;
        }
    }

    fn strike(&mut self, p: &PeerId, t: u64) {
        if let Some(k) = self.book.get_mut(p) {
            if t - k.tried >= WINDOW {
                k.retries += 1;
                k.tried = t;
                k.waits = 1;
                for _ in 0..k.retries {
                    k.waits *= 5;
                }
            }
        }
    }

    fn drop_peer(&mut self, p: &PeerId, t: u64) {
        self.hang(p, t);
        if self.boots.contains(p) {
            if let Some(k) = self.book.get_mut(p) {
                k.retries = 0;
            }
            self.strike(p, t);
            self.strike(p, t);
            return;
        }
        if let Some(k) = self.book.remove(p) {
            self.users.remove(&k.user);
            for a in &k.addrs {
                if self.of.get(a) == Some(p) {
                    self.of.remove(a);
                }
            }
        }
    }

    fn fail(&mut self, p: &PeerId, t: u64) {
        self.strike(p, t);
        if self.book.get(p).map(|k| k.retries >= MOST).unwrap_or(true) {
            self.drop_peer(p, t);
        }
    }

    fn named(&self, a: &Multiaddr) -> Option<PeerId> {
        if let Some(p) = self.of.get(a) {
            return Some(p.clone());
        }
        let c: Vec<Protocol> = a.iter().collect();
        if c.len() < 2 {
            return None;
        }
        let root: Multiaddr = c[..2].iter().cloned().collect();
        let p = self.of.get(&root)?;
        match c.get(2) {
            None => Some(p.clone()),
            Some(Protocol::P2p(h)) if h.as_bytes() == p.as_bytes() => Some(p.clone()),
            _ => None,
        }
    }

    fn heard(&mut self, a: &Multiaddr) {
        match self.named(a) {
            Some(ref p) if self.up.contains(p) => self.learn(&p.clone(), a),
            Some(_) => (),
            None => {
                self.unknown.entry(a.clone()).or_insert((0, false));
            }
        }
    }

    fn meet(&mut self, pk: &PublicKey, addrs: &[Multiaddr]) {
        let p = pk.peer_id();
        self.users.insert(user(pk), p.clone());
        self.book.entry(p.clone()).or_insert_with(|| Known::new(pk));
        for a in addrs {
            self.learn(&p, a);
        }
    }
}

struct World {
    keys:  Vec<PublicKey>,
    addrs: Vec<Multiaddr>,
    sid:   usize,
    m:     Book,
    pm:    PeerManager,
    tx:    Tx<PeerManagerEvent>,
    conn:  Rx<ConnectionEvent>,
    asks:  Vec<Ask>,
    log:   Vec<String>,
}

fn keys(r: &mut Rng, n: usize) -> Vec<PublicKey> {
    let mut v = vec![];
    while v.len() < n {
        if let Ok(k) = SecioKeyPair::secp256k1_raw_key(r.bytes(32)) {
            v.push(k.to_public_key());
        }
    }
    v
}

fn short(p: &PeerId) -> String {
    let s = p.to_base58();
    s[s.len() - 6..].to_owned()
}

impl World {
    fn new(r: &mut Rng, all: &[PublicKey]) -> World {
        let n = 2 + r.below(5);
        let from = r.below(all.len() - n);
        let keys = all[from..=from + n].to_vec();
        let mut addrs: Vec<Multiaddr> = vec![];
        for i in 0..(2 + r.below(6)) {
            let s = match r.below(6) {
                0 => format!("/ip6/::1/tcp/{}", 100 + i),
                1 => format!("/dns4/n{}/tcp/{}", i, 100 + i),
                _ => format!("/ip4/10.0.0.{}/tcp/{}", i, 100 + i),
            };
            addrs.push(s.parse().unwrap());
            for k in &keys {
                if r.chance(1, 3) {
                    addrs.push(format!("{}/p2p/{}", s, k.peer_id().to_base58()).parse().unwrap());
                }
            }
            if r.chance(1, 5) {
                addrs.push(format!("{}/ws", s).parse().unwrap());
            }
        }
        let me = keys[0].clone();
        let mut boots: Vec<Peer> = vec![];
        let mut given: Vec<(PublicKey, Multiaddr)> = vec![];
        for k in keys.iter().skip(1) {
            if r.chance(1, 4) {
                let a = r.pick(&addrs).clone();
                boots.push(Peer::from_pair((k.clone(), a.clone())));
                given.push((k.clone(), a));
            }
        }
        let most = match r.below(3) {
            0 => 1 + r.below(3),
            1 => 100,
            _ => 0,
        };
        let (tx, rx) = unbounded();
        let (ctx, conn) = unbounded();
        let config = PeerManagerConfig {
            our_id:           me.peer_id(),
            pubkey:           me.clone(),
            bootstraps:       boots,
            max_connections:  most,
            routine_interval: Duration::from_secs(3600),
            persistence_path: PathBuf::from("/dev/null"),
        };
        let mut pm = PeerManager::new(config, rx, ctx);
        pm.heart_beat = None;
        let mut m = Book {
            me: me.peer_id(),
            boots: given.iter().map(|g| g.0.peer_id()).collect(),
            boot_at: HashSet::new(),
            book: HashMap::new(),
            of: HashMap::new(),
            users: HashMap::new(),
            dialing: HashSet::new(),
            up: HashSet::new(),
            sess: HashMap::new(),
            unknown: HashMap::new(),
            most,
        };
        m.meet(&me, &[]);
        m.up.insert(me.peer_id());
        let mut log = vec![];
        if r.chance(1, 2) {
            let mut saved = vec![];
            for k in &keys {
                if r.chance(1, 2) {
                    let at: Vec<Multiaddr> = (0..r.below(4)).map(|_| r.pick(&addrs).clone()).collect();
                    log.push(format!("saved: {} at {:?}", short(&k.peer_id()), at));
                    saved.push((k.clone(), PeerState::from_addrs(at.clone())));
                    let known = at.iter().cloned().collect::<HashSet<_>>();
                    m.meet(k, &known.into_iter().collect::<Vec<_>>());
                }
            }
            pm.persistence = Box::new(Saved(saved));
            pm.load_peers().unwrap();
        }
        let mut w = World { keys, addrs, sid: 1, m, pm, tx, conn, asks: vec![], log };
        if r.chance(3, 4) {
            w.log.push(format!(
                "bootstrap {:?}",
                given.iter().map(|g| format!("{} at {}", short(&g.0.peer_id()), g.1)).collect::<Vec<_>>()
            ));
            w.pm.bootstrap();
            for (k, a) in &given {
                w.m.meet(k, &[a.clone()]);
                w.m.dialing.insert(k.peer_id());
                w.m.boot_at.insert(a.clone());
            }
            w.asks.push(Ask::Connect(sorted(given.iter().map(|g| &g.1))));
        }
        w
    }

    fn heard(&mut self) -> Vec<Ask> {
        let mut v = vec![];
        while let Ok(Some(e)) = self.conn.try_next() {
            v.push(match e {
                ConnectionEvent::Connect { addrs, .. } => Ask::Connect(sorted(addrs.iter())),
                ConnectionEvent::Disconnect(s) => Ask::Hang(s),
                ConnectionEvent::SendMsg { tar: TargetSession::Multi(v), msg, .. } => Ask::Send(v, msg.to_vec()),
                ConnectionEvent::SendMsg { tar, .. } => Ask::Connect(vec![format!("sent to {:?}", tar)]),
            });
        }
        v
    }

    fn compare(&mut self) -> Res<()> {
        let pm = &self.pm;
        let m = &self.m;
        let inner = &pm.inner;

        let of = inner.addr_pid.read();
        for (a, p) in of.iter() {
            if m.of.get(a) != Some(p) {
                return f("address-index", format!("{} is listed for {}, not for {:?}", a, short(p), m.of.get(a).map(short)));
            }
        }
        for (a, p) in &m.of {
            if of.get(a) != Some(p) {
                return f("address-index", format!("{} of {} is not listed", a, short(p)));
            }
        }
        let users = inner.user_pid.read();
        if *users != m.users {
            return f("user-index", format!("the user index holds {} entries, {} expected, or points elsewhere", users.len(), m.users.len()));
        }
        let book = inner.pool.read();
        for p in book.keys() {
            if !m.book.contains_key(p) {
                return f("book", format!("{} is still in the book", short(p)));
            }
        }
        for (p, k) in &m.book {
            let q = match book.get(p) {
                Some(q) => q,
                None => return f("book", format!("{} is not in the book", short(p))),
            };
            let addrs: HashSet<Multiaddr> = q.owned_addrs().into_iter().collect();
            if q.id() != p || *q.user_addr() != k.user || q.pubkey().peer_id() != *p {
                return f("book", format!("the entry of {} is another peer's", short(p)));
            }
            if addrs != k.addrs {
                return f("book", format!("{} has {:?}, expected {:?}", short(p), addrs, k.addrs));
            }
            if q.retry_count() != k.retries as usize {
                return f("retries", format!("{} has retry count {}, expected {}", short(p), q.retry_count(), k.retries));
            }
            if q.connection_ip() != k.ip {
                return f("ip", format!("{} is connected from {:?}, expected {:?}", short(p), q.connection_ip(), k.ip));
            }
            let got = (q.vx_times(), q.alive());
            if got != ((k.tried, k.up_at, k.down_at), k.alive) {
                return f("times", format!("{}: attempt, connect, disconnect, alive {:?}, expected {:?}", short(p), got, k));
            }
            let left = q.vx_wait();
            if left > Duration::from_secs(k.waits) || k.waits > 0 && left + Duration::from_secs(2) < Duration::from_secs(k.waits) {
                return f("delay", format!("{} waits {:?}, expected {} s", short(p), left, k.waits));
            }
        }
        if *inner.connected.read() != m.up {
            return f("connected", "the connected peers are not the ones with a session".to_owned());
        }
        if *inner.connecting.read() != m.dialing {
            return f("dialing", format!(
                "dialing {:?}, expected {:?}",
                inner.connecting.read().iter().map(short).collect::<Vec<_>>(),
                m.dialing.iter().map(short).collect::<Vec<_>>()
            ));
        }
        if pm.peer_session != m.sess {
            return f("sessions", format!("sessions by peer {:?}, expected {:?}", pm.peer_session, m.sess));
        }
        let back: HashMap<SessionId, PeerId> = m.sess.iter().map(|(p, s)| (*s, p.clone())).collect();
        if pm.session_peer != back {
            return f("sessions", format!("peers by session {:?}, expected {:?}", pm.session_peer, back));
        }
        if pm.bootstraps != m.boot_at {
            return f("bootstraps", "the bootstrap addresses changed".to_owned());
        }
        let unknown: HashMap<Multiaddr, (usize, bool)> =
            pm.unknown_addrs.iter().map(|u| (u.addr.clone(), (u.retry_count, u.connecting()))).collect();
        if unknown != m.unknown {
            return f("unknown", format!("unknown addresses {:?}, expected {:?}", unknown, m.unknown));
        }
        Ok(())
    }

    // What one waking of the manager does after it worked off its events.
    fn dial(&mut self, before: &HashSet<PeerId>) -> Res<()> {
        let count = self.m.up.len() + self.m.dialing.len() - 1;
        if count >= self.m.most {
            return Ok(());
        }
        let room = self.m.most - count;
        let able: HashSet<PeerId> = self
            .m
            .book
            .iter()
            .filter(|(p, k)| !self.m.up.contains(p) && !self.m.dialing.contains(p) && !k.addrs.is_empty() && k.waits == 0)
            .map(|(p, _)| p.clone())
            .collect();
        let picked: Vec<PeerId> = self.pm.inner.connecting.read().iter().filter(|p| !before.contains(p)).cloned().collect();
        let n = room.min(able.len());
        if picked.len() != n || picked.iter().any(|p| !able.contains(p)) {
            return f("candidates", format!(
                "dials {:?} of {:?} with room for {}",
                picked.iter().map(short).collect::<Vec<_>>(),
                able.iter().map(short).collect::<Vec<_>>(),
                room
            ));
        }
        let mut addrs: Vec<Multiaddr> = vec![];
        for p in picked {
            addrs.extend(self.m.book[&p].addrs.iter().cloned());
            self.m.dialing.insert(p);
        }
        let tried: Vec<Multiaddr> = self
            .pm
            .unknown_addrs
            .iter()
            .filter(|u| u.connecting() && self.m.unknown.get(&u.addr).map(|x| !x.1).unwrap_or(false))
            .map(|u| u.addr.clone())
            .collect();
        let idle = self.m.unknown.values().filter(|x| !x.1).count();
        if tried.len() != (room - n).min(idle) {
            return f("candidates", format!("dials {:?} of {} unknown addresses with room for {}", tried, idle, room - n));
        }
        for a in tried {
            self.m.unknown.get_mut(&a).unwrap().1 = true;
            addrs.push(a);
        }
        if !addrs.is_empty() {
            self.asks.push(Ask::Connect(sorted(addrs.iter())));
        }
        Ok(())
    }

    fn age(&mut self, r: &mut Rng) {
        let by = [1, 2, 3, 4, 5, 10, 100_000][r.below(7)];
        let mut pool = self.pm.inner.pool.write();
        let every = r.chance(1, 2);
        for (p, k) in self.m.book.iter_mut() {
            if !every && r.chance(1, 2) {
                continue;
            }
            // an older stamp, an exact multiple of a second
            k.tried = k.tried.saturating_sub(by);
            k.up_at = k.up_at.saturating_sub(by);
            let q = pool.get_mut(p).unwrap();
            q.vx_age(k.tried, k.up_at);
            if by >= 10 {
                k.waits = 0;
                q.vx_ready();
            }
        }
        self.log.push(format!("{} s pass", by));
    }

    // One event: what the manager is told, and what the model makes of it.
    fn event(&mut self, r: &mut Rng, t: u64) -> Option<(PeerManagerEvent, Option<(oneshot::Receiver<Vec<UserAddress>>, Vec<UserAddress>)>)> {
        let other = self.keys[1 + r.below(self.keys.len() - 1)].clone();
        let mut pid = other.peer_id();
        let linked: Vec<(PeerId, SessionId)> = self.m.sess.iter().map(|(p, s)| (p.clone(), *s)).collect();
        if !linked.is_empty() && r.chance(1, 2) {
            let mut l = linked.clone();
            l.sort_by_key(|x| x.1);
            pid = r.pick(&l).0.clone();
        }
        let a = r.pick(&self.addrs).clone();
        let sid = match (self.m.sess.get(&pid), r.below(4)) {
            (Some(s), x) if x > 0 => *s,
            _ => SessionId::new(1 + r.below(self.sid)),
        };
        let kind = || RemoveKind::BadSessionPeer("x".to_owned());
        let all = &self.addrs;
        let keys = &self.keys;
        let m = &mut self.m;
        let e = match r.below(20) {
            0 | 1 | 2 | 3 => {
                let sid = SessionId::new(self.sid);
                self.sid += 1;
                let ty = if r.chance(1, 2) { SessionType::Outbound } else { SessionType::Inbound };
                let p = other.peer_id();
                self.log.push(format!("attach {} session {} at {} {:?}", short(&p), sid, a, ty));
                if ty == SessionType::Outbound {
                    if !m.book.contains_key(&p) {
                        m.unknown.remove(&a);
                    }
                    m.meet(&other, &[a.clone()]);
                } else {
                    m.meet(&other, &[]);
                }
                m.dialing.remove(&p);
                m.up.insert(p.clone());
                m.sess.insert(p.clone(), sid);
                let k = m.book.get_mut(&p).unwrap();
                k.up_at = t;
                k.ip = ip_of(&a);
                PeerManagerEvent::AttachPeerSession { pubkey: other, session: Session { sid, addr: a, ty } }
            }
            4 | 5 | 6 => {
                self.log.push(format!("detach {} session {}", short(&pid), sid));
                m.hang(&pid, t);
                if m.book.get(&pid).map(|k| k.alive < SHORT).unwrap_or(false) {
                    m.fail(&pid, t);
                }
                PeerManagerEvent::DetachPeerSession { pid, sid, ty: SessionType::Inbound }
            }
            7 => {
                self.log.push(format!("alive {}", short(&pid)));
                if let Some(k) = m.book.get_mut(&pid) {
                    k.retries = 0;
                }
                PeerManagerEvent::PeerAlive { pid }
            }
            8 => {
                self.log.push(format!("remove {}", short(&pid)));
                m.drop_peer(&pid, t);
                PeerManagerEvent::RemovePeer { pid, kind: kind() }
            }
            9 => {
                self.log.push(format!("remove by session {}", sid));
                if let Some(p) = m.who_has(sid) {
                    m.drop_peer(&p, t);
                }
                PeerManagerEvent::RemovePeerBySession { sid, kind: kind() }
            }
            10 | 11 => {
                self.log.push(format!("retry later {}", short(&pid)));
                if let Some(s) = m.sess.get(&pid) {
                    self.asks.push(Ask::Hang(*s));
                }
                m.fail(&pid, t);
                PeerManagerEvent::RetryPeerLater { pid, kind: RetryKind::TimedOut }
            }
            12 => {
                self.log.push(format!("discover {}", a));
                m.heard(&a);
                PeerManagerEvent::DiscoverAddr { addr: a }
            }
            13 => {
                let n = r.below(4);
                let addrs: Vec<Multiaddr> = (0..n).map(|_| r.pick(all).clone()).collect();
                self.log.push(format!("discover {:?}", addrs));
                for a in &addrs {
                    m.heard(a);
                }
                PeerManagerEvent::DiscoverMultiAddrs { addrs }
            }
            14 => {
                if !m.book.contains_key(&pid) {
                    return None;
                }
                let n = r.below(4);
                let addrs: Vec<Multiaddr> = (0..n).map(|_| r.pick(all).clone()).collect();
                self.log.push(format!("identified {} at {:?}", short(&pid), addrs));
                for a in &addrs {
                    m.learn(&pid, a);
                }
                PeerManagerEvent::IdentifiedAddrs { pid, addrs }
            }
            15 => {
                let ty = if r.chance(2, 3) { ConnectionType::Dialer } else { ConnectionType::Listen };
                if ty == ConnectionType::Dialer {
                    let p = m.who_has(sid)?;
                    m.unknown.remove(&a);
                    m.learn(&p, &a);
                }
                self.log.push(format!("repeated {:?} session {} at {}", ty, sid, a));
                PeerManagerEvent::RepeatedConnection { ty, sid, addr: a }
            }
            16 => {
                self.log.push(format!("unconnectable {}", a));
                m.unknown.remove(&a);
                if let Some(p) = m.named(&a) {
                    m.dialing.remove(&p);
                }
                if !m.boot_at.contains(&a) {
                    if let Some(p) = m.of.remove(&a) {
                        m.book.get_mut(&p).unwrap().addrs.remove(&a);
                    }
                }
                PeerManagerEvent::UnconnectableAddress { addr: a, kind: kind() }
            }
            17 | 18 => {
                let a = if !m.unknown.is_empty() && r.chance(1, 2) {
                    let mut l: Vec<Multiaddr> = m.unknown.keys().cloned().collect();
                    l.sort_by_key(|a| a.to_string());
                    l[0].clone()
                } else {
                    a
                };
                self.log.push(format!("reconnect later {}", a));
                if let Some((n, _)) = m.unknown.remove(&a) {
                    if n + 1 < MOST as usize {
                        m.unknown.insert(a.clone(), (n + 1, false));
                    }
                }
                if let Some(p) = m.named(&a) {
                    if !m.up.contains(&p) {
                        m.dialing.remove(&p);
                        m.fail(&p, t);
                    }
                }
                PeerManagerEvent::ReconnectLater { addr: a, kind: RetryKind::Interrupted }
            }
            _ => match r.below(4) {
                0 => {
                    self.log.push(format!("listen at {}", a));
                    let me = m.me.clone();
                    m.learn(&me, &a);
                    PeerManagerEvent::AddListenAddr { addr: a }
                }
                1 => {
                    self.log.push(format!("no longer listen at {}", a));
                    let me = m.me.clone();
                    if m.of.get(&a) == Some(&me) {
                        m.of.remove(&a);
                    }
                    m.book.get_mut(&me).unwrap().addrs.remove(&a);
                    PeerManagerEvent::RemoveListenAddr { addr: a }
                }
                _ => {
                    let n = r.below(5);
                    let to: Vec<UserAddress> = (0..n).map(|_| user(r.pick(keys))).collect();
                    let msg = r.bytes(3);
                    self.log.push(format!("route to {:?}", to.iter().map(|u| u.as_hex()).collect::<Vec<_>>()));
                    let mut on = vec![];
                    let mut off = vec![];
                    let mut none = vec![];
                    let mut at: Vec<Multiaddr> = vec![];
                    for u in &to {
                        match m.users.get(u) {
                            None => none.push(u.clone()),
                            Some(p) => match m.sess.get(p) {
                                Some(s) => on.push(*s),
                                None => {
                                    off.push(u.clone());
                                    at.extend(m.book[p].addrs.iter().cloned());
                                }
                            },
                        }
                    }
                    off.extend(none);
                    self.asks.push(Ask::Send(on, msg.clone()));
                    self.asks.push(Ask::Connect(sorted(at.iter())));
                    let (miss_tx, miss) = oneshot::channel();
                    let users_msg = MultiUsersMessage { user_addrs: to, msg: Bytes::from(msg), pri: Priority::Normal };
                    return Some((PeerManagerEvent::RouteMultiUsersMessage { users_msg, miss_tx }, Some((miss, off))));
                }
            },
        };
        Some((e, None))
    }

    // The peers kept over a restart: what is saved is loaded again.
    fn restart(&mut self, dir: &str) -> Res<()> {
        let path = format!("{}/peers.{}", dir, std::process::id());
        let file = PeerPersistence::new(&path);
        let saved = file.save(self.pm.inner.package_peers());
        let loaded = file.load();
        let _ = std::fs::remove_file(&path);
        let loaded = match (saved, loaded) {
            (Ok(_), Ok(v)) => v,
            _ => return f("restart", "saving and loading the peers failed".to_owned()),
        };
        let again = Inner::new(self.m.me.clone());
        again.insert_peers(loaded);
        let book = again.pool.read();
        let ok = book.len() == self.m.book.len()
            && self.m.book.iter().all(|(p, k)| match book.get(p) {
                Some(q) => {
                    q.owned_addrs().into_iter().collect::<HashSet<_>>() == k.addrs
                        && q.retry_count() == 0
                        && q.id() == p
                        && *q.user_addr() == k.user
                        && q.alive() == k.alive
                }
                None => false,
            });
        if !ok {
            return f("restart", "the peers loaded are not the ones saved".to_owned());
        }
        if *again.user_pid.read() != self.m.users {
            return f("restart", "the users loaded are not the ones saved".to_owned());
        }
        for (a, p) in again.addr_pid.read().iter() {
            if !self.m.book.get(p).map(|k| k.addrs.contains(a)).unwrap_or(false) {
                return f("restart", format!("{} is listed for {}, which does not have it", a, short(p)));
            }
        }
        for k in self.m.book.values() {
            if k.addrs.iter().any(|a| !again.addr_pid.read().contains_key(a)) {
                return f("restart", "an address loaded is not listed".to_owned());
            }
        }
        Ok(())
    }
}

struct Saved(Vec<(PublicKey, PeerState)>);

impl Persistence for Saved {
    fn save(&self, _: Vec<(PublicKey, PeerState)>) -> Result<(), NetworkError> {
        Ok(())
    }

    fn load(&self) -> Result<Vec<(PublicKey, PeerState)>, NetworkError> {
        Ok(self.0.clone())
    }
}

fn history(c: &mut Ctx, seed: u64, all: &[PublicKey]) -> Result<u64, (String, String, Vec<String>)> {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut w = World::new(r, all);
    let dir = c.out.clone();
    let steps = 5 + r.below(60);
    let mut n = 0;
    let waker = futures::task::noop_waker();
    for _ in 0..steps {
        if r.chance(1, 4) {
            w.age(r);
        }
        let t = settle();
        let woken = r.chance(1, 3);
        let k = if woken { r.below(4) } else { 1 };
        let mut waits = vec![];
        let mut events = vec![];
        for _ in 0..k {
            if let Some((e, miss)) = w.event(r, t) {
                events.push(e);
                waits.extend(miss);
            }
        }
        if !woken && events.is_empty() {
            continue;
        }
        let res = {
            let pm = &mut w.pm;
            let tx = &w.tx;
            let waker = &waker;
            let dialing = w.m.dialing.clone();
            guard(move || {
                if woken {
                    for e in events {
                        tx.unbounded_send(e).unwrap();
                    }
                    let mut cx = Context::from_waker(waker);
                    let _ = Pin::new(pm).poll(&mut cx);
                } else {
                    for e in events {
                        pm.process_event(e);
                    }
                }
            })
            .map(|_| dialing)
        };
        if now() != t {
            return Ok(n); // the second ended in between: what is expected is not known
        }
        let fail = |w: &mut World, k: String, what: String| (k, what, w.log.clone());
        let dialing = match res {
            Ok(d) => d,
            Err(e) => return Err(fail(&mut w, "panic".to_owned(), e)),
        };
        if woken {
            w.log.push("woken".to_owned());
            if let Err((k, what)) = w.dial(&dialing) {
                return Err(fail(&mut w, k, what));
            }
        }
        n += 1;
        if let Err((k, what)) = w.compare() {
            return Err(fail(&mut w, k, what));
        }
        let asks = w.heard();
        let want = std::mem::replace(&mut w.asks, vec![]);
        if asks != want {
            return Err(fail(&mut w, "requests".to_owned(), format!("asked the connection service for {:?}, expected {:?}", asks, want)));
        }
        for (mut miss, want) in waits {
            match miss.try_recv() {
                Ok(Some(ref got)) if *got == want => (),
                got => {
                    return Err(fail(&mut w, "missed".to_owned(), format!("reported {:?} as missed, expected {:?}", got, want)));
                }
            }
        }
    }
    if r.chance(1, 8) {
        if let Err((k, what)) = w.restart(&dir) {
            return Err((k, what, w.log.clone()));
        }
    }
    Ok(n)
}

pub fn main() {
    let mut c = Ctx::from_args();
    c.rule = "random histories of sessions, discovered addresses, failures, removals and waits over up to 7 peers and their addresses, the book, its indexes, the dials asked for and the peers kept over a restart compared with a model after every step".to_owned();
    let all = keys(&mut c.rng, 20);
    while c.go(1.0) {
        let seed = c.rng.u64();
        match history(&mut c, seed, &all) {
            Ok(n) => {
                c.case(&(seed, n));
                c.sample(|| format!("history {} of {} steps", seed, n));
            }
            Err((k, what, log)) => c.fail(&k, &what, format!("{}\n=> {}", log.join("\n"), what)),
        }
    }
    c.finish();
}
