// C23, C24, C25: endpoints, the rpc table and what messages go through, against independent computations.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports, macro_expanded_macro_exports_accessed_by_absolute_paths)]
include!(concat!(env!("OUT_DIR"), "/network.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    h::main()
}

mod h {
    use super::compression::Snappy;
    use super::endpoint::{Endpoint, EndpointScheme, RpcEndpoint};
    use super::error::NetworkError;
    use super::message::{NetworkMessage, RawSessionMessage, SessionMessage};
    use super::outbound::{NetworkGossip, NetworkRpc};
    use super::reactor::{MessageRouter, Reactor};
    use super::rpc_map::RpcMap;
    use super::traits::{Compression, MessageSender, NetworkContext};
    use super::vxh::{guard, Ctx, Rng};
    use super::gen;
    use async_trait::async_trait;
    use futures::channel::mpsc::{unbounded, UnboundedReceiver};
    use futures::executor::block_on;
    use protocol::traits::{Context, Gossip, MessageCodec, MessageHandler, Priority, Rpc};
    use protocol::types::*;
    use protocol::ProtocolResult;
    use serde_derive::{Deserialize, Serialize};
    use std::collections::hash_map::DefaultHasher;
    use std::collections::{HashMap, HashSet};
    use std::convert::TryFrom;
    use std::future::Future;
    use std::hash::{Hash as StdHash, Hasher};
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context as Task, Poll};
    use tentacle::bytes::Bytes;
    use tentacle::service::TargetSession;
    use tentacle::SessionId;

    type Res = Result<(), (String, String)>;

    fn f<T>(key: &str, what: String) -> Result<T, (String, String)> {
        Err((key.to_owned(), what))
    }

    // ------------------------------------------------------------------ C23
    fn comps(s: &str) -> Vec<String> {
        let mut out = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            if c == '/' {
                if !cur.is_empty() {
                    out.push(cur.clone());
                    cur.clear();
                }
            } else {
                cur.push(c);
            }
        }
        if !cur.is_empty() {
            out.push(cur);
        }
        out
    }

    fn kind(s: &str) -> Option<u8> {
        let b = s.as_bytes();
        let is = |p: &[u8]| b.len() >= p.len() && &b[..p.len()] == p;
        if is(b"/gossip") {
            Some(0)
        } else if is(b"/rpc_call") {
            Some(1)
        } else if is(b"/rpc_resp") {
            Some(2)
        } else {
            None
        }
    }

    fn ok(s: &str) -> bool {
        let n = s.as_bytes().len();
        let c = comps(s).len();
        n >= 1 && n <= 120 && kind(s).is_some() && c >= 3 && c <= 4
    }

    fn root(s: &str) -> String {
        let c = comps(s);
        format!("/{}/{}/{}", c[0], c[1], c[2])
    }

    fn tail(s: &str) -> Option<u64> {
        let t: String = s.chars().rev().take_while(|c| *c != '/').collect::<Vec<_>>().into_iter().rev().collect();
        let d = if t.starts_with('+') { &t[1..] } else { &t[..] };
        if d.is_empty() {
            return None;
        }
        let mut n: u128 = 0;
        for c in d.bytes() {
            if c < b'0' || c > b'9' {
                return None;
            }
            n = n * 10 + u128::from(c - b'0');
            if n > u128::from(u64::max_value()) {
                return None;
            }
        }
        Some(n as u64)
    }

    fn hashed(e: &Endpoint) -> u64 {
        let mut h = DefaultHasher::new();
        StdHash::hash(e, &mut h);
        h.finish()
    }

    fn piece(r: &mut Rng) -> String {
        match r.below(12) {
            0 => String::new(),
            1 => "é".repeat(1 + r.below(8)),
            2 => r.edgy().to_string(),
            3 => "x".repeat(r.below(110)),
            4 => "18446744073709551615".into(),
            5 => "18446744073709551616".into(),
            6 => format!("+{}", r.below(10)),
            7 => format!("00{}", r.below(100)),
            8 => ["gossip", "rpc_call", "rpc_resp", "日本", "-1", " 1", "1 "][r.below(7)].into(),
            _ => format!("{}{}", (b'a' + r.below(26) as u8) as char, r.below(3)),
        }
    }

    fn url(r: &mut Rng) -> String {
        let mut s = String::new();
        s.push_str(["/gossip", "/rpc_call", "/rpc_resp", "/rpc", "gossip", "", "/GOSSIP", "/rpc_callx", "//gossip"][if r.chance(1, 5) { r.below(9) } else { r.below(3) }]);
        let n = if r.chance(1, 8) { r.below(6) } else { 2 + r.below(2) };
        for _ in 0..n {
            s.push('/');
            if r.chance(1, 20) {
                s.push('/');
            }
            s.push_str(&piece(r));
        }
        if r.chance(1, 25) {
            s.push('/');
        }
        if r.chance(1, 6) && s.len() < 130 {
            // right at the limit
            let want = 117 + r.below(6);
            while s.len() < want {
                s.push(if want - s.len() > 1 && r.chance(1, 8) { 'é' } else { 'y' });
            }
        }
        s
    }

    fn endpoints(r: &mut Rng, log: &mut String) -> Res {
        let s = url(r);
        *log = format!("{:?}", s);
        let e = s.parse::<Endpoint>();
        if e.is_ok() != ok(&s) {
            return f("accepts", format!("{:?} accepted: {}", s, e.is_ok()));
        }
        let rp = s.parse::<RpcEndpoint>();
        let want = ok(&s) && kind(&s) != Some(0) && tail(&s).is_some();
        if rp.is_ok() != want {
            return f("rpc accepts", format!("{:?} accepted as an rpc endpoint: {}", s, rp.is_ok()));
        }
        if let Ok(rp) = rp {
            if rp.rpc_id().value() != tail(&s).unwrap() || rp.endpoint().full_url() != s {
                return f("rpc id", format!("{:?}: id {}, url {:?}", s, rp.rpc_id().value(), rp.endpoint().full_url()));
            }
        }
        let e = match e {
            Ok(e) => e,
            Err(_) => return Ok(()),
        };
        let k = match e.scheme() {
            EndpointScheme::Gossip => 0,
            EndpointScheme::RpcCall => 1,
            EndpointScheme::RpcResponse => 2,
        };
        if Some(k) != kind(&s) || e.full_url() != s || e.root() != root(&s) {
            return f("parts", format!("{:?}: scheme {}, url {:?}, root {:?}", s, k, e.full_url(), e.root()));
        }
        match RpcEndpoint::try_from(e.clone()) {
            Ok(ref x) if want && x.rpc_id().value() == tail(&s).unwrap() && x.endpoint().full_url() == s => {}
            Err(_) if !want => {}
            x => return f("rpc from endpoint", format!("{:?}: {:?}", s, x.map(|x| x.rpc_id().value()).map_err(|e| e.to_string()))),
        }
        // Another endpoint, often with the same root.
        let c = comps(&s);
        let t = match r.below(4) {
            0 => format!("/{}/{}/{}", c[0], c[1], c[2]),
            1 => format!("/{}/{}/{}/{}", c[0], c[1], c[2], r.below(5)),
            2 => format!("/{}/{}/{}x", c[0], c[1], c[2]),
            _ => url(r),
        };
        if let Ok(o) = t.parse::<Endpoint>() {
            let same = comps(&s)[..3] == comps(&t)[..3];
            if (e == o) != same || (o == e) != same || (same && hashed(&e) != hashed(&o)) {
                return f("equality", format!("{:?} and {:?}: equal {}, hashes equal {}", s, t, e == o, hashed(&e) == hashed(&o)));
            }
        }
        let n = r.edgy();
        let x = format!("{}{}", "/".repeat(r.below(3)), n);
        let t = format!("{}/{}", s, n);
        match e.extend(&x) {
            Ok(ref x) if ok(&t) && x.full_url() == t && x.root() == root(&t) && (c.len() > 3 || x.root() == root(&s)) => {
                if let Ok(y) = RpcEndpoint::try_from(x.clone()) {
                    if y.rpc_id().value() != n {
                        return f("extended id", format!("{:?} extended by {}: id {}", s, n, y.rpc_id().value()));
                    }
                } else if kind(&s) != Some(0) {
                    return f("extended id", format!("{:?} extended by {}: no rpc endpoint", s, n));
                }
            }
            Err(_) if !ok(&t) => {}
            y => return f("extend", format!("{:?} extended by {:?}: {:?}", s, x, y.map(|y| y.full_url().to_owned()).map_err(|e| e.to_string()))),
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C24
    trait Answer: Send + std::fmt::Debug + PartialEq + Clone + 'static {
        const TY: u8;
        fn make(n: u64) -> Self;
    }

    impl Answer for u64 {
        const TY: u8 = 0;
        fn make(n: u64) -> u64 {
            n
        }
    }

    impl Answer for String {
        const TY: u8 = 1;
        fn make(n: u64) -> String {
            n.to_string()
        }
    }

    enum Rx {
        A(futures::channel::oneshot::Receiver<u64>),
        B(futures::channel::oneshot::Receiver<String>),
    }

    fn take<T: Answer>(m: &RpcMap, sid: usize, rid: u64, model: &mut HashMap<(usize, u64), (u8, Rx)>, n: u64, log: &mut Vec<String>) -> Res {
        let got = m.take::<T>(SessionId::new(sid), rid);
        let want = model.get(&(sid, rid)).map(|x| x.0 == T::TY).unwrap_or(false);
        log.push(format!("take {} {} as {}: {}", sid, rid, T::TY, got.is_ok()));
        if got.is_ok() != want {
            return f("take", String::new());
        }
        if let Ok(tx) = got {
            let (_, rx) = model.remove(&(sid, rid)).unwrap();
            let sent = tx.send(T::make(n)).is_ok();
            let same = match rx {
                Rx::A(mut a) => a.try_recv() == Ok(Some(n)),
                Rx::B(mut b) => b.try_recv() == Ok(Some(n.to_string())),
            };
            if !sent || !same {
                return f("wrong channel", String::new());
            }
        } else if model.contains_key(&(sid, rid)) {
            // asked for with another type: the call itself may be gone, no other
            let mine = model.remove(&(sid, rid)).unwrap();
            drop(mine);
            if m.take::<u64>(SessionId::new(sid), rid).is_ok() && m.take::<String>(SessionId::new(sid), rid).is_ok() {
                return f("taken twice", String::new());
            }
        }
        Ok(())
    }

    fn table(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let m = RpcMap::new();
        let mut model: HashMap<(usize, u64), (u8, Rx)> = HashMap::new();
        let mut ids = HashSet::new();
        for _ in 0..4 + r.below(40) {
            match r.below(5) {
                0 | 1 => {
                    let rid = m.next_rpc_id();
                    if !ids.insert(rid) {
                        return f("id repeated", format!("{}", rid));
                    }
                    let sid = r.below(3);
                    log.push(format!("insert {} {}", sid, rid));
                    let s = SessionId::new(sid);
                    let x = if r.chance(1, 2) { (0, Rx::A(m.insert::<u64>(s, rid))) } else { (1, Rx::B(m.insert::<String>(s, rid))) };
                    model.insert((sid, rid), x);
                }
                2 => {
                    // the call was given up
                    if let Some(k) = model.keys().next().cloned() {
                        if r.chance(1, 10) {
                            let (ty, rx) = model.remove(&k).unwrap();
                            drop(rx);
                            log.push(format!("drop {:?}", k));
                            let _ = if ty == 0 { m.take::<u64>(SessionId::new(k.0), k.1).is_ok() } else { m.take::<String>(SessionId::new(k.0), k.1).is_ok() };
                        }
                    }
                }
                _ => {
                    let mut keys: Vec<_> = model.keys().cloned().collect();
                    keys.sort();
                    let (mut sid, mut rid) = if keys.is_empty() { (0, 0) } else { *r.pick(&keys) };
                    match r.below(6) {
                        0 => sid = r.below(4),
                        1 => rid = r.below(12) as u64,
                        _ => {}
                    }
                    let n = r.u64();
                    if r.chance(1, 2) {
                        take::<u64>(&m, sid, rid, &mut model, n, log)?
                    } else {
                        take::<String>(&m, sid, rid, &mut model, n, log)?
                    }
                }
            }
        }
        // Every remaining call is still there, once.
        let mut keys: Vec<_> = model.keys().cloned().collect();
        keys.sort();
        for (sid, rid) in keys {
            if model[&(sid, rid)].0 == 0 {
                take::<u64>(&m, sid, rid, &mut model, 7, log)?;
                take::<u64>(&m, sid, rid, &mut model, 7, log)?
            } else {
                take::<String>(&m, sid, rid, &mut model, 7, log)?;
                take::<String>(&m, sid, rid, &mut model, 7, log)?
            }
        }
        Ok(())
    }

    fn threads(r: &mut Rng) -> Res {
        let m = Arc::new(RpcMap::new());
        let t = 2 + r.below(3);
        let hs: Vec<_> = (0..t)
            .map(|k| {
                let m = Arc::clone(&m);
                std::thread::spawn(move || {
                    let mut bad = vec![];
                    let mut ids = vec![];
                    for i in 0..150u64 {
                        let id = m.next_rpc_id();
                        ids.push(id);
                        let mut rx = m.insert::<u64>(SessionId::new(1), id);
                        if i % 3 == 0 {
                            std::thread::yield_now();
                        }
                        match m.take::<u64>(SessionId::new(1), id) {
                            Ok(tx) => {
                                let v = i * 10 + k as u64;
                                let _ = tx.send(v);
                                if rx.try_recv() != Ok(Some(v)) {
                                    bad.push(format!("call {} got another answer", id));
                                }
                            }
                            Err(e) => bad.push(format!("call {}: {}", id, e)),
                        }
                    }
                    (ids, bad)
                })
            })
            .collect();
        let mut seen = HashSet::new();
        for h in hs {
            let (ids, bad) = h.join().unwrap();
            if let Some(b) = bad.first() {
                return f("threads", b.clone());
            }
            for i in ids {
                if !seen.insert(i) {
                    return f("id repeated", format!("two threads got id {}", i));
                }
            }
        }
        // Two threads ask for the same answer: one gets it.
        let id = m.next_rpc_id();
        let _rx = m.insert::<u64>(SessionId::new(2), id);
        let hs: Vec<_> = (0..2)
            .map(|_| {
                let m = Arc::clone(&m);
                std::thread::spawn(move || guard(|| m.take::<u64>(SessionId::new(2), id).is_ok()))
            })
            .collect();
        let n: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
        if n.iter().any(|x| x.is_err()) {
            return f("take panics", format!("{:?}", n));
        }
        if n.iter().filter(|x| **x == Ok(true)).count() != 1 {
            return f("taken twice", format!("two threads: {:?}", n));
        }
        Ok(())
    }

    #[derive(Clone)]
    struct Out {
        sent:  Arc<Mutex<Vec<(String, Bytes, String)>>>,
        users: Arc<Mutex<Vec<(Vec<UserAddress>, Bytes, String)>>>,
        fail:  Arc<Mutex<bool>>,
    }

    impl Out {
        fn new() -> Out {
            Out { sent: Arc::new(Mutex::new(vec![])), users: Arc::new(Mutex::new(vec![])), fail: Arc::new(Mutex::new(false)) }
        }
    }

    #[async_trait]
    impl MessageSender for Out {
        fn send(&self, tar: TargetSession, msg: Bytes, pri: Priority) -> Result<(), NetworkError> {
            if *self.fail.lock().unwrap() {
                return Err(NetworkError::NotEndpoint);
            }
            self.sent.lock().unwrap().push((format!("{:?}", tar), msg, format!("{:?}", pri)));
            Ok(())
        }

        async fn users_send(&self, users: Vec<UserAddress>, msg: Bytes, pri: Priority) -> Result<(), NetworkError> {
            self.users.lock().unwrap().push((users, msg, format!("{:?}", pri)));
            Ok(())
        }
    }

    struct Sink<M> {
        got: Arc<Mutex<Vec<(Option<usize>, Option<u64>, M)>>>,
    }

    #[async_trait]
    impl<M: MessageCodec + Sync> MessageHandler for Sink<M> {
        type Message = M;

        async fn process(&self, ctx: Context, msg: M) -> ProtocolResult<()> {
            self.got.lock().unwrap().push((ctx.session_id().ok().map(|s| s.value()), ctx.rpc_id().ok(), msg));
            Ok(())
        }
    }

    fn unpack(b: &Bytes) -> Result<NetworkMessage, (String, String)> {
        let d = Snappy.decompress(b.clone()).map_err(|e| ("unpack".to_owned(), e.to_string()))?;
        block_on(NetworkMessage::decode(d)).map_err(|e| ("unpack".to_owned(), e.to_string()))
    }

    fn smsg(sid: usize, url: &str, content: Vec<u8>) -> SessionMessage {
        SessionMessage { sid: SessionId::new(sid), msg: NetworkMessage { url: url.to_owned(), content } }
    }

    type Pending = Pin<Box<dyn Future<Output = ProtocolResult<String>>>>;

    fn poll(fut: &mut Pending) -> Poll<ProtocolResult<String>> {
        let w = futures::task::noop_waker();
        let mut cx = Task::from_waker(&w);
        fut.as_mut().poll(&mut cx)
    }

    fn calls(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let out = Out::new();
        let map = Arc::new(RpcMap::new());
        let rpc = NetworkRpc::new(out.clone(), Snappy, Arc::clone(&map));
        let end = "/rpc_call/v1/test";
        let resp = "/rpc_resp/v1/test";
        let mut open: Vec<(usize, u64, Pending, String)> = vec![];
        let (_tx, rx) = unbounded();
        let reactor: Reactor<String> = Reactor::rpc_resp(rx, Arc::clone(&map));
        let (_tx2, rx2) = unbounded();
        let wrong: Reactor<u64> = Reactor::rpc_resp(rx2, Arc::clone(&map));
        let mut ids = HashSet::new();
        for step in 0..3 + r.below(25) {
            match r.below(4) {
                0 | 1 => {
                    let sid = r.below(3);
                    let q = format!("ask {}", step);
                    let cx = Context::new().set_session_id(SessionId::new(sid));
                    let n = out.sent.lock().unwrap().len();
                    let rpc2 = rpc.clone();
                    let q2 = q.clone();
                    let mut fut: Pending = Box::pin(async move { rpc2.call::<String, String>(cx, end, q2, Priority::High).await });
                    if let Poll::Ready(x) = poll(&mut fut) {
                        return f("call ended early", format!("{:?}", x.map_err(|e| e.to_string())));
                    }
                    let sent = out.sent.lock().unwrap().clone();
                    if sent.len() != n + 1 {
                        return f("sent", format!("{} messages for one call", sent.len() - n));
                    }
                    let (tar, b, pri) = &sent[n];
                    let m = unpack(b)?;
                    let rid = match m.url.parse::<RpcEndpoint>() {
                        Ok(e) => e.rpc_id().value(),
                        Err(e) => return f("url", format!("{:?}: {}", m.url, e)),
                    };
                    log.push(format!("call on {} has id {}", sid, rid));
                    if !ids.insert(rid) {
                        return f("id repeated", format!("{}", rid));
                    }
                    let c = block_on(<String as MessageCodec>::decode(Bytes::from(m.content)));
                    if *tar != format!("{:?}", TargetSession::Single(SessionId::new(sid))) || pri != "High" || c.ok() != Some(q) || m.url != format!("{}/{}", end, rid) {
                        return f("call message", format!("target {}, priority {}, url {}", tar, pri, m.url));
                    }
                    open.push((sid, rid, fut, String::new()));
                }
                2 if !open.is_empty() => {
                    let k = r.below(open.len());
                    let (sid, rid) = (open[k].0, open[k].1);
                    let a = format!("answer {}", step);
                    let mut s = a.clone();
                    let content = block_on(s.encode()).unwrap().to_vec();
                    let u = format!("{}/{}", resp, rid);
                    // not for it: another session, another id, a call, a gossip
                    block_on(reactor.react(smsg(sid + 5, &u, content.clone())));
                    block_on(reactor.react(smsg(sid, &format!("{}/{}", resp, rid + 1000), content.clone())));
                    block_on(reactor.react(smsg(sid, &format!("{}/{}", end, rid), content.clone())));
                    block_on(reactor.react(smsg(sid, &format!("/gossip/v1/test/{}", rid), content.clone())));
                    block_on(reactor.react(smsg(sid, &format!("{}/x{}", resp, rid), content.clone())));
                    block_on(reactor.react(smsg(sid, &u, vec![1, 2])));
                    for o in open.iter_mut() {
                        if let Poll::Ready(x) = poll(&mut o.2) {
                            return f("stray answer", format!("call {} on {}: {:?}", o.1, o.0, x.map_err(|e| e.to_string())));
                        }
                    }
                    if r.chance(1, 6) {
                        let mut n = 7u64;
                        let c = block_on(n.encode()).unwrap().to_vec();
                        block_on(wrong.react(smsg(sid, &u, c)));
                        log.push(format!("wrong type for {} on {}", rid, sid));
                        let mut o = open.remove(k);
                        match poll(&mut o.2) {
                            Poll::Ready(Ok(x)) => return f("wrong type", x),
                            Poll::Ready(Err(_)) => {}
                            Poll::Pending => {
                                block_on(reactor.react(smsg(sid, &u, content)));
                                if let Poll::Ready(Ok(ref x)) = poll(&mut o.2) {
                                    if *x != a {
                                        return f("wrong answer", x.clone());
                                    }
                                }
                            }
                        }
                        continue;
                    }
                    block_on(reactor.react(smsg(sid, &u, content.clone())));
                    block_on(reactor.react(smsg(sid, &u, block_on("other".to_owned().encode()).unwrap().to_vec())));
                    log.push(format!("answer to {} on {}", rid, sid));
                    let mut o = open.remove(k);
                    match poll(&mut o.2) {
                        Poll::Ready(Ok(ref x)) if *x == a => {}
                        Poll::Ready(x) => return f("wrong answer", format!("{:?}", x.map_err(|e| e.to_string()))),
                        Poll::Pending => return f("no answer", format!("call {} on {}", rid, sid)),
                    }
                    for o in open.iter_mut() {
                        if let Poll::Ready(x) = poll(&mut o.2) {
                            return f("another call ended", format!("call {} on {}: {:?}", o.1, o.0, x.map_err(|e| e.to_string())));
                        }
                    }
                }
                _ => {
                    // the other side: answering a call
                    let (sid, rid) = (r.below(4), r.edgy());
                    let n = out.sent.lock().unwrap().len();
                    let cx = Context::new().set_session_id(SessionId::new(sid)).set_rpc_id(rid);
                    let x = block_on(rpc.response(cx, resp, "re".to_owned(), Priority::Normal));
                    let sent = out.sent.lock().unwrap().clone();
                    if x.is_err() || sent.len() != n + 1 {
                        return f("response", format!("{:?}, {} sent", x.map_err(|e| e.to_string()), sent.len() - n));
                    }
                    let m = unpack(&sent[n].1)?;
                    if sent[n].0 != format!("{:?}", TargetSession::Single(SessionId::new(sid))) || m.url != format!("{}/{}", resp, rid) {
                        return f("response", format!("answer to call {} of {}: target {}, url {}", rid, sid, sent[n].0, m.url));
                    }
                    out.sent.lock().unwrap().clear();

                    // and being called: the handler learns the session and the call's id
                    let seen = Arc::new(Mutex::new(vec![]));
                    let (_tx, rx) = unbounded();
                    let re: Reactor<String> = Reactor::new(rx, Box::new(Sink { got: Arc::clone(&seen) }), Arc::clone(&map));
                    let c = block_on("ask".to_owned().encode()).unwrap().to_vec();
                    block_on(re.react(smsg(sid, &format!("{}/{}", end, rid), c)));
                    let seen = seen.lock().unwrap();
                    if seen.len() != 1 || seen[0].0 != Some(sid) || seen[0].1 != Some(rid) {
                        return f("called", format!("call {} of {}: {} handled, {:?}", rid, sid, seen.len(), seen.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()));
                    }
                }
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------ C25
    #[derive(Debug, Serialize, Deserialize, PartialEq, Clone)]
    struct Msg {
        n:  u64,
        s:  String,
        #[serde(with = "super::serde")]
        h:  Hash,
        #[serde(with = "super::serde")]
        t:  SignedTransaction,
        #[serde(with = "super::serde_multi")]
        hs: Vec<Hash>,
        #[serde(with = "super::serde_multi")]
        ts: Vec<SignedTransaction>,
        #[serde(with = "super::serde")]
        e:  Epoch,
    }

    fn msg(r: &mut Rng) -> Msg {
        Msg {
            n:  r.edgy(),
            s:  gen::text(r),
            h:  gen::hash(r),
            t:  gen::signed(r),
            hs: gen::many(r, gen::hash),
            ts: gen::many(r, gen::signed),
            e:  gen::epoch(r),
        }
    }

    fn frame(r: &mut Rng, log: &mut Vec<String>) -> Res {
        let out = Out::new();
        let gossip = NetworkGossip::new(out.clone(), Snappy);
        let (rtx, rrx) = unbounded();
        drop(rtx);
        let (stx, _srx) = unbounded();
        let mut router = MessageRouter::new(rrx, Snappy, stx);
        // Reactors of several endpoints; one of them gets the message.
        let ends = ["/gossip/v1/a", "/gossip/v1/b", "/gossip/v2/a", "/rpc_call/v1/a"];
        let mut rxs: Vec<UnboundedReceiver<SessionMessage>> = vec![];
        let have: Vec<bool> = (0..4).map(|_| r.chance(5, 6)).collect();
        for (i, e) in ends.iter().enumerate() {
            let (tx, rx) = unbounded();
            if have[i] {
                router.register_reactor(e.parse().unwrap(), tx);
            }
            rxs.push(rx);
        }
        let k = r.below(4);
        let end = if r.chance(1, 3) || k == 3 { format!("{}/{}", ends[k], r.edgy()) } else { ends[k].to_owned() };
        let m = msg(r);
        log.push(format!("{} with {} and {} of a list", end, m.hs.len(), m.ts.len()));
        let users = gen::many(r, gen::user);
        let cast = r.chance(1, 3);
        let by_rpc = k == 3 && r.chance(1, 2);
        let mut end = end;
        let b = if by_rpc {
            // what a peer that calls sends: the endpoint with the call's id
            let rpc = NetworkRpc::new(out.clone(), Snappy, Arc::new(RpcMap::new()));
            let (to, rid) = (r.below(100), r.edgy());
            let cx = Context::new().set_session_id(SessionId::new(to)).set_rpc_id(rid);
            block_on(rpc.response(cx, ends[3], m.clone(), Priority::High)).map_err(|e| ("send".to_owned(), e.to_string()))?;
            end = format!("{}/{}", ends[3], rid);
            let v = out.sent.lock().unwrap().clone();
            if v.len() != 1 || v[0].0 != format!("{:?}", TargetSession::Single(SessionId::new(to))) || v[0].2 != "High" {
                return f("to one peer", format!("{:?}", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
            }
            v[0].1.clone()
        } else if cast {
            block_on(gossip.users_cast(Context::new(), &end, users.clone(), m.clone(), Priority::Normal)).map_err(|e| ("send".to_owned(), e.to_string()))?;
            let v = out.users.lock().unwrap().clone();
            if v.len() != 1 || v[0].0 != users || v[0].2 != "Normal" || !out.sent.lock().unwrap().is_empty() {
                return f("users cast", format!("{} sent", v.len()));
            }
            v[0].1.clone()
        } else {
            block_on(gossip.broadcast(Context::new(), &end, m.clone(), Priority::High)).map_err(|e| ("send".to_owned(), e.to_string()))?;
            let v = out.sent.lock().unwrap().clone();
            if v.len() != 1 || v[0].0 != format!("{:?}", TargetSession::All) || v[0].2 != "High" {
                return f("broadcast", format!("{:?}", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>()));
            }
            v[0].1.clone()
        };
        let sid = r.below(100);
        block_on(router.route_raw_message(RawSessionMessage { sid: SessionId::new(sid), msg: b.clone() }));
        for i in 0..4 {
            let got = rxs[i].try_next();
            match got {
                Ok(Some(ref s)) if i == k && have[i] => {
                    if s.sid != SessionId::new(sid) || s.msg.url != end {
                        return f("routed", format!("session {:?}, url {:?}", s.sid, s.msg.url));
                    }
                }
                Ok(Some(_)) => return f("routed", format!("{} went to {}", end, ends[i])),
                _ if i == k && have[i] => return f("routed", format!("{} got lost", end)),
                _ => {}
            }
            if let Ok(Some(s)) = got {
                let seen = Arc::new(Mutex::new(vec![]));
                let (_tx, rx) = unbounded();
                let re: Reactor<Msg> = Reactor::new(rx, Box::new(Sink { got: Arc::clone(&seen) }), Arc::new(RpcMap::new()));
                block_on(re.react(s));
                let seen = seen.lock().unwrap();
                let rid = if k == 3 { tail(&end) } else { None };
                if seen.len() != 1 || seen[0].0 != Some(sid) || seen[0].1 != rid {
                    return f("handled", format!("{} times, {:?}", seen.len(), seen.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()));
                }
                if seen[0].2 != m {
                    return f("message changed", format!("sent {:?}, handled {:?}", m, seen[0].2));
                }
            }
        }
        // Corrupt input anywhere on the way is an error.
        let mut bad = b.to_vec();
        for _ in 0..1 + r.below(3) {
            match r.below(4) {
                0 if !bad.is_empty() => {
                    let i = r.below(bad.len());
                    bad[i] ^= 1 << r.below(8);
                }
                1 => bad.truncate(r.below(bad.len() + 1)),
                2 => {
                    let n = r.below(20);
                    bad.extend(r.bytes(n));
                }
                _ => {
                    let n = r.below(60);
                    bad = r.bytes(n);
                }
            }
        }
        let raw = |b: &[u8]| RawSessionMessage { sid: SessionId::new(1), msg: Bytes::from(b) };
        if let Err(p) = guard(|| block_on(router.route_raw_message(raw(&bad)))) {
            return f("corrupt panics", format!("routing {:?}: {}", hex::encode(&bad), p));
        }
        let mut mm = m.clone();
        let mut content = block_on(mm.encode()).unwrap().to_vec();
        for _ in 0..1 + r.below(3) {
            let i = r.below(content.len());
            if r.chance(1, 2) {
                content[i] = r.u8();
            } else {
                content.truncate(i + 1);
            }
        }
        let e = content.clone();
        if let Err(p) = guard(|| block_on(<Msg as MessageCodec>::decode(Bytes::from(e.clone()))).is_ok()) {
            return f("corrupt panics", format!("decoding {}: {}", hex::encode(&content), p));
        }
        let n = NetworkMessage { url: end.clone(), content };
        let mut nb = block_on(n.encode()).map_err(|e| ("frame".to_owned(), e.to_string()))?.to_vec();
        if r.chance(1, 2) {
            let i = r.below(nb.len());
            nb[i] ^= 1 << r.below(8);
        }
        let z = Snappy.compress(Bytes::from(nb.clone())).map_err(|e| ("compress".to_owned(), e.to_string()))?;
        match Snappy.decompress(z.clone()) {
            Ok(ref b) if b.to_vec() == nb => {}
            x => return f("compression", format!("{} bytes: {:?}", nb.len(), x.map(|b| b.len()).map_err(|e| e.to_string()))),
        }
        // What does not unpack is an error, and what does is what it unpacks to.
        let mut zb = z.to_vec();
        match r.below(4) {
            0 => zb.truncate(r.below(z.len())),
            1 => zb.insert(r.below(z.len()), r.u8()),
            _ => zb[r.below(z.len())] ^= 1 << r.below(8),
        }
        let mut plain = vec![];
        let want = std::io::copy(&mut snap::Reader::new(&zb[..]), &mut plain).ok().map(|_| plain);
        match guard(|| Snappy.decompress(Bytes::from(zb.clone())).ok().map(|b| b.to_vec())) {
            Err(p) => return f("corrupt panics", format!("unpacking {}: {}", hex::encode(&zb), p)),
            Ok(ref got) if *got == want => {}
            Ok(got) => return f("corrupt accepted", format!("unpacking {}: {:?}, expected {:?}", hex::encode(&zb), got.map(hex::encode), want.map(hex::encode))),
        }
        let (_tx, rx) = unbounded();
        let re: Reactor<Msg> = Reactor::rpc_resp(rx, Arc::new(RpcMap::new()));
        match guard(|| block_on(NetworkMessage::decode(Bytes::from(nb.clone())))) {
            Err(p) => return f("corrupt panics", format!("unframing {}: {}", hex::encode(&nb), p)),
            Ok(Ok(m)) => {
                let u = m.url.clone();
                if let Err(p) = guard(|| block_on(re.react(SessionMessage { sid: SessionId::new(1), msg: m }))) {
                    return f("corrupt panics", format!("handling {:?}: {}", u, p));
                }
            }
            Ok(Err(_)) => {}
        }
        Ok(())
    }

    fn framed(r: &mut Rng) -> Res {
        let n = if r.chance(1, 20) { 60000 + r.below(90000) } else { r.below(300) };
        let b = if r.chance(1, 3) { vec![r.u8(); n] } else { r.bytes(n) };
        let end = ["/gossip/a/b", "/rpc_call/a/b/7", "/rpc_resp/日/b/1"][r.below(3)];
        let m = NetworkMessage::new(end.parse().unwrap(), Bytes::from(b.clone()));
        let e = block_on(m.encode()).map_err(|e| ("frame".to_owned(), e.to_string()))?;
        let z = Snappy.compress(e).map_err(|e| ("compress".to_owned(), e.to_string()))?;
        let m = unpack(&z)?;
        if m.url != end || m.content != b {
            return f("frame", format!("{} bytes for {}: {} for {}", n, end, m.content.len(), m.url));
        }
        Ok(())
    }

    fn run<F: FnMut(&mut Rng, &mut Vec<String>) -> Res>(c: &mut Ctx, frac: f64, what: &str, mut g: F) {
        while c.go(frac) {
            let s = c.rng.u64();
            let mut log = vec![];
            let x = guard(|| g(&mut Rng::new(s), &mut log));
            c.case(&(what, &log, if log.is_empty() { s } else { 0 }));
            let tell = || format!("{} {}: {}", what, s, log.join("; "));
            match x {
                Ok(Ok(())) => {}
                Ok(Err((k, w))) => c.fail(&k, &w, tell()),
                Err(p) => c.fail(&format!("panic in {}", what), &p, tell()),
            }
            c.sample(tell);
        }
    }

    pub fn main() {
        let mut c = Ctx::from_args();
        match c.prop.as_str() {
            "C23" => {
                c.rule = "distinct endpoint strings".into();
                run(&mut c, 1.0, "endpoint", |r, log| {
                    let mut l = String::new();
                    let x = endpoints(r, &mut l);
                    log.push(l);
                    x
                });
            }
            "C24" => {
                c.rule = "distinct histories of calls and answers".into();
                run(&mut c, 0.35, "table", table);
                run(&mut c, 0.85, "calls", calls);
                run(&mut c, 1.0, "threads", |r, _| threads(r));
            }
            "C25" => {
                c.rule = "distinct messages and corruptions".into();
                run(&mut c, 0.8, "message", |r, log| frame(r, log));
                run(&mut c, 1.0, "frame", |r, _| framed(r));
            }
            _ => {}
        }
        c.finish()
    }
}
