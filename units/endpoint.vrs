//@include text.vrs
//@type "Box<dynError+Send>" => "VxCause"
//@type "std::io::Error" => "VxCause"
//@type "ProtocolId" => "usize"
//@method len/0 => vx_len
//@method starts_with => vx_starts_with
//@method to_owned => vx_to_owned
//@method parse => vx_parse
//@method rfind => vx_rfind
//@method trim_start_matches => vx_trim_start_matches
//@method to_string => vx_to_string
//@method hash => vx_hash
verus! {

/// What lies behind an error.
pub struct VxCause;

pub struct UserAddress {
    pub k: Ghost<int>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct SessionId(pub usize);

//@item core/network/src/error.rs enum ErrorKind
//@item core/network/src/error.rs enum NetworkError
impl core::convert::From<ErrorKind> for NetworkError {
    #[verifier::external_body]
    fn from(e: ErrorKind) -> (r: NetworkError) {
        unimplemented!()
    }
}

impl core::convert::From<NetworkError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: NetworkError) -> (r: ProtocolError) {
        unimplemented!()
    }
}

//@item core/network/src/endpoint.rs const GOSSIP_SCHEME
//@item core/network/src/endpoint.rs const RPC_CALL_SCHEME
//@item core/network/src/endpoint.rs const RPC_RESPONSE_SCHEME
//@item core/network/src/endpoint.rs const MAX_ENDPOINT_LENGTH
//@item core/network/src/endpoint.rs enum EndpointScheme need:PartialEq
//@item core/network/src/endpoint.rs struct Endpoint need:Clone
//@item core/network/src/endpoint.rs struct RpcId need:Clone,Copy
//@item core/network/src/endpoint.rs struct RpcEndpoint need:Clone

impl VxShow for RpcId {
    open spec fn shown(&self) -> Seq<char> {
        dec(self.0 as nat)
    }

    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) {
        unimplemented!()
    }
}

impl FromSpecImpl<u64> for RpcId {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: u64) -> RpcId {
        RpcId(v)
    }
}

impl core::convert::From<u64> for RpcId {
    #[verifier::external_body]
    fn from(v: u64) -> RpcId {
        unimplemented!()
    }
}

/// The scheme a text starts with.
pub open spec fn scheme_of(s: Seq<char>) -> Option<EndpointScheme> {
    if "/gossip"@.is_prefix_of(s) {
        Some(EndpointScheme::Gossip)
    } else if "/rpc_call"@.is_prefix_of(s) {
        Some(EndpointScheme::RpcCall)
    } else if "/rpc_resp"@.is_prefix_of(s) {
        Some(EndpointScheme::RpcResponse)
    } else {
        None
    }
}

/// The components of an url.
pub open spec fn comps(s: Seq<char>) -> Seq<Seq<char>> {
    kept(pieces(s, '/'))
}

pub open spec fn ep_ok(s: Seq<char>) -> bool {
    &&& 1 <= blen(s) <= 120
    &&& scheme_of(s) is Some
    &&& 3 <= comps(s).len() <= 4
}

pub open spec fn root_of(s: Seq<char>) -> Seq<char> {
    seq!['/'] + comps(s)[0] + seq!['/'] + comps(s)[1] + seq!['/'] + comps(s)[2]
}

impl Endpoint {
    pub open spec fn url(&self) -> Seq<char> {
        self.0@
    }

    pub open spec fn wf(&self) -> bool {
        ep_ok(self.url())
    }
}

/// The non-empty pieces among the first p are in v.
pub open spec fn cutting(it: Seq<&str>, p: int, v: Seq<&str>, s: Seq<char>) -> bool {
    &&& 0 <= p <= it.len()
    &&& it.len() == pieces(s, '/').len()
    &&& forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i])@ == pieces(s, '/')[i]
    &&& v.len() == kept(pieces(s, '/').take(p)).len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == kept(pieces(s, '/').take(p))[i]
}

/// What a hasher was given.
pub trait Hasher: Sized {
    spec fn given(&self) -> Seq<Seq<char>>;
}

pub trait VxHash {
    spec fn vh(&self) -> Seq<char>;

    fn vx_hash<H: Hasher>(&self, state: &mut H)
        ensures
            final(state).given() == old(state).given().push(self.vh()),
    ;
}

impl VxHash for String {
    open spec fn vh(&self) -> Seq<char> {
        self@
    }

    #[verifier::external_body]
    fn vx_hash<H: Hasher>(&self, state: &mut H) {
        unimplemented!()
    }
}

pub proof fn lemma_schemes()
    ensures
        "/gossip"@ =~= seq!['/', 'g', 'o', 's', 's', 'i', 'p'],
        "/rpc_call"@ =~= seq!['/', 'r', 'p', 'c', '_', 'c', 'a', 'l', 'l'],
        "/rpc_resp"@ =~= seq!['/', 'r', 'p', 'c', '_', 'r', 'e', 's', 'p'],
        "/"@ =~= seq!['/'],
        forall|s: Seq<char>| #[trigger] scheme_of(s) == Some(EndpointScheme::RpcCall) <==> "/rpc_call"@.is_prefix_of(s),
        forall|s: Seq<char>| #[trigger] scheme_of(s) == Some(EndpointScheme::RpcResponse) <==> "/rpc_resp"@.is_prefix_of(s),
{
    reveal_strlit("/gossip");
    reveal_strlit("/rpc_call");
    reveal_strlit("/rpc_resp");
    reveal_strlit("/");
    assert forall|s: Seq<char>| "/rpc_call"@.is_prefix_of(s) implies #[trigger] scheme_of(s) == Some(EndpointScheme::RpcCall) by {
        assert(s.subrange(0, 9)[1] == 'r');
        if "/gossip"@.is_prefix_of(s) {
            assert(s.subrange(0, 7)[1] == 'g');
        }
    }
    assert forall|s: Seq<char>| "/rpc_resp"@.is_prefix_of(s) implies #[trigger] scheme_of(s) == Some(EndpointScheme::RpcResponse) by {
        assert(s.subrange(0, 9)[1] == 'r');
        assert(s.subrange(0, 9)[5] == 'r');
        if "/gossip"@.is_prefix_of(s) {
            assert(s.subrange(0, 7)[1] == 'g');
        }
        if "/rpc_call"@.is_prefix_of(s) {
            assert(s.subrange(0, 9)[5] == 'c');
        }
    }
}

impl Endpoint {
//@fn core/network/src/endpoint.rs Endpoint::starts_with as vx_starts_with key Endpoint::starts_with
//@. ensures
        r == pat@.is_prefix_of(self.url()),
//@end
//@fn core/network/src/endpoint.rs Endpoint::scheme
//@. requires
        self.wf(),
//@. ensures
        scheme_of(self.url()) == Some(r),
//@. at start
        proof {
            lemma_schemes();
        }
//@end
//@fn core/network/src/endpoint.rs Endpoint::root
//@. requires
        self.wf(),
//@. ensures
        r@ == root_of(self.url()),
//@. loop 0
        invariant
            cutting(__it0.s@, __it0.p@ as int, __v2@, url@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
                proof {
                    let q = pieces(url@, '/').take(__it0.p@ as int + 1);
                    assert(q.drop_last() =~= pieces(url@, '/').take(__it0.p@ as int));
                    assert(q.last() == pieces(url@, '/')[__it0.p@ as int]);
                }
//@. at loop:0:after
        proof {
            assert(pieces(url@, '/').take(__it0.p@ as int) =~= pieces(url@, '/'));
        }
//@. at start
        proof {
            lemma_schemes();
            assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by {
                assert(Seq::<char>::empty() + a =~= a);
            }
        }
//@end
//@fn core/network/src/endpoint.rs Endpoint::full_url
//@. ensures
        r@ == self.url(),
//@end
//@fn core/network/src/endpoint.rs Endpoint::extend
//@. ensures
        Endpoint::reads(self.url() + seq!['/'] + no_slash(comp@), r),
//@. at start
        proof {
            lemma_schemes();
            lemma_no_slash(comp@);
            assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by {
                assert(Seq::<char>::empty() + a =~= a);
            }
        }
//@end
//@fn core/network/src/endpoint.rs Endpoint@PartialEq::eq
//@. requires
        self.wf(),
        other.wf(),
//@. ensures
        r == (root_of(self.url()) == root_of(other.url())),
//@end
//@fn core/network/src/endpoint.rs Endpoint@Hash::hash
//@. requires
        self.wf(),
//@. ensures
        final(state).given() == old(state).given().push(root_of(self.url())),
//@end
}

/// Without leading slashes.
pub open spec fn no_slash(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() > 0 && s[0] == '/' { no_slash(s.skip(1)) } else { s }
}

pub proof fn lemma_no_slash(s: Seq<char>)
    ensures
        forall|k: int| 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> s[i] == '/') && (k < s.len() ==> s[k] != '/')
            ==> #[trigger] s.skip(k) == no_slash(s),
    decreases s.len(),
{
    assert forall|k: int| 0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> s[i] == '/') && (k < s.len() ==> s[k] != '/')
        implies #[trigger] s.skip(k) == no_slash(s) by {
        if k == 0 {
            assert(s.skip(0) =~= s);
        } else {
            let t = s.skip(1);
            lemma_no_slash(t);
            assert(forall|i: int| 0 <= i < k - 1 ==> t[i] == s[i + 1]);
            assert(t.skip(k - 1) =~= s.skip(k));
        }
    }
}

impl VxFromStr for Endpoint {
    type Err = NetworkError;

    open spec fn reads(s: Seq<char>, r: Result<Endpoint, NetworkError>) -> bool {
        &&& r is Ok <==> ep_ok(s)
        &&& r is Ok ==> r->Ok_0.url() == s
    }

//@fn core/network/src/endpoint.rs Endpoint@FromStr::from_str
//@. nopub
//@. loop 0
        invariant
            cutting(__it0.s@, __it0.p@ as int, __v2@, end@),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
                proof {
                    let q = pieces(end@, '/').take(__it0.p@ as int + 1);
                    assert(q.drop_last() =~= pieces(end@, '/').take(__it0.p@ as int));
                    assert(q.last() == pieces(end@, '/')[__it0.p@ as int]);
                }
//@. at loop:0:after
        proof {
            assert(pieces(end@, '/').take(__it0.p@ as int) =~= pieces(end@, '/'));
        }
//@. at start
        proof {
            lemma_schemes();
            lemma_blen_ge(end@);
        }
//@end
}

// ------------------------------------------------------------------ rpc endpoints
/// The text after the last slash.
pub open spec fn tail_of(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 || s.last() == '/' { Seq::empty() } else { tail_of(s.drop_last()).push(s.last()) }
}

pub proof fn lemma_tail(s: Seq<char>)
    ensures
        forall|k: int| #[trigger] last_at(s, '/', k) ==> s.skip(k + 1) == tail_of(s),
        tail_of(s).len() <= s.len(),
    decreases s.len(),
{
    assert forall|k: int| #[trigger] last_at(s, '/', k) implies s.skip(k + 1) == tail_of(s) by {
        if k == s.len() - 1 {
            assert(s.skip(k + 1) =~= Seq::<char>::empty());
        } else {
            let d = s.drop_last();
            assert(s[s.len() - 1] != '/');
            assert(last_at(d, '/', k));
            lemma_tail(d);
            assert(s.skip(k + 1) =~= d.skip(k + 1).push(s.last()));
        }
    }
    if s.len() > 0 {
        lemma_tail(s.drop_last());
    }
}

impl RpcId {
//@fn core/network/src/endpoint.rs RpcId::value
//@. ensures
        r == self.0,
//@end
}

impl RpcEndpoint {
//@fn core/network/src/endpoint.rs RpcEndpoint::endpoint
//@. ensures
        *r == self.end,
//@end
//@fn core/network/src/endpoint.rs RpcEndpoint::rpc_id
//@. ensures
        r == self.rid,
//@end
//@fn core/network/src/endpoint.rs RpcEndpoint::extract_rpc_id_from
//@. requires
        end.wf(),
//@. ensures
        r is Ok <==> as_u64(tail_of(end.url())) is Some,
        r is Ok ==> as_u64(tail_of(end.url())) == Some(r->Ok_0.0),
//@. at start
        proof {
            let s = end.url();
            lemma_schemes();
            lemma_tail(s);
            assert(s[0] == '/');
            assert(s.contains('/'));
            assert forall|k: int| #[trigger] last_at(s, '/', k) implies 0 <= k + 1 <= s.len()
                && blen(s.take(k + 1)) == blen(s.take(k)) + 1 <= blen(s)
                && (blen(s) == blen(s.take(k)) + 1 <==> tail_of(s).len() == 0) by {
                assert(s.take(k + 1).drop_last() =~= s.take(k));
                assert(s =~= s.take(k + 1) + s.skip(k + 1));
                lemma_blen_add(s.take(k + 1), s.skip(k + 1));
                lemma_blen_ge(s.skip(k + 1));
            }
            assert forall|i: int, j: int| 0 <= i <= s.len() && 0 <= j <= s.len()
                && blen(#[trigger] s.take(i)) == blen(#[trigger] s.take(j)) implies i == j by {
                lemma_blen_inj(s, i, j);
            }
        }
//@end
}

/// What makes an rpc endpoint.
pub open spec fn rpc_ok(s: Seq<char>) -> bool {
    &&& ep_ok(s)
    &&& scheme_of(s) == Some(EndpointScheme::RpcCall) || scheme_of(s) == Some(EndpointScheme::RpcResponse)
    &&& as_u64(tail_of(s)) is Some
}

impl VxFromStr for RpcEndpoint {
    type Err = NetworkError;

    open spec fn reads(s: Seq<char>, r: Result<RpcEndpoint, NetworkError>) -> bool {
        &&& r is Ok <==> rpc_ok(s)
        &&& r is Ok ==> r->Ok_0.end.url() == s && as_u64(tail_of(s)) == Some(r->Ok_0.rid.0)
    }

//@fn core/network/src/endpoint.rs RpcEndpoint@FromStr::from_str
//@. nopub
//@. at start
        proof {
            lemma_schemes();
        }
//@end
}

impl RpcEndpoint {
//@fn core/network/src/endpoint.rs RpcEndpoint@TryFrom::try_from
//@. type "Self::Error" => "NetworkError"
//@. requires
        end.wf(),
//@. ensures
        RpcEndpoint::reads(end.url(), r),
//@. at start
        proof {
            lemma_schemes();
        }
//@end
}

// ------------------------------------------------------------------ C23
/// An endpoint of three components, extended by an id, is an rpc endpoint with that id and the same root.
pub proof fn c23_extend(s: Seq<char>, n: u64)
    requires
        ep_ok(s),
        comps(s).len() == 3,
        scheme_of(s) is Some && scheme_of(s)->0 != EndpointScheme::Gossip,
        blen(s) + 21 <= 120,
    ensures
        rpc_ok(s + seq!['/'] + no_slash(dec(n as nat))),
        as_u64(tail_of(s + seq!['/'] + no_slash(dec(n as nat)))) == Some(n),
        root_of(s + seq!['/'] + no_slash(dec(n as nat))) == root_of(s),
        scheme_of(s + seq!['/'] + no_slash(dec(n as nat))) == scheme_of(s),
{
    let d = dec(n as nat);
    let t = s + seq!['/'] + d;
    lemma_dec(n as nat);
    lemma_dec_u64(n);
    assert(pow10(20) == 100_000_000_000_000_000_000) by (compute);
    lemma_dec_len(n as nat, 20);
    assert(digit_val(d[0]) is Some);
    assert(no_slash(d) == d);
    assert(t =~= s.push('/') + d);
    lemma_pieces_cut(s, d, '/');
    lemma_pieces_plain(d, '/');
    lemma_kept_add(pieces(s, '/'), pieces(d, '/'));
    assert(kept(seq![d]) =~= seq![d]) by {
        assert(seq![d].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(kept(seq![d].drop_last()) =~= Seq::<Seq<char>>::empty());
        assert(seq![d].last() == d);
    }
    assert(comps(t) == comps(s).push(d));
    lemma_blen_add(s.push('/'), d);
    assert(s.push('/').drop_last() =~= s);
    lemma_schemes();
    lemma_prefix(s, t);
    let k = s.len() as int;
    assert(last_at(t, '/', k)) by {
        assert forall|j: int| k < j < t.len() implies t[j] != '/' by {
            assert(t[j] == d[j - k - 1]);
            assert(digit_val(d[j - k - 1]) is Some);
        }
    }
    lemma_tail(t);
    assert(t.skip(k + 1) =~= d);
}

pub proof fn lemma_prefix(s: Seq<char>, t: Seq<char>)
    requires
        s.is_prefix_of(t),
        scheme_of(s) is Some,
    ensures
        scheme_of(t) == scheme_of(s),
{
    lemma_schemes();
    assert forall|p: Seq<char>| p.is_prefix_of(s) implies #[trigger] p.is_prefix_of(t) by {
        assert(t.subrange(0, p.len() as int) =~= s.subrange(0, p.len() as int));
    }
}

pub open spec fn pow10(k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else { 10 * pow10((k - 1) as nat) }
}

pub proof fn lemma_dec_len(n: nat, k: nat)
    requires
        k >= 1,
        n < pow10(k),
    ensures
        dec(n).len() <= k,
    decreases k,
{
    if k > 1 && n >= 10 {
        lemma_dec_len(n / 10, (k - 1) as nat);
    } else if k == 1 {
        assert(pow10(1) == 10) by {
            assert(pow10(0) == 1);
        }
    }
}

/// Endpoints are equal exactly if their first three components agree.
pub proof fn c23_root(s: Seq<char>, t: Seq<char>)
    requires
        ep_ok(s),
        ep_ok(t),
    ensures
        root_of(s) == root_of(t) <==> comps(s).take(3) == comps(t).take(3),
{
    lemma_comps_plain(s);
    lemma_comps_plain(t);
    lemma_root_comps(s);
    lemma_root_comps(t);
    if comps(s).take(3) == comps(t).take(3) {
        assert forall|i: int| 0 <= i < 3 implies comps(s)[i] == #[trigger] comps(t)[i] by {
            assert(comps(s).take(3)[i] == comps(t).take(3)[i]);
        }
    }
}


pub proof fn lemma_pieces_no(s: Seq<char>, c: char)
    ensures
        forall|i: int| 0 <= i < pieces(s, c).len() ==> !(#[trigger] pieces(s, c)[i]).contains(c),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_pieces_no(s.drop_last(), c);
        lemma_pieces_some(s.drop_last(), c);
        let q = pieces(s.drop_last(), c);
        assert forall|i: int| 0 <= i < pieces(s, c).len() implies !(#[trigger] pieces(s, c)[i]).contains(c) by {
            if s.last() != c && i == q.len() - 1 {
                let x = q.last();
                let y = x.push(s.last());
                assert(pieces(s, c)[i] == y);
                if y.contains(c) {
                    let j = choose|j: int| 0 <= j < y.len() && y[j] == c;
                    assert(x[j] == c);
                }
            } else if s.last() == c && i == q.len() {
                assert(pieces(s, c)[i] == Seq::<char>::empty());
            } else {
                assert(pieces(s, c)[i] == q[i]);
            }
        }
    }
}

pub proof fn lemma_kept_in(p: Seq<Seq<char>>)
    ensures
        forall|i: int| 0 <= i < kept(p).len() ==> p.contains(#[trigger] kept(p)[i]) && kept(p)[i].len() > 0,
    decreases p.len(),
{
    if p.len() > 0 {
        lemma_kept_in(p.drop_last());
        assert forall|i: int| 0 <= i < kept(p).len() implies p.contains(#[trigger] kept(p)[i]) && kept(p)[i].len() > 0 by {
            let q = kept(p.drop_last());
            if i < q.len() {
                assert(kept(p)[i] == q[i]);
                let j = choose|j: int| 0 <= j < p.drop_last().len() && p.drop_last()[j] == q[i];
                assert(p[j] == q[i]);
            } else {
                assert(p[p.len() - 1] == kept(p)[i]);
            }
        }
    }
}

/// Components have no slash and are not empty.
pub proof fn lemma_comps_plain(s: Seq<char>)
    ensures
        forall|i: int| 0 <= i < comps(s).len() ==> !(#[trigger] comps(s)[i]).contains('/') && comps(s)[i].len() > 0,
{
    lemma_pieces_no(s, '/');
    lemma_kept_in(pieces(s, '/'));
}

/// The components of a root are the first three of the url.
pub proof fn lemma_root_comps(s: Seq<char>)
    requires
        comps(s).len() >= 3,
        forall|i: int| 0 <= i < 3 ==> !(#[trigger] comps(s)[i]).contains('/') && comps(s)[i].len() > 0,
    ensures
        comps(root_of(s)) == comps(s).take(3),
{
    let c = comps(s);
    let (a, b, d) = (c[0], c[1], c[2]);
    let e = Seq::<char>::empty();
    lemma_pieces_plain(a, '/');
    lemma_pieces_plain(b, '/');
    lemma_pieces_plain(d, '/');
    lemma_pieces_plain(e, '/');
    lemma_pieces_cut(e, a, '/');
    let s1 = e.push('/') + a;
    lemma_pieces_cut(s1, b, '/');
    let s2 = s1.push('/') + b;
    lemma_pieces_cut(s2, d, '/');
    let s3 = s2.push('/') + d;
    assert(root_of(s) =~= s3);
    let p = pieces(s3, '/');
    assert(p =~= seq![e, a, b, d]);
    assert(p.drop_last() =~= seq![e, a, b]);
    assert(p.drop_last().drop_last() =~= seq![e, a]);
    assert(p.drop_last().drop_last().drop_last() =~= seq![e]);
    assert(seq![e].drop_last() =~= Seq::<Seq<char>>::empty());
    assert(seq![e].last() == e);
    assert(kept(Seq::<Seq<char>>::empty()) =~= Seq::<Seq<char>>::empty());
    assert(kept(seq![e]) =~= Seq::<Seq<char>>::empty());
    assert(kept(seq![e, a]) =~= seq![a]);
    assert(kept(seq![e, a, b]) =~= seq![a, b]);
    assert(kept(p) =~= seq![a, b, d]);
    assert(c.take(3) =~= seq![a, b, d]);
}

} // verus!
