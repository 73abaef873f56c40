//@include rocks.vrs
//@type "Self::Error" => "RocksTrieDBError"
verus! {

//@item core/executor/src/trie/trie_db.rs enum RocksTrieDBError
impl core::convert::From<RocksError> for RocksTrieDBError {
    #[verifier::external_body]
    fn from(e: RocksError) -> RocksTrieDBError {
        unimplemented!()
    }
}

impl core::convert::From<RocksTrieDBError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: RocksTrieDBError) -> ProtocolError {
        unimplemented!()
    }
}

//@item core/executor/src/trie/trie_db.rs struct RocksTrieDB
impl RocksTrieDB {
    /// The nodes stored.
    pub open spec fn nodes(&self) -> DbMap {
        self.db.x@
    }

    pub open spec fn has(&self, k: Seq<u8>) -> bool {
        self.db.x@.contains_key((default_cf(), k))
    }

    pub open spec fn at(&self, k: Seq<u8>) -> Seq<u8> {
        self.db.x@[(default_cf(), k)]
    }
}

/// The last of the first `n` pairs whose key is `k`.
pub open spec fn last_at(keys: Seq<Vec<u8>>, k: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 {
        -1
    } else if keys[n - 1]@ == k {
        n - 1
    } else {
        last_at(keys, k, n - 1)
    }
}

pub proof fn lemma_last_at(keys: Seq<Vec<u8>>, k: Seq<u8>, n: int)
    requires
        0 <= n <= keys.len(),
    ensures
        -1 <= last_at(keys, k, n) < n,
        last_at(keys, k, n) >= 0 ==> keys[last_at(keys, k, n)]@ == k,
        forall|i: int| last_at(keys, k, n) < i < n ==> (#[trigger] keys[i])@ != k,
    decreases n,
{
    if n > 0 && keys[n - 1]@ != k {
        lemma_last_at(keys, k, n - 1);
    }
}

pub proof fn lemma_push(m: DbMap, o: Seq<Op>, x: Op)
    ensures
        do_ops(m, o.push(x)) == do_op(do_ops(m, o), x),
{
    assert(o.push(x).drop_last() =~= o);
}

/// Every pair is stored (the last one wins when a key is repeated), and nothing else changes.
pub open spec fn put_all(a: DbMap, b: DbMap, keys: Seq<Vec<u8>>, values: Seq<Vec<u8>>, n: int) -> bool {
    &&& forall|k: Seq<u8>| last_at(keys, k, n) >= 0 ==> #[trigger] b.contains_key((default_cf(), k)) && b[(default_cf(), k)] == values[last_at(keys, k, n)]@
    &&& forall|c: Seq<char>, k: Seq<u8>| c != default_cf() || last_at(keys, k, n) < 0 ==> (#[trigger] b.contains_key((c, k)) <==> a.contains_key((c, k)))
    &&& forall|c: Seq<char>, k: Seq<u8>| #[trigger] a.contains_key((c, k)) && (c != default_cf() || last_at(keys, k, n) < 0) ==> b[(c, k)] == a[(c, k)]
}

/// Exactly the named keys are gone.
pub open spec fn removed_all(a: DbMap, b: DbMap, keys: Seq<Vec<u8>>, n: int) -> bool {
    &&& forall|k: Seq<u8>| last_at(keys, k, n) >= 0 ==> !#[trigger] b.contains_key((default_cf(), k))
    &&& forall|c: Seq<char>, k: Seq<u8>| c != default_cf() || last_at(keys, k, n) < 0 ==> (#[trigger] b.contains_key((c, k)) <==> a.contains_key((c, k)))
    &&& forall|c: Seq<char>, k: Seq<u8>| #[trigger] a.contains_key((c, k)) && (c != default_cf() || last_at(keys, k, n) < 0) ==> b[(c, k)] == a[(c, k)]
}

impl RocksTrieDB {
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::new key RocksTrieDB::new
//@. generics <P>
//@. ensures
        r is Ok ==> r->Ok_0.light == light,
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::get key RocksTrieDB::get
//@. ensures
        r is Ok && self.has(key@) ==> r->Ok_0 is Some && r->Ok_0->0@ == self.at(key@),
        r is Ok && !self.has(key@) ==> r->Ok_0 is None,
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::contains key RocksTrieDB::contains
//@. ensures
        r is Ok ==> r->Ok_0 == self.has(key@),
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::insert key RocksTrieDB::insert
//@. self mut
//@. ensures
        final(self).light == old(self).light,
        r is Ok ==> final(self).nodes() == old(self).nodes().insert((default_cf(), key@), value@),
        r is Err ==> final(self).nodes() == old(self).nodes(),
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::insert_batch key RocksTrieDB::insert_batch
//@. self mut
//@. ensures
        final(self).light == old(self).light,
        keys@.len() != values@.len() ==> r is Err,
        r is Ok ==> put_all(old(self).nodes(), final(self).nodes(), keys@, values@, keys@.len() as int),
        r is Err ==> final(self).nodes() == old(self).nodes(),
        io_ok() && keys@.len() == values@.len() ==> r is Ok,
//@. loop 0
        invariant
            keys@.len() == values@.len(),
            self.light == old(self).light,
            self.db == old(self).db,
            __it0.s@.len() == keys@.len(),
            forall|i: int| 0 <= i < keys@.len() ==> #[trigger] __it0.s@[i] == i,
            __it0.p@ <= __it0.s@.len(),
            put_all(old(self).nodes(), do_ops(old(self).nodes(), batch.o@), keys@, values@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        let ghost o0 = batch.o@;
        let ghost p0 = __it0.p@;
//@. at loop:0:end
        proof {
            let m = old(self).nodes();
            assert(batch.o@ == o0.push(((default_cf(), keys@[p0 as int]@), Some(values@[p0 as int]@))));
            lemma_push(m, o0, batch.o@.last());
            assert forall|k: Seq<u8>| true implies last_at(keys@, k, p0 as int + 1) == (if keys@[p0 as int]@ == k { p0 as int } else { last_at(keys@, k, p0 as int) }) by {}
        }
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::remove key RocksTrieDB::remove
//@. self mut
//@. ensures
        final(self).light == old(self).light,
        !old(self).light ==> final(self).nodes() == old(self).nodes(),
        old(self).light && r is Ok ==> final(self).nodes() == old(self).nodes().remove((default_cf(), key@)),
        r is Err ==> final(self).nodes() == old(self).nodes(),
        io_ok() ==> r is Ok,
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::remove_batch key RocksTrieDB::remove_batch
//@. self mut
//@. ensures
        final(self).light == old(self).light,
        !old(self).light ==> final(self).nodes() == old(self).nodes(),
        old(self).light && r is Ok ==> removed_all(old(self).nodes(), final(self).nodes(), keys@, keys@.len() as int),
        r is Err ==> final(self).nodes() == old(self).nodes(),
        io_ok() ==> r is Ok,
//@. loop 0
        invariant
            self.light == old(self).light,
            self.db == old(self).db,
            __it0.s@ == keys@,
            __it0.p@ <= __it0.s@.len(),
            removed_all(old(self).nodes(), do_ops(old(self).nodes(), batch.o@), keys@, __it0.p@ as int),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        let ghost o0 = batch.o@;
        let ghost p0 = __it0.p@;
//@. at loop:0:end
        proof {
            let m = old(self).nodes();
            assert(batch.o@ == o0.push(((default_cf(), keys@[p0 as int]@), None)));
            lemma_push(m, o0, batch.o@.last());
            assert forall|k: Seq<u8>| true implies last_at(keys@, k, p0 as int + 1) == (if keys@[p0 as int]@ == k { p0 as int } else { last_at(keys@, k, p0 as int) }) by {}
        }
//@end
//@fn core/executor/src/trie/trie_db.rs RocksTrieDB::flush key RocksTrieDB::flush
//@. ensures
        r is Ok,
//@end
}

// ------------------------------------------------------------------ C08
/// In archive mode no operation makes a stored node unreadable (overwriting a key stores the new value).
fn c08_archive(db: &mut RocksTrieDB, k: &[u8], ks: &Vec<Vec<u8>>)
    requires
        !old(db).light,
    ensures
        final(db).nodes() == old(db).nodes(),
{
    let _ = db.remove(k);
    let _ = db.remove_batch(ks.as_slice());
    let _ = db.flush();
}

/// What a batch stores is read back.
proof fn c08_batch_read(a: RocksTrieDB, b: RocksTrieDB, keys: Seq<Vec<u8>>, values: Seq<Vec<u8>>, i: int)
    requires
        put_all(a.nodes(), b.nodes(), keys, values, keys.len() as int),
        keys.len() == values.len(),
        0 <= i < keys.len(),
        forall|j: int| i < j < keys.len() ==> (#[trigger] keys[j])@ != keys[i]@,
    ensures
        b.has(keys[i]@),
        b.at(keys[i]@) == values[i]@,
{
    lemma_last_at(keys, keys[i]@, keys.len() as int);
}

} // verus!
