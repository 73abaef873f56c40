//@include base.vrs
//@type "Rc<$>" => "$"
//@type "Arc<$>" => "$"
//@type "Box<$>" => "$"
//@type "rocksdb::Error" => "RocksError"
//@type "DB" => "RocksDb"
//@path DB::open => RocksDb::open
//@path DB::open_cf => RocksDb::open_cf
//@method to_vec => vx_to_vec
//@method to_owned => vx_to_owned
//@method as_ref => vx_as_ref
verus! {

// ------------------------------------------------------------------ rocksdb
pub struct RocksError;

/// A database: named column families, each a map from byte strings to byte strings.
pub struct RocksDb {
    pub x: Ghost<Map<(Seq<char>, Seq<u8>), Seq<u8>>>,
    pub f: Ghost<Set<Seq<char>>>,
}

#[derive(Copy, Clone)]
pub struct ColumnFamily {
    pub n: Ghost<Seq<char>>,
}

pub struct Options;

pub struct DBVector {
    pub s: Ghost<Seq<u8>>,
}

impl DBVector {
    #[verifier::external_body]
    pub fn vx_to_vec(&self) -> (r: Vec<u8>)
        ensures
            r@ == self.s@,
    {
        unimplemented!()
    }
}

/// A write: to this column family and key, this value, or none to delete.
pub type Op = ((Seq<char>, Seq<u8>), Option<Seq<u8>>);

pub type DbMap = Map<(Seq<char>, Seq<u8>), Seq<u8>>;

pub open spec fn do_op(m: DbMap, o: Op) -> DbMap {
    match o.1 {
        Some(v) => m.insert(o.0, v),
        None => m.remove(o.0),
    }
}

pub open spec fn do_ops(m: DbMap, o: Seq<Op>) -> DbMap
    decreases o.len(),
{
    if o.len() == 0 {
        m
    } else {
        do_op(do_ops(m, o.drop_last()), o.last())
    }
}

pub struct WriteBatch {
    pub o: Ghost<Seq<Op>>,
}

impl WriteBatch {
    #[verifier::external_body]
    pub fn default() -> (r: WriteBatch)
        ensures
            r.o@ == Seq::<Op>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn put_cf<K: VxBytes, V: VxBytes>(&mut self, cf: ColumnFamily, key: K, value: V) -> (r: Result<(), RocksError>)
        ensures
            r is Ok ==> final(self).o@ == old(self).o@.push(((cf.n@, key.vb()), Some(value.vb()))),
            r is Err ==> final(self).o@ == old(self).o@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn delete_cf<K: VxBytes>(&mut self, cf: ColumnFamily, key: K) -> (r: Result<(), RocksError>)
        ensures
            r is Ok ==> final(self).o@ == old(self).o@.push(((cf.n@, key.vb()), None)),
            r is Err ==> final(self).o@ == old(self).o@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn put<K: VxBytes, V: VxBytes>(&mut self, key: K, value: V) -> (r: Result<(), RocksError>)
        ensures
            r is Ok ==> final(self).o@ == old(self).o@.push(((default_cf(), key.vb()), Some(value.vb()))),
            r is Err ==> final(self).o@ == old(self).o@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn delete<K: VxBytes>(&mut self, key: K) -> (r: Result<(), RocksError>)
        ensures
            r is Ok ==> final(self).o@ == old(self).o@.push(((default_cf(), key.vb()), None)),
            r is Err ==> final(self).o@ == old(self).o@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }
}

pub uninterp spec fn default_cf() -> Seq<char>;

impl Options {
    #[verifier::external_body]
    pub fn default() -> Options {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn create_if_missing(&mut self, b: bool) {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn create_missing_column_families(&mut self, b: bool) {
        unimplemented!()
    }
}

impl RocksDb {
    #[verifier::external_body]
    pub fn open_cf<'a, P>(opts: &Options, path: P, names: VxRefIter<'a, &'static str>) -> (r: Result<RocksDb, RocksError>)
        ensures
            r is Ok ==> forall|i: int| 0 <= i < names.s@.len() ==> r->Ok_0.f@.contains((#[trigger] names.s@[i])@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn open<P>(opts: &Options, path: P) -> (r: Result<RocksDb, RocksError>) {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn cf_handle(&self, name: &str) -> (r: Option<ColumnFamily>)
        ensures
            r is Some <==> self.f@.contains(name@),
            r is Some ==> r->0.n@ == name@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get_cf<K: VxBytes>(&self, cf: ColumnFamily, key: K) -> (r: Result<Option<DBVector>, RocksError>)
        ensures
            r is Ok && self.x@.contains_key((cf.n@, key.vb())) ==> r->Ok_0 is Some && r->Ok_0->0.s@ == self.x@[(cf.n@, key.vb())],
            r is Ok && !self.x@.contains_key((cf.n@, key.vb())) ==> r->Ok_0 is None,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get<K: VxBytes>(&self, key: K) -> (r: Result<Option<DBVector>, RocksError>)
        ensures
            r is Ok && self.x@.contains_key((default_cf(), key.vb())) ==> r->Ok_0 is Some && r->Ok_0->0.s@ == self.x@[(default_cf(), key.vb())],
            r is Ok && !self.x@.contains_key((default_cf(), key.vb())) ==> r->Ok_0 is None,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn put_cf<K: VxBytes, V: VxBytes>(&mut self, cf: ColumnFamily, key: K, value: V) -> (r: Result<(), RocksError>)
        ensures
            final(self).f == old(self).f,
            r is Ok ==> final(self).x@ == old(self).x@.insert((cf.n@, key.vb()), value.vb()),
            r is Err ==> final(self).x@ == old(self).x@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn put<K: VxBytes, V: VxBytes>(&mut self, key: K, value: V) -> (r: Result<(), RocksError>)
        ensures
            final(self).f == old(self).f,
            r is Ok ==> final(self).x@ == old(self).x@.insert((default_cf(), key.vb()), value.vb()),
            r is Err ==> final(self).x@ == old(self).x@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn delete_cf<K: VxBytes>(&mut self, cf: ColumnFamily, key: K) -> (r: Result<(), RocksError>)
        ensures
            final(self).f == old(self).f,
            r is Ok ==> final(self).x@ == old(self).x@.remove((cf.n@, key.vb())),
            r is Err ==> final(self).x@ == old(self).x@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn delete<K: VxBytes>(&mut self, key: K) -> (r: Result<(), RocksError>)
        ensures
            final(self).f == old(self).f,
            r is Ok ==> final(self).x@ == old(self).x@.remove((default_cf(), key.vb())),
            r is Err ==> final(self).x@ == old(self).x@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }

    /// A batch is written entirely or not at all.
    #[verifier::external_body]
    pub fn write(&mut self, batch: WriteBatch) -> (r: Result<(), RocksError>)
        ensures
            final(self).f == old(self).f,
            r is Ok ==> final(self).x@ == do_ops(old(self).x@, batch.o@),
            r is Err ==> final(self).x@ == old(self).x@,
            io_ok() ==> r is Ok,
    {
        unimplemented!()
    }
}

} // verus!
