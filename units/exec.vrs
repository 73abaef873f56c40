//@include ledger.vrs assume
//@lazy ACCOUNT_CONTRACT_ADDRESS
//@lazy BANK_CONTRACT_ADDRESS
//@heapfn self.from_root hs hd
//@heapfn *.trie.insert
verus! {

// ------------------------------------------------------------------ the ledger
//@item core/executor/src/lib.rs struct TransactionExecutor drop_generics
//@item core/executor/src/lib.rs enum TransactionExecutorError
//@item protocol/src/traits/executor/mod.rs struct ExecutorExecResp
pub struct ParseIntError;

impl core::convert::From<TransactionExecutorError> for ProtocolError {
    #[verifier::external_body]
    fn from(e: TransactionExecutorError) -> ProtocolError {
        unimplemented!()
    }
}

impl core::convert::From<hex::FromHexError> for TransactionExecutorError {
    #[verifier::external_body]
    fn from(e: hex::FromHexError) -> TransactionExecutorError {
        unimplemented!()
    }
}

/// The accounts and the asset registry.
pub struct Led {
    pub acc: KV,
    pub bank: KV,
}

pub open spec fn acc_bytes() -> Seq<u8> {
    seq![0x23u8, 0xC0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 1u8]
}

pub open spec fn bank_bytes() -> Seq<u8> {
    seq![0x23u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 2u8]
}

pub open spec fn addr_of(s: Seq<u8>) -> Address {
    choose|a: Address| address_wf(a) && a@ == s
}

pub open spec fn user_of(s: Seq<u8>) -> UserAddress {
    choose|a: UserAddress| user_wf(a) && a@ == s
}

pub open spec fn contract_of(s: Seq<u8>) -> ContractAddress {
    choose|a: ContractAddress| contract_wf(a) && a@ == s
}

pub proof fn lemma_of()
    ensures
        forall|a: Address| address_wf(a) ==> addr_of(#[trigger] a@) == a,
        forall|a: UserAddress| user_wf(a) ==> user_of(#[trigger] a@) == a,
        forall|a: ContractAddress| contract_wf(a) ==> contract_of(#[trigger] a@) == a,
        acc_bytes() != bank_bytes(),
{
    assert forall|a: Address| address_wf(a) implies addr_of(#[trigger] a@) == a by {
        lemma_addr_ext(addr_of(a@), a);
    }
    assert forall|a: UserAddress| user_wf(a) implies user_of(#[trigger] a@) == a by {
        let b = user_of(a@);
        assert(user_wf(b) && b@ == a@);
        assert(b.inner.0@ == a.inner.0@);
    }
    assert forall|a: ContractAddress| contract_wf(a) implies contract_of(#[trigger] a@) == a by {
        let b = contract_of(a@);
        assert(contract_wf(b) && b@ == a@);
        assert(b.inner.0@ == a.inner.0@);
    }
    assert(acc_bytes()[1] != bank_bytes()[1]);
}

//@fn core/executor/src/native_contract/mod.rs ACCOUNT_CONTRACT_ADDRESS as ACCOUNT_CONTRACT_ADDRESS_lazy key native_contract::ACCOUNT_CONTRACT_ADDRESS lazy
//@. ensures
        address_wf(r),
        r@ == acc_bytes(),
//@. at start
        proof {
            reveal_strlit("0x23C000000000000000000000000000000000000001");
            assert(no0x("0x23C000000000000000000000000000000000000001"@) =~= "0x23C000000000000000000000000000000000000001"@.skip(2));
            assert(hex_dec(no0x("0x23C000000000000000000000000000000000000001"@)) =~= acc_bytes());
        }
//@end
//@fn core/executor/src/native_contract/mod.rs BANK_CONTRACT_ADDRESS as BANK_CONTRACT_ADDRESS_lazy key native_contract::BANK_CONTRACT_ADDRESS lazy
//@. ensures
        address_wf(r),
        r@ == bank_bytes(),
//@. at start
        proof {
            reveal_strlit("0x230000000000000000000000000000000000000002");
            assert(no0x("0x230000000000000000000000000000000000000002"@) =~= "0x230000000000000000000000000000000000000002"@.skip(2));
            assert(hex_dec(no0x("0x230000000000000000000000000000000000000002"@)) =~= bank_bytes());
        }
//@end

pub open spec fn acc_addr() -> Address {
    addr_of(acc_bytes())
}

pub open spec fn bank_addr() -> Address {
    addr_of(bank_bytes())
}

pub struct Env {
    pub chain: Hash,
    pub epoch: u64,
    pub price: u64,
    pub coinbase: Address,
}

// ------------------------------------------------------------------ what one transaction does
pub open spec fn sender(tx: SignedTransaction) -> Address {
    Address::User(user_of(seq![0x10u8] + keccak(tx.pubkey@).take(20)))
}

pub open spec fn ctx_for(e: Env, tx: SignedTransaction) -> InvokeContext {
    InvokeContext {
        chain_id: e.chain,
        cycles_used: 0,
        cycles_limit: tx.raw.fee.cycle,
        fee_asset_id: tx.raw.fee.asset_id,
        cycles_price: e.price,
        epoch_id: e.epoch,
        caller: sender(tx),
        coinbase: e.coinbase,
        carrying_asset: match tx.raw.action {
            TransactionAction::Transfer { carrying_asset, .. } => Some(carrying_asset),
            TransactionAction::Call { carrying_asset, .. } => carrying_asset,
            _ => None,
        },
    }
}

pub open spec fn tx_wf(tx: SignedTransaction) -> bool {
    tx.raw.action is Transfer ==> user_wf(tx.raw.action->receiver)
}

/// The asset a deployment registers.
pub open spec fn deployed(l: Led, e: Env, tx: SignedTransaction) -> Asset {
    let code = tx.raw.action->code;
    let at = contract_of(seq![0x20u8] + keccak(code@ + be8(nonce(l.acc, sender(tx)))).take(20));
    new_asset(e.chain, at, string_of("System token"@), string_of("ST"@), big(21_000_000_000_000_000))
}

/// When a transaction succeeds.
pub open spec fn tx_ok(l: Led, e: Env, tx: SignedTransaction) -> bool {
    let from = sender(tx);
    match tx.raw.action {
        TransactionAction::Transfer { receiver, carrying_asset } => {
            &&& has_asset(l.bank, carrying_asset.asset_id) && asset_of(l.bank, carrying_asset.asset_id) is Some
            &&& has_acct(l.acc, from) && readable(l.acc, from) && readable(l.acc, Address::User(receiver))
            &&& can_debit(l.acc, from, carrying_asset.asset_id, carrying_asset.amount@)
            &&& 210 <= tx.raw.fee.cycle
        },
        TransactionAction::Deploy { code, contract_type } => {
            &&& contract_type is Asset
            &&& has_acct(l.acc, from) && readable(l.acc, from)
            &&& !has_asset(l.bank, deployed(l, e, tx).id)
            &&& 2100 <= tx.raw.fee.cycle
        },
        _ => false,
    }
}

/// What it then does to the ledger.
pub open spec fn tx_eff(l: Led, e: Env, tx: SignedTransaction) -> Led {
    match tx.raw.action {
        TransactionAction::Transfer { receiver, carrying_asset } => Led {
            acc: moved(l.acc, sender(tx), Address::User(receiver), carrying_asset.asset_id, carrying_asset.amount@),
            bank: l.bank,
        },
        _ => Led { acc: l.acc, bank: reg(l.bank, deployed(l, e, tx)) },
    }
}

pub open spec fn tx_cost(tx: SignedTransaction) -> u64 {
    if tx.raw.action is Transfer { 210 } else { 2100 }
}

pub open spec fn tx_result(l: Led, e: Env, tx: SignedTransaction) -> ReceiptResult {
    match tx.raw.action {
        TransactionAction::Transfer { receiver, carrying_asset } => ReceiptResult::Transfer {
            receiver: receiver,
            asset_id: carrying_asset.asset_id,
            before_amount: big(bal(l.acc, sender(tx), carrying_asset.asset_id)),
            after_amount: big(bal(tx_eff(l, e, tx).acc, sender(tx), carrying_asset.asset_id)),
        },
        _ => ReceiptResult::Deploy { contract: deployed(l, e, tx).manage_contract, contract_type: ContractType::Asset },
    }
}

/// One transaction took the ledger from `l` to `l2` and left the receipt `rc` (its state root apart).
pub open spec fn step(l: Led, l2: Led, e: Env, tx: SignedTransaction, rc: Receipt) -> bool {
    let mid = if rc.result is Fail { l } else { tx_eff(l, e, tx) };
    &&& rc.tx_hash == tx.tx_hash
    &&& rc.epoch_id == e.epoch
    &&& rc.cycles_used.asset_id == tx.raw.fee.asset_id
    &&& rc.cycles_used.cycle <= 2100 * e.price
    &&& rc.result is Fail ==> (io_ok() ==> !tx_ok(l, e, tx) && rc.cycles_used.cycle == 0)
    &&& !(rc.result is Fail) ==> {
        &&& tx_ok(l, e, tx)
        &&& rc.result == tx_result(l, e, tx)
        &&& rc.cycles_used.cycle == tx_cost(tx) * e.price
    }
    &&& readable(mid.acc, sender(tx))
    &&& l2 == (Led { acc: bump(mid.acc, sender(tx)), bank: mid.bank })
}

/// `ls[i]` is the ledger before transaction `i`.
pub open spec fn ran(l0: Led, e: Env, txs: Seq<SignedTransaction>, rs: Seq<Receipt>, ls: Seq<Led>) -> bool {
    &&& rs.len() == txs.len()
    &&& ls.len() == txs.len() + 1
    &&& ls[0] == l0
    &&& forall|i: int| 0 <= i < txs.len() ==> #[trigger] step(ls[i], ls[i + 1], e, txs[i], rs[i])
}

// ------------------------------------------------------------------ fees
pub open spec fn fee_add(fs: Seq<Fee>, f: Fee) -> Seq<Fee>
    decreases fs.len(),
{
    if fs.len() == 0 {
        seq![f]
    } else if fs[0].asset_id == f.asset_id {
        fs.update(0, Fee { asset_id: f.asset_id, cycle: (fs[0].cycle + f.cycle) as u64 })
    } else {
        seq![fs[0]] + fee_add(fs.skip(1), f)
    }
}

pub open spec fn totals(fs: Seq<Fee>) -> Seq<Fee>
    decreases fs.len(),
{
    if fs.len() == 0 {
        Seq::empty()
    } else {
        fee_add(totals(fs.drop_last()), fs.last())
    }
}

pub open spec fn fees_of(rs: Seq<Receipt>) -> Seq<Fee> {
    Seq::new(rs.len(), |i: int| rs[i].cycles_used)
}

/// The sum of the fees in one asset.
pub open spec fn fee_sum(fs: Seq<Fee>, id: Hash) -> nat
    decreases fs.len(),
{
    if fs.len() == 0 {
        0
    } else {
        fee_sum(fs.drop_last(), id) + if fs.last().asset_id == id { fs.last().cycle as nat } else { 0 }
    }
}

pub open spec fn fee_room(fs: Seq<Fee>, f: Fee) -> bool {
    forall|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).asset_id == f.asset_id ==> fs[i].cycle + f.cycle <= u64::MAX
}

pub open spec fn fee_ids(fs: Seq<Fee>) -> bool {
    forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).asset_id != (#[trigger] fs[j]).asset_id
}

/// The coinbase after the first `k` totals were credited to it.
pub open spec fn credits(m: KV, who: Address, fs: Seq<Fee>, k: nat) -> KV
    decreases k,
{
    if k == 0 {
        m
    } else {
        credit(credits(m, who, fs, (k - 1) as nat), who, fs[k - 1].asset_id, fs[k - 1].cycle as nat)
    }
}

pub proof fn lemma_fee_sum_cons(f: Fee, fs: Seq<Fee>, id: Hash)
    ensures
        fee_sum(seq![f] + fs, id) == fee_sum(fs, id) + if f.asset_id == id { f.cycle as nat } else { 0 },
    decreases fs.len(),
{
    let a = seq![f] + fs;
    if fs.len() == 0 {
        assert(a =~= seq![f]);
        assert(a.drop_last() =~= Seq::<Fee>::empty());
        assert(fee_sum(a.drop_last(), id) == 0);
    } else {
        assert(a.drop_last() =~= seq![f] + fs.drop_last());
        assert(a.last() == fs.last());
        lemma_fee_sum_cons(f, fs.drop_last(), id);
    }
}

pub proof fn lemma_fee_add(fs: Seq<Fee>, f: Fee, id: Hash)
    requires
        fee_room(fs, f),
        fee_ids(fs),
    ensures
        fee_ids(fee_add(fs, f)),
        fee_sum(fee_add(fs, f), id) == fee_sum(fs, id) + if f.asset_id == id { f.cycle as nat } else { 0 },
        forall|i: int| 0 <= i < fee_add(fs, f).len() ==> (exists|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).asset_id == (#[trigger] fee_add(fs, f)[i]).asset_id) || fee_add(fs, f)[i].asset_id == f.asset_id,
    decreases fs.len(),
{
    let r = fee_add(fs, f);
    if fs.len() == 0 {
        assert(r =~= seq![f] + Seq::<Fee>::empty());
        lemma_fee_sum_cons(f, Seq::<Fee>::empty(), id);
    } else if fs[0].asset_id == f.asset_id {
        let g = Fee { asset_id: f.asset_id, cycle: (fs[0].cycle + f.cycle) as u64 };
        assert(fs =~= seq![fs[0]] + fs.skip(1));
        assert(r =~= seq![g] + fs.skip(1));
        lemma_fee_sum_cons(g, fs.skip(1), id);
        lemma_fee_sum_cons(fs[0], fs.skip(1), id);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).asset_id != (#[trigger] r[j]).asset_id by {
            assert(r[i].asset_id == fs[i].asset_id && r[j].asset_id == fs[j].asset_id);
        }
        assert forall|i: int| 0 <= i < r.len() implies (exists|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).asset_id == (#[trigger] r[i]).asset_id) || r[i].asset_id == f.asset_id by {
            assert(fs[i].asset_id == r[i].asset_id);
        }
    } else {
        let t = fs.skip(1);
        assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).asset_id == f.asset_id implies t[i].cycle + f.cycle <= u64::MAX by {
            assert(t[i] == fs[i + 1]);
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).asset_id != (#[trigger] t[j]).asset_id by {
            assert(t[i] == fs[i + 1] && t[j] == fs[j + 1]);
        }
        lemma_fee_add(t, f, id);
        let u = fee_add(t, f);
        assert(fs =~= seq![fs[0]] + t);
        assert(r == seq![fs[0]] + u);
        lemma_fee_sum_cons(fs[0], t, id);
        lemma_fee_sum_cons(fs[0], u, id);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]).asset_id != fs[0].asset_id by {
            if u[i].asset_id != f.asset_id {
                let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).asset_id == u[i].asset_id;
                assert(t[j] == fs[j + 1]);
                assert(fs[0].asset_id != fs[j + 1].asset_id);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).asset_id != (#[trigger] r[j]).asset_id by {
            if i > 0 {
                assert(r[i] == u[i - 1] && r[j] == u[j - 1]);
            } else {
                assert(r[j] == u[j - 1]);
            }
        }
        assert forall|i: int| 0 <= i < r.len() implies (exists|j: int| 0 <= j < fs.len() && (#[trigger] fs[j]).asset_id == (#[trigger] r[i]).asset_id) || r[i].asset_id == f.asset_id by {
            if i == 0 {
                assert(fs[0].asset_id == r[0].asset_id);
            } else {
                assert(r[i] == u[i - 1]);
                if u[i - 1].asset_id != f.asset_id {
                    let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).asset_id == u[i - 1].asset_id;
                    assert(t[j] == fs[j + 1]);
                }
            }
        }
    }
}

/// A single entry never exceeds the sum over its asset.
pub proof fn lemma_fee_entry(fs: Seq<Fee>, i: int)
    requires
        0 <= i < fs.len(),
    ensures
        fs[i].cycle <= fee_sum(fs, fs[i].asset_id),
    decreases fs.len(),
{
    if i < fs.len() - 1 {
        lemma_fee_entry(fs.drop_last(), i);
    }
}

/// The totals: one entry per asset, each the sum of the receipts' fees in it.
pub proof fn lemma_totals(fs: Seq<Fee>, per: nat, id: Hash)
    requires
        forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).cycle <= per,
        per * fs.len() <= u64::MAX,
    ensures
        fee_ids(totals(fs)),
        fee_sum(totals(fs), id) == fee_sum(fs, id),
        fee_sum(fs, id) <= per * fs.len(),
        fs.len() > 0 ==> fee_room(totals(fs.drop_last()), fs.last()),
    decreases fs.len(),
{
    if fs.len() > 0 {
        let d = fs.drop_last();
        assert(per * fs.len() == per * d.len() + per) by (nonlinear_arith)
            requires
                fs.len() == d.len() + 1,
        ;
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).cycle <= per by {
            assert(d[i] == fs[i]);
        }
        lemma_totals(d, per, id);
        let t = totals(d);
        assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).asset_id == fs.last().asset_id implies t[i].cycle + fs.last().cycle <= u64::MAX by {
            lemma_fee_entry(t, i);
            lemma_totals(d, per, t[i].asset_id);
        }
        lemma_fee_add(t, fs.last(), id);
    }
}

pub open spec fn first_fee(fs: Seq<Fee>, f: Fee, k: int) -> bool {
    &&& 0 <= k < fs.len()
    &&& fs[k].asset_id == f.asset_id
    &&& forall|j: int| 0 <= j < k ==> (#[trigger] fs[j]).asset_id != f.asset_id
}

pub proof fn lemma_fee_at(fs: Seq<Fee>, f: Fee)
    ensures
        forall|k: int| #[trigger] first_fee(fs, f, k) ==> fee_add(fs, f) == fs.update(k, Fee { asset_id: f.asset_id, cycle: (fs[k].cycle + f.cycle) as u64 }),
        (forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).asset_id != f.asset_id) ==> fee_add(fs, f) == fs.push(f),
    decreases fs.len(),
{
    if fs.len() == 0 {
        assert(fee_add(fs, f) =~= fs.push(f));
    } else if fs[0].asset_id == f.asset_id {
    } else {
        let t = fs.skip(1);
        lemma_fee_at(t, f);
        assert forall|k: int| #[trigger] first_fee(fs, f, k) implies fee_add(fs, f) == fs.update(k, Fee { asset_id: f.asset_id, cycle: (fs[k].cycle + f.cycle) as u64 }) by {
            assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] t[j]).asset_id != f.asset_id by {
                assert(t[j] == fs[j + 1]);
            }
            assert(t[k - 1] == fs[k]);
            assert(first_fee(t, f, k - 1));
            assert(fee_add(fs, f) =~= fs.update(k, Fee { asset_id: f.asset_id, cycle: (fs[k].cycle + f.cycle) as u64 }));
        }
        if forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).asset_id != f.asset_id {
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).asset_id != f.asset_id by {
                assert(t[j] == fs[j + 1]);
            }
            assert(fee_add(fs, f) =~= fs.push(f));
        }
    }
}

//@fn core/executor/src/lib.rs modify_all_cycles_used key exec::modify_all_cycles_used
//@. requires
        fee_room(old(all_cycles_used)@, *cycles_used),
//@. ensures
        final(all_cycles_used)@ == fee_add(old(all_cycles_used)@, *cycles_used),
//@. at start
        proof {
            lemma_fee_at(old(all_cycles_used)@, *cycles_used);
        }
//@. at loop:0:start
        proof {
            if all_cycles_used@[__i0 as int].asset_id == cycles_used.asset_id {
                lemma_fee_at(old(all_cycles_used)@, *cycles_used);
                assert(first_fee(old(all_cycles_used)@, *cycles_used, __i0 as int));
            }
        }
//@. loop 0
        invariant
            all_cycles_used@ == old(all_cycles_used)@,
            __len0 == all_cycles_used@.len(),
            fee_room(old(all_cycles_used)@, *cycles_used),
            0 <= __i0 <= __len0,
            forall|j: int| 0 <= j < __i0 ==> (#[trigger] all_cycles_used@[j]).asset_id != cycles_used.asset_id,
        decreases __len0 - __i0,
//@end

// ------------------------------------------------------------------ transfers, as mathematics
/// What a successful transfer changes, seen account by account.
pub proof fn lemma_moved(m: KV, from: Address, to: Address, id: Hash, n: nat, b: Address, id2: Hash)
    requires
        address_wf(from),
        address_wf(to),
        address_wf(b),
        can_debit(m, from, id, n),
    ensures
        from != to && b == from && id2 == id ==> bal(moved(m, from, to, id, n), b, id2) == bal(m, b, id2) - n,
        from != to && b == to && id2 == id ==> bal(moved(m, from, to, id, n), b, id2) == bal(m, b, id2) + n,
        from == to || id2 != id || (b != from && b != to) ==> bal(moved(m, from, to, id, n), b, id2) == bal(m, b, id2),
        nonce(moved(m, from, to, id, n), b) == nonce(m, b),
        has_acct(moved(m, from, to, id, n), b) <==> has_acct(m, b) || b == from || b == to,
        readable(m, b) ==> readable(moved(m, from, to, id, n), b),
{
    let x = a_set(acct(m, from), id, (a_bal(acct(m, from), id) - n) as nat);
    let d = debit(m, from, id, n);
    lemma_put(m, from, x, b);
    lemma_put(m, from, x, to);
    lemma_put(d, to, a_set(acct(d, to), id, a_bal(acct(d, to), id) + n), b);
}

pub proof fn lemma_bump(m: KV, a: Address, b: Address, id: Hash)
    requires
        address_wf(a),
        address_wf(b),
    ensures
        bal(bump(m, a), b, id) == bal(m, b, id),
        a_has(acct(bump(m, a), b), id) == a_has(acct(m, b), id),
        nonce(bump(m, a), b) == if a == b { (nonce(m, b) + 1) as u64 } else { nonce(m, b) },
        has_acct(bump(m, a), b) <==> has_acct(m, b) || a == b,
        readable(m, b) ==> readable(bump(m, a), b),
{
    lemma_put(m, a, a_bump(acct(m, a)), b);
}

pub proof fn lemma_credit(m: KV, a: Address, id: Hash, n: nat, b: Address, id2: Hash)
    requires
        address_wf(a),
        address_wf(b),
    ensures
        bal(credit(m, a, id, n), b, id2) == bal(m, b, id2) + if a == b && id == id2 { n } else { 0 },
        nonce(credit(m, a, id, n), b) == nonce(m, b),
        has_acct(credit(m, a, id, n), b) <==> has_acct(m, b) || a == b,
        readable(m, b) ==> readable(credit(m, a, id, n), b),
{
    lemma_put(m, a, a_set(acct(m, a), id, a_bal(acct(m, a), id) + n), b);
}

/// No account is within `k` of the largest nonce.
pub open spec fn nroom(m: KV, k: int) -> bool {
    forall|a: Address| address_wf(a) ==> #[trigger] nonce(m, a) + k <= u64::MAX
}

pub proof fn lemma_sender(tx: SignedTransaction)
    ensures
        address_wf(sender(tx)),
        sender(tx)@ == seq![0x10u8] + keccak(tx.pubkey@).take(20),
{
    lemma_of();
    let s = seq![0x10u8] + keccak(tx.pubkey@).take(20);
    let u = vx_user(s);
    assert(user_wf(user_of(s)) && user_of(s)@ == s);
}

/// Every user address of the right form exists.
pub proof fn vx_user(s: Seq<u8>) -> (u: UserAddress)
    requires
        user_ok(s),
    ensures
        user_wf(u) && u@ == s,
{
    let a = arr21(s);
    UserAddress { inner: InnerAddress(a) }
}

pub proof fn vx_contract(s: Seq<u8>) -> (u: ContractAddress)
    requires
        contract_ok(s),
    ensures
        contract_wf(u) && u@ == s,
{
    let a = arr21(s);
    ContractAddress { inner: InnerAddress(a), contract_type: kind_of(s[0])->0 }
}

/// An array of the bytes.
pub axiom fn arr21(s: Seq<u8>) -> (a: [u8; 21])
    requires
        s.len() == 21,
    ensures
        a@ == s,
;

pub proof fn lemma_tx_preserves(l: Led, e: Env, tx: SignedTransaction, k: int)
    requires
        tx_wf(tx),
        tx_ok(l, e, tx),
    ensures
        accs_wf(l.acc) ==> accs_wf(tx_eff(l, e, tx).acc),
        nroom(l.acc, k) ==> nroom(tx_eff(l, e, tx).acc, k),
{
    lemma_sender(tx);
    if let TransactionAction::Transfer { receiver, carrying_asset } = tx.raw.action {
        assert forall|a: Address| address_wf(a) && accs_wf(l.acc) implies #[trigger] readable(tx_eff(l, e, tx).acc, a) by {
            assert(readable(l.acc, a));
            lemma_moved(l.acc, sender(tx), Address::User(receiver), carrying_asset.asset_id, carrying_asset.amount@, a, carrying_asset.asset_id);
        }
        assert forall|a: Address| address_wf(a) && nroom(l.acc, k) implies #[trigger] nonce(tx_eff(l, e, tx).acc, a) + k <= u64::MAX by {
            lemma_moved(l.acc, sender(tx), Address::User(receiver), carrying_asset.asset_id, carrying_asset.amount@, a, carrying_asset.asset_id);
        }
    }
}

pub proof fn lemma_bump_preserves(m: KV, a: Address, k: int)
    requires
        address_wf(a),
        k >= 1,
    ensures
        accs_wf(m) ==> accs_wf(bump(m, a)),
        nroom(m, k) ==> nroom(bump(m, a), k - 1),
{
    assert forall|b: Address| address_wf(b) && accs_wf(m) implies #[trigger] readable(bump(m, a), b) by {
        assert(readable(m, b));
        lemma_bump(m, a, b, empty_hash());
    }
    assert forall|b: Address| address_wf(b) && nroom(m, k) implies #[trigger] nonce(bump(m, a), b) + (k - 1) <= u64::MAX by {
        lemma_bump(m, a, b, empty_hash());
        assert(nonce(m, b) + k <= u64::MAX);
    }
}

pub proof fn lemma_credit_preserves(m: KV, a: Address, id: Hash, n: nat)
    requires
        address_wf(a),
    ensures
        accs_wf(m) ==> accs_wf(credit(m, a, id, n)),
{
    assert forall|b: Address| address_wf(b) && accs_wf(m) implies #[trigger] readable(credit(m, a, id, n), b) by {
        assert(readable(m, b));
        lemma_credit(m, a, id, n, b, id);
    }
}

// ------------------------------------------------------------------ the executor's cells
pub open spec fn cells_ok(m: Map<Address, StRc>, hs: StHeap) -> bool {
    &&& forall|a: Address| #[trigger] m.contains_key(a) ==> address_wf(a) && hs.m().contains_key(m[a].id()) && nz(hs.m()[m[a].id()])
    &&& forall|a: Address, b: Address| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && a != b ==> m[a].id() != m[b].id()
}

pub open spec fn same_at(c: KV, d: KV, k: Bytes) -> bool {
    (c.contains_key(k) <==> d.contains_key(k)) && (d.contains_key(k) ==> c[k] == d[k])
}

pub open spec fn seen(s: Seq<(Address, StRc)>, p: int, k: Bytes) -> bool {
    exists|j: int| 0 <= j < p && bytes_of((#[trigger] s[j]).0@) == k
}

pub open spec fn same_cells(h: StHeap, h2: StHeap) -> bool {
    forall|j: int| #![trigger h2.m().contains_key(j)] #![trigger h.m().contains_key(j)] h2.m().contains_key(j) <==> h.m().contains_key(j)
}

pub open spec fn stashed(x: StateAdapter, y: StateAdapter) -> bool {
    &&& y.trie == x.trie
    &&& y.cache_map@ == Map::<Bytes, Bytes>::empty()
    &&& y.base() == x.cur()
    &&& y.cur() == x.cur()
    &&& nz(x) ==> nz(y)
}

pub open spec fn reverted(x: StateAdapter, y: StateAdapter) -> bool {
    &&& y.trie == x.trie
    &&& y.cache_map@ == Map::<Bytes, Bytes>::empty()
    &&& y.base() == x.base()
    &&& y.cur() == x.base()
    &&& nz(x) ==> nz(y)
}

pub open spec fn committed(x: StateAdapter, y: StateAdapter) -> bool {
    &&& y.cache_map == x.cache_map
    &&& y.stash_map@ == Map::<Bytes, Bytes>::empty()
    &&& y.trie.trie.c@ == x.flushed()
}

pub proof fn lemma_committed(x: StateAdapter, y: StateAdapter)
    requires
        nz(x),
        committed(x, y),
    ensures
        x.flushed() == x.base(),
        y.base() == x.base(),
        forall|k: Bytes| !(#[trigger] y.stash_map@.contains_key(k)),
{
    lemma_tput_all(x.trie.trie.c@, x.stash_map@);
    assert(y.base() =~= x.base());
}

/// Nothing readable from a root is lost or changed.
pub open spec fn grows(h: DbHeap, h2: DbHeap) -> bool {
    forall|r: Seq<u8>| #[trigger] h.m().contains_key(r) ==> h2.m().contains_key(r) && h2.m()[r] == h.m()[r]
}

pub open spec fn kept(h: DbHeap, c: KV) -> bool {
    h.m().contains_key(root_of(c)) && h.m()[root_of(c)] == c
}

pub proof fn lemma_grow(h: DbHeap, h2: DbHeap, c: KV)
    requires
        h.wf(),
        h2.m() == h.m().insert(root_of(c), c),
    ensures
        h2.wf(),
        grows(h, h2),
        kept(h2, c),
{
    assert forall|r: Seq<u8>| #[trigger] h.m().contains_key(r) implies h2.m().contains_key(r) && h2.m()[r] == h.m()[r] by {
        if r == root_of(c) {
            root_injective(h.m()[r], c);
        }
    }
}

pub proof fn lemma_grow_any(h: DbHeap, c: KV)
    requires
        h.wf(),
    ensures
        forall|h2: DbHeap| #[trigger] h2.m() == h.m().insert(root_of(c), c) ==> h2.wf() && grows(h, h2) && kept(h2, c),
{
    assert forall|h2: DbHeap| #[trigger] h2.m() == h.m().insert(root_of(c), c) implies h2.wf() && grows(h, h2) && kept(h2, c) by {
        lemma_grow(h, h2, c);
    }
}

/// The state a root stands for.
pub open spec fn state_at(h: DbHeap, root: Seq<u8>, l: Led) -> bool {
    &&& h.m().contains_key(root)
    &&& h.m()[root].contains_key(bytes_of(acc_bytes()))
    &&& h.m()[root].contains_key(bytes_of(bank_bytes()))
    &&& h.m()[root][bytes_of(acc_bytes())] == bytes_of(root_of(l.acc))
    &&& h.m()[root][bytes_of(bank_bytes())] == bytes_of(root_of(l.bank))
    &&& kept(h, l.acc)
    &&& kept(h, l.bank)
    &&& root != keccak(null_rlp())
}

/// The cells an iteration over the map visits: all of them, each once.
pub open spec fn visits(m: Map<Address, StRc>, s: Seq<(Address, StRc)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).1.id() != (#[trigger] s[j]).1.id() && s[i].0 != s[j].0
    &&& forall|k: Address| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && s[i].1 == m[k]
}

pub proof fn lemma_visits(m: Map<Address, StRc>, s: Seq<(Address, StRc)>, hs: StHeap)
    requires
        map_seq_ok(m, s),
        cells_ok(m, hs),
    ensures
        visits(m, s),
{
    assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1 by {
        assert(m.contains_key(s[i].0));
    }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies (#[trigger] s[i]).1.id() != (#[trigger] s[j]).1.id() && s[i].0 != s[j].0 by {
        assert(m.contains_key(s[i].0));
        assert(m.contains_key(s[j].0));
        if i < j {
            assert(s[i].0 != s[j].0);
        } else {
            assert(s[j].0 != s[i].0);
        }
    }
}

impl TransactionExecutor {
    pub open spec fn ia(&self) -> int {
        self.account_contract.i()
    }

    pub open spec fn ib(&self) -> int {
        self.bank_account.i()
    }

    pub open spec fn env(&self) -> Env {
        Env { chain: self.chain_id, epoch: self.epoch_id, price: self.cycles_price, coinbase: self.coinbase }
    }

    pub open spec fn wf(&self, hs: StHeap) -> bool {
        &&& self.ia() != self.ib()
        &&& hs.m().contains_key(self.ia()) && nz(hs.m()[self.ia()])
        &&& hs.m().contains_key(self.ib()) && nz(hs.m()[self.ib()])
        &&& self.state_adapter_map@ == Map::<Address, StRc>::empty().insert(acc_addr(), self.account_contract.state_adapter).insert(bank_addr(), self.bank_account.state_adapter)
        &&& self.bank_account.chain_id == self.chain_id
        &&& address_wf(self.coinbase)
    }

    /// No transaction is running.
    pub open spec fn idle(&self, hs: StHeap) -> bool {
        &&& self.wf(hs)
        &&& hs.m()[self.ia()].cache_map@ == Map::<Bytes, Bytes>::empty()
        &&& hs.m()[self.ib()].cache_map@ == Map::<Bytes, Bytes>::empty()
    }

    pub open spec fn cur(&self, hs: StHeap) -> Led {
        Led { acc: hs.m()[self.ia()].cur(), bank: hs.m()[self.ib()].cur() }
    }

    pub open spec fn base(&self, hs: StHeap) -> Led {
        Led { acc: hs.m()[self.ia()].base(), bank: hs.m()[self.ib()].base() }
    }

    pub open spec fn top(&self) -> KV {
        self.trie.trie.c@
    }

    pub proof fn lemma_wf(&self, hs: StHeap)
        requires
            self.wf(hs),
        ensures
            address_wf(acc_addr()) && acc_addr()@ == acc_bytes(),
            address_wf(bank_addr()) && bank_addr()@ == bank_bytes(),
            acc_addr() != bank_addr(),
            cells_ok(self.state_adapter_map@, hs),
            self.state_adapter_map@.contains_key(acc_addr()) && self.state_adapter_map@[acc_addr()].id() == self.ia(),
            self.state_adapter_map@.contains_key(bank_addr()) && self.state_adapter_map@[bank_addr()].id() == self.ib(),
    {
        lemma_native();
    }

    pub proof fn lemma_idle(&self, hs: StHeap)
        requires
            self.idle(hs),
        ensures
            self.cur(hs) == self.base(hs),
    {
        assert(hs.m()[self.ia()].cur() =~= hs.m()[self.ia()].base());
        assert(hs.m()[self.ib()].cur() =~= hs.m()[self.ib()].base());
    }

//@fn core/executor/src/lib.rs TransactionExecutor::stash key exec::stash
//@. params hs: &mut StHeap
//@. requires
        cells_ok(old(self).state_adapter_map@, *old(hs)),
//@. ensures
        r is Ok,
        *final(self) == *old(self),
        same_cells(*old(hs), *final(hs)),
        forall|a: Address| #[trigger] old(self).state_adapter_map@.contains_key(a) ==> stashed(old(hs).m()[old(self).state_adapter_map@[a].id()], final(hs).m()[old(self).state_adapter_map@[a].id()]),
//@. loop 0
        invariant
            *self == *old(self),
            cells_ok(old(self).state_adapter_map@, *old(hs)),
            same_cells(*old(hs), *hs),
            map_seq_ok(old(self).state_adapter_map@, __it0.s@),
            visits(old(self).state_adapter_map@, __it0.s@) || __it0.p@ == 0,
            0 <= __it0.p@ <= __it0.s@.len(),
            forall|j: int| 0 <= j < __it0.p@ ==> stashed(old(hs).m()[(#[trigger] __it0.s@[j]).1.id()], hs.m()[__it0.s@[j].1.id()]),
            forall|j: int| __it0.p@ <= j < __it0.s@.len() ==> hs.m()[(#[trigger] __it0.s@[j]).1.id()] == old(hs).m()[__it0.s@[j].1.id()],
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            lemma_visits(old(self).state_adapter_map@, __it0.s@, *old(hs));
            assert(old(self).state_adapter_map@.contains_key(__it0.s@[__it0.p@ as int].0));
        }
//@. at loop:0:after
        proof {
            lemma_visits(old(self).state_adapter_map@, __it0.s@, *old(hs));
        }
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::revert key exec::revert
//@. params hs: &mut StHeap
//@. requires
        cells_ok(old(self).state_adapter_map@, *old(hs)),
//@. ensures
        r is Ok,
        *final(self) == *old(self),
        same_cells(*old(hs), *final(hs)),
        forall|a: Address| #[trigger] old(self).state_adapter_map@.contains_key(a) ==> reverted(old(hs).m()[old(self).state_adapter_map@[a].id()], final(hs).m()[old(self).state_adapter_map@[a].id()]),
//@. loop 0
        invariant
            *self == *old(self),
            cells_ok(old(self).state_adapter_map@, *old(hs)),
            same_cells(*old(hs), *hs),
            map_seq_ok(old(self).state_adapter_map@, __it0.s@),
            visits(old(self).state_adapter_map@, __it0.s@) || __it0.p@ == 0,
            0 <= __it0.p@ <= __it0.s@.len(),
            forall|j: int| 0 <= j < __it0.p@ ==> reverted(old(hs).m()[(#[trigger] __it0.s@[j]).1.id()], hs.m()[__it0.s@[j].1.id()]),
            forall|j: int| __it0.p@ <= j < __it0.s@.len() ==> hs.m()[(#[trigger] __it0.s@[j]).1.id()] == old(hs).m()[__it0.s@[j].1.id()],
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        proof {
            lemma_visits(old(self).state_adapter_map@, __it0.s@, *old(hs));
            assert(old(self).state_adapter_map@.contains_key(__it0.s@[__it0.p@ as int].0));
        }
//@. at loop:0:after
        proof {
            lemma_visits(old(self).state_adapter_map@, __it0.s@, *old(hs));
        }
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::commit key exec::commit
//@. params hs: &mut StHeap, hd: &mut DbHeap
//@. requires
        cells_ok(old(self).state_adapter_map@, *old(hs)),
        old(hd).wf(),
//@. ensures
        *final(self) == (TransactionExecutor { trie: final(self).trie, ..*old(self) }),
        same_cells(*old(hs), *final(hs)),
        r is Ok ==> {
            let m = old(self).state_adapter_map@;
            &&& forall|a: Address| #[trigger] m.contains_key(a) ==> committed(old(hs).m()[m[a].id()], final(hs).m()[m[a].id()])
            &&& forall|a: Address| #[trigger] m.contains_key(a) ==> {
                &&& final(self).top().contains_key(bytes_of(a@))
                &&& final(self).top()[bytes_of(a@)] == bytes_of(root_of(old(hs).m()[m[a].id()].flushed()))
                &&& kept(*final(hd), old(hs).m()[m[a].id()].flushed())
            }
            &&& forall|k: Bytes| (forall|a: Address| #[trigger] m.contains_key(a) ==> bytes_of(a@) != k) ==> #[trigger] same_at(final(self).top(), old(self).top(), k)
            &&& r->Ok_0@ == root_of(final(self).top())
            &&& kept(*final(hd), final(self).top())
            &&& final(hd).wf()
            &&& grows(*old(hd), *final(hd))
        },
        io_ok() ==> r is Ok,
//@. loop 0
        invariant
            *self == (TransactionExecutor { trie: self.trie, ..*old(self) }),
            cells_ok(old(self).state_adapter_map@, *old(hs)),
            same_cells(*old(hs), *hs),
            map_seq_ok(old(self).state_adapter_map@, __it0.s@),
            visits(old(self).state_adapter_map@, __it0.s@) || __it0.p@ == 0,
            0 <= __it0.p@ <= __it0.s@.len(),
            hd.wf(),
            grows(*old(hd), *hd),
            forall|j: int| 0 <= j < __it0.p@ ==> {
                let x = old(hs).m()[(#[trigger] __it0.s@[j]).1.id()];
                &&& committed(x, hs.m()[__it0.s@[j].1.id()])
                &&& kept(*hd, x.flushed())
                &&& self.top().contains_key(bytes_of(__it0.s@[j].0@))
                &&& self.top()[bytes_of(__it0.s@[j].0@)] == bytes_of(root_of(x.flushed()))
            },
            forall|j: int| __it0.p@ <= j < __it0.s@.len() ==> hs.m()[(#[trigger] __it0.s@[j]).1.id()] == old(hs).m()[__it0.s@[j].1.id()],
            forall|k: Bytes| !seen(__it0.s@, __it0.p@ as int, k) ==> #[trigger] same_at(self.top(), old(self).top(), k),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        let ghost hd0 = *hd;
        let ghost t0 = self.top();
        let ghost s0 = __it0.s@;
        let ghost p0 = __it0.p@ as int;
        let ghost x0 = old(hs).m()[__it0.s@[__it0.p@ as int].1.id()];
        proof {
            lemma_visits(old(self).state_adapter_map@, __it0.s@, *old(hs));
            assert(old(self).state_adapter_map@.contains_key(__it0.s@[__it0.p@ as int].0));
            root_injective(x0.flushed(), x0.flushed());
            assert forall|j: int| 0 <= j < __it0.p@ implies bytes_of((#[trigger] __it0.s@[j]).0@) != bytes_of(__it0.s@[__it0.p@ as int].0@) by {
                assert(old(self).state_adapter_map@.contains_key(__it0.s@[j].0));
                if bytes_of(__it0.s@[j].0@) == bytes_of(__it0.s@[__it0.p@ as int].0@) {
                    lemma_addr_ext(__it0.s@[j].0, __it0.s@[__it0.p@ as int].0);
                }
            }
        }
//@. at loop:0:end
        proof {
            lemma_grow(hd0, *hd, x0.flushed());
            assert(self.top() == t0.insert(bytes_of(s0[p0].0@), bytes_of(root_of(x0.flushed()))));
            assert forall|k: Bytes| !seen(__it0.s@, __it0.p@ as int, k) implies #[trigger] same_at(self.top(), old(self).top(), k) by {
                if seen(s0, p0, k) {
                    let j = choose|j: int| 0 <= j < p0 && bytes_of((#[trigger] s0[j]).0@) == k;
                    assert(bytes_of(s0[j].0@) == k);
                }
                assert(same_at(t0, old(self).top(), k));
                assert(bytes_of(s0[p0].0@) != k);
            }
        }
//@. at loop:0:after
        proof {
            lemma_grow_any(*hd, self.top());
            lemma_visits(old(self).state_adapter_map@, __it0.s@, *old(hs));
            assert forall|k: Bytes| (forall|a: Address| #[trigger] old(self).state_adapter_map@.contains_key(a) ==> bytes_of(a@) != k) implies #[trigger] same_at(self.top(), old(self).top(), k) by {
                assert forall|j: int| 0 <= j < __it0.p@ implies bytes_of((#[trigger] __it0.s@[j]).0@) != k by {
                    assert(old(self).state_adapter_map@.contains_key(__it0.s@[j].0));
                }
            }
        }
//@end

    /// What running a contract may do to the cells: write in the two caches.
    pub open spec fn within(&self, h: StHeap, h2: StHeap) -> bool {
        &&& same_cells(h, h2)
        &&& self.base(h2) == self.base(h)
        &&& nz(h.m()[self.ia()]) ==> nz(h2.m()[self.ia()])
        &&& nz(h.m()[self.ib()]) ==> nz(h2.m()[self.ib()])
    }

//@fn core/executor/src/lib.rs TransactionExecutor::get_balance key exec::get_balance
//@. params hs: &StHeap
//@. requires
        self.wf(*hs),
//@. ensures
        r is Ok ==> has_acct(self.cur(*hs).acc, *address) && r->Ok_0@ == bal(self.cur(*hs).acc, *address, *id),
        io_ok() && has_acct(self.cur(*hs).acc, *address) && readable(self.cur(*hs).acc, *address) ==> r is Ok,
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::handle_transfer key exec::handle_transfer
//@. params hc: &mut CtxHeap, hs: &mut StHeap
//@. requires
        old(self).wf(*old(hs)),
        old(hc).m().contains_key(ictx.id()),
        address_wf(old(hc).m()[ictx.id()].caller),
        address_wf(*to),
        *to is User,
        old(hc).m()[ictx.id()].carrying_asset is Some,
        old(hc).m()[ictx.id()].cycles_used == 0,
//@. ensures
        *final(self) == *old(self),
        old(self).within(*old(hs), *final(hs)),
        cframe(*old(hc), *final(hc), ictx.id()),
        final(hc).m()[ictx.id()].cycles_used <= 210,
        ({
            let c = old(hc).m()[ictx.id()];
            let l = old(self).cur(*old(hs));
            let id = c.carrying_asset->0.asset_id;
            let n = c.carrying_asset->0.amount@;
            let can = has_asset(l.bank, id) && asset_of(l.bank, id) is Some && has_acct(l.acc, c.caller) && readable(l.acc, c.caller) && readable(l.acc, *to) && can_debit(l.acc, c.caller, id, n) && 210 <= c.cycles_limit;
            let l2 = moved(l.acc, c.caller, *to, id, n);
            &&& r is Ok ==> can && old(self).cur(*final(hs)) == (Led { acc: l2, bank: l.bank })
            &&& r is Ok ==> final(hc).m()[ictx.id()].cycles_used == 210
            &&& r is Ok ==> r->Ok_0 == (ReceiptResult::Transfer { receiver: to->User_0, asset_id: id, before_amount: big(bal(l.acc, c.caller, id)), after_amount: big(bal(l2, c.caller, id)) })
            &&& io_ok() && can ==> r is Ok
            &&& io_ok() && r is Err ==> final(hc).m()[ictx.id()].cycles_used == 0
        }),
//@. at start
        proof {
            lemma_of();
            let c = old(hc).m()[ictx.id()];
            let l = old(self).cur(*old(hs));
            if can_debit(l.acc, c.caller, c.carrying_asset->0.asset_id, c.carrying_asset->0.amount@) {
                lemma_moved(l.acc, c.caller, *to, c.carrying_asset->0.asset_id, c.carrying_asset->0.amount@, c.caller, c.carrying_asset->0.asset_id);
            }
        }
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::handle_deploy key exec::handle_deploy
//@. params hc: &mut CtxHeap, hs: &mut StHeap
//@. requires
        old(self).wf(*old(hs)),
        old(hc).m().contains_key(ictx.id()),
        old(hc).m()[ictx.id()].cycles_used == 0,
//@. ensures
        *final(self) == *old(self),
        old(self).within(*old(hs), *final(hs)),
        cframe(*old(hc), *final(hc), ictx.id()),
        ({
            let c = old(hc).m()[ictx.id()];
            let l = old(self).cur(*old(hs));
            let at = contract_of(seq![0x20u8] + keccak(code@ + be8(nonce(l.acc, c.caller))).take(20));
            let x = new_asset(old(self).chain_id, at, string_of("System token"@), string_of("ST"@), big(21_000_000_000_000_000));
            let can = contract_type is Asset && has_acct(l.acc, c.caller) && readable(l.acc, c.caller) && !has_asset(l.bank, x.id) && 2100 <= c.cycles_limit;
            &&& r is Ok ==> can && old(self).cur(*final(hs)) == (Led { acc: l.acc, bank: reg(l.bank, x) })
            &&& r is Ok ==> final(hc).m()[ictx.id()].cycles_used == 2100
            &&& r is Ok ==> r->Ok_0 == (ReceiptResult::Deploy { contract: at, contract_type: ContractType::Asset })
            &&& io_ok() && can ==> r is Ok
            &&& r is Err ==> final(hc).m()[ictx.id()].cycles_used == 0
        }),
//@. at start
        proof {
            lemma_of();
            string_ext_all();
        }
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::dispatch key exec::dispatch
//@. params hc: &mut CtxHeap, hs: &mut StHeap
//@. requires
        old(self).wf(*old(hs)),
        old(hc).m().contains_key(ictx.id()),
        old(hc).m()[ictx.id()] == ctx_for(old(self).env(), signed_tx),
        tx_wf(signed_tx),
//@. ensures
        *final(self) == *old(self),
        old(self).within(*old(hs), *final(hs)),
        cframe(*old(hc), *final(hc), ictx.id()),
        final(hc).m()[ictx.id()].cycles_used <= 2100,
        ({
            let l = old(self).cur(*old(hs));
            let e = old(self).env();
            &&& r is Ok ==> tx_ok(l, e, signed_tx) && old(self).cur(*final(hs)) == tx_eff(l, e, signed_tx)
            &&& r is Ok ==> final(hc).m()[ictx.id()].cycles_used == tx_cost(signed_tx)
            &&& r is Ok ==> r->Ok_0 == tx_result(l, e, signed_tx)
            &&& r is Ok ==> !(r->Ok_0 is Fail)
            &&& io_ok() && tx_ok(l, e, signed_tx) ==> r is Ok
            &&& io_ok() && r is Err ==> final(hc).m()[ictx.id()].cycles_used == 0
        }),
//@. at start
        proof {
            lemma_sender(signed_tx);
        }
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::exec key exec::exec
//@. params hc: &mut CtxHeap, hs: &mut StHeap, hd: &mut DbHeap
//@. requires
        old(self).idle(*old(hs)),
        old(hd).wf(),
        forall|i: int| 0 <= i < signed_txs@.len() ==> tx_wf(#[trigger] signed_txs@[i]),
        2100 * old(self).cycles_price * signed_txs@.len() <= u64::MAX,
        nroom(old(self).base(*old(hs)).acc, signed_txs@.len() as int),
//@. ensures
        *final(self) == (TransactionExecutor { trie: final(self).trie, ..*old(self) }),
        r is Ok ==> {
            let rs = r->Ok_0.receipts@;
            let fs = r->Ok_0.all_cycles_used@;
            let root = r->Ok_0.state_root;
            &&& exists|ls: Seq<Led>| #[trigger] ran(old(self).base(*old(hs)), old(self).env(), signed_txs@, rs, ls)
                && final(self).base(*final(hs)) == (Led { acc: credits(ls.last().acc, old(self).coinbase, fs, fs.len()), bank: ls.last().bank })
            &&& fs == totals(fees_of(rs))
            &&& forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).state_root == root
            &&& root@ == root_of(final(self).top())
            &&& state_at(*final(hd), root@, final(self).base(*final(hs)))
            &&& final(self).idle(*final(hs))
            &&& final(hd).wf() && grows(*old(hd), *final(hd))
            &&& forall|k: Bytes| k != bytes_of(acc_bytes()) && k != bytes_of(bank_bytes()) ==> #[trigger] same_at(final(self).top(), old(self).top(), k)
        },
        io_ok() && accs_wf(old(self).base(*old(hs)).acc) ==> r is Ok,
//@. at start
        let ghost txs = signed_txs@;
        let ghost e = self.env();
        let ghost l0 = self.base(*hs);
        let ghost mut ls: Seq<Led> = seq![l0];
        let ghost mut rs0: Seq<Receipt> = Seq::empty();
//@. loop 0
        invariant
            *self == *old(self),
            e == self.env(),
            l0 == old(self).base(*old(hs)),
            txs == __it0.s@,
            0 <= __it0.p@ <= txs.len(),
            self.idle(*hs),
            *hd == *old(hd),
            forall|i: int| 0 <= i < txs.len() ==> tx_wf(#[trigger] txs[i]),
            2100 * self.cycles_price * txs.len() <= u64::MAX,
            receipts@.len() == __it0.p@,
            ls.len() == __it0.p@ + 1,
            ls[0] == l0,
            ls.last() == self.base(*hs),
            forall|i: int| 0 <= i < __it0.p@ ==> #[trigger] step(ls[i], ls[i + 1], e, txs[i], receipts@[i]),
            nroom(self.base(*hs).acc, txs.len() - __it0.p@),
            accs_wf(l0.acc) ==> accs_wf(self.base(*hs).acc),
        decreases txs.len() - __it0.p@,
//@. at loop:0:start
        let ghost h0 = *hs;
        let ghost tx = txs[__it0.p@ as int];
        let ghost r0 = receipts@;
        let ghost room = txs.len() - __it0.p@;
        proof {
            self.lemma_wf(*hs);
            self.lemma_idle(*hs);
            lemma_sender(tx);
            lemma_price(self.cycles_price, txs.len());
            assert(tx_wf(tx));
            if tx_ok(self.base(*hs), e, tx) {
                lemma_tx_preserves(self.base(*hs), e, tx, room);
            }
        }
//@. at loop:0:end
        proof {
            let l = ls.last();
            let l2 = self.base(*hs);
            let rc = receipts@.last();
            let mid = if rc.result is Fail { l } else { tx_eff(l, e, tx) };
            lemma_bump_preserves(mid.acc, sender(tx), room);
            assert(step(l, l2, e, tx, rc));
            let lt = ls.push(l2);
            assert forall|i: int| 0 <= i < __it0.p@ implies #[trigger] step(lt[i], lt[i + 1], e, txs[i], receipts@[i]) by {
                if i < __it0.p@ - 1 {
                    assert(step(ls[i], ls[i + 1], e, txs[i], r0[i]));
                    assert(lt[i] == ls[i] && lt[i + 1] == ls[i + 1] && receipts@[i] == r0[i]);
                }
            }
            ls = lt;
        }
//@. at loop:0:after
        proof {
            rs0 = receipts@;
            self.lemma_wf(*hs);
            assert(ran(l0, e, txs, rs0, ls));
            self.lemma_idle(*hs);
            assert forall|i: int| 0 <= i < rs0.len() implies (#[trigger] fees_of(rs0)[i]).cycle <= 2100 * e.price by {
                assert(step(ls[i], ls[i + 1], e, txs[i], rs0[i]));
            }
            assert(2100 * e.price * rs0.len() == (2100 * e.price) * rs0.len()) by (nonlinear_arith);
        }
//@. loop 1
        invariant
            __it1.s@ == receipts@,
            0 <= __it1.p@ <= receipts@.len(),
            all_cycles_used@ == totals(fees_of(receipts@).take(__it1.p@ as int)),
            forall|i: int| 0 <= i < receipts@.len() ==> (#[trigger] fees_of(receipts@)[i]).cycle <= 2100 * self.cycles_price,
            (2100 * self.cycles_price) * receipts@.len() <= u64::MAX,
        decreases receipts@.len() - __it1.p@,
//@. at loop:1:start
        proof {
            let fs = fees_of(receipts@).take(__it1.p@ as int + 1);
            assert(fs.drop_last() =~= fees_of(receipts@).take(__it1.p@ as int));
            assert forall|i: int| 0 <= i < fs.len() implies (#[trigger] fs[i]).cycle <= 2100 * self.cycles_price by {
                assert(fs[i] == fees_of(receipts@)[i]);
            }
            assert((2100 * self.cycles_price) * fs.len() <= (2100 * self.cycles_price) * receipts@.len()) by (nonlinear_arith)
                requires
                    fs.len() <= receipts@.len(),
                    self.cycles_price >= 0,
            ;
            lemma_totals(fs, (2100 * self.cycles_price) as nat, empty_hash());
            assert(fs.last() == receipts@[__it1.p@ as int].cycles_used);
        }
//@. at loop:1:after
        proof {
            assert(fees_of(receipts@).take(receipts@.len() as int) =~= fees_of(receipts@));
        }
//@. loop 2
        invariant
            *self == *old(self),
            l0 == old(self).base(*old(hs)),
            __it2.s@ == all_cycles_used@,
            0 <= __it2.p@ <= all_cycles_used@.len(),
            self.wf(*hs),
            *hd == *old(hd),
            self.cur(*hs) == (Led { acc: credits(ls.last().acc, self.coinbase, all_cycles_used@, __it2.p@), bank: ls.last().bank }),
            accs_wf(l0.acc) ==> accs_wf(self.cur(*hs).acc),
        decreases all_cycles_used@.len() - __it2.p@,
//@. at loop:2:start
        proof {
            let f = all_cycles_used@[__it2.p@ as int];
            lemma_credit_preserves(self.cur(*hs).acc, self.coinbase, f.asset_id, f.cycle as nat);
        }
//@. at loop:2:after
        proof {
            self.lemma_wf(*hs);
        }
//@. loop 3
        invariant
            __len3 == receipts@.len(),
            receipts@.len() == rs0.len(),
            0 <= __i3 <= __len3,
            forall|j: int| 0 <= j < __i3 ==> #[trigger] receipts@[j] == (Receipt { state_root: state_root, ..rs0[j] }),
            forall|j: int| __i3 <= j < __len3 ==> #[trigger] receipts@[j] == rs0[j],
        decreases __len3 - __i3,
//@. at loop:3:after
        proof {
            self.lemma_wf(*hs);
            assert forall|x: StateAdapter, y: StateAdapter| nz(x) && #[trigger] committed(x, y) implies x.flushed() == x.base() && y.base() == x.base() && (forall|k: Bytes| !(#[trigger] y.stash_map@.contains_key(k))) by {
                lemma_committed(x, y);
            }
            lemma_native();
            root_injective(self.top(), Map::empty());
            root_empty();
            assert(bytes_of(acc_addr()@) != bytes_of(bank_addr()@)) by {
                assert(bytes_of(acc_addr()@)@ != bytes_of(bank_addr()@)@);
            }
            assert(fees_of(receipts@) =~= fees_of(rs0));
            assert forall|i: int| 0 <= i < txs.len() implies #[trigger] step(ls[i], ls[i + 1], e, txs[i], receipts@[i]) by {
                assert(step(ls[i], ls[i + 1], e, txs[i], rs0[i]));
            }
            assert(ran(l0, e, txs, receipts@, ls));
            assert(self.base(*hs) == (Led { acc: credits(ls.last().acc, self.coinbase, all_cycles_used@, all_cycles_used@.len()), bank: ls.last().bank }));
            assert(self.idle(*hs));
            assert(state_at(*hd, root_of(self.top()), self.base(*hs)));
        }
//@end
//@fn core/executor/src/lib.rs TransactionExecutor::create_genesis key exec::create_genesis
//@. params hc: &mut CtxHeap, hs: &mut StHeap, hd: &mut DbHeap
//@. newcell hc
//@. requires
        old(self).idle(*old(hs)),
        old(hd).wf(),
//@. ensures
        *final(self) == (TransactionExecutor { trie: final(self).trie, ..*old(self) }),
        r is Ok ==> {
            let l = old(self).base(*old(hs));
            let x = gen_asset(old(self).chain_id, genesis.system_token);
            &&& gen_ok(*genesis)
            &&& !has_asset(l.bank, x.id)
            &&& final(self).base(*final(hs)) == (Led { acc: allocs(l.acc, genesis.state_alloc@, genesis.state_alloc@.len()), bank: reg(l.bank, x) })
            &&& r->Ok_0@ == root_of(final(self).top())
            &&& state_at(*final(hd), r->Ok_0@, final(self).base(*final(hs)))
            &&& final(self).idle(*final(hs))
            &&& final(hd).wf() && grows(*old(hd), *final(hd))
        },
        io_ok() && gen_ok(*genesis) && !has_asset(old(self).base(*old(hs)).bank, gen_asset(old(self).chain_id, genesis.system_token).id) && accs_wf(old(self).base(*old(hs)).acc) ==> r is Ok,
//@. at start
        let ghost l0 = self.base(*hs);
        proof {
            self.lemma_wf(*hs);
            self.lemma_idle(*hs);
            lemma_of();
        }
//@. loop 0
        invariant
            *self == *old(self),
            l0 == old(self).base(*old(hs)),
            __it0.s@ == genesis.state_alloc@,
            0 <= __it0.p@ <= __it0.s@.len(),
            self.wf(*hs),
            *hd == *old(hd),
            self.cur(*hs) == (Led { acc: allocs(l0.acc, genesis.state_alloc@, __it0.p@), bank: reg(l0.bank, gen_asset(self.chain_id, genesis.system_token)) }),
            forall|i: int| 0 <= i < __it0.p@ ==> alloc_ok(#[trigger] genesis.state_alloc@[i]),
            accs_wf(l0.acc) ==> accs_wf(self.cur(*hs).acc),
        decreases __it0.s@.len() - __it0.p@,
//@. at loop:0:start
        let ghost m0 = self.cur(*hs).acc;
        proof {
            lemma_of();
            lemma_hashes();
            assert(gen_ok(*genesis) ==> alloc_ok(genesis.state_alloc@[__it0.p@ as int]));
        }
//@. loop 1
        invariant
            *self == *old(self),
            l0 == old(self).base(*old(hs)),
            __it1.s@ == alloc.assets@,
            0 <= __it1.p@ <= __it1.s@.len(),
            self.wf(*hs),
            *hd == *old(hd),
            address_wf(address),
            gen_ok(*genesis) ==> alloc_ok(*alloc),
            self.cur(*hs) == (Led { acc: alloc_assets(m0, address, alloc.assets@, __it1.p@), bank: reg(l0.bank, gen_asset(self.chain_id, genesis.system_token)) }),
            forall|i: int| 0 <= i < __it1.p@ ==> asset_ok(#[trigger] alloc.assets@[i]),
            accs_wf(l0.acc) ==> accs_wf(self.cur(*hs).acc),
        decreases __it1.s@.len() - __it1.p@,
//@. at loop:1:start
        proof {
            lemma_hashes();
            let y = alloc.assets@[__it1.p@ as int];
            assert(alloc_ok(*alloc) ==> asset_ok(y));
            lemma_credit_preserves(self.cur(*hs).acc, address, alloc_id(y), alloc_amount(y));
        }
//@. at loop:0:after
        proof {
            self.lemma_wf(*hs);
            lemma_grow_any(*hd, self.top());
            assert forall|x: StateAdapter, y: StateAdapter| nz(x) && #[trigger] committed(x, y) implies x.flushed() == x.base() && y.base() == x.base() && (forall|k: Bytes| !(#[trigger] y.stash_map@.contains_key(k))) by {
                lemma_committed(x, y);
            }
            lemma_native();
            assert(bytes_of(acc_addr()@) != bytes_of(bank_addr()@)) by {
                assert(bytes_of(acc_addr()@)@ != bytes_of(bank_addr()@)@);
            }
            lemma_root_nonempty();
        }
//@end
}

pub proof fn lemma_root_nonempty()
    ensures
        forall|c: KV, k: Bytes| #[trigger] c.contains_key(k) ==> root_of(c) != keccak(null_rlp()),
{
    assert forall|c: KV, k: Bytes| #[trigger] c.contains_key(k) implies root_of(c) != keccak(null_rlp()) by {
        root_injective(c, Map::empty());
        root_empty();
    }
}

// ------------------------------------------------------------------ the genesis allocation
pub open spec fn gen_asset(chain: Hash, t: GenesisSystemToken) -> Asset {
    new_asset(chain, contract_of(seq![0x20u8] + keccak(hex_dec(t.code@) + be8(0)).take(20)), t.name, t.symbol, big(t.supply as nat))
}

pub open spec fn alloc_id(a: GenesisStateAsset) -> Hash {
    hash_of(hex_dec(no0x(a.asset_id@)))
}

pub open spec fn alloc_amount(a: GenesisStateAsset) -> nat {
    be_nat(hex_dec(a.balance@))
}

pub open spec fn asset_ok(a: GenesisStateAsset) -> bool {
    hex_ok(no0x(a.asset_id@)) && no0x(a.asset_id@).len() == 64 && hex_ok(a.balance@)
}

pub open spec fn alloc_addr(a: GenesisStateAlloc) -> Address {
    addr_of(hex_dec(no0x(a.address@)))
}

pub open spec fn alloc_ok(a: GenesisStateAlloc) -> bool {
    &&& hex_ok(no0x(a.address@)) && (user_ok(hex_dec(no0x(a.address@))) || contract_ok(hex_dec(no0x(a.address@))))
    &&& forall|i: int| 0 <= i < a.assets@.len() ==> asset_ok(#[trigger] a.assets@[i])
}

pub open spec fn gen_ok(g: Genesis) -> bool {
    &&& hex_ok(g.system_token.code@)
    &&& forall|i: int| 0 <= i < g.state_alloc@.len() ==> alloc_ok(#[trigger] g.state_alloc@[i])
}

pub open spec fn alloc_assets(m: KV, a: Address, xs: Seq<GenesisStateAsset>, k: nat) -> KV
    decreases k,
{
    if k == 0 {
        m
    } else {
        credit(alloc_assets(m, a, xs, (k - 1) as nat), a, alloc_id(xs[k - 1]), alloc_amount(xs[k - 1]))
    }
}

pub open spec fn allocs(m: KV, xs: Seq<GenesisStateAlloc>, k: nat) -> KV
    decreases k,
{
    if k == 0 {
        m
    } else {
        alloc_assets(allocs(m, xs, (k - 1) as nat), alloc_addr(xs[k - 1]), xs[k - 1].assets@, xs[k - 1].assets@.len())
    }
}

pub proof fn lemma_price(price: u64, n: nat)
    requires
        2100 * price * n <= u64::MAX,
        n >= 1,
    ensures
        2100 * price <= u64::MAX,
        forall|c: u64| c <= 2100 ==> #[trigger] (c * price) <= 2100 * price,
        forall|c: u64| #[trigger] (price * c) == c * price,
{
    assert forall|c: u64| #[trigger] (price * c) == c * price by {
        assert(price * c == c * price) by (nonlinear_arith);
    }
    assert(2100 * price <= 2100 * price * n) by (nonlinear_arith)
        requires
            n >= 1,
            price >= 0,
    ;
    assert forall|c: u64| c <= 2100 implies #[trigger] (c * price) <= 2100 * price by {
        assert(c * price <= 2100 * price) by (nonlinear_arith)
            requires
                c <= 2100,
                price >= 0,
        ;
    }
}


//@fn core/executor/src/lib.rs gen_contract_state key exec::gen_contract_state
//@. generics
//@. params hs: &mut StHeap, hd: &mut DbHeap
//@. newcell hs
//@. ensures
        *final(hd) == *old(hd),
        r is Ok ==> {
            let st = final(hs).m()[r->Ok_0.id()];
            &&& !old(hs).m().contains_key(r->Ok_0.id())
            &&& final(hs).m() == old(hs).m().insert(r->Ok_0.id(), st)
            &&& st.cache_map@ == Map::<Bytes, Bytes>::empty()
            &&& st.stash_map@ == Map::<Bytes, Bytes>::empty()
            &&& !trie.trie.c@.contains_key(bytes_of(address@)) ==> st.trie.trie.c@ == Map::<Bytes, Bytes>::empty()
            &&& trie.trie.c@.contains_key(bytes_of(address@)) ==> old(hd).m().contains_key(trie.trie.c@[bytes_of(address@)]@) && st.trie.trie.c@ == old(hd).m()[trie.trie.c@[bytes_of(address@)]@]
        },
        io_ok() && !trie.trie.c@.contains_key(bytes_of(address@)) ==> r is Ok,
        io_ok() && trie.trie.c@.contains_key(bytes_of(address@)) && trie.trie.c@[bytes_of(address@)]@.len() == 32 && old(hd).m().contains_key(trie.trie.c@[bytes_of(address@)]@) ==> r is Ok,
//@end
impl TransactionExecutorFactory {
//@fn core/executor/src/lib.rs TransactionExecutorFactory::from_root key exec::from_root
//@. params hs: &mut StHeap, hd: &mut DbHeap
//@. requires
        address_wf(coinbase),
//@. ensures
        *final(hd) == *old(hd),
        r is Ok ==> {
            let x = r->Ok_0;
            &&& x.idle(*final(hs))
            &&& x.env() == (Env { chain: chain_id, epoch: epoch_id, price: cycles_price, coinbase: coinbase })
            &&& state_root@ == keccak(null_rlp()) ==> x.base(*final(hs)) == (Led { acc: Map::empty(), bank: Map::empty() }) && x.top() == Map::<Bytes, Bytes>::empty()
            &&& state_root@ != keccak(null_rlp()) ==> old(hd).m().contains_key(state_root@) && x.top() == old(hd).m()[state_root@]
            &&& forall|l: Led| #[trigger] state_at(*old(hd), state_root@, l) ==> x.base(*final(hs)) == l
        },
        io_ok() && state_root@ == keccak(null_rlp()) ==> r is Ok,
        io_ok() && (exists|l: Led| #[trigger] state_at(*old(hd), state_root@, l)) ==> r is Ok,
//@. at start
        proof {
            lemma_native();
            lemma_hashes();
            lemma_of();
            lemma_static();
            assert forall|a: KV| #[trigger] root_of(a).len() == 32 by {
                root_injective(a, a);
            }
            assert forall|a: StateAdapter| a.cache_map@ == Map::<Bytes, Bytes>::empty() && a.stash_map@ == Map::<Bytes, Bytes>::empty() implies #[trigger] a.base() == a.trie.trie.c@ by {
                assert(a.base() =~= a.trie.trie.c@);
            }
        }
//@end
}
pub struct TransactionExecutorFactory;

pub proof fn lemma_static()
    ensures
        forall|a: Address| #[trigger] call_ensures(ACCOUNT_CONTRACT_ADDRESS_lazy, (), a) ==> a == acc_addr(),
        forall|a: Address| #[trigger] call_ensures(BANK_CONTRACT_ADDRESS_lazy, (), a) ==> a == bank_addr(),
{
    lemma_of();
}

//@fn core/executor/src/lib.rs gen_invoke_ctx key exec::gen_invoke_ctx
//@. params hc: &mut CtxHeap
//@. newcell hc
//@. ensures
        r is Ok,
        !old(hc).m().contains_key(r->Ok_0.id()),
        final(hc).m() == old(hc).m().insert(r->Ok_0.id(), ctx_for(Env { chain: *chain_id, epoch: epoch_id, price: cycles_price, coinbase: *coinbase }, *signed_tx)),
//@. at start
        proof {
            lemma_of();
        }
//@end
pub proof fn string_ext_all()
    ensures
        forall|s: String| string_of(#[trigger] s@) == s,
{
    assert forall|s: String| string_of(#[trigger] s@) == s by {
        string_ext(s);
    }
}

pub proof fn lemma_native()
    ensures
        address_wf(acc_addr()) && acc_addr()@ == acc_bytes(),
        address_wf(bank_addr()) && bank_addr()@ == bank_bytes(),
        acc_addr() != bank_addr(),
        acc_bytes() != bank_bytes(),
{
    lemma_of();
    let a = Address::Contract(vx_contract(acc_bytes()));
    let b = Address::Contract(vx_contract(bank_bytes()));
    assert(address_wf(a) && a@ == acc_bytes());
    assert(address_wf(b) && b@ == bank_bytes());
}


// ================================================================== theorems
// ------------------------------------------------------------------ C01
/// The sum of an asset's balances over a list of accounts.
pub open spec fn total(m: KV, who: Seq<Address>, id: Hash) -> nat
    decreases who.len(),
{
    if who.len() == 0 {
        0
    } else {
        total(m, who.drop_last(), id) + bal(m, who.last(), id)
    }
}

pub open spec fn distinct(who: Seq<Address>) -> bool {
    &&& forall|i: int| 0 <= i < who.len() ==> address_wf(#[trigger] who[i])
    &&& forall|i: int, j: int| 0 <= i < j < who.len() ==> (#[trigger] who[i]) != (#[trigger] who[j])
}

pub open spec fn one_if(who: Seq<Address>, a: Address) -> int {
    if who.contains(a) { 1 } else { 0 }
}

pub proof fn c01_total_after(m: KV, who: Seq<Address>, from: Address, to: Address, id: Hash, n: nat, id2: Hash)
    requires
        distinct(who),
        address_wf(from),
        address_wf(to),
        can_debit(m, from, id, n),
    ensures
        total(moved(m, from, to, id, n), who, id2) == total(m, who, id2) + (if id2 == id && from != to { n * one_if(who, to) - n * one_if(who, from) } else { 0 }),
    decreases who.len(),
{
    if who.len() > 0 {
        let d = who.drop_last();
        let b = who.last();
        assert forall|i: int| 0 <= i < d.len() implies address_wf(#[trigger] d[i]) by {
            assert(d[i] == who[i]);
        }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]) != (#[trigger] d[j]) by {
            assert(d[i] == who[i] && d[j] == who[j]);
        }
        c01_total_after(m, d, from, to, id, n, id2);
        assert(address_wf(who[who.len() - 1]));
        lemma_moved(m, from, to, id, n, b, id2);
        assert forall|a: Address| who.contains(a) <==> #[trigger] d.contains(a) || a == b by {
            if who.contains(a) && a != b {
                let i = choose|i: int| 0 <= i < who.len() && who[i] == a;
                assert(d[i] == a);
            }
            if d.contains(a) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == a;
                assert(who[i] == a);
            }
        }
        assert(!d.contains(b)) by {
            if d.contains(b) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == b;
                assert(who[i] != who[who.len() - 1]);
            }
        }
        assert(d.contains(from) || true);
        assert(d.contains(to) || true);
        assert(who.contains(b)) by {
            assert(who[who.len() - 1] == b);
        }
        assert(n * 1 == n && n * 0 == 0);
        assert(who.contains(from) <==> d.contains(from) || from == b);
        assert(who.contains(to) <==> d.contains(to) || to == b);
    } else {
        assert(!who.contains(from) && !who.contains(to));
        assert(n * 0 == 0);
    }
}

/// Over any accounts that include the two parties, a transfer keeps the sum of every asset.
pub proof fn c01_conserved(m: KV, who: Seq<Address>, from: Address, to: Address, id: Hash, n: nat, id2: Hash)
    requires
        distinct(who),
        who.contains(from),
        who.contains(to),
        address_wf(from),
        address_wf(to),
        can_debit(m, from, id, n),
    ensures
        total(moved(m, from, to, id, n), who, id2) == total(m, who, id2),
{
    c01_total_after(m, who, from, to, id, n, id2);
}

/// A transfer that a block reports as done moved exactly what it carried; one that carries too much is reported as failed.
pub proof fn c01_step(l: Led, l2: Led, e: Env, tx: SignedTransaction, rc: Receipt, b: Address, id2: Hash)
    requires
        step(l, l2, e, tx, rc),
        tx_wf(tx),
        tx.raw.action is Transfer,
        address_wf(b),
    ensures
        ({
            let from = sender(tx);
            let to = Address::User(tx.raw.action->receiver);
            let id = tx.raw.action->Transfer_carrying_asset.asset_id;
            let n = tx.raw.action->Transfer_carrying_asset.amount@;
            &&& !(rc.result is Fail) ==> bal(l.acc, from, id) >= n
            &&& !(rc.result is Fail) && from != to ==> bal(l2.acc, from, id) == bal(l.acc, from, id) - n && bal(l2.acc, to, id) == bal(l.acc, to, id) + n
            &&& rc.result is Fail || from == to || id2 != id || (b != from && b != to) ==> bal(l2.acc, b, id2) == bal(l.acc, b, id2)
            &&& bal(l.acc, from, id) < n ==> rc.result is Fail
        }),
{
    lemma_sender(tx);
    let from = sender(tx);
    let to = Address::User(tx.raw.action->receiver);
    let id = tx.raw.action->Transfer_carrying_asset.asset_id;
    let n = tx.raw.action->Transfer_carrying_asset.amount@;
    let mid = if rc.result is Fail { l } else { tx_eff(l, e, tx) };
    lemma_bump(mid.acc, from, b, id2);
    lemma_bump(mid.acc, from, from, id);
    lemma_bump(mid.acc, from, to, id);
    if !(rc.result is Fail) {
        lemma_moved(l.acc, from, to, id, n, b, id2);
        lemma_moved(l.acc, from, to, id, n, from, id);
        lemma_moved(l.acc, from, to, id, n, to, id);
    }
}

// ------------------------------------------------------------------ C02
/// A failed transaction changed nothing but its sender's nonce.
pub proof fn c02_failed(l: Led, l2: Led, e: Env, tx: SignedTransaction, rc: Receipt, b: Address, id: Hash)
    requires
        step(l, l2, e, tx, rc),
        rc.result is Fail,
        address_wf(b),
    ensures
        l2.bank == l.bank,
        bal(l2.acc, b, id) == bal(l.acc, b, id),
        a_has(acct(l2.acc, b), id) == a_has(acct(l.acc, b), id),
        nonce(l2.acc, b) == if b == sender(tx) { (nonce(l.acc, b) + 1) as u64 } else { nonce(l.acc, b) },
{
    lemma_sender(tx);
    lemma_bump(l.acc, sender(tx), b, id);
}

// ------------------------------------------------------------------ C03
/// The coinbase holds exactly the totals more than before.
pub proof fn c03_coinbase(m: KV, who: Address, fs: Seq<Fee>, k: nat, b: Address, id: Hash)
    requires
        k <= fs.len(),
        address_wf(who),
        address_wf(b),
    ensures
        bal(credits(m, who, fs, k), b, id) == bal(m, b, id) + if b == who { fee_sum(fs.take(k as int), id) } else { 0 },
        nonce(credits(m, who, fs, k), b) == nonce(m, b),
    decreases k,
{
    if k > 0 {
        c03_coinbase(m, who, fs, (k - 1) as nat, b, id);
        let t = fs.take(k as int);
        assert(t.drop_last() =~= fs.take(k - 1));
        lemma_credit(credits(m, who, fs, (k - 1) as nat), who, fs[k - 1].asset_id, fs[k - 1].cycle as nat, b, id);
    } else {
        assert(fs.take(0) =~= Seq::<Fee>::empty());
    }
}

/// The reported totals: one entry per asset, equal to the sum of the receipts' fees in it.
pub proof fn c03_totals(l0: Led, e: Env, txs: Seq<SignedTransaction>, rs: Seq<Receipt>, ls: Seq<Led>, id: Hash)
    requires
        ran(l0, e, txs, rs, ls),
        2100 * e.price * txs.len() <= u64::MAX,
    ensures
        fee_ids(totals(fees_of(rs))),
        fee_sum(totals(fees_of(rs)), id) == fee_sum(fees_of(rs), id),
{
    assert forall|i: int| 0 <= i < rs.len() implies (#[trigger] fees_of(rs)[i]).cycle <= 2100 * e.price by {
        assert(step(ls[i], ls[i + 1], e, txs[i], rs[i]));
    }
    assert(2100 * e.price * txs.len() == (2100 * e.price) * txs.len()) by (nonlinear_arith);
    lemma_totals(fees_of(rs), (2100 * e.price) as nat, id);
}

// ------------------------------------------------------------------ C04
pub open spec fn sent(txs: Seq<SignedTransaction>, a: Address) -> nat
    decreases txs.len(),
{
    if txs.len() == 0 {
        0
    } else {
        sent(txs.drop_last(), a) + if sender(txs.last()) == a { 1nat } else { 0 }
    }
}

/// Every nonce grows by the number of the block's transactions its account sent, and by nothing else.
pub proof fn c04_nonces(l0: Led, e: Env, txs: Seq<SignedTransaction>, rs: Seq<Receipt>, ls: Seq<Led>, a: Address)
    requires
        ran(l0, e, txs, rs, ls),
        address_wf(a),
        forall|i: int| 0 <= i < txs.len() ==> tx_wf(#[trigger] txs[i]),
        nonce(l0.acc, a) + txs.len() <= u64::MAX,
    ensures
        nonce(ls.last().acc, a) == nonce(l0.acc, a) + sent(txs, a),
        sent(txs, a) <= txs.len(),
    decreases txs.len(),
{
    if txs.len() > 0 {
        let t = txs.drop_last();
        let r = rs.drop_last();
        let k = ls.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies tx_wf(#[trigger] t[i]) by {
            assert(t[i] == txs[i]);
        }
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] step(k[i], k[i + 1], e, t[i], r[i]) by {
            assert(step(ls[i], ls[i + 1], e, txs[i], rs[i]));
        }
        c04_nonces(l0, e, t, r, k, a);
        let n = txs.len() - 1;
        let l = ls[n];
        assert(l == k.last());
        assert(ls.last() == ls[n + 1]);
        let tx = txs[n];
        assert(step(ls[n], ls[n + 1], e, txs[n], rs[n]));
        assert(tx_wf(txs[n]));
        lemma_sender(tx);
        let mid = if rs[n].result is Fail { l } else { tx_eff(l, e, tx) };
        lemma_bump(mid.acc, sender(tx), a, empty_hash());
        if !(rs[n].result is Fail) && tx.raw.action is Transfer {
            let ca = tx.raw.action->Transfer_carrying_asset;
            lemma_moved(l.acc, sender(tx), Address::User(tx.raw.action->receiver), ca.asset_id, ca.amount@, a, ca.asset_id);
        }
    }
}

// ------------------------------------------------------------------ C05
/// What a receipt charges: nothing for a failure, 210 or 2100 cycles otherwise, never above the limit.
pub proof fn c05_cycles(l: Led, l2: Led, e: Env, tx: SignedTransaction, rc: Receipt)
    requires
        step(l, l2, e, tx, rc),
    ensures
        !(rc.result is Fail) ==> tx_cost(tx) <= tx.raw.fee.cycle && rc.cycles_used.cycle == tx_cost(tx) * e.price,
        rc.result is Fail && io_ok() ==> rc.cycles_used.cycle == 0,
        tx.raw.fee.cycle < tx_cost(tx) ==> rc.result is Fail,
{
}

// ------------------------------------------------------------------ C06
/// A done deployment registered the asset its receipt names, and only that; others keep the registry.
pub proof fn c06_step(l: Led, l2: Led, e: Env, tx: SignedTransaction, rc: Receipt, id: Hash)
    requires
        step(l, l2, e, tx, rc),
    ensures
        ({
            let x = deployed(l, e, tx);
            let dep = tx.raw.action is Deploy && !(rc.result is Fail);
            &&& has_asset(l2.bank, id) <==> has_asset(l.bank, id) || dep && id == x.id
            &&& asset_of(l2.bank, id) == if dep && id == x.id { Some(x) } else { asset_of(l.bank, id) }
            &&& dep ==> !has_asset(l.bank, x.id) && x.id@ == keccak(e.chain@ + x.manage_contract@)
            &&& dep ==> x.manage_contract@ == seq![0x20u8] + keccak(tx.raw.action->code@ + be8(nonce(l.acc, sender(tx)))).take(20)
        }),
{
    let code = tx.raw.action->code;
    let s = seq![0x20u8] + keccak(code@ + be8(nonce(l.acc, sender(tx)))).take(20);
    let c = vx_contract(s);
    assert(contract_wf(contract_of(s)) && contract_of(s)@ == s);
    let x = deployed(l, e, tx);
    lemma_reg(l.bank, x, id);
    let h = vx_hash(keccak(e.chain@ + x.manage_contract@));
    assert(hash_of(h@)@ == h@);
}

pub axiom fn arr32(s: Seq<u8>) -> (a: [u8; 32])
    requires
        s.len() == 32,
    ensures
        a@ == s,
;

pub proof fn vx_hash(s: Seq<u8>) -> (h: Hash)
    requires
        s.len() == 32,
    ensures
        h@ == s,
{
    Hash(arr32(s))
}

// ------------------------------------------------------------------ C09
/// What the genesis lists for an account in an asset, over the first `k` entries of one allocation.
pub open spec fn listed(xs: Seq<GenesisStateAsset>, k: nat, id: Hash) -> nat
    decreases k,
{
    if k == 0 {
        0
    } else {
        listed(xs, (k - 1) as nat, id) + if alloc_id(xs[k - 1]) == id { alloc_amount(xs[k - 1]) } else { 0 }
    }
}

pub open spec fn declared(xs: Seq<GenesisStateAlloc>, k: nat, a: Address, id: Hash) -> nat
    decreases k,
{
    if k == 0 {
        0
    } else {
        declared(xs, (k - 1) as nat, a, id) + if alloc_addr(xs[k - 1]) == a { listed(xs[k - 1].assets@, xs[k - 1].assets@.len(), id) } else { 0 }
    }
}

pub proof fn lemma_listed(m: KV, a: Address, xs: Seq<GenesisStateAsset>, k: nat, b: Address, id: Hash)
    requires
        address_wf(a),
        address_wf(b),
    ensures
        bal(alloc_assets(m, a, xs, k), b, id) == bal(m, b, id) + if a == b { listed(xs, k, id) } else { 0 },
        nonce(alloc_assets(m, a, xs, k), b) == nonce(m, b),
    decreases k,
{
    if k > 0 {
        lemma_listed(m, a, xs, (k - 1) as nat, b, id);
        lemma_credit(alloc_assets(m, a, xs, (k - 1) as nat), a, alloc_id(xs[k - 1]), alloc_amount(xs[k - 1]), b, id);
    }
}

/// Genesis gives every account exactly the sum of what is listed for it.
pub proof fn c09_allocation(m: KV, xs: Seq<GenesisStateAlloc>, k: nat, b: Address, id: Hash)
    requires
        k <= xs.len(),
        address_wf(b),
        forall|i: int| 0 <= i < xs.len() ==> alloc_ok(#[trigger] xs[i]),
    ensures
        bal(allocs(m, xs, k), b, id) == bal(m, b, id) + declared(xs, k, b, id),
        nonce(allocs(m, xs, k), b) == nonce(m, b),
    decreases k,
{
    if k > 0 {
        c09_allocation(m, xs, (k - 1) as nat, b, id);
        let x = xs[k - 1];
        assert(alloc_ok(x));
        lemma_of();
        let s = hex_dec(no0x(x.address@));
        if user_ok(s) {
            let u = vx_user(s);
            assert(address_wf(Address::User(u)) && Address::User(u)@ == s);
        } else {
            let u = vx_contract(s);
            assert(address_wf(Address::Contract(u)) && Address::Contract(u)@ == s);
        }
        assert(address_wf(alloc_addr(x)));
        lemma_listed(allocs(m, xs, (k - 1) as nat), alloc_addr(x), x.assets@, x.assets@.len(), b, id);
    }
}

/// Starting from nothing, an account not listed holds nothing.
pub proof fn c09_nothing_else(xs: Seq<GenesisStateAlloc>, b: Address, id: Hash)
    requires
        address_wf(b),
        forall|i: int| 0 <= i < xs.len() ==> alloc_ok(#[trigger] xs[i]),
    ensures
        bal(allocs(Map::empty(), xs, xs.len()), b, id) == declared(xs, xs.len(), b, id),
{
    c09_allocation(Map::empty(), xs, xs.len(), b, id);
    assert(bal(Map::empty(), b, id) == 0);
}

// ------------------------------------------------------------------ C10
/// Two runs of one block from one ledger agree on every receipt (a failure's wording apart) and every ledger.
pub proof fn c10_deterministic(l0: Led, e: Env, txs: Seq<SignedTransaction>, r1: Seq<Receipt>, k1: Seq<Led>, r2: Seq<Receipt>, k2: Seq<Led>)
    requires
        io_ok(),
        ran(l0, e, txs, r1, k1),
        ran(l0, e, txs, r2, k2),
    ensures
        k1 == k2,
        forall|i: int| 0 <= i < txs.len() ==> {
            &&& (#[trigger] r1[i]).tx_hash == r2[i].tx_hash && r1[i].epoch_id == r2[i].epoch_id
            &&& r1[i].cycles_used == r2[i].cycles_used
            &&& r1[i].result is Fail <==> r2[i].result is Fail
            &&& !(r1[i].result is Fail) ==> r1[i].result == r2[i].result
        },
        fees_of(r1) == fees_of(r2),
{
    c10_upto(l0, e, txs, r1, k1, r2, k2, txs.len());
    assert forall|i: int| 0 <= i < txs.len() implies {
            &&& (#[trigger] r1[i]).tx_hash == r2[i].tx_hash && r1[i].epoch_id == r2[i].epoch_id
            &&& r1[i].cycles_used == r2[i].cycles_used
            &&& r1[i].result is Fail <==> r2[i].result is Fail
            &&& !(r1[i].result is Fail) ==> r1[i].result == r2[i].result
        } by {
        assert(step(k1[i], k1[i + 1], e, txs[i], r1[i]));
        assert(step(k2[i], k2[i + 1], e, txs[i], r2[i]));
        assert(k1[i] == k2[i]);
    }
    assert(k1 =~= k2);
    assert(fees_of(r1) =~= fees_of(r2)) by {
        assert forall|i: int| 0 <= i < txs.len() implies (#[trigger] fees_of(r1)[i]) == fees_of(r2)[i] by {
            assert(r1[i].cycles_used == r2[i].cycles_used);
        }
    }
}

pub proof fn c10_upto(l0: Led, e: Env, txs: Seq<SignedTransaction>, r1: Seq<Receipt>, k1: Seq<Led>, r2: Seq<Receipt>, k2: Seq<Led>, n: nat)
    requires
        io_ok(),
        ran(l0, e, txs, r1, k1),
        ran(l0, e, txs, r2, k2),
        n <= txs.len(),
    ensures
        forall|i: int| 0 <= i <= n ==> #[trigger] k1[i] == k2[i],
    decreases n,
{
    if n > 0 {
        c10_upto(l0, e, txs, r1, k1, r2, k2, (n - 1) as nat);
        assert(step(k1[n - 1], k1[n - 1 + 1], e, txs[n - 1], r1[n - 1]));
        assert(step(k2[n - 1], k2[n - 1 + 1], e, txs[n - 1], r2[n - 1]));
        assert(k1[n - 1] == k2[n - 1]);
    }
}

/// The root of a ledger stands for exactly one ledger.
pub proof fn c10_root(h1: DbHeap, h2: DbHeap, root: Seq<u8>, l1: Led, l2: Led)
    requires
        h1.wf(),
        h2.wf(),
        state_at(h1, root, l1),
        state_at(h2, root, l2),
    ensures
        l1 == l2,
{
    root_injective(h1.m()[root], h2.m()[root]);
    assert(bytes_of(root_of(l1.acc))@ == bytes_of(root_of(l2.acc))@);
    assert(bytes_of(root_of(l1.bank))@ == bytes_of(root_of(l2.bank))@);
    root_injective(l1.acc, l2.acc);
    root_injective(l1.bank, l2.bank);
}

/// The root is a function of the ledger and of the rest of the top trie.
pub proof fn c10_same_root(t1: KV, t2: KV, o: KV, l: Led)
    requires
        t1.contains_key(bytes_of(acc_bytes())) && t1[bytes_of(acc_bytes())] == bytes_of(root_of(l.acc)),
        t2.contains_key(bytes_of(acc_bytes())) && t2[bytes_of(acc_bytes())] == bytes_of(root_of(l.acc)),
        t1.contains_key(bytes_of(bank_bytes())) && t1[bytes_of(bank_bytes())] == bytes_of(root_of(l.bank)),
        t2.contains_key(bytes_of(bank_bytes())) && t2[bytes_of(bank_bytes())] == bytes_of(root_of(l.bank)),
        forall|k: Bytes| k != bytes_of(acc_bytes()) && k != bytes_of(bank_bytes()) ==> #[trigger] same_at(t1, o, k),
        forall|k: Bytes| k != bytes_of(acc_bytes()) && k != bytes_of(bank_bytes()) ==> #[trigger] same_at(t2, o, k),
    ensures
        root_of(t1) == root_of(t2),
{
    assert forall|k: Bytes| t1.contains_key(k) <==> #[trigger] t2.contains_key(k) by {
        if k != bytes_of(acc_bytes()) && k != bytes_of(bank_bytes()) {
            assert(same_at(t1, o, k) && same_at(t2, o, k));
        }
    }
    assert forall|k: Bytes| t1.contains_key(k) implies #[trigger] t1[k] == t2[k] by {
        if k != bytes_of(acc_bytes()) && k != bytes_of(bank_bytes()) {
            assert(same_at(t1, o, k) && same_at(t2, o, k));
        }
    }
    assert(t1 =~= t2);
}

/// Reopening at the root a block returned shows the ledger it left (C04, C09, C10).
fn reopened(chain: Hash, root: Hash, db: Db, epoch: u64, price: u64, coinbase: Address, hs: &mut StHeap, hd: &mut DbHeap, l: Ghost<Led>)
    requires
        state_at(*old(hd), root@, l@),
        address_wf(coinbase),
{
    let r = TransactionExecutorFactory::from_root(chain, root, db, epoch, price, coinbase, hs, hd);
    assert(io_ok() ==> r is Ok);
    if let Ok(x) = r {
        assert(x.base(*hs) == l@);
        assert(x.idle(*hs));
    }
}

} // verus!
