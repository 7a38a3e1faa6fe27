use crate::ext::*;
use crate::storage::{State, Block, Transaction, Operation};
use crate::ext::icrc_ledger_types::icrc1::account::Account;
use crate::ext::icrc_ledger_types::icrc1::transfer::Memo;

// ------------------------------------------------------------------ views of the ledger
pub open spec fn FEE() -> int { 100_000_000 }
pub open spec fn balm(m: Map<AKey, u128>, k: AKey) -> int { if m.contains_key(k) { m[k] as int } else { 0 } }
pub open spec fn bal(s: State, k: AKey) -> int { balm(s.balances@, k) }
pub open spec fn balu(s: State, k: AKey) -> u128 { if s.balances@.contains_key(k) { s.balances@[k] } else { 0 } }
pub open spec fn supply(s: State) -> int { s.cache.total_supply as int }
pub open spec fn nblocks(s: State) -> int { s.blocks@.len() as int }
pub open spec fn blk(s: State, i: int) -> Block { s.blocks@[i] }
pub open spec fn lastb(s: State) -> Block { s.blocks@[s.blocks@.len() - 1] }
pub open spec fn eqM(a: State, b: State) -> bool { a.balances@ == b.balances@ && a.cache.total_supply == b.cache.total_supply }
pub open spec fn eqB(a: State, b: State) -> bool { a.blocks@ == b.blocks@ }
pub open spec fn eqH(a: State, b: State) -> bool { a.cache.phash == b.cache.phash && a.cache.hash_tree@ == b.cache.hash_tree@ }
pub open spec fn eqA(a: State, b: State) -> bool { a.approvals@ == b.approvals@ && a.expiration_queue@ == b.expiration_queue@ }
pub open spec fn eqD(a: State, b: State) -> bool { a.transaction_hashes@ == b.transaction_hashes@ && a.transaction_timestamps@ == b.transaction_timestamps@ }
pub open spec fn eqG(a: State, b: State) -> bool { a.config@ == b.config@ }
// nothing but the certified data differs between two views of the environment
pub open spec fn eqE(a: EnvV, b: EnvV) -> bool { b == (EnvV { cert: b.cert, ..a }) }
// the log grew by exactly one block
pub open spec fn grown(a: State, b: State) -> bool { b.blocks@.len() > 0 && b.blocks@ == a.blocks@.push(lastb(b)) }
pub open spec fn prefix(a: State, b: State) -> bool { a.blocks@.len() <= b.blocks@.len() && (forall|i: int| 0 <= i < a.blocks@.len() ==> #[trigger] b.blocks@[i] == a.blocks@[i]) }
// the balance of `k` changed by n, and so did the supply; nothing else did
pub open spec fn moved(a: State, b: State, k: AKey, n: int) -> bool {
    &&& supply(b) == supply(a) + n
    &&& forall|x: AKey| #![trigger balm(b.balances@, x)] #![trigger balm(a.balances@, x)] balm(b.balances@, x) == balm(a.balances@, x) + (if x == k { n } else { 0 })
}

// ------------------------------------------------------------------ hashes (collision resistance is never needed)
pub uninterp spec fn bhash(b: Block) -> [u8; 32];
pub uninterp spec fn txh(t: Transaction) -> [u8; 32];

// ------------------------------------------------------------------ operations
pub open spec fn op_fee(op: Operation) -> Option<u128> {
    match op { Operation::Transfer { fee, .. } => fee, Operation::Approve { fee, .. } => fee, _ => None }
}
pub open spec fn op_has_fee(op: Operation) -> bool { !(op is Mint) }
// the fee of a block: the one in the transaction, or else the one in the block
pub open spec fn bfee(b: Block) -> int {
    match op_fee(b.transaction.operation) { Some(f) => f as int, None => match b.effective_fee { Some(f) => f as int, None => 0 } }
}
pub open spec fn fee_once(b: Block) -> bool {
    op_has_fee(b.transaction.operation) ==> (op_fee(b.transaction.operation) is Some <==> b.effective_fee is None) && (b.effective_fee is Some ==> b.effective_fee->Some_0 == FEE())
}
pub open spec fn memo_ok(m: Option<Memo>) -> bool { m is Some ==> m->Some_0.0@.len() <= 32 }

// ------------------------------------------------------------------ time window
pub open spec fn WINDOW() -> int { 86_400_000_000_000 }
pub open spec fn DRIFT() -> int { 60_000_000_000 }
pub open spec fn too_old(ts: u64, now: u64) -> bool { ts + WINDOW() + DRIFT() < now }
pub open spec fn in_future(ts: u64, now: u64) -> bool { ts > now + DRIFT() }
pub open spec fn in_window(c: Option<u64>, now: u64) -> bool { c is Some ==> !too_old(c->Some_0, now) && !in_future(c->Some_0, now) }

//#if C01 C15 C23 C31
// ------------------------------------------------------------------ C01: supply == sum of balances
pub open spec fn msum(m: Map<AKey, u128>) -> int
    decreases m.dom().len()
{
    if m.dom().len() > 0 { let k = m.dom().choose(); m[k] as int + msum(m.remove(k)) } else { 0 }
}
pub open spec fn mget(m: Map<AKey, u128>, k: AKey) -> int { if m.contains_key(k) { m[k] as int } else { 0 } }
pub proof fn msum_split(m: Map<AKey, u128>, k: AKey)
    requires m.contains_key(k)
    ensures msum(m) == m[k] as int + msum(m.remove(k))
    decreases m.dom().len()
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0);
    assert(m.dom().contains(c));
    if c != k {
        msum_split(m.remove(c), k);
        msum_split(m.remove(k), c);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub broadcast proof fn msum_remove(m: Map<AKey, u128>, k: AKey)
    ensures #[trigger] msum(m.remove(k)) == msum(m) - mget(m, k)
{
    if m.contains_key(k) { msum_split(m, k); } else { assert(m.remove(k) =~= m); }
}
pub broadcast proof fn msum_insert(m: Map<AKey, u128>, k: AKey, v: u128)
    ensures #[trigger] msum(m.insert(k, v)) == msum(m) - mget(m, k) + v
{
    let n = m.insert(k, v);
    msum_split(n, k);
    assert(n.remove(k) =~= m.remove(k));
    msum_remove(m, k);
}
//#endif
//#if C01
pub broadcast group grp { msum_remove, msum_insert, rep32_is, crate::ext::bb_of }
pub open spec fn inv(s: State, e: EnvV) -> bool { msum(s.balances@) == supply(s) && inv_q(s) }
//#endif
//#if C15 C31
pub broadcast proof fn bal_le(s: State, k: AKey)
    requires msum(s.balances@) == supply(s)
    ensures #[trigger] bal(s, k) <= supply(s)
{
    if s.balances@.contains_key(k) { msum_split(s.balances@, k); msum_nonneg(s.balances@.remove(k)); } else { msum_nonneg(s.balances@); }
}
pub proof fn msum_nonneg(m: Map<AKey, u128>)
    ensures msum(m) >= 0
    decreases m.dom().len()
{
    if m.dom().len() > 0 { msum_nonneg(m.remove(m.dom().choose())); }
}
//#if C31
pub broadcast group grp { msum_remove, msum_insert, bal_le, txh_ts_of, rep32_is, crate::ext::bb_of, crate::ext::principal_len, crate::ext::memo_cbor_len }
//#else
pub broadcast group grp { msum_remove, msum_insert, bal_le, txh_ts_of, rep32_is, crate::ext::bb_of }
//#endif
//#endif

//#if C02
// ------------------------------------------------------------------ C02: the log explains every balance
pub open spec fn effect(b: Block, k: AKey) -> int {
    match b.transaction.operation {
        Operation::Mint { to, amount, .. } => if k == akey(to) { amount as int } else { 0 },
        Operation::Transfer { from, to, amount, .. } => (if k == akey(to) { amount as int } else { 0 }) - (if k == akey(from) { amount + bfee(b) } else { 0 }),
        Operation::Burn { from, amount, .. } => if k == akey(from) { -(amount + bfee(b)) } else { 0 },
        Operation::Approve { from, .. } => if k == akey(from) { -bfee(b) } else { 0 },
    }
}
pub open spec fn replay(bs: Seq<Block>, k: AKey) -> int
    decreases bs.len()
{
    if bs.len() == 0 { 0 } else { replay(bs.drop_last(), k) + effect(bs.last(), k) }
}
pub broadcast proof fn replay_push(bs: Seq<Block>, b: Block, k: AKey)
    ensures #[trigger] replay(bs.push(b), k) == replay(bs, k) + effect(b, k)
{
    assert(bs.push(b).drop_last() =~= bs);
}
pub broadcast group grp { replay_push, rep32_is, crate::ext::bb_of }
pub open spec fn inv(s: State, e: EnvV) -> bool { forall|k: AKey| #[trigger] balm(s.balances@, k) == replay(s.blocks@, k) }
//#endif

// ------------------------------------------------------------------ answers, independent of the error type that carries them
pub ghost enum GR {
    Ok(nat),
    Canister(nat, crate::ext::candid::Principal),
    BadFee(nat),
    BadBurn(nat),
    NoFunds(nat),
    NoAllowance(nat),
    TooOld,
    Future(u64),
    Busy,
    Dup(nat, Option<crate::ext::candid::Principal>),
    Generic(nat, crate::ext::Str),
    Changed(nat),
    Expired(u64),
    Receiver(crate::ext::candid::Principal),
    // block of the payment, of the refund, of the restored approval; rejection code and reason
    Failed(Option<nat>, Option<nat>, Option<nat>, Option<crate::endpoints::RejectionCode>, crate::ext::Str),
}
pub open spec fn optn(o: Option<crate::ext::candid::Nat>) -> Option<nat> { match o { Some(n) => Some(n@), None => None } }
pub open spec fn optu(o: Option<u128>) -> Option<nat> { match o { Some(n) => Some(n as nat), None => None } }
pub open spec fn gr_tfe(e: crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError) -> GR {
    match e {
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::BadFee { expected_fee } => GR::BadFee(expected_fee@),
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::BadBurn { min_burn_amount } => GR::BadBurn(min_burn_amount@),
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::InsufficientAllowance { allowance } => GR::NoAllowance(allowance@),
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::TooOld => GR::TooOld,
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::Duplicate { duplicate_of } => GR::Dup(duplicate_of@, None),
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::TemporarilyUnavailable => GR::Busy,
        crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError::GenericError { error_code, message } => GR::Generic(error_code@, message),
    }
}
pub open spec fn gr_te(e: crate::ext::icrc_ledger_types::icrc1::transfer::TransferError) -> GR {
    match e {
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::BadFee { expected_fee } => GR::BadFee(expected_fee@),
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::BadBurn { min_burn_amount } => GR::BadBurn(min_burn_amount@),
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::TooOld => GR::TooOld,
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::Duplicate { duplicate_of } => GR::Dup(duplicate_of@, None),
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::TemporarilyUnavailable => GR::Busy,
        crate::ext::icrc_ledger_types::icrc1::transfer::TransferError::GenericError { error_code, message } => GR::Generic(error_code@, message),
    }
}
pub open spec fn gr_ae(e: crate::ext::icrc_ledger_types::icrc2::approve::ApproveError) -> GR {
    match e {
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::BadFee { expected_fee } => GR::BadFee(expected_fee@),
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::AllowanceChanged { current_allowance } => GR::Changed(current_allowance@),
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::Expired { ledger_time } => GR::Expired(ledger_time),
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::TooOld => GR::TooOld,
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::Duplicate { duplicate_of } => GR::Dup(duplicate_of@, None),
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::TemporarilyUnavailable => GR::Busy,
        crate::ext::icrc_ledger_types::icrc2::approve::ApproveError::GenericError { error_code, message } => GR::Generic(error_code@, message),
    }
}
pub open spec fn gr_wfe(e: crate::endpoints::WithdrawFromError) -> GR {
    match e {
        crate::endpoints::WithdrawFromError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::endpoints::WithdrawFromError::InsufficientAllowance { allowance } => GR::NoAllowance(allowance@),
        crate::endpoints::WithdrawFromError::TooOld => GR::TooOld,
        crate::endpoints::WithdrawFromError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::endpoints::WithdrawFromError::TemporarilyUnavailable => GR::Busy,
        crate::endpoints::WithdrawFromError::Duplicate { duplicate_of } => GR::Dup(duplicate_of@, None),
        crate::endpoints::WithdrawFromError::FailedToWithdrawFrom { withdraw_from_block, refund_block, approval_refund_block, rejection_code, rejection_reason } => GR::Failed(optn(withdraw_from_block), optn(refund_block), optn(approval_refund_block), Some(rejection_code), rejection_reason),
        crate::endpoints::WithdrawFromError::GenericError { error_code, message } => GR::Generic(error_code@, message),
        crate::endpoints::WithdrawFromError::InvalidReceiver { receiver } => GR::Receiver(receiver),
    }
}
pub open spec fn gr_we(e: crate::endpoints::WithdrawError) -> GR {
    match e {
        crate::endpoints::WithdrawError::BadFee { expected_fee } => GR::BadFee(expected_fee@),
        crate::endpoints::WithdrawError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::endpoints::WithdrawError::TooOld => GR::TooOld,
        crate::endpoints::WithdrawError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::endpoints::WithdrawError::TemporarilyUnavailable => GR::Busy,
        crate::endpoints::WithdrawError::Duplicate { duplicate_of } => GR::Dup(duplicate_of@, None),
        crate::endpoints::WithdrawError::FailedToWithdraw { fee_block, rejection_code, rejection_reason } => GR::Failed(None, optn(fee_block), None, Some(rejection_code), rejection_reason),
        crate::endpoints::WithdrawError::GenericError { error_code, message } => GR::Generic(error_code@, message),
        crate::endpoints::WithdrawError::InvalidReceiver { receiver } => GR::Receiver(receiver),
    }
}
pub open spec fn gr_cfe(e: crate::endpoints::CreateCanisterFromError) -> GR {
    match e {
        crate::endpoints::CreateCanisterFromError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::endpoints::CreateCanisterFromError::InsufficientAllowance { allowance } => GR::NoAllowance(allowance@),
        crate::endpoints::CreateCanisterFromError::TooOld => GR::TooOld,
        crate::endpoints::CreateCanisterFromError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::endpoints::CreateCanisterFromError::TemporarilyUnavailable => GR::Busy,
        crate::endpoints::CreateCanisterFromError::Duplicate { duplicate_of, canister_id } => GR::Dup(duplicate_of@, canister_id),
        crate::endpoints::CreateCanisterFromError::FailedToCreateFrom { create_from_block, refund_block, approval_refund_block, rejection_code, rejection_reason } => GR::Failed(optn(create_from_block), optn(refund_block), optn(approval_refund_block), Some(rejection_code), rejection_reason),
        crate::endpoints::CreateCanisterFromError::GenericError { error_code, message } => GR::Generic(error_code@, message),
    }
}
pub open spec fn gr_ce(e: crate::endpoints::CreateCanisterError) -> GR {
    match e {
        crate::endpoints::CreateCanisterError::InsufficientFunds { balance } => GR::NoFunds(balance@),
        crate::endpoints::CreateCanisterError::TooOld => GR::TooOld,
        crate::endpoints::CreateCanisterError::CreatedInFuture { ledger_time } => GR::Future(ledger_time),
        crate::endpoints::CreateCanisterError::TemporarilyUnavailable => GR::Busy,
        crate::endpoints::CreateCanisterError::Duplicate { duplicate_of, canister_id } => GR::Dup(duplicate_of@, canister_id),
        crate::endpoints::CreateCanisterError::FailedToCreate { fee_block, refund_block, error } => GR::Failed(optn(fee_block), optn(refund_block), None, None, error),
        crate::endpoints::CreateCanisterError::GenericError { error_code, message } => GR::Generic(error_code@, message),
    }
}
pub open spec fn gr_pt(e: crate::storage::ProcessTransactionError) -> GR {
    match e {
        crate::storage::ProcessTransactionError::Duplicate { duplicate_of, canister_id } => GR::Dup(duplicate_of as nat, canister_id),
        crate::storage::ProcessTransactionError::InvalidCreatedAtTime(v) => gr_ca(v),
        crate::storage::ProcessTransactionError::GenericError(_) => GR::Generic(100000, crate::ext::Str { id: 0 }),
    }
}
pub open spec fn gr_ca(e: crate::storage::CreatedAtTimeValidationError) -> GR {
    match e {
        crate::storage::CreatedAtTimeValidationError::TooOld => GR::TooOld,
        crate::storage::CreatedAtTimeValidationError::InTheFuture { ledger_time } => GR::Future(ledger_time),
    }
}
pub open spec fn gr_ua(e: crate::storage::UseAllowanceError) -> GR {
    match e {
        crate::storage::UseAllowanceError::CannotDeduceZero => GR::Generic(100002, crate::ext::Str { id: 0 }),
        crate::storage::UseAllowanceError::ExpiredApproval => GR::NoAllowance(0),
        crate::storage::UseAllowanceError::InsufficientAllowance { allowance } => GR::NoAllowance(allowance as nat),
    }
}
pub open spec fn gr_tf(r: core::result::Result<crate::ext::candid::Nat, crate::ext::icrc_ledger_types::icrc2::transfer_from::TransferFromError>) -> GR { match r { Ok(n) => GR::Ok(n@), Err(e) => gr_tfe(e) } }
pub open spec fn gr_t(r: core::result::Result<crate::ext::candid::Nat, crate::ext::icrc_ledger_types::icrc1::transfer::TransferError>) -> GR { match r { Ok(n) => GR::Ok(n@), Err(e) => gr_te(e) } }
pub open spec fn gr_a(r: core::result::Result<crate::ext::candid::Nat, crate::ext::icrc_ledger_types::icrc2::approve::ApproveError>) -> GR { match r { Ok(n) => GR::Ok(n@), Err(e) => gr_ae(e) } }
pub open spec fn gr_w(r: core::result::Result<crate::ext::candid::Nat, crate::endpoints::WithdrawError>) -> GR { match r { Ok(n) => GR::Ok(n@), Err(e) => gr_we(e) } }
pub open spec fn gr_wf(r: core::result::Result<crate::ext::candid::Nat, crate::endpoints::WithdrawFromError>) -> GR { match r { Ok(n) => GR::Ok(n@), Err(e) => gr_wfe(e) } }
pub open spec fn gr_c(r: core::result::Result<crate::endpoints::CreateCanisterSuccess, crate::endpoints::CreateCanisterError>) -> GR { match r { Ok(n) => GR::Canister(n.block_id@, n.canister_id), Err(e) => gr_ce(e) } }
pub open spec fn gr_cf(r: core::result::Result<crate::endpoints::CreateCanisterSuccess, crate::endpoints::CreateCanisterFromError>) -> GR { match r { Ok(n) => GR::Canister(n.block_id@, n.canister_id), Err(e) => gr_cfe(e) } }
pub open spec fn good(g: GR) -> bool { g is Ok || g is Canister }
// what a conversion between error types has to keep for this property (`a` before, `b` after)
pub open spec fn keep(a: GR, b: GR) -> bool {
    &&& !good(b)
//#if C22
    &&& match a {
        GR::Dup(i, c) => b is Dup && b->Dup_0 == i && (b->Dup_1 == c || b->Dup_1 is None),
        GR::Generic(c, m) => b is Generic && b->Generic_0 == c && (m.id == 0 || b->Generic_1 == m),
        GR::Failed(w, rf, ap, c, m) => b is Failed && (b->Failed_0 == w || b->Failed_0 is None) && b->Failed_1 == rf && (b->Failed_2 == ap || b->Failed_2 is None) && (b->Failed_3 == c || b->Failed_3 is None) && b->Failed_4 == m,
        GR::NoAllowance(n) => b == a || (n == 0 && b is Generic),
        _ => a == b,
    }
//#endif
//#if C31
    &&& match a {
        GR::Dup(i, c) => b is Dup && b->Dup_0 == i,
        GR::Generic(c, m) => b is Generic,
        GR::Failed(w, rf, ap, c, m) => b is Failed,
        GR::NoAllowance(n) => b == a || (n == 0 && b is Generic),
        _ => a == b,
    }
//#endif
//#if C11
    &&& a is Dup <==> b is Dup
    &&& a is Dup ==> a->Dup_0 == b->Dup_0 && (b->Dup_1 == a->Dup_1 || b->Dup_1 is None)
//#endif
//#if C12
    &&& (a is TooOld || b is TooOld || a is Future || b is Future || a is Receiver || b is Receiver) ==> a == b
//#endif
//#if C08
    &&& (a is Changed || b is Changed || a is Expired || b is Expired || a is NoFunds || b is NoFunds) ==> a == b
//#endif
//#if C25
    &&& (a is NoFunds || b is NoFunds || a is BadFee || b is BadFee || a is Changed || b is Changed || a is Receiver || b is Receiver) ==> a == b
//#endif
//#if C09
    &&& (a is Changed || b is Changed) ==> a == b
//#endif
//#if C27
    &&& (a is BadFee || b is BadFee) ==> a == b
    &&& b is NoFunds ==> a is NoFunds
    &&& (a is Dup ==> b is Dup) && (a is Generic ==> b is Generic)
//#endif
//#if C28
    &&& (a is Receiver || b is Receiver) ==> a == b
//#endif
//#if C13 C14 C15 C16 C06 C28
    &&& a is Failed <==> b is Failed
    &&& a is Failed ==> (b->Failed_0 == a->Failed_0 || b->Failed_0 is None) && b->Failed_1 == a->Failed_1 && (b->Failed_2 == a->Failed_2 || b->Failed_2 is None) && (b->Failed_3 == a->Failed_3 || b->Failed_3 is None) && b->Failed_4 == a->Failed_4
//#endif
}

// ------------------------------------------------------------------ allowances
pub type PK = (AKey, AKey);
pub open spec fn usablem(m: Map<PK, (u128, u64)>, k: PK, now: u64) -> (u128, u64) {
    if m.contains_key(k) && (m[k].1 == 0 || m[k].1 > now) { m[k] } else { (0u128, 0u64) }
}
pub open spec fn usable(s: State, k: PK, now: u64) -> (u128, u64) { usablem(s.approvals@, k, now) }
// allowances with an expiry and the expiration queue correspond one to one; no allowance is zero
pub open spec fn inv_q(s: State) -> bool {
    &&& forall|k: PK| #[trigger] s.approvals@.contains_key(k) ==> s.approvals@[k].0 > 0 && (s.approvals@[k].1 > 0 ==> s.expiration_queue@.contains_key((s.approvals@[k].1, k)))
    &&& forall|q: (u64, PK)| #[trigger] s.expiration_queue@.contains_key(q) ==> q.0 > 0 && s.approvals@.contains_key(q.1) && s.approvals@[q.1].1 == q.0
//#if C26 C15 C31
    &&& forall|k: PK| #[trigger] s.approvals@.contains_key(k) ==> k.0.0 != k.1.0 && k.0.0 != crate::ext::mgmt() && k.1.0 != crate::ext::mgmt()
//#endif
}
pub open spec fn set_allow(m: Map<PK, (u128, u64)>, k: PK, n: u128, e: u64) -> Map<PK, (u128, u64)> { if n == 0 { m.remove(k) } else { m.insert(k, (n, e)) } }
pub open spec fn norm(n: nat, e: u64) -> (u128, u64) { if n == 0 { (0u128, 0u64) } else { (n as u128, e) } }
pub open spec fn unexp_same(a: State, b: State, now: u64) -> bool { forall|k: PK| #![trigger usablem(b.approvals@, k, now)] #![trigger usablem(a.approvals@, k, now)] usablem(b.approvals@, k, now) == usablem(a.approvals@, k, now) }
pub open spec fn unexp_set(a: State, b: State, now: u64, k: PK, v: (u128, u64)) -> bool { forall|x: PK| #![trigger usablem(b.approvals@, x, now)] #![trigger usablem(a.approvals@, x, now)] usablem(b.approvals@, x, now) == (if x == k { v } else { usablem(a.approvals@, x, now) }) }
pub open spec fn acct(owner: crate::ext::candid::Principal, sub: Option<[u8; 32]>) -> Account { Account { owner, subaccount: sub } }
pub open spec fn third(from: Account, sp: Option<Account>) -> bool { sp is Some && akey(sp->Some_0) != akey(from) }
pub open spec fn pk(from: Account, sp: Option<Account>) -> PK { (akey(from), akey(sp->Some_0)) }
// `n` was taken from an allowance that had at least that much left
pub open spec fn spent(a: State, b: State, k: PK, n: nat, now: u64) -> bool {
    &&& usable(a, k, now).0 >= n
    &&& unexp_set(a, b, now, k, norm((usable(a, k, now).0 - n) as nat, usable(a, k, now).1))
}
pub open spec fn paid(a: State, b: State, from: Account, sp: Option<Account>, n: nat, now: u64) -> bool {
    if third(from, sp) { spent(a, b, pk(from, sp), n, now) } else { unexp_same(a, b, now) }
}
// ------------------------------------------------------------------ expired allowances still stored
pub open spec fn expdm(m: Map<(u64, PK), ()>, t: u64) -> Set<(u64, PK)> { m.dom().filter(|q: (u64, PK)| q.0 <= t) }
pub open spec fn expd(s: State, t: u64) -> Set<(u64, PK)> { expdm(s.expiration_queue@, t) }
//#if C10
pub broadcast proof fn expd_removed(m: Map<(u64, PK), ()>, t: u64, q: (u64, PK))
    ensures #[trigger] expdm(m.remove(q), t).len() == expdm(m, t).len() - (if m.contains_key(q) && q.0 <= t { 1int } else { 0 })
{
    if m.contains_key(q) && q.0 <= t {
        assert(expdm(m.remove(q), t) =~= expdm(m, t).remove(q));
        assert(expdm(m, t).contains(q));
    } else {
        assert(expdm(m.remove(q), t) =~= expdm(m, t));
    }
}
pub broadcast proof fn expd_none(a: State, t: u64)
    requires forall|q: (u64, PK)| #[trigger] a.expiration_queue@.contains_key(q) ==> q.0 > t
    ensures #[trigger] expd(a, t).len() == 0
{
    assert(expd(a, t) =~= Set::empty());
}
pub broadcast proof fn expd_same(a: State, b: State, t: u64)
    requires forall|q: (u64, PK)| q.0 <= t ==> (#[trigger] a.expiration_queue@.contains_key(q) <==> #[trigger] b.expiration_queue@.contains_key(q))
    ensures #[trigger] expd(a, t) == #[trigger] expd(b, t)
{
    assert(expd(a, t) =~= expd(b, t));
}
//#endif
pub open spec fn queue_sub(a: State, b: State) -> bool { b.expiration_queue@.dom().subset_of(a.expiration_queue@.dom()) }
pub open spec fn pruned(a: State, b: State, now: u64, n: int) -> bool {
    &&& expd(b, now).subset_of(expd(a, now))
    &&& expd(b, now).len() == 0 || expd(a, now).len() - expd(b, now).len() >= n
}
// what was removed had expired, and expired no later than anything that is left
pub open spec fn earliest(a: State, b: State, now: u64) -> bool {
    forall|q: (u64, PK), p: (u64, PK)| a.expiration_queue@.contains_key(q) && !b.expiration_queue@.contains_key(q) && #[trigger] a.expiration_queue@.contains_key(q) && #[trigger] b.expiration_queue@.contains_key(p) ==> q.0 <= now && q.0 <= p.0
}

// ------------------------------------------------------------------ transactions
pub open spec fn xtx(from: Account, to: Account, sp: Option<Account>, amount: nat, fee: Option<nat>, memo: Option<Memo>, created: Option<u64>) -> Transaction {
    Transaction { operation: Operation::Transfer { from, to, spender: sp, amount: amount as u128, fee: match fee { Some(f) => Some(f as u128), None => None } }, created_at_time: created, memo }
}
pub open spec fn atx(from: Account, spender: Account, amount: nat, fee: Option<nat>, memo: Option<Memo>, created: Option<u64>, expected: Option<nat>, expires: Option<u64>) -> Transaction {
    Transaction { operation: Operation::Approve { from, spender, amount: amount as u128, expected_allowance: match expected { Some(f) => Some(f as u128), None => None }, expires_at: expires, fee: match fee { Some(f) => Some(f as u128), None => None } }, created_at_time: created, memo }
}
pub open spec fn mtx(to: Account, amount: nat, fee: nat, memo: Option<Memo>) -> Transaction {
    Transaction { operation: Operation::Mint { to, amount: amount as u128, fee: fee as u128 }, created_at_time: None, memo }
}
pub open spec fn mm(bytes: Seq<u8>) -> Option<Memo> { Some(Memo(crate::ext::bb(bytes))) }
pub open spec fn btx(from: Account, sp: Option<Account>, amount: nat, created: Option<u64>, memo: Seq<u8>) -> Transaction {
    Transaction { operation: Operation::Burn { from, spender: sp, amount: amount as u128 }, created_at_time: created, memo: mm(memo) }
}
pub open spec fn wmemo(to: crate::ext::candid::Principal) -> Seq<u8> { crate::ext::memo_cbor(to@) }
pub open spec fn rep32(x: u8) -> Seq<u8> { Seq::new(32, |i: int| x) }
pub broadcast proof fn rep32_is(s: Seq<u8>, x: u8)
    requires s.len() == 32, forall|i: int| 0 <= i < 32 ==> s[i] == x
    ensures #[trigger] crate::ext::bb(s) == crate::ext::bb(#[trigger] rep32(x))
{ assert(s =~= rep32(x)); }
pub open spec fn penalize_memo() -> Seq<u8> { rep32(255) }
pub open spec fn create_memo() -> Seq<u8> { rep32(254) }
pub open spec fn refund_memo() -> Seq<u8> { rep32(253) }
pub open spec fn self_auth(p: crate::ext::candid::Principal) -> bool { p@.len() == 29 && p@[28] == 2 }
pub open spec fn cmc(p: crate::ext::candid::Principal) -> bool { p@ == seq![0u8, 0, 0, 0, 0, 0, 0, 4, 1, 1] }
pub open spec fn dup(a: State, t: Transaction) -> bool { a.transaction_hashes@.contains_key(txh(t)) }
pub open spec fn dup_ans(a: State, t: Transaction) -> GR { GR::Dup(a.transaction_hashes@[txh(t)].0 as nat, a.transaction_hashes@[txh(t)].1) }
pub open spec fn same_dup(g: GR, d: GR, canister: bool) -> bool { g is Dup && g->Dup_0 == d->Dup_0 && (canister ==> g == d) }
pub open spec fn denied(a: Account) -> bool { a.owner == crate::ext::mgmt() }
pub open spec fn fee_ok(f: Option<nat>) -> bool { f is None || f == Some(100_000_000nat) }
pub open spec fn cap(n: nat) -> nat { if n <= u128::MAX { n } else { u128::MAX as nat } }
// nothing of value changed
pub open spec fn untouched(a: State, b: State, now: u64) -> bool { eqM(a, b) && eqB(a, b) && eqD(a, b) && unexp_same(a, b, now) && eqG(a, b) }
pub open spec fn hashes_sub(a: State, b: State) -> bool {
    forall|h: [u8; 32]| #[trigger] b.transaction_hashes@.contains_key(h) ==> a.transaction_hashes@.contains_key(h) && b.transaction_hashes@[h] == a.transaction_hashes@[h]
}
// the money of `a` became the money of `b`: `from` paid amount+fee, `to` got amount
pub open spec fn transferred(a: State, b: State, from: AKey, to: AKey, n: int) -> bool {
    &&& supply(b) == supply(a) - FEE()
    &&& forall|x: AKey| #![trigger balm(b.balances@, x)] #![trigger balm(a.balances@, x)] balm(b.balances@, x) == balm(a.balances@, x) - (if x == from { n + FEE() } else { 0 }) + (if x == to { n } else { 0 })
}

// ------------------------------------------------------------------ what each operation does, per property
// transfer (own account, or on behalf of another: sp)
pub open spec fn tf(a: State, b: State, now: u64, from: Account, to: Account, sp: Option<Account>, amount: nat, fee: Option<nat>, memo: Option<Memo>, created: Option<u64>, r: GR) -> bool {
    let t = xtx(from, to, sp, amount, fee, memo, created);
    &&& eqG(a, b)
//#if C01
    &&& if r is Ok { supply(b) == supply(a) - FEE() } else { eqM(a, b) }
//#endif
//#if C05
    &&& r is Ok ==> amount <= u128::MAX && (fee is Some ==> fee->Some_0 <= u128::MAX) && transferred(a, b, akey(from), akey(to), amount as int) && grown(a, b) && r == GR::Ok(a.blocks@.len()) && lastb(b).transaction == t
//#endif
//#if C06
    &&& !(r is Ok) ==> untouched(a, b, now)
//#endif
//#if C07
    &&& r is Ok ==> paid(a, b, from, sp, (amount + FEE()) as nat, now)
//#endif
//#if C09
    &&& r is Ok && third(from, sp) ==> usable(a, pk(from, sp), now).0 >= amount + FEE()
//#endif
//#if C11
    &&& amount <= u128::MAX && (fee is Some ==> fee->Some_0 <= u128::MAX) && dup(a, t) ==> same_dup(r, dup_ans(a, t), false)
    &&& r is Dup ==> dup(a, t)
//#endif
//#if C12
    &&& r is Ok ==> in_window(created, now)
    &&& r is TooOld ==> created is Some && too_old(created->Some_0, now)
    &&& r is Future ==> created is Some && in_future(created->Some_0, now) && r->Future_0 == now
    &&& !in_window(created, now) && amount + FEE() <= bal(a, akey(from)) && bal(a, akey(to)) + amount <= u128::MAX && supply(a) >= FEE() && sp is None && fee_ok(fee) && !denied(from) && !denied(to) && !dup(a, t)
        ==> r is TooOld || r is Future
//#endif
//#if C24
    &&& r is Ok ==> memo_ok(memo) && lastb(b).transaction.memo == memo
//#endif
//#if C25
    &&& r is Ok ==> amount + FEE() <= bal(a, akey(from)) && transferred(a, b, akey(from), akey(to), amount as int)
    &&& r is NoFunds ==> r == GR::NoFunds(bal(a, akey(from)) as nat) && amount + FEE() > bal(a, akey(from))
    &&& r is BadFee ==> !fee_ok(fee)
    &&& amount + FEE() > bal(a, akey(from)) && sp is None && !denied(from) && !denied(to) && fee_ok(fee) && (amount <= u128::MAX ==> !dup(a, t)) ==> r is NoFunds
    &&& amount <= u128::MAX && fee is Some && fee->Some_0 > u128::MAX ==> r is BadFee
//#endif
//#if C26
    &&& r is Ok ==> !denied(from) && !denied(to) && (sp is Some ==> !denied(sp->Some_0))
//#endif
//#if C27
    &&& r is Ok ==> fee_ok(fee) && transferred(a, b, akey(from), akey(to), amount as int) && fee_once(lastb(b)) && op_fee(lastb(b).transaction.operation) == (match fee { Some(f) => Some(f as u128), None => None::<u128> })
    &&& r is BadFee ==> r == GR::BadFee(FEE() as nat) && !fee_ok(fee)
    &&& amount <= u128::MAX && !fee_ok(fee) ==> r is BadFee || r is Dup || r is Generic
    &&& amount <= u128::MAX && !fee_ok(fee) && !denied(from) && !denied(to) && (sp is Some ==> !denied(sp->Some_0)) && (fee->Some_0 <= u128::MAX ==> !dup(a, t)) ==> r is BadFee
//#endif
//#if C31
    &&& r is Ok <==> amount + FEE() <= bal(a, akey(from)) && fee_ok(fee) && memo_ok(memo) && in_window(created, now) && !dup(a, t)
        && !denied(from) && !denied(to) && (sp is Some ==> !denied(sp->Some_0)) && bal(a, akey(to)) + amount <= u128::MAX
        && (third(from, sp) ==> usable(a, pk(from, sp), now).0 >= amount + FEE())
    &&& !(r is Ok) ==> match r {
        GR::NoFunds(n) => n == bal(a, akey(from)) && amount + FEE() > n,
        GR::NoAllowance(n) => third(from, sp) && n == usable(a, pk(from, sp), now).0 && amount + FEE() > n,
        GR::BadFee(n) => n == FEE() && !fee_ok(fee),
        GR::TooOld => created is Some && too_old(created->Some_0, now),
        GR::Future(n) => created is Some && in_future(created->Some_0, now) && n == now,
        GR::Dup(n, c) => dup(a, t) && same_dup(r, dup_ans(a, t), false),
        GR::Generic(c, m) => denied(from) || denied(to) || (sp is Some && denied(sp->Some_0)) || bal(a, akey(to)) + amount > u128::MAX || (third(from, sp) && usable(a, pk(from, sp), now).0 == 0),
        _ => false,
    }
//#endif
}
// approval
pub open spec fn ap(a: State, b: State, now: u64, from: Account, spender: Account, amount0: nat, fee: Option<nat>, memo: Option<Memo>, created: Option<u64>, expected: Option<nat>, expires: Option<u64>, r: GR) -> bool {
    let amount = cap(amount0);
    let t = atx(from, spender, amount, fee, memo, created, expected, expires);
    let k = (akey(from), akey(spender));
    &&& eqG(a, b)
//#if C01
    &&& if r is Ok { supply(b) == supply(a) - FEE() } else { eqM(a, b) }
//#endif
//#if C06
    &&& !(r is Ok) ==> untouched(a, b, now)
//#endif
//#if C08
    &&& r is Ok ==> {
        &&& expected is Some ==> expected->Some_0 == usable(a, k, now).0
        &&& expires is Some ==> expires->Some_0 > now
        &&& bal(a, akey(from)) >= FEE()
        &&& unexp_set(a, b, now, k, norm(amount, match expires { Some(e) => e, None => 0u64 }))
        &&& moved(a, b, akey(from), -FEE())
        &&& grown(a, b) && r == GR::Ok(a.blocks@.len()) && lastb(b).transaction == t
    }
    &&& r is Changed ==> expected is Some && expected->Some_0 != usable(a, k, now).0 && r == GR::Changed(usable(a, k, now).0 as nat)
    &&& r is Expired ==> expires is Some && expires->Some_0 <= now && r == GR::Expired(now)
    &&& r is NoFunds ==> bal(a, akey(from)) < FEE() && r == GR::NoFunds(bal(a, akey(from)) as nat)
    &&& !denied(from) && !denied(spender) && !dup(a, t) && expected is Some && expected->Some_0 <= u128::MAX && expected->Some_0 != usable(a, k, now).0 && (fee is Some ==> fee->Some_0 <= u128::MAX) ==> r is Changed
    &&& !denied(from) && !denied(spender) && !dup(a, t) && (expected is Some ==> expected->Some_0 == usable(a, k, now).0) && fee_ok(fee) && bal(a, akey(from)) < FEE() ==> r is NoFunds || r is Expired
    &&& !denied(from) && !denied(spender) && !dup(a, t) && (expected is Some ==> expected->Some_0 == usable(a, k, now).0) && fee_ok(fee) && bal(a, akey(from)) >= FEE() && expires is Some && expires->Some_0 <= now ==> r is Expired
//#endif
//#if C09
    &&& r is Ok && expected is Some ==> expected->Some_0 == usable(a, k, now).0
    &&& r is Changed ==> r == GR::Changed(usable(a, k, now).0 as nat)
//#endif
//#if C11
    &&& (fee is Some ==> fee->Some_0 <= u128::MAX) && (expected is Some ==> expected->Some_0 <= u128::MAX) && dup(a, t) ==> same_dup(r, dup_ans(a, t), false)
    &&& r is Dup ==> dup(a, t)
//#endif
//#if C12
    &&& r is Ok ==> in_window(created, now)
    &&& r is TooOld ==> created is Some && too_old(created->Some_0, now)
    &&& r is Future ==> created is Some && in_future(created->Some_0, now) && r->Future_0 == now
    &&& !in_window(created, now) && bal(a, akey(from)) >= FEE() && supply(a) >= FEE() && fee_ok(fee) && expected is None && expires is None && now < u64::MAX && !denied(from) && !denied(spender) && !dup(a, t)
        ==> r is TooOld || r is Future
//#endif
//#if C24
    &&& r is Ok ==> memo_ok(memo) && lastb(b).transaction.memo == memo
//#endif
//#if C25
    &&& r is Ok ==> bal(a, akey(from)) >= FEE() && moved(a, b, akey(from), -FEE()) && lastb(b).transaction.operation == t.operation
    &&& r is NoFunds ==> r == GR::NoFunds(bal(a, akey(from)) as nat) && FEE() > bal(a, akey(from))
    &&& r is Changed ==> r == GR::Changed(usable(a, k, now).0 as nat)
    &&& r is BadFee ==> !fee_ok(fee)
    &&& expected is Some && expected->Some_0 > u128::MAX ==> r is Changed
    &&& (expected is Some ==> expected->Some_0 <= u128::MAX) && fee is Some && fee->Some_0 > u128::MAX ==> r is BadFee
//#endif
//#if C26
    &&& r is Ok ==> !denied(from) && !denied(spender) && from.owner != spender.owner
//#endif
//#if C27
    &&& r is Ok ==> fee_ok(fee) && moved(a, b, akey(from), -FEE()) && fee_once(lastb(b)) && op_fee(lastb(b).transaction.operation) == (match fee { Some(f) => Some(f as u128), None => None::<u128> })
    &&& r is BadFee ==> r == GR::BadFee(FEE() as nat) && !fee_ok(fee)
    &&& !fee_ok(fee) ==> !(r is Ok) && !(r is NoFunds)
    &&& !fee_ok(fee) && expected is None && !denied(from) && !denied(spender) && (fee->Some_0 <= u128::MAX ==> !dup(a, t)) ==> r is BadFee
//#endif
//#if C31
    &&& r is Ok <==> bal(a, akey(from)) >= FEE() && fee_ok(fee) && memo_ok(memo) && in_window(created, now) && !dup(a, t)
        && !denied(from) && !denied(spender) && from.owner != spender.owner
        && (expected is Some ==> expected->Some_0 == usable(a, k, now).0) && (expires is Some ==> expires->Some_0 > now)
    &&& !(r is Ok) ==> match r {
        GR::NoFunds(n) => n == bal(a, akey(from)) && FEE() > n,
        GR::BadFee(n) => n == FEE() && !fee_ok(fee),
        GR::Changed(n) => n == usable(a, k, now).0 && expected is Some && expected->Some_0 != n,
        GR::Expired(n) => n == now && expires is Some && expires->Some_0 <= now,
        GR::TooOld => created is Some && too_old(created->Some_0, now),
        GR::Future(n) => created is Some && in_future(created->Some_0, now) && n == now,
        GR::Dup(n, c) => dup(a, t) && same_dup(r, dup_ans(a, t), false),
        GR::Generic(c, m) => denied(from) || denied(spender),
        _ => false,
    }
//#endif
}
// the burn that pays for a withdrawal or a creation; `a` before, `p` when the call was sent
pub open spec fn charged(a: State, p: State, now: u64, from: Account, sp: Option<Account>, amount: nat, created: Option<u64>, memo: Seq<u8>) -> bool {
    let t = btx(from, sp, amount, created, memo);
    &&& eqG(a, p)
//#if C01
    &&& supply(p) == supply(a) - (amount + FEE())
//#endif
//#if C07
    &&& paid(a, p, from, sp, (amount + FEE()) as nat, now)
//#endif
//#if C09
    &&& third(from, sp) ==> usable(a, pk(from, sp), now).0 >= amount + FEE()
//#endif
//#if C10
    &&& pruned(a, p, now, 100)
//#endif
//#if C11
    &&& !dup(a, t)
//#endif
//#if C12
    &&& in_window(created, now)
//#endif
//#if C13 C14
    &&& amount <= u128::MAX && grown(a, p) && lastb(p).transaction == t && bfee(lastb(p)) == FEE() && moved(a, p, akey(from), -(amount + FEE()))
//#endif
//#if C24
    &&& lastb(p).transaction.memo == mm(memo)
//#endif
//#if C25
    &&& amount + FEE() <= bal(a, akey(from)) && moved(a, p, akey(from), -(amount + FEE()))
//#endif
//#if C27
    &&& bfee(lastb(p)) == FEE() && fee_once(lastb(p)) && moved(a, p, akey(from), -(amount + FEE()))
//#endif
//#if C28
    &&& amount > 0 && lastb(p).transaction.memo == mm(memo) && (lastb(p).transaction.operation is Burn)
//#endif
//#if C31
    &&& amount + FEE() <= bal(a, akey(from)) && in_window(created, now) && !dup(a, t) && (third(from, sp) ==> usable(a, pk(from, sp), now).0 >= amount + FEE())
//#endif
}
// not accepted: no call was made
pub open spec fn refused(a: State, b: State, now: u64, from: Account, sp: Option<Account>, amount: nat, created: Option<u64>, memo: Seq<u8>, r: GR) -> bool {
    let t = btx(from, sp, amount, created, memo);
    &&& !good(r)
    &&& eqG(a, b)
//#if C01 C13 C14
    &&& eqM(a, b)
//#endif
//#if C13 C14 C28
    &&& eqB(a, b) && !(r is Failed)
//#endif
//#if C06
    &&& !(r is Failed) && untouched(a, b, now)
//#endif
//#if C11
    &&& r is Dup ==> dup(a, t) && amount <= u128::MAX && same_dup(r, dup_ans(a, t), false)
//#endif
//#if C12
    &&& r is TooOld ==> created is Some && too_old(created->Some_0, now)
    &&& r is Future ==> created is Some && in_future(created->Some_0, now) && r->Future_0 == now
    &&& !in_window(created, now) && amount > 0 && amount + FEE() <= bal(a, akey(from)) && supply(a) >= amount + FEE() && sp is None && !dup(a, t)
        ==> r is TooOld || r is Future || r is Receiver
//#endif
//#if C25
    &&& r is NoFunds ==> r == GR::NoFunds(bal(a, akey(from)) as nat) && amount + FEE() > bal(a, akey(from))
    &&& amount + FEE() > bal(a, akey(from)) && sp is None && amount > 0 && (amount <= u128::MAX ==> !dup(a, t)) ==> r is NoFunds || r is Receiver
//#endif
//#if C31
    // what speaks against it is what the caller is told
    &&& match r {
        GR::NoFunds(n) => n == bal(a, akey(from)) && amount + FEE() > n,
        GR::NoAllowance(n) => third(from, sp) && n == usable(a, pk(from, sp), now).0 && amount + FEE() > n,
        GR::TooOld => created is Some && too_old(created->Some_0, now),
        GR::Future(n) => created is Some && in_future(created->Some_0, now) && n == now,
        GR::Dup(n, c) => dup(a, t) && same_dup(r, dup_ans(a, t), false),
        GR::Receiver(p) => self_auth(p),
        GR::Generic(c, m) => amount == 0,
        _ => false,
    }
//#endif
}
// the answer to the call came at `t1` with the ledger at `q`: `ret` cycles were returned (nothing if `ok`)
pub open spec fn settled(a: State, p: State, q: State, b: State, now: u64, t1: u64, from: Account, sp: Option<Account>, ok: bool, ret: nat, memo: Seq<u8>, full: bool, r: GR) -> bool {
    let n = if !ok && ret > FEE() { (ret - FEE()) as nat } else { 0 };
    let old = if third(from, sp) { usable(a, pk(from, sp), now).1 } else { 0u64 };
    let restore = third(from, sp) && n > FEE() && (old == 0 || t1 < old);
    let q0 = q.blocks@.len();
    &&& eqG(q, b)
//#if C01
    &&& supply(b) == supply(q) + n - (if restore { FEE() } else { 0 })
//#endif
//#if C10
    &&& n > 0 ==> pruned(q, b, t1, 100)
//#endif
//#if C12
    &&& !(r is TooOld) && !(r is Future)
//#endif
//#if C11
    &&& !(r is Dup)
//#endif
//#if C13 C14 C16
    &&& if ok { good(r) } else {
        &&& r is Failed
        &&& full ==> r->Failed_0 == Some(a.blocks@.len())
        &&& r->Failed_1 == (if n > 0 { Some(q0) } else { None::<nat> })
    }
//#endif
//#if C13 C14
    &&& b.blocks@.len() == q0 + (if n > 0 { 1int } else { 0 }) + (if restore { 1int } else { 0 }) && prefix(q, b)
    &&& n > 0 ==> b.blocks@[q0 as int].transaction == mtx(from, n, 0, mm(memo))
    &&& moved(q, b, akey(from), n - (if restore { FEE() } else { 0 }))
//#endif
//#if C16
    &&& b.blocks@.len() == q0 + (if n > 0 { 1int } else { 0 }) + (if restore { 1int } else { 0 }) && prefix(q, b)
    &&& if restore {
        let k = pk(from, sp);
        let u = usable(q, k, t1);
        let e = if u.1 > 0 { u.1 } else { old };
        let v = cap((u.0 + n - FEE()) as nat);
        &&& full ==> r->Failed_2 == Some((q0 + 1) as nat)
        &&& unexp_set(q, b, t1, k, (v as u128, e))
        &&& b.blocks@[(q0 + 1) as int].transaction.operation == (Operation::Approve { from, spender: sp->Some_0, amount: v as u128, expected_allowance: None, expires_at: if e > 0 { Some(e) } else { None::<u64> }, fee: None })
        &&& bfee(b.blocks@[(q0 + 1) as int]) == FEE() && moved(q, b, akey(from), n - FEE())
    } else {
        &&& !ok ==> r->Failed_2 is None
        &&& unexp_same(q, b, t1)
    }
//#endif
//#if C24
    &&& n > 0 ==> b.blocks@[q0 as int].transaction.memo == mm(memo) && b.blocks@.len() > q0
//#endif
}
// every stretch between two awaits is a step other requests can rely on
pub open spec fn segs(a: State, b: State, e: EnvV, f: EnvV) -> bool {
    if f.calls.len() == 0 { step(a, b, e.time, f.time) } else { step(a, f.calls.last().pre, e.time, e.time) && step_own(f.calls.last().post, b, f.calls.last().time_after, f.time, a.blocks@.len() as int) }
}
pub open spec fn code_of(x: crate::ext::ic_cdk::call::Error) -> crate::endpoints::RejectionCode {
    match x {
        crate::ext::ic_cdk::call::Error::InsufficientLiquidCycleBalance(_) => crate::endpoints::RejectionCode::SysTransient,
        crate::ext::ic_cdk::call::Error::CallPerformFailed(_) => crate::endpoints::RejectionCode::SysTransient,
        crate::ext::ic_cdk::call::Error::CandidDecodeFailed(_) => crate::endpoints::RejectionCode::CanisterError,
        crate::ext::ic_cdk::call::Error::CallRejected(r) => match crate::ext::ic_cdk::call::rej_code(r) { Some(c) => rejcode(c), None => crate::endpoints::RejectionCode::Unknown },
    }
}
pub open spec fn told(x: crate::ext::ic_cdk::call::Error, code: Option<crate::endpoints::RejectionCode>, msg: crate::ext::Str) -> bool {
    (code is Some ==> code->Some_0 == code_of(x)) && (x is CallRejected ==> msg == crate::ext::ic_cdk::call::rej_msg(x->CallRejected_0))
}
// withdrawal (full: the answer type can name all blocks)
pub open spec fn wd(a: State, b: State, e: EnvV, f: EnvV, now: u64, from: Account, to: crate::ext::candid::Principal, sp: Option<Account>, amount: nat, created: Option<u64>, full: bool, r: GR) -> bool {
    &&& f.calls.len() <= 1
    &&& segs(a, b, e, f)
//#if C17
    &&& f.must == e.must
//#endif
    &&& if f.calls.len() == 0 {
//#if C15
        &&& !f.committed
//#endif
        &&& refused(a, b, now, from, sp, amount, created, wmemo(to), r)
//#if C11
        &&& dup(a, btx(from, sp, amount, created, wmemo(to))) && amount <= u128::MAX && amount > 0 && !self_auth(to) ==> r is Dup
//#endif
//#if C31
        &&& r is Receiver ==> r == GR::Receiver(to)
        &&& amount == 0 ==> r is Generic || r is Receiver
//#endif
//#if C28
        &&& self_auth(to) && amount <= u128::MAX ==> r == GR::Receiver(to)
        &&& r is Receiver ==> r == GR::Receiver(to) && self_auth(to)
//#endif
    } else {
        let c = f.calls.last();
        &&& charged(a, c.pre, now, from, sp, amount, created, wmemo(to))
//#if C31
        &&& f.committed
//#endif
        &&& settled(a, c.pre, c.post, b, now, c.time_after, from, sp, c.delivered, amount, penalize_memo(), full, r)
//#if C13 C28
        &&& c.callee == crate::ext::mgmt() && c.method == LIT("deposit_cycles") && c.arg == crate::ext::argv(to)
//#endif
//#if C13
        &&& c.cycles == amount
        &&& c.delivered ==> r == GR::Ok(a.blocks@.len())
        &&& !c.delivered ==> r is Failed && c.failure is Some && told(c.failure->Some_0, r->Failed_3, r->Failed_4)
//#endif
//#if C15
        &&& !good(r) ==> r is Failed
//#endif
//#if C28
        &&& !self_auth(to)
//#endif
    }
}
// canister creation
pub open spec fn opts_same(a: crate::ext::ic_cdk::management_canister::CanisterSettings, b: crate::ext::ic_cdk::management_canister::CanisterSettings) -> bool {
    a == (crate::ext::ic_cdk::management_canister::CanisterSettings { controllers: a.controllers, ..b })
}
pub open spec fn args_ok(x: crate::endpoints::CmcCreateCanisterArgs, req: Option<crate::endpoints::CmcCreateCanisterArgs>, caller: crate::ext::candid::Principal) -> bool {
    let none = <crate::ext::ic_cdk::management_canister::CanisterSettings as crate::ext::Dflt>::dflt();
    let want = match req { Some(q) => match q.settings { Some(s) => s, None => none }, None => none };
    &&& x.settings is Some && opts_same(x.settings->Some_0, want) && x.settings->Some_0.controllers is Some
    &&& match want.controllers { Some(v) => x.settings->Some_0.controllers->Some_0 == v, None => x.settings->Some_0.controllers->Some_0@.len() == 1 && x.settings->Some_0.controllers->Some_0@[0] == caller }
    &&& x.subnet_selection == (match req { Some(q) => q.subnet_selection, None => None })
}
pub open spec fn creation(c: CallRec) -> Option<core::result::Result<crate::ext::candid::Principal, crate::endpoints::CmcCreateCanisterError>> {
    crate::ext::resp_decode::<core::result::Result<crate::ext::candid::Principal, crate::endpoints::CmcCreateCanisterError>>(c.reply)
}
pub open spec fn returned(c: CallRec, amount: nat) -> nat {
    if c.delivered && creation(c) is Some && creation(c)->Some_0 is Err {
        match creation(c)->Some_0->Err_0 {
            crate::endpoints::CmcCreateCanisterError::Refunded { refund_amount, .. } => refund_amount as nat,
            crate::endpoints::CmcCreateCanisterError::RefundFailed { .. } => 0,
        }
    } else { amount }
}
pub open spec fn cc(a: State, b: State, e: EnvV, f: EnvV, now: u64, from: Account, sp: Option<Account>, amount: nat, created: Option<u64>, req: Option<crate::endpoints::CmcCreateCanisterArgs>, full: bool, r: GR) -> bool {
    &&& f.calls.len() <= 1
    &&& segs(a, b, e, f)
//#if C17
    &&& f.must == e.must
//#endif
    &&& if f.calls.len() == 0 {
//#if C15
        &&& !f.committed
//#endif
        &&& refused(a, b, now, from, sp, amount, created, create_memo(), r)
//#if C31
        &&& !(r is Receiver) && !(r is Generic)
//#endif
//#if C11
        &&& dup(a, btx(from, sp, amount, created, create_memo())) && amount <= u128::MAX ==> same_dup(r, dup_ans(a, btx(from, sp, amount, created, create_memo())), true)
//#endif
    } else {
        let c = f.calls.last();
        &&& charged(a, c.pre, now, from, sp, amount, created, create_memo())
//#if C31
        &&& f.committed
//#endif
        // an answer that is not one of the minting canister's is outside the property
        &&& c.delivered && creation(c) is None || settled(a, c.pre, c.post, b, now, c.time_after, from, sp, c.delivered && creation(c)->Some_0 is Ok, returned(c, amount), refund_memo(), full, r)
//#if C14
        &&& cmc(c.callee) && c.method == LIT("create_canister") && c.cycles == amount
        &&& exists|x: crate::endpoints::CmcCreateCanisterArgs| c.arg == #[trigger] crate::ext::argv(x) && args_ok(x, req, e.caller)
        &&& c.delivered && creation(c) is Some && creation(c)->Some_0 is Ok ==> r == GR::Canister(a.blocks@.len(), creation(c)->Some_0->Ok_0)
        &&& c.delivered && creation(c) is Some && creation(c)->Some_0 is Err && (creation(c)->Some_0->Err_0 is Refunded) ==> r is Failed && r->Failed_4 == creation(c)->Some_0->Err_0->Refunded_create_error
        &&& !c.delivered ==> r is Failed && c.failure is Some && told(c.failure->Some_0, r->Failed_3, r->Failed_4)
//#endif
//#if C15
        &&& !good(r) ==> r is Failed
//#endif
//#if C14 C11
        &&& c.delivered && creation(c) is Some && creation(c)->Some_0 is Ok && c.post.transaction_hashes@.contains_key(txh(btx(from, sp, amount, created, create_memo())))
            ==> b.transaction_hashes@.contains_key(txh(btx(from, sp, amount, created, create_memo()))) && b.transaction_hashes@[txh(btx(from, sp, amount, created, create_memo()))] == (a.blocks@.len() as u64, Some(creation(c)->Some_0->Ok_0))
//#endif
    }
}

// ------------------------------------------------------------------ invariants per property
//#if C03
// the log is a hash chain with non-decreasing timestamps, none later than `now`, and `ph` is what the next block will name as its parent
#[verifier::opaque]
pub open spec fn chained(l: Seq<Block>, ph: Option<[u8; 32]>, now: u64) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).phash == (if i == 0 { None::<[u8; 32]> } else { Some(bhash(l[i - 1])) })
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).timestamp <= (#[trigger] l[j]).timestamp
    &&& forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).timestamp <= now
    &&& ph == (if l.len() == 0 { None::<[u8; 32]> } else { Some(bhash(l.last())) })
}
// the log only grew, by blocks with a timestamp between t0 and t1
#[verifier::opaque]
pub open spec fn extended(l: Seq<Block>, m: Seq<Block>, t0: u64, t1: u64) -> bool {
    &&& l.len() <= m.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] m[i] == l[i]
    &&& forall|i: int| l.len() <= i < m.len() ==> t0 <= (#[trigger] m[i]).timestamp <= t1
}
pub open spec fn inv(s: State, e: EnvV) -> bool { chained(s.blocks@, s.cache.phash, e.time) }
pub open spec fn step(a: State, b: State, t0: u64, t1: u64) -> bool { extended(a.blocks@, b.blocks@, t0, t1) }
pub broadcast proof fn chained_on(l: Seq<Block>, ph: Option<[u8; 32]>, b: Block, q: Option<[u8; 32]>, now: u64)
    requires #[trigger] chained(l, ph, now), b.phash == ph, b.timestamp == now, q == Some(bhash(b))
    ensures #[trigger] chained(l.push(b), q, now)
{
    reveal(chained);
    let m = l.push(b);
    assert(m.last() == b);
}
pub broadcast proof fn extended_on(l: Seq<Block>, b: Block, t0: u64, t1: u64)
    requires t0 <= b.timestamp <= t1
    ensures #[trigger] extended(l, l.push(b), t0, t1)
{ reveal(extended); }
pub broadcast proof fn extended_not(l: Seq<Block>, t0: u64, t1: u64) ensures #[trigger] extended(l, l, t0, t1) { reveal(extended); }
pub broadcast proof fn extended_more(l: Seq<Block>, m: Seq<Block>, n: Seq<Block>, t0: u64, t1: u64, t2: u64, t3: u64)
    requires #[trigger] extended(l, m, t0, t1), #[trigger] extended(m, n, t2, t3), t0 <= t2, t1 <= t3
    ensures extended(l, n, t0, t3)
{
    reveal(extended);
    assert forall|i: int| l.len() <= i < n.len() implies t0 <= (#[trigger] n[i]).timestamp <= t3 by { if i < m.len() { assert(n[i] == m[i]); } }
}
pub broadcast group grp { chained_on, extended_on, extended_not, extended_more, rep32_is, crate::ext::bb_of }
//#endif
//#if C04 C23
pub open spec fn tip(t: Map<crate::ext::Str, Seq<u8>>, n: nat, h: [u8; 32]) -> bool {
    t =~= Map::<crate::ext::Str, Seq<u8>>::empty().insert(LIT("last_block_index"), crate::ext::leb128_bytes((n - 1) as u64)).insert(LIT("last_block_hash"), h@)
}
//#endif
//#if C04
pub open spec fn tip_witness(t: Map<crate::ext::Str, Seq<u8>>) -> Seq<u8> {
    crate::ext::witness_bytes(crate::ext::WitnessV { tree: t, lo: BYTES("last_block_hash"), hi: BYTES("last_block_index") })
}
pub open spec fn tip_keys(t: Map<crate::ext::Str, Seq<u8>>) -> bool { forall|k: crate::ext::Str| #[trigger] t.contains_key(k) ==> k == LIT("last_block_index") || k == LIT("last_block_hash") }
pub open spec fn certified(s: State, e: EnvV) -> bool {
    s.blocks@.len() > 0 ==> tip(s.cache.hash_tree@, s.blocks@.len(), bhash(lastb(s))) && e.cert == crate::ext::tree_root(s.cache.hash_tree@)
}
pub open spec fn inv(s: State, e: EnvV) -> bool { certified(s, e) && tip_keys(s.cache.hash_tree@) }
//#endif
//#if C11
pub open spec fn dedup(s: State, now: u64) -> bool {
    &&& forall|h: [u8; 32]| #[trigger] s.transaction_hashes@.contains_key(h) ==> s.transaction_hashes@[h].0 < s.blocks@.len() && txh(s.blocks@[s.transaction_hashes@[h].0 as int].transaction) == h && s.blocks@[s.transaction_hashes@[h].0 as int].transaction.created_at_time is Some
    &&& forall|i: int| 0 <= i < s.blocks@.len() && (#[trigger] s.blocks@[i]).transaction.created_at_time is Some ==>
        too_old(s.blocks@[i].transaction.created_at_time->Some_0, now) || (s.transaction_hashes@.contains_key(txh(s.blocks@[i].transaction)) && s.transaction_hashes@[txh(s.blocks@[i].transaction)].0 == i)
    &&& forall|ts: u64, i: u64| #[trigger] s.transaction_timestamps@.contains_key((ts, i)) ==> i < s.blocks@.len() && s.blocks@[i as int].transaction.created_at_time == Some(ts)
    &&& forall|i: int, j: int| 0 <= i < j < s.blocks@.len() && (#[trigger] s.blocks@[i]).transaction.created_at_time is Some ==> (#[trigger] s.blocks@[j]).transaction != s.blocks@[i].transaction
    &&& s.blocks@.len() < u64::MAX
}
pub open spec fn inv(s: State, e: EnvV) -> bool { dedup(s, e.time) }
// records change only in that old ones go, new ones come, and the request that recorded block `own` may add the canister
pub open spec fn hstep(a: State, b: State, t0: u64, t1: u64, own: int) -> bool {
    &&& forall|h: [u8; 32]| #[trigger] a.transaction_hashes@.contains_key(h) ==>
        if b.transaction_hashes@.contains_key(h) { b.transaction_hashes@[h].0 == a.transaction_hashes@[h].0 && (a.transaction_hashes@[h].1 is Some || a.transaction_hashes@[h].0 != own ==> b.transaction_hashes@[h].1 == a.transaction_hashes@[h].1) }
        else { txh_ts(h) is Some && too_old(txh_ts(h)->Some_0, t1) }
    &&& forall|h: [u8; 32]| #[trigger] b.transaction_hashes@.contains_key(h) && !a.transaction_hashes@.contains_key(h) ==> b.transaction_hashes@[h].0 >= a.blocks@.len() && txh_ts(h) is Some && !too_old(txh_ts(h)->Some_0, t0)
}
pub open spec fn step(a: State, b: State, t0: u64, t1: u64) -> bool { prefix(a, b) && hstep(a, b, t0, t1, -1) }
pub open spec fn step_own(a: State, b: State, t0: u64, t1: u64, own: int) -> bool { prefix(a, b) && hstep(a, b, t0, t1, own) }
// what any number of other requests may do: none of them recorded block `mine`
pub open spec fn others(a: State, b: State, t0: u64, t1: u64, mine: int) -> bool {
    &&& prefix(a, b)
    &&& forall|h: [u8; 32]| #[trigger] a.transaction_hashes@.contains_key(h) ==>
        if b.transaction_hashes@.contains_key(h) { b.transaction_hashes@[h].0 == a.transaction_hashes@[h].0 && (a.transaction_hashes@[h].1 is Some || a.transaction_hashes@[h].0 == mine ==> b.transaction_hashes@[h].1 == a.transaction_hashes@[h].1) }
        else { txh_ts(h) is Some && too_old(txh_ts(h)->Some_0, t1) }
    &&& forall|h: [u8; 32]| #[trigger] b.transaction_hashes@.contains_key(h) && !a.transaction_hashes@.contains_key(h) ==> b.transaction_hashes@[h].0 >= a.blocks@.len() && txh_ts(h) is Some && !too_old(txh_ts(h)->Some_0, t0)
}
pub broadcast group grp { txh_ts_of, rep32_is, crate::ext::bb_of, crate::ext::principal_len }
//#endif
// a transaction's creation time can be read off its hash (that is: no two colliding hashes with different times)
pub uninterp spec fn txh_ts(h: [u8; 32]) -> Option<u64>;
pub broadcast axiom fn txh_ts_of(t: Transaction) ensures txh_ts(#[trigger] txh(t)) == t.created_at_time;
//#if C10 C07 C09 C13 C14 C16 C06 C25
pub open spec fn inv(s: State, e: EnvV) -> bool { inv_q(s) }
//#endif
//#if C08
pub open spec fn inv(s: State, e: EnvV) -> bool { inv_q(s) && e.time < u64::MAX }
//#endif
//#if C24
pub open spec fn inv(s: State, e: EnvV) -> bool { forall|i: int| 0 <= i < s.blocks@.len() ==> memo_ok((#[trigger] s.blocks@[i]).transaction.memo) }
//#endif
//#if C26
pub open spec fn clean(b: Block) -> bool {
    match b.transaction.operation {
        Operation::Transfer { from, to, spender, .. } => !denied(from) && !denied(to) && (spender is Some ==> !denied(spender->Some_0)),
        Operation::Approve { from, spender, .. } => !denied(from) && !denied(spender) && from.owner != spender.owner,
        _ => true,
    }
}
pub open spec fn inv(s: State, e: EnvV) -> bool { inv_q(s) && (forall|i: int| 0 <= i < s.blocks@.len() ==> clean(#[trigger] s.blocks@[i])) }
//#endif
//#if C15 C31
// everything a refund relies on
pub open spec fn inv(s: State, e: EnvV) -> bool {
    &&& inv_q(s)
    &&& msum(s.balances@) == supply(s)
    &&& forall|h: [u8; 32]| #[trigger] s.transaction_hashes@.contains_key(h) ==> txh_ts(h) is Some
    &&& e.time < u64::MAX
}
//#endif
//#if C17
pub open spec fn inv(s: State, e: EnvV) -> bool { forall|h: [u8; 32]| #[trigger] s.transaction_hashes@.contains_key(h) ==> txh_ts(h) is Some }
//#endif
//#if not C01 C02 C03 C04 C06 C07 C08 C09 C10 C11 C13 C14 C15 C16 C17 C24 C25 C26 C31
pub open spec fn inv(s: State, e: EnvV) -> bool { true }
//#endif
//#if not C03 C11
pub open spec fn step(a: State, b: State, t0: u64, t1: u64) -> bool { true }
//#endif
//#if not C11
pub open spec fn step_own(a: State, b: State, t0: u64, t1: u64, own: int) -> bool { step(a, b, t0, t1) }
pub open spec fn others(a: State, b: State, t0: u64, t1: u64, mine: int) -> bool { step(a, b, t0, t1) }
//#endif
//#if C10
pub broadcast proof fn pruned_more(a: State, b: State, c: State, t: u64, n: int)
    requires #[trigger] pruned(a, b, t, n), #[trigger] expd(c, t).subset_of(expd(b, t))
    ensures pruned(a, c, t, n)
{
    vstd::set_lib::lemma_len_subset(expd(c, t), expd(b, t));
}
pub broadcast proof fn pruned_after(a: State, b: State, c: State, t: u64, n: int)
    requires #[trigger] expd(b, t).subset_of(expd(a, t)), #[trigger] pruned(b, c, t, n)
    ensures pruned(a, c, t, n)
{
    vstd::set_lib::lemma_len_subset(expd(b, t), expd(a, t));
}
pub broadcast group grp { pruned_more, pruned_after, rep32_is, crate::ext::bb_of, crate::ext::key_lt_pair, crate::ext::key_lt_u64, expd_none, expd_removed, expd_same }
//#endif
//#if C17
pub broadcast group grp { rep32_is, txh_ts_of, crate::ext::bb_of }
//#endif
//#if C12 C25 C28
pub broadcast group grp { rep32_is, crate::ext::bb_of, crate::ext::principal_len }
//#endif
//#if C23
// ------------------------------------------------------------------ C23: what memory holds is rebuilt from the stable structures
// the sum of the first n listed balances
pub open spec fn psum(s: Seq<(AKey, u128)>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { psum(s, n - 1) + s[n - 1].1 as int }
}
pub proof fn psum_prefix(s: Seq<(AKey, u128)>, t: Seq<(AKey, u128)>, n: int)
    requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures psum(s, n) == psum(t, n)
    decreases n
{
    if n > 0 { psum_prefix(s, t, n - 1); }
}
pub proof fn psum_mono(s: Seq<(AKey, u128)>, n: int, k: int)
    requires 0 <= n <= k <= s.len()
    ensures psum(s, n) <= psum(s, k)
    decreases k
{
    if n < k { psum_mono(s, n, k - 1); }
}
pub proof fn psum_all(s: Seq<(AKey, u128)>, m: Map<AKey, u128>)
    requires crate::ext::enumerates(s, m)
    ensures psum(s, s.len() as int) == msum(m)
    decreases s.len()
{
    if s.len() == 0 {
        assert(m.dom().len() == 0);
    } else {
        let k = s.last().0;
        let t = s.drop_last();
        let w = m.remove(k);
        assert(m.contains_key(k) && m[k] == s.last().1);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] w.contains_key(t[i].0) && w[t[i].0] == t[i].1 by {
            assert(m.contains_key(s[i].0));
            assert(crate::ext::key_lt(s[i].0, s[s.len() - 1].0));
            crate::ext::key_lt_irrefl(k);
        }
        assert forall|x: AKey| #[trigger] w.contains_key(x) implies exists|i: int| 0 <= i < t.len() && #[trigger] t[i].0 == x by {
            assert(m.contains_key(x));
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x;
            assert(i < t.len());
            assert(t[i].0 == x);
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies crate::ext::key_lt(#[trigger] t[i].0, #[trigger] t[j].0) by {
            assert(crate::ext::key_lt(s[i].0, s[j].0));
        }
        assert(w.dom() =~= m.dom().remove(k));
        assert(crate::ext::enumerates(t, w));
        psum_all(t, w);
        psum_prefix(s, t, t.len() as int);
        msum_split(m, k);
    }
}
pub broadcast proof fn psum_step(s: Seq<(AKey, u128)>, m: Map<AKey, u128>, n: int)
    requires #[trigger] crate::ext::enumerates(s, m), 0 <= n <= s.len()
    ensures n < s.len() ==> #[trigger] psum(s, n) + s[n].1 <= msum(m), n == s.len() ==> psum(s, n) == msum(m)
{
    psum_all(s, m);
    if n < s.len() { psum_mono(s, n + 1, s.len() as int); }
}
pub open spec fn last_hash(bs: Seq<Block>) -> Option<[u8; 32]> { if bs.len() == 0 { None } else { Some(bhash(bs.last())) } }
pub open spec fn tip_tree(bs: Seq<Block>, t: Map<crate::ext::Str, Seq<u8>>) -> bool { if bs.len() == 0 { t =~= Map::<crate::ext::Str, Seq<u8>>::empty() } else { tip(t, bs.len(), bhash(bs.last())) } }
pub broadcast group grp { psum_step, rep32_is, crate::ext::bb_of, crate::ext::decoded_enc, crate::ext::cbor_read_bytes }
//#endif
//#if C18 C20
pub broadcast group grp {
//#if C18
    serves_full, added_none, added_one, added_to, added_after,
//#endif
    rep32_is, crate::ext::bb_of, crate::ext::gv_blob, crate::ext::gv_text, crate::ext::gv_nat, crate::ext::gv_nat64, crate::ext::gv_array, crate::ext::gv_map }
//#endif
//#if C19
pub broadcast group grp { rep32_is, crate::ext::bb_of, crate::ext::key_lt_irrefl, crate::ext::key_lt_trans, crate::ext::key_lt_total, crate::ext::key_lt_pair, crate::ext::key_lt_empty_principal, crate::ext::key_lt_zero_sub, no_bytes, past_owner, within_push }
//#endif
//#if C30
pub broadcast group grp { rep32_is, crate::ext::bb_of, crate::ext::gv_kind,
    crate::ext::cbv_integer, crate::ext::cbv_bytes, crate::ext::cbv_text, crate::ext::cbv_array, crate::ext::cbv_map, crate::ext::cbv_bool, crate::ext::cbv_null, crate::ext::cbv_float, crate::ext::cbv_tag,
    arr_dec_end, arr_dec_fail, map_dec_start, map_dec_step, map_dec_end, map_dec_fail, cbv_is_text, arr_enc_end, arr_enc_fail, map_enc_end, map_enc_fail, compact_written }
//#endif
//#if C21
pub broadcast group grp { rep32_is, crate::ext::bb_of, crate::ext::decoded_enc, crate::ext::decoded_blobs, crate::ext::decoded_bytes, crate::ext::cbor_read_bytes, crate::ext::arr32_ext, compact_written, compact_read, compact_one }
//#endif
//#if not C01 C02 C03 C10 C11 C12 C15 C17 C18 C19 C20 C21 C23 C25 C28 C30 C31
pub broadcast group grp {
//#if C29
    crate::ext::dflt_slice,
//#endif
    rep32_is, crate::ext::bb_of }
//#endif

// `?` into anyhow::Error wraps any error
impl crate::ext::Conv<crate::ext::anyhow::Error> for crate::storage::ProcessTransactionError {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: crate::ext::anyhow::Error) -> bool { true }
    #[verifier::external_body] fn conv(self) -> (r: crate::ext::anyhow::Error) { unimplemented!() }
}
pub open spec fn rejcode(c: crate::ext::ic_cdk::call::RejectCode) -> crate::endpoints::RejectionCode {
    match c {
        crate::ext::ic_cdk::call::RejectCode::SysFatal => crate::endpoints::RejectionCode::SysFatal,
        crate::ext::ic_cdk::call::RejectCode::SysTransient => crate::endpoints::RejectionCode::SysTransient,
        crate::ext::ic_cdk::call::RejectCode::DestinationInvalid => crate::endpoints::RejectionCode::DestinationInvalid,
        crate::ext::ic_cdk::call::RejectCode::CanisterReject => crate::endpoints::RejectionCode::CanisterReject,
        crate::ext::ic_cdk::call::RejectCode::CanisterError => crate::endpoints::RejectionCode::CanisterError,
        crate::ext::ic_cdk::call::RejectCode::SysUnknown => crate::endpoints::RejectionCode::Unknown,
    }
}

// ------------------------------------------------------------------ requests that wait for an answer
pub open spec fn guarantee(s: State, e: EnvV) -> bool { inv(s, e) }
pub open spec fn rely(a: State, b: State, e: EnvV, f: EnvV, cycles: u128) -> bool {
    &&& inv(b, f) && others(a, b, e.time, f.time, a.blocks@.len() - 1) && eqG(a, b)
//#if C15
    // assumption: cycles that are on their way back, plus all that is on the ledger, is less than 2^128
    &&& supply(b) + cycles <= u128::MAX
    // assumption: the minting canister never reports a refund larger than what was sent
    &&& forall|x: crate::endpoints::CmcCreateCanisterError| #[trigger] crate::ext::resp_decode::<core::result::Result<crate::ext::candid::Principal, crate::endpoints::CmcCreateCanisterError>>(f.calls.last().reply) == Some(core::result::Result::<crate::ext::candid::Principal, crate::endpoints::CmcCreateCanisterError>::Err(x)) && (x is Refunded) ==> x->refund_amount <= cycles
//#endif
}

//#if C21 C30
// ------------------------------------------------------------------ C21: stored forms
pub open spec fn compact_of(a: Account, c: crate::compact_account::CompactAccount) -> bool {
    &&& c.0@.len() == (if a.subaccount is Some { 2int } else { 1int })
    &&& c.0@[0]@ == a.owner@
    &&& a.subaccount is Some ==> c.0@[1]@ == a.subaccount->Some_0@
}
// exactly one principal, optionally followed by one 32-byte subaccount
pub open spec fn compact_ok(c: crate::compact_account::CompactAccount) -> bool {
    &&& c.0@.len() == 1 || c.0@.len() == 2
    &&& c.0@[0]@.len() <= 29
    &&& c.0@.len() == 2 ==> c.0@[1]@.len() == 32
}
pub open spec fn flat_of(t: Transaction, f: crate::storage::FlattenedTransaction) -> bool {
    &&& f.created_at_time == t.created_at_time && f.memo == t.memo
    &&& match t.operation {
        Operation::Burn { from, spender, amount } => f.op == LIT("burn") && f.from == Some(from) && f.to is None && f.spender == spender && f.amount == amount && f.fee is None && f.expected_allowance is None && f.expires_at is None,
        Operation::Mint { to, amount, fee } => f.op == LIT("mint") && f.from is None && f.to == Some(to) && f.spender is None && f.amount == amount && f.fee == Some(fee) && f.expected_allowance is None && f.expires_at is None,
        Operation::Transfer { from, to, spender, amount, fee } => f.op == LIT("xfer") && f.from == Some(from) && f.to == Some(to) && f.spender == spender && f.amount == amount && f.fee == fee && f.expected_allowance is None && f.expires_at is None,
        Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } => f.op == LIT("approve") && f.from == Some(from) && f.to is None && f.spender == Some(spender) && f.amount == amount && f.fee == fee && f.expected_allowance == expected_allowance && f.expires_at == expires_at,
    }
}
// a record is accepted exactly when it has the fields its kind requires
pub open spec fn flat_ok(f: crate::storage::FlattenedTransaction) -> bool {
    ||| f.op == LIT("burn") && f.from is Some
    ||| f.op == LIT("mint") && f.to is Some && f.fee is Some
    ||| f.op == LIT("xfer") && f.from is Some && f.to is Some
    ||| f.op == LIT("approve") && f.from is Some && f.spender is Some
}
pub open spec fn unflat(t: Transaction, f: crate::storage::FlattenedTransaction) -> bool {
    &&& t.created_at_time == f.created_at_time && t.memo == f.memo
    &&& f.op == LIT("burn") ==> t.operation == (Operation::Burn { from: f.from->Some_0, spender: f.spender, amount: f.amount })
    &&& f.op == LIT("mint") ==> t.operation == (Operation::Mint { to: f.to->Some_0, amount: f.amount, fee: f.fee->Some_0 })
    &&& f.op == LIT("xfer") ==> t.operation == (Operation::Transfer { from: f.from->Some_0, to: f.to->Some_0, spender: f.spender, amount: f.amount, fee: f.fee })
    &&& f.op == LIT("approve") ==> t.operation == (Operation::Approve { from: f.from->Some_0, spender: f.spender->Some_0, amount: f.amount, expected_allowance: f.expected_allowance, expires_at: f.expires_at, fee: f.fee })
}
// encoding and decoding again yields the same account
pub proof fn compact_round_trip(a: Account, c: crate::compact_account::CompactAccount, b: Account)
    requires compact_of(a, c)
    ensures compact_ok(c), compact_of(b, c) ==> a == b
{
    crate::ext::principal_len(a.owner);
    if compact_of(b, c) {
        crate::ext::principal_ext(a.owner, b.owner);
        if a.subaccount is Some { crate::ext::arr32_ext(a.subaccount->Some_0, b.subaccount->Some_0); }
    }
}
// encoding and decoding again yields the same transaction
pub proof fn flat_round_trip(t: Transaction, f: crate::storage::FlattenedTransaction, u: Transaction)
    requires flat_of(t, f)
    ensures flat_ok(f), unflat(u, f) ==> u == t
{
}

// ------ the stored documents
use crate::ext::serde::Enc;
pub open spec fn acct_cv(a: Account) -> crate::ext::CV {
    crate::ext::CV::Array(match a.subaccount { Some(x) => seq![crate::ext::CV::Bytes(a.owner@), crate::ext::CV::Bytes(x@)], None => seq![crate::ext::CV::Bytes(a.owner@)] })
}
pub open spec fn opt_field(m: Map<crate::ext::Str, crate::ext::CV>, k: crate::ext::Str, v: Option<crate::ext::CV>) -> Map<crate::ext::Str, crate::ext::CV> {
    match v { Some(c) => m.insert(k, c), None => m }
}
pub open spec fn oenc<T: Enc>(o: Option<T>) -> Option<crate::ext::CV> { match o { Some(x) => Some(x.enc()), None => None } }
pub open spec fn oacct(o: Option<Account>) -> Option<crate::ext::CV> { match o { Some(x) => Some(acct_cv(x)), None => None } }
pub open spec fn orn(o: Option<crate::ext::CV>) -> crate::ext::CV { match o { Some(x) => x, None => crate::ext::CV::Null } }
// an account's compact form is written as that document, and such a document is read back as the account
pub broadcast proof fn compact_written(a: Account, c: crate::compact_account::CompactAccount)
    requires #[trigger] compact_of(a, c)
    ensures c.0.enc() == acct_cv(a)
{ assert(c.0.enc()->Array_0 =~= acct_cv(a)->Array_0); }
//#if C21
pub broadcast proof fn compact_read(a: Account)
    ensures match crate::ext::decoded::<Vec<crate::ext::serde_bytes::ByteBuf>>(#[trigger] acct_cv(a)) { Some(v) => compact_ok(crate::compact_account::CompactAccount(v)) && compact_of(a, crate::compact_account::CompactAccount(v)), None => false }, !(acct_cv(a) is Null)
{
    broadcast use {crate::ext::decoded_blobs, crate::ext::principal_len};
    let c = acct_cv(a);
    match crate::ext::decoded::<Vec<crate::ext::serde_bytes::ByteBuf>>(c) { Some(v) => { assert(c->Array_0[0] == crate::ext::CV::Bytes(v@[0]@)); if a.subaccount is Some { assert(c->Array_0[1] == crate::ext::CV::Bytes(v@[1]@)); } } None => {} }
}
pub broadcast proof fn compact_one(a: Account, b: Account, c: crate::compact_account::CompactAccount)
    requires #[trigger] compact_of(a, c), #[trigger] compact_of(b, c)
    ensures a == b
{ compact_round_trip(a, c, b); }
//#endif
// the fields of a stored transaction record: an optional field is there exactly when it has a value
pub open spec fn flat_fields(f: crate::storage::FlattenedTransaction) -> Map<crate::ext::Str, crate::ext::CV> {
    let m = Map::empty().insert(LIT("op"), f.op.enc()).insert(LIT("amt"), f.amount.enc());
    let m = opt_field(opt_field(m, LIT("ts"), oenc(f.created_at_time)), LIT("memo"), oenc(f.memo));
    let m = opt_field(opt_field(opt_field(m, LIT("from"), oacct(f.from)), LIT("to"), oacct(f.to)), LIT("spender"), oacct(f.spender));
    opt_field(opt_field(opt_field(m, LIT("fee"), oenc(f.fee)), LIT("expected_allowance"), oenc(f.expected_allowance)), LIT("expires_at"), oenc(f.expires_at))
}
pub open spec fn flat(t: Transaction) -> crate::storage::FlattenedTransaction {
    match t.operation {
        Operation::Burn { from, spender, amount } => crate::storage::FlattenedTransaction { created_at_time: t.created_at_time, memo: t.memo, op: LIT("burn"), from: Some(from), to: None, spender, amount, fee: None, expected_allowance: None, expires_at: None },
        Operation::Mint { to, amount, fee } => crate::storage::FlattenedTransaction { created_at_time: t.created_at_time, memo: t.memo, op: LIT("mint"), from: None, to: Some(to), spender: None, amount, fee: Some(fee), expected_allowance: None, expires_at: None },
        Operation::Transfer { from, to, spender, amount, fee } => crate::storage::FlattenedTransaction { created_at_time: t.created_at_time, memo: t.memo, op: LIT("xfer"), from: Some(from), to: Some(to), spender, amount, fee, expected_allowance: None, expires_at: None },
        Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } => crate::storage::FlattenedTransaction { created_at_time: t.created_at_time, memo: t.memo, op: LIT("approve"), from: Some(from), to: None, spender: Some(spender), amount, fee, expected_allowance, expires_at },
    }
}
pub open spec fn tx_fields(t: Transaction) -> Map<crate::ext::Str, crate::ext::CV> { flat_fields(flat(t)) }
pub open spec fn tx_doc(c: crate::ext::CV, t: Transaction) -> bool { crate::ext::is_record(c) && crate::ext::fields_of(c) == tx_fields(t) }
//#if C21
pub open spec fn ohash(o: Option<[u8; 32]>) -> Option<crate::ext::CV> { match o { Some(h) => Some(crate::ext::CV::Bytes(h@)), None => None } }
pub open spec fn block_fields(b: Block, tx: crate::ext::CV) -> Map<crate::ext::Str, crate::ext::CV> {
    opt_field(opt_field(Map::empty().insert(LIT("tx"), tx).insert(LIT("ts"), b.timestamp.enc()), LIT("phash"), ohash(b.phash)), LIT("fee"), oenc(b.effective_fee))
}
pub open spec fn block_doc(c: crate::ext::CV, b: Block) -> bool {
    let m = crate::ext::fields_of(c);
    crate::ext::is_record(c) && tx_doc(m[LIT("tx")], b.transaction) && m == block_fields(b, m[LIT("tx")])
}
// the bytes in stable memory hold the block
pub open spec fn stored(bytes: Seq<u8>, b: Block) -> bool { match crate::ext::cbor_read(bytes) { Some(c) => block_doc(c, b), None => false } }
// two different blocks never share their stored bytes
pub proof fn stored_injective(bytes: Seq<u8>, a: Block, b: Block, d: Block)
    requires stored(bytes, a), stored(bytes, b), forall|x: Block| #[trigger] stored(bytes, x) ==> d == x
    ensures a == b
{}
//#endif
//#endif

//#if C23
// ------------------------------------------------------------------ C23: the stored configuration
use crate::ext::serde::Enc;
pub open spec fn oenc<T: Enc>(o: Option<T>) -> crate::ext::CV { match o { Some(x) => x.enc(), None => crate::ext::CV::Null } }
pub open spec fn config_fields(c: crate::config::Config) -> Map<crate::ext::Str, crate::ext::CV> {
    Map::empty().insert(LIT("max_blocks_per_request"), c.max_blocks_per_request.enc()).insert(LIT("index_id"), oenc(c.index_id)).insert(LIT("initial_balances"), oenc(c.initial_balances))
}
pub open spec fn config_doc(d: crate::ext::CV, c: crate::config::Config) -> bool { crate::ext::is_record(d) && crate::ext::fields_of(d) == config_fields(c) }
pub open spec fn config_stored(bytes: Seq<u8>, c: crate::config::Config) -> bool { match crate::ext::cbor_read(bytes) { Some(d) => config_doc(d, c), None => false } }
//#endif

//#if C29 C23
// ------------------------------------------------------------------ C29: installation and upgrade arguments
pub open spec fn initial(c: crate::config::Config) -> Seq<(Account, u128)> { match c.initial_balances { Some(v) => v@, None => Seq::empty() } }
// what the first n entries of the list give to account k, and in total
pub open spec fn given(l: Seq<(Account, u128)>, n: int, k: AKey) -> int
    decreases n
{
    if n <= 0 { 0 } else { given(l, n - 1, k) + (if akey(l[n - 1].0) == k { l[n - 1].1 as int } else { 0 }) }
}
pub open spec fn total(l: Seq<(Account, u128)>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { total(l, n - 1) + l[n - 1].1 as int }
}
pub open spec fn installed(a: State, b: State, l: Seq<(Account, u128)>, n: int) -> bool {
    &&& b.blocks@.len() == a.blocks@.len() + n && prefix(a, b)
    &&& forall|i: int| 0 <= i < n ==> mint_of((#[trigger] b.blocks@[a.blocks@.len() + i]).transaction, l[i].0, l[i].1)
    &&& forall|k: AKey| #[trigger] balm(b.balances@, k) == balm(a.balances@, k) + given(l, n, k)
    &&& supply(b) == supply(a) + total(l, n)
}
pub open spec fn mint_of(t: Transaction, to: Account, amount: u128) -> bool {
    t.operation is Mint && t.operation->Mint_to == to && t.operation->Mint_amount == amount && t.memo is None && t.created_at_time is None
}
pub open spec fn index_of(c: crate::endpoints::ChangeIndexId) -> Option<crate::ext::candid::Principal> {
    match c { crate::endpoints::ChangeIndexId::Unset => None, crate::endpoints::ChangeIndexId::SetTo(p) => Some(p) }
}
pub open spec fn upgraded(c: crate::config::Config, args: Option<crate::endpoints::LedgerArgs>) -> crate::config::Config {
    match args {
        Some(crate::endpoints::LedgerArgs::Upgrade(Some(u))) => crate::config::Config {
            max_blocks_per_request: match u.max_blocks_per_request { Some(n) => n, None => c.max_blocks_per_request },
            index_id: match u.change_index_id { Some(x) => index_of(x), None => c.index_id },
            initial_balances: c.initial_balances,
        },
        _ => c,
    }
}
//#endif

//#if C24 C27 C29
// ---------------------------------------------------------------- what the metadata says
pub type Entry = (crate::ext::Str, crate::ext::icrc_ledger_types::icrc::generic_metadata_value::MetadataValue);
pub open spec fn see(l: Seq<Entry>, i: int) -> bool { true }
pub open spec fn see16(l: Seq<Entry>) -> bool {
    see(l, 0) && see(l, 1) && see(l, 2) && see(l, 3) && see(l, 4) && see(l, 5) && see(l, 6) && see(l, 7)
    && see(l, 8) && see(l, 9) && see(l, 10) && see(l, 11) && see(l, 12) && see(l, 13) && see(l, 14) && see(l, 15)
}
pub open spec fn says_nat(l: Seq<Entry>, k: crate::ext::Str, n: nat) -> bool {
    &&& exists|i: int| #[trigger] see(l, i) && 0 <= i < l.len() && l[i].0 == k
    &&& forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k ==> l[i].1 is Nat && l[i].1->Nat_0@ == n
}
pub open spec fn says_index(l: Seq<Entry>, k: crate::ext::Str, p: Option<crate::ext::candid::Principal>) -> bool {
    &&& (exists|i: int| #[trigger] see(l, i) && 0 <= i < l.len() && l[i].0 == k) <==> p is Some
    &&& forall|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k ==> p is Some && l[i].1 is Blob && l[i].1->Blob_0@ == p->Some_0@
}
//#endif

//#if C18 C20
// ---------------------------------------------------------------- the published form of a block
pub use crate::ext::{GV, gv};
pub open spec fn account_gvs(a: Account) -> Seq<GV> {
    match a.subaccount {
        None => seq![GV::Blob(a.owner@)],
        Some(s) => seq![GV::Blob(a.owner@), GV::Blob(s@)],
    }
}
pub open spec fn account_gv(a: Account) -> GV { GV::Array(account_gvs(a)) }
pub open spec fn field(m: Map<crate::ext::Str, GV>, k: crate::ext::Str, v: Option<GV>) -> Map<crate::ext::Str, GV> {
    match v { Some(x) => m.insert(k, x), None => m }
}
pub open spec fn some_nat(v: Option<u128>) -> Option<GV> { match v { Some(n) => Some(GV::Nat(n as nat)), None => None } }
pub open spec fn some_nat64(v: Option<u64>) -> Option<GV> { match v { Some(n) => Some(GV::Nat(n as nat)), None => None } }
pub open spec fn some_account(v: Option<Account>) -> Option<GV> { match v { Some(a) => Some(account_gv(a)), None => None } }
pub open spec fn some_memo(v: Option<Memo>) -> Option<GV> { match v { Some(m) => Some(GV::Blob(m.0@)), None => None } }
pub open spec fn op_name(o: Operation) -> crate::ext::Str {
    match o {
        Operation::Mint { .. } => LIT("mint"),
        Operation::Transfer { .. } => LIT("xfer"),
        Operation::Burn { .. } => LIT("burn"),
        Operation::Approve { .. } => LIT("approve"),
    }
}
pub open spec fn op_gvs(o: Operation) -> Map<crate::ext::Str, GV> {
    let m = Map::<crate::ext::Str, GV>::empty().insert(LIT("op"), GV::Text(op_name(o)));
    match o {
        Operation::Mint { to, amount, fee } =>
            m.insert(LIT("to"), account_gv(to)).insert(LIT("amt"), GV::Nat(amount as nat)).insert(LIT("fee"), GV::Nat(fee as nat)),
        Operation::Transfer { from, to, spender, amount, fee } =>
            field(field(m.insert(LIT("from"), account_gv(from)).insert(LIT("to"), account_gv(to)).insert(LIT("amt"), GV::Nat(amount as nat)),
                LIT("spender"), some_account(spender)), LIT("fee"), some_nat(fee)),
        Operation::Burn { from, spender, amount } =>
            field(m.insert(LIT("from"), account_gv(from)).insert(LIT("amt"), GV::Nat(amount as nat)), LIT("spender"), some_account(spender)),
        Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } =>
            field(field(field(m.insert(LIT("from"), account_gv(from)).insert(LIT("spender"), account_gv(spender)).insert(LIT("amt"), GV::Nat(amount as nat)),
                LIT("expected_allowance"), some_nat(expected_allowance)), LIT("expires_at"), some_nat64(expires_at)), LIT("fee"), some_nat(fee)),
    }
}
pub open spec fn tx_gvs(t: Transaction) -> Map<crate::ext::Str, GV> {
    field(field(op_gvs(t.operation), LIT("ts"), some_nat64(t.created_at_time)), LIT("memo"), some_memo(t.memo))
}
pub open spec fn block_gvs(b: Block) -> Map<crate::ext::Str, GV> {
    field(field(Map::<crate::ext::Str, GV>::empty().insert(LIT("tx"), GV::Map(tx_gvs(b.transaction))).insert(LIT("ts"), GV::Nat(b.timestamp as nat)),
        LIT("phash"), match b.phash { Some(h) => Some(GV::Blob(h@)), None => None }), LIT("fee"), some_nat(b.effective_fee))
}
//#endif
//#if C20
// ------ two different blocks never have the same published value
pub proof fn same_account(a: Account, b: Account)
    requires account_gv(a) == account_gv(b)
    ensures a == b
{
    broadcast use {crate::ext::principal_ext, crate::ext::arr32_ext};
    assert(account_gvs(a) == account_gvs(b));
    assert(account_gvs(a).len() == account_gvs(b).len());
    assert(account_gvs(a)[0] == account_gvs(b)[0]);
    assert(a.owner@ == b.owner@);
    if a.subaccount is Some { assert(account_gvs(a)[1] == account_gvs(b)[1]); assert(a.subaccount->Some_0@ == b.subaccount->Some_0@); }
}
pub proof fn same_opt_account(a: Option<Account>, b: Option<Account>)
    requires some_account(a) == some_account(b)
    ensures a == b
{ if a is Some { same_account(a->Some_0, b->Some_0); } }
pub open spec fn opt_at(m: Map<crate::ext::Str, GV>, k: crate::ext::Str) -> Option<GV> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub proof fn same_op(a: Operation, b: Operation)
    requires op_gvs(a) == op_gvs(b)
    ensures a == b
{
    let m = op_gvs(a); let n = op_gvs(b);
    assert(m[LIT("op")] == GV::Text(op_name(a)));
    assert(n[LIT("op")] == GV::Text(op_name(b)));
    assert(op_name(a) == op_name(b));
    assert(opt_at(m, LIT("fee")) == opt_at(n, LIT("fee")));
    assert(opt_at(m, LIT("spender")) == opt_at(n, LIT("spender")));
    assert(opt_at(m, LIT("expires_at")) == opt_at(n, LIT("expires_at")));
    assert(opt_at(m, LIT("expected_allowance")) == opt_at(n, LIT("expected_allowance")));
    assert(m[LIT("amt")] == n[LIT("amt")]);
    match (a, b) {
        (Operation::Mint { to, amount, fee }, Operation::Mint { to: to2, amount: amount2, fee: fee2 }) => {
            assert(m[LIT("to")] == account_gv(to) && n[LIT("to")] == account_gv(to2)); same_account(to, to2);
        },
        (Operation::Transfer { from, to, spender, amount, fee }, Operation::Transfer { from: from2, to: to2, spender: spender2, amount: amount2, fee: fee2 }) => {
            assert(m[LIT("to")] == account_gv(to) && n[LIT("to")] == account_gv(to2)); same_account(to, to2);
            assert(m[LIT("from")] == account_gv(from) && n[LIT("from")] == account_gv(from2)); same_account(from, from2);
            assert(opt_at(m, LIT("spender")) == some_account(spender)); assert(opt_at(n, LIT("spender")) == some_account(spender2)); same_opt_account(spender, spender2);
            assert(opt_at(m, LIT("fee")) == some_nat(fee)); assert(opt_at(n, LIT("fee")) == some_nat(fee2));
        },
        (Operation::Burn { from, spender, amount }, Operation::Burn { from: from2, spender: spender2, amount: amount2 }) => {
            assert(m[LIT("from")] == account_gv(from) && n[LIT("from")] == account_gv(from2)); same_account(from, from2);
            assert(opt_at(m, LIT("spender")) == some_account(spender)); assert(opt_at(n, LIT("spender")) == some_account(spender2)); same_opt_account(spender, spender2);
        },
        (Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee }, Operation::Approve { from: from2, spender: spender2, amount: amount2, expected_allowance: ea2, expires_at: ex2, fee: fee2 }) => {
            assert(m[LIT("from")] == account_gv(from) && n[LIT("from")] == account_gv(from2)); same_account(from, from2);
            assert(m[LIT("spender")] == account_gv(spender) && n[LIT("spender")] == account_gv(spender2)); same_account(spender, spender2);
            assert(opt_at(m, LIT("fee")) == some_nat(fee)); assert(opt_at(n, LIT("fee")) == some_nat(fee2));
            assert(opt_at(m, LIT("expires_at")) == some_nat64(expires_at)); assert(opt_at(n, LIT("expires_at")) == some_nat64(ex2));
            assert(opt_at(m, LIT("expected_allowance")) == some_nat(expected_allowance)); assert(opt_at(n, LIT("expected_allowance")) == some_nat(ea2));
        },
        _ => { assert(false); },
    }
}
pub proof fn same_tx(a: Transaction, b: Transaction)
    requires tx_gvs(a) == tx_gvs(b)
    ensures a == b
{
    broadcast use crate::ext::bytebuf_ext;
    let m = tx_gvs(a); let n = tx_gvs(b);
    assert(opt_at(m, LIT("ts")) == some_nat64(a.created_at_time)); assert(opt_at(n, LIT("ts")) == some_nat64(b.created_at_time));
    assert(opt_at(m, LIT("memo")) == some_memo(a.memo)); assert(opt_at(n, LIT("memo")) == some_memo(b.memo));
    assert(op_gvs(a.operation) =~= m.remove(LIT("ts")).remove(LIT("memo")));
    assert(op_gvs(b.operation) =~= n.remove(LIT("ts")).remove(LIT("memo")));
    same_op(a.operation, b.operation);
    if a.memo is Some { assert(a.memo->Some_0.0@ == b.memo->Some_0.0@); }
}
pub open spec fn some_hash(h: Option<[u8; 32]>) -> Option<GV> { match h { Some(h) => Some(GV::Blob(h@)), None => None } }
// the property itself
pub proof fn published_value_determines_block(a: Block, b: Block)
    requires GV::Map(block_gvs(a)) == GV::Map(block_gvs(b))
    ensures a == b
{
    broadcast use crate::ext::arr32_ext;
    let m = block_gvs(a); let n = block_gvs(b);
    assert(opt_at(m, LIT("phash")) == some_hash(a.phash)); assert(opt_at(n, LIT("phash")) == some_hash(b.phash));
    assert(opt_at(m, LIT("fee")) == some_nat(a.effective_fee)); assert(opt_at(n, LIT("fee")) == some_nat(b.effective_fee));
    assert(m[LIT("ts")] == GV::Nat(a.timestamp as nat)); assert(n[LIT("ts")] == GV::Nat(b.timestamp as nat));
    assert(m[LIT("tx")] == GV::Map(tx_gvs(a.transaction))); assert(n[LIT("tx")] == GV::Map(tx_gvs(b.transaction)));
    same_tx(a.transaction, b.transaction);
    if a.phash is Some { assert(a.phash->Some_0@ == b.phash->Some_0@); }
}
//#endif

//#if C18
// ------ block queries: the indices a request asks for, cut off at the limit
pub open spec fn want(log: int, max: int, args: Seq<crate::endpoints::GetBlocksArg>, n: int) -> Seq<int>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let w = want(log, max, args, n - 1);
        let start = args[n - 1].start@ as int;
        let rest = if start < log { log - start } else { 0 };
        let room = if w.len() < max { max - w.len() } else { 0 };
        let asked = args[n - 1].length@ as int;
        let k = if asked <= rest && asked <= room { asked } else if rest <= room { rest } else { room };
        w + Seq::new(k as nat, |i: int| start + i)
    }
}
pub open spec fn ints(s: Seq<u64>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| s[i] as int) }
pub open spec fn lists(s: State, l: Seq<crate::endpoints::BlockWithId>, w: Seq<int>) -> bool {
    &&& l.len() == w.len()
    &&& forall|i: int| 0 <= i < l.len() ==> 0 <= w[i] < s.blocks@.len() && (#[trigger] l[i]).id@ == w[i] && gv(l[i].block) == GV::Map(block_gvs(s.blocks@[w[i]]))
}
// `b` is `a` and after it the blocks with indices `w`
pub open spec fn added(s: State, a: Seq<crate::endpoints::BlockWithId>, b: Seq<crate::endpoints::BlockWithId>, w: Seq<int>) -> bool {
    a.len() <= b.len() && b.subrange(0, a.len() as int) == a && lists(s, b.subrange(a.len() as int, b.len() as int), w)
}
pub broadcast proof fn added_none(s: State, a: Seq<crate::endpoints::BlockWithId>, w: Seq<int>)
    requires w.len() == 0
    ensures #[trigger] added(s, a, a, w)
{ assert(a.subrange(0, a.len() as int) =~= a); }
pub broadcast proof fn added_one(s: State, a: Seq<crate::endpoints::BlockWithId>, b: Seq<crate::endpoints::BlockWithId>, x: crate::endpoints::BlockWithId, v: Seq<int>, w: Seq<int>)
    requires #[trigger] added(s, a, b, v), w.len() == v.len() + 1, forall|j: int| 0 <= j < v.len() ==> w[j] == v[j],
        0 <= w.last() < s.blocks@.len(), x.id@ == w.last(), gv(x.block) == GV::Map(block_gvs(s.blocks@[w.last()]))
    ensures #[trigger] added(s, a, b.push(x), w)
{
    let c = b.push(x);
    assert(c.subrange(0, a.len() as int) =~= a);
    assert(c.subrange(a.len() as int, c.len() as int) =~= b.subrange(a.len() as int, b.len() as int).push(x));
}
pub broadcast proof fn added_to(s: State, a: Seq<crate::endpoints::BlockWithId>, b: Seq<crate::endpoints::BlockWithId>, v: Seq<int>, w: Seq<int>)
    requires #[trigger] added(s, a, b, w), #[trigger] lists(s, a, v)
    ensures lists(s, b, v + w)
{
    let l = v + w;
    let c = b.subrange(a.len() as int, b.len() as int);
    assert forall|i: int| 0 <= i < b.len() implies 0 <= l[i] < s.blocks@.len() && (#[trigger] b[i]).id@ == l[i] && gv(b[i].block) == GV::Map(block_gvs(s.blocks@[l[i]])) by {
        if i < a.len() { assert(b.subrange(0, a.len() as int)[i] == b[i]); assert(a[i].id@ == v[i]); } else { assert(c[i - a.len()] == b[i]); }
    }
}
pub broadcast proof fn added_after(s: State, a: Seq<crate::endpoints::BlockWithId>, e: Seq<crate::endpoints::BlockWithId>, p: Seq<crate::endpoints::BlockWithId>, v: Seq<int>, w: Seq<int>)
    requires #[trigger] added(s, e, p, w), e.len() == 0, #[trigger] lists(s, a, v)
    ensures lists(s, #[trigger] (a + p), v + w)
{
    assert(p.subrange(0, p.len() as int) =~= p);
    let l = v + w; let b = a + p;
    assert forall|i: int| 0 <= i < b.len() implies 0 <= l[i] < s.blocks@.len() && (#[trigger] b[i]).id@ == l[i] && gv(b[i].block) == GV::Map(block_gvs(s.blocks@[l[i]])) by {
        if i < a.len() { assert(a[i].id@ == v[i]); } else { assert(p[i - a.len()].id@ == w[i - a.len()]); }
    }
}
pub open spec fn serves(s: State, l: Seq<crate::endpoints::BlockWithId>, args: Seq<crate::endpoints::GetBlocksArg>, n: int) -> bool {
    lists(s, l, want(s.blocks@.len() as int, s.config@.max_blocks_per_request as int, args, n))
}
pub proof fn want_full(log: int, max: int, args: Seq<crate::endpoints::GetBlocksArg>, j: int, n: int)
    requires 0 <= j <= n, want(log, max, args, j).len() >= max
    ensures want(log, max, args, n) == want(log, max, args, j)
    decreases n
{ if j < n { want_full(log, max, args, j, n - 1); assert(want(log, max, args, n) =~= want(log, max, args, n - 1)); } }
pub broadcast proof fn serves_full(s: State, l: Seq<crate::endpoints::BlockWithId>, args: Seq<crate::endpoints::GetBlocksArg>, j: int, n: int)
    requires 0 <= j <= n, l.len() >= s.config@.max_blocks_per_request, #[trigger] serves(s, l, args, j)
    ensures #[trigger] serves(s, l, args, n)
{ want_full(s.blocks@.len() as int, s.config@.max_blocks_per_request as int, args, j, n); }
// never more than the limit
pub proof fn want_limit(log: int, max: int, args: Seq<crate::endpoints::GetBlocksArg>, n: int)
    requires 0 <= max
    ensures want(log, max, args, n).len() <= max
    decreases n
{ if n > 0 { want_limit(log, max, args, n - 1); } }
//#endif

//#if C19
// ---------------------------------------------------------------- allowance listing
pub broadcast proof fn no_bytes(p: crate::ext::candid::Principal)
    ensures (#[trigger] p@).len() == 0 ==> p == crate::ext::empty_principal()
{
    broadcast use {crate::ext::principal_ext, crate::ext::empty_principal_bytes};
    if p@.len() == 0 { assert(p@ =~= crate::ext::empty_principal()@); }
}
pub broadcast proof fn past_owner(a: PK, b: PK, s: PK)
    requires !#[trigger] crate::ext::key_lt(a, s), a.0.0 != s.0.0, #[trigger] crate::ext::key_lt(a, b)
    ensures b.0.0 != s.0.0
{
    broadcast use {crate::ext::key_lt_irrefl, crate::ext::key_lt_trans, crate::ext::key_lt_total, crate::ext::key_lt_pair};
    assert(crate::ext::key_lt(a.0, s.0) == (crate::ext::key_lt(a.0.0, s.0.0) || (a.0.0 == s.0.0 && crate::ext::key_lt(a.0.1, s.0.1))));
    assert(crate::ext::key_lt(a.0, b.0) || a.0 == b.0);
    assert(crate::ext::key_lt(s.0.0, a.0.0));
    if a.0 != b.0 {
        assert(crate::ext::key_lt(a.0.0, b.0.0) || a.0.0 == b.0.0);
        if a.0.0 != b.0.0 { assert(crate::ext::key_lt(s.0.0, b.0.0)); }
    }
}
pub open spec fn lkey(x: crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance) -> PK { (akey(x.from_account), akey(x.to_spender)) }
// at or after the given account, strictly after the given previous spender
pub open spec fn after(from: Account, spender: Option<Account>, k: PK) -> bool {
    match spender { Some(p) => crate::ext::key_lt((akey(from), akey(p)), k), None => !crate::ext::key_lt(k.0, akey(from)) }
}
pub open spec fn asked(m: Map<PK, (u128, u64)>, from: Account, spender: Option<Account>, now: u64, k: PK) -> bool {
    m.contains_key(k) && k.0.0 == from.owner && after(from, spender, k) && (m[k].1 == 0 || m[k].1 > now)
}
pub open spec fn within(l: Seq<crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance>, k: PK) -> bool { exists|i: int| 0 <= i < l.len() && lkey(#[trigger] l[i]) == k }
pub broadcast proof fn within_push(l: Seq<crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance>, x: crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance, k: PK)
    ensures #[trigger] within(l.push(x), k) == (within(l, k) || lkey(x) == k)
{
    if within(l, k) { let i = choose|i: int| 0 <= i < l.len() && lkey(#[trigger] l[i]) == k; assert(l.push(x)[i] == l[i]); }
    if lkey(x) == k { assert(l.push(x)[l.len() as int] == x); }
    if within(l.push(x), k) { let i = choose|i: int| 0 <= i < l.push(x).len() && lkey(#[trigger] l.push(x)[i]) == k; if i < l.len() { assert(l.push(x)[i] == l[i]); } }
}
pub open spec fn covered(m: Map<PK, (u128, u64)>, from: Account, spender: Option<Account>, max: int, now: u64, l: Seq<crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance>, k: PK) -> bool {
    asked(m, from, spender, now, k) ==> within(l, k) || (l.len() == max && forall|i: int| 0 <= i < l.len() ==> crate::ext::key_lt(lkey(#[trigger] l[i]), k))
}
pub open spec fn listed(m: Map<PK, (u128, u64)>, from: Account, spender: Option<Account>, max: int, now: u64, l: Seq<crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance>) -> bool {
    &&& l.len() <= max
    &&& forall|i: int| 0 <= i < l.len() ==> asked(m, from, spender, now, lkey(#[trigger] l[i])) && l[i].allowance@ == m[lkey(l[i])].0
            && l[i].expires_at == (if m[lkey(l[i])].1 == 0 { None::<u64> } else { Some(m[lkey(l[i])].1) })
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> crate::ext::key_lt(lkey(#[trigger] l[i]), lkey(#[trigger] l[j]))
}
pub open spec fn listing(m: Map<PK, (u128, u64)>, from: Account, spender: Option<Account>, max: int, now: u64, l: Seq<crate::ext::icrc_ledger_types::icrc103::get_allowances::Allowance>) -> bool {
    &&& listed(m, from, spender, max, now, l)
    &&& forall|k: PK| #[trigger] m.contains_key(k) ==> covered(m, from, spender, max, now, l, k)
}
//#endif

//#if C30
// ---------------------------------------------------------------- generic values and CBOR
pub use crate::ext::{GV, gv, CV, cbv};
use crate::ext::icrc_ledger_types::icrc::generic_value::Value;
use crate::ext::ciborium::value::Value as CVal;
pub open spec fn MAXDEPTH() -> int { 64 }
// the first n entries of a list of entries, as a map; a later entry for the same key wins
pub open spec fn firsts(s: Seq<(crate::ext::Str, GV)>, n: int) -> Map<crate::ext::Str, GV>
    decreases n
{ if n <= 0 { Map::empty() } else { firsts(s, n - 1).insert(s[n - 1].0, s[n - 1].1) } }
// the generic value a CBOR value stands for, if any
pub open spec fn from_cv(c: CV, d: int) -> Option<GV>
    decreases 64 - d
{
    if d >= 64 { None } else {
        match c {
            CV::Integer(i) => if i >= 0 { Some(GV::Int(i)) } else { None },
            CV::Bytes(b) => Some(GV::Blob(b)),
            CV::Text(t) => Some(GV::Text(t)),
            CV::Array(s) => if forall|i: int| 0 <= i < s.len() ==> from_cv(#[trigger] s[i], d + 1) is Some { Some(GV::Array(Seq::new(s.len(), |i: int| from_cv(s[i], d + 1)->Some_0))) } else { None },
            CV::Map(s) => if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 is Text && from_cv(s[i].1, d + 1) is Some { Some(GV::Map(firsts(Seq::new(s.len(), |i: int| (s[i].0->Text_0, from_cv(s[i].1, d + 1)->Some_0)), s.len() as int))) } else { None },
            CV::Tag(t, b) => if t == 55799 { from_cv(*b, d + 1) } else if t == 2 { match *b { CV::Bytes(x) => Some(GV::Nat(crate::ext::big_endian(x))), _ => None } } else { None },
            _ => None,
        }
    }
}
// the generic values that have a CBOR form
pub open spec fn supported(g: GV, d: int) -> bool
    decreases 64 - d
{
    d < 64 && match g {
        GV::Int(i) => 0 <= i <= u64::MAX,
        GV::Nat(_) | GV::Blob(_) | GV::Text(_) => true,
        GV::Nat64(_) => false,
        GV::Array(s) => forall|i: int| 0 <= i < s.len() ==> supported(#[trigger] s[i], d + 1),
        GV::Map(m) => forall|k: crate::ext::Str| #[trigger] m.contains_key(k) ==> supported(m[k], d + 1),
    }
}

// ------ loop states: CBOR -> generic
pub open spec fn arr_dec(c: CV, d: int, out: Seq<Value>, n: int) -> bool {
    &&& c is Array && out.len() == n && n <= c->Array_0.len()
    &&& forall|i: int| 0 <= i < n ==> from_cv(c->Array_0[i], d + 1) == Some(gv(#[trigger] out[i]))
}
pub broadcast proof fn arr_dec_end(c: CV, d: int, out: Seq<Value>, n: int)
    requires #[trigger] arr_dec(c, d, out, n), d < 64, n == c->Array_0.len()
    ensures from_cv(c, d) == Some(GV::Array(out.map_values(|x: Value| gv(x))))
{
    let s = c->Array_0;
    assert forall|i: int| 0 <= i < s.len() implies from_cv(#[trigger] s[i], d + 1) is Some by { assert(from_cv(s[i], d + 1) == Some(gv(out[i]))); }
    assert(from_cv(c, d) is Some && from_cv(c, d)->Some_0 is Array);
    let r = from_cv(c, d)->Some_0->Array_0;
    assert(r.len() == s.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] r[i] == gv(out[i]) by { assert(from_cv(s[i], d + 1) == Some(gv(out[i]))); }
    assert(r =~= out.map_values(|x: Value| gv(x)));
}
pub broadcast proof fn arr_dec_fail(c: CV, d: int, out: Seq<Value>, n: int)
    requires #[trigger] arr_dec(c, d, out, n), n < c->Array_0.len(), from_cv(c->Array_0[n], d + 1) is None
    ensures from_cv(c, d) is None
{}
pub open spec fn entry(c: (CV, CV), d: int) -> (crate::ext::Str, GV) { (c.0->Text_0, from_cv(c.1, d + 1)->Some_0) }
pub open spec fn entries(s: Seq<(CV, CV)>, d: int) -> Seq<(crate::ext::Str, GV)> { Seq::new(s.len(), |i: int| (s[i].0->Text_0, from_cv(s[i].1, d + 1)->Some_0)) }
pub open spec fn map_dec(c: CV, d: int, out: Map<crate::ext::Str, Value>, n: int) -> bool {
    &&& c is Map && 0 <= n <= c->Map_0.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] c->Map_0[i]).0 is Text && from_cv(c->Map_0[i].1, d + 1) is Some
    &&& out.map_values(|x: Value| gv(x)) == firsts(entries(c->Map_0, d), n)
}
pub broadcast proof fn map_dec_start(c: CV, d: int, out: Map<crate::ext::Str, Value>)
    requires c is Map, out == Map::<crate::ext::Str, Value>::empty()
    ensures #[trigger] map_dec(c, d, out, 0)
{ assert(out.map_values(|x: Value| gv(x)) =~= Map::<crate::ext::Str, GV>::empty()); }
pub broadcast proof fn map_dec_step(c: CV, d: int, out: Map<crate::ext::Str, Value>, n: int, k: crate::ext::Str, v: Value, e: int)
    requires #[trigger] map_dec(c, d, out, n), e == n + 1, n < c->Map_0.len(), c->Map_0[n].0 == CV::Text(k), from_cv(c->Map_0[n].1, d + 1) == Some(gv(v))
    ensures #[trigger] map_dec(c, d, out.insert(k, v), e)
{
    assert(out.insert(k, v).map_values(|x: Value| gv(x)) =~= out.map_values(|x: Value| gv(x)).insert(k, gv(v)));
    assert(entries(c->Map_0, d)[n] == (k, gv(v)));
}
pub proof fn from_map(c: CV, d: int)
    requires c is Map, d < 64, forall|i: int| 0 <= i < c->Map_0.len() ==> (#[trigger] c->Map_0[i]).0 is Text && from_cv(c->Map_0[i].1, d + 1) is Some
    ensures from_cv(c, d) == Some(GV::Map(firsts(entries(c->Map_0, d), c->Map_0.len() as int)))
{
    let s = c->Map_0;
    assert(from_cv(c, d) is Some && from_cv(c, d)->Some_0 is Map);
    assert forall|t: Seq<(crate::ext::Str, GV)>| t.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (s[i].0->Text_0, from_cv(s[i].1, d + 1)->Some_0)) implies #[trigger] firsts(t, s.len() as int) == firsts(entries(s, d), s.len() as int) by { assert(t =~= entries(s, d)); }
}
pub broadcast proof fn map_dec_end(c: CV, d: int, out: Map<crate::ext::Str, Value>, n: int)
    requires #[trigger] map_dec(c, d, out, n), d < 64, n == c->Map_0.len()
    ensures from_cv(c, d) == Some(GV::Map(out.map_values(|x: Value| gv(x))))
{ from_map(c, d); }
pub broadcast proof fn map_dec_fail(c: CV, d: int, out: Map<crate::ext::Str, Value>, n: int)
    requires #[trigger] map_dec(c, d, out, n), n < c->Map_0.len(), !(c->Map_0[n].0 is Text) || from_cv(c->Map_0[n].1, d + 1) is None
    ensures from_cv(c, d) is None
{}
pub broadcast proof fn cbv_is_text(v: CVal)
    ensures (#[trigger] cbv(v) is Text) == (v is Text), (cbv(v) is Bytes) == (v is Bytes)
{
    broadcast use {crate::ext::cbv_integer, crate::ext::cbv_bytes, crate::ext::cbv_text, crate::ext::cbv_array, crate::ext::cbv_map, crate::ext::cbv_bool, crate::ext::cbv_null, crate::ext::cbv_float, crate::ext::cbv_tag};
    match v { CVal::Integer(_) => {}, CVal::Bytes(_) => {}, CVal::Float(_) => {}, CVal::Text(_) => {}, CVal::Bool(_) => {}, CVal::Null => {}, CVal::Tag(_, _) => {}, CVal::Array(_) => {}, CVal::Map(_) => {} }
}
// ------ loop states: generic -> CBOR
pub open spec fn arr_enc(g: GV, d: int, out: Seq<CVal>, n: int) -> bool {
    &&& g is Array && out.len() == n && n <= g->Array_0.len()
    &&& forall|i: int| 0 <= i < n ==> from_cv(cbv(#[trigger] out[i]), d + 1) == Some(g->Array_0[i]) && supported(g->Array_0[i], d + 1)
}
pub broadcast proof fn arr_enc_end(g: GV, d: int, out: Seq<CVal>, n: int)
    requires #[trigger] arr_enc(g, d, out, n), d < 64, n == g->Array_0.len()
    ensures supported(g, d), from_cv(CV::Array(out.map_values(|x: CVal| cbv(x))), d) == Some(g)
{
    let s = out.map_values(|x: CVal| cbv(x));
    assert forall|i: int| 0 <= i < s.len() implies from_cv(#[trigger] s[i], d + 1) == Some(g->Array_0[i]) && supported(g->Array_0[i], d + 1) by { assert(s[i] == cbv(out[i])); }
    assert forall|i: int| 0 <= i < g->Array_0.len() implies supported(#[trigger] g->Array_0[i], d + 1) by { assert(from_cv(s[i], d + 1) is Some); }
    let r = from_cv(CV::Array(s), d)->Some_0->Array_0;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] r[i] == g->Array_0[i] by { assert(from_cv(s[i], d + 1) == Some(g->Array_0[i])); }
    assert(r =~= g->Array_0);
}
pub broadcast proof fn arr_enc_fail(g: GV, d: int, out: Seq<CVal>, n: int)
    requires #[trigger] arr_enc(g, d, out, n), n < g->Array_0.len(), !supported(g->Array_0[n], d + 1)
    ensures !supported(g, d)
{}
pub open spec fn map_enc(g: GV, d: int, its: Seq<(&crate::ext::Str, &Value)>, out: Seq<(CVal, CVal)>, n: int) -> bool {
    &&& g is Map && out.len() == n && n <= its.len()
    &&& forall|i: int| 0 <= i < n ==> cbv((#[trigger] out[i]).0) == CV::Text(*its[i].0) && from_cv(cbv(out[i].1), d + 1) == Some(gv(*its[i].1)) && supported(gv(*its[i].1), d + 1)
}
pub proof fn firsts_distinct(s: Seq<(crate::ext::Str, GV)>, n: int)
    requires 0 <= n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    ensures forall|i: int| 0 <= i < n ==> firsts(s, n).contains_key((#[trigger] s[i]).0) && firsts(s, n)[s[i].0] == s[i].1,
        forall|k: crate::ext::Str| #[trigger] firsts(s, n).contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k
    decreases n
{
    if n > 0 {
        firsts_distinct(s, n - 1);
        assert forall|k: crate::ext::Str| #[trigger] firsts(s, n).contains_key(k) implies exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k by {
            if k == s[n - 1].0 { assert(s[n - 1].0 == k); } else { assert(firsts(s, n - 1).contains_key(k)); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0 == k; assert(s[i].0 == k); }
        }
    }
}
pub broadcast proof fn map_enc_end(g: GV, d: int, its: Seq<(&crate::ext::Str, &Value)>, m: Map<crate::ext::Str, Value>, out: Seq<(CVal, CVal)>, n: int)
    requires #[trigger] map_enc(g, d, its, out, n), #[trigger] crate::ext::enum_refs(its, m), g == GV::Map(m.map_values(|x: Value| gv(x))), d < 64, n == its.len()
    ensures supported(g, d), from_cv(CV::Map(out.map_values(|x: (CVal, CVal)| (cbv(x.0), cbv(x.1)))), d) == Some(g)
{
    let s = out.map_values(|x: (CVal, CVal)| (cbv(x.0), cbv(x.1)));
    let t = entries(s, d);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 is Text && from_cv(s[i].1, d + 1) is Some && t[i] == (*its[i].0, gv(*its[i].1)) by { assert(s[i] == (cbv(out[i].0), cbv(out[i].1))); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 is Text); assert(s[j].0 is Text); assert(*its[i].0 != *its[j].0); }
    firsts_distinct(t, t.len() as int);
    let f = firsts(t, t.len() as int);
    let h = m.map_values(|x: Value| gv(x));
    assert forall|k: crate::ext::Str| #[trigger] f.contains_key(k) implies h.contains_key(k) && f[k] == h[k] by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(s[i].0 is Text); assert(*its[i].0 == k); assert(m.contains_key(k) && m[k] == *its[i].1);
    }
    assert forall|k: crate::ext::Str| #[trigger] h.contains_key(k) implies f.contains_key(k) by {
        assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < its.len() && *(#[trigger] its[i]).0 == k; assert(s[i].0 is Text); assert(t[i].0 == k);
    }
    assert(f =~= h);
    from_map(CV::Map(s), d);
    assert forall|k: crate::ext::Str| #[trigger] h.contains_key(k) implies supported(h[k], d + 1) by {
        assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < its.len() && *(#[trigger] its[i]).0 == k; assert(s[i].0 is Text); assert(m[k] == *its[i].1); assert(supported(gv(*its[i].1), d + 1)) by { assert(out[i] == out[i]); }
    }
}
pub broadcast proof fn map_enc_fail(g: GV, d: int, its: Seq<(&crate::ext::Str, &Value)>, m: Map<crate::ext::Str, Value>, out: Seq<(CVal, CVal)>, n: int)
    requires #[trigger] map_enc(g, d, its, out, n), #[trigger] crate::ext::enum_refs(its, m), g == GV::Map(m.map_values(|x: Value| gv(x))), 0 <= n < its.len(), !supported(gv(*its[n].1), d + 1)
    ensures !supported(g, d)
{ let h = m.map_values(|x: Value| gv(x)); let k = *its[n].0; assert(its[n] == its[n]); assert(m.contains_key(k)); assert(m[k] == *its[n].1); assert(h.contains_key(k) && h[k] == gv(*its[n].1)); assert(g->Map_0 == h); if supported(g, d) { assert(supported(h[k], d + 1)); } }
// ------ the identity of a transaction
pub proof fn lookup_in(s: Seq<(CV, CV)>, k: crate::ext::Str)
    ensures match crate::ext::lookup(s, k) { Some(v) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (CV::Text(k), v), None => forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != CV::Text(k) }
    decreases s.len()
{
    if s.len() > 0 {
        if s.last().0 == CV::Text(k) { assert(s[s.len() - 1] == (CV::Text(k), s.last().1)); } else {
            lookup_in(s.drop_last(), k);
            match crate::ext::lookup(s, k) {
                Some(v) => { let i = choose|i: int| 0 <= i < s.len() - 1 && #[trigger] s.drop_last()[i] == (CV::Text(k), v); assert(s[i] == (CV::Text(k), v)); }
                None => { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 != CV::Text(k) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } }
            }
        }
    }
}
pub proof fn fields_lookup(s: Seq<(CV, CV)>, k: crate::ext::Str)
    ensures crate::ext::fields_from(s).contains_key(k) <==> crate::ext::lookup(s, k) is Some, crate::ext::fields_from(s).contains_key(k) ==> crate::ext::lookup(s, k) == Some(crate::ext::fields_from(s)[k])
    decreases s.len()
{ if s.len() > 0 { fields_lookup(s.drop_last(), k); } }
// what a record stands for
pub open spec fn rec_gvs(m: Map<crate::ext::Str, CV>, d: int) -> Map<crate::ext::Str, GV> { Map::new(m.dom(), |k: crate::ext::Str| from_cv(m[k], d + 1)->Some_0) }
pub proof fn from_record(c: CV, d: int)
    requires crate::ext::is_record(c), d < 64, forall|k: crate::ext::Str| #[trigger] crate::ext::fields_of(c).contains_key(k) ==> from_cv(crate::ext::fields_of(c)[k], d + 1) is Some
    ensures from_cv(c, d) == Some(GV::Map(rec_gvs(crate::ext::fields_of(c), d)))
{
    let s = c->Map_0;
    let fs = crate::ext::fields_of(c);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 is Text && fs.contains_key(s[i].0->Text_0) && fs[s[i].0->Text_0] == s[i].1 && from_cv(s[i].1, d + 1) is Some by {
        let k = s[i].0->Text_0;
        lookup_in(s, k); fields_lookup(s, k);
        let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (CV::Text(k), crate::ext::lookup(s, k)->Some_0);
        assert(crate::ext::lookup(s, k) is Some);
        assert(i == j) by { if i < j { assert(s[i].0 != s[j].0); } else if j < i { assert(s[j].0 != s[i].0); } }
        assert(fs.contains_key(k));
    }
    from_map(c, d);
    let t = entries(s, d);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 is Text); assert(s[j].0 is Text); assert(s[i].0 != s[j].0); }
    firsts_distinct(t, t.len() as int);
    let f = firsts(t, t.len() as int);
    let h = rec_gvs(fs, d);
    assert forall|k: crate::ext::Str| #[trigger] f.contains_key(k) implies h.contains_key(k) && f[k] == h[k] by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k; assert(s[i].0 is Text);
    }
    assert forall|k: crate::ext::Str| #[trigger] h.contains_key(k) implies f.contains_key(k) by {
        lookup_in(s, k); fields_lookup(s, k); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (CV::Text(k), crate::ext::lookup(s, k)->Some_0); assert(t[i].0 == k);
    }
    assert(f =~= h);
}
pub open spec fn tx_gvs(t: Transaction) -> Map<crate::ext::Str, GV> { rec_gvs(tx_fields(t), 0) }
pub proof fn num_cv(a: u128, d: int)
    requires d < 64
    ensures from_cv(a.enc(), d) == Some(if a <= u64::MAX { GV::Int(a as int) } else { GV::Nat(a as nat) })
{ broadcast use crate::ext::be_min_is; assert(crate::ext::big_endian(crate::ext::be_min(a as nat)) == a as nat); }
pub open spec fn acct_gv(a: Account) -> GV { GV::Array(match a.subaccount { Some(x) => seq![GV::Blob(a.owner@), GV::Blob(x@)], None => seq![GV::Blob(a.owner@)] }) }
pub proof fn acct_cv_gv(a: Account, d: int)
    requires d < 63
    ensures from_cv(acct_cv(a), d) == Some(acct_gv(a))
{
    let s = acct_cv(a)->Array_0;
    assert forall|i: int| 0 <= i < s.len() implies from_cv(#[trigger] s[i], d + 1) == Some(GV::Blob(s[i]->Bytes_0)) by {}
    assert(from_cv(acct_cv(a), d) is Some && from_cv(acct_cv(a), d)->Some_0 is Array);
    assert(from_cv(acct_cv(a), d)->Some_0->Array_0 =~= acct_gv(a)->Array_0);
}
pub proof fn acct_gv_injective(a: Account, b: Account)
    requires acct_gv(a) == acct_gv(b)
    ensures a == b
{
    let (s, t) = (acct_gv(a)->Array_0, acct_gv(b)->Array_0);
    assert(s.len() == t.len());
    assert(s[0] == t[0]);
    crate::ext::principal_ext(a.owner, b.owner);
    if a.subaccount is Some { assert(s[1] == t[1]); crate::ext::arr32_ext(a.subaccount->Some_0, b.subaccount->Some_0); }
}
pub open spec fn oa(o: Option<Account>) -> Option<GV> { match o { Some(a) => Some(acct_gv(a)), None => None } }
pub open spec fn on(o: Option<u128>) -> Option<GV> { match o { Some(a) => Some(num_gv(a)), None => None } }
pub open spec fn num_gv(a: u128) -> GV { if a <= u64::MAX { GV::Int(a as int) } else { GV::Nat(a as nat) } }
pub open spec fn mget(m: Map<crate::ext::Str, GV>, k: crate::ext::Str) -> Option<GV> { if m.contains_key(k) { Some(m[k]) } else { None } }
// field by field, the generic value of a transaction
pub proof fn tx_gvs_are(t: Transaction)
    ensures
        forall|k: crate::ext::Str| #[trigger] tx_fields(t).contains_key(k) ==> from_cv(tx_fields(t)[k], 1) is Some,
        ({ let f = flat(t); let m = tx_gvs(t);
           mget(m, LIT("op")) == Some(GV::Text(f.op)) && mget(m, LIT("amt")) == Some(num_gv(f.amount))
           && mget(m, LIT("ts")) == (match f.created_at_time { Some(x) => Some(GV::Int(x as int)), None => None })
           && mget(m, LIT("memo")) == (match f.memo { Some(x) => Some(GV::Blob(x.0@)), None => None })
           && mget(m, LIT("from")) == oa(f.from) && mget(m, LIT("to")) == oa(f.to) && mget(m, LIT("spender")) == oa(f.spender)
           && mget(m, LIT("fee")) == on(f.fee) && mget(m, LIT("expected_allowance")) == on(f.expected_allowance)
           && mget(m, LIT("expires_at")) == (match f.expires_at { Some(x) => Some(GV::Int(x as int)), None => None }) })
{
    let f = flat(t);
    num_cv(f.amount, 1);
    if f.fee is Some { num_cv(f.fee->Some_0, 1); }
    if f.expected_allowance is Some { num_cv(f.expected_allowance->Some_0, 1); }
    if f.from is Some { acct_cv_gv(f.from->Some_0, 1); }
    if f.to is Some { acct_cv_gv(f.to->Some_0, 1); }
    if f.spender is Some { acct_cv_gv(f.spender->Some_0, 1); }
    let m = tx_fields(t);
    if m.contains_key(LIT("ts")) { assert(from_cv(m[LIT("ts")], 1) is Some); }
    if m.contains_key(LIT("memo")) { assert(from_cv(m[LIT("memo")], 1) is Some); }
    if m.contains_key(LIT("expires_at")) { assert(from_cv(m[LIT("expires_at")], 1) is Some); }
    assert(from_cv(m[LIT("op")], 1) == Some(GV::Text(f.op)));
}
// different transactions never have the same identity
pub proof fn tx_identity(t: Transaction, u: Transaction)
    requires tx_gvs(t) == tx_gvs(u)
    ensures t == u
{
    tx_gvs_are(t);
    tx_gvs_are(u);
    let (f, g) = (flat(t), flat(u));
    assert(mget(tx_gvs(t), LIT("op")) == mget(tx_gvs(u), LIT("op")));
    assert(f.op == g.op && f.amount == g.amount && f.created_at_time == g.created_at_time && f.expires_at == g.expires_at && f.fee == g.fee && f.expected_allowance == g.expected_allowance);
    if f.from is Some && g.from is Some { acct_gv_injective(f.from->Some_0, g.from->Some_0); }
    if f.to is Some && g.to is Some { acct_gv_injective(f.to->Some_0, g.to->Some_0); }
    if f.spender is Some && g.spender is Some { acct_gv_injective(f.spender->Some_0, g.spender->Some_0); }
    if f.memo is Some && g.memo is Some { crate::ext::bytebuf_ext(f.memo->Some_0.0, g.memo->Some_0.0); }
    assert(f == g);
}
//#endif
