//! Checks of the ledger library's conversions on sampled values (bounded stand-in / replay for C20, C21, C22, C23, C30).
use candid::{Nat, Principal};
use ciborium::value::Value as C;
use cycles_ledger::endpoints::*;
use cycles_ledger::storage::{Block, Cbor, Operation, Transaction};
use engine::gen::Rng;
use engine::world::owner;
use ic_stable_structures::Storable;
use icrc_ledger_types::icrc::generic_value::Value;
use icrc_ledger_types::icrc1::{account::Account, transfer::{Memo, TransferError}};
use icrc_ledger_types::icrc2::transfer_from::TransferFromError;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;
use std::collections::BTreeMap;
type R = Result<(), String>;

fn acc(r: &mut Rng) -> Account {
    let o = if r.p(70) { owner(r.n(12) as u16) } else { let n = 1 + r.n(29) as usize; let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); Principal::try_from_slice(&b).unwrap() };
    let subaccount = match r.n(4) { 0 => Some([0; 32]), 1 => { let x = r.next() as u8; Some([x; 32]) } 2 => { let mut a = [0; 32]; for x in a.iter_mut() { *x = r.next() as u8 } Some(a) } _ => None };
    Account { owner: o, subaccount }
}
fn amt(r: &mut Rng) -> u128 { match r.n(8) { 0 => 0, 1 => u128::MAX, 2 => u64::MAX as u128, 3 => u64::MAX as u128 + 1 + r.n(3) as u128, 4 => r.n(300) as u128, 5 => 1 << 127, _ => ((r.next() as u128) << 64 | r.next() as u128) >> r.n(128) } }
fn u64s(r: &mut Rng) -> u64 { match r.n(6) { 0 => 0, 1 => u64::MAX, 2 => r.n(300), 3 => i64::MAX as u64 + r.n(3), _ => r.next() >> r.n(64) } }
fn o<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.p(50) { Some(f(r)) } else { None } }
fn memo(r: &mut Rng) -> Memo { let n = r.of(&[0usize, 1, 23, 24, 31, 32, 33, 5]); Memo(ByteBuf::from((0..n).map(|_| r.next() as u8).collect::<Vec<_>>())) }
/// another account of the same request: often the same one, or of the same owner
fn rel(r: &mut Rng, a: &Account) -> Account { match r.n(8) { 0 | 1 => *a, 2 => Account { owner: a.owner, subaccount: acc(r).subaccount }, 3 => Account { owner: acc(r).owner, subaccount: a.subaccount }, _ => acc(r) } }
fn tx(r: &mut Rng) -> Transaction {
    let a = acc(r);
    let operation = match r.n(4) {
        0 => Operation::Mint { to: a, amount: amt(r), fee: amt(r) },
        1 => Operation::Transfer { from: a, to: rel(r, &a), spender: o(r, |r| rel(r, &a)), amount: amt(r), fee: o(r, amt) },
        2 => Operation::Burn { from: a, spender: o(r, |r| rel(r, &a)), amount: amt(r) },
        _ => Operation::Approve { from: a, spender: rel(r, &a), amount: amt(r), expected_allowance: o(r, amt), expires_at: o(r, u64s), fee: o(r, amt) },
    };
    Transaction { operation, created_at_time: o(r, u64s), memo: o(r, memo) }
}
fn block(r: &mut Rng) -> Block { Block { transaction: tx(r), timestamp: u64s(r), phash: o(r, |r| { let x = r.next() as u8; [x; 32] }), effective_fee: o(r, amt) } }

fn va(a: &Account) -> Value { let mut v = vec![Value::Blob(ByteBuf::from(a.owner.as_slice().to_vec()))]; if let Some(s) = a.subaccount { v.push(Value::Blob(ByteBuf::from(s.to_vec()))) } Value::Array(v) }
fn vn(x: u128) -> Value { Value::Nat(Nat(num_bigint::BigUint::from(x))) }
/// the ICRC-3 form, written independently; optional fields when and only when present
fn expect(b: &Block) -> Value {
    let mut t = BTreeMap::new();
    let mut put = |k: &str, v: Option<Value>| { if let Some(v) = v { t.insert(k.to_string(), v); } };
    put("ts", b.transaction.created_at_time.map(|x| vn(x as u128)));
    put("memo", b.transaction.memo.clone().map(|m| Value::Blob(m.0)));
    match &b.transaction.operation {
        Operation::Mint { to, amount, fee } => { put("op", Some(Value::Text("mint".into()))); put("to", Some(va(to))); put("amt", Some(vn(*amount))); put("fee", Some(vn(*fee))) }
        Operation::Transfer { from, to, spender, amount, fee } => { put("op", Some(Value::Text("xfer".into()))); put("from", Some(va(from))); put("to", Some(va(to))); put("spender", spender.as_ref().map(va)); put("amt", Some(vn(*amount))); put("fee", fee.map(vn)) }
        Operation::Burn { from, spender, amount } => { put("op", Some(Value::Text("burn".into()))); put("from", Some(va(from))); put("spender", spender.as_ref().map(va)); put("amt", Some(vn(*amount))) }
        Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } => { put("op", Some(Value::Text("approve".into()))); put("from", Some(va(from))); put("spender", Some(va(spender))); put("amt", Some(vn(*amount))); put("expected_allowance", expected_allowance.map(vn)); put("expires_at", expires_at.map(|x| vn(x as u128))); put("fee", fee.map(vn)) }
    }
    let mut m = BTreeMap::new();
    m.insert("tx".to_string(), Value::Map(t));
    m.insert("ts".to_string(), vn(b.timestamp as u128));
    if let Some(p) = b.phash { m.insert("phash".to_string(), Value::Blob(ByteBuf::from(p.to_vec()))); }
    if let Some(f) = b.effective_fee { m.insert("fee".to_string(), vn(f)); }
    Value::Map(m)
}
fn c20(r: &mut Rng) -> R {
    let b = block(r);
    let v = b.clone().to_value();
    let w = expect(&b);
    if v != w { return Err(format!("published value of {b:?} is {v:?}, expected {w:?}")) }
    if b.clone().hash() != engine::world::vhash(&w) { return Err(format!("hash of {b:?} is not the hash of its published value")) }
    match Block::from_value(v) { Ok(x) if x == b => Ok(()), x => Err(format!("the published value of {b:?} reads back as {x:?}")) }
}
#[derive(Serialize, Deserialize)]
struct A(#[serde(with = "cycles_ledger::compact_account")] Account);
#[derive(Serialize, Deserialize)]
struct OA(#[serde(with = "cycles_ledger::compact_account::opt")] Option<Account>);
fn ca(a: &Account) -> C { let mut v = vec![C::Bytes(a.owner.as_slice().to_vec())]; if let Some(s) = a.subaccount { v.push(C::Bytes(s.to_vec())) } C::Array(v) }
fn cn(x: u128) -> C { if x <= u64::MAX as u128 { C::Integer((x as u64).into()) } else { let b = x.to_be_bytes(); let k = b.iter().position(|x| *x != 0).unwrap_or(16); C::Tag(2, Box::new(C::Bytes(b[k..].to_vec()))) } }
/// the stored form of a transaction and of a block, written independently: the names and shapes that blocks already in stable memory have
fn stx(t: &Transaction) -> C {
    let mut m = vec![];
    let mut put = |k: &str, v: Option<C>| { if let Some(v) = v { m.push((C::Text(k.into()), v)) } };
    put("ts", t.created_at_time.map(|x| cn(x as u128)));
    put("memo", t.memo.clone().map(|m| C::Bytes(m.0.into_vec())));
    match &t.operation {
        Operation::Mint { to, amount, fee } => { put("op", Some(C::Text("mint".into()))); put("to", Some(ca(to))); put("amt", Some(cn(*amount))); put("fee", Some(cn(*fee))) }
        Operation::Transfer { from, to, spender, amount, fee } => { put("op", Some(C::Text("xfer".into()))); put("from", Some(ca(from))); put("to", Some(ca(to))); put("spender", spender.as_ref().map(ca)); put("amt", Some(cn(*amount))); put("fee", fee.map(cn)) }
        Operation::Burn { from, spender, amount } => { put("op", Some(C::Text("burn".into()))); put("from", Some(ca(from))); put("spender", spender.as_ref().map(ca)); put("amt", Some(cn(*amount))) }
        Operation::Approve { from, spender, amount, expected_allowance, expires_at, fee } => { put("op", Some(C::Text("approve".into()))); put("from", Some(ca(from))); put("spender", Some(ca(spender))); put("amt", Some(cn(*amount))); put("expected_allowance", expected_allowance.map(cn)); put("expires_at", expires_at.map(|x| cn(x as u128))); put("fee", fee.map(cn)) }
    }
    C::Map(m)
}
fn sblock(b: &Block) -> C {
    let mut m = vec![(C::Text("tx".into()), stx(&b.transaction)), (C::Text("ts".into()), cn(b.timestamp as u128))];
    if let Some(p) = b.phash { m.push((C::Text("phash".into()), C::Bytes(p.to_vec()))) }
    if let Some(f) = b.effective_fee { m.push((C::Text("fee".into()), cn(f))) }
    C::Map(m)
}
fn cbytes(c: &C) -> Vec<u8> { let mut b = vec![]; ciborium::ser::into_writer(c, &mut b).unwrap(); b }
fn c23(r: &mut Rng) -> R {
    use cycles_ledger::config::Config;
    let c = Config { max_blocks_per_request: u64s(r), index_id: o(r, |r| acc(r).owner), initial_balances: o(r, |r| (0..r.n(4)).map(|_| (acc(r), amt(r))).collect()) };
    let bytes = c.to_bytes().into_owned();
    match std::panic::catch_unwind(|| Config::from_bytes(bytes.clone().into())) { Ok(d) if d == c => {}, Ok(d) => return Err(format!("the stored configuration {c:?} is read back as {d:?}")), Err(_) => return Err(format!("the stored configuration {c:?} cannot be read back")) }
    // a configuration stored before an upgrade
    let f = C::Map(vec![
        (C::Text("max_blocks_per_request".into()), cn(c.max_blocks_per_request as u128)),
        (C::Text("index_id".into()), c.index_id.map_or(C::Null, |p| C::Bytes(p.as_slice().to_vec()))),
        (C::Text("initial_balances".into()), c.initial_balances.clone().map_or(C::Null, |l| C::Array(l.iter().map(|(a, x)| C::Array(vec![C::serialized(a).unwrap(), cn(*x)])).collect()))),
    ]);
    let bytes = cbytes(&f);
    match std::panic::catch_unwind(|| Config::from_bytes(bytes.clone().into())) { Ok(d) if d == c => Ok(()), Ok(d) => Err(format!("the configuration {c:?} as stored by earlier versions is read as {d:?}")), Err(_) => Err(format!("the configuration {c:?} as stored by earlier versions cannot be read")) }
}
fn c21(r: &mut Rng) -> R {
    let b = block(r);
    let bytes = Cbor(b.clone()).to_bytes().into_owned();
    let old = cbytes(&sblock(&b));
    match std::panic::catch_unwind(|| Cbor::<Block>::from_bytes(old.clone().into()).0) { Ok(d) if d == b => {}, Ok(d) => return Err(format!("{b:?} as stored by earlier versions decodes as {d:?}")), Err(_) => return Err(format!("{b:?} as stored by earlier versions cannot be decoded")) }
    let d: Block = match std::panic::catch_unwind(|| Cbor::<Block>::from_bytes(bytes.clone().into()).0) { Ok(d) => d, Err(_) => return Err(format!("the stored form of {b:?} cannot be decoded")) };
    if d != b { return Err(format!("{b:?} decodes from its stored form as {d:?}")) }
    let v = C::serialized(&b.transaction).map_err(|e| e.to_string())?;
    let t: Result<Transaction, _> = v.deserialized();
    match t { Ok(t) if t == b.transaction => {}, x => return Err(format!("{:?} decodes as {x:?}", b.transaction)) }
    // leave one field out
    let C::Map(m) = &v else { return Err("a transaction record is not a map".into()) };
    let k = r.n(m.len() as u64) as usize;
    let name = m[k].0.as_text().unwrap_or("").to_string();
    let mut m2 = m.clone(); m2.remove(k);
    let need: &[&str] = match &b.transaction.operation { Operation::Mint { .. } => &["op", "to", "amt", "fee"], Operation::Transfer { .. } => &["op", "from", "to", "amt"], Operation::Burn { .. } => &["op", "from", "amt"], Operation::Approve { .. } => &["op", "from", "spender", "amt"] };
    let t: Result<Transaction, _> = C::Map(m2).deserialized();
    if need.contains(&name.as_str()) != t.is_err() { return Err(format!("without {name}, the record of {:?} decodes as {t:?}", b.transaction)) }
    let mut m3 = m.clone();
    for x in m3.iter_mut() { if x.0.as_text() == Some("op") { x.1 = C::Text("other".into()) } }
    let t: Result<Transaction, _> = C::Map(m3).deserialized();
    if t.is_ok() { return Err(format!("a record of an unknown kind decodes as {t:?}")) }
    // compact accounts
    let a = acc(r);
    let c = C::serialized(&A(a)).map_err(|e| e.to_string())?;
    if c != ca(&a) { return Err(format!("{a:?} is stored as {c:?}")) }
    let check = |c: C, want: Option<Account>| -> R {
        let x: Result<A, _> = c.deserialized();
        let y: Result<OA, _> = c.deserialized();
        let x = x.ok().map(|x| (x.0.owner, x.0.subaccount)); let y = y.ok().and_then(|x| x.0).map(|x| (x.owner, x.subaccount));
        let w = want.map(|x| (x.owner, x.subaccount));
        if x != w || y != w { return Err(format!("the account form {c:?} decodes as {x:?} / {y:?}, expected {w:?}")) }
        Ok(())
    };
    check(c, Some(a))?;
    let ob = C::Bytes(a.owner.as_slice().to_vec());
    check(C::Array(vec![]), None)?;
    check(C::Array(vec![ob.clone(), C::Bytes(vec![1; 32]), C::Bytes(vec![1; 32])]), None)?;
    let n = r.of(&[0usize, 1, 31, 33, 64, 32]);
    check(C::Array(vec![ob, C::Bytes(vec![9; n])]), if n == 32 { Some(Account { owner: a.owner, subaccount: Some([9; 32]) }) } else { None })?;
    check(C::Array(vec![C::Bytes(vec![1; 30 + r.n(4) as usize])]), None)
}
fn nat(r: &mut Rng) -> Nat { if r.p(30) { Nat(num_bigint::BigUint::from(amt(r)) << 70u32) } else { Nat::from(amt(r)) } }
fn text(r: &mut Rng) -> String { r.of(&["", "a", "out of cycles", "日本"]).to_string() + &r.n(1000).to_string() }
fn rc(r: &mut Rng) -> RejectionCode { r.of(&[RejectionCode::NoError, RejectionCode::CanisterError, RejectionCode::SysTransient, RejectionCode::DestinationInvalid, RejectionCode::Unknown, RejectionCode::SysFatal, RejectionCode::CanisterReject]) }
fn c22(r: &mut Rng) -> R {
    macro_rules! eq { ($got:expr, $want:expr, $from:expr) => { let (g, w) = ($got, $want); if g != w { return Err(format!("{} is converted to {g:?}, expected {w:?}", $from)) } } }
    {
        use TransferFromError as F; use TransferError as T;
        let (n, t, m) = (nat(r), u64s(r), text(r));
        for (f, w) in [(F::BadFee { expected_fee: n.clone() }, T::BadFee { expected_fee: n.clone() }), (F::BadBurn { min_burn_amount: n.clone() }, T::BadBurn { min_burn_amount: n.clone() }), (F::InsufficientFunds { balance: n.clone() }, T::InsufficientFunds { balance: n.clone() }), (F::TooOld, T::TooOld), (F::CreatedInFuture { ledger_time: t }, T::CreatedInFuture { ledger_time: t }), (F::Duplicate { duplicate_of: n.clone() }, T::Duplicate { duplicate_of: n.clone() }), (F::TemporarilyUnavailable, T::TemporarilyUnavailable), (F::GenericError { error_code: n.clone(), message: m.clone() }, T::GenericError { error_code: n.clone(), message: m.clone() })] {
            let s = format!("{f:?}"); eq!(cycles_ledger::transfer_from_error_to_transfer_error(f), w, s);
        }
    }
    {
        use WithdrawFromError as F; use WithdrawError as T;
        let (n, t, m, p, c, a, b, d) = (nat(r), u64s(r), text(r), owner(r.n(20) as u16), rc(r), o(r, nat), o(r, nat), o(r, nat));
        for (f, w) in [(F::InsufficientFunds { balance: n.clone() }, T::InsufficientFunds { balance: n.clone() }), (F::TooOld, T::TooOld), (F::CreatedInFuture { ledger_time: t }, T::CreatedInFuture { ledger_time: t }), (F::TemporarilyUnavailable, T::TemporarilyUnavailable), (F::Duplicate { duplicate_of: n.clone() }, T::Duplicate { duplicate_of: n.clone() }), (F::GenericError { error_code: n.clone(), message: m.clone() }, T::GenericError { error_code: n.clone(), message: m.clone() }), (F::InvalidReceiver { receiver: p }, T::InvalidReceiver { receiver: p }), (F::FailedToWithdrawFrom { withdraw_from_block: a, refund_block: b.clone(), approval_refund_block: d, rejection_code: c.clone(), rejection_reason: m.clone() }, T::FailedToWithdraw { fee_block: b, rejection_code: c, rejection_reason: m.clone() })] {
            let s = format!("{f:?}"); eq!(cycles_ledger::withdraw_from_error_to_withdraw_error(f), w, s);
        }
    }
    {
        use CreateCanisterFromError as F; use CreateCanisterError as T;
        let (n, t, m, p, c, a, b, d) = (nat(r), u64s(r), text(r), o(r, |r| owner(r.n(20) as u16)), rc(r), o(r, nat), o(r, nat), o(r, nat));
        for (f, w) in [(F::InsufficientFunds { balance: n.clone() }, T::InsufficientFunds { balance: n.clone() }), (F::TooOld, T::TooOld), (F::CreatedInFuture { ledger_time: t }, T::CreatedInFuture { ledger_time: t }), (F::TemporarilyUnavailable, T::TemporarilyUnavailable), (F::Duplicate { duplicate_of: n.clone(), canister_id: p }, T::Duplicate { duplicate_of: n.clone(), canister_id: p }), (F::GenericError { error_code: n.clone(), message: m.clone() }, T::GenericError { error_code: n.clone(), message: m.clone() }), (F::FailedToCreateFrom { create_from_block: a.clone(), refund_block: b.clone(), approval_refund_block: d, rejection_code: c, rejection_reason: m.clone() }, T::FailedToCreate { fee_block: a, refund_block: b, error: m.clone() })] {
            let s = format!("{f:?}"); eq!(cycles_ledger::create_canister_from_error_to_create_canister_error(f), w, s);
        }
    }
    use ic_cdk::call::RejectCode as K;
    for (k, w) in [(K::SysFatal, RejectionCode::SysFatal), (K::SysTransient, RejectionCode::SysTransient), (K::DestinationInvalid, RejectionCode::DestinationInvalid), (K::CanisterReject, RejectionCode::CanisterReject), (K::CanisterError, RejectionCode::CanisterError)] { eq!(RejectionCode::from(k), w, format!("{k:?}")); }
    Ok(())
}
fn gen_value(r: &mut Rng, d: u64) -> Value {
    match r.n(if d == 0 { 4 } else { 6 }) {
        0 => Value::Nat(nat(r)),
        1 => Value::Int(candid::Int::from(u64s(r))),
        2 => Value::Blob(ByteBuf::from(memo(r).0.to_vec())),
        3 => Value::Text(text(r)),
        4 => Value::Array((0..r.n(4)).map(|_| gen_value(r, d - 1)).collect()),
        _ => Value::Map((0..r.n(4)).map(|_| (text(r), gen_value(r, d - 1))).collect()),
    }
}
fn c30(r: &mut Rng) -> R {
    use cycles_ledger::{ciborium_to_generic_value as from, generic_to_ciborium_value as to};
    let mut v = gen_value(r, 4);
    let wrap = r.of(&[0usize, 0, 0, 1, 10, 50]);
    for i in 0..wrap { v = if i % 2 == 0 { Value::Array(vec![v]) } else { Value::Map([(text(r), v)].into()) } }
    let c = to(&v, 0).map_err(|e| format!("{v:?} cannot be converted: {e}"))?;
    match from(&c, 0) { Ok(x) if x == v => {}, x => return Err(format!("{v:?} comes back as {x:?}")) }
    // the identity of a transaction: the hash of the value of its record, field by field; different requests never share it
    let t = tx(r);
    let w = from(&stx(&t), 0).map_err(|e| e.to_string())?;
    match t.hash() { Ok(h) if h == engine::world::vhash(&w) => {}, x => return Err(format!("the identity of {t:?} is {x:?}, not that of its record {w:?}")) }
    let mut u = t.clone();
    match r.n(3) { 0 => u.memo = match &t.memo { None => Some(Memo(ByteBuf::new())), Some(_) => None }, 1 => u.created_at_time = match t.created_at_time { None => Some(0), Some(_) => None }, _ => u.operation = tx(r).operation }
    if u != t && u.hash().ok() == t.hash().ok() { return Err(format!("{t:?} and {u:?} have the same identity")) }
    // depth
    let n = r.of(&[62usize, 63, 64, 65, 100]);
    let (mut g, mut c) = (Value::Text("x".into()), C::Text("x".into()));
    for i in 0..n { if i % 2 == 0 { g = Value::Array(vec![g]); c = C::Array(vec![c]) } else { g = Value::Map([("k".to_string(), g)].into()); c = C::Map(vec![(C::Text("k".into()), c)]) } }
    if to(&g, 0).is_ok() != (n < 64) || from(&c, 0).is_ok() != (n < 64) { return Err(format!("nesting of {n}: to CBOR {}, from CBOR {}", to(&g, 0).is_ok(), from(&c, 0).is_ok())) }
    // unsupported
    for c in [C::Null, C::Bool(true), C::Float(1.0), C::Integer((-1 - r.n(100) as i64).into()), C::Map(vec![(C::Integer(1.into()), C::Text("x".into()))]), C::Map(vec![(C::Bytes(vec![65]), C::Text("x".into()))]), C::Tag(2, Box::new(C::Text("1".into()))), C::Tag(3, Box::new(C::Bytes(vec![1]))), C::Tag(1 + 4 * r.n(9), Box::new(C::Bytes(vec![1])))] {
        for c in [c.clone(), C::Array(vec![c])] { if let Ok(x) = from(&c, 0) { return Err(format!("unsupported {c:?} is converted to {x:?}")) } }
    }
    for i in [candid::Int::from(-1), candid::Int(num_bigint::BigInt::from(1) << 64u32), candid::Int(num_bigint::BigInt::from(1) << 128u32)] { if let Ok(x) = to(&Value::Int(i.clone()), 0) { return Err(format!("unsupported integer {i} is converted to {x:?}")) } }
    Ok(())
}
fn one(p: &str, seed: u64) -> R {
    let mut r = Rng(seed);
    let f = match p { "C20" => c20, "C21" => c21, "C23" => c23, "C22" => c22, "C30" => c30, _ => return Ok(()) };
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r))) { Ok(x) => x, Err(_) => Err("the conversion aborted".into()) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a = engine::args();
    if let Some(f) = &a.replay {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        let p = v["property"].as_str().unwrap_or(&a.prop).to_string();
        match one(&p, v["scenario"]["case"].as_u64().unwrap()) { Ok(()) => { println!("no violation of {p}"); std::process::exit(0) } Err(e) => { println!("{p}: {e}"); std::process::exit(1) } }
    }
    let until = std::time::Instant::now() + std::time::Duration::from_secs(a.seconds);
    let mut k = 0u64; let mut out = serde_json::json!({"status": "ok"});
    while std::time::Instant::now() < until {
        let seed = a.seed.wrapping_mul(0x1_0000_0001).wrapping_add(k); k += 1;
        if let Err(e) = one(&a.prop, seed) { out = serde_json::json!({"status": "violation", "reason": format!("{}: {e}", a.prop), "explanation": {"violations": [e]}, "scenario": {"case": seed}}); break }
    }
    out["cases"] = k.into();
    std::fs::write(&a.out, serde_json::to_string_pretty(&out).unwrap()).unwrap();
}
