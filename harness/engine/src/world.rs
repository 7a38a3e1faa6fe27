//! A simulated life of the ledger: operations, observation after each, and the properties' oracles.
use crate::raw::*;
use crate::types::*;
use candid::{decode_one, encode_one, Nat, Principal};
use icrc_ledger_types::icrc::generic_value::Value;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const FEE: u128 = 100_000_000;
pub const WINDOW: u64 = 24 * 3600 * 1_000_000_000;
pub const DRIFT: u64 = 60 * 1_000_000_000;
pub const CMC: [u8; 10] = [0, 0, 0, 0, 0, 0, 0, 4, 1, 1];

pub fn owner(i: u16) -> Principal {
    Principal::from_slice(&match i {
        0 => { let mut v = vec![0x11; 28]; v.push(2); v }
        1 => vec![0, 0, 0, 0, 0, 0, 0, 42, 1, 1],
        2 => vec![4],
        3 => vec![],
        4 => vec![1],
        5 => { let mut v = vec![0x07; 28]; v.push(3); v }
        6 => vec![2; 28],
        7 => vec![0, 0, 0, 0, 0, 0, 0, 5, 1, 1],
        8 => { let mut v = vec![0x11; 28]; v[27] = 0x12; v.push(2); v }
        9 => vec![1, 1],
        10 => { let mut v = vec![0xff; 28]; v.push(1); v }
        n => vec![0, 0, 0, 0, 0, 1, (n >> 8) as u8, n as u8, 1, 1],
    })
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Acc(pub u16, pub Option<u8>);
pub fn sub(t: Option<u8>) -> Option<[u8; 32]> { t.map(|t| if t == 200 { let mut a = [0; 32]; a[31] = 1; a } else { [t; 32] }) }
impl Acc { pub fn acct(&self) -> Account { Account { owner: owner(self.0), subaccount: sub(self.1) } } pub fn key(&self) -> Key { self.acct().key() } }
/// natural number of any size, written in decimal
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct N(pub String);
impl N {
    pub fn big(&self) -> BigUint { self.0.parse().unwrap() }
    pub fn nat(&self) -> Nat { Nat(self.big()) }
    pub fn u(&self) -> Option<u128> { self.big().to_u128() }
}
impl From<u128> for N { fn from(x: u128) -> N { N(x.to_string()) } }
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind { Transfer, Withdraw, Create }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ans { Ok, Reject(u32, String), Garbage, Refunded(N), RefundFailed }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Deposit { caller: u16, to: Acc, cycles: N, memo: Option<Vec<u8>> },
    /// from = None: the caller's own account through the plain endpoint
    Pay { kind: Kind, caller: u16, sub: Option<u8>, from: Option<Acc>, to: Acc, amount: N, fee: Option<N>, memo: Option<Vec<u8>>, created: Option<u64>, args: u8, fail: u8 },
    Approve { caller: u16, sub: Option<u8>, spender: Acc, amount: N, expected: Option<N>, expires: Option<u64>, fee: Option<N>, memo: Option<Vec<u8>>, created: Option<u64> },
    /// many approvals by one account, to distinct spenders
    Bulk { caller: u16, sub: Option<u8>, first: u16, n: u16, expires: Option<u64> },
    Reply { nth: usize, ans: Ans },
    Advance { to: u64 },
    Blocks { ranges: Vec<(N, N)> },
    Listing { caller: u16, from: Option<Acc>, prev: Option<Acc>, take: Option<N> },
    Upgrade { none: bool, max: Option<u64>, #[serde(default, skip_serializing_if = "Option::is_none", deserialize_with = "present")] index: Option<Option<u16>> },
    BadUpgrade,
}
fn present<'d, D: serde::Deserializer<'d>>(d: D) -> Result<Option<Option<u16>>, D::Error> { Option::<u16>::deserialize(d).map(Some) }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scenario { pub t0: u64, pub bad_init: bool, pub max: u64, pub index: Option<u16>, pub balances: Option<Vec<(Acc, N)>>, pub ops: Vec<Op> }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BK { Mint, Burn, Xfer, Approve }
#[derive(Clone, Debug, PartialEq)]
pub struct PBlock {
    pub kind: BK, pub from: Option<Account>, pub to: Option<Account>, pub spender: Option<Account>, pub amt: u128, pub txfee: Option<u128>, pub fee: Option<u128>, pub ts: u64,
    pub memo: Option<Vec<u8>>, pub created: Option<u64>, pub expected: Option<u128>, pub expires: Option<u64>, pub phash: Option<Vec<u8>>,
}
type VMap = BTreeMap<String, Value>;
fn pacc(v: &Value) -> Result<Account, String> {
    let Value::Array(a) = v else { return Err("account is not an array".into()) };
    let b = |v: &Value| if let Value::Blob(b) = v { Ok(b.to_vec()) } else { Err("account part is not a blob".to_string()) };
    if a.is_empty() || a.len() > 2 { return Err("account array length".into()) }
    let o = b(&a[0])?;
    let s = if a.len() == 2 { Some(b(&a[1])?.try_into().map_err(|_| "subaccount length".to_string())?) } else { None };
    Ok(Account { owner: Principal::try_from_slice(&o).map_err(|e| e.to_string())?, subaccount: s })
}
pub fn pblock(v: &Value) -> Result<PBlock, String> {
    let map = |v: &Value| if let Value::Map(m) = v { Ok(m.clone()) } else { Err("not a map".to_string()) };
    let nat = |m: &mut VMap, k: &str| -> Result<Option<u128>, String> { match m.remove(k) { None => Ok(None), Some(Value::Nat(n)) => n.0.to_u128().map(Some).ok_or(format!("{k} too large")), Some(x) => Err(format!("{k} is not a Nat: {x:?}")) } };
    let blob = |m: &mut VMap, k: &str| -> Result<Option<Vec<u8>>, String> { match m.remove(k) { None => Ok(None), Some(Value::Blob(b)) => Ok(Some(b.to_vec())), Some(x) => Err(format!("{k} is not a blob: {x:?}")) } };
    let acc = |m: &mut VMap, k: &str| -> Result<Option<Account>, String> { m.remove(k).map(|v| pacc(&v)).transpose() };
    let n64 = |x: Option<u128>, k: &str| -> Result<Option<u64>, String> { x.map(|x| u64::try_from(x).map_err(|_| format!("{k} too large"))).transpose() };
    let mut b = map(v)?;
    let mut t = map(&b.remove("tx").ok_or("no tx")?)?;
    let ts = n64(nat(&mut b, "ts")?, "ts")?.ok_or("no ts")?;
    let phash = blob(&mut b, "phash")?;
    let fee = nat(&mut b, "fee")?;
    if let Some(k) = b.keys().next() { return Err(format!("unexpected block field {k}")) }
    let Some(Value::Text(op)) = t.remove("op") else { return Err("no op".into()) };
    let kind = match op.as_str() { "mint" => BK::Mint, "burn" => BK::Burn, "xfer" => BK::Xfer, "approve" => BK::Approve, x => return Err(format!("op {x}")) };
    let created = n64(nat(&mut t, "ts")?, "tx.ts")?;
    let memo = blob(&mut t, "memo")?;
    let amt = nat(&mut t, "amt")?.ok_or("no amt")?;
    let txfee = if kind == BK::Burn { None } else { nat(&mut t, "fee")? };
    let (mut from, mut to, mut spender, mut expected, mut expires) = (None, None, None, None, None);
    match kind {
        BK::Mint => to = Some(acc(&mut t, "to")?.ok_or("mint without to")?),
        BK::Burn => { from = Some(acc(&mut t, "from")?.ok_or("burn without from")?); spender = acc(&mut t, "spender")? }
        BK::Xfer => { from = Some(acc(&mut t, "from")?.ok_or("xfer without from")?); to = Some(acc(&mut t, "to")?.ok_or("xfer without to")?); spender = acc(&mut t, "spender")? }
        BK::Approve => { from = Some(acc(&mut t, "from")?.ok_or("approve without from")?); spender = Some(acc(&mut t, "spender")?.ok_or("approve without spender")?); expected = nat(&mut t, "expected_allowance")?; expires = n64(nat(&mut t, "expires_at")?, "expires_at")? }
    }
    if let Some(k) = t.keys().next() { return Err(format!("unexpected tx field {k} in {op}")) }
    Ok(PBlock { kind, from, to, spender, amt, txfee, fee, ts, memo, created, expected, expires, phash })
}
/// independent representation-independent hash (ICRC-3)
pub fn vhash(v: &Value) -> [u8; 32] {
    use sha2::{Digest, Sha256};
    fn sh(b: &[u8]) -> [u8; 32] { Sha256::digest(b).into() }
    fn leb(mut n: BigUint) -> Vec<u8> { let mut o = vec![]; loop { let b = (&n & BigUint::from(127u8)).to_u8().unwrap(); n >>= 7; if n == BigUint::from(0u8) { o.push(b); return o } o.push(b | 128) } }
    match v {
        Value::Nat(n) => sh(&leb(n.0.clone())),
        Value::Nat64(n) => sh(&leb(BigUint::from(*n))),
        Value::Int(i) => sh(&leb(i.0.to_biguint().expect("no negative number is stored"))),
        Value::Blob(b) => sh(b),
        Value::Text(t) => sh(t.as_bytes()),
        Value::Array(a) => sh(&a.iter().flat_map(|x| vhash(x)).collect::<Vec<_>>()),
        Value::Map(m) => { let mut p: Vec<([u8; 32], [u8; 32])> = m.iter().map(|(k, v)| (sh(k.as_bytes()), vhash(v))).collect(); p.sort(); sh(&p.iter().flat_map(|(a, b)| [*a, *b].concat()).collect::<Vec<_>>()) }
    }
}
/// root hash and leaves of a CBOR-encoded IC hash tree
fn tree(v: &ciborium::value::Value, path: &mut Vec<Vec<u8>>, leaves: &mut BTreeMap<Vec<Vec<u8>>, Vec<u8>>) -> Result<[u8; 32], String> {
    use ciborium::value::Value as C;
    use sha2::{Digest, Sha256};
    fn dom(d: &str, parts: &[&[u8]]) -> [u8; 32] { let mut h = Sha256::new(); h.update([d.len() as u8]); h.update(d.as_bytes()); for p in parts { h.update(p) } h.finalize().into() }
    let C::Array(a) = v else { if let C::Tag(_, x) = v { return tree(x, path, leaves) } return Err("tree node is not an array".into()) };
    let tag = a.first().and_then(|x| x.as_integer()).and_then(|x| u8::try_from(x).ok()).ok_or("no tag")?;
    let by = |i: usize| a.get(i).and_then(|x| x.as_bytes()).cloned().ok_or("no bytes".to_string());
    Ok(match (tag, a.len()) {
        (0, 1) => dom("ic-hashtree-empty", &[]),
        (1, 3) => { let l = tree(&a[1], path, leaves)?; let r = tree(&a[2], path, leaves)?; dom("ic-hashtree-fork", &[&l, &r]) }
        (2, 3) => { let l = by(1)?; path.push(l.clone()); let s = tree(&a[2], path, leaves)?; path.pop(); dom("ic-hashtree-labeled", &[&l, &s]) }
        (3, 2) => { let b = by(1)?; leaves.insert(path.clone(), b.clone()); dom("ic-hashtree-leaf", &[&b]) }
        (4, 2) => by(1)?.try_into().map_err(|_| "pruned".to_string())?,
        _ => return Err("bad tree node".into()),
    })
}
fn leb64(mut n: u64) -> Vec<u8> { let mut o = vec![]; loop { let b = (n & 127) as u8; n >>= 7; if n == 0 { o.push(b); return o } o.push(b | 128) } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TxId { pub kind: u8, pub from: Account, pub to: Option<Account>, pub spender: Option<Account>, pub amount: u128, pub fee: Option<u128>, pub expected: Option<u128>, pub expires: Option<u64>, pub memo: Option<Vec<u8>>, pub created: Option<u64> }
#[derive(Clone, Debug)]
pub struct Accepted { pub tx: TxId, pub index: u64, pub canister: Option<Principal> }
#[derive(Clone, Debug)]
pub struct Pend { pub call: usize, pub kind: Kind, pub plain: bool, pub from: Account, pub spender: Option<Account>, pub amount: u128, pub block: u64, pub old_exp: u64, pub tx: TxId }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Obs { pub supply: BigUint, pub bal: BTreeMap<Key, u128>, pub alw: BTreeMap<(Key, Key), (u128, u64)>, pub dedup: (u64, u64), pub approvals: u64, pub expirations: u64, pub len: u64, pub max: u64, pub index: Option<Principal> }
/// what a step should have done
#[derive(Clone)]
struct Exp { bal: BTreeMap<Key, u128>, supply: BigUint, alw: BTreeMap<(Key, Key), (u128, u64)>, blocks: Vec<PBlock> }
impl Exp {
    fn of(o: &Obs) -> Exp { Exp { bal: o.bal.clone(), supply: o.supply.clone(), alw: o.alw.clone(), blocks: vec![] } }
    fn add(&mut self, k: Key, n: u128) { let b = self.bal.entry(k).or_insert(0); *b = b.wrapping_add(n); }
    fn take(&mut self, k: Key, n: u128) { let b = self.bal.entry(k).or_insert(0); *b = b.wrapping_sub(n); }
    fn set(&mut self, p: (Key, Key), v: (u128, u64)) { if v.0 == 0 { self.alw.insert(p, (0, 0)); } else { self.alw.insert(p, v); } }
}
#[derive(Clone, Debug)]
pub enum Reply { Ok(BigUint, Option<Principal>), Err(Er), Trap(String), Pending, Bad(String) }

pub struct World {
    pub m: Machine, pub now: u64, pub keys: BTreeSet<Key>, pub pairs: BTreeSet<(Key, Key)>, pub obs: Obs, pub vals: Vec<Value>, pub blocks: Vec<PBlock>, pub hashes: Vec<[u8; 32]>,
    pub certified: Option<Vec<u8>>, pub pend: Vec<Pend>, pub acc: Vec<Accepted>, pub bad: Vec<(&'static str, String)>, pub broken: bool, pub done: Vec<String>, replay: BTreeMap<Key, u128>, replayed: usize, ghost: BTreeMap<(Key, Key), (u128, u64)>, pub upgraded: bool,
}
macro_rules! fail { ($w:expr, [$($p:expr),*], $($a:tt)*) => {{ let s = format!($($a)*); $( $w.bad.push(($p, s.clone())); )* }} }

impl World {
    pub fn new(t: Table, s: &Scenario) -> World {
        let mut w = World { m: Machine::new(t), now: s.t0, keys: BTreeSet::new(), pairs: BTreeSet::new(), obs: Obs::default(), vals: vec![], blocks: vec![], hashes: vec![], certified: None, pend: vec![], acc: vec![], bad: vec![], broken: false, done: vec![], replay: BTreeMap::new(), replayed: 0, ghost: BTreeMap::new(), upgraded: false };
        for o in [0u16, 1, 4] { w.keys.insert(Acc(o, None).key()); }
        let ctl = owner(1);
        if s.bad_init {
            let r = w.m.exec(Msg::new("canister_init", ctl.as_slice(), encode_one(LedgerArgs::Upgrade(None)).unwrap(), w.now));
            if !matches!(r.out, Out::Trap(_)) { fail!(w, ["C29"], "installing with upgrade arguments is not refused"); w.broken = true; return w }
        }
        let bals: Option<Vec<(Account, Nat)>> = s.balances.as_ref().map(|v| v.iter().map(|(a, n)| (a.acct(), n.nat())).collect());
        for (a, _) in bals.iter().flatten() { w.keys.insert(a.key()); }
        let r = w.m.exec(Msg::new("canister_init", ctl.as_slice(), encode_one(LedgerArgs::Init(Config { max_blocks_per_request: s.max, index_id: s.index.map(owner), initial_balances: bals.clone() })).unwrap(), w.now));
        w.certified = r.certified.clone();
        if let Out::Trap(e) = &r.out { fail!(w, ["C29"], "installation trapped: {e}"); w.broken = true; return w }
        w.observe();
        if w.broken { return w }
        let mut e = Exp { bal: w.keys.iter().map(|k| (*k, 0)).collect(), supply: 0u8.into(), alw: BTreeMap::new(), blocks: vec![] };
        for (a, n) in bals.iter().flatten() {
            let n = n.0.to_u128().unwrap();
            e.add(a.key(), n);
            e.supply += n;
            e.blocks.push(PBlock { kind: BK::Mint, from: None, to: Some(*a), spender: None, amt: n, txfee: Some(FEE), fee: Some(0), ts: w.now, memo: None, created: None, expected: None, expires: None, phash: None });
        }
        let pre = 0;
        w.compare(&e, &Obs::default(), pre, &["C29"], &["C29"], &["C29"]);
        if w.obs.max != s.max || w.obs.index != s.index.map(owner) { fail!(w, ["C29"], "installation did not set the given configuration") }
        w.common(pre);
        w
    }
    fn q(&mut self, items: Vec<(&'static str, Vec<u8>)>) -> Vec<Out> { let now = self.now; self.m.query(items.into_iter().map(|(e, a)| Msg::new(e, &[4], a, now)).collect()) }
    /// reads everything observable; sets `broken` when the queries themselves make no sense
    pub fn observe(&mut self) -> Obs {
        let old = self.obs.clone();
        let mut o = Obs::default();
        let mut items: Vec<(&'static str, Vec<u8>)> = vec![];
        let unit = || encode_one(()).unwrap();
        items.push(("canister_query.icrc1_total_supply", candid::encode_args(()).unwrap()));
        items.push(("canister_query.icrc1_metadata", candid::encode_args(()).unwrap()));
        items.push(("canister_query.icrc1_fee", candid::encode_args(()).unwrap()));
        items.push(("canister_query.icrc106_get_index_principal", candid::encode_args(()).unwrap()));
        items.push(("canister_query.http_request", encode_one(HttpReq { method: "GET".into(), url: "/metrics".into(), headers: vec![], body: vec![].into() }).unwrap()));
        items.push(("canister_query.icrc3_get_tip_certificate", candid::encode_args(()).unwrap()));
        let _ = unit;
        let keys: Vec<Key> = self.keys.iter().cloned().collect();
        let pairs: Vec<(Key, Key)> = self.pairs.iter().cloned().collect();
        for (i, k) in keys.iter().enumerate() { let s = if k.1 == [0; 32] && (i + self.blocks.len()) % 2 == 0 { None } else { Some(k.1) }; items.push(("canister_query.icrc1_balance_of", encode_one(Account { owner: k.0, subaccount: s }).unwrap())) }
        for (i, p) in pairs.iter().enumerate() { let f = |k: Key| Account { owner: k.0, subaccount: if k.1 == [0; 32] && (i + self.blocks.len()) % 2 == 0 { None } else { Some(k.1) } }; items.push(("canister_query.icrc2_allowance", encode_one(AllowanceArg { account: f(p.0), spender: f(p.1) }).unwrap())) }
        let outs = self.q(items);
        macro_rules! get { ($i:expr, $t:ty, $props:expr) => { match &outs[$i] { Out::Reply(b) => match decode_one::<$t>(b) { Ok(x) => x, Err(e) => { for p in $props { self.bad.push((p, format!("query {} cannot be decoded: {e}", $i))) } self.broken = true; return o } }, x => { for p in $props { self.bad.push((p, format!("query {} failed: {x:?}", $i))) } self.broken = true; return o } } } }
        o.supply = get!(0, Nat, ["C01"]).0;
        let meta = get!(1, Vec<(String, Meta)>, ["C27", "C29"]);
        for (k, v) in &meta {
            if k == "icrc1:fee" && *v != Meta::Nat(Nat::from(FEE)) { fail!(self, ["C27"], "metadata reports the fee as {v:?}") }
            if k == "dfn:max_blocks_per_request" { if let Meta::Nat(n) = v { o.max = n.0.to_u64().unwrap_or(0) } }
        }
        if !meta.iter().any(|x| x.0 == "icrc1:fee") { fail!(self, ["C27"], "metadata does not report the fee") }
        let fee = get!(2, Nat, ["C27"]);
        if fee.0 != BigUint::from(FEE) { fail!(self, ["C27"], "the fee query reports {fee}") }
        o.index = get!(3, Result<Principal, IndexErr>, ["C29"]).ok();
        if meta.iter().any(|x| x.0 == "dfn:index_id") != o.index.is_some() || meta.iter().any(|x| x.0 == "dfn:index_id" && x.1 != Meta::Blob(o.index.unwrap().as_slice().to_vec().into())) || meta.iter().any(|x| x.0 == "icrc106:index_principal" && x.1 != Meta::Text(o.index.map(|p| p.to_text()).unwrap_or_default())) { fail!(self, ["C29"], "metadata and index principal query disagree") }
        let http = get!(4, HttpRes, ["C10"]);
        let txt = String::from_utf8_lossy(&http.body).to_string();
        let metric = |n: &str| -> u64 { txt.lines().find(|l| l.starts_with(n) && l.as_bytes().get(n.len()) == Some(&b' ')).and_then(|l| l.split(' ').nth(1)).and_then(|x| x.parse::<f64>().ok()).map(|x| x as u64).unwrap_or(u64::MAX) };
        o.dedup = (metric("cycles_ledger_number_of_transaction_hashes"), metric("cycles_ledger_number_of_transaction_timestamps"));
        o.approvals = metric("cycles_ledger_number_of_approvals");
        o.expirations = metric("cycles_ledger_number_of_approval_expiration_entries");
        let tip = get!(5, Option<Cert>, ["C04"]);
        let b = 6;
        for (i, k) in keys.iter().enumerate() { let n = get!(b + i, Nat, ["C01", "C02"]); o.bal.insert(*k, match n.0.to_u128() { Some(x) => x, None => { fail!(self, ["C01", "C25"], "balance beyond 128 bits"); self.broken = true; return o } }); }
        for (i, p) in pairs.iter().enumerate() { let a = get!(b + keys.len() + i, AllowanceRes, ["C09"]); let n = a.allowance.0.to_u128().unwrap_or(u128::MAX); if n == 0 && a.expires_at.is_some() { fail!(self, ["C09"], "a zero allowance is reported with expiry {:?}", a.expires_at) } if a.expires_at.map(|e| e <= self.now).unwrap_or(false) { fail!(self, ["C09"], "at time {} an allowance expired at {:?} is reported as {n}", self.now, a.expires_at) } o.alw.insert(*p, (n, a.expires_at.unwrap_or(0))); }
        // blocks
        let have = self.blocks.len() as u64;
        let from = if have <= 30 || self.blocks.len() % 7 == 0 { 0 } else { have - 10 };
        let Some((len, got)) = self.fetch(from, o.max) else { self.broken = true; self.obs = old; return o };
        o.len = len;
        if len < have { fail!(self, ["C03"], "the log shrank from {have} to {len} blocks"); self.broken = true; return o }
        for (i, v) in got {
            if i < have { if self.vals[i as usize] != v { fail!(self, ["C03"], "block {i} was altered"); self.broken = true; return o } }
            else {
                match pblock(&v) { Ok(p) => { self.hashes.push(vhash(&v)); self.blocks.push(p); self.vals.push(v) } Err(e) => { fail!(self, ["C20"], "block {i} does not have the ICRC-3 form: {e}: {v:?}"); self.broken = true; return o } }
            }
        }
        // tip
        if len > 0 {
            match tip {
                None => fail!(self, ["C04"], "no tip certificate"),
                Some(c) => {
                    let mut leaves = BTreeMap::new();
                    match ciborium::from_reader::<ciborium::value::Value, _>(&c.hash_tree[..]).map_err(|e| e.to_string()).and_then(|v| tree(&v, &mut vec![], &mut leaves)) {
                        Err(e) => fail!(self, ["C04"], "hash tree: {e}"),
                        Ok(root) => {
                            let want: BTreeMap<Vec<Vec<u8>>, Vec<u8>> = [(vec![b"last_block_index".to_vec()], leb64(len - 1)), (vec![b"last_block_hash".to_vec()], self.hashes[len as usize - 1].to_vec())].into();
                            if leaves != want { fail!(self, ["C04", "C03"], "the tip certificate does not hold index and hash of the last block (log length {len})"); if leaves.get(&vec![b"last_block_hash".to_vec()]) == want.get(&vec![b"last_block_hash".to_vec()]) { self.bad.pop(); } }
                            if self.certified.as_deref() != Some(&root[..]) { fail!(self, ["C04"], "the certified data is not the root of the tip tree (log length {len})") }
                            if c.certificate.as_slice() != b"certificate" { fail!(self, ["C04"], "wrong certificate") }
                        }
                    }
                }
            }
        }
        self.obs = o.clone();
        o
    }
    fn fetch(&mut self, from: u64, max: u64) -> Option<(u64, Vec<(u64, Value)>)> {
        let mut out = vec![]; let mut at = from;
        loop {
            let r = self.q(vec![("canister_query.icrc3_get_blocks", encode_one(vec![Range { start: at.into(), length: Nat::from(100u8) }]).unwrap())]).remove(0);
            let Out::Reply(b) = r else { fail!(self, ["C18"], "block query failed: {r:?}"); return None };
            let r: BlocksRes = match decode_one(&b) { Ok(x) => x, Err(e) => { fail!(self, ["C18", "C20"], "block query cannot be decoded: {e}"); return None } };
            let Some(len) = r.log_length.0.to_u64() else { fail!(self, ["C18"], "log length {}", r.log_length); return None };
            let want = len.saturating_sub(at).min(100).min(max);
            if r.blocks.len() as u64 != want || r.blocks.iter().enumerate().any(|(i, b)| b.id.0 != BigUint::from(at + i as u64)) { fail!(self, ["C18"], "block query ({at}, 100) with limit {max} on {len} blocks returned {:?}", r.blocks.iter().map(|b| b.id.to_string()).collect::<Vec<_>>()); return None }
            for (i, b) in r.blocks.into_iter().enumerate() { out.push((at + i as u64, b.block)) }
            at += want;
            if want == 0 || at >= len { return Some((len, out)) }
        }
    }
    /// invariants that hold at every observable point
    fn common(&mut self, pre_len: usize) {
        if self.broken { return }
        let o = self.obs.clone();
        let sum: BigUint = o.bal.values().map(|x| BigUint::from(*x)).sum();
        if sum != o.supply { fail!(self, ["C01"], "total supply {} but balances sum to {}", o.supply, sum) }
        for i in pre_len..self.blocks.len() {
            let b = self.blocks[i].clone();
            let want = if i == 0 { None } else { Some(self.hashes[i - 1].to_vec()) };
            if b.phash != want { fail!(self, ["C03"], "block {i} has parent hash {:?}, block {} hashes to {:?}", b.phash, i as i64 - 1, want) }
            if b.ts != self.now { fail!(self, ["C03"], "block {i} recorded at time {} carries {}", self.now, b.ts) }
            if b.memo.as_ref().map(|m| m.len() > 32).unwrap_or(false) { fail!(self, ["C24"], "block {i} has a memo of {} bytes", b.memo.as_ref().unwrap().len()) }
            if matches!(b.kind, BK::Xfer | BK::Approve) && [b.from, b.to, b.spender].iter().flatten().any(|a| a.owner == owner(3)) { fail!(self, ["C26"], "block {i}: {:?} with the management canister as a party", b.kind) }
            if b.kind == BK::Approve && b.from.unwrap().owner == b.spender.unwrap().owner { fail!(self, ["C26"], "block {i}: self approval") }
            if b.created.is_some() { for j in 0..i { let c = &self.blocks[j]; if (c.kind, c.from, c.to, c.spender, c.amt, c.txfee, c.expected, c.expires, &c.memo, c.created) == (b.kind, b.from, b.to, b.spender, b.amt, b.txfee, b.expected, b.expires, &b.memo, b.created) { fail!(self, ["C11"], "blocks {j} and {i} record the same timestamped request") } } }
        }
        for i in self.replayed..self.blocks.len() {
            let b = &self.blocks[i];
            let fee = b.txfee.or(b.fee).unwrap_or(0);
            let r = &mut self.replay;
            let mut upd = |k: Key, f: &dyn Fn(u128) -> u128| { let e = r.entry(k).or_insert(0); *e = f(*e) };
            match b.kind {
                BK::Mint => upd(b.to.unwrap().key(), &|x| x.wrapping_add(b.amt)),
                BK::Burn => upd(b.from.unwrap().key(), &|x| x.wrapping_sub(b.amt).wrapping_sub(b.fee.unwrap_or(0))),
                BK::Xfer => { upd(b.from.unwrap().key(), &|x| x.wrapping_sub(b.amt).wrapping_sub(fee)); upd(b.to.unwrap().key(), &|x| x.wrapping_add(b.amt)) }
                BK::Approve => upd(b.from.unwrap().key(), &|x| x.wrapping_sub(fee)),
            }
        }
        self.replayed = self.blocks.len();
        let keys: BTreeSet<Key> = self.replay.keys().chain(o.bal.keys()).cloned().collect();
        for k in keys { let a = self.replay.get(&k).copied().unwrap_or(0); if let Some(b) = o.bal.get(&k) { if a != *b { fail!(self, ["C02"], "replaying the log gives {a} for {}, the ledger reports {b}", k.0) } } else if a != 0 { fail!(self, ["C02"], "the log gives {a} to an account nobody named: {}", k.0) } }
        // one pending expiration per expiring approval
        let forever = o.alw.values().filter(|x| x.0 > 0 && x.1 == 0).count() as u64;
        let live = o.alw.values().filter(|x| x.0 > 0).count() as u64;
        if o.approvals < live || o.approvals.wrapping_sub(forever) != o.expirations { fail!(self, ["C10"], "{} approvals stored, {forever} of them without expiry, but {} pending expirations", o.approvals, o.expirations) }
        for ((f, s), v) in &o.alw { if f.0 == s.0 && v.0 > 0 { fail!(self, ["C26"], "an allowance between accounts of the same owner exists") } }
    }
    /// state after the step against the expectation (pb balances, pa allowances, pk blocks: properties concerned)
    fn compare(&mut self, e: &Exp, pre: &Obs, pre_len: usize, pb: &[&'static str], pa: &[&'static str], pk: &[&'static str]) {
        if self.broken { return }
        let o = self.obs.clone();
        for (k, v) in &o.bal { let w = e.bal.get(k).copied().unwrap_or(0); if *v != w { for p in pb { fail!(self, [*p], "balance of {} is {v}, expected {w}", k.0) } } }
        if o.supply != e.supply { fail!(self, ["C01"], "total supply is {}, expected {}", o.supply, e.supply); if pk.iter().any(|p| matches!(*p, "C05" | "C08")) { fail!(self, ["C27"], "the fee was not charged exactly: supply {} expected {}", o.supply, e.supply) } }
        for (k, v) in &o.alw {
            let w = e.alw.get(k).copied().unwrap_or((0, 0));
            if *v != w {
                for p in pa { fail!(self, [*p], "allowance of {} on {} is {v:?}, expected {w:?}", k.1 .0, k.0 .0) }
                if v.0 == 0 && pre.alw.get(k).copied().unwrap_or((0, 0)) == w { fail!(self, ["C10"], "an unexpired allowance {w:?} vanished") }
            }
        }
        let new: Vec<PBlock> = self.blocks[pre_len.min(self.blocks.len())..].iter().map(|b| PBlock { phash: None, ..b.clone() }).collect();
        if new.len() != e.blocks.len() { for p in pk { fail!(self, [*p], "{} blocks were recorded, expected {}", new.len(), e.blocks.len()) } return }
        for (i, (a, b)) in new.iter().zip(&e.blocks).enumerate() {
            if a == b { continue }
            if a.memo != b.memo { fail!(self, ["C24"], "memo recorded in block {}: {:?}, expected {:?}", pre_len + i, a.memo, b.memo) }
            let fees = (a.txfee, a.fee) != (b.txfee, b.fee);
            if fees && matches!(b.kind, BK::Xfer | BK::Approve) { fail!(self, ["C27"], "fee recorded in block {}: transaction {:?} block {:?}, expected {:?} {:?}", pre_len + i, a.txfee, a.fee, b.txfee, b.fee) }
            if a.ts != b.ts { fail!(self, ["C03"], "time recorded in block {}: {} expected {}", pre_len + i, a.ts, b.ts) }
            let rest = PBlock { ts: b.ts, fee: if matches!(b.kind, BK::Xfer | BK::Approve) { b.fee } else { a.fee }, ..a.clone() } == *b;
            if !rest { for p in pk { fail!(self, [*p], "block {} is {a:?}, expected {b:?}", pre_len + i) } }
        }
    }
    /// nothing changed (a rejected request)
    fn unchanged(&mut self, pre: &Obs, pre_len: usize, calls: &[CallInfo], what: &str) {
        if self.broken { return }
        let o = self.obs.clone();
        let d = |m: &BTreeMap<Key, u128>, k: &Key| m.get(k).copied().unwrap_or(0);
        if o.supply != pre.supply || o.bal.keys().any(|k| d(&o.bal, k) != d(&pre.bal, k)) { fail!(self, ["C06"], "{what} was rejected but changed balances or supply") }
        if self.blocks.len() != pre_len { fail!(self, ["C06"], "{what} was rejected but recorded a block") }
        if o.alw.iter().any(|(k, v)| *v != pre.alw.get(k).copied().unwrap_or((0, 0))) { fail!(self, ["C06"], "{what} was rejected but changed an allowance") }
        if o.dedup != pre.dedup { fail!(self, ["C06"], "{what} was rejected but changed the duplicate-detection records: {:?} -> {:?}", pre.dedup, o.dedup) }
        if !calls.is_empty() { fail!(self, ["C06"], "{what} was rejected but sent a call with {} cycles", calls[0].cycles) }
    }
    fn pruned(&mut self, pre: &Obs) {
        if self.broken { return }
        let o = self.obs.clone();
        let live = |x: &Obs| x.alw.values().filter(|x| x.0 > 0).count() as u64;
        let (a, b) = (pre.approvals.saturating_sub(live(pre)), o.approvals.saturating_sub(live(&o)));
        if b > 0 && a.saturating_sub(b) < 100 { fail!(self, ["C10"], "a successful operation left {b} expired allowances in storage after removing {}", a.saturating_sub(b)) }
    }
    fn inflight(&self) -> u128 { self.pend.iter().map(|p| p.amount).fold(0, |a, b| a.saturating_add(b)) }
    pub fn headroom(&self) -> u128 { let s = self.obs.supply.to_u128().unwrap_or(u128::MAX); (u128::MAX - s).saturating_sub(self.inflight()) }
    fn ghost_expired(&self, p: &(Key, Key)) -> bool { self.ghost.get(p).map(|g| g.1 > 0 && g.1 <= self.now).unwrap_or(false) }
    fn reply(out: &Out, create: bool) -> Reply {
        match out {
            Out::Trap(e) => Reply::Trap(e.clone()), Out::Reject(e) => Reply::Trap(e.clone()), Out::Pending => Reply::Pending,
            Out::Reply(b) => if create { match decode_one::<Result<CreateOk, Er>>(b) { Ok(Ok(x)) => Reply::Ok(x.block_id.0, Some(x.canister_id)), Ok(Err(e)) => Reply::Err(e), Err(e) => Reply::Bad(e.to_string()) } }
            else { match decode_one::<Result<Nat, Er>>(b) { Ok(Ok(x)) => Reply::Ok(x.0, None), Ok(Err(e)) => Reply::Err(e), Err(e) => Reply::Bad(e.to_string()) } }
        }
    }
    fn dup_of(&self, tx: &TxId) -> Option<Accepted> { let c = tx.created?; if (c as u128) + (WINDOW + DRIFT) as u128 >= self.now as u128 { self.acc.iter().find(|a| a.tx == *tx).cloned() } else { None } }
    /// the accepted request with this identity, however old
    fn orig(&self, tx: &TxId) -> Option<Accepted> { tx.created?; self.acc.iter().find(|a| a.tx == *tx).cloned() }
    /// creation time outside the window
    fn window(&self, created: Option<u64>) -> Option<&'static str> {
        let c = created? as u128;
        if c + ((WINDOW + DRIFT) as u128) < self.now as u128 { Some("old") } else if c > self.now as u128 + DRIFT as u128 { Some("future") } else { None }
    }
    pub fn step(&mut self, op: &Op) {
        if self.broken { return }
        let pre = self.obs.clone(); let pre_len = self.blocks.len();
        for (p, v) in &pre.alw { if v.0 > 0 { self.ghost.insert(*p, *v); } else if !self.ghost_expired(p) { self.ghost.remove(p); } }
        match op {
            Op::Deposit { caller, to, cycles, memo } => self.deposit(pre, pre_len, *caller, *to, cycles, memo),
            Op::Pay { .. } => self.pay(pre, pre_len, op),
            Op::Approve { .. } => self.approve(pre, pre_len, op),
            Op::Bulk { caller, sub: sb, first, n, expires } => {
                let me = Account { owner: owner(*caller), subaccount: sub(*sb) };
                self.keys.insert(me.key());
                let mut e = Exp::of(&pre); let mut any = false;
                for i in 0..*n {
                    let sp = Account { owner: owner(100 + first + i), subaccount: None };
                    self.pairs.insert((me.key(), sp.key()));
                    let amount = 1_000_000_000u128 + i as u128;
                    let arg = ApproveArg { from_subaccount: me.subaccount, spender: sp, amount: amount.into(), expected_allowance: None, expires_at: *expires, fee: None, memo: None, created_at_time: None };
                    let r = self.m.exec(Msg::new("canister_update.icrc2_approve", me.owner.as_slice(), encode_one(arg).unwrap(), self.now));
                    self.certified = r.certified.clone().or(self.certified.take());
                    if let Reply::Ok(..) = Self::reply(&r.out, false) {
                        any = true;
                        e.take(me.key(), FEE); e.supply -= FEE; e.set((me.key(), sp.key()), (amount, expires.unwrap_or(0)));
                        e.blocks.push(PBlock { kind: BK::Approve, from: Some(me), to: None, spender: Some(sp), amt: amount, txfee: None, fee: Some(FEE), ts: self.now, memo: None, created: None, expected: None, expires: *expires, phash: None });
                    }
                }
                self.observe();
                self.compare(&e, &pre, pre_len, &["C08"], &["C08"], &["C08"]);
                if any { self.pruned(&pre) }
                self.common(pre_len);
                self.done.push(format!("{n} approvals"));
            }
            Op::Reply { nth, ans } => self.answer(pre, pre_len, *nth, ans),
            Op::Advance { to } => {
                self.now = self.now.max(*to);
                self.observe();
                if self.broken { return }
                let mut e = Exp::of(&pre);
                let now = self.now;
                for v in e.alw.values_mut() { if v.1 > 0 && v.1 <= now { *v = (0, 0) } }
                self.compare(&e, &pre, pre_len, &["C01"], &["C09"], &["C03"]);
                self.common(pre_len);
                self.done.push(format!("time {}", self.now));
            }
            Op::Blocks { ranges } => {
                let a: Vec<Range> = ranges.iter().map(|r| Range { start: r.0.nat(), length: r.1.nat() }).collect();
                let out = self.q(vec![("canister_query.icrc3_get_blocks", encode_one(&a).unwrap())]).remove(0);
                let len = self.blocks.len() as u64;
                let mut want: Vec<(u64, Value)> = vec![];
                for r in ranges {
                    let (s, n) = (r.0.big(), r.1.big());
                    let end = (&s + &n).min(BigUint::from(len));
                    let Some(s) = s.to_u64() else { continue };
                    let end = end.to_u64().unwrap();
                    for i in s..end.max(s) { if (want.len() as u64) < self.obs.max { want.push((i, self.vals[i as usize].clone())) } }
                }
                match &out {
                    Out::Reply(b) => match decode_one::<BlocksRes>(b) {
                        Ok(r) => {
                            if r.log_length.0 != BigUint::from(len) { fail!(self, ["C18"], "block query reports {} blocks of {len}", r.log_length) }
                            let got: Vec<(BigUint, &Value)> = r.blocks.iter().map(|b| (b.id.0.clone(), &b.block)).collect();
                            let w: Vec<(BigUint, &Value)> = want.iter().map(|x| (BigUint::from(x.0), &x.1)).collect();
                            if got != w { fail!(self, ["C18"], "block query {:?} with limit {} on {len} blocks returned {:?}, expected {:?}", ranges.iter().map(|r| format!("({},{})", r.0 .0, r.1 .0)).collect::<Vec<_>>(), self.obs.max, got.iter().map(|x| x.0.to_string()).collect::<Vec<_>>(), w.iter().map(|x| x.0.to_string()).collect::<Vec<_>>()) }
                        }
                        Err(e) => fail!(self, ["C18"], "block query cannot be decoded: {e}"),
                    },
                    x => fail!(self, ["C18"], "block query failed: {x:?}"),
                }
                self.done.push("block query".into());
            }
            Op::Listing { caller, from, prev, take } => {
                let now = self.now;
                let arg = ListArg { from_account: from.map(|a| a.acct()), prev_spender: prev.map(|a| a.acct()), take: take.as_ref().map(|t| t.nat()) };
                let out = self.m.query(vec![Msg::new("canister_query.icrc103_get_allowances", owner(*caller).as_slice(), encode_one(arg).unwrap(), now)]).remove(0);
                let fk = from.map(|a| a.key()).unwrap_or((owner(*caller), [0; 32]));
                let n = take.as_ref().map(|t| t.big().to_u64().unwrap_or(u64::MAX)).unwrap_or(500).min(500) as usize;
                let mut w: Vec<(Key, Key, u128, u64)> = pre.alw.iter().filter(|(p, v)| v.0 > 0 && p.0 .0 == fk.0 && (if let Some(s) = prev { **p > (fk, s.key()) } else { p.0 >= fk })).map(|(p, v)| (p.0, p.1, v.0, v.1)).collect();
                w.sort(); w.truncate(n);
                match &out {
                    Out::Reply(b) => match decode_one::<Result<Vec<Listed>, ListErr>>(b) {
                        Ok(Ok(l)) => {
                            let g: Vec<(Key, Key, u128, u64)> = l.iter().map(|x| (x.from_account.key(), x.to_spender.key(), x.allowance.0.to_u128().unwrap_or(0), x.expires_at.unwrap_or(0))).collect();
                            if g != w {
                                fail!(self, ["C19"], "listing of {} from {:?} after {:?}, at most {n}: returned {} entries {:?}, expected {} {:?}", fk.0, from, prev, g.len(), g.iter().take(4).collect::<Vec<_>>(), w.len(), w.iter().take(4).collect::<Vec<_>>());
                                if g.iter().any(|x| x.3 > 0 && x.3 <= now) { fail!(self, ["C09"], "an expired allowance is listed at {now}") }
                                if g.iter().any(|x| x.0 .0 == x.1 .0) { fail!(self, ["C26"], "an allowance between accounts of the same owner is listed") }
                            }
                        }
                        x => fail!(self, ["C19"], "listing answered {x:?}"),
                    },
                    x => fail!(self, ["C19"], "listing failed: {x:?}"),
                }
                self.done.push("allowance listing".into());
            }
            Op::Upgrade { none, max, index } => {
                if !self.pend.is_empty() { return }
                let arg = if *none { None } else { Some(LedgerArgs::Upgrade(if max.is_none() && index.is_none() { None } else { Some(UpgradeArgs { max_blocks_per_request: *max, change_index_id: index.map(|i| match i { None => ChangeIndexId::Unset, Some(o) => ChangeIndexId::SetTo(owner(o)) }) }) })) };
                let r = self.m.upgrade(Msg::new("canister_post_upgrade", owner(1).as_slice(), encode_one(arg).unwrap(), self.now));
                if let Out::Trap(e) = &r.out { fail!(self, ["C23", "C29"], "the upgrade trapped: {e}"); self.broken = true; return }
                self.certified = r.certified.clone().or(self.certified.take());
                self.observe();
                if self.broken { return }
                let (emax, eidx) = if *none { (pre.max, pre.index) } else { (max.unwrap_or(pre.max), match index { None => pre.index, Some(None) => None, Some(Some(o)) => Some(owner(*o)) }) };
                let o = self.obs.clone();
                if (o.max, o.index) != (emax, eidx) { fail!(self, ["C29", "C23"], "after the upgrade the configuration is {:?}, expected {:?}", (o.max, o.index), (emax, eidx)) }
                let e = Exp::of(&pre);
                self.compare(&e, &pre, pre_len, &["C23", "C29"], &["C23", "C29"], &["C23", "C29"]);
                if o.supply != pre.supply { fail!(self, ["C23"], "the upgrade changed the supply") }
                if (o.dedup, o.approvals, o.expirations) != (pre.dedup, pre.approvals, pre.expirations) { fail!(self, ["C23"], "the upgrade changed stored records: {:?} -> {:?}", (pre.dedup, pre.approvals, pre.expirations), (o.dedup, o.approvals, o.expirations)) }
                self.upgraded = true;
                self.common(pre_len);
                self.done.push("upgrade".into());
            }
            Op::BadUpgrade => {
                if !self.pend.is_empty() { return }
                let arg = Some(LedgerArgs::Init(Config { max_blocks_per_request: 7, index_id: None, initial_balances: None }));
                let r = self.m.upgrade(Msg::new("canister_post_upgrade", owner(1).as_slice(), encode_one(arg).unwrap(), self.now));
                if !matches!(r.out, Out::Trap(_)) { fail!(self, ["C29"], "upgrading with installation arguments is not refused"); self.broken = true }
                self.done.push("refused upgrade".into());
            }
        }
    }
    fn deposit(&mut self, pre: Obs, pre_len: usize, caller: u16, to: Acc, cycles: &N, memo: &Option<Vec<u8>>) {
        let mut n = cycles.u().unwrap_or(u128::MAX);
        // the total number of cycles in existence, including those under way, fits 128 bits
        if !self.pend.is_empty() { n = n.min(self.headroom()) }
        let acc = to.acct(); self.keys.insert(acc.key());
        let mut ms = Msg::new("canister_update.deposit", owner(caller).as_slice(), encode_one(DepositArg { to: acc, memo: memo.clone().map(Into::into) }).unwrap(), self.now);
        ms.avail = n;
        let r = self.m.exec(ms);
        if !matches!(r.out, Out::Trap(_)) { self.certified = r.certified.clone() }
        self.observe();
        if self.broken { return }
        let long = memo.as_ref().map(|m| m.len() > 32).unwrap_or(false);
        let over = n > FEE && &pre.supply + (n - FEE) > BigUint::from(u128::MAX);
        match &r.out {
            Out::Reply(b) => {
                if long { fail!(self, ["C24", "C17"], "a deposit with a memo of {} bytes was accepted", memo.as_ref().unwrap().len()) }
                if n <= FEE { fail!(self, ["C17"], "a deposit of {n} cycles was accepted") }
                if over { fail!(self, ["C17", "C25"], "a deposit of {n} cycles beyond the representable supply was accepted") }
                if n <= FEE || over { return }
                let mut e = Exp::of(&pre);
                e.add(acc.key(), n - FEE); e.supply += n - FEE;
                e.blocks.push(PBlock { kind: BK::Mint, from: None, to: Some(acc), spender: None, amt: n - FEE, txfee: Some(FEE), fee: Some(0), ts: self.now, memo: memo.clone(), created: None, expected: None, expires: None, phash: None });
                if r.accepted != n { fail!(self, ["C17"], "a deposit kept {} of {n} attached cycles", r.accepted) }
                self.compare(&e, &pre, pre_len, &["C17"], &["C10"], &["C17"]);
                match decode_one::<DepositResult>(b) {
                    Ok(d) => if d.block_index.0 != BigUint::from(pre_len) || d.balance.0 != BigUint::from(self.obs.bal[&acc.key()]) { fail!(self, ["C17"], "deposit answered block {} balance {}, expected {pre_len} {}", d.block_index, d.balance, self.obs.bal[&acc.key()]) },
                    Err(e) => fail!(self, ["C17"], "deposit answer: {e}"),
                }
                self.pruned(&pre);
                self.done.push("deposit".into());
            }
            x => {
                if !matches!(x, Out::Trap(_)) && r.accepted > 0 { fail!(self, ["C17", "C06"], "a rejected deposit kept {} cycles", r.accepted) }
                self.unchanged(&pre, pre_len, &r.calls, "a deposit");
                self.done.push("deposit rejected".into());
            }
        }
        self.common(pre_len);
    }
    fn pay(&mut self, pre: Obs, pre_len: usize, op: &Op) {
        let Op::Pay { kind, caller, sub: sb, from, to, amount, fee, memo, created, args, fail } = op else { unreachable!() };
        let me = Account { owner: owner(*caller), subaccount: sub(*sb) };
        let plain = from.is_none();
        let payer = from.map(|a| a.acct()).unwrap_or(me);
        let spender = if plain { None } else { Some(me) };
        let (key, skey) = (payer.key(), me.key());
        let eff = !plain && key != skey;
        self.keys.insert(key);
        let rcv = to.acct();
        if *kind == Kind::Transfer { self.keys.insert(rcv.key()); }
        if eff { self.pairs.insert((key, skey)); }
        let bmemo = |m: &Option<Vec<u8>>| m.clone().map(serde_bytes::ByteBuf::from);
        let creation = creation_args(*args);
        let (ep, arg): (&'static str, Vec<u8>) = match (kind, plain) {
            (Kind::Transfer, true) => ("canister_update.icrc1_transfer", encode_one(TransferArg { from_subaccount: me.subaccount, to: rcv, fee: fee.as_ref().map(|f| f.nat()), created_at_time: *created, memo: bmemo(memo), amount: amount.nat() }).unwrap()),
            (Kind::Transfer, false) => ("canister_update.icrc2_transfer_from", encode_one(TransferFromArg { spender_subaccount: me.subaccount, from: payer, to: rcv, fee: fee.as_ref().map(|f| f.nat()), created_at_time: *created, memo: bmemo(memo), amount: amount.nat() }).unwrap()),
            (Kind::Withdraw, true) => ("canister_update.withdraw", encode_one(WithdrawArg { from_subaccount: me.subaccount, to: rcv.owner, created_at_time: *created, amount: amount.nat() }).unwrap()),
            (Kind::Withdraw, false) => ("canister_update.withdraw_from", encode_one(WithdrawFromArg { spender_subaccount: me.subaccount, from: payer, to: rcv.owner, created_at_time: *created, amount: amount.nat() }).unwrap()),
            (Kind::Create, true) => ("canister_update.create_canister", encode_one(CreateArg { from_subaccount: me.subaccount, created_at_time: *created, amount: amount.nat(), creation_args: creation.clone() }).unwrap()),
            (Kind::Create, false) => ("canister_update.create_canister_from", encode_one(CreateFromArg { from: payer, spender_subaccount: me.subaccount, created_at_time: *created, amount: amount.nat(), creation_args: creation.clone() }).unwrap()),
        };
        let mut ms = Msg::new(ep, me.owner.as_slice(), arg, self.now);
        if *kind != Kind::Transfer { ms.liquid_low = *fail == 1; ms.perform_fail = *fail == 2; }
        let instant = *kind != Kind::Transfer && *fail != 0;
        let r = self.m.exec(ms);
        if !matches!(r.out, Out::Trap(_)) { self.certified = r.certified.clone() }
        self.observe();
        if self.broken { return }
        let what = match (kind, plain) { (Kind::Transfer, true) => "transfer", (Kind::Transfer, false) => "transfer_from", (Kind::Withdraw, true) => "withdraw", (Kind::Withdraw, false) => "withdraw_from", (Kind::Create, true) => "create_canister", _ => "create_canister_from" };
        // what speaks against the request
        let a = amount.u();
        let need = amount.big() + FEE;
        let bal = pre.bal.get(&key).copied().unwrap_or(0);
        let alw = pre.alw.get(&(key, skey)).copied().unwrap_or((0, 0));
        let fee_u = fee.as_ref().and_then(|f| f.u());
        let blk_memo = match kind { Kind::Transfer => memo.clone(), Kind::Withdraw => Some(withdraw_memo(&rcv.owner)), Kind::Create => Some(vec![0xfe; 32]) };
        let tx = TxId { kind: match kind { Kind::Transfer => 0, _ => 1 }, from: payer, to: if *kind == Kind::Transfer { Some(rcv) } else { None }, spender, amount: a.unwrap_or(0), fee: if *kind == Kind::Transfer { fee_u } else { None }, expected: None, expires: None, memo: blk_memo.clone(), created: *created };
        let known = a.is_some() && (fee.is_none() || fee_u.is_some() || *kind != Kind::Transfer);
        let (dup, orig) = if known { (self.dup_of(&tx), self.orig(&tx)) } else { (None, None) };
        let mut c: BTreeSet<&'static str> = BTreeSet::new();
        if a.is_none() { c.insert("huge"); }
        if *kind == Kind::Transfer {
            if [payer.owner, rcv.owner, me.owner].contains(&owner(3)) { c.insert("denied"); }
            if fee.as_ref().map(|f| f.big() != BigUint::from(FEE)).unwrap_or(false) { c.insert("badfee"); }
            if memo.as_ref().map(|m| m.len() > 32).unwrap_or(false) { c.insert("memo"); }
            if let Some(a) = a { if pre.bal.get(&rcv.key()).copied().unwrap_or(0).checked_add(a).is_none() { c.insert("over"); } }
        }
        if *kind == Kind::Withdraw {
            if a == Some(0) { c.insert("zero"); }
            if rcv.owner.as_slice().len() == 29 && rcv.owner.as_slice()[28] == 2 { c.insert("selfauth"); }
        }
        if a.is_some() { if need > BigUint::from(bal) { c.insert("funds"); } if eff && need > BigUint::from(alw.0) { c.insert("alw"); } }
        if let Some(x) = self.window(*created) { c.insert(x); }
        if dup.is_some() { c.insert("dup"); }
        let ghost = eff && self.ghost_expired(&(key, skey));
        let reply = Self::reply(&r.out, *kind == Kind::Create);
        let own: &'static str = match kind { Kind::Transfer => "C05", Kind::Withdraw => "C13", Kind::Create => "C14" };
        let accepted = match &reply {
            Reply::Ok(..) | Reply::Pending => true,
            Reply::Err(Er::FailedToWithdraw { .. } | Er::FailedToWithdrawFrom { .. } | Er::FailedToCreate { .. } | Er::FailedToCreateFrom { .. }) => true,
            _ => false,
        };
        if let Reply::Bad(e) = &reply { fail!(self, ["C22"], "{what} answered something undecodable: {e}"); self.broken = true; return }
        if accepted {
            if !c.is_empty() { fail!(self, ["C31"], "{what} of {} was carried out although {c:?} speaks against it", amount.0) }
            for x in &c { let p: &[&'static str] = match *x { "huge" => &["C25"], "denied" => &["C26"], "badfee" => &["C27"], "memo" => &["C24"], "zero" | "selfauth" => &["C28"], "funds" => &["C25"], "alw" => if ghost { &["C07", "C09"] } else { &["C07"] }, "old" | "future" => &["C12"], "dup" => &["C11"], _ => &["C25"] }; for p in p { fail!(self, [*p], "{what} of {} was executed at {} although {x} (balance {bal}, allowance {alw:?}, created {created:?})", amount.0, self.now) } }
            if c.contains("funds") || c.contains("huge") || c.contains("over") { return }
            let a = a.unwrap();
            let mut e = Exp::of(&pre);
            e.take(key, a.wrapping_add(FEE));
            if eff && !c.contains("alw") { let left = alw.0.wrapping_sub(a + FEE); e.set((key, skey), if left == 0 { (0, 0) } else { (left, alw.1) }); }
            if *kind == Kind::Transfer {
                e.add(rcv.key(), a); e.supply -= FEE;
                e.blocks.push(PBlock { kind: BK::Xfer, from: Some(payer), to: Some(rcv), spender, amt: a, txfee: fee_u, fee: if fee.is_none() { Some(FEE) } else { None }, ts: self.now, memo: memo.clone(), created: *created, expected: None, expires: None, phash: None });
                self.compare(&e, &pre, pre_len, &["C05"], &["C07"], &["C05"]);
                if let Reply::Ok(i, _) = &reply { if *i != BigUint::from(pre_len) { fail!(self, ["C05"], "{what} answered block {i}, expected {pre_len}") } }
                self.acc.push(Accepted { tx, index: pre_len as u64, canister: None });
            } else {
                e.supply = (BigUint::from(u128::MAX) + &e.supply - (a + FEE)) - u128::MAX;
                e.blocks.push(PBlock { kind: BK::Burn, from: Some(payer), to: None, spender, amt: a, txfee: None, fee: Some(FEE), ts: self.now, memo: blk_memo, created: *created, expected: None, expires: None, phash: None });
                self.acc.push(Accepted { tx: tx.clone(), index: pre_len as u64, canister: None });
                let pend = Pend { call: 0, kind: *kind, plain, from: payer, spender: if eff { spender } else { None }, amount: a, block: pre_len as u64, old_exp: alw.1, tx };
                let mut tags: Vec<&'static str> = vec![own];
                if *kind == Kind::Withdraw { tags.push("C28"); }
                if instant {
                    let code = Rej::SysTransient;
                    let (rb, ab) = self.refund(&mut e, &pend, a, pre_len as u64 + 1);
                    self.compare(&e, &pre, pre_len, &[own], &["C07", "C16"], if ab.is_some() { &[] } else if *kind == Kind::Withdraw { &["C13"] } else { &["C14"] });
                    if ab.is_some() { self.compare(&e, &pre, pre_len, &[], &[], &["C16", own]) }
                    if !r.calls.is_empty() { fail!(self, [own], "a call was sent although sending failed") }
                    self.failure(&reply, &pend, rb, ab, Some(code), None, what);
                } else {
                    self.compare(&e, &pre, pre_len, &[own], &["C07"], &tags);
                    match &reply { Reply::Pending => {}, x => fail!(self, [own], "{what} answered {x:?} without waiting for its call") }
                    if r.calls.len() != 1 { fail!(self, [own], "{what} sent {} calls", r.calls.len()) }
                    for cl in &r.calls {
                        if cl.cycles != a { fail!(self, [own], "{what} of {a} sent {} cycles", cl.cycles) }
                        if *kind == Kind::Withdraw {
                            let d = decode_one::<DepositCycles>(&cl.arg).ok().map(|d| d.canister_id);
                            if !cl.callee.is_empty() || cl.method != "deposit_cycles" { fail!(self, ["C13"], "withdrawal calls {} of {:?}", cl.method, cl.callee) }
                            if d != Some(rcv.owner) { fail!(self, ["C13", "C28"], "withdrawal to {} deposits to {d:?}", rcv.owner) }
                        } else {
                            let d = decode_one::<CmcArgs>(&cl.arg).ok();
                            let w = expected_creation(&creation, me.owner);
                            if cl.callee != CMC || cl.method != "create_canister" || d.as_ref() != Some(&w) { fail!(self, ["C14"], "creation calls {} of {:?} with {d:?}, expected {w:?}", cl.method, cl.callee) }
                        }
                    }
                    if let (Reply::Pending, Some(cl)) = (&reply, r.calls.first()) { self.pend.push(Pend { call: cl.id, ..pend }) }
                }
            }
            self.pruned(&pre);
            self.done.push(what.to_string());
        } else {
            self.unchanged(&pre, pre_len, &r.calls, what);
            let single = if c.len() == 1 { c.iter().next().copied() } else { None };
            let now = self.now;
            match &reply {
                Reply::Err(Er::InsufficientFunds { balance }) => if balance.0 != BigUint::from(bal) || !(c.contains("funds") || c.contains("huge")) { fail!(self, ["C25"], "{what} of {} answered InsufficientFunds {balance} with balance {bal}", amount.0) },
                Reply::Err(Er::InsufficientAllowance { allowance }) => if allowance.0 != BigUint::from(alw.0) || !c.contains("alw") { fail!(self, ["C07"], "{what} of {} answered InsufficientAllowance {allowance} with allowance {alw:?}", amount.0); if ghost { fail!(self, ["C09"], "expired allowance reported as {allowance}") } },
                Reply::Err(Er::TooOld) => if !c.contains("old") { fail!(self, ["C12"], "{what} created at {created:?} answered TooOld at {now}") },
                Reply::Err(Er::CreatedInFuture { ledger_time }) => if !c.contains("future") || *ledger_time != now { fail!(self, ["C12"], "{what} created at {created:?} answered CreatedInFuture {ledger_time} at {now}") },
                Reply::Err(Er::Duplicate { duplicate_of, canister_id }) => if orig.as_ref().map(|d| BigUint::from(d.index) != duplicate_of.0 || (*kind == Kind::Create && d.canister != *canister_id)).unwrap_or(true) { fail!(self, ["C11"], "{what} answered Duplicate {duplicate_of} {canister_id:?}, the original is {orig:?}") },
                Reply::Err(Er::BadFee { expected_fee }) => if !c.contains("badfee") || expected_fee.0 != BigUint::from(FEE) { fail!(self, ["C27"], "{what} stating fee {fee:?} answered BadFee {expected_fee}") },
                Reply::Err(Er::InvalidReceiver { receiver }) => if !c.contains("selfauth") || *receiver != rcv.owner { fail!(self, ["C28"], "withdrawal to {} answered InvalidReceiver {receiver}", rcv.owner) },
                Reply::Err(Er::GenericError { error_code, .. }) => if *kind == Kind::Transfer && error_code.0 == BigUint::from(100_001u32) && !c.contains("denied") { fail!(self, ["C26"], "{what} was refused as involving a forbidden party") },
                _ => {}
            }
            let told = match &reply {
                Reply::Trap(_) => *kind == Kind::Transfer && c.contains("memo"),
                Reply::Err(Er::InsufficientFunds { balance }) => balance.0 == BigUint::from(bal) && (c.contains("funds") || c.contains("huge")),
                Reply::Err(Er::InsufficientAllowance { allowance }) => allowance.0 == BigUint::from(alw.0) && c.contains("alw"),
                Reply::Err(Er::TooOld) => c.contains("old"),
                Reply::Err(Er::CreatedInFuture { ledger_time }) => c.contains("future") && *ledger_time == now,
                Reply::Err(Er::Duplicate { duplicate_of, .. }) => orig.as_ref().map(|d| BigUint::from(d.index) == duplicate_of.0).unwrap_or(false),
                Reply::Err(Er::BadFee { expected_fee }) => c.contains("badfee") && expected_fee.0 == BigUint::from(FEE),
                Reply::Err(Er::InvalidReceiver { receiver }) => c.contains("selfauth") && *receiver == rcv.owner,
                Reply::Err(Er::GenericError { .. }) => if *kind == Kind::Transfer { c.contains("denied") || c.contains("over") || (c.contains("alw") && alw.0 == 0) } else { c.contains("zero") },
                _ => false,
            };
            if !told { fail!(self, ["C31"], "{what} of {} was answered {reply:?}; what speaks against it: {c:?} (balance {bal}, allowance {alw:?}, time {now})", amount.0) }
            let e = match &reply { Reply::Err(e) => Some(e), _ => None };
            let miss = |w: &mut World, p: &[&'static str], x: &str| for p in p { fail!(w, [*p], "{what} of {} must be refused with {x}, but answered {reply:?} (only {single:?} speaks against it)", amount.0) };
            if c.contains("dup") { if !matches!(e, Some(Er::Duplicate { .. })) { miss(self, &["C11"], "Duplicate") } }
            else if c.contains("selfauth") && a.is_some() { if !matches!(e, Some(Er::InvalidReceiver { .. })) { miss(self, &["C28"], "InvalidReceiver") } }
            else if c.contains("badfee") && a.is_some() && c.iter().all(|x| *x == "badfee" || *x == "funds") { if !matches!(e, Some(Er::BadFee { .. })) { let p: &[&'static str] = if fee_u.is_none() { &["C27", "C25"] } else { &["C27"] }; miss(self, p, "BadFee") } }
            else { match single {
                Some("huge") | Some("funds") => if !matches!(e, Some(Er::InsufficientFunds { .. })) { miss(self, &["C25"], "InsufficientFunds") },
                Some("old") => if e != Some(&Er::TooOld) && !(orig.is_some() && matches!(e, Some(Er::Duplicate { .. }))) { miss(self, &["C12"], "TooOld") },
                Some("future") => if !matches!(e, Some(Er::CreatedInFuture { .. })) { miss(self, &["C12"], "CreatedInFuture") },
                None if c.is_empty() && *kind != Kind::Transfer && matches!(reply, Reply::Trap(_)) => fail!(self, ["C15", own], "{what} of {} aborted ({reply:?}) although nothing speaks against it", amount.0),
                _ => {}
            } }
            self.done.push(format!("{what} rejected"));
        }
        self.common(pre_len);
    }
    /// effect of a failed call that returned `r` cycles; the first new block gets index `at`
    fn refund(&self, e: &mut Exp, p: &Pend, r: u128, at: u64) -> (Option<u64>, Option<u64>) {
        if r <= FEE { return (None, None) }
        let net = r - FEE;
        let memo = vec![if p.kind == Kind::Withdraw { 0xff } else { 0xfd }; 32];
        e.add(p.from.key(), net); e.supply += net;
        e.blocks.push(PBlock { kind: BK::Mint, from: None, to: Some(p.from), spender: None, amt: net, txfee: Some(0), fee: Some(0), ts: self.now, memo: Some(memo), created: None, expected: None, expires: None, phash: None });
        let Some(s) = p.spender else { return (Some(at), None) };
        if r <= 2 * FEE || (p.old_exp > 0 && p.old_exp <= self.now) { return (Some(at), None) }
        let pair = (p.from.key(), s.key());
        let cur = e.alw.get(&pair).copied().unwrap_or((0, 0));
        let exp = if cur.1 > 0 { cur.1 } else { p.old_exp };
        let n = cur.0.saturating_add(r - 2 * FEE);
        e.set(pair, (n, exp));
        e.take(p.from.key(), FEE); e.supply -= FEE;
        e.blocks.push(PBlock { kind: BK::Approve, from: Some(p.from), to: None, spender: Some(s), amt: n, txfee: None, fee: Some(FEE), ts: self.now, memo: Some(vec![0xff; 32]), created: None, expected: None, expires: if exp > 0 { Some(exp) } else { None }, phash: None });
        (Some(at), Some(at + 1))
    }
    fn failure(&mut self, reply: &Reply, p: &Pend, rb: Option<u64>, ab: Option<u64>, code: Option<Rej>, reason: Option<&str>, what: &str) {
        let nb = |x: &Option<Nat>| x.as_ref().and_then(|n| n.0.to_u64());
        let own: &'static str = if p.kind == Kind::Withdraw { "C13" } else { "C14" };
        let rs = |x: &str| reason.map(|r| x.contains(r)).unwrap_or(true);
        let (ok, okab, okcode) = match reply {
            Reply::Err(Er::FailedToWithdraw { fee_block, rejection_code, rejection_reason }) if p.plain && p.kind == Kind::Withdraw => (nb(fee_block) == rb, true, code.map(|c| c == *rejection_code).unwrap_or(true) && rs(rejection_reason)),
            Reply::Err(Er::FailedToWithdrawFrom { withdraw_from_block: b, refund_block, approval_refund_block, rejection_code, rejection_reason }) if !p.plain && p.kind == Kind::Withdraw => (nb(b) == Some(p.block) && nb(refund_block) == rb, nb(approval_refund_block) == ab, code.map(|c| c == *rejection_code).unwrap_or(true) && rs(rejection_reason)),
            Reply::Err(Er::FailedToCreate { fee_block, refund_block, error }) if p.plain && p.kind == Kind::Create => (nb(fee_block) == Some(p.block) && nb(refund_block) == rb, true, rs(error)),
            Reply::Err(Er::FailedToCreateFrom { create_from_block: b, refund_block, approval_refund_block, rejection_code, rejection_reason }) if !p.plain && p.kind == Kind::Create => (nb(b) == Some(p.block) && nb(refund_block) == rb, nb(approval_refund_block) == ab, code.map(|c| c == *rejection_code).unwrap_or(true) && rs(rejection_reason)),
            _ => (false, false, false),
        };
        if !ok || !okcode { fail!(self, [own, "C22"], "failed {what} of {} answered {reply:?}; expected burn block {}, refund block {rb:?}, approval block {ab:?}, code {code:?}, reason {reason:?}", p.amount, p.block) }
        if !okab { fail!(self, ["C16"], "failed {what} answered {reply:?}; expected approval refund block {ab:?}") }
    }
    fn answer(&mut self, pre: Obs, pre_len: usize, nth: usize, ans: &Ans) {
        if self.pend.is_empty() { return }
        let p = self.pend.remove(nth % self.pend.len());
        let own: &'static str = if p.kind == Kind::Withdraw { "C13" } else { "C14" };
        let canister = owner(20_000 + p.call as u16);
        let rcode = |c: u32| match c { 1 => Rej::SysFatal, 2 => Rej::SysTransient, 3 => Rej::DestinationInvalid, 4 => Rej::CanisterReject, 5 => Rej::CanisterError, _ => Rej::Unknown };
        // (reject code, message, reply, cycles returned or None for success, code, reason)
        let ans = if p.kind == Kind::Withdraw && matches!(ans, Ans::Garbage | Ans::Refunded(_) | Ans::RefundFailed) { &Ans::Ok } else { ans };
        let (rc, msg, bytes, ret, code, reason): (u32, String, Vec<u8>, Option<u128>, Option<Rej>, Option<String>) = match ans {
            Ans::Ok => (0, String::new(), if p.kind == Kind::Withdraw { candid::encode_args(()).unwrap() } else { encode_one(Ok::<Principal, CmcErr>(canister)).unwrap() }, None, None, None),
            Ans::Reject(c, m) => (*c, m.clone(), vec![], Some(p.amount), Some(rcode(*c)), Some(m.clone())),
            Ans::Garbage => (0, String::new(), b"not candid".to_vec(), Some(p.amount), Some(Rej::CanisterError), None),
            Ans::Refunded(n) => { let n = n.u().unwrap_or(0).min(p.amount); (0, String::new(), encode_one(Err::<Principal, CmcErr>(CmcErr::Refunded { refund_amount: n, create_error: "creation broke".into() })).unwrap(), Some(n), Some(Rej::CanisterError), Some("creation broke".into())) }
            Ans::RefundFailed => (0, String::new(), encode_one(Err::<Principal, CmcErr>(CmcErr::RefundFailed { create_error: "creation broke".into(), refund_error: "refund broke".into() })).unwrap(), Some(0), Some(Rej::CanisterError), Some("creation broke".into())),
        };
        let caller = if p.kind == Kind::Withdraw { vec![] } else { CMC.to_vec() };
        let ms = Msg { what: What::Callback { call: p.call, reject: rc, msg }, caller, arg: bytes, time: self.now, avail: 0, liquid_low: false, perform_fail: false };
        let r = self.m.exec(ms);
        if let Out::Trap(e) = &r.out { fail!(self, ["C15", own], "the handler aborted on the reply: {e}"); if ret.unwrap_or(0) > 2 * FEE && p.spender.is_some() { fail!(self, ["C16"], "the handler aborted on the reply: {e}") } self.broken = true; return }
        self.certified = r.certified.clone();
        self.observe();
        if self.broken { return }
        let reply = Self::reply(&r.out, p.kind == Kind::Create);
        if matches!(reply, Reply::Pending) { fail!(self, ["C15", own], "the caller got no answer"); }
        if let Reply::Bad(e) = &reply { fail!(self, ["C22"], "undecodable answer: {e}") }
        if !r.calls.is_empty() { fail!(self, [own], "the reply handler sent another call with {} cycles", r.calls[0].cycles) }
        let mut e = Exp::of(&pre);
        let what = match (p.kind, p.plain) { (Kind::Withdraw, true) => "withdraw", (Kind::Withdraw, false) => "withdraw_from", (_, true) => "create_canister", _ => "create_canister_from" };
        match ret {
            None => {
                self.compare(&e, &pre, pre_len, &[own], &["C16"], &[own]);
                let want = if p.kind == Kind::Create { Some(canister) } else { None };
                match &reply { Reply::Ok(i, c) if *i == BigUint::from(p.block) && *c == want => {}, x => fail!(self, [own], "successful {what} answered {x:?}, expected block {} {want:?}", p.block) }
                if p.kind == Kind::Create { for a in self.acc.iter_mut() { if a.index == p.block { a.canister = Some(canister) } } }
                self.done.push(format!("{what} delivered"));
            }
            Some(n) => {
                let (rb, ab) = self.refund(&mut e, &p, n, pre_len as u64);
                self.compare(&e, &pre, pre_len, &[own], &["C16"], &[]);
                let got = self.blocks.len() - pre_len.min(self.blocks.len());
                if ab.is_some() && got == e.blocks.len() { self.compare(&e, &pre, pre_len, &[], &[], &["C16", own]) }
                else if ab.is_some() { fail!(self, ["C16"], "{got} blocks were recorded, expected refund and approval"); if got == 0 { fail!(self, [own], "no refund was recorded") } }
                else if rb.is_some() && got > 1 && self.blocks[pre_len + 1].kind == BK::Approve { fail!(self, ["C16"], "an allowance was granted although none is due") }
                else { self.compare(&e, &pre, pre_len, &[], &[], &[own]) }
                self.failure(&reply, &p, rb, ab, code, reason.as_deref(), what);
                if rb.is_some() { self.pruned(&pre) }
                self.done.push(format!("{what} failed{}{}", if rb.is_some() { ", refunded" } else { "" }, if ab.is_some() { ", allowance restored" } else { "" }));
            }
        }
        self.common(pre_len);
    }
    fn approve(&mut self, pre: Obs, pre_len: usize, op: &Op) {
        let Op::Approve { caller, sub: sb, spender, amount, expected, expires, fee, memo, created } = op else { unreachable!() };
        let me = Account { owner: owner(*caller), subaccount: sub(*sb) };
        let sp = spender.acct();
        let pair = (me.key(), sp.key());
        self.keys.insert(pair.0); self.pairs.insert(pair);
        let arg = ApproveArg { from_subaccount: me.subaccount, spender: sp, amount: amount.nat(), expected_allowance: expected.as_ref().map(|x| x.nat()), expires_at: *expires, fee: fee.as_ref().map(|x| x.nat()), memo: memo.clone().map(Into::into), created_at_time: *created };
        let r = self.m.exec(Msg::new("canister_update.icrc2_approve", me.owner.as_slice(), encode_one(arg).unwrap(), self.now));
        if !matches!(r.out, Out::Trap(_)) { self.certified = r.certified.clone() }
        self.observe();
        if self.broken { return }
        let a = amount.u().unwrap_or(u128::MAX);
        let bal = pre.bal.get(&pair.0).copied().unwrap_or(0);
        let cur = pre.alw.get(&pair).copied().unwrap_or((0, 0));
        let (fee_u, exp_u) = (fee.as_ref().and_then(|f| f.u()), expected.as_ref().and_then(|f| f.u()));
        let tx = TxId { kind: 2, from: me, to: None, spender: Some(sp), amount: a, fee: fee_u, expected: exp_u, expires: *expires, memo: memo.clone(), created: *created };
        let known = (fee.is_none() || fee_u.is_some()) && (expected.is_none() || exp_u.is_some());
        let (dup, orig) = if known { (self.dup_of(&tx), self.orig(&tx)) } else { (None, None) };
        let ghost = self.ghost_expired(&pair);
        let mut c: BTreeSet<&'static str> = BTreeSet::new();
        if me.owner == sp.owner { c.insert("self"); }
        if [me.owner, sp.owner].contains(&owner(3)) { c.insert("denied"); }
        if expected.as_ref().map(|x| x.big() != BigUint::from(cur.0)).unwrap_or(false) { c.insert("changed"); }
        if fee.as_ref().map(|f| f.big() != BigUint::from(FEE)).unwrap_or(false) { c.insert("badfee"); }
        if bal < FEE { c.insert("funds"); }
        if expires.map(|x| x <= self.now).unwrap_or(false) { c.insert("expired"); }
        if memo.as_ref().map(|m| m.len() > 32).unwrap_or(false) { c.insert("memo"); }
        if let Some(x) = self.window(*created) { c.insert(x); }
        if dup.is_some() { c.insert("dup"); }
        let reply = Self::reply(&r.out, false);
        let now = self.now;
        match &reply {
            Reply::Ok(i, _) => {
                if !c.is_empty() { fail!(self, ["C31"], "approval was carried out although {c:?} speaks against it") }
                for x in &c { let p: &[&'static str] = match *x { "self" | "denied" => &["C26"], "changed" => if ghost { &["C08", "C09"] } else if exp_u.is_none() { &["C08", "C25"] } else { &["C08"] }, "badfee" => &["C27"], "funds" => &["C08", "C25"], "expired" => &["C08"], "memo" => &["C24"], "old" | "future" => &["C12"], _ => &["C11"] }; for p in p { fail!(self, [*p], "approval was executed at {now} although {x} (balance {bal}, current allowance {cur:?}, expected {expected:?}, expires {expires:?}, created {created:?})") } }
                if c.contains("funds") { return }
                let mut e = Exp::of(&pre);
                e.take(pair.0, FEE); e.supply -= FEE;
                e.set(pair, if a == 0 { (0, 0) } else { (a, expires.unwrap_or(0)) });
                e.blocks.push(PBlock { kind: BK::Approve, from: Some(me), to: None, spender: Some(sp), amt: a, txfee: fee_u, fee: if fee.is_none() { Some(FEE) } else { None }, ts: now, memo: memo.clone(), created: *created, expected: exp_u, expires: *expires, phash: None });
                let pk: &[&'static str] = if amount.u().is_none() { &["C08", "C25"] } else { &["C08"] };
                self.compare(&e, &pre, pre_len, &["C08"], pk, pk);
                if *i != BigUint::from(pre_len) { fail!(self, ["C08"], "approval answered block {i}, expected {pre_len}") }
                self.acc.push(Accepted { tx, index: pre_len as u64, canister: None });
                self.pruned(&pre);
                self.done.push("approve".into());
            }
            Reply::Bad(e) => { fail!(self, ["C22"], "approval answered something undecodable: {e}"); self.broken = true; return }
            _ => {
                self.unchanged(&pre, pre_len, &r.calls, "an approval");
                let single = if c.len() == 1 { c.iter().next().copied() } else { None };
                match &reply {
                    Reply::Err(Er::InsufficientFunds { balance }) => if balance.0 != BigUint::from(bal) || !c.contains("funds") { fail!(self, ["C08"], "approval answered InsufficientFunds {balance} with balance {bal}") },
                    Reply::Err(Er::AllowanceChanged { current_allowance }) => if current_allowance.0 != BigUint::from(cur.0) || !c.contains("changed") { fail!(self, ["C08"], "approval answered AllowanceChanged {current_allowance} with {cur:?}"); if ghost { fail!(self, ["C09"], "expired allowance counted as {current_allowance}") } },
                    Reply::Err(Er::Expired { ledger_time }) => if *ledger_time != now || !c.contains("expired") { fail!(self, ["C08"], "approval with expiry {expires:?} answered Expired {ledger_time} at {now}") },
                    Reply::Err(Er::TooOld) => if !c.contains("old") { fail!(self, ["C12"], "approval created at {created:?} answered TooOld at {now}") },
                    Reply::Err(Er::CreatedInFuture { ledger_time }) => if !c.contains("future") || *ledger_time != now { fail!(self, ["C12"], "approval created at {created:?} answered CreatedInFuture {ledger_time} at {now}") },
                    Reply::Err(Er::Duplicate { duplicate_of, .. }) => if orig.as_ref().map(|d| BigUint::from(d.index) != duplicate_of.0).unwrap_or(true) { fail!(self, ["C11"], "approval answered Duplicate {duplicate_of}, the original is {orig:?}") },
                    Reply::Err(Er::BadFee { expected_fee }) => if !c.contains("badfee") || expected_fee.0 != BigUint::from(FEE) { fail!(self, ["C27"], "approval stating fee {fee:?} answered BadFee {expected_fee}") },
                    Reply::Err(Er::GenericError { error_code, .. }) => if error_code.0 == BigUint::from(100_001u32) && !c.contains("denied") { fail!(self, ["C26"], "approval was refused as involving a forbidden party") },
                    _ => {}
                }
                let told = match &reply {
                    Reply::Trap(_) => c.contains("memo") || c.contains("self"),
                    Reply::Err(Er::InsufficientFunds { balance }) => balance.0 == BigUint::from(bal) && c.contains("funds"),
                    Reply::Err(Er::AllowanceChanged { current_allowance }) => current_allowance.0 == BigUint::from(cur.0) && c.contains("changed"),
                    Reply::Err(Er::Expired { ledger_time }) => *ledger_time == now && c.contains("expired"),
                    Reply::Err(Er::TooOld) => c.contains("old"),
                    Reply::Err(Er::CreatedInFuture { ledger_time }) => c.contains("future") && *ledger_time == now,
                    Reply::Err(Er::Duplicate { duplicate_of, .. }) => orig.as_ref().map(|d| BigUint::from(d.index) == duplicate_of.0).unwrap_or(false),
                    Reply::Err(Er::BadFee { expected_fee }) => c.contains("badfee") && expected_fee.0 == BigUint::from(FEE),
                    Reply::Err(Er::GenericError { .. }) => c.contains("denied"),
                    _ => false,
                };
                if !told { fail!(self, ["C31"], "approval was answered {reply:?}; what speaks against it: {c:?} (balance {bal}, allowance {cur:?}, time {now})") }
                let e = match &reply { Reply::Err(e) => Some(e), _ => None };
                let miss = |w: &mut World, p: &[&'static str], x: &str| for p in p { fail!(w, [*p], "approval must be refused with {x}, but answered {reply:?} (only {single:?} speaks against it)") };
                if c.contains("dup") { if !matches!(e, Some(Er::Duplicate { .. })) { miss(self, &["C11"], "Duplicate") } }
                else if c.contains("badfee") && c.iter().all(|x| *x == "badfee" || *x == "funds") { if !matches!(e, Some(Er::BadFee { .. })) { let p: &[&'static str] = if fee_u.is_none() { &["C27", "C25"] } else { &["C27"] }; miss(self, p, "BadFee") } }
                else { match single {
                    Some("changed") => if !matches!(e, Some(Er::AllowanceChanged { .. })) { let p: &[&'static str] = if exp_u.is_none() { &["C08", "C25"] } else { &["C08"] }; miss(self, p, "AllowanceChanged") },
                    Some("funds") => if !matches!(e, Some(Er::InsufficientFunds { .. })) { miss(self, &["C08"], "InsufficientFunds") },
                    Some("expired") => if !matches!(e, Some(Er::Expired { .. })) { miss(self, &["C08"], "Expired") },
                    Some("old") => if e != Some(&Er::TooOld) && !(orig.is_some() && matches!(e, Some(Er::Duplicate { .. }))) { miss(self, &["C12"], "TooOld") },
                    Some("future") => if !matches!(e, Some(Er::CreatedInFuture { .. })) { miss(self, &["C12"], "CreatedInFuture") },
                    _ => {}
                } }
                self.done.push("approve rejected".into());
            }
        }
        self.common(pre_len);
    }
}
pub fn withdraw_memo(p: &Principal) -> Vec<u8> { let b = p.as_slice(); let mut v = vec![0x81]; if b.len() < 24 { v.push(0x40 + b.len() as u8) } else { v.push(0x58); v.push(b.len() as u8) } v.extend_from_slice(b); v }
pub fn creation_args(k: u8) -> Option<CmcArgs> {
    let s = |c: Option<Vec<Principal>>, m: Option<u64>| Some(Settings { controllers: c, memory_allocation: m.map(Nat::from), ..Default::default() });
    match k {
        0 => None,
        1 => Some(CmcArgs { subnet_selection: None, settings: None }),
        2 => Some(CmcArgs { subnet_selection: None, settings: s(None, None) }),
        3 => Some(CmcArgs { subnet_selection: None, settings: s(Some(vec![owner(7), owner(0)]), None) }),
        4 => Some(CmcArgs { subnet_selection: Some(SubnetSelection::Subnet { subnet: owner(10) }), settings: None }),
        5 => Some(CmcArgs { subnet_selection: Some(SubnetSelection::Filter(SubnetFilter { subnet_type: Some("fiduciary".into()) })), settings: s(None, Some(77)) }),
        _ => Some(CmcArgs { subnet_selection: Some(SubnetSelection::Filter(SubnetFilter { subnet_type: None })), settings: s(Some(vec![]), Some(1)) }),
    }
}
fn expected_creation(a: &Option<CmcArgs>, caller: Principal) -> CmcArgs {
    let mut a = a.clone().unwrap_or_default();
    let mut s = a.settings.unwrap_or_default();
    s.controllers = Some(s.controllers.unwrap_or(vec![caller]));
    a.settings = Some(s);
    a
}
