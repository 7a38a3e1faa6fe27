//! Histories chosen step by step from what the ledger reports, so that boundaries are actually hit.
use crate::world::*;
use num_bigint::BigUint;
use num_traits::ToPrimitive;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb); z ^ (z >> 31) }
    pub fn n(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn p(&mut self, pct: u64) -> bool { self.n(100) < pct }
    pub fn of<T: Clone>(&mut self, v: &[T]) -> T { v[self.n(v.len() as u64) as usize].clone() }
}
fn two(p: u32) -> BigUint { BigUint::from(1u8) << p }
fn n(x: BigUint) -> N { N(x.to_string()) }

pub struct Gen { pub r: Rng, prop: String, seen: Vec<Op>, accs: Vec<Acc>, big: bool, clean: bool }
impl Gen {
    pub fn new(prop: &str, seed: u64) -> Gen {
        let mut r = Rng(seed);
        let owners = [0u16, 1, 2, 4, 5, 7, 8, 9, 10];
        let subs = [None, None, None, Some(0u8), Some(1), Some(200), Some(255)];
        let k = 2 + r.n(4);
        let mut accs = vec![];
        for _ in 0..k { let o = r.of(&owners); let s = r.of(&subs); accs.push(Acc(o, s)); }
        if r.p(40) { let a = accs[0]; let s = r.of(&subs); accs.push(Acc(a.0, s)); }
        let big = r.p(12);
        Gen { r, prop: prop.into(), seen: vec![], accs, big, clean: false }
    }
    fn is(&self, l: &[&str]) -> bool { l.contains(&self.prop.as_str()) }
    fn acc(&mut self) -> Acc { if self.r.p(2) { Acc(3, None) } else { let v = self.accs.clone(); self.r.of(&v) } }
    fn caller(&mut self) -> (u16, Option<u8>) { let v = self.accs.clone(); let a = self.r.of(&v); (a.0, a.1) }
    pub fn init(&mut self) -> Scenario {
        let pb = if self.is_init() { 90 } else { 45 };
        let r = &mut self.r;
        let t0 = match r.n(12) { 0 => 5_000_000_000, 1 => WINDOW + DRIFT + r.n(3) - 1, 2 => u64::MAX - 3 * WINDOW, 3 => 100 * WINDOW, _ => 1_700_000_000_000_000_000 + r.n(1_000_000_000) };
        let max = r.of(&[1, 2, 3, 5, 100, 100, 1000]);
        let balances = if self.r.p(pb) {
            let k = self.r.n(3); let mut v = vec![];
            for i in 0..k { let a = self.acc(); let x: u128 = if self.big && i == 0 { u128::MAX - self.r.of(&[0u128, 1, FEE, FEE + 1, 2 * FEE, 10 * FEE, 50 * FEE]) } else if self.big { 0 } else { self.r.of(&[0u128, 1, FEE, 5 * FEE, 30 * FEE, 1 << 70]) }; v.push((a, x.into())); }
            Some(v)
        } else { None };
        let index = if self.r.p(40) { Some(self.r.of(&[0u16, 1, 5])) } else { None };
        Scenario { t0, bad_init: self.is_init() && self.r.p(20), max, index, balances, ops: vec![] }
    }
    fn is_init(&self) -> bool { self.is(&["C29", "C23"]) }
    fn memo(&mut self) -> Option<Vec<u8>> {
        let hot = self.is(&["C24", "C06", "C20"]);
        if self.clean { return match self.r.n(if hot { 5 } else { 10 }) { 0 => Some(vec![]), 1 => Some(vec![self.r.n(3) as u8; 1 + self.r.n(32) as usize]), 2 => Some((0..32).collect()), _ => None } }
        match self.r.n(if hot { 8 } else { 16 }) { 0 => Some(vec![]), 1 => Some(vec![7]), 2 => Some((0..32).collect()), 3 => Some(vec![9; 33]), 4 => Some(self.r.of(&[vec![0xff; 32], vec![0xfe; 32], vec![0xfd; 32]])), 5 => Some(vec![3; self.r.n(40) as usize]), 6 => { let k = self.r.of(&[64usize, 288, 256, 32]); Some(vec![1; k]) }, _ => None }
    }
    fn amount(&mut self, bal: u128, alw: Option<u128>) -> N {
        let f = FEE;
        let w = |x: u128, d: i64| -> N { if d < 0 { x.saturating_sub((-d) as u128).into() } else { x.saturating_add(d as u128).into() } };
        let d = self.r.of(&[-1i64, 0, 0, 1]);
        let d2 = self.r.of(&[0u128, 1, 1000, FEE]);
        if self.clean {
            let top = bal.min(alw.unwrap_or(bal)).saturating_sub(f);
            let x = match self.r.n(8) { 0 => top, 1 => top.saturating_sub(1), 2 => 1, 3 => f, 4 => 3 * f, 5 => 4 * f, 6 => top / 2, _ => (self.r.next() as u128) << self.r.n(40) };
            return (if top == 0 { x } else { x.min(top) }).max(1).into()
        }
        match self.r.n(24) {
            0 => 0u128.into(),
            1 => self.r.of(&[1u128, 2, 10]).into(),
            2 => w(f, d), 3 => w(2 * f, d), 4 => w(3 * f, d),
            5 | 6 => w(bal.saturating_sub(f), d), 7 => w(bal, d),
            8 => w(bal.saturating_sub(2 * f), d),
            9 | 10 => w(alw.unwrap_or(bal).saturating_sub(f), d), 11 => w(alw.unwrap_or(bal), d),
            12 => w(u128::MAX, 0), 13 => (u128::MAX - f + d2.min(f)).into(),
            14 => n(two(128) + d2), 15 => n(two(self.r.of(&[129, 130, 192])) + self.r.of(&[0u128, 5, 1000, FEE])),
            16 => n(two(64) + BigUint::from(d2)),
            17 | 18 => w(f * (4 + self.r.n(5) as u128), d),
            _ => { let top = (bal / 2).clamp(1, 1 << 100); let x = (self.r.next() as u128) << self.r.n(30); (x % top + self.r.of(&[0u128, 1, FEE])).into() }
        }
    }
    fn fee(&mut self) -> Option<N> {
        let hot = self.is(&["C27", "C25", "C02"]);
        if self.r.p(if hot { 35 } else { 60 }) { return None }
        if self.clean { return Some(FEE.into()) }
        Some(match self.r.n(if hot { 6 } else { 14 }) { 0 => (FEE - 1).into(), 1 => (FEE + 1).into(), 2 => 0u128.into(), 3 => n(two(128) + FEE), 4 => n(two(64) + FEE), _ => FEE.into() })
    }
    fn created(&mut self, now: u64) -> Option<u64> {
        let hot = self.is(&["C11", "C12"]);
        if self.r.p(if hot { 15 } else { 60 }) { return None }
        let w = WINDOW + DRIFT;
        if self.clean { return Some(match self.r.n(6) { 0 => now.saturating_sub(w), 1 => now.saturating_add(DRIFT), 2 => now.saturating_sub(self.r.n(WINDOW)), _ => now }) }
        Some(match self.r.n(14) { 0 => now.saturating_sub(w), 1 => now.saturating_sub(w + 1), 2 => now.saturating_sub(w - 1), 3 => now.saturating_add(DRIFT), 4 => now.saturating_add(DRIFT + 1), 5 => now.saturating_add(DRIFT - 1), 6 => now.saturating_sub(self.r.of(&[WINDOW, DRIFT, 1])), 7 => 0, 8 => u64::MAX, 9 => self.r.of(&[w, w - 1, DRIFT, u64::MAX - w, u64::MAX - DRIFT]), 10 => now.saturating_sub(self.r.n(w)), _ => now })
    }
    fn time(&mut self, w: &World) -> u64 {
        let now = w.now;
        let mut c: Vec<u64> = vec![now.saturating_add(1), now.saturating_add(1_000_000_000), now.saturating_add(DRIFT), now.saturating_add(DRIFT + 1), now.saturating_add(3_600_000_000_000), now.saturating_add(WINDOW), now.saturating_add(WINDOW + DRIFT), now.saturating_add(WINDOW + DRIFT + 1)];
        for _ in 0..3 {
            for v in w.obs.alw.values().filter(|v| v.0 > 0 && v.1 > now) { c.push(v.1); c.push(v.1 - 1); c.push(v.1.saturating_add(1)); }
            for a in &w.acc { if let Some(t) = a.tx.created { for d in [WINDOW + DRIFT, WINDOW + DRIFT + 1, WINDOW + DRIFT - 1, WINDOW, WINDOW - DRIFT] { let x = t.saturating_add(d); if x > now { c.push(x) } } } }
        }
        self.r.of(&c).min(u64::MAX - 2 * WINDOW)
    }
    fn pair(&mut self, w: &World) -> Option<(Acc, Acc)> {
        // an account and a spender with an allowance (also an expired or spent one)
        let v = self.accs.clone();
        let mut c = vec![];
        for a in &v { for b in &v { if let Some(x) = w.obs.alw.get(&(a.key(), b.key())) { c.push((*a, *b)); if x.0 > 0 { c.push((*a, *b)); c.push((*a, *b)); c.push((*a, *b)) } } } }
        if c.is_empty() { None } else { Some(self.r.of(&c)) }
    }
    fn payer(&mut self, w: &World) -> Acc { let mut b = self.caller(); for _ in 0..3 { if w.obs.bal.get(&Acc(b.0, b.1).key()).copied().unwrap_or(0) < 3 * FEE { b = self.caller() } } Acc(b.0, b.1) }
    pub fn op(&mut self, w: &World) -> Op {
        let o = self.choose(w);
        if !matches!(o, Op::Reply { .. } | Op::Advance { .. } | Op::Upgrade { .. } | Op::BadUpgrade | Op::Bulk { .. }) { self.seen.push(o.clone()) }
        o
    }
    fn choose(&mut self, w: &World) -> Op {
        self.clean = self.r.p(60);
        let bal = |a: &Acc| w.obs.bal.get(&a.key()).copied().unwrap_or(0);
        let rich: u128 = self.accs.iter().map(bal).max().unwrap_or(0);
        let p = w.pend.len() as u64;
        let mut wt = [8u64, 40, 20, if p > 0 { 14 + 6 * p } else { 0 }, 14, 3, 3, if p == 0 { 3 } else { 0 }, 0, 12, 0];
        if rich < 20 * FEE { wt[0] = 70 }
        if w.blocks.len() < 4 { wt[0] += 20 }
        match self.prop.as_str() {
            "C07" | "C08" | "C09" | "C16" => { wt[2] = 30; wt[4] = 20 }
            "C10" => { wt[2] = 35; wt[4] = 25; wt[10] = 4 }
            "C11" | "C12" => { wt[9] = 30; wt[4] = 22 }
            "C17" => { wt[0] = 40 }
            "C18" => { wt[5] = 35 }
            "C19" => { wt[6] = 30; wt[2] = 40; wt[10] = 3 }
            "C23" => { if p == 0 { wt[7] = 20 } wt[8] = 1 }
            "C29" => { if p == 0 { wt[7] = 25; wt[8] = 5 } }
            "C13" | "C14" | "C15" => { if p > 0 { wt[3] += 10 } }
            _ => {}
        }
        if p == 0 { wt[8] = wt[8].max(if self.r.p(5) { 1 } else { 0 }) }
        if self.seen.is_empty() { wt[9] = 0 }
        let tot: u64 = wt.iter().sum();
        let mut x = self.r.n(tot);
        let mut k = 0;
        while x >= wt[k] { x -= wt[k]; k += 1 }
        match k {
            0 => {
                let room = w.headroom();
                let top = u128::MAX - bal(&self.accs[0]);
                let cycles: N = match self.r.n(14) { 0 => 0u128.into(), 1 => FEE.into(), 2 => (FEE + 1).into(), 3 => (FEE - 1).into(), 4 if self.big => room.saturating_add(self.r.of(&[0, FEE, FEE - 1, FEE + 1])).into(), 5 if self.big => room.saturating_sub(self.r.of(&[0, FEE, 3 * FEE])).into(), 6 if self.big => u128::MAX.into(), 7 if self.big => top.into(), 8 => (1u128 << 64).into(), 9 => (2 * FEE).into(), _ => (FEE * self.r.of(&[2, 3, 5, 8, 20, 100, 1000])).into() };
                Op::Deposit { caller: self.caller().0, to: self.acc(), cycles, memo: self.memo() }
            }
            1 => {
                let kind = match self.prop.as_str() { "C13" | "C28" => self.r.of(&[Kind::Withdraw, Kind::Withdraw, Kind::Transfer]), "C14" => self.r.of(&[Kind::Create, Kind::Create, Kind::Transfer]), "C15" | "C16" => self.r.of(&[Kind::Withdraw, Kind::Create]), "C05" | "C26" | "C27" => self.r.of(&[Kind::Transfer, Kind::Transfer, Kind::Transfer, Kind::Withdraw, Kind::Create]), _ => self.r.of(&[Kind::Transfer, Kind::Transfer, Kind::Withdraw, Kind::Create]) };
                let hot = self.is(&["C07", "C09", "C16"]);
                let (from, me) = if self.r.p(if hot { 80 } else { 45 }) {
                    match self.pair(w) { Some((a, b)) if self.clean || self.r.p(85) => (Some(a), b), None if self.clean => (None, self.payer(w)), _ => { let a = self.acc(); let b = self.caller(); (Some(a), Acc(b.0, b.1)) } }
                } else { (None, self.payer(w)) };
                let me = if me.0 == 3 { let b = self.caller(); Acc(b.0, b.1) } else { me };
                let from = if from.is_none() && self.r.p(10) { Some(me) } else { from };
                let payer = from.unwrap_or(me);
                let alw = w.obs.alw.get(&(payer.key(), me.key())).map(|x| x.0).filter(|_| from.is_some());
                let to = if kind == Kind::Withdraw && self.r.p(if self.prop == "C28" { 50 } else { 88 }) { Acc(self.r.of(&[1u16, 7, 5, 2, 10, 30, 31]), None) } else if self.r.p(8) { payer } else { self.acc() };
                let fee = if kind == Kind::Transfer { self.fee() } else { None };
                let memo = if kind == Kind::Transfer { self.memo() } else { None };
                let now = w.now;
                Op::Pay { kind, caller: me.0, sub: me.1, from, to, amount: self.amount(bal(&payer), alw), fee, memo, created: self.created(now), args: self.r.n(7) as u8, fail: if self.r.p(8) { 1 + self.r.n(2) as u8 } else { 0 } }
            }
            2 => {
                let old = self.pair(w).filter(|_| self.r.p(50));
                let (me, sp) = match old { Some((a, b)) => (a, b), None => { let a = self.payer(w); let s = self.acc(); (a, if s.0 == a.0 && self.r.p(80) { let o = self.r.of(&[0u16, 1, 5, 7, 30, 31, 32]); Acc(o, s.1) } else { s }) } };
                if self.accs.iter().all(|x| *x != sp) && self.accs.len() < 8 && sp.0 != 3 { self.accs.push(sp) }
                let me = if me.0 == 3 { let b = self.caller(); Acc(b.0, b.1) } else { me };
                let cur = w.obs.alw.get(&(me.key(), sp.key())).copied().unwrap_or((0, 0));
                let now = w.now;
                let expected = if self.r.p(60) { None } else { Some(match if self.clean { 6 } else { self.r.n(7) } { 0 => n(BigUint::from(cur.0) + 1u8), 1 => cur.0.saturating_sub(1).into(), 2 => 0u128.into(), 3 => n(two(128)), 4 => n(two(128) + cur.0), _ => cur.0.into() }) };
                let expires = match if self.clean { 2 + self.r.n(10) } else { self.r.n(12) } { 0 => Some(now.saturating_sub(1)), 1 => Some(now), 2 => Some(now.saturating_add(1)), 3 => Some(now.saturating_add(1000)), 4 | 5 => Some(now.saturating_add(3_600_000_000_000)), 6 => Some(u64::MAX), 7 if !self.clean => Some(0), 8 => { let v: Vec<u64> = w.obs.alw.values().map(|x| x.1).filter(|x| *x > now).collect(); if v.is_empty() { None } else { Some(self.r.of(&v)) } }, _ => None };
                let amount = if self.r.p(35) { (FEE * self.r.of(&[3, 5, 10, 40]) + self.r.n(3) as u128).into() } else if self.r.p(10) { u128::MAX.into() } else { self.amount(bal(&me), Some(cur.0)) };
                Op::Approve { caller: me.0, sub: me.1, spender: sp, amount, expected, expires, fee: self.fee(), memo: self.memo(), created: self.created(now) }
            }
            3 => {
                let ans = match self.r.n(10) { 0 | 1 | 2 => Ans::Ok, 3 | 4 => Ans::Reject(self.r.of(&[1, 2, 3, 4, 5, 4, 5]), self.r.of(&["nope", "", "out of cycles: please top up"]).into()), 5 => Ans::Garbage, 6 | 7 => { let q = w.pend.iter().map(|p| p.amount).max().unwrap_or(0); Ans::Refunded(self.r.of(&[0, 1, FEE - 1, FEE, FEE + 1, 2 * FEE, 2 * FEE + 1, 2 * FEE - 1, 3 * FEE, q, q.saturating_sub(1), q / 2]).into()) }, 8 => Ans::RefundFailed, _ => Ans::Reject(5, "trap".into()) };
                Op::Reply { nth: self.r.n(p) as usize, ans }
            }
            4 => Op::Advance { to: self.time(w) },
            5 => {
                let len = w.blocks.len() as u64; let max = w.obs.max;
                let k = self.r.n(4); let mut v = vec![];
                for _ in 0..k {
                    let s: N = match self.r.n(8) { 0 => 0u128.into(), 1 => ((len.saturating_sub(1)) as u128).into(), 2 => (len as u128).into(), 3 => (u64::MAX as u128).into(), 4 => n(two(64) + self.r.n(3)), _ => (self.r.n(len + 2) as u128).into() };
                    let l: N = match self.r.n(9) { 0 => 0u128.into(), 1 => (max as u128).into(), 2 => ((max + 1) as u128).into(), 3 => (u64::MAX as u128).into(), 4 => n(two(64)), 5 => (len as u128).into(), 6 => n(two(100)), _ => (self.r.n(len + 2) as u128).into() };
                    v.push((s, l));
                }
                Op::Blocks { ranges: v }
            }
            6 => {
                let v = self.accs.clone();
                let pr = self.pair(w);
                let from = if self.r.p(25) { None } else { Some(match pr { Some((a, _)) if self.r.p(70) => Acc(a.0, self.r.of(&[a.1, a.1, None])), _ => self.r.of(&v) }) };
                let prev = if self.r.p(45) { None } else { Some(match pr { Some((_, b)) if self.r.p(60) => b, _ => { let a = self.r.of(&v); if self.r.p(20) { Acc(100 + self.r.n(500) as u16, None) } else { a } } }) };
                let take = match self.r.n(10) { 0 => Some(0u128.into()), 1 => Some(1u128.into()), 2 => Some(2u128.into()), 3 => Some(500u128.into()), 4 => Some(501u128.into()), 5 => Some((u64::MAX as u128).into()), 6 => Some(n(two(64) + self.r.n(4))), 7 => Some(3u128.into()), _ => None };
                Op::Listing { caller: self.caller().0, from, prev, take }
            }
            7 => Op::Upgrade { none: self.r.p(30), max: if self.r.p(40) { Some(self.r.of(&[1, 2, 3, 7, 100, 250])) } else { None }, index: if self.r.p(40) { Some(if self.r.p(30) { None } else { Some(self.r.of(&[0u16, 1, 7])) }) } else { None } },
            8 => Op::BadUpgrade,
            9 => {
                let v = self.seen.clone();
                let o = self.r.of(&v);
                if !self.r.p(25) { return o }
                // the same request with one detail changed
                match o {
                    Op::Pay { kind, caller, sub, from, to, amount, fee, memo, created, args, fail } => {
                        let now = w.now;
                        match self.r.n(6) { 0 => Op::Pay { kind, caller, sub, from, to, amount, fee: self.fee(), memo, created, args, fail }, 1 => Op::Pay { kind, caller, sub, from, to, amount, fee, memo: self.memo(), created, args, fail }, 2 => Op::Pay { kind, caller, sub, from, to, amount, fee, memo, created: self.created(now), args, fail }, 3 => Op::Pay { kind, caller, sub: if sub.is_none() { Some(0) } else if sub == Some(0) { None } else { sub }, from, to, amount, fee, memo, created, args, fail }, 4 => Op::Pay { kind, caller, sub, from: if from.is_none() { Some(Acc(caller, sub)) } else { None }, to, amount, fee, memo, created, args, fail }, _ => { let to = self.acc(); Op::Pay { kind, caller, sub, from, to, amount, fee, memo, created, args, fail: 0 } } }
                    }
                    x => x,
                }
            }
            _ => {
                let (c, s) = self.caller();
                let now = w.now;
                let k = if self.prop == "C19" { self.r.of(&[30u16, 502, 510]) } else { self.r.of(&[20u16, 99, 100, 101, 130, 205]) };
                Op::Bulk { caller: c, sub: s, first: self.r.of(&[0u16, 600]), n: k, expires: if self.prop == "C19" && self.r.p(60) { None } else { Some(now.saturating_add(self.r.of(&[1u64, 1000, 3_600_000_000_000]))) } }
            }
        }
    }
}
#[allow(dead_code)]
fn _u(x: BigUint) -> Option<u64> { x.to_u64() }
