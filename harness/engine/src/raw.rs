//! One canister instance = one thread (all of the canister's state is thread-local) plus its stable memory.
//! Messages are executed one at a time; a trapping message is undone by replaying the history without it.
use ic0::sys::{m, Mem, Mock, Trap};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::{channel, Receiver, Sender};

pub type Entry = unsafe fn();
#[derive(Clone, Copy)]
pub struct Table { pub f: &'static [(&'static str, Entry)] }
impl Table { pub fn get(&self, n: &str) -> Entry { self.f.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("no entry {n}")).1 } }

#[derive(Clone, Debug)]
pub enum What { Entry(&'static str), Callback { call: usize, reject: u32, msg: String } }
#[derive(Clone, Debug)]
pub struct Msg { pub what: What, pub caller: Vec<u8>, pub arg: Vec<u8>, pub time: u64, pub avail: u128, pub liquid_low: bool, pub perform_fail: bool }
impl Msg { pub fn new(e: &'static str, caller: &[u8], arg: Vec<u8>, time: u64) -> Msg { Msg { what: What::Entry(e), caller: caller.to_vec(), arg, time, avail: 0, liquid_low: false, perform_fail: false } } }
#[derive(Clone, Debug, PartialEq)]
pub enum Out { Reply(Vec<u8>), Reject(String), Pending, Trap(String) }
#[derive(Clone, Debug, PartialEq)]
pub struct CallInfo { pub id: usize, pub callee: Vec<u8>, pub method: String, pub arg: Vec<u8>, pub cycles: u128 }
#[derive(Clone, Debug)]
pub struct Res { pub out: Out, pub accepted: u128, pub calls: Vec<CallInfo>, pub certified: Option<Vec<u8>> }

enum Cmd { Run(Vec<Msg>), Take }
enum Ans { Res(Vec<Res>), Mem(Mem, Option<Vec<u8>>) }
struct Worker { tx: Sender<Cmd>, rx: Receiver<Ans>, h: Option<std::thread::JoinHandle<()>> }

fn body(t: Table, mem: Mem, cert: Option<Vec<u8>>, rx: Receiver<Cmd>, tx: Sender<Ans>) {
    m(|x| { *x = Mock::default(); x.mem = Some(mem); x.certified = cert });
    let mut calls: HashMap<usize, ic0::sys::Call> = HashMap::new();
    let mut next = 0usize;
    while let Ok(c) = rx.recv() {
        match c {
            Cmd::Run(ms) => {
                let mut rs = vec![];
                for ms in ms {
                    m(|x| {
                        x.time = ms.time; x.caller = ms.caller.clone(); x.arg = ms.arg.clone(); x.reject_code = 0; x.reject_msg.clear();
                        x.reply.clear(); x.replied = false; x.rejected = None; x.avail = ms.avail; x.accepted = 0; x.refunded = 0;
                        x.liquid_low = ms.liquid_low; x.perform_fail = ms.perform_fail; x.building = None; x.calls.clear(); x.query = false; x.certificate = None;
                    });
                    let r = match &ms.what {
                        What::Entry(e) => {
                            if e.starts_with("canister_query") { m(|x| { x.query = true; x.certificate = Some(b"certificate".to_vec()) }) }
                            let f = t.get(e);
                            catch_unwind(AssertUnwindSafe(|| unsafe { f() }))
                        }
                        What::Callback { call, reject, msg } => {
                            let c = calls.remove(call).expect("call answered twice");
                            m(|x| { x.reject_code = *reject; x.reject_msg = msg.clone() });
                            let (f, e) = if *reject == 0 { (c.reply_fun, c.reply_env) } else { (c.reject_fun, c.reject_env) };
                            let f: unsafe extern "C-unwind" fn(usize) = unsafe { std::mem::transmute(f) };
                            catch_unwind(AssertUnwindSafe(|| unsafe { f(e) }))
                        }
                    };
                    let res = m(|x| {
                        let out = match r {
                            Err(p) => Out::Trap(if let Some(t) = p.downcast_ref::<Trap>() { t.0.clone() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }),
                            Ok(()) => if x.replied { Out::Reply(std::mem::take(&mut x.reply)) } else if let Some(e) = x.rejected.take() { Out::Reject(e) } else { Out::Pending },
                        };
                        let mut infos = vec![];
                        if !matches!(out, Out::Trap(_)) {
                            for c in x.calls.drain(..) {
                                infos.push(CallInfo { id: next, callee: c.callee.clone(), method: c.method.clone(), arg: c.arg.clone(), cycles: c.cycles });
                                calls.insert(next, c);
                                next += 1;
                            }
                        }
                        Res { out, accepted: x.accepted, calls: infos, certified: x.certified.clone() }
                    });
                    let stop = matches!(res.out, Out::Trap(_)) && !matches!(ms.what, What::Entry(e) if e.starts_with("canister_query"));
                    rs.push(res);
                    if stop { break }
                }
                if tx.send(Ans::Res(rs)).is_err() { break }
            }
            Cmd::Take => { let (a, b) = m(|x| (x.mem.take().unwrap(), x.certified.take())); let _ = tx.send(Ans::Mem(a, b)); break }
        }
    }
    ic_cdk_executor::forget_tasks();
}
fn spawn(t: Table, mem: Mem, cert: Option<Vec<u8>>) -> Worker {
    let (tx, r) = channel(); let (s, rx) = channel();
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || body(t, mem, cert, r, s)).unwrap();
    Worker { tx, rx, h: Some(h) }
}
impl Worker {
    fn run(&self, ms: Vec<Msg>) -> Vec<Res> { self.tx.send(Cmd::Run(ms)).unwrap(); match self.rx.recv() { Ok(Ans::Res(r)) => r, _ => panic!("worker died") } }
    fn take(mut self) -> (Mem, Option<Vec<u8>>) { self.tx.send(Cmd::Take).unwrap(); let r = match self.rx.recv() { Ok(Ans::Mem(a, b)) => (a, b), _ => panic!("worker died") }; let _ = self.h.take().unwrap().join(); r }
}
#[derive(Clone)]
enum Ev { Msg(Msg), Upgrade(Msg) }
pub struct Machine { t: Table, w: Option<Worker>, log: Vec<Ev>, pub calls: u64 }
impl Machine {
    pub fn new(t: Table) -> Machine { Machine { t, w: Some(spawn(t, Mem::new(), None)), log: vec![], calls: 0 } }
    fn rebuild(&mut self) {
        self.w = None;
        let mut w = spawn(self.t, Mem::new(), None);
        for e in self.log.clone() {
            let ms = match e { Ev::Msg(m) => m, Ev::Upgrade(m) => { let (mem, c) = w.take(); w = spawn(self.t, mem, c); m } };
            let r = w.run(vec![ms]);
            assert!(!matches!(r[0].out, Out::Trap(_)), "replay trapped");
        }
        self.w = Some(w);
    }
    /// state-changing message; undone when it traps
    pub fn exec(&mut self, ms: Msg) -> Res {
        self.calls += 1;
        let r = self.w.as_ref().unwrap().run(vec![ms.clone()]).remove(0);
        if matches!(r.out, Out::Trap(_)) { self.rebuild() } else { self.log.push(Ev::Msg(ms)) }
        r
    }
    pub fn upgrade(&mut self, ms: Msg) -> Res {
        self.calls += 1;
        let (mem, c) = self.w.take().unwrap().take();
        self.w = Some(spawn(self.t, mem, c));
        let r = self.w.as_ref().unwrap().run(vec![ms.clone()]).remove(0);
        if matches!(r.out, Out::Trap(_)) { self.rebuild() } else { self.log.push(Ev::Upgrade(ms)) }
        r
    }
    pub fn query(&mut self, ms: Vec<Msg>) -> Vec<Out> { self.calls += ms.len() as u64; self.w.as_ref().unwrap().run(ms).into_iter().map(|r| r.out).collect() }
}
impl Drop for Machine { fn drop(&mut self) { if let Some(w) = self.w.take() { drop(w.tx); } } }
