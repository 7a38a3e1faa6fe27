// ============================================================================================
// TRUSTED PRELUDE: contracts of everything outside cycles-ledger/src (external crates, the IC
// system API, std). Every `external_body`, `uninterp` and `axiom` in this file is an assumption;
// the driver counts and lists them in the evidence of each run.
// ============================================================================================
pub mod ext {
use vstd::prelude::*;
verus! {

// ---------------------------------------------------------------- strings
// Strings are abstract tokens: equal text <=> equal token. Literals get injective token numbers
// (checked by the translator); formatted strings are arbitrary tokens.
#[derive(Clone, Copy)]
pub struct Str { pub id: u64 }
#[verifier::external_body]
pub fn fmt_str() -> Str { unimplemented!() }
impl Str {
    pub fn as_str(&self) -> (r: Str) ensures r == *self { *self }
    pub fn to_string(&self) -> (r: Str) ensures r == *self { *self }
}

// ---------------------------------------------------------------- generic helpers
pub enum Ctl<R, V> { Ret(R), Val(V) }

pub trait Dup: Sized { fn dup(&self) -> (r: Self) ensures r == *self; }
impl<T> Dup for T {
    #[verifier::external_body]
    fn dup(&self) -> (r: Self) { unimplemented!() }
}

pub trait VEq { spec fn veq_spec(&self, o: &Self) -> bool; fn veq(&self, o: &Self) -> (r: bool) ensures r == self.veq_spec(o); }
impl VEq for u8 { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VEq for u32 { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VEq for u64 { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VEq for u128 { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VEq for usize { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VEq for bool { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VEq for Str { open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o } fn veq(&self, o: &Self) -> (r: bool) { self.id == o.id } }
impl VEq for [u8; 32] {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl VEq for candid::Principal {
    open spec fn veq_spec(&self, o: &Self) -> bool { *self == *o }
    #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
// icrc_ledger_types: two accounts are equal when owner and *effective* subaccount are equal
impl VEq for icrc_ledger_types::icrc1::account::Account {
    open spec fn veq_spec(&self, o: &Self) -> bool { crate::ext::akey(*self) == crate::ext::akey(*o) }
    #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl VEq for candid::Nat {
    open spec fn veq_spec(&self, o: &Self) -> bool { self@ == o@ }
    #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl<T: VEq> VEq for &T { open spec fn veq_spec(&self, o: &Self) -> bool { (**self).veq_spec(*o) } fn veq(&self, o: &Self) -> (r: bool) { (**self).veq(*o) } }
impl<T: VEq> VEq for Option<T> {
    open spec fn veq_spec(&self, o: &Self) -> bool {
        match (*self, *o) { (Some(a), Some(b)) => a.veq_spec(&b), (None, None) => true, _ => false }
    }
    fn veq(&self, o: &Self) -> (r: bool) {
        match (self, o) { (Some(a), Some(b)) => a.veq(b), (None, None) => true, _ => false }
    }
}
impl<A: VEq, B: VEq> VEq for (A, B) {
    open spec fn veq_spec(&self, o: &Self) -> bool { self.0.veq_spec(&o.0) && self.1.veq_spec(&o.1) }
    fn veq(&self, o: &Self) -> (r: bool) { self.0.veq(&o.0) && self.1.veq(&o.1) }
}

pub trait Dflt: Sized { spec fn dflt() -> Self; fn default_() -> (r: Self) ensures r == Self::dflt(); }
impl Dflt for u64 { open spec fn dflt() -> Self { 0 } fn default_() -> (r: Self) { 0 } }
impl Dflt for u128 { open spec fn dflt() -> Self { 0 } fn default_() -> (r: Self) { 0 } }
impl Dflt for usize { open spec fn dflt() -> Self { 0 } fn default_() -> (r: Self) { 0 } }
impl Dflt for bool { open spec fn dflt() -> Self { false } fn default_() -> (r: Self) { false } }
pub uninterp spec fn nat_zero() -> candid::Nat;
pub broadcast axiom fn nat_zero_is() ensures #[trigger] nat_zero()@ == 0;
impl Dflt for candid::Nat { open spec fn dflt() -> Self { nat_zero() } #[verifier::external_body] fn default_() -> (r: Self) { unimplemented!() } }
impl<T> Dflt for Option<T> { open spec fn dflt() -> Self { None } fn default_() -> (r: Self) { None } }
impl<A: Dflt, B: Dflt> Dflt for (A, B) { open spec fn dflt() -> Self { (A::dflt(), B::dflt()) } fn default_() -> (r: Self) { (A::default_(), B::default_()) } }

// From/Into conversions (`?` on Result included)
pub trait Conv<T>: Sized {
    spec fn conv_req(self) -> bool;
    spec fn conv_ens(self, r: T) -> bool;
    fn conv(self) -> (r: T) requires self.conv_req() ensures self.conv_ens(r);
}
impl<T> Conv<T> for T { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: T) -> bool { r == self } fn conv(self) -> (r: T) { self } }
impl Conv<candid::Nat> for u128 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: candid::Nat) -> bool { r@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: candid::Nat) { unimplemented!() } }
impl Conv<candid::Nat> for u64 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: candid::Nat) -> bool { r@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: candid::Nat) { unimplemented!() } }
impl Conv<candid::Nat> for u32 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: candid::Nat) -> bool { r@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: candid::Nat) { unimplemented!() } }
impl Conv<candid::Nat> for u8 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: candid::Nat) -> bool { r@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: candid::Nat) { unimplemented!() } }
impl Conv<candid::Nat> for usize { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: candid::Nat) -> bool { r@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: candid::Nat) { unimplemented!() } }
impl Conv<u64> for u32 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: u64) -> bool { r == self } fn conv(self) -> (r: u64) { self as u64 } }
impl Conv<u128> for u64 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: u128) -> bool { r == self } fn conv(self) -> (r: u128) { self as u128 } }
impl Conv<u128> for u32 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: u128) -> bool { r == self } fn conv(self) -> (r: u128) { self as u128 } }
impl<const N: usize> Conv<serde_bytes::ByteBuf> for [u8; N] { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: serde_bytes::ByteBuf) -> bool { r@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }
impl Conv<serde_bytes::ByteBuf> for Vec<u8> { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: serde_bytes::ByteBuf) -> bool { r@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }
impl Conv<icrc_ledger_types::icrc1::transfer::Memo> for serde_bytes::ByteBuf {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc1::transfer::Memo) -> bool { r.0 == self }
    fn conv(self) -> (r: icrc_ledger_types::icrc1::transfer::Memo) { icrc_ledger_types::icrc1::transfer::Memo(self) } }
impl Conv<icrc_ledger_types::icrc1::transfer::Memo> for Vec<u8> {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc1::transfer::Memo) -> bool { r.0@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc1::transfer::Memo) { unimplemented!() } }

// iteration
pub trait VIter: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    spec fn pos(&self) -> int;
    fn vnext(&mut self) -> (r: Option<Self::Item>)
        ensures
            final(self).items() == old(self).items(),
            0 <= old(self).pos() <= old(self).items().len(),
            match r {
                Some(x) => old(self).pos() < old(self).items().len() && x == old(self).items()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).items().len() && final(self).pos() == old(self).pos(),
            };
}
#[verifier::external_body]
pub fn idx<I: VIter>(i: &I) -> (r: usize) ensures r as int == i.pos() - 1 { unimplemented!() }
// a local that a loop counts up to another one is an iterator over the numbers between them
pub trait CtrSeq: Sized { spec fn civ(&self) -> int; spec fn ctr_seq(a: Self, b: Self) -> Seq<Self>; fn ctr(a: Self, b: Self) -> (r: Ghost<Seq<Self>>) ensures r@ == Self::ctr_seq(a, b); fn ctr0(a: Self) -> (r: Ghost<Self>) ensures r@ == a; }
impl CtrSeq for u64 { open spec fn civ(&self) -> int { *self as int } open spec fn ctr_seq(a: u64, b: u64) -> Seq<u64> { (a..b).seq_of() } fn ctr(a: u64, b: u64) -> (r: Ghost<Seq<u64>>) { Ghost(Self::ctr_seq(a, b)) } fn ctr0(a: u64) -> (r: Ghost<u64>) { Ghost(a) } }
impl CtrSeq for usize { open spec fn civ(&self) -> int { *self as int } open spec fn ctr_seq(a: usize, b: usize) -> Seq<usize> { (a..b).seq_of() } fn ctr(a: usize, b: usize) -> (r: Ghost<Seq<usize>>) { Ghost(Self::ctr_seq(a, b)) } fn ctr0(a: usize) -> (r: Ghost<usize>) { Ghost(a) } }
pub ghost struct CtrAt<T> { pub s: Seq<T>, pub x0: T, pub x: T }
pub open spec fn ctr_at<T>(s: Seq<T>, x0: T, x: T) -> CtrAt<T> { CtrAt { s, x0, x } }
impl<T: CtrSeq> CtrAt<T> {
    pub open spec fn pos(&self) -> int { self.x.civ() - self.x0.civ() }
    pub open spec fn items(&self) -> Seq<T> { self.s }
}
pub fn touch<T>(x: &mut T) ensures *final(x) == *old(x) {}
#[verifier::external_body]
pub fn opt_slot<T>(o: &mut Option<T>) -> (r: &mut T) requires *old(o) is Some ensures *r == old(o)->0, *final(o) == Some(*final(r)) { o.as_mut().unwrap() }
pub fn opt_take<T>(o: &mut Option<T>) -> (r: Option<T>) ensures r == *old(o), *final(o) is None { o.take() }
#[verifier::external_body]
pub fn opt_replace<T>(o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x) { o.replace(x) }
#[verifier::external_body]
pub fn mem_replace<T>(o: &mut T, x: T) -> (r: T) ensures r == *old(o), *final(o) == x { core::mem::replace(o, x) }
pub fn mem_take<T: Dflt>(o: &mut T) -> (r: T) ensures r == *old(o), *final(o) == T::dflt() { mem_replace(o, T::default_()) }
#[verifier::external_body]
pub fn mem_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
#[verifier::external_body]
pub fn vcmp<T: VInt>(a: T, b: T) -> (r: xstd::cmp::Ordering) ensures r is Less <==> a.v() < b.v(), r is Equal <==> a.v() == b.v(), r is Greater <==> a.v() > b.v() { unimplemented!() }
pub fn snap<I: VIter>(i: &I) -> (r: Ghost<Seq<I::Item>>) ensures r@ == i.items() { Ghost(i.items()) }
pub fn snap_acc<T>(v: &Vec<T>) -> (r: Ghost<Seq<T>>) ensures r@ == v@ { Ghost(v@) }
pub trait IntoV: Sized {
    type Item;
    spec fn seq_of(&self) -> Seq<Self::Item>;
    fn into_v(self) -> (r: GIter<Self::Item>) ensures r.items() == self.seq_of(), r.pos() == 0;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct GIter<T> { _t: core::marker::PhantomData<T> }
impl<T> VIter for GIter<T> {
    type Item = T;
    uninterp spec fn items(&self) -> Seq<T>;
    uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    fn vnext(&mut self) -> (r: Option<T>) { unimplemented!() }
}
impl<T> IntoV for GIter<T> { type Item = T; open spec fn seq_of(&self) -> Seq<T> { self.items() }
    #[verifier::external_body] fn into_v(self) -> (r: GIter<T>) { unimplemented!() } }
impl<T> IntoV for Vec<T> { type Item = T; open spec fn seq_of(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn into_v(self) -> (r: GIter<T>) { unimplemented!() } }
impl<'a, T> IntoV for &'a Vec<T> { type Item = &'a T; open spec fn seq_of(&self) -> Seq<&'a T> { refseq(self@) }
    #[verifier::external_body] fn into_v(self) -> (r: GIter<&'a T>) { unimplemented!() } }
pub open spec fn refseq<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
impl IntoV for core::ops::Range<u64> { type Item = u64; open spec fn seq_of(&self) -> Seq<u64> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as u64) } else { Seq::empty() } }
    #[verifier::external_body] fn into_v(self) -> (r: GIter<u64>) { unimplemented!() } }
impl IntoV for core::ops::Range<usize> { type Item = usize; open spec fn seq_of(&self) -> Seq<usize> { if self.start <= self.end { Seq::new((self.end - self.start) as nat, |i: int| (self.start + i) as usize) } else { Seq::empty() } }
    #[verifier::external_body] fn into_v(self) -> (r: GIter<usize>) { unimplemented!() } }

// ---------------------------------------------------------------- key order of stable maps
pub uninterp spec fn key_lt<K>(a: K, b: K) -> bool;
pub broadcast axiom fn key_lt_irrefl<K>(a: K) ensures !(#[trigger] key_lt(a, a));
pub broadcast axiom fn key_lt_trans<K>(a: K, b: K, c: K) requires #[trigger] key_lt(a, b), #[trigger] key_lt(b, c) ensures key_lt(a, c);
pub broadcast axiom fn key_lt_total<K>(a: K, b: K) ensures #[trigger] key_lt(a, b) || a == b || key_lt(b, a);
pub broadcast axiom fn key_lt_u64(a: u64, b: u64) ensures #[trigger] key_lt(a, b) == (a < b);
pub broadcast axiom fn key_lt_pair<A, B>(p: (A, B), q: (A, B)) ensures #[trigger] key_lt(p, q) == (key_lt(p.0, q.0) || (p.0 == q.0 && key_lt(p.1, q.1)));
pub broadcast axiom fn key_lt_empty_principal(p: candid::Principal) ensures #[trigger] key_lt(p, crate::ext::empty_principal()) == false;
pub broadcast axiom fn key_lt_zero_sub(p: [u8; 32]) ensures #[trigger] key_lt(p, zero_sub()) == false;
pub open spec fn key_le<K>(a: K, b: K) -> bool { a == b || key_lt(a, b) }

// ---------------------------------------------------------------- accounts
pub uninterp spec fn zero_sub() -> [u8; 32];
#[verifier::external_body]
pub fn zeros32() -> (r: [u8; 32]) ensures r == zero_sub(), r@ == Seq::new(32, |i: int| 0u8) { [0; 32] }
#[verifier::external_body]
pub fn zeros32_ref() -> (r: &'static [u8; 32]) ensures *r == zero_sub(), r@ == Seq::new(32, |i: int| 0u8) { &[0; 32] }
pub broadcast axiom fn zero_sub_bytes() ensures #[trigger] zero_sub()@ == Seq::new(32, |i: int| 0u8);
pub uninterp spec fn empty_principal() -> candid::Principal;
pub broadcast axiom fn empty_principal_bytes() ensures #[trigger] empty_principal()@ == Seq::<u8>::empty();
pub open spec fn eff(s: Option<[u8; 32]>) -> [u8; 32] { match s { Some(x) => x, None => zero_sub() } }
pub type AKey = (candid::Principal, [u8; 32]);
pub open spec fn akey(a: icrc_ledger_types::icrc1::account::Account) -> AKey { (a.owner, eff(a.subaccount)) }
// two byte arrays with the same bytes are the same value
pub broadcast axiom fn arr32_ext(a: [u8; 32], b: [u8; 32]) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub broadcast axiom fn principal_ext(a: candid::Principal, b: candid::Principal) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub broadcast axiom fn principal_len(a: candid::Principal) ensures (#[trigger] a@).len() <= 29;
pub broadcast axiom fn bytebuf_ext(a: serde_bytes::ByteBuf, b: serde_bytes::ByteBuf) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
pub broadcast axiom fn nat_ext(a: candid::Nat, b: candid::Nat) requires #[trigger] a@ == #[trigger] b@ ensures a == b;

// the byte buffer with the given contents
pub uninterp spec fn bb(s: Seq<u8>) -> serde_bytes::ByteBuf;
pub broadcast axiom fn bb_of(b: serde_bytes::ByteBuf) ensures bb(#[trigger] b@) == b;
pub mod candid {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Principal { _b: [u8; 30] }
    impl View for Principal { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Principal {
        #[verifier::external_body]
        pub fn management_canister() -> (r: Principal) ensures r == crate::ext::mgmt() { unimplemented!() }
        #[verifier::external_body]
        pub fn anonymous() -> (r: Principal) ensures r@ == seq![4u8] { unimplemented!() }
        #[verifier::external_body]
        pub fn from_slice(b: &[u8]) -> (r: Principal) ensures r@ == b@ { unimplemented!() }
        #[verifier::external_body]
        pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn to_text(&self) -> (r: crate::ext::Str) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct BigUint { _v: Vec<u32> }
    impl View for BigUint { type V = nat; uninterp spec fn view(&self) -> nat; }
    impl BigUint {
        #[verifier::external_body]
        pub fn to_u128(&self) -> (r: Option<u128>) ensures r == (if self@ <= u128::MAX { Some(self@ as u128) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_u64(&self) -> (r: Option<u64>) ensures r == (if self@ <= u64::MAX { Some(self@ as u64) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_u32(&self) -> (r: Option<u32>) ensures r == (if self@ <= u32::MAX { Some(self@ as u32) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_bytes_be(&self) -> (r: Vec<u8>) ensures crate::ext::big_endian(r@) == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn from_bytes_be(b: &[u8]) -> (r: BigUint) ensures r@ == crate::ext::big_endian(b@) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct BigInt { _v: Vec<u32> }
    impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
    impl BigInt {
        #[verifier::external_body]
        pub fn to_u128(&self) -> (r: Option<u128>) ensures r == (if 0 <= self@ <= u128::MAX { Some(self@ as u128) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_u64(&self) -> (r: Option<u64>) ensures r == (if 0 <= self@ <= u64::MAX { Some(self@ as u64) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn to_i128(&self) -> (r: Option<i128>) ensures r == (if i128::MIN <= self@ <= i128::MAX { Some(self@ as i128) } else { None }) { unimplemented!() }
    }
    pub struct Int(pub BigInt);
    impl View for Int { type V = int; open spec fn view(&self) -> int { self.0@ } }
    pub struct Nat(pub BigUint);
    impl View for Nat { type V = nat; open spec fn view(&self) -> nat { self.0@ } }
    }
}
pub uninterp spec fn mgmt() -> candid::Principal;
pub broadcast axiom fn mgmt_bytes() ensures #[trigger] mgmt()@ == Seq::<u8>::empty();

pub uninterp spec fn big_endian(b: Seq<u8>) -> nat;
impl Conv<candid::Int> for u128 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: candid::Int) -> bool { r@ == self as int }
    #[verifier::external_body] fn conv(self) -> (r: candid::Int) { unimplemented!() } }
pub mod serde_bytes {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    pub struct ByteBuf { _v: Vec<u8> }
    impl View for ByteBuf { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl ByteBuf {
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    }
    }
}

pub mod icrc_ledger_types {
    pub mod icrc1 {
        pub mod account {
            use vstd::prelude::*;
            verus! {
            pub type Subaccount = [u8; 32];
            #[derive(Clone, Copy)]
            pub struct Account { pub owner: crate::ext::candid::Principal, pub subaccount: Option<[u8; 32]> }
            impl Account {
                #[verifier::external_body]
                pub fn effective_subaccount(&self) -> (r: &[u8; 32]) ensures *r == crate::ext::eff(self.subaccount) { unimplemented!() }
            }
            }
        }
        pub mod transfer {
            use vstd::prelude::*;
            verus! {
            pub type BlockIndex = crate::ext::candid::Nat;
            pub struct Memo(pub crate::ext::serde_bytes::ByteBuf);
            pub struct TransferArg {
                pub from_subaccount: Option<[u8; 32]>,
                pub to: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub fee: Option<crate::ext::candid::Nat>,
                pub created_at_time: Option<u64>,
                pub memo: Option<Memo>,
                pub amount: crate::ext::candid::Nat,
            }
            pub enum TransferError {
                BadFee { expected_fee: crate::ext::candid::Nat },
                BadBurn { min_burn_amount: crate::ext::candid::Nat },
                InsufficientFunds { balance: crate::ext::candid::Nat },
                TooOld,
                CreatedInFuture { ledger_time: u64 },
                TemporarilyUnavailable,
                Duplicate { duplicate_of: crate::ext::candid::Nat },
                GenericError { error_code: crate::ext::candid::Nat, message: crate::ext::Str },
            }
            }
        }
    }
    pub mod icrc2 {
        pub mod approve {
            use vstd::prelude::*;
            verus! {
            pub struct ApproveArgs {
                pub from_subaccount: Option<[u8; 32]>,
                pub spender: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub amount: crate::ext::candid::Nat,
                pub expected_allowance: Option<crate::ext::candid::Nat>,
                pub expires_at: Option<u64>,
                pub fee: Option<crate::ext::candid::Nat>,
                pub memo: Option<crate::ext::icrc_ledger_types::icrc1::transfer::Memo>,
                pub created_at_time: Option<u64>,
            }
            pub enum ApproveError {
                BadFee { expected_fee: crate::ext::candid::Nat },
                InsufficientFunds { balance: crate::ext::candid::Nat },
                AllowanceChanged { current_allowance: crate::ext::candid::Nat },
                Expired { ledger_time: u64 },
                TooOld,
                CreatedInFuture { ledger_time: u64 },
                Duplicate { duplicate_of: crate::ext::candid::Nat },
                TemporarilyUnavailable,
                GenericError { error_code: crate::ext::candid::Nat, message: crate::ext::Str },
            }
            }
        }
        pub mod transfer_from {
            use vstd::prelude::*;
            verus! {
            pub struct TransferFromArgs {
                pub spender_subaccount: Option<[u8; 32]>,
                pub from: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub to: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub amount: crate::ext::candid::Nat,
                pub fee: Option<crate::ext::candid::Nat>,
                pub memo: Option<crate::ext::icrc_ledger_types::icrc1::transfer::Memo>,
                pub created_at_time: Option<u64>,
            }
            pub enum TransferFromError {
                BadFee { expected_fee: crate::ext::candid::Nat },
                BadBurn { min_burn_amount: crate::ext::candid::Nat },
                InsufficientFunds { balance: crate::ext::candid::Nat },
                InsufficientAllowance { allowance: crate::ext::candid::Nat },
                TooOld,
                CreatedInFuture { ledger_time: u64 },
                Duplicate { duplicate_of: crate::ext::candid::Nat },
                TemporarilyUnavailable,
                GenericError { error_code: crate::ext::candid::Nat, message: crate::ext::Str },
            }
            }
        }
        pub mod allowance {
            use vstd::prelude::*;
            verus! {
            pub struct AllowanceArgs {
                pub account: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub spender: crate::ext::icrc_ledger_types::icrc1::account::Account,
            }
            pub struct Allowance { pub allowance: crate::ext::candid::Nat, pub expires_at: Option<u64> }
            }
        }
    }
    pub mod icrc103 {
        pub mod get_allowances {
            use vstd::prelude::*;
            verus! {
            pub struct GetAllowancesArgs {
                pub from_account: Option<crate::ext::icrc_ledger_types::icrc1::account::Account>,
                pub prev_spender: Option<crate::ext::icrc_ledger_types::icrc1::account::Account>,
                pub take: Option<crate::ext::candid::Nat>,
            }
            pub struct Allowance {
                pub from_account: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub to_spender: crate::ext::icrc_ledger_types::icrc1::account::Account,
                pub allowance: crate::ext::candid::Nat,
                pub expires_at: Option<u64>,
            }
            pub type Allowances = Vec<Allowance>;
            pub enum GetAllowancesError {
                AccessDenied { reason: crate::ext::Str },
                GenericError { error_code: crate::ext::candid::Nat, message: crate::ext::Str },
            }
            }
        }
    }
    pub mod icrc106 { pub mod errors {
        use vstd::prelude::*;
        verus! {
        pub enum Icrc106Error {
            GenericError { description: crate::ext::Str, error_code: crate::ext::candid::Nat },
            IndexPrincipalNotSet,
        }
        }
    } }
    pub mod icrc {
        pub mod generic_value {
            use vstd::prelude::*;
            verus! {
            pub enum Value {
                Blob(crate::ext::serde_bytes::ByteBuf),
                Text(crate::ext::Str),
                Nat(crate::ext::candid::Nat),
                Nat64(u64),
                Int(crate::ext::candid::Int),
                Array(Vec<Value>),
                Map(crate::ext::xstd::collections::BTreeMap<crate::ext::Str, Value>),
            }
            impl Value {
                #[verifier::external_body]
                pub fn hash(&self) -> (r: [u8; 32]) ensures r == crate::ext::value_hash(crate::ext::gv(*self)) { unimplemented!() }
                pub fn text(s: crate::ext::Str) -> (r: Value) ensures r == Value::Text(s) { Value::Text(s) }
                pub fn blob<T: crate::ext::Bytes>(b: T) -> (r: Value) ensures r is Blob, r->Blob_0@ == b.bytes() { Value::Blob(b.to_bytebuf()) }
            }
            }
        }
        pub mod generic_metadata_value {
            use vstd::prelude::*;
            verus! {
            pub enum MetadataValue {
                Nat(crate::ext::candid::Nat),
                Text(crate::ext::Str),
                Blob(crate::ext::serde_bytes::ByteBuf),
            }
            impl MetadataValue {
                #[verifier::external_body]
                pub fn entry<T: crate::ext::Conv<MetadataValue>>(k: crate::ext::Str, v: T) -> (r: (crate::ext::Str, MetadataValue))
                    ensures r.0 == k, v.conv_ens(r.1) { unimplemented!() }
            }
            }
        }
    }
}
impl Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for u64 {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r is Nat && r->Nat_0@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }
impl Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for u128 {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r is Nat && r->Nat_0@ == self as nat }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }
impl Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for Str {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r == icrc_ledger_types::icrc::generic_metadata_value::MetadataValue::Text(self) }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }
impl Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for candid::Nat {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r is Nat && r->Nat_0@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }
impl Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for Vec<u8> {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r is Blob && r->Blob_0@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }
impl Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for serde_bytes::ByteBuf {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r is Blob && r->Blob_0@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }
impl<'a> Conv<icrc_ledger_types::icrc::generic_metadata_value::MetadataValue> for &'a [u8] {
    open spec fn conv_req(self) -> bool { true }
    open spec fn conv_ens(self, r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) -> bool { r is Blob && r->Blob_0@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: icrc_ledger_types::icrc::generic_metadata_value::MetadataValue) { unimplemented!() } }

pub trait Bytes: Sized { spec fn bytes(&self) -> Seq<u8>; fn to_bytebuf(self) -> (r: serde_bytes::ByteBuf) ensures r@ == self.bytes(); }
impl<const N: usize> Bytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_bytebuf(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }
impl Bytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_bytebuf(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }
impl<'a> Bytes for &'a [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_bytebuf(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }


impl<const N: usize> Bytes for &'static [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn to_bytebuf(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }

// ---------------------------------------------------------------- Option / Result helpers
pub trait Unw<T>: Sized { spec fn has(self) -> bool; spec fn val(self) -> T;
//#if C15 C17 C18 C19 C20 C21 C22 C30 C31
    fn vunwrap(self, env: &Env) -> (r: T) requires self.has() || !crate::ext::hard(env@) ensures self.has(), r == self.val();
//#else
    fn vunwrap(self) -> (r: T) ensures self.has(), r == self.val();
//#endif
}
impl<T> Unw<T> for Option<T> { open spec fn has(self) -> bool { self is Some } open spec fn val(self) -> T { self->Some_0 }
//#if C15 C17 C18 C19 C20 C21 C22 C30 C31
    #[verifier::external_body] fn vunwrap(self, env: &Env) -> (r: T) { unimplemented!() } }
//#else
    #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
//#endif
impl<T, E> Unw<T> for Result<T, E> { open spec fn has(self) -> bool { self is Ok } open spec fn val(self) -> T { self->Ok_0 }
//#if C15 C17 C18 C19 C20 C21 C22 C30 C31
    #[verifier::external_body] fn vunwrap(self, env: &Env) -> (r: T) { unimplemented!() } }
//#else
    #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
//#endif
pub trait UnwOr<T>: Sized { spec fn or_val(self, d: T) -> T; fn vunwrap_or(self, d: T) -> (r: T) ensures r == self.or_val(d); }
impl<T> UnwOr<T> for Option<T> { open spec fn or_val(self, d: T) -> T { match self { Some(v) => v, None => d } }
    fn vunwrap_or(self, d: T) -> (r: T) { match self { Some(v) => v, None => d } } }
impl<T, E> UnwOr<T> for Result<T, E> { open spec fn or_val(self, d: T) -> T { match self { Ok(v) => v, Err(_) => d } }
    fn vunwrap_or(self, d: T) -> (r: T) { match self { Ok(v) => v, Err(_) => d } } }
pub fn vunwrap_or_default<T: Dflt, O: UnwOr<T>>(o: O) -> (r: T) ensures r == o.or_val(T::dflt()) { o.vunwrap_or(T::default_()) }

//#if C15 C17 C18 C19 C20 C21 C22 C30 C31
#[verifier::external_body]
pub fn trap(env: &Env) -> ! requires !crate::ext::hard(env@) ensures false { unimplemented!() }
#[verifier::external_body]
pub fn trap0() -> ! requires false { unimplemented!() }
//#else
#[verifier::external_body]
pub fn trap() -> ! ensures false { unimplemented!() }
#[verifier::external_body]
pub fn trap0() -> ! ensures false { unimplemented!() }
//#endif

pub fn cv<A: Conv<B>, B>(a: A) -> (r: B) requires a.conv_req() ensures a.conv_ens(r) { a.conv() }

// machine integers
pub trait VInt: Sized {
    spec fn v(self) -> int;
    spec fn mx() -> int;
    spec fn mn() -> int;
    fn vsaturating_add(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() + o.v() > Self::mx() { Self::mx() } else { self.v() + o.v() });
    fn vsaturating_sub(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() - o.v() < Self::mn() { Self::mn() } else { self.v() - o.v() });
    fn vsaturating_mul(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() * o.v() > Self::mx() { Self::mx() } else { self.v() * o.v() });
    fn vchecked_add(self, o: Self) -> (r: Option<Self>) ensures r is Some <==> self.v() + o.v() <= Self::mx(), r is Some ==> r->Some_0.v() == self.v() + o.v();
    fn vchecked_sub(self, o: Self) -> (r: Option<Self>) ensures r is Some <==> self.v() - o.v() >= Self::mn(), r is Some ==> r->Some_0.v() == self.v() - o.v();
    fn vchecked_mul(self, o: Self) -> (r: Option<Self>) ensures r is Some <==> self.v() * o.v() <= Self::mx(), r is Some ==> r->Some_0.v() == self.v() * o.v();
    fn vwrapping_add(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() + o.v() > Self::mx() { self.v() + o.v() - Self::mx() - 1 } else { self.v() + o.v() });
    fn vwrapping_sub(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() - o.v() < Self::mn() { self.v() - o.v() + Self::mx() + 1 } else { self.v() - o.v() });
    fn vmin(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() <= o.v() { self.v() } else { o.v() });
    fn vmax(self, o: Self) -> (r: Self) ensures r.v() == (if self.v() >= o.v() { self.v() } else { o.v() });
    fn vlt(&self, o: &Self) -> (r: bool) ensures r == (self.v() < o.v());
    fn vle(&self, o: &Self) -> (r: bool) ensures r == (self.v() <= o.v());
    fn vgt(&self, o: &Self) -> (r: bool) ensures r == (self.v() > o.v());
    fn vge(&self, o: &Self) -> (r: bool) ensures r == (self.v() >= o.v());
    fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0);
}
impl VInt for u8 { open spec fn v(self) -> int { self as int } open spec fn mx() -> int { 255 } open spec fn mn() -> int { 0 }
    #[verifier::external_body] fn vsaturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmin(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmax(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vchecked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    fn vlt(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vle(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vgt(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vge(&self, o: &Self) -> (r: bool) { *self >= *o }
    fn is_zero(&self) -> (r: bool) { *self == 0 } }
impl VInt for u32 { open spec fn v(self) -> int { self as int } open spec fn mx() -> int { 0xffff_ffff } open spec fn mn() -> int { 0 }
    #[verifier::external_body] fn vsaturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmin(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmax(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vchecked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    fn vlt(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vle(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vgt(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vge(&self, o: &Self) -> (r: bool) { *self >= *o }
    fn is_zero(&self) -> (r: bool) { *self == 0 } }
impl VInt for u64 { open spec fn v(self) -> int { self as int } open spec fn mx() -> int { 0xffff_ffff_ffff_ffff } open spec fn mn() -> int { 0 }
    #[verifier::external_body] fn vsaturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmin(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmax(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vchecked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    fn vlt(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vle(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vgt(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vge(&self, o: &Self) -> (r: bool) { *self >= *o }
    fn is_zero(&self) -> (r: bool) { *self == 0 } }
impl VInt for usize { open spec fn v(self) -> int { self as int } open spec fn mx() -> int { usize::MAX as int } open spec fn mn() -> int { 0 }
    #[verifier::external_body] fn vsaturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmin(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmax(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vchecked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    fn vlt(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vle(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vgt(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vge(&self, o: &Self) -> (r: bool) { *self >= *o }
    fn is_zero(&self) -> (r: bool) { *self == 0 } }
impl VInt for u128 { open spec fn v(self) -> int { self as int } open spec fn mx() -> int { 0xffff_ffff_ffff_ffff_ffff_ffff_ffff_ffff } open spec fn mn() -> int { 0 }
    #[verifier::external_body] fn vsaturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vsaturating_mul(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vwrapping_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmin(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vmax(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vchecked_add(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_sub(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    #[verifier::external_body] fn vchecked_mul(self, o: Self) -> (r: Option<Self>) { unimplemented!() }
    fn vlt(&self, o: &Self) -> (r: bool) { *self < *o }
    fn vle(&self, o: &Self) -> (r: bool) { *self <= *o }
    fn vgt(&self, o: &Self) -> (r: bool) { *self > *o }
    fn vge(&self, o: &Self) -> (r: bool) { *self >= *o }
    fn is_zero(&self) -> (r: bool) { *self == 0 } }

// byte containers
pub trait ToVec { spec fn tv(&self) -> Seq<u8>; fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tv(); }
impl ToVec for [u8; 32] { open spec fn tv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl ToVec for Vec<u8> { open spec fn tv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl ToVec for serde_bytes::ByteBuf { open spec fn tv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
impl ToVec for [u8] { open spec fn tv(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<u8>) { unimplemented!() } }
pub fn sget<'a>(s: &'a [u8], i: usize) -> (r: Option<&'a u8>) ensures r is Some <==> i < s@.len(), r is Some ==> *r->Some_0 == s@[i as int] { if i < s.len() { Some(&s[i]) } else { None } }
// byte string literals
pub uninterp spec fn bstr_bytes(id: u64) -> Seq<u8>;
#[verifier::external_body]
pub fn bstr(id: u64) -> (r: &'static [u8]) ensures r@ == bstr_bytes(id) { unimplemented!() }

pub trait ViterRef { type It; spec fn vr(&self) -> Seq<Self::It>; fn viter<'a>(&'a self) -> (r: GIter<&'a Self::It>) ensures r.items() == refseq(self.vr()), r.pos() == 0; }
impl<T> ViterRef for Vec<T> { type It = T; open spec fn vr(&self) -> Seq<T> { self@ } #[verifier::external_body] fn viter<'a>(&'a self) -> (r: GIter<&'a T>) { unimplemented!() } }
#[verifier::external_body]
pub fn slice_viter<'a, T>(s: &'a [T]) -> (r: GIter<&'a T>) ensures r.items() == refseq(s@), r.pos() == 0 { unimplemented!() }
pub fn opt_slice<'a, T>(o: &'a Option<Vec<T>>) -> (r: Option<&'a [T]>) ensures r is Some <==> *o is Some, r is Some ==> r->Some_0@ == o->Some_0@ { match o { Some(v) => Some(v.as_slice()), None => None } }
impl<'a, T> Dflt for &'a [T] { uninterp spec fn dflt() -> Self; #[verifier::external_body] fn default_() -> (r: Self) { unimplemented!() } }
pub broadcast axiom fn dflt_slice<'a, T>() ensures (#[trigger] <&'a [T] as Dflt>::dflt())@ == Seq::<T>::empty();
pub fn slast<'a, T>(s: &'a [T]) -> (r: Option<&'a T>) ensures r is Some <==> s@.len() > 0, r is Some ==> *r->Some_0 == s@[s@.len() - 1] { if s.len() > 0 { Some(&s[s.len() - 1]) } else { None } }
pub fn sfirst<'a, T>(s: &'a [T]) -> (r: Option<&'a T>) ensures r is Some <==> s@.len() > 0, r is Some ==> *r->Some_0 == s@[0] { if s.len() > 0 { Some(&s[0]) } else { None } }
#[verifier::external_body]
pub fn opt_viter<'a, T>(o: &'a Option<Vec<T>>) -> (r: GIter<&'a T>) ensures r.items() == refseq(match *o { Some(v) => v@, None => Seq::empty() }), r.pos() == 0 { unimplemented!() }
// TryFrom
pub trait TConv<T>: Sized { type E; spec fn tconv_ok(self) -> bool; spec fn tconv_ens(self, r: T) -> bool;
    fn tconv(self) -> (r: Result<T, Self::E>) ensures r is Ok <==> self.tconv_ok(), r is Ok ==> self.tconv_ens(r->Ok_0); }
pub fn tcv<A: TConv<B>, B>(a: A) -> (r: Result<B, A::E>) ensures r is Ok <==> a.tconv_ok(), r is Ok ==> a.tconv_ens(r->Ok_0) { a.tconv() }
impl<'a> TConv<candid::Principal> for &'a [u8] { type E = Str; open spec fn tconv_ok(self) -> bool { self@.len() <= 29 } open spec fn tconv_ens(self, r: candid::Principal) -> bool { r@ == self@ }
    #[verifier::external_body] fn tconv(self) -> (r: Result<candid::Principal, Str>) { unimplemented!() } }
impl<'a> TConv<[u8; 32]> for &'a [u8] { type E = Str; open spec fn tconv_ok(self) -> bool { self@.len() == 32 } open spec fn tconv_ens(self, r: [u8; 32]) -> bool { r@ == self@ }
    #[verifier::external_body] fn tconv(self) -> (r: Result<[u8; 32], Str>) { unimplemented!() } }

// ---------------------------------------------------------------- generic values
pub ghost enum GV { Blob(Seq<u8>), Text(Str), Nat(nat), Nat64(u64), Int(int), Array(Seq<GV>), Map(Map<Str, GV>) }
pub uninterp spec fn gv(v: icrc_ledger_types::icrc::generic_value::Value) -> GV;
pub uninterp spec fn gvs(v: Vec<icrc_ledger_types::icrc::generic_value::Value>) -> Seq<GV>;
pub uninterp spec fn value_hash(g: GV) -> [u8; 32];
pub broadcast axiom fn gv_blob(b: serde_bytes::ByteBuf) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Blob(b)) == GV::Blob(b@);
pub broadcast axiom fn gv_text(b: Str) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Text(b)) == GV::Text(b);
pub broadcast axiom fn gv_nat(b: candid::Nat) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Nat(b)) == GV::Nat(b@);
pub broadcast axiom fn gv_int(b: candid::Int) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Int(b)) == GV::Int(b@);
pub broadcast axiom fn gv_nat64(b: u64) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Nat64(b)) == GV::Nat64(b);
pub broadcast axiom fn gv_array(b: Vec<icrc_ledger_types::icrc::generic_value::Value>) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Array(b)) == GV::Array(b@.map_values(|x: icrc_ledger_types::icrc::generic_value::Value| gv(x)));
pub broadcast axiom fn gv_map(b: xstd::collections::BTreeMap<Str, icrc_ledger_types::icrc::generic_value::Value>) ensures #[trigger] gv(icrc_ledger_types::icrc::generic_value::Value::Map(b)) == GV::Map(b@.map_values(|x: icrc_ledger_types::icrc::generic_value::Value| gv(x)));

// s lists every entry of m exactly once
pub open spec fn enum_refs<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(*s[i].0) && m[*s[i].0] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
}
pub mod xstd { pub mod collections {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct BTreeMap<K, V> { _k: core::marker::PhantomData<K>, _v: Vec<V> }
    impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
    impl<K, V> BTreeMap<K, V> {
        #[verifier::external_body]
        pub fn new() -> (r: BTreeMap<K, V>) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
        #[verifier::external_body]
        pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>) ensures r is Some <==> self@.contains_key(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains_key(*k), r is Some ==> r->Some_0 == old(self)@[*k] { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r <==> self@.dom().len() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn viter<'a>(&'a self) -> (r: crate::ext::GIter<(&'a K, &'a V)>) ensures crate::ext::VIter::pos(&r) == 0, crate::ext::enum_refs(crate::ext::VIter::items(&r), self@) { unimplemented!() }
    }
    }
} 
pub mod cmp {
    use vstd::prelude::*;
    verus! {
    pub enum Ordering { Less, Equal, Greater }
    }
}
pub mod time {
    use vstd::prelude::*;
    verus! {
    #[derive(Clone, Copy)]
    pub struct Duration { pub nanos: u128 }
    impl Duration {
        pub fn from_secs(s: u64) -> (r: Duration) ensures r.nanos == s as u128 * 1_000_000_000 { Duration { nanos: s as u128 * 1_000_000_000 } }
        pub fn from_nanos(s: u64) -> (r: Duration) ensures r.nanos == s as u128 { Duration { nanos: s as u128 } }
        pub fn from_millis(s: u64) -> (r: Duration) ensures r.nanos == s as u128 * 1_000_000 { Duration { nanos: s as u128 * 1_000_000 } }
        pub fn as_nanos(&self) -> (r: u128) ensures r == self.nanos { self.nanos }
        pub fn as_secs(&self) -> (r: u64) ensures self.nanos < 1_000_000_000_000_000_000_000_000u128 ==> r == self.nanos / 1_000_000_000 { (self.nanos / 1_000_000_000) as u64 }
    }
    }
}
}

pub mod anyhow { use vstd::prelude::*; verus! {
    #[verifier::external_body] pub struct Error { _e: u8 }
    pub type Result<T> = core::result::Result<T, Error>;
} }
#[verifier::external_body]
pub fn anyhow_err() -> anyhow::Error { unimplemented!() }
pub trait Ctx: Sized { type Out; spec fn ctx_ens(self, r: Self::Out) -> bool; fn vcontext(self) -> (r: Self::Out) ensures self.ctx_ens(r); }
impl<T> Ctx for Option<T> { type Out = Result<T, anyhow::Error>; open spec fn ctx_ens(self, r: Result<T, anyhow::Error>) -> bool { match self { Some(v) => r == Result::<T, anyhow::Error>::Ok(v), None => r is Err } }
    fn vcontext(self) -> (r: Result<T, anyhow::Error>) { match self { Some(v) => Ok(v), None => Err(anyhow_err()) } } }
impl<T, E> Ctx for Result<T, E> { type Out = Result<T, anyhow::Error>; open spec fn ctx_ens(self, r: Result<T, anyhow::Error>) -> bool { match self { Ok(v) => r == Result::<T, anyhow::Error>::Ok(v), Err(_) => r is Err } }
    fn vcontext(self) -> (r: Result<T, anyhow::Error>) { match self { Ok(v) => Ok(v), Err(_) => Err(anyhow_err()) } } }
impl Ctx for anyhow::Error { type Out = anyhow::Error; open spec fn ctx_ens(self, r: anyhow::Error) -> bool { true } fn vcontext(self) -> (r: anyhow::Error) { self } }

// ---------------------------------------------------------------- stable structures
pub uninterp spec fn stable_map<K, V>(id: u8) -> Map<K, V>;
pub uninterp spec fn stable_seq<T>(id1: u8, id2: u8) -> Seq<T>;
pub uninterp spec fn stable_cell<T>(id: u8) -> Option<T>;
pub mod ic_stable_structures {
    use vstd::prelude::*;
    verus! {
    pub struct DefaultMemoryImpl { pub _d: u8 }
    impl DefaultMemoryImpl { pub fn default() -> DefaultMemoryImpl { DefaultMemoryImpl { _d: 0 } } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    #[verifier::reject_recursive_types(M)]
    pub struct StableBTreeMap<K, V, M> { _p: core::marker::PhantomData<(K, V, M)> }
    impl<K, V, M> View for StableBTreeMap<K, V, M> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
    impl<K, V, M> StableBTreeMap<K, V, M> {
        #[verifier::external_body]
        pub fn get(&self, k: &K) -> (r: Option<V>) ensures r == (if self@.contains_key(*k) { Some(self@[*k]) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: u64) ensures r == self@.dom().len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K>::empty()) { unimplemented!() }
        #[verifier::external_body]
        pub fn first_key_value(&self) -> (r: Option<(K, V)>)
            ensures match r {
                Some(kv) => self@.contains_key(kv.0) && self@[kv.0] == kv.1 && (forall|k: K| #[trigger] self@.contains_key(k) ==> !crate::ext::key_lt(k, kv.0)),
                None => self@.dom() == Set::<K>::empty(),
            } { unimplemented!() }
        #[verifier::external_body]
        pub fn iter(&self) -> (r: crate::ext::GIter<(K, V)>) ensures crate::ext::VIter::pos(&r) == 0, crate::ext::enumerates(crate::ext::VIter::items(&r), self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn vrange_from(&self, from: K) -> (r: crate::ext::GIter<(K, V)>) ensures crate::ext::VIter::pos(&r) == 0, crate::ext::enumerates_from(crate::ext::VIter::items(&r), self@, from) { unimplemented!() }
        #[verifier::external_body]
        pub fn init(m: M) -> (r: Self) where M: crate::ext::MemId ensures r@ == crate::ext::stable_map::<K, V>(m.mid()) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    #[verifier::reject_recursive_types(A)]
    #[verifier::reject_recursive_types(B)]
    pub struct StableLog<T, A, B> { _p: core::marker::PhantomData<(T, A, B)> }
    impl<T, A, B> View for StableLog<T, A, B> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    impl<T, A, B> StableLog<T, A, B> {
        #[verifier::external_body]
        pub fn len(&self) -> (r: u64) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self, i: u64) -> (r: Option<T>) ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None }) { unimplemented!() }
        // growing stable memory never fails, and the log never reaches 2^64 - 1 entries
        #[verifier::external_body]
        pub fn append(&mut self, t: &T) -> (r: Result<u64, crate::ext::Str>) ensures r == Result::<u64, crate::ext::Str>::Ok(old(self)@.len() as u64), final(self)@ == old(self)@.push(*t), final(self)@.len() < u64::MAX { unimplemented!() }
        #[verifier::external_body]
        pub fn init(a: A, b: B) -> (r: Result<Self, crate::ext::Str>) where A: crate::ext::MemId, B: crate::ext::MemId ensures r is Ok, r->Ok_0@ == crate::ext::stable_seq::<T>(a.mid(), b.mid()) { unimplemented!() }
    }
    pub mod cell {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        #[verifier::reject_recursive_types(M)]
        pub struct Cell<T, M> { _p: core::marker::PhantomData<(T, M)> }
        impl<T, M> View for Cell<T, M> { type V = T; uninterp spec fn view(&self) -> T; }
        impl<T, M> Cell<T, M> {
            #[verifier::external_body]
            pub fn get(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
            #[verifier::external_body]
            pub fn set(&mut self, t: T) -> (r: Result<T, crate::ext::Str>) ensures r is Ok, final(self)@ == t { unimplemented!() }
            #[verifier::external_body]
            pub fn init(m: M, d: T) -> (r: Result<Self, crate::ext::Str>) where M: crate::ext::MemId ensures r is Ok, r->Ok_0@ == (match crate::ext::stable_cell::<T>(m.mid()) { Some(v) => v, None => d }) { unimplemented!() }
        }
        }
    }
    pub mod memory_manager {
        use vstd::prelude::*;
        verus! {
        #[derive(Clone, Copy)]
        pub struct MemoryId(pub u8);
        impl MemoryId { pub fn new(i: u8) -> (r: MemoryId) ensures r.0 == i { MemoryId(i) } }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(M)]
        pub struct VirtualMemory<M> { _p: core::marker::PhantomData<M> }
        impl<M> crate::ext::MemId for VirtualMemory<M> { uninterp spec fn mid(&self) -> u8; }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(M)]
        pub struct MemoryManager<M> { _p: core::marker::PhantomData<M> }
        impl<M> MemoryManager<M> {
            #[verifier::external_body]
            pub fn get(&self, id: MemoryId) -> (r: VirtualMemory<M>) ensures crate::ext::MemId::mid(&r) == id.0 { unimplemented!() }
        }
        }
    }
    }
}
pub trait MemId { spec fn mid(&self) -> u8; }
// s lists every entry of m exactly once in increasing key order
pub open spec fn enumerates<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt(#[trigger] s[i].0, #[trigger] s[j].0)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
}
pub open spec fn enumerates_from<K, V>(s: Seq<(K, V)>, m: Map<K, V>, from: K) -> bool {
    &&& s.len() <= m.dom().len()
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0) && m[s[i].0] == s[i].1 && !key_lt(s[i].0, from)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> key_lt(#[trigger] s[i].0, #[trigger] s[j].0)
    &&& forall|k: K| #[trigger] m.contains_key(k) && !key_lt(k, from) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
}

// ---------------------------------------------------------------- certification
pub uninterp spec fn tree_root(m: Map<Str, Seq<u8>>) -> [u8; 32];
pub ghost struct WitnessV { pub tree: Map<Str, Seq<u8>>, pub lo: Seq<u8>, pub hi: Seq<u8> }
pub uninterp spec fn leb128_bytes(n: u64) -> Seq<u8>;
pub uninterp spec fn witness_bytes(w: WitnessV) -> Seq<u8>;
pub mod ic_certified_map {
    use vstd::prelude::*;
    verus! {
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct RbTree<K, V> { _p: core::marker::PhantomData<(K, V)> }
    impl<K, V> View for RbTree<K, V> { type V = Map<crate::ext::Str, Seq<u8>>; uninterp spec fn view(&self) -> Map<crate::ext::Str, Seq<u8>>; }
    #[verifier::external_body]
    pub struct HashTree { _p: u8 }
    impl View for HashTree { type V = crate::ext::WitnessV; uninterp spec fn view(&self) -> crate::ext::WitnessV; }
    impl RbTree<crate::ext::Str, Vec<u8>> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<crate::ext::Str, Seq<u8>>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: crate::ext::Str, v: Vec<u8>) ensures final(self)@ == old(self)@.insert(k, v@) { unimplemented!() }
        #[verifier::external_body]
        pub fn root_hash(&self) -> (r: [u8; 32]) ensures r == crate::ext::tree_root(self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn value_range(&self, lo: &[u8], hi: &[u8]) -> (r: HashTree) ensures r@ == (crate::ext::WitnessV { tree: self@, lo: lo@, hi: hi@ }) { unimplemented!() }
    }
    }
}
pub mod leb128 { pub mod write { use vstd::prelude::*; verus! {
    #[verifier::external_body]
    pub fn unsigned(b: &mut Vec<u8>, v: u64) -> (r: Result<usize, crate::ext::Str>) ensures r is Ok, final(b)@ == old(b)@ + crate::ext::leb128_bytes(v) { unimplemented!() }
} } }
//#if C30
// the same facts about the form of a generic value, found by its kind
pub broadcast proof fn gv_kind(v: icrc_ledger_types::icrc::generic_value::Value)
    ensures #![trigger gv(v)]
        v is Blob ==> gv(v) == GV::Blob(v->Blob_0@), v is Text ==> gv(v) == GV::Text(v->Text_0), v is Nat ==> gv(v) == GV::Nat(v->Nat_0@), v is Int ==> gv(v) == GV::Int(v->Int_0@), v is Nat64 ==> gv(v) == GV::Nat64(v->Nat64_0),
        v is Array ==> gv(v) == GV::Array(v->Array_0@.map_values(|x: icrc_ledger_types::icrc::generic_value::Value| gv(x))),
        v is Map ==> gv(v) == GV::Map(v->Map_0@.map_values(|x: icrc_ledger_types::icrc::generic_value::Value| gv(x)))
{
    broadcast use {gv_blob, gv_text, gv_nat, gv_int, gv_nat64, gv_array, gv_map};
    match v {
        icrc_ledger_types::icrc::generic_value::Value::Blob(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Blob(b)) == GV::Blob(b@)); }
        icrc_ledger_types::icrc::generic_value::Value::Text(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Text(b)) == GV::Text(b)); }
        icrc_ledger_types::icrc::generic_value::Value::Nat(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Nat(b)) == GV::Nat(b@)); }
        icrc_ledger_types::icrc::generic_value::Value::Int(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Int(b)) == GV::Int(b@)); }
        icrc_ledger_types::icrc::generic_value::Value::Nat64(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Nat64(b)) == GV::Nat64(b)); }
        icrc_ledger_types::icrc::generic_value::Value::Array(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Array(b)) is Array); }
        icrc_ledger_types::icrc::generic_value::Value::Map(b) => { assert(gv(icrc_ledger_types::icrc::generic_value::Value::Map(b)) is Map); }
    }
}
pub uninterp spec fn cbv(v: ciborium::value::Value) -> CV;
pub broadcast axiom fn cbv_integer(v: ciborium::value::Value) requires v is Integer ensures #[trigger] cbv(v) == CV::Integer(v->Integer_0@);
pub broadcast axiom fn cbv_bytes(v: ciborium::value::Value) requires v is Bytes ensures #[trigger] cbv(v) == CV::Bytes(v->Bytes_0@);
pub broadcast axiom fn cbv_text(v: ciborium::value::Value) requires v is Text ensures #[trigger] cbv(v) == CV::Text(v->Text_0);
pub broadcast axiom fn cbv_array(v: ciborium::value::Value) requires v is Array ensures #[trigger] cbv(v) == CV::Array(v->Array_0@.map_values(|x: ciborium::value::Value| cbv(x)));
pub broadcast axiom fn cbv_map(v: ciborium::value::Value) requires v is Map ensures #[trigger] cbv(v) == CV::Map(v->Map_0@.map_values(|x: (ciborium::value::Value, ciborium::value::Value)| (cbv(x.0), cbv(x.1))));
pub broadcast axiom fn cbv_bool(v: ciborium::value::Value) requires v is Bool ensures #[trigger] cbv(v) == CV::Bool;
pub broadcast axiom fn cbv_null(v: ciborium::value::Value) requires v is Null ensures #[trigger] cbv(v) == CV::Null;
pub broadcast axiom fn cbv_float(v: ciborium::value::Value) requires v is Float ensures #[trigger] cbv(v) == CV::Float;
pub broadcast axiom fn cbv_tag(v: ciborium::value::Value) requires v is Tag ensures #[trigger] cbv(v) == CV::Tag(v->Tag_0, Box::new(cbv(*v->Tag_1)));
impl Conv<i128> for ciborium::value::Integer { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: i128) -> bool { r as int == self@ }
    #[verifier::external_body] fn conv(self) -> (r: i128) { unimplemented!() } }
impl TConv<ciborium::value::Integer> for i128 { type E = Str; open spec fn tconv_ok(self) -> bool { -0x1_0000_0000_0000_0000 <= self <= u64::MAX } open spec fn tconv_ens(self, r: ciborium::value::Integer) -> bool { r@ == self as int }
    #[verifier::external_body] fn tconv(self) -> (r: Result<ciborium::value::Integer, Str>) { unimplemented!() } }
impl TConv<u128> for i128 { type E = Str; open spec fn tconv_ok(self) -> bool { 0 <= self } open spec fn tconv_ens(self, r: u128) -> bool { r as int == self as int }
    #[verifier::external_body] fn tconv(self) -> (r: Result<u128, Str>) { unimplemented!() } }
impl TConv<i128> for u128 { type E = Str; open spec fn tconv_ok(self) -> bool { self <= i128::MAX } open spec fn tconv_ens(self, r: i128) -> bool { r as int == self as int }
    #[verifier::external_body] fn tconv(self) -> (r: Result<i128, Str>) { unimplemented!() } }
impl Conv<ciborium::value::Value> for Vec<u8> { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: ciborium::value::Value) -> bool { r is Bytes && r->Bytes_0@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: ciborium::value::Value) { unimplemented!() } }
impl Conv<ciborium::value::Integer> for u64 { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: ciborium::value::Integer) -> bool { r@ == self as int }
    #[verifier::external_body] fn conv(self) -> (r: ciborium::value::Integer) { unimplemented!() } }
//#endif
pub mod ciborium {
//#if C30
pub mod value { use vstd::prelude::*; verus! {
    #[verifier::external_body] pub struct F64 { _f: u64 }
    #[verifier::external_body] #[derive(Clone, Copy)] pub struct Integer { _i: i128 }
    impl View for Integer { type V = int; uninterp spec fn view(&self) -> int; }
    pub enum Value { Integer(Integer), Bytes(Vec<u8>), Float(F64), Text(crate::ext::Str), Bool(bool), Null, Tag(u64, Box<Value>), Array(Vec<Value>), Map(Vec<(Value, Value)>) }
    impl Value {
        pub fn into_text(self) -> (r: Result<crate::ext::Str, Value>) ensures r == (match self { Value::Text(t) => Result::<crate::ext::Str, Value>::Ok(t), _ => Result::<crate::ext::Str, Value>::Err(self) }) { match self { Value::Text(t) => Ok(t), v => Err(v) } }
        pub fn into_bytes(self) -> (r: Result<Vec<u8>, Value>) ensures r == (match self { Value::Bytes(t) => Result::<Vec<u8>, Value>::Ok(t), _ => Result::<Vec<u8>, Value>::Err(self) }) { match self { Value::Bytes(t) => Ok(t), v => Err(v) } }
    }
} }
//#endif
pub mod ser { use vstd::prelude::*; verus! {
    #[verifier::external_body]
    pub fn into_writer(t: &crate::ext::ic_certified_map::HashTree, b: &mut Vec<u8>) -> (r: Result<(), crate::ext::Str>) ensures r is Ok, final(b)@ == old(b)@ + crate::ext::witness_bytes(t@) { unimplemented!() }
} }
}

//#if C21 C23 C30
// ---------------------------------------------------------------- serde and CBOR
// CBOR values (ciborium::Value); floating point numbers are opaque
pub ghost enum CV { Integer(int), Bytes(Seq<u8>), Text(Str), Array(Seq<CV>), Map(Seq<(CV, CV)>), Bool, Null, Float, Tag(u64, Box<CV>) }
// the value of a text key in a list of entries
pub open spec fn lookup(s: Seq<(CV, CV)>, k: Str) -> Option<CV>
    decreases s.len()
{ if s.len() == 0 { None } else if s.last().0 == CV::Text(k) { Some(s.last().1) } else { lookup(s.drop_last(), k) } }
// a CBOR map whose keys are distinct texts
pub open spec fn is_record(c: CV) -> bool {
    &&& c is Map
    &&& forall|i: int| 0 <= i < c->Map_0.len() ==> (#[trigger] c->Map_0[i]).0 is Text
    &&& forall|i: int, j: int| 0 <= i < j < c->Map_0.len() ==> (#[trigger] c->Map_0[i]).0 != (#[trigger] c->Map_0[j]).0
}
pub open spec fn fields_from(s: Seq<(CV, CV)>) -> Map<Str, CV>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else if s.last().0 is Text { fields_from(s.drop_last()).insert(s.last().0->Text_0, s.last().1) } else { fields_from(s.drop_last()) } }
pub open spec fn fields_of(c: CV) -> Map<Str, CV> { fields_from(c->Map_0) }
// the encoded form of a document, and big-endian bytes without leading zeros
pub uninterp spec fn cbor_bytes(c: CV) -> Seq<u8>;
pub uninterp spec fn cbor_read(b: Seq<u8>) -> Option<CV>;
pub broadcast axiom fn cbor_read_bytes(c: CV) ensures cbor_read(#[trigger] cbor_bytes(c)) == Some(c);
pub uninterp spec fn be_min(n: nat) -> Seq<u8>;
pub broadcast axiom fn be_min_is(n: nat) ensures big_endian(#[trigger] be_min(n)) == n;
pub uninterp spec fn decoded<T>(c: CV) -> Option<T>;
// what is encoded decodes to itself, and is never null
pub broadcast axiom fn decoded_enc<T: serde::Enc>(t: T) ensures decoded::<T>(#[trigger] t.enc()) == Some(t), !(t.enc() is Null);
// a list of byte strings decodes to that list
pub broadcast axiom fn decoded_blobs(c: CV)
    requires c is Array, forall|i: int| 0 <= i < c->Array_0.len() ==> (#[trigger] c->Array_0[i]) is Bytes
    ensures (match #[trigger] decoded::<Vec<serde_bytes::ByteBuf>>(c) { Some(v) => v@.len() == c->Array_0.len() && forall|i: int| 0 <= i < v@.len() ==> c->Array_0[i] == CV::Bytes((#[trigger] v@[i])@), None => false });
pub broadcast axiom fn decoded_bytes(c: CV)
    requires c is Bytes
    ensures (match #[trigger] decoded::<serde_bytes::ByteBuf>(c) { Some(v) => c == CV::Bytes(v@), None => false });
pub mod serde { use vstd::prelude::*; verus! {
    use crate::ext::{CV, Str, is_record, fields_of};
    pub trait Enc: Sized { spec fn enc(self) -> CV; }
    impl Enc for u64 { open spec fn enc(self) -> CV { CV::Integer(self as int) } }
    impl Enc for u128 { open spec fn enc(self) -> CV { if self <= u64::MAX { CV::Integer(self as int) } else { CV::Tag(2, Box::new(CV::Bytes(crate::ext::be_min(self as nat)))) } } }
    impl Enc for Str { open spec fn enc(self) -> CV { CV::Text(self) } }
    impl Enc for crate::ext::serde_bytes::ByteBuf { open spec fn enc(self) -> CV { CV::Bytes(self@) } }
    impl Enc for crate::ext::icrc_ledger_types::icrc1::transfer::Memo { open spec fn enc(self) -> CV { CV::Bytes(self.0@) } }
    impl Enc for crate::ext::candid::Principal { open spec fn enc(self) -> CV { CV::Bytes(self@) } }
    pub uninterp spec fn account_cv(a: crate::ext::icrc_ledger_types::icrc1::account::Account) -> CV;
    impl Enc for crate::ext::icrc_ledger_types::icrc1::account::Account { open spec fn enc(self) -> CV { account_cv(self) } }
    impl<A: Enc, B: Enc> Enc for (A, B) { open spec fn enc(self) -> CV { CV::Array(seq![self.0.enc(), self.1.enc()]) } }
    impl<T: Enc> Enc for Vec<T> { open spec fn enc(self) -> CV { CV::Array(Seq::new(self@.len(), |i: int| self@[i].enc())) } }
    #[verifier::external_body] pub struct Ser { _p: u8 }
    #[verifier::external_body] pub struct Doc { _p: u8 }
    #[verifier::external_body] pub struct SerErr { _p: u8 }
    #[verifier::external_body] pub struct De { _p: u8 }
    impl View for Doc { type V = CV; uninterp spec fn view(&self) -> CV; }
    impl View for De { type V = CV; uninterp spec fn view(&self) -> CV; }
    impl Ser {
        #[verifier::external_body] pub fn fresh() -> (r: Ser) { unimplemented!() }
        #[verifier::external_body] pub fn serialize_none(self) -> (r: Result<Doc, SerErr>) ensures r is Ok, r->Ok_0@ == CV::Null { unimplemented!() }
        #[verifier::external_body] pub fn serialize_some<T: Enc>(self, t: &T) -> (r: Result<Doc, SerErr>) ensures r is Ok, r->Ok_0@ == t.enc() { unimplemented!() }
        #[verifier::external_body] pub fn serialize_bytes(self, t: &[u8]) -> (r: Result<Doc, SerErr>) ensures r is Ok, r->Ok_0@ == CV::Bytes(t@) { unimplemented!() }
    }
    impl Doc {
        #[verifier::external_body] pub fn write(self, b: &mut Vec<u8>) ensures final(b)@ == old(b)@ + crate::ext::cbor_bytes(self@) { unimplemented!() }
//#if C30
        #[verifier::external_body] pub fn value(self) -> (r: crate::ext::ciborium::value::Value) ensures crate::ext::cbv(r) == self@ { unimplemented!() }
//#endif
    }
    impl SerErr {
        #[verifier::external_body] pub fn custom<T>(t: T) -> (r: SerErr) { unimplemented!() }
        #[verifier::external_body] pub fn missing() -> (r: SerErr) { unimplemented!() }
    }
    #[verifier::external_body] pub fn ser<T: Enc>(t: &T, s: Ser) -> (r: Result<Doc, SerErr>) ensures r is Ok, r->Ok_0@ == t.enc() { unimplemented!() }
    #[verifier::external_body] pub fn de<T: Enc>(d: De) -> (r: Result<T, SerErr>) ensures (match crate::ext::decoded::<T>(d@) { Some(v) => r == Result::<T, SerErr>::Ok(v), None => r is Err }) { unimplemented!() }
    #[verifier::external_body] pub fn nonnull(d: De) -> (r: Option<De>) ensures r is None <==> d@ is Null, r is Some ==> r->Some_0@ == d@ { unimplemented!() }
    #[verifier::external_body] pub fn read(b: &[u8]) -> (r: Option<De>) ensures (match crate::ext::cbor_read(b@) { Some(c) => r is Some && r->Some_0@ == c, None => r is None }) { unimplemented!() }
    // a struct being written: its fields so far, and whether a name was used twice
    #[verifier::external_body] pub struct StructSer { _p: u8 }
    pub ghost struct SerV { pub m: Map<Str, CV>, pub twice: bool }
    impl View for StructSer { type V = SerV; uninterp spec fn view(&self) -> SerV; }
    impl StructSer {
        #[verifier::external_body] pub fn start(s: Ser) -> (r: StructSer) ensures r@ == (SerV { m: Map::empty(), twice: false }) { unimplemented!() }
        #[verifier::external_body] pub fn put(&mut self, k: Str, d: Doc) ensures final(self)@ == (SerV { m: old(self)@.m.insert(k, d@), twice: old(self)@.twice || old(self)@.m.contains_key(k) }) { unimplemented!() }
        #[verifier::external_body] pub fn end(self) -> (r: Doc) ensures !self@.twice ==> is_record(r@) && fields_of(r@) == self@.m { unimplemented!() }
    }
    // a struct being read: known only when the document is a record
    #[verifier::external_body] pub struct Fields { _p: u8 }
    impl View for Fields { type V = Option<Map<Str, CV>>; uninterp spec fn view(&self) -> Option<Map<Str, CV>>; }
    #[verifier::external_body] pub fn fields(d: De) -> (r: Result<Fields, SerErr>) ensures is_record(d@) ==> r is Ok && r->Ok_0@ == Some(fields_of(d@)) { unimplemented!() }
    impl Fields {
        #[verifier::external_body] pub fn get(&self, k: Str) -> (r: Result<Option<De>, SerErr>) ensures self@ is Some ==> r is Ok && (if self@->Some_0.contains_key(k) { r->Ok_0 is Some && r->Ok_0->Some_0@ == self@->Some_0[k] } else { r->Ok_0 is None }) { unimplemented!() }
    }
} }
impl<'a> Conv<serde_bytes::ByteBuf> for &'a [u8; 32] { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: serde_bytes::ByteBuf) -> bool { r@ == self@ } #[verifier::external_body] fn conv(self) -> serde_bytes::ByteBuf { unimplemented!() } }
impl<'a> Conv<serde_bytes::ByteBuf> for &'a [u8] { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: serde_bytes::ByteBuf) -> bool { r@ == self@ }
    #[verifier::external_body] fn conv(self) -> (r: serde_bytes::ByteBuf) { unimplemented!() } }
//#endif

// ---------------------------------------------------------------- minicbor (withdraw memo)
// an array whose only item other than null is the byte string b, at index k
pub closed spec fn cbor_array1(k: nat, b: Seq<u8>) -> Seq<u8> {
    seq![(0x81 + k) as u8] + Seq::new(k, |i: int| 0xf6u8) + (if b.len() < 24 { seq![(0x40 + b.len()) as u8] } else { seq![0x58u8, b.len() as u8] }) + b
}
// the memo of a withdrawal: the receiver in an array of one
pub closed spec fn memo_cbor(receiver: Seq<u8>) -> Seq<u8> { cbor_array1(0, receiver) }
//#if C31
pub broadcast proof fn memo_cbor_len(receiver: Seq<u8>) ensures #[trigger] memo_cbor(receiver).len() <= receiver.len() + 3 { }
//#endif
pub mod minicbor { use vstd::prelude::*; verus! {
    pub trait EncBytes { spec fn enc(&self) -> Seq<u8>; }
    pub struct Encoder { pub w: Vec<u8> }
    impl Encoder {
        pub fn new(w: Vec<u8>) -> (r: Encoder) ensures r.w == w { Encoder { w } }
        #[verifier::external_body]
        pub fn encode<T: EncBytes>(&mut self, t: T) -> (r: Result<(), crate::ext::Str>) ensures r is Ok, final(self).w@ == old(self).w@ + t.enc(), old(self).w@.len() == 0 ==> final(self).w@ == t.enc() { unimplemented!() }
        pub fn into_writer(self) -> (r: Vec<u8>) ensures r == self.w { self.w }
    }
} }

// ---------------------------------------------------------------- the Internet Computer
// one outgoing call: what was sent, with the ledger state when it was sent and when the answer came
pub ghost struct CallRec {
    pub callee: candid::Principal,
    pub method: Str,
    pub arg: ArgV,
    pub cycles: u128,
    pub delivered: bool,        // the call was answered without an error at the transport level
    pub reply: RespV,
    pub failure: Option<ic_cdk::call::Error>,
    pub pre: crate::storage::State,
    pub post: crate::storage::State,
    pub time_after: u64,
}
#[verifier::external_body]
pub struct ArgV { _p: u8 }
#[verifier::external_body]
pub struct RespV { _p: u8 }
pub uninterp spec fn argv<T>(t: T) -> ArgV;
pub uninterp spec fn resp_decode<T>(r: RespV) -> Option<T>;
pub ghost struct EnvV {
    pub time: u64,
    pub caller: candid::Principal,
    pub cert: [u8; 32],
    pub has_certificate: bool,
    pub certificate: Seq<u8>,
    pub committed: bool,       // an outgoing call has been made in this request
    pub must: bool,            // the request is one that must be accepted (C17)
    pub calls: Seq<CallRec>,
    pub avail: u128,
    pub accepted: u128,
}
#[verifier::external_body]
pub struct Env { _p: u8 }
// when aborting is ruled out
//#if C15
pub open spec fn hard(e: EnvV) -> bool { e.committed }
//#endif
//#if C17
pub open spec fn hard(e: EnvV) -> bool { e.must }
//#endif
// until the first outgoing call (what follows it is C15's)
//#if C31
pub open spec fn hard(e: EnvV) -> bool { e.must && !e.committed }
//#endif
//#if C18 C19 C20 C21 C22 C30
pub open spec fn hard(e: EnvV) -> bool { true }
//#endif
impl View for Env { type V = EnvV; uninterp spec fn view(&self) -> EnvV; }

pub mod ic_cdk {
    use vstd::prelude::*;
    pub mod api {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body]
        pub fn time(env: &crate::ext::Env) -> (r: u64) ensures r == env@.time { unimplemented!() }
        #[verifier::external_body]
        pub fn msg_caller(env: &crate::ext::Env) -> (r: crate::ext::candid::Principal) ensures r == env@.caller { unimplemented!() }
        #[verifier::external_body]
        pub fn msg_cycles_available(env: &crate::ext::Env) -> (r: u128) ensures r == env@.avail { unimplemented!() }
        #[verifier::external_body]
        pub fn msg_cycles_accept(max: u128, env: &mut crate::ext::Env) -> (r: u128)
            ensures r == (if max <= old(env)@.avail { max } else { old(env)@.avail }),
                final(env)@ == (crate::ext::EnvV { avail: (old(env)@.avail - r) as u128, accepted: (old(env)@.accepted + r) as u128, ..old(env)@ }), old(env)@.accepted + r <= u128::MAX { unimplemented!() }
        #[verifier::external_body]
        pub fn certified_data_set(h: [u8; 32], env: &mut crate::ext::Env) ensures final(env)@ == (crate::ext::EnvV { cert: h, ..old(env)@ }) { unimplemented!() }
        #[verifier::external_body]
        pub fn data_certificate(env: &crate::ext::Env) -> (r: Option<Vec<u8>>) ensures r is Some <==> env@.has_certificate, r is Some ==> r->Some_0@ == env@.certificate { unimplemented!() }
        }
    }
    pub mod management_canister {
        use vstd::prelude::*;
        verus! {
        pub type CanisterId = crate::ext::candid::Principal;
        #[verifier::external_body] pub struct LogVisibility { _p: u8 }
        #[verifier::external_body] pub struct EnvironmentVariable { _p: u8 }
        pub struct CanisterSettings {
            pub controllers: Option<Vec<crate::ext::candid::Principal>>,
            pub compute_allocation: Option<crate::ext::candid::Nat>,
            pub memory_allocation: Option<crate::ext::candid::Nat>,
            pub freezing_threshold: Option<crate::ext::candid::Nat>,
            pub reserved_cycles_limit: Option<crate::ext::candid::Nat>,
            pub log_visibility: Option<LogVisibility>,
            pub wasm_memory_limit: Option<crate::ext::candid::Nat>,
            pub wasm_memory_threshold: Option<crate::ext::candid::Nat>,
            pub environment_variables: Option<Vec<EnvironmentVariable>>,
        }
        impl crate::ext::Dflt for CanisterSettings {
            open spec fn dflt() -> Self { CanisterSettings { controllers: None, compute_allocation: None, memory_allocation: None, freezing_threshold: None, reserved_cycles_limit: None, log_visibility: None, wasm_memory_limit: None, wasm_memory_threshold: None, environment_variables: None } }
            fn default_() -> (r: Self) { CanisterSettings { controllers: None, compute_allocation: None, memory_allocation: None, freezing_threshold: None, reserved_cycles_limit: None, log_visibility: None, wasm_memory_limit: None, wasm_memory_threshold: None, environment_variables: None } }
        }
        pub struct DepositCyclesArgs { pub canister_id: crate::ext::candid::Principal }
        pub struct DepositFut { pub canister_id: crate::ext::candid::Principal, pub cycles: u128 }
        pub fn deposit_cycles(a: &DepositCyclesArgs, cycles: u128) -> (r: DepositFut) ensures r.canister_id == a.canister_id, r.cycles == cycles { DepositFut { canister_id: a.canister_id, cycles } }
        impl DepositFut {
            #[verifier::external_body]
            pub fn vawait(self, st: &mut crate::storage::State, env: &mut crate::ext::Env) -> (r: Result<(), crate::ext::ic_cdk::call::Error>)
                requires crate::spec::guarantee(*old(st), old(env)@),
                ensures crate::ext::awaited(*old(st), *final(st), old(env)@, final(env)@, crate::ext::mgmt(), LIT("deposit_cycles"), crate::ext::argv(self.canister_id), self.cycles, r is Ok),
                    r is Err ==> final(env)@.calls.last().failure == Some(r->Err_0) { unimplemented!() }
        }
        }
    }
    pub mod call {
        use vstd::prelude::*;
        verus! {
        #[verifier::external_body] pub struct InsufficientLiquidCycleBalance { _p: u8 }
        #[verifier::external_body] pub struct CallPerformFailed { _p: u8 }
        #[verifier::external_body] pub struct CandidDecodeFailed { _p: u8 }
        #[verifier::external_body] pub struct CallRejected { _p: u8 }
        #[verifier::external_body] pub struct CallFailed { _p: u8 }
        pub uninterp spec fn rej_code(r: CallRejected) -> Option<RejectCode>;
        pub uninterp spec fn rej_msg(r: CallRejected) -> crate::ext::Str;
        impl CallRejected {
            #[verifier::external_body]
            pub fn reject_code(&self) -> (r: Result<RejectCode, crate::ext::Str>) ensures (match rej_code(*self) { Some(c) => r == Result::<RejectCode, crate::ext::Str>::Ok(c), None => r is Err }) { unimplemented!() }
            #[verifier::external_body]
            pub fn reject_message(&self) -> (r: crate::ext::Str) ensures r == rej_msg(*self) { unimplemented!() }
        }
        pub enum RejectCode { SysFatal, SysTransient, DestinationInvalid, CanisterReject, CanisterError, SysUnknown }
        pub enum Error {
            InsufficientLiquidCycleBalance(InsufficientLiquidCycleBalance),
            CallPerformFailed(CallPerformFailed),
            CallRejected(CallRejected),
            CandidDecodeFailed(CandidDecodeFailed),
        }
        pub uninterp spec fn err_of(f: CallFailed) -> Error;
        impl crate::ext::Conv<Error> for CallFailed { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: Error) -> bool { !(r is CandidDecodeFailed) && r == err_of(self) }
            #[verifier::external_body] fn conv(self) -> (r: Error) { unimplemented!() } }
        impl crate::ext::Conv<Error> for CandidDecodeFailed { open spec fn conv_req(self) -> bool { true } open spec fn conv_ens(self, r: Error) -> bool { r is CandidDecodeFailed }
            #[verifier::external_body] fn conv(self) -> (r: Error) { unimplemented!() } }
        #[verifier::reject_recursive_types(T)]
        pub struct Call<T> { pub callee: crate::ext::candid::Principal, pub method: crate::ext::Str, pub arg: Option<T>, pub cycles: u128 }
        impl Call<()> {
            pub fn unbounded_wait(callee: crate::ext::candid::Principal, method: crate::ext::Str) -> (r: Call<()>) ensures r.callee == callee, r.method == method, r.cycles == 0, r.arg is None { Call { callee, method, arg: None, cycles: 0 } }
            pub fn with_arg<T>(self, t: T) -> (r: Call<T>) ensures r.callee == self.callee, r.method == self.method, r.cycles == self.cycles, r.arg == Some(t) { Call { callee: self.callee, method: self.method, arg: Some(t), cycles: self.cycles } }
        }
        impl<T> Call<T> {
            pub fn with_cycles(self, c: u128) -> (r: Call<T>) ensures r == (Call { cycles: c, ..self }) { Call { callee: self.callee, method: self.method, arg: self.arg, cycles: c } }
            #[verifier::external_body]
            pub fn vawait(self, st: &mut crate::storage::State, env: &mut crate::ext::Env) -> (r: Result<Response, CallFailed>)
                requires crate::spec::guarantee(*old(st), old(env)@),
                ensures crate::ext::awaited(*old(st), *final(st), old(env)@, final(env)@, self.callee, self.method, crate::ext::argv(self.arg->Some_0), self.cycles, r is Ok),
                    r is Ok ==> r->Ok_0@ == final(env)@.calls.last().reply,
                    r is Err ==> final(env)@.calls.last().failure == Some(err_of(r->Err_0)) { unimplemented!() }
        }
        #[verifier::external_body] pub struct Response { _p: u8 }
        impl View for Response { type V = crate::ext::RespV; uninterp spec fn view(&self) -> crate::ext::RespV; }
        impl Response {
            #[verifier::external_body]
            pub fn candid<T>(&self) -> (r: Result<T, CandidDecodeFailed>) ensures (match crate::ext::resp_decode::<T>(self@) { Some(v) => r == Result::<T, CandidDecodeFailed>::Ok(v), None => r is Err }) { unimplemented!() }
        }
        }
    }
}
// What an outgoing call leaves behind: exactly this call was sent, the request is committed, and while it
// was pending other requests may have run, each of which moves the ledger along `crate::spec::rely`.
pub open spec fn awaited(s0: crate::storage::State, s1: crate::storage::State, e0: EnvV, e1: EnvV, callee: candid::Principal, method: Str, arg: ArgV, cycles: u128, ok: bool) -> bool {
    &&& e1.calls.len() == e0.calls.len() + 1
    &&& e1.calls.drop_last() =~= e0.calls
    &&& e1.calls.last().callee == callee && e1.calls.last().method == method && e1.calls.last().arg == arg
    &&& e1.calls.last().cycles == cycles && e1.calls.last().delivered == ok
    &&& e1.calls.last().pre == s0 && e1.calls.last().post == s1 && e1.calls.last().time_after == e1.time
    &&& e1.committed && e1.must == e0.must && e1.time >= e0.time && e1.caller == e0.caller && e1.avail == e0.avail && e1.accepted == e0.accepted
    &&& crate::spec::rely(s0, s1, e0, e1, cycles)
}
} // verus!
}
