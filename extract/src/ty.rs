//! Light-weight types used to drive desugaring (Option vs Result, transparent Cbor, ...).
use std::fmt;

#[derive(Clone, PartialEq)]
pub enum Ty {
    Unk,
    Adt(String, Vec<Ty>),
    Ref(Box<Ty>),
    Tup(Vec<Ty>),
    Arr(Box<Ty>),
    Int(String),
    Never,
}

impl fmt::Debug for Ty {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Ty::Unk => write!(f, "?"),
            Ty::Adt(n, a) if a.is_empty() => write!(f, "{n}"),
            Ty::Adt(n, a) => write!(f, "{n}<{a:?}>"),
            Ty::Ref(t) => write!(f, "&{t:?}"),
            Ty::Tup(t) => write!(f, "{t:?}"),
            Ty::Arr(t) => write!(f, "[{t:?}]"),
            Ty::Int(s) => write!(f, "{s}"),
            Ty::Never => write!(f, "!"),
        }
    }
}

impl Ty {
    pub fn peel(&self) -> &Ty {
        let mut t = self;
        while let Ty::Ref(i) = t {
            t = i;
        }
        t
    }
    pub fn is_ref(&self) -> bool {
        matches!(self, Ty::Ref(_))
    }
    pub fn adt(&self) -> Option<&str> {
        match self.peel() {
            Ty::Adt(n, _) => Some(n),
            _ => None,
        }
    }
    pub fn is_option(&self) -> bool {
        self.adt() == Some("Option")
    }
    pub fn is_result(&self) -> bool {
        self.adt() == Some("Result")
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self.peel() {
            Ty::Adt(_, a) => a.get(i).cloned().unwrap_or(Ty::Unk),
            _ => Ty::Unk,
        }
    }
    pub fn option(t: Ty) -> Ty {
        Ty::Adt("Option".into(), vec![t])
    }
    pub fn result(t: Ty, e: Ty) -> Ty {
        Ty::Adt("Result".into(), vec![t, e])
    }
    pub fn is_int(&self) -> bool {
        matches!(self.peel(), Ty::Int(_))
    }
    pub fn unit() -> Ty {
        Ty::Tup(vec![])
    }
    pub fn join(a: Ty, b: Ty) -> Ty {
        match (a, b) {
            (Ty::Unk, x) | (Ty::Never, x) => x,
            (x, Ty::Unk) | (x, Ty::Never) => x,
            (Ty::Adt(n, a), Ty::Adt(m, b)) if n == m && a.len() == b.len() => {
                Ty::Adt(n, a.into_iter().zip(b).map(|(x, y)| Ty::join(x, y)).collect())
            }
            (Ty::Int(a), Ty::Int(b)) => Ty::Int(if a == "int" { b } else { a }),
            (x, _) => x,
        }
    }
    pub fn subst(&self, names: &[String], args: &[Ty]) -> Ty {
        match self {
            Ty::Adt(n, a) => {
                if a.is_empty() {
                    if let Some(i) = names.iter().position(|x| x == n) {
                        return args.get(i).cloned().unwrap_or(Ty::Unk);
                    }
                }
                Ty::Adt(n.clone(), a.iter().map(|t| t.subst(names, args)).collect())
            }
            Ty::Ref(t) => Ty::Ref(Box::new(t.subst(names, args))),
            Ty::Arr(t) => Ty::Arr(Box::new(t.subst(names, args))),
            Ty::Tup(t) => Ty::Tup(t.iter().map(|t| t.subst(names, args)).collect()),
            t => t.clone(),
        }
    }
}

pub const INTS: &[&str] = &[
    "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
];
