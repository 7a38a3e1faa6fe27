//! Lowering of repository functions to the subset accepted by Verus (AST -> AST).
use crate::contracts::*;
use crate::db::*;
use crate::ty::{Ty, INTS};
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

pub type R<T> = std::result::Result<T, String>;
type TE = (Expr, Ty);

#[derive(Clone, Debug)]
pub enum Bind {
    Var(String, Ty),
    St,
    Cell,
    /// closure or function path, evaluated in a frame; what a named one sees of the names around it
    Clo(Box<Expr>, usize, Option<HashMap<String, Bind>>),
}

#[derive(Clone, Default)]
pub struct Frame {
    pub module: Path_,
    pub uses: Vec<UseMap>,
    pub scopes: Vec<HashMap<String, Bind>>,
    pub self_ty: Option<Ty>,
    pub suffix: String,
    pub ret: Option<Ty>,
    pub generics: Vec<String>,
    pub consts: Vec<HashMap<String, ConstItem>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Modular,
    Stub,
    Trusted,
    Inline,
}

pub struct Gen<'a> {
    pub db: &'a Db,
    pub ctr: &'a Contracts,
    pub slice: String,
    pub traps: bool,
    pub lits: BTreeMap<String, u64>,
    pub blits: BTreeMap<Vec<u8>, u64>,
    pub fx: HashMap<String, (u8, u8)>,
    pub needed: BTreeSet<String>,
    pub callees: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
    pub dropped: BTreeSet<String>,
    pub frames: Vec<Frame>,
    pub cur: usize,
    pub st_name: Option<String>,
    pub no_env: bool,
    pub used_st: u8,
    pub used_env: u8,
    pub fresh: usize,
    pub loops: usize,
    pub unattached: Vec<String>,
    pub stack: Vec<String>,
    pub pre: Vec<(Expr, Ty)>,
    pub pres: Vec<Stmt>,
    /// inside a copy of a loop body: which item it is for
    pub at: Option<Option<usize>>,
    pub statics: usize,
    pub veq_needed: BTreeSet<String>,
    pub try_all: bool,
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn path_expr(s: &str) -> Expr {
    syn::parse_str(s).unwrap_or_else(|e| panic!("path {s}: {e}"))
}
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(s.into())
}
fn show<T: ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    if s.len() > 120 {
        format!("{}…", s.chars().take(120).collect::<String>())
    } else {
        s
    }
}

pub fn is_state(t: &Ty) -> bool {
    t.adt() == Some("crate::storage::State")
}

impl<'a> Gen<'a> {
    pub fn new(db: &'a Db, ctr: &'a Contracts, slice: &str) -> Self {
        Gen {
            db,
            ctr,
            slice: slice.into(),
            traps: matches!(slice, "C15" | "C17" | "C18" | "C19" | "C20" | "C21" | "C22" | "C30" | "C31"),
            lits: BTreeMap::new(),
            blits: BTreeMap::new(),
            fx: HashMap::new(),
            needed: BTreeSet::new(),
            callees: BTreeSet::new(),
            inlined: BTreeSet::new(),
            dropped: BTreeSet::new(),
            frames: vec![],
            cur: 0,
            st_name: None,
            no_env: false,
            used_st: 0,
            used_env: 0,
            fresh: 0,
            loops: 0,
            unattached: vec![],
            stack: vec![],
            pre: vec![],
            pres: vec![],
            at: None,
            statics: 0,
            veq_needed: BTreeSet::new(),
            try_all: false,
        }
    }

    pub fn lit_id(&mut self, s: &str) -> u64 {
        let n = self.lits.len() as u64 + 1;
        *self.lits.entry(s.to_string()).or_insert(n)
    }
    pub fn lit(&mut self, s: &str) -> Expr {
        let n = self.lit_id(s);
        parse_quote!((crate::ext::Str { id: #n }))
    }

    pub fn f(&self) -> &Frame {
        &self.frames[self.cur]
    }
    pub fn fm(&mut self) -> &mut Frame {
        let c = self.cur;
        &mut self.frames[c]
    }
    pub fn push(&mut self) {
        self.fm().scopes.push(HashMap::new());
    }
    pub fn pop(&mut self) {
        self.fm().scopes.pop();
    }
    fn lookup(&self, n: &str) -> Option<Bind> {
        self.f().scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn bind(&mut self, n: &str, b: Bind) {
        self.fm().scopes.last_mut().unwrap().insert(n.into(), b);
    }
    fn bind_var(&mut self, n: &str, t: Ty) -> String {
        let nn = if n == "self" { "self_".to_string() + &self.f().suffix.clone() } else { format!("{n}{}", self.f().suffix) };
        let nn = if ["env", "st", "int", "nat", "its", "seq", "assert", "assume", "spec", "proof", "ghost", "tracked", "exec", "open", "closed", "forall", "exists", "choose", "requires", "ensures", "invariant", "decreases", "is", "has", "global", "broadcast", "layout"].contains(&nn.as_str()) { format!("{nn}_v") } else { nn };
        self.bind(n, Bind::Var(nn.clone(), t));
        nn
    }

    pub fn look(&self, n: &str) -> Option<Bind> { self.lookup(n) }
    pub fn bindx(&mut self, n: &str, b: Bind) { self.bind(n, b) }
    pub fn bind_v(&mut self, n: &str, t: Ty) -> String { self.bind_var(n, t) }
    pub fn stx(&mut self, l: u8) -> Expr { self.st(l) }
    pub fn envx(&mut self, l: u8) -> R<Expr> { self.env(l) }
    pub fn trapx(&mut self) -> R<Expr> { self.trap() }
    pub fn litx(&mut self, s: &str) -> Expr { self.lit(s) }
    pub fn mac_pub(&mut self, m: &Macro) -> R<TE> { self.mac(m) }
    pub fn variant_of(&self, segs: &[String]) -> Option<String> { self.resolved_variant(segs) }
    pub fn note(&mut self, a: &str) { self.note_type(a) }
    pub fn st_expr(&self, e: &Expr) -> bool { self.is_st_expr(e) }

    // ------------------------------------------------------------------ name resolution
    /// Resolve a path (segments) seen in the current frame to an absolute name
    /// ("crate::a::b", "std::…", or a bare prelude name).
    pub fn resolve(&self, segs: &[String]) -> String {
        self.resolve_in(segs, self.cur, 0)
    }
    fn resolve_in(&self, segs: &[String], frame: usize, depth: usize) -> String {
        let fr = &self.frames[frame];
        if depth > 12 {
            return segs.join("::");
        }
        if segs[0] == "crate" {
            return self.canon(segs);
        }
        if segs[0] == "self" {
            let mut v = vec!["crate".to_string()];
            v.extend(fr.module.clone());
            v.extend(segs[1..].iter().cloned());
            return self.canon(&v);
        }
        if segs[0] == "super" {
            let mut v = vec!["crate".to_string()];
            v.extend(fr.module.clone());
            v.pop();
            v.extend(segs[1..].iter().cloned());
            return self.canon(&v);
        }
        if segs[0] == "Self" {
            if let Some(t) = &fr.self_ty {
                if let Ty::Adt(n, _) = t.peel() {
                    let mut v: Vec<String> = n.split("::").map(|x| x.to_string()).collect();
                    v.extend(segs[1..].iter().cloned());
                    return v.join("::");
                }
            }
        }
        // function-local uses, innermost last
        for u in fr.uses.iter().rev() {
            if let Some(r) = self.via_use(u, segs, frame, depth) {
                return r;
            }
        }
        // module items
        let mut v = vec!["crate".to_string()];
        v.extend(fr.module.clone());
        v.extend(segs.iter().cloned());
        if self.exists_prefix(&v, fr.module.len() + 2) {
            return self.canon(&v);
        }
        if let Some(u) = self.db.mods.get(&join(&fr.module)) {
            if let Some(r) = self.via_use(u, segs, frame, depth) {
                return r;
            }
        }
        if segs[0] == "cycles_ledger" {
            let mut v = vec!["crate".to_string()];
            v.extend(segs[1..].iter().cloned());
            return self.canon(&v);
        }
        self.extern_path(segs)
    }
    fn via_use(&self, u: &UseMap, segs: &[String], frame: usize, depth: usize) -> Option<String> {
        if let Some(p) = u.names.get(&segs[0]) {
            if p.len() == 2 && p[0] == p[1] && segs.len() > 1 {
                return None; // a macro named like its crate
            }
            let mut v = p.clone();
            v.extend(segs[1..].iter().cloned());
            if v.as_slice() == segs {
                return Some(self.extern_path(segs));
            }
            // the target of a `use` is resolved in the module, not through the same name again
            return Some(self.resolve_use_target(&v, frame, depth + 1));
        }
        for g in &u.globs {
            let base = self.resolve_use_target(g, frame, depth + 1);
            // enum glob
            if let Some(vs) = self.enum_variants(&base) {
                if vs.contains(&segs[0]) {
                    return Some(format!("{base}::{}", segs.join("::")));
                }
            } else {
                let mut v: Vec<String> = base.split("::").map(|x| x.to_string()).collect();
                let n = v.len();
                v.extend(segs.iter().cloned());
                if v[0] == "crate" && self.exists_prefix(&v, n + 1) {
                    return Some(self.canon(&v));
                }
                // glob import of a module: follow its own uses (use super::*)
                if v[0] == "crate" {
                    let m: Vec<String> = v[1..n].to_vec();
                    if let Some(u2) = self.db.mods.get(&join(&m)) {
                        if let Some(p) = u2.names.get(&segs[0]) {
                            let mut w = p.clone();
                            w.extend(segs[1..].iter().cloned());
                            return Some(self.extern_or_crate(&w, &m));
                        }
                    }
                }
            }
        }
        None
    }
    fn extern_or_crate(&self, segs: &[String], module: &[String]) -> String {
        if segs[0] == "crate" {
            return self.canon(segs);
        }
        let mut v = vec!["crate".to_string()];
        v.extend(module.iter().cloned());
        v.extend(segs.iter().cloned());
        if self.exists_prefix(&v, module.len() + 2) {
            return self.canon(&v);
        }
        self.extern_path(segs)
    }
    fn resolve_use_target(&self, segs: &[String], frame: usize, depth: usize) -> String {
        let fr = &self.frames[frame];
        match segs[0].as_str() {
            "crate" | "self" | "super" => self.resolve_in(segs, frame, depth),
            _ => {
                // relative to module (2018 uniform paths) or extern crate
                let mut v = vec!["crate".to_string()];
                v.extend(fr.module.clone());
                v.extend(segs.iter().cloned());
                if self.exists_prefix(&v, fr.module.len() + 2) {
                    return self.canon(&v);
                }
                if segs.len() > 1 || depth < 3 {
                    if let Some(u) = self.db.mods.get(&join(&fr.module)) {
                        if let Some(p) = u.names.get(&segs[0]) {
                            let mut w = p.clone();
                            if w[0] != segs[0] && depth < 12 {
                                w.extend(segs[1..].iter().cloned());
                                return self.resolve_use_target(&w, frame, depth + 1);
                            }
                        }
                    }
                }
                if segs[0] == "cycles_ledger" {
                    let mut v = vec!["crate".to_string()];
                    v.extend(segs[1..].iter().cloned());
                    return self.canon(&v);
                }
                self.extern_path(segs)
            }
        }
    }
    /// does some repo item start at the prefix of length n?
    fn exists_prefix(&self, v: &[String], n: usize) -> bool {
        if v.len() < n {
            return false;
        }
        let k = join(&v[1..n]);
        self.db.fns.contains_key(&k)
            || self.db.consts.contains_key(&k)
            || self.db.structs.contains_key(&k)
            || self.db.enums.contains_key(&k)
            || self.db.aliases.contains_key(&k)
            || self.db.statics.contains_key(&k)
            || self.db.mods.contains_key(&k)
    }
    /// follow re-exports inside crate paths
    fn canon(&self, v: &[String]) -> String {
        // find the longest module prefix, then look at `use` re-exports
        for n in (1..v.len()).rev() {
            let m = v[1..n].to_vec();
            if self.db.mods.contains_key(&join(&m)) {
                if self.exists_prefix(v, n + 1) {
                    return v.join("::");
                }
                if let Some(u) = self.db.mods.get(&join(&m)) {
                    if let Some(p) = u.names.get(&v[n]) {
                        let mut w = p.clone();
                        w.extend(v[n + 1..].iter().cloned());
                        return self.extern_or_crate(&w, &m);
                    }
                }
                break;
            }
        }
        v.join("::")
    }
    fn extern_path(&self, segs: &[String]) -> String {
        let s = segs.join("::");
        if segs.len() == 1 {
            return s;
        }
        let tail = segs[1..].join("::");
        if ["Vec", "Option", "Result", "String", "Box", "Default", "u8", "u16", "u32", "u64", "u128", "usize", "From", "Into"].contains(&segs[0].as_str()) {
            return s;
        }
        match segs[0].as_str() {
            "std" | "core" | "alloc" => {
                let last = segs.last().unwrap().as_str();
                if tail.starts_with("collections") || tail.starts_with("time") || tail.starts_with("cmp::Ordering") {
                    format!("crate::ext::xstd::{tail}")
                } else if ["Option", "Result", "Vec", "Box"].contains(&last) {
                    last.to_string()
                } else {
                    format!("std::{tail}")
                }
            }
            // the same type under two public names
            "ciborium" if segs[1] == "Value" => format!("crate::ext::ciborium::value::{tail}"),
            "num_bigint" => format!("crate::ext::candid::{tail}"),
            _ => {
                let c = format!("crate::ext::{s}");
                // re-exports through another crate (e.g. icrc_ledger_types::… of candid types)
                c
            }
        }
    }
    pub fn enum_variants(&self, abs: &str) -> Option<Vec<String>> {
        if let Some(k) = abs.strip_prefix("crate::") {
            if let Some((_, e)) = self.db.enums.get(k) {
                return Some(e.variants.iter().map(|v| v.ident.to_string()).collect());
            }
        }
        let abs = self.ext_alias_name(abs);
        self.db.ext_enums.get(&abs).map(|v| v.iter().map(|x| x.0.clone()).collect())
    }
    fn ext_alias_name(&self, abs: &str) -> String {
        let mut a = abs.to_string();
        for _ in 0..4 {
            if let Some((_, Type::Path(p))) = self.db.ext_aliases.get(&a) {
                let mut m: Path_ = a.split("::").map(|x| x.to_string()).collect();
                m.pop();
                a = self.db.ext_abs(&m, &p.path);
            } else {
                break;
            }
        }
        a
    }

    // ------------------------------------------------------------------ types
    pub fn ty(&self, t: &Type) -> R<Ty> {
        Ok(match t {
            Type::Reference(r) => {
                let i = self.ty(&r.elem)?;
                if i == Ty::Adt("crate::ext::Str".into(), vec![]) && is_str(&r.elem) {
                    i
                } else {
                    Ty::Ref(Box::new(i))
                }
            }
            Type::Tuple(t) => Ty::Tup(t.elems.iter().map(|x| self.ty(x)).collect::<R<_>>()?),
            Type::Array(a) => Ty::Arr(Box::new(self.ty(&a.elem)?)),
            Type::Slice(a) => Ty::Arr(Box::new(self.ty(&a.elem)?)),
            Type::Paren(p) => self.ty(&p.elem)?,
            Type::Group(p) => self.ty(&p.elem)?,
            Type::Never(_) => Ty::Never,
            Type::Infer(_) => Ty::Unk,
            Type::Path(tp) => {
                let segs: Vec<String> = tp.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = tp.path.segments.last().unwrap();
                let args: Vec<Ty> = match &last.arguments {
                    PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(self.ty(t)) } else { None }).collect::<R<_>>()?,
                    _ => vec![],
                };
                if segs.len() == 1 {
                    let n = segs[0].as_str();
                    if INTS.contains(&n) {
                        return Ok(Ty::Int(n.into()));
                    }
                    if n == "bool" {
                        return Ok(Ty::Adt("bool".into(), vec![]));
                    }
                    if n == "String" || n == "str" {
                        return Ok(Ty::Adt("crate::ext::Str".into(), vec![]));
                    }
                    if self.f().generics.contains(&segs[0]) {
                        return Ok(Ty::Unk);
                    }
                    if n == "Self" {
                        if let Some(t) = &self.f().self_ty {
                            return Ok(t.clone());
                        }
                    }
                }
                let abs = self.resolve(&segs);
                if abs.ends_with("::Cbor") && args.len() == 1 {
                    return Ok(args[0].clone());
                }
                if let Some(k) = abs.strip_prefix("crate::") {
                    if let Some((m, al)) = self.db.aliases.get(k) {
                        let mut g = Gen::new(self.db, self.ctr, &self.slice);
                        let names: Vec<String> = al.generics.type_params().map(|t| t.ident.to_string()).collect();
                        g.frames = vec![Frame { module: m.clone(), ..Default::default() }];
                        return Ok(g.ty(&al.ty)?.subst(&names, &args));
                    }
                    if let Some((gens, t)) = self.db.ext_aliases.get(&abs) {
                        let mut m: Path_ = abs.split("::").map(|s| s.to_string()).collect();
                        m.pop();
                        return Ok(self.db.ext_ty(&m, t).subst(gens, &args));
                    }
                }
                Ty::Adt(abs, args)
            }
            _ => return err(format!("unsupported type {}", show(t))),
        })
    }

    /// Rust type text for a lowered type
    pub fn ty_tokens(&mut self, t: &Type) -> R<TokenStream> {
        Ok(match t {
            Type::Reference(r) => {
                if is_str(&r.elem) {
                    return Ok(quote!(crate::ext::Str));
                }
                let i = self.ty_tokens(&r.elem)?;
                let l = &r.lifetime;
                let m = &r.mutability;
                quote!(& #l #m #i)
            }
            Type::Tuple(t) => {
                let v: Vec<TokenStream> = t.elems.iter().map(|x| self.ty_tokens(x)).collect::<R<_>>()?;
                if v.len() == 1 { quote!((#(#v),* ,)) } else { quote!((#(#v),*)) }
            }
            Type::Array(a) => {
                let i = self.ty_tokens(&a.elem)?;
                let n = self.const_eval(&a.len).ok_or_else(|| format!("array length {}", show(&a.len)))?;
                let n = proc_macro2::Literal::u128_unsuffixed(n);
                quote!([#i; #n])
            }
            Type::Slice(a) => {
                let i = self.ty_tokens(&a.elem)?;
                quote!([#i])
            }
            Type::Paren(p) => self.ty_tokens(&p.elem)?,
            Type::Group(p) => self.ty_tokens(&p.elem)?,
            Type::Never(_) => quote!(!),
            Type::Infer(_) => quote!(_),
            Type::Path(tp) => {
                let segs: Vec<String> = tp.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = tp.path.segments.last().unwrap().clone();
                let mut targs = vec![];
                let mut lts = vec![];
                if let PathArguments::AngleBracketed(a) = &last.arguments {
                    for x in &a.args {
                        match x {
                            GenericArgument::Type(t) => targs.push(self.ty_tokens(t)?),
                            GenericArgument::Lifetime(l) => lts.push(l.clone()),
                            _ => return err(format!("unsupported generic argument in {}", show(t))),
                        }
                    }
                }
                if segs.len() == 1 {
                    let n = segs[0].as_str();
                    if INTS.contains(&n) || n == "bool" || self.f().generics.contains(&segs[0]) {
                        let i = ident(n);
                        return Ok(quote!(#i));
                    }
                    if n == "String" || n == "str" {
                        return Ok(quote!(crate::ext::Str));
                    }
                }
                let abs = self.resolve(&segs);
                if abs.ends_with("::Cbor") && targs.len() == 1 {
                    return Ok(targs[0].clone());
                }
                if let Some(k) = abs.strip_prefix("crate::") {
                    if let Some((m, al)) = self.db.aliases.get(k).cloned() {
                        let save = (std::mem::replace(&mut self.frames, vec![Frame { module: m, ..Default::default() }]), self.cur);
                        self.cur = 0;
                        let r = if targs.is_empty() { self.ty_tokens(&al.ty) } else { err("generic alias with arguments") };
                        self.frames = save.0;
                        self.cur = save.1;
                        return r;
                    }
                    if self.db.structs.contains_key(k) || self.db.enums.contains_key(k) {
                        self.needed.insert(k.to_string());
                    } else if !self.db.ext_items.contains(&abs) {
                        return err(format!("unknown type {abs}"));
                    }
                }
                let p: Expr = syn::parse_str(&abs).map_err(|e| format!("{abs}: {e}"))?;
                if targs.is_empty() && lts.is_empty() { quote!(#p) } else { quote!(#p < #(#lts,)* #(#targs),* >) }
            }
            _ => return err(format!("unsupported type {}", show(t))),
        })
    }

    pub fn field_ty(&self, t: &Ty, name: &str) -> Ty {
        match t.peel() {
            Ty::Tup(v) => name.parse::<usize>().ok().and_then(|i| v.get(i).cloned()).unwrap_or(Ty::Unk),
            Ty::Adt(n, args) => {
                if let Some(k) = n.strip_prefix("crate::") {
                    if let Some((m, s)) = self.db.structs.get(k) {
                        for (i, f) in s.fields.iter().enumerate() {
                            if f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()) == name {
                                let mut g = Gen::new(self.db, self.ctr, &self.slice);
                                g.frames = vec![Frame { module: m.clone(), ..Default::default() }];
                                return g.ty(&f.ty).unwrap_or(Ty::Unk);
                            }
                        }
                    }
                }
                if let Some(fs) = self.db.ext_structs.get(n) {
                    let mut m: Path_ = n.split("::").map(|s| s.to_string()).collect();
                    m.pop();
                    if let Some((_, t)) = fs.iter().find(|x| x.0 == name) {
                        let g = self.db.ext_struct_generics.get(n).cloned().unwrap_or_default();
                        return self.db.ext_ty(&m, t).subst(&g, args);
                    }
                }
                Ty::Unk
            }
            _ => Ty::Unk,
        }
    }

    /// fields of an enum variant: (name, type)
    fn variant_fields(&self, abs: &str) -> Option<Vec<(String, Ty)>> {
        let (en, v) = abs.rsplit_once("::")?;
        if let Some(k) = en.strip_prefix("crate::") {
            if let Some((m, e)) = self.db.enums.get(k) {
                let var = e.variants.iter().find(|x| x.ident == v)?;
                let mut g = Gen::new(self.db, self.ctr, &self.slice);
                g.frames = vec![Frame { module: m.clone(), ..Default::default() }];
                return Some(var.fields.iter().enumerate().map(|(i, f)| (f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), g.ty(&f.ty).unwrap_or(Ty::Unk))).collect());
            }
        }
        let en = self.ext_alias_name(en);
        if let Some(vs) = self.db.ext_enums.get(&en) {
            let x = vs.iter().find(|x| x.0 == v)?;
            let mut m: Path_ = en.split("::").map(|s| s.to_string()).collect();
            m.pop();
            return Some(x.1.iter().map(|(n, t)| (n.clone(), self.db.ext_ty(&m, t))).collect());
        }
        None
    }

    // ------------------------------------------------------------------ constants
    pub fn const_item(&self, e: &ExprPath) -> Option<(String, ConstItem)> {
        let segs: Vec<String> = e.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            if let Some(c) = self.f().consts.iter().rev().find_map(|m| m.get(&segs[0])) {
                return Some((segs[0].clone(), c.clone()));
            }
        }
        let abs = self.resolve(&segs);
        let k = abs.strip_prefix("crate::")?;
        self.db.consts.get(k).map(|c| (k.to_string(), c.clone()))
    }
    pub fn const_eval(&self, e: &Expr) -> Option<u128> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
            Expr::Lit(ExprLit { lit: Lit::Byte(i), .. }) => Some(i.value() as u128),
            Expr::Paren(p) => self.const_eval(&p.expr),
            Expr::Group(p) => self.const_eval(&p.expr),
            Expr::Cast(c) => {
                let v = self.const_eval(&c.expr)?;
                match show(&*c.ty).as_str() {
                    "u8" => Some(v as u8 as u128),
                    "u32" => Some(v as u32 as u128),
                    "u64" | "usize" => Some(v as u64 as u128),
                    "u128" => Some(v),
                    _ => None,
                }
            }
            Expr::Binary(b) => {
                let (x, y) = (self.const_eval(&b.left)?, self.const_eval(&b.right)?);
                match b.op {
                    BinOp::Add(_) => x.checked_add(y),
                    BinOp::Sub(_) => x.checked_sub(y),
                    BinOp::Mul(_) => x.checked_mul(y),
                    BinOp::Div(_) => x.checked_div(y),
                    _ => None,
                }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() >= 2 && s[s.len() - 1] == "MAX" {
                    return match s[s.len() - 2].as_str() {
                        "u8" => Some(u8::MAX as u128),
                        "u32" => Some(u32::MAX as u128),
                        "u64" | "usize" => Some(u64::MAX as u128),
                        "u128" => Some(u128::MAX),
                        _ => None,
                    };
                }
                if s.len() >= 2 && s[s.len() - 1] == "MIN" && INTS.contains(&s[s.len() - 2].as_str()) && s[s.len() - 2].starts_with('u') {
                    return Some(0);
                }
                if s.len() == 1 && self.lookup(&s[0]).is_some() {
                    return None;
                }
                let (_, c) = self.const_item(p)?;
                if let Type::Path(tp) = &c.ty {
                    if !INTS.contains(&show(tp).as_str()) {
                        return None;
                    }
                }
                let mut g = Gen::new(self.db, self.ctr, &self.slice);
                g.frames = vec![Frame { module: c.module.clone(), ..Default::default() }];
                g.const_eval(&c.expr)
            }
            _ => None,
        }
    }

    // ------------------------------------------------------------------ patterns
    fn path_segs(p: &Path) -> Vec<String> {
        p.segments.iter().map(|s| s.ident.to_string()).collect()
    }
    fn resolved_variant(&self, segs: &[String]) -> Option<String> {
        if segs.len() == 1 && ["Some", "None", "Ok", "Err"].contains(&segs[0].as_str()) {
            return Some(segs[0].clone());
        }
        let abs = self.resolve(segs);
        let (en, v) = abs.rsplit_once("::")?;
        // Self::Variant / Type::Variant
        let vs = self.enum_variants(en)?;
        if vs.contains(&v.to_string()) {
            Some(format!("{}::{v}", self.ext_alias_name(en)))
        } else {
            None
        }
    }
    fn note_type(&mut self, abs: &str) {
        if let Some(k) = abs.strip_prefix("crate::") {
            if self.db.enums.contains_key(k) || self.db.structs.contains_key(k) {
                self.needed.insert(k.to_string());
            }
        }
    }
    pub fn pat(&mut self, p: &Pat, t: &Ty) -> R<Pat> {
        let isref = t.is_ref();
        let wrap = |x: Ty| if isref && !x.is_ref() { Ty::Ref(Box::new(x)) } else { x };
        Ok(match p {
            Pat::Wild(_) | Pat::Rest(_) => p.clone(),
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() {
                    if n == "None" {
                        return Ok(p.clone());
                    }
                    if n.chars().next().unwrap().is_uppercase() {
                        if let Some(v) = self.resolved_variant(&[n.clone()]) {
                            self.note_type(v.rsplit_once("::").map(|x| x.0).unwrap_or(""));
                            let e = path_expr(&v);
                            return Ok(Pat::Verbatim(quote!(#e)));
                        }
                        let ep: ExprPath = parse_quote!(#i);
                        if let Some(v) = self.const_eval(&Expr::Path(ep)) {
                            let l = proc_macro2::Literal::u128_unsuffixed(v);
                            return Ok(Pat::Verbatim(quote!(#l)));
                        }
                    }
                }
                let sub = match &i.subpat {
                    Some((_, s)) => { let s = self.pat(s, t)?; quote!(@ #s) }
                    None => quote!(),
                };
                let bt = if i.by_ref.is_some() { Ty::Ref(Box::new(t.clone())) } else { t.clone() };
                let nn = ident(&self.bind_var(&n, bt));
                let (r, m) = (&i.by_ref, &i.mutability);
                Pat::Verbatim(quote!(#r #m #nn #sub))
            }
            Pat::Tuple(tp) => {
                let ts: Vec<Ty> = match t.peel() {
                    Ty::Tup(v) => v.clone(),
                    _ => vec![],
                };
                let mut out = vec![];
                for (i, x) in tp.elems.iter().enumerate() {
                    out.push(self.pat(x, &wrap(ts.get(i).cloned().unwrap_or(Ty::Unk)))?);
                }
                if out.len() == 1 { Pat::Verbatim(quote!((#(#out),* ,))) } else { Pat::Verbatim(quote!((#(#out),*))) }
            }
            Pat::TupleStruct(ts) => {
                let segs = Self::path_segs(&ts.path);
                let (head, fts): (String, Vec<Ty>) = match segs.last().unwrap().as_str() {
                    "Some" if segs.len() == 1 => ("Some".into(), vec![t.arg(0)]),
                    "Ok" if segs.len() == 1 => ("Ok".into(), vec![t.arg(0)]),
                    "Err" if segs.len() == 1 => ("Err".into(), vec![t.arg(1)]),
                    _ => {
                        if let Some(v) = self.resolved_variant(&segs) {
                            self.note_type(v.rsplit_once("::").map(|x| x.0).unwrap_or(""));
                            let f = self.variant_fields(&v).unwrap_or_default();
                            (v, f.into_iter().map(|x| x.1).collect())
                        } else {
                            let abs = self.resolve(&segs);
                            if abs.ends_with("::Cbor") {
                                return self.pat(&ts.elems[0], t);
                            }
                            self.note_type(&abs);
                            let tt = Ty::Adt(abs.clone(), vec![]);
                            let n = ts.elems.len();
                            let f = (0..n).map(|i| self.field_ty(&tt, &i.to_string())).collect();
                            (abs, f)
                        }
                    }
                };
                let mut out = vec![];
                for (i, x) in ts.elems.iter().enumerate() {
                    out.push(self.pat(x, &wrap(fts.get(i).cloned().unwrap_or(Ty::Unk)))?);
                }
                let h = path_expr(&head);
                Pat::Verbatim(quote!(#h ( #(#out),* )))
            }
            Pat::Struct(ps) => {
                let segs = Self::path_segs(&ps.path);
                let (head, fts): (String, HashMap<String, Ty>) = if let Some(v) = self.resolved_variant(&segs) {
                    self.note_type(v.rsplit_once("::").map(|x| x.0).unwrap_or(""));
                    let f = self.variant_fields(&v).unwrap_or_default();
                    (v, f.into_iter().collect())
                } else {
                    let abs = match self.resolve(&segs) {
                        a if segs == ["Self"] => a,
                        a => self.ext_alias_name(&a),
                    };
                    self.note_type(&abs);
                    let tt = Ty::Adt(abs.clone(), vec![]);
                    let m = ps.fields.iter().map(|f| { let n = member(&f.member); (n.clone(), self.field_ty(&tt, &n)) }).collect();
                    (abs, m)
                };
                let mut out = vec![];
                for f in &ps.fields {
                    let n = member(&f.member);
                    let sub = self.pat(&f.pat, &wrap(fts.get(&n).cloned().unwrap_or(Ty::Unk)))?;
                    let m = &f.member;
                    out.push(quote!(#m : #sub));
                }
                let h = path_expr(&head);
                let rest = if ps.rest.is_some() { quote!(..) } else { quote!() };
                Pat::Verbatim(quote!(#h { #(#out,)* #rest }))
            }
            Pat::Path(pp) => {
                let segs = Self::path_segs(&pp.path);
                if let Some(v) = self.resolved_variant(&segs) {
                    self.note_type(v.rsplit_once("::").map(|x| x.0).unwrap_or(""));
                    let e = path_expr(&v);
                    return Ok(Pat::Verbatim(quote!(#e)));
                }
                let ep = ExprPath { attrs: vec![], qself: None, path: pp.path.clone() };
                if let Some(v) = self.const_eval(&Expr::Path(ep)) {
                    let l = proc_macro2::Literal::u128_unsuffixed(v);
                    return Ok(Pat::Verbatim(quote!(#l)));
                }
                return err(format!("pattern path {}", show(p)));
            }
            Pat::Reference(r) => {
                let inner = match t {
                    Ty::Ref(i) => (**i).clone(),
                    x => x.clone(),
                };
                let s = self.pat(&r.pat, &inner)?;
                let m = &r.mutability;
                Pat::Verbatim(quote!(& #m #s))
            }
            Pat::Lit(l) => match &l.lit {
                Lit::Int(_) | Lit::Bool(_) => p.clone(),
                _ => return err(format!("literal pattern {}", show(p))),
            },
            Pat::Or(o) => {
                let v: Vec<Pat> = o.cases.iter().map(|x| self.pat(x, t)).collect::<R<_>>()?;
                Pat::Verbatim(quote!(#(#v)|*))
            }
            Pat::Paren(x) => {
                let s = self.pat(&x.pat, t)?;
                Pat::Verbatim(quote!((#s)))
            }
            Pat::Type(x) => {
                let tt = self.ty(&x.ty)?;
                let toks = self.ty_tokens(&x.ty)?;
                let s = self.pat(&x.pat, &tt)?;
                Pat::Verbatim(quote!(#s : #toks))
            }
            Pat::Range(r) => {
                let lo = r.start.as_ref().map(|e| self.const_eval(e).ok_or("range pattern")).transpose()?;
                let hi = r.end.as_ref().map(|e| self.const_eval(e).ok_or("range pattern")).transpose()?;
                let lo = lo.map(proc_macro2::Literal::u128_unsuffixed);
                let hi = hi.map(proc_macro2::Literal::u128_unsuffixed);
                let l = &r.limits;
                Pat::Verbatim(quote!(#lo #l #hi))
            }
            _ => return err(format!("unsupported pattern {}", show(p))),
        })
    }

    // ------------------------------------------------------------------ blocks and statements
    pub fn block(&mut self, b: &Block) -> R<(Block, Ty)> {
        self.push();
        let nu = self.f().uses.len();
        self.fm().consts.push(HashMap::new());
        // items first
        let mut um = UseMap::default();
        for s in &b.stmts {
            match s {
                Stmt::Item(Item::Use(u)) => add_use(&mut um, &u.tree, vec![], false),
                Stmt::Item(Item::Const(c)) => {
                    let m = self.f().module.clone();
                    let it = ConstItem { module: m, name: c.ident.to_string(), ty: (*c.ty).clone(), expr: (*c.expr).clone() };
                    self.fm().consts.last_mut().unwrap().insert(c.ident.to_string(), it);
                }
                Stmt::Item(i) => return err(format!("item inside a function: {}", show(i))),
                _ => {}
            }
        }
        self.fm().uses.push(um);
        let r = self.stmts(&b.stmts);
        self.fm().uses.truncate(nu);
        self.fm().consts.pop();
        self.pop();
        let (stmts, t) = r?;
        Ok((Block { brace_token: Default::default(), stmts }, t))
    }
    fn stmts(&mut self, ss: &[Stmt]) -> R<(Vec<Stmt>, Ty)> {
        let mut out: Vec<Stmt> = vec![];
        let mut last = Ty::unit();
        let n = ss.len();
        for (i, s) in ss.iter().enumerate() {
            match s {
                Stmt::Item(_) => {}
                Stmt::Local(l) => {
                    if l.attrs.iter().any(|a| a.path().is_ident("cfg")) && has_cfg_skip(&l.attrs) {
                        continue;
                    }
                    last = Ty::unit();
                    if self.local_closure(l, &ss[i + 1..], &mut out)? {
                        continue;
                    }
                    let (pat, ann) = match &l.pat {
                        Pat::Type(pt) => ((*pt.pat).clone(), Some((*pt.ty).clone())),
                        p => (p.clone(), None),
                    };
                    let at = match &ann {
                        Some(t) => self.ty(t)?,
                        None => Ty::Unk,
                    };
                    let atoks = match &ann {
                        Some(t) => { let x = self.ty_tokens(t)?; quote!(: #x) }
                        None => quote!(),
                    };
                    match &l.init {
                        None => {
                            let p = self.pat(&pat, &at)?;
                            out.push(Stmt::Expr(Expr::Verbatim(quote!(let #p #atoks ;)), None));
                        }
                        Some(init) => {
                            let (e, t) = self.ex(&init.expr)?;
                            let t = Ty::join(at, t);
                            if let Some((_, d)) = &init.diverge {
                                let (de, _) = self.ex(d)?;
                                let p = self.pat(&pat, &t)?;
                                let de = as_block(de);
                                let st: Stmt = stmt_let(quote!(#p #atoks), &e, Some(&de));
                                out.push(st);
                            } else {
                                // State aliases
                                if let Pat::Ident(pi) = &pat {
                                    if is_state(&t) && self.is_st_expr(&e) {
                                        self.bind(&pi.ident.to_string(), Bind::St);
                                        continue;
                                    }
                                }
                                let p = self.pat(&pat, &t)?;
                                out.push(stmt_let(quote!(#p #atoks), &e, None));
                            }
                        }
                    }
                }
                Stmt::Expr(e, semi) => {
                    let (x, t) = self.ex(e)?;
                    if is_unit_lit(&x) && semi.is_some() {
                        if i + 1 == n { last = Ty::unit(); }
                        continue;
                    }
                    last = if semi.is_some() { Ty::unit() } else { t.clone() };
                    if semi.is_some() && t == Ty::Never && i + 1 == n {
                        last = Ty::Never;
                    }
                    out.push(Stmt::Expr(x, *semi));
                }
                Stmt::Macro(m) => {
                    let (x, t) = self.mac(&m.mac)?;
                    let semi = m.semi_token.is_some();
                    if is_unit_lit(&x) {
                        if i + 1 == n { last = Ty::unit(); }
                        continue;
                    }
                    let islast = i + 1 == n;
                    last = if semi { if t == Ty::Never { Ty::Never } else { Ty::unit() } } else { t };
                    if semi || !islast {
                        out.push(Stmt::Expr(x, Some(Default::default())));
                    } else {
                        out.push(Stmt::Expr(x, None));
                    }
                }
            }
        }
        Ok((out, last))
    }

    /// `let f = |..| ..`: the closure is put in place where it is applied; what it captures keeps its meaning there
    fn local_closure(&mut self, l: &Local, rest: &[Stmt], out: &mut Vec<Stmt>) -> R<bool> {
        use syn::visit::{self, Visit};
        let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        let (Pat::Ident(pi), Some(init)) = (pat, &l.init) else { return Ok(false) };
        if pi.subpat.is_some() || init.diverge.is_some() {
            return Ok(false);
        }
        let mut v = &*init.expr;
        while let Expr::Paren(ExprParen { expr, .. }) | Expr::Group(ExprGroup { expr, .. }) | Expr::Reference(ExprReference { expr, .. }) = v {
            v = expr;
        }
        let name = pi.ident.to_string();
        match v {
            Expr::Closure(_) => {}
            Expr::Path(p) if p.qself.is_none() => {
                let segs = Self::path_segs(&p.path);
                if segs.len() == 1 && matches!(self.lookup(&segs[0]), Some(Bind::Clo(..))) {
                    let b = self.lookup(&segs[0]).unwrap();
                    self.bind(&name, b);
                    return Ok(true);
                }
                if segs.len() == 1 && self.lookup(&segs[0]).is_some() || !self.resolve(&segs).strip_prefix("crate::").map(|k| self.db.fns.contains_key(k)).unwrap_or(false) {
                    return Ok(false);
                }
            }
            _ => return Ok(false),
        }
        #[derive(Default)]
        struct V { pats: BTreeSet<String>, set: BTreeSet<String> }
        fn base(e: &Expr) -> Option<String> {
            match e {
                Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
                Expr::Field(f) => base(&f.base),
                Expr::Index(i) => base(&i.expr),
                Expr::Paren(p) => base(&p.expr),
                Expr::Unary(u) => base(&u.expr),
                _ => None,
            }
        }
        impl<'a> Visit<'a> for V {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) { self.pats.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
            fn visit_expr_assign(&mut self, a: &'a ExprAssign) { self.set.extend(base(&a.left)); visit::visit_expr_assign(self, a); }
            fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
                use BinOp::*;
                if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) { self.set.extend(base(&b.left)); }
                visit::visit_expr_binary(self, b);
            }
            fn visit_expr_reference(&mut self, r: &'a ExprReference) { if r.mutability.is_some() { self.set.extend(base(&r.expr)); } visit::visit_expr_reference(self, r); }
        }
        fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); }
                    proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
                    _ => {}
                }
            }
        }
        let mut caps: HashMap<String, Bind> = HashMap::new();
        for s in &self.f().scopes {
            caps.extend(s.iter().map(|(k, b)| (k.clone(), b.clone())));
        }
        let (mut after, mut inside, mut used) = (V::default(), V::default(), BTreeSet::new());
        rest.iter().for_each(|s| after.visit_stmt(s));
        inside.visit_expr(v);
        idents(v.to_token_stream(), &mut used);
        let moves = matches!(v, Expr::Closure(c) if c.capture.is_some());
        for n in &used {
            let Some(Bind::Var(en, t)) = caps.get(n).cloned() else { continue };
            let set = inside.set.contains(n);
            if !after.pats.contains(n) && !(moves && (set || after.set.contains(n))) {
                continue;
            }
            if set {
                return err(format!("the closure {name} changes {n}"));
            }
            self.fresh += 1;
            let (a, b) = (ident(&format!("{en}__c{}", self.fresh)), ident(&en));
            out.push(parse_quote!(let #a = #b;));
            caps.insert(n.clone(), Bind::Var(a.to_string(), t));
        }
        let fr = self.cur;
        self.bind(&name, Bind::Clo(Box::new(v.clone()), fr, Some(caps)));
        Ok(true)
    }
    fn is_st_expr(&self, e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => self.is_st_expr(&p.expr),
            Expr::Reference(r) => self.is_st_expr(&r.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.is_st_expr(expr),
            Expr::Path(p) => p.path.get_ident().map(|i| Some(i.to_string()) == self.st_name || i == "st").unwrap_or(false),
            _ => false,
        }
    }
    fn st(&mut self, level: u8) -> Expr {
        let n = match &self.st_name {
            Some(n) => n.clone(),
            None => {
                self.used_st = self.used_st.max(level);
                "st".into()
            }
        };
        let i = ident(&n);
        parse_quote!(#i)
    }
    fn env(&mut self, level: u8) -> R<Expr> {
        if self.no_env {
            return err("a conversion (From impl) needs the system environment");
        }
        self.used_env = self.used_env.max(level);
        Ok(parse_quote!(env))
    }
    fn trap(&mut self) -> R<Expr> {
        if self.no_env {
            return Ok(parse_quote!(crate::ext::trap0()));
        }
        if self.traps {
            let e = self.env(1)?;
            return Ok(parse_quote!(crate::ext::trap(&*#e)));
        }
        Ok(parse_quote!(crate::ext::trap()))
    }

    // ------------------------------------------------------------------ macros
    fn mac(&mut self, m: &Macro) -> R<TE> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "log" | "println" | "eprintln" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
                self.dropped.insert(format!("{name}!"));
                Ok((parse_quote!(()), Ty::unit()))
            }
            "format" => {
                self.dropped.insert("format! (text content)".into());
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                if let Some(a) = args {
                    if a.len() == 1 {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &a[0] {
                            if !s.value().contains('{') {
                                return Ok((self.lit(&s.value()), Ty::Adt("crate::ext::Str".into(), vec![])));
                            }
                        }
                    }
                }
                Ok((parse_quote!(crate::ext::fmt_str()), Ty::Adt("crate::ext::Str".into(), vec![])))
            }
            "anyhow" => Ok((parse_quote!(crate::ext::anyhow_err()), Ty::Adt("crate::ext::anyhow::Error".into(), vec![]))),
            "bail" => {
                Ok((parse_quote!(return Err(crate::ext::anyhow_err())), Ty::Never))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => Ok((self.trap()?, Ty::Never)),
            "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                let (c, _) = self.ex(&args[0])?;
                let t = self.trap()?;
                Ok((parse_quote!(if !(#c) { #t; }), Ty::unit()))
            }
            "assert_eq" | "assert_ne" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map_err(|e| e.to_string())?;
                let (a, b) = (&args[0], &args[1]);
                let e: Expr = if name == "assert_eq" { parse_quote!(#a == #b) } else { parse_quote!(#a != #b) };
                let (c, _) = self.ex(&e)?;
                let t = self.trap()?;
                Ok((parse_quote!(if !(#c) { #t; }), Ty::unit()))
            }
            "vec" => {
                if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let mut v = vec![];
                    let mut t = Ty::Unk;
                    for a in &args {
                        let (x, tt) = self.ex(a)?;
                        t = Ty::join(t, tt);
                        v.push(x);
                    }
                    let e: Expr = if v.is_empty() { parse_quote!(Vec::new()) } else { parse_quote!(vec![#(#v),*]) };
                    return Ok((e, Ty::Adt("Vec".into(), vec![t])));
                }
                err("vec! repeat")
            }
            "matches" => {
                let (e, p, g) = m
                    .parse_body_with(|input: parse::ParseStream| {
                        let e: Expr = input.parse()?;
                        input.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(input)?;
                        let g = if input.peek(Token![if]) {
                            input.parse::<Token![if]>()?;
                            Some(input.parse::<Expr>()?)
                        } else {
                            None
                        };
                        let _ = input.parse::<Option<Token![,]>>();
                        Ok((e, p, g))
                    })
                    .map_err(|e| e.to_string())?;
                let m: Expr = match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                };
                self.ex(&m)
            }
            n => err(format!("macro {n}!")),
        }
    }
}

pub fn is_str(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.is_ident("str"))
}
pub fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}
pub fn is_unit_lit(e: &Expr) -> bool {
    matches!(e, Expr::Tuple(t) if t.elems.is_empty())
}
pub fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => parse_quote!({ #e }),
    }
}
pub fn stmt_let(pat: TokenStream, e: &Expr, diverge: Option<&Block>) -> Stmt {
    // `let` is kept in a structured form so that the return eliminator can see the initialiser
    let p = Pat::Verbatim(pat);
    Stmt::Local(Local {
        attrs: vec![],
        let_token: Default::default(),
        pat: p,
        init: Some(LocalInit {
            eq_token: Default::default(),
            expr: Box::new(e.clone()),
            diverge: diverge.map(|d| (Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: d.clone() })))),
        }),
        semi_token: Default::default(),
    })
}
