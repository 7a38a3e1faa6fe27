//! What serde's derive macros generate, spelled out as functions so that it can be put under contract:
//! `serde_ser_X` / `serde_de_X` for every struct X deriving Serialize / Deserialize (from its serde attributes), the
//! repository's hand-written `serialize` / `deserialize` helpers made specific to one data format, and the
//! `Storable` implementations written with them.
use crate::db::*;
use quote::{quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

const P: &str = "crate::ext::serde";

fn derives(attrs: &[Attribute], n: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == n))
}

/// (key, value) pairs of all `#[serde(..)]` attributes; None when one cannot be read
fn serde_attrs(attrs: &[Attribute]) -> Option<Vec<(String, Option<String>)>> {
    let mut v = vec![];
    for a in attrs {
        if !a.path().is_ident("serde") {
            continue;
        }
        let l = match &a.meta {
            Meta::List(l) => l,
            _ => return None,
        };
        let ms = l.parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated).ok()?;
        for m in ms {
            let k = m.path().get_ident()?.to_string();
            match m {
                Meta::Path(_) => v.push((k, None)),
                Meta::NameValue(nv) => match nv.value {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => v.push((k, Some(s.value()))),
                    _ => return None,
                },
                Meta::List(_) => return None,
            }
        }
    }
    Some(v)
}

fn is_option(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false))
}

struct FieldSer {
    name: Ident,
    key: String,
    ty: Type,
    with: Option<String>,
    default: Option<Option<String>>,
    skip_if: Option<String>,
}

fn field(f: &Field) -> Option<FieldSer> {
    let name = f.ident.clone()?;
    let mut r = FieldSer { key: name.to_string(), name, ty: f.ty.clone(), with: None, default: None, skip_if: None };
    for (k, v) in serde_attrs(&f.attrs)? {
        match (k.as_str(), v) {
            ("rename", Some(v)) => r.key = v,
            ("with", Some(v)) => r.with = Some(v),
            ("default", v) => r.default = Some(v),
            ("skip_serializing_if", Some(v)) => r.skip_if = Some(v),
            _ => return None,
        }
    }
    Some(r)
}

fn struct_fns(s: &ItemStruct) -> Option<(Option<String>, Option<String>)> {
    if s.generics.type_params().count() > 0 || s.generics.lifetimes().count() > 0 {
        return None;
    }
    let n = &s.ident;
    let (mut into, mut try_from, mut transparent) = (None, None, false);
    for (k, v) in serde_attrs(&s.attrs)? {
        match (k.as_str(), v) {
            ("into", Some(v)) => into = Some(v),
            ("try_from", Some(v)) => try_from = Some(v),
            ("transparent", None) => transparent = true,
            _ => return None,
        }
    }
    let (mut ser, mut de) = (None, None);
    let sh = format!("fn serde_ser_{n}(x: &{n}, s: {P}::Ser) -> Result<{P}::Doc, {P}::SerErr>");
    let dh = format!("fn serde_de_{n}(d: {P}::De) -> Result<{n}, {P}::SerErr>");
    let newtype = match &s.fields {
        Fields::Unnamed(f) if f.unnamed.len() == 1 => {
            if f.unnamed[0].attrs.iter().any(|a| a.path().is_ident("serde")) {
                return None;
            }
            Some(f.unnamed[0].ty.clone())
        }
        Fields::Named(_) if !transparent => None,
        _ => return None,
    };
    let fields: Option<Vec<FieldSer>> = s.fields.iter().filter(|_| newtype.is_none()).map(field).collect();
    if derives(&s.attrs, "Serialize") {
        if let Some(t) = &into {
            ser = Some(format!("{sh} {{ {t}::from(x.clone()).serialize(s) }}"));
        } else if newtype.is_some() {
            ser = Some(format!("{sh} {{ x.0.serialize(s) }}"));
        } else {
            let mut b = format!("let mut serde_m = {P}::StructSer::start(s);\n");
            for f in fields.as_ref()? {
                let (i, k) = (&f.name, &f.key);
                let val = match &f.with {
                    Some(m) => format!("{m}::serialize(&x.{i}, {P}::Ser::fresh())?"),
                    None => format!("x.{i}.serialize({P}::Ser::fresh())?"),
                };
                let put = format!("let serde_f = {val}; serde_m.put({k:?}, serde_f);");
                b += &match f.skip_if.as_deref() {
                    None => format!("{put}\n"),
                    Some("Option::is_none") => format!("if !x.{i}.is_none() {{ {put} }}\n"),
                    Some("Option::is_some") => format!("if !x.{i}.is_some() {{ {put} }}\n"),
                    Some(p) => format!("if !{p}(&x.{i}) {{ {put} }}\n"),
                };
            }
            ser = Some(format!("{sh} {{ {b} Ok(serde_m.end()) }}"));
        }
    }
    if derives(&s.attrs, "Deserialize") {
        if let Some(t) = &try_from {
            de = Some(format!("{dh} {{ let serde_f = <{t}>::deserialize(d)?; match {n}::try_from(serde_f) {{ Ok(serde_t) => Ok(serde_t), Err(serde_e) => Err({P}::SerErr::custom(serde_e)) }} }}"));
        } else if let Some(t) = &newtype {
            let t = t.to_token_stream();
            de = Some(format!("{dh} {{ let serde_f = <{t}>::deserialize(d)?; Ok({n}(serde_f)) }}"));
        } else {
            let mut b = format!("let serde_m = {P}::fields(d)?;\n");
            let mut c = String::new();
            for (j, f) in fields.as_ref()?.iter().enumerate() {
                let (i, k, t) = (&f.name, &f.key, f.ty.to_token_stream());
                let some = match &f.with {
                    Some(m) => format!("{m}::deserialize(serde_d)?"),
                    None => format!("<{t}>::deserialize(serde_d)?"),
                };
                let none = match &f.default {
                    Some(Some(p)) => format!("{p}()"),
                    Some(None) if is_option(&f.ty) => "None".into(),
                    Some(None) => "Default::default()".into(),
                    None if is_option(&f.ty) && f.with.is_none() => "None".into(),
                    None => format!("return Err({P}::SerErr::missing())"),
                };
                b += &format!("let serde_k{j} = serde_m.get({k:?})?;\nlet serde_f{j}: {t} = match serde_k{j} {{ Some(serde_d) => {some}, None => {none} }};\n");
                c += &format!("{i}: serde_f{j}, ");
            }
            de = Some(format!("{dh} {{ {b} Ok({n} {{ {c} }}) }}"));
        }
    }
    Some((ser, de))
}

/// `S: Serializer` / `D: Deserializer<'de>` parameters become the prelude's types
struct Mono(Vec<(String, &'static str)>);
impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
        if p.leading_colon.is_some() || segs.is_empty() {
            return;
        }
        if let Some((_, to)) = self.0.iter().find(|x| segs[0].ident == x.0) {
            let (head, rest) = match segs.get(1).map(|s| s.ident.to_string()).as_deref() {
                Some("Ok") => ("Doc", 2),
                Some("Error") => ("SerErr", 2),
                _ => (*to, 1),
            };
            let mut n: Path = parse_str(&format!("{P}::{head}")).unwrap();
            n.segments.extend(segs[rest..].iter().cloned());
            *p = n;
        }
    }
}

/// `type A = T;` inside a function body
pub struct Local_(pub Vec<(String, Type)>);
impl VisitMut for Local_ {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut keep = vec![];
        let mut n = 0;
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Type(t)) if t.generics.params.is_empty() => {
                    n += 1;
                    self.0.push((t.ident.to_string(), (*t.ty).clone()));
                }
                s => keep.push(s),
            }
        }
        b.stmts = keep;
        visit_mut::visit_block_mut(self, b);
        let l = self.0.len();
        self.0.truncate(l - n);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let Some((_, ty)) = self.0.iter().rev().find(|x| i == &x.0) {
                    *t = ty.clone();
                }
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
        if p.qself.is_none() && p.path.segments.len() == 2 {
            let (a, b) = (p.path.segments[0].clone(), p.path.segments[1].clone());
            if let Some((_, ty)) = self.0.iter().rev().find(|x| a.ident == x.0) {
                if let Ok(Expr::Path(n)) = parse2::<Expr>(quote!(<#ty>::#b)) {
                    *p = n;
                }
            }
        }
    }
}

/// a `Storable` implementation read for one stored type
struct Store {
    ty: Type,
    wrapper: bool,
}
fn last_seg(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
impl VisitMut for Store {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = &*t {
            if last_seg(&p.path) == "Cow" {
                *t = parse_quote!(Vec<u8>);
                return;
            }
            if p.path.is_ident("Self") {
                *t = self.ty.clone();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // before the children: the wrapper's field and constructor
        if self.wrapper {
            if let Expr::Field(f) = &*e {
                if matches!(&*f.base, Expr::Path(p) if p.path.is_ident("self")) && matches!(&f.member, Member::Unnamed(i) if i.index == 0) {
                    *e = parse_quote!((*x));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match &*e {
            Expr::Path(p) if p.qself.is_none() && p.path.is_ident("self") => Some(parse_quote!(x)),
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "as_ref" => {
                let r = &m.receiver;
                Some(parse_quote!(#r.as_slice()))
            }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "into_owned" || m.method == "to_mut") => Some((*m.receiver).clone()),
            Expr::Call(c) => {
                let a: Vec<&Expr> = c.args.iter().collect();
                match &*c.func {
                    Expr::Path(p) => {
                        let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                        let s: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
                        match (s.as_slice(), a.len()) {
                            (["Self"], 1) | (["Cbor"], 1) if self.wrapper => {
                                let x = a[0];
                                Some(parse_quote!((#x)))
                            }
                            ([.., "Cow", "Owned"], 1) => {
                                let x = a[0];
                                Some(parse_quote!((#x)))
                            }
                            ([.., "Cow", "Borrowed"], 1) => {
                                let x = a[0];
                                Some(parse_quote!((#x).to_vec()))
                            }
                            (["ciborium", .., "into_writer"], 2) => {
                                let (x, b) = (a[0], a[1]);
                                Some(parse_quote!(match (#x).serialize(crate::ext::serde::Ser::fresh()) { Ok(serde_w) => Ok::<(), crate::ext::serde::SerErr>(serde_w.write(#b)), Err(serde_e) => Err(serde_e) }))
                            }
                            (["ciborium", .., "from_reader"], 1) => {
                                let mut t = self.ty.clone();
                                if let PathArguments::AngleBracketed(g) = &p.path.segments.last().unwrap().arguments {
                                    if let Some(GenericArgument::Type(x)) = g.args.first() {
                                        t = x.clone();
                                    }
                                }
                                let x = a[0];
                                Some(parse_quote!(match crate::ext::serde::read(#x) { Some(serde_r) => <#t>::deserialize(serde_r), None => Err(crate::ext::serde::SerErr::missing()) }))
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

fn insert(db: &mut Db, module: &[String], name: &str, sig: Signature, block: Block, source: &str) {
    let mut k = module.to_vec();
    k.push(name.into());
    let key = join(&k);
    db.fns.insert(key.clone(), FnItem { key, module: module.to_vec(), self_ty: None, sig, block, trait_: None, cfg_skip: false, impl_generics: vec![], source: source.into() });
}

pub fn synth(db: &mut Db) {
    for (_, f) in db.fns.iter_mut() {
        Local_(vec![]).visit_block_mut(&mut f.block);
        // generic (de)serialisation helpers
        let mut m: Vec<(String, &'static str)> = vec![];
        let mut look = |id: &Ident, bounds: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
            for b in bounds {
                if let TypeParamBound::Trait(t) = b {
                    match last_seg(&t.path).as_str() {
                        "Serializer" => m.push((id.to_string(), "Ser")),
                        "Deserializer" => m.push((id.to_string(), "De")),
                        _ => {}
                    }
                }
            }
        };
        for p in f.sig.generics.type_params() {
            look(&p.ident, &p.bounds);
        }
        if let Some(w) = &f.sig.generics.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    if let Type::Path(tp) = &t.bounded_ty {
                        if let Some(i) = tp.path.get_ident() {
                            look(i, &t.bounds);
                        }
                    }
                }
            }
        }
        if m.is_empty() || f.sig.generics.type_params().any(|p| !m.iter().any(|x| p.ident == x.0)) {
            continue;
        }
        f.sig.generics = Generics::default();
        let mut v = Mono(m);
        v.visit_signature_mut(&mut f.sig);
        v.visit_block_mut(&mut f.block);
    }
    let structs: Vec<(String, (Path_, ItemStruct))> = db.structs.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    for (_, (module, s)) in &structs {
        if let Some((a, b)) = struct_fns(s) {
            for t in [a, b].into_iter().flatten() {
                if let Ok(f) = parse_str::<ItemFn>(&t) {
                    let n = f.sig.ident.to_string();
                    insert(db, module, &n, f.sig, *f.block, "serde derive");
                }
            }
        }
    }
    // stored form: Cbor<Block> and Config
    for (module, wrapper, ty, tag, wrapped) in [("storage", "Cbor", "Block", "block", true), ("config", "Config", "Config", "config", false)] {
        for (m, suffix) in [("to_bytes", "to_bytes"), ("from_bytes", "from_bytes")] {
            let k = format!("{module}::{wrapper}::<Storable>{m}");
            if let Some(f) = db.fns.get(&k).cloned() {
                let t: Type = parse_str(ty).unwrap();
                let mut sig = f.sig.clone();
                let mut block = f.block.clone();
                let mut v = Store { ty: t.clone(), wrapper: wrapped };
                v.visit_signature_mut(&mut sig);
                v.visit_block_mut(&mut block);
                sig.generics = Generics::default();
                if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) {
                    sig.inputs[0] = parse_quote!(x: &#t);
                }
                let name = format!("{tag}_{suffix}");
                sig.ident = Ident::new(&name, proc_macro2::Span::call_site());
                insert(db, &[module.to_string()], &name, sig, block, &f.source);
            }
        }
    }
}
