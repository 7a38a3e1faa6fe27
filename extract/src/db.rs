//! Item database: the repository's modules and the external prelude.
use crate::ty::{Ty, INTS};
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

pub type Path_ = Vec<String>;

#[derive(Default, Clone)]
pub struct UseMap {
    pub names: HashMap<String, Path_>,
    pub globs: Vec<Path_>,
}

#[derive(Clone)]
pub struct FnItem {
    pub key: String,      // e.g. storage::State::credit
    pub module: Path_,    // e.g. ["storage"]
    pub self_ty: Option<Type>,
    pub sig: Signature,
    pub block: Block,
    pub trait_: Option<Path>, // trait impls
    pub cfg_skip: bool,
    pub impl_generics: Vec<String>,
    pub source: String,
}

#[derive(Clone)]
pub struct ConstItem {
    pub module: Path_,
    pub name: String,
    pub ty: Type,
    pub expr: Expr,
}

#[derive(Clone)]
pub struct FromImpl {
    pub module: Path_,
    pub source: Type,
    pub target: Type,
    pub try_: bool,
    pub error: Option<Type>,
    pub f: FnItem,
}

#[derive(Default)]
pub struct Db {
    pub hoisted: usize,
    /// traits declared in the repository
    pub traits: BTreeSet<String>,
    /// functions the system calls that may change the ledger
    pub entries: BTreeMap<String, String>,
    pub mods: BTreeMap<String, UseMap>,          // module path joined by ::
    pub fns: BTreeMap<String, FnItem>,           // crate fns & methods by key
    pub consts: BTreeMap<String, ConstItem>,
    pub structs: BTreeMap<String, (Path_, ItemStruct)>,
    pub enums: BTreeMap<String, (Path_, ItemEnum)>,
    pub aliases: BTreeMap<String, (Path_, ItemType)>,
    pub statics: BTreeMap<String, (Path_, Type, Expr)>, // thread_locals
    pub froms: Vec<FromImpl>,
    // external prelude
    pub ext_mods: BTreeSet<String>,
    pub ext_items: BTreeSet<String>,             // every named item crate::ext::...
    pub ext_fns: BTreeMap<String, ExtFn>,        // full path
    pub ext_methods: BTreeMap<String, Vec<(String, ExtFn)>>, // method name -> (type full path, fn)
    pub ext_enums: BTreeMap<String, Vec<(String, Vec<(String, Type)>, bool)>>,
    pub ext_structs: BTreeMap<String, Vec<(String, Type)>>,
    pub ext_struct_generics: BTreeMap<String, Vec<String>>,
    pub ext_aliases: BTreeMap<String, (Vec<String>, Type)>,
}

#[derive(Clone, Debug)]
pub struct ExtFn {
    pub module: Path_,
    pub params: Vec<String>,
    pub st: u8,
    pub env: u8, // 0 none 1 ref 2 mut
    pub ret: Option<Type>,
    pub impl_args: Vec<Type>,
    pub generics: Vec<String>,
    pub has_self: bool,
}

pub fn has_cfg_skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let p = &a.meta;
        match p {
            Meta::Path(p) => p.is_ident("test"),
            Meta::List(l) => {
                if l.path.is_ident("cfg") {
                    let s = l.tokens.to_string();
                    s.contains("test") || s.contains("verif_")
                } else {
                    false
                }
            }
            _ => false,
        }
    })
}

pub fn join(p: &[String]) -> String {
    p.join("::")
}

impl Db {
    pub fn add_file(&mut self, module: Path_, src: &str, label: &str) -> std::result::Result<(), String> {
        let mut file = syn::parse_file(src).map_err(|e| format!("cannot parse {label}: {e}"))?;
        crate::hoist::run(&mut file.items, &mut self.hoisted);
        self.add_items(module, &file.items, label);
        Ok(())
    }

    fn add_items(&mut self, module: Path_, items: &[Item], label: &str) {
        self.mods.entry(join(&module)).or_default();
        for it in items {
            match it {
                Item::Use(u) => {
                    let mut m = std::mem::take(self.mods.get_mut(&join(&module)).unwrap());
                    add_use(&mut m, &u.tree, vec![], u.leading_colon.is_some());
                    *self.mods.get_mut(&join(&module)).unwrap() = m;
                }
                Item::Fn(f) => {
                    if has_cfg_skip(&f.attrs) {
                        continue;
                    }
                    let mut k = module.clone();
                    k.push(f.sig.ident.to_string());
                    let key = join(&k);
                    for a in &f.attrs {
                        if let Some(n) = a.path().segments.last().map(|x| x.ident.to_string()) {
                            if ["update", "init", "post_upgrade", "pre_upgrade", "heartbeat", "inspect_message", "on_low_wasm_memory", "export_name"].contains(&n.as_str()) {
                                self.entries.insert(key.clone(), n);
                            }
                        }
                    }
                    self.fns.insert(
                        key.clone(),
                        FnItem { key, module: module.clone(), self_ty: None, sig: f.sig.clone(), block: (*f.block).clone(), trait_: None, cfg_skip: false, impl_generics: vec![], source: label.into() },
                    );
                }
                Item::Impl(im) => {
                    if has_cfg_skip(&im.attrs) {
                        continue;
                    }
                    let gens: Vec<String> = im.generics.type_params().map(|t| t.ident.to_string()).collect();
                    let tyname = type_last(&im.self_ty);
                    for ii in &im.items {
                        if let ImplItem::Fn(f) = ii {
                            let mut k = module.clone();
                            k.push(tyname.clone());
                            let tr = im.trait_.as_ref().map(|(_, p, _)| p.clone());
                            let trname = tr.as_ref().map(|p| p.segments.last().unwrap().ident.to_string());
                            let name = f.sig.ident.to_string();
                            match trname.as_deref() {
                                None | Some("Default") => k.push(name.clone()),
                                Some("From") | Some("TryFrom") => {
                                    let seg = tr.as_ref().unwrap().segments.last().unwrap().clone();
                                    if let PathArguments::AngleBracketed(a) = seg.arguments {
                                        if let Some(GenericArgument::Type(src)) = a.args.first() {
                                            let try_ = trname.as_deref() == Some("TryFrom");
                                            let key = format!("{}{}=>{}", if try_ { "try:" } else { "from:" }, type_last(src), type_last_full(&im.self_ty));
                                            let error = im.items.iter().find_map(|x| match x {
                                                ImplItem::Type(t) if t.ident == "Error" => Some(t.ty.clone()),
                                                _ => None,
                                            });
                                            let fi = FnItem { key: key.clone(), module: module.clone(), self_ty: Some((*im.self_ty).clone()), sig: f.sig.clone(), block: f.block.clone(), trait_: tr.clone(), cfg_skip: false, impl_generics: gens.clone(), source: label.into() };
                                            self.froms.push(FromImpl { module: module.clone(), source: src.clone(), target: (*im.self_ty).clone(), try_, error, f: fi });
                                        }
                                    }
                                    continue;
                                }
                                Some(t) => {
                                    k.push(format!("<{t}>{name}"));
                                }
                            }
                            let key = join(&k);
                            self.fns.insert(
                                key.clone(),
                                FnItem { key, module: module.clone(), self_ty: Some((*im.self_ty).clone()), sig: f.sig.clone(), block: f.block.clone(), trait_: tr, cfg_skip: false, impl_generics: gens.clone(), source: label.into() },
                            );
                        }
                    }
                }
                Item::Const(c) => {
                    if has_cfg_skip(&c.attrs) {
                        continue;
                    }
                    let mut k = module.clone();
                    k.push(c.ident.to_string());
                    self.consts.insert(join(&k), ConstItem { module: module.clone(), name: c.ident.to_string(), ty: (*c.ty).clone(), expr: (*c.expr).clone() });
                }
                Item::Struct(s) => {
                    let mut k = module.clone();
                    k.push(s.ident.to_string());
                    self.structs.insert(join(&k), (module.clone(), s.clone()));
                }
                Item::Enum(s) => {
                    let mut k = module.clone();
                    k.push(s.ident.to_string());
                    self.enums.insert(join(&k), (module.clone(), s.clone()));
                }
                Item::Trait(t) => {
                    self.traits.insert(t.ident.to_string());
                }
                Item::Type(t) => {
                    let mut k = module.clone();
                    k.push(t.ident.to_string());
                    self.aliases.insert(join(&k), (module.clone(), t.clone()));
                }
                Item::Mod(m) => {
                    if has_cfg_skip(&m.attrs) {
                        continue;
                    }
                    if let Some((_, items)) = &m.content {
                        let mut k = module.clone();
                        k.push(m.ident.to_string());
                        self.add_items(k, items, label);
                    } else {
                        // file module: declared elsewhere
                        let mut k = module.clone();
                        k.push(m.ident.to_string());
                        self.mods.entry(join(&k)).or_default();
                    }
                }
                Item::Macro(m) if m.mac.path.is_ident("thread_local") => {
                    self.add_thread_locals(&module, m.mac.tokens.clone());
                }
                _ => {}
            }
        }
    }

    fn add_thread_locals(&mut self, module: &Path_, ts: TokenStream) {
        // sequence of: attrs* static NAME : TY = EXPR ;
        let parser = |input: syn::parse::ParseStream| -> syn::Result<Vec<(Ident, Type, Expr)>> {
            let mut v = vec![];
            while !input.is_empty() {
                let _ = input.call(Attribute::parse_outer)?;
                let _: Visibility = input.parse()?;
                input.parse::<Token![static]>()?;
                let id: Ident = input.parse()?;
                input.parse::<Token![:]>()?;
                let ty: Type = input.parse()?;
                input.parse::<Token![=]>()?;
                let e: Expr = input.parse()?;
                if !input.is_empty() {
                    input.parse::<Token![;]>()?;
                }
                v.push((id, ty, e));
            }
            Ok(v)
        };
        use syn::parse::Parser;
        if let Ok(v) = parser.parse2(ts) {
            for (id, ty, e) in v {
                let mut k = module.clone();
                k.push(id.to_string());
                self.statics.insert(join(&k), (module.clone(), ty, e));
            }
        }
    }

    // ------------------------------------------------------------------ external prelude
    pub fn add_prelude(&mut self, src: &str) -> std::result::Result<(), String> {
        let ts: TokenStream = src.parse().map_err(|e| format!("prelude: {e}"))?;
        self.scan_ext(vec!["crate".into()], ts);
        Ok(())
    }

    fn scan_ext(&mut self, module: Path_, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let TokenTree::Ident(id) = &toks[i] {
                let s = id.to_string();
                let next_ident = match toks.get(i + 1) {
                    Some(TokenTree::Ident(n)) => Some(n.to_string()),
                    _ => None,
                };
                match s.as_str() {
                    "verus" => {
                        if let Some(TokenTree::Group(g)) = toks.get(i + 2) {
                            self.scan_ext(module.clone(), g.stream());
                            i += 3;
                            continue;
                        }
                    }
                    "mod" => {
                        if let (Some(n), Some(TokenTree::Group(g))) = (next_ident, toks.get(i + 2)) {
                            let mut m = module.clone();
                            m.push(n);
                            self.ext_mods.insert(join(&m));
                            self.scan_ext(m, g.stream());
                            i += 3;
                            continue;
                        }
                    }
                    "use" => {
                        // pub use crate::...::X;  (re-exports)
                        let mut j = i + 1;
                        let mut path = vec![];
                        while j < toks.len() && !is_punct(&toks[j], ';') {
                            if let TokenTree::Ident(x) = &toks[j] {
                                path.push(x.to_string());
                            }
                            j += 1;
                        }
                        i = j + 1;
                        if path.first().map(|x| x == "crate").unwrap_or(false) && path.len() > 2 {
                            let name = path.last().unwrap().clone();
                            let full = format!("{}::{}", join(&module), name);
                            self.ext_items.insert(full.clone());
                            if let Ok(t) = syn::parse_str::<Type>(&path.join("::")) {
                                self.ext_aliases.insert(full, (vec![], t));
                            }
                        }
                        continue;
                    }
                    "enum" | "struct" | "trait" | "type" | "const" => {
                        if let Some(n) = next_ident {
                            let full = format!("{}::{}", join(&module), n);
                            self.ext_items.insert(full.clone());
                            // generics
                            let mut j = i + 2;
                            let mut gens = vec![];
                            if is_punct(toks.get(j).unwrap_or(&toks[i]), '<') {
                                let (g, nj) = angle(&toks, j);
                                gens = g;
                                j = nj;
                            }
                            if s == "type" {
                                while j < toks.len() && !is_punct(&toks[j], '=') {
                                    j += 1;
                                }
                                let mut k = j + 1;
                                let mut t = TokenStream::new();
                                while k < toks.len() && !is_punct(&toks[k], ';') {
                                    t.extend([toks[k].clone()]);
                                    k += 1;
                                }
                                if let Ok(t) = syn::parse2::<Type>(t) {
                                    self.ext_aliases.insert(full, (gens, t));
                                }
                                i = k + 1;
                                continue;
                            }
                            if s == "enum" {
                                if let Some(TokenTree::Group(g)) = toks.get(j) {
                                    let vs = parse_variants(g.stream());
                                    self.ext_enums.insert(full.clone(), vs);
                                    self.ext_struct_generics.insert(full, gens);
                                    i = j + 1;
                                    continue;
                                }
                            }
                            if s == "struct" {
                                if let Some(TokenTree::Group(g)) = toks.get(j) {
                                    let fs = parse_fields(g.stream(), g.delimiter() == Delimiter::Parenthesis);
                                    self.ext_structs.insert(full.clone(), fs);
                                    self.ext_struct_generics.insert(full, gens);
                                    i = j + 1;
                                    continue;
                                }
                            }
                            if s == "trait" {
                                // skip to body
                                while j < toks.len() && !matches!(&toks[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                                    j += 1;
                                }
                                i = j + 1;
                                continue;
                            }
                        }
                    }
                    "impl" => {
                        // impl<..> [Trait for] Type { fns }
                        let mut j = i + 1;
                        let mut gens = vec![];
                        if is_punct(&toks[j], '<') {
                            let (g, nj) = angle(&toks, j);
                            gens = g;
                            j = nj;
                        }
                        let start = j;
                        let mut has_for = false;
                        while j < toks.len() && !matches!(&toks[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                            if matches!(&toks[j], TokenTree::Ident(x) if x == "for") {
                                has_for = true;
                            }
                            j += 1;
                        }
                        if !has_for {
                            let t: TokenStream = toks[start..j].iter().cloned().collect();
                            if let (Ok(Type::Path(tp)), Some(TokenTree::Group(g))) = (syn::parse2::<Type>(t), toks.get(j)) {
                                let tname = self.ext_abs(&module, &tp.path);
                                let args = match &tp.path.segments.last().unwrap().arguments {
                                    PathArguments::AngleBracketed(a) => a
                                        .args
                                        .iter()
                                        .filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
                                        .collect(),
                                    _ => vec![],
                                };
                                self.scan_ext_fns(&module, g.stream(), Some((tname, args, gens)));
                            }
                        }
                        i = j + 1;
                        continue;
                    }
                    "fn" => {
                        i = self.scan_one_fn(&module, &toks, i, &None);
                        continue;
                    }
                    "spec" | "proof" | "axiom" => {
                        // skip `[open] spec fn ...` : find `fn` and skip to its body/;
                        let mut j = i;
                        while j < toks.len() && !matches!(&toks[j], TokenTree::Ident(x) if x == "fn") {
                            j += 1;
                        }
                        while j < toks.len() && !is_punct(&toks[j], ';') && !matches!(&toks[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                            j += 1;
                        }
                        i = j + 1;
                        continue;
                    }
                    _ => {}
                }
            }
            i += 1;
        }
    }

    fn scan_ext_fns(&mut self, module: &Path_, ts: TokenStream, imp: Option<(String, Vec<Type>, Vec<String>)>) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            if let TokenTree::Ident(id) = &toks[i] {
                let s = id.to_string();
                if s == "spec" || s == "proof" || s == "axiom" {
                    let mut j = i;
                    while j < toks.len() && !is_punct(&toks[j], ';') && !matches!(&toks[j], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) {
                        j += 1;
                    }
                    i = j + 1;
                    continue;
                }
                if s == "fn" {
                    i = self.scan_one_fn(module, &toks, i, &imp);
                    continue;
                }
            }
            i += 1;
        }
    }

    fn scan_one_fn(&mut self, module: &Path_, toks: &[TokenTree], i: usize, imp: &Option<(String, Vec<Type>, Vec<String>)>) -> usize {
        let name = toks[i + 1].to_string();
        let mut j = i + 2;
        let mut generics = vec![];
        if is_punct(&toks[j], '<') {
            let (g, nj) = angle(toks, j);
            generics = g;
            j = nj;
        }
        let mut f = ExtFn { module: module.clone(), params: vec![], st: 0, env: 0, ret: None, impl_args: vec![], generics, has_self: false };
        if let TokenTree::Group(g) = &toks[j] {
            let s: Vec<TokenTree> = g.stream().into_iter().collect();
            let mut depth = 0i32;
            let mut cur: Vec<TokenTree> = vec![];
            let mut parts = vec![];
            for t in s {
                if is_punct(&t, '<') {
                    depth += 1;
                }
                if is_punct(&t, '>') {
                    depth -= 1;
                }
                if is_punct(&t, ',') && depth == 0 {
                    parts.push(std::mem::take(&mut cur));
                } else {
                    cur.push(t);
                }
            }
            if !cur.is_empty() {
                parts.push(cur);
            }
            for p in parts {
                let txt: Vec<String> = p.iter().map(|t| t.to_string()).collect();
                if txt.contains(&"self".to_string()) && !txt.contains(&":".to_string()) {
                    f.has_self = true;
                    continue;
                }
                let n = txt[0].clone();
                let m = if txt.contains(&"mut".to_string()) { 2 } else { 1 };
                match n.as_str() {
                    "st" => f.st = m,
                    "env" => f.env = m,
                    _ => f.params.push(n),
                }
            }
        }
        j += 1;
        // return type
        let mut ret = None;
        if j + 1 < toks.len() && is_punct(&toks[j], '-') && is_punct(&toks[j + 1], '>') {
            j += 2;
            if let TokenTree::Group(g) = &toks[j] {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                if g.delimiter() == Delimiter::Parenthesis
                    && inner.len() > 2
                    && matches!(inner[0], TokenTree::Ident(_))
                    && is_punct(&inner[1], ':')
                    && !is_punct(&inner[2], ':')
                {
                    let t: TokenStream = inner[2..].iter().cloned().collect();
                    ret = syn::parse2::<Type>(t).ok();
                }
            }
            if ret.is_none() {
                let mut t = TokenStream::new();
                while j < toks.len() {
                    match &toks[j] {
                        TokenTree::Ident(x) if ["requires", "ensures", "where"].contains(&x.to_string().as_str()) => break,
                        TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => break,
                        TokenTree::Punct(p) if p.as_char() == ';' => break,
                        x => t.extend([x.clone()]),
                    }
                    j += 1;
                }
                ret = syn::parse2::<Type>(t).ok();
            }
        }
        f.ret = ret;
        // skip to body: the last brace group before next item; specs may contain brace groups (match..{})
        // body is the brace group that is followed by end / `}` / attribute / ident pub/fn/impl/...
        let mut k = j;
        let mut body = k;
        while k < toks.len() {
            match &toks[k] {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                    body = k;
                    let next = toks.get(k + 1);
                    let stop = match next {
                        None => true,
                        Some(TokenTree::Ident(x)) => ["pub", "fn", "impl", "mod", "struct", "enum", "open", "closed", "uninterp", "spec", "proof", "broadcast", "trait", "type", "const", "use", "verus", "axiom"].contains(&x.to_string().as_str()),
                        Some(TokenTree::Punct(p)) => p.as_char() == '#',
                        _ => false,
                    };
                    if stop {
                        break;
                    }
                }
                TokenTree::Punct(p) if p.as_char() == ';' => {
                    body = k;
                    break;
                }
                _ => {}
            }
            k += 1;
        }
        match imp {
            None => {
                let full = format!("{}::{}", join(module), name);
                self.ext_items.insert(full.clone());
                self.ext_fns.insert(full, f);
            }
            Some((t, args, gens)) => {
                f.impl_args = args.clone();
                let mut g = gens.clone();
                g.extend(f.generics.clone());
                f.generics = g;
                self.ext_fns.insert(format!("{t}::{name}"), f.clone());
                self.ext_methods.entry(name).or_default().push((t.clone(), f));
            }
        }
        body + 1
    }

    pub fn ext_abs(&self, module: &[String], p: &Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "crate" {
            return join(&segs);
        }
        // relative to module or any ancestor
        let mut m = module.to_vec();
        loop {
            let cand = format!("{}::{}", join(&m), join(&segs));
            if self.ext_items.contains(&cand) || self.ext_mods.contains(&cand) {
                return cand;
            }
            if m.pop().is_none() || m.is_empty() {
                break;
            }
        }
        join(&segs)
    }

    pub fn ext_ty(&self, module: &[String], t: &Type) -> Ty {
        match t {
            Type::Reference(r) => Ty::Ref(Box::new(self.ext_ty(module, &r.elem))),
            Type::Tuple(t) => Ty::Tup(t.elems.iter().map(|x| self.ext_ty(module, x)).collect()),
            Type::Array(a) => Ty::Arr(Box::new(self.ext_ty(module, &a.elem))),
            Type::Slice(a) => Ty::Arr(Box::new(self.ext_ty(module, &a.elem))),
            Type::Never(_) => Ty::Never,
            Type::Paren(p) => self.ext_ty(module, &p.elem),
            Type::Path(tp) => {
                let last = tp.path.segments.last().unwrap();
                let n = last.ident.to_string();
                let args: Vec<Ty> = match &last.arguments {
                    PathArguments::AngleBracketed(a) => a
                        .args
                        .iter()
                        .filter_map(|x| if let GenericArgument::Type(t) = x { Some(self.ext_ty(module, t)) } else { None })
                        .collect(),
                    _ => vec![],
                };
                if tp.path.segments.len() == 1 && INTS.contains(&n.as_str()) {
                    return Ty::Int(n);
                }
                let full = self.ext_abs(module, &tp.path);
                let full = match full.as_str() {
                    "core::result::Result" | "std::result::Result" => "Result".to_string(),
                    "core::option::Option" | "std::option::Option" => "Option".to_string(),
                    _ => full,
                };
                if let Some((gens, t)) = self.ext_aliases.get(&full) {
                    let mut m: Path_ = full.split("::").map(|s| s.to_string()).collect();
                    m.pop();
                    return self.ext_ty(&m, t).subst(gens, &args);
                }
                Ty::Adt(full, args)
            }
            _ => Ty::Unk,
        }
    }
}

fn is_punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

/// parse `<A: X, B>` starting at `<`; returns type parameter names and the index after `>`
fn angle(toks: &[TokenTree], start: usize) -> (Vec<String>, usize) {
    let mut depth = 0;
    let mut j = start;
    let mut names = vec![];
    let mut expect = true;
    let mut life = false;
    while j < toks.len() {
        if is_punct(&toks[j], '<') {
            depth += 1;
        } else if is_punct(&toks[j], '>') {
            depth -= 1;
            if depth == 0 {
                return (names, j + 1);
            }
        } else if depth == 1 && is_punct(&toks[j], ',') {
            expect = true;
            life = false;
        } else if is_punct(&toks[j], '\'') {
            life = true;
        } else if let TokenTree::Ident(x) = &toks[j] {
            if expect && depth == 1 {
                if !life {
                    names.push(x.to_string());
                }
                expect = false;
            }
        }
        j += 1;
    }
    (names, j)
}

fn parse_variants(ts: TokenStream) -> Vec<(String, Vec<(String, Type)>, bool)> {
    let src = quote::quote! { enum __E { #ts } };
    let mut out = vec![];
    if let Ok(e) = syn::parse2::<ItemEnum>(src) {
        for v in e.variants {
            let mut fs = vec![];
            for (i, f) in v.fields.iter().enumerate() {
                fs.push((f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone()));
            }
            out.push((v.ident.to_string(), fs, matches!(v.fields, Fields::Named(_))));
        }
    }
    out
}

fn parse_fields(ts: TokenStream, tuple: bool) -> Vec<(String, Type)> {
    let src = if tuple { quote::quote! { struct __E ( #ts ); } } else { quote::quote! { struct __E { #ts } } };
    let mut out = vec![];
    if let Ok(e) = syn::parse2::<ItemStruct>(src) {
        for (i, f) in e.fields.iter().enumerate() {
            out.push((f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), f.ty.clone()));
        }
    }
    out
}

pub fn type_last(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_last(&r.elem),
        _ => "?".into(),
    }
}
pub fn type_last_full(t: &Type) -> String {
    match t {
        Type::Path(p) => {
            let s = p.path.segments.last().unwrap();
            let n = s.ident.to_string();
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                let v: Vec<String> = a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(type_last_full(t)) } else { None }).collect();
                if !v.is_empty() {
                    return format!("{n}<{}>", v.join(","));
                }
            }
            n
        }
        t => type_last(t),
    }
}

pub fn add_use(m: &mut UseMap, t: &UseTree, prefix: Path_, _abs: bool) {
    match t {
        UseTree::Path(p) => {
            let mut x = prefix;
            x.push(p.ident.to_string());
            add_use(m, &p.tree, x, false);
        }
        UseTree::Name(n) => {
            let s = n.ident.to_string();
            if s == "self" {
                if let Some(l) = prefix.last() {
                    m.names.insert(l.clone(), prefix.clone());
                }
            } else {
                let mut x = prefix;
                x.push(s.clone());
                m.names.insert(s, x);
            }
        }
        UseTree::Rename(r) => {
            let mut x = prefix;
            let s = r.ident.to_string();
            if s != "self" {
                x.push(s);
            }
            m.names.insert(r.rename.to_string(), x);
        }
        UseTree::Glob(_) => m.globs.push(prefix),
        UseTree::Group(g) => {
            for it in &g.items {
                add_use(m, it, prefix.clone(), false);
            }
        }
    }
}
