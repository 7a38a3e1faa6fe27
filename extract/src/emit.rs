//! Loads the repository, lowers the functions of one slice and writes one Verus file.
use crate::contracts::*;
use crate::db::*;
use crate::elim;
use crate::ex::*;
use crate::tr::*;
use crate::ty::Ty;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;

#[derive(Default)]
pub struct Opts {
    pub repo: String,
    pub spec: String,
    pub slice: String,
    pub out: String,
    pub map: String,
    pub only: Option<String>,
    pub try_all: bool,
    pub vacuity: bool,
}

fn read(p: &str) -> R<String> {
    std::fs::read_to_string(p).map_err(|e| format!("{p}: {e}"))
}

fn load_repo(db: &mut Db, dir: &std::path::Path, module: Path_) -> R<()> {
    let mut names: Vec<_> = std::fs::read_dir(dir).map_err(|e| format!("{}: {e}", dir.display()))?.filter_map(|x| x.ok()).collect();
    names.sort_by_key(|x| x.file_name());
    for e in names {
        let n = e.file_name().to_string_lossy().to_string();
        let p = e.path();
        if p.is_dir() {
            let mut m = module.clone();
            m.push(n);
            load_repo(db, &p, m)?;
        } else if let Some(stem) = n.strip_suffix(".rs") {
            let mut m = module.clone();
            match stem {
                "lib" | "mod" => {}
                "main" if module.is_empty() => m.push("canister".into()),
                s => m.push(s.into()),
            }
            let src = read(&p.to_string_lossy())?;
            db.add_file(m, &src, &p.to_string_lossy())?;
        }
    }
    Ok(())
}

pub struct Lowered {
    pub key: String,
    pub mode: Mode,
    pub sig: String,
    pub names: HashMap<String, String>,
    pub body: Option<Block>,
    pub st: Option<String>,
    pub st_mut: bool,
    pub env: u8,
    pub ret: bool,
    pub inlined: BTreeSet<String>,
}

fn has_impl(t: &Type) -> bool {
    t.to_token_stream().into_iter().any(|t| matches!(&t, TokenTree::Ident(i) if i == "impl"))
}

/// identifiers replaced outside of field/path position
pub fn subst(text: &str, m: &HashMap<String, String>) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    let mut open: Vec<bool> = vec![]; // inside the braces of a struct value?
    while i < b.len() {
        let c = b[i];
        match c {
            '{' => {
                let w: String = out.trim_end().chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                open.push(w.chars().last().map(|c| c.is_uppercase()).unwrap_or(false));
            }
            '(' | '[' => open.push(false),
            '}' | ')' | ']' => { open.pop(); }
            _ => {}
        }
        if c == '"' {
            out.push(c);
            i += 1;
            while i < b.len() && b[i] != '"' {
                out.push(b[i]);
                i += 1;
            }
            if i < b.len() {
                out.push('"');
                i += 1;
            }
            continue;
        }
        if c == '/' && i + 1 < b.len() && b[i + 1] == '/' {
            while i < b.len() && b[i] != '\n' {
                out.push(b[i]);
                i += 1;
            }
            continue;
        }
        if c.is_alphabetic() || c == '_' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            let prev = if s > 0 { b[s - 1] } else { ' ' };
            let prev2 = if s > 1 { b[s - 2] } else { ' ' };
            let dotted = prev == '.' && prev2 != '.';
            let path = prev == ':' && prev2 == ':';
            if open.last() == Some(&true) && matches!(out.trim_end().chars().last(), Some('{' | ',')) && m.contains_key(&w) {
                let rest: String = b[i..].iter().take(200).collect();
                let rest = rest.trim_start();
                if rest.starts_with(':') && !rest.starts_with("::") {
                    out.push_str(&w);
                    continue;
                }
                if rest.starts_with(',') || rest.starts_with('}') {
                    out.push_str(&format!("{w}: {}", m[&w]));
                    continue;
                }
            }
            match m.get(&w) {
                Some(r) if !dotted && !path && !(prev.is_alphanumeric()) => out.push_str(r),
                _ => out.push_str(&w),
            }
            continue;
        }
        if c.is_ascii_digit() {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                out.push(b[i]);
                i += 1;
            }
            continue;
        }
        out.push(c);
        i += 1;
    }
    out
}

impl<'a> Gen<'a> {
    fn reset(&mut self) {
        self.callees.clear();
        self.inlined.clear();
        self.frames.clear();
        self.cur = 0;
        self.st_name = None;
        self.no_env = false;
        self.used_st = 0;
        self.used_env = 0;
        self.loops = 0;
        self.stack.clear();
        self.pre.clear();
    }

    pub fn lower_fn(&mut self, f: &FnItem, mode: Mode) -> R<Lowered> {
        self.reset();
        self.frames = vec![self.sig_frame(f)];
        self.stack = vec![f.key.clone()];
        let sp = self.state_param(f);
        let ctr = self.ctr.map.get(&f.key);
        let mut names = HashMap::new();
        let mut ps: Vec<String> = vec![];
        let mut pre: Vec<Stmt> = vec![];
        let mut st_mut = false;
        for (i, a) in f.sig.inputs.iter().enumerate() {
            let cname = ctr.and_then(|c| c.params.get(i)).cloned();
            let mut actual = String::new();
            match a {
                FnArg::Receiver(r) => {
                    ps.push(if r.reference.is_some() { if r.mutability.is_some() { "&mut self".into() } else { "&self".into() } } else { "self".into() });
                    if let Some((k, m)) = sp {
                        if k == i {
                            self.st_name = Some("self".into());
                            st_mut = m;
                            self.bindx("self", Bind::St);
                        }
                    }
                    if self.st_name.is_none() {
                        let t = self.f().self_ty.clone().unwrap_or(Ty::Unk);
                        let t = if r.reference.is_some() { Ty::Ref(Box::new(t)) } else { t };
                        if r.reference.is_none() && r.mutability.is_some() {
                            self.bindx("self", Bind::Var("self_m".into(), t));
                            pre.push(parse_quote!(let mut self_m = self;));
                        } else {
                            self.bindx("self", Bind::Var("self".into(), t));
                        }
                    }
                    actual = "self".into();
                }
                FnArg::Typed(pt) => {
                    if sp.map(|x| x.0) == Some(i) {
                        let m = sp.unwrap().1;
                        let n = match &*pt.pat {
                            Pat::Ident(i) => i.ident.to_string(),
                            _ => "_s".into(),
                        };
                        let n2 = if n == "env" { "env_s".to_string() } else { n.clone() };
                        self.st_name = Some(n2.clone());
                        st_mut = m;
                        self.bindx(&n, Bind::St);
                        ps.push(format!("{n2}: &{}crate::storage::State", if m { "mut " } else { "" }));
                        actual = n2;
                    } else {
                        let t = self.ty(&pt.ty)?;
                        let tk = self.ty_tokens(&pt.ty)?;
                        match &*pt.pat {
                            Pat::Ident(pi) if pi.subpat.is_none() && pi.by_ref.is_none() => {
                                let n = self.bind_v(&pi.ident.to_string(), t);
                                ps.push(format!("{n}: {tk}"));
                                if pi.mutability.is_some() {
                                    let id = ident(&n);
                                    pre.push(parse_quote!(let mut #id = #id;));
                                }
                                actual = n;
                            }
                            Pat::Wild(_) => ps.push(format!("_p{i}: {tk}")),
                            p => {
                                let n = format!("p_{i}");
                                let pp = self.pat(p, &t)?;
                                let id = ident(&n);
                                let ie: Expr = parse_quote!(#id);
                                pre.push(stmt_let(quote!(#pp), &ie, None));
                                ps.push(format!("{n}: {tk}"));
                                actual = n;
                            }
                        }
                    }
                }
            }
            if let Some(c) = cname {
                names.insert(c, actual);
            }
        }
        let (mut fs, mut fe) = self.fx.get(&f.key).copied().unwrap_or((0, 0));
        if let Some((a, b)) = ctr.and_then(|c| c.fx) {
            fs = fs.max(a);
            fe = fe.max(b);
        }
        // mentions in the contract
        if let Some(c) = ctr {
            if mode != Mode::Stub {
                let all: String = c.req.iter().chain(&c.ens).chain(&c.entry).chain(&c.exit).filter(|x| hit(&x.tags, &self.slice)).map(|x| x.text.clone()).collect();
                let toks: BTreeSet<&str> = all.split(|ch: char| !(ch.is_alphanumeric() || ch == '_')).collect();
                if toks.contains("S0") || toks.contains("S1") {
                    fs = fs.max(1);
                }
                if toks.contains("E0") || toks.contains("E1") {
                    fe = fe.max(1);
                }
            }
        }
        let fret = match &f.sig.output {
            ReturnType::Default => "()".to_string(),
            ReturnType::Type(_, t) => {
                if matches!(**t, Type::Never(_)) {
                    "!".into()
                } else {
                    self.ty_tokens(t)?.to_string()
                }
            }
        };
        self.frames[0].ret = Some(self.ret_ty(f));
        self.fm().uses.clear();
        let body = if mode == Mode::Trusted {
            None
        } else {
            let (b, _) = self.block(&f.block)?;
            let mut b = b;
            if ctr.map(|c| c.exit.iter().any(|x| hit(&x.tags, &self.slice))).unwrap_or(false) {
                let mut e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                if elim::has_return(&e) {
                    e = elim::eliminate(e)?;
                }
                b = parse_quote!({ let __r = #e; __vexit!(); __r });
            }
            if !pre.is_empty() {
                let ss = &b.stmts;
                b = parse_quote!({ #(#pre)* #(#ss)* });
            }
            Some(b)
        };
        fs = fs.max(self.used_st);
        fe = fe.max(self.used_env);
        self.fx.insert(f.key.clone(), (if sp.is_some() { 0 } else { fs }, fe));
        let st = if sp.is_some() {
            self.st_name.clone()
        } else if fs > 0 {
            ps.push(format!("st: &{}crate::storage::State", if fs == 2 { "mut " } else { "" }));
            st_mut = fs == 2;
            Some("st".into())
        } else {
            None
        };
        if fe > 0 {
            ps.push(format!("env: &{}crate::ext::Env", if fe == 2 { "mut " } else { "" }));
        }
        // what the arms of a match with guards borrow mutably
        let mut body = body;
        if let Some(b) = &mut body {
            let mut muts: Vec<String> = vec![];
            if let (Some(s), true) = (&st, st_mut) {
                muts.push(s.clone());
            }
            if fe == 2 {
                muts.push("env".into());
            }
            for p in &ps {
                if let Some((n, t)) = p.split_once(':') {
                    let n = n.trim().to_string();
                    if t.trim_start().starts_with('&') && t.trim_start()[1..].trim_start().starts_with("mut ") && !muts.contains(&n) {
                        muts.push(n);
                    }
                }
            }
            elim::touch(b, &muts);
        }
        let rname = ctr.map(|c| c.ret.clone()).unwrap_or("r".into());
        let name = f.key.rsplit("::").next().unwrap().to_string();
        let lts: Vec<String> = f.sig.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
        let g = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
        let ret = fret != "!";
        let sig = if ret { format!("pub fn {name}{g}({}) -> ({rname}: {fret})", ps.join(", ")) } else { format!("pub fn {name}{g}({}) -> !", ps.join(", ")) };
        Ok(Lowered { key: f.key.clone(), mode, sig, names, body, st, st_mut, env: fe, ret, inlined: self.inlined.clone() })
    }
}

// ------------------------------------------------------------------------------------ printing
pub struct Out {
    pub text: String,
    pub line: usize,
    pub map: Vec<Value>,
}
impl Out {
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
    fn ln(&mut self, s: &str) {
        self.put(s);
        self.put("\n");
    }
    fn mark(&mut self, start: usize, f: &str, what: &str, src: &str, text: &str, tags: &[String]) {
        self.map.push(json!({"start": start, "end": self.line, "fn": f, "what": what, "src": src, "text": text.trim(), "tags": tags}));
    }
}

struct Prn<'b> {
    s: String,
    ind: usize,
    loops: &'b dyn Fn(usize) -> String,
    exit: &'b str,
}
impl<'b> Prn<'b> {
    fn nl(&mut self) {
        let n = self.ind.min(12);
        self.s.push('\n');
        self.s.push_str(&"  ".repeat(n));
    }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if id == "loop" => {
                    if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if inner.len() >= 4 && inner[0].to_string() == "__vloop" {
                            let n: usize = match &inner[2] {
                                TokenTree::Group(g) => g.stream().to_string().trim_end_matches("usize").parse().unwrap_or(0),
                                _ => 0,
                            };
                            let cl = (self.loops)(n);
                            self.s.push_str("loop\n");
                            self.s.push_str(&cl);
                            self.s.push('{');
                            self.ind += 1;
                            self.nl();
                            self.stream(inner[4..].iter().cloned().collect());
                            self.ind -= 1;
                            self.nl();
                            self.s.push('}');
                            self.nl();
                            i += 2;
                            continue;
                        }
                    }
                    self.s.push_str("loop ");
                }
                TokenTree::Ident(id) if id == "__vexit" => {
                    self.s.push_str(self.exit);
                    i += 4;
                    self.nl();
                    continue;
                }
                TokenTree::Ident(id) => {
                    self.s.push_str(&id.to_string());
                    self.s.push(' ');
                }
                TokenTree::Literal(l) => {
                    self.s.push_str(&l.to_string());
                    self.s.push(' ');
                }
                TokenTree::Punct(p) => {
                    self.s.push(p.as_char());
                    if p.as_char() == ';' {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone {
                        self.s.push(' ');
                    }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    self.s.push_str(a);
                    let br = g.delimiter() == Delimiter::Brace;
                    if br {
                        self.ind += 1;
                        self.nl();
                    }
                    self.stream(g.stream());
                    if br {
                        self.ind -= 1;
                        self.nl();
                    }
                    self.s.push_str(b);
                    if br {
                        let glue = matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if p.as_char() == '.' || p.as_char() == ',' || p.as_char() == ';')
                            || matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                        if glue {
                            self.s.push(' ');
                        } else {
                            self.nl();
                        }
                    } else {
                        self.s.push(' ');
                    }
                }
            }
            i += 1;
        }
    }
}

fn idents(t: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut field = false;
    for x in t.replace('.', " . ").split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '.')).filter(|x| !x.is_empty()) {
        if x != "." && !field {
            out.insert(x.to_string());
        }
        field = x == ".";
    }
    out
}

/// the mutable bindings of a body, in order, without the generated ones
fn let_muts(t: &str) -> Vec<String> {
    let w: Vec<&str> = t.split_whitespace().collect();
    let mut out: Vec<String> = vec![];
    for i in 2..w.len() {
        if w[i - 2] == "let" && w[i - 1] == "mut" && (!gen_var(w[i]) || w[i].starts_with("out_")) && !w[i].starts_with("__") {
            out.push(w[i].to_string());
        }
    }
    out
}

fn loop_number(l: &ExprLoop) -> Option<usize> {
    match l.body.stmts.first() {
        Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vloop") => syn::parse2::<LitInt>(m.mac.tokens.clone()).ok()?.base10_parse::<usize>().ok(),
        _ => None,
    }
}

/// what a loop adds to: a local from outside it that it pushes into, inserts into or extends
struct Acc {
    k: usize,
    inside: bool,
    bound: BTreeSet<String>,
    found: Vec<String>,
}
impl<'a> visit::Visit<'a> for Acc {
    fn visit_expr_loop(&mut self, l: &'a ExprLoop) {
        if loop_number(l) == Some(self.k) {
            self.inside = true;
            visit::visit_expr_loop(self, l);
            self.inside = false;
        } else {
            visit::visit_expr_loop(self, l);
        }
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        if self.inside {
            self.bound.insert(p.ident.to_string());
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if self.inside && ["push", "insert", "extend", "append", "vextend", "vappend", "vpush", "vinsert"].contains(&m.method.to_string().as_str()) {
            let mut r = &*m.receiver;
            while let Expr::Paren(p) = r {
                r = &p.expr;
            }
            if let Expr::Path(p) = r {
                if let Some(i) = p.path.get_ident() {
                    self.found.push(i.to_string());
                }
            }
        }
    }
}
fn loop_acc(ss: &[Stmt], k: usize) -> Option<String> {
    let mut a = Acc { k, inside: false, bound: BTreeSet::new(), found: vec![] };
    for s in ss {
        visit::Visit::visit_stmt(&mut a, s);
    }
    let b = a.bound;
    a.found.into_iter().find(|x| !b.contains(x))
}
/// keeps what was in it when the loop began
struct Keep<'a> {
    at: &'a BTreeMap<usize, String>,
}
impl visit_mut::VisitMut for Keep<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            if let Some((k, x)) = loop_number(l).and_then(|k| self.at.get(&k).map(|x| (k, x.clone()))) {
                let g = Ident::new(&format!("acc0_{k}"), proc_macro2::Span::call_site());
                let x = Ident::new(&x, proc_macro2::Span::call_site());
                *e = parse_quote!({ let #g = crate::ext::snap_acc(&#x); #l });
            }
        }
    }
}

/// names the translation gives: it_1, its_1, out_1, er_1, acc_1, acc0_1
fn gen_var(i: &str) -> bool {
    i.split_once('_').map(|(a, b)| ["it", "its", "out", "er", "acc", "acc0"].contains(&a) && !b.is_empty() && b.chars().all(|c| c.is_ascii_digit())).unwrap_or(false)
}

fn merge_loop(cl: &[(&Clause, String)], more: Option<(&str, String)>) -> String {
    let order = ["invariant_except_break", "invariant", "ensures", "decreases"];
    let mut out = String::new();
    for k in order {
        let mut items: Vec<String> = vec![];
        for (_, t) in cl {
            let t = t.trim();
            let (w, rest) = t.split_once(char::is_whitespace).unwrap_or((t, ""));
            if w == k {
                items.push(rest.trim().trim_end_matches(',').to_string());
            }
        }
        if let Some((w, t)) = &more {
            if *w == k {
                items.push(t.clone());
            }
        }
        if !items.is_empty() {
            out.push_str(&format!("{k}\n{},\n", items.join(",\n")));
        }
    }
    out
}

fn replace_lits(text: &str, g: &mut Gen) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("BYTES(\"") {
        out.push_str(&rest[..i]);
        let r = &rest[i + 7..];
        let j = r.find("\")").unwrap();
        let n = g.blits.len() as u64 + 1;
        let id = *g.blits.entry(r[..j].as_bytes().to_vec()).or_insert(n);
        out.push_str(&format!("crate::ext::bstr_bytes({id}u64)"));
        rest = &r[j + 2..];
    }
    out.push_str(rest);
    let text = &std::mem::take(&mut out)[..];
    let mut rest = text;
    while let Some(i) = rest.find("LIT(\"") {
        out.push_str(&rest[..i]);
        let r = &rest[i + 5..];
        let j = r.find("\")").unwrap();
        let id = g.lit_id(&r[..j]);
        out.push_str(&format!("(crate::ext::Str {{ id: {id}u64 }})"));
        rest = &r[j + 2..];
    }
    out.push_str(rest);
    out
}

/// crate::a::b paths in specification text: note the types, inline the integer constants
fn scan_paths(text: &str, g: &mut Gen) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("crate::") {
        out.push_str(&rest[..i]);
        let r = &rest[i..];
        let n = r.char_indices().find(|(_, c)| !(c.is_alphanumeric() || *c == '_' || *c == ':')).map(|x| x.0).unwrap_or(r.len());
        let p = r[..n].trim_end_matches(':');
        let segs: Vec<&str> = p.split("::").collect();
        let mut done = false;
        let k = segs[1..].join("::");
        if let Some(c) = g.db.consts.get(&k).cloned() {
            if let Ok(ep) = syn::parse_str::<ExprPath>(p) {
                g.frames = vec![Frame { module: vec![], ..Default::default() }];
                g.cur = 0;
                if let Some(v) = g.const_eval(&Expr::Path(ep)) {
                    let t = c.ty.to_token_stream().to_string();
                    out.push_str(&format!("{v}{t}"));
                    done = true;
                }
            }
        }
        if !done {
            for m in (2..=segs.len()).rev() {
                let k = segs[1..m].join("::");
                if g.db.structs.contains_key(&k) || g.db.enums.contains_key(&k) {
                    g.needed.insert(k);
                    break;
                }
            }
            out.push_str(p);
        }
        rest = &r[p.len()..];
    }
    out.push_str(rest);
    out
}

#[derive(Default)]
struct ModOut {
    items: Vec<(Option<String>, String)>, // key of the lowered fn or raw text
}

pub fn run(o: &Opts) -> R<()> {
    let mut db = Db::default();
    load_repo(&mut db, &std::path::Path::new(&o.repo).join("cycles-ledger/src"), vec![])?;
    if std::env::var("XDBG").is_ok() { eprintln!("repo loaded"); }
    // initialiser of the thread-local state
    if let Some((m, ty, e)) = db.statics.get("storage::STATE").cloned() {
        if ty.to_token_stream().to_string().replace(' ', "") == "RefCell<State>" {
            let sig: Signature = parse_quote!(fn __init_state(mm_static: &ic_stable_structures::memory_manager::MemoryManager<ic_stable_structures::DefaultMemoryImpl>) -> State);
            let key = format!("{}::__init_state", join(&m));
            db.fns.insert(key.clone(), FnItem { key, module: m, self_ty: None, sig, block: parse_quote!({ #e }), trait_: None, cfg_skip: false, impl_generics: vec![], source: "thread_local".into() });
        }
    }
    crate::serde::synth(&mut db);
    crate::norm::run(&mut db);
    let prelude_raw = read(&format!("{}/prelude.rs", o.spec))?;
    let prelude = filter_sections(&prelude_raw, &o.slice);
    db.add_prelude(&prelude)?;
    if std::env::var("XDBG").is_ok() { eprintln!("prelude loaded"); }
    let mut ctr = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(format!("{}/contracts", o.spec)).map_err(|e| e.to_string())?.filter_map(|x| x.ok()).map(|x| x.path()).collect();
    files.sort();
    for p in &files {
        if p.extension().map(|x| x == "vc").unwrap_or(false) {
            let t = read(&p.to_string_lossy())?;
            ctr.load(&filter_sections(&t, &o.slice), &p.file_name().unwrap().to_string_lossy())?;
        }
    }
    let specs = filter_sections(&read(&format!("{}/specs.rs", o.spec))?, &o.slice);
    let mut g = Gen::new(&db, &ctr, &o.slice);
    let specs = scan_paths(&specs, &mut g);
    // in every slice State is needed by the prelude
    g.needed.insert("storage::State".into());
    // clause texts with constants inlined
    let mut texts: HashMap<String, String> = HashMap::new();
    for c in ctr.map.values() {
        for cl in c.req.iter().chain(&c.ens).chain(&c.entry).chain(&c.exit).chain(c.loops.values().flatten()) {
            if hit(&cl.tags, &o.slice) {
                let t = scan_paths(&cl.text, &mut g);
                texts.insert(cl.src.clone(), t);
            }
        }
    }

    // roots
    let tagged = |c: &Contract| c.ens.iter().chain(c.loops.values().flatten()).any(|x| x.tags.iter().any(|t| *t == o.slice));
    let mut set: BTreeSet<String> = BTreeSet::new();
    let mut missing = vec![];
    let mut roots = vec![];
    for (k, c) in &ctr.map {
        if k.starts_with("from:") || k.starts_with("try:") {
            continue;
        }
        if ctr.roots.get(&o.slice).map(|v| v.contains(k)).unwrap_or_else(|| tagged(c)) && c.mode != "trusted" {
            match db.fns.get(k) {
                None => missing.push(k.clone()),
                Some(_) if g.mode(k) == Mode::Inline => missing.push(k.clone()),
                Some(_) => {
                    set.insert(k.clone());
                    roots.push(k.clone());
                }
            }
        }
    }
    if o.try_all {
        g.try_all = true;
        for (k, f) in &db.fns {
            if f.trait_.is_none() {
                set.insert(k.clone());
            }
        }
        let mut bad = 0;
        for k in set.clone() {
            eprintln!("try {k}");
            let f = db.fns[&k].clone();
            if has_clo_params(&f.sig) || f.sig.generics.type_params().count() > 0 {
                continue;
            }
            match g.lower_fn(&f, Mode::Modular) {
                Ok(_) => eprintln!("ok   {k}"),
                Err(e) => {
                    bad += 1;
                    eprintln!("FAIL {k}: {e}")
                }
            }
        }
        println!("{bad} failures");
        return Ok(());
    }
    if let Some(only) = &o.only {
        set = only.split(',').map(|s| s.to_string()).collect();
    }
    // effect fixpoint
    let mut low: BTreeMap<String, Lowered> = BTreeMap::new();
    let mut failed: BTreeMap<String, String> = BTreeMap::new();
    let mut fconv: Vec<(FromImpl, R<Lowered>)> = vec![];
    for round in 0..12 {
        let before = (g.fx.clone(), set.clone());
        low.clear();
        failed.clear();
        fconv.clear();
        g.blits.clear();
        g.fresh = 0;
        elim::reset();
        for fi in db.froms.clone() {
            let r = lower_from(&mut g, &fi);
            set.extend(g.callees.iter().cloned());
            fconv.push((fi, r));
        }
        for k in set.clone() {
            let f = match db.fns.get(&k) {
                Some(f) => f.clone(),
                None => return Err(format!("no function {k}")),
            };
            let m = g.mode(&k);
            let m = if m == Mode::Inline { Mode::Modular } else { m };
            match g.lower_fn(&f, m) {
                Ok(l) => {
                    if m == Mode::Modular {
                        set.extend(g.callees.iter().cloned());
                    }
                    low.insert(k.clone(), l);
                }
                Err(e) => {
                    failed.insert(k.clone(), e);
                }
            }
        }
        if before.0 == g.fx && before.1 == set {
            break;
        }
        if round == 11 {
            return Err("effect analysis does not terminate".into());
        }
    }
    // a stub that cannot be lowered keeps only its signature; a function under contract must lower
    for (k, e) in failed.clone() {
        if g.mode(&k) == Mode::Stub {
            let f = db.fns[&k].clone();
            g.fx.insert(k.clone(), (2, 2));
            let mut f2 = f.clone();
            f2.block = parse_quote!({});
            let l = g.lower_fn(&f2, Mode::Trusted)?;
            low.insert(k.clone(), Lowered { mode: Mode::Stub, ..l });
            failed.remove(&k);
            continue;
        }
        return Err(format!("{k}: {e}"));
    }

    // ---------------------------------------------------------------- types
    let mut types: BTreeMap<String, String> = BTreeMap::new();
    loop {
        let todo: Vec<String> = g.needed.iter().filter(|k| !types.contains_key(*k)).cloned().collect();
        if todo.is_empty() {
            break;
        }
        for k in todo {
            let t = emit_type(&mut g, &k)?;
            types.insert(k, t);
        }
    }
    for k in g.veq_needed.clone() {
        if let Some(t) = emit_veq(&mut g, &k) {
            types.get_mut(&k).map(|x| x.push_str(&t));
        }
    }

    // ---------------------------------------------------------------- module tree
    let mut tree: BTreeMap<Path_, ModOut> = BTreeMap::new();
    tree.entry(vec![]).or_default();
    for (k, t) in &types {
        let mut m: Path_ = k.split("::").map(|s| s.to_string()).collect();
        m.pop();
        tree.entry(m).or_default().items.push((None, t.clone()));
    }
    for k in low.keys() {
        tree.entry(db.fns[k].module.clone()).or_default().items.push((Some(k.clone()), String::new()));
    }
    for m in tree.keys().cloned().collect::<Vec<_>>() {
        let mut p = m.clone();
        while p.pop().is_some() {
            tree.entry(p.clone()).or_default();
        }
    }
    let mut out = Out { text: String::new(), line: 1, map: vec![] };
    out.ln("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code, path_statements, unused_must_use)]");
    out.ln("use vstd::prelude::*;");
    let s = out.line;
    let pl = scan_paths(&prelude, &mut g);
    out.put(&replace_lits(&pl, &mut g));
    out.mark(s, "prelude", "prelude", "prelude.rs", "", &[]);
    out.ln("pub mod spec { use vstd::prelude::*; verus! {");
    let s = out.line;
    out.put(&replace_lits(&specs, &mut g));
    out.mark(s, "spec", "spec", "specs.rs", "", &[]);
    out.ln("} }");
    let grp = specs.contains("group grp");
    emit_mod(&mut out, &vec![], &tree, &low, &mut g, &ctr, o, &texts, grp)?;
    // conversions
    out.ln("pub mod conversions { use vstd::prelude::*; verus! {");
    out.ln("use crate::spec::*; use crate::ext::{VIter, IntoV, Dup, VEq, Unw, UnwOr, VInt, ToVec, ViterRef, Ctx, akey, eff, key_lt, EnvV, CallRec};");
    if grp {
        out.ln("broadcast use crate::spec::grp;");
    }
    for (fi, r) in &fconv {
        emit_from(&mut out, fi, r, &mut g, &ctr, &texts);
    }
    out.ln("} }");
    out.ln("fn main() {}");
    std::fs::write(&o.out, &out.text).map_err(|e| e.to_string())?;
    let mut inl: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in low.values() {
        if !l.inlined.is_empty() {
            inl.insert(l.key.clone(), l.inlined.iter().cloned().collect());
        }
    }
    let by = |m: Mode| low.values().filter(|l| l.mode == m).map(|l| l.key.clone()).collect::<Vec<_>>();
    let unknown: Vec<String> = g.db.entries.iter().filter(|(k, _)| !ctr.map.contains_key(*k)).map(|(k, n)| format!("#[{n}] {k}")).collect();
    let j = json!({
        "unknown_entry_points": unknown,
        "slice": o.slice, "lines": out.map, "modular": by(Mode::Modular), "stubs": by(Mode::Stub), "trusted": by(Mode::Trusted),
        "inlined": inl, "roots": roots, "missing_roots": missing, "unattached": g.unattached, "dropped": g.dropped, "lits": g.lits,
        "conversions": fconv.iter().map(|(f, r)| json!({"key": f.f.key, "verified": r.is_ok(), "error": r.as_ref().err()})).collect::<Vec<_>>(),
        "fx": g.fx.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
    });
    std::fs::write(&o.map, serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    Ok(())
}

fn lower_from(g: &mut Gen, fi: &FromImpl) -> R<Lowered> {
    g.reset();
    g.frames = vec![g.sig_frame(&fi.f)];
    g.no_env = true;
    if !fi.f.impl_generics.is_empty() {
        return Err("generic conversion".into());
    }
    g.stack = vec![fi.f.key.clone()];
    let src = g.ty_tokens(&fi.source)?;
    let dst = g.ty_tokens(&fi.target)?;
    let st = g.ty(&fi.source)?;
    let mut pre: Vec<Stmt> = vec![];
    let p = match fi.f.sig.inputs.first() {
        Some(FnArg::Typed(p)) => p,
        _ => return Err("conversion parameter".into()),
    };
    let pp = g.pat(&p.pat, &st)?;
    let se: Expr = parse_quote!(self);
    pre.push(stmt_let(quote!(#pp), &se, None));
    let mut names = HashMap::new();
    if let Some(c) = g.ctr.map.get(&fi.f.key) {
        if let Some(n) = c.params.first() {
            names.insert(n.clone(), "self".to_string());
        }
    }
    let err = match &fi.error {
        Some(t) => Some(g.ty_tokens(t)?.to_string()),
        None => None,
    };
    g.frames[0].ret = Some(g.ret_ty(&fi.f));
    let b = g.block(&fi.f.block);
    if g.used_st > 0 || g.used_env > 0 {
        return Err("conversion uses the state".into());
    }
    let (body, mode) = match b {
        Ok((b, _)) => {
            let ss = &b.stmts;
            (Some(parse_quote!({ #(#pre)* #(#ss)* })), Mode::Modular)
        }
        Err(e) => {
            g.dropped.insert(format!("body of conversion {}: {e}", fi.f.key));
            (None, Mode::Stub)
        }
    };
    Ok(Lowered { key: fi.f.key.clone(), mode, sig: format!("{src}\u{1}{dst}\u{1}{}", err.unwrap_or_default()), names, body, st: None, st_mut: false, env: 0, ret: true, inlined: g.inlined.clone() })
}

fn conj(v: &[String]) -> String {
    if v.is_empty() {
        "true".into()
    } else {
        v.iter().map(|x| format!("({})", x.trim().trim_end_matches(','))).collect::<Vec<_>>().join(" && ")
    }
}

fn emit_from(out: &mut Out, fi: &FromImpl, r: &R<Lowered>, g: &mut Gen, ctr: &Contracts, texts: &HashMap<String, String>) {
    let l = match r {
        Ok(l) => l,
        Err(_) => return,
    };
    let parts: Vec<&str> = l.sig.split('\u{1}').collect();
    let (src, dst, er) = (parts[0], parts[1], parts[2]);
    let c = ctr.map.get(&l.key);
    let sl = g.slice.clone();
    let mut pick = |f: &dyn Fn(&Contract) -> Vec<Clause>| -> Vec<String> {
        match c {
            None => vec![],
            Some(c) => f(c).iter().filter(|x| hit(&x.tags, &sl)).map(|x| replace_lits(&subst(&texts[&x.src], &l.names), g)).collect(),
        }
    };
    let req = pick(&|c| c.req.clone());
    let ens = pick(&|c| c.ens.clone());
    let rn = c.map(|c| c.ret.clone()).unwrap_or("r".into());
    let start = out.line;
    // properties that rule out every abort, but say nothing about this conversion
    let foreign = matches!(sl.as_str(), "C18" | "C19" | "C20" | "C21" | "C30") && !c.map(|c| c.req.iter().chain(&c.ens).any(|x| x.tags.iter().any(|t| *t == sl))).unwrap_or(false);
    let body = l.body.as_ref().filter(|_| !foreign).map(|b| {
        let mut p = Prn { s: String::new(), ind: 1, loops: &|_| String::new(), exit: "" };
        p.stream(b.to_token_stream());
        p.s
    });
    let lt = if src.contains('\'') { "<'a>" } else { "" };
    if !fi.try_ {
        out.ln(&format!("impl{lt} crate::ext::Conv<{dst}> for {src} {{"));
        out.ln(&format!("  open spec fn conv_req(self) -> bool {{ {} }}", conj(&req)));
        out.ln(&format!("  open spec fn conv_ens(self, {rn}: {dst}) -> bool {{ {} }}", conj(&ens)));
        match body {
            Some(b) => out.ln(&format!("  fn conv(self) -> ({rn}: {dst}) {b}")),
            None => out.ln(&format!("  #[verifier::external_body] fn conv(self) -> ({rn}: {dst}) {{ unimplemented!() }}")),
        }
    } else {
        let has = c.map(|c| c.active(&sl)).unwrap_or(false);
        out.ln(&format!("impl{lt} crate::ext::TConv<{dst}> for {src} {{ type E = {er};"));
        if has {
            out.ln(&format!("  open spec fn tconv_ok(self) -> bool {{ {} }}", conj(&req)));
            out.ln(&format!("  open spec fn tconv_ens(self, {rn}: {dst}) -> bool {{ {} }}", conj(&ens)));
        } else {
            out.ln("  uninterp spec fn tconv_ok(self) -> bool;");
            out.ln(&format!("  open spec fn tconv_ens(self, {rn}: {dst}) -> bool {{ true }}"));
        }
        match (has, body) {
            (true, Some(b)) => out.ln(&format!("  fn tconv(self) -> ({rn}: Result<{dst}, Self::E>) {b}")),
            _ => out.ln(&format!("  #[verifier::external_body] fn tconv(self) -> ({rn}: Result<{dst}, Self::E>) {{ unimplemented!() }}")),
        }
    }
    out.ln("}");
    out.mark(start, &l.key, "conversion", &c.map(|c| c.src.clone()).unwrap_or_default(), "", &[]);
}

fn emit_type(g: &mut Gen, k: &str) -> R<String> {
    let has = |attrs: &[Attribute], n: &str| attrs.iter().any(|a| a.path().is_ident("derive") && a.meta.to_token_stream().into_iter().any(|t| t.to_string().split(|c: char| !c.is_alphanumeric()).any(|x| x == n)));
    g.reset();
    if let Some((m, s)) = g.db.structs.get(k).cloned() {
        g.frames = vec![Frame { module: m, ..Default::default() }];
        let d = if has(&s.attrs, "Copy") { "#[derive(Clone, Copy)]\n" } else { "" };
        let n0 = s.ident.to_string();
        let lts: Vec<String> = s.generics.lifetimes().map(|l| l.lifetime.to_string()).collect();
        let n = if lts.is_empty() { n0.clone() } else { format!("{n0}<{}>", lts.join(", ")) };
        let mut fs = vec![];
        for f in &s.fields {
            let t = g.ty_tokens(&f.ty).map_err(|e| format!("type {k}: {e}"))?;
            match &f.ident {
                Some(i) => fs.push(format!("pub {i}: {t}")),
                None => fs.push(format!("pub {t}")),
            }
        }
        let mut r = match &s.fields {
            Fields::Named(_) => format!("{d}pub struct {n} {{ {} }}\n", fs.join(", ")),
            Fields::Unnamed(_) => format!("{d}pub struct {n}({});\n", fs.join(", ")),
            Fields::Unit => format!("{d}pub struct {n};\n"),
        };
        if has(&s.attrs, "Default") && matches!(s.fields, Fields::Named(_)) {
            let mut a = vec![];
            let mut b = vec![];
            for f in &s.fields {
                let t = g.ty_tokens(&f.ty)?;
                let i = f.ident.as_ref().unwrap();
                a.push(format!("{i}: <{t} as crate::ext::Dflt>::dflt()"));
                b.push(format!("{i}: <{t} as crate::ext::Dflt>::default_()"));
            }
            r.push_str(&format!("impl crate::ext::Dflt for {n} {{ open spec fn dflt() -> Self {{ {n} {{ {} }} }} fn default_() -> (r: Self) {{ {n} {{ {} }} }} }}\n", a.join(", "), b.join(", ")));
        }
        // minicbor's derive: an array with the field's bytes at its index
        if has(&s.attrs, "Encode") && !s.attrs.iter().any(|a| a.path().is_ident("cbor")) && s.fields.len() == 1 {
            let f = s.fields.iter().next().unwrap();
            let a: Vec<String> = f.attrs.iter().filter(|a| !a.path().is_ident("doc")).map(|a| a.meta.to_token_stream().to_string().replace(' ', "")).collect();
            let k = a.first().filter(|_| a.len() == 1).and_then(|x| x.strip_prefix("cbor(n(")).and_then(|x| x.strip_suffix("),with=\"minicbor::bytes\")")).and_then(|x| x.parse::<u8>().ok());
            if let (Some(k), Some(i)) = (k, &f.ident) {
                let (l, b) = if lts.is_empty() { (String::new(), n0.clone()) } else { (format!("<{}>", lts.join(", ")), n.clone()) };
                r.push_str(&format!("impl{l} crate::ext::minicbor::EncBytes for {b} {{ open spec fn enc(&self) -> Seq<u8> {{ {} }} }}\n", if k == 0 { format!("crate::ext::memo_cbor(self.{i}@)") } else { format!("crate::ext::cbor_array1({k}, self.{i}@)") }));
            }
        }
        return Ok(r);
    }
    if let Some((m, s)) = g.db.enums.get(k).cloned() {
        g.frames = vec![Frame { module: m, ..Default::default() }];
        let d = if has(&s.attrs, "Copy") { "#[derive(Clone, Copy)]\n" } else { "" };
        let mut vs = vec![];
        for v in &s.variants {
            let mut fs = vec![];
            for f in &v.fields {
                let t = g.ty_tokens(&f.ty).map_err(|e| format!("type {k}: {e}"))?;
                match &f.ident {
                    Some(i) => fs.push(format!("{i}: {t}")),
                    None => fs.push(format!("{t}")),
                }
            }
            vs.push(match &v.fields {
                Fields::Named(_) => format!("{} {{ {} }}", v.ident, fs.join(", ")),
                Fields::Unnamed(_) => format!("{}({})", v.ident, fs.join(", ")),
                Fields::Unit => v.ident.to_string(),
            });
        }
        return Ok(format!("#[allow(inconsistent_fields)]\n{d}pub enum {} {{ {} }}\n", s.ident, vs.join(", ")));
    }
    Err(format!("unknown type {k}"))
}

fn emit_veq(g: &mut Gen, k: &str) -> Option<String> {
    if let Some((_, s)) = g.db.structs.get(k) {
        let n = &s.ident;
        let c: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| { let m = f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()); format!("self.{m}.veq_spec(&o.{m})") }).collect();
        return Some(format!("impl crate::ext::VEq for {n} {{ open spec fn veq_spec(&self, o: &Self) -> bool {{ use crate::ext::VEq; {} }} #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", if c.is_empty() { "true".into() } else { c.join(" && ") }).replace("use crate::ext::VEq; ", ""));
    }
    if let Some((_, s)) = g.db.enums.get(k) {
        let n = &s.ident;
        let mut arms = vec![];
        for v in &s.variants {
            let m = v.fields.len();
            let a: Vec<String> = (0..m).map(|i| format!("a{i}")).collect();
            let b: Vec<String> = (0..m).map(|i| format!("b{i}")).collect();
            let c: Vec<String> = (0..m).map(|i| format!("a{i}.veq_spec(&b{i})")).collect();
            let c = if c.is_empty() { "true".into() } else { c.join(" && ") };
            let pt = |x: &Vec<String>| match &v.fields {
                Fields::Named(f) => format!("{n}::{} {{ {} }}", v.ident, f.named.iter().zip(x).map(|(f, y)| format!("{}: {y}", f.ident.as_ref().unwrap())).collect::<Vec<_>>().join(", ")),
                Fields::Unnamed(_) => format!("{n}::{}({})", v.ident, x.join(", ")),
                Fields::Unit => format!("{n}::{}", v.ident),
            };
            arms.push(format!("({}, {}) => {c}", pt(&a), pt(&b)));
        }
        return Some(format!("impl crate::ext::VEq for {n} {{ open spec fn veq_spec(&self, o: &Self) -> bool {{ match (*self, *o) {{ {}, _ => false }} }} #[verifier::external_body] fn veq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\n", arms.join(", ")));
    }
    None
}

#[allow(clippy::too_many_arguments)]
fn emit_mod(out: &mut Out, path: &Path_, tree: &BTreeMap<Path_, ModOut>, low: &BTreeMap<String, Lowered>, g: &mut Gen, ctr: &Contracts, o: &Opts, texts: &HashMap<String, String>, grp: bool) -> R<()> {
    if let Some(n) = path.last() {
        out.ln(&format!("pub mod {n} {{ use vstd::prelude::*;"));
    }
    for m in tree.keys() {
        if m.len() == path.len() + 1 && m.starts_with(path) {
            emit_mod(out, m, tree, low, g, ctr, o, texts, grp)?;
        }
    }
    out.ln("verus! {");
    if !path.is_empty() {
        out.ln("use crate::spec::*; use crate::ext::{VIter, IntoV, Dup, VEq, Unw, UnwOr, VInt, ToVec, ViterRef, Ctx, akey, eff, key_lt, EnvV, CallRec};");
    } else {
        out.ln("use crate::spec::*; use crate::ext::{VIter, IntoV, Dup, VEq, Unw, UnwOr, VInt, ToVec, ViterRef, Ctx, akey, eff, key_lt, EnvV, CallRec};");
    }
    if grp {
        out.ln("broadcast use crate::spec::grp;");
    }
    for (k, t) in &tree[path].items {
        match k {
            None => out.ln(t),
            Some(k) => {
                emit_fn(out, &low[k], g, ctr, o, texts, false)?;
                if o.vacuity && low[k].mode == Mode::Modular {
                    emit_fn(out, &low[k], g, ctr, o, texts, true)?;
                }
            }
        }
    }
    out.ln("} // verus");
    if !path.is_empty() {
        out.ln("}");
    }
    Ok(())
}

fn emit_fn(out: &mut Out, l: &Lowered, g: &mut Gen, ctr: &Contracts, o: &Opts, texts: &HashMap<String, String>, vac: bool) -> R<()> {
    let f = g.db.fns[&l.key].clone();
    let c = ctr.map.get(&l.key);
    let sl = o.slice.clone();
    let imp = match &f.self_ty {
        Some(t) => {
            g.reset();
            g.frames = vec![g.sig_frame(&f)];
            let tk = g.ty_tokens(t)?;
            out.ln(&format!("impl {tk} {{"));
            true
        }
        None => false,
    };
    let start = out.line;
    // placeholders
    let mut m = l.names.clone();
    let (s0, s1, s) = match (&l.st, l.st_mut) {
        (Some(n), true) => (format!("(*old({n}))"), format!("(*final({n}))"), format!("(*{n})")),
        (Some(n), false) => (format!("(*{n})"), format!("(*{n})"), format!("(*{n})")),
        _ => ("NO_STATE".into(), "NO_STATE".into(), "NO_STATE".into()),
    };
    let (e0, e1, e) = match l.env {
        2 => ("old(env)@", "final(env)@", "env@"),
        1 => ("env@", "env@", "env@"),
        _ => ("NO_ENV", "NO_ENV", "NO_ENV"),
    };
    m.retain(|k, _| !["S0", "S1", "S", "E0", "E1", "E"].contains(&k.as_str()));
    for (k, v) in [("S0", s0.as_str()), ("S1", s1.as_str()), ("S", s.as_str()), ("E0", e0), ("E1", e1), ("E", e)] {
        m.insert(k.into(), v.into());
    }
    let clause = |cl: &Clause, g: &mut Gen| -> String { replace_lits(&subst(&texts[&cl.src], &m), g).trim().trim_end_matches(',').to_string() };
    let stub = l.mode == Mode::Stub;
    let ext = l.mode != Mode::Modular;
    if ext {
        out.ln("#[verifier::external_body]");
    } else {
        out.ln("#[verifier::exec_allows_no_decreases_clause]");
        if !c.map(|c| c.attrs.iter().any(|a| a.text.contains("isolate"))).unwrap_or(false) {
            out.ln("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]");
        }
        if let Some(c) = c {
            for a in c.attrs.iter().filter(|a| hit(&a.tags, &sl)) {
                if !a.text.contains("isolate") {
                    out.ln(a.text.trim());
                }
            }
        }
    }
    let name = l.key.rsplit("::").next().unwrap();
    let sig = if vac { l.sig.replacen(&format!("pub fn {name}"), &format!("pub fn {name}__vacuity"), 1) } else { l.sig.clone() };
    out.ln(&sig);
    if let (Some(c), false) = (c, stub) {
        let reqs: Vec<&Clause> = c.req.iter().filter(|x| hit(&x.tags, &sl)).collect();
        if !reqs.is_empty() {
            out.ln("  requires");
            for r in reqs {
                let t = clause(r, g);
                let st = out.line;
                out.ln(&format!("    {t},"));
                out.mark(st, &l.key, "req", &r.src, &r.text, &r.tags);
            }
        }
        let ens: Vec<&Clause> = c.ens.iter().filter(|x| hit(&x.tags, &sl)).collect();
        if vac {
            out.ln("  ensures");
            let st = out.line;
            out.ln("    false,");
            out.mark(st, &l.key, "vacuity", "", "", &[]);
        } else if !ens.is_empty() {
            out.ln("  ensures");
            for r in ens {
                let t = clause(r, g);
                let st = out.line;
                out.ln(&format!("    {t},"));
                out.mark(st, &l.key, "ens", &r.src, &r.text, &r.tags);
            }
        }
    } else if vac {
        out.ln("  ensures");
        let st = out.line;
        out.ln("    false,");
        out.mark(st, &l.key, "vacuity", "", "", &[]);
    }
    if !l.ret && stub {
        out.ln("  ensures false,");
    }
    if ext {
        out.ln("{ unimplemented!() }");
    } else {
        out.ln("{");
        if let Some(c) = c {
            for en in c.entry.iter().filter(|x| hit(&x.tags, &sl)) {
                // at entry the current state is still the old one
                let t = replace_lits(&subst(&texts[&en.src], &m), g);
                let st = out.line;
                out.ln(&format!("  {}", t.trim()));
                out.mark(st, &l.key, "entry", &en.src, &en.text, &en.tags);
            }
        }
        let mut lt: HashMap<usize, String> = HashMap::new();
        let mut blk = l.body.clone().unwrap();
        if let Some(c) = c {
            let mut accs: BTreeMap<usize, String> = BTreeMap::new();
            for (k, v) in &c.loops {
                if v.iter().any(|x| hit(&x.tags, &sl)) {
                    if let Some(x) = loop_acc(&blk.stmts, *k) {
                        accs.insert(*k, x);
                    }
                }
            }
            let toks = { let ss = &blk.stmts; quote!(#(#ss)*).to_string() };
            let took = |k: usize| toks.contains(&format!("let mut tk_{k} :"));
            let kept: BTreeMap<usize, String> = accs.iter().filter(|(k, _)| took(**k) || c.loops[k].iter().any(|x| hit(&x.tags, &sl) && idents(&x.text).contains(&format!("acc0_{k}")))).map(|(k, x)| (*k, x.clone())).collect();
            visit_mut::VisitMut::visit_block_mut(&mut Keep { at: &kept }, &mut blk);
            let ss = &blk.stmts;
            let toks = quote!(#(#ss)*).to_string();
            let names = idents(&toks);
            let muts = let_muts(&toks);
            let bound = |n: &String| muts.contains(n) || toks.contains(&format!("let {n} "));
            let mut ren: HashMap<String, String> = HashMap::new();
            for (n, k) in &c.locals {
                if !bound(n) {
                    if let Some(x) = muts.get(*k - 1) {
                        ren.insert(n.clone(), x.clone());
                        g.unattached.push(format!("{}: the local {n} of the loop invariants is now {x}", l.key));
                    }
                }
            }
            let flat: String = toks.split_whitespace().collect();
            for (k, v) in &c.loops {
                // an iterator of the source advanced in the head of a while loop
                let head = format!("__vloop!({k}usize);matchcrate::ext::VIter::vnext(&mut");
                let var: Option<String> = flat.find(&head).map(|i| flat[i + head.len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
                let mut ren = ren.clone();
                if let Some(x) = accs.get(k) {
                    ren.insert(format!("acc_{k}"), x.clone());
                }
                // a loop that counts a local up to another one
                let head = format!("__vloop!({k}usize);if");
                let cmp: Option<(String, String)> = flat.find(&head).and_then(|i| {
                    let r = flat[i + head.len()..].trim_start_matches('(');
                    let id = |c: char| c.is_alphanumeric() || c == '_';
                    let a: String = r.chars().take_while(|c| id(*c)).collect();
                    let r = r[a.len()..].strip_prefix('<')?;
                    let b: String = r.chars().take_while(|c| id(*c)).collect();
                    (r[b.len()..].starts_with('{') || r[b.len()..].starts_with("){")).then_some((a, b))
                });
                if let Some((a, b)) = cmp {
                    if names.contains(&format!("its_{k}")) && !names.contains(&format!("it_{k}")) && !muts.contains(&b) {
                        ren.insert(format!("it_{k}"), format!("crate::ext::ctr_at(its_{k}@, itc_{k}@, {a})"));
                    }
                }
                if let Some(x) = var.filter(|x| *x != format!("it_{k}")) {
                    ren.insert(format!("it_{k}"), x);
                }
                let mut w: Vec<(&Clause, String)> = vec![];
                for x in v.iter().filter(|x| hit(&x.tags, &sl)) {
                    let t = clause(x, g);
                    let t = subst(&t, &ren);
                    // a clause about a variable the body no longer has says nothing about it
                    let gone: Vec<String> = idents(&t).into_iter().filter(|i| (c.locals.iter().any(|(n, _)| n == i) && !bound(i)) || (gen_var(i) && !names.contains(i))).collect();
                    if gone.is_empty() {
                        w.push((x, t));
                    } else {
                        g.unattached.push(format!("{}: loop {k} has no {} ({})", l.key, gone.join(", "), x.src));
                    }
                }
                // `take`: one count per item that reaches the end of the chain
                let took = match accs.get(k) {
                    _ if !names.contains(&format!("tk_{k}")) => None,
                    Some(x) => Some(format!("{x}@.len() == acc0_{k}@.len() + tk_{k}")),
                    None if names.contains(&format!("out_{k}")) => Some(format!("out_{k}@.len() == tk_{k}")),
                    None => None,
                };
                let kind = if names.contains(&format!("er_{k}")) { "invariant_except_break" } else { "invariant" };
                lt.insert(*k, merge_loop(&w, took.map(|t| (kind, t))));
            }
        }
        // loops that keep what is returned from inside them
        {
            let ss = &blk.stmts;
            let toks = quote!(#(#ss)*).to_string();
            for i in idents(&toks) {
                if let Some(k) = i.strip_prefix("ret_").and_then(|k| k.parse::<usize>().ok()) {
                    let t = lt.remove(&k).unwrap_or_default();
                    let c = format!("ret_{k} is None,\n");
                    lt.insert(k, if t.contains("invariant\n") { t.replacen("invariant\n", &format!("invariant\n{c}"), 1) } else { format!("invariant\n{c}{t}") });
                }
            }
        }
        let mut exit = String::new();
        if let Some(c) = c {
            for x in c.exit.iter().filter(|x| hit(&x.tags, &sl)) {
                // after the body the parameters hold their final values
                let mut mm = m.clone();
                mm.insert("S1".into(), m["S"].clone());
                mm.insert("E1".into(), m["E"].clone());
                mm.insert(c.ret.clone(), "__r".into());
                exit.push_str(&replace_lits(&subst(&texts[&x.src], &mm), g));
                exit.push('\n');
            }
        }
        let seen = std::cell::RefCell::new(BTreeSet::new());
        let want: Vec<usize> = c.map(|c| c.loops.iter().filter(|(_, v)| v.iter().any(|x| hit(&x.tags, &sl))).map(|(k, _)| *k).collect()).unwrap_or_default();
        let seen_ref = &seen;
        let loops = move |n: usize| { seen_ref.borrow_mut().insert(n); lt.get(&n).cloned().unwrap_or_default() };
        let mut p = Prn { s: String::new(), ind: 1, loops: &loops, exit: &exit };
        let ss = &blk.stmts;
        p.stream(quote!(#(#ss)*));
        let body = p.s;
        if !vac {
            for k in want.iter().filter(|k| !seen.borrow().contains(k)) {
                g.unattached.push(format!("{}: no loop {k}", l.key));
            }
            if let (Some(m), true) = (want.iter().max(), !want.is_empty()) {
                for k in seen.borrow().iter().filter(|k| *k > m) {
                    g.unattached.push(format!("{}: loop {k} has no invariant", l.key));
                }
            }
        }
        let st = out.line;
        out.ln(&format!("  {}", body.trim()));
        out.mark(st, &l.key, "body", &f.source, "", &[]);
        out.ln("}");
    }
    out.mark(start, &l.key, if vac { "vacfn" } else { "fn" }, "", "", &[]);
    if imp {
        out.ln("}");
    }
    Ok(())
}
#[allow(dead_code)]
fn unused(t: &Type) -> bool {
    has_impl(t)
}
