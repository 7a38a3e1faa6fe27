//! Return elimination for inlined bodies.
use proc_macro2::Span;
use quote::quote;
use syn::visit::Visit;
use syn::*;

type R<T> = std::result::Result<T, String>;

struct Has(bool, bool);
impl<'a> Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_return(e: &Expr) -> bool {
    let mut h = Has(false, false);
    h.visit_expr(e);
    h.0
}
fn stmt_has(s: &Stmt) -> bool {
    let mut h = Has(false, false);
    h.visit_stmt(s);
    h.0
}
fn block_has(b: &Block) -> bool {
    b.stmts.iter().any(stmt_has)
}

struct E {
    n: usize,
}
static mut COUNT: usize = 0;

pub fn reset() {
    unsafe { COUNT = 0 }
}
pub fn eliminate(e: Expr) -> R<Expr> {
    let n = unsafe { COUNT };
    let mut s = E { n };
    let r = s.go(e, false)?;
    unsafe { COUNT = s.n };
    Ok(r)
}

impl E {
    fn tmp(&mut self) -> Ident {
        self.n += 1;
        Ident::new(&format!("c__{}", self.n), Span::call_site())
    }
    fn leaf(&self, e: Expr, w: bool) -> Expr {
        if w { parse_quote!(crate::ext::Ctl::Val(#e)) } else { e }
    }
    fn ret(&self, e: Expr, w: bool) -> Expr {
        if w {
            // control flow is a value here: what is returned must not count as gone for what follows
            let mut e = e;
            kept(&mut e);
            parse_quote!(crate::ext::Ctl::Ret(#e))
        } else { e }
    }
    /// evaluate `e` (which may return), bind its value to `pat`, continue with `k`
    fn bind(&mut self, e: Expr, pat: proc_macro2::TokenStream, k: Expr, w: bool) -> R<Expr> {
        if !has_return(&e) {
            return Ok(parse_quote!({ let #pat = #e; #k }));
        }
        // one way through: what follows goes there
        match &e {
            Expr::Paren(p) => return self.bind((*p.expr).clone(), pat, k, w),
            Expr::If(i) if !has_return(&i.cond) => {
                let el = i.else_branch.as_ref().map(|x| (*x.1).clone()).unwrap_or_else(|| parse_quote!({}));
                let th = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                let (ft, fe) = (falls(&th), falls(&el));
                if ft != fe && !captured(&bound_in(&i.cond), &pat, &k) | fe {
                    let (c, cond) = (|s: &mut Self, x: Expr, on: bool, k: Expr| if on { s.bind(x, pat.clone(), k, w) } else { s.go(x, w) }, &i.cond);
                    let t = c(self, th, ft, k.clone())?;
                    let f = c(self, el, fe, k)?;
                    return Ok(parse_quote!(if #cond { #t } else { #f }));
                }
            }
            Expr::Match(m) if !has_return(&m.expr) && m.arms.iter().filter(|a| falls(&a.body)).count() == 1 => {
                if m.arms.iter().all(|a| !falls(&a.body) || !captured(&bound_pat(&a.pat), &pat, &k)) {
                    let mut arms = vec![];
                    for a in &m.arms {
                        let b = if falls(&a.body) { self.bind((*a.body).clone(), pat.clone(), k.clone(), w)? } else { self.go((*a.body).clone(), w)? };
                        let p = &a.pat;
                        let g = match &a.guard { Some((_, g)) => quote!(if #g), None => quote!() };
                        arms.push(quote!(#p #g => { #b }));
                    }
                    let s = &m.expr;
                    return parse2(quote!(match #s { #(#arms)* })).map_err(|e| e.to_string());
                }
            }
            Expr::Block(b) if b.label.is_none() && !b.block.stmts[..b.block.stmts.len().max(1) - 1].iter().any(stmt_has) => {
                let n = b.block.stmts.len();
                let names: Vec<String> = b.block.stmts.iter().flat_map(|s| match s { Stmt::Local(l) => bound_pat(&l.pat), _ => vec![] }).collect();
                if let Some(Stmt::Expr(t, semi)) = b.block.stmts.last() {
                    if !captured(&names, &pat, &k) && !matches!(t, Expr::Return(_)) && !b.block.stmts.iter().any(|s| matches!(s, Stmt::Item(_))) {
                        let pre = &b.block.stmts[..n - 1];
                        let r = if semi.is_some() { self.bind(t.clone(), quote!(_), parse_quote!({ let #pat = (); #k }), w)? } else { self.bind(t.clone(), pat.clone(), k, w)? };
                        return Ok(parse_quote!({ #(#pre)* #r }));
                    }
                }
            }
            _ => {}
        }
        let c = self.go(e, true)?;
        let r = self.tmp();
        let v = self.tmp();
        let re = self.ret(parse_quote!(#r), w);
        Ok(parse_quote!(match #c { crate::ext::Ctl::Ret(#r) => #re, crate::ext::Ctl::Val(#v) => { let #pat = #v; #k } }))
    }
    fn go(&mut self, e: Expr, w: bool) -> R<Expr> {
        if !has_return(&e) {
            return Ok(self.leaf(e, w));
        }
        match e {
            Expr::Return(r) => {
                let x = match r.expr {
                    Some(x) => *x,
                    None => parse_quote!(()),
                };
                if has_return(&x) {
                    return Err("return inside return".into());
                }
                Ok(self.ret(x, w))
            }
            Expr::Paren(p) => self.go(*p.expr, w),
            Expr::Block(b) => self.stmts(b.block.stmts, w),
            Expr::If(i) => {
                let cond = *i.cond;
                if has_return(&cond) {
                    if let Expr::Let(l) = cond {
                        let t = self.tmp();
                        let te: Expr = parse_quote!(#t);
                        let nl = Expr::Let(ExprLet { expr: Box::new(te), ..l.clone() });
                        let k = self.go(Expr::If(ExprIf { cond: Box::new(nl), attrs: i.attrs, if_token: i.if_token, then_branch: i.then_branch, else_branch: i.else_branch }), w)?;
                        return self.bind(*l.expr, quote!(#t), k, w);
                    }
                    let t = self.tmp();
                    let te: Expr = parse_quote!(#t);
                    let k = self.go(Expr::If(ExprIf { cond: Box::new(te), attrs: i.attrs, if_token: i.if_token, then_branch: i.then_branch, else_branch: i.else_branch }), w)?;
                    return self.bind(cond, quote!(#t), k, w);
                }
                let th = self.stmts(i.then_branch.stmts, w)?;
                let el = match i.else_branch {
                    Some((_, e)) => self.go(*e, w)?,
                    None => self.leaf(parse_quote!(()), w),
                };
                Ok(Expr::If(ExprIf {
                    attrs: vec![],
                    if_token: Default::default(),
                    cond: Box::new(cond),
                    then_branch: parse_quote!({ #th }),
                    else_branch: Some((Default::default(), Box::new(parse_quote!({ #el })))),
                }))
            }
            Expr::Match(m) => {
                let s = *m.expr;
                if has_return(&s) {
                    let t = self.tmp();
                    let te: Expr = parse_quote!(#t);
                    let k = self.go(Expr::Match(ExprMatch { expr: Box::new(te), ..m_rest(m.arms) }), w)?;
                    return self.bind(s, quote!(#t), k, w);
                }
                let mut arms = vec![];
                for a in m.arms {
                    let b = self.go(*a.body, w)?;
                    let p = a.pat;
                    let g = match a.guard {
                        Some((_, g)) => quote!(if #g),
                        None => quote!(),
                    };
                    arms.push(quote!(#p #g => { #b }));
                }
                parse2(quote!(match #s { #(#arms)* })).map_err(|e| e.to_string())
            }
            Expr::Loop(l) => {
                let b = leave(l)?;
                self.go(b, w)
            }
            // generic: hoist the operands that return
            other => {
                let mut h = Hoist { e: self, pre: vec![], err: None };
                let mut o = other;
                hoist_children(&mut o, &mut h);
                if let Some(x) = h.err {
                    return Err(x);
                }
                let pre = h.pre;
                let mut k = self.leaf(o, w);
                for (t, c) in pre.into_iter().rev() {
                    k = self.bind(c, quote!(#t), k, w)?;
                }
                Ok(k)
            }
        }
    }
    fn stmts(&mut self, ss: Vec<Stmt>, w: bool) -> R<Expr> {
        let i = match ss.iter().position(stmt_has) {
            None => {
                // no return: value block
                let ends_value = matches!(ss.last(), Some(Stmt::Expr(_, None)));
                if !w {
                    return Ok(parse_quote!({ #(#ss)* }));
                }
                if ends_value {
                    let mut ss = ss;
                    if let Some(Stmt::Expr(e, None)) = ss.pop() {
                        let l = self.leaf(e, w);
                        return Ok(parse_quote!({ #(#ss)* #l }));
                    }
                    unreachable!()
                }
                let l = self.leaf(parse_quote!(()), w);
                return Ok(parse_quote!({ #(#ss)* #l }));
            }
            Some(i) => i,
        };
        let prefix: Vec<Stmt> = ss[..i].to_vec();
        let rest: Vec<Stmt> = ss[i + 1..].to_vec();
        let cur = ss[i].clone();
        let e: Expr = match cur {
            Stmt::Local(l) => {
                let init = l.init.ok_or("let without initialiser")?;
                let pat = l.pat;
                let k = self.stmts(rest, w)?;
                match init.diverge {
                    None => self.bind(*init.expr, quote!(#pat), k, w)?,
                    Some((_, d)) => {
                        let dv = if has_return(&d) {
                            self.go(*d, w)?
                        } else {
                            *d
                        };
                        let x = *init.expr;
                        if has_return(&x) {
                            let t = self.tmp();
                            let m: Expr = parse2(quote!(match #t { #pat => { #k } _ => { #dv } })).map_err(|e| e.to_string())?;
                            self.bind(x, quote!(#t), m, w)?
                        } else {
                            parse2(quote!(match #x { #pat => { #k } _ => { #dv } })).map_err(|e| e.to_string())?
                        }
                    }
                }
            }
            Stmt::Expr(e, semi) => {
                if rest.is_empty() && semi.is_none() {
                    self.go(e, w)?
                } else if let Expr::Return(_) = &e {
                    self.go(e, w)?
                } else if ends_in_return(&e) && rest.is_empty() {
                    self.go(e, w)?
                } else {
                    let k = self.stmts(rest, w)?;
                    self.bind(e, quote!(_), k, w)?
                }
            }
            _ => return Err("statement with return".into()),
        };
        Ok(parse_quote!({ #(#prefix)* #e }))
    }
}

/// the loop as `return` sees it from outside: what is returned is kept, the loop is left, and the return follows it
fn leave(mut l: ExprLoop) -> R<Expr> {
    use syn::visit_mut::{self, VisitMut};
    struct L<'a> {
        r: &'a Ident,
        own: usize,
        err: Option<String>,
    }
    impl VisitMut for L<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Closure(_) | Expr::Async(_) => {}
                Expr::Loop(i) => {
                    let has = has_return(&Expr::Loop(i.clone()));
                    if has {
                        match leave(i.clone()) {
                            Ok(mut x) => {
                                // what follows the inner loop is at this level
                                if let Expr::Block(b) = &mut x {
                                    if let Some(Stmt::Expr(m, _)) = b.block.stmts.last_mut() {
                                        self.visit_expr_mut(m);
                                    }
                                }
                                *e = x;
                            }
                            Err(x) => self.err = Some(x),
                        }
                    }
                }
                Expr::Break(b) => {
                    if b.expr.is_some() || b.label.is_some() {
                        self.err = Some("break with a value or label beside a return".into());
                    }
                    self.own += 1;
                }
                Expr::Return(x) => {
                    if let Some(y) = &mut x.expr {
                        self.visit_expr_mut(y);
                    }
                    let v: Expr = match &x.expr {
                        Some(y) => (**y).clone(),
                        None => parse_quote!(()),
                    };
                    let r = self.r;
                    *e = parse_quote!({ #r = Some(#v); break; });
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let k = match l.body.stmts.first() {
        Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vloop") => m.mac.tokens.to_string().trim_end_matches("usize").trim().to_string(),
        _ => return Err("return inside a loop of an inlined function".into()),
    };
    if l.label.is_some() {
        return Err("return inside a labelled loop".into());
    }
    let r = Ident::new(&format!("ret_{k}"), Span::call_site());
    let v = Ident::new(&format!("retv_{k}"), Span::call_site());
    let mut x = L { r: &r, own: 0, err: None };
    x.visit_block_mut(&mut l.body);
    if let Some(e) = x.err {
        return Err(e);
    }
    if x.own == 0 {
        return Err("a loop left only by return".into());
    }
    Ok(parse_quote!({ let mut #r = None; #l match #r { Some(#v) => return #v, None => {} } }))
}

fn m_rest(arms: Vec<Arm>) -> ExprMatch {
    let mut m: ExprMatch = parse_quote!(match x {});
    m.arms = arms;
    m
}
/// the variables that make up a returned value, copied
fn kept(e: &mut Expr) {
    let part = |e: &mut Expr| match e {
        Expr::Path(p) if p.path.get_ident().map(|i| { let s = i.to_string(); s.chars().next().unwrap().is_lowercase() && s != "st" && s != "env" && !s.starts_with("c__") }).unwrap_or(false) => {
            let x = e.clone();
            *e = parse_quote!(crate::ext::Dup::dup(&#x));
        }
        _ => kept(e),
    };
    match e {
        Expr::Paren(p) => kept(&mut p.expr),
        Expr::Struct(s) => s.fields.iter_mut().for_each(|f| { f.colon_token = Some(Default::default()); part(&mut f.expr) }),
        Expr::Tuple(t) => t.elems.iter_mut().for_each(part),
        Expr::Block(b) => if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() { kept(e) },
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()).unwrap_or(false)) => c.args.iter_mut().for_each(part),
        _ => {}
    }
}
/// can control continue after the expression
fn falls(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => false,
        Expr::Paren(p) => falls(&p.expr),
        Expr::Block(b) => !b.block.stmts.iter().any(|s| match s {
            Stmt::Expr(e, _) => !falls(e),
            Stmt::Local(l) => l.init.as_ref().map(|i| !falls(&i.expr)).unwrap_or(false),
            _ => false,
        }),
        Expr::If(i) => match &i.else_branch {
            Some((_, o)) => i.then_branch.stmts.is_empty() || falls(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() })) || falls(o),
            None => true,
        },
        Expr::Match(m) => m.arms.is_empty() || m.arms.iter().any(|a| falls(&a.body)),
        _ => true,
    }
}
fn bound_pat(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}
/// the names a condition with `let` binds
fn bound_in(e: &Expr) -> Vec<String> {
    match e {
        Expr::Let(l) => bound_pat(&l.pat),
        Expr::Binary(b) => bound_in(&b.left).into_iter().chain(bound_in(&b.right)).collect(),
        Expr::Paren(p) => bound_in(&p.expr),
        _ => vec![],
    }
}
/// does `k`, after `pat` is bound, mention one of the names
fn captured(names: &[String], pat: &proc_macro2::TokenStream, k: &Expr) -> bool {
    fn ids(t: proc_macro2::TokenStream, v: &mut Vec<String>) {
        for t in t {
            match t {
                proc_macro2::TokenTree::Ident(i) => v.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => ids(g.stream(), v),
                _ => {}
            }
        }
    }
    let (mut p, mut u) = (vec![], vec![]);
    ids(pat.clone(), &mut p);
    ids(quote!(#k), &mut u);
    names.iter().any(|n| !p.contains(n) && u.contains(n))
}
fn ends_in_return(e: &Expr) -> bool {
    matches!(e, Expr::Return(_))
}

struct Hoist<'a> {
    e: &'a mut E,
    pre: Vec<(Ident, Expr)>,
    err: Option<String>,
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Paren(r) => simple(&r.expr),
        Expr::Unary(r) => simple(&r.expr),
        _ => false,
    }
}
fn hoist_list(v: Vec<&mut Expr>, h: &mut Hoist) {
    let last = v.iter().rposition(|e| has_return(e));
    if let Some(l) = last {
        for (i, e) in v.into_iter().enumerate() {
            if i > l {
                break;
            }
            if simple(e) {
                continue;
            }
            let t = h.e.tmp();
            let old = std::mem::replace(e, parse_quote!(#t));
            h.pre.push((t, old));
        }
    }
}
fn hoist_children(e: &mut Expr, h: &mut Hoist) {
    match e {
        Expr::Call(c) => hoist_list(c.args.iter_mut().collect(), h),
        Expr::MethodCall(m) => {
            let mut v = vec![&mut *m.receiver];
            v.extend(m.args.iter_mut());
            hoist_list(v, h)
        }
        Expr::Binary(b) => {
            if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && has_return(&b.right) {
                h.err = Some("return in the right operand of && or ||".into());
                return;
            }
            hoist_list(vec![&mut *b.left, &mut *b.right], h)
        }
        Expr::Unary(u) => hoist_list(vec![&mut *u.expr], h),
        Expr::Reference(u) => hoist_list(vec![&mut *u.expr], h),
        Expr::Cast(u) => hoist_list(vec![&mut *u.expr], h),
        Expr::Field(u) => hoist_list(vec![&mut *u.base], h),
        Expr::Index(u) => hoist_list(vec![&mut *u.expr, &mut *u.index], h),
        Expr::Assign(u) => hoist_list(vec![&mut *u.right], h),
        Expr::Tuple(t) => hoist_list(t.elems.iter_mut().collect(), h),
        Expr::Array(t) => hoist_list(t.elems.iter_mut().collect(), h),
        Expr::Struct(s) => hoist_list(s.fields.iter_mut().map(|f| &mut f.expr).collect(), h),
        Expr::Macro(_) => h.err = Some("return inside a macro".into()),
        _ => h.err = Some("return inside an unsupported expression".into()),
    }
}
#[allow(dead_code)]
fn unused(b: &Block) -> bool {
    block_has(b)
}

/// The verifier loses track of a mutable borrow that only some arms of a match with guards use: the other
/// arms borrow it too, to no effect.
pub fn touch(b: &mut Block, muts: &[String]) {
    use syn::visit_mut::VisitMut;
    struct V<'a>(&'a [String]);
    fn mentions(e: &Expr, n: &str) -> bool {
        struct M<'a>(&'a str, bool);
        impl<'a, 'b> syn::visit::Visit<'b> for M<'a> {
            fn visit_path(&mut self, p: &'b Path) {
                if p.is_ident(self.0) { self.1 = true; }
                syn::visit::visit_path(self, p);
            }
        }
        let mut m = M(n, false);
        syn::visit::Visit::visit_expr(&mut m, e);
        m.1
    }
    impl VisitMut for V<'_> {
        fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
            syn::visit_mut::visit_expr_match_mut(self, m);
            if m.arms.iter().all(|a| a.guard.is_none()) {
                return;
            }
            for n in self.0 {
                let used: Vec<bool> = m.arms.iter().map(|a| mentions(&a.body, n)).collect();
                if used.iter().any(|u| *u) && !used.iter().all(|u| *u) {
                    let id = Ident::new(n, proc_macro2::Span::call_site());
                    for (a, u) in m.arms.iter_mut().zip(used) {
                        if !u {
                            let e = a.body.clone();
                            *a.body = parse_quote!({ crate::ext::touch(#id); #e });
                        }
                    }
                }
            }
        }
    }
    V(muts).visit_block_mut(b);
}
