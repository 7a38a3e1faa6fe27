//! Syntactic normalisation of the bodies before translation: the types Rust infers from an annotation are
//! written where the translation looks for them, and `&p` patterns become explicit dereferences.
use crate::db::Db;
use quote::quote;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn run(db: &mut Db) {
    for f in db.fns.values_mut() {
        body(&mut f.block, &f.sig.output);
    }
    for f in db.froms.iter_mut() {
        let out: ReturnType = f.f.sig.output.clone();
        body(&mut f.f.block, &out);
    }
}

fn body(b: &mut Block, out: &ReturnType) {
    let mut n = 0;
    Ends.visit_block_mut(b);
    end_block(b);
    Iters.visit_block_mut(b);
    Awaits.visit_block_mut(b);
    Deref { n: &mut n }.visit_block_mut(b);
    Lets.visit_block_mut(b);
    Lists.visit_block_mut(b);
    if let ReturnType::Type(_, t) = out {
        hint_block(b, t);
        Rets(t).visit_block_mut(b);
    }
}

// ---------------------------------------------------------------- types
fn arg(t: &Type, head: &str, i: usize) -> Option<Type> {
    let Type::Path(p) = t else { return None };
    let s = p.path.segments.last()?;
    if s.ident != head {
        return None;
    }
    let PathArguments::AngleBracketed(a) = &s.arguments else { return None };
    a.args.iter().filter_map(|x| match x { GenericArgument::Type(t) => Some(t.clone()), _ => None }).nth(i)
}
fn usable(t: &Type) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_type_impl_trait(&mut self, _: &'a TypeImplTrait) { self.0 = false; }
        fn visit_type_trait_object(&mut self, _: &'a TypeTraitObject) { self.0 = false; }
        fn visit_type_infer(&mut self, _: &'a TypeInfer) { self.0 = false; }
    }
    let mut v = V(true);
    visit::Visit::visit_type(&mut v, t);
    v.0
}
fn hint_block(b: &mut Block, t: &Type) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        hint(e, t);
    }
}
/// `e` is a value of type `t`
fn hint(e: &mut Expr, t: &Type) {
    match e {
        Expr::Paren(p) => hint(&mut p.expr, t),
        Expr::Group(p) => hint(&mut p.expr, t),
        Expr::Block(b) => hint_block(&mut b.block, t),
        Expr::If(i) => {
            hint_block(&mut i.then_branch, t);
            if let Some((_, x)) = &mut i.else_branch {
                hint(x, t);
            }
        }
        Expr::Match(m) => {
            for a in &mut m.arms {
                hint(&mut a.body, t);
            }
        }
        Expr::MethodCall(m) if m.turbofish.is_none() && m.args.is_empty() && (m.method == "collect" || m.method == "sum") && usable(t) => {
            m.turbofish = Some(parse_quote!(::<#t>));
        }
        Expr::Try(x) => {
            let mut y = &mut *x.expr;
            while let Expr::Paren(p) = y {
                y = &mut p.expr;
            }
            match y {
                Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_none() && m.args.is_empty() && usable(t) => {
                    m.turbofish = Some(parse_quote!(::<Result<#t, _>>));
                }
                Expr::Call(_) => deser(y, t),
                _ => {}
            }
        }
        Expr::Call(c) => {
            if let (Expr::Path(p), 1) = (&*c.func, c.args.len()) {
                let t = match p.path.get_ident().map(|i| i.to_string()).as_deref() {
                    Some("Ok") => arg(t, "Result", 0),
                    Some("Some") => arg(t, "Option", 0),
                    _ => None,
                };
                if let Some(t) = t {
                    hint(&mut c.args[0], &t);
                }
            }
        }
        _ => {}
    }
}
/// `Deserialize::deserialize(d)` and `Option::deserialize(d)` where a `t` is read
fn deser(e: &mut Expr, t: &Type) {
    let Expr::Call(c) = e else { return };
    let Expr::Path(p) = &*c.func else { return };
    let segs: Vec<&PathSegment> = p.path.segments.iter().collect();
    if p.qself.is_some() || segs.len() < 2 || segs.last().unwrap().ident != "deserialize" || !usable(t) {
        return;
    }
    let h = segs[segs.len() - 2];
    let bare = matches!(h.arguments, PathArguments::None);
    if bare && (h.ident == "Deserialize" || h.ident == "Option" && arg(t, "Option", 0).is_some() || h.ident == "Vec" && arg(t, "Vec", 0).is_some()) {
        *c.func = parse_quote!(<#t>::deserialize);
    }
}
struct Lets;
impl VisitMut for Lets {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Type(p), Some(i)) = (&l.pat, &mut l.init) {
            hint(&mut i.expr, &p.ty);
        }
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        if let ReturnType::Type(_, t) = &c.output {
            hint(&mut c.body, t);
            Rets(t).visit_expr_mut(&mut c.body);
        }
    }
}
struct Rets<'a>(&'a Type);
impl VisitMut for Rets<'_> {
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        visit_mut::visit_expr_return_mut(self, r);
        if let Some(e) = &mut r.expr {
            hint(e, self.0);
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_async_mut(&mut self, _: &mut ExprAsync) {}
}

// ---------------------------------------------------------------- `&p`
struct Deref<'a> {
    n: &'a mut usize,
}
struct Refs<'a> {
    n: &'a mut usize,
    lets: Vec<Stmt>,
}
fn irrefutable(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.subpat.is_none() && i.by_ref.is_none() && i.ident.to_string().chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false),
        Pat::Wild(_) | Pat::Rest(_) => true,
        Pat::Tuple(t) => t.elems.iter().all(irrefutable),
        Pat::Paren(x) => irrefutable(&x.pat),
        Pat::Reference(r) => irrefutable(&r.pat),
        Pat::Struct(s) => s.path.segments.len() == 1 && s.fields.iter().all(|f| irrefutable(&f.pat)),
        _ => false,
    }
}
impl VisitMut for Refs<'_> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() && irrefutable(&r.pat) && !matches!(&*r.pat, Pat::Wild(_)) {
                *self.n += 1;
                let x = Ident::new(&format!("refd_{}", self.n), proc_macro2::Span::call_site());
                let q = (*r.pat).clone();
                *p = parse_quote!(#x);
                let mut st: Local = match parse_quote!(let a = *#x;) { Stmt::Local(l) => l, _ => return };
                let mut q = q;
                let i = self.lets.len();
                self.visit_pat_mut(&mut q);
                st.pat = q;
                self.lets.insert(i, Stmt::Local(st));
                return;
            }
        }
        if !matches!(p, Pat::Or(_)) {
            visit_mut::visit_pat_mut(self, p);
        }
    }
}
impl Deref<'_> {
    fn take(&mut self, p: &mut Pat) -> Vec<Stmt> {
        let mut r = Refs { n: self.n, lets: vec![] };
        r.visit_pat_mut(p);
        r.lets
    }
}
fn prefix(ls: Vec<Stmt>, e: &mut Expr) {
    if !ls.is_empty() {
        let b = e.clone();
        *e = parse_quote!({ #(#ls)* #b });
    }
}
impl VisitMut for Deref<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::ForLoop(f) => {
                let ls = self.take(&mut f.pat);
                f.body.stmts.splice(0..0, ls);
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    if a.guard.is_none() {
                        let ls = self.take(&mut a.pat);
                        prefix(ls, &mut a.body);
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let ls = self.take(&mut l.pat);
                    i.then_branch.stmts.splice(0..0, ls);
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &mut *w.cond {
                    let ls = self.take(&mut l.pat);
                    w.body.stmts.splice(0..0, ls);
                }
            }
            Expr::Closure(c) => {
                let mut ls = vec![];
                for p in &mut c.inputs {
                    ls.extend(self.take(p));
                }
                prefix(ls, &mut c.body);
            }
            _ => {}
        }
        let _ = quote!();
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Reference(r), Some(i)) = (&l.pat, &mut l.init) {
            if irrefutable(&r.pat) {
                let e = i.expr.clone();
                *i.expr = parse_quote!(*(#e));
                let q = (*r.pat).clone();
                l.pat = q;
            }
        }
    }
}

// ---------------------------------------------------------------- `return` where the body ends anyway
fn end_block(b: &mut Block) {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(Expr::Return(r), semi)) => match r.expr.take() {
            Some(e) => {
                let mut e = *e;
                end(&mut e);
                *b.stmts.last_mut().unwrap() = Stmt::Expr(e, None);
            }
            None => {
                let _ = semi;
                b.stmts.pop();
            }
        },
        Some(Stmt::Expr(e, None)) => end(e),
        _ => {}
    }
}
fn end(e: &mut Expr) {
    match e {
        Expr::Return(r) => if let Some(x) = r.expr.take() {
            *e = *x;
            end(e);
        } else {
            *e = parse_quote!(());
        },
        Expr::Paren(p) => end(&mut p.expr),
        Expr::Block(b) if b.label.is_none() => end_block(&mut b.block),
        Expr::If(i) => if let Some((_, o)) = &mut i.else_branch {
            end_block(&mut i.then_branch);
            end(o);
        },
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| end(&mut a.body)),
        _ => {}
    }
}
struct Ends;
impl VisitMut for Ends {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
        end(&mut c.body);
    }
}

// ---------------------------------------------------------------- futures with a name
/// `let f = call(..); .. f.await ..` with the await evaluated first in the next statement is `call(..).await`,
/// `{ ..; call(..) }.await` is `{ ..; call(..).await }`
struct Awaits;
fn first_await(e: &mut Expr) -> Option<&mut Expr> {
    match e {
        Expr::Await(a) => {
            if matches!(&*a.base, Expr::Path(p) if p.path.get_ident().is_some()) { Some(&mut a.base) } else { first_await(&mut a.base) }
        }
        Expr::MethodCall(m) => first_await(&mut m.receiver),
        Expr::Try(t) => first_await(&mut t.expr),
        Expr::Paren(t) => first_await(&mut t.expr),
        Expr::Match(t) => first_await(&mut t.expr),
        Expr::Let(t) => first_await(&mut t.expr),
        Expr::If(t) => first_await(&mut t.cond),
        Expr::Field(t) => first_await(&mut t.base),
        Expr::Return(t) => first_await(t.expr.as_mut()?),
        Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(_)) => first_await(&mut c.args[0]),
        _ => None,
    }
}
impl VisitMut for Awaits {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Await(a) = e {
            let mut b = &*a.base;
            while let Expr::Paren(p) = b { b = &p.expr; }
            if let Expr::Block(x) = b {
                if let (true, Some(Stmt::Expr(_, None))) = (x.label.is_none(), x.block.stmts.last()) {
                    let mut n = x.clone();
                    if let Some(Stmt::Expr(t, _)) = n.block.stmts.last_mut() {
                        let c = t.clone();
                        *t = parse_quote!(#c.await);
                    }
                    *e = Expr::Block(n);
                    self.visit_expr_mut(e);
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let found = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let Pat::Ident(p) = &l.pat else { return None };
                let init = l.init.as_ref()?;
                if init.diverge.is_some() || p.by_ref.is_some() || p.subpat.is_some() || !matches!(&*init.expr, Expr::Call(_) | Expr::MethodCall(_)) { return None }
                let x = p.ident.to_string();
                let n = |s: &Stmt| { let mut v = Uses { x: &x, names: &[], n: 0, bad: false, deep: 0 }; visit::Visit::visit_stmt(&mut v, s); if v.bad { 9 } else { v.n } };
                let ie = |e: &Expr| { let s: Stmt = Stmt::Expr(e.clone(), None); n(&s) };
                let again = match &b.stmts[i + 1] { Stmt::Local(Local { pat: Pat::Ident(q), init: Some(j), .. }) if q.ident == x && j.diverge.is_none() => Some(ie(&j.expr)), _ => None };
                match again {
                    Some(k) => if k != 1 { return None },
                    None => if b.stmts[i + 1..].iter().map(n).sum::<usize>() != 1 || n(&b.stmts[i + 1]) != 1 { return None }
                }
                let mut s = b.stmts[i + 1].clone();
                let at = match &mut s {
                    Stmt::Local(l) => first_await(&mut l.init.as_mut()?.expr)?,
                    Stmt::Expr(e, _) => first_await(e)?,
                    _ => return None,
                };
                if !matches!(at, Expr::Path(q) if q.path.is_ident(&x)) { return None }
                *at = (*init.expr).clone();
                Some(s)
            })();
            if let Some(s) = found {
                b.stmts[i + 1] = s;
                b.stmts.remove(i);
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------- iterators that are stepped by hand
/// `let mut it = e; while let Some(p) = it.next() { .. }` is `for p in e { .. }` when `it` is used nowhere else
struct Iters;
fn some_pat(p: &Pat) -> Option<&Pat> {
    match p {
        Pat::TupleStruct(t) if t.elems.len() == 1 && t.path.segments.last()?.ident == "Some" && irrefutable(&t.elems[0]) => Some(&t.elems[0]),
        Pat::Paren(p) => some_pat(&p.pat),
        _ => None,
    }
}
/// `it` when the expression is `it.next()`
fn next_of(e: &Expr) -> Option<String> {
    match e {
        Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => match &*m.receiver {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            _ => None,
        },
        Expr::Paren(p) => next_of(&p.expr),
        _ => None,
    }
}
fn only_break(e: &Expr) -> bool {
    match e {
        Expr::Break(b) => b.expr.is_none() && b.label.is_none(),
        Expr::Block(b) if b.label.is_none() => only_break_block(&b.block),
        _ => false,
    }
}
fn only_break_block(b: &Block) -> bool {
    matches!(&b.stmts[..], [Stmt::Expr(e, _)] if only_break(e))
}
/// (iterator, pattern, body) of a loop that takes one element per round and ends with the iterator
fn stepped(e: &Expr) -> Option<(String, Pat, Block)> {
    match e {
        Expr::While(w) if w.label.is_none() => {
            let Expr::Let(l) = &*w.cond else { return None };
            Some((next_of(&l.expr)?, some_pat(&l.pat)?.clone(), w.body.clone()))
        }
        Expr::Loop(l) if l.label.is_none() => match &l.body.stmts[..] {
            [Stmt::Expr(Expr::Match(m), _)] if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
                let i = next_of(&m.expr)?;
                let k = if some_pat(&m.arms[0].pat).is_some() { 0 } else { 1 };
                let (a, o) = (&m.arms[k], &m.arms[1 - k]);
                let none = match &o.pat {
                    Pat::Ident(n) => n.ident == "None",
                    Pat::Wild(_) => k == 0,
                    Pat::Path(p) => p.path.segments.last()?.ident == "None",
                    _ => false,
                };
                if !none || !only_break(&o.body) { return None }
                let b = &a.body;
                Some((i, some_pat(&a.pat)?.clone(), match &**b { Expr::Block(b) if b.label.is_none() => b.block.clone(), e => parse_quote!({ #e; }) }))
            }
            [Stmt::Expr(Expr::If(f), _)] => {
                let Expr::Let(l) = &*f.cond else { return None };
                if !only_break(&f.else_branch.as_ref()?.1) { return None }
                Some((next_of(&l.expr)?, some_pat(&l.pat)?.clone(), f.then_branch.clone()))
            }
            [Stmt::Local(l), rest @ ..] => {
                let init = l.init.as_ref()?;
                let (i, p) = match (&init.diverge, &*init.expr) {
                    (Some((_, d)), x) if only_break(d) => (next_of(x)?, some_pat(&l.pat)?.clone()),
                    (None, Expr::Match(m)) if m.arms.len() == 2 && irrefutable(&l.pat) && m.arms.iter().all(|a| a.guard.is_none()) => {
                        let k = if some_pat(&m.arms[0].pat).is_some() { 0 } else { 1 };
                        let (a, o) = (&m.arms[k], &m.arms[1 - k]);
                        let same = match (some_pat(&a.pat)?, &*a.body) { (Pat::Ident(x), Expr::Path(y)) => y.path.is_ident(&x.ident), _ => false };
                        let none = matches!(&o.pat, Pat::Ident(n) if n.ident == "None") || k == 0 && matches!(&o.pat, Pat::Wild(_));
                        if !same || !none || !only_break(&o.body) { return None }
                        (next_of(&m.expr)?, l.pat.clone())
                    }
                    _ => return None,
                };
                let b: Block = parse_quote!({ #(#rest)* });
                Some((i, p, b))
            }
            _ => None,
        },
        _ => None,
    }
}
impl VisitMut for Iters {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let found = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let Pat::Ident(p) = &l.pat else { return None };
                let init = l.init.as_ref()?;
                if init.diverge.is_some() || p.by_ref.is_some() || p.subpat.is_some() || p.mutability.is_none() { return None }
                let x = p.ident.to_string();
                let src_names = names(&init.expr);
                let uses = |s: &Stmt| { let mut v = Uses { x: &x, names: &[], n: 0, bad: false, deep: 0 }; visit::Visit::visit_stmt(&mut v, s); v.n > 0 || v.bad };
                let at: Vec<usize> = (i + 1..b.stmts.len()).filter(|k| uses(&b.stmts[*k])).collect();
                let [j] = at[..] else { return None };
                // nothing between the two can change what the iterator is made from
                for s in &b.stmts[i + 1..j] {
                    let Stmt::Local(l) = s else { return None };
                    let init = l.init.as_ref()?;
                    let Pat::Ident(q) = &l.pat else { return None };
                    if init.diverge.is_some() || src_names.contains(&q.ident.to_string()) { return None }
                    let fresh = match &*init.expr {
                        Expr::Lit(_) | Expr::Path(_) => true,
                        Expr::Call(c) => c.args.is_empty(),
                        Expr::Macro(m) => m.mac.path.is_ident("vec") && m.mac.tokens.is_empty(),
                        _ => false,
                    };
                    if !fresh { return None }
                }
                let Stmt::Expr(e, _) = &b.stmts[j] else { return None };
                let (n, p, body) = stepped(e)?;
                let mut u = Uses { x: &x, names: &[], n: 0, bad: false, deep: 0 };
                visit::Visit::visit_block(&mut u, &body);
                visit::Visit::visit_pat(&mut u, &p);
                if n != x || u.n > 0 || u.bad { return None }
                let src = &init.expr;
                Some((j, parse_quote!(for #p in #src #body)))
            })();
            if let Some((j, e)) = found {
                b.stmts[j] = Stmt::Expr(e, None);
                b.stmts.remove(i);
                continue;
            }
            i += 1;
        }
    }
}

// ---------------------------------------------------------------- lists that are written out
/// `let list = [a, b];` and `let it = [a, b].into_iter()..;` are written where the list or the iterator is used
struct Lists;
fn plain(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => plain(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && plain(&r.expr),
        Expr::Paren(p) => plain(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(plain),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.iter().all(plain),
        _ => false,
    }
}
fn list(e: &Expr) -> bool {
    matches!(e, Expr::Array(a) if a.elems.iter().all(plain))
}
fn lazy(e: &Expr) -> bool {
    const LAZY: [&str; 13] = ["iter", "into_iter", "chain", "flatten", "map", "filter", "filter_map", "copied", "cloned", "enumerate", "inspect", "take_while", "map_while"];
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            LAZY.contains(&n.as_str()) && (list(&m.receiver) || lazy(&m.receiver)) && m.args.iter().all(|a| matches!(a, Expr::Closure(_)) || plain(a) || list(a) || lazy(a))
        }
        _ => false,
    }
}
/// the names an expression mentions
fn names(e: &Expr) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_path(&mut self, p: &'a Path) {
            if let Some(i) = p.get_ident() { self.0.push(i.to_string()); }
            visit::visit_path(self, p);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}
struct Uses<'a> {
    x: &'a str,
    names: &'a [String],
    n: usize,
    bad: bool,
    deep: usize,
}
impl<'a> visit::Visit<'a> for Uses<'_> {
    fn visit_path(&mut self, p: &'a Path) {
        if p.is_ident(self.x) {
            self.n += 1;
            if self.deep > 0 { self.n += 1; }
        }
        visit::visit_path(self, p);
    }
    fn visit_pat_ident(&mut self, i: &'a PatIdent) {
        let s = i.ident.to_string();
        if s == self.x || self.names.contains(&s) { self.bad = true; }
        visit::visit_pat_ident(self, i);
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        if names(&a.left).iter().any(|s| s == self.x || self.names.contains(s)) { self.bad = true; }
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_)) && names(&b.left).iter().any(|s| self.names.contains(s)) { self.bad = true; }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a ExprReference) {
        if r.mutability.is_some() && names(&r.expr).iter().any(|s| s == self.x || self.names.contains(s)) { self.bad = true; }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_index(&mut self, r: &'a ExprIndex) {
        if names(&r.expr).iter().any(|s| s == self.x) { self.bad = true; }
        visit::visit_expr_index(self, r);
    }
    fn visit_expr_loop(&mut self, e: &'a ExprLoop) { self.deep += 1; visit::visit_expr_loop(self, e); self.deep -= 1; }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) { self.deep += 1; visit::visit_expr_while(self, e); self.deep -= 1; }
    fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) { self.visit_expr(&e.expr); self.deep += 1; self.visit_block(&e.body); self.visit_pat(&e.pat); self.deep -= 1; }
    fn visit_expr_closure(&mut self, e: &'a ExprClosure) { self.deep += 1; visit::visit_expr_closure(self, e); self.deep -= 1; }
    fn visit_macro(&mut self, m: &'a Macro) {
        fn within(t: proc_macro2::TokenStream, x: &str) -> bool {
            t.into_iter().any(|t| match t {
                proc_macro2::TokenTree::Ident(i) => i == x,
                proc_macro2::TokenTree::Group(g) => within(g.stream(), x),
                proc_macro2::TokenTree::Literal(l) => l.to_string().contains(&format!("{{{x}")),
                _ => false,
            })
        }
        if within(m.tokens.clone(), self.x) { self.bad = true; }
    }
}
struct Put<'a>(&'a str, &'a Expr);
impl VisitMut for Put<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.0)) {
            *e = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl VisitMut for Lists {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let found = (|| {
                let Stmt::Local(l) = &b.stmts[i] else { return None };
                let Pat::Ident(p) = &l.pat else { return None };
                let init = l.init.as_ref()?;
                if init.diverge.is_some() || p.by_ref.is_some() || p.subpat.is_some() { return None }
                let (arr, it) = (list(&init.expr) && p.mutability.is_none(), lazy(&init.expr));
                if !arr && !it { return None }
                let (x, ns) = (p.ident.to_string(), names(&init.expr));
                let mut u = Uses { x: &x, names: &ns, n: 0, bad: false, deep: 0 };
                // what follows the last use does not matter
                let rest = &b.stmts[i + 1..];
                let uses = |s: &Stmt| { let mut v = Uses { x: &x, names: &[], n: 0, bad: false, deep: 0 }; visit::Visit::visit_stmt(&mut v, s); v.n > 0 || v.bad };
                let last = rest.iter().rposition(uses).map(|k| k + 1).unwrap_or(0);
                for s in &rest[..last] { visit::Visit::visit_stmt(&mut u, s); }
                if u.bad || it && u.n != 1 { return None }
                Some((x.clone(), (*init.expr).clone()))
            })();
            if let Some((x, e)) = found {
                b.stmts.remove(i);
                for s in &mut b.stmts[i..] { Put(&x, &e).visit_stmt_mut(s); }
                continue;
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b);
    }
}
