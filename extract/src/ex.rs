//! Expressions.
use crate::contracts::*;
use crate::db::*;
use crate::elim;
use crate::tr::*;
use crate::ty::{Ty, INTS};
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::*;

type TE = (Expr, Ty);
fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(s.into())
}
fn show<T: ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    if s.len() > 140 { format!("{}…", s.chars().take(140).collect::<String>()) } else { s }
}
fn strty() -> Ty {
    Ty::Adt("crate::ext::Str".into(), vec![])
}
fn boolty() -> Ty {
    Ty::Adt("bool".into(), vec![])
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn is_int_lit(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(ExprLit { lit: Lit::Int(_) | Lit::Byte(_), .. }) => true,
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => is_int_lit(expr),
        _ => false,
    }
}
/// the state expression after removing references
fn autoref(e: Expr) -> Expr {
    match e {
        Expr::Reference(r) => {
            let i = strip(&r.expr).clone();
            parse_quote!(&#i)
        }
        e => e,
    }
}

impl<'a> Gen<'a> {
    pub fn pre_e(&mut self, te: TE) -> Expr {
        // smuggle an already lowered expression through `ex`
        let n = self.pre.len();
        self.pre.push(te);
        let i = ident(&format!("__pre_{n}"));
        parse_quote!(#i)
    }
    pub fn fresh(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        ident(&format!("{p}__{}", self.fresh))
    }

    pub fn ex(&mut self, e: &Expr) -> R<TE> {
        Ok(match e {
            Expr::Lit(l) => match &l.lit {
                Lit::Str(s) => (self.lit(&s.value()), strty()),
                Lit::Int(i) => (e.clone(), Ty::Int(if i.suffix().is_empty() { "int".into() } else { i.suffix().into() })),
                Lit::Bool(_) => (e.clone(), boolty()),
                Lit::Byte(b) => {
                    let v = b.value();
                    (parse_quote!(#v), Ty::Int("u8".into()))
                }
                Lit::ByteStr(b) => {
                    let n = self.blits.len() as u64 + 1;
                    let id = *self.blits.entry(b.value()).or_insert(n);
                    (parse_quote!(crate::ext::bstr(#id)), Ty::Ref(Box::new(Ty::Arr(Box::new(Ty::Int("u8".into()))))))
                }
                _ => return err(format!("literal {}", show(e))),
            },
            Expr::Paren(p) => {
                let (x, t) = self.ex(&p.expr)?;
                (parse_quote!((#x)), t)
            }
            Expr::Group(p) => self.ex(&p.expr)?,
            Expr::Path(p) => self.ex_path(p)?,
            Expr::Reference(r) => {
                // &elems[0][..]
                if let Expr::Index(ix) = strip(&r.expr) {
                    if let Expr::Range(rg) = strip(&ix.index) {
                        if rg.start.is_none() && rg.end.is_none() {
                            let (b, _) = self.ex(&ix.expr)?;
                            return Ok((parse_quote!((#b).as_slice()), Ty::Ref(Box::new(Ty::Arr(Box::new(Ty::Int("u8".into())))))));
                        }
                    }
                }
                let (x, t) = self.ex(&r.expr)?;
                if is_state(&t) && self.st_expr(&x) {
                    return Ok((strip_ref(x), t));
                }
                if t.adt() == Some("crate::ext::Str") && !t.is_ref() && !matches!(strip(&r.expr), Expr::Path(_)) {
                    return Ok((x, t));
                }
                let m = &r.mutability;
                (parse_quote!(& #m #x), Ty::Ref(Box::new(t)))
            }
            Expr::Unary(u) => {
                let (x, t) = self.ex(&u.expr)?;
                let op = &u.op;
                match u.op {
                    UnOp::Deref(_) => {
                        if is_state(&t) && self.st_expr(&x) {
                            return Ok((x, t));
                        }
                        let it = match &t {
                            Ty::Ref(i) => (**i).clone(),
                            Ty::Adt(n, a) if n == "Box" => a.first().cloned().unwrap_or(Ty::Unk),
                            x => x.clone(),
                        };
                        (parse_quote!(*#x), it)
                    }
                    _ => (parse_quote!(#op #x), t),
                }
            }
            Expr::Field(f) => {
                let (b, t) = self.ex(&f.base)?;
                let n = member(&f.member);
                let ft = self.field_ty(&t, &n);
                if n == "0" && ft == Ty::Unk {
                    if let Some(k) = t.adt().and_then(|a| a.strip_prefix("crate::")) {
                        if let Some((_, s)) = self.db.structs.get(k) {
                            if matches!(s.fields, Fields::Named(_)) {
                                return Ok((b, t)); // Cbor(x).0
                            }
                        }
                    }
                }
                let m = &f.member;
                (parse_quote!(#b.#m), ft)
            }
            Expr::Index(ix) => {
                let (b, t) = self.ex(&ix.expr)?;
                let (i, _) = self.ex(&ix.index)?;
                let et = match t.peel() {
                    Ty::Arr(x) => (**x).clone(),
                    Ty::Adt(n, a) if n == "Vec" => a.first().cloned().unwrap_or(Ty::Unk),
                    _ => Ty::Unk,
                };
                (parse_quote!(#b[#i]), et)
            }
            Expr::Tuple(t) => {
                let mut v = vec![];
                let mut ts = vec![];
                for x in &t.elems {
                    let (a, b) = self.ex(x)?;
                    v.push(a);
                    ts.push(b);
                }
                if v.len() == 1 { (parse_quote!((#(#v),* ,)), Ty::Tup(ts)) } else { (parse_quote!((#(#v),*)), Ty::Tup(ts)) }
            }
            Expr::Array(a) => {
                let mut v = vec![];
                let mut t = Ty::Unk;
                for x in &a.elems {
                    let (x, tt) = self.ex(x)?;
                    v.push(x);
                    t = Ty::join(t, tt);
                }
                (parse_quote!([#(#v),*]), Ty::Arr(Box::new(t)))
            }
            Expr::Repeat(r) => {
                let (x, t) = match self.const_eval(&r.expr) {
                    Some(v) => {
                        let l = proc_macro2::Literal::u128_unsuffixed(v);
                        (parse_quote!(#l), Ty::Int("u8".into()))
                    }
                    None => self.ex(&r.expr)?,
                };
                let zero = self.const_eval(&r.expr) == Some(0);
                let n = self.const_eval(&r.len).ok_or_else(|| format!("array length {}", show(&r.len)))?;
                if zero && n == 32 {
                    return Ok((parse_quote!(crate::ext::zeros32()), Ty::Arr(Box::new(t))));
                }
                let n = proc_macro2::Literal::u128_unsuffixed(n);
                (parse_quote!([#x; #n]), Ty::Arr(Box::new(t)))
            }
            Expr::Cast(c) => {
                let ty = self.ty(&c.ty)?;
                let tt = self.ty_tokens(&c.ty)?;
                let (x, _) = self.ex(&c.expr)?;
                (parse_quote!((#x as #tt)), ty)
            }
            Expr::Binary(b) => self.ex_binary(b)?,
            Expr::Assign(a) => {
                let (r, _) = self.ex(&a.right)?;
                if let Expr::Infer(_) = &*a.left {
                    return Ok((Expr::Block(parse_quote!({ let _ = #r; })), Ty::unit()));
                }
                let (l, _) = self.ex(&a.left)?;
                (parse_quote!(#l = #r), Ty::unit())
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return err("labelled block");
                }
                let (x, t) = self.block(&b.block)?;
                (Expr::Block(ExprBlock { attrs: vec![], label: None, block: x }), t)
            }
            Expr::If(i) => {
                self.push();
                let r = (|| {
                    let cond = match strip(&i.cond) {
                        Expr::Let(l) => {
                            let (s, t) = self.ex(&l.expr)?;
                            let p = self.pat(&l.pat, &t)?;
                            Expr::Let(ExprLet { attrs: vec![], let_token: Default::default(), pat: Box::new(p), eq_token: Default::default(), expr: Box::new(guard_struct(s)) })
                        }
                        c => guard_struct(self.ex(c)?.0),
                    };
                    let (b, t) = self.block(&i.then_branch)?;
                    Ok::<_, String>((cond, b, t))
                })();
                self.pop();
                let (cond, b, t) = r?;
                let (el, t2) = match &i.else_branch {
                    Some((_, x)) => {
                        let (x, t2) = self.ex(x)?;
                        let x = match x {
                            Expr::Block(_) | Expr::If(_) => x,
                            x => parse_quote!({ #x }),
                        };
                        (Some((Default::default(), Box::new(x))), t2)
                    }
                    None => (None, Ty::unit()),
                };
                let e = Expr::If(ExprIf { attrs: vec![], if_token: Default::default(), cond: Box::new(cond), then_branch: b, else_branch: el });
                (e, Ty::join(t, t2))
            }
            Expr::Match(m) => self.ex_match(m)?,
            Expr::Return(r) => match &r.expr {
                Some(x) => {
                    let (x, _) = self.ex(x)?;
                    (parse_quote!(return #x), Ty::Never)
                }
                None => (parse_quote!(return), Ty::Never),
            },
            Expr::Break(b) => {
                if b.label.is_some() || b.expr.is_some() {
                    return err("break with label or value");
                }
                (e.clone(), Ty::Never)
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return err("continue with label");
                }
                (e.clone(), Ty::Never)
            }
            Expr::Loop(l) => {
                if l.label.is_some() {
                    return err("labelled loop");
                }
                let k = self.loop_no();
                let (b, _) = self.block(&l.body)?;
                let st = &b.stmts;
                (parse_quote!(loop { __vloop!(#k); #(#st)* }), Ty::unit())
            }
            Expr::While(w) => {
                if w.label.is_some() {
                    return err("labelled loop");
                }
                let k = self.loop_no();
                self.push();
                let r = (|| match strip(&w.cond) {
                    Expr::Let(l) => {
                        let (s, t) = self.ex(&l.expr)?;
                        let p = self.pat(&l.pat, &t)?;
                        let (b, _) = self.block(&w.body)?;
                        let s = guard_struct(s);
                        let is = ident(&format!("its_{k}"));
                        let snap: Option<Stmt> = match strip(&l.expr) {
                            Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => match strip(&m.receiver) {
                                Expr::Path(v) if v.path.get_ident().is_some() => { let (v, _) = self.ex(&m.receiver)?; Some(parse_quote!(let #is = crate::ext::snap(&#v);)) }
                                _ => None,
                            },
                            _ => None,
                        };
                        Ok::<Expr, String>(parse_quote!({ #snap loop { __vloop!(#k); match #s { #p => #b, _ => { break; } } } }))
                    }
                    c => {
                        let (c, _) = self.ex(c)?;
                        let snap: Vec<Stmt> = match strip(&c) {
                            Expr::Binary(ExprBinary { left, op: BinOp::Lt(_), right, .. }) => match (strip(left), strip(right)) {
                                (Expr::Path(a), Expr::Path(b)) if a.path.get_ident().is_some() && b.path.get_ident().is_some() && self.counter(strip(&w.cond)) => {
                                    let is = ident(&format!("its_{k}"));
                                    let ic = ident(&format!("itc_{k}"));
                                    vec![parse_quote!(let #is = crate::ext::CtrSeq::ctr(#a, #b);), parse_quote!(let #ic = crate::ext::CtrSeq::ctr0(#a);)]
                                }
                                _ => vec![],
                            },
                            _ => vec![],
                        };
                        let c = guard_struct(c);
                        let (b, _) = self.block(&w.body)?;
                        Ok(parse_quote!({ #(#snap)* loop { __vloop!(#k); if #c #b else { break; } } }))
                    }
                })();
                self.pop();
                (r?, Ty::unit())
            }
            Expr::ForLoop(f) => {
                if f.label.is_some() {
                    return err("labelled loop");
                }
                if let Some(e) = self.unroll(f)? {
                    return Ok((e, Ty::unit()));
                }
                let (base, stages) = chain(&f.expr);
                if !stages.is_empty() {
                    let (pat, body) = (f.pat.clone(), f.body.clone());
                    let mut k = |g: &mut Gen, _: usize, x: Expr, t: Ty| {
                        g.push();
                        let r = (|| {
                            let p = g.pat(&pat, &t)?;
                            let (b, _) = g.block(&body)?;
                            Ok::<Expr, String>(parse_quote!(match #x { #p => #b }))
                        })();
                        g.pop();
                        r
                    };
                    let (e, _) = self.each(&base, &stages, &mut k)?;
                    return Ok((e, Ty::unit()));
                }
                let (it, ity) = self.ex_iter(&f.expr)?;
                let k = self.loop_no();
                self.push();
                let r = (|| {
                    let p = self.pat(&f.pat, &ity)?;
                    let (b, _) = self.block(&f.body)?;
                    Ok::<_, String>((p, b))
                })();
                self.pop();
                let (p, b) = r?;
                let iv = ident(&format!("it_{k}"));
                let is = ident(&format!("its_{k}"));
                (
                    parse_quote!({ let mut #iv = #it; let #is = crate::ext::snap(&#iv); loop { __vloop!(#k); match crate::ext::VIter::vnext(&mut #iv) { None => { break; } Some(#p) => #b } } }),
                    Ty::unit(),
                )
            }
            Expr::Struct(s) => self.ex_struct(s)?,
            Expr::Macro(m) => self.mac_pub(&m.mac)?,
            Expr::Try(t) => {
                let (x, ty) = self.ex(&t.expr)?;
                let v = self.fresh("v");
                let x = guard_struct(x);
                if ty.is_option() {
                    (parse_quote!(match #x { Some(#v) => #v, None => return None }), ty.arg(0))
                } else {
                    (parse_quote!(match #x { Ok(#v) => #v, Err(#v) => return Err(crate::ext::cv(#v)) }), ty.arg(0))
                }
            }
            Expr::Await(a) => {
                if let Expr::Call(c) = strip(&a.base) {
                    if let Expr::Path(p) = strip(&c.func) {
                        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if let Some(k) = self.resolve(&segs).strip_prefix("crate::") {
                            if let Some(f) = self.db.fns.get(k) {
                                if f.sig.asyncness.is_some() {
                                    return self.ex(&a.base);
                                }
                            }
                        }
                    }
                }
                let (b, t) = self.ex(&a.base)?;
                let st = self.stx(2);
                let env = self.envx(2)?;
                let rt = self.ext_method_ret(&t, "vawait");
                (parse_quote!((#b).vawait(#st, #env)), rt)
            }
            Expr::Call(c) => match strip(&c.func) {
                Expr::Path(p) => {
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    self.call_path(p, &args)?
                }
                Expr::Closure(_) => {
                    let mut v = vec![];
                    for a in &c.args {
                        v.push(ApArg::E(self.ex(a)?));
                    }
                    self.apply(&c.func, v)?
                }
                f => return err(format!("call of {}", show(f))),
            },
            Expr::MethodCall(m) => self.ex_method(m)?,
            Expr::Closure(_) => return err(format!("closure value {}", show(e))),
            Expr::Range(r) => {
                let a = r.start.as_ref().ok_or("range without start")?;
                let b = r.end.as_ref().ok_or("range without end")?;
                if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
                    return err("inclusive range");
                }
                let (a, t) = self.ex(a)?;
                let (b, t2) = self.ex(b)?;
                (parse_quote!((#a..#b)), Ty::Adt("Range".into(), vec![Ty::join(t, t2)]))
            }
            Expr::Verbatim(_) => (e.clone(), Ty::Unk),
            _ => return err(format!("unsupported expression {}", show(e))),
        })
    }

    fn loop_no(&mut self) -> usize {
        self.loops += 1;
        self.loops
    }

    fn ex_path(&mut self, p: &ExprPath) -> R<TE> {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            if let Some(n) = segs[0].strip_prefix("__pre_") {
                return Ok(self.pre[n.parse::<usize>().unwrap()].clone());
            }
            match self.look(&segs[0]) {
                Some(Bind::Var(n, t)) => {
                    let i = ident(&n);
                    return Ok((parse_quote!(#i), t));
                }
                Some(Bind::St) => return Ok((self.stx(1), Ty::Adt("crate::storage::State".into(), vec![]))),
                Some(Bind::Cell) => return err("RefCell of the state used as a value"),
                Some(Bind::Clo(..)) => return err("closure parameter used as a value"),
                None => {}
            }
            if segs[0] == "None" {
                return Ok((parse_quote!(None), Ty::option(Ty::Unk)));
            }
        }
        if segs.last().map(|s| s == "DEFAULT_SUBACCOUNT").unwrap_or(false) && self.const_item(p).is_none() {
            let t: Type = parse_quote!(&[u8; 32]);
            return Ok((parse_quote!(crate::ext::zeros32_ref()), self.ty(&t)?));
        }
        if let Some(v) = self.const_eval(&Expr::Path(p.clone())) {
            let t = match self.const_item(p) {
                Some((_, c)) => show(&c.ty),
                None => segs[segs.len() - 2].clone(),
            };
            let l: Expr = syn::parse_str(&format!("{v}{t}")).map_err(|e| e.to_string())?;
            return Ok((l, Ty::Int(t)));
        }
        if let Some(v) = self.variant_of(&segs) {
            self.note(v.rsplit_once("::").map(|x| x.0).unwrap_or(""));
            let t = v.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            return Ok((path_expr(&v), Ty::Adt(t, vec![])));
        }
        if let Some((_, c)) = self.const_item(p) {
            // inline the defining expression in the constant's module
            let fr = Frame { module: c.module.clone(), scopes: vec![HashMap::new()], ..Default::default() };
            let t = {
                let save = self.cur;
                self.frames.push(fr);
                self.cur = self.frames.len() - 1;
                let r = (|| {
                    let t = self.ty(&c.ty)?;
                    let (x, _) = self.ex(&c.expr)?;
                    Ok::<_, String>((x, t))
                })();
                self.frames.pop();
                self.cur = save;
                r?
            };
            return Ok(t);
        }
        err(format!("unresolved name {}", segs.join("::")))
    }

    fn ex_struct(&mut self, s: &ExprStruct) -> R<TE> {
        let segs: Vec<String> = s.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let (head, ty) = if let Some(v) = self.variant_of(&segs) {
            let t = v.rsplit_once("::").unwrap().0.to_string();
            self.note(&t);
            (v, Ty::Adt(t, vec![]))
        } else {
            let tt: Type = { let p = &s.path; parse_quote!(#p) };
            let t = self.ty(&tt)?;
            let a = t.adt().ok_or("struct literal")?.to_string();
            self.note(&a);
            (a, t)
        };
        let mut out = vec![];
        for f in &s.fields {
            let (x, _) = self.ex(&f.expr)?;
            let m = &f.member;
            out.push(quote!(#m : #x));
        }
        let h = path_expr(&head);
        let rest = match &s.rest {
            Some(r) => {
                let (x, _) = self.ex(r)?;
                quote!(.. #x)
            }
            None => quote!(),
        };
        let e: Expr = parse_quote!((#h { #(#out,)* #rest }));
        Ok((e, ty))
    }

    fn ex_binary(&mut self, b: &ExprBinary) -> R<TE> {
        let op = &b.op;
        // evaluate constants
        if let Some(v) = self.const_eval(&Expr::Binary(b.clone())) {
            let t = self.const_ty(&b.left).or_else(|| self.const_ty(&b.right));
            let e: Expr = match &t {
                Some(t) => syn::parse_str(&format!("{v}{t}")).unwrap(),
                None => syn::parse_str(&format!("{v}")).unwrap(),
            };
            return Ok((e, Ty::Int(t.unwrap_or("int".into()))));
        }
        let (l, lt) = self.ex(&b.left)?;
        let (r, rt) = self.ex(&b.right)?;
        let lit = is_int_lit(&l) || is_int_lit(&r);
        let ints = matches!(lt, Ty::Int(_)) && matches!(rt, Ty::Int(_));
        let bools = lt == boolty() && rt == boolty();
        Ok(match op {
            BinOp::Eq(_) | BinOp::Ne(_) => {
                let e: Expr = if lit || ints || bools { parse_quote!((#l == #r)) } else { self.note_eq(&lt); self.note_eq(&rt); let r = autoref(r); parse_quote!((#l).veq(&(#r))) };
                if matches!(op, BinOp::Ne(_)) { (parse_quote!((!(#e))), boolty()) } else { (e, boolty()) }
            }
            BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) => {
                if lit || ints {
                    (parse_quote!((#l #op #r)), boolty())
                } else {
                    let m = ident(match op { BinOp::Lt(_) => "vlt", BinOp::Le(_) => "vle", BinOp::Gt(_) => "vgt", _ => "vge" });
                    let l2: Expr = if lt.is_ref() || matches!(l, Expr::Reference(_)) { parse_quote!(#l) } else { parse_quote!((#l)) };
                    (parse_quote!(#l2.#m(&(#r))), boolty())
                }
            }
            BinOp::And(_) | BinOp::Or(_) => (parse_quote!((#l #op #r)), boolty()),
            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) => (parse_quote!(#l #op #r), Ty::unit()),
            BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_) => {
                let t = Ty::join(lt.peel().clone(), rt.peel().clone());
                (parse_quote!((#l #op #r)), t)
            }
            _ => return err(format!("operator in {}", show(b))),
        })
    }
    fn note_eq(&mut self, t: &Ty) {
        if let Ty::Adt(n, a) = t.peel() {
            if let Some(k) = n.strip_prefix("crate::") {
                if self.db.structs.contains_key(k) || self.db.enums.contains_key(k) {
                    self.veq_needed.insert(k.to_string());
                    self.needed.insert(k.to_string());
                }
            }
            for x in a.clone() {
                self.note_eq(&x);
            }
        }
        if let Ty::Tup(v) = t.peel() {
            for x in v.clone() {
                self.note_eq(&x);
            }
        }
    }
    fn const_ty(&self, e: &Expr) -> Option<String> {
        match strip(e) {
            Expr::Path(p) => self.const_item(p).map(|(_, c)| show(&c.ty)),
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if !i.suffix().is_empty() => Some(i.suffix().into()),
            Expr::Cast(c) => Some(show(&*c.ty)),
            Expr::Binary(b) => self.const_ty(&b.left).or_else(|| self.const_ty(&b.right)),
            _ => None,
        }
    }

    fn ex_match(&mut self, m: &ExprMatch) -> R<TE> {
        let (s, st) = self.ex(&m.expr)?;
        // matching on text
        let is_text = m.arms.iter().any(|a| matches!(&a.pat, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))) || matches!(&a.pat, Pat::Or(o) if o.cases.iter().any(|c| matches!(c, Pat::Lit(l) if matches!(l.lit, Lit::Str(_))))));
        if is_text {
            let v = self.fresh("s");
            let mut chain: Option<Expr> = None;
            let mut ty = Ty::Unk;
            let mut conds: Vec<(Option<Expr>, Expr)> = vec![];
            for a in &m.arms {
                if a.guard.is_some() {
                    return err("guard on a text match");
                }
                let cond = match &a.pat {
                    Pat::Lit(_) | Pat::Or(_) => {
                        let cases: Vec<&Pat> = match &a.pat { Pat::Or(o) => o.cases.iter().collect(), p => vec![p] };
                        let mut c: Vec<Expr> = vec![];
                        for p in cases {
                            match p {
                                Pat::Lit(ExprLit { lit: Lit::Str(t), .. }) => {
                                    let l = self.litx(&t.value());
                                    c.push(parse_quote!(#v.veq(&#l)));
                                }
                                _ => return err("mixed text match"),
                            }
                        }
                        Some(parse_quote!((#(#c)||*)))
                    }
                    _ => None,
                };
                self.push();
                let r = (|| {
                    let mut pre: Vec<Stmt> = vec![];
                    if let Pat::Ident(i) = &a.pat {
                        let nn = ident(&self.bind_v(&i.ident.to_string(), strty()));
                        pre.push(parse_quote!(let #nn = #v;));
                    }
                    let (b, t) = self.ex(&a.body)?;
                    Ok::<_, String>((pre, b, t))
                })();
                self.pop();
                let (pre, b, t) = r?;
                ty = Ty::join(ty, t);
                conds.push((cond, parse_quote!({ #(#pre)* #b })));
            }
            for (c, b) in conds.into_iter().rev() {
                chain = Some(match (c, chain) {
                    (None, _) => b,
                    (Some(c), Some(r)) => {
                        let r: Expr = match r { Expr::Block(_) | Expr::If(_) => r, r => parse_quote!({ #r }) };
                        parse_quote!(if #c #b else #r)
                    }
                    (Some(_), None) => return err("text match without a default arm"),
                });
            }
            let chain = chain.unwrap();
            return Ok((parse_quote!({ let #v = #s; #chain }), ty));
        }
        let s = guard_struct(s);
        let mut arms = vec![];
        let mut ty = Ty::Unk;
        for a in &m.arms {
            self.push();
            let r = (|| {
                let p = self.pat(&a.pat, &st)?;
                let g = match &a.guard {
                    Some((_, g)) => {
                        let (g, _) = self.ex(g)?;
                        quote!(if #g)
                    }
                    None => quote!(),
                };
                let (b, t) = self.ex(&a.body)?;
                Ok::<_, String>((p, g, b, t))
            })();
            self.pop();
            let (p, g, b, t) = r?;
            ty = Ty::join(ty, t);
            // `=> unit statement` bodies such as `break`
            arms.push(quote!(#p #g => { #b }));
        }
        let e: Expr = syn::parse2(quote!(match #s { #(#arms)* })).map_err(|e| format!("match: {e}"))?;
        Ok((e, ty))
    }

    /// expression in iterator position: returns (iterator expression, item type)
    fn ex_iter(&mut self, e: &Expr) -> R<TE> {
        if let Expr::MethodCall(m) = strip(e) {
            let n = m.method.to_string();
            if n == "iter" && m.args.is_empty() {
                let (r, t) = self.ex(&m.receiver)?;
                match t.peel() {
                    Ty::Adt(a, args) if a.ends_with("StableBTreeMap") => {
                        return Ok((parse_quote!(#r.iter()), Ty::Tup(vec![args.first().cloned().unwrap_or(Ty::Unk), args.get(1).cloned().unwrap_or(Ty::Unk)])));
                    }
                    Ty::Adt(a, args) if a == "Vec" => {
                        let it = args.first().cloned().unwrap_or(Ty::Unk);
                        return Ok((parse_quote!(#r.viter()), Ty::Ref(Box::new(it))));
                    }
                    Ty::Arr(it) if t.is_ref() => {
                        let it = (**it).clone();
                        return Ok((parse_quote!(crate::ext::slice_viter(#r)), Ty::Ref(Box::new(it))));
                    }
                    Ty::Adt(a, args) if a.ends_with("collections::BTreeMap") => {
                        let (k, v) = (args.first().cloned().unwrap_or(Ty::Unk), args.get(1).cloned().unwrap_or(Ty::Unk));
                        return Ok((parse_quote!(#r.viter()), Ty::Tup(vec![Ty::Ref(Box::new(k)), Ty::Ref(Box::new(v))])));
                    }
                    _ => return err(format!("iteration over {}", show(e))),
                }
            }
            if n == "into_iter" && m.args.is_empty() {
                return self.ex_iter(&m.receiver);
            }
            if n == "flatten" && m.args.is_empty() {
                // what is in the list, if there is one
                let (o, by_ref) = match strip(&m.receiver) {
                    Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => (i.receiver.clone(), true),
                    Expr::MethodCall(i) if i.method == "into_iter" && i.args.is_empty() => (i.receiver.clone(), false),
                    _ => (m.receiver.clone(), false),
                };
                let (r, t) = self.ex(&o)?;
                if let (Ty::Adt(a, args), true) = (t.peel().clone(), by_ref || t.is_ref()) {
                    if let (true, Some(Ty::Adt(b, l))) = (a == "Option", args.first()) {
                        if b == "Vec" {
                            let it = l.first().cloned().unwrap_or(Ty::Unk);
                            let r: Expr = if t.is_ref() { parse_quote!(#r) } else { parse_quote!(&#r) };
                            return Ok((parse_quote!(crate::ext::opt_viter(#r)), Ty::Ref(Box::new(it))));
                        }
                    }
                }
                return err(format!("iteration over {}", show(e)));
            }
            if n == "range" && m.args.len() == 1 {
                if let Expr::Range(rg) = strip(&m.args[0]) {
                    if let (Some(s), None) = (&rg.start, &rg.end) {
                        let (r, t) = self.ex(&m.receiver)?;
                        let (s, _) = self.ex(s)?;
                        return Ok((parse_quote!(#r.vrange_from(#s)), Ty::Tup(vec![t.arg(0), t.arg(1)])));
                    }
                }
                return err("range iteration");
            }
        }
        let (x, t) = self.ex(e)?;
        let it = match t.peel() {
            Ty::Adt(n, a) if n == "Range" => a.first().cloned().unwrap_or(Ty::Unk),
            Ty::Adt(n, a) if n.ends_with("GIter") => {
                let i = a.first().cloned().unwrap_or(Ty::Unk);
                return Ok((x, i));
            }
            Ty::Arr(i) if t.is_ref() => {
                let i = (**i).clone();
                return Ok((parse_quote!(crate::ext::slice_viter(#x)), Ty::Ref(Box::new(i))));
            }
            Ty::Adt(n, a) if n == "Vec" => {
                let i = a.first().cloned().unwrap_or(Ty::Unk);
                if t.is_ref() {
                    return Ok((parse_quote!((#x).viter()), Ty::Ref(Box::new(i))));
                }
                i
            }
            _ => return err(format!("iteration over {} : {:?}", show(e), t)),
        };
        Ok((parse_quote!(crate::ext::IntoV::into_v(#x)), it))
    }

    /// `a < b` of two 64-bit locals: a loop that counts a up to b
    fn counter(&mut self, e: &Expr) -> bool {
        let Expr::Binary(b) = e else { return false };
        match (self.ex(&b.left), self.ex(&b.right)) {
            (Ok((_, Ty::Int(x))), Ok((_, Ty::Int(y)))) => (x == "u64" || x == "usize") && x == y,
            _ => false,
        }
    }

    /// a loop over a constant array or an array literal, one copy of the body per element
    fn unroll(&mut self, f: &ExprForLoop) -> R<Option<Expr>> {
        if has_jump(&f.body) {
            return Ok(None);
        }
        let Some((pre, elems)) = self.static_src(&f.expr)? else { return Ok(None) };
        let mut out: Vec<Stmt> = vec![];
        for (x, t, opt) in elems {
            self.push();
            let r = (|| {
                let p = self.pat(&f.pat, &t)?;
                let (b, _) = self.block(&f.body)?;
                Ok::<Expr, String>(if opt { parse_quote!(match #x { Some(#p) => #b None => {} }) } else { parse_quote!(match #x { #p => #b }) })
            })();
            self.pop();
            let b = r?;
            out.push(parse_quote!({ #b; }));
        }
        Ok(Some(parse_quote!({ #(#pre)* #(#out)* })))
    }

    /// the items of an iterator over a list that is written out: each with its type, the last flag set when
    /// it is an Option that contributes an item only if it is there
    fn static_src(&mut self, e: &Expr) -> R<Option<(Vec<Stmt>, Vec<(Expr, Ty, bool)>)>> {
        fn literal(e: &Expr) -> bool {
            match strip(e) {
                Expr::Array(_) => true,
                Expr::Reference(r) => literal(&r.expr),
                Expr::Path(_) => true,
                Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "once" || s.ident == "empty").unwrap_or(false)),
                Expr::MethodCall(m) => (["iter", "into_iter", "flatten"].contains(&m.method.to_string().as_str()) && m.args.is_empty() || m.method == "chain" && m.args.len() == 1) && literal(&m.receiver),
                _ => false,
            }
        }
        if !literal(e) {
            return Ok(None);
        }
        self.static_items(e, false)
    }
    fn static_items(&mut self, e: &Expr, opt_ok: bool) -> R<Option<(Vec<Stmt>, Vec<(Expr, Ty, bool)>)>> {
        let byref = |(p, v): (Vec<Stmt>, Vec<(Expr, Ty, bool)>)| (p, v.into_iter().map(|(x, t, o)| -> (Expr, Ty, bool) { (parse_quote!(&#x), Ty::Ref(Box::new(t)), o) }).collect::<Vec<_>>());
        match strip(e) {
            Expr::Reference(r) if r.mutability.is_none() => Ok(self.static_items(&r.expr, false)?.map(byref)),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "once").unwrap_or(false) && c.args.len() == 1 => {
                    let (x, t) = self.ex(&c.args[0])?;
                    let mut pre = vec![];
                    let x = self.hold(x, &mut pre);
                    Ok(Some((pre, vec![(x, t, false)])))
                }
                Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "empty").unwrap_or(false) && c.args.is_empty() => Ok(Some((vec![], vec![]))),
                _ => Ok(None),
            },
            Expr::MethodCall(m) if m.method == "flatten" && m.args.is_empty() => {
                let Some((pre, v)) = self.static_items(&m.receiver, false)? else { return Ok(None) };
                let mut out = vec![];
                for (x, t, o) in v {
                    if o || !t.peel().is_option() {
                        return Ok(None);
                    }
                    let i = t.peel().arg(0);
                    out.push((x, if t.is_ref() { Ty::Ref(Box::new(i)) } else { i }, true));
                }
                Ok(Some((pre, out)))
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => self.static_items(&m.receiver, true),
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let inner = match strip(&m.receiver) { Expr::Reference(r) => (*r.expr).clone(), x => x.clone() };
                Ok(self.static_items(&inner, true)?.map(byref))
            }
            Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1 => {
                let Some((mut pre, mut v)) = self.static_items(&m.receiver, true)? else { return Ok(None) };
                let Some((p2, v2)) = self.static_items(&m.args[0], true)? else { return Ok(None) };
                pre.extend(p2);
                v.extend(v2);
                Ok(Some((pre, v)))
            }
            Expr::Array(a) => {
                let (mut pre, mut out) = (vec![], vec![]);
                for x in &a.elems {
                    let (x, t) = self.ex(x)?;
                    let x = self.hold(x, &mut pre);
                    out.push((x, t, false));
                }
                Ok(Some((pre, out)))
            }
            Expr::Path(_) => {
                if let Some(v) = self.const_array(e)? {
                    return Ok(Some((vec![], v.into_iter().map(|(x, t)| (x, t, false)).collect())));
                }
                if opt_ok {
                    let (x, t) = self.ex(e)?;
                    if t.peel().is_option() {
                        let i = t.peel().arg(0);
                        return Ok(Some((vec![], vec![(x, if t.is_ref() { Ty::Ref(Box::new(i)) } else { i }, true)])));
                    }
                }
                Ok(None)
            }
            x if opt_ok => {
                let (x, t) = self.ex(x)?;
                if !t.peel().is_option() {
                    return Ok(None);
                }
                let mut pre = vec![];
                let x = self.hold(x, &mut pre);
                let i = t.peel().arg(0);
                Ok(Some((pre, vec![(x, if t.is_ref() { Ty::Ref(Box::new(i)) } else { i }, true)])))
            }
            _ => Ok(None),
        }
    }
    /// the value of `x`, taken now
    fn hold(&mut self, x: Expr, pre: &mut Vec<Stmt>) -> Expr {
        if still(&x) {
            return x;
        }
        let y = self.fresh("x");
        pre.push(parse_quote!(let #y = #x;));
        parse_quote!(#y)
    }
    /// `each` over a list that is written out: a copy of the body per item, guarded once one of them stops
    fn each_static(&mut self, pre0: Vec<Stmt>, elems: Vec<(Expr, Ty, bool)>, stages: &[Stage], k: &mut dyn FnMut(&mut Gen, usize, Expr, Ty) -> R<Expr>) -> R<(Expr, usize)> {
        if stages.iter().any(|s| matches!(s, Stage::SkipWhile(_) | Stage::Skip(_) | Stage::Take(_))) {
            return err("skip or take on a list that is written out");
        }
        self.statics += 1;
        let n = 9000 + self.statics;
        let stop = ident(&format!("stop_{n}"));
        let mut out: Vec<Stmt> = vec![];
        let mut any = false;
        let mut sure = true;
        for (i, (x, t, opt)) in elems.into_iter().enumerate() {
            let y = self.fresh("x");
            let save = std::mem::replace(&mut self.at, if sure { Some(Some(i)) } else { Some(None) });
            let b = self.stage(stages, n, parse_quote!(#y), t, k);
            self.at = save;
            sure &= !opt;
            let mut b = b?;
            let before = any;
            any |= unbreak(&mut b, &stop);
            let b: Expr = if opt { parse_quote!(match #x { Some(#y) => { #b } None => {} }) } else { parse_quote!({ let #y = #x; #b }) };
            out.push(if before { parse_quote!(if !#stop { #b; }) } else { parse_quote!({ #b; }) });
        }
        let st: Vec<Stmt> = if any { vec![parse_quote!(let mut #stop: bool = false;)] } else { vec![] };
        Ok((parse_quote!({ #(#pre0)* #(#st)* #(#out)* }), n))
    }
    /// the position of the item at hand
    fn idx_of(&self, n: usize) -> R<Expr> {
        match self.at {
            Some(Some(i)) => { let l = syn::LitInt::new(&format!("{i}usize"), proc_macro2::Span::call_site()); Ok(parse_quote!(#l)) }
            Some(None) => err("position after an optional item"),
            None => { let iv = ident(&format!("it_{n}")); Ok(parse_quote!(crate::ext::idx(&#iv))) }
        }
    }

    /// a loop over `base` that passes every item through the adaptors to `k`; returns the loop and its number
    fn each(&mut self, base: &Expr, stages: &[Stage], k: &mut dyn FnMut(&mut Gen, usize, Expr, Ty) -> R<Expr>) -> R<(Expr, usize)> {
        if let Some((pre, v)) = self.static_src(base)? {
            return self.each_static(pre, v, stages, k);
        }
        let (it, ity) = self.ex_iter(base)?;
        let n = self.loop_no();
        let iv = ident(&format!("it_{n}"));
        let is = ident(&format!("its_{n}"));
        let x = self.fresh("x");
        let save = std::mem::take(&mut self.pres);
        let at = self.at.take();
        let body = self.stage(stages, n, parse_quote!(#x), ity, k);
        let pre = std::mem::replace(&mut self.pres, save);
        self.at = at;
        let body = body?;
        Ok((parse_quote!({ #(#pre)* let mut #iv = #it; let #is = crate::ext::snap(&#iv); loop { __vloop!(#n); match crate::ext::VIter::vnext(&mut #iv) { None => { break; } Some(#x) => { #body } } } }), n))
    }
    fn stage(&mut self, stages: &[Stage], n: usize, x: Expr, t: Ty, k: &mut dyn FnMut(&mut Gen, usize, Expr, Ty) -> R<Expr>) -> R<Expr> {
        let Some(s) = stages.first() else { return k(self, n, x, t) };
        let rest = &stages[1..];
        match s {
            Stage::Enumerate => {
                let i = self.idx_of(n)?;
                let y = self.fresh("x");
                let b = self.stage(rest, n, parse_quote!(#y), Ty::Tup(vec![Ty::Int("usize".into()), t]), k)?;
                Ok(parse_quote!({ let #y = (#i, #x); #b }))
            }
            Stage::Copied => {
                let y = self.fresh("x");
                let b = self.stage(rest, n, parse_quote!(#y), t.peel().clone(), k)?;
                Ok(parse_quote!({ let #y = (#x).dup(); #b }))
            }
            Stage::Map(c) => {
                let (v, vt) = self.apply(c, vec![ApArg::E((x, t))])?;
                let y = self.fresh("x");
                let b = self.stage(rest, n, parse_quote!(#y), vt, k)?;
                Ok(parse_quote!({ let #y = #v; #b }))
            }
            Stage::Filter(c) => {
                let (v, _) = self.apply(c, vec![ApArg::E((parse_quote!(&#x), Ty::Ref(Box::new(t.clone()))))])?;
                let b = self.stage(rest, n, x, t, k)?;
                Ok(parse_quote!(if #v { #b }))
            }
            Stage::TakeWhile(c) => {
                let (v, _) = self.apply(c, vec![ApArg::E((parse_quote!(&#x), Ty::Ref(Box::new(t.clone()))))])?;
                let b = self.stage(rest, n, x, t, k)?;
                Ok(parse_quote!(if #v { #b } else { break; }))
            }
            Stage::Inspect(c) => {
                let (v, _) = self.apply(c, vec![ApArg::E((parse_quote!(&#x), Ty::Ref(Box::new(t.clone()))))])?;
                let b = self.stage(rest, n, x, t, k)?;
                Ok(parse_quote!({ #v; #b }))
            }
            Stage::MapWhile(c) => {
                let (v, vt) = self.apply(c, vec![ApArg::E((x, t))])?;
                let y = self.fresh("x");
                let gs = guard_struct(v);
                let b = self.stage(rest, n, parse_quote!(#y), vt.arg(0), k)?;
                Ok(parse_quote!(match #gs { Some(#y) => { #b } None => { break; } }))
            }
            Stage::SkipWhile(c) => {
                let on = self.fresh("x");
                self.pres.push(parse_quote!(let mut #on: bool = false;));
                let (v, _) = self.apply(c, vec![ApArg::E((parse_quote!(&#x), Ty::Ref(Box::new(t.clone()))))])?;
                let b = self.stage(rest, n, x, t, k)?;
                Ok(parse_quote!({ if !#on { #on = !(#v); } if #on { #b } }))
            }
            Stage::Skip(c) => {
                let (sk, lim) = (self.fresh("x"), self.fresh("x"));
                let (c, _) = self.ex(c)?;
                self.pres.push(parse_quote!(let mut #sk: usize = 0;));
                self.pres.push(parse_quote!(let #lim: usize = #c;));
                let b = self.stage(rest, n, x, t, k)?;
                Ok(parse_quote!({ if #sk < #lim { #sk += 1; } else { #b } }))
            }
            Stage::Take(c) => {
                // counted per item that gets this far; tk_n when each of them reaches the end
                let exact = !rest.iter().any(drops);
                let tk = if exact { ident(&format!("tk_{n}")) } else { ident(&self.fresh("x").to_string()) };
                let lim = self.fresh("x");
                let (c, _) = self.ex(c)?;
                self.pres.push(parse_quote!(let mut #tk: usize = 0;));
                self.pres.push(parse_quote!(let #lim: usize = #c;));
                let b = self.stage(rest, n, x, t, k)?;
                Ok(parse_quote!({ if #tk >= #lim { break; } #tk += 1; #b }))
            }
            Stage::FilterMap(c) => {
                let (v, vt) = self.apply(c, vec![ApArg::E((x, t))])?;
                let y = self.fresh("x");
                let gs = guard_struct(v);
                let b = self.stage(rest, n, parse_quote!(#y), vt.arg(0), k)?;
                Ok(parse_quote!(match #gs { Some(#y) => { #b } None => {} }))
            }
        }
    }
    /// consumers of iterator chains, as the loops they stand for
    fn consume(&mut self, m: &ExprMethodCall, n: &str) -> R<Option<TE>> {
        let (base, stages) = chain(&m.receiver);
        let isiter = !stages.is_empty() || is_source(&m.receiver);
        if !isiter {
            return Ok(None);
        }
        match (n, m.args.len()) {
            ("collect", 0) => {
                // without a written type a vector is the only target that can type-check below
                let want = match m.turbofish.as_ref().and_then(|tf| tf.args.first()) {
                    Some(GenericArgument::Type(ty)) => self.ty(ty)?,
                    Some(_) => return err("collect without a type"),
                    None => Ty::Adt("Vec".into(), vec![Ty::Unk]),
                };
                let res = want.is_result();
                let coll = if res { want.arg(0) } else { want.clone() };
                let map = coll.adt().map(|a| a.ends_with("collections::BTreeMap")).unwrap_or(false);
                if !map && coll.adt() != Some("Vec") {
                    return err(format!("collect into {want:?}"));
                }
                let mut et = Ty::Unk;
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    let er = ident(&format!("er_{n}"));
                    let (v, e, y) = (g.fresh("x"), g.fresh("x"), g.fresh("x"));
                    et = t;
                    let put: Expr = if map { parse_quote!({ let #y = #v; let _ = #out.insert(#y.0, #y.1); }) } else { parse_quote!({ #out.push(#v); }) };
                    Ok(if res { parse_quote!(match #x { Ok(#v) => #put, Err(#e) => { #er = Some(#e); break; } }) } else { parse_quote!({ let #v = #x; #put }) })
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                let er = ident(&format!("er_{k}"));
                let new: Expr = if map { parse_quote!(crate::ext::xstd::collections::BTreeMap::new()) } else { parse_quote!(Vec::new()) };
                let item = if res { et.arg(0) } else { et.clone() };
                let ct = if map {
                    let (kt, vt) = match &item { Ty::Tup(v) if v.len() == 2 => (v[0].clone(), v[1].clone()), _ => (Ty::Unk, Ty::Unk) };
                    Ty::join(coll.clone(), Ty::Adt(coll.adt().unwrap().to_string(), vec![kt, vt]))
                } else { Ty::join(coll.clone(), Ty::Adt("Vec".into(), vec![item])) };
                Ok(Some(if res {
                    let e = self.fresh("x");
                    (parse_quote!({ let mut #out = #new; let mut #er = None; #lp match #er { Some(#e) => Err(#e), None => Ok(#out) } }), Ty::result(ct, et.arg(1)))
                } else {
                    (parse_quote!({ let mut #out = #new; #lp #out }), ct)
                }))
            }
            ("for_each", 1) => {
                let c = m.args[0].clone();
                let mut f = |g: &mut Gen, _: usize, x: Expr, t: Ty| { let (b, _) = g.apply(&c, vec![ApArg::E((x, t))])?; Ok(parse_quote!({ #b; })) };
                let (lp, _) = self.each(&base, &stages, &mut f)?;
                Ok(Some((lp, Ty::unit())))
            }
            ("count", 0) => {
                let mut f = |_: &mut Gen, n: usize, _: Expr, _: Ty| { let out = ident(&format!("out_{n}")); Ok(parse_quote!({ #out = #out + 1; })) };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                Ok(Some((parse_quote!({ let mut #out: usize = 0; #lp #out }), Ty::Int("usize".into()))))
            }
            ("any" | "all", 1) => {
                let c = m.args[0].clone();
                let any = n == "any";
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    let (b, _) = g.apply(&c, vec![ApArg::E((x, t))])?;
                    Ok(if any { parse_quote!({ if #b { #out = true; break; } }) } else { parse_quote!({ if !(#b) { #out = false; break; } }) })
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                let init: Expr = if any { parse_quote!(false) } else { parse_quote!(true) };
                Ok(Some((parse_quote!({ let mut #out = #init; #lp #out }), boolty())))
            }
            ("find", 1) => {
                let c = m.args[0].clone();
                let mut et = Ty::Unk;
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    et = t.clone();
                    let (b, _) = g.apply(&c, vec![ApArg::E((parse_quote!(&#x), Ty::Ref(Box::new(t))))])?;
                    Ok(parse_quote!({ if #b { #out = Some(#x); break; } }))
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                Ok(Some((parse_quote!({ let mut #out = None; #lp #out }), Ty::option(et))))
            }
            ("position", 1) => {
                let c = m.args[0].clone();
                let exact = !stages.iter().any(drops);
                if !exact {
                    return err("position after a filter");
                }
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    let i = g.idx_of(n)?;
                    let (b, _) = g.apply(&c, vec![ApArg::E((x, t))])?;
                    Ok(parse_quote!({ if #b { #out = Some(#i); break; } }))
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                Ok(Some((parse_quote!({ let mut #out: Option<usize> = None; #lp #out }), Ty::option(Ty::Int("usize".into())))))
            }
            ("next" | "last", 0) => {
                let last = n == "last";
                let mut et = Ty::Unk;
                let mut f = |_: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    et = t;
                    Ok(if last { parse_quote!({ #out = Some(#x); }) } else { parse_quote!({ #out = Some(#x); break; }) })
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                Ok(Some((parse_quote!({ let mut #out = None; #lp #out }), Ty::option(et))))
            }
            ("find_map", 1) => {
                let c = m.args[0].clone();
                let mut et = Ty::Unk;
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    let (b, bt) = g.apply(&c, vec![ApArg::E((x, t))])?;
                    et = bt.arg(0);
                    let y = g.fresh("x");
                    let gs = guard_struct(b);
                    Ok(parse_quote!({ match #gs { Some(#y) => { #out = Some(#y); break; } None => {} } }))
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                Ok(Some((parse_quote!({ let mut #out = None; #lp #out }), Ty::option(et))))
            }
            ("try_for_each", 1) => {
                // of results
                let c = m.args[0].clone();
                let mut et = Ty::Unk;
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let er = ident(&format!("er_{n}"));
                    let (b, bt) = g.apply(&c, vec![ApArg::E((x, t))])?;
                    et = bt.arg(1);
                    let e = g.fresh("x");
                    let gs = guard_struct(b);
                    Ok(parse_quote!({ match #gs { Ok(_) => {} Err(#e) => { #er = Some(#e); break; } } }))
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let er = ident(&format!("er_{k}"));
                let e = self.fresh("x");
                Ok(Some((parse_quote!({ let mut #er = None; #lp match #er { Some(#e) => Err(#e), None => Ok(()) } }), Ty::result(Ty::unit(), et))))
            }
            ("try_fold", 2) => {
                let (init, it) = self.ex(&m.args[0])?;
                let c = m.args[1].clone();
                let it = if let Ty::Int(_) = it.peel() { it } else { Ty::Unk };
                let rt = std::cell::RefCell::new(Ty::Unk);
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    let er = ident(&format!("er_{n}"));
                    let (v, vt) = g.apply(&c, vec![ApArg::E((parse_quote!(#out), it.clone())), ApArg::E((x, t))])?;
                    let (y, e) = (g.fresh("x"), g.fresh("x"));
                    let gs = guard_struct(v);
                    let opt = vt.is_option();
                    *rt.borrow_mut() = vt;
                    Ok(if opt { parse_quote!({ match #gs { Some(#y) => { #out = #y; } None => { #er = Some(()); break; } } }) } else { parse_quote!({ match #gs { Ok(#y) => { #out = #y; } Err(#e) => { #er = Some(#e); break; } } }) })
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                let er = ident(&format!("er_{k}"));
                let rt = rt.into_inner();
                let init = typed_lit(init, &rt.arg(0));
                let e = self.fresh("x");
                let end: Expr = if rt.is_option() { parse_quote!(match #er { Some(_) => None, None => Some(#out) }) } else { parse_quote!(match #er { Some(#e) => Err(#e), None => Ok(#out) }) };
                Ok(Some((parse_quote!({ let mut #out = #init; let mut #er = None; #lp #end }), rt)))
            }
            ("fold", 2) => {
                let (init, it) = self.ex(&m.args[0])?;
                let c = m.args[1].clone();
                let it = if let Ty::Int(_) = it.peel() { it } else { Ty::Unk };
                let acc = std::cell::RefCell::new(it);
                let mut f = |g: &mut Gen, n: usize, x: Expr, t: Ty| {
                    let out = ident(&format!("out_{n}"));
                    let a = acc.borrow().clone();
                    let (v, vt) = g.apply(&c, vec![ApArg::E((parse_quote!(#out), a)), ApArg::E((x, t))])?;
                    *acc.borrow_mut() = vt;
                    Ok(parse_quote!({ #out = #v; }))
                };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                let ty = acc.borrow().peel().clone();
                let init = typed_lit(init, &ty);
                Ok(Some((parse_quote!({ let mut #out = #init; #lp #out }), ty)))
            }
            ("sum", 0) => {
                let mut et = Ty::Unk;
                let mut f = |_: &mut Gen, n: usize, x: Expr, t: Ty| { let out = ident(&format!("out_{n}")); et = t; Ok(parse_quote!({ #out = #out + #x; })) };
                let (lp, k) = self.each(&base, &stages, &mut f)?;
                let out = ident(&format!("out_{k}"));
                let Ty::Int(i) = et.peel().clone() else { return err("sum of unknown type") };
                let it: Type = syn::parse_str(&i).map_err(|e| e.to_string())?;
                Ok(Some((parse_quote!({ let mut #out: #it = 0; #lp #out }), Ty::Int(i))))
            }
            _ => Ok(None),
        }
    }

    /// an argument that Rust evaluates whether or not it is used
    fn eager(&mut self, d: Expr) -> (Expr, Box<dyn Fn(Expr, &dyn Fn(Expr) -> Expr) -> Expr>) {
        if still(&d) {
            return (d, Box::new(|g, k| k(g)));
        }
        let (a, b) = (self.fresh("x"), self.fresh("x"));
        let x: Expr = parse_quote!(#b);
        (x, Box::new(move |g, k| { let r = k(parse_quote!(#a)); parse_quote!({ let #a = #g; let #b = #d; #r }) }))
    }
    // ------------------------------------------------------------------ closures and inlining
    /// apply a closure (or a function path) to already lowered arguments
    pub fn apply(&mut self, clo: &Expr, args: Vec<ApArg>) -> R<TE> {
        match strip(clo) {
            Expr::Closure(c) => {
                if c.asyncness.is_some() {
                    return err("async closure");
                }
                self.push();
                let r = (|| {
                    let mut bound: Vec<(Pat, proc_macro2::TokenStream, Expr)> = vec![];
                    for (i, p) in c.inputs.iter().enumerate() {
                        let a = args.get(i).ok_or("closure arity")?;
                        let (pp, ann) = match p {
                            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                            p => (p.clone(), None),
                        };
                        match a {
                            ApArg::Cell => match &pp {
                                Pat::Ident(i) => self.bindx(&i.ident.to_string(), Bind::Cell),
                                _ => return err("pattern for the state cell"),
                            },
                            ApArg::E((x, t)) => {
                                if is_state(t) && self.st_expr(x) {
                                    match &pp {
                                        Pat::Ident(i) => {
                                            self.bindx(&i.ident.to_string(), Bind::St);
                                            continue;
                                        }
                                        Pat::Wild(_) => continue,
                                        _ => return err("pattern for the state"),
                                    }
                                }
                                let t = match &ann {
                                    Some(a) => Ty::join(self.ty(a)?, t.clone()),
                                    None => t.clone(),
                                };
                                let ann = match &ann {
                                    Some(a) => { let k = self.ty_tokens(a)?; quote!(: #k) }
                                    None => quote!(),
                                };
                                let p = self.pat(&pp, &t)?;
                                bound.push((p, ann, x.clone()));
                            }
                        }
                    }
                    // all the arguments before the first parameter
                    let mut lets: Vec<Stmt> = vec![];
                    if bound.len() > 1 && (1..bound.len()).any(|i| bound[..i].iter().any(|b| binds(&b.0).iter().any(|n| mentions(bound[i].2.to_token_stream(), n)))) {
                        for b in bound.iter_mut() {
                            let x = self.fresh("x");
                            lets.push(stmt_let(quote!(#x), &b.2, None));
                            b.2 = parse_quote!(#x);
                        }
                    }
                    for (p, ann, x) in &bound {
                        lets.push(stmt_let(quote!(#p #ann), x, None));
                    }
                    let (b, t) = self.ex(&c.body)?;
                    let b = if elim::has_return(&b) { elim::eliminate(b)? } else { b };
                    let mut t = t;
                    if let ReturnType::Type(_, ty) = &c.output {
                        t = Ty::join(self.ty(ty)?, t);
                    }
                    if lets.is_empty() {
                        Ok::<TE, String>((parse_quote!({ #b }), t))
                    } else {
                        Ok((parse_quote!({ #(#lets)* #b }), t))
                    }
                })();
                self.pop();
                r
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    if let Some(b @ Bind::Clo(..)) = self.look(&i.to_string()) {
                        return self.apply_bound(b, args);
                    }
                }
                let mut v = vec![];
                for a in args {
                    match a {
                        ApArg::E(te) => v.push(self.pre_e(te)),
                        ApArg::Cell => return err("state cell passed to a function"),
                    }
                }
                self.call_path(p, &v)
            }
            Expr::Reference(r) => self.apply(&r.expr, args),
            e => err(format!("cannot apply {}", show(e))),
        }
    }
    fn trait_method(&self, t: &Ty, n: &str) -> Option<FnItem> {
        let end = format!(">{n}");
        let mut fs = self.db.fns.values().filter(|f| {
            f.key.ends_with(&end)
                && f.trait_.as_ref().map(|p| self.db.traits.contains(&p.segments.last().unwrap().ident.to_string())).unwrap_or(false)
                && self.sig_frame(f).self_ty.map(|s| match (s.peel(), t.peel()) { (Ty::Adt(a, _), Ty::Adt(b, _)) => a == b, (a, b) => a == b }).unwrap_or(false)
        });
        match (fs.next(), fs.next()) { (Some(f), None) => Some(f.clone()), _ => None }
    }
    fn clo_arity(&self, e: &Expr) -> Option<usize> {
        match strip(e) {
            Expr::Closure(c) => Some(c.inputs.len()),
            Expr::Reference(r) => self.clo_arity(&r.expr),
            Expr::Path(p) => match p.path.get_ident().and_then(|i| self.look(&i.to_string())) {
                Some(Bind::Clo(c, ..)) if matches!(strip(&c), Expr::Closure(_)) => self.clo_arity(&c),
                _ => None,
            },
            _ => None,
        }
    }
    fn apply_bound(&mut self, b: Bind, args: Vec<ApArg>) -> R<TE> {
        let Bind::Clo(c, fr, caps) = b else { return err("not a closure") };
        let save = self.cur;
        self.cur = fr;
        let seen = caps.is_some();
        if let Some(s) = caps {
            self.frames[fr].scopes.push(s);
        }
        let r = self.apply(&c, args);
        if seen {
            self.frames[fr].scopes.pop();
        }
        self.cur = save;
        r
    }

    pub fn mode(&self, key: &str) -> Mode {
        let f = match self.db.fns.get(key) {
            Some(f) => f,
            None => return Mode::Stub,
        };
        if has_clo_params(&f.sig) || f.sig.generics.type_params().count() > 0 || !f.impl_generics.is_empty() {
            return Mode::Inline;
        }
        match self.ctr.map.get(key) {
            None => if self.try_all { Mode::Stub } else { Mode::Inline },
            Some(c) => {
                if c.mode == "inline" || c.params.len() != f.sig.inputs.len() {
                    return Mode::Inline;
                }
                if c.mode == "trusted" {
                    return Mode::Trusted;
                }
                if c.active(&self.slice) { Mode::Modular } else { Mode::Stub }
            }
        }
    }

    /// in which frame-independent context the signature of `f` has to be read
    pub fn sig_frame(&self, f: &FnItem) -> Frame {
        let mut fr = Frame { module: f.module.clone(), scopes: vec![HashMap::new()], ..Default::default() };
        fr.generics = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        fr.generics.extend(f.impl_generics.clone());
        if let Some(t) = &f.self_ty {
            let mut g = Gen::new(self.db, self.ctr, &self.slice);
            g.frames = vec![fr.clone()];
            fr.self_ty = g.ty(t).ok();
        }
        fr
    }
    pub fn ret_ty(&self, f: &FnItem) -> Ty {
        let mut g = Gen::new(self.db, self.ctr, &self.slice);
        g.frames = vec![self.sig_frame(f)];
        match &f.sig.output {
            ReturnType::Default => Ty::unit(),
            ReturnType::Type(_, t) => g.ty(t).unwrap_or(Ty::Unk),
        }
    }
    /// (index of the explicit state parameter, is it &mut)
    pub fn state_param(&self, f: &FnItem) -> Option<(usize, bool)> {
        let mut g = Gen::new(self.db, self.ctr, &self.slice);
        g.frames = vec![self.sig_frame(f)];
        for (i, a) in f.sig.inputs.iter().enumerate() {
            match a {
                FnArg::Receiver(r) => {
                    if g.frames[0].self_ty.as_ref().map(is_state).unwrap_or(false) {
                        return Some((i, r.mutability.is_some()));
                    }
                }
                FnArg::Typed(p) => {
                    if let Type::Reference(r) = &*p.ty {
                        if g.ty(&r.elem).map(|t| is_state(&t)).unwrap_or(false) {
                            return Some((i, r.mutability.is_some()));
                        }
                    }
                }
            }
        }
        None
    }

    pub fn call_fn(&mut self, key: &str, args: &[Expr], recv: Option<TE>) -> R<TE> {
        let f = self.db.fns.get(key).ok_or_else(|| format!("no function {key}"))?.clone();
        let mode = self.mode(key);
        if mode == Mode::Inline {
            return self.inline_call(&f, args, recv);
        }
        self.callees.insert(key.to_string());
        let sp = self.state_param(&f);
        let mut v = vec![];
        for a in args {
            let (x, t) = self.ex(a)?;
            if is_state(&t) && self.st_expr(&x) {
                v.push(strip_ref(x));
            } else {
                v.push(x);
            }
        }
        if let Some((_, true)) = sp {
            self.stx(2);
        }
        let (fs, fe) = self.fx.get(key).copied().unwrap_or((0, 0));
        if sp.is_none() && fs > 0 {
            let s = self.stx(fs);
            v.push(s);
        }
        if fe > 0 {
            let e = self.envx(fe)?;
            v.push(e);
        }
        let rt = self.ret_ty(&f);
        let e: Expr = match recv {
            Some((r, _)) => {
                let m = ident(key.rsplit("::").next().unwrap());
                parse_quote!((#r).#m(#(#v),*))
            }
            None => {
                let p = path_expr(&format!("crate::{key}"));
                if let Some(k) = key.rsplit_once("::").map(|x| x.0) {
                    if self.db.structs.contains_key(k) || self.db.enums.contains_key(k) {
                        self.needed.insert(k.into());
                    }
                }
                parse_quote!(#p(#(#v),*))
            }
        };
        Ok((e, rt))
    }

    fn inline_call(&mut self, f: &FnItem, args: &[Expr], recv: Option<TE>) -> R<TE> {
        if self.stack.contains(&f.key) {
            return err(format!("recursive call of {}", f.key));
        }
        if self.stack.len() > 12 {
            return err("inlining too deep");
        }
        self.inlined.insert(f.key.clone());
        self.fresh += 1;
        let mut fr = self.sig_frame(f);
        fr.suffix = format!("__i{}", self.fresh);
        let rt = self.ret_ty(f);
        fr.ret = Some(rt.clone());
        let caller = self.cur;
        let idx = self.frames.len();
        self.frames.push(fr);
        self.stack.push(f.key.clone());
        let r = (|| {
            let mut lets: Vec<Stmt> = vec![];
            let mut ai = 0;
            for p in f.sig.inputs.iter() {
                match p {
                    FnArg::Receiver(rc) => {
                        let (x, t) = match &recv {
                            Some(r) => r.clone(),
                            None => {
                                let a = args.get(ai).ok_or("missing receiver")?;
                                ai += 1;
                                self.ex(a)?
                            }
                        };
                        if is_state(&t) && self.st_expr(&x) {
                            self.frames[idx].scopes.last_mut().unwrap().insert("self".into(), Bind::St);
                            continue;
                        }
                        self.cur = idx;
                        let nn = ident(&self.bind_v("self", if rc.reference.is_some() && !t.is_ref() { Ty::Ref(Box::new(t.clone())) } else { t.clone() }));
                        self.cur = caller;
                        let x: Expr = if rc.reference.is_some() && !t.is_ref() {
                            if rc.mutability.is_some() { parse_quote!(&mut #x) } else { parse_quote!(&#x) }
                        } else {
                            x
                        };
                        if rc.reference.is_none() && rc.mutability.is_some() { lets.push(parse_quote!(let mut #nn = #x;)) } else { lets.push(parse_quote!(let #nn = #x;)) }
                    }
                    FnArg::Typed(pt) => {
                        let a = args.get(ai).ok_or("arity")?.clone();
                        ai += 1;
                        let clo = is_clo_type(&pt.ty, &f.sig.generics);
                        if clo {
                            let n = match &*pt.pat { Pat::Ident(i) => i.ident.to_string(), _ => return err("closure parameter pattern") };
                            let mut a = strip(&a);
                            while let Expr::Reference(r) = a {
                                a = strip(&r.expr);
                            }
                            let b = match a {
                                Expr::Path(p) => match p.path.get_ident().and_then(|i| self.look(&i.to_string())) {
                                    Some(b @ Bind::Clo(..)) => b,
                                    _ => Bind::Clo(Box::new(a.clone()), caller, None),
                                },
                                _ => Bind::Clo(Box::new(a.clone()), caller, None),
                            };
                            self.frames[idx].scopes.last_mut().unwrap().insert(n, b);
                            continue;
                        }
                        let (x, t) = self.ex(&a)?;
                        if is_state(&t) && self.st_expr(&x) {
                            if let Pat::Ident(i) = &*pt.pat {
                                self.frames[idx].scopes.last_mut().unwrap().insert(i.ident.to_string(), Bind::St);
                                if matches!(&*pt.ty, Type::Reference(r) if r.mutability.is_some()) {
                                    self.stx(2);
                                }
                                continue;
                            }
                            return err("state parameter pattern");
                        }
                        self.cur = idx;
                        let ty = self.ty(&pt.ty);
                        let toks = self.ty_tokens(&pt.ty).ok().filter(|_| !matches!(&*pt.ty, Type::ImplTrait(_)));
                        let ty = Ty::join(ty.unwrap_or(Ty::Unk), t);
                        let p = self.pat(&pt.pat, &ty);
                        self.cur = caller;
                        let p = p?;
                        let ann = match toks {
                            Some(t) if self.frames[idx].generics.is_empty() => quote!(: #t),
                            _ => quote!(),
                        };
                        lets.push(stmt_let(quote!(#p #ann), &x, None));
                    }
                }
            }
            self.cur = idx;
            let (b, bt) = self.block(&f.block)?;
            let rtoks = match &f.sig.output {
                ReturnType::Default => None,
                ReturnType::Type(_, t) if !matches!(**t, Type::ImplTrait(_) | Type::Never(_)) && self.frames[idx].generics.is_empty() => self.ty_tokens(t).ok(),
                _ => None,
            };
            let mut e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            if elim::has_return(&e) {
                e = elim::eliminate(e)?;
            }
            let v = self.fresh("ret");
            let t = if rt == Ty::Unk { bt } else { rt.clone() };
            let e: Expr = match rtoks {
                Some(k) => parse_quote!({ #(#lets)* let #v: #k = #e; #v }),
                None => parse_quote!({ #(#lets)* #e }),
            };
            Ok::<TE, String>((e, t))
        })();
        self.stack.pop();
        self.frames.truncate(idx);
        self.cur = caller;
        r.map_err(|e| format!("{e} (inlining {})", f.key))
    }

    // ------------------------------------------------------------------ calls
    fn lower_args(&mut self, args: &[Expr]) -> R<(Vec<Expr>, Vec<Ty>)> {
        let mut v = vec![];
        let mut ts = vec![];
        for a in args {
            let (x, t) = self.ex(a)?;
            v.push(x);
            ts.push(t);
        }
        Ok((v, ts))
    }
    pub fn call_path(&mut self, p: &ExprPath, args: &[Expr]) -> R<TE> {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 {
            if let Some(b @ Bind::Clo(..)) = self.look(&segs[0]) {
                let mut v = vec![];
                for a in args {
                    v.push(ApArg::E(self.ex(a)?));
                }
                return self.apply_bound(b, v);
            }
            match segs[0].as_str() {
                "Some" | "Ok" | "Err" => {
                    let (x, t) = self.ex(&args[0])?;
                    let i = ident(&segs[0]);
                    if let (PathArguments::AngleBracketed(ga), true) = (&p.path.segments[0].arguments, segs[0] != "Some") {
                        let g: Vec<&Type> = ga.args.iter().filter_map(|a| if let GenericArgument::Type(t) = a { Some(t) } else { None }).collect();
                        if g.len() == 2 && !g.iter().any(|t| matches!(t, Type::Infer(_))) {
                            let (a, b) = (self.ty_tokens(g[0])?, self.ty_tokens(g[1])?);
                            return Ok((parse_quote!(#i::<#a, #b>(#x)), Ty::result(self.ty(g[0])?, self.ty(g[1])?)));
                        }
                    }
                    let t = match segs[0].as_str() {
                        "Some" => Ty::option(t),
                        "Ok" => Ty::result(t, Ty::Unk),
                        _ => Ty::result(Ty::Unk, t),
                    };
                    return Ok((parse_quote!(#i(#x)), t));
                }
                "drop" => {
                    let (x, _) = self.ex(&args[0])?;
                    return Ok((parse_quote!({ let _ = #x; }), Ty::unit()));
                }
                _ => {}
            }
        }
        if let Some(v) = self.variant_of(&segs) {
            let t = v.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
            self.note(&t);
            let (a, _) = self.lower_args(args)?;
            let h = path_expr(&v);
            return Ok((parse_quote!(#h(#(#a),*)), Ty::Adt(t, vec![])));
        }
        let last = segs.last().unwrap().clone();
        let abs = self.resolve(&segs);
        // conversions
        if (last == "from" || last == "try_from") && args.len() == 1 && segs.len() >= 2 || p.qself.is_some() && args.len() == 1 && (last == "from" || last == "try_from") {
            let mut tp = p.path.clone();
            tp.segments.pop();
            tp.segments.pop_punct();
            let ty: Type = match &p.qself {
                Some(q) => (*q.ty).clone(),
                None => parse_quote!(#tp),
            };
            let t = self.ty(&ty)?;
            if last == "from" && t.adt().map(|a| a.ends_with("collections::BTreeMap")).unwrap_or(false) {
                if let Some(elems) = self.const_array(&args[0])? {
                    let et = elems.first().map(|x| x.1.clone()).unwrap_or(Ty::Unk);
                    let xs: Vec<Expr> = elems.into_iter().map(|x| x.0).collect();
                    let (m, k, y) = (self.fresh("x"), self.fresh("x"), self.fresh("x"));
                    let mt = match &et { Ty::Tup(v) if v.len() == 2 => Ty::join(t.clone(), Ty::Adt(t.adt().unwrap().to_string(), v.clone())), _ => t };
                    return Ok((parse_quote!({ let mut #m = crate::ext::xstd::collections::BTreeMap::new(); #(match #xs { (#k, #y) => { let _ = #m.insert(#k, #y); } })* #m }), mt));
                }
            }
            let (x, xt) = self.ex(&args[0])?;
            let toks = self.ty_tokens(&ty)?;
            if last == "from" && t == Ty::Adt("Vec".into(), vec![]) && matches!(xt.peel(), Ty::Arr(_)) {
                return Ok((parse_quote!((#x).vto_vec()), Ty::Adt("Vec".into(), vec![Ty::Int("u8".into())])));
            }
            if last == "from" {
                return Ok((parse_quote!(crate::ext::cv::<_, #toks>(#x)), t));
            }
            return Ok((parse_quote!(crate::ext::tcv::<_, #toks>(#x)), Ty::result(t, Ty::Unk)));
        }
        if last == "deserialize" && args.len() == 1 && (segs.len() >= 2 || p.qself.is_some()) {
            let mut tp = p.path.clone();
            tp.segments.pop();
            tp.segments.pop_punct();
            let ty: Type = match &p.qself {
                Some(q) => (*q.ty).clone(),
                None => parse_quote!(#tp),
            };
            if let Ok(t) = self.ty(&ty) {
                if t.adt() != Some("crate::ext::serde::De") && (p.qself.is_some() || t.is_option() || t.adt() == Some("Vec") || !self.db.fns.contains_key(abs.strip_prefix("crate::").unwrap_or("-")) && !self.db.ext_fns.contains_key(&abs) && !self.db.mods.contains_key(abs.strip_prefix("crate::").and_then(|x| x.rsplit_once("::")).map(|x| x.0).unwrap_or("-"))) {
                    return self.deserialize(&ty, t, &args[0]);
                }
            }
        }
        if abs == "crate::ext::ciborium::value::Value::serialized" && args.len() == 1 {
            let a = &args[0];
            let e: Expr = parse_quote!(match (#a).serialize(crate::ext::serde::Ser::fresh()) { Ok(serde_w) => Ok::<ciborium::value::Value, crate::ext::serde::SerErr>(serde_w.value()), Err(serde_e) => Err(serde_e) });
            return self.ex(&e);
        }
        match abs.as_str() {
            "crate::ext::ic_cdk::trap" | "crate::ext::ic_cdk::api::trap" => {
                // the message only
                return Ok((self.trapx()?, Ty::Never));
            }
            "Vec::new" | "Vec::with_capacity" => return Ok((parse_quote!(Vec::new()), Ty::Adt("Vec".into(), vec![Ty::Unk]))),
            "String::new" => return Ok((self.litx(""), strty())),
            "Box::new" => {
                let (x, t) = self.ex(&args[0])?;
                return Ok((parse_quote!(Box::new(#x)), Ty::Adt("Box".into(), vec![t])));
            }
            "Default::default" | "std::default::Default::default" => return Ok((parse_quote!(crate::ext::Dflt::default_()), Ty::Unk)),
            "std::cmp::min" | "std::cmp::max" => {
                let (a, t) = self.ex(&args[0])?;
                let (b, t2) = self.ex(&args[1])?;
                let m = ident(if abs.ends_with("min") { "vmin" } else { "vmax" });
                return Ok((parse_quote!(crate::ext::VInt::#m(#a, #b)), Ty::join(t, t2)));
            }
            "std::mem::take" | "std::mem::replace" | "std::mem::swap" => {
                let f = path_expr(&format!("crate::ext::{}", abs.replace("std::mem::", "mem_")));
                let mut ts = vec![];
                let mut xs = vec![];
                for a in args {
                    let (x, t) = self.ex(a)?;
                    xs.push(x);
                    ts.push(t);
                }
                let t = if abs.ends_with("swap") { Ty::unit() } else { ts.first().map(|t| t.peel().clone()).unwrap_or(Ty::Unk) };
                return Ok((parse_quote!(#f(#(#xs),*)), t));
            }
            "std::cell::RefCell::new" => return self.ex(&args[0]),
            _ => {}
        }
        if abs.ends_with("::Cbor") && args.len() == 1 {
            return self.ex(&args[0]);
        }
        if let Some(k) = abs.strip_prefix("crate::") {
            if self.db.fns.contains_key(k) {
                return self.call_fn(k, args, None);
            }
            // tuple structs
            if self.db.structs.contains_key(k) || self.db.ext_structs.contains_key(&abs) {
                self.note(&abs);
                let (a, _) = self.lower_args(args)?;
                let h = path_expr(&abs);
                return Ok((parse_quote!(#h(#(#a),*)), Ty::Adt(abs, vec![])));
            }
            if self.db.ext_fns.contains_key(&abs) && self.db.ext_fns[&abs].impl_args.is_empty() {
                return self.call_ext(&abs, path_expr(&abs), args, None);
            }
            // associated functions of an external type (possibly through an alias)
            if segs.len() >= 2 {
                let mut tp = p.path.clone();
                tp.segments.pop();
                tp.segments.pop_punct();
                let ty: Type = parse_quote!(#tp);
                if let (Ok(t), Ok(toks)) = (self.ty(&ty), self.ty_tokens(&ty)) {
                    if let Some(a) = t.adt() {
                        if let Some(kk) = a.strip_prefix("crate::") {
                            let fk = format!("{kk}::{last}");
                            if self.db.fns.contains_key(&fk) {
                                return self.call_fn(&fk, args, None);
                            }
                        }
                        let full = format!("{a}::{last}");
                        if self.db.ext_fns.contains_key(&full) {
                            let l = ident(&last);
                            // generic types: let inference fill the arguments unless they are written out
                            let g = matches!(&t, Ty::Adt(_, v) if !v.is_empty());
                            let pe: Expr = if g { parse_quote!(<#toks>::#l) } else { path_expr(&full) };
                            let st = Some(t.clone());
                            return self.call_ext(&full, pe, args, st);
                        }
                    }
                }
            }
        }
        err(format!("call of unknown function {abs}"))
    }

    fn call_ext(&mut self, full: &str, pe: Expr, args: &[Expr], selft: Option<Ty>) -> R<TE> {
        let f = self.db.ext_fns[full].clone();
        let (mut a, _) = self.lower_args(args)?;
        if f.st > 0 {
            a.push(self.stx(f.st));
        }
        if f.env > 0 {
            a.push(self.envx(f.env)?);
        }
        let rt = self.ext_ret(&f, full, selft.as_ref());
        Ok((parse_quote!(#pe(#(#a),*)), rt))
    }
    fn ext_ret(&self, f: &ExtFn, full: &str, selft: Option<&Ty>) -> Ty {
        let mut t = match &f.ret {
            None => return Ty::unit(),
            Some(t) => self.db.ext_ty(&f.module, t),
        };
        if let Some(s) = selft {
            if let Ty::Adt(_, args) = s.peel() {
                let names: Vec<String> = f.impl_args.iter().map(|x| x.to_token_stream().to_string()).collect();
                t = t.subst(&names, args);
            }
            if t == Ty::Adt("Self".into(), vec![]) {
                t = s.peel().clone();
            }
        }
        let _ = full;
        clean(t, &f.generics)
    }
    pub fn ext_method_ret(&self, t: &Ty, m: &str) -> Ty {
        if let Some(a) = t.adt() {
            if let Some(v) = self.db.ext_methods.get(m) {
                if let Some((full, f)) = v.iter().find(|x| x.0 == a) {
                    return self.ext_ret(f, full, Some(t));
                }
            }
        }
        Ty::Unk
    }

    // ------------------------------------------------------------------ serde
    /// `<T>::deserialize(d)`
    fn deserialize(&mut self, ty: &Type, t: Ty, d: &Expr) -> R<TE> {
        let et = Ty::Adt("crate::ext::serde::SerErr".into(), vec![]);
        if t.is_option() {
            let inner = match ty {
                Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
                    PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None }),
                    _ => None,
                },
                _ => None,
            };
            let inner = inner.ok_or("deserialize of an optional type behind an alias")?;
            let e: Expr = parse_quote!(match crate::ext::serde::nonnull(#d) {
                None => Ok::<#ty, crate::ext::serde::SerErr>(None),
                Some(serde_n) => match <#inner>::deserialize(serde_n) { Ok(serde_v) => Ok(Some(serde_v)), Err(serde_e) => Err(serde_e) },
            });
            let (x, _) = self.ex(&e)?;
            return Ok((x, Ty::result(t, et)));
        }
        if let Some(k) = t.adt().and_then(|a| a.strip_prefix("crate::")) {
            if self.db.structs.contains_key(k) || self.db.enums.contains_key(k) {
                let (m, n) = k.rsplit_once("::").unwrap_or(("", k));
                let fk = if m.is_empty() { format!("serde_de_{n}") } else { format!("{m}::serde_de_{n}") };
                if !self.db.fns.contains_key(&fk) {
                    return err(format!("no derived deserialisation for {k}"));
                }
                return self.call_fn(&fk, &[d.clone()], None);
            }
        }
        let toks = self.ty_tokens(ty)?;
        let (x, _) = self.ex(d)?;
        Ok((parse_quote!(crate::ext::serde::de::<#toks>(#x)), Ty::result(t, et)))
    }
    /// `x.serialize(s)`
    fn serialize(&mut self, recv: &Expr, s: &Expr) -> R<TE> {
        let (r, t) = self.ex(recv)?;
        self.push();
        let v = format!("serde_x{}", self.fresh);
        self.fresh += 1;
        let tr = if t.is_ref() { t.clone() } else { Ty::Ref(Box::new(t.clone())) };
        let nn = ident(&self.bind_v(&v, tr));
        let vi = ident(&v);
        let res = (|| {
            if t.is_option() {
                let e: Expr = parse_quote!(match #vi { None => (#s).serialize_none(), Some(serde_o) => serde_o.serialize(#s) });
                return self.ex(&e);
            }
            if let Some(k) = t.adt().and_then(|a| a.strip_prefix("crate::")) {
                if self.db.structs.contains_key(k) || self.db.enums.contains_key(k) {
                    let (m, n) = k.rsplit_once("::").unwrap_or(("", k));
                    let fk = if m.is_empty() { format!("serde_ser_{n}") } else { format!("{m}::serde_ser_{n}") };
                    if !self.db.fns.contains_key(&fk) {
                        return err(format!("no derived serialisation for {k}"));
                    }
                    return self.call_fn(&fk, &[parse_quote!(#vi), s.clone()], None);
                }
            }
            let e: Expr = parse_quote!(crate::ext::serde::ser(#vi, #s));
            self.ex(&e)
        })();
        self.pop();
        let (x, rt) = res?;
        let r: Expr = if t.is_ref() { r } else { parse_quote!(&(#r)) };
        Ok((parse_quote!({ let #nn = #r; #x }), rt))
    }

    // ------------------------------------------------------------------ methods
    fn ex_method(&mut self, m: &ExprMethodCall) -> R<TE> {
        let n = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        // thread-local state
        if n == "with" && args.len() == 1 {
            if let Expr::Path(p) = strip(&m.receiver) {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let abs = self.resolve(&segs);
                if let Some((_, ty, _)) = abs.strip_prefix("crate::").and_then(|k| self.db.statics.get(k)) {
                    let tys = ty.to_token_stream().to_string();
                    if tys.replace(' ', "") == "RefCell<State>" {
                        return self.apply(&args[0], vec![ApArg::Cell]);
                    }
                    if tys.contains("MemoryManager") {
                        let t = Ty::Ref(Box::new(Ty::Adt("crate::ext::ic_stable_structures::memory_manager::MemoryManager".into(), vec![Ty::Unk])));
                        return self.apply(&args[0], vec![ApArg::E((parse_quote!(mm_static), t))]);
                    }
                    return err(format!("thread local {abs}"));
                }
            }
        }
        if (n == "borrow" || n == "borrow_mut") && args.is_empty() {
            if let Expr::Path(p) = strip(&m.receiver) {
                if let Some(i) = p.path.get_ident() {
                    if let Some(Bind::Cell) = self.look(&i.to_string()) {
                        let e = self.stx(if n == "borrow" { 1 } else { 2 });
                        return Ok((e, Ty::Adt("crate::storage::State".into(), vec![])));
                    }
                }
            }
            return self.ex(&m.receiver);
        }
        if n == "serialize" && args.len() == 1 {
            return self.serialize(&m.receiver, &args[0]);
        }
        // iteration over constant arrays
        if ["any", "all"].contains(&n.as_str()) && args.len() == 1 {
            if let Some(elems) = self.const_array(&m.receiver)? {
                let mut v: Vec<Expr> = vec![];
                for (x, t) in elems {
                    let a = ApArg::E((parse_quote!(&#x), Ty::Ref(Box::new(t))));
                    v.push(self.apply(&args[0], vec![a])?.0);
                }
                let e: Expr = if n == "any" { if v.is_empty() { parse_quote!(false) } else { parse_quote!((#(#v)||*)) } } else if v.is_empty() { parse_quote!(true) } else { parse_quote!((#(#v)&&*)) };
                return Ok((e, boolty()));
            }
        }
        if ["collect", "for_each", "sum", "any", "all", "count", "find", "fold", "position", "next", "last", "find_map", "try_for_each", "try_fold"].contains(&n.as_str()) {
            if let Some(r) = self.consume(m, &n)? {
                return Ok(r);
            }
        }
        if n == "contains" && args.len() == 1 {
            if let Expr::Range(rg) = strip(&m.receiver) {
                // a..b and a..=b hold the x between
                let (mut pre, mut c): (Vec<Stmt>, Vec<Expr>) = (vec![], vec![]);
                let mut ends = vec![];
                for e in [&rg.start, &rg.end].into_iter() {
                    ends.push(match e { Some(e) => { let (x, t) = self.ex(e)?; let x = if t.is_ref() { parse_quote!(*#x) } else { x }; Some(self.hold(x, &mut pre)) } None => None });
                }
                let (x, t) = self.ex(&args[0])?;
                let Ty::Int(_) = t.peel() else { return err("contains on a range of other than integers") };
                let x: Expr = match strip(&x) { Expr::Reference(r) => (*r.expr).clone(), y => parse_quote!(*#y) };
                let x = self.hold(x, &mut pre);
                if let Some(a) = &ends[0] { c.push(parse_quote!((#a <= #x))); }
                if let Some(b) = &ends[1] { c.push(if matches!(rg.limits, RangeLimits::Closed(_)) { parse_quote!((#x <= #b)) } else { parse_quote!((#x < #b)) }); }
                let r: Expr = match c.len() { 0 => parse_quote!(true), 1 => c.remove(0), _ => { let (a, b) = (&c[0], &c[1]); parse_quote!((#a && #b)) } };
                return Ok((if pre.is_empty() { r } else { parse_quote!({ #(#pre)* #r }) }, boolty()));
            }
            if let Some(elems) = self.const_array(&m.receiver)? {
                let (a, _) = self.ex(&args[0])?;
                let v: Vec<Expr> = elems.into_iter().map(|(x, _)| { let a = autoref(a.clone()); parse_quote!((#x).veq(#a)) }).collect();
                let e: Expr = if v.is_empty() { parse_quote!(false) } else { parse_quote!((#(#v)||*)) };
                return Ok((e, boolty()));
            }
        }
        if ["context", "with_context"].contains(&n.as_str()) {
            let (r, t) = self.ex(&m.receiver)?;
            let ee = Ty::Adt("crate::ext::anyhow::Error".into(), vec![]);
            let t = if t.adt() == Some("crate::ext::anyhow::Error") { ee } else { Ty::result(t.arg(0), ee) };
            return Ok((parse_quote!((#r).vcontext()), t));
        }
        let (r, t) = self.ex(&m.receiver)?;
        let (r, t) = match &t {
            Ty::Adt(b, a) if b == "Box" && a.len() == 1 && !["clone", "to_owned", "as_ref"].contains(&n.as_str()) => (parse_quote!((*#r)), a[0].clone()),
            _ => (r, t),
        };
        // repository methods
        if let Some(k) = t.adt().and_then(|a| a.strip_prefix("crate::")) {
            let fk = format!("{k}::{n}");
            if self.db.fns.contains_key(&fk) {
                let recv = if is_state(&t) && self.st_expr(&r) { (strip_ref(r), t) } else { (r, t) };
                return self.call_fn(&fk, &args, Some(recv));
            }
        }
        // methods of the repository's traits
        if !self.db.traits.is_empty() {
            if let Some(f) = self.trait_method(&t, &n) {
                let recv = if is_state(&t) && self.st_expr(&r) { (strip_ref(r), t) } else { (r, t) };
                return self.inline_call(&f, &args, Some(recv));
            }
        }
        // external methods that touch the state or the environment, or are declared in the prelude
        if let Some(a) = t.adt() {
            if let Some(v) = self.db.ext_methods.get(&n) {
                if let Some((full, f)) = v.iter().find(|x| x.0 == a).cloned() {
                    let (mut av, _) = self.lower_args(&args)?;
                    if f.st > 0 {
                        av.push(self.stx(f.st));
                    }
                    if f.env > 0 {
                        av.push(self.envx(f.env)?);
                    }
                    let rt = self.ext_ret(&f, &full, Some(&t));
                    let mi = &m.method;
                    let targs = match &m.turbofish {
                        Some(tf) => {
                            let mut ts = vec![];
                            for g in &tf.args {
                                if let GenericArgument::Type(x) = g { ts.push(self.ty_tokens(x)?); }
                            }
                            quote!(::<#(#ts),*>)
                        }
                        None => quote!(),
                    };
                    return Ok((parse_quote!((#r).#mi #targs (#(#av),*)), rt));
                }
            }
        }
        let opt = t.is_option() || (!t.is_result());
        let v = self.fresh("x");
        let gs = guard_struct(r.clone());
        // by-value methods of a (copied) optional value behind a reference
        let gs: Expr = if t.is_ref() && t.is_option() && ["map", "and_then", "or_else", "map_or", "map_or_else", "ok_or", "ok_or_else", "filter", "is_some_and", "is_none_or", "cloned", "copied"].contains(&n.as_str()) { parse_quote!((*#gs)) } else { gs };
        let p0 = t.arg(0);
        let p1 = t.arg(1);
        let ve: Expr = parse_quote!(#v);
        Ok(match (n.as_str(), args.len()) {
            ("clone" | "to_owned", 0) => (parse_quote!((#r).dup()), t.peel().clone()),
            ("cloned" | "copied", 0) => (parse_quote!(match #gs { Some(#v) => Some(#v.dup()), None => None }), Ty::option(p0.peel().clone())),
            ("to_string", 0) => {
                if t.adt() == Some("crate::ext::Str") { (parse_quote!((#r).dup()), strty()) } else { self.dropped.insert("to_string (text content)".into()); (parse_quote!({ let _ = &#r; crate::ext::fmt_str() }), strty()) }
            }
            ("as_str", 0) if t.adt() == Some("crate::ext::Str") => (parse_quote!((#r).dup()), strty()),
            ("to_vec", 0) => (parse_quote!((#r).vto_vec()), Ty::Adt("Vec".into(), vec![Ty::Int("u8".into())])),
            ("as_slice" | "as_ref", 0) if matches!(t.peel(), Ty::Arr(_)) => (r, t),
            ("as_slice", 0) if t.adt() == Some("Vec") => (parse_quote!((#r).as_slice()), Ty::Ref(Box::new(Ty::Arr(Box::new(t.arg(0)))))),
            ("as_ref", 0) => (parse_quote!((#r).as_ref()), map_args(&t, |x| Ty::Ref(Box::new(x)))),
            ("as_mut", 0) => return err("as_mut"),
            ("into", 0) => (parse_quote!(crate::ext::cv(#r)), Ty::Unk),
            ("try_into", 0) => (parse_quote!(crate::ext::tcv(#r)), Ty::result(Ty::Unk, Ty::Unk)),
            ("unwrap" | "expect", 0 | 1) => {
                if self.traps {
                    let e = self.envx(1)?;
                    (parse_quote!((#r).vunwrap(&*#e)), p0)
                } else {
                    (parse_quote!((#r).vunwrap()), p0)
                }
            }
            ("unwrap_or", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                (parse_quote!((#r).vunwrap_or(#d)), Ty::join(p0, dt))
            }
            ("unwrap_or_default", 0) => (parse_quote!(crate::ext::vunwrap_or_default(#r)), p0),
            ("unwrap_or_else", 1) => {
                let arity = self.clo_arity(&args[0]);
                if arity == Some(0) || (arity.is_none() && opt) {
                    let (b, bt) = self.apply(&args[0], vec![])?;
                    (parse_quote!(match #gs { Some(#v) => #v, None => #b }), Ty::join(p0, bt))
                } else {
                    let (b, bt) = self.apply(&args[0], vec![ApArg::E((ve, p1))])?;
                    (parse_quote!(match #gs { Ok(#v) => #v, Err(#v) => #b }), Ty::join(p0, bt))
                }
            }
            ("ok_or", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                let (d, wrap) = self.eager(d);
                (wrap(gs, &|gs| parse_quote!(match #gs { Some(#v) => Ok(#v), None => Err(#d) })), Ty::result(p0, dt))
            }
            ("ok_or_else", 1) => {
                let (d, dt) = self.apply(&args[0], vec![])?;
                (parse_quote!(match #gs { Some(#v) => Ok(#v), None => Err(#d) }), Ty::result(p0, dt))
            }
            ("ok", 0) => (parse_quote!(match #gs { Ok(#v) => Some(#v), Err(_) => None }), Ty::option(p0)),
            ("err", 0) => (parse_quote!(match #gs { Ok(_) => None, Err(#v) => Some(#v) }), Ty::option(p1)),
            ("map_err", 1) => {
                let (b, bt) = self.apply(&args[0], vec![ApArg::E((ve, p1))])?;
                (parse_quote!(match #gs { Ok(#v) => Ok(#v), Err(#v) => Err(#b) }), Ty::result(p0, bt))
            }
            ("map", 1) => {
                let (b, bt) = self.apply(&args[0], vec![ApArg::E((ve, p0))])?;
                if opt {
                    (parse_quote!(match #gs { Some(#v) => Some(#b), None => None }), Ty::option(bt))
                } else {
                    (parse_quote!(match #gs { Ok(#v) => Ok(#b), Err(#v) => Err(#v) }), Ty::result(bt, p1))
                }
            }
            ("and_then", 1) => {
                let (b, bt) = self.apply(&args[0], vec![ApArg::E((ve, p0))])?;
                if opt {
                    (parse_quote!(match #gs { Some(#v) => #b, None => None }), bt)
                } else {
                    (parse_quote!(match #gs { Ok(#v) => #b, Err(#v) => Err(#v) }), Ty::result(bt.arg(0), Ty::join(p1, bt.arg(1))))
                }
            }
            ("or_else", 1) => {
                let arity = self.clo_arity(&args[0]);
                if arity == Some(0) || (arity.is_none() && opt) {
                    let (b, bt) = self.apply(&args[0], vec![])?;
                    (parse_quote!(match #gs { Some(#v) => Some(#v), None => #b }), Ty::join(t.clone(), bt))
                } else {
                    let (b, bt) = self.apply(&args[0], vec![ApArg::E((ve, p1))])?;
                    (parse_quote!(match #gs { Ok(#v) => Ok(#v), Err(#v) => #b }), bt)
                }
            }
            ("or", 1) => {
                let (d, _) = self.ex(&args[0])?;
                let (d, wrap) = self.eager(d);
                (wrap(gs, &|gs| if opt { parse_quote!(match #gs { Some(#v) => Some(#v), None => #d }) } else { parse_quote!(match #gs { Ok(#v) => Ok(#v), Err(_) => #d }) }), t.clone())
            }
            ("map_or", 2) => {
                let (d, dt) = self.ex(&args[0])?;
                let (b, bt) = self.apply(&args[1], vec![ApArg::E((ve, p0))])?;
                let (d, wrap) = self.eager(d);
                (wrap(gs, &|gs| if opt { parse_quote!(match #gs { Some(#v) => #b, None => #d }) } else { parse_quote!(match #gs { Ok(#v) => #b, Err(_) => #d }) }), Ty::join(dt, bt))
            }
            ("map_or_else", 2) if opt => {
                let (d, dt) = self.apply(&args[0], vec![])?;
                let (b, bt) = self.apply(&args[1], vec![ApArg::E((ve, p0))])?;
                (parse_quote!(match #gs { Some(#v) => #b, None => #d }), Ty::join(dt, bt))
            }
            ("filter", 1) if t.is_option() => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((parse_quote!(&#v), Ty::Ref(Box::new(p0))))])?;
                (parse_quote!(match #gs { Some(#v) => if #b { Some(#v) } else { None }, None => None }), t.clone())
            }
            ("is_some_and", 1) => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((ve, p0))])?;
                (parse_quote!(match #gs { Some(#v) => #b, None => false }), boolty())
            }
            ("is_none_or", 1) => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((ve, p0))])?;
                (parse_quote!(match #gs { Some(#v) => #b, None => true }), boolty())
            }
            ("is_ok_and", 1) => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((ve, p0))])?;
                (parse_quote!(match #gs { Ok(#v) => #b, Err(_) => false }), boolty())
            }
            ("is_err_and", 1) => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((ve, p1))])?;
                (parse_quote!(match #gs { Ok(_) => false, Err(#v) => #b }), boolty())
            }
            ("and", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                let (d, wrap) = self.eager(d);
                if opt {
                    (wrap(gs, &|gs| parse_quote!(match #gs { Some(_) => #d, None => None })), dt)
                } else {
                    (wrap(gs, &|gs| parse_quote!(match #gs { Ok(_) => #d, Err(#v) => Err(#v) })), Ty::join(Ty::result(Ty::Unk, p1), dt))
                }
            }
            ("zip", 1) if t.is_option() => {
                let (d, dt) = self.ex(&args[0])?;
                let w = self.fresh("x");
                (parse_quote!(match (#gs, #d) { (Some(#v), Some(#w)) => Some((#v, #w)), _ => None }), Ty::option(Ty::Tup(vec![p0, dt.arg(0)])))
            }
            ("xor", 1) if t.is_option() => {
                let (d, _) = self.ex(&args[0])?;
                let w = self.fresh("x");
                (parse_quote!(match (#gs, #d) { (Some(#v), None) => Some(#v), (None, Some(#w)) => Some(#w), _ => None }), t.clone())
            }
            ("inspect", 1) if t.is_option() || t.is_result() => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((parse_quote!(&#v), Ty::Ref(Box::new(p0))))])?;
                if opt { (parse_quote!(match #gs { Some(#v) => { #b; Some(#v) } None => None }), t.clone()) } else { (parse_quote!(match #gs { Ok(#v) => { #b; Ok(#v) } Err(#v) => Err(#v) }), t.clone()) }
            }
            ("inspect_err", 1) => {
                let (b, _) = self.apply(&args[0], vec![ApArg::E((parse_quote!(&#v), Ty::Ref(Box::new(p1))))])?;
                (parse_quote!(match #gs { Ok(#v) => Ok(#v), Err(#v) => { #b; Err(#v) } }), t.clone())
            }
            ("map_or_else", 2) => {
                let (d, dt) = self.apply(&args[0], vec![ApArg::E((ve.clone(), p1))])?;
                let (b, bt) = self.apply(&args[1], vec![ApArg::E((ve, p0))])?;
                (parse_quote!(match #gs { Ok(#v) => #b, Err(#v) => #d }), Ty::join(dt, bt))
            }
            ("take", 0) if t.is_option() => (parse_quote!(crate::ext::opt_take(&mut #r)), t.peel().clone()),
            ("get_or_insert_with" | "get_or_insert" | "insert", 1) if t.is_option() => {
                let (d, _) = if n == "get_or_insert_with" { self.apply(&args[0], vec![])? } else { self.ex(&args[0])? };
                let (o, k) = (self.fresh("o"), self.fresh("k"));
                let b: Expr = match n.as_str() {
                    "get_or_insert_with" => parse_quote!(if (*#o).is_none() { *#o = Some(#d); }),
                    "get_or_insert" => parse_quote!({ let #k = #d; if (*#o).is_none() { *#o = Some(#k); } }),
                    _ => parse_quote!({ *#o = Some(#d); }),
                };
                let m: Expr = if t.is_ref() { parse_quote!(&mut *#r) } else { parse_quote!(&mut #r) };
                (parse_quote!({ let #o = #m; #b; crate::ext::opt_slot(#o) }), Ty::Ref(Box::new(p0)))
            }
            ("replace", 1) if t.is_option() => {
                let (d, _) = self.ex(&args[0])?;
                (parse_quote!(crate::ext::opt_replace(&mut #r, #d)), t.peel().clone())
            }
            ("cmp", 1) => {
                let (d, _) = self.ex(&args[0])?;
                let l: Expr = if t.is_ref() { parse_quote!(*#r) } else { r };
                (parse_quote!(crate::ext::vcmp(#l, *(#d))), Ty::Adt("crate::ext::xstd::cmp::Ordering".into(), vec![]))
            }
            ("lt" | "le" | "gt" | "ge", 1) if matches!(t.peel(), Ty::Int(_)) => {
                let (d, _) = self.ex(&args[0])?;
                let l: Expr = if t.is_ref() { parse_quote!(*#r) } else { r };
                let d: Expr = parse_quote!(*(#d));
                (match n.as_str() { "lt" => parse_quote!((#l < #d)), "le" => parse_quote!((#l <= #d)), "gt" => parse_quote!((#l > #d)), _ => parse_quote!((#l >= #d)) }, boolty())
            }
            ("abs_diff", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                let l: Expr = if t.is_ref() { parse_quote!(*#r) } else { r };
                let w = self.fresh("x");
                (parse_quote!(match (#l, #d) { (#v, #w) => if #v >= #w { #v - #w } else { #w - #v } }), Ty::join(t.peel().clone(), dt))
            }
            ("clamp", 2) if matches!((self.const_eval(&args[0]), self.const_eval(&args[1])), (Some(a), Some(b)) if a <= b) => {
                let (a, _) = self.ex(&args[0])?;
                let (b, _) = self.ex(&args[1])?;
                let l: Expr = if t.is_ref() { parse_quote!(*#r) } else { r };
                (parse_quote!((#l).vmax(#a).vmin(#b)), t.peel().clone())
            }
            ("is_some", 0) => (parse_quote!((#r).is_some()), boolty()),
            ("is_none", 0) => (parse_quote!((#r).is_none()), boolty()),
            ("is_ok", 0) => (parse_quote!((#r).is_ok()), boolty()),
            ("is_err", 0) => (parse_quote!((#r).is_err()), boolty()),
            ("then_some", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                let (d, wrap) = self.eager(d);
                (wrap(gs, &|gs| parse_quote!(if #gs { Some(#d) } else { None })), Ty::option(dt))
            }
            ("then", 1) => {
                let (d, dt) = self.apply(&args[0], vec![])?;
                (parse_quote!(if #gs { Some(#d) } else { None }), Ty::option(dt))
            }
            ("saturating_add" | "saturating_sub" | "saturating_mul" | "wrapping_add" | "wrapping_sub" | "min" | "max", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                let mi = ident(&format!("v{n}"));
                let lt = Ty::join(t.peel().clone(), dt);
                let r = typed_lit(r, &lt);
                let l: Expr = if t.is_ref() { parse_quote!(*#r) } else { r };
                (parse_quote!((#l).#mi(#d)), lt)
            }
            ("checked_add" | "checked_sub" | "checked_mul", 1) => {
                let (d, dt) = self.ex(&args[0])?;
                let mi = ident(&format!("v{n}"));
                let lt = Ty::join(t.peel().clone(), dt);
                let r = typed_lit(r, &lt);
                let l: Expr = if t.is_ref() { parse_quote!(*#r) } else { r };
                (parse_quote!((#l).#mi(#d)), Ty::option(lt))
            }
            ("transpose", 0) if t.is_option() => {
                let (w, e) = (self.fresh("x"), self.fresh("x"));
                (parse_quote!(match #gs { None => Ok(None), Some(Ok(#w)) => Ok(Some(#w)), Some(Err(#e)) => Err(#e) }), Ty::result(Ty::option(p0.arg(0)), p0.arg(1)))
            }
            ("transpose", 0) if t.is_result() => {
                let (w, e) = (self.fresh("x"), self.fresh("x"));
                (parse_quote!(match #gs { Ok(None) => None, Ok(Some(#w)) => Some(Ok(#w)), Err(#e) => Some(Err(#e)) }), Ty::option(Ty::result(p0.arg(0), p1.clone())))
            }
            ("next", 0) if t.adt().map(|a| a.ends_with("GIter")).unwrap_or(false) => (parse_quote!(crate::ext::VIter::vnext(&mut #r)), Ty::option(t.peel().arg(0))),
            ("append", 1) if t.adt() == Some("Vec") => {
                let (d, _) = self.ex(&args[0])?;
                (parse_quote!((#r).append(#d)), Ty::unit())
            }
            ("extend", 1) if t.adt() == Some("Vec") => {
                let (base, stages) = chain(&args[0]);
                let mut f = |_: &mut Gen, _: usize, x: Expr, _: Ty| Ok(parse_quote!({ (#r).push(#x); }));
                (self.each(&base, &stages, &mut f)?.0, Ty::unit())
            }
            ("extend", 1) if t.adt().map(|a| a.ends_with("collections::BTreeMap")).unwrap_or(false) => {
                let (k, y) = (self.fresh("x"), self.fresh("x"));
                if let Some(elems) = self.const_array(&args[0])? {
                    let xs: Vec<Expr> = elems.into_iter().map(|x| x.0).collect();
                    return Ok((parse_quote!({ #(match #xs { (#k, #y) => { let _ = (#r).insert(#k, #y); } })* }), Ty::unit()));
                }
                let (base, stages) = chain(&args[0]);
                if stages.is_empty() {
                    if let Ok((o, ot)) = self.ex(&base) {
                        if ot.is_option() && !ot.is_ref() {
                            let o = guard_struct(o);
                            return Ok((parse_quote!(match #o { Some((#k, #y)) => { let _ = (#r).insert(#k, #y); } None => {} }), Ty::unit()));
                        }
                    }
                }
                let mut f = |_: &mut Gen, _: usize, x: Expr, _: Ty| Ok(parse_quote!({ match #x { (#k, #y) => { let _ = (#r).insert(#k, #y); } } }));
                (self.each(&base, &stages, &mut f)?.0, Ty::unit())
            }
            ("is_zero", 0) => (parse_quote!((#r).is_zero()), boolty()),
            ("eq" | "ne", 1) => {
                let (d, _) = self.ex(&args[0])?;
                let e: Expr = parse_quote!((#r).veq(#d));
                if n == "ne" { (parse_quote!((!(#e))), boolty()) } else { (e, boolty()) }
            }
            ("range", 1) if t.adt().map(|a| a.ends_with("StableBTreeMap")).unwrap_or(false) => {
                let (x, it) = self.ex_iter(&Expr::MethodCall(m.clone()))?;
                (x, Ty::Adt("crate::ext::GIter".into(), vec![it]))
            }
            ("as_deref", 0) if t.is_option() && p0.adt() == Some("Vec") => {
                let r: Expr = if t.is_ref() { r } else { parse_quote!(&#r) };
                (parse_quote!(crate::ext::opt_slice(#r)), Ty::option(Ty::Ref(Box::new(Ty::Arr(Box::new(p0.arg(0)))))))
            }
            ("as_deref", 0) if t.is_option() && p0.adt() == Some("crate::ext::Str") => (parse_quote!(match #gs { Some(ref #v) => Some(#v.dup()), None => None }), Ty::option(strty())),
            ("last" | "first", 0) if matches!(t.peel(), Ty::Arr(_)) => {
                let et = match t.peel() { Ty::Arr(x) => (**x).clone(), _ => Ty::Unk };
                let f = ident(&format!("s{n}"));
                (parse_quote!(crate::ext::#f(#r)), Ty::option(Ty::Ref(Box::new(et))))
            }
            ("get", 1) if matches!(t.peel(), Ty::Arr(_)) => {
                let (i, _) = self.ex(&args[0])?;
                let et = match t.peel() { Ty::Arr(x) => (**x).clone(), _ => Ty::Unk };
                (parse_quote!(crate::ext::sget(#r, #i)), Ty::option(Ty::Ref(Box::new(et))))
            }
            ("push", 1) if t.adt() == Some("Vec") || t == Ty::Unk => {
                let (d, _) = self.ex(&args[0])?;
                (parse_quote!((#r).push(#d)), Ty::unit())
            }
            ("len", 0) if t.adt() == Some("Vec") || matches!(t.peel(), Ty::Arr(_)) => (parse_quote!((#r).len()), Ty::Int("usize".into())),
            ("is_empty", 0) if t.adt() == Some("Vec") || matches!(t.peel(), Ty::Arr(_)) => (parse_quote!(((#r).len() == 0)), boolty()),
            _ => {
                return err(format!("unsupported method .{n}() on {:?}", t));
            }
        })
    }

    /// `X.iter()` / `X` where X is a constant array: its elements
    fn const_array(&mut self, e: &Expr) -> R<Option<Vec<TE>>> {
        let base = match strip(e) {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => strip(&m.receiver).clone(),
            x => x.clone(),
        };
        match &base {
            Expr::Path(p) => {
                if p.path.get_ident().map(|i| self.look(&i.to_string()).is_some()).unwrap_or(false) {
                    return Ok(None);
                }
                if let Some((_, c)) = self.const_item(p) {
                    let fr = Frame { module: c.module.clone(), scopes: vec![HashMap::new()], ..Default::default() };
                    let mut arr = strip(&c.expr).clone();
                    if let Expr::Reference(r) = &arr {
                        arr = strip(&r.expr).clone();
                    }
                    if let Expr::Array(a) = arr {
                        let save = self.cur;
                        self.frames.push(fr);
                        self.cur = self.frames.len() - 1;
                        let r: R<Vec<TE>> = a.elems.iter().map(|x| self.ex(x)).collect();
                        self.frames.pop();
                        self.cur = save;
                        return Ok(Some(r?));
                    }
                }
                Ok(None)
            }
            Expr::Array(a) => {
                let r: R<Vec<TE>> = a.elems.iter().map(|x| self.ex(x)).collect();
                Ok(Some(r?))
            }
            _ => Ok(None),
        }
    }
}

/// evaluating it has no effect and cannot fail
fn still(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => still(&f.base),
        Expr::Reference(r) => still(&r.expr),
        Expr::Paren(r) => still(&r.expr),
        Expr::Group(r) => still(&r.expr),
        Expr::Cast(r) => still(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(still),
        Expr::Array(t) => t.elems.iter().all(still),
        Expr::Struct(s) => s.fields.iter().all(|f| still(&f.expr)),
        Expr::Call(c) => c.args.iter().all(still) && match &*c.func {
            Expr::Path(p) => {
                let f = p.path.segments.last().unwrap().ident.to_string();
                f.chars().next().unwrap().is_uppercase() || ["fmt_str", "cv", "lit", "zeros32", "zeros32_ref", "default_"].contains(&f.as_str())
            }
            _ => false,
        },
        Expr::MethodCall(m) => ["dup", "clone", "as_ref"].contains(&m.method.to_string().as_str()) && m.args.is_empty() && still(&m.receiver),
        Expr::Block(b) => b.block.stmts.iter().all(|s| match s { Stmt::Expr(e, _) => still(e), Stmt::Local(l) => matches!(l.pat, Pat::Wild(_)) && l.init.as_ref().map(|i| still(&i.expr)).unwrap_or(true), _ => false }),
        _ => false,
    }
}

#[derive(Clone)]
pub enum ApArg {
    E(TE),
    Cell,
}

enum Stage { Map(Expr), Filter(Expr), FilterMap(Expr), MapWhile(Expr), TakeWhile(Expr), SkipWhile(Expr), Take(Expr), Skip(Expr), Inspect(Expr), Enumerate, Copied }
/// not every item it gets is passed on
fn drops(s: &Stage) -> bool {
    !matches!(s, Stage::Map(_) | Stage::Inspect(_) | Stage::Enumerate | Stage::Copied)
}
/// written as an iterator
fn is_source(e: &Expr) -> bool {
    match strip(e) {
        Expr::MethodCall(c) => c.args.is_empty() && ["iter", "into_iter"].contains(&c.method.to_string().as_str()) || (c.method == "chain" && c.args.len() == 1 || c.method == "flatten" && c.args.is_empty()) && is_source(&c.receiver),
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments.iter().nth_back(1).unwrap().ident == "iter" && ["once", "empty"].contains(&p.path.segments.last().unwrap().ident.to_string().as_str())),
        _ => false,
    }
}
/// `break` out of a copy of a loop body that stands on its own: note it (every break is the last thing done)
fn unbreak(e: &mut Expr, stop: &Ident) -> bool {
    use syn::visit_mut::VisitMut;
    struct V<'a>(&'a Ident, bool);
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(b) if b.label.is_none() => {
                    let s = self.0;
                    *e = parse_quote!(#s = true);
                    self.1 = true;
                }
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
                _ => syn::visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let mut v = V(stop, false);
    v.visit_expr_mut(e);
    v.1
}
/// the adaptors applied to an iterator, and what is below them
fn chain(e: &Expr) -> (Expr, Vec<Stage>) {
    if let Expr::MethodCall(m) = strip(e) {
        let isiter = |e: &Expr| { let (b, s) = chain(e); !s.is_empty() || is_source(&b) || matches!(strip(&b), Expr::MethodCall(c) if c.method == "range") || matches!(strip(&b), Expr::Range(_)) };
        let st = match (m.method.to_string().as_str(), m.args.len()) {
            ("map", 1) if isiter(&m.receiver) => Some(Stage::Map(m.args[0].clone())),
            ("filter", 1) if isiter(&m.receiver) => Some(Stage::Filter(m.args[0].clone())),
            ("filter_map", 1) if isiter(&m.receiver) => Some(Stage::FilterMap(m.args[0].clone())),
            ("take_while", 1) if isiter(&m.receiver) => Some(Stage::TakeWhile(m.args[0].clone())),
            ("map_while", 1) if isiter(&m.receiver) => Some(Stage::MapWhile(m.args[0].clone())),
            ("skip_while", 1) if isiter(&m.receiver) => Some(Stage::SkipWhile(m.args[0].clone())),
            ("skip", 1) if isiter(&m.receiver) => Some(Stage::Skip(m.args[0].clone())),
            ("inspect", 1) if isiter(&m.receiver) => Some(Stage::Inspect(m.args[0].clone())),
            ("take", 1) if isiter(&m.receiver) => Some(Stage::Take(m.args[0].clone())),
            ("enumerate", 0) if isiter(&m.receiver) && !chain(&m.receiver).1.iter().any(drops) => Some(Stage::Enumerate),
            ("copied" | "cloned", 0) if isiter(&m.receiver) => Some(Stage::Copied),
            _ => None,
        };
        if let Some(st) = st {
            let (b, mut v) = chain(&m.receiver);
            v.push(st);
            return (b, v);
        }
    }
    (e.clone(), vec![])
}

/// does the block leave or continue the loop it is the body of?
fn has_jump(b: &Block) -> bool {
    use syn::visit::Visit;
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true; }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
        fn visit_item(&mut self, _: &'a Item) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}
fn binds(p: &Pat) -> Vec<String> {
    fn go(ts: proc_macro2::TokenStream, v: &mut Vec<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => v.push(i.to_string()),
                proc_macro2::TokenTree::Group(g) => go(g.stream(), v),
                _ => {}
            }
        }
    }
    let mut v = vec![];
    go(p.to_token_stream(), &mut v);
    v
}
fn mentions(ts: proc_macro2::TokenStream, n: &str) -> bool {
    ts.into_iter().any(|t| match t {
        proc_macro2::TokenTree::Ident(i) => i == n,
        proc_macro2::TokenTree::Group(g) => mentions(g.stream(), n),
        _ => false,
    })
}
fn map_args(t: &Ty, f: impl Fn(Ty) -> Ty) -> Ty {
    match t.peel() {
        Ty::Adt(n, a) => Ty::Adt(n.clone(), a.iter().cloned().map(f).collect()),
        x => x.clone(),
    }
}
fn typed_lit(e: Expr, t: &Ty) -> Expr {
    if let (Expr::Lit(ExprLit { lit: Lit::Int(i), .. }), Ty::Int(n)) = (&e, t) {
        if i.suffix().is_empty() && n != "int" {
            return syn::parse_str(&format!("{}{}", i.base10_digits(), n)).unwrap_or(e);
        }
    }
    e
}
fn clean(t: Ty, generics: &[String]) -> Ty {
    match t {
        Ty::Adt(n, a) => {
            if a.is_empty() && generics.contains(&n) {
                return Ty::Unk;
            }
            Ty::Adt(n, a.into_iter().map(|x| clean(x, generics)).collect())
        }
        Ty::Ref(x) => Ty::Ref(Box::new(clean(*x, generics))),
        Ty::Arr(x) => Ty::Arr(Box::new(clean(*x, generics))),
        Ty::Tup(v) => Ty::Tup(v.into_iter().map(|x| clean(x, generics)).collect()),
        t => t,
    }
}
pub fn strip_ref(e: Expr) -> Expr {
    match e {
        Expr::Reference(r) => strip_ref(*r.expr),
        Expr::Paren(p) => strip_ref(*p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => strip_ref(*expr),
        e => e,
    }
}
/// parenthesise nothing: struct literals are already emitted in parentheses
pub fn guard_struct(e: Expr) -> Expr {
    e
}
pub fn has_clo_params(s: &Signature) -> bool {
    s.inputs.iter().any(|a| match a {
        FnArg::Typed(p) => is_clo_type(&p.ty, &s.generics),
        _ => false,
    })
}
pub fn is_clo_type(t: &Type, g: &Generics) -> bool {
    let fnb = |b: &TypeParamBound| matches!(b, TypeParamBound::Trait(t) if ["Fn", "FnMut", "FnOnce"].contains(&t.path.segments.last().unwrap().ident.to_string().as_str()));
    match t {
        Type::ImplTrait(i) => i.bounds.iter().any(fnb),
        Type::Path(p) => {
            if let Some(id) = p.path.get_ident() {
                for tp in g.type_params() {
                    if tp.ident == *id && tp.bounds.iter().any(fnb) {
                        return true;
                    }
                }
                if let Some(w) = &g.where_clause {
                    for p in &w.predicates {
                        if let WherePredicate::Type(pt) = p {
                            if pt.bounded_ty.to_token_stream().to_string() == id.to_string() && pt.bounds.iter().any(fnb) {
                                return true;
                            }
                        }
                    }
                }
            }
            false
        }
        _ => false,
    }
}
#[allow(dead_code)]
fn unused() {
    let _ = INTS;
    let _: Option<Contract> = None;
}
