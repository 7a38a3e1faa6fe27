//! Items declared inside function bodies become items of the module, under a name of their own; traits' provided
//! methods are written out in the implementations that leave them as they are.
use crate::db::has_cfg_skip;
use crate::serde::Local_;
use proc_macro2::{Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn run(items: &mut Vec<Item>, n: &mut usize) {
    let mut out = vec![];
    for it in items.iter_mut() {
        match it {
            Item::Fn(f) if !has_cfg_skip(&f.attrs) => {
                Local_(vec![]).visit_block_mut(&mut f.block);
                Blocks { n, out: &mut out }.visit_block_mut(&mut f.block)
            },
            Item::Impl(im) if !has_cfg_skip(&im.attrs) => {
                for ii in &mut im.items {
                    if let ImplItem::Fn(f) = ii {
                        Local_(vec![]).visit_block_mut(&mut f.block);
                        Blocks { n, out: &mut out }.visit_block_mut(&mut f.block);
                    }
                }
            }
            Item::Mod(m) if !has_cfg_skip(&m.attrs) => {
                if let Some((_, items)) = &mut m.content {
                    run(items, n);
                }
            }
            _ => {}
        }
    }
    items.extend(out);
    let traits: HashMap<String, Vec<TraitItemFn>> = items
        .iter()
        .filter_map(|i| match i {
            Item::Trait(t) => Some((t.ident.to_string(), t.items.iter().filter_map(|x| match x { TraitItem::Fn(f) if f.default.is_some() => Some(f.clone()), _ => None }).collect())),
            _ => None,
        })
        .collect();
    for it in items.iter_mut() {
        let Item::Impl(im) = it else { continue };
        let Some((_, p, _)) = &im.trait_ else { continue };
        let Some(fs) = p.get_ident().and_then(|i| traits.get(&i.to_string())) else { continue };
        for f in fs {
            if im.items.iter().any(|x| matches!(x, ImplItem::Fn(g) if g.sig.ident == f.sig.ident)) {
                continue;
            }
            let (sig, b) = (&f.sig, f.default.as_ref().unwrap());
            im.items.push(parse_quote!(#sig #b));
        }
    }
}

struct Blocks<'a> {
    n: &'a mut usize,
    out: &'a mut Vec<Item>,
}
fn name(i: &Item) -> Option<&Ident> {
    match i {
        Item::Fn(f) => Some(&f.sig.ident),
        Item::Struct(s) => Some(&s.ident),
        Item::Enum(s) => Some(&s.ident),
        Item::Trait(s) => Some(&s.ident),
        _ => None,
    }
}
impl VisitMut for Blocks<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let lifted = |s: &Stmt| matches!(s, Stmt::Item(i @ (Item::Fn(_) | Item::Struct(_) | Item::Enum(_) | Item::Trait(_) | Item::Impl(_))) if !skipped(i));
        if !b.stmts.iter().any(lifted) {
            return;
        }
        let mut names: HashMap<String, Ident> = HashMap::new();
        for s in &b.stmts {
            if let Stmt::Item(i) = s {
                if let (true, Some(id)) = (lifted(s), name(i)) {
                    *self.n += 1;
                    names.insert(id.to_string(), Ident::new(&format!("{id}__{}", self.n), Span::call_site()));
                }
            }
        }
        let ts = rename(b.to_token_stream(), &names);
        let Ok(mut nb) = parse2::<Block>(ts) else { return };
        let shared: Vec<Stmt> = nb.stmts.iter().filter(|s| matches!(s, Stmt::Item(Item::Use(_) | Item::Const(_)))).cloned().collect();
        let mut keep = vec![];
        for s in nb.stmts {
            if !lifted(&s) {
                keep.push(s);
                continue;
            }
            let Stmt::Item(mut i) = s else { continue };
            match &mut i {
                Item::Fn(f) => { f.block.stmts.splice(0..0, shared.clone()); }
                Item::Impl(im) => {
                    for x in &mut im.items {
                        if let ImplItem::Fn(f) = x {
                            f.block.stmts.splice(0..0, shared.clone());
                        }
                    }
                }
                _ => {}
            }
            self.out.push(i);
        }
        nb.stmts = keep;
        *b = nb;
    }
}
fn skipped(i: &Item) -> bool {
    match i {
        Item::Fn(f) => has_cfg_skip(&f.attrs),
        Item::Impl(f) => has_cfg_skip(&f.attrs),
        _ => false,
    }
}
fn rename(ts: TokenStream, names: &HashMap<String, Ident>) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in ts {
        let t = match t {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename(g.stream(), names));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            TokenTree::Ident(i) => {
                let member = match out.last() {
                    Some(TokenTree::Punct(p)) if p.as_char() == '.' => !matches!(out.iter().nth_back(1), Some(TokenTree::Punct(q)) if q.as_char() == '.'),
                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => matches!(out.iter().nth_back(1), Some(TokenTree::Punct(q)) if q.as_char() == ':'),
                    _ => false,
                };
                match names.get(&i.to_string()) {
                    Some(n) if !member => TokenTree::Ident(n.clone()),
                    _ => TokenTree::Ident(i),
                }
            }
            t => t,
        };
        out.push(t);
    }
    out.into_iter().collect()
}
