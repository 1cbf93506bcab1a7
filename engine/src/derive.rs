//! Preparation of the derive macro's code generator for the extraction.
//! Everything here is a desugaring, a renaming, or the replacement of one exact quoted template by a
//! call whose contract (trusted) states what the template means; a template not in the table gets no meaning.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr};

#[derive(Default)]
pub struct Prep {
    /// canonical template text -> expansion with `$0`, `$1`, …
    pub templates: BTreeMap<String, String>,
    pub unknown: Vec<String>,
    pub used: BTreeMap<String, usize>,
    hoisted: Vec<syn::ItemFn>,
    /// the method being visited, and how many closures deep
    method: Option<String>,
    /// variables that hold the result of checked arithmetic
    checked: Vec<String>,
    depth: usize,
}

/// Tokens in a canonical form, interpolated variables numbered by first occurrence.
fn canon(ts: TokenStream, vars: &mut Vec<String>, out: &mut Vec<String>) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '#' => match it.peek() {
                Some(TokenTree::Ident(i)) => {
                    let n = i.to_string();
                    it.next();
                    let k = vars.iter().position(|v| *v == n).unwrap_or_else(|| {
                        vars.push(n);
                        vars.len() - 1
                    });
                    out.push(format!("${k}"));
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    out.push("#(".into());
                    let g = g.stream();
                    it.next();
                    canon(g, vars, out);
                    out.push("#)".into());
                }
                _ => out.push("#".into()),
            },
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                out.push(a.into());
                canon(g.stream(), vars, out);
                out.push(b.into());
            }
            t => out.push(t.to_string()),
        }
    }
}

impl Prep {
    pub fn load(text: &str) -> Prep {
        let mut p = Prep::default();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with("//") {
                continue;
            }
            let (a, b) = l.split_once(" ==> ").unwrap_or_else(|| panic!("template line: {l}"));
            p.templates.insert(a.trim().to_string(), b.trim().to_string());
        }
        p
    }

    fn template(&mut self, kind: &str, toks: TokenStream) -> Expr {
        let mut vars = vec![];
        let mut out = vec![];
        canon(toks, &mut vars, &mut out);
        let key = format!("{kind} {}", out.join(" "));
        match self.templates.get(&key) {
            Some(x) => {
                *self.used.entry(key).or_default() += 1;
                let mut s = x.clone();
                for (i, v) in vars.iter().enumerate().rev() {
                    s = s.replace(&format!("${i}"), v);
                }
                syn::parse_str(&s).unwrap_or_else(|e| panic!("template expansion {s}: {e}"))
            }
            None => {
                self.unknown.push(key);
                parse_quote!(crate::q::unknown())
            }
        }
    }

    pub fn file(&mut self, f: &mut syn::File) {
        f.items.retain(|i| !matches!(i, syn::Item::Mod(m) if crate::extract::has_cfg_test(&m.attrs)));
        // What these import (macros, the `span` method) has been replaced by name below.
        f.items.retain(|i| !matches!(i, syn::Item::Use(u) if { let t = u.tree.to_token_stream().to_string(); t.starts_with("quote") || t.contains("Spanned") }));
        self.visit_file_mut(f);
        for h in std::mem::take(&mut self.hoisted) {
            f.items.push(syn::Item::Fn(h));
        }
    }
}

/// One slice pattern: number of leading elements with their names, and the name of the rest, if any.
fn slice_pat(p: &syn::Pat) -> Option<(Vec<Option<syn::Ident>>, Option<Option<syn::Ident>>)> {
    let syn::Pat::Slice(s) = p else { return None };
    let mut elems = vec![];
    let mut rest = None;
    for e in &s.elems {
        if rest.is_some() {
            return None;
        }
        match e {
            syn::Pat::Wild(_) => elems.push(None),
            syn::Pat::Rest(_) => rest = Some(None),
            syn::Pat::Ident(i) => match &i.subpat {
                None => elems.push(Some(i.ident.clone())),
                Some((_, p)) if matches!(**p, syn::Pat::Rest(_)) => rest = Some(Some(i.ident.clone())),
                _ => return None,
            },
            _ => return None,
        }
    }
    Some((elems, rest))
}

fn slice_match(m: &syn::ExprMatch) -> Option<Expr> {
    let scruts: Vec<Expr> = match &*m.expr {
        Expr::Tuple(t) => t.elems.iter().cloned().collect(),
        e => vec![e.clone()],
    };
    if !scruts.iter().all(|s| matches!(s, Expr::Path(_))) {
        return None;
    }
    let mut seen = false;
    let mut arms: Vec<(Vec<Expr>, Vec<syn::Stmt>, Expr)> = vec![];
    for a in &m.arms {
        if a.guard.is_some() {
            return None;
        }
        let pats: Vec<&syn::Pat> = match &a.pat {
            syn::Pat::Tuple(t) if scruts.len() > 1 && t.elems.len() == scruts.len() => t.elems.iter().collect(),
            syn::Pat::Wild(_) => vec![],
            p if scruts.len() == 1 => vec![p],
            _ => return None,
        };
        let (mut conds, mut lets): (Vec<Expr>, Vec<syn::Stmt>) = (vec![], vec![]);
        for (s, p) in scruts.iter().zip(pats) {
            if matches!(p, syn::Pat::Wild(_)) {
                continue;
            }
            let (elems, rest) = slice_pat(p)?;
            seen = true;
            let n = elems.len();
            conds.push(if rest.is_some() { parse_quote!(#s.len() >= #n) } else { parse_quote!(#s.len() == #n) });
            for (i, e) in elems.into_iter().enumerate() {
                if let Some(e) = e {
                    lets.push(parse_quote!(let #e = &#s[#i];));
                }
            }
            if let Some(Some(r)) = rest {
                lets.push(parse_quote!(let #r = crate::m::slice_from(#s, #n);));
            }
        }
        arms.push((conds, lets, (*a.body).clone()));
    }
    if !seen {
        return None;
    }
    // The compiler has checked that the match is exhaustive, so the last arm needs no condition.
    let (_, lets, body) = arms.pop()?;
    let mut e: Expr = parse_quote!({ #(#lets)* #body });
    for (conds, lets, body) in arms.into_iter().rev() {
        let c: Expr = if conds.is_empty() { parse_quote!(true) } else { parse_quote!(#(#conds)&&*) };
        e = match e {
            Expr::If(_) => parse_quote!(if #c { #(#lets)* #body } else #e),
            _ => parse_quote!(if #c { #(#lets)* #body } else #e),
        };
    }
    Some(e)
}

impl VisitMut for Prep {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // Nested functions cannot name anything of the enclosing one: moved out.
        let mut kept = vec![];
        for s in b.stmts.drain(..) {
            match s {
                syn::Stmt::Item(syn::Item::Fn(mut f)) => {
                    self.visit_item_fn_mut(&mut f);
                    self.hoisted.push(f);
                }
                syn::Stmt::Macro(m) if m.semi_token.is_none() => {
                    kept.push(syn::Stmt::Expr(Expr::Macro(syn::ExprMacro { attrs: m.attrs, mac: m.mac }), None));
                }
                s => kept.push(s),
            }
        }
        b.stmts = kept;
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if matches!(&*init.expr, Expr::MethodCall(c) if c.method.to_string().starts_with("checked_")) {
                self.checked.push(i.ident.to_string());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_return_type_mut(&mut self, r: &mut syn::ReturnType) {
        if let syn::ReturnType::Type(_, t) = r {
            if let syn::Type::ImplTrait(i) = &**t {
                let item = i.bounds.iter().find_map(|b| match b {
                    syn::TypeParamBound::Trait(t) => match &t.path.segments.last().unwrap().arguments {
                        syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                            syn::GenericArgument::AssocType(a) if a.ident == "Item" => Some(a.ty.clone()),
                            _ => None,
                        }),
                        _ => None,
                    },
                    _ => None,
                });
                if let Some(item) = item {
                    **t = parse_quote!(crate::m::It<#item>);
                }
            }
        }
        visit_mut::visit_return_type_mut(self, r);
    }

    fn visit_pat_type_mut(&mut self, p: &mut syn::PatType) {
        // Calling an `FnOnce` uses it up; here it is called through `&mut`.
        if p.ty.to_token_stream().to_string().contains("FnOnce") {
            if let syn::Pat::Ident(i) = &mut *p.pat {
                i.mutability = Some(Default::default());
            }
        }
        visit_mut::visit_pat_type_mut(self, p);
    }

    fn visit_impl_item_fn_mut(&mut self, f: &mut syn::ImplItemFn) {
        let saved = self.method.replace(f.sig.ident.to_string());
        visit_mut::visit_impl_item_fn_mut(self, f);
        self.method = saved;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let closure = matches!(e, Expr::Closure(_));
        self.depth += closure as usize;
        visit_mut::visit_expr_mut(self, e);
        self.depth -= closure as usize;
        // Recursion through a closure: Verus wants a name outside the cycle (same contract, overlay).
        if let Expr::MethodCall(m) = e {
            if self.depth > 0 && self.method.as_deref() == Some(&m.method.to_string()) && m.args.is_empty() {
                m.method = quote::format_ident!("{}__rec", m.method);
            }
        }
        let new: Option<Expr> = match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "parse_quote" | "quote" | "format" | "format_ident" => Some(self.template(&name, m.mac.tokens.clone())),
                    "parse_quote_spanned" | "quote_spanned" => {
                        // what precedes `=>` only says where errors are reported
                        let mut it = m.mac.tokens.clone().into_iter();
                        let mut prev = ' ';
                        for t in it.by_ref() {
                            let c = match &t {
                                TokenTree::Punct(p) => p.as_char(),
                                _ => ' ',
                            };
                            if prev == '=' && c == '>' {
                                break;
                            }
                            prev = c;
                        }
                        Some(self.template(name.trim_end_matches("_spanned"), it.collect()))
                    }
                    _ => None,
                }
            }
            Expr::Match(m) => slice_match(m),
            // A number that does not fit is a compile error of the declaration, not a wrong program.
            Expr::MethodCall(m) if m.method == "expect" && m.args.len() == 1 => {
                let r = &m.receiver;
                let fits = match &**r {
                    Expr::MethodCall(c) => c.method.to_string().starts_with("checked_"),
                    Expr::Path(_) => self.checked.contains(&r.to_token_stream().to_string()),
                    _ => false,
                };
                Some(if fits { parse_quote!(crate::m::expect_fits(#r)) } else { parse_quote!(crate::m::expect(#r)) })
            }
            // Spans have no meaning.
            Expr::MethodCall(m) if m.method == "span" && m.args.is_empty() => Some(parse_quote!(crate::q::sp())),
            Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "span") => Some(parse_quote!(crate::q::sp())),
            Expr::Call(c) if c.func.to_token_stream().to_string().replace(' ', "").starts_with("proc_macro2::Span::call_site") => {
                Some(parse_quote!(crate::q::sp()))
            }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "syn::parse2::<syn::DeriveInput>" => {
                let a = &c.args[0];
                Some(parse_quote!(crate::syn::parse_input(#a)))
            }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "Vec::from_iter" => {
                let a = &c.args[0];
                Some(parse_quote!(crate::m::IntoIterator::into_iter(#a).collect()))
            }
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote!(#r.iter_m()))
            }
            Expr::MethodCall(m) if m.method == "extend" && m.args.len() == 1 => {
                let (r, a) = (&m.receiver, &m.args[0]);
                Some(parse_quote!(crate::m::extend(&mut #r, #a)))
            }
            Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_some() => {
                let r = &m.receiver;
                let t = m.turbofish.to_token_stream().to_string().replace(' ', "");
                (t == "::<Vec<_>>").then(|| parse_quote!(#r.collect()))
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) => {
                let (r, f) = (&m.receiver, &m.args[0]);
                let one: Expr = parse_quote!(#r.map(|x| #f(x)));
                Some(one)
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
