//! Normalisation of expression code into the subset the verifier accepts.
//! Every rule is a desugaring the Rust reference defines, or the naming of an
//! operation (`must`, `const_*`) whose contract states the operation's meaning.
use crate::overlay::ClosureOv;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr};

pub struct Norm<'a> {
    /// Names of associated constants that became functions.
    pub assoc_consts: &'a BTreeSet<String>,
    /// Idents of parameters of FnMut type.
    pub fn_params: BTreeSet<String>,
    /// They take a `&mut` argument.
    pub fn_ref_params: bool,
    /// A parameter is called `old`, which the specification language reserves.
    pub rename_old: bool,
    pub in_const: bool,
    pub loops: usize,
    pub closures: usize,
    pub closure_ov: &'a BTreeMap<usize, ClosureOv>,
    /// (index, pattern tokens, body tokens with captures substituted)
    pub closure_out: Vec<(usize, Vec<syn::Pat>, String)>,
    /// Methods returning a type with a Drop impl.
    pub drop_methods: &'a BTreeSet<String>,
    pub self_is_mut_ref: bool,
    pub rename_self: bool,
    pub notes: Vec<String>,
    pub problems: Vec<String>,
}

fn is_range_expr(e: &Expr) -> bool {
    match e {
        Expr::Range(_) => true,
        Expr::Paren(p) => is_range_expr(&p.expr),
        _ => false,
    }
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        e => e,
    }
}

fn is_ctor(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p
            .path
            .segments
            .last()
            .map(|s| s.ident.to_string().chars().next().unwrap().is_uppercase())
            .unwrap_or(false),
        _ => false,
    }
}

/// Receiver chains that produce iterators rather than options.
fn is_iter_chain(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            matches!(
                n.as_str(),
                "into_iter" | "iter" | "iter_m" | "iter_mut" | "all_values" | "zip" | "rev" | "enumerate"
                    | "keys" | "values" | "values_mut" | "drain" | "chars" | "by_ref"
            ) || (matches!(n.as_str(), "map" | "copied" | "cloned" | "take" | "skip" | "chain") && is_iter_chain(&m.receiver))
        }
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p
                .path
                .segments
                .last()
                .map(|s| s.ident == "all_values" || s.ident == "into_iter")
                .unwrap_or(false),
            _ => false,
        },
        _ => false,
    }
}

impl<'a> Norm<'a> {
    fn path_is_assoc_const(&self, p: &syn::ExprPath) -> bool {
        let n = p.path.segments.len();
        if n < 2 && p.qself.is_none() {
            return false;
        }
        let last = p.path.segments.last().unwrap();
        if !self.assoc_consts.contains(&last.ident.to_string()) {
            return false;
        }
        // Constants of primitive types keep their meaning.
        if p.qself.is_none() && n == 2 {
            let first = p.path.segments[0].ident.to_string();
            if matches!(
                first.as_str(),
                "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64"
                    | "i128" | "isize" | "char"
            ) {
                return false;
            }
        }
        true
    }

    fn subst_captures(&self, body: &mut Expr, caps: &[String]) {
        struct S<'b>(&'b [String]);
        impl<'b> VisitMut for S<'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Path(p) = e {
                    if p.qself.is_none() && p.path.segments.len() == 1 {
                        let n = p.path.segments[0].ident.to_string();
                        if self.0.contains(&n) {
                            let f = format_ident!("{}", if n == "self" { "self_".into() } else { n });
                            *e = parse_quote!(self.#f);
                        }
                    }
                }
            }
        }
        S(caps).visit_expr_mut(body);
    }
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<syn::Stmt> = Vec::new();
        for s in b.stmts.drain(..) {
            // macro statements
            if let syn::Stmt::Macro(m) = &s {
                let e: Expr = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                out.push(syn::Stmt::Expr(e, m.semi_token));
                continue;
            }
            if let syn::Stmt::Item(i) = &s {
                self.problems.push(format!(
                    "nested item in a body: {}",
                    i.to_token_stream().to_string().chars().take(60).collect::<String>()
                ));
            }
            out.push(s);
        }
        b.stmts = out;
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            // Temporaries with a destructor, dropped at the end of the statement.
            if let syn::Stmt::Expr(e, Some(semi)) = s {
                if let Expr::MethodCall(m) = e {
                    if self.drop_methods.contains(&m.method.to_string()) {
                        let e2 = e.clone();
                        self.notes.push("drop of a temporary made explicit".into());
                        *s = syn::Stmt::Expr(
                            parse_quote!({ let mut __tmp = #e2; __tmp.drop__body(); }),
                            Some(*semi),
                        );
                    }
                }
            }
            let _ = (i, n);
        }
        // attributes on statements are dropped
        for s in &mut b.stmts {
            if let syn::Stmt::Local(l) = s {
                l.attrs.clear();
            }
        }
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Pre-order: loops get numbered in source order; some forms are rewritten before descent.
        match e {
            Expr::ForLoop(f) => {
                let idx = self.loops;
                self.loops += 1;
                let mut pat = (*f.pat).clone();
                let mut expr = (*f.expr).clone();
                let mut body = f.body.clone();
                let label = f.label.clone();
                self.visit_pat_mut(&mut pat);
                self.visit_expr_mut(&mut expr);
                self.visit_block_mut(&mut body);
                self.notes.push("for loop desugared".into());
                let it = format_ident!("it{}", idx);
                let its = format_ident!("it{}_0", idx);
                let by_ref = matches!(&expr, Expr::Path(p) if p.path.is_ident("self")) && self.self_is_mut_ref;
                if by_ref {
                    *e = parse_quote!({
                        #label loop {
                            __loop_spec!(#idx);
                            match crate::m::Iterator::next(self) {
                                core::option::Option::None => break,
                                core::option::Option::Some(#pat) => #body
                            }
                        }
                    });
                } else {
                    *e = parse_quote!({
                        let mut #it = crate::m::IntoIterator::into_iter(#expr);
                        __raw! { let ghost #its = #it; }
                        #label loop {
                            __loop_spec!(#idx);
                            match crate::m::Iterator::next(&mut #it) {
                                core::option::Option::None => break,
                                core::option::Option::Some(#pat) => #body
                            }
                        }
                    });
                }
                return;
            }
            Expr::While(w) => {
                let idx = self.loops;
                self.loops += 1;
                let label = w.label.clone();
                if let Expr::Let(l) = &*w.cond {
                    let mut pat = (*l.pat).clone();
                    let mut expr = (*l.expr).clone();
                    let mut body = w.body.clone();
                    self.visit_pat_mut(&mut pat);
                    self.visit_expr_mut(&mut expr);
                    self.visit_block_mut(&mut body);
                    self.notes.push("while let desugared".into());
                    *e = parse_quote!(#label loop {
                        __loop_spec!(#idx);
                        match #expr { #pat => #body _ => break }
                    });
                } else {
                    visit_mut::visit_expr_while_mut(self, w);
                    w.body.stmts.insert(0, parse_quote!(__loop_spec!(#idx);));
                }
                return;
            }
            Expr::Loop(l) => {
                let idx = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, l);
                l.body.stmts.insert(0, parse_quote!(__loop_spec!(#idx);));
                return;
            }
            Expr::Index(ix) if is_range_expr(&ix.index) => {
                if let Expr::Range(r) = strip_paren(&ix.index) {
                    let base = (*ix.expr).clone();
                    let (a, b) = (r.start.clone(), r.end.clone());
                    let excl = matches!(r.limits, syn::RangeLimits::HalfOpen(_));
                    if excl {
                        let mut ne: Expr = match (a, b) {
                            (None, Some(b)) => parse_quote!(*crate::m::slice_to(&#base, #b)),
                            (Some(a), None) => parse_quote!(*crate::m::slice_from(&#base, #a)),
                            (Some(a), Some(b)) => parse_quote!(*crate::m::slice_range(&#base, #a, #b)),
                            (None, None) => parse_quote!(*crate::m::slice_full(&#base)),
                        };
                        self.notes.push("range index named".into());
                        visit_mut::visit_expr_mut(self, &mut ne);
                        *e = ne;
                        return;
                    }
                }
            }
            Expr::Const(c) => {
                let saved = self.in_const;
                self.in_const = true;
                let mut block = c.block.clone();
                self.visit_block_mut(&mut block);
                self.in_const = saved;
                self.notes.push("const block evaluated with compile-time semantics".into());
                if block.stmts.len() == 1 {
                    if let syn::Stmt::Expr(x, None) = &block.stmts[0] {
                        let x = x.clone();
                        *e = parse_quote!((#x));
                        return;
                    }
                }
                *e = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block });
                return;
            }
            Expr::Closure(c) => {
                // A closure not handled by its context.
                let idx = self.closures;
                self.closures += 1;
                let ov = self.closure_ov.get(&idx).cloned();
                let mut body = (*c.body).clone();
                let pats: Vec<syn::Pat> = c.inputs.iter().cloned().collect();
                match ov {
                    Some(ov) => {
                        self.visit_expr_mut(&mut body);
                        self.subst_captures(&mut body, &ov.captures);
                        let make: Expr = syn::parse_str(&ov.make)
                            .unwrap_or_else(|x| panic!("closure make {}: {x}", ov.make));
                        self.closure_out.push((
                            idx,
                            pats,
                            crate::print::print(body.to_token_stream()),
                        ));
                        self.notes.push("closure defunctionalised".into());
                        *e = make;
                    }
                    None => {
                        self.visit_expr_mut(&mut body);
                        c.body = Box::new(body);
                        self.problems.push(format!("closure {idx} without contract"));
                    }
                }
                return;
            }
            Expr::MethodCall(m)
                if m.method == "map" && m.args.len() == 1 && !is_iter_chain(&m.receiver) =>
            {
                let recv = (*m.receiver).clone();
                let arg = m.args[0].clone();
                match strip_paren(&arg) {
                    Expr::Closure(c) if c.inputs.len() == 1 => {
                        let pat = match &c.inputs[0] {
                            syn::Pat::Type(t) => (*t.pat).clone(),
                            p => p.clone(),
                        };
                        let body = &c.body;
                        self.notes.push("Option::map unfolded".into());
                        let mut ne: Expr = parse_quote!(match #recv {
                            core::option::Option::Some(#pat) => core::option::Option::Some(#body),
                            core::option::Option::None => core::option::Option::None,
                        });
                        self.visit_expr_mut(&mut ne);
                        *e = parse_quote!((#ne));
                        return;
                    }
                    f @ Expr::Path(_) => {
                        let _ = is_ctor(f);
                        self.notes.push("Option::map unfolded".into());
                        let mut ne: Expr = parse_quote!(match #recv {
                            core::option::Option::Some(x) => core::option::Option::Some(#f(x)),
                            core::option::Option::None => core::option::Option::None,
                        });
                        self.visit_expr_mut(&mut ne);
                        *e = parse_quote!((#ne));
                        return;
                    }
                    _ => {}
                }
            }
            Expr::Call(c)
                if c.args.len() == 1
                    && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "transmute_copy") =>
            {
                let Expr::Path(p) = &*c.func else { unreachable!() };
                let ok = match &p.path.segments.last().unwrap().arguments {
                    syn::PathArguments::AngleBracketed(a) if a.args.len() == 2 => match (&a.args[0], &a.args[1]) {
                        (
                            syn::GenericArgument::Type(syn::Type::Array(x)),
                            syn::GenericArgument::Type(syn::Type::Array(y)),
                        ) => {
                            let (xe, ye) = (&x.elem, &y.elem);
                            let want: syn::Type = parse_quote!(MaybeUninit<#ye>);
                            let (xl, yl) = (&x.len, &y.len);
                            quote!(#xe).to_string() == quote!(#want).to_string()
                                && quote!(#xl).to_string() == quote!(#yl).to_string()
                        }
                        _ => false,
                    },
                    _ => false,
                };
                match &c.args[0] {
                    Expr::Reference(r) if ok && r.mutability.is_none() => {
                        let x = &r.expr;
                        let mut ne: Expr = parse_quote!(crate::m::transmute_copy(&mut #x));
                        self.notes.push("transmute_copy of slots: the values move out of them".into());
                        visit_mut::visit_expr_mut(self, &mut ne);
                        *e = ne;
                        return;
                    }
                    _ => self.problems.push("transmute_copy between other types".into()),
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if let (Expr::Range(g), true) = (strip_paren(&ix.index), r.mutability.is_some()) {
                        if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) {
                            let base = &ix.expr;
                            let mut ne: Expr = parse_quote!(crate::m::slice_range_mut(&mut #base, #a, #b));
                            self.notes.push("range index named".into());
                            visit_mut::visit_expr_mut(self, &mut ne);
                            *e = ne;
                            return;
                        }
                    }
                }
                // `&mut x[&k]` / `&x[&k]`
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if matches!(strip_paren(&ix.index), Expr::Reference(_)) {
                        let base = (*ix.expr).clone();
                        let idx = (*ix.index).clone();
                        self.notes.push("overloaded index named".into());
                        let mut ne: Expr = if r.mutability.is_some() {
                            parse_quote!(crate::m::IndexMut::index_mut(&mut #base, #idx))
                        } else {
                            parse_quote!(crate::m::Index::index(&#base, #idx))
                        };
                        visit_mut::visit_expr_mut(self, &mut ne);
                        *e = ne;
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // Post-order rewrites.
        let new: Option<Expr> = match e {
            Expr::Path(p) if self.path_is_assoc_const(p) => {
                let p = p.clone();
                Some(parse_quote!(#p()))
            }
            Expr::Path(p) if self.rename_self && p.path.is_ident("self") => {
                Some(parse_quote!(self_))
            }
            Expr::Range(r) => {
                match (&r.start, &r.end, matches!(r.limits, syn::RangeLimits::HalfOpen(_))) {
                    (Some(a), Some(b), true) => {
                        self.notes.push("range literal named".into());
                        Some(parse_quote!(crate::m::Range { start: #a, end: #b }))
                    }
                    _ => {
                        self.problems.push("unsupported range expression".into());
                        None
                    }
                }
            }
            Expr::Call(c) => match &*c.func {
                Expr::Path(p)
                    if p.qself.is_none()
                        && p.path.segments.len() == 2
                        && LIFTED.contains(&p.path.segments[1].ident.to_string().as_str()) =>
                {
                    let t = &p.path.segments[0];
                    let m = &p.path.segments[1].ident;
                    let args = &c.args;
                    self.notes.push("provided trait function lifted".into());
                    Some(parse_quote!(crate::ordinal::traits::#m::<#t>(#args)))
                }
                Expr::Path(p)
                    if p.qself.is_none()
                        && c.args.is_empty()
                        && tokens_to_string(&p.path).replace(' ', "") == "Box::default" =>
                {
                    Some(parse_quote!(crate::m::box_default()))
                }
                Expr::Path(p)
                    if p.qself.is_none()
                        && p.path.segments.len() == 1
                        && self.fn_params.contains(&p.path.segments[0].ident.to_string()) =>
                {
                    let f = &p.path;
                    let args = &c.args;
                    self.notes.push("call of a function parameter through its contract".into());
                    Some(if self.fn_ref_params {
                        parse_quote!(#f.call_r(#args))
                    } else if args.is_empty() {
                        parse_quote!(#f.call_m(()))
                    } else {
                        let a = args.iter();
                        parse_quote!(#f.call_m((#(#a,)*)))
                    })
                }
                _ => None,
            },
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match name.as_str() {
                    "assert" | "debug_assert" => {
                        let args = m
                            .mac
                            .parse_body_with(
                                syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                            )
                            .ok();
                        args.map(|a| {
                            let mut c = a[0].clone();
                            self.visit_expr_mut(&mut c);
                            if self.in_const {
                                parse_quote!(crate::m::const_assert(#c))
                            } else {
                                parse_quote!(crate::m::must(#c))
                            }
                        })
                    }
                    "assert_eq" | "debug_assert_eq" => {
                        let args = m
                            .mac
                            .parse_body_with(
                                syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                            )
                            .ok();
                        args.map(|a| {
                            let mut c: Expr = {
                                let (x, y) = (&a[0], &a[1]);
                                parse_quote!((#x) == (#y))
                            };
                            self.visit_expr_mut(&mut c);
                            if self.in_const {
                                parse_quote!(crate::m::const_assert(#c))
                            } else {
                                parse_quote!(crate::m::must(#c))
                            }
                        })
                    }
                    "assert_ne" | "debug_assert_ne" => {
                        let args = m
                            .mac
                            .parse_body_with(
                                syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated,
                            )
                            .ok();
                        args.map(|a| {
                            let mut c: Expr = {
                                let (x, y) = (&a[0], &a[1]);
                                parse_quote!(!((#x) == (#y)))
                            };
                            self.visit_expr_mut(&mut c);
                            if self.in_const {
                                parse_quote!(crate::m::const_assert(#c))
                            } else {
                                parse_quote!(crate::m::must(#c))
                            }
                        })
                    }
                    "matches" => {
                        let arm = m
                            .mac
                            .parse_body_with(|i: syn::parse::ParseStream| {
                                let x: Expr = i.parse()?;
                                i.parse::<syn::Token![,]>()?;
                                let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(syn::Token![if]) {
                                    i.parse::<syn::Token![if]>()?;
                                    Some(i.parse::<Expr>()?)
                                } else {
                                    None
                                };
                                let _: Option<syn::Token![,]> = i.parse()?;
                                Ok((x, p, g))
                            })
                            .ok();
                        match arm {
                            Some((x, p, g)) => {
                                let mut e: Expr = match g {
                                    Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }),
                                    None => parse_quote!(match #x { #p => true, _ => false }),
                                };
                                self.visit_expr_mut(&mut e);
                                self.notes.push("matches! written out".into());
                                Some(e)
                            }
                            None => {
                                self.problems.push("matches! of a form not modelled".into());
                                None
                            }
                        }
                    }
                    "unreachable" | "panic" | "unimplemented" | "todo" => Some(if self.in_const {
                        parse_quote!(crate::m::const_panic())
                    } else {
                        parse_quote!(crate::m::must_not_reach())
                    }),
                    "vec" => {
                        let body = m.mac.tokens.clone();
                        let arr: Option<Expr> = syn::parse2(quote!([#body])).ok();
                        match arr {
                            Some(Expr::Repeat(r)) => {
                                let (mut x, mut n) = ((*r.expr).clone(), (*r.len).clone());
                                self.visit_expr_mut(&mut x);
                                self.visit_expr_mut(&mut n);
                                Some(parse_quote!(crate::m::vec_from_elem(#x, #n)))
                            }
                            Some(Expr::Array(a)) if a.elems.is_empty() => {
                                Some(parse_quote!(std::vec::Vec::new()))
                            }
                            _ => None,
                        }
                    }
                    "write" => match fmt_pieces(&m.mac) {
                        Some((f, pieces)) => {
                            let mut e: Option<Expr> = None;
                            for p in pieces.into_iter().rev() {
                                let step: Expr = match p {
                                    Piece::Lit(s) => parse_quote!(crate::m::fmt_lit(#f, #s)),
                                    Piece::Arg(mut a) => {
                                        self.visit_expr_mut(&mut a);
                                        parse_quote!(crate::m::Debug::fmt(&#a, #f))
                                    }
                                };
                                e = Some(match e {
                                    None => step,
                                    Some(rest) => parse_quote!(match #step {
                                        core::result::Result::Ok(()) => #rest,
                                        core::result::Result::Err(e) => core::result::Result::Err(e),
                                    }),
                                });
                            }
                            self.notes.push("write! written out piece by piece".into());
                            Some(e.unwrap_or_else(|| parse_quote!(crate::m::fmt_lit(#f, ""))))
                        }
                        None => {
                            self.problems.push("write! of a form not modelled".into());
                            None
                        }
                    },
                    "__loop_spec" | "__raw" => None,
                    _ => {
                        self.problems.push(format!("macro {name}!"));
                        None
                    }
                }
            }
            Expr::Match(m) if m.arms.is_empty() => {
                let x = &m.expr;
                self.notes.push("empty match named".into());
                Some(parse_quote!(crate::m::absurd(&#x)))
            }
            Expr::Binary(b) if !self.in_const && matches!(b.op, syn::BinOp::BitAnd(_)) => {
                let (l, r) = (&b.left, &b.right);
                self.notes.push("`&` through a contracted call (operand may be a reference)".into());
                Some(parse_quote!(crate::m::band(#l, #r)))
            }
            Expr::Binary(b) if self.in_const => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    syn::BinOp::Add(_) => Some(parse_quote!(crate::m::const_add(#l, #r))),
                    syn::BinOp::Sub(_) => Some(parse_quote!(crate::m::const_sub(#l, #r))),
                    syn::BinOp::Mul(_) => Some(parse_quote!(crate::m::const_mul(#l, #r))),
                    syn::BinOp::Div(_) => Some(parse_quote!(crate::m::const_div(#l, #r))),
                    syn::BinOp::Rem(_) => Some(parse_quote!(crate::m::const_rem(#l, #r))),
                    syn::BinOp::AddAssign(_) => {
                        Some(parse_quote!(#l = crate::m::const_add(#l, #r)))
                    }
                    syn::BinOp::MulAssign(_) => {
                        Some(parse_quote!(#l = crate::m::const_mul(#l, #r)))
                    }
                    _ => None,
                }
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote!(crate::m::IntoIterator::into_iter(#r)))
            }
            Expr::Path(p) if p.path.is_ident("old") && self.rename_old => Some(parse_quote!(old_)),
            Expr::MethodCall(m) if self.in_const && m.method == "unwrap" && m.args.is_empty() => {
                let r = &m.receiver;
                Some(parse_quote!(crate::m::const_unwrap(#r)))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }

    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        rewrite_std_path(p);
    }
}

/// Library paths with a contracted stand-in in the model layer `m`.
pub const STD_MAP: &[(&str, &str)] = &[
    ("std::slice", "crate::m::slice"),
    ("std::vec::IntoIter", "crate::m::vec::IntoIter"),
    ("std::vec", "crate::m::vec"),
    ("std::array", "crate::m::array"),
    ("std::mem::MaybeUninit", "crate::m::MaybeUninit"),
    ("std::mem", "crate::m::mem"),
    ("std::ptr", "crate::m::ptr"),
    ("std::ops::Range", "crate::m::Range"),
    ("std::ops::IndexMut", "crate::m::IndexMut"),
    ("std::ops::Index", "crate::m::Index"),
    ("std::sync::atomic::AtomicUsize", "crate::m::AtomicUsize"),
    ("std::sync::atomic::Ordering", "crate::m::MemOrdering"),
    ("std::fmt::Debug", "crate::m::Debug"),
    ("std::fmt::Formatter", "crate::m::Formatter"),
    ("std::fmt::Result", "crate::m::fmt::Result"),
    ("std::fmt::Error", "crate::m::fmt::Error"),
    ("std::fmt", "crate::m::fmt"),
    ("either::Either", "crate::m::Either"),
    ("std::convert::Infallible", "crate::m::Infallible"),
    ("ordinal_map", "crate"),
];

pub fn rewrite_std_path(p: &mut syn::Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    for (from, to) in STD_MAP {
        let f: Vec<&str> = from.split("::").collect();
        if segs.len() >= f.len() && segs[..f.len()].iter().zip(&f).all(|(a, b)| a == b) && (f.len() > 1 || segs.len() > 1 && p.leading_colon.is_none()) {
            // Names that stay with std.
            if *from == "std::vec" && segs.get(2).map(|s| s == "Vec").unwrap_or(false) {
                continue;
            }
            let mut np: syn::Path = syn::parse_str(to).unwrap();
            if segs.len() == f.len() {
                np.segments.last_mut().unwrap().arguments =
                    p.segments.last().unwrap().arguments.clone();
            }
            for s in p.segments.iter().skip(f.len()) {
                np.segments.push(s.clone());
            }
            *p = np;
            return;
        }
    }
}

pub fn tokens_to_string<T: ToTokens>(t: &T) -> String {
    crate::print::print(t.to_token_stream())
}

/// Provided functions of the trait `Ordinal` that are lifted to free functions.
pub const LIFTED: &[&str] = &["all_values"];
pub struct SelfTo(pub &'static str);
impl VisitMut for SelfTo {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if i == "Self" {
            *i = syn::Ident::new(self.0, i.span());
        }
    }
}

enum Piece {
    Lit(String),
    Arg(Expr),
}

/// `write!(f, "..{:?}..{x:?}", a)` with a plain variable `f` that is a `&mut Formatter`.
fn fmt_pieces(mac: &syn::Macro) -> Option<(Expr, Vec<Piece>)> {
    let args = mac
        .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
        .ok()?;
    let mut args = args.into_iter();
    let f = args.next()?;
    if !matches!(&f, Expr::Path(p) if p.path.get_ident().is_some()) {
        return None;
    }
    let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = args.next()? else { return None };
    let mut out = vec![];
    let mut cur = String::new();
    let text: Vec<char> = s.value().chars().collect();
    let mut i = 0;
    while i < text.len() {
        match text[i] {
            '{' if text.get(i + 1) == Some(&'{') => {
                cur.push('{');
                i += 2;
            }
            '}' if text.get(i + 1) == Some(&'}') => {
                cur.push('}');
                i += 2;
            }
            '{' => {
                let end = (i..text.len()).find(|&j| text[j] == '}')?;
                let spec: String = text[i + 1..end].iter().collect();
                let (name, fmt) = spec.split_once(':')?;
                if fmt != "?" {
                    return None;
                }
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                out.push(Piece::Arg(if name.is_empty() {
                    args.next()?
                } else {
                    let id: syn::Ident = syn::parse_str(name).ok()?;
                    parse_quote!(#id)
                }));
                i = end + 1;
            }
            '}' => return None,
            c => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur));
    }
    if args.next().is_some() {
        return None;
    }
    Some((f, out))
}
