//! Mechanical extraction: /repo's modules -> one Verus crate, contracts woven in.
use crate::norm::{rewrite_std_path, tokens_to_string, Norm};
use crate::overlay::{FileOv, FnOv, Overlay};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use syn::visit_mut::VisitMut;

#[derive(Clone, Debug)]
pub struct FnRec {
    pub key: String,
    pub line_from: usize,
    pub line_to: usize,
    pub src: String,
    pub src_line: usize,
    pub status: &'static str, // contract | trusted | nocontract | skipped
    pub notes: Vec<String>,
    pub problems: Vec<String>,
    pub props: Vec<String>,
    pub canary: bool,
}

pub struct Ctx {
    pub ov: Overlay,
    pub root: PathBuf,
    pub assoc_consts: BTreeSet<String>,
    pub drop_methods: BTreeSet<String>,
    /// Types with a Drop impl, with their methods taking `self` by value.
    pub droppable: BTreeMap<String, BTreeSet<String>>,
    pub skip_mods: Vec<String>,
    pub quarantine: BTreeSet<String>,
    pub drop: BTreeSet<String>,
    pub canary: bool,
    /// Source files taken from the compiler's macro expansion instead.
    pub expanded: BTreeMap<String, Vec<syn::Item>>,
    pub out: String,
    pub line: usize,
    pub fns: Vec<FnRec>,
    pub lost: Vec<String>,
    pub dropped: Vec<String>,
    pub used_impls: BTreeSet<(String, String)>,
}

pub fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test")
    })
}

pub fn type_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!(
            "&{}{}",
            if r.mutability.is_some() { "mut " } else { "" },
            type_key(&r.elem)
        ),
        syn::Type::Array(_) => "Array".into(),
        syn::Type::Tuple(t) => format!("Tuple{}", t.elems.len()),
        syn::Type::Paren(p) => type_key(&p.elem),
        syn::Type::Group(p) => type_key(&p.elem),
        t => t.to_token_stream().to_string(),
    }
}

struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        rewrite_std_path(p);
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut syn::TypeParamBound) {
        syn::visit_mut::visit_type_param_bound_mut(self, b);
        if let syn::TypeParamBound::Trait(t) = b {
            let last = t.path.segments.last().unwrap().clone();
            let n = last.ident.to_string();
            if matches!(n.as_str(), "FnMut" | "FnOnce" | "Fn") {
                if let syn::PathArguments::Parenthesized(p) = &last.arguments {
                    if p.inputs.len() == 2 {
                        if let syn::Type::Reference(r) = &p.inputs[1] {
                            if r.mutability.is_some() {
                                let (k, v) = (&p.inputs[0], &r.elem);
                                *b = syn::parse_quote!(crate::m::FnMRef<#k, #v>);
                                return;
                            }
                        }
                    }
                    let ins = p.inputs.iter();
                    let out: syn::Type = match &p.output {
                        syn::ReturnType::Default => syn::parse_quote!(()),
                        syn::ReturnType::Type(_, t) => (**t).clone(),
                    };
                    *b = syn::parse_quote!(crate::m::FnM<(#(#ins,)*), Out = #out>);
                }
            }
        }
    }
}

fn fn_like_params(sig: &syn::Signature) -> BTreeSet<String> {
    let mut tps: BTreeSet<String> = BTreeSet::new();
    let is_fn_bound = |b: &syn::TypeParamBound| match b {
        syn::TypeParamBound::Trait(t) => {
            let n = t.path.segments.last().unwrap().ident.to_string();
            matches!(n.as_str(), "FnMut" | "FnOnce" | "Fn")
        }
        _ => false,
    };
    for p in &sig.generics.params {
        if let syn::GenericParam::Type(t) = p {
            if t.bounds.iter().any(is_fn_bound) {
                tps.insert(t.ident.to_string());
            }
        }
    }
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates {
            if let syn::WherePredicate::Type(t) = p {
                if t.bounds.iter().any(is_fn_bound) {
                    tps.insert(type_key(&t.bounded_ty));
                }
            }
        }
    }
    let mut r = BTreeSet::new();
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            let f = match &*t.ty {
                syn::Type::ImplTrait(x) => x.bounds.iter().any(is_fn_bound),
                syn::Type::Path(p) => {
                    p.path.segments.len() == 1
                        && tps.contains(&p.path.segments[0].ident.to_string())
                }
                _ => false,
            };
            if f {
                if let syn::Pat::Ident(id) = &*t.pat {
                    r.insert(id.ident.to_string());
                }
            }
        }
    }
    r
}

/// Replace `__loop_spec!(n);` and `__raw!{..}` markers.
fn weave_markers(mut s: String, ov: &FnOv, problems: &mut Vec<String>) -> String {
    let mut seen = BTreeSet::new();
    loop {
        let Some(p) = s.find("__loop_spec") else { break };
        let rest = &s[p..];
        let a = rest.find('(').unwrap();
        let b = rest.find(')').unwrap();
        let n: usize = rest[a + 1..b].trim().trim_end_matches("usize").trim().parse().unwrap();
        let end = p + rest.find(';').unwrap() + 1;
        // opening brace before p
        let open = s[..p].rfind('{').unwrap();
        let spec = match ov.loops.get(&n) {
            Some(x) => x.clone(),
            None => {
                problems.push(format!("loop {n} has no invariant in the overlay"));
                String::new()
            }
        };
        seen.insert(n);
        let head = s[..open].trim_end().to_string();
        s = format!("{head}\n{}{{{}", indent(&spec, 8), &s[end..]);
    }
    for n in ov.loops.keys() {
        if !seen.contains(n) {
            problems.push(format!("overlay names loop {n}, which the source does not have"));
        }
    }
    while let Some(p) = s.find("__raw") {
        let rest = &s[p..];
        let a = rest.find('{').unwrap();
        let b = rest.find('}').unwrap();
        let inner = rest[a + 1..b].trim().to_string();
        let tail = rest[b + 1..].trim_start_matches([' ', ';']).to_string();
        s = format!("{}{}{}", &s[..p], inner, tail);
    }
    s
}

fn indent(s: &str, n: usize) -> String {
    let mut o = String::new();
    for l in s.lines() {
        if !l.trim().is_empty() {
            o.push_str(&" ".repeat(n));
            o.push_str(l.trim_end());
            o.push('\n');
        }
    }
    o
}

impl Ctx {
    pub fn emit(&mut self, s: &str) {
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
        self.line = self.out.matches('\n').count();
    }

    fn fn_ov(&mut self, file: &str, key: &str) -> Option<FnOv> {
        let f = self.ov.files.get_mut(file)?;
        let o = f.fns.get_mut(key)?;
        o.used = true;
        Some(FnOv {
            ret: o.ret.clone(),
            contract: o.contract.clone(),
            where_: o.where_.clone(),
            attrs: o.attrs.clone(),
            pre: o.pre.clone(),
            loops: o.loops.clone(),
            closures: o.closures.clone(),
            sub: o.sub.clone(),
            bsub: o.bsub.clone(),
            trusted: o.trusted,
            skip: o.skip.clone(),
            props: o.props.clone(),
            used: true,
        })
    }

    /// Render one function.
    #[allow(clippy::too_many_arguments)]
    fn render_fn(
        &mut self,
        file: &str,
        owner: &str,
        mut sig: syn::Signature,
        body: Option<&syn::Block>,
        in_trait: bool,
        in_const: bool,
        name_override: Option<&str>,
    ) {
        let name = name_override.map(|s| s.to_string()).unwrap_or_else(|| sig.ident.to_string());
        let key = if owner.is_empty() { name.clone() } else { format!("{owner}::{name}") };
        let src_line = sig.ident.span().start().line;
        let ov = self.fn_ov(file, &key);
        let mut rec = FnRec {
            key: format!("{file}::{key}"),
            line_from: 0,
            line_to: 0,
            src: file.to_string(),
            src_line,
            status: if ov.is_some() { "contract" } else { "nocontract" },
            notes: vec![],
            problems: vec![],
            canary: false,
            props: ov.as_ref().map(|o| o.props.clone()).unwrap_or_default(),
        };
        let mut ov = ov.unwrap_or_default();
        let full = rec.key.clone();
        if self.drop.contains(&full) {
            ov.skip = Some("quarantined: dropped from the verified text".into());
        }
        let quarantined = self.quarantine.contains(&full) && body.is_some();
        let stub: syn::Block = syn::parse_quote!({ unimplemented!() });
        let body = if quarantined { Some(&stub) } else { body };
        if quarantined {
            ov.trusted = true;
            ov.pre.clear();
            ov.loops.clear();
            ov.bsub.clear();
            for (_, c) in std::mem::take(&mut ov.closures) {
                let t: Vec<String> = c
                    .text
                    .lines()
                    .map(|l| match (l.find("let ("), l.find("$BODY")) {
                        (Some(a), Some(b)) => {
                            format!("#[verifier::external_body] {}unimplemented!(){}", &l[..a], &l[b + 5..])
                        }
                        _ => l.to_string(),
                    })
                    .collect();
                self.pending_closures_push(full.clone(), vec![], t.join("\n"));
            }
        }
        if let Some(r) = &ov.skip {
            rec.status = "skipped";
            rec.notes.push(r.clone());
            self.fns.push(rec);
            return;
        }
        let fn_params = fn_like_params(&sig);
        // `impl FnMut(..)` arguments become named type parameters, so that contracts can name them.
        let mut named = 0usize;
        for i in &mut sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                if let syn::Type::ImplTrait(x) = &*t.ty {
                    let n = quote::format_ident!("Fn{}", named);
                    named += 1;
                    let b = &x.bounds;
                    let gp: syn::GenericParam = syn::parse_quote!(#n: #b);
                    *t.ty = syn::parse_quote!(#n);
                    sig.generics.params.push(gp);
                    rec.notes.push("impl-Trait argument named".into());
                }
            }
        }
        let mut self_is_mut_ref = false;
        let mut rename_self = false;
        let mut rename_old = false;
        // `self` by value on a type with a destructor: write the destructor calls out.
        let by_value_drop = self.droppable.contains_key(owner)
            && matches!(sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.reference.is_none() && r.colon_token.is_none());
        let mut elaborated: Option<syn::Block> = None;
        if by_value_drop {
            if let Some(b) = body {
                let mut b = b.clone();
                let mut el = crate::dropelab::Elab { byval: &self.droppable[owner], problems: vec![], inserted: 0 };
                el.block(&mut b, false, true);
                rec.notes.push(format!("destructor of self written out at {} exits", el.inserted));
                rec.problems.append(&mut el.problems);
                elaborated = Some(b);
            }
        }
        let body = if quarantined { body } else { elaborated.as_ref().or(body) };
        let mut rebind: Vec<proc_macro2::TokenStream> = Vec::new();
        for i in &mut sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    r.attrs.clear();
                    if r.reference.is_some() && r.mutability.is_some() {
                        self_is_mut_ref = true;
                    }
                    if r.reference.is_none() && (r.mutability.is_some() || by_value_drop) {
                        rename_self = true;
                        *r = syn::parse_quote!(self);
                        rebind.push(quote!(let mut self_ = self;));
                        rec.notes.push("mut self bound to a local".into());
                    }
                }
                syn::FnArg::Typed(t) => {
                    t.attrs.clear();
                    if let syn::Pat::Ident(id) = &mut *t.pat {
                        if id.ident == "old" {
                            id.ident = quote::format_ident!("old_");
                            rename_old = true;
                        }
                        if id.mutability.is_some() {
                            id.mutability = None;
                            let n = &id.ident;
                            rebind.push(quote!(let mut #n = #n;));
                        }
                    } else if let syn::Pat::Wild(_) = &*t.pat {
                        *t.pat = syn::parse_quote!(_unused);
                    }
                }
            }
        }
        TypeFix.visit_signature_mut(&mut sig);
        sig.constness = None;
        let mut closure_out = Vec::new();
        let body_s = body.map(|b| {
            let mut b = b.clone();
            let mut n = Norm {
                assoc_consts: &self.assoc_consts,
                fn_params: fn_params.clone(),
                rename_old,
                fn_ref_params: sig.generics.to_token_stream().to_string().contains("FnMRef")
                    || sig.generics.where_clause.to_token_stream().to_string().contains("FnMRef"),
                in_const,
                loops: 0,
                closures: 0,
                closure_ov: &ov.closures,
                closure_out: vec![],
                drop_methods: &self.drop_methods,
                self_is_mut_ref,
                rename_self,
                notes: vec![],
                problems: vec![],
            };
            n.visit_block_mut(&mut b);
            closure_out = n.closure_out;
            for c in ov.closures.keys() {
                if *c >= n.closures {
                    n.problems.push(format!("overlay names closure {c}, which the source does not have"));
                }
            }
            n.notes.sort();
            n.notes.dedup();
            rec.notes.append(&mut n.notes);
            rec.problems.append(&mut n.problems);
            let stmts = &b.stmts;
            let ts = quote!({ #(#rebind)* #(#stmts)* });
            let mut s = tokens_to_string(&ts);
            s = weave_markers(s, &ov, &mut rec.problems);
            if s.contains("q::unknown") {
                rec.problems.push("a quoted template whose meaning is not stated".into());
            }
            for (a, b) in &ov.bsub {
                if !s.contains(a.as_str()) {
                    rec.problems.push(format!("body text `{a}` not found"));
                }
                s = s.replace(a.as_str(), b);
            }
            s
        });
        // closures: struct + impl text precede the function's impl; emitted at module level by caller
        for (idx, pats, body) in closure_out {
            let c = &ov.closures[&idx];
            let pat = pats
                .iter()
                .map(|p| match p {
                    syn::Pat::Type(t) => tokens_to_string(&t.pat),
                    p => tokens_to_string(p),
                })
                .collect::<Vec<_>>()
                .join(", ");
            let t = c.text.replace("$PAT", &pat).replace("$BODY", &body);
            self.pending_closures_push(full.clone(), ov.props.clone(), t);
        }
        let (ig, _, wc) = sig.generics.split_for_impl();
        let inputs = sig.inputs.iter();
        let inputs_s = tokens_to_string(&quote!(#(#inputs),*));
        let ret_s = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => {
                let t = tokens_to_string(t);
                match &ov.ret {
                    Some(r) => format!(" -> ({r}: {t})"),
                    None => format!(" -> {t}"),
                }
            }
        };
        let mut wc_s = wc.map(tokens_to_string).unwrap_or_default();
        if !ov.where_.is_empty() {
            if wc_s.is_empty() {
                wc_s = "where ".into();
            } else if !wc_s.trim_end().ends_with(',') {
                wc_s.push_str(", ");
            }
            wc_s.push_str(&ov.where_.join(", "));
            wc_s.push(',');
        }
        let mut head = format!(
            "{}fn {}{}({}){}",
            if in_trait { "" } else { "pub " },
            name,
            tokens_to_string(&ig),
            inputs_s,
            ret_s
        );
        if !wc_s.is_empty() {
            head.push_str(&format!("\n    {wc_s}"));
        }
        for (a, b) in &ov.sub {
            if !head.contains(a.as_str()) {
                rec.problems.push(format!("signature text `{a}` not found in: {head}"));
            }
            head = head.replace(a.as_str(), b);
        }
        let mut text = String::new();
        if ov.trusted {
            text.push_str("#[verifier::external_body]\n");
            rec.status = if quarantined { "quarantined" } else { "trusted" };
        }
        for a in &ov.attrs {
            text.push_str(a);
            text.push('\n');
        }
        text.push_str(&head);
        text.push('\n');
        text.push_str(&indent(&ov.contract, 4));
        match body_s {
            None => {
                let t = text.trim_end().to_string();
                text = format!("{t};");
            }
            Some(b) => {
                if ov.trusted {
                    text.push_str("{ unimplemented!() }");
                } else {
                    // insert pre after the opening brace
                    let p = b.find('{').unwrap();
                    text.push_str("{\n");
                    if !ov.pre.trim().is_empty() {
                        text.push_str(&indent(&ov.pre, 4));
                    }
                    if self.canary && rec.status == "contract" {
                        text.push_str("    assert(false);\n");
                        rec.canary = true;
                    }
                    text.push_str(&b[p + 1..]);
                }
            }
        }
        rec.line_from = self.line + 1;
        self.emit(&text);
        rec.line_to = self.line;
        self.fns.push(rec);
    }

    fn pending_closures_push(&mut self, key: String, props: Vec<String>, t: String) {
        PENDING.with(|p| p.borrow_mut().push((key, props, t)));
    }

    fn flush_closures(&mut self) {
        let v = PENDING.with(|p| std::mem::take(&mut *p.borrow_mut()));
        for (key, props, t) in v {
            let from = self.line + 1;
            self.emit(&t);
            // closure text is verified too; attributed by line range
            let to = self.line;
            self.fns.push(FnRec {
                key: format!("{key}#closure"),
                line_from: from,
                line_to: to,
                src: String::new(),
                src_line: 0,
                status: "contract",
                notes: vec!["closure body".into()],
                problems: vec![],
                canary: false,
                props,
            });
        }
    }

    fn do_use(&mut self, u: &syn::ItemUse) {
        fn walk(prefix: Vec<String>, t: &syn::UseTree, out: &mut Vec<(Vec<String>, Option<String>)>) {
            match t {
                syn::UseTree::Path(p) => {
                    let mut q = prefix;
                    q.push(p.ident.to_string());
                    walk(q, &p.tree, out)
                }
                syn::UseTree::Name(n) => {
                    let mut q = prefix;
                    q.push(n.ident.to_string());
                    out.push((q, None))
                }
                syn::UseTree::Rename(n) => {
                    let mut q = prefix;
                    q.push(n.ident.to_string());
                    out.push((q, Some(n.rename.to_string())))
                }
                syn::UseTree::Glob(_) => {
                    let mut q = prefix;
                    q.push("*".into());
                    out.push((q, None))
                }
                syn::UseTree::Group(g) => {
                    for i in &g.items {
                        walk(prefix.clone(), i, out)
                    }
                }
            }
        }
        let mut v = Vec::new();
        walk(vec![], &u.tree, &mut v);
        for (mut p, r) in v {
            if p.first().map(|s| s == "core" || s == "alloc").unwrap_or(false) {
                p[0] = "std".into();
            }
            let joined = p.join("::");
            if joined == "ordinal_map_derive::Ordinal" || p[0] == "ordinal_map_derive" {
                continue;
            }
            if joined == "crate" {
                continue;
            }
            if p.len() == 2 && p[0] == "crate" && p[1] == "self" {
                continue;
            }
            if p.last().map(|s| s == "self").unwrap_or(false) {
                p.pop();
            }
            let mut path: syn::Path = match syn::parse_str(&p.join("::").replace("::*", "")) {
                Ok(p) => p,
                Err(_) => continue,
            };
            rewrite_std_path(&mut path);
            let mut s = tokens_to_string(&path).replace(' ', "").replace('\n', "");
            if p.last().map(|s| s == "*").unwrap_or(false) {
                s.push_str("::*");
            }
            if ["std::iter", "std::hash", "std::error"].iter().any(|x| s.starts_with(x)) {
                continue;
            }
            // A renamed stand-in keeps the name the source uses.
            let r = match r {
                Some(r) => Some(r),
                None => {
                    let want = p.last().unwrap().clone();
                    let got = s.rsplit("::").next().unwrap().to_string();
                    if want != "*" && got != want { Some(want) } else { None }
                }
            };
            let vis = if matches!(u.vis, syn::Visibility::Inherited) { "" } else { "pub " };
            let ren = r.map(|r| format!(" as {r}")).unwrap_or_default();
            self.emit(&format!("{vis}use {s}{ren};"));
        }
    }

    pub fn do_mod_file(&mut self, path: &Path, rel: &str, dir: &Path) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        let f = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        self.do_items(&f.items, rel, dir);
    }

    pub fn do_items(&mut self, items: &[syn::Item], rel: &str, dir: &Path) {
        let ov: FileOv = match self.ov.files.get(rel) {
            Some(f) => FileOv {
                mods: f.mods.clone(),
                impls: f.impls.clone(),
                skip_impls: f.skip_impls.clone(),
                lift_impls: f.lift_impls.clone(),
                traits: f.traits.clone(),
                uses: f.uses.clone(),
                struct_attrs: f.struct_attrs.clone(),
                typesub: f.typesub.clone(),
                fns: BTreeMap::new(),
            },
            None => FileOv::default(),
        };
        let mut have: BTreeSet<String> = BTreeSet::new();
        for i in items {
            match i {
                syn::Item::Use(u) => {
                    fn leafs(t: &syn::UseTree, out: &mut BTreeSet<String>) {
                        match t {
                            syn::UseTree::Path(p) => leafs(&p.tree, out),
                            syn::UseTree::Name(n) => {
                                out.insert(n.ident.to_string());
                            }
                            syn::UseTree::Rename(n) => {
                                out.insert(n.rename.to_string());
                            }
                            syn::UseTree::Group(g) => {
                                for i in &g.items {
                                    leafs(i, out)
                                }
                            }
                            _ => {}
                        }
                    }
                    leafs(&u.tree, &mut have);
                }
                syn::Item::Trait(t) => {
                    have.insert(t.ident.to_string());
                }
                syn::Item::Struct(t) => {
                    have.insert(t.ident.to_string());
                }
                syn::Item::Enum(t) => {
                    have.insert(t.ident.to_string());
                }
                _ => {}
            }
        }
        self.emit("use vstd::prelude::*;");
        for n in [
            "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "FromIterator",
            "FnM", "FnMRef", "IterExt", "IterAdapt", "OptExt", "BoxExt",
        ] {
            if !have.contains(n) {
                self.emit(&format!("use crate::m::{n};"));
            }
        }
        if !ov.uses.is_empty() {
            self.emit(&ov.uses);
        }
        for i in items {
            match i {
                syn::Item::Use(u) => {
                    if !has_cfg_test(&u.attrs) {
                        self.do_use(u)
                    }
                }
                syn::Item::Mod(m) => {
                    let n = m.ident.to_string();
                    if has_cfg_test(&m.attrs) || n == "tests" {
                        continue;
                    }
                    if let Some((_, items)) = &m.content {
                        self.emit(&format!("pub mod {n} {{"));
                        let items = items.clone();
                        self.do_items(&items, &format!("{rel}::{n}"), &dir.join(&n));
                        self.emit("}");
                        continue;
                    }
                    let p1 = dir.join(format!("{n}.rs"));
                    let p2 = dir.join(&n).join("mod.rs");
                    let p = if p1.exists() { p1 } else { p2 };
                    let r = p.strip_prefix(&self.root).unwrap().to_string_lossy().to_string();
                    if let Some(items) = self.expanded.remove(&r) {
                        self.emit(&format!("pub mod {n} {{"));
                        self.do_items(&items, &r, &dir.join(&n));
                        self.emit("}");
                        continue;
                    }
                    if self.skip_mods.contains(&r) {
                        self.dropped.push(format!("module {r}"));
                        continue;
                    }
                    self.emit(&format!("pub mod {n} {{"));
                    self.do_mod_file(&p, &r, &dir.join(&n));
                    self.emit("}");
                }
                syn::Item::Struct(s) => {
                    let mut s = s.clone();
                    self.derives(rel, &ov, &s.attrs, &s.ident.to_string());
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for f in s.fields.iter_mut() {
                        f.vis = syn::parse_quote!(pub);
                        f.attrs.clear();
                    }
                    TypeFix.visit_item_struct_mut(&mut s);
                    let mut t = tokens_to_string(&s);
                    for (a, b) in &ov.typesub {
                        t = t.replace(a.as_str(), b);
                    }
                    if let Some(a) = ov.struct_attrs.get(&s.ident.to_string()) {
                        self.emit(a);
                    }
                    self.emit(&t);
                }
                syn::Item::Enum(s) => {
                    let mut s = s.clone();
                    self.derives(rel, &ov, &s.attrs, &s.ident.to_string());
                    s.attrs.clear();
                    s.vis = syn::parse_quote!(pub);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                        v.discriminant = None;
                        for f in v.fields.iter_mut() {
                            f.attrs.clear();
                        }
                    }
                    TypeFix.visit_item_enum_mut(&mut s);
                    if let Some(a) = ov.struct_attrs.get(&s.ident.to_string()) {
                        self.emit(a);
                    }
                    self.emit(&tokens_to_string(&s));
                }
                syn::Item::Const(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = syn::parse_quote!(pub);
                    self.emit(&tokens_to_string(&c));
                }
                syn::Item::Type(c) => {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = syn::parse_quote!(pub);
                    TypeFix.visit_item_type_mut(&mut c);
                    self.emit(&tokens_to_string(&c));
                }
                syn::Item::Fn(f) => {
                    if has_cfg_test(&f.attrs) {
                        continue;
                    }
                    self.render_fn(rel, "", f.sig.clone(), Some(&f.block), false, false, None);
                    self.flush_closures();
                }
                syn::Item::Trait(t) => self.do_trait(rel, &ov, t),
                syn::Item::Impl(im) => self.do_impl(rel, &ov, im),
                syn::Item::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    self.dropped.push(format!("macro {n} in {rel}"));
                }
                other => {
                    self.dropped.push(format!(
                        "{rel}: {}",
                        other.to_token_stream().to_string().chars().take(80).collect::<String>()
                    ));
                }
            }
        }
        if !ov.mods.is_empty() {
            let from = self.line + 1;
            self.emit(&ov.mods.clone());
            let to = self.line;
            self.fns.push(FnRec {
                key: format!("{rel}::<lemmas>"),
                line_from: from,
                line_to: to,
                src: rel.to_string(),
                src_line: 0,
                status: "lemma",
                notes: vec![],
                problems: vec![], canary: false,
                props: vec![],
            });
        }
    }

    fn derives(&mut self, rel: &str, ov: &FileOv, attrs: &[syn::Attribute], ty: &str) {
        for a in attrs {
            if a.path().is_ident("derive") {
                let l = a
                    .parse_args_with(
                        syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated,
                    )
                    .unwrap();
                for p in l {
                    let n = p.segments.last().unwrap().ident.to_string();
                    if n == "Debug" {
                        self.dropped.push(format!("{rel}: derive Debug for {ty}"));
                        continue;
                    }
                    let k = format!("derive {n} for {ty}");
                    match ov.impls.get(&k) {
                        Some((t, _)) => {
                            self.used_impls.insert((rel.to_string(), k));
                            self.emit(&t.clone());
                        }
                        None => self.dropped.push(format!("{rel}: {k}")),
                    }
                }
            }
        }
    }

    fn do_trait(&mut self, rel: &str, ov: &FileOv, t: &syn::ItemTrait) {
        let mut g = t.generics.clone();
        TypeFix.visit_generics_mut(&mut g);
        let sup = &t.supertraits;
        let colon = if sup.is_empty() { quote!() } else { quote!(:) };
        let name = &t.ident;
        self.emit(&format!("{} {{", tokens_to_string(&quote!(pub trait #name #g #colon #sup))));
        if let Some(x) = ov.traits.get(&name.to_string()) {
            self.used_impls.insert((rel.to_string(), name.to_string()));
            self.emit(&x.clone());
        }
        let mut lifted: Vec<(syn::Signature, syn::Block)> = vec![];
        for i in &t.items {
            match i {
                syn::TraitItem::Const(c) => {
                    let n = &c.ident;
                    let ty = &c.ty;
                    let sig: syn::Signature = syn::parse_quote!(fn #n() -> #ty);
                    self.render_fn(rel, &name.to_string(), sig, None, true, true, None);
                }
                syn::TraitItem::Fn(f)
                    if f.default.is_some()
                        && name == "Ordinal"
                        && crate::norm::LIFTED.contains(&f.sig.ident.to_string().as_str()) =>
                {
                    // A provided function that constructs a type bounded by the trait itself
                    // is outside the verifier's trait model: lifted to a free function.
                    let mut sig = f.sig.clone();
                    sig.generics.params.push(syn::parse_quote!(Self_: Ordinal));
                    let mut body = f.default.clone().unwrap();
                    crate::norm::SelfTo("Self_").visit_signature_mut(&mut sig);
                    crate::norm::SelfTo("Self_").visit_block_mut(&mut body);
                    lifted.push((sig, body));
                }
                syn::TraitItem::Fn(f) => {
                    self.render_fn(
                        rel,
                        &name.to_string(),
                        f.sig.clone(),
                        f.default.as_ref(),
                        true,
                        false,
                        None,
                    );
                }
                _ => {}
            }
        }
        self.emit("}");
        for (sig, body) in lifted {
            self.render_fn(rel, &name.to_string(), sig, Some(&body), false, false, None);
        }
        self.flush_closures();
    }

    fn do_impl(&mut self, rel: &str, ov: &FileOv, im: &syn::ItemImpl) {
        if has_cfg_test(&im.attrs) {
            return;
        }
        let mut im = im.clone();
        im.attrs.clear();
        let ty = type_key(&im.self_ty);
        let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
        let owner = match &tr {
            Some(t) => format!("{t} for {ty}"),
            None => ty.clone(),
        };
        if ov.skip_impls.contains(&owner) || tr.as_deref() == Some("Debug") && !ov.impls.contains_key(&owner) && !ov.lift_impls.contains(&owner) {
            self.dropped.push(format!("{rel}: impl {owner}"));
            return;
        }
        let is_drop = tr.as_deref() == Some("Drop");
        let lift = ov.lift_impls.contains(&owner);
        let mut g = im.generics.clone();
        TypeFix.visit_generics_mut(&mut g);
        let mut self_ty = (*im.self_ty).clone();
        TypeFix.visit_type_mut(&mut self_ty);
        let (ig, _, wc) = g.split_for_impl();
        let tp = if is_drop || lift {
            quote!()
        } else {
            match &im.trait_ {
                Some((_, p, _)) => {
                    let mut p = p.clone();
                    TypeFix.visit_path_mut(&mut p);
                    quote!(#p for)
                }
                None => quote!(),
            }
        };
        let mut head = tokens_to_string(&quote!(impl #ig #tp #self_ty #wc));
        for (a, b) in &ov.typesub {
            head = head.replace(a.as_str(), b);
        }
        self.emit(&format!("{head} {{"));
        if let Some((x, _)) = ov.impls.get(&owner) {
            // One overlay text per impl header; several inherent blocks share the first.
            if self.used_impls.insert((rel.to_string(), owner.clone())) {
                let from = self.line + 1;
                self.emit(&x.clone());
                let to = self.line;
                self.fns.push(FnRec {
                    key: format!("{rel}::{owner}::<ghost>"),
                    line_from: from,
                    line_to: to,
                    src: rel.to_string(),
                    src_line: 0,
                    status: "lemma",
                    notes: vec![],
                    problems: vec![], canary: false,
                    props: vec![],
                });
            }
        }
        for i in &im.items {
            match i {
                syn::ImplItem::Const(c) => {
                    let n = &c.ident;
                    let mut cty = c.ty.clone();
                    TypeFix.visit_type_mut(&mut cty);
                    let sig: syn::Signature = syn::parse_quote!(fn #n() -> #cty);
                    let e = &c.expr;
                    let b: syn::Block = match e {
                        syn::Expr::Block(b) => b.block.clone(),
                        e => syn::parse_quote!({ #e }),
                    };
                    self.render_fn(rel, &owner, sig, Some(&b), tr.is_some(), true, None);
                }
                syn::ImplItem::Fn(f) => {
                    let lifted = format!("{}__{}", tr.as_deref().unwrap_or(""), f.sig.ident);
                    let nm = if is_drop { Some("drop__body") } else if lift { Some(lifted.as_str()) } else { None };
                    self.render_fn(
                        rel,
                        &owner,
                        f.sig.clone(),
                        Some(&f.block),
                        tr.is_some() && !is_drop && !lift,
                        false,
                        nm,
                    );
                }
                syn::ImplItem::Type(t) => {
                    let mut t = t.clone();
                    t.attrs.clear();
                    TypeFix.visit_impl_item_type_mut(&mut t);
                    self.emit(&tokens_to_string(&t));
                }
                _ => {}
            }
        }
        let names: Vec<String> = im
            .items
            .iter()
            .filter_map(|i| match i {
                syn::ImplItem::Fn(f) => Some(f.sig.ident.to_string()),
                _ => None,
            })
            .collect();
        if tr.as_deref() == Some("Iterator") && !names.iter().any(|n| n == "size_hint") {
            self.emit("// std: provided method of Iterator\nfn size_hint(&self) -> (usize, Option<usize>) { (0, None) }");
        }
        if tr.as_deref() == Some("ExactSizeIterator") && !names.iter().any(|n| n == "len") {
            self.emit("// std: provided method of ExactSizeIterator\nfn len(&self) -> usize { proof { Self::is_exact(); } self.size_hint().0 }");
        }
        self.emit("}");
        self.flush_closures();
    }
}

thread_local! {
    static PENDING: std::cell::RefCell<Vec<(String, Vec<String>, String)>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Collect names of associated constants and of methods returning droppable types.
pub fn scan(
    root: &Path,
    consts: &mut BTreeSet<String>,
    drops: &mut BTreeSet<String>,
    dropmap: &mut BTreeMap<String, BTreeSet<String>>,
) {
    let mut files = Vec::new();
    fn walk(d: &Path, out: &mut Vec<PathBuf>) {
        let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                walk(&p, out)
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                out.push(p)
            }
        }
    }
    walk(root, &mut files);
    let mut droppable: BTreeSet<String> = BTreeSet::new();
    let mut rets: Vec<(String, String)> = Vec::new();
    let mut byval: Vec<(String, String)> = Vec::new();
    for f in files {
        let t = std::fs::read_to_string(&f).unwrap();
        let Ok(file) = syn::parse_file(&t) else { continue };
        for i in &file.items {
            match i {
                syn::Item::Impl(im) => {
                    if let Some((_, p, _)) = &im.trait_ {
                        if p.segments.last().unwrap().ident == "Drop" {
                            droppable.insert(type_key(&im.self_ty));
                        }
                    }
                    for it in &im.items {
                        match it {
                            syn::ImplItem::Const(c) => {
                                consts.insert(c.ident.to_string());
                            }
                            syn::ImplItem::Fn(f) => {
                                if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
                                    if r.reference.is_none() {
                                        byval.push((type_key(&im.self_ty), f.sig.ident.to_string()));
                                    }
                                }
                                if let syn::ReturnType::Type(_, t) = &f.sig.output {
                                    rets.push((f.sig.ident.to_string(), type_key(t)));
                                }
                            }
                            _ => {}
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for it in &t.items {
                        if let syn::TraitItem::Const(c) = it {
                            consts.insert(c.ident.to_string());
                        }
                    }
                }
                _ => {}
            }
        }
    }
    for d in &droppable {
        dropmap.insert(d.clone(), byval.iter().filter(|(t, _)| t == d).map(|(_, m)| m.clone()).collect());
    }
    for (m, t) in rets {
        if droppable.contains(&t) && m != "new" {
            drops.insert(m);
        }
    }
}
