//! Where safe Rust's ownership discipline could be left: `unsafe`, and the safe ways to leak.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::path::Path;

const WORDS: &[&str] = &[
    "unsafe", "forget", "ManuallyDrop", "leak", "into_raw", "from_raw", "transmute", "transmute_copy", "MaybeUninit",
    "NonNull", "addr_of_mut", "Rc", "Arc", "union", "zeroed", "drop_in_place", "into_raw_parts", "set_len",
];

fn walk(ts: TokenStream, out: &mut Vec<(usize, String)>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => walk(g.stream(), out),
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if WORDS.contains(&s.as_str()) {
                    out.push((i.span().start().line, s));
                }
            }
            _ => {}
        }
    }
}

fn items(it: &[syn::Item], out: &mut Vec<(usize, String)>) {
    for i in it {
        let attrs = match i {
            syn::Item::Mod(m) => &m.attrs,
            syn::Item::Fn(m) => &m.attrs,
            syn::Item::Impl(m) => &m.attrs,
            syn::Item::Use(_) => continue,
            _ => {
                walk(i.to_token_stream(), out);
                continue;
            }
        };
        if crate::extract::has_cfg_test(attrs) {
            continue;
        }
        if let syn::Item::Mod(m) = i {
            if let Some((_, c)) = &m.content {
                items(c, out);
            }
            continue;
        }
        walk(i.to_token_stream(), out);
    }
}

pub fn scan(root: &Path) -> Vec<String> {
    let mut r = Vec::new();
    fn go(root: &Path, d: &Path, r: &mut Vec<String>) {
        let mut es: Vec<_> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for p in es {
            let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                if rel != "tests" {
                    go(root, &p, r)
                }
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                let t = std::fs::read_to_string(&p).unwrap();
                if let Ok(f) = syn::parse_file(&t) {
                    let mut v = Vec::new();
                    items(&f.items, &mut v);
                    for (l, w) in v {
                        r.push(format!("{rel}:{l}: {w}"));
                    }
                }
            }
        }
    }
    go(root, root, &mut r);
    r
}
