mod derive;
mod dropelab;
mod escape;
mod extract;
mod norm;
mod overlay;
mod print;

use std::collections::BTreeSet;
use std::path::PathBuf;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn listed_all(args: &[String], flag: &str) -> Vec<String> {
    args.windows(2).filter(|w| w[0] == flag).map(|w| w[1].clone()).collect()
}

/// Items of the module `path` in the macro-expanded source of a crate.
fn expanded_items(file: &str, path: &[&str]) -> Vec<syn::Item> {
    let text = std::fs::read_to_string(file).unwrap();
    let f = syn::parse_file(&text).unwrap_or_else(|e| panic!("expanded source: {e}"));
    let mut items = f.items;
    for p in path {
        let m = items.into_iter().find_map(|i| match i {
            syn::Item::Mod(m) if m.ident == p => m.content.map(|c| c.1),
            _ => None,
        });
        items = m.unwrap_or_else(|| panic!("expanded source: no module {p}"));
    }
    items
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // ovx <repo src root> <overlay dir> <out.rs> <out.json> [--quarantine KEY]* [--drop KEY]*
    let listed = |flag: &str| -> BTreeSet<String> {
        args.windows(2).filter(|w| w[0] == flag).map(|w| w[1].clone()).collect()
    };
    let root = PathBuf::from(&args[1]);
    let ovdir = PathBuf::from(&args[2]);
    let mut ov = overlay::Overlay::default();
    let mut names: Vec<_> = std::fs::read_dir(&ovdir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    let mut model = String::new();
    for p in names {
        let t = std::fs::read_to_string(&p).unwrap();
        match p.extension().and_then(|e| e.to_str()) {
            Some("ov") => ov.load(&t, &p.to_string_lossy()),
            Some("rs") => model.push_str(&t),
            _ => {}
        }
    }
    for p in listed_all(&args, "--ov") {
        ov.load(&std::fs::read_to_string(&p).unwrap(), &p);
    }
    let mut consts = BTreeSet::new();
    let mut drops = BTreeSet::new();
    let mut droppable = Default::default();
    extract::scan(&root, &mut consts, &mut drops, &mut droppable);
    let skip_mods = ["ordinal/impls/primitive.rs", "ordinal/impls/non_zero.rs", "ordinal/impls/char.rs",
        "ordinal/impls/ordering.rs", "ordinal/impls/tuple.rs"];
    let mut expanded: std::collections::BTreeMap<String, Vec<syn::Item>> = Default::default();
    if let Some(f) = listed_all(&args, "--expanded").first() {
        expanded.insert("ordinal/impls/tuple.rs".into(), expanded_items(f, &["ordinal", "impls", "tuple"]));
    }
    let mut cx = extract::Ctx {
        ov,
        root: root.clone(),
        assoc_consts: consts,
        drop_methods: drops,
        droppable,
        quarantine: listed("--quarantine"),
        drop: listed("--drop"),
        canary: args.iter().any(|a| a == "--canary"),
        skip_mods: skip_mods.iter().map(|s| s.to_string()).collect(),
        expanded,
        out: String::new(),
        line: 0,
        fns: vec![],
        lost: vec![],
        dropped: vec![],
        used_impls: Default::default(),
    };
    cx.out.push_str(&model);
    cx.out.push_str("\nverus! {\n");
    cx.line = cx.out.matches('\n').count();
    let mut unknown: Vec<String> = vec![];
    if let Some(t) = listed_all(&args, "--derive").first() {
        // the code generator of the derive macro
        let mut p = derive::Prep::load(&std::fs::read_to_string(t).unwrap());
        let text = std::fs::read_to_string(root.join("ordinal.rs")).unwrap();
        let mut f = syn::parse_file(&text).unwrap_or_else(|e| panic!("ordinal.rs: {e}"));
        p.file(&mut f);
        cx.emit("pub mod ordinal {");
        cx.do_items(&f.items, "ordinal.rs", &root);
        cx.emit("}");
        unknown = p.unknown;
    } else {
        let lib = root.join("lib.rs");
        cx.do_mod_file(&lib, "lib.rs", &root);
    }
    if let Some(f) = listed_all(&args, "--shapes").first() {
        cx.emit("pub mod shapes {");
        let items = expanded_items(f, &["shapes"]);
        cx.do_items(&items, "shapes.rs", &root);
        cx.emit("}");
    }
    cx.out.push_str("\n} // verus!\nfn main() {}\n");
    for (f, fo) in &cx.ov.files {
        for (k, o) in &fo.fns {
            if !o.used {
                cx.lost.push(format!("{f}::{k}|{}", o.props.join(" ")));
            }
        }
        for k in fo.impls.keys() {
            if !cx.used_impls.contains(&(f.clone(), k.clone())) {
                cx.lost.push(format!("{f}::impl {k}"));
            }
        }
    }
    std::fs::write(&args[3], &cx.out).unwrap();
    let mut j = String::from("{\n\"fns\":[\n");
    for (i, f) in cx.fns.iter().enumerate() {
        if i > 0 {
            j.push_str(",\n");
        }
        j.push_str(&format!(
            "{{\"key\":{},\"from\":{},\"to\":{},\"src\":{},\"src_line\":{},\"status\":{},\"notes\":{},\"problems\":{},\"props\":{},\"canary\":{}}}",
            js(&f.key), f.line_from, f.line_to, js(&f.src), f.src_line, js(f.status), jl(&f.notes), jl(&f.problems), jl(&f.props), f.canary
        ));
    }
    j.push_str("\n],\n");
    j.push_str(&format!("\"lost\":{},\n\"dropped\":{},\n\"escapes\":{},\n\"unknown_templates\":{}\n}}\n", jl(&cx.lost), jl(&cx.dropped), jl(&escape::scan(&root)), jl(&unknown)));
    std::fs::write(&args[4], j).unwrap();
}
