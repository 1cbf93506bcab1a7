//! Contract overlay: which ghost text goes with which function of /repo.
//!
//! Line-based format, directives start in column 0 with `@`:
//!   @file map/map.rs                 following entries belong to this source file
//!   @mod                             raw ghost text for the module
//!   @liftimpl KEY                    trait impl rendered as inherent functions `Trait__name`
//!   @impl KEY                        raw ghost text appended inside the impl block
//!   @fn KEY [-> ret] [props..]       contract (requires/ensures) of one function
//!     @attr TEXT  @where TEXT  @pre TEXT...  @loop N TEXT...  @closure N IDENTS => EXPR + raw text
//!     @sub `A` => `B`                textual substitution in the printed signature
//!     @trusted                       body not given to the verifier (recorded as undischarged)
//!     @skip REASON                   not extracted at all
use std::collections::BTreeMap;

#[derive(Default, Debug)]
pub struct FnOv {
    pub ret: Option<String>,
    pub contract: String,
    pub where_: Vec<String>,
    pub attrs: Vec<String>,
    pub pre: String,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, ClosureOv>,
    pub sub: Vec<(String, String)>,
    pub bsub: Vec<(String, String)>,
    pub trusted: bool,
    pub skip: Option<String>,
    pub props: Vec<String>,
    pub used: bool,
}

#[derive(Default, Debug, Clone)]
pub struct ClosureOv {
    pub captures: Vec<String>,
    pub make: String,
    pub text: String,
}

#[derive(Default, Debug)]
pub struct FileOv {
    pub mods: String,
    pub impls: BTreeMap<String, (String, bool)>,
    pub fns: BTreeMap<String, FnOv>,
    pub skip_impls: Vec<String>,
    pub lift_impls: Vec<String>,
    pub traits: BTreeMap<String, String>,
    pub uses: String,
    pub struct_attrs: BTreeMap<String, String>,
    pub typesub: Vec<(String, String)>,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub files: BTreeMap<String, FileOv>,
}

enum Cur {
    None,
    Mod,
    Use,
    Impl(String),
    Trait(String),
    Contract(String),
    Pre(String),
    Loop(String, usize),
    Closure(String, usize),
}

pub fn split_sub(rest: &str) -> (String, String) {
    let parts: Vec<&str> = rest.split('`').collect();
    assert!(parts.len() == 5, "bad @sub: {rest}");
    (parts[1].to_string(), parts[3].to_string())
}

impl Overlay {
    pub fn load(&mut self, text: &str, name: &str) {
        let mut file: Option<String> = None;
        let mut cur = Cur::None;
        let mut cur_fn = String::new();
        for (ln, line) in text.lines().enumerate() {
            if let Some(d) = line.strip_prefix('@') {
                let (word, rest) = match d.split_once(' ') {
                    Some((w, r)) => (w, r.trim()),
                    None => (d.trim(), ""),
                };
                if word == "file" {
                    file = Some(rest.to_string());
                    self.files.entry(rest.to_string()).or_default();
                    cur = Cur::None;
                    continue;
                }
                let fname = file.clone().unwrap_or_else(|| panic!("{name}:{}: no @file", ln + 1));
                let f = self.files.get_mut(&fname).unwrap();
                match word {
                    "mod" => cur = Cur::Mod,
                    "use" => cur = Cur::Use,
                    "impl" => {
                        f.impls.entry(rest.to_string()).or_default();
                        cur = Cur::Impl(rest.to_string());
                    }
                    "trait" => {
                        f.traits.entry(rest.to_string()).or_default();
                        cur = Cur::Trait(rest.to_string());
                    }
                    "liftimpl" => f.lift_impls.push(rest.to_string()),
                    "skipimpl" => f.skip_impls.push(rest.to_string()),
                    "typesub" => f.typesub.push(split_sub(rest)),
                    "structattr" => {
                        let (a, b) = rest.split_once(' ').unwrap();
                        f.struct_attrs.insert(a.to_string(), b.to_string());
                    }
                    "fn" => {
                        let (key, tail) = match rest.split_once("->") {
                            Some((k, t)) => (k.trim(), t.trim()),
                            None => (rest, ""),
                        };
                        let mut tail = tail.split_whitespace();
                        let e = f.fns.entry(key.to_string()).or_default();
                        e.ret = tail.next().map(|s| s.to_string());
                        e.props.extend(tail.map(|s| s.to_string()));
                        cur_fn = key.to_string();
                        cur = Cur::Contract(key.to_string());
                    }
                    "attr" => f.fns.get_mut(&cur_fn).unwrap().attrs.push(rest.to_string()),
                    "where" => f.fns.get_mut(&cur_fn).unwrap().where_.push(rest.to_string()),
                    "sub" => f.fns.get_mut(&cur_fn).unwrap().sub.push(split_sub(rest)),
                    "bsub" => f.fns.get_mut(&cur_fn).unwrap().bsub.push(split_sub(rest)),
                    "trusted" => f.fns.get_mut(&cur_fn).unwrap().trusted = true,
                    "skip" => f.fns.get_mut(&cur_fn).unwrap().skip = Some(rest.to_string()),
                    "pre" => {
                        cur = Cur::Pre(cur_fn.clone());
                        if !rest.is_empty() {
                            f.fns.get_mut(&cur_fn).unwrap().pre.push_str(rest);
                        }
                    }
                    "loop" => {
                        let n: usize = rest.parse().expect("loop index");
                        f.fns.get_mut(&cur_fn).unwrap().loops.entry(n).or_default();
                        cur = Cur::Loop(cur_fn.clone(), n);
                    }
                    "closure" => {
                        let (a, make) = rest.split_once("=>").expect("closure =>");
                        let mut it = a.split_whitespace();
                        let n: usize = it.next().unwrap().parse().unwrap();
                        let c = f.fns.get_mut(&cur_fn).unwrap().closures.entry(n).or_default();
                        c.captures = it.map(|s| s.to_string()).collect();
                        c.make = make.trim().to_string();
                        cur = Cur::Closure(cur_fn.clone(), n);
                    }
                    _ => panic!("{name}:{}: unknown directive @{word}", ln + 1),
                }
                continue;
            }
            let Some(fname) = &file else { continue };
            let f = self.files.get_mut(fname).unwrap();
            let dst: &mut String = match &cur {
                Cur::None => continue,
                Cur::Mod => &mut f.mods,
                Cur::Use => &mut f.uses,
                Cur::Impl(k) => &mut f.impls.get_mut(k).unwrap().0,
                Cur::Trait(k) => f.traits.get_mut(k).unwrap(),
                Cur::Contract(k) => &mut f.fns.get_mut(k).unwrap().contract,
                Cur::Pre(k) => &mut f.fns.get_mut(k).unwrap().pre,
                Cur::Loop(k, n) => f.fns.get_mut(k).unwrap().loops.get_mut(n).unwrap(),
                Cur::Closure(k, n) => {
                    &mut f.fns.get_mut(k).unwrap().closures.get_mut(n).unwrap().text
                }
            };
            dst.push_str(line);
            dst.push('\n');
        }
    }
}
