//! Drop elaboration for `self` taken by value by a method of a type with a Drop impl:
//! the destructor call the compiler inserts is written out at every exit at which `self` has not
//! been moved away. What cannot be decided from the syntax is reported.
use std::collections::BTreeSet;
use syn::visit::{self, Visit};
use syn::{parse_quote, Block, Expr, Stmt};

pub struct Elab<'a> {
    /// Methods of the type taking `self` by value.
    pub byval: &'a BTreeSet<String>,
    pub problems: Vec<String>,
    pub inserted: usize,
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        e => e,
    }
}
fn is_self(e: &Expr) -> bool {
    matches!(strip(e), Expr::Path(p) if p.path.is_ident("self"))
}

struct Count<'a> {
    byval: &'a BTreeSet<String>,
    /// move by a plain call or by-value method
    call: usize,
    /// any other move
    other: usize,
    returns: usize,
    tries: usize,
}
impl<'a, 'ast> Visit<'ast> for Count<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Field(f) if is_self(&f.base) => return,
            Expr::Reference(r) if is_self(&r.expr) => return,
            Expr::MethodCall(m) if is_self(&m.receiver) => {
                if self.byval.contains(&m.method.to_string()) {
                    self.call += 1;
                }
                for a in &m.args {
                    self.visit_expr(a);
                }
                return;
            }
            Expr::Call(c) => {
                self.visit_expr(&c.func);
                for a in &c.args {
                    if is_self(a) {
                        self.call += 1;
                    } else {
                        self.visit_expr(a);
                    }
                }
                return;
            }
            Expr::Return(_) => self.returns += 1,
            Expr::Try(_) => self.tries += 1,
            Expr::Path(p) if p.path.is_ident("self") => {
                self.other += 1;
                return;
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}

impl<'a> Elab<'a> {
    fn count<'e>(&self, e: &'e Expr) -> Count<'a> {
        let mut c = Count { byval: self.byval, call: 0, other: 0, returns: 0, tries: 0 };
        c.visit_expr(e);
        c
    }
    fn drop_after(&mut self, e: &Expr) -> Expr {
        self.inserted += 1;
        parse_quote!({ let __r = #e; self.drop__body(); __r })
    }
    /// The state after `e` (`None`: control does not come back), `self` moved away or not before.
    fn expr(&mut self, e: &mut Expr, moved: bool, tail: bool) -> Option<bool> {
        match e {
            Expr::If(i) => {
                let c = self.count(&i.cond);
                if c.call + c.other > 0 || (c.tries + c.returns > 0 && !moved) {
                    self.problems.push("drop of self: condition moves self or may return".into());
                }
                let a = self.block(&mut i.then_branch, moved, tail && i.else_branch.is_some());
                let b = match &mut i.else_branch {
                    Some((_, b)) => self.expr(b, moved, tail),
                    None => Some(moved),
                };
                return self.merge(a, b);
            }
            Expr::Match(m) => {
                let c = self.count(&m.expr);
                if c.call + c.other > 0 || (c.tries + c.returns > 0 && !moved) {
                    self.problems.push("drop of self: scrutinee moves self or may return".into());
                }
                let mut st = None;
                for a in &mut m.arms {
                    let s = self.expr(&mut a.body, moved, tail);
                    st = self.merge(st, s);
                }
                return st;
            }
            Expr::Block(b) => return self.block(&mut b.block, moved, tail),
            Expr::Unsafe(b) => return self.block(&mut b.block, moved, tail),
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    let c = self.count(x);
                    let now = moved || c.call == 1;
                    if c.other > 0 || c.call > 1 || (c.tries > 0 && !now) {
                        self.problems.push("drop of self: return value".into());
                    }
                    if !now {
                        let y = self.drop_after(x);
                        **x = y;
                    }
                } else if !moved {
                    self.inserted += 1;
                    *e = parse_quote!({ self.drop__body(); return; });
                }
                return None;
            }
            _ => {}
        }
        let c = self.count(e);
        if c.other > 0 || c.call > 1 || (moved && c.call > 0) {
            self.problems.push("drop of self: moved in a way that is not followed".into());
        }
        if matches!(e, Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Closure(_)) && c.call > 0 {
            self.problems.push("drop of self: moved in a loop".into());
        }
        if c.returns > 0 && !moved {
            self.problems.push("drop of self: return inside an expression".into());
        }
        if c.tries > 0 && !moved && c.call == 0 {
            self.problems.push("drop of self: `?` before self is moved".into());
        }
        if moved || c.call == 1 {
            return Some(true);
        }
        if tail {
            let n = self.drop_after(e);
            *e = n;
            return Some(true);
        }
        Some(false)
    }
    fn merge(&mut self, a: Option<bool>, b: Option<bool>) -> Option<bool> {
        match (a, b) {
            (None, x) | (x, None) => x,
            (Some(x), Some(y)) => {
                if x != y {
                    self.problems.push("drop of self: moved on one branch only".into());
                }
                Some(x)
            }
        }
    }
    /// `tail`: the value of the block is the value of the function.
    pub fn block(&mut self, b: &mut Block, moved: bool, tail: bool) -> Option<bool> {
        let mut st = Some(moved);
        let n = b.stmts.len();
        let mut had_tail = false;
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let Some(m) = st else { break };
            match s {
                Stmt::Local(l) => {
                    if let Some(init) = &mut l.init {
                        if let Some((_, d)) = &mut init.diverge {
                            self.expr(d, m, false);
                        }
                        st = self.expr(&mut init.expr, m, false);
                    }
                }
                Stmt::Expr(e, semi) => {
                    let last = i + 1 == n && semi.is_none();
                    let is_unit_if = matches!(e, Expr::If(x) if x.else_branch.is_none())
                        || matches!(e, Expr::While(_) | Expr::ForLoop(_));
                    had_tail = last && !is_unit_if;
                    st = self.expr(e, m, tail && had_tail);
                }
                Stmt::Macro(mac) => {
                    if mac.mac.tokens.to_string().contains("self") && mac.mac.tokens.to_string().split(|c: char| !c.is_alphanumeric()).any(|w| w == "return") {
                        self.problems.push("drop of self: macro".into());
                    }
                }
                Stmt::Item(_) => {}
            }
        }
        if tail && !had_tail && st == Some(false) {
            self.inserted += 1;
            b.stmts.push(parse_quote!(self.drop__body();));
            st = Some(true);
        }
        st
    }
}
