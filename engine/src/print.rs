//! Token printer: keeps every token, adds line breaks after `;`, `{` and `}`.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    let mut p = P { joint: true, indent: 0, paren: 0 };
    p.ts(&mut s, ts);
    s
}

struct P {
    joint: bool,
    indent: usize,
    paren: usize,
}

impl P {
    fn sp(&mut self, s: &mut String) {
        if !self.joint && !s.ends_with([' ', '\n']) {
            s.push(' ');
        }
        self.joint = false;
    }
    fn nl(&mut self, s: &mut String) {
        while s.ends_with(' ') {
            s.pop();
        }
        s.push('\n');
        for _ in 0..self.indent {
            s.push_str("    ");
        }
        self.joint = true;
    }
    fn ts(&mut self, s: &mut String, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        self.sp(s);
                        s.push_str(o);
                        self.indent += 1;
                        if !g.stream().is_empty() {
                            self.nl(s);
                        }
                        let saved = std::mem::replace(&mut self.paren, 0);
                        self.ts(s, g.stream());
                        self.paren = saved;
                        self.indent -= 1;
                        if !g.stream().is_empty() {
                            self.nl(s);
                        }
                        s.push_str(c);
                        if self.paren == 0 {
                            self.nl(s);
                        }
                        self.joint = false;
                    } else {
                        self.sp(s);
                        s.push_str(o);
                        self.joint = true;
                        self.paren += 1;
                        self.ts(s, g.stream());
                        self.paren -= 1;
                        s.push_str(c);
                        self.joint = false;
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ';' | ',' | '.' | '?') {
                        while s.ends_with(' ') {
                            s.pop();
                        }
                        s.push(c);
                    } else {
                        self.sp(s);
                        s.push(c);
                    }
                    self.joint = p.spacing() == Spacing::Joint || c == '\'' || c == '.';
                    if c == ';' && self.paren == 0 {
                        self.nl(s);
                    }
                }
                TokenTree::Ident(i) => {
                    self.sp(s);
                    s.push_str(&i.to_string());
                }
                TokenTree::Literal(l) => {
                    self.sp(s);
                    s.push_str(&l.to_string());
                }
            }
        }
    }
}
