use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Print tokens with line breaks after `;`, `{`, `}` and, inside braces, `,`.
pub fn print(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 1, false);
    s
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("  ");
    }
}

fn go(ts: &TokenStream, s: &mut String, ind: usize, in_brace: bool) {
    let mut joint = false;
    for t in ts.clone() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("(", ")"),
                };
                if g.delimiter() == Delimiter::None {
                    // invisible groups come from reparsed fragments
                    go(&g.stream(), s, ind, in_brace);
                    continue;
                }
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    nl(s, ind + 1);
                    go(&g.stream(), s, ind + 1, true);
                    nl(s, ind);
                    s.push_str(c);
                    nl(s, ind);
                } else {
                    go(&g.stream(), s, ind, false);
                    s.push_str(c);
                    s.push(' ');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                if matches!(ch, ';' | ',' | '.' | '?') && s.ends_with(' ') && !joint {
                    s.pop();
                }
                s.push(ch);
                joint = p.spacing() == Spacing::Joint;
                if ch == ';' || (ch == ',' && in_brace) {
                    nl(s, ind);
                } else if !joint && !matches!(ch, '.' | '&' | '!' | '#') {
                    s.push(' ');
                }
                if ch == '\'' {
                    // lifetime tick
                    while s.ends_with(' ') {
                        s.pop();
                    }
                }
            }
            TokenTree::Ident(i) => {
                s.push_str(&i.to_string());
                s.push(' ');
                joint = false;
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
                joint = false;
            }
        }
    }
}
