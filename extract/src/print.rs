// Token printer: one statement per line, so that diagnostics have useful lines.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

fn go(ts: TokenStream, out: &mut String, nl: bool, depth: usize) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut joint = true; // no blank before the first token
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    out.push_str(" {");
                    if nl {
                        out.push('\n');
                    } else {
                        out.push(' ');
                    }
                    go(g.stream(), out, nl, depth + 1);
                    if nl {
                        if !out.ends_with('\n') {
                            out.push('\n');
                        }
                    } else {
                        out.push(' ');
                    }
                    out.push_str(c);
                    // newline unless something continues the expression
                    let cont = match toks.get(i + 1) {
                        Some(TokenTree::Punct(_)) => true,
                        Some(TokenTree::Ident(id)) => id == "else" || id == "as",
                        None => true,
                        _ => false,
                    };
                    if nl && !cont {
                        out.push('\n');
                        joint = true;
                    } else {
                        joint = false;
                    }
                } else {
                    let prev_tight = matches!(toks.get(i.wrapping_sub(1)), Some(TokenTree::Ident(id)) if !["in","if","while","match","return","let","else","mut","as","for"].contains(&id.to_string().as_str()))
                        || matches!(toks.get(i.wrapping_sub(1)), Some(TokenTree::Punct(p)) if p.as_char() == '!' || p.as_char() == '>' || p.as_char() == '&' || p.as_char() == '#')
                        || matches!(toks.get(i.wrapping_sub(1)), Some(TokenTree::Group(_)));
                    if !joint && !prev_tight && !out.ends_with(' ') && !out.ends_with('\n') {
                        out.push(' ');
                    }
                    out.push_str(o);
                    go(g.stream(), out, nl, depth + 1);
                    out.push_str(c);
                    joint = false;
                }
            }
            TokenTree::Punct(p) => {
                let ch = p.as_char();
                let tight = ch == ',' || ch == ';' || ch == '.' || ch == '?' || ch == ':';
                if !joint && !tight && !out.ends_with(' ') && !out.ends_with('\n') {
                    out.push(' ');
                }
                out.push(ch);
                joint = p.spacing() == Spacing::Joint || ch == '.' || ch == '\'' || ch == '&';
                if ch == ':' {
                    // `::` is tight on both sides, `:` is followed by a blank
                    let prev_colon = i > 0
                        && matches!(&toks[i - 1], TokenTree::Punct(q) if q.as_char() == ':' && q.spacing() == Spacing::Joint);
                    if prev_colon {
                        joint = true;
                    }
                }
                if ch == '!' {
                    // macro bang or not: keep the operand tight
                    joint = true;
                }
                if ch == ';' && nl {
                    out.push('\n');
                    joint = true;
                }
            }
            t => {
                if !joint && !out.ends_with(' ') && !out.ends_with('\n') {
                    out.push(' ');
                }
                out.push_str(&t.to_string());
                joint = false;
            }
        }
        i += 1;
    }
}

pub fn block(b: &syn::Block) -> String {
    let mut s = String::new();
    go(b.to_token_stream(), &mut s, true, 0);
    s
}
pub fn inline(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts.clone(), &mut s, false, 0);
    s
}
