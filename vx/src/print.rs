use proc_macro2::*;
/// one canonical spacing, so that text replacement does not depend on formatting
pub fn tokens(ts: TokenStream) -> String { let mut o = String::new(); put(ts, &mut o, 0); o }
fn put(ts: TokenStream, o: &mut String, ind: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut joint = false;
    for (k, t) in v.iter().enumerate() {
        if !joint && !o.is_empty() && !o.ends_with([' ', '\n']) { o.push(' ') }
        joint = false;
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                o.push_str(a);
                if g.delimiter() == Delimiter::Brace && !g.stream().is_empty() {
                    nl(o, ind + 1); put(g.stream(), o, ind + 1); nl(o, ind); o.push_str(b);
                    let follow = matches!(v.get(k + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?' | ')')) || matches!(v.get(k + 1), Some(TokenTree::Ident(i)) if *i == "else");
                    if !follow && k + 1 < v.len() { nl(o, ind) }
                } else { put(g.stream(), o, ind); if !o.ends_with([' ', '\n']) && !b.is_empty() { o.push(' ') } o.push_str(b); }
            },
            TokenTree::Punct(p) => { o.push(p.as_char()); joint = p.spacing() == Spacing::Joint || p.as_char() == '\''; if p.as_char() == ';' && k + 1 < v.len() { nl(o, ind) } },
            t => o.push_str(&t.to_string()),
        }
    }
}
fn nl(o: &mut String, ind: usize) { while o.ends_with(' ') { o.pop(); } o.push('\n'); for _ in 0..ind { o.push_str("    ") } }
/// collapse white space; the same tokens in the same spacing
pub fn norm(s: &str) -> String {
    match s.parse::<TokenStream>() { Ok(t) => tokens(t).split_whitespace().collect::<Vec<_>>().join(" "), Err(_) => s.split_whitespace().collect::<Vec<_>>().join(" ") }
}
