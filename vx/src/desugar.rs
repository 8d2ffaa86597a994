use crate::{find, print, FnSpec};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

type R<T> = std::result::Result<T, String>;

pub fn extract(file: &File, s: &FnSpec) -> R<String> {
    let mut f = find::find(file, &s.path, s.cfg.as_deref())?;
    f.attrs.clear();
    f.vis = Visibility::Inherited;
    if let Some(c) = &s.closure {
        // the body of one closure becomes the function; what it captures are the parameters given in `sig`
        struct V(String, Vec<ExprClosure>);
        impl VisitMut for V { fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { let i = &c.inputs; if print::tokens(quote!(#i)) == self.0 { self.1.push(c.clone()) } visit_mut::visit_expr_closure_mut(self, c); } }
        let mut v = V(print::norm(c), vec![]);
        v.visit_item_fn_mut(&mut f.clone());
        if v.1.len() != 1 { return Err(format!("{} closures with parameters {c}", v.1.len())) }
        let b = v.1[0].body.clone();
        *f.block = match *b { Expr::Block(b) => b.block, e => parse_quote!({ #e }) };
    }
    let assumed = s.opts.iter().any(|o| o == "assumed");
    if assumed { *f.block = parse_quote!({}); }
    // closures that are proved on their own (closure=) leave a name in the function that contains them
    for (k, c) in s.opts.iter().filter(|_| !assumed).filter_map(|o| o.strip_prefix("hole=")).enumerate() {
        struct V(String, String, usize);
        impl VisitMut for V { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Closure(c) = e { let i = &c.inputs; if print::tokens(quote!(#i)) == self.0 { self.2 += 1; let n = format_ident!("{}", self.1); *e = parse_quote!(#n); return } } visit_mut::visit_expr_mut(self, e); } }
        let c = c.replace('~', " ");
        let mut v = V(print::norm(&c), format!("vx_hole{k}"), 0);
        v.visit_item_fn_mut(&mut f);
        if v.2 != 1 { return Err(format!("{} closures with parameters {c}", v.2)) }
    }
    // inline=NAME: a call of NAME with one closure becomes the closure's body, which is what rayoff.rs does for scope and spawn
    for n in s.opts.iter().filter(|_| !assumed).filter_map(|o| o.strip_prefix("inline=")) {
        struct V(String, usize);
        impl VisitMut for V { fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let args = match &*e { Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.0)) => &c.args, Expr::MethodCall(c) if c.method == self.0 => &c.args, _ => return };
            let Some(Expr::Closure(c)) = (if args.len() == 1 { args.first() } else { None }) else { return };
            self.1 += 1;
            let b = (*c.body).clone();
            *e = match b { Expr::Block(b) => Expr::Block(b), b => parse_quote!({ #b }) };
        } }
        let mut v = V(n.to_string(), 0);
        v.visit_item_fn_mut(&mut f);
        if v.1 != 1 { return Err(format!("{} calls of {n}", v.1)) }
    }
    // pre-parse replacements
    let pres: Vec<_> = s.hints.get("pre").map(|t| t.lines().filter_map(|l| l.trim().split_once(" => ").or_else(|| l.trim().strip_suffix(" =>").map(|x| (x, "")))).map(|(a, b)| (print::norm(a), b.to_string())).collect()).unwrap_or_default();
    if !pres.is_empty() {
        let mut t = print::tokens(f.to_token_stream());
        for (a, b) in &pres { t = replace_tokens(&t, a, b).0; }
        f = parse_str(&t).map_err(|e| format!("after pre replacements: {e}"))?;
    }
    if let Some(n) = &s.rename { f.sig.ident = format_ident!("{n}"); }
    if assumed {
        D::new().visit_item_fn_mut(&mut f);
        for i in f.sig.inputs.iter_mut() { match i {
            FnArg::Receiver(r) if r.reference.is_none() => r.mutability = None,
            FnArg::Typed(t) => if let Pat::Ident(p) = &mut *t.pat { p.mutability = None },
            _ => {} } }
        let sig = match &s.sig { Some(t) => t.clone(), None => {
            let mut sg = f.sig.clone();
            let ret = std::mem::replace(&mut sg.output, ReturnType::Default);
            let mut t = print::tokens(quote!(#sg));
            if let Some(g) = s.hints.get("ghostparam") { let i = t.rfind(')').ok_or("signature")?; t = format!("{} , {} )", t[..i].trim_end(), g.trim()); }
            if let ReturnType::Type(_, ty) = ret { t += &format!(" -> ({}: {})", s.ret.as_deref().unwrap_or("r"), print::tokens(ty.to_token_stream())); }
            t } };
        let mut sig = sig;
        for (a, b) in &s.subst { sig = replace_tokens(&sig, a, b).0; }
        return Ok(format!("#[verifier::external_body] pub {sig}\n{}{{ unimplemented!() }}\n", s.header));
    }
    // `mut self` -> a local
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() { if r.reference.is_none() && r.mutability.is_some() {
        r.mutability = None;
        let b = print::tokens(f.block.to_token_stream());
        let (b, _) = replace_tokens(&b, "self", "vx_self");
        let mut b: Block = parse_str(&b).map_err(|e| e.to_string())?;
        b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
        *f.block = b;
    } }
    let mut d = D { ghostargs: s.hints.get("ghostarg").map(|t| t.lines().filter_map(|l| l.trim().split_once(" => ")).map(|(a, b)| (a.into(), b.into())).collect()).unwrap_or_default(), n: 0, err: None, floats: s.opts.iter().filter_map(|o| o.strip_prefix("floats=")).flat_map(|o| o.split(',').map(String::from)).collect(), closed: s.opts.iter().any(|o| o == "closed"), skel: String::new(), pixmap: s.opts.iter().find_map(|o| o.strip_prefix("pixmap=")).map(String::from), zipmode: s.opts.iter().find_map(|o| o.strip_prefix("zipmode=")).and_then(|x| x.parse().ok()).unwrap_or(0), sortkeys: s.opts.iter().any(|o| o == "sortkeys") };
    d.visit_item_fn_mut(&mut f);
    // development aid: with VX_PROBE the verifier has to refuse every function, or its contracts contradict each other
    let probe = std::env::var("VX_PROBE").unwrap_or_default();
    if !probe.is_empty() && probe != "loop" {
        let st: Stmt = parse_quote!(__vx_hint!(probe););
        let n = f.block.stmts.len();
        if probe == "entry" { f.block.stmts.insert(0, st) } else if matches!(f.block.stmts.last(), Some(Stmt::Expr(_, None))) { f.block.stmts.insert(n - 1, st) } else { f.block.stmts.push(st) }
    }
    if let Some(e) = d.err { return Err(e) }
    if let Some(n) = s.nloops { if n != d.n { return Err(format!("the function has {} loops, the proof is for {n}", d.n)) } }
    for k in s.loops.keys() { if *k > d.n { return Err(format!("no loop {k}")) } }
    // signature
    let mut sig = match &s.sig { Some(t) => t.clone(), None => {
        let mut sg = f.sig.clone();
        let ret = std::mem::replace(&mut sg.output, ReturnType::Default);
        let mut t = print::tokens(quote!(#sg));
        if let Some(g) = s.hints.get("ghostparam") { let i = t.rfind(')').ok_or("signature")?; t = format!("{} , {} )", t[..i].trim_end(), g.trim()); }
        if let ReturnType::Type(_, ty) = ret { t += &format!(" -> ({}: {})", s.ret.as_deref().unwrap_or("r"), print::tokens(ty.to_token_stream())); }
        t } };
    let mut body = print::tokens(f.block.to_token_stream());
    for (a, b) in &s.subst { let (t, _) = replace_tokens(&body, a, b); body = t; sig = replace_tokens(&sig, a, b).0; }
    // loop annotations and hints
    let mut out = String::new();
    let mut rest = &body[..];
    while let Some(p) = rest.find("__vx_") {
        let (before, after) = rest.split_at(p);
        let end = after.find(';').ok_or("marker")?;
        let marker: String = after[..end].chars().filter(|c| !c.is_whitespace()).collect();
        rest = &after[end + 1..];
        if let Some(n) = marker.strip_prefix("__vx_loop!(").and_then(|m| m.strip_suffix(')')) {
            let n: usize = n.parse().map_err(|_| "marker")?;
            let b = before.trim_end();
            let b = b.strip_suffix('{').ok_or("loop marker is not at the start of a block")?;
            out += b;
            if let Some(t) = s.loops.get(&n) { out.push('\n'); out += t; }
            out += "{\n";
            out.push_str(s.hints.get(&format!("in loop {n}")).map_or("", |t| t));
        } else if let Some(n) = marker.strip_prefix("__vx_hint!(").and_then(|m| m.strip_suffix(')')) {
            out += before;
            if n == "probe" { out += "\nassert(false); // probe\n"; continue }
            if n.starts_with("end_loop") && std::env::var("VX_PROBE").is_ok_and(|p| p == "loop") { out += "\nassert(false); // probe\n" }
            let key = n.replace('_', " ");
            if let Some(t) = s.hints.get(&key) { out.push('\n'); out += t; }
        } else { return Err(format!("marker {marker}")) }
    }
    out += rest;
    let out = out.trim_start().strip_prefix('{').ok_or("body")?.to_string();
    // anchors on statements: `before TOKENS` / `after TOKENS`, matched on the printed text
    let mut out = out;
    for (k, v) in &s.hints {
        for (kw, after) in [("before ", false), ("after ", true)] {
            if k.starts_with("after loop") || k.starts_with("before loop") { continue }
            if let Some(t) = k.strip_prefix(kw) {
                let (t, many) = t.strip_prefix("* ").map_or((t, false), |t| (t, true));
                let pat = print::norm(t);
                let (o, n) = insert_at(&out, &pat, v, after);
                if n != 1 && !(many && n > 0) { return Err(format!("anchor `{t}` found {n} times")) }
                out = o;
            }
        }
    }
    let entry = s.hints.get("entry").map_or("", |t| t);
    let vis = if s.opts.iter().any(|o| o == "pub") { "pub " } else { "" };
    let attrs = s.hints.get("attrs").map_or("", |t| t);
    Ok(format!("// skeleton: {}\n{attrs}{vis}{sig}\n{}{{\n{entry}{out}\n", d.skel, s.header))
}

fn words(t: &str) -> Vec<(usize, usize)> {
    let mut v = vec![]; let mut start = None;
    for (i, c) in t.char_indices() { if c.is_whitespace() { if let Some(s) = start.take() { v.push((s, i)) } } else if start.is_none() { start = Some(i) } }
    if let Some(s) = start { v.push((s, t.len())) }
    v
}
fn matches_at(t: &str, ws: &[(usize, usize)], i: usize, p: &[&str]) -> bool { i + p.len() <= ws.len() && p.iter().enumerate().all(|(k, w)| &t[ws[i + k].0..ws[i + k].1] == *w) }
pub fn replace_tokens(t: &str, a: &str, b: &str) -> (String, usize) {
    let p: Vec<&str> = a.split_whitespace().collect();
    let ws = words(t);
    let (mut o, mut last, mut i, mut n) = (String::new(), 0, 0, 0);
    while i < ws.len() {
        if !p.is_empty() && matches_at(t, &ws, i, &p) { o += &t[last..ws[i].0]; o += b; last = ws[i + p.len() - 1].1; i += p.len(); n += 1; } else { i += 1 }
    }
    o += &t[last..];
    (o, n)
}
fn insert_at(t: &str, a: &str, ins: &str, after: bool) -> (String, usize) {
    let p: Vec<&str> = a.split_whitespace().collect();
    let ws = words(t);
    let (mut o, mut last, mut n) = (String::new(), 0, 0);
    for i in 0..ws.len() {
        if matches_at(t, &ws, i, &p) { let at = if after { ws[i + p.len() - 1].1 } else { ws[i].0 }; o += &t[last..at]; o.push('\n'); o += ins; last = at; n += 1; }
    }
    o += &t[last..];
    (o, n)
}

pub fn constant(file: &File, name: &str, kind: Option<&str>) -> R<String> {
    for i in &file.items { if let Item::Const(c) = i { if c.ident == name {
        if kind == Some("int") { let (ty, e) = (&c.ty, &c.expr); return Ok(print::tokens(quote!(pub const #name: #ty = #e;)).replace(&format!("\"{name}\""), name) + "\n"); }
        let sp = real_expr(&c.expr)?;
        return Ok(format!("#[verifier::external_body] pub fn {name}() -> (r: F) ensures r.r() == {name}_r() {{ unimplemented!() }}\npub open spec fn {name}_r() -> real {{ {sp} }}\n"));
    } } }
    Err("constant not found".into())
}
/// a struct, enum or type alias as it is in the source: attributes dropped, everything public, f32/f64 -> F.
/// Options: `derive=A,B` adds derives, `A=>B` replaces a token, `drop=field` leaves a field out (listed in DESIGN.md)
pub fn typedef(file: &File, name: &str, opts: &[&str]) -> R<String> {
    let mut found: Option<Item> = None;
    for i in &file.items { match i { Item::Struct(x) if x.ident == name => found = Some(i.clone()), Item::Enum(x) if x.ident == name => found = Some(i.clone()), Item::Type(x) if x.ident == name => found = Some(i.clone()), _ => {} } }
    let mut it = found.ok_or("type not found")?;
    let drops: Vec<&str> = opts.iter().filter_map(|o| o.strip_prefix("drop=")).collect();
    let mut d = D::new();
    d.visit_item_mut(&mut it);
    let publ = |f: &mut Fields, top: bool| {
        if let Fields::Named(n) = f { n.named = std::mem::take(&mut n.named).into_iter().filter(|x| !drops.contains(&x.ident.as_ref().unwrap().to_string().as_str())).collect(); }
        for x in f.iter_mut() { x.attrs.clear(); x.vis = if top { parse_quote!(pub) } else { Visibility::Inherited }; } };
    match &mut it {
        Item::Struct(x) => { x.attrs.clear(); x.vis = parse_quote!(pub); publ(&mut x.fields, true); },
        Item::Enum(x) => { x.attrs.clear(); x.vis = parse_quote!(pub); for v in x.variants.iter_mut() { v.attrs.clear(); publ(&mut v.fields, false); } },
        Item::Type(x) => { x.attrs.clear(); x.vis = parse_quote!(pub); },
        _ => {},
    }
    let mut t = print::tokens(it.to_token_stream());
    for o in opts { if let Some((a, b)) = o.split_once("=>") { let a = if a.contains('~') { a.replace('~', " ") } else { print::norm(a) }; t = replace_tokens(&t, &a, &b.replace('~', " ")).0; } }
    let der = opts.iter().find_map(|o| o.strip_prefix("derive=")).map(|x| format!("#[derive({x})]\n")).unwrap_or_default();
    Ok(format!("{der}{t}\n"))
}
fn real_expr(e: &Expr) -> R<String> {
    Ok(match e {
        Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => real_lit(f.base10_digits())?,
        Expr::Binary(b) => { let op = match b.op { BinOp::Mul(_) => "*", BinOp::Div(_) => "/", BinOp::Add(_) => "+", BinOp::Sub(_) => "-", _ => return Err("op".into()) }; format!("({} {op} {})", real_expr(&b.left)?, real_expr(&b.right)?) },
        Expr::Paren(p) => real_expr(&p.expr)?,
        Expr::Path(p) => format!("{}_r()", p.path.segments.last().unwrap().ident),
        _ => return Err("constant expression".into()),
    })
}
fn real_lit(d: &str) -> R<String> {
    let (m, ex) = match d.split_once(['e', 'E']) { Some((m, e)) => (m, e.parse::<i32>().map_err(|e| e.to_string())?), None => (d, 0) };
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    let digits = format!("{int}{frac}"); let digits = digits.trim_start_matches('0'); let digits = if digits.is_empty() { "0" } else { digits };
    let e = ex - frac.len() as i32;
    if digits == "0" { return Ok("0real".into()) }
    Ok(if e >= 0 { format!("{digits}{}real", "0".repeat(e as usize)) } else {
        // reduce trailing zeros
        let mut dg = digits.to_string(); let mut k = -e;
        while k > 0 && dg.ends_with('0') && dg.len() > 1 { dg.pop(); k -= 1; }
        if k == 0 { format!("{dg}real") } else { format!("({dg}real / 1{}real)", "0".repeat(k as usize)) } })
}

impl D { fn new() -> D { D { n: 0, err: None, floats: vec![], closed: false, skel: String::new(), pixmap: None, zipmode: 0, ghostargs: vec![], sortkeys: false } } }
struct D { ghostargs: Vec<(String, String)>, n: usize, err: Option<String>, floats: Vec<String>, closed: bool, skel: String, pixmap: Option<String>, zipmode: u8, sortkeys: bool }

/// per-iteration code of an iterator chain: indices 0..len, `pre` computes `val`
struct Stream { setup: Vec<Stmt>, lens: Vec<Expr>, pre: Vec<Stmt>, val: Expr, filtered: bool, exact: bool }

fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }
fn is_place(e: &Expr) -> bool { match strip(e) { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr), Expr::Index(i) => is_place(&i.expr) && matches!(*i.index, Expr::Lit(_) | Expr::Path(_)), _ => false } }

impl D {
    fn fail(&mut self, m: impl Into<String>) { if self.err.is_none() { self.err = Some(m.into()) } }

    fn source(&mut self, e: &Expr, n: usize, k: &mut usize, value: bool) -> Option<Stream> {
        let i = format_ident!("vx_i{n}");
        let slice = |d: &mut D, x: &Expr, mode: u8, k: &mut usize| -> Stream {
            let mut setup = vec![];
            let place: Expr = if is_place(x) { x.clone() } else {
                let mut x = x.clone(); d.visit_expr_mut(&mut x);
                let v = format_ident!("vx_s{n}_{}", *k); *k += 1;
                if matches!(x, Expr::Index(_)) { if mode == 1 { setup.push(parse_quote!(let #v = &mut #x;)); } else { setup.push(parse_quote!(let #v = &#x;)); } } else { setup.push(parse_quote!(let #v = #x;)); }
                parse_quote!(#v)
            };
            let val: Expr = match mode { 0 => parse_quote!(&#place[#i]), 1 => parse_quote!(&mut #place[#i]), _ => parse_quote!(#place[#i]) };
            Stream { setup, lens: vec![parse_quote!(#place.len())], pre: vec![], val, filtered: false, exact: true }
        };
        match strip(e) {
            Expr::Reference(r) => { let m = if r.mutability.is_some() { 1 } else { 0 }; if let Expr::Range(_) = strip(&r.expr) { return None } Some(slice(self, &r.expr, m, k)) },
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                let (mut a, mut b) = ((**a).clone(), (**b).clone()); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                if matches!(r.limits, RangeLimits::Closed(_)) { return None }
                let (va, vb) = (format_ident!("vx_a{n}_{}", *k), format_ident!("vx_b{n}_{}", *k)); *k += 1;
                let zero = matches!(&a, Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) if l.base10_digits() == "0");
                if zero { Some(Stream { setup: vec![parse_quote!(let #vb = #b;)], lens: vec![parse_quote!(#vb)], pre: vec![], val: parse_quote!(#i), filtered: false, exact: true }) }
                else { Some(Stream { setup: vec![parse_quote!(let #va = #a;), parse_quote!(let #vb = #b;)], lens: vec![parse_quote!(vx_range_len(#va, #vb))], pre: vec![], val: parse_quote!(#va + #i), filtered: false, exact: true }) }
            },
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let args: Vec<&Expr> = m.args.iter().collect();
                match (name.as_str(), args.len()) {
                    ("iter", 0) => Some(slice(self, &m.receiver, 0, k)),
                    // rows of a bitmap
                    ("rows_mut", 0) => { let r = &m.receiver; if !is_place(r) { return None } Some(Stream { setup: vec![], lens: vec![parse_quote!(#r.vx_len())], pre: vec![], val: parse_quote!(#r.vx_row_mut(#i)), filtered: false, exact: true }) },
                    ("vx_chunks", 1) => { let r = &m.receiver; if !is_place(r) { return None } let mut c = args[0].clone(); self.visit_expr_mut(&mut c); let v = format_ident!("vx_c{n}_{}", *k); *k += 1;
                        Some(Stream { setup: vec![parse_quote!(let #v = #c;)], lens: vec![parse_quote!(vx_chunks_len(#r.vx_len(), #v))], pre: vec![], val: parse_quote!(#r.vx_chunk(#i, #v)), filtered: false, exact: true }) },
                    ("iter_mut", 0) => Some(slice(self, &m.receiver, 1, k)),
                    ("chunks_exact", 1) | ("chunks_exact_mut", 1) => {
                        let mu = name.ends_with("mut");
                        let mut s = slice(self, &m.receiver, mu as u8, k);
                        let mut c = args[0].clone(); self.visit_expr_mut(&mut c);
                        let v = format_ident!("vx_c{n}_{}", *k); *k += 1;
                        s.setup.push(parse_quote!(let #v = #c;));
                        let len = s.lens[0].clone();
                        s.lens = vec![parse_quote!(vx_chunks_exact_len(#len, #v))];
                        let place: Expr = match &s.val { Expr::Reference(r) => match &*r.expr { Expr::Index(ix) => (*ix.expr).clone(), _ => return None }, _ => return None };
                        s.val = if mu { parse_quote!(&mut #place[#i * #v..#i * #v + #v]) } else { parse_quote!(&#place[#i * #v..#i * #v + #v]) };
                        Some(s)
                    },
                    ("enumerate", 0) => { let mut s = self.source(&m.receiver, n, k, value)?; let v = s.val.clone();
                        if s.filtered { let c = format_ident!("vx_k{n}_{}", *k); *k += 1; s.setup.push(parse_quote!(let mut #c: usize = 0;)); let c2 = format_ident!("{c}_v"); s.pre.push(parse_quote!(let #c2 = #c;)); s.pre.push(parse_quote!(#c = #c + 1;)); s.val = parse_quote!((#c2, #v)); }
                        else { s.val = parse_quote!((#i, #v)); } Some(s) },
                    ("copied", 0) | ("cloned", 0) => { let mut s = self.source(&m.receiver, n, k, value)?; let v = s.val.clone(); s.val = if let Expr::Reference(r) = &v { (*r.expr).clone() } else { parse_quote!(*#v) }; Some(s) },
                    ("par_bridge", 0) | ("fuse", 0) | ("into_iter", 0) | ("by_ref", 0) => { if name == "into_iter" && is_place(&m.receiver) { return Some(slice(self, &m.receiver, 2, k)) } self.source(&m.receiver, n, k, value) },
                    ("take", 1) if matches!(strip(&m.receiver), Expr::Call(c) if print::tokens(c.func.to_token_stream()).ends_with("repeat")) => {
                        let Expr::Call(c) = strip(&m.receiver) else { return None };
                        let (mut x, mut l) = (c.args[0].clone(), args[0].clone()); self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut l);
                        let (vr, vt) = (format_ident!("vx_r{n}_{}", *k), format_ident!("vx_t{n}_{}", *k)); *k += 1;
                        Some(Stream { setup: vec![parse_quote!(let #vr = #x;), parse_quote!(let #vt = #l;)], lens: vec![parse_quote!(#vt)], pre: vec![], val: parse_quote!(#vr), filtered: false, exact: true })
                    },
                    ("take", 1) => { let mut s = self.source(&m.receiver, n, k, value)?; if s.filtered { return None } let mut c = args[0].clone(); self.visit_expr_mut(&mut c); let v = format_ident!("vx_t{n}_{}", *k); *k += 1; s.setup.push(parse_quote!(let #v = #c;)); s.lens.push(parse_quote!(#v)); Some(s) },
                    ("skip", 1) => { let mut s = self.source(&m.receiver, n, k, value)?; if s.filtered { return None } let mut c = args[0].clone(); self.visit_expr_mut(&mut c); let v = format_ident!("vx_t{n}_{}", *k); *k += 1; s.setup.push(parse_quote!(let #v = #c;)); s.pre.push(parse_quote!(if #i - 1 < #v { continue; })); s.pre_fix(&i, 0); Some(s) },
                    ("zip", 1) => { let mut s = self.source(&m.receiver, n, k, value)?; if s.filtered { return None }
                        let o = match strip(args[0]) { x @ (Expr::Path(_) | Expr::Field(_)) => { let x = x.clone(); let m = self.zipmode; Some(slice(self, &x, m, k)) }, x => { let x = x.clone(); self.source(&x, n, k, value) } }?;
                        if o.filtered || !o.pre.is_empty() && !s.pre.is_empty() { return None }
                        s.setup.extend(o.setup); s.lens.extend(o.lens); s.pre.extend(o.pre); let (a, b) = (s.val.clone(), o.val); s.val = parse_quote!((#a, #b)); Some(s) },
                    ("map", 1) => { let Expr::Closure(c) = strip(args[0]) else { return None }; let c = c.clone(); let mut s = self.source(&m.receiver, n, k, value)?; let (p, mut b) = (c.inputs[0].clone(), (*c.body).clone()); let p = untype(p);
                        self.visit_expr_mut(&mut b); let v = s.val.clone(); let x = format_ident!("vx_m{n}_{}", *k); *k += 1; s.pre.extend(bind(&p, &v)); s.pre.push(parse_quote!(let #x = #b;)); s.val = parse_quote!(#x); Some(s) },
                    ("filter", 1) => { let Expr::Closure(c) = strip(args[0]) else { return None }; let c = c.clone(); let mut s = self.source(&m.receiver, n, k, value)?; let (p, mut b) = (untype(c.inputs[0].clone()), (*c.body).clone());
                        self.visit_expr_mut(&mut b); let v = s.val.clone(); let x = format_ident!("vx_m{n}_{}", *k); *k += 1;
                        s.pre.push(parse_quote!(let #x = #v;)); let bs = binds(&p, &parse_quote!(&#x)); s.pre.push(parse_quote!(if !{ #bs #b } { continue; })); s.val = parse_quote!(#x); s.filtered = true; Some(s) },
                    ("filter_map", 1) => { let Expr::Closure(c) = strip(args[0]) else { return None }; let c = c.clone(); let mut s = self.source(&m.receiver, n, k, value)?; let (p, mut b) = (untype(c.inputs[0].clone()), (*c.body).clone());
                        self.visit_expr_mut(&mut b); let v = s.val.clone(); let x = format_ident!("vx_m{n}_{}", *k); *k += 1;
                        s.pre.extend(bind(&p, &v)); s.pre.push(parse_quote!(let Some(#x) = #b else { continue; };)); s.val = parse_quote!(#x); s.filtered = true; Some(s) },
                    ("rev", 0) => { let mut s = self.source(&m.receiver, n, k, value)?; if s.filtered || !s.pre.is_empty() || s.lens.len() != 1 { return None }
                        let l = s.lens[0].clone(); let nn = format_ident!("vx_n{n}"); let _ = l; let t = print::tokens(s.val.to_token_stream()); let (t, _) = replace_tokens(&t, &format!("vx_i{n}"), &format!("(vx_n{n} - 1 - vx_i{n})")); let _ = nn; s.val = parse_str(&t).ok()?; Some(s) },
                    _ => None,
                }
            },
            x if value && is_place(x) => Some(slice(self, x, if self.closed { 2 } else { 0 }, k)),
            _ => None,
        }
    }

    /// the statements of the loop over `s`, with `body` using the value
    fn make_loop(&mut self, s: Stream, n: usize, label: Option<Label>, body: Vec<Stmt>) -> Vec<Stmt> {
        let (i, nn) = (format_ident!("vx_i{n}"), format_ident!("vx_n{n}"));
        let mut out = s.setup;
        let mut len = s.lens[0].clone();
        for l in &s.lens[1..] { len = parse_quote!(vx_min(#len, #l)); }
        out.push(parse_quote!(let #nn = #len;));
        out.push(parse_quote!(let mut #i: usize = 0;));
        // the index is advanced first, so that `continue` works; values use the old one
        let mut b: Vec<Stmt> = vec![];
        let old = format!("vx_i{n}"); let cur = format!("vx_j{n}");
        let j = format_ident!("vx_j{n}");
        let ren = |st: Stmt| -> Stmt { let t = print::tokens(st.to_token_stream()); let (t, _) = replace_tokens(&t, &old, &cur); parse_stmt(&t) };
        for st in s.pre { b.push(ren(st)); }
        for st in body { b.push(ren(st)); }
        let nl = n.to_string().parse::<TokenStream>().unwrap();
        let after: TokenStream = format!("after_loop_{n}").parse().unwrap();
        let end: TokenStream = format!("end_loop_{n}").parse().unwrap();
        let lb: Expr = parse_quote!(while #i < #nn { __vx_loop!(#nl); let #j = #i; #i = #i + 1; #(#b)* __vx_hint!(#end); });
        let mut lb = lb; if let Expr::While(w) = &mut lb { w.label = label; }
        let beforeh: TokenStream = format!("before_loop_{n}").parse().unwrap();
        out.push(parse_quote!(__vx_hint!(#beforeh);));
        out.push(Stmt::Expr(lb, None));
        out.push(parse_quote!(__vx_hint!(#after);));
        out
    }

    fn sink(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !["sum", "for_each", "count", "min_by_key", "max_by_key", "any", "all", "max", "min", "collect", "position", "extend"].contains(&name.as_str()) { return None }
        if ["max", "min"].contains(&name.as_str()) && !m.args.is_empty() { return None }
        let recv: Expr = if name == "extend" { m.args[0].clone() } else { (*m.receiver).clone() };
        if !chain(&recv) { return None }
        self.n += 1; let n = self.n; let mut k = 0;
        self.skel += &format!("[{name}");
        let s = match self.source(&recv, n, &mut k, false) { Some(s) => s, None => { self.fail(format!("iterator chain not understood: {}", print::tokens(recv.to_token_stream()))); return None } };
        let acc = format_ident!("vx_acc{n}");
        let v = s.val.clone();
        let mut clo = |d: &mut D| -> Option<(Pat, Expr)> { let Expr::Closure(c) = strip(m.args.first()?) else { return None }; let (p, mut b) = (untype(c.inputs[0].clone()), (*c.body).clone()); d.visit_expr_mut(&mut b); Some((p, b)) };
        let r: (Vec<Stmt>, Vec<Stmt>, Expr) = match name.as_str() {
            "sum" => { let z: Expr = if self.floats.iter().any(|f| f == "intsum") { parse_quote!(0) } else { parse_quote!(f_zero()) }; (vec![parse_quote!(let mut #acc = #z;)], vec![parse_quote!(#acc = #acc + #v;)], parse_quote!(#acc)) },
            "count" => (vec![parse_quote!(let mut #acc: usize = 0;)], vec![parse_quote!(let _ = #v;), parse_quote!(#acc = #acc + 1;)], parse_quote!(#acc)),
            "for_each" => { let (p, b) = clo(self)?; (vec![], bind(&p, &v).into_iter().chain([parse_quote!({ #b; })]).collect(), parse_quote!(())) },
            "any" => { let (p, b) = clo(self)?; (vec![parse_quote!(let mut #acc = false;)], bind(&p, &v).into_iter().chain([parse_quote!(if #b { #acc = true; break; })]).collect(), parse_quote!(#acc)) },
            "all" => { let (p, b) = clo(self)?; (vec![parse_quote!(let mut #acc = true;)], bind(&p, &v).into_iter().chain([parse_quote!(if !(#b) { #acc = false; break; })]).collect(), parse_quote!(#acc)) },
            "min_by_key" | "max_by_key" => { let (p, b) = clo(self)?; let key = format_ident!("vx_key{n}"); let it = format_ident!("vx_it{n}"); let kk = format_ident!("vx_kk{n}");
                let bs = binds(&p, &parse_quote!(&#it)); let cmp: Expr = if name == "min_by_key" { parse_quote!(#kk < #key) } else { parse_quote!(#kk >= #key) };
                (vec![parse_quote!(let mut #acc = None;), parse_quote!(let mut #key = vx_default_key();)], vec![parse_quote!(let #it = #v;), parse_quote!(let #kk = { #bs #b };), parse_quote!(if #acc.is_none() || #cmp { #acc = Some(#it); #key = #kk; })], parse_quote!(#acc)) },
            "min" | "max" => { let it = format_ident!("vx_it{n}"); let cmp: Expr = if name == "min" { parse_quote!(#it < vx_b) } else { parse_quote!(#it >= vx_b) };
                (vec![parse_quote!(let mut #acc = None;)], vec![parse_quote!(let #it = #v;), parse_quote!(#acc = match #acc { None => Some(#it), Some(vx_b) => if #cmp { Some(#it) } else { Some(vx_b) } };)], parse_quote!(#acc)) },
            "extend" => { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); (vec![], vec![parse_quote!(#r.push(#v);)], parse_quote!(())) },
            "collect" => (vec![parse_quote!(let mut #acc = Vec::new();)], vec![parse_quote!(#acc.push(#v);)], parse_quote!(#acc)),
            "position" => { let (p, b) = clo(self)?; let i = format_ident!("vx_i{n}"); (vec![parse_quote!(let mut #acc = None;)], bind(&p, &v).into_iter().chain([parse_quote!(if #b { #acc = Some(#i); break; })]).collect(), parse_quote!(#acc)) },
            _ => return None,
        };
        self.skel.push(']');
        let (init, body, val) = r;
        let loop_ = self.make_loop(s, n, None, body);
        Some(parse_quote!({ #(#init)* #(#loop_)* #val }))
    }

    fn floaty(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::Float(_), .. }) => true,
            Expr::Binary(b) => self.floaty(&b.left) || self.floaty(&b.right),
            Expr::MethodCall(m) => ["sqrt", "mul_add", "powf", "floor", "round"].contains(&m.method.to_string().as_str()) || self.floaty(&m.receiver),
            Expr::Cast(c) => is_f(&c.ty),
            Expr::Call(c) => { let t = print::tokens(c.func.to_token_stream()); t == "f32 :: from" || t == "f64 :: from" },
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.floats.contains(&i.to_string())),
            Expr::Unary(u) => self.floaty(&u.expr),
            _ => false,
        }
    }
}
impl Stream { fn pre_fix(&mut self, _i: &Ident, _: usize) { // skip: written with the advanced index; use the old one
    let l = self.pre.len() - 1; let t = print::tokens(self.pre[l].to_token_stream()); let (a, b) = t.split_once("- 1").unwrap(); self.pre[l] = parse_stmt(&format!("{a}{b}")); } }
fn parse_stmt(t: &str) -> Stmt { let b: Block = parse_str(&format!("{{ {t} }}")).unwrap_or_else(|e| { eprintln!("vx: {e} in {t}"); std::process::exit(3) }); b.stmts.into_iter().next().unwrap() }
/// `let PAT = VAL;` with reference patterns resolved
fn bind(p: &Pat, v: &Expr) -> Vec<Stmt> {
    match p {
        Pat::Paren(q) => bind(&q.pat, v),
        Pat::Reference(q) => { let d: Expr = match strip(v) { Expr::Reference(r) => (*r.expr).clone(), x => parse_quote!((*#x)) }; bind(&q.pat, &d) },
        Pat::Tuple(q) => match strip(v) { Expr::Tuple(t) if t.elems.len() == q.elems.len() => q.elems.iter().zip(t.elems.iter()).flat_map(|(p, v)| bind(p, v)).collect(), _ => vec![parse_quote!(let #p = #v;)] },
        Pat::Type(q) => bind(&q.pat, v),
        _ => vec![parse_quote!(let #p = #v;)],
    }
}
fn binds(p: &Pat, v: &Expr) -> TokenStream { let b = bind(p, v); quote!(#(#b)*) }
fn untype(p: Pat) -> Pat { match p { Pat::Type(t) => *t.pat, p => p } }
fn is_f(t: &Type) -> bool { matches!(t, Type::Path(p) if p.path.is_ident("f32") || p.path.is_ident("f64")) }
/// does the receiver look like an iterator chain over something known?
fn chain(e: &Expr) -> bool {
    match strip(e) {
        Expr::MethodCall(m) => { let n = m.method.to_string(); match n.as_str() { "iter" | "iter_mut" | "chunks_exact" | "chunks_exact_mut" | "rows_mut" | "vx_chunks" => true, "enumerate" | "copied" | "cloned" | "par_bridge" | "fuse" | "into_iter" | "take" | "skip" | "zip" | "map" | "filter" | "filter_map" | "rev" => chain(&m.receiver), _ => false } },
        Expr::Range(r) => r.start.is_some() && r.end.is_some(),
        Expr::Call(c) => print::tokens(c.func.to_token_stream()).ends_with("iter :: repeat"),
        _ => false,
    }
}

impl VisitMut for D {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if is_f(t) { *t = parse_quote!(F); return }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_generic_argument_mut(&mut self, g: &mut GenericArgument) { visit_mut::visit_generic_argument_mut(self, g) }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for st in std::mem::take(&mut b.stmts) {
            match st {
                Stmt::Macro(m) => { let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    match assert_macro(&name, m.mac.tokens.clone()) { Ok(Some(mut e)) => { self.visit_expr_mut(&mut e); out.push(Stmt::Expr(e, None)) }, Ok(None) => out.push(Stmt::Macro(m)), Err(e) => self.fail(e) } },
                Stmt::Item(Item::Const(c)) if is_f(&c.ty) => { let (i, mut e) = (c.ident, *c.expr); self.visit_expr_mut(&mut e); out.push(parse_quote!(let #i = #e;)) },
                mut st => { self.visit_stmt_mut(&mut st); out.push(st) },
            }
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            let t = format!(".{}", m.method);
            for (f, g) in self.ghostargs.clone() { if t == f { match g.parse::<TokenStream>() {
                Ok(x) => if m.args.last().map_or(true, |l| print::tokens(l.to_token_stream()) != print::tokens(x.clone())) { m.args.push(Expr::Verbatim(x)) },
                Err(x) => self.fail(x.to_string()) } } }
        }
        let new: Option<Expr> = match e {
            Expr::ForLoop(f) => {
                self.n += 1; let n = self.n; let mut k = 0;
                self.skel.push_str("(for");
                match self.source(&f.expr, n, &mut k, true) {
                    None => { self.fail(format!("iterator not understood: {}", print::tokens(f.expr.to_token_stream()))); None },
                    Some(s) => {
                        let mut body = f.body.clone(); self.visit_block_mut(&mut body);
                        let (p, v, st) = (untype((*f.pat).clone()), s.val.clone(), body.stmts);
                        let b: Vec<Stmt> = bind(&p, &v).into_iter().chain(st).collect();
                        let l = self.make_loop(s, n, f.label.clone(), b);
                        self.skel.push(')');
                        Some(parse_quote!({ #(#l)* }))
                    },
                }
            },
            Expr::While(w) => { self.n += 1; let n = self.n; self.skel.push_str("(while"); self.visit_expr_mut(&mut w.cond); self.visit_block_mut(&mut w.body); self.skel.push(')'); mark(&mut w.body, n); let ah = after(n); let w = w.clone(); Some(parse_quote!({ #w #ah })) },
            Expr::Loop(w) => { self.n += 1; let n = self.n; self.skel.push_str("(loop"); self.visit_block_mut(&mut w.body); self.skel.push(')');
                // `break VALUE` leaves the value in a variable
                struct B(syn::Ident, usize);
                impl VisitMut for B { fn visit_expr_mut(&mut self, e: &mut Expr) { match e {
                    Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => return,
                    Expr::Break(b) if b.label.is_none() => if let Some(v) = b.expr.take() { self.1 += 1; let i = &self.0; *e = parse_quote!({ #i = Some(#v); break; }); return },
                    _ => {} } visit_mut::visit_expr_mut(self, e) } }
                let mut b = B(format_ident!("vx_brk{n}"), 0);
                for st in w.body.stmts.iter_mut() { b.visit_stmt_mut(st) }
                mark(&mut w.body, n);
                if b.1 == 0 { return }
                let (i, w) = (b.0, w.clone()); Some(parse_quote!({ let mut #i = None; #w #i.unwrap() })) },
            Expr::MethodCall(m) => {
                if let Some(x) = self.sink(m) { Some(x) } else {
                    let name = m.method.to_string();
                    if self.err.is_some() { return }
                    match (name.as_str(), m.args.len()) {
                        ("sort_unstable_by_key", 1) | ("sort_by_key", 1) if self.sortkeys && matches!(m.args.last().map(strip), Some(Expr::Closure(c)) if c.inputs.len() == 1) => {
                            // the keys are computed first; the contract of vx_sort_keys gives the order
                            self.n += 1; let n = self.n; let mut k = 0; self.skel += "[sort]";
                            let Some(Expr::Closure(c)) = m.args.last().map(strip) else { unreachable!() };
                            let (p, mut b, r) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone());
                            self.visit_expr_mut(&mut b);
                            let src: Expr = parse_quote!(#r.iter());
                            let Some(s) = self.source(&src, n, &mut k, false) else { self.fail("sort"); return };
                            let v = s.val.clone(); let keys = format_ident!("vx_keys{n}");
                            let mut body = bind(&p, &v); body.push(parse_quote!(#keys.push(#b);));
                            let l = self.make_loop(s, n, None, body);
                            let mut r2 = r.clone(); self.visit_expr_mut(&mut r2);
                            Some(parse_quote!({ let mut #keys = Vec::new(); #(#l)* vx_sort_keys(&mut #r2, &#keys) }))
                        },
                        ("sort_unstable_by_key", 1) | ("sort_by_key", 1) | ("select_nth_unstable_by_key", 2) if matches!(m.args.last().map(strip), Some(Expr::Closure(c)) if c.inputs.len() == 1) => {
                            // the key function is evaluated on the elements, then the order is arbitrary (or as the contract of vx_sort says)
                            self.n += 1; let n = self.n; let mut k = 0; self.skel += "[sort]";
                            let Some(Expr::Closure(c)) = m.args.last().map(strip) else { unreachable!() };
                            let (p, mut b, r) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone());
                            self.visit_expr_mut(&mut b);
                            let src: Expr = parse_quote!(#r.iter());
                            let Some(s) = self.source(&src, n, &mut k, false) else { self.fail("sort"); return };
                            let v = s.val.clone();
                            let mut body = bind(&p, &v); body.push(parse_quote!(let _ = #b;));
                            let l = self.make_loop(s, n, None, body);
                            let mut r2 = r.clone(); self.visit_expr_mut(&mut r2);
                            if name.starts_with("select") { let mut a0 = m.args[0].clone(); self.visit_expr_mut(&mut a0); Some(parse_quote!({ #(#l)* vx_select_nth(#r2, #a0) })) }
                            else { Some(parse_quote!({ #(#l)* vx_sort(&mut #r2) })) }
                        },
                        ("sort_by_cached_key", 1) if matches!(m.args.last().map(strip), Some(Expr::Closure(c)) if c.inputs.len() == 1) => {
                            // the keys are computed first, once per element, then the elements are ordered by them
                            self.n += 1; let n = self.n; let mut k = 0; self.skel += "[sort]";
                            let Some(Expr::Closure(c)) = m.args.last().map(strip) else { unreachable!() };
                            let (p, mut b, r) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone());
                            self.visit_expr_mut(&mut b);
                            let src: Expr = parse_quote!(#r.iter());
                            let Some(s) = self.source(&src, n, &mut k, false) else { self.fail("sort"); return };
                            let v = s.val.clone(); let keys = format_ident!("vx_keys{n}");
                            let mut body = bind(&p, &v); body.push(parse_quote!(#keys.push(#b);));
                            let l = self.make_loop(s, n, None, body);
                            let mut r2 = r.clone(); self.visit_expr_mut(&mut r2);
                            Some(parse_quote!({ let mut #keys: Vec<F> = Vec::new(); #(#l)* vx_sort_cached(#r2, &#keys) }))
                        },
                        ("contains", 1) if matches!(strip(&m.receiver), Expr::Range(r) if r.start.is_some() && r.end.is_some()) => {
                            let Expr::Range(r) = strip(&m.receiver) else { unreachable!() };
                            let (mut a, mut b, mut x) = ((**r.start.as_ref().unwrap()).clone(), (**r.end.as_ref().unwrap()).clone(), m.args[0].clone());
                            self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); self.visit_expr_mut(&mut x);
                            let x: Expr = match strip(&x) { Expr::Reference(r) => (*r.expr).clone(), y => parse_quote!(*#y) };
                            Some(if matches!(r.limits, RangeLimits::Closed(_)) { parse_quote!({ let vx_x = #x; #a <= vx_x && vx_x <= #b }) } else { parse_quote!({ let vx_x = #x; #a <= vx_x && vx_x < #b }) })
                        },
                        ("or_insert", 1) => {
                            // map.entry(K).and_modify(|e| M).or_insert(V): look the key up, store the modified or the new value
                            let Expr::MethodCall(am) = strip(&m.receiver) else { self.fail("or_insert"); return };
                            let (modi, en) = if am.method == "and_modify" { let Some(Expr::Closure(c)) = am.args.first().map(strip) else { self.fail("and_modify"); return }; let Expr::MethodCall(en) = strip(&am.receiver) else { self.fail("entry"); return }; (Some(c.clone()), en.clone()) } else { (None, am.clone()) };
                            if en.method != "entry" { self.fail("entry"); return }
                            let (mut map, mut key, mut v) = ((*en.receiver).clone(), en.args[0].clone(), m.args[0].clone());
                            self.visit_expr_mut(&mut map); self.visit_expr_mut(&mut key); self.visit_expr_mut(&mut v);
                            let upd: TokenStream = match modi { Some(c) => { let (p, mut b) = (untype(c.inputs[0].clone()), (*c.body).clone()); self.visit_expr_mut(&mut b); let bs = binds(&p, &parse_quote!(&mut vx_e)); quote!({ #bs #b; }) }, None => quote!() };
                            Some(parse_quote!({ let vx_k = #key; let vx_v = #v; match #map.vx_get(vx_k) { Some(vx_old) => { let mut vx_e = vx_old; #upd #map.vx_put(vx_k, vx_e); }, None => { #map.vx_put(vx_k, vx_v); } } }))
                        },
                        ("unwrap_or_default", 0) => { let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r); Some(parse_quote!(#r.unwrap_or(vx_default()))) },
                        ("map", 1) if self.pixmap.is_some() && matches!(strip(&m.args[0]), Expr::Closure(c) if c.inputs.len() == 1) => {
                            let Expr::Closure(c) = strip(&m.args[0]) else { unreachable!() };
                            let (p, mut b, mut r) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone());
                            self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b);
                            let ty = format_ident!("{}", self.pixmap.clone().unwrap());
                            let ch = |c: &str| -> Expr { let c = format_ident!("{c}"); let bs = binds(&p, &parse_quote!(vx_p.#c)); parse_quote!({ #bs #b }) };
                            let (a, rr, g, bl) = (ch("a"), ch("r"), ch("g"), ch("b"));
                            Some(parse_quote!({ let vx_p = #r; #ty { a: #a, r: #rr, g: #g, b: #bl } }))
                        },
                        ("get_unchecked", 1) => { let (r, a) = (&m.receiver, &m.args[0]); let mut x: Expr = parse_quote!((&#r[#a])); self.visit_expr_mut(&mut x); Some(x) },
                        ("get_unchecked_mut", 1) => { let (r, a) = (&m.receiver, &m.args[0]); let mut x: Expr = parse_quote!((&mut #r[#a])); self.visit_expr_mut(&mut x); Some(x) },
                        ("map", 1) | ("and_then", 1) | ("map_err", 1) if matches!(strip(&m.args[0]), Expr::Closure(c) if c.inputs.len() == 1) => {
                            let Expr::Closure(c) = strip(&m.args[0]) else { unreachable!() };
                            let (p, mut b, mut r) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone());
                            self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); let bs = binds(&p, &parse_quote!(vx_o));
                            Some(match name.as_str() { "map" => parse_quote!(match #r { Some(vx_o) => { #bs Some(#b) }, None => None }), "and_then" => parse_quote!(match #r { Some(vx_o) => { #bs #b }, None => None }), _ => parse_quote!(match #r { Ok(vx_o) => Ok(vx_o), Err(vx_o) => { #bs Err(#b) } }) })
                        },
                        ("map_or", 2) if matches!(strip(&m.args[1]), Expr::Closure(c) if c.inputs.len() == 1) => {
                            let Expr::Closure(c) = strip(&m.args[1]) else { unreachable!() };
                            let (p, mut b, mut r, mut d) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone(), m.args[0].clone());
                            self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut d); self.visit_expr_mut(&mut b); let bs = binds(&p, &parse_quote!(vx_o));
                            Some(parse_quote!(match #r { Some(vx_o) => { #bs #b }, None => #d }))
                        },
                        ("filter", 1) if matches!(strip(&m.args[0]), Expr::Closure(_)) => {
                            let Expr::Closure(c) = strip(&m.args[0]) else { unreachable!() };
                            let (p, mut b, mut r) = (untype(c.inputs[0].clone()), (*c.body).clone(), (*m.receiver).clone());
                            self.visit_expr_mut(&mut r); self.visit_expr_mut(&mut b); let bs = binds(&p, &parse_quote!(&vx_o));
                            Some(parse_quote!(match #r { Some(vx_o) => if { #bs #b } { Some(vx_o) } else { vx_drop(vx_o); None }, None => None }))
                        },
                        _ => None,
                    }
                }
            },
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op { BinOp::AddAssign(_) => Some(parse_quote!(+)), BinOp::SubAssign(_) => Some(parse_quote!(-)), BinOp::MulAssign(_) => Some(parse_quote!(*)), BinOp::DivAssign(_) => Some(parse_quote!(/)), _ => None };
                match op { Some(op) => { let (l, mut r) = ((*b.left).clone(), (*b.right).clone()); self.visit_expr_mut(&mut r); let mut l2 = l.clone(); self.visit_expr_mut(&mut l2);
                        let needs = !matches!(strip(&r), Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) | Expr::Index(_) | Expr::Block(_));
                        Some(if matches!(strip(&r), Expr::Block(_)) { parse_quote!({ let vx_rhs = #r; #l2 = #l2 #op vx_rhs; }) } else if needs { parse_quote!(#l2 = #l2 #op (#r)) } else { parse_quote!(#l2 = #l2 #op #r) }) }, None => None }
            },
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => match real_lit(f.base10_digits()) { Ok(t) => { let t: TokenStream = t.parse().unwrap(); let x: TokenStream = quote!(fl(Ghost(#t))); Some(Expr::Verbatim(x)) }, Err(m) => { self.fail(m); None } },
            Expr::Cast(c) if is_f(&c.ty) => { let mut x = (*c.expr).clone(); self.visit_expr_mut(&mut x); Some(parse_quote!(to_f(#x))) },
            Expr::Cast(c) if self.floaty(&c.expr) => { let ty = print::tokens(c.ty.to_token_stream()); let f = format_ident!("f_to_{}", if ty == "_" { "any".into() } else { ty }); let mut x = (*c.expr).clone(); self.visit_expr_mut(&mut x); Some(parse_quote!(#f(#x))) },
            Expr::Call(c) => {
                let t = print::tokens(c.func.to_token_stream());
                for (f, g) in self.ghostargs.clone() { if t == f { match g.parse::<TokenStream>() { Ok(x) => c.args.push(Expr::Verbatim(x)), Err(x) => self.fail(x.to_string()) } } }
                match t.as_str() {
                    "f32 :: from" | "f64 :: from" => { let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x); Some(parse_quote!(to_f(#x))) },
                    "OrdFloat :: new" | "OrdFloat :: new64" => { let mut x = c.args[0].clone(); self.visit_expr_mut(&mut x); Some(parse_quote!((#x))) },
                    _ => None,
                }
            },
            Expr::Path(p) if p.path.segments.len() == 2 && ["f32", "f64"].contains(&p.path.segments[0].ident.to_string().as_str()) && ["INFINITY", "MAX", "NAN", "MIN"].contains(&p.path.segments[1].ident.to_string().as_str()) => { let i = format_ident!("F_{}", p.path.segments[1].ident); Some(parse_quote!(#i())) },
            Expr::Unsafe(u) => { let mut b = u.block.clone(); self.visit_block_mut(&mut b); Some(parse_quote!(#b)) },
            Expr::Macro(m) => { let name = m.mac.path.segments.last().unwrap().ident.to_string(); if name == "format" { Some(parse_quote!(vx_format())) } else if name == "matches" { None } else { match assert_macro(&name, m.mac.tokens.clone()) { Ok(Some(mut x)) => { self.visit_expr_mut(&mut x); Some(x) }, Ok(None) => None, Err(x) => { self.fail(x); None } } } },
            _ => None,
        };
        match new { Some(n) => *e = n, None => visit_mut::visit_expr_mut(self, e) }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 2 && (p.segments[0].ident == "f32" || p.segments[0].ident == "f64") { let n = p.segments[1].ident.to_string(); *p = match n.as_str() { "INFINITY" | "MAX" | "NAN" | "MIN" => { let i = format_ident!("F_{n}"); parse_quote!(#i) }, _ => { let i = &p.segments[1].ident; parse_quote!(F::#i) } }; }
        visit_mut::visit_path_mut(self, p);
    }
}
fn after(n: usize) -> Stmt { let t: TokenStream = format!("after_loop_{n}").parse().unwrap(); parse_quote!(__vx_hint!(#t);) }
fn mark(b: &mut Block, n: usize) { let t: TokenStream = n.to_string().parse().unwrap(); b.stmts.insert(0, parse_quote!(__vx_loop!(#t);)); let e: TokenStream = format!("end_loop_{n}").parse().unwrap();
    // a trailing expression without semicolon gets one only if it is unit-typed; hint goes before nothing then
    if !matches!(b.stmts.last(), Some(Stmt::Expr(Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_), None)) | Some(Stmt::Expr(_, Some(_))) | Some(Stmt::Local(_)) | Some(Stmt::Macro(_))) { return }
    b.stmts.push(parse_quote!(__vx_hint!(#e);)); }
fn assert_macro(name: &str, t: TokenStream) -> R<Option<Expr>> {
    let args = || -> R<Vec<Expr>> { use syn::parse::Parser; let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated; Ok(p.parse2(t.clone()).map_err(|e| e.to_string())?.into_iter().collect()) };
    Ok(match name {
        "debug_assert" | "assert" => { let a = args()?; let c = &a[0]; Some(parse_quote!(if !(#c) { vx_panic(); })) },
        "debug_assert_eq" | "assert_eq" => { let a = args()?; let (x, y) = (&a[0], &a[1]); Some(parse_quote!(if !(#x == #y) { vx_panic(); })) },
        "unreachable" | "panic" | "unimplemented" => Some(parse_quote!({ vx_panic(); })),
        _ => None,
    })
}
