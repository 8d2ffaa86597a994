//! vx: takes functions out of /repo's current sources and puts them, with their contracts, into a file for Verus.
//! Usage: vx TEMPLATE REPO OUT
//! See DESIGN.md for the rewriting rules; everything that is not listed there is copied token by token.
mod desugar;
mod find;
mod print;
use std::collections::HashMap;

#[derive(Default, Debug)]
pub struct FnSpec {
    pub file: String, pub path: String, pub cfg: Option<String>, pub rename: Option<String>, pub ret: Option<String>,
    /// text between signature and body
    pub header: String,
    /// loop number -> invariant text
    pub loops: HashMap<usize, String>,
    /// anchor -> text
    pub hints: HashMap<String, String>,
    /// token replacements on the printed text
    pub subst: Vec<(String, String)>,
    /// signature replaced entirely
    pub sig: Option<String>,
    pub nloops: Option<usize>,
    /// only the body of the closure with these parameters
    pub closure: Option<String>,
    /// options
    pub opts: Vec<String>,
}

fn fail(msg: &str) -> ! { eprintln!("vx: {msg}"); std::process::exit(3) }

/// `import`: the unit's definitions with its functions as contracts only; each file is taken once, and what lies between //@local and //@shared is left out
fn expand(p: &std::path::Path, seen: &mut Vec<std::path::PathBuf>, import: Option<&str>) -> String {
    let mut out = String::new();
    if seen.iter().any(|s| s == p) { return out }
    seen.push(p.to_path_buf());
    let text = std::fs::read_to_string(p).unwrap_or_else(|e| fail(&format!("{p:?} {e}")));
    let mut local = false;
    for l in text.lines() {
        let t = l.trim();
        if t == "//@local" { local = true; continue }
        if t == "//@shared" { local = false; continue }
        if local && import.is_some() { continue }
        if let Some(f) = t.strip_prefix("//@include ") { out += &expand(&p.parent().unwrap().join(f.trim()), seen, None); }
        else if let Some(f) = t.strip_prefix("//@import ") { out += &expand(&p.parent().unwrap().join(f.trim()), seen, Some(f.trim())); }
        else if let (Some(u), Some(r)) = (import, t.strip_prefix("//@fn ")) { out += &format!("//@ifn {u} {r}"); }
        else if import.is_some() && t == "fn main() {}" {}
        else { out += l; }
        out.push('\n');
    }
    out
}

fn parse_fn<'a>(rest: &str, lines: &mut impl Iterator<Item = &'a str>) -> FnSpec {
            let mut s = FnSpec::default();
            let mut w = rest.split_whitespace();
            s.file = w.next().unwrap().into();
            s.path = w.next().unwrap().into();
            while let Some(x) = w.next() {
                if let Some(c) = x.strip_prefix("cfg=") { s.cfg = Some(c.into()) }
                else if let Some(c) = x.strip_prefix("as=") { s.rename = Some(c.into()) }
                else if let Some(c) = x.strip_prefix("ret=") { s.ret = Some(c.into()) }
                else if let Some(c) = x.strip_prefix("loops=") { s.nloops = c.parse().ok() }
                else if let Some(c) = x.strip_prefix("closure=") { s.closure = Some(c.replace('~', " ")) }
                else { s.opts.push(x.into()) }
            }
            // block: sections separated by "//@" lines until //@end
            let mut section = "header".to_string();
            loop {
                let Some(l) = lines.next() else { fail("missing //@end") };
                let t = l.trim();
                if t == "//@end" { break }
                if let Some(d) = t.strip_prefix("//@") {
                    let d = d.trim();
                    if let Some(r) = d.strip_prefix("subst ") {
                        let (x, y) = r.split_once(" => ").unwrap_or_else(|| r.strip_suffix(" =>").map(|x| (x, "")).unwrap_or_else(|| fail("bad subst")));
                        s.subst.push((print::norm(x), y.trim().to_string()));
                    } else if let Some(r) = d.strip_prefix("sig ") { s.sig = Some(r.into()) }
                    else { section = d.to_string() }
                    continue;
                }
                if section == "header" { s.header += l; s.header.push('\n') }
                else if let Some(n) = section.strip_prefix("loop ") { let e = s.loops.entry(n.trim().parse().unwrap()).or_default(); *e += l; e.push('\n') }
                else { let e = s.hints.entry(section.clone()).or_default(); *e += l; e.push('\n') }
            }
            s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = expand(std::path::Path::new(&a[1]), &mut vec![], None);
    let repo = &a[2];
    let mut out = String::new();
    let mut lines = text.lines().peekable();
    let mut cache = HashMap::new();
    while let Some(l) = lines.next() {
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@fn ") {
            let mut s = parse_fn(rest, &mut lines);
            let label = format!("{}: {}{}", s.file, s.path, s.rename.as_ref().map(|n| format!(" as {n}")).unwrap_or_default());
            // --lost LABEL: the body is out of reach, its contract is taken as it is
            let lost = a[4..].iter().any(|x| *x == label);
            if lost { s.opts.push("assumed".into()) }
            let file = cache.entry(s.file.clone()).or_insert_with(|| {
                let p = format!("{repo}/{}", s.file);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(&format!("{p}: {e}")));
                syn::parse_file(&t).unwrap_or_else(|e| fail(&format!("{p}: {e}")))
            });
            match desugar::extract(file, &s) {
                Ok(t) => { out += &if lost { format!("// @@lost {label}\n{t}") } else { format!("// @@begin {label}\n{t}// @@end {}\n", s.path) } }
                Err(e) => fail(&format!("{}[{label}] {e}", if lost { "signature " } else { "" })),
            }
        } else if let Some(rest) = t.strip_prefix("//@assume ") {
            // the contract a function is proved to have in another unit, on its current signature
            let (unit, what) = rest.split_once(' ').unwrap_or_else(|| fail("bad assume"));
            let other = expand(&std::path::Path::new(&a[1]).parent().unwrap().join(unit), &mut vec![], None);
            let mut ol = other.lines();
            let key = format!("//@fn {} ", what.trim());
            let Some(first) = ol.by_ref().find(|l| format!("{} ", l.trim()).starts_with(&key)) else { fail(&format!("no {what} in {unit}")) };
            let mut s = parse_fn(first.trim().strip_prefix("//@fn ").unwrap(), &mut ol);
            s.opts.push("assumed".into());
            let file = cache.entry(s.file.clone()).or_insert_with(|| {
                let p = format!("{repo}/{}", s.file);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(&format!("{p}: {e}")));
                syn::parse_file(&t).unwrap_or_else(|e| fail(&format!("{p}: {e}")))
            });
            match desugar::extract(file, &s) {
                Ok(t) => { out += &format!("// @@assumed {} {} proved in {}\n{}", s.path, s.file, unit.trim_end_matches(".rs"), t) }
                Err(e) => fail(&format!("{} {}: {e}", s.file, s.path)),
            }
        } else if let Some(rest) = t.strip_prefix("//@ifn ") {
            let (unit, what) = rest.split_once(' ').unwrap_or_else(|| fail("bad ifn"));
            let mut s = parse_fn(what, &mut lines);
            s.opts.push("assumed".into());
            let file = cache.entry(s.file.clone()).or_insert_with(|| {
                let p = format!("{repo}/{}", s.file);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(&format!("{p}: {e}")));
                syn::parse_file(&t).unwrap_or_else(|e| fail(&format!("{p}: {e}")))
            });
            match desugar::extract(file, &s) {
                Ok(t) => { out += &format!("// @@assumed {} {} proved in {}\n{}", s.path, s.file, unit.trim_end_matches(".rs"), t) }
                Err(e) => fail(&format!("{} {}: {e}", s.file, s.path)),
            }
        } else if let Some(rest) = t.strip_prefix("//@const ") {
            let w: Vec<_> = rest.split_whitespace().collect();
            let file = cache.entry(w[0].to_string()).or_insert_with(|| {
                let p = format!("{repo}/{}", w[0]);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(&format!("{p}: {e}")));
                syn::parse_file(&t).unwrap_or_else(|e| fail(&format!("{p}: {e}")))
            });
            match desugar::constant(file, w[1], w.get(2).copied()) { Ok(t) => out += &t, Err(e) => fail(&format!("{} {}: {e}", w[0], w[1])) }
        } else if let Some(rest) = t.strip_prefix("//@type ") {
            let w: Vec<_> = rest.split_whitespace().collect();
            let file = cache.entry(w[0].to_string()).or_insert_with(|| {
                let p = format!("{repo}/{}", w[0]);
                let t = std::fs::read_to_string(&p).unwrap_or_else(|e| fail(&format!("{p}: {e}")));
                syn::parse_file(&t).unwrap_or_else(|e| fail(&format!("{p}: {e}")))
            });
            match desugar::typedef(file, w[1], &w[2..]) { Ok(t) => out += &t, Err(e) => fail(&format!("{} {}: {e}", w[0], w[1])) }
        } else { out += l; out.push('\n') }
    }
    std::fs::write(&a[3], out).unwrap_or_else(|e| fail(&e.to_string()));
}
