use syn::*;
/// `name`, `Type::name`; functions of `#[cfg(...)]` variants chosen by a substring of the attributes
pub fn find<'a>(file: &'a File, path: &str, cfg: Option<&str>) -> std::result::Result<ItemFn, String> {
    let (ty, name) = match path.rsplit_once("::") { Some((t, n)) => (Some(t), n), None => (None, path) };
    let mut found = vec![];
    walk(&file.items, ty, name, cfg, &mut found);
    match found.len() { 1 => Ok(found.pop().unwrap()), 0 => Err("function not found".into()), n => Err(format!("{n} functions of that name")) }
}
fn ok(attrs: &[Attribute], cfg: Option<&str>) -> bool {
    use quote::ToTokens;
    let t: String = attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>().split_whitespace().collect();
    if t.contains("#[test]") { return false }
    cfg.map_or(true, |c| t.contains(c))
}
fn walk(items: &[Item], ty: Option<&str>, name: &str, cfg: Option<&str>, out: &mut Vec<ItemFn>) {
    for i in items {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name && ok(&f.attrs, cfg) => out.push(f.clone()),
            Item::Impl(im) => {
                let Some(t) = ty else { continue };
                let Type::Path(p) = &*im.self_ty else { continue };
                let mut tn = p.path.segments.last().unwrap().ident.to_string();
                // Trait for Type is written Type@Trait
                if let Some((_, tr, _)) = &im.trait_ { tn = format!("{tn}@{}", tr.segments.last().unwrap().ident); }
                if tn != t { continue }
                for it in &im.items {
                    if let ImplItem::Fn(f) = it { if f.sig.ident == name && ok(&f.attrs, cfg) {
                        out.push(ItemFn { attrs: f.attrs.clone(), vis: f.vis.clone(), sig: f.sig.clone(), block: Box::new(f.block.clone()) });
                    } }
                }
            },
            Item::Mod(m) => if let Some((_, items)) = &m.content { if m.ident != "verif_kani" { walk(items, ty, name, cfg, out) } },
            _ => {},
        }
    }
}
