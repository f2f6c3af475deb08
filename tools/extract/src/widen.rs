use crate::{apply, Edit};
use std::fs;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct W {
    edits: Vec<Edit>,
    in_trait_impl: bool,
}

impl W {
    fn vis(&mut self, v: &syn::Visibility, at: usize) {
        let n = self.edits.len();
        match v {
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => {
                let s = r.span().byte_range();
                self.edits.push(Edit { start: s.start, end: s.end, text: "pub".into(), order: n });
            }
            syn::Visibility::Inherited => {
                self.edits.push(Edit { start: at, end: at, text: "pub ".into(), order: n });
            }
        }
    }
}

impl<'a> Visit<'a> for W {
    fn visit_item_fn(&mut self, i: &'a syn::ItemFn) {
        // nested items inside bodies keep their visibility
        self.vis(&i.vis, i.sig.span().byte_range().start);
    }
    fn visit_item_struct(&mut self, i: &'a syn::ItemStruct) {
        self.vis(&i.vis, i.struct_token.span().byte_range().start);
        for f in i.fields.iter() {
            let at = match &f.ident {
                Some(id) => id.span().byte_range().start,
                None => f.ty.span().byte_range().start,
            };
            self.vis(&f.vis, at);
        }
    }
    fn visit_item_enum(&mut self, i: &'a syn::ItemEnum) {
        self.vis(&i.vis, i.enum_token.span().byte_range().start);
    }
    fn visit_item_const(&mut self, i: &'a syn::ItemConst) {
        self.vis(&i.vis, i.const_token.span().byte_range().start);
    }
    fn visit_item_static(&mut self, i: &'a syn::ItemStatic) {
        self.vis(&i.vis, i.static_token.span().byte_range().start);
    }
    fn visit_item_type(&mut self, i: &'a syn::ItemType) {
        self.vis(&i.vis, i.type_token.span().byte_range().start);
    }
    fn visit_item_trait(&mut self, i: &'a syn::ItemTrait) {
        self.vis(&i.vis, i.trait_token.span().byte_range().start);
    }
    fn visit_item_mod(&mut self, i: &'a syn::ItemMod) {
        self.vis(&i.vis, i.mod_token.span().byte_range().start);
        visit::visit_item_mod(self, i);
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let saved = self.in_trait_impl;
        self.in_trait_impl = i.trait_.is_some();
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) if !self.in_trait_impl => {
                    self.vis(&f.vis, f.sig.span().byte_range().start)
                }
                syn::ImplItem::Const(c) if !self.in_trait_impl => {
                    self.vis(&c.vis, c.const_token.span().byte_range().start)
                }
                _ => {}
            }
        }
        self.in_trait_impl = saved;
    }
}

fn walk(src: &Path, dst: &Path) -> Result<(), String> {
    fs::create_dir_all(dst).map_err(|e| e.to_string())?;
    for ent in fs::read_dir(src).map_err(|e| e.to_string())? {
        let ent = ent.map_err(|e| e.to_string())?;
        let p = ent.path();
        let d = dst.join(ent.file_name());
        if p.is_dir() {
            walk(&p, &d)?;
        } else {
            let bytes = fs::read(&p).map_err(|e| e.to_string())?;
            let new = if p.extension().map(|e| e == "rs").unwrap_or(false) {
                let text = String::from_utf8(bytes).map_err(|e| e.to_string())?;
                match syn::parse_file(&text) {
                    Ok(f) => {
                        let mut w = W { edits: vec![], in_trait_impl: false };
                        w.visit_file(&f);
                        apply(&text, 0, text.len(), &w.edits).into_bytes()
                    }
                    Err(_) => text.into_bytes(),
                }
            } else {
                bytes
            };
            // keep mtimes stable when the content is unchanged
            if fs::read(&d).map(|o| o == new).unwrap_or(false) {
                continue;
            }
            fs::write(&d, new).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}

fn prune(src: &Path, dst: &Path) -> Result<(), String> {
    for ent in fs::read_dir(dst).map_err(|e| e.to_string())? {
        let ent = ent.map_err(|e| e.to_string())?;
        let s = src.join(ent.file_name());
        if ent.path().is_dir() {
            if s.is_dir() {
                prune(&s, &ent.path())?;
            } else {
                fs::remove_dir_all(ent.path()).map_err(|e| e.to_string())?;
            }
        } else if !s.exists() {
            fs::remove_file(ent.path()).map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}

pub fn run(repo: &Path, out: &Path) -> Result<(), String> {
    walk(&repo.join("src"), &out.join("src"))?;
    prune(&repo.join("src"), &out.join("src"))?;
    for f in ["Cargo.toml", "Cargo.lock", "build.rs"] {
        let b = fs::read(repo.join(f)).map_err(|e| format!("{f}: {e}"))?;
        if fs::read(out.join(f)).map(|o| o == b).unwrap_or(false) {
            continue;
        }
        fs::write(out.join(f), b).map_err(|e| e.to_string())?;
    }
    Ok(())
}
