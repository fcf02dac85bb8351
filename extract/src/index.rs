// Index of the source files: every function, constant and type definition,
// by key `alias::fn`, `alias::Type::method`, `alias::Trait<..> for Type::method`,
// `alias::trait Trait::method`.  Test code is skipped.
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::*;

#[derive(Clone)]
pub struct SrcFn {
    pub key: String,
    pub name: String,
    pub sig: Signature,
    pub block: Block,
    /// Self type (None for free functions)
    pub self_ty: Option<String>,
    pub line: usize,
    pub end_line: usize,
    pub file: String,
}

#[derive(Default)]
pub struct Index {
    pub fns: BTreeMap<String, SrcFn>,
    pub consts: BTreeMap<String, ItemConst>, // key alias::NAME
    pub structs: BTreeMap<String, ItemStruct>,
    pub enums: BTreeMap<String, ItemEnum>,
    pub modules: Vec<(String, Item)>,
    /// impls of traits: (alias, trait, type) -> number of items
    pub impls: Vec<(String, String, String, usize)>,
}

pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s.starts_with("#[cfg(test)]") || s.starts_with("#[test]")
    })
}

pub fn squash(s: String) -> String {
    // canonical text of a type or path: no blanks except after `,` / keywords
    let mut out = String::new();
    let t: Vec<&str> = s.split_whitespace().collect();
    for w in t {
        let need = out
            .chars()
            .last()
            .map(|c| c.is_alphanumeric() || c == '_')
            .unwrap_or(false)
            && w.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false);
        if need {
            out.push(' ');
        }
        out.push_str(w);
    }
    out
}

fn type_name(t: &Type) -> String {
    // last path segment without generics
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => squash(t.to_token_stream().to_string()),
    }
}

fn trait_name(p: &Path) -> String {
    let s = p.segments.last().unwrap();
    squash(s.to_token_stream().to_string())
}

impl Index {
    pub fn add_file(&mut self, alias: &str, path: &std::path::Path, rel: &str) -> std::result::Result<(), String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
        let f = syn::parse_file(&text).map_err(|e| format!("{}: {}", path.display(), e))?;
        self.items(alias, rel, &f.items);
        Ok(())
    }

    fn add_fn(&mut self, key: String, sig: &Signature, block: &Block, self_ty: Option<String>, rel: &str) {
        use syn::spanned::Spanned;
        // functions defined inside functions are indexed like free functions of the file
        let mut own = block.clone();
        let alias = key.split("::").next().unwrap_or("").to_string();
        let mut k = 0;
        while k < own.stmts.len() {
            match &own.stmts[k] {
                Stmt::Item(Item::Fn(g)) if !self.fns.contains_key(&format!("{}::{}", alias, g.sig.ident)) => {
                    let g = g.clone();
                    self.add_fn(format!("{}::{}", alias, g.sig.ident), &g.sig, &g.block, None, rel);
                    own.stmts.remove(k);
                }
                _ => k += 1,
            }
        }
        let block = &own;
        self.fns.insert(
            key.clone(),
            SrcFn {
                key,
                name: sig.ident.to_string(),
                sig: sig.clone(),
                block: block.clone(),
                self_ty,
                line: sig.span().start().line,
                end_line: block.span().end().line,
                file: rel.to_string(),
            },
        );
    }

    fn items(&mut self, alias: &str, rel: &str, items: &[Item]) {
        for it in items {
            match it {
                Item::Fn(f) if !is_test(&f.attrs) => {
                    self.add_fn(format!("{}::{}", alias, f.sig.ident), &f.sig, &f.block, None, rel);
                }
                Item::Impl(im) if !is_test(&im.attrs) => {
                    let ty = type_name(&im.self_ty);
                    let prefix = match &im.trait_ {
                        Some((_, p, _)) => {
                            self.impls.push((alias.to_string(), trait_name(p), ty.clone(), im.items.len()));
                            format!("{}::{} for {}", alias, trait_name(p), ty)
                        }
                        None => format!("{}::{}", alias, ty),
                    };
                    for ii in &im.items {
                        match ii {
                            ImplItem::Fn(f) if !is_test(&f.attrs) => {
                                self.add_fn(
                                    format!("{}::{}", prefix, f.sig.ident),
                                    &f.sig,
                                    &f.block,
                                    Some(ty.clone()),
                                    rel,
                                );
                            }
                            ImplItem::Const(c) => {
                                let e = &c.expr;
                                let ic: ItemConst = syn::ItemConst {
                                    attrs: vec![],
                                    vis: Visibility::Inherited,
                                    const_token: c.const_token,
                                    ident: c.ident.clone(),
                                    generics: c.generics.clone(),
                                    colon_token: c.colon_token,
                                    ty: Box::new(c.ty.clone()),
                                    eq_token: c.eq_token,
                                    expr: Box::new(e.clone()),
                                    semi_token: c.semi_token,
                                };
                                self.consts.insert(format!("{}::{}", prefix, c.ident), ic);
                            }
                            _ => {}
                        }
                    }
                }
                Item::Trait(t) if !is_test(&t.attrs) => {
                    for ti in &t.items {
                        match ti {
                            TraitItem::Fn(f) => {
                                if let Some(b) = &f.default {
                                    self.add_fn(
                                        format!("{}::trait {}::{}", alias, t.ident, f.sig.ident),
                                        &f.sig,
                                        b,
                                        Some(t.ident.to_string()),
                                        rel,
                                    );
                                }
                            }
                            TraitItem::Const(c) => {
                                if let Some((eq, e)) = &c.default {
                                    let ic = syn::ItemConst {
                                        attrs: vec![],
                                        vis: Visibility::Inherited,
                                        const_token: c.const_token,
                                        ident: c.ident.clone(),
                                        generics: c.generics.clone(),
                                        colon_token: c.colon_token,
                                        ty: Box::new(c.ty.clone()),
                                        eq_token: *eq,
                                        expr: Box::new(e.clone()),
                                        semi_token: c.semi_token,
                                    };
                                    self.consts.insert(format!("{}::trait {}::{}", alias, t.ident, c.ident), ic);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Item::Const(c) => {
                    self.consts.insert(format!("{}::{}", alias, c.ident), c.clone());
                }
                Item::Struct(s) => {
                    self.structs.insert(format!("{}::{}", alias, s.ident), s.clone());
                }
                Item::Enum(s) => {
                    self.enums.insert(format!("{}::{}", alias, s.ident), s.clone());
                }
                Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.items(alias, rel, items);
                    }
                }
                _ => {}
            }
        }
    }
}
