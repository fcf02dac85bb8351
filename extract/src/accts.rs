// The account validation that Anchor's derive macros generate, read from the
// macro-expanded crate: `Accounts::try_accounts` and `AccountsExit::exit` of every
// accounts struct and the instruction wrappers of the module `__global`.  Their
// bodies are brought into the vocabulary of contracts/accts_shim.rs:
//   keys  xp::T::try_accounts  xp::T::exit  xp::__global::f
use crate::index::{Index, SrcFn};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn e(ts: proc_macro2::TokenStream) -> Expr {
    syn::parse2(ts.clone()).unwrap_or_else(|x| panic!("accts expr {}: {}", x, ts))
}
fn ss(ts: proc_macro2::TokenStream) -> Vec<Stmt> {
    let b: Block = syn::parse2(quote!({ #ts })).unwrap_or_else(|x| panic!("accts stmts {}: {}", x, ts));
    b.stmts
}
fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn path_of(x: &Expr) -> Option<Vec<String>> {
    match x {
        Expr::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect()),
        _ => None,
    }
}
/// the type's last name
fn tyname(t: &Type) -> String {
    match t {
        Type::Path(p) => last(&p.path),
        _ => String::new(),
    }
}

/// the order in which a derived BorshDeserialize reads the fields of a type
type Orders = BTreeMap<String, Vec<(String, String)>>;

fn read_order(items: &[Item], out: &mut Orders) {
    let mut types: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    for it in items {
        if let Item::Struct(s) = it {
            let f = s.fields.iter().filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), tyname(&f.ty)))).collect();
            types.insert(s.ident.to_string(), f);
        }
    }
    for it in items {
        if let Item::Impl(im) = it {
            let tr = match &im.trait_ {
                Some((_, p, _)) => last(p),
                None => continue,
            };
            if tr != "BorshDeserialize" {
                continue;
            }
            let name = tyname(&im.self_ty);
            let tys = types.get(&name).cloned().unwrap_or_default();
            for ii in &im.items {
                let ImplItem::Fn(f) = ii else { continue };
                if f.sig.ident != "deserialize" {
                    continue;
                }
                // Ok(Self { a: deserialize(buf)?, .. })
                if let Some(Stmt::Expr(Expr::Call(c), None)) = f.block.stmts.last() {
                    if let Some(Expr::Struct(s)) = c.args.first() {
                        let v = s
                            .fields
                            .iter()
                            .map(|fv| {
                                let n = match &fv.member {
                                    Member::Named(i) => i.to_string(),
                                    Member::Unnamed(i) => i.index.to_string(),
                                };
                                let t = tys.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default();
                                (n, t)
                            })
                            .collect();
                        out.insert(name.clone(), v);
                    } else if c.args.first().map(|a| path_of(a).is_some()).unwrap_or(false) {
                        out.insert(name.clone(), vec![]);
                    }
                }
            }
        }
    }
}

struct Rw<'a> {
    lits: &'a BTreeMap<String, String>,
    problem: Option<String>,
}
impl<'a> Rw<'a> {
    fn seeds(&mut self, x: &Expr) -> Option<Expr> {
        let arr = match x {
            Expr::Reference(r) => match &*r.expr {
                Expr::Array(a) => a,
                _ => return None,
            },
            _ => return None,
        };
        let mut out = e(quote!(VxSeeds::vx_new()));
        for s in &arr.elems {
            out = self.seed(out, s)?;
        }
        Some(out)
    }
    fn seed(&mut self, acc: Expr, s: &Expr) -> Option<Expr> {
        match s {
            Expr::Paren(p) => self.seed(acc, &p.expr),
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => {
                let t = String::from_utf8(b.value()).ok()?;
                Some(e(quote!(#acc.vx_text(#t))))
            }
            Expr::Path(p) => {
                let t = self.lits.get(&last(&p.path))?.clone();
                Some(e(quote!(#acc.vx_text(#t))))
            }
            Expr::MethodCall(m) if m.method == "as_ref" && m.args.is_empty() => match &*m.receiver {
                Expr::MethodCall(n) if n.args.is_empty() && (n.method == "to_le_bytes" || n.method == "to_ne_bytes") => {
                    let r = &n.receiver;
                    Some(e(quote!(#acc.vx_num(#r))))
                }
                Expr::Lit(_) => self.seed(acc, &m.receiver),
                Expr::Path(p) if self.lits.contains_key(&last(&p.path)) => self.seed(acc, &m.receiver),
                r => Some(e(quote!(#acc.vx_key(#r)))),
            },
            Expr::Reference(r) => {
                // &[bump][..]  and  &x.to_le_bytes()
                match &*r.expr {
                    Expr::Index(i) => match (&*i.expr, &*i.index) {
                        (Expr::Array(a), Expr::Range(g)) if a.elems.len() == 1 && g.start.is_none() && g.end.is_none() => {
                            let b = &a.elems[0];
                            Some(e(quote!(#acc.vx_bump(#b))))
                        }
                        _ => None,
                    },
                    Expr::Array(a) if a.elems.len() == 1 => {
                        let b = &a.elems[0];
                        Some(e(quote!(#acc.vx_bump(#b))))
                    }
                    Expr::MethodCall(n) if n.args.is_empty() && (n.method == "to_le_bytes" || n.method == "to_ne_bytes") => {
                        let r = &n.receiver;
                        Some(e(quote!(#acc.vx_num(#r))))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
}
impl<'a> VisitMut for Rw<'a> {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        // .map_err(closure): every error is VxFail
        while let Expr::MethodCall(m) = x {
            if m.method == "map_err" && m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) {
                let r = (*m.receiver).clone();
                *x = r;
            } else {
                break;
            }
        }
        if let Expr::Call(c) = x {
            let p = path_of(&c.func).unwrap_or_default();
            let n = p.last().cloned().unwrap_or_default();
            if p.len() == 1 && n == "Err" {
                *x = e(quote!(Err(VxFail)));
                return;
            }
            if p.len() >= 2 && (n == "create_program_address" || n == "find_program_address") {
                let f = if n == "create_program_address" { format_ident!("vx_create_pda") } else { format_ident!("vx_find_pda") };
                let pid = match c.args.last() {
                    Some(Expr::Reference(r)) if path_of(&r.expr).is_some() => (*r.expr).clone(),
                    Some(o) => o.clone(),
                    None => return,
                };
                match c.args.first().cloned().and_then(|a| self.seeds(&a)) {
                    Some(s) => *x = e(quote!(#f(#s, #pid))),
                    None => self.problem = Some("seeds of a form that is not read".into()),
                }
            }
        }
        if let Expr::MethodCall(m) = x {
            if m.method == "insert" && m.args.len() == 2 && path_of(&m.receiver).map(|p| p == ["__bumps"]).unwrap_or(false) {
                if let Expr::MethodCall(k) = &m.args[0] {
                    if k.method == "to_string" {
                        let (a, b) = (&k.receiver, &m.args[1]);
                        *x = e(quote!(__bumps.vx_insert(#a, #b)));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, x);
        // a failure ends the instruction and undoes it: x? -> vx_ok(x)
        if let Expr::Try(t) = x {
            let r = &t.expr;
            *x = e(quote!(vx_ok(#r)));
        }
        // if c { return Err(..); } -> vx_fail_if(c)
        if let Expr::If(i) = x {
            if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && i.then_branch.stmts.len() == 1 {
                let t = i.then_branch.stmts[0].to_token_stream().to_string();
                if t == "return Err (VxFail) ;" {
                    let c = &i.cond;
                    *x = e(quote!(vx_fail_if(#c)));
                }
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Expr(Expr::Call(c), semi) = s {
            if path_of(&c.func).map(|p| p == ["vx_fail_if"]).unwrap_or(false) {
                *semi = Some(Default::default());
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// the type whose deserialize is called on the data of the instruction, in `init`
fn deser(x: &Expr) -> Option<String> {
    let txt = x.to_token_stream().to_string();
    match x {
        Expr::Try(t) => deser(&t.expr),
        Expr::MethodCall(m) if m.method == "map_err" => deser(&m.receiver),
        Expr::Call(c) => {
            let p = path_of(&c.func)?;
            if p.last()? == "deserialize" && p.len() >= 2 && txt.contains("ix_data") {
                Some(p[p.len() - 2].clone())
            } else {
                None
            }
        }
        _ => None,
    }
}
fn reads(name: &str, orders: &Orders, pat: &Pat, from: &str) -> std::result::Result<Vec<Stmt>, String> {
    let order = orders.get(name).ok_or(format!("no deserializer of {}", name))?;
    // field -> local
    let mut bind: BTreeMap<String, Ident> = BTreeMap::new();
    match pat {
        Pat::Struct(ps) => {
            for f in &ps.fields {
                if let (Member::Named(n), Pat::Ident(p)) = (&f.member, &*f.pat) {
                    bind.insert(n.to_string(), p.ident.clone());
                }
            }
        }
        Pat::Path(_) | Pat::Ident(_) if order.is_empty() => {}
        _ => return Err("arguments bound in a form that is not read".into()),
    }
    let src = format_ident!("{}", from);
    let mut v = vec![];
    for (n, t) in order {
        let b = bind.get(n).cloned().unwrap_or(format_ident!("_{}", n));
        let r = format_ident!("vx_{}", t);
        v.extend(ss(quote!(let #b = #src.#r()?;)));
    }
    Ok(v)
}

/// `let x = { .. let pa: T = ..try_from_unchecked(&x)..; .. pa }` : an account that is created
fn created(st: &Local) -> Option<std::result::Result<Vec<Stmt>, String>> {
    let init = st.init.as_ref()?;
    let b = match &*init.expr {
        Expr::Block(b) => &b.block,
        _ => return None,
    };
    let pat = &st.pat;
    let txt = b.to_token_stream().to_string();
    if !txt.contains("try_from_unchecked") {
        return None;
    }
    let ty = b.stmts.iter().find_map(|s| match s {
        Stmt::Local(Local { pat: Pat::Type(t), .. }) if t.pat.to_token_stream().to_string() == "pa" => Some((*t.ty).clone()),
        _ => None,
    })?;
    let name = match pat {
        Pat::Ident(i) => i.ident.clone(),
        Pat::Type(t) => match &*t.pat {
            Pat::Ident(i) => i.ident.clone(),
            _ => return None,
        },
        _ => return None,
    };
    if !txt.contains("if ! false") {
        return Some(Err("init_if_needed".into()));
    }
    struct Find(Option<ExprStruct>);
    impl<'a> syn::visit::Visit<'a> for Find {
        fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
            if last(&s.path) == "InitializeAccount" {
                self.0 = Some(s.clone());
            }
            syn::visit::visit_expr_struct(self, s);
        }
    }
    let mut f = Find(None);
    syn::visit::Visit::visit_block(&mut f, b);
    let fld = |s: &ExprStruct, n: &str| s.fields.iter().find(|f| f.member.to_token_stream().to_string() == n).map(|f| f.expr.clone());
    Some(Ok(match f.0 {
        Some(s) => {
            let (m, a) = match (fld(&s, "mint"), fld(&s, "authority")) {
                (Some(m), Some(a)) => (m, a),
                _ => return Some(Err("token account created in a form that is not read".into())),
            };
            ss(quote!(let #name = vx_init_token(#name, #m, #a, vx_w)?;))
        }
        None => ss(quote!(let #name = vx_init::<#ty>(#name, program_id, vx_w)?;)),
    }))
}

fn stmts(b: &Block, orders: &Orders, lits: &BTreeMap<String, String>, all: &Orders) -> std::result::Result<Block, String> {
    let mut local = orders.clone();
    let items: Vec<Item> = b.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
    read_order(&items, &mut local);
    let mut out: Vec<Stmt> = vec![];
    for s in &b.stmts {
        let txt = s.to_token_stream().to_string();
        match s {
            Stmt::Item(_) => continue,
            // log output
            Stmt::Expr(Expr::Call(c), Some(_)) if path_of(&c.func).map(|p| p.last().unwrap() == "sol_log").unwrap_or(false) => continue,
            // *accounts = &accounts[1..];
            Stmt::Expr(Expr::Assign(a), Some(_)) if a.left.to_token_stream().to_string() == "* accounts" => {
                if a.right.to_token_stream().to_string() != "& accounts [1 ..]" {
                    return Err("accounts advanced in a form that is not read".into());
                }
                out.extend(ss(quote!(accounts.vx_next();)));
                continue;
            }
            // rent only makes the instruction fail more often
            Stmt::Expr(Expr::If(i), _) if i.cond.to_token_stream().to_string().contains("__anchor_rent . is_exempt") && i.else_branch.is_none() => continue,
            Stmt::Local(l) => {
                if txt.contains("Rent :: get ()") {
                    continue;
                }
                if let Some(r) = created(l) {
                    out.extend(r?);
                    continue;
                }
                let init = l.init.as_ref().map(|i| (*i.expr).clone());
                if let Some(x) = &init {
                    if let Some(n) = deser(x) {
                        match &l.pat {
                            Pat::Struct(_) | Pat::Path(_) => {
                                out.extend(reads(&n, &local, &l.pat, "ix_data")?);
                            }
                            Pat::Ident(p) => {
                                // `let ix = instruction::T::deserialize(..)?;`, taken apart below
                                let id = &p.ident;
                                out.extend(ss(quote!(let mut #id = ix_data;)));
                            }
                            _ => return Err("arguments bound in a form that is not read".into()),
                        }
                        continue;
                    }
                    // `let instruction::T { .. } = ix;`
                    let pp = match &l.pat {
                        Pat::Struct(p) => Some(p.path.clone()),
                        Pat::Path(p) => Some(p.path.clone()),
                        Pat::Ident(_) => None,
                        _ => None,
                    };
                    if let (Some(p), Expr::Path(v)) = (pp, x) {
                        if p.segments.len() == 2 && p.segments[0].ident == "instruction" {
                            out.extend(reads(&last(&p), all, &l.pat, &last(&v.path))?);
                            continue;
                        }
                    }
                    let it = x.to_token_stream().to_string();
                    if it == "& accounts [0]" {
                        let p = &l.pat;
                        out.extend(ss(quote!(let #p = accounts.vx_first();)));
                        continue;
                    }
                    if it.contains("Accounts :: try_accounts") {
                        let Pat::Type(t) = &l.pat else { return Err("account taken without a type".into()) };
                        let (p, ty) = (&t.pat, &t.ty);
                        out.extend(ss(quote!(let #p = vx_take::<#ty>(program_id, accounts, vx_w)?;)));
                        continue;
                    }
                    if it.contains(":: try_accounts (program_id") {
                        // the wrapper validates the accounts
                        if let Expr::Try(t) = x {
                            if let Expr::Call(c) = &*t.expr {
                                let p = path_of(&c.func).unwrap_or_default();
                                let f = format_ident!("vx_try_{}", p[0]);
                                let (pat, args) = (&l.pat, &c.args);
                                out.extend(ss(quote!(let #pat = #f(#args, vx_w)?;)));
                                continue;
                            }
                        }
                        return Err("accounts validated in a form that is not read".into());
                    }
                    if it.contains("BTreeMap :: new ()") {
                        let p = &l.pat;
                        out.extend(ss(quote!(let #p = VxBumps::vx_new();)));
                        continue;
                    }
                    if let Pat::Type(t) = &l.pat {
                        if t.ty.to_token_stream().to_string() == "& [AccountInfo]" {
                            let p = &t.pat;
                            out.extend(ss(quote!(let #p = #x;)));
                            continue;
                        }
                    }
                }
            }
            Stmt::Expr(Expr::Try(t), Some(_)) => {
                // hmmcl_sandbox::f(Context::new(..), args)?;
                if let Expr::Call(c) = &*t.expr {
                    let p = path_of(&c.func).unwrap_or_default();
                    if let Some(Expr::Call(cx)) = c.args.first() {
                        if path_of(&cx.func).map(|q| q.ends_with(&["Context".to_string(), "new".to_string()])).unwrap_or(false) && p.len() == 2 {
                            let f = format_ident!("lib_{}", p[1]);
                            let args = c.args.iter().skip(1);
                            out.extend(ss(quote!(
                                let mut vx_ctx = vx_ctx_new(accounts, __bumps, vx_w);
                                #f(&mut vx_ctx, #(#args),*)?;
                                let vx_left = vx_ctx_end(vx_ctx, vx_w);
                                let mut accounts = vx_left;
                            )));
                            continue;
                        }
                    }
                    // anchor_lang::AccountsExit::exit(&self.f, program_id)?
                }
                if let Some(x) = exits(&t.expr) {
                    out.extend(ss(quote!(vx_exit(#x, program_id, vx_w)?;)));
                    continue;
                }
            }
            Stmt::Expr(Expr::MethodCall(m), None) if m.method == "exit" && path_of(&m.receiver).map(|p| p == ["accounts"]).unwrap_or(false) => {
                let ty = out.iter().find_map(|s| {
                    let t = s.to_token_stream().to_string();
                    t.split("vx_try_").nth(1).map(|r| r.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap().to_string())
                });
                let f = format_ident!("vx_exit_{}", ty.ok_or("accounts of unknown type")?);
                out.push(Stmt::Expr(e(quote!(#f(&accounts, program_id, vx_w))), None));
                continue;
            }
            _ => {}
        }
        out.push(s.clone());
    }
    let mut nb = Block { brace_token: b.brace_token, stmts: out };
    let mut rw = Rw { lits, problem: None };
    rw.visit_block_mut(&mut nb);
    match rw.problem {
        Some(p) => Err(p),
        None => Ok(nb),
    }
}
fn exits(x: &Expr) -> Option<Expr> {
    match x {
        Expr::MethodCall(m) if m.method == "map_err" => exits(&m.receiver),
        Expr::Call(c) => {
            let p = path_of(&c.func)?;
            if p.ends_with(&["AccountsExit".to_string(), "exit".to_string()]) && c.args.len() == 2 {
                // `self` of the method is an argument here
                struct S;
                impl VisitMut for S {
                    fn visit_path_mut(&mut self, p: &mut Path) {
                        if p.is_ident("self") {
                            p.segments[0].ident = format_ident!("vx_self");
                        }
                    }
                }
                let mut a = c.args[0].clone();
                S.visit_expr_mut(&mut a);
                Some(a)
            } else {
                None
            }
        }
        _ => None,
    }
}

impl Index {
    /// the generated code of a macro-expanded crate
    pub fn add_expanded(&mut self, alias: &str, path: &std::path::Path) -> std::result::Result<Vec<(String, String)>, String> {
        let text = std::fs::read_to_string(path).map_err(|x| format!("{}: {}", path.display(), x))?;
        let f = syn::parse_file(&text).map_err(|x| format!("{}: {}", path.display(), x))?;
        let mut lits = BTreeMap::new();
        let mut orders = Orders::new();
        fn consts(items: &[Item], lits: &mut BTreeMap<String, String>, orders: &mut Orders) {
            for it in items {
                match it {
                    Item::Const(c) => {
                        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = &*c.expr {
                            if let Ok(s) = String::from_utf8(b.value()) {
                                lits.insert(c.ident.to_string(), s);
                            }
                        }
                    }
                    Item::Mod(m) => {
                        if let Some((_, i)) = &m.content {
                            if m.ident == "instruction" {
                                read_order(i, orders);
                            }
                            consts(i, lits, orders);
                        }
                    }
                    _ => {}
                }
            }
        }
        consts(&f.items, &mut lits, &mut orders);
        let mut problems = vec![];
        let none = Orders::new();
        let mut add = |idx: &mut Index, key: String, sig: proc_macro2::TokenStream, b: &Block| {
            let sig: Signature = syn::parse2(sig).expect("accts signature");
            // a body that is not read stays out; the contract is kept for the callers
            let block = stmts(b, &none, &lits, &orders).unwrap_or_else(|p| {
                problems.push((key.clone(), p));
                parse_quote!({ unimplemented!() })
            });
            {
                {
                    idx.fns.insert(
                        key.clone(),
                        SrcFn {
                            key: key.clone(),
                            name: sig.ident.to_string(),
                            sig,
                            block,
                            self_ty: None,
                            line: 0,
                            end_line: 0,
                            file: "programs/hmmcl-sandbox (macro-expanded)".into(),
                        },
                    );
                }
            }
        };
        fn walk(alias: &str, items: &[Item], in_global: bool, idx: &mut Index, add: &mut dyn FnMut(&mut Index, String, proc_macro2::TokenStream, &Block)) {
            for it in items {
                match it {
                    Item::Mod(m) => {
                        if let Some((_, i)) = &m.content {
                            walk(alias, i, m.ident == "__global", idx, add);
                        }
                    }
                    Item::Fn(f) if in_global => {
                        let n = format_ident!("vx_ix_{}", f.sig.ident);
                        add(
                            idx,
                            format!("{}::__global::{}", alias, f.sig.ident),
                            quote!(fn #n(program_id: &Pubkey, accounts: VxAccs, ix_data: VxIx, vx_w: &mut VxWorld) -> Result<(), VxFail>),
                            &f.block,
                        );
                    }
                    Item::Impl(im) => {
                        let Some((_, p, _)) = &im.trait_ else { continue };
                        let (tr, ty) = (last(p), tyname(&im.self_ty));
                        let t = format_ident!("{}", ty);
                        for ii in &im.items {
                            let ImplItem::Fn(f) = ii else { continue };
                            if tr == "Accounts" && f.sig.ident == "try_accounts" {
                                let n = format_ident!("vx_try_{}", ty);
                                add(
                                    idx,
                                    format!("{}::{}::try_accounts", alias, ty),
                                    quote!(fn #n(program_id: &Pubkey, accounts: &mut VxAccs, ix_data: VxIx, __bumps: &mut VxBumps, vx_w: &mut VxWorld) -> Result<#t, VxFail>),
                                    &f.block,
                                );
                            }
                            if tr == "AccountsExit" && f.sig.ident == "exit" {
                                let n = format_ident!("vx_exit_{}", ty);
                                add(
                                    idx,
                                    format!("{}::{}::exit", alias, ty),
                                    quote!(fn #n(vx_self: &#t, program_id: &Pubkey, vx_w: &mut VxWorld) -> Result<(), VxFail>),
                                    &f.block,
                                );
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        walk(alias, &f.items, false, self, &mut add);
        Ok(problems)
    }
}
