// AST transformations from the source text to the text given to Verus.  Every
// kind of change is recorded in a log that ends up in the evidence.
use crate::index::{squash, Index, SrcFn};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Log = BTreeSet<String>;

fn expr(ts: proc_macro2::TokenStream) -> Expr {
    syn::parse2(ts.clone()).unwrap_or_else(|e| panic!("internal expr {}: {}", e, ts))
}
fn block(ts: proc_macro2::TokenStream) -> Block {
    syn::parse2(ts.clone()).unwrap_or_else(|e| panic!("internal block {}: {}", e, ts))
}
fn stmts(ts: proc_macro2::TokenStream) -> Vec<Stmt> {
    block(quote!({ #ts })).stmts
}

fn pure(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => pure(&f.base),
        Expr::Reference(r) => pure(&r.expr),
        Expr::Paren(p) => pure(&p.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && pure(&u.expr),
        _ => false,
    }
}

// ---------------------------------------------------------------- macros
struct Macros<'a> {
    log: &'a mut Log,
}

struct Args(Vec<Expr>);
impl syn::parse::Parse for Args {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let p = Punctuated::<Expr, Token![,]>::parse_terminated(input)?;
        Ok(Args(p.into_iter().collect()))
    }
}

fn keep_args(es: impl Iterator<Item = Expr>) -> Vec<Stmt> {
    let mut v = vec![];
    for e in es {
        let e = match e {
            Expr::Assign(a) => *a.right,
            e => e,
        };
        if !pure(&e) {
            v.extend(stmts(quote!(let _ = #e;)));
        }
    }
    v
}

fn macro_expr(m: &Macro, log: &mut Log) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    let args = || syn::parse2::<Args>(m.tokens.clone()).ok().map(|a| a.0);
    match name.as_str() {
        "panic" | "unreachable" | "unimplemented" | "todo" => {
            log.insert(format!("{}!(..) -> vx_panic()", name));
            Some(expr(quote!(vx_panic())))
        }
        "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => {
            log.insert(format!("{}!(..) dropped (not executed in release builds)", name));
            Some(expr(quote!({})))
        }
        "assert" => {
            let a = args()?;
            let c = a.first()?;
            log.insert(format!("{}!(c) -> if !c {{ vx_panic() }}", name));
            Some(expr(quote!(if !(#c) { vx_panic(); })))
        }
        "assert_eq" => {
            let a = args()?;
            let (x, y) = (a.first()?, a.get(1)?);
            log.insert(format!("{}!(a, b) -> if !(a == b) {{ vx_panic() }}", name));
            Some(expr(quote!(if !((#x) == (#y)) { vx_panic(); })))
        }
        "assert_ne" => {
            let a = args()?;
            let (x, y) = (a.first()?, a.get(1)?);
            log.insert(format!("{}!(a, b) -> if a == b {{ vx_panic() }}", name));
            Some(expr(quote!(if (#x) == (#y) { vx_panic(); })))
        }
        "println" | "print" | "eprintln" | "eprint" | "msg" => {
            let a = args()?;
            log.insert(format!("{}!(..) dropped, its arguments are still evaluated", name));
            let k = keep_args(a.into_iter());
            Some(expr(quote!({ #(#k)* })))
        }
        "emit" => {
            let s: ExprStruct = syn::parse2(m.tokens.clone()).ok()?;
            log.insert("emit!(..) dropped, its field values are still evaluated".into());
            let k = keep_args(s.fields.into_iter().map(|f| f.expr));
            Some(expr(quote!({ #(#k)* })))
        }
        "matches" => {
            let ts = m.tokens.clone();
            struct M(Expr, Pat, Option<Expr>);
            impl syn::parse::Parse for M {
                fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                    let e = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>();
                    Ok(M(e, p, g))
                }
            }
            let M(e, p, g) = syn::parse2::<M>(ts).ok()?;
            log.insert("matches!(..) expanded".into());
            Some(match g {
                None => expr(quote!(match #e { #p => true, _ => false })),
                Some(g) => expr(quote!(match #e { #p if #g => true, _ => false })),
            })
        }
        "require" => {
            let a = args()?;
            let (c, e) = (a.first()?, a.get(1)?);
            log.insert("require!(c, e) expanded".into());
            Some(expr(quote!(if !(#c) { return Err((#e).vx_into()); })))
        }
        "vec" if m.tokens.is_empty() => Some(expr(quote!(Vec::new()))),
        _ => None,
    }
}

impl<'a> VisitMut for Macros<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = macro_expr(&m.mac, self.log) {
                *e = n;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                if let Some(n) = macro_expr(&m.mac, self.log) {
                    let semi = if matches!(n, Expr::If(_) | Expr::Block(_)) {
                        None
                    } else {
                        m.semi_token
                    };
                    *s = Stmt::Expr(n, semi);
                }
            }
        }
        // statements that do nothing
        b.stmts.retain(|s| match s {
            Stmt::Expr(Expr::Block(x), _) => !x.block.stmts.is_empty() || x.label.is_some(),
            _ => true,
        });
        // `let (a, b);` -> `let a; let b;`
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match &s {
                Stmt::Local(Local { pat: Pat::Tuple(t), init: None, .. }) if t.elems.iter().all(|p| matches!(p, Pat::Ident(_))) => {
                    self.log.insert("let (a, b); -> let a; let b;".into());
                    for p in &t.elems {
                        out.extend(stmts(quote!(let #p;)));
                    }
                }
                _ => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ---------------------------------------------------------------- simple rewrites
pub struct Cfg {
    pub index_shim: bool,
    pub range_shim: bool,
    pub div_shim: bool,
    pub arith_shim: bool,
    pub into_shim: bool,
}

struct Simple<'a> {
    log: &'a mut Log,
    cfg: &'a Cfg,
    fresh: usize,
}

impl<'a> VisitMut for Simple<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("unwrap", 0) | ("expect", 1) => {
                        let r = &m.receiver;
                        self.log.insert(format!(".{}(..) -> .vx_unwrap()", name));
                        *e = expr(quote!(#r.vx_unwrap()));
                    }
                    ("into", 0) if self.cfg.into_shim => {
                        let r = &m.receiver;
                        self.log.insert(".into() -> .vx_into()".into());
                        *e = expr(quote!(#r.vx_into()));
                    }
                    ("try_into", 0) => {
                        let r = &m.receiver;
                        self.log.insert(".try_into() -> .vx_try_into()".into());
                        *e = expr(quote!(#r.vx_try_into()));
                    }
                    ("to_string", 0) => {
                        let r = &m.receiver;
                        *e = expr(quote!(vx_to_string(#r)));
                    }
                    ("contains", 1) if self.cfg.range_shim && matches!(&m.args[0], Expr::Reference(_)) => {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        self.log.insert("r.contains(&x) -> vx_range_has(&r, &x)".into());
                        *e = expr(quote!(vx_range_has(&(#r), #a)));
                    }
                    ("lt" | "le" | "gt" | "ge" | "eq" | "ne", 1) => {
                        if let Expr::Reference(a) = &m.args[0] {
                            let (l, r) = (&m.receiver, &a.expr);
                            self.log.insert(format!("a.{}(&b) -> operator", name));
                            *e = match name.as_str() {
                                "lt" => expr(quote!(((#l) < (#r)))),
                                "le" => expr(quote!(((#l) <= (#r)))),
                                "gt" => expr(quote!(((#l) > (#r)))),
                                "ge" => expr(quote!(((#l) >= (#r)))),
                                "eq" => expr(quote!(((#l) == (#r)))),
                                _ => expr(quote!(((#l) != (#r)))),
                            };
                        }
                    }
                    _ => {}
                }
            }
            Expr::Index(ix) if self.cfg.index_shim => {
                let (b, i) = (&ix.expr, &ix.index);
                if let Expr::Reference(_) | Expr::Range(_) = &**i {
                    return;
                }
                if let Expr::Array(two) = &**i {
                    if two.elems.len() == 2 {
                        let (r, c) = (&two.elems[0], &two.elems[1]);
                        self.log.insert("a[[i, j]] -> vx_index2(&a, i, j): out of bounds aborts".into());
                        *e = expr(quote!(vx_index2(&#b, #r, #c)));
                        return;
                    }
                }
                self.log.insert("a[i] -> vx_index(&a, i): out of bounds aborts".into());
                *e = expr(quote!(vx_index(&#b, #i)));
            }
            Expr::Reference(r) if self.cfg.index_shim => {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(g) = &*ix.index {
                        let b = &ix.expr;
                        let lo = g.start.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(0));
                        let hi = g.end.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(vx_len(&#b)));
                        let hi = if matches!(g.limits, RangeLimits::Closed(_)) { quote!(((#hi) + 1)) } else { hi };
                        self.log.insert("&a[i..j] -> vx_slice(&a, i, j): out of bounds aborts".into());
                        *e = expr(quote!(vx_slice(&#b, #lo, #hi)));
                    }
                }
            }
            Expr::Binary(b) if self.cfg.arith_shim => {
                let (l, r) = (&b.left, &b.right);
                let n = match b.op {
                    BinOp::Add(_) => "vx_add",
                    BinOp::Sub(_) => "vx_sub",
                    BinOp::Mul(_) => "vx_mul",
                    BinOp::Shl(_) => "vx_shl",
                    BinOp::Shr(_) => "vx_shr",
                    BinOp::Div(_) if self.cfg.div_shim => "vx_div",
                    BinOp::Rem(_) if self.cfg.div_shim => "vx_rem",
                    _ => return,
                };
                let n = format_ident!("{}", n);
                self.log.insert("unchecked + - * << >> -> vx_*: aborts or wraps on overflow".into());
                *e = expr(quote!(#n(#l, #r)));
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // assignments through an index
        if self.cfg.index_shim {
            if let Stmt::Expr(Expr::Assign(a), _) = s {
                if let Expr::Index(ix) = &*a.left {
                    let (b, i, v) = (&ix.expr, &ix.index, &a.right);
                    self.fresh += 1;
                    let t = format_ident!("vx_v{}", self.fresh);
                    self.log.insert("a[i] = v -> vx_index_set(&mut a, i, v)".into());
                    let mut n: Vec<Stmt> = stmts(quote!({ let #t = #v; vx_index_set(&mut #b, #i, #t); }));
                    *s = n.remove(0);
                }
            }
            if let Stmt::Expr(Expr::Binary(a), _) = s {
                if let Expr::Index(ix) = &*a.left {
                    let (b, i, v) = (&ix.expr, &ix.index, &a.right);
                    let op = match a.op {
                        BinOp::BitOrAssign(_) => Some(quote!(|)),
                        BinOp::BitAndAssign(_) => Some(quote!(&)),
                        BinOp::BitXorAssign(_) => Some(quote!(^)),
                        _ => None,
                    };
                    if let Some(op) = op {
                        self.fresh += 1;
                        let t = format_ident!("vx_v{}", self.fresh);
                        self.log.insert("a[i] op= v -> vx_index_set(&mut a, i, a[i] op v)".into());
                        let mut n: Vec<Stmt> =
                            stmts(quote!({ let #t = #b[#i] #op (#v); vx_index_set(&mut #b, #i, #t); }));
                        *s = n.remove(0);
                    }
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ---------------------------------------------------------------- loops
struct HasBreak {
    found: bool,
    cont: bool,
}
impl<'ast> Visit<'ast> for HasBreak {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Break(b) => {
                if b.expr.is_some() {
                    self.found = true;
                }
            }
            Expr::Continue(_) => self.cont = true,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
struct BreakSet {
    var: Ident,
}
impl VisitMut for BreakSet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(b) => {
                if let Some(v) = b.expr.take() {
                    let var = &self.var;
                    *e = expr(quote!({ #var = #v; break; }));
                    return;
                }
            }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Loops<'a> {
    log: &'a mut Log,
    n: usize,
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(l) => {
                let mut h = HasBreak { found: false, cont: false };
                h.visit_block(&l.body);
                if h.found {
                    self.n += 1;
                    let var = format_ident!("vx_brk{}", self.n);
                    let mut b = l.body.clone();
                    BreakSet { var: var.clone() }.visit_block_mut(&mut b);
                    self.log.insert("loop {.. break v ..} -> assign, then break".into());
                    *e = expr(quote!({ let #var; loop #b #var }));
                }
            }
            Expr::ForLoop(f) => {
                self.n += 1;
                let it = format_ident!("vx_i{}", self.n);
                let en = format_ident!("vx_end{}", self.n);
                let col = format_ident!("vx_col{}", self.n);
                let pat = &f.pat;
                let body = &f.body;
                let mut src: &Expr = &f.expr;
                while let Expr::Paren(p) = src {
                    src = &p.expr;
                }
                let label = f.label.clone();
                let mut rev = false;
                let mut inner = src;
                if let Expr::MethodCall(m) = inner {
                    if m.method == "rev" && m.args.is_empty() {
                        rev = true;
                        inner = &m.receiver;
                    }
                }
                while let Expr::Paren(p) = inner {
                    inner = &p.expr;
                }
                if let Expr::Range(r) = inner {
                    let lo = r.start.as_ref().unwrap();
                    let hi = match &r.end {
                        Some(h) => h,
                        None => return,
                    };
                    let closed = matches!(r.limits, RangeLimits::Closed(_));
                    if closed {
                        return; // not supported
                    }
                    self.log.insert("for over a range -> while".into());
                    *e = if rev {
                        expr(quote!({
                            let #it = #lo; let mut #en = #hi;
                            #label while #it < #en { #en = #en - 1; let #pat = #en; #body }
                        }))
                    } else {
                        expr(quote!({
                            let mut #it = #lo; let #en = #hi;
                            #label while #it < #en { let #pat = #it; #it = #it + 1; #body }
                        }))
                    };
                } else {
                    // a Vec, a slice or an array, possibly behind iter()/into_iter()
                    let mut by_ref = false;
                    if let Expr::MethodCall(m) = inner {
                        if (m.method == "iter" || m.method == "into_iter") && m.args.is_empty() {
                            by_ref = m.method == "iter";
                            inner = &m.receiver;
                        }
                    }
                    // copied()/cloned() iterators are not handled
                    let (p2, _) = match (pat.as_ref(), by_ref) {
                        (Pat::Reference(r), _) => (r.pat.clone(), ()),
                        (p, _) => (Box::new(p.clone()), ()),
                    };
                    self.log.insert("for over a collection -> while with an index".into());
                    *e = if rev {
                        expr(quote!({
                            let #col = #inner; let mut #en: usize = #col.len();
                            #label while 0 < #en { #en = #en - 1; let #p2 = #col[#en]; #body }
                        }))
                    } else {
                        expr(quote!({
                            let #col = #inner; let mut #it: usize = 0;
                            #label while #it < #col.len() { let #p2 = #col[#it]; #it = #it + 1; #body }
                        }))
                    };
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

/// The kinds of the loops, in order.
#[derive(Default)]
pub struct Kinds(pub Vec<&'static str>);
impl<'a> syn::visit::Visit<'a> for Kinds {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Loop(_) => self.0.push("loop"),
            Expr::While(_) => self.0.push("while"),
            // a range, or the elements of something: contracts speak of a
            // different counter in the two, and of another order in a third
            Expr::ForLoop(f) => {
                let mut it = &*f.expr;
                while let Expr::Paren(p) = it {
                    it = &*p.expr;
                }
                self.0.push(match it {
                    Expr::Range(_) => "for",
                    Expr::MethodCall(m) if m.method == "rev" => "for-rev",
                    _ => "for-each",
                })
            }
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
/// Insert placeholders for loop contracts; returns the number of loops.
pub struct Mark {
    pub n: usize,
}
impl VisitMut for Mark {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(ExprLoop { body, .. }) | Expr::While(ExprWhile { body, .. }) => {
                let k = self.n;
                self.n += 1;
                let k = proc_macro2::Literal::usize_unsuffixed(k);
                let mut v = stmts(quote!(__vx_loop!(#k); __vx_entry!(#k);));
                v.append(&mut body.stmts);
                // the placeholder at the end of the body
                if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                    *semi = Some(Default::default());
                }
                v.extend(stmts(quote!(__vx_end!(#k);)));
                body.stmts = v;
            }
            Expr::ForLoop(_) => {
                self.n += 1;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let before = self.n;
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let start = self.n;
            self.visit_stmt_mut(&mut s);
            let is_loop = match &s {
                Stmt::Expr(Expr::While(_) | Expr::Loop(_), _) => true,
                _ => false,
            };
            if is_loop {
                let k = proc_macro2::Literal::usize_unsuffixed(start);
                out.extend(stmts(quote!(__vx_before!(#k);)));
                if let Stmt::Expr(x, _) = s {
                    s = Stmt::Expr(x, Some(Default::default()));
                }
                out.push(s);
                out.extend(stmts(quote!(__vx_after!(#k);)));
            } else {
                out.push(s);
            }
        }
        let _ = before;
        b.stmts = out;
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ---------------------------------------------------------------- renaming
pub struct Rename<'a> {
    pub map: &'a BTreeMap<String, Expr>,
    pub pats: &'a BTreeMap<String, String>,
}
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 1 {
                if let Some(n) = self.map.get(&p.path.segments[0].ident.to_string()) {
                    *e = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            if let Expr::Path(_) = f.expr {
                f.colon_token = Some(Default::default());
            }
        }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.pats.get(&p.ident.to_string()) {
            p.ident = format_ident!("{}", n);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
}

pub fn ident_expr(n: &str) -> Expr {
    let i = format_ident!("{}", n);
    expr(quote!(#i))
}

pub fn rename_all(b: &mut Block, from_to: &[(String, String)]) {
    let map: BTreeMap<String, Expr> =
        from_to.iter().map(|(a, b)| (a.clone(), ident_expr(b))).collect();
    let pats: BTreeMap<String, String> = from_to.iter().cloned().collect();
    Rename { map: &map, pats: &pats }.visit_block_mut(b);
}

#[derive(Default)]
pub struct Locals(pub Vec<String>);
impl<'ast> Visit<'ast> for Locals {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let n = p.ident.to_string();
        let c = n.chars().next().unwrap();
        if (c.is_lowercase() || c == '_') && !self.0.contains(&n) {
            self.0.push(n);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

// ---------------------------------------------------------------- return elimination
struct HasReturn(bool);
impl<'ast> Visit<'ast> for HasReturn {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) => self.0 = true,
            Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}
fn has_return_stmt(s: &Stmt) -> bool {
    let mut h = HasReturn(false);
    h.visit_stmt(s);
    h.0
}
fn has_return_stmts(s: &[Stmt]) -> bool {
    s.iter().any(has_return_stmt)
}
fn has_return_expr(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(e);
    h.0
}
/// does control never reach the end of these statements (as far as we look)?
fn diverges(s: &[Stmt]) -> bool {
    match s.last() {
        Some(Stmt::Expr(e, _)) => diverges_expr(e),
        _ => false,
    }
}
fn diverges_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_panic")),
        Expr::Block(b) => diverges(&b.block.stmts),
        Expr::If(i) => {
            diverges(&i.then_branch.stmts)
                && i.else_branch.as_ref().map(|(_, e)| diverges_expr(e)).unwrap_or(false)
        }
        Expr::Match(m) => m.arms.iter().all(|a| diverges_expr(&a.body)),
        _ => false,
    }
}

/// Rewrite a function body so that it has no `return`: None if not possible.
fn elim(mut s: Vec<Stmt>, depth: usize) -> Option<Vec<Stmt>> {
    if depth > 12 {
        return None;
    }
    let i = match s.iter().position(has_return_stmt) {
        None => return Some(s),
        Some(i) => i,
    };
    let rest: Vec<Stmt> = s.split_off(i + 1);
    let cur = s.pop().unwrap();
    let join = |mut a: Vec<Stmt>, b: &Vec<Stmt>| -> Vec<Stmt> {
        if diverges(&a) {
            return a;
        }
        // a trailing unit expression becomes a statement
        if !b.is_empty() {
            if let Some(Stmt::Expr(_, semi)) = a.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
        }
        a.extend(b.iter().cloned());
        a
    };
    let tail: Expr = match cur {
        Stmt::Expr(Expr::Return(r), _) => match r.expr {
            Some(e) => *e,
            None => expr(quote!(())),
        },
        Stmt::Expr(Expr::If(f), _) => {
            if has_return_expr(&f.cond) {
                return None;
            }
            let c = &f.cond;
            let t = elim(join(f.then_branch.stmts.clone(), &rest), depth + 1)?;
            let els: Vec<Stmt> = match f.else_branch {
                None => vec![],
                Some((_, e)) => match *e {
                    Expr::Block(b) => b.block.stmts,
                    other => vec![Stmt::Expr(other, None)],
                },
            };
            let el = elim(join(els, &rest), depth + 1)?;
            expr(quote!(if #c { #(#t)* } else { #(#el)* }))
        }
        Stmt::Expr(Expr::Match(m), _) => {
            if has_return_expr(&m.expr) {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                let body = match &*a.body {
                    Expr::Block(b) => b.block.stmts.clone(),
                    e => vec![Stmt::Expr(e.clone(), None)],
                };
                let n = elim(join(body, &rest), depth + 1)?;
                a.body = Box::new(expr(quote!({ #(#n)* })));
                a.comma = Some(Default::default());
            }
            Expr::Match(m2)
        }
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() => {
            let n = elim(join(b.block.stmts, &rest), depth + 1)?;
            expr(quote!({ #(#n)* }))
        }
        Stmt::Local(l) => {
            let pat = &l.pat;
            let init = l.init.as_ref()?;
            match &*init.expr {
                Expr::Match(m) if init.diverge.is_none() => {
                    if has_return_expr(&m.expr) {
                        return None;
                    }
                    let mut m2 = m.clone();
                    for a in m2.arms.iter_mut() {
                        let n: Vec<Stmt> = if diverges_expr(&a.body) {
                            elim(vec![Stmt::Expr((*a.body).clone(), None)], depth + 1)?
                        } else {
                            if has_return_expr(&a.body) {
                                return None;
                            }
                            let b = &a.body;
                            let mut v = stmts(quote!(let #pat = #b;));
                            v.extend(rest.iter().cloned());
                            elim(v, depth + 1)?
                        };
                        a.body = Box::new(expr(quote!({ #(#n)* })));
                        a.comma = Some(Default::default());
                    }
                    Expr::Match(m2)
                }
                Expr::If(f) if init.diverge.is_none() => {
                    if has_return_expr(&f.cond) {
                        return None;
                    }
                    let c = &f.cond;
                    let mk = |e: &Expr| -> Option<Vec<Stmt>> {
                        if diverges_expr(e) {
                            elim(vec![Stmt::Expr(e.clone(), None)], depth + 1)
                        } else if has_return_expr(e) {
                            None
                        } else {
                            let mut v = stmts(quote!(let #pat = #e;));
                            v.extend(rest.iter().cloned());
                            elim(v, depth + 1)
                        }
                    };
                    let tb = &f.then_branch;
                    let t = mk(&expr(quote!(#tb)))?;
                    let (_, eb) = f.else_branch.as_ref()?;
                    let el = mk(eb)?;
                    expr(quote!(if #c { #(#t)* } else { #(#el)* }))
                }
                _ => return None,
            }
        }
        _ => return None,
    };
    s.push(Stmt::Expr(tail, None));
    Some(s)
}

/// `e?` -> match, when it is the initialiser of a let or a statement.
struct TryToMatch {
    option: bool,
}
impl VisitMut for TryToMatch {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = if self.option {
                expr(quote!(match #x { Some(vx_q) => vx_q, None => return None }))
            } else {
                expr(quote!(match #x { Ok(vx_q) => vx_q, Err(vx_q) => return Err(vx_q) }))
            };
        }
    }
}

// ---------------------------------------------------------------- closures
/// counts how often a name is bound by a pattern
#[derive(Default)]
struct Bound(BTreeMap<String, usize>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        *self.0.entry(p.ident.to_string()).or_insert(0) += 1;
        syn::visit::visit_pat_ident(self, p);
    }
}
#[derive(Default)]
struct Named(BTreeSet<String>, BTreeMap<String, usize>);
impl<'ast> Visit<'ast> for Named {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            *self.1.entry(n.clone()).or_insert(0) += 1;
            self.0.insert(n);
        }
    }
}
struct CallSites<'a> {
    name: &'a str,
    closure: &'a ExprClosure,
    n: usize,
    done: usize,
}
impl<'a> VisitMut for CallSites<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let hit = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => p.path.is_ident(self.name) && c.args.len() == self.closure.inputs.len(),
                _ => false,
            },
            _ => false,
        };
        if hit {
            if let Expr::Call(c) = e {
                self.n += 1;
                self.done += 1;
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut body: Expr = (*self.closure.body).clone();
                let mut pats: Vec<Pat> = self.closure.inputs.iter().cloned().collect();
                let mut loc = Locals::default();
                loc.visit_expr(&body);
                for p in &pats {
                    loc.visit_pat(p);
                }
                let names: Vec<(String, String)> = loc.0.iter().map(|x| (x.clone(), format!("{}__c{}", x, self.n))).collect();
                let map: BTreeMap<String, Expr> = names.iter().map(|(a, b)| (a.clone(), ident_expr(b))).collect();
                let pm: BTreeMap<String, String> = names.iter().cloned().collect();
                Rename { map: &map, pats: &pm }.visit_expr_mut(&mut body);
                let mut pre: Vec<Stmt> = vec![];
                for (p, a) in pats.iter_mut().zip(args.iter()) {
                    Rename { map: &map, pats: &pm }.visit_pat_mut(p);
                    pre.extend(stmts(quote!(let #p = #a;)));
                }
                *e = expr(quote!({ #(#pre)* #body }));
            }
        }
    }
}
/// let f = |x| e; .. f(a) ..  ->  .. { let x = a; e } ..  when f is only called, and nothing e
/// mentions is bound twice; returns whether there was any closure
pub fn closures(b: &mut Block, params: &[String], log: &mut Log) -> bool {
    struct Any(bool);
    impl<'ast> Visit<'ast> for Any {
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {
            self.0 = true;
        }
    }
    let mut any = Any(false);
    any.visit_block(b);
    if !any.0 {
        return false;
    }
    let mut bound = Bound::default();
    bound.visit_block(b);
    for p in params {
        *bound.0.entry(p.clone()).or_insert(0) += 1;
    }
    let mut fresh = 0;
    let mut k = 0;
    while k < b.stmts.len() {
        let found = match &b.stmts[k] {
            Stmt::Local(l) => match (&l.pat, &l.init) {
                (Pat::Ident(p), Some(i)) => match &*i.expr {
                    Expr::Closure(c) if !has_return_expr(&c.body) => Some((p.ident.to_string(), c.clone())),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some((name, c)) = found {
            let mut own = Bound::default();
            own.visit_expr(&c.body);
            for p in &c.inputs {
                own.visit_pat(p);
            }
            let mut u = Named::default();
            u.visit_expr(&c.body);
            let clear = bound.0.get(&name) == Some(&1)
                && u.0.iter().all(|x| own.0.contains_key(x) || bound.0.get(x).copied().unwrap_or(0) <= 1);
            if clear {
                let mut rest = b.clone();
                rest.stmts.remove(k);
                let mut uses = Named::default();
                uses.visit_block(&rest);
                let mut cs = CallSites { name: &name, closure: &c, n: fresh, done: 0 };
                cs.visit_block_mut(&mut rest);
                fresh = cs.n;
                if uses.1.get(&name).copied().unwrap_or(0) == cs.done {
                    log.insert(format!("calls of the closure {} replaced by its body", name));
                    *b = rest;
                    continue;
                }
            }
        }
        k += 1;
    }
    true
}

// ---------------------------------------------------------------- inlining
pub struct Inliner<'a> {
    pub idx: &'a Index,
    /// names of functions that have a contract in this unit (never inlined)
    pub contracted: &'a BTreeSet<String>,
    /// Self type of the function being emitted
    pub self_ty: Option<String>,
    pub fresh: usize,
    pub depth: usize,
    pub inlined: BTreeSet<String>,
    pub log: &'a mut Log,
    pub cfg: &'a Cfg,
}

fn params(f: &SrcFn) -> Option<(Option<Receiver>, Vec<(Pat, Type)>)> {
    let mut recv = None;
    let mut v = vec![];
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => recv = Some(r.clone()),
            FnArg::Typed(t) => v.push(((*t.pat).clone(), (*t.ty).clone())),
        }
    }
    Some((recv, v))
}

/// one function, perhaps read twice (a file under two aliases)
fn same_text(c: &[&SrcFn]) -> bool {
    let tail = |f: &SrcFn| f.key.split_once("::").map(|x| x.1.to_string());
    !c.is_empty()
        && c.iter().all(|f| {
            tail(f) == tail(c[0])
                && f.block.to_token_stream().to_string() == c[0].block.to_token_stream().to_string()
                && f.sig.to_token_stream().to_string() == c[0].sig.to_token_stream().to_string()
        })
}

impl<'a> Inliner<'a> {
    fn find_method(&self, name: &str) -> Option<SrcFn> {
        if self.contracted.contains(name) {
            return None;
        }
        let c: Vec<&SrcFn> = self
            .idx
            .fns
            .values()
            .filter(|f| f.name == name && f.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_))))
            .collect();
        if same_text(&c) {
            Some(c[0].clone())
        } else {
            // prefer a method of the type at hand
            None
        }
    }
    fn find_path(&self, p: &Path) -> Option<SrcFn> {
        let name = p.segments.last()?.ident.to_string();
        if self.contracted.contains(&name) {
            return None;
        }
        let qual = if p.segments.len() > 1 {
            Some(p.segments[p.segments.len() - 2].ident.to_string())
        } else {
            None
        };
        let c: Vec<&SrcFn> = self
            .idx
            .fns
            .values()
            .filter(|f| f.name == name)
            .filter(|f| match &qual {
                None => f.self_ty.is_none(),
                Some(q) if q == "Self" => f.self_ty.is_some() && (f.self_ty == self.self_ty || true),
                Some(q) => {
                    f.self_ty.as_deref() == Some(q.as_str())
                        || f.self_ty.is_none()
                        || f.key.contains("::trait ")
                }
            })
            .collect();
        if same_text(&c) {
            Some(c[0].clone())
        } else {
            None
        }
    }

    fn build(&mut self, f: &SrcFn, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 6 {
            return None;
        }
        let (r, ps) = params(f)?;
        let mut args = args;
        let mut recv = recv;
        if r.is_some() && recv.is_none() {
            if args.is_empty() {
                return None;
            }
            recv = Some(args.remove(0));
        }
        if ps.len() != args.len() {
            return None;
        }
        if !f.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) {
            return None;
        }
        self.fresh += 1;
        let k = self.fresh;
        let mut b = f.block.clone();
        Macros { log: self.log }.visit_block_mut(&mut b);
        // the ? operator and returns
        if has_return_stmts(&b.stmts) {
            let option = squash(f.sig.output.to_token_stream().to_string()).starts_with("->Option");
            TryToMatch { option }.visit_block_mut(&mut b);
            b.stmts = elim(b.stmts, 0)?;
        }
        // fresh names for everything bound in the body
        let mut loc = Locals::default();
        loc.visit_block(&b);
        let mut from_to: Vec<(String, String)> =
            loc.0.iter().map(|n| (n.clone(), format!("{}__{}", n, k))).collect();
        let mut pre: Vec<Stmt> = vec![];
        for ((p, t), a) in ps.iter().zip(args.iter()) {
            let mut pl = Locals::default();
            pl.visit_pat(p);
            let mut p2 = p.clone();
            let names: Vec<(String, String)> =
                pl.0.iter().map(|n| (n.clone(), format!("{}__{}", n, k))).collect();
            let pats: BTreeMap<String, String> = names.iter().cloned().collect();
            let map = BTreeMap::new();
            Rename { map: &map, pats: &pats }.visit_pat_mut(&mut p2);
            for n in names {
                if !from_to.contains(&n) {
                    from_to.push(n);
                }
            }
            let ts = squash(t.to_token_stream().to_string());
            let plain = !ts.contains('\'') && !ts.contains("Self") && !ts.contains("impl") && !ts.starts_with('&');
            pre.extend(if plain {
                stmts(quote!(let #p2: #t = #a;))
            } else {
                stmts(quote!(let #p2 = #a;))
            });
        }
        let mut map: BTreeMap<String, Expr> =
            from_to.iter().map(|(a, b)| (a.clone(), ident_expr(b))).collect();
        if let Some(r) = &r {
            let rv = recv?;
            if r.reference.is_some() && pure(&rv) {
                map.insert("self".into(), rv);
            } else {
                let n = format_ident!("self__{}", k);
                let m = r.mutability;
                if r.reference.is_some() {
                    if r.mutability.is_some() {
                        pre.extend(stmts(quote!(let #n = &mut #rv;)));
                    } else {
                        pre.extend(stmts(quote!(let #n = &#rv;)));
                    }
                } else {
                    pre.extend(stmts(quote!(let #m #n = #rv;)));
                }
                map.insert("self".into(), expr(quote!(#n)));
            }
        }
        let pats: BTreeMap<String, String> = from_to.iter().cloned().collect();
        Rename { map: &map, pats: &pats }.visit_block_mut(&mut b);
        if let Some(t) = &f.self_ty {
            if Some(t) != self.self_ty.as_ref() && !f.key.contains("::trait ") {
                let id = format_ident!("{}", t);
                struct S(Ident);
                impl VisitMut for S {
                    fn visit_path_mut(&mut self, p: &mut Path) {
                        if let Some(s) = p.segments.first_mut() {
                            if s.ident == "Self" {
                                s.ident = self.0.clone();
                            }
                        }
                        visit_mut::visit_path_mut(self, p);
                    }
                }
                S(id).visit_block_mut(&mut b);
            }
        }
        self.inlined.insert(f.key.clone());
        self.log.insert(format!("call of {} replaced by its body (no contract of its own)", f.key));
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        let st = &b.stmts;
        let unit = matches!(f.sig.output, ReturnType::Default);
        let _ = unit;
        Some(expr(quote!({ #(#pre)* #(#st)* })))
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                if let Some(f) = self.find_method(&m.method.to_string()) {
                    let recv = (*m.receiver).clone();
                    let args: Vec<Expr> = m.args.iter().cloned().collect();
                    if let Some(n) = self.build(&f, Some(recv), args) {
                        *e = n;
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    if let Some(f) = self.find_path(&p.path) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        if let Some(n) = self.build(&f, None, args) {
                            *e = n;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

// ---------------------------------------------------------------- strings
/// str and String methods -> vx_s_*: specified over the bytes of the string
struct Strs<'a> {
    log: &'a mut Log,
}
const STR_METHODS: [&str; 22] = [
    "find", "rfind", "len", "push_str", "push", "insert", "insert_str", "as_str", "to_string", "to_owned", "is_empty",
    "starts_with", "ends_with", "contains", "strip_prefix", "strip_suffix", "split_once", "split_at", "parse", "clone", "as_bytes", "repeat",
];
fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if p.path.is_ident("vx_lit")),
        Expr::Paren(p) => is_lit(&p.expr),
        _ => false,
    }
}
impl<'a> VisitMut for Strs<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // &s[i..j]
        if let Expr::Reference(r) = e {
            if let Expr::Index(ix) = &mut *r.expr {
                if let Expr::Range(g) = &mut *ix.index {
                    if pure(&ix.expr) {
                        self.visit_expr_mut(&mut ix.expr);
                        let b = &ix.expr;
                        let lo = match &mut g.start {
                            Some(x) => {
                                self.visit_expr_mut(x);
                                quote!(#x)
                            }
                            None => quote!(0),
                        };
                        let hi = match &mut g.end {
                            Some(x) => {
                                self.visit_expr_mut(x);
                                quote!(#x)
                            }
                            None => quote!(#b.vx_s_len()),
                        };
                        let hi = if matches!(g.limits, RangeLimits::Closed(_)) { quote!(((#hi) + 1)) } else { hi };
                        self.log.insert("&s[i..j] -> s.vx_s_slice(i, j): out of bounds aborts".into());
                        *e = expr(quote!(#b.vx_s_slice(#lo, #hi)));
                        return;
                    }
                }
            }
        }
        if matches!(&*e, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_)) && pure(&ix.expr)) {
            let r = e.clone();
            let mut s = expr(quote!(&#r));
            self.visit_expr_mut(&mut s);
            *e = expr(quote!((*#s)));
            return;
        }
        // s[i..j] as a receiver: the method takes it by reference
        if let Expr::MethodCall(m) = e {
            if matches!(&*m.receiver, Expr::Index(ix) if matches!(&*ix.index, Expr::Range(_))) {
                let r = (*m.receiver).clone();
                *m.receiver = expr(quote!(&#r));
                self.visit_expr_mut(&mut m.receiver);
            }
            if m.method == "expect" {
                self.visit_expr_mut(&mut m.receiver);
                return;
            }
        }
        if let Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) = e {
            let bytes: Vec<proc_macro2::Literal> = l.value().bytes().map(proc_macro2::Literal::u8_suffixed).collect();
            let l = l.clone();
            self.log.insert("string literals -> vx_lit(literal, its bytes)".into());
            *e = expr(quote!(vx_lit(#l, &[#(#bytes),*])));
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if STR_METHODS.contains(&n.as_str()) {
                    self.log.insert("str/String methods f -> vx_s_f".into());
                    m.method = format_ident!("vx_s_{}", n);
                }
            }
            Expr::Binary(b) if (is_lit(&b.left) || is_lit(&b.right)) && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { expr(quote!(vx_str_eq(#l, #r))) } else { expr(quote!((!vx_str_eq(#l, #r)))) };
            }
            _ => {}
        }
    }
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
pub fn strs(b: &mut Block, log: &mut Log) {
    Strs { log }.visit_block_mut(b);
}

// ---------------------------------------------------------------- paths
/// replaces a prefix of a path
pub struct PathMap<'a> {
    pub map: &'a [(String, String)],
    pub log: &'a mut Log,
}
impl<'a> VisitMut for PathMap<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        for (a, b) in self.map {
            let k: Vec<&str> = a.split("::").collect();
            if segs.len() >= k.len() && segs.iter().zip(k.iter()).all(|(x, y)| x == y) {
                let mut n: Path = syn::parse_str(b).expect("pathmap target");
                n.segments.extend(p.segments.iter().skip(k.len()).cloned());
                *p = n;
                self.log.insert(format!("path {} -> {}", a, b));
                break;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

// ---------------------------------------------------------------- cross-program calls
/// token::f(a, ..) -> vx_token_f(&mut ctx.log, a, ..): the call is entered in the log of the
/// instruction; .with_signer(..) and the seeds given to it are dropped
struct Cpi<'a> {
    ctx: Option<&'a str>,
    log: &'a mut Log,
}
impl<'a> VisitMut for Cpi<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) if p.path.segments.len() >= 2 => &p.path,
                    _ => return,
                };
                let n = p.segments.len();
                if p.segments[n - 2].ident != "token" {
                    return;
                }
                if let Some(ctx) = self.ctx {
                    let f = format_ident!("vx_token_{}", p.segments[n - 1].ident);
                    let ctx = format_ident!("{}", ctx);
                    let names: Vec<Ident> = (0..c.args.len()).map(|i| format_ident!("vx_c{}", i)).collect();
                    let args = c.args.iter();
                    self.log.insert("token::f(a, ..) -> vx_token_f(&mut ctx.log, a, ..)".into());
                    *e = expr(quote!({ #(let #names = #args;)* #f(&mut #ctx.log, #(#names),*) }));
                }
            }
            Expr::MethodCall(m) if m.method == "with_signer" && m.args.len() == 1 && seedy(&m.args[0]) => {
                self.log.insert(".with_signer(..) dropped".into());
                let r = (*m.receiver).clone();
                *e = r;
            }
            _ => {}
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
/// built from places, references, arrays, slices and plain views only
fn seedy(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => seedy(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && seedy(&r.expr),
        Expr::Paren(p) => seedy(&p.expr),
        Expr::Array(a) => a.elems.iter().all(seedy),
        Expr::Index(i) => seedy(&i.expr) && matches!(&*i.index, Expr::Range(r) if r.start.is_none() && r.end.is_none()),
        Expr::MethodCall(m) => ["as_ref", "key", "as_slice", "to_le_bytes"].iter().any(|n| m.method == n) && m.args.is_empty() && seedy(&m.receiver),
        _ => false,
    }
}
struct Uses(BTreeMap<String, usize>);
impl<'ast> Visit<'ast> for Uses {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(i) = p.path.get_ident() {
            *self.0.entry(i.to_string()).or_insert(0) += 1;
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_macro(&mut self, m: &'ast Macro) {
        for t in m.tokens.clone() {
            *self.0.entry(t.to_string()).or_insert(0) += 1;
        }
    }
}
pub fn cpi(b: &mut Block, ctx: Option<&str>, log: &mut Log) {
    Cpi { ctx, log }.visit_block_mut(b);
    // bindings that only fed the seeds
    loop {
        let mut u = Uses(Default::default());
        u.visit_block(b);
        struct D<'a>(&'a Uses, bool);
        impl<'a> VisitMut for D<'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let n = b.stmts.len();
                b.stmts.retain(|s| match s {
                    Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) => {
                        !(i.diverge.is_none() && !self.0 .0.contains_key(&p.ident.to_string()) && seedy(&i.expr) && !matches!(&*i.expr, Expr::Path(_) | Expr::Lit(_) | Expr::Field(_)))
                    }
                    _ => true,
                });
                self.1 |= b.stmts.len() != n;
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut d = D(&u, false);
        d.visit_block_mut(b);
        if !d.1 {
            break;
        }
        log.insert("unused bindings of seeds dropped".into());
    }
}

// ---------------------------------------------------------------- driver
pub fn macros(b: &mut Block, log: &mut Log) {
    Macros { log }.visit_block_mut(b);
}
pub fn simple(b: &mut Block, cfg: &Cfg, log: &mut Log) {
    Simple { log, cfg, fresh: 0 }.visit_block_mut(b);
}
pub fn loops(b: &mut Block, log: &mut Log) {
    Loops { log, n: 0 }.visit_block_mut(b);
}

/// Paths `Self::f` / `T::f` that denote trait items with a default -> `Pm::f`.
pub struct MathPaths<'a> {
    pub fns: &'a BTreeSet<String>,
    pub consts: &'a BTreeSet<String>,
    pub inherent: &'a BTreeSet<String>,
    pub to: &'a str,
}
impl<'a> VisitMut for MathPaths<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.len() == 2 {
            let last = p.segments[1].ident.to_string();
            let q = p.segments[0].ident.to_string();
            if (q == "Self" || q == "Pool" || q == "PoolMath") && !self.inherent.contains(&last) {
                if self.fns.contains(&last) {
                    p.segments[0].ident = format_ident!("{}", self.to);
                    p.segments[0].arguments = PathArguments::None;
                } else if self.consts.contains(&last) {
                    let i = format_ident!("{}", last);
                    *p = syn::parse2(quote!(#i)).unwrap();
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// names called (functions and methods) in a block
#[derive(Default)]
pub struct Calls(pub BTreeSet<String>);
impl<'ast> Visit<'ast> for Calls {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        self.0.insert(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(s) = p.path.segments.last() {
            self.0.insert(s.ident.to_string());
        }
        syn::visit::visit_expr_path(self, p);
    }
}

pub struct TypeMap<'a> {
    pub map: &'a [(String, String)],
}
impl<'a> VisitMut for TypeMap<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = squash(t.to_token_stream().to_string());
        for (a, b) in self.map {
            if let Some((pre, post)) = a.split_once('*') {
                if s.starts_with(pre) && s.ends_with(post) && s.len() >= a.len() - 1 {
                    let mid = &s[pre.len()..s.len() - post.len()];
                    let n = b.replace('*', mid);
                    if let Ok(x) = syn::parse_str::<Type>(&n) {
                        *t = x;
                        self.visit_type_mut(t);
                        return;
                    }
                }
            } else if &s == a {
                *t = syn::parse_str(b).expect("typemap target");
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
