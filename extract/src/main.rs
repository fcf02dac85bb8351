// vx-extract UNIT.vc --repo DIR --out FILE.rs --map FILE.json
//
// Reads the functions named in a unit file from the sources in --repo, attaches
// the contracts of the unit file and writes one file for Verus plus a map from
// its lines to functions and contract clauses.
mod accts;
mod index;
mod print;
mod spec;
mod xform;

use index::{squash, Index, SrcFn};
use quote::ToTokens;
use serde_json::{json, Value};
use spec::{FnSpec, Item, Unit};
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

struct Out {
    text: String,
    line: usize,
}
impl Out {
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
    fn ln(&mut self, s: &str) {
        self.put(s);
        self.put("\n");
    }
}

fn clause_label(c: &str) -> (Vec<String>, String) {
    let t = c.trim_start();
    if let Some(r) = t.strip_prefix('[') {
        if let Some((l, rest)) = r.split_once(']') {
            let ok = l.split(',').all(|x| {
                let x = x.trim();
                x.len() >= 3 && x.chars().next().unwrap().is_ascii_uppercase() && x.chars().skip(1).all(|c| c.is_ascii_digit())
            });
            if ok {
                return (l.split(',').map(|x| x.trim().to_string()).collect(), rest.trim().to_string());
            }
        }
    }
    (vec![], c.to_string())
}

struct Ctx<'a> {
    repo: PathBuf,
    idx: &'a Index,
    unit: &'a Unit,
    contracted: BTreeSet<String>,
    math_fns: BTreeSet<String>,
    math_consts: BTreeSet<String>,
    math_to: String,
    locals: BTreeMap<String, Vec<String>>,
    rec_locals: BTreeMap<String, Vec<String>>,
    errors: Vec<(String, String)>,
    unread: BTreeMap<String, String>,
    assume_keys: BTreeSet<String>,
    probe: bool,
    fns: Vec<Value>,
    consts_used: BTreeSet<String>,
}

fn type_text(ctx: &Ctx, t: &Type) -> String {
    let mut t = t.clone();
    xform::TypeMap { map: &ctx.unit.typemap }.visit_type_mut(&mut t);
    print::inline(&t.to_token_stream())
}

fn find_fn<'a>(idx: &'a Index, key: &str) -> Option<&'a SrcFn> {
    if let Some(f) = idx.fns.get(key) {
        return Some(f);
    }
    // `a::Trait for Type::m` may be a default method of the trait
    let (alias, rest) = key.split_once("::")?;
    if let Some((tr, tm)) = rest.split_once(" for ") {
        let (_, m) = tm.rsplit_once("::")?;
        let base = tr.split('<').next().unwrap();
        return idx.fns.get(&format!("{}::trait {}::{}", alias, base, m));
    }
    None
}

fn emit_fn(ctx: &mut Ctx, out: &mut Out, sp: &FnSpec) -> std::result::Result<(), String> {
    let f = match find_fn(ctx.idx, &sp.key) {
        Some(f) => f.clone(),
        None => return Err(format!("lost anchor: {} is not in the source", sp.key)),
    };
    let mut log = xform::Log::new();
    let alias = sp.key.split("::").next().unwrap().to_string();
    let assumed = ctx
        .unit
        .opts
        .get("assume")
        .map(|a| a.split_whitespace().any(|x| x == alias))
        .unwrap_or(false)
        || sp.opts.contains_key("assume")
        || ctx.assume_keys.contains(&sp.key);
    if let Some(p) = ctx.unread.get(&sp.key).filter(|_| !assumed) {
        return Err(format!("{}: {}", sp.key, p));
    }
    // signature
    let mut body = f.block.clone();
    let mut recv = String::new();
    let mut plist: Vec<(String, String, bool)> = vec![]; // name, type, mut
    let mut renames: Vec<(String, String)> = vec![];
    let mut pre_stmts: Vec<Stmt> = vec![];
    let mut pos = 0usize;
    for a in &f.sig.inputs {
        match a {
            FnArg::Receiver(r) => {
                recv = print::inline(&r.to_token_stream());
                if r.colon_token.is_some() {
                    return Err(format!("{}: typed receiver", sp.key));
                }
            }
            FnArg::Typed(t) => {
                let ty = type_text(ctx, &t.ty);
                match &*t.pat {
                    Pat::Ident(p) => {
                        let src = p.ident.to_string();
                        let want = sp.args.get(pos).cloned().unwrap_or(src.clone());
                        if src != want {
                            renames.push((src.clone(), want.clone()));
                        }
                        plist.push((want, ty, p.mutability.is_some()));
                    }
                    other => {
                        let want = sp.args.get(pos).cloned().unwrap_or(format!("vx_arg{}", pos));
                        let w = quote::format_ident!("{}", want);
                        let st: Block = syn::parse2(quote::quote!({ let #other = #w; })).map_err(|e| e.to_string())?;
                        pre_stmts.extend(st.stmts);
                        plist.push((want, ty, false));
                    }
                }
                pos += 1;
            }
        }
    }
    if !sp.args.is_empty() && sp.args.len() != pos {
        return Err(format!("lost anchor: {} has {} parameters, the contract names {}", sp.key, pos, sp.args.len()));
    }
    // a local that carries the name of a contract parameter must get out of the way
    let mut loc = xform::Locals::default();
    loc.visit_block(&body);
    let mut extra = vec![];
    for (s, w) in &renames {
        if loc.0.contains(w) && !renames.iter().any(|(x, _)| x == w) {
            extra.push((w.clone(), format!("{}__l", w)));
        }
        let _ = s;
    }
    if !renames.is_empty() {
        extra.extend(renames.iter().cloned());
        xform::rename_all(&mut body, &extra);
        log.insert(format!("parameters renamed to the names of the contract: {:?}", renames));
    }
    if !pre_stmts.is_empty() {
        pre_stmts.append(&mut body.stmts);
        body.stmts = pre_stmts;
    }
    // body
    let cfg = xform::Cfg {
        index_shim: ctx.unit.opts.contains_key("index") || sp.opts.contains_key("index"),
        range_shim: ctx.unit.opts.contains_key("ranges"),
        div_shim: ctx.unit.opts.contains_key("div"),
        arith_shim: ctx.unit.opts.contains_key("arith") || sp.opts.contains_key("arith"),
        into_shim: !ctx.unit.opts.contains_key("nointo"),
    };
    xform::macros(&mut body, &mut log);
    let closures = xform::closures(&mut body, &plist.iter().map(|p| p.0.clone()).collect::<Vec<_>>(), &mut log);
    let mut inl = xform::Inliner {
        idx: ctx.idx,
        contracted: &ctx.contracted,
        self_ty: f.self_ty.clone(),
        fresh: 0,
        depth: 0,
        inlined: Default::default(),
        log: &mut log,
        cfg: &cfg,
    };
    if !assumed {
        inl.visit_block_mut(&mut body);
    }
    let mut inlined = inl.inlined.clone();
    if closures {
        inlined.insert("<closure>".into());
    }
    if !ctx.math_to.is_empty() && f.self_ty.as_deref() != Some("PoolMath") {
        let inherent: BTreeSet<String> = ctx
            .idx
            .fns
            .values()
            .filter(|g| g.self_ty.is_some() && (g.self_ty == f.self_ty || g.self_ty.as_deref() == Some("Pool")) && !g.key.contains("::trait "))
            .map(|g| g.name.clone())
            .collect();
        let (fns, consts, to) = (ctx.math_fns.clone(), ctx.math_consts.clone(), ctx.math_to.clone());
        xform::MathPaths { fns: &fns, consts: &consts, inherent: &inherent, to: &to }.visit_block_mut(&mut body);
    } else if f.self_ty.as_deref() == Some("PoolMath") {
        let (fns, consts) = (BTreeSet::new(), ctx.math_consts.clone());
        let none = BTreeSet::new();
        xform::MathPaths { fns: &fns, consts: &consts, inherent: &none, to: "Self" }.visit_block_mut(&mut body);
    }
    let pm: Vec<(String, String)> = ctx
        .unit
        .pathmap
        .iter()
        .filter(|p| p.0.contains(&alias))
        .map(|p| (p.1.clone(), p.2.clone()))
        .collect();
    if !pm.is_empty() {
        xform::PathMap { map: &pm, log: &mut log }.visit_block_mut(&mut body);
    }
    if ctx.unit.opts.contains_key("cpi") {
        let c = plist.iter().find(|p| p.1.contains("VxCtx")).map(|p| p.0.clone());
        xform::cpi(&mut body, c.as_deref(), &mut log);
    }
    // the names of the locals of the unchanged tree
    let mut loc = xform::Locals::default();
    loc.visit_block(&body);
    ctx.rec_locals.insert(sp.key.clone(), loc.0.clone());
    if let Some(want) = ctx.locals.get(&sp.key) {
        let have = &loc.0;
        let missing: Vec<&String> = want.iter().filter(|w| !have.contains(w)).collect();
        let newn: Vec<&String> = have.iter().filter(|h| !want.contains(h)).collect();
        if !missing.is_empty() && missing.len() == newn.len() {
            let m: Vec<(String, String)> =
                newn.iter().zip(missing.iter()).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            xform::rename_all(&mut body, &m);
            log.insert(format!("locals renamed to the names of the contract: {:?}", m));
        }
    }
    let mut kinds = xform::Kinds::default();
    kinds.visit_block(&body);
    xform::loops(&mut body, &mut log);
    if ctx.unit.opts.contains_key("strings") {
        xform::strs(&mut body, &mut log);
    }
    xform::simple(&mut body, &cfg, &mut log);
    xform::TypeMap { map: &ctx.unit.typemap }.visit_block_mut(&mut body);
    let mut calls = xform::Calls::default();
    calls.visit_block(&body);
    for c in &calls.0 {
        ctx.consts_used.insert(c.clone());
    }
    let mut mk = xform::Mark { n: 0 };
    mk.visit_block_mut(&mut body);
    let nloops = mk.n;
    if !assumed {
        for k in sp.loops.keys() {
            if *k >= nloops {
                return Err(format!("lost anchor: {} has {} loops, the contract expects loop {}", sp.key, nloops, k));
            }
        }
    }
    if !assumed && !sp.exit.trim().is_empty() {
        // the value returned at the end gets a name, for the proof text after it
        let tail = match body.stmts.pop() {
            Some(Stmt::Expr(e, None)) => Some(e),
            Some(Stmt::Expr(Expr::Return(r), Some(_))) if r.expr.is_some() => r.expr.map(|e| *e),
            Some(other) => {
                body.stmts.push(other);
                None
            }
            None => None,
        };
        if let Some(e) = &tail {
            body.stmts.push(syn::parse_quote! { let vx_r = #e; });
        }
        body.stmts.push(syn::parse_quote! { __vx_exit!(0); });
        if tail.is_some() {
            body.stmts.push(Stmt::Expr(syn::parse_quote! { vx_r }, None));
        }
    }
    let mut text = print::block(&body);
    for t in ["loop", "entry", "before", "end", "after", "exit"] {
        text = text.replace(&format!("__vx_{} !(", t), &format!("__vx_{}!(", t));
    }
    // output type
    let rname = sp.opts.get("ret").cloned().unwrap_or("r".into());
    let ret = match &f.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => format!(" -> ({}: {})", rname, type_text(ctx, t)),
    };
    let mut ps: Vec<String> = vec![];
    if !recv.is_empty() {
        ps.push(recv.clone());
    }
    for (n, t, m) in &plist {
        ps.push(format!("{}{}: {}", if *m { "mut " } else { "" }, n, t));
    }
    let generics = {
        let g: Vec<String> = f
            .sig
            .generics
            .params
            .iter()
            .map(|p| print::inline(&p.to_token_stream()))
            .collect();
        let g: Vec<String> = if sp.opts.contains_key("nogenerics") { vec![] } else { g };
        if g.is_empty() {
            String::new()
        } else {
            format!("<{}>", g.join(", "))
        }
    };
    // text placeholders
    let reindent = |s: &str| s.trim_end().to_string();
    let mut k = 0;
    let mut loop_clauses: Vec<(usize, String, Vec<String>, String)> = vec![];
    while k < nloops {
        let ph = format!("__vx_loop!({});", k);
        if let Some(p) = text.find(&ph) {
            let spec = sp.loops.get(&k).map(|s| reindent(s)).unwrap_or_default();
            text.replace_range(p..p + ph.len(), "");
            let b = text[..p].rfind('{').unwrap();
            let (clean, cl) = strip_labels(&spec);
            for c in cl {
                loop_clauses.push((k, c.0, c.1, c.2));
            }
            text.insert_str(b, &format!("\n/*loop {}*/\n{}\n", k, clean));
        }
        for (tag, m) in [
            ("entry", &sp.loop_entry),
            ("before", &sp.loop_before),
            ("end", &sp.loop_end),
            ("after", &sp.loop_exit),
        ] {
            let ph = format!("__vx_{}!({});", tag, k);
            if let Some(p) = text.find(&ph) {
                let s = m.get(&k).map(|s| reindent(s)).unwrap_or_default();
                text.replace_range(p..p + ph.len(), &s);
            }
        }
        k += 1;
    }
    if let Some(p) = text.find("__vx_exit!(0);") {
        text.replace_range(p..p + "__vx_exit!(0);".len(), sp.exit.trim_end());
    }
    // entry text goes after the first brace
    if !sp.entry.trim().is_empty() {
        let b = text.find('{').unwrap();
        text.insert_str(b + 1, &format!("\n{}\n", sp.entry.trim_end()));
    }
    let mut lost_hints: Vec<String> = vec![];
    for (anchor, ins) in &sp.at {
        // `@at <text>`: insert proof text after the statement that binds <text>
        match find_binding(&text, anchor) {
            Some(p) => text.insert_str(p, &format!("\n{}\n", ins.trim_end())),
            // only a hint: the proof may go through without it
            None => lost_hints.push(anchor.clone()),
        }
    }
    let name = sp.opts.get("name").cloned().unwrap_or(f.name.clone());
    let vis = if sp.opts.contains_key("novis") { "" } else { "pub " };
    let start = out.line + 1;
    out.ln(&format!("// {}:{} {}", f.file, f.line, sp.key));
    if assumed {
        out.ln("#[verifier::external_body]");
    }
    if !sp.attrs.is_empty() {
        out.ln(&sp.attrs);
    }
    if nloops > 0 && !assumed {
        out.ln("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]");
        if sp.loops.is_empty() && !sp.opts.contains_key("isolated") {
            log.insert(format!("{} loop(s) without a contract", nloops));
        }
        if sp.opts.contains_key("nodecreases") {
            out.ln("#[verifier::exec_allows_no_decreases_clause]");
        }
    }
    out.ln(&format!("{}fn {}{}({}){}", vis, name, generics, ps.join(", "), ret));
    let mut clauses: Vec<Value> = vec![];
    let traitm = sp.opts.contains_key("traitimpl");
    for (kind, list) in [("requires", &sp.requires), ("ensures", &sp.ensures)] {
        if list.is_empty() || (traitm && kind == "requires") {
            continue;
        }
        out.ln(&format!("    {}", kind));
        for c in list {
            let (labels, t) = clause_label(c);
            let s = out.line + 1;
            out.ln(&format!("        {},", t));
            clauses.push(json!({"kind": kind, "labels": labels, "start": s, "end": out.line, "text": squash(t)}));
        }
    }
    if let Some(name) = sp.opts.get("det").filter(|_| assumed) {
        // the same arguments give the same result: the file must hold nothing a result could depend on
        let src = std::fs::read_to_string(ctx.repo.join(&f.file)).unwrap_or_default();
        let impure = ["static ", "thread_local", "Cell<", "Atomic", "unsafe", "SystemTime", "Instant", "random", "rand::", "env::", "Clock"];
        let code: String = src.split("#[cfg(test)]").next().unwrap_or("").lines()
            .map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
        if !impure.iter().any(|w| code.contains(w)) {
            let mut a: Vec<String> = vec![];
            if !recv.is_empty() {
                a.push("self".into());
            }
            a.extend(plist.iter().map(|p| p.0.clone()));
            if sp.ensures.is_empty() {
                out.ln("    ensures");
            }
            out.ln(&format!("        {} == {}({}), // trusted: a function of its arguments only", rname, name, a.join(", ")));
        }
    }
    if ctx.probe && !assumed && !sp.ensures.is_empty() {
        out.ln(&format!("        vx_probe({}int),", ctx.fns.len()));
    }
    if !sp.decreases.is_empty() {
        out.ln(&format!("    decreases {}", sp.decreases));
    }
    let bstart = out.line + 1;
    if assumed {
        out.ln("{ unimplemented!() }");
    } else {
        out.ln(&text);
    }
    // loop clauses by line
    for (k, t, labels, raw) in loop_clauses {
        let lines: Vec<&str> = out.text.lines().collect();
        let mut hit = None;
        for (i, l) in lines.iter().enumerate().skip(bstart - 1) {
            if l.trim() == raw.lines().next().unwrap_or("").trim() {
                hit = Some(i + 1);
                break;
            }
        }
        if let Some(h) = hit {
            clauses.push(json!({"kind": format!("loop {}", k), "labels": labels, "start": h,
                "end": h + raw.lines().count().saturating_sub(1), "text": squash(t)}));
        }
    }
    let end = out.line;
    ctx.fns.push(json!({
        "key": sp.key, "name": name, "file": f.file, "line": f.line, "end_line": f.end_line,
        "start": start, "end": end, "clauses": clauses, "assumed": assumed,
        "inlined": inlined.iter().collect::<Vec<_>>(),
        "rewrites": log.iter().collect::<Vec<_>>(),
        "calls": calls.0.iter().collect::<Vec<_>>(),
        "lost_hints": if assumed { vec![] } else { lost_hints },
        "loops": kinds.0, "contract_loops": sp.loops.len(),
        "nodecreases": sp.opts.contains_key("nodecreases"),
        "group": sp.opts.get("group").cloned().unwrap_or_default(),
    }));
    Ok(())
}

/// position just after the statement `let .. <name> .. ;` or `<name> = ..;`
fn find_binding(text: &str, name: &str) -> Option<usize> {
    let (name, nth) = match name.split_once('#') {
        Some((n, k)) => (n, k.parse::<usize>().ok()?),
        None => (name, 0),
    };
    let b: Vec<char> = text.chars().collect();
    let _ = b;
    let mut seen = 0;
    let mut off = 0;
    for l in text.split_inclusive('\n') {
        let t = l.trim();
        let hit = if let Some(call) = name.strip_suffix("()") {
            t.contains(&format!(".{}(", call)) || t.contains(&format!("::{}(", call)) || t.starts_with(&format!("{}(", call))
        } else {
            t.starts_with(&format!("let {} ", name))
                || t.starts_with(&format!("let mut {} ", name))
                || t.starts_with(&format!("let {}:", name))
                || t.starts_with(&format!("{} = ", name))
                || (t.starts_with("let (") && {
                    let pat = t.split('=').next().unwrap_or("");
                    pat.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == name)
                })
        };
        if hit {
            if seen == nth {
                // find the `;` at depth 0 from here
                let mut depth = 0i32;
                let bytes = text.as_bytes();
                let mut i = off;
                while i < bytes.len() {
                    match bytes[i] {
                        b'(' | b'[' | b'{' => depth += 1,
                        b')' | b']' | b'}' => depth -= 1,
                        b';' if depth == 0 => return Some(i + 1),
                        _ => {}
                    }
                    if depth < 0 {
                        return None;
                    }
                    i += 1;
                }
            }
            seen += 1;
        }
        off += l.len();
    }
    None
}

fn strip_labels(s: &str) -> (String, Vec<(String, Vec<String>, String)>) {
    let mut out = String::new();
    let mut v = vec![];
    for l in s.lines() {
        let (lab, t) = clause_label(l);
        let keep = if lab.is_empty() { l.to_string() } else { t.clone() };
        if !keep.trim().is_empty() {
            v.push((keep.trim().to_string(), lab, keep.trim().to_string()));
        }
        out.push_str(&keep);
        out.push('\n');
    }
    (out, v)
}

fn emit_type(ctx: &Ctx, out: &mut Out, key: &str, opts: &BTreeMap<String, String>) -> std::result::Result<(), String> {
    if let Some(e) = ctx.idx.enums.get(key) {
        out.ln(&format!("// {}", key));
        let derive = opts.get("derive").cloned().unwrap_or_default();
        if !derive.is_empty() {
            out.ln(&format!("#[derive({})]", derive));
        }
        out.ln(&format!("pub enum {} {{", opts.get("name").cloned().unwrap_or(e.ident.to_string())));
        for v in &e.variants {
            let f = match &v.fields {
                Fields::Unit => String::new(),
                f => print::inline(&f.to_token_stream()),
            };
            out.ln(&format!("    {}{},", v.ident, f));
        }
        out.ln("}");
        return Ok(());
    }
    let s = ctx.idx.structs.get(key).ok_or(format!("lost anchor: type {}", key))?;
    out.ln(&format!("// {}", key));
    // derives that matter
    let mut d: Vec<&str> = vec![];
    for a in &s.attrs {
        let t = squash(a.to_token_stream().to_string());
        if t.contains("derive") {
            for x in ["Clone", "Copy", "PartialEq"] {
                if t.split(|c: char| !c.is_alphanumeric()).any(|w| w == x) {
                    d.push(x);
                }
            }
        }
    }
    if let Some(want) = opts.get("derives") {
        let all: String = s.attrs.iter().map(|a| squash(a.to_token_stream().to_string())).filter(|t| t.contains("derive")).collect();
        for w in want.split('+') {
            if !all.split(|c: char| !c.is_alphanumeric()).any(|x| x == w) {
                return Err(format!("lost anchor: {} no longer derives {}", key, w));
            }
        }
    }
    if d.contains(&"PartialEq") && !opts.contains_key("nostructural") {
        d.push("Eq");
        d.push("Structural");
    }
    if opts.contains_key("nopartialeq") {
        d.retain(|x| !["PartialEq", "Eq", "Structural"].contains(x));
    }
    if opts.contains_key("noclone") {
        d.retain(|x| !["Clone"].contains(x));
    }
    if !d.is_empty() {
        out.ln(&format!("#[derive({})]", d.join(", ")));
    }
    let g = if opts.contains_key("nogenerics") { String::new() } else { print::inline(&s.generics.to_token_stream()) };
    match &s.fields {
        Fields::Named(n) => {
            out.ln(&format!("pub struct {}{} {{", s.ident, g));
            if let Some(f) = opts.get("info") {
                // Account<T>: the address of the account beside the fields of T
                out.ln(&format!("    pub info: {},", f));
            }
            for f in &n.named {
                out.ln(&format!("    pub {}: {},", f.ident.as_ref().unwrap(), type_text(ctx, &f.ty)));
            }
            out.ln("}");
        }
        Fields::Unnamed(n) => {
            let t: Vec<String> = n.unnamed.iter().map(|f| format!("pub {}", type_text(ctx, &f.ty))).collect();
            out.ln(&format!("pub struct {}{}({});", s.ident, g, t.join(", ")));
        }
        Fields::Unit => out.ln(&format!("pub struct {};", s.ident)),
    }
    Ok(())
}

fn emit_const(ctx: &Ctx, out: &mut Out, key: &str) -> std::result::Result<(), String> {
    let c = ctx.idx.consts.get(key).ok_or(format!("lost anchor: const {}", key))?;
    out.ln(&format!(
        "pub const {}: {} = {};",
        c.ident,
        type_text(ctx, &c.ty),
        print::inline(&c.expr.to_token_stream())
    ));
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let unit_path = PathBuf::from(&a[1]);
    let repo = PathBuf::from(get("--repo").unwrap_or("/repo".into()));
    let outp = get("--out").expect("--out");
    let mapp = get("--map").expect("--map");
    let mut unit = Unit::default();
    let mut fatal: Vec<(String, String)> = vec![];
    if let Err(e) = spec::load(&unit_path, &mut unit) {
        eprintln!("unit error: {}", e);
        std::process::exit(3);
    }
    let mut idx = Index::default();
    let expanded = get("--expanded").map(PathBuf::from).unwrap_or_default();
    let mut unread: BTreeMap<String, String> = BTreeMap::new();
    for (alias, p) in &unit.srcs {
        if p == "@expanded" {
            match idx.add_expanded(alias, &expanded) {
                Ok(v) => unread.extend(v),
                Err(e) => fatal.push((String::new(), format!("lost anchor: {}", e))),
            }
            continue;
        }
        if let Err(e) = idx.add_file(alias, &repo.join(p), p) {
            fatal.push((String::new(), format!("lost anchor: {}", e)));
        }
    }
    let contracted: BTreeSet<String> = unit
        .items
        .iter()
        .filter_map(|i| match i {
            Item::Fn(f) => Some(match idx.fns.get(&f.key) {
                Some(s) if f.key.starts_with("xp::") => s.name.clone(),
                _ => f.key.rsplit("::").next().unwrap().to_string(),
            }),
            _ => None,
        })
        .chain(unit.opts.get("known").map(|s| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>()).unwrap_or_default())
        .collect();
    if unit.opts.contains_key("closed") {
        // every instruction of the program has a contract
        for k in idx.fns.keys().filter(|k| k.starts_with("xp::__global::")) {
            if !unit.items.iter().any(|i| matches!(i, Item::Fn(f) if f.key == *k)) {
                fatal.push((String::new(), format!("an instruction without contract: {}", k)));
            }
        }
    }
    let locals: BTreeMap<String, Vec<String>> = get("--locals")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or_default();
    let mut math_fns = BTreeSet::new();
    let mut math_consts = BTreeSet::new();
    let math_to = unit.opts.get("mathto").cloned().unwrap_or_default();
    for f in idx.fns.values() {
        if f.self_ty.as_deref() == Some("PoolMath") {
            math_fns.insert(f.name.clone());
        }
    }
    for k in idx.consts.keys() {
        if k.contains("::trait PoolMath::") {
            math_consts.insert(k.rsplit("::").next().unwrap().to_string());
        }
    }
    for (al, tr, ty, n) in &idx.impls {
        if tr == "PoolMath" && *n > 0 {
            fatal.push((String::new(), format!("unsupported: {} overrides PoolMath methods in {}", ty, al)));
        }
    }
    let mut ctx = Ctx {
        repo: repo.clone(),
        idx: &idx,
        unit: &unit,
        contracted,
        math_fns,
        math_consts,
        math_to,
        locals,
        rec_locals: Default::default(),
        errors: fatal,
        unread,
        assume_keys: get("--assume").map(|s| s.split(";;").map(|x| x.to_string()).collect()).unwrap_or_default(),
        probe: a.iter().any(|x| x == "--probe"),
        fns: vec![],
        consts_used: Default::default(),
    };
    let mut out = Out { text: String::new(), line: 0 };
    out.ln("// generated by vx-extract, do not edit");
    out.ln("#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_must_use, non_shorthand_field_patterns, path_statements)]");
    out.ln("use vstd::prelude::*;");
    out.ln("use vstd::arithmetic::div_mod::*;");
    out.ln("use vstd::arithmetic::mul::*;");
    out.ln("use vstd::arithmetic::power::*;");
    out.ln("verus! {");
    let mut emitted_consts: BTreeSet<String> = BTreeSet::new();
    for it in &unit.items {
        match it {
            Item::Text(t) => out.put(&format!("{}\n", t)),
            Item::ImplBegin(h) => {
                // text between the header and the first fn follows
                out.ln(&format!("{} {{", h));
            }
            Item::ImplEnd => out.ln("}"),
            Item::Const(k, _) => {
                emitted_consts.insert(k.rsplit("::").next().unwrap().to_string());
                if let Err(e) = emit_const(&ctx, &mut out, k) {
                    ctx.errors.push((k.clone(), e));
                }
            }
            Item::Type(k, o) => {
                if let Err(e) = emit_type(&ctx, &mut out, k, o) {
                    ctx.errors.push((k.clone(), e));
                }
            }
            Item::Trait(..) => {}
            Item::Fn(sp) => {
                if let Err(e) = emit_fn(&mut ctx, &mut out, sp) {
                    ctx.errors.push((sp.key.clone(), e));
                    // keep the contract for the callers
                    let mut sp2 = sp.clone();
                    sp2.opts.insert("assume".into(), String::new());
                    let _ = emit_fn(&mut ctx, &mut out, &sp2);
                }
            }
        }
    }
    // constants that the functions use but the unit does not name
    let used = ctx.consts_used.clone();
    for (k, c) in &idx.consts {
        let n = c.ident.to_string();
        if used.contains(&n) && !emitted_consts.contains(&n) && !k.contains("::trait ") && !k.contains(" for ") {
            // only module level constants
            if k.matches("::").count() == 1 {
                emitted_consts.insert(n);
                let _ = emit_const(&ctx, &mut out, k);
            }
        }
    }
    out.ln("} // verus!");
    out.ln("fn main() {}");
    std::fs::write(&outp, &out.text).expect("write");
    let m = json!({
        "unit": unit_path.file_name().unwrap().to_string_lossy(),
        "term": unit.opts.get("term"), "fns": ctx.fns, "errors": ctx.errors,
        "assume": unit.opts.get("assume"),
        "lines": out.line,
    });
    std::fs::write(&mapp, serde_json::to_string_pretty(&m).unwrap()).expect("write");
    if let Some(p) = get("--record-locals") {
        std::fs::write(p, serde_json::to_string_pretty(&ctx.rec_locals).unwrap()).expect("write");
    }
    if !ctx.errors.is_empty() {
        for (_, e) in &ctx.errors {
            eprintln!("{}", e);
        }
        std::process::exit(2);
    }
}
