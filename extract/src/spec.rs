// Parser of unit files (/verif/contracts/*.vc): which items of /repo to extract
// and the contract text to attach to them.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

#[derive(Debug, Default, Clone)]
pub struct FnSpec {
    pub key: String,
    pub opts: BTreeMap<String, String>,
    pub args: Vec<String>,
    pub requires: Vec<String>,
    pub ensures: Vec<String>,
    pub decreases: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_entry: BTreeMap<usize, String>,
    pub loop_exit: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub locals: Vec<String>,
    pub entry: String,
    pub exit: String,
    pub attrs: String,
}

#[derive(Debug, Clone)]
pub enum Item {
    Text(String),
    Const(String, BTreeMap<String, String>),
    Type(String, BTreeMap<String, String>),
    Trait(String, BTreeMap<String, String>),
    ImplBegin(String),
    ImplEnd,
    Fn(FnSpec),
}

#[derive(Debug, Default)]
pub struct Unit {
    pub srcs: Vec<(String, String)>,
    pub items: Vec<Item>,
    pub typemap: Vec<(String, String)>,
    pub renames: Vec<(String, String)>,
    /// (aliases, path prefix, replacement)
    pub pathmap: Vec<(Vec<String>, String, String)>,
    pub opts: BTreeMap<String, String>,
}

fn parse_opts(rest: &[&str]) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for t in rest {
        if let Some((k, v)) = t.split_once('=') {
            m.insert(k.to_string(), v.to_string());
        } else {
            m.insert(t.to_string(), String::new());
        }
    }
    m
}

/// Clauses are separated by a comma at the end of a line.
fn clauses(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for l in text.lines() {
        let t = l.trim_end();
        // strip line comments
        let t = match t.find("//") {
            Some(i) => t[..i].trim_end(),
            None => t,
        };
        if t.trim().is_empty() {
            continue;
        }
        cur.push_str(t);
        cur.push('\n');
        if t.ends_with(',') {
            let c = cur.trim().trim_end_matches(',').to_string();
            out.push(c);
            cur.clear();
        }
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().trim_end_matches(',').to_string());
    }
    out
}

/// lemmas proved in the unit that a unit builds on are not proved again
fn settled(text: &str, home: &str) -> String {
    let mut out = String::new();
    for l in text.lines() {
        if l.starts_with("pub proof fn ") || l.starts_with("proof fn ") {
            out.push_str(&format!("#[verifier::external_body] // proved in unit {}\n", home));
        }
        out.push_str(l);
        out.push('\n');
    }
    out
}

pub fn load(path: &Path, unit: &mut Unit) -> Result<(), String> {
    load_at(path, unit, true)
}

fn load_at(path: &Path, unit: &mut Unit, own: bool) -> Result<(), String> {
    let home = path.file_stem().map(|s| s.to_string_lossy().to_string()).unwrap_or_default();
    let built_on = !own && unit.opts.get("units").map(|u| u.split_whitespace().any(|x| x == home)).unwrap_or(false);
    let text =
        std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    let dir: PathBuf = path.parent().unwrap().to_path_buf();
    let mut cur_fn: Option<FnSpec> = None;
    let mut section = String::new();
    let mut buf = String::new();
    let mut plain = String::new();

    fn flush(cur: &mut Option<FnSpec>, section: &str, buf: &mut String) -> Result<(), String> {
        if let Some(f) = cur {
            let parts: Vec<&str> = section.split_whitespace().collect();
            match parts.first().copied().unwrap_or("") {
                "requires" => f.requires.extend(clauses(buf)),
                "ensures" => f.ensures.extend(clauses(buf)),
                "decreases" => f.decreases = buf.trim().to_string(),
                "loop" => {
                    f.loops.insert(parts[1].parse().unwrap(), buf.clone());
                }
                "loopentry" => {
                    f.loop_entry.insert(parts[1].parse().unwrap(), buf.clone());
                }
                "loopexit" => {
                    f.loop_exit.insert(parts[1].parse().unwrap(), buf.clone());
                }
                "loopend" => {
                    f.loop_end.insert(parts[1].parse().unwrap(), buf.clone());
                }
                "loopbefore" => {
                    f.loop_before.insert(parts[1].parse().unwrap(), buf.clone());
                }
                "at" => f.at.push((parts[1].to_string(), buf.clone())),
                "entry" => f.entry = buf.clone(),
                "exit" => f.exit = buf.clone(),
                "attrs" => f.attrs = buf.trim().to_string(),
                "" => {
                    if !buf.trim().is_empty() {
                        return Err(format!("stray text in fn {}: {}", f.key, buf));
                    }
                }
                s => return Err(format!("unknown section {}", s)),
            }
        }
        buf.clear();
        Ok(())
    }

    for line in text.lines() {
        let t = line.trim_start();
        if !t.starts_with('@') {
            if cur_fn.is_some() {
                buf.push_str(line);
                buf.push('\n');
            } else {
                plain.push_str(line);
                plain.push('\n');
            }
            continue;
        }
        let mut words: Vec<&str> = t[1..].split_whitespace().collect();
        let head = words.remove(0);
        match head {
            "requires" | "ensures" | "decreases" | "loop" | "loopentry" | "loopexit" | "loopbefore" | "loopend" | "at" | "entry"
            | "exit" | "attrs" => {
                flush(&mut cur_fn, &section, &mut buf)?;
                section = std::iter::once(head).chain(words).collect::<Vec<_>>().join(" ");
                continue;
            }
            "args" => {
                flush(&mut cur_fn, &section, &mut buf)?;
                section.clear();
                cur_fn.as_mut().unwrap().args =
                    words.iter().map(|s| s.trim_matches(',').to_string()).collect();
                continue;
            }
            "locals" => {
                flush(&mut cur_fn, &section, &mut buf)?;
                section.clear();
                cur_fn.as_mut().unwrap().locals =
                    words.iter().map(|s| s.trim_matches(',').to_string()).collect();
                continue;
            }
            _ => {}
        }
        // a new top-level directive ends the current fn and plain text
        flush(&mut cur_fn, &section, &mut buf)?;
        section.clear();
        if let Some(f) = cur_fn.take() {
            unit.items.push(Item::Fn(f));
        }
        if !plain.trim().is_empty() {
            unit.items.push(Item::Text(std::mem::take(&mut plain)));
        }
        plain.clear();
        match head {
            "src" => unit.srcs.push((words[0].to_string(), words[1].to_string())),
            "use" => load_at(&dir.join(words[0]), unit, false)?,
            "include" => {
                let p = dir.join(words[0]);
                let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {}", p.display(), e))?;
                unit.items.push(Item::Text(if built_on { settled(&s, &home) } else { s }));
            }
            "const" => unit.items.push(Item::Const(words.join(" "), Default::default())),
            "type" => unit.items.push(Item::Type(words[0].to_string(), parse_opts(&words[1..]))),
            "trait" => unit.items.push(Item::Trait(words[0].to_string(), parse_opts(&words[1..]))),
            "impl" => unit.items.push(Item::ImplBegin(words.join(" "))),
            "endimpl" => unit.items.push(Item::ImplEnd),
            "typemap" => {
                let s = words.join(" ");
                let (a, b) = s.split_once("=>").ok_or("typemap")?;
                unit.typemap.push((a.trim().to_string(), b.trim().to_string()));
            }
            "pathmap" => {
                let s = words[1..].join(" ");
                let (a, b) = s.split_once("=>").ok_or("pathmap")?;
                let al = words[0].split('+').map(|x| x.to_string()).collect();
                unit.pathmap.push((al, a.trim().to_string(), b.trim().to_string()));
            }
            "rename" => unit.renames.push((words[0].to_string(), words[1].to_string())),
            "opt" => {
                unit.opts.insert(words[0].to_string(), words[1..].join(" "));
            }
            "fn" => {
                // key may contain spaces: everything before the first `|`
                let rest = t[1..].trim_start_matches("fn").trim();
                let (key, opts) = match rest.split_once('|') {
                    Some((k, o)) => (k.trim().to_string(), o.trim()),
                    None => (rest.to_string(), ""),
                };
                let o: Vec<&str> = opts.split_whitespace().collect();
                cur_fn = Some(FnSpec { key, opts: parse_opts(&o), ..Default::default() });
            }
            "end" => {}
            other => return Err(format!("unknown directive @{} in {}", other, path.display())),
        }
    }
    flush(&mut cur_fn, &section, &mut buf)?;
    if let Some(f) = cur_fn.take() {
        unit.items.push(Item::Fn(f));
    }
    if !plain.trim().is_empty() {
        unit.items.push(Item::Text(plain));
    }
    Ok(())
}
