//! Reads rustc's own MIR dump (-Zunpretty=mir -Zmir-include-spans=on) for the resolved operand types
//! of every overloaded comparison operator.
use proc_macro2::LineColumn;
use std::collections::{HashMap, HashSet};

pub struct Ops { m: HashMap<(String, usize, usize, usize, usize), (usize, usize, String)>, builtin: HashSet<(String, usize, usize, usize, usize)>, bools: HashSet<(String, usize, usize, usize, usize)>, calls: Vec<String> }

fn refs(mut s: &str) -> usize {
    let mut k = 0;
    loop {
        s = s.trim_start();
        if !s.starts_with('&') { return k; }
        k += 1;
        s = s[1..].trim_start();
        if s.starts_with('\'') { let e = s.find(|c: char| c.is_whitespace()).unwrap_or(s.len()); s = &s[e..]; s = s.trim_start(); }
        if s.starts_with("mut ") { s = &s[4..]; }
    }
}

impl Ops {
    pub fn load(path: &str) -> Ops {
        let mut m = HashMap::new();
        let mut builtin = HashSet::new();
        let mut bools = HashSet::new();
        let mut locals: HashSet<String> = HashSet::new();
        let mut calls = vec![];
        let text = std::fs::read_to_string(path).unwrap_or_default();
        for l in text.lines() {
            // the locals of the function that are booleans
            if l.starts_with("fn ") {
                locals.clear();
                for a in l.split(|ch: char| ch == '(' || ch == ',' || ch == ')') { if let Some((n, "bool")) = a.trim().split_once(": ") { locals.insert(n.to_string()); } }
            }
            if let Some(d) = l.trim_start().strip_prefix("let ") { if let Some((n, t)) = d.trim_start_matches("mut ").split_once(": ") { if t.starts_with("bool;") { locals.insert(n.to_string()); } else { locals.remove(n); } } }
            let c = match l.rfind(" at src/") { Some(c) => c, None => continue };
            let parts: Vec<&str> = l[c + 4..].split(|ch: char| ch == ':' || ch == ' ').filter(|x| !x.is_empty()).collect();
            if parts.len() < 5 { continue; }
            let f = |s: &str| s.trim_matches(|c: char| !c.is_ascii_digit()).parse::<usize>().unwrap_or(0);
            let at = (parts[0].to_string(), f(parts[1]), f(parts[2]), f(parts[3]), f(parts[4]));
            if ["= Lt(", "= Le(", "= Gt(", "= Ge(", "= Eq(", "= Ne("].iter().any(|p| l[..c].contains(p)) {
                let o = &l[l.find("= ").unwrap() + 5..c];
                let o = o.trim_start_matches("copy ").trim_start_matches("move ");
                if o.split(',').next().map_or(false, |x| locals.contains(x) || x.ends_with(": bool)")) { bools.insert(at.clone()); }
                builtin.insert(at); continue;
            }
            if l[..c].contains(" -> [") { calls.push(format!("{} {}", at.0, &l[..c])); }
            let mut hit = None;
            for op in ["lt", "le", "gt", "ge", "eq", "ne"] {
                let pat = format!(">::{}(", op);
                if let Some(i) = l.find(&pat) { hit = Some(i); break; }
            }
            let i = match hit { Some(i) => i, None => continue };
            let st = match l.find("= <") { Some(s) => s + 3, None => continue };
            if st > i { continue; }
            let q = &l[st..i];
            let (a, b) = if let Some(k) = q.rfind(" as PartialOrd") { (&q[..k], &q[k + 14..]) } else if let Some(k) = q.rfind(" as PartialEq") { (&q[..k], &q[k + 13..]) } else { continue };
            let ka = refs(a);
            let kb = if b.starts_with('<') { refs(&b[1..]) } else { ka };
            m.insert(at, (ka, kb, (if b.starts_with('<') { b[1..].trim_end_matches('>') } else { a }).to_string()));
        }
        Ops { m, builtin, bools, calls }
    }
    /// reference depths and type of the right operand of the comparison at the first of the spans that the dump knows
    pub fn get(&self, file: &str, spans: &[(LineColumn, LineColumn)]) -> Option<(usize, usize, String)> {
        spans.iter().find_map(|(s, e)| self.m.get(&(file.to_string(), s.line, s.column + 1, e.line, e.column + 1)).cloned())
    }
    pub fn builtin(&self, file: &str, spans: &[(LineColumn, LineColumn)]) -> bool {
        spans.iter().any(|(s, e)| self.builtin.contains(&(file.to_string(), s.line, s.column + 1, e.line, e.column + 1)))
    }
    /// a comparison of two booleans
    pub fn bools(&self, file: &str, spans: &[(LineColumn, LineColumn)]) -> bool {
        spans.iter().any(|(s, e)| self.bools.contains(&(file.to_string(), s.line, s.column + 1, e.line, e.column + 1)))
    }
    pub fn calls(&self, module: &str, what: &str) -> bool { let d = format!("src/{}/", module); self.calls.iter().any(|l| l.starts_with(&d) && l.contains(what)) }
}
