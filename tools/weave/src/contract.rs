//! Parser of the contract files (/verif/contracts/*.vc).
//!
//! A file is a sequence of directives; a directive starts with `@word` in column 0 and runs to the
//! next such line. Lines starting with `#` in column 0 are comments.
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct Clause { pub tags: Vec<String>, pub text: String, pub name: String }

#[derive(Debug, Clone, Default)]
pub struct LoopC {
    pub iter: Option<String>,
    pub invs: Vec<Clause>,
    pub dec: Option<String>,
    pub attr: String,
    pub before: String,
    pub body: String,
    pub bodyend: String,
    pub after: String,
    /// run the for loop as its definition: loop { match VAR.next() .. }
    pub desugar: bool,
    pub init: String,
    pub ens: Vec<Clause>,
}

#[derive(Debug, Clone, Default)]
pub struct ClosureC { pub params: Vec<String>, pub ret: String, pub reqs: Vec<String>, pub ens: Vec<String> }

#[derive(Debug, Clone, Default)]
pub struct FnC {
    pub key: String,
    pub reqs: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub nopanic: Vec<Clause>,
    pub entry: String,
    pub exit: String,
    /// ghost code after the tail expression has been evaluated (into vx_r)
    pub post: String,
    pub dec: Option<String>,
    pub attrs: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, ClosureC>,
    pub retname: Option<String>,
    pub rettype: Option<String>,
    pub unwind: Option<String>,
    pub rehome: bool,
    pub stubbody: bool,
    pub nloops: Option<usize>,
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
    pub used: bool,
    pub trusted: bool,
    pub owner: Option<String>,
}

#[derive(Debug, Clone, Default)]
pub struct Contracts {
    pub root: String,
    /// contract text that is only included when the source uses one of the words (in the blank-free text of a function)
    pub root_if: Vec<(Vec<String>, String)>,
    pub vacuity: bool,
    pub external: Vec<String>,
    pub in_mod: BTreeMap<String, String>,
    pub drops: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnC>,
    pub defaults: Vec<String>,
    pub typeattrs: BTreeMap<String, String>,
    pub aliases: Vec<(String, String)>,
    /// method name -> (wrapper path, how the receiver is passed: "", "&", "&mut ", number of arguments)
    pub methods: BTreeMap<String, (String, String, usize)>,
    /// called path (last two segments) -> wrapper path
    pub calls: BTreeMap<String, String>,
    /// the data types met in the source: name -> definition
    pub types: BTreeMap<String, String>,
}

fn tags_and_text(s: &str) -> Clause {
    // "I01,I02: expr"  or ": expr"
    let i = s.find(':').unwrap_or_else(|| panic!("clause without ':' : {}", s));
    let mut name = String::new();
    let mut tags = vec![];
    for t in s[..i].split(|c: char| c == ',' || c.is_whitespace()) {
        let t = t.trim();
        if t.is_empty() { continue; }
        if t.starts_with('"') || t.starts_with('<') { name = t.trim_matches(|c| c == '"' || c == '<' || c == '>').to_string(); } else { tags.push(t.to_string()); }
    }
    Clause { tags, text: s[i + 1..].trim().trim_end_matches(',').to_string(), name }
}

pub fn parse(text: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut dirs: Vec<(String, String)> = vec![];
    for line in text.lines() {
        if line.starts_with('#') && !line.starts_with("#[") && !line.starts_with("#!") { continue; }
        if line.starts_with('@') {
            let l = &line[1..];
            let e = l.find(|ch: char| ch.is_whitespace()).unwrap_or(l.len());
            dirs.push((l[..e].to_string(), l[e..].to_string()));
        } else if let Some(d) = dirs.last_mut() {
            d.1.push('\n');
            d.1.push_str(line);
        } else if !line.trim().is_empty() { panic!("text before first directive: {}", line); }
    }
    let mut cur = String::new();
    let mut lp: Option<usize> = None;
    let mut cl: Option<usize> = None;
    for (d, body) in dirs {
        let f = |c: &mut Contracts, cur: &str| -> *mut FnC { c.fns.get_mut(cur).unwrap_or_else(|| panic!("no @fn for {}", cur)) as *mut FnC };
        macro_rules! cf { () => { unsafe { &mut *f(&mut c, &cur) } } }
        match d.as_str() {
            "root" => { c.root.push_str(&body); c.root.push('\n'); }
            "rootif" => {
                let b = body.trim_start();
                let e = b.find('\n').unwrap_or(b.len());
                c.root_if.push((b[..e].split_whitespace().map(|x| x.to_string()).collect(), b[e..].to_string()));
            }
            "in" => {
                let b = body.trim_start();
                let e = b.find('\n').unwrap_or(b.len());
                let m = b[..e].trim().to_string();
                c.in_mod.entry(m).or_default().push_str(&format!("{}\n", &b[e..]));
            }
            "drop" => {
                let b = body.trim();
                let (k, r) = match b.split_once(" : ") { Some((k, r)) => (k.trim(), r.trim()), None => (b, "") };
                c.drops.insert(k.to_string(), r.to_string());
            }
            "alias" => {
                let b = body.trim();
                let (k, r) = b.split_once("=>").expect("alias a => b");
                c.aliases.push((k.trim().into(), r.trim().into()));
            }
            "method" => {
                let w: Vec<&str> = body.split_whitespace().collect();
                c.methods.insert(w[0].into(), (w[1].into(), match w[2] { "val" => "", "ref" => "&", "mut" => "&mut ", o => panic!("@method {}", o) }.into(), w[3].parse().unwrap()));
            }
            "call" => {
                let w: Vec<&str> = body.split_whitespace().collect();
                c.calls.insert(w[0].into(), w[1].into());
            }
            "defaults" => { for w in body.split_whitespace() { c.defaults.push(w.to_string()); } }
            "type" => {
                let b = body.trim();
                let (k, r) = b.split_once(" ").expect("@type Name attr");
                c.typeattrs.insert(k.trim().into(), r.trim().into());
            }
            "fn" => {
                cur = body.trim().to_string();
                if c.fns.contains_key(&cur) { panic!("duplicate contract {}", cur); }
                c.fns.insert(cur.clone(), FnC { key: cur.clone(), ..Default::default() });
                lp = None; cl = None;
            }
            "req" => { if let Some(k) = cl { cf!().closures.get_mut(&k).unwrap().reqs.push(body.trim().to_string()); } else { cf!().reqs.push(tags_and_text(&body)); } }
            "ens" => { if let Some(k) = cl { cf!().closures.get_mut(&k).unwrap().ens.push(body.trim().to_string()); } else if let Some(l) = lp { cf!().loops.get_mut(&l).unwrap().ens.push(tags_and_text(&body)); } else { cf!().ens.push(tags_and_text(&body)); } }
            "nopanic" => cf!().nopanic.push(tags_and_text(&body)),
            "entry" => { cf!().entry.push_str(&body); }
            "exit" => { cf!().exit.push_str(&body); }
            "post" => { cf!().post.push_str(&body); }
            "ret" => { cf!().retname = Some(body.trim().to_string()); }
            "rettype" => { cf!().rettype = Some(body.trim().to_string()); }
            "attr" => { if let Some(l) = lp { cf!().loops.get_mut(&l).unwrap().attr = body.trim().to_string(); } else { cf!().attrs.push_str(body.trim()); } }
            "unwind" => { cf!().unwind = Some(body.trim().to_string()); }
            "rehome" => { cf!().rehome = true; }
            "trusted" => { cf!().trusted = true; }
            "loops" => { cf!().nloops = Some(body.trim().parse().unwrap()); }
            "loop" => {
                let mut it = body.split_whitespace();
                let n: usize = it.next().unwrap().parse().unwrap();
                let iter = it.next().map(|s| s.to_string());
                let desugar = it.next() == Some("desugar");
                cf!().loops.insert(n, LoopC { iter, desugar, ..Default::default() });
                lp = Some(n); cl = None;
            }
            "inv" => { let l = lp.unwrap(); cf!().loops.get_mut(&l).unwrap().invs.push(tags_and_text(&body)); }
            "dec" => { if let Some(l) = lp { cf!().loops.get_mut(&l).unwrap().dec = Some(body.trim().to_string()); } else { cf!().dec = Some(body.trim().to_string()); } }
            "body" => { let l = lp.unwrap(); cf!().loops.get_mut(&l).unwrap().body = body; }
            "bodyend" => { let l = lp.unwrap(); cf!().loops.get_mut(&l).unwrap().bodyend = body; }
            "loopinit" => { let l = lp.unwrap(); cf!().loops.get_mut(&l).unwrap().init = body; }
            "loopbefore" => { let l = lp.unwrap(); cf!().loops.get_mut(&l).unwrap().before = body; }
            "loopafter" => { let l = lp.unwrap(); cf!().loops.get_mut(&l).unwrap().after = body; }
            "closure" => {
                // @closure N  T0, T1 -> (r: U)
                let b = body.trim();
                let (n, rest) = b.split_once(' ').unwrap();
                let (ps, ret) = rest.split_once("->").unwrap();
                let params = ps.split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
                let n: usize = n.parse().unwrap();
                cf!().closures.insert(n, ClosureC { params, ret: ret.trim().to_string(), ..Default::default() });
                cl = Some(n); lp = None;
            }
            "before" | "after" => {
                // anchored proof code:  @before <call-name>#k \n code
                let b = body.trim_start();
                let e = b.find('\n').unwrap_or(b.len());
                let v = (b[..e].trim().to_string(), b[e..].to_string());
                if d == "before" { cf!().before.push(v) } else { cf!().after.push(v) }
            }
            other => panic!("unknown directive @{}", other),
        }
    }
    c
}
