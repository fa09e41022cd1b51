//! weave: mechanically turns one module of the crate into a Verus file carrying the contracts of
//! a contract file. Function bodies are copied verbatim from /repo's source; every rewriting done on
//! the way is one of the desugarings listed in DESIGN.md and is reported in the map file.
mod contract;
mod mir;
use contract::*;
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

/// the form of a body with names, literals and operators left out
fn skeleton(ts: proc_macro2::TokenStream) -> String {
    fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
        use proc_macro2::TokenTree as T;
        let mut op = String::new();
        for t in ts {
            if let T::Punct(p) = &t {
                op.push(p.as_char());
                if p.spacing() == proc_macro2::Spacing::Joint { continue; }
                let o = std::mem::take(&mut op);
                match o.as_str() {
                    "!" => {}
                    "+" | "-" | "/" | "%" => out.push("A".into()),
                    "<" | ">" | "<=" | ">=" | "==" | "!=" => out.push("C".into()),
                    "&&" | "||" => out.push("B".into()),
                    "+=" | "-=" | "*=" | "/=" | "%=" => out.push("A=".into()),
                    _ => out.push(o),
                }
                continue;
            }
            match t {
                T::Group(g) => { let d = match g.delimiter() { proc_macro2::Delimiter::Brace => "{}", proc_macro2::Delimiter::Parenthesis => "()", proc_macro2::Delimiter::Bracket => "[]", _ => "  " }; out.push(d[..1].into()); walk(g.stream(), out); out.push(d[1..].into()); }
                T::Ident(i) => { let i = i.to_string(); out.push(match i.as_str() { "true" | "false" => "L".into(), "if" | "else" | "match" | "for" | "while" | "loop" | "return" | "break" | "continue" | "let" | "mut" | "ref" | "in" | "unsafe" | "as" | "move" => i, _ => "I".into() }); }
                T::Literal(_) => { if out.last().map_or(false, |x| x == "A") { out.pop(); } else { out.push("L".into()) } }
                T::Punct(_) => {}
            }
        }
    }
    let mut out = vec![];
    walk(ts, &mut out);
    out.join(" ")
}
fn strip_ws(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

/// short textual form of a type: last path segments only, generics of nested types dropped
fn short_ty(t: &syn::Type, keep_args: bool) -> String {
    match t {
        syn::Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            let mut s = seg.ident.to_string();
            if keep_args {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    let v: Vec<String> = a.args.iter().filter_map(|x| match x { syn::GenericArgument::Type(t) => Some(short_ty(t, false)), _ => None }).collect();
                    if !v.is_empty() { s.push_str(&format!("<{}>", v.join(","))); }
                }
            }
            s
        }
        syn::Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, short_ty(&r.elem, keep_args)),
        syn::Type::Slice(s) => format!("[{}]", short_ty(&s.elem, keep_args)),
        other => strip_ws(&other.to_token_stream().to_string()),
    }
}
fn short_trait(p: &syn::Path) -> String {
    let seg = p.segments.last().unwrap();
    let mut s = seg.ident.to_string();
    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
        let v: Vec<String> = a.args.iter().filter_map(|x| match x { syn::GenericArgument::Type(t) => Some(short_ty(t, false)), _ => None }).collect();
        if !v.is_empty() { s.push_str(&format!("<{}>", v.join(","))); }
    }
    s
}

#[derive(Clone)]
struct Edit { a: usize, b: usize, opener: bool, seq: i64, text: String }

struct FnInfo { key: String, file: String, line: usize, contracted: bool, kind: String, clauses: Vec<(String, Vec<String>, String)>, notes: Vec<String>, body: String, trusted: bool, nloops: usize, anchors: bool, calls: Vec<String>, external: bool, skeleton: String, nclosures: usize }

struct W<'c> {
    src: String,
    file: String,
    edits: Vec<Edit>,
    seq: i64,
    c: &'c mut Contracts,
    ops: &'c mir::Ops,
    fns: &'c mut Vec<FnInfo>,
    dropped: &'c mut Vec<(String, String)>,
    lost: &'c mut Vec<String>,
    desugar: &'c mut BTreeMap<String, usize>,
    appended: String,
}

const PRIMS: [&str; 12] = ["usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"];
/// occurrences of the type `Self`: (start, end, followed by `::`)
struct Selfs(Vec<(usize, usize, bool)>);
impl<'ast> Visit<'ast> for Selfs {
    fn visit_receiver(&mut self, r: &'ast syn::Receiver) { if r.colon_token.is_some() { visit::visit_receiver(self, r); } }
    fn visit_type_path(&mut self, p: &'ast syn::TypePath) {
        if p.qself.is_none() && p.path.leading_colon.is_none() && p.path.segments[0].ident == "Self" {
            let r = p.path.segments[0].ident.span().byte_range();
            self.0.push((r.start, r.end, p.path.segments.len() > 1));
        }
        syn::visit::visit_type_path(self, p);
    }
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && strip_ws(&a.meta.to_token_stream().to_string()).contains("test")
        || a.path().is_ident("test"))
}

impl<'c> W<'c> {
    fn count(&mut self, what: &str) { *self.desugar.entry(what.to_string()).or_insert(0) += 1; }
    fn text(&self, s: Span) -> String { self.src[s.byte_range()].to_string() }
    fn ins_open(&mut self, pos: usize, t: impl Into<String>) { self.seq += 1; let seq = self.seq; self.edits.push(Edit { a: pos, b: pos, opener: true, seq, text: t.into() }); }
    fn ins_close(&mut self, pos: usize, t: impl Into<String>) { self.seq += 1; let seq = -self.seq; self.edits.push(Edit { a: pos, b: pos, opener: false, seq, text: t.into() }); }
    fn repl(&mut self, a: usize, b: usize, t: impl Into<String>) { self.seq += 1; let seq = self.seq; self.edits.push(Edit { a, b, opener: true, seq: seq + 1_000_000_000, text: t.into() }); }
    fn del(&mut self, s: Span) { let r = s.byte_range(); self.repl(r.start, r.end, ""); }

    fn finish(&mut self) -> String {
        let mut e = std::mem::take(&mut self.edits);
        let k = |x: &Edit| (x.a, x.opener, x.a != x.b, if x.a != x.b { std::cmp::Reverse(x.b) } else { std::cmp::Reverse(0) }, x.seq);
        e.sort_by(|x, y| k(x).cmp(&k(y)));
        let mut out = String::new();
        let mut pos = 0;
        for ed in e {
            if ed.a < pos { if ed.b <= pos && ed.a != ed.b { continue; } if ed.a < pos { continue; } }
            out.push_str(&self.src[pos..ed.a]);
            out.push_str(&ed.text);
            pos = ed.b.max(pos).max(ed.a);
        }
        out.push_str(&self.src[pos..]);
        out.push_str(&self.appended);
        out
    }

    fn strip_docs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let p = a.path();
            if p.is_ident("doc") || p.is_ident("deprecated") || p.is_ident("must_use") || p.is_ident("allow") || p.is_ident("inline") || p.is_ident("cold") || p.is_ident("track_caller") { self.del(a.span()); }
        }
    }
    fn make_pub(&mut self, vis: &syn::Visibility, first_tok: Span) {
        match vis {
            syn::Visibility::Inherited => self.ins_open(first_tok.byte_range().start, "pub "),
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => { let s = r.span().byte_range(); self.repl(s.start, s.end, "pub"); }
        }
    }

    fn items(&mut self, items: &[syn::Item], modpath: &str, loader: &mut dyn FnMut(&mut W, &syn::ItemMod, &str)) {
        for it in items {
            match it {
                syn::Item::Mod(m) => {
                    if has_cfg_test(&m.attrs) { self.del(m.span()); continue; }
                    self.strip_docs(&m.attrs);
                    self.make_pub(&m.vis, m.mod_token.span());
                    if let Some((br, its)) = &m.content {
                        self.ins_close(br.span.open().byte_range().end, " #[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::*;\n");
                        let mp = format!("{}::{}", modpath, m.ident);
                        self.items(its, &mp, loader);
                    } else {
                        loader(self, m, modpath);
                    }
                }
                syn::Item::Struct(s) => self.do_struct(s),
                syn::Item::Enum(e) => { self.strip_docs(&e.attrs); self.make_pub(&e.vis, e.enum_token.span()); }
                syn::Item::Impl(i) => { if has_cfg_test(&i.attrs) { self.del(i.span()); } else { self.do_impl(i) } }
                syn::Item::Fn(f) => {
                    if has_cfg_test(&f.attrs) { self.del(f.span()); continue; }
                    self.strip_docs(&f.attrs);
                    let key = f.sig.ident.to_string();
                    if let Some(r) = self.c.drops.get(&key).cloned() { self.dropped.push((key, r)); self.del(f.span()); continue; }
                    self.make_pub(&f.vis, f.sig.span());
                    self.do_fn(&key, &f.sig, &f.block, f.sig.span().byte_range().start, "free", f.span().byte_range().start, None);
                }
                syn::Item::Type(t) => { self.strip_docs(&t.attrs); self.make_pub(&t.vis, t.type_token.span()); }
                syn::Item::Const(t) => { self.strip_docs(&t.attrs); self.make_pub(&t.vis, t.const_token.span()); }
                syn::Item::Use(u) => { if has_cfg_test(&u.attrs) { self.del(u.span()); } }
                syn::Item::Trait(t) => { self.strip_docs(&t.attrs); self.make_pub(&t.vis, t.trait_token.span()); }
                _ => {}
            }
        }
    }

    fn do_struct(&mut self, s: &syn::ItemStruct) {
        self.strip_docs(&s.attrs);
        let name = s.ident.to_string();
        let def = s.fields.iter().map(|f| format!("{}: {}", f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), f.ty.to_token_stream())).collect::<Vec<_>>().join(", ");
        self.c.types.insert(name.clone(), def);
        let mut derives: BTreeSet<String> = BTreeSet::new();
        for a in &s.attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| { derives.insert(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
                self.del(a.span());
            }
        }
        if let Some(t) = self.c.typeattrs.get(&name).cloned() { let p = s.vis.span().byte_range().start.min(s.struct_token.span().byte_range().start); let p = if matches!(s.vis, syn::Visibility::Inherited) { s.struct_token.span().byte_range().start } else { p }; self.ins_open(p, format!("{}\n", t)); }
        self.make_pub(&s.vis, s.struct_token.span());
        let mut names = vec![];
        let mut tuple = false;
        for (i, f) in s.fields.iter().enumerate() {
            self.strip_docs(&f.attrs);
            match &f.ident { Some(id) => { self.make_pub(&f.vis, id.span()); names.push(id.to_string()); } None => { tuple = true; self.make_pub(&f.vis, f.ty.span()); names.push(i.to_string()); } }
        }
        let g = &s.generics;
        let (_, tyg, wh) = g.split_for_impl();
        let whs = wh.map(|w| { let t = w.to_token_stream().to_string(); t.trim_end().trim_end_matches(',').to_string() }).unwrap_or_default();
        let header = |bound: &str| {
            let mut ps = vec![];
            for p in &g.params {
                match p {
                    syn::GenericParam::Lifetime(l) => ps.push(l.lifetime.to_string()),
                    syn::GenericParam::Type(t) => {
                        let mut b: Vec<String> = t.bounds.iter().map(|x| x.to_token_stream().to_string()).collect();
                        if !bound.is_empty() { b.push(bound.to_string()); }
                        ps.push(if b.is_empty() { t.ident.to_string() } else { format!("{}: {}", t.ident, b.join(" + ")) });
                    }
                    syn::GenericParam::Const(c) => ps.push(c.to_token_stream().to_string()),
                }
            }
            if ps.is_empty() { String::new() } else { format!("<{}>", ps.join(", ")) }
        };
        let tys = format!("{}{}", name, tyg.to_token_stream());
        let mut gen = String::new();
        if derives.contains("Clone") && !self.c.drops.contains_key(&format!("<{} as Clone>", name)) {
            let body = if tuple { format!("{}({})", name, names.iter().map(|n| format!("self.{}.clone()", n)).collect::<Vec<_>>().join(", ")) }
                else { format!("{} {{ {} }}", name, names.iter().map(|n| format!("{}: self.{}.clone()", n, n)).collect::<Vec<_>>().join(", ")) };
            gen.push_str(&format!("\nimpl{} Clone for {} {} {{ fn clone(&self) -> Self {{ {} }} }}\n", header("Clone"), tys, whs, body));
            self.count("derive(Clone) written out field by field");
        } else if derives.contains("Clone") { self.dropped.push((format!("<{} as Clone>::clone", name), self.c.drops.get(&format!("<{} as Clone>", name)).cloned().unwrap_or_default())); }
        if derives.contains("Copy") && !self.c.drops.contains_key(&format!("<{} as Copy>", name)) { gen.push_str(&format!("\nimpl{} Copy for {} {} {{}}\n", header("Copy"), tys, whs)); }
        if derives.contains("PartialEq") && !self.c.drops.contains_key(&format!("<{} as PartialEq>", name)) {
            let body = if names.is_empty() { "true".to_string() } else { names.iter().map(|n| format!("self.{} == other.{}", n, n)).collect::<Vec<_>>().join(" && ") };
            gen.push_str(&format!("\nimpl{} PartialEq for {} {} {{ fn eq(&self, other: &Self) -> bool {{ {} }} }}\n", header("PartialEq"), tys, whs, body));
            self.count("derive(PartialEq) written out field by field");
        }
        if derives.contains("Eq") { gen.push_str(&format!("\nimpl{} Eq for {} {} {{}}\n", header("Eq"), tys, whs)); }
        for d in ["Debug", "Hash", "Default", "PartialOrd", "Ord"] { if derives.contains(d) { self.dropped.push((format!("<{} as {}>", name, d), "derived, not used by any contract".into())); } }
        if !gen.is_empty() {
            // weave the generated impls like source
            let line = s.ident.span().start().line;
            let t = weave_generated(self, &gen, line, "");
            let end = s.span().byte_range().end;
            self.ins_close(end, t);
        }
    }

    fn do_impl(&mut self, i: &syn::ItemImpl) {
        self.strip_docs(&i.attrs);
        let selfty = short_ty(&i.self_ty, false);
        let (prefix, tr) = match &i.trait_ {
            Some((_, p, _)) => (format!("<{} as {}>", selfty, short_trait(p)), Some(p)),
            None => (selfty.clone(), None),
        };
        if let Some(r) = self.c.drops.get(&prefix).cloned() {
            for it in &i.items { if let syn::ImplItem::Fn(f) = it { self.dropped.push((format!("{}::{}", prefix, f.sig.ident), r.clone())); } }
            self.del(i.span());
            return;
        }
        let trait_name = tr.map(|p| p.segments.last().unwrap().ident.to_string()).unwrap_or_default();
        let rehomed = tr.is_some() && i.items.iter().any(|it| matches!(it, syn::ImplItem::Fn(f) if self.c.fns.get(&format!("{}::{}", prefix, f.sig.ident)).map(|c| c.rehome).unwrap_or(false)));
        // a rehomed impl for a reference type becomes an inherent impl of the type behind it
        let ref_self = match &*i.self_ty { syn::Type::Reference(r) if rehomed && matches!(&*r.elem, syn::Type::Path(_)) => Some(r.clone()), _ => None };
        let local_self = matches!(&*i.self_ty, syn::Type::Path(_)) || ref_self.is_some();
        let split = tr.is_some() && local_self && (matches!(trait_name.as_str(), "PartialEq" | "PartialOrd" | "Ord") || rehomed) && i.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(_)));
        if !split {
            for it in &i.items {
                match it {
                    syn::ImplItem::Fn(f) => {
                        self.strip_docs(&f.attrs);
                        let key = format!("{}::{}", prefix, f.sig.ident);
                        if let Some(r) = self.c.drops.get(&key).cloned() { self.dropped.push((key, r)); self.del(f.span()); continue; }
                        if has_cfg_test(&f.attrs) { self.del(f.span()); continue; }
                        if tr.is_none() { self.make_pub(&f.vis, f.sig.span()); }
                        self.do_fn(&key, &f.sig, &f.block, f.sig.span().byte_range().start, if tr.is_some() { "trait" } else { "inherent" }, f.span().byte_range().start, Some(i));
                    }
                    syn::ImplItem::Type(t) => self.strip_docs(&t.attrs),
                    syn::ImplItem::Const(t) => { self.strip_docs(&t.attrs); if tr.is_none() { self.make_pub(&t.vis, t.const_token.span()); } }
                    _ => {}
                }
            }
            return;
        }
        // split: verbatim bodies move to an inherent impl, the trait impl keeps the contract
        self.count("trait impl split into contract stub and inherent body");
        let (_, tp, fortok) = i.trait_.as_ref().unwrap();
        let tpr = tp.span().byte_range();
        let header_end = i.brace_token.span.open().byte_range().start;
        let header: String = self.src[i.impl_token.span().byte_range().start..header_end].to_string();
        let fr = fortok.span().byte_range();
        self.repl(tpr.start, fr.end, "");
        if let Some(r) = &ref_self {
            self.repl(r.span().byte_range().start, r.elem.span().byte_range().start, "");
            let selfty = self.text(i.self_ty.span());
            let tr = self.text(tp.span());
            for it in &i.items {
                if let syn::ImplItem::Fn(f) = it {
                    let mut v = Selfs(vec![]);
                    v.visit_impl_item_fn(f);
                    for (a, b, multi) in v.0 { let t = if multi { format!("<{} as {}>", selfty, tr) } else { selfty.clone() }; self.repl(a, b, t); }
                    if let Some(syn::FnArg::Receiver(rc)) = f.sig.inputs.first() {
                        if rc.reference.is_none() && rc.colon_token.is_none() { let e = rc.self_token.span.byte_range().end; self.ins_open(e, format!(": {}", selfty)); }
                    }
                }
            }
        }
        // a parameter of the trait only (`impl<T, S1, S2> Tr<X<S1>> for X<S2>`) becomes one of the functions
        let mut moved: Vec<String> = vec![];
        let mut moved_bounds: Vec<String> = vec![];
        {
            let st = self.text(i.self_ty.span());
            let words: BTreeSet<String> = st.split(|c: char| !(c.is_alphanumeric() || c == '_')).map(|x| x.to_string()).collect();
            for p in i.generics.params.pairs() {
                if let syn::GenericParam::Type(t) = p.value() {
                    if words.contains(&t.ident.to_string()) { continue; }
                    moved.push(self.text(t.span()));
                    let r = t.span().byte_range();
                    let e = p.punct().map(|c| c.span.byte_range().end).unwrap_or(r.end);
                    self.repl(r.start, e, "");
                    if let Some(w) = &i.generics.where_clause {
                        for q in w.predicates.pairs() {
                            if let syn::WherePredicate::Type(wt) = q.value() {
                                if self.text(wt.bounded_ty.span()) == t.ident.to_string() {
                                    moved_bounds.push(self.text(wt.span()));
                                    let r = wt.span().byte_range();
                                    let e = q.punct().map(|c| c.span.byte_range().end).unwrap_or(r.end);
                                    self.repl(r.start, e, "");
                                }
                            }
                        }
                    }
                }
            }
        }
        if !moved.is_empty() {
            for it in &i.items {
                if let syn::ImplItem::Fn(f) = it {
                    match (&f.sig.generics.lt_token, &f.sig.generics.params) {
                        (Some(lt), _) => { let e = lt.span.byte_range().end; self.ins_open(e, format!("{}, ", moved.join(", "))); }
                        (None, _) => { let e = f.sig.ident.span().byte_range().end; self.ins_close(e, format!("<{}>", moved.join(", "))); }
                    }
                    if !moved_bounds.is_empty() {
                        if let Some(w) = &f.sig.generics.where_clause { let e = w.where_token.span.byte_range().end; self.ins_open(e, format!(" {}, ", moved_bounds.join(", "))); }
                        else { let e = match &f.sig.output { syn::ReturnType::Type(_, t) => t.span().byte_range().end, _ => f.sig.paren_token.span.close().byte_range().end }; self.ins_close(e, format!("\n    where {}", moved_bounds.join(", "))); }
                    }
                }
            }
        }
        // `Tr<&'a T>` implies T: 'a; an inherent impl has to say so
        if let syn::PathArguments::AngleBracketed(a) = &tp.segments.last().unwrap().arguments {
            for g in &a.args {
                if let syn::GenericArgument::Type(syn::Type::Reference(rf)) = g {
                    if let (Some(lt), syn::Type::Path(p)) = (&rf.lifetime, &*rf.elem) {
                        for gp in &i.generics.params {
                            if let syn::GenericParam::Type(tp) = gp { if p.path.is_ident(&tp.ident) {
                                let e = tp.ident.span().byte_range().end;
                                if let Some(c) = tp.colon_token { let r = c.span.byte_range(); self.ins_close(r.end, format!(" {} + ", lt)); } else { self.ins_close(e, format!(": {}", lt)); }
                            } }
                        }
                    }
                }
            }
        }
        let mut mangle: String = short_trait(tp).chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect();
        if let Some(r) = &ref_self { mangle.push_str(if r.mutability.is_some() { "_refmut" } else { "_ref" }); }
        let mut stub = format!("\n{}{{\n", header);
        let mut have = BTreeSet::new();
        for it in &i.items {
            match it {
                syn::ImplItem::Fn(f) => {
                    self.strip_docs(&f.attrs);
                    let key = format!("{}::{}", prefix, f.sig.ident);
                    have.insert(f.sig.ident.to_string());
                    if let Some(r) = self.c.drops.get(&key).cloned() { self.dropped.push((key, r)); self.del(f.span()); continue; }
                    self.ins_open(f.sig.span().byte_range().start, "pub ");
                    let new = format!("vx_{}_{}", mangle, f.sig.ident);
                    let r = f.sig.ident.span().byte_range();
                    self.repl(r.start, r.end, new);
                    self.do_fn(&key, &f.sig, &f.block, f.sig.span().byte_range().start, "split", f.span().byte_range().start, Some(i));
                    stub.push_str(&self.stub_fn(&key, &f.sig, trait_name != "FromIterator"));
                }
                syn::ImplItem::Type(t) => { stub.push_str(&format!("    {}\n", self.text(t.span()))); self.del(t.span()); }
                _ => {}
            }
        }
        stub.push_str("}\n");
        // default methods of the trait that the impl leaves to std
        let other_ty = match &tp.segments.last().unwrap().arguments {
            syn::PathArguments::AngleBracketed(a) => match a.args.first() { Some(syn::GenericArgument::Type(t)) => self.text(t.span()), _ => "Self".into() },
            _ => "Self".into(),
        };
        let mut defaults: Vec<(&str, String)> = vec![];
        let d = |m: &str, body: &str| -> String { format!("fn {}(&self, other: &{}) -> bool {{ {} }}", m, other_ty, body) };
        match trait_name.as_str() {
            "PartialEq" => defaults.push(("ne", d("ne", "!self.eq(other)"))),
            "PartialOrd" => {
                defaults.push(("lt", d("lt", "match self.partial_cmp(other) { Some(::std::cmp::Ordering::Less) => true, _ => false }")));
                defaults.push(("le", d("le", "match self.partial_cmp(other) { Some(::std::cmp::Ordering::Less) | Some(::std::cmp::Ordering::Equal) => true, _ => false }")));
                defaults.push(("gt", d("gt", "match self.partial_cmp(other) { Some(::std::cmp::Ordering::Greater) => true, _ => false }")));
                defaults.push(("ge", d("ge", "match self.partial_cmp(other) { Some(::std::cmp::Ordering::Greater) | Some(::std::cmp::Ordering::Equal) => true, _ => false }")));
            }
            "Ord" => {
                defaults.push(("max", "fn max(self, other: Self) -> Self { if other.lt(&self) { self } else { other } }".into()));
                defaults.push(("min", "fn min(self, other: Self) -> Self { if other.lt(&self) { other } else { self } }".into()));
                defaults.push(("clamp", "fn clamp(self, min: Self, max: Self) -> Self { crate::vx::vassert(min.le(&max)); if self.lt(&min) { min } else if self.gt(&max) { max } else { self } }".into()));
            }
            _ => {}
        }
        let mut gen = String::new();
        // (in a text of such methods the others are not missing)
        if self.file.ends_with("#defaults") { defaults.clear(); }
        for (m, code) in defaults {
            if have.contains(m) { continue; }
            let key = format!("{}::{}", prefix, m);
            if !self.c.fns.contains_key(&key) { continue; }
            gen.push_str(&code);
            gen.push('\n');
            self.count("std's default trait method written out");
        }
        let end = i.span().byte_range().end;
        let mut tail = stub;
        if !gen.is_empty() {
            let t = weave_generated(self, &format!("{}{{\n{}}}\n", header, gen), i.impl_token.span().start().line, "#defaults");
            // merge: the generated part produced its own stub impl; fold its methods into ours
            let (inh, st) = t.split_once("/*STUB*/").unwrap();
            let methods = &st[st.find("{\n").unwrap() + 2..st.rfind('}').unwrap()];
            tail = format!("{}{}}}\n{}", &tail[..tail.rfind('}').unwrap()], methods, inh);
        }
        // a destructor is proved as an ordinary function; the verifier does not model when it runs
        if trait_name == "Drop" { self.count("destructor proved as an ordinary function"); return; }
        self.ins_close(end, format!("\n/*STUB*/{}", tail));
    }

    fn param_names(&self, sig: &syn::Signature) -> Vec<String> {
        let mut v = vec![];
        for (i, a) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = a {
                match &*t.pat { syn::Pat::Ident(p) => v.push(p.ident.to_string()), _ => v.push(format!("vx_p{}", i)) }
            }
        }
        v
    }
    fn subst(&self, text: &str, params: &[String], rn: &str) -> String {
        let b: Vec<char> = text.chars().collect();
        let mut o = String::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                let n = b[i + 1].to_digit(10).unwrap() as usize;
                o.push_str(params.get(n).map(|s| s.as_str()).unwrap_or("vx_missing_param"));
                i += 2;
            } else if b[i] == '$' && i + 1 < b.len() && b[i + 1] == 'r' && !(i + 2 < b.len() && (b[i + 2].is_alphanumeric() || b[i + 2] == '_')) {
                o.push_str(rn);
                i += 2;
            } else { o.push(b[i]); i += 1; }
        }
        o
    }

    /// text of requires/ensures/decreases
    fn spec_text(&mut self, fc: &FnC, params: &[String], idx: Option<usize>, clauses: &mut Vec<(String, Vec<String>, String)>, trait_method: bool) -> String {
        let mut s = String::new();
        let rn = fc.retname.clone().unwrap_or("r".into());
        let mut req = String::new();
        let mark = |k: &str, n: usize| match idx { Some(i) => format!("//@C {} {}{}\n", i, k, n), None => String::new() };
        let mut add = |kind: &str, n: usize, c: &Clause, text: String| { let id = if c.name.is_empty() { format!("{}{}", kind, n) } else { format!("{}{}:{}", kind, n, c.name) }; clauses.push((format!("{}{}", kind, n), c.tags.clone(), format!("{} {}", id, text.split_whitespace().collect::<Vec<_>>().join(" ")))); };
        if !trait_method {
            for (n, c) in fc.reqs.iter().enumerate() { let t = self.subst(&c.text, params, &rn); req.push_str(&format!("{}        ({}),\n", mark("r", n), t)); add("r", n, c, t); }
            for (n, c) in fc.nopanic.iter().enumerate() { let t = self.subst(&c.text, params, &rn); req.push_str(&format!("{}        crate::vx::mode_a() ==> ({}),\n", mark("p", n), t)); add("p", n, c, t); }
        }
        if !req.is_empty() { s.push_str("\n    requires\n"); s.push_str(&req); }
        let mut ens = String::new();
        let cond = if trait_method && idx.is_none() { let r: Vec<String> = fc.reqs.iter().map(|c| format!("({})", self.subst(&c.text, params, &rn))).collect(); if r.is_empty() { String::new() } else { format!("({}) ==> ", r.join(" && ")) } } else { String::new() };
        for (n, c) in fc.ens.iter().enumerate() { if c.name == "here" && idx.is_none() { continue; } let t = self.subst(&c.text, params, &rn); let t = if cond.is_empty() { t } else { format!("{}({})", cond, t) }; ens.push_str(&format!("{}        ({}),\n", mark("e", n), t)); add("e", n, c, t); }
        for (n, c) in fc.nopanic.iter().enumerate() { let t = self.subst(&c.text, params, &rn); ens.push_str(&format!("{}        ({}),\n", mark("q", n), t)); add("q", n, c, t); }
        if !ens.is_empty() { s.push_str("\n    ensures\n"); s.push_str(&ens); }
        if let Some(u) = &fc.unwind { s.push_str(&format!("    {}\n", u)); }
        if let Some(d) = &fc.dec { s.push_str(&format!("    decreases {}\n", self.subst(d, params, &rn))); }
        s
    }

    fn stub_fn(&mut self, key: &str, sig: &syn::Signature, with_spec: bool) -> String {
        let fc = self.c.fns.get(key).cloned().unwrap_or_default();
        let params = self.param_names(sig);
        let mut dummy = vec![];
        let mut spec = fc.clone();
        spec.dec = None;
        let st = if with_spec { self.spec_text(&spec, &params, None, &mut dummy, true) } else { String::new() };
        let whole = self.text(sig.span());
        let rt = match &sig.output {
            syn::ReturnType::Default => whole.clone(),
            syn::ReturnType::Type(_, t) => {
                let base = sig.span().byte_range().start;
                let r = t.span().byte_range();
                format!("{}({}: {}){}", &whole[..r.start - base], fc.retname.clone().unwrap_or("r".into()), self.text(t.span()), &whole[r.end - base..])
            }
        };
        let rt = rt.replacen("(mut self", "(self", 1);
        format!("    #[verifier::external_body]\n    {} {}    {{ unimplemented!() }}\n", rt, st)
    }

    fn do_fn(&mut self, key: &str, sig: &syn::Signature, block: &syn::Block, start: usize, kind: &str, attr_pos: usize, owner: Option<&syn::ItemImpl>) {
        let idx = self.fns.len();
        let fc = self.c.fns.get(key).cloned();
        if let Some(f) = self.c.fns.get_mut(key) { f.used = true; }
        let contracted = fc.is_some();
        let fc = fc.unwrap_or_default();
        let mut notes = vec![];
        let mut clauses = vec![];
        let params = self.param_names(sig);
        let mut lets = Lets::default();
        lets.visit_block(block);
        let _ = owner;
        let external = self.c.external.iter().any(|k| k == key);
        let at = format!("{}{}\n", fc.attrs, if external { " #[verifier::external_body]" } else { "" });
        // (function items start at their attributes, before `pub`)
        if !at.trim().is_empty() { self.seq += 1; let seq = -self.seq; self.edits.push(Edit { a: attr_pos, b: attr_pos, opener: true, seq, text: at }); }
        self.ins_open(start, format!("\n//@F {}\n", idx));
        // parameters
        let mut mut_self = false;
        for (i, a) in sig.inputs.iter().enumerate() {
            match a {
                syn::FnArg::Receiver(r) => { if r.reference.is_none() && r.mutability.is_some() { mut_self = true; let rg = r.mutability.unwrap().span().byte_range(); self.repl(rg.start, rg.end, ""); self.count("`mut self` parameter"); } }
                syn::FnArg::Typed(t) => { if !matches!(&*t.pat, syn::Pat::Ident(_)) { let r = t.pat.span().byte_range(); self.repl(r.start, r.end, format!("vx_p{}", i)); if !matches!(&*t.pat, syn::Pat::Wild(_)) { notes.push("pattern parameter".into()); } } }
            }
        }
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = t.span().byte_range();
            let rt = fc.rettype.clone();
            if let Some(rt) = rt { self.repl(r.start, r.end, format!("({}: {})", fc.retname.clone().unwrap_or("r".into()), rt)); }
            else {
            self.ins_open(r.start, format!("({}: ", fc.retname.clone().unwrap_or("r".into())));
            self.ins_close(r.end, ")"); }
        }
        let bo = block.brace_token.span.open().byte_range();
        let bc = block.brace_token.span.close().byte_range();
        let st = self.spec_text(&fc, &params, Some(idx), &mut clauses, kind == "trait");
        self.ins_open(bo.start, st);
        let mut entry = String::new();
        if self.c.vacuity && contracted && !fc.trusted && !external { entry.push_str(&format!("\n//@V {}\n proof {{ assert(false); }}\n", idx)); }
        if mut_self { entry.push_str(" let mut vx_self = self;\n"); }
        if !fc.entry.is_empty() { entry.push_str(&format!("\n{}\n", self.subst(&fc.entry, &params, "r"))); }
        self.ins_open(bo.end, entry);
        if !fc.exit.is_empty() {
            let p = match block.stmts.last() { Some(syn::Stmt::Expr(e, None)) => e.span().byte_range().start, _ => bc.start };
            let t = sub_lets(&self.subst(&fc.exit, &params, "r"), &lets.names, &lets.loopvars);
            self.ins_open(p, format!("\n{}\n", t));
        }
        if !fc.post.is_empty() {
            let t = sub_lets(&self.subst(&fc.post, &params, "vx_r"), &lets.names, &lets.loopvars);
            match block.stmts.last() {
                Some(syn::Stmt::Expr(e, None)) => { let r = e.span().byte_range(); self.ins_open(r.start, "let vx_r = "); self.ins_close(r.end, format!(";\n{}\nvx_r", t)); }
                _ => { self.ins_close(bc.start, format!("\n{}\n", t)); }
            }
        }
        self.ins_close(bc.end, format!("\n//@E {}\n", idx));
        // body
        let mut v = BodyV { w: self, fc: &fc, params: &params, nloop: 0, nclosure: 0, mut_self, notes: vec![], clauses: vec![], idx, lets: lets.names, calls: BTreeMap::new(), stmt_stack: vec![], inlined: 0, parens: vec![], loopvars: lets.loopvars};
        v.visit_block(block);
        let (nl, ncl) = (v.nloop, v.nclosure);
        let vn = std::mem::take(&mut v.notes);
        let vc = std::mem::take(&mut v.clauses);
        let calls = v.calls.clone();
        notes.extend(vn);
        clauses.extend(vc);
        for k in fc.loops.keys() { if *k >= nl { notes.push(format!("lost anchor: loop {}", k)); } }
        for k in fc.closures.keys() { if *k >= ncl { notes.push(format!("lost anchor: closure {}", k)); } }
        if contracted && nl > 0 && fc.loops.len() != nl { notes.push(format!("loop count {} != contracted {}", nl, fc.loops.len())); }
        for (a, _) in fc.before.iter().chain(fc.after.iter()) {
            let (n, k) = a.split_once('#').unwrap_or((a, "0"));
            if calls.get(n).cloned().unwrap_or(0) <= k.parse::<usize>().unwrap_or(0) { notes.push(format!("lost anchor: call {}", a)); }
        }
        if sig.inputs.iter().any(|a| matches!(a, syn::FnArg::Typed(_))) || true {
            for c in fc.reqs.iter().chain(fc.ens.iter()) { for k in 0..9 { if c.text.contains(&format!("${}", k)) && params.len() <= k { notes.push(format!("lost anchor: parameter {}", k)); } } }
        }
        let body = strip_ws(&block.to_token_stream().to_string());
        let sigt = strip_ws(&sig.to_token_stream().to_string());
        self.fns.push(FnInfo { key: key.to_string(), file: self.file.clone(), line: sig.ident.span().start().line, contracted, kind: kind.to_string(), clauses, notes, body: format!("{}{}", sigt, body), trusted: fc.trusted, nloops: nl, anchors: !(fc.before.is_empty() && fc.after.is_empty() && fc.entry.is_empty() && fc.exit.is_empty() && fc.post.is_empty()), calls: calls.keys().cloned().collect(), external, skeleton: skeleton(block.to_token_stream()), nclosures: ncl });
    }
}

#[derive(Default)]
struct Lets { names: Vec<String>, loopvars: Vec<String> }
impl<'a> Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a syn::Local) {
        // parenthesized: a parameter of an inlined helper
        let par = matches!(&l.pat, syn::Pat::Paren(_)) || matches!(&l.pat, syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Paren(_)));
        let mut p = PatIds::default();
        p.visit_pat(&l.pat);
        if !par { self.names.extend(p.0); }
        visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        let mut p = PatIds::default();
        p.visit_pat(&l.pat);
        self.loopvars.push(p.0.first().cloned().unwrap_or("vx_noloopvar".into()));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) { self.loopvars.push("vx_noloopvar".into()); visit::visit_expr_while(self, l); }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) { self.loopvars.push("vx_noloopvar".into()); visit::visit_expr_loop(self, l); }
}
#[derive(Default)]
struct PatIds(Vec<String>);
impl<'a> Visit<'a> for PatIds { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.push(p.ident.to_string()); } }

/// weave generated source text (derives, default methods) with the same machinery
fn weave_generated(w: &mut W, gen: &str, line: usize, what: &str) -> String {
    let file: syn::File = syn::parse_str(gen).unwrap_or_else(|e| panic!("generated code: {} in {}", e, gen));
    let mut sub = W { src: gen.to_string(), file: format!("{}#generated:{}{}", w.file, line, what), edits: vec![], seq: 0, c: w.c, ops: w.ops, fns: w.fns, dropped: w.dropped, lost: w.lost, desugar: w.desugar, appended: String::new() };
    sub.items(&file.items, "", &mut |_, _, _| {});
    sub.finish()
}

struct BodyV<'a, 'b, 'c> { w: &'a mut W<'c>, fc: &'b FnC, params: &'b [String], nloop: usize, nclosure: usize, mut_self: bool, notes: Vec<String>, clauses: Vec<(String, Vec<String>, String)>, idx: usize, lets: Vec<String>, loopvars: Vec<String>, calls: BTreeMap<String, usize>, stmt_stack: Vec<(usize, usize)>, inlined: u8, parens: Vec<((proc_macro2::LineColumn, proc_macro2::LineColumn), std::ops::Range<usize>)> }

fn irrefutable_simple(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(i) => i.by_ref.is_none(),
        syn::Pat::Wild(_) => true,
        syn::Pat::Tuple(t) => t.elems.iter().all(irrefutable_simple),
        syn::Pat::Paren(p) => irrefutable_simple(&p.pat),
        syn::Pat::Type(t) => irrefutable_simple(&t.pat),
        _ => false,
    }
}
/// let statements equivalent to matching place expression `e` against irrefutable pattern `p`
fn pat_lets(p: &syn::Pat, e: &str, out: &mut String) -> bool {
    match p {
        syn::Pat::Ident(i) => { if i.by_ref.is_some() { out.push_str(&format!("let {} = &{}; ", i.ident, e)); } else { out.push_str(&format!("let {}{} = {}; ", if i.mutability.is_some() { "mut " } else { "" }, i.ident, e)); } true }
        syn::Pat::Wild(_) => true,
        syn::Pat::Reference(r) => pat_lets(&r.pat, &format!("(*{})", e), out),
        syn::Pat::Tuple(t) => { for (i, x) in t.elems.iter().enumerate() { if !pat_lets(x, &format!("{}.{}", e, i), out) { return false; } } true }
        syn::Pat::Paren(q) => pat_lets(&q.pat, e, out),
        syn::Pat::Type(t) => pat_lets(&t.pat, e, out),
        _ => false,
    }
}

/// %k : k-th let-bound identifier, %Lk : pattern identifier of loop k
fn sub_lets(t: &str, lets: &[String], loopvars: &[String]) -> String {
    let b: Vec<char> = t.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '%' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let n = b[i + 1].to_digit(10).unwrap() as usize;
            o.push_str(lets.get(n).map(|s| s.as_str()).unwrap_or("vx_missing_let"));
            i += 2;
        } else if b[i] == '%' && i + 2 < b.len() && b[i + 1] == 'L' && b[i + 2].is_ascii_digit() {
            let n = b[i + 2].to_digit(10).unwrap() as usize;
            o.push_str(loopvars.get(n).map(|s| s.as_str()).unwrap_or("vx_missing_loopvar"));
            i += 3;
        } else { o.push(b[i]); i += 1; }
    }
    o
}

impl<'a, 'b, 'c> BodyV<'a, 'b, 'c> {
    fn sub(&self, t: &str) -> String {
        let t = self.w.subst(t, self.params, "r");
        sub_lets(&t, &self.lets, &self.loopvars)
    }
    fn loop_spec(&mut self, n: usize, body: &syn::Block) {
        if let Some(l) = self.fc.loops.get(&n).cloned() {
            let mut s = String::new();
            if !l.invs.is_empty() {
                s.push_str("\n        invariant\n");
                for (k, c) in l.invs.iter().enumerate() {
                    let t = self.sub(&c.text);
                    s.push_str(&format!("//@C {} l{}i{}\n            ({}),\n", self.idx, n, k, t));
                    self.clauses.push((format!("l{}i{}", n, k), c.tags.clone(), format!("loop{} inv{} {}", n, k, t.split_whitespace().collect::<Vec<_>>().join(" "))));
                }
            }
            if !l.ens.is_empty() {
                s.push_str("\n        ensures\n");
                for (k, c) in l.ens.iter().enumerate() {
                    let t = self.sub(&c.text);
                    s.push_str(&format!("//@C {} l{}e{}\n            ({}),\n", self.idx, n, k, t));
                    self.clauses.push((format!("l{}e{}", n, k), c.tags.clone(), format!("loop{} ens{} {}", n, k, t.split_whitespace().collect::<Vec<_>>().join(" "))));
                }
            }
            if let Some(d) = &l.dec { s.push_str(&format!("        decreases {}\n", self.sub(d))); }
            let bo = body.brace_token.span.open().byte_range();
            let bc = body.brace_token.span.close().byte_range();
            self.w.ins_open(bo.start, s);
            if !l.body.is_empty() { let t = self.sub(&l.body); self.w.ins_close(bo.end, format!("\n{}\n", t)); }
            if !l.bodyend.is_empty() { let t = self.sub(&l.bodyend); if let Some(syn::Stmt::Expr(e, None)) = body.stmts.last() { let r = e.span().byte_range(); self.w.ins_close(r.end, ";"); } self.w.ins_open(bc.start, format!("\n{}\n", t)); }
        }
    }
    fn loop_ba(&mut self, n: usize, whole: Span) {
        if let Some(l) = self.fc.loops.get(&n).cloned() {
            let r = whole.byte_range();
            let attr = if l.desugar { String::new() } else { l.attr.clone() };
            if !l.before.is_empty() || !attr.is_empty() { let t = self.sub(&l.before); self.w.ins_open(r.start, format!("\n{}\n{}\n", t, attr)); }
            if !l.after.is_empty() { let t = self.sub(&l.after); self.w.ins_close(r.end, format!("\n{}\n", t)); }
        }
    }
    fn macro_(&mut self, m: &syn::Macro, whole: Span, _stmt: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let r = whole.byte_range();
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.w.count("panic!-like macro -> vpanic()");
                let mr = m.span().byte_range();
                self.w.repl(mr.start, mr.end, "crate::vx::vpanic()");
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let parser = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                if let Ok(args) = m.parse_body_with(parser) {
                    self.w.count("assert!-like macro -> vassert(..)");
                    let mr = m.span().byte_range();
                    let first = args.first().unwrap();
                    let fr = first.span().byte_range();
                    // a debug_assert! may or may not be there
                    let (open, close) = if name.starts_with("debug") { ("if crate::vx::in_debug() { ", " }") } else { ("", "") };
                    if name.ends_with("assert") {
                        self.w.repl(mr.start, fr.start, format!("{}crate::vx::vassert(", open));
                        self.visit_expr(first);
                        self.w.repl(fr.end, mr.end, format!("){}", close));
                    } else {
                        let second = args.iter().nth(1).unwrap();
                        let sr = second.span().byte_range();
                        let op = if name.contains("_eq") { "==" } else { "!=" };
                        self.w.repl(mr.start, fr.start, format!("{}crate::vx::vassert((", open));
                        self.visit_expr(first);
                        self.w.repl(fr.end, sr.start, format!(") {} (", op));
                        self.visit_expr(second);
                        self.w.repl(sr.end, mr.end, format!(")){}", close));
                    }
                }
            }
            "write" | "writeln" | "format" | "println" | "eprintln" | "print" => { self.notes.push(format!("unsupported macro {}!", name)); }
            _ => {}
        }
        let _ = r;
    }
    fn call_anchor(&mut self, name: String) {
        let k = *self.calls.get(&name).unwrap_or(&0);
        self.calls.insert(name.clone(), k + 1);
        let tag = format!("{}#{}", name, k);
        let tag0 = if k == 0 { name.clone() } else { "\0".into() };
        if let Some((a, b)) = self.stmt_stack.last().cloned() {
            for (t, code) in self.fc.before.clone() { if t == tag || t == tag0 { let c = self.sub(&code); self.w.ins_open(a, format!("\n{}\n", c)); } }
            for (t, code) in self.fc.after.clone() { if t == tag || t == tag0 { let c = self.sub(&code); self.w.ins_close(b, format!("\n{}\n", c)); } }
        }
    }
}

impl<'a, 'b, 'c, 'ast> Visit<'ast> for BodyV<'a, 'b, 'c> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = s.span().byte_range();
        // in the body of an inlined helper: proof text goes around the whole call where it would not fit inside
        let outer = self.inlined == 2 || (self.inlined == 1 && matches!(s, syn::Stmt::Expr(_, None)));
        if !outer { self.stmt_stack.push((r.start, r.end)); }
        let was = std::mem::replace(&mut self.inlined, if outer { 2 } else { 0 });
        if let syn::Stmt::Macro(m) = s { self.macro_(&m.mac, m.mac.span(), true); } else { visit::visit_stmt(self, s); }
        self.inlined = was;
        if !outer { self.stmt_stack.pop(); }
    }
    fn visit_expr_paren(&mut self, p: &'ast syn::ExprParen) {
        let mut e = &*p.expr;
        while let syn::Expr::Paren(q) = e { e = &*q.expr }
        self.parens.push(((p.span().start(), p.span().end()), e.span().byte_range()));
        if let syn::Expr::Block(b) = &*p.expr {
            let borrows = b.block.stmts.iter().any(|s| matches!(s, syn::Stmt::Local(l) if matches!(&l.pat, syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Paren(_)) && matches!(&*t.ty, syn::Type::Reference(_)))));
            let now = if borrows || self.inlined == 2 { 2 } else { 1 };
            let was = std::mem::replace(&mut self.inlined, now);
            visit::visit_expr_paren(self, p);
            self.inlined = was;
        } else { visit::visit_expr_paren(self, p); }
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) { self.macro_(&m.mac, m.span(), false); }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        // the constants of the deprecated modules std::usize etc.
        let segs: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
        if p.qself.is_none() && segs.len() == 3 && (segs[0] == "std" || segs[0] == "core") && PRIMS.contains(&segs[1].as_str()) && (segs[2] == "MAX" || segs[2] == "MIN") {
            let r = p.span().byte_range();
            self.w.repl(r.start, r.end, format!("{}::{}", segs[1], segs[2]));
        }
        if self.mut_self && p.path.is_ident("self") { let r = p.span().byte_range(); self.w.repl(r.start, r.end, "vx_self"); }
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_)) {
            let s = b.span();
            // rustc gives an expression in parentheses the span of the parentheses
            let mut spans = vec![(s.start(), s.end())];
            for (at, inner) in self.parens.iter().rev() { if *inner == s.byte_range() { spans.push(*at) } }
            let hit = self.w.ops.get(&self.w.file, &spans);
            if hit.is_none() && !self.w.ops.builtin(&self.w.file, &spans) && !self.w.file.contains('#') { self.notes.push(format!("comparison of unknown type at {}:{}", self.w.file, s.start().line)); }
            // Verus orders no booleans
            if let (true, Some(f)) = (self.w.ops.bools(&self.w.file, &spans), match b.op { Lt(_) => Some("vx_blt"), Le(_) => Some("vx_ble"), Gt(_) => Some("vx_bgt"), Ge(_) => Some("vx_bge"), _ => None }) {
                let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
                self.w.count("ordering of booleans written out");
                self.w.ins_open(l.start, format!("crate::vx::{}(", f));
                self.w.repl(l.end, r.start, ", ");
                self.w.ins_close(r.end, ")");
            }
            if let Some((k1, k2, ty)) = hit {
                for (k, e) in [(k1, &b.left), (k2, &b.right)] {
                    // the right operand may be coerced to the type the comparison is resolved at
                    if k > 0 && matches!(&**e, syn::Expr::Reference(_)) && std::ptr::eq(e, &b.right) && PRIMS.contains(&ty.trim_start_matches(|c| c == '&' || c == ' ')) {
                        let r = e.span().byte_range();
                        self.w.count("comparison of references -> comparison of referents");
                        self.w.ins_open(r.start, format!("({}((", "*".repeat(k)));
                        self.w.ins_close(r.end, format!(") as {}))", ty));
                        continue;
                    }
                    if k > 0 {
                        let r = e.span().byte_range();
                        self.w.count("comparison of references -> comparison of referents");
                        self.w.ins_open(r.start, format!("({}(", "*".repeat(k)));
                        self.w.ins_close(r.end, "))");
                    }
                }
            }
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
            if p.qself.is_none() {
                let k = segs[segs.len().saturating_sub(2)..].join("::");
                if let Some(to) = self.w.c.calls.get(&k).cloned() { let r = p.span().byte_range(); self.w.count(&format!("{}(..) -> {}(..)", k, to)); self.w.repl(r.start, r.end, to); }
            }
        }
        if let syn::Expr::Path(p) = &*c.func { let n = p.path.segments.last().unwrap().ident.to_string(); self.call_anchor(n); }
    }
    // &mut E[range]: Verus has no contract for a range borrowed mutably through a Box, so the slice is reborrowed first
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        if let (Some(_), syn::Expr::Index(ix)) = (&r.mutability, &*r.expr) {
            if matches!(&*ix.index, syn::Expr::Range(_)) {
                let e = ix.expr.span().byte_range();
                let b = ix.bracket_token.span.open().byte_range();
                let c = ix.bracket_token.span.close().byte_range();
                self.w.count("&mut e[range] -> the slice reborrowed, then indexed");
                self.w.repl(r.span().byte_range().start, e.start, "{ let vx_rb: &mut [_] = &mut *(");
                self.w.repl(e.end, b.end, "); &mut vx_rb[");
                self.w.ins_close(c.end, " }");
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        if let Some((path, by, n)) = self.w.c.methods.get(&c.method.to_string()).cloned() {
            if c.args.len() == n && c.turbofish.is_none() {
                let r = c.receiver.span().byte_range();
                let p = c.paren_token.span.open().byte_range();
                self.w.count(&format!(".{}(..) -> {}(..)", c.method, path));
                self.w.ins_open(r.start, format!("{}({}", path, by));
                self.w.repl(r.end, p.end, if n == 0 { "" } else { ", " });
            }
        }
        visit::visit_expr_method_call(self, c);
        self.call_anchor(c.method.to_string());
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let n = self.nloop; self.nloop += 1;
        self.loop_ba(n, l.span());
        if let Some(lc) = self.fc.loops.get(&n).cloned().filter(|lc| lc.desugar && lc.iter.is_some() && l.label.is_none()) {
            // for PAT in E B  ==  { let mut it = E; loop { match it.next() { None => break, Some(x) => { let PAT = x; B } } } }
            let it = lc.iter.clone().unwrap();
            let v = format!("vx_e{}", n);
            let mut lets = String::new();
            if irrefutable_simple(&l.pat) { lets = format!("let {} = {};", self.w.text(l.pat.span()), v); }
            else if !pat_lets(&l.pat, &v, &mut lets) { self.notes.push("unsupported for pattern".into()); }
            self.w.count("for loop written out as loop over next()");
            let er = l.expr.span().byte_range();
            let fr = l.for_token.span.byte_range();
            self.w.repl(fr.start, er.start, format!("{{ let mut {} = ", it));
            let bo = l.body.brace_token.span.open().byte_range();
            let bc = l.body.brace_token.span.close().byte_range();
            let init = self.sub(&lc.init);
            self.w.repl(er.end, bo.start, format!(";\n{}\n{} loop ", init, lc.attr));
            self.loop_spec(n, &l.body);
            self.w.ins_close(bo.end, format!(" match {}.next() {{ None => break, Some({}) => {{ {}", it, v, lets));
            self.w.ins_open(bc.start, " } }");
            self.w.ins_close(bc.end, " }");
            self.visit_expr(&l.expr);
            visit::visit_block(self, &l.body);
            return;
        }
        if let Some(lc) = self.fc.loops.get(&n).cloned() {
            if let Some(it) = &lc.iter { let r = l.expr.span().byte_range(); self.w.ins_open(r.start, format!("{}: ", it)); }
        }
        if !irrefutable_simple(&l.pat) {
            let r = l.pat.span().byte_range();
            let v = format!("vx_e{}", n);
            let mut s = String::new();
            if pat_lets(&l.pat, &v, &mut s) {
                self.w.count("for pattern desugared to lets");
                self.w.repl(r.start, r.end, v);
                self.w.ins_open(l.body.brace_token.span.open().byte_range().end, format!(" {}", s));
            } else { self.notes.push("unsupported for pattern".into()); }
        }
        self.loop_spec(n, &l.body);
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let n = self.nloop; self.nloop += 1;
        self.loop_ba(n, l.span());
        self.loop_spec(n, &l.body);
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let n = self.nloop; self.nloop += 1;
        self.loop_ba(n, l.span());
        self.loop_spec(n, &l.body);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.nclosure; self.nclosure += 1;
        let cc = self.fc.closures.get(&n).cloned();
        let mut lets = String::new();
        let mut names = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            let (pat, has_ty) = match p { syn::Pat::Type(t) => (&*t.pat, true), o => (o, false) };
            let r = pat.span().byte_range();
            let whole = p.span().byte_range();
            let simple = matches!(pat, syn::Pat::Ident(id) if id.by_ref.is_none());
            let name = if let (true, syn::Pat::Ident(id)) = (simple, pat) { id.ident.to_string() } else { format!("vx_c{}_{}", n, i) };
            if !simple {
                if matches!(pat, syn::Pat::Wild(_)) {} else if !pat_lets(pat, &name, &mut lets) { self.notes.push("unsupported closure pattern".into()); }
                self.w.count("closure pattern desugared to lets");
                self.w.repl(r.start, r.end, name.clone());
            }
            if let Some(cc) = &cc { if !has_ty { if let Some(t) = cc.params.get(i) { if t != "_" { self.w.ins_close(whole.end, format!(": {}", t)); } } } }
            names.push(name);
        }
        let br = c.body.span().byte_range();
        if let Some(cc) = &cc {
            let mut s = String::new();
            if matches!(c.output, syn::ReturnType::Default) { s.push_str(&format!(" -> {}", cc.ret)); }
            let sub = |t: &str| -> String { let mut t = t.to_string(); for (i, nm) in names.iter().enumerate() { t = t.replace(&format!("$c{}", i), nm); } t };
            if !cc.reqs.is_empty() { s.push_str(" requires "); for e in &cc.reqs { s.push_str(&format!("({}), ", sub(&self.sub(e)))); } }
            if !cc.ens.is_empty() { s.push_str(" ensures "); for e in &cc.ens { s.push_str(&format!("({}), ", sub(&self.sub(e)))); } }
            self.w.ins_open(br.start, format!("{} {{ {}", s, lets));
            self.w.ins_close(br.end, " }");
            self.w.count("closure given a contract");
        } else if !lets.is_empty() {
            self.w.ins_open(br.start, format!("{{ {}", lets));
            self.w.ins_close(br.end, " }");
        }
        visit::visit_expr_closure(self, c);
    }
    fn visit_item(&mut self, _: &'ast syn::Item) { self.notes.push("nested item".into()); }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()) };
    let src = get("--src").expect("--src");
    let module = get("--module").expect("--module");
    let cpath = get("--contracts").expect("--contracts");
    let out = get("--out").expect("--out");
    let mapf = get("--map").expect("--map");
    let ops = mir::Ops::load(&get("--mir").expect("--mir"));
    let mut ctext = std::fs::read_to_string(&cpath).expect("contract file");
    // contracts of the standard library that are assumed only when the source uses them
    let spath = std::path::Path::new(&cpath).with_file_name("std.vc");
    if spath.exists() { ctext.push('\n'); ctext.push_str(&std::fs::read_to_string(&spath).unwrap()); }
    let mut c = contract::parse(&ctext);
    c.vacuity = args.iter().any(|a| a == "--vacuity");
    c.external = get("--external").map(|s| s.split("@@").map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut fns = vec![];
    let mut dropped = vec![];
    let mut lost = vec![];
    let mut desugar = BTreeMap::new();

    fn load(path: &std::path::Path, rel: &str, modpath: &str, c: &mut Contracts, ops: &mir::Ops, fns: &mut Vec<FnInfo>, dropped: &mut Vec<(String, String)>, lost: &mut Vec<String>, desugar: &mut BTreeMap<String, usize>) -> String {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
        let file = syn::parse_file(&text).unwrap_or_else(|e| panic!("{}: {}", path.display(), e));
        let dir = path.parent().unwrap().to_path_buf();
        let is_mod_rs = path.file_name().unwrap() == "mod.rs";
        let stem = path.file_stem().unwrap().to_string_lossy().to_string();
        let reld = rel.rsplit_once('/').map(|x| x.0).unwrap_or("").to_string();
        let mut w = W { src: text, file: rel.to_string(), edits: vec![], seq: 0, c, ops, fns, dropped, lost, desugar, appended: String::new() };
        for a in &file.attrs { w.del(a.span()); }
        let mut loader = |w: &mut W, m: &syn::ItemMod, mp: &str| {
            let name = m.ident.to_string();
            let base = if is_mod_rs { dir.clone() } else { dir.join(&stem) };
            let rbase = if is_mod_rs { reld.clone() } else { format!("{}/{}", reld, stem) };
            let (p, r) = { let p1 = base.join(format!("{}.rs", name)); if p1.exists() { (p1, format!("{}/{}.rs", rbase, name)) } else { (base.join(&name).join("mod.rs"), format!("{}/{}/mod.rs", rbase, name)) } };
            let newmp = format!("{}::{}", mp, name);
            let inner = load(&p, &r, &newmp, w.c, w.ops, w.fns, w.dropped, w.lost, w.desugar);
            let semi = m.semi.unwrap().span().byte_range();
            w.repl(semi.start, semi.end, format!(" {{\n#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::*;\n{}\n}}\n", inner));
        };
        w.items(&file.items, modpath, &mut loader);
        if let Some(t) = w.c.in_mod.get(modpath).cloned() { w.appended.push_str(&format!("\n{}\n", t)); }
        w.finish()
    }
    let p = std::path::Path::new(&src).join(&module).join("mod.rs");
    let body = load(&p, &format!("src/{}/mod.rs", module), &module, &mut c, &ops, &mut fns, &mut dropped, &mut lost, &mut desugar);
    for (k, f) in &c.fns { if !f.used { lost.push(k.clone()); } }
    if desugar.contains_key("ordering of booleans written out") {
        for (n, e) in [("vx_blt", "!a && b"), ("vx_ble", "!a || b"), ("vx_bgt", "a && !b"), ("vx_bge", "a || !b")] { c.root.push_str(&format!("pub fn {}(a: bool, b: bool) -> (r: bool) ensures r == ({}) {{ {} }}\n", n, e, e)); }
    }
    let mut std_used = vec![];
    for (ws, t) in c.root_if.clone() {
        let used: Vec<String> = ws.iter().filter(|w| match w.strip_prefix("mir:") { Some(m) => ops.calls(&module, &m.replace('~', " ")), None => fns.iter().any(|f| f.body.contains(w.as_str())) }).cloned().collect();
        if !used.is_empty() { c.root.push_str(&t); c.root.push('\n'); std_used.extend(used); }
    }
    let text = format!("#![feature(allocator_api)]\n#![allow(unused, dead_code, non_snake_case, elided_lifetimes_in_paths)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\nverus! {{\npub mod vx {{\nuse vstd::prelude::*;\n{}\n}}\npub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::vx::*;\n{}\n}}\n}} // verus!\nfn main() {{}}\n", c.root, module, body);
    // line map
    let mut starts: BTreeMap<usize, usize> = BTreeMap::new();
    let mut ends: BTreeMap<usize, usize> = BTreeMap::new();
    let mut cl: BTreeMap<(usize, String), usize> = BTreeMap::new();
    let mut vac: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, l) in text.lines().enumerate() {
        let ln = i + 1;
        let t = l.trim();
        if let Some(x) = t.strip_prefix("//@F ") { starts.insert(x.trim().parse().unwrap(), ln); }
        if let Some(x) = t.strip_prefix("//@E ") { ends.insert(x.trim().parse().unwrap(), ln); }
        if let Some(x) = t.strip_prefix("//@V ") { vac.insert(x.trim().parse().unwrap(), ln + 1); }
        if let Some(x) = t.strip_prefix("//@C ") { let (a, b) = x.split_once(' ').unwrap(); cl.insert((a.parse().unwrap(), b.trim().to_string()), ln + 1); }
    }
    let arr: Vec<serde_json::Value> = fns.iter().enumerate().map(|(i, f)| serde_json::json!({
        "key": f.key, "file": f.file, "line": f.line, "contracted": f.contracted, "kind": f.kind, "trusted": f.trusted,
        "start": starts.get(&i), "end": ends.get(&i), "notes": f.notes, "body": f.body, "nloops": f.nloops, "anchors": f.anchors, "calls": f.calls, "skeleton": f.skeleton, "nclosures": f.nclosures, "external": f.external, "vacuity_line": vac.get(&i),
        "clauses": f.clauses.iter().map(|(k, t, txt)| serde_json::json!({"id": k, "tags": t, "text": txt, "line": cl.get(&(i, k.clone()))})).collect::<Vec<_>>(),
    })).collect();
    let j = serde_json::json!({ "functions": arr, "dropped": dropped, "lost": lost, "desugarings": desugar, "std_used": std_used, "types": c.types });
    std::fs::write(&out, text).unwrap();
    std::fs::write(&mapf, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
