//! inline --src DIR --fns FILE:LINE,FILE:LINE [--ret]
//! Replaces calls of the named functions (helpers the contracts do not know) by their bodies, in place, keeping every
//! other line where it is, and removes helpers nothing refers to any more. Prints what it did as JSON. What it
//! cannot replace faithfully it leaves alone; the caller compiles the result.
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone)]
struct Helper { name: String, owner: Option<String>, owner_args: Vec<String>, recv: Option<Recv>, params: Vec<(TokenStream, TokenStream, Vec<String>)>, body: TokenStream, ret: Option<TokenStream>, is_unsafe: bool, private: bool, span: (usize, usize), free_idents: BTreeSet<String> }
#[derive(Clone, Copy, PartialEq)]
enum Recv { Ref, RefMut, Val }

fn self_ty(t: &syn::Type) -> Option<(String, Vec<String>)> {
    let t = match t { syn::Type::Reference(r) => &*r.elem, t => t };
    if let syn::Type::Path(p) = t {
        let l = p.path.segments.last()?;
        let mut v = vec![];
        if let syn::PathArguments::AngleBracketed(a) = &l.arguments { for x in &a.args { if let syn::GenericArgument::Type(t) = x { v.push(t.to_token_stream().to_string()) } } }
        return Some((l.ident.to_string(), v));
    }
    None
}
fn is_test(attrs: &[syn::Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }

/// replaces identifiers; `self` may become several tokens
fn rename(ts: TokenStream, m: &BTreeMap<String, TokenStream>) -> TokenStream {
    ts.into_iter().flat_map(|t| -> Vec<TokenTree> { match t {
        TokenTree::Ident(ref i) => match m.get(&i.to_string()) { Some(x) => x.clone().into_iter().collect(), None => vec![t] },
        TokenTree::Group(g) => { let mut n = Group::new(g.delimiter(), rename(g.stream(), m)); n.set_span(g.span()); vec![TokenTree::Group(n)] }
        t => vec![t],
    } }).collect()
}
fn idents(ts: TokenStream, out: &mut BTreeSet<String>) { for t in ts { match t { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} } } }
fn ids(ts: TokenStream) -> BTreeSet<String> { let mut s = BTreeSet::new(); idents(ts, &mut s); s }
fn no_lifetimes(ts: TokenStream) -> TokenStream {
    // `&'a T` -> `&T`
    let mut out = TokenStream::new();
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Punct(ref p) if p.as_char() == '\'' => { it.next(); }
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), no_lifetimes(g.stream())))]),
            t => out.extend([t]),
        }
    }
    out
}

struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn has_ret_e(e: &syn::Expr) -> bool { let mut h = HasRet(false); h.visit_expr(e); h.0 }
fn has_ret_s(s: &syn::Stmt) -> bool { let mut h = HasRet(false); h.visit_stmt(s); h.0 }
fn pat_vars(p: &syn::Pat) -> BTreeSet<String> {
    struct P(BTreeSet<String>);
    impl<'a> Visit<'a> for P { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
    let mut v = P(BTreeSet::new()); v.visit_pat(p); v.0
}
fn ends_in_return(b: &syn::Block) -> bool {
    match b.stmts.last() { Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) => true, Some(syn::Stmt::Expr(syn::Expr::If(i), _)) => ends_in_return(&i.then_branch) && matches!(&i.else_branch, Some((_, e)) if matches!(&**e, syn::Expr::Block(b) if ends_in_return(&b.block))), _ => false }
}
/// the value of a function body as an expression block without `return`
fn no_return(stmts: &[syn::Stmt]) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    for (i, s) in stmts.iter().enumerate() {
        let rest = &stmts[i + 1..];
        if !has_ret_s(s) { out.extend(s.to_token_stream()); continue; }
        match s {
            syn::Stmt::Expr(syn::Expr::If(f), _) if !has_ret_e(&f.cond) && !rest.is_empty() && f.else_branch.is_none() && ends_in_return(&f.then_branch) => {
                let (c, a, b) = (&f.cond, no_return(&f.then_branch.stmts)?, no_return(rest)?);
                out.extend(quote! { if #c { #a } else { #b } });
                return Some(out);
            }
            syn::Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if init.diverge.is_some() { return None; }
                if let syn::Expr::Match(m) = &*init.expr {
                    if has_ret_e(&m.expr) || l.attrs.len() > 0 { return None; }
                    let (x, pat) = (&m.expr, &l.pat);
                    let mut arms = TokenStream::new();
                    let mut kept = 0;
                    for a in &m.arms {
                        if a.guard.as_ref().map_or(false, |g| has_ret_e(&g.1)) { return None; }
                        let (p, g) = (&a.pat, a.guard.as_ref().map(|(i, e)| quote! { #i #e }));
                        if let syn::Expr::Return(r) = &*a.body { let e = &r.expr; let e = e.as_ref().map(|e| quote! { #e }).unwrap_or(quote! { () }); arms.extend(quote! { #p #g => #e, }); continue; }
                        if has_ret_e(&a.body) { return None; }
                        kept += 1;
                        let bound = pat_vars(pat);
                        let used: BTreeSet<String> = rest.iter().flat_map(|s| ids(s.to_token_stream())).collect();
                        for v in pat_vars(p) { if !bound.contains(&v) && used.contains(&v) { return None; } }
                        let (b, r) = (&a.body, no_return(rest)?);
                        arms.extend(quote! { #p #g => { let #pat = #b; #r } });
                    }
                    if kept != 1 { return None; }
                    out.extend(quote! { match #x { #arms } });
                    return Some(out);
                }
                return None;
            }
            syn::Stmt::Expr(e, _) if rest.is_empty() => { out.extend(no_return_e(e)?); return Some(out); }
            _ => return None,
        }
    }
    Some(out)
}
fn no_return_e(e: &syn::Expr) -> Option<TokenStream> {
    if !has_ret_e(e) { return Some(e.to_token_stream()); }
    match e {
        syn::Expr::Return(r) => match &r.expr { None => Some(quote! { () }), Some(e) => if has_ret_e(e) { None } else { Some(e.to_token_stream()) } },
        syn::Expr::Block(b) if b.label.is_none() => { let t = no_return(&b.block.stmts)?; Some(quote! { { #t } }) }
        syn::Expr::If(f) if !has_ret_e(&f.cond) => {
            let (c, a) = (&f.cond, no_return(&f.then_branch.stmts)?);
            let b = match &f.else_branch { None => return None, Some((_, e)) => no_return_e(e)? };
            Some(quote! { if #c { #a } else #b })
        }
        syn::Expr::Match(m) if !has_ret_e(&m.expr) => {
            let x = &m.expr;
            let mut arms = TokenStream::new();
            for a in &m.arms { if a.guard.as_ref().map_or(false, |g| has_ret_e(&g.1)) { return None; } let (p, g, b) = (&a.pat, a.guard.as_ref().map(|(i, e)| quote! { #i #e }), no_return_e(&a.body)?); arms.extend(quote! { #p #g => #b, }); }
            Some(quote! { match #x { #arms } })
        }
        _ => None,
    }
}

fn helper(sig: &syn::Signature, vis: &syn::Visibility, block: &syn::Block, whole: Span, owner: Option<&syn::Type>) -> Option<Helper> {
    if sig.asyncness.is_some() || sig.variadic.is_some() { return None; }
    let name = sig.ident.to_string();
    let (o, oa) = match owner { None => (None, vec![]), Some(t) => { let (a, b) = self_ty(t)?; (Some(a), b) } };
    let own: BTreeSet<String> = sig.generics.params.iter().filter_map(|p| match p { syn::GenericParam::Type(t) => Some(t.ident.to_string()), syn::GenericParam::Const(c) => Some(c.ident.to_string()), _ => None }).collect();
    let mut recv = None;
    let mut params = vec![];
    let ty = |t: &syn::Type| -> TokenStream { let ts = no_lifetimes(t.to_token_stream()); let i = ids(ts.clone()); if i.contains("impl") || i.iter().any(|x| own.contains(x)) { quote! { _ } } else { ts } };
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => { if r.colon_token.is_some() { return None; } if r.reference.is_none() && r.mutability.is_some() { return None; } recv = Some(match (r.reference.is_some(), r.mutability.is_some()) { (true, true) => Recv::RefMut, (true, false) => Recv::Ref, _ => Recv::Val }); }
            syn::FnArg::Typed(t) => { params.push((t.pat.to_token_stream(), ty(&t.ty), pat_vars(&t.pat).into_iter().collect::<Vec<_>>())); }
        }
    }
    let body = no_return(&block.stmts)?;
    if ids(body.clone()).contains(&name) { return None; }       // recursive, or not to be told apart from it
    let ret = match &sig.output { syn::ReturnType::Type(_, t) if !matches!(&**t, syn::Type::Never(_)) => Some(ty(t)), _ => None };
    // lower-case names that are not bound here: functions and constants of the surroundings
    struct B(BTreeSet<String>);
    impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
    let mut b = B(BTreeSet::new()); b.visit_block(block);
    for p in &params { b.0.extend(p.2.iter().cloned()) }
    struct F<'x>(&'x BTreeSet<String>, BTreeSet<String>);
    impl<'a, 'x> Visit<'a> for F<'x> { fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if let Some(i) = p.path.get_ident() { let s = i.to_string(); if s != "self" && !s.starts_with(|c: char| c.is_uppercase()) && !self.0.contains(&s) { self.1.insert(s); } } } }
    let mut f = F(&b.0, BTreeSet::new()); f.visit_block(block);
    Some(Helper { name, owner: o, owner_args: oa, recv, params, body, ret, is_unsafe: sig.unsafety.is_some(), private: !matches!(vis, syn::Visibility::Public(_)), span: { let r = whole.byte_range(); (r.start, r.end) }, free_idents: f.1 })
}

struct Find<'h> { lines: &'h BTreeSet<usize>, found: Vec<Option<Helper>>, owner: Vec<syn::Type> }
impl<'h, 'a> Visit<'a> for Find<'h> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { visit::visit_item_mod(self, m); } }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        if i.trait_.is_some() { return; }
        self.owner.push((*i.self_ty).clone()); visit::visit_item_impl(self, i); self.owner.pop();
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) { if self.lines.contains(&f.sig.ident.span().start().line) { self.found.push(helper(&f.sig, &f.vis, &f.block, f.span(), self.owner.last())); } }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) { if self.lines.contains(&f.sig.ident.span().start().line) { self.found.push(helper(&f.sig, &f.vis, &f.block, f.span(), None)); } }
}

fn place(e: &syn::Expr) -> bool { match e { syn::Expr::Path(p) => p.path.get_ident().is_some(), syn::Expr::Field(f) => place(&f.base), syn::Expr::Paren(p) => place(&p.expr), _ => false } }

struct Calls<'h> { hs: &'h [Helper], owner: Vec<Option<(String, Vec<String>)>>, bound: Vec<BTreeSet<String>>, me: Vec<Option<Recv>>, edits: Vec<(usize, usize, String)>, count: BTreeMap<String, usize>, ret: bool, src: &'h str }
impl<'h> Calls<'h> {
    fn emit(&mut self, h: &Helper, whole: Span, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>) {
        let r = whole.byte_range();
        if self.edits.iter().any(|(a, b, _)| *a < r.end && r.start < *b) { return; }     // inner calls first, the rest in the next round
        if args.len() != h.params.len() { return; }
        if let Some(b) = self.bound.last() { if h.free_idents.iter().any(|i| b.contains(i)) { return; } }
        let mut m: BTreeMap<String, TokenStream> = BTreeMap::new();
        let caller = self.owner.last().cloned().flatten();
        if let (Some(o), Some((co, cargs))) = (&h.owner, &caller) {
            if o == co { for (a, b) in h.owner_args.iter().zip(cargs) { if a != b && syn::parse_str::<Ident>(a).is_ok() { m.insert(a.clone(), b.parse().unwrap()); } } }
            else { m.insert("Self".into(), o.parse().unwrap()); }
        } else if let Some(o) = &h.owner { m.insert("Self".into(), o.parse().unwrap()); }
        if let Some(e) = recv {
            if e.to_token_stream().to_string() != "self" { m.insert("self".into(), quote! { (#e) }); }
            else { match (h.recv, self.me.last().cloned().flatten()) {
                (Some(Recv::Ref), Some(Recv::RefMut)) => { m.insert("self".into(), quote! { (&*self) }); }
                (Some(Recv::Ref), Some(Recv::Val)) => { m.insert("self".into(), quote! { (&self) }); }
                (Some(Recv::RefMut), Some(Recv::Val)) => { m.insert("self".into(), quote! { (&mut self) }); }
                _ => {}
            } }
        }
        // a name of the receiver must not be captured by the helper's own names
        if let Some(e) = recv { let used = ids(e.to_token_stream()); let own = ids(h.body.clone()); let params: BTreeSet<String> = h.params.iter().flat_map(|p| p.2.clone()).collect(); if used.iter().any(|x| x != "self" && (params.contains(x) || own.contains(x))) { return; } }
        let body = rename(h.body.clone(), &m);
        let mut lets = TokenStream::new();
        let names: BTreeSet<String> = h.params.iter().flat_map(|p| p.2.clone()).collect();
        let clash = args.iter().skip(1).any(|a| ids(a.to_token_stream()).iter().any(|x| names.contains(x))) && args.len() > 1;
        for (i, ((p, t, _), a)) in h.params.iter().zip(&args).enumerate() {
            let t = rename(t.clone(), &m);
            if clash { let n = Ident::new(&format!("vx_arg{}", i), Span::call_site()); lets.extend(quote! { let (#n): #t = #a; }); } else { lets.extend(quote! { let (#p): #t = #a; }); }
        }
        if clash { for (i, (p, _, _)) in h.params.iter().enumerate() { let n = Ident::new(&format!("vx_arg{}", i), Span::call_site()); lets.extend(quote! { let (#p) = #n; }); } }
        let body = if h.is_unsafe { quote! { unsafe { #body } } } else { body };
        let t = match (&h.ret, self.ret) { (Some(t), true) => { let t = rename(t.clone(), &m); quote! { ({ #lets let (vx_ret): #t = { #body }; vx_ret }) } } _ => quote! { ({ #lets #body }) } };
        let nl = self.src[r.clone()].matches('\n').count();
        *self.count.entry(h.name.clone()).or_insert(0) += 1;
        self.edits.push((r.start, r.end, format!("{}{}", t, "\n".repeat(nl))));
    }
}
impl<'h, 'a> Visit<'a> for Calls<'h> {
    fn visit_item_mod(&mut self, m: &'a syn::ItemMod) { if !is_test(&m.attrs) { visit::visit_item_mod(self, m); } }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) { self.owner.push(self_ty(&i.self_ty)); visit::visit_item_impl(self, i); self.owner.pop(); }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        struct B(BTreeSet<String>);
        impl<'a> Visit<'a> for B { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); } }
        let mut b = B(BTreeSet::new()); b.visit_impl_item_fn(f);
        self.me.push(f.sig.inputs.iter().find_map(|a| match a { syn::FnArg::Receiver(r) => Some(match (r.reference.is_some(), r.mutability.is_some()) { (true, true) => Recv::RefMut, (true, false) => Recv::Ref, _ => Recv::Val }), _ => None }));
        self.bound.push(b.0); visit::visit_impl_item_fn(self, f); self.bound.pop(); self.me.pop();
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, c);
        if c.turbofish.is_some() { return; }
        for h in self.hs {
            let Some(k) = h.recv else { continue };
            if c.method != h.name { continue; }
            let me = c.receiver.to_token_stream().to_string() == "self";
            let same = self.owner.last().and_then(|o| o.as_ref()).map(|o| Some(&o.0) == h.owner.as_ref()).unwrap_or(false);
            if me && !same { continue; }
            if !place(&c.receiver) { continue; }
            if k == Recv::Val && !me { continue; }
            self.emit(h, c.span(), Some(&c.receiver), c.args.iter().collect());
            return;
        }
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        visit::visit_expr_call(self, c);
        let syn::Expr::Path(p) = &*c.func else { return };
        if p.qself.is_some() { return; }
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        if p.path.segments.iter().any(|s| !s.arguments.is_none()) { return; }
        for h in self.hs {
            if h.recv.is_some() || segs.last() != Some(&h.name) { continue; }
            let caller = self.owner.last().and_then(|o| o.as_ref()).map(|o| o.0.clone());
            let ok = match &h.owner { None => segs.len() == 1, Some(o) => segs.len() == 2 && ((segs[0] == "Self" && caller.as_ref() == Some(o)) || segs[0] == *o) };
            if ok { self.emit(h, c.span(), None, c.args.iter().collect()); return; }
        }
    }
}

fn refs(ts: TokenStream, name: &str) -> usize { ts.into_iter().map(|t| match t { TokenTree::Ident(i) => (i == name) as usize, TokenTree::Group(g) => refs(g.stream(), name), _ => 0 }).sum() }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).expect(k);
    let (src, fns) = (get("--src"), get("--fns"));
    let ret = args.iter().any(|a| a == "--ret");
    let mut by_file: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
    for x in fns.split(',') { let (f, l) = x.rsplit_once(':').unwrap(); by_file.entry(f.to_string()).or_default().insert(l.parse().unwrap()); }
    let (mut inlined, mut gone) = (BTreeMap::<String, usize>::new(), vec![]);
    let path = |f: &str| std::path::Path::new(&src).join(f.trim_start_matches("src/"));
    for (f, lines) in &by_file {
        let p = path(f);
        for _round in 0..12 {
            let text = std::fs::read_to_string(&p).unwrap();
            let file = syn::parse_file(&text).unwrap();
            let mut fd = Find { lines, found: vec![], owner: vec![] };
            fd.visit_file(&file);
            let hs: Vec<Helper> = fd.found.into_iter().flatten().collect();
            let mut cs = Calls { hs: &hs, owner: vec![], bound: vec![], me: vec![], edits: vec![], count: BTreeMap::new(), ret, src: &text };
            cs.visit_file(&file);
            if cs.edits.is_empty() { break; }
            let mut out = text.clone();
            let mut ed = cs.edits; ed.sort_by_key(|e| std::cmp::Reverse(e.0));
            for (a, b, t) in ed { out.replace_range(a..b, &t); }
            for (k, v) in cs.count { *inlined.entry(k).or_insert(0) += v; }
            std::fs::write(&p, out).unwrap();
        }
    }
    // helpers that nothing refers to any more
    fn all(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); if p.is_dir() { all(&p, out) } else if p.extension().map_or(false, |x| x == "rs") { out.push(p) } } }
    let mut files = vec![]; all(std::path::Path::new(&src), &mut files);
    for (f, lines) in &by_file {
        loop {
            let text = std::fs::read_to_string(path(f)).unwrap();
            let file = syn::parse_file(&text).unwrap();
            let mut fd = Find { lines, found: vec![], owner: vec![] };
            fd.visit_file(&file);
            let dead = fd.found.into_iter().flatten().find(|h| h.private && files.iter().map(|p| { let t: TokenStream = std::fs::read_to_string(p).unwrap().parse().unwrap(); refs(t, &h.name) }).sum::<usize>() == 1);
            match dead {
                None => break,
                Some(h) => { gone.push(h.name.clone()); let nl = text[h.span.0..h.span.1].matches('\n').count(); let mut o = text.clone(); o.replace_range(h.span.0..h.span.1, &"\n".repeat(nl)); std::fs::write(path(f), o).unwrap(); }
            }
        }
    }
    let _ = Delimiter::Brace;
    println!("{}", serde_json::json!({ "inlined": inlined, "removed": gone }));
}
