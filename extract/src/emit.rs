use crate::contracts::{Contracts, FnContract};
use crate::desugar::{ident, rename_fn, rename_trait, AutoLoop, Desugar, Helper};
use crate::{enabled, Module, Opts};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Item};

pub struct Output {
    pub text: String,
    pub map: String,
}

pub fn item_attrs(i: &Item) -> &[syn::Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::ForeignMod(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Union(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

/// Removes everything a false cfg guards, inside items.
struct Cfg<'a>(&'a Opts);
impl<'a> VisitMut for Cfg<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let o = self.0;
        b.stmts.retain(|s| match s {
            syn::Stmt::Local(l) => enabled(&l.attrs, o),
            syn::Stmt::Item(i) => enabled(item_attrs(i), o),
            syn::Stmt::Expr(e, _) => enabled(&expr_attrs(e), o),
            syn::Stmt::Macro(m) => enabled(&m.attrs, o),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        let o = self.0;
        m.arms.retain(|a| enabled(&a.attrs, o));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, m: &mut syn::ExprStruct) {
        let o = self.0;
        m.fields = m.fields.iter().filter(|f| enabled(&f.attrs, o)).cloned().map(|mut f| { f.attrs.clear(); f }).collect();
        if m.rest.is_some() && !m.fields.empty_or_trailing() {
            m.fields.push_punct(Default::default());
        }
        visit_mut::visit_expr_struct_mut(self, m);
    }
    fn visit_pat_struct_mut(&mut self, m: &mut syn::PatStruct) {
        let o = self.0;
        m.fields = m.fields.iter().filter(|f| enabled(&f.attrs, o)).cloned().map(|mut f| { f.attrs.clear(); f }).collect();
        if m.rest.is_some() && !m.fields.empty_or_trailing() {
            m.fields.push_punct(Default::default());
        }
        visit_mut::visit_pat_struct_mut(self, m);
    }
    fn visit_fields_named_mut(&mut self, m: &mut syn::FieldsNamed) {
        let o = self.0;
        m.named = m.named.iter().filter(|f| enabled(&f.attrs, o)).cloned().collect();
    }
    fn visit_fields_unnamed_mut(&mut self, m: &mut syn::FieldsUnnamed) {
        let o = self.0;
        m.unnamed = m.unnamed.iter().filter(|f| enabled(&f.attrs, o)).cloned().collect();
    }
    fn visit_item_enum_mut(&mut self, m: &mut syn::ItemEnum) {
        let o = self.0;
        m.variants = m.variants.iter().filter(|f| enabled(&f.attrs, o)).cloned().collect();
        visit_mut::visit_item_enum_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut syn::ItemImpl) {
        let o = self.0;
        m.items.retain(|i| match i {
            syn::ImplItem::Fn(f) => enabled(&f.attrs, o),
            syn::ImplItem::Const(f) => enabled(&f.attrs, o),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_signature_mut(&mut self, s: &mut syn::Signature) {
        let o = self.0;
        s.inputs = s.inputs.iter().filter(|a| match a {
            syn::FnArg::Receiver(r) => enabled(&r.attrs, o),
            syn::FnArg::Typed(t) => enabled(&t.attrs, o),
        }).cloned().collect();
    }
}

fn expr_attrs(e: &syn::Expr) -> Vec<syn::Attribute> {
    match e {
        syn::Expr::Block(b) => b.attrs.clone(),
        syn::Expr::If(b) => b.attrs.clone(),
        syn::Expr::MethodCall(b) => b.attrs.clone(),
        syn::Expr::Call(b) => b.attrs.clone(),
        syn::Expr::Assign(b) => b.attrs.clone(),
        syn::Expr::Match(b) => b.attrs.clone(),
        syn::Expr::ForLoop(b) => b.attrs.clone(),
        syn::Expr::While(b) => b.attrs.clone(),
        syn::Expr::Loop(b) => b.attrs.clone(),
        syn::Expr::Unsafe(b) => b.attrs.clone(),
        syn::Expr::Binary(b) => b.attrs.clone(),
        syn::Expr::Return(b) => b.attrs.clone(),
        syn::Expr::Macro(b) => b.attrs.clone(),
        syn::Expr::Tuple(b) => b.attrs.clone(),
        _ => vec![],
    }
}

/// Removes attributes and doc comments inside bodies.
struct Strip;
/// The closing proof text also goes before every early return
struct TailReturns(syn::Type);
impl VisitMut for TailReturns {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Closure(_) = e {
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Return(r) = e {
            if r.expr.as_ref().map_or(false, |x| x.to_token_stream().to_string().starts_with("Err")) {
                return;
            }
            if let Some(x) = r.expr.take() {
                let t = &self.0;
                *e = parse_quote!({ let __ret: #t = #x; __vtail!(0); return __ret; });
            }
        }
    }
}
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

struct RenameTraits;
impl VisitMut for RenameTraits {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        for s in p.segments.iter_mut() {
            if let Some(n) = rename_trait(&s.ident.to_string()) {
                s.ident = ident(n);
            }
        }
        crate::desugar::rename_fmt(p);
        visit_mut::visit_path_mut(self, p);
    }
}

/// `fn iter(&self) -> slice::Iter<T> { E.iter() }` is handled as `fn v_iter(&self) -> Vec<&T> { E.v_iter() }`,
/// which is what loops over it call
fn own_iter(sig: &mut syn::Signature, block: &mut syn::Block) {
    if sig.ident != "iter" || sig.inputs.len() != 1 {
        return;
    }
    let syn::ReturnType::Type(_, t) = &sig.output else { return };
    let syn::Type::Path(p) = &**t else { return };
    let Some(l) = p.path.segments.last() else { return };
    if l.ident != "Iter" {
        return;
    }
    let syn::PathArguments::AngleBracketed(a) = &l.arguments else { return };
    let Some(syn::GenericArgument::Type(it)) = a.args.iter().find(|a| matches!(a, syn::GenericArgument::Type(_))).cloned() else { return };
    let Some(syn::Stmt::Expr(syn::Expr::MethodCall(mc), None)) = block.stmts.last_mut() else { return };
    if mc.args.is_empty() && (mc.method == "iter" || mc.method == "into_iter") {
        mc.method = ident("v_iter");
        sig.ident = ident("v_iter");
        sig.output = parse_quote!(-> Vec<&#it>);
    }
}

struct NoLife;
impl VisitMut for NoLife {
    fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
        r.lifetime = None;
        visit_mut::visit_type_reference_mut(self, r);
    }
    fn visit_path_segment_mut(&mut self, s: &mut syn::PathSegment) {
        if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
            a.args = a.args.iter().filter(|x| !matches!(x, syn::GenericArgument::Lifetime(_))).cloned().collect();
            if a.args.is_empty() {
                s.arguments = syn::PathArguments::None;
            }
        }
        visit_mut::visit_path_segment_mut(self, s);
    }
}

fn compact(ts: TokenStream) -> String {
    let s = ts.to_string();
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    for (i, c) in cs.iter().enumerate() {
        if *c == ' ' {
            let (p, n) = (cs[i - 1], cs.get(i + 1).copied().unwrap_or(' '));
            let word = |c: char| c.is_alphanumeric() || c == '_';
            if word(p) && word(n) {
                out.push(' ');
            }
        } else {
            out.push(*c);
        }
    }
    out
}

pub fn type_key(t: &syn::Type) -> String {
    let mut t = t.clone();
    NoLife.visit_type_mut(&mut t);
    compact(t.to_token_stream())
}

fn trait_key(p: &syn::Path) -> String {
    let mut p = p.clone();
    NoLife.visit_path_mut(&mut p);
    compact(p.segments.last().unwrap().to_token_stream())
}

struct Em<'a> {
    c: &'a Contracts,
    o: &'a Opts,
    out: String,
    line: usize,
    map: Vec<String>,
    helpers: Vec<Helper>,
}

struct Texts<'a> {
    inv: BTreeMap<usize, String>,
    c: Option<&'a FnContract>,
    ren: &'a dyn Fn(&str) -> String,
}

fn fmt(ts: TokenStream, ind: usize, out: &mut String, tx: &Texts) {
    let pad = |n: usize| "  ".repeat(n);
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut joint = false;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Group(g) => {
                let d = g.delimiter();
                let (a, b) = match d {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if d == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut rest: TokenStream = g.stream();
                    let mut lhead = String::new();
                    if inner.len() >= 4 {
                        if let (TokenTree::Ident(id), TokenTree::Group(k)) = (&inner[0], &inner[2]) {
                            if id == "__vloop" {
                                let k: usize = k.stream().to_string().trim_end_matches("usize").parse().unwrap();
                                out.push('\n');
                                out.push_str(tx.inv.get(&k).map(|s| s.as_str()).unwrap_or(""));
                                out.push_str(&pad(ind));
                                rest = inner[4..].iter().cloned().collect();
                                if let Some(t) = tx.c.and_then(|c| c.loop_head.get(&k)) {
                                    lhead = loop_subst(&(tx.ren)(t), k);
                                }
                            }
                        }
                    }
                    out.push_str("{\n");
                    out.push_str(&lhead);
                    let mut s = String::new();
                    fmt(rest, ind + 1, &mut s, tx);
                    if !s.trim().is_empty() {
                        out.push_str(&pad(ind + 1));
                        out.push_str(s.trim_start().trim_end());
                        out.push('\n');
                    }
                    out.push_str(&pad(ind));
                    out.push('}');
                    // newline unless the expression goes on
                    let cont = matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if ",;.?)".contains(p.as_char()))
                        || matches!(toks.get(i + 1), Some(TokenTree::Ident(id)) if id == "else" || id == "as")
                        || toks.get(i + 1).is_none();
                    if !cont {
                        out.push('\n');
                        out.push_str(&pad(ind));
                    } else if matches!(toks.get(i + 1), Some(TokenTree::Ident(_))) {
                        out.push(' ');
                    }
                } else {
                    out.push_str(a);
                    fmt(g.stream(), ind, out, tx);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(b);
                    out.push(' ');
                }
                joint = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ',' | ';' | '.' | '?' | ':') && !joint {
                    while out.ends_with(' ') && !out.trim_end_matches(' ').ends_with('\n') {
                        out.pop();
                    }
                }
                out.push(c);
                if c == ';' {
                    out.push('\n');
                    out.push_str(&pad(ind));
                } else if p.spacing() == Spacing::Alone && c != '.' && c != '\'' {
                    out.push(' ');
                }
                joint = p.spacing() == Spacing::Joint;
            }
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if s == "__vltail" || s == "__vlafter" || s == "__vlbefore" || s == "__vtail" {
                    if let (Some(TokenTree::Group(k)), Some(c)) = (toks.get(i + 2), tx.c) {
                        let k: usize = k.stream().to_string().trim_end_matches("usize").parse().unwrap_or(0);
                        let t = match s.as_str() {
                            "__vltail" => c.loop_tail.get(&k).cloned().unwrap_or_default(),
                            "__vlbefore" => c.loop_before.get(&k).cloned().unwrap_or_default(),
                            "__vlafter" => c.loop_after.get(&k).cloned().unwrap_or_default(),
                            _ => c.tail.clone(),
                        };
                        if !t.is_empty() {
                            out.push('\n');
                            out.push_str(&loop_subst(&(tx.ren)(&t), k));
                        }
                    }
                    i += 4;
                    continue;
                }
                out.push_str(&s);
                out.push(' ');
                joint = false;
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
                joint = false;
            }
        }
        i += 1;
    }
}

fn loop_subst(t: &str, k: usize) -> String {
    t.replace("$i", &format!("__i{k}")).replace("$s", &format!("__s{k}")).replace("$n", &format!("__n{k}"))
}

fn word_rename(t: &str, m: &BTreeMap<String, String>) -> String {
    if m.is_empty() {
        return t.to_string();
    }
    let mut out = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    let flush = |w: &mut String, out: &mut String, prev: char| {
        if !w.is_empty() {
            match m.get(w.as_str()) {
                Some(n) if prev != '.' => out.push_str(n),
                _ => out.push_str(w),
            }
            w.clear();
        }
    };
    for c in t.chars() {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            flush(&mut w, &mut out, prev);
            out.push(c);
            prev = c;
        }
    }
    flush(&mut w, &mut out, prev);
    out
}

fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.segments.last() {
                    v.push(i.ident.to_string());
                }
                Ok(())
            });
        }
    }
    v
}

impl<'a> Em<'a> {
    fn push(&mut self, s: &str) {
        self.line += s.matches('\n').count();
        self.out.push_str(s);
    }

    fn collect_helpers(&mut self, m: &Module) {
        let pre = |k: String| if m.path.is_empty() { k } else { format!("{}::{k}", m.path) };
        for it in &m.items {
            match it {
                Item::Fn(f) => {
                    let k = pre(f.sig.ident.to_string());
                    let inline = self.c.fns.get(&k).map_or(true, |c| c.inline);
                    if !self.c.dropped(&k) {
                        let mut f = f.clone();
                        Cfg(self.o).visit_item_fn_mut(&mut f);
                        self.helpers.push(Helper { module: m.path.clone(), ty: None, name: f.sig.ident.to_string(), sig: f.sig, block: *f.block, blocked: !inline });
                    }
                }
                Item::Struct(st) if st.attrs.iter().any(|a| a.path().is_ident("bitfield")) => {
                    for f in &st.fields {
                        for pre in ["", "set_", "with_"] {
                            let n = ident(&format!("{pre}{}", f.ident.as_ref().unwrap()));
                            self.helpers.push(Helper { module: m.path.clone(), ty: Some(st.ident.to_string()), name: n.to_string(), sig: parse_quote!(fn #n(&self)), block: parse_quote!({}), blocked: true });
                        }
                    }
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let mut im = im.clone();
                    Cfg(self.o).visit_item_impl_mut(&mut im);
                    let ty = type_key(&im.self_ty);
                    for i in &im.items {
                        if let syn::ImplItem::Fn(f) = i {
                            let k = pre(format!("{ty}::{}", f.sig.ident));
                            let inline = self.c.fns.get(&k).map_or(true, |c| c.inline);
                            if !self.c.dropped(&k) {
                                self.helpers.push(Helper { module: m.path.clone(), ty: Some(ty.clone()), name: f.sig.ident.to_string(), sig: f.sig.clone(), block: f.block.clone(), blocked: !inline });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        for c in &m.children {
            self.collect_helpers(c);
        }
    }

    fn module(&mut self, m: &Module) {
        let name = m.path.rsplit("::").next().unwrap_or("").to_string();
        if self.c.dropped(&format!("mod {}", m.path)) {
            return;
        }
        if !m.path.is_empty() {
            self.push(&format!("pub mod {name} {{\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::vprelude::*;\n"));
        }
        for it in &m.items {
            self.item(m, it);
        }
        if let Some(s) = self.c.spec.get(&m.path).cloned() {
            let start = self.line + 1;
            self.push(&spin(&s));
            self.map.push(format!("spec\t{}\t{start}\t{}", m.path, self.line));
        }
        for c in &m.children {
            self.module(c);
        }
        if !m.path.is_empty() {
            self.push(&format!("}} // mod {}\n", m.path));
        }
    }

    fn item(&mut self, m: &Module, it: &Item) {
        let pre = |k: String| if m.path.is_empty() { k } else { format!("{}::{k}", m.path) };
        match it {
            Item::Use(u) => {
                let first = match &u.tree {
                    syn::UseTree::Path(p) => p.ident.to_string(),
                    syn::UseTree::Name(n) => n.ident.to_string(),
                    _ => String::new(),
                };
                if !["crate", "self", "super", "std"].contains(&first.as_str()) {
                    return;
                }
                let s = compact(u.tree.to_token_stream());
                if s.starts_with("std::convert") || s.starts_with("std::fmt") || s.contains("cmp::Ordering") || s.contains("std::mem") || s.contains("std::time") {
                    return;
                }
                let s = u.tree.to_token_stream().to_string();
                self.push(&format!("#[allow(unused_imports)] pub use {s};\n"));
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                if s.attrs.iter().any(|a| a.path().is_ident("bitfield")) {
                    self.bitfield(&s);
                    return;
                }
                let k = pre(s.ident.to_string());
                if self.c.dropped(&k) {
                    return;
                }
                let d = derives(&s.attrs);
                let mut cf = Cfg(self.o);
                cf.visit_item_struct_mut(&mut s);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.attrs.clear();
                    f.vis = parse_quote!(pub);
                }
                self.derive_line(&d);
                let tx = Texts { inv: BTreeMap::new(), c: None, ren: &|s| s.to_string() };
                let mut o = String::new();
                fmt(s.to_token_stream(), 0, &mut o, &tx);
                self.push(&o);
                self.push("\n");
                if d.iter().any(|x| x == "Default") {
                    let id = &s.ident;
                    let body: TokenStream = match &s.fields {
                        syn::Fields::Named(n) => {
                            let f = n.named.iter().map(|f| &f.ident);
                            quote!(#id { #(#f: VDefault::v_default()),* })
                        }
                        syn::Fields::Unnamed(u) => {
                            let f = u.unnamed.iter().map(|_| quote!(VDefault::v_default()));
                            quote!(#id ( #(#f),* ))
                        }
                        syn::Fields::Unit => quote!(#id),
                    };
                    let ctor: TokenStream = match &s.fields {
                        syn::Fields::Named(n) => {
                            let f: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                            quote!(#(VDefault::is_def(&self.#f))&&*)
                        }
                        syn::Fields::Unnamed(u) => {
                            let f = (0..u.unnamed.len()).map(syn::Index::from);
                            quote!(#(VDefault::is_def(&self.#f))&&*)
                        }
                        syn::Fields::Unit => quote!(true),
                    };
                    let st = self.line + 1;
                    self.push(&format!("impl VDefault for {id} {{\n  open spec fn is_def(&self) -> bool {{ {ctor} }}\n  fn v_default() -> Self {{ {body} }}\n}}\n"));
                    self.map.push(format!("fn\t{}\t{st}\t{}\tderived\t0", pre(format!("{id}::Default::default")), self.line));
                }
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                let k = pre(s.ident.to_string());
                if self.c.dropped(&k) {
                    return;
                }
                let d = derives(&s.attrs);
                let mut cf = Cfg(self.o);
                cf.visit_item_enum_mut(&mut s);
                let repr: Vec<_> = s.attrs.iter().filter(|a| a.path().is_ident("repr")).cloned().collect();
                // the macro loses the type of unsuffixed discriminants
                let suf = repr
                    .first()
                    .and_then(|a| a.parse_args::<syn::Ident>().ok())
                    .map(|i| i.to_string())
                    .filter(|i| i.starts_with('u') || i.starts_with('i'))
                    .unwrap_or("isize".into());
                s.attrs = repr;
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    if let Some((_, syn::Expr::Lit(l))) = &mut v.discriminant {
                        if let syn::Lit::Int(i) = &l.lit {
                            if i.suffix().is_empty() {
                                l.lit = syn::Lit::Int(syn::LitInt::new(&format!("{i}{suf}"), i.span()));
                            }
                        }
                    }
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                self.derive_line(&d);
                let tx = Texts { inv: BTreeMap::new(), c: None, ren: &|s| s.to_string() };
                let mut o = String::new();
                fmt(s.to_token_stream(), 0, &mut o, &tx);
                self.push(&o);
                self.push("\n");
                if d.iter().any(|x| x == "Copy") && d.iter().any(|x| x == "PartialEq") {
                    // derived equality is equality
                    self.push(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}\n", s.ident));
                }
            }
            Item::Const(c) => {
                let mut c = c.clone();
                if self.c.dropped(&pre(c.ident.to_string())) {
                    return;
                }
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                self.push(&format!("{}\n", c.to_token_stream()));
            }
            Item::Type(c) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                self.push(&format!("{}\n", c.to_token_stream()));
            }
            Item::Fn(f) => {
                let k = pre(f.sig.ident.to_string());
                if self.c.dropped(&k) {
                    return;
                }
                let mut f = f.clone();
                Cfg(self.o).visit_item_fn_mut(&mut f);
                self.func(m, None, &k, &f.sig, &f.block, true, false);
            }
            Item::Trait(t) => {
                let k = pre(t.ident.to_string());
                if self.c.dropped(&k) {
                    return;
                }
                let sup = if t.supertraits.is_empty() { String::new() } else { format!(": {}", t.supertraits.to_token_stream()) };
                self.push(&format!("pub trait {}{}{} {{\n", t.ident, t.generics.to_token_stream(), sup));
                if let Some(x) = self.c.traits.get(&k).cloned() {
                    self.push(&x);
                }
                for i in &t.items {
                    if let syn::TraitItem::Fn(f) = i {
                        let fk = format!("{k}::{}", f.sig.ident);
                        if self.c.dropped(&fk) {
                            continue;
                        }
                        match &f.default {
                            Some(b) => self.func(m, None, &fk, &f.sig, b, false, false),
                            None => {
                                let spec = self.c.fns.get(&fk).map(|c| c.spec.clone()).unwrap_or_default();
                                let h = self.header(&f.sig, false);
                                self.push(&format!("  {h}\n{spec}  ;\n"));
                            }
                        }
                    }
                }
                self.push("}\n");
            }
            Item::Impl(im) => self.impl_(m, im),
            _ => {}
        }
    }

    fn derive_line(&mut self, d: &[String]) {
        let keep: Vec<&str> = d.iter().map(|s| s.as_str()).filter(|s| ["Copy", "Clone", "PartialEq", "Eq", "PartialOrd", "Ord", "Hash"].contains(s)).collect();
        let keep = if keep.contains(&"Copy") || keep.contains(&"PartialEq") { keep } else { vec![] };
        // Clone of non-Copy types is not used under contract
        let copy = keep.contains(&"Copy");
        let keep: Vec<&str> = keep.into_iter().filter(|k| copy || *k != "Clone").filter(|k| copy || !["PartialOrd", "Ord", "Hash", "PartialEq", "Eq"].contains(k)).collect();
        if !keep.is_empty() {
            self.push(&format!("#[derive({})]\n", keep.join(", ")));
        }
    }

    /// #[bitfield] structs: accessor contracts generated from the declared fields, lowest bit first.
    fn bitfield(&mut self, s: &syn::ItemStruct) {
        let id = &s.ident;
        let mut off = 0u32;
        let mut t = String::new();
        let mut acc = String::new();
        for f in s.fields.iter() {
            let n = f.ident.as_ref().unwrap().to_string();
            let w: u32 = compact(f.ty.to_token_stream()).trim_start_matches('B').parse().unwrap_or(0);
            let (ty, mask) = ("u8", (1u32 << w) - 1);
            acc.push_str(&format!(
                "  #[verifier::external_body] pub fn {n}(&self) -> (r: {ty}) ensures r as u16 == (self.bits() >> {off}u16) & {mask}u16, {{ unimplemented!() }}\n\
                   #[verifier::external_body] pub fn set_{n}(&mut self, v: {ty}) requires v <= {mask}, ensures final(self).bits() == (old(self).bits() & !({mask}u16 << {off}u16)) | ((v as u16) << {off}u16), {{ unimplemented!() }}\n\
                   #[verifier::external_body] pub fn with_{n}(self, v: {ty}) -> (r: Self) requires v <= {mask}, ensures r.bits() == (self.bits() & !({mask}u16 << {off}u16)) | ((v as u16) << {off}u16), {{ unimplemented!() }}\n"
            ));
            off += w;
        }
        t.push_str(&format!("#[verifier::external_body] pub struct {id} {{ b: [u8; {}] }}\n", off / 8));
        t.push_str(&format!("impl {id} {{\n  pub uninterp spec fn bits(&self) -> u16;\n"));
        t.push_str("  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.bits() == 0, { unimplemented!() }\n");
        t.push_str("  #[verifier::external_body] pub fn from_bytes(b: [u8; 2]) -> (r: Self) ensures r.bits() == (b@[0] as u16) | ((b@[1] as u16) << 8u16), { unimplemented!() }\n");
        t.push_str("  #[verifier::external_body] pub fn into_bytes(self) -> (r: [u8; 2]) ensures r@[0] == (self.bits() & 0xFF) as u8, r@[1] == (self.bits() >> 8u16) as u8, { unimplemented!() }\n");
        t.push_str("  #[verifier::external_body] pub fn v_clone(&self) -> (r: Self) ensures r == *self, { unimplemented!() }\n");
        t.push_str(&acc);
        t.push_str("}\n");
        t.push_str(&format!("impl VDefault for {id} {{ open spec fn is_def(&self) -> bool {{ self.bits() == 0 }} #[verifier::external_body] fn v_default() -> Self {{ unimplemented!() }} }}\n"));
        let st = self.line + 1;
        self.push(&t);
        self.map.push(format!("fn\tbitfield {id}\t{st}\t{}\ttrusted\t0", self.line));
    }

    fn impl_(&mut self, m: &Module, im: &syn::ItemImpl) {
        let pre = |k: String| if m.path.is_empty() { k } else { format!("{}::{k}", m.path) };
        let ty = type_key(&im.self_ty);
        let k = match &im.trait_ {
            None => pre(ty.clone()),
            Some((_, p, _)) => pre(format!("{ty}::{}", trait_key(p))),
        };
        if im.trait_.is_some() && self.c.dropped(&k) {
            return;
        }
        let mut im = im.clone();
        Cfg(self.o).visit_item_impl_mut(&mut im);
        let orig_trait = im.trait_.as_ref().map(|(_, p, _)| trait_key(p));
        RenameTraits.visit_generics_mut(&mut im.generics);
        let (ig, _, wh) = im.generics.split_for_impl();
        let st = im.self_ty.to_token_stream().to_string();
        match &im.trait_ {
            None => self.push(&format!("impl{} {st} {} {{\n", ig.to_token_stream(), wh.to_token_stream())),
            Some((_, p, _)) => {
                let mut p = p.clone();
                RenameTraits.visit_path_mut(&mut p);
                self.push(&format!("impl{} {} for {st} {} {{\n", ig.to_token_stream(), p.to_token_stream(), wh.to_token_stream()));
            }
        }
        let is_trait = im.trait_.is_some();
        for i in &im.items {
            match i {
                syn::ImplItem::Type(t) => {
                    let t = format!("  type {} = {};\n", t.ident, t.ty.to_token_stream());
                    self.push(&t);
                }
                syn::ImplItem::Const(c) => {
                    let mut c = c.clone();
                    if self.c.dropped(&format!("{k}::{}", c.ident)) {
                        continue;
                    }
                    c.attrs.clear();
                    if !is_trait {
                        c.vis = parse_quote!(pub);
                    }
                    let mut d = Desugar { loops: 0, auto: BTreeMap::new(), muts: vec![], items: Default::default(), tmp: 0, helpers: &[], module: m.path.clone(), self_ty: Some(ty.clone()), ret_result: false, inlined: Default::default(), depth: 0 };
                    d.visit_expr_mut(&mut c.expr);
                    self.push(&format!("  {}\n", c.to_token_stream()));
                }
                syn::ImplItem::Fn(f) => {
                    let fk = format!("{k}::{}", f.sig.ident);
                    if self.c.dropped(&fk) {
                        continue;
                    }
                    self.func(m, Some(&ty), &fk, &f.sig, &f.block, !is_trait, is_trait);
                }
                _ => {}
            }
        }
        if let Some(x) = self.c.impls.get(&k).cloned() {
            let start = self.line + 1;
            self.push(&x);
            self.map.push(format!("spec\timpl {k}\t{start}\t{}", self.line));
        } else if let Some(t) = orig_trait {
            let base = t.split('<').next().unwrap().to_string();
            if let Some(d) = self.c.defaults.get(&base).cloned() {
                let arg = match im.trait_.as_ref().unwrap().1.segments.last().map(|s| s.arguments.clone()) {
                    Some(syn::PathArguments::AngleBracketed(a)) => a.args.to_token_stream().to_string(),
                    _ => String::new(),
                };
                self.push(&d.replace("$T", &arg));
            }
            self.map.push(format!("noimpl\t{k}\t{t}"));
        }
        self.push("}\n");
    }

    fn header(&self, sig: &syn::Signature, public: bool) -> String {
        let mut sig = sig.clone();
        Strip.visit_signature_mut(&mut sig);
        RenameTraits.visit_signature_mut(&mut sig);
        let name = rename_fn(&sig.ident.to_string());
        let mut n = 0;
        for a in sig.inputs.iter_mut() {
            if let syn::FnArg::Typed(t) = a {
                if matches!(&*t.pat, syn::Pat::Wild(_)) {
                    let id = ident(&format!("__w{n}"));
                    n += 1;
                    *t.pat = parse_quote!(#id);
                }
            }
        }
        let g = sig.generics.clone();
        let (ig, _, wh) = g.split_for_impl();
        let ret = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => format!(" -> (r: {})", t.to_token_stream()),
        };
        format!("{}fn {}{}({}){} {}", if public { "pub " } else { "" }, name, ig.to_token_stream(), sig.inputs.to_token_stream(), ret, wh.to_token_stream())
    }

    fn func(&mut self, m: &Module, ty: Option<&str>, key: &str, sig: &syn::Signature, block: &syn::Block, public: bool, in_trait: bool) {
        let contract = self.c.fns.get(key).cloned();
        let (mut sig, mut block) = (sig.clone(), block.clone());
        own_iter(&mut sig, &mut block);
        let (sig, block) = (&sig, &block);
        let quarantined = self.o.quarantine.contains(key) || self.o.quarantine.contains("*");
        let inline = contract.as_ref().map_or(!in_trait, |c| c.inline);
        let has = contract.is_some() || in_trait;
        let trusted = contract.as_ref().map_or(false, |c| c.trusted);
        let mut body = block.clone();
        Strip.visit_block_mut(&mut body);
        let ret_result = matches!(&sig.output, syn::ReturnType::Type(_, t) if t.to_token_stream().to_string().starts_with("Result"));
        let helpers = self.helpers.clone();
        let mut d = Desugar { loops: 0, auto: BTreeMap::new(), muts: vec![], items: Default::default(), tmp: 0, helpers: &helpers, module: m.path.clone(), self_ty: ty.map(String::from), ret_result, inlined: Default::default(), depth: 0 };
        d.visit_tail_block(&mut body);
        d.muts.retain(|x| !x.starts_with("__i"));
        let mut c = contract.clone().unwrap_or_default();
        let mut nvar = 1;
        if let Some(alts) = self.c.alts.get(key) {
            let all: Vec<_> = std::iter::once(&c).chain(alts).filter(|x| x.loops.unwrap_or(x.loop_inv.len()) == d.loops).cloned().collect();
            nvar = all.len();
            if let Some(x) = all.get(self.o.variant.get(key).copied().unwrap_or(0)) {
                c = x.clone();
            }
        }
        // positional renames of parameters and mutable locals
        let mut ren: BTreeMap<String, String> = BTreeMap::new();
        let mut wild = 0;
        let actual: Vec<String> = sig.inputs.iter().map(|a| match a {
            syn::FnArg::Receiver(_) => "self".to_string(),
            syn::FnArg::Typed(t) => match &*t.pat {
                syn::Pat::Ident(i) => i.ident.to_string(),
                syn::Pat::Wild(_) => { wild += 1; format!("__w{}", wild - 1) }
                _ => "_".into(),
            },
        }).collect();
        if !c.params.is_empty() && c.params.len() == actual.len() {
            for (a, b) in c.params.iter().zip(&actual) {
                if a != b {
                    ren.insert(a.clone(), b.clone());
                }
            }
        }
        if !c.muts.is_empty() && c.muts.len() == d.muts.len() {
            for (a, b) in c.muts.iter().zip(&d.muts) {
                if a != b {
                    ren.insert(a.clone(), b.clone());
                }
            }
        }
        let renf = |t: &str| word_rename(t, &ren);
        let loops_bad = has && !trusted && (c.loops.unwrap_or(c.loop_inv.len()) != d.loops) && !c.inline;
        let start = self.line + 1;
        let mut status = if !has || c.inline { if inline { "nocontract" } else { "nocontract" } } else if trusted { "trusted" } else if quarantined { "quarantined" } else if loops_bad { "loopmismatch" } else { "verified" };
        if self.c.impls.get(key.rsplit_once("::").map(|x| x.0).unwrap_or("")).is_none() && in_trait && contract.is_none() {
            // a trait impl nobody wrote a contract for
            status = "nocontract";
        }
        let external = status != "verified";
        self.push(&format!("// FN {key}\n"));
        if external {
            self.push("  #[verifier::external_body]\n");
        } else {
            if d.loops > 0 {
                self.push("  #[verifier::loop_isolation(false)]\n");
            }
            if !c.attrs.is_empty() {
                self.push(&format!("  {}\n", c.attrs));
            }
            if !c.attrs.contains("spinoff_prover") && HEAVY.iter().any(|h| sig.ident == h) {
                self.push("  #[verifier::spinoff_prover]\n");
            }
        }
        let h = self.header(sig, public);
        self.push(&format!("  {h}\n"));
        if !c.spec.trim().is_empty() {
            self.push(&renf(&c.spec));
        }
        if in_trait && !external && c.spec.trim().is_empty() {
            // Names the impl's own spec functions: Verus orders definitions by what a function
            // mentions, and the trait's postcondition alone does not mention them
            let arg = sig.inputs.iter().find_map(|a| match a {
                syn::FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    RenameTraits.visit_type_mut(&mut ty);
                    Some(ty.to_token_stream().to_string())
                }
                _ => None,
            });
            let p = actual.first().cloned().unwrap_or_default();
            let t = match (sig.ident.to_string().as_str(), arg) {
                ("from", Some(t)) if p != "_" => format!("    ensures <Self as VFrom<{t}>>::f_pre({p}) == <Self as VFrom<{t}>>::f_pre({p}), <Self as VFrom<{t}>>::f_post({p}, r) == <Self as VFrom<{t}>>::f_post({p}, r),\n"),
                ("try_from", Some(t)) if p != "_" => format!("    ensures <Self as VTryFrom<{t}>>::tf_pre({p}) == <Self as VTryFrom<{t}>>::tf_pre({p}), <Self as VTryFrom<{t}>>::tf_post({p}, r) == <Self as VTryFrom<{t}>>::tf_post({p}, r),\n"),
                ("byte_size" | "to_bytes", None) => "    ensures self.bc_bytes() == self.bc_bytes(), self.bs_extra() == self.bs_extra(), self.bc_pre() == self.bc_pre(),\n".to_string(),
                _ => String::new(),
            };
            self.push(&t);
        }
        if external {
            self.push("  { unimplemented!() }\n");
        } else {
            let mut inv = BTreeMap::new();
            for (k, a) in &d.auto {
                let mut t = c.loop_inv.get(k).cloned().unwrap_or_default();
                let has_dec = t.contains("decreases");
                let mut s = String::new();
                match a {
                    AutoLoop::Items => {
                        if !t.contains("invariant") {
                            t = format!("invariant\n{t}");
                        }
                        s.push_str(&t.replacen("invariant", "invariant\n $i <= $s.len(),", 1));
                        if !has_dec {
                            s.push_str("\n decreases $s.len() - $i,\n");
                        }
                    }
                    AutoLoop::Range => {
                        if !t.contains("invariant") {
                            t = format!("invariant\n{t}");
                        }
                        s.push_str(&t);
                        if !has_dec {
                            s.push_str("\n decreases $n - $i,\n");
                        }
                    }
                    AutoLoop::Native => s.push_str(&t),
                }
                inv.insert(*k, loop_subst(&renf(&s), *k));
            }
            if !c.tail.is_empty() {
                if let syn::ReturnType::Type(_, t) = &sig.output {
                    let mut t = (**t).clone();
                    RenameTraits.visit_type_mut(&mut t);
                    TailReturns(t).visit_block_mut(&mut body);
                }
                if let Some(syn::Stmt::Expr(e, None)) = body.stmts.last().cloned() {
                    body.stmts.pop();
                    body.stmts.push(parse_quote!(let __ret = #e;));
                    body.stmts.push(parse_quote!(__vtail!(0);));
                    body.stmts.push(syn::Stmt::Expr(parse_quote!(__ret), None));
                } else if matches!(sig.output, syn::ReturnType::Default) {
                    body.stmts.push(parse_quote!(__vtail!(0);));
                }
            }
            let tx = Texts { inv, c: Some(&c), ren: &renf };
            self.push("  {\n");
            if self.o.vacuity {
                self.push("    assert(false); // vacuity probe\n");
            }
            if !c.head.is_empty() {
                self.push(&renf(&c.head));
            }
            let mut o = String::new();
            let stmts = body.stmts.iter().map(|s| s.to_token_stream());
            fmt(quote!(#(#stmts)*), 2, &mut o, &tx);
            self.push("    ");
            let o = o.trim_end().to_string();
            self.push(&o);
            self.push("\n  }\n");
        }
        let inl: Vec<String> = d.inlined.iter().cloned().collect();
        self.map.push(format!("fn\t{key}\t{start}\t{}\t{status}\t{}\tinlined={}\tmuts={}\tvariants={nvar}", self.line, d.loops, inl.join(","), d.muts.join(",")));
    }
}

/// Functions with large proofs get a solver process of their own (speed only).
const HEAVY: [&str; 6] = ["byte_size", "byte_size_compressed", "to_bytes", "to_bytes_compressed", "v_from", "v_try_from"];

fn spin(s: &str) -> String {
    let mut out = String::new();
    for l in s.split_inclusive('\n') {
        let t = l.trim_start();
        let t = t.strip_prefix("pub ").unwrap_or(t);
        if t.starts_with("proof fn lemma_c_") || t.starts_with("proof fn rt_") || t.starts_with("proof fn lemma_bm_bit") {
            out.push_str("#[verifier::spinoff_prover]\n");
        }
        out.push_str(l);
    }
    out
}

pub fn emit(root: &Module, c: &Contracts, o: &Opts) -> Output {
    let mut e = Em { c, o, out: String::new(), line: 0, map: vec![], helpers: vec![] };
    e.collect_helpers(root);
    e.push("// GENERATED from /repo/src by /verif/extract - do not edit\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, unused_assignments, unreachable_code)]\nuse vstd::prelude::*;\nverus! {\n");
    let pre = spin(&c.prelude);
    let st = e.line + 1;
    e.push(&pre);
    let end = e.line;
    e.map.push(format!("spec\tprelude\t{st}\t{end}"));
    e.module(root);
    e.push("} // verus!\nfn main() {}\n");
    // contracts whose function is gone
    let seen: Vec<String> = e.map.iter().filter_map(|l| { let p: Vec<&str> = l.split('\t').collect(); if p[0] == "fn" { Some(p[1].to_string()) } else { None } }).collect();
    for k in c.fns.keys() {
        let of_trait = k.rsplit_once("::").map_or(false, |(t, _)| c.traits.contains_key(t));
        if !seen.contains(k) && !k.is_empty() && !of_trait {
            e.map.push(format!("lost\t{k}"));
        }
    }
    Output { text: e.out, map: e.map.join("\n") + "\n" }
}
