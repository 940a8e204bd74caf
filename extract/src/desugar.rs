//! Rewrites of function bodies into the Rust subset Verus accepts.  Every rewrite is a fixed,
//! meaning-preserving expansion of a std idiom (listed in DESIGN.md); nothing here depends on
//! which function is being rewritten.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

#[derive(Clone)]
pub struct Helper {
    pub module: String,
    pub ty: Option<String>,
    pub name: String,
    pub sig: syn::Signature,
    pub block: syn::Block,
    /// under contract (or generated): never inlined, but makes its name ambiguous
    pub blocked: bool,
}

pub struct Desugar<'h> {
    pub loops: usize,
    pub auto: BTreeMap<usize, AutoLoop>,
    pub muts: Vec<String>,
    pub items: BTreeSet<String>,
    pub tmp: usize,
    pub helpers: &'h [Helper],
    pub module: String,
    pub self_ty: Option<String>,
    pub ret_result: bool,
    pub inlined: BTreeSet<String>,
    pub depth: usize,
}

#[derive(Clone, Debug)]
pub enum AutoLoop {
    Items,
    Range,
    Native,
}

pub fn ident(s: &str) -> syn::Ident {
    syn::Ident::new(s, Span::call_site())
}

struct HasExit(bool, bool); // (return/?, break/continue outside a loop)
impl<'a> syn::visit::Visit<'a> for HasExit {
    fn visit_expr_try(&mut self, e: &'a syn::ExprTry) {
        self.0 = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
/// The negation of a condition, comparisons with the opposite operator
fn negate(c: &Expr) -> Expr {
    if let Expr::Binary(b) = strip_paren(c) {
        let (l, r) = (&b.left, &b.right);
        match b.op {
            syn::BinOp::Eq(_) => return parse_quote!(#l != #r),
            syn::BinOp::Ne(_) => return parse_quote!(#l == #r),
            syn::BinOp::Lt(_) => return parse_quote!(#l >= #r),
            syn::BinOp::Ge(_) => return parse_quote!(#l < #r),
            syn::BinOp::Gt(_) => return parse_quote!(#l <= #r),
            syn::BinOp::Le(_) => return parse_quote!(#l > #r),
            _ => {}
        }
    }
    parse_quote!(!(#c))
}
/// A break that leaves the loop these statements are the body of (or any labelled one)
fn breaks(st: &[Stmt]) -> bool {
    struct B(bool, usize);
    impl<'a> syn::visit::Visit<'a> for B {
        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
            if self.1 == 0 || b.label.is_some() {
                self.0 = true;
            }
        }
        fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
            self.1 += 1;
            syn::visit::visit_expr_loop(self, l);
            self.1 -= 1;
        }
        fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
            self.1 += 1;
            syn::visit::visit_expr_while(self, l);
            self.1 -= 1;
        }
        fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
            self.1 += 1;
            syn::visit::visit_expr_for_loop(self, l);
            self.1 -= 1;
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut b = B(false, 0);
    for s in st {
        syn::visit::Visit::visit_stmt(&mut b, s);
    }
    b.0
}
pub fn has_exit(e: &Expr) -> bool {
    let mut v = HasExit(false, false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}
pub fn block_has_exit(b: &syn::Block) -> bool {
    let mut v = HasExit(false, false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}
struct HasReturn(bool);
impl<'a> syn::visit::Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        // `return Err(..)` is fine when the call is followed by `?`
        if let Some(e) = &r.expr {
            if let Expr::Call(c) = &**e {
                if path_last(&c.func).as_deref() == Some("Err") {
                    return;
                }
            }
        }
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

pub fn path_last(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        return p.path.segments.last().map(|s| s.ident.to_string());
    }
    None
}

fn single_ident(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() {
            return p.path.get_ident().map(|i| i.to_string());
        }
    }
    None
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}

fn pat_idents(p: &Pat, out: &mut BTreeSet<String>) {
    match p {
        Pat::Ident(i) => {
            out.insert(i.ident.to_string());
        }
        Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_idents(e, out)),
        Pat::Type(t) => pat_idents(&t.pat, out),
        Pat::Paren(t) => pat_idents(&t.pat, out),
        _ => {}
    }
}

fn is_int_lit(e: &Expr) -> bool {
    matches!(strip_paren(e), Expr::Lit(l) if matches!(l.lit, syn::Lit::Int(_)))
}

fn int_size(t: &syn::Type) -> Option<usize> {
    Some(match t.to_token_stream().to_string().as_str() {
        "u8" | "i8" | "bool" => 1,
        "u16" | "i16" => 2,
        "u32" | "i32" => 4,
        "u64" | "i64" | "usize" | "isize" => 8,
        "u128" | "i128" => 16,
        _ => return None,
    })
}

/// One stage of an iterator pipeline.
enum Stage {
    Enumerate,
    Map(syn::ExprClosure),
    FlatMap(syn::ExprClosure),
    Filter(syn::ExprClosure),
    Deref, // copied / cloned
}

fn closure(e: &Expr) -> Option<syn::ExprClosure> {
    match strip_paren(e) {
        Expr::Closure(c) if !has_exit(&c.body) => Some(c.clone()),
        _ => None,
    }
}

/// Splits `SRC.iter().a(..).b(..)` into source, by-reference flag and stages.
fn pipeline(e: &Expr) -> Option<(Expr, Vec<Stage>)> {
    let mut stages = vec![];
    let mut cur = strip_paren(e).clone();
    loop {
        match cur.clone() {
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                match (name.as_str(), mc.args.len()) {
                    ("iter", 0) | ("into_iter", 0) | ("bytes", 0) | ("iter_mut", 0) => {
                        if name == "iter_mut" || name == "bytes" {
                            return None;
                        }
                        stages.reverse();
                        return Some(((*mc.receiver).clone(), stages));
                    }
                    ("enumerate", 0) => stages.push(Stage::Enumerate),
                    ("copied", 0) | ("cloned", 0) => stages.push(Stage::Deref),
                    ("by_ref", 0) => {}
                    ("split", 1) if matches!(&mc.args[0], Expr::Lit(l) if matches!(l.lit, syn::Lit::Char(_))) => {
                        // s.split(c): the parts, in order (contract of v_split)
                        let (r, c) = (&mc.receiver, &mc.args[0]);
                        stages.reverse();
                        return Some((parse_quote!(v_split(#r, #c)), stages));
                    }
                    ("map", 1) => stages.push(Stage::Map(closure(&mc.args[0])?)),
                    ("flat_map", 1) | ("filter_map", 1) => stages.push(Stage::FlatMap(closure(&mc.args[0])?)),
                    ("filter", 1) => stages.push(Stage::Filter(closure(&mc.args[0])?)),
                    _ => return None,
                }
                cur = strip_paren(&mc.receiver).clone();
            }
            _ => return None,
        }
    }
}

fn is_pipeline(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(mc) => {
            matches!(mc.method.to_string().as_str(), "iter" | "into_iter" | "iter_mut" | "chars" | "bytes" | "split" | "chunks" | "windows" | "keys" | "values")
                || is_pipeline(&mc.receiver)
        }
        Expr::Range(_) => true,
        _ => false,
    }
}

fn let_pat(p: &Pat, v: Expr) -> Vec<Stmt> {
    // closure parameters of the form |&x|: Verus has no reference patterns
    match p {
        Pat::Reference(r) => {
            let inner = &r.pat;
            vec![parse_quote!(let #inner = *#v;)]
        }
        Pat::Wild(_) => vec![],
        _ => vec![parse_quote!(let #p = #v;)],
    }
}

impl<'h> Desugar<'h> {
    fn fresh_loop(&mut self, a: AutoLoop) -> usize {
        self.loops += 1;
        self.auto.insert(self.loops, a);
        self.loops
    }

    /// Loop over the items of SRC; `mk` produces the loop body from the item expression.
    fn items_loop(&mut self, src: &Expr, pat: &Pat, stages: Vec<Stage>, body: Vec<Stmt>) -> Option<(usize, Vec<Stmt>)> {
        let k = self.fresh_loop(AutoLoop::Items);
        let s = ident(&format!("__s{k}"));
        let i = ident(&format!("__i{k}"));
        let mut stmts: Vec<Stmt> = vec![];
        let srcx: Expr = match strip_paren(src) {
            Expr::Reference(r) => (*r.expr).clone(),
            x => x.clone(),
        };
        if is_place(&srcx) {
            stmts.push(parse_quote!(let #s = (#srcx).v_iter();));
        } else {
            let b = ident(&format!("__src{k}"));
            stmts.push(parse_quote!(let #b = #srcx;));
            stmts.push(parse_quote!(let #s = (#b).v_iter();));
        }
        stmts.push(parse_quote!(let mut #i: usize = 0;));
        let mut inner: Vec<Stmt> = vec![parse_quote!(__vloop!(#k);)];
        // the value flowing through the pipeline
        let mut val: Expr = parse_quote!(#s[#i]);
        let mut ids = BTreeSet::new();
        let mut pre_inc = false;
        let mut cont: Vec<Stmt> = vec![];
        let n_st = stages.len();
        let mut by_ref = true;
        for (si, st) in stages.into_iter().enumerate() {
            let t = ident(&format!("__x{k}_{si}"));
            match st {
                Stage::Enumerate => {
                    // handled together with the pattern below when it is the last stage
                    if si + 1 == n_st {
                        if let Pat::Tuple(tp) = pat {
                            if tp.elems.len() == 2 {
                                let a = &tp.elems[0];
                                let b = &tp.elems[1];
                                if !matches!(a, Pat::Wild(_)) {
                                    cont.push(parse_quote!(let #a: usize = #i;));
                                }
                                pat_idents(b, &mut ids);
                                cont.extend(let_pat(b, val.clone()));
                                inner.extend(cont);
                                inner.push(parse_quote!(#i += 1;));
                                self.items.extend(ids);
                                inner.extend(body);
                                inner.push(parse_quote!(__vltail!(#k);));
                                stmts.push(parse_quote!(__vlbefore!(#k);));
        stmts.push(parse_quote!(while #i < #s.len() { #(#inner)* }));
                                stmts.push(parse_quote!(__vlafter!(#k);));
                                return Some((k, stmts));
                            }
                        }
                    }
                    cont.push(parse_quote!(let #t = (#i, #val);));
                    val = parse_quote!(#t);
                    by_ref = false;
                }
                Stage::Deref => {
                    cont.push(parse_quote!(let #t = *#val;));
                    val = parse_quote!(#t);
                    by_ref = false;
                }
                Stage::Map(c) => {
                    let p = c.inputs.first()?.clone();
                    let b = &c.body;
                    if by_ref {
                        pat_idents(&p, &mut self.items);
                    }
                    let bind = let_pat(&p, val.clone());
                    cont.push(parse_quote!(let #t = { #(#bind)* #b };));
                    val = parse_quote!(#t);
                    by_ref = false;
                }
                Stage::FlatMap(c) => {
                    let p = c.inputs.first()?.clone();
                    let b = &c.body;
                    if by_ref {
                        pat_idents(&p, &mut self.items);
                    }
                    let bind = let_pat(&p, val.clone());
                    let o = ident(&format!("__o{k}_{si}"));
                    cont.push(parse_quote!(let #o = v_ok({ #(#bind)* #b });));
                    if !pre_inc {
                        cont.push(parse_quote!(#i += 1;));
                        pre_inc = true;
                    }
                    cont.push(parse_quote!(if #o.is_none() { __vltail!(#k); continue; }));
                    cont.push(parse_quote!(let #t = #o.unwrap();));
                    val = parse_quote!(#t);
                    by_ref = false;
                }
                Stage::Filter(c) => {
                    let p = c.inputs.first()?.clone();
                    let b = &c.body;
                    cont.push(parse_quote!(let #t = #val;));
                    let tv: Expr = parse_quote!(&#t);
                    let bind = let_pat(&p, tv);
                    let o = ident(&format!("__o{k}_{si}"));
                    cont.push(parse_quote!(let #o: bool = { #(#bind)* #b };));
                    if !pre_inc {
                        cont.push(parse_quote!(#i += 1;));
                        pre_inc = true;
                    }
                    cont.push(parse_quote!(if !#o { __vltail!(#k); continue; }));
                    val = parse_quote!(#t);
                }
            }
        }
        if by_ref {
            pat_idents(pat, &mut ids);
        }
        inner.extend(cont);
        inner.extend(let_pat(pat, val));
        if !pre_inc {
            inner.push(parse_quote!(#i += 1;));
        }
        self.items.extend(ids);
        inner.extend(body);
        inner.push(parse_quote!(__vltail!(#k);));
        stmts.push(parse_quote!(__vlbefore!(#k);));
        stmts.push(parse_quote!(while #i < #s.len() { #(#inner)* }));
        stmts.push(parse_quote!(__vlafter!(#k);));
        Some((k, stmts))
    }

    fn range_loop(&mut self, r: &syn::ExprRange, pat: &Pat, body: Vec<Stmt>) -> Option<Vec<Stmt>> {
        let a = r.start.clone()?;
        let b = r.end.clone()?;
        let k = self.fresh_loop(AutoLoop::Range);
        let i = ident(&format!("__i{k}"));
        let n = ident(&format!("__n{k}"));
        let mut stmts: Vec<Stmt> = vec![];
        let bx: Expr = if matches!(r.limits, syn::RangeLimits::Closed(_)) { parse_quote!((#b) + 1) } else { (*b).clone() };
        let fits: syn::Expr = bx;
        stmts.push(parse_quote!(let #n = #fits;));
        stmts.push(parse_quote!(let mut #i = #a;));
        let bind: Vec<Stmt> = if matches!(pat, Pat::Wild(_)) { vec![] } else { vec![parse_quote!(let #pat = #i;)] };
        stmts.push(parse_quote!(__vlbefore!(#k);));
        stmts.push(parse_quote!(while #i < #n { __vloop!(#k); #(#bind)* #i += 1; #(#body)* __vltail!(#k); }));
        stmts.push(parse_quote!(__vlafter!(#k);));
        Some(stmts)
    }

    fn block_of(e: &Expr) -> Vec<Stmt> {
        match e {
            Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
            x => vec![Stmt::Expr(x.clone(), None)],
        }
    }

    fn rewrite_consumer(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(mc) = e else { return None };
        let name = mc.method.to_string();
        match (name.as_str(), mc.args.len()) {
            ("fold", 2) => {
                let c = closure(&mc.args[1])?;
                let (src, st) = pipeline(&mc.receiver)?;
                if c.inputs.len() != 2 {
                    return None;
                }
                let (accp, itp) = (c.inputs[0].clone(), c.inputs[1].clone());
                let accp = if let Pat::Type(t) = accp { (*t.pat).clone() } else { accp };
                let Pat::Ident(ai) = &accp else { return None };
                let acc = ai.ident.clone();
                let init = &mc.args[0];
                let mut body = Self::block_of(&c.body);
                let moved = matches!(body.last(), Some(Stmt::Expr(x, None)) if single_ident(x).as_deref() == Some(&acc.to_string()));
                if moved {
                    body.pop();
                } else {
                    let b = &c.body;
                    body = vec![parse_quote!(#acc = #b;)];
                }
                let itp = if let Pat::Type(t) = itp { (*t.pat).clone() } else { itp };
                let (_, loopst) = self.items_loop(&src, &itp, st, body)?;
                return Some(parse_quote!({ let mut #acc = #init; #(#loopst)* #acc }));
            }
            ("sum", 0) | ("count", 0) => {
                let (src, st) = pipeline(&mc.receiver)?;
                self.tmp += 1;
                let acc = ident(&format!("__a{}", self.tmp));
                let v = ident("__v");
                let body: Vec<Stmt> = if name == "sum" { vec![parse_quote!(#acc = #acc + #v;)] } else { vec![parse_quote!(#acc = #acc + 1;)] };
                let p: Pat = if name == "sum" { Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v.clone(), subpat: None }) } else { parse_quote!(_) };
                let (_, loopst) = self.items_loop(&src, &p, st, body)?;
                let ty: syn::Type = mc.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| if let syn::GenericArgument::Type(t) = a { Some(t.clone()) } else { None }).unwrap_or(parse_quote!(usize));
                return Some(parse_quote!({ let mut #acc: #ty = 0; #(#loopst)* #acc }));
            }
            ("collect", 0) => {
                if let Some(t) = &mc.turbofish {
                    let s = t.to_token_stream().to_string();
                    if !s.contains("Vec") {
                        return None;
                    }
                }
                let (src, st) = pipeline(&mc.receiver)?;
                self.tmp += 1;
                let acc = ident(&format!("__a{}", self.tmp));
                let v = ident("__v");
                let p: Pat = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v.clone(), subpat: None });
                let body: Vec<Stmt> = vec![parse_quote!(#acc.push(#v);)];
                let (_, loopst) = self.items_loop(&src, &p, st, body)?;
                return Some(parse_quote!({ let mut #acc = Vec::new(); #(#loopst)* #acc }));
            }
            ("all", 1) | ("any", 1) => {
                let c = closure(&mc.args[0])?;
                let (src, st) = pipeline(&mc.receiver)?;
                let p = c.inputs.first()?.clone();
                self.tmp += 1;
                let acc = ident(&format!("__a{}", self.tmp));
                let b = &c.body;
                let (init, body): (Expr, Vec<Stmt>) = if name == "all" { (parse_quote!(true), vec![parse_quote!(if !(#b) { #acc = false; })]) } else { (parse_quote!(false), vec![parse_quote!(if #b { #acc = true; })]) };
                let (_, loopst) = self.items_loop(&src, &p, st, body)?;
                return Some(parse_quote!({ let mut #acc: bool = #init; #(#loopst)* #acc }));
            }
            ("for_each", 1) => {
                let c = closure(&mc.args[0])?;
                let (src, st) = pipeline(&mc.receiver)?;
                let p = c.inputs.first()?.clone();
                let mut body = Self::block_of(&c.body);
                if let Some(Stmt::Expr(_, semi)) = body.last_mut() {
                    *semi = Some(Default::default());
                }
                let (_, loopst) = self.items_loop(&src, &p, st, body)?;
                return Some(parse_quote!({ #(#loopst)* }));
            }
            ("sort_by_key" | "sort_by_cached_key" | "sort_unstable_by_key" | "sort_by" | "sort_unstable_by", 1) => {
                // the keys are computed in a loop; v_sort_by_keys carries the contract of the sort
                let c = closure(&mc.args[0])?;
                let mut key = (*c.body).clone();
                let mut p = c.inputs.first()?.clone();
                if let Pat::Type(t) = &p {
                    p = (*t.pat).clone();
                }
                if name == "sort_by" || name == "sort_unstable_by" {
                    // |a, b| K(a).cmp(&K(b))
                    let (Pat::Ident(a), Pat::Ident(b)) = (c.inputs.first()?, c.inputs.iter().nth(1)?) else { return None };
                    let Expr::MethodCall(m) = strip_paren(&c.body) else { return None };
                    if m.method != "cmp" || m.args.len() != 1 {
                        return None;
                    }
                    let Expr::Reference(r) = &m.args[0] else { return None };
                    let mut other = (*r.expr).clone();
                    RenameIdent(b.ident.to_string(), a.ident.clone()).visit_expr_mut(&mut other);
                    if other.to_token_stream().to_string() != m.receiver.to_token_stream().to_string() {
                        return None;
                    }
                    key = (*m.receiver).clone();
                }
                self.tmp += 1;
                let acc = ident(&format!("__a{}", self.tmp));
                let recv = &mc.receiver;
                let src: Expr = parse_quote!(#recv.iter());
                let (src, st) = pipeline(&src)?;
                let body: Vec<Stmt> = vec![parse_quote!(#acc.push(#key);)];
                let (_, loopst) = self.items_loop(&src, &p, st, body)?;
                return Some(parse_quote!({ let mut #acc = Vec::new(); #(#loopst)* v_sort_by_keys(&mut #recv, #acc) }));
            }
            ("extend", 1) => {
                // buf.extend(PIPELINE) == for x in PIPELINE { buf.push(x) }
                let (src, st) = pipeline(&mc.args[0])?;
                if st.is_empty() {
                    return None;
                }
                let recv = &mc.receiver;
                let v = ident("__v");
                let p: Pat = parse_quote!(__v);
                let body: Vec<Stmt> = vec![parse_quote!(#recv.push(#v);)];
                let (_, loopst) = self.items_loop(&src, &p, st, body)?;
                return Some(parse_quote!({ #(#loopst)* }));
            }
            // Option / Result combinators
            ("unwrap_or_default", 0) | ("unwrap_or", 1) => {
                if let Expr::MethodCall(m2) = strip_paren(&mc.receiver) {
                    if m2.method == "map" && m2.args.len() == 1 && !is_pipeline(&m2.receiver) {
                        let c = closure(&m2.args[0])?;
                        let p = c.inputs.first()?.clone();
                        let r = &m2.receiver;
                        let b = &c.body;
                        let d: Expr = if name == "unwrap_or" { mc.args[0].clone() } else { parse_quote!(v_default()) };
                        return Some(parse_quote!(match #r { Some(#p) => #b, None => #d }));
                    }
                }
                if name == "unwrap_or_default" {
                    let r = &mc.receiver;
                    return Some(parse_quote!(match #r { Some(__v) => __v, None => v_default() }));
                }
                None
            }
            ("map_or", 2) if !is_pipeline(&mc.receiver) => {
                let c = closure(&mc.args[1])?;
                let p = c.inputs.first()?.clone();
                let (r, b, d) = (&mc.receiver, &c.body, &mc.args[0]);
                Some(parse_quote!(match #r { Some(#p) => #b, None => #d }))
            }
            ("map", 1) if !is_pipeline(&mc.receiver) => {
                let r = &mc.receiver;
                // Result or Option is not visible here: only closures over Options occur as
                // receivers of .as_ref()/.next()/.last()/.first()/.get() or plain variables
                if is_result_like(r) {
                    let p: Expr = mc.args[0].clone();
                    match strip_paren(&p) {
                        Expr::Closure(_) => {
                            let c = closure(&p)?;
                            let pt = c.inputs.first()?.clone();
                            let b = &c.body;
                            return Some(parse_quote!(match #r { Ok(#pt) => Ok(#b), Err(__e) => Err(__e) }));
                        }
                        f => return Some(parse_quote!(match #r { Ok(__v) => Ok(#f(__v)), Err(__e) => Err(__e) })),
                    }
                }
                let c = closure(&mc.args[0])?;
                let p = c.inputs.first()?.clone();
                let b = &c.body;
                Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None }))
            }
            ("map_err", 1) => {
                let r = &mc.receiver;
                match strip_paren(&mc.args[0]) {
                    Expr::Closure(_) => {
                        let c = closure(&mc.args[0])?;
                        let p = c.inputs.first()?.clone();
                        let b = &c.body;
                        Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }))
                    }
                    f => Some(parse_quote!(match #r { Ok(__v) => Ok(__v), Err(__e) => Err(#f(__e)) })),
                }
            }
            ("unwrap_or_else", 1) => {
                let c = closure(&mc.args[0])?;
                let r = &mc.receiver;
                let b = &c.body;
                if c.inputs.len() == 1 {
                    let p = c.inputs.first()?.clone();
                    Some(parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b }))
                } else {
                    Some(parse_quote!(match #r { Some(__v) => __v, None => #b }))
                }
            }
            ("ok_or", 1) => {
                let r = &mc.receiver;
                let b = &mc.args[0];
                Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
            }
            ("ok_or_else", 1) => {
                let c = closure(&mc.args[0])?;
                let r = &mc.receiver;
                let b = &c.body;
                Some(parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) }))
            }
            ("to_string", 0) | ("into_owned", 0) => {
                if let Expr::Call(c) = strip_paren(&mc.receiver) {
                    if path_last(&c.func).as_deref() == Some("from_utf8_lossy") {
                        let a = &c.args[0];
                        return Some(parse_quote!(v_utf8_lossy(#a)));
                    }
                }
                None
            }
            ("peekable", 0) => {
                if let Expr::MethodCall(m2) = strip_paren(&mc.receiver) {
                    if m2.method == "iter" {
                        let r = &m2.receiver;
                        return Some(parse_quote!(v_cursor((#r).v_iter())));
                    }
                }
                None
            }
            ("copy_from_slice", 1) | ("clone_from_slice", 1) => {
                if let Expr::Index(ix) = strip_paren(&mc.receiver) {
                    if let Expr::Range(r) = strip_paren(&ix.index) {
                        let base = &ix.expr;
                        let s = &mc.args[0];
                        let a: Expr = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                        let b: Expr = match (&r.end, &r.limits) {
                            (Some(e), syn::RangeLimits::HalfOpen(_)) => (**e).clone(),
                            (Some(e), _) => parse_quote!(#e + 1),
                            (None, _) => parse_quote!(#base.len()),
                        };
                        return Some(parse_quote!({ let __to = #b; #base.v_copy_range(#a, __to, #s) }));
                    }
                }
                None
            }
            ("append", 1) => {
                // buf.append(&mut TEMP) == buf.extend(TEMP)
                if let Expr::Reference(r) = strip_paren(&mc.args[0]) {
                    if r.mutability.is_some() && !matches!(strip_paren(&r.expr), Expr::Path(_) | Expr::Field(_)) {
                        let recv = &mc.receiver;
                        let x = &r.expr;
                        return Some(parse_quote!(#recv.extend(#x)));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn find_helper(&self, ty: Option<&str>, name: &str, any_ty: bool) -> Option<&'h Helper> {
        let c: Vec<&Helper> = self
            .helpers
            .iter()
            .filter(|h| h.name == name && (if any_ty { h.ty.is_some() } else { h.ty.as_deref() == ty }))
            .collect();
        if c.len() == 1 {
            return Some(c[0]).filter(|h| !h.blocked);
        }
        let d: Vec<&&Helper> = c.iter().filter(|h| h.module == self.module).collect();
        if d.len() == 1 && !c.iter().any(|h| h.blocked && any_ty) {
            return Some(d[0]).filter(|h| !h.blocked).copied();
        }
        None
    }

    /// Inline a call to a function that has no contract. `tail`: the call is the result of the
    /// calling function; `tried`: the call is followed by `?`.
    fn inline(&mut self, e: &Expr, tail: bool, tried: bool) -> Option<Expr> {
        if self.depth > 4 {
            return None;
        }
        let (h, recv, args): (&Helper, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(mc) => {
                let name = mc.method.to_string();
                let r = strip_paren(&mc.receiver).clone();
                let h = if single_ident(&r).as_deref() == Some("self") {
                    self.find_helper(self.self_ty.as_deref(), &name, false).or_else(|| if STD_NAMES.contains(&name.as_str()) { None } else { self.find_helper(None, &name, true) })
                } else if STD_NAMES.contains(&name.as_str()) {
                    return None;
                } else {
                    self.find_helper(None, &name, true)
                }?;
                if h.sig.receiver().is_none() || h.sig.inputs.len() != mc.args.len() + 1 {
                    return None;
                }
                (h, Some(r), mc.args.iter().cloned().collect())
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let name = segs.last()?.clone();
                let h = if segs.len() >= 2 {
                    let t = &segs[segs.len() - 2];
                    let t = if t == "Self" { self.self_ty.clone()? } else { t.clone() };
                    self.find_helper(Some(&t), &name, false).or_else(|| self.find_helper(None, &name, false))
                } else {
                    self.find_helper(None, &name, false)
                }?;
                if h.sig.receiver().is_some() || h.sig.inputs.len() != c.args.len() {
                    return None;
                }
                (h, None, c.args.iter().cloned().collect())
            }
            _ => return None,
        };
        if h.block.stmts.is_empty() {
            return None;
        }
        if block_has_exit(&h.block) && !tail {
            if !tried {
                return None;
            }
            let mut r = HasReturn(false);
            syn::visit::Visit::visit_block(&mut r, &h.block);
            if r.0 || !self.ret_result {
                return None;
            }
        }
        let mut block = h.block.clone();
        if let Some(r) = recv {
            if single_ident(&r).as_deref() != Some("self") {
                if !is_place(&r) {
                    return None;
                }
                let mut s = SubstSelf(r);
                s.visit_block_mut(&mut block);
            }
        }
        if let Some(t) = &h.ty {
            if Some(t) != self.self_ty.as_ref() {
                let mut s = SubstSelfTy(t.clone());
                s.visit_block_mut(&mut block);
            }
        }
        let mut pats: Vec<Pat> = vec![];
        let mut vals: Vec<Expr> = vec![];
        let params = h.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t) } else { None });
        for (p, a) in params.zip(args.into_iter()) {
            let is_mut_ref = matches!(&*p.ty, syn::Type::Reference(r) if r.mutability.is_some());
            if let (Pat::Ident(pi), Some(ai)) = (&*p.pat, single_ident(&a)) {
                if pi.ident == ai && pi.mutability.is_none() {
                    continue;
                }
            }
            if is_mut_ref {
                // reborrow by substitution: only for plain places
                let Pat::Ident(pi) = &*p.pat else { return None };
                let target: Expr = match strip_paren(&a) {
                    Expr::Reference(r) if r.mutability.is_some() && is_place(&r.expr) => {
                        let x = &r.expr;
                        parse_quote!((&mut #x))
                    }
                    x if is_place(x) => x.clone(),
                    _ => return None,
                };
                let mut s = SubstVar(pi.ident.to_string(), target);
                s.visit_block_mut(&mut block);
                continue;
            }
            if let Pat::Ident(pi) = &*p.pat {
                if pi.mutability.is_some() {
                    self.muts.push(pi.ident.to_string());
                }
            }
            let ty = &p.ty;
            pats.push((*p.pat).clone());
            if matches!(&**ty, syn::Type::ImplTrait(_)) {
                return None;
            }
            vals.push(a);
        }
        self.inlined.insert(format!("{}::{}", h.ty.clone().unwrap_or_default(), h.name));
        let stmts = &block.stmts;
        Some(if pats.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else if pats.len() == 1 {
            let (p, v) = (&pats[0], &vals[0]);
            parse_quote!({ let #p = #v; #(#stmts)* })
        } else {
            let tmps: Vec<syn::Ident> = (0..pats.len()).map(|i| { ident(&format!("__arg{}_{}", self.tmp, i)) }).collect();
            self.tmp += 1;
            parse_quote!({ #(let #tmps = #vals;)* #(let #pats = #tmps;)* #(#stmts)* })
        })
    }

    fn visit_tail(&mut self, e: &mut Expr) {
        // calls in tail position may be inlined with their early returns
        if let Some(n) = self.inline(&e.clone(), true, false) {
            *e = n;
            self.depth += 1;
            if let Expr::Block(b) = e {
                self.visit_tail_block(&mut b.block);
            }
            self.depth -= 1;
            return;
        }
        self.visit_expr_mut(e);
    }

    pub fn visit_tail_block(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !droppable(s));
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if i + 1 == n {
                if let Stmt::Expr(e, None) = s {
                    self.visit_tail(e);
                    continue;
                }
            }
            self.visit_stmt_mut(s);
        }
    }
}

/// Method names std types have too: never taken for a helper of this crate by name alone.
const STD_NAMES: &[&str] = &["len", "is_empty", "iter", "iter_mut", "into_iter", "push", "insert", "get", "new", "from", "into", "as_slice", "as_ref", "clone", "extend", "append", "first", "last", "contains", "remove", "next", "take", "map", "inner", "key", "set", "to_vec", "position", "advance", "name", "cmp"];

fn is_result_like(e: &Expr) -> bool {
    // fallible calls of this crate all have these names
    match strip_paren(e) {
        Expr::MethodCall(mc) => {
            let n = mc.method.to_string();
            n.starts_with("extract") || n == "try_into" || n == "map_err" || n == "sub_buffer" || n == "peek_bytes" || n == "ok_or" || n == "ok_or_else"
        }
        Expr::Call(c) => matches!(path_last(&c.func).as_deref(), Some("try_from") | Some("from_utf8")),
        _ => false,
    }
}

pub fn is_place(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(p) => p.qself.is_none(),
        Expr::Field(f) => is_place(&f.base),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        _ => false,
    }
}

struct SubstSelf(Expr);
impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if single_ident(e).as_deref() == Some("self") {
            *e = self.0.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct SubstVar(String, Expr);
impl VisitMut for SubstVar {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if single_ident(e).as_deref() == Some(self.0.as_str()) {
            *e = self.1.clone();
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct SubstSelfTy(String);
impl VisitMut for SubstSelfTy {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(f) = p.segments.first_mut() {
            if f.ident == "Self" {
                f.ident = ident(&self.0);
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

struct RenameIdent(String, syn::Ident);
impl VisitMut for RenameIdent {
    fn visit_ident_mut(&mut self, i: &mut syn::Ident) {
        if *i == self.0 {
            *i = self.1.clone();
        }
    }
}

fn droppable(s: &Stmt) -> bool {
    match s {
        Stmt::Macro(m) => {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            matches!(n.as_str(), "println" | "print" | "eprintln" | "eprint" | "dbg" | "debug_assert" | "debug_assert_eq" | "debug_assert_ne")
        }
        Stmt::Item(syn::Item::Use(_)) => false,
        Stmt::Expr(Expr::Tuple(t), Some(_)) => t.elems.is_empty(),
        _ => false,
    }
}

const METHOD_RENAMES: &[(&str, &str)] = &[
    ("try_into", "v_try_into"),
    ("into", "v_into"),
    ("extend", "v_extend"),
    ("to_be_bytes", "v_to_be_bytes"),
    ("next", "v_next"),
    ("cmp", "v_cmp"),
    ("fill", "v_fill"),
    ("resize", "v_resize"),
    ("expect", "v_expect"),
    ("unwrap", "v_unwrap"),
    ("octets", "v_octets"),
    ("to_vec", "v_to_vec"),
    ("binary_search", "v_binary_search"),
    ("sort", "v_sort"),
    ("sort_unstable", "v_sort"),
    ("clone", "v_clone"),
    ("as_bytes", "v_as_bytes"),
    ("as_ref", "v_as_ref"),
];
const PATH_RENAMES: &[(&str, &str)] = &[
    ("try_from", "v_try_from"),
    ("try_into", "v_try_into"),
    ("from", "v_from"),
    ("into", "v_into"),
    ("from_be_bytes", "v_from_be_bytes"),
    ("to_be_bytes", "v_to_be_bytes"),
    ("from_utf8", "v_from_utf8"),
    ("cmp", "v_cmp"),
];
pub fn rename_fn(n: &str) -> String {
    for (a, b) in PATH_RENAMES {
        if *a == n {
            return b.to_string();
        }
    }
    n.to_string()
}
pub fn rename_trait(n: &str) -> Option<&'static str> {
    Some(match n {
        "TryFrom" => "VTryFrom",
        "TryInto" => "VTryInto",
        "From" => "VFrom",
        "Into" => "VInto",
        "Ord" => "VOrd",
        "Display" => "VDisplay",
        _ => return None,
    })
}
/// std::fmt::Formatter and std::fmt::Result become the stand-ins of the prelude
pub fn rename_fmt(p: &mut syn::Path) {
    let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    if s.last().map(String::as_str) == Some("Formatter") {
        *p = parse_quote!(VFormatter);
    } else if s.len() >= 2 && s[s.len() - 2] == "fmt" && s[s.len() - 1] == "Result" {
        *p = parse_quote!(VFmtResult);
    }
}
/// write!(f, "..", ..) with plain `{}` or `{name}` pieces: one call per piece
fn write_macro(m: &syn::Macro) -> Option<Expr> {
    let args = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
    let mut it = args.into_iter();
    let f = it.next()?;
    let fmt = match it.next() {
        None => String::new(),
        Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
        _ => return None,
    };
    let mut st: Vec<Stmt> = vec![];
    let mut lit: Vec<u8> = vec![];
    let flush = |lit: &mut Vec<u8>, st: &mut Vec<Stmt>| {
        if !lit.is_empty() {
            let b = lit.iter().map(|x| syn::LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()));
            st.push(parse_quote!((#f).v_put(&[#(#b),*])?;));
            lit.clear();
        }
    };
    let cs: Vec<char> = fmt.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if (cs[i] == '{' || cs[i] == '}') && cs.get(i + 1) == Some(&cs[i]) {
            lit.push(cs[i] as u8);
            i += 2;
        } else if cs[i] == '{' {
            let j = (i..cs.len()).find(|j| cs[*j] == '}')?;
            let name: String = cs[i + 1..j].iter().collect();
            let x: Expr = if name.is_empty() { it.next()? } else { syn::parse_str(&name).ok().filter(|x| matches!(x, Expr::Path(_)))? };
            flush(&mut lit, &mut st);
            st.push(parse_quote!((#f).v_disp(&(#x))?;));
            i = j + 1;
        } else {
            lit.extend(cs[i].to_string().bytes());
            i += 1;
        }
    }
    if m.path.is_ident("writeln") {
        lit.push(10);
    }
    flush(&mut lit, &mut st);
    Some(parse_quote!({ #(#st)* Ok::<(), VFmtError>(()) }))
}

impl<'h> VisitMut for Desugar<'h> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !droppable(s));
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        l.attrs.clear();
        if let Pat::Ident(i) = &l.pat {
            if i.mutability.is_some() && !i.ident.to_string().starts_with("__i") {
                self.muts.push(i.ident.to_string());
            }
        } else if let Pat::Type(t) = &l.pat {
            if let Pat::Ident(i) = &*t.pat {
                if i.mutability.is_some() {
                    self.muts.push(i.ident.to_string());
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        for s in p.segments.iter_mut() {
            if let Some(n) = rename_trait(&s.ident.to_string()) {
                s.ident = ident(n);
            }
        }
        rename_fmt(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_item_mut(&mut self, _: &mut syn::Item) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // inlining of functions without a contract
        if let Expr::Try(t) = e {
            if let Some(n) = self.inline(&strip_paren(&t.expr).clone(), false, true) {
                // `{ ..; Ok(x) }?` is `{ ..; x }`
                let mut n = n;
                let mut peeled = false;
                if let Expr::Block(b) = &mut n {
                    if let Some(Stmt::Expr(Expr::Call(c), None)) = b.block.stmts.last_mut() {
                        if path_last(&c.func).as_deref() == Some("Ok") && c.args.len() == 1 {
                            let x = c.args[0].clone();
                            *b.block.stmts.last_mut().unwrap() = Stmt::Expr(x, None);
                            peeled = true;
                        }
                    }
                }
                *e = if peeled { n } else { parse_quote!(#n?) };
                self.depth += 1;
                self.visit_expr_mut(e);
                self.depth -= 1;
                return;
            }
        }
        if let Some(n) = self.inline(&e.clone(), false, false) {
            *e = n;
            self.depth += 1;
            self.visit_expr_mut(e);
            self.depth -= 1;
            return;
        }
        // std idioms
        if let Some(n) = self.rewrite_consumer(e) {
            *e = n;
            // loops created above are already numbered: mark by their macro
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Call(c) = e {
            if path_last(&c.func).as_deref() == Some("from_utf8_lossy") && c.args.len() == 1 {
                c.func = Box::new(parse_quote!(v_utf8_lossy));
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("write") || m.mac.path.is_ident("writeln") {
                if let Some(n) = write_macro(&m.mac) {
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            if (mc.method == "write_str" || mc.method == "write_char") && mc.args.len() == 1 {
                let (r, a) = (&mc.receiver, &mc.args[0]);
                let s = match a {
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Char(c), .. }) => Some(c.value().to_string()),
                    _ => None,
                };
                let n: Expr = match s {
                    Some(s) => {
                        let b = s.bytes().map(|x| syn::LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()));
                        parse_quote!((#r).v_put(&[#(#b),*]))
                    }
                    None => parse_quote!((#r).v_disp(#a)),
                };
                *e = n;
                self.visit_expr_mut(e);
                return;
            }
        }
        match e {
            Expr::ForLoop(f) => {
                let body = f.body.stmts.clone();
                let mut n: Option<Vec<Stmt>> = None;
                match strip_paren(&f.expr) {
                    Expr::Range(r) => n = self.range_loop(&r.clone(), &f.pat.clone(), body),
                    x => {
                        if let Some((src, st)) = pipeline(x) {
                            n = self.items_loop(&src, &f.pat.clone(), st, body).map(|r| r.1);
                        } else if !matches!(x, Expr::MethodCall(_) | Expr::Call(_)) {
                            n = self.items_loop(&x.clone(), &f.pat.clone(), vec![], body).map(|r| r.1);
                        }
                    }
                }
                if let Some(st) = n {
                    *e = parse_quote!({ #(#st)* });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::While(w) => {
                let marked = matches!(w.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vloop"));
                if !marked {
                    if let Expr::Let(l) = &*w.cond {
                        // while let P = E { B }  ==  loop { if let P = E { B } else { break } }
                        let k = self.fresh_loop(AutoLoop::Native);
                        let (p, x) = (&l.pat, &l.expr);
                        let b = &w.body.stmts;
                        let st: Vec<Stmt> = vec![parse_quote!(__vlbefore!(#k);), parse_quote!(loop { __vloop!(#k); if let #p = #x { #(#b)* __vltail!(#k); } else { break; } }), parse_quote!(__vlafter!(#k);)];
                        *e = parse_quote!({ #(#st)* });
                        self.visit_expr_mut(e);
                        return;
                    }
                    let k = self.fresh_loop(AutoLoop::Native);
                    w.body.stmts.insert(0, parse_quote!(__vloop!(#k);));
                    w.body.stmts.push(parse_quote!(__vltail!(#k);));
                    let w2 = w.clone();
                    let st: Vec<Stmt> = vec![parse_quote!(__vlbefore!(#k);), Stmt::Expr(Expr::While(w2), None), parse_quote!(__vlafter!(#k);)];
                    *e = parse_quote!({ #(#st)* });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Loop(l) => {
                let marked = matches!(l.body.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.is_ident("__vloop"));
                if !marked && l.label.is_none() {
                    // loop { if C { break; } B }  ==  while !C { B }   (B without break)
                    if let Some(Stmt::Expr(Expr::If(i), _)) = l.body.stmts.first() {
                        let only_break = i.then_branch.stmts.len() == 1
                            && matches!(&i.then_branch.stmts[0], Stmt::Expr(Expr::Break(b), _) if b.label.is_none() && b.expr.is_none());
                        let rest: Vec<Stmt> = l.body.stmts[1..].to_vec();
                        if only_break && i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && !breaks(&rest) {
                            let c = negate(&i.cond);
                            *e = parse_quote!(while #c { #(#rest)* });
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
                if !marked {
                    let k = self.fresh_loop(AutoLoop::Native);
                    l.body.stmts.insert(0, parse_quote!(__vloop!(#k);));
                    l.body.stmts.push(parse_quote!(__vltail!(#k);));
                    let l2 = l.clone();
                    let st: Vec<Stmt> = vec![parse_quote!(__vlbefore!(#k);), Stmt::Expr(Expr::Loop(l2), None)];
                    *e = parse_quote!({ #(#st)* });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Unsafe(u) => {
                // unsafe { transmute(x) } of a one-byte enum or bool is its code
                if u.block.stmts.len() == 1 {
                    if let Stmt::Expr(Expr::Call(c), None) = &u.block.stmts[0] {
                        if path_last(&c.func).as_deref() == Some("transmute") {
                            let a = &c.args[0];
                            *e = parse_quote!(v_transmute(#a));
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            Expr::Cast(c) => {
                if let syn::Type::Reference(r) = &*c.ty {
                    if r.mutability.is_some() && matches!(&*r.elem, syn::Type::Infer(_)) {
                        let x = &c.expr;
                        *e = parse_quote!(&mut *#x);
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            Expr::Reference(r) => {
                // slices with an open or inclusive range
                if r.mutability.is_none() {
                    if let Expr::Index(ix) = strip_paren(&r.expr) {
                        if let Expr::Range(rg) = strip_paren(&ix.index) {
                            let base = &ix.expr;
                            if !is_place(base) && !matches!(strip_paren(base), Expr::Index(_)) {
                                let a: Expr = rg.start.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                                *e = match (&rg.end, &rg.limits) {
                                    (None, _) => parse_quote!((#base).v_slice_from(#a)),
                                    (Some(b), syn::RangeLimits::Closed(_)) => parse_quote!((#base).v_slice(#a, #b + 1)),
                                    (Some(b), _) => parse_quote!((#base).v_slice(#a, #b)),
                                };
                                self.visit_expr_mut(e);
                                return;
                            }
                            match (&rg.start, &rg.end, &rg.limits) {
                                (None, None, _) => {
                                    *e = parse_quote!(&#base[0..]);
                                    self.visit_expr_mut(e);
                                    return;
                                }
                                (a, Some(b), syn::RangeLimits::Closed(_)) => {
                                    let a: Expr = a.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote!(0));
                                    *e = parse_quote!(&#base[#a..#b + 1]);
                                    self.visit_expr_mut(e);
                                    return;
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().cloned().unwrap_or_default();
                    if last == "size_of" && c.args.is_empty() {
                        if let syn::PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                            if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                                if let Some(n) = int_size(t) {
                                    *e = parse_quote!(#n);
                                    return;
                                }
                                if let (syn::Type::Path(tp), Some(st)) = (t, &self.self_ty) {
                                    if tp.path.is_ident("Self") && st == "Header" {
                                        *e = parse_quote!(HEADER_LAYOUT_SIZE);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    if last == "take" && segs.len() >= 2 && segs[segs.len() - 2] == "mem" {
                        p.path = parse_quote!(v_take);
                    } else if last == "default" && segs.len() == 2 && (segs[0] == "Vec" || segs[0] == "BTreeSet" || segs[0] == "HashMap") {
                        p.path.segments.last_mut().unwrap().ident = ident("new");
                    } else if last == "default" {
                        p.path.segments.last_mut().unwrap().ident = ident("v_default");
                        if segs.len() == 2 && segs[0] == "Default" {
                            p.path = parse_quote!(VDefault::v_default);
                        }
                    } else {
                        let n = rename_fn(&last);
                        if segs.len() >= 2 && n != last {
                            p.path.segments.last_mut().unwrap().ident = ident(&n);
                        }
                    }
                }
            }
            Expr::MethodCall(mc) => {
                let n = mc.method.to_string();
                if n == "unwrap" {
                    // unwrap keeps its meaning (Verus checks that it cannot fail)
                }
                for (a, b) in METHOD_RENAMES {
                    if *a == n {
                        mc.method = ident(b);
                    }
                }
                if n == "insert" && mc.args.len() == 1 {
                    mc.method = ident("v_insert");
                }
                if n == "iter" && mc.args.is_empty() {
                    let r = mc.receiver.clone();
                    *e = parse_quote!(v_cursor((#r).v_iter()));
                    self.visit_expr_mut(e);
                    return;
                }
            }
            Expr::Binary(b) => {
                for side in [&mut b.left, &mut b.right] {
                    if let Some(i) = single_ident(strip_paren(side)) {
                        let arith = matches!(
                            b.op,
                            syn::BinOp::Add(_) | syn::BinOp::Sub(_) | syn::BinOp::Mul(_) | syn::BinOp::Div(_) | syn::BinOp::Rem(_)
                                | syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::BitXor(_) | syn::BinOp::Shl(_) | syn::BinOp::Shr(_)
                        );
                        if arith && self.items.contains(&i) {
                            let x = side.clone();
                            **side = parse_quote!((*#x));
                        }
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // `ref x` under a default binding mode is `x`
        if let Pat::Ident(i) = p {
            i.by_ref = None;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
#[allow(dead_code)]
fn _unused(e: &Expr) -> bool {
    is_int_lit(e)
}
