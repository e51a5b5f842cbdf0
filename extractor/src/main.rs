//! vx FILE...: prints, as JSON, every function and type of the given Rust files after the
//! mechanical rewrites listed in REWRITES (see DESIGN.md), one token-normalised line per statement.
//! Nothing here knows any particular function of the code under test.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use syn::{
    parse::Parser, parse_quote, punctuated::Punctuated, spanned::Spanned, visit::Visit, visit_mut::VisitMut, *,
};

// ------------------------------------------------------------------ printing
/// token stream to lines: a new line before and after braces, after `;`, and after `,` directly in braces
fn print(ts: TokenStream) -> Vec<String> {
    fn go(ts: TokenStream, out: &mut Vec<String>, in_brace: bool) {
        let mut joint = false;
        for t in ts {
            let nl = |out: &mut Vec<String>| {
                if !out.last().unwrap().is_empty() {
                    out.push(String::new())
                }
            };
            match t {
                TokenTree::Group(g) => {
                    joint = false;
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                        Delimiter::Brace => {
                            nl(out);
                            out.last_mut().unwrap().push('{');
                            out.push(String::new());
                            go(g.stream(), out, true);
                            nl(out);
                            out.last_mut().unwrap().push('}');
                            out.push(String::new());
                            continue;
                        }
                    };
                    word(out, a, false);
                    go(g.stream(), out, false);
                    word(out, b, false);
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    word(out, &c.to_string(), joint);
                    joint = p.spacing() == Spacing::Joint || c == '\'';
                    if c == ';' || (c == ',' && in_brace) {
                        out.push(String::new());
                    }
                }
                x => {
                    word(out, &x.to_string(), joint);
                    joint = false;
                }
            }
        }
    }
    fn word(out: &mut Vec<String>, s: &str, glue: bool) {
        let l = out.last_mut().unwrap();
        if !l.is_empty() && !glue {
            l.push(' ');
        }
        l.push_str(s);
    }
    let mut out = vec![String::new()];
    go(ts, &mut out, false);
    // joint tokens that begin a new line
    out.retain(|x| !x.is_empty());
    out
}

// ------------------------------------------------------------------ rewriting
const RENAME: &[&str] = &[
    "iter", "into_iter", "iter_mut", "to_vec", "into", "last", "first", "last_mut", "splice", "peekable", "windows", "unwrap_or_default", "min", "max",
    "cloned", "copied", "collect", "by_ref", "is_sorted", "saturating_add", "saturating_sub", "to_string", "extend", "extend_from_slice",
    "contains", "any", "lock", "as_ref", "as_mut", "map_err", "ok_or_else", "and_then", "drain", "find", "position", "retain", "to_owned", "sum", "take", "is_some_and",
    "unwrap_or", "unwrap_or_else", "map_or", "filter", "filter_map", "flat_map", "get_or_insert_with", "swap", "truncate", "is_subset", "is_disjoint", "insert", "remove", "all", "get", "contains_key", "fetch_add", "fetch_sub", "rev",
    "chain", "union", "cmp", "partial_cmp", "eq", "as_slice", "as_mut_slice", "reverse", "fold", "unwrap", "expect", "read_to_end", "finish", "write_all", "push_front", "skip", "zip", "enumerate", "map", "ok", "for_each", "split_last", "split_first", "binary_search",
];

#[derive(Default)]
struct Rw {
    loops: usize,
    closures: usize,
    specs: Vec<Option<String>>,
    breaks: usize,
    dropped: Vec<String>,
}
fn is_cfg_off(a: &Attribute) -> bool {
    let s = a.to_token_stream().to_string();
    s.contains("cfg") && (s.contains("metrics") || s.contains("test"))
}
fn mac_name(m: &Macro) -> String {
    m.path.segments.last().unwrap().ident.to_string()
}
fn is_trace(m: &Macro) -> bool {
    m.path.segments.len() > 1 && m.path.segments[0].ident == "tracing"
        || matches!(mac_name(m).as_str(), "trace" | "debug" | "info" | "warn" | "println" | "eprintln")
}
fn args(m: &Macro) -> Vec<Expr> {
    Punctuated::<Expr, Token![,]>::parse_terminated.parse2(m.tokens.clone()).map(|x| x.into_iter().collect()).unwrap_or_default()
}
fn stmts(ts: TokenStream) -> Vec<Stmt> {
    Block::parse_within.parse2(ts).unwrap()
}
/// closure bodies that can be repeated in a specification
struct SpecAble(bool);
impl<'a> Visit<'a> for SpecAble {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::If(i) => {
                self.0 &= i.else_branch.is_some() && i.then_branch.stmts.len() == 1;
            }
            Expr::Block(b) => self.0 &= b.block.stmts.len() == 1 && matches!(b.block.stmts[0], Stmt::Expr(_, None)),
            Expr::Macro(_) | Expr::Try(_) | Expr::Assign(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)
            | Expr::Closure(_) | Expr::Return(_) | Expr::Verbatim(_) => self.0 = false,
            Expr::Reference(r) if r.mutability.is_some() => self.0 = false,
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::MulAssign(_)) => self.0 = false,
            _ => {}
        }
        visit::visit_expr(self, e)
    }
}
struct HasBreakValue(bool);
impl<'a> Visit<'a> for HasBreakValue {
    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
        self.0 |= b.expr.is_some();
    }
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct SetBreak(Ident);
impl VisitMut for SetBreak {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(b) if b.expr.is_some() => {
                let v = b.expr.take().unwrap();
                let i = &self.0;
                *e = parse_quote!({ #i = #v; break; });
            }
            Expr::Loop(_) | Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }
}
/// the first loop with a value in evaluation position of `e`
fn find_loop(e: &mut Expr) -> Option<&mut Expr> {
    match e {
        Expr::Loop(l) => {
            let mut h = HasBreakValue(false);
            h.visit_block(&l.body);
            if h.0 {
                Some(e)
            } else {
                None
            }
        }
        Expr::Call(c) => c.args.first_mut().and_then(find_loop),
        Expr::Paren(p) => find_loop(&mut p.expr),
        _ => None,
    }
}
/// the scope of `let x = y.transaction();` or `let x = y.lock();`: Deref and Drop of x are written out
struct Tx(Ident, bool);
impl Tx {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(&self.0))
    }
}
fn leave(m: &Macro) -> Option<Stmt> {
    let a = args(m);
    match mac_name(m).as_str() {
        "ensure" => {
            let c = &a[0];
            Some(parse_quote!(if !(#c) { return Err(vx_err()); }))
        }
        "bail" => Some(parse_quote!(return Err(vx_err());)),
        _ => None,
    }
}
impl VisitMut for Tx {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let x = self.0.clone();
        if let Expr::Macro(m) = e {
            match leave(&m.mac) {
                Some(Stmt::Expr(l, _)) => *e = l,
                _ => {}
            }
        }
        match e {
            Expr::Closure(_) => return,
            // a guard
            Expr::Unary(u) if self.1 && matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = parse_quote!(#x.g);
                return;
            }
            Expr::Path(_) if self.1 && self.is(e) => {
                *e = parse_quote!(#x.g);
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                m.receiver = if m.method == "commit" { parse_quote!(vx_unsupported()) } else { parse_quote!(#x.vx_deref_mut()) };
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Reference(r) if self.is(&r.expr) => {
                *e = parse_quote!(#x.vx_deref_mut());
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Try(t) => {
                let t = &t.expr;
                *e = parse_quote!(match #t { Ok(vxv) => vxv, Err(vxe) => { #x.vx_drop(); return Err(vxe); } });
            }
            Expr::Return(r) => {
                let v = &r.expr;
                *e = parse_quote!({ let vxr = #v; #x.vx_drop(); return vxr; });
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(l) = leave(&m.mac) {
                *s = l;
            }
        }
        visit_mut::visit_stmt_mut(self, s)
    }
}
fn transactions(b: &mut Block) {
    let mut cur: Option<Tx> = None;
    let mut out = vec![];
    for mut s in std::mem::take(&mut b.stmts) {
        if let Some(t) = &mut cur {
            if let Stmt::Expr(Expr::Call(c), _) = &s {
                if t.1 && c.args.len() == 1 && t.is(&c.args[0]) && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "drop") {
                    let x = &t.0;
                    out.extend(stmts(quote!(#x.vx_drop();)));
                    cur = None;
                    continue;
                }
            }
            if let Stmt::Expr(Expr::MethodCall(m), _) = &s {
                if t.is(&m.receiver) && m.method == "commit" {
                    out.push(s);
                    cur = None;
                    continue;
                }
            }
            t.visit_stmt_mut(&mut s);
        } else if let Stmt::Local(l) = &s {
            if let (Pat::Ident(x), Some(i)) = (&l.pat, &l.init) {
                if let Expr::MethodCall(m) = &*i.expr {
                    if m.method == "transaction" && m.args.is_empty() {
                        cur = Some(Tx(x.ident.clone(), false));
                    } else if m.method == "lock" && m.args.is_empty() {
                        cur = Some(Tx(x.ident.clone(), true));
                        let r = &m.receiver;
                        let x = &l.pat;
                        s = parse_quote!(let #x = #r.vx_guard(););
                    }
                }
            }
        }
        out.push(s);
    }
    if let Some(Tx(x, _)) = cur {
        match out.pop() {
            Some(Stmt::Expr(e, None)) => out.extend(stmts(quote!(let vxr = #e; #x.vx_drop(); vxr))),
            Some(s) => {
                out.push(s);
                out.extend(stmts(quote!(#x.vx_drop();)));
            }
            None => {}
        }
    }
    b.stmts = out;
}
/// does a closure borrow something mutably that it captures?
fn changes_captured(c: &ExprClosure) -> bool {
    struct F(BTreeSet<String>, BTreeSet<String>);
    impl<'a> Visit<'a> for F {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
        }
        fn visit_expr_reference(&mut self, r: &'a ExprReference) {
            if let (Some(_), Expr::Path(p)) = (&r.mutability, &*r.expr) {
                if let Some(i) = p.path.get_ident() {
                    self.1.insert(i.to_string());
                }
            }
            visit::visit_expr_reference(self, r)
        }
    }
    let mut f = F(Default::default(), Default::default());
    f.visit_expr_closure(c);
    f.1.difference(&f.0).next().is_some()
}
/// the statements of a closure that may end early by ?, as an expression
fn tries(b: &[Stmt]) -> Expr {
    struct T(bool);
    impl<'a> Visit<'a> for T {
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_macro(&mut self, m: &'a Macro) {
            self.0 |= matches!(mac_name(m).as_str(), "ensure" | "bail");
        }
    }
    let early = |e: &Stmt| {
        let mut t = T(false);
        t.visit_stmt(e);
        t.0
    };
    let Some((s, rest)) = b.split_first() else { return parse_quote!(()) };
    let (p, x): (Pat, &Expr) = match s {
        Stmt::Expr(Expr::Try(t), Some(_)) => (parse_quote!(_), &t.expr),
        Stmt::Local(l) if matches!(l.init.as_ref().map(|i| &*i.expr), Some(Expr::Try(_))) => match l.init.as_ref().map(|i| &*i.expr) {
            Some(Expr::Try(t)) => (l.pat.clone(), &t.expr),
            _ => unreachable!(),
        },
        s if early(s) => return parse_quote!(vx_unsupported()),
        Stmt::Expr(e, None) if rest.is_empty() => return e.clone(),
        s => {
            let r = tries(rest);
            return parse_quote!({ #s #r });
        }
    };
    if early(&Stmt::Expr(x.clone(), None)) {
        return parse_quote!(vx_unsupported());
    }
    let r = tries(rest);
    parse_quote!(match #x { Ok(#p) => { #r } Err(vxe) => Err(vxe) })
}
fn ends_flow(m: &str) -> bool {
    matches!(m, "panic" | "unreachable" | "unimplemented" | "todo")
}
impl Rw {
    fn lift(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let target = match &mut s {
                Stmt::Expr(e, _) => find_loop(e),
                Stmt::Local(l) => l.init.as_mut().and_then(|i| find_loop(&mut i.expr)),
                _ => None,
            };
            if let Some(t) = target {
                let v = format_ident!("vxb{}", self.breaks);
                self.breaks += 1;
                let mut l = std::mem::replace(t, parse_quote!(#v));
                if let Expr::Loop(l) = &mut l {
                    SetBreak(v.clone()).visit_block_mut(&mut l.body);
                }
                out.extend(stmts(quote!(let #v; #l)));
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn macro_expr(&mut self, m: &Macro) -> Option<TokenStream> {
        let a = args(m);
        Some(match mac_name(m).as_str() {
            "assert" | "debug_assert" => {
                let c = self.sub(&a[0]);
                quote!(vx_assert(#c))
            }
            "assert_eq" | "debug_assert_eq" => {
                let (x, y) = (self.sub(&a[0]), self.sub(&a[1]));
                quote!(vx_assert(#x == #y))
            }
            "ensure" => {
                let c = self.sub(&a[0]);
                quote!(if !(#c) { return Err(vx_err()); })
            }
            "bail" => quote!(return Err(vx_err())),
            "anyhow" => quote!(vx_err()),
            "format" => quote!(vx_string()),
            x if ends_flow(x) => quote!(vx_panic()),
            "vec" | "smallvec" => {
                let s = m.tokens.to_string();
                if s.is_empty() {
                    quote!(Vec::new())
                } else if let Ok(r) = parse2::<ExprRepeat>({
                    let t = &m.tokens;
                    quote!([#t])
                }) {
                    let (x, n) = (self.sub(&r.expr), self.sub(&r.len));
                    quote!(vx_repeat(#x, #n))
                } else {
                    let xs: Vec<_> = a.iter().map(|x| self.sub(x)).collect();
                    let f = format_ident!("vx_vec{}", xs.len());
                    quote!(#f(#(#xs),*))
                }
            }
            "matches" => {
                return None;
            }
            _ => return None,
        })
    }
    fn sub(&mut self, e: &Expr) -> Expr {
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        e
    }
}
fn strip_path(p: &mut Path) {
    p.leading_colon = None;
    let upper = |s: &PathSegment| s.ident.to_string().chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
    // drop leading module segments
    while p.segments.len() > 1 {
        let first = p.segments[0].clone();
        let mods = !upper(&first);
        let prim = matches!(first.ident.to_string().as_str(), "u64" | "u32" | "usize" | "i32" | "isize" | "u8" | "u128" | "i64" | "f64");
        if mods && !prim {
            let name = first.ident.to_string();
            if p.segments.len() == 2 && !upper(&p.segments[1]) && !matches!(name.as_str(), "crate" | "self" | "super") {
                // module function: keep the module in the name
                let mut s = p.segments[1].clone();
                s.ident = format_ident!("vx_{}_{}", name, s.ident);
                p.segments = Some(s).into_iter().collect();
                return;
            }
            p.segments = p.segments.iter().skip(1).cloned().collect();
        } else {
            break;
        }
    }
}
impl VisitMut for Rw {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        strip_path(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let item_of = |b: &Punctuated<TypeParamBound, Token![+]>| -> Option<Type> {
            for x in b {
                if let TypeParamBound::Trait(x) = x {
                    let s = x.path.segments.last()?;
                    if s.ident == "Iterator" || s.ident == "IntoIterator" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args {
                                if let GenericArgument::AssocType(a) = g {
                                    return Some(a.ty.clone());
                                }
                            }
                        }
                    }
                }
            }
            None
        };
        match t {
            Type::ImplTrait(i) => {
                if let Some(x) = item_of(&i.bounds) {
                    *t = parse_quote!(It<#x>);
                }
            }
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap().clone();
                if s.ident == "Peekable" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(Type::Path(q))) = a.args.first() {
                            let q = q.path.segments.last().unwrap();
                            if let (true, PathArguments::AngleBracketed(x)) = (q.ident == "It", &q.arguments) {
                                let x = x.args.first().unwrap();
                                *t = parse_quote!(Peek<#x>);
                            }
                        }
                    }
                } else if s.ident == "SmallVec" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        if let Some(GenericArgument::Type(Type::Array(x))) = a.args.first() {
                            let x = &x.elem;
                            *t = parse_quote!(Vec<#x>);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_visibility_mut(&mut self, v: &mut Visibility) {
        if !matches!(v, Visibility::Inherited) {
            *v = parse_quote!(pub);
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        transactions(b);
        self.lift(b);
        let mut out = vec![];
        let mut spans = BTreeSet::new();
        for s in std::mem::take(&mut b.stmts) {
            let (attrs, mac): (&[Attribute], Option<&Macro>) = match &s {
                Stmt::Local(l) => (&l.attrs, None),
                Stmt::Macro(m) => (&m.attrs, Some(&m.mac)),
                Stmt::Expr(Expr::Macro(m), _) => (&m.attrs, Some(&m.mac)),
                Stmt::Expr(Expr::Block(m), _) => (&m.attrs, None),
                Stmt::Expr(Expr::If(m), _) => (&m.attrs, None),
                Stmt::Expr(Expr::MethodCall(m), _) => (&m.attrs, None),
                Stmt::Expr(Expr::Call(m), _) => (&m.attrs, None),
                Stmt::Item(Item::Macro(_)) | Stmt::Item(Item::Use(_)) => continue,
                _ => (&[], None),
            };
            // let span = tracing::..!(..); let _entered = span.enter();
            let off = match &s {
                Stmt::Local(Local { pat: Pat::Ident(p), init: Some(i), .. }) => {
                    let t = match &*i.expr {
                        Expr::Macro(m) => is_trace(&m.mac),
                        Expr::MethodCall(m) => matches!(&*m.receiver, Expr::Path(r) if r.path.get_ident().map(|x| spans.contains(&x.to_string())).unwrap_or(false)),
                        _ => false,
                    };
                    if t {
                        spans.insert(p.ident.to_string());
                    }
                    t
                }
                _ => false,
            };
            if off || attrs.iter().any(is_cfg_off) || mac.map(is_trace).unwrap_or(false) {
                self.dropped.push(s.to_token_stream().to_string());
                continue;
            }
            if let Some(m) = mac {
                if let Some(t) = self.macro_expr(m) {
                    let semi = match &s {
                        Stmt::Macro(m) => m.semi_token.is_some(),
                        Stmt::Expr(_, semi) => semi.is_some(),
                        _ => true,
                    };
                    let e = Expr::Verbatim(t);
                    let braced = mac_name(m) == "ensure";
                    out.push(Stmt::Expr(e, if semi && !braced { Some(Default::default()) } else { None }));
                    continue;
                }
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            // loops print their own block
            if let Stmt::Expr(Expr::Verbatim(t), semi) = &mut s {
                if t.to_string().starts_with("vx_block") {
                    *semi = None;
                }
            }
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros first: their arguments are parsed and rewritten
        if let Expr::Macro(m) = e {
            if let Some(t) = self.macro_expr(&m.mac) {
                *e = Expr::Verbatim(t);
            }
            return;
        }
        if let Expr::Closure(c) = e {
            let id = self.closures;
            self.closures += 1;
            self.visit_expr_mut(&mut c.body);
            for p in c.inputs.iter_mut() {
                self.visit_pat_mut(p);
            }
            let mut body = (*c.body).clone();
            if let Expr::Block(b) = &body {
                if b.block.stmts.len() == 1 {
                    if let Stmt::Expr(x, None) = &b.block.stmts[0] {
                        body = x.clone();
                    }
                }
            }
            let mut ok = SpecAble(true);
            ok.visit_expr(&body);
            // parameters that are patterns are bound inside
            let mut ps = vec![];
            let mut binds = vec![];
            for (i, p) in c.inputs.iter().enumerate() {
                match p {
                    Pat::Ident(x) if x.mutability.is_none() => ps.push(quote!(#p)),
                    Pat::Wild(_) => {
                        let v = format_ident!("vxp{}", i);
                        ps.push(quote!(#v));
                    }
                    Pat::Type(t) if matches!(*t.pat, Pat::Ident(_)) => ps.push(quote!(#p)),
                    _ => {
                        let v = format_ident!("vxp{}", i);
                        ps.push(quote!(#v));
                        binds.push(quote!(let #p = #v;));
                    }
                }
            }
            let user = self.specs.get(id).cloned().flatten();
            let spec: TokenStream = match user {
                Some(mut u) => {
                    // $0, $1.. are the names of the parameters
                    for (i, p) in ps.iter().enumerate() {
                        let n = p.to_string();
                        u = u.replace(&format!("${}", i), n.split(':').next().unwrap().trim());
                    }
                    u.parse().expect("closure spec")
                }
                None if ok.0 => quote!(-> (vxr: _) ensures ({ #(#binds)* vx_same(vxr, #body) })),
                None => quote!(),
            };
            *e = Expr::Verbatim(quote!(|#(#ps),*| #spec { #(#binds)* #body }));
            return;
        }
        // f(x, &mut |p| body), where body changes what it captures, is the first half of f, then body
        if let Expr::Call(f) = e {
            if let (Expr::Path(name), Some(Expr::Reference(r))) = (&*f.func, f.args.last()) {
                if let (Expr::Closure(c), Some(id)) = (&*r.expr, name.path.get_ident()) {
                    if r.mutability.is_some() && c.inputs.len() == 1 && changes_captured(c) {
                        let half = format_ident!("vx_half_{}", id);
                        let xs: Vec<_> = f.args.iter().take(f.args.len() - 1).collect();
                        let p = &c.inputs[0];
                        let body = match &*c.body {
                            Expr::Block(b) => tries(&b.block.stmts),
                            x => tries(&[Stmt::Expr(x.clone(), None)]),
                        };
                        *e = parse_quote!(match #half(#(#xs),*) { Ok((vxn, #p)) => { let vxr = #body; Ok((vxn, vxr)) } Err(vxe) => Err(vxe) });
                    }
                }
            }
        }
        // a constructor used as a function: x.map(Ok)
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    let name = match p.path.get_ident().map(|i| i.to_string()).as_deref() {
                        Some("Ok") => format_ident!("vx_ok"),
                        Some("Some") => format_ident!("vx_some"),
                        _ => continue,
                    };
                    *a = parse_quote!(#name);
                }
            }
        }
        // x.for_each(|p| body) is for p in x { body }
        if let Expr::MethodCall(m) = e {
            if m.method == "for_each" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let (p, b, r) = (&c.inputs[0], &c.body, &m.receiver);
                    *e = parse_quote!(for #p in #r { #b; });
                }
            }
        }
        // x.scan(a, |s, p| { body; Some(e) }) is { let mut o = vec![]; let mut s0 = a; for p in x { let s = &mut s0; body; o.push(e); } o.into_iter() }
        if let Expr::MethodCall(m) = e {
            if m.method == "scan" && m.args.len() == 2 {
                if let Expr::Closure(c) = &m.args[1] {
                    if c.inputs.len() == 2 {
                        let (a, st, p, r) = (&m.args[0], &c.inputs[0], &c.inputs[1], &m.receiver);
                        let (mut body, val) = match &*c.body {
                            Expr::Block(b) => (b.block.stmts.clone(), None),
                            x => (vec![], Some(x.clone())),
                        };
                        let val = val.or_else(|| match body.pop() {
                            Some(Stmt::Expr(x, None)) => Some(x),
                            _ => None,
                        });
                        let n = self.breaks;
                        self.breaks += 1;
                        let (o, s0) = (format_ident!("vxo{}", n), format_ident!("vxst{}", n));
                        if let Some(val) = val {
                            let push: Stmt = match &val {
                                Expr::Call(f) if f.args.len() == 1 && f.func.to_token_stream().to_string() == "Some" => {
                                    let x = &f.args[0];
                                    parse_quote!(#o.push(#x);)
                                }
                                x => parse_quote!(match #x { Some(vxv) => { #o.push(vxv); } None => { break; } }),
                            };
                            *e = parse_quote!({ let mut #o = Vec::new(); let mut #s0 = #a; for #p in #r { let #st = &mut #s0; #(#body)* #push } #o.into_iter() });
                        }
                    }
                }
            }
        }
        // &|..| .. is promoted to a static
        if let Expr::Reference(r) = e {
            if let (None, Expr::Closure(_)) = (&r.mutability, &*r.expr) {
                let c = &r.expr;
                *e = parse_quote!(vx_static(#c));
            }
        }
        // &x[a..b] is x.vx_sub(a, b)
        if let Expr::Reference(r) = e {
            if let (None, Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                if let Expr::Range(g) = &*ix.index {
                    let x = &ix.expr;
                    let lo: Expr = g.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                    let n: Expr = match (&g.end, &g.limits) {
                        (None, _) => parse_quote!(#x.vx_from(#lo)),
                        (Some(hi), RangeLimits::HalfOpen(_)) => parse_quote!(#x.vx_sub(#lo, #hi)),
                        (Some(hi), RangeLimits::Closed(_)) => parse_quote!(#x.vx_sub(#lo, #hi + 1)),
                    };
                    *e = n;
                }
            }
        }
        // &mut x[..] is x.vx_all_mut()
        if let Expr::Reference(r) = e {
            if let (Some(_), Expr::Index(ix)) = (&r.mutability, &*r.expr) {
                if matches!(&*ix.index, Expr::Range(g) if g.start.is_none() && g.end.is_none()) {
                    let x = &ix.expr;
                    *e = parse_quote!(#x.vx_all_mut());
                }
            }
        }
        // while let p = x { body } is loop { match x { p => { body } _ => break } }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lb) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lb loop { match #x { #p => #b _ => { break; } } });
            }
        }
        if let Expr::ForLoop(f) = e {
            // for p in v.iter_mut() { body }, with v a slice or vector, is for i in 0..v.len() { let p = &mut v[i]; body }
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "iter_mut" {
                    let (v, p, b) = (&m.receiver, &f.pat, &f.body.stmts);
                    let i = format_ident!("vxi{}", self.loops);
                    *f = parse_quote!(for #i in 0..#v.len() { let #p = &mut #v[#i]; #(#b)* });
                }
            }
            let n = self.loops;
            self.loops += 1;
            self.visit_expr_mut(&mut f.expr);
            self.visit_pat_mut(&mut f.pat);
            self.visit_block_mut(&mut f.body);
            let (it, s, k) = (format_ident!("vxit{}", n), format_ident!("vxs{}", n), format_ident!("vxk{}", n));
            // a value the iterator borrows from is kept, as the for loop does
            let tmp = format_ident!("vxv{}", n);
            let hoisted = hoist(&mut f.expr, &tmp).map(|h| quote!(let #tmp = #h;));
            let (x, p, body) = (&f.expr, &f.pat, &f.body.stmts);
            let label = f.label.as_ref().map(|l| quote!(#l));
            *e = Expr::Verbatim(quote! {
                vx_block;
                #hoisted
                let mut #it = vx_for(#x);
                let ghost #s = #it@;
                let ghost mut #k = 0int;
                #label while #it.has_next() vx_invariants(#it, #s, #k) {
                    proof { #k = #k + 1; }
                    let #p = #it.take_next();
                    #(#body)*
                }
            });
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                if let Expr::Reference(r) = &*u.expr {
                    u.expr = r.expr.clone();
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if RENAME.contains(&n.as_str()) {
                    m.method = format_ident!("vx_{}", n);
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitOrAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(#l = vx_or(#l, #r));
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitAndAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = parse_quote!(#l = vx_and(#l, #r));
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ collecting
struct Calls(BTreeSet<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.0.insert(format!(".{}", m.method));
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.insert(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
        visit::visit_expr_call(self, c)
    }
}
fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("{}{}", if r.mutability.is_some() { "&mut " } else { "&" }, ty_name(&r.elem)),
        Type::Slice(s) => format!("[{}]", ty_name(&s.elem)),
        x => x.to_token_stream().to_string(),
    }
}
fn joined(ts: impl ToTokens) -> String {
    print(ts.to_token_stream()).join(" ")
}
fn main() {
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    // closure specifications: JSON {"path": [null | "..."]}
    let specs: Value = if a.first().map(|x| x == "--specs").unwrap_or(false) {
        let f = a[1].clone();
        a.drain(0..2);
        serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap()
    } else {
        json!({})
    };
    let root = a.remove(0);
    let mut out = vec![json!({"kind": "renames", "names": RENAME})];
    // types with a destructor
    let mut specs = specs;
    let mut drops = vec![];
    for f in &a {
        if let Ok(file) = std::fs::read_to_string(format!("{}/{}", root, f)).map_err(|_| ()).and_then(|t| parse_file(&t).map_err(|_| ())) {
            for i in &file.items {
                if let Item::Impl(i) = i {
                    if i.trait_.as_ref().map(|(_, t, _)| t.segments.last().unwrap().ident == "Drop").unwrap_or(false) {
                        drops.push(json!(ty_name(&i.self_ty)));
                    }
                }
            }
        }
    }
    specs["vx_drops"] = json!(drops);
    for f in &a {
        let text = match std::fs::read_to_string(format!("{}/{}", root, f)) {
            Ok(t) => t,
            Err(e) => {
                out.push(json!({"kind": "error", "file": f, "error": e.to_string()}));
                continue;
            }
        };
        match parse_file(&text) {
            Ok(file) => items(f, &file.items, &specs, &mut out),
            Err(e) => out.push(json!({"kind": "error", "file": f, "error": e.to_string()})),
        }
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    attrs.iter().filter(|a| a.path().is_ident("derive")).flat_map(|a| a.to_token_stream().to_string().split(|c: char| !c.is_alphanumeric()).map(|x| x.to_string()).collect::<Vec<_>>()).collect()
}
/// the first `x?` in a chain of fields and method calls is replaced by a name
fn hoist(e: &mut Expr, name: &Ident) -> Option<Expr> {
    match e {
        Expr::Try(_) => Some(std::mem::replace(e, parse_quote!(#name))),
        Expr::MethodCall(m) => hoist(&mut m.receiver, name),
        Expr::Field(m) => hoist(&mut m.base, name),
        Expr::Paren(m) => hoist(&mut m.expr, name),
        Expr::Reference(m) => hoist(&mut m.expr, name),
        _ => None,
    }
}
fn skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(is_cfg_off)
}
fn items(file: &str, xs: &[Item], specs: &Value, out: &mut Vec<Value>) {
    for x in xs {
        match x {
            Item::Fn(f) if !skip(&f.attrs) => func(file, None, &f.sig, &f.block, f.span().start().line, specs, out),
            Item::Impl(i) if !skip(&i.attrs) => {
                for m in &i.items {
                    match m {
                        ImplItem::Fn(m) if !skip(&m.attrs) => func(file, Some(i), &m.sig, &m.block, m.span().start().line, specs, out),
                        _ => {}
                    }
                }
            }
            Item::Trait(t) if !skip(&t.attrs) => {
                for m in &t.items {
                    if let TraitItem::Fn(m) = m {
                        if let Some(b) = &m.default {
                            let g = &t.generics;
                            let (_, gt, _) = g.split_for_impl();
                            let id = &t.ident;
                            let i: ItemImpl = parse_quote!(impl #g TraitDefault for #id #gt {});
                            let _ = gt;
                            func(file, Some(&i), &m.sig, b, m.span().start().line, specs, out);
                        }
                    }
                }
            }
            Item::Struct(s) => {
                let ds = derives(&s.attrs);
                let mut s = s.clone();
                Rw::default().visit_item_struct_mut(&mut s);
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                out.push(json!({"kind": "type", "file": file, "path": s.ident.to_string(), "derives": ds, "text": print(s.to_token_stream())}));
            }
            Item::Enum(s) => {
                let ds = derives(&s.attrs);
                let mut s = s.clone();
                Rw::default().visit_item_enum_mut(&mut s);
                s.vis = parse_quote!(pub);
                out.push(json!({"kind": "type", "file": file, "path": s.ident.to_string(), "derives": ds, "text": print(s.to_token_stream())}));
            }
            Item::Const(s) => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                out.push(json!({"kind": "type", "file": file, "path": s.ident.to_string(), "text": print(s.to_token_stream())}));
            }
            Item::Type(s) => {
                let mut s = s.clone();
                Rw::default().visit_item_type_mut(&mut s);
                out.push(json!({"kind": "type", "file": file, "path": s.ident.to_string(), "text": print(s.to_token_stream())}));
            }
            Item::Mod(m) if !skip(&m.attrs) => {
                if let Some((_, xs)) = &m.content {
                    items(file, xs, specs, out)
                }
            }
            _ => {}
        }
    }
}
fn rename(ts: TokenStream, a: &str, b: &str) -> TokenStream {
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) if i == a => TokenTree::Ident(Ident::new(b, i.span())),
            TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename(g.stream(), a, b))),
            t => t,
        })
        .collect()
}
fn func(file: &str, imp: Option<&ItemImpl>, sig: &Signature, block: &Block, line: usize, specs: &Value, out: &mut Vec<Value>) {
    let mut path = sig.ident.to_string();
    if let Some(i) = imp {
        let mut p = ty_name(&i.self_ty);
        if let Some((_, t, _)) = &i.trait_ {
            let s = t.segments.last().unwrap();
            let arg = match &s.arguments {
                PathArguments::AngleBracketed(a) if s.ident == "From" || s.ident == "FromIterator" => {
                    format!("<{}>", a.args.iter().map(|x| if let GenericArgument::Type(t) = x { ty_name(t) } else { x.to_token_stream().to_string() }).collect::<Vec<_>>().join(","))
                }
                _ => String::new(),
            };
            p = format!("{} as {}{}", p, s.ident, arg);
        }
        path = format!("{}::{}", p, path);
    }
    let mut calls = Calls(Default::default());
    calls.visit_block(block);
    let mut rw = Rw::default();
    let opts = specs.get(format!("{} {}", file, path)).cloned().unwrap_or(Value::Null);
    if let Some(Value::Array(v)) = opts.get("closures") {
        rw.specs = v.iter().map(|x| x.as_str().map(|x| x.to_string())).collect();
    }
    let mut sig2 = sig.clone();
    let mut block2 = block.clone();
    let raw = block.to_token_stream().to_string();
    // items in the body are items of the file
    let mut local = vec![];
    block2.stmts.retain(|s| match s {
        Stmt::Item(i @ (Item::Struct(_) | Item::Enum(_) | Item::Impl(_) | Item::Fn(_) | Item::Const(_))) => {
            local.push(i.clone());
            false
        }
        _ => true,
    });
    items(file, &local, specs, out);
    if opts.get("tail").is_some() {
        // the value of the body gets a name
        if let Some(Stmt::Expr(e, None)) = block2.stmts.last().cloned() {
            block2.stmts.pop();
            let l: Stmt = match &sig.output {
                ReturnType::Type(_, t) => parse_quote!(let vxt: #t = #e;),
                ReturnType::Default => parse_quote!(let vxt = #e;),
            };
            block2.stmts.push(l);
            block2.stmts.push(Stmt::Expr(parse_quote!(vxt), None));
        }
    }
    rw.visit_signature_mut(&mut sig2);
    rw.visit_block_mut(&mut block2);
    // self by value: made mutable in the body, and dropped at its end if its type implements Drop
    if let Some(FnArg::Receiver(r)) = sig2.inputs.first_mut() {
        let drops = specs["vx_drops"].as_array().map(|x| x.iter().any(|x| imp.map(|i| ty_name(&i.self_ty)) == x.as_str().map(|x| x.to_string()))).unwrap_or(false);
        if r.reference.is_none() && (r.mutability.is_some() || drops) {
            r.mutability = None;
            block2 = parse2(rename(block2.to_token_stream(), "self", "vxself")).unwrap();
            let mut b: Vec<Stmt> = stmts(quote!(let mut vxself = self;));
            b.append(&mut block2.stmts);
            if drops {
                match b.pop() {
                    Some(Stmt::Expr(e, None)) => b.extend(stmts(quote!(let vxr = #e; vxself.vx_drop(); vxr))),
                    Some(s) => {
                        b.push(s);
                        b.extend(stmts(quote!(vxself.vx_drop();)));
                    }
                    None => {}
                }
            }
            block2.stmts = b;
        }
    }
    let (mut self_ty, mut generics, mut trait_, mut wh) = (Value::Null, Value::Null, Value::Null, Value::Null);
    if let Some(i) = imp {
        let mut i = i.clone();
        i.items.clear();
        Rw::default().visit_item_impl_mut(&mut i);
        let (gi, _, w) = i.generics.split_for_impl();
        self_ty = json!(joined(&i.self_ty));
        generics = json!(joined(&gi));
        wh = json!(w.map(|w| joined(w)).unwrap_or_default());
        trait_ = json!(i.trait_.as_ref().map(|(_, t, _)| joined(t)));
    }
    // x: impl T is a type parameter
    let mut nimpl = 0usize;
    for x in sig2.inputs.iter_mut() {
        if let FnArg::Typed(t) = x {
            if let Type::ImplTrait(it) = &*t.ty {
                let id = format_ident!("VxI{}", nimpl);
                nimpl += 1;
                let b = &it.bounds;
                sig2.generics.params.push(parse_quote!(#id: #b));
                *t.ty = parse_quote!(#id);
            }
        }
    }
    let inputs: Vec<Value> = sig2
        .inputs
        .iter()
        .map(|x| match x {
            FnArg::Receiver(r) => json!({"name": "self", "pat": "self", "mut": r.mutability.is_some() && r.reference.is_none(), "ty": "", "text": joined(r)}),
            FnArg::Typed(t) => {
                let (name, m) = match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some() && i.by_ref.is_none()),
                    p => (joined(p), false),
                };
                json!({"name": name, "mut": m, "ty": joined(&t.ty), "text": joined(t)})
            }
        })
        .collect();
    let ret = match &sig2.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => joined(t),
    };
    let (g, _, w) = sig2.generics.split_for_impl();
    let calls: Vec<String> = calls.0.into_iter().collect();
    out.push(json!({
        "kind": "fn", "file": file, "line": line, "path": path, "name": sig.ident.to_string(),
        "impl_generics": generics, "impl_where": wh, "self_ty": self_ty, "trait": trait_,
        "generics": joined(&g), "where": w.map(|w| joined(w)).unwrap_or_default(),
        "inputs": inputs, "ret": ret, "asyncness": sig.asyncness.is_some(),
        "body": print(block2.to_token_stream()), "dropped": rw.dropped, "closures": rw.closures, "loops": rw.loops,
        "calls": calls, "raw": raw,
    }));
}
