//! Extracts functions from the macro-expanded source of the crate and rewrites them, construct by construct, into the
//! dialect Verus accepts. Every rewrite is local and listed in /verif/DESIGN.md; whatever it cannot rewrite makes the
//! function unsupported (never silently different).
//!   xtract EXPANDED.rs < config.json > out.json
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::io::Read;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Deserialize, Default)]
#[serde(default)]
struct Config {
    /// functions to emit
    want: Vec<String>,
    /// functions with a contract of their own: calls stay calls; the value says whether they take the memory ghost
    contracted: HashMap<String, bool>,
    /// methods that take the ghost `vk` (they may panic) and methods that take the memory ghost
    ghost_methods: HashSet<String>,
    mem_methods: HashSet<String>,
    rename_methods: HashMap<String, String>,
    /// path calls (joined by ::, after mapping) that take `vk` / the memory ghost
    ghost_fns: HashSet<String>,
    mem_fns: HashSet<String>,
    /// path calls replaced by another function
    rename_fns: HashMap<String, String>,
    /// (function, closure ordinal) -> parameter types, return type, ensures
    closures: HashMap<String, Vec<ClosureSpec>>,
    /// types replaced, by their token text without blanks
    types: HashMap<String, String>,
    /// binary == and != become calls of veq/vne in these functions
    eq: HashSet<String>,
    /// `.map(|x| E)` on these functions is on Option/Result
    option_map: HashSet<String>,
    /// (function, method) -> ghost argument of that method there
    witness: HashMap<String, HashMap<String, String>>,
    /// `<`, `<=`, `>`, `>=` become calls of v_lt/v_le in these functions
    cmp: HashSet<String>,
    /// what `Self { .. }` builds
    self_struct: Option<String>,
}
#[derive(Deserialize, Clone)]
struct ClosureSpec {
    params: Vec<String>,
    ret: String,
    spec: String,
}
#[derive(Serialize, Default)]
struct Out {
    functions: HashMap<String, Func>,
}
#[derive(Serialize, Default, Clone)]
struct Func {
    params: Vec<(String, String)>,
    ret: String,
    generics: Vec<String>,
    body: String,
    loops: Vec<String>,
    iters: std::collections::BTreeMap<usize, String>,
    inlined: Vec<String>,
    /// parameter -> the last local that starts as its copy
    copies: HashMap<String, String>,
    /// the mutable locals, in order
    muts: Vec<String>,
    error: Option<String>,
    source: String,
}

struct Item2 {
    sig: Signature,
    block: Block,
    self_ty: Option<Type>,
}

struct Crate {
    fns: HashMap<String, Item2>,
    consts: HashMap<String, Expr>,
    dup: HashSet<String>,
}
fn squeeze(t: &impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
fn collect(items: &[Item], c: &mut Crate) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, it)) = &m.content {
                    collect(it, c)
                }
            }
            Item::Fn(f) => {
                let n = f.sig.ident.to_string();
                if c.fns.insert(n.clone(), Item2 { sig: f.sig.clone(), block: (*f.block).clone(), self_ty: None }).is_some() {
                    c.dup.insert(n);
                }
            }
            Item::Use(u) => imports(&u.tree, &mut vec![]),
            Item::Const(k) => {
                c.consts.insert(k.ident.to_string(), (*k.expr).clone());
            }
            Item::Impl(im) => {
                let st = squeeze(&im.self_ty);
                let head = match &im.trait_ {
                    Some((_, p, _)) => format!("{}for{}", squeeze(p), st),
                    None => st,
                };
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        c.fns.insert(format!("{head}::{}", f.sig.ident), Item2 { sig: f.sig.clone(), block: f.block.clone(), self_ty: Some((*im.self_ty).clone()) });
                    }
                }
            }
            _ => {}
        }
    }
}

const INTS: [&str; 14] = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize", "f32", "f64"];

thread_local!(
    /// modules of the outside crates imported by name: `use std::slice;`
    static IMPORTS: std::cell::RefCell<HashMap<String, Vec<String>>> = Default::default()
);
fn imports(t: &UseTree, at: &mut Vec<String>) {
    match t {
        UseTree::Path(p) => { at.push(p.ident.to_string()); imports(&p.tree, at); at.pop(); }
        UseTree::Group(g) => for x in &g.items { imports(x, at) },
        UseTree::Name(n) => add_import(n.ident.to_string(), n.ident.to_string(), at),
        UseTree::Rename(r) => add_import(r.rename.to_string(), r.ident.to_string(), at),
        UseTree::Glob(_) => {}
    }
}
fn add_import(name: String, last: String, at: &[String]) {
    if at.first().map_or(false, |r| ["std", "core", "alloc", "chrono", "num"].contains(&r.as_str())) && name.starts_with(|c: char| c.is_lowercase()) && last != "self" {
        let mut v = at.to_vec();
        v.push(last);
        IMPORTS.with(|m| m.borrow_mut().insert(name, v));
    }
}
/// Path segments with the roots of the outside crates mapped into the shim module.
fn mapped(p: &Path) -> Vec<String> {
    let mut s: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
    if s.len() > 1 {
        if let Some(v) = IMPORTS.with(|m| m.borrow().get(&s[0]).cloned()) { s.splice(0..1, v); }
        match s[0].as_str() {
            "std" | "core" | "alloc" => {
                s[0] = "x".into();
            }
            "chrono" | "num" => {
                s.insert(0, "x".into());
            }
            "crate" | "self" | "super" => {
                // crate items are flat
                s = vec![s.last().unwrap().clone()];
            }
            _ => {}
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    /// a raw pointer, and how many more are behind it
    Ptr(u8),
    RefPtr(u8),
    Other,
}

struct Rw<'a> {
    krate: &'a Crate,
    cfg: &'a Config,
    fname: String,
    kinds: HashMap<String, Kind>,
    loops: Vec<String>,
    iters: std::collections::BTreeMap<usize, String>,
    inlined: Vec<String>,
    closures: usize,
    fors: usize,
    depth: usize,
    errors: Vec<String>,
    generics: Vec<String>,
}

/// Turns `if c { ..; return e; } rest` into `if c { ..; e } else { rest }`, so that a body becomes an expression.
fn no_returns(b: &mut Block) -> bool {
    struct R(bool);
    impl<'a> Visit<'a> for R {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    fn has<T>(f: impl Fn(&mut R) -> T) -> bool {
        let mut r = R(false);
        f(&mut r);
        r.0
    }
    fn tail(b: &mut Block) -> bool {
        // the last statement is `return e;` or `return e` -> e
        if let Some(l) = b.stmts.last_mut() {
            if let Stmt::Expr(Expr::Return(r), _) = l {
                let e = r.expr.clone().map(|e| *e).unwrap_or_else(|| parse_quote!(()));
                *l = Stmt::Expr(e, None);
            }
        }
        let n = b.stmts.len();
        for i in 0..n {
            if !has(|r| r.visit_stmt(&b.stmts[i])) {
                continue;
            }
            let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
            let last = rest.is_empty();
            if let Stmt::Expr(Expr::If(e), _) = &mut b.stmts[i] {
                if has(|r| r.visit_expr(&e.cond)) {
                    return false;
                }
                if e.else_branch.is_none() {
                    if !matches!(e.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                        return false;
                    }
                    let mut t = e.then_branch.clone();
                    let mut r = Block { brace_token: Default::default(), stmts: rest };
                    if !tail(&mut t) || !tail(&mut r) {
                        return false;
                    }
                    let c = &e.cond;
                    let ne: Expr = parse_quote!(if #c #t else #r);
                    b.stmts.truncate(i);
                    b.stmts.push(Stmt::Expr(ne, None));
                    return true;
                }
                if last {
                    let ok = tail(&mut e.then_branch)
                        && match e.else_branch.as_mut().map(|x| &mut *x.1) {
                            Some(Expr::Block(k)) => tail(&mut k.block),
                            Some(other) => {
                                let o = other.clone();
                                let mut k: Block = parse_quote!({ #o });
                                let ok = tail(&mut k);
                                *other = parse_quote!(#k);
                                ok
                            }
                            None => false,
                        };
                    if let Stmt::Expr(_, semi) = &mut b.stmts[i] {
                        *semi = None;
                    }
                    return ok;
                }
            }
            if last {
                if let Stmt::Expr(Expr::Match(m), semi) = &mut b.stmts[i] {
                    if has(|r| r.visit_expr(&m.expr)) {
                        return false;
                    }
                    for a in &mut m.arms {
                        let o = a.body.clone();
                        let mut k: Block = parse_quote!({ #o });
                        if !tail(&mut k) {
                            return false;
                        }
                        *a.body = parse_quote!(#k);
                    }
                    *semi = None;
                    return true;
                }
                if let Stmt::Expr(Expr::Block(k), semi) = &mut b.stmts[i] {
                    *semi = None;
                    return tail(&mut k.block);
                }
                if let Stmt::Expr(Expr::Unsafe(k), semi) = &mut b.stmts[i] {
                    *semi = None;
                    return tail(&mut k.block);
                }
            }
            return false;
        }
        true
    }
    tail(b)
}

impl Rw<'_> {
    fn err(&mut self, m: impl Into<String>) {
        self.errors.push(m.into());
    }
    fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Path(p) if p.path.segments.len() == 1 => *self.kinds.get(&p.path.segments[0].ident.to_string()).unwrap_or(&Kind::Other),
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::MethodCall(m) if ["add", "sub", "offset", "wrapping_add", "cast_mut", "cast_const"].contains(&m.method.to_string().as_str()) => {
                match self.kind(&m.receiver) {
                    Kind::Other => Kind::Other,
                    Kind::Ptr(n) | Kind::RefPtr(n) => Kind::Ptr(n),
                }
            }
            Expr::MethodCall(m) if m.method == "read" || m.method == "vread" => match self.kind(&m.receiver) {
                Kind::Ptr(n) if n > 0 => Kind::Ptr(n - 1),
                _ => Kind::Other,
            },
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                match self.kind(&u.expr) {
                    Kind::RefPtr(n) => Kind::Ptr(n),
                    Kind::Ptr(n) if n > 0 => Kind::Ptr(n - 1),
                    _ => Kind::Other,
                }
            }
            Expr::Reference(r) => match self.kind(&r.expr) {
                Kind::Ptr(n) => Kind::RefPtr(n),
                _ => Kind::Other,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            Expr::Unsafe(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Other,
            },
            Expr::Cast(c) => self.type_kind(&c.ty),
            _ => Kind::Other,
        }
    }
    fn type_kind(&self, t: &Type) -> Kind {
        match t {
            Type::Ptr(p) => match self.type_kind(&p.elem) {
                Kind::Ptr(n) => Kind::Ptr(n + 1),
                _ => Kind::Ptr(0),
            },
            Type::Reference(r) => match self.type_kind(&r.elem) {
                Kind::Ptr(n) => Kind::RefPtr(n),
                _ => Kind::Other,
            },
            _ => Kind::Other,
        }
    }
    /// `&mut *b` and `&mut b[..]`
    fn whole_slice(&self, e: &Expr) -> Option<Expr> {
        let Expr::Reference(r) = e else { return None };
        if r.mutability.is_none() { return None; }
        match &*r.expr {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.kind(&u.expr) == Kind::Other => Some((*u.expr).clone()),
            Expr::Index(i) => match &*i.index { Expr::Range(g) if g.start.is_none() && g.end.is_none() => Some((*i.expr).clone()), _ => None },
            _ => None,
        }
    }
    fn is_option_closure(m: &ExprMethodCall) -> Option<(&Expr, &Pat, &Expr)> {
        if m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 {
                    return Some((&m.receiver, &c.inputs[0], &c.body));
                }
            }
        }
        None
    }
    fn crate_fn(&self, p: &ExprPath) -> Option<String> {
        if p.qself.is_some() {
            return None;
        }
        let segs = mapped(&p.path);
        if segs.len() == 1 && self.krate.fns.contains_key(&segs[0]) && !self.krate.dup.contains(&segs[0]) {
            return Some(segs[0].clone());
        }
        None
    }
    fn type_text(&mut self, t: &mut Type) {
        self.visit_type_mut(t);
    }
    fn inline(&mut self, name: &str, args: Vec<Expr>) -> Option<Expr> {
        let it = &self.krate.fns[name];
        if self.depth > 6 {
            self.err(format!("calls nest too deeply at {name}"));
            return None;
        }
        let mut block = it.block.clone();
        if !no_returns(&mut block) {
            self.err(format!("helper {name} returns early in a way that cannot be inlined"));
            return None;
        }
        let mut pats: Vec<Pat> = vec![];
        let mut tys: Vec<Type> = vec![];
        for a in &it.sig.inputs {
            match a {
                FnArg::Typed(t) => {
                    pats.push((*t.pat).clone());
                    tys.push((*t.ty).clone());
                }
                FnArg::Receiver(_) => return None,
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        for (p, t) in pats.iter().zip(&tys) {
            if let Pat::Ident(i) = p {
                self.kinds.insert(i.ident.to_string(), self.type_kind(t));
            }
        }
        self.inlined.push(name.to_string());
        let plain = it.sig.generics.params.is_empty() && !tys.iter().any(|t| matches!(t, Type::ImplTrait(_) | Type::BareFn(_)));
        let e: Expr = if pats.is_empty() {
            parse_quote!(#block)
        } else {
            let stmts = &block.stmts;
            let body: TokenStream = match &it.sig.output {
                ReturnType::Type(_, t) if plain && !matches!(**t, Type::ImplTrait(_) | Type::Never(_)) => quote!({ let vret__: #t = { #(#stmts)* }; vret__ }),
                _ => quote!({ #(#stmts)* }),
            };
            if plain {
                parse_quote!({ let (#(#pats,)*): (#(#tys,)*) = (#(#args,)*); #body })
            } else {
                parse_quote!({ let (#(#pats,)*) = (#(#args,)*); #body })
            }
        };
        Some(e)
    }
}

impl VisitMut for Rw<'_> {
    // the references are to elements, which are read
    fn visit_pat_reference_mut(&mut self, p: &mut PatReference) {
        p.mutability = None;
        visit_mut::visit_pat_reference_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(l) = p.path.segments.last_mut() {
                if l.ident == "DateTime" && squeeze(&l.arguments).contains("Utc") { l.arguments = PathArguments::None; }
            }
        }
        let sq = squeeze(t);
        if let Some(r) = self.cfg.types.get(&sq) {
            *t = parse_str(r).expect("type in config");
            return;
        }
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::Ptr(p) => {
                let e = &p.elem;
                *t = if p.mutability.is_some() { parse_quote!(MPtr<#e>) } else { parse_quote!(CPtr<#e>) };
            }
            Type::Path(p) if p.qself.is_none() => {
                if let Some(r) = map_path(&p.path) {
                    p.path = r;
                }
            }
            _ => {}
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        let (pat, declared) = match &l.pat {
            Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
            p => (p.clone(), None),
        };
        let k = match (&declared, &l.init) {
            (Some(t), _) => self.type_kind(t),
            (None, Some(i)) => self.kind(&i.expr),
            _ => Kind::Other,
        };
        // the kinds of a tuple of variables bound to a tuple of expressions
        let mut pairs = vec![];
        match (&pat, l.init.as_ref().map(|i| &*i.expr)) {
            (Pat::Ident(i), _) => pairs.push((i.ident.to_string(), k)),
            (Pat::Tuple(pt), Some(Expr::Tuple(et))) => {
                for (p, e) in pt.elems.iter().zip(&et.elems) {
                    if let Pat::Ident(i) = p {
                        pairs.push((i.ident.to_string(), self.kind(e)));
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_local_mut(self, l);
        for (n, k) in pairs {
            self.kinds.insert(n, k);
        }
    }
    // constants declared in a block are variables bound at its start
    fn visit_block_mut(&mut self, b: &mut Block) {
        let is_const = |s: &Stmt| matches!(s, Stmt::Item(Item::Const(_)));
        if b.stmts.iter().any(is_const) {
            let (consts, rest): (Vec<Stmt>, Vec<Stmt>) = std::mem::take(&mut b.stmts).into_iter().partition(is_const);
            for c in consts {
                if let Stmt::Item(Item::Const(k)) = c {
                    let (i, t, x) = (k.ident, k.ty, k.expr);
                    b.stmts.push(parse_quote!(let #i: #t = #x;));
                }
            }
            b.stmts.extend(rest);
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        match s {
            Stmt::Macro(m) => {
                self.err(format!("macro {}", squeeze(&m.mac.path)));
            }
            Stmt::Item(_) => self.err("nested item"),
            _ => {}
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- before the children
        match e {
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = parse_quote!(#b);
            }
            Expr::Group(g) => *e = (*g.expr).clone(),
            _ => {}
        }
        if let Expr::Call(c) = e {
            // text the extractor made
            if squeeze(&c.func) == "Ghost" { return; }
            if let Expr::Path(p) = &*c.func {
                let segs = mapped(&p.path);
                if segs.len() >= 2 && segs[0] == "x" && segs[1] == "panicking" {
                    *e = parse_quote!(vpanic(vk__));
                    return;
                }
                if let Some(n) = self.crate_fn(p) {
                    if !self.cfg.contracted.contains_key(&n) && !self.cfg.ghost_fns.contains(&n) {
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        if let Some(ne) = self.inline(&n, args) {
                            self.depth += 1;
                            *e = ne;
                            self.visit_expr_mut(e);
                            self.depth -= 1;
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let opt = match name.as_str() {
                "and_then" => true,
                "map" => self.cfg.option_map.contains(&self.fname),
                _ => false,
            };
            if opt {
                if let Some((r, p, b)) = Self::is_option_closure(m) {
                    let ne: Expr = if name == "map" {
                        parse_quote!(match #r { Some(#p) => Some(#b), None => None })
                    } else {
                        parse_quote!(match #r { Some(#p) => #b, None => None })
                    };
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if name == "for_each" {
                // `R.for_each(|p| B)` is `for p in R { B }`
                if let Some((r, p, b)) = Self::is_option_closure(m) {
                    struct Ret(bool);
                    impl<'a> Visit<'a> for Ret { fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; } fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; } }
                    let mut has = Ret(false);
                    has.visit_expr(b);
                    if !has.0 {
                        let p = match p { Pat::Type(t) => &*t.pat, p => p };
                        let ne: Expr = parse_quote!(for #p in #r { #b; });
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if name == "copy_from_slice" && m.args.len() == 1 {
                if let Expr::Index(i) = &*m.receiver {
                    if let Expr::Range(g) = &*i.index {
                        if matches!(g.limits, RangeLimits::HalfOpen(_)) {
                            let (x, a) = (&i.expr, &m.args[0]);
                            let lo: Expr = g.start.as_ref().map_or(parse_quote!(0usize), |e| (**e).clone());
                            let hi: Expr = g.end.as_ref().map_or(parse_quote!(#x.len()), |e| (**e).clone());
                            let ne: Expr = parse_quote!(#x.v_copy(#lo, #hi, #a, vk__, Tracked(vmem__)));
                            *e = ne;
                            self.visit_expr_mut(e);
                            return;
                        }
                    }
                }
            }
            if name == "write_fmt" || name == "write_all" {
                // `(&mut *b).write_fmt(..)`: a slice of its own, at the same place
                let mut r = &*m.receiver;
                while let Expr::Paren(p) = r { r = &p.expr; }
                if m.args.len() == 1 && squeeze(&m.args[0]) != "vf__" {
                    let (n, a) = (&m.method, &m.args[0]);
                    let ne: Expr = match self.whole_slice(r) {
                        Some(x) => parse_quote!({ let mut vb__ = #x; let vf__ = #a; vb__.#n(vf__) }),
                        None => parse_quote!({ let vf__ = #a; #r.#n(vf__) }),
                    };
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            // `(a..b).contains(&x)`
            if name == "contains" && m.args.len() == 1 {
                let mut base = &*m.receiver;
                while let Expr::Paren(p) = base { base = &p.expr; }
                if let (Expr::Range(r), Expr::Reference(x)) = (base, &m.args[0]) {
                    let x = &x.expr;
                    let lo: Option<Expr> = r.start.as_ref().map(|a| parse_quote!((#a) <= vr__));
                    let hi: Option<Expr> = r.end.as_ref().map(|b| if matches!(r.limits, RangeLimits::HalfOpen(_)) { parse_quote!(vr__ < (#b)) } else { parse_quote!(vr__ <= (#b)) });
                    let c: Expr = match (lo, hi) { (Some(l), Some(h)) => parse_quote!(#l && #h), (Some(l), None) => l, (None, Some(h)) => h, _ => parse_quote!(true) };
                    *e = parse_quote!({ let vr__ = #x; #c });
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if name == "position" {
                // `.position(|w| w == x)`: the first element equal to x
                if let Some((r, Pat::Ident(p), Expr::Binary(b))) = Self::is_option_closure(m) {
                    let is_p = |e: &Expr| squeeze(e) == p.ident.to_string();
                    let other = if is_p(&b.left) { Some(&b.right) } else if is_p(&b.right) { Some(&b.left) } else { None };
                    if let (BinOp::Eq(_), Some(o)) = (&b.op, other) {
                        let ne: Expr = parse_quote!(#r.v_position_eq(#o));
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            // `.starts_with(b"..")`, `.strip_prefix(b"..")`
            if (name == "starts_with" || name == "strip_prefix") && m.args.len() == 1 {
                let mut a = &m.args[0];
                while let Expr::Paren(p) = a { a = &p.expr; }
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = a {
                    let (r, v) = (&m.receiver, b.value());
                    let n = LitInt::new(&v.len().to_string(), proc_macro2::Span::call_site());
                    let mut c: Expr = parse_quote!(vs__.len() >= #n);
                    for (k, x) in v.iter().enumerate() {
                        let (k, x) = (LitInt::new(&k.to_string(), proc_macro2::Span::call_site()), LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site()));
                        c = parse_quote!(#c && vs__.v_at(#k, vk__) == #x);
                    }
                    let ne: Expr = if name == "starts_with" { parse_quote!({ let vs__ = #r; #c }) } else { parse_quote!({ let vs__ = #r; if #c { Some(vs__.v_from(#n, vk__)) } else { None } }) };
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            // stores and loads by name
            if matches!(self.kind(&m.receiver), Kind::Ptr(_)) {
                if name == "write" && m.args.len() == 1 {
                    let (mut p, mut v) = ((*m.receiver).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut p);
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!({ let vp__ = #p; vp__.vwrite(#v, Tracked(vmem__)) });
                    return;
                }
                if name == "read" && m.args.is_empty() {
                    let mut p = (*m.receiver).clone();
                    self.visit_expr_mut(&mut p);
                    *e = parse_quote!(#p.vread());
                    return;
                }
            }
            // `.map_or(d, |x| b)`, `.is_some_and(|x| b)`, `.then(|| b)`, `.then_some(b)`
            if name == "map_or" && m.args.len() == 2 && self.cfg.option_map.contains(&self.fname) {
                if let Expr::Closure(c) = &m.args[1] {
                    if c.inputs.len() == 1 {
                        let (r, d, p, b) = (&m.receiver, &m.args[0], &c.inputs[0], &c.body);
                        let ne: Expr = parse_quote!({ let vo__ = #r; let vd__ = #d; match vo__ { Some(#p) => #b, None => vd__ } });
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if name == "is_some_and" {
                if let Some((r, p, b)) = Self::is_option_closure(m) {
                    let ne: Expr = parse_quote!(match #r { Some(#p) => #b, None => false });
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if name == "then" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.is_empty() {
                        let (r, b) = (&m.receiver, &c.body);
                        let ne: Expr = parse_quote!(if #r { Some(#b) } else { None });
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if name == "then_some" && m.args.len() == 1 {
                let (r, b) = (&m.receiver, &m.args[0]);
                let ne: Expr = parse_quote!({ let vb__ = #r; let vv__ = #b; if vb__ { Some(vv__) } else { None } });
                *e = ne;
                self.visit_expr_mut(e);
                return;
            }
            // `.map(|x| *x)` over references
            if name == "map" {
                if let Some((r, Pat::Ident(p), b)) = Self::is_option_closure(m) {
                    if squeeze(b) == format!("*{}", p.ident) {
                        let ne: Expr = parse_quote!(#r.copied());
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            // `.copied().max()`: the copy of the greatest
            if (name == "max" || name == "min") && m.args.is_empty() {
                if let Expr::MethodCall(c) = &*m.receiver {
                    if (c.method == "copied" || c.method == "cloned") && c.args.is_empty() {
                        let (r, n) = (&c.receiver, &m.method);
                        let ne: Expr = parse_quote!(match #r.#n() { Some(vx__) => Some(*vx__), None => None });
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            // `.reduce(f32::max)`
            if name == "reduce" && m.args.len() == 1 {
                let f = squeeze(&m.args[0]);
                let mut f = f.replace(['<', '>'], "");
                // `|a, b| a.max(b)` on what the closure's contract function calls floats
                if let Expr::Closure(c) = &m.args[0] {
                    if let (2, Expr::MethodCall(k)) = (c.inputs.len(), &*c.body) {
                        let (a, b) = (squeeze(&c.inputs[0]), squeeze(&c.inputs[1]));
                        if k.args.len() == 1 && squeeze(&k.receiver) == a && squeeze(&k.args[0]) == b && (k.method == "max" || k.method == "min") {
                            f = format!("f64::{}", k.method);
                        }
                    }
                }
                let n = match f.as_str() { "f32::max" | "f64::max" => Some("v_reduce_max"), "f32::min" | "f64::min" => Some("v_reduce_min"), _ => None };
                if let Some(n) = n {
                    let (r, n) = (&m.receiver, Ident::new(n, proc_macro2::Span::call_site()));
                    let ne: Expr = parse_quote!(#r.#n());
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if name == "filter" && self.cfg.option_map.contains(&self.fname) {
                if let Some((r, p, b)) = Self::is_option_closure(m) {
                    let ne: Expr = parse_quote!(match #r { Some(vf__) => { let keep__: bool = { let #p = &vf__; #b }; if keep__ { Some(vf__) } else { None } } None => None });
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if name == "unwrap_or_else" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    if c.inputs.len() <= 1 {
                        let (r, b) = (&m.receiver, &c.body);
                        let ne: Expr = match c.inputs.first() { Some(p) => parse_quote!(match #r { Ok(vu__) => vu__, Err(#p) => #b }), None => parse_quote!(match #r { Some(vu__) => vu__, None => #b }) };
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        if let Expr::Match(m) = e {
            fn slicey(p: &Pat) -> bool { match p { Pat::Slice(_) => true, Pat::Or(o) => o.cases.iter().any(slicey), Pat::Paren(p) => slicey(&p.pat), _ => false } }
            if m.arms.iter().any(|a| slicey(&a.pat)) {
                match slice_match(m) {
                    Some(ne) => { *e = ne; self.visit_expr_mut(e); }
                    None => self.err("slice pattern"),
                }
                return;
            }
        }
        if let Some(x) = self.whole_slice(e) {
            *e = x;
            self.visit_expr_mut(e);
            return;
        }
        if let Expr::Reference(r) = e {
            if let (Expr::Index(i), true) = (&*r.expr, r.mutability.is_some()) {
                if let Expr::Range(g) = &*i.index {
                    if let (Some(a), None, RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) {
                        let x = &i.expr;
                        let ne: Expr = parse_quote!(#x.v_buf_from(#a, vk__));
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
            if let Expr::Index(i) = &*r.expr {
                if let Expr::Range(g) = &*i.index {
                    if matches!(g.limits, RangeLimits::HalfOpen(_)) && r.mutability.is_none() {
                        let x = &i.expr;
                        let ne: Expr = match (&g.start, &g.end) {
                            (Some(a), None) => parse_quote!(#x.v_from(#a, vk__)),
                            (None, Some(b)) => parse_quote!(#x.v_to(#b, vk__)),
                            (Some(a), Some(b)) => parse_quote!(#x.v_sub(#a, #b, vk__)),
                            (None, None) => parse_quote!(#x),
                        };
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // `x[a..b].f()`: the receiver is borrowed
        if let Expr::MethodCall(m) = e {
            let range = matches!(&*m.receiver, Expr::Index(i) if matches!(&*i.index, Expr::Range(g) if matches!(g.limits, RangeLimits::HalfOpen(_)) && (g.start.is_some() || g.end.is_some())));
            if range && ["iter", "len", "is_empty", "starts_with", "cmp", "windows", "to_vec"].contains(&m.method.to_string().as_str()) {
                let r = &m.receiver;
                let nr: Expr = parse_quote!(&#r);
                m.receiver = Box::new(nr);
            }
        }
        if let Expr::Lit(ExprLit { lit, .. }) = e {
            match lit {
                Lit::Byte(b) => { let n = LitInt::new(&format!("{}u8", b.value()), proc_macro2::Span::call_site()); *e = parse_quote!(#n); }
                Lit::ByteStr(b) => { let v = b.value(); *e = if v.is_empty() { parse_quote!(VSlice::v_empty()) } else { let b = ghost_bytes(&v); parse_quote!(VSlice::v_lit(#b)) }; }
                Lit::Str(t) => { let v: Vec<u32> = t.value().chars().map(|c| c as u32).collect(); *e = str_lit(&t.value(), &v); }
                Lit::Float(f) if self.cfg.cmp.contains(&self.fname) => match whole(f) {
                    Some(v) => { let n = LitInt::new(&v.to_string(), proc_macro2::Span::call_site()); *e = parse_quote!(v_f64i(Ghost(#n))); }
                    None => self.err("a floating point literal that is not a whole f64"),
                },
                _ => {}
            }
            return;
        }
        if let Expr::ForLoop(f) = e {
            // `for p in r.filter(|q| c) { b }`
            if let Expr::MethodCall(m) = &*f.expr {
                if m.method == "filter" {
                    if let Some((r, q, c)) = Self::is_option_closure(m) {
                        let q = match q { Pat::Type(t) => &*t.pat, q => q };
                        let bind: Stmt = match q { Pat::Reference(x) => { let x = &x.pat; parse_quote!(let #x = vfi__;) } q => parse_quote!(let #q = &vfi__;) };
                        let (p, b, l) = (&f.pat, &f.body, &f.label);
                        let ne: Expr = parse_quote!(#l for vfi__ in #r { let vkeep__: bool = { #bind #c }; if vkeep__ { let #p = vfi__; #b } });
                        *e = ne;
                        self.visit_expr_mut(e);
                        return;
                    }
                }
            }
        }
        // `while let Some(p) = it.next() { b }`
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let ok = match (&*l.pat, &*l.expr) { (Pat::TupleStruct(t), Expr::MethodCall(m)) => t.path.is_ident("Some") && t.elems.len() == 1 && m.method == "next" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(p) if p.path.get_ident().is_some()), _ => false };
                if ok {
                    if let Expr::MethodCall(m) = &*l.expr { self.iters.insert(self.loops.len(), squeeze(&m.receiver)); }
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    let ne: Expr = parse_quote!(#lab loop { match #x { #p => #b, None => { break; } } });
                    *e = ne;
                }
            }
        }
        // over copies of the elements: over the elements, copied
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = &*f.expr {
                if m.args.is_empty() && ["copied", "cloned", "bytes"].contains(&m.method.to_string().as_str()) {
                    let r = &m.receiver;
                    let it: Expr = if m.method == "bytes" { parse_quote!(#r.as_bytes().iter()) } else { (**r).clone() };
                    let p = &f.pat;
                    f.pat = Box::new(parse_quote!(&#p));
                    f.expr = Box::new(it);
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let (pat, it, body) = (&f.pat, &f.expr, &f.body);
            let lab = &f.label;
            let vit = Ident::new(&format!("vit{}__", self.fors), proc_macro2::Span::call_site());
            self.fors += 1;
            self.iters.insert(self.loops.len(), vit.to_string());
            let (pat, body): (Pat, Block) = match &**pat {
                Pat::Reference(r) => { let q = &r.pat; (parse_quote!(vr__), parse_quote!({ let #q = *vr__; #body })) }
                p => (p.clone(), body.clone()),
            };
            let ne: Expr = parse_quote!({
                let mut #vit = (#it).v_into_iter();
                #lab loop {
                    match #vit.next() { Some(#pat) => #body, None => { break; } }
                }
            });
            *e = ne;
            // falls through to the block below
        }
        if let Expr::Cast(c) = e {
            if let (Expr::Lit(ExprLit { lit: Lit::Float(f), .. }), Type::Path(t)) = (&*c.expr, &*c.ty) {
                let t = squeeze(t);
                if let (Ok(v), true) = (f.base10_parse::<f64>(), INTS.contains(&t.as_str()) && !t.starts_with('f')) {
                    if v.fract() == 0.0 && v >= 0.0 && v < 9e15 {
                        let lit = LitInt::new(&format!("{}{}", v as u64, t), proc_macro2::Span::call_site());
                        *e = parse_quote!(#lit);
                        return;
                    }
                }
            }
            if let (Expr::Lit(ExprLit { lit: Lit::Int(i), .. }), Type::Path(t)) = (&*c.expr, &*c.ty) {
                let t = squeeze(t);
                if i.suffix().is_empty() && INTS.contains(&t.as_str()) && !t.starts_with('f') {
                    let lit = LitInt::new(&format!("{}{}", i.base10_digits(), t), proc_macro2::Span::call_site());
                    *e = parse_quote!(#lit);
                    return;
                }
            }
            // `c as u32` etc. of a char, `b as i32` of a bool and all integer pairs: the shim's exact conversion
            if let Type::Ptr(_) = &*c.ty {
                self.err("pointer cast");
                return;
            }
        }
        // stores through raw pointers
        if let Expr::Assign(a) = e {
            if let Expr::Index(i) = &*a.left {
                if !matches!(&*i.index, Expr::Range(_)) {
                    let (x, k, v) = (&i.expr, &i.index, &a.right);
                    let ne: Expr = parse_quote!(#x.v_set(#k, #v, vk__, Tracked(vmem__)));
                    *e = ne;
                    self.visit_expr_mut(e);
                    return;
                }
            }
            if let Expr::Unary(u) = &*a.left {
                if matches!(u.op, UnOp::Deref(_)) && matches!(self.kind(&u.expr), Kind::Ptr(_)) {
                    let (mut p, mut v) = ((*u.expr).clone(), (*a.right).clone());
                    self.visit_expr_mut(&mut p);
                    self.visit_expr_mut(&mut v);
                    *e = parse_quote!({ let vp__ = #p; vp__.vwrite(#v, Tracked(vmem__)) });
                    return;
                }
            }
        }
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && matches!(self.kind(&u.expr), Kind::Ptr(_)) {
                let mut p = (*u.expr).clone();
                self.visit_expr_mut(&mut p);
                *e = parse_quote!(#p.vread());
                return;
            }
        }
        // an element read by its place
        if let Expr::Index(i) = e {
            if !matches!(&*i.index, Expr::Range(_)) {
                let (x, k) = (&i.expr, &i.index);
                let ne: Expr = parse_quote!((#x).v_at(#k, vk__));
                *e = ne;
                self.visit_expr_mut(e);
                return;
            }
        }
        if let Expr::Reference(r) = e {
            if matches!(&*r.expr, Expr::Array(a) if a.elems.is_empty()) {
                *e = parse_quote!(VSlice::v_empty());
                return;
            }
        }
        // --- the children
        if let Expr::Closure(_) = e {
            let k = self.closures;
            self.closures += 1;
            visit_mut::visit_expr_mut(self, e);
            if let (Some(s), Expr::Closure(c)) = (self.cfg.closures.get(&self.fname).and_then(|v| v.get(k)), &*e) {
                if s.params.len() == c.inputs.len() {
                    let mut names: Vec<String> = vec![];
                    let mut lets: Vec<Stmt> = vec![];
                    let ps: Vec<TokenStream> = c.inputs.iter().zip(&s.params).enumerate().map(|(i, (p, t))| {
                        let t: TokenStream = t.parse().unwrap();
                        let p = match p { Pat::Type(t) => &*t.pat, p => p };
                        let n = Ident::new(&format!("vc{i}__"), proc_macro2::Span::call_site());
                        names.push(n.to_string());
                        // `&x` binds the referent
                        match p {
                            Pat::Reference(r) => { let q = &r.pat; lets.push(parse_quote!(let #q = *#n;)); }
                            p => lets.push(parse_quote!(let #p = #n;)),
                        }
                        quote!(#n: #t)
                    }).collect();
                    let mut spec = s.spec.clone();
                    for (i, n) in names.iter().enumerate() {
                        spec = spec.replace(&format!("${i}"), n);
                    }
                    let lit = LitStr::new(&spec, proc_macro2::Span::call_site());
                    let rt = LitStr::new(&s.ret, proc_macro2::Span::call_site());
                    let pt = LitStr::new(&ps.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "), proc_macro2::Span::call_site());
                    let body = &c.body;
                    *e = parse_quote!(vclosure__!(#pt, #rt, #lit, { #(#lets)* #body }));
                } else {
                    self.err("closure shape");
                }
            } else {
                self.err("closure without a contract");
            }
            return;
        }
        if let Expr::Struct(st) = e {
            if squeeze(&st.path) == "Self" {
                match &self.cfg.self_struct {
                    Some(n) => st.path = parse_str(n).expect("path in config"),
                    None => self.err("Self literal"),
                }
            }
        }
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "format_args") {
                match format_pieces(m.mac.tokens.clone()) {
                    Ok(ne) => { *e = ne; self.visit_expr_mut(e); }
                    Err(m) => self.err(m),
                }
                return;
            }
            self.err(format!("macro {}", squeeze(&m.mac.path)));
            return;
        }
        if let Expr::Path(p) = e {
            if p.path.segments.last().map_or(false, |s| s.ident == "REPLACEMENT_CHARACTER") {
                *e = parse_quote!(v_replacement());
                return;
            }
            if p.qself.is_none() {
                let segs = mapped(&p.path);
                if segs.len() == 1 {
                    if let Some(c) = self.krate.consts.get(&segs[0]) {
                        let mut c = c.clone();
                        self.visit_expr_mut(&mut c);
                        *e = parse_quote!((#c));
                        return;
                    }
                }
                if let Some(r) = map_path(&p.path) {
                    p.path = r;
                }
            }
            visit_mut::visit_expr_mut(self, e);
            return;
        }
        let is_loop = matches!(e, Expr::Loop(_) | Expr::While(_));
        let mut ordinal = 0;
        if is_loop {
            ordinal = self.loops.len();
            self.loops.push(match e { Expr::While(w) => format!("while {}", squeeze(&w.cond)), _ => "loop".into() });
        }
        visit_mut::visit_expr_mut(self, e);
        // --- after the children
        match e {
            Expr::Loop(l) => {
                let m: Stmt = parse_str(&format!("vloop__!({ordinal});")).unwrap();
                l.body.stmts.insert(0, m);
            }
            Expr::While(w) => {
                let m: Stmt = parse_str(&format!("vloop__!({ordinal});")).unwrap();
                w.body.stmts.insert(0, m);
            }
            Expr::Cast(c) => {
                let (x, t) = (&c.expr, &c.ty);
                *e = parse_quote!(VCast::<#t>::v_cast(#x));
            }
            Expr::Range(r) => {
                if let (Some(a), Some(b)) = (&r.start, &r.end) {
                    let ne: Expr = if matches!(r.limits, RangeLimits::HalfOpen(_)) { parse_quote!(VRange::v_new(#a, #b)) } else { parse_quote!(VRange::v_incl(#a, #b)) };
                    *e = ne;
                } else if let (Some(a), None) = (&r.start, &r.end) {
                    *e = parse_quote!(VFrom::v_new(#a));
                } else {
                    self.err("range");
                }
            }
            Expr::Binary(b) if bit_op(&b.op).is_some() && !is_lit(&b.left) && !is_lit(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                let (name, assign) = bit_op(&b.op).unwrap();
                let f = Ident::new(name, proc_macro2::Span::call_site());
                *e = if assign { parse_quote!(#l = VBit::#f(#l, #r)) } else { parse_quote!(VBit::#f(#l, #r)) };
            }
            Expr::Binary(b) if self.cfg.eq.contains(&self.fname) && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(veq(&#l, &#r)) } else { parse_quote!(!veq(&#l, &#r)) };
            }
            Expr::Binary(b) if self.cfg.cmp.contains(&self.fname) && matches!(b.op, BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = match b.op {
                    BinOp::Lt(_) => parse_quote!(VCmp::v_lt(#l, #r)),
                    BinOp::Le(_) => parse_quote!(VCmp::v_le(#l, #r)),
                    BinOp::Gt(_) => parse_quote!(({ let vl__ = #l; VCmp::v_lt(#r, vl__) })),
                    _ => parse_quote!(({ let vl__ = #l; VCmp::v_le(#r, vl__) })),
                };
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "expect" {
                    m.args.clear();
                }
                if self.cfg.ghost_methods.contains(&name) {
                    m.args.push(parse_quote!(vk__));
                }
                if let Some(w) = self.cfg.witness.get(&self.fname).and_then(|w| w.get(&name)) {
                    let w: Expr = parse_str(w).expect("witness in config");
                    m.args.push(parse_quote!(Ghost(#w)));
                }
                if self.cfg.mem_methods.contains(&name) {
                    m.args.push(parse_quote!(Tracked(vmem__)));
                }
                if let Some(n) = self.cfg.rename_methods.get(&name) {
                    m.method = Ident::new(n, proc_macro2::Span::call_site());
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    // <i64>::try_from(x), i64::try_from(x), i64::from(x)
                    let (t, last) = {
                        let n = p.path.segments.len();
                        let last = p.path.segments.last().unwrap().ident.to_string();
                        let t = match (&p.qself, n) {
                            (Some(q), _) => squeeze(&q.ty),
                            (None, 2) => p.path.segments[0].ident.to_string(),
                            _ => String::new(),
                        };
                        (t, last)
                    };
                    if INTS.contains(&t.as_str()) && c.args.len() == 1 && (last == "try_from" || last == "from") {
                        let ty: Type = parse_str(&t).unwrap();
                        let a = &c.args[0];
                        *e = if last == "from" { parse_quote!(VInto::<#ty>::v_into(#a)) } else { parse_quote!(VTryInto::<#ty>::v_try_into(#a)) };
                        return;
                    }
                    let full = if p.qself.is_none() { p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") } else { squeeze(p) };
                    if let Some(mem) = self.cfg.contracted.get(&full) {
                        c.args.push(parse_quote!(vk__));
                        if *mem {
                            c.args.push(parse_quote!(Tracked(vmem__)));
                        }
                    }
                    if self.cfg.ghost_fns.contains(&full) {
                        c.args.push(parse_quote!(vk__));
                    }
                    if self.cfg.mem_fns.contains(&full) {
                        c.args.push(parse_quote!(Tracked(vmem__)));
                    }
                    if let Some(n) = self.cfg.rename_fns.get(&full) {
                        p.path = parse_str(n).expect("path in config");
                        p.qself = None;
                    }
                }
            }
            _ => {}
        }
    }
}

struct Copies(HashMap<String, String>, Vec<String>);
impl<'a> Visit<'a> for Copies {
    fn visit_local(&mut self, l: &'a Local) {
        let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
        if let (Pat::Ident(i), Some(init)) = (pat, &l.init) {
            let src = squeeze(&init.expr);
            if i.mutability.is_some() {
                self.1.push(i.ident.to_string());
                if let Some(v) = self.0.values_mut().find(|v| **v == src) {
                    *v = i.ident.to_string();
                }
            }
        }
        visit::visit_local(self, l);
    }
}

/// `match s { [b'1', ..] | .. => a, _ => b }` as a chain of ifs on the length and the elements.
fn slice_match(m: &ExprMatch) -> Option<Expr> {
    fn elem(p: &Pat, x: &Expr) -> Option<Expr> {
        match p {
            Pat::Lit(l) => Some(parse_quote!(#x == #l)),
            Pat::Paren(p) => elem(&p.pat, x),
            Pat::Or(o) => {
                let mut c: Option<Expr> = None;
                for p in &o.cases { let t = elem(p, x)?; c = Some(match c { Some(y) => parse_quote!(#y || #t), None => t }); }
                let c = c?;
                Some(parse_quote!((#c)))
            }
            Pat::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), RangeLimits::Closed(_)) => Some(parse_quote!((#a <= #x && #x <= #b))),
                _ => None,
            },
            _ => None,
        }
    }
    fn cond(p: &Pat) -> Option<(Expr, Vec<Stmt>)> {
        match p {
            Pat::Wild(_) => Some((parse_quote!(true), vec![])),
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => { let n = &i.ident; Some((parse_quote!(true), vec![parse_quote!(let #n = vs__;)])) }
            Pat::Paren(p) => cond(&p.pat),
            Pat::Or(o) => {
                let mut c: Option<Expr> = None;
                for p in &o.cases {
                    let (x, b) = cond(p)?;
                    if !b.is_empty() { return None; }
                    c = Some(match c { Some(y) => parse_quote!(#y || #x), None => x });
                }
                Some((c?, vec![]))
            }
            Pat::Slice(s) => {
                let mut binds = vec![];
                let mut rest = false;
                let mut tests: Vec<Expr> = vec![];
                let n = s.elems.len();
                for (k, p) in s.elems.iter().enumerate() {
                    let last = k + 1 == n;
                    match p {
                        Pat::Rest(_) if last => rest = true,
                        Pat::Ident(i) if last && matches!(i.subpat.as_ref().map(|s| &*s.1), Some(Pat::Rest(_))) => {
                            rest = true;
                            let (x, k) = (&i.ident, LitInt::new(&k.to_string(), proc_macro2::Span::call_site()));
                            binds.push(parse_quote!(let #x = vs__.v_from(#k, vk__);));
                        }
                        Pat::Lit(_) | Pat::Or(_) | Pat::Range(_) | Pat::Paren(_) => { let k = LitInt::new(&k.to_string(), proc_macro2::Span::call_site()); tests.push(elem(p, &parse_quote!(vs__.v_at(#k, vk__)))?); }
                        Pat::Wild(_) => {}
                        Pat::Ident(i) if i.subpat.is_none() => { let (x, k) = (&i.ident, LitInt::new(&k.to_string(), proc_macro2::Span::call_site())); binds.push(parse_quote!(let #x = vs__.v_at(#k, vk__);)); }
                        _ => return None,
                    }
                }
                let len = LitInt::new(&(if rest { n - 1 } else { n }).to_string(), proc_macro2::Span::call_site());
                let mut c: Expr = if rest { parse_quote!(vs__.len() >= #len) } else { parse_quote!(vs__.len() == #len) };
                for t in tests { c = parse_quote!(#c && #t); }
                Some((parse_quote!((#c)), binds))
            }
            _ => None,
        }
    }
    let mut e: Option<Expr> = None;
    let mut arms: Vec<Arm> = vec![];
    for a in &m.arms {
        match (&a.pat, cond(&a.pat)) {
            (Pat::Or(o), None) => for p in &o.cases { let mut b = a.clone(); b.pat = p.clone(); arms.push(b); },
            _ => arms.push(a.clone()),
        }
    }
    for a in arms.iter().rev() {
        let (c, binds) = cond(&a.pat)?;
        let b = &a.body;
        let c: Expr = match &a.guard { Some((_, g)) if binds.is_empty() => parse_quote!(#c && #g), Some(_) => return None, None => c };
        let yes: Expr = parse_quote!({ #(#binds)* #b });
        e = Some(match e {
            None => { if squeeze(&c) != "true" { return None; } yes }
            Some(r) => parse_quote!(if #c #yes else { #r }),
        });
    }
    let (s, e) = (&m.expr, e?);
    Some(parse_quote!({ let vs__ = #s; #e }))
}

fn ghost_bytes(b: &[u8]) -> Expr {
    if b.is_empty() { return parse_quote!(Ghost(Seq::<u8>::empty())); }
    let v: Vec<LitInt> = b.iter().map(|x| LitInt::new(&format!("{x}u8"), proc_macro2::Span::call_site())).collect();
    // (seq! is not accepted in an argument)
    parse_quote!(Ghost(Seq::<u8>::empty()#(.push(#v))*))
}
fn str_lit(t: &str, v: &[u32]) -> Expr {
    let b = ghost_bytes(t.as_bytes());
    if v.is_empty() { return parse_quote!(VStr::v_lit(Ghost(Seq::<char>::empty()), #b)); }
    parse_quote!(VStr::v_lit(Ghost(v_text(Seq::<u32>::empty()#(.push(#v))*)), #b))
}
fn whole(f: &LitFloat) -> Option<u64> {
    let v = f.base10_parse::<f64>().ok()?;
    (f.suffix() != "f32" && v.fract() == 0.0 && (0.0..9e15).contains(&v)).then_some(v as u64)
}

/// The pieces of `format_args!("..", a, b)`: literal bytes, and values shown plainly, padded with zeros, or as a
/// floating point number with so many decimals, fixed or scientific.
fn format_pieces(ts: TokenStream) -> std::result::Result<Expr, String> {
    use syn::parse::Parser;
    let args = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts).map_err(|e| e.to_string())?;
    let mut it = args.into_iter();
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(f), .. })) = it.next() else { return Err("format string".into()) };
    let mut args: Vec<(Option<String>, Expr)> = vec![];
    for a in it {
        match a {
            Expr::Assign(x) => args.push((Some(squeeze(&x.left)), *x.right)),
            x => args.push((None, x)),
        }
    }
    let mut out: Expr = parse_quote!(VFmt::v_new());
    let text = f.value();
    let mut lit: Vec<u8> = vec![];
    let mut next = 0;
    let mut cs = text.chars().peekable();
    while let Some(c) = cs.next() {
        if (c == '{' || c == '}') && cs.peek() == Some(&c) { cs.next(); lit.push(c as u8); continue; }
        if c != '{' { let mut b = [0; 4]; lit.extend_from_slice(c.encode_utf8(&mut b).as_bytes()); continue; }
        let mut inner = String::new();
        loop { match cs.next() { Some('}') => break, Some(c) => inner.push(c), None => return Err("format string".into()) } }
        let (name, spec) = match inner.split_once(':') { Some((a, b)) => (a.trim().to_string(), b.to_string()), None => (inner.trim().to_string(), String::new()) };
        let x: Expr = if name.is_empty() { next += 1; args.get(next - 1).ok_or("format argument")?.1.clone() }
            else if let Ok(i) = name.parse::<usize>() { args.get(i).ok_or("format argument")?.1.clone() }
            else if let Some(a) = args.iter().find(|a| a.0.as_deref() == Some(&name)) { a.1.clone() }
            else { parse_str(&name).map_err(|_| "format argument".to_string())? };
        if !lit.is_empty() { let b = ghost_bytes(&lit); out = parse_quote!(VFmt::v_lit(#out, #b)); lit.clear(); }
        let num = |t: &str| t.parse::<u32>().ok().map(|n| LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
        out = if spec.is_empty() { parse_quote!(VFmt::v_disp(#out, &(#x))) }
            else if let Some(d) = spec.strip_prefix('.') {
                match (d.strip_suffix('e').and_then(num), num(d)) {
                    (Some(n), _) => parse_quote!(VFmt::v_sci(#out, &(#x), Ghost(#n))),
                    (_, Some(n)) => parse_quote!(VFmt::v_fixed(#out, &(#x), Ghost(#n))),
                    _ => return Err(format!("format specification {spec}")),
                }
            } else if let (true, Some(n)) = (spec.starts_with('0'), num(&spec)) { parse_quote!(VFmt::v_pad(#out, &(#x), Ghost(#n))) }
            else { return Err(format!("format specification {spec}")); };
    }
    if !lit.is_empty() { let b = ghost_bytes(&lit); out = parse_quote!(VFmt::v_lit(#out, #b)); }
    Ok(out)
}

fn map_path(p: &Path) -> Option<Path> {
    let segs = mapped(p);
    let old: Vec<String> = p.segments.iter().map(|x| x.ident.to_string()).collect();
    if segs == old && p.leading_colon.is_none() {
        return None;
    }
    let mut r: Path = parse_str(&segs.join("::")).ok()?;
    // keep the generic arguments of the last segment
    if let (Some(a), Some(b)) = (r.segments.last_mut(), p.segments.last()) {
        a.arguments = b.arguments.clone();
    }
    Some(r)
}

fn pretty(t: &str) -> String {
    let mut o = String::new();
    let mut d = 0i32;
    let mut instr = false;
    let mut prev = ' ';
    for c in t.chars() {
        if c == '"' && prev != '\\' {
            instr = !instr;
        }
        prev = c;
        if instr {
            o.push(c);
            continue;
        }
        match c {
            '{' => { d += 1; o.push_str("{\n"); o.push_str(&" ".repeat(2 * d as usize)); }
            '}' => { d -= 1; o.push('\n'); o.push_str(&" ".repeat(2 * d.max(0) as usize)); o.push_str("}\n"); o.push_str(&" ".repeat(2 * d.max(0) as usize)); }
            ';' => { o.push_str(";\n"); o.push_str(&" ".repeat(2 * d.max(0) as usize)); }
            _ => o.push(c),
        }
    }
    o
}

fn main() {
    let path = std::env::args().nth(1).expect("EXPANDED.rs");
    let text = std::fs::read_to_string(path).unwrap();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let cfg: Config = serde_json::from_str(&s).unwrap();
    let file = parse_file(&text).expect("expanded source does not parse");
    let mut krate = Crate { fns: HashMap::new(), consts: HashMap::new(), dup: HashSet::new() };
    collect(&file.items, &mut krate);
    let mut out = Out::default();
    for w in &cfg.want {
        let mut f = Func::default();
        let Some(it) = krate.fns.get(w) else {
            f.error = Some("no such function in the current source".into());
            out.functions.insert(w.clone(), f);
            continue;
        };
        f.source = format!("{} {}", it.sig.to_token_stream(), pretty(&it.block.to_token_stream().to_string()));
        let mut rw = Rw { krate: &krate, cfg: &cfg, fname: w.clone(), kinds: HashMap::new(), loops: vec![], iters: Default::default(), inlined: vec![], closures: 0, fors: 0, depth: 0, errors: vec![],
            generics: it.sig.generics.type_params().map(|p| p.ident.to_string()).collect() };
        let mut pre: Vec<TokenStream> = vec![];
        for a in &it.sig.inputs {
            match a {
                FnArg::Typed(t) => {
                    let mut ty = (*t.ty).clone();
                    let k = rw.type_kind(&ty);
                    rw.type_text(&mut ty);
                    if let Pat::Ident(i) = &*t.pat {
                        rw.kinds.insert(i.ident.to_string(), k);
                        if i.mutability.is_some() {
                            let n = &i.ident;
                            pre.push(quote!(let mut #n = #n;));
                        }
                        f.params.push((i.ident.to_string(), ty.to_token_stream().to_string()));
                    } else {
                        rw.err("parameter pattern");
                    }
                }
                FnArg::Receiver(r) => {
                    let mut ty: Type = (*r.ty).clone();
                    if let Some(st) = &it.self_ty {
                        if squeeze(&ty) == "Self" { ty = st.clone(); }
                    }
                    f.params.push(("vself__".into(), squeeze(&ty)));
                }
            }
        }
        f.generics = rw.generics.clone();
        f.ret = match &it.sig.output {
            ReturnType::Default => "()".into(),
            ReturnType::Type(_, t) => {
                let mut t = (**t).clone();
                if let Some(st) = &it.self_ty { if squeeze(&t) == "Self" { t = st.clone(); } }
                rw.type_text(&mut t);
                t.to_token_stream().to_string()
            }
        };
        let mut b = it.block.clone();
        struct SelfR;
        impl VisitMut for SelfR {
            fn visit_ident_mut(&mut self, i: &mut Ident) {
                if i == "self" { *i = Ident::new("vself__", i.span()); }
            }
        }
        if it.sig.receiver().is_some() { SelfR.visit_block_mut(&mut b); }
        rw.visit_block_mut(&mut b);
        let stmts = &b.stmts;
        let body = quote!({ #(#pre)* #(#stmts)* });
        f.body = pretty(&body.to_string());
        f.loops = rw.loops;
        f.iters = rw.iters;
        f.inlined = rw.inlined;
        let mut cp = Copies(f.params.iter().map(|(p, _)| (p.clone(), p.clone())).collect(), vec![]);
        cp.visit_block(&it.block);
        f.copies = cp.0;
        f.muts = cp.1;
        if !rw.errors.is_empty() {
            f.error = Some(rw.errors.join("; "));
        }
        out.functions.insert(w.clone(), f);
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}

/// `& | ^` and their assignments: the method that stands for them, and whether it assigns.
fn bit_op(op: &BinOp) -> Option<(&'static str, bool)> {
    Some(match op {
        BinOp::BitAnd(_) => ("v_and", false),
        BinOp::BitOr(_) => ("v_or", false),
        BinOp::BitXor(_) => ("v_xor", false),
        BinOp::BitAndAssign(_) => ("v_and", true),
        BinOp::BitOrAssign(_) => ("v_or", true),
        BinOp::BitXorAssign(_) => ("v_xor", true),
        _ => return None,
    })
}
fn is_lit(e: &Expr) -> bool {
    match e {
        Expr::Lit(l) => !matches!(l.lit, Lit::Bool(_)),
        Expr::Paren(p) => is_lit(&p.expr),
        _ => false,
    }
}
