//! Lowering of function bodies to the Rust subset Verus accepts.
//!
//! The result is text produced mechanically from the syntax tree of the real function:
//!  * calls to crate functions under contract stay calls;
//!  * calls to crate functions without contract (parser combinators, closures, helpers) are
//!    replaced by the body of the callee (alpha renamed), `?`/`return` of the inlined body being
//!    turned into nested matches;
//!  * calls to the standard library are renamed to wrappers (`t_*`) specified in the prelude;
//!  * loops get a marker that is replaced by the invariants of the contract.
use crate::load::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syn::visit::Visit;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
pub enum Bind {
    Var(String),
    Place(String),
    LitB(Vec<u8>),
    LitS(String),
    Fun(String),
    Clo(Rc<Clo>),
    Arr(Rc<(Vec<Expr>, Cx)>),
    /// the symbolic predicate of a class function
    Pred,
}
pub struct Clo {
    params: Vec<Pat>,
    body: Expr,
    cx: Cx,
}
#[derive(Clone)]
pub struct Cx {
    env: HashMap<String, Bind>,
    module: Vec<String>,
    chain: Vec<String>,
    native: bool,
    /// generics of the function being inlined (types mentioning them are not printed)
    generics: BTreeSet<String>,
    /// label -> variable receiving the value of `break 'label value`
    brk: Vec<(Option<String>, Option<String>)>,
    unrolled: bool,
}

#[derive(Clone, Debug)]
pub struct LoopInfo {
    pub visible: BTreeMap<String, String>,
    pub modified: Vec<String>,
}

#[derive(Default)]
pub struct FnOut {
    pub text: String,
    pub loops: Vec<LoopInfo>,
    pub callees: BTreeSet<String>,
    pub tw: BTreeSet<(String, String)>,
    pub preds: BTreeSet<(String, String)>,
    pub lits: BTreeSet<Vec<u8>>,
    pub slits: BTreeSet<Vec<u8>>,
    pub consts: BTreeSet<String>,
    pub inlined: BTreeSet<String>,
}

pub trait Oracle {
    fn has_contract(&self, key: &str) -> bool;
    fn is_class_fn(&self, key: &str) -> bool;
    /// name of the class of a 256-entry predicate
    fn class(&self, bits: &[bool; 256]) -> String;
}

pub struct Lower<'k> {
    pub k: &'k Krate,
    pub o: &'k dyn Oracle,
    pub out: FnOut,
    used: HashMap<String, usize>,
    stack: Vec<String>,
    size: usize,
    n_sp: usize,
    /// signature of the function, known before its body is lowered
    pub sig: String,
}

type K<'a> = &'a dyn Fn(&mut Lower, String) -> R<String>;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
pub fn hexname(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        if x.is_ascii_alphanumeric() {
            s.push(*x as char);
        } else {
            s.push_str(&format!("_{:02x}", x));
        }
    }
    s
}

struct Esc(bool);
impl<'a> Visit<'a> for Esc {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Try(_) | Expr::Return(_) => self.0 = true,
            Expr::Closure(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
fn esc(e: &Expr) -> bool {
    let mut v = Esc(false);
    v.visit_expr(e);
    v.0
}
struct HasCont(bool);
impl<'a> Visit<'a> for HasCont {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Continue(_) | Expr::Break(_) => self.0 = true,
            Expr::Closure(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_) => return,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
/// Removes references, casts to function types and full-range indexing around callables.
fn strip_callable(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_callable(&p.expr),
        Expr::Group(p) => strip_callable(&p.expr),
        Expr::Reference(r) => strip_callable(&r.expr),
        Expr::Cast(c) if matches!(&*c.ty, Type::BareFn(_)) => strip_callable(&c.expr),
        Expr::Index(i) => match &*i.index {
            Expr::Range(r) if r.start.is_none() && r.end.is_none() => strip_callable(&i.expr),
            _ => e,
        },
        Expr::MethodCall(m) if m.method == "as_mut_slice" || m.method == "as_mut" || m.method == "iter_mut" || m.method == "iter" => {
            strip_callable(&m.receiver)
        }
        _ => e,
    }
}
fn path_ident(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = strip(e) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}
fn segs(p: &Path) -> Vec<String> {
    p.segments.iter().map(|s| s.ident.to_string()).collect()
}
fn upper(s: &str) -> bool {
    s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Opt,
    Res,
    Iter,
}

impl<'k> Lower<'k> {
    pub fn new(k: &'k Krate, o: &'k dyn Oracle) -> Self {
        Lower { k, o, out: Default::default(), used: Default::default(), stack: vec![], size: 0, n_sp: 0, sig: String::new() }
    }
    fn fresh(&mut self, base: &str) -> String {
        let base = if base == "_" || base.is_empty() { "t" } else { base };
        let n = self.used.entry(base.to_string()).or_insert(0);
        *n += 1;
        if *n == 1 && !base.starts_with("__") {
            base.to_string()
        } else {
            format!("{}__{}", base.trim_start_matches('_'), n)
        }
    }
    fn lit(&mut self, b: &[u8]) -> String {
        self.out.lits.insert(b.to_vec());
        format!("lit_{}()", hexname(b))
    }
    fn slit(&mut self, b: &str) -> String {
        self.out.lits.insert(b.as_bytes().to_vec());
        self.out.slits.insert(b.as_bytes().to_vec());
        format!("slit_{}()", hexname(b.as_bytes()))
    }

    // ---------------------------------------------------------------- types
    pub fn ty(&self, t: &Type) -> String {
        struct T;
        impl visit_mut::VisitMut for T {
            fn visit_path_mut(&mut self, p: &mut Path) {
                visit_mut::visit_path_mut(self, p);
                let mut last = p.segments.last().unwrap().clone();
                if last.ident == "HashMap" {
                    last.ident = Ident::new("HMap", last.ident.span());
                }
                let mut n = punctuated::Punctuated::new();
                n.push(last);
                p.segments = n;
                p.leading_colon = None;
            }
        }
        let mut t = t.clone();
        visit_mut::VisitMut::visit_type_mut(&mut T, &mut t);
        toks(&t)
    }
    pub fn item_struct(&self, s: &ItemStruct) -> String {
        let g = toks(&s.generics);
        let f: Vec<String> = s
            .fields
            .iter()
            .map(|f| match &f.ident {
                Some(i) => format!("pub {}: {}", i, self.ty(&f.ty)),
                None => format!("pub {}", self.ty(&f.ty)),
            })
            .collect();
        match &s.fields {
            Fields::Named(_) => format!("pub struct {}{} {{ {} }}", s.ident, g, f.join(", ")),
            _ => format!("pub struct {}{}({});", s.ident, g, f.join(", ")),
        }
    }
    pub fn item_enum(&self, s: &ItemEnum) -> String {
        let g = toks(&s.generics);
        let v: Vec<String> = s
            .variants
            .iter()
            .map(|v| {
                let f: Vec<String> = v
                    .fields
                    .iter()
                    .map(|f| match &f.ident {
                        Some(i) => format!("{}: {}", i, self.ty(&f.ty)),
                        None => self.ty(&f.ty),
                    })
                    .collect();
                match &v.fields {
                    Fields::Named(_) => format!("{} {{ {} }}", v.ident, f.join(", ")),
                    Fields::Unnamed(_) => format!("{}({})", v.ident, f.join(", ")),
                    Fields::Unit => v.ident.to_string(),
                }
            })
            .collect();
        format!("pub enum {}{} {{ {} }}", s.ident, g, v.join(", "))
    }
    fn let_ty(&self, t: &Type, cx: &Cx) -> Option<String> {
        struct M<'a>(&'a BTreeSet<String>, bool);
        impl<'a, 'b> Visit<'b> for M<'a> {
            fn visit_path(&mut self, p: &'b Path) {
                if p.segments.len() == 1 && self.0.contains(&p.segments[0].ident.to_string()) {
                    self.1 = true;
                }
                visit::visit_path(self, p);
            }
            fn visit_type_impl_trait(&mut self, _: &'b TypeImplTrait) {
                self.1 = true;
            }
        }
        let mut m = M(&cx.generics, false);
        m.visit_type(t);
        if m.1 {
            return None;
        }
        // elide named lifetimes except 'static
        struct L;
        impl visit_mut::VisitMut for L {
            fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
                if l.ident != "static" {
                    *l = Lifetime::new("'_", l.span());
                }
            }
            fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                if r.lifetime.as_ref().map(|l| l.ident != "static").unwrap_or(false) {
                    r.lifetime = None;
                }
                visit_mut::visit_type_reference_mut(self, r);
            }
        }
        let mut t = t.clone();
        visit_mut::VisitMut::visit_type_mut(&mut L, &mut t);
        Some(self.ty(&t))
    }

    // ---------------------------------------------------------------- name resolution
    fn resolve_in(&self, module: &[String], name: &str, depth: usize) -> Option<String> {
        if depth > 6 {
            return None;
        }
        let key = format!("{}__{}", module.last().cloned().unwrap_or_else(|| "crate".into()), name);
        if let Some(f) = self.k.fns.get(&key) {
            if f.module == module && f.chain.is_empty() && f.self_ty.is_none() {
                return Some(key);
            }
        }
        let mi = self.k.mods.get(module)?;
        if let Some(p) = mi.named.get(name) {
            if let Some(r) = self.resolve_path(module, p, depth + 1) {
                return Some(r);
            }
        }
        for g in &mi.globs {
            if let Some(m) = self.abs_mod(module, g) {
                if m == module {
                    continue;
                }
                if let Some(r) = self.resolve_in(&m, name, depth + 1) {
                    return Some(r);
                }
            }
        }
        None
    }
    fn abs_mod(&self, module: &[String], p: &[String]) -> Option<Vec<String>> {
        let mut cur: Vec<String>;
        let mut rest = p;
        match p.first().map(|s| s.as_str()) {
            Some("crate") => {
                cur = vec![];
                rest = &p[1..];
            }
            Some("self") => {
                cur = module.to_vec();
                rest = &p[1..];
            }
            Some("super") => {
                cur = module.to_vec();
                while rest.first().map(|s| s == "super").unwrap_or(false) {
                    cur.pop()?;
                    rest = &rest[1..];
                }
            }
            Some("std") | Some("core") | Some("alloc") => return None,
            _ => {
                cur = module.to_vec();
                // child module, or a module imported by `use`
                if let Some(first) = p.first() {
                    let mut c = cur.clone();
                    c.push(first.clone());
                    if !self.k.mods.contains_key(&c) {
                        if let Some(imp) = self.k.mods.get(module).and_then(|m| m.named.get(first)) {
                            if imp.as_slice() != p {
                                let mut q = imp.clone();
                                q.extend_from_slice(&p[1..]);
                                return self.abs_mod(module, &q);
                            }
                        }
                        return None;
                    }
                }
            }
        }
        for s in rest {
            cur.push(s.clone());
        }
        if self.k.mods.contains_key(&cur) {
            Some(cur)
        } else {
            None
        }
    }
    fn resolve_path(&self, module: &[String], p: &[String], depth: usize) -> Option<String> {
        if p.len() == 1 {
            return self.resolve_in(module, &p[0], depth);
        }
        let (m, name) = p.split_at(p.len() - 1);
        if let Some(am) = self.abs_mod(module, m) {
            return self.resolve_in(&am, &name[0], depth);
        }
        // Type::method
        let key = format!("{}__{}", m.last().unwrap(), name[0]);
        if let Some(f) = self.k.fns.get(&key) {
            if f.self_ty.is_some() {
                return Some(key);
            }
        }
        None
    }
    fn resolve_fn(&self, p: &[String], cx: &Cx) -> Option<String> {
        if p.len() == 1 {
            // nested functions of the enclosing functions, innermost first
            let base = cx.module.last().cloned().unwrap_or_else(|| "crate".into());
            for n in (1..=cx.chain.len()).rev() {
                let mut key = base.clone();
                for c in &cx.chain[..n] {
                    key = format!("{}__{}", key, c);
                }
                key = format!("{}__{}", key, p[0]);
                if self.k.fns.contains_key(&key) {
                    return Some(key);
                }
            }
        }
        if p.len() >= 2 && p[0] == "Self" {
            for (k, f) in &self.k.fns {
                if f.module == cx.module && f.self_ty.is_some() && f.name == p[1] {
                    return Some(k.clone());
                }
            }
        }
        self.resolve_path(&cx.module, p, 0)
    }

    // ---------------------------------------------------------------- entry points
    pub fn base_cx(&self, f: &FnInfo, native: bool) -> Cx {
        let mut chain = f.chain.clone();
        chain.push(f.name.clone());
        let mut generics: BTreeSet<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        generics.insert("Self".into());
        Cx {
            env: HashMap::new(),
            module: f.module.clone(),
            chain,
            native,
            generics,
            brk: vec![],
            unrolled: false,
        }
    }
    /// Lowers a function under contract; returns (signature, body text).
    /// `pred`: the predicate given to a function that takes a character predicate.
    pub fn top(&mut self, f: &FnInfo, pred: Option<(&str, Bind)>) -> R<(String, String)> {
        let mut cx = self.base_cx(f, true);
        let mut sig = String::new();
        let mut pro = String::new();
        let mut n = 0;
        let mut callable_generics = BTreeSet::new();
        if pred.is_some() {
            for t in f.sig.generics.type_params() {
                callable_generics.insert(t.ident.to_string());
            }
        }
        for a in &f.sig.inputs {
            n += 1;
            match a {
                FnArg::Receiver(r) => {
                    let (_, t, _) = f.self_ty.as_ref().ok_or("self")?;
                    let ts = self.ty(t);
                    let ts = if let Some((_, lt)) = &r.reference {
                        let lt = lt.as_ref().map(|l| format!("'{} ", l.ident)).unwrap_or_default();
                        format!("&{}{}{}", lt, if r.mutability.is_some() { "mut " } else { "" }, ts)
                    } else {
                        ts
                    };
                    sig.push_str(&format!("p{}: {}, ", n, ts));
                    let v = self.fresh("self_");
                    pro.push_str(&format!("let {} = p{};\n", v, n));
                    cx.env.insert("self".into(), Bind::Var(v));
                }
                FnArg::Typed(t) => {
                    let is_pred = if let (Some((_, b)), Type::Path(p)) = (&pred, &*t.ty) {
                        if p.path.get_ident().map(|i| callable_generics.contains(&i.to_string())).unwrap_or(false) {
                            Some(b.clone())
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    if let Some(b) = is_pred {
                        if let Pat::Ident(i) = &*t.pat {
                            cx.env.insert(i.ident.to_string(), b);
                            continue;
                        }
                        return Err("predicate parameter pattern".into());
                    }
                    sig.push_str(&format!("p{}: {}, ", n, self.ty(&t.ty)));
                    // a plain identifier is bound to the parameter; other patterns too
                    let is_mut_ref = matches!(&*t.ty, Type::Reference(r) if r.mutability.is_some());
                    if is_mut_ref {
                        if let Pat::Ident(i) = &*t.pat {
                            cx.env.insert(i.ident.to_string(), Bind::Var(format!("p{}", n)));
                            continue;
                        }
                    }
                    let p = self.pat(&t.pat, &mut cx)?;
                    pro.push_str(&format!("let {} = p{};\n", p, n));
                }
            }
        }
        let ret = match &f.sig.output {
            ReturnType::Default => "".to_string(),
            ReturnType::Type(_, t) => {
                // `-> Self`
                let s = self.ty(t);
                format!(" -> (ret: {})", s)
            }
        };
        let mut gens: Vec<String> = vec![];
        if let Some((g, _, _)) = &f.self_ty {
            for l in g.lifetimes() {
                gens.push(toks(&l.lifetime));
            }
        }
        for l in f.sig.generics.lifetimes() {
            gens.push(toks(&l.lifetime));
        }
        if pred.is_none() && f.sig.generics.type_params().next().is_some() {
            return Err("generic function under contract".into());
        }
        if pred.is_some() {
            sig = format!("p0: Ghost<Cls>, {}", sig);
        }
        let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
        let full = format!("{}({}){}", g, sig.trim_end_matches(", "), ret);
        self.sig = full.clone();
        self.stack.push(f.key.clone());
        let body = self.block_native(&f.block, &cx)?;
        self.stack.pop();
        Ok((full, format!("{}{}", pro, body)))
    }

    fn budget(&mut self, s: &str) -> R<()> {
        self.size += s.len();
        if self.size > 40_000_000 {
            return Err("lowered text too large".into());
        }
        Ok(())
    }

    // ---------------------------------------------------------------- native blocks
    /// Contents of a block (without braces).
    fn block_native(&mut self, b: &Block, cx: &Cx) -> R<String> {
        let mut cx = cx.clone();
        self.stmts_native(&b.stmts, &mut cx)
    }
    fn stmts_native(&mut self, stmts: &[Stmt], cx: &mut Cx) -> R<String> {
        let mut o = String::new();
        for (idx, s) in stmts.iter().enumerate() {
            let last = idx + 1 == stmts.len();
            match s {
                Stmt::Local(l) => {
                    let t = self.local(l, cx)?;
                    o.push_str(&t);
                }
                Stmt::Item(_) => {}
                Stmt::Expr(e, semi) => {
                    let t = self.ex(e, cx)?;
                    if t.is_empty() {
                        continue;
                    }
                    o.push_str(&t);
                    if semi.is_some() || (!last && !t.trim_end().ends_with('}')) {
                        o.push(';');
                    }
                    if last && semi.is_some() && diverges(e) {
                        // keep the type of the block as is
                    }
                    o.push('\n');
                }
                Stmt::Macro(m) => {
                    let t = self.mac(&m.mac, cx)?;
                    if !t.is_empty() {
                        o.push_str(&t);
                        if m.semi_token.is_some() || !last {
                            o.push(';');
                        }
                        o.push('\n');
                    }
                }
            }
        }
        self.budget(&o)?;
        Ok(o)
    }
    /// A `let` statement without escape (or in native mode).
    fn local(&mut self, l: &Local, cx: &mut Cx) -> R<String> {
        let (pat, ty) = split_pat(&l.pat);
        match &l.init {
            None => {
                let p = self.pat(pat, cx)?;
                let t = ty.and_then(|t| self.let_ty(t, cx)).map(|t| format!(": {}", t)).unwrap_or_default();
                Ok(format!("let {}{};\n", p, t))
            }
            Some(init) => {
                if let Some((_, d)) = &init.diverge {
                    let v = self.ex(&init.expr, cx)?;
                    let els = self.ex_block_expr(d, cx)?;
                    // let-else: let (vars) = match v { pat => (vars), _ => diverge };
                    let names = pat_names(pat);
                    let mut c2 = cx.clone();
                    let p = self.pat(pat, &mut c2)?;
                    let inner: Vec<String> = names
                        .iter()
                        .map(|n| match c2.env.get(n) {
                            Some(Bind::Var(v)) => v.clone(),
                            _ => n.clone(),
                        })
                        .collect();
                    let mut outer = vec![];
                    for n in &names {
                        let f = self.fresh(n);
                        cx.env.insert(n.clone(), Bind::Var(f.clone()));
                        outer.push(f);
                    }
                    return Ok(format!(
                        "let ({},) = match {} {{ {} => ({},), _ => {{ {} }} }};\n",
                        outer.join(", "),
                        v,
                        p,
                        inner.join(", "),
                        els
                    ));
                }
                // local bound to a callable
                if let Pat::Ident(i) = pat {
                    if let Some(b) = self.as_callable(&init.expr, cx)? {
                        cx.env.insert(i.ident.to_string(), b);
                        return Ok(String::new());
                    }
                }
                let hint = ty.map(|t| self.ty(t));
                let v = self.ex_hint(&init.expr, cx, hint.as_deref())?;
                let t = ty.and_then(|t| self.let_ty(t, cx)).map(|t| format!(": {}", t)).unwrap_or_default();
                let p = self.pat(pat, cx)?;
                Ok(format!("let {}{} = {};\n", p, t, v))
            }
        }
    }

    // ---------------------------------------------------------------- patterns
    fn pat(&mut self, p: &Pat, cx: &mut Cx) -> R<String> {
        Ok(match p {
            Pat::Ident(i) => {
                let name = i.ident.to_string();
                if upper(&name) && i.by_ref.is_none() && i.subpat.is_none() {
                    return Ok(name); // constant or unit variant
                }
                let n = self.fresh(&name);
                cx.env.insert(name, Bind::Var(n.clone()));
                let sub = match &i.subpat {
                    Some((_, s)) => format!(" @ {}", self.pat(s, cx)?),
                    None => String::new(),
                };
                format!(
                    "{}{}{}{}",
                    if i.by_ref.is_some() { "ref " } else { "" },
                    if i.mutability.is_some() { "mut " } else { "" },
                    n,
                    sub
                )
            }
            Pat::Wild(_) => "_".into(),
            Pat::Rest(_) => "..".into(),
            Pat::Lit(l) => match &l.lit {
                Lit::ByteStr(_) | Lit::Str(_) => return Err("string literal pattern".into()),
                _ => toks(l),
            },
            Pat::Range(r) => toks(r),
            Pat::Paren(p) => self.pat(&p.pat, cx)?,
            Pat::Type(t) => self.pat(&t.pat, cx)?,
            Pat::Reference(r) => format!("&{}", self.pat(&r.pat, cx)?),
            Pat::Path(p) => self.path_text(&p.path),
            Pat::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|e| self.pat(e, cx)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Pat::TupleStruct(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|e| self.pat(e, cx)).collect();
                format!("{}({})", self.path_text(&t.path), v?.join(", "))
            }
            Pat::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", toks(&f.member), self.pat(&f.pat, cx)?));
                }
                if s.rest.is_some() {
                    v.push("..".into());
                }
                format!("{} {{ {} }}", self.path_text(&s.path), v.join(", "))
            }
            Pat::Or(o) => {
                // alternatives must bind the same names
                let mut alts = vec![];
                let mut first: Option<Cx> = None;
                for c in &o.cases {
                    if pat_names(c).is_empty() {
                        alts.push(self.pat(c, cx)?);
                    } else if first.is_none() {
                        alts.push(self.pat(c, cx)?);
                        first = Some(cx.clone());
                    } else {
                        // reuse the names chosen for the first alternative
                        let fc = first.clone().unwrap();
                        alts.push(self.pat_reuse(c, &fc)?);
                    }
                }
                alts.join(" | ")
            }
            _ => return Err(format!("pattern {}", toks(p))),
        })
    }
    fn pat_reuse(&mut self, p: &Pat, cx: &Cx) -> R<String> {
        let mut c2 = cx.clone();
        let t = self.pat(p, &mut c2)?;
        // textual replacement of the fresh names
        let mut t2 = t;
        for n in pat_names(p) {
            if let (Some(Bind::Var(a)), Some(Bind::Var(b))) = (c2.env.get(&n), cx.env.get(&n)) {
                t2 = replace_word(&t2, a, b);
            }
        }
        Ok(t2)
    }
    fn path_text(&self, p: &Path) -> String {
        let s: Vec<&PathSegment> = p.segments.iter().collect();
        let n = s.len();
        let f = |x: &PathSegment| {
            let mut x = x.clone();
            if x.ident == "HashMap" {
                x.ident = Ident::new("HMap", x.ident.span());
            }
            toks(&x)
        };
        if n >= 2 && upper(&s[n - 2].ident.to_string()) {
            format!("{}::{}", f(s[n - 2]), f(s[n - 1]))
        } else {
            f(s[n - 1])
        }
    }

    // ---------------------------------------------------------------- callables
    fn as_callable(&mut self, e: &Expr, cx: &Cx) -> R<Option<Bind>> {
        let s = strip_callable(e);
        match s {
            Expr::Closure(c) => {
                let mut ccx = cx.clone();
                ccx.brk = vec![];
                Ok(Some(Bind::Clo(Rc::new(Clo { params: c.inputs.iter().cloned().collect(), body: (*c.body).clone(), cx: ccx }))))
            }
            Expr::Path(p) => {
                let sg = segs(&p.path);
                if sg.len() == 1 {
                    match cx.env.get(&sg[0]) {
                        Some(b @ (Bind::Fun(_) | Bind::Clo(_) | Bind::Arr(_) | Bind::Pred)) => return Ok(Some(b.clone())),
                        Some(_) => return Ok(None),
                        None => {}
                    }
                }
                if upper(sg.last().unwrap()) {
                    return Ok(None);
                }
                Ok(self.resolve_fn(&sg, cx).map(Bind::Fun))
            }
            Expr::Array(a) => {
                let all: Vec<Expr> = a.elems.iter().cloned().collect();
                if all.is_empty() {
                    return Ok(None);
                }
                for x in &all {
                    if self.as_callable(x, cx)?.is_none() {
                        return Ok(None);
                    }
                }
                Ok(Some(Bind::Arr(Rc::new((all, cx.clone())))))
            }
            _ => Ok(None),
        }
    }
    fn call_bind(&mut self, b: &Bind, args: &[Expr], cx: &Cx) -> R<String> {
        match b {
            Bind::Pred => {
                let v: R<Vec<String>> = args.iter().map(|a| self.ex(a, cx)).collect();
                Ok(format!("vx_pred(p0, {})", v?.join(", ")))
            }
            Bind::Fun(key) => self.call_key(&key.clone(), args, cx),
            Bind::Clo(c) => {
                let mut ic = c.cx.clone();
                ic.native = false;
                ic.brk = vec![];
                ic.unrolled = false;
                let mut pro = String::new();
                if args.len() != c.params.len() {
                    return Err("closure arity".into());
                }
                for (p, a) in c.params.iter().zip(args) {
                    pro.push_str(&self.bind_arg(p, a, None, cx, &mut ic)?);
                }
                let body = self.fn_body_expr(&c.body, &ic)?;
                Ok(format!("{{ {}{} }}", pro, body))
            }
            _ => Err("call of a non callable".into()),
        }
    }
    fn fn_body_expr(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        let id: K = &|_, v| Ok(v);
        match strip(e) {
            Expr::Block(b) => self.e_stmts(&b.block.stmts, cx.clone(), id),
            e => self.e_expr(e, cx, id),
        }
    }
    fn bind_arg(&mut self, p: &Pat, a: &Expr, ty: Option<&Type>, cx: &Cx, ic: &mut Cx) -> R<String> {
        let (pat, pty) = split_pat(p);
        let ty = pty.or(ty);
        if let Pat::Ident(i) = pat {
            let name = i.ident.to_string();
            if let Some(b) = self.as_callable(a, cx)? {
                ic.env.insert(name, b);
                return Ok(String::new());
            }
            if let Some(b) = self.as_literal(a, cx) {
                if i.mutability.is_none() {
                    ic.env.insert(name, b);
                    return Ok(String::new());
                }
            }
            // `&mut x` given to an inlined function: the parameter is the place itself
            if let Expr::Reference(r) = strip(a) {
                if r.mutability.is_some() {
                    let pl = self.ex(&r.expr, cx)?;
                    ic.env.insert(name, Bind::Place(pl));
                    return Ok(String::new());
                }
            }
        }
        let v = self.ex(a, cx)?;
        let t = ty.and_then(|t| self.let_ty(t, ic)).map(|t| format!(": {}", t)).unwrap_or_default();
        let pt = self.pat(pat, ic)?;
        Ok(format!("let {}{} = {};\n", pt, t, v))
    }
    fn as_literal(&self, e: &Expr, cx: &Cx) -> Option<Bind> {
        match strip(e) {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(Bind::LitB(b.value())),
            Expr::Lit(ExprLit { lit: Lit::Str(b), .. }) => Some(Bind::LitS(b.value())),
            Expr::MethodCall(m) if m.method == "as_bytes" => match self.as_literal(&m.receiver, cx) {
                Some(Bind::LitS(s)) => Some(Bind::LitB(s.into_bytes())),
                _ => None,
            },
            e => match path_ident(e).and_then(|n| cx.env.get(&n).cloned()) {
                Some(b @ (Bind::LitB(_) | Bind::LitS(_))) => Some(b),
                _ => None,
            },
        }
    }
    fn call_key(&mut self, key: &str, args: &[Expr], cx: &Cx) -> R<String> {
        let f = self.k.fns.get(key).ok_or_else(|| format!("unknown function {}", key))?.clone();
        if self.o.has_contract(key) {
            if self.o.is_class_fn(key) {
                // predicate argument: last
                let (pred, rest) = args.split_last().ok_or("class function arity")?;
                if let Some(Bind::Pred) = self.as_callable(pred, cx)? {
                    let v: R<Vec<String>> = rest.iter().map(|a| self.ex(a, cx)).collect();
                    self.out.callees.insert(key.to_string());
                    return Ok(format!("{}(p0, {})", key, v?.join(", ")));
                }
                let cls = self.pred_class(pred, cx)?;
                self.out.tw.insert((key.to_string(), cls.clone()));
                let v: R<Vec<String>> = rest.iter().map(|a| self.ex(a, cx)).collect();
                self.out.callees.insert(key.to_string());
                return Ok(format!("{}(Ghost(Cls::{}), {})", key, cls, v?.join(", ")));
            }
            self.out.callees.insert(key.to_string());
            let mut v = vec![];
            for (i, a) in args.iter().enumerate() {
                let plain = matches!(f.sig.inputs.iter().nth(i), Some(FnArg::Typed(t)) if toks(&t.ty) == "& 'static str");
                if plain {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) = strip(a) {
                        v.push(toks(strip(a)));
                        continue;
                    }
                }
                // `&place` may deref to a slice of bytes
                let bytes = matches!(f.sig.inputs.iter().nth(i), Some(FnArg::Typed(t)) if matches!(&*t.ty, Type::Reference(r) if r.mutability.is_none() && toks(&r.elem) == "[u8]"));
                if let (true, Expr::Reference(r)) = (bytes, strip(a)) {
                    if matches!(strip(&r.expr), Expr::Field(_)) {
                        let x = self.ex(a, cx)?;
                        v.push(format!("t_bytes({})", x));
                        continue;
                    }
                }
                v.push(self.ex(a, cx)?);
            }
            let call = format!("{}({})", key, v.join(", "));
            if f.name == "tag_no_case" && args.len() >= 3 {
                if let (Some(Bind::LitB(a)), Some(Bind::LitB(b))) = (self.as_literal(&args[1], cx), self.as_literal(&args[2], cx)) {
                    return Ok(format!("{{ proof {{ assert(opp({}, {})) by (compute_only); }} {} }}", seqlit(&a), seqlit(&b), call));
                }
            }
            return Ok(call);
        }
        // inlining
        if self.stack.iter().filter(|s| *s == key).count() >= 1 {
            return Err(format!("recursive function without contract: {}", key));
        }
        self.out.inlined.insert(key.to_string());
        self.stack.push(key.to_string());
        let mut ic = self.base_cx(&f, false);
        let mut pro = String::new();
        let params: Vec<&FnArg> = f.sig.inputs.iter().collect();
        if params.len() != args.len() {
            return Err(format!("arity of {}", key));
        }
        for (p, a) in params.iter().zip(args) {
            match p {
                FnArg::Typed(t) => pro.push_str(&self.bind_arg(&t.pat, a, Some(&t.ty), cx, &mut ic)?),
                FnArg::Receiver(_) => {
                    let v = self.ex(a, cx)?;
                    let n = self.fresh("self_");
                    ic.env.insert("self".into(), Bind::Var(n.clone()));
                    pro.push_str(&format!("let {} = {};\n", n, v));
                }
            }
        }
        let id: K = &|_, v| Ok(v);
        let body = self.e_stmts(&f.block.stmts, ic, id)?;
        self.stack.pop();
        let r = format!("{{ {}{} }}", pro, body);
        self.budget(&r)?;
        Ok(r)
    }

    // ---------------------------------------------------------------- escape elimination
    fn e_stmts(&mut self, stmts: &[Stmt], mut cx: Cx, k: K) -> R<String> {
        let mut o = String::new();
        let mut i = 0;
        while i < stmts.len() {
            let rest = &stmts[i + 1..];
            let last = rest.is_empty();
            match &stmts[i] {
                Stmt::Item(_) => {}
                Stmt::Macro(m) => {
                    let t = self.mac(&m.mac, &cx)?;
                    if last && m.semi_token.is_none() {
                        o.push_str(&k(self, t)?);
                        return Ok(o);
                    }
                    if !t.is_empty() {
                        o.push_str(&t);
                        o.push_str(";\n");
                    }
                }
                Stmt::Local(l) => {
                    let e = l.init.as_ref().map(|x| &x.expr);
                    if e.map(|e| esc(e)).unwrap_or(false) && !cx.native {
                        let init = l.init.as_ref().unwrap();
                        if init.diverge.is_some() {
                            return Err("let-else with escape".into());
                        }
                        let (pat, ty) = split_pat(&l.pat);
                        let cx0 = cx.clone();
                        let kk = |lo: &mut Lower, v: String| -> R<String> {
                            let mut c = cx0.clone();
                            let t = ty.and_then(|t| lo.let_ty(t, &c)).map(|t| format!(": {}", t)).unwrap_or_default();
                            let p = lo.pat(pat, &mut c)?;
                            let r = lo.e_stmts(rest, c, k)?;
                            Ok(format!("let {}{} = {};\n{}", p, t, v, r))
                        };
                        let hint = ty.map(|t| self.ty(t));
                        o.push_str(&self.e_expr_hint(&init.expr, &cx, &kk, hint.as_deref())?);
                        return Ok(o);
                    }
                    if let (Some(init), false) = (&l.init, cx.native) {
                        if let Some((_, d)) = &init.diverge {
                            // let-else whose else branch returns
                            let v = self.ex(&init.expr, &cx)?;
                            let (pat, _) = split_pat(&l.pat);
                            let mut c = cx.clone();
                            let p = self.pat(pat, &mut c)?;
                            let els = self.e_expr(d, &cx, &|_, v| Ok(v))?;
                            let r = self.e_stmts(rest, c, k)?;
                            o.push_str(&format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", v, p, r, els));
                            return Ok(o);
                        }
                    }
                    let t = self.local(l, &mut cx)?;
                    o.push_str(&t);
                }
                Stmt::Expr(e, semi) => {
                    let se = strip(e);
                    if let Expr::ForLoop(f) = se {
                        if let Some(Bind::Arr(a)) = self.as_callable(&f.expr, &cx)? {
                            let cx0 = cx.clone();
                            let kk = |lo: &mut Lower, _v: String| -> R<String> {
                                if last {
                                    k(lo, "()".into())
                                } else {
                                    lo.e_stmts(rest, cx0.clone(), k)
                                }
                            };
                            o.push_str(&self.e_unroll(&a, 0, &f.pat, &f.body, &cx, &kk)?);
                            return Ok(o);
                        }
                    }
                    if last && semi.is_none() {
                        o.push_str(&self.e_expr(e, &cx, k)?);
                        return Ok(o);
                    }
                    if esc(e) && !cx.native {
                        let cx0 = cx.clone();
                        let kk = |lo: &mut Lower, v: String| -> R<String> {
                            let pre = if v == "()" || is_atom(&v) { String::new() } else { format!("{};\n", v) };
                            if last {
                                Ok(format!("{}{}", pre, k(lo, "()".into())?))
                            } else {
                                Ok(format!("{}{}", pre, lo.e_stmts(rest, cx0.clone(), k)?))
                            }
                        };
                        o.push_str(&self.e_expr(e, &cx, &kk)?);
                        return Ok(o);
                    }
                    let t = self.ex(e, &cx)?;
                    if !t.is_empty() {
                        o.push_str(&t);
                        o.push_str(if semi.is_some() || !t.trim_end().ends_with('}') { ";\n" } else { "\n" });
                    }
                }
            }
            i += 1;
        }
        o.push_str(&k(self, "()".into())?);
        self.budget(&o)?;
        Ok(o)
    }
    fn e_unroll(&mut self, a: &Rc<(Vec<Expr>, Cx)>, i: usize, pat: &Pat, body: &Block, cx: &Cx, k: K) -> R<String> {
        if i >= a.0.len() {
            return k(self, "()".into());
        }
        let mut h = HasCont(false);
        h.visit_block(body);
        if h.0 {
            return Err("continue/break in an unrolled loop".into());
        }
        let b = self.as_callable(&a.0[i], &a.1)?.ok_or("unrolled element")?;
        let mut c = cx.clone();
        match split_pat(pat).0 {
            Pat::Ident(p) => {
                c.env.insert(p.ident.to_string(), b);
            }
            _ => return Err("unrolled loop pattern".into()),
        }
        let kk = |lo: &mut Lower, v: String| -> R<String> {
            let pre = if v == "()" || is_atom(&v) { String::new() } else { format!("{};\n", v) };
            Ok(format!("{}{}", pre, lo.e_unroll(a, i + 1, pat, body, cx, k)?))
        };
        self.e_stmts(&body.stmts, c, &kk)
    }
    fn e_expr(&mut self, e: &Expr, cx: &Cx, k: K) -> R<String> {
        self.e_expr_hint(e, cx, k, None)
    }
    fn e_expr_hint(&mut self, e: &Expr, cx: &Cx, k: K, hint: Option<&str>) -> R<String> {
        let e = strip(e);
        if cx.native {
            let v = self.ex(e, cx)?;
            return k(self, v);
        }
        let unrollable = |_: &Expr| false;
        let _ = unrollable;
        if !esc(e) {
            // blocks may end with an unrolled loop
            if let Expr::Unsafe(u) = e {
                return self.e_stmts(&u.block.stmts, cx.clone(), k).map(|t| format!("{{ {} }}", t));
            }
            let v = self.ex_hint(e, cx, hint)?;
            return k(self, v);
        }
        match e {
            Expr::Return(r) => {
                let id: K = &|_, v| Ok(v);
                match &r.expr {
                    Some(x) => self.e_expr(x, cx, id),
                    None => Ok("()".into()),
                }
            }
            Expr::Try(t) => {
                let kind = self.kind(&t.expr, cx);
                let kk = |lo: &mut Lower, v: String| -> R<String> {
                    let x = lo.fresh("__v");
                    let y = lo.fresh("__e");
                    let r = k(lo, x.clone())?;
                    if kind == Some(Kind::Opt) {
                        Ok(format!("match {} {{ Some({}) => {{ {} }} None => None }}", v, x, r))
                    } else {
                        Ok(format!("match {} {{ Ok({}) => {{ {} }} Err({}) => Err({}) }}", v, x, r, y, y))
                    }
                };
                self.e_expr_hint(&t.expr, cx, &kk, hint)
            }
            Expr::Block(b) if b.label.is_none() => Ok(format!("{{ {} }}", self.e_stmts(&b.block.stmts, cx.clone(), k)?)),
            Expr::Unsafe(b) => Ok(format!("{{ {} }}", self.e_stmts(&b.block.stmts, cx.clone(), k)?)),
            Expr::If(i) => {
                if let Some(b) = self.const_cond(&i.cond) {
                    if b {
                        return Ok(format!("{{ {} }}", self.e_stmts(&i.then_branch.stmts, cx.clone(), k)?));
                    }
                    return match &i.else_branch {
                        Some((_, e)) => self.e_expr(e, cx, k),
                        None => k(self, "()".into()),
                    };
                }
                let els = |lo: &mut Lower| -> R<String> {
                    match &i.else_branch {
                        Some((_, e)) => lo.e_expr(e, cx, k),
                        None => k(lo, "()".into()),
                    }
                };
                if let Expr::Let(l) = strip(&i.cond) {
                    let body = |lo: &mut Lower, v: String| -> R<String> {
                        let mut c = cx.clone();
                        let p = lo.pat(&l.pat, &mut c)?;
                        let t = lo.e_stmts(&i.then_branch.stmts, c, k)?;
                        let e = els(lo)?;
                        Ok(format!("match {} {{ {} => {{ {} }} _ => {{ {} }} }}", v, p, t, e))
                    };
                    return self.e_expr(&l.expr, cx, &body);
                }
                let body = |lo: &mut Lower, v: String| -> R<String> {
                    let t = lo.e_stmts(&i.then_branch.stmts, cx.clone(), k)?;
                    let e = els(lo)?;
                    Ok(format!("if {} {{ {} }} else {{ {} }}", v, t, e))
                };
                self.e_expr(&i.cond, cx, &body)
            }
            Expr::Match(m) => {
                let body = |lo: &mut Lower, v: String| -> R<String> {
                    lo.match_with(m, v, cx, &|lo: &mut Lower, arm: &Expr, c: &Cx| lo.e_expr(arm, c, k))
                };
                self.e_expr(&m.expr, cx, &body)
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => Err("return or ? inside a loop of an inlined function".into()),
            _ => {
                // hoist the operands up to the last escaping one
                let mut e2 = e.clone();
                let mut ops: Vec<Expr> = vec![];
                {
                    let os = operands(&mut e2)?;
                    let last = os.iter().rposition(|o| esc(o)).ok_or("escape in an unsupported position")?;
                    for (n, o) in os.into_iter().enumerate() {
                        if n > last {
                            break;
                        }
                        if !esc(o) && (pure(o) || self.as_callable(o, cx)?.is_some()) {
                            continue;
                        }
                        let name = format!("__h{}", ops.len());
                        let id: Expr = parse_str(&name).unwrap();
                        ops.push(std::mem::replace(o, id));
                    }
                }
                self.e_hoist(&ops, 0, &e2, cx.clone(), k)
            }
        }
    }
    fn e_hoist(&mut self, ops: &[Expr], i: usize, e: &Expr, cx: Cx, k: K) -> R<String> {
        if i == ops.len() {
            let v = self.ex(e, &cx)?;
            return k(self, v);
        }
        let cx0 = cx.clone();
        let kk = |lo: &mut Lower, v: String| -> R<String> {
            let mut c = cx0.clone();
            let n = lo.fresh("__h");
            c.env.insert(format!("__h{}", i), Bind::Var(n.clone()));
            let r = lo.e_hoist(ops, i + 1, e, c, k)?;
            Ok(format!("let {} = {};\n{}", n, v, r))
        };
        // nested hoists reuse the names __h0.. of an inner scope: resolve the operand first
        self.e_expr(&ops[i], &cx, &kk)
    }

    // ---------------------------------------------------------------- match
    fn match_with(&mut self, m: &ExprMatch, v: String, cx: &Cx, arm_k: &dyn Fn(&mut Lower, &Expr, &Cx) -> R<String>) -> R<String> {
        fn lit_alts(p: &Pat, out: &mut Vec<Lit>) -> bool {
            match p {
                Pat::Or(o) => o.cases.iter().all(|c| lit_alts(c, out)),
                Pat::Paren(p) => lit_alts(&p.pat, out),
                Pat::Lit(l) if matches!(l.lit, Lit::Str(_) | Lit::ByteStr(_)) => {
                    out.push(l.lit.clone());
                    true
                }
                _ => false,
            }
        }
        let strm = m.arms.iter().any(|a| lit_alts(&a.pat, &mut vec![]));
        if !strm {
            let mut o = format!("match {} {{\n", v);
            for a in &m.arms {
                let mut c = cx.clone();
                let p = self.pat(&a.pat, &mut c)?;
                let g = match &a.guard {
                    Some((_, g)) => {
                        if esc(g) && !cx.native {
                            return Err("escape in a guard".into());
                        }
                        format!(" if {}", self.ex(g, &c)?)
                    }
                    None => String::new(),
                };
                let b = arm_k(self, &a.body, &c)?;
                o.push_str(&format!("{}{} => {{ {} }}\n", p, g, b));
            }
            o.push('}');
            return Ok(o);
        }
        let sv = self.fresh("__m");
        let mut o = format!("{{ let {} = {};\n", sv, v);
        let mut closes = 0;
        let mut done = false;
        for a in &m.arms {
            let mut lits = vec![];
            if lit_alts(&a.pat, &mut lits) {
                let mut conds = vec![];
                for l in lits {
                    conds.push(match l {
                        Lit::Str(s) => format!("t_streq({}, {})", sv, self.slit(&s.value())),
                        Lit::ByteStr(b) => format!("t_bytes_eq({}, {})", sv, self.lit(&b.value())),
                        _ => unreachable!(),
                    });
                }
                let g = match &a.guard {
                    Some((_, g)) => format!(" && ({})", self.ex(g, cx)?),
                    None => String::new(),
                };
                let b = arm_k(self, &a.body, cx)?;
                o.push_str(&format!("if ({}){} {{ {} }} else ", conds.join(" || "), g, b));
            } else {
                if a.guard.is_some() {
                    return Err("guard in a string match".into());
                }
                let mut c = cx.clone();
                let pre = match &a.pat {
                    Pat::Wild(_) => String::new(),
                    Pat::Ident(_) => format!("let {} = {}; ", self.pat(&a.pat, &mut c)?, sv),
                    _ => return Err("pattern in a string match".into()),
                };
                let b = arm_k(self, &a.body, &c)?;
                o.push_str(&format!("{{ {}{} }}", pre, b));
                done = true;
                break;
            }
            closes += 1;
        }
        let _ = closes;
        if !done {
            return Err("string match without default".into());
        }
        o.push('}');
        Ok(o)
    }

    // ---------------------------------------------------------------- kinds
    fn kind_of_type(&self, t: &Type) -> Option<Kind> {
        match t {
            Type::Path(p) => {
                let l = p.path.segments.last()?.ident.to_string();
                match l.as_str() {
                    "Result" | "Res" => Some(Kind::Res),
                    "Option" => Some(Kind::Opt),
                    _ => None,
                }
            }
            Type::Paren(p) => self.kind_of_type(&p.elem),
            _ => None,
        }
    }
    fn kind(&self, e: &Expr, cx: &Cx) -> Option<Kind> {
        match strip(e) {
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let sg = segs(&p.path);
                    match sg.last().unwrap().as_str() {
                        "Ok" | "Err" => return Some(Kind::Res),
                        "Some" => return Some(Kind::Opt),
                        "from_utf8" => return Some(Kind::Res),
                        _ => {}
                    }
                    if sg.len() == 1 {
                        match cx.env.get(&sg[0]) {
                            Some(Bind::Fun(k)) => {
                                if let ReturnType::Type(_, t) = &self.k.fns.get(k)?.sig.output {
                                    return self.kind_of_type(t);
                                }
                            }
                            Some(Bind::Clo(c)) => return self.kind(&c.body, &c.cx),
                            Some(_) => return None,
                            None => {}
                        }
                    }
                    if let Some(k) = self.resolve_fn(&sg, cx) {
                        if let ReturnType::Type(_, t) = &self.k.fns.get(&k)?.sig.output {
                            return self.kind_of_type(t);
                        }
                    }
                }
                None
            }
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "get" | "get_mut" | "copied" | "cloned" | "next" | "ok" | "checked_add" | "checked_mul" | "checked_sub" | "first" | "last"
                | "pop" | "or" | "filter" | "strip_prefix" | "split_first" | "as_deref" => Some(Kind::Opt),
                "parse" | "ok_or" | "ok_or_else" | "map_err" => Some(Kind::Res),
                "iter" | "into_iter" | "chars" | "iter_mut" | "bytes" => Some(Kind::Iter),
                "remove" => Some(Kind::Opt),
                "map" | "and_then" | "or_else" => self.kind(&m.receiver, cx),
                _ => None,
            },
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e, cx),
                _ => None,
            },
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e, cx),
                _ => None,
            },
            Expr::Try(t) => {
                let _ = t;
                None
            }
            Expr::Path(p) => {
                if p.path.is_ident("None") {
                    return Some(Kind::Opt);
                }
                None
            }
            Expr::Field(f) => {
                if let Member::Named(n) = &f.member {
                    let mut ks = BTreeSet::new();
                    for s in self.k.structs.values() {
                        for fl in &s.fields {
                            if fl.ident.as_ref() == Some(n) {
                                if let Some(Kind::Opt) = self.kind_of_type(&fl.ty) {
                                    ks.insert(1);
                                } else {
                                    ks.insert(0);
                                }
                            }
                        }
                    }
                    if ks.len() == 1 && ks.contains(&1) {
                        return Some(Kind::Opt);
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn const_cond(&self, e: &Expr) -> Option<bool> {
        match strip(e) {
            Expr::Macro(m) if m.mac.path.is_ident("cfg") => Some(self.k.cfg.eval_tokens(m.mac.tokens.clone())),
            Expr::Lit(ExprLit { lit: Lit::Bool(b), .. }) => Some(b.value),
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.const_cond(&u.expr).map(|b| !b),
            _ => None,
        }
    }

    // ---------------------------------------------------------------- expressions
    fn ex_block_expr(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        match strip(e) {
            Expr::Block(b) if b.label.is_none() => self.block_native_m(&b.block, cx),
            e => self.ex(e, cx),
        }
    }
    /// Contents of a nested block in the mode of the context.
    fn block_native_m(&mut self, b: &Block, cx: &Cx) -> R<String> {
        if cx.native {
            self.block_native(b, cx)
        } else {
            // no escape inside (checked by the caller)
            let id: K = &|_, v| Ok(v);
            let has_tail = matches!(b.stmts.last(), Some(Stmt::Expr(_, None)) | Some(Stmt::Macro(StmtMacro { semi_token: None, .. })));
            if has_tail {
                self.e_stmts(&b.stmts, cx.clone(), id)
            } else {
                self.e_stmts(&b.stmts, cx.clone(), &|_, v| Ok(if v == "()" { String::new() } else { v }))
            }
        }
    }
    fn ex(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        self.ex_hint(e, cx, None)
    }
    fn exs(&mut self, es: &[&Expr], cx: &Cx) -> R<Vec<String>> {
        es.iter().map(|e| self.ex(e, cx)).collect()
    }
    fn ex_hint(&mut self, e: &Expr, cx: &Cx, hint: Option<&str>) -> R<String> {
        let r = self.ex_inner(e, cx, hint)?;
        self.budget(&r)?;
        Ok(r)
    }
    fn ex_inner(&mut self, e: &Expr, cx: &Cx, hint: Option<&str>) -> R<String> {
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.ex_hint(&p.expr, cx, hint)?),
            Expr::Group(p) => format!("({})", self.ex_hint(&p.expr, cx, hint)?),
            Expr::Lit(l) => match &l.lit {
                Lit::ByteStr(b) => self.lit(&b.value()),
                Lit::Str(s) => self.slit(&s.value()),
                Lit::Byte(b) => format!("{}u8", b.value()),
                _ => toks(l),
            },
            Expr::Path(p) => {
                let sg = segs(&p.path);
                if sg.len() == 1 && p.qself.is_none() {
                    match cx.env.get(&sg[0]).cloned() {
                        Some(Bind::Var(v)) => return Ok(v),
                        Some(Bind::Place(v)) => return Ok(format!("(&mut {})", v)),
                        Some(Bind::LitB(b)) => return Ok(self.lit(&b)),
                        Some(Bind::LitS(b)) => return Ok(self.slit(&b)),
                        Some(_) => return Err(format!("callable {} used as a value", sg[0])),
                        None => {}
                    }
                }
                let last = sg.last().unwrap().clone();
                if self.k.consts.contains_key(&last) && sg.len() == 1 {
                    let t = self.k.consts[&last].ty.to_token_stream().to_string().replace(' ', "").replace("'static", "");
                    if !(t.starts_with("[u8;") || t == "&[u8]" || t.starts_with("&[u8;")) {
                        return Err(format!("constant {} of type {}", last, t));
                    }
                    self.out.consts.insert(last.clone());
                    return Ok(format!("const_{}()", last));
                }
                if sg.len() == 1 && !upper(&last) {
                    return Err(format!("unresolved name {}", last));
                }
                self.path_text(&p.path)
            }
            Expr::Tuple(t) => {
                let v: Vec<&Expr> = t.elems.iter().collect();
                let v = self.exs(&v, cx)?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Array(a) => {
                let v: Vec<&Expr> = a.elems.iter().collect();
                format!("[{}]", self.exs(&v, cx)?.join(", "))
            }
            Expr::Struct(s) => {
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", toks(&f.member), self.ex(&f.expr, cx)?));
                }
                if s.rest.is_some() {
                    return Err("struct update syntax".into());
                }
                format!("{} {{ {} }}", self.path_text(&s.path), v.join(", "))
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = strip(&r.expr) {
                    if let Expr::Range(rg) = strip(&i.index) {
                        return self.slice(&i.expr, rg, cx);
                    }
                }
                if r.mutability.is_some() {
                    if let Some(n) = path_ident(&r.expr) {
                        if let Some(Bind::Place(p)) = cx.env.get(&n) {
                            return Ok(format!("(&mut {})", p));
                        }
                    }
                    return Ok(format!("&mut {}", self.ex(&r.expr, cx)?));
                }
                if let Expr::Lit(ExprLit { lit: Lit::ByteStr(_) | Lit::Str(_), .. }) = strip(&r.expr) {
                    return self.ex(&r.expr, cx);
                }
                format!("&{}", self.ex(&r.expr, cx)?)
            }
            Expr::Unary(u) => match &u.op {
                UnOp::Deref(_) => {
                    // dereference of an inlined `&mut` parameter is the place itself
                    if let Some(n) = path_ident(&u.expr) {
                        if let Some(Bind::Place(p)) = cx.env.get(&n) {
                            return Ok(p.clone());
                        }
                    }
                    format!("*{}", self.ex_atom(&u.expr, cx)?)
                }
                UnOp::Not(_) => format!("!({})", self.ex(&u.expr, cx)?),
                UnOp::Neg(_) => format!("-({})", self.ex(&u.expr, cx)?),
                _ => return Err("unary".into()),
            },
            Expr::Binary(b) => self.binary(b, cx)?,
            Expr::Assign(a) => self.assign(a, cx)?,
            Expr::Cast(c) => {
                if matches!(&*c.ty, Type::BareFn(_)) {
                    return Err("function value".into());
                }
                format!("({} as {})", self.ex(&c.expr, cx)?, self.ty(&c.ty))
            }
            Expr::Field(f) => format!("{}.{}", self.ex_atom(&f.base, cx)?, toks(&f.member)),
            Expr::Index(i) => {
                if let Expr::Range(r) = strip(&i.index) {
                    let s = self.slice(&i.expr, r, cx)?;
                    return Ok(format!("*{}", s));
                }
                format!("{}[{}]", self.ex_atom(&i.expr, cx)?, self.ex(&i.index, cx)?)
            }
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                format!("{{ {} }}", self.block_native_m(&b.block, cx)?)
            }
            Expr::Unsafe(b) => format!("{{ {} }}", self.block_native_m(&b.block, cx)?),
            Expr::If(i) => self.if_expr(i, cx)?,
            Expr::Match(m) => {
                let v = self.ex(&m.expr, cx)?;
                self.match_with(m, v, cx, &|lo, arm, c| lo.ex_block_expr(arm, c))?
            }
            Expr::Let(_) => return Err("let in an expression".into()),
            Expr::Call(c) => self.call(c, cx, hint)?,
            Expr::MethodCall(m) => self.method(m, cx, hint)?,
            Expr::Macro(m) => self.mac(&m.mac, cx)?,
            Expr::Try(t) => {
                if !cx.native {
                    return Err("? in an unsupported position".into());
                }
                format!("({})?", self.ex_hint(&t.expr, cx, hint)?)
            }
            Expr::Return(r) => {
                if !cx.native {
                    return Err("return in an unsupported position".into());
                }
                match &r.expr {
                    Some(x) => format!("return {}", self.ex(x, cx)?),
                    None => "return".into(),
                }
            }
            Expr::Break(b) => {
                let l = b.label.as_ref().map(|l| l.ident.to_string());
                let target = match &l {
                    Some(n) => cx.brk.iter().rev().find(|x| x.0.as_ref() == Some(n)),
                    None => cx.brk.last(),
                }
                .ok_or("break outside a loop")?
                .clone();
                let lt = target.0.as_ref().map(|l| format!(" '{}", l)).unwrap_or_default();
                match &b.expr {
                    Some(x) => {
                        let var = target.1.ok_or("break with value")?;
                        format!("{{ {} = {}; break{}; }}", var, self.ex(x, cx)?, lt)
                    }
                    None => format!("break{}", if l.is_some() { lt } else { String::new() }),
                }
            }
            Expr::Continue(c) => match &c.label {
                Some(l) => format!("continue {}", toks(l)),
                None => "continue".into(),
            },
            Expr::Loop(l) => {
                let lab = l.label.as_ref().map(|l| l.name.ident.to_string());
                let mut bv = BreakVal(false, 0, lab.clone());
                bv.visit_block(&l.body);
                let var = if bv.0 { Some(self.fresh("__bv")) } else { None };
                let lab = if var.is_some() && lab.is_none() { Some(self.fresh("__lab")) } else { lab };
                let mut c = cx.clone();
                c.brk.push((lab.clone(), var.clone()));
                let mut vis = cx.clone();
                if let Some(v) = &var {
                    vis.env.insert("bv".into(), Bind::Var(v.clone()));
                }
                let (mk, n) = self.loop_mark(&vis);
                let b = self.block_native_m(&l.body, &c)?;
                self.loop_done(n, &b);
                let lt = lab.as_ref().map(|l| format!("'{}: ", l)).unwrap_or_default();
                match var {
                    Some(v) => format!("{{ let {};\n{}loop {}\n{{ /*@B{}*/ {} }}/*@E{}*/\n{} }}", v, lt, mk, n, b, n, v),
                    None => format!("{}loop {}\n{{ /*@B{}*/ {} }}/*@E{}*/", lt, mk, n, b, n),
                }
            }
            Expr::While(w) => {
                let lab = w.label.as_ref().map(|l| l.name.ident.to_string());
                let mut c = cx.clone();
                c.brk.push((lab.clone(), None));
                let (mk, n) = self.loop_mark(cx);
                let lt = lab.as_ref().map(|l| format!("'{}: ", l)).unwrap_or_default();
                let b = match strip(&w.cond) {
                    Expr::Let(l) => {
                        let v = self.ex(&l.expr, cx)?;
                        let p = self.pat(&l.pat, &mut c)?;
                        let b = self.block_native_m(&w.body, &c)?;
                        format!("match {} {{ {} => {{ {} }}\n_ => {{ break; }} }}", v, p, b)
                    }
                    cond => {
                        let v = self.ex(cond, cx)?;
                        let b = self.block_native_m(&w.body, &c)?;
                        format!("if !({}) {{ break; }}\n{}", v, b)
                    }
                };
                self.loop_done(n, &b);
                format!("{}loop {}\n{{ /*@B{}*/ {} }}/*@E{}*/", lt, mk, n, b, n)
            }
            Expr::ForLoop(f) => self.for_loop(f, cx)?,
            Expr::Closure(_) => return Err("closure as a value".into()),
            _ => return Err(format!("expression {}", short(&toks(e)))),
        })
    }
    fn ex_atom(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        if let Expr::Index(i) = strip(e) {
            if let Expr::Range(rg) = strip(&i.index) {
                return self.slice(&i.expr, rg, cx);
            }
        }
        let t = self.ex(e, cx)?;
        if is_atom(&t) || t.starts_with('(') {
            return Ok(t);
        }
        match strip(e) {
            Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Index(_) => Ok(t),
            Expr::Call(_) if !t.starts_with('{') && !t.starts_with("match") => Ok(t),
            _ => Ok(format!("({})", t)),
        }
    }
    fn loop_mark(&mut self, cx: &Cx) -> (String, usize) {
        let n = self.out.loops.len();
        let mut visible = BTreeMap::new();
        for (k, b) in &cx.env {
            match b {
                Bind::Var(v) | Bind::Place(v) => {
                    visible.insert(k.clone(), v.clone());
                }
                _ => {}
            }
        }
        self.out.loops.push(LoopInfo { visible, modified: vec![] });
        (format!("/*@L{}*/", n), n)
    }
    fn loop_done(&mut self, n: usize, body: &str) {
        let vis = self.out.loops[n].visible.clone();
        let mut m = vec![];
        for (_, v) in vis {
            if modifies(body, &v) {
                m.push(v);
            }
        }
        m.sort();
        m.dedup();
        self.out.loops[n].modified = m;
    }
    fn for_loop(&mut self, f: &ExprForLoop, cx: &Cx) -> R<String> {
        let lab = f.label.as_ref().map(|l| l.name.ident.to_string());
        let lt = lab.as_ref().map(|l| format!("'{}: ", l)).unwrap_or_default();
        let it = strip(&f.expr);
        if let Some(Bind::Arr(a)) = self.as_callable(it, cx)? {
            let id: K = &|_, _| Ok(String::new());
            if cx.native {
                let mut o = String::new();
                for x in &a.0 {
                    let b = self.as_callable(x, &a.1)?.ok_or("unrolled element")?;
                    let mut c = cx.clone();
                    match split_pat(&f.pat).0 {
                        Pat::Ident(p) => {
                            c.env.insert(p.ident.to_string(), b);
                        }
                        _ => return Err("unrolled loop pattern".into()),
                    }
                    o.push_str(&format!("{{ {} }}\n", self.block_native(&f.body, &c)?));
                }
                return Ok(o);
            }
            return self.e_unroll(&a, 0, &f.pat, &f.body, cx, id);
        }
        let mut c = cx.clone();
        c.brk.push((lab.clone(), None));
        if let Expr::Range(r) = it {
            let a = self.ex(r.start.as_ref().ok_or("range start")?, cx)?;
            let b = self.ex(r.end.as_ref().ok_or("range end")?, cx)?;
            let incl = matches!(r.limits, RangeLimits::Closed(_));
            if incl {
                return Err("inclusive range loop".into());
            }
            let base = match split_pat(&f.pat).0 {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "idx".into(),
            };
            let cnt = self.fresh(&format!("{}_next", base));
            let end = self.fresh(&format!("{}_end", base));
            let mut vis_cx = cx.clone();
            vis_cx.env.insert(base.clone(), Bind::Var(cnt.clone()));
            vis_cx.env.insert(format!("{}_end", base), Bind::Var(end.clone()));
            let (mk, n) = self.loop_mark(&vis_cx);
            let p = self.pat(&f.pat, &mut c)?;
            let body = self.block_native_m(&f.body, &c)?;
            let inner = format!("if !({} < {}) {{ break; }}\nlet {} = {};\n{} = {} + 1;\n{}", cnt, end, p, cnt, cnt, cnt, body);
            self.loop_done(n, &inner);
            // the invariant `counter <= end or empty range` is a consequence of the lowering itself
            return Ok(format!(
                "{{ let {} = {};\nlet mut {} = {};\n/*@Rs{} {} {} */{}loop {}\n{{ /*@B{}*/ {} }}/*@E{}*/ }}",
                end, b, cnt, a, n, cnt, end, lt, mk, n, inner, n
            ));
        }
        // `for byte in vec.iter_mut()`: index loop over the places of the vector
        if let Expr::MethodCall(m) = it {
            if m.method == "iter_mut" {
                if let (Some(_), Pat::Ident(p)) = (path_ident(&m.receiver), split_pat(&f.pat).0) {
                    let v = self.ex(&m.receiver, cx)?;
                    let cnt = self.fresh("k_next");
                    let mut vis_cx = cx.clone();
                    vis_cx.env.insert("k".into(), Bind::Var(cnt.clone()));
                    let (mk, n) = self.loop_mark(&vis_cx);
                    let kv = self.fresh("k");
                    c.env.insert(p.ident.to_string(), Bind::Place(format!("{}[{}]", v, kv)));
                    let body = self.block_native_m(&f.body, &c)?;
                    let inner = format!("if !({} < {}.t_len()) {{ break; }}\nlet {} = {};\n{} = {} + 1;\n{}", cnt, v, kv, cnt, cnt, cnt, body);
                    self.loop_done(n, &inner);
                    return Ok(format!("{{ let mut {}: usize = 0;\n{}loop {}\n{{ /*@B{}*/ {} }}/*@E{}*/ }}", cnt, lt, mk, n, inner, n));
                }
                // map of maps: the entries are visited in an unspecified order
                let v = self.ex(&m.receiver, cx)?;
                return self.iter_loop(f, &format!("{}.t_iter_all()", v), cx, c, &lt);
            }
        }
        let src = match it {
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => format!("{}.t_into_iter()", self.ex_atom(&m.receiver, cx)?),
            Expr::MethodCall(m) if m.method == "chars" => format!("{}.t_chars()", self.ex_atom(&m.receiver, cx)?),
            Expr::MethodCall(m) if m.method == "iter" => format!("{}.t_iter()", self.ex_atom(&m.receiver, cx)?),
            Expr::MethodCall(m) if m.method == "bytes" => format!("{}.t_iter()", self.ex_atom(&m.receiver, cx)?),
            e => format!("{}.t_into_iter()", self.ex_atom(e, cx)?),
        };
        self.iter_loop(f, &src, cx, c, &lt)
    }
    fn iter_loop(&mut self, f: &ExprForLoop, src: &str, cx: &Cx, mut c: Cx, lt: &str) -> R<String> {
        let itv = self.fresh("it");
        let mut vis_cx = cx.clone();
        vis_cx.env.insert("it".into(), Bind::Var(itv.clone()));
        let (mk, n) = self.loop_mark(&vis_cx);
        let p = self.pat(&f.pat, &mut c)?;
        let body = self.block_native_m(&f.body, &c)?;
        let inner = format!("match {}.t_next() {{ Some({}) => {{ {} }}\nNone => {{ break; }} }}", itv, p, body);
        self.loop_done(n, &inner);
        Ok(format!("{{ let mut {} = {};\n{}loop {}\n{{ /*@B{}*/ {} }}/*@E{}*/ }}", itv, src, lt, mk, n, inner, n))
    }
    fn slice(&mut self, base: &Expr, r: &ExprRange, cx: &Cx) -> R<String> {
        let b = self.ex_atom(base, cx)?;
        if matches!(r.limits, RangeLimits::Closed(_)) {
            // `..=e` panics for e == usize::MAX as `e + 1` does
            let e = self.ex(r.end.as_ref().ok_or("range end")?, cx)?;
            return Ok(match &r.start {
                Some(s) => format!("{}.t_sl_rng({}, ({}) + 1)", b, self.ex(s, cx)?, e),
                None => format!("{}.t_sl_to(({}) + 1)", b, e),
            });
        }
        Ok(match (&r.start, &r.end) {
            (Some(s), None) => format!("{}.t_sl_from({})", b, self.ex(s, cx)?),
            (None, Some(e)) => format!("{}.t_sl_to({})", b, self.ex(e, cx)?),
            (Some(s), Some(e)) => format!("{}.t_sl_rng({}, {})", b, self.ex(s, cx)?, self.ex(e, cx)?),
            (None, None) => format!("{}.t_sl_from(0)", b),
        })
    }
    fn if_expr(&mut self, i: &ExprIf, cx: &Cx) -> R<String> {
        if let Some(b) = self.const_cond(&i.cond) {
            return if b {
                Ok(format!("{{ {} }}", self.block_native_m(&i.then_branch, cx)?))
            } else {
                match &i.else_branch {
                    Some((_, e)) => self.ex(e, cx),
                    None => Ok(String::new()),
                }
            };
        }
        let els = |lo: &mut Lower| -> R<Option<String>> {
            match &i.else_branch {
                Some((_, e)) => Ok(Some(lo.ex_block_expr(e, cx)?)),
                None => Ok(None),
            }
        };
        if let Expr::Let(l) = strip(&i.cond) {
            let v = self.ex(&l.expr, cx)?;
            let mut c = cx.clone();
            let p = self.pat(&l.pat, &mut c)?;
            let t = self.block_native_m(&i.then_branch, &c)?;
            let e = els(self)?.unwrap_or_default();
            return Ok(format!("match {} {{ {} => {{ {} }}\n_ => {{ {} }} }}", v, p, t, e));
        }
        // let chains: a && let p = e && ...
        let mut cj = vec![];
        conj(&i.cond, &mut cj);
        if cj.iter().any(|c| matches!(strip(c), Expr::Let(_))) {
            let e = els(self)?.unwrap_or_default();
            return self.chain(&cj, &i.then_branch, &e, cx.clone());
        }
        let v = self.ex(&i.cond, cx)?;
        let t = self.block_native_m(&i.then_branch, cx)?;
        Ok(match els(self)? {
            Some(e) => format!("if {} {{ {} }} else {{ {} }}", v, t, e),
            None => format!("if {} {{ {} }}", v, t),
        })
    }
    fn chain(&mut self, cj: &[&Expr], then: &Block, els: &str, cx: Cx) -> R<String> {
        if cj.is_empty() {
            return self.block_native_m(then, &cx);
        }
        if let Expr::Let(l) = strip(cj[0]) {
            let v = self.ex(&l.expr, &cx)?;
            let mut c = cx.clone();
            let p = self.pat(&l.pat, &mut c)?;
            let t = self.chain(&cj[1..], then, els, c)?;
            return Ok(format!("match {} {{ {} => {{ {} }}\n_ => {{ {} }} }}", v, p, t, els));
        }
        let v = self.ex(cj[0], &cx)?;
        let t = self.chain(&cj[1..], then, els, cx)?;
        Ok(format!("if {} {{ {} }} else {{ {} }}", v, t, els))
    }
    fn is_ref_lit(e: &Expr) -> Option<&Expr> {
        if let Expr::Reference(r) = strip(e) {
            if let Expr::Lit(ExprLit { lit: Lit::Byte(_) | Lit::Int(_), .. }) = strip(&r.expr) {
                return Some(&r.expr);
            }
        }
        None
    }
    fn eq(&mut self, a: &Expr, b: &Expr, cx: &Cx) -> R<Option<String>> {
        // b is the "pattern" side
        if let Some(x) = Self::is_ref_lit(b) {
            let l = self.ex_atom(a, cx)?;
            return Ok(Some(format!("(*{} == {})", l, self.ex(x, cx)?)));
        }
        match strip(b) {
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let l = self.ex(a, cx)?;
                Ok(Some(format!("t_bytes_eq({}, {})", l, self.lit(&s.value()))))
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let l = self.ex_atom(a, cx)?;
                Ok(Some(format!("t_streq({}.t_as_str(), {})", l, self.slit(&s.value()))))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    if p.path.is_ident("Some") && c.args.len() == 1 {
                        let l = self.ex(a, cx)?;
                        let x = self.fresh("__s");
                        let inner = &c.args[0];
                        let t = if let Some(y) = Self::is_ref_lit(inner) {
                            format!("*{} == {}", x, self.ex(y, cx)?)
                        } else {
                            match strip(inner) {
                                Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                                    format!("t_bytes_eq({}, {})", x, self.lit(&s.value()))
                                }
                                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => format!("t_streq({}, {})", x, self.slit(&s.value())),
                                Expr::Lit(_) => format!("{} == {}", x, self.ex(inner, cx)?),
                                _ => format!("t_bytes_eq({}, {})", x, self.ex(inner, cx)?),
                            }
                        };
                        return Ok(Some(format!("(match {} {{ Some({}) => {{ {} }} None => {{ false }} }})", l, x, t)));
                    }
                }
                Ok(None)
            }
            Expr::Path(p) => {
                let sg = segs(&p.path);
                if p.path.is_ident("None") {
                    let l = self.ex_atom(a, cx)?;
                    return Ok(Some(format!("{}.is_none()", l)));
                }
                if sg.len() >= 2 && upper(sg.last().unwrap()) && upper(&sg[sg.len() - 2]) {
                    let l = self.ex(a, cx)?;
                    return Ok(Some(format!("(match {} {{ {} => true, _ => false }})", l, self.path_text(&p.path))));
                }
                if let Some(n) = path_ident(b) {
                    match cx.env.get(&n).cloned() {
                        Some(Bind::LitB(s)) => {
                            let l = self.ex(a, cx)?;
                            return Ok(Some(format!("t_bytes_eq({}, {})", l, self.lit(&s))));
                        }
                        _ => {}
                    }
                }
                Ok(None)
            }
            _ => Ok(None),
        }
    }
    fn binary(&mut self, b: &ExprBinary, cx: &Cx) -> R<String> {
        use BinOp::*;
        match &b.op {
            Eq(_) | Ne(_) => {
                let r = match self.eq(&b.left, &b.right, cx)? {
                    Some(x) => Some(x),
                    None => self.eq(&b.right, &b.left, cx)?,
                };
                if let Some(x) = r {
                    return Ok(if matches!(b.op, Ne(_)) { format!("!{}", x) } else { x });
                }
                let gu = |e: &Expr| matches!(strip(e), Expr::MethodCall(m) if m.method == "get_unchecked");
                if gu(&b.left) && gu(&b.right) {
                    return Ok(format!("(*{} {} *{})", self.ex_atom(&b.left, cx)?, toks(&b.op), self.ex_atom(&b.right, cx)?));
                }
                // pointer comparison
                let ptr = |e: &Expr| matches!(strip(e), Expr::MethodCall(m) if m.method == "as_ptr" || m.method == "add");
                if ptr(&b.left) || ptr(&b.right) {
                    let t = format!("t_ptr_eq({}, {})", self.ex(&b.left, cx)?, self.ex(&b.right, cx)?);
                    return Ok(if matches!(b.op, Ne(_)) { format!("!{}", t) } else { t });
                }
            }
            Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                if let Some(x) = Self::is_ref_lit(&b.right) {
                    return Ok(format!("(*{} {} {})", self.ex_atom(&b.left, cx)?, toks(&b.op), self.ex(x, cx)?));
                }
            }
            Add(_) => {
                let sm = |e: &Expr| {
                    matches!(strip(e), Expr::MethodCall(m) if m.method == "to_string" || (m.method == "to_owned") || m.method == "into_owned")
                };
                if sm(&b.left) {
                    return Ok(format!("t_str_add({}, {})", self.ex(&b.left, cx)?, {
                        let r = self.ex_atom(strip_ref(&b.right), cx)?;
                        format!("{}.t_as_str()", r)
                    }));
                }
            }
            AddAssign(_) | SubAssign(_) | MulAssign(_) | BitOrAssign(_) | BitAndAssign(_) | ShlAssign(_) | ShrAssign(_) | DivAssign(_) | RemAssign(_)
            | BitXorAssign(_) => {
                let op = toks(&b.op);
                let op1 = op.trim_end_matches('=').trim();
                let l = self.ex(&b.left, cx)?;
                let r = self.ex(&b.right, cx)?;
                return Ok(format!("{} = {} {} ({})", l, l, op1, r));
            }
            _ => {}
        }
        let l = self.ex(&b.left, cx)?;
        let r = self.ex(&b.right, cx)?;
        let w = |s: String, e: &Expr| match strip(e) {
            Expr::Lit(_) | Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) if !s.starts_with('{') && !s.starts_with("match") => s,
            _ => format!("({})", s),
        };
        Ok(format!("({} {} {})", w(l, &b.left), toks(&b.op), w(r, &b.right)))
    }
    fn assign(&mut self, a: &ExprAssign, cx: &Cx) -> R<String> {
        if let Expr::Unary(u) = strip(&a.left) {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Expr::MethodCall(m) = strip(&u.expr) {
                    if m.method == "get_unchecked_mut" && m.args.len() == 1 {
                        let v = self.ex_atom(&m.receiver, cx)?;
                        let i = self.ex(&m.args[0], cx)?;
                        let r = self.ex(&a.right, cx)?;
                        return Ok(format!("{}.t_set_unchecked({}, {})", v, i, r));
                    }
                }
            }
        }
        if let Expr::Infer(_) = strip(&a.left) {
            let r = self.ex(&a.right, cx)?;
            return Ok(format!("let _ = {}", r));
        }
        let r = self.ex(&a.right, cx)?;
        let l = self.ex(&a.left, cx)?;
        Ok(format!("{} = {}", l, r))
    }
    fn call(&mut self, c: &ExprCall, cx: &Cx, hint: Option<&str>) -> R<String> {
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        let f = strip(&c.func);
        if let Expr::Path(p) = f {
            let sg = segs(&p.path);
            let last = sg.last().unwrap().clone();
            if sg.len() == 1 {
                if let Some(b) = cx.env.get(&last).cloned() {
                    return self.call_bind(&b, &args, cx);
                }
            }
            let prev = if sg.len() >= 2 { sg[sg.len() - 2].clone() } else { String::new() };
            // constructors
            if upper(&last) {
                if prev == "Error" || last == "Error" {
                    // error payloads are kept as native literals
                    let mut v = vec![];
                    for a in &args {
                        v.push(match strip(a) {
                            Expr::Lit(l) => toks(l),
                            a => self.ex(a, cx)?,
                        });
                    }
                    return Ok(format!("{}({})", self.path_text(&p.path), v.join(", ")));
                }
                let v: R<Vec<String>> = args.iter().map(|a| self.ex(a, cx)).collect();
                return Ok(format!("{}({})", self.path_text(&p.path), v?.join(", ")));
            }
            if let Some(key) = self.resolve_fn(&sg, cx) {
                return self.call_key(&key, &args, cx);
            }
            let v: R<Vec<String>> = args.iter().map(|a| self.ex(a, cx)).collect();
            let v = v?;
            let a = v.join(", ");
            return Ok(match (prev.as_str(), last.as_str()) {
                ("str", "from_utf8_unchecked") => format!("t_from_utf8_unchecked({})", a),
                ("str", "from_utf8") => format!("t_str_from_utf8({})", a),
                ("String", "from_utf8_unchecked") => format!("t_string_from_utf8_unchecked({})", a),
                ("String", "from_utf8") => format!("t_string_from_utf8({})", a),
                ("cmp", "min") => format!("t_min({})", a),
                ("cmp", "max") => format!("t_max({})", a),
                ("slice", "from_raw_parts") => format!("t_from_raw_parts({})", a),
                ("Vec", "new") => "Vec::new()".into(),
                ("Vec", "with_capacity") => "Vec::new()".into(),
                ("String", "new") => "String::new()".into(),
                ("String", "with_capacity") => "String::new()".into(),
                ("HashMap", "new") => "t_hmap_new()".into(),
                ("Vec", "from") => format!("t_vec_from({})", a),
                ("String", "from") => format!("t_string_from({})", a),
                ("Cow", "from") => format!("t_cow_from({})", a),
                (m, "decode_to_string") => {
                    let _ = hint;
                    format!("t_tc_{}({})", m, a)
                }
                ("mem", "take") => format!("t_mem_take({})", a),
                ("mem", "replace") => format!("t_mem_replace({})", a),
                ("", "drop") => String::new(),
                _ => return Err(format!("call of {}", sg.join("::"))),
            });
        }
        if let Some(b) = self.as_callable(f, cx)? {
            return self.call_bind(&b, &args, cx);
        }
        Err(format!("call of {}", short(&toks(f))))
    }
    /// `match recv { .. }` for closures given to Option/Result adaptors
    fn apply(&mut self, clo: &Expr, arg: &str, cx: &Cx) -> R<String> {
        let b = self.as_callable(clo, cx)?;
        let mut c = cx.clone();
        c.env.insert("__arg".into(), Bind::Var(arg.to_string()));
        let a: Expr = parse_str("__arg").unwrap();
        match b {
            Some(Bind::Clo(cl)) => {
                // closures capture their own context: bind the argument there
                let mut ic = cl.cx.clone();
                ic.native = false;
                ic.brk = vec![];
                let mut pro = String::new();
                match cl.params.len() {
                    0 => {}
                    1 => {
                        let (pat, _) = split_pat(&cl.params[0]);
                        match pat {
                            Pat::Wild(_) => {}
                            p => {
                                let pt = self.pat(p, &mut ic)?;
                                pro = format!("let {} = {};\n", pt, arg);
                            }
                        }
                    }
                    _ => return Err("closure arity".into()),
                }
                let body = self.fn_body_expr(&cl.body, &ic)?;
                Ok(format!("{{ {}{} }}", pro, body))
            }
            Some(b) => self.call_bind(&b, &[a], &c),
            None => {
                // constructor path: Some, Ok, Cow::Borrowed, ...
                if let Expr::Path(p) = strip(clo) {
                    if upper(segs(&p.path).last().unwrap()) {
                        return Ok(format!("{}({})", self.path_text(&p.path), arg));
                    }
                    let sg = segs(&p.path);
                    let n = sg.len();
                    if n >= 2 && upper(&sg[n - 2]) {
                        // Type::method
                        let me: Expr = parse_str(&format!("__arg.{}()", sg[n - 1])).map_err(|e| e.to_string())?;
                        return self.ex(&me, &c);
                    }
                }
                Err("callable argument".into())
            }
        }
    }
    fn method(&mut self, m: &ExprMethodCall, cx: &Cx, hint: Option<&str>) -> R<String> {
        let name = m.method.to_string();
        let args: Vec<&Expr> = m.args.iter().collect();
        let kind = self.kind(&m.receiver, cx);
        // literal receivers
        if let Some(Bind::LitS(s)) = self.as_literal(&m.receiver, cx) {
            match name.as_str() {
                "as_bytes" => return Ok(self.lit(s.as_bytes())),
                "len" => return Ok(format!("{}usize", s.len())),
                _ => {}
            }
        }
        if let Some(Bind::LitB(s)) = self.as_literal(&m.receiver, cx) {
            if name == "len" {
                return Ok(format!("{}usize", s.len()));
            }
        }
        // [lits].contains(&x)
        if name == "contains" && args.len() == 1 {
            if let Expr::Array(a) = strip_ref(strip(&m.receiver)) {
                let x = self.ex_atom(strip_ref(args[0]), cx)?;
                let n = self.fresh("__c");
                let mut cs = vec![];
                for e in &a.elems {
                    match strip(e) {
                        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => cs.push(format!("t_streq({}, {})", n, self.slit(&s.value()))),
                        Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => cs.push(format!("{} == {}u8", n, b.value())),
                        _ => return Err("contains over a computed array".into()),
                    }
                }
                let x = if cs[0].starts_with("t_streq") { format!("{}.t_as_str()", x) } else { x };
                return Ok(format!("{{ let {} = {}; {} }}", n, x, cs.join(" || ")));
            }
        }
        // collect chains
        if name == "collect" {
            if let Expr::MethodCall(mm) = strip(&m.receiver) {
                if mm.method == "map" {
                    if let Expr::MethodCall(mi) = strip(&mm.receiver) {
                        if mi.method == "into_iter" {
                            let src = self.ex_atom(&mi.receiver, cx)?;
                            let itv = self.fresh("it");
                            let acc = self.fresh("acc");
                            let mut vis = cx.clone();
                            vis.env.insert("it".into(), Bind::Var(itv.clone()));
                            vis.env.insert("acc".into(), Bind::Var(acc.clone()));
                            let (mk, n) = self.loop_mark(&vis);
                            let x = self.fresh("__x");
                            let b = self.apply(&mm.args[0], &x, cx)?;
                            let inner = format!(
                                "match {}.t_next() {{ Some({}) => {{ t_put(&mut {}, {}); }}\nNone => {{ break; }} }}",
                                itv, x, acc, b
                            );
                            self.loop_done(n, &inner);
                            return Ok(format!(
                                "{{ let mut {} = {}.t_into_iter();\nlet mut {} = t_collect_new();\nloop {}\n{{ /*@B{}*/ {} }}/*@E{}*/\n{} }}",
                                itv, src, acc, mk, n, inner, n, acc
                            ));
                        }
                    }
                }
                if mm.method == "into_iter" {
                    let src = self.ex(&mm.receiver, cx)?;
                    return Ok(format!("t_collect({})", src));
                }
            }
            return Err("collect".into());
        }
        let recv_kind = kind;
        match name.as_str() {
            "map" => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                let b = self.apply(args[0], &x, cx)?;
                return Ok(match recv_kind {
                    Some(Kind::Res) => {
                        let e = self.fresh("__e");
                        format!("(match {} {{ Ok({}) => Ok({}), Err({}) => Err({}) }})", v, x, b, e, e)
                    }
                    Some(Kind::Iter) => return Err("iterator map".into()),
                    _ => format!("(match {} {{ Some({}) => Some({}), None => None }})", v, x, b),
                });
            }
            "and_then" => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                let b = self.apply(args[0], &x, cx)?;
                return Ok(match recv_kind {
                    Some(Kind::Res) => {
                        let e = self.fresh("__e");
                        format!("(match {} {{ Ok({}) => {}, Err({}) => Err({}) }})", v, x, b, e, e)
                    }
                    _ => format!("(match {} {{ Some({}) => {}, None => None }})", v, x, b),
                });
            }
            "map_err" => {
                let v = self.ex_hint(&m.receiver, cx, hint)?;
                let x = self.fresh("__x");
                let e = self.fresh("__e");
                let b = self.apply(args[0], &e, cx)?;
                return Ok(format!("(match {} {{ Ok({}) => Ok({}), Err({}) => Err({}) }})", v, x, x, e, b));
            }
            "or_else" => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                let e = self.fresh("__e");
                let b = self.apply(args[0], &e, cx)?;
                return Ok(match recv_kind {
                    Some(Kind::Res) => format!("(match {} {{ Ok({}) => Ok({}), Err({}) => {} }})", v, x, x, e, b),
                    _ => format!("(match {} {{ Some({}) => Some({}), None => {} }})", v, x, x, b),
                });
            }
            "ok" if args.is_empty() => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                return Ok(format!("(match {} {{ Ok({}) => Some({}), Err(_) => None }})", v, x, x));
            }
            "ok_or" => {
                let v = self.ex_hint(&m.receiver, cx, hint)?;
                let x = self.fresh("__x");
                let e = self.ex(args[0], cx)?;
                return Ok(format!("(match {} {{ Some({}) => Ok({}), None => Err({}) }})", v, x, x, e));
            }
            "ok_or_else" => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                let b = self.apply(args[0], "()", cx)?;
                return Ok(format!("(match {} {{ Some({}) => Ok({}), None => Err({}) }})", v, x, x, b));
            }
            "unwrap_or" | "unwrap_or_else" | "unwrap" | "expect" | "unwrap_or_default" | "map_or" => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                let res = recv_kind == Some(Kind::Res);
                let e = self.fresh("__e");
                let (some, none) = if res { (format!("Ok({})", x), format!("Err({})", e)) } else { (format!("Some({})", x), "None".to_string()) };
                let (sv, nv) = match name.as_str() {
                    "unwrap_or" => (x.clone(), self.ex(args[0], cx)?),
                    "unwrap_or_else" => (x.clone(), self.apply(args[0], if res { &e } else { "()" }, cx)?),
                    "unwrap" | "expect" => (x.clone(), "t_panic()".into()),
                    "unwrap_or_default" => (x.clone(), "t_default()".into()),
                    _ => (self.apply(args[1], &x, cx)?, self.ex(args[0], cx)?),
                };
                return Ok(format!("(match {} {{ {} => {}, {} => {} }})", v, some, sv, none, nv));
            }
            "or" => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                let a = self.ex(args[0], cx)?;
                return Ok(match recv_kind {
                    Some(Kind::Res) => format!("(match {} {{ Ok({}) => Ok({}), Err(_) => {} }})", v, x, x, a),
                    _ => format!("(match {} {{ Some({}) => Some({}), None => {} }})", v, x, x, a),
                });
            }
            "copied" | "cloned" if recv_kind == Some(Kind::Opt) => {
                let v = self.ex(&m.receiver, cx)?;
                let x = self.fresh("__x");
                return Ok(format!("(match {} {{ Some({}) => Some(*{}), None => None }})", v, x, x));
            }
            "parse" => {
                let v = self.ex_atom(&m.receiver, cx)?;
                let t = match &m.turbofish {
                    Some(t) => match t.args.first() {
                        Some(GenericArgument::Type(t)) => self.ty(t),
                        _ => "_".into(),
                    },
                    None => hint.unwrap_or("_").to_string(),
                };
                return Ok(format!("t_parse::<{}>({}.t_as_str())", t, v));
            }
            "get" if args.len() == 1 => {
                let b = self.ex_atom(&m.receiver, cx)?;
                if let Expr::Range(r) = strip(args[0]) {
                    if matches!(r.limits, RangeLimits::Closed(_)) {
                        return Err("inclusive range".into());
                    }
                    return Ok(match (&r.start, &r.end) {
                        (Some(s), None) => format!("{}.t_get_from({})", b, self.ex(s, cx)?),
                        (None, Some(e)) => format!("{}.t_get_to({})", b, self.ex(e, cx)?),
                        (Some(s), Some(e)) => format!("{}.t_get_rng({}, {})", b, self.ex(s, cx)?, self.ex(e, cx)?),
                        (None, None) => return Err("full range".into()),
                    });
                }
                return Ok(format!("{}.t_get({})", b, self.ex(args[0], cx)?));
            }
            "get_unchecked" if args.len() == 1 => {
                let b = self.ex_atom(&m.receiver, cx)?;
                if let Expr::Range(r) = strip(args[0]) {
                    return Ok(match (&r.start, &r.end) {
                        (Some(s), None) => format!("{}.t_gu_from({})", b, self.ex(s, cx)?),
                        (None, Some(e)) => format!("{}.t_gu_to({})", b, self.ex(e, cx)?),
                        (Some(s), Some(e)) => format!("{}.t_gu_rng({}, {})", b, self.ex(s, cx)?, self.ex(e, cx)?),
                        (None, None) => b,
                    });
                }
                return Ok(format!("{}.t_gu({})", b, self.ex(args[0], cx)?));
            }
            "drain" if args.len() == 1 => {
                let b = self.ex_atom(&m.receiver, cx)?;
                if let Expr::Range(r) = strip(args[0]) {
                    let s = match &r.start {
                        Some(s) => self.ex(s, cx)?,
                        None => "0".into(),
                    };
                    let e = match &r.end {
                        Some(e) => self.ex(e, cx)?,
                        None => return Err("drain to the end".into()),
                    };
                    return Ok(format!("{}.t_drain({}, {})", b, s, e));
                }
                return Err("drain".into());
            }
            "is_none" | "is_some" | "is_ok" | "is_err" => {
                let b = self.ex_atom(&m.receiver, cx)?;
                return Ok(format!("{}.{}()", b, name));
            }
            "push" | "truncate" | "append" | "clear" | "pop" => {
                let b = self.ex_atom(&m.receiver, cx)?;
                let a = self.exs(&args, cx)?;
                let b = b.trim_start_matches("(&mut ").to_string();
                let b = if let Some(Bind::Place(p)) = path_ident(&m.receiver).and_then(|n| cx.env.get(&n)) { p.clone() } else { b };
                return Ok(format!("{}.{}({})", b, name, a.join(", ")));
            }
            "push_str" => {
                let b = self.ex_atom(&m.receiver, cx)?;
                let a = self.ex_atom(strip_ref(args[0]), cx)?;
                return Ok(format!("{}.t_push_str({}.t_as_str())", b, a));
            }
            "by_ref" => return self.ex(&m.receiver, cx),
            "contains_key" | "get_mut" | "starts_with" | "ends_with" => {
                let b = self.ex_atom(&m.receiver, cx)?;
                let a = self.exs(&args, cx)?;
                return Ok(format!("{}.t_{}({})", b, name, a.join(", ")));
            }
            _ => {}
        }
        // methods of crate types: the trait wrappers call the function under contract
        for (k, f) in &self.k.fns {
            if f.self_ty.is_some() && f.name == name && self.o.has_contract(k) {
                self.out.callees.insert(k.clone());
            }
        }
        const KNOWN: &[&str] = &[
            "len", "is_empty", "to_ascii_lowercase", "to_ascii_uppercase", "as_slice", "as_bytes", "to_vec", "to_owned", "into_bytes",
            "into_owned", "to_string", "as_ref", "as_str", "to_lowercase", "chars", "is_uppercase", "clone", "insert", "remove", "iter", "next",
            "checked_add", "checked_mul", "checked_sub", "as_ptr", "add", "is_ascii_lowercase", "is_ascii_uppercase", "into_iter", "bytes",
            "eq_ignore_ascii_case", "saturating_sub", "saturating_add", "wrapping_add", "first", "last", "split_at", "split_first", "strip_prefix", "is_ascii", "is_ascii_digit",
            "is_char_boundary", "extend_from_slice", "iter_mut", "swap_remove", "split_off", "into_boxed_slice", "min", "max", "as_mut",
            "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_whitespace", "is_ascii_hexdigit", "make_ascii_lowercase", "into_string",
            "is_ascii_graphic", "concat", "reserve", "shrink_to_fit", "as_deref", "take", "skip",
        ];
        if !KNOWN.contains(&name.as_str()) {
            return Err(format!("method {}", name));
        }
        let b = self.ex_atom(&m.receiver, cx)?;
        let b = if let Some(Bind::Place(p)) = path_ident(&m.receiver).and_then(|n| cx.env.get(&n)) { p.clone() } else { b };
        let a = self.exs(&args, cx)?;
        Ok(format!("{}.t_{}({})", b, name, a.join(", ")))
    }
    fn mac(&mut self, m: &Macro, cx: &Cx) -> R<String> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || -> R<Vec<Expr>> {
            let p: punctuated::Punctuated<Expr, Token![,]> =
                m.parse_body_with(punctuated::Punctuated::parse_terminated).map_err(|e| e.to_string())?;
            Ok(p.into_iter().collect())
        };
        Ok(match name.as_str() {
            "cfg" => self.k.cfg.eval_tokens(m.tokens.clone()).to_string(),
            "debug_assert" | "assert" => {
                if name == "debug_assert" && !self.k.cfg.debug {
                    return Ok(String::new());
                }
                let a = args()?;
                let c = self.ex(&a[0], cx)?;
                format!("if !({}) {{ t_panic() }}", c)
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                if name.starts_with("debug") && !self.k.cfg.debug {
                    return Ok(String::new());
                }
                let a = args()?;
                let l = self.ex(&a[0], cx)?;
                let r = self.ex(&a[1], cx)?;
                format!("if {}({} == {}) {{ t_panic() }}", if name.ends_with("eq") { "!" } else { "" }, l, r)
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => "t_panic()".into(),
            "matches" => {
                // matches!(e, pat [if guard])
                struct Mm(Expr, Pat, Option<Expr>);
                impl parse::Parse for Mm {
                    fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(Mm(e, p, g))
                    }
                }
                let mm: Mm = m.parse_body().map_err(|e| e.to_string())?;
                let me = ExprMatch {
                    attrs: vec![],
                    match_token: Default::default(),
                    expr: Box::new(mm.0),
                    brace_token: Default::default(),
                    arms: vec![
                        Arm { attrs: vec![], pat: mm.1, guard: mm.2.map(|g| (Default::default(), Box::new(g))), fat_arrow_token: Default::default(), body: parse_str("true").unwrap(), comma: Some(Default::default()) },
                        Arm { attrs: vec![], pat: Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() }), guard: None, fat_arrow_token: Default::default(), body: parse_str("false").unwrap(), comma: Some(Default::default()) },
                    ],
                };
                self.n_sp += 1;
                let me = crate::slicepat::SlicePats { n: 1000 + self.n_sp }.desugar(&me).unwrap_or(Expr::Match(me));
                let mut me = me;
                syn::visit_mut::VisitMut::visit_expr_mut(&mut crate::slicepat::RefPats { n: 1000 * self.n_sp }, &mut me);
                let t = self.ex(&me, cx)?;
                format!("({})", t)
            }
            "vec" => {
                let a = args()?;
                if a.is_empty() {
                    return Ok("Vec::new()".into());
                }
                let v: R<Vec<String>> = a.iter().map(|x| self.ex(x, cx)).collect();
                let n = self.fresh("__vec");
                let mut o = format!("{{ let mut {} = Vec::new();\n", n);
                for x in v? {
                    o.push_str(&format!("{}.push({});\n", n, x));
                }
                o.push_str(&format!("{} }}", n));
                o
            }
            "print" | "println" | "eprintln" | "eprint" | "dbg" => String::new(),
            _ => return Err(format!("macro {}", name)),
        })
    }

    // ---------------------------------------------------------------- predicates
    fn pred_class(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        let b = self.as_callable(e, cx)?.ok_or("predicate is not a closure or a function")?;
        let mut bits = [false; 256];
        for (c, bit) in bits.iter_mut().enumerate() {
            *bit = match crate::eval::call(self, &b, vec![crate::eval::V::Int(c as i128)], 0)? {
                crate::eval::V::Bool(x) => x,
                _ => return Err("predicate result".into()),
            };
        }
        // the predicate itself, to be verified against its class
        let cls = self.o.class(&bits);
        let mut c = cx.clone();
        c.native = false;
        let arg = "vx_c".to_string();
        c.env.insert("__vxc".into(), Bind::Var(arg));
        let a: Expr = parse_str("__vxc").unwrap();
        let t = self.call_bind(&b, &[a], &c)?;
        self.out.preds.insert((cls.clone(), t));
        Ok(cls)
    }
    pub fn pred_bind(&mut self, e: &Expr, cx: &Cx) -> R<Option<Bind>> {
        self.as_callable(e, cx)
    }
    pub fn bind_parts<'a>(&self, b: &'a Bind) -> Option<(&'a [Pat], &'a Expr, &'a Cx)> {
        match b {
            Bind::Clo(c) => Some((&c.params, &c.body, &c.cx)),
            _ => None,
        }
    }
    pub fn env_bind(&self, cx: &Cx, n: &str) -> Option<Bind> {
        cx.env.get(n).cloned()
    }
    pub fn res(&self, p: &Path, cx: &Cx) -> Option<String> {
        self.resolve_fn(&segs(p), cx)
    }
}

fn strip_ref(e: &Expr) -> &Expr {
    match strip(e) {
        Expr::Reference(r) => strip_ref(&r.expr),
        e => e,
    }
}
fn conj<'a>(e: &'a Expr, out: &mut Vec<&'a Expr>) {
    match strip(e) {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
            conj(&b.left, out);
            conj(&b.right, out);
        }
        e => out.push(e),
    }
}
struct BreakVal(bool, usize, Option<String>);
impl<'a> Visit<'a> for BreakVal {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Break(b) => {
                if b.expr.is_some() {
                    match &b.label {
                        Some(l) => {
                            if Some(l.ident.to_string()) == self.2 {
                                self.0 = true;
                            }
                        }
                        None => {
                            if self.1 == 0 {
                                self.0 = true;
                            }
                        }
                    }
                }
            }
            Expr::Closure(_) => return,
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.1 += 1;
                visit::visit_expr(self, e);
                self.1 -= 1;
                return;
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
fn diverges(_e: &Expr) -> bool {
    false
}
fn short(s: &str) -> String {
    s.chars().take(80).collect()
}
fn is_atom(s: &str) -> bool {
    s.chars().all(|c| c.is_alphanumeric() || c == '_')
}
pub fn seqlit(b: &[u8]) -> String {
    if b.is_empty() {
        return "Seq::<u8>::empty()".into();
    }
    format!("seq![{}]", b.iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", "))
}
fn split_pat(p: &Pat) -> (&Pat, Option<&Type>) {
    match p {
        Pat::Type(t) => (&t.pat, Some(&t.ty)),
        Pat::Paren(t) => split_pat(&t.pat),
        _ => (p, None),
    }
}
pub fn pat_names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let n = i.ident.to_string();
            if !upper(&n) {
                self.0.push(n);
            }
            visit::visit_pat_ident(self, i);
        }
    }
    let mut n = N(vec![]);
    n.visit_pat(p);
    n.0
}
pub fn replace_word(s: &str, a: &str, b: &str) -> String {
    let mut o = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_alphabetic() || cs[i] == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            o.push_str(if w == a { b } else { &w });
            i = j;
        } else {
            o.push(cs[i]);
            i += 1;
        }
    }
    o
}
fn modifies(body: &str, v: &str) -> bool {
    let mut start = 0;
    while let Some(p) = body[start..].find(v) {
        let a = start + p;
        let b = a + v.len();
        start = b;
        let before = body[..a].chars().last();
        if before.map(|c| c.is_alphanumeric() || c == '_' || c == '.').unwrap_or(false) {
            continue;
        }
        let after = &body[b..];
        if after.chars().next().map(|c| c.is_alphanumeric() || c == '_').unwrap_or(false) {
            continue;
        }
        let t = after.trim_start();
        if t.starts_with('=') && !t.starts_with("==") && !t.starts_with("=>") {
            return true;
        }
        if body[..a].trim_end().ends_with("&mut") {
            return true;
        }
        for m in [".push(", ".truncate(", ".append(", ".t_insert(", ".t_remove(", ".t_drain(", ".t_set_unchecked(", ".t_next(", ".t_push_str("] {
            if t.starts_with(m) {
                return true;
            }
        }
        if t.starts_with('[') {
            if let Some(e) = t.find(']') {
                let u = t[e + 1..].trim_start();
                if u.starts_with('=') && !u.starts_with("==") {
                    return true;
                }
            }
        }
        if t.starts_with('.') {
            // field assignment
            let u: String = t[1..].chars().skip_while(|c| c.is_alphanumeric() || *c == '_').collect();
            let u = u.trim_start();
            if u.starts_with('=') && !u.starts_with("==") && !u.starts_with("=>") {
                return true;
            }
        }
    }
    false
}
/// Direct operands of an expression, in evaluation order.
fn operands(e: &mut Expr) -> R<Vec<&mut Expr>> {
    Ok(match e {
        Expr::Call(c) => c.args.iter_mut().collect(),
        Expr::MethodCall(m) => {
            let mut v: Vec<&mut Expr> = vec![&mut m.receiver];
            v.extend(m.args.iter_mut());
            v
        }
        Expr::Tuple(t) => t.elems.iter_mut().collect(),
        Expr::Array(t) => t.elems.iter_mut().collect(),
        Expr::Struct(s) => s.fields.iter_mut().map(|f| &mut f.expr).collect(),
        Expr::Unary(u) => vec![&mut u.expr],
        Expr::Reference(r) => vec![&mut r.expr],
        Expr::Cast(r) => vec![&mut r.expr],
        Expr::Field(r) => vec![&mut r.base],
        Expr::Paren(r) => vec![&mut r.expr],
        Expr::Assign(a) => vec![&mut a.right],
        Expr::Index(a) => vec![&mut a.expr, &mut a.index],
        Expr::Binary(b) => {
            if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && esc(&b.right) {
                return Err("escape in a short-circuit operand".into());
            }
            vec![&mut b.left, &mut b.right]
        }
        _ => return Err(format!("escape inside {}", short(&toks(e)))),
    })
}
fn pure(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => true,
        Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        Expr::Field(f) => pure(&f.base),
        Expr::Call(c) => matches!(strip(&c.func), Expr::Path(p) if upper(&segs(&p.path).last().unwrap().clone())) && c.args.iter().all(pure),
        _ => false,
    }
}
