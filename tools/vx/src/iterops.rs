//! Iterator adaptors over slices and ranges as index loops, before lowering:
//! `for (i, &c) in x.iter().enumerate() B`  ->  `for i in 0..x.len() { let c = x[i]; B }`,
//! `x.iter().position(|&c| P)`              ->  `{ let mut k = 0; while k < x.len() { let c = x[k]; if P { break; } k += 1; } if k < x.len() { Some(k) } else { None } }`,
//! likewise `find` over a range, `any`, `all`, `take_while(..).count()`; `for i in a..=b` -> `for i in a..b + 1`.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct IterOps {
    pub n: usize,
}
enum Src {
    /// the elements of a slice (with the `let` that binds it)
    Slice(TokenStream, TokenStream),
    Range(TokenStream, TokenStream),
}
fn paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => paren(&p.expr),
        Expr::Group(p) => paren(&p.expr),
        e => e,
    }
}
fn mc<'a>(e: &'a Expr, name: &str, n: usize) -> Option<&'a ExprMethodCall> {
    match paren(e) {
        Expr::MethodCall(m) if m.method == name && m.args.len() == n => Some(m),
        _ => None,
    }
}
/// binds pattern `p` to the element `x` (a place) seen through `d` references
fn bind(p: &Pat, x: &TokenStream, d: usize) -> Option<TokenStream> {
    match p {
        Pat::Paren(p) => bind(&p.pat, x, d),
        Pat::Wild(_) => Some(quote!()),
        Pat::Reference(r) if d > 0 => bind(&r.pat, x, d - 1),
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let (n, m) = (&i.ident, &i.mutability);
            Some(match d {
                0 => quote!(let #m #n = #x;),
                1 => quote!(let #m #n = &#x;),
                _ => return None,
            })
        }
        Pat::Type(t) => bind(&t.pat, x, d),
        _ => None,
    }
}
struct Deref2<'a>(&'a Ident, bool);
impl<'a> VisitMut for Deref2<'a> {
    // `**c` -> `*c`; any other use of c is out of reach
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr: inner, .. }) = &**expr {
                if matches!(&**inner, Expr::Path(p) if p.path.is_ident(self.0)) {
                    let i = inner.clone();
                    *e = parse2(quote!(*#i)).unwrap();
                    return;
                }
            }
        }
        if matches!(&*e, Expr::Path(p) if p.path.is_ident(self.0)) {
            self.1 = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl IterOps {
    fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("vx_{}{}", s, self.n)
    }
    fn src(&mut self, e: &Expr) -> Option<Src> {
        match paren(e) {
            Expr::Range(r) => {
                let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
                Some(match r.limits {
                    RangeLimits::Closed(_) => Src::Range(quote!(#a), quote!(((#b) + 1))),
                    _ => Src::Range(quote!(#a), quote!(#b)),
                })
            }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "bytes") => {
                let r = paren(&m.receiver);
                let (pre, x) = match r {
                    Expr::Path(_) if m.method == "iter" => (quote!(), quote!(#r)),
                    // an array of literals is a value, not a place: left alone
                    Expr::Array(_) | Expr::Lit(_) => return None,
                    _ => {
                        let v = self.fresh("src");
                        let by_ref = matches!(r, Expr::Index(x) if matches!(*x.index, Expr::Range(_))) || matches!(r, Expr::Field(_));
                        let t = match (m.method == "bytes", by_ref) {
                            (true, _) => quote!(#r.as_bytes()),
                            (_, true) => quote!(&#r),
                            _ => quote!(#r),
                        };
                        (quote!(let #v = #t;), quote!(#v))
                    }
                };
                Some(Src::Slice(pre, x))
            }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "copied" || m.method == "cloned") => self.src(&m.receiver),
            _ => None,
        }
    }
    /// depth of references of an item of the source
    fn depth(e: &Expr) -> usize {
        match paren(e) {
            Expr::MethodCall(m) if m.method == "iter" => 1,
            Expr::MethodCall(m) if m.method == "copied" || m.method == "cloned" => 0,
            Expr::MethodCall(m) if m.method == "take" => Self::depth(&m.receiver),
            _ => 0,
        }
    }
    fn search(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let (src, cl, extra) = match name.as_str() {
            "position" | "any" | "all" if m.args.len() == 1 => (&*m.receiver, &m.args[0], 0),
            "find" if m.args.len() == 1 && matches!(paren(&m.receiver), Expr::Range(_)) => (&*m.receiver, &m.args[0], 1),
            "count" if m.args.is_empty() => {
                let t = mc(&m.receiver, "take_while", 1)?;
                (&*t.receiver, &t.args[0], 1)
            }
            _ => return None,
        };
        // a function by name is a closure that calls it
        let byname;
        let c = match paren(cl) {
            Expr::Closure(c) if c.inputs.len() == 1 => c,
            Expr::Path(f) if mc(src, "chars", 0).is_some() && f.path.segments.len() == 2 && f.path.segments[0].ident == "char" => {
                let (x, g) = (self.fresh("x"), &f.path.segments[1].ident);
                byname = parse2(quote!(|#x| #x.#g())).ok()?;
                &byname
            }
            Expr::Path(f) => {
                let x = self.fresh("x");
                byname = parse2(quote!(|#x| #f(#x))).ok()?;
                &byname
            }
            _ => return None,
        };
        let d = Self::depth(src) + extra;
        let k = self.fresh("k");
        // the characters of a string: a loop with a flag
        if let Some(ch) = mc(src, "chars", 0) {
            let r = &ch.receiver;
            let (p, body) = (&c.inputs[0], &c.body);
            let f = self.fresh("f");
            let x = self.fresh("x");
            let l = bind(p, &quote!(#x), 0)?;
            return match name.as_str() {
                "any" => parse2(quote!({ let mut #f = false; for #x in #r.chars() { #l if #body { #f = true; break; } } #f })).ok(),
                "all" => parse2(quote!({ let mut #f = true; for #x in #r.chars() { #l if !(#body) { #f = false; break; } } #f })).ok(),
                _ => None,
            };
        }
        let lim = mc(src, "take", 1).map(|t| t.args[0].clone());
        let src = match mc(src, "take", 1) {
            Some(t) => &*t.receiver,
            None => src,
        };
        let (pre, a, b, place) = match self.src(src)? {
            Src::Slice(pre, x) if lim.is_some() => (pre, quote!(0usize), quote!(std::cmp::min(#x.len(), #lim)), quote!(#x[#k])),
            _ if lim.is_some() => return None,
            Src::Slice(pre, x) => (pre, quote!(0usize), quote!(#x.len()), quote!(#x[#k])),
            Src::Range(a, b) => {
                if name == "position" || name == "count" {
                    return None;
                }
                (quote!(), a, b, quote!(#k))
            }
        };
        let mut body = (*c.body).clone();
        let p = &c.inputs[0];
        let let_ = match (p, d) {
            (Pat::Ident(i), 2) => {
                let mut v = Deref2(&i.ident, false);
                v.visit_expr_mut(&mut body);
                if v.1 {
                    return None;
                }
                bind(p, &place, 1)?
            }
            _ => bind(p, &place, d)?,
        };
        let stop = match name.as_str() {
            "all" | "count" => quote!(!(#body)),
            _ => quote!((#body)),
        };
        let e = self.fresh("n");
        let (le, e) = if a.to_string() == "0usize" && lim.is_none() { (quote!(), b) } else { (quote!(let #e = #b;), quote!(#e)) };
        let val = match name.as_str() {
            "position" | "find" => quote!(if #k < #e { Some(#k) } else { None }),
            "any" => quote!((#k < #e)),
            "all" => quote!((#k >= #e)),
            _ => quote!(#k),
        };
        parse2(quote!({ #pre #le let mut #k = #a; while #k < #e { #let_ if #stop { break; } #k += 1; } #val })).ok()
    }
    fn for_(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let lab = &f.label;
        let (p, b) = (&f.pat, &f.body);
        if let Expr::Range(r) = paren(&f.expr) {
            if let (RangeLimits::Closed(_), Some(s), Some(e)) = (&r.limits, &r.start, &r.end) {
                if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = paren(e) {
                    if i.base10_parse::<u128>().map_or(true, |v| v >= 255) {
                        return None;
                    }
                }
                return parse2(quote!(#lab for #p in #s..((#e) + 1) #b)).ok();
            }
            return None;
        }
        // enumerate, also with skip after it
        let (en, skip) = match paren(&f.expr) {
            Expr::MethodCall(m) if m.method == "skip" && m.args.len() == 1 => (mc(&m.receiver, "enumerate", 0)?, Some(&m.args[0])),
            e => (mc(e, "enumerate", 0)?, None),
        };
        let t = match &**p {
            Pat::Tuple(t) if t.elems.len() == 2 => t,
            _ => return None,
        };
        let i = match &t.elems[0] {
            Pat::Ident(i) if i.subpat.is_none() => i.ident.clone(),
            Pat::Wild(_) => self.fresh("i"),
            _ => return None,
        };
        let d = Self::depth(&en.receiver);
        match self.src(&en.receiver)? {
            Src::Slice(pre, x) => {
                let l = bind(&t.elems[1], &quote!(#x[#i]), d)?;
                let a = match skip {
                    Some(k) => quote!(#k),
                    None => quote!(0),
                };
                let st = &b.stmts;
                parse2(quote!({ #pre #lab for #i in #a..#x.len() { #l #(#st)* } })).ok()
            }
            _ => None,
        }
    }
}
impl VisitMut for IterOps {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        let n = match x {
            Expr::MethodCall(m) => self.search(m),
            Expr::ForLoop(f) => self.for_(f),
            _ => None,
        };
        if let Some(n) = n {
            *x = n;
        }
    }
}
