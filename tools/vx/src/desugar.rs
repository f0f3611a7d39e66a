//! Small library calls in terms of the operations they stand for, before lowering:
//! `(a..=b).contains(&x)` and `b"..".contains(&x)` -> comparisons; `m.entry(k).or_insert_with(f)` -> look-up and insertion;
//! `o.replace(v)`, `o.take()`, `std::mem::replace(&mut x, v)` -> an exchange through a variable;
//! `x.to_mut().push_str(s)`, `x.to_mut().make_ascii_lowercase()` -> assignment of the changed string.
use quote::{format_ident, quote};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar {
    pub n: usize,
}
fn paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => paren(&p.expr),
        Expr::Group(p) => paren(&p.expr),
        e => e,
    }
}
fn place(e: &Expr) -> bool {
    match paren(e) {
        Expr::Path(p) => p.path.segments.len() == 1,
        Expr::Field(f) => place(&f.base),
        _ => false,
    }
}
impl Desugar {
    fn fresh(&mut self, s: &str) -> Ident {
        self.n += 1;
        format_ident!("vx_{}{}", s, self.n)
    }
    /// what a reference points to
    fn deref(e: &Expr) -> Expr {
        match paren(e) {
            Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
            e => parse2(quote!((*#e))).unwrap(),
        }
    }
    fn contains(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let x = Self::deref(&m.args[0]);
        let v = self.fresh("c");
        let r = match paren(&m.receiver) {
            Expr::Reference(r) => paren(&r.expr),
            e => e,
        };
        let t = match r {
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(a) => quote!((#a) <= #v),
                    None => quote!(true),
                };
                let b = match (&r.end, &r.limits) {
                    (Some(b), RangeLimits::Closed(_)) => quote!(#v <= (#b)),
                    (Some(b), _) => quote!(#v < (#b)),
                    (None, _) => quote!(true),
                };
                quote!(#a && #b)
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) => {
                let mut t = quote!(false);
                for (i, c) in s.value().iter().enumerate() {
                    let c = LitByte::new(*c, s.span());
                    t = if i == 0 { quote!(#v == #c) } else { quote!(#t || #v == #c) };
                }
                t
            }
            Expr::Array(a) if !a.elems.is_empty() && a.elems.iter().all(|e| matches!(e, Expr::Lit(ExprLit { lit: Lit::Byte(_), .. }))) => {
                let mut t = quote!();
                for (i, c) in a.elems.iter().enumerate() {
                    t = if i == 0 { quote!(#v == #c) } else { quote!(#t || #v == #c) };
                }
                t
            }
            _ => return None,
        };
        parse2(quote!({ let #v = #x; #t })).ok()
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match (name.as_str(), m.args.len()) {
            ("contains", 1) => self.contains(m),
            ("or_insert_with", 1) | ("or_insert", 1) | ("or_default", 0) => {
                let en = match paren(&m.receiver) {
                    Expr::MethodCall(en) if en.method == "entry" && en.args.len() == 1 && place(&en.receiver) => en,
                    _ => return None,
                };
                let (mp, k) = (&en.receiver, &en.args[0]);
                let kv = self.fresh("k");
                if name == "or_insert" {
                    let vv = self.fresh("v");
                    let v = &m.args[0];
                    return parse2(quote!({ let #kv = #k; let #vv = #v; if !#mp.contains_key(&#kv) { #mp.insert(#kv.clone(), #vv); } #mp.get_mut(&#kv).unwrap() })).ok();
                }
                let v = match name.as_str() {
                    "or_insert_with" => match paren(&m.args[0]) {
                        Expr::Closure(c) if c.inputs.is_empty() => {
                            let b = &c.body;
                            quote!(#b)
                        }
                        f => quote!(#f()),
                    },
                    _ => quote!(HashMap::new()),
                };
                parse2(quote!({ let #kv = #k; if !#mp.contains_key(&#kv) { #mp.insert(#kv.clone(), #v); } #mp.get_mut(&#kv).unwrap() })).ok()
            }
            ("replace", 1) if place(&m.receiver) => {
                let (x, v, o, w) = (&m.receiver, &m.args[0], self.fresh("o"), self.fresh("v"));
                parse2(quote!({ let #w = #v; let #o = #x; #x = Some(#w); #o })).ok()
            }
            ("take", 0) if place(&m.receiver) => {
                let (x, o) = (&m.receiver, self.fresh("o"));
                parse2(quote!({ let #o = #x; #x = None; #o })).ok()
            }
            ("make_ascii_lowercase", 0) => {
                let t = match paren(&m.receiver) {
                    Expr::MethodCall(t) if t.method == "to_mut" && t.args.is_empty() && place(&t.receiver) => t,
                    _ => return None,
                };
                let x = &t.receiver;
                parse2(quote!({ #x = Cow::Owned(#x.to_ascii_lowercase()); })).ok()
            }
            ("extend_from_slice", 1) => {
                let s = match paren(&m.args[0]) {
                    Expr::Lit(ExprLit { lit: Lit::ByteStr(s), .. }) if place(&m.receiver) && s.value().len() <= 8 => s,
                    _ => return None,
                };
                let x = &m.receiver;
                let b: Vec<LitByte> = s.value().iter().map(|c| LitByte::new(*c, s.span())).collect();
                parse2(quote!({ #(#x.push(#b);)* })).ok()
            }
            _ => None,
        }
    }
}
/// an unlabelled `continue` at the end of a loop body does nothing
fn tail(b: &mut Block) {
    if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() {
        tail_expr(e);
    }
}
fn tail_expr(e: &mut Expr) {
    match e {
        Expr::Continue(c) if c.label.is_none() => *e = parse2(quote!({})).unwrap(),
        Expr::Block(b) if b.label.is_none() => tail(&mut b.block),
        Expr::Unsafe(b) => tail(&mut b.block),
        Expr::If(i) => {
            tail(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                tail_expr(x);
            }
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail_expr(&mut a.body)),
        _ => {}
    }
}
impl VisitMut for Desugar {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        match x {
            Expr::ForLoop(l) => tail(&mut l.body),
            Expr::While(l) => tail(&mut l.body),
            Expr::Loop(l) => tail(&mut l.body),
            _ => {}
        }
        // the call that follows an entry is made on the look-up
        if let Expr::MethodCall(m) = x {
            if let Expr::MethodCall(r) = paren(&m.receiver) {
                if r.method == "or_insert_with" || r.method == "or_insert" || r.method == "or_default" {
                    if let Some(Expr::Block(b)) = self.method(&r.clone()) {
                        let mut b = b;
                        if let Some(Stmt::Expr(last, None)) = b.block.stmts.pop() {
                            let (me, a) = (&m.method, &m.args);
                            let st = &b.block.stmts;
                            *x = parse2(quote!({ #(#st)* #last.#me(#a) })).unwrap();
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, x);
        let n = match x {
            Expr::MethodCall(m) => self.method(&m.clone()),
            Expr::Call(c) if c.args.len() == 2 => {
                let f = match paren(&c.func) {
                    Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
                    _ => String::new(),
                };
                match paren(&c.args[0]) {
                    Expr::Reference(r) if (f == "std::mem::replace" || f == "mem::replace") && r.mutability.is_some() && place(&r.expr) => {
                        let (p, v, o, w) = (&r.expr, &c.args[1], self.fresh("o"), self.fresh("v"));
                        parse2(quote!({ let #w = #v; let #o = #p; #p = #w; #o })).ok()
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = n {
            *x = n;
        }
    }
}
