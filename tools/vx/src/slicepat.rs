//! Slice patterns, which the verifier does not accept, as tests of the length and of the elements:
//! `match s { [b'a', t @ ..] if g => x, _ => y }` becomes
//! `{ let p = s; if p.len() >= 1 && p[0] == b'a' && { let t = &p[1..]; g } { let t = &p[1..]; x } else { y } }`.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct SlicePats {
    pub n: usize,
}
fn is_slice(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Paren(p) => is_slice(&p.pat),
        Pat::Reference(r) => is_slice(&r.pat),
        Pat::Or(o) => o.cases.iter().any(is_slice),
        _ => false,
    }
}
struct Arm1 {
    cond: Vec<TokenStream>,
    bind: Vec<TokenStream>,
}
/// one element: conditions and bindings, None when out of reach
fn elem(p: &Pat, x: &TokenStream, by_val: bool, a: &mut Arm1) -> Option<()> {
    match p {
        Pat::Wild(_) => Some(()),
        Pat::Paren(p) => elem(&p.pat, x, by_val, a),
        Pat::Ident(i) => {
            if i.ident.to_string().chars().next().map_or(false, |c| c.is_uppercase()) && i.subpat.is_none() {
                let n = &i.ident;
                a.cond.push(quote!(#x == #n));
                return Some(());
            }
            if let Some((_, s)) = &i.subpat {
                elem(s, x, by_val, a)?;
            }
            let (n, m) = (&i.ident, &i.mutability);
            if by_val { a.bind.push(quote!(let #m #n = #x;)) } else { a.bind.push(quote!(let #m #n = &#x;)) }
            Some(())
        }
        Pat::Lit(l) => {
            a.cond.push(quote!(#x == #l));
            Some(())
        }
        Pat::Path(l) => {
            a.cond.push(quote!(#x == #l));
            Some(())
        }
        Pat::Range(r) => {
            if let Some(s) = &r.start {
                a.cond.push(quote!(#x >= #s));
            }
            if let Some(e) = &r.end {
                match r.limits {
                    RangeLimits::Closed(_) => a.cond.push(quote!(#x <= #e)),
                    _ => a.cond.push(quote!(#x < #e)),
                }
            }
            Some(())
        }
        Pat::Or(o) => {
            let mut alts = vec![];
            for c in &o.cases {
                let mut b = Arm1 { cond: vec![], bind: vec![] };
                elem(c, x, by_val, &mut b)?;
                if !b.bind.is_empty() {
                    return None;
                }
                let cs = if b.cond.is_empty() { vec![quote!(true)] } else { b.cond };
                alts.push(quote!((#(#cs)&&*)));
            }
            a.cond.push(quote!((#(#alts)||*)));
            Some(())
        }
        _ => None,
    }
}
fn arm(p: &Pat, s: &Ident, by_val: bool) -> Option<Arm1> {
    match p {
        Pat::Paren(p) => arm(&p.pat, s, by_val),
        Pat::Reference(r) => arm(&r.pat, s, true),
        Pat::Wild(_) => Some(Arm1 { cond: vec![], bind: vec![] }),
        Pat::Ident(i) if i.subpat.is_none() => {
            let n = &i.ident;
            Some(Arm1 { cond: vec![], bind: vec![quote!(let #n = #s;)] })
        }
        Pat::Or(o) => {
            let mut alts = vec![];
            for c in &o.cases {
                let b = arm(c, s, by_val)?;
                if !b.bind.is_empty() || b.cond.is_empty() {
                    return None;
                }
                let cs = b.cond;
                alts.push(quote!((#(#cs)&&*)));
            }
            Some(Arm1 { cond: vec![quote!((#(#alts)||*))], bind: vec![] })
        }
        Pat::Slice(sl) => {
            let rest = sl.elems.iter().position(|e| match e {
                Pat::Rest(_) => true,
                Pat::Ident(i) => i.subpat.as_ref().map_or(false, |(_, s)| matches!(**s, Pat::Rest(_))),
                _ => false,
            });
            let k = sl.elems.len();
            let mut a = Arm1 { cond: vec![], bind: vec![] };
            match rest {
                None => {
                    a.cond.push(quote!(#s.len() == #k));
                    for (i, e) in sl.elems.iter().enumerate() {
                        elem(e, &quote!(#s[#i]), by_val, &mut a)?;
                    }
                }
                Some(j) => {
                    let m = k - 1;
                    let tail = k - 1 - j;
                    a.cond.push(quote!(#s.len() >= #m));
                    for (i, e) in sl.elems.iter().enumerate() {
                        if i < j {
                            elem(e, &quote!(#s[#i]), by_val, &mut a)?;
                        } else if i > j {
                            let back = k - i;
                            elem(e, &quote!(#s[#s.len() - #back]), by_val, &mut a)?;
                        } else if let Pat::Ident(n) = e {
                            let (n, mu) = (&n.ident, &n.mutability);
                            if tail == 0 { a.bind.push(quote!(let #mu #n = &#s[#j..];)) } else { a.bind.push(quote!(let #mu #n = &#s[#j..#s.len() - #tail];)) }
                        }
                    }
                }
            }
            Some(a)
        }
        _ => None,
    }
}
impl SlicePats {
    pub fn desugar(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| is_slice(&a.pat)) {
            return None;
        }
        self.n += 1;
        let s = format_ident!("vx_sp{}", self.n);
        let mut chain: Option<TokenStream> = None;
        let last = m.arms.len() - 1;
        for (i, a) in m.arms.iter().enumerate().rev() {
            let c = arm(&a.pat, &s, false)?;
            let (cond, bind, body) = (c.cond, c.bind, &a.body);
            let test = match &a.guard {
                None if cond.is_empty() || i == last => None,
                None => Some(quote!(#(#cond)&&*)),
                Some((_, g)) => {
                    let g = if bind.is_empty() { quote!((#g)) } else { quote!({ #(#bind)* #g }) };
                    Some(quote!(#(#cond &&)* #g))
                }
            };
            chain = Some(match (test, chain) {
                (None, _) => quote!({ #(#bind)* #body }),
                (Some(t), Some(e)) => quote!(if #t { #(#bind)* #body } else { #e }),
                (Some(_), None) => return None,
            });
        }
        let e = &m.expr;
        let by_ref = matches!(**e, Expr::Unary(ExprUnary { op: UnOp::Deref(_), .. })) || matches!(&**e, Expr::Index(x) if matches!(*x.index, Expr::Range(_)));
        let e = if by_ref { quote!(&#e) } else { quote!(#e) };
        let chain = chain?;
        parse2(quote!({ let #s = #e; #chain })).ok()
    }
}
impl VisitMut for SlicePats {
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        let m: Option<(ExprMatch, bool)> = match x {
            Expr::Match(m) => Some((m.clone(), false)),
            Expr::If(i) => match &*i.cond {
                Expr::Let(l) if is_slice(&l.pat) => {
                    let (p, e, t) = (&l.pat, &l.expr, &i.then_branch);
                    let els = match &i.else_branch {
                        Some((_, e)) => quote!(#e),
                        None => quote!({}),
                    };
                    parse2(quote!(match #e { #p => #t _ => #els })).ok().map(|m| (m, false))
                }
                _ => None,
            },
            Expr::While(w) => match &*w.cond {
                Expr::Let(l) if is_slice(&l.pat) => {
                    let (p, e, t) = (&l.pat, &l.expr, &w.body);
                    parse2(quote!(match #e { #p => #t _ => { break; } })).ok().map(|m| (m, true))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((m, lp)) = m {
            if let Some(e) = self.desugar(&m) {
                if lp {
                    if let Expr::While(w) = &x {
                        let lab = &w.label;
                        if let Ok(n) = parse2(quote!(#lab loop { #e })) {
                            *x = n;
                        }
                    }
                } else {
                    *x = e;
                }
            }
        }
    }
}

/// `Some(&c) if g => x` becomes `Some(c_r) if { let c = *c_r; g } => { let c = *c_r; x }`; a literal below the `&` becomes a guard.
pub struct RefPats {
    pub n: usize,
}
struct Unref<'a> {
    n: &'a mut usize,
    cond: Vec<TokenStream>,
    bind: Vec<TokenStream>,
    bad: bool,
}
impl<'a> VisitMut for Unref<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Or(o) = p {
            // alternatives keep their form
            if o.cases.iter().any(has_ref) {
                self.bad = true;
            }
            return;
        }
        if let Pat::Reference(r) = p {
            let mut inner = &*r.pat;
            while let Pat::Paren(q) = inner {
                inner = &q.pat;
            }
            if matches!(inner, Pat::Wild(_)) {
                *p = parse_quote_pat(quote!(_));
                return;
            }
            *self.n += 1;
            let v = format_ident!("vx_rp{}", *self.n);
            let mut a = Arm1 { cond: vec![], bind: vec![] };
            if matches!(inner, Pat::Ident(_) | Pat::Lit(_) | Pat::Range(_) | Pat::Or(_)) && elem(inner, &quote!((*#v)), true, &mut a).is_some() {
                self.cond.extend(a.cond);
                self.bind.extend(a.bind);
                *p = parse_quote_pat(quote!(#v));
            } else {
                self.bad = true;
            }
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
fn parse_quote_pat(t: TokenStream) -> Pat {
    parse::Parser::parse2(Pat::parse_single, t).unwrap()
}
fn has_ref(p: &Pat) -> bool {
    struct H(bool);
    impl<'b> visit::Visit<'b> for H {
        fn visit_pat_reference(&mut self, _: &'b PatReference) {
            self.0 = true;
        }
    }
    let mut h = H(false);
    visit::Visit::visit_pat(&mut h, p);
    h.0
}
impl RefPats {
    fn arms(&mut self, m: &ExprMatch) -> Option<ExprMatch> {
        let mut m = m.clone();
        for a in &mut m.arms {
            if !has_ref(&a.pat) {
                continue;
            }
            let mut u = Unref { n: &mut self.n, cond: vec![], bind: vec![], bad: false };
            u.visit_pat_mut(&mut a.pat);
            if u.bad {
                return None;
            }
            let (cond, bind) = (u.cond, u.bind);
            let g = match &a.guard {
                Some((_, g)) if bind.is_empty() => Some(quote!((#g))),
                Some((_, g)) => Some(quote!({ #(#bind)* #g })),
                None => None,
            };
            let mut gs = cond;
            gs.extend(g);
            a.guard = if gs.is_empty() { None } else { Some((Default::default(), Box::new(parse2(quote!(#(#gs)&&*)).ok()?))) };
            if !bind.is_empty() {
                let b = &a.body;
                a.body = Box::new(parse2(quote!({ #(#bind)* #b })).ok()?);
            }
        }
        Some(m)
    }
}
impl VisitMut for RefPats {
    // `let Some(&c) = e else { .. };` -> `let Some(r) = e else { .. }; let c = *r;`
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut more = vec![];
            if let Stmt::Local(l) = &mut s {
                if has_ref(&l.pat) && l.init.as_ref().map_or(false, |i| i.diverge.is_some()) {
                    let mut p = l.pat.clone();
                    let mut u = Unref { n: &mut self.n, cond: vec![], bind: vec![], bad: false };
                    u.visit_pat_mut(&mut p);
                    if !u.bad && u.cond.is_empty() {
                        let bs = u.bind;
                        if let Ok(bl) = parse2::<Block>(quote!({ #(#bs)* })) {
                            more = bl.stmts;
                            l.pat = p;
                        }
                    }
                }
            }
            out.push(s);
            out.extend(more);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, x: &mut Expr) {
        visit_mut::visit_expr_mut(self, x);
        let m: Option<(ExprMatch, bool)> = match x {
            Expr::Match(m) if m.arms.iter().any(|a| has_ref(&a.pat)) => Some((m.clone(), false)),
            Expr::If(i) => match &*i.cond {
                Expr::Let(l) if has_ref(&l.pat) => {
                    let (p, e, t) = (&l.pat, &l.expr, &i.then_branch);
                    let els = match &i.else_branch {
                        Some((_, e)) => quote!(#e),
                        None => quote!({}),
                    };
                    parse2(quote!(match #e { #p => #t _ => #els })).ok().map(|m| (m, false))
                }
                _ => None,
            },
            Expr::While(w) => match &*w.cond {
                Expr::Let(l) if has_ref(&l.pat) => {
                    let (p, e, t) = (&l.pat, &l.expr, &w.body);
                    parse2(quote!(match #e { #p => #t _ => { break; } })).ok().map(|m| (m, true))
                }
                _ => None,
            },
            _ => None,
        };
        if let Some((m, lp)) = m {
            if let Some(m) = self.arms(&m) {
                if lp {
                    if let Expr::While(w) = &x {
                        let lab = &w.label;
                        if let Ok(n) = parse2(quote!(#lab loop { #m })) {
                            *x = n;
                        }
                    }
                } else {
                    *x = Expr::Match(m);
                }
            }
        }
    }
}
