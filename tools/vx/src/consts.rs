//! Named constants of scalar or string type are replaced by their values before lowering
//! (a constant whose name is defined twice with different values in the crate is left alone).
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use std::path::Path;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
pub struct Consts(pub BTreeMap<String, Option<(String, Expr)>>);

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

fn plain(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => plain(&p.expr),
        Expr::Lit(_) => true,
        Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_'),
        Expr::Binary(b) => plain(&b.left) && plain(&b.right),
        Expr::Unary(u) => plain(&u.expr),
        Expr::Cast(u) => plain(&u.expr),
        _ => false,
    }
}
impl Consts {
    fn add(&mut self, name: &Ident, ty: &Type, e: &Expr) {
        let t = ty.to_token_stream().to_string().replace(' ', "").replace("'static", "");
        let bytes = matches!(e, Expr::Lit(ExprLit { lit: Lit::ByteStr(_), .. }))
            && (t == "&[u8]" || t.starts_with("&[u8;"));
        let string = t == "&str" && matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
        let scalar = (INTS.contains(&t.as_str()) || t == "bool" || t == "char") && plain(e);
        let v = (bytes || string || scalar).then(|| (t.clone(), e.clone()));
        let n = name.to_string();
        match self.0.get(&n) {
            Some(o) if o.as_ref().map(|x| (x.0.clone(), x.1.to_token_stream().to_string()))
                != v.as_ref().map(|x| (x.0.clone(), x.1.to_token_stream().to_string())) => {
                self.0.insert(n, None);
            }
            _ => {
                self.0.insert(n, v);
            }
        }
    }
    pub fn scan(&mut self, dir: &Path) {
        let Ok(d) = std::fs::read_dir(dir) else { return };
        let mut v: Vec<_> = d.flatten().map(|x| x.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                self.scan(&p);
            } else if p.extension().map_or(false, |x| x == "rs") {
                if let Some(f) = std::fs::read_to_string(&p).ok().and_then(|t| parse_file(&t).ok()) {
                    self.visit_file(&f);
                }
            }
        }
    }
    fn value(&self, n: &str, fuel: usize) -> Option<Expr> {
        let (t, e) = self.0.get(n)?.clone()?;
        if fuel == 0 {
            return None;
        }
        if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = &e {
            let l = LitInt::new(&format!("{}{}", i.base10_digits(), t), i.span());
            return Some(parse2(quote!(#l)).unwrap());
        }
        if matches!(e, Expr::Lit(_)) {
            return Some(e);
        }
        let mut e = e;
        Subst { c: self, fuel: fuel - 1 }.visit_expr_mut(&mut e);
        if let (true, Some(v)) = (INTS.contains(&t.as_str()), int(&e)) {
            if v >= 0 {
                let l = LitInt::new(&format!("{}{}", v, t), proc_macro2::Span::call_site());
                return Some(parse2(quote!(#l)).unwrap());
            }
        }
        let ty: Type = parse_str(&t).unwrap();
        Some(if INTS.contains(&t.as_str()) { parse2(quote!(((#e) as #ty))).unwrap() } else { parse2(quote!((#e))).unwrap() })
    }
}
fn int(e: &Expr) -> Option<i128> {
    Some(match e {
        Expr::Paren(p) => int(&p.expr)?,
        Expr::Cast(p) => int(&p.expr)?,
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok()?,
        Expr::Lit(ExprLit { lit: Lit::Byte(i), .. }) => i.value() as i128,
        Expr::Binary(b) => {
            let (x, y) = (int(&b.left)?, int(&b.right)?);
            match b.op {
                BinOp::Add(_) => x.checked_add(y)?,
                BinOp::Sub(_) => x.checked_sub(y)?,
                BinOp::Mul(_) => x.checked_mul(y)?,
                BinOp::Div(_) => x.checked_div(y)?,
                _ => return None,
            }
        }
        _ => return None,
    })
}
impl<'a> Visit<'a> for Consts {
    fn visit_item_const(&mut self, c: &'a ItemConst) {
        self.add(&c.ident, &c.ty, &c.expr);
        visit::visit_item_const(self, c);
    }
    fn visit_item_static(&mut self, c: &'a ItemStatic) {
        if matches!(c.mutability, StaticMutability::None) {
            self.add(&c.ident, &c.ty, &c.expr);
        }
    }
    fn visit_impl_item_const(&mut self, c: &'a ImplItemConst) {
        self.add(&c.ident, &c.ty, &c.expr);
    }
}

pub struct Subst<'a> {
    pub c: &'a Consts,
    pub fuel: usize,
}
impl<'a> Subst<'a> {
    fn of(&self, p: &ExprPath) -> Option<Expr> {
        let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
        if p.qself.is_some() || !(s.len() == 1 || s.len() == 2 && s[0] == "Self") {
            return None;
        }
        self.c.value(s.last().unwrap(), self.fuel)
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(v) = self.of(p) {
                *e = v;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        let v = match p {
            Pat::Path(q) => self.of(q),
            Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => {
                self.c.value(&i.ident.to_string(), self.fuel)
            }
            _ => None,
        };
        if let Some(Expr::Lit(l)) = v {
            let mut l = l;
            if let Lit::Int(i) = &l.lit {
                l.lit = Lit::Int(LitInt::new(i.base10_digits(), i.span()));
            }
            *p = Pat::Lit(l);
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_item_const_mut(&mut self, _: &mut ItemConst) {}
    fn visit_item_static_mut(&mut self, _: &mut ItemStatic) {}
}
