//! Interpreter of character predicates (u8 -> bool): their 256-entry table is computed from the
//! source text of the closure or function.
use crate::load::*;
use crate::lower::*;
use quote::ToTokens;
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(i128),
    Bool(bool),
    Unit,
    Tup(Vec<V>),
    Opt(Option<Box<V>>),
}
enum Stop {
    Ret(V),
    Err(String),
}
type E<T> = std::result::Result<T, Stop>;
fn err<T>(s: impl Into<String>) -> E<T> {
    Err(Stop::Err(s.into()))
}

struct Ev<'a, 'k> {
    lo: &'a mut Lower<'k>,
    cx: Cx,
    depth: usize,
    fuel: usize,
}

pub fn call(lo: &mut Lower, b: &Bind, args: Vec<V>, depth: usize) -> R<V> {
    if depth > 20 {
        return Err("predicate recursion".into());
    }
    match b {
        Bind::Fun(k) => {
            let f: FnInfo = lo.k.fns.get(k).ok_or("unknown predicate")?.clone();
            let cx = lo.base_cx(&f, false);
            let mut env = HashMap::new();
            let mut ev = Ev { lo, cx, depth, fuel: 100_000 };
            for (p, v) in f.sig.inputs.iter().zip(args) {
                match p {
                    FnArg::Typed(t) => {
                        if let Err(Stop::Err(e)) = ev.bind(&t.pat, &v, &mut env) {
                            return Err(e);
                        }
                    }
                    _ => return Err("predicate receiver".into()),
                }
            }
            fin(ev.block(&f.block, &env))
        }
        b => {
            let (ps, body, cx) = {
                let (p, b, c) = lo.bind_parts(b).ok_or("predicate is not callable")?;
                (p.to_vec(), b.clone(), c.clone())
            };
            let mut env = HashMap::new();
            let mut ev = Ev { lo, cx, depth, fuel: 100_000 };
            for (p, v) in ps.iter().zip(args) {
                if let Err(Stop::Err(e)) = ev.bind(p, &v, &mut env) {
                    return Err(e);
                }
            }
            fin(ev.ex(&body, &env))
        }
    }
}
fn fin(r: E<V>) -> R<V> {
    match r {
        Ok(v) | Err(Stop::Ret(v)) => Ok(v),
        Err(Stop::Err(e)) => Err(e),
    }
}
type Env = HashMap<String, V>;

impl<'a, 'k> Ev<'a, 'k> {
    fn bind(&mut self, p: &Pat, v: &V, env: &mut Env) -> E<bool> {
        Ok(match p {
            Pat::Wild(_) | Pat::Rest(_) => true,
            Pat::Ident(i) if i.ident == "None" => matches!(v, V::Opt(None)),
            Pat::Ident(i) => {
                if let Some((_, s)) = &i.subpat {
                    if !self.bind(s, v, env)? {
                        return Ok(false);
                    }
                }
                env.insert(i.ident.to_string(), v.clone());
                true
            }
            Pat::Type(t) => self.bind(&t.pat, v, env)?,
            Pat::Paren(t) => self.bind(&t.pat, v, env)?,
            Pat::Reference(t) => self.bind(&t.pat, v, env)?,
            Pat::Lit(l) => {
                let x = self.lit(&l.lit)?;
                x == *v
            }
            Pat::Or(o) => {
                for c in &o.cases {
                    if self.bind(c, v, env)? {
                        return Ok(true);
                    }
                }
                false
            }
            Pat::Range(r) => {
                let n = match v {
                    V::Int(n) => *n,
                    _ => return err("range pattern"),
                };
                let e0 = Env::new();
                let lo = match &r.start {
                    Some(e) => self.int(e, &e0)?,
                    None => i128::MIN,
                };
                let hi = match &r.end {
                    Some(e) => self.int(e, &e0)?,
                    None => i128::MAX,
                };
                match r.limits {
                    RangeLimits::Closed(_) => lo <= n && n <= hi,
                    RangeLimits::HalfOpen(_) => lo <= n && (n < hi || r.end.is_none()),
                }
            }
            Pat::Tuple(t) => match v {
                V::Tup(vs) if vs.len() == t.elems.len() => {
                    for (p, v) in t.elems.iter().zip(vs.clone()) {
                        if !self.bind(p, &v, env)? {
                            return Ok(false);
                        }
                    }
                    true
                }
                _ => return err("tuple pattern"),
            },
            Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => match v {
                V::Opt(Some(x)) => {
                    let x = x.clone();
                    self.bind(&t.elems[0], &x, env)?
                }
                V::Opt(None) => false,
                _ => return err("pattern"),
            },
            _ => return err("predicate pattern"),
        })
    }
    fn lit(&self, l: &Lit) -> E<V> {
        Ok(match l {
            Lit::Int(i) => V::Int(i.base10_parse().map_err(|e| Stop::Err(e.to_string()))?),
            Lit::Byte(b) => V::Int(b.value() as i128),
            Lit::Bool(b) => V::Bool(b.value),
            Lit::Char(c) => V::Int(c.value() as i128),
            _ => return err("literal in a predicate"),
        })
    }
    fn int(&mut self, e: &Expr, env: &Env) -> E<i128> {
        match self.ex(e, env)? {
            V::Int(n) => Ok(n),
            _ => err("integer expected"),
        }
    }
    fn bool(&mut self, e: &Expr, env: &Env) -> E<bool> {
        match self.ex(e, env)? {
            V::Bool(n) => Ok(n),
            _ => err("boolean expected"),
        }
    }
    fn block(&mut self, b: &Block, env: &Env) -> E<V> {
        let mut env = env.clone();
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let v = match &l.init {
                        Some(x) if x.diverge.is_none() => self.ex(&x.expr, &env)?,
                        _ => return err("let in a predicate"),
                    };
                    self.bind(&l.pat, &v, &mut env)?;
                }
                Stmt::Item(_) => {}
                Stmt::Macro(m) => {
                    let v = self.mac(&m.mac, &env)?;
                    if i + 1 == n && m.semi_token.is_none() {
                        return Ok(v);
                    }
                }
                Stmt::Expr(e, semi) => {
                    if let Expr::Assign(a) = e {
                        if let Expr::Path(p) = &*a.left {
                            if let Some(id) = p.path.get_ident() {
                                let v = self.ex(&a.right, &env)?;
                                env.insert(id.to_string(), v);
                                continue;
                            }
                        }
                    }
                    let v = self.ex(e, &env)?;
                    if i + 1 == n && semi.is_none() {
                        return Ok(v);
                    }
                }
            }
        }
        Ok(V::Unit)
    }
    fn list(&mut self, e: &Expr, env: &Env) -> Option<Vec<V>> {
        match e {
            Expr::Paren(p) => self.list(&p.expr, env),
            Expr::Reference(p) => self.list(&p.expr, env),
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value().iter().map(|x| V::Int(*x as i128)).collect()),
            Expr::Array(a) => a.elems.iter().map(|x| self.ex(x, env).ok()).collect(),
            Expr::Path(p) => {
                let n = p.path.segments.last()?.ident.to_string();
                let c = self.lo.k.consts.get(&n)?.clone();
                self.list(&c.expr, &Env::new())
            }
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "as_bytes" || m.method == "iter" || m.method == "as_ref") => {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*m.receiver {
                    return Some(s.value().bytes().map(|x| V::Int(x as i128)).collect());
                }
                self.list(&m.receiver, env)
            }
            _ => None,
        }
    }
    fn ex(&mut self, e: &Expr, env: &Env) -> E<V> {
        if self.fuel == 0 {
            return err("predicate does not terminate");
        }
        self.fuel -= 1;
        Ok(match e {
            Expr::Paren(p) => self.ex(&p.expr, env)?,
            Expr::Group(p) => self.ex(&p.expr, env)?,
            Expr::Reference(p) => self.ex(&p.expr, env)?,
            Expr::Lit(l) => self.lit(&l.lit)?,
            Expr::Block(b) => self.block(&b.block, env)?,
            Expr::Unsafe(b) => self.block(&b.block, env)?,
            Expr::Tuple(t) => {
                let mut v = vec![];
                for x in &t.elems {
                    v.push(self.ex(x, env)?);
                }
                V::Tup(v)
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if p.path.segments.len() == 1 {
                    if let Some(v) = env.get(&n) {
                        return Ok(v.clone());
                    }
                }
                if let Some(c) = self.lo.k.consts.get(&n).cloned() {
                    return self.ex(&c.expr, &Env::new());
                }
                return err(format!("name {} in a predicate", n));
            }
            Expr::Unary(u) => {
                let v = self.ex(&u.expr, env)?;
                match (&u.op, v) {
                    (UnOp::Deref(_), v) => v,
                    (UnOp::Not(_), V::Bool(b)) => V::Bool(!b),
                    (UnOp::Neg(_), V::Int(b)) => V::Int(-b),
                    _ => return err("unary operator in a predicate"),
                }
            }
            Expr::Cast(c) => {
                let v = self.ex(&c.expr, env)?;
                match v {
                    V::Bool(b) => V::Int(b as i128),
                    V::Int(n) => {
                        let t = c.ty.to_token_stream().to_string();
                        V::Int(match t.as_str() {
                            "u8" => n as u8 as i128,
                            "i8" => n as i8 as i128,
                            "char" => n,
                            "u16" => n as u16 as i128,
                            "u32" | "usize" | "u64" | "i32" | "i64" => n,
                            _ => return err("cast"),
                        })
                    }
                    _ => return err("cast"),
                }
            }
            Expr::If(i) => {
                let mut e2 = env.clone();
                let c = match &*i.cond {
                    Expr::Let(l) => {
                        let v = self.ex(&l.expr, env)?;
                        self.bind(&l.pat, &v, &mut e2)?
                    }
                    c => self.bool(c, env)?,
                };
                if c {
                    self.block(&i.then_branch, &e2)?
                } else {
                    match &i.else_branch {
                        Some((_, e)) => self.ex(e, env)?,
                        None => V::Unit,
                    }
                }
            }
            Expr::Match(m) => {
                let v = self.ex(&m.expr, env)?;
                for a in &m.arms {
                    let mut e2 = env.clone();
                    if self.bind(&a.pat, &v, &mut e2)? {
                        let g = match &a.guard {
                            Some((_, g)) => self.bool(g, &e2)?,
                            None => true,
                        };
                        if g {
                            return self.ex(&a.body, &e2);
                        }
                    }
                }
                return err("no match arm");
            }
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(e) => self.ex(e, env)?,
                    None => V::Unit,
                };
                return Err(Stop::Ret(v));
            }
            Expr::Macro(m) => self.mac(&m.mac, env)?,
            Expr::Binary(b) => {
                use BinOp::*;
                match &b.op {
                    And(_) => return Ok(V::Bool(self.bool(&b.left, env)? && self.bool(&b.right, env)?)),
                    Or(_) => return Ok(V::Bool(self.bool(&b.left, env)? || self.bool(&b.right, env)?)),
                    _ => {}
                }
                let l = self.ex(&b.left, env)?;
                let r = self.ex(&b.right, env)?;
                match (&b.op, &l, &r) {
                    (Eq(_), _, _) => return Ok(V::Bool(l == r)),
                    (Ne(_), _, _) => return Ok(V::Bool(l != r)),
                    (BitAnd(_), V::Bool(a), V::Bool(b)) => return Ok(V::Bool(*a & *b)),
                    (BitOr(_), V::Bool(a), V::Bool(b)) => return Ok(V::Bool(*a | *b)),
                    (BitXor(_), V::Bool(a), V::Bool(b)) => return Ok(V::Bool(*a ^ *b)),
                    _ => {}
                }
                let (a, c) = match (l, r) {
                    (V::Int(a), V::Int(c)) => (a, c),
                    _ => return err("operands"),
                };
                match &b.op {
                    Lt(_) => V::Bool(a < c),
                    Le(_) => V::Bool(a <= c),
                    Gt(_) => V::Bool(a > c),
                    Ge(_) => V::Bool(a >= c),
                    // predicates are over u8: results outside 0..=255 would overflow (or need wider types)
                    Add(_) | Sub(_) | Mul(_) => {
                        let v = match &b.op {
                            Add(_) => a + c,
                            Sub(_) => a - c,
                            _ => a * c,
                        };
                        if !(0..=255).contains(&v) {
                            return err("arithmetic overflow in a predicate");
                        }
                        V::Int(v)
                    }
                    BitAnd(_) => V::Int(a & c),
                    BitOr(_) => V::Int(a | c),
                    BitXor(_) => V::Int(a ^ c),
                    Shr(_) => V::Int(a >> c),
                    Rem(_) if c != 0 => V::Int(a % c),
                    Div(_) if c != 0 => V::Int(a / c),
                    _ => return err("operator in a predicate"),
                }
            }
            Expr::Call(c) => {
                let mut args = vec![];
                for a in &c.args {
                    args.push(self.ex(a, env)?);
                }
                if let Expr::Path(p) = &*c.func {
                    if p.path.is_ident("Some") {
                        return Ok(V::Opt(Some(Box::new(args.remove(0)))));
                    }
                }
                let cx = self.cx.clone();
                let b = match self.lo.pred_bind(&c.func, &cx) {
                    Ok(Some(b)) => b,
                    Ok(None) => return err("call in a predicate"),
                    Err(e) => return err(e),
                };
                let d = self.depth + 1;
                match call(self.lo, &b, args, d) {
                    Ok(v) => v,
                    Err(e) => return err(e),
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "contains" && m.args.len() == 1 {
                    let mut r = &*m.receiver;
                    while let Expr::Paren(p) = r {
                        r = &p.expr;
                    }
                    if let Expr::Range(rg) = r {
                        let n = self.int(&m.args[0], env)?;
                        let lo = match &rg.start {
                            Some(e) => self.int(e, env)?,
                            None => i128::MIN,
                        };
                        let hi = match &rg.end {
                            Some(e) => self.int(e, env)?,
                            None => return Ok(V::Bool(lo <= n)),
                        };
                        return Ok(V::Bool(match rg.limits {
                            RangeLimits::Closed(_) => lo <= n && n <= hi,
                            RangeLimits::HalfOpen(_) => lo <= n && n < hi,
                        }));
                    }
                    if let Some(l) = self.list(&m.receiver, env) {
                        let v = self.ex(&m.args[0], env)?;
                        return Ok(V::Bool(l.contains(&v)));
                    }
                }
                let n = self.int(&m.receiver, env)? as u8;
                if m.args.len() == 1 && name == "eq_ignore_ascii_case" {
                    let o = self.int(&m.args[0], env)? as u8;
                    return Ok(V::Bool(n.eq_ignore_ascii_case(&o)));
                }
                if !m.args.is_empty() {
                    return err(format!("method {} in a predicate", name));
                }
                V::Bool(match name.as_str() {
                    "is_ascii" => n.is_ascii(),
                    "is_ascii_digit" => n.is_ascii_digit(),
                    "is_ascii_alphabetic" => n.is_ascii_alphabetic(),
                    "is_ascii_alphanumeric" => n.is_ascii_alphanumeric(),
                    "is_ascii_graphic" => n.is_ascii_graphic(),
                    "is_ascii_punctuation" => n.is_ascii_punctuation(),
                    "is_ascii_hexdigit" => n.is_ascii_hexdigit(),
                    "is_ascii_whitespace" => n.is_ascii_whitespace(),
                    "is_ascii_uppercase" => n.is_ascii_uppercase(),
                    "is_ascii_lowercase" => n.is_ascii_lowercase(),
                    "is_ascii_control" => n.is_ascii_control(),
                    "to_ascii_lowercase" => return Ok(V::Int(n.to_ascii_lowercase() as i128)),
                    "to_ascii_uppercase" => return Ok(V::Int(n.to_ascii_uppercase() as i128)),
                    "clone" | "to_owned" => return Ok(V::Int(n as i128)),
                    _ => return err(format!("method {} in a predicate", name)),
                })
            }
            _ => return err("expression in a predicate"),
        })
    }
    fn mac(&mut self, m: &Macro, env: &Env) -> E<V> {
        if m.path.is_ident("matches") {
            struct Mm(Expr, Pat, Option<Expr>);
            impl parse::Parse for Mm {
                fn parse(i: parse::ParseStream) -> syn::Result<Self> {
                    let e = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>()?;
                    Ok(Mm(e, p, g))
                }
            }
            let mm: Mm = match m.parse_body() {
                Ok(m) => m,
                Err(e) => return err(e.to_string()),
            };
            let v = self.ex(&mm.0, env)?;
            let mut e2 = env.clone();
            let mut b = self.bind(&mm.1, &v, &mut e2)?;
            if b {
                if let Some(g) = mm.2 {
                    b = self.bool(&g, &e2)?;
                }
            }
            return Ok(V::Bool(b));
        }
        if m.path.is_ident("cfg") {
            return Ok(V::Bool(self.lo.k.cfg.eval_tokens(m.tokens.clone())));
        }
        if m.path.is_ident("debug_assert") || m.path.is_ident("assert") {
            return Ok(V::Unit);
        }
        err("macro in a predicate")
    }
}
