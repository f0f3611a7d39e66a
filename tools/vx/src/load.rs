//! Loading of the crate sources: module tree, cfg evaluation, item tables.
use proc_macro2::TokenStream;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Config {
    pub name: String,
    pub features: BTreeSet<String>,
    pub debug: bool,
}

impl Config {
    pub fn eval_meta(&self, m: &Meta) -> bool {
        match m {
            Meta::Path(p) => {
                if p.is_ident("debug_assertions") {
                    self.debug
                } else {
                    false // test, email_parser_verif, ...
                }
            }
            Meta::NameValue(nv) => {
                if nv.path.is_ident("feature") {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                        return self.features.contains(&s.value());
                    }
                }
                false
            }
            Meta::List(l) => {
                let inner: punctuated::Punctuated<Meta, Token![,]> = l
                    .parse_args_with(punctuated::Punctuated::parse_terminated)
                    .unwrap_or_default();
                if l.path.is_ident("not") {
                    !inner.iter().all(|m| self.eval_meta(m))
                } else if l.path.is_ident("all") {
                    inner.iter().all(|m| self.eval_meta(m))
                } else if l.path.is_ident("any") {
                    inner.iter().any(|m| self.eval_meta(m))
                } else {
                    false
                }
            }
        }
    }
    pub fn eval_tokens(&self, t: TokenStream) -> bool {
        match parse2::<Meta>(t) {
            Ok(m) => self.eval_meta(&m),
            Err(_) => false,
        }
    }
    pub fn ok(&self, attrs: &[Attribute]) -> bool {
        attrs.iter().all(|a| {
            if a.path().is_ident("cfg") {
                match a.parse_args::<Meta>() {
                    Ok(m) => self.eval_meta(&m),
                    Err(_) => true,
                }
            } else {
                true
            }
        })
    }
}

pub fn expr_attrs(e: &Expr) -> &[Attribute] {
    macro_rules! m { ($($v:ident),*) => { match e { $(Expr::$v(x) => &x.attrs,)* _ => &[] } } }
    m!(
        Array, Assign, Binary, Block, Break, Call, Cast, Closure, Continue, Field, ForLoop, Group, If,
        Index, Let, Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, Reference, Repeat,
        Return, Struct, Try, Tuple, Unary, Unsafe, While
    )
}
fn item_attrs(i: &Item) -> &[Attribute] {
    macro_rules! m { ($($v:ident),*) => { match i { $(Item::$v(x) => &x.attrs,)* _ => &[] } } }
    m!(Const, Enum, ExternCrate, Fn, Impl, Macro, Mod, Static, Struct, Trait, Type, Use)
}

struct Strip<'a>(&'a Config);
impl<'a> Strip<'a> {
    fn keep_punct<T: Clone, P: Clone + Default>(
        p: &mut punctuated::Punctuated<T, P>,
        f: impl Fn(&T) -> bool,
    ) {
        let v: Vec<T> = p.iter().cloned().filter(|x| f(x)).collect();
        let mut n = punctuated::Punctuated::new();
        for x in v {
            n.push(x);
        }
        *p = n;
    }
}
impl<'a> VisitMut for Strip<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => self.0.ok(&l.attrs),
            Stmt::Item(i) => self.0.ok(item_attrs(i)),
            Stmt::Expr(e, _) => self.0.ok(expr_attrs(e)),
            Stmt::Macro(m) => self.0.ok(&m.attrs),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| self.0.ok(item_attrs(i)));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        if let Some((_, items)) = &mut m.content {
            items.retain(|i| self.0.ok(item_attrs(i)));
        }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        m.items.retain(|i| match i {
            ImplItem::Fn(f) => self.0.ok(&f.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, m);
    }
    fn visit_item_struct_mut(&mut self, s: &mut ItemStruct) {
        if let Fields::Named(n) = &mut s.fields {
            Self::keep_punct(&mut n.named, |f| self.0.ok(&f.attrs));
        }
        visit_mut::visit_item_struct_mut(self, s);
    }
    fn visit_item_enum_mut(&mut self, s: &mut ItemEnum) {
        Self::keep_punct(&mut s.variants, |f| self.0.ok(&f.attrs));
        visit_mut::visit_item_enum_mut(self, s);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| self.0.ok(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, m: &mut ExprStruct) {
        Self::keep_punct(&mut m.fields, |f| self.0.ok(&f.attrs));
        visit_mut::visit_expr_struct_mut(self, m);
    }
    fn visit_pat_struct_mut(&mut self, m: &mut PatStruct) {
        Self::keep_punct(&mut m.fields, |f| self.0.ok(&f.attrs));
        visit_mut::visit_pat_struct_mut(self, m);
    }
    fn visit_expr_array_mut(&mut self, m: &mut ExprArray) {
        Self::keep_punct(&mut m.elems, |f| self.0.ok(expr_attrs(f)));
        visit_mut::visit_expr_array_mut(self, m);
    }
    fn visit_expr_tuple_mut(&mut self, m: &mut ExprTuple) {
        Self::keep_punct(&mut m.elems, |f| self.0.ok(expr_attrs(f)));
        if m.elems.len() == 1 && !m.elems.trailing_punct() {
            m.elems.push_punct(Default::default());
        }
        visit_mut::visit_expr_tuple_mut(self, m);
    }
}
/// Removes every remaining attribute (doc, inline, allow, ...).
struct NoAttrs;
impl VisitMut for NoAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub module: Vec<String>,
    /// names of the enclosing functions (nested functions only)
    pub chain: Vec<String>,
    pub name: String,
    pub self_ty: Option<(Generics, Type, String)>,
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub lines: (usize, usize),
}

#[derive(Clone, Default)]
pub struct ModInfo {
    pub globs: Vec<Vec<String>>,
    pub named: BTreeMap<String, Vec<String>>,
}

pub struct Krate {
    pub cfg: Config,
    pub fns: BTreeMap<String, FnInfo>,
    pub structs: BTreeMap<String, ItemStruct>,
    pub enums: BTreeMap<String, ItemEnum>,
    pub aliases: BTreeMap<String, ItemType>,
    pub consts: BTreeMap<String, ItemConst>,
    pub scalars: crate::consts::Consts,
    pub mods: HashMap<Vec<String>, ModInfo>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub manual_impls: Vec<(String, String)>,
}

fn collect_use(t: &UseTree, pre: &[String], out: &mut ModInfo) {
    match t {
        UseTree::Path(p) => {
            let mut v = pre.to_vec();
            v.push(p.ident.to_string());
            collect_use(&p.tree, &v, out);
        }
        UseTree::Name(n) => {
            let mut v = pre.to_vec();
            v.push(n.ident.to_string());
            out.named.insert(n.ident.to_string(), v);
        }
        UseTree::Rename(n) => {
            let mut v = pre.to_vec();
            v.push(n.ident.to_string());
            out.named.insert(n.rename.to_string(), v);
        }
        UseTree::Glob(_) => out.globs.push(pre.to_vec()),
        UseTree::Group(g) => {
            for i in &g.items {
                collect_use(i, pre, out);
            }
        }
    }
}

impl Krate {
    pub fn load(root: &Path, cfg: Config) -> std::result::Result<Krate, String> {
        let mut k = Krate {
            cfg,
            fns: Default::default(),
            structs: Default::default(),
            enums: Default::default(),
            aliases: Default::default(),
            consts: Default::default(),
            scalars: Default::default(),
            mods: Default::default(),
            derives: Default::default(),
            manual_impls: vec![],
        };
        k.scalars.scan(root);
        k.load_file(&root.join("lib.rs"), &root.to_path_buf(), vec![], root)?;
        Ok(k)
    }
    fn load_file(
        &mut self,
        file: &Path,
        dir: &PathBuf,
        module: Vec<String>,
        root: &Path,
    ) -> std::result::Result<(), String> {
        let text = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
        let mut f: File = parse_file(&text).map_err(|e| format!("{}: {}", file.display(), e))?;
        Strip(&self.cfg.clone()).visit_file_mut(&mut f);
        crate::consts::Subst { c: &self.scalars.clone(), fuel: 8 }.visit_file_mut(&mut f);
        crate::desugar::Desugar { n: 0 }.visit_file_mut(&mut f);
        crate::iterops::IterOps { n: 0 }.visit_file_mut(&mut f);
        crate::slicepat::SlicePats { n: 0 }.visit_file_mut(&mut f);
        crate::slicepat::RefPats { n: 0 }.visit_file_mut(&mut f);
        let rel = file.strip_prefix(root).unwrap_or(file).display().to_string();
        self.items(f.items, module, dir, &rel, root)
    }
    fn items(
        &mut self,
        items: Vec<Item>,
        module: Vec<String>,
        dir: &PathBuf,
        file: &str,
        root: &Path,
    ) -> std::result::Result<(), String> {
        let mut mi = ModInfo::default();
        for it in items {
            match it {
                Item::Use(u) => collect_use(&u.tree, &[], &mut mi),
                Item::Mod(m) => {
                    let name = m.ident.to_string();
                    let mut mp = module.clone();
                    mp.push(name.clone());
                    let sub = dir.join(&name);
                    match m.content {
                        Some((_, items)) => self.items(items, mp, &sub, file, root)?,
                        None => {
                            let p1 = dir.join(format!("{}.rs", name));
                            let p2 = sub.join("mod.rs");
                            let p = if p1.exists() { p1 } else { p2 };
                            self.load_file(&p, &sub, mp, root)?;
                        }
                    }
                }
                Item::Fn(f) => {
                    struct Uses<'a>(&'a mut ModInfo);
                    impl<'a, 'b> visit::Visit<'b> for Uses<'a> {
                        fn visit_item_use(&mut self, u: &'b ItemUse) {
                            collect_use(&u.tree, &[], self.0);
                        }
                    }
                    visit::Visit::visit_block(&mut Uses(&mut mi), &f.block);
                    let lines = span_lines(&f);
                    self.add_fn(f.sig, *f.block, &module, vec![], None, file, lines);
                }
                Item::Impl(im) => {
                    if let Type::Path(tp) = &*im.self_ty {
                        let tname = tp.path.segments.last().unwrap().ident.to_string();
                        if let Some((_, tr, _)) = &im.trait_ {
                            self.manual_impls
                                .push((tname.clone(), tr.segments.last().unwrap().ident.to_string()));
                        } else {
                            for ii in &im.items {
                                if let ImplItem::Fn(f) = ii {
                                    let lines = span_lines(f);
                                    self.add_fn(
                                        f.sig.clone(),
                                        f.block.clone(),
                                        &module,
                                        vec![],
                                        Some((im.generics.clone(), (*im.self_ty).clone(), tname.clone())),
                                        file,
                                        lines,
                                    );
                                }
                            }
                        }
                    }
                }
                Item::Struct(mut s) => {
                    self.note_derives(&s.ident.to_string(), &s.attrs);
                    NoAttrs.visit_item_struct_mut(&mut s);
                    self.structs.insert(s.ident.to_string(), s);
                }
                Item::Enum(mut s) => {
                    self.note_derives(&s.ident.to_string(), &s.attrs);
                    NoAttrs.visit_item_enum_mut(&mut s);
                    self.enums.insert(s.ident.to_string(), s);
                }
                Item::Type(mut t) => {
                    NoAttrs.visit_item_type_mut(&mut t);
                    self.aliases.insert(t.ident.to_string(), t);
                }
                Item::Const(mut c) => {
                    NoAttrs.visit_item_const_mut(&mut c);
                    self.consts.insert(c.ident.to_string(), c);
                }
                Item::Static(c) if matches!(c.mutability, StaticMutability::None) => {
                    let (i, t, e) = (&c.ident, &c.ty, &c.expr);
                    self.consts.insert(c.ident.to_string(), parse2(quote::quote!(const #i: #t = #e;)).unwrap());
                }
                _ => {}
            }
        }
        self.mods.insert(module, mi);
        Ok(())
    }
    fn note_derives(&mut self, name: &str, attrs: &[Attribute]) {
        let mut v = vec![];
        for a in attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|m| {
                    if let Some(i) = m.path.segments.last() {
                        v.push(i.ident.to_string());
                    }
                    Ok(())
                });
            }
        }
        self.derives.insert(name.to_string(), v);
    }
    #[allow(clippy::too_many_arguments)]
    fn add_fn(
        &mut self,
        mut sig: Signature,
        mut block: Block,
        module: &[String],
        chain: Vec<String>,
        self_ty: Option<(Generics, Type, String)>,
        file: &str,
        lines: (usize, usize),
    ) {
        NoAttrs.visit_signature_mut(&mut sig);
        NoAttrs.visit_block_mut(&mut block);
        let name = sig.ident.to_string();
        let prefix = match &self_ty {
            Some((_, _, t)) => t.clone(),
            None => module.last().cloned().unwrap_or_else(|| "crate".into()),
        };
        let mut key = prefix;
        for c in &chain {
            key = format!("{}__{}", key, c);
        }
        key = format!("{}__{}", key, name);
        // nested functions, at any depth of the body
        struct Nested(Vec<ItemFn>);
        impl VisitMut for Nested {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut keep = vec![];
                for s in std::mem::take(&mut b.stmts) {
                    match s {
                        Stmt::Item(Item::Fn(f)) => self.0.push(f),
                        s => keep.push(s),
                    }
                }
                b.stmts = keep;
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut n = Nested(vec![]);
        n.visit_block_mut(&mut block);
        let mut chain2 = chain.clone();
        chain2.push(name.clone());
        // identical nested helpers in sibling blocks (e.g. two copies of from_hex) collapse
        for f in n.0 {
            let l = span_lines(&f);
            self.add_fn(f.sig, *f.block, module, chain2.clone(), None, file, l);
        }
        self.fns.insert(
            key.clone(),
            FnInfo { key, module: module.to_vec(), chain, name, self_ty, sig, block, file: file.to_string(), lines },
        );
    }
}

pub fn span_lines<T: quote::ToTokens>(t: &T) -> (usize, usize) {
    let ts: Vec<_> = t.to_token_stream().into_iter().collect();
    match (ts.first(), ts.last()) {
        (Some(a), Some(b)) => (a.span().start().line, b.span().end().line),
        _ => (0, 0),
    }
}
