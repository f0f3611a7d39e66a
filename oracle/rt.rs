// Runtime of the oracle: values of the specification language, views of std types, generators' base.
#![allow(dead_code, unused_variables, unused_mut, unused_parens, non_snake_case, unused_imports, non_camel_case_types)]
use std::borrow::Cow;
use std::collections::HashMap;
use std::cell::Cell;

pub type int = i128;
pub type nat = i128;

// ---- arena ----
const ARENA: usize = 3 << 30;
struct Bump { base: *mut u8, cur: usize }
static mut BUMP: Bump = Bump { base: std::ptr::null_mut(), cur: 0 };
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
pub fn arena_reset() { unsafe {
    if BUMP.base.is_null() { BUMP.base = mmap(std::ptr::null_mut(), ARENA, 3, 0x4022, -1, 0); if BUMP.base as isize == -1 { eprintln!("mmap"); std::process::exit(9) } }
    BUMP.cur = 0; } }
fn alloc<T: Copy>(parts: &[&[T]]) -> &'static [T] { unsafe {
    let sz = std::mem::size_of::<T>(); let al = std::mem::align_of::<T>();
    let n: usize = parts.iter().map(|p| p.len()).sum();
    if n == 0 || sz == 0 { return std::slice::from_raw_parts(std::ptr::NonNull::<T>::dangling().as_ptr(), n) }
    // extend the last allocation in place
    let p0 = parts[0];
    if p0.len() > 0 && p0.as_ptr() as usize + p0.len() * sz == BUMP.base as usize + BUMP.cur {
        let mut at = BUMP.cur;
        let add = (n - p0.len()) * sz;
        if at + add > ARENA { std::process::exit(7) }
        for p in &parts[1..] { std::ptr::copy_nonoverlapping(p.as_ptr() as *const u8, BUMP.base.add(at), p.len() * sz); at += p.len() * sz; }
        BUMP.cur = at;
        return std::slice::from_raw_parts(p0.as_ptr(), n);
    }
    let mut at = (BUMP.cur + al - 1) / al * al;
    if at + n * sz > ARENA { std::process::exit(7) }
    let start = BUMP.base.add(at) as *const T;
    for p in parts { std::ptr::copy_nonoverlapping(p.as_ptr() as *const u8, BUMP.base.add(at), p.len() * sz); at += p.len() * sz; }
    BUMP.cur = at;
    std::slice::from_raw_parts(start, n)
} }

pub struct Seq<T: 'static>(pub &'static [T]);
impl<T> Clone for Seq<T> { fn clone(&self) -> Self { *self } }
impl<T> Copy for Seq<T> {}
impl<T: PartialEq> PartialEq for Seq<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: std::fmt::Debug + 'static> std::fmt::Debug for Seq<T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    if std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>() {
        let b: &[u8] = unsafe { std::mem::transmute::<&[T], &[u8]>(self.0) };
        write!(f, "b\"")?;
        if b.len() > 400 { for c in &b[..300] { for e in std::ascii::escape_default(*c) { write!(f, "{}", e as char)? } } return write!(f, "\"...{} bytes", b.len()); }
        for c in b { for e in std::ascii::escape_default(*c) { write!(f, "{}", e as char)? } }
        return write!(f, "\"");
    }
    f.debug_list().entries(self.0.iter()).finish() } }
impl<T: Copy + 'static> Seq<T> {
    pub fn empty() -> Self { Seq(&[]) }
    pub fn len(&self) -> int { self.0.len() as int }
    pub fn skip(&self, n: int) -> Self { Seq(&self.0[n as usize..]) }
    pub fn take(&self, n: int) -> Self { Seq(&self.0[..n as usize]) }
    pub fn subrange(&self, a: int, b: int) -> Self { Seq(&self.0[a as usize..b as usize]) }
    pub fn push(&self, x: T) -> Self { Seq(alloc(&[self.0, &[x]])) }
    pub fn drop_last(&self) -> Self { Seq(&self.0[..self.0.len() - 1]) }
    pub fn last(&self) -> T { self.0[self.0.len() - 1] }
}
impl<T: Copy + 'static> std::ops::Add for Seq<T> { type Output = Seq<T>; fn add(self, o: Self) -> Self {
    if self.0.is_empty() { o } else if o.0.is_empty() { self } else { Seq(alloc(&[self.0, o.0])) } } }
impl<T> std::ops::Index<int> for Seq<T> { type Output = T; fn index(&self, i: int) -> &T { &self.0[i as usize] } }

pub struct Map<K: 'static, V: 'static>(pub Seq<(K, V)>);
impl<K, V> Clone for Map<K, V> { fn clone(&self) -> Self { *self } }
impl<K, V> Copy for Map<K, V> {}
impl<K: Copy + PartialEq, V: Copy + PartialEq> PartialEq for Map<K, V> { fn eq(&self, o: &Self) -> bool { self.0.len() == o.0.len() && self.0 .0.iter().all(|(k, v)| o.find(*k) == Some(*v)) } }
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for Map<K, V> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    let mut v: Vec<(String, &V)> = self.0 .0.iter().map(|(k, v)| (format!("{:?}", k), v)).collect(); v.sort_by(|a, b| a.0.cmp(&b.0)); f.debug_list().entries(v.iter()).finish() } }
impl<K: Copy + PartialEq, V: Copy> Map<K, V> {
    pub fn empty() -> Self { Map(Seq::empty()) }
    fn find(&self, k: K) -> Option<V> { self.0 .0.iter().find(|p| p.0 == k).map(|p| p.1) }
    pub fn contains_key(&self, k: K) -> bool { self.find(k).is_some() }
    pub fn insert(&self, k: K, v: V) -> Self { let mut r: Vec<(K, V)> = self.0 .0.iter().filter(|p| p.0 != k).cloned().collect(); r.push((k, v)); Map(Seq(alloc(&[&r[..]]))) }
}
impl<K: Copy + PartialEq, V: Copy> std::ops::Index<K> for Map<K, V> { type Output = V; fn index(&self, k: K) -> &V { &self.0 .0.iter().find(|p| p.0 == k).unwrap().1 } }

pub type S = Seq<u8>;
pub fn seq(b: &[u8]) -> S { Seq(alloc(&[b])) }

// ---- native functions of the specification ----
pub fn valid_utf8(s: S) -> bool { std::str::from_utf8(s.0).is_ok() }
pub fn lower_s(s: S) -> S { seq(&s.0.to_ascii_lowercase()) }
pub fn decval(s: S) -> int { let mut n: int = 0; for c in s.0 { n = n.saturating_mul(10).saturating_add((*c as int) - 48) } n }
pub fn alld(s: S) -> bool { s.0.len() > 0 && s.0.iter().all(|c| *c >= 48 && *c <= 57) }

// ---- views ----
thread_local! { pub static BADUTF8: Cell<bool> = Cell::new(false); }
pub trait Sv { type V; fn sv(&self) -> Self::V; }
fn chk(b: &[u8]) -> S { if std::str::from_utf8(b).is_err() { BADUTF8.with(|x| x.set(true)) } seq(b) }
impl<'a> Sv for &'a str { type V = S; fn sv(&self) -> S { chk(self.as_bytes()) } }
impl Sv for String { type V = S; fn sv(&self) -> S { chk(self.as_bytes()) } }
impl<'a> Sv for Cow<'a, str> { type V = S; fn sv(&self) -> S { chk(self.as_bytes()) } }
impl<'a> Sv for Cow<'a, [u8]> { type V = S; fn sv(&self) -> S { seq(self) } }
impl<'a> Sv for &'a [u8] { type V = S; fn sv(&self) -> S { seq(self) } }
impl Sv for u8 { type V = int; fn sv(&self) -> int { *self as int } }
impl Sv for usize { type V = int; fn sv(&self) -> int { *self as int } }
impl Sv for bool { type V = bool; fn sv(&self) -> bool { *self } }
impl Sv for () { type V = (); fn sv(&self) -> () {} }
impl<T: Sv> Sv for Vec<T> where T::V: Copy + 'static { type V = Seq<T::V>; fn sv(&self) -> Seq<T::V> { let v: Vec<T::V> = self.iter().map(|x| x.sv()).collect(); Seq(alloc(&[&v[..]])) } }
impl<T: Sv> Sv for Option<T> { type V = Option<T::V>; fn sv(&self) -> Option<T::V> { self.as_ref().map(|x| x.sv()) } }
impl<T: Sv, U: Sv> Sv for (T, U) { type V = (T::V, U::V); fn sv(&self) -> Self::V { (self.0.sv(), self.1.sv()) } }
impl<T: Sv, U: Sv, W: Sv> Sv for (T, U, W) { type V = (T::V, U::V, W::V); fn sv(&self) -> Self::V { (self.0.sv(), self.1.sv(), self.2.sv()) } }
impl<K: Sv, V: Sv> Sv for HashMap<K, V> where K::V: Copy + PartialEq + 'static, V::V: Copy + 'static { type V = Map<K::V, V::V>;
    fn sv(&self) -> Self::V { let v: Vec<(K::V, V::V)> = self.iter().map(|(k, v)| (k.sv(), v.sv())).collect(); Map(Seq(alloc(&[&v[..]]))) } }

// ---- running a case ----
pub struct Out { pub accepted: bool, pub bad: Option<(&'static str, String, String)> }
thread_local! { pub static PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub static mut CUR: *mut u8 = std::ptr::null_mut();
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
// ---- coverage of the code under test (the crate is instrumented, the specification is not) ----
pub mod cov {
    pub static mut A: *mut u8 = std::ptr::null_mut();
    pub static mut N: usize = 0;
    pub static mut ON: bool = false;
    pub const CM: usize = 1 << 16;
    static mut EPOCH: [u32; CM] = [0; CM];
    static mut NOW: u32 = 0;
    static mut HIT: [u32; 4096] = [0; 4096];
    static mut NHIT: usize = 0;
    #[inline(always)] fn cmp(size: u64, k: u64, a: u64, b: u64) { unsafe { if !ON { return }
        let d = (a ^ b).count_ones() as u64; let e = 64 - (a.wrapping_sub(b)).min(b.wrapping_sub(a)).leading_zeros() as u64;
        let h = (k.wrapping_mul(0x9E3779B97F4A7C15) >> 40).wrapping_add(size * 7919).wrapping_mul(2654435761).wrapping_add(d * 40503 + e * 65 * 2654435) as usize;
        let i = (h ^ (h >> 16)) & (CM - 1);
        if EPOCH[i] != NOW { EPOCH[i] = NOW; if NHIT < 4096 { HIT[NHIT] = i as u32; NHIT += 1 } } } }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) { unsafe { if A.is_null() { A = a; N = b as usize - a as usize } } }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp1(a: u8, b: u8) { cmp(1, 0, a as u64, b as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp2(a: u16, b: u16) { cmp(2, 0, a as u64, b as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp4(a: u32, b: u32) { cmp(4, 0, a as u64, b as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp8(a: u64, b: u64) { cmp(8, 0, a, b) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, b: u8) { cmp(11, a as u64, a as u64, b as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, b: u16) { cmp(12, a as u64, a as u64, b as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, b: u32) { cmp(14, a as u64, a as u64, b as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, b: u64) { cmp(18, a, a, b) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_switch(a: u64, c: *const u64) { unsafe { if ON { let n = *c; for i in 0..n.min(16) { let k = *c.add(2 + i as usize); cmp(30, k, k, a) } } } }
    pub fn begin() { unsafe { if N > 0 { std::ptr::write_bytes(A, 0, N); NOW = NOW.wrapping_add(1); NHIT = 0; ON = true } } }
    pub fn end() { unsafe { ON = false } }
    // what inputs of one target have shown so far
    pub struct Seen { edges: Vec<u8>, cmps: Vec<u8> }
    impl Seen {
        pub fn new() -> Seen { Seen { edges: unsafe { vec![0; N] }, cmps: vec![0; CM / 8] } }
        pub fn fresh(&mut self) -> bool { unsafe { let mut new = false;
            let c = std::slice::from_raw_parts(if N > 0 { A as *const u8 } else { [0u8].as_ptr() }, N);
            for (i, x) in c.iter().enumerate() { if *x != 0 { let b = match *x { 1 => 1u8, 2 => 2, 3 => 4, 4..=7 => 8, 8..=15 => 16, 16..=31 => 32, 32..=127 => 64, _ => 128 }; if self.edges[i] & b == 0 { self.edges[i] |= b; new = true } } }
            for j in 0..NHIT { let i = HIT[j] as usize; if self.cmps[i / 8] & (1 << (i % 8)) == 0 { self.cmps[i / 8] |= 1 << (i % 8); new = true } }
            new } }
    }
}
pub fn stage(n: u8) { unsafe { if !CUR.is_null() { std::ptr::write_volatile(CUR, n) } } }
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    stage(1);
    cov::begin();
    BADUTF8.with(|x| x.set(false));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    cov::end();
    stage(2);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
fn short(s: String) -> String { if s.len() > 6000 { let mut k = 5000; while !s.is_char_boundary(k) { k -= 1 } format!("{}... ({} characters)", &s[..k], s.len()) } else { s } }
pub fn verdict<T: PartialEq + std::fmt::Debug>(r: Result<Option<T>, String>, full: bool, spec: impl FnOnce() -> Option<T>) -> Out {
    match r {
        Err(m) => Out { accepted: true, bad: Some(("panic", "no panic".into(), m)) },
        Ok(r) => {
            let acc = r.is_some();
            if BADUTF8.with(|x| x.get()) { return Out { accepted: acc, bad: Some(("invalid-utf8", "valid UTF-8 in every returned string".into(), short(format!("{:?}", r)))) } }
            if !full { return Out { accepted: acc, bad: None } }
            let s = spec();
            if r == s { Out { accepted: acc, bad: None } } else { Out { accepted: acc, bad: Some(("mismatch", short(format!("{:?}", s)), short(format!("{:?}", r)))) } }
        }
    }
}
