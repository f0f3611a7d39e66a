// ---------------------------------------------------------------------------------------------
// Views of standard types and the trusted contracts of the standard functions the code calls.
// Every `external_body` below is an assumption; the checks list them in their evidence.
// ---------------------------------------------------------------------------------------------
pub type Res<'a, T> = Result<(&'a [u8], T), Error>;
pub type S = Seq<u8>;

pub trait Sv { type V; spec fn sv(&self) -> Self::V; }
impl<'a> Sv for &'a str { type V = Seq<u8>; open spec fn sv(&self) -> Seq<u8> { encode_utf8(self@) } }
impl Sv for String { type V = Seq<u8>; open spec fn sv(&self) -> Seq<u8> { encode_utf8(self@) } }
impl<'a> Sv for Cow<'a, str> { type V = Seq<u8>; open spec fn sv(&self) -> Seq<u8> { match self { Cow::Borrowed(s) => encode_utf8(s@), Cow::Owned(s) => encode_utf8(s@) } } }
impl<'a> Sv for Cow<'a, [u8]> { type V = Seq<u8>; open spec fn sv(&self) -> Seq<u8> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } } }
impl<'a> Sv for &'a [u8] { type V = Seq<u8>; open spec fn sv(&self) -> Seq<u8> { self@ } }
impl Sv for u8 { type V = int; open spec fn sv(&self) -> int { *self as int } }
impl Sv for usize { type V = int; open spec fn sv(&self) -> int { *self as int } }
impl Sv for bool { type V = bool; open spec fn sv(&self) -> bool { *self } }
impl Sv for () { type V = (); open spec fn sv(&self) -> () { () } }
impl<T: Sv> Sv for Vec<T> { type V = Seq<T::V>; open spec fn sv(&self) -> Seq<T::V> { vs(self@) } }
impl<T: Sv> Sv for Option<T> { type V = Option<T::V>; open spec fn sv(&self) -> Option<T::V> { match self { Some(x) => Some(x.sv()), None => None } } }
impl<T: Sv, U: Sv> Sv for (T, U) { type V = (T::V, U::V); open spec fn sv(&self) -> (T::V, U::V) { (self.0.sv(), self.1.sv()) } }
impl<T: Sv, U: Sv, W: Sv> Sv for (T, U, W) { type V = (T::V, U::V, W::V); open spec fn sv(&self) -> (T::V, U::V, W::V) { (self.0.sv(), self.1.sv(), self.2.sv()) } }
pub open spec fn vs<T: Sv>(s: Seq<T>) -> Seq<T::V> { s.map_values(|x: T| x.sv()) }

pub open spec fn conf<'a, T: Sv>(r: Res<'a, T>, sp: Option<(Seq<u8>, T::V)>) -> bool {
    match r { Ok((rest, v)) => sp == Some((rest@, v.sv())), Err(_) => sp is None }
}
pub open spec fn conf0<T: Sv>(r: Result<T, Error>, sp: Option<T::V>) -> bool {
    match r { Ok(v) => sp == Some(v.sv()), Err(_) => sp is None }
}
pub open spec fn strict<'a, T>(r: Res<'a, T>, s: Seq<u8>) -> bool { match r { Ok((rest, _)) => rest@.len() < s.len(), Err(_) => true } }
pub open spec fn weak<'a, T>(r: Res<'a, T>, s: Seq<u8>) -> bool { match r { Ok((rest, _)) => rest@.len() <= s.len(), Err(_) => true } }

// ---- sequences ----
pub broadcast proof fn map_push<T: Sv>(a: Seq<T>, x: T) ensures #[trigger] vs(a.push(x)) == vs(a).push(x.sv()) { assert(vs(a.push(x)) =~= vs(a).push(x.sv())); }
pub broadcast proof fn map_skip<T: Sv>(a: Seq<T>, k: int) requires 0 <= k <= a.len() ensures #[trigger] vs(a.skip(k)) == vs(a).skip(k) { assert(vs(a.skip(k)) =~= vs(a).skip(k)); }
pub broadcast proof fn map_add<T: Sv>(a: Seq<T>, b: Seq<T>) ensures #[trigger] vs(a + b) == vs(a) + vs(b) { assert(vs(a + b) =~= vs(a) + vs(b)); }
pub broadcast proof fn map_len<T: Sv>(a: Seq<T>) ensures #[trigger] vs(a).len() == a.len() {}
pub broadcast proof fn map_idx<T: Sv>(a: Seq<T>, i: int) requires 0 <= i < a.len() ensures #[trigger] vs(a)[i] == a[i].sv() {}
pub broadcast proof fn map_empty<T: Sv>(a: Seq<T>) requires a.len() == 0 ensures #[trigger] vs(a) == Seq::<T::V>::empty() { assert(vs(a) =~= Seq::<T::V>::empty()); }
pub broadcast proof fn add_empty_l<A>(a: Seq<A>, s: Seq<A>) requires a.len() == 0 ensures #[trigger] (a + s) == s { assert(a + s =~= s); }
pub broadcast proof fn add_empty_r<A>(s: Seq<A>, a: Seq<A>) requires a.len() == 0 ensures #[trigger] (s + a) == s { assert(s + a =~= s); }
pub broadcast proof fn skip_len<A>(s: Seq<A>, k: int) requires k == s.len() ensures #[trigger] s.skip(k) == Seq::<A>::empty() { assert(s.skip(k) =~= Seq::<A>::empty()); }
pub broadcast proof fn skip_0<A>(s: Seq<A>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn take_len<A>(s: Seq<A>, k: int) requires k == s.len() ensures #[trigger] s.take(k) == s { assert(s.take(k) =~= s); }
pub broadcast proof fn take_0<A>(s: Seq<A>) ensures #[trigger] s.take(0) == Seq::<A>::empty() { assert(s.take(0) =~= Seq::<A>::empty()); }
pub broadcast proof fn skip_skip<A>(s: Seq<A>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn len0_empty<A>(s: Seq<A>) requires #[trigger] s.len() == 0 ensures s == Seq::<A>::empty() { assert(s =~= Seq::<A>::empty()); }
pub broadcast proof fn add_1<A>(s: Seq<A>, a: Seq<A>) requires a.len() == 1 ensures #[trigger] (s + a) == s.push(a[0]) { assert(s + a =~= s.push(a[0])); }
pub broadcast proof fn add_2<A>(s: Seq<A>, a: Seq<A>) requires a.len() == 2 ensures #[trigger] (s + a) == s.push(a[0]).push(a[1]) { assert(s + a =~= s.push(a[0]).push(a[1])); }
pub broadcast proof fn add_3<A>(s: Seq<A>, a: Seq<A>) requires a.len() == 3 ensures #[trigger] (s + a) == s.push(a[0]).push(a[1]).push(a[2]) { assert(s + a =~= s.push(a[0]).push(a[1]).push(a[2])); }
pub broadcast proof fn add_4<A>(s: Seq<A>, a: Seq<A>) requires a.len() == 4 ensures #[trigger] (s + a) == s.push(a[0]).push(a[1]).push(a[2]).push(a[3]) { assert(s + a =~= s.push(a[0]).push(a[1]).push(a[2]).push(a[3])); }
pub broadcast group gadd { add_1, add_2, add_3, add_4 }
pub broadcast group gseq { map_push, map_skip, map_add, map_len, map_idx, map_empty, add_empty_l, add_empty_r, skip_len, skip_0, take_len, take_0 }

// no slice of bytes is longer than 2^60 (more than any machine can address)
#[verifier::external_body] pub broadcast proof fn slice_space(v: &[u8]) ensures #[trigger] v@.len() <= 0x1000_0000_0000_0000 {}

// ---- UTF-8 ----
#[verifier::opaque] pub open spec fn asc_s(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] < 128 }
pub proof fn ascii_valid_rec(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> b[i] < 128 ensures valid_utf8(b) decreases b.len()
{ if b.len() > 0 { ascii_valid_rec(b.skip(1)); assert(pop_first_scalar(b) =~= b.skip(1)); assert(is_leading_byte_width_1(b[0])) by { let x = b[0]; assert(x < 128 ==> (x & 0x80u8) == 0) by (bit_vector); } } }
pub broadcast proof fn ascii_valid(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> b[i] < 128 ensures #[trigger] valid_utf8(b) { ascii_valid_rec(b); }
pub broadcast proof fn str_valid(c: Seq<char>) ensures valid_utf8(#[trigger] encode_utf8(c)) { encode_utf8_valid_utf8(c); }

// ---- lengths ----
pub trait TLen { spec fn slen(&self) -> nat; fn t_len(&self) -> (r: usize) ensures r == self.slen(); fn t_is_empty(&self) -> (r: bool) ensures r == (self.slen() == 0); }
impl TLen for str { open spec fn slen(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body] fn t_len(&self) -> usize { self.len() }
    fn t_is_empty(&self) -> bool { self.is_empty() } }
impl TLen for String { open spec fn slen(&self) -> nat { encode_utf8(self@).len() }
    #[verifier::external_body] fn t_len(&self) -> usize { self.len() }
    fn t_is_empty(&self) -> bool { self.is_empty() } }
impl<T> TLen for [T] { open spec fn slen(&self) -> nat { self@.len() }
    fn t_len(&self) -> usize { self.len() }
    fn t_is_empty(&self) -> bool { self.len() == 0 } }
impl<T> TLen for Vec<T> { open spec fn slen(&self) -> nat { self@.len() }
    fn t_len(&self) -> usize { self.len() }
    fn t_is_empty(&self) -> bool { self.len() == 0 } }
impl<'a> TLen for Cow<'a, str> { open spec fn slen(&self) -> nat { match self { Cow::Borrowed(s) => encode_utf8(s@).len(), Cow::Owned(s) => encode_utf8(s@).len() } }
    fn t_len(&self) -> usize { match self { Cow::Borrowed(s) => s.t_len(), Cow::Owned(s) => s.t_len() } }
    fn t_is_empty(&self) -> bool { match self { Cow::Borrowed(s) => s.t_is_empty(), Cow::Owned(s) => s.t_is_empty() } } }

// ---- byte slices ----
pub trait TSlice {
    spec fn tv(&self) -> Seq<u8>;
    fn t_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == pfx(self.tv(), p@);
    fn t_gu(&self, i: usize) -> (r: &u8) requires i < self.tv().len() ensures *r == self.tv()[i as int];
    fn t_gu_from(&self, i: usize) -> (r: &[u8]) requires i <= self.tv().len() ensures r@ == self.tv().skip(i as int);
    fn t_gu_to(&self, i: usize) -> (r: &[u8]) requires i <= self.tv().len() ensures r@ == self.tv().take(i as int);
    fn t_get(&self, i: usize) -> (r: Option<&u8>) ensures match r { Some(x) => i < self.tv().len() && *x == self.tv()[i as int], None => i >= self.tv().len() };
    fn t_get_from(&self, i: usize) -> (r: Option<&[u8]>) ensures match r { Some(x) => i <= self.tv().len() && x@ == self.tv().skip(i as int), None => i > self.tv().len() };
    fn t_get_to(&self, i: usize) -> (r: Option<&[u8]>) ensures match r { Some(x) => i <= self.tv().len() && x@ == self.tv().take(i as int), None => i > self.tv().len() };
    fn t_get_rng(&self, i: usize, j: usize) -> (r: Option<&[u8]>) ensures match r { Some(x) => i <= j <= self.tv().len() && x@ == self.tv().subrange(i as int, j as int), None => !(i <= j <= self.tv().len()) };
    fn t_sl_from(&self, i: usize) -> (r: &[u8]) requires i <= self.tv().len() ensures r@ == self.tv().skip(i as int);
    fn t_sl_rng(&self, i: usize, j: usize) -> (r: &[u8]) requires i <= j <= self.tv().len() ensures r@ == self.tv().subrange(i as int, j as int);
    fn t_sl_to(&self, i: usize) -> (r: &[u8]) requires i <= self.tv().len() ensures r@ == self.tv().take(i as int);
}
impl TSlice for [u8] {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    fn t_starts_with(&self, p: &[u8]) -> bool { let r = self.starts_with(p); proof { pfx_idx(self@, p@); if p@.len() <= self@.len() { assert(r == (self@.take(p@.len() as int) =~= p@)); assert(forall|i: int| 0 <= i < p@.len() ==> self@.take(p@.len() as int)[i] == self@[i]); } } r }
    fn t_gu(&self, i: usize) -> &u8 { &self[i] }
    fn t_gu_from(&self, i: usize) -> &[u8] { &self[i..] }
    fn t_gu_to(&self, i: usize) -> &[u8] { &self[..i] }
    fn t_get(&self, i: usize) -> Option<&u8> { self.get(i) }
    fn t_get_from(&self, i: usize) -> Option<&[u8]> { self.get(i..) }
    fn t_get_to(&self, i: usize) -> Option<&[u8]> { self.get(..i) }
    fn t_get_rng(&self, i: usize, j: usize) -> Option<&[u8]> { self.get(i..j) }
    fn t_sl_from(&self, i: usize) -> &[u8] { &self[i..] }
    fn t_sl_rng(&self, i: usize, j: usize) -> &[u8] { &self[i..j] }
    fn t_sl_to(&self, i: usize) -> &[u8] { &self[..i] }
}
impl TSlice for Vec<u8> {
    open spec fn tv(&self) -> Seq<u8> { self@ }
    fn t_starts_with(&self, p: &[u8]) -> bool { let r = self.starts_with(p); proof { pfx_idx(self@, p@); if p@.len() <= self@.len() { assert(r == (self@.take(p@.len() as int) =~= p@)); assert(forall|i: int| 0 <= i < p@.len() ==> self@.take(p@.len() as int)[i] == self@[i]); } } r }
    fn t_gu(&self, i: usize) -> &u8 { &self[i] }
    fn t_gu_from(&self, i: usize) -> &[u8] { &self[i..] }
    fn t_gu_to(&self, i: usize) -> &[u8] { &self[..i] }
    fn t_get(&self, i: usize) -> Option<&u8> { self.get(i) }
    fn t_get_from(&self, i: usize) -> Option<&[u8]> { self.get(i..) }
    fn t_get_to(&self, i: usize) -> Option<&[u8]> { self.get(..i) }
    fn t_get_rng(&self, i: usize, j: usize) -> Option<&[u8]> { self.get(i..j) }
    fn t_sl_from(&self, i: usize) -> &[u8] { &self[i..] }
    fn t_sl_rng(&self, i: usize, j: usize) -> &[u8] { &self[i..j] }
    fn t_sl_to(&self, i: usize) -> &[u8] { &self[..i] }
}
// more of the slice and integer functions, for code that is written with them
pub trait TSlice2 {
    spec fn tv2(&self) -> Seq<u8>;
    fn t_first(&self) -> (r: Option<&u8>) ensures match r { Some(x) => self.tv2().len() > 0 && *x == self.tv2()[0], None => self.tv2().len() == 0 };
    fn t_last(&self) -> (r: Option<&u8>) ensures match r { Some(x) => self.tv2().len() > 0 && *x == self.tv2().last(), None => self.tv2().len() == 0 };
    fn t_split_at(&self, i: usize) -> (r: (&[u8], &[u8])) requires i <= self.tv2().len() ensures r.0@ == self.tv2().take(i as int), r.1@ == self.tv2().skip(i as int);
    fn t_split_first(&self) -> (r: Option<(&u8, &[u8])>) ensures match r { Some((x, t)) => self.tv2().len() > 0 && *x == self.tv2()[0] && t@ == self.tv2().skip(1), None => self.tv2().len() == 0 };
    fn t_strip_prefix(&self, p: &[u8]) -> (r: Option<&[u8]>) ensures match r { Some(t) => pfx(self.tv2(), p@) && t@ == self.tv2().skip(p@.len() as int), None => !pfx(self.tv2(), p@) };
}
impl TSlice2 for [u8] {
    open spec fn tv2(&self) -> Seq<u8> { self@ }
    fn t_first(&self) -> Option<&u8> { if self.len() > 0 { Some(&self[0]) } else { None } }
    fn t_last(&self) -> Option<&u8> { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
    fn t_split_at(&self, i: usize) -> (&[u8], &[u8]) { (&self[..i], &self[i..]) }
    fn t_split_first(&self) -> Option<(&u8, &[u8])> { if self.len() > 0 { Some((&self[0], &self[1..])) } else { None } }
    fn t_strip_prefix(&self, p: &[u8]) -> Option<&[u8]> { proof { pfx_idx(self@, p@); } if self.t_starts_with(p) { Some(&self[p.len()..]) } else { None } }
}
pub trait TInt: Sized { spec fn iv(&self) -> int; spec fn im() -> int;
    fn t_saturating_add(self, b: Self) -> (r: Self) ensures r.iv() == (if self.iv() + b.iv() > Self::im() { Self::im() } else { self.iv() + b.iv() });
    fn t_saturating_sub(self, b: Self) -> (r: Self) ensures r.iv() == (if self.iv() < b.iv() { 0 } else { self.iv() - b.iv() });
    fn t_checked_sub(self, b: Self) -> (r: Option<Self>) ensures match r { Some(x) => x.iv() == self.iv() - b.iv() && self.iv() >= b.iv(), None => self.iv() < b.iv() };
    fn t_min(self, b: Self) -> (r: Self) ensures r.iv() == (if self.iv() <= b.iv() { self.iv() } else { b.iv() });
    fn t_max(self, b: Self) -> (r: Self) ensures r.iv() == (if self.iv() <= b.iv() { b.iv() } else { self.iv() }); }
impl TInt for usize { open spec fn iv(&self) -> int { *self as int } open spec fn im() -> int { usize::MAX as int }
    fn t_saturating_add(self, b: usize) -> usize { self.saturating_add(b) }
    fn t_saturating_sub(self, b: usize) -> usize { self.saturating_sub(b) }
    fn t_checked_sub(self, b: usize) -> Option<usize> { self.checked_sub(b) }
    fn t_min(self, b: usize) -> usize { if self <= b { self } else { b } }
    fn t_max(self, b: usize) -> usize { if self <= b { b } else { self } } }
impl TInt for u8 { open spec fn iv(&self) -> int { *self as int } open spec fn im() -> int { 255 }
    fn t_saturating_add(self, b: u8) -> u8 { self.saturating_add(b) }
    fn t_saturating_sub(self, b: u8) -> u8 { self.saturating_sub(b) }
    fn t_checked_sub(self, b: u8) -> Option<u8> { self.checked_sub(b) }
    fn t_min(self, b: u8) -> u8 { if self <= b { self } else { b } }
    fn t_max(self, b: u8) -> u8 { if self <= b { b } else { self } } }
pub fn t_bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
pub fn t_nil<'a>() -> (r: &'a [u8]) ensures r@ == Seq::<u8>::empty() { let r: &'a [u8] = &[]; proof { assert(r@ =~= Seq::<u8>::empty()); } r }
pub fn t_panic() -> ! requires false { panic!() }
#[verifier::external_body] pub fn t_from_utf8_unchecked<'a>(b: &'a [u8]) -> (r: &'a str) requires valid_utf8(b@) ensures encode_utf8(r@) == b@, addr_s(r) == addr_b(b) { unsafe { std::str::from_utf8_unchecked(b) } }
pub struct TUtf8Error;
#[verifier::external_body] pub fn t_str_from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, TUtf8Error>) ensures match r { Ok(s) => valid_utf8(b@) && encode_utf8(s@) == b@, Err(_) => !valid_utf8(b@) } { std::str::from_utf8(b).map_err(|_| TUtf8Error) }
pub fn t_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

// ---- ASCII letters ----
pub open spec fn lower8(b: u8) -> u8 { if 65 <= b && b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn upper8(b: u8) -> u8 { if 97 <= b && b <= 122 { (b - 32) as u8 } else { b } }
pub open spec fn lower_s(s: S) -> S { s.map_values(|b: u8| lower8(b)) }
pub trait TU8 {
    fn t_is_ascii_lowercase(&self) -> (r: bool) ensures r == self.is_low();
    fn t_is_ascii_uppercase(&self) -> (r: bool) ensures r == self.is_up();
    fn t_is_ascii_digit(&self) -> (r: bool) ensures r == (48 <= self.b8() && self.b8() <= 57);
    fn t_is_ascii(&self) -> (r: bool) ensures r == (self.b8() < 128);
    fn t_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (self.is_low() || self.is_up());
    fn t_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (self.is_low() || self.is_up() || (48 <= self.b8() && self.b8() <= 57));
    fn t_is_ascii_graphic(&self) -> (r: bool) ensures r == (33 <= self.b8() && self.b8() <= 126);
    fn t_eq_ignore_ascii_case(&self, o: &u8) -> (r: bool) ensures r == (lower8(self.b8()) == lower8(*o));
    spec fn b8(&self) -> u8; spec fn is_low(&self) -> bool; spec fn is_up(&self) -> bool;
}
impl TU8 for u8 {
    open spec fn is_low(&self) -> bool { 97 <= *self && *self <= 122 }
    open spec fn is_up(&self) -> bool { 65 <= *self && *self <= 90 }
    fn t_is_ascii_lowercase(&self) -> bool { 97 <= *self && *self <= 122 }
    fn t_is_ascii_uppercase(&self) -> bool { 65 <= *self && *self <= 90 }
    open spec fn b8(&self) -> u8 { *self }
    fn t_is_ascii_digit(&self) -> bool { 48 <= *self && *self <= 57 }
    fn t_is_ascii(&self) -> bool { *self < 128 }
    fn t_is_ascii_alphabetic(&self) -> bool { (97 <= *self && *self <= 122) || (65 <= *self && *self <= 90) }
    fn t_is_ascii_alphanumeric(&self) -> bool { (97 <= *self && *self <= 122) || (65 <= *self && *self <= 90) || (48 <= *self && *self <= 57) }
    fn t_is_ascii_graphic(&self) -> bool { 33 <= *self && *self <= 126 }
    fn t_eq_ignore_ascii_case(&self, o: &u8) -> bool { (if 65 <= *self && *self <= 90 { *self + 32 } else { *self }) == (if 65 <= *o && *o <= 90 { *o + 32 } else { *o }) }
}
pub trait TEqCase { fn t_eq_ignore_ascii_case(&self, o: &[u8]) -> (r: bool) ensures r == (lower_s(self.ec()) =~= lower_s(o@)); spec fn ec(&self) -> S; }
impl TEqCase for [u8] {
    open spec fn ec(&self) -> S { self@ }
    fn t_eq_ignore_ascii_case(&self, o: &[u8]) -> (r: bool) {
        if self.len() != o.len() { assert(lower_s(self@).len() != lower_s(o@).len()); return false; }
        let mut i: usize = 0;
        while i < self.len()
            invariant self.len() == o.len(), i <= self.len(), forall|j: int| 0 <= j < i ==> lower8(#[trigger] self@[j]) == lower8(o@[j])
            decreases self.len() - i
        {
            if !self[i].t_eq_ignore_ascii_case(&o[i]) {
                assert(lower_s(self@)[i as int] != lower_s(o@)[i as int]);
                return false;
            }
            i += 1;
        }
        assert(lower_s(self@) =~= lower_s(o@));
        true
    }
}
// the case conversions of std: bytes to byte, slices to vectors, strings to strings
pub trait TCase { type L; spec fn low(&self, l: Self::L) -> bool; spec fn upp(&self, l: Self::L) -> bool;
    fn t_to_ascii_lowercase(&self) -> (r: Self::L) ensures self.low(r);
    fn t_to_ascii_uppercase(&self) -> (r: Self::L) ensures self.upp(r); }
impl TCase for u8 { type L = u8;
    open spec fn low(&self, l: u8) -> bool { l == lower8(*self) }
    open spec fn upp(&self, l: u8) -> bool { l == upper8(*self) }
    fn t_to_ascii_lowercase(&self) -> u8 { if 65 <= *self && *self <= 90 { *self + 32 } else { *self } }
    fn t_to_ascii_uppercase(&self) -> u8 { if 97 <= *self && *self <= 122 { *self - 32 } else { *self } } }
impl TCase for [u8] { type L = Vec<u8>;
    open spec fn low(&self, l: Vec<u8>) -> bool { l@ == lower_s(self@) }
    open spec fn upp(&self, l: Vec<u8>) -> bool { l@ == self@.map_values(|b: u8| upper8(b)) }
    #[verifier::external_body] fn t_to_ascii_lowercase(&self) -> Vec<u8> { self.to_ascii_lowercase() }
    #[verifier::external_body] fn t_to_ascii_uppercase(&self) -> Vec<u8> { self.to_ascii_uppercase() } }
impl TCase for str { type L = String;
    open spec fn low(&self, l: String) -> bool { encode_utf8(l@) == lower_s(encode_utf8(self@)) }
    open spec fn upp(&self, l: String) -> bool { encode_utf8(l@) == encode_utf8(self@).map_values(|b: u8| upper8(b)) }
    #[verifier::external_body] fn t_to_ascii_lowercase(&self) -> String { self.to_ascii_lowercase() }
    #[verifier::external_body] fn t_to_ascii_uppercase(&self) -> String { self.to_ascii_uppercase() } }
impl<'a> TCase for Cow<'a, str> { type L = String;
    open spec fn low(&self, l: String) -> bool { encode_utf8(l@) == lower_s(self.sv()) }
    open spec fn upp(&self, l: String) -> bool { encode_utf8(l@) == self.sv().map_values(|b: u8| upper8(b)) }
    #[verifier::external_body] fn t_to_ascii_lowercase(&self) -> String { self.to_ascii_lowercase() }
    #[verifier::external_body] fn t_to_ascii_uppercase(&self) -> String { self.to_ascii_uppercase() } }
pub trait TAsSlice<T> { fn t_as_slice(&self) -> (r: &[T]) ensures r@ == self.asl(); spec fn asl(&self) -> Seq<T>; }
impl<T> TAsSlice<T> for Vec<T> { open spec fn asl(&self) -> Seq<T> { self@ } fn t_as_slice(&self) -> &[T] { self.as_slice() } }
pub trait TBytes { spec fn bv(&self) -> Seq<u8>; }
impl TBytes for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl TBytes for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<'a> TBytes for Cow<'a, [u8]> { open spec fn bv(&self) -> Seq<u8> { self.sv() } }
impl<const N: usize> TBytes for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<'b, T: TBytes + ?Sized> TBytes for &'b T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }
#[verifier::external_body] pub fn t_bytes<'a, B: TBytes + ?Sized>(b: &'a B) -> (r: &'a [u8]) ensures r@ == b.bv() { unimplemented!() }

// ---- dereference of a Cow ----
pub uninterp spec fn cow_d<B: ?Sized + ToOwned>(c: Cow<'_, B>, r: &B) -> bool;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned>[ <Cow<'a, B> as core::ops::Deref>::deref ](c: &'b Cow<'a, B>) -> (r: &'b B) ensures cow_d(*c, r);
pub broadcast axiom fn cow_d_str(c: Cow<'_, str>, r: &str) requires #[trigger] cow_d(c, r) ensures encode_utf8(r@) == c.sv();
pub broadcast axiom fn cow_d_bytes(c: Cow<'_, [u8]>, r: &[u8]) requires #[trigger] cow_d(c, r) ensures r@ == c.sv();

// ---- strings: memory model of the zero-copy join ----
// Addresses and "these bytes are readable as one slice" are uninterpreted; the only fact assumed about
// them is that two borrowed strings that are adjacent in memory can be read as one (adjacent_axiom).
#[verifier::external_body] pub struct TPtr { p: *const u8 }
pub uninterp spec fn addr_s(s: &str) -> int;
pub uninterp spec fn addr_b(s: &[u8]) -> int;
pub uninterp spec fn paddr(p: TPtr) -> int;
pub uninterp spec fn readable(a: int, n: int) -> Option<Seq<u8>>;
pub trait TAsPtr { fn t_as_ptr(&self) -> (r: TPtr) ensures paddr(r) == self.addr(); spec fn addr(&self) -> int; }
impl TAsPtr for str { open spec fn addr(&self) -> int { addr_s(self) } #[verifier::external_body] fn t_as_ptr(&self) -> TPtr { TPtr { p: self.as_ptr() } } }
impl TPtr { #[verifier::external_body] pub fn t_add(self, n: usize) -> (r: TPtr) ensures paddr(r) == paddr(self) + n { TPtr { p: unsafe { self.p.add(n) } } } }
#[verifier::external_body] pub fn t_ptr_eq(a: TPtr, b: TPtr) -> (r: bool) ensures r == (paddr(a) == paddr(b)) { a.p == b.p }
#[verifier::external_body] pub fn t_from_raw_parts<'a>(p: TPtr, n: usize) -> (r: &'a [u8]) requires readable(paddr(p), n as int) is Some ensures readable(paddr(p), n as int) == Some(r@), addr_b(r) == paddr(p) { unsafe { std::slice::from_raw_parts(p.p, n) } }
#[verifier::external_body] pub broadcast proof fn readable_axiom(s: &str) ensures #[trigger] readable(addr_s(s), encode_utf8(s@).len() as int) == Some(encode_utf8(s@)) {}
#[verifier::external_body] pub broadcast proof fn adjacent_axiom(a: &str, b: &str)
    requires addr_s(a) + encode_utf8(a@).len() == addr_s(b), encode_utf8(a@).len() > 0, encode_utf8(b@).len() > 0
    ensures #![trigger addr_s(a), addr_s(b)] readable(addr_s(a), (encode_utf8(a@).len() + encode_utf8(b@).len()) as int) == Some(encode_utf8(a@) + encode_utf8(b@)),
        encode_utf8(a@).len() + encode_utf8(b@).len() <= usize::MAX {}
pub broadcast proof fn concat_valid(a: Seq<char>, b: Seq<char>) ensures #[trigger] (encode_utf8(a) + encode_utf8(b)) == encode_utf8(a + b), valid_utf8(encode_utf8(a) + encode_utf8(b)) { encode_utf8_concat(a, b); encode_utf8_valid_utf8(a + b); }

pub trait TStr { spec fn ts(&self) -> Seq<char>;
    fn t_as_str(&self) -> (r: &str) ensures r@ == self.ts();
    fn t_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl TStr for str { open spec fn ts(&self) -> Seq<char> { self@ } fn t_as_str(&self) -> &str { self }
    fn t_to_string(&self) -> String { self.to_string() } }
impl TStr for String { open spec fn ts(&self) -> Seq<char> { self@ } fn t_as_str(&self) -> &str { self.as_str() }
    #[verifier::external_body] fn t_to_string(&self) -> String { self.to_string() } }
impl<'a> TStr for Cow<'a, str> { open spec fn ts(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    fn t_as_str(&self) -> &str { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
    #[verifier::external_body] fn t_to_string(&self) -> String { self.to_string() } }
#[verifier::external_body] pub fn t_str_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
pub trait TExt { spec fn xv(&self) -> Seq<u8>; fn t_extend_from_slice(&mut self, s: &[u8]) ensures final(self).xv() == old(self).xv() + s@; }
impl TExt for Vec<u8> { open spec fn xv(&self) -> Seq<u8> { self@ } fn t_extend_from_slice(&mut self, s: &[u8]) { self.extend_from_slice(s) } }
pub trait TPushStr { fn t_push_str(&mut self, s: &str) ensures final(self).psv() == old(self).psv() + s@; spec fn psv(&self) -> Seq<char>; }
impl TPushStr for String { open spec fn psv(&self) -> Seq<char> { self@ } fn t_push_str(&mut self, s: &str) { self.push_str(s) } }

// ---- characters ----
pub struct TChars { pub ghost s: Seq<char>, pub x: u8 }
pub trait TCharsOf { fn t_chars(&self) -> (r: TChars) ensures r.s == self.cs(); spec fn cs(&self) -> Seq<char>; }
impl<'a> TCharsOf for Cow<'a, str> { open spec fn cs(&self) -> Seq<char> { self.ts() } #[verifier::external_body] fn t_chars(&self) -> TChars { unimplemented!() } }
impl TCharsOf for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn t_chars(&self) -> TChars { unimplemented!() } }
impl TChars { #[verifier::external_body] pub fn t_next(&mut self) -> (r: Option<char>)
    ensures match r { Some(c) => old(self).s.len() > 0 && c == old(self).s[0] && final(self).s == old(self).s.skip(1), None => old(self).s.len() == 0 && final(self).s == old(self).s } { unimplemented!() } }
pub uninterp spec fn is_upper(c: char) -> bool;
pub trait TChar { fn t_is_uppercase(&self) -> (r: bool) ensures r == self.upp_c(); spec fn upp_c(&self) -> bool; }
impl TChar for char { open spec fn upp_c(&self) -> bool { is_upper(*self) } #[verifier::external_body] fn t_is_uppercase(&self) -> bool { self.is_uppercase() } }
// the ASCII capital letters are upper case
#[verifier::external_body] pub broadcast proof fn ascii_upper_axiom(c: char) requires 'A' <= c, c <= 'Z' ensures #[trigger] is_upper(c) {}

// ---- numbers ----
pub open spec fn decval(s: S) -> int decreases s.len() { if s.len() == 0 { 0 } else { decval(s.drop_last()) * 10 + (s.last() as int - 48) } }
pub open spec fn alld(s: S) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] && s[i] <= 57 }
pub struct TParseIntError;
pub trait TNum: Sized { spec fn nval(&self) -> int; spec fn nmax() -> int; }
impl TNum for usize { open spec fn nval(&self) -> int { *self as int } open spec fn nmax() -> int { 18446744073709551615 } }
impl TNum for u8 { open spec fn nval(&self) -> int { *self as int } open spec fn nmax() -> int { 255 } }
// FromStr for unsigned integers, on strings of digits
#[verifier::external_body] pub fn t_parse<T: TNum>(s: &str) -> (r: Result<T, TParseIntError>)
    ensures alld(encode_utf8(s@)) ==> match r { Ok(n) => n.nval() == decval(encode_utf8(s@)) && decval(encode_utf8(s@)) <= T::nmax(), Err(_) => decval(encode_utf8(s@)) > T::nmax() } { unimplemented!() }

// ---- vectors ----
pub trait TVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn t_insert(&mut self, i: usize, x: T) requires i <= old(self).vv().len() ensures final(self).vv() == old(self).vv().insert(i as int, x);
    fn t_remove(&mut self, i: usize) -> (r: T) requires i < old(self).vv().len() ensures r == old(self).vv()[i as int], final(self).vv() == old(self).vv().remove(i as int), i == 0 ==> final(self).vv() == old(self).vv().skip(1);
    fn t_drain(&mut self, i: usize, j: usize) requires i <= j <= old(self).vv().len() ensures final(self).vv() == old(self).vv().take(i as int) + old(self).vv().skip(j as int);
    fn t_set_unchecked(&mut self, i: usize, x: T) requires i < old(self).vv().len() ensures final(self).vv() == old(self).vv().update(i as int, x);
}
impl<T> TVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn t_insert(&mut self, i: usize, x: T) { self.insert(i, x) }
    fn t_remove(&mut self, i: usize) -> T { self.remove(i) }
    #[verifier::external_body] fn t_drain(&mut self, i: usize, j: usize) { self.drain(i..j); }
    fn t_set_unchecked(&mut self, i: usize, x: T) { self[i] = x; }
}
pub struct TIter<T> { pub ghost s: Seq<T>, pub v: Vec<T> }
pub trait TIntoIter<T> { fn t_into_iter(self) -> (r: TIter<T>) where Self: Sized ensures r.s == self.isq(); spec fn isq(&self) -> Seq<T>; }
impl<T> TIntoIter<T> for Vec<T> { open spec fn isq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn t_into_iter(self) -> TIter<T> { unimplemented!() } }
impl<T> TIter<T> { pub fn t_into_iter(self) -> (r: TIter<T>) ensures r == self { self } }
impl<T> TIter<T> { #[verifier::external_body] pub fn t_next(&mut self) -> (r: Option<T>)
    ensures match r { Some(x) => old(self).s.len() > 0 && x == old(self).s[0] && final(self).s == old(self).s.skip(1), None => old(self).s.len() == 0 && final(self).s == old(self).s } { unimplemented!() } }
impl<T> TIter<T> { #[verifier::external_body] pub fn t_skip(self, n: usize) -> (r: TIter<T>)
    ensures r.s == (if n <= self.s.len() { self.s.skip(n as int) } else { Seq::empty() }) { unimplemented!() } }
pub trait TClone: Sized { fn t_clone(&self) -> (r: Self) ensures cloned_of(*self, r); }
pub uninterp spec fn cloned_of<T>(a: T, b: T) -> bool;
impl<T> TClone for T { #[verifier::external_body] fn t_clone(&self) -> T { unimplemented!() } }
// derived clones are equal in value
#[verifier::external_body] pub broadcast proof fn clone_axiom<T: Sv>(a: T, b: T) requires #[trigger] cloned_of(a, b) ensures a.sv() == b.sv() {}

// ---- one class of bytes, scanned ----
#[verifier::external_body] pub fn vx_pred(c: Ghost<Cls>, b: u8) -> (r: bool) ensures r == cls(c@, b) { unimplemented!() }
pub proof fn run_bound(c: Cls, s: S) ensures 0 <= run(c, s) <= s.len(), forall|i: int| 0 <= i < run(c, s) ==> cls(c, s[i]), run(c, s) < s.len() ==> !cls(c, s[run(c, s)]) decreases s.len()
{ reveal(run); if s.len() > 0 && cls(c, s[0]) { run_bound(c, s.skip(1)); assert forall|i: int| 0 <= i < run(c, s) implies cls(c, s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
pub broadcast proof fn run_bound_b(c: Cls, s: S) ensures 0 <= #[trigger] run(c, s) <= s.len() { run_bound(c, s); }
pub proof fn run_is(c: Cls, s: S, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> cls(c, s[i]), n < s.len() ==> !cls(c, s[n]) ensures run(c, s) == n decreases s.len()
{ reveal(run); if n > 0 { assert forall|i: int| 0 <= i < n - 1 implies cls(c, s.skip(1)[i]) by {} run_is(c, s.skip(1), n - 1); } }
pub open spec fn opp_from(a: S, b: S, k: int) -> bool decreases a.len() - k { if k >= a.len() { true } else { b[k] == swap8(a[k]) && opp_from(a, b, k + 1) } }
pub open spec fn opp(a: S, b: S) -> bool { a.len() == b.len() && opp_from(a, b, 0) }
pub open spec fn swap8(b: u8) -> u8 { if 65 <= b && b <= 90 { (b + 32) as u8 } else if 97 <= b && b <= 122 { (b - 32) as u8 } else { b } }
pub proof fn ci_is(s: S, t: S) ensures ci(s, t) == (s.len() >= t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] lower(s[i]) == lower(t[i])) decreases t.len()
{
    reveal(ci); reveal(lower);
    if t.len() > 0 && s.len() > 0 { ci_is(s.skip(1), t.skip(1));
        if s.len() >= t.len() && lower(s[0]) == lower(t[0]) {
            if forall|i: int| 0 <= i < t.skip(1).len() ==> #[trigger] lower(s.skip(1)[i]) == lower(t.skip(1)[i]) {
                assert forall|i: int| 0 <= i < t.len() implies #[trigger] lower(s[i]) == lower(t[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); assert(t.skip(1)[i - 1] == t[i]); assert(lower(s.skip(1)[i - 1]) == lower(t.skip(1)[i - 1])); } }
            } else {
                let i = choose|i: int| 0 <= i < t.skip(1).len() && !(#[trigger] lower(s.skip(1)[i]) == lower(t.skip(1)[i]));
                assert(s.skip(1)[i] == s[i + 1]); assert(t.skip(1)[i] == t[i + 1]);
                assert(lower(s[i + 1]) != lower(t[i + 1]));
            }
        }
    }
}
pub proof fn ci_at(s: S, t: S, i: int) ensures (0 <= i < t.len() && s.len() >= t.len()) ==> {
        &&& ((s[i] == t[i] || s[i] == swap8(t[i])) ==> lower(s[i]) == lower(t[i]))
        &&& (!(s[i] == t[i] || s[i] == swap8(t[i])) ==> !ci(s, t)) }
{ reveal(lower); ci_is(s, t); if 0 <= i < t.len() && s.len() >= t.len() && !(s[i] == t[i] || s[i] == swap8(t[i])) { assert(lower(s[i]) != lower(t[i])); } }
pub broadcast proof fn ci_len(s: S, t: S) requires #[trigger] ci(s, t) ensures s.len() >= t.len() { ci_is(s, t); }
pub broadcast proof fn pfx_1(s: S, t: S) requires t.len() == 1 ensures #[trigger] pfx(s, t) == (s.len() >= 1 && s[0] == t[0])
{ if s.len() >= 1 { assert(s.take(1)[0] == s[0]); if s[0] == t[0] { assert(s.take(1) =~= t); } } }
pub broadcast group gx { cow_d_str, cow_d_bytes, gseq, str_valid, run_bound_b, ci_len, pfx_1 }
