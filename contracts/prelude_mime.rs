// ---------------------------------------------------------------------------------------------
// Views of standard types and trusted contracts of standard functions used by the MIME modules.
// ---------------------------------------------------------------------------------------------
impl<T: Sv, U: Sv, W: Sv, X: Sv> Sv for (T, U, W, X) { type V = (T::V, U::V, W::V, X::V); open spec fn sv(&self) -> (T::V, U::V, W::V, X::V) { (self.0.sv(), self.1.sv(), self.2.sv(), self.3.sv()) } }

// no vector of bytes is longer than 2^60 (more than any machine can address)
#[verifier::external_body] pub broadcast proof fn vec_space(v: Vec<u8>) ensures #[trigger] v@.len() <= 0x1000_0000_0000_0000 {}

// ---- maps: std::collections::HashMap, seen as a mathematical map from the values of the keys ----
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { m: std::collections::HashMap<K, V> }
pub trait TQ { type V; spec fn qv(&self) -> Self::V; }
impl TQ for str { type V = Seq<u8>; open spec fn qv(&self) -> Seq<u8> { encode_utf8(self@) } }
impl<'a> TQ for Cow<'a, str> { type V = Seq<u8>; open spec fn qv(&self) -> Seq<u8> { self.sv() } }
impl TQ for u8 { type V = int; open spec fn qv(&self) -> int { *self as int } }
impl<K: Sv, V> HMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::V, V>;
    #[verifier::external_body] pub fn t_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.sv(), v) { unimplemented!() }
    #[verifier::external_body] pub fn t_contains_key<Q: TQ<V = K::V> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self.m().contains_key(q.qv()) { unimplemented!() }
    #[verifier::external_body] pub fn t_get<Q: TQ<V = K::V> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(x) => self.m().contains_key(q.qv()) && *x == self.m()[q.qv()], None => !self.m().contains_key(q.qv()) } { unimplemented!() }
    #[verifier::external_body] pub fn t_get_mut<Q: TQ<V = K::V> + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>)
        ensures match r { Some(x) => old(self).m().contains_key(q.qv()) && *x == old(self).m()[q.qv()] && final(self).m() == old(self).m().insert(q.qv(), *final(x)),
            None => !old(self).m().contains_key(q.qv()) && final(self).m() == old(self).m() } { unimplemented!() }
    #[verifier::external_body] pub fn t_remove<Q: TQ<V = K::V> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(q.qv()), match r { Some(x) => old(self).m().contains_key(q.qv()) && x == old(self).m()[q.qv()], None => !old(self).m().contains_key(q.qv()) } { unimplemented!() }
}
pub open spec fn entries_of<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i].0) && m[s[i].0] == s[i].1) && (forall|k: K| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k)
}
// every entry once, in any order
impl<K: Sv, V: Sv> HMap<K, V> { #[verifier::external_body] pub fn t_iter_all<'b>(&'b mut self) -> (r: TIterMut<'b, K, V>) ensures entries_of(vs(r.s), old(self).sv()) { unimplemented!() } }
pub fn t_hmap_new<K: Sv, V>() -> (r: HMap<K, V>) ensures r.m() == Map::<K::V, V>::empty() { hmap_new() }
#[verifier::external_body] pub fn hmap_new<K: Sv, V>() -> (r: HMap<K, V>) ensures r.m() == Map::<K::V, V>::empty() { unimplemented!() }
impl<K: Sv, V: Sv> Sv for HMap<K, V> { type V = Map<K::V, V::V>; open spec fn sv(&self) -> Map<K::V, V::V> { ms(self.m()) } }
pub open spec fn ms<K, V: Sv>(m: Map<K, V>) -> Map<K, V::V> { m.map_values(|v: V| v.sv()) }
pub broadcast proof fn ms_insert<K, V: Sv>(m: Map<K, V>, k: K, v: V) ensures #[trigger] ms(m.insert(k, v)) == ms(m).insert(k, v.sv()) { assert(ms(m.insert(k, v)) =~= ms(m).insert(k, v.sv())); }
pub proof fn ms_empty<K, V: Sv>() ensures ms(Map::<K, V>::empty()) == Map::<K, V::V>::empty() { assert(ms(Map::<K, V>::empty()) =~= Map::<K, V::V>::empty()); }
pub struct TIterMut<'a, K, V> { pub ghost s: Seq<(K, V)>, pub p: std::marker::PhantomData<&'a mut (K, V)> }
impl<'a, K, V> TIterMut<'a, K, V> {
    #[verifier::external_body] pub fn t_next(&mut self) -> (r: Option<(&'a K, &'a mut V)>)
        ensures match r { Some((k, v)) => old(self).s.len() > 0 && *k == old(self).s[0].0 && *v == old(self).s[0].1 && final(self).s == old(self).s.skip(1), None => old(self).s.len() == 0 && final(self).s == old(self).s } { unimplemented!() }
}
// the entries put one after the other
pub open spec fn l_put<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> Map<K, V> decreases s.len() { if s.len() == 0 { m } else { l_put(s.skip(1), m.insert(s[0].0, s[0].1)) } }
impl<K: Sv, V: Sv> HMap<K, V> { #[verifier::external_body] pub fn t_into_iter(self) -> (r: TIter<(K, V)>) ensures l_put(vs(r.s), Map::empty()) == self.sv() { unimplemented!() } }
#[verifier::external_body] pub fn t_collect<K: Sv, V: Sv>(v: Vec<(K, V)>) -> (r: HMap<K, V>)
    ensures r.sv() == l_put(vs(v@), Map::empty()), v@.len() == 1 ==> r.sv() == Map::<K::V, V::V>::empty().insert(v@[0].0.sv(), v@[0].1.sv()) { unimplemented!() }
pub trait TCollectTo: Sized { type X; spec fn cempty(&self) -> bool; spec fn cput(&self, x: Self::X, o: Self) -> bool;
    fn cnew() -> (r: Self) ensures r.cempty();
    fn cpt(&mut self, x: Self::X) ensures old(self).cput(x, *final(self)); }
impl<K: Sv, V: Sv> TCollectTo for HMap<K, V> { type X = (K, V);
    open spec fn cempty(&self) -> bool { self.sv() == Map::<K::V, V::V>::empty() }
    open spec fn cput(&self, x: (K, V), o: Self) -> bool { o.sv() == self.sv().insert(x.0.sv(), x.1.sv()) }
    fn cnew() -> Self { let r: HMap<K, V> = t_hmap_new(); proof { ms_empty::<K::V, V>(); } r }
    fn cpt(&mut self, x: (K, V)) { proof { ms_insert(self.m(), x.0.sv(), x.1); } self.t_insert(x.0, x.1); } }
impl<T: Sv> TCollectTo for Vec<T> { type X = T;
    open spec fn cempty(&self) -> bool { vs(self@) == Seq::<T::V>::empty() }
    open spec fn cput(&self, x: T, o: Self) -> bool { vs(o@) == vs(self@).push(x.sv()) }
    fn cnew() -> Self { let r: Vec<T> = Vec::new(); proof { map_empty(r@); } r }
    fn cpt(&mut self, x: T) { proof { map_push(self@, x); } self.push(x); } }
pub fn t_collect_new<C: TCollectTo>() -> (r: C) ensures r.cempty() { C::cnew() }
pub fn t_put<C: TCollectTo>(c: &mut C, x: C::X) ensures old(c).cput(x, *final(c)) { c.cpt(x) }

pub trait TIterBy<T> { spec fn ib(&self) -> Seq<T>; fn t_iter(&self) -> (r: TIter<T>) ensures r.s == self.ib(); }
impl TIterBy<u8> for Vec<u8> { open spec fn ib(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn t_iter(&self) -> TIter<u8> { unimplemented!() } }
impl TIterBy<u8> for [u8] { open spec fn ib(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn t_iter(&self) -> TIter<u8> { unimplemented!() } }
pub trait TToVec { spec fn tovec(&self) -> Seq<u8>; fn t_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tovec(); }
impl TToVec for [u8] { open spec fn tovec(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn t_to_vec(&self) -> Vec<u8> { self.to_vec() } }
impl TToVec for Vec<u8> { open spec fn tovec(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn t_to_vec(&self) -> Vec<u8> { self.to_vec() } }

// ---- strings ----
pub trait TIntoOwned { type O; spec fn same(&self, o: Self::O) -> bool; fn t_into_owned(self) -> (r: Self::O) where Self: Sized ensures self.same(r); }
impl<'a> TIntoOwned for Cow<'a, str> { type O = String; open spec fn same(&self, o: String) -> bool { o.sv() == self.sv() } #[verifier::external_body] fn t_into_owned(self) -> String { self.into_owned() } }
impl<'a> TIntoOwned for Cow<'a, [u8]> { type O = Vec<u8>; open spec fn same(&self, o: Vec<u8>) -> bool { o@ == self.sv() } #[verifier::external_body] fn t_into_owned(self) -> Vec<u8> { self.into_owned() } }
pub trait TToOwned { type O; spec fn owned(&self, o: Self::O) -> bool; fn t_to_owned(&self) -> (r: Self::O) ensures self.owned(r); }
impl TToOwned for str { type O = String; open spec fn owned(&self, o: String) -> bool { o@ == self@ } fn t_to_owned(&self) -> String { self.to_owned() } }
impl TToOwned for [u8] { type O = Vec<u8>; open spec fn owned(&self, o: Vec<u8>) -> bool { o@ == self@ } #[verifier::external_body] fn t_to_owned(&self) -> Vec<u8> { self.to_owned() } }
pub trait TAsRef { type R: ?Sized; spec fn isr(&self, r: &Self::R) -> bool; fn t_as_ref(&self) -> (r: &Self::R) ensures self.isr(r); }
impl<'a> TAsRef for Cow<'a, str> { type R = str; open spec fn isr(&self, r: &str) -> bool { encode_utf8(r@) == self.sv() } #[verifier::external_body] fn t_as_ref(&self) -> &str { self.as_ref() } }
impl<'a> TAsRef for Cow<'a, [u8]> { type R = [u8]; open spec fn isr(&self, r: &[u8]) -> bool { r@ == self.sv() } #[verifier::external_body] fn t_as_ref(&self) -> &[u8] { self.as_ref() } }
pub trait TAsBytes { spec fn abs(&self) -> Seq<u8>; fn t_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.abs(), valid_utf8(r@); }
impl TAsBytes for str { open spec fn abs(&self) -> Seq<u8> { encode_utf8(self@) } fn t_as_bytes(&self) -> &[u8] { proof { encode_utf8_valid_utf8(self@); } self.as_bytes() } }
impl TAsBytes for String { open spec fn abs(&self) -> Seq<u8> { encode_utf8(self@) } #[verifier::external_body] fn t_as_bytes(&self) -> &[u8] { self.as_bytes() } }
impl<'a> TAsBytes for Cow<'a, str> { open spec fn abs(&self) -> Seq<u8> { self.sv() } #[verifier::external_body] fn t_as_bytes(&self) -> &[u8] { self.as_bytes() } }
pub trait TIntoBytes { spec fn ibs(&self) -> Seq<u8>; fn t_into_bytes(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == self.ibs(), valid_utf8(r@); }
impl TIntoBytes for String { open spec fn ibs(&self) -> Seq<u8> { encode_utf8(self@) } #[verifier::external_body] fn t_into_bytes(self) -> Vec<u8> { self.into_bytes() } }
pub fn t_streq(a: &str, b: &str) -> (r: bool) ensures r == (encode_utf8(a@) == encode_utf8(b@)) { proof { encode_utf8_decode_utf8(a@); encode_utf8_decode_utf8(b@); } a == b }
#[verifier::external_body] pub fn t_string_from_utf8(v: Vec<u8>) -> (r: Result<String, TUtf8Error>) ensures match r { Ok(s) => valid_utf8(v@) && encode_utf8(s@) == v@, Err(_) => !valid_utf8(v@) } { String::from_utf8(v).map_err(|_| TUtf8Error) }
#[verifier::external_body] pub fn t_string_from_utf8_unchecked(v: Vec<u8>) -> (r: String) requires valid_utf8(v@) ensures encode_utf8(r@) == v@ { unsafe { String::from_utf8_unchecked(v) } }
pub trait TLowercase { spec fn lcs(&self) -> Seq<u8>; fn t_to_lowercase(&self) -> (r: String) ensures encode_utf8(r@) == ulower(self.lcs()); }
impl<'a> TLowercase for Cow<'a, str> { open spec fn lcs(&self) -> Seq<u8> { self.sv() } #[verifier::external_body] fn t_to_lowercase(&self) -> String { self.to_lowercase() } }
impl TLowercase for str { open spec fn lcs(&self) -> Seq<u8> { encode_utf8(self@) } #[verifier::external_body] fn t_to_lowercase(&self) -> String { self.to_lowercase() } }

// ---- textcode ----
#[verifier::external_body] pub fn t_tc_iso8859_1<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885901, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_2<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885902, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_3<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885903, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_4<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885904, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_5<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885905, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_6<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885906, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_7<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885907, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_8<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885908, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_9<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885909, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_10<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885910, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_11<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885911, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_13<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885913, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_14<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885914, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_15<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885915, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_iso8859_16<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(885916, b.bv()) { unimplemented!() }
// textcode's decoder of ISO 6937 indexes a table with the byte: bytes without an assignment are outside of it
#[verifier::external_body] pub fn t_tc_iso6937<B: TBytes + ?Sized>(b: &B) -> (r: String) requires forall|i: int| 0 <= i < b.bv().len() ==> !(128 <= #[trigger] b.bv()[i] && b.bv()[i] <= 159) ensures encode_utf8(r@) == tc(6937, b.bv()) { unimplemented!() }
#[verifier::external_body] pub fn t_tc_gb2312<B: TBytes + ?Sized>(b: &B) -> (r: String) ensures encode_utf8(r@) == tc(2312, b.bv()) { unimplemented!() }

// ---- numbers ----
pub trait TChecked: Sized { spec fn cm(a: Self, b: Self, r: Option<Self>) -> bool; spec fn ca(a: Self, b: Self, r: Option<Self>) -> bool;
    fn t_checked_mul(self, b: Self) -> (r: Option<Self>) ensures Self::cm(self, b, r);
    fn t_checked_add(self, b: Self) -> (r: Option<Self>) ensures Self::ca(self, b, r); }
impl TChecked for u8 {
    open spec fn cm(a: u8, b: u8, r: Option<u8>) -> bool { match r { Some(x) => x == a * b, None => a * b > 255 } }
    open spec fn ca(a: u8, b: u8, r: Option<u8>) -> bool { match r { Some(x) => x == a + b, None => a + b > 255 } }
    fn t_checked_mul(self, b: u8) -> Option<u8> { self.checked_mul(b) }
    fn t_checked_add(self, b: u8) -> Option<u8> { self.checked_add(b) } }
impl TChecked for usize {
    open spec fn cm(a: usize, b: usize, r: Option<usize>) -> bool { match r { Some(x) => x == a * b, None => a * b > usize::MAX } }
    open spec fn ca(a: usize, b: usize, r: Option<usize>) -> bool { match r { Some(x) => x == a + b, None => a + b > usize::MAX } }
    fn t_checked_mul(self, b: usize) -> Option<usize> { self.checked_mul(b) }
    fn t_checked_add(self, b: usize) -> Option<usize> { self.checked_add(b) } }

// ---- bits ----
pub broadcast proof fn mask_1(x: u8) ensures #![trigger (x & 1u8)] (x & 1u8) == ((x as int / 1) % 2) * 1 && (1u8 & x) == (x & 1u8) { assert((x & 1u8) == ((x / 1u8) % 2u8) * 1u8 && (1u8 & x) == (x & 1u8)) by (bit_vector); }
pub broadcast proof fn mask_1r(x: u8) ensures #![trigger (1u8 & x)] (1u8 & x) == (x & 1u8) { assert((1u8 & x) == (x & 1u8)) by (bit_vector); }
pub broadcast proof fn mask_3(x: u8) ensures #![trigger (x & 3u8)] (x & 3u8) == ((x as int / 1) % 4) * 1 && (3u8 & x) == (x & 3u8) { assert((x & 3u8) == ((x / 1u8) % 4u8) * 1u8 && (3u8 & x) == (x & 3u8)) by (bit_vector); }
pub broadcast proof fn mask_3r(x: u8) ensures #![trigger (3u8 & x)] (3u8 & x) == (x & 3u8) { assert((3u8 & x) == (x & 3u8)) by (bit_vector); }
pub broadcast proof fn mask_7(x: u8) ensures #![trigger (x & 7u8)] (x & 7u8) == ((x as int / 1) % 8) * 1 && (7u8 & x) == (x & 7u8) { assert((x & 7u8) == ((x / 1u8) % 8u8) * 1u8 && (7u8 & x) == (x & 7u8)) by (bit_vector); }
pub broadcast proof fn mask_7r(x: u8) ensures #![trigger (7u8 & x)] (7u8 & x) == (x & 7u8) { assert((7u8 & x) == (x & 7u8)) by (bit_vector); }
pub broadcast proof fn mask_15(x: u8) ensures #![trigger (x & 15u8)] (x & 15u8) == ((x as int / 1) % 16) * 1 && (15u8 & x) == (x & 15u8) { assert((x & 15u8) == ((x / 1u8) % 16u8) * 1u8 && (15u8 & x) == (x & 15u8)) by (bit_vector); }
pub broadcast proof fn mask_15r(x: u8) ensures #![trigger (15u8 & x)] (15u8 & x) == (x & 15u8) { assert((15u8 & x) == (x & 15u8)) by (bit_vector); }
pub broadcast proof fn mask_31(x: u8) ensures #![trigger (x & 31u8)] (x & 31u8) == ((x as int / 1) % 32) * 1 && (31u8 & x) == (x & 31u8) { assert((x & 31u8) == ((x / 1u8) % 32u8) * 1u8 && (31u8 & x) == (x & 31u8)) by (bit_vector); }
pub broadcast proof fn mask_31r(x: u8) ensures #![trigger (31u8 & x)] (31u8 & x) == (x & 31u8) { assert((31u8 & x) == (x & 31u8)) by (bit_vector); }
pub broadcast proof fn mask_63(x: u8) ensures #![trigger (x & 63u8)] (x & 63u8) == ((x as int / 1) % 64) * 1 && (63u8 & x) == (x & 63u8) { assert((x & 63u8) == ((x / 1u8) % 64u8) * 1u8 && (63u8 & x) == (x & 63u8)) by (bit_vector); }
pub broadcast proof fn mask_63r(x: u8) ensures #![trigger (63u8 & x)] (63u8 & x) == (x & 63u8) { assert((63u8 & x) == (x & 63u8)) by (bit_vector); }
pub broadcast proof fn mask_127(x: u8) ensures #![trigger (x & 127u8)] (x & 127u8) == ((x as int / 1) % 128) * 1 && (127u8 & x) == (x & 127u8) { assert((x & 127u8) == ((x / 1u8) % 128u8) * 1u8 && (127u8 & x) == (x & 127u8)) by (bit_vector); }
pub broadcast proof fn mask_127r(x: u8) ensures #![trigger (127u8 & x)] (127u8 & x) == (x & 127u8) { assert((127u8 & x) == (x & 127u8)) by (bit_vector); }
pub broadcast proof fn mask_2(x: u8) ensures #![trigger (x & 2u8)] (x & 2u8) == ((x as int / 2) % 2) * 2 && (2u8 & x) == (x & 2u8) { assert((x & 2u8) == ((x / 2u8) % 2u8) * 2u8 && (2u8 & x) == (x & 2u8)) by (bit_vector); }
pub broadcast proof fn mask_2r(x: u8) ensures #![trigger (2u8 & x)] (2u8 & x) == (x & 2u8) { assert((2u8 & x) == (x & 2u8)) by (bit_vector); }
pub broadcast proof fn mask_6(x: u8) ensures #![trigger (x & 6u8)] (x & 6u8) == ((x as int / 2) % 4) * 2 && (6u8 & x) == (x & 6u8) { assert((x & 6u8) == ((x / 2u8) % 4u8) * 2u8 && (6u8 & x) == (x & 6u8)) by (bit_vector); }
pub broadcast proof fn mask_6r(x: u8) ensures #![trigger (6u8 & x)] (6u8 & x) == (x & 6u8) { assert((6u8 & x) == (x & 6u8)) by (bit_vector); }
pub broadcast proof fn mask_14(x: u8) ensures #![trigger (x & 14u8)] (x & 14u8) == ((x as int / 2) % 8) * 2 && (14u8 & x) == (x & 14u8) { assert((x & 14u8) == ((x / 2u8) % 8u8) * 2u8 && (14u8 & x) == (x & 14u8)) by (bit_vector); }
pub broadcast proof fn mask_14r(x: u8) ensures #![trigger (14u8 & x)] (14u8 & x) == (x & 14u8) { assert((14u8 & x) == (x & 14u8)) by (bit_vector); }
pub broadcast proof fn mask_30(x: u8) ensures #![trigger (x & 30u8)] (x & 30u8) == ((x as int / 2) % 16) * 2 && (30u8 & x) == (x & 30u8) { assert((x & 30u8) == ((x / 2u8) % 16u8) * 2u8 && (30u8 & x) == (x & 30u8)) by (bit_vector); }
pub broadcast proof fn mask_30r(x: u8) ensures #![trigger (30u8 & x)] (30u8 & x) == (x & 30u8) { assert((30u8 & x) == (x & 30u8)) by (bit_vector); }
pub broadcast proof fn mask_62(x: u8) ensures #![trigger (x & 62u8)] (x & 62u8) == ((x as int / 2) % 32) * 2 && (62u8 & x) == (x & 62u8) { assert((x & 62u8) == ((x / 2u8) % 32u8) * 2u8 && (62u8 & x) == (x & 62u8)) by (bit_vector); }
pub broadcast proof fn mask_62r(x: u8) ensures #![trigger (62u8 & x)] (62u8 & x) == (x & 62u8) { assert((62u8 & x) == (x & 62u8)) by (bit_vector); }
pub broadcast proof fn mask_126(x: u8) ensures #![trigger (x & 126u8)] (x & 126u8) == ((x as int / 2) % 64) * 2 && (126u8 & x) == (x & 126u8) { assert((x & 126u8) == ((x / 2u8) % 64u8) * 2u8 && (126u8 & x) == (x & 126u8)) by (bit_vector); }
pub broadcast proof fn mask_126r(x: u8) ensures #![trigger (126u8 & x)] (126u8 & x) == (x & 126u8) { assert((126u8 & x) == (x & 126u8)) by (bit_vector); }
pub broadcast proof fn mask_254(x: u8) ensures #![trigger (x & 254u8)] (x & 254u8) == ((x as int / 2) % 128) * 2 && (254u8 & x) == (x & 254u8) { assert((x & 254u8) == ((x / 2u8) % 128u8) * 2u8 && (254u8 & x) == (x & 254u8)) by (bit_vector); }
pub broadcast proof fn mask_254r(x: u8) ensures #![trigger (254u8 & x)] (254u8 & x) == (x & 254u8) { assert((254u8 & x) == (x & 254u8)) by (bit_vector); }
pub broadcast proof fn mask_4(x: u8) ensures #![trigger (x & 4u8)] (x & 4u8) == ((x as int / 4) % 2) * 4 && (4u8 & x) == (x & 4u8) { assert((x & 4u8) == ((x / 4u8) % 2u8) * 4u8 && (4u8 & x) == (x & 4u8)) by (bit_vector); }
pub broadcast proof fn mask_4r(x: u8) ensures #![trigger (4u8 & x)] (4u8 & x) == (x & 4u8) { assert((4u8 & x) == (x & 4u8)) by (bit_vector); }
pub broadcast proof fn mask_12(x: u8) ensures #![trigger (x & 12u8)] (x & 12u8) == ((x as int / 4) % 4) * 4 && (12u8 & x) == (x & 12u8) { assert((x & 12u8) == ((x / 4u8) % 4u8) * 4u8 && (12u8 & x) == (x & 12u8)) by (bit_vector); }
pub broadcast proof fn mask_12r(x: u8) ensures #![trigger (12u8 & x)] (12u8 & x) == (x & 12u8) { assert((12u8 & x) == (x & 12u8)) by (bit_vector); }
pub broadcast proof fn mask_28(x: u8) ensures #![trigger (x & 28u8)] (x & 28u8) == ((x as int / 4) % 8) * 4 && (28u8 & x) == (x & 28u8) { assert((x & 28u8) == ((x / 4u8) % 8u8) * 4u8 && (28u8 & x) == (x & 28u8)) by (bit_vector); }
pub broadcast proof fn mask_28r(x: u8) ensures #![trigger (28u8 & x)] (28u8 & x) == (x & 28u8) { assert((28u8 & x) == (x & 28u8)) by (bit_vector); }
pub broadcast proof fn mask_60(x: u8) ensures #![trigger (x & 60u8)] (x & 60u8) == ((x as int / 4) % 16) * 4 && (60u8 & x) == (x & 60u8) { assert((x & 60u8) == ((x / 4u8) % 16u8) * 4u8 && (60u8 & x) == (x & 60u8)) by (bit_vector); }
pub broadcast proof fn mask_60r(x: u8) ensures #![trigger (60u8 & x)] (60u8 & x) == (x & 60u8) { assert((60u8 & x) == (x & 60u8)) by (bit_vector); }
pub broadcast proof fn mask_124(x: u8) ensures #![trigger (x & 124u8)] (x & 124u8) == ((x as int / 4) % 32) * 4 && (124u8 & x) == (x & 124u8) { assert((x & 124u8) == ((x / 4u8) % 32u8) * 4u8 && (124u8 & x) == (x & 124u8)) by (bit_vector); }
pub broadcast proof fn mask_124r(x: u8) ensures #![trigger (124u8 & x)] (124u8 & x) == (x & 124u8) { assert((124u8 & x) == (x & 124u8)) by (bit_vector); }
pub broadcast proof fn mask_252(x: u8) ensures #![trigger (x & 252u8)] (x & 252u8) == ((x as int / 4) % 64) * 4 && (252u8 & x) == (x & 252u8) { assert((x & 252u8) == ((x / 4u8) % 64u8) * 4u8 && (252u8 & x) == (x & 252u8)) by (bit_vector); }
pub broadcast proof fn mask_252r(x: u8) ensures #![trigger (252u8 & x)] (252u8 & x) == (x & 252u8) { assert((252u8 & x) == (x & 252u8)) by (bit_vector); }
pub broadcast proof fn mask_8(x: u8) ensures #![trigger (x & 8u8)] (x & 8u8) == ((x as int / 8) % 2) * 8 && (8u8 & x) == (x & 8u8) { assert((x & 8u8) == ((x / 8u8) % 2u8) * 8u8 && (8u8 & x) == (x & 8u8)) by (bit_vector); }
pub broadcast proof fn mask_8r(x: u8) ensures #![trigger (8u8 & x)] (8u8 & x) == (x & 8u8) { assert((8u8 & x) == (x & 8u8)) by (bit_vector); }
pub broadcast proof fn mask_24(x: u8) ensures #![trigger (x & 24u8)] (x & 24u8) == ((x as int / 8) % 4) * 8 && (24u8 & x) == (x & 24u8) { assert((x & 24u8) == ((x / 8u8) % 4u8) * 8u8 && (24u8 & x) == (x & 24u8)) by (bit_vector); }
pub broadcast proof fn mask_24r(x: u8) ensures #![trigger (24u8 & x)] (24u8 & x) == (x & 24u8) { assert((24u8 & x) == (x & 24u8)) by (bit_vector); }
pub broadcast proof fn mask_56(x: u8) ensures #![trigger (x & 56u8)] (x & 56u8) == ((x as int / 8) % 8) * 8 && (56u8 & x) == (x & 56u8) { assert((x & 56u8) == ((x / 8u8) % 8u8) * 8u8 && (56u8 & x) == (x & 56u8)) by (bit_vector); }
pub broadcast proof fn mask_56r(x: u8) ensures #![trigger (56u8 & x)] (56u8 & x) == (x & 56u8) { assert((56u8 & x) == (x & 56u8)) by (bit_vector); }
pub broadcast proof fn mask_120(x: u8) ensures #![trigger (x & 120u8)] (x & 120u8) == ((x as int / 8) % 16) * 8 && (120u8 & x) == (x & 120u8) { assert((x & 120u8) == ((x / 8u8) % 16u8) * 8u8 && (120u8 & x) == (x & 120u8)) by (bit_vector); }
pub broadcast proof fn mask_120r(x: u8) ensures #![trigger (120u8 & x)] (120u8 & x) == (x & 120u8) { assert((120u8 & x) == (x & 120u8)) by (bit_vector); }
pub broadcast proof fn mask_248(x: u8) ensures #![trigger (x & 248u8)] (x & 248u8) == ((x as int / 8) % 32) * 8 && (248u8 & x) == (x & 248u8) { assert((x & 248u8) == ((x / 8u8) % 32u8) * 8u8 && (248u8 & x) == (x & 248u8)) by (bit_vector); }
pub broadcast proof fn mask_248r(x: u8) ensures #![trigger (248u8 & x)] (248u8 & x) == (x & 248u8) { assert((248u8 & x) == (x & 248u8)) by (bit_vector); }
pub broadcast proof fn mask_16(x: u8) ensures #![trigger (x & 16u8)] (x & 16u8) == ((x as int / 16) % 2) * 16 && (16u8 & x) == (x & 16u8) { assert((x & 16u8) == ((x / 16u8) % 2u8) * 16u8 && (16u8 & x) == (x & 16u8)) by (bit_vector); }
pub broadcast proof fn mask_16r(x: u8) ensures #![trigger (16u8 & x)] (16u8 & x) == (x & 16u8) { assert((16u8 & x) == (x & 16u8)) by (bit_vector); }
pub broadcast proof fn mask_48(x: u8) ensures #![trigger (x & 48u8)] (x & 48u8) == ((x as int / 16) % 4) * 16 && (48u8 & x) == (x & 48u8) { assert((x & 48u8) == ((x / 16u8) % 4u8) * 16u8 && (48u8 & x) == (x & 48u8)) by (bit_vector); }
pub broadcast proof fn mask_48r(x: u8) ensures #![trigger (48u8 & x)] (48u8 & x) == (x & 48u8) { assert((48u8 & x) == (x & 48u8)) by (bit_vector); }
pub broadcast proof fn mask_112(x: u8) ensures #![trigger (x & 112u8)] (x & 112u8) == ((x as int / 16) % 8) * 16 && (112u8 & x) == (x & 112u8) { assert((x & 112u8) == ((x / 16u8) % 8u8) * 16u8 && (112u8 & x) == (x & 112u8)) by (bit_vector); }
pub broadcast proof fn mask_112r(x: u8) ensures #![trigger (112u8 & x)] (112u8 & x) == (x & 112u8) { assert((112u8 & x) == (x & 112u8)) by (bit_vector); }
pub broadcast proof fn mask_240(x: u8) ensures #![trigger (x & 240u8)] (x & 240u8) == ((x as int / 16) % 16) * 16 && (240u8 & x) == (x & 240u8) { assert((x & 240u8) == ((x / 16u8) % 16u8) * 16u8 && (240u8 & x) == (x & 240u8)) by (bit_vector); }
pub broadcast proof fn mask_240r(x: u8) ensures #![trigger (240u8 & x)] (240u8 & x) == (x & 240u8) { assert((240u8 & x) == (x & 240u8)) by (bit_vector); }
pub broadcast proof fn mask_32(x: u8) ensures #![trigger (x & 32u8)] (x & 32u8) == ((x as int / 32) % 2) * 32 && (32u8 & x) == (x & 32u8) { assert((x & 32u8) == ((x / 32u8) % 2u8) * 32u8 && (32u8 & x) == (x & 32u8)) by (bit_vector); }
pub broadcast proof fn mask_32r(x: u8) ensures #![trigger (32u8 & x)] (32u8 & x) == (x & 32u8) { assert((32u8 & x) == (x & 32u8)) by (bit_vector); }
pub broadcast proof fn mask_96(x: u8) ensures #![trigger (x & 96u8)] (x & 96u8) == ((x as int / 32) % 4) * 32 && (96u8 & x) == (x & 96u8) { assert((x & 96u8) == ((x / 32u8) % 4u8) * 32u8 && (96u8 & x) == (x & 96u8)) by (bit_vector); }
pub broadcast proof fn mask_96r(x: u8) ensures #![trigger (96u8 & x)] (96u8 & x) == (x & 96u8) { assert((96u8 & x) == (x & 96u8)) by (bit_vector); }
pub broadcast proof fn mask_224(x: u8) ensures #![trigger (x & 224u8)] (x & 224u8) == ((x as int / 32) % 8) * 32 && (224u8 & x) == (x & 224u8) { assert((x & 224u8) == ((x / 32u8) % 8u8) * 32u8 && (224u8 & x) == (x & 224u8)) by (bit_vector); }
pub broadcast proof fn mask_224r(x: u8) ensures #![trigger (224u8 & x)] (224u8 & x) == (x & 224u8) { assert((224u8 & x) == (x & 224u8)) by (bit_vector); }
pub broadcast proof fn mask_64(x: u8) ensures #![trigger (x & 64u8)] (x & 64u8) == ((x as int / 64) % 2) * 64 && (64u8 & x) == (x & 64u8) { assert((x & 64u8) == ((x / 64u8) % 2u8) * 64u8 && (64u8 & x) == (x & 64u8)) by (bit_vector); }
pub broadcast proof fn mask_64r(x: u8) ensures #![trigger (64u8 & x)] (64u8 & x) == (x & 64u8) { assert((64u8 & x) == (x & 64u8)) by (bit_vector); }
pub broadcast proof fn mask_192(x: u8) ensures #![trigger (x & 192u8)] (x & 192u8) == ((x as int / 64) % 4) * 64 && (192u8 & x) == (x & 192u8) { assert((x & 192u8) == ((x / 64u8) % 4u8) * 64u8 && (192u8 & x) == (x & 192u8)) by (bit_vector); }
pub broadcast proof fn mask_192r(x: u8) ensures #![trigger (192u8 & x)] (192u8 & x) == (x & 192u8) { assert((192u8 & x) == (x & 192u8)) by (bit_vector); }
pub broadcast proof fn mask_128(x: u8) ensures #![trigger (x & 128u8)] (x & 128u8) == ((x as int / 128) % 2) * 128 && (128u8 & x) == (x & 128u8) { assert((x & 128u8) == ((x / 128u8) % 2u8) * 128u8 && (128u8 & x) == (x & 128u8)) by (bit_vector); }
pub broadcast proof fn mask_128r(x: u8) ensures #![trigger (128u8 & x)] (128u8 & x) == (x & 128u8) { assert((128u8 & x) == (x & 128u8)) by (bit_vector); }
pub broadcast proof fn shr_1(x: u8) ensures #[trigger] (x >> 1u8) == x as int / 2 { assert((x >> 1u8) == x / 2u8) by (bit_vector); }
pub broadcast proof fn shl_1(x: u8) ensures #[trigger] (x << 1u8) == (x as int % 128) * 2 { assert((x << 1u8) == (x % 128u8) * 2u8) by (bit_vector); }
pub broadcast proof fn or_1(x: u8, y: u8) requires x as int % 2 == 0, y < 2 ensures #[trigger] (x | y) == x + y { assert(x % 2u8 == 0 && y < 2u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn shr_2(x: u8) ensures #[trigger] (x >> 2u8) == x as int / 4 { assert((x >> 2u8) == x / 4u8) by (bit_vector); }
pub broadcast proof fn shl_2(x: u8) ensures #[trigger] (x << 2u8) == (x as int % 64) * 4 { assert((x << 2u8) == (x % 64u8) * 4u8) by (bit_vector); }
pub broadcast proof fn or_2(x: u8, y: u8) requires x as int % 4 == 0, y < 4 ensures #[trigger] (x | y) == x + y { assert(x % 4u8 == 0 && y < 4u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn shr_3(x: u8) ensures #[trigger] (x >> 3u8) == x as int / 8 { assert((x >> 3u8) == x / 8u8) by (bit_vector); }
pub broadcast proof fn shl_3(x: u8) ensures #[trigger] (x << 3u8) == (x as int % 32) * 8 { assert((x << 3u8) == (x % 32u8) * 8u8) by (bit_vector); }
pub broadcast proof fn or_3(x: u8, y: u8) requires x as int % 8 == 0, y < 8 ensures #[trigger] (x | y) == x + y { assert(x % 8u8 == 0 && y < 8u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn shr_4(x: u8) ensures #[trigger] (x >> 4u8) == x as int / 16 { assert((x >> 4u8) == x / 16u8) by (bit_vector); }
pub broadcast proof fn shl_4(x: u8) ensures #[trigger] (x << 4u8) == (x as int % 16) * 16 { assert((x << 4u8) == (x % 16u8) * 16u8) by (bit_vector); }
pub broadcast proof fn or_4(x: u8, y: u8) requires x as int % 16 == 0, y < 16 ensures #[trigger] (x | y) == x + y { assert(x % 16u8 == 0 && y < 16u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn shr_5(x: u8) ensures #[trigger] (x >> 5u8) == x as int / 32 { assert((x >> 5u8) == x / 32u8) by (bit_vector); }
pub broadcast proof fn shl_5(x: u8) ensures #[trigger] (x << 5u8) == (x as int % 8) * 32 { assert((x << 5u8) == (x % 8u8) * 32u8) by (bit_vector); }
pub broadcast proof fn or_5(x: u8, y: u8) requires x as int % 32 == 0, y < 32 ensures #[trigger] (x | y) == x + y { assert(x % 32u8 == 0 && y < 32u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn shr_6(x: u8) ensures #[trigger] (x >> 6u8) == x as int / 64 { assert((x >> 6u8) == x / 64u8) by (bit_vector); }
pub broadcast proof fn shl_6(x: u8) ensures #[trigger] (x << 6u8) == (x as int % 4) * 64 { assert((x << 6u8) == (x % 4u8) * 64u8) by (bit_vector); }
pub broadcast proof fn or_6(x: u8, y: u8) requires x as int % 64 == 0, y < 64 ensures #[trigger] (x | y) == x + y { assert(x % 64u8 == 0 && y < 64u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast proof fn shr_7(x: u8) ensures #[trigger] (x >> 7u8) == x as int / 128 { assert((x >> 7u8) == x / 128u8) by (bit_vector); }
pub broadcast proof fn shl_7(x: u8) ensures #[trigger] (x << 7u8) == (x as int % 2) * 128 { assert((x << 7u8) == (x % 2u8) * 128u8) by (bit_vector); }
pub broadcast proof fn or_7(x: u8, y: u8) requires x as int % 128 == 0, y < 128 ensures #[trigger] (x | y) == x + y { assert(x % 128u8 == 0 && y < 128u8 ==> (x | y) == x + y) by (bit_vector); }
pub broadcast group gbits { mask_1, mask_1r, mask_3, mask_3r, mask_7, mask_7r, mask_15, mask_15r, mask_31, mask_31r, mask_63, mask_63r, mask_127, mask_127r, mask_2, mask_2r, mask_6, mask_6r, mask_14, mask_14r, mask_30, mask_30r, mask_62, mask_62r, mask_126, mask_126r, mask_254, mask_254r, mask_4, mask_4r, mask_12, mask_12r, mask_28, mask_28r, mask_60, mask_60r, mask_124, mask_124r, mask_252, mask_252r, mask_8, mask_8r, mask_24, mask_24r, mask_56, mask_56r, mask_120, mask_120r, mask_248, mask_248r, mask_16, mask_16r, mask_48, mask_48r, mask_112, mask_112r, mask_240, mask_240r, mask_32, mask_32r, mask_96, mask_96r, mask_224, mask_224r, mask_64, mask_64r, mask_192, mask_192r, mask_128, mask_128r, shr_1, shl_1, or_1, shr_2, shl_2, or_2, shr_3, shl_3, or_3, shr_4, shl_4, or_4, shr_5, shl_5, or_5, shr_6, shl_6, or_6, shr_7, shl_7, or_7 }
