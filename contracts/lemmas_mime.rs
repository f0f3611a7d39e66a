// ---- results that travel in another shape than the specification's ----
pub open spec fn ctype(t: (ContentType, Cow<str>, HMap<Cow<str>, Cow<str>>)) -> VContentType { VContentType { mime_type: t.0.sv(), subtype: t.1.sv(), parameters: t.2.sv() } }
pub open spec fn ctype_sv(t: Option<(ContentType, Cow<str>, HMap<Cow<str>, Cow<str>>)>) -> Option<VContentType> { match t { Some(x) => Some(ctype(x)), None => None } }
pub open spec fn conf_ct<'a>(r: Res<'a, (ContentType<'a>, Cow<'a, str>, HMap<Cow<'a, str>, Cow<'a, str>>)>, sp: Option<(S, VContentType)>) -> bool {
    match r { Ok((rest, t)) => sp == Some((rest@, ctype(t))), Err(_) => sp is None }
}
// byte vectors
pub open spec fn conf_v(r: Result<Vec<u8>, Error>, sp: Option<S>) -> bool { match r { Ok(v) => sp == Some(v@), Err(_) => sp is None } }
pub open spec fn is_v(r: Vec<u8>, sp: S) -> bool { r@ == sp }
pub open spec fn is_sv<T: Sv>(r: T, sp: T::V) -> bool { r.sv() == sp }

pub open spec fn svf<T: Sv>(x: T) -> T::V { x.sv() }
pub open spec fn fix_tc(v: S) -> S { tc(6937, l_fix6937(v)) }
// the headers of a part: how many bytes are left after them, and their values
pub type Part<'a> = (ContentTransferEncoding<'a>, ContentType<'a>, Cow<'a, str>, HMap<Cow<'a, str>, Cow<'a, str>>, Vec<(Cow<'a, str>, Cow<'a, str>)>, Option<(Cow<'a, str>, Cow<'a, str>)>, Option<Cow<'a, str>>, Option<Disposition<'a>>);
pub open spec fn part_is(t: Part, p: VPart) -> bool {
    t.0.sv() == or_7bit(p.encoding) && t.1.sv() == part_type(p).mime_type && t.2.sv() == part_type(p).subtype && t.3.sv() == part_type(p).parameters
    && t.4.sv() == p.additional && t.5.sv() == p.id && t.6.sv() == p.description && t.7.sv() == p.disposition
}
pub open spec fn conf_part(r: Result<(usize, Part), Error>, sp: Option<(S, VPart)>) -> bool {
    match r { Ok((n, t)) => sp is Some && n == sp->Some_0.0.len() && part_is(t, sp->Some_0.1), Err(_) => sp is None }
}

// ---- ASCII letters in text ----
pub broadcast proof fn no_capitals(c: Seq<char>) requires forall|i: int| 0 <= i < c.len() ==> !is_upper(#[trigger] c[i]) ensures #[trigger] lower_s(encode_utf8(c)) == encode_utf8(c)
{ no_cap(c); assert(lower_s(encode_utf8(c)) =~= encode_utf8(c)); }
pub proof fn scalar_bytes(c: char) ensures ({ let s = encode_scalar(c as u32); s.len() >= 1 && (s.len() == 1 ==> s[0] as u32 == c as u32) && (s.len() > 1 ==> forall|i: int| 0 <= i < s.len() ==> s[i] >= 128) }) { let x = c as u32; let s = encode_scalar(c as u32); 
  assert(x < 128 ==> (x & 0x7f) as u8 == x) by (bit_vector);
  assert forall|y: u32| true implies #[trigger] leading_byte_width_2(y) >= 128 by { let b = ((y >> 6) & 0x1F) as u8; assert((b | 0xC0u8) >= 128 && (0xC0u8 | b) >= 128 && (0xC0u8 | b) == (b | 0xC0u8)) by (bit_vector);  }
  assert forall|y: u32| true implies #[trigger] leading_byte_width_3(y) >= 128 by { let b = ((y >> 12) & 0x0F) as u8;assert((b | 0xE0u8) >= 128 && (0xE0u8 | b) >= 128 && (0xE0u8 | b) == (b | 0xE0u8)) by (bit_vector); }
  assert forall|y: u32| true implies #[trigger] leading_byte_width_4(y) >= 128 by { let b = ((y >> 18) & 0x07) as u8;assert((b | 0xF0u8) >= 128 && (0xF0u8 | b) >= 128 && (0xF0u8 | b) == (b | 0xF0u8)) by (bit_vector); }
  assert forall|y: u32| true implies #[trigger] last_continuation_byte(y) >= 128 by { let b = (y & 0x3F) as u8;assert((b | 0x80u8) >= 128 && (0x80u8 | b) >= 128 && (0x80u8 | b) == (b | 0x80u8)) by (bit_vector); }
  assert forall|y: u32| true implies #[trigger] second_last_continuation_byte(y) >= 128 by { let b = ((y >> 6) & 0x3F) as u8;assert((b | 0x80u8) >= 128 && (0x80u8 | b) >= 128 && (0x80u8 | b) == (b | 0x80u8)) by (bit_vector); }
  assert forall|y: u32| true implies #[trigger] third_last_continuation_byte(y) >= 128 by { let b = ((y >> 12) & 0x3F) as u8; assert((b | 0x80u8) >= 128 && (0x80u8 | b) >= 128 && (0x80u8 | b) == (b | 0x80u8)) by (bit_vector); }
}

pub proof fn no_cap(c: Seq<char>) requires forall|i: int| 0 <= i < c.len() ==> !is_upper(#[trigger] c[i]) ensures forall|i: int| 0 <= i < encode_utf8(c).len() ==> !(65 <= #[trigger] encode_utf8(c)[i] && encode_utf8(c)[i] <= 90) decreases c.len()
{
    broadcast use ascii_upper_axiom;
    reveal_with_fuel(encode_utf8, 2);
    if c.len() > 0 {
        let t = c.drop_first();
        assert forall|i: int| 0 <= i < t.len() implies !is_upper(#[trigger] t[i]) by { assert(t[i] == c[i + 1]); }
        no_cap(t);
        scalar_bytes(c[0]);
        assert(!is_upper(c[0]));
        let h = encode_scalar(c[0] as u32);
        assert(encode_utf8(c) == h + encode_utf8(t));
        assert forall|i: int| 0 <= i < encode_utf8(c).len() implies !(65 <= #[trigger] encode_utf8(c)[i] && encode_utf8(c)[i] <= 90) by {
            if i >= h.len() { assert(encode_utf8(c)[i] == encode_utf8(t)[i - h.len()]); } else { assert(encode_utf8(c)[i] == h[i]); }
        }
    }
}

pub broadcast proof fn fix_is(v: S, w: S) requires w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> w[i] == fix6937(v[i]) ensures #![trigger l_fix6937(v), tc(6937, w)] w == l_fix6937(v) decreases v.len()
{
    reveal(l_fix6937);
    if v.len() > 0 { let x = v.drop_last(); let y = w.drop_last(); fix_is(x, y); assert(w =~= y.push(w.last())); } else { assert(w =~= v); }
}

// ---- boundary lines ----
pub open spec fn find_from(s: S, t: S, i: int) -> Option<int> { match l_find(s.skip(i), t) { Some(k) => Some(k + i), None => None } }
pub open spec fn line_mid(b: S) -> S { b"\r\n" + ((b"--" + b) + b"\r\n") }
pub open spec fn line_end_(b: S) -> S { (b"\r\n--" + b) + b"--\r\n" }
pub proof fn find_step(s: S, t: S, i: int) ensures
    find_from(s, t, 0) == l_find(s, t),
    0 <= i <= s.len() ==> find_from(s, t, i) == (if i == s.len() { None } else if pfx(s.skip(i), t) { Some(i) } else { find_from(s, t, i + 1) })
{ reveal(l_find); assert(s.skip(0) =~= s); if 0 <= i < s.len() { assert(s.skip(i).skip(1) =~= s.skip(i + 1)); } }
pub proof fn pfx3(s: S, i: int, a: S, b: S, c: S) ensures
    0 <= i <= s.len() ==> pfx(s.skip(i), (a + b) + c) == (i + a.len() + b.len() + c.len() <= s.len() && s.subrange(i, i + a.len()) == a
        && s.subrange(i + a.len(), i + a.len() + b.len()) == b && s.subrange(i + a.len() + b.len(), i + a.len() + b.len() + c.len()) == c)
{
    let t = (a + b) + c;
    if 0 <= i <= s.len() && i + t.len() <= s.len() {
        let u = s.skip(i).take(t.len() as int);
        let x = s.subrange(i, i + a.len()); let y = s.subrange(i + a.len(), i + a.len() + b.len()); let z = s.subrange(i + a.len() + b.len(), i + t.len());
        assert(u =~= (x + y) + z);
        if u == t {
            assert(x =~= a) by { assert forall|j: int| 0 <= j < a.len() implies x[j] == a[j] by { assert(u[j] == t[j]); } }
            assert(y =~= b) by { assert forall|j: int| 0 <= j < b.len() implies y[j] == b[j] by { assert(u[j + a.len()] == t[j + a.len()]); } }
            assert(z =~= c) by { assert forall|j: int| 0 <= j < c.len() implies z[j] == c[j] by { assert(u[j + a.len() + b.len()] == t[j + a.len() + b.len()]); } }
        }
    }
}
pub proof fn mid_at(s: S, b: S, i: int) ensures
    find_from(s, line_mid(b), 0) == l_find(s, line_mid(b)),
    0 <= i <= s.len() ==> find_from(s, line_mid(b), i) == (if i == s.len() { None } else if pfx(s.skip(i), line_mid(b)) { Some(i) } else { find_from(s, line_mid(b), i + 1) }),
    0 <= i <= s.len() ==> pfx(s.skip(i), line_mid(b)) == (i + b.len() + 6 <= s.len() && s.subrange(i, i + 4) == b"\r\n--" && s.subrange(i + 4, i + 4 + b.len()) == b && s.subrange(i + 4 + b.len(), i + b.len() + 6) == b"\r\n"),
{ find_step(s, line_mid(b), i); assert(line_mid(b) =~= (b"\r\n--" + b) + b"\r\n"); pfx3(s, i, b"\r\n--", b, b"\r\n"); }
pub proof fn first_at(s: S, b: S) ensures
    pfx(s, (b"--" + b) + b"\r\n") == (b.len() + 4 <= s.len() && s.take(2) == b"--" && s.subrange(2, 2 + b.len() as int) == b && s.subrange(2 + b.len() as int, 4 + b.len() as int) == b"\r\n"),
{ pfx3(s, 0, b"--", b, b"\r\n"); assert(s.skip(0) =~= s); if s.len() >= 2 { assert(s.take(2) =~= s.subrange(0, 2)); } }
pub proof fn end_at(s: S, b: S, i: int) ensures
    find_from(s, line_end_(b), 0) == l_find(s, line_end_(b)),
    0 <= i <= s.len() ==> find_from(s, line_end_(b), i) == (if i == s.len() { None } else if pfx(s.skip(i), line_end_(b)) { Some(i) } else { find_from(s, line_end_(b), i + 1) }),
    0 <= i <= s.len() ==> pfx(s.skip(i), line_end_(b)) == (i + b.len() + 8 <= s.len() && s.subrange(i, i + 4) == b"\r\n--" && s.subrange(i + 4, i + 4 + b.len()) == b && s.subrange(i + 4 + b.len(), i + b.len() + 8) == b"--\r\n"),
{ find_step(s, line_end_(b), i); pfx3(s, i, b"\r\n--", b, b"--\r\n"); }

// ---- entities ----
#[verifier::opaque]
pub open spec fn text_in(c: S, v: S) -> Option<Option<S>> { match charset_no(c) { Some(n) => match decode_text(n, v) { Some(t) => Some(Some(t)), None => None }, None => Some(None) } }
pub broadcast proof fn text_utf_8(c: S, v: S) requires c == b"utf-8" ensures #[trigger] text_in(c, v) == (if valid_utf8(v) { Some(Some(v)) } else { None }) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_us_ascii(c: S, v: S) requires c == b"us-ascii" ensures #[trigger] text_in(c, v) == (if valid_utf8(v) { Some(Some(v)) } else { None }) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_1(c: S, v: S) requires c == b"iso-8859-1" ensures #[trigger] text_in(c, v) == Some(Some(tc(885901, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_2(c: S, v: S) requires c == b"iso-8859-2" ensures #[trigger] text_in(c, v) == Some(Some(tc(885902, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_3(c: S, v: S) requires c == b"iso-8859-3" ensures #[trigger] text_in(c, v) == Some(Some(tc(885903, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_4(c: S, v: S) requires c == b"iso-8859-4" ensures #[trigger] text_in(c, v) == Some(Some(tc(885904, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_5(c: S, v: S) requires c == b"iso-8859-5" ensures #[trigger] text_in(c, v) == Some(Some(tc(885905, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_6(c: S, v: S) requires c == b"iso-8859-6" ensures #[trigger] text_in(c, v) == Some(Some(tc(885906, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_7(c: S, v: S) requires c == b"iso-8859-7" ensures #[trigger] text_in(c, v) == Some(Some(tc(885907, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_8(c: S, v: S) requires c == b"iso-8859-8" ensures #[trigger] text_in(c, v) == Some(Some(tc(885908, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_9(c: S, v: S) requires c == b"iso-8859-9" ensures #[trigger] text_in(c, v) == Some(Some(tc(885909, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_10(c: S, v: S) requires c == b"iso-8859-10" ensures #[trigger] text_in(c, v) == Some(Some(tc(885910, v))) { reveal(text_in); assert(c.len() == 11 && c[9] == 49 && c[10] == 48); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_11(c: S, v: S) requires c == b"iso-8859-11" ensures #[trigger] text_in(c, v) == Some(Some(tc(885911, v))) { reveal(text_in); assert(c.len() == 11 && c[9] == 49 && c[10] == 49); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_13(c: S, v: S) requires c == b"iso-8859-13" ensures #[trigger] text_in(c, v) == Some(Some(tc(885913, v))) { reveal(text_in); assert(c.len() == 11 && c[9] == 49 && c[10] == 51); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_14(c: S, v: S) requires c == b"iso-8859-14" ensures #[trigger] text_in(c, v) == Some(Some(tc(885914, v))) { reveal(text_in); assert(c.len() == 11 && c[9] == 49 && c[10] == 52); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_15(c: S, v: S) requires c == b"iso-8859-15" ensures #[trigger] text_in(c, v) == Some(Some(tc(885915, v))) { reveal(text_in); assert(c.len() == 11 && c[9] == 49 && c[10] == 53); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_8859_16(c: S, v: S) requires c == b"iso-8859-16" ensures #[trigger] text_in(c, v) == Some(Some(tc(885916, v))) { reveal(text_in); assert(c.len() == 11 && c[9] == 49 && c[10] == 54); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_iso_6937(c: S, v: S) requires c == b"iso-6937" ensures #[trigger] text_in(c, v) == Some(Some(tc(6937, l_fix6937(v)))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_gb2312(c: S, v: S) requires c == b"gb2312" ensures #[trigger] text_in(c, v) == Some(Some(tc(2312, v))) { reveal(text_in); reveal(charset_no); reveal(decode_text); }
pub broadcast proof fn text_other(c: S, v: S) requires c != b"utf-8" && c != b"us-ascii" && c != b"iso-8859-1" && c != b"iso-8859-2" && c != b"iso-8859-3" && c != b"iso-8859-4" && c != b"iso-8859-5" && c != b"iso-8859-6" && c != b"iso-8859-7" && c != b"iso-8859-8" && c != b"iso-8859-9" && c != b"iso-8859-10" && c != b"iso-8859-11" && c != b"iso-8859-13" && c != b"iso-8859-14" && c != b"iso-8859-15" && c != b"iso-8859-16" && c != b"iso-6937" && c != b"gb2312" ensures #[trigger] text_in(c, v) == Some(None::<S>) { reveal(text_in); reveal(charset_no); }
pub broadcast group gtext { text_utf_8, text_us_ascii, text_iso_8859_1, text_iso_8859_2, text_iso_8859_3, text_iso_8859_4, text_iso_8859_5, text_iso_8859_6, text_iso_8859_7, text_iso_8859_8, text_iso_8859_9, text_iso_8859_10, text_iso_8859_11, text_iso_8859_13, text_iso_8859_14, text_iso_8859_15, text_iso_8859_16, text_iso_6937, text_gb2312, text_other }
pub proof fn entity_cases(e: &RawEntity) ensures sp_entity(e.sv()) == (
    if e.mime_type is Multipart { match sp_multipart(e.value.sv(), e.parameters.sv()) { Some(c) => Some(VEntity::Multipart((e.subtype.sv(), c))), None => None } }
    else if e.mime_type is Text && e.parameters.m().contains_key(b"charset") {
        match text_in(ulower(e.parameters.m()[b"charset"].sv()), e.value.sv()) { Some(Some(t)) => Some(VEntity::Text((e.subtype.sv(), t))), Some(None) => Some(VEntity::Unknown), None => None }
    } else { Some(VEntity::Unknown) })
{ reveal(sp_entity); reveal(text_in); }

// ---- base64 ----
pub open spec fn lt64(x: u8) -> bool { x < 64 }
pub open spec fn olt64(x: Option<u8>) -> bool { match x { Some(v) => v < 64, None => true } }
pub open spec fn no8(x: Option<u8>) -> bool { x is None }
pub open spec fn b64_is(v: u8, b: u8) -> bool { cls(Cls::B64, b) && v as int == b64_val(b) }
pub open spec fn b64o_is(x: Option<u8>, b: u8) -> bool { match x { Some(v) => b64_is(v, b), None => b == 61 } }
// what remains to be decoded once the first 1, 2, 3 characters of a quantum are known (their values are a, b, c; None: padding)
#[verifier::opaque] pub open spec fn b64_q2(s: S, a: int, acc: S) -> Option<S> { let b = b64_skip(s); if b.len() == 0 { None } else { b64_q3(b.skip(1), a, b64_val(b[0]), acc) } }
#[verifier::opaque] pub open spec fn b64_q3(s: S, a: int, b: int, acc: S) -> Option<S> { let c = b64_skip_eq(s); if c.len() == 0 { None } else { b64_q4(c.skip(1), a, b, if c[0] == 61 { None } else { Some(b64_val(c[0])) }, acc) } }
#[verifier::opaque] pub open spec fn b64_q4(s: S, a: int, b: int, c: Option<int>, acc: S) -> Option<S> {
    let d = b64_skip_eq(s); if d.len() == 0 { None } else if d[0] == 61 { l_b64(d.skip(1), acc + b64_out(a, b, c, None)) } else if c is None { None } else { l_b64(d.skip(1), acc + b64_out(a, b, c, Some(b64_val(d[0])))) }
}
#[verifier::opaque] pub open spec fn b64_out(a: int, b: int, c: Option<int>, d: Option<int>) -> S {
    match c { None => seq![b64_1(a, b)], Some(c) => match d { None => seq![b64_1(a, b), b64_2(b, c)], Some(d) => seq![b64_1(a, b), b64_2(b, c), b64_3(c, d)] } }
}
pub proof fn b64_unfold(s: S, acc: S) ensures l_b64(s, acc) == ({ let a = b64_skip(s); if a.len() == 0 { Some(acc) } else { b64_q2(a.skip(1), b64_val(a[0]), acc) } })
{
    reveal(l_b64); reveal(b64_q2); reveal(b64_q3); reveal(b64_q4); reveal(b64_out);
    run_bound(Cls::NotB64, s);
    let a = b64_skip(s);
    if a.len() > 0 {
        run_bound(Cls::NotB64, a.skip(1));
        let b = b64_skip(a.skip(1));
        if b.len() > 0 {
            run_bound(Cls::NotB64Eq, b.skip(1));
            let c = b64_skip_eq(b.skip(1));
            if c.len() > 0 {
                run_bound(Cls::NotB64Eq, c.skip(1));
                let d = b64_skip_eq(c.skip(1));
                let va = b64_val(a[0]); let vb = b64_val(b[0]); let vc = b64_val(c[0]); let vd = b64_val(d[0]);
                assert(acc.push(b64_1(va, vb)) =~= acc + b64_out(va, vb, None, None));
                assert(acc.push(b64_1(va, vb)).push(b64_2(vb, vc)) =~= acc + b64_out(va, vb, Some(vc), None));
                assert(acc.push(b64_1(va, vb)).push(b64_2(vb, vc)).push(b64_3(vc, vd)) =~= acc + b64_out(va, vb, Some(vc), Some(vd)));
            }
        }
    }
}
pub proof fn b64_skip_at(d: S, i: int) requires 0 <= i <= d.len() ensures b64_skip(d.skip(i)) == (if i < d.len() && cls(Cls::NotB64, d[i]) { b64_skip(d.skip(i + 1)) } else { d.skip(i) })
{ reveal(run); let s = d.skip(i); if s.len() > 0 { assert(s.skip(1) =~= d.skip(i + 1)); run_bound(Cls::NotB64, s.skip(1)); if cls(Cls::NotB64, d[i]) { assert(s.skip(1 + run(Cls::NotB64, s.skip(1))) =~= s.skip(1).skip(run(Cls::NotB64, s.skip(1)))); } else { assert(s.skip(0) =~= s); } } else { assert(s.skip(0) =~= s); } }
pub proof fn b64_skip_eq_at(d: S, i: int) requires 0 <= i <= d.len() ensures b64_skip_eq(d.skip(i)) == (if i < d.len() && cls(Cls::NotB64Eq, d[i]) { b64_skip_eq(d.skip(i + 1)) } else { d.skip(i) })
{ reveal(run); let s = d.skip(i); if s.len() > 0 { assert(s.skip(1) =~= d.skip(i + 1)); run_bound(Cls::NotB64Eq, s.skip(1)); if cls(Cls::NotB64Eq, d[i]) { assert(s.skip(1 + run(Cls::NotB64Eq, s.skip(1))) =~= s.skip(1).skip(run(Cls::NotB64Eq, s.skip(1)))); } else { assert(s.skip(0) =~= s); } } else { assert(s.skip(0) =~= s); } }
pub proof fn b64_at1(d: S, i: int, acc: S) requires 0 <= i <= d.len() ensures l_b64(d.skip(i), acc) == (if i >= d.len() { Some(acc) } else if cls(Cls::B64, d[i]) { b64_q2(d.skip(i + 1), b64_val(d[i]), acc) } else { l_b64(d.skip(i + 1), acc) })
{ b64_unfold(d.skip(i), acc); b64_skip_at(d, i); if i < d.len() { b64_unfold(d.skip(i + 1), acc); assert(d.skip(i).skip(1) =~= d.skip(i + 1)); } }
pub proof fn b64_at2(d: S, i: int, a: int, acc: S) requires 0 <= i <= d.len() ensures b64_q2(d.skip(i), a, acc) == (if i >= d.len() { None } else if cls(Cls::B64, d[i]) { b64_q3(d.skip(i + 1), a, b64_val(d[i]), acc) } else { b64_q2(d.skip(i + 1), a, acc) })
{ reveal(b64_q2); b64_skip_at(d, i); if i < d.len() { assert(d.skip(i).skip(1) =~= d.skip(i + 1)); } }
pub proof fn b64_at3(d: S, i: int, a: int, b: int, acc: S) requires 0 <= i <= d.len() ensures b64_q3(d.skip(i), a, b, acc) == (if i >= d.len() { None } else if d[i] == 61 { b64_q4(d.skip(i + 1), a, b, None, acc) } else if cls(Cls::B64, d[i]) { b64_q4(d.skip(i + 1), a, b, Some(b64_val(d[i])), acc) } else { b64_q3(d.skip(i + 1), a, b, acc) })
{ reveal(b64_q3); b64_skip_eq_at(d, i); if i < d.len() { assert(d.skip(i).skip(1) =~= d.skip(i + 1)); } }
pub proof fn b64_at4(d: S, i: int, a: int, b: int, c: Option<int>, acc: S) requires 0 <= i <= d.len()
    ensures b64_q4(d.skip(i), a, b, c, acc) == (if i >= d.len() { None } else if d[i] == 61 { l_b64(d.skip(i + 1), acc + b64_out(a, b, c, None)) } else if cls(Cls::B64, d[i]) { if c is None { None } else { l_b64(d.skip(i + 1), acc + b64_out(a, b, c, Some(b64_val(d[i])))) } } else { b64_q4(d.skip(i + 1), a, b, c, acc) })
{ reveal(b64_q4); b64_skip_eq_at(d, i); if i < d.len() { assert(d.skip(i).skip(1) =~= d.skip(i + 1)); } }
pub open spec fn oint(x: Option<u8>) -> Option<int> { match x { Some(v) => Some(v as int), None => None } }
pub proof fn b64_put(d0: S, d1: S, k: int, n: int, i: int, a: u8, b: u8, c: Option<u8>, d: Option<u8>)
    requires 0 <= k, k + 3 <= d0.len(), d1.len() == d0.len(), a < 64, b < 64, olt64(c), olt64(d),
        n == (match c { None => 1int, Some(_) => match d { None => 2int, Some(_) => 3int } }),
        0 <= i <= d0.len(), forall|j: int| 0 <= j < k ==> #[trigger] d1[j] == d0[j], forall|j: int| i <= j < d0.len() ==> #[trigger] d1[j] == d0[j], d1[k] == b64_1(a as int, b as int),
        c is Some ==> d1[k + 1] == b64_2(b as int, c->Some_0 as int), c is Some && d is Some ==> d1[k + 2] == b64_3(c->Some_0 as int, d->Some_0 as int)
    ensures d1.take(k + n) == d0.take(k) + b64_out(a as int, b as int, oint(c), oint(d)), d1.skip(i) == d0.skip(i)
{
    reveal(b64_out);
    let out = b64_out(a as int, b as int, oint(c), oint(d)); let o = d0.take(k) + out;
    assert(out.len() == n && out[0] == d1[k] && (n >= 2 ==> out[1] == d1[k + 1]) && (n >= 3 ==> out[2] == d1[k + 2]));
    assert forall|j: int| 0 <= j < k + n implies d1.take(k + n)[j] == o[j] by { if j < k { } else { assert(o[j] == out[j - k]); } }
    assert(d1.take(k + n) =~= o); assert(d1.skip(i) =~= d0.skip(i));
}
pub broadcast proof fn b64_map(n: int) requires 0 <= n < 64 ensures #[trigger] cq_BASE64_MAP()[n] == b64_char(n) { reveal(b64_char); }
pub proof fn eb64_unfold(s: S, n: int, acc: S) ensures l_eb64(s, n, acc) == ({
    let o = if n >= 72 { acc.push(13u8).push(10u8) } else { acc }; let m = if n >= 72 { 0 } else { n };
    if s.len() == 0 { acc }
    else if s.len() == 1 { o.push(b64_char(s[0] as int / 4)).push(b64_char((s[0] as int % 4) * 16)).push(61u8).push(61u8) }
    else if s.len() == 2 { o.push(b64_char(s[0] as int / 4)).push(b64_char((s[0] as int % 4) * 16 + s[1] as int / 16)).push(b64_char((s[1] as int % 16) * 4)).push(61u8) }
    else { l_eb64(s.skip(3), m + 4, o.push(b64_char(s[0] as int / 4)).push(b64_char((s[0] as int % 4) * 16 + s[1] as int / 16)).push(b64_char((s[1] as int % 16) * 4 + s[2] as int / 64)).push(b64_char(s[2] as int % 64))) } }),
    s.len() >= 1 ==> s.skip(1).len() == s.len() - 1, s.len() >= 2 ==> s.skip(1).skip(1) == s.skip(2) && s.skip(1)[0] == s[1], s.len() >= 3 ==> s.skip(2).skip(1) == s.skip(3) && s.skip(2)[0] == s[2]
{
    reveal(l_eb64);
    assert(b"\r\n" =~= seq![13u8, 10u8]);
    let o = if n >= 72 { acc + b"\r\n" } else { acc }; let o2 = if n >= 72 { acc.push(13u8).push(10u8) } else { acc };
    assert(o =~= o2);
    if s.len() == 1 { assert(o + b64_pad2(s[0]) =~= o.push(b64_char(s[0] as int / 4)).push(b64_char((s[0] as int % 4) * 16)).push(61u8).push(61u8)); }
    else if s.len() == 2 { assert(o + b64_pad1(s[0], s[1]) =~= o.push(b64_char(s[0] as int / 4)).push(b64_char((s[0] as int % 4) * 16 + s[1] as int / 16)).push(b64_char((s[1] as int % 16) * 4)).push(61u8)); }
    else if s.len() > 2 { assert(o + b64_quad(s[0], s[1], s[2]) =~= o.push(b64_char(s[0] as int / 4)).push(b64_char((s[0] as int % 4) * 16 + s[1] as int / 16)).push(b64_char((s[1] as int % 16) * 4 + s[2] as int / 64)).push(b64_char(s[2] as int % 64))); }
    if s.len() >= 2 { assert(s.skip(1).skip(1) =~= s.skip(2)); }
    if s.len() >= 3 { assert(s.skip(2).skip(1) =~= s.skip(3)); }
}

// ---- quoted-printable: one step (bytes consumed, bytes produced) ----
pub open spec fn hexpair(s: S) -> S { if is_hex(s[1]) && is_hex(s[2]) { seq![(hexval(s[1]) * 16 + hexval(s[2])) as u8] } else { seq![239u8, 191u8, 189u8] } }
pub open spec fn qp_step(s: S) -> (int, S) {
    if cls(Cls::QpLit, s[0]) || s[0] == 32 || s[0] == 9 { (1, seq![s[0]]) }
    else if s[0] == 61 { if at(s, 1, 13) && at(s, 2, 10) { (3, Seq::empty()) } else if s.len() > 2 { (3, hexpair(s)) } else { (1, seq![61u8]) } }
    else if s[0] == 13 && at(s, 1, 10) { (2, seq![13u8, 10u8]) } else { (1, seq![239u8, 191u8, 189u8]) }
}
pub open spec fn hqp_step(s: S) -> (int, S) {
    if s[0] == 95 { (1, seq![32u8]) }
    else if s[0] == 61 { if at(s, 1, 13) && at(s, 2, 10) { (3, Seq::empty()) } else if s.len() > 2 { (3, hexpair(s)) } else { (1, seq![61u8]) } }
    else if 32 <= s[0] && s[0] <= 126 { (1, seq![s[0]]) } else { (1, seq![239u8, 191u8, 189u8]) }
}
pub open spec fn eqp_step(s: S, n: int) -> (int, S, int) {
    let m = if n >= 72 { 0 } else { n };
    let b = if n >= 72 { seq![61u8, 13u8, 10u8] } else { Seq::empty() };
    if cls(Cls::QpLit, s[0]) || ((s[0] == 9 || s[0] == 32) && s.len() > 1 && s[1] != 13) { (1, b.push(s[0]), m + 1) }
    else if s[0] == 13 && at(s, 1, 10) { (2, b.push(13u8).push(10u8), 0) }
    else { (1, b.push(61u8).push(hexchar(s[0] as int / 16)).push(hexchar(s[0] as int % 16)), m + 3) }
}
// d0 with the n bytes at i replaced by out
pub open spec fn splice(d0: S, i: int, n: int, out: S) -> S { d0.take(i) + out + d0.skip(i + n) }
pub proof fn splice_at(d0: S, i: int, n: int, out: S) requires 0 <= i, 0 <= n, i + n <= d0.len()
    ensures splice(d0, i, n, out).skip(i + out.len()) == d0.skip(i).skip(n), splice(d0, i, n, out).take(i + out.len()) == d0.take(i) + out
{ assert(splice(d0, i, n, out).skip(i + out.len()) =~= d0.skip(i).skip(n)); assert(splice(d0, i, n, out).take(i + out.len()) =~= d0.take(i) + out); }
pub proof fn qp_at(d0: S, i: int) requires 0 <= i <= d0.len() ensures l_qp(d0.skip(i), d0.take(i)) == (if i >= d0.len() { d0.take(i) } else { let (n, out) = qp_step(d0.skip(i)); l_qp(splice(d0, i, n, out).skip(i + out.len()), splice(d0, i, n, out).take(i + out.len())) })
{
    reveal(l_qp); let s = d0.skip(i); let a = d0.take(i);
    if s.len() > 0 { let (n, out) = qp_step(s); splice_at(d0, i, n, out); assert(a.push(239u8).push(191u8).push(189u8) =~= a + seq![239u8, 191u8, 189u8]); assert(a.push(13u8).push(10u8) =~= a + seq![13u8, 10u8]);
        assert(a.push(61u8) =~= a + seq![61u8]); assert(a.push(s[0]) =~= a + seq![s[0]]); assert(a + Seq::<u8>::empty() =~= a);
        if s.len() > 2 { let h = (hexval(s[1]) * 16 + hexval(s[2])) as u8; assert(a.push(h) =~= a + seq![h]); } }
}
pub proof fn hqp_at(d0: S, i: int) requires 0 <= i <= d0.len() ensures l_hqp(d0.skip(i), d0.take(i)) == (if i >= d0.len() { d0.take(i) } else { let (n, out) = hqp_step(d0.skip(i)); l_hqp(splice(d0, i, n, out).skip(i + out.len()), splice(d0, i, n, out).take(i + out.len())) })
{
    reveal(l_hqp); let s = d0.skip(i); let a = d0.take(i);
    if s.len() > 0 { let (n, out) = hqp_step(s); splice_at(d0, i, n, out); assert(a.push(239u8).push(191u8).push(189u8) =~= a + seq![239u8, 191u8, 189u8]);
        assert(a.push(61u8) =~= a + seq![61u8]); assert(a.push(32u8) =~= a + seq![32u8]); assert(a.push(s[0]) =~= a + seq![s[0]]); assert(a + Seq::<u8>::empty() =~= a);
        if s.len() > 2 { let h = (hexval(s[1]) * 16 + hexval(s[2])) as u8; assert(a.push(h) =~= a + seq![h]); } }
}
pub proof fn eqp_at(d0: S, i: int, k: int) requires 0 <= i <= d0.len() ensures l_eqp(d0.skip(i), k, d0.take(i)) == (if i >= d0.len() { d0.take(i) } else { let (n, out, m) = eqp_step(d0.skip(i), k); l_eqp(splice(d0, i, n, out).skip(i + out.len()), m, splice(d0, i, n, out).take(i + out.len())) })
{
    reveal(l_eqp); let s = d0.skip(i); let a = d0.take(i);
    if s.len() > 0 { let (n, out, m) = eqp_step(s, k); splice_at(d0, i, n, out); let b = if k >= 72 { seq![61u8, 13u8, 10u8] } else { Seq::empty() };
        let o = if k >= 72 { a.push(61u8).push(13u8).push(10u8) } else { a };
        assert(o =~= a + b);
        assert(o.push(13u8).push(10u8) =~= a + b.push(13u8).push(10u8)); assert(o.push(s[0]) =~= a + b.push(s[0]));
        let h = hexchar(s[0] as int / 16); let g = hexchar(s[0] as int % 16);
        assert(o.push(61u8).push(h).push(g) =~= a + b.push(61u8).push(h).push(g)); }
}

// ---- parameters ----
pub open spec fn pct_step(s: S) -> (int, S) { if s[0] == 37 && s.len() > 2 && is_hex(s[1]) && is_hex(s[2]) { (3, seq![(hexval(s[1]) * 16 + hexval(s[2])) as u8]) } else { (1, seq![s[0]]) } }
pub proof fn pct_at(d0: S, i: int) requires 0 <= i <= d0.len() ensures l_percent(d0.skip(i), d0.take(i)) == (if i >= d0.len() { d0.take(i) } else { let (n, out) = pct_step(d0.skip(i)); l_percent(splice(d0, i, n, out).skip(i + out.len()), splice(d0, i, n, out).take(i + out.len())) })
{
    reveal(l_percent); let s = d0.skip(i); let a = d0.take(i);
    if s.len() > 0 { let (n, out) = pct_step(s); splice_at(d0, i, n, out); assert(a.push(s[0]) =~= a + seq![s[0]]); if s.len() > 2 { let h = (hexval(s[1]) * 16 + hexval(s[2])) as u8; assert(a.push(h) =~= a + seq![h]); } }
}
pub proof fn param_cases(s: S, c: S) ensures sp_decode_parameter(s, c) == (match text_in(c, l_percent(s, Seq::empty())) { Some(Some(t)) => Some(t), Some(None) => Some(s), None => None })
{ reveal(sp_decode_parameter); reveal(text_in); }
pub broadcast proof fn suf_valid(a: S, b: S) requires #[trigger] suf(a, b), valid_utf8(a) ensures valid_utf8(b)
{ reveal(suf); reveal(asc_s); let n = a.len() - b.len(); assert forall|i: int| 0 <= i < n implies a[i] < 128 by { assert(a.take(n)[i] < 128); } skip_ascii(a, n); }
pub proof fn skip_ascii(a: S, n: int) requires valid_utf8(a), 0 <= n <= a.len(), forall|i: int| 0 <= i < n ==> a[i] < 128 ensures valid_utf8(a.skip(n)) decreases n
{ if n == a.len() { assert(a.skip(n) =~= Seq::<u8>::empty()); ascii_valid_rec(a.skip(n)); } else if n > 0 { let x = a[0]; assert(x < 128 ==> x & 0x80u8 == 0) by (bit_vector); assert(length_of_first_scalar(a) == 1); let p = pop_first_scalar(a); assert(p =~= a.skip(1)); skip_ascii(p, n - 1); assert(p.skip(n - 1) =~= a.skip(n)); } else { assert(a.skip(0) =~= a); } }

// ---- parameters in sections ----
pub type CX = Map<S, Map<int, (bool, S)>>;
pub type PS = Seq<(S, Option<int>, bool, S)>;
pub type ES = Seq<(S, Map<int, (bool, S)>)>;
pub open spec fn has0(cx: CX, n: S) -> bool { cx.contains_key(n) && cx[n].contains_key(0) }
pub open spec fn inkeys(s: ES, n: S) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == n }
pub open spec fn inps(s: PS, n: S) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == n }
pub open spec fn same_at(m: Map<S, S>, o: Map<S, S>, n: S) -> bool { m.contains_key(n) == o.contains_key(n) && (m.contains_key(n) ==> m[n] == o[n]) }
pub open spec fn join_in(m: Map<S, S>, cx: CX, n: S) -> bool { match sp_join(cx[n]) { Some(v) => m.contains_key(n) && m[n] == v, None => false } }
// one name while the entries s are still to be joined
pub open spec fn pn(m: Map<S, S>, pl: Map<S, S>, cx: CX, s: ES, n: S) -> bool { if has0(cx, n) { inkeys(s, n) || join_in(m, cx, n) } else { same_at(m, pl, n) } }
#[verifier::opaque] pub open spec fn part(m: Map<S, S>, pl: Map<S, S>, cx: CX, s: ES) -> bool { forall|n: S| #[trigger] pn(m, pl, cx, s, n) }
#[verifier::opaque] pub open spec fn ents(s: ES, cx: CX) -> bool { forall|i: int| 0 <= i < s.len() ==> cx.contains_key(#[trigger] s[i].0) && cx[s[i].0] == s[i].1 }
pub proof fn sections_keys(ps: PS, out: CX, n: S) requires l_sections(ps, out).contains_key(n) ensures out.contains_key(n) || inps(ps, n) decreases ps.len()
{
    reveal(l_sections);
    if ps.len() > 0 {
        match psection(ps[0]) { Some(i) => { sections_keys(ps.skip(1), add_section(out, ps[0].0, i, (ps[0].2, ps[0].3)), n); } None => { sections_keys(ps.skip(1), out, n); } }
        if inps(ps.skip(1), n) { let j = choose|j: int| 0 <= j < ps.skip(1).len() && #[trigger] ps.skip(1)[j].0 == n; assert(ps[j + 1].0 == n); }
        else if !out.contains_key(n) { assert(ps[0].0 == n); }
    }
}
pub proof fn joined_none(ps: PS, cx: CX, out: Map<S, S>, n: S) requires has0(cx, n), inps(ps, n), sp_join(cx[n]) is None ensures l_joined(ps, cx, out) is None decreases ps.len()
{
    reveal(l_joined);
    if ps[0].0 != n {
        let j = choose|j: int| 0 <= j < ps.len() && #[trigger] ps[j].0 == n; assert(ps.skip(1)[j - 1].0 == n);
        if has0(cx, ps[0].0) { match sp_join(cx[ps[0].0]) { Some(v) => { joined_none(ps.skip(1), cx, out.insert(ps[0].0, v), n); } None => {} } } else { joined_none(ps.skip(1), cx, out, n); }
    }
}
pub open spec fn jn(ps: PS, cx: CX, out: Map<S, S>, m: Map<S, S>, n: S) -> bool { if has0(cx, n) && inps(ps, n) { join_in(m, cx, n) } else { same_at(m, out, n) } }
pub proof fn joined_some(ps: PS, cx: CX, out: Map<S, S>, m: Map<S, S>) requires forall|n: S| #[trigger] jn(ps, cx, out, m, n) ensures l_joined(ps, cx, out) == Some(m) decreases ps.len()
{
    reveal(l_joined);
    if ps.len() == 0 {
        assert forall|n: S| #[trigger] m.dom().contains(n) == out.dom().contains(n) by { assert(jn(ps, cx, out, m, n)); }
        assert forall|n: S| m.dom().contains(n) implies #[trigger] m[n] == out[n] by { assert(jn(ps, cx, out, m, n)); }
        assert(m.dom() =~= out.dom()); assert(m =~= out);
    } else {
        let n0 = ps[0].0; let t = ps.skip(1);
        assert(jn(ps, cx, out, m, n0));
        let o = if has0(cx, n0) { out.insert(n0, sp_join(cx[n0])->Some_0) } else { out };
        assert forall|n: S| #[trigger] jn(t, cx, o, m, n) by {
            assert(jn(ps, cx, out, m, n));
            if inps(t, n) { let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].0 == n; assert(ps[j + 1].0 == n); }
            if inps(ps, n) && n != n0 { let j = choose|j: int| 0 <= j < ps.len() && #[trigger] ps[j].0 == n; assert(t[j - 1].0 == n); }
        }
        joined_some(t, cx, o, m);
    }
}
pub proof fn collect_is(ps: PS) ensures
    ({ let cx = l_sections(ps, Map::empty()); let pl = l_plain(ps, Map::empty());
       &&& forall|n: S| #[trigger] has0(cx, n) && sp_join(cx[n]) is None ==> sp_collect(ps) is None
       &&& forall|m: Map<S, S>, s: ES| #[trigger] part(m, pl, cx, s) && s.len() == 0 ==> sp_collect(ps) == Some(m) })
{
    reveal(sp_collect);
    let cx = l_sections(ps, Map::empty()); let pl = l_plain(ps, Map::empty());
    assert forall|n: S| #[trigger] has0(cx, n) && sp_join(cx[n]) is None implies sp_collect(ps) is None by { sections_keys(ps, Map::empty(), n); joined_none(ps, cx, pl, n); }
    assert forall|m: Map<S, S>, s: ES| #[trigger] part(m, pl, cx, s) && s.len() == 0 implies sp_collect(ps) == Some(m) by {
        reveal(part);
        assert forall|n: S| #[trigger] jn(ps, cx, pl, m, n) by { assert(pn(m, pl, cx, s, n)); if has0(cx, n) { sections_keys(ps, Map::empty(), n); } }
        joined_some(ps, cx, pl, m);
    }
}
pub proof fn part_start(pl: Map<S, S>, cx: CX, s: ES) requires entries_of(s, cx) ensures part(pl, pl, cx, s), ents(s, cx)
{ reveal(part); reveal(ents); assert forall|n: S| #[trigger] pn(pl, pl, cx, s, n) by { if has0(cx, n) { assert(inkeys(s, n)); } } }
pub broadcast proof fn insert_twice<K, V>(m: Map<K, V>, k: K, a: V, b: V) ensures #[trigger] m.insert(k, a).insert(k, b) == m.insert(k, b) { assert(m.insert(k, a).insert(k, b) =~= m.insert(k, b)); }
pub proof fn plain_at(s: PS, out: Map<S, S>, cx: CX) ensures
    l_plain(s, out) == (if s.len() == 0 { out } else { match psection(s[0]) { Some(_i) => l_plain(s.skip(1), out), None => l_plain(s.skip(1), out.insert(s[0].0, s[0].3)) } }),
    l_sections(s, cx) == (if s.len() == 0 { cx } else { match psection(s[0]) { Some(i) => l_sections(s.skip(1), add_section(cx, s[0].0, i, (s[0].2, s[0].3))), None => l_sections(s.skip(1), cx) } }),
{ reveal(l_plain); reveal(l_sections); }
// the next entry
pub proof fn part_at(m: Map<S, S>, pl: Map<S, S>, cx: CX, s: ES) requires part(m, pl, cx, s), ents(s, cx) ensures s.len() > 0 ==> ({
    let n = s[0].0;
    &&& cx.contains_key(n) && cx[n] == s[0].1 && ents(s.skip(1), cx) && has0(cx, n) == s[0].1.contains_key(0)
    &&& !has0(cx, n) ==> part(m, pl, cx, s.skip(1))
    &&& has0(cx, n) ==> match sp_join(cx[n]) { Some(v) => part(m.insert(n, v), pl, cx, s.skip(1)), None => true } })
{
    if s.len() > 0 {
        reveal(part); reveal(ents);
        let n0 = s[0].0; let t = s.skip(1);
        assert(cx.contains_key(s[0].0));
        assert forall|i: int| 0 <= i < t.len() implies cx.contains_key(#[trigger] t[i].0) && cx[t[i].0] == t[i].1 by { assert(cx.contains_key(s[i + 1].0)); }
        let o = if has0(cx, n0) && sp_join(cx[n0]) is Some { m.insert(n0, sp_join(cx[n0])->Some_0) } else { m };
        if !(has0(cx, n0) && sp_join(cx[n0]) is None) {
            assert forall|n: S| #[trigger] pn(o, pl, cx, t, n) by {
                assert(pn(m, pl, cx, s, n));
                if inkeys(s, n) && n != n0 { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j].0 == n; assert(t[j - 1].0 == n); }
            }
        }
    }
}
// the sections not yet joined
#[verifier::opaque] pub open spec fn agree(v: Map<int, (bool, S)>, m: Map<int, (bool, S)>, i: int) -> bool { forall|k: int| k >= i ==> (#[trigger] v.contains_key(k) == m.contains_key(k)) && (v.contains_key(k) ==> v[k] == m[k]) }
pub proof fn agree_start(m: Map<int, (bool, S)>) ensures agree(m.remove(0), m, 1) { reveal(agree); }
pub proof fn join_at(v: Map<int, (bool, S)>, m: Map<int, (bool, S)>, c: Option<S>, i: int, acc: S) requires agree(v, m, i), 0 <= i <= 255 ensures
    agree(v.remove(i), m, i + 1),
    v.contains_key(i) ==> m.contains_key(i) && v[i] == m[i],
    l_join(m, c, i, acc) == (if v.contains_key(i) { match (if v[i].0 && c is Some { sp_decode_parameter(v[i].1, c->Some_0) } else { Some(v[i].1) }) { Some(x) => l_join(m, c, i + 1, acc + x), None => None } } else { Some(acc) }),
    l_join(m, c, 256, acc) == Some(acc),
    forall|x: S| #[trigger] l_join(m, c, 256, x) == Some(x),
{ reveal(agree); reveal(l_join); assert(v.contains_key(i) == m.contains_key(i)); }
pub broadcast proof fn ms_remove<K, V: Sv>(m: Map<K, V>, k: K) ensures #[trigger] ms(m.remove(k)) == ms(m).remove(k) { assert(ms(m.remove(k)) =~= ms(m).remove(k)); }
pub proof fn u8t(x: u8) {}
// ---- a list copied item by item ----
#[verifier::opaque] pub open spec fn l_cat<T>(rest: Seq<T>, acc: Seq<T>) -> Seq<T> { acc + rest }
pub broadcast proof fn cat_end<T>(rest: Seq<T>, acc: Seq<T>) requires rest.len() == 0 ensures #[trigger] l_cat(rest, acc) == acc { reveal(l_cat); assert(acc + rest =~= acc); }
pub broadcast proof fn cat_start<T>(rest: Seq<T>, acc: Seq<T>) requires acc.len() == 0 ensures #[trigger] l_cat(rest, acc) == rest { reveal(l_cat); assert(acc + rest =~= rest); }
pub broadcast proof fn cat_step<T>(rest: Seq<T>, acc: Seq<T>) requires rest.len() > 0 ensures #[trigger] l_cat(rest, acc) == l_cat(rest.skip(1), acc.push(rest[0])) { reveal(l_cat); assert(acc.push(rest[0]) + rest.skip(1) =~= acc + rest); }
pub broadcast group gcat { cat_end, cat_start, cat_step }
