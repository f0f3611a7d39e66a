// fixes the type of an integer variable for the type checker
pub proof fn usz(x: usize) {}
// ---------------------------------------------------------------------------------------------
// Lemmas (all proved)
// ---------------------------------------------------------------------------------------------
pub proof fn opp_is(a: S, b: S) requires opp(a, b) ensures a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == swap8(a[i]) { opp_n(a, b, 0); }
pub proof fn opp_n(a: S, b: S, k: int) requires 0 <= k, a.len() == b.len(), opp_from(a, b, k) ensures forall|i: int| k <= i < a.len() ==> #[trigger] b[i] == swap8(a[i]) decreases a.len() - k
{ if k < a.len() { opp_n(a, b, k + 1); } }

// position i of a scan whose first i bytes are in the class
pub proof fn tw_at(c: Cls, s: S, i: int)
    ensures (0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> cls(c, s[j])) && (i < s.len() ==> !cls(c, s[i]))) ==> run(c, s) == i,
        (0 <= i <= s.len() && asc(c) && (forall|j: int| 0 <= j < i ==> cls(c, s[j]))) ==> valid_utf8(s.take(i)),
        (0 <= i < s.len() && hi(c) && valid_utf8(s) && !cls(c, s[i])) ==> valid_utf8(s.take(i)) && valid_utf8(s.skip(i)),
        valid_utf8(Seq::<u8>::empty()),
{
    if 0 <= i <= s.len() && (forall|j: int| 0 <= j < i ==> cls(c, s[j])) {
        if i < s.len() ==> !cls(c, s[i]) { run_is(c, s, i); }
        if asc(c) { assert forall|j: int| 0 <= j < i implies s.take(i)[j] < 128 by { asc_sound(c, s[j]); } ascii_valid_rec(s.take(i)); }
    }
    if 0 <= i < s.len() && hi(c) && valid_utf8(s) && !cls(c, s[i]) { if s[i] >= 128 { hi_sound(c, s[i]); } split_ascii(s, i); }
    ascii_valid_rec(Seq::<u8>::empty());
}
pub proof fn tw_all(c: Cls, s: S)
    ensures (forall|j: int| 0 <= j < s.len() ==> cls(c, s[j])) ==> run(c, s) == s.len() && (asc(c) ==> valid_utf8(s))
{ tw_at(c, s, s.len() as int); assert(s.take(s.len() as int) =~= s); }

// valid UTF-8 may be cut before an ASCII byte
pub proof fn split_ascii(s: S, i: int) requires valid_utf8(s), 0 <= i < s.len(), s[i] < 128 ensures valid_utf8(s.take(i)), valid_utf8(s.skip(i)) decreases s.len()
{
    let n = length_of_first_scalar(s);
    let x = s[i];
    assert(x < 128 ==> !is_continuation_byte(x)) by { assert(x < 128 ==> (x & 0xC0u8) != 0x80u8) by (bit_vector); }
    if i == 0 { assert(s.take(0) =~= Seq::<u8>::empty()); assert(s.skip(0) =~= s); ascii_valid_rec(s.take(0)); }
    else {
        assert(n <= i);
        let p = pop_first_scalar(s);
        assert(p[i - n] == s[i]);
        split_ascii(p, i - n);
        assert(p.skip(i - n) =~= s.skip(i));
        let t = s.take(i);
        assert(valid_first_scalar(t));
        assert(pop_first_scalar(t) =~= p.take(i - n));
    }
}

pub proof fn line_at(s: S, i: int) ensures (0 <= i <= s.len() && i <= 998 && (forall|j: int| 0 <= j < i ==> cls(Cls::Text, s[j])) && (i < s.len() && i < 998 ==> !cls(Cls::Text, s[i]))) ==> text_run(s, 998) == i
{ if (0 <= i <= s.len() && i <= 998 && (forall|j: int| 0 <= j < i ==> cls(Cls::Text, s[j])) && (i < s.len() && i < 998 ==> !cls(Cls::Text, s[i]))) { text_run_is(s, 998, i); } }
pub proof fn line_all(s: S) ensures 0 <= text_run(s, 998) <= s.len() { text_run_bound(s, 998); }
pub proof fn text_run_is(s: S, m: int, n: int) requires 0 <= n <= s.len(), n <= m, forall|j: int| 0 <= j < n ==> cls(Cls::Text, s[j]), (n < s.len() && n < m ==> !cls(Cls::Text, s[n])) ensures text_run(s, m) == n decreases s.len()
{ reveal(text_run); if n > 0 { assert forall|i: int| 0 <= i < n - 1 implies cls(Cls::Text, s.skip(1)[i]) by {} text_run_is(s.skip(1), m - 1, n - 1); } }
pub proof fn text_run_bound(s: S, m: int) ensures 0 <= text_run(s, m) <= s.len() decreases s.len()
{ reveal(text_run); if m > 0 && s.len() > 0 { text_run_bound(s.skip(1), m - 1); } }

pub broadcast proof fn pfx_idx(s: S, t: S) ensures #[trigger] pfx(s, t) == (s.len() >= t.len() && forall|i: int| 0 <= i < t.len() ==> s[i] == #[trigger] t[i])
{ if s.len() >= t.len() { if forall|i: int| 0 <= i < t.len() ==> s[i] == #[trigger] t[i] { assert(s.take(t.len() as int) =~= t); } else { let i = choose|i: int| 0 <= i < t.len() && s[i] != #[trigger] t[i]; assert(s.take(t.len() as int)[i] != t[i]); } } }
pub broadcast proof fn run_digits(s: S) ensures #![trigger s.take(run(Cls::Digit, s))] run(Cls::Digit, s) > 0 ==> alld(s.take(run(Cls::Digit, s)))
{ run_bound(Cls::Digit, s); }

// r is what remains of s after some ASCII bytes
#[verifier::opaque] pub open spec fn suf(s: S, r: S) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) && asc_s(s.take(s.len() - r.len())) }
pub broadcast proof fn suf_trans(a: S, b: S, c: S) requires #[trigger] suf(a, b), #[trigger] suf(b, c) ensures suf(a, c)
{ reveal(suf); reveal(asc_s); assert(a.skip(a.len() - c.len()) =~= c); let ac = a.take(a.len() - c.len());
  assert forall|i: int| 0 <= i < ac.len() implies ac[i] < 128 by { if i < a.len() - b.len() { assert(a.take(a.len() - b.len())[i] < 128); } else { assert(b.take(b.len() - c.len())[i - (a.len() - b.len())] < 128); } } }
pub broadcast proof fn suf_all(a: S, b: S, k: int) requires #[trigger] suf(a, b), b.len() == 0, 0 <= k <= a.len() ensures #[trigger] valid_utf8(a.skip(k))
{ reveal(suf); reveal(asc_s); let ak = a.skip(k); assert forall|i: int| 0 <= i < ak.len() implies ak[i] < 128 by { assert(a.take(a.len() - b.len())[i + k] < 128); } ascii_valid_rec(a.skip(k)); }
pub proof fn suf_tag(s: S, t: S) ensures (pfx(s, t) && asc_s(t)) ==> suf(s, s.skip(t.len() as int))
{ reveal(suf); if pfx(s, t) && asc_s(t) { assert(s.take(s.len() - s.skip(t.len() as int).len()) =~= t); } }
pub proof fn suf_cut(s: S, n: int) ensures (0 <= n <= s.len() && forall|i: int| 0 <= i < n ==> s[i] < 128) ==> suf(s, s.skip(n))
{ reveal(suf); reveal(asc_s); if (0 <= n <= s.len() && forall|i: int| 0 <= i < n ==> s[i] < 128) { assert(s.take(s.len() - s.skip(n).len()) =~= s.take(n)); } }

pub broadcast group gx2 { pfx_idx, skip_skip, ascii_valid, suf_trans, suf_all, clone_axiom, readable_axiom, adjacent_axiom, concat_valid, len0_empty }

// which header a text starts with: the header parsers exclude one another (their order in an alternative is unobservable)
pub broadcast proof fn ci_heads(s: S, t: S) ensures #[trigger] ci(s, t) ==> s.len() >= t.len() && (t.len() > 0 ==> lower(s[0]) == lower(t[0])) && (t.len() > 1 ==> lower(s[1]) == lower(t[1])) && (t.len() > 2 ==> lower(s[2]) == lower(t[2])) { ci_is(s, t); if ci(s, t) { if t.len() > 0 { assert(lower(s[0]) == lower(t[0])); } if t.len() > 1 { assert(lower(s[1]) == lower(t[1])); } if t.len() > 2 { assert(lower(s[2]) == lower(t[2])); } } }
pub broadcast proof fn hk_date(s: S) ensures (#[trigger] sp_h_date(s)) is Some ==> lower(s[0]) == 100 && lower(s[1]) == 97 && lower(s[2]) == 116 { reveal(sp_h_date); reveal(lower); let n = b"Date:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_from(s: S) ensures (#[trigger] sp_h_from(s)) is Some ==> lower(s[0]) == 102 && lower(s[1]) == 114 && lower(s[2]) == 111 { reveal(sp_h_from); reveal(lower); let n = b"From:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_sender(s: S) ensures (#[trigger] sp_h_sender(s)) is Some ==> lower(s[0]) == 115 && lower(s[1]) == 101 && lower(s[2]) == 110 { reveal(sp_h_sender); reveal(lower); let n = b"Sender:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_reply_to(s: S) ensures (#[trigger] sp_h_reply_to(s)) is Some ==> lower(s[0]) == 114 && lower(s[1]) == 101 && lower(s[2]) == 112 { reveal(sp_h_reply_to); reveal(lower); let n = b"Reply-To:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_to(s: S) ensures (#[trigger] sp_h_to(s)) is Some ==> lower(s[0]) == 116 && lower(s[1]) == 111 && lower(s[2]) == 58 { reveal(sp_h_to); reveal(lower); let n = b"To:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_cc(s: S) ensures (#[trigger] sp_h_cc(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 99 && lower(s[2]) == 58 { reveal(sp_h_cc); reveal(lower); let n = b"Cc:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_bcc(s: S) ensures (#[trigger] sp_h_bcc(s)) is Some ==> lower(s[0]) == 98 && lower(s[1]) == 99 && lower(s[2]) == 99 { reveal(sp_h_bcc); reveal(lower); let n = b"Bcc:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_message_id(s: S) ensures (#[trigger] sp_h_message_id(s)) is Some ==> lower(s[0]) == 109 && lower(s[1]) == 101 && lower(s[2]) == 115 { reveal(sp_h_message_id); reveal(lower); let n = b"Message-ID:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_in_reply_to(s: S) ensures (#[trigger] sp_h_in_reply_to(s)) is Some ==> lower(s[0]) == 105 && lower(s[1]) == 110 && lower(s[2]) == 45 { reveal(sp_h_in_reply_to); reveal(lower); let n = b"In-Reply-To:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_references(s: S) ensures (#[trigger] sp_h_references(s)) is Some ==> lower(s[0]) == 114 && lower(s[1]) == 101 && lower(s[2]) == 102 { reveal(sp_h_references); reveal(lower); let n = b"References:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_subject(s: S) ensures (#[trigger] sp_h_subject(s)) is Some ==> lower(s[0]) == 115 && lower(s[1]) == 117 && lower(s[2]) == 98 { reveal(sp_h_subject); reveal(lower); let n = b"Subject:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_comments(s: S) ensures (#[trigger] sp_h_comments(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 111 && lower(s[2]) == 109 { reveal(sp_h_comments); reveal(lower); let n = b"Comments:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_keywords(s: S) ensures (#[trigger] sp_h_keywords(s)) is Some ==> lower(s[0]) == 107 && lower(s[1]) == 101 && lower(s[2]) == 121 { reveal(sp_h_keywords); reveal(lower); let n = b"Keywords:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_r_date(s: S) ensures (#[trigger] sp_r_date(s)) is Some ==> lower(s.skip(7)[0]) == 100 && lower(s.skip(7)[1]) == 97 && lower(s.skip(7)[2]) == 116 { reveal(sp_r_date); hk_date(s.skip(7)); if sp_r_date(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
pub broadcast proof fn hk_r_from(s: S) ensures (#[trigger] sp_r_from(s)) is Some ==> lower(s.skip(7)[0]) == 102 && lower(s.skip(7)[1]) == 114 && lower(s.skip(7)[2]) == 111 { reveal(sp_r_from); hk_from(s.skip(7)); if sp_r_from(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
pub broadcast proof fn hk_r_sender(s: S) ensures (#[trigger] sp_r_sender(s)) is Some ==> lower(s.skip(7)[0]) == 115 && lower(s.skip(7)[1]) == 101 && lower(s.skip(7)[2]) == 110 { reveal(sp_r_sender); hk_sender(s.skip(7)); if sp_r_sender(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
pub broadcast proof fn hk_r_to(s: S) ensures (#[trigger] sp_r_to(s)) is Some ==> lower(s.skip(7)[0]) == 116 && lower(s.skip(7)[1]) == 111 && lower(s.skip(7)[2]) == 58 { reveal(sp_r_to); hk_to(s.skip(7)); if sp_r_to(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
pub broadcast proof fn hk_r_cc(s: S) ensures (#[trigger] sp_r_cc(s)) is Some ==> lower(s.skip(7)[0]) == 99 && lower(s.skip(7)[1]) == 99 && lower(s.skip(7)[2]) == 58 { reveal(sp_r_cc); hk_cc(s.skip(7)); if sp_r_cc(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
pub broadcast proof fn hk_r_bcc(s: S) ensures (#[trigger] sp_r_bcc(s)) is Some ==> lower(s.skip(7)[0]) == 98 && lower(s.skip(7)[1]) == 99 && lower(s.skip(7)[2]) == 99 { reveal(sp_r_bcc); hk_bcc(s.skip(7)); if sp_r_bcc(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
pub broadcast proof fn hk_r_message_id(s: S) ensures (#[trigger] sp_r_message_id(s)) is Some ==> lower(s.skip(7)[0]) == 109 && lower(s.skip(7)[1]) == 101 && lower(s.skip(7)[2]) == 115 { reveal(sp_r_message_id); hk_message_id(s.skip(7)); if sp_r_message_id(s) is Some { assert(ci(s, b"Resent-")); ci_is(s, b"Resent-"); assert(s.len() >= 7); } }
//@if mime
pub broadcast proof fn hk_mime_version(s: S) ensures (#[trigger] sp_h_mime_version(s)) is Some ==> lower(s[0]) == 109 && lower(s[1]) == 105 && lower(s[2]) == 109 { reveal(sp_h_mime_version); reveal(lower); let n = b"MIME-Version:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); } }
pub broadcast proof fn hk_content_type(s: S) ensures (#[trigger] sp_h_content_type(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 111 && lower(s[2]) == 110 && lower(s[8]) == 116 && lower(s[9]) == 121 { reveal(sp_h_content_type); reveal(lower); let n = b"Content-Type:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); assert(lower(s[8]) == lower(n[8])); assert(lower(s[9]) == lower(n[9])); } }
pub broadcast proof fn hk_content_transfer_encoding(s: S) ensures (#[trigger] sp_h_content_transfer_encoding(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 111 && lower(s[2]) == 110 && lower(s[8]) == 116 && lower(s[9]) == 114 { reveal(sp_h_content_transfer_encoding); reveal(lower); let n = b"Content-Transfer-Encoding:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); assert(lower(s[8]) == lower(n[8])); assert(lower(s[9]) == lower(n[9])); } }
pub broadcast proof fn hk_content_id(s: S) ensures (#[trigger] sp_h_content_id(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 111 && lower(s[2]) == 110 && lower(s[8]) == 105 && lower(s[9]) == 100 { reveal(sp_h_content_id); reveal(lower); let n = b"Content-ID:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); assert(lower(s[8]) == lower(n[8])); assert(lower(s[9]) == lower(n[9])); } }
pub broadcast proof fn hk_content_description(s: S) ensures (#[trigger] sp_h_content_description(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 111 && lower(s[2]) == 110 && lower(s[8]) == 100 && lower(s[9]) == 101 { reveal(sp_h_content_description); reveal(lower); let n = b"Content-Description:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); assert(lower(s[8]) == lower(n[8])); assert(lower(s[9]) == lower(n[9])); } }
pub broadcast proof fn hk_content_disposition(s: S) ensures (#[trigger] sp_h_content_disposition(s)) is Some ==> lower(s[0]) == 99 && lower(s[1]) == 111 && lower(s[2]) == 110 && lower(s[8]) == 100 && lower(s[9]) == 105 { reveal(sp_h_content_disposition); reveal(lower); let n = b"Content-Disposition:"; ci_is(s, n); if ci(s, n) { assert(lower(s[0]) == lower(n[0])); assert(lower(s[1]) == lower(n[1])); assert(lower(s[2]) == lower(n[2])); assert(lower(s[8]) == lower(n[8])); assert(lower(s[9]) == lower(n[9])); } }
pub broadcast group ghk { ci_heads, hk_date, hk_from, hk_sender, hk_reply_to, hk_to, hk_cc, hk_bcc, hk_message_id, hk_in_reply_to, hk_references, hk_subject, hk_comments, hk_keywords, hk_mime_version, hk_content_type, hk_content_transfer_encoding, hk_content_id, hk_content_description, hk_content_disposition, hk_r_date, hk_r_from, hk_r_sender, hk_r_to, hk_r_cc, hk_r_bcc, hk_r_message_id }
//@else
pub broadcast group ghk { ci_heads, hk_date, hk_from, hk_sender, hk_reply_to, hk_to, hk_cc, hk_bcc, hk_message_id, hk_in_reply_to, hk_references, hk_subject, hk_comments, hk_keywords, hk_r_date, hk_r_from, hk_r_sender, hk_r_to, hk_r_cc, hk_r_bcc, hk_r_message_id }
//@end
