// ---- MIME ----

enum VMime { Text, Image, Audio, Video, Application, Message, Multipart, Unknown(S) }
enum VEncoding { SevenBit, EightBit, Binary, QuotedPrintable, Base64, Unknown(S) }
enum VDispositionType { Inline, Attachment, Unknown(S) }
struct VContentType { mime_type: VMime, subtype: S, parameters: Map<S, S> }
struct VDisposition { disposition_type: VDispositionType, filename: Option<S>, creation_date: Option<VDateTime>, modification_date: Option<VDateTime>, read_date: Option<VDateTime>, unstructured: Map<S, S> }
struct VRawEntity { mime_type: VMime, subtype: S, description: Option<S>, id: Option<(S, S)>, parameters: Map<S, S>, disposition: Option<VDisposition>, value: S, additional_headers: Seq<(S, S)> }
enum VEntity { Multipart((S, Seq<VRawEntity>)), Text((S, S)), Unknown }

// ---- base64 (RFC 2045 6.8, RFC 4648) ----

spec fn b64_val(b: u8) -> int {
    if 65 <= b && b <= 90 { b as int - 65 } else if 97 <= b && b <= 122 { b as int - 71 } else if 48 <= b && b <= 57 { b as int + 4 } else if b == 43 { 62 } else { 63 }
}
spec fn b64_char(n: int) -> u8 {
    if n < 26 { (n + 65) as u8 } else if n < 52 { (n + 71) as u8 } else if n < 62 { (n - 4) as u8 } else if n == 62 { 43u8 } else { 47u8 }
}
inline fn b64_1(a: int, b: int) -> u8 { (a * 4 + b / 16) as u8 }
inline fn b64_2(b: int, c: int) -> u8 { ((b % 16) * 16 + c / 4) as u8 }
inline fn b64_3(c: int, d: int) -> u8 { ((c % 4) * 64 + d) as u8 }

// characters outside of the alphabet are ignored
inline fn b64_skip(s: S) -> S { s.skip(run(Cls::NotB64, s)) }
inline fn b64_skip_eq(s: S) -> S { s.skip(run(Cls::NotB64Eq, s)) }

spec fn l_b64(s: S, acc: S) -> Option<S> decreases s.len()
{
    let a = b64_skip(s);
    if a.len() == 0 || a.len() > s.len() { Some(acc) } else {
        let b = b64_skip(a.skip(1));
        if b.len() == 0 || b.len() >= a.len() { None } else {
            let c = b64_skip_eq(b.skip(1));
            if c.len() == 0 || c.len() >= b.len() { None } else {
                let d = b64_skip_eq(c.skip(1));
                if d.len() == 0 || d.len() >= c.len() { None }
                else if c[0] == 61 {
                    if d[0] != 61 { None } else { l_b64(d.skip(1), acc.push(b64_1(b64_val(a[0]), b64_val(b[0])))) }
                } else if d[0] == 61 {
                    l_b64(d.skip(1), acc.push(b64_1(b64_val(a[0]), b64_val(b[0]))).push(b64_2(b64_val(b[0]), b64_val(c[0]))))
                } else {
                    l_b64(d.skip(1), acc.push(b64_1(b64_val(a[0]), b64_val(b[0]))).push(b64_2(b64_val(b[0]), b64_val(c[0]))).push(b64_3(b64_val(c[0]), b64_val(d[0]))))
                }
            }
        }
    }
}
spec fn sp_decode_b64(s: S) -> Option<S> { l_b64(s, Seq::empty()) }

inline fn b64_quad(a: u8, b: u8, c: u8) -> S {
    Seq::empty().push(b64_char(a as int / 4)).push(b64_char((a as int % 4) * 16 + b as int / 16)).push(b64_char((b as int % 16) * 4 + c as int / 64)).push(b64_char(c as int % 64))
}
inline fn b64_pad1(a: u8, b: u8) -> S {
    Seq::empty().push(b64_char(a as int / 4)).push(b64_char((a as int % 4) * 16 + b as int / 16)).push(b64_char((b as int % 16) * 4)).push(61u8)
}
inline fn b64_pad2(a: u8) -> S {
    Seq::empty().push(b64_char(a as int / 4)).push(b64_char((a as int % 4) * 16)).push(61u8).push(61u8)
}
// n characters are on the current line
spec fn l_eb64(s: S, n: int, acc: S) -> S decreases s.len()
{
    if s.len() == 0 { acc } else {
        let o = if n >= 72 { acc + b"\r\n" } else { acc };
        let m = if n >= 72 { 0 } else { n };
        if s.len() == 1 { o + b64_pad2(s[0]) }
        else if s.len() == 2 { o + b64_pad1(s[0], s[1]) }
        else { l_eb64(s.skip(3), m + 4, o + b64_quad(s[0], s[1], s[2])) }
    }
}
spec fn sp_encode_b64(s: S) -> S { l_eb64(s, 0, Seq::empty()) }

// ---- quoted-printable (RFC 2045 6.7, RFC 2047 4.2) ----

inline fn is_hex(b: u8) -> bool { (48 <= b && b <= 57) || (65 <= b && b <= 70) || (97 <= b && b <= 102) }
spec fn hexval(b: u8) -> int { if b <= 57 { b as int - 48 } else if b <= 70 { b as int - 55 } else { b as int - 87 } }
spec fn hexchar(n: int) -> u8 { if n < 10 { (n + 48) as u8 } else { (n + 55) as u8 } }
inline fn at(s: S, i: int, b: int) -> bool { i < s.len() && s[i] as int == b }

spec fn l_qp(s: S, acc: S) -> S decreases s.len()
{
    if s.len() == 0 { acc }
    else if cls(Cls::QpLit, s[0]) || s[0] == 32 || s[0] == 9 { l_qp(s.skip(1), acc.push(s[0])) }
    else if s[0] == 61 {
        if at(s, 1, 13) && at(s, 2, 10) { l_qp(s.skip(3), acc) }
        else if s.len() > 2 {
            if is_hex(s[1]) && is_hex(s[2]) { l_qp(s.skip(3), acc.push((hexval(s[1]) * 16 + hexval(s[2])) as u8)) } else { l_qp(s.skip(3), acc.push(239u8).push(191u8).push(189u8)) }
        } else { l_qp(s.skip(1), acc.push(61u8)) }
    }
    else if s[0] == 13 && at(s, 1, 10) { l_qp(s.skip(2), acc.push(13u8).push(10u8)) }
    else { l_qp(s.skip(1), acc.push(239u8).push(191u8).push(189u8)) }
}
spec fn sp_decode_qp(s: S) -> S { l_qp(s, Seq::empty()) }

spec fn l_hqp(s: S, acc: S) -> S decreases s.len()
{
    if s.len() == 0 { acc }
    else if s[0] == 95 { l_hqp(s.skip(1), acc.push(32u8)) }
    else if s[0] == 61 {
        if at(s, 1, 13) && at(s, 2, 10) { l_hqp(s.skip(3), acc) }
        else if s.len() > 2 {
            if is_hex(s[1]) && is_hex(s[2]) { l_hqp(s.skip(3), acc.push((hexval(s[1]) * 16 + hexval(s[2])) as u8)) } else { l_hqp(s.skip(3), acc.push(239u8).push(191u8).push(189u8)) }
        } else { l_hqp(s.skip(1), acc.push(61u8)) }
    }
    else if 32 <= s[0] && s[0] <= 126 { l_hqp(s.skip(1), acc.push(s[0])) }
    else { l_hqp(s.skip(1), acc.push(239u8).push(191u8).push(189u8)) }
}
spec fn sp_decode_header_qp(s: S) -> S { l_hqp(s, Seq::empty()) }

spec fn l_eqp(s: S, n: int, acc: S) -> S decreases s.len()
{
    if s.len() == 0 { acc } else {
        let o = if n >= 72 { acc.push(61u8).push(13u8).push(10u8) } else { acc };
        let m = if n >= 72 { 0 } else { n };
        if cls(Cls::QpLit, s[0]) || ((s[0] == 9 || s[0] == 32) && s.len() > 1 && s[1] != 13) { l_eqp(s.skip(1), m + 1, o.push(s[0])) }
        else if s[0] == 13 && at(s, 1, 10) { l_eqp(s.skip(2), 0, o.push(13u8).push(10u8)) }
        else { l_eqp(s.skip(1), m + 3, o.push(61u8).push(hexchar(s[0] as int / 16)).push(hexchar(s[0] as int % 16))) }
    }
}
spec fn sp_encode_qp(s: S) -> S { l_eqp(s, 0, Seq::empty()) }

// ---- character sets ----

// the decoders of textcode; the number names the ISO 8859 part, 2312 and 6937 the other two
native fn tc(n: int, v: S) -> S;
// Unicode lower case
native fn ulower(s: S) -> S;

inline fn fix6937(b: u8) -> u8 { if 128 <= b && b <= 159 { 192u8 } else { b } }
spec fn l_fix6937(v: S) -> S decreases v.len() { if v.len() == 0 { v } else { l_fix6937(v.drop_last()).push(fix6937(v.last())) } }

// the number of a supported charset, by its name in lower case; 8 stands for UTF-8 (and ASCII)
spec fn charset_no(c: S) -> Option<int> {
    if c == b"utf-8" || c == b"us-ascii" { Some(8) }
    else if c == b"iso-8859-1" { Some(885901) }
    else if c == b"iso-8859-2" { Some(885902) }
    else if c == b"iso-8859-3" { Some(885903) }
    else if c == b"iso-8859-4" { Some(885904) }
    else if c == b"iso-8859-5" { Some(885905) }
    else if c == b"iso-8859-6" { Some(885906) }
    else if c == b"iso-8859-7" { Some(885907) }
    else if c == b"iso-8859-8" { Some(885908) }
    else if c == b"iso-8859-9" { Some(885909) }
    else if c == b"iso-8859-10" { Some(885910) }
    else if c == b"iso-8859-11" { Some(885911) }
    else if c == b"iso-8859-13" { Some(885913) }
    else if c == b"iso-8859-14" { Some(885914) }
    else if c == b"iso-8859-15" { Some(885915) }
    else if c == b"iso-8859-16" { Some(885916) }
    else if c == b"iso-6937" { Some(6937) }
    else if c == b"gb2312" { Some(2312) }
    else { None }
}

// the text of v in charset n, if it is valid
spec fn decode_text(n: int, v: S) -> Option<S> {
    if n == 8 { if valid_utf8(v) { Some(v) } else { None } } else if n == 6937 { Some(tc(6937, l_fix6937(v))) } else { Some(tc(n, v)) }
}

// ---- encoded words ----

spec fn sp_charset(s: S) -> Option<(S, S)> { let (r, v) <- sp_tw1(Cls::Charset, s); Some((r, lower_s(v))) }
spec fn sp_encoding(s: S) -> Option<(S, S)> { let (r, v) <- sp_tw1(Cls::Enc, s); Some((r, lower_s(v))) }
spec fn sp_encoded_text(s: S) -> Option<(S, S)> { sp_tw1(Cls::Etext, s) }

// after the charset: an optional language
inline fn skip_language(s: S) -> S {
    match sp_tag(s, b"*") { Some((a, _x)) => match sp_encoding(a) { Some((b, _l)) => b, None => s }, None => s }
}

inline fn word_bytes(e: S, d: S) -> Option<S> { if e == b"b" { sp_decode_b64(d) } else if e == b"q" { Some(sp_decode_header_qp(d)) } else { None } }

spec fn sp_encoded_word(s: S) -> Option<(S, S)> {
    let (a, _x) <- sp_tag(s, b"=?");
    let (b, c) <- sp_charset(a);
    let (f, _x) <- sp_tag(skip_language(b), b"?");
    let (g, e) <- sp_encoding(f);
    let (h, _x) <- sp_tag(g, b"?");
    let (i, d) <- sp_encoded_text(h);
    let (j, _x) <- sp_tag(i, b"?=");
    let v <- word_bytes(e, d);
    let n <- charset_no(c);
    let t <- decode_text(n, v);
    Some((j, t))
}

// e: the previous word was an encoded word
spec fn l_munstr(s: S, e: bool, acc: S) -> (S, S) decreases s.len()
{
    let (n, w) = ofws(s);
    match sp_encoded_word(n) {
        Some((r, t)) => if r.len() < s.len() { if e { l_munstr(r, true, acc + t) } else { l_munstr(r, true, acc + (w + t)) } } else { (s, acc) },
        None => match sp_tw1(Cls::Vchar, n) {
            Some((r, v)) => if r.len() < s.len() { l_munstr(r, false, acc + (w + v)) } else { (s, acc) },
            None => (s, acc),
        },
    }
}

spec fn sp_mime_unstructured(s: S) -> Option<(S, S)> {
    let a = l_munstr(s, false, Seq::empty());
    Some((l_wsp(a.0), a.1))
}

// ---- MIME header fields ----

spec fn sp_inline_cfws(s: S) -> Option<(S, ())> {
    let a = s.skip(run(Cls::Wsp, s));
    let b = match sp_comment(a) { Some((r, _x)) => r, None => a };
    Some((b.skip(run(Cls::Wsp, b)), ()))
}

spec fn sp_mtoken(s: S) -> Option<(S, S)> { sp_tw1(Cls::Token, s) }

spec fn l_u8(s: S, n: int) -> Option<(S, int)> decreases s.len()
{
    match sp_digit(s) { Some((r, d)) => if n * 10 + d > 255 || r.len() >= s.len() { None } else { l_u8(r, n * 10 + d) }, None => Some((s, n)) }
}
spec fn sp_u8_number(s: S) -> Option<(S, int)> { let (r, d) <- sp_digit(s); l_u8(r, d) }

spec fn sp_h_mime_version(s: S) -> Option<(S, (int, int))> {
    let (a, _x) <- sp_ci(s, b"MIME-Version:");
    let (b, m) <- sp_u8_number(ocfws(a));
    let (c, _x) <- sp_tag(b, b".");
    let (d, n) <- sp_u8_number(c);
    let (e, _x) <- sp_inline_cfws(d);
    line_end(e, (m, n))
}

// "name*index*=": name, index and encoding mark of a sectioned parameter
inline fn opt_index(s: S) -> Option<(S, Option<int>)> {
    match sp_tag(s, b"*") {
        Some((a, _x)) => match sp_tw1(Cls::Digit, a) { Some((b, d)) => if decval(d) > 255 { None } else { Some((b, Some(decval(d)))) }, None => Some((s, None)) },
        None => Some((s, None)),
    }
}
inline fn opt_star(s: S) -> (S, bool) { if at(s, 0, 42) { (s.skip(1), true) } else { (s, false) } }
spec fn sp_pname(s: S) -> Option<(S, (S, Option<int>, bool))> {
    let (a, n) <- sp_tw1(Cls::Pname, s);
    let (b, i) <- opt_index(a);
    let c = opt_star(b);
    if at(c.0, 0, 61) { Some((c.0, (n, i, c.1))) } else { None }
}
spec fn sp_pname_any(s: S) -> Option<(S, (S, Option<int>, bool))> {
    match sp_pname(s) { Some(x) => Some(x), None => { let (r, n) <- sp_mtoken(s); Some((r, (n, None, false))) } }
}
inline fn sp_pvalue(s: S) -> Option<(S, S)> { match sp_mtoken(s) { Some(x) => Some(x), None => sp_quoted_string(s) } }

spec fn sp_parameter(s: S) -> Option<(S, (S, Option<int>, bool, S))> {
    let (a, _x) <- sp_tag(ocfws(s), b";");
    let (b, n) <- sp_pname_any(ocfws(a));
    let (c, _x) <- sp_tag(b, b"=");
    let (d, v) <- sp_pvalue(c);
    Some((d, (lower_s(n.0), n.1, n.2, v)))
}

spec fn l_params(s: S, acc: Seq<(S, Option<int>, bool, S)>) -> (S, Seq<(S, Option<int>, bool, S)>) decreases s.len()
{
    match sp_parameter(s) { Some((r, v)) => if r.len() < s.len() { l_params(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

spec fn sp_mime_type(s: S) -> Option<(S, VMime)> {
    if ci(s, b"text") { Some((s.skip(4), VMime::Text)) }
    else if ci(s, b"multipart") { Some((s.skip(9), VMime::Multipart)) }
    else if ci(s, b"application") { Some((s.skip(11), VMime::Application)) }
    else if ci(s, b"image") { Some((s.skip(5), VMime::Image)) }
    else if ci(s, b"video") { Some((s.skip(5), VMime::Video)) }
    else if ci(s, b"audio") { Some((s.skip(5), VMime::Audio)) }
    else if ci(s, b"message") { Some((s.skip(7), VMime::Message)) }
    else { let (r, n) <- sp_mtoken(s); Some((r, VMime::Unknown(lower_s(n)))) }
}

spec fn sp_h_content_type(s: S) -> Option<(S, VContentType)> {
    let (a, _x) <- sp_ci(s, b"Content-Type:");
    let (b, t) <- sp_mime_type(ocfws(a));
    let (c, _x) <- sp_tag(b, b"/");
    let (d, u) <- sp_mtoken(c);
    let ps = l_params(d, Seq::empty());
    let m <- sp_collect(ps.1);
    let (e, _x) <- sp_inline_cfws(ps.0);
    line_end(e, VContentType { mime_type: t, subtype: lower_s(u), parameters: m })
}

spec fn sp_transfer_encoding(s: S) -> Option<(S, VEncoding)> {
    if ci(s, b"7bit") { Some((s.skip(4), VEncoding::SevenBit)) }
    else if ci(s, b"quoted-printable") { Some((s.skip(16), VEncoding::QuotedPrintable)) }
    else if ci(s, b"base64") { Some((s.skip(6), VEncoding::Base64)) }
    else if ci(s, b"8bit") { Some((s.skip(4), VEncoding::EightBit)) }
    else if ci(s, b"binary") { Some((s.skip(6), VEncoding::Binary)) }
    else { let (r, n) <- sp_mtoken(s); Some((r, VEncoding::Unknown(lower_s(n)))) }
}

spec fn sp_h_content_transfer_encoding(s: S) -> Option<(S, VEncoding)> {
    let (a, _x) <- sp_ci(s, b"Content-Transfer-Encoding:");
    let (b, t) <- sp_transfer_encoding(ocfws(a));
    let (c, _x) <- sp_inline_cfws(b);
    line_end(c, t)
}
spec fn sp_h_content_id(s: S) -> Option<(S, (S, S))> { let (a, _x) <- sp_ci(s, b"Content-ID:"); let (b, v) <- sp_message_id(a); line_end(b, v) }
spec fn sp_h_content_description(s: S) -> Option<(S, S)> { let (a, _x) <- sp_ci(s, b"Content-Description:"); let (b, v) <- sp_mime_unstructured(a); line_end(b, v) }

spec fn sp_disposition_type(s: S) -> Option<(S, VDispositionType)> {
    if ci(s, b"inline") { Some((s.skip(6), VDispositionType::Inline)) }
    else if ci(s, b"attachment") { Some((s.skip(10), VDispositionType::Attachment)) }
    else { let (r, n) <- sp_mtoken(s); Some((r, VDispositionType::Unknown(lower_s(n)))) }
}
spec fn sp_filename(s: S) -> Option<(S, S)> {
    let (a, _x) <- sp_tag(ocfws(s), b";");
    let (b, _x) <- sp_ci(ocfws(a), b"filename");
    let (c, _x) <- sp_tag(b, b"=");
    sp_pvalue(c)
}
spec fn sp_date_param(s: S, name: S) -> Option<(S, VDateTime)> {
    let (a, _x) <- sp_tag(ocfws(s), b";");
    let (b, _x) <- sp_ci(ocfws(a), name);
    let (c, _x) <- sp_tag(b, b"=\"");
    let (d, v) <- sp_date_time(c);
    let (e, _x) <- sp_tag(d, b"\"");
    Some((e, v))
}

struct VDispParams { filename: Option<S>, creation_date: Option<VDateTime>, modification_date: Option<VDateTime>, read_date: Option<VDateTime>, params: Seq<(S, Option<int>, bool, S)> }

spec fn l_disp(s: S, p: VDispParams) -> (S, VDispParams) decreases s.len()
{
    match sp_filename(s) { Some((r, v)) => if r.len() < s.len() { l_disp(r, VDispParams { filename: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_date_param(s, b"creation-date") { Some((r, v)) => if r.len() < s.len() { l_disp(r, VDispParams { creation_date: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_date_param(s, b"modification-date") { Some((r, v)) => if r.len() < s.len() { l_disp(r, VDispParams { modification_date: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_date_param(s, b"read-date") { Some((r, v)) => if r.len() < s.len() { l_disp(r, VDispParams { read_date: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_parameter(s) { Some((r, v)) => if r.len() < s.len() { l_disp(r, VDispParams { params: p.params.push(v), ..p }) } else { (s, p) }, None => (s, p) }}}}}
}

spec fn sp_h_content_disposition(s: S) -> Option<(S, VDisposition)> {
    let (a, _x) <- sp_ci(s, b"Content-Disposition:");
    let (b, t) <- sp_disposition_type(ocfws(a));
    let p = l_disp(b, VDispParams { filename: None, creation_date: None, modification_date: None, read_date: None, params: Seq::empty() });
    let m <- sp_collect(p.1.params);
    let (e, _x) <- sp_inline_cfws(p.0);
    line_end(e, VDisposition { disposition_type: t, filename: p.1.filename, creation_date: p.1.creation_date, modification_date: p.1.modification_date, read_date: p.1.read_date, unstructured: m })
}

// ---- parameter sections (RFC 2231) ----

// percent decoding, once, from left to right
spec fn l_percent(s: S, acc: S) -> S decreases s.len()
{
    if s.len() == 0 { acc }
    else if s[0] == 37 && s.len() > 2 && is_hex(s[1]) && is_hex(s[2]) { l_percent(s.skip(3), acc.push((hexval(s[1]) * 16 + hexval(s[2])) as u8)) }
    else { l_percent(s.skip(1), acc.push(s[0])) }
}

// an unknown charset leaves the text as it is
spec fn sp_decode_parameter(s: S, charset: S) -> Option<S> {
    match charset_no(charset) { Some(n) => decode_text(n, l_percent(s, Seq::empty())), None => Some(s) }
}

// the sections from index i on, up to the first missing one
spec fn l_join(m: Map<int, (bool, S)>, charset: Option<S>, i: int, acc: S) -> Option<S> decreases 256 - i
{
    if i <= 255 && m.contains_key(i) {
        let v = if m[i].0 { match charset { Some(c) => sp_decode_parameter(m[i].1, c), None => Some(m[i].1) } } else { Some(m[i].1) };
        match v { Some(x) => l_join(m, charset, i + 1, acc + x), None => None }
    } else { Some(acc) }
}

// an encoded section 0 starts with charset'language'
inline fn first_section(s: S) -> Option<(S, S)> {
    let (a, c) <- sp_tw(Cls::Ticks, s);
    let (b, _x) <- sp_tag(a, b"'");
    let (d, _l) <- sp_tw(Cls::Ticks, b);
    let (e, _x) <- sp_tag(d, b"'");
    Some((e, lower_s(c)))
}

spec fn sp_join(m: Map<int, (bool, S)>) -> Option<S> {
    if m[0].0 {
        let (v, c) <- first_section(m[0].1);
        let x <- sp_decode_parameter(v, c);
        l_join(m, Some(c), 1, x)
    } else { l_join(m, None, 1, m[0].1) }
}

inline fn psection(p: (S, Option<int>, bool, S)) -> Option<int> { match p.1 { Some(i) => Some(i), None => if p.2 { Some(0) } else { None } } }

// the last plain value of each name
spec fn l_plain(ps: Seq<(S, Option<int>, bool, S)>, out: Map<S, S>) -> Map<S, S> decreases ps.len()
{
    if ps.len() == 0 { out } else {
        match psection(ps[0]) { Some(_i) => l_plain(ps.skip(1), out), None => l_plain(ps.skip(1), out.insert(ps[0].0, ps[0].3)) }
    }
}
// the sections of each name
inline fn add_section(cx: Map<S, Map<int, (bool, S)>>, n: S, i: int, v: (bool, S)) -> Map<S, Map<int, (bool, S)>> {
    cx.insert(n, if cx.contains_key(n) { cx[n].insert(i, v) } else { Map::empty().insert(i, v) })
}
spec fn l_sections(ps: Seq<(S, Option<int>, bool, S)>, out: Map<S, Map<int, (bool, S)>>) -> Map<S, Map<int, (bool, S)>> decreases ps.len()
{
    if ps.len() == 0 { out } else {
        match psection(ps[0]) { Some(i) => l_sections(ps.skip(1), add_section(out, ps[0].0, i, (ps[0].2, ps[0].3))), None => l_sections(ps.skip(1), out) }
    }
}

// every sectioned parameter that has a section 0, joined, takes its place among the plain ones
spec fn l_joined(ps: Seq<(S, Option<int>, bool, S)>, cx: Map<S, Map<int, (bool, S)>>, out: Map<S, S>) -> Option<Map<S, S>> decreases ps.len()
{
    if ps.len() == 0 { Some(out) }
    else if cx.contains_key(ps[0].0) && cx[ps[0].0].contains_key(0) {
        match sp_join(cx[ps[0].0]) { Some(v) => l_joined(ps.skip(1), cx, out.insert(ps[0].0, v)), None => None }
    } else { l_joined(ps.skip(1), cx, out) }
}

spec fn sp_collect(ps: Seq<(S, Option<int>, bool, S)>) -> Option<Map<S, S>> { l_joined(ps, l_sections(ps, Map::empty()), l_plain(ps, Map::empty())) }

// ---- entities ----

spec fn sp_decode_value(v: S, e: VEncoding) -> Option<S> {
    match e {
        VEncoding::Base64 => sp_decode_b64(v),
        VEncoding::QuotedPrintable => Some(sp_decode_qp(v)),
        VEncoding::Unknown(_n) => None,
        _ => Some(v),
    }
}

inline fn default_type() -> VContentType { VContentType { mime_type: VMime::Text, subtype: b"plain", parameters: Map::empty().insert(b"charset", b"us-ascii") } }
inline fn the_type(h: VHeaders) -> VContentType { match h.content_type { Some(t) => t, None => default_type() } }
inline fn or_7bit(e: Option<VEncoding>) -> VEncoding { match e { Some(x) => x, None => VEncoding::SevenBit } }
inline fn body_value(h: VHeaders, body: Option<S>) -> Option<S> { match body { None => Some(Seq::empty()), Some(b) => sp_decode_value(b, or_7bit(h.content_transfer_encoding)) } }

struct VPart { encoding: Option<VEncoding>, content_type: Option<VContentType>, id: Option<(S, S)>, description: Option<S>, disposition: Option<VDisposition>, additional: Seq<(S, S)> }

spec fn l_part(s: S, p: VPart) -> (S, VPart) decreases s.len()
{
    match sp_h_content_transfer_encoding(s) { Some((r, v)) => if r.len() < s.len() { l_part(r, VPart { encoding: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_h_content_type(s) { Some((r, v)) => if r.len() < s.len() { l_part(r, VPart { content_type: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_h_content_id(s) { Some((r, v)) => if r.len() < s.len() { l_part(r, VPart { id: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_h_content_description(s) { Some((r, v)) => if r.len() < s.len() { l_part(r, VPart { description: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_h_content_disposition(s) { Some((r, v)) => if r.len() < s.len() { l_part(r, VPart { disposition: Some(v), ..p }) } else { (s, p) }, None =>
    match sp_h_unknown(s) { Some((r, v)) => if r.len() < s.len() { l_part(r, VPart { additional: p.additional.push(v), ..p }) } else { (s, p) }, None => (s, p) }}}}}}
}

// the headers of a part: what is left after them and the blank line, and their values
spec fn sp_part(s: S) -> Option<(S, VPart)> {
    let a = l_part(s, VPart { encoding: None, content_type: None, id: None, description: None, disposition: None, additional: Seq::empty() });
    if a.0.len() == 0 { Some(a) } else { let (r, _x) <- sp_tag(a.0, b"\r\n"); Some((r, a.1)) }
}

inline fn part_type(p: VPart) -> VContentType { match p.content_type { Some(t) => t, None => default_type() } }
inline fn part_entity(p: VPart, value: S) -> VRawEntity {
    VRawEntity { mime_type: part_type(p).mime_type, subtype: part_type(p).subtype, description: p.description, id: p.id, parameters: part_type(p).parameters,
        disposition: p.disposition, value: value, additional_headers: p.additional }
}
spec fn sp_raw_entity(s: S) -> Option<VRawEntity> {
    let (r, p) <- sp_part(s);
    // the body is what follows the header: the last r.len() bytes
    let v <- sp_decode_value(s.skip(s.len() - r.len()), or_7bit(p.encoding));
    Some(part_entity(p, v))
}

// ---- multipart ----

// the first occurrence of t in s
spec fn l_find(s: S, t: S) -> Option<int> decreases s.len()
{
    if s.len() == 0 { None } else if pfx(s, t) { Some(0) } else { match l_find(s.skip(1), t) { Some(k) => Some(k + 1), None => None } }
}
spec fn sp_boundary_at(s: S, b: S) -> Option<(int, int)> {
    let line = (b"--" + b) + b"\r\n";
    if pfx(s, line) { Some((0, line.len() as int)) } else { match l_find(s, b"\r\n" + line) { Some(k) => Some((k, line.len() as int + 2)), None => None } }
}
spec fn sp_closing_at(s: S, b: S) -> Option<(int, int)> {
    let line = (b"\r\n--" + b) + b"--\r\n";
    match l_find(s, line) { Some(k) => Some((k, line.len() as int)), None => None }
}
spec fn sp_before_boundary(s: S, b: S) -> Option<(S, S)> { let (k, n) <- sp_boundary_at(s, b); Some((s.skip(k + n), s.take(k))) }
spec fn sp_before_closing(s: S, b: S) -> Option<(S, S)> { let (k, n) <- sp_closing_at(s, b); Some((s.skip(k + n), s.take(k))) }

spec fn l_parts(s: S, b: S, acc: Seq<S>) -> (S, Seq<S>) decreases s.len()
{
    match sp_before_boundary(s, b) { Some((r, v)) => if r.len() < s.len() { l_parts(r, b, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}
spec fn l_entities(ps: Seq<S>, acc: Seq<VRawEntity>) -> Option<Seq<VRawEntity>> decreases ps.len()
{
    if ps.len() == 0 { Some(acc) } else { match sp_raw_entity(ps[0]) { Some(e) => l_entities(ps.skip(1), acc.push(e)), None => None } }
}
spec fn sp_multipart(s: S, parameters: Map<S, S>) -> Option<Seq<VRawEntity>> {
    if !parameters.contains_key(b"boundary") { None } else {
        let ps = l_parts(s, parameters[b"boundary"], Seq::empty());
        let (_r, last) <- sp_before_closing(ps.0, parameters[b"boundary"]);
        l_entities(ps.1.push(last).skip(1), Seq::empty())
    }
}

spec fn sp_entity(e: VRawEntity) -> Option<VEntity> {
    if e.mime_type == VMime::Multipart { let c <- sp_multipart(e.value, e.parameters); Some(VEntity::Multipart((e.subtype, c))) }
    else if e.mime_type == VMime::Text && e.parameters.contains_key(b"charset") {
        match charset_no(ulower(e.parameters[b"charset"])) {
            Some(n) => { let t <- decode_text(n, e.value); Some(VEntity::Text((e.subtype, t))) }
            None => Some(VEntity::Unknown),
        }
    } else { Some(VEntity::Unknown) }
}
