"""The oracle: the real code run against the same specification text, over generated and enumerated inputs.

It validates what the proof trusts (the lowering, the contracts of std functions), gives a concrete failing input when
a proof fails, and stands in, bounded, for functions that cannot be proved on a changed tree."""
import json, os, re, struct, subprocess, time, glob, shutil
from . import gen, spectext as st

ROOT = gen.ROOT
OD = os.path.join(ROOT, 'build', 'oracle')

LEX = [' ', '\r\n', '(', ')', '\\', '"', 'a', '.', '\x80']
ADDR = ['a', ' ', '@', '<', '>', ',', ':', ';', '"', '(b)', '.', '\r\n']
T = {}          # name -> (cfgs, gen, run, toks)


def P(name, path, spec, g, toks=(), cfgs=('default', 'all'), tail=True):
    T[name] = (cfgs, ('|r, o| { %s if r.p(35) { one(r, o, b"\\r,;a (@.>]\\"=") ; if r.p(50) { o.push(b\'\\n\') } } }' % g) if tail else '|r, o| { %s }' % g,
               'verdict(catch(|| h::%s(x).ok().map(|v| v.sv())), full, || %s(seq(x)))' % (path, spec), list(toks))


def X(name, g, body, toks=(), cfgs=('all',)):
    T[name] = (cfgs, '|r, o| { %s }' % g, body, list(toks))


def G(f):
    return f + '(r, o);'


P('fws', 'whitespaces::fws', 'sp_fws', G('fws'), [' ', '\t', '\r\n', '\r', '\n', 'a'])
P('ccontent', 'whitespaces::ccontent', 'sp_ccontent', 'if r.p(50) { qpair(r, o) } else { comment(r, o); if !o.is_empty() { o.remove(0); } }', LEX)
P('comment', 'whitespaces::comment', 'sp_comment', G('comment'), LEX)
P('cfws', 'whitespaces::cfws', 'sp_cfws', G('cfws'), LEX)
P('quoted_pair', 'quoted_string::quoted_pair', 'sp_quoted_pair', G('qpair'), ['\\', '\x00', '\t', '\n', '\r', ' ', '!', '"', 'a', '~', '\x7f', '\x80', '\xff'])
P('quoted_string', 'quoted_string::quoted_string', 'sp_quoted_string', G('qstring'), LEX)
P('atom', 'common::atom', 'sp_atom', G('atom'), LEX)
P('dot_atom_text', 'common::dot_atom_text', 'sp_dot_atom_text', G('dot_text'), ['a', '.', ' ', '@', '/', '9'])
P('dot_atom', 'common::dot_atom', 'sp_dot_atom', G('dot_atom'), LEX)
P('word', 'common::word', 'sp_word', G('word'), LEX)
P('phrase', 'common::phrase', 'sp_phrase', G('phrase'), LEX)
P('unstructured', 'common::unstructured', 'sp_unstructured', G('unstr'), ['a', ' ', '\t', '\r\n', '\x7f', '~'])
P('atext1', 'common::atom', 'sp_atom', 'o.push(b\'a\'); let c = r.n(256) as u8; o.push(c);', cfgs=('default',), tail=False)
P('mid', 'address::message_id', 'sp_message_id', G('msg_id'), ['<', '>', '@', 'a', '.', '[', ']', ' ', '(b)'])
P('addr_spec', 'address::addr_spec', 'sp_addr_spec', G('addr_spec'), ADDR)
P('angle_addr', 'address::angle_addr', 'sp_angle_addr', G('angle'), ADDR)
P('name_addr', 'address::name_addr', 'sp_name_addr', 'phrase(r, o); angle(r, o);', ADDR)
P('local_part', 'address::local_part', 'sp_local_part', G('local'), LEX)
P('domain', 'address::domain', 'sp_domain', G('domain'), ['a', '.', '[', ']', '1', ' ', '\\', '(c)'])
P('domain_literal', 'address::domain_literal', 'sp_domain_literal', G('dlit'), ['a', '[', ']', '1', ' ', '\\', '\r\n', '~', '\x7f'])
P('mailbox', 'address::mailbox', 'sp_mailbox', G('mailbox'), ADDR)
P('mailbox_list', 'address::mailbox_list', 'sp_mailbox_list', G('mailbox_list'), ADDR)
P('group', 'address::group', 'sp_group', G('group'), ADDR)
P('address', 'address::address', 'sp_address', G('address'), ADDR)
P('address_list', 'address::address_list', 'sp_address_list', G('address_list'), ADDR)
P('digit', 'character_sets::digit', 'sp_digit', 'let c = r.n(256) as u8; o.push(c);', ['0', '1', '5', '9', ':', '/'])
P('two_digits', 'character_sets::two_digits', 'sp_two_digits', 'num2(r, o, &[0, 9, 10, 50, 99]);', ['0', '1', '5', '9', ':', '/'])
P('day_name', 'time::day_name', 'sp_day_name', G('day_name'))
P('month', 'time::month', 'sp_month', G('month'))
P('day_of_week', 'time::day_of_week', 'sp_day_of_week', 'ofws(r, o); day_name(r, o); o.push(b\',\');')
P('year', 'time::year', 'sp_year', G('year'), [' ', '0', '1', '9', '2', '\r\n'])
P('day', 'time::day', 'sp_day', G('day'), [' ', '0', '1', '2', '3', '9', 'a'])
P('time_of_day', 'time::time_of_day', 'sp_time_of_day', G('tod'), ['0', '2', '4', '5', '6', ':'])
P('zone', 'time::zone', 'sp_zone', G('zone'), [' ', '+', '-', '0', '5', '6', '9'])
P('time', 'time::time', 'sp_time', 'tod(r, o); zone(r, o);')
P('date', 'time::date', 'sp_date', G('date'))
P('date_time', 'time::date_time', 'sp_date_time', G('date_time'))
HK = 'date from sender reply_to to cc bcc message_id in_reply_to references subject comments keywords unknown'.split()
for i, n in enumerate(HK):
    P('h_' + n, 'fields::' + n, 'sp_h_' + n, 'header_kind(r, o, %d, true);' % i)
for i, n in enumerate('date from sender to cc bcc message_id'.split()):
    P('r_' + n, 'fields::resent_' + n, 'sp_r_' + n, 'header_kind(r, o, %d, true);' % (22 + i))
P('return_path', 'fields::return_path', 'sp_h_return_path', 'header_kind(r, o, 20, true);')
P('received', 'fields::received', 'sp_h_received', 'header_kind(r, o, 21, true);')
P('trace', 'fields::trace', 'sp_trace', 'tracegen(r, o, true);')
P('fields', 'fields::fields', 'sp_fields', 'let f = r.p(40); headers(r, o, f);')
P('fields_trace', 'fields::fields', 'sp_fields', 'let f = r.p(30); tracegen(r, o, f); headers(r, o, false);')
P('fields_simple', 'fields::fields', 'sp_fields', 'headers(r, o, false);')
P('header_any', 'fields::fields', 'sp_fields', 'let f = r.p(20); let k = r.n(29); header_kind(r, o, k, f);')
P('line', 'message::line', 'sp_line', G('text_body'), ['a', '\r', '\n', '\x00', '\x7f', '\x80'])
P('check_line', 'message::check_line', 'sp_check_line', G('text_body'), ['a', '\r', '\n', '\x00', '\x7f', '\x80'])
P('body_lines', 'message::body_lines', 'sp_body_lines', 'if !r.bad(60) { o.extend_from_slice(b"\\r\\n"); } text_body(r, o);', ['a', '\r\n', '\r', '\n', '\x00'], tail=False)
P('body', 'message::body', 'sp_body', 'if !r.bad(60) { o.extend_from_slice(b"\\r\\n"); } text_body(r, o);', ['a', '\r\n', '\r', '\n', '\x00'], tail=False)
P('parse_message', 'message::parse_message', 'sp_parse_message', 'message(r, o, false);', tail=False)
X('email', 'let f = r.p(30); message(r, o, f);', 'verdict(catch(|| Email::parse(x).ok().map(|v| v.sv())), full, || sp_email(seq(x)))', cfgs=('default', 'all'))
X('email_simple', 'message(r, o, false);', 'verdict(catch(|| Email::parse(x).ok().map(|v| v.sv())), full, || sp_email(seq(x)))', cfgs=('default', 'all'))
X('email_fields', 'message(r, o, false);',
  '''let q = catch(|| (h::message::parse_message(x).ok().map(|v| v.sv()), Email::parse(x).ok().map(|v| v.sv())));
     let pm = match &q { Ok((a, _)) => *a, Err(_) => None };
     verdict(q.map(|v| v.1), full, || match pm { Some((f, b)) => match l_headers(f, no_headers()) { Some(hd) => make_email(hd, b), None => None }, None => None })''', cfgs=('default', 'all'))
X('body_email', 'o.extend_from_slice(b"From: a@b.c\\r\\nDate: 5 May 2003 18:58:34 +0000\\r\\n"); if r.p(30) { header_kind(r, o, 10, false) } if !r.bad(60) { o.extend_from_slice(b"\\r\\n"); } text_body(r, o);',
  'verdict(catch(|| Email::parse(x).ok().map(|v| v.sv())), full, || sp_email(seq(x)))', cfgs=('default', 'all'))

X('join', 'let k = 1 + r.n(30); for _ in 0..10 { let c = r.n(256) as u8; o.push(c) } for _ in 0..k { if r.p(85) { one(r, o, b"abcXYZ 019") } else { o.extend_from_slice("\\u{e9}\\u{20ac}".as_bytes()) } }',
  r'''if x.len() < 10 { return Out { accepted: false, bad: None } }
    let base = String::from_utf8_lossy(&x[10..]).into_owned(); let copy = base.clone(); let n = base.len();
    let cut = |c: u8| { let mut k = c as usize % (n + 1); while !base.is_char_boundary(k) { k -= 1 } k };
    let two = |p: u8, q: u8| { let (p, q) = (cut(p), cut(q)); (p.min(q), p.max(q)) };
    // the place of a piece relative to the text joined so far, which started at i and ended at j
    let place = |m: u8, i: usize, j: usize, p: u8, q: u8| { let (lo, hi) = two(p, q); match m % 8 { 0 | 1 | 2 => (j, hi.max(j)), 3 => (i, hi.max(i)), 4 => (lo.min(i), i), 5 => (hi.max(j), n), 6 => (lo, hi.max(j).max(lo)), _ => (lo, hi) } };
    let (i, j) = two(x[1], x[2]); let (p, q) = place(x[5], i, j, x[3], x[4]); let (u, v) = place(x[8], i, q, x[6], x[7]);
    let a: &str = &base[i..j]; let b: &str = if x[0] & 8 != 0 { &copy[p..q] } else { &base[p..q] }; let c: &str = &base[u..v];
    let three = x[0] & 64 != 0;
    let want = if three { [a.as_bytes(), b.as_bytes(), c.as_bytes()].concat() } else { [a.as_bytes(), b.as_bytes()].concat() };
    verdict(catch(|| { let mut s: Cow<str> = if x[0] & 1 != 0 { Cow::Owned(a.to_string()) } else { Cow::Borrowed(a) };
        if x[0] & 32 != 0 { h::string::add_str(&mut s, b) } else { h::string::add_string(&mut s, if x[0] & 2 != 0 { Cow::Owned(b.to_string()) } else { Cow::Borrowed(b) }) }
        if three { if x[9] & 1 != 0 { h::string::add_str(&mut s, c) } else { h::string::add_string(&mut s, if x[9] & 2 != 0 { Cow::Owned(c.to_string()) } else { Cow::Borrowed(c) }) } }
        Some((s.sv(), seq(a.as_bytes()), seq(b.as_bytes()))) }), full, || Some((seq(&want), seq(a.as_bytes()), seq(b.as_bytes()))))''', cfgs=('default', 'all'))

# MIME
M = ('all',)
X('b64_decode', 'let mut d = vec![]; if r.p(30) { let k = if r.p(60) { r.big() } else { r.n(500) }; for _ in 0..k { let b = r.n(256) as u8; d.push(b) } } else { raw8(r, &mut d) } b64_of(r, o, &d, true); if r.p(8) { let mut d = vec![]; raw8(r, &mut d); b64_of(r, o, &d, true) }',
  'verdict(catch(|| h::mime::decode_base64(x.to_vec()).ok().map(|v| seq(&v))), full, || sp_decode_b64(seq(x)))', ['A', 'b', '9', '+', '/', '=', '-', '\r\n'])
ANY = 'match r.n(6) { 0 => { let k = r.big(); for _ in 0..k { let b = r.n(256) as u8; o.push(b) } } 1 => { let k = r.n(80); for _ in 0..k { let b = r.n(256) as u8; o.push(b) } } 2 => text_body(r, o), 3 => { let k = r.n(700); let l = r.n(4); for _ in 0..k { let b = match l { 0 => r.n(256) as u8, 1 => r.n(4) as u8 * 85, _ => 97 + r.n(26) as u8 }; o.push(b) } } 4 => { let m = 1 + r.n(6); let q = *r.pick(&[&2usize, &10, &30]); for _ in 0..m { let k = r.n(160); for _ in 0..k { if r.p(q) { one(r, o, b"\\t =\\r\\n.~\\x7f\\x80\\xff") } else { let b = 97 + r.n(26) as u8; o.push(b) } } if r.p(70) { o.extend_from_slice(b"\\r\\n") } } } _ => raw8(r, o) }'
X('b64_encode', ANY, 'verdict(catch(|| Some(seq(&h::mime::encode_base64(x.to_vec())))), full, || Some(sp_encode_b64(seq(x))))', ['\x00', 'a', '\xff', '\x80'])
X('b64_round', ANY, r'''verdict(catch(|| { let e = h::mime::encode_base64(x.to_vec()); let long = e.split(|c| *c == b'\n').any(|l| l.len() > 77); h::mime::decode_base64(e).ok().map(|v| (seq(&v), long)) }), full, || Some((seq(x), false)))''')
QPT = ['=', 'A', '4', 'f', 'G', '\r\n', '\r', ' ', '\x80']
X('qp_decode', 'qp_text(r, o);', 'verdict(catch(|| Some(seq(&h::mime::decode_qp(x.to_vec())))), full, || Some(sp_decode_qp(seq(x))))', QPT)
X('hqp_decode', 'qp_text(r, o); if r.p(50) { o.push(b\'_\') }', 'verdict(catch(|| Some(seq(&h::mime::decode_header_qp(x.to_vec())))), full, || Some(sp_decode_header_qp(seq(x))))', QPT + ['_'])
X('qp_encode', ANY, 'verdict(catch(|| Some(seq(&h::mime::encode_qp(x.to_vec())))), full, || Some(sp_encode_qp(seq(x))))', ['\r', '\n', ' ', '\t', 'a', '=', '\xff'])
X('qp_round', ANY, r'''verdict(catch(|| { let e = h::mime::encode_qp(x.to_vec()); let long = e.split(|c| *c == b'\n').any(|l| l.len() > 77); Some((seq(&h::mime::decode_qp(e)), long)) }), full, || Some((seq(x), false)))''', ['\r', '\n', ' ', '\t', 'a', '=', '\xff'])
P('encoded_word', 'mime::encoded_word', 'sp_encoded_word', G('encoded_word'), cfgs=M)
P('mime_unstructured', 'common::mime_unstructured', 'sp_mime_unstructured', G('unstr'), ['=?utf-8?Q?a?=', '=?utf-8?b?Yg==?=', ' ', '\r\n', 'x', '=?', '?='], cfgs=M)
X('lowercase', 'token(r, o); if r.p(20) { o.extend_from_slice("\\u{c9}".as_bytes()) }', '''let s = String::from_utf8_lossy(x).into_owned(); if !s.is_ascii() { return Out { accepted: false, bad: None } }
    verdict(catch(|| Some((h::common::lowercase(Cow::Borrowed(&s)).sv(), h::common::lowercase(Cow::Owned(s.clone())).sv()))), full, || Some((lower_s(seq(s.as_bytes())), lower_s(seq(s.as_bytes())))))''')
X('decode_parameter', 'charset(r, o); if r.p(80) { let l = o.to_ascii_lowercase(); *o = l; } o.push(0); pct(r, o); if r.p(30) { raw8(r, o) }',
  '''let k = x.iter().position(|c| *c == 0).unwrap_or(x.len()); let c = String::from_utf8_lossy(&x[..k]).into_owned(); let v = &x[(k + 1).min(x.len())..];
     if std::str::from_utf8(v).is_err() { return Out { accepted: false, bad: None } }
     verdict(catch(|| h::mime::decode_parameter(v.to_vec(), Cow::Borrowed(&c)).ok().map(|v| v.sv())), full, || sp_decode_parameter(seq(v), seq(c.as_bytes())))''')
X('collect_parameters', 'params(r, o); if r.p(50) { sections(r, o) } if r.p(30) { sections(r, o) }',
  '''stage(2); let ps = l_params(seq(x), Seq::empty()).1;
     let f = |s: S| String::from_utf8(s.0.to_vec()).unwrap();
     let v: Vec<(Cow<str>, Option<u8>, bool, Cow<str>)> = ps.0.iter().map(|p| (Cow::Owned(f(p.0)), p.1.map(|i| i as u8), p.2, Cow::Owned(f(p.3)))).collect();
     verdict(catch(|| h::mime::collect_parameters(v).ok().map(|m| m.sv())), full, || sp_collect(ps))''')
for n, k in (('mime_version', 14), ('content_type', 15), ('content_transfer_encoding', 16), ('content_id', 17), ('content_description', 18), ('content_disposition', 19)):
    P(n, 'mime::' + n, 'sp_h_' + n, 'header_kind(r, o, %d, true);' % k, cfgs=M)
CT = 'let q = sp_h_content_type(seq(x)); match q { Some((r, v)) => Some((r, (v.mime_type, v.subtype, v.parameters))), None => None }'
P('ctype_params', 'mime::content_type', 'sp_h_content_type', 'casing(r, o, b"Content-Type:"); o.extend_from_slice(b"a/b"); params(r, o); if r.p(60) { sections(r, o) } o.extend_from_slice(b"\\r\\n");', cfgs=M)
P('cdisp_params', 'mime::content_disposition', 'sp_h_content_disposition', 'casing(r, o, b"Content-Disposition:"); o.extend_from_slice(b"attachment"); params(r, o); if r.p(60) { sections(r, o) } o.extend_from_slice(b"\\r\\n");', cfgs=M)
for n in ('content_type', 'ctype_params'):
    T[n] = (T[n][0], T[n][1], T[n][2].replace('sp_h_content_type(seq(x))', '{ ' + CT + ' }'), T[n][3])
X('decode_value', 'let k = r.n(12) as u8; o.push(k); entity_body(r, o);',
  '''if x.is_empty() { return Out { accepted: false, bad: None } } let v = &x[1..];
     let (e, s) = match x[0] % 6 { 0 => (ContentTransferEncoding::SevenBit, VEncoding::SevenBit), 1 => (ContentTransferEncoding::HeightBit, VEncoding::EightBit), 2 => (ContentTransferEncoding::Binary, VEncoding::Binary),
        3 => (ContentTransferEncoding::QuotedPrintable, VEncoding::QuotedPrintable), 4 => (ContentTransferEncoding::Base64, VEncoding::Base64), _ => (ContentTransferEncoding::Unknown(Cow::Borrowed("x")), VEncoding::Unknown(seq(b"x"))) };
     let c: Cow<[u8]> = if x[0] >= 6 { Cow::Owned(v.to_vec()) } else { Cow::Borrowed(v) };
     verdict(catch(|| h::mime::decode_value(c, e).ok().map(|v| v.sv())), full, || sp_decode_value(seq(v), s))''')
EN = 'let f = r.p(30); entity(r, o, f);'
X('raw_entity', EN, 'verdict(catch(|| h::mime::raw_entity(Cow::Borrowed(x)).ok().map(|v| v.sv())), full, || sp_raw_entity(seq(x)))')
X('raw_entity_owned', EN, 'verdict(catch(|| h::mime::raw_entity(Cow::Owned(x.to_vec())).ok().map(|v| v.sv())), full, || sp_raw_entity(seq(x)))')
X('entity', 'match r.n(6) { 0 => { let mut t = vec![]; multipart(r, &mut t); let k = t.iter().position(|c| *c == 0).unwrap(); o.extend_from_slice(b"Content-Type: multipart/mixed; boundary=\\""); let b = t[..k].to_vec(); o.extend_from_slice(&b); o.extend_from_slice(b"\\"\\r\\n\\r\\n"); o.extend_from_slice(&t[k + 1..]) } 1 => { entity(r, o, false) } _ => { o.extend_from_slice(b"Content-Type: text/"); token(r, o); o.extend_from_slice(b"; charset="); charset(r, o); o.extend_from_slice(b"\\r\\n\\r\\n"); raw8(r, o) } }',
  '''let q = catch(|| h::mime::raw_entity(Cow::Borrowed(x)).ok().map(|v| { let s = v.sv(); (s, v.parse().ok().map(|e| e.sv())) }));
     let s = match &q { Ok(Some((s, _))) => Some(*s), _ => None };
     verdict(q.map(|v| v.and_then(|v| v.1)), full, || s.and_then(|s| sp_entity(s)))''')
X('charsets', 'let t = r.p(70); charset(r, o); o.push(0); raw8(r, o); if t { let k = r.n(6); for _ in 0..k { let b = 128 + r.n(128) as u8; o.push(b) } }',
  '''let k = x.iter().position(|c| *c == 0).unwrap_or(x.len()); let c = String::from_utf8_lossy(&x[..k]).into_owned(); let v = &x[(k + 1).min(x.len())..];
     let mut p = HashMap::new(); p.insert(Cow::Borrowed("charset"), Cow::Owned(c));
     let e = RawEntity { mime_type: ContentType::Text, subtype: Cow::Borrowed("plain"), description: None, id: None, parameters: p, disposition: None, value: Cow::Borrowed(v), additional_headers: vec![] };
     verdict(catch(|| e.parse().ok().map(|e| e.sv())), full, || sp_entity(e.sv()))''')
X('composite', 'casing(r, o, b"Content-Type:"); mtype(r, o); o.extend_from_slice(b"/x\\r\\n");', '''let q = catch(|| h::mime::content_type(x).ok().map(|(_, v)| (v.0.sv(), v.0.is_composite_type())));
     let t = match &q { Ok(Some((t, _))) => Some(*t), _ => None };
     verdict(q.map(|v| v.map(|v| v.1)), full, || t.map(|t| t == VMime::Multipart || t == VMime::Message))''')
X('multipart', 'multipart(r, o);',
  '''let k = x.iter().position(|c| *c == 0); let mut p: HashMap<Cow<str>, Cow<str>> = HashMap::new(); p.insert(Cow::Borrowed("charset"), Cow::Borrowed("x"));
     let v = match k { Some(k) => { p.insert(Cow::Borrowed("boundary"), Cow::Owned(String::from_utf8_lossy(&x[..k]).into_owned())); &x[k + 1..] } None => x };
     let m = p.sv();
     verdict(catch(|| h::mime::parse_multipart(v, &p).ok().map(|v| v.sv())), full, || sp_multipart(seq(v), m))''',
  ['b', '\x00', '\r\n', '--b', '--', 'a', '\r\n\r\n'])
X('hostile', '''let k = *r.pick(&[&3000usize, &20000, &100000]); let d = r.n(10); o.extend_from_slice(match d { 0 | 1 => &b"From: a@b.c\\r\\nSubject: "[..], 2 => b"From: ", 3 => b"Date: ", 4 => b"To: a@b", 5 => b"Content-Type: text/plain; a=b", 6 => b"Message-ID: <a@b>", 7 => b"Received: a", 8 => b"Keywords: a", _ => b"MIME-Version: 1.0 " });
     let u: &[u8] = r.pick(&[&b"("[..], b"(a", b" (", b"()", b"(\\r\\n ", b"((", b"a,", b"<", b"\\"", b"a.", b" =?utf-8?Q?a?=", b" =?utf-8?B?", b";", b"; a*1=b", b"; a*0*=''%4", b"[", b"\\\\", b"\\r\\n ", b"=?", b"a:", b"-"]);
     if u[0] == b';' { for i in 0..k.min(700) { o.extend_from_slice(u); if i % 3 == 0 { o.extend_from_slice(format!("; x*{}=y", i / 3).as_bytes()) } } } else { for _ in 0..k / u.len().min(6) / (if u.len() > 1 { 8 } else { 1 }) { o.extend_from_slice(u) } }
     if r.p(50) && u[0] == b'(' { for _ in 0..k { o.push(b')') } } o.extend_from_slice(b"\\r\\nDate: 5 May 2003 18:58:34 +0000\\r\\n\\r\\nx");''',
  '''let y = x.to_vec(); let q = catch(|| std::thread::Builder::new().stack_size(2 << 20).spawn(move || { Email::parse(&y).is_ok() }).unwrap().join().map_err(|e| std::panic::resume_unwind(e)).unwrap_or(false));
     match q { Err(m) => Out { accepted: true, bad: Some(("panic", "no panic".into(), m)) }, Ok(v) => Out { accepted: v, bad: None } }''', cfgs=('default', 'all'))

ALLFN = [n for n in T]
GENERIC = dict(
    C03=['line', 'check_line', 'body', 'body_lines', 'parse_message', 'body_email'],
    C04=['email_fields', 'email_simple', 'fields_simple', 'parse_message'],
    C05=['header_any', 'fields_simple', 'email_simple'] + ['h_' + n for n in HK],
    C06=['fws', 'ccontent', 'comment', 'cfws', 'quoted_pair', 'quoted_string', 'atom', 'dot_atom_text', 'dot_atom', 'word', 'phrase', 'atext1'],
    C07=['addr_spec', 'angle_addr', 'name_addr', 'local_part', 'domain', 'domain_literal', 'mailbox', 'mailbox_list', 'group', 'address', 'address_list', 'h_from', 'h_sender', 'h_reply_to', 'h_to', 'h_cc', 'h_bcc'],
    C08=['digit', 'two_digits', 'day_name', 'month', 'day_of_week', 'year', 'day', 'time_of_day', 'zone', 'time', 'date', 'date_time', 'h_date', 'r_date'],
    C09=['mid', 'h_message_id', 'h_in_reply_to', 'h_references', 'r_message_id'],
    C10=['b64_decode', 'b64_encode', 'b64_round'],
    C11=['qp_decode', 'hqp_decode', 'qp_encode', 'qp_round'],
    C12=['encoded_word', 'mime_unstructured', 'phrase', 'h_subject', 'h_comments', 'h_unknown', 'content_description'],
    C13=['decode_parameter', 'collect_parameters', 'ctype_params', 'cdisp_params'],
    C14=['mime_version', 'content_type', 'content_transfer_encoding', 'content_id', 'content_description', 'content_disposition', 'lowercase', 'raw_entity', 'email_simple', 'composite'],
    C15=['multipart', 'entity'],
    C16=['decode_value', 'raw_entity', 'raw_entity_owned', 'email', 'multipart'],
    C17=['join', 'quoted_string', 'dot_atom_text', 'unstructured'],
    C18=['unstructured', 'h_subject', 'h_comments', 'h_unknown', 'email_simple'],
    C19=['return_path', 'received', 'trace', 'fields_trace'] + ['r_' + n for n in 'date from sender to cc bcc message_id'.split()],
    C20=['entity', 'charsets'],
)
ONLY = dict(C08=('default',), C18=('default',), C17=('default', 'all'))
GENERIC['C01'] = ALLFN
GENERIC['C02'] = [n for n in ALLFN if n != 'hostile']


def bstr(s):
    return '&[' + ', '.join('%d' % ord(c) for c in s) + ']'


def harvest():
    """byte and string literals and small integers of the source under test"""
    lits, nums = set(), set()
    for p in glob.glob(gen.SRC + '/**/*.rs', recursive=True):
        s = open(p, errors='replace').read()
        s = re.split(r'#\[cfg\(test\)\]', s)[0]
        s = re.sub(r'(?m)//.*$', '', s)
        for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', s):
            try:
                b = st.unescape(m.group(1))
            except Exception:
                continue
            if 0 < len(b) <= 40:
                lits.add(b)
        for m in re.finditer(r"b?'((?:[^'\\\n]|\\.[0-9a-fA-F]{0,2}))'", s):
            try:
                b = st.unescape(m.group(1))
            except Exception:
                continue
            lits.add(b)
        for m in re.finditer(r'\b(\d[\d_]*)(?:u8|usize|u32|i32)?\b', s):
            v = int(m.group(1).replace('_', ''))
            if 4 < v <= 1100:
                nums.add(v)
            if v < 256:
                lits.add(bytes([v]))
            lits.add(m.group(1).encode())
        for m in re.finditer(r'0x([0-9a-fA-F]{1,2})\b', s):
            lits.add(bytes([int(m.group(1), 16)]))
    return sorted(lits), sorted(nums)


def new_literals(lits, nums):
    """literals that the source did not have when the machinery was written: worth trying more often"""
    j = json.load(open(ROOT + '/oracle/literals.json'))
    return [b for b in lits if b.hex() not in j['lits']], [n for n in nums if n not in j['nums']]


def source(cfg, names):
    feats = set(gen.CONFIGS[cfg])
    mime = 'mime' in feats
    used = set([b''])
    cdir = ROOT + '/contracts/'
    raw = '\n'.join(open(cdir + n).read() for n in ['spec_core.vs', 'spec_msg.vs'] + (['spec_mime.vs'] if mime else []))
    spec = st.to_rust(raw, feats, used)
    views = st.to_rust('\n'.join(open(cdir + n).read() for n in ['views_core.vs'] + (['views_mime.vs'] if mime else [])), feats, used)
    o = open(ROOT + '/oracle/rt.rs').read()
    o += '#[path = "%s"] mod unused {}\n' % 'x' if False else ''
    o += 'use email_parser::prelude::*; use email_parser::address::*; use email_parser::time::*; use email_parser::verif_hooks as h; use email_parser::verif_hooks::fields::{Field, TraceField, ReceivedToken};\n'
    if mime:
        o += 'use email_parser::mime::*;\n'
    o += 'pub const MIME: bool = %s;\n' % ('true' if mime else 'false')
    classes = gen.load_classes()
    o += '#[derive(Clone, Copy, PartialEq, Debug)] pub enum Cls { ' + ', '.join(classes) + ' }\n'
    o += 'pub fn cls(c: Cls, b: u8) -> bool { match c {\n' + ''.join('Cls::%s => %s,\n' % (n, e) for n, e in classes.items()) + '} }\n'
    o += st.rust_lits(used)
    if mime:
        parts = [i for i in range(1, 17) if i != 12]
        o += 'pub fn ulower(s: S) -> S { seq(String::from_utf8_lossy(s.0).to_lowercase().as_bytes()) }\n'
        o += 'pub fn tc(n: int, v: S) -> S { let mut t = String::new(); match n {\n' + ''.join('%d => textcode::iso8859_%d::decode(v.0, &mut t),\n' % (885900 + i, i) for i in parts)
        o += '6937 => textcode::iso6937::decode(v.0, &mut t), _ => textcode::gb2312::decode(v.0, &mut t) }; seq(t.as_bytes()) }\n'
    o += spec + '\n' + views + '\n'
    o += '#[allow(dead_code)] pub mod g { use super::MIME;\n' + open(ROOT + '/oracle/gen.rs').read() + '\n}\nuse g::{R, B};\n'
    lits, nums = harvest()
    o += 'pub static LITS: &[&[u8]] = &[' + ', '.join('&[' + ', '.join(map(str, b)) + ']' for b in lits) + '];\n'
    nl, nn = new_literals(lits, nums)
    o += 'pub static NEWLITS: &[&[u8]] = &[' + ', '.join('&[' + ', '.join(map(str, b)) + ']' for b in nl) + '];\n'
    o += 'pub static NEWNUMS: &[usize] = &[' + ', '.join(map(str, nn)) + '];\n'
    o += 'pub static NUMS: &[usize] = &[' + ', '.join(map(str, nums)) + '];\n'
    lines = {}
    n = o.count('\n')
    for t in names:
        cfgs, g, run, toks = T[t]
        s = 'fn t_%s(x: &[u8], full: bool) -> Out { %s }\nfn g_%s(r: &mut R, o: &mut B) { #[allow(unused_imports)] use g::*; let f: fn(&mut R, &mut B) = %s; f(r, o) }\n' % (t, run, t, g)
        lines[t] = (n + 1, n + s.count('\n'))
        n += s.count('\n')
        o += s
    o += 'pub fn targets() -> Vec<Target> { vec![' + ', '.join('Target { name: "%s", gen: g_%s, run: t_%s, toks: &[%s] }' % (t, t, t, ', '.join(bstr(k) for k in T[t][3])) for t in names) + '] }\n'
    # functions that have got another name or place since
    try:
        al = gen.aliases(cfg)
    except RuntimeError:
        al = {}
    if al:
        path = lambda k: ('mime' if k.split('__')[0] in MIME_MODS else k.split('__')[0], k.split('__')[-1])
        new = {path(b): path(a) for a, b in al.items() if a.count('__') == 1 and b.count('__') == 1}
        o = re.sub(r'\bh::(\w+)::(\w+)\b', lambda m: 'h::%s::%s' % new.get((m.group(1), m.group(2)), (m.group(1), m.group(2))), o)
    o += open(ROOT + '/oracle/main.rs').read()
    return o, lines


MIME_MODS = ('base64', 'encoded_headers', 'entity', 'mime_fields', 'multipart', 'percent_encoding', 'quoted_printables')


def build(cfg):
    """returns (binary, targets, dropped) or raises"""
    names = [t for t in T if cfg in T[t][0]]
    d = os.path.join(OD, cfg)
    os.makedirs(d + '/src', exist_ok=True)
    feats = [] if cfg == 'default' else ['mime', 'content-disposition', 'unrecognized-headers', 'compatibility-fixes']
    dep = 'email-parser = { path = "%s/email-parser"%s }\n' % (gen.REPO, ', features = [%s]' % ', '.join('"%s"' % f for f in feats) if feats else '')
    tdep = 'textcode = "0.2"\n' if cfg != 'default' else ''
    toml = '[package]\nname = "oracle-%s"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\n%s%s[profile.dev]\nopt-level = 2\ndebug = 1\ndebug-assertions = true\noverflow-checks = true\nincremental = false\ncodegen-units = 16\n[profile.dev.package.email-parser]\ncodegen-units = 4\n[workspace]\n' % (cfg, dep, tdep)
    open(d + '/Cargo.toml', 'w').write(toml)
    lock = ROOT + '/oracle/Cargo.lock.' + cfg
    if os.path.exists(lock):
        shutil.copy(lock, d + '/Cargo.lock')
    dropped = []
    env = dict(os.environ, RUSTFLAGS='--cfg email_parser_verif', CARGO_TARGET_DIR=os.path.join(ROOT, 'build', 'target-cov-' + cfg), CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER=ROOT + '/oracle/wrap.sh')
    for attempt in range(4):
        src, lines = source(cfg, names)
        p = d + '/src/main.rs'
        if not os.path.exists(p) or open(p).read() != src:
            open(p, 'w').write(src)
        r = subprocess.run(['cargo', 'build', '--offline', '--message-format=json', '-q'], cwd=d, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return os.path.join(env['CARGO_TARGET_DIR'], 'debug', 'oracle-' + cfg), names, dropped
        bad = set()
        msgs = []
        for l in r.stdout.split('\n'):
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                msgs.append(m['message']['rendered'])
                for s in m['message']['spans']:
                    if s['file_name'].endswith('main.rs'):
                        for t, (a, b) in lines.items():
                            if a <= s['line_start'] <= b:
                                bad.add(t)
        if not bad:
            raise RuntimeError('oracle does not build: ' + ('\n'.join(msgs) or r.stderr)[-3000:])
        dropped += [(t, 'does not compile against this tree') for t in sorted(bad)]
        names = [t for t in names if t not in bad]
    raise RuntimeError('oracle does not build')


class Report:
    def __init__(self):
        self.evals = self.distinct = 0
        self.samples, self.exh, self.dropped, self.errors = [], [], [], []
        self.finding = None
        self.secs = 0
        self.targets = {}
    rule = 'an input counts when the code under test accepts it (returns a value); distinct by content and target'

    def join(self, o):
        o.evals += self.evals
        o.distinct += self.distinct
        o.samples = self.samples + o.samples
        o.exh = self.exh + o.exh
        o.dropped = o.dropped or self.dropped
        o.errors = self.errors + o.errors
        o.secs += self.secs
        return o

    def summary(self):
        return dict(evaluations=self.evals, distinct_accepted=self.distinct, exhaustive=self.exh, dropped_targets=self.dropped, errors=self.errors, seconds=round(self.secs, 1), targets=self.targets,
                    note='bounded: generated and enumerated inputs only; not counted as proof')


def fuzz(binary, cfg, names, mode, seed, secs, exlim, rep, shards=8):
    d = os.path.join(OD, 'cur')
    os.makedirs(d, exist_ok=True)
    ps = []
    for i in range(shards):
        cur = '%s/%s-%d' % (d, cfg, i)
        open(cur, 'wb').write(b'\0' * 16)
        ps.append((subprocess.Popen([binary, '--targets', ','.join(names), '--seed', str(seed), '--secs', str(secs), '--shard', str(i), '--shards', str(shards), '--mode', str(mode),
                                     '--exhaustive', str(exlim), '--cur', cur], stdout=subprocess.PIPE, stderr=subprocess.PIPE), cur))
    deadline = time.time() + secs + 60
    live = list(ps)
    found = None
    while live and time.time() < deadline and not found:
        time.sleep(0.05)
        for q in list(live):
            p, cur = q
            if p.poll() is None:
                continue
            live.remove(q)
            out, err = p.stdout.read().decode(errors='replace'), p.stderr.read().decode(errors='replace')
            if p.returncode == 0:
                for l in out.split('\n'):
                    if l.startswith('{'):
                        try:
                            j = json.loads(l)
                        except Exception as e:
                            rep.errors.append('unreadable report: ' + l[:300])
                            continue
                        if 'finding' in j:
                            found = j['finding']
                        elif 'done' in j:
                            x = j['done']
                            rep.evals += x['evals']
                            rep.distinct += x['distinct']
                            rep.samples += x.get('samples', [])[:2]
                            rep.exh += x.get('exhaustive', [])
            else:
                b = open(cur, 'rb').read()
                st_, ti = b[0], b[1]
                n = struct.unpack('<I', b[4:8])[0]
                x = b[8:8 + n]
                if st_ == 1:
                    kind = 'hang' if p.returncode == 3 else 'undefined-behaviour' if 'unsafe precondition' in err else 'crash'
                    f = dict(target=ti, kind=kind, input_hex=x.hex(), detail=(err[-500:] or 'signal %d' % -p.returncode), seed=seed)
                    if kind == 'hang' and mode == 2 or kind == 'crash' and mode == 2:
                        rep.errors.append('other: ' + kind)
                    else:
                        found = f
                else:
                    rep.errors.append('oracle process ended with %s in stage %d: %s' % (p.returncode, st_, err[-300:]))
    for p, cur in ps:
        if p.poll() is None:
            p.kill()
        p.wait()
        p.stdout.close()
        p.stderr.close()
    return found


def replay_one(binary, target, x, mode, hang=20):
    cur = os.path.join(OD, 'cur', 'replay')
    open(cur, 'wb').write(b'\0' * 16)
    try:
        p = subprocess.run([binary, '--replay', x.hex(), '--target', target, '--mode', str(mode), '--cur', cur, '--hang', str(hang)], capture_output=True, timeout=hang * 2 + 30)
    except OSError:
        return None
    if p.returncode == 0:
        try:
            j = json.loads(p.stdout.decode(errors='replace').strip().split('\n')[-1])
        except Exception:
            return None
        return (j['bad'], j.get('expected'), j.get('actual')) if j['bad'] else None
    err = p.stderr.decode(errors='replace')
    if open(cur, 'rb').read(1) != b'\x01':
        return None
    return ('hang' if p.returncode == 3 else 'undefined-behaviour' if 'unsafe precondition' in err else 'crash', 'a result', err[-500:] or 'signal')


def shrink(binary, target, x, mode, kind, budget=150):
    chunk = max(1, len(x) // 2)
    t0 = time.time()
    while chunk >= 1 and budget > 0 and time.time() - t0 < 60:
        i, ch = 0, False
        while i < len(x) and budget > 0 and time.time() - t0 < 60:
            c = x[:i] + x[i + chunk:]
            budget -= 1
            r = replay_one(binary, target, c, mode, hang=4)
            if r and r[0] == kind:
                x, ch = c, True
            else:
                i += chunk
        if not (ch and chunk == 1):
            chunk //= 2
    return x


MODULES = dict(combinators=['C06', 'C05'], character_sets=['C06', 'C08'], string=['C17'], whitespaces=['C06'], quoted_string=['C06'], common=['C06', 'C18', 'C12'], address=['C07', 'C09'], time=['C08'], fields=['C05', 'C19', 'C04'],
               message=['C03', 'C04'], Email=['C04', 'C16'], base64=['C10'], quoted_printables=['C11'], encoded_headers=['C12'], percent_encoding=['C13'], mime_fields=['C14', 'C13'], entity=['C16', 'C20'], mime=['C20'],
               RawEntity=['C20'], ContentType=['C14'], DispositionType=['C14'], Disposition=['C14'], ContentTransferEncoding=['C14'], multipart=['C15'])


def run(pid, tier, seed, hard, focus, cfgs=None):
    rep = Report()
    t0 = time.time()
    mode = {'C01': 1, 'C02': 2}.get(pid, 0)
    base = 14 if tier == 'quick' else 150
    if hard:
        base = max(base, 150)
    cs = [c for c in ('default', 'all') if c in ONLY.get(pid, ('default', 'all')) and any(c in T[t][0] for t in GENERIC[pid])]
    near = sorted(set(t for k in focus for p in MODULES.get(str(k).split('__')[0], []) for t in GENERIC[p] if t in GENERIC[pid]))
    # with a failed obligation: first the parsers around the function it belongs to
    phases = [(near, 0.5), (None, 0.5)] if hard and near and len(near) < len(GENERIC[pid]) else [(None, 1)]
    for which, share in phases:
        for cfg in cs:
            try:
                binary, names, dropped = build(cfg)
            except Exception as e:
                rep.errors.append(str(e)[-1500:])
                continue
            if dropped not in (rep.dropped, []):
                rep.dropped += [d for d in dropped if d not in rep.dropped]
            sel = [t for t in (which or GENERIC[pid]) if t in names]
            if not sel:
                continue
            rep.targets.setdefault(cfg, [])
            rep.targets[cfg] += [t for t in sel if t not in rep.targets[cfg]]
            f = fuzz(binary, cfg, sel, mode, seed, base * share / len(cs), (40000 if tier == 'quick' and not hard else 400000), rep)
            if f:
                if isinstance(f['target'], int):
                    t = names[f['target']]
                    x = bytes.fromhex(f['input_hex'])
                    r = replay_one(binary, t, x, mode)
                    if not r:
                        rep.errors.append('not reproducible: %s on %s' % (f['kind'], t))
                        continue
                    x = shrink(binary, t, x, mode, r[0])
                    f = dict(target=t, kind=r[0], input_hex=x.hex(), input=repr(x), expected=r[1], actual=r[2])
                f['config'] = cfg
                f['seed'] = seed
                rep.finding = f
                rep.secs = time.time() - t0
                return rep
    rep.secs = time.time() - t0
    return rep
