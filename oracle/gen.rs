// Generators: grammar based, with boundary values, literals harvested from the source under test, and mutations.
#[derive(Clone)]
pub struct R { pub s: u64, pub lits: &'static [&'static [u8]], pub nums: &'static [usize], pub newlits: &'static [&'static [u8]], pub newnums: &'static [usize], pub clean: bool, pub depth: u32 }
pub type B = Vec<u8>;
impl R {
    pub fn u(&mut self) -> u64 { self.s ^= self.s << 13; self.s ^= self.s >> 7; self.s ^= self.s << 17; self.s.wrapping_mul(0x2545F4914F6CDD1D) >> 16 }
    pub fn n(&mut self, k: usize) -> usize { (self.u() % k.max(1) as u64) as usize }
    pub fn p(&mut self, pct: usize) -> bool { self.n(100) < pct }
    // "sloppy": a deviation from the grammar, never in clean mode
    pub fn bad(&mut self, permille: usize) -> bool { !self.clean && self.n(1000) < permille }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.n(v.len())] }
    pub fn count(&mut self) -> usize {
        match self.n(100) { 0..=29 => 1, 30..=49 => 0, 50..=69 => 2, 70..=84 => 3, 85..=92 => 4 + self.n(8), 93..=98 => self.n(30),
            _ => self.big() }
    }
    pub fn big(&mut self) -> usize {
        if self.p(20) { return self.n(600) }
        let v = if !self.newnums.is_empty() && self.p(35) { self.newnums[self.n(self.newnums.len())] } else if self.p(50) && !self.nums.is_empty() { self.nums[self.n(self.nums.len())] } else { *self.pick(&[&9usize, &10, &11, &16, &32, &64, &72, &73, &75, &76, &77, &78, &100, &127, &128, &254, &255, &256, &257, &300]) };
        (v + 1 + self.n(3)).saturating_sub(2).min(1100)
    }
    pub fn lit(&mut self, o: &mut B) { if !self.newlits.is_empty() && self.p(50) { let l = self.newlits[self.n(self.newlits.len())]; o.extend_from_slice(l) } else if !self.lits.is_empty() { let l = self.lits[self.n(self.lits.len())]; o.extend_from_slice(l) } }
}
pub fn one(r: &mut R, o: &mut B, cs: &[u8]) { let k = r.n(cs.len()); o.push(cs[k]) }
pub fn casing(r: &mut R, o: &mut B, s: &[u8]) {
    match r.n(5) { 0 | 1 => o.extend_from_slice(s), 2 => o.extend(s.iter().map(|c| c.to_ascii_uppercase())), 3 => o.extend(s.iter().map(|c| c.to_ascii_lowercase())),
        _ => for c in s { let x = if r.p(50) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }; o.push(x) } }
}
const ATEXT: &[u8] = b"abcxyzABCXYZ0189!#$%&'*+-/=?^_`{|}~";
const VCHAR: &[u8] = b"abcxyzABC019!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
pub const NASTY: &[u8] = b"\r\n\t \"\\()<>[]:;@,.=?*'%-_\0\x7f\x80\xc3\xa9\xff\xe2\x82\xac~}/`{az09AZ\x01\x1f\x20!#&+^|";

pub fn wsp(r: &mut R, o: &mut B) { let k = if r.p(80) { 1 } else { 1 + r.n(4) }; for _ in 0..k { one(r, o, b"  \t") } }
pub fn fws(r: &mut R, o: &mut B) {
    if r.bad(30) { o.extend_from_slice(r.pick(&[&b"\r\n"[..], b"\r\n\r\n ", b" \r\n", b"\n ", b"\r ", b"  \r\n\r\n", b" \r\n\r\n "])); return }
    match r.n(6) { 0 | 1 => wsp(r, o), 2 => { o.extend_from_slice(b"\r\n"); wsp(r, o) } 3 => { wsp(r, o); o.extend_from_slice(b"\r\n"); wsp(r, o) } _ => o.push(b' ') }
}
pub fn ofws(r: &mut R, o: &mut B) { if r.p(35) { fws(r, o) } }
pub fn qpair(r: &mut R, o: &mut B) { o.push(b'\\'); if r.bad(40) { one(r, o, NASTY) } else if r.p(20) { one(r, o, b" \t") } else if r.p(50) { one(r, o, b"\"\\()<>@,;:.") } else { one(r, o, VCHAR) } }
pub fn comment(r: &mut R, o: &mut B) {
    o.push(b'(');
    let k = r.n(4);
    for _ in 0..k { ofws(r, o);
        match r.n(7) { 0 | 1 | 2 => { let m = 1 + r.n(4); for _ in 0..m { one(r, o, b"abcZ09!\"#'*;:<>@[]^_~,.") } } 3 => qpair(r, o),
            4 | 5 => if r.depth < 4 { r.depth += 1; comment(r, o); r.depth -= 1 }, _ => {} } }
    ofws(r, o);
    if !r.bad(25) { o.push(b')') }
    if r.bad(10) { one(r, o, NASTY) }
}
pub fn cfws(r: &mut R, o: &mut B) { if r.p(45) { fws(r, o) } else { let k = 1 + r.n(3); for _ in 0..k { ofws(r, o); comment(r, o) } ofws(r, o) } }
pub fn ocfws(r: &mut R, o: &mut B) { if r.p(40) { cfws(r, o) } }
pub fn atext(r: &mut R, o: &mut B) {
    if r.bad(30) { r.lit(o); return }
    let k = if r.p(3) { r.big() } else { 1 + r.n(6) };
    for _ in 0..k { if r.bad(8) { one(r, o, NASTY) } else if r.p(70) { one(r, o, b"abcdeXYZ019") } else { one(r, o, ATEXT) } }
}
pub fn atom(r: &mut R, o: &mut B) { ocfws(r, o); atext(r, o); ocfws(r, o) }
pub fn qstring(r: &mut R, o: &mut B) {
    ocfws(r, o); o.push(b'"');
    let k = r.count().min(40);
    for _ in 0..k { ofws(r, o); match r.n(5) { 0 => qpair(r, o), 1 => { one(r, o, b"!#$@,;:()<>[]^`~"); } _ => { let m = 1 + r.n(4); for _ in 0..m { if r.bad(10) { one(r, o, NASTY) } else { one(r, o, b"abcXYZ 019-.") } } } } }
    ofws(r, o);
    if !r.bad(30) { o.push(b'"') }
    ocfws(r, o)
}
pub fn word(r: &mut R, o: &mut B) { if r.p(60) { atom(r, o) } else { qstring(r, o) } }
pub fn phrase(r: &mut R, o: &mut B) { let k = 1 + if r.p(60) { r.n(3) } else { 0 }; for i in 0..k { if i > 0 && r.p(70) { o.push(b' ') }
    if r.p(8) && MIME { ofws(r, o); encoded_word(r, o); if r.p(70) { o.push(b' ') } } else { word(r, o) } } }
pub fn dot_text(r: &mut R, o: &mut B) { atext(r, o); let k = r.count().min(20); for _ in 0..k { o.push(b'.'); if r.bad(40) { continue } atext(r, o) } if r.bad(30) { o.push(b'.') } }
pub fn dot_atom(r: &mut R, o: &mut B) { ocfws(r, o); dot_text(r, o); ocfws(r, o) }
pub fn local(r: &mut R, o: &mut B) { if r.p(75) { dot_atom(r, o) } else { qstring(r, o) } }
pub fn dlit(r: &mut R, o: &mut B) { ocfws(r, o); o.push(b'['); let k = r.n(4); for _ in 0..k { ofws(r, o); let m = 1 + r.n(5); for _ in 0..m { if r.bad(12) { one(r, o, NASTY) } else { one(r, o, b"0123456789.:abcIPv!~^<>@\"") } } } ofws(r, o); if !r.bad(30) { o.push(b']') } ocfws(r, o) }
pub fn domain(r: &mut R, o: &mut B) { if r.p(75) { dot_atom(r, o) } else { dlit(r, o) } }
pub fn addr_spec(r: &mut R, o: &mut B) { local(r, o); if !r.bad(20) { o.push(b'@') } domain(r, o) }
pub fn angle(r: &mut R, o: &mut B) { ocfws(r, o); o.push(b'<'); addr_spec(r, o); if !r.bad(20) { o.push(b'>') } ocfws(r, o) }
pub fn mailbox(r: &mut R, o: &mut B) { match r.n(4) { 0 => addr_spec(r, o), 1 => angle(r, o), _ => { phrase(r, o); angle(r, o) } } }
pub fn mailbox_list(r: &mut R, o: &mut B) { let k = 1 + if r.p(50) { r.n(4) } else { 0 }; for i in 0..k { if i > 0 { o.push(b','); if r.bad(30) { o.push(b',') } } mailbox(r, o) } if r.bad(30) { o.push(b',') } }
pub fn group(r: &mut R, o: &mut B) { phrase(r, o); o.push(b':'); match r.n(4) { 0 => {} 1 => cfws(r, o), _ => mailbox_list(r, o) } if !r.bad(30) { o.push(b';') } ocfws(r, o) }
pub fn address(r: &mut R, o: &mut B) { if r.p(70) { mailbox(r, o) } else { group(r, o) } }
pub fn address_list(r: &mut R, o: &mut B) { let k = 1 + if r.p(50) { r.n(4) } else { 0 }; for i in 0..k { if i > 0 { o.push(b',') } address(r, o) } if r.bad(30) { o.push(b',') } }
pub fn msg_id(r: &mut R, o: &mut B) { ocfws(r, o); o.push(b'<'); dot_text(r, o); if !r.bad(20) { o.push(b'@') } if r.p(75) { dot_text(r, o) } else { o.push(b'['); let k = r.n(8); for _ in 0..k { if r.bad(20) { one(r, o, NASTY) } else { one(r, o, b"0123456789.:abc!~^<>@") } } if !r.bad(30) { o.push(b']') } } if !r.bad(20) { o.push(b'>') } ocfws(r, o) }
pub fn msg_ids(r: &mut R, o: &mut B) { let k = r.count().max(1).min(12); for _ in 0..k { msg_id(r, o) } }

pub fn num2(r: &mut R, o: &mut B, nice: &[usize]) { let v = if r.p(75) { nice[r.n(nice.len())] } else { r.n(100) };
    if r.bad(20) { o.extend_from_slice(format!("{}", v).as_bytes()) } else { o.extend_from_slice(format!("{:02}", v).as_bytes()) } }
pub fn day_name(r: &mut R, o: &mut B) { let d = r.pick(&[&b"Mon"[..], b"Tue", b"Wed", b"Thu", b"Fri", b"Sat", b"Sun"]); casing(r, o, d); if r.bad(20) { o.pop(); } if r.bad(20) { one(r, o, NASTY) } }
pub fn month(r: &mut R, o: &mut B) { let d = r.pick(&[&b"Jan"[..], b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"]); casing(r, o, d); if r.bad(20) { o.pop(); } if r.bad(20) { one(r, o, NASTY) } }
pub fn year(r: &mut R, o: &mut B) { if !r.bad(30) { fws(r, o) }
    let y = r.pick(&[&b"1989"[..], b"1990", b"1991", b"1999", b"2000", b"2024", b"2100", b"9999", b"10000", b"65535", b"65536", b"4294967296", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999", b"0", b"90", b"03", b"199", b"02003", b"00000000000000000000002003", b"1234", b"0000"]);
    if r.clean && r.p(80) { o.extend_from_slice(b"2003") } else if r.p(75) { o.extend_from_slice(y) } else { let k = 1 + r.n(22); for _ in 0..k { one(r, o, b"0123456789") } }
    if !r.bad(30) { fws(r, o) } }
pub fn day(r: &mut R, o: &mut B) { ofws(r, o); if r.p(30) { one(r, o, b"0123456789") } else { num2(r, o, &[0, 1, 5, 9, 10, 12, 19, 20, 28, 29, 30, 31, 32]) } if !r.bad(20) { fws(r, o) } }
pub fn tod(r: &mut R, o: &mut B) { num2(r, o, &[0, 1, 9, 12, 19, 20, 22, 23, 24]); if !r.bad(15) { o.push(b':') } num2(r, o, &[0, 1, 30, 58, 59, 60]); if r.p(65) { o.push(b':'); if r.bad(40) { one(r, o, b"0123456789") } else { num2(r, o, &[0, 1, 30, 59, 60, 61]) } } if r.bad(20) { o.push(b':') } }
pub fn zone(r: &mut R, o: &mut B) { if !r.bad(20) { fws(r, o) } if r.bad(30) { o.extend_from_slice(r.pick(&[&b"GMT"[..], b"Z", b"EST", b"UT"])); return } one(r, o, b"+-"); num2(r, o, &[0, 1, 5, 9, 12, 13, 14, 23, 24, 99]); num2(r, o, &[0, 15, 30, 45, 59, 60, 99]) }
pub fn date(r: &mut R, o: &mut B) { day(r, o); month(r, o); year(r, o) }
pub fn date_time(r: &mut R, o: &mut B) { if r.p(50) { ofws(r, o); day_name(r, o); if !r.bad(30) { o.push(b',') } } date(r, o); tod(r, o); zone(r, o); ocfws(r, o) }
pub fn good_date(r: &mut R, o: &mut B) { let c = r.clean; r.clean = true; if r.p(60) { o.extend_from_slice(b"5 May 2003 18:58:34 +0000") } else { o.extend_from_slice(r.pick(&[&b"Mon, 5 May 2003 18:58:34 +0000"[..], b"31 Dec 1999 23:59:60 -0130", b" 1 Jan 2020 00:00 +0200 (x)", b"tue, 09 feb 2021 01:02:03 -1200"])) } r.clean = c }

pub fn unstr(r: &mut R, o: &mut B) {
    let k = r.count().min(60);
    for _ in 0..k { ofws(r, o);
        if r.p(10) && MIME { encoded_word(r, o); if r.p(60) { fws(r, o); if r.p(80) { encoded_word(r, o) } } continue }
        if r.bad(15) { r.lit(o) }
        let m = 1 + r.n(6); for _ in 0..m { if r.bad(8) { one(r, o, NASTY) } else { one(r, o, VCHAR) } } }
    if r.p(25) { wsp(r, o) } if r.bad(20) { fws(r, o) }
}
pub fn crlf(r: &mut R, o: &mut B) { if r.bad(25) { o.extend_from_slice(r.pick(&[&b"\n"[..], b"\r", b"", b" \r\n", b"\r\n "])) } else { o.extend_from_slice(b"\r\n") } }
pub fn keywords(r: &mut R, o: &mut B) { let k = 1 + r.n(4); for i in 0..k { if i > 0 { o.push(b',') } phrase(r, o) } if r.bad(20) { o.push(b',') } }
pub fn token(r: &mut R, o: &mut B) { if r.bad(15) { r.lit(o); return } let k = if r.p(2) { r.big() } else { 1 + r.n(7) }; for _ in 0..k { if r.bad(10) { one(r, o, NASTY) } else if r.p(75) { one(r, o, b"abcdXYZ0189-") } else { one(r, o, b"!#$%&'*+-.^_`{|}~AZaz09") } } }
pub fn fname(r: &mut R, o: &mut B) { let k = 1 + r.n(6); for _ in 0..k { if r.bad(10) { one(r, o, NASTY) } else { one(r, o, b"abXY-019!\"#$~;,().") } } }

// one header; kind selects which; complex: whether the value uses the full grammar
pub fn header_kind(r: &mut R, o: &mut B, k: usize, full: bool) {
    macro_rules! h { ($n:expr, $v:expr) => {{ casing(r, o, $n); if r.bad(15) { one(r, o, b" \t") } o.push(b':'); if r.p(70) { o.push(b' ') } $v; crlf(r, o) }} }
    let v = full;
    match k {
        0 => h!(b"Date", if v { date_time(r, o) } else { good_date(r, o) }),
        1 => h!(b"From", if v { mailbox_list(r, o) } else { simple_mailboxes(r, o) }),
        2 => h!(b"Sender", if v { mailbox(r, o) } else { simple_mailbox(r, o) }),
        3 => h!(b"Reply-To", if v { address_list(r, o) } else { simple_addresses(r, o) }),
        4 => h!(b"To", if v { address_list(r, o) } else { simple_addresses(r, o) }),
        5 => h!(b"Cc", if v { address_list(r, o) } else { simple_addresses(r, o) }),
        6 => h!(b"Bcc", if r.p(30) { cfws(r, o) } else if v { address_list(r, o) } else { simple_addresses(r, o) }),
        7 => h!(b"Message-ID", if v { msg_id(r, o) } else { simple_id(r, o) }),
        8 => h!(b"In-Reply-To", if v { msg_ids(r, o) } else { simple_id(r, o); if r.p(50) { simple_id(r, o) } }),
        9 => h!(b"References", if v { msg_ids(r, o) } else { simple_id(r, o); if r.p(50) { simple_id(r, o) } }),
        10 => h!(b"Subject", if v { unstr(r, o) } else { simple_text(r, o) }),
        11 => h!(b"Comments", if v { unstr(r, o) } else { simple_text(r, o) }),
        12 => h!(b"Keywords", if v { keywords(r, o) } else { simple_text(r, o) }),
        13 => { fname(r, o); o.push(b':'); if v { unstr(r, o) } else { simple_text(r, o) } crlf(r, o) }
        14 => h!(b"MIME-Version", if v { mime_version(r, o) } else { o.extend_from_slice(r.pick(&[&b"1.0"[..], b"2.17", b"1.0 (x)"])) }),
        15 => h!(b"Content-Type", if v { ctype(r, o) } else { simple_type(r, o) }),
        16 => h!(b"Content-Transfer-Encoding", if v { cte(r, o) } else { o.extend_from_slice(r.pick(&[&b"7bit"[..], b"8bit", b"binary", b"7BIT"])) }),
        17 => h!(b"Content-ID", if v { msg_id(r, o) } else { simple_id(r, o) }),
        18 => h!(b"Content-Description", if v { unstr(r, o) } else { simple_text(r, o) }),
        19 => h!(b"Content-Disposition", if v { cdisp(r, o) } else { o.extend_from_slice(r.pick(&[&b"inline"[..], b"attachment", b"attachment; filename=a.txt", b"x; a=b"])) }),
        20 => h!(b"Return-Path", match r.n(4) { 0 => o.extend_from_slice(b"<>"), 1 => { ocfws(r, o); o.push(b'<'); ocfws(r, o); o.push(b'>'); ocfws(r, o) } _ => if v { angle(r, o) } else { o.extend_from_slice(b"<a@b.c>") } }),
        21 => h!(b"Received", { if v { let k = r.count().min(10); for _ in 0..k { rtoken(r, o); if r.p(50) { o.push(b' ') } } } else { let k = r.n(5); for _ in 0..k { o.push(b' '); o.extend_from_slice(r.pick(&[&b"from"[..], b"by", b"x.y.z", b"<a@b.c>", b"with", b"[1.2.3.4]", b"a@b.c", b"\"q s\""])) } } if !r.bad(20) { o.push(b';') } if v { date_time(r, o) } else { o.push(b' '); good_date(r, o) } }),
        22..=28 => { casing(r, o, b"Resent-"); header_kind(r, o, [0, 1, 2, 4, 5, 6, 7][k - 22], full) }
        _ => {}
    }
}
pub fn rtoken(r: &mut R, o: &mut B) { match r.n(6) { 0 | 1 => word(r, o), 2 => domain(r, o), 3 => angle(r, o), 4 => addr_spec(r, o), _ => dot_atom(r, o) } }
pub fn simple_mailbox(r: &mut R, o: &mut B) { o.extend_from_slice(r.pick(&[&b"a@b.c"[..], b"<x@y.z>", b"Joe <joe@d.e>", b"\"J. D\" <jd@[1.2]>", b" Bob Q <b@q>(c)"])) }
pub fn simple_mailboxes(r: &mut R, o: &mut B) { simple_mailbox(r, o); let k = if r.p(40) { r.n(3) } else { 0 }; for _ in 0..k { o.push(b','); simple_mailbox(r, o) } }
pub fn simple_addresses(r: &mut R, o: &mut B) { let k = 1 + r.n(2); for i in 0..k { if i > 0 { o.push(b',') } if r.p(25) { o.extend_from_slice(r.pick(&[&b"grp:;"[..], b"g: a@b.c;", b"g h: a@b,c@d;"])) } else { simple_mailbox(r, o) } } }
pub fn simple_id(r: &mut R, o: &mut B) { o.extend_from_slice(r.pick(&[&b"<a@b>"[..], b" <x.y@z.t>", b"<1@[2]> ", b"(c)<l@r>"])) }
pub fn simple_text(r: &mut R, o: &mut B) { let k = r.n(4); for _ in 0..k { o.extend_from_slice(r.pick(&[&b" a"[..], b"Hello", b" world", b"\r\n x", b"  y", b" z!", b"1"])) } }
pub fn simple_type(r: &mut R, o: &mut B) { o.extend_from_slice(r.pick(&[&b"text/plain"[..], b"text/html; charset=utf-8", b"image/png; name=x", b"Text/Plain; Charset=\"us-ascii\"", b"x-a/b; c=d; e=f"])) }
pub fn any_header(r: &mut R, o: &mut B, full: bool) { let k = if MIME { r.n(20) } else if r.p(6) { 14 + r.n(6) } else { r.n(14) }; header_kind(r, o, k, full) }
pub fn tracegen(r: &mut R, o: &mut B, full: bool) {
    let b = r.n(4);
    for _ in 0..b { if r.p(50) { header_kind(r, o, 20, full) } let k = if r.bad(60) { 0 } else { 1 + r.n(3) }; for _ in 0..k { header_kind(r, o, 21, full) } let k = r.n(4); for _ in 0..k { let x = 22 + r.n(7); header_kind(r, o, x, full) } }
}
pub fn headers(r: &mut R, o: &mut B, full: bool) {
    if r.p(25) { tracegen(r, o, full) }
    let k = r.n(7);
    for _ in 0..k { any_header(r, o, full) }
    if r.bad(50) { let x = 20 + r.n(9); header_kind(r, o, x, full) }
}
// mandatory headers included most of the time, in any order
pub fn message_headers(r: &mut R, o: &mut B, full: bool) {
    if r.p(30) { tracegen(r, o, full) }
    let mut ks: Vec<usize> = vec![];
    if !r.p(7) { ks.push(0) } if !r.p(7) { ks.push(1) } if r.p(35) { ks.push(2) }
    let n = r.n(6);
    let max = if MIME { 20 } else { 14 };
    for _ in 0..n { let mut k = r.n(max); if ks.contains(&k) && r.p(75) { k = [11, 12, 13][r.n(3)] } ks.push(k) }
    for i in (1..ks.len()).rev() { let j = r.n(i + 1); ks.swap(i, j) }
    for k in ks { header_kind(r, o, k, full) }
}
pub fn text_body(r: &mut R, o: &mut B) {
    let k = match r.n(10) { 0 => 0, 1 => 1, _ => r.count().min(30) };
    for i in 0..k { if i > 0 { if r.bad(10) { o.extend_from_slice(r.pick(&[&b"\n"[..], b"\r", b"\r\r\n", b"\n\r"])) } else { o.extend_from_slice(b"\r\n") } }
        let n = match r.n(12) { 0 => 0, 1 => *r.pick(&[&997usize, &998, &999, &1000, &996]), 2 => r.big(), _ => r.n(12) };
        let c = b"abc .\x01\x7f~\t-"[r.n(10)];
        if r.p(30) { for _ in 0..n { o.push(c) } } else { for _ in 0..n { one(r, o, b"abcxyz .,!0\x01\x7f\x7e\t-") } }
        if r.bad(15) { one(r, o, b"\x80\0\r\n\xff\xc3") } }
    if r.p(50) { o.extend_from_slice(b"\r\n") }
}
pub fn message(r: &mut R, o: &mut B, full: bool) { message_headers(r, o, full); if r.p(85) { if !r.bad(30) { o.extend_from_slice(b"\r\n") } text_body(r, o) } }

// ---- MIME ----
pub fn mime_version(r: &mut R, o: &mut B) { ocfws(r, o); for i in 0..2 { if i == 1 && !r.bad(20) { o.push(b'.') } match r.n(4) { 0 | 1 => one(r, o, b"0123456789"), 2 => o.extend_from_slice(r.pick(&[&b"255"[..], b"256", b"25", b"260", b"2550", b"000255", b"099", b"1000", b"99", b"100", b"4294967297"])), _ => { let k = 1 + r.n(4); for _ in 0..k { one(r, o, b"0123456789") } } } } if r.p(30) { inline_cfws(r, o) } }
pub fn inline_cfws(r: &mut R, o: &mut B) { if r.p(50) { wsp(r, o) } if r.p(40) { comment(r, o) } if r.p(40) { wsp(r, o) } }
const CHARSETS: &[&[u8]] = &[b"utf-8", b"us-ascii", b"iso-8859-1", b"iso-8859-2", b"iso-8859-3", b"iso-8859-4", b"iso-8859-5", b"iso-8859-6", b"iso-8859-7", b"iso-8859-8", b"iso-8859-9", b"iso-8859-10", b"iso-8859-11", b"iso-8859-13", b"iso-8859-14", b"iso-8859-15", b"iso-8859-16", b"iso-6937", b"gb2312", b"iso-8859-12", b"latin1", b"utf-16", b"ascii", b"utf8", b"iso-8859-17", b"windows-1252", b""];
pub fn charset(r: &mut R, o: &mut B) { let c = if r.p(35) { CHARSETS[r.n(3)] } else { CHARSETS[r.n(CHARSETS.len())] }; casing(r, o, c) }
pub fn raw8(r: &mut R, o: &mut B) { let k = r.count().min(40); for _ in 0..k { match r.n(6) { 0 => o.extend_from_slice("é€ü😀".get(0..[2, 5, 7, 11][r.n(4)]).unwrap().as_bytes()), 1 => { let b = r.n(256) as u8; o.push(b) } 2 => { let b = 128 + r.n(128) as u8; o.push(b) } _ => one(r, o, b"abcXYZ019 .,=?_-'%\r\n\t") } } }
pub fn b64_of(r: &mut R, o: &mut B, d: &[u8], junk: bool) {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut i = 0; let mut line = 0;
    let put = |r: &mut R, o: &mut B, c: u8| { if junk && r.p(6) { one(r, o, b"\r\n -_.\0\xff*,") } if junk && r.bad(4) { o.push(b'=') } o.push(c) };
    while i < d.len() { let (a, b, c) = (d[i] as usize, *d.get(i + 1).unwrap_or(&0) as usize, *d.get(i + 2).unwrap_or(&0) as usize); let n = d.len() - i;
        put(r, o, T[a >> 2]); put(r, o, T[(a & 3) << 4 | b >> 4]);
        if n > 1 { put(r, o, T[(b & 15) << 2 | c >> 6]) } else if !r.bad(30) { put(r, o, b'=') }
        if n > 2 { put(r, o, T[c & 63]) } else if !r.bad(30) { put(r, o, b'=') }
        i += 3; line += 4; if junk && line >= 76 { o.extend_from_slice(b"\r\n"); line = 0 } }
    if junk && r.p(15) { o.extend_from_slice(b"\r\n") }
}
pub fn hex(r: &mut R, o: &mut B, b: u8, mark: u8) { o.push(mark); if r.bad(25) { one(r, o, b"gG/:@`G xX\r\xff"); one(r, o, b"0123456789abcdefABCDEFgG=") ; return } if r.p(75) { o.extend_from_slice(format!("{:02X}", b).as_bytes()) } else { o.extend_from_slice(format!("{:02x}", b).as_bytes()) } }
pub fn encoded_word(r: &mut R, o: &mut B) {
    o.extend_from_slice(b"=?"); charset(r, o); if r.p(12) { o.push(b'*'); if !r.bad(12) { o.extend_from_slice(r.pick(&[&b"en"[..], b"fr-FR", b"x*y"])) } } o.push(b'?');
    let b64 = r.p(45);
    if r.bad(60) {} else if r.bad(25) { token(r, o) } else { o.push(if b64 { if r.p(50) { b'B' } else { b'b' } } else if r.p(50) { b'Q' } else { b'q' }) }
    o.push(b'?');
    let mut d = vec![]; if r.p(75) { let k = 1 + r.n(6); for _ in 0..k { if r.p(70) { one(r, &mut d, b"abcXYZ 019") } else { d.extend_from_slice("é€ü😀".get(0..[2, 5, 7, 11][r.n(4)]).unwrap().as_bytes()) } } } else { raw8(r, &mut d) }
    if b64 { b64_of(r, o, &d, false); } else { for b in &d { if *b == b' ' { o.push(b'_') } else if b.is_ascii_alphanumeric() && r.p(85) { o.push(*b) } else { hex(r, o, *b, b'=') } } }
    if r.bad(10) { one(r, o, NASTY) }
    if !r.bad(25) { o.extend_from_slice(b"?=") }
}
pub fn pname(r: &mut R, o: &mut B) { match r.n(3) { 0 => { let n = r.pick(&[&b"name"[..], b"charset", b"boundary", b"filename", b"a", b"B", b"title"]); casing(r, o, n) } _ => { let k = 1 + r.n(3); for _ in 0..k { one(r, o, b"abAB-0") } } } }
pub fn pvalue(r: &mut R, o: &mut B) { if r.p(60) { token(r, o) } else { qstring(r, o) } }
pub fn pct(r: &mut R, o: &mut B) { let k = r.n(6); for _ in 0..k { match r.n(5) { 0 | 1 => { let s = r.pick(&[&"é"[..], "€", " ", "%", "'", "a"]); for b in s.as_bytes() { hex(r, o, *b, b'%') } } 2 => { let b = r.n(256) as u8; hex(r, o, b, b'%') } 3 if !r.clean => o.extend_from_slice(r.pick(&[&b"%"[..], b"%2", b"%25", b"%2541", b"%%41", b"%C3"])), _ => one(r, o, b"abc019-._~") } } }
// the rest of a quoted value of an encoded section: characters that need the quotes
pub fn qrest(r: &mut R, o: &mut B) { let k = r.n(5); for _ in 0..k { if r.p(20) { o.push(b'\\'); one(r, o, b"\"\\a ") } else if r.p(30) { pct(r, o) } else { one(r, o, b" ()<>,;:@/[]?=.a") } } if !r.bad(30) { o.push(b'"') } }
pub fn param(r: &mut R, o: &mut B) {
    ocfws(r, o); if !r.bad(20) { o.push(b';') } ocfws(r, o);
    pname(r, o); if r.p(12) { o.push(b'*'); if r.p(60) { o.push(b'0') } if r.p(60) { o.push(b'*') } }
    o.push(b'='); if r.p(75) { pvalue(r, o) } else { let q = r.p(15); if q { o.push(b'"') } charset(r, o); o.push(b'\''); if r.p(40) { o.extend_from_slice(b"en") } o.push(b'\''); pct(r, o); if q { qrest(r, o) } }
}
// sections of one name, shuffled
pub fn sections(r: &mut R, o: &mut B) {
    let n = 1 + match r.n(8) { 0 => r.n(16), 1 => if r.p(10) { 254 + r.n(5) } else { 9 + r.n(4) }, _ => r.n(4) };
    let mut name = vec![]; pname(r, &mut name);
    let enc0 = r.p(60);
    let mut v: Vec<B> = vec![];
    for i in 0..n { if r.bad(25) { continue } let mut s = vec![]; casing(r, &mut s, &name);
        s.extend_from_slice(format!("*{}", if r.bad(10) { r.n(300) } else { i }).as_bytes());
        let e = if i == 0 { enc0 } else { enc0 && r.p(60) || r.bad(20) };
        if e { s.push(b'*') } s.push(b'=');
        let q = e && r.p(10); if q { s.push(b'"') }
        if e { if i == 0 { charset(r, &mut s); if !r.bad(20) { s.push(b'\'') } if r.p(40) { s.extend_from_slice(b"en") } if !r.bad(20) { s.push(b'\'') } } let m = s.len(); pct(r, &mut s); if q { qrest(r, &mut s) } if s.len() == m && i > 0 { s.push(b'x') } } else if r.p(70) { let k = 1 + r.n(4); for _ in 0..k { one(r, &mut s, b"abcXYZ019-.%'") } } else { s.push(b'"'); let k = r.n(5); for _ in 0..k { one(r, &mut s, b"abcXYZ 019%;=") } s.push(b'"') }
        v.push(s) }
    if r.p(50) { for i in (1..v.len()).rev() { let j = r.n(i + 1); v.swap(i, j) } }
    for s in v { o.push(b';'); if r.p(50) { o.push(b' ') } if r.p(5) { ocfws(r, o) } o.extend_from_slice(&s) }
}
pub fn params(r: &mut R, o: &mut B) { let k = r.n(4); for _ in 0..k { if r.p(40) { sections(r, o) } else { param(r, o) } } }
pub fn mtype(r: &mut R, o: &mut B) { if r.p(75) { let t = r.pick(&[&b"text"[..], b"multipart", b"application", b"image", b"video", b"audio", b"message"]); casing(r, o, t); if r.bad(15) { o.push(b'x') } } else { token(r, o) } }
pub fn ctype(r: &mut R, o: &mut B) { ocfws(r, o); mtype(r, o); if !r.bad(20) { o.push(b'/') } token(r, o); params(r, o); if r.p(25) { inline_cfws(r, o) } }
pub fn cte(r: &mut R, o: &mut B) { ocfws(r, o); if r.p(75) { let t = r.pick(&[&b"7bit"[..], b"8bit", b"binary", b"quoted-printable", b"base64"]); casing(r, o, t); if r.bad(15) { o.push(b'x') } } else { token(r, o) } if r.p(25) { inline_cfws(r, o) } }
pub fn cdisp(r: &mut R, o: &mut B) {
    ocfws(r, o); if r.p(75) { let t = r.pick(&[&b"inline"[..], b"attachment"]); casing(r, o, t); if r.bad(15) { o.push(b'x') } } else { token(r, o) }
    let k = r.n(5);
    for _ in 0..k { match r.n(4) {
        0 => { ocfws(r, o); o.push(b';'); ocfws(r, o); casing(r, o, b"filename"); if r.p(8) { o.extend_from_slice(b"*0") } o.push(b'='); pvalue(r, o) }
        1 | 2 => { ocfws(r, o); o.push(b';'); ocfws(r, o); let t = r.pick(&[&b"creation-date"[..], b"modification-date", b"read-date"]); casing(r, o, t); o.push(b'='); if !r.bad(20) { o.push(b'"') } if r.p(60) { good_date(r, o) } else { date_time(r, o) } if !r.bad(20) { o.push(b'"') } }
        _ => params(r, o) } }
    if r.p(25) { inline_cfws(r, o) }
}
pub fn part_headers(r: &mut R, o: &mut B, full: bool) { let k = r.n(5); for _ in 0..k { let x = *r.pick(&[&13usize, &13, &15, &16, &17, &18, &19, &10, &14]); header_kind(r, o, x, full) } }
pub fn qp_text(r: &mut R, o: &mut B) { let k = r.count().min(60); for _ in 0..k { match r.n(9) { 0 => o.extend_from_slice(b"=\r\n"), 1 => o.extend_from_slice(b"\r\n"), 2 => wsp(r, o), 3 | 4 => { let b = r.n(256) as u8; hex(r, o, b, b'=') } 5 if !r.clean => o.extend_from_slice(r.pick(&[&b"="[..], b"=4", b"=\r", b"=\n", b"==41", b"\r", b"\n", b"\x80", b"=e9", b"=G1", b"=1G"])), _ => { let m = 1 + r.n(5); for _ in 0..m { one(r, o, b"abcXYZ019<>?@_{}~!\"") } } } } }
pub fn entity_body(r: &mut R, o: &mut B) { match r.n(4) { 0 => qp_text(r, o), 1 => { let mut d = vec![]; raw8(r, &mut d); b64_of(r, o, &d, true) } 2 => raw8(r, o), _ => text_body(r, o) } }
pub fn entity(r: &mut R, o: &mut B, full: bool) { part_headers(r, o, full); if r.p(85) { if !r.bad(40) { o.extend_from_slice(b"\r\n") } entity_body(r, o) } }
// boundary \0 body
pub fn multipart(r: &mut R, o: &mut B) {
    let mut b = vec![]; let k = if r.p(4) { r.big().min(80) } else { r.n(5) + if r.p(95) { 1 } else { 0 } }; for _ in 0..k { one(r, &mut b, b"ab-=_0a-") }
    o.extend_from_slice(&b); o.push(0);
    if r.p(40) { text_body(r, o); if r.p(70) { o.extend_from_slice(b"\r\n") } }
    let n = r.n(5);
    for i in 0..n {
        if i > 0 || r.p(85) { if i > 0 { o.extend_from_slice(b"\r\n") } o.extend_from_slice(b"--"); o.extend_from_slice(&b); if r.bad(30) { o.push(b' ') } o.extend_from_slice(b"\r\n") }
        if r.p(80) { part_headers(r, o, false) }
        if r.p(85) { o.extend_from_slice(b"\r\n"); match r.n(6) {
            0 => {} 1 => { o.extend_from_slice(b"\r\n--"); let k = r.n(b.len() + 1); o.extend_from_slice(&b[..k]); if r.p(50) { one(r, o, b"xa-\r") } }
            2 => { o.extend_from_slice(b"--"); o.extend_from_slice(&b) ; if r.p(50) { o.push(b'x') } } 3 => { let k = r.n(3); for _ in 0..k { o.extend_from_slice(r.pick(&[&b"\r\n"[..], b"\r", b"-", b"--", b"\n"])) } }
            _ => text_body(r, o) } }
    }
    if !r.p(8) { o.extend_from_slice(b"\r\n--"); o.extend_from_slice(&b); o.extend_from_slice(b"--"); if !r.p(6) { o.extend_from_slice(b"\r\n") } }
    if r.p(30) { text_body(r, o) }
}

pub fn mutate(r: &mut R, o: &mut B) {
    let k = 1 + r.n(3);
    for _ in 0..k {
        let n = o.len();
        match r.n(9) {
            0 if n > 0 => { let i = r.n(n); o.remove(i); }
            1 => { let i = r.n(n + 1); let c = NASTY[r.n(NASTY.len())]; o.insert(i, c) }
            2 if n > 0 => { let i = r.n(n); o[i] = NASTY[r.n(NASTY.len())] }
            3 if n > 0 => { let i = r.n(n); o.truncate(i) }
            4 if n > 0 => { let i = r.n(n); let j = i + r.n((n - i).min(12) + 1); let c = o[i..j].to_vec(); let at = r.n(n + 1); for (q, x) in c.into_iter().enumerate() { o.insert(at + q, x) } }
            5 => { let i = r.n(n + 1); let mut l = vec![]; r.lit(&mut l); for (q, x) in l.into_iter().enumerate() { o.insert(i + q, x) } }
            6 if n > 0 => { let i = r.n(n); o[i] = r.n(256) as u8 }
            7 if n > 0 => { let i = r.n(n); o[i] ^= 32 }
            8 if n > 0 => { let i = r.n(n); let c = o[i]; let m = r.big(); if n + m < 3000 { for _ in 0..m { o.insert(i, c) } } }
            _ => {}
        }
    }
}

// a new input from ones that showed new behaviour of the code
pub fn vary(r: &mut R, o: &mut B, other: &[u8], toks: &[&[u8]], piece: &[u8]) {
    let k = 1 + r.n(4);
    for _ in 0..k {
        let n = o.len();
        let ins = |o: &mut B, at: usize, l: &[u8]| { let t = o.split_off(at); o.extend_from_slice(l); o.extend_from_slice(&t) };
        match r.n(12) {
            0 | 1 => mutate(r, o),
            2 if n > 0 => { let i = r.n(n); o[i] = o[i].wrapping_add(1) }
            3 if n > 0 => { let i = r.n(n); o[i] = o[i].wrapping_sub(1) }
            4 if n > 0 => { let i = r.n(n); let j = (i + 1 + r.n(20)).min(n); let c = o[i..j].to_vec(); let m = if r.p(30) { r.big() } else { 1 + r.n(6) }; if n + m * c.len() < 4000 { for _ in 0..m { ins(o, i, &c) } } }
            5 if n > 0 => { let i = r.n(n); let j = (i + 1 + r.n(12)).min(n); o.drain(i..j); }
            6 if !other.is_empty() => { let i = r.n(other.len()); let at = r.n(n + 1); o.truncate(at); o.extend_from_slice(&other[i..]) }
            7 if !other.is_empty() => { let i = r.n(other.len()); let j = (i + 1 + r.n(24)).min(other.len()); let at = r.n(n + 1); ins(o, at, &other[i..j]) }
            8 if !toks.is_empty() => { let t = toks[r.n(toks.len())]; let at = r.n(n + 1); ins(o, at, t) }
            9 => { let mut l = vec![]; r.lit(&mut l); let at = r.n(n + 1); if r.p(50) { let j = (at + l.len()).min(n); o.drain(at..j); } ins(o, at, &l) }
            10 if !piece.is_empty() => { let i = r.n(piece.len()); let j = (i + 1 + r.n(30)).min(piece.len()); let at = r.n(n + 1); ins(o, at, &piece[i..j]) }
            11 if n > 1 => { let i = r.n(n); let j = r.n(n); o.swap(i, j) }
            _ => {}
        }
    }
    if o.len() > 6000 { o.truncate(6000) }
}
