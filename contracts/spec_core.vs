// ---------------------------------------------------------------------------------------------
// Specification functions (core grammar, RFC 5322).  One text, two uses: Verus ghost functions and,
// translated token for token, the executable oracle.
// ---------------------------------------------------------------------------------------------

inline fn pfx(s: S, t: S) -> bool { s.len() >= t.len() && s.take(t.len() as int) == t }

// length of the longest prefix whose bytes all belong to class c
spec fn run(c: Cls, s: S) -> int decreases s.len()
{ if s.len() > 0 && cls(c, s[0]) { 1 + run(c, s.skip(1)) } else { 0 } }

inline fn sp_tw(c: Cls, s: S) -> Option<(S, S)> { Some((s.skip(run(c, s)), s.take(run(c, s)))) }

inline fn sp_tw1(c: Cls, s: S) -> Option<(S, S)> { if run(c, s) == 0 { None } else { Some((s.skip(run(c, s)), s.take(run(c, s)))) } }

inline fn sp_tag(s: S, t: S) -> Option<(S, ())> { if pfx(s, t) { Some((s.skip(t.len() as int), ())) } else { None } }

spec fn lower(b: u8) -> int { if 65 <= b && b <= 90 { b as int + 32 } else { b as int } }

// s starts with t, in any letter case
spec fn ci(s: S, t: S) -> bool decreases t.len()
{ if t.len() == 0 { true } else if s.len() == 0 { false } else { lower(s[0]) == lower(t[0]) && ci(s.skip(1), t.skip(1)) } }

inline fn sp_ci(s: S, t: S) -> Option<(S, ())> { if ci(s, t) { Some((s.skip(t.len() as int), ())) } else { None } }

// ---- whitespace and comments ----

spec fn sp_fws(s: S) -> Option<(S, S)> {
    let n = run(Cls::Wsp, s);
    if pfx(s.skip(n), b"\r\n") {
        let a = s.skip(n).skip(2);
        let m = run(Cls::Wsp, a);
        if m > 0 { Some((a.skip(m), s.take(n) + a.take(m))) } else { None }
    } else if n > 0 { Some((s.skip(n), s.take(n))) } else { None }
}

inline fn ofws(s: S) -> (S, S) { match sp_fws(s) { Some(x) => x, None => (s, Seq::empty()) } }

spec fn sp_quoted_pair(s: S) -> Option<(S, S)> {
    if s.len() >= 2 && s[0] == 92 && (cls(Cls::Vchar, s[1]) || cls(Cls::Wsp, s[1])) { Some((s.skip(1).skip(1), s.skip(1).take(1))) } else { None }
}

spec fn sp_ccontent(s: S) -> Option<(S, S)> {
    match sp_tw1(Cls::Ctext, s) { Some(x) => Some(x), None => sp_quoted_pair(s) }
}

// the rest of a comment of which d parentheses are open
spec fn l_comment(s: S, d: int) -> Option<(S, S)> decreases s.len()
{
    if d <= 0 { Some((s, Seq::empty())) } else {
        let n = ofws(s).0;
        match sp_ccontent(n) {
            Some((r, _x)) => if r.len() < s.len() { l_comment(r, d) } else { None },
            None => match sp_tag(n, b"(") {
                Some((r, _x)) => if r.len() < s.len() { l_comment(r, d + 1) } else { None },
                None => match sp_tag(n, b")") {
                    Some((r, _x)) => if r.len() < s.len() { l_comment(r, d - 1) } else { None },
                    None => None,
                }
            }
        }
    }
}

spec fn sp_comment(s: S) -> Option<(S, S)> { let (r, _x) <- sp_tag(s, b"("); l_comment(r, 1) }

spec fn l_cfws(s: S, acc: S) -> (S, S) decreases s.len()
{
    match sp_comment(ofws(s).0) {
        Some((r, _x)) => if r.len() < s.len() { l_cfws(r, acc + ofws(s).1) } else { (s, acc) },
        None => (s, acc),
    }
}

spec fn sp_real_cfws(s: S) -> Option<(S, S)> {
    let (r, _x) <- sp_comment(ofws(s).0);
    let a = l_cfws(r, ofws(s).1);
    Some((ofws(a.0).0, a.1 + ofws(a.0).1))
}

spec fn sp_cfws(s: S) -> Option<(S, S)> { match sp_real_cfws(s) { Some(x) => Some(x), None => sp_fws(s) } }

// what is left after optional comments and whitespace
inline fn ocfws(s: S) -> S { match sp_cfws(s) { Some((r, _x)) => r, None => s } }

// ---- quoted strings, atoms, words, phrases ----

spec fn l_qs(s: S, acc: S) -> (S, S) decreases s.len()
{
    let (n, w) = ofws(s);
    match sp_tw1(Cls::Qtext, n) {
        Some((r, v)) => if r.len() < s.len() { l_qs(r, acc + (w + v)) } else { (s, acc) },
        None => match sp_quoted_pair(n) {
            Some((r, v)) => if r.len() < s.len() { l_qs(r, acc + (w + v)) } else { (s, acc) },
            None => (s, acc),
        }
    }
}

spec fn sp_quoted_string(s: S) -> Option<(S, S)> {
    let (a, _x) <- sp_tag(ocfws(s), b"\"");
    let b = l_qs(a, Seq::empty());
    let (c, _x) <- sp_tag(ofws(b.0).0, b"\"");
    Some((ocfws(c), b.1 + ofws(b.0).1))
}

spec fn sp_atom(s: S) -> Option<(S, S)> {
    let (r, v) <- sp_tw1(Cls::Atext, ocfws(s));
    Some((ocfws(r), v))
}

// after the first atom of a dot-atom: ("." atom)*
spec fn l_dot(s: S, acc: S) -> (S, S) decreases s.len()
{
    if pfx(s, b".") {
//@if compatibility-fixes
        match sp_tw(Cls::Atext, s.skip(1)) {
//@else
        match sp_tw1(Cls::Atext, s.skip(1)) {
//@end
            Some((r, v)) => if r.len() < s.len() { l_dot(r, (acc + s.take(1)) + v) } else { (s, acc) },
            None => (s, acc),
        }
    } else { (s, acc) }
}

spec fn sp_dot_atom_text(s: S) -> Option<(S, S)> {
    let (r, v) <- sp_tw1(Cls::Atext, s);
    Some(l_dot(r, v))
}

spec fn sp_dot_atom(s: S) -> Option<(S, S)> {
    let (r, v) <- sp_dot_atom_text(ocfws(s));
    Some((ocfws(r), v))
}

spec fn sp_word(s: S) -> Option<(S, S)> { match sp_atom(s) { Some(x) => Some(x), None => sp_quoted_string(s) } }

//@if mime
spec fn sp_phrase_word(s: S) -> Option<(S, S)> {
    match sp_encoded_word(ofws(s).0) { Some(x) => Some(x), None => sp_word(s) }
}
//@else
inline fn sp_phrase_word(s: S) -> Option<(S, S)> { sp_word(s) }
//@end

spec fn l_phrase(s: S, acc: Seq<S>) -> (S, Seq<S>) decreases s.len()
{
    match sp_phrase_word(s) { Some((r, v)) => if r.len() < s.len() { l_phrase(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

spec fn sp_phrase(s: S) -> Option<(S, Seq<S>)> {
    let (r, v) <- sp_phrase_word(s);
    Some(l_phrase(r, Seq::empty().push(v)))
}

// ---- unstructured text ----

spec fn l_unstr(s: S, acc: S) -> (S, S) decreases s.len()
{
    let (n, w) = ofws(s);
    match sp_tw1(Cls::Vchar, n) {
        Some((r, v)) => if r.len() < s.len() { l_unstr(r, acc + (w + v)) } else { (s, acc) },
        None => (s, acc),
    }
}

spec fn l_wsp(s: S) -> S decreases s.len()
{
    match sp_tw1(Cls::Wsp, s) { Some((r, _x)) => if r.len() < s.len() { l_wsp(r) } else { s }, None => s }
}

spec fn sp_unstructured(s: S) -> Option<(S, S)> {
    let a = l_unstr(s, Seq::empty());
    Some((l_wsp(a.0), a.1))
}

// ---- addresses ----

struct VEmailAddress { local_part: S, domain: S }
struct VMailbox { name: Option<Seq<S>>, address: VEmailAddress }
enum VAddress { Mailbox(VMailbox), Group((Seq<S>, Seq<VMailbox>)) }

spec fn sp_local_part(s: S) -> Option<(S, S)> { match sp_dot_atom(s) { Some(x) => Some(x), None => sp_quoted_string(s) } }

spec fn l_dlit(s: S, acc: S) -> (S, S) decreases s.len()
{
    match sp_tw1(Cls::Dtext, ofws(s).0) {
        Some((r, v)) => if r.len() < s.len() { l_dlit(r, acc + v) } else { (s, acc) },
        None => (s, acc),
    }
}

spec fn sp_domain_literal(s: S) -> Option<(S, S)> {
    let (a, _x) <- sp_tag(ocfws(s), b"[");
    let b = l_dlit(a, Seq::empty());
    let (c, _x) <- sp_tag(ofws(b.0).0, b"]");
    Some((ocfws(c), b.1))
}

spec fn sp_domain(s: S) -> Option<(S, S)> { match sp_dot_atom(s) { Some(x) => Some(x), None => sp_domain_literal(s) } }

spec fn sp_addr_spec(s: S) -> Option<(S, VEmailAddress)> {
    let (a, l) <- sp_local_part(s);
    let (b, _x) <- sp_tag(a, b"@");
    let (c, d) <- sp_domain(b);
    Some((c, VEmailAddress { local_part: l, domain: d }))
}

spec fn sp_angle_addr(s: S) -> Option<(S, VEmailAddress)> {
    let (a, _x) <- sp_tag(ocfws(s), b"<");
    let (b, v) <- sp_addr_spec(a);
    let (c, _x) <- sp_tag(b, b">");
    Some((ocfws(c), v))
}

spec fn sp_name_addr(s: S) -> Option<(S, VMailbox)> {
    match sp_phrase(s) {
        Some((r, n)) => { let (a, v) <- sp_angle_addr(r); Some((a, VMailbox { name: Some(n), address: v })) }
        None => { let (a, v) <- sp_angle_addr(s); Some((a, VMailbox { name: None, address: v })) }
    }
}

spec fn sp_mailbox(s: S) -> Option<(S, VMailbox)> {
    match sp_name_addr(s) { Some(x) => Some(x), None => { let (a, v) <- sp_addr_spec(s); Some((a, VMailbox { name: None, address: v })) } }
}

spec fn l_mailboxes(s: S, acc: Seq<VMailbox>) -> (S, Seq<VMailbox>) decreases s.len()
{
    if pfx(s, b",") {
        match sp_mailbox(s.skip(1)) { Some((r, v)) => if r.len() < s.len() { l_mailboxes(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
    } else { (s, acc) }
}

spec fn sp_mailbox_list(s: S) -> Option<(S, Seq<VMailbox>)> {
    let (r, v) <- sp_mailbox(s);
    Some(l_mailboxes(r, Seq::empty().push(v)))
}

spec fn sp_group(s: S) -> Option<(S, (Seq<S>, Seq<VMailbox>))> {
    let (a, n) <- sp_phrase(s);
    let (b, _x) <- sp_tag(a, b":");
    let c: (S, Seq<VMailbox>) = match sp_mailbox_list(b) { Some(x) => x, None => (ocfws(b), Seq::empty()) };
    let (d, _x) <- sp_tag(c.0, b";");
    Some((ocfws(d), (n, c.1)))
}

spec fn sp_address(s: S) -> Option<(S, VAddress)> {
    match sp_mailbox(s) {
        Some((r, m)) => Some((r, VAddress::Mailbox(m))),
        None => { let (r, g) <- sp_group(s); Some((r, VAddress::Group(g))) }
    }
}

spec fn l_addresses(s: S, acc: Seq<VAddress>) -> (S, Seq<VAddress>) decreases s.len()
{
    if pfx(s, b",") {
        match sp_address(s.skip(1)) { Some((r, v)) => if r.len() < s.len() { l_addresses(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
    } else { (s, acc) }
}

spec fn sp_address_list(s: S) -> Option<(S, Seq<VAddress>)> {
    let (r, v) <- sp_address(s);
    Some(l_addresses(r, Seq::empty().push(v)))
}

// ---- message identifiers ----

spec fn sp_no_fold_literal(s: S) -> Option<(S, S)> {
    let (a, _x) <- sp_tag(s, b"[");
    let (b, v) <- sp_tw(Cls::Dtext, a);
    let (c, _x) <- sp_tag(b, b"]");
    Some((c, v))
}

spec fn sp_id_right(s: S) -> Option<(S, S)> { match sp_dot_atom_text(s) { Some(x) => Some(x), None => sp_no_fold_literal(s) } }

spec fn sp_message_id(s: S) -> Option<(S, (S, S))> {
    let (a, _x) <- sp_tag(ocfws(s), b"<");
    let (b, l) <- sp_dot_atom_text(a);
    let (c, _x) <- sp_tag(b, b"@");
    let (d, r) <- sp_id_right(c);
    let (e, _x) <- sp_tag(d, b">");
    Some((ocfws(e), (l, r)))
}

spec fn l_ids(s: S, acc: Seq<(S, S)>) -> (S, Seq<(S, S)>) decreases s.len()
{
    match sp_message_id(s) { Some((r, v)) => if r.len() < s.len() { l_ids(r, acc.push(v)) } else { (s, acc) }, None => (s, acc) }
}

spec fn sp_ids(s: S) -> Option<(S, Seq<(S, S)>)> {
    let (r, v) <- sp_message_id(s);
    Some(l_ids(r, Seq::empty().push(v)))
}

// ---- dates ----

struct VZone { sign: bool, hour_offset: int, minute_offset: int }
struct VTime { hour: int, minute: int, second: int }
struct VTimeWithZone { time: VTime, zone: VZone }
struct VDate { day: int, month: int, year: int }
// day names are numbered from Monday = 0, months from January = 1
struct VDateTime { day_name: Option<int>, date: VDate, time: VTimeWithZone }

spec fn sp_digit(s: S) -> Option<(S, int)> { if s.len() > 0 && cls(Cls::Digit, s[0]) { Some((s.skip(1), s[0] as int - 48)) } else { None } }

spec fn sp_two_digits(s: S) -> Option<(S, int)> {
    let (a, x) <- sp_digit(s);
    let (b, y) <- sp_digit(a);
    Some((b, x * 10 + y))
}

// the first three letters of s are those of the lower case name t
inline fn is3(s: S, a: int, b: int, c: int) -> bool { lower(s[0]) == a && lower(s[1]) == b && lower(s[2]) == c }

spec fn sp_day_name(s: S) -> Option<(S, int)> {
    if s.len() < 3 { None }
    else if is3(s, 109, 111, 110) { Some((s.skip(3), 0)) }
    else if is3(s, 116, 117, 101) { Some((s.skip(3), 1)) }
    else if is3(s, 119, 101, 100) { Some((s.skip(3), 2)) }
    else if is3(s, 116, 104, 117) { Some((s.skip(3), 3)) }
    else if is3(s, 102, 114, 105) { Some((s.skip(3), 4)) }
    else if is3(s, 115, 97, 116) { Some((s.skip(3), 5)) }
    else if is3(s, 115, 117, 110) { Some((s.skip(3), 6)) }
    else { None }
}

spec fn sp_month(s: S) -> Option<(S, int)> {
    if s.len() < 3 { None }
    else if is3(s, 106, 97, 110) { Some((s.skip(3), 1)) }
    else if is3(s, 102, 101, 98) { Some((s.skip(3), 2)) }
    else if is3(s, 109, 97, 114) { Some((s.skip(3), 3)) }
    else if is3(s, 97, 112, 114) { Some((s.skip(3), 4)) }
    else if is3(s, 109, 97, 121) { Some((s.skip(3), 5)) }
    else if is3(s, 106, 117, 110) { Some((s.skip(3), 6)) }
    else if is3(s, 106, 117, 108) { Some((s.skip(3), 7)) }
    else if is3(s, 97, 117, 103) { Some((s.skip(3), 8)) }
    else if is3(s, 115, 101, 112) { Some((s.skip(3), 9)) }
    else if is3(s, 111, 99, 116) { Some((s.skip(3), 10)) }
    else if is3(s, 110, 111, 118) { Some((s.skip(3), 11)) }
    else if is3(s, 100, 101, 99) { Some((s.skip(3), 12)) }
    else { None }
}

spec fn sp_day_of_week(s: S) -> Option<(S, int)> {
    let (a, d) <- sp_day_name(ofws(s).0);
    let (b, _x) <- sp_tag(a, b",");
    Some((b, d))
}

spec fn sp_year(s: S) -> Option<(S, int)> {
    let (a, _x) <- sp_fws(s);
    let (b, v) <- sp_tw1(Cls::Digit, a);
    if v.len() < 4 || decval(v) > 18446744073709551615 || decval(v) < 1990 { None } else {
        let (c, _x) <- sp_fws(b);
        Some((c, decval(v)))
    }
}

inline fn day_range(s: S, d: int) -> Option<(S, int)> {
    if d < 1 || d > 31 { None } else { let (r, _x) <- sp_fws(s); Some((r, d)) }
}

spec fn sp_day(s: S) -> Option<(S, int)> {
    let (a, x) <- sp_digit(ofws(s).0);
    match sp_digit(a) { Some((b, y)) => day_range(b, x * 10 + y), None => day_range(a, x) }
}

spec fn sp_time_of_day(s: S) -> Option<(S, VTime)> {
    let (a, h) <- sp_two_digits(s);
    if h > 23 { None } else {
        let (b, _x) <- sp_tag(a, b":");
        let (c, m) <- sp_two_digits(b);
        if m > 59 { None } else if pfx(c, b":") {
            match sp_two_digits(c.skip(1)) {
                Some((d, x)) => if x > 60 { None } else { Some((d, VTime { hour: h, minute: m, second: x })) },
                None => Some((c, VTime { hour: h, minute: m, second: 0 })),
            }
        } else { Some((c, VTime { hour: h, minute: m, second: 0 })) }
    }
}

spec fn sp_zone(s: S) -> Option<(S, VZone)> {
    let (a, _x) <- sp_fws(s);
    if a.len() > 0 && (a[0] == 43 || a[0] == 45) {
        let (b, h) <- sp_two_digits(a.skip(1));
        let (c, m) <- sp_two_digits(b);
        if m > 59 { None } else { Some((c, VZone { sign: a[0] == 43, hour_offset: h, minute_offset: m })) }
    } else { None }
}

spec fn sp_time(s: S) -> Option<(S, VTimeWithZone)> {
    let (a, t) <- sp_time_of_day(s);
    let (b, z) <- sp_zone(a);
    Some((b, VTimeWithZone { time: t, zone: z }))
}

spec fn sp_date(s: S) -> Option<(S, VDate)> {
    let (a, d) <- sp_day(s);
    let (b, m) <- sp_month(a);
    let (c, y) <- sp_year(b);
    Some((c, VDate { day: d, month: m, year: y }))
}

inline fn date_from(s: S, n: Option<int>) -> Option<(S, VDateTime)> {
    let (a, d) <- sp_date(s);
    let (b, t) <- sp_time(a);
    Some((ocfws(b), VDateTime { day_name: n, date: d, time: t }))
}

spec fn sp_date_time(s: S) -> Option<(S, VDateTime)> {
    match sp_day_of_week(s) { Some((r, n)) => date_from(r, Some(n)), None => date_from(s, None) }
}
