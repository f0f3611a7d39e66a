// ---------------------------------------------------------------------------------------------
// Property theorems: what the specification functions imply, in the words of the properties.
// Every function of the crate is proved equal to its specification function; these lemmas are
// proved over the specification functions, so that together they hold of the code.
// ---------------------------------------------------------------------------------------------
//@thm C10 mime
pub proof fn b64_acc(s: S, acc: S) ensures l_b64(s, acc) == (match l_b64(s, Seq::empty()) { Some(x) => Some(acc + x), None => None }) decreases s.len()
{
    reveal(l_b64);
    let e = Seq::<u8>::empty();
    let a = b64_skip(s);
    if a.len() == 0 || a.len() > s.len() { assert(acc + e =~= acc); } else {
        let b = b64_skip(a.skip(1));
        if b.len() == 0 || b.len() >= a.len() {} else {
            let c = b64_skip_eq(b.skip(1));
            if c.len() == 0 || c.len() >= b.len() {} else {
                let d = b64_skip_eq(c.skip(1));
                if d.len() == 0 || d.len() >= c.len() {} else {
                    let x1 = b64_1(b64_val(a[0]), b64_val(b[0])); let x2 = b64_2(b64_val(b[0]), b64_val(c[0])); let x3 = b64_3(b64_val(c[0]), b64_val(d[0]));
                    let t = d.skip(1);
                    let w = if c[0] == 61 { e.push(x1) } else if d[0] == 61 { e.push(x1).push(x2) } else { e.push(x1).push(x2).push(x3) };
                    b64_acc(t, w); b64_acc(t, acc + w);
                    assert(acc + e.push(x1) =~= acc.push(x1));
                    assert(acc + e.push(x1).push(x2) =~= acc.push(x1).push(x2));
                    assert(acc + e.push(x1).push(x2).push(x3) =~= acc.push(x1).push(x2).push(x3));
                    match l_b64(t, e) { Some(x) => { assert(acc + (w + x) =~= (acc + w) + x); } None => {} }
                }
            }
        }
    }
}
pub proof fn char_val(n: int) requires 0 <= n < 64 ensures b64_val(b64_char(n)) == n, cls(Cls::B64, b64_char(n)), !cls(Cls::NotB64, b64_char(n)), !cls(Cls::NotB64Eq, b64_char(n)), b64_char(n) != 61, b64_char(n) != 13
{ reveal(b64_val); reveal(b64_char); }
pub proof fn quad_vals(a: int, b: int, c: int) requires 0 <= a < 256, 0 <= b < 256, 0 <= c < 256
    ensures b64_1(a / 4, (a % 4) * 16 + b / 16) == a as u8, b64_1(a / 4, (a % 4) * 16) == a as u8, b64_2((a % 4) * 16 + b / 16, (b % 16) * 4 + c / 64) == b as u8, b64_2((a % 4) * 16 + b / 16, (b % 16) * 4) == b as u8,
        b64_3((b % 16) * 4 + c / 64, c % 64) == c as u8, 0 <= a / 4 < 64, 0 <= (a % 4) * 16 + b / 16 < 64, 0 <= (a % 4) * 16 < 64, 0 <= (b % 16) * 4 + c / 64 < 64, 0 <= (b % 16) * 4 < 64, 0 <= c % 64 < 64
{}
pub open spec fn brk(n: int) -> S { if n >= 72 { b"\r\n" } else { Seq::empty() } }
// one encoded quantum, possibly after a line break, decodes to its bytes
pub proof fn quad_dec(n: int, q: S, t: S) requires q.len() == 4, forall|i: int| 0 <= i < 4 ==> !cls(Cls::NotB64Eq, #[trigger] q[i]), cls(Cls::B64, q[0]), cls(Cls::B64, q[1]), q[2] == 61 ==> q[3] == 61
    ensures l_b64((brk(n) + q) + t, Seq::empty()) == l_b64(t, if q[2] == 61 { seq![b64_1(b64_val(q[0]), b64_val(q[1]))] } else if q[3] == 61 { seq![b64_1(b64_val(q[0]), b64_val(q[1])), b64_2(b64_val(q[1]), b64_val(q[2]))] }
        else { seq![b64_1(b64_val(q[0]), b64_val(q[1])), b64_2(b64_val(q[1]), b64_val(q[2])), b64_3(b64_val(q[2]), b64_val(q[3]))] })
{
    reveal(l_b64);
    let s = (brk(n) + q) + t; let k = brk(n).len() as int;
    run_is(Cls::NotB64, s, k);
    assert(s.skip(k) =~= q + t);
    let b = s.skip(k).skip(1); assert(b =~= q.skip(1) + t); run_is(Cls::NotB64, b, 0); assert(b.skip(0) =~= b);
    let c = b.skip(1); assert(c =~= q.skip(2) + t); run_is(Cls::NotB64Eq, c, 0); assert(c.skip(0) =~= c);
    let d = c.skip(1); assert(d =~= q.skip(3) + t); run_is(Cls::NotB64Eq, d, 0); assert(d.skip(0) =~= d);
    assert(d.skip(1) =~= t);
    let e = Seq::<u8>::empty();
    let x1 = b64_1(b64_val(q[0]), b64_val(q[1])); let x2 = b64_2(b64_val(q[1]), b64_val(q[2])); let x3 = b64_3(b64_val(q[2]), b64_val(q[3]));
    assert(e.push(x1) =~= seq![x1]); assert(e.push(x1).push(x2) =~= seq![x1, x2]); assert(e.push(x1).push(x2).push(x3) =~= seq![x1, x2, x3]);
}
pub proof fn eb64_acc(s: S, n: int, acc: S) ensures l_eb64(s, n, acc) == acc + l_eb64(s, n, Seq::empty()) decreases s.len()
{
    reveal(l_eb64);
    let e = Seq::<u8>::empty();
    let m = if n >= 72 { 0 } else { n };
    assert(acc + e =~= acc);
    if s.len() > 0 {
        assert(if n >= 72 { (acc + b"\r\n") == acc + brk(n) } else { acc == acc + brk(n) });
        assert(e + brk(n) =~= brk(n)); assert(n >= 72 ==> e + b"\r\n" =~= brk(n));
        if s.len() == 1 { let q = b64_pad2(s[0]); assert((acc + brk(n)) + q =~= acc + (brk(n) + q)); }
        else if s.len() == 2 { let q = b64_pad1(s[0], s[1]); assert((acc + brk(n)) + q =~= acc + (brk(n) + q)); }
        else {
            let q = b64_quad(s[0], s[1], s[2]);
            eb64_acc(s.skip(3), m + 4, (acc + brk(n)) + q); eb64_acc(s.skip(3), m + 4, brk(n) + q);
            let r = l_eb64(s.skip(3), m + 4, e);
            assert(((acc + brk(n)) + q) + r =~= acc + ((brk(n) + q) + r));
        }
    }
}
pub proof fn eb64_eq(s: S, n: int) ensures l_eb64(s, n, Seq::empty()) == ({ let m = if n >= 72 { 0 } else { n };
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { (brk(n) + b64_pad2(s[0])) + Seq::empty() } else if s.len() == 2 { (brk(n) + b64_pad1(s[0], s[1])) + Seq::empty() } else { (brk(n) + b64_quad(s[0], s[1], s[2])) + l_eb64(s.skip(3), m + 4, Seq::empty()) } })
{
    reveal(l_eb64); let e = Seq::<u8>::empty(); let m = if n >= 72 { 0 } else { n };
    assert(e + b"\r\n" =~= b"\r\n"); assert(forall|x: S| #[trigger] (x + e) =~= x); assert(forall|x: S| #[trigger] (e + x) =~= x);
    if s.len() > 2 { eb64_acc(s.skip(3), m + 4, brk(n) + b64_quad(s[0], s[1], s[2])); }
}
proof fn round(s: S, n: int) ensures l_b64(l_eb64(s, n, Seq::empty()), Seq::empty()) == Some(s) decreases s.len()
{
    let e = Seq::<u8>::empty();
    eb64_eq(s, n);
    reveal(l_b64);
    let a = if s.len() > 0 { s[0] as int } else { 0 }; let b = if s.len() > 1 { s[1] as int } else { 0 }; let c = if s.len() > 2 { s[2] as int } else { 0 };
    quad_vals(a, b, c);
    char_val(a / 4); char_val((a % 4) * 16 + b / 16); char_val((a % 4) * 16); char_val((b % 16) * 4 + c / 64); char_val((b % 16) * 4); char_val(c % 64);
    assert(b64_skip(e).len() == 0);
    assert(e + e =~= e);
    if s.len() == 0 { assert(s =~= e); }
    else if s.len() == 1 { let q = b64_pad2(s[0]); quad_dec(n, q, e); b64_acc(e, seq![s[0]]); assert(s =~= seq![s[0]]); }
    else if s.len() == 2 { let q = b64_pad1(s[0], s[1]); quad_dec(n, q, e); assert(s =~= seq![s[0], s[1]]); }
    else {
        let m = if n >= 72 { 0 } else { n }; let q = b64_quad(s[0], s[1], s[2]); let t = l_eb64(s.skip(3), m + 4, e);
        quad_dec(n, q, t); round(s.skip(3), m + 4); b64_acc(t, seq![s[0], s[1], s[2]]);
        assert(seq![s[0], s[1], s[2]] + s.skip(3) =~= s);
    }
}
// decoding an encoding gives back the original bytes
pub proof fn C10_roundtrip(s: S) ensures sp_decode_b64(sp_encode_b64(s)) == Some(s)
{ reveal(sp_decode_b64); reveal(sp_encode_b64); round(s, 0); }

// s continues a line of n characters and has no line longer than max
pub open spec fn lines_within(s: S, n: int, max: int) -> bool decreases s.len()
{ if s.len() == 0 { n <= max } else if pfx(s, b"\r\n") && s.skip(2).len() < s.len() { n <= max && lines_within(s.skip(2), 0, max) } else { lines_within(s.skip(1), n + 1, max) } }
proof fn within4(q: S, t: S, n: int, max: int) requires q.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] q[i] != 13 ensures lines_within(q + t, n, max) == lines_within(t, n + 4, max)
{
    reveal_with_fuel(lines_within, 5); let s = q + t;
    assert(b"\r\n"[0] == 13);
    assert(s.skip(1).skip(1) =~= s.skip(2)); assert(s.skip(2).skip(1) =~= s.skip(3)); assert(s.skip(3).skip(1) =~= s.skip(4)); assert(s.skip(4) =~= t);
    assert(s[0] == q[0] && s.skip(1)[0] == q[1] && s.skip(2)[0] == q[2] && s.skip(3)[0] == q[3]);
    assert(forall|x: S| pfx(x, b"\r\n") ==> x[0] == x.take(2)[0]);
}
proof fn within_brk(n: int, t: S, max: int) requires n <= max ensures lines_within(brk(n) + t, n, max) == (if n >= 72 { lines_within(t, 0, max) } else { lines_within(t, n, max) })
{ reveal_with_fuel(lines_within, 2); let s = brk(n) + t; if n >= 72 { assert(s.skip(2) =~= t); assert(s.take(2) =~= b"\r\n"); } else { assert(s =~= t); } }
proof fn within_eb64(s: S, n: int) requires 0 <= n <= 76 ensures lines_within(l_eb64(s, n, Seq::empty()), n, 76) decreases s.len()
{
    let e = Seq::<u8>::empty();
    eb64_eq(s, n);
    let a = if s.len() > 0 { s[0] as int } else { 0 }; let b = if s.len() > 1 { s[1] as int } else { 0 }; let c = if s.len() > 2 { s[2] as int } else { 0 };
    quad_vals(a, b, c);
    char_val(a / 4); char_val((a % 4) * 16 + b / 16); char_val((a % 4) * 16); char_val((b % 16) * 4 + c / 64); char_val((b % 16) * 4); char_val(c % 64);
    let m = if n >= 72 { 0 } else { n };
    reveal_with_fuel(lines_within, 1);
    if s.len() > 0 {
        let q = if s.len() == 1 { b64_pad2(s[0]) } else if s.len() == 2 { b64_pad1(s[0], s[1]) } else { b64_quad(s[0], s[1], s[2]) };
        let t = if s.len() <= 2 { e } else { l_eb64(s.skip(3), m + 4, e) };
        within_brk(n, q + t, 76); within4(q, t, m, 76); assert((brk(n) + q) + t =~= brk(n) + (q + t));
        if s.len() > 2 { within_eb64(s.skip(3), m + 4); }
    }
}
// encoded lines have at most 76 characters
pub proof fn C10_lines(s: S) ensures lines_within(sp_encode_b64(s), 0, 76) { reveal(sp_encode_b64); within_eb64(s, 0); }
// a character outside of the alphabet changes nothing, wherever it stands
proof fn ign1(x: S, c: u8, y: S, acc: S) requires cls(Cls::NotB64Eq, c) ensures l_b64((x + seq![c]) + y, acc) == l_b64(x + y, acc) decreases x.len(), 4int
{
    let d = (x + seq![c]) + y; let f = x + y; b64_at1(d, 0, acc); b64_at1(f, 0, acc); assert(d.skip(0) =~= d && f.skip(0) =~= f);
    if x.len() == 0 { assert(d.skip(1) =~= y); assert(f =~= y); }
    else { let t = x.skip(1); assert(d.skip(1) =~= (t + seq![c]) + y); assert(f.skip(1) =~= t + y); ign1(t, c, y, acc); ign2(t, c, y, b64_val(x[0]), acc); }
}
proof fn ign2(x: S, c: u8, y: S, a: int, acc: S) requires cls(Cls::NotB64Eq, c) ensures b64_q2((x + seq![c]) + y, a, acc) == b64_q2(x + y, a, acc) decreases x.len(), 3int
{
    let d = (x + seq![c]) + y; let f = x + y; b64_at2(d, 0, a, acc); b64_at2(f, 0, a, acc); assert(d.skip(0) =~= d && f.skip(0) =~= f);
    if x.len() == 0 { assert(d.skip(1) =~= y); assert(f =~= y); }
    else { let t = x.skip(1); assert(d.skip(1) =~= (t + seq![c]) + y); assert(f.skip(1) =~= t + y); ign2(t, c, y, a, acc); ign3(t, c, y, a, b64_val(x[0]), acc); }
}
proof fn ign3(x: S, c: u8, y: S, a: int, b: int, acc: S) requires cls(Cls::NotB64Eq, c) ensures b64_q3((x + seq![c]) + y, a, b, acc) == b64_q3(x + y, a, b, acc) decreases x.len(), 2int
{
    let d = (x + seq![c]) + y; let f = x + y; b64_at3(d, 0, a, b, acc); b64_at3(f, 0, a, b, acc); assert(d.skip(0) =~= d && f.skip(0) =~= f);
    if x.len() == 0 { assert(d.skip(1) =~= y); assert(f =~= y); }
    else { let t = x.skip(1); assert(d.skip(1) =~= (t + seq![c]) + y); assert(f.skip(1) =~= t + y); ign3(t, c, y, a, b, acc); ign4(t, c, y, a, b, None, acc); ign4(t, c, y, a, b, Some(b64_val(x[0])), acc); }
}
proof fn ign4(x: S, c: u8, y: S, a: int, b: int, k: Option<int>, acc: S) requires cls(Cls::NotB64Eq, c) ensures b64_q4((x + seq![c]) + y, a, b, k, acc) == b64_q4(x + y, a, b, k, acc) decreases x.len(), 1int
{
    let d = (x + seq![c]) + y; let f = x + y; b64_at4(d, 0, a, b, k, acc); b64_at4(f, 0, a, b, k, acc); assert(d.skip(0) =~= d && f.skip(0) =~= f);
    if x.len() == 0 { assert(d.skip(1) =~= y); assert(f =~= y); }
    else { let t = x.skip(1); assert(d.skip(1) =~= (t + seq![c]) + y); assert(f.skip(1) =~= t + y);
        assert forall|w: S| #[trigger] l_b64((t + seq![c]) + y, w) == l_b64(t + y, w) by { ign1(t, c, y, w); }
        ign4(t, c, y, a, b, k, acc); }
}
pub proof fn C10_ignored(x: S, c: u8, y: S) requires cls(Cls::NotB64Eq, c) ensures sp_decode_b64((x + seq![c]) + y) == sp_decode_b64(x + y) { reveal(sp_decode_b64); ign1(x, c, y, Seq::empty()); }

//@thm C11 mime
proof fn qp_one(s: S, acc: S) requires s.len() > 0 ensures l_qp(s, acc) == l_qp(s.skip(qp_step(s).0), acc + qp_step(s).1), 1 <= qp_step(s).0 <= s.len()
{ let d = acc + s; let i = acc.len() as int; assert(d.skip(i) =~= s); assert(d.take(i) =~= acc); qp_at(d, i); splice_at(d, i, qp_step(s).0, qp_step(s).1); }
proof fn eqp_one(s: S, n: int, acc: S) requires s.len() > 0 ensures l_eqp(s, n, acc) == l_eqp(s.skip(eqp_step(s, n).0), eqp_step(s, n).2, acc + eqp_step(s, n).1), 1 <= eqp_step(s, n).0 <= s.len()
{ let d = acc + s; let i = acc.len() as int; assert(d.skip(i) =~= s); assert(d.take(i) =~= acc); eqp_at(d, i, n); splice_at(d, i, eqp_step(s, n).0, eqp_step(s, n).1); }
proof fn qp_acc(s: S, acc: S) ensures l_qp(s, acc) == acc + l_qp(s, Seq::empty()) decreases s.len()
{
    let e = Seq::<u8>::empty(); assert(acc + e =~= acc);
    if s.len() > 0 {
        let st = qp_step(s);
        qp_one(s, acc); qp_one(s, e); qp_acc(s.skip(st.0), acc + st.1); qp_acc(s.skip(st.0), e + st.1);
        let r = l_qp(s.skip(st.0), e); assert(e + st.1 =~= st.1); assert((acc + st.1) + r =~= acc + (st.1 + r));
    } else { reveal(l_qp); }
}
proof fn qp_first(s: S) requires s.len() > 0 ensures l_qp(s, Seq::empty()) == qp_step(s).1 + l_qp(s.skip(qp_step(s).0), Seq::empty()), 1 <= qp_step(s).0 <= s.len()
{ let e = Seq::<u8>::empty(); qp_one(s, e); assert(e + qp_step(s).1 =~= qp_step(s).1); qp_acc(s.skip(qp_step(s).0), qp_step(s).1); }
proof fn eqp_acc(s: S, n: int, acc: S) ensures l_eqp(s, n, acc) == acc + l_eqp(s, n, Seq::empty()) decreases s.len()
{
    let e = Seq::<u8>::empty(); assert(acc + e =~= acc);
    if s.len() > 0 {
        let st = eqp_step(s, n);
        eqp_one(s, n, acc); eqp_one(s, n, e); eqp_acc(s.skip(st.0), st.2, acc + st.1); eqp_acc(s.skip(st.0), st.2, e + st.1);
        let r = l_eqp(s.skip(st.0), st.2, e); assert(e + st.1 =~= st.1); assert((acc + st.1) + r =~= acc + (st.1 + r));
    } else { reveal(l_eqp); }
}
proof fn eqp_first(s: S, n: int) requires s.len() > 0 ensures l_eqp(s, n, Seq::empty()) == eqp_step(s, n).1 + l_eqp(s.skip(eqp_step(s, n).0), eqp_step(s, n).2, Seq::empty()), 1 <= eqp_step(s, n).0 <= s.len()
{ let e = Seq::<u8>::empty(); eqp_one(s, n, e); assert(e + eqp_step(s, n).1 =~= eqp_step(s, n).1); eqp_acc(s.skip(eqp_step(s, n).0), eqp_step(s, n).2, eqp_step(s, n).1); }
proof fn hex_val(n: int) requires 0 <= n < 16 ensures is_hex(hexchar(n)), hexval(hexchar(n)) == n, hexchar(n) != 13 { reveal(hexchar); reveal(hexval); }
pub open spec fn soft(n: int) -> S { if n >= 72 { seq![61u8, 13u8, 10u8] } else { Seq::empty() } }
// what one step of the encoder writes, and that the decoder reads it back
proof fn step_back(s: S, n: int, t: S) requires s.len() > 0 ensures ({ let (k, out, m) = eqp_step(s, n); l_qp(out + t, Seq::empty()) == s.take(k) + l_qp(t, Seq::empty()) })
{
    let e = Seq::<u8>::empty(); let (k, out, m) = eqp_step(s, n); let x = out + t;
    let q = if cls(Cls::QpLit, s[0]) || ((s[0] == 9 || s[0] == 32) && s.len() > 1 && s[1] != 13) { seq![s[0]] } else if s[0] == 13 && at(s, 1, 10) { seq![13u8, 10u8] } else { seq![61u8, hexchar(s[0] as int / 16), hexchar(s[0] as int % 16)] };
    assert(out =~= soft(n) + q);
    hex_val(s[0] as int / 16); hex_val(s[0] as int % 16);
    let y = q + t;
    if n >= 72 { qp_first(x); assert(x.skip(3) =~= y); assert(qp_step(x).0 == 3); assert(e + l_qp(y, e) =~= l_qp(y, e)); } else { assert(x =~= y); }
    assert(l_qp(x, e) == l_qp(y, e));
    qp_first(y); assert(y.skip(q.len() as int) =~= t);
    assert(qp_step(y).0 == q.len());
    assert(qp_step(y).1 =~= s.take(k)) by { if q.len() == 3 { assert((s[0] as int / 16) * 16 + s[0] as int % 16 == s[0] as int); assert(s.take(1) =~= seq![s[0]]); } }
}
proof fn qp_round(s: S, n: int) ensures l_qp(l_eqp(s, n, Seq::empty()), Seq::empty()) == s decreases s.len()
{
    let e = Seq::<u8>::empty();
    if s.len() == 0 { reveal(l_qp); reveal(l_eqp); assert(s =~= e); } else {
        let (k, out, m) = eqp_step(s, n); eqp_first(s, n); qp_round(s.skip(k), m); step_back(s, n, l_eqp(s.skip(k), m, e)); assert(s.take(k) + s.skip(k) =~= s);
    }
}
// encoding any bytes and decoding the result gives the original bytes
pub proof fn C11_roundtrip(s: S) ensures sp_decode_qp(sp_encode_qp(s)) == s { reveal(sp_decode_qp); reveal(sp_encode_qp); qp_round(s, 0); }

// s continues a line of n characters and has no line longer than max
pub open spec fn qlines(s: S, n: int, max: int) -> bool decreases s.len()
{ if s.len() == 0 { n <= max } else if s[0] == 13 && at(s, 1, 10) && s.skip(2).len() < s.len() { n <= max && qlines(s.skip(2), 0, max) } else { qlines(s.skip(1), n + 1, max) } }
proof fn q_within(s: S, n: int) requires 0 <= n <= 75 ensures qlines(l_eqp(s, n, Seq::empty()), n, 76) decreases s.len()
{
    let e = Seq::<u8>::empty();
    if s.len() == 0 { reveal(l_eqp); } else {
        let (k, out, m) = eqp_step(s, n); eqp_first(s, n); q_within(s.skip(k), m);
        let t = l_eqp(s.skip(k), m, e);
        let x = out + t;
        let q = if cls(Cls::QpLit, s[0]) || ((s[0] == 9 || s[0] == 32) && s.len() > 1 && s[1] != 13) { seq![s[0]] } else if s[0] == 13 && at(s, 1, 10) { seq![13u8, 10u8] } else { seq![61u8, hexchar(s[0] as int / 16), hexchar(s[0] as int % 16)] };
        assert(out =~= soft(n) + q);
        hex_val(s[0] as int / 16); hex_val(s[0] as int % 16);
        let y = q + t; let n1 = if n >= 72 { 0 } else { n };
        reveal_with_fuel(qlines, 4);
        if n >= 72 { assert(x.skip(1).skip(2) =~= y); assert(x[0] == 61 && x.skip(1)[0] == 13 && x.skip(1)[1] == 10); } else { assert(x =~= y); }
        assert(qlines(x, n, 76) == qlines(y, n1, 76));
        if q.len() == 3 { assert(y.skip(1).skip(1) =~= y.skip(2)); assert(y.skip(2).skip(1) =~= t); assert(y[0] == q[0] && y.skip(1)[0] == q[1] && y.skip(2)[0] == q[2]); } else if q.len() == 2 { assert(y.skip(2) =~= t); assert(y[0] == 13 && y[1] == 10); } else { assert(y.skip(1) =~= t); assert(y[0] == q[0]); }
    }
}
// encoded lines have at most 76 characters
pub proof fn C11_lines(s: S) ensures qlines(sp_encode_qp(s), 0, 76) { reveal(sp_encode_qp); q_within(s, 0); }
// every escape is replaced by its byte, soft line breaks vanish, permitted characters and line breaks stay, everything else becomes U+FFFD
pub proof fn C11_decoding(s: S) ensures
    sp_decode_qp(Seq::empty()) == Seq::<u8>::empty(),
    s.len() > 0 ==> sp_decode_qp(s) == qp_step(s).1 + sp_decode_qp(s.skip(qp_step(s).0)),
{ reveal(sp_decode_qp); if s.len() > 0 { qp_first(s); } else { reveal(l_qp); } reveal(l_qp); }

//@thm C08
// nothing out of range is accepted
pub proof fn C08_range(s: S) ensures match sp_date_time(s) { Some((r, d)) => {
    &&& match d.day_name { Some(n) => 0 <= n <= 6, None => true }
    &&& 1 <= d.date.day <= 31 && 1 <= d.date.month <= 12 && 1990 <= d.date.year
    &&& 0 <= d.time.time.hour <= 23 && 0 <= d.time.time.minute <= 59 && 0 <= d.time.time.second <= 60
    &&& 0 <= d.time.zone.hour_offset <= 99 && 0 <= d.time.zone.minute_offset <= 59
}, None => true }
{
    reveal(sp_date_time); reveal(sp_date); reveal(sp_time); reveal(sp_day); reveal(sp_month); reveal(sp_year); reveal(sp_time_of_day); reveal(sp_zone); reveal(sp_day_of_week); reveal(sp_day_name);
    assert(forall|x: S| #[trigger] sp_two_digits(x) is Some ==> 0 <= sp_two_digits(x)->Some_0.1 <= 99) by { reveal(sp_two_digits); reveal(sp_digit); }
    assert(forall|x: S| #[trigger] sp_digit(x) is Some ==> 0 <= sp_digit(x)->Some_0.1 <= 9) by { reveal(sp_digit); }
}
// names of days and months are read in any letter case
pub open spec fn same_letters(s: S, t: S) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> lower(#[trigger] s[i]) == lower(t[i]) }
pub proof fn C08_case(s: S, t: S, r: S) requires same_letters(s, t), s.len() == 3 ensures sp_day_name(s + r) == sp_day_name(t + r), sp_month(s + r) == sp_month(t + r)
{
    reveal(sp_day_name); reveal(sp_month); reveal(lower); let a = s + r; let b = t + r;
    assert(a.skip(3) =~= r && b.skip(3) =~= r);
    assert(a[0] == s[0] && a[1] == s[1] && a[2] == s[2] && b[0] == t[0] && b[1] == t[1] && b[2] == t[2]);
}
// the digits written are the number returned
pub proof fn C08_digits(a: u8, b: u8, r: S) requires cls(Cls::Digit, a), cls(Cls::Digit, b)
    ensures sp_two_digits(seq![a, b] + r) == Some((r, (a - 48) * 10 + (b - 48))), sp_two_digits(seq![a, b] + r)->Some_0.1 == decval(seq![a, b])
{ reveal(sp_two_digits); reveal(sp_digit); let s = seq![a, b] + r; assert(s.skip(1).skip(1) =~= r); assert(s.skip(1)[0] == b); reveal_with_fuel(decval, 3); let x = seq![a, b]; assert(x.drop_last() =~= seq![a]); assert(seq![a].drop_last().len() == 0); }

//@thm C03
pub open spec fn a_line(l: S) -> bool { l.len() <= 998 && forall|i: int| 0 <= i < l.len() ==> cls(Cls::Text, #[trigger] l[i]) }
pub open spec fn a_lines(ls: Seq<S>) -> bool { ls.len() > 0 && forall|i: int| 0 <= i < ls.len() ==> a_line(#[trigger] ls[i]) }
// the lines with CRLF between them
pub open spec fn join_lines(ls: Seq<S>) -> S decreases ls.len()
{ if ls.len() == 0 { Seq::empty() } else if ls.len() == 1 { ls[0] } else { (ls[0] + b"\r\n") + join_lines(ls.skip(1)) } }
proof fn tr(s: S, m: int) ensures 0 <= text_run(s, m) <= s.len(), text_run(s, m) <= m || m < 0, forall|i: int| 0 <= i < text_run(s, m) ==> cls(Cls::Text, #[trigger] s[i]) decreases s.len()
{ reveal(text_run); if m > 0 && s.len() > 0 && cls(Cls::Text, s[0]) { tr(s.skip(1), m - 1); assert forall|i: int| 0 <= i < text_run(s, m) implies cls(Cls::Text, #[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
proof fn lines_acc(s: S, acc: Seq<S>) ensures match l_lines(s, Seq::empty()) { Some(x) => l_lines(s, acc) == Some(acc + x), None => l_lines(s, acc) is None } decreases s.len()
{
    reveal(l_lines); let e = Seq::<S>::empty(); let n = text_run(s, 998); tr(s, 998);
    let v = s.take(n); let t = s.skip(n);
    if pfx(t, b"\r\n") { let a = t.skip(2); if a.len() < s.len() { lines_acc(a, acc.push(v)); lines_acc(a, e.push(v)); match l_lines(a, e) { Some(x) => { assert(acc + (e.push(v) + x) =~= acc.push(v) + x); } None => {} } } }
    else { assert(acc + e.push(v) =~= acc.push(v)); }
}
// splitting a body loses and adds nothing: the lines are good lines and, with CRLF between them, they are the body
pub proof fn C03_lines(s: S) ensures match l_lines(s, Seq::empty()) { Some(ls) => a_lines(ls) && join_lines(ls) == s && l_lines_ok(s), None => !l_lines_ok(s) } decreases s.len()
{
    reveal(l_lines); reveal(l_lines_ok); let e = Seq::<S>::empty(); let n = text_run(s, 998); tr(s, 998);
    let v = s.take(n); let t = s.skip(n);
    assert(a_line(v));
    if pfx(t, b"\r\n") {
        let a = t.skip(2);
        if a.len() < s.len() {
            C03_lines(a); lines_acc(a, e.push(v));
            match l_lines(a, e) { Some(x) => {
                let ls = e.push(v) + x; assert(ls[0] == v); assert(ls.skip(1) =~= x); assert(x.len() > 0);
                assert forall|i: int| 0 <= i < ls.len() implies a_line(#[trigger] ls[i]) by { if i > 0 { assert(ls[i] == x[i - 1]); } }
                assert(t =~= t.take(2) + a); assert(s =~= (v + b"\r\n") + a);
            } None => {} }
        }
    } else if t.len() == 0 { assert(e.push(v)[0] == v); assert(v =~= s); }
}
// and every CRLF separated sequence of good lines is accepted, and split into those lines
pub proof fn C03_accepted(ls: Seq<S>) requires a_lines(ls) ensures l_lines(join_lines(ls), Seq::empty()) == Some(ls) decreases ls.len()
{
    reveal(l_lines); let e = Seq::<S>::empty(); let s = join_lines(ls); let v = ls[0]; let n = v.len() as int;
    assert(a_line(ls[0]));
    assert(b"\r\n"[0] == 13);
    if ls.len() == 1 { text_run_is(s, 998, n); assert(s.take(n) =~= v); assert(e.push(v) =~= ls); }
    else {
        let r = ls.skip(1); let t = join_lines(r);
        assert(s =~= v + (b"\r\n" + t)); assert forall|j: int| 0 <= j < n implies cls(Cls::Text, s[j]) by { assert(s[j] == v[j]); }
        assert(s[n] == 13);
        text_run_is(s, 998, n);
        assert(s.take(n) =~= v); let x = s.skip(n); assert(x =~= b"\r\n" + t); assert(x.take(2) =~= b"\r\n"); assert(x.skip(2) =~= t);
        assert forall|i: int| 0 <= i < r.len() implies a_line(#[trigger] r[i]) by { assert(r[i] == ls[i + 1]); }
        C03_accepted(r); lines_acc(t, e.push(v)); assert(e.push(v) + r =~= ls);
    }
}
// what follows the headers is a blank line and the body, or nothing
pub proof fn C03_body(r: S) ensures match sp_body(r) { Some(Some(b)) => r == b"\r\n" + b && l_lines_ok(b), Some(None) => r.len() == 0, None => r.len() > 0 }
{ reveal(sp_body); if pfx(r, b"\r\n") { assert(r =~= r.take(2) + r.skip(2)); } }

//@thm C04
// the headers that may occur once, numbered; -1: any number of times
pub open spec fn kind(f: VField) -> int { match f {
    VField::From(_) => 0, VField::Sender(_) => 1, VField::Subject(_) => 2, VField::Date(_) => 3, VField::To(_) => 4, VField::Cc(_) => 5, VField::Bcc(_) => 6, VField::MessageId(_) => 7, VField::InReplyTo(_) => 8, VField::References(_) => 9, VField::ReplyTo(_) => 10,
//@if mime
    VField::MimeVersion(_) => 11, VField::ContentType(_) => 12, VField::ContentTransferEncoding(_) => 13, VField::ContentId(_) => 14, VField::ContentDescription(_) => 15, VField::ContentDisposition(_) => 16,
//@end
    VField::Comments(_) => -1, VField::Keywords(_) => -1, VField::Trace(_) => -1, VField::Unknown(_) => -1 } }
pub open spec fn om<T>(o: Option<T>, f: spec_fn(T) -> VField) -> Option<VField> { match o { Some(x) => Some(f(x)), None => None } }
// the attribute that belongs to header k
pub open spec fn slot(h: VHeaders, k: int) -> Option<VField> {
    if k == 0 { om(h.from, |x| VField::From(x)) } else if k == 1 { om(h.sender, |x| VField::Sender(x)) } else if k == 2 { om(h.subject, |x| VField::Subject(x)) } else if k == 3 { om(h.date, |x| VField::Date(x)) }
    else if k == 4 { om(h.to, |x| VField::To(x)) } else if k == 5 { om(h.cc, |x| VField::Cc(x)) } else if k == 6 { om(h.bcc, |x| VField::Bcc(x)) } else if k == 7 { om(h.message_id, |x| VField::MessageId(x)) }
    else if k == 8 { om(h.in_reply_to, |x| VField::InReplyTo(x)) } else if k == 9 { om(h.references, |x| VField::References(x)) } else if k == 10 { om(h.reply_to, |x| VField::ReplyTo(x)) }
//@if mime
    else if k == 11 { om(h.mime_version, |x| VField::MimeVersion(x)) } else if k == 12 { om(h.content_type, |x| VField::ContentType(x)) } else if k == 13 { om(h.content_transfer_encoding, |x| VField::ContentTransferEncoding(x)) }
    else if k == 14 { om(h.content_id, |x| VField::ContentId(x)) } else if k == 15 { om(h.content_description, |x| VField::ContentDescription(x)) } else if k == 16 { om(h.content_disposition, |x| VField::ContentDisposition(x)) }
//@end
    else { None }
}
pub open spec fn comments_of(fs: Seq<VField>) -> Seq<S> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { (match fs[0] { VField::Comments(v) => seq![v], _ => Seq::empty() }) + comments_of(fs.skip(1)) } }
pub open spec fn keywords_of(fs: Seq<VField>) -> Seq<Seq<S>> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { (match fs[0] { VField::Keywords(v) => v, _ => Seq::empty() }) + keywords_of(fs.skip(1)) } }
pub open spec fn unknown_of(fs: Seq<VField>) -> Seq<(S, S)> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { (match fs[0] { VField::Unknown(v) => seq![(v.name, v.value)], _ => Seq::empty() }) + unknown_of(fs.skip(1)) } }
pub open spec fn trace_of(fs: Seq<VField>) -> Seq<(Option<Option<VEmailAddress>>, Seq<(Seq<VReceivedToken>, VDateTime)>, Seq<VTraceField>)> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { (match fs[0] { VField::Trace(v) => seq![(v.return_path, v.received, v.fields)], _ => Seq::empty() }) + trace_of(fs.skip(1)) } }

pub open spec fn slot_has(h: VHeaders, k: int, f: VField) -> bool { slot(h, k) == Some(f) }
proof fn add_one(h: VHeaders, f: VField) ensures
    kind(f) >= 0 && slot(h, kind(f)) is Some ==> add_field(h, f) is None,
    kind(f) < 0 || slot(h, kind(f)) is None ==> add_field(h, f) is Some,
    match add_field(h, f) { Some(g) => (forall|k: int| 0 <= k <= 16 ==> #[trigger] slot(g, k) == (if k == kind(f) { Some(f) } else { slot(h, k) }))
        && g.comments =~= h.comments + (match f { VField::Comments(v) => seq![v], _ => Seq::empty() }) && g.keywords =~= h.keywords + (match f { VField::Keywords(v) => v, _ => Seq::empty() })
        && g.unknown_fields =~= h.unknown_fields + (match f { VField::Unknown(v) => seq![(v.name, v.value)], _ => Seq::empty() }) && g.trace =~= h.trace + (match f { VField::Trace(v) => seq![(v.return_path, v.received, v.fields)], _ => Seq::empty() }), None => true }
{ reveal(add_field); }

// the headers of a list of fields: each attribute is the value of its header, comments, keywords, unknown fields and traces are all there, in order
proof fn headers_are(fs: Seq<VField>, h: VHeaders) ensures match l_headers(fs, h) {
    Some(g) => (forall|k: int, f: VField| 0 <= k <= 16 ==> (#[trigger] slot_has(g, k, f) == (slot(h, k) == Some(f) || (exists|i: int| 0 <= i < fs.len() && fs[i] == f && kind(f) == k))))
        && (forall|i: int| 0 <= i < fs.len() && kind(#[trigger] fs[i]) >= 0 ==> slot(h, kind(fs[i])) is None)
        && (forall|i: int, j: int| 0 <= i < j < fs.len() && kind(#[trigger] fs[i]) >= 0 ==> kind(fs[i]) != kind(#[trigger] fs[j]))
        && g.comments == h.comments + comments_of(fs) && g.keywords == h.keywords + keywords_of(fs) && g.unknown_fields == h.unknown_fields + unknown_of(fs) && g.trace == h.trace + trace_of(fs),
    None => (exists|i: int| 0 <= i < fs.len() && kind(#[trigger] fs[i]) >= 0 && slot(h, kind(fs[i])) is Some) || (exists|i: int, j: int| 0 <= i < j < fs.len() && kind(#[trigger] fs[i]) >= 0 && kind(fs[i]) == kind(#[trigger] fs[j])),
} decreases fs.len()
{
    reveal(l_headers);
    if fs.len() == 0 {
        assert(h.comments + comments_of(fs) =~= h.comments); assert(h.keywords + keywords_of(fs) =~= h.keywords); assert(h.unknown_fields + unknown_of(fs) =~= h.unknown_fields); assert(h.trace + trace_of(fs) =~= h.trace);
    } else {
        let f0 = fs[0]; let r = fs.skip(1); add_one(h, f0);
        match add_field(h, f0) {
            None => { assert(kind(fs[0]) >= 0); }
            Some(g1) => {
                headers_are(r, g1);
                assert forall|i: int| 1 <= i < fs.len() implies #[trigger] fs[i] == r[i - 1] by {}
                match l_headers(r, g1) {
                    Some(g) => {
                        assert forall|k: int, f: VField| 0 <= k <= 16 implies (#[trigger] slot_has(g, k, f) == (slot(h, k) == Some(f) || (exists|i: int| 0 <= i < fs.len() && fs[i] == f && kind(f) == k))) by {
                            if slot_has(g1, k, f) { if k == kind(f0) { assert(fs[0] == f); } }
                            if exists|i: int| 0 <= i < r.len() && r[i] == f && kind(f) == k { let i = choose|i: int| 0 <= i < r.len() && r[i] == f && kind(f) == k; assert(fs[i + 1] == f); }
                            if exists|i: int| 0 <= i < fs.len() && fs[i] == f && kind(f) == k { let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f && kind(f) == k; if i == 0 { assert(slot_has(g1, k, f)); } else { assert(r[i - 1] == f); } }
                            if slot(h, k) == Some(f) { assert(slot(g1, k) is Some); if k == kind(f0) { assert(false); } }
                        }
                        assert forall|i: int| 0 <= i < fs.len() && kind(#[trigger] fs[i]) >= 0 implies slot(h, kind(fs[i])) is None by { if i > 0 { assert(slot(g1, kind(r[i - 1])) is None); if kind(fs[i]) == kind(f0) { assert(slot_has(g1, kind(f0), f0)); } } }
                        assert forall|i: int, j: int| 0 <= i < j < fs.len() && kind(#[trigger] fs[i]) >= 0 implies kind(fs[i]) != kind(#[trigger] fs[j]) by { if i > 0 { assert(fs[j] == r[j - 1]); } else { assert(slot_has(g1, kind(f0), f0)); assert(kind(r[j - 1]) >= 0 ==> slot(g1, kind(r[j - 1])) is None); } }
                        assert((h.comments + (match f0 { VField::Comments(v) => seq![v], _ => Seq::empty() })) + comments_of(r) =~= h.comments + comments_of(fs));
                        assert((h.keywords + (match f0 { VField::Keywords(v) => v, _ => Seq::empty() })) + keywords_of(r) =~= h.keywords + keywords_of(fs));
                        assert((h.unknown_fields + (match f0 { VField::Unknown(v) => seq![(v.name, v.value)], _ => Seq::empty() })) + unknown_of(r) =~= h.unknown_fields + unknown_of(fs));
                        assert((h.trace + (match f0 { VField::Trace(v) => seq![(v.return_path, v.received, v.fields)], _ => Seq::empty() })) + trace_of(r) =~= h.trace + trace_of(fs));
                    }
                    None => {
                        if exists|i: int| 0 <= i < r.len() && kind(#[trigger] r[i]) >= 0 && slot(g1, kind(r[i])) is Some {
                            let i = choose|i: int| 0 <= i < r.len() && kind(#[trigger] r[i]) >= 0 && slot(g1, kind(r[i])) is Some;
                            assert(fs[i + 1] == r[i]);
                            if kind(r[i]) == kind(f0) { assert(kind(fs[0]) == kind(fs[i + 1])); }
                        } else {
                            let (i, j) = choose|i: int, j: int| 0 <= i < j < r.len() && kind(#[trigger] r[i]) >= 0 && kind(r[i]) == kind(#[trigger] r[j]);
                            assert(fs[i + 1] == r[i] && fs[j + 1] == r[j]);
                        }
                    }
                }
            }
        }
    }
}
pub open spec fn repeated(fs: Seq<VField>) -> bool { exists|i: int, j: int| 0 <= i < j < fs.len() && kind(#[trigger] fs[i]) >= 0 && kind(fs[i]) == kind(#[trigger] fs[j]) }
pub open spec fn has_field(fs: Seq<VField>, f: VField) -> bool { exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == f }
// a message is rejected when From or Date is missing, when a header that may occur once is repeated, when there is no Sender and not exactly one author
pub proof fn C04_email(s: S) ensures match sp_parse_message(s) { None => sp_email(s) is None, Some((fs, b)) => match sp_email(s) {
    Some(e) => !repeated(fs) && has_field(fs, VField::From(e.from)) && has_field(fs, VField::Date(e.date))
        && (has_field(fs, VField::Sender(e.sender)) || ((forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 1) && e.from =~= seq![e.sender]))
        && (match e.subject { Some(v) => has_field(fs, VField::Subject(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 2 })
        && (match e.to { Some(v) => has_field(fs, VField::To(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 4 })
        && (match e.cc { Some(v) => has_field(fs, VField::Cc(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 5 })
        && (match e.bcc { Some(v) => has_field(fs, VField::Bcc(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 6 })
        && (match e.message_id { Some(v) => has_field(fs, VField::MessageId(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 7 })
        && (match e.in_reply_to { Some(v) => has_field(fs, VField::InReplyTo(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 8 })
        && (match e.references { Some(v) => has_field(fs, VField::References(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 9 })
        && (match e.reply_to { Some(v) => has_field(fs, VField::ReplyTo(v)), None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 10 })
        && e.comments == comments_of(fs) && e.keywords == keywords_of(fs) && e.unknown_fields == unknown_of(fs) && e.trace == trace_of(fs),
    None => repeated(fs) || (forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 0) || (forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 3)
        || ((forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != 1) && (forall|v: Seq<VMailbox>| #[trigger] has_field(fs, VField::From(v)) ==> v.len() != 1))
//@if mime
        || (forall|h: VHeaders| l_headers(fs, no_headers()) == Some(h) ==> #[trigger] body_value(h, b) is None)
//@end
} }
{
    reveal(sp_email); reveal(make_email);
    match sp_parse_message(s) { None => {}, Some((fs, b)) => {
        let h0 = no_headers(); headers_are(fs, h0);
        assert(forall|k: int| slot(h0, k) is None);
        match l_headers(fs, h0) { None => {}, Some(g) => {
            assert(g.comments =~= comments_of(fs) && g.keywords =~= keywords_of(fs) && g.unknown_fields =~= unknown_of(fs) && g.trace =~= trace_of(fs));
            assert forall|k: int| 0 <= k <= 16 implies (match #[trigger] slot(g, k) { Some(f) => has_field(fs, f) && kind(f) == k, None => forall|i: int| 0 <= i < fs.len() ==> kind(#[trigger] fs[i]) != k }) by {
                match slot(g, k) { Some(f) => { assert(slot_has(g, k, f)); }, None => { assert forall|i: int| 0 <= i < fs.len() implies kind(#[trigger] fs[i]) != k by { if kind(fs[i]) == k { assert(slot_has(g, k, fs[i])); } } } }
            }
            assert(slot(g, 0) == om(g.from, |x| VField::From(x)));  assert(slot(g, 1) == om(g.sender, |x| VField::Sender(x))); assert(slot(g, 2) == om(g.subject, |x| VField::Subject(x))); assert(slot(g, 3) == om(g.date, |x| VField::Date(x)));
            assert(slot(g, 4) == om(g.to, |x| VField::To(x))); assert(slot(g, 5) == om(g.cc, |x| VField::Cc(x))); assert(slot(g, 6) == om(g.bcc, |x| VField::Bcc(x))); assert(slot(g, 7) == om(g.message_id, |x| VField::MessageId(x)));
            assert(slot(g, 8) == om(g.in_reply_to, |x| VField::InReplyTo(x))); assert(slot(g, 9) == om(g.references, |x| VField::References(x))); assert(slot(g, 10) == om(g.reply_to, |x| VField::ReplyTo(x)));
            assert forall|v: Seq<VMailbox>| #[trigger] has_field(fs, VField::From(v)) implies g.from == Some(v) by { assert(slot_has(g, 0, VField::From(v))); }
        } }
    } }
}

//@thm C05
pub open spec fn same_letters5(s: S, t: S) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> lower(#[trigger] s[i]) == lower(t[i]) }
// a name and its colon
pub open spec fn named(n: S) -> bool { n.len() > 0 && n[n.len() - 1] == 58 && forall|i: int| 0 <= i < n.len() - 1 ==> #[trigger] n[i] != 58 }
proof fn ci_is(s: S, n: S) ensures ci(s, n) == (s.len() >= n.len() && forall|i: int| 0 <= i < n.len() ==> lower(#[trigger] s[i]) == lower(n[i])) decreases n.len()
{
    reveal(ci);
    if n.len() > 0 && s.len() > 0 {
        ci_is(s.skip(1), n.skip(1));
        if ci(s, n) { assert forall|i: int| 0 <= i < n.len() implies lower(#[trigger] s[i]) == lower(n[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); assert(n.skip(1)[i - 1] == n[i]); } } }
        else if lower(s[0]) == lower(n[0]) && s.len() >= n.len() { let i = choose|i: int| 0 <= i < n.len() - 1 && lower(#[trigger] s.skip(1)[i]) != lower(n.skip(1)[i]); assert(s[i + 1] == s.skip(1)[i]); }
    }
}
// a header name is recognized by all of its letters, in any case, up to the colon
proof fn ci_name(p: S, r: S, n: S) requires named(p), named(n) ensures ci(p + r, n) == same_letters5(p, n), ci(p + r, n) ==> (p + r).skip(n.len() as int) =~= r
{
    reveal(lower); ci_is(p + r, n); let s = p + r; let k = p.len() - 1; let m = n.len() - 1;
    assert(s[k] == p[k]);
    if ci(s, n) {
        if k < m { assert(lower(s[k]) == lower(n[k])); assert(n[k] != 58); } else if m < k { assert(lower(s[m]) == lower(n[m])); assert(p[m] == s[m]); assert(p[m] != 58); }
        assert forall|i: int| 0 <= i < p.len() implies lower(#[trigger] p[i]) == lower(n[i]) by { assert(s[i] == p[i]); }
    } else if same_letters5(p, n) { assert forall|i: int| 0 <= i < n.len() implies lower(#[trigger] s[i]) == lower(n[i]) by { assert(s[i] == p[i]); } }
}
proof fn ci_two(p: S, q: S, r: S, n: S) requires named(p), named(q), same_letters5(p, q), named(n) ensures sp_ci(p + r, n) == sp_ci(q + r, n), sp_ci(p + r, n) is Some == same_letters5(p, n)
{
    ci_name(p, r, n); ci_name(q, r, n);
    if same_letters5(p, n) { assert forall|i: int| 0 <= i < q.len() implies lower(#[trigger] q[i]) == lower(n[i]) by { assert(lower(p[i]) == lower(n[i])); } }
    if same_letters5(q, n) { assert forall|i: int| 0 <= i < p.len() implies lower(#[trigger] p[i]) == lower(n[i]) by { assert(lower(q[i]) == lower(n[i])); } }
}
proof fn names() ensures named(b"Date:"), named(b"From:"), named(b"Sender:"), named(b"Reply-To:"), named(b"To:"), named(b"Cc:"), named(b"Bcc:"), named(b"Message-ID:"), named(b"In-Reply-To:"), named(b"References:"), named(b"Subject:"), named(b"Comments:"), named(b"Keywords:"),
//@if mime
    named(b"MIME-Version:"), named(b"Content-Type:"), named(b"Content-Transfer-Encoding:"), named(b"Content-ID:"), named(b"Content-Description:"), named(b"Content-Disposition:"),
//@end
    true
{}
// every header gives the same field however its name is cased
pub proof fn C05_case(p: S, q: S, r: S) requires named(p), named(q), same_letters5(p, q)
    ensures sp_h_date(p + r) == sp_h_date(q + r), sp_h_from(p + r) == sp_h_from(q + r), sp_h_sender(p + r) == sp_h_sender(q + r), sp_h_reply_to(p + r) == sp_h_reply_to(q + r), sp_h_to(p + r) == sp_h_to(q + r), sp_h_cc(p + r) == sp_h_cc(q + r), sp_h_bcc(p + r) == sp_h_bcc(q + r),
        sp_h_message_id(p + r) == sp_h_message_id(q + r), sp_h_in_reply_to(p + r) == sp_h_in_reply_to(q + r), sp_h_references(p + r) == sp_h_references(q + r), sp_h_subject(p + r) == sp_h_subject(q + r), sp_h_comments(p + r) == sp_h_comments(q + r), sp_h_keywords(p + r) == sp_h_keywords(q + r),
//@if mime
        sp_h_mime_version(p + r) == sp_h_mime_version(q + r), sp_h_content_type(p + r) == sp_h_content_type(q + r), sp_h_content_transfer_encoding(p + r) == sp_h_content_transfer_encoding(q + r), sp_h_content_id(p + r) == sp_h_content_id(q + r), sp_h_content_description(p + r) == sp_h_content_description(q + r), sp_h_content_disposition(p + r) == sp_h_content_disposition(q + r),
//@end
        (match sp_field(p + r) { Some((a, VField::Unknown(u))) => match sp_h_unknown(q + r) { Some(v) => sp_field(q + r) == Some((v.0, VField::Unknown(VUnknown { name: v.1.0, value: v.1.1 }))), None => sp_field(q + r) is None }, x => x is Some ==> sp_field(q + r) == x }),
{
    names();
    ci_two(p, q, r, b"Date:"); ci_two(p, q, r, b"From:"); ci_two(p, q, r, b"Sender:"); ci_two(p, q, r, b"Reply-To:"); ci_two(p, q, r, b"To:"); ci_two(p, q, r, b"Cc:"); ci_two(p, q, r, b"Bcc:"); ci_two(p, q, r, b"Message-ID:"); ci_two(p, q, r, b"In-Reply-To:"); ci_two(p, q, r, b"References:");
    ci_two(p, q, r, b"Subject:"); ci_two(p, q, r, b"Comments:"); ci_two(p, q, r, b"Keywords:");
    reveal(sp_h_date); reveal(sp_h_from); reveal(sp_h_sender); reveal(sp_h_reply_to); reveal(sp_h_to); reveal(sp_h_cc); reveal(sp_h_bcc); reveal(sp_h_message_id); reveal(sp_h_in_reply_to); reveal(sp_h_references); reveal(sp_h_subject); reveal(sp_h_comments); reveal(sp_h_keywords);
//@if mime
    ci_two(p, q, r, b"MIME-Version:"); ci_two(p, q, r, b"Content-Type:"); ci_two(p, q, r, b"Content-Transfer-Encoding:"); ci_two(p, q, r, b"Content-ID:"); ci_two(p, q, r, b"Content-Description:"); ci_two(p, q, r, b"Content-Disposition:");
    reveal(sp_h_mime_version); reveal(sp_h_content_type); reveal(sp_h_content_transfer_encoding); reveal(sp_h_content_id); reveal(sp_h_content_description); reveal(sp_h_content_disposition);
//@end
    reveal(sp_field);
}
// an unknown header keeps its name as written
pub proof fn C05_unknown_name(p: S, r: S) requires named(p), p.len() > 1, forall|i: int| 0 <= i < p.len() - 1 ==> cls(Cls::Ftext, #[trigger] p[i])
    ensures match sp_h_unknown(p + r) { Some((a, (n, v))) => n == p.drop_last() && sp_unknown_text(r) is Some && sp_unknown_text(r)->Some_0.1 == v, None => sp_unknown_text(r) is None || !pfx(sp_unknown_text(r)->Some_0.0, b"\r\n") }
{
    reveal(sp_h_unknown); let s = p + r; let k = p.len() - 1;
    assert forall|j: int| 0 <= j < k implies cls(Cls::Ftext, s[j]) by { assert(s[j] == p[j]); }
    assert(s[k] == 58); assert(!cls(Cls::Ftext, 58));
    run_is(Cls::Ftext, s, k); assert(s.take(k) =~= p.drop_last()); let a = s.skip(k); assert(a.take(1) =~= b":"); assert(a.skip(1) =~= r);
}
proof fn differ(s: S, n: S, m: S, i: int) requires named(n), named(m), ci(s, n), n.len() != m.len() || (0 <= i < n.len() && lower(n[i]) != lower(m[i])) ensures !ci(s, m)
{
    ci_is(s, n); ci_is(s, m); reveal(lower); let a = n.len() - 1; let b = m.len() - 1;
    if ci(s, m) { if a < b { assert(lower(s[a]) == lower(n[a])); assert(lower(s[a]) == lower(m[a])); assert(m[a] != 58); } else if b < a { assert(lower(s[b]) == lower(m[b])); assert(lower(s[b]) == lower(n[b])); assert(n[b] != 58); } else { assert(lower(s[i]) == lower(n[i])); assert(lower(s[i]) == lower(m[i])); } }
}
// a field of a known name with the syntax of that name is returned as that field, and every field returned has the name and the syntax of its kind
pub proof fn C05_each(s: S) ensures
        sp_h_date(s) is Some ==> sp_field(s) == Some((sp_h_date(s)->Some_0.0, VField::Date(sp_h_date(s)->Some_0.1))),
        sp_h_from(s) is Some ==> sp_field(s) == Some((sp_h_from(s)->Some_0.0, VField::From(sp_h_from(s)->Some_0.1))),
        sp_h_sender(s) is Some ==> sp_field(s) == Some((sp_h_sender(s)->Some_0.0, VField::Sender(sp_h_sender(s)->Some_0.1))),
        sp_h_reply_to(s) is Some ==> sp_field(s) == Some((sp_h_reply_to(s)->Some_0.0, VField::ReplyTo(sp_h_reply_to(s)->Some_0.1))),
        sp_h_to(s) is Some ==> sp_field(s) == Some((sp_h_to(s)->Some_0.0, VField::To(sp_h_to(s)->Some_0.1))),
        sp_h_cc(s) is Some ==> sp_field(s) == Some((sp_h_cc(s)->Some_0.0, VField::Cc(sp_h_cc(s)->Some_0.1))),
        sp_h_bcc(s) is Some ==> sp_field(s) == Some((sp_h_bcc(s)->Some_0.0, VField::Bcc(sp_h_bcc(s)->Some_0.1))),
        sp_h_message_id(s) is Some ==> sp_field(s) == Some((sp_h_message_id(s)->Some_0.0, VField::MessageId(sp_h_message_id(s)->Some_0.1))),
        sp_h_in_reply_to(s) is Some ==> sp_field(s) == Some((sp_h_in_reply_to(s)->Some_0.0, VField::InReplyTo(sp_h_in_reply_to(s)->Some_0.1))),
        sp_h_references(s) is Some ==> sp_field(s) == Some((sp_h_references(s)->Some_0.0, VField::References(sp_h_references(s)->Some_0.1))),
        sp_h_subject(s) is Some ==> sp_field(s) == Some((sp_h_subject(s)->Some_0.0, VField::Subject(sp_h_subject(s)->Some_0.1))),
        sp_h_comments(s) is Some ==> sp_field(s) == Some((sp_h_comments(s)->Some_0.0, VField::Comments(sp_h_comments(s)->Some_0.1))),
//@if mime
        sp_h_mime_version(s) is Some ==> sp_field(s) == Some((sp_h_mime_version(s)->Some_0.0, VField::MimeVersion(sp_h_mime_version(s)->Some_0.1))),
        sp_h_content_type(s) is Some ==> sp_field(s) == Some((sp_h_content_type(s)->Some_0.0, VField::ContentType(sp_h_content_type(s)->Some_0.1))),
        sp_h_content_transfer_encoding(s) is Some ==> sp_field(s) == Some((sp_h_content_transfer_encoding(s)->Some_0.0, VField::ContentTransferEncoding(sp_h_content_transfer_encoding(s)->Some_0.1))),
        sp_h_content_id(s) is Some ==> sp_field(s) == Some((sp_h_content_id(s)->Some_0.0, VField::ContentId(sp_h_content_id(s)->Some_0.1))),
        sp_h_content_description(s) is Some ==> sp_field(s) == Some((sp_h_content_description(s)->Some_0.0, VField::ContentDescription(sp_h_content_description(s)->Some_0.1))),
        sp_h_content_disposition(s) is Some ==> sp_field(s) == Some((sp_h_content_disposition(s)->Some_0.0, VField::ContentDisposition(sp_h_content_disposition(s)->Some_0.1))),
//@end
        sp_h_keywords(s) is Some ==> sp_field(s) == Some((sp_h_keywords(s)->Some_0.0, VField::Keywords(sp_h_keywords(s)->Some_0.1))),
        (match sp_field(s) { Some((r, VField::Date(v))) => sp_h_date(s) == Some((r, v)) && ci(s, b"Date:"), _ => true }),
        (match sp_field(s) { Some((r, VField::From(v))) => sp_h_from(s) == Some((r, v)) && ci(s, b"From:"), _ => true }),
        (match sp_field(s) { Some((r, VField::Sender(v))) => sp_h_sender(s) == Some((r, v)) && ci(s, b"Sender:"), _ => true }),
        (match sp_field(s) { Some((r, VField::ReplyTo(v))) => sp_h_reply_to(s) == Some((r, v)) && ci(s, b"Reply-To:"), _ => true }),
        (match sp_field(s) { Some((r, VField::To(v))) => sp_h_to(s) == Some((r, v)) && ci(s, b"To:"), _ => true }),
        (match sp_field(s) { Some((r, VField::Cc(v))) => sp_h_cc(s) == Some((r, v)) && ci(s, b"Cc:"), _ => true }),
        (match sp_field(s) { Some((r, VField::Bcc(v))) => sp_h_bcc(s) == Some((r, v)) && ci(s, b"Bcc:"), _ => true }),
        (match sp_field(s) { Some((r, VField::MessageId(v))) => sp_h_message_id(s) == Some((r, v)) && ci(s, b"Message-ID:"), _ => true }),
        (match sp_field(s) { Some((r, VField::InReplyTo(v))) => sp_h_in_reply_to(s) == Some((r, v)) && ci(s, b"In-Reply-To:"), _ => true }),
        (match sp_field(s) { Some((r, VField::References(v))) => sp_h_references(s) == Some((r, v)) && ci(s, b"References:"), _ => true }),
        (match sp_field(s) { Some((r, VField::Subject(v))) => sp_h_subject(s) == Some((r, v)) && ci(s, b"Subject:"), _ => true }),
        (match sp_field(s) { Some((r, VField::Comments(v))) => sp_h_comments(s) == Some((r, v)) && ci(s, b"Comments:"), _ => true }),
//@if mime
        (match sp_field(s) { Some((r, VField::MimeVersion(v))) => sp_h_mime_version(s) == Some((r, v)) && ci(s, b"MIME-Version:"), _ => true }),
        (match sp_field(s) { Some((r, VField::ContentType(v))) => sp_h_content_type(s) == Some((r, v)) && ci(s, b"Content-Type:"), _ => true }),
        (match sp_field(s) { Some((r, VField::ContentTransferEncoding(v))) => sp_h_content_transfer_encoding(s) == Some((r, v)) && ci(s, b"Content-Transfer-Encoding:"), _ => true }),
        (match sp_field(s) { Some((r, VField::ContentId(v))) => sp_h_content_id(s) == Some((r, v)) && ci(s, b"Content-ID:"), _ => true }),
        (match sp_field(s) { Some((r, VField::ContentDescription(v))) => sp_h_content_description(s) == Some((r, v)) && ci(s, b"Content-Description:"), _ => true }),
        (match sp_field(s) { Some((r, VField::ContentDisposition(v))) => sp_h_content_disposition(s) == Some((r, v)) && ci(s, b"Content-Disposition:"), _ => true }),
//@end
        (match sp_field(s) { Some((r, VField::Keywords(v))) => sp_h_keywords(s) == Some((r, v)) && ci(s, b"Keywords:"), _ => true }),
{
    names(); reveal(lower); reveal(sp_field);
    reveal(sp_h_date);
    reveal(sp_h_from);
    reveal(sp_h_sender);
    reveal(sp_h_reply_to);
    reveal(sp_h_to);
    reveal(sp_h_cc);
    reveal(sp_h_bcc);
    reveal(sp_h_message_id);
    reveal(sp_h_in_reply_to);
    reveal(sp_h_references);
    reveal(sp_h_subject);
    reveal(sp_h_comments);
//@if mime
    reveal(sp_h_mime_version);
    reveal(sp_h_content_type);
    reveal(sp_h_content_transfer_encoding);
    reveal(sp_h_content_id);
    reveal(sp_h_content_description);
    reveal(sp_h_content_disposition);
//@end
    reveal(sp_h_keywords);
    if ci(s, b"Date:") {
    }
    if ci(s, b"From:") {
        differ(s, b"From:", b"Date:", 0);
    }
    if ci(s, b"Sender:") {
        differ(s, b"Sender:", b"Date:", 0);
        differ(s, b"Sender:", b"From:", 0);
    }
    if ci(s, b"Reply-To:") {
        differ(s, b"Reply-To:", b"Date:", 0);
        differ(s, b"Reply-To:", b"From:", 0);
        differ(s, b"Reply-To:", b"Sender:", 0);
    }
    if ci(s, b"To:") {
        differ(s, b"To:", b"Date:", 0);
        differ(s, b"To:", b"From:", 0);
        differ(s, b"To:", b"Sender:", 0);
        differ(s, b"To:", b"Reply-To:", 0);
    }
    if ci(s, b"Cc:") {
        differ(s, b"Cc:", b"Date:", 0);
        differ(s, b"Cc:", b"From:", 0);
        differ(s, b"Cc:", b"Sender:", 0);
        differ(s, b"Cc:", b"Reply-To:", 0);
        differ(s, b"Cc:", b"To:", 0);
    }
    if ci(s, b"Bcc:") {
        differ(s, b"Bcc:", b"Date:", 0);
        differ(s, b"Bcc:", b"From:", 0);
        differ(s, b"Bcc:", b"Sender:", 0);
        differ(s, b"Bcc:", b"Reply-To:", 0);
        differ(s, b"Bcc:", b"To:", 0);
        differ(s, b"Bcc:", b"Cc:", 0);
    }
    if ci(s, b"Message-ID:") {
        differ(s, b"Message-ID:", b"Date:", 0);
        differ(s, b"Message-ID:", b"From:", 0);
        differ(s, b"Message-ID:", b"Sender:", 0);
        differ(s, b"Message-ID:", b"Reply-To:", 0);
        differ(s, b"Message-ID:", b"To:", 0);
        differ(s, b"Message-ID:", b"Cc:", 0);
        differ(s, b"Message-ID:", b"Bcc:", 0);
    }
    if ci(s, b"In-Reply-To:") {
        differ(s, b"In-Reply-To:", b"Date:", 0);
        differ(s, b"In-Reply-To:", b"From:", 0);
        differ(s, b"In-Reply-To:", b"Sender:", 0);
        differ(s, b"In-Reply-To:", b"Reply-To:", 0);
        differ(s, b"In-Reply-To:", b"To:", 0);
        differ(s, b"In-Reply-To:", b"Cc:", 0);
        differ(s, b"In-Reply-To:", b"Bcc:", 0);
        differ(s, b"In-Reply-To:", b"Message-ID:", 0);
    }
    if ci(s, b"References:") {
        differ(s, b"References:", b"Date:", 0);
        differ(s, b"References:", b"From:", 0);
        differ(s, b"References:", b"Sender:", 0);
        differ(s, b"References:", b"Reply-To:", 0);
        differ(s, b"References:", b"To:", 0);
        differ(s, b"References:", b"Cc:", 0);
        differ(s, b"References:", b"Bcc:", 0);
        differ(s, b"References:", b"Message-ID:", 0);
        differ(s, b"References:", b"In-Reply-To:", 0);
    }
    if ci(s, b"Subject:") {
        differ(s, b"Subject:", b"Date:", 0);
        differ(s, b"Subject:", b"From:", 0);
        differ(s, b"Subject:", b"Sender:", 0);
        differ(s, b"Subject:", b"Reply-To:", 0);
        differ(s, b"Subject:", b"To:", 0);
        differ(s, b"Subject:", b"Cc:", 0);
        differ(s, b"Subject:", b"Bcc:", 0);
        differ(s, b"Subject:", b"Message-ID:", 0);
        differ(s, b"Subject:", b"In-Reply-To:", 0);
        differ(s, b"Subject:", b"References:", 0);
    }
    if ci(s, b"Comments:") {
        differ(s, b"Comments:", b"Date:", 0);
        differ(s, b"Comments:", b"From:", 0);
        differ(s, b"Comments:", b"Sender:", 0);
        differ(s, b"Comments:", b"Reply-To:", 0);
        differ(s, b"Comments:", b"To:", 0);
        differ(s, b"Comments:", b"Cc:", 0);
        differ(s, b"Comments:", b"Bcc:", 0);
        differ(s, b"Comments:", b"Message-ID:", 0);
        differ(s, b"Comments:", b"In-Reply-To:", 0);
        differ(s, b"Comments:", b"References:", 0);
        differ(s, b"Comments:", b"Subject:", 0);
    }
//@if mime
    if ci(s, b"MIME-Version:") {
        differ(s, b"MIME-Version:", b"Date:", 0);
        differ(s, b"MIME-Version:", b"From:", 0);
        differ(s, b"MIME-Version:", b"Sender:", 0);
        differ(s, b"MIME-Version:", b"Reply-To:", 0);
        differ(s, b"MIME-Version:", b"To:", 0);
        differ(s, b"MIME-Version:", b"Cc:", 0);
        differ(s, b"MIME-Version:", b"Bcc:", 0);
        differ(s, b"MIME-Version:", b"Message-ID:", 0);
        differ(s, b"MIME-Version:", b"In-Reply-To:", 0);
        differ(s, b"MIME-Version:", b"References:", 0);
        differ(s, b"MIME-Version:", b"Subject:", 0);
        differ(s, b"MIME-Version:", b"Comments:", 0);
    }
//@end
//@if mime
    if ci(s, b"Content-Type:") {
        differ(s, b"Content-Type:", b"Date:", 0);
        differ(s, b"Content-Type:", b"From:", 0);
        differ(s, b"Content-Type:", b"Sender:", 0);
        differ(s, b"Content-Type:", b"Reply-To:", 0);
        differ(s, b"Content-Type:", b"To:", 0);
        differ(s, b"Content-Type:", b"Cc:", 0);
        differ(s, b"Content-Type:", b"Bcc:", 0);
        differ(s, b"Content-Type:", b"Message-ID:", 0);
        differ(s, b"Content-Type:", b"In-Reply-To:", 0);
        differ(s, b"Content-Type:", b"References:", 0);
        differ(s, b"Content-Type:", b"Subject:", 0);
        differ(s, b"Content-Type:", b"Comments:", 0);
        differ(s, b"Content-Type:", b"MIME-Version:", 0);
    }
//@end
//@if mime
    if ci(s, b"Content-Transfer-Encoding:") {
        differ(s, b"Content-Transfer-Encoding:", b"Date:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"From:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Sender:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Reply-To:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"To:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Cc:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Bcc:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Message-ID:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"In-Reply-To:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"References:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Subject:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Comments:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"MIME-Version:", 0);
        differ(s, b"Content-Transfer-Encoding:", b"Content-Type:", 0);
    }
//@end
//@if mime
    if ci(s, b"Content-ID:") {
        differ(s, b"Content-ID:", b"Date:", 0);
        differ(s, b"Content-ID:", b"From:", 0);
        differ(s, b"Content-ID:", b"Sender:", 0);
        differ(s, b"Content-ID:", b"Reply-To:", 0);
        differ(s, b"Content-ID:", b"To:", 0);
        differ(s, b"Content-ID:", b"Cc:", 0);
        differ(s, b"Content-ID:", b"Bcc:", 0);
        differ(s, b"Content-ID:", b"Message-ID:", 0);
        differ(s, b"Content-ID:", b"In-Reply-To:", 0);
        differ(s, b"Content-ID:", b"References:", 0);
        differ(s, b"Content-ID:", b"Subject:", 0);
        differ(s, b"Content-ID:", b"Comments:", 0);
        differ(s, b"Content-ID:", b"MIME-Version:", 0);
        differ(s, b"Content-ID:", b"Content-Type:", 0);
        differ(s, b"Content-ID:", b"Content-Transfer-Encoding:", 0);
    }
//@end
//@if mime
    if ci(s, b"Content-Description:") {
        differ(s, b"Content-Description:", b"Date:", 0);
        differ(s, b"Content-Description:", b"From:", 0);
        differ(s, b"Content-Description:", b"Sender:", 0);
        differ(s, b"Content-Description:", b"Reply-To:", 0);
        differ(s, b"Content-Description:", b"To:", 0);
        differ(s, b"Content-Description:", b"Cc:", 0);
        differ(s, b"Content-Description:", b"Bcc:", 0);
        differ(s, b"Content-Description:", b"Message-ID:", 0);
        differ(s, b"Content-Description:", b"In-Reply-To:", 0);
        differ(s, b"Content-Description:", b"References:", 0);
        differ(s, b"Content-Description:", b"Subject:", 0);
        differ(s, b"Content-Description:", b"Comments:", 0);
        differ(s, b"Content-Description:", b"MIME-Version:", 0);
        differ(s, b"Content-Description:", b"Content-Type:", 0);
        differ(s, b"Content-Description:", b"Content-Transfer-Encoding:", 0);
        differ(s, b"Content-Description:", b"Content-ID:", 0);
    }
//@end
//@if mime
    if ci(s, b"Content-Disposition:") {
        differ(s, b"Content-Disposition:", b"Date:", 0);
        differ(s, b"Content-Disposition:", b"From:", 0);
        differ(s, b"Content-Disposition:", b"Sender:", 0);
        differ(s, b"Content-Disposition:", b"Reply-To:", 0);
        differ(s, b"Content-Disposition:", b"To:", 0);
        differ(s, b"Content-Disposition:", b"Cc:", 0);
        differ(s, b"Content-Disposition:", b"Bcc:", 0);
        differ(s, b"Content-Disposition:", b"Message-ID:", 0);
        differ(s, b"Content-Disposition:", b"In-Reply-To:", 0);
        differ(s, b"Content-Disposition:", b"References:", 0);
        differ(s, b"Content-Disposition:", b"Subject:", 0);
        differ(s, b"Content-Disposition:", b"Comments:", 0);
        differ(s, b"Content-Disposition:", b"MIME-Version:", 0);
        differ(s, b"Content-Disposition:", b"Content-Type:", 0);
        differ(s, b"Content-Disposition:", b"Content-Transfer-Encoding:", 0);
        differ(s, b"Content-Disposition:", b"Content-ID:", 0);
        differ(s, b"Content-Disposition:", b"Content-Description:", 9);
    }
//@end
    if ci(s, b"Keywords:") {
        differ(s, b"Keywords:", b"Date:", 0);
        differ(s, b"Keywords:", b"From:", 0);
        differ(s, b"Keywords:", b"Sender:", 0);
        differ(s, b"Keywords:", b"Reply-To:", 0);
        differ(s, b"Keywords:", b"To:", 0);
        differ(s, b"Keywords:", b"Cc:", 0);
        differ(s, b"Keywords:", b"Bcc:", 0);
        differ(s, b"Keywords:", b"Message-ID:", 0);
        differ(s, b"Keywords:", b"In-Reply-To:", 0);
        differ(s, b"Keywords:", b"References:", 0);
        differ(s, b"Keywords:", b"Subject:", 0);
        differ(s, b"Keywords:", b"Comments:", 0);
//@if mime
        differ(s, b"Keywords:", b"MIME-Version:", 0);
        differ(s, b"Keywords:", b"Content-Type:", 0);
        differ(s, b"Keywords:", b"Content-Transfer-Encoding:", 0);
        differ(s, b"Keywords:", b"Content-ID:", 0);
        differ(s, b"Keywords:", b"Content-Description:", 0);
        differ(s, b"Keywords:", b"Content-Disposition:", 0);
//@end
    }
}

//@thm C07
// vs are the values read one after the other from s, and r is what is left
pub open spec fn chain<T>(f: spec_fn(S) -> Option<(S, T)>, s: S, vs: Seq<T>, r: S) -> bool decreases vs.len()
{ if vs.len() == 0 { r == s } else { match f(s) { Some((a, v)) => v == vs[0] && a.len() < s.len() && chain(f, a, vs.skip(1), r), None => false } } }
// no further value can be read
pub open spec fn done<T>(f: spec_fn(S) -> Option<(S, T)>, s: S) -> bool { match f(s) { Some((a, v)) => a.len() >= s.len(), None => true } }
pub open spec fn comma_mailbox() -> spec_fn(S) -> Option<(S, VMailbox)> { |s: S| if pfx(s, b",") { sp_mailbox(s.skip(1)) } else { None } }
proof fn list_mailboxes(s: S, acc: Seq<VMailbox>) ensures ({ let (r, x) = l_mailboxes(s, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(comma_mailbox(), s, x.skip(acc.len() as int), r) && done(comma_mailbox(), r) }) decreases s.len()
{
    reveal(l_mailboxes); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0);
    match (comma_mailbox())(s) { Some((r, v)) => if r.len() < s.len() {
        list_mailboxes(r, acc.push(v)); let x = l_mailboxes(r, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
pub open spec fn comma_address() -> spec_fn(S) -> Option<(S, VAddress)> { |s: S| if pfx(s, b",") { sp_address(s.skip(1)) } else { None } }
proof fn list_addresses(s: S, acc: Seq<VAddress>) ensures ({ let (r, x) = l_addresses(s, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(comma_address(), s, x.skip(acc.len() as int), r) && done(comma_address(), r) }) decreases s.len()
{
    reveal(l_addresses); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0);
    match (comma_address())(s) { Some((r, v)) => if r.len() < s.len() {
        list_addresses(r, acc.push(v)); let x = l_addresses(r, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
// a list is one value and then values that follow a comma, as many as there are, in order
pub proof fn C07_mailboxes(s: S) ensures match sp_mailbox_list(s) { Some((r, x)) => x.len() > 0 && (match sp_mailbox(s) { Some((a, v)) => v == x[0] && chain(comma_mailbox(), a, x.skip(1), r) && done(comma_mailbox(), r), None => false }), None => sp_mailbox(s) is None }
{ reveal(sp_mailbox_list); match sp_mailbox(s) { Some((a, v)) => { let e = Seq::<VMailbox>::empty().push(v); list_mailboxes(a, e); let x = l_mailboxes(a, e).1; assert(x.take(1)[0] == v); }, None => {} } }
pub proof fn C07_addresses(s: S) ensures match sp_address_list(s) { Some((r, x)) => x.len() > 0 && (match sp_address(s) { Some((a, v)) => v == x[0] && chain(comma_address(), a, x.skip(1), r) && done(comma_address(), r), None => false }), None => sp_address(s) is None }
{ reveal(sp_address_list); match sp_address(s) { Some((a, v)) => { let e = Seq::<VAddress>::empty().push(v); list_addresses(a, e); let x = l_addresses(a, e).1; assert(x.take(1)[0] == v); }, None => {} } }
// an address is a mailbox or a group; a group has a name and members, possibly none
pub proof fn C07_address(s: S) ensures match sp_address(s) { Some((r, VAddress::Mailbox(m))) => sp_mailbox(s) == Some((r, m)), Some((r, VAddress::Group(g))) => sp_mailbox(s) is None && sp_group(s) == Some((r, g)), None => sp_mailbox(s) is None && sp_group(s) is None }
{ reveal(sp_address); }
pub proof fn C07_group(s: S) ensures match sp_group(s) { Some((r, (name, members))) => (match sp_phrase(s) { Some((a, n)) => n == name && pfx(a, b":") && (match sp_mailbox_list(a.skip(1)) { Some((b, v)) => members == v && pfx(b, b";") && r == ocfws(b.skip(1)), None => members.len() == 0 && pfx(ocfws(a.skip(1)), b";") && r == ocfws(ocfws(a.skip(1)).skip(1)) }), None => false }), None => true }
{ reveal(sp_group); }

//@thm C09
// vs are the values read one after the other from s, and r is what is left
pub open spec fn chain<T>(f: spec_fn(S) -> Option<(S, T)>, s: S, vs: Seq<T>, r: S) -> bool decreases vs.len()
{ if vs.len() == 0 { r == s } else { match f(s) { Some((a, v)) => v == vs[0] && a.len() < s.len() && chain(f, a, vs.skip(1), r), None => false } } }
// no further value can be read
pub open spec fn done<T>(f: spec_fn(S) -> Option<(S, T)>, s: S) -> bool { match f(s) { Some((a, v)) => a.len() >= s.len(), None => true } }
pub open spec fn an_id() -> spec_fn(S) -> Option<(S, (S, S))> { |s: S| sp_message_id(s) }
proof fn list_ids(s: S, acc: Seq<(S, S)>) ensures ({ let (r, x) = l_ids(s, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(an_id(), s, x.skip(acc.len() as int), r) && done(an_id(), r) }) decreases s.len()
{
    reveal(l_ids); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0);
    match (an_id())(s) { Some((r, v)) => if r.len() < s.len() {
        list_ids(r, acc.push(v)); let x = l_ids(r, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
// a list of identifiers has at least one, and all of them in order
pub proof fn C09_ids(s: S) ensures match sp_ids(s) { Some((r, x)) => x.len() > 0 && (match sp_message_id(s) { Some((a, v)) => v == x[0] && chain(an_id(), a, x.skip(1), r) && done(an_id(), r), None => false }), None => sp_message_id(s) is None }
{ reveal(sp_ids); match sp_message_id(s) { Some((a, v)) => { let e = Seq::<(S, S)>::empty().push(v); list_ids(a, e); let x = l_ids(a, e).1; assert(x.take(1)[0] == v); }, None => {} } }
// '<' left '@' right '>', right being a dot-atom or a literal in brackets that are not part of the value
pub proof fn C09_parts(l: S, d: S, r: S) requires l.len() > 0, d.len() > 0, forall|i: int| 0 <= i < l.len() ==> cls(Cls::Atext, #[trigger] l[i]), forall|i: int| 0 <= i < d.len() ==> cls(Cls::Dtext, #[trigger] d[i])
    ensures sp_message_id((((b"<" + l) + b"@[") + d) + (b"]>" + r)) == Some((ocfws(r), (l, d)))
{
    let s = (((b"<" + l) + b"@[") + d) + (b"]>" + r); reveal(sp_message_id); reveal(sp_dot_atom_text); reveal(l_dot); reveal(sp_id_right); reveal(sp_no_fold_literal); reveal(sp_cfws); reveal(sp_real_cfws); reveal(sp_comment); reveal(sp_fws);
    assert(s[0] == 60); assert(!cls(Cls::Wsp, 60)); run_is(Cls::Wsp, s, 0); assert(s.skip(0) =~= s); assert(b"\r\n"[0] == 13 && b"("[0] == 40);
    assert(!pfx(s, b"\r\n")) by { if pfx(s, b"\r\n") { assert(s.take(2)[0] == 13); } }
    assert(!pfx(s, b"(")) by { if pfx(s, b"(") { assert(s.take(1)[0] == 40); } }
    assert(ocfws(s) == s);
    assert(s.take(1) =~= b"<"); let a = s.skip(1); assert(a =~= (l + b"@[") + (d + (b"]>" + r)));
    assert forall|j: int| 0 <= j < l.len() implies cls(Cls::Atext, a[j]) by { assert(a[j] == l[j]); } assert(!cls(Cls::Atext, 64)); assert(a[l.len() as int] == 64);
    run_is(Cls::Atext, a, l.len() as int); assert(a.take(l.len() as int) =~= l); let b = a.skip(l.len() as int); assert(b =~= b"@[" + (d + (b"]>" + r)));
    assert(!pfx(b, b".")) by { if pfx(b, b".") { assert(b.take(1)[0] == 46); assert(b[0] == 64); } }
    assert(b.take(1) =~= b"@"); let c = b.skip(1); assert(c =~= b"[" + (d + (b"]>" + r)));
    assert(c[0] == 91); assert(!cls(Cls::Atext, 91)); run_is(Cls::Atext, c, 0); assert(c.take(1) =~= b"["); let e = c.skip(1); assert(e =~= d + (b"]>" + r));
    assert forall|j: int| 0 <= j < d.len() implies cls(Cls::Dtext, e[j]) by { assert(e[j] == d[j]); } assert(!cls(Cls::Dtext, 93)); assert(e[d.len() as int] == 93);
    run_is(Cls::Dtext, e, d.len() as int); assert(e.take(d.len() as int) =~= d); let f = e.skip(d.len() as int); assert(f =~= b"]>" + r); assert(f.take(1) =~= b"]"); let g = f.skip(1); assert(g =~= b">" + r); assert(g.take(1) =~= b">"); assert(g.skip(1) =~= r);
}

//@thm C19
// vs are the values read one after the other from s, and r is what is left
pub open spec fn chain<T>(f: spec_fn(S) -> Option<(S, T)>, s: S, vs: Seq<T>, r: S) -> bool decreases vs.len()
{ if vs.len() == 0 { r == s } else { match f(s) { Some((a, v)) => v == vs[0] && a.len() < s.len() && chain(f, a, vs.skip(1), r), None => false } } }
// no further value can be read
pub open spec fn done<T>(f: spec_fn(S) -> Option<(S, T)>, s: S) -> bool { match f(s) { Some((a, v)) => a.len() >= s.len(), None => true } }
pub open spec fn a_received() -> spec_fn(S) -> Option<(S, (Seq<VReceivedToken>, VDateTime))> { |s: S| sp_h_received(s) }
proof fn list_received(s: S, acc: Seq<(Seq<VReceivedToken>, VDateTime)>) ensures ({ let (r, x) = l_received(s, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(a_received(), s, x.skip(acc.len() as int), r) && done(a_received(), r) }) decreases s.len()
{
    reveal(l_received); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0);
    match (a_received())(s) { Some((r, v)) => if r.len() < s.len() {
        list_received(r, acc.push(v)); let x = l_received(r, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
pub open spec fn a_resent() -> spec_fn(S) -> Option<(S, VTraceField)> { |s: S| sp_resent(s) }
proof fn list_resent(s: S, acc: Seq<VTraceField>) ensures ({ let (r, x) = l_resent(s, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(a_resent(), s, x.skip(acc.len() as int), r) && done(a_resent(), r) }) decreases s.len()
{
    reveal(l_resent); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0);
    match (a_resent())(s) { Some((r, v)) => if r.len() < s.len() {
        list_resent(r, acc.push(v)); let x = l_resent(r, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
pub open spec fn a_token() -> spec_fn(S) -> Option<(S, VReceivedToken)> { |s: S| sp_token(s) }
proof fn list_tokens(s: S, acc: Seq<VReceivedToken>) ensures ({ let (r, x) = l_tokens(s, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(a_token(), s, x.skip(acc.len() as int), r) && done(a_token(), r) }) decreases s.len()
{
    reveal(l_tokens); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0);
    match (a_token())(s) { Some((r, v)) => if r.len() < s.len() {
        list_tokens(r, acc.push(v)); let x = l_tokens(r, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
// one block: an optional return path, at least one Received and all that follow it, all Resent headers that follow
pub open spec fn block_from(t: S, rec: Seq<(Seq<VReceivedToken>, VDateTime)>, r: S) -> bool { match sp_h_received(t) { Some((a, v)) => rec.len() > 0 && rec[0] == v && chain(a_received(), a, rec.skip(1), r) && done(a_received(), r), None => false } }
pub proof fn C19_trace(s: S) ensures match sp_trace(s) { Some((r, (path, rec))) => (match sp_h_return_path(s) { Some((a, p)) => path == Some(p) && block_from(a, rec, r), None => path == None::<Option<VEmailAddress>> && block_from(s, rec, r) }), None => (match sp_h_return_path(s) { Some((a, p)) => sp_h_received(a) is None, None => sp_h_received(s) is None }) }
{
    reveal(sp_trace); let t = match sp_h_return_path(s) { Some((a, p)) => a, None => s };
    match sp_h_received(t) { Some((a, v)) => { let e = Seq::<(Seq<VReceivedToken>, VDateTime)>::empty().push(v); list_received(a, e); let x = l_received(a, e).1; assert(x.take(1)[0] == v); }, None => {} }
}
pub proof fn C19_resent(s: S) ensures ({ let (r, x) = l_resent(s, Seq::empty()); chain(a_resent(), s, x, r) && done(a_resent(), r) })
{ list_resent(s, Seq::empty()); let x = l_resent(s, Seq::empty()).1; assert(x.skip(0) =~= x); }
// a Received header holds all of its tokens, in order, and its date
pub proof fn C19_received(s: S) ensures match sp_h_received(s) { Some((r, (toks, d))) => ci(s, b"Received:") && (exists|a: S| chain(a_token(), s.skip(b"Received:".len() as int), toks, a) && done(a_token(), a) && pfx(a, b";") && (match sp_date_time(a.skip(1)) { Some((c, e)) => e == d && pfx(c, b"\r\n") && r == c.skip(2), None => false })), None => true }
{ reveal(sp_h_received); if ci(s, b"Received:") { let q = s.skip(b"Received:".len() as int); list_tokens(q, Seq::empty()); let (a, x) = l_tokens(q, Seq::empty()); assert(x.skip(0) =~= x); assert(chain(a_token(), q, x, a)); } }
// a Resent header has the value of the plain header
pub proof fn C19_same(s: S) requires ci(s, b"Resent-") ensures ({ let t = s.skip(7); sp_r_date(s) == sp_h_date(t) && sp_r_from(s) == sp_h_from(t) && sp_r_sender(s) == sp_h_sender(t) && sp_r_to(s) == sp_h_to(t) && sp_r_cc(s) == sp_h_cc(t) && sp_r_bcc(s) == sp_h_bcc(t) && sp_r_message_id(s) == sp_h_message_id(t) })
{ reveal(sp_r_date); reveal(sp_r_from); reveal(sp_r_sender); reveal(sp_r_to); reveal(sp_r_cc); reveal(sp_r_bcc); reveal(sp_r_message_id); }

//@thm C18
// the text without carriage returns and line feeds
pub open spec fn unfolded(s: S) -> S decreases s.len() { if s.len() == 0 { s } else if s[0] == 13 || s[0] == 10 { unfolded(s.skip(1)) } else { s.take(1) + unfolded(s.skip(1)) } }
proof fn unf_cat(a: S, b: S) ensures unfolded(a + b) == unfolded(a) + unfolded(b) decreases a.len()
{ if a.len() == 0 { assert(a + b =~= b); assert(unfolded(a) + unfolded(b) =~= unfolded(b)); } else { let s = a + b; assert(s.skip(1) =~= a.skip(1) + b); assert(s.take(1) =~= a.take(1)); unf_cat(a.skip(1), b); assert(a.take(1) + (unfolded(a.skip(1)) + unfolded(b)) =~= (a.take(1) + unfolded(a.skip(1))) + unfolded(b)); } }
proof fn unf_none(a: S) requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 13 && a[i] != 10 ensures unfolded(a) == a decreases a.len()
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.len() - 1 implies #[trigger] a.skip(1)[i] != 13 && a.skip(1)[i] != 10 by { assert(a[i + 1] == a.skip(1)[i]); } unf_none(a.skip(1)); assert(a.take(1) + a.skip(1) =~= a); } }
proof fn runs(c: Cls, s: S) requires c == Cls::Wsp || c == Cls::Vchar ensures 0 <= run(c, s) <= s.len(), all(c, s.take(run(c, s))), unfolded(s.take(run(c, s))) == s.take(run(c, s)) decreases s.len()
{ run_bound(c, s); let t = s.take(run(c, s)); run_all(c, s); assert(forall|b: u8| cls(c, b) ==> b != 13 && b != 10); unf_none(t); }
pub open spec fn all(c: Cls, s: S) -> bool { forall|i: int| 0 <= i < s.len() ==> cls(c, #[trigger] s[i]) }
proof fn run_all(c: Cls, s: S) ensures 0 <= run(c, s) <= s.len(), all(c, s.take(run(c, s))) decreases s.len()
{ reveal(run); if s.len() > 0 && cls(c, s[0]) { run_all(c, s.skip(1)); let n = run(c, s); assert forall|i: int| 0 <= i < n implies cls(c, #[trigger] s.take(n)[i]) by { if i > 0 { assert(s.skip(1).take(n - 1)[i - 1] == s[i]); } } } }
pub open spec fn text(s: S) -> bool { forall|i: int| 0 <= i < s.len() ==> cls(Cls::Vchar, #[trigger] s[i]) || cls(Cls::Wsp, s[i]) }
pub open spec fn part(s: S, r: S) -> S { s.take(s.len() - r.len()) }
pub open spec fn rest(s: S, r: S) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
proof fn fold_is(s: S) ensures ({ let (n, w) = ofws(s); rest(s, n) && w == unfolded(part(s, n)) && text(w) })
{
    reveal(sp_fws); let n = run(Cls::Wsp, s); runs(Cls::Wsp, s); let e = s.skip(n); assert(s.skip(0) =~= s); assert(s.take(0).len() == 0); assert(b"\r\n".len() == 2);
    if pfx(e, b"\r\n") {
        let a = e.skip(2); let m = run(Cls::Wsp, a); runs(Cls::Wsp, a);
        if m > 0 {
            let r = a.skip(m); assert(r =~= s.skip(n + 2 + m)); assert(part(s, r) =~= (s.take(n) + b"\r\n") + a.take(m));
            unf_cat(s.take(n) + b"\r\n", a.take(m)); unf_cat(s.take(n), b"\r\n"); reveal_with_fuel(unfolded, 3); assert(unfolded(b"\r\n").len() == 0); assert(s.take(n) + unfolded(b"\r\n") =~= s.take(n));
        }
    }
}
proof fn unstr_is(s: S, acc: S) requires text(acc), acc.len() == 0 || cls(Cls::Vchar, acc.last())
    ensures ({ let (r, v) = l_unstr(s, acc); rest(s, r) && v == acc + unfolded(part(s, r)) && text(v) && (v.len() == 0 || cls(Cls::Vchar, v.last())) && run(Cls::Vchar, ofws(r).0) == 0 }) decreases s.len()
{
    reveal(l_unstr); let (n, w) = ofws(s); fold_is(s); let k = run(Cls::Vchar, n); runs(Cls::Vchar, n);
    assert(s.skip(0) =~= s); assert(s.take(0).len() == 0); assert(acc + s.take(0) =~= acc);
    if k > 0 {
        let r = n.skip(k); let v = n.take(k); assert(rest(s, r)) by { assert(r =~= s.skip(s.len() - r.len())); }
        assert(cls(Cls::Vchar, v[k - 1])); let b = acc + (w + v);
        assert(text(b)) by { assert forall|i: int| 0 <= i < b.len() implies cls(Cls::Vchar, #[trigger] b[i]) || cls(Cls::Wsp, b[i]) by { if i < acc.len() { assert(b[i] == acc[i]); } else if i < acc.len() + w.len() { assert(b[i] == w[i - acc.len()]); } else { assert(b[i] == v[i - acc.len() - w.len()]); } } }
        if r.len() < s.len() {
            unstr_is(r, b); let q = l_unstr(r, b).0;
            assert(q =~= s.skip(s.len() - q.len())); assert(part(s, q) =~= (part(s, n) + v) + part(r, q)); unf_cat(part(s, n) + v, part(r, q)); unf_cat(part(s, n), v);
            assert(b + unfolded(part(r, q)) =~= acc + ((w + v) + unfolded(part(r, q))));
        }
    }
}
proof fn wsp_is(s: S) ensures rest(s, l_wsp(s)), all(Cls::Wsp, part(s, l_wsp(s))), run(Cls::Wsp, l_wsp(s)) == 0 decreases s.len()
{
    reveal(l_wsp); let n = run(Cls::Wsp, s); run_all(Cls::Wsp, s); assert(s.skip(0) =~= s);
    if n > 0 { let r = s.skip(n); wsp_is(r); let q = l_wsp(r); assert(q =~= s.skip(s.len() - q.len())); assert(part(s, q) =~= s.take(n) + part(r, q)); }
}
// the value is the text read without the line breaks of its folds and without trailing white space; it has visible characters and white space only
pub proof fn C18_value(s: S) ensures match sp_unstructured(s) { Some((r, v)) => exists|m: S| rest(s, #[trigger] id(m)) && rest(m, r) && v == unfolded(part(s, m)) && all(Cls::Wsp, part(m, r)) && text(v) && (v.len() == 0 || cls(Cls::Vchar, v.last())), None => false }
{ reveal(sp_unstructured); let e = Seq::<u8>::empty(); unstr_is(s, e); let (m, v) = l_unstr(s, e); assert(e + unfolded(part(s, m)) =~= unfolded(part(s, m))); wsp_is(m); assert(id(m) == m); }
pub open spec fn id(s: S) -> S { s }

//@thm C03
use super::thm_REST::*;
pub open spec fn starts(s: S, h: S, r: S) -> bool { s =~= h + r }
// a message with a body is its header section, a blank line and the body
pub proof fn C03_cut(s: S) ensures match sp_parse_message(s) { Some((fs, Some(b))) => exists|h: S| #[trigger] starts(s, h, b"\r\n" + b), Some((fs, None)) => sp_fields(s) is Some && sp_fields(s)->Some_0.0.len() == 0, None => true }
{
    reveal(sp_parse_message); reveal(sp_body); rest_sp_fields(s);
    match sp_fields(s) { Some((r, fs)) => {
        let h = s.take(s.len() - r.len()); assert(s =~= h + r);
        if pfx(r, b"\r\n") { let b = r.skip(2); assert(r =~= b"\r\n" + b); assert(starts(s, h, b"\r\n" + b)); assert(b"\r\n".len() == 2); }
        match sp_parse_message(s) { Some((_f, Some(b))) => { assert(b == r.skip(2)); }, Some((_f, None)) => { assert(r.len() == 0); }, None => {} }
    }, None => {} }
}

//@thm C16 mime
use super::thm_REST::*;
pub open spec fn starts(s: S, h: S, r: S) -> bool { s =~= h + r }
// the body of a part is what follows its headers and the blank line; without a blank line there is no body
pub proof fn C16_cut(s: S) ensures match sp_part(s) { Some((r, p)) => r.len() == 0 || exists|h: S| #[trigger] starts(s, h, b"\r\n" + r), None => true }
{
    reveal(sp_part); let p0 = VPart { encoding: None, content_type: None, id: None, description: None, disposition: None, additional: Seq::empty() };
    rest_l_part(s, p0); let a = l_part(s, p0).0; let h = s.take(s.len() - a.len()); assert(s =~= h + a);
    if pfx(a, b"\r\n") { assert(a =~= b"\r\n" + a.skip(2)); assert(starts(s, h, b"\r\n" + a.skip(2))); }
}
// the value is that body decoded by the declared encoding, or unchanged when none is declared
pub proof fn C16_value(s: S) ensures match sp_part(s) { None => sp_raw_entity(s) is None, Some((r, p)) => match p.encoding {
    None | Some(VEncoding::SevenBit) | Some(VEncoding::EightBit) | Some(VEncoding::Binary) => sp_raw_entity(s) is Some && sp_raw_entity(s)->Some_0.value == r,
    Some(VEncoding::QuotedPrintable) => sp_raw_entity(s) is Some && sp_raw_entity(s)->Some_0.value == sp_decode_qp(r),
    Some(VEncoding::Base64) => match sp_decode_b64(r) { Some(v) => sp_raw_entity(s) is Some && sp_raw_entity(s)->Some_0.value == v, None => sp_raw_entity(s) is None },
    Some(VEncoding::Unknown(_)) => sp_raw_entity(s) is None } }
{
    reveal(sp_raw_entity); reveal(sp_part); reveal(sp_decode_value); let p0 = VPart { encoding: None, content_type: None, id: None, description: None, disposition: None, additional: Seq::empty() };
    rest_l_part(s, p0); let a = l_part(s, p0).0; if pfx(a, b"\r\n") { rest_skip(a, 2); rest_trans(s, a, a.skip(2)); }
}
// every header of a part that is not a MIME header is kept, in order
pub open spec fn other(s: S, p: VPart) -> bool { sp_h_content_transfer_encoding(s) is None && sp_h_content_type(s) is None && sp_h_content_id(s) is None && sp_h_content_description(s) is None && sp_h_content_disposition(s) is None }
pub proof fn C16_headers(s: S, p: VPart) ensures l_part(s, p).1.additional.len() >= p.additional.len(), l_part(s, p).1.additional.take(p.additional.len() as int) =~= p.additional,
    other(s, p) ==> match sp_h_unknown(s) { Some((r, v)) => r.len() < s.len() ==> l_part(s, p) == l_part(r, VPart { additional: p.additional.push(v), ..p }), None => l_part(s, p) == (s, p) } decreases s.len()
{
    reveal(l_part); let n = p.additional.len() as int; assert(p.additional.take(n) =~= p.additional);
    match sp_h_content_transfer_encoding(s) { Some((r, v)) => if r.len() < s.len() { C16_headers(r, VPart { encoding: Some(v), ..p }) }, None =>
    match sp_h_content_type(s) { Some((r, v)) => if r.len() < s.len() { C16_headers(r, VPart { content_type: Some(v), ..p }) }, None =>
    match sp_h_content_id(s) { Some((r, v)) => if r.len() < s.len() { C16_headers(r, VPart { id: Some(v), ..p }) }, None =>
    match sp_h_content_description(s) { Some((r, v)) => if r.len() < s.len() { C16_headers(r, VPart { description: Some(v), ..p }) }, None =>
    match sp_h_content_disposition(s) { Some((r, v)) => if r.len() < s.len() { C16_headers(r, VPart { disposition: Some(v), ..p }) }, None =>
    match sp_h_unknown(s) { Some((r, v)) => if r.len() < s.len() { let q = VPart { additional: p.additional.push(v), ..p }; C16_headers(r, q); let x = l_part(r, q).1.additional; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(q.additional.take(n) =~= p.additional); }, None => {} }}}}}}
}

//@thm C15 mime
// vs are the values read one after the other from s, and r is what is left
pub open spec fn chain<T>(f: spec_fn(S) -> Option<(S, T)>, s: S, vs: Seq<T>, r: S) -> bool decreases vs.len()
{ if vs.len() == 0 { r == s } else { match f(s) { Some((a, v)) => v == vs[0] && a.len() < s.len() && chain(f, a, vs.skip(1), r), None => false } } }
// no further value can be read
pub open spec fn done<T>(f: spec_fn(S) -> Option<(S, T)>, s: S) -> bool { match f(s) { Some((a, v)) => a.len() >= s.len(), None => true } }

proof fn find_is(s: S, t: S) requires t.len() > 0 ensures match l_find(s, t) { Some(k) => 0 <= k && k + t.len() <= s.len() && pfx(s.skip(k), t) && forall|j: int| 0 <= j < k ==> !pfx(#[trigger] s.skip(j), t), None => forall|j: int| 0 <= j <= s.len() ==> !pfx(#[trigger] s.skip(j), t) } decreases s.len()
{
    reveal(l_find); assert(s.skip(0) =~= s);
    if s.len() > 0 && !pfx(s, t) {
        find_is(s.skip(1), t);
        assert forall|j: int| 1 <= j <= s.len() implies #[trigger] s.skip(j) =~= s.skip(1).skip(j - 1) by {}
        match l_find(s.skip(1), t) { Some(k) => { assert(s.skip(k + 1) =~= s.skip(1).skip(k)); assert forall|j: int| 0 <= j < k + 1 implies !pfx(#[trigger] s.skip(j), t) by { if j > 0 { assert(s.skip(j) =~= s.skip(1).skip(j - 1)); } } }
            None => { assert forall|j: int| 0 <= j <= s.len() implies !pfx(#[trigger] s.skip(j), t) by { if j > 0 { assert(s.skip(j) =~= s.skip(1).skip(j - 1)); } } } }
    }
}
pub open spec fn line(b: S) -> S { (b"--" + b) + b"\r\n" }
pub open spec fn last_line(b: S) -> S { (b"\r\n--" + b) + b"--\r\n" }
pub open spec fn occurs(s: S, t: S, j: int) -> bool { pfx(s.skip(j), t) }
// a part ends where the first CRLF and boundary line after it begin (or is empty, at a boundary line); nothing of the text is lost
pub proof fn C15_next(s: S, b: S) ensures match sp_before_boundary(s, b) {
    Some((r, v)) => r.len() < s.len() && (if pfx(s, line(b)) { v.len() == 0 && s =~= line(b) + r } else { s =~= v + ((b"\r\n" + line(b)) + r) && forall|j: int| 0 <= j < v.len() ==> !#[trigger] occurs(s, b"\r\n" + line(b), j) }),
    None => !pfx(s, line(b)) && forall|j: int| 0 <= j <= s.len() ==> !#[trigger] occurs(s, b"\r\n" + line(b), j) }
{
    reveal(sp_before_boundary); reveal(sp_boundary_at); let l = line(b); let t = b"\r\n" + l; find_is(s, t);
    match sp_boundary_at(s, b) { Some((k, n)) => { let v = s.take(k); let r = s.skip(k + n); if pfx(s, l) { assert(s =~= s.take(n) + r); } else { assert(s.skip(k) =~= s.skip(k).take(n) + r); assert(s =~= v + s.skip(k)); assert(v.len() == k); } }, None => {} }
}
// the other way around: a text without boundary line in it, followed by a boundary line, is a part
pub proof fn C15_part(v: S, b: S, r: S) requires ({ let s = v + ((b"\r\n" + line(b)) + r); !pfx(s, line(b)) && forall|j: int| 0 <= j < v.len() ==> !#[trigger] occurs(s, b"\r\n" + line(b), j) })
    ensures sp_before_boundary(v + ((b"\r\n" + line(b)) + r), b) == Some((r, v))
{
    reveal(sp_before_boundary); reveal(sp_boundary_at); let l = line(b); let t = b"\r\n" + l; let s = v + (t + r); find_is(s, t); let k = v.len() as int;
    assert(s.skip(k) =~= t + r); assert((t + r).take(t.len() as int) =~= t); assert(occurs(s, t, k));
    match l_find(s, t) { Some(j) => { assert(occurs(s, t, j)); assert(j <= k) by { if j > k { assert(!pfx(s.skip(k), t)); } } assert(j == k); assert(s.take(k) =~= v); assert(s.skip(k + t.len()) =~= r); }, None => {} }
}
pub open spec fn a_part(b: S) -> spec_fn(S) -> Option<(S, S)> { |s: S| sp_before_boundary(s, b) }
proof fn list_parts(s: S, b: S, acc: Seq<S>) ensures ({ let (r, x) = l_parts(s, b, acc); x.len() >= acc.len() && x.take(acc.len() as int) =~= acc && chain(a_part(b), s, x.skip(acc.len() as int), r) && sp_before_boundary(r, b) is None }) decreases s.len()
{
    reveal(l_parts); let n = acc.len() as int; assert(acc.take(n) =~= acc); assert(acc.skip(n).len() == 0); C15_next(s, b);
    match (a_part(b))(s) { Some((r, v)) => {
        list_parts(r, b, acc.push(v)); let x = l_parts(r, b, acc.push(v)).1; assert(x.take(n) =~= x.take(n + 1).take(n)); assert(x.skip(n).skip(1) =~= x.skip(n + 1)); assert(x.skip(n)[0] == x.take(n + 1)[n]);
    }, None => {} }
}
// the last part ends at the first closing boundary line
pub proof fn C15_last(s: S, b: S) ensures match sp_before_closing(s, b) { Some((r, v)) => s =~= v + (last_line(b) + r) && forall|j: int| 0 <= j < v.len() ==> !#[trigger] occurs(s, last_line(b), j), None => forall|j: int| 0 <= j <= s.len() ==> !#[trigger] occurs(s, last_line(b), j) }
{ reveal(sp_before_closing); reveal(sp_closing_at); let t = last_line(b); find_is(s, t); match l_find(s, t) { Some(k) => { let n = t.len() as int; assert(s.skip(k) =~= s.skip(k).take(n) + s.skip(k + n)); assert(s =~= s.take(k) + s.skip(k)); }, None => {} } }
proof fn ents(ps: Seq<S>, acc: Seq<VRawEntity>) ensures match l_entities(ps, acc) { Some(es) => es.len() == acc.len() + ps.len() && es.take(acc.len() as int) =~= acc && forall|i: int| 0 <= i < ps.len() ==> sp_raw_entity(#[trigger] ps[i]) == Some(es[acc.len() + i]), None => exists|i: int| 0 <= i < ps.len() && sp_raw_entity(#[trigger] ps[i]) is None } decreases ps.len()
{
    reveal(l_entities); let n = acc.len() as int;
    if ps.len() == 0 { assert(acc.take(n) =~= acc); } else {
        match sp_raw_entity(ps[0]) { Some(e) => {
            let q = ps.skip(1); ents(q, acc.push(e));
            match l_entities(q, acc.push(e)) { Some(es) => { assert(es.take(n) =~= es.take(n + 1).take(n)); assert(es[n] == es.take(n + 1)[n]); assert forall|i: int| 0 <= i < ps.len() implies sp_raw_entity(#[trigger] ps[i]) == Some(es[n + i]) by { if i > 0 { assert(ps[i] == q[i - 1]); } } }
                None => { let i = choose|i: int| 0 <= i < q.len() && sp_raw_entity(#[trigger] q[i]) is None; assert(ps[i + 1] == q[i]); } }
        }, None => {} }
    }
}
// a multipart body is the preamble and then the parts, read one after the other; the last one ends at the closing line; each part gives one entity, in order
pub open spec fn split(s: S, b: S, ps: Seq<S>, r: S, last: S) -> bool { chain(a_part(b), s, ps, r) && sp_before_boundary(r, b) is None && (match sp_before_closing(r, b) { Some((e, v)) => v == last, None => false }) }
pub proof fn C15_multipart(s: S, m: Map<S, S>) ensures match sp_multipart(s, m) {
    Some(es) => m.contains_key(b"boundary") && exists|ps: Seq<S>, r: S, last: S| #[trigger] split(s, m[b"boundary"], ps, r, last) && es.len() == ps.len() && forall|i: int| 0 <= i < es.len() ==> sp_raw_entity(ps.push(last)[i + 1]) == Some(#[trigger] es[i]),
    None => !m.contains_key(b"boundary") || (exists|r: S, ps: Seq<S>| #[trigger] chain(a_part(m[b"boundary"]), s, ps, r) && sp_before_closing(r, m[b"boundary"]) is None) || (exists|v: S| #[trigger] sp_raw_entity(v) is None) }
{
    reveal(sp_multipart);
    if m.contains_key(b"boundary") {
        let b = m[b"boundary"]; list_parts(s, b, Seq::empty()); let (r, ps) = l_parts(s, b, Seq::empty()); assert(ps.skip(0) =~= ps); assert(chain(a_part(b), s, ps, r));
        match sp_before_closing(r, b) { Some((e, last)) => {
            let q = ps.push(last).skip(1); assert(split(s, b, ps, r, last)); ents(q, Seq::empty());
            match l_entities(q, Seq::empty()) { Some(es) => { assert forall|i: int| 0 <= i < es.len() implies sp_raw_entity(ps.push(last)[i + 1]) == Some(#[trigger] es[i]) by { assert(q[i] == ps.push(last)[i + 1]); } }, None => {} }
        }, None => {} }
    }
}

//@thm C13 mime
pub type Par = (S, Option<int>, bool, S);
pub type Secs = Map<S, Map<int, (bool, S)>>;
proof fn sec_cat(a: Seq<Par>, t: Seq<Par>, o: Secs) ensures l_sections(a + t, o) == l_sections(t, l_sections(a, o)) decreases a.len()
{
    reveal(l_sections); let s = a + t;
    if a.len() == 0 { assert(s =~= t); } else { assert(s.skip(1) =~= a.skip(1) + t); assert(s[0] == a[0]);
        match psection(a[0]) { Some(i) => { sec_cat(a.skip(1), t, add_section(o, a[0].0, i, (a[0].2, a[0].3))); } None => { sec_cat(a.skip(1), t, o); } } }
}
proof fn plain_cat(a: Seq<Par>, t: Seq<Par>, o: Map<S, S>) ensures l_plain(a + t, o) == l_plain(t, l_plain(a, o)) decreases a.len()
{
    reveal(l_plain); let s = a + t;
    if a.len() == 0 { assert(s =~= t); } else { assert(s.skip(1) =~= a.skip(1) + t); assert(s[0] == a[0]);
        match psection(a[0]) { Some(_i) => { plain_cat(a.skip(1), t, o); } None => { plain_cat(a.skip(1), t, o.insert(a[0].0, a[0].3)); } } }
}
pub open spec fn and_then(o: Option<Map<S, S>>, ps: Seq<Par>, cx: Secs) -> Option<Map<S, S>> { match o { Some(m) => l_joined(ps, cx, m), None => None } }
proof fn joined_cat(a: Seq<Par>, t: Seq<Par>, cx: Secs, o: Map<S, S>) ensures l_joined(a + t, cx, o) == and_then(l_joined(a, cx, o), t, cx) decreases a.len()
{
    reveal(l_joined); let s = a + t;
    if a.len() == 0 { assert(s =~= t); } else { assert(s.skip(1) =~= a.skip(1) + t); assert(s[0] == a[0]);
        if cx.contains_key(a[0].0) && cx[a[0].0].contains_key(0) { match sp_join(cx[a[0].0]) { Some(v) => { joined_cat(a.skip(1), t, cx, o.insert(a[0].0, v)); } None => {} } } else { joined_cat(a.skip(1), t, cx, o); } }
}
proof fn two(x: Par, y: Par) ensures seq![x, y].skip(1) =~= seq![y], seq![y].skip(1) =~= Seq::<Par>::empty(), seq![x, y][0] == x, seq![y][0] == y {}
// the order of the sections does not matter: neighbours that are not the same section of the same name (nor two plain values of the same name) can be exchanged
pub proof fn C13_order(a: Seq<Par>, x: Par, y: Par, b: Seq<Par>) requires x.0 != y.0 || psection(x) != psection(y)
    ensures sp_collect((a + seq![x, y]) + b) == sp_collect((a + seq![y, x]) + b)
{
    reveal(sp_collect); two(x, y); two(y, x);
    let p = seq![x, y]; let q = seq![y, x]; let e = Map::<S, Map<int, (bool, S)>>::empty(); let f = Map::<S, S>::empty();
    sec_cat(a + p, b, e); sec_cat(a + q, b, e); sec_cat(a, p, e); sec_cat(a, q, e);
    plain_cat(a + p, b, f); plain_cat(a + q, b, f); plain_cat(a, p, f); plain_cat(a, q, f);
    let o = l_sections(a, e); let n = l_plain(a, f);
    assert(l_sections(p, o) == l_sections(q, o)) by {
        reveal_with_fuel(l_sections, 4);
        match psection(x) { Some(i) => match psection(y) { Some(j) => {
            let vx = (x.2, x.3); let vy = (y.2, y.3);
            let m1 = add_section(add_section(o, x.0, i, vx), y.0, j, vy); let m2 = add_section(add_section(o, y.0, j, vy), x.0, i, vx);
            if x.0 == y.0 { assert(m1[x.0] =~= m2[x.0]); }
            assert(m1 =~= m2);
        }, None => {} }, None => {} }
    }
    assert(l_plain(p, n) == l_plain(q, n)) by { reveal_with_fuel(l_plain, 4); assert(x.0 != y.0 ==> n.insert(x.0, x.3).insert(y.0, y.3) =~= n.insert(y.0, y.3).insert(x.0, x.3)); }
    let cx = l_sections((a + p) + b, e); let m = l_plain((a + p) + b, f);
    joined_cat(a + p, b, cx, m); joined_cat(a + q, b, cx, m); joined_cat(a, p, cx, m); joined_cat(a, q, cx, m);
    match l_joined(a, cx, m) { Some(w) => {
        assert(l_joined(p, cx, w) == l_joined(q, cx, w)) by {
            reveal_with_fuel(l_joined, 4);
            let hx = cx.contains_key(x.0) && cx[x.0].contains_key(0); let hy = cx.contains_key(y.0) && cx[y.0].contains_key(0);
            if hx && hy { match sp_join(cx[x.0]) { Some(vx) => match sp_join(cx[y.0]) { Some(vy) => { assert(w.insert(x.0, vx).insert(y.0, vy) =~= w.insert(y.0, vy).insert(x.0, vx)); } None => {} } None => {} } }
        }
    } None => {} }
}
// the joined value is the concatenation of the decoded sections
pub open spec fn section(m: Map<int, (bool, S)>, c: Option<S>, i: int) -> Option<S> { if m[i].0 { match c { Some(n) => sp_decode_parameter(m[i].1, n), None => Some(m[i].1) } } else { Some(m[i].1) } }
pub open spec fn sections_from(m: Map<int, (bool, S)>, c: Option<S>, i: int, k: int) -> S decreases k - i { if i >= k { Seq::empty() } else { (match section(m, c, i) { Some(x) => x, None => Seq::empty() }) + sections_from(m, c, i + 1, k) } }
pub open spec fn missing(m: Map<int, (bool, S)>, k: int) -> bool { k > 255 || !m.contains_key(k) }
pub proof fn C13_join(m: Map<int, (bool, S)>, c: Option<S>, i: int, acc: S) ensures match l_join(m, c, i, acc) {
    Some(v) => exists|k: int| k >= i && #[trigger] missing(m, k) && (forall|j: int| i <= j < k ==> !#[trigger] missing(m, j)) && v == acc + sections_from(m, c, i, k),
    None => exists|j: int| j >= i && !#[trigger] missing(m, j) && section(m, c, j) is None } decreases 256 - i
{
    reveal(l_join);
    if missing(m, i) { assert(acc + sections_from(m, c, i, i) =~= acc); } else {
        match section(m, c, i) { Some(x) => {
            C13_join(m, c, i + 1, acc + x);
            match l_join(m, c, i + 1, acc + x) { Some(v) => {
                let k = choose|k: int| k >= i + 1 && #[trigger] missing(m, k) && (forall|j: int| i + 1 <= j < k ==> !#[trigger] missing(m, j)) && v == (acc + x) + sections_from(m, c, i + 1, k);
                assert(acc + (x + sections_from(m, c, i + 1, k)) =~= (acc + x) + sections_from(m, c, i + 1, k)); assert(v == acc + sections_from(m, c, i, k));
            } None => {} }
        } None => {} }
    }
}
// percent decoding undoes percent encoding, and leaves text without percent signs alone
pub open spec fn pct(s: S) -> S decreases s.len() { if s.len() == 0 { s } else { seq![37u8, hexchar(s[0] as int / 16), hexchar(s[0] as int % 16)] + pct(s.skip(1)) } }
proof fn hexes(n: int) requires 0 <= n < 16 ensures is_hex(hexchar(n)), hexval(hexchar(n)) == n { reveal(hexchar); reveal(hexval); }
proof fn pct_back(s: S, acc: S) ensures l_percent(pct(s), acc) == acc + s decreases s.len()
{
    reveal(l_percent);
    if s.len() == 0 { assert(acc + s =~= acc); } else {
        let a = s[0] as int; hexes(a / 16); hexes(a % 16); let p = pct(s); let q = seq![37u8, hexchar(a / 16), hexchar(a % 16)]; assert(p[0] == 37 && p[1] == q[1] && p[2] == q[2]); assert(p.skip(3) =~= pct(s.skip(1)));
        assert((a / 16) * 16 + a % 16 == a); pct_back(s.skip(1), acc.push(s[0])); assert(acc.push(s[0]) + s.skip(1) =~= acc + s);
    }
}
proof fn pct_none(s: S, acc: S) requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 37 ensures l_percent(s, acc) == acc + s decreases s.len()
{ reveal(l_percent); if s.len() == 0 { assert(acc + s =~= acc); } else { let t = s.skip(1); assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 37 by { assert(t[i] == s[i + 1]); } pct_none(t, acc.push(s[0])); assert(acc.push(s[0]) + t =~= acc + s); } }
pub proof fn C13_percent(s: S) ensures l_percent(pct(s), Seq::empty()) == s, (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 37) ==> l_percent(s, Seq::empty()) == s
{ pct_back(s, Seq::empty()); assert(Seq::<u8>::empty() + s =~= s); if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 37 { pct_none(s, Seq::empty()); } }
// plain parameters are returned as they are: the last value of a name without sections
pub proof fn C13_plain(a: Seq<Par>, x: Par, b: Seq<Par>) requires psection(x) is None, forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 != x.0, forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 != x.0
    ensures match sp_collect((a + seq![x]) + b) { Some(m) => m.contains_key(x.0) && m[x.0] == x.3, None => true }
{
    reveal(sp_collect); let ps = (a + seq![x]) + b; let e = Map::<S, Map<int, (bool, S)>>::empty(); let f = Map::<S, S>::empty();
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ps[i]).0 != x.0 || ps[i] == x by { if i < a.len() { assert(ps[i] == a[i]); } else if i == a.len() { assert(ps[i] == x); } else { assert(ps[i] == b[i - a.len() - 1]); } }
    no_sections(ps, x, e); plain_cat(a + seq![x], b, f); plain_cat(a, seq![x], f); no_plain(b, x.0, l_plain(a + seq![x], f)); reveal_with_fuel(l_plain, 2); assert(seq![x].skip(1).len() == 0); assert(seq![x][0] == x);
    keep_joined(ps, x.0, l_sections(ps, e), l_plain(ps, f));
}
proof fn no_sections(ps: Seq<Par>, x: Par, o: Secs) requires psection(x) is None, forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 != x.0 || ps[i] == x, !o.contains_key(x.0) ensures !l_sections(ps, o).contains_key(x.0) decreases ps.len()
{ reveal(l_sections); if ps.len() > 0 { let t = ps.skip(1); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != x.0 || t[i] == x by { assert(t[i] == ps[i + 1]); } match psection(ps[0]) { Some(i) => { assert(ps[0].0 != x.0); no_sections(t, x, add_section(o, ps[0].0, i, (ps[0].2, ps[0].3))); } None => { no_sections(t, x, o); } } } }
proof fn no_plain(ps: Seq<Par>, n: S, o: Map<S, S>) requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 != n ensures l_plain(ps, o).contains_key(n) == o.contains_key(n), o.contains_key(n) ==> l_plain(ps, o)[n] == o[n] decreases ps.len()
{ reveal(l_plain); if ps.len() > 0 { let t = ps.skip(1); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0 != n by { assert(t[i] == ps[i + 1]); } match psection(ps[0]) { Some(_i) => { no_plain(t, n, o); } None => { no_plain(t, n, o.insert(ps[0].0, ps[0].3)); } } } }
proof fn keep_joined(ps: Seq<Par>, n: S, cx: Secs, o: Map<S, S>) requires !cx.contains_key(n), o.contains_key(n) ensures match l_joined(ps, cx, o) { Some(m) => m.contains_key(n) && m[n] == o[n], None => true } decreases ps.len()
{ reveal(l_joined); if ps.len() > 0 { if cx.contains_key(ps[0].0) && cx[ps[0].0].contains_key(0) { match sp_join(cx[ps[0].0]) { Some(v) => { keep_joined(ps.skip(1), n, cx, o.insert(ps[0].0, v)); } None => {} } } else { keep_joined(ps.skip(1), n, cx, o); } } }

//@thm C12 mime
// two encoded words with nothing but white space between them join without that white space
pub proof fn C12_adjacent(s: S, r: S, t: S, r2: S, t2: S, acc: S, e: bool) requires ({ let (n, w) = ofws(s); sp_encoded_word(n) == Some((r, t)) && sp_encoded_word(ofws(r).0) == Some((r2, t2)) && r2.len() < r.len() && r.len() < s.len() })
    ensures l_munstr(s, e, acc) == l_munstr(r2, true, (if e { acc + t } else { acc + (ofws(s).1 + t) }) + t2)
{ reveal(l_munstr); let a = l_munstr(s, e, acc); let o = if e { acc + t } else { acc + (ofws(s).1 + t) }; assert(l_munstr(r, true, o) == l_munstr(r2, true, o + t2)); assert(a == l_munstr(r, true, o)); }
// text that is not a well-formed encoded word is kept as it is, with the white space before it
pub proof fn C12_plain(s: S, acc: S, e: bool) requires sp_encoded_word(ofws(s).0) is None, run(Cls::Vchar, ofws(s).0) > 0, ofws(s).0.skip(run(Cls::Vchar, ofws(s).0)).len() < s.len()
    ensures l_munstr(s, e, acc) == l_munstr(ofws(s).0.skip(run(Cls::Vchar, ofws(s).0)), false, acc + (ofws(s).1 + ofws(s).0.take(run(Cls::Vchar, ofws(s).0))))
{ reveal(l_munstr); }
// an unknown charset, an unknown encoding or undecodable text make no encoded word
pub proof fn C12_none(s: S) ensures match sp_encoded_word(s) { Some((r, t)) => exists|c: S, e: S, d: S, n: int| charset_no(lower_s(c)) == Some(n) && #[trigger] word_text(lower_s(e), d, n) == Some(t) && (lower_s(e) == b"b" || lower_s(e) == b"q") && #[trigger] word_of(s, c), None => true }
{
    reveal(sp_encoded_word); reveal(sp_charset); reveal(sp_encoding);
    if sp_encoded_word(s) is Some {
        let a = s.skip(2); let c = a.take(run(Cls::Charset, a)); let b = a.skip(run(Cls::Charset, a)); let f = skip_language(b).skip(1); let e = f.take(run(Cls::Enc, f)); let h = f.skip(run(Cls::Enc, f)).skip(1); let d = sp_encoded_text(h)->Some_0.1;
        assert(b"=?".len() == 2 && b"?".len() == 1); assert(word_of(s, c)); let n = charset_no(lower_s(c))->Some_0; let t = sp_encoded_word(s)->Some_0.1; assert(word_text(lower_s(e), d, n) == Some(t));
    }
}
pub open spec fn word_of(s: S, c: S) -> bool { pfx(s, b"=?") && pfx(s.skip(2), c) && c.len() > 0 }
pub open spec fn word_text(e: S, d: S, n: int) -> Option<S> { match word_bytes(e, d) { Some(v) => decode_text(n, v), None => None } }

//@thm C14 mime
pub open spec fn same(s: S, t: S) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> lower(#[trigger] s[i]) == lower(t[i]) }
proof fn ci_same(s: S, t: S, n: S) requires same(s, t) ensures ci(s, n) == ci(t, n) decreases n.len()
{ reveal(ci); if n.len() > 0 && s.len() > 0 { let a = s.skip(1); let b = t.skip(1); assert forall|i: int| 0 <= i < a.len() implies lower(#[trigger] a[i]) == lower(b[i]) by { assert(a[i] == s[i + 1]); assert(b[i] == t[i + 1]); } ci_same(a, b, n.skip(1)); } }
proof fn tok_same(s: S, t: S) requires same(s, t) ensures run(Cls::Token, s) == run(Cls::Token, t), 0 <= run(Cls::Token, s) <= s.len() decreases s.len()
{ reveal(run); reveal(lower); if s.len() > 0 { assert(lower(s[0]) == lower(t[0])); assert(cls(Cls::Token, s[0]) == cls(Cls::Token, t[0])); let a = s.skip(1); let b = t.skip(1); assert forall|i: int| 0 <= i < a.len() implies lower(#[trigger] a[i]) == lower(b[i]) by { assert(a[i] == s[i + 1]); assert(b[i] == t[i + 1]); } tok_same(a, b); } }
proof fn low_same(s: S, t: S, n: int) requires same(s, t), 0 <= n <= s.len() ensures lower_s(s.take(n)) == lower_s(t.take(n)), s.skip(n).len() == t.skip(n).len()
{ reveal(lower); let a = lower_s(s.take(n)); let b = lower_s(t.take(n)); assert forall|i: int| 0 <= i < n implies a[i] == b[i] by { assert(lower(s[i]) == lower(t[i])); } assert(a =~= b); }
// types, encodings and dispositions do not depend on the case of their letters
pub proof fn C14_case(s: S, t: S) requires same(s, t) ensures
    match sp_mime_type(s) { Some((r, v)) => sp_mime_type(t) is Some && sp_mime_type(t)->Some_0.1 == v && sp_mime_type(t)->Some_0.0.len() == r.len(), None => sp_mime_type(t) is None },
    match sp_transfer_encoding(s) { Some((r, v)) => sp_transfer_encoding(t) is Some && sp_transfer_encoding(t)->Some_0.1 == v && sp_transfer_encoding(t)->Some_0.0.len() == r.len(), None => sp_transfer_encoding(t) is None },
    match sp_disposition_type(s) { Some((r, v)) => sp_disposition_type(t) is Some && sp_disposition_type(t)->Some_0.1 == v && sp_disposition_type(t)->Some_0.0.len() == r.len(), None => sp_disposition_type(t) is None },
{
    reveal(sp_mime_type); reveal(sp_transfer_encoding); reveal(sp_disposition_type); reveal(sp_mtoken); tok_same(s, t); low_same(s, t, run(Cls::Token, s));
    ci_same(s, t, b"text"); ci_same(s, t, b"multipart"); ci_same(s, t, b"application"); ci_same(s, t, b"image"); ci_same(s, t, b"video"); ci_same(s, t, b"audio"); ci_same(s, t, b"message");
    ci_same(s, t, b"7bit"); ci_same(s, t, b"8bit"); ci_same(s, t, b"binary"); ci_same(s, t, b"base64"); ci_same(s, t, b"quoted-printable"); ci_same(s, t, b"inline"); ci_same(s, t, b"attachment");
    ci_len(s, b"text"); ci_len(s, b"multipart"); ci_len(s, b"application"); ci_len(s, b"image"); ci_len(s, b"video"); ci_len(s, b"audio"); ci_len(s, b"message");
    ci_len(s, b"7bit"); ci_len(s, b"8bit"); ci_len(s, b"binary"); ci_len(s, b"base64"); ci_len(s, b"quoted-printable"); ci_len(s, b"inline"); ci_len(s, b"attachment");
}
proof fn ci_len(s: S, n: S) ensures ci(s, n) ==> n.len() <= s.len() decreases n.len() { reveal(ci); if n.len() > 0 && s.len() > 0 { ci_len(s.skip(1), n.skip(1)); } }
// a version number is accepted when it fits in 0 to 255
pub proof fn C14_number(s: S, n: int) requires 0 <= n <= 255 ensures match l_u8(s, n) { Some((r, v)) => 0 <= v <= 255, None => true } decreases s.len()
{ reveal(l_u8); reveal(sp_digit); match sp_digit(s) { Some((r, d)) => if n * 10 + d <= 255 && r.len() < s.len() { C14_number(r, n * 10 + d) }, None => {} } }
// defaults
pub proof fn C14_defaults() ensures default_type().mime_type == VMime::Text, default_type().subtype == b"plain", default_type().parameters.contains_key(b"charset"), default_type().parameters[b"charset"] == b"us-ascii", or_7bit(None) == VEncoding::SevenBit {}

//@thm C20 mime
pub proof fn C20_text(e: VRawEntity, n: int) requires e.mime_type == VMime::Text, e.parameters.contains_key(b"charset"), charset_no(ulower(e.parameters[b"charset"])) == Some(n)
    ensures match decode_text(n, e.value) { Some(t) => sp_entity(e) == Some(VEntity::Text((e.subtype, t))), None => sp_entity(e) is None }
{ reveal(sp_entity); }
pub proof fn C20_unknown(e: VRawEntity) requires e.mime_type != VMime::Multipart, e.mime_type != VMime::Text || !e.parameters.contains_key(b"charset") || charset_no(ulower(e.parameters[b"charset"])) is None ensures sp_entity(e) == Some(VEntity::Unknown)
{ reveal(sp_entity); }
pub proof fn C20_utf8(v: S) ensures decode_text(8, v) == (if valid_utf8(v) { Some(v) } else { None }) { reveal(decode_text); }

//@thm C06
// what is left after the bracket that closes the d open ones; a backslash hides the byte after it
pub open spec fn closes(s: S, d: int) -> Option<S> decreases s.len()
{
    if d <= 0 { Some(s) } else if s.len() == 0 { None }
    else if s[0] == 40 { closes(s.skip(1), d + 1) } else if s[0] == 41 { closes(s.skip(1), d - 1) }
    else if s[0] == 92 { if s.len() < 2 { None } else { closes(s.skip(2), d) } } else { closes(s.skip(1), d) }
}
pub open spec fn calm(s: S) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 40 && s[i] != 41 && s[i] != 92 }
proof fn skips(s: S, n: int, d: int) requires 0 <= n <= s.len(), calm(s.take(n)), d > 0 ensures closes(s, d) == closes(s.skip(n), d) decreases n
{
    if n == 0 { assert(s.skip(0) =~= s); } else {
        let a = s.skip(1); assert(s.take(n)[0] == s[0]);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] a.take(n - 1)[i] != 40 && a.take(n - 1)[i] != 41 && a.take(n - 1)[i] != 92 by { assert(s.take(n)[i + 1] == a.take(n - 1)[i]); }
        skips(a, n - 1, d); assert(a.skip(n - 1) =~= s.skip(n));
    }
}
proof fn skips_run(c: Cls, s: S, d: int) requires d > 0, c == Cls::Wsp || c == Cls::Ctext ensures 0 <= run(c, s) <= s.len(), closes(s, d) == closes(s.skip(run(c, s)), d)
{
    run_bound(c, s); let n = run(c, s); let t = s.take(n);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 40 && t[i] != 41 && t[i] != 92 by { assert(cls(c, s[i])); assert(t[i] == s[i]); }
    skips(s, n, d);
}
proof fn skips_fold(s: S, d: int) requires d > 0 ensures closes(s, d) == closes(ofws(s).0, d), ofws(s).0.len() <= s.len()
{
    reveal(sp_fws); let n = run(Cls::Wsp, s); skips_run(Cls::Wsp, s, d); let e = s.skip(n);
    if pfx(e, b"\r\n") {
        let a = e.skip(2); pfx_idx(e, b"\r\n"); let t = e.take(2); assert(e[0] == b"\r\n"[0]); assert(e[1] == b"\r\n"[1]);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != 40 && t[i] != 41 && t[i] != 92 by { assert(t[i] == b"\r\n"[i]); }
        skips(e, 2, d); skips_run(Cls::Wsp, a, d);
    }
}
proof fn comment_closes(s: S, d: int) ensures match l_comment(s, d) { Some((r, _x)) => closes(s, d) == Some(r), None => true } decreases s.len()
{
    reveal(l_comment); reveal(sp_ccontent); reveal(sp_quoted_pair);
    if d > 0 {
        skips_fold(s, d); let n = ofws(s).0; let k = run(Cls::Ctext, n); skips_run(Cls::Ctext, n, d);
        match sp_ccontent(n) {
            Some((r, _x)) => if r.len() < s.len() { comment_closes(r, d); if k == 0 { assert(r =~= n.skip(2)); } },
            None => match sp_tag(n, b"(") {
                Some((r, _x)) => if r.len() < s.len() { pfx_idx(n, b"("); assert(n[0] == b"("[0]); comment_closes(r, d + 1); },
                None => match sp_tag(n, b")") { Some((r, _x)) => if r.len() < s.len() { pfx_idx(n, b")"); assert(n[0] == b")"[0]); comment_closes(r, d - 1); }, None => {} }
            }
        }
    }
}
// a comment ends at the parenthesis that closes its first one, whatever the depth between them
pub proof fn C06_comment(s: S) ensures match sp_comment(s) { Some((r, _x)) => s.len() > 0 && s[0] == 40 && closes(s.skip(1), 1) == Some(r), None => true }
{ reveal(sp_comment); if sp_comment(s) is Some { pfx_idx(s, b"("); assert(s[0] == b"("[0]); comment_closes(s.skip(1), 1); } }

// the content of a quoted string: line breaks of folds dropped, a backslash replaced by the byte after it
pub open spec fn plain(s: S) -> S decreases s.len()
{ if s.len() == 0 { s } else if s[0] == 13 || s[0] == 10 { plain(s.skip(1)) } else if s[0] == 92 && s.len() >= 2 { s.skip(1).take(1) + plain(s.skip(2)) } else { s.take(1) + plain(s.skip(1)) } }
// text that ends outside an escape and has no quote outside one
pub open spec fn inside(s: S) -> bool decreases s.len()
{ if s.len() == 0 { true } else if s[0] == 34 { false } else if s[0] == 92 { s.len() >= 2 && inside(s.skip(2)) } else { inside(s.skip(1)) } }
proof fn plain_cat(a: S, b: S) requires inside(a) ensures plain(a + b) == plain(a) + plain(b), inside(a + b) == inside(b) decreases a.len()
{
    let s = a + b;
    if a.len() == 0 { assert(s =~= b); assert(plain(a) + plain(b) =~= plain(b)); } else {
        assert(s[0] == a[0]);
        if a[0] == 92 { assert(s.skip(2) =~= a.skip(2) + b); assert(s.skip(1).take(1) =~= a.skip(1).take(1)); plain_cat(a.skip(2), b); assert(plain(s) =~= plain(a) + plain(b)); }
        else { assert(s.skip(1) =~= a.skip(1) + b); assert(s.take(1) =~= a.take(1)); plain_cat(a.skip(1), b); assert(plain(s) =~= plain(a) + plain(b)); }
    }
}
proof fn plain_run(c: Cls, s: S, n: int) requires c == Cls::Wsp || c == Cls::Qtext, 0 <= n <= run(c, s) ensures run(c, s) <= s.len(), inside(s.take(n)), plain(s.take(n)) == s.take(n) decreases n
{
    run_bound(c, s); let t = s.take(n);
    if n > 0 {
        assert(cls(c, s[0])); assert(t[0] == s[0]); reveal(run); plain_run(c, s.skip(1), n - 1);
        assert(t.skip(1) =~= s.skip(1).take(n - 1)); assert(t =~= t.take(1) + t.skip(1));
    }
}
pub open spec fn part(s: S, r: S) -> S { s.take(s.len() - r.len()) }
pub open spec fn rest(s: S, r: S) -> bool { r.len() <= s.len() && r == s.skip(s.len() - r.len()) }
proof fn fold_plain(s: S) ensures ({ let (n, w) = ofws(s); rest(s, n) && w == plain(part(s, n)) && inside(part(s, n)) })
{
    reveal(sp_fws); let n = run(Cls::Wsp, s); run_bound(Cls::Wsp, s); plain_run(Cls::Wsp, s, n); let e = s.skip(n); assert(s.skip(0) =~= s); assert(s.take(0).len() == 0); assert(b"\r\n".len() == 2);
    if pfx(e, b"\r\n") {
        let a = e.skip(2); let m = run(Cls::Wsp, a); run_bound(Cls::Wsp, a); plain_run(Cls::Wsp, a, m);
        if m > 0 {
            let r = a.skip(m); assert(r =~= s.skip(n + 2 + m)); pfx_idx(e, b"\r\n"); assert(e[0] == b"\r\n"[0]); assert(e[1] == b"\r\n"[1]);
            assert(part(s, r) =~= (s.take(n) + b"\r\n") + a.take(m)); reveal_with_fuel(plain, 3); reveal_with_fuel(inside, 3); assert(plain(b"\r\n").len() == 0); assert(inside(b"\r\n"));
            plain_cat(s.take(n), b"\r\n"); plain_cat(s.take(n) + b"\r\n", a.take(m)); assert(s.take(n) + plain(b"\r\n") =~= s.take(n));
        }
    }
}
proof fn content_is(s: S, acc: S) ensures ({ let (r, v) = l_qs(s, acc); rest(s, r) && inside(part(s, r)) && v == acc + plain(part(s, r)) }) decreases s.len(), 0int
{
    reveal(l_qs); reveal(sp_quoted_pair); let (n, w) = ofws(s); fold_plain(s); let k = run(Cls::Qtext, n); run_bound(Cls::Qtext, n); plain_run(Cls::Qtext, n, k);
    assert(s.skip(0) =~= s); assert(s.take(0).len() == 0); assert(acc + plain(s.take(0)) =~= acc);
    if k > 0 {
        let r = n.skip(k); let v = n.take(k);
        if r.len() < s.len() { step(s, n, r, w, v, acc); }
    } else if sp_quoted_pair(n) is Some {
        let (r, v) = sp_quoted_pair(n)->Some_0; assert(r =~= n.skip(2)); let p = n.take(2); assert(p.skip(2).len() == 0); assert(p.skip(1).take(1) =~= v); assert(plain(p) =~= v) by { assert(p[0] == 92); assert(plain(p.skip(2)).len() == 0); assert(v + plain(p.skip(2)) =~= v); } assert(inside(p)) by { assert(inside(p.skip(2))); }
        if r.len() < s.len() { step(s, n, r, w, v, acc); }
    }
}
proof fn step(s: S, n: S, r: S, w: S, v: S, acc: S) requires rest(s, n), rest(n, r), r.len() < s.len(), inside(part(s, n)), w == plain(part(s, n)), inside(part(n, r)), v == plain(part(n, r)), l_qs(s, acc) == l_qs(r, acc + (w + v))
    ensures ({ let (q, x) = l_qs(s, acc); rest(s, q) && inside(part(s, q)) && x == acc + plain(part(s, q)) }) decreases r.len(), 1int
{
    let b = acc + (w + v); content_is(r, b); let q = l_qs(r, b).0;
    assert(q =~= s.skip(s.len() - q.len())); let h = part(s, n) + part(n, r); assert(part(s, q) =~= h + part(r, q));
    plain_cat(part(s, n), part(n, r)); plain_cat(h, part(r, q)); assert(b + plain(part(r, q)) =~= acc + ((w + v) + plain(part(r, q))));
}
// a quoted string ends at its first quote that is not escaped, and its value is what stands between the quotes
pub open spec fn quoted(c: S, t: S) -> S { (b"\"" + c) + (b"\"" + t) }
pub proof fn C06_quoted(s: S) ensures match sp_quoted_string(s) { Some((r, v)) => exists|c: S, t: S| ocfws(s) == #[trigger] quoted(c, t) && inside(c) && v == plain(c) && r == ocfws(t), None => true }
{
    reveal(sp_quoted_string);
    if sp_quoted_string(s) is Some {
        let x = ocfws(s); pfx_idx(x, b"\""); assert(x[0] == b"\""[0]); let a = x.skip(1); let e = Seq::<u8>::empty(); content_is(a, e); let (m, v) = l_qs(a, e); let (n, w) = ofws(m); fold_plain(m);
        pfx_idx(n, b"\""); assert(n[0] == b"\""[0]); let t = n.skip(1); let c = part(a, m) + part(m, n); plain_cat(part(a, m), part(m, n)); assert(e + plain(part(a, m)) =~= plain(part(a, m)));
        assert(a =~= c + n); assert(x =~= quoted(c, t));
    }
}
