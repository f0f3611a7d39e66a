pub open spec fn rest(s: S, r: S) -> bool { r.len() <= s.len() && r =~= s.skip(s.len() - r.len()) }
pub broadcast proof fn rest_skip(s: S, n: int) requires 0 <= n <= s.len() ensures rest(s, #[trigger] s.skip(n)) { assert(s.skip(n) =~= s.skip(s.len() - s.skip(n).len())); }
pub broadcast proof fn rest_self(s: S) ensures #[trigger] rest(s, s) { assert(s.skip(0) =~= s); }
pub broadcast proof fn rest_trans(a: S, b: S, c: S) requires #[trigger] rest(a, b), #[trigger] rest(b, c) ensures rest(a, c)
{ assert(c =~= a.skip(a.len() - c.len())); }
pub broadcast proof fn rest_run(c: Cls, s: S) ensures 0 <= #[trigger] run(c, s) <= s.len() { run_bound(c, s); }
pub broadcast proof fn rest_ci(s: S, t: S) requires #[trigger] ci(s, t) ensures t.len() <= s.len() decreases t.len() { reveal(ci); if t.len() > 0 && s.len() > 0 { rest_ci(s.skip(1), t.skip(1)); } }
pub broadcast proof fn rest_text_run(s: S, m: int) ensures 0 <= #[trigger] text_run(s, m) <= s.len() decreases s.len() { reveal(text_run); if m > 0 && s.len() > 0 { rest_text_run(s.skip(1), m - 1); } }
pub broadcast group brest { rest_skip, rest_self, rest_trans, rest_run, rest_ci, rest_text_run }
