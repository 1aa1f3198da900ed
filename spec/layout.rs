// rows and widths of what is drawn
pub open spec fn rows(n: int, w: int) -> int { n / w + (if n % w == 0 { 0int } else { 1 }) }
// division of integers as doubles: the quotient of n < 2^51 by w < 2^32 is an integer only when w divides n (the distance of any other quotient to the next integer is at least 1/w,
// above the rounding error n/w * 2^-53), so it is rounded to an integer only then and never across one; adding one keeps that
#[verifier::external_body]
pub proof fn ax_div(n: int, w: int) requires 0 <= n < 0x8_0000_0000_0000, 0 < w <= 0xffff_ffff
    ensures d_trunc(d_div(d_of(n), d_of(w))) == n / w, d_eq(d_div(d_of(n), d_of(w)), d_of(n / w)) == (n % w == 0), d_trunc(d_add(d_div(d_of(n), d_of(w)), d_of(1))) == n / w + 1,
        forall|lo: int, hi: int| lo <= n / w <= hi ==> d_toint_ok(d_div(d_of(n), d_of(w)), lo, hi), forall|lo: int, hi: int| lo <= n / w + 1 <= hi ==> d_toint_ok(d_add(d_div(d_of(n), d_of(w)), d_of(1)), lo, hi) { }
pub proof fn lem_rows(n: int, w: int) requires n >= 0, w > 0 ensures 0 <= n / w <= n, rows(n, w) >= 0, rows(n, w) <= n, n > 0 ==> rows(n, w) >= 1 {
    let q = n / w; let r = n % w;
    assert(n == w * q + r && 0 <= r < w) by (nonlinear_arith) requires n >= 0, w > 0, q == n / w, r == n % w;
    assert(q >= 0) by (nonlinear_arith) requires n >= 0, w > 0, n == w * q + r, r < w;
    assert(w * q >= q) by (nonlinear_arith) requires q >= 0, w >= 1; assert(q == 0 ==> w * q == 0) by (nonlinear_arith); }
// rows are the least number of screen widths that hold the text
pub proof fn lem_ceil(n: int, w: int) requires n >= 0, w > 0 ensures rows(n, w) * w >= n, (rows(n, w) - 1) * w < n {
    let q = n / w; let r = n % w;
    assert(n == w * q + r && 0 <= r < w) by (nonlinear_arith) requires n >= 0, w > 0, q == n / w, r == n % w;
    assert((q + 1) * w == q * w + w && (q - 1) * w == q * w - w && w * q == q * w) by (nonlinear_arith); }
// displayed width of a text: its characters, or its bytes when they are not valid
pub open spec fn chars(s: Seq<int>) -> int { if s.len() == 0 { 0 } else { let n = mb_len(upto_nul(s)); if n == 0xffff_ffff_ffff_ffff { s.len() as int } else { n } } }
pub open spec fn cache_ok(h: H, hc: Map<int, int>) -> bool { forall|x: int| elem(h, x) ==> #[trigger] hc[x] == 0 || hc[x] == chars(el_text(h.m[x])) }
// the row after a text of n columns written at row y; what lies above the window counts one row; w == 0 stands for an upper bound
pub open spec fn adv(top: int, w: int, y: int, n: int) -> int { if w == 0 { y + n + 1 } else if y <= top { y + 1 } else { y + rows(n, w) } }
pub open spec fn bottom(pos: int, top: int, height: int) -> bool { pos >= top && pos - top > wrap_u32(height - 1) }
