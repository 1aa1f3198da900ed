// C06: view of a ring buffer
pub uninterp spec fn CAP() -> int;
#[verifier::external_body]
pub proof fn ax_cap() ensures 1 <= CAP() <= 0x3fff_ffff {}
pub open spec fn wb_inv(w: WB) -> bool {
    w.buffer.len() == CAP() && ((w.curW == -1 && w.curR == 0) || (0 <= w.curW < CAP() && 0 <= w.curR <= CAP())) && wb_size(w) <= w.written }
pub open spec fn wb_size(w: WB) -> int {
    if w.curW == -1 { 0 } else if w.curR > w.curW { CAP() - w.curR + w.curW + 1 } else { w.curW - w.curR + 1 } }
pub open spec fn wb_from(w: WB) -> int { if w.curR == CAP() { 0 } else { w.curR } }
pub open spec fn wb_at(w: WB, i: int) -> int { let k = wb_from(w) + i; w.buffer[if k >= CAP() { k - CAP() } else { k }] }
// the items held, oldest first
pub open spec fn wb_view(w: WB) -> Seq<int> { Seq::new(wb_size(w) as nat, |i: int| wb_at(w, i)) }
pub open spec fn last_n(s: Seq<int>, n: int) -> Seq<int> { if s.len() <= n { s } else { s.subrange(s.len() - n, s.len() as int) } }
pub proof fn lem_tmod(x: int, c: int) requires 0 <= x <= c, c > 0 ensures tmod(x, c) == (if x == c { 0 } else { x })
{
    if x == c { assert(c / c == 1) by (nonlinear_arith) requires c > 0; assert(c * 1 == c); }
    else { assert(x / c == 0) by (nonlinear_arith) requires 0 <= x < c; assert(c * 0 == 0); }
}
pub open spec fn pseq(p: P<int>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| p.s[p.o + i]) }
