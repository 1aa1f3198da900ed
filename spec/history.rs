// C05: what a line history that followed a text shows
pub open spec fn lh_wb(h: LinearHistory) -> WB { WB { buffer: h.buffer, curR: h.curR, curW: h.curW, written: h.written } }
pub open spec fn isnl(c: int) -> bool { c == 10 || c == 13 }
pub open spec fn lh_inv(h: LinearHistory) -> bool { wb_inv(lh_wb(h)) }
pub open spec fn lh_view(h: LinearHistory) -> Seq<int> { wb_view(lh_wb(h)) }
pub open spec fn endnl(pre: Seq<int>) -> bool { pre.len() > 0 && isnl(pre.last()) }
// line breaks consumed strictly before the last character, plus one
pub open spec fn line_of(pre: Seq<int>) -> int decreases pre.len() {
    if pre.len() == 0 { 1 } else { line_of(pre.drop_last()) + (if endnl(pre.drop_last()) { 1int } else { 0 }) } }
// characters of the current line (the line a trailing line break ends)
pub open spec fn cur_of(pre: Seq<int>) -> Seq<int> decreases pre.len() {
    if pre.len() == 0 { Seq::empty() } else {
        let b = if endnl(pre.drop_last()) { Seq::<int>::empty() } else { cur_of(pre.drop_last()) };
        if isnl(pre.last()) { b } else { b.push(pre.last()) } } }
pub open spec fn is_suffix(v: Seq<int>, s: Seq<int>) -> bool { v.len() <= s.len() && v =~= s.subrange(s.len() - v.len(), s.len() as int) }
// h followed exactly the text pre, and its excerpt keeps at least min(columns, k) characters
pub open spec fn rep_k(h: LinearHistory, pre: Seq<int>, k: int) -> bool {
    lh_inv(h) && lh_view(h).len() <= CAP() && (
        (h.willReset == endnl(pre) && h.line == line_of(pre) && h.written == cur_of(pre).len()
            && is_suffix(lh_view(h), cur_of(pre)) && lh_view(h).len() >= imin(cur_of(pre).len() as int, k))
        // the first character after a line break was pushed back: the new, empty line is shown
        || (endnl(pre) && !h.willReset && h.line == line_of(pre) + 1 && h.written == 0 && lh_view(h).len() == 0)) }
pub open spec fn rep(h: LinearHistory, pre: Seq<int>) -> bool { rep_k(h, pre, CAP() - 1) }
// as rep, and the last character of pre can still be pushed back
pub open spec fn rep_last(h: LinearHistory, pre: Seq<int>) -> bool {
    pre.len() > 0 && rep(h, pre) && h.willReset == endnl(pre) && (!h.willReset ==> rep_k(h, pre, CAP())) }
pub proof fn lem_cur_len(pre: Seq<int>) ensures cur_of(pre).len() <= pre.len(), 1 <= line_of(pre) <= pre.len() + 1 decreases pre.len()
{ if pre.len() > 0 { lem_cur_len(pre.drop_last()); } }
pub proof fn lem_put(a: LinearHistory, b: LinearHistory, pre: Seq<int>, c: int)
    requires rep(a, pre), lh_put(a, b, c)
    ensures rep_last(b, pre.push(c))
{
    ax_cap(); lem_cur_len(pre);
    let q = pre.push(c);
    assert(q.drop_last() =~= pre);
    assert(q.last() == c);
    if a.willReset { if !isnl(c) { assert(cur_of(q) =~= seq![c]); assert(lh_view(b) =~= seq![c]); } else { assert(cur_of(q) =~= Seq::<int>::empty()); } }
    else if !isnl(c) {
        if endnl(pre) { assert(cur_of(q) =~= seq![c]); assert(lh_view(a) =~= Seq::<int>::empty()); assert(lh_view(b) =~= seq![c]); }
        else {
            assert(cur_of(q) =~= cur_of(pre).push(c));
            assert(is_suffix(lh_view(b), cur_of(q)));
        }
    }
}
pub proof fn lem_pop(a: LinearHistory, b: LinearHistory, pre: Seq<int>)
    requires rep_last(a, pre), lh_pop(a, b)
    ensures rep(b, pre.drop_last())
{
    ax_cap(); lem_cur_len(pre); lem_cur_len(pre.drop_last());
    let q = pre.drop_last();
    if !a.willReset {
        if endnl(q) { assert(cur_of(pre) =~= seq![pre.last()]); assert(lh_view(b) =~= Seq::<int>::empty()); }
        else { assert(cur_of(pre).drop_last() =~= cur_of(q)); assert(is_suffix(lh_view(b), cur_of(q))); }
    }
}
// one character consumed
pub open spec fn lh_put(a: LinearHistory, b: LinearHistory, c: int) -> bool {
    let v = if a.willReset { Seq::<int>::empty() } else { lh_view(a) };
    let w = if a.willReset { 0int } else { a.written };
    lh_inv(b) && b.line == a.line + (if a.willReset { 1int } else { 0 }) && b.willReset == isnl(c)
        && lh_view(b) =~= (if isnl(c) { v } else { last_n(v.push(c), CAP()) })
        && b.written == w + (if isnl(c) { 0int } else { 1 }) }
pub open spec fn lh_pop(a: LinearHistory, b: LinearHistory) -> bool {
    lh_inv(b) && b.line == a.line && !b.willReset
        && lh_view(b) =~= (if a.willReset || lh_view(a).len() == 0 { lh_view(a) } else { lh_view(a).drop_last() })
        && b.written == (if a.willReset || lh_view(a).len() == 0 { a.written } else { a.written - 1 }) }
