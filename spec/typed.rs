// the text typed in the search line: the keys left, what is there so far; None when the search is given up
pub open spec fn goes_on(c: int) -> bool { c % 256 / 64 == 2 }
pub open spec fn erased(u: bool, b: Seq<int>) -> Seq<int> decreases b.len() {
    if b.len() == 0 { b } else if u && b.len() > 1 && goes_on(b.last()) { erased(u, b.drop_last()) } else { b.drop_last() } }
pub open spec fn as_char(k: int) -> int { if k < 128 { k } else { k - 256 } }
pub open spec fn typed(u: bool, ks: Seq<int>, b: Seq<int>) -> Option<Seq<int>> decreases ks.len() {
    if ks.len() == 0 { arbitrary() }
    else if ks[0] == 10 || ks[0] == 13 { Some(b) }
    else if ks[0] == 27 { None }
    else if ks[0] == 8 || ks[0] == 127 || ks[0] == 263 { typed(u, ks.drop_first(), erased(u, b)) }
    else if 0 < ks[0] <= 255 { typed(u, ks.drop_first(), b.push(as_char(ks[0]))) }
    else { typed(u, ks.drop_first(), b) } }
pub open spec fn pat_of(p: SearchPattern, t: Seq<int>) -> bool {
    let e = pt_end(t, trim(t, 0), false);
    pat_is(p, pt_text(t, trim(t, 0), false), if e < 0 { suf(t, 0, 0) } else { suf(c_str(t).s, e + 1, cstr_len(c_str(t).s, e + 1)) }) }
pub proof fn lem_goes_on(c: int) requires -128 <= c < 128 ensures goes_on(c) == (64 * bit(c, 64) + 128 * bit(c, 128) == 128) {
    assert(c % 256 / 64 == (c / 64) % 4);
    assert((c / 64) % 4 == (c / 64) % 2 + 2 * ((c / 64) / 2 % 2)); assert((c / 64) / 2 == c / 128); }
