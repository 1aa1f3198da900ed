// ---- a session: what holds whenever a key is read
pub open spec fn safe(h: H, t: CurseSimpleOutput) -> bool { tree(h, t.data) && !is_ent(h, t.data) && par(h, t.data) == 0 && distinct(order(h, t.data)) && lists(h, t.collapsed, t.data, t.selection) }
// the rows of the document can be counted however it is folded
pub open spec fn roomy(h: H, x: int) -> bool { forall|c: Set<int>| #[trigger] fin(h, Vw { coll: c, top: 0, w: 0 }, x, 1, 0) < 0x7fff_ffff }
pub open spec fn hits_in(h: H, x: int, r: Seq<int>) -> bool { forall|i: int| 0 <= i < r.len() ==> order(h, x).contains(#[trigger] r[i]) && !member_value(h, r[i]) }
pub open spec fn sess(h: H, hc: Map<int, int>, t: CurseSimpleOutput) -> bool { safe(h, t) && draw_ok(h, hc, t) && roomy(h, t.data) && hits_in(h, t.data, t.search_result) }
pub proof fn lem_hit_in(h: H, x: int, r: Seq<int>, s: int) requires hits_in(h, x, r), r.len() > 0 ensures ({ let n = nxt(h, r, s, order(h, x), false); order(h, x).contains(r[0]) && !member_value(h, r[0]) && (n != 0 ==> order(h, x).contains(n) && !member_value(h, n)) }) {
    let n = nxt(h, r, s, order(h, x), false); assert(order(h, x).contains(r[0])); if n != 0 { lem_nxt_in(h, r, s, order(h, x), false); let i = choose|i: int| 0 <= i < r.len() && r[i] == n; assert(order(h, x).contains(r[i])); } }
// once nothing above it is folded, an element is met (a value shown with its member when it opens)
pub proof fn lem_unfolded(h: H, coll: Set<int>, x: int, e: int) requires root_ok(h, x), order(h, x).contains(e), forall|a: int| #[trigger] coll.contains(a) ==> !anc(h, e, a) ensures met(h, coll, x).contains(e) || (member_value(h, e) && !opens(h, coll, e)) decreases depth(h, e) {
    lem_elem(h, x); assert(up(h, x, 1)); lem_down(h, x, e); lem_up(h, e);
    if e == x { lem_met_self(h, coll, x); }
    else { let p = par(h, e); lem_kid_of(h, x, e); lem_down(h, x, p); lem_anc(h, e, p); let j = choose|j: int| 0 <= j < kids(h, p).len() && #[trigger] kids(h, p)[j] == e; lem_elem(h, p);
        assert forall|a: int| #[trigger] coll.contains(a) implies !anc(h, p, a) by { lem_anc(h, e, a); } lem_unfolded(h, coll, x, p);
        if is_ent(h, p) { lem_not_value(h, x, p); lem_val(h, p); assert(val(h, p) == e); if opens(h, coll, e) { lem_met_val(h, coll, x, p); } }
        else { assert(is_cont(h, p)); assert(!coll.contains(p)); assert(h.m[p].items.len() > 0); assert(opens(h, coll, p)); lem_met_down(h, coll, x, p, j); } } }
pub proof fn lem_sel_hits(h: H, p: SearchPattern, x: int) requires root_ok(h, x) ensures hits_in(h, x, sel(h, p, order(h, x))) {
    let r = sel(h, p, order(h, x)); assert forall|i: int| 0 <= i < r.len() implies order(h, x).contains(#[trigger] r[i]) && !member_value(h, r[i]) by { assert(r.contains(r[i])); lem_sel_in(h, p, order(h, x), r[i]); } }
// ---- the diff view
pub open spec fn dhits(h: H, t: CurseSplitOutput) -> bool { hits_in(h, t.subWindows[0].root, t.subWindows[0].searchResults) && hits_in(h, t.subWindows[1].root, t.subWindows[1].searchResults) }
pub open spec fn dsess(h: H, hc: Map<int, int>, lm: LM, t: CurseSplitOutput) -> bool { both(h, lm, t) && cache_ok(h, hc) && texts(h) && dhits(h, t) }
pub open spec fn same_docs(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { a.subWindows.len() == b.subWindows.len() && b.selectedWin == a.selectedWin && b.diffMatrice == a.diffMatrice && forall|k: int| 0 <= k < a.subWindows.len() ==> (#[trigger] b.subWindows[k]).root == a.subWindows[k].root && b.subWindows[k].searchResults == a.subWindows[k].searchResults }
// what follows from an ancestor of x not above y (0: none) being paired with e
pub open spec fn mated(h: H, q: Map<int, int>, x: int, y: int, e: int) -> bool { exists|a: int| #[trigger] anc(h, x, a) && (y == 0 || !anc(h, y, a)) && two(q, a, e) }
pub proof fn lem_mated_none(h: H, q: Map<int, int>, x: int) requires x != 0 ensures forall|e: int| !#[trigger] mated(h, q, x, x, e) { }
pub proof fn lem_mated_step(h: H, q: Map<int, int>, x: int, y: int) requires rooted(h, y), y != 0, x == y || anc(h, x, y) ensures forall|e: int| #[trigger] mated(h, q, x, par(h, y), e) == (mated(h, q, x, y, e) || (par(h, y) != 0 && two(q, par(h, y), e))), par(h, y) != 0 ==> anc(h, x, par(h, y)) {
    let p = par(h, y); lem_up(h, y); lem_ancs(h, y);
    if p != 0 { assert(anc(h, y, p)); if x != y { lem_anc_trans(h, x, y, p); } assert(!anc(h, p, p)) by { if anc(h, p, p) { lem_anc_less(h, p, p); } } }
    assert forall|e: int| #[trigger] mated(h, q, x, p, e) == (mated(h, q, x, y, e) || (p != 0 && two(q, p, e))) by {
        if mated(h, q, x, y, e) { let a = choose|a: int| #[trigger] anc(h, x, a) && (y == 0 || !anc(h, y, a)) && two(q, a, e); assert(anc(h, x, a) && (p == 0 || !anc(h, p, a)) && two(q, a, e)); }
        if p != 0 && two(q, p, e) { assert(anc(h, x, p) && !anc(h, p, p) && two(q, p, e)); }
        if mated(h, q, x, p, e) { let a = choose|a: int| #[trigger] anc(h, x, a) && (p == 0 || !anc(h, p, a)) && two(q, a, e); if a != p || p == 0 { assert(!anc(h, y, a)); assert(anc(h, x, a) && !anc(h, y, a) && two(q, a, e)); } } } }
pub proof fn lem_free_closed(h: H, q: Map<int, int>, c1: Set<int>, c2: Set<int>, s: int) requires closed(c1, q), one_to_one(q), no_null(q), forall|e: int| e != 0 ==> #[trigger] c2.contains(e) == (c1.contains(e) && !anc(h, s, e) && !mated(h, q, s, 0, e)) ensures closed(c2, q) {
    assert forall|e: int, f: int| #[trigger] two(q, e, f) implies c2.contains(e) == c2.contains(f) by { assert(two(q, f, e)); assert(e != 0 && f != 0) by { if q.dom().contains(e) && q[e] == f { } else { assert(q.dom().contains(f)); } } assert(c1.contains(e) == c1.contains(f)); if anc(h, s, e) || mated(h, q, s, 0, e) { lem_free_one(h, q, s, e, f); } if anc(h, s, f) || mated(h, q, s, 0, f) { lem_free_one(h, q, s, f, e); } } }
pub proof fn lem_free_one(h: H, q: Map<int, int>, s: int, e: int, f: int) requires one_to_one(q), two(q, e, f), anc(h, s, e) || mated(h, q, s, 0, e) ensures anc(h, s, f) || mated(h, q, s, 0, f) {
    if anc(h, s, e) { assert(mated(h, q, s, 0, f)); } else { let a = choose|a: int| #[trigger] anc(h, s, a) && two(q, a, e); assert(two(q, e, a)); assert(a == f); } }
pub proof fn lem_jump(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput) requires both(h, lm, a), same_but_sel(CurseSplitOutput { collapsed: b.collapsed, ..a }, b), order(h, cur(a).root).contains(cur(b).selection), !member_value(h, cur(b).selection), cur(b).lastSelection == cur(b).selection, picked(eqs(lm, a), cur(b).selection, oth(a), oth(b)),
    forall|e: int| #[trigger] b.collapsed.contains(e) ==> a.collapsed.contains(e) && !anc(h, cur(b).selection, e), forall|e: int| e != 0 ==> #[trigger] b.collapsed.contains(e) == (a.collapsed.contains(e) && !anc(h, cur(b).selection, e) && !mated(h, eqs(lm, a), cur(b).selection, 0, e)) ensures both(h, lm, b) {
    let q = eqs(lm, a); let s = cur(b).selection; let m = CurseSplitOutput { collapsed: b.collapsed, ..a }; lem_no_null(h, q, cur(a).root, oth(a).root); lem_free_closed(h, q, a.collapsed, b.collapsed, s); lem_open_both(h, q, a.collapsed, b.collapsed, cur(a), oth(a)); assert(both(h, lm, m)); lem_unfolded(h, b.collapsed, cur(a).root, s); lem_chosen(h, lm, m); assert(same_but_sel(m, b)); }
pub proof fn lem_fixed(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput) requires both(h, lm, a), fixed(a, b) ensures both(h, lm, b), dhits(h, a) == dhits(h, b) { let k = a.selectedWin; assert(drew(a.subWindows[k], b.subWindows[k]) && drew(a.subWindows[1 - k], b.subWindows[1 - k])); }
// the results of the first n windows are forgotten
pub open spec fn refound(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { b == CurseSplitOutput { subWindows: b.subWindows, ..a } && b.subWindows.len() == a.subWindows.len() && forall|k: int| 0 <= k < a.subWindows.len() ==> #[trigger] b.subWindows[k] == (t_subWindow { searchResults: b.subWindows[k].searchResults, ..a.subWindows[k] }) }
pub open spec fn cleared(a: CurseSplitOutput, b: CurseSplitOutput, n: int) -> bool { refound(a, b) && forall|k: int| 0 <= k < n ==> (#[trigger] b.subWindows[k]).searchResults.len() == 0 }
pub proof fn lem_cleared(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput) requires both(h, lm, a), cleared(a, b, 2) ensures both(h, lm, b), dhits(h, b), roots_ok(h, b) {
    lem_found(h, lm, a, b); }
pub proof fn lem_found(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput) requires both(h, lm, a), refound(a, b) ensures both(h, lm, b), roots_ok(h, b) {
    let k = a.selectedWin; assert(b.subWindows[k].root == a.subWindows[k].root); assert(b.subWindows[1 - k].root == a.subWindows[1 - k].root); assert(wpair(h, eqs(lm, b), b.collapsed, cur(b), oth(b)));
    assert forall|i: int| 0 <= i < b.subWindows.len() implies tree(h, (#[trigger] b.subWindows[i]).root) && par(h, b.subWindows[i].root) == 0 && distinct(order(h, b.subWindows[i].root)) by { assert(i == k || i == 1 - k); } }
pub open spec fn shown_doc(h: H, x: int) -> bool { !is_ent(h, x) && par(h, x) == 0 && rank(h, x) < 0x1000_0000 }
// the windows as they are opened: each shows a document from its root
pub open spec fn begun(w: t_subWindow, x: int) -> bool { w.root == x && w.lastSelection == x && w.searchResults.len() == 0 }
pub proof fn lem_start(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput) requires dual(a), a.selectedWin == 0, lm_ok(lm, a.diffMatrice), a.collapsed =~= Set::empty(), begun(a.subWindows[0], a.subWindows[0].root), begun(a.subWindows[1], a.subWindows[1].root), docs(h, a.subWindows[0].root, a.subWindows[1].root), shown_doc(h, a.subWindows[0].root), shown_doc(h, a.subWindows[1].root),
    pairs(h, eqs(lm, a), a.subWindows[0].root, a.subWindows[1].root), same_but_sel(a, b), cur(b).selection == a.subWindows[0].root, cur(b).lastSelection == cur(b).selection, picked(eqs(lm, a), cur(b).selection, oth(a), oth(b)) ensures both(h, lm, b), dhits(h, b) {
    let q = eqs(lm, a); let x = a.subWindows[0].root; let y = a.subWindows[1].root; let c = oth(b); lem_elem(h, x); lem_elem(h, y); lem_met_self(h, a.collapsed, x); lem_met_self(h, a.collapsed, y); assert(b.subWindows[0] == cur(b)); assert(b.subWindows[1] == c); assert(a.subWindows[1] == oth(a));
    assert(closed(a.collapsed, q)); assert(apart(h, x, y)) by { assert forall|e: int| !(#[trigger] es(h, x).contains(e) && es(h, y).contains(e)) by { } }
    if c.selection != 0 { lem_mate(h, a.collapsed, q, x, y, x, c.selection); } assert(wpair(h, q, a.collapsed, cur(b), c)); }
// a search: the hits of the pattern, and the selection moved to the first after it
pub open spec fn hits_of(h: H, p: SearchPattern, x: int) -> Seq<int> { if p.pattern.len() == 0 { Seq::empty() } else { sel(h, p, order(h, x)) } }
pub open spec fn goes_to(h: H, r: Seq<int>, x: int, sel: int, cur: int) -> int { if r.len() == 0 { cur } else { let n = nxt(h, r, sel, order(h, x), false); if n != 0 { n } else { r[0] } } }
pub open spec fn found_one(h: H, o: CurseSimpleOutput, t: CurseSimpleOutput, p: SearchPattern) -> bool {
    pat_ok(p) && t.data == o.data && t.search_result =~= hits_of(h, p, o.data) && t.selection == goes_to(h, t.search_result, o.data, o.selection, o.selection) && (t.search_result.len() == 0 ==> t.collapsed == o.collapsed) }
pub open spec fn found_two(h: H, o: CurseSplitOutput, t: CurseSplitOutput, p: SearchPattern) -> bool {
    pat_ok(p) && t.selectedWin == o.selectedWin && t.subWindows.len() == o.subWindows.len() && (forall|k: int| 0 <= k < t.subWindows.len() ==> (#[trigger] t.subWindows[k]).root == o.subWindows[k].root && t.subWindows[k].searchResults =~= hits_of(h, p, o.subWindows[k].root))
    && cur(t).selection == goes_to(h, cur(t).searchResults, cur(o).root, cur(o).lastSelection, cur(o).selection) && (cur(t).searchResults.len() == 0 ==> t.collapsed == o.collapsed) }
// the names of the keys are different texts
pub open spec fn pair_at(s: Seq<int>) -> (int, int, int) { (s.len() as int, if s.len() > 0 { s[0] } else { 0 }, if s.len() > 4 { s[4] } else if s.len() > 3 { s[3] } else { 0 }) }
pub proof fn lem_keys(k: Seq<int>) ensures k =~= s"Q" ==> pair_at(k) == (1int, 81int, 0int), k =~= s"K" ==> pair_at(k) == (1int, 75int, 0int), k =~= s"J" ==> pair_at(k) == (1int, 74int, 0int), k =~= s"L" ==> pair_at(k) == (1int, 76int, 0int), k =~= s"H" ==> pair_at(k) == (1int, 72int, 0int),
    k =~= s"/" ==> pair_at(k) == (1int, 47int, 0int), k =~= s"N" ==> pair_at(k) == (1int, 78int, 0int), k =~= s"KEY_UP" ==> pair_at(k) == (6int, 75int, 85int), k =~= s"KEY_DOWN" ==> pair_at(k) == (8int, 75int, 68int), k =~= s"KEY_LEFT" ==> pair_at(k) == (8int, 75int, 76int),
    k =~= s"KEY_RIGHT" ==> pair_at(k) == (9int, 75int, 82int), k =~= s"KEY_PPAGE" ==> pair_at(k) == (9int, 75int, 80int), k =~= s"KEY_NPAGE" ==> pair_at(k) == (9int, 75int, 78int),
    k =~= s"^W-W" ==> pair_at(k) == (4int, 94int, 87int), k =~= s"^W-L" ==> pair_at(k) == (4int, 94int, 76int), k =~= s"^W-H" ==> pair_at(k) == (4int, 94int, 72int), k =~= s"^W-KEY_LEFT" ==> pair_at(k) == (11int, 94int, 69int), k =~= s"^W-KEY_RIGHT" ==> pair_at(k) == (12int, 94int, 69int) { }
