// the two documents shown side by side and the pairs between them
// what is folded on one side is folded on the other
pub open spec fn closed(coll: Set<int>, eqs: Map<int, int>) -> bool { forall|e: int, f: int| #[trigger] two(eqs, e, f) ==> coll.contains(e) == coll.contains(f) }
pub open spec fn root_ok(h: H, x: int) -> bool { tree(h, x) && !is_ent(h, x) && par(h, x) == 0 && distinct(order(h, x)) }
pub open spec fn apart(h: H, x: int, y: int) -> bool { forall|e: int| !(#[trigger] es(h, x).contains(e) && es(h, y).contains(e)) }
pub proof fn lem_pairs_sym(h: H, eqs: Map<int, int>, x: int, y: int) requires pairs(h, eqs, x, y) ensures pairs(h, eqs, y, x) {
    assert forall|e: int, f: int| #[trigger] two(eqs, e, f) implies tie(h, eqs, e, f, y, x) by { assert(tie(h, eqs, e, f, x, y)); }
    assert forall|e: int, f: int| #[trigger] two(eqs, e, f) implies across(es(h, y), es(h, x), e, f) by { assert(across(es(h, x), es(h, y), e, f)); } }
pub proof fn lem_two_sym(eqs: Map<int, int>, e: int, f: int) ensures two(eqs, e, f) == two(eqs, f, e) { }
// the value of a member met that opens is met
pub proof fn lem_met_val(h: H, coll: Set<int>, x: int, k: int) requires tree(h, x), !is_ent(h, x), met(h, coll, x).contains(k), is_ent(h, k), tree(h, k), opens(h, coll, val(h, k)) ensures met(h, coll, x).contains(val(h, k)) decreases rank(h, x), 1int {
    let n = kids(h, x).len() as int; lem_elem(h, x); let w = val(h, k); lem_val(h, k); assert(k != x);
    assert(open_cont(h, coll, x)) by { if !open_cont(h, coll, x) { assert(met(h, coll, x) =~= seq![x]); assert(seq![x][0] == x); } } lem_in_cat(seq![x], mets(h, coll, x, n), k); assert(!seq![x].contains(k)) by { if seq![x].contains(k) { assert(seq![x][0] == x); } } lem_mets_which(h, coll, x, n, k); let j = choose|j: int| 0 <= j < n && kmet(h, coll, #[trigger] kids(h, x)[j]).contains(k); let c = kids(h, x)[j]; lem_kid(h, x, j);
    if c == k { lem_met_self(h, coll, w); assert(kmet(h, coll, k) =~= seq![k] + met(h, coll, w)); lem_in_cat(seq![k], met(h, coll, w), w); }
    else if is_ent(h, c) { lem_val(h, c); let v = val(h, c); lem_in_cat(seq![c], met(h, coll, v), k); assert(!seq![c].contains(k)) by { if seq![c].contains(k) { assert(seq![c][0] == c); } } assert(opens(h, coll, v)); lem_elem(h, v); lem_met_val(h, coll, v, k); lem_in_cat(seq![c], met(h, coll, v), w); }
    else { lem_met_val(h, coll, c, k); }
    lem_kmet_of(h, coll, x, j, n, w); lem_in_cat(seq![x], mets(h, coll, x, n), w); }
// the counterpart of what is displayed is displayed (a value shown with its member when it opens)
pub proof fn lem_mate(h: H, coll: Set<int>, eqs: Map<int, int>, x: int, y: int, e: int, f: int) requires root_ok(h, x), root_ok(h, y), apart(h, x, y), pairs(h, eqs, x, y), closed(coll, eqs), two(eqs, e, f), met(h, coll, x).contains(e), member_value(h, e) ==> opens(h, coll, f)
    ensures met(h, coll, y).contains(f), member_value(h, e) == member_value(h, f), elem(h, f), f != 0, es(h, y).contains(f), tree(h, f) decreases depth(h, e) {
    lem_elem(h, x); lem_elem(h, y); assert(up(h, x, 1) && up(h, y, 1)); lem_met_in(h, coll, x, e); lem_down(h, x, e); lem_up(h, e); lem_across(h, eqs, x, y, e, f); assert(es(h, x).contains(e)); assert(es(h, y).contains(f)); lem_down(h, y, f); lem_up(h, f); assert(tie(h, eqs, e, f, x, y));
    if f == y && e == x { lem_met_self(h, coll, y); }
    else { assert(!(e == y && f == x)) by { if e == y { lem_met_self(h, coll, y); lem_met_in(h, coll, y, y); assert(es(h, y).contains(e)); } }
        let p = par(h, e); let g = par(h, f); lem_elem(h, x); assert(!(is_ent(h, x))); assert(two(eqs, p, g)); lem_across(h, eqs, x, y, p, g); assert(e != x); lem_met_up(h, coll, x, e); lem_met_in(h, coll, x, p); lem_down(h, x, p); lem_up(h, p); assert(es(h, x).contains(p)); assert(es(h, y).contains(g)); lem_down(h, y, g); assert(f != y);
        lem_kid_of(h, y, f); let j = choose|j: int| 0 <= j < kids(h, g).len() && #[trigger] kids(h, g)[j] == f;
        if member_value(h, e) { assert(is_ent(h, p)); lem_val(h, p); lem_elem(h, p); lem_not_value(h, x, p); lem_mate(h, coll, eqs, x, y, p, g); assert(is_ent(h, g)); lem_val(h, g); assert(val(h, g) == f); lem_met_val(h, coll, y, g); }
        else { lem_elem(h, g); assert(is_cont(h, g)); assert(h.m[g].items.len() > 0); assert(!coll.contains(g)) by { assert(coll.contains(p) == coll.contains(g)); } assert(opens(h, coll, g)); lem_mate(h, coll, eqs, x, y, p, g); lem_met_down(h, coll, y, g, j); } } }
pub proof fn lem_kid_of(h: H, x: int, e: int) requires tree(h, x), order(h, x).contains(e), e != x ensures order(h, x).contains(par(h, e)), exists|i: int| 0 <= i < kids(h, par(h, e)).len() && #[trigger] kids(h, par(h, e))[i] == e decreases rank(h, x) {
    let k = kids(h, x); let n = k.len() as int; lem_order(h, x); lem_in_cat(seq![x], orders(h, k, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_orders_which(h, k, n, e); let i = choose|i: int| 0 <= i < n && order(h, #[trigger] k[i]).contains(e); lem_kid(h, x, i); lem_orders_has(h, k, n, i, e);
    if e == k[i] { assert(par(h, e) == x); assert(kids(h, par(h, e))[i] == e); assert((seq![x] + orders(h, k, n))[0] == x); assert(order(h, x).contains(x)); } else { lem_kid_of(h, k[i], e); let p = par(h, e); lem_orders_has(h, k, n, i, p); lem_in_cat(seq![x], orders(h, k, n), p); } }
pub proof fn lem_not_value(h: H, x: int, e: int) requires root_ok(h, x), order(h, x).contains(e), is_ent(h, e) ensures !member_value(h, e) {
    lem_elem(h, x); assert(up(h, x, 1)); lem_down(h, x, e); if member_value(h, e) { let q = par(h, e); assert(e != x); lem_kid_of(h, x, e); lem_down(h, x, q); lem_val(h, q); let i = choose|i: int| 0 <= i < kids(h, q).len() && #[trigger] kids(h, q)[i] == e; lem_elem(h, q); assert(kids(h, q)[i] == val(h, q)); } }
pub proof fn lem_anc_in(h: H, x: int, e: int, a: int, d: int) requires root_ok(h, x), order(h, x).contains(e), ancd(h, e, a, d) ensures order(h, x).contains(a) decreases d { lem_elem(h, x); lem_met_self(h, Set::empty(), x); if e != x { lem_kid_of(h, x, e); if par(h, e) != a { lem_anc_in(h, x, par(h, e), a, d - 1); } } }
pub proof fn lem_not_below(h: H, x: int, e: int, a: int) requires root_ok(h, x), order(h, x).contains(e), !order(h, x).contains(a) ensures !anc(h, e, a) { if anc(h, e, a) { lem_anc_in(h, x, e, a, choose|d: int| ancd(h, e, a, d)); } }
// both windows show their selection, the one selected in the other document being the counterpart of the current one
pub open spec fn eqs(lm: LM, t: CurseSplitOutput) -> Map<int, int> { l_eqs(lm.m[t.diffMatrice]) }
pub open spec fn oth(t: CurseSplitOutput) -> t_subWindow { t.subWindows[1 - t.selectedWin] }
pub open spec fn wpair(h: H, q: Map<int, int>, coll: Set<int>, a: t_subWindow, b: t_subWindow) -> bool { wdoc(h, coll, a) && wdoc(h, coll, b) && a.selection != 0 && a.selection == a.lastSelection && mate(q, a.selection, b) && apart(h, a.root, b.root) && pairs(h, q, a.root, b.root) && closed(coll, q) }
pub open spec fn both(h: H, lm: LM, t: CurseSplitOutput) -> bool { dual(t) && 0 <= t.selectedWin < 2 && lm_ok(lm, t.diffMatrice) && wpair(h, eqs(lm, t), t.collapsed, cur(t), oth(t)) }
pub open spec fn kept(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { same_but_sel(CurseSplitOutput { collapsed: b.collapsed, ..a }, b) }
pub open spec fn re(w: t_subWindow, s: int, l: int) -> t_subWindow { t_subWindow { selection: s, lastSelection: l, ..w } }
pub proof fn lem_choose(h: H, q: Map<int, int>, coll: Set<int>, a: t_subWindow, b: t_subWindow, s: int, c: t_subWindow) requires wpair(h, q, coll, a, b), lists(h, coll, a.root, s), picked(q, s, b, c), c == re(b, c.selection, c.lastSelection) ensures wpair(h, q, coll, re(a, s, s), c), s != 0 {
    lem_elem(h, a.root); lem_met_in(h, coll, a.root, s); lem_order_elem(h, a.root, s); if c.selection != 0 { lem_mate(h, coll, q, a.root, b.root, s, c.selection); } }
// unfolding pairs hides nothing
pub proof fn lem_open_both(h: H, q: Map<int, int>, c1: Set<int>, c2: Set<int>, a: t_subWindow, b: t_subWindow) requires wpair(h, q, c1, a, b), closed(c2, q), forall|e: int| #[trigger] c2.contains(e) ==> c1.contains(e) ensures wpair(h, q, c2, a, b) {
    lem_elem(h, a.root); lem_elem(h, b.root); assert(up(h, a.root, 1) && up(h, b.root, 1)); lem_met_less(h, c1, c2, 0, a.root, a.lastSelection); lem_met_less(h, c1, c2, 0, b.root, b.lastSelection); }
pub proof fn lem_open_pair(q: Map<int, int>, c1: Set<int>, c2: Set<int>, v: int, g: int) requires closed(c1, q), one_to_one(q), if g != 0 { two(q, v, g) } else { no_mate(q, v) }, no_null(q), forall|e: int| e != 0 ==> #[trigger] c2.contains(e) == (c1.contains(e) && e != v && e != g) ensures closed(c2, q) {
    assert forall|e: int, f: int| #[trigger] two(q, e, f) implies c2.contains(e) == c2.contains(f) by { assert(two(q, f, e)); if g != 0 { assert(two(q, g, v)); } assert(c1.contains(e) == c1.contains(f)); } }
pub proof fn lem_shut_pair(q: Map<int, int>, c1: Set<int>, c2: Set<int>, v: int, g: int) requires closed(c1, q), one_to_one(q), if g != 0 { two(q, v, g) } else { no_mate(q, v) }, no_null(q), forall|e: int| e != 0 ==> #[trigger] c2.contains(e) == (c1.contains(e) || e == v || e == g) ensures closed(c2, q) {
    assert forall|e: int, f: int| #[trigger] two(q, e, f) implies c2.contains(e) == c2.contains(f) by { assert(two(q, f, e)); if g != 0 { assert(two(q, g, v)); } assert(c1.contains(e) == c1.contains(f)); } }
// folding the selection, here and there, hides neither selection
pub proof fn lem_shut(h: H, q: Map<int, int>, c1: Set<int>, c2: Set<int>, a: t_subWindow, b: t_subWindow, g: int) requires wpair(h, q, c1, a, b), ({ let v = own(h, a.selection); (if g != 0 { two(q, v, g) } else { no_mate(q, v) }) && forall|e: int| #[trigger] c2.contains(e) == (c1.contains(e) || e == v || (e == g && g != 0)) }) ensures wpair(h, q, c2, a, b) {
    let s = a.selection; let v = own(h, s); let l = b.lastSelection; lem_elem(h, a.root); lem_elem(h, b.root); assert(up(h, a.root, 1) && up(h, b.root, 1)); lem_around(h, c1, a.root, s); lem_around(h, c1, b.root, l); lem_no_null(h, q, a.root, b.root); lem_shut_pair(q, c1, c2, v, g);
    lem_met_in(h, c1, a.root, s); lem_met_in(h, c1, b.root, l); lem_met_in_own(h, a.root, s); assert(es(h, a.root).contains(v)); assert(!es(h, b.root).contains(v)); let cm = c1.insert(v);
    lem_not_below(h, b.root, l, v); lem_met_less(h, c1, cm, v, a.root, s); lem_met_less(h, c1, cm, v, b.root, l);
    if g != 0 { lem_across(h, q, a.root, b.root, v, g); assert(es(h, b.root).contains(g)); assert(!es(h, a.root).contains(g)); lem_not_below(h, a.root, s, g); lem_met_less(h, cm, c2, g, a.root, s);
        assert(tie(h, q, v, g, a.root, b.root)); assert(!anc(h, l, g)) by { if v == s { assert(two(q, s, g)); assert(l == g) by { if b.selection == 0 { assert(!two(q, s, g)); } else { assert(two(q, s, b.selection)); } } }
            else { assert(par(h, v) == s); assert(v != b.root); assert(two(q, s, par(h, g))); lem_across(h, q, a.root, b.root, s, par(h, g)); assert(l == par(h, g)) by { if b.selection == 0 { assert(!two(q, s, par(h, g))); } else { assert(two(q, s, b.selection)); } } lem_down(h, b.root, g); lem_up(h, g); if anc(h, l, g) { lem_anc_less(h, l, g); } } }
        lem_met_less(h, cm, c2, g, b.root, l); } else { assert(c2 =~= cm); } }
pub proof fn lem_met_in_own(h: H, x: int, s: int) requires root_ok(h, x), order(h, x).contains(s) ensures order(h, x).contains(own(h, s)) decreases rank(h, x) { lem_own_in(h, x, s); }
pub proof fn lem_own_in(h: H, x: int, s: int) requires tree(h, x), order(h, x).contains(s) ensures order(h, x).contains(own(h, s)) decreases rank(h, x) {
    let k = kids(h, x); let n = k.len() as int; lem_order(h, x); 
    if s == x { if is_ent(h, x) { lem_val(h, x); lem_ent_order(h, x); let v = val(h, x); lem_order(h, v); assert(order(h, v)[0] == v); assert(order(h, v).contains(v)); lem_in_cat(seq![x], order(h, v), v); } }
    else { lem_in_cat(seq![x], orders(h, k, n), s); assert(!seq![x].contains(s)) by { if seq![x].contains(s) { assert(seq![x][0] == x); } } lem_orders_which(h, k, n, s); let i = choose|i: int| 0 <= i < n && order(h, #[trigger] k[i]).contains(s); lem_kid(h, x, i); lem_own_in(h, k[i], s); lem_orders_has(h, k, n, i, own(h, s)); lem_in_cat(seq![x], orders(h, k, n), own(h, s)); } }
// selecting any displayed element of the current document
pub proof fn lem_chosen(h: H, lm: LM, a: CurseSplitOutput) requires both(h, lm, a) ensures
    forall|b: CurseSplitOutput| #[trigger] same_but_sel(a, b) && lists(h, a.collapsed, cur(a).root, cur(b).selection) && cur(b).lastSelection == cur(b).selection && picked(eqs(lm, a), cur(b).selection, oth(a), oth(b)) ==> both(h, lm, b),
    forall|s: int| #[trigger] lists(h, a.collapsed, cur(a).root, s) ==> s != 0,
    one_to_one(eqs(lm, a)), no_null(eqs(lm, a)), par_ok(h, cur(a).selection) {
    let q = eqs(lm, a); lem_elem(h, cur(a).root); lem_around(h, a.collapsed, cur(a).root, cur(a).selection);
    assert forall|s: int| #[trigger] lists(h, a.collapsed, cur(a).root, s) implies s != 0 by { lem_met_in(h, a.collapsed, cur(a).root, s); lem_order_elem(h, cur(a).root, s); }
    assert forall|b: CurseSplitOutput| #[trigger] same_but_sel(a, b) && lists(h, a.collapsed, cur(a).root, cur(b).selection) && cur(b).lastSelection == cur(b).selection && picked(q, cur(b).selection, oth(a), oth(b)) implies both(h, lm, b) by {
        let s = cur(b).selection; let k = a.selectedWin; assert(b.subWindows[k] == cur(b)); assert(b.subWindows[1 - k] == oth(b)); lem_choose(h, q, a.collapsed, cur(a), oth(a), s, oth(b)); assert(cur(b) == re(cur(a), s, s)); } }
pub proof fn lem_open_key(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput, v: int, g: int) requires both(h, lm, a), b == (CurseSplitOutput { collapsed: b.collapsed, ..a }), if g != 0 { two(eqs(lm, a), v, g) } else { no_mate(eqs(lm, a), v) }, forall|e: int| e != 0 ==> #[trigger] b.collapsed.contains(e) == (a.collapsed.contains(e) && e != v && e != g), forall|e: int| #[trigger] b.collapsed.contains(e) ==> a.collapsed.contains(e) ensures both(h, lm, b) {
    let q = eqs(lm, a); lem_no_null(h, q, cur(a).root, oth(a).root); lem_open_pair(q, a.collapsed, b.collapsed, v, g); lem_open_both(h, q, a.collapsed, b.collapsed, cur(a), oth(a)); }
pub proof fn lem_shut_key(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput, g: int) requires both(h, lm, a), b == (CurseSplitOutput { collapsed: b.collapsed, ..a }), ({ let v = own(h, cur(a).selection); (if g != 0 { two(eqs(lm, a), v, g) } else { no_mate(eqs(lm, a), v) }) && forall|e: int| #[trigger] b.collapsed.contains(e) == (a.collapsed.contains(e) || e == v || (e == g && g != 0)) }) ensures both(h, lm, b) {
    let q = eqs(lm, a); lem_shut(h, q, a.collapsed, b.collapsed, cur(a), oth(a), g); }
// the other window becomes the current one; what it last selected is selected again
pub open spec fn restored(q: Map<int, int>, a: CurseSplitOutput, b: CurseSplitOutput, n: int) -> bool { let k = b.selectedWin; let l = a.subWindows[k].lastSelection; same_but_sel(CurseSplitOutput { selectedWin: b.selectedWin, ..a }, b)
    && (if n > k { b.subWindows[k].selection == l && b.subWindows[k].lastSelection == l } else { b.subWindows[k] == a.subWindows[k] }) && (if n > 1 - k { picked(q, l, a.subWindows[1 - k], b.subWindows[1 - k]) } else { b.subWindows[1 - k] == a.subWindows[1 - k] }) }
pub proof fn lem_swapped(h: H, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput) requires both(h, lm, a), b == a || (b.selectedWin == 1 - a.selectedWin && (if oth(a).selection != 0 { b == (CurseSplitOutput { selectedWin: b.selectedWin, ..a }) } else { restored(eqs(lm, a), a, b, 2) })) ensures both(h, lm, b) {
    if b != a { let q = eqs(lm, a); let u = cur(a); let w = oth(a); let k = b.selectedWin; lem_pairs_sym(h, q, u.root, w.root); assert(b.subWindows[k] == cur(b)); assert(b.subWindows[1 - k] == oth(b)); assert forall|e: int| !(#[trigger] es(h, w.root).contains(e) && es(h, u.root).contains(e)) by { assert(!(es(h, u.root).contains(e) && es(h, w.root).contains(e))); }
        if w.selection != 0 { assert(two(q, u.selection, w.selection)); assert(two(q, w.selection, u.selection)); }
        else { let l = w.lastSelection; lem_elem(h, w.root); lem_met_in(h, a.collapsed, w.root, l); lem_order_elem(h, w.root, l); let c = oth(b); assert(picked(q, l, u, c)); if c.selection != 0 { lem_mate(h, a.collapsed, q, w.root, u.root, l, c.selection); } assert(wpair(h, q, a.collapsed, cur(b), c)); } } }
// right opens a pair or goes in, left closes a pair or goes out
pub open spec fn wunfolds(h: H, q: Map<int, int>, o: CurseSplitOutput, t: CurseSplitOutput) -> bool { let x = held(h, cur(o).selection);
    if !is_cont(h, x) { t == o } else if o.collapsed.contains(x) { cur(t).selection == cur(o).selection && forall|e: int| e != 0 ==> #[trigger] t.collapsed.contains(e) == (o.collapsed.contains(e) && e != x && !two(q, x, e)) }
    else { t.collapsed == o.collapsed && cur(t).selection == (if h.m[x].items.len() == 0 { cur(o).selection } else { h.m[x].items[0] }) } }
pub open spec fn wfolds(h: H, q: Map<int, int>, o: CurseSplitOutput, t: CurseSplitOutput) -> bool { let x = held(h, cur(o).selection);
    if par(h, x) != 0 && (!is_cont(h, x) || o.collapsed.contains(x) || h.m[x].items.len() == 0) { t.collapsed == o.collapsed && cur(t).selection == holder(h, cur(o).selection) }
    else { cur(t).selection == cur(o).selection && forall|e: int| e != 0 ==> #[trigger] t.collapsed.contains(e) == (o.collapsed.contains(e) || e == x || two(q, x, e)) } }
