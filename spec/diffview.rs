// the diff view: one sub window per document, each drawn element by element with a stack of open containers
pub open spec fn win(t: CurseSplitOutput) -> t_subWindow { t.subWindows[t.workingWin] }
pub open spec fn wnav(w: t_subWindow) -> Nav { Nav { found: w.selectFound, up: w.select_up, down: w.select_down } }
pub open spec fn texts(h: H) -> bool { (forall|x: int| elem(h, x) ==> 0 <= #[trigger] tlen(h, x) < 0x1000_0000) && forall|x: int| elem(h, x) ==> (#[trigger] h.m[x]).items.len() < 0x7fff_ffff }
// the row after a text of n columns written at row y
pub open spec fn adw(top: int, w: int, y: int, n: int) -> int { wrap_u32(if y <= top { y + 1 } else { y + rows(n, w) }) }
pub open spec fn win_at(t: CurseSplitOutput) -> bool { 0 <= t.workingWin < t.subWindows.len() && t.screenSize.first > 2 && t.diffMatrice > 0 }
pub open spec fn puts(a: CurseSplitOutput, b: CurseSplitOutput, w: t_subWindow) -> bool { b == CurseSplitOutput { subWindows: b.subWindows, ..a } && b.subWindows =~= a.subWindows.update(a.workingWin, w) && win(b) == w }
pub open spec fn down_to(a: CurseSplitOutput, b: CurseSplitOutput, y: int) -> bool { puts(a, b, t_subWindow { cursor: Pair { first: win(a).cursor.first, second: y }, ..win(a) }) }
// only how far the working window is drawn changed
pub open spec fn win_drawn(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { let w = win(b); a.subWindows.len() == b.subWindows.len() && b.workingWin == a.workingWin
    && puts(a, b, t_subWindow { cursor: w.cursor, scrollTop: w.scrollTop, selectFound: w.selectFound, selectIsLast: w.selectIsLast, select_up: w.select_up, select_down: w.select_down, parentsIterators: w.parentsIterators, ..win(a) }) }
pub open spec fn mtail(h: H, coll: Set<int>, c: int, i: int) -> Seq<int> decreases kids(h, c).len() - i { if i < 0 || i >= kids(h, c).len() { Seq::empty() } else { kmet(h, coll, kids(h, c)[i]) + mtail(h, coll, c, i + 1) } }
pub open spec fn rest(h: H, coll: Set<int>, s: Seq<Pair<int, int>>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { mtail(h, coll, s.last().second, s.last().first + 1) + rest(h, coll, s.drop_last()) } }
pub open spec fn stk_ok(h: H, coll: Set<int>, root: int, s: Seq<Pair<int, int>>) -> bool { forall|i: int| 0 <= i < s.len() ==> frame_ok(h, coll, root, #[trigger] s[i], i) }
pub open spec fn frame_ok(h: H, coll: Set<int>, root: int, f: Pair<int, int>, i: int) -> bool { tree(h, f.second) && par_ok(h, f.second) && elem(h, f.second) && open_cont(h, coll, f.second) && -1 <= f.first < kids(h, f.second).len() && met(h, coll, root).contains(f.second) && rank(h, f.second) + i <= rank(h, root) }
pub open spec fn wdoc(h: H, coll: Set<int>, w: t_subWindow) -> bool { tree(h, w.root) && !is_ent(h, w.root) && par(h, w.root) == 0 && distinct(order(h, w.root)) && rank(h, w.root) < 0x1000_0000 && lists(h, coll, w.root, w.lastSelection) && (w.selection == 0 || w.selection == w.lastSelection) }
pub open spec fn wstk(h: H, coll: Set<int>, w: t_subWindow) -> bool { stk_ok(h, coll, w.root, w.parentsIterators) && w.cursor.first == 2 + 4 * w.parentsIterators.len() && w.parentsIterators.len() <= rank(h, w.root) }
// what is left to draw is r: what comes before has been walked through
pub open spec fn at(h: H, coll: Set<int>, w: t_subWindow, r: Seq<int>) -> bool { exists|n: int| at_n(h, coll, w, r, n) }
pub open spec fn at_n(h: H, coll: Set<int>, w: t_subWindow, r: Seq<int>, n: int) -> bool { let q = met(h, coll, w.root); 0 <= n <= q.len() && r =~= q.skip(n) && wnav(w) == walk(h, w.lastSelection, n0(), q.take(n)) }
pub open spec fn split_fine(h: H, hc: Map<int, int>, lm: LM, t: CurseSplitOutput) -> bool { win_at(t) && lm_ok(lm, t.diffMatrice) && cache_ok(h, hc) && texts(h) }
pub proof fn lem_mtail(h: H, coll: Set<int>, c: int, i: int) requires tree(h, c), 0 <= i <= kids(h, c).len() ensures mets(h, coll, c, i) + mtail(h, coll, c, i) =~= mets(h, coll, c, kids(h, c).len() as int) decreases kids(h, c).len() - i {
    if i < kids(h, c).len() { lem_one(h, coll, c, i); lem_mtail(h, coll, c, i + 1); } }
// an open container is itself, then its children
pub proof fn lem_open(h: H, coll: Set<int>, c: int) requires tree(h, c), open_cont(h, coll, c) ensures met(h, coll, c) =~= seq![c] + mtail(h, coll, c, 0) { lem_mtail(h, coll, c, 0); assert(mets(h, coll, c, 0) =~= Seq::<int>::empty()); }
// walking on through a
pub proof fn lem_at(h: H, coll: Set<int>, w: t_subWindow, x: t_subWindow, a: Seq<int>, b: Seq<int>) requires at(h, coll, w, a + b), x.root == w.root, x.lastSelection == w.lastSelection, wnav(x) == walk(h, w.lastSelection, wnav(w), a) ensures at(h, coll, x, b) {
    let n = choose|n: int| at_n(h, coll, w, a + b, n); let q = met(h, coll, w.root); assert(q.take(n + a.len()) =~= q.take(n) + a) by { assert forall|i: int| 0 <= i < a.len() implies q[n + i] == a[i] by { assert(q.skip(n)[i] == (a + b)[i]); } assert(q.skip(n).len() == (a + b).len()); }
    lem_walk_cat(h, w.lastSelection, n0(), q.take(n), a); assert(q.skip(n).len() == a.len() + b.len()); assert(q.skip(n + a.len()) =~= b) by { assert forall|i: int| 0 <= i < b.len() implies q[n + a.len() + i] == b[i] by { assert(q.skip(n)[a.len() + i] == (a + b)[a.len() + i]); } } assert(at_n(h, coll, x, b, n + a.len())); }
pub proof fn lem_at_some(h: H, coll: Set<int>, w: t_subWindow, r: Seq<int>) requires at(h, coll, w, r) ensures some(h, w.lastSelection, n0(), met(h, coll, w.root), wnav(w)), r.len() <= met(h, coll, w.root).len() { let n = choose|n: int| at_n(h, coll, w, r, n); assert(met(h, coll, w.root).take(n).len() == n); }
pub proof fn lem_at_in(h: H, coll: Set<int>, w: t_subWindow, a: Seq<int>, b: Seq<int>, i: int) requires at(h, coll, w, a + b), 0 <= i < a.len() ensures met(h, coll, w.root).contains(a[i]) { let n = choose|n: int| at_n(h, coll, w, a + b, n); let q = met(h, coll, w.root); assert(q.skip(n)[i] == (a + b)[i]); assert(q[n + i] == a[i]); }
pub proof fn lem_at_end(h: H, coll: Set<int>, w: t_subWindow) requires at(h, coll, w, Seq::empty()) ensures wnav(w) == walk(h, w.lastSelection, n0(), met(h, coll, w.root)) { let q = met(h, coll, w.root); let n = choose|n: int| at_n(h, coll, w, Seq::empty(), n); assert(q.skip(n).len() == 0); assert(q.take(n) =~= q); }
pub proof fn lem_at_start(h: H, coll: Set<int>, w: t_subWindow) requires wnav(w) == n0() ensures at(h, coll, w, met(h, coll, w.root)) { let q = met(h, coll, w.root); assert(q.take(0) =~= Seq::<int>::empty()); assert(q.skip(0) =~= q); assert(walk(h, w.lastSelection, n0(), q.take(0)) == n0()); assert(at_n(h, coll, w, q, 0)); }
// the value of a member is drawn with it
pub proof fn lem_pass(h: H, sel: int, s: Nav, k: int, v: int) requires member_value(h, v), sel != v ensures walk(h, sel, s, seq![k, v]) == step(h, sel, s, k) { lem_walk_one(h, sel, s, k); assert(seq![k, v].drop_last() =~= seq![k]); assert(seq![k, v].last() == v); }
pub open spec fn waround(h: H, coll: Set<int>, w: t_subWindow) -> bool { let f = flt(h, met(h, coll, w.root)); lists(h, coll, w.root, w.select_up) && lists(h, coll, w.root, w.select_down)
    && forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == w.lastSelection ==> w.select_up == (if i > 0 { f[i - 1] } else { w.lastSelection }) && (w.selection != 0 ==> w.select_down == (if i + 1 < f.len() { f[i + 1] } else { w.lastSelection })) }
pub open spec fn mes(h: H, coll: Set<int>, s: Seq<Pair<int, int>>, r: Seq<int>) -> int { 2 * (r.len() as int) + (s.len() as int) }
pub open spec fn left(h: H, coll: Set<int>, w: t_subWindow) -> int { let s = w.parentsIterators; if s.len() == 0 { 2 * (met(h, coll, w.root).len() as int) + 1 } else { mes(h, coll, s, rest(h, coll, s)) } }
pub uninterp spec fn opt_none() -> bool;
pub open spec fn opt_empty() -> Optional_bool { Optional_bool { value: opt_none(), exists_: false } }

// an element to draw: what is drawn with it, and what it opens
pub open spec fn dives(h: H, coll: Set<int>, x: int) -> bool { if is_ent(h, x) { opens(h, coll, val(h, x)) } else { open_cont(h, coll, x) } }
pub proof fn lem_item(h: H, coll: Set<int>, w: t_subWindow, x: t_subWindow, i: int, st: Seq<Pair<int, int>>) requires wdoc(h, coll, w), at(h, coll, w, kmet(h, coll, i) + rest(h, coll, st)), x.root == w.root, x.lastSelection == w.lastSelection, wnav(x) == step(h, w.lastSelection, wnav(w), i), tree(h, i), par_ok(h, i), rank(h, i) + st.len() <= rank(h, w.root), stk_ok(h, coll, w.root, st)
    ensures ({ let c = own(h, i); let t = st.push(Pair { first: -1, second: c }); if dives(h, coll, i) { at(h, coll, x, rest(h, coll, t)) && stk_ok(h, coll, w.root, t) && t.len() <= rank(h, w.root) && mes(h, coll, t, rest(h, coll, t)) < mes(h, coll, st, kmet(h, coll, i) + rest(h, coll, st)) } else { at(h, coll, x, rest(h, coll, st)) && mes(h, coll, st, rest(h, coll, st)) < mes(h, coll, st, kmet(h, coll, i) + rest(h, coll, st)) } }),
        some(h, w.lastSelection, n0(), met(h, coll, w.root), wnav(w)), some(h, w.lastSelection, n0(), met(h, coll, w.root), wnav(x)) {
    let sl = w.lastSelection; let c = own(h, i); let rs = rest(h, coll, st); let t = st.push(Pair { first: -1, second: c }); let k = kmet(h, coll, i); let q = met(h, coll, w.root); lem_elem(h, i); lem_walk_one(h, sl, wnav(w), i); lem_at_some(h, coll, w, k + rs); 
    if is_ent(h, i) { lem_val(h, i); lem_elem(h, c); assert(par_ok(h, c)); }
    if dives(h, coll, i) { lem_open(h, coll, c); let m = mtail(h, coll, c, 0); assert(t.last() == Pair { first: -1int, second: c }); assert(t.drop_last() =~= st); assert(rest(h, coll, t) =~= m + rs);
        lem_met_self(h, coll, i);
        assert(k.contains(c)) by { if is_ent(h, i) { assert(k =~= seq![i] + (seq![c] + m)); assert(k[1] == c); } else { assert(k =~= seq![c] + m); assert(k[0] == c); } } let j = choose|j: int| 0 <= j < k.len() && k[j] == c; lem_at_in(h, coll, w, k, rs, j);
        if is_ent(h, i) { lem_pass(h, sl, wnav(w), i, c); let a = seq![i, c]; assert(k + rs =~= a + (m + rs)); lem_at(h, coll, w, x, a, m + rs); } else { let a = seq![i]; assert(k + rs =~= a + (m + rs)); lem_at(h, coll, w, x, a, m + rs); }
        assert forall|n: int| 0 <= n < t.len() implies frame_ok(h, coll, w.root, #[trigger] t[n], n) by { if n < st.len() { assert(t[n] == st[n]); assert(frame_ok(h, coll, w.root, st[n], n)); } else { assert(t[n] == Pair { first: -1int, second: c }); assert(tree(h, c) && elem(h, c) && par_ok(h, c)); } }
        lem_at_some(h, coll, x, m + rs); }
    else { assert(k =~= seq![i]) by { if is_cont(h, i) && !is_ent(h, i) { assert(met(h, coll, i) =~= seq![i]); } else if !is_ent(h, i) { assert(met(h, coll, i) =~= seq![i]); } } lem_at(h, coll, w, x, seq![i], rs); lem_at_some(h, coll, x, rs); }
}
// the next child of the container on top, or its end
pub proof fn lem_top(h: H, coll: Set<int>, w: t_subWindow, st: Seq<Pair<int, int>>) requires wdoc(h, coll, w), stk_ok(h, coll, w.root, st), st.len() > 0
    ensures ({ let f = st.last(); let c = f.second; let k = f.first + 1; let lo = st.drop_last(); tree(h, c) && elem(h, c) && par_ok(h, c) && is_cont(h, c) && open_cont(h, coll, c) && -1 <= f.first < kids(h, c).len() && kids(h, c) == h.m[c].items && stk_ok(h, coll, w.root, lo) && rank(h, c) >= 1 && rank(h, c) + lo.len() <= rank(h, w.root)
        && (k == kids(h, c).len() ==> rest(h, coll, st) == rest(h, coll, lo))
        && (k < kids(h, c).len() ==> ({ let e = kids(h, c)[k]; let t = lo.push(Pair { first: k, second: c }); tree(h, e) && elem(h, e) && par_ok(h, e) && !member_value(h, e) && rank(h, e) + st.len() <= rank(h, w.root) && met(h, coll, w.root).contains(e) && stk_ok(h, coll, w.root, t) && rest(h, coll, st) =~= kmet(h, coll, e) + rest(h, coll, t) })) }) {
    let f = st.last(); let c = f.second; let k = f.first + 1; let lo = st.drop_last(); let n = st.len() - 1; assert(st[n] == f); assert(frame_ok(h, coll, w.root, st[n], n)); lem_elem(h, c); lem_rank(h, c); assert(!is_ent(h, c));
    assert forall|i: int| 0 <= i < lo.len() implies frame_ok(h, coll, w.root, #[trigger] lo[i], i) by { assert(lo[i] == st[i]); assert(frame_ok(h, coll, w.root, st[i], i)); }
    if k == kids(h, c).len() { assert(mtail(h, coll, c, k) =~= Seq::<int>::empty()); assert(rest(h, coll, st) =~= rest(h, coll, lo)); }
    else { let e = kids(h, c)[k]; let t = lo.push(Pair { first: k, second: c }); lem_kid(h, c, k); lem_elem(h, e); lem_met_down(h, coll, w.root, c, k); assert(t.last() == Pair { first: k, second: c }); assert(t.drop_last() =~= lo); assert(t.len() == st.len());
        assert forall|i: int| 0 <= i < t.len() implies frame_ok(h, coll, w.root, #[trigger] t[i], i) by { if i < lo.len() { assert(t[i] == lo[i]); assert(frame_ok(h, coll, w.root, lo[i], i)); } }
        assert(rest(h, coll, st) == mtail(h, coll, c, k) + rest(h, coll, lo)); assert(mtail(h, coll, c, k) == kmet(h, coll, e) + mtail(h, coll, c, k + 1)); assert(rest(h, coll, t) == mtail(h, coll, c, k + 1) + rest(h, coll, lo)); }
}
pub proof fn lem_at_same(h: H, coll: Set<int>, w: t_subWindow, x: t_subWindow, r: Seq<int>) requires at(h, coll, w, r), x.root == w.root, x.lastSelection == w.lastSelection, wnav(x) == wnav(w) ensures at(h, coll, x, r) { let n = choose|n: int| at_n(h, coll, w, r, n); assert(at_n(h, coll, x, r, n)); }
// drawing both windows: bit k of wd is set while window k is not finished
pub open spec fn on(wd: int, k: int) -> bool { if k == 0 { wd == 1 || wd == 3 } else { wd == 2 || wd == 3 } }
pub open spec fn clr(wd: int, k: int) -> int { if on(wd, k) { if k == 0 { wd - 1 } else { wd - 2 } } else { wd } }
pub proof fn lem_band(wd: int) requires 0 <= wd < 4 ensures (band(wd, 1) != 0) == on(wd, 0), (band(wd, 2) != 0) == on(wd, 1), band(wd, -2) == clr(wd, 0), band(wd, -3) == clr(wd, 1), pw2(0) == 1, pw2(1) == 2, pw2(2) == 4 {
    assert(0i64 & 1i64 == 0i64 && 1i64 & 1i64 == 1i64 && 2i64 & 1i64 == 0i64 && 3i64 & 1i64 == 1i64) by (bit_vector); assert(0i64 & 2i64 == 0i64 && 1i64 & 2i64 == 0i64 && 2i64 & 2i64 == 2i64 && 3i64 & 2i64 == 2i64) by (bit_vector);
    assert(0i64 & -2i64 == 0i64 && 1i64 & -2i64 == 0i64 && 2i64 & -2i64 == 2i64 && 3i64 & -2i64 == 2i64) by (bit_vector); assert(0i64 & -3i64 == 0i64 && 1i64 & -3i64 == 1i64 && 2i64 & -3i64 == 0i64 && 3i64 & -3i64 == 1i64) by (bit_vector);
    assert(pw2(0) == 1); assert(pw2(1) == 2 * pw2(0)); assert(pw2(2) == 2 * pw2(1)); }
pub open spec fn wst(h: H, coll: Set<int>, w: t_subWindow, live: bool) -> bool { wdoc(h, coll, w) && (if live { wstk(h, coll, w) && (w.parentsIterators.len() == 0 ==> wnav(w) == n0()) && (w.parentsIterators.len() > 0 ==> at(h, coll, w, rest(h, coll, w.parentsIterators))) } else { waround(h, coll, w) }) }
pub open spec fn dual(t: CurseSplitOutput) -> bool { t.nbInputs == 2 && t.subWindows.len() == 2 && t.screenSize.first > 2 && t.diffMatrice > 0 }
pub open spec fn drawing(h: H, hc: Map<int, int>, lm: LM, t: CurseSplitOutput, wd: int) -> bool { dual(t) && lm_ok(lm, t.diffMatrice) && cache_ok(h, hc) && texts(h) && 0 <= wd < 4 && wst(h, t.collapsed, t.subWindows[0], on(wd, 0)) && wst(h, t.collapsed, t.subWindows[1], on(wd, 1)) }
pub open spec fn todo1(h: H, coll: Set<int>, w: t_subWindow, live: bool) -> int { if live { left(h, coll, w) + 1 } else { 0 } }
pub open spec fn todo(h: H, t: CurseSplitOutput, wd: int) -> int { todo1(h, t.collapsed, t.subWindows[0], on(wd, 0)) + todo1(h, t.collapsed, t.subWindows[1], on(wd, 1)) }
pub open spec fn drew(a: t_subWindow, w: t_subWindow) -> bool { w == t_subWindow { cursor: w.cursor, scrollTop: w.scrollTop, selectFound: w.selectFound, selectIsLast: w.selectIsLast, select_up: w.select_up, select_down: w.select_down, parentsIterators: w.parentsIterators, ..a } }
// only how far the windows are drawn changed
pub open spec fn fixed(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { b == CurseSplitOutput { subWindows: b.subWindows, workingWin: b.workingWin, ..a } && a.subWindows.len() == 2 && b.subWindows.len() == 2 && drew(a.subWindows[0], b.subWindows[0]) && drew(a.subWindows[1], b.subWindows[1]) }
pub open spec fn moved(a: t_subWindow, w: t_subWindow) -> bool { w == t_subWindow { cursor: Pair { first: a.cursor.first, second: w.cursor.second }, ..a } }
pub open spec fn rows_only(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { b == CurseSplitOutput { subWindows: b.subWindows, workingWin: b.workingWin, ..a } && a.subWindows.len() == 2 && b.subWindows.len() == 2 && moved(a.subWindows[0], b.subWindows[0]) && moved(a.subWindows[1], b.subWindows[1]) }
pub proof fn lem_moved(h: H, coll: Set<int>, a: t_subWindow, w: t_subWindow, live: bool) requires moved(a, w), wst(h, coll, a, live) ensures wst(h, coll, w, live), todo1(h, coll, a, live) == todo1(h, coll, w, live) { if live && a.parentsIterators.len() > 0 { lem_at_same(h, coll, a, w, rest(h, coll, a.parentsIterators)); } }
pub proof fn lem_rows_only(h: H, hc: Map<int, int>, lm: LM, a: CurseSplitOutput, b: CurseSplitOutput, o: CurseSplitOutput, wd: int) requires rows_only(a, b), drawing(h, hc, lm, a, wd), fixed(o, a) ensures drawing(h, hc, lm, b, wd), fixed(o, b), todo(h, b, wd) == todo(h, a, wd) { lem_moved(h, a.collapsed, a.subWindows[0], b.subWindows[0], on(wd, 0)); lem_moved(h, a.collapsed, a.subWindows[1], b.subWindows[1], on(wd, 1)); }
pub proof fn lem_tip(h: H, coll: Set<int>, w: t_subWindow) requires wstk(h, coll, w), w.parentsIterators.len() > 0, texts(h) ensures ({ let f = w.parentsIterators.last(); tree(h, f.second) && elem(h, f.second) && is_cont(h, f.second) && -1 <= f.first < 0x7fff_fffe && h.m[f.second].items.len() < 0x7fff_ffff }) { let s = w.parentsIterators; let n = s.len() - 1; assert(frame_ok(h, coll, w.root, s[n], n)); lem_elem(h, s[n].second); }
pub proof fn lem_wroot(h: H, coll: Set<int>, w: t_subWindow, live: bool) requires wst(h, coll, w, live) ensures elem(h, w.root) { lem_elem(h, w.root); }
// one more element drawn in the working window
pub proof fn lem_drawn(h: H, hc: Map<int, int>, hc1: Map<int, int>, lm: LM, o: CurseSplitOutput, a: CurseSplitOutput, b: CurseSplitOutput, wd: int, r: Optional_bool) requires drawing(h, hc, lm, a, wd), cache_ok(h, hc1), fixed(o, a), 0 <= a.workingWin < 2, on(wd, a.workingWin), win_drawn(a, b), r.exists_ && r.value ==> waround(h, b.collapsed, win(b)), r.exists_ && !r.value ==> wstk(h, b.collapsed, win(b)) && win(b).parentsIterators.len() > 0 && at(h, b.collapsed, win(b), rest(h, b.collapsed, win(b).parentsIterators)) && left(h, b.collapsed, win(b)) < left(h, b.collapsed, win(a))
    ensures fixed(o, b), b.workingWin == a.workingWin, r.exists_ ==> ({ let wd1 = if r.value { clr(wd, a.workingWin) } else { wd }; drawing(h, hc1, lm, b, wd1) && todo(h, b, wd1) < todo(h, a, wd) }) {
    let k = a.workingWin; assert(b.subWindows[k] == win(b)); assert(b.subWindows[1 - k] == a.subWindows[1 - k]); assert(left(h, a.collapsed, win(a)) >= 0); assert(wdoc(h, b.collapsed, win(b))); }
pub proof fn lem_fresh(h: H, coll: Set<int>, a: t_subWindow, w: t_subWindow) requires wdoc(h, coll, a), drew(a, w), w.cursor.first == 2, w.parentsIterators.len() == 0, wnav(w) == n0() ensures wst(h, coll, w, true) { lem_rank(h, a.root); }
pub proof fn lem_todo(h: H, t: CurseSplitOutput, wd: int) ensures todo(h, t, wd) >= 0 { }
