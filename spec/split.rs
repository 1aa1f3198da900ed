// the split view: one sub window per document
pub open spec fn cur(t: CurseSplitOutput) -> t_subWindow { t.subWindows[t.selectedWin] }
pub open spec fn split_ok(t: CurseSplitOutput) -> bool { 0 <= t.selectedWin < t.subWindows.len() }
// only what is selected changed
pub open spec fn same_but_sel(a: CurseSplitOutput, b: CurseSplitOutput) -> bool { b == CurseSplitOutput { subWindows: b.subWindows, ..a } && a.subWindows.len() == b.subWindows.len()
    && forall|k: int| 0 <= k < a.subWindows.len() ==> #[trigger] b.subWindows[k] == (t_subWindow { selection: b.subWindows[k].selection, lastSelection: b.subWindows[k].lastSelection, ..a.subWindows[k] }) }
pub open spec fn with_results(t: CurseSplitOutput, t1: CurseSplitOutput, r: Seq<int>) -> bool { t1 == CurseSplitOutput { subWindows: t1.subWindows, ..t } && t1.subWindows.len() == t.subWindows.len() && cur(t1).searchResults =~= r && cur(t1) == (t_subWindow { searchResults: cur(t1).searchResults, ..cur(t) })
    && forall|k: int| 0 <= k < t.subWindows.len() && k != t.selectedWin ==> #[trigger] t1.subWindows[k] == t.subWindows[k] }
pub open spec fn roots_ok(h: H, t: CurseSplitOutput) -> bool { forall|k: int| 0 <= k < t.subWindows.len() ==> tree(h, (#[trigger] t.subWindows[k]).root) && par(h, t.subWindows[k].root) == 0 && distinct(order(h, t.subWindows[k].root)) }
pub open spec fn split_jumped(h: H, t: CurseSplitOutput, x: int, f: bool, ret: bool, t1: CurseSplitOutput, f1: bool) -> bool {
    let n = nxt(h, cur(t).searchResults, cur(t).lastSelection, order(h, x), f); ret == (n != 0) && (ret ==> same_but_sel(t, t1) && cur(t1).selection == n && cur(t1).lastSelection == n) && (!ret ==> t1 == t && f1 == (f || order(h, x).contains(cur(t).lastSelection))) }
pub open spec fn mate(q: Map<int, int>, s: int, w: t_subWindow) -> bool { if w.selection != 0 { two(q, s, w.selection) && w.lastSelection == w.selection } else { no_mate(q, s) } }
pub open spec fn no_mate(q: Map<int, int>, s: int) -> bool { forall|f: int| f != 0 ==> !#[trigger] two(q, s, f) }
pub open spec fn picked(q: Map<int, int>, s: int, a: t_subWindow, b: t_subWindow) -> bool { mate(q, s, b) && (b.selection == 0 ==> b.lastSelection == a.lastSelection) }
