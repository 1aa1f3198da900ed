// search hits in document order
pub open spec fn matches(h: H, p: SearchPattern, x: int) -> bool { pat_type(p, h.m[x].tag) && pat_text(p, el_text(h.m[x])) }
// the elements a search lists: a member stands for its key and its value, containers have no text
pub open spec fn hit(h: H, p: SearchPattern, x: int) -> bool {
    !is_cont(h, x) && !member_value(h, x) && (matches(h, p, x) || is_ent(h, x) && !is_cont(h, val(h, x)) && matches(h, p, val(h, x))) }
pub open spec fn sel(h: H, p: SearchPattern, s: Seq<int>) -> Seq<int> decreases s.len() {
    if s.len() == 0 { s } else if hit(h, p, s.last()) { sel(h, p, s.drop_last()).push(s.last()) } else { sel(h, p, s.drop_last()) } }
pub proof fn lem_sel_cat(h: H, p: SearchPattern, a: Seq<int>, b: Seq<int>) ensures sel(h, p, a + b) =~= sel(h, p, a) + sel(h, p, b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_sel_cat(h, p, a, b.drop_last()); } }
pub proof fn lem_sel_in(h: H, p: SearchPattern, s: Seq<int>, x: int) requires sel(h, p, s).contains(x) ensures s.contains(x), hit(h, p, x) decreases s.len() {
    if s.len() > 0 { let i = choose|i: int| 0 <= i < sel(h, p, s).len() && sel(h, p, s)[i] == x; let t = sel(h, p, s.drop_last());
        if i < t.len() { assert(t[i] == x); lem_sel_in(h, p, s.drop_last(), x); let j = choose|j: int| 0 <= j < s.drop_last().len() && s.drop_last()[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == x); } } }
pub proof fn lem_sel_all(h: H, p: SearchPattern, s: Seq<int>, x: int) requires s.contains(x), hit(h, p, x) ensures sel(h, p, s).contains(x) decreases s.len() {
    let i = choose|i: int| 0 <= i < s.len() && s[i] == x; let t = sel(h, p, s.drop_last());
    if i == s.len() - 1 { assert(sel(h, p, s)[t.len() as int] == x); } else { assert(s.drop_last()[i] == x); lem_sel_all(h, p, s.drop_last(), x); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(sel(h, p, s)[j] == x); } }
pub proof fn lem_sel_distinct(h: H, p: SearchPattern, s: Seq<int>) requires distinct(s) ensures distinct(sel(h, p, s)) decreases s.len() {
    if s.len() > 0 { let d = s.drop_last(); assert(distinct(d)); lem_sel_distinct(h, p, d); let t = sel(h, p, d);
        assert(!t.contains(s.last())) by { if t.contains(s.last()) { lem_sel_in(h, p, d, s.last()); let j = choose|j: int| 0 <= j < d.len() && d[j] == s.last(); assert(s[j] == s[s.len() - 1]); } }
        if hit(h, p, s.last()) { let u = t.push(s.last()); assert forall|i: int, j: int| 0 <= i < j < u.len() implies u[i] != u[j] by { if j == t.len() { assert(t.contains(t[i])); } } } } }
// what is true before the sub-document x is searched: the last hit so far is not one of its elements
pub open spec fn fresh(h: H, r: Seq<int>, x: int) -> bool { r.len() == 0 || !order(h, x).contains(r.last()) }
// results after searching x
pub open spec fn searched(h: H, p: SearchPattern, r: Seq<int>, x: int) -> Seq<int> {
    if member_value(h, x) && !is_cont(h, x) { if matches(h, p, x) && (r.len() == 0 || r.last() != par(h, x)) { r.push(par(h, x)) } else { r } } else { r + sel(h, p, order(h, x)) } }
pub proof fn lem_sel_leaf(h: H, p: SearchPattern, x: int) requires tree(h, x), !is_cont(h, x), !is_ent(h, x) ensures order(h, x) =~= seq![x], sel(h, p, order(h, x)) =~= if hit(h, p, x) { seq![x] } else { Seq::empty() } {
    lem_order(h, x); assert(kids(h, x).len() == 0); assert(order(h, x) =~= seq![x]); assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(seq![x].last() == x); assert(sel(h, p, Seq::empty()) =~= Seq::empty()); }
pub proof fn lem_sel_one(h: H, p: SearchPattern, x: int) ensures sel(h, p, seq![x]) =~= if hit(h, p, x) { seq![x] } else { Seq::empty() } {
    assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(seq![x].last() == x); assert(sel(h, p, Seq::empty()) =~= Seq::empty()); }
// a member with its value
pub proof fn lem_member(h: H, p: SearchPattern, x: int) requires tree(h, x), is_ent(h, x), !is_cont(h, x), distinct(order(h, x)) 
    ensures tree(h, val(h, x)), 0 < rank(h, val(h, x)) < rank(h, x), elem(h, val(h, x)), par(h, val(h, x)) == x, !is_ent(h, val(h, x)), distinct(order(h, val(h, x))), !order(h, val(h, x)).contains(x),
        forall|e: int| #[trigger] order(h, val(h, x)).contains(e) ==> order(h, x).contains(e), order(h, x).contains(x),
        order(h, x) =~= seq![x] + order(h, val(h, x)), sel(h, p, order(h, x)) =~= sel(h, p, seq![x]) + sel(h, p, order(h, val(h, x))),
        !is_cont(h, val(h, x)) ==> sel(h, p, order(h, val(h, x))).len() == 0 && order(h, x) =~= seq![x, val(h, x)] {
    let v = val(h, x); assert(kids(h, x) =~= seq![v]); assert(kids(h, x)[0] == v); lem_kid(h, x, 0); lem_child(h, x, 0); lem_order(h, x); lem_elem(h, x);
    assert(orders(h, kids(h, x), 1) =~= orders(h, kids(h, x), 0) + order(h, v)); assert(orders(h, kids(h, x), 0) =~= Seq::<int>::empty()); assert(order(h, x) =~= seq![x] + order(h, v));
    lem_sel_cat(h, p, seq![x], order(h, v));
    if !is_cont(h, v) { lem_sel_leaf(h, p, v); } }
pub proof fn lem_container(h: H, p: SearchPattern, x: int) requires tree(h, x), is_cont(h, x) ensures sel(h, p, order(h, x)) =~= sel(h, p, orders(h, kids(h, x), kids(h, x).len() as int)) {
    lem_order(h, x); lem_sel_cat(h, p, seq![x], orders(h, kids(h, x), kids(h, x).len() as int)); lem_sel_one(h, p, x); }
// the hit a "next" goes to: the first listed element after the selection (f: the selection was met before), 0 when there is none
pub open spec fn good(h: H, r: Seq<int>, s: int, x: int) -> bool { r.contains(x) && x != s && !is_cont(h, x) }
pub open spec fn nxt(h: H, r: Seq<int>, s: int, o: Seq<int>, f: bool) -> int decreases o.len() {
    if o.len() == 0 { 0 } else if (f || o[0] == s) && good(h, r, s, o[0]) { o[0] } else { nxt(h, r, s, o.drop_first(), f || o[0] == s) } }
pub proof fn lem_nxt_cat(h: H, r: Seq<int>, s: int, a: Seq<int>, b: Seq<int>, f: bool) requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 0
    ensures nxt(h, r, s, a + b, f) == if nxt(h, r, s, a, f) != 0 { nxt(h, r, s, a, f) } else { nxt(h, r, s, b, f || a.contains(s)) } decreases a.len() {
    if a.len() == 0 { assert(a + b =~= b); } else {
        let d = a.drop_first(); assert((a + b).drop_first() =~= d + b); assert((a + b)[0] == a[0]); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != 0 by { assert(d[i] == a[i + 1]); } lem_nxt_cat(h, r, s, d, b, f || a[0] == s);
        if a.contains(s) && a[0] != s { let i = choose|i: int| 0 <= i < a.len() && a[i] == s; assert(d[i - 1] == s); }
        if d.contains(s) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s; assert(a[i + 1] == s); } } }
pub proof fn lem_nxt_one(h: H, r: Seq<int>, s: int, x: int, f: bool) ensures nxt(h, r, s, seq![x], f) == if (f || x == s) && good(h, r, s, x) { x } else { 0 }, seq![x].contains(s) == (x == s) {
    assert(seq![x].drop_first() =~= Seq::<int>::empty()); assert(seq![x][0] == x); assert(nxt(h, r, s, Seq::<int>::empty(), f || x == s) == 0); }
pub proof fn lem_nxt_in(h: H, r: Seq<int>, s: int, o: Seq<int>, f: bool) requires nxt(h, r, s, o, f) != 0 ensures o.contains(nxt(h, r, s, o, f)), good(h, r, s, nxt(h, r, s, o, f)) decreases o.len() {
    if (f || o[0] == s) && good(h, r, s, o[0]) {} else { let d = o.drop_first(); lem_nxt_in(h, r, s, d, f || o[0] == s); let i = choose|i: int| 0 <= i < d.len() && d[i] == nxt(h, r, s, d, f || o[0] == s); assert(o[i + 1] == d[i]); } }
pub proof fn lem_orders_elem(h: H, x: int, n: int) requires tree(h, x), 0 <= n <= kids(h, x).len() ensures forall|i: int| 0 <= i < orders(h, kids(h, x), n).len() ==> #[trigger] orders(h, kids(h, x), n)[i] != 0 {
    let o = orders(h, kids(h, x), n); assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] != 0 by { assert(o.contains(o[i])); lem_orders_which(h, kids(h, x), n, o[i]); let j = choose|j: int| 0 <= j < n && order(h, #[trigger] kids(h, x)[j]).contains(o[i]); lem_kid(h, x, j); lem_order_elem(h, kids(h, x)[j], o[i]); } }
pub proof fn lem_order_elems(h: H, x: int) requires tree(h, x) ensures forall|i: int| 0 <= i < order(h, x).len() ==> #[trigger] order(h, x)[i] != 0 {
    assert forall|i: int| 0 <= i < order(h, x).len() implies #[trigger] order(h, x)[i] != 0 by { assert(order(h, x).contains(order(h, x)[i])); lem_order_elem(h, x, order(h, x)[i]); } }
// the first n children, then child n
pub proof fn lem_nxt_kids(h: H, r: Seq<int>, s: int, x: int, n: int, f: bool) requires tree(h, x), 0 <= n < kids(h, x).len()
    ensures ({ let k = kids(h, x); let a = orders(h, k, n); let b = order(h, k[n]); orders(h, k, n + 1) =~= a + b
        && nxt(h, r, s, orders(h, k, n + 1), f) == (if nxt(h, r, s, a, f) != 0 { nxt(h, r, s, a, f) } else { nxt(h, r, s, b, f || a.contains(s)) }) && orders(h, k, n + 1).contains(s) == (a.contains(s) || b.contains(s)) }) {
    let k = kids(h, x); lem_orders_elem(h, x, n); lem_nxt_cat(h, r, s, orders(h, k, n), order(h, k[n]), f); lem_in_cat(orders(h, k, n), order(h, k[n]), s); }
pub proof fn lem_nxt_rest(h: H, r: Seq<int>, s: int, x: int, n: int, m: int, f: bool) requires tree(h, x), 0 <= n <= m <= kids(h, x).len(), nxt(h, r, s, orders(h, kids(h, x), n), f) != 0
    ensures nxt(h, r, s, orders(h, kids(h, x), m), f) == nxt(h, r, s, orders(h, kids(h, x), n), f) decreases m - n { if n < m { lem_nxt_rest(h, r, s, x, n, m - 1, f); lem_nxt_kids(h, r, s, x, m - 1, f); } }
pub proof fn lem_nxt_top(h: H, r: Seq<int>, s: int, x: int, f: bool) requires tree(h, x)
    ensures ({ let o = orders(h, kids(h, x), kids(h, x).len() as int); let g = (f || x == s) && good(h, r, s, x); nxt(h, r, s, order(h, x), f) == (if g { x } else { nxt(h, r, s, o, f || x == s) }) && order(h, x).contains(s) == (x == s || o.contains(s)) }), elem(h, x) {
    let o = orders(h, kids(h, x), kids(h, x).len() as int); lem_order(h, x); lem_elem(h, x); lem_nxt_one(h, r, s, x, f); assert(seq![x][0] == x); lem_nxt_cat(h, r, s, seq![x], o, f); lem_in_cat(seq![x], o, s); }
// what a call leaves: the answer, the selection, whether the selection was met
pub open spec fn jumped(h: H, r: Seq<int>, s: int, x: int, f: bool, ret: bool, s1: int, f1: bool) -> bool {
    let n = nxt(h, r, s, order(h, x), f); ret == (n != 0) && s1 == (if ret { n } else { s }) && (!ret ==> f1 == (f || order(h, x).contains(s))) }
