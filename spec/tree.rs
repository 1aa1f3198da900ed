// documents as trees
pub open spec fn is_cont(h: H, x: int) -> bool { is_JSonContainer(h.m[x].tag) }
pub open spec fn is_ent(h: H, x: int) -> bool { is_JSonObjectEntry(h.m[x].tag) }
pub open spec fn par(h: H, x: int) -> int { h.m[x].JSonElement_parent }
pub open spec fn val(h: H, x: int) -> int { h.m[x].JSonObjectEntry_value }
pub open spec fn kids(h: H, x: int) -> Seq<int> { if is_cont(h, x) { h.m[x].items } else if is_ent(h, x) { seq![val(h, x)] } else { Seq::empty() } }
pub open spec fn link(h: H, x: int, c: int) -> bool { par(h, c) == x && (is_ent(h, c) == is_JSonObject(h.m[x].tag)) }
// every element reachable is a valid object whose parent is the one that lists it; entries are listed by objects and hold values
pub open spec fn wf(h: H, x: int, d: int) -> bool decreases d {
    d > 0 && x != 0 && h.m.dom().contains(x) && is_JSonElement(h.m[x].tag) && forall|i: int| 0 <= i < kids(h, x).len() ==> wf(h, #[trigger] kids(h, x)[i], d - 1) && link(h, x, kids(h, x)[i]) }
pub open spec fn tree(h: H, x: int) -> bool { exists|d: int| wf(h, x, d) }
pub open spec fn least(h: H, x: int, d: int) -> int decreases d { if d <= 0 || !wf(h, x, d - 1) { d } else { least(h, x, d - 1) } }
pub closed spec fn rank(h: H, x: int) -> int { least(h, x, choose|d: int| wf(h, x, d)) }
pub proof fn lem_wf_mono(h: H, x: int, d: int, e: int) requires wf(h, x, d), d <= e ensures wf(h, x, e) decreases d {
    assert forall|i: int| 0 <= i < kids(h, x).len() implies wf(h, #[trigger] kids(h, x)[i], e - 1) && link(h, x, kids(h, x)[i]) by { lem_wf_mono(h, kids(h, x)[i], d - 1, e - 1); } }
pub proof fn lem_least(h: H, x: int, d: int) requires wf(h, x, d) ensures wf(h, x, least(h, x, d)), forall|e: int| wf(h, x, e) ==> least(h, x, d) <= e decreases d {
    if d > 0 && wf(h, x, d - 1) { lem_least(h, x, d - 1); }
    else { assert forall|e: int| wf(h, x, e) implies d <= e by { if e < d { lem_wf_mono(h, x, e, d - 1); } } } }
pub proof fn lem_rank(h: H, x: int) requires tree(h, x) ensures wf(h, x, rank(h, x)), rank(h, x) > 0, forall|e: int| wf(h, x, e) ==> rank(h, x) <= e { lem_least(h, x, choose|d: int| wf(h, x, d)); }
pub proof fn lem_kid(h: H, x: int, i: int) requires tree(h, x), 0 <= i < kids(h, x).len()
    ensures tree(h, kids(h, x)[i]), 0 < rank(h, kids(h, x)[i]) < rank(h, x), link(h, x, kids(h, x)[i]), elem(h, x), elem(h, kids(h, x)[i]) {
    lem_rank(h, x); assert(wf(h, kids(h, x)[i], rank(h, x) - 1)); lem_rank(h, kids(h, x)[i]); }
pub open spec fn elem(h: H, x: int) -> bool { x != 0 && h.m.dom().contains(x) && is_JSonElement(h.m[x].tag) }
pub proof fn lem_elem(h: H, x: int) requires tree(h, x) ensures elem(h, x), rank(h, x) > 0 { lem_rank(h, x); }
// all the elements of a document, in document order
pub open spec fn vis(h: H, x: int, d: int) -> Seq<int> decreases d, 1int, 0int { if d <= 0 { Seq::empty() } else { seq![x] + viss(h, kids(h, x), kids(h, x).len() as int, d) } }
pub open spec fn viss(h: H, s: Seq<int>, n: int, d: int) -> Seq<int> decreases d, 0int, n { if d <= 0 || n <= 0 { Seq::empty() } else { viss(h, s, n - 1, d) + vis(h, s[n - 1], d - 1) } }
pub closed spec fn order(h: H, x: int) -> Seq<int> { vis(h, x, rank(h, x)) }
pub open spec fn orders(h: H, s: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { orders(h, s, n - 1) + order(h, s[n - 1]) } }
pub proof fn lem_vis(h: H, x: int, d: int) requires tree(h, x), d >= rank(h, x) ensures vis(h, x, d) =~= order(h, x) decreases d {
    lem_rank(h, x); let r = rank(h, x); let n = kids(h, x).len() as int; lem_viss(h, x, n, d, r); }
pub proof fn lem_viss(h: H, x: int, n: int, d: int, r: int) requires tree(h, x), r == rank(h, x), d >= r, 0 <= n <= kids(h, x).len() ensures viss(h, kids(h, x), n, d) =~= viss(h, kids(h, x), n, r), viss(h, kids(h, x), n, d) =~= orders(h, kids(h, x), n) decreases d, n {
    lem_rank(h, x);
    if n > 0 { lem_viss(h, x, n - 1, d, r); lem_kid(h, x, n - 1); lem_vis(h, kids(h, x)[n - 1], d - 1); lem_vis(h, kids(h, x)[n - 1], r - 1); } }
pub proof fn lem_order(h: H, x: int) requires tree(h, x) ensures order(h, x) =~= seq![x] + orders(h, kids(h, x), kids(h, x).len() as int) {
    lem_rank(h, x); lem_viss(h, x, kids(h, x).len() as int, rank(h, x), rank(h, x)); }
pub open spec fn distinct(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j] }
pub proof fn lem_split(a: Seq<int>, b: Seq<int>) requires distinct(a + b) ensures distinct(a), distinct(b), forall|x: int| !(#[trigger] a.contains(x) && b.contains(x)) {
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by { assert((a + b)[i] == a[i] && (a + b)[j] == a[j]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i] != b[j] by { assert((a + b)[a.len() + i] == b[i] && (a + b)[a.len() + j] == b[j]); }
    assert forall|x: int| !(#[trigger] a.contains(x) && b.contains(x)) by { if a.contains(x) && b.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; let j = choose|j: int| 0 <= j < b.len() && b[j] == x; assert((a + b)[i] == x && (a + b)[a.len() + j] == x); } } }
pub proof fn lem_in_cat(a: Seq<int>, b: Seq<int>, x: int) ensures (a + b).contains(x) == (a.contains(x) || b.contains(x)) {
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
    if (a + b).contains(x) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } } }
// orders of the first n children: a prefix of the orders of all of them
pub proof fn lem_orders_in(h: H, s: Seq<int>, n: int, m: int, e: int) requires 0 <= n <= m, orders(h, s, n).contains(e) ensures orders(h, s, m).contains(e) decreases m - n {
    if n < m { lem_orders_in(h, s, n, m - 1, e); lem_in_cat(orders(h, s, m - 1), order(h, s[m - 1]), e); } }
pub proof fn lem_orders_distinct(h: H, s: Seq<int>, n: int, m: int) requires 0 <= n <= m, distinct(orders(h, s, m)) ensures distinct(orders(h, s, n)) decreases m - n {
    if n < m { lem_split(orders(h, s, m - 1), order(h, s[m - 1])); lem_orders_distinct(h, s, n, m - 1); } }
// child i of x in a document without repetition
pub proof fn lem_child(h: H, x: int, i: int) requires tree(h, x), distinct(order(h, x)), 0 <= i < kids(h, x).len()
    ensures distinct(order(h, kids(h, x)[i])), !order(h, kids(h, x)[i]).contains(x), forall|e: int| #[trigger] orders(h, kids(h, x), i).contains(e) ==> !order(h, kids(h, x)[i]).contains(e) && e != x && order(h, x).contains(e),
        forall|e: int| #[trigger] order(h, kids(h, x)[i]).contains(e) ==> order(h, x).contains(e), order(h, x).contains(x) {
    let k = kids(h, x); let n = k.len() as int; lem_order(h, x); lem_split(seq![x], orders(h, k, n)); lem_orders_distinct(h, k, i + 1, n);
    lem_split(orders(h, k, i), order(h, k[i]));
    assert(seq![x].contains(x)) by { assert(seq![x][0] == x); } lem_in_cat(seq![x], orders(h, k, n), x);
    assert forall|e: int| #[trigger] order(h, k[i]).contains(e) implies order(h, x).contains(e) && e != x by { lem_in_cat(orders(h, k, i), order(h, k[i]), e); lem_orders_in(h, k, i + 1, n, e); lem_in_cat(seq![x], orders(h, k, n), e); }
    assert forall|e: int| #[trigger] orders(h, k, i).contains(e) implies !order(h, k[i]).contains(e) && e != x && order(h, x).contains(e) by { lem_orders_in(h, k, i, n, e); lem_in_cat(seq![x], orders(h, k, n), e); } }
// the text of an element, what is displayed and searched
pub open spec fn el_text(o: JObj) -> Seq<int> {
    if is_JSonObject(o.tag) { s"{ }" } else if is_JSonArray(o.tag) { s"[ ]" } else
    if is_JSonObjectEntry(o.tag) { o.JSonObjectEntry_key } else if is_JSonPrimitive_string(o.tag) { o.JSonPrimitive_string_stringValue } else if is_JSonPrimitive_int(o.tag) { o.JSonPrimitive_int_stringValue }
    else if is_JSonPrimitive_longlong(o.tag) { o.JSonPrimitive_longlong_stringValue } else if is_JSonPrimitive_double(o.tag) { o.JSonPrimitive_double_stringValue } else if is_JSonPrimitive_bool(o.tag) { o.JSonPrimitive_bool_stringValue }
    else if is_JSonPrimitive_Null(o.tag) { o.JSonPrimitive_Null_stringValue } else { Seq::empty() } }
// the way up
pub open spec fn up(h: H, x: int, d: int) -> bool decreases d { d > 0 && elem(h, x) && (par(h, x) == 0 || up(h, par(h, x), d - 1)) }
pub open spec fn rooted(h: H, x: int) -> bool { exists|d: int| up(h, x, d) }
pub open spec fn leastup(h: H, x: int, d: int) -> int decreases d { if d <= 0 || !up(h, x, d - 1) { d } else { leastup(h, x, d - 1) } }
pub closed spec fn depth(h: H, x: int) -> int { leastup(h, x, choose|d: int| up(h, x, d)) }
pub proof fn lem_up_mono(h: H, x: int, d: int, e: int) requires up(h, x, d), d <= e ensures up(h, x, e) decreases d { if par(h, x) != 0 { lem_up_mono(h, par(h, x), d - 1, e - 1); } }
pub proof fn lem_leastup(h: H, x: int, d: int) requires up(h, x, d) ensures up(h, x, leastup(h, x, d)), forall|e: int| up(h, x, e) ==> leastup(h, x, d) <= e decreases d {
    if d > 0 && up(h, x, d - 1) { lem_leastup(h, x, d - 1); }
    else { assert forall|e: int| up(h, x, e) implies d <= e by { if e < d { lem_up_mono(h, x, e, d - 1); } } } }
pub proof fn lem_depth(h: H, x: int) requires rooted(h, x) ensures up(h, x, depth(h, x)), depth(h, x) > 0, forall|e: int| up(h, x, e) ==> depth(h, x) <= e { lem_leastup(h, x, choose|d: int| up(h, x, d)); }
// one step up
pub proof fn lem_up(h: H, x: int) requires rooted(h, x) ensures elem(h, x), depth(h, x) > 0, par(h, x) != 0 ==> rooted(h, par(h, x)) && elem(h, par(h, x)) && depth(h, x) == 1 + depth(h, par(h, x)), par(h, x) == 0 ==> depth(h, x) == 1 {
    lem_depth(h, x); let p = par(h, x); if p != 0 { assert(up(h, p, depth(h, x) - 1)); lem_depth(h, p); assert(up(h, x, depth(h, p) + 1)); } else { assert(up(h, x, 1)); } }
pub proof fn lem_down(h: H, x: int, e: int) requires tree(h, x), rooted(h, x), order(h, x).contains(e) ensures rooted(h, e), elem(h, e), tree(h, e), anc(h, e, x) || e == x decreases rank(h, x) {
    lem_elem(h, x); let k = kids(h, x); let n = k.len() as int;
    if e != x { lem_order(h, x); lem_in_cat(seq![x], orders(h, k, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_orders_which(h, k, n, e);
        let i = choose|i: int| 0 <= i < n && order(h, #[trigger] k[i]).contains(e); lem_kid(h, x, i); lem_depth(h, x); assert(up(h, k[i], depth(h, x) + 1)); lem_anc(h, k[i], x); lem_down(h, k[i], e); if e != k[i] { lem_anc_trans(h, e, k[i], x); } } }
pub proof fn lem_orders_which(h: H, s: Seq<int>, n: int, e: int) requires orders(h, s, n).contains(e) ensures exists|i: int| 0 <= i < n && order(h, #[trigger] s[i]).contains(e) decreases n {
    if n > 0 { lem_in_cat(orders(h, s, n - 1), order(h, s[n - 1]), e); if !order(h, s[n - 1]).contains(e) { lem_orders_which(h, s, n - 1, e); let i = choose|i: int| 0 <= i < n - 1 && order(h, #[trigger] s[i]).contains(e); assert(order(h, s[i]).contains(e)); } else { assert(order(h, s[n - 1]).contains(e)); } } }
// e is above x
pub open spec fn ancd(h: H, x: int, e: int, d: int) -> bool decreases d { d > 0 && par(h, x) != 0 && (par(h, x) == e || ancd(h, par(h, x), e, d - 1)) }
pub open spec fn anc(h: H, x: int, e: int) -> bool { exists|d: int| ancd(h, x, e, d) }
pub proof fn lem_anc(h: H, x: int, e: int) ensures anc(h, x, e) == (par(h, x) != 0 && (par(h, x) == e || anc(h, par(h, x), e))) {
    if anc(h, x, e) { let d = choose|d: int| ancd(h, x, e, d); if par(h, x) != e { assert(ancd(h, par(h, x), e, d - 1)); } }
    if par(h, x) != 0 { if par(h, x) == e { assert(ancd(h, x, e, 1)); } else if anc(h, par(h, x), e) { let d = choose|d: int| ancd(h, par(h, x), e, d); assert(d > 0); assert(ancd(h, x, e, d + 1)); } } }
pub proof fn lem_ancs(h: H, x: int) ensures forall|e: int| #[trigger] anc(h, x, e) == (par(h, x) != 0 && (par(h, x) == e || anc(h, par(h, x), e))) { assert forall|e: int| #[trigger] anc(h, x, e) == (par(h, x) != 0 && (par(h, x) == e || anc(h, par(h, x), e))) by { lem_anc(h, x, e); } }
pub proof fn lem_ancd_trans(h: H, x: int, y: int, z: int, d: int) requires ancd(h, x, y, d), anc(h, y, z) ensures anc(h, x, z) decreases d { lem_anc(h, x, z); if par(h, x) != y { lem_ancd_trans(h, par(h, x), y, z, d - 1); } }
pub proof fn lem_anc_trans(h: H, x: int, y: int, z: int) requires anc(h, x, y), anc(h, y, z) ensures anc(h, x, z) { lem_ancd_trans(h, x, y, z, choose|d: int| ancd(h, x, y, d)); }
pub open spec fn member_value(h: H, x: int) -> bool { par(h, x) != 0 && is_ent(h, par(h, x)) }
pub open spec fn par_ok(h: H, x: int) -> bool { par(h, x) == 0 || elem(h, par(h, x)) }
// elements of a document are valid
pub proof fn lem_order_elem(h: H, x: int, e: int) requires tree(h, x), order(h, x).contains(e) ensures elem(h, e) decreases rank(h, x) {
    lem_elem(h, x); if e != x { lem_order(h, x); lem_in_cat(seq![x], orders(h, kids(h, x), kids(h, x).len() as int), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_orders_which(h, kids(h, x), kids(h, x).len() as int, e);
        let i = choose|i: int| 0 <= i < kids(h, x).len() && order(h, kids(h, x)[i]).contains(e); lem_kid(h, x, i); lem_order_elem(h, kids(h, x)[i], e); } }
pub proof fn lem_idx_has(s: Seq<int>, x: int, a: int, n: int) requires 0 <= a <= n <= s.len() ensures a <= idx_from(s, x, a, n) <= n, (idx_from(s, x, a, n) < n) == (exists|i: int| a <= i < n && s[i] == x) decreases n - a {
    if a < n && s[a] != x { lem_idx_has(s, x, a + 1, n); } }
pub proof fn lem_idx(s: Seq<int>, x: int) ensures (idx_from(s, x, 0, s.len() as int) != s.len()) == s.contains(x) { lem_idx_has(s, x, 0, s.len() as int); }
