// ---- comparing documents: marks and pairs
pub open spec fn paired(eqs: Map<int, int>, e: int) -> bool { exists|f: int| two(eqs, e, f) }
// added or removed; equal or changed
pub open spec fn reported(m: int) -> bool { m == 43 || m == 45 }
pub open spec fn marked(m: int) -> bool { m == 61 || m == 33 }
pub open spec fn agree(a: int, b: int) -> bool { a == b || (reported(a) && reported(b)) }
// marks are on elements of the two sides, an unpaired one is added or removed; pairs join the two sides one to one and their marks agree
pub open spec fn marks_ok(ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>, b: ISet<int>) -> bool { forall|e: int| #[trigger] ops.dom().contains(e) ==> (a.contains(e) || b.contains(e)) && (marked(ops[e]) || reported(ops[e])) && (marked(ops[e]) ==> paired(eqs, e)) }
pub open spec fn pairs_ok(ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>, b: ISet<int>) -> bool { forall|e: int, f: int| #[trigger] two(eqs, e, f) ==> across(a, b, e, f) && ops.dom().contains(e) && ops.dom().contains(f) && agree(ops[e], ops[f]) }
pub open spec fn mt(ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>, b: ISet<int>) -> bool { marks_ok(ops, eqs, a, b) && pairs_ok(ops, eqs, a, b) && one_to_one(eqs) && ops.dom().finite() && eqs.dom().finite() }
// what is said about the two elements compared
pub open spec fn roots_ok(ops: Map<int, int>, eqs: Map<int, int>, x: int, y: int) -> bool { (forall|f: int| #[trigger] two(eqs, x, f) ==> f == y) && (forall|f: int| #[trigger] two(eqs, y, f) ==> f == x) && ops.dom().contains(x) == ops.dom().contains(y) && (ops.dom().contains(x) ==> agree(ops[x], ops[y])) }
pub proof fn lem_two_join(e1: Map<int, int>, e2: Map<int, int>, s1: ISet<int>, s2: ISet<int>)
    requires apart_sets(s1, s2), forall|e: int, f: int| #[trigger] two(e1, e, f) ==> s1.contains(e), forall|e: int, f: int| #[trigger] two(e2, e, f) ==> s2.contains(e)
    ensures forall|e: int, f: int| #[trigger] two(e1.union_prefer_right(e2), e, f) == (two(e1, e, f) || two(e2, e, f)) {
    let u = e1.union_prefer_right(e2);
    assert forall|e: int, f: int| #[trigger] two(u, e, f) == (two(e1, e, f) || two(e2, e, f)) by {
        if e1.dom().contains(e) { assert(two(e1, e, e1[e])); } if e2.dom().contains(e) { assert(two(e2, e, e2[e])); }
        if e1.dom().contains(f) { assert(two(e1, f, e1[f])); } if e2.dom().contains(f) { assert(two(e2, f, e2[f])); } } }
pub proof fn lem_join(o1: Map<int, int>, e1: Map<int, int>, a1: ISet<int>, b1: ISet<int>, o2: Map<int, int>, e2: Map<int, int>, a2: ISet<int>, b2: ISet<int>)
    requires mt(o1, e1, a1, b1), mt(o2, e2, a2, b2), apart_sets(a1.union(b1), a2.union(b2))
    ensures mt(o1.union_prefer_right(o2), e1.union_prefer_right(e2), a1.union(a2), b1.union(b2)), forall|e: int, f: int| #[trigger] two(e1.union_prefer_right(e2), e, f) == (two(e1, e, f) || two(e2, e, f)) {
    let s1 = a1.union(b1); let s2 = a2.union(b2); let o = o1.union_prefer_right(o2); let q = e1.union_prefer_right(e2); let a = a1.union(a2); let b = b1.union(b2);
    assert forall|e: int, f: int| #[trigger] two(e1, e, f) implies s1.contains(e) && s1.contains(f) by { assert(across(a1, b1, e, f)); }
    assert forall|e: int, f: int| #[trigger] two(e2, e, f) implies s2.contains(e) && s2.contains(f) by { assert(across(a2, b2, e, f)); }
    lem_two_join(e1, e2, s1, s2);
    assert(marks_ok(o, q, a, b)) by { assert forall|e: int| #[trigger] o.dom().contains(e) implies (a.contains(e) || b.contains(e)) && (marked(o[e]) || reported(o[e])) && (marked(o[e]) ==> paired(q, e)) by {
        if o2.dom().contains(e) { if marked(o[e]) { assert(paired(e2, e)); let f = choose|f: int| two(e2, e, f); assert(two(q, e, f)); } }
        else { assert(o1.dom().contains(e)); if marked(o[e]) { assert(paired(e1, e)); let f = choose|f: int| two(e1, e, f); assert(two(q, e, f)); } } } }
    assert(pairs_ok(o, q, a, b)) by { assert forall|e: int, f: int| #[trigger] two(q, e, f) implies across(a, b, e, f) && o.dom().contains(e) && o.dom().contains(f) && agree(o[e], o[f]) by {
        if two(e1, e, f) { assert(s1.contains(e) && s1.contains(f)); assert(!s2.contains(e) && !s2.contains(f)); if o2.dom().contains(e) { assert(s2.contains(e)); } if o2.dom().contains(f) { assert(s2.contains(f)); } }
        else { assert(two(e2, e, f)); } } }
    assert(one_to_one(q)) by { assert forall|e: int, f: int, g: int| #[trigger] two(q, e, f) && #[trigger] two(q, e, g) implies f == g by {
        if two(e1, e, f) { assert(s1.contains(e)); if two(e2, e, g) { assert(s2.contains(e)); } } else { assert(s2.contains(e)); if two(e1, e, g) { assert(s1.contains(e)); } } } }
    assert(o.dom() =~= o1.dom().union(o2.dom())); assert(q.dom() =~= e1.dom().union(e2.dom())); }
pub open spec fn rooted_ops(ops: Map<int, int>, x: int, y: int, m: int) -> Map<int, int> { map![x => m, y => m].union_prefer_right(ops) }
// the two elements compared are paired
pub proof fn lem_roots(ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>, b: ISet<int>, x: int, y: int, m: int)
    requires mt(ops, eqs, a, b), roots_ok(ops, eqs, x, y), a.contains(x), b.contains(y), apart_sets(a, b), marked(m)
    ensures mt(rooted_ops(ops, x, y, m), eqs.insert(x, y), a, b), forall|e: int, f: int| #[trigger] two(eqs.insert(x, y), e, f) == (two(eqs, e, f) || (e == x && f == y) || (e == y && f == x)) {
    let o = rooted_ops(ops, x, y, m); let q = eqs.insert(x, y); let r = map![x => m, y => m];
    assert(x != y) by { assert(!(a.contains(x) && b.contains(x))); }
    assert forall|e: int, f: int| #[trigger] two(q, e, f) == (two(eqs, e, f) || (e == x && f == y) || (e == y && f == x)) by {
        if eqs.dom().contains(x) { assert(two(eqs, x, eqs[x])); } }
    assert(two(q, x, y)); assert(two(q, y, x));
    assert(o.dom() =~= r.dom().union(ops.dom())); assert(r.dom().finite()); 
    assert(marks_ok(o, q, a, b)) by { assert forall|e: int| #[trigger] o.dom().contains(e) implies (a.contains(e) || b.contains(e)) && (marked(o[e]) || reported(o[e])) && (marked(o[e]) ==> paired(q, e)) by {
        if ops.dom().contains(e) { if marked(o[e]) { assert(paired(eqs, e)); let f = choose|f: int| two(eqs, e, f); assert(two(q, e, f)); } } else { assert(r.dom().contains(e)); assert(e == x || e == y); if e == x { assert(two(q, x, y)); } else { assert(two(q, y, x)); } } } }
    assert(pairs_ok(o, q, a, b)) by { assert forall|e: int, f: int| #[trigger] two(q, e, f) implies across(a, b, e, f) && o.dom().contains(e) && o.dom().contains(f) && agree(o[e], o[f]) by {
        if two(eqs, e, f) { assert(across(a, b, e, f)); } else { assert(r.dom().contains(e) && r.dom().contains(f)); } } }
    assert(one_to_one(q)) by { assert forall|e: int, f: int, g: int| #[trigger] two(q, e, f) && #[trigger] two(q, e, g) implies f == g by {} } }
pub proof fn lem_widen(ops: Map<int, int>, eqs: Map<int, int>, a1: ISet<int>, b1: ISet<int>, a: ISet<int>, b: ISet<int>) requires mt(ops, eqs, a1, b1), a1.subset_of(a), b1.subset_of(b) ensures mt(ops, eqs, a, b) {
    assert forall|e: int, f: int| #[trigger] two(eqs, e, f) implies across(a, b, e, f) by { assert(across(a1, b1, e, f)); } }
// elements without a mark
pub proof fn lem_outside(ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>, b: ISet<int>, x: int) requires mt(ops, eqs, a, b), !a.contains(x), !b.contains(x) ensures !ops.dom().contains(x), forall|f: int| !#[trigger] two(eqs, x, f) {
    assert forall|f: int| !#[trigger] two(eqs, x, f) by { if two(eqs, x, f) { assert(across(a, b, x, f)); } } }
pub proof fn lem_mt_single(m: int, x: int, a: ISet<int>, b: ISet<int>) requires a.contains(x) || b.contains(x), reported(m) ensures mt(map![x => m], Map::empty(), a, b) { assert forall|e: int, f: int| !#[trigger] two(Map::<int, int>::empty(), e, f) by {} }
pub proof fn lem_mt_empty(a: ISet<int>, b: ISet<int>) ensures mt(Map::empty(), Map::empty(), a, b) { assert forall|e: int, f: int| !#[trigger] two(Map::<int, int>::empty(), e, f) by {} }
// a map is walked through entry by entry
pub open spec fn over(m: Map<int, int>, c: Seq<Pair<int, int>>, n: int) -> Map<int, int> decreases n { if n <= 0 { m } else { over(m, c, n - 1).insert(c[n - 1].first, c[n - 1].second) } }
pub proof fn lem_over_n(m: Map<int, int>, q: Map<int, int>, c: Seq<Pair<int, int>>, n: int) requires 0 <= n <= c.len(), forall|i: int| 0 <= i < c.len() ==> q.dom().contains((#[trigger] c[i]).first) && q[c[i].first] == c[i].second
    ensures forall|k: int| #[trigger] over(m, c, n).dom().contains(k) == (m.dom().contains(k) || at_key(c, k, n)), forall|k: int| over(m, c, n).dom().contains(k) ==> #[trigger] over(m, c, n)[k] == if at_key(c, k, n) { q[k] } else { m[k] } decreases n {
    if n > 0 { lem_over_n(m, q, c, n - 1); let x = c[n - 1].first; assert(c[n - 1].first == x); let p = over(m, c, n - 1); assert(over(m, c, n) == p.insert(x, c[n - 1].second)); assert(q[x] == c[n - 1].second);
        assert forall|k: int| #[trigger] at_key(c, k, n) == (at_key(c, k, n - 1) || k == x) by { lem_at_key(c, k, n); }
        assert forall|k: int| #[trigger] over(m, c, n).dom().contains(k) == (m.dom().contains(k) || at_key(c, k, n)) by { assert(p.dom().contains(k) == (m.dom().contains(k) || at_key(c, k, n - 1))); lem_at_key(c, k, n); }
        assert forall|k: int| over(m, c, n).dom().contains(k) implies #[trigger] over(m, c, n)[k] == if at_key(c, k, n) { q[k] } else { m[k] } by { lem_at_key(c, k, n); if k != x { assert(p.dom().contains(k)); assert(p[k] == if at_key(c, k, n - 1) { q[k] } else { m[k] }); } } } }
pub proof fn lem_at_key(c: Seq<Pair<int, int>>, k: int, n: int) requires 0 < n <= c.len() ensures at_key(c, k, n) == (at_key(c, k, n - 1) || k == c[n - 1].first) {
    if at_key(c, k, n) && k != c[n - 1].first { let i = choose|i: int| 0 <= i < n && (#[trigger] c[i]).first == k; assert(i < n - 1); assert(c[i].first == k); }
    if at_key(c, k, n - 1) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] c[i]).first == k; assert(c[i].first == k); } if k == c[n - 1].first { assert(c[n - 1].first == k); } }
pub proof fn lem_over(m: Map<int, int>, q: Map<int, int>) requires q.dom().finite() ensures over(m, map_seq(q), map_seq(q).len() as int) =~= m.union_prefer_right(q) {
    ax_map_seq(q); let c = map_seq(q); let n = c.len() as int; lem_over_n(m, q, c, n); let u = m.union_prefer_right(q);
    assert forall|k: int| at_key(c, k, n) == q.dom().contains(k) by { if at_key(c, k, n) { let i = choose|i: int| 0 <= i < n && (#[trigger] c[i]).first == k; assert(q.dom().contains(c[i].first)); } }
    assert(over(m, c, n).dom() =~= u.dom()); }
// ---- the distance of two elements
pub open spec fn trees(h: H, s: Seq<int>) -> bool { forall|k: int| 0 <= k < s.len() ==> tree(h, #[trigger] s[k]) }
pub closed spec fn mxr(h: H, s: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { imax(mxr(h, s, n - 1), rank(h, s[n - 1])) } }
pub open spec fn srank(h: H, s: Seq<int>) -> int { mxr(h, s, s.len() as int) + 1 }
pub proof fn lem_mxr(h: H, s: Seq<int>, n: int, k: int) requires 0 <= k < n ensures rank(h, s[k]) <= mxr(h, s, n) decreases n { if k < n - 1 { lem_mxr(h, s, n - 1, k); } }
pub proof fn lem_mxr_kids(h: H, x: int, n: int) requires tree(h, x), 0 <= n <= kids(h, x).len() ensures 0 <= mxr(h, kids(h, x), n) < rank(h, x) decreases n { lem_elem(h, x); if n > 0 { lem_mxr_kids(h, x, n - 1); lem_kid(h, x, n - 1); } }
pub proof fn lem_mxr_pos(h: H, s: Seq<int>, n: int) ensures 0 <= mxr(h, s, n) decreases n { if n > 0 { lem_mxr_pos(h, s, n - 1); } }
pub open spec fn psim(h: H, x: int, y: int) -> bool { d_lt(d_lit(700000), sim(el_text(h.m[x]), el_text(h.m[y]))) }
pub open spec fn ratio(d: int, n: int, m: int) -> Dbl { if n != 0 || m != 0 { d_round(32, d_sub(d_of(1), d_round(32, d_div(f_of(d), f_of(imax(n, m)))))) } else { d_of(1) } }
pub open spec fn near(d: int, n: int, m: int) -> bool { d_lt(d_lit(700000), ratio(d, n, m)) }
pub open spec fn nkids(h: H, x: int) -> int { h.m[x].items.len() as int }
// how much it takes to turn x into y, and whether they count as the same
pub open spec fn dres(h: H, x: int, y: int) -> int decreases rank(h, x), 1int, 0int when tree(h, x) via dres_dec {
    if is_cont(h, x) && is_cont(h, y) { wl(h, h.m[x].items, h.m[y].items, nkids(h, x), nkids(h, y)) } else if is_cont(h, x) { nkids(h, x) + 1 } else if is_cont(h, y) { nkids(h, y) + 1 }
    else if is_ent(h, x) && is_ent(h, y) { if key(h, x) == key(h, y) { dres(h, val(h, x), val(h, y)) } else { 1 } }
    else if is_ent(h, x) || is_ent(h, y) { 1 } else if psim(h, x, y) { 0 } else { 1 } }
pub open spec fn dsim(h: H, x: int, y: int) -> bool decreases rank(h, x), 1int, 0int when tree(h, x) via dsim_dec {
    if is_cont(h, x) && is_cont(h, y) { near(wl(h, h.m[x].items, h.m[y].items, nkids(h, x), nkids(h, y)), nkids(h, x), nkids(h, y)) } else if is_cont(h, x) || is_cont(h, y) { false }
    else if is_ent(h, x) && is_ent(h, y) { key(h, x) == key(h, y) && dsim(h, val(h, x), val(h, y)) }
    else if is_ent(h, x) || is_ent(h, y) { false } else { psim(h, x, y) } }
// the least cost of turning the first i elements of s into the first j of u: removing and adding one costs 1, replacing x by y what it takes to turn x into y
pub open spec fn wl(h: H, s: Seq<int>, u: Seq<int>, i: int, j: int) -> int decreases srank(h, s), 0int, i + j when trees(h, s) && i <= s.len() via wl_dec {
    if i <= 0 { if j <= 0 { 0 } else { j } } else if j <= 0 { i }
    else { imin(imin(wl(h, s, u, i - 1, j) + 1, wl(h, s, u, i, j - 1) + 1), wl(h, s, u, i - 1, j - 1) + (if dsim(h, s[i - 1], u[j - 1]) { 0int } else { dres(h, s[i - 1], u[j - 1]) })) } }
#[via_fn]
proof fn dres_dec(h: H, x: int, y: int) { if is_cont(h, x) { lem_mxr_kids(h, x, kids(h, x).len() as int); assert(srank(h, h.m[x].items) <= rank(h, x)); } else if is_ent(h, x) { lem_kid(h, x, 0); } }
#[via_fn]
proof fn dsim_dec(h: H, x: int, y: int) { if is_cont(h, x) { lem_mxr_kids(h, x, kids(h, x).len() as int); assert(srank(h, h.m[x].items) <= rank(h, x)); } else if is_ent(h, x) { lem_kid(h, x, 0); } }
#[via_fn]
proof fn wl_dec(h: H, s: Seq<int>, u: Seq<int>, i: int, j: int) { lem_mxr_pos(h, s, s.len() as int); if i > 0 { lem_mxr(h, s, s.len() as int, i - 1); assert(tree(h, s[i - 1])); lem_elem(h, s[i - 1]); } }
pub proof fn lem_d_pos(h: H, x: int, y: int) requires tree(h, x) ensures dres(h, x, y) >= 0 decreases rank(h, x), 1int, 0int {
    if is_cont(h, x) { lem_mxr_kids(h, x, kids(h, x).len() as int); lem_trees(h, x); if is_cont(h, y) { lem_wl(h, h.m[x].items, h.m[y].items, nkids(h, x), nkids(h, y)); } }
    else if is_ent(h, x) { lem_kid(h, x, 0); if is_ent(h, y) && !is_cont(h, y) { lem_d_pos(h, val(h, x), val(h, y)); } } }
pub proof fn lem_wl(h: H, s: Seq<int>, u: Seq<int>, i: int, j: int) requires trees(h, s), 0 <= i <= s.len(), 0 <= j ensures 0 <= wl(h, s, u, i, j) <= i + j decreases srank(h, s), 0int, i + j {
    lem_mxr_pos(h, s, s.len() as int);
    if i > 0 && j > 0 { lem_wl(h, s, u, i - 1, j); lem_wl(h, s, u, i, j - 1); lem_wl(h, s, u, i - 1, j - 1); lem_mxr(h, s, s.len() as int, i - 1); assert(tree(h, s[i - 1])); lem_elem(h, s[i - 1]); lem_d_pos(h, s[i - 1], u[j - 1]); } }
pub proof fn lem_trees(h: H, x: int) requires tree(h, x) ensures trees(h, kids(h, x)), is_cont(h, x) ==> trees(h, h.m[x].items) { assert forall|k: int| 0 <= k < kids(h, x).len() implies tree(h, #[trigger] kids(h, x)[k]) by { lem_kid(h, x, k); } }
// ---- the two documents compared: trees without anything in common, of texts and containers that fit the counters
pub open spec fn docl(h: H, s: Seq<int>) -> bool { (forall|k: int| 0 <= k < s.len() ==> doc1(h, #[trigger] s[k])) && forall|k: int, l: int| 0 <= k < l < s.len() ==> apart_sets(es(h, #[trigger] s[k]), es(h, #[trigger] s[l])) }
pub open spec fn docs2(h: H, s: Seq<int>, u: Seq<int>) -> bool { docl(h, s) && docl(h, u) && forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < u.len() ==> apart_sets(es(h, #[trigger] s[k]), es(h, #[trigger] u[l])) }
pub proof fn lem_doc_kid(h: H, x: int, i: int) requires doc1(h, x), 0 <= i < kids(h, x).len() ensures doc1(h, kids(h, x)[i]), es(h, kids(h, x)[i]).subset_of(es(h, x)), !es(h, kids(h, x)[i]).contains(x), es(h, x).contains(x) { lem_child(h, x, i); lem_kid(h, x, i); }
pub proof fn lem_docl(h: H, x: int) requires doc1(h, x), is_cont(h, x) ensures docl(h, h.m[x].items) {
    let s = kids(h, x);
    assert forall|k: int| 0 <= k < s.len() implies doc1(h, #[trigger] s[k]) by { lem_doc_kid(h, x, k); }
    assert forall|k: int, l: int| 0 <= k < l < s.len() implies apart_sets(es(h, #[trigger] s[k]), es(h, #[trigger] s[l])) by { lem_child(h, x, l); assert forall|e: int| !(#[trigger] es(h, s[k]).contains(e) && es(h, s[l]).contains(e)) by { if es(h, s[k]).contains(e) { lem_orders_has(h, s, l, k, e); assert(orders(h, s, l).contains(e)); } } } }
pub proof fn lem_docs2(h: H, x: int, y: int) requires docs(h, x, y), is_cont(h, x), is_cont(h, y) ensures docs2(h, h.m[x].items, h.m[y].items) {
    let s = kids(h, x); let u = kids(h, y); lem_docl(h, x); lem_docl(h, y);
    assert forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < u.len() implies apart_sets(es(h, #[trigger] s[k]), es(h, #[trigger] u[l])) by { lem_doc_kid(h, x, k); lem_doc_kid(h, y, l); assert forall|e: int| !(#[trigger] es(h, s[k]).contains(e) && es(h, u[l]).contains(e)) by { if es(h, s[k]).contains(e) && es(h, u[l]).contains(e) { assert(es(h, x).contains(e) && es(h, y).contains(e)); } } } }
pub proof fn lem_docs_val(h: H, x: int, y: int) requires docs(h, x, y), is_ent(h, x), is_ent(h, y), !is_cont(h, x), !is_cont(h, y) ensures docs(h, val(h, x), val(h, y)), es(h, val(h, x)).subset_of(es(h, x)), es(h, val(h, y)).subset_of(es(h, y)), !es(h, val(h, x)).contains(x), !es(h, val(h, y)).contains(y), es(h, x).contains(x), es(h, y).contains(y) {
    lem_doc_kid(h, x, 0); lem_doc_kid(h, y, 0); let v = val(h, x); let w = val(h, y);
    assert forall|e: int| !(#[trigger] es(h, v).contains(e) && es(h, w).contains(e)) by { if es(h, v).contains(e) && es(h, w).contains(e) { assert(es(h, x).contains(e) && es(h, y).contains(e)); } } }
pub proof fn lem_at_home(h: H, x: int) requires tree(h, x) ensures es(h, x).contains(x), order(h, x).len() > 0, order(h, x)[0] == x { lem_order(h, x); assert(order(h, x)[0] == x); }
// ---- equal documents
pub open spec fn eqd(h: H, x: int, y: int) -> bool decreases rank(h, x) when tree(h, x) via eqd_dec {
    h.m[x].tag == h.m[y].tag && el_text(h.m[x]) == el_text(h.m[y]) && kids(h, x).len() == kids(h, y).len() && forall|k: int| 0 <= k < kids(h, x).len() ==> eqd(h, #[trigger] kids(h, x)[k], kids(h, y)[k]) }
#[via_fn]
proof fn eqd_dec(h: H, x: int, y: int) { assert forall|k: int| 0 <= k < kids(h, x).len() implies tree(h, kids(h, x)[k]) && 0 < rank(h, #[trigger] kids(h, x)[k]) < rank(h, x) by { lem_kid(h, x, k); } }
pub open spec fn eqds(h: H, s: Seq<int>, u: Seq<int>) -> bool { s.len() == u.len() && forall|k: int| 0 <= k < s.len() ==> eqd(h, #[trigger] s[k], u[k]) }
pub proof fn lem_eqds(h: H, x: int, y: int) requires tree(h, x), eqd(h, x, y), is_cont(h, x) ensures is_cont(h, y), eqds(h, h.m[x].items, h.m[y].items) { let s = kids(h, x); assert(s == h.m[x].items && kids(h, y) == h.m[y].items); assert forall|k: int| 0 <= k < s.len() implies eqd(h, #[trigger] s[k], kids(h, y)[k]) by { lem_kid(h, x, k); } }
pub proof fn lem_eqd_val(h: H, x: int, y: int) requires tree(h, x), eqd(h, x, y), is_ent(h, x), !is_cont(h, x) ensures is_ent(h, y), !is_cont(h, y), key(h, x) == key(h, y), eqd(h, val(h, x), val(h, y)) { lem_kid(h, x, 0); assert(kids(h, x)[0] == val(h, x)); assert(kids(h, y)[0] == val(h, y)); }
// facts about the numbers used: single precision floating point
#[verifier::external_body]
pub proof fn ax_ratio(k: int) requires 0 < k < 0x1_0000_0000 ensures d_round(32, d_sub(d_of(1), d_round(32, d_div(f_of(0), f_of(k))))) == d_of(1) {}
#[verifier::external_body]
pub proof fn ax_ones() ensures d_lt(d_lit(700000), d_of(1)), !d_lt(d_of(1), d_lit(700000)), !d_lt(d_of(1), d_of(1)), !d_lt(d_lit(700000), d_of(0)) {}
pub proof fn lem_near(n: int, m: int) requires 0 <= n < 0x1_0000_0000, 0 <= m < 0x1_0000_0000 ensures ratio(0, n, m) == d_of(1), near(0, n, m) { ax_ones(); if n != 0 || m != 0 { ax_ratio(imax(n, m)); } }
pub proof fn lem_psim(h: H, x: int, y: int) requires el_text(h.m[x]) == el_text(h.m[y]), el_text(h.m[x]).len() < 0x3fff_ffff ensures psim(h, x, y) { let s = el_text(h.m[x]); ax_ones(); lem_lev_eq(s, s.len() as int); if s.len() > 0 { ax_ratio(s.len() as int); } }
pub proof fn lem_eq_sim(h: H, x: int, y: int) requires eqd(h, x, y), doc1(h, x), doc1(h, y) ensures dsim(h, x, y) decreases rank(h, x), 1int, 0int {
    lem_at_home(h, x); lem_at_home(h, y); assert(order(h, x).contains(x) && order(h, y).contains(y));
    if is_cont(h, x) { let s = h.m[x].items; let u = h.m[y].items; let n = s.len() as int; lem_eqds(h, x, y); lem_docl(h, x); lem_docl(h, y); lem_mxr_kids(h, x, n); lem_eq_wl(h, s, u, n); lem_near(n, n); }
    else if is_ent(h, x) { lem_eqd_val(h, x, y); lem_doc_kid(h, x, 0); lem_doc_kid(h, y, 0); lem_kid(h, x, 0); lem_eq_sim(h, val(h, x), val(h, y)); }
    else { lem_psim(h, x, y); } }
pub proof fn lem_eq_wl(h: H, s: Seq<int>, u: Seq<int>, n: int) requires eqds(h, s, u), docl(h, s), docl(h, u), 0 <= n <= s.len() ensures wl(h, s, u, n, n) == 0 decreases srank(h, s), 0int, n {
    assert(trees(h, s)); if n > 0 { lem_eq_wl(h, s, u, n - 1); lem_mxr(h, s, s.len() as int, n - 1); lem_mxr_pos(h, s, s.len() as int); assert(doc1(h, s[n - 1]) && doc1(h, u[n - 1])); lem_elem(h, s[n - 1]); lem_eq_sim(h, s[n - 1], u[n - 1]); lem_wl(h, s, u, n - 1, n); lem_wl(h, s, u, n, n - 1); } }
// ---- the result of a comparison
pub open spec fn l_ops(o: LObj) -> Map<int, int> { o.LevenshteinMatrice_base_operations }
pub open spec fn l_res(o: LObj) -> int { if is_LevenshteinMatrice(o.tag) { o.LevenshteinMatrice_levenDist } else if is_LevenshteinMatriceWithScore(o.tag) { if o.LevenshteinMatriceWithScore__result { 0 } else { 1 } } else { o.LevenshteinMatrice_manual__result } }
pub open spec fn l_sim(o: LObj) -> bool { if is_LevenshteinMatrice(o.tag) { d_lt(d_lit(700000), o.LevenshteinMatrice_levenRelativeDist) } else if is_LevenshteinMatriceWithScore(o.tag) { o.LevenshteinMatriceWithScore__result } else { false } }
// containers that are paired and similar: every element of both is reported
pub open spec fn all_in(ops: Map<int, int>, s: Seq<int>, i: int) -> bool { forall|k: int| i <= k < s.len() ==> ops.dom().contains(#[trigger] s[k]) }
pub open spec fn told(h: H, ops: Map<int, int>, e: int, f: int) -> bool { is_cont(h, e) && is_cont(h, f) && nkids(h, e) > 0 && nkids(h, f) > 0 && dsim(h, e, f) ==> all_in(ops, h.m[e].items, 0) && all_in(ops, h.m[f].items, 0) }
pub open spec fn level(s: Seq<int>, u: Seq<int>, e: int, f: int) -> bool { (s.contains(e) && u.contains(f)) || (u.contains(e) && s.contains(f)) }
pub open spec fn tops(h: H, eqs: Map<int, int>, s: Seq<int>, u: Seq<int>) -> bool { forall|e: int, f: int| #[trigger] two(eqs, e, f) ==> level(s, u, e, f) || (member_value(h, e) == member_value(h, f) && two(eqs, par(h, e), par(h, f))) }
proof fn lem_tops_pair(h: H, s: Seq<int>, u: Seq<int>, eqs: Map<int, int>, le: Map<int, int>, e2: Map<int, int>, a: int, b: int)
    requires tops(h, eqs, s, u), 0 <= a < s.len(), 0 <= b < u.len(), tied(h, le, s[a], u[b]), two(e2, s[a], u[b]), forall|e: int, f: int| #[trigger] two(e2, e, f) == (two(eqs, e, f) || two(le.insert(s[a], u[b]), e, f)), forall|f: int| #[trigger] two(le, s[a], f) ==> f == u[b]
    ensures tops(h, e2, s, u) {
    let x = s[a]; let y = u[b]; assert(s.contains(x) && u.contains(y));
    assert forall|e: int, f: int| #[trigger] two(e2, e, f) implies level(s, u, e, f) || (member_value(h, e) == member_value(h, f) && two(e2, par(h, e), par(h, f))) by {
        if two(eqs, e, f) { if !level(s, u, e, f) { assert(two(eqs, par(h, e), par(h, f))); } }
        else { let li = le.insert(x, y); if two(le, e, f) { assert(tie(h, le, e, f, x, y)); if le.dom().contains(x) { assert(two(le, x, le[x])); } if two(le, par(h, e), par(h, f)) { assert(two(li, par(h, e), par(h, f))); assert(two(e2, par(h, e), par(h, f))); } else { assert(two(e2, y, x)); } } else { assert((e == x && f == y) || (e == y && f == x)); } } } }
pub open spec fn told_all(h: H, ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>) -> bool { forall|e: int, f: int| #[trigger] two(eqs, e, f) && a.contains(e) ==> told(h, ops, e, f) }
// paired and marked equal
pub open spec fn same(ops: Map<int, int>, eqs: Map<int, int>, e: int, f: int) -> bool { two(eqs, e, f) && ops.dom().contains(e) && ops.dom().contains(f) && ops[e] == 61 && ops[f] == 61 }
pub open spec fn sames(ops: Map<int, int>, eqs: Map<int, int>, s: Seq<int>, u: Seq<int>, n: int) -> bool { s.len() == u.len() && forall|k: int| n <= k < s.len() ==> same(ops, eqs, #[trigger] s[k], u[k]) }
pub open spec fn cmp(h: H, o: LObj, x: int, y: int) -> bool {
    is_LevenshteinMatrice_base(o.tag) && l_res(o) == dres(h, x, y) && l_sim(o) == dsim(h, x, y) && 0 <= l_res(o) <= 0xffff_ffff
    && mt(l_ops(o), l_eqs(o), es(h, x), es(h, y)) && roots_ok(l_ops(o), l_eqs(o), x, y) && told(h, l_ops(o), x, y) && told_all(h, l_ops(o), l_eqs(o), es(h, x)) && tied(h, l_eqs(o), x, y)
    && (eqd(h, x, y) ==> sames(l_ops(o), l_eqs(o), order(h, x), order(h, y), if is_ent(h, x) { 1 } else { 0 }) && (is_ent(h, x) ==> !l_ops(o).dom().contains(x) && !l_ops(o).dom().contains(y))) }
// ---- tables
pub open spec fn at(t: P<P<int>>, i: int, j: int) -> int { t.s[i].s[j] }
pub open spec fn row(r: P<int>, m: int) -> bool { !r.null && r.o == 0 && r.s.len() == m }
pub open spec fn table(t: P<P<int>>, n: int, m: int) -> bool { !t.null && t.o == 0 && t.s.len() == n && forall|i: int| 0 <= i < n ==> row(#[trigger] t.s[i], m) }
pub open spec fn single(t: P<P<int>>, n: int, m: int) -> bool { forall|i: int, j: int, k: int, l: int| 0 <= i < n && 0 <= j < m && 0 <= k < n && 0 <= l < m && #[trigger] at(t, i, j) != 0 && at(t, i, j) == #[trigger] at(t, k, l) ==> i == k && j == l }
// one of the entries of the first i rows and the first j entries of the next
pub open spec fn among(t: P<P<int>>, m: int, i: int, j: int, q: int) -> bool { q != 0 && exists|k: int, l: int| 0 <= k && 0 <= l < m && (k < i || (k == i && l < j)) && #[trigger] at(t, k, l) == q }
pub proof fn lem_among(t: P<P<int>>, m: int, i: int, j: int) requires 0 <= i, 0 <= j < m ensures forall|q: int| #[trigger] among(t, m, i, j + 1, q) == (among(t, m, i, j, q) || (q != 0 && at(t, i, j) == q)) {
    assert forall|q: int| #[trigger] among(t, m, i, j + 1, q) == (among(t, m, i, j, q) || (q != 0 && at(t, i, j) == q)) by {
        if among(t, m, i, j, q) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < i || (k == i && l < j)) && #[trigger] at(t, k, l) == q; assert(at(t, k, l) == q); }
        if among(t, m, i, j + 1, q) && at(t, i, j) != q { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < i || (k == i && l < j + 1)) && #[trigger] at(t, k, l) == q; assert(at(t, k, l) == q); }
        if q != 0 && at(t, i, j) == q { assert(at(t, i, j) == q); } } }
pub proof fn lem_among_row(t: P<P<int>>, m: int, i: int) requires 0 <= m ensures forall|q: int| #[trigger] among(t, m, i + 1, 0, q) == among(t, m, i, m, q) {
    assert forall|q: int| #[trigger] among(t, m, i + 1, 0, q) == among(t, m, i, m, q) by {
        if among(t, m, i + 1, 0, q) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < i + 1 || (k == i + 1 && l < 0)) && #[trigger] at(t, k, l) == q; assert(at(t, k, l) == q); }
        if among(t, m, i, m, q) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < i || (k == i && l < m)) && #[trigger] at(t, k, l) == q; assert(at(t, k, l) == q); } } }
pub proof fn lem_not_among(t: P<P<int>>, n: int, m: int, i: int, j: int) requires single(t, n, m), 0 <= i < n, 0 <= j < m ensures !among(t, m, i, j, at(t, i, j)) {
    let q = at(t, i, j); if among(t, m, i, j, q) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < i || (k == i && l < j)) && #[trigger] at(t, k, l) == q; assert(at(t, k, l) == q); assert(at(t, i, j) == at(t, k, l)); } }
// the comparisons of the first i rows and the first j of the next have gone
pub open spec fn swept(a: LM, b: LM, t: P<P<int>>, m: int, i: int, j: int) -> bool { (forall|q: int| #[trigger] b.m.dom().contains(q) == (a.m.dom().contains(q) && !among(t, m, i, j, q))) && forall|q: int| #[trigger] b.m.dom().contains(q) ==> b.m[q] == a.m[q] }
pub proof fn lem_among_none(t: P<P<int>>, m: int) ensures forall|q: int| !#[trigger] among(t, m, 0, 0, q) {}
pub proof fn lem_among_cell(t: P<P<int>>, m: int, n: int, i: int, j: int) requires 0 <= i < n, 0 <= j < m ensures at(t, i, j) == t.s[i].s[j], at(t, i, j) != 0 ==> among(t, m, n, 0, at(t, i, j)) { if at(t, i, j) != 0 { assert(at(t, i, j) == at(t, i, j)); } }
// ---- the way back through the table
pub open spec fn sfx(h: H, s: Seq<int>, i: int) -> ISet<int> { ISet::new(|e: int| within(h, s, i, e)) }
pub open spec fn within(h: H, s: Seq<int>, i: int, e: int) -> bool { exists|k: int| i <= k < s.len() && #[trigger] es(h, s[k]).contains(e) }
pub proof fn lem_within(h: H, s: Seq<int>, i: int, k: int, e: int) requires 0 <= i <= k < s.len(), es(h, s[k]).contains(e) ensures within(h, s, i, e), sfx(h, s, i).contains(e) { assert(es(h, s[k]).contains(e)); }
pub proof fn lem_sfx(h: H, s: Seq<int>, i: int) requires 0 < i <= s.len() ensures sfx(h, s, i - 1) =~= sfx(h, s, i).union(es(h, s[i - 1])) {
    assert forall|e: int| #[trigger] sfx(h, s, i - 1).contains(e) == sfx(h, s, i).union(es(h, s[i - 1])).contains(e) by {
        if within(h, s, i - 1, e) { let k = choose|k: int| i - 1 <= k < s.len() && #[trigger] es(h, s[k]).contains(e); if k >= i { lem_within(h, s, i, k, e); } }
        if within(h, s, i, e) { let k = choose|k: int| i <= k < s.len() && #[trigger] es(h, s[k]).contains(e); lem_within(h, s, i - 1, k, e); }
        if es(h, s[i - 1]).contains(e) { lem_within(h, s, i - 1, i - 1, e); } } }
pub proof fn lem_sfx_apart(h: H, s: Seq<int>, i: int) requires docl(h, s), 0 < i <= s.len() ensures apart_sets(sfx(h, s, i), es(h, s[i - 1])) {
    assert forall|e: int| !(#[trigger] sfx(h, s, i).contains(e) && es(h, s[i - 1]).contains(e)) by { if within(h, s, i, e) { let k = choose|k: int| i <= k < s.len() && #[trigger] es(h, s[k]).contains(e); assert(apart_sets(es(h, s[i - 1]), es(h, s[k]))); assert(es(h, s[i - 1]).contains(e) ==> !es(h, s[k]).contains(e)); } } }
pub proof fn lem_sfx_across(h: H, s: Seq<int>, u: Seq<int>, i: int, j: int) requires docs2(h, s, u), 0 <= i < s.len(), 0 <= j <= u.len() ensures apart_sets(sfx(h, u, j), es(h, s[i])) {
    assert forall|e: int| !(#[trigger] sfx(h, u, j).contains(e) && es(h, s[i]).contains(e)) by { if within(h, u, j, e) { let k = choose|k: int| j <= k < u.len() && #[trigger] es(h, u[k]).contains(e); assert(apart_sets(es(h, s[i]), es(h, u[k]))); assert(es(h, s[i]).contains(e) ==> !es(h, u[k]).contains(e)); } } }
pub proof fn lem_docs2_sym(h: H, s: Seq<int>, u: Seq<int>) requires docs2(h, s, u) ensures docs2(h, u, s) {
    assert forall|k: int, l: int| 0 <= k < u.len() && 0 <= l < s.len() implies apart_sets(es(h, #[trigger] u[k]), es(h, #[trigger] s[l])) by { assert(apart_sets(es(h, s[l]), es(h, u[k]))); assert forall|e: int| !(#[trigger] es(h, u[k]).contains(e) && es(h, s[l]).contains(e)) by { if es(h, u[k]).contains(e) { assert(!(es(h, s[l]).contains(e) && es(h, u[k]).contains(e))); } } } }
pub open spec fn kept(h: H, ops: Map<int, int>, eqs: Map<int, int>, s: Seq<int>, u: Seq<int>, a: int) -> bool { forall|k: int| a <= k < s.len() ==> sames(ops, eqs, order(h, #[trigger] s[k]), order(h, u[k]), 0) }
pub open spec fn walk(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int) -> bool {
    mt(ops, eqs, sfx(h, s, a), sfx(h, u, b)) && all_in(ops, s, a) && all_in(ops, u, b) && told_all(h, ops, eqs, sfx(h, s, a)) && tops(h, eqs, s, u) && (eqds(h, s, u) ==> a == b && kept(h, ops, eqs, s, u, a)) }
pub proof fn lem_walk_start(h: H, s: Seq<int>, u: Seq<int>) ensures walk(h, s, u, Map::empty(), Map::empty(), s.len() as int, u.len() as int) {
    lem_mt_empty(sfx(h, s, s.len() as int), sfx(h, u, u.len() as int)); assert forall|e: int, f: int| !#[trigger] two(Map::<int, int>::empty(), e, f) by {} }
pub proof fn lem_swap(ops: Map<int, int>, eqs: Map<int, int>, a: ISet<int>, b: ISet<int>) requires mt(ops, eqs, a, b) ensures mt(ops, eqs, b, a) { assert forall|e: int, f: int| #[trigger] two(eqs, e, f) implies across(b, a, e, f) by { assert(across(a, b, e, f)); } }
pub proof fn lem_walk_one(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int) requires docs2(h, s, u), mt(ops, eqs, sfx(h, s, a), sfx(h, u, b)), 0 < a <= s.len(), 0 <= b <= u.len()
    ensures mt(ops.insert(s[a - 1], 43), eqs, sfx(h, s, a - 1), sfx(h, u, b)), forall|e: int, f: int| #[trigger] two(eqs, e, f) ==> !es(h, s[a - 1]).contains(e) {
    let x = s[a - 1]; let e0 = Map::<int, int>::empty(); let none = ISet::<int>::empty();
    lem_sfx(h, s, a); lem_sfx_apart(h, s, a); lem_sfx_across(h, s, u, a - 1, b); assert(doc1(h, x)); lem_at_home(h, x);
    lem_mt_single(43, x, es(h, x), none); let all = sfx(h, s, a).union(sfx(h, u, b));
    assert forall|e: int| !(#[trigger] all.contains(e) && es(h, x).union(none).contains(e)) by { assert(!(sfx(h, s, a).contains(e) && es(h, x).contains(e))); assert(!(sfx(h, u, b).contains(e) && es(h, x).contains(e))); }
    lem_join(ops, eqs, sfx(h, s, a), sfx(h, u, b), map![x => 43], e0, es(h, x), none);
    assert(sfx(h, u, b).union(none) =~= sfx(h, u, b)); assert(ops.union_prefer_right(map![x => 43]) =~= ops.insert(x, 43)); assert(eqs.union_prefer_right(e0) =~= eqs);
    assert forall|e: int, f: int| #[trigger] two(eqs, e, f) implies !es(h, x).contains(e) by { assert(across(sfx(h, s, a), sfx(h, u, b), e, f)); assert(!(all.contains(e) && es(h, x).union(none).contains(e))); } }
pub proof fn lem_told_more(h: H, o1: Map<int, int>, o2: Map<int, int>, e: int, f: int) requires told(h, o1, e, f), o1.dom().subset_of(o2.dom()) ensures told(h, o2, e, f) {
    if is_cont(h, e) && is_cont(h, f) { assert forall|k: int| 0 <= k < h.m[e].items.len() && all_in(o1, h.m[e].items, 0) implies o2.dom().contains(#[trigger] h.m[e].items[k]) by { assert(o1.dom().contains(h.m[e].items[k])); } assert forall|k: int| 0 <= k < h.m[f].items.len() && all_in(o1, h.m[f].items, 0) implies o2.dom().contains(#[trigger] h.m[f].items[k]) by { assert(o1.dom().contains(h.m[f].items[k])); } } }
pub proof fn lem_walk_rem(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int) requires docs2(h, s, u), walk(h, s, u, ops, eqs, a, b), 0 < a <= s.len(), 0 <= b <= u.len(), !eqds(h, s, u)
    ensures walk(h, s, u, ops.insert(s[a - 1], 43), eqs, a - 1, b) {
    let o = ops.insert(s[a - 1], 43); lem_walk_one(h, s, u, ops, eqs, a, b); lem_sfx(h, s, a);
    assert forall|e: int, f: int| #[trigger] two(eqs, e, f) && sfx(h, s, a - 1).contains(e) implies told(h, o, e, f) by { assert(sfx(h, s, a).contains(e)); lem_told_more(h, ops, o, e, f); }
    assert forall|k: int| a - 1 <= k < s.len() implies o.dom().contains(#[trigger] s[k]) by { if k >= a { assert(ops.dom().contains(s[k])); } } }
pub proof fn lem_walk_add(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int) requires docs2(h, s, u), walk(h, s, u, ops, eqs, a, b), 0 <= a <= s.len(), 0 < b <= u.len(), !eqds(h, s, u)
    ensures walk(h, s, u, ops.insert(u[b - 1], 43), eqs, a, b - 1) {
    let o = ops.insert(u[b - 1], 43); lem_docs2_sym(h, s, u); lem_swap(ops, eqs, sfx(h, s, a), sfx(h, u, b)); lem_walk_one(h, u, s, ops, eqs, b, a); lem_swap(o, eqs, sfx(h, u, b - 1), sfx(h, s, a));
    assert forall|e: int, f: int| #[trigger] two(eqs, e, f) && sfx(h, s, a).contains(e) implies told(h, o, e, f) by { lem_told_more(h, ops, o, e, f); }
    assert forall|k: int| b - 1 <= k < u.len() implies o.dom().contains(#[trigger] u[k]) by { if k >= b { assert(ops.dom().contains(u[k])); } } }
pub open spec fn step_ops(ops: Map<int, int>, o: LObj, x: int, y: int, m: int) -> Map<int, int> { over(ops.insert(y, m).insert(x, m), map_seq(l_ops(o)), map_seq(l_ops(o)).len() as int) }
pub open spec fn step_eqs(eqs: Map<int, int>, o: LObj, x: int, y: int) -> Map<int, int> { over(eqs, map_seq(l_eqs(o)), map_seq(l_eqs(o)).len() as int).insert(x, y) }
pub proof fn lem_step(ops: Map<int, int>, eqs: Map<int, int>, o: LObj, x: int, y: int, m: int) requires l_ops(o).dom().finite(), l_eqs(o).dom().finite(), x != y
    ensures step_ops(ops, o, x, y, m) =~= ops.union_prefer_right(rooted_ops(l_ops(o), x, y, m)), step_eqs(eqs, o, x, y) =~= eqs.union_prefer_right(l_eqs(o).insert(x, y)) {
    lem_over(ops.insert(y, m).insert(x, m), l_ops(o)); lem_over(eqs, l_eqs(o)); }
pub proof fn lem_same_more(o1: Map<int, int>, e1: Map<int, int>, o2: Map<int, int>, e2: Map<int, int>, s: Seq<int>, u: Seq<int>, n: int)
    requires sames(o1, e1, s, u, n), forall|e: int, f: int| #[trigger] two(e1, e, f) ==> two(e2, e, f), forall|k: int| n <= k < s.len() ==> o2.dom().contains(#[trigger] s[k]) && o2.dom().contains(u[k]) && o2[s[k]] == o1[s[k]] && o2[u[k]] == o1[u[k]]
    ensures sames(o2, e2, s, u, n) { assert forall|k: int| n <= k < s.len() implies same(o2, e2, #[trigger] s[k], u[k]) by { assert(same(o1, e1, s[k], u[k])); } }
pub proof fn lem_eqd_len(h: H, x: int, y: int) requires eqd(h, x, y), tree(h, x), tree(h, y) ensures order(h, x).len() == order(h, y).len(), order(h, x).len() > 0 decreases rank(h, x), 1int, 0int { lem_elem(h, x); lem_at_home(h, x); lem_order(h, x); lem_order(h, y); lem_eqd_lens(h, x, y, kids(h, x).len() as int); }
pub proof fn lem_eqd_lens(h: H, x: int, y: int, n: int) requires eqd(h, x, y), tree(h, x), tree(h, y), 0 <= n <= kids(h, x).len() ensures orders(h, kids(h, x), n).len() == orders(h, kids(h, y), n).len() decreases rank(h, x), 0int, n { lem_elem(h, x); if n > 0 { lem_kid(h, x, n - 1); lem_kid(h, y, n - 1); lem_elem(h, kids(h, x)[n - 1]); lem_eqd_lens(h, x, y, n - 1); lem_eqd_len(h, kids(h, x)[n - 1], kids(h, y)[n - 1]); } }
pub proof fn lem_walk_pair(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int, o: LObj, m: int) requires docs2(h, s, u), walk(h, s, u, ops, eqs, a, b), 0 < a <= s.len(), 0 < b <= u.len(), cmp(h, o, s[a - 1], u[b - 1]), marked(m), eqds(h, s, u) ==> m == 61
    ensures walk(h, s, u, step_ops(ops, o, s[a - 1], u[b - 1], m), step_eqs(eqs, o, s[a - 1], u[b - 1]), a - 1, b - 1) {
    let x = s[a - 1]; let y = u[b - 1]; assert(doc1(h, x) && doc1(h, y)); lem_at_home(h, x); lem_at_home(h, y); let ax = es(h, x); let by = es(h, y); assert(apart_sets(ax, by));
    assert(x != y) by { assert(!(ax.contains(x) && by.contains(x))); }
    let ro = rooted_ops(l_ops(o), x, y, m); let re = l_eqs(o).insert(x, y); let o2 = ops.union_prefer_right(ro); let e2 = eqs.union_prefer_right(re);
    lem_step(ops, eqs, o, x, y, m); lem_roots(l_ops(o), l_eqs(o), ax, by, x, y, m);
    let sa = sfx(h, s, a); let ub = sfx(h, u, b); lem_docs2_sym(h, s, u); lem_sfx(h, s, a); lem_sfx(h, u, b); lem_sfx_apart(h, s, a); lem_sfx_apart(h, u, b); lem_sfx_across(h, s, u, a - 1, b); lem_sfx_across(h, u, s, b - 1, a);
    assert(apart_sets(sa.union(ub), ax.union(by))) by { assert forall|e: int| !(#[trigger] sa.union(ub).contains(e) && ax.union(by).contains(e)) by { assert(!(sa.contains(e) && ax.contains(e))); assert(!(ub.contains(e) && ax.contains(e))); assert(!(sa.contains(e) && by.contains(e))); assert(!(ub.contains(e) && by.contains(e))); } }
    lem_join(ops, eqs, sa, ub, ro, re, ax, by);
    assert(ops.dom().subset_of(o2.dom())); assert(l_ops(o).dom().subset_of(o2.dom()));
    assert forall|e: int, f: int| #[trigger] two(e2, e, f) && sfx(h, s, a - 1).contains(e) implies told(h, o2, e, f) by { lem_pair_told(h, s, u, ops, eqs, a, b, o, e, f); if two(eqs, e, f) { lem_told_more(h, ops, o2, e, f); } else { lem_told_more(h, l_ops(o), o2, e, f); } }
    assert forall|k: int| a - 1 <= k < s.len() implies o2.dom().contains(#[trigger] s[k]) by { if k >= a { assert(ops.dom().contains(s[k])); } }
    assert forall|k: int| b - 1 <= k < u.len() implies o2.dom().contains(#[trigger] u[k]) by { if k >= b { assert(ops.dom().contains(u[k])); } }
    lem_tops_pair(h, s, u, eqs, l_eqs(o), e2, a - 1, b - 1);
    if eqds(h, s, u) { lem_pair_kept(h, s, u, ops, eqs, a, o); } }
// what was said before the step, and by the comparison of the two
pub proof fn lem_sfx2(h: H, s: Seq<int>, u: Seq<int>, i: int, j: int) requires docs2(h, s, u), 0 <= i, 0 <= j <= u.len() ensures apart_sets(sfx(h, s, i), sfx(h, u, j)) {
    assert forall|e: int| !(#[trigger] sfx(h, s, i).contains(e) && sfx(h, u, j).contains(e)) by { if within(h, s, i, e) { let k = choose|k: int| i <= k < s.len() && #[trigger] es(h, s[k]).contains(e); lem_sfx_across(h, s, u, k, j); assert(!(sfx(h, u, j).contains(e) && es(h, s[k]).contains(e))); } } }
proof fn lem_pair_told(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int, o: LObj, e: int, f: int)
    requires docs2(h, s, u), walk(h, s, u, ops, eqs, a, b), 0 < a <= s.len(), 0 < b <= u.len(), cmp(h, o, s[a - 1], u[b - 1]), sfx(h, s, a - 1).contains(e), two(eqs, e, f) || two(l_eqs(o).insert(s[a - 1], u[b - 1]), e, f)
    ensures two(eqs, e, f) ==> told(h, ops, e, f), !two(eqs, e, f) ==> told(h, l_ops(o), e, f) {
    let x = s[a - 1]; let y = u[b - 1]; assert(doc1(h, x) && doc1(h, y)); lem_at_home(h, x); lem_at_home(h, y); assert(apart_sets(es(h, x), es(h, y)));
    lem_sfx2(h, s, u, a - 1, b - 1); assert(!(sfx(h, s, a - 1).contains(e) && sfx(h, u, b - 1).contains(e))); lem_sfx(h, u, b);
    if two(eqs, e, f) { assert(across(sfx(h, s, a), sfx(h, u, b), e, f)); }
    else { lem_roots(l_ops(o), l_eqs(o), es(h, x), es(h, y), x, y, 61); if two(l_eqs(o), e, f) { assert(across(es(h, x), es(h, y), e, f)); } } }
// the pairs made before stay, and so do their marks
proof fn lem_kept_old(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, ro: Map<int, int>, e2: Map<int, int>, a: int, k: int, ab: ISet<int>)
    requires 0 <= a <= k < s.len(), s.len() == u.len(), sames(ops, eqs, order(h, s[k]), order(h, u[k]), 0), forall|e: int, f: int| two(eqs, e, f) ==> #[trigger] two(e2, e, f), forall|e: int| #[trigger] ro.dom().contains(e) ==> ab.contains(e), apart_sets(sfx(h, s, a).union(sfx(h, u, a)), ab)
    ensures sames(ops.union_prefer_right(ro), e2, order(h, s[k]), order(h, u[k]), 0) {
    let p = order(h, s[k]); let q = order(h, u[k]); let o2 = ops.union_prefer_right(ro); let w = sfx(h, s, a).union(sfx(h, u, a));
    assert forall|l: int| 0 <= l < p.len() implies same(o2, e2, #[trigger] p[l], q[l]) by { assert(same(ops, eqs, p[l], q[l])); assert(p.contains(p[l])); assert(q.contains(q[l])); lem_within(h, s, a, k, p[l]); lem_within(h, u, a, k, q[l]); assert(w.contains(p[l]) && w.contains(q[l])); assert(!(w.contains(p[l]) && ab.contains(p[l]))); assert(!(w.contains(q[l]) && ab.contains(q[l]))); } }
proof fn lem_kept_new(h: H, ops: Map<int, int>, lo: Map<int, int>, le: Map<int, int>, ro: Map<int, int>, e2: Map<int, int>, x: int, y: int)
    requires tree(h, x), tree(h, y), ro == rooted_ops(lo, x, y, 61), two(e2, x, y), forall|e: int, f: int| two(le, e, f) ==> #[trigger] two(e2, e, f), sames(lo, le, order(h, x), order(h, y), if is_ent(h, x) { 1 } else { 0 }), is_ent(h, x) ==> !lo.dom().contains(x) && !lo.dom().contains(y)
    ensures sames(ops.union_prefer_right(ro), e2, order(h, x), order(h, y), 0) {
    let p = order(h, x); let q = order(h, y); let o2 = ops.union_prefer_right(ro); lem_at_home(h, x); lem_at_home(h, y);
    assert forall|l: int| 0 <= l < p.len() implies same(o2, e2, #[trigger] p[l], q[l]) by { if l > 0 || !is_ent(h, x) { assert(same(lo, le, p[l], q[l])); } } }
proof fn lem_pair_kept(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, o: LObj)
    requires docs2(h, s, u), walk(h, s, u, ops, eqs, a, a), 0 < a <= s.len(), cmp(h, o, s[a - 1], u[a - 1]), eqds(h, s, u)
    ensures kept(h, ops.union_prefer_right(rooted_ops(l_ops(o), s[a - 1], u[a - 1], 61)), eqs.union_prefer_right(l_eqs(o).insert(s[a - 1], u[a - 1])), s, u, a - 1) {
    let x = s[a - 1]; let y = u[a - 1]; assert(doc1(h, x) && doc1(h, y)); lem_at_home(h, x); lem_at_home(h, y); let ax = es(h, x); let by = es(h, y); assert(apart_sets(ax, by));
    let ro = rooted_ops(l_ops(o), x, y, 61); let re = l_eqs(o).insert(x, y); let o2 = ops.union_prefer_right(ro); let e2 = eqs.union_prefer_right(re);
    lem_roots(l_ops(o), l_eqs(o), ax, by, x, y, 61); let sa = sfx(h, s, a); let ub = sfx(h, u, a);
    lem_docs2_sym(h, s, u); lem_sfx_apart(h, s, a); lem_sfx_apart(h, u, a); lem_sfx_across(h, s, u, a - 1, a); lem_sfx_across(h, u, s, a - 1, a);
    assert(apart_sets(sa.union(ub), ax.union(by))) by { assert forall|e: int| !(#[trigger] sa.union(ub).contains(e) && ax.union(by).contains(e)) by { assert(!(sa.contains(e) && ax.contains(e))); assert(!(ub.contains(e) && ax.contains(e))); assert(!(sa.contains(e) && by.contains(e))); assert(!(ub.contains(e) && by.contains(e))); } }
    lem_join(ops, eqs, sa, ub, ro, re, ax, by);
    assert forall|e: int| #[trigger] ops.dom().contains(e) implies sa.union(ub).contains(e) by {}
    assert forall|e: int| #[trigger] ro.dom().contains(e) implies ax.union(by).contains(e) by {}
    assert forall|k: int| a - 1 <= k < s.len() implies sames(o2, e2, order(h, #[trigger] s[k]), order(h, u[k]), 0) by {
        let p = order(h, s[k]); let q = order(h, u[k]); assert(eqd(h, s[k], u[k])); assert(doc1(h, s[k]) && doc1(h, u[k])); lem_eqd_len(h, s[k], u[k]);
        if k >= a { assert(sames(ops, eqs, p, q, 0)); lem_kept_old(h, s, u, ops, eqs, ro, e2, a, k, ax.union(by)); }
        else { assert(two(e2, x, y)); lem_kept_new(h, ops, l_ops(o), l_eqs(o), ro, e2, x, y); } } }
pub open spec fn grid(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>) -> bool { table(t, (s.len() + 1) as int, (u.len() + 1) as int) && forall|i: int, j: int| 0 <= i <= s.len() && 0 <= j <= u.len() ==> #[trigger] at(t, i, j) == wl(h, s, u, i, j) }
// the comparison kept for a cell of the table; there is none where removing or adding is as cheap
pub open spec fn cell(h: H, lm: LM, q: int, s: Seq<int>, u: Seq<int>, i: int, j: int) -> bool { if q != 0 { lm.m.dom().contains(q) && q > 0 && cmp(h, lm.m[q], s[i], u[j]) } else { wl(h, s, u, i + 1, j + 1) > wl(h, s, u, i, j + 1) || wl(h, s, u, i + 1, j + 1) > wl(h, s, u, i + 1, j) } }
pub open spec fn cells(h: H, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>) -> bool { table(t, s.len() as int, u.len() as int) && forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < u.len() ==> cell(h, lm, #[trigger] at(t, i, j), s, u, i, j) }
pub proof fn lem_grid(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int) requires grid(h, t, s, u), 0 <= i <= s.len(), 0 <= j <= u.len() ensures !t.null && t.o == 0 && t.s.len() == s.len() + 1 && row(t.s[i], (u.len() + 1) as int) && t.s[i].s[j] == wl(h, s, u, i, j) && at(t, i, j) == t.s[i].s[j] { assert(at(t, i, j) == wl(h, s, u, i, j)); }
pub proof fn lem_cells(h: H, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int) requires cells(h, lm, t, s, u), 0 <= i < s.len(), 0 <= j < u.len() ensures !t.null && t.o == 0 && t.s.len() == s.len() && row(t.s[i], u.len() as int) && cell(h, lm, t.s[i].s[j], s, u, i, j) && at(t, i, j) == t.s[i].s[j] && (t.s[i].s[j] != 0 ==> is_LevenshteinMatrice_base(lm.m[t.s[i].s[j]].tag)) { assert(cell(h, lm, at(t, i, j), s, u, i, j)); }
// the cells read around one, and what they are when the two are equal
pub proof fn lem_around(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int) requires grid(h, t, s, u), docs2(h, s, u), 0 <= i <= s.len(), 0 <= j <= u.len()
    ensures !t.null && t.o == 0 && t.s.len() == s.len() + 1, row(t.s[i], (u.len() + 1) as int), t.s[i].s[j] == wl(h, s, u, i, j), i > 0 ==> row(t.s[i - 1], (u.len() + 1) as int) && t.s[i - 1].s[j] == wl(h, s, u, i - 1, j) && wl(h, s, u, i - 1, j) >= 0, j > 0 ==> t.s[i].s[j - 1] == wl(h, s, u, i, j - 1) && wl(h, s, u, i, j - 1) >= 0, i > 0 && j > 0 ==> t.s[i - 1].s[j - 1] == wl(h, s, u, i - 1, j - 1),
        eqds(h, s, u) && i == j ==> wl(h, s, u, i, j) == 0 && (i > 0 ==> wl(h, s, u, i - 1, j - 1) == 0) {
    lem_grid(h, t, s, u, i, j); if i > 0 { lem_grid(h, t, s, u, i - 1, j); lem_wl(h, s, u, i - 1, j); } if j > 0 { lem_grid(h, t, s, u, i, j - 1); lem_wl(h, s, u, i, j - 1); } if i > 0 && j > 0 { lem_grid(h, t, s, u, i - 1, j - 1); }
    if eqds(h, s, u) && i == j { lem_eq_wl(h, s, u, i); if i > 0 { lem_eq_wl(h, s, u, i - 1); } } }
pub proof fn lem_over_none(m: Map<int, int>, c: Seq<Pair<int, int>>) ensures over(m, c, 0) == m {}
pub proof fn lem_over_one(m: Map<int, int>, c: Seq<Pair<int, int>>, n: int) requires 0 <= n ensures over(m, c, n + 1) == over(m, c, n).insert(c[n].first, c[n].second) {}
pub proof fn lem_walk_eq(h: H, s: Seq<int>, u: Seq<int>, ops: Map<int, int>, eqs: Map<int, int>, a: int, b: int) requires walk(h, s, u, ops, eqs, a, b) ensures eqds(h, s, u) ==> a == b {}
// ---- the table as it is filled
pub open spec fn before(k: int, l: int, i: int, j: int) -> bool { k < i || (k == i && l < j) }
pub open spec fn filled(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int) -> bool { table(t, s.len() + 1 as int, u.len() + 1 as int) && forall|k: int, l: int| 0 <= k <= s.len() && 0 <= l <= u.len() && (k == 0 || l == 0 || before(k, l, i, j)) ==> #[trigger] at(t, k, l) == wl(h, s, u, k, l) }
pub open spec fn put2(t: P<P<int>>, v: P<P<int>>, i: int, j: int, x: int) -> bool { v.null == t.null && v.o == t.o && v.s =~= t.s.update(i, v.s[i]) && v.s[i].null == t.s[i].null && v.s[i].o == t.s[i].o && v.s[i].s =~= t.s[i].s.update(j, x) }
pub open spec fn upto(r: P<int>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] r.s[k] == k }
pub open spec fn sides(t: P<P<int>>, n: int, m: int, i: int) -> bool { !t.null && t.o == 0 && t.s.len() == n + 1 && (forall|k: int| 0 <= k < i ==> row(#[trigger] t.s[k], m + 1) && t.s[k].s[0] == k) && row(t.s[0], m + 1) && upto(t.s[0], m + 1) }
pub open spec fn blank(r: P<int>, j: int) -> bool { forall|l: int| 0 <= l < j ==> #[trigger] r.s[l] == 0 }
pub open spec fn blanks(t: P<P<int>>, n: int, m: int, i: int) -> bool { !t.null && t.o == 0 && t.s.len() == n && forall|k: int| 0 <= k < i ==> row(#[trigger] t.s[k], m) && blank(t.s[k], m) }
pub proof fn lem_put2(t: P<P<int>>, v: P<P<int>>, n: int, m: int, i: int, j: int, x: int) requires table(t, n, m), put2(t, v, i, j, x), 0 <= i < n, 0 <= j < m ensures table(v, n, m), forall|k: int, l: int| 0 <= k < n && 0 <= l < m ==> #[trigger] at(v, k, l) == if k == i && l == j { x } else { at(t, k, l) } {
    assert forall|k: int| 0 <= k < n implies row(#[trigger] v.s[k], m) by { assert(row(t.s[k], m)); } 
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies #[trigger] at(v, k, l) == if k == i && l == j { x } else { at(t, k, l) } by { assert(row(t.s[k], m)); } }
pub proof fn lem_filled(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>) requires sides(t, s.len() as int, u.len() as int, s.len() as int + 1), trees(h, s) ensures filled(h, t, s, u, 1, 1) {
    assert forall|k: int, l: int| 0 <= k <= s.len() && 0 <= l <= u.len() && (k == 0 || l == 0 || before(k, l, 1, 1)) implies #[trigger] at(t, k, l) == wl(h, s, u, k, l) by { assert(row(t.s[k], u.len() as int + 1)); if k == 0 { assert(t.s[0].s[l] == l); } else { assert(l == 0); assert(t.s[k].s[0] == k); } } }
pub proof fn lem_fill(h: H, t: P<P<int>>, v: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int, x: int) requires filled(h, t, s, u, i, j), 0 < i <= s.len(), 0 < j <= u.len(), put2(t, v, i, j, x), x == wl(h, s, u, i, j) ensures filled(h, v, s, u, i, j + 1) {
    lem_put2(t, v, s.len() as int + 1, u.len() as int + 1, i, j, x); }
pub proof fn lem_fill_row(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int) requires filled(h, t, s, u, i, u.len() as int + 1) ensures filled(h, t, s, u, i + 1, 1) {}
pub proof fn lem_fill_done(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>) requires filled(h, t, s, u, s.len() as int + 1, 1) ensures grid(h, t, s, u) {}
pub proof fn lem_fill_here(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int) requires filled(h, t, s, u, i, j), docs2(h, s, u), 0 < i <= s.len(), 0 < j <= u.len()
    ensures !t.null && t.o == 0 && t.s.len() == s.len() + 1, row(t.s[i], u.len() as int + 1), row(t.s[i - 1], u.len() as int + 1), t.s[i - 1].s[j] == wl(h, s, u, i - 1, j), t.s[i].s[j - 1] == wl(h, s, u, i, j - 1), t.s[i - 1].s[j - 1] == wl(h, s, u, i - 1, j - 1),
        0 <= wl(h, s, u, i - 1, j) < i + j, 0 <= wl(h, s, u, i, j - 1) < i + j, 0 <= wl(h, s, u, i - 1, j - 1) < i + j, 0 <= wl(h, s, u, i, j) <= i + j,
        wl(h, s, u, i, j) == imin(imin(wl(h, s, u, i - 1, j) + 1, wl(h, s, u, i, j - 1) + 1), wl(h, s, u, i - 1, j - 1) + (if dsim(h, s[i - 1], u[j - 1]) { 0int } else { dres(h, s[i - 1], u[j - 1]) })) {
    assert(at(t, i - 1, j) == wl(h, s, u, i - 1, j)); assert(at(t, i, j - 1) == wl(h, s, u, i, j - 1)); assert(at(t, i - 1, j - 1) == wl(h, s, u, i - 1, j - 1)); assert(row(t.s[i], u.len() as int + 1)); assert(row(t.s[i - 1], u.len() as int + 1));
    assert(trees(h, s)); lem_wl(h, s, u, i - 1, j); lem_wl(h, s, u, i, j - 1); lem_wl(h, s, u, i - 1, j - 1); lem_wl(h, s, u, i, j); }
pub proof fn lem_docs2_at(h: H, s: Seq<int>, u: Seq<int>, i: int, j: int) requires docs2(h, s, u), 0 <= i < s.len(), 0 <= j < u.len() ensures docs(h, s[i], u[j]), 0 <= rank(h, s[i]) < srank(h, s) { lem_mxr(h, s, s.len() as int, i); assert(doc1(h, s[i])); assert(doc1(h, u[j])); assert(apart_sets(es(h, s[i]), es(h, u[j]))); lem_elem(h, s[i]); }
// the comparisons made so far: those kept, and nothing else, have joined what was there before
pub open spec fn own(h: H, lm0: LM, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int, r: int) -> bool {
    let n = s.len() as int; let m = u.len() as int;
    table(t, n, m) && single(t, n, m) && (forall|k: int, l: int| 0 <= k < n && 0 <= l < m ==> if before(k + 1, l + 1, i, j) { cell(h, lm, #[trigger] at(t, k, l), s, u, k, l) } else { at(t, k, l) == 0 })
    && r > 0 && !lm0.m.dom().contains(r) && (forall|q: int| #[trigger] lm.m.dom().contains(q) == (lm0.m.dom().contains(q) || q == r || among(t, m, n, 0, q)))
    && (forall|q: int| #[trigger] lm0.m.dom().contains(q) ==> lm.m[q] == lm0.m[q]) && (forall|q: int| #[trigger] among(t, m, n, 0, q) ==> q != r && !lm0.m.dom().contains(q)) }
pub proof fn lem_own(h: H, lm0: LM, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, r: int) requires blanks(t, s.len() as int, u.len() as int, s.len() as int), r > 0, !lm0.m.dom().contains(r), lm.m =~= lm0.m.insert(r, lm.m[r]) ensures own(h, lm0, lm, t, s, u, 1, 1, r) {
    let n = s.len() as int; let m = u.len() as int;
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies #[trigger] at(t, k, l) == 0 by { assert(row(t.s[k], m) && blank(t.s[k], m)); assert(t.s[k].s[l] == 0); }
    assert forall|q: int| !#[trigger] among(t, m, n, 0, q) by { if among(t, m, n, 0, q) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < n || (k == n && l < 0)) && #[trigger] at(t, k, l) == q; assert(at(t, k, l) == 0); } } }
pub proof fn lem_own_row(h: H, lm0: LM, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, r: int) requires own(h, lm0, lm, t, s, u, i, u.len() as int + 1, r), 1 <= i ensures own(h, lm0, lm, t, s, u, i + 1, 1, r) {
    let n = s.len() as int; let m = u.len() as int;
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies if before(k + 1, l + 1, i + 1, 1) { cell(h, lm, #[trigger] at(t, k, l), s, u, k, l) } else { at(t, k, l) == 0 } by { assert(before(k + 1, l + 1, i, m + 1) == before(k + 1, l + 1, i + 1, 1)); if before(k + 1, l + 1, i, m + 1) { assert(cell(h, lm, at(t, k, l), s, u, k, l)); } else { assert(at(t, k, l) == 0); } } }
pub proof fn lem_own_skip(h: H, lm0: LM, lm: LM, lm2: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int, r: int) requires own(h, lm0, lm, t, s, u, i, j, r), lm2.m =~= lm.m, 0 < i <= s.len(), 0 < j <= u.len(), cell(h, lm, 0, s, u, i - 1, j - 1) ensures own(h, lm0, lm2, t, s, u, i, j + 1, r) {
    let n = s.len() as int; let m = u.len() as int;
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies if before(k + 1, l + 1, i, j + 1) { cell(h, lm2, #[trigger] at(t, k, l), s, u, k, l) } else { at(t, k, l) == 0 } by { if before(k + 1, l + 1, i, j) { assert(cell(h, lm, at(t, k, l), s, u, k, l)); } else { assert(at(t, k, l) == 0); } } }
pub proof fn lem_own_put(h: H, lm0: LM, lm: LM, lm2: LM, t: P<P<int>>, v: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int, r: int, q: int)
    requires own(h, lm0, lm, t, s, u, i, j, r), 0 < i <= s.len(), 0 < j <= u.len(), !lm.m.dom().contains(q), q > 0, lm2.m =~= lm.m.insert(q, lm2.m[q]), put2(t, v, i - 1, j - 1, q), cell(h, lm2, q, s, u, i - 1, j - 1)
    ensures own(h, lm0, lm2, v, s, u, i, j + 1, r), lm2.m[r] == lm.m[r] {
    let n = s.len() as int; let m = u.len() as int; lem_put2(t, v, n, m, i - 1, j - 1, q);
    assert(at(t, i - 1, j - 1) == 0) by { assert(!before(i, j, i, j)); assert(if before(i - 1 + 1, j - 1 + 1, i, j) { cell(h, lm, at(t, i - 1, j - 1), s, u, i - 1, j - 1) } else { at(t, i - 1, j - 1) == 0 }); }
    assert(lm.m.dom().contains(r)); assert(r != q);
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m && #[trigger] at(t, k, l) != 0 implies at(t, k, l) != q by { assert(before(k + 1, l + 1, i, j)); assert(cell(h, lm, at(t, k, l), s, u, k, l)); }
    assert forall|p: int| #[trigger] among(v, m, n, 0, p) == (among(t, m, n, 0, p) || p == q) by {
        if among(v, m, n, 0, p) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < n || (k == n && l < 0)) && #[trigger] at(v, k, l) == p; assert(at(v, k, l) == if k == i - 1 && l == j - 1 { q } else { at(t, k, l) }); }
        if among(t, m, n, 0, p) { let (k, l) = choose|k: int, l: int| 0 <= k && 0 <= l < m && (k < n || (k == n && l < 0)) && #[trigger] at(t, k, l) == p; assert(at(v, k, l) == if k == i - 1 && l == j - 1 { q } else { at(t, k, l) }); }
        if p == q { assert(at(v, i - 1, j - 1) == q); } }
    assert(single(v, n, m)) by { assert forall|a: int, b: int, k: int, l: int| 0 <= a < n && 0 <= b < m && 0 <= k < n && 0 <= l < m && #[trigger] at(v, a, b) != 0 && at(v, a, b) == #[trigger] at(v, k, l) implies a == k && b == l by { assert(at(v, a, b) == if a == i - 1 && b == j - 1 { q } else { at(t, a, b) }); assert(at(v, k, l) == if k == i - 1 && l == j - 1 { q } else { at(t, k, l) }); assert(at(t, a, b) != q); assert(at(t, k, l) != q); } }
    assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies if before(k + 1, l + 1, i, j + 1) { cell(h, lm2, #[trigger] at(v, k, l), s, u, k, l) } else { at(v, k, l) == 0 } by {
        assert(at(v, k, l) == if k == i - 1 && l == j - 1 { q } else { at(t, k, l) });
        if k == i - 1 && l == j - 1 {} else if before(k + 1, l + 1, i, j) { assert(cell(h, lm, at(t, k, l), s, u, k, l)); } else { assert(at(t, k, l) == 0); } } }
pub proof fn lem_own_done(h: H, lm0: LM, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, r: int) requires own(h, lm0, lm, t, s, u, s.len() as int + 1, 1, r)
    ensures cells(h, lm, t, s, u), table(t, s.len() as int, u.len() as int), single(t, s.len() as int, u.len() as int), !among(t, u.len() as int, s.len() as int, 0, r), lm.m.dom().contains(r), forall|q: int| among(t, u.len() as int, s.len() as int, 0, q) ==> #[trigger] lm.m.dom().contains(q) {
    let n = s.len() as int; let m = u.len() as int; assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies cell(h, lm, #[trigger] at(t, k, l), s, u, k, l) by { assert(before(k + 1, l + 1, n + 1, 1)); } }
// after the clean-up
pub proof fn lem_own_end(h: H, lm0: LM, lm: LM, lm1: LM, lm2: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, r: int) requires own(h, lm0, lm, t, s, u, s.len() as int + 1, 1, r), lm1.m =~= lm.m.insert(r, lm1.m[r]), swept(lm1, lm2, t, u.len() as int, s.len() as int, 0) ensures lm2.m =~= lm0.m.insert(r, lm1.m[r]) { lem_own_done(h, lm0, lm, t, s, u, r);
    let m = u.len() as int; let n = s.len() as int; let f = lm0.m.insert(r, lm1.m[r]);
    assert forall|q: int| #[trigger] lm2.m.dom().contains(q) == f.dom().contains(q) by { assert(lm.m.dom().contains(q) == (lm0.m.dom().contains(q) || q == r || among(t, m, n, 0, q))); assert(among(t, m, n, 0, q) ==> q != r && !lm0.m.dom().contains(q)); assert(lm1.m.dom().contains(q) == (lm.m.dom().contains(q) || q == r)); }
    assert forall|q: int| #[trigger] lm2.m.dom().contains(q) implies lm2.m[q] == f[q] by { assert(lm1.m.dom().contains(q)); assert(f.dom().contains(q)); if q != r { assert(lm0.m.dom().contains(q)); } } }
// what comparing two containers item by item comes to
pub open spec fn built(h: H, o: LObj, s: Seq<int>, u: Seq<int>) -> bool { let d = wl(h, s, u, s.len() as int, u.len() as int); let n = s.len() as int; let m = u.len() as int;
    is_LevenshteinMatrice(o.tag) && o.LevenshteinMatrice_levenDist == d && o.LevenshteinMatrice_levenRelativeDist == ratio(d, n, m)
    && if n > 0 && m > 0 && near(d, n, m) { walk(h, s, u, l_ops(o), l_eqs(o), 0, 0) } else { l_ops(o) =~= Map::empty() && l_eqs(o) =~= Map::empty() } }
pub proof fn lem_cmp(h: H, o: LObj, x: int, y: int) requires cmp(h, o, x, y) ensures is_LevenshteinMatrice_base(o.tag), l_res(o) == dres(h, x, y), l_sim(o) == dsim(h, x, y), 0 <= l_res(o) <= 0xffff_ffff {}
pub proof fn lem_own_here(h: H, lm0: LM, lm: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, i: int, j: int, r: int) requires own(h, lm0, lm, t, s, u, i, j, r), 0 < i <= s.len(), 0 < j <= u.len() ensures !t.null && t.o == 0 && t.s.len() == s.len(), row(t.s[i - 1], u.len() as int), t.s[i - 1].s[j - 1] == 0, lm.m.dom().contains(r), r > 0 {
    assert(if before(i - 1 + 1, j - 1 + 1, i, j) { cell(h, lm, at(t, i - 1, j - 1), s, u, i - 1, j - 1) } else { at(t, i - 1, j - 1) == 0 }); }
pub proof fn lem_docs2_trees(h: H, s: Seq<int>, u: Seq<int>) requires docs2(h, s, u) ensures trees(h, s) { assert forall|k: int| 0 <= k < s.len() implies tree(h, #[trigger] s[k]) by { assert(doc1(h, s[k])); } }
pub proof fn lem_built(h: H, o: LObj, s: Seq<int>, u: Seq<int>) ensures built(h, o, s, u) == (is_LevenshteinMatrice(o.tag) && o.LevenshteinMatrice_levenDist == wl(h, s, u, s.len() as int, u.len() as int) && o.LevenshteinMatrice_levenRelativeDist == ratio(wl(h, s, u, s.len() as int, u.len() as int), s.len() as int, u.len() as int)
    && if s.len() > 0 && u.len() > 0 && near(wl(h, s, u, s.len() as int, u.len() as int), s.len() as int, u.len() as int) { walk(h, s, u, l_ops(o), l_eqs(o), 0, 0) } else { l_ops(o) =~= Map::empty() && l_eqs(o) =~= Map::empty() }) {}
pub proof fn lem_cells_kept(h: H, lm: LM, lm2: LM, t: P<P<int>>, s: Seq<int>, u: Seq<int>, r: int) requires cells(h, lm, t, s, u), !among(t, u.len() as int, s.len() as int, 0, r), r > 0, lm2.m =~= lm.m.insert(r, lm2.m[r]) ensures cells(h, lm2, t, s, u) {
    let n = s.len() as int; let m = u.len() as int; assert forall|k: int, l: int| 0 <= k < n && 0 <= l < m implies cell(h, lm2, #[trigger] at(t, k, l), s, u, k, l) by { assert(cell(h, lm, at(t, k, l), s, u, k, l)); lem_among_cell(t, m, n, k, l); assert(at(t, k, l) != r); } }
pub proof fn lem_grid_table(h: H, t: P<P<int>>, s: Seq<int>, u: Seq<int>) requires grid(h, t, s, u) ensures table(t, s.len() + 1 as int, u.len() + 1 as int) {}
// ---- what the comparison of two elements comes to, case by case
#[verifier::external_body]
pub proof fn ax_lt(a: Dbl, b: Dbl) ensures d_lt(a, b) ==> !d_lt(b, a) {}
pub proof fn lem_alone(h: H, x: int) requires tree(h, x), kids(h, x).len() == 0 ensures order(h, x) =~= seq![x] { lem_order(h, x); }
pub proof fn lem_docs_at(h: H, x: int, y: int) requires docs(h, x, y) ensures tree(h, x), tree(h, y), elem(h, x), elem(h, y), es(h, x).contains(x), es(h, y).contains(y), !es(h, x).contains(y), !es(h, y).contains(x), x != y, rank(h, x) > 0, el_text(h.m[x]).len() < 0x3fff_ffff, el_text(h.m[y]).len() < 0x3fff_ffff, nkids(h, x) <= 0x7fff_ffff, nkids(h, y) <= 0x7fff_ffff {
    lem_at_home(h, x); lem_at_home(h, y); lem_elem(h, x); lem_elem(h, y); assert(order(h, x).contains(x)); assert(order(h, y).contains(y)); assert(!(es(h, x).contains(x) && es(h, y).contains(x))); assert(!(es(h, x).contains(y) && es(h, y).contains(y))); }
pub open spec fn cmp_base(h: H, o: LObj, x: int, y: int) -> bool { is_LevenshteinMatrice_base(o.tag) && l_res(o) == dres(h, x, y) && l_sim(o) == dsim(h, x, y) && 0 <= l_res(o) <= 0xffff_ffff }
pub proof fn lem_cmp_two(h: H, o: LObj, x: int, y: int, m: int) requires docs(h, x, y), cmp_base(h, o, x, y), l_ops(o) =~= map![x => m, y => m], l_eqs(o) =~= map![x => y], marked(m), !is_cont(h, x) || !is_cont(h, y), eqd(h, x, y) ==> m == 61 && !is_ent(h, x) && !is_cont(h, x) ensures cmp(h, o, x, y) {
    lem_docs_at(h, x, y); let e0 = Map::<int, int>::empty(); lem_mt_empty(es(h, x), es(h, y)); assert forall|e: int, f: int| !#[trigger] two(e0, e, f) by {}
    lem_roots(e0, e0, es(h, x), es(h, y), x, y, m); assert(rooted_ops(e0, x, y, m) =~= l_ops(o)); assert(e0.insert(x, y) =~= l_eqs(o));
    assert forall|e: int, f: int| #[trigger] two(l_eqs(o), e, f) && es(h, x).contains(e) implies told(h, l_ops(o), e, f) by {}
    if eqd(h, x, y) { lem_alone(h, x); lem_alone(h, y); assert(same(l_ops(o), l_eqs(o), x, y)); assert(order(h, x)[0] == x && order(h, y)[0] == y); } }
pub proof fn lem_cmp_apart(h: H, o: LObj, x: int, y: int, m1: int, m2: int) requires docs(h, x, y), cmp_base(h, o, x, y), l_ops(o) =~= map![x => m1, y => m2], l_eqs(o) =~= Map::empty(), reported(m1), reported(m2), !is_cont(h, x) || !is_cont(h, y), !eqd(h, x, y) ensures cmp(h, o, x, y) {
    lem_docs_at(h, x, y); assert forall|e: int, f: int| !#[trigger] two(l_eqs(o), e, f) by {} }
pub proof fn lem_cmp_val(h: H, o: LObj, x: int, y: int) requires docs(h, x, y), is_ent(h, x), is_ent(h, y), !is_cont(h, x), !is_cont(h, y), key(h, x) == key(h, y), cmp(h, o, val(h, x), val(h, y)) ensures cmp(h, o, x, y) {
    let v = val(h, x); let w = val(h, y); lem_docs_at(h, x, y); lem_docs_val(h, x, y); lem_docs_at(h, v, w); lem_widen(l_ops(o), l_eqs(o), es(h, v), es(h, w), es(h, x), es(h, y));
    lem_outside(l_ops(o), l_eqs(o), es(h, v), es(h, w), x); lem_outside(l_ops(o), l_eqs(o), es(h, v), es(h, w), y);
    assert forall|e: int, f: int| #[trigger] two(l_eqs(o), e, f) && es(h, x).contains(e) implies told(h, l_ops(o), e, f) by { assert(across(es(h, v), es(h, w), e, f)); assert(!(es(h, x).contains(e) && es(h, y).contains(e))); }
    lem_kid(h, x, 0); lem_kid(h, y, 0); assert(kids(h, x)[0] == v && kids(h, y)[0] == w); assert(!is_ent(h, v));
    if eqd(h, x, y) { lem_eqd_val(h, x, y); lem_order(h, x); lem_order(h, y); assert(orders(h, kids(h, x), 1) =~= orders(h, kids(h, x), 0) + order(h, v)); assert(orders(h, kids(h, x), 1) =~= order(h, v)); assert(orders(h, kids(h, y), 1) =~= orders(h, kids(h, y), 0) + order(h, w)); assert(orders(h, kids(h, y), 1) =~= order(h, w)); let p = order(h, x); let q = order(h, y);
        assert(sames(l_ops(o), l_eqs(o), order(h, v), order(h, w), 0)); assert forall|k: int| 1 <= k < p.len() implies same(l_ops(o), l_eqs(o), #[trigger] p[k], q[k]) by { assert(p[k] == order(h, v)[k - 1] && q[k] == order(h, w)[k - 1]); } } }
pub proof fn lem_sames_all(h: H, ops: Map<int, int>, eqs: Map<int, int>, s: Seq<int>, u: Seq<int>, n: int) requires kept(h, ops, eqs, s, u, 0), 0 <= n <= s.len() ensures sames(ops, eqs, orders(h, s, n), orders(h, u, n), 0) decreases n {
    if n > 0 { lem_sames_all(h, ops, eqs, s, u, n - 1); let p = order(h, s[n - 1]); let q = order(h, u[n - 1]); let a = orders(h, s, n - 1); let b = orders(h, u, n - 1); assert(sames(ops, eqs, p, q, 0)); assert(orders(h, s, n) == a + p && orders(h, u, n) == b + q);
        assert forall|k: int| 0 <= k < (a + p).len() implies same(ops, eqs, #[trigger] (a + p)[k], (b + q)[k]) by { if k < a.len() { assert(same(ops, eqs, a[k], b[k])); } else { assert(same(ops, eqs, p[k - a.len()], q[k - a.len()])); } } } }
pub open spec fn rooted_res(h: H, o: LObj, o2: LObj, x: int, y: int) -> bool { let r = o.LevenshteinMatrice_levenRelativeDist; let far = d_lt(r, d_lit(700000)); let t = if far { 43int } else if d_lt(r, d_of(1)) { 33 } else { 61 };
    o2.tag == o.tag && o2.LevenshteinMatrice_levenDist == o.LevenshteinMatrice_levenDist && o2.LevenshteinMatrice_levenRelativeDist == r && l_ops(o2) =~= l_ops(o).insert(y, t).insert(x, t) && l_eqs(o2) =~= if far { l_eqs(o) } else { l_eqs(o).insert(x, y).insert(y, x) } }
pub proof fn lem_kids_sfx(h: H, x: int) requires doc1(h, x), is_cont(h, x) ensures sfx(h, h.m[x].items, 0).subset_of(es(h, x)), !sfx(h, h.m[x].items, 0).contains(x) {
    let s = h.m[x].items; assert forall|e: int| #[trigger] sfx(h, s, 0).contains(e) implies es(h, x).contains(e) && e != x by { let k = choose|k: int| 0 <= k < s.len() && #[trigger] es(h, s[k]).contains(e); lem_doc_kid(h, x, k); assert(kids(h, x)[k] == s[k]); } }
proof fn lem_home(h: H, x: int, e: int) requires tree(h, x), is_cont(h, x), h.m[x].items.contains(e) ensures par(h, e) == x, !member_value(h, e) { let s = h.m[x].items; let k = choose|k: int| 0 <= k < s.len() && s[k] == e; assert(kids(h, x)[k] == e); lem_kid(h, x, k); lem_elem(h, x); }
proof fn lem_tied_cont(h: H, eqs: Map<int, int>, eqs2: Map<int, int>, x: int, y: int)
    requires tree(h, x), tree(h, y), is_cont(h, x), is_cont(h, y), tops(h, eqs, h.m[x].items, h.m[y].items), two(eqs2, x, y), forall|e: int, f: int| #[trigger] two(eqs2, e, f) == (two(eqs, e, f) || (e == x && f == y) || (e == y && f == x)) ensures tied(h, eqs2, x, y) {
    let s = h.m[x].items; let u = h.m[y].items; assert(two(eqs2, y, x));
    assert forall|e: int, f: int| #[trigger] two(eqs2, e, f) implies tie(h, eqs2, e, f, x, y) by { if two(eqs, e, f) { if level(s, u, e, f) { if s.contains(e) && u.contains(f) { lem_home(h, x, e); lem_home(h, y, f); } else { lem_home(h, y, e); lem_home(h, x, f); } } else { assert(two(eqs2, par(h, e), par(h, f))); } } } }
#[verifier::rlimit(100)]
pub proof fn lem_cmp_cont(h: H, o: LObj, o2: LObj, x: int, y: int) requires docs(h, x, y), is_cont(h, x), is_cont(h, y), built(h, o, h.m[x].items, h.m[y].items), rooted_res(h, o, o2, x, y) ensures cmp(h, o2, x, y) {
    let s = h.m[x].items; let u = h.m[y].items; let n = s.len() as int; let m = u.len() as int; let d = wl(h, s, u, n, m); let ops = l_ops(o); let eqs = l_eqs(o);
    lem_docs_at(h, x, y); lem_docs2(h, x, y); lem_kids_sfx(h, x); lem_kids_sfx(h, y); lem_trees(h, x); lem_wl(h, s, u, n, m); let ax = es(h, x); let by = es(h, y);
    let full = n > 0 && m > 0 && near(d, n, m); let sa = sfx(h, s, 0); let ub = sfx(h, u, 0); ax_lt(o.LevenshteinMatrice_levenRelativeDist, d_lit(700000));
    if !full { lem_mt_empty(sa, ub); assert(ops == Map::<int, int>::empty()); assert(eqs == Map::<int, int>::empty()); }
    assert(mt(ops, eqs, sa, ub));
    let far = d_lt(o.LevenshteinMatrice_levenRelativeDist, d_lit(700000)); let t = if far { 43int } else if d_lt(o.LevenshteinMatrice_levenRelativeDist, d_of(1)) { 33 } else { 61 }; let ops2 = l_ops(o2); let eqs2 = l_eqs(o2);
    assert(full ==> !far); assert(apart_sets(ax, by)); assert(!sa.contains(y)); assert(!ub.contains(x));
    lem_rooted(ops, eqs, sa, ub, ax, by, x, y, t, far, ops2, eqs2);
    assert(ops.dom().subset_of(ops2.dom()));
    assert(told(h, ops2, x, y)) by { if full { assert forall|k: int| 0 <= k < s.len() implies ops2.dom().contains(#[trigger] s[k]) by { assert(ops.dom().contains(s[k])); } assert forall|k: int| 0 <= k < u.len() implies ops2.dom().contains(#[trigger] u[k]) by { assert(ops.dom().contains(u[k])); } } }
    assert forall|e: int, f: int| #[trigger] two(eqs2, e, f) && ax.contains(e) implies told(h, ops2, e, f) by {
        if two(eqs, e, f) { assert(across(sa, ub, e, f)); assert(!(ax.contains(e) && by.contains(e))); assert(full); lem_told_more(h, ops, ops2, e, f); } }
    assert(tied(h, eqs2, x, y)) by { if far { assert forall|e: int, f: int| !#[trigger] two(eqs2, e, f) by {} } else { if !full { assert forall|e: int, f: int| !#[trigger] two(eqs, e, f) by {} } assert(two(eqs2, x, y)); lem_tied_cont(h, eqs, eqs2, x, y); } }
    if eqd(h, x, y) { lem_eqds(h, x, y); lem_docl(h, x); lem_docl(h, y); lem_eq_wl(h, s, u, n); lem_near(n, n); ax_ones(); assert(t == 61);
        if n == 0 { lem_alone(h, x); lem_alone(h, y); } else { lem_sames_all(h, ops, eqs, s, u, n); }
        lem_eqd_root(h, ops, eqs, ops2, eqs2, x, y); } }
proof fn lem_rooted(ops: Map<int, int>, eqs: Map<int, int>, sa: ISet<int>, ub: ISet<int>, ax: ISet<int>, by: ISet<int>, x: int, y: int, t: int, far: bool, ops2: Map<int, int>, eqs2: Map<int, int>)
    requires mt(ops, eqs, sa, ub), sa.subset_of(ax), ub.subset_of(by), ax.contains(x), by.contains(y), !sa.contains(x), !ub.contains(x), !sa.contains(y), !ub.contains(y), x != y, apart_sets(ax, by), if far { t == 43 && ops =~= Map::empty() && eqs =~= Map::empty() && eqs2 =~= eqs } else { marked(t) && eqs2 =~= eqs.insert(x, y).insert(y, x) }, ops2 =~= ops.insert(y, t).insert(x, t)
    ensures mt(ops2, eqs2, ax, by), roots_ok(ops2, eqs2, x, y), !far ==> forall|e: int, f: int| #[trigger] two(eqs2, e, f) == (two(eqs, e, f) || (e == x && f == y) || (e == y && f == x)), far ==> forall|e: int, f: int| !#[trigger] two(eqs2, e, f) {
    lem_widen(ops, eqs, sa, ub, ax, by); lem_outside(ops, eqs, sa, ub, x); lem_outside(ops, eqs, sa, ub, y);
    if far { assert forall|e: int, f: int| !#[trigger] two(eqs2, e, f) by {} }
    else { lem_roots(ops, eqs, ax, by, x, y, t); let q = eqs.insert(x, y); assert(rooted_ops(ops, x, y, t) =~= ops2);
        assert(!eqs.dom().contains(y)) by { if eqs.dom().contains(y) { assert(two(eqs, y, eqs[y])); } }
        assert forall|e: int, f: int| #[trigger] two(eqs2, e, f) == two(q, e, f) by {}
        assert(paired(q, x) == paired(eqs2, x)) by { assert(two(q, x, y)); assert(two(eqs2, x, y)); }
        assert(marks_ok(ops2, eqs2, ax, by)) by { assert forall|e: int| #[trigger] ops2.dom().contains(e) && marked(ops2[e]) implies paired(eqs2, e) by { assert(paired(q, e)); let f = choose|f: int| two(q, e, f); assert(two(eqs2, e, f)); } }
        assert(pairs_ok(ops2, eqs2, ax, by)) by { assert forall|e: int, f: int| #[trigger] two(eqs2, e, f) implies across(ax, by, e, f) && ops2.dom().contains(e) && ops2.dom().contains(f) && agree(ops2[e], ops2[f]) by { assert(two(q, e, f)); } }
        assert(one_to_one(eqs2)) by { assert forall|e: int, f: int, g: int| #[trigger] two(eqs2, e, f) && #[trigger] two(eqs2, e, g) implies f == g by { assert(two(q, e, f) && two(q, e, g)); } }
        assert(ops2.dom() =~= ops.dom().insert(y).insert(x)); assert(eqs2.dom() =~= eqs.dom().insert(x).insert(y)); } }
proof fn lem_eqd_root(h: H, ops: Map<int, int>, eqs: Map<int, int>, ops2: Map<int, int>, eqs2: Map<int, int>, x: int, y: int)
    requires docs(h, x, y), is_cont(h, x), is_cont(h, y), ops2 =~= ops.insert(y, 61).insert(x, 61), eqs2 =~= eqs.insert(x, y).insert(y, x), x != y, nkids(h, x) == nkids(h, y), nkids(h, x) > 0 ==> sames(ops, eqs, orders(h, h.m[x].items, nkids(h, x)), orders(h, h.m[y].items, nkids(h, y)), 0), !ops.dom().contains(x), !ops.dom().contains(y), forall|e: int, f: int| #[trigger] two(eqs2, e, f) == (two(eqs, e, f) || (e == x && f == y) || (e == y && f == x))
    ensures sames(ops2, eqs2, order(h, x), order(h, y), 0) {
    lem_order(h, x); lem_order(h, y); let p = order(h, x); let q = order(h, y); let a = orders(h, h.m[x].items, nkids(h, x)); let b = orders(h, h.m[y].items, nkids(h, y)); assert(p =~= seq![x] + a); assert(q =~= seq![y] + b); assert(two(eqs2, x, y));
    assert(a.len() == b.len());
    assert forall|k: int| 0 <= k < p.len() implies same(ops2, eqs2, #[trigger] p[k], q[k]) by { if k > 0 { assert(same(ops, eqs, a[k - 1], b[k - 1])); assert(p[k] == a[k - 1] && q[k] == b[k - 1]); } } }

// two elements compared, one step
pub proof fn lem_pair(h: H, x: int, y: int) requires docs(h, x, y)
    ensures eqd(h, x, y) ==> h.m[x].tag == h.m[y].tag && el_text(h.m[x]) == el_text(h.m[y]), eqd(h, x, y) && !is_cont(h, x) && !is_ent(h, x) ==> psim(h, x, y), !d_lt(d_lit(700000), d_of(0)),
        !is_cont(h, x) || !is_cont(h, y) ==> !is_ent(h, x) || !is_ent(h, y) || is_cont(h, x) || is_cont(h, y) || key(h, x) != key(h, y) ==> 0 <= dres(h, x, y) <= 0xffff_ffff,
        is_cont(h, x) && !is_cont(h, y) ==> dres(h, x, y) == nkids(h, x) + 1 && !dsim(h, x, y), is_cont(h, y) && !is_cont(h, x) ==> dres(h, x, y) == nkids(h, y) + 1 && !dsim(h, x, y),
        !is_cont(h, x) && !is_cont(h, y) && is_ent(h, x) && is_ent(h, y) ==> if key(h, x) == key(h, y) { docs(h, val(h, x), val(h, y)) && 0 <= rank(h, val(h, x)) < rank(h, x) } else { dres(h, x, y) == 1 && !dsim(h, x, y) },
        !is_cont(h, x) && !is_cont(h, y) && is_ent(h, x) != is_ent(h, y) ==> dres(h, x, y) == 1 && !dsim(h, x, y),
        !is_cont(h, x) && !is_cont(h, y) && !is_ent(h, x) && !is_ent(h, y) ==> dsim(h, x, y) == psim(h, x, y) && dres(h, x, y) == if psim(h, x, y) { 0int } else { 1 } {
    lem_docs_at(h, x, y); ax_ones(); if eqd(h, x, y) && !is_cont(h, x) && !is_ent(h, x) { lem_psim(h, x, y); }
    if !is_cont(h, x) && !is_cont(h, y) && is_ent(h, x) && is_ent(h, y) { lem_docs_val(h, x, y); lem_kid(h, x, 0); lem_elem(h, val(h, x)); } }
pub proof fn lem_cmp_pairs(h: H, o: LObj, x: int, y: int) requires cmp(h, o, x, y) ensures pairs(h, l_eqs(o), x, y) {
    assert forall|e: int, f: int| #[trigger] two(l_eqs(o), e, f) implies across(es(h, x), es(h, y), e, f) by { } }
