// moving through what is displayed
pub open spec fn flt(h: H, q: Seq<int>) -> Seq<int> decreases q.len() { if q.len() == 0 { q } else if member_value(h, q.last()) { flt(h, q.drop_last()) } else { flt(h, q.drop_last()).push(q.last()) } }
pub proof fn lem_flt_in(h: H, q: Seq<int>, x: int) ensures flt(h, q).contains(x) == (q.contains(x) && !member_value(h, x)) decreases q.len() {
    if q.len() > 0 { let d = q.drop_last(); lem_flt_in(h, d, x); let f = flt(h, d);
        if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < d.len() { assert(d[i] == x); } }
        if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(q[i] == x); }
        if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(flt(h, q)[i] == x); }
        if q.last() == x { assert(q[q.len() - 1] == x); if !member_value(h, x) { assert(flt(h, q)[f.len() as int] == x); } }
        if flt(h, q).contains(x) && !f.contains(x) { let i = choose|i: int| 0 <= i < flt(h, q).len() && flt(h, q)[i] == x; if i < f.len() { assert(f[i] == x); } }
    } }
pub proof fn lem_flt_distinct(h: H, q: Seq<int>) requires distinct(q) ensures distinct(flt(h, q)) decreases q.len() {
    if q.len() > 0 { let d = q.drop_last(); assert(distinct(d)); lem_flt_distinct(h, d); lem_flt_in(h, d, q.last()); let f = flt(h, d);
        assert(!d.contains(q.last())) by { if d.contains(q.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == q.last(); assert(q[i] == q[q.len() - 1]); } }
        assert forall|i: int, j: int| 0 <= i < j < flt(h, q).len() implies flt(h, q)[i] != flt(h, q)[j] by { if j == f.len() { assert(f.contains(f[i])); } } } }
pub proof fn lem_flt_cat(h: H, a: Seq<int>, b: Seq<int>) ensures flt(h, a + b) =~= flt(h, a) + flt(h, b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_flt_cat(h, a, b.drop_last()); } }
pub open spec fn nz(q: Seq<int>) -> bool { forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] != 0 }
pub open spec fn n0() -> Nav { Nav { found: false, up: 0, down: 0 } }
// the neighbours found are the previous and next selectable elements
pub open spec fn near(f: Seq<int>, sel: int, s: Nav) -> bool { forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == sel ==> s.up == (if i > 0 { f[i - 1] } else { 0 }) && s.down == (if i + 1 < f.len() { f[i + 1] } else { 0 }) }
pub proof fn lem_near(h: H, sel: int, q: Seq<int>) requires distinct(q), nz(q), !member_value(h, sel)
    ensures ({ let s = walk(h, sel, n0(), q); let f = flt(h, q); s.found == q.contains(sel) && near(f, sel, s) && (!s.found ==> s.down == 0 && s.up == (if f.len() > 0 { f.last() } else { 0 })) }), nz(flt(h, q)) decreases q.len() {
    if q.len() > 0 { let d = q.drop_last(); let e = q.last(); assert(distinct(d)); assert(nz(d)) by { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != 0 by { assert(q[i] != 0); } } assert(q[q.len() - 1] != 0); lem_near(h, sel, d); lem_flt_in(h, d, sel); lem_flt_distinct(h, q); lem_flt_distinct(h, d); let f0 = flt(h, d); let f = flt(h, q); let s = walk(h, sel, n0(), q); let s0 = walk(h, sel, n0(), d);
        assert(s == step(h, sel, s0, e)); lem_flt_in(h, q, sel);
        assert(q.contains(sel) == (d.contains(sel) || e == sel)) by { if e == sel { assert(q[q.len() - 1] == sel); } if d.contains(sel) { let i = choose|i: int| 0 <= i < d.len() && d[i] == sel; assert(q[i] == sel); } if q.contains(sel) && e != sel { let i = choose|i: int| 0 <= i < q.len() && q[i] == sel; assert(d[i] == sel); } }
        assert(near(f, sel, s)) by { assert forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == sel implies s.up == (if i > 0 { f[i - 1] } else { 0 }) && s.down == (if i + 1 < f.len() { f[i + 1] } else { 0 }) by {
            if d.contains(sel) { let j = choose|j: int| 0 <= j < f0.len() && f0[j] == sel; assert(f[j] == sel); assert(i == j); assert(f0[i] == sel); }
            else { if i < f0.len() { assert(f0[i] == sel); assert(f0.contains(sel)); } } } } } }
pub proof fn lem_near_some(h: H, sel: int, q: Seq<int>, t: Nav) requires distinct(q), nz(q), !member_value(h, sel), some(h, sel, n0(), q, t), t.found
    ensures ({ let f = flt(h, q); q.contains(sel) && forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == sel ==> t.up == (if i > 0 { f[i - 1] } else { 0 }) && (t.down != 0 ==> i + 1 < f.len() && t.down == f[i + 1]) }) {
    let n = choose|n: int| 0 <= n <= q.len() && t == walk(h, sel, n0(), #[trigger] q.take(n)); let a = q.take(n); let b = q.skip(n); assert(q =~= a + b); lem_flt_cat(h, a, b);
    assert(distinct(a)); assert(nz(a)) by { assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 0 by { assert(q[i] != 0); } } lem_near(h, sel, a); lem_flt_in(h, a, sel); lem_in_cat(a, b, sel); let f = flt(h, q); let fa = flt(h, a); lem_flt_distinct(h, q);
    let j = choose|j: int| 0 <= j < fa.len() && fa[j] == sel; assert(f[j] == sel);
    assert forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == sel implies t.up == (if i > 0 { f[i - 1] } else { 0 }) && (t.down != 0 ==> i + 1 < f.len() && t.down == f[i + 1]) by { assert(i == j); } }
// what is met is part of the document, once
pub proof fn lem_met_in(h: H, coll: Set<int>, x: int, e: int) requires tree(h, x), met(h, coll, x).contains(e) ensures order(h, x).contains(e) decreases rank(h, x), 1int, 0int {
    lem_elem(h, x); lem_order(h, x); let n = kids(h, x).len() as int; assert(seq![x][0] == x); lem_in_cat(seq![x], orders(h, kids(h, x), n), e); 
    if is_cont(h, x) && !coll.contains(x) { lem_in_cat(seq![x], mets(h, coll, x, n), e); if mets(h, coll, x, n).contains(e) { lem_mets_in(h, coll, x, n, e); } } }
pub proof fn lem_mets_in(h: H, coll: Set<int>, x: int, n: int, e: int) requires tree(h, x), 0 <= n <= kids(h, x).len(), mets(h, coll, x, n).contains(e) ensures orders(h, kids(h, x), n).contains(e) decreases rank(h, x), 0int, n {
    if n > 0 { lem_one(h, coll, x, n - 1); lem_kid(h, x, n - 1); lem_in_cat(mets(h, coll, x, n - 1), kmet(h, coll, kids(h, x)[n - 1]), e); lem_in_cat(orders(h, kids(h, x), n - 1), order(h, kids(h, x)[n - 1]), e);
        if mets(h, coll, x, n - 1).contains(e) { lem_mets_in(h, coll, x, n - 1, e); } else { lem_kmet_in(h, coll, kids(h, x)[n - 1], e); } } }
pub proof fn lem_kmet_in(h: H, coll: Set<int>, k: int, e: int) requires tree(h, k), kmet(h, coll, k).contains(e) ensures order(h, k).contains(e) decreases rank(h, k), 2int, 0int {
    lem_elem(h, k); if is_ent(h, k) { lem_val(h, k); let v = val(h, k); lem_ent_order(h, k); assert(seq![k][0] == k); lem_in_cat(seq![k], order(h, v), e); lem_in_cat(seq![k], met(h, coll, v), e); if met(h, coll, v).contains(e) { lem_met_in(h, coll, v, e); } } else { lem_met_in(h, coll, k, e); } }
pub proof fn lem_ent_order(h: H, k: int) requires tree(h, k), is_ent(h, k) ensures order(h, k) =~= seq![k] + order(h, val(h, k)), tree(h, val(h, k)) {
    lem_val(h, k); let v = val(h, k); lem_order(h, k); assert(kids(h, k) =~= seq![v]); assert(kids(h, k)[0] == v); assert(orders(h, kids(h, k), 1) =~= orders(h, kids(h, k), 0) + order(h, v)); assert(orders(h, kids(h, k), 0) =~= Seq::<int>::empty()); }
pub proof fn lem_cat_distinct(a: Seq<int>, b: Seq<int>) requires distinct(a), distinct(b), forall|x: int| !(#[trigger] a.contains(x) && b.contains(x)) ensures distinct(a + b) {
    let c = a + b; assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] != c[j] by { if i < a.len() && j >= a.len() { assert(a[i] == c[i] && b[j - a.len()] == c[j]); assert(a.contains(c[i])); assert(b.contains(c[j])); } else if i >= a.len() { assert(b[i - a.len()] == c[i] && b[j - a.len()] == c[j]); } else { assert(a[i] == c[i] && a[j] == c[j]); } } }
pub proof fn lem_met_distinct(h: H, coll: Set<int>, x: int) requires tree(h, x), distinct(order(h, x)) ensures distinct(met(h, coll, x)) decreases rank(h, x), 1int, 0int {
    lem_elem(h, x); let n = kids(h, x).len() as int; assert(distinct(seq![x]));
    if is_cont(h, x) && !coll.contains(x) { lem_order(h, x); lem_split(seq![x], orders(h, kids(h, x), n)); lem_mets_distinct(h, coll, x, n);
        assert forall|y: int| !(#[trigger] seq![x].contains(y) && mets(h, coll, x, n).contains(y)) by { if seq![x].contains(y) && mets(h, coll, x, n).contains(y) { lem_mets_in(h, coll, x, n, y); } }
        lem_cat_distinct(seq![x], mets(h, coll, x, n)); } }
pub proof fn lem_mets_distinct(h: H, coll: Set<int>, x: int, n: int) requires tree(h, x), 0 <= n <= kids(h, x).len(), distinct(orders(h, kids(h, x), n)) ensures distinct(mets(h, coll, x, n)) decreases rank(h, x), 0int, n {
    if n > 0 { lem_one(h, coll, x, n - 1); lem_kid(h, x, n - 1); let k = kids(h, x)[n - 1]; let a = orders(h, kids(h, x), n - 1); let b = order(h, k); lem_split(a, b); lem_mets_distinct(h, coll, x, n - 1); lem_kmet_distinct(h, coll, k); let c = mets(h, coll, x, n - 1); let d = kmet(h, coll, k);
        assert forall|y: int| !(#[trigger] c.contains(y) && d.contains(y)) by { if c.contains(y) && d.contains(y) { lem_mets_in(h, coll, x, n - 1, y); lem_kmet_in(h, coll, k, y); assert(a.contains(y) && b.contains(y)); } }
        lem_cat_distinct(c, d); } }
pub proof fn lem_kmet_distinct(h: H, coll: Set<int>, k: int) requires tree(h, k), distinct(order(h, k)) ensures distinct(kmet(h, coll, k)) decreases rank(h, k), 2int, 0int {
    lem_elem(h, k); if is_ent(h, k) { lem_val(h, k); let v = val(h, k); lem_ent_order(h, k); lem_split(seq![k], order(h, v)); lem_met_distinct(h, coll, v); assert(distinct(seq![k])); let d = met(h, coll, v);
        assert forall|y: int| !(#[trigger] seq![k].contains(y) && d.contains(y)) by { if seq![k].contains(y) && d.contains(y) { lem_met_in(h, coll, v, y); assert(order(h, v).contains(y)); } }
        lem_cat_distinct(seq![k], d); } else { lem_met_distinct(h, coll, k); } }
// where an element met sits
pub proof fn lem_met_self(h: H, coll: Set<int>, x: int) requires tree(h, x) ensures met(h, coll, x).len() > 0, met(h, coll, x)[0] == x, kmet(h, coll, x).len() > 0, kmet(h, coll, x)[0] == x, met(h, coll, x).contains(x) {
    if is_ent(h, x) { lem_val(h, x); } assert(met(h, coll, x)[0] == x); }
pub proof fn lem_mets_which(h: H, coll: Set<int>, x: int, n: int, e: int) requires tree(h, x), 0 <= n <= kids(h, x).len(), mets(h, coll, x, n).contains(e) ensures exists|i: int| 0 <= i < n && kmet(h, coll, #[trigger] kids(h, x)[i]).contains(e) decreases n {
    if n > 0 { lem_one(h, coll, x, n - 1); lem_in_cat(mets(h, coll, x, n - 1), kmet(h, coll, kids(h, x)[n - 1]), e); if kmet(h, coll, kids(h, x)[n - 1]).contains(e) {} else { lem_mets_which(h, coll, x, n - 1, e); let i = choose|i: int| 0 <= i < n - 1 && kmet(h, coll, #[trigger] kids(h, x)[i]).contains(e); assert(kmet(h, coll, kids(h, x)[i]).contains(e)); } } }
pub proof fn lem_kmet_of(h: H, coll: Set<int>, x: int, i: int, n: int, e: int) requires tree(h, x), 0 <= i < n <= kids(h, x).len(), kmet(h, coll, kids(h, x)[i]).contains(e) ensures mets(h, coll, x, n).contains(e) decreases n {
    lem_one(h, coll, x, n - 1); lem_in_cat(mets(h, coll, x, n - 1), kmet(h, coll, kids(h, x)[n - 1]), e); if i < n - 1 { lem_kmet_of(h, coll, x, i, n - 1, e); } }
pub open spec fn open_cont(h: H, coll: Set<int>, x: int) -> bool { is_cont(h, x) && !coll.contains(x) }
// the children of an open container met are met
pub proof fn lem_met_down(h: H, coll: Set<int>, x: int, p: int, i: int) requires tree(h, x), met(h, coll, x).contains(p), open_cont(h, coll, p), tree(h, p), 0 <= i < kids(h, p).len() ensures met(h, coll, x).contains(kids(h, p)[i]) decreases rank(h, x), 1int {
    let n = kids(h, x).len() as int; lem_elem(h, x); let k = kids(h, p)[i];
    if p == x { lem_kid(h, x, i); lem_met_self(h, coll, k); assert(kmet(h, coll, k).contains(k)); lem_kmet_of(h, coll, x, i, n, k); lem_in_cat(seq![x], mets(h, coll, x, n), k); }
    else { assert(open_cont(h, coll, x)) by { if !open_cont(h, coll, x) { assert(met(h, coll, x) =~= seq![x]); } } lem_in_cat(seq![x], mets(h, coll, x, n), p); assert(!seq![x].contains(p)) by { if seq![x].contains(p) { assert(seq![x][0] == x); } } lem_mets_which(h, coll, x, n, p); let j = choose|j: int| 0 <= j < n && kmet(h, coll, #[trigger] kids(h, x)[j]).contains(p); let c = kids(h, x)[j]; lem_kid(h, x, j);
        if is_ent(h, c) { lem_val(h, c); let v = val(h, c); assert(p != c); lem_in_cat(seq![c], met(h, coll, v), p); assert(!seq![c].contains(p)) by { if seq![c].contains(p) { assert(seq![c][0] == c); } } assert(opens(h, coll, v)); lem_met_down(h, coll, v, p, i); lem_in_cat(seq![c], met(h, coll, v), k); }
        else { lem_met_down(h, coll, c, p, i); }
        lem_kmet_of(h, coll, x, j, n, k); lem_in_cat(seq![x], mets(h, coll, x, n), k); } }
// what is above an element met is met and open
pub proof fn lem_met_up(h: H, coll: Set<int>, x: int, e: int) requires tree(h, x), met(h, coll, x).contains(e), e != x
    ensures met(h, coll, x).contains(par(h, e)), tree(h, par(h, e)), tree(h, e), is_ent(h, par(h, e)) ==> opens(h, coll, e), !is_ent(h, par(h, e)) ==> open_cont(h, coll, par(h, e)), elem(h, par(h, e)), par(h, e) != 0,
        exists|i: int| 0 <= i < kids(h, par(h, e)).len() && #[trigger] kids(h, par(h, e))[i] == e decreases rank(h, x), 1int {
    let n = kids(h, x).len() as int; lem_elem(h, x); lem_met_self(h, coll, x);
    assert(open_cont(h, coll, x)) by { if !open_cont(h, coll, x) { assert(met(h, coll, x) =~= seq![x]); } } lem_in_cat(seq![x], mets(h, coll, x, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_mets_which(h, coll, x, n, e); let j = choose|j: int| 0 <= j < n && kmet(h, coll, #[trigger] kids(h, x)[j]).contains(e); let c = kids(h, x)[j]; lem_kid(h, x, j);
    if e == c { assert(kids(h, par(h, e))[j] == e); }
    else if is_ent(h, c) { lem_val(h, c); lem_elem(h, c); let v = val(h, c); lem_in_cat(seq![c], met(h, coll, v), e); assert(!seq![c].contains(e)) by { if seq![c].contains(e) { assert(seq![c][0] == c); } } lem_met_self(h, coll, c); assert(opens(h, coll, v)); 
        if e == v { assert(kids(h, c)[0] == e); lem_kmet_of(h, coll, x, j, n, c); lem_in_cat(seq![x], mets(h, coll, x, n), c); }
        else { lem_met_up(h, coll, v, e); let p = par(h, e); lem_in_cat(seq![c], met(h, coll, v), p); lem_kmet_of(h, coll, x, j, n, p); lem_in_cat(seq![x], mets(h, coll, x, n), p); } }
    else { lem_met_up(h, coll, c, e); let p = par(h, e); lem_kmet_of(h, coll, x, j, n, p); lem_in_cat(seq![x], mets(h, coll, x, n), p); } }
// opening containers hides nothing; closing one hides only what is below it
pub proof fn lem_met_less(h: H, c1: Set<int>, c2: Set<int>, s: int, x: int, e: int) requires tree(h, x), rooted(h, x), met(h, c1, x).contains(e), forall|y: int| #[trigger] c2.contains(y) ==> c1.contains(y) || (y == s && !anc(h, e, s) && !member_value(h, e)) ensures met(h, c2, x).contains(e) decreases rank(h, x), 1int {
    lem_met_self(h, c2, x); let n = kids(h, x).len() as int; lem_elem(h, x);
    if e != x { lem_met_in(h, c1, x, e); lem_down(h, x, e); assert(open_cont(h, c1, x)) by { if !open_cont(h, c1, x) { assert(met(h, c1, x) =~= seq![x]); assert(seq![x][0] == x); } } assert(!c2.contains(x)); lem_in_cat(seq![x], mets(h, c1, x, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_mets_which(h, c1, x, n, e); let j = choose|j: int| 0 <= j < n && kmet(h, c1, #[trigger] kids(h, x)[j]).contains(e); let c = kids(h, x)[j]; lem_kid(h, x, j); lem_met_self(h, c2, c); lem_depth(h, x); assert(up(h, c, depth(h, x) + 1));
        if e == c { assert(kmet(h, c2, c).contains(e)); } else if is_ent(h, c) { lem_val(h, c); let v = val(h, c); lem_in_cat(seq![c], met(h, c1, v), e); assert(!seq![c].contains(e)) by { if seq![c].contains(e) { assert(seq![c][0] == c); } } lem_depth(h, c); assert(up(h, v, depth(h, c) + 1)); lem_met_less(h, c1, c2, s, v, e);
            if c2.contains(v) { assert(v == s); lem_met_in(h, c1, v, e); lem_down(h, v, e); assert(e == v); }
            assert(opens(h, c2, v)); lem_in_cat(seq![c], met(h, c2, v), e); }
        else { lem_met_less(h, c1, c2, s, c, e); }
        lem_kmet_of(h, c2, x, j, n, e); lem_in_cat(seq![x], mets(h, c2, x, n), e); } }
pub proof fn lem_anc_depth(h: H, x: int, e: int, d: int) requires rooted(h, x), ancd(h, x, e, d) ensures rooted(h, e), depth(h, e) < depth(h, x) decreases d { lem_up(h, x); if par(h, x) != e { lem_anc_depth(h, par(h, x), e, d - 1); } }
pub proof fn lem_anc_less(h: H, x: int, e: int) requires rooted(h, x), anc(h, x, e) ensures depth(h, e) < depth(h, x) { lem_anc_depth(h, x, e, choose|d: int| ancd(h, x, e, d)); }
pub open spec fn before(q: Seq<int>, a: int, b: int) -> bool { exists|i: int, j: int| 0 <= i < j < q.len() && #[trigger] q[i] == a && #[trigger] q[j] == b }
pub proof fn lem_before_in(a: Seq<int>, q: Seq<int>, b: Seq<int>, x: int, y: int) requires before(q, x, y) ensures before(a + q + b, x, y) { let (i, j) = choose|i: int, j: int| 0 <= i < j < q.len() && #[trigger] q[i] == x && #[trigger] q[j] == y; assert((a + q + b)[a.len() + i] == x && (a + q + b)[a.len() + j] == y); }
pub proof fn lem_before_cat(a: Seq<int>, b: Seq<int>, x: int, y: int) requires a.contains(x), b.contains(y) ensures before(a + b, x, y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; let j = choose|j: int| 0 <= j < b.len() && b[j] == y; assert((a + b)[i] == x && (a + b)[a.len() + j] == y); }
// the element found after e inside x comes later, and is not the value of a member; or it is what follows x
pub proof fn lem_next(h: H, coll: Set<int>, x: int, e: int) requires tree(h, x), rooted(h, x), distinct(order(h, x)), met(h, coll, x).contains(e)
    ensures rooted(h, e), next(h, e) == next(h, x) || (before(met(h, coll, x), e, next(h, e)) && !member_value(h, next(h, e))) decreases rank(h, x), 1int {
    lem_met_self(h, coll, x); let n = kids(h, x).len() as int; lem_elem(h, x);
    if e != x { lem_met_in(h, coll, x, e); lem_down(h, x, e); assert(open_cont(h, coll, x)) by { if !open_cont(h, coll, x) { assert(met(h, coll, x) =~= seq![x]); assert(seq![x][0] == x); } } lem_in_cat(seq![x], mets(h, coll, x, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_mets_which(h, coll, x, n, e); let j = choose|j: int| 0 <= j < n && kmet(h, coll, #[trigger] kids(h, x)[j]).contains(e); let c = kids(h, x)[j]; lem_kid(h, x, j); lem_met_self(h, coll, c); lem_depth(h, x); assert(up(h, c, depth(h, x) + 1)); lem_child(h, x, j); lem_up(h, c);
        lem_kids_distinct(h, x); lem_pos(kids(h, x), j, 0); assert(pos(h, c) == j); let q = mets(h, coll, x, n); let m0 = mets(h, coll, x, j); let m1 = mets(h, coll, x, j + 1); let kc = kmet(h, coll, c); lem_one(h, coll, x, j); lem_mets_split(h, coll, x, j + 1, n); let rest = q.skip(m1.len() as int); assert(q =~= m0 + kc + rest); let all = met(h, coll, x); assert(all =~= (seq![x] + m0) + kc + rest);
        assert(next(h, e) == next(h, c) || (before(kc, e, next(h, e)) && !member_value(h, next(h, e)))) by {
            if e != c { if is_ent(h, c) { lem_val(h, c); let v = val(h, c); lem_in_cat(seq![c], met(h, coll, v), e); assert(!seq![c].contains(e)) by { if seq![c].contains(e) { assert(seq![c][0] == c); } } lem_depth(h, c); assert(up(h, v, depth(h, c) + 1)); lem_up(h, v); lem_ent_order(h, c); lem_split(seq![c], order(h, v)); assert(opens(h, coll, v)); lem_next(h, coll, v, e); assert(next(h, v) == next(h, c)); if before(met(h, coll, v), e, next(h, e)) { lem_before_in(seq![c], met(h, coll, v), Seq::empty(), e, next(h, e)); assert(kc =~= seq![c] + met(h, coll, v) + Seq::<int>::empty()); } }
                else { lem_next(h, coll, c, e); } } }
        if next(h, e) != next(h, c) || (before(kc, e, next(h, e)) && !member_value(h, next(h, e))) { lem_before_in(seq![x] + m0, kc, rest, e, next(h, e)); }
        else if j + 1 < n { let d = kids(h, x)[j + 1]; assert(next(h, c) == d); lem_kid(h, x, j + 1); lem_met_self(h, coll, d); assert(kmet(h, coll, d).contains(d)) by { assert(kmet(h, coll, d)[0] == d); } lem_one(h, coll, x, j + 1); lem_mets_split(h, coll, x, j + 2, n); let m2 = mets(h, coll, x, j + 2); let r2 = q.skip(m2.len() as int);
            assert(q =~= m1 + kmet(h, coll, d) + r2); assert(m1.contains(e)) by { lem_in_cat(m0, kc, e); } lem_before_cat(m1, kmet(h, coll, d), e, d); lem_before_in(seq![x], m1 + kmet(h, coll, d), r2, e, d); assert(all =~= seq![x] + (m1 + kmet(h, coll, d)) + r2); }
        else { assert(next(h, c) == next(h, x)); } } }
// the first child of an open container comes after it
pub proof fn lem_first(h: H, coll: Set<int>, x: int, e: int) requires tree(h, x), tree(h, e), distinct(order(h, x)), met(h, coll, x).contains(e), open_cont(h, coll, e), kids(h, e).len() > 0
    ensures before(met(h, coll, x), e, kids(h, e)[0]), !member_value(h, kids(h, e)[0]) decreases rank(h, x), 1int {
    lem_met_self(h, coll, x); let n = kids(h, x).len() as int; lem_elem(h, x); let f = kids(h, e)[0]; lem_kid(h, e, 0); 
    if e == x { lem_met_self(h, coll, f); assert(kmet(h, coll, f).contains(f)) by { assert(kmet(h, coll, f)[0] == f); } lem_kmet_of(h, coll, x, 0, n, f); assert(seq![x][0] == x); lem_before_cat(seq![x], mets(h, coll, x, n), x, f); }
    else { assert(open_cont(h, coll, x)) by { if !open_cont(h, coll, x) { assert(met(h, coll, x) =~= seq![x]); assert(seq![x][0] == x); } } lem_in_cat(seq![x], mets(h, coll, x, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } } lem_mets_which(h, coll, x, n, e); let j = choose|j: int| 0 <= j < n && kmet(h, coll, #[trigger] kids(h, x)[j]).contains(e); let c = kids(h, x)[j]; lem_kid(h, x, j); lem_child(h, x, j); lem_one(h, coll, x, j); lem_mets_split(h, coll, x, j + 1, n); let m0 = mets(h, coll, x, j); let m1 = mets(h, coll, x, j + 1); let kc = kmet(h, coll, c); let rest = mets(h, coll, x, n).skip(m1.len() as int);
        assert(met(h, coll, x) =~= (seq![x] + m0) + kc + rest);
        if is_ent(h, c) { lem_val(h, c); lem_elem(h, c); let v = val(h, c); lem_in_cat(seq![c], met(h, coll, v), e); assert(!seq![c].contains(e)) by { if seq![c].contains(e) { assert(seq![c][0] == c); } } lem_ent_order(h, c); lem_split(seq![c], order(h, v)); assert(opens(h, coll, v)); lem_first(h, coll, v, e); lem_before_in(seq![c], met(h, coll, v), Seq::empty(), e, f); assert(kc =~= seq![c] + met(h, coll, v) + Seq::<int>::empty()); }
        else { lem_first(h, coll, c, e); }
        lem_before_in(seq![x] + m0, kc, rest, e, f); } }
// something later in the sequence is selectable: the selection is not the last
pub proof fn lem_before_flt(h: H, q: Seq<int>, a: int, b: int) requires distinct(q), before(q, a, b), !member_value(h, a), !member_value(h, b) ensures before(flt(h, q), a, b), q.contains(a), q.contains(b) {
    let (i, j) = choose|i: int, j: int| 0 <= i < j < q.len() && #[trigger] q[i] == a && #[trigger] q[j] == b; let x = q.take(j); let y = q.skip(j); assert(q =~= x + y); lem_flt_cat(h, x, y); assert(x[i] == a && y[0] == b); assert(x.contains(a) && y.contains(b)); lem_flt_in(h, x, a); lem_flt_in(h, y, b); lem_before_cat(flt(h, x), flt(h, y), a, b); }
// x is displayed in its own right
pub open spec fn lists(h: H, coll: Set<int>, root: int, x: int) -> bool { met(h, coll, root).contains(x) && !member_value(h, x) }
// where the keys lead from the selection
pub open spec fn around(h: H, t: CurseSimpleOutput) -> bool { let f = flt(h, met(h, t.collapsed, t.data)); lists(h, t.collapsed, t.data, t.select_up) && lists(h, t.collapsed, t.data, t.select_down)
    && forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == t.selection ==> t.select_up == (if i > 0 { f[i - 1] } else { t.selection }) && t.select_down == (if i + 1 < f.len() { f[i + 1] } else { t.selection }) }
// what is known of a displayed selection: everything above is displayed and open, and so are the brothers
pub proof fn lem_around(h: H, coll: Set<int>, r: int, s: int) requires tree(h, r), par(h, r) == 0, distinct(order(h, r)), lists(h, coll, r, s)
    ensures rooted(h, r), rooted(h, s), tree(h, s), elem(h, s), distinct(met(h, coll, r)), nz(met(h, coll, r)), distinct(flt(h, met(h, coll, r))), nz(flt(h, met(h, coll, r))), flt(h, met(h, coll, r)).contains(s),
        forall|i: int| 0 <= i < flt(h, met(h, coll, r)).len() ==> lists(h, coll, r, #[trigger] flt(h, met(h, coll, r))[i]),
        is_ent(h, s) ==> tree(h, val(h, s)) && rooted(h, val(h, s)) && par(h, val(h, s)) == s && !anc(h, s, val(h, s)),
        !anc(h, s, s),
        par(h, s) != 0 ==> is_cont(h, par(h, s)) && !is_ent(h, par(h, s)) && !coll.contains(par(h, s)) && elem(h, par(h, s)) && h.m[par(h, s)].items.len() > 0,
        par(h, s) != 0 && !member_value(h, par(h, s)) ==> lists(h, coll, r, par(h, s)),
        par(h, s) != 0 && member_value(h, par(h, s)) ==> lists(h, coll, r, par(h, par(h, s))),
        par(h, s) == 0 ==> s == r, par(h, s) != 0 ==> par_ok(h, par(h, s)), par(h, s) != 0 && par(h, par(h, s)) != 0 ==> par_ok(h, par(h, par(h, s))), is_ent(h, s) ==> elem(h, val(h, s)),
        next(h, s) != 0 ==> lists(h, coll, r, next(h, s)) && before(flt(h, met(h, coll, r)), s, next(h, s)),
        prev(h, s) != 0 ==> lists(h, coll, r, prev(h, s)),
        open_cont(h, coll, s) && h.m[s].items.len() > 0 ==> lists(h, coll, r, h.m[s].items[0]) && before(flt(h, met(h, coll, r)), s, h.m[s].items[0]),
{
    let q = met(h, coll, r); lem_elem(h, r); assert(up(h, r, 1)); lem_met_distinct(h, coll, r); lem_met_in(h, coll, r, s); lem_down(h, r, s); lem_flt_distinct(h, q); if par(h, s) != 0 { lem_up(h, s); lem_up(h, par(h, s)); if par(h, par(h, s)) != 0 { lem_up(h, par(h, par(h, s))); } } lem_flt_in(h, q, s); lem_up(h, s);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != 0 by { assert(q.contains(q[i])); lem_met_in(h, coll, r, q[i]); lem_order_elem(h, r, q[i]); }
    lem_near(h, s, q); assert forall|i: int| 0 <= i < flt(h, q).len() implies lists(h, coll, r, #[trigger] flt(h, q)[i]) by { assert(flt(h, q).contains(flt(h, q)[i])); lem_flt_in(h, q, flt(h, q)[i]); }
    if anc(h, s, s) { lem_anc_less(h, s, s); }
    if is_ent(h, s) { lem_val(h, s); lem_depth(h, s); assert(up(h, val(h, s), depth(h, s) + 1)); lem_up(h, val(h, s)); if anc(h, s, val(h, s)) { lem_anc_less(h, s, val(h, s)); } }
    if s != r { lem_met_up(h, coll, r, s); let p = par(h, s); if p != r { lem_met_up(h, coll, r, p); let g = par(h, p); if is_ent(h, g) { if g != r { lem_met_up(h, coll, r, g); } } }
        let k = kids(h, p); let i = choose|i: int| 0 <= i < k.len() && #[trigger] k[i] == s; let n = pos(h, s); lem_idx_has(k, s, 0, k.len() as int);
        if 0 < n && n < k.len() { lem_met_down(h, coll, r, p, n - 1); lem_kid(h, p, n - 1); } }
    lem_next(h, coll, r, s);
    if next(h, s) != 0 { lem_up(h, r); assert(next(h, r) == 0); lem_before_flt(h, q, s, next(h, s)); }
    if open_cont(h, coll, s) && h.m[s].items.len() > 0 { lem_first(h, coll, r, s); lem_before_flt(h, q, s, kids(h, s)[0]); }
}
// moving down then up returns to the same element, except that nothing moves at the end
pub proof fn lem_down_up(h: H, a: CurseSimpleOutput, b: CurseSimpleOutput) requires tree(h, a.data), par(h, a.data) == 0, distinct(order(h, a.data)), lists(h, a.collapsed, a.data, a.selection), around(h, a), !a.selectIsLast, b.selection == a.select_down, b.data == a.data, b.collapsed == a.collapsed, around(h, b)
    ensures b.selection == a.selection || b.select_up == a.selection {
    lem_around(h, a.collapsed, a.data, a.selection); let f = flt(h, met(h, a.collapsed, a.data)); let i = choose|i: int| 0 <= i < f.len() && f[i] == a.selection; assert(f[i] == a.selection); if i + 1 < f.len() { assert(f[i + 1] == b.selection); } }
// what the keys do: pages go by siblings, right opens or goes in, left closes or goes out
pub open spec fn holder(h: H, x: int) -> int { let p = par(h, x); if par(h, p) != 0 && is_ent(h, par(h, p)) { par(h, p) } else { p } }
pub open spec fn page_up(h: H, x: int) -> int { if prev(h, x) != 0 { prev(h, x) } else if par(h, x) != 0 && is_cont(h, par(h, x)) { holder(h, x) } else { x } }
pub open spec fn held(h: H, x: int) -> int { if is_ent(h, x) { val(h, x) } else { x } }
pub open spec fn unfolds(h: H, o: CurseSimpleOutput, t: CurseSimpleOutput) -> bool { let x = held(h, o.selection);
    if !is_cont(h, x) { t == o } else if o.collapsed.contains(x) { t.selection == o.selection && t.collapsed =~= o.collapsed.remove(x) }
    else { t.collapsed == o.collapsed && t.selection == (if h.m[x].items.len() == 0 { o.selection } else { h.m[x].items[0] }) } }
pub open spec fn folds(h: H, o: CurseSimpleOutput, t: CurseSimpleOutput) -> bool { let x = held(h, o.selection);
    if par(h, x) != 0 && (!is_cont(h, x) || o.collapsed.contains(x) || h.m[x].items.len() == 0) { t.collapsed == o.collapsed && t.selection == holder(h, o.selection) }
    else { t.selection == o.selection && t.collapsed =~= o.collapsed.insert(x) } }
