pub open spec fn own(h: H, x: int) -> int { if is_ent(h, x) { val(h, x) } else { x } }
// what comes after a displayed element: its first child if it shows one, else what follows it
pub open spec fn succ(h: H, coll: Set<int>, x: int) -> int { let c = own(h, x); if open_cont(h, coll, c) && h.m[c].items.len() > 0 { h.m[c].items[0] } else { next(h, x) } }
pub open spec fn adj(f: Seq<int>, s: int, n: int, end: int) -> bool { forall|i: int| 0 <= i < f.len() && #[trigger] f[i] == s ==> if i + 1 < f.len() { f[i + 1] == n } else { n == end } }
pub proof fn lem_adj_left(a: Seq<int>, b: Seq<int>, s: int, n: int, c: int, end: int) requires adj(a, s, n, c), distinct(a + b), b.len() > 0, b[0] == c, a.contains(s) ensures adj(a + b, s, n, end) {
    assert forall|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i] == s implies if i + 1 < (a + b).len() { (a + b)[i + 1] == n } else { n == end } by { let j = choose|j: int| 0 <= j < a.len() && a[j] == s; assert((a + b)[j] == s); assert(i == j); assert(a[i] == s); } }
pub proof fn lem_adj_right(a: Seq<int>, b: Seq<int>, s: int, n: int, end: int) requires adj(b, s, n, end), distinct(a + b), b.contains(s) ensures adj(a + b, s, n, end) {
    assert forall|i: int| 0 <= i < (a + b).len() && #[trigger] (a + b)[i] == s implies if i + 1 < (a + b).len() { (a + b)[i + 1] == n } else { n == end } by { let j = choose|j: int| 0 <= j < b.len() && b[j] == s; assert((a + b)[a.len() + j] == s); assert(i == a.len() + j); assert(b[j] == s); if j + 1 < b.len() { assert((a + b)[i + 1] == b[j + 1]); } } }
pub proof fn lem_flt_one(h: H, x: int) ensures flt(h, seq![x]) =~= if member_value(h, x) { Seq::empty() } else { seq![x] } { assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(seq![x].last() == x); assert(flt(h, Seq::empty()) =~= Seq::<int>::empty()); }
pub proof fn lem_flt_first(h: H, q: Seq<int>) requires q.len() > 0, !member_value(h, q[0]) ensures flt(h, q).len() > 0, flt(h, q)[0] == q[0] { let r = q.drop_first(); assert(q =~= seq![q[0]] + r); lem_flt_cat(h, seq![q[0]], r); lem_flt_one(h, q[0]); }
pub proof fn lem_succ_mets(h: H, coll: Set<int>, x: int, n: int, s: int) requires tree(h, x), rooted(h, x), distinct(order(h, x)), open_cont(h, coll, x), 0 <= n <= kids(h, x).len(), mets(h, coll, x, n).contains(s), !member_value(h, s)
    ensures adj(flt(h, mets(h, coll, x, n)), s, succ(h, coll, s), if n < kids(h, x).len() { kids(h, x)[n] } else { next(h, x) }), flt(h, mets(h, coll, x, n)).contains(s) decreases rank(h, x), 0int, n {
    if n > 0 { let m = kids(h, x).len() as int; let c = kids(h, x)[n - 1]; let q0 = mets(h, coll, x, n - 1); let k = kmet(h, coll, c); let q = mets(h, coll, x, n); lem_one(h, coll, x, n - 1); lem_kid(h, x, n - 1); lem_elem(h, x); assert(!is_ent(h, x)); assert(!member_value(h, c)); lem_in_cat(q0, k, s); lem_met_self(h, coll, c); lem_steps(h, x, n - 1); lem_child(h, x, n - 1);
        lem_flt_cat(h, q0, k); lem_flt_first(h, k); let a = flt(h, q0); let b = flt(h, k);
        lem_met_distinct(h, coll, x); lem_mets_split(h, coll, x, n, m); let all = met(h, coll, x); assert(all =~= seq![x] + q + mets(h, coll, x, m).skip(q.len() as int)); assert(distinct(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies q[i] != q[j] by { assert(all[i + 1] == q[i] && all[j + 1] == q[j]); } } lem_flt_distinct(h, q); assert(flt(h, q) =~= a + b);
        let end = if n < m { kids(h, x)[n] } else { next(h, x) }; lem_flt_in(h, q, s);
        if q0.contains(s) { lem_succ_mets(h, coll, x, n - 1, s); lem_adj_left(a, b, s, succ(h, coll, s), c, end); } else { lem_succ_kid(h, coll, c, s); lem_adj_right(a, b, s, succ(h, coll, s), end); } }
}
pub proof fn lem_succ_kid(h: H, coll: Set<int>, k: int, s: int) requires tree(h, k), rooted(h, k), distinct(order(h, k)), kmet(h, coll, k).contains(s), !member_value(h, s), !member_value(h, k)
    ensures adj(flt(h, kmet(h, coll, k)), s, succ(h, coll, s), next(h, k)), flt(h, kmet(h, coll, k)).contains(s) decreases rank(h, k), 2int, 0int {
    let f = flt(h, kmet(h, coll, k)); lem_flt_in(h, kmet(h, coll, k), s); lem_elem(h, k);
    if is_ent(h, k) { lem_val(h, k); let v = val(h, k); lem_elem(h, v); lem_flt_one(h, k); lem_in_cat(seq![k], met(h, coll, v), s); assert(own(h, k) == v);
        if opens(h, coll, v) { assert(kmet(h, coll, k) =~= seq![k] + met(h, coll, v)); lem_flt_cat(h, seq![k], met(h, coll, v)); lem_steps_value(h, k); lem_ent_order(h, k); lem_split(seq![k], order(h, v)); let m = kids(h, v).len() as int; let q = mets(h, coll, v, m); assert(met(h, coll, v) =~= seq![v] + q); lem_flt_cat(h, seq![v], q); lem_flt_one(h, v); assert(member_value(h, v)); assert(f =~= seq![k] + flt(h, q)); lem_first_kid(h, coll, v);
            lem_met_distinct(h, coll, v); assert(distinct(f)) by { lem_kmet_distinct(h, coll, k); lem_flt_distinct(h, kmet(h, coll, k)); }
            assert(is_ent(h, k)); if s == k { assert(seq![k][0] == k); assert(adj(seq![k], k, h.m[v].items[0], h.m[v].items[0])); lem_adj_left(seq![k], flt(h, q), k, h.m[v].items[0], h.m[v].items[0], next(h, k)); }
            else { assert(!seq![k].contains(s)) by { if seq![k].contains(s) { assert(seq![k][0] == s); } } assert(met(h, coll, v).contains(s)); lem_in_cat(seq![v], q, s); assert(q.contains(s)) by { if seq![v].contains(s) { assert(seq![v][0] == s); } } lem_succ_mets(h, coll, v, m, s); lem_adj_right(seq![k], flt(h, q), s, succ(h, coll, s), next(h, k)); } }
        else { assert(kmet(h, coll, k) =~= seq![k]); assert(f =~= seq![k]); assert(s == k); assert(adj(f, s, succ(h, coll, s), next(h, k))); } }
    else if open_cont(h, coll, k) { let m = kids(h, k).len() as int; let q = mets(h, coll, k, m); assert(kmet(h, coll, k) =~= seq![k] + q); lem_flt_cat(h, seq![k], q); lem_flt_one(h, k); assert(f =~= seq![k] + flt(h, q)); lem_met_distinct(h, coll, k); lem_flt_distinct(h, met(h, coll, k)); assert(own(h, k) == k);
        if s == k { assert(seq![k][0] == k); if m > 0 { lem_first_kid(h, coll, k); assert(adj(seq![k], k, h.m[k].items[0], h.m[k].items[0])); lem_adj_left(seq![k], flt(h, q), k, h.m[k].items[0], h.m[k].items[0], next(h, k)); } else { assert(q =~= Seq::<int>::empty()); assert(f =~= seq![k]); } }
        else { lem_in_cat(seq![k], q, s); assert(q.contains(s)) by { if seq![k].contains(s) { assert(seq![k][0] == s); } } lem_succ_mets(h, coll, k, m, s); lem_adj_right(seq![k], flt(h, q), s, succ(h, coll, s), next(h, k)); } }
    else { assert(kmet(h, coll, k) =~= seq![k]); lem_flt_one(h, k); assert(f =~= seq![k]); assert(s == k); assert(own(h, k) == k); }
}
pub proof fn lem_first_kid(h: H, coll: Set<int>, v: int) requires tree(h, v), open_cont(h, coll, v), kids(h, v).len() > 0 ensures ({ let f = flt(h, mets(h, coll, v, kids(h, v).len() as int)); f.len() > 0 && f[0] == h.m[v].items[0] }) {
    let m = kids(h, v).len() as int; let q = mets(h, coll, v, m); let c = kids(h, v)[0]; lem_kid(h, v, 0); lem_elem(h, v); lem_one(h, coll, v, 0); lem_mets_split(h, coll, v, 1, m); lem_met_self(h, coll, c); let k = kmet(h, coll, c); assert(mets(h, coll, v, 0) =~= Seq::<int>::empty()); assert(mets(h, coll, v, 1) =~= k); assert(q =~= k + q.skip(k.len() as int)); assert(q[0] == c); assert(!is_ent(h, v)); lem_flt_first(h, q); }
// in the whole document
pub proof fn lem_succ(h: H, coll: Set<int>, r: int, s: int) requires tree(h, r), !is_ent(h, r), par(h, r) == 0, distinct(order(h, r)), lists(h, coll, r, s) ensures adj(flt(h, met(h, coll, r)), s, succ(h, coll, s), 0), flt(h, met(h, coll, r)).contains(s), succ(h, coll, s) != 0 ==> lists(h, coll, r, succ(h, coll, s)), open_cont(h, coll, own(h, s)) && h.m[own(h, s)].items.len() > 0 ==> succ(h, coll, s) != 0 {
    if open_cont(h, coll, own(h, s)) && h.m[own(h, s)].items.len() > 0 { lem_around(h, coll, r, s); let c = own(h, s); lem_elem(h, c); assert(kids(h, c).len() > 0); lem_kid(h, c, 0); lem_elem(h, kids(h, c)[0]); }
    lem_elem(h, r); assert(up(h, r, 1)); lem_around(h, coll, r, s); let f = flt(h, met(h, coll, r)); assert(kmet(h, coll, r) == met(h, coll, r)); lem_up(h, r); lem_succ_kid(h, coll, r, s); let i = choose|i: int| 0 <= i < f.len() && f[i] == s; assert(f[i] == s); if i + 1 < f.len() { assert(lists(h, coll, r, f[i + 1])); } }
