// edit distance of the first i items of a and the first j items of b
pub open spec fn lev(a: Seq<int>, b: Seq<int>, i: int, j: int) -> int decreases i + j {
    if i <= 0 { if j <= 0 { 0 } else { j } } else if j <= 0 { i }
    else { imin(imin(lev(a, b, i - 1, j) + 1, lev(a, b, i, j - 1) + 1), lev(a, b, i - 1, j - 1) + (if a[i - 1] == b[j - 1] { 0int } else { 1 })) } }
pub open spec fn dist(a: Seq<int>, b: Seq<int>) -> int { lev(a, b, a.len() as int, b.len() as int) }
pub proof fn lem_lev_bound(a: Seq<int>, b: Seq<int>, i: int, j: int) requires 0 <= i, 0 <= j ensures 0 <= lev(a, b, i, j) <= i + j decreases i + j {
    if i > 0 && j > 0 { lem_lev_bound(a, b, i - 1, j); lem_lev_bound(a, b, i, j - 1); lem_lev_bound(a, b, i - 1, j - 1); } }
pub proof fn lem_lev_eq(a: Seq<int>, i: int) requires 0 <= i ensures lev(a, a, i, i) == 0 decreases i {
    if i > 0 { lem_lev_eq(a, i - 1); lem_lev_bound(a, a, i - 1, i); lem_lev_bound(a, a, i, i - 1); } }
pub proof fn lem_lev_sym(a: Seq<int>, b: Seq<int>, i: int, j: int) requires 0 <= i, 0 <= j ensures lev(a, b, i, j) == lev(b, a, j, i) decreases i + j {
    if i > 0 && j > 0 { lem_lev_sym(a, b, i - 1, j); lem_lev_sym(a, b, i, j - 1); lem_lev_sym(a, b, i - 1, j - 1); } }
pub proof fn lem_lev_zero(a: Seq<int>, b: Seq<int>, i: int, j: int) requires 0 <= i <= a.len(), 0 <= j <= b.len(), lev(a, b, i, j) == 0 ensures a.subrange(0, i) =~= b.subrange(0, j) decreases i + j {
    if i > 0 && j > 0 {
        lem_lev_bound(a, b, i - 1, j); lem_lev_bound(a, b, i, j - 1); lem_lev_bound(a, b, i - 1, j - 1); lem_lev_zero(a, b, i - 1, j - 1);
        assert(a.subrange(0, i) =~= a.subrange(0, i - 1).push(a[i - 1])); assert(b.subrange(0, j) =~= b.subrange(0, j - 1).push(b[j - 1])); } }
// what a table row holds
pub open spec fn lrow(r: P<int>, a: Seq<int>, b: Seq<int>, i: int, n: int) -> bool {
    !r.null && r.o == 0 && r.s.len() == b.len() + 1 && forall|j: int| 0 <= j < n ==> #[trigger] r.s[j] == lev(a, b, i, j) }
pub open spec fn lmat(m: P<P<int>>, a: Seq<int>) -> bool { !m.null && m.o == 0 && m.s.len() == a.len() + 1 }
pub open spec fn sim(a: Seq<int>, b: Seq<int>) -> Dbl { if a.len() == 0 && b.len() == 0 { d_of(1) } else { d_round(32, d_sub(d_of(1), d_round(32, d_div(f_of(dist(a, b)), f_of(imax(a.len() as int, b.len() as int)))))) } }
pub open spec fn f_of(n: int) -> Dbl { d_round(32, d_of(n)) }
pub open spec fn len1(s: Seq<int>) -> int { (s.len() + 1) as int }
// ---- the distance is the least number of single insertions, deletions and substitutions
pub open spec fn del_at(a: Seq<int>, p: int) -> Seq<int> { a.subrange(0, p) + a.subrange(p + 1, a.len() as int) }
pub open spec fn is_del(a: Seq<int>, c: Seq<int>, p: int) -> bool { 0 <= p < a.len() && c =~= del_at(a, p) }
pub open spec fn is_sub(a: Seq<int>, c: Seq<int>, p: int) -> bool { 0 <= p < a.len() && c =~= a.update(p, c[p]) }
pub open spec fn one(a: Seq<int>, c: Seq<int>, p: int) -> bool { is_del(a, c, p) || is_del(c, a, p) || is_sub(a, c, p) }
pub open spec fn can(a: Seq<int>, b: Seq<int>, n: int) -> bool decreases n {
    if n <= 0 { a =~= b } else { exists|c: Seq<int>, p: int| #[trigger] one(a, c, p) && can(c, b, n - 1) } }
pub proof fn lem_pre(a: Seq<int>, c: Seq<int>, b: Seq<int>, i: int, j: int)
    requires 0 <= i <= a.len(), i <= c.len(), 0 <= j <= b.len(), forall|k: int| 0 <= k < i ==> a[k] == c[k] ensures lev(a, b, i, j) == lev(c, b, i, j) decreases i + j {
    if i > 0 && j > 0 { lem_pre(a, c, b, i - 1, j); lem_pre(a, c, b, i, j - 1); lem_pre(a, c, b, i - 1, j - 1); } }
pub proof fn lem_lip(s: Seq<int>, b: Seq<int>, i: int, j: int) requires 0 <= i, 0 <= j ensures lev(s, b, i, j) <= 1 + lev(s, b, i + 1, j) decreases j {
    if j > 0 { lem_lip(s, b, i, j - 1); } }
pub proof fn lem_del1(a: Seq<int>, c: Seq<int>, p: int, b: Seq<int>, i: int, j: int) requires is_del(a, c, p), p <= i < a.len(), 0 <= j <= b.len()
    ensures lev(a, b, i + 1, j) <= 1 + lev(c, b, i, j) decreases i + j {
    if i == p { lem_pre(a, c, b, p, j); }
    else if j > 0 { assert(c[i - 1] == a[i]); lem_del1(a, c, p, b, i - 1, j); lem_del1(a, c, p, b, i, j - 1); lem_del1(a, c, p, b, i - 1, j - 1); } }
pub proof fn lem_del2(a: Seq<int>, c: Seq<int>, p: int, b: Seq<int>, i: int, j: int) requires is_del(a, c, p), p <= i < a.len(), 0 <= j <= b.len()
    ensures lev(c, b, i, j) <= 1 + lev(a, b, i + 1, j) decreases i + j {
    if i == p { lem_pre(a, c, b, p, j); lem_lip(a, b, p, j); }
    else if j > 0 { assert(c[i - 1] == a[i]); lem_del2(a, c, p, b, i - 1, j); lem_del2(a, c, p, b, i, j - 1); lem_del2(a, c, p, b, i - 1, j - 1); } }
pub proof fn lem_sub(a: Seq<int>, c: Seq<int>, p: int, b: Seq<int>, i: int, j: int) requires is_sub(a, c, p), 0 <= i <= a.len(), 0 <= j <= b.len()
    ensures lev(a, b, i, j) <= 1 + lev(c, b, i, j) decreases i + j {
    if i <= p { lem_pre(a, c, b, i, j); }
    else if j > 0 {
        if i == p + 1 { lem_pre(a, c, b, p, j); lem_pre(a, c, b, p, j - 1); lem_sub(a, c, p, b, i, j - 1); }
        else { assert(c[i - 1] == a[i - 1]); lem_sub(a, c, p, b, i - 1, j); lem_sub(a, c, p, b, i, j - 1); lem_sub(a, c, p, b, i - 1, j - 1); } } }
pub proof fn thm_least(a: Seq<int>, b: Seq<int>, n: int) requires can(a, b, n), 0 <= n ensures dist(a, b) <= n decreases n {
    if n == 0 { assert(a =~= b); lem_lev_eq(a, a.len() as int); }
    else {
        let (c, p) = choose|c: Seq<int>, p: int| #[trigger] one(a, c, p) && can(c, b, n - 1);
        thm_least(c, b, n - 1);
        let j = b.len() as int;
        if is_del(a, c, p) { lem_del1(a, c, p, b, a.len() - 1, j); }
        else if is_del(c, a, p) { lem_del2(c, a, p, b, c.len() - 1, j); }
        else { lem_sub(a, c, p, b, a.len() as int, j); }
    } }
pub proof fn lem_one_push(a: Seq<int>, c: Seq<int>, p: int, x: int) requires one(a, c, p) ensures one(a.push(x), c.push(x), p) {
    if is_del(a, c, p) { assert(del_at(a.push(x), p) =~= del_at(a, p).push(x)); }
    else if is_del(c, a, p) { assert(del_at(c.push(x), p) =~= del_at(c, p).push(x)); }
    else { assert(c.push(x) =~= a.push(x).update(p, c.push(x)[p])); } }
pub proof fn lem_can_push(a: Seq<int>, b: Seq<int>, n: int, x: int) requires can(a, b, n), 0 <= n ensures can(a.push(x), b.push(x), n) decreases n {
    if n == 0 { assert(a =~= b); }
    else {
        let (c, p) = choose|c: Seq<int>, p: int| #[trigger] one(a, c, p) && can(c, b, n - 1);
        lem_can_push(c, b, n - 1, x); lem_one_push(a, c, p, x);
        assert(one(a.push(x), c.push(x), p) && can(c.push(x), b.push(x), n - 1)); } }
pub proof fn thm_reached(a: Seq<int>, b: Seq<int>, i: int, j: int) requires 0 <= i <= a.len(), 0 <= j <= b.len()
    ensures can(a.subrange(0, i), b.subrange(0, j), lev(a, b, i, j)) decreases i + j {
    let x = a.subrange(0, i); let y = b.subrange(0, j); let n = lev(a, b, i, j);
    lem_lev_bound(a, b, i, j);
    if i == 0 && j == 0 { assert(x =~= y); }
    else {
        if i > 0 { assert(x =~= a.subrange(0, i - 1).push(a[i - 1])); assert(del_at(x, i - 1) =~= a.subrange(0, i - 1)); }
        if j > 0 { assert(y =~= b.subrange(0, j - 1).push(b[j - 1])); }
        if i > 0 && n == lev(a, b, i - 1, j) + 1 {
            thm_reached(a, b, i - 1, j); lem_lev_bound(a, b, i - 1, j);
            assert(one(x, a.subrange(0, i - 1), i - 1));
        } else if j > 0 && n == lev(a, b, i, j - 1) + 1 {
            thm_reached(a, b, i, j - 1); lem_lev_bound(a, b, i, j - 1);
            lem_can_push(x, b.subrange(0, j - 1), n - 1, b[j - 1]);
            assert(del_at(x.push(b[j - 1]), i) =~= x);
            assert(one(x, x.push(b[j - 1]), i));
        } else {
            let u = a.subrange(0, i - 1);
            thm_reached(a, b, i - 1, j - 1); lem_lev_bound(a, b, i - 1, j - 1);
            lem_can_push(u, b.subrange(0, j - 1), lev(a, b, i - 1, j - 1), b[j - 1]);
            if a[i - 1] != b[j - 1] {
                assert(u.push(b[j - 1]) =~= x.update(i - 1, u.push(b[j - 1])[i - 1]));
                assert(one(x, u.push(b[j - 1]), i - 1));
            }
        }
    } }
// dist(a, b) edits are enough and no fewer are
pub proof fn thm_dist(a: Seq<int>, b: Seq<int>) ensures can(a, b, dist(a, b)), forall|n: int| 0 <= n && #[trigger] can(a, b, n) ==> dist(a, b) <= n {
    thm_reached(a, b, a.len() as int, b.len() as int);
    assert(a.subrange(0, a.len() as int) =~= a); assert(b.subrange(0, b.len() as int) =~= b);
    assert forall|n: int| 0 <= n && #[trigger] can(a, b, n) implies dist(a, b) <= n by { thm_least(a, b, n); } }
