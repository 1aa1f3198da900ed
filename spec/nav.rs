// the next brother, or that of what is above; the previous brother
pub open spec fn pos(h: H, x: int) -> int { idx_from(h.m[par(h, x)].items, x, 0, h.m[par(h, x)].items.len() as int) }
pub open spec fn next(h: H, x: int) -> int decreases depth(h, x) when rooted(h, x) via next_dec {
    if par(h, x) == 0 { 0 } else if is_ent(h, par(h, x)) { next(h, par(h, x)) } else if !is_cont(h, par(h, x)) { 0 } else if pos(h, x) + 1 < h.m[par(h, x)].items.len() { h.m[par(h, x)].items[pos(h, x) + 1] } else { next(h, par(h, x)) } }
#[via_fn]
proof fn next_dec(h: H, x: int) { lem_up(h, x); }
pub open spec fn prev(h: H, x: int) -> int { if par(h, x) == 0 || !is_cont(h, par(h, x)) { 0 } else { let n = pos(h, x); if 0 < n < h.m[par(h, x)].items.len() { h.m[par(h, x)].items[n - 1] } else { 0 } } }
pub proof fn lem_pos(s: Seq<int>, i: int, a: int) requires distinct(s), 0 <= a <= i < s.len() ensures idx_from(s, s[i], a, s.len() as int) == i decreases i - a { if a < i { assert(s[a] != s[i]); lem_pos(s, i, a + 1); } }
pub proof fn lem_kids_distinct(h: H, x: int) requires tree(h, x), distinct(order(h, x)) ensures distinct(kids(h, x)) { let k = kids(h, x);
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies k[i] != k[j] by { lem_child(h, x, j); lem_kid(h, x, i); lem_kid(h, x, j); lem_order(h, k[i]); lem_order(h, k[j]); assert(order(h, k[i])[0] == k[i]); assert(order(h, k[j])[0] == k[j]); assert(orders(h, k, i + 1).contains(k[i])) by { lem_in_cat(orders(h, k, i), order(h, k[i]), k[i]); } lem_orders_in(h, k, i + 1, j, k[i]); assert(!order(h, k[j]).contains(k[i])); } }
// stepping among brothers: next visits them in order and then goes on after the parent, prev is its inverse
pub proof fn lem_steps(h: H, x: int, j: int) requires tree(h, x), rooted(h, x), distinct(order(h, x)), is_cont(h, x), 0 <= j < kids(h, x).len()
    ensures ({ let k = kids(h, x); rooted(h, k[j]) && depth(h, k[j]) == depth(h, x) + 1 && par(h, k[j]) == x && next(h, k[j]) == (if j + 1 < k.len() { k[j + 1] } else { next(h, x) }) && prev(h, k[j]) == (if j > 0 { k[j - 1] } else { 0 }) }) {
    lem_kid(h, x, j); lem_kids_distinct(h, x); lem_pos(kids(h, x), j, 0); lem_up(h, x); lem_depth_kid(h, x, j); }
pub proof fn lem_depth_kid(h: H, x: int, j: int) requires tree(h, x), rooted(h, x), 0 <= j < kids(h, x).len() ensures rooted(h, kids(h, x)[j]), depth(h, kids(h, x)[j]) == depth(h, x) + 1 {
    lem_kid(h, x, j); lem_depth(h, x); let c = kids(h, x)[j]; lem_elem(h, x); assert(up(h, c, depth(h, x) + 1)); lem_up(h, c); }
// what follows the value of a member is what follows the member
pub proof fn lem_steps_value(h: H, e: int) requires tree(h, e), rooted(h, e), is_ent(h, e), !is_cont(h, e) ensures rooted(h, val(h, e)), depth(h, val(h, e)) == depth(h, e) + 1, next(h, val(h, e)) == next(h, e) {
    lem_depth_kid(h, e, 0); lem_kid(h, e, 0); lem_elem(h, e); lem_elem(h, val(h, e)); lem_up(h, val(h, e)); }
// no step leaves the document
pub proof fn lem_inside(h: H, x: int, e: int) requires tree(h, x), rooted(h, x), distinct(order(h, x)), order(h, x).contains(e) ensures rooted(h, e), next(h, e) == next(h, x) || order(h, x).contains(next(h, e)), e != x ==> prev(h, e) == 0 || order(h, x).contains(prev(h, e)) decreases rank(h, x) {
    if e != x { let k = kids(h, x); let n = k.len() as int; lem_order(h, x); lem_in_cat(seq![x], orders(h, k, n), e); assert(!seq![x].contains(e)) by { if seq![x].contains(e) { assert(seq![x][0] == x); } }
        lem_orders_one(h, k, n, e); let j = choose|j: int| 0 <= j < n && order(h, #[trigger] k[j]).contains(e); let c = k[j]; lem_kid(h, x, j); lem_child(h, x, j); lem_depth_kid(h, x, j); lem_inside(h, c, e);
        lem_elem(h, x); lem_elem(h, c); lem_up(h, c); assert(par(h, c) == x); if next(h, e) != next(h, c) { assert(order(h, c).contains(next(h, e))); assert(order(h, x).contains(next(h, e))); } if e != c && prev(h, e) != 0 { assert(order(h, c).contains(prev(h, e))); assert(order(h, x).contains(prev(h, e))); } if is_cont(h, x) { lem_steps(h, x, j); if j + 1 < n { lem_child(h, x, j + 1); lem_kid(h, x, j + 1); lem_order(h, k[j + 1]); assert(order(h, k[j + 1])[0] == k[j + 1]); assert(order(h, k[j + 1]).contains(k[j + 1])); assert(order(h, x).contains(k[j + 1])); } if j > 0 { lem_child(h, x, j - 1); lem_kid(h, x, j - 1); lem_order(h, k[j - 1]); assert(order(h, k[j - 1])[0] == k[j - 1]); assert(order(h, k[j - 1]).contains(k[j - 1])); assert(order(h, x).contains(k[j - 1])); } } else { assert(is_ent(h, x)); assert(next(h, c) == next(h, x)); assert(prev(h, c) == 0); } } }
pub proof fn lem_orders_one(h: H, s: Seq<int>, n: int, e: int) requires 0 <= n <= s.len(), orders(h, s, n).contains(e) ensures exists|j: int| 0 <= j < n && order(h, #[trigger] s[j]).contains(e) decreases n {
    if n > 0 { lem_in_cat(orders(h, s, n - 1), order(h, s[n - 1]), e); if orders(h, s, n - 1).contains(e) { lem_orders_one(h, s, n - 1, e); } } }
