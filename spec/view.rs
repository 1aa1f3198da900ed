// what browsing draws: the elements met, in order, and the row reached
pub struct Vw { pub coll: Set<int>, pub top: int, pub w: int }
pub open spec fn tlen(h: H, x: int) -> int { chars(el_text(h.m[x])) }
pub open spec fn opens(h: H, coll: Set<int>, v: int) -> bool { is_cont(h, v) && !coll.contains(v) && h.m[v].items.len() > 0 }
// width of a value drawn beside its key
pub open spec fn beside(h: H, coll: Set<int>, v: int) -> int { if is_cont(h, v) { if coll.contains(v) { 7 } else { 3 } } else { tlen(h, v) } }
pub open spec fn fin(h: H, v: Vw, x: int, y: int, col: int) -> int decreases rank(h, x), 1int, 0int when tree(h, x) via fin_dec {
    if is_cont(h, x) { if v.coll.contains(x) { adv(v.top, v.w, y, col + 7) } else { adv(v.top, v.w, fins(h, v, x, kids(h, x).len() as int, adv(v.top, v.w, y, col + 1), col + 4), col + 1) } }
    else { adv(v.top, v.w, y, col + tlen(h, x)) } }
pub open spec fn fins(h: H, v: Vw, x: int, n: int, y: int, col: int) -> int decreases rank(h, x), 0int, n when tree(h, x) && n <= kids(h, x).len() via fins_dec {
    if n <= 0 { y } else { kidfin(h, v, kids(h, x)[n - 1], fins(h, v, x, n - 1, y, col), col) } }
pub open spec fn kidfin(h: H, v: Vw, k: int, a: int, col: int) -> int decreases rank(h, k), 2int, 0int when tree(h, k) via kidfin_dec {
    if is_ent(h, k) { if opens(h, v.coll, val(h, k)) { fin(h, v, val(h, k), adv(v.top, v.w, a, col + tlen(h, k) + 2), col + 2) } else { adv(v.top, v.w, a, col + tlen(h, k) + 2 + beside(h, v.coll, val(h, k))) } } else { fin(h, v, k, a, col) } }
#[via_fn]
proof fn kidfin_dec(h: H, v: Vw, k: int, a: int, col: int) { if is_ent(h, k) { lem_val(h, k); } }
#[via_fn]
proof fn fin_dec(h: H, v: Vw, x: int, y: int, col: int) { }
#[via_fn]
proof fn fins_dec(h: H, v: Vw, x: int, n: int, y: int, col: int) { if n > 0 { lem_kid(h, x, n - 1); } }
pub proof fn lem_val(h: H, k: int) requires tree(h, k), is_ent(h, k) ensures tree(h, val(h, k)), 0 < rank(h, val(h, k)) < rank(h, k), link(h, k, val(h, k)), elem(h, val(h, k)), !is_cont(h, k), !is_ent(h, val(h, k)) {
    assert(!is_cont(h, k)); assert(kids(h, k)[0] == val(h, k)); lem_kid(h, k, 0); }
// the elements met while drawing x
pub open spec fn met(h: H, coll: Set<int>, x: int) -> Seq<int> decreases rank(h, x), 1int, 0int when tree(h, x) via met_dec {
    if is_cont(h, x) && !coll.contains(x) { seq![x] + mets(h, coll, x, kids(h, x).len() as int) } else { seq![x] } }
pub open spec fn mets(h: H, coll: Set<int>, x: int, n: int) -> Seq<int> decreases rank(h, x), 0int, n when tree(h, x) && n <= kids(h, x).len() via mets_dec {
    if n <= 0 { Seq::empty() } else { mets(h, coll, x, n - 1) + kmet(h, coll, kids(h, x)[n - 1]) } }
pub open spec fn kmet(h: H, coll: Set<int>, k: int) -> Seq<int> decreases rank(h, k), 2int, 0int when tree(h, k) via kmet_dec {
    if is_ent(h, k) { if opens(h, coll, val(h, k)) { seq![k] + met(h, coll, val(h, k)) } else { seq![k] } } else { met(h, coll, k) } }
#[via_fn]
proof fn kmet_dec(h: H, coll: Set<int>, k: int) { if is_ent(h, k) { lem_val(h, k); } }
#[via_fn]
proof fn met_dec(h: H, coll: Set<int>, x: int) { }
#[via_fn]
proof fn mets_dec(h: H, coll: Set<int>, x: int, n: int) { if n > 0 { lem_kid(h, x, n - 1); } }
// rows only grow, and an upper bound is one
pub open spec fn cols(h: H) -> bool { forall|x: int| elem(h, x) ==> 0 <= #[trigger] tlen(h, x) }
pub proof fn lem_adv(v: Vw, u: Vw, y: int, z: int, n: int) requires v.w >= 0, u.w == 0, y <= z, n >= 0 ensures y <= adv(v.top, v.w, y, n) <= adv(u.top, u.w, z, n) { if v.w > 0 { lem_rows(n, v.w); } }
pub proof fn lem_fin(h: H, v: Vw, u: Vw, x: int, y: int, z: int, col: int) requires tree(h, x), v.w >= 0, u.w == 0, u.coll == v.coll, y <= z, col >= 0, cols(h) ensures y <= fin(h, v, x, y, col) <= fin(h, u, x, z, col), z + col < fin(h, u, x, z, col) decreases rank(h, x), 1int, 0int {
    lem_elem(h, x); lem_adv(v, u, y, z, col + 1); lem_adv(v, u, y, z, col + 7); assert(tlen(h, x) >= 0); lem_adv(v, u, y, z, col + tlen(h, x));
    if is_cont(h, x) && !v.coll.contains(x) { let n = kids(h, x).len() as int; lem_fins(h, v, u, x, n, adv(v.top, v.w, y, col + 1), adv(u.top, u.w, z, col + 1), col + 4); lem_fins(h, u, u, x, n, adv(u.top, u.w, z, col + 1), adv(u.top, u.w, z, col + 1), col + 4);
        lem_adv(v, u, fins(h, v, x, n, adv(v.top, v.w, y, col + 1), col + 4), fins(h, u, x, n, adv(u.top, u.w, z, col + 1), col + 4), col + 1); } }
pub proof fn lem_fins(h: H, v: Vw, u: Vw, x: int, n: int, y: int, z: int, col: int) requires tree(h, x), v.w >= 0, u.w == 0, u.coll == v.coll, y <= z, col >= 0, 0 <= n <= kids(h, x).len(), cols(h) ensures y <= fins(h, v, x, n, y, col) <= fins(h, u, x, n, z, col) decreases rank(h, x), 0int, n {
    if n > 0 { lem_fins(h, v, u, x, n - 1, y, z, col); lem_kid(h, x, n - 1); lem_kidfin(h, v, u, kids(h, x)[n - 1], fins(h, v, x, n - 1, y, col), fins(h, u, x, n - 1, z, col), col); } }
pub proof fn lem_kidfin(h: H, v: Vw, u: Vw, k: int, a: int, b: int, col: int) requires tree(h, k), v.w >= 0, u.w == 0, u.coll == v.coll, a <= b, col >= 0, cols(h) ensures a <= kidfin(h, v, k, a, col) <= kidfin(h, u, k, b, col), b + col < kidfin(h, u, k, b, col) decreases rank(h, k), 2int, 0int {
    lem_elem(h, k); assert(tlen(h, k) >= 0); if is_ent(h, k) { lem_val(h, k); let m = col + tlen(h, k) + 2; assert(tlen(h, val(h, k)) >= 0); lem_adv(v, u, a, b, m); lem_adv(v, u, a, b, m + beside(h, v.coll, val(h, k))); if opens(h, v.coll, val(h, k)) { lem_fin(h, v, u, val(h, k), adv(v.top, v.w, a, m), adv(u.top, u.w, b, m), col + 2); lem_fin(h, u, u, val(h, k), adv(u.top, u.w, b, m), adv(u.top, u.w, b, m), col + 2); } }
    else { lem_fin(h, v, u, k, a, b, col); } }
pub proof fn lem_ent_fin(h: H, v: Vw, u: Vw, k: int, a: int, col: int) requires tree(h, k), is_ent(h, k), v.w >= 0, u.w == 0, u.top == 0, u.coll == v.coll, col >= 0, cols(h)
    ensures !opens(h, v.coll, val(h, k)) ==> kidfin(h, v, k, a, col) == adv(v.top, v.w, a, col + tlen(h, k) + 2 + beside(h, v.coll, val(h, k))) && kidfin(h, u, k, a, col) == a + col + tlen(h, k) + 2 + beside(h, v.coll, val(h, k)) + 1,
        opens(h, v.coll, val(h, k)) ==> kidfin(h, v, k, a, col) == fin(h, v, val(h, k), adv(v.top, v.w, a, col + tlen(h, k) + 2), col + 2),
        forall|y: int| opens(h, v.coll, val(h, k)) && a <= y <= a + col + tlen(h, k) + 3 ==> y + col + 2 < #[trigger] fin(h, u, val(h, k), y, col + 2) <= kidfin(h, u, k, a, col),
        tlen(h, k) >= 0, tlen(h, val(h, k)) >= 0, 0 <= beside(h, v.coll, val(h, k)),
        a <= kidfin(h, u, k, a, col), a + col + tlen(h, k) + 2 < kidfin(h, u, k, a, col) {
    lem_val(h, k); lem_elem(h, k); lem_elem(h, val(h, k)); let m = col + tlen(h, k) + 2; assert(tlen(h, k) >= 0 && tlen(h, val(h, k)) >= 0); lem_kidfin(h, u, u, k, a, a, col);
    if opens(h, v.coll, val(h, k)) { assert forall|y: int| a <= y <= a + m + 1 implies y + col + 2 < #[trigger] fin(h, u, val(h, k), y, col + 2) <= kidfin(h, u, k, a, col) by { lem_fin(h, u, u, val(h, k), y, a + m + 1, col + 2); lem_fin(h, u, u, val(h, k), y, y, col + 2); lem_fin(h, u, u, val(h, k), a + m + 1, a + m + 1, col + 2); } } }
// the rows reached after more children are no less
pub proof fn lem_fins_mono(h: H, u: Vw, x: int, n: int, m: int, y: int, col: int) requires tree(h, x), u.w == 0, col >= 0, 0 <= n <= m <= kids(h, x).len(), cols(h) ensures fins(h, u, x, n, y, col) <= fins(h, u, x, m, y, col) decreases m - n {
    if n < m { lem_fins_mono(h, u, x, n, m - 1, y, col); lem_kid(h, x, m - 1); let a = fins(h, u, x, m - 1, y, col); lem_kidfin(h, u, u, kids(h, x)[m - 1], a, a, col); } }
// looking for the elements around the selection
pub struct Nav { pub found: bool, pub up: int, pub down: int }
pub open spec fn step(h: H, sel: int, s: Nav, i: int) -> Nav {
    if !s.found { if i == sel { Nav { found: true, ..s } } else if !member_value(h, i) { Nav { up: i, ..s } } else { s } }
    else if s.down == 0 && !member_value(h, i) { Nav { down: i, ..s } } else { s } }
pub open spec fn walk(h: H, sel: int, s: Nav, q: Seq<int>) -> Nav decreases q.len() { if q.len() == 0 { s } else { step(h, sel, walk(h, sel, s, q.drop_last()), q.last()) } }
pub proof fn lem_walk_cat(h: H, sel: int, s: Nav, a: Seq<int>, b: Seq<int>) ensures walk(h, sel, s, a + b) == walk(h, sel, walk(h, sel, s, a), b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); lem_walk_cat(h, sel, s, a, b.drop_last()); } }
pub proof fn lem_walk_one(h: H, sel: int, s: Nav, x: int) ensures walk(h, sel, s, seq![x]) == step(h, sel, s, x) { assert(seq![x].drop_last() =~= Seq::<int>::empty()); assert(walk(h, sel, s, seq![x].drop_last()) == s); }
pub proof fn lem_walk_found(h: H, sel: int, tel: int, s: Nav, q: Seq<int>) requires s.found ensures walk(h, sel, s, q) == walk(h, tel, s, q), walk(h, sel, s, q).found decreases q.len() { if q.len() > 0 { lem_walk_found(h, sel, tel, s, q.drop_last()); } }
// stopped somewhere on the way
pub open spec fn some(h: H, sel: int, s: Nav, q: Seq<int>, t: Nav) -> bool { exists|n: int| 0 <= n <= q.len() && t == walk(h, sel, s, #[trigger] q.take(n)) }
pub proof fn lem_some_all(h: H, sel: int, s: Nav, q: Seq<int>) ensures some(h, sel, s, q, walk(h, sel, s, q)) { assert(q.take(q.len() as int) =~= q); }
pub proof fn lem_some_in(h: H, sel: int, s: Nav, a: Seq<int>, b: Seq<int>, c: Seq<int>, t: Nav) requires some(h, sel, walk(h, sel, s, a), b, t) ensures some(h, sel, s, a + b + c, t) {
    let n = choose|n: int| 0 <= n <= b.len() && t == walk(h, sel, walk(h, sel, s, a), #[trigger] b.take(n)); lem_walk_cat(h, sel, s, a, b.take(n)); assert((a + b + c).take(a.len() + n) =~= a + b.take(n)); }
pub proof fn lem_some_found(h: H, sel: int, tel: int, s: Nav, q: Seq<int>, t: Nav) requires s.found, some(h, sel, s, q, t) ensures some(h, tel, s, q, t) {
    let n = choose|n: int| 0 <= n <= q.len() && t == walk(h, sel, s, #[trigger] q.take(n)); lem_walk_found(h, sel, tel, s, q.take(n)); }
pub open spec fn nav(t: CurseSimpleOutput) -> Nav { Nav { found: t.selectFound, up: t.select_up, down: t.select_down } }
pub open spec fn most(t: CurseSimpleOutput) -> Vw { Vw { coll: t.collapsed, top: 0, w: 0 } }
pub open spec fn shown(t: CurseSimpleOutput) -> Vw { Vw { coll: t.collapsed, top: t.scrollTop, w: t.screenSize.first } }
pub open spec fn draw_ok(h: H, hc: Map<int, int>, t: CurseSimpleOutput) -> bool { t.screenSize.first > 0 && cache_ok(h, hc) && cols(h) }
// only the scroll position and the neighbours of the selection change, and scrolling only goes up to a selection above the window
pub open spec fn drawn(o: CurseSimpleOutput, t: CurseSimpleOutput) -> bool { t == (CurseSimpleOutput { scrollTop: t.scrollTop, selectFound: t.selectFound, select_up: t.select_up, select_down: t.select_down, ..o }) && t.scrollTop <= o.scrollTop && (o.selectFound ==> t.scrollTop == o.scrollTop && t.selectFound) }
pub proof fn lem_one(h: H, coll: Set<int>, x: int, n: int) requires tree(h, x), 0 <= n < kids(h, x).len() ensures mets(h, coll, x, n + 1) == mets(h, coll, x, n) + kmet(h, coll, kids(h, x)[n]), forall|v: Vw, y: int, col: int| #[trigger] fins(h, v, x, n + 1, y, col) == kidfin(h, v, kids(h, x)[n], fins(h, v, x, n, y, col), col), tree(h, kids(h, x)[n]) { lem_kid(h, x, n); }
pub proof fn lem_some_none(h: H, sel: int, s: Nav, q: Seq<int>) ensures some(h, sel, s, q, s) { assert(q.take(0) =~= Seq::<int>::empty()); assert(walk(h, sel, s, q.take(0)) == s); }
pub proof fn lem_mets_split(h: H, coll: Set<int>, x: int, n: int, m: int) requires tree(h, x), 0 <= n <= m <= kids(h, x).len() ensures mets(h, coll, x, m) =~= mets(h, coll, x, n) + mets(h, coll, x, m).skip(mets(h, coll, x, n).len() as int), mets(h, coll, x, n).len() <= mets(h, coll, x, m).len() decreases m - n {
    if n < m { lem_mets_split(h, coll, x, n, m - 1); } }
// stopped inside child n of x
pub proof fn lem_some_kid(h: H, coll: Set<int>, x: int, n: int, sel: int, s: Nav, t: Nav) requires tree(h, x), 0 <= n < kids(h, x).len(), some(h, sel, walk(h, sel, s, mets(h, coll, x, n)), kmet(h, coll, kids(h, x)[n]), t)
    ensures some(h, sel, s, mets(h, coll, x, kids(h, x).len() as int), t) {
    let m = kids(h, x).len() as int; lem_one(h, coll, x, n); lem_mets_split(h, coll, x, n + 1, m); let c = mets(h, coll, x, m).skip(mets(h, coll, x, n + 1).len() as int);
    assert(mets(h, coll, x, m) =~= mets(h, coll, x, n) + kmet(h, coll, kids(h, x)[n]) + c);
    lem_some_in(h, sel, s, mets(h, coll, x, n), kmet(h, coll, kids(h, x)[n]), c, t); }
pub proof fn lem_kmet(h: H, coll: Set<int>, x: int, n: int, sel: int, s: Nav) requires tree(h, x), 0 <= n < kids(h, x).len()
    ensures walk(h, sel, s, mets(h, coll, x, n + 1)) == walk(h, sel, walk(h, sel, s, mets(h, coll, x, n)), kmet(h, coll, kids(h, x)[n])) { lem_one(h, coll, x, n); lem_walk_cat(h, sel, s, mets(h, coll, x, n), kmet(h, coll, kids(h, x)[n])); }
// child k is an entry: it is met, then maybe its value with the value standing for a selected entry
pub proof fn lem_ent(h: H, coll: Set<int>, k: int, sel: int, s: Nav) requires tree(h, k), is_ent(h, k)
    ensures some(h, sel, s, kmet(h, coll, k), step(h, sel, s, k)), !opens(h, coll, val(h, k)) ==> walk(h, sel, s, kmet(h, coll, k)) == step(h, sel, s, k) {
    lem_val(h, k); lem_walk_one(h, sel, s, k); let c = kmet(h, coll, k).drop_first(); assert(kmet(h, coll, k) =~= seq![k] + c); lem_walk_cat(h, sel, s, seq![k], c); assert(kmet(h, coll, k).take(1) =~= seq![k]); assert(some(h, sel, s, kmet(h, coll, k), walk(h, sel, s, kmet(h, coll, k).take(1)))); }
pub proof fn lem_ent_open(h: H, coll: Set<int>, k: int, sel: int, tel: int, s: Nav, t: Nav) requires tree(h, k), is_ent(h, k), opens(h, coll, val(h, k)), tel == sel || sel == k, some(h, tel, step(h, sel, s, k), met(h, coll, val(h, k)), t)
    ensures some(h, sel, s, kmet(h, coll, k), t), t == walk(h, tel, step(h, sel, s, k), met(h, coll, val(h, k))) ==> t == walk(h, sel, s, kmet(h, coll, k)) {
    lem_val(h, k); lem_walk_one(h, sel, s, k); let q = met(h, coll, val(h, k)); let s1 = step(h, sel, s, k); let e = Seq::<int>::empty(); assert(kmet(h, coll, k) =~= seq![k] + q + e); assert(kmet(h, coll, k) =~= seq![k] + q);
    if tel != sel { lem_walk_found(h, tel, sel, s1, q); lem_some_found(h, tel, sel, s1, q, t); }
    lem_some_in(h, sel, s, seq![k], q, e, t); lem_walk_cat(h, sel, s, seq![k], q); }
