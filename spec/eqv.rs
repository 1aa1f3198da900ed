// the pairs a comparison found
pub open spec fn two(eqs: Map<int, int>, e: int, f: int) -> bool { (eqs.dom().contains(e) && eqs[e] == f) || (eqs.dom().contains(f) && eqs[f] == e) }
pub open spec fn across(a: ISet<int>, b: ISet<int>, e: int, f: int) -> bool { (a.contains(e) && b.contains(f)) || (b.contains(e) && a.contains(f)) }
pub open spec fn one_to_one(eqs: Map<int, int>) -> bool { forall|e: int, f: int, g: int| #[trigger] two(eqs, e, f) && #[trigger] two(eqs, e, g) ==> f == g }
#[verifier::external_body]
pub proof fn ax_map_seq(m: Map<int, int>) requires m.dom().finite() ensures forall|i: int| 0 <= i < map_seq(m).len() ==> m.dom().contains((#[trigger] map_seq(m)[i]).first) && m[map_seq(m)[i].first] == map_seq(m)[i].second,
    forall|k: int| #[trigger] m.dom().contains(k) ==> at_key(map_seq(m), k, map_seq(m).len() as int) {}
pub open spec fn at_key(c: Seq<Pair<int, int>>, k: int, n: int) -> bool { exists|i: int| 0 <= i < n && (#[trigger] c[i]).first == k }
pub open spec fn es(h: H, x: int) -> ISet<int> { ISet::new(|e: int| order(h, x).contains(e)) }
pub open spec fn l_eqs(o: LObj) -> Map<int, int> { if is_LevenshteinMatrice(o.tag) { o.LevenshteinMatrice_equivalences } else if is_LevenshteinMatriceWithScore(o.tag) && o.LevenshteinMatriceWithScore_equivalentA != 0 && o.LevenshteinMatriceWithScore_equivalentB != 0 { map![o.LevenshteinMatriceWithScore_equivalentA => o.LevenshteinMatriceWithScore_equivalentB] } else { Map::empty() } }
// pairs descend: what is paired is paired with its parent, members' values with members' values
pub open spec fn tie(h: H, eqs: Map<int, int>, e: int, f: int, x: int, y: int) -> bool { (e == x && f == y) || (e == y && f == x) || (member_value(h, e) == member_value(h, f) && (two(eqs, par(h, e), par(h, f)) || (is_ent(h, x) && is_ent(h, y) && ((par(h, e) == x && par(h, f) == y) || (par(h, e) == y && par(h, f) == x))))) }
pub open spec fn tied(h: H, eqs: Map<int, int>, x: int, y: int) -> bool { forall|e: int, f: int| #[trigger] two(eqs, e, f) ==> tie(h, eqs, e, f, x, y) }
pub proof fn lem_no_pair(m: Map<int, int>, e: int) requires m.dom().finite(), forall|i: int| 0 <= i < map_seq(m).len() ==> (#[trigger] map_seq(m)[i]).first != e && map_seq(m)[i].second != e ensures forall|f: int| !#[trigger] two(m, e, f) {
    ax_map_seq(m); let c = map_seq(m);
    assert forall|f: int| !#[trigger] two(m, e, f) by {
        if m.dom().contains(e) { assert(at_key(c, e, c.len() as int)); let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).first == e; assert(c[i].first == e); }
        if m.dom().contains(f) && m[f] == e { assert(at_key(c, f, c.len() as int)); let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).first == f; assert(c[i].second == e); } } }
pub open spec fn no_null(m: Map<int, int>) -> bool { forall|k: int| #[trigger] m.dom().contains(k) ==> k != 0 && m[k] != 0 }
pub proof fn lem_orders_has(h: H, s: Seq<int>, n: int, k: int, e: int) requires 0 <= k < n, order(h, s[k]).contains(e) ensures orders(h, s, n).contains(e) decreases n { lem_in_cat(orders(h, s, n - 1), order(h, s[n - 1]), e); if k < n - 1 { lem_orders_has(h, s, n - 1, k, e); } }
// the pairs of two documents: one to one, across, and respecting their structure
pub open spec fn pairs(h: H, eqs: Map<int, int>, x: int, y: int) -> bool { eqs.dom().finite() && one_to_one(eqs) && tied(h, eqs, x, y) && forall|e: int, f: int| #[trigger] two(eqs, e, f) ==> across(es(h, x), es(h, y), e, f) }
pub proof fn lem_across(h: H, eqs: Map<int, int>, x: int, y: int, e: int, f: int) requires pairs(h, eqs, x, y), tree(h, x), tree(h, y), two(eqs, e, f) ensures elem(h, e), elem(h, f), e != 0, f != 0, across(es(h, x), es(h, y), e, f) {
    assert(across(es(h, x), es(h, y), e, f)); if es(h, x).contains(e) && es(h, y).contains(f) { lem_order_elem(h, x, e); lem_order_elem(h, y, f); } else { lem_order_elem(h, y, e); lem_order_elem(h, x, f); } }
pub proof fn lem_no_null(h: H, eqs: Map<int, int>, x: int, y: int) requires pairs(h, eqs, x, y), tree(h, x), tree(h, y) ensures no_null(eqs) {
    assert forall|k: int| #[trigger] eqs.dom().contains(k) implies k != 0 && eqs[k] != 0 by { assert(two(eqs, k, eqs[k])); lem_across(h, eqs, x, y, k, eqs[k]); } }
// a comparison whose pairs can be asked for
pub open spec fn lm_ok(lm: LM, d: int) -> bool { lm.m.dom().contains(d) && is_LevenshteinMatrice_base(lm.m[d].tag) && d > 0 && l_eqs(lm.m[d]).dom().finite() && no_null(l_eqs(lm.m[d])) }
// two documents with nothing in common
pub open spec fn apart_sets(a: ISet<int>, b: ISet<int>) -> bool { forall|e: int| !(#[trigger] a.contains(e) && b.contains(e)) }
pub open spec fn sizes(h: H, x: int) -> bool { forall|e: int| #[trigger] order(h, x).contains(e) ==> el_text(h.m[e]).len() < 0x3fff_ffff && h.m[e].items.len() <= 0x7fff_ffff }
pub open spec fn doc1(h: H, x: int) -> bool { tree(h, x) && distinct(order(h, x)) && sizes(h, x) }
pub open spec fn docs(h: H, x: int, y: int) -> bool { doc1(h, x) && doc1(h, y) && apart_sets(es(h, x), es(h, y)) }
