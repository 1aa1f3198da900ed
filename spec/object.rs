// objects and their members
pub open spec fn key(h: H, e: int) -> Seq<int> { h.m[e].JSonObjectEntry_key }
pub open spec fn obj_ok(h: H, o: int) -> bool { elem(h, o) && is_JSonObject(h.m[o].tag) && forall|i: int| 0 <= i < h.m[o].items.len() ==> elem(h, #[trigger] h.m[o].items[i]) && is_ent(h, h.m[o].items[i]) && !is_cont(h, h.m[o].items[i]) && par(h, h.m[o].items[i]) == o }
pub open spec fn key_at(h: H, s: Seq<int>, k: Seq<int>, p: int) -> int decreases s.len() - p { if p >= s.len() { s.len() as int } else if key(h, s[p]) == k { p } else { key_at(h, s, k, p + 1) } }
pub proof fn lem_key_at(h: H, s: Seq<int>, k: Seq<int>, p: int) requires 0 <= p <= s.len() ensures p <= key_at(h, s, k, p) <= s.len(), key_at(h, s, k, p) < s.len() ==> key(h, s[key_at(h, s, k, p)]) == k, forall|j: int| p <= j < key_at(h, s, k, p) ==> key(h, #[trigger] s[j]) != k decreases s.len() - p {
    if p < s.len() && key(h, s[p]) != k { lem_key_at(h, s, k, p + 1); } }
// member e with key k and value c is added to object o at place p
pub open spec fn added(a: H, b: H, o: int, p: int, k: Seq<int>, c: int) -> bool { exists|e: int| added_as(a, b, o, p, k, c, e) }
pub open spec fn added_as(a: H, b: H, o: int, p: int, k: Seq<int>, c: int, e: int) -> bool {
    e > 0 && !a.m.dom().contains(e) && elem(b, e) && is_ent(b, e) && !is_cont(b, e) && key(b, e) == k && val(b, e) == c && par(b, e) == o
    && #[trigger] b.m[e] == b.m[e] && b.m[o] == (JObj { items: a.m[o].items.insert(p, e), ..a.m[o] }) && b.m[c] == (JObj { JSonElement_parent: e, ..a.m[c] })
    && forall|x: int| #[trigger] a.m.dom().contains(x) ==> b.m.dom().contains(x) && (x != o && x != c ==> b.m[x] == a.m[x])
    && forall|x: int| #[trigger] b.m.dom().contains(x) ==> x == e || a.m.dom().contains(x) }
// members in ascending byte order of their keys
pub open spec fn ascending(h: H, s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !str_lt(key(h, #[trigger] s[j]), key(h, #[trigger] s[i])) }
pub proof fn lem_lt_asym(a: Seq<int>, b: Seq<int>) requires str_lt(a, b) ensures !str_lt(b, a) decreases a.len() { if a.len() > 0 && b.len() > 0 && wrap_u8(a[0]) == wrap_u8(b[0]) { lem_lt_asym(a.drop_first(), b.drop_first()); } }
pub proof fn lem_lt_neg(a: Seq<int>, b: Seq<int>, c: Seq<int>) requires str_lt(a, c) ensures str_lt(a, b) || str_lt(b, c) decreases a.len() + b.len() + c.len() {
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && wrap_u8(a[0]) == wrap_u8(b[0]) && wrap_u8(b[0]) == wrap_u8(c[0]) { lem_lt_neg(a.drop_first(), b.drop_first(), c.drop_first()); } }
// a member put at place p, before the first one whose key is not smaller
pub proof fn lem_ascending(a: H, b: H, o: int, p: int, e: int, k: Seq<int>) requires ascending(a, a.m[o].items), 0 <= p <= a.m[o].items.len(), b.m[o].items == a.m[o].items.insert(p, e), key(b, e) == k,
    forall|i: int| 0 <= i < a.m[o].items.len() ==> key(b, #[trigger] a.m[o].items[i]) == key(a, a.m[o].items[i]), forall|i: int| 0 <= i < p ==> str_lt(key(a, #[trigger] a.m[o].items[i]), k), p < a.m[o].items.len() ==> !str_lt(key(a, a.m[o].items[p]), k)
    ensures ascending(b, b.m[o].items) {
    let s = a.m[o].items; let t = b.m[o].items;
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies !str_lt(key(b, #[trigger] t[j]), key(b, #[trigger] t[i])) by {
        let x = if i < p { s[i] } else { s[i - 1] }; let y = if j < p { s[j] } else { s[j - 1] };
        if j == p { assert(t[i] == s[i]); lem_lt_asym(key(a, s[i]), k); }
        else if i == p { assert(t[j] == s[j - 1]); if str_lt(key(a, s[j - 1]), k) { lem_lt_neg(key(a, s[j - 1]), key(a, s[p]), k); } }
        else { assert(t[i] == x && t[j] == y); if i > p { assert(x == s[i - 1]); } else { assert(x == s[i]); } } } }
// where push has put the member
pub open spec fn put_at(a: H, b: H, r: int, p: int, k: Seq<int>, c: int) -> bool { 0 <= p <= a.m[r].items.len() && added(a, b, r, p, k, c) && (forall|i: int| 0 <= i < p ==> str_lt(key(a, #[trigger] a.m[r].items[i]), k)) && (p < a.m[r].items.len() ==> !str_lt(key(a, a.m[r].items[p]), k)) }
