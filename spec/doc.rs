// ---- documents built by the parser
// the elements of a document, in document order
pub open spec fn ord(h: H, x: int, v: V) -> Seq<int> decreases v, 0int, 0int { match v { V::Arr(a) => seq![x] + orda(h, h.m[x].items, a, 0, a.len() as int), V::Obj(k, a) => seq![x] + orde(h, h.m[x].items, a, 0, a.len() as int), _ => seq![x] } }
pub open spec fn orda(h: H, s: Seq<int>, a: Seq<V>, m: int, n: int) -> Seq<int> decreases a, 1int, n - m { if 0 <= m < n <= a.len() { orda(h, s, a, m, n - 1) + ord(h, s[n - 1], a[n - 1]) } else { Seq::empty() } }
pub open spec fn orde(h: H, s: Seq<int>, a: Seq<V>, m: int, n: int) -> Seq<int> decreases a, 1int, n - m { if 0 <= m < n <= a.len() { orde(h, s, a, m, n - 1) + (seq![s[n - 1]] + ord(h, val(h, s[n - 1]), a[n - 1])) } else { Seq::empty() } }
pub open spec fn same_el(a: H, b: H, e: int) -> bool { a.m.dom().contains(e) && b.m.dom().contains(e) && b.m[e] == a.m[e] }
pub open spec fn like(a: H, b: H, x: int) -> bool { a.m.dom().contains(x) && b.m.dom().contains(x) && b.m[x] == (JObj { JSonElement_parent: b.m[x].JSonElement_parent, ..a.m[x] }) }
pub open spec fn kept(a: H, b: H, s: Seq<int>) -> bool { forall|e: int| #[trigger] s.contains(e) ==> same_el(a, b, e) }
pub open spec fn grow(a: H, b: H) -> bool { forall|e: int| #[trigger] a.m.dom().contains(e) ==> b.m.dom().contains(e) && b.m[e] == a.m[e] }
pub proof fn lem_in(a: Seq<int>, b: Seq<int>) ensures forall|x: int| #[trigger] (a + b).contains(x) == (a.contains(x) || b.contains(x)) { assert forall|x: int| #[trigger] (a + b).contains(x) == (a.contains(x) || b.contains(x)) by { lem_in_cat(a, b, x); } }
pub proof fn lem_one_in(x: int) ensures forall|e: int| #[trigger] seq![x].contains(e) == (e == x) { assert(seq![x][0] == x); }
pub proof fn lem_kept_cat(a: H, b: H, p: Seq<int>, q: Seq<int>) requires kept(a, b, p + q) ensures kept(a, b, p), kept(a, b, q) { lem_in(p, q); assert forall|e: int| #[trigger] p.contains(e) implies same_el(a, b, e) by { assert((p + q).contains(e)); } assert forall|e: int| #[trigger] q.contains(e) implies same_el(a, b, e) by { assert((p + q).contains(e)); } }
// a document whose elements did not change, except perhaps the parent of its root
pub proof fn lem_frame(a: H, b: H, x: int, v: V) requires den(a, x, v), like(a, b, x), forall|e: int| #[trigger] ord(a, x, v).contains(e) && e != x ==> same_el(a, b, e), distinct(ord(a, x, v)) ensures den(b, x, v), ord(b, x, v) == ord(a, x, v) decreases v, 0int, 0int {
    lem_one_in(x);
    match v {
        V::Arr(w) => { let s = a.m[x].items; let q = orda(a, s, w, 0, w.len() as int); lem_in(seq![x], q); lem_split(seq![x], q); assert(ord(a, x, v) == seq![x] + q); assert forall|e: int| #[trigger] q.contains(e) implies same_el(a, b, e) by { assert(ord(a, x, v).contains(e)); assert(seq![x].contains(x)); } lem_frame_a(a, b, x, s, w, w.len() as int); }
        V::Obj(k, w) => { let s = a.m[x].items; let q = orde(a, s, w, 0, w.len() as int); lem_in(seq![x], q); lem_split(seq![x], q); assert(ord(a, x, v) == seq![x] + q); assert forall|e: int| #[trigger] q.contains(e) implies same_el(a, b, e) by { assert(ord(a, x, v).contains(e)); assert(seq![x].contains(x)); } lem_frame_e(a, b, x, s, k, w, w.len() as int); }
        _ => { }
    } }
pub proof fn lem_frame_a(a: H, b: H, x: int, s: Seq<int>, w: Seq<V>, n: int)
    requires 0 <= n <= w.len(), s.len() == w.len(), kept(a, b, orda(a, s, w, 0, n)), distinct(orda(a, s, w, 0, n)), forall|i: int| 0 <= i < n ==> den(a, #[trigger] s[i], w[i]) && par(a, s[i]) == x
    ensures orda(b, s, w, 0, n) == orda(a, s, w, 0, n), forall|i: int| 0 <= i < n ==> den(b, #[trigger] s[i], w[i]) && par(b, s[i]) == x decreases w, 1int, n {
    if n > 0 { let c = s[n - 1]; let p = orda(a, s, w, 0, n - 1); let q = ord(a, c, w[n - 1]); lem_in(p, q); lem_split(p, q); lem_ord_x(a, c, w[n - 1]); assert(p + q == orda(a, s, w, 0, n));
        lem_kept_cat(a, b, p, q); assert(q.contains(c)); assert(same_el(a, b, c)); lem_frame_a(a, b, x, s, w, n - 1); lem_frame(a, b, c, w[n - 1]); } }
pub proof fn lem_frame_e(a: H, b: H, x: int, s: Seq<int>, k: Seq<Seq<int>>, w: Seq<V>, n: int)
    requires 0 <= n <= w.len(), s.len() == w.len(), k.len() == w.len(), kept(a, b, orde(a, s, w, 0, n)), distinct(orde(a, s, w, 0, n)), forall|i: int| 0 <= i < n ==> entry(a, #[trigger] s[i], x, k[i]) && den(a, val(a, s[i]), w[i]) && par(a, val(a, s[i])) == s[i]
    ensures orde(b, s, w, 0, n) == orde(a, s, w, 0, n), forall|i: int| 0 <= i < n ==> entry(b, #[trigger] s[i], x, k[i]) && den(b, val(b, s[i]), w[i]) && par(b, val(b, s[i])) == s[i] && val(b, s[i]) == val(a, s[i]) decreases w, 1int, n {
    if n > 0 { let e = s[n - 1]; let c = val(a, e); let p = orde(a, s, w, 0, n - 1); let r = ord(a, c, w[n - 1]); let q = seq![e] + r; lem_in(p, q); lem_split(p, q); lem_in(seq![e], r); lem_split(seq![e], r); lem_one_in(e); lem_ord_x(a, c, w[n - 1]); assert(p + q == orde(a, s, w, 0, n));
        lem_kept_cat(a, b, p, q); lem_kept_cat(a, b, seq![e], r); assert(q.contains(e)); assert(same_el(a, b, e)); assert(q.contains(c)); assert(same_el(a, b, c)); lem_frame_e(a, b, x, s, k, w, n - 1); lem_frame(a, b, c, w[n - 1]); } }
pub proof fn lem_ord_x(h: H, x: int, v: V) ensures ord(h, x, v).contains(x), ord(h, x, v).len() > 0, ord(h, x, v)[0] == x { lem_one_in(x); match v { V::Arr(w) => { lem_in(seq![x], orda(h, h.m[x].items, w, 0, w.len() as int)); } V::Obj(k, w) => { lem_in(seq![x], orde(h, h.m[x].items, w, 0, w.len() as int)); } _ => { assert(ord(h, x, v)[0] == x); } } }
pub proof fn lem_distinct_cat(a: Seq<int>, b: Seq<int>) requires distinct(a), distinct(b), forall|x: int| !(#[trigger] a.contains(x) && b.contains(x)) ensures distinct(a + b) {
    let c = a + b; assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] != c[j] by { if j < a.len() { assert(c[i] == a[i] && c[j] == a[j]); } else if i >= a.len() { assert(c[i] == b[i - a.len()] && c[j] == b[j - a.len()]); } else { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); } } }
// every element of a document is valid
pub proof fn lem_ord_dom(h: H, x: int, v: V) requires den(h, x, v) ensures forall|e: int| #[trigger] ord(h, x, v).contains(e) ==> h.m.dom().contains(e) && elem(h, e) decreases v, 0int, 0int {
    lem_one_in(x); match v { V::Arr(w) => { lem_in(seq![x], orda(h, h.m[x].items, w, 0, w.len() as int)); lem_orda_dom(h, h.m[x].items, w, 0, w.len() as int); } V::Obj(k, w) => { lem_in(seq![x], orde(h, h.m[x].items, w, 0, w.len() as int)); lem_orde_dom(h, h.m[x].items, w, 0, w.len() as int); } _ => { } } }
pub proof fn lem_orda_dom(h: H, s: Seq<int>, w: Seq<V>, m: int, n: int) requires s.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> den(h, #[trigger] s[i], w[i]) ensures forall|e: int| #[trigger] orda(h, s, w, m, n).contains(e) ==> h.m.dom().contains(e) && elem(h, e) decreases w, 1int, n - m {
    if 0 <= m < n <= w.len() { lem_orda_dom(h, s, w, m, n - 1); lem_ord_dom(h, s[n - 1], w[n - 1]); lem_in(orda(h, s, w, m, n - 1), ord(h, s[n - 1], w[n - 1])); } }
pub proof fn lem_orde_dom(h: H, s: Seq<int>, w: Seq<V>, m: int, n: int) requires s.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> elem(h, #[trigger] s[i]) && den(h, val(h, s[i]), w[i]) ensures forall|e: int| #[trigger] orde(h, s, w, m, n).contains(e) ==> h.m.dom().contains(e) && elem(h, e) decreases w, 1int, n - m {
    if 0 <= m < n <= w.len() { lem_orde_dom(h, s, w, m, n - 1); let e = s[n - 1]; lem_ord_dom(h, val(h, e), w[n - 1]); lem_one_in(e); lem_in(seq![e], ord(h, val(h, e), w[n - 1])); lem_in(orde(h, s, w, m, n - 1), seq![e] + ord(h, val(h, e), w[n - 1])); } }
// a document of new elements
pub open spec fn doc(g: H, h: H, x: int, v: V) -> bool { den(h, x, v) && distinct(ord(h, x, v)) && forall|e: int| #[trigger] ord(h, x, v).contains(e) ==> !g.m.dom().contains(e) }
pub open spec fn apart(h: H, x: int, v: V, y: int, w: V) -> bool { forall|e: int| !(#[trigger] ord(h, x, v).contains(e) && ord(h, y, w).contains(e)) }
pub proof fn lem_leaf(a: H, b: H, x: int, v: V, p: int) requires leaf(a, b, x, v, p), !(v is Arr), !(v is Obj) ensures doc(a, b, x, v), grow(a, b) { lem_one_in(x); assert(ord(b, x, v) =~= seq![x]); }
// the heap grew
pub proof fn lem_grow(g: H, a: H, b: H, x: int, v: V) requires doc(g, a, x, v), forall|e: int| #[trigger] ord(a, x, v).contains(e) ==> same_el(a, b, e) ensures doc(g, b, x, v), ord(b, x, v) == ord(a, x, v) { lem_ord_dom(a, x, v); lem_ord_x(a, x, v); assert(same_el(a, b, x)); lem_frame(a, b, x, v); }
// an element is appended to an array
pub proof fn lem_arr(g: H, a: H, b: H, r: int, acc: Seq<V>, c: int, v: V)
    requires grow(g, a), doc(g, a, r, V::Arr(acc)), doc(g, a, c, v), apart(a, r, V::Arr(acc), c, v), b.m.dom().contains(r), b.m[r] == (JObj { items: a.m[r].items.push(c), ..a.m[r] }), like(a, b, c), par(b, c) == r, forall|e: int| #[trigger] a.m.dom().contains(e) && e != r && e != c ==> same_el(a, b, e)
    ensures grow(g, b), par(b, r) == par(a, r), doc(g, b, r, V::Arr(acc.push(v))), ord(b, r, V::Arr(acc.push(v))) == ord(a, r, V::Arr(acc)) + ord(a, c, v) {
    let s = a.m[r].items; let t = b.m[r].items; let n = acc.len() as int; let w = acc.push(v); let p = orda(a, s, acc, 0, n);
    lem_one_in(r); lem_in(seq![r], p); lem_split(seq![r], p); lem_ord_x(a, c, v); lem_ord_x(a, r, V::Arr(acc)); lem_ord_dom(a, r, V::Arr(acc)); lem_ord_dom(a, c, v);
    assert(!ord(a, r, V::Arr(acc)).contains(c)); assert(ord(a, r, V::Arr(acc)) == seq![r] + p); assert forall|e: int| #[trigger] p.contains(e) implies same_el(a, b, e) by { assert(ord(a, r, V::Arr(acc)).contains(e)); assert(seq![r].contains(r)); } lem_frame_a(a, b, r, s, acc, n); lem_frame(a, b, c, v);
    lem_orda_ext(b, s, acc, t, w, n); assert(t[n] == c && w[n] == v); assert(orda(b, t, w, 0, n + 1) == p + ord(a, c, v));
    assert(seq![r] + (p + ord(a, c, v)) =~= (seq![r] + p) + ord(a, c, v)); lem_in(ord(a, r, V::Arr(acc)), ord(a, c, v)); lem_distinct_cat(ord(a, r, V::Arr(acc)), ord(a, c, v));
    assert forall|i: int| 0 <= i < w.len() implies den(b, #[trigger] t[i], w[i]) && par(b, t[i]) == r by { if i < n { assert(t[i] == s[i] && w[i] == acc[i]); } } }
pub proof fn lem_orda_ext(h: H, s: Seq<int>, a: Seq<V>, t: Seq<int>, w: Seq<V>, n: int) requires 0 <= n <= a.len() <= w.len(), s.len() == a.len(), t.len() == w.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]) == t[i] && a[i] == w[i] ensures orda(h, s, a, 0, n) == orda(h, t, w, 0, n) decreases n { if n > 0 { lem_orda_ext(h, s, a, t, w, n - 1); assert(s[n - 1] == t[n - 1]); } }
pub proof fn lem_orde_ext(h: H, s: Seq<int>, a: Seq<V>, t: Seq<int>, w: Seq<V>, m: int, n: int, d: int) requires 0 <= m <= n <= a.len(), 0 <= m + d, n + d <= w.len(), s.len() == a.len(), t.len() == w.len(), forall|i: int| m <= i < n ==> #[trigger] s[i] == t[i + d] && a[i] == w[i + d] ensures orde(h, s, a, m, n) == orde(h, t, w, m + d, n + d) decreases n - m { if n > m { lem_orde_ext(h, s, a, t, w, m, n - 1, d); assert(s[n - 1] == t[n - 1 + d]); } }
pub proof fn lem_orde_cut(h: H, s: Seq<int>, a: Seq<V>, m: int, n: int) requires 0 <= m <= n <= a.len(), s.len() == a.len() ensures orde(h, s, a, 0, n) == orde(h, s, a, 0, m) + orde(h, s, a, m, n) decreases n - m { if n > m { lem_orde_cut(h, s, a, m, n - 1); let z = seq![s[n - 1]] + ord(h, val(h, s[n - 1]), a[n - 1]); assert((orde(h, s, a, 0, m) + orde(h, s, a, m, n - 1)) + z =~= orde(h, s, a, 0, m) + (orde(h, s, a, m, n - 1) + z)); } else { assert(orde(h, s, a, 0, n) + Seq::<int>::empty() =~= orde(h, s, a, 0, n)); } }
// a part is put into, or taken out of, a sequence without repetition
pub proof fn lem_distinct_mid(x: Seq<int>, z: Seq<int>, y: Seq<int>) ensures distinct(x + (z + y)) == (distinct(x + y) && distinct(z) && forall|e: int| !(#[trigger] z.contains(e) && (x + y).contains(e))) {
    lem_in(x, y); lem_in(z, y); lem_in(x, z + y);
    if distinct(x + (z + y)) { lem_split(x, z + y); lem_split(z, y); lem_distinct_cat(x, y); }
    if distinct(x + y) && distinct(z) && forall|e: int| !(#[trigger] z.contains(e) && (x + y).contains(e)) { lem_split(x, y); lem_distinct_cat(z, y); lem_distinct_cat(x, z + y); } }

// the grammar, one step at a time
pub proof fn lem_p_val(t: Seq<int>, p: int, o: O) requires 0 <= p <= t.len() ensures tk_ok(tok(t, p, o), t, p), ({ let k = tok(t, p, o); p_val(t, p, o) == (if k.k == 0 && k.b =~= s"{" { p_obj(t, k.p, o, Seq::empty(), Seq::empty(), 0) } else if k.k == 0 && k.b =~= s"[" { p_arr(t, k.p, o, Seq::empty(), 0) } else { k }) }) { lem_tok(t, p, o); }
pub proof fn lem_p_arr(t: Seq<int>, p: int, o: O, acc: Seq<V>, w: int) ensures ({ let e = p_val(t, p, o); let n = tok(t, e.p, o); p_arr(t, p, o, acc, w) == (if e.k == 0 && acc.len() == 0 && e.b =~= s"]" { a_val(V::Arr(acc), e.p, w + e.w) } else if e.k != 1 || !(p < e.p <= t.len()) { refused() } else if n.k == 0 && n.b =~= s"]" { a_val(V::Arr(acc.push(e.v)), n.p, w + e.w + n.w) } else if n.k == 0 && n.b =~= s"," && e.p < n.p <= t.len() { p_arr(t, n.p, o, acc.push(e.v), w + e.w + n.w) } else { refused() }) }) { }
pub proof fn lem_new_arr(g: H, a: H, b: H, r: int) requires grow(g, a), !a.m.dom().contains(r), b.m =~= a.m.insert(r, b.m[r]), elem(b, r), is_JSonArray(b.m[r].tag), b.m[r].items.len() == 0 ensures doc(g, b, r, V::Arr(Seq::empty())), grow(g, b) { assert(den(b, r, V::Arr(Seq::empty()))); lem_empty(g, a, b, r, V::Arr(Seq::empty())); }
pub proof fn lem_new_obj(g: H, a: H, b: H, r: int) requires grow(g, a), !a.m.dom().contains(r), b.m =~= a.m.insert(r, b.m[r]), elem(b, r), is_JSonObject(b.m[r].tag), b.m[r].items.len() == 0 ensures doc(g, b, r, V::Obj(Seq::empty(), Seq::empty())), grow(g, b), ord(b, r, V::Obj(Seq::empty(), Seq::empty())) =~= seq![r] { assert(den(b, r, V::Obj(Seq::empty(), Seq::empty()))); lem_empty(g, a, b, r, V::Obj(Seq::empty(), Seq::empty())); }
pub proof fn lem_doc(g: H, h: H, x: int, v: V) requires doc(g, h, x, v) ensures elem(h, x), !g.m.dom().contains(x), v is Arr ==> is_JSonArray(h.m[x].tag), v is Obj ==> is_JSonObject(h.m[x].tag), is_JSonPrimitive_string(h.m[x].tag) == (v is Str), v is Str ==> h.m[x].JSonPrimitive_string_value == v->Str_0, ord(h, x, v).contains(x) { lem_ord_x(h, x, v); }
pub proof fn lem_apart(h: H, x: int, v: V, y: int, w: V) requires apart(h, x, v, y, w) ensures x != y { lem_ord_x(h, x, v); lem_ord_x(h, y, w); }
pub proof fn lem_p_obj(t: Seq<int>, p: int, o: O, ks: Seq<Seq<int>>, vs: Seq<V>, w: int) ensures p_obj(t, p, o, ks, vs, w) == ({ let k = tok(t, p, o);
    if k.k == 0 && ks.len() == 0 && k.b =~= s"}" { a_val(V::Obj(ks, vs), k.p, w + k.w) }
    else if k.k != 1 || !(k.v is Str) || !(p < k.p <= t.len()) { refused() } else { let s = k.v->Str_0; let c = tok(t, k.p, o);
    if c.k != 0 || !(c.b =~= s":") || !(k.p < c.p <= t.len()) || (has_key(ks, s) && o.st) { refused() } else {
    let i = key_idx(ks, s, 0); let ks1 = if has_key(ks, s) { ks.remove(i) } else { ks }; let vs1 = if has_key(ks, s) { vs.remove(i) } else { vs };
    let e = p_val(t, c.p, o); if e.k != 1 || !(c.p < e.p <= t.len()) { refused() } else {
    let at = place(ks1, s, o.sort, 0); let ks2 = ks1.insert(at, s); let vs2 = vs1.insert(at, e.v); let w2 = w + k.w + c.w + (if has_key(ks, s) { 1int } else { 0 }) + e.w;
    let n = tok(t, e.p, o);
    if n.k == 0 && n.b =~= s"}" { a_val(V::Obj(ks2, vs2), n.p, w2 + n.w) }
    else if n.k == 0 && n.b =~= s"," && e.p < n.p <= t.len() { p_obj(t, n.p, o, ks2, vs2, w2 + n.w) } else { refused() } } } } }) { }
pub proof fn lem_not_in(g: H, h: H, x: int, v: V, e: int) requires doc(g, h, x, v), g.m.dom().contains(e) ensures !ord(h, x, v).contains(e) { }
// a container just made
pub proof fn lem_empty(g: H, a: H, b: H, r: int, v: V) requires grow(g, a), !a.m.dom().contains(r), b.m =~= a.m.insert(r, b.m[r]), den(b, r, v), v is Arr ==> v->Arr_0.len() == 0, v is Obj ==> v->Obj_1.len() == 0 ensures doc(g, b, r, v), grow(a, b), grow(g, b), ord(b, r, v) =~= seq![r] { lem_one_in(r); }
// what was there before something new was built
pub proof fn lem_fresh(g: H, a: H, b: H, r: int, u: V, c: int, v: V) requires doc(g, a, r, u), grow(g, a), grow(a, b), doc(a, b, c, v) ensures doc(g, b, r, u), doc(g, b, c, v), apart(b, r, u, c, v), ord(b, r, u) == ord(a, r, u), par(b, r) == par(a, r), b.m[r] == a.m[r] {
    lem_ord_dom(a, r, u); lem_ord_x(a, r, u); assert forall|e: int| #[trigger] ord(a, r, u).contains(e) implies same_el(a, b, e) by { assert(a.m.dom().contains(e)); } lem_grow(g, a, b, r, u); 
    assert forall|e: int| !(#[trigger] ord(b, r, u).contains(e) && ord(b, c, v).contains(e)) by { if ord(b, r, u).contains(e) && ord(b, c, v).contains(e) { assert(a.m.dom().contains(e)); } }
    assert forall|e: int| #[trigger] ord(b, c, v).contains(e) implies !g.m.dom().contains(e) by { if g.m.dom().contains(e) { assert(a.m.dom().contains(e)); } } }
pub proof fn lem_since(g: H, a: H, b: H, c: int, v: V) requires grow(g, a), doc(a, b, c, v) ensures doc(g, b, c, v) { assert forall|e: int| #[trigger] ord(b, c, v).contains(e) implies !g.m.dom().contains(e) by { if g.m.dom().contains(e) { assert(a.m.dom().contains(e)); } } }
// the first element of an array is there, then the array is made
pub proof fn lem_first_arr(g: H, a: H, b: H, r: int, c: int, v: V) requires grow(g, a), doc(g, a, c, v), !a.m.dom().contains(r), b.m =~= a.m.insert(r, b.m[r]), elem(b, r), is_JSonArray(b.m[r].tag), b.m[r].items.len() == 0 ensures grow(g, b), doc(g, b, r, V::Arr(Seq::empty())), doc(g, b, c, v), apart(b, r, V::Arr(Seq::empty()), c, v) {
    lem_new_arr(g, a, b, r); assert(den(b, r, V::Arr(Seq::empty()))); lem_empty(g, a, b, r, V::Arr(Seq::empty())); lem_ord_dom(a, c, v); assert forall|e: int| #[trigger] ord(a, c, v).contains(e) implies same_el(a, b, e) by { assert(a.m.dom().contains(e)); } lem_grow(g, a, b, c, v); lem_one_in(r); }
// the outcome of reading a value
pub open spec fn is_val(a: StreamConsumer, b: StreamConsumer, h: H, g: H, p: int, r: int, k: Tk) -> bool {
    k.k != 2 && b.stream.pos == k.p && b.warnings.len() == a.warnings.len() + k.w && (r != 0) == (k.k == 1) && grow(h, g) && (r != 0 ==> doc(h, g, r, k.v) && par(g, r) == p) }
// arrays: acc is built, the token at q is pending (c, or what buf holds)
pub open spec fn arr_inv(a: StreamConsumer, b: StreamConsumer, g: H, h: H, p: int, r: int, c: int, buf: Seq<int>, acc: Seq<V>, q: int) -> bool {
    let t = a.stream.inp; let o = opts(a.params); let k = tok(t, q, o); let w = b.warnings.len() - a.warnings.len() - k.w;
    a.stream.pos <= q <= t.len() && k.k != 2 && tk_ok(k, t, q) && b.stream.pos == k.p && (c != 0) == (k.k == 1) && (c == 0 ==> buf =~= k.b) && grow(g, h)
    && (r == 0) == (acc.len() == 0) && (r != 0 ==> doc(g, h, r, V::Arr(acc)) && par(h, r) == p) && (c != 0 ==> doc(g, h, c, k.v) && (r != 0 ==> apart(h, r, V::Arr(acc), c, k.v)))
    && p_arr(t, a.stream.pos, o, Seq::empty(), 0) == p_arr(t, q, o, acc, w) && !(acc.len() == 0 && k.k == 0 && k.b == s"]") }
// objects: the members read so far
pub open spec fn asc(k: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> !str_lt(#[trigger] k[j], #[trigger] k[i]) }
pub open spec fn obj_inv(a: StreamConsumer, b: StreamConsumer, g: H, h: H, p: int, r: int, ks: Seq<Seq<int>>, vs: Seq<V>) -> bool {
    let t = a.stream.inp; let o = opts(a.params);
    grow(g, h) && (r == 0) == (ks.len() == 0) && ks.len() == vs.len() && (r != 0 ==> doc(g, h, r, V::Obj(ks, vs)) && par(h, r) == p && is_JSonSortedObject(h.m[r].tag) == o.sort && (o.sort ==> asc(ks)))
    && p_obj(t, a.stream.pos, o, Seq::empty(), Seq::empty(), 0) == p_obj(t, b.stream.pos, o, ks, vs, b.warnings.len() - a.warnings.len()) }
pub proof fn lem_obj_ok(g: H, h: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>) requires doc(g, h, r, V::Obj(ks, vs)) ensures obj_ok(h, r), h.m[r].items.len() == ks.len(), ks.len() == vs.len(), forall|i: int| 0 <= i < ks.len() ==> key(h, #[trigger] h.m[r].items[i]) == ks[i], asc(ks) == ascending(h, h.m[r].items) {
    let s = h.m[r].items; assert forall|i: int| 0 <= i < ks.len() implies key(h, #[trigger] s[i]) == ks[i] by { assert(entry(h, s[i], r, ks[i])); }
    assert forall|i: int| 0 <= i < s.len() implies elem(h, #[trigger] s[i]) && is_ent(h, s[i]) && !is_cont(h, s[i]) && par(h, s[i]) == r by { assert(entry(h, s[i], r, ks[i])); }
    if asc(ks) { assert forall|i: int, j: int| 0 <= i < j < s.len() implies !str_lt(key(h, #[trigger] s[j]), key(h, #[trigger] s[i])) by { assert(!str_lt(ks[j], ks[i])); } }
    if ascending(h, s) { assert forall|i: int, j: int| 0 <= i < j < ks.len() implies !str_lt(#[trigger] ks[j], #[trigger] ks[i]) by { assert(!str_lt(key(h, s[j]), key(h, s[i]))); } } }
pub proof fn lem_key_idx(h: H, r: int, ks: Seq<Seq<int>>, k: Seq<int>, p: int) requires h.m[r].items.len() == ks.len(), 0 <= p <= ks.len(), forall|i: int| 0 <= i < ks.len() ==> key(h, #[trigger] h.m[r].items[i]) == ks[i] ensures key_at(h, h.m[r].items, k, p) == key_idx(ks, k, p), p <= key_idx(ks, k, p) <= ks.len(), key_idx(ks, k, p) < ks.len() ==> ks[key_idx(ks, k, p)] == k, forall|j: int| p <= j < key_idx(ks, k, p) ==> #[trigger] ks[j] != k decreases ks.len() - p { if p < ks.len() { assert(key(h, h.m[r].items[p]) == ks[p]); if ks[p] != k { lem_key_idx(h, r, ks, k, p + 1); } } }
pub proof fn lem_has_key(ks: Seq<Seq<int>>, k: Seq<int>, n: int) requires 0 <= n <= ks.len(), n < ks.len() ==> ks[n] == k, forall|j: int| 0 <= j < n ==> #[trigger] ks[j] != k ensures has_key(ks, k) == (n < ks.len()) { if n < ks.len() { assert(ks[n] == k); } }
pub proof fn lem_place(ks: Seq<Seq<int>>, k: Seq<int>, p: int, q: int) requires 0 <= q <= p <= ks.len(), forall|i: int| 0 <= i < p ==> str_lt(#[trigger] ks[i], k), p < ks.len() ==> !str_lt(ks[p], k) ensures place(ks, k, true, q) == p decreases p - q { if q < p { assert(str_lt(ks[q], k)); lem_place(ks, k, p, q + 1); } }
pub proof fn lem_place_end(ks: Seq<Seq<int>>, k: Seq<int>, q: int) requires 0 <= q <= ks.len() ensures place(ks, k, false, q) == ks.len() decreases ks.len() - q { if q < ks.len() { lem_place_end(ks, k, q + 1); } }
// a part in the middle
pub proof fn lem_mid(r: int, x: Seq<int>, z: Seq<int>, y: Seq<int>) ensures distinct(seq![r] + (x + (z + y))) == (distinct(seq![r] + (x + y)) && distinct(z) && forall|e: int| !(#[trigger] z.contains(e) && (seq![r] + (x + y)).contains(e))), forall|e: int| #[trigger] (seq![r] + (x + (z + y))).contains(e) == ((seq![r] + (x + y)).contains(e) || z.contains(e)) {
    let a = seq![r] + x; assert(seq![r] + (x + (z + y)) =~= a + (z + y)); assert(seq![r] + (x + y) =~= a + y); lem_distinct_mid(a, z, y); lem_in(a, z + y); lem_in(z, y); lem_in(a, y); }
pub proof fn lem_orde_put(h: H, s: Seq<int>, vs: Seq<V>, p: int, e: int, v: V) requires 0 <= p <= s.len(), s.len() == vs.len() ensures ({ let n = s.len() as int; orde(h, s, vs, 0, n) == orde(h, s, vs, 0, p) + orde(h, s, vs, p, n) && orde(h, s.insert(p, e), vs.insert(p, v), 0, n + 1) == orde(h, s, vs, 0, p) + ((seq![e] + ord(h, val(h, e), v)) + orde(h, s, vs, p, n)) }) {
    let n = s.len() as int; let t = s.insert(p, e); let w = vs.insert(p, v); lem_orde_cut(h, s, vs, p, n); lem_orde_cut(h, t, w, p + 1, n + 1);
    assert forall|i: int| 0 <= i < p implies (#[trigger] s[i]) == t[i + 0] && vs[i] == w[i + 0] by { } lem_orde_ext(h, s, vs, t, w, 0, p, 0);
    assert forall|i: int| p <= i < n implies (#[trigger] s[i]) == t[i + 1] && vs[i] == w[i + 1] by { } lem_orde_ext(h, s, vs, t, w, p, n, 1);
    let x = orde(h, s, vs, 0, p); let y = orde(h, s, vs, p, n); let z = seq![e] + ord(h, val(h, e), v); assert(t[p] == e && w[p] == v); assert(orde(h, t, w, 0, p + 1) == x + z); assert((x + z) + y =~= x + (z + y)); }
// the members of an object
pub open spec fn memb(h: H, r: int, e: int, k: Seq<int>, v: V) -> bool { entry(h, e, r, k) && den(h, val(h, e), v) && par(h, val(h, e)) == e }
pub open spec fn membs(h: H, r: int, s: Seq<int>, ks: Seq<Seq<int>>, vs: Seq<V>) -> bool { ks.len() == vs.len() && s.len() == vs.len() && forall|i: int| 0 <= i < vs.len() ==> memb(h, r, #[trigger] s[i], ks[i], vs[i]) }
pub proof fn lem_den_obj(h: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>) ensures den(h, r, V::Obj(ks, vs)) == (elem(h, r) && is_JSonObject(h.m[r].tag) && membs(h, r, h.m[r].items, ks, vs)), ord(h, r, V::Obj(ks, vs)) == seq![r] + orde(h, h.m[r].items, vs, 0, vs.len() as int) {
    let s = h.m[r].items; if membs(h, r, s, ks, vs) { assert forall|i: int| 0 <= i < vs.len() implies entry(h, #[trigger] s[i], r, ks[i]) && den(h, val(h, s[i]), vs[i]) && par(h, val(h, s[i])) == s[i] by { assert(memb(h, r, s[i], ks[i], vs[i])); } }
    if den(h, r, V::Obj(ks, vs)) { assert forall|i: int| 0 <= i < vs.len() implies memb(h, r, #[trigger] s[i], ks[i], vs[i]) by { assert(entry(h, s[i], r, ks[i])); } } }
pub proof fn lem_membs_put(h: H, r: int, s: Seq<int>, ks: Seq<Seq<int>>, vs: Seq<V>, p: int, e: int, k: Seq<int>, v: V) requires membs(h, r, s, ks, vs), 0 <= p <= s.len(), memb(h, r, e, k, v) ensures membs(h, r, s.insert(p, e), ks.insert(p, k), vs.insert(p, v)) {
    let t = s.insert(p, e); let k2 = ks.insert(p, k); let w = vs.insert(p, v); assert forall|i: int| 0 <= i < w.len() implies memb(h, r, #[trigger] t[i], k2[i], w[i]) by { if i < p { assert(t[i] == s[i] && w[i] == vs[i] && k2[i] == ks[i]); } else if i > p { assert(t[i] == s[i - 1] && w[i] == vs[i - 1] && k2[i] == ks[i - 1]); } } }
pub proof fn lem_membs_del(h: H, r: int, s: Seq<int>, ks: Seq<Seq<int>>, vs: Seq<V>, p: int) requires membs(h, r, s, ks, vs), 0 <= p < s.len() ensures membs(h, r, s.remove(p), ks.remove(p), vs.remove(p)) {
    let t = s.remove(p); let k2 = ks.remove(p); let w = vs.remove(p); assert forall|i: int| 0 <= i < w.len() implies memb(h, r, #[trigger] t[i], k2[i], w[i]) by { if i < p { assert(t[i] == s[i] && w[i] == vs[i] && k2[i] == ks[i]); } else { assert(t[i] == s[i + 1] && w[i] == vs[i + 1] && k2[i] == ks[i + 1]); } } }
pub proof fn lem_frame_membs(a: H, b: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>) requires den(a, r, V::Obj(ks, vs)), distinct(ord(a, r, V::Obj(ks, vs))), forall|e: int| #[trigger] ord(a, r, V::Obj(ks, vs)).contains(e) && e != r ==> same_el(a, b, e) ensures membs(b, r, a.m[r].items, ks, vs), orde(b, a.m[r].items, vs, 0, vs.len() as int) == orde(a, a.m[r].items, vs, 0, vs.len() as int) {
    let s = a.m[r].items; let n = vs.len() as int; let all = orde(a, s, vs, 0, n); lem_den_obj(a, r, ks, vs); lem_in(seq![r], all); lem_split(seq![r], all); lem_one_in(r); let o0 = ord(a, r, V::Obj(ks, vs));
    assert forall|z: int| #[trigger] all.contains(z) implies same_el(a, b, z) by { assert(o0.contains(z)); assert(seq![r].contains(r)); } 
    assert forall|i: int| 0 <= i < n implies entry(a, #[trigger] s[i], r, ks[i]) && den(a, val(a, s[i]), vs[i]) && par(a, val(a, s[i])) == s[i] by { assert(memb(a, r, s[i], ks[i], vs[i])); }
    lem_frame_e(a, b, r, s, ks, vs, n); assert forall|i: int| 0 <= i < n implies memb(b, r, #[trigger] s[i], ks[i], vs[i]) by { assert(entry(b, s[i], r, ks[i])); } }
// a member is added
pub proof fn lem_obj_add(g: H, a: H, b: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, c: int, v: V, p: int, k: Seq<int>)
    requires grow(g, a), doc(g, a, r, V::Obj(ks, vs)), doc(g, a, c, v), apart(a, r, V::Obj(ks, vs), c, v), 0 <= p <= ks.len(), added(a, b, r, p, k, c)
    ensures doc(g, b, r, V::Obj(ks.insert(p, k), vs.insert(p, v))), grow(g, b), par(b, r) == par(a, r), b.m[r].tag == a.m[r].tag,
        forall|z: int| a.m.dom().contains(z) && #[trigger] ord(b, r, V::Obj(ks.insert(p, k), vs.insert(p, v))).contains(z) ==> ord(a, r, V::Obj(ks, vs)).contains(z) || ord(a, c, v).contains(z) {
    hide(den); hide(ord); hide(orde); hide(membs);
    let e = choose|e: int| added_as(a, b, r, p, k, c, e); let s = a.m[r].items; let n = vs.len() as int; let ks2 = ks.insert(p, k); let w = vs.insert(p, v); let o0 = ord(a, r, V::Obj(ks, vs)); let oc = ord(a, c, v);
    lem_den_obj(a, r, ks, vs); lem_den_obj(b, r, ks2, w); lem_ord_x(a, c, v); lem_ord_x(a, r, V::Obj(ks, vs)); lem_ord_dom(a, r, V::Obj(ks, vs)); lem_ord_dom(a, c, v); assert(s.len() == n && ks.len() == n) by { reveal(membs); }
    assert(o0.contains(r)); assert(oc.contains(c)); assert(!o0.contains(c)); assert(!oc.contains(r)); assert(!o0.contains(e)); assert(!oc.contains(e));
    assert forall|z: int| #[trigger] o0.contains(z) && z != r implies same_el(a, b, z) by { assert(a.m.dom().contains(z)); }
    assert forall|z: int| #[trigger] oc.contains(z) && z != c implies same_el(a, b, z) by { assert(a.m.dom().contains(z)); }
    lem_frame_membs(a, b, r, ks, vs); lem_frame(a, b, c, v); lem_orde_put(b, s, vs, p, e, v); assert(val(b, e) == c); assert(memb(b, r, e, k, v)); lem_membs_put(b, r, s, ks, vs, p, e, k, v);
    let x = orde(b, s, vs, 0, p); let y = orde(b, s, vs, p, n); let z = seq![e] + oc; let o1 = ord(b, r, V::Obj(ks2, w)); assert(w.len() == n + 1); assert(o1 == seq![r] + (x + (z + y))); assert(o0 == seq![r] + (x + y));
    lem_mid(r, x, z, y); lem_one_in(e); lem_in(seq![e], oc); assert forall|i: int| !(#[trigger] seq![e].contains(i) && oc.contains(i)) by { } assert(distinct(seq![e])); lem_distinct_cat(seq![e], oc);
    assert forall|i: int| !(#[trigger] z.contains(i) && o0.contains(i)) by { if z.contains(i) && o0.contains(i) { if i != e { assert(oc.contains(i)); } } } assert(distinct(o1));
    assert forall|i: int| #[trigger] o1.contains(i) implies !g.m.dom().contains(i) by { assert(i == e || o0.contains(i) || oc.contains(i)); if g.m.dom().contains(i) { assert(a.m.dom().contains(i)); } }
    assert forall|i: int| #[trigger] g.m.dom().contains(i) implies b.m.dom().contains(i) && b.m[i] == g.m[i] by { assert(a.m.dom().contains(i)); assert(!o0.contains(i)); assert(!oc.contains(i)); } }
// a member is taken away
pub proof fn lem_obj_del(g: H, a: H, b: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, p: int)
    requires grow(g, a), doc(g, a, r, V::Obj(ks, vs)), 0 <= p < ks.len(), b.m =~= a.m.insert(r, JObj { items: a.m[r].items.remove(p), ..a.m[r] }).remove(a.m[r].items[p])
    ensures doc(g, b, r, V::Obj(ks.remove(p), vs.remove(p))), grow(g, b), par(b, r) == par(a, r), b.m[r].tag == a.m[r].tag, forall|z: int| #[trigger] ord(b, r, V::Obj(ks.remove(p), vs.remove(p))).contains(z) ==> ord(a, r, V::Obj(ks, vs)).contains(z) {
    hide(den); hide(ord); hide(orde); hide(membs);
    let s = a.m[r].items; let t = s.remove(p); let c1 = H { m: a.m.insert(r, JObj { items: t, ..a.m[r] }), ..a }; let n = vs.len() as int; let k2 = ks.remove(p); let w = vs.remove(p); let o0 = ord(a, r, V::Obj(ks, vs)); let e = s[p];
    lem_den_obj(a, r, ks, vs); lem_den_obj(c1, r, k2, w); lem_ord_x(a, r, V::Obj(ks, vs)); lem_ord_dom(a, r, V::Obj(ks, vs)); assert(s.len() == n && ks.len() == n) by { reveal(membs); }
    assert forall|z: int| #[trigger] o0.contains(z) && z != r implies same_el(a, c1, z) by { assert(a.m.dom().contains(z)); }
    lem_frame_membs(a, c1, r, ks, vs); lem_membs_del(c1, r, s, ks, vs, p); lem_orde_put(c1, t, w, p, e, vs[p]); assert(t.insert(p, e) =~= s); assert(w.insert(p, vs[p]) =~= vs); assert(c1.m[r].items == t);
    let x = orde(c1, t, w, 0, p); let y = orde(c1, t, w, p, n - 1); let oc = ord(c1, val(c1, e), vs[p]); let z = seq![e] + oc; let o1 = ord(c1, r, V::Obj(k2, w)); assert(o0 == seq![r] + (x + (z + y))); assert(o1 == seq![r] + (x + y)); lem_mid(r, x, z, y); lem_one_in(e); lem_in(seq![e], oc); assert(z.contains(e)); assert(!o1.contains(e));
    assert(elem(c1, r)); assert(den(c1, r, V::Obj(k2, w))); assert(distinct(o1)); assert forall|i: int| #[trigger] o1.contains(i) implies !g.m.dom().contains(i) by { assert(o0.contains(i)); } assert(doc(g, c1, r, V::Obj(k2, w))); lem_ord_x(c1, r, V::Obj(k2, w)); assert(o0.contains(e)); assert(e != r);
    assert forall|i: int| #[trigger] o1.contains(i) implies same_el(c1, b, i) by { assert(o0.contains(i)); assert(a.m.dom().contains(i)); assert(i != e); } lem_grow(g, c1, b, r, V::Obj(k2, w));
    assert forall|i: int| #[trigger] g.m.dom().contains(i) implies b.m.dom().contains(i) && b.m[i] == g.m[i] by { assert(a.m.dom().contains(i)); assert(!o0.contains(i)); assert(o0.contains(r)); } }
// an element that is not part of it is removed
pub proof fn lem_apart_del(g: H, a: H, b: H, r: int, v: V, e: int) requires grow(g, a), doc(g, a, r, v), !ord(a, r, v).contains(e), !g.m.dom().contains(e), b.m =~= a.m.remove(e) ensures doc(g, b, r, v), grow(g, b), par(b, r) == par(a, r), b.m[r] == a.m[r] { lem_ord_dom(a, r, v); lem_ord_x(a, r, v); lem_grow(g, a, b, r, v); }
pub proof fn lem_not_item(g: H, h: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, c: int, v: V) requires doc(g, h, r, V::Obj(ks, vs)), apart(h, r, V::Obj(ks, vs), c, v) ensures c != r, forall|i: int| 0 <= i < h.m[r].items.len() ==> #[trigger] h.m[r].items[i] != c {
    let s = h.m[r].items; let n = vs.len() as int; lem_apart(h, r, V::Obj(ks, vs), c, v); lem_ord_x(h, c, v); lem_in(seq![r], orde(h, s, vs, 0, n)); assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != c by { lem_orde_item(h, s, vs, n, i); assert(ord(h, r, V::Obj(ks, vs)).contains(s[i])); } }
pub proof fn lem_orde_item(h: H, s: Seq<int>, w: Seq<V>, n: int, i: int) requires s.len() == w.len(), 0 <= i < n <= w.len() ensures orde(h, s, w, 0, n).contains(s[i]) decreases n { let e = s[n - 1]; let z = seq![e] + ord(h, val(h, e), w[n - 1]); lem_in(orde(h, s, w, 0, n - 1), z); if i < n - 1 { lem_orde_item(h, s, w, n - 1, i); } else { assert(z[0] == e); assert(z.contains(e)); } }
pub proof fn lem_asc_remove(ks: Seq<Seq<int>>, i: int) requires asc(ks), 0 <= i < ks.len() ensures asc(ks.remove(i)) { let t = ks.remove(i); assert forall|a: int, b: int| 0 <= a < b < t.len() implies !str_lt(#[trigger] t[b], #[trigger] t[a]) by { let x = if a < i { a } else { a + 1 }; let y = if b < i { b } else { b + 1 }; assert(t[a] == ks[x] && t[b] == ks[y]); } }
pub proof fn lem_asc_empty() ensures asc(Seq::empty()) { }
pub proof fn lem_out(h: H, x: int, v: V, y: int, w: V) requires apart(h, x, v, y, w) ensures !ord(h, x, v).contains(y), x != y { lem_ord_x(h, x, v); lem_ord_x(h, y, w); }
pub proof fn lem_item_in(h: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, i: int) requires den(h, r, V::Obj(ks, vs)), 0 <= i < ks.len() ensures ord(h, r, V::Obj(ks, vs)).contains(h.m[r].items[i]) { let s = h.m[r].items; let n = vs.len() as int; lem_orde_item(h, s, vs, n, i); lem_in(seq![r], orde(h, s, vs, 0, n)); }
pub proof fn lem_contains(g: H, h: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, k: Seq<int>) requires doc(g, h, r, V::Obj(ks, vs)) ensures obj_ok(h, r), h.m[r].items.len() == ks.len(), key_at(h, h.m[r].items, k, 0) == key_idx(ks, k, 0), 0 <= key_idx(ks, k, 0) <= ks.len(), has_key(ks, k) == (key_idx(ks, k, 0) < ks.len()), has_key(ks, k) == (exists|i: int| 0 <= i < h.m[r].items.len() && key(h, #[trigger] h.m[r].items[i]) == k), has_key(ks, k) ==> ord(h, r, V::Obj(ks, vs)).contains(h.m[r].items[key_idx(ks, k, 0)]) {
    lem_obj_ok(g, h, r, ks, vs); lem_key_idx(h, r, ks, k, 0); let n = key_idx(ks, k, 0); lem_has_key(ks, k, n); if n < ks.len() { assert(key(h, h.m[r].items[n]) == ks[n]); lem_item_in(h, r, ks, vs, n); } }
pub proof fn lem_put_at(g: H, a: H, b: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, p: int, k: Seq<int>, c: int) requires doc(g, a, r, V::Obj(ks, vs)), put_at(a, b, r, p, k, c) ensures place(ks, k, true, 0) == p, 0 <= p <= ks.len() {
    lem_obj_ok(g, a, r, ks, vs); assert forall|i: int| 0 <= i < p implies str_lt(#[trigger] ks[i], k) by { assert(key(a, a.m[r].items[i]) == ks[i]); } lem_place(ks, k, p, 0); }
// ---- what is built is a tree, listed in document order
pub open spec fn hgt(v: V) -> int decreases v { match v { V::Arr(a) => 1 + hgts(a, a.len() as int), V::Obj(k, a) => 2 + hgts(a, a.len() as int), _ => 1 } }
pub open spec fn hgts(a: Seq<V>, n: int) -> int decreases a, n { if 0 < n <= a.len() { let x = hgts(a, n - 1); let y = hgt(a[n - 1]); if x < y { y } else { x } } else { 0 } }
pub proof fn lem_hgts(a: Seq<V>, n: int, i: int) requires 0 <= i < n <= a.len() ensures hgts(a, n) >= hgt(a[i]) decreases n { if i < n - 1 { lem_hgts(a, n - 1, i); } }
pub proof fn lem_hgt(v: V) ensures hgt(v) > 0 decreases v { match v { V::Arr(a) => { lem_hgts0(a, a.len() as int); } V::Obj(k, a) => { lem_hgts0(a, a.len() as int); } _ => { } } }
pub proof fn lem_hgts0(a: Seq<V>, n: int) ensures hgts(a, n) >= 0 decreases n { if 0 < n <= a.len() { lem_hgts0(a, n - 1); } }
pub proof fn lem_den_wf(h: H, x: int, v: V) requires den(h, x, v) ensures wf(h, x, hgt(v)) decreases v {
    lem_hgt(v); match v {
        V::Arr(a) => { let s = h.m[x].items; assert forall|i: int| 0 <= i < kids(h, x).len() implies wf(h, #[trigger] kids(h, x)[i], hgt(v) - 1) && link(h, x, kids(h, x)[i]) by { lem_hgts(a, a.len() as int, i); assert(den(h, s[i], a[i])); lem_den_wf(h, s[i], a[i]); lem_wf_mono(h, s[i], hgt(a[i]), hgt(v) - 1); lem_den_kind(h, s[i], a[i]); } }
        V::Obj(k, a) => { let s = h.m[x].items; assert forall|i: int| 0 <= i < kids(h, x).len() implies wf(h, #[trigger] kids(h, x)[i], hgt(v) - 1) && link(h, x, kids(h, x)[i]) by { lem_hgts(a, a.len() as int, i); assert(entry(h, s[i], x, k[i])); let c = val(h, s[i]); lem_den_wf(h, c, a[i]); lem_wf_mono(h, c, hgt(a[i]), hgt(v) - 2); lem_den_kind(h, c, a[i]); assert(kids(h, s[i]) == seq![c]); } }
        _ => { lem_den_kind(h, x, v); } } }
pub proof fn lem_den_kind(h: H, x: int, v: V) requires den(h, x, v) ensures !is_ent(h, x), is_cont(h, x) == (v is Arr || v is Obj), v is Arr ==> !is_JSonObject(h.m[x].tag) { }
pub proof fn lem_den_order(h: H, x: int, v: V) requires den(h, x, v) ensures tree(h, x), order(h, x) =~= ord(h, x, v) decreases v, 0int, 0int {
    lem_den_wf(h, x, v); lem_order(h, x); lem_den_kind(h, x, v); match v {
        V::Arr(a) => { let s = h.m[x].items; lem_den_orda(h, s, a, a.len() as int); }
        V::Obj(k, a) => { let s = h.m[x].items; assert forall|i: int| 0 <= i < a.len() implies memb(h, x, #[trigger] s[i], k[i], a[i]) by { assert(entry(h, s[i], x, k[i])); } lem_den_orde(h, x, s, k, a, a.len() as int); }
        _ => { } } }
pub proof fn lem_den_orda(h: H, s: Seq<int>, a: Seq<V>, n: int) requires 0 <= n <= a.len(), s.len() == a.len(), forall|i: int| 0 <= i < n ==> den(h, #[trigger] s[i], a[i]) ensures orders(h, s, n) =~= orda(h, s, a, 0, n) decreases a, 1int, n { if n > 0 { lem_den_orda(h, s, a, n - 1); lem_den_order(h, s[n - 1], a[n - 1]); } }
pub proof fn lem_den_orde(h: H, x: int, s: Seq<int>, k: Seq<Seq<int>>, a: Seq<V>, n: int) requires 0 <= n <= a.len(), s.len() == a.len(), k.len() == a.len(), forall|i: int| 0 <= i < n ==> memb(h, x, #[trigger] s[i], k[i], a[i]) ensures orders(h, s, n) =~= orde(h, s, a, 0, n) decreases a, 1int, n {
    if n > 0 { lem_den_orde(h, x, s, k, a, n - 1); let e = s[n - 1]; let c = val(h, e); assert(memb(h, x, e, k[n - 1], a[n - 1])); lem_den_order(h, c, a[n - 1]); lem_den_wf(h, c, a[n - 1]); lem_den_kind(h, c, a[n - 1]); assert(kids(h, e) == seq![c]); assert(wf(h, e, hgt(a[n - 1]) + 1)) by { assert forall|i: int| 0 <= i < kids(h, e).len() implies wf(h, #[trigger] kids(h, e)[i], hgt(a[n - 1])) && link(h, e, kids(h, e)[i]) by { } lem_hgt(a[n - 1]); } lem_order(h, e); assert(orders(h, seq![c], 1) =~= order(h, c)) by { assert(orders(h, seq![c], 0) =~= Seq::empty()); } } }
// a parsed document is a tree without sharing, its root has no parent
pub proof fn lem_parsed(g: H, h: H, x: int, v: V) requires doc(g, h, x, v), par(h, x) == 0 ensures tree(h, x), rooted(h, x), distinct(order(h, x)), depth(h, x) == 1 { lem_den_order(h, x, v); assert(up(h, x, 1)); lem_up(h, x); }
// ---- what a text can denote: members have different keys, in ascending order when they are sorted
pub open spec fn v_ok(v: V, sort: bool) -> bool decreases v { match v { V::Arr(a) => forall|i: int| 0 <= i < a.len() ==> v_ok(#[trigger] a[i], sort), V::Obj(k, a) => uniq(k) && k.len() == a.len() && (sort ==> asc(k)) && forall|i: int| 0 <= i < a.len() ==> v_ok(#[trigger] a[i], sort), _ => true } }
pub open spec fn vs_ok(a: Seq<V>, sort: bool) -> bool { forall|i: int| 0 <= i < a.len() ==> v_ok(#[trigger] a[i], sort) }
pub open spec fn uniq(k: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < k.len() ==> #[trigger] k[i] != #[trigger] k[j] }
pub proof fn lem_p_val_ok(t: Seq<int>, p: int, o: O) requires 0 <= p <= t.len(), p_val(t, p, o).k == 1 ensures v_ok(p_val(t, p, o).v, o.sort) decreases t.len() - p, 0int {
    lem_p_val(t, p, o); let k = tok(t, p, o); if k.k == 0 && k.b =~= s"{" { lem_p_obj_ok(t, k.p, o, Seq::empty(), Seq::empty(), 0); } else if k.k == 0 && k.b =~= s"[" { lem_p_arr_ok(t, k.p, o, Seq::empty(), 0); } }
pub proof fn lem_p_arr_ok(t: Seq<int>, p: int, o: O, acc: Seq<V>, w: int) requires 0 <= p <= t.len(), p_arr(t, p, o, acc, w).k == 1, vs_ok(acc, o.sort) ensures v_ok(p_arr(t, p, o, acc, w).v, o.sort) decreases t.len() - p, 1int {
    lem_p_arr(t, p, o, acc, w); let e = p_val(t, p, o); if e.k == 1 && p < e.p <= t.len() { lem_p_val_ok(t, p, o); let n = tok(t, e.p, o); let a2 = acc.push(e.v); assert(vs_ok(a2, o.sort)); assert(v_ok(V::Arr(a2), o.sort)); if !(n.k == 0 && n.b =~= s"]") && n.k == 0 && n.b =~= s"," && e.p < n.p <= t.len() { lem_p_arr_ok(t, n.p, o, a2, w + e.w + n.w); } } }
pub proof fn lem_uniq_remove(k: Seq<Seq<int>>, i: int) requires uniq(k), 0 <= i < k.len() ensures uniq(k.remove(i)), !k.remove(i).contains(k[i]) { let t = k.remove(i);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] != #[trigger] t[b] by { let x = if a < i { a } else { a + 1 }; let y = if b < i { b } else { b + 1 }; assert(t[a] == k[x] && t[b] == k[y]); }
    if t.contains(k[i]) { let a = choose|a: int| 0 <= a < t.len() && t[a] == k[i]; let x = if a < i { a } else { a + 1 }; assert(t[a] == k[x]); assert(x != i); if x < i { assert(k[x] != k[i]); } else { assert(k[i] != k[x]); } } }
pub proof fn lem_uniq_insert(k: Seq<Seq<int>>, i: int, s: Seq<int>) requires uniq(k), 0 <= i <= k.len(), !k.contains(s) ensures uniq(k.insert(i, s)) { let t = k.insert(i, s);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies #[trigger] t[a] != #[trigger] t[b] by { if a == i { assert(t[b] == k[b - 1]); assert(k.contains(k[b - 1])); } else if b == i { assert(t[a] == k[a]); assert(k.contains(k[a])); } else { let x = if a < i { a } else { a - 1 }; let y = if b < i { b } else { b - 1 }; assert(t[a] == k[x] && t[b] == k[y]); } } }
// where a sorted member goes keeps the order
pub proof fn lem_place_ok(ks: Seq<Seq<int>>, k: Seq<int>, sort: bool, p: int) requires 0 <= p <= ks.len(), sort ==> forall|i: int| 0 <= i < p ==> str_lt(#[trigger] ks[i], k) ensures p <= place(ks, k, sort, p) <= ks.len(), sort ==> (forall|i: int| 0 <= i < place(ks, k, sort, p) ==> str_lt(#[trigger] ks[i], k)) && (place(ks, k, sort, p) < ks.len() ==> !str_lt(ks[place(ks, k, sort, p)], k)) decreases ks.len() - p { if p < ks.len() && !(sort && !str_lt(ks[p], k)) { lem_place_ok(ks, k, sort, p + 1); } }
pub proof fn lem_asc_insert(ks: Seq<Seq<int>>, p: int, k: Seq<int>) requires asc(ks), 0 <= p <= ks.len(), forall|i: int| 0 <= i < p ==> str_lt(#[trigger] ks[i], k), p < ks.len() ==> !str_lt(ks[p], k) ensures asc(ks.insert(p, k)) {
    let t = ks.insert(p, k); assert forall|i: int, j: int| 0 <= i < j < t.len() implies !str_lt(#[trigger] t[j], #[trigger] t[i]) by { let x = if i < p { i } else { i - 1 }; let y = if j < p { j } else { j - 1 };
        if j == p { assert(t[i] == ks[i]); lem_lt_asym(ks[i], k); } else if i == p { assert(t[j] == ks[j - 1]); if str_lt(ks[j - 1], k) { lem_lt_neg(ks[j - 1], ks[p], k); } } else { assert(t[i] == ks[x] && t[j] == ks[y]); } } }
pub proof fn lem_p_obj_ok(t: Seq<int>, p: int, o: O, ks: Seq<Seq<int>>, vs: Seq<V>, w: int) requires 0 <= p <= t.len(), p_obj(t, p, o, ks, vs, w).k == 1, vs_ok(vs, o.sort), uniq(ks), ks.len() == vs.len(), o.sort ==> asc(ks) ensures v_ok(p_obj(t, p, o, ks, vs, w).v, o.sort) decreases t.len() - p, 1int {
    lem_p_obj(t, p, o, ks, vs, w); let k = tok(t, p, o);
    if k.k == 0 && ks.len() == 0 && k.b =~= s"}" { assert(v_ok(V::Obj(ks, vs), o.sort)); } else {
    let s = k.v->Str_0; let c = tok(t, k.p, o); let i = key_idx(ks, s, 0); let ks1 = if has_key(ks, s) { ks.remove(i) } else { ks }; let vs1 = if has_key(ks, s) { vs.remove(i) } else { vs }; lem_idx_key(ks, s, 0);
    if has_key(ks, s) { lem_uniq_remove(ks, i); if o.sort { lem_asc_remove(ks, i); } assert forall|j: int| 0 <= j < vs1.len() implies v_ok(#[trigger] vs1[j], o.sort) by { let x = if j < i { j } else { j + 1 }; assert(vs1[j] == vs[x]); } }
    let e = p_val(t, c.p, o); lem_p_val_ok(t, c.p, o); let at = place(ks1, s, o.sort, 0); lem_place_ok(ks1, s, o.sort, 0); let ks2 = ks1.insert(at, s); let vs2 = vs1.insert(at, e.v); if o.sort { lem_asc_insert(ks1, at, s); } lem_uniq_insert(ks1, at, s);
    assert forall|j: int| 0 <= j < vs2.len() implies v_ok(#[trigger] vs2[j], o.sort) by { if j < at { assert(vs2[j] == vs1[j]); } else if j > at { assert(vs2[j] == vs1[j - 1]); } } assert(v_ok(V::Obj(ks2, vs2), o.sort)); let n = tok(t, e.p, o);
    if !(n.k == 0 && n.b =~= s"}") && n.k == 0 && n.b =~= s"," && e.p < n.p <= t.len() { lem_p_obj_ok(t, n.p, o, ks2, vs2, w + k.w + c.w + (if has_key(ks, s) { 1int } else { 0 }) + e.w + n.w); } } }
pub proof fn lem_idx_key(ks: Seq<Seq<int>>, k: Seq<int>, p: int) requires 0 <= p <= ks.len(), forall|j: int| 0 <= j < p ==> #[trigger] ks[j] != k ensures p <= key_idx(ks, k, p) <= ks.len(), has_key(ks, k) == (key_idx(ks, k, p) < ks.len()), key_idx(ks, k, p) < ks.len() ==> ks[key_idx(ks, k, p)] == k decreases ks.len() - p { if p < ks.len() { if ks[p] != k { lem_idx_key(ks, k, p + 1); } } }
// looking a key up in what was built
pub proof fn lem_lookup(g: H, h: H, r: int, ks: Seq<Seq<int>>, vs: Seq<V>, k: Seq<int>) requires doc(g, h, r, V::Obj(ks, vs)), uniq(ks) ensures ({ let n = key_at(h, h.m[r].items, k, 0); (n < h.m[r].items.len()) == has_key(ks, k) && (forall|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k ==> n == i) && (n < ks.len() ==> ks[n] == k && entry(h, h.m[r].items[n], r, k) && den(h, val(h, h.m[r].items[n]), vs[n])) }) {
    lem_contains(g, h, r, ks, vs, k); lem_obj_ok(g, h, r, ks, vs); lem_key_idx(h, r, ks, k, 0); let n = key_idx(ks, k, 0); if n < ks.len() { assert(entry(h, h.m[r].items[n], r, ks[n])); }
    assert forall|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k implies n == i by { assert(ks.contains(ks[i])); if i < n { assert(ks[i] != k); } else if n < i { assert(ks[n] != ks[i]); } } }
// what errors and warnings take from the parser
pub proof fn lem_pinv(s: StreamConsumer) requires pinv(s) ensures st_ok(s.stream), st_ok(st_tell(s.stream)), rep(s.history, taken(s.stream)), taken(st_tell(s.stream)) == taken(s.stream), 0 <= s.stream.pos <= s.stream.inp.len(), st_tell(s.stream).pos == s.stream.pos, st_tell(s.stream).inp == s.stream.inp, lh_inv(s.history), forall|w: Warning| lh_inv(w.what.history) ==> #[trigger] pinv(StreamConsumer { stream: st_tell(s.stream), warnings: s.warnings.push(w), ..s }) { lem_hist(s);
    assert forall|w: Warning| lh_inv(w.what.history) implies #[trigger] pinv(StreamConsumer { stream: st_tell(s.stream), warnings: s.warnings.push(w), ..s }) by { let v = s.warnings.push(w); assert forall|i: int| 0 <= i < v.len() implies lh_inv((#[trigger] v[i]).what.history) by { if i < s.warnings.len() { assert(v[i] == s.warnings[i]); } } } }
