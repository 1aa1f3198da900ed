// ---- what a text denotes
pub struct O { pub st: bool, pub est: bool, pub asc: bool, pub sort: bool }
// the options of a parse: no settings means strict, sorted, unicode decoded, unknown escapes tolerated
pub open spec fn opts(p: int) -> O { O { st: p == 0 || par_isStrict(p), est: p != 0 && par_isStrict(p), asc: p != 0 && par_isIgnoringUnicode(p), sort: p == 0 || par_sortObjects(p) } }
pub enum V { Nul, Bool(bool), Int(int), Long(int), Dbl(Dbl), Str(Seq<int>), Arr(Seq<V>), Obj(Seq<Seq<int>>, Seq<V>) }
// outcome of reading at a position: k 0: no value, b the punctuation met (nothing at the end of the text); k 1: value v; k 2: refused.
// p: position reached, w: deviations tolerated
pub struct Tk { pub k: int, pub b: Seq<int>, pub v: V, pub p: int, pub w: int }
pub open spec fn no_val(b: Seq<int>, p: int, w: int) -> Tk { Tk { k: 0, b: b, v: V::Nul, p: p, w: w } }
pub open spec fn a_val(v: V, p: int, w: int) -> Tk { Tk { k: 1, b: Seq::empty(), v: v, p: p, w: w } }
pub open spec fn refused() -> Tk { Tk { k: 2, b: Seq::empty(), v: V::Nul, p: 0, w: 0 } }
pub open spec fn ign(c: int) -> bool { c <= 32 || c >= 127 }
pub open spec fn is_punct(c: int) -> bool { c == 123 || c == 91 || c == 125 || c == 93 || c == 58 || c == 44 }
pub open spec fn is_dig(c: int) -> bool { 48 <= c <= 57 }
// literals
pub open spec fn lit_c(c: int) -> bool { let l = tolow(c); l == 97 || l == 101 || l == 108 || l == 114 || l == 115 || l == 117 }
pub open spec fn run(t: Seq<int>, p: int) -> int decreases t.len() - p { if 0 <= p < t.len() && lit_c(t[p]) { 1 + run(t, p + 1) } else { 0 } }
pub open spec fn p_bool(t: Seq<int>, p: int, o: O) -> Tk {
    let e = p + 1 + run(t, p + 1); let s = t.subrange(p, e); let l = lowers(s);
    if (l != s"true" && l != s"false") || (l != s && o.st) { refused() } else { a_val(V::Bool(l == s"true"), e, if l != s { 1 } else { 0 }) } }
pub open spec fn p_nul(t: Seq<int>, p: int, o: O) -> Tk {
    if p + 4 > t.len() { no_val(Seq::empty(), t.len() as int, 0) } else {
    let s = t.subrange(p, p + 4); let l = lowers(s);
    if l != s"null" || (l != s && o.st) { refused() } else { a_val(V::Nul, p + 4, if l != s { 1 } else { 0 }) } } }
// numbers: digits, at most one point, at most one exponent with an optional sign
pub struct Num { pub e: int, pub d: bool }
pub open spec fn num_scan(t: Seq<int>, p: int, d: bool, x: bool, last: int) -> Num decreases t.len() - p {
    if !(0 <= p < t.len()) { Num { e: p, d: d } } else { let c = t[p];
    if is_dig(c) { num_scan(t, p + 1, d, x, c) } else if c == 46 && !d { num_scan(t, p + 1, true, x, c) }
    else if (c == 101 || c == 69) && !x { num_scan(t, p + 1, true, true, c) } else if (c == 43 || c == 45) && (last == 101 || last == 69) { num_scan(t, p + 1, d, x, c) }
    else { Num { e: p, d: d } } } }
pub open spec fn num_val(s: Seq<int>, d: bool, p: int) -> Tk {
    if d { if dbl_len(s) < s.len() || d_isinf(str_to_dbl(s)) { refused() } else { a_val(V::Dbl(str_to_dbl(s)), p, 0) } }
    else if !sto_valid(s, 10) || !in_i64(sto_val(s, 10)) { refused() } else if in_i32(sto_val(s, 10)) { a_val(V::Int(sto_val(s, 10)), p, 0) } else { a_val(V::Long(sto_val(s, 10)), p, 0) } }
pub open spec fn p_num(t: Seq<int>, p: int) -> Tk { let n = num_scan(t, p + 1, t[p] == 46, false, t[p]); num_val(t.subrange(p, n.e), n.d, n.e) }
// escapes: the character after the reverse solidus is at p; b holds what it stands for
pub open spec fn plain_esc(c: int) -> bool { c == 98 || c == 102 || c == 114 || c == 110 || c == 116 }
pub open spec fn p_esc(t: Seq<int>, p: int, o: O) -> Tk {
    let c = t[p]; let u = pat(t, p + 1); let l = pat(t, p + 5);
    if c == 34 || c == 47 { no_val(seq![c], p + 1, 0) } else if c == 92 { no_val(s"\\\\", p + 1, 0) } else if plain_esc(c) { no_val(seq![92int, c], p + 1, 0) }
    else if c == 117 {
        if o.asc { no_val(s"\\u", p + 1, 0) }
        else if p + 5 > t.len() { Tk { k: 3, ..no_val(Seq::empty(), t.len() as int, 0) } }
        else if !hex_ok(u, 4) { refused() }
        else if is_hi(hex_val(u, 4)) {
            if p + 11 > t.len() { Tk { k: 3, ..no_val(Seq::empty(), t.len() as int, 0) } } else if pair_ok(u, l) { no_val(utf8(pair_val(u, l)), p + 11, 0) } else { refused() } }
        else if is_sur(hex_val(u, 4)) { refused() }
        else if hex_val(u, 4) == 92 { no_val(s"\\\\", p + 5, 0) } else { no_val(utf8(hex_val(u, 4)), p + 5, 0) } }
    else if o.est { refused() } else { no_val(seq![92int, c], p + 1, 1) } }
// strings: what follows the opening quote; acc: the characters read so far
pub open spec fn p_str(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) -> Tk decreases t.len() - p, 0int {
    if !(0 <= p < t.len()) { no_val(Seq::empty(), t.len() as int, w) }
    else if t[p] == 34 { a_val(V::Str(acc), p + 1, w) } else if t[p] == 92 { p_bs(t, p + 1, o, acc, w) } else { p_str(t, p + 1, o, acc.push(t[p]), w) } }
pub open spec fn p_bs(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) -> Tk decreases t.len() - p, 1int {
    if !(0 <= p < t.len()) { no_val(Seq::empty(), t.len() as int, w) } else { let e = p_esc(t, p, o);
    if e.k == 2 { refused() } else if e.k == 3 { no_val(Seq::empty(), t.len() as int, w) } else if e.p <= p { refused() } else { p_str(t, e.p, o, acc + e.b, w + e.w) } } }
pub open spec fn tok(t: Seq<int>, p: int, o: O) -> Tk decreases t.len() - p {
    if !(0 <= p < t.len()) { no_val(Seq::empty(), t.len() as int, 0) } else { let c = t[p];
    if c == 34 { p_str(t, p + 1, o, Seq::empty(), 0) } else if tolow(c) == 116 || tolow(c) == 102 { p_bool(t, p, o) } else if tolow(c) == 110 { p_nul(t, p, o) }
    else if is_dig(c) || c == 46 || c == 45 { p_num(t, p) } else if is_punct(c) { no_val(seq![c], p + 1, 0) }
    else if ign(c) { tok(t, p + 1, o) } else { refused() } } }
// ---- values
pub open spec fn has_key(ks: Seq<Seq<int>>, k: Seq<int>) -> bool { ks.contains(k) }
pub open spec fn key_idx(ks: Seq<Seq<int>>, k: Seq<int>, p: int) -> int decreases ks.len() - p { if p >= ks.len() { ks.len() as int } else if ks[p] == k { p } else { key_idx(ks, k, p + 1) } }
// where a new member goes: at the end, or before the first one whose key is not smaller
pub open spec fn place(ks: Seq<Seq<int>>, k: Seq<int>, sort: bool, p: int) -> int decreases ks.len() - p { if p >= ks.len() { ks.len() as int } else if sort && !str_lt(ks[p], k) { p } else { place(ks, k, sort, p + 1) } }
pub open spec fn p_val(t: Seq<int>, p: int, o: O) -> Tk decreases t.len() - p, 0int {
    let k = tok(t, p, o);
    if k.k == 0 && k.b == s"{" && p < k.p <= t.len() { p_obj(t, k.p, o, Seq::empty(), Seq::empty(), k.w) } else if k.k == 0 && k.b == s"[" && p < k.p <= t.len() { p_arr(t, k.p, o, Seq::empty(), k.w) } else { k } }
// what follows the opening bracket or a comma; acc: the elements so far
pub open spec fn p_arr(t: Seq<int>, p: int, o: O, acc: Seq<V>, w: int) -> Tk decreases t.len() - p, 1int {
    let e = p_val(t, p, o);
    if e.k == 0 && acc.len() == 0 && e.b == s"]" { a_val(V::Arr(acc), e.p, w + e.w) }
    else if e.k != 1 || !(p < e.p <= t.len()) { refused() } else { let n = tok(t, e.p, o);
    if n.k == 0 && n.b == s"]" { a_val(V::Arr(acc.push(e.v)), n.p, w + e.w + n.w) }
    else if n.k == 0 && n.b == s"," && e.p < n.p <= t.len() { p_arr(t, n.p, o, acc.push(e.v), w + e.w + n.w) } else { refused() } } }
pub open spec fn p_obj(t: Seq<int>, p: int, o: O, ks: Seq<Seq<int>>, vs: Seq<V>, w: int) -> Tk decreases t.len() - p, 1int {
    let k = tok(t, p, o);
    if k.k == 0 && ks.len() == 0 && k.b == s"}" { a_val(V::Obj(ks, vs), k.p, w + k.w) }
    else if k.k != 1 || !(k.v is Str) || !(p < k.p <= t.len()) { refused() } else { let s = k.v->Str_0; let c = tok(t, k.p, o);
    if c.k != 0 || c.b != s":" || !(k.p < c.p <= t.len()) || (has_key(ks, s) && o.st) { refused() } else {
    let i = key_idx(ks, s, 0); let ks1 = if has_key(ks, s) { ks.remove(i) } else { ks }; let vs1 = if has_key(ks, s) { vs.remove(i) } else { vs };
    let e = p_val(t, c.p, o); if e.k != 1 || !(c.p < e.p <= t.len()) { refused() } else {
    let at = place(ks1, s, o.sort, 0); let ks2 = ks1.insert(at, s); let vs2 = vs1.insert(at, e.v); let w2 = w + k.w + c.w + (if has_key(ks, s) { 1int } else { 0 }) + e.w;
    let n = tok(t, e.p, o);
    if n.k == 0 && n.b == s"}" { a_val(V::Obj(ks2, vs2), n.p, w2 + n.w) }
    else if n.k == 0 && n.b == s"," && e.p < n.p <= t.len() { p_obj(t, n.p, o, ks2, vs2, w2 + n.w) } else { refused() } } } } }
// ---- state of the parser
pub open spec fn taken(s: Stream) -> Seq<int> { s.inp.subrange(0, s.pos) }
pub open spec fn pinv(s: StreamConsumer) -> bool {
    st_ok(s.stream) && s.stream.inp.len() <= 0x7fff_ffff && (!st_good(s.stream) ==> s.stream.pos == s.stream.inp.len()) && (forall|i: int| 0 <= i < s.stream.inp.len() ==> in_i8(#[trigger] s.stream.inp[i])) && rep(s.history, taken(s.stream)) && warns_ok(s.warnings) }
// every warning tells where it was found
pub open spec fn warns_ok(w: Seq<Warning>) -> bool { forall|i: int| 0 <= i < w.len() ==> lh_inv((#[trigger] w[i]).what.history) }
pub proof fn lem_warns(ws: Seq<Warning>) requires warns_ok(ws) ensures forall|w: Warning| lh_inv(w.what.history) ==> warns_ok(#[trigger] ws.push(w)) {
    assert forall|w: Warning| lh_inv(w.what.history) implies warns_ok(#[trigger] ws.push(w)) by { let v = ws.push(w); assert forall|i: int| 0 <= i < v.len() implies lh_inv((#[trigger] v[i]).what.history) by { if i < ws.len() { assert(v[i] == ws[i]); } } } }
pub open spec fn same(a: StreamConsumer, b: StreamConsumer) -> bool { b.stream.inp == a.stream.inp && b.params == a.params && b.root == a.root && a.stream.pos <= b.stream.pos && a.warnings.len() <= b.warnings.len() }
// a JSON error locating what was consumed
pub open spec fn json_err(e: Exc, s: StreamConsumer) -> bool { XS_JsonException(e.tag) && st_ok(s.stream) && rep(e.history, taken(s.stream)) }
pub proof fn lem_hist(s: StreamConsumer) requires pinv(s) ensures 1 <= s.history.line <= s.stream.pos + 2, 0 <= s.history.written <= s.stream.pos, lh_inv(s.history) { lem_cur_len(taken(s.stream)); }
pub proof fn lem_run(t: Seq<int>, p: int) requires 0 <= p <= t.len() ensures 0 <= run(t, p) <= t.len() - p, forall|i: int| p <= i < p + run(t, p) ==> lit_c(#[trigger] t[i]), p + run(t, p) < t.len() ==> !lit_c(t[p + run(t, p)]) decreases t.len() - p { if p < t.len() && lit_c(t[p]) { lem_run(t, p + 1); } }
pub proof fn lem_num(t: Seq<int>, p: int, d: bool, x: bool, last: int) requires 0 <= p <= t.len() ensures p <= num_scan(t, p, d, x, last).e <= t.len() decreases t.len() - p {
    if p < t.len() { let c = t[p]; if is_dig(c) { lem_num(t, p + 1, d, x, c); } else if c == 46 && !d { lem_num(t, p + 1, true, x, c); } else if (c == 101 || c == 69) && !x { lem_num(t, p + 1, true, true, c); } else if (c == 43 || c == 45) && (last == 101 || last == 69) { lem_num(t, p + 1, d, x, c); } } }
pub proof fn lem_str(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) requires 0 <= p <= t.len() ensures ({ let r = p_str(t, p, o, acc, w); (r.k == 0 || r.k == 1 || r.k == 2) && (r.k == 0 ==> r.b.len() == 0 && r.p == t.len()) && (r.k == 1 ==> p < r.p <= t.len() && r.v is Str) }) decreases t.len() - p, 0int {
    if p < t.len() { if t[p] == 34 { } else if t[p] == 92 { lem_bs(t, p + 1, o, acc, w); } else { lem_str(t, p + 1, o, acc.push(t[p]), w); } } }
pub proof fn lem_bs(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) requires 0 <= p <= t.len() ensures ({ let r = p_bs(t, p, o, acc, w); (r.k == 0 || r.k == 1 || r.k == 2) && (r.k == 0 ==> r.b.len() == 0 && r.p == t.len()) && (r.k == 1 ==> p < r.p <= t.len() && r.v is Str) }) decreases t.len() - p, 1int {
    if p < t.len() { let e = p_esc(t, p, o); if e.k == 0 { lem_str(t, e.p, o, acc + e.b, w + e.w); } } }
// what a token can be
pub open spec fn tk_ok(r: Tk, t: Seq<int>, p: int) -> bool { 0 <= r.k <= 2 && (r.k == 1 ==> p < r.p <= t.len() && !(r.v is Arr) && !(r.v is Obj)) && (r.k == 0 ==> (r.b.len() == 0 && r.p == t.len()) || (r.b.len() == 1 && is_punct(r.b[0]) && p < r.p <= t.len() && r.w == 0)) }
pub proof fn lem_tok(t: Seq<int>, p: int, o: O) requires 0 <= p <= t.len() ensures tk_ok(tok(t, p, o), t, p) decreases t.len() - p {
    if p < t.len() { let c = t[p]; if c == 34 { lem_str(t, p + 1, o, Seq::empty(), 0); } else if tolow(c) == 116 || tolow(c) == 102 { lem_run(t, p + 1); } else if tolow(c) == 110 { } else if is_dig(c) || c == 46 || c == 45 { lem_num(t, p + 1, c == 46, false, c); } else if is_punct(c) { } else if ign(c) { lem_tok(t, p + 1, o); } } }
pub proof fn lem_hex(a: P<int>, b: P<int>, n: int) requires forall|k: int| 0 <= k < n ==> #[trigger] a.s[a.o + k] == b.s[b.o + k] ensures hex_ok(a, n) == hex_ok(b, n), hex_val(a, n) == hex_val(b, n) decreases n {
    if n > 0 { lem_hex(a, b, n - 1); assert(a.s[a.o + (n - 1)] == b.s[b.o + (n - 1)]); }
    if hex_ok(a, n) { assert forall|k: int| 0 <= k < n implies is_hex(#[trigger] b.s[b.o + k]) by { assert(is_hex(a.s[a.o + k])); } }
    if hex_ok(b, n) { assert forall|k: int| 0 <= k < n implies is_hex(#[trigger] a.s[a.o + k]) by { assert(a.s[a.o + k] == b.s[b.o + k]); assert(is_hex(b.s[b.o + k])); } } }
// n characters were read into d
pub proof fn lem_taken(a: Stream, b: Stream, d: P<int>, n: int) requires st_ok(a), st_ok(b), a.inp == b.inp, b.pos == a.pos + n, n >= 0, d.o == 0, forall|k: int| 0 <= k < n ==> #[trigger] d.s[k] == a.inp[a.pos + k] ensures taken(b) =~= taken(a) + pseq(d, n) {
    assert forall|i: int| 0 <= i < taken(b).len() implies #[trigger] taken(b)[i] == (taken(a) + pseq(d, n))[i] by { if i >= a.pos { assert(d.s[i - a.pos] == a.inp[a.pos + (i - a.pos)]); } } }
// the text shown for a floating number
pub open spec fn dbl_show(d: Dbl) -> Seq<int> { let a = dbl_fmt(d, 6, 102); if d_eq(str_to_dbl(a), d) { a } else { dbl_fmt(d, 17, 103) } }
// element x of heap h is the value v
pub open spec fn den(h: H, x: int, v: V) -> bool decreases v {
    let e = h.m[x]; elem(h, x) && match v {
    V::Nul => is_JSonPrimitive_Null(e.tag) && e.JSonPrimitive_Null_stringValue == s"null",
    V::Bool(b) => is_JSonPrimitive_bool(e.tag) && e.JSonPrimitive_bool_value == b && e.JSonPrimitive_bool_stringValue == (if b { s"true" } else { s"false" }),
    V::Int(n) => is_JSonPrimitive_int(e.tag) && e.JSonPrimitive_int_value == n && e.JSonPrimitive_int_stringValue == int_dec(n),
    V::Long(n) => is_JSonPrimitive_longlong(e.tag) && e.JSonPrimitive_longlong_value == n && e.JSonPrimitive_longlong_stringValue == int_dec(n),
    V::Dbl(d) => is_JSonPrimitive_double(e.tag) && e.JSonPrimitive_double_value == d && e.JSonPrimitive_double_stringValue == dbl_show(d),
    V::Str(s) => is_JSonPrimitive_string(e.tag) && e.JSonPrimitive_string_value == s && e.JSonPrimitive_string_stringValue == s,
    V::Arr(a) => is_JSonArray(e.tag) && e.items.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> den(h, #[trigger] e.items[i], a[i]) && par(h, e.items[i]) == x,
    V::Obj(k, a) => is_JSonObject(e.tag) && k.len() == a.len() && e.items.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> entry(h, #[trigger] e.items[i], x, k[i]) && den(h, val(h, e.items[i]), a[i]) && par(h, val(h, e.items[i])) == e.items[i],
    } }
pub open spec fn entry(h: H, e: int, o: int, k: Seq<int>) -> bool { elem(h, e) && is_ent(h, e) && !is_cont(h, e) && par(h, e) == o && key(h, e) == k }
// one new element
pub open spec fn leaf(a: H, b: H, x: int, v: V, p: int) -> bool { x > 0 && !a.m.dom().contains(x) && b.m =~= a.m.insert(x, b.m[x]) && den(b, x, v) && par(b, x) == p }
// the outcome of reading a token
pub open spec fn is_tok(a: StreamConsumer, b: StreamConsumer, h: H, g: H, p: int, r: int, buf: Seq<int>, k: Tk) -> bool {
    k.k != 2 && b.stream.pos == k.p && b.warnings.len() == a.warnings.len() + k.w && (r != 0) == (k.k == 1) && if r != 0 { leaf(h, g, r, k.v, p) } else { g == h && buf =~= k.b } }
pub proof fn lem_long(t: Seq<int>, p: int, o: O) requires 0 <= p < t.len(), run(t, p + 1) >= 5 || (run(t, p + 1) >= 4 && tolow(t[p]) == 116), p + 1 + run(t, p + 1) <= t.len() ensures p_bool(t, p, o).k == 2 {
    let e = p + 1 + run(t, p + 1); let l = lowers(t.subrange(p, e)); assert(l.len() == e - p && l[0] == tolow(t[p])); reveal_lit(s"true"); reveal_lit(s"false"); assert(s"true".len() == 4 && s"false".len() == 5 && s"false"[0] == 102); }
