// ---- the text of a value, and reading it back
pub open spec fn isc(v: V) -> bool { v is Arr || v is Obj }
pub open spec fn sct(v: V) -> Seq<int> { match v { V::Nul => s"null", V::Bool(b) => if b { s"true" } else { s"false" }, V::Int(n) => int_dec(n), V::Long(n) => int_dec(n), V::Dbl(d) => dbl_show(d), V::Str(s) => quoted(s), _ => Seq::empty() } }
// without the indentation that precedes and the newline that follows
pub open spec fn core(v: V, l: int, cz: bool) -> Seq<int> decreases v, 0int, 0int { match v {
    V::Arr(a) => seq![91int] + nl(cz) + prs(a, a.len() as int, wrap_u16(l + 1), cz) + ind(l, cz) + seq![93int],
    V::Obj(k, a) => seq![123int] + nl(cz) + prm(k, a, a.len() as int, wrap_u16(l + 1), cz) + ind(l, cz) + seq![125int],
    _ => sct(v) } }
pub open spec fn prs(a: Seq<V>, n: int, l: int, cz: bool) -> Seq<int> decreases a, 1int, n { if 0 < n <= a.len() { prs(a, n - 1, l, cz) + (ind(l, cz) + cma(n > 1) + core(a[n - 1], l, cz) + nl(cz)) } else { Seq::empty() } }
pub open spec fn mid(v: V, l: int, cz: bool) -> Seq<int> { if isc(v) { nl(cz) + ind(l, cz) } else { Seq::empty() } }
pub open spec fn prm(k: Seq<Seq<int>>, a: Seq<V>, n: int, l: int, cz: bool) -> Seq<int> decreases a, 1int, n { if 0 < n <= a.len() { prm(k, a, n - 1, l, cz) + (ind(l, cz) + cma(n > 1) + quoted(k[n - 1]) + seq![58int] + mid(a[n - 1], l, cz) + core(a[n - 1], l, cz) + nl(cz)) } else { Seq::empty() } }
pub open spec fn text_of(v: V, cz: bool) -> Seq<int> { core(v, 0, cz) + nl(cz) }
// what is printed for an element is the text of its value
pub proof fn lem_txt(h: H, x: int, v: V, comma: bool, l: int, cz: bool) requires den(h, x, v) ensures tree(h, x), txt(h, x, comma, l, cz) =~= ind(l, cz) + cma(comma) + core(v, l, cz) + nl(cz) decreases v, 0int, 0int {
    hide(tree); hide(txt); hide(core); hide(wf); hide(ind);
    lem_den_wf(h, x, v); assert(tree(h, x)) by { reveal(tree); } lem_den_kind(h, x, v); let m = wrap_u16(l + 1); let n = h.m[x].items.len() as int; assert(kids(h, x) == h.m[x].items || !is_cont(h, x)); lem_core(v, l, cz); lem_txt_eq(h, x, comma, l, cz); match v {
        V::Arr(a) => { lem_txt_a(h, x, a, n, m, cz); }
        V::Obj(k, a) => { lem_txt_o(h, x, k, a, n, m, cz); }
        _ => { lem_sc(h, x, v); } } }
pub proof fn lem_core(v: V, l: int, cz: bool) ensures core(v, l, cz) == (match v { V::Arr(a) => seq![91int] + nl(cz) + prs(a, a.len() as int, wrap_u16(l + 1), cz) + ind(l, cz) + seq![93int], V::Obj(k, a) => seq![123int] + nl(cz) + prm(k, a, a.len() as int, wrap_u16(l + 1), cz) + ind(l, cz) + seq![125int], _ => sct(v) }) { }
pub proof fn lem_txt_eq(h: H, x: int, comma: bool, l: int, cz: bool) requires tree(h, x) ensures
    is_cont(h, x) ==> txt(h, x, comma, l, cz) =~= opening(h, x, comma, l, cz) + txts(h, x, kids(h, x).len() as int, wrap_u16(l + 1), cz) + ind(l, cz) + seq![if is_JSonObject(h.m[x].tag) { 125int } else { 93int }] + nl(cz),
    !is_cont(h, x) && !is_ent(h, x) ==> txt(h, x, comma, l, cz) == ind(l, cz) + cma(comma) + sc(h.m[x]) + nl(cz) { }
pub proof fn lem_sc(h: H, x: int, v: V) requires den(h, x, v), !isc(v) ensures sc(h.m[x]) == sct(v) { }
pub proof fn lem_txt_a(h: H, x: int, a: Seq<V>, n: int, l: int, cz: bool) requires den(h, x, V::Arr(a)), tree(h, x), 0 <= n <= a.len() ensures txts(h, x, n, l, cz) =~= prs(a, n, l, cz) decreases a, 1int, n {
    if n > 0 { lem_txt_a(h, x, a, n - 1, l, cz); let c = h.m[x].items[n - 1]; assert(den(h, c, a[n - 1])); lem_kid(h, x, n - 1); lem_txt(h, c, a[n - 1], n > 1, l, cz); } }
pub open spec fn member(k: Seq<int>, v: V, comma: bool, l: int, cz: bool) -> Seq<int> { ind(l, cz) + cma(comma) + quoted(k) + seq![58int] + mid(v, l, cz) + core(v, l, cz) + nl(cz) }
pub proof fn lem_prm(k: Seq<Seq<int>>, a: Seq<V>, n: int, l: int, cz: bool) requires 0 < n <= a.len() ensures prm(k, a, n, l, cz) == prm(k, a, n - 1, l, cz) + member(k[n - 1], a[n - 1], n > 1, l, cz) { }
pub proof fn lem_txt_o(h: H, x: int, k: Seq<Seq<int>>, a: Seq<V>, n: int, l: int, cz: bool) requires den(h, x, V::Obj(k, a)), tree(h, x), 0 <= n <= a.len() ensures txts(h, x, n, l, cz) =~= prm(k, a, n, l, cz) decreases a, 1int, n {
    hide(tree); hide(txt); hide(core); hide(wf); hide(ind); hide(sc); hide(sct); hide(pr_esc); hide(cma); hide(quoted); hide(nl); hide(member); 
    if n > 0 { lem_txt_o(h, x, k, a, n - 1, l, cz); let e = h.m[x].items[n - 1]; assert(entry(h, e, x, k[n - 1])); let c = val(h, e); let v = a[n - 1]; lem_kid(h, x, n - 1); lem_kid(h, e, 0); lem_txt(h, c, v, false, l, cz); lem_txts(h, x, n, l, cz); lem_prm(k, a, n, l, cz); lem_txt_m(h, e, v, n > 1, l, cz); assert(h.m[e].JSonObjectEntry_key == k[n - 1]); } }
pub proof fn lem_txt_m(h: H, e: int, v: V, comma: bool, l: int, cz: bool) requires tree(h, e), is_ent(h, e), !is_cont(h, e), den(h, val(h, e), v), txt(h, val(h, e), false, l, cz) =~= ind(l, cz) + cma(false) + core(v, l, cz) + nl(cz) ensures txt(h, e, comma, l, cz) =~= member(h.m[e].JSonObjectEntry_key, v, comma, l, cz) {
    hide(tree); hide(txt); hide(txts); hide(core); hide(wf); hide(ind); hide(sc); hide(sct); hide(pr_esc); hide(cma); hide(quoted); hide(nl);
    let c = val(h, e); let k = h.m[e].JSonObjectEntry_key; lem_den_kind(h, c, v); lem_txt_ent(h, e, comma, l, cz); if !isc(v) { lem_sc(h, c, v); lem_core(v, l, cz); assert(mid(v, l, cz) =~= Seq::<int>::empty()); } else { lem_cma0(); assert(mid(v, l, cz) == nl(cz) + ind(l, cz)); }
    let f = ind(l, cz) + cma(comma) + quoted(k) + seq![58int]; lem_asc3(f, nl(cz), ind(l, cz), core(v, l, cz), nl(cz)); lem_asc2(f, core(v, l, cz), nl(cz)); }
pub proof fn lem_asc3(f: Seq<int>, a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>) ensures f + (a + (b + Seq::empty() + c + d)) =~= f + (a + b) + c + d { }
pub proof fn lem_asc2(f: Seq<int>, c: Seq<int>, d: Seq<int>) ensures f + (c + d) =~= f + Seq::empty() + c + d { }
pub proof fn lem_cma0() ensures cma(false) == Seq::<int>::empty() { }
pub proof fn lem_txts(h: H, x: int, n: int, l: int, cz: bool) requires tree(h, x), 0 < n <= kids(h, x).len() ensures txts(h, x, n, l, cz) == txts(h, x, n - 1, l, cz) + txt(h, kids(h, x)[n - 1], n > 1, l, cz) { lem_kid(h, x, n - 1); }
pub proof fn lem_txt_ent(h: H, x: int, comma: bool, l: int, cz: bool) requires tree(h, x), is_ent(h, x), !is_cont(h, x) ensures txt(h, x, comma, l, cz) == ind(l, cz) + cma(comma) + quoted(h.m[x].JSonObjectEntry_key) + seq![58int] + (if is_cont(h, val(h, x)) { nl(cz) + txt(h, val(h, x), false, l, cz) } else { sc(h.m[val(h, x)]) + nl(cz) }) { lem_kid(h, x, 0); }
// ---- what a string of a document holds: every reverse solidus starts an escape
pub open spec fn pair_fine(c: int, o: O) -> bool { c == 92 || plain_esc(c) || (c == 117 && o.asc) || (!o.est && c != 34 && c != 47 && c != 117 && !(0 <= c < 32)) }
pub open spec fn gs(s: Seq<int>, i: int, o: O) -> bool decreases s.len() - i { if 0 <= i < s.len() { in_i8(s[i]) && if s[i] == 92 { i + 1 < s.len() && in_i8(s[i + 1]) && pair_fine(s[i + 1], o) && gs(s, i + 2, o) } else { (o.asc ==> !(0 <= s[i] < 32)) && gs(s, i + 1, o) } } else { i == s.len() } }
// characters outside strings that mean nothing, left out; st 0: outside a string, 1: in a string, 2: after a reverse solidus
pub open spec fn wsp(c: int) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn fs1(st: int, c: int) -> int { if st == 0 { if c == 34 { 1 } else { 0 } } else if st == 1 { if c == 34 { 0 } else if c == 92 { 2 } else { 1 } } else { 1 } }
pub open spec fn fs(t: Seq<int>, st: int) -> int decreases t.len() { if t.len() == 0 { st } else { fs1(fs(t.drop_last(), st), t.last()) } }
pub open spec fn sq(t: Seq<int>, st: int) -> Seq<int> decreases t.len() { if t.len() == 0 { t } else { let r = sq(t.drop_last(), st); if fs(t.drop_last(), st) == 0 && wsp(t.last()) { r } else { r.push(t.last()) } } }
// b is a without white space outside strings; a ends outside a string
pub open spec fn rel(a: Seq<int>, b: Seq<int>) -> bool { fs(a, 0) == 0 && sq(a, 0) == b }
pub proof fn lem_sq_push(t: Seq<int>, c: int, st: int) ensures fs(t.push(c), st) == fs1(fs(t, st), c), sq(t.push(c), st) == (if fs(t, st) == 0 && wsp(c) { sq(t, st) } else { sq(t, st).push(c) }) { assert(t.push(c).drop_last() =~= t); }
pub proof fn lem_sq_cat(a: Seq<int>, b: Seq<int>, st: int) ensures fs(a + b, st) == fs(b, fs(a, st)), sq(a + b, st) =~= sq(a, st) + sq(b, fs(a, st)) decreases b.len() { if b.len() == 0 { assert(a + b =~= a); } else { let d = b.drop_last(); lem_sq_cat(a, d, st); assert(a + b =~= (a + d).push(b.last())); lem_sq_push(a + d, b.last(), st); } }
pub proof fn lem_rel_cat(a: Seq<int>, b: Seq<int>, c: Seq<int>, d: Seq<int>) requires rel(a, b), rel(c, d) ensures rel(a + c, b + d) { lem_sq_cat(a, c, 0); }
pub proof fn lem_rel_plain(t: Seq<int>) requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 34 && !wsp(t[i]) ensures rel(t, t) decreases t.len() { if t.len() > 0 { let d = t.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != 34 && !wsp(d[i]) by { assert(d[i] == t[i]); } lem_rel_plain(d); assert(d.push(t.last()) =~= t); } }
pub proof fn lem_rel_blank(t: Seq<int>) requires forall|i: int| 0 <= i < t.len() ==> wsp(#[trigger] t[i]) ensures rel(t, Seq::empty()) decreases t.len() { if t.len() > 0 { let d = t.drop_last(); assert forall|i: int| 0 <= i < d.len() implies wsp(#[trigger] d[i]) by { assert(d[i] == t[i]); } lem_rel_blank(d); assert(wsp(t[t.len() - 1])); } else { assert(t =~= Seq::<int>::empty()); } }
pub proof fn lem_rel_ind(l: int, cz: bool) ensures rel(ind(l, cz), Seq::empty()), rel(nl(cz), Seq::empty()) { lem_rel_blank(ind(l, cz)); lem_rel_blank(nl(cz)); }
// inside a string nothing is left out
pub open spec fn ins(t: Seq<int>) -> bool { fs(t, 0) == 1 && sq(t, 0) == t }
pub proof fn lem_ins(t: Seq<int>, c: int) requires ins(t), c != 34, c != 92 ensures ins(t.push(c)) { lem_sq_push(t, c, 0); }
pub proof fn lem_ins2(t: Seq<int>, c: int) requires ins(t) ensures ins(t.push(92).push(c)) { lem_sq_push(t, 92, 0); lem_sq_push(t.push(92), c, 0); }
pub proof fn lem_ins_esc(q: Seq<int>, s: Seq<int>, i: int, o: O) requires gs(s, i, o), 0 <= i <= s.len(), ins(q + pr_esc(s, i)) ensures ins(q + pr_esc(s, s.len() as int)) decreases s.len() - i {
    if i < s.len() { let a = q + pr_esc(s, i); let c = s[i]; assert(pr_esc(s, i + 1) == pr_esc(s, i) + pr_esc1(c)); assert(q + pr_esc(s, i + 1) =~= a + pr_esc1(c));
        if c == 92 { let d = s[i + 1]; assert(pr_esc(s, i + 2) == pr_esc(s, i + 1) + pr_esc1(d)); assert(q + pr_esc(s, i + 2) =~= a.push(92).push(d)); lem_ins2(a, d); lem_ins_esc(q, s, i + 2, o); }
        else { if c == 34 { assert(a + pr_esc1(c) =~= a.push(92).push(34)); lem_ins2(a, 34); } else if 0 <= c < 32 { reveal_lit(s"\\u00"); let e = pr_esc1(c); assert(a + e =~= a.push(92).push(117).push(48).push(48).push(e[4]).push(e[5])); lem_ins2(a, 117); lem_ins(a.push(92).push(117), 48); lem_ins(a.push(92).push(117).push(48), 48); lem_ins(a.push(92).push(117).push(48).push(48), e[4]); lem_ins(a.push(92).push(117).push(48).push(48).push(e[4]), e[5]); } else { assert(a + pr_esc1(c) =~= a.push(c)); lem_ins(a, c); } lem_ins_esc(q, s, i + 1, o); } } }
pub proof fn lem_rel_quoted(s: Seq<int>, o: O) requires gs(s, 0, o) ensures rel(quoted(s), quoted(s)) { let q = seq![34int]; lem_sq_push(Seq::empty(), 34, 0); assert(Seq::<int>::empty().push(34) =~= q); assert(q + pr_esc(s, 0) =~= q); lem_ins_esc(q, s, 0, o); let b = q + pr_esc(s, s.len() as int); lem_sq_push(b, 34, 0); assert(quoted(s) =~= b.push(34)); }
// ---- the values a text can denote
pub open spec fn num_ch(c: int) -> bool { is_dig(c) || c == 46 || c == 101 || c == 69 || c == 43 || c == 45 }
pub open spec fn num_txt(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> num_ch(#[trigger] s[i]) }
pub open spec fn from_txt(d: Dbl, s: Seq<int>) -> bool { num_txt(s) && dbl_len(s) == s.len() && !d_isinf(str_to_dbl(s)) && d == str_to_dbl(s) }
// a number of RFC 8259: after the sign, 0 or digits without a leading zero, then a fraction, then an exponent
pub open spec fn dig_end(a: Seq<int>, i: int) -> int decreases a.len() - i { if 0 <= i < a.len() && is_dig(a[i]) { dig_end(a, i + 1) } else { i } }
pub open spec fn j_exp(a: Seq<int>, i: int) -> bool { i == a.len() || ((a[i] == 101 || a[i] == 69) && i + 1 < a.len() && ({ let k = if a[i + 1] == 43 || a[i + 1] == 45 { i + 2 } else { i + 1 }; dig_end(a, k) > k && dig_end(a, k) == a.len() })) }
pub open spec fn j_frac(a: Seq<int>, i: int) -> bool { if i < a.len() && a[i] == 46 { dig_end(a, i + 1) > i + 1 && j_exp(a, dig_end(a, i + 1)) } else { j_exp(a, i) } }
pub open spec fn j_num(a: Seq<int>) -> bool { let k = if a.len() > 0 && a[0] == 45 { 1int } else { 0 }; k < a.len() && is_dig(a[k]) && (if a[k] == 48 { j_frac(a, k + 1) } else { j_frac(a, dig_end(a, k)) }) }
// a finite number printed (at most 17 digits, shortest if exact) is a number with a point or an exponent, and reads back the same
#[verifier::external_body]
pub proof fn ax_dbl_show(d: Dbl, s: Seq<int>) requires from_txt(d, s) ensures ({ let a = dbl_show(d); a.len() > 0 && (a[0] == 45 || is_dig(a[0])) && num_scan(a, 1, false, false, a[0]) == (Num { e: a.len() as int, d: true }) && from_txt(d, a) && j_num(a) }) {}
pub open spec fn is_num(d: Dbl) -> bool { exists|s: Seq<int>| #[trigger] from_txt(d, s) }
pub open spec fn good(v: V, o: O) -> bool decreases v { match v {
    V::Int(n) => in_i32(n), V::Long(n) => in_i64(n) && !in_i32(n), V::Dbl(d) => is_num(d), V::Str(s) => gs(s, 0, o),
    V::Arr(a) => forall|i: int| 0 <= i < a.len() ==> good(#[trigger] a[i], o), V::Obj(k, a) => k.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> good(#[trigger] a[i], o)) && (forall|i: int| 0 <= i < a.len() ==> gs(#[trigger] k[i], 0, o)), _ => true } }
pub proof fn lem_good_a(a: Seq<V>, i: int, o: O) requires good(V::Arr(a), o), 0 <= i < a.len() ensures good(a[i], o) { let v = V::Arr(a); assert(good(v, o)); match v { V::Arr(b) => { assert(b == a); assert(good(b[i], o)); } _ => { } } }
pub proof fn lem_nat_dec(n: int) requires n >= 0 ensures nat_dec(n).len() > 0, forall|i: int| 0 <= i < nat_dec(n).len() ==> is_dig(#[trigger] nat_dec(n)[i]) decreases n { if n >= 10 { lem_nat_dec(n / 10); } }
pub proof fn lem_int_dec(n: int) ensures int_dec(n).len() > 0, int_dec(n)[0] == 45 || is_dig(int_dec(n)[0]), int_dec(n)[0] == 45 ==> n < 0 && int_dec(n).len() > 1, forall|i: int| 1 <= i < int_dec(n).len() ==> is_dig(#[trigger] int_dec(n)[i]) { if n < 0 { lem_nat_dec(-n); let a = nat_dec(-n); assert forall|i: int| 1 <= i < int_dec(n).len() implies is_dig(#[trigger] int_dec(n)[i]) by { assert(int_dec(n)[i] == a[i - 1]); } } else { lem_nat_dec(n); } }
pub proof fn lem_rel_sct(v: V, o: O) requires good(v, o), !isc(v) ensures rel(sct(v), sct(v)) { match v {
    V::Nul => { reveal_lit(s"null"); lem_rel_plain(sct(v)); } V::Bool(b) => { reveal_lit(s"true"); reveal_lit(s"false"); lem_rel_plain(sct(v)); }
    V::Int(n) => { lem_int_dec(n); lem_rel_plain(sct(v)); } V::Long(n) => { lem_int_dec(n); lem_rel_plain(sct(v)); }
    V::Dbl(d) => { let s = choose|s: Seq<int>| from_txt(d, s); ax_dbl_show(d, s); let a = dbl_show(d); assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] != 34 && !wsp(a[i]) by { assert(num_ch(a[i])); } lem_rel_plain(a); }
    V::Str(s) => { lem_rel_quoted(s, o); } _ => { } } }
// every form without its white space is the compressed form, which has none
pub proof fn lem_rel_core(v: V, l: int, m: int, cz: bool, o: O) requires good(v, o) ensures rel(core(v, l, cz), core(v, m, true)) decreases v, 0int, 0int {
    lem_core(v, l, cz); lem_core(v, m, true); lem_rel_ind(l, cz); let x = wrap_u16(l + 1); let y = wrap_u16(m + 1); match v {
        V::Arr(a) => { let n = a.len() as int; lem_rel_prs(a, n, x, y, cz, o); lem_rel_plain(seq![91int]); lem_rel_plain(seq![93int]); let e = Seq::<int>::empty(); let p = prs(a, n, x, cz); let q = prs(a, n, y, true);
            lem_rel_cat(seq![91int], seq![91int], nl(cz), e); lem_rel_cat(seq![91int] + nl(cz), seq![91int] + e, p, q); lem_rel_cat(seq![91int] + nl(cz) + p, seq![91int] + e + q, ind(l, cz), e); lem_rel_cat(seq![91int] + nl(cz) + p + ind(l, cz), seq![91int] + e + q + e, seq![93int], seq![93int]); assert(seq![91int] + e + q + e + seq![93int] =~= core(v, m, true)); }
        V::Obj(k, a) => { let n = a.len() as int; lem_rel_prm(k, a, n, x, y, cz, o); lem_rel_plain(seq![123int]); lem_rel_plain(seq![125int]); let e = Seq::<int>::empty(); let p = prm(k, a, n, x, cz); let q = prm(k, a, n, y, true);
            lem_rel_cat(seq![123int], seq![123int], nl(cz), e); lem_rel_cat(seq![123int] + nl(cz), seq![123int] + e, p, q); lem_rel_cat(seq![123int] + nl(cz) + p, seq![123int] + e + q, ind(l, cz), e); lem_rel_cat(seq![123int] + nl(cz) + p + ind(l, cz), seq![123int] + e + q + e, seq![125int], seq![125int]); assert(seq![123int] + e + q + e + seq![125int] =~= core(v, m, true)); }
        _ => { lem_rel_sct(v, o); } } }
pub proof fn lem_rel_cma(c: bool) ensures rel(cma(c), cma(c)) { lem_rel_plain(cma(c)); }
pub proof fn lem_rel_prs(a: Seq<V>, n: int, l: int, m: int, cz: bool, o: O) requires good(V::Arr(a), o), 0 <= n <= a.len() ensures rel(prs(a, n, l, cz), prs(a, n, m, true)) decreases a, 1int, n {
    if n > 0 { lem_rel_prs(a, n - 1, l, m, cz, o); lem_good_a(a, n - 1, o); let v = a[n - 1]; lem_rel_core(v, l, m, cz, o); lem_rel_ind(l, cz); lem_rel_cma(n > 1); let e = Seq::<int>::empty(); let c = core(v, l, cz); let d = core(v, m, true);
        lem_rel_cat(ind(l, cz), e, cma(n > 1), cma(n > 1)); lem_rel_cat(ind(l, cz) + cma(n > 1), e + cma(n > 1), c, d); lem_rel_cat(ind(l, cz) + cma(n > 1) + c, e + cma(n > 1) + d, nl(cz), e); lem_rel_cat(prs(a, n - 1, l, cz), prs(a, n - 1, m, true), ind(l, cz) + cma(n > 1) + c + nl(cz), e + cma(n > 1) + d + e); assert(e + cma(n > 1) + d + e =~= ind(m, true) + cma(n > 1) + d + nl(true)); } else { lem_rel_blank(Seq::empty()); } }
pub proof fn lem_rel_prm(k: Seq<Seq<int>>, a: Seq<V>, n: int, l: int, m: int, cz: bool, o: O) requires good(V::Obj(k, a), o), 0 <= n <= a.len() ensures rel(prm(k, a, n, l, cz), prm(k, a, n, m, true)) decreases a, 1int, n {
    if n > 0 { lem_rel_prm(k, a, n - 1, l, m, cz, o); let v = a[n - 1]; let s = k[n - 1]; lem_rel_core(v, l, m, cz, o); lem_rel_ind(l, cz); lem_rel_cma(n > 1); lem_rel_quoted(s, o); lem_rel_plain(seq![58int]); let e = Seq::<int>::empty(); let c = core(v, l, cz); let d = core(v, m, true); let q = quoted(s); let z = mid(v, l, cz);
        assert(rel(z, e)) by { lem_rel_cat(nl(cz), e, ind(l, cz), e); assert(e + e =~= e); lem_rel_blank(e); }
        let i = ind(l, cz); let f = cma(n > 1); let g = seq![58int];
        lem_rel_cat(i, e, f, f); lem_rel_cat(i + f, e + f, q, q); lem_rel_cat(i + f + q, e + f + q, g, g); lem_rel_cat(i + f + q + g, e + f + q + g, z, e); lem_rel_cat(i + f + q + g + z, e + f + q + g + e, c, d); lem_rel_cat(i + f + q + g + z + c, e + f + q + g + e + d, nl(cz), e);
        lem_rel_cat(prm(k, a, n - 1, l, cz), prm(k, a, n - 1, m, true), i + f + q + g + z + c + nl(cz), e + f + q + g + e + d + e); assert(e + f + q + g + e + d + e =~= ind(m, true) + f + q + g + mid(v, m, true) + d + nl(true)); } else { lem_rel_blank(Seq::empty()); } }
// ---- reading the text back
pub open spec fn here(t: Seq<int>, p: int, s: Seq<int>) -> bool { 0 <= p && p + s.len() <= t.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == t[p + i] }
pub open spec fn stop(t: Seq<int>, e: int) -> bool { 0 <= e <= t.len() && (e < t.len() ==> t[e] == 10 || t[e] == 44 || t[e] == 93 || t[e] == 125) }
pub open spec fn blank(t: Seq<int>, p: int, q: int) -> bool { 0 <= p <= q <= t.len() && forall|i: int| p <= i < q ==> #[trigger] t[i] == 10 || t[i] == 32 }
pub proof fn lem_here_cat(t: Seq<int>, p: int, a: Seq<int>, b: Seq<int>) requires here(t, p, a + b) ensures here(t, p, a), here(t, p + a.len(), b) { let c = a + b; assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == t[p + i] by { assert(c[i] == t[p + i]); } assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == t[p + a.len() + i] by { assert(c[a.len() + i] == t[p + (a.len() + i)]); } }
pub proof fn lem_here_sub(t: Seq<int>, p: int, s: Seq<int>) requires here(t, p, s) ensures t.subrange(p, p + s.len()) =~= s { let u = t.subrange(p, p + s.len()); assert forall|i: int| 0 <= i < s.len() implies u[i] == s[i] by { assert(s[i] == t[p + i]); } }
pub proof fn lem_here_in(t: Seq<int>, p: int, s: Seq<int>, q: int, u: Seq<int>) requires here(t, p, s), here(s, q, u) ensures here(t, p + q, u) { assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] == t[p + q + i] by { assert(u[i] == s[q + i]); } }
pub proof fn lem_skip(t: Seq<int>, p: int, q: int, o: O) requires blank(t, p, q) ensures tok(t, p, o) == tok(t, q, o) decreases q - p { if p < q { assert(t[p] == 10 || t[p] == 32); lem_skip(t, p + 1, q, o); } }
pub proof fn lem_blank_ind(t: Seq<int>, p: int, l: int, cz: bool) requires here(t, p, ind(l, cz)) ensures blank(t, p, p + ind(l, cz).len()) { let s = ind(l, cz); assert forall|i: int| p <= i < p + s.len() implies #[trigger] t[i] == 10 || t[i] == 32 by { assert(s[i - p] == t[p + (i - p)]); } }
pub proof fn lem_blank_nl(t: Seq<int>, p: int, cz: bool) requires here(t, p, nl(cz)) ensures blank(t, p, p + nl(cz).len()), !cz ==> p < t.len() && t[p] == 10 { let s = nl(cz); assert forall|i: int| p <= i < p + s.len() implies #[trigger] t[i] == 10 || t[i] == 32 by { assert(s[i - p] == t[p + (i - p)]); } if !cz { assert(s[0] == t[p + 0]); } }
pub proof fn lem_blank_cat(t: Seq<int>, p: int, q: int, r: int) requires blank(t, p, q), blank(t, q, r) ensures blank(t, p, r) { }
pub proof fn lem_here1(t: Seq<int>, p: int, c: int) requires here(t, p, seq![c]) ensures p < t.len(), t[p] == c { assert(seq![c][0] == t[p + 0]); }
pub proof fn lem_punct(t: Seq<int>, p: int, q: int, c: int, o: O) requires blank(t, p, q), here(t, q, seq![c]), is_punct(c) ensures tok(t, p, o) == no_val(seq![c], q + 1, 0) { lem_skip(t, p, q, o); lem_here1(t, q, c); }
// strings
pub proof fn lem_esc_pre(s: Seq<int>, i: int, n: int) requires 0 <= i <= n <= s.len() ensures here(pr_esc(s, n), 0, pr_esc(s, i)) decreases n - i { if i < n { lem_esc_pre(s, i, n - 1); } }
pub proof fn lem_esc_at(t: Seq<int>, q: int, s: Seq<int>, i: int) requires here(t, q, pr_esc(s, s.len() as int)), 0 <= i < s.len() ensures here(t, q + pr_esc(s, i).len(), pr_esc1(s[i])), pr_esc(s, i + 1).len() == pr_esc(s, i).len() + pr_esc1(s[i]).len() { lem_esc_pre(s, i + 1, s.len() as int); assert(pr_esc(s, i + 1) == pr_esc(s, i) + pr_esc1(s[i])); lem_here_in(t, q, pr_esc(s, s.len() as int), 0, pr_esc(s, i + 1)); lem_here_cat(t, q, pr_esc(s, i), pr_esc1(s[i])); }
pub proof fn lem_ctl(t: Seq<int>, p: int, c: int, o: O) requires here(t, p, pr_esc1(c)), 0 <= c < 32, !o.asc ensures p + 6 <= t.len(), t[p] == 92, p_esc(t, p + 1, o) == no_val(seq![c], p + 6, 0) {
    reveal_lit(s"\\u00"); let e = pr_esc1(c); assert(e.len() == 6); assert(e[0] == 92 && e[1] == 117 && e[2] == 48 && e[3] == 48 && e[4] == (if c < 16 { 48int } else { 49int }) && e[5] == (if c % 16 < 10 { 48 + c % 16 } else { 87 + c % 16 }));
    assert(t[p] == 92) by { assert(e[0] == t[p + 0]); } assert(t[p + 1] == 117) by { assert(e[1] == t[p + 1]); } assert(t[p + 2] == e[2]); assert(t[p + 3] == e[3]); assert(t[p + 4] == e[4]); assert(t[p + 5] == e[5]);
    let u = pat(t, p + 2); assert forall|k: int| 0 <= k < 4 implies is_hex(#[trigger] u.s[u.o + k]) by { assert(k == 0 || k == 1 || k == 2 || k == 3); }
    assert(hex_val(u, 0) == 0); assert(hex_val(u, 1) == hex_val(u, 0) * 16 + dig_val(t[p + 2])); assert(hex_val(u, 2) == hex_val(u, 1) * 16 + dig_val(t[p + 3])); assert(hex_val(u, 3) == hex_val(u, 2) * 16 + dig_val(t[p + 4])); assert(hex_val(u, 4) == hex_val(u, 3) * 16 + dig_val(t[p + 5])); assert(hex_val(u, 4) == c); }
pub proof fn lem_step_bs(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) requires 0 <= p, p + 1 < t.len(), t[p] == 92, p_esc(t, p + 1, o).k == 0, p_esc(t, p + 1, o).p > p + 1 ensures p_str(t, p, o, acc, w) == p_str(t, p_esc(t, p + 1, o).p, o, acc + p_esc(t, p + 1, o).b, w + p_esc(t, p + 1, o).w) { assert(p_str(t, p, o, acc, w) == p_bs(t, p + 1, o, acc, w)); }
pub proof fn lem_step_ch(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) requires 0 <= p < t.len(), t[p] != 34, t[p] != 92 ensures p_str(t, p, o, acc, w) == p_str(t, p + 1, o, acc.push(t[p]), w) { }
pub proof fn lem_rd_str(t: Seq<int>, q: int, s: Seq<int>, i: int, o: O, w: int) requires here(t, q, pr_esc(s, s.len() as int) + seq![34int]), 0 <= i <= s.len(), gs(s, i, o) ensures ({ let r = p_str(t, q + pr_esc(s, i).len(), o, s.subrange(0, i), w); r.k == 1 && r.v == V::Str(s) && r.p == q + pr_esc(s, s.len() as int).len() + 1 }) decreases s.len() - i {
    let n = s.len() as int; let a = s.subrange(0, i); let p = q + pr_esc(s, i).len(); lem_here_cat(t, q, pr_esc(s, n), seq![34int]); if i == n { lem_here1(t, p, 34); assert(a =~= s); } else {
        let c = s[i]; lem_esc_at(t, q, s, i); let e = pr_esc1(c); let b = s.subrange(0, i + 1); assert(b =~= a.push(c));
        if c == 92 { let d = s[i + 1]; lem_here1(t, p, 92); lem_esc_at(t, q, s, i + 1); assert(pr_esc1(d) =~= seq![d]); lem_here1(t, p + 1, d); let g = p_esc(t, p + 1, o); lem_step_bs(t, p, o, a, w); assert(g.k == 0 && g.p == p + 2 && g.b =~= seq![92int, d]); assert(s.subrange(0, i + 2) =~= a + g.b); lem_rd_str(t, q, s, i + 2, o, w + g.w); }
        else if c == 34 { assert(e =~= seq![92int, 34int]); assert(e[0] == t[p + 0] && e[1] == t[p + 1]); assert(p_esc(t, p + 1, o) == no_val(seq![34int], p + 2, 0)); lem_step_bs(t, p, o, a, w); assert(a + seq![34int] =~= b); lem_rd_str(t, q, s, i + 1, o, w); }
        else if 0 <= c < 32 { lem_ctl(t, p, c, o); lem_step_bs(t, p, o, a, w); assert(a + seq![c] =~= b); assert(e.len() == 6) by { reveal_lit(s"\\u00"); } lem_rd_str(t, q, s, i + 1, o, w); }
        else { assert(e =~= seq![c]); lem_here1(t, p, c); lem_step_ch(t, p, o, a, w); lem_rd_str(t, q, s, i + 1, o, w); } } }
pub proof fn lem_tok_str(t: Seq<int>, p: int, s: Seq<int>, o: O) requires here(t, p, quoted(s)), gs(s, 0, o) ensures ({ let r = tok(t, p, o); r.k == 1 && r.v == V::Str(s) && r.p == p + quoted(s).len() }) {
    let n = s.len() as int; let u = pr_esc(s, n) + seq![34int]; assert(quoted(s) =~= seq![34int] + u); lem_here_cat(t, p, seq![34int], u); lem_here1(t, p, 34); lem_rd_str(t, p + 1, s, 0, o, 0); assert(pr_esc(s, 0).len() == 0); assert(s.subrange(0, 0) =~= Seq::empty()); assert(quoted(s).len() == pr_esc(s, n).len() + 2); }
// numbers
pub proof fn lem_scan_at(t: Seq<int>, q: int, a: Seq<int>, i: int, d: bool, x: bool, last: int) requires here(t, q, a), 0 <= i <= a.len(), num_scan(a, i, d, x, last).e == a.len(), stop(t, q + a.len()) ensures num_scan(t, q + i, d, x, last) == (Num { e: q + a.len(), d: num_scan(a, i, d, x, last).d }) decreases a.len() - i {
    if i < a.len() { let c = a[i]; assert(c == t[q + i]); if is_dig(c) { lem_scan_at(t, q, a, i + 1, d, x, c); } else if c == 46 && !d { lem_scan_at(t, q, a, i + 1, true, x, c); } else if (c == 101 || c == 69) && !x { lem_scan_at(t, q, a, i + 1, true, true, c); } else if (c == 43 || c == 45) && (last == 101 || last == 69) { lem_scan_at(t, q, a, i + 1, d, x, c); } } }
pub proof fn lem_scan_dig(a: Seq<int>, i: int, last: int) requires 0 <= i <= a.len(), forall|j: int| i <= j < a.len() ==> is_dig(#[trigger] a[j]) ensures num_scan(a, i, false, false, last) == (Num { e: a.len() as int, d: false }) decreases a.len() - i { if i < a.len() { lem_scan_dig(a, i + 1, a[i]); } }
pub proof fn lem_digs_push(s: Seq<int>, c: int, p: int, acc: int) requires 0 <= p <= s.len(), is_dig(c), forall|j: int| p <= j < s.len() ==> is_dig(#[trigger] s[j]) ensures digs(s.push(c), p, 10, acc) == digs(s, p, 10, acc) * 10 + (c - 48) decreases s.len() - p { let u = s.push(c); if p < s.len() { assert(u[p] == s[p]); lem_digs_push(s, c, p + 1, acc * 10 + dig_val(s[p])); } else { assert(u[p] == c); assert(digs(u, p + 1, 10, acc * 10 + dig_val(c)) == acc * 10 + dig_val(c)); } }
pub proof fn lem_digs_nat(n: int) requires n >= 0 ensures digs(nat_dec(n), 0, 10, 0) == n decreases n { lem_nat_dec(n); if n < 10 { let s = nat_dec(n); assert(s[0] == 48 + n); assert(digs(s, 1, 10, 0 * 10 + n) == n); } else { lem_digs_nat(n / 10); lem_nat_dec(n / 10); lem_digs_push(nat_dec(n / 10), 48 + n % 10, 0, 0); } }
pub proof fn lem_digs_shift(s: Seq<int>, x: int, p: int, acc: int) requires 0 <= p <= s.len() ensures digs(seq![x] + s, p + 1, 10, acc) == digs(s, p, 10, acc) decreases s.len() - p { let u = seq![x] + s; if p < s.len() { assert(u[p + 1] == s[p]); lem_digs_shift(s, x, p + 1, acc * 10 + dig_val(s[p])); } }
pub proof fn lem_sto_dec(n: int) ensures sto_valid(int_dec(n), 10), sto_val(int_dec(n), 10) == n { if n < 0 { let m = nat_dec(-n); lem_nat_dec(-n); lem_digs_nat(-n); lem_digs_shift(m, 45, 0, 0); let s = int_dec(n); assert(s[1] == m[0]); ax_sto_neg(s, 10); } else { lem_nat_dec(n); lem_digs_nat(n); ax_sto(nat_dec(n), 10); } }
pub proof fn lem_tok_num(t: Seq<int>, p: int, a: Seq<int>, o: O, d: bool) requires here(t, p, a), a.len() > 0, a[0] == 45 || is_dig(a[0]), num_scan(a, 1, false, false, a[0]) == (Num { e: a.len() as int, d: d }), stop(t, p + a.len()) ensures tok(t, p, o) == num_val(a, d, p + a.len()) { assert(a[0] == t[p + 0]); lem_scan_at(t, p, a, 1, false, false, a[0]); lem_here_sub(t, p, a); }
pub proof fn lem_tok_int(t: Seq<int>, p: int, n: int, o: O) requires here(t, p, int_dec(n)), stop(t, p + int_dec(n).len()), in_i64(n) ensures tok(t, p, o) == a_val(if in_i32(n) { V::Int(n) } else { V::Long(n) }, p + int_dec(n).len(), 0) { let a = int_dec(n); lem_int_dec(n); lem_scan_dig(a, 1, a[0]); lem_tok_num(t, p, a, o, false); lem_sto_dec(n); }
// literals
pub proof fn lem_tok_bool(t: Seq<int>, p: int, b: bool, o: O) requires here(t, p, sct(V::Bool(b))), stop(t, p + sct(V::Bool(b)).len()) ensures tok(t, p, o) == a_val(V::Bool(b), p + sct(V::Bool(b)).len(), 0) {
    reveal_lit(s"true"); reveal_lit(s"false"); let a = sct(V::Bool(b)); assert(a[0] == t[p + 0] && a[1] == t[p + 1] && a[2] == t[p + 2] && a[3] == t[p + 3]); let e = p + a.len(); assert(run(t, e) == 0); assert(run(t, e - 1) == 1) by { assert(a[a.len() - 1] == t[p + (a.len() - 1)]); } assert(run(t, e - 2) == 2); assert(run(t, e - 3) == 3); if !b { assert(a[4] == t[p + 4]); assert(run(t, e - 4) == 4); } assert(run(t, p + 1) == a.len() - 1); lem_here_sub(t, p, a); let l = lowers(a); assert(l =~= a); assert(b ==> a == s"true"); assert(!b ==> a == s"false"); assert(a.len() == (if b { 4int } else { 5 })); assert(s"true" != s"false") by { assert(s"true".len() == 4 && s"false".len() == 5); } }
pub proof fn lem_tok_nul(t: Seq<int>, p: int, o: O) requires here(t, p, s"null") ensures tok(t, p, o) == a_val(V::Nul, p + 4, 0) { reveal_lit(s"null"); let a = s"null"; assert(a[0] == t[p + 0]); lem_here_sub(t, p, a); assert(lowers(a) =~= a); }
pub proof fn lem_tok_sct(t: Seq<int>, p: int, v: V, o: O) requires !isc(v), good(v, o), here(t, p, sct(v)), stop(t, p + sct(v).len()) ensures ({ let r = tok(t, p, o); r.k == 1 && r.v == v && r.p == p + sct(v).len() }) { match v {
    V::Nul => { lem_tok_nul(t, p, o); reveal_lit(s"null"); } V::Bool(b) => { lem_tok_bool(t, p, b, o); } V::Int(n) => { lem_tok_int(t, p, n, o); } V::Long(n) => { lem_tok_int(t, p, n, o); }
    V::Dbl(d) => { let s = choose|s: Seq<int>| from_txt(d, s); ax_dbl_show(d, s); lem_tok_num(t, p, dbl_show(d), o, true); } V::Str(s) => { lem_tok_str(t, p, s, o); } _ => { } } }
// a value at q, preceded by white space from p
pub open spec fn reads(t: Seq<int>, p: int, v: V, e: int, o: O) -> bool { let r = p_val(t, p, o); r.k == 1 && r.v == v && r.p == e }
pub proof fn lem_rt_val(t: Seq<int>, p: int, q: int, v: V, l: int, cz: bool, o: O) requires blank(t, p, q), here(t, q, core(v, l, cz)), stop(t, q + core(v, l, cz).len()), good(v, o), v_ok(v, o.sort) ensures reads(t, p, v, q + core(v, l, cz).len(), o) decreases v, 0int, 0int {
    hide(tok); hide(p_val); hide(p_arr); hide(p_obj); hide(core); hide(prs); hide(prm); hide(ind); hide(nl); hide(gs); hide(sct);
    lem_core(v, l, cz); let m = wrap_u16(l + 1); lem_p_val(t, p, o); lem_skip(t, p, q, o); let c = core(v, l, cz); match v {
    V::Arr(a) => { let n = a.len() as int; let s = seq![91int]; let b = prs(a, n, m, cz); lem_arr_parts(t, q, s, nl(cz), b, ind(l, cz), seq![93int]); lem_punct(t, p, q, 91, o);
        lem_blank_nl(t, q + 1, cz); let x = q + 1 + nl(cz).len(); if n == 0 { lem_prs0(a, m, cz); lem_blank_ind(t, x, l, cz); let y = x + ind(l, cz).len(); lem_blank_cat(t, q + 1, x, y); lem_p_arr(t, q + 1, o, Seq::empty(), 0); lem_punct(t, q + 1, y, 93, o); lem_p_val(t, q + 1, o); assert(a =~= Seq::empty()); }
        else { lem_prs_at(t, x, a, 0, n, m, cz); lem_prs0(a, m, cz); lem_item_parts(t, x, ind(m, cz), cma(false), core(a[0], m, cz), nl(cz)); lem_blank_ind(t, x, m, cz); lem_blank_cat(t, q + 1, x, x + ind(m, cz).len()); assert(a.subrange(0, 0) =~= Seq::empty()); lem_rt_arr(t, q, q + 1, a, 0, l, cz, o, 0); } }
    V::Obj(k, a) => { let n = a.len() as int; let s = seq![123int]; let b = prm(k, a, n, m, cz); lem_arr_parts(t, q, s, nl(cz), b, ind(l, cz), seq![125int]); lem_punct(t, p, q, 123, o);
        lem_blank_nl(t, q + 1, cz); let x = q + 1 + nl(cz).len(); if n == 0 { lem_prm0(k, a, m, cz); lem_blank_ind(t, x, l, cz); let y = x + ind(l, cz).len(); lem_blank_cat(t, q + 1, x, y); lem_p_obj(t, q + 1, o, Seq::empty(), Seq::empty(), 0); lem_punct(t, q + 1, y, 125, o); assert(a =~= Seq::empty()); assert(k =~= Seq::empty()); }
        else { lem_prm_at(t, x, k, a, 0, n, m, cz); lem_prm0(k, a, m, cz); lem_mem_parts(t, x, k[0], a[0], false, m, cz); lem_blank_ind(t, x, m, cz); lem_blank_cat(t, q + 1, x, x + ind(m, cz).len()); assert(a.subrange(0, 0) =~= Seq::empty()); assert(k.subrange(0, 0) =~= Seq::empty()); lem_rt_obj(t, q, q + 1, k, a, 0, l, cz, o, 0); } }
    _ => { lem_tok_sct(t, q, v, o); } } }
pub proof fn lem_arr_parts(t: Seq<int>, q: int, s: Seq<int>, n: Seq<int>, b: Seq<int>, i: Seq<int>, e: Seq<int>) requires here(t, q, s + n + b + i + e) ensures here(t, q, s), here(t, q + s.len(), n), here(t, q + s.len() + n.len(), b), here(t, q + s.len() + n.len() + b.len(), i), here(t, q + s.len() + n.len() + b.len() + i.len(), e) { lem_here_cat(t, q, s + n + b + i, e); lem_here_cat(t, q, s + n + b, i); lem_here_cat(t, q, s + n, b); lem_here_cat(t, q, s, n); }
pub proof fn lem_item_parts(t: Seq<int>, q: int, i: Seq<int>, c: Seq<int>, v: Seq<int>, n: Seq<int>) requires here(t, q, i + c + v + n) ensures here(t, q, i), here(t, q + i.len(), c), here(t, q + i.len() + c.len(), v), here(t, q + i.len() + c.len() + v.len(), n) { lem_here_cat(t, q, i + c + v, n); lem_here_cat(t, q, i + c, v); lem_here_cat(t, q, i, c); }
pub proof fn lem_prs0(a: Seq<V>, l: int, cz: bool) ensures prs(a, 0, l, cz) == Seq::<int>::empty() { }
pub proof fn lem_prm0(k: Seq<Seq<int>>, a: Seq<V>, l: int, cz: bool) ensures prm(k, a, 0, l, cz) == Seq::<int>::empty() { }
pub open spec fn item(v: V, c: bool, l: int, cz: bool) -> Seq<int> { ind(l, cz) + cma(c) + core(v, l, cz) + nl(cz) }
pub proof fn lem_prs(a: Seq<V>, n: int, l: int, cz: bool) requires 0 < n <= a.len() ensures prs(a, n, l, cz) == prs(a, n - 1, l, cz) + item(a[n - 1], n > 1, l, cz) { }
pub proof fn lem_prs_at(t: Seq<int>, q: int, a: Seq<V>, i: int, n: int, l: int, cz: bool) requires here(t, q, prs(a, n, l, cz)), 0 <= i < n <= a.len() ensures here(t, q + prs(a, i, l, cz).len(), item(a[i], i > 0, l, cz)), prs(a, i + 1, l, cz).len() == prs(a, i, l, cz).len() + item(a[i], i > 0, l, cz).len() decreases n { hide(prs); hide(item); lem_prs(a, n, l, cz); lem_here_cat(t, q, prs(a, n - 1, l, cz), item(a[n - 1], n > 1, l, cz)); if i < n - 1 { lem_prs_at(t, q, a, i, n - 1, l, cz); } }
pub proof fn lem_prm_at(t: Seq<int>, q: int, k: Seq<Seq<int>>, a: Seq<V>, i: int, n: int, l: int, cz: bool) requires here(t, q, prm(k, a, n, l, cz)), 0 <= i < n <= a.len() ensures here(t, q + prm(k, a, i, l, cz).len(), member(k[i], a[i], i > 0, l, cz)), prm(k, a, i + 1, l, cz).len() == prm(k, a, i, l, cz).len() + member(k[i], a[i], i > 0, l, cz).len() decreases n { hide(prm); hide(member); lem_prm(k, a, n, l, cz); lem_here_cat(t, q, prm(k, a, n - 1, l, cz), member(k[n - 1], a[n - 1], n > 1, l, cz)); if i < n - 1 { lem_prm_at(t, q, k, a, i, n - 1, l, cz); } }
// the parts of a member: key, ':', value
pub open spec fn m_key(x: int, c: bool, l: int, cz: bool) -> int { x + ind(l, cz).len() + cma(c).len() }
pub open spec fn m_col(x: int, k: Seq<int>, c: bool, l: int, cz: bool) -> int { m_key(x, c, l, cz) + quoted(k).len() }
pub open spec fn m_val(x: int, k: Seq<int>, v: V, c: bool, l: int, cz: bool) -> int { m_col(x, k, c, l, cz) + 1 + mid(v, l, cz).len() }
pub proof fn lem_mem_parts(t: Seq<int>, x: int, k: Seq<int>, v: V, c: bool, l: int, cz: bool) requires here(t, x, member(k, v, c, l, cz)) ensures here(t, x, ind(l, cz)), here(t, x + ind(l, cz).len(), cma(c)), here(t, m_key(x, c, l, cz), quoted(k)), here(t, m_col(x, k, c, l, cz), seq![58int]), here(t, m_col(x, k, c, l, cz) + 1, mid(v, l, cz)), here(t, m_val(x, k, v, c, l, cz), core(v, l, cz)), here(t, m_val(x, k, v, c, l, cz) + core(v, l, cz).len(), nl(cz)), x + member(k, v, c, l, cz).len() == m_val(x, k, v, c, l, cz) + core(v, l, cz).len() + nl(cz).len() {
    hide(ind); hide(cma); hide(quoted); hide(mid); hide(core); hide(nl); let i = ind(l, cz); let f = cma(c); let g = quoted(k); let h = seq![58int]; let z = mid(v, l, cz); let d = core(v, l, cz); let n = nl(cz);
    lem_here_cat(t, x, i + f + g + h + z + d, n); lem_here_cat(t, x, i + f + g + h + z, d); lem_here_cat(t, x, i + f + g + h, z); lem_here_cat(t, x, i + f + g, h); lem_here_cat(t, x, i + f, g); lem_here_cat(t, x, i, f); }
// what follows an element: a comma, or the closing bracket
pub proof fn lem_after(t: Seq<int>, e: int, l: int, c: int, cz: bool, o: O) requires here(t, e, nl(cz)), here(t, e + nl(cz).len(), ind(l, cz)), here(t, e + nl(cz).len() + ind(l, cz).len(), seq![c]), c == 44 || c == 93 || c == 125 ensures stop(t, e), tok(t, e, o) == no_val(seq![c], e + nl(cz).len() + ind(l, cz).len() + 1, 0) {
    let x = e + nl(cz).len(); let y = x + ind(l, cz).len(); lem_blank_nl(t, e, cz); lem_blank_ind(t, x, l, cz); lem_blank_cat(t, e, x, y); lem_punct(t, e, y, c, o); lem_here1(t, y, c); if cz { assert(nl(cz).len() == 0); assert(ind(l, cz).len() == 0); } }
pub proof fn lem_cma1() ensures cma(true) == seq![44int], cma(false).len() == 0 { }
pub proof fn lem_step_arr(t: Seq<int>, p: int, o: O, acc: Seq<V>, w: int, v: V, e: int, n: int, c: int) requires reads(t, p, v, e, o), p < e < n <= t.len(), tok(t, e, o) == no_val(seq![c], n, 0), c == 44 || c == 93 ensures ({ let x = p_arr(t, p, o, acc, w); let u = w + p_val(t, p, o).w; if c == 44 { x == p_arr(t, n, o, acc.push(v), u) } else { x == a_val(V::Arr(acc.push(v)), n, u) } }) { hide(tok); hide(p_val); hide(p_arr); lem_p_arr(t, p, o, acc, w); assert(seq![c][0] == c); }
pub proof fn lem_step_obj(t: Seq<int>, p: int, o: O, ks: Seq<Seq<int>>, vs: Seq<V>, w: int, s: Seq<int>, kp: int, v: V, e: int, n: int, c: int) requires tok(t, p, o).k == 1, tok(t, p, o).v == V::Str(s), tok(t, p, o).p == kp, 0 <= p < kp < t.len(), tok(t, kp, o) == no_val(seq![58int], kp + 1, 0), !has_key(ks, s), place(ks, s, o.sort, 0) == ks.len(), ks.len() == vs.len(), reads(t, kp + 1, v, e, o), kp + 1 < e < n <= t.len(), tok(t, e, o) == no_val(seq![c], n, 0), c == 44 || c == 125 ensures ({ let x = p_obj(t, p, o, ks, vs, w); let u = w + tok(t, p, o).w + p_val(t, kp + 1, o).w; if c == 44 { x == p_obj(t, n, o, ks.push(s), vs.push(v), u) } else { x == a_val(V::Obj(ks.push(s), vs.push(v)), n, u) } }) { hide(tok); hide(p_val); hide(p_obj); hide(place); lem_p_obj(t, p, o, ks, vs, w); assert(seq![c][0] == c); assert(seq![58int][0] == 58); assert(ks.insert(ks.len() as int, s) =~= ks.push(s)); assert(vs.insert(vs.len() as int, v) =~= vs.push(v)); }
pub proof fn lem_rt_arr(t: Seq<int>, q: int, p: int, a: Seq<V>, i: int, l: int, cz: bool, o: O, w: int)
    requires 0 <= i < a.len(), here(t, q, core(V::Arr(a), l, cz)), blank(t, p, q + 1 + nl(cz).len() + prs(a, i, wrap_u16(l + 1), cz).len() + ind(wrap_u16(l + 1), cz).len() + cma(i > 0).len()), good(V::Arr(a), o), v_ok(V::Arr(a), o.sort)
    ensures ({ let r = p_arr(t, p, o, a.subrange(0, i), w); r.k == 1 && r.v == V::Arr(a) && r.p == q + core(V::Arr(a), l, cz).len() }) decreases a, 1int, a.len() - i {
    hide(tok); hide(p_val); hide(p_arr); hide(p_obj); hide(core); hide(prs); hide(prm); hide(ind); hide(nl); hide(cma);
    let v = V::Arr(a); let m = wrap_u16(l + 1); let n = a.len() as int; lem_core(v, l, cz); lem_arr_parts(t, q, seq![91int], nl(cz), prs(a, n, m, cz), ind(l, cz), seq![93int]); let b = q + 1 + nl(cz).len();
    lem_prs_at(t, b, a, i, n, m, cz); let x = b + prs(a, i, m, cz).len(); let y = x + ind(m, cz).len() + cma(i > 0).len(); lem_item_parts(t, x, ind(m, cz), cma(i > 0), core(a[i], m, cz), nl(cz)); let e = y + core(a[i], m, cz).len(); let acc = a.subrange(0, i); assert(acc.push(a[i]) =~= a.subrange(0, i + 1)); lem_cma1();
    if i + 1 < n { lem_prs_at(t, b, a, i + 1, n, m, cz); lem_item_parts(t, e + nl(cz).len(), ind(m, cz), cma(true), core(a[i + 1], m, cz), nl(cz)); lem_after(t, e, m, 44, cz, o); } else { lem_after(t, e, l, 93, cz, o); assert(acc.push(a[i]) =~= a); }
    lem_good_a(a, i, o); assert(v_ok(a[i], o.sort)); lem_rt_val(t, p, y, a[i], m, cz, o); let z = p_val(t, p, o); assert(p < e) by { lem_core_len(a[i], m, cz, o); } let u = e + nl(cz).len() + (if i + 1 < n { ind(m, cz).len() } else { ind(l, cz).len() }) + 1; lem_step_arr(t, p, o, acc, w, a[i], e, u, if i + 1 < n { 44 } else { 93 });
    assert(core(v, l, cz).len() == 1 + nl(cz).len() + prs(a, n, m, cz).len() + ind(l, cz).len() + 1); assert(e + nl(cz).len() == b + prs(a, i + 1, m, cz).len());
    if i + 1 < n { lem_rt_arr(t, q, u, a, i + 1, l, cz, o, w + z.w); } }
pub proof fn lem_core_len(v: V, l: int, cz: bool, o: O) requires good(v, o) ensures core(v, l, cz).len() > 0 { lem_core(v, l, cz); reveal_lit(s"null"); reveal_lit(s"true"); reveal_lit(s"false"); match v { V::Int(n) => { lem_int_dec(n); } V::Long(n) => { lem_int_dec(n); } V::Str(s) => { assert(quoted(s).len() > 0); } V::Dbl(d) => { let s = choose|s: Seq<int>| from_txt(d, s); ax_dbl_show(d, s); } _ => { } } }
pub proof fn lem_gs_i8(s: Seq<int>, i: int, o: O) requires gs(s, i, o), 0 <= i ensures forall|j: int| i <= j < s.len() ==> in_i8(#[trigger] s[j]) decreases s.len() - i { if i < s.len() { if s[i] == 92 { lem_gs_i8(s, i + 2, o); } else { lem_gs_i8(s, i + 1, o); } } }
pub proof fn lem_lt_total(a: Seq<int>, b: Seq<int>) requires forall|j: int| 0 <= j < a.len() ==> in_i8(#[trigger] a[j]), forall|j: int| 0 <= j < b.len() ==> in_i8(#[trigger] b[j]), a != b, !str_lt(b, a) ensures str_lt(a, b) decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { assert(a =~= b); } } else if b.len() > 0 { assert(in_i8(a[0]) && in_i8(b[0])); if wrap_u8(a[0]) == wrap_u8(b[0]) { let c = a.drop_first(); let d = b.drop_first(); if c == d { assert(a =~= seq![a[0]] + c); assert(b =~= seq![b[0]] + d); } assert forall|j: int| 0 <= j < c.len() implies in_i8(#[trigger] c[j]) by { assert(c[j] == a[j + 1]); } assert forall|j: int| 0 <= j < d.len() implies in_i8(#[trigger] d[j]) by { assert(d[j] == b[j + 1]); } lem_lt_total(c, d); } } }
pub proof fn lem_place_last(ks: Seq<Seq<int>>, k: Seq<int>, sort: bool, p: int) requires 0 <= p <= ks.len(), sort ==> forall|j: int| 0 <= j < ks.len() ==> str_lt(#[trigger] ks[j], k) ensures place(ks, k, sort, p) == ks.len() decreases ks.len() - p { if p < ks.len() { lem_place_last(ks, k, sort, p + 1); } }
pub proof fn lem_good_o(k: Seq<Seq<int>>, a: Seq<V>, i: int, o: O) requires good(V::Obj(k, a), o), 0 <= i < a.len() ensures good(a[i], o), gs(k[i], 0, o), k.len() == a.len() { hide(gs); let v = V::Obj(k, a); assert(good(v, o)); match v { V::Obj(g, b) => { assert(b == a && g == k); assert(good(b[i], o)); assert(gs(g[i], 0, o)); } _ => { } } }
pub proof fn lem_key_new(k: Seq<Seq<int>>, a: Seq<V>, i: int, o: O) requires good(V::Obj(k, a), o), v_ok(V::Obj(k, a), o.sort), 0 <= i < a.len() ensures !has_key(k.subrange(0, i), k[i]), place(k.subrange(0, i), k[i], o.sort, 0) == i {
    hide(gs); hide(good); lem_good_o(k, a, i, o); let g = k.subrange(0, i); assert forall|j: int| 0 <= j < i implies #[trigger] g[j] != k[i] && (o.sort ==> str_lt(g[j], k[i])) by { assert(g[j] == k[j]); assert(k[j] != k[i]); if o.sort { assert(!str_lt(k[i], k[j])); lem_good_o(k, a, j, o); lem_gs_i8(k[j], 0, o); lem_gs_i8(k[i], 0, o); lem_lt_total(k[j], k[i]); } } lem_place_last(g, k[i], o.sort, 0); }
pub proof fn lem_blank_mid(t: Seq<int>, p: int, v: V, l: int, cz: bool) requires here(t, p, mid(v, l, cz)) ensures blank(t, p, p + mid(v, l, cz).len()) { if isc(v) { lem_here_cat(t, p, nl(cz), ind(l, cz)); lem_blank_nl(t, p, cz); lem_blank_ind(t, p + nl(cz).len(), l, cz); } }
pub proof fn lem_rt_obj(t: Seq<int>, q: int, p: int, k: Seq<Seq<int>>, a: Seq<V>, i: int, l: int, cz: bool, o: O, w: int)
    requires 0 <= i < a.len(), here(t, q, core(V::Obj(k, a), l, cz)), blank(t, p, q + 1 + nl(cz).len() + prm(k, a, i, wrap_u16(l + 1), cz).len() + ind(wrap_u16(l + 1), cz).len() + cma(i > 0).len()), good(V::Obj(k, a), o), v_ok(V::Obj(k, a), o.sort)
    ensures ({ let r = p_obj(t, p, o, k.subrange(0, i), a.subrange(0, i), w); r.k == 1 && r.v == V::Obj(k, a) && r.p == q + core(V::Obj(k, a), l, cz).len() }) decreases a, 1int, a.len() - i {
    hide(tok); hide(p_val); hide(p_arr); hide(p_obj); hide(core); hide(prs); hide(prm); hide(ind); hide(nl); hide(cma); hide(gs); hide(quoted); hide(member); hide(mid); hide(good); hide(place);
    let v = V::Obj(k, a); let m = wrap_u16(l + 1); let n = a.len() as int; lem_core(v, l, cz); lem_arr_parts(t, q, seq![123int], nl(cz), prm(k, a, n, m, cz), ind(l, cz), seq![125int]); let b = q + 1 + nl(cz).len(); let c = i > 0;
    lem_prm_at(t, b, k, a, i, n, m, cz); let x = b + prm(k, a, i, m, cz).len(); lem_mem_parts(t, x, k[i], a[i], c, m, cz); let y = m_val(x, k[i], a[i], c, m, cz); let e = y + core(a[i], m, cz).len(); let ks = k.subrange(0, i); let vs = a.subrange(0, i); lem_good_o(k, a, i, o); lem_key_new(k, a, i, o);
    assert(ks.push(k[i]) =~= k.subrange(0, i + 1)); assert(vs.push(a[i]) =~= a.subrange(0, i + 1)); lem_cma1();
    if i + 1 < n { lem_prm_at(t, b, k, a, i + 1, n, m, cz); lem_mem_parts(t, e + nl(cz).len(), k[i + 1], a[i + 1], true, m, cz); lem_after(t, e, m, 44, cz, o); } else { lem_after(t, e, l, 125, cz, o); assert(k.subrange(0, n) =~= k); assert(a.subrange(0, n) =~= a); }
    let ky = m_key(x, c, m, cz); lem_skip(t, p, ky, o); lem_tok_str(t, ky, k[i], o); let kc = m_col(x, k[i], c, m, cz); lem_punct(t, kc, kc, 58, o); lem_blank_mid(t, kc + 1, a[i], m, cz); assert(v_ok(a[i], o.sort)); lem_rt_val(t, kc + 1, y, a[i], m, cz, o); lem_core_len(a[i], m, cz, o); assert(quoted(k[i]).len() > 0) by { reveal(quoted); }
    let u = e + nl(cz).len() + (if i + 1 < n { ind(m, cz).len() } else { ind(l, cz).len() }) + 1; lem_step_obj(t, p, o, ks, vs, w, k[i], kc, a[i], e, u, if i + 1 < n { 44 } else { 125 });
    assert(core(v, l, cz).len() == 1 + nl(cz).len() + prm(k, a, n, m, cz).len() + ind(l, cz).len() + 1); assert(e + nl(cz).len() == b + prm(k, a, i + 1, m, cz).len());
    if i + 1 < n { lem_rt_obj(t, q, u, k, a, i + 1, l, cz, o, w + tok(t, p, o).w + p_val(t, kc + 1, o).w); } }
// ---- what the parser builds
// the printed form of these does not read back: an unknown escape of a control character, or (unicode ignored) a control character
pub open spec fn ctl(c: int) -> bool { 0 <= c < 32 }
pub open spec fn pair_any(c: int, o: O) -> bool { c == 92 || plain_esc(c) || (c == 117 && o.asc) || (!o.est && c != 34 && c != 47 && c != 117) }
pub open spec fn gt(s: Seq<int>, i: int, o: O) -> bool decreases s.len() - i { if 0 <= i < s.len() { in_i8(s[i]) && if s[i] == 92 { i + 1 < s.len() && in_i8(s[i + 1]) && pair_any(s[i + 1], o) && gt(s, i + 2, o) } else { gt(s, i + 1, o) } } else { i == s.len() } }
pub open spec fn nt(s: Seq<int>, i: int, o: O) -> bool decreases s.len() - i { if 0 <= i < s.len() { if s[i] == 92 { i + 1 < s.len() && !ctl(s[i + 1]) && nt(s, i + 2, o) } else { (o.asc ==> !ctl(s[i])) && nt(s, i + 1, o) } } else { true } }
pub proof fn lem_gt_nt(s: Seq<int>, i: int, o: O) requires gt(s, i, o), nt(s, i, o), 0 <= i ensures gs(s, i, o) decreases s.len() - i { if i < s.len() { if s[i] == 92 { lem_gt_nt(s, i + 2, o); } else { lem_gt_nt(s, i + 1, o); } } }
pub open spec fn built(v: V, o: O) -> bool decreases v { match v {
    V::Int(n) => in_i32(n), V::Long(n) => in_i64(n) && !in_i32(n), V::Dbl(d) => is_num(d), V::Str(s) => gt(s, 0, o),
    V::Arr(a) => forall|i: int| 0 <= i < a.len() ==> built(#[trigger] a[i], o), V::Obj(k, a) => k.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> built(#[trigger] a[i], o)) && (forall|i: int| 0 <= i < a.len() ==> gt(#[trigger] k[i], 0, o)), _ => true } }
pub open spec fn neat(v: V, o: O) -> bool decreases v { match v {
    V::Str(s) => nt(s, 0, o), V::Arr(a) => forall|i: int| 0 <= i < a.len() ==> neat(#[trigger] a[i], o), V::Obj(k, a) => (forall|i: int| 0 <= i < a.len() ==> neat(#[trigger] a[i], o)) && (forall|i: int| 0 <= i < k.len() ==> nt(#[trigger] k[i], 0, o)), _ => true } }
pub proof fn lem_neat(v: V, o: O) requires built(v, o), neat(v, o) ensures good(v, o) decreases v { hide(gt); hide(gs); hide(nt); match v {
    V::Str(s) => { lem_gt_nt(s, 0, o); }
    V::Arr(a) => { assert forall|i: int| 0 <= i < a.len() implies good(#[trigger] a[i], o) by { assert(built(a[i], o) && neat(a[i], o)); lem_neat(a[i], o); } }
    V::Obj(k, a) => { assert forall|i: int| 0 <= i < a.len() implies good(#[trigger] a[i], o) by { assert(built(a[i], o) && neat(a[i], o)); lem_neat(a[i], o); } assert forall|i: int| 0 <= i < a.len() implies gs(#[trigger] k[i], 0, o) by { assert(gt(k[i], 0, o) && nt(k[i], 0, o)); lem_gt_nt(k[i], 0, o); } }
    _ => { } } }
pub proof fn lem_gt_shift(a: Seq<int>, b: Seq<int>, j: int, o: O) requires gt(b, j, o), 0 <= j ensures gt(a + b, a.len() + j, o) decreases b.len() - j { let c = a + b; if j < b.len() { assert(c[a.len() + j] == b[j]); if b[j] == 92 { assert(c[a.len() + j + 1] == b[j + 1]); lem_gt_shift(a, b, j + 2, o); } else { lem_gt_shift(a, b, j + 1, o); } } }
pub proof fn lem_gt_cat(a: Seq<int>, b: Seq<int>, i: int, o: O) requires gt(a, i, o), gt(b, 0, o), 0 <= i ensures gt(a + b, i, o) decreases a.len() - i { let c = a + b; if i < a.len() { assert(c[i] == a[i]); if a[i] == 92 { assert(c[i + 1] == a[i + 1]); lem_gt_cat(a, b, i + 2, o); } else { lem_gt_cat(a, b, i + 1, o); } } else { lem_gt_shift(a, b, 0, o); } }
pub proof fn lem_gt_plain(s: Seq<int>, i: int, o: O) requires forall|j: int| 0 <= j < s.len() ==> in_i8(#[trigger] s[j]) && s[j] != 92, 0 <= i <= s.len() ensures gt(s, i, o) decreases s.len() - i { if i < s.len() { lem_gt_plain(s, i + 1, o); } }
pub proof fn lem_gt_pair(c: int, o: O) requires in_i8(c), pair_any(c, o) ensures gt(seq![92int, c], 0, o) { let s = seq![92int, c]; assert(s[0] == 92 && s[1] == c); assert(gt(s, 2, o)); }
pub proof fn lem_hex_max(u: P<int>, n: int) requires hex_ok(u, n), 0 <= n <= 4 ensures 0 <= hex_val(u, n) < pow16(n) decreases n { if n > 0 { assert(is_hex(u.s[u.o + (n - 1)])); assert(hex_ok(u, n - 1)); lem_hex_max(u, n - 1); } }
pub proof fn lem_utf8_gt(x: int, o: O) requires 0 <= x < 0x110000, x != 92 ensures gt(utf8(x), 0, o) { let s = utf8(x); assert forall|j: int| 0 <= j < s.len() implies in_i8(#[trigger] s[j]) && s[j] != 92 by { } lem_gt_plain(s, 0, o); }
pub proof fn lem_esc_gt(t: Seq<int>, p: int, o: O) requires 0 <= p < t.len(), in_i8(t[p]), p_esc(t, p, o).k == 0 ensures gt(p_esc(t, p, o).b, 0, o) {
    hide(gt); hide(utf8); let c = t[p]; let u = pat(t, p + 1); let l = pat(t, p + 5); let e = p_esc(t, p, o); lem_gt_pair2(o);
    if c == 34 || c == 47 { lem_gt_plain(e.b, 0, o); } else if c == 92 { } else if plain_esc(c) { lem_gt_pair(c, o); }
    else if c == 117 { if o.asc { } else { lem_hex_max(u, 4); let x = hex_val(u, 4); if is_hi(x) { lem_hex_max(padd(l, 2), 4); lem_utf8_gt(pair_val(u, l), o); } else if x == 92 { } else { lem_utf8_gt(x, o); } } }
    else { lem_gt_pair(c, o); } }
pub proof fn lem_gt_pair2(o: O) ensures gt(s"\\\\", 0, o), o.asc ==> gt(s"\\u", 0, o) { lem_gt_pair(92, o); if o.asc { lem_gt_pair(117, o); } }
pub proof fn lem_built_str(t: Seq<int>, p: int, o: O, acc: Seq<int>, w: int) requires 0 <= p, gt(acc, 0, o), p_str(t, p, o, acc, w).k == 1, forall|i: int| 0 <= i < t.len() ==> in_i8(#[trigger] t[i]) ensures built(p_str(t, p, o, acc, w).v, o) decreases t.len() - p {
    hide(gt); hide(p_esc); if p < t.len() { if t[p] == 34 { assert(built(V::Str(acc), o)); } else if t[p] == 92 { let e = p_esc(t, p + 1, o); assert(p_str(t, p, o, acc, w) == p_bs(t, p + 1, o, acc, w)); lem_esc_k(t, p + 1, o); lem_esc_gt(t, p + 1, o); lem_gt_cat(acc, e.b, 0, o); lem_built_str(t, e.p, o, acc + e.b, w + e.w); }
        else { let b = seq![t[p]]; assert(acc.push(t[p]) =~= acc + b); lem_gt_plain(b, 0, o); lem_gt_cat(acc, b, 0, o); lem_built_str(t, p + 1, o, acc.push(t[p]), w); } } }
pub proof fn lem_esc_k(t: Seq<int>, p: int, o: O) ensures p_esc(t, p, o).k == 0 || p_esc(t, p, o).k == 2 || p_esc(t, p, o).k == 3 { }
pub proof fn lem_num_ch(t: Seq<int>, p: int, d: bool, x: bool, last: int) requires 0 <= p <= t.len() ensures p <= num_scan(t, p, d, x, last).e <= t.len(), forall|i: int| p <= i < num_scan(t, p, d, x, last).e ==> num_ch(#[trigger] t[i]) decreases t.len() - p {
    if p < t.len() { let c = t[p]; if is_dig(c) { lem_num_ch(t, p + 1, d, x, c); } else if c == 46 && !d { lem_num_ch(t, p + 1, true, x, c); } else if (c == 101 || c == 69) && !x { lem_num_ch(t, p + 1, true, true, c); } else if (c == 43 || c == 45) && (last == 101 || last == 69) { lem_num_ch(t, p + 1, d, x, c); } } }
pub proof fn lem_built_num(t: Seq<int>, p: int, o: O) requires 0 <= p < t.len(), num_ch(t[p]), p_num(t, p).k == 1 ensures built(p_num(t, p).v, o) { let n = num_scan(t, p + 1, t[p] == 46, false, t[p]); lem_num_ch(t, p + 1, t[p] == 46, false, t[p]); let s = t.subrange(p, n.e); assert(num_txt(s)); ax_dbl_len(s); let r = num_val(s, n.d, n.e); assert(p_num(t, p) == r); if n.d { assert(from_txt(str_to_dbl(s), s)); assert(r.v == V::Dbl(str_to_dbl(s))); assert(is_num(str_to_dbl(s))); assert(built(V::Dbl(str_to_dbl(s)), o)); } else { let m = sto_val(s, 10); assert(built(V::Int(m), o) || !in_i32(m)); assert(built(V::Long(m), o) || in_i32(m)); } }
pub proof fn lem_built_tok(t: Seq<int>, p: int, o: O) requires 0 <= p, tok(t, p, o).k == 1, forall|i: int| 0 <= i < t.len() ==> in_i8(#[trigger] t[i]) ensures built(tok(t, p, o).v, o) decreases t.len() - p {
    hide(p_num); hide(p_str); if p < t.len() { let c = t[p]; if c == 34 { assert(gt(Seq::empty(), 0, o)); lem_built_str(t, p + 1, o, Seq::empty(), 0); } else if tolow(c) == 116 || tolow(c) == 102 { } else if tolow(c) == 110 { } else if is_dig(c) || c == 46 || c == 45 { lem_built_num(t, p, o); } else if is_punct(c) { } else if ign(c) { lem_built_tok(t, p + 1, o); } } }
pub open spec fn all_built(a: Seq<V>, o: O) -> bool { forall|i: int| 0 <= i < a.len() ==> built(#[trigger] a[i], o) }
pub open spec fn keys_built(k: Seq<Seq<int>>, o: O) -> bool { forall|i: int| 0 <= i < k.len() ==> gt(#[trigger] k[i], 0, o) }
pub open spec fn bytes(t: Seq<int>) -> bool { forall|i: int| 0 <= i < t.len() ==> in_i8(#[trigger] t[i]) }
pub proof fn lem_built(t: Seq<int>, p: int, o: O) requires 0 <= p <= t.len(), bytes(t), p_val(t, p, o).k == 1 ensures built(p_val(t, p, o).v, o) decreases t.len() - p, 0int {
    hide(tok); hide(p_val); hide(p_arr); hide(p_obj); hide(gt); hide(built);
    lem_p_val(t, p, o); let k = tok(t, p, o); if k.k == 0 && k.b =~= s"{" { lem_built_obj(t, k.p, o, Seq::empty(), Seq::empty(), 0); } else if k.k == 0 && k.b =~= s"[" { lem_built_arr(t, k.p, o, Seq::empty(), 0); } else { lem_built_tok(t, p, o); } }
pub proof fn lem_built_a(a: Seq<V>, o: O) requires all_built(a, o) ensures built(V::Arr(a), o) { }
pub proof fn lem_built_o(k: Seq<Seq<int>>, a: Seq<V>, o: O) requires all_built(a, o), keys_built(k, o), k.len() == a.len() ensures built(V::Obj(k, a), o) { }
pub proof fn lem_built_arr(t: Seq<int>, p: int, o: O, acc: Seq<V>, w: int) requires 0 <= p <= t.len(), bytes(t), p_arr(t, p, o, acc, w).k == 1, all_built(acc, o) ensures built(p_arr(t, p, o, acc, w).v, o) decreases t.len() - p, 1int {
    hide(tok); hide(p_val); hide(p_arr); hide(p_obj); hide(gt); hide(built);
    lem_p_arr(t, p, o, acc, w); lem_built_a(acc, o); let e = p_val(t, p, o); if e.k == 1 && p < e.p <= t.len() { lem_built(t, p, o); let n = tok(t, e.p, o); let a2 = acc.push(e.v); assert(all_built(a2, o)); lem_built_a(a2, o); if !(n.k == 0 && n.b =~= s"]") && n.k == 0 && n.b =~= s"," && e.p < n.p <= t.len() { lem_built_arr(t, n.p, o, a2, w + e.w + n.w); } } }
pub proof fn lem_built_obj(t: Seq<int>, p: int, o: O, ks: Seq<Seq<int>>, vs: Seq<V>, w: int) requires 0 <= p <= t.len(), bytes(t), p_obj(t, p, o, ks, vs, w).k == 1, all_built(vs, o), keys_built(ks, o), ks.len() == vs.len() ensures built(p_obj(t, p, o, ks, vs, w).v, o) decreases t.len() - p, 1int {
    hide(tok); hide(p_val); hide(p_arr); hide(p_obj); hide(gt); hide(built); hide(place); hide(key_idx);
    lem_p_obj(t, p, o, ks, vs, w); let k = tok(t, p, o); lem_built_o(ks, vs, o);
    if k.k == 0 && ks.len() == 0 && k.b =~= s"}" { } else {
    let s = k.v->Str_0; let c = tok(t, k.p, o); let i = key_idx(ks, s, 0); let ks1 = if has_key(ks, s) { ks.remove(i) } else { ks }; let vs1 = if has_key(ks, s) { vs.remove(i) } else { vs }; lem_idx_key(ks, s, 0); lem_built_tok(t, p, o); assert(gt(s, 0, o)) by { reveal(built); assert(built(k.v, o)); }
    if has_key(ks, s) { assert forall|j: int| 0 <= j < vs1.len() implies built(#[trigger] vs1[j], o) by { let x = if j < i { j } else { j + 1 }; assert(vs1[j] == vs[x]); } assert forall|j: int| 0 <= j < ks1.len() implies gt(#[trigger] ks1[j], 0, o) by { let x = if j < i { j } else { j + 1 }; assert(ks1[j] == ks[x]); } }
    let e = p_val(t, c.p, o); lem_built(t, c.p, o); let at = place(ks1, s, o.sort, 0); lem_place_in(ks1, s, o.sort, 0); let ks2 = ks1.insert(at, s); let vs2 = vs1.insert(at, e.v);
    assert forall|j: int| 0 <= j < vs2.len() implies built(#[trigger] vs2[j], o) by { if j < at { assert(vs2[j] == vs1[j]); } else if j > at { assert(vs2[j] == vs1[j - 1]); } } assert forall|j: int| 0 <= j < ks2.len() implies gt(#[trigger] ks2[j], 0, o) by { if j < at { assert(ks2[j] == ks1[j]); } else if j > at { assert(ks2[j] == ks1[j - 1]); } } lem_built_o(ks2, vs2, o); let n = tok(t, e.p, o);
    if !(n.k == 0 && n.b =~= s"}") && n.k == 0 && n.b =~= s"," && e.p < n.p <= t.len() { lem_built_obj(t, n.p, o, ks2, vs2, w + k.w + c.w + (if has_key(ks, s) { 1int } else { 0 }) + e.w + n.w); } } }
pub proof fn lem_place_in(ks: Seq<Seq<int>>, k: Seq<int>, sort: bool, p: int) requires 0 <= p <= ks.len() ensures p <= place(ks, k, sort, p) <= ks.len() decreases ks.len() - p { if p < ks.len() { lem_place_in(ks, k, sort, p + 1); } }
// ---- tokens of RFC 8259: when the text was read strictly, what is printed is made of them
pub open spec fn j_str(u: Seq<int>, i: int) -> bool decreases u.len() - i { 0 <= i < u.len() && (if u[i] == 34 { i + 1 == u.len() } else if u[i] == 92 { i + 1 < u.len() && (if u[i + 1] == 117 { i + 5 < u.len() && is_hex(u[i + 2]) && is_hex(u[i + 3]) && is_hex(u[i + 4]) && is_hex(u[i + 5]) && j_str(u, i + 6) } else { (u[i + 1] == 34 || u[i + 1] == 92 || u[i + 1] == 47 || plain_esc(u[i + 1])) && j_str(u, i + 2) }) } else { !ctl(u[i]) && j_str(u, i + 1) }) }
pub open spec fn j_tok(u: Seq<int>) -> bool { u == s"null" || u == s"true" || u == s"false" || j_num(u) || (u.len() > 0 && u[0] == 34 && j_str(u, 1)) }
pub proof fn lem_j_str(t: Seq<int>, q: int, s: Seq<int>, i: int, o: O) requires here(t, q, pr_esc(s, s.len() as int) + seq![34int]), t.len() == q + pr_esc(s, s.len() as int).len() + 1, 0 <= i <= s.len(), gs(s, i, o), o.est, !o.asc ensures j_str(t, q + pr_esc(s, i).len()) decreases s.len() - i {
    hide(j_str); let n = s.len() as int; let p = q + pr_esc(s, i).len(); lem_here_cat(t, q, pr_esc(s, n), seq![34int]); if i == n { lem_here1(t, p, 34); lem_j_end(t, p); } else { let c = s[i]; lem_esc_at(t, q, s, i); let e = pr_esc1(c);
        if c == 92 { let d = s[i + 1]; lem_here1(t, p, 92); lem_esc_at(t, q, s, i + 1); assert(pr_esc1(d) =~= seq![d]); lem_here1(t, p + 1, d); lem_j_str(t, q, s, i + 2, o); lem_j_two(t, p); }
        else if c == 34 { assert(e =~= seq![92int, 34int]); assert(e[0] == t[p + 0] && e[1] == t[p + 1]); lem_j_str(t, q, s, i + 1, o); lem_j_two(t, p); }
        else if 0 <= c < 32 { reveal_lit(s"\\u00"); assert(e.len() == 6); assert(e[0] == t[p + 0] && e[1] == t[p + 1] && e[2] == t[p + 2] && e[3] == t[p + 3] && e[4] == t[p + 4] && e[5] == t[p + 5]); lem_j_str(t, q, s, i + 1, o); assert(p + 6 == q + pr_esc(s, i + 1).len()); lem_j_six(t, p); }
        else { assert(e =~= seq![c]); lem_here1(t, p, c); lem_j_str(t, q, s, i + 1, o); lem_j_one(t, p); } } }
pub proof fn lem_j_end(t: Seq<int>, p: int) requires 0 <= p, p + 1 == t.len(), t[p] == 34 ensures j_str(t, p) { }
pub proof fn lem_j_one(t: Seq<int>, p: int) requires 0 <= p < t.len(), t[p] != 34, t[p] != 92, !ctl(t[p]), j_str(t, p + 1) ensures j_str(t, p) { }
pub proof fn lem_j_two(t: Seq<int>, p: int) requires 0 <= p, p + 1 < t.len(), t[p] == 92, t[p + 1] == 34 || t[p + 1] == 92 || t[p + 1] == 47 || plain_esc(t[p + 1]), j_str(t, p + 2) ensures j_str(t, p) { }
pub proof fn lem_j_six(t: Seq<int>, p: int) requires 0 <= p, p + 5 < t.len(), t[p] == 92, t[p + 1] == 117, is_hex(t[p + 2]), is_hex(t[p + 3]), is_hex(t[p + 4]), is_hex(t[p + 5]), j_str(t, p + 6) ensures j_str(t, p) { }
pub proof fn lem_j_quoted(s: Seq<int>, o: O) requires gs(s, 0, o), o.est, !o.asc ensures j_tok(quoted(s)) { let t = quoted(s); let u = pr_esc(s, s.len() as int) + seq![34int]; assert(t =~= seq![34int] + u); assert(here(t, 0, seq![34int] + u)); lem_here_cat(t, 0, seq![34int], u); assert(pr_esc(s, 0).len() == 0); lem_j_str(t, 1, s, 0, o); assert(t[0] == 34); }
pub proof fn lem_dig_end(a: Seq<int>, i: int) requires 0 <= i <= a.len(), forall|j: int| i <= j < a.len() ==> is_dig(#[trigger] a[j]) ensures dig_end(a, i) == a.len() decreases a.len() - i { if i < a.len() { lem_dig_end(a, i + 1); } }
pub proof fn lem_nat_lead(n: int) requires n >= 0 ensures nat_dec(n).len() > 0, nat_dec(n)[0] == 48 ==> n == 0 && nat_dec(n).len() == 1 decreases n { if n >= 10 { lem_nat_lead(n / 10); } }
pub proof fn lem_j_int(n: int) ensures j_tok(int_dec(n)) { let a = int_dec(n); lem_int_dec(n); if n < 0 { lem_nat_lead(-n); lem_nat_dec(-n); let b = nat_dec(-n); assert(a[1] == b[0]); assert(is_dig(b[0])); lem_dig_end(a, 1); } else { lem_nat_lead(n); lem_nat_dec(n); assert(is_dig(a[0])); lem_dig_end(a, 0); } assert(j_num(a)); }
pub proof fn lem_j_tok(v: V, o: O) requires !isc(v), good(v, o), o.est, !o.asc ensures j_tok(sct(v)) { match v { V::Int(n) => { lem_j_int(n); } V::Long(n) => { lem_j_int(n); } V::Dbl(d) => { let s = choose|s: Seq<int>| from_txt(d, s); ax_dbl_show(d, s); } V::Str(s) => { lem_j_quoted(s, o); } _ => { } } }
// ---- the property: what is printed for a document read from t, at element x of heap h
pub open spec fn printed(h: H, x: int, cz: bool) -> Seq<int> { txt(h, x, false, 0, cz) }
pub proof fn lem_whole(v: V, cz: bool, o: O) requires good(v, o), v_ok(v, o.sort) ensures reads(text_of(v, cz), 0, v, core(v, 0, cz).len() as int, o) { hide(core); hide(good); hide(v_ok); let t = text_of(v, cz); let c = core(v, 0, cz); assert(here(t, 0, c)); if !cz { assert(t[c.len() as int] == nl(cz)[0]); } assert(stop(t, c.len() as int)); lem_rt_val(t, 0, 0, v, 0, cz, o); }
pub proof fn lem_round_trip(t: Seq<int>, o: O, h: H, x: int, cz: bool) requires bytes(t), p_val(t, 0, o).k == 1, den(h, x, p_val(t, 0, o).v), neat(p_val(t, 0, o).v, o) ensures ({ let v = p_val(t, 0, o).v; let u = printed(h, x, cz);
    p_val(u, 0, o).k == 1 && p_val(u, 0, o).v == v && (forall|g: H, y: int| #[trigger] den(g, y, v) ==> printed(g, y, cz) =~= u) && rel(printed(h, x, false), printed(h, x, true)) }) {
    hide(core); hide(p_val); hide(den); hide(txt); hide(good); hide(neat); hide(built); hide(v_ok); hide(rel);
    let v = p_val(t, 0, o).v; lem_built(t, 0, o); lem_neat(v, o); lem_p_val_ok(t, 0, o); lem_whole(v, cz, o); assert forall|g: H, y: int| #[trigger] den(g, y, v) implies printed(g, y, false) =~= text_of(v, false) && printed(g, y, true) =~= text_of(v, true) by { lem_txt(g, y, v, false, 0, false); lem_txt(g, y, v, false, 0, true); lem_text_of(v, false); lem_text_of(v, true); }
    lem_rel_core(v, 0, 0, false, o); lem_rel_ind(0, false); lem_rel_cat(core(v, 0, false), core(v, 0, true), nl(false), Seq::empty()); assert(core(v, 0, true) + Seq::<int>::empty() =~= text_of(v, true)); }
pub proof fn lem_text_of(v: V, cz: bool) ensures ind(0, cz) + cma(false) + core(v, 0, cz) + nl(cz) =~= text_of(v, cz) { hide(core); assert(ind(0, cz) =~= Seq::<int>::empty()); }
