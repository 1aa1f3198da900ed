// reading a typed pattern
pub open spec fn cz(s: Seq<int>, p: int) -> int { if 0 <= p < s.len() { s[p] } else { 0 } }
pub open spec fn trim(s: Seq<int>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && (s[p] == 32 || s[p] == 9) { trim(s, p + 1) } else { p } }
pub open spec fn pt_text(s: Seq<int>, p: int, esc: bool) -> Seq<int> decreases s.len() - p {
    if p < 0 || cz(s, p) == 0 { Seq::empty() }
    else if esc { (if s[p] == 47 { seq![47int] } else { seq![92int, s[p]] }) + pt_text(s, p + 1, false) }
    else if s[p] == 92 { pt_text(s, p + 1, true) } else if s[p] == 47 { Seq::empty() } else { seq![s[p]] + pt_text(s, p + 1, false) } }
// where the closing slash is, -1 when there is none
pub open spec fn pt_end(s: Seq<int>, p: int, esc: bool) -> int decreases s.len() - p {
    if p < 0 || cz(s, p) == 0 { -1 } else if esc { pt_end(s, p + 1, false) } else if s[p] == 92 { pt_end(s, p + 1, true) } else if s[p] == 47 { p } else { pt_end(s, p + 1, false) } }
// the suffix letters: flags may be combined, the last type wins
pub struct Suf { pub i: bool, pub w: bool, pub f: bool, pub e: bool, pub t: int }
pub open spec fn suf(s: Seq<int>, a: int, n: int) -> Suf decreases n {
    if n <= 0 { Suf { i: false, w: false, f: false, e: false, t: 0 } } else { let o = suf(s, a, n - 1); let c = s[a + n - 1];
        if c == 105 { Suf { i: true, ..o } } else if c == 119 { Suf { w: true, ..o } } else if c == 102 { Suf { f: true, ..o } } else if c == 101 { Suf { e: true, ..o } }
        else if c == 98 { Suf { t: 1, ..o } } else if c == 110 { Suf { t: 2, ..o } } else if c == 115 { Suf { t: 3, ..o } } else if c == 111 { Suf { t: 4, ..o } } else { o } } }
pub open spec fn fl_val(o: Suf) -> int { b2i(o.i) + 2 * b2i(o.w) + 4 * b2i(o.f) + 8 * b2i(o.e) }
pub open spec fn re_opts(i: bool) -> int { if i { 17 } else { 16 } }
// the pattern p read from a text t with the suffixes o
pub open spec fn pat_is(p: SearchPattern, t: Seq<int>, o: Suf) -> bool {
    p.typeFlag == o.t && if o.e { if re_valid(t, re_opts(o.i)) { p.flags == fl_val(o) && p.regex == re_make(t, re_opts(o.i)) && p.regex != 0 && p.pattern =~= t } else { p.flags == fl_val(Suf { e: false, ..o }) && p.pattern.len() == 0 && p.regex == 0 } }
    else { p.flags == fl_val(o) && p.regex == 0 && p.pattern =~= if o.i { lowers(t) } else { t } } }
pub open spec fn pat_ok(p: SearchPattern) -> bool { 0 <= p.flags < 16 && 0 <= p.typeFlag <= 4 && ((bit(p.flags, 8) == 1) == (p.regex != 0)) }
// comparison of characters
pub open spec fn ch_eq(i: bool, a: int, b: int) -> bool { let c = if a == 9 { 32 } else { a }; if i { tolow(c) == b } else { c == b } }
pub open spec fn ch_by(i: bool) -> spec_fn(int, int) -> bool { |a: int, b: int| ch_eq(i, a, b) }
pub open spec fn sp_f(p: SearchPattern) -> spec_fn(int, int) -> bool { ch_by(bit(p.flags, 1) == 1) }
// text t contains q
pub open spec fn has_at(i: bool, s: Seq<int>, q: Seq<int>, p: int) -> bool { 0 <= p && p + q.len() <= s.len() && forall|k: int| 0 <= k < q.len() ==> ch_eq(i, s[p + k], #[trigger] q[k]) }
pub open spec fn contains(i: bool, s: Seq<int>, q: Seq<int>) -> bool { exists|p: int| has_at(i, s, q, p) }
pub open spec fn blank_at(s: Seq<int>, p: int) -> bool { p < 0 || p >= s.len() || s[p] == 32 || s[p] == 9 }
pub open spec fn has_word(i: bool, s: Seq<int>, q: Seq<int>) -> bool { exists|p: int| #[trigger] has_at(i, s, q, p) && blank_at(s, p - 1) && blank_at(s, p + q.len()) }
pub open spec fn pat_type(p: SearchPattern, tag: int) -> bool {
    p.typeFlag == 0 || p.typeFlag == 1 && is_JSonPrimitive_bool(tag) || p.typeFlag == 2 && (is_JSonPrimitive_int(tag) || is_JSonPrimitive_double(tag) || is_JSonPrimitive_longlong(tag)) || p.typeFlag == 3 && is_JSonPrimitive_string(tag) || p.typeFlag == 4 && is_JSonObjectEntry(tag) }
pub open spec fn pat_text(p: SearchPattern, s: Seq<int>) -> bool {
    let i = bit(p.flags, 1) == 1;
    if bit(p.flags, 8) == 1 { re_search(p.regex, s) }
    else { (bit(p.flags, 4) == 1 ==> s.len() == p.pattern.len()) && if bit(p.flags, 2) == 1 { has_word(i, s, p.pattern) } else { contains(i, s, p.pattern) } } }

pub proof fn lem_by(i: bool, s: Seq<int>, q: Seq<int>, p: int) ensures is_at_by(ch_by(i), s, q, p) == has_at(i, s, q, p) {
    if is_at_by(ch_by(i), s, q, p) { assert forall|k: int| 0 <= k < q.len() implies ch_eq(i, s[p + k], #[trigger] q[k]) by { assert(ch_by(i)(s[p + k], q[k])); } }
    if has_at(i, s, q, p) { assert forall|k: int| 0 <= k < q.len() implies ch_by(i)(s[p + k], #[trigger] q[k]) by { assert(ch_eq(i, s[p + k], q[k])); } } }
pub proof fn lem_find_by(i: bool, s: Seq<int>, q: Seq<int>, p: int) requires p >= 0
    ensures find_by(ch_by(i), s, q, p) >= 0 ==> has_at(i, s, q, find_by(ch_by(i), s, q, p)), find_by(ch_by(i), s, q, p) < 0 ==> forall|k: int| k >= p ==> !has_at(i, s, q, k)
    decreases s.len() + 1 - p {
    if !(p + q.len() > s.len()) { lem_by(i, s, q, p); if !is_at_by(ch_by(i), s, q, p) { lem_find_by(i, s, q, p + 1); } } }
pub proof fn lem_contains(i: bool, s: Seq<int>, q: Seq<int>) ensures contains(i, s, q) == (find_by(ch_by(i), s, q, 0) >= 0), find_by(ch_by(i), s, q, 0) >= 0 ==> find_by(ch_by(i), s, q, 0) + q.len() <= s.len() {
    lem_find_by(i, s, q, 0); }
// a whole word is the pattern between blanks in the padded text
pub open spec fn pad(s: Seq<int>) -> Seq<int> { (seq![32int] + s) + seq![32int] }
pub proof fn lem_word(i: bool, s: Seq<int>, q: Seq<int>) ensures has_word(i, s, q) == contains(i, pad(s), pad(q)) {
    if has_word(i, s, q) { let p = choose|p: int| #[trigger] has_at(i, s, q, p) && blank_at(s, p - 1) && blank_at(s, p + q.len());
        assert forall|k: int| 0 <= k < pad(q).len() implies ch_eq(i, pad(s)[p + k], #[trigger] pad(q)[k]) by { if 0 < k < q.len() + 1 { assert(ch_eq(i, s[p + k - 1], q[k - 1])); } }
        assert(has_at(i, pad(s), pad(q), p)); }
    if contains(i, pad(s), pad(q)) { let p = choose|p: int| has_at(i, pad(s), pad(q), p); lem_word2(i, s, q, p); } }
pub proof fn lem_word2(i: bool, s: Seq<int>, q: Seq<int>, p: int) requires has_at(i, pad(s), pad(q), p) ensures has_word(i, s, q) {
    assert forall|k: int| 0 <= k < q.len() implies ch_eq(i, s[p + k], #[trigger] q[k]) by { assert(ch_eq(i, pad(s)[p + (k + 1)], pad(q)[k + 1])); }
    assert(has_at(i, s, q, p)); assert(ch_eq(i, pad(s)[p + 0], pad(q)[0])); let e = q.len() as int + 1; assert(ch_eq(i, pad(s)[p + e], pad(q)[e])); }

pub proof fn lem_cstr(s: Seq<int>, o: int) requires 0 <= o, has_nul(s, o) ensures 0 <= cstr_len(s, o) < s.len() - o, s[o + cstr_len(s, o)] == 0, forall|k: int| o <= k < o + cstr_len(s, o) ==> s[k] != 0 decreases s.len() - o {
    if 0 <= o < s.len() && s[o] != 0 { assert(has_nul(s, o + 1)); lem_cstr(s, o + 1); } }
pub proof fn lem_cstr_suffix(s: Seq<int>, o: int) requires no_nul(s), 0 <= o <= s.len() ensures has_nul(s.push(0), o), cstr_len(s.push(0), o) == s.len() - o decreases s.len() - o {
    assert(s.push(0)[s.len() as int] == 0);
    if o < s.len() { lem_cstr_suffix(s, o + 1); assert(s.push(0)[o] == s[o]); } }
pub proof fn lem_suf_suffix(s: Seq<int>, a: int, n: int) requires 0 <= a, a + n <= s.len() ensures suf(s.push(0), a, n) == suf(s, a, n) decreases n { if n > 0 { lem_suf_suffix(s, a, n - 1); } }
pub open spec fn pat_fine(p: SearchPattern) -> bool { pat_ok(p) && (bit(p.flags, 8) == 1 || p.pattern.len() > 0) }
