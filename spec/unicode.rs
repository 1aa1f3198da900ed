pub open spec fn is_hex(c: int) -> bool { 48 <= c <= 57 || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn hex_ok(p: P<int>, n: int) -> bool { forall|k: int| 0 <= k < n ==> is_hex(#[trigger] p.s[p.o + k]) }
pub open spec fn hex_val(p: P<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { hex_val(p, n - 1) * 16 + dig_val(p.s[p.o + n - 1]) } }
pub open spec fn pow16(n: int) -> int { if n <= 0 { 1 } else if n == 1 { 16 } else if n == 2 { 256 } else if n == 3 { 4096 } else { 65536 } }
pub open spec fn is_hi(c: int) -> bool { 0xd800 <= c <= 0xdbff }
pub open spec fn is_lo(c: int) -> bool { 0xdc00 <= c <= 0xdfff }
pub open spec fn is_sur(c: int) -> bool { 0xd800 <= c <= 0xdfff }
pub open spec fn padd(p: P<int>, n: int) -> P<int> { P { s: p.s, o: p.o + n, null: p.null } }
pub open spec fn pair_ok(h: P<int>, l: P<int>) -> bool {
    hex_ok(h, 4) && is_hi(hex_val(h, 4)) && l.s[l.o] == 92 && l.s[l.o + 1] == 117 && hex_ok(padd(l, 2), 4) && is_lo(hex_val(padd(l, 2), 4)) }
pub open spec fn pair_val(h: P<int>, l: P<int>) -> int { 0x10000 + (hex_val(h, 4) - 0xd800) * 0x400 + (hex_val(padd(l, 2), 4) - 0xdc00) }
pub open spec fn pat(s: Seq<int>, o: int) -> P<int> { P { s: s, o: o, null: false } }
// no zero in s[o..o+n)
pub open spec fn nz(s: Seq<int>, o: int, n: int) -> bool { o + n <= s.len() && forall|k: int| o <= k < o + n ==> #[trigger] s[k] != 0 }
pub open spec fn esc_at(s: Seq<int>, o: int) -> bool { nz(s, o, 6) && s[o] == 92 && s[o + 1] == 117 && hex_ok(pat(s, o + 2), 4) }
// the text with its \uXXXX escapes replaced: what follows position o up to the terminating zero
pub open spec fn xu(s: Seq<int>, o: int) -> Seq<int> decreases s.len() - o {
    if !(0 <= o < s.len()) || s[o] == 0 { Seq::empty() }
    else if esc_at(s, o) && is_hi(hex_val(pat(s, o + 2), 4)) && nz(s, o + 6, 6) && pair_ok(pat(s, o + 2), pat(s, o + 6)) {
        utf8(pair_val(pat(s, o + 2), pat(s, o + 6))) + xu(s, o + 12) }
    else if esc_at(s, o) && !is_sur(hex_val(pat(s, o + 2), 4)) { utf8(hex_val(pat(s, o + 2), 4)) + xu(s, o + 6) }
    else { seq![s[o]] + xu(s, o + 1) } }
pub proof fn lem_nul(s: Seq<int>, o: int) requires 0 <= o, has_nul(s, o) ensures o < s.len(), forall|n: int| n >= 0 && #[trigger] nz(s, o, n) ==> has_nul(s, o + n) && o + n < s.len() {
    let k = choose|k: int| o <= k < s.len() && s[k] == 0;
    assert forall|n: int| n >= 0 && #[trigger] nz(s, o, n) implies has_nul(s, o + n) && o + n < s.len() by { if k < o + n { assert(s[k] != 0); } }
}
pub proof fn lem_strn(s: Seq<int>, o: int, n: int) requires 0 <= n, 0 <= o <= s.len() ensures strn_len(s, o, n) <= n, strn_len(s, o, n) == n <==> nz(s, o, n) decreases n {
    if n > 0 && o < s.len() && s[o] != 0 {
        lem_strn(s, o + 1, n - 1);
        if strn_len(s, o, n) == n { assert forall|k: int| o <= k < o + n implies #[trigger] s[k] != 0 by { if k > o { assert(nz(s, o + 1, n - 1)); } } }
    } else if n > 0 && nz(s, o, n) { assert(s[o] != 0); }
}
pub proof fn lem_esc(s: Seq<int>, o: int) requires 0 <= o, o + 6 <= s.len(), s[o] == 92, s[o + 1] == 117, hex_ok(pat(s, o + 2), 4) ensures nz(s, o, 6), esc_at(s, o) {
    assert forall|k: int| o <= k < o + 6 implies #[trigger] s[k] != 0 by { if k >= o + 2 { assert(is_hex(pat(s, o + 2).s[pat(s, o + 2).o + (k - o - 2)])); } }
}
pub proof fn lem_pushnul(s: Seq<int>) ensures has_nul(s.push(0), 0) { assert(s.push(0)[s.len() as int] == 0); }
