// Machine model shared by every generated verification unit.
#[verifier::external_body]
pub proof fn nd<T>() -> (r: T) { unimplemented!() }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Opq<T> { x: core::marker::PhantomData<T> }

pub open spec fn in_i8(x: int) -> bool { -128 <= x <= 127 }
pub open spec fn in_u8(x: int) -> bool { 0 <= x <= 255 }
pub open spec fn in_i16(x: int) -> bool { -32768 <= x <= 32767 }
pub open spec fn in_u16(x: int) -> bool { 0 <= x <= 65535 }
pub open spec fn in_i32(x: int) -> bool { -0x8000_0000 <= x <= 0x7fff_ffff }
pub open spec fn in_u32(x: int) -> bool { 0 <= x <= 0xffff_ffff }
pub open spec fn in_i64(x: int) -> bool { -0x8000_0000_0000_0000 <= x <= 0x7fff_ffff_ffff_ffff }
pub open spec fn in_u64(x: int) -> bool { 0 <= x <= 0xffff_ffff_ffff_ffff }
pub open spec fn wrap_u8(x: int) -> int { if in_u8(x) { x } else { x % 256 } }
pub open spec fn wrap_i8(x: int) -> int { if in_i8(x) { x } else { (x + 128) % 256 - 128 } }
pub open spec fn wrap_u16(x: int) -> int { if in_u16(x) { x } else { x % 65536 } }
pub open spec fn wrap_i16(x: int) -> int { if in_i16(x) { x } else { (x + 32768) % 65536 - 32768 } }
pub open spec fn wrap_u32(x: int) -> int { if in_u32(x) { x } else { x % 0x1_0000_0000 } }
pub open spec fn wrap_i32(x: int) -> int { if in_i32(x) { x } else { (x + 0x8000_0000) % 0x1_0000_0000 - 0x8000_0000 } }
pub open spec fn wrap_u64(x: int) -> int { if in_u64(x) { x } else { x % 0x1_0000_0000_0000_0000 } }
pub open spec fn wrap_i64(x: int) -> int { if in_i64(x) { x } else { (x + 0x8000_0000_0000_0000) % 0x1_0000_0000_0000_0000 - 0x8000_0000_0000_0000 } }
pub open spec fn bit(x: int, p: int) -> int { (x / p) % 2 }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn imin(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
pub uninterp spec fn band_big(a: int, b: int) -> int;
pub open spec fn band(a: int, b: int) -> int { if in_i64(a) && in_i64(b) { ((a as i64) & (b as i64)) as int } else { band_big(a, b) } }
pub open spec fn pw2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pw2(n - 1) } }
pub uninterp spec fn bor_any(a: int, b: int) -> int;
pub open spec fn bor(a: int, b: int) -> int { if b == 0 { a } else if b == 1 || b == 2 || b == 4 || b == 8 { a + b * (1 - bit(a, b)) } else { bor_any(a, b) } }
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b >= 0 { a / b } else { -(a / (-b)) } } else { if b >= 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn tmod(a: int, b: int) -> int { a - b * tdiv(a, b) }

pub struct Pair<A, B> { pub first: A, pub second: B }
// raw pointer into an array: elements, offset, nullness
pub struct P<T> { pub s: Seq<T>, pub o: int, pub null: bool }
pub open spec fn p_null<T>() -> P<T> { P { s: Seq::empty(), o: 0, null: true } }
pub open spec fn p_add<T>(p: P<T>, n: int) -> P<T> { P { s: p.s, o: p.o + n, null: p.null } }
pub open spec fn p_ok<T>(p: P<T>, n: int) -> bool { !p.null && 0 <= p.o + n < p.s.len() }
// iterator: the container it walks and the position in it
pub struct It<T> { pub c: Seq<T>, pub i: int }

pub open spec fn has_nul(s: Seq<int>, o: int) -> bool { exists|k: int| o <= k < s.len() && s[k] == 0 }
pub open spec fn cstr_len(s: Seq<int>, o: int) -> int decreases s.len() - o {
    if 0 <= o < s.len() && s[o] != 0 { 1 + cstr_len(s, o + 1) } else { 0 } }
pub open spec fn cstr(p: P<int>) -> Seq<int> { p.s.subrange(p.o, p.o + cstr_len(p.s, p.o)) }
pub open spec fn no_nul(s: Seq<int>) -> bool { forall|k: int| 0 <= k < s.len() ==> s[k] != 0 }
pub open spec fn c_str(s: Seq<int>) -> P<int> { P { s: s.push(0), o: 0, null: false } }
pub proof fn lem_cnul_at(s: Seq<int>, o: int) requires 0 <= o <= s.len() ensures has_nul(c_str(s).s, o) { assert(c_str(s).s[s.len() as int] == 0); }
pub proof fn lem_cnul(s: Seq<int>) ensures has_nul(c_str(s).s, 0) { assert(c_str(s).s[s.len() as int] == 0); }
pub open spec fn rep_char(n: int, c: int) -> Seq<int> { Seq::new(if n < 0 { 0nat } else { n as nat }, |i: int| c) }

pub open spec fn tolow(c: int) -> int { if 65 <= c <= 90 { c + 32 } else { c } }
pub open spec fn lowers(s: Seq<int>) -> Seq<int> { s.map_values(|c: int| tolow(c)) }

// input stream: text, position, state bits, last count
pub struct Stream { pub inp: Seq<int>, pub pos: int, pub eof: bool, pub fail: bool, pub gc: int }
pub open spec fn st_ok(s: Stream) -> bool { 0 <= s.pos <= s.inp.len() }
pub open spec fn st_good(s: Stream) -> bool { !s.eof && !s.fail }
pub open spec fn st_get(s: Stream) -> Stream {
    if st_good(s) { if s.pos < s.inp.len() { Stream { pos: s.pos + 1, gc: 1, ..s } } else { Stream { eof: true, fail: true, gc: 0, ..s } } }
    else { Stream { fail: true, gc: 0, ..s } } }
pub open spec fn st_getc(s: Stream) -> int {
    if st_good(s) && s.pos < s.inp.len() { if s.inp[s.pos] < 0 { s.inp[s.pos] + 256 } else { s.inp[s.pos] } } else { -1 } }
pub open spec fn st_unget(s: Stream) -> Stream {
    if !s.fail && s.pos > 0 { Stream { eof: false, pos: s.pos - 1, gc: 0, ..s } } else { Stream { eof: false, fail: true, gc: 0, ..s } } }
pub open spec fn st_readn(s: Stream, n: int) -> int { if st_good(s) && n > 0 { imin(n, s.inp.len() - s.pos) } else { 0 } }
pub open spec fn st_read(s: Stream, n: int) -> Stream {
    if st_good(s) { let g = st_readn(s, n); Stream { pos: s.pos + g, gc: g, eof: g < n, fail: g < n, ..s } }
    else { Stream { fail: true, gc: 0, ..s } } }
pub open spec fn st_tell(s: Stream) -> Stream { if st_good(s) { s } else { Stream { fail: true, ..s } } }
pub open spec fn copy_into(dst: Seq<int>, at: int, src: Seq<int>, so: int, n: int) -> Seq<int> {
    Seq::new(dst.len(), |i: int| if at <= i < at + n { src[so + i - at] } else { dst[i] }) }

// floating point values are opaque; the facts used about them are listed as axioms
#[verifier::external_body]
pub struct Dbl { x: u64 }
pub uninterp spec fn d_of(x: int) -> Dbl;
pub uninterp spec fn d_lit(s: int) -> Dbl;
pub uninterp spec fn d_add(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn d_sub(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn d_mul(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn d_div(a: Dbl, b: Dbl) -> Dbl;
pub uninterp spec fn d_lt(a: Dbl, b: Dbl) -> bool;
pub uninterp spec fn d_le(a: Dbl, b: Dbl) -> bool;
pub uninterp spec fn d_eq(a: Dbl, b: Dbl) -> bool;
pub uninterp spec fn d_trunc(a: Dbl) -> int;
pub uninterp spec fn d_toint_ok(a: Dbl, lo: int, hi: int) -> bool;
pub uninterp spec fn d_round(bits: int, a: Dbl) -> Dbl;
pub uninterp spec fn d_isinf(a: Dbl) -> bool;

// library model
// file to be written: its path once opened; fs_has: the files existing before the call
pub struct Ofs { pub open: bool, pub path: Seq<int> }
pub uninterp spec fn fs_opens(p: Seq<int>) -> bool;
pub uninterp spec fn fs_has(p: Seq<int>) -> bool;
pub open spec fn toup(c: int) -> int { if 97 <= c <= 122 { c - 32 } else { c } }
pub open spec fn uppers(s: Seq<int>) -> Seq<int> { s.map_values(|c: int| toup(c)) }
pub open spec fn upto_nul(s: Seq<int>) -> Seq<int> { s.subrange(0, cstr_len(s, 0)) }
pub open spec fn str_at(s: Seq<int>, i: int) -> int { if i == s.len() { 0 } else { s[i] } }
pub open spec fn substr(s: Seq<int>, a: int, n: int) -> Seq<int> { s.subrange(a, imin(a + n, s.len() as int)) }
pub open spec fn str_lt(a: Seq<int>, b: Seq<int>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if wrap_u8(a[0]) != wrap_u8(b[0]) { wrap_u8(a[0]) < wrap_u8(b[0]) } else { str_lt(a.drop_first(), b.drop_first()) } }
pub open spec fn is_at(s: Seq<int>, t: Seq<int>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) =~= t }
pub open spec fn find_from(s: Seq<int>, t: Seq<int>, p: int) -> int decreases s.len() + 1 - p {
    if p < 0 || p + t.len() > s.len() { -1 } else if is_at(s, t, p) { p } else { find_from(s, t, p + 1) } }
pub open spec fn str_find(s: Seq<int>, t: Seq<int>, p: int) -> int { let r = find_from(s, t, p); if r < 0 { 0xffff_ffff_ffff_ffff } else { r } }
pub open spec fn it_search(a: It<int>, b: It<int>, c: It<int>, d: It<int>) -> It<int> {
    let r = find_from(a.c.subrange(a.i, b.i), c.c.subrange(c.i, d.i), 0); It { c: a.c, i: if r < 0 { b.i } else { a.i + r } } }
// std::search with a predicate
pub open spec fn is_at_by(f: spec_fn(int, int) -> bool, s: Seq<int>, t: Seq<int>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> f(s[p + k], #[trigger] t[k]) }
pub open spec fn find_by(f: spec_fn(int, int) -> bool, s: Seq<int>, t: Seq<int>, p: int) -> int decreases s.len() + 1 - p {
    if p < 0 || p + t.len() > s.len() { -1 } else if is_at_by(f, s, t, p) { p } else { find_by(f, s, t, p + 1) } }
pub open spec fn it_search_by(f: spec_fn(int, int) -> bool, a: It<int>, b: It<int>, c: It<int>, d: It<int>) -> It<int> {
    let r = find_by(f, a.c.subrange(a.i, b.i), c.c.subrange(c.i, d.i), 0); It { c: a.c, i: if r < 0 { b.i } else { a.i + r } } }
pub open spec fn idx_from<T>(s: Seq<T>, x: T, p: int, e: int) -> int decreases e - p { if p >= e { e } else if s[p] == x { p } else { idx_from(s, x, p + 1, e) } }
pub open spec fn it_find<T>(a: It<T>, b: It<T>, x: T) -> It<T> { It { c: a.c, i: idx_from(a.c, x, a.i, b.i) } }
pub open spec fn digit(d: int) -> int { 48 + d }
pub open spec fn nat_dec(n: int) -> Seq<int> decreases n { if n < 10 { seq![digit(n)] } else { nat_dec(n / 10).push(digit(n % 10)) } }
pub open spec fn int_dec(n: int) -> Seq<int> { if n < 0 { seq![45int] + nat_dec(-n) } else { nat_dec(n) } }
pub uninterp spec fn dbl_text(d: Dbl) -> Seq<int>;
pub uninterp spec fn dbl_fmt(d: Dbl, prec: int, how: int) -> Seq<int>;
// printf prints numbers without zero bytes, in at most 24 characters with %.17g
#[verifier::external_body]
pub proof fn ax_dbl_fmt(d: Dbl, prec: int, how: int) ensures no_nul(dbl_fmt(d, prec, how)), dbl_fmt(d, prec, how).len() > 0, 0 <= prec <= 17 && how == 103 ==> dbl_fmt(d, prec, how).len() <= 24 {}
pub open spec fn fmt_into(d: Seq<int>, at: int, n: int, t: Seq<int>) -> Seq<int> {
    if n <= 0 { d } else { let k = imin(n - 1, t.len() as int); Seq::new(d.len(), |i: int| if at <= i < at + k { t[i - at] } else if i == at + k { 0 } else { d[i] }) } }
pub proof fn lem_cstr_at(s: Seq<int>, o: int, n: int) requires 0 <= o <= n < s.len(), s[n] == 0, forall|k: int| o <= k < n ==> #[trigger] s[k] != 0 ensures cstr_len(s, o) == n - o decreases n - o { if o < n { assert(s[o] != 0); lem_cstr_at(s, o + 1, n); } }
pub proof fn lem_fmt(d: Seq<int>, at: int, n: int, t: Seq<int>) ensures n > 0 && 0 <= at && at + n <= d.len() ==> has_nul(fmt_into(d, at, n, t), at) && (no_nul(t) && t.len() < n ==> cstr_len(fmt_into(d, at, n, t), at) == t.len() && fmt_into(d, at, n, t).subrange(at, at + t.len()) =~= t) {
    if n > 0 && 0 <= at && at + n <= d.len() { let r = fmt_into(d, at, n, t); let k = imin(n - 1, t.len() as int); assert(r[at + k] == 0);
        if no_nul(t) && t.len() < n { assert forall|j: int| at <= j < at + t.len() implies #[trigger] r[j] != 0 by { assert(t[j - at] != 0); } lem_cstr_at(r, at, at + t.len()); } } }
pub proof fn lem_upto(s: Seq<int>) requires no_nul(s) ensures upto_nul(s) =~= s { lem_cstr_end(s, 0); }
pub proof fn lem_cstr_end(s: Seq<int>, o: int) requires no_nul(s), 0 <= o <= s.len() ensures cstr_len(s, o) == s.len() - o decreases s.len() - o { if o < s.len() { lem_cstr_end(s, o + 1); } }
pub uninterp spec fn map_seq<K, V>(m: Map<K, V>) -> Seq<Pair<K, V>>;
pub uninterp spec fn set_seq<T>(s: Set<T>) -> Seq<T>;
pub uninterp spec fn set_idx<T>(s: Set<T>, x: T) -> int;
pub open spec fn set_end<T>(s: Set<T>) -> It<T> { It { c: set_seq(s), i: set_seq(s).len() as int } }
pub open spec fn set_find<T>(s: Set<T>, x: T) -> It<T> { It { c: set_seq(s), i: if s.contains(x) { set_idx(s, x) } else { set_seq(s).len() as int } } }
#[verifier::external_body]
pub proof fn ax_set_find<T>(s: Set<T>, x: T) ensures s.contains(x) ==> 0 <= set_idx(s, x) < set_seq(s).len() && set_seq(s)[set_idx(s, x)] == x {}
#[verifier::external_body]
pub proof fn ax_set_idx<T>(s: Set<T>, x: T) requires s.contains(x) ensures 0 <= set_idx(s, x) < set_seq(s).len(), set_seq(s)[set_idx(s, x)] == x {}
pub open spec fn has_nul_in(s: Seq<int>, o: int, n: int) -> bool { exists|k: int| o <= k < s.len() && k < o + n && s[k] == 0 }
pub open spec fn strn_len(s: Seq<int>, o: int, n: int) -> int decreases n { if n <= 0 || o < 0 || o >= s.len() || s[o] == 0 { 0 } else { 1 + strn_len(s, o + 1, n - 1) } }
// std::stoi family: optional blanks and sign, then digits
pub open spec fn is_sp(c: int) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn dig_val(c: int) -> int { if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 122 { c - 87 } else if 65 <= c <= 90 { c - 55 } else { 99 } }
pub open spec fn digs(s: Seq<int>, p: int, b: int, acc: int) -> int decreases s.len() - p {
    if 0 <= p < s.len() && dig_val(s[p]) < b { digs(s, p + 1, b, acc * b + dig_val(s[p])) } else { acc } }
pub uninterp spec fn sto_valid(s: Seq<int>, b: int) -> bool;
pub uninterp spec fn sto_val(s: Seq<int>, b: int) -> int;
#[verifier::external_body]
pub proof fn ax_sto(s: Seq<int>, b: int) requires s.len() > 0, b == 10 || b == 16, dig_val(s[0]) < b, b == 10 || s.len() < 2 || (s[1] != 120 && s[1] != 88)
    ensures sto_valid(s, b), sto_val(s, b) == digs(s, 0, b, 0) {}
#[verifier::external_body]
pub proof fn ax_sto_neg(s: Seq<int>, b: int) requires s.len() > 1, b == 10, s[0] == 45, dig_val(s[1]) < b
    ensures sto_valid(s, b), sto_val(s, b) == -digs(s, 1, b, 0) {}
pub uninterp spec fn str_to_dbl(s: Seq<int>) -> Dbl;
// number of characters strtod understands
pub uninterp spec fn dbl_len(s: Seq<int>) -> int;
#[verifier::external_body]
pub proof fn ax_dbl_len(s: Seq<int>) ensures 0 <= dbl_len(s) <= s.len() {}
pub uninterp spec fn par_isStrict(p: int) -> bool;
pub uninterp spec fn par_isIgnoringUnicode(p: int) -> bool;
pub uninterp spec fn par_sortObjects(p: int) -> bool;
pub uninterp spec fn mb_len(s: Seq<int>) -> int;
// UTF-8
pub open spec fn wc_ok(c: int) -> bool { 0 <= c <= 0x10ffff && !(0xd800 <= c <= 0xdfff) }
pub open spec fn wc_valid(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> wc_ok(#[trigger] s[i]) }
pub open spec fn sb(b: int) -> int { if b >= 128 { b - 256 } else { b } }
pub open spec fn utf8(c: int) -> Seq<int> {
    if c < 0x80 { seq![c] }
    else if c < 0x800 { seq![sb(0xc0 + c / 64), sb(0x80 + c % 64)] }
    else if c < 0x10000 { seq![sb(0xe0 + c / 4096), sb(0x80 + (c / 64) % 64), sb(0x80 + c % 64)] }
    else { seq![sb(0xf0 + c / 262144), sb(0x80 + (c / 4096) % 64), sb(0x80 + (c / 64) % 64), sb(0x80 + c % 64)] } }
pub open spec fn utf8_bytes(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { utf8_bytes(s.drop_last()) + utf8(s.last()) } }
// regular expressions
pub uninterp spec fn re_default() -> int;
pub uninterp spec fn re_valid(s: Seq<int>, f: int) -> bool;
pub uninterp spec fn re_make(s: Seq<int>, f: int) -> int;
pub uninterp spec fn re_search(r: int, s: Seq<int>) -> bool;
