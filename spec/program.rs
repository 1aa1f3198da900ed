// ---- the program: its inputs, one after the other
pub uninterp spec fn at_cin() -> int;
pub uninterp spec fn adr_Params(v: Params) -> int;
// what a stream holds before anything is read from it
pub uninterp spec fn in_stream(p: int) -> Stream;
pub open spec fn fresh_in(s: Stream) -> bool { st_ok(s) && s.pos == 0 && s.inp.len() <= 0x7fff_ffff && (!st_good(s) ==> s.inp.len() == 0) && forall|i: int| 0 <= i < s.inp.len() ==> in_i8(#[trigger] s.inp[i]) }
pub type In = Pair<Seq<int>, int>;
pub open spec fn inputs_of(p: Params) -> Seq<In> { if p.inputs.len() > 0 { p.inputs } else { seq![Pair { first: s"STDIN", second: at_cin() }] } }
pub open spec fn inputs_ok(s: Seq<In>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).second > 0 && fresh_in(in_stream(s[i].second)) }
// what the grammar says of an input
pub open spec fn got(i: In, p: Params) -> Tk { p_val(in_stream(i.second).inp, 0, opts(adr_Params(p))) }
pub open spec fn form(v: V, cz: bool) -> Seq<int> { ind(0, cz) + cma(false) + core(v, 0, cz) + nl(cz) }
pub open spec fn all_in(s: Seq<In>, p: Params, n: int) -> bool { forall|i: int| 0 <= i < n && i < s.len() ==> got(#[trigger] s[i], p).k == 1 }
// the documents of the first n inputs, as printed, up to the first one refused
pub open spec fn forms(s: Seq<In>, p: Params, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { forms(s, p, n - 1) + form(got(s[n - 1], p).v, p.compressMode) } }
pub open spec fn first_bad(s: Seq<In>, p: Params, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && got(s[i], p).k == 1 { first_bad(s, p, i + 1) } else { i } }
pub proof fn lem_first(s: Seq<In>, p: Params, n: int) requires 0 <= n <= s.len(), all_in(s, p, n), n == s.len() || got(s[n], p).k != 1 ensures first_bad(s, p, 0) == n { lem_first_from(s, p, 0, n); }
pub proof fn lem_first_from(s: Seq<In>, p: Params, i: int, n: int) requires 0 <= i <= n <= s.len(), all_in(s, p, n), n == s.len() || got(s[n], p).k != 1 ensures first_bad(s, p, i) == n decreases n - i { if i < n { assert(got(s[i], p).k == 1); lem_first_from(s, p, i + 1, n); } }
// n more warnings, all about the file f
pub open spec fn warned(a: Seq<Warning>, b: Seq<Warning>, f: Seq<int>, n: int) -> bool { b.len() == a.len() + n && a.is_prefix_of(b) && forall|i: int| a.len() <= i < b.len() ==> (#[trigger] b[i])._filename == f }
// files written so far: one each, new, nothing else touched
pub type FS = Map<Seq<int>, Seq<int>>;
pub open spec fn fs_new(a: FS, b: FS, f: Seq<Seq<int>>) -> bool {
    (forall|i: int| 0 <= i < f.len() ==> !a.dom().contains(#[trigger] f[i]) && b.dom().contains(f[i]) && no_nul(f[i]))
    && (forall|x: Seq<int>| #[trigger] a.dom().contains(x) ==> b.dom().contains(x) && b[x] == a[x])
    && (forall|x: Seq<int>| #[trigger] b.dom().contains(x) ==> a.dom().contains(x) || f.contains(x)) }
pub open spec fn each_own(f: Seq<Seq<int>>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] != #[trigger] f[j] }
pub open spec fn holds(b: FS, f: Seq<Seq<int>>, s: Seq<In>, p: Params) -> bool { f.len() <= s.len() && forall|i: int| 0 <= i < f.len() ==> b[#[trigger] f[i]] == form(got(s[i], p).v, p.compressMode) }
pub proof fn lem_nat_nonul(n: int) requires n >= 0 ensures no_nul(nat_dec(n)) decreases n { if n >= 10 { lem_nat_nonul(n / 10); } }
pub proof fn lem_upto_all() ensures forall|s: Seq<int>| no_nul(s) ==> #[trigger] upto_nul(s) =~= s { assert forall|s: Seq<int>| no_nul(s) implies #[trigger] upto_nul(s) =~= s by { lem_upto(s); } }
pub proof fn lem_fs_none(a: FS, s: Seq<In>, p: Params) ensures fs_new(a, a, Seq::empty()), each_own(Seq::empty()), holds(a, Seq::empty(), s, p) { }
pub proof fn lem_fs_words(a: FS, b: FS, f: Seq<Seq<int>>) requires fs_new(a, b, f) ensures words_ok(f) { assert forall|k: int| 0 <= k < f.len() implies no_nul(#[trigger] f[k]) by { assert(b.dom().contains(f[k])); } }
// one more file
pub proof fn lem_fs_more(a: FS, b: FS, c: FS, f: Seq<Seq<int>>, x: Seq<int>, t: Seq<int>, s: Seq<In>, p: Params) requires fs_new(a, b, f), each_own(f), holds(b, f, s, p), !b.dom().contains(x), no_nul(x), c =~= b.insert(x, t), f.len() < s.len()
    ensures fs_new(a, c, f.push(x)), each_own(f.push(x)), t == form(got(s[f.len() as int], p).v, p.compressMode) ==> holds(c, f.push(x), s, p) {
    let g = f.push(x); assert forall|i: int| 0 <= i < f.len() implies f[i] != x by { assert(b.dom().contains(f[i])); }
    assert forall|y: Seq<int>| #[trigger] c.dom().contains(y) implies a.dom().contains(y) || g.contains(y) by { if y == x { assert(g[f.len() as int] == x); } else { assert(b.dom().contains(y)); if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; assert(g[i] == y); } } } }
pub proof fn lem_fs_rm(a: FS, b: FS, f: Seq<Seq<int>>, n: int) requires 0 <= n < f.len(), fs_new(a, b, f.skip(n)), each_own(f), !a.dom().contains(f[n]) ensures fs_new(a, b.remove(f[n]), f.skip(n + 1)), upto_nul(f[n]) == f[n] {
    let g = f.skip(n); let k = f.skip(n + 1); let c = b.remove(f[n]); assert(g[0] == f[n]); lem_upto(f[n]);
    assert forall|i: int| 0 <= i < k.len() implies !a.dom().contains(#[trigger] k[i]) && c.dom().contains(k[i]) && no_nul(k[i]) by { assert(g[i + 1] == k[i]); assert(f[n + 1 + i] != f[n]); }
    assert forall|y: Seq<int>| #[trigger] c.dom().contains(y) implies a.dom().contains(y) || k.contains(y) by { assert(b.dom().contains(y)); if !a.dom().contains(y) { let i = choose|i: int| 0 <= i < g.len() && g[i] == y; assert(i > 0); assert(k[i - 1] == y); } } }
// the arguments of the tool
pub open spec fn argv_is(av: P<P<int>>, w: Seq<Seq<int>>) -> bool { !av.null && av.o == 0 && av.s.len() == w.len() + 1 && av.s.last().null && forall|k: int| 0 <= k < w.len() ==> (#[trigger] av.s[k]) == c_str(w[k]) }
pub proof fn lem_argv(av: P<P<int>>, w: Seq<Seq<int>>) requires !av.null, av.o == 0, av.s.len() == w.len() + 1, av.s.last().null, forall|k: int| 0 <= k < av.s.len() - 1 ==> (#[trigger] av.s[k]) == c_str(w[k]) ensures argv_is(av, w) { }
