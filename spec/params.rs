// what the words of the command line mean, word after word
pub struct Opts { pub strict: bool, pub ign: bool, pub color: bool, pub sorted: bool, pub comp: bool, pub diff: bool, pub mode: int, pub ext: bool,
    pub words: Seq<Seq<int>>, pub some: bool, pub text: Seq<int>, pub files: Seq<Seq<int>>, pub res: int }
pub open spec fn opts0() -> Opts { Opts { strict: true, ign: false, color: true, sorted: true, comp: false, diff: false, mode: 0, ext: false, words: Seq::empty(), some: false, text: Seq::empty(), files: Seq::empty(), res: 0 } }
pub open spec fn is_w(a: Seq<int>, b: Seq<int>) -> bool { a =~= b }
pub open spec fn has_w(l: Seq<Seq<int>>, w: Seq<int>) -> bool { exists|k: int| 0 <= k < l.len() && is_w(#[trigger] l[k], w) }
pub open spec fn rest(t: Seq<int>, n: int) -> Seq<int> { t.subrange(n, t.len() as int) }
// res: 0 goes on, 1 help or version asked, 2 refused
pub open spec fn step(o: Opts, t: Seq<int>) -> Opts {
    if o.res != 0 { o }
    else if o.mode == 2 { Opts { some: true, text: if o.some { o.text.push(32) + t } else { t }, ..o } }
    else if o.mode == 1 { if is_w(t, s";") { Opts { mode: 0, ..o } } else { Opts { words: o.words.push(t), ..o } } }
    else { opt_step(o, t) } }
#[verifier::opaque]
pub open spec fn opt_step(o: Opts, t: Seq<int>) -> Opts {
    if is_w(t, s"--") { if has_w(o.files, s"ARGS") { Opts { res: 2, ..o } } else { Opts { mode: 2, files: o.files.push(s"ARGS"), ..o } } }
    else if is_w(t, s"-W") { Opts { strict: false, ..o } }
    else if is_w(t, s"--ascii") { Opts { ign: true, ..o } }
    else if is_w(t, s"--color") { Opts { color: true, ..o } }
    else if is_w(t, s"--diff") { Opts { diff: true, ..o } }
    else if is_w(t, s"--compress") { Opts { comp: true, ..o } }
    else if is_w(t, s"--help") || is_w(t, s"-h") || is_w(t, s"--version") || is_w(t, s"-v") { Opts { res: 1, ..o } }
    else if is_w(t, s"--keep-order") { Opts { sorted: false, ..o } }
    else if is_w(t, s"--diff-cmd") { if o.ext { Opts { res: 2, ..o } } else { Opts { ext: true, mode: 1, ..o } } }
    else if is_at(t, s"--color=", 0) { if is_w(rest(t, 8), s"always") { Opts { color: true, ..o } } else if is_w(rest(t, 8), s"never") { Opts { color: false, ..o } } else { Opts { res: 2, ..o } } }
    else if t.len() > 0 && t[0] == 45 { Opts { res: 2, ..o } }
    else if !fs_opens(t) || has_w(o.files, t) { Opts { res: 2, ..o } }
    else { Opts { files: o.files.push(t), ..o } } }
pub open spec fn scan(ws: Seq<Seq<int>>, n: int) -> Opts decreases n { if n <= 0 { opts0() } else { step(scan(ws, n - 1), ws[n - 1]) } }
pub proof fn lem_scan_stop(ws: Seq<Seq<int>>, k: int, n: int) requires 0 <= k <= n, scan(ws, k).res != 0 ensures scan(ws, n) == scan(ws, k) decreases n - k { if k < n { lem_scan_stop(ws, k, n - 1); } }
pub proof fn lem_find_ge(s: Seq<int>, t: Seq<int>, p: int) requires p >= 0 ensures find_from(s, t, p) == -1 || find_from(s, t, p) >= p decreases s.len() + 1 - p {
    if !(p + t.len() > s.len()) && !is_at(s, t, p) { lem_find_ge(s, t, p + 1); } }
pub proof fn lem_find0(s: Seq<int>, t: Seq<int>) ensures (str_find(s, t, 0) == 0) == is_at(s, t, 0), t.len() == 1 ==> (is_at(s, t, 0) == (s.len() > 0 && s[0] == t[0])) {
    lem_find_ge(s, t, 0); if !is_at(s, t, 0) && t.len() <= s.len() { lem_find_ge(s, t, 1); }
    if t.len() == 1 && s.len() > 0 && s[0] == t[0] { assert(s.subrange(0, 1) =~= t); }
    if t.len() == 1 && is_at(s, t, 0) { assert(s.subrange(0, 1)[0] == s[0]); } }
// the inputs opened so far: a stream on each file, the text of the command line under ARGS
pub open spec fn one_in(e: Pair<Seq<int>, int>, i: int, w: Seq<int>, input: int, gif: Map<int, Seq<int>>) -> bool {
    e.first =~= w && e.second != 0 && (is_w(w, s"ARGS") && e.second == input || gif.dom().contains(e.second) && gif[e.second] =~= w) }
pub open spec fn ins_ok(l: Seq<Pair<Seq<int>, int>>, files: Seq<Seq<int>>, input: int, gif: Map<int, Seq<int>>) -> bool {
    l.len() == files.len() && forall|i: int| 0 <= i < l.len() ==> one_in(#[trigger] l[i], i, files[i], input, gif) }
pub proof fn lem_has(l: Seq<Pair<Seq<int>, int>>, files: Seq<Seq<int>>, input: int, gif: Map<int, Seq<int>>, w: Seq<int>) requires ins_ok(l, files, input, gif) ensures fm_has(l, w) == has_w(files, w) {
    if fm_has(l, w) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).first =~= w; assert(one_in(l[i], i, files[i], input, gif)); assert(is_w(files[i], w)); }
    if has_w(files, w) { let i = choose|i: int| 0 <= i < files.len() && is_w(#[trigger] files[i], w); assert(one_in(l[i], i, files[i], input, gif)); } }
pub open spec fn opts_in(p: Params, o: Opts) -> bool { p.strict == o.strict && p.ignoreUnicode == o.ign && p.colorMode == o.color && p.sorted == o.sorted && p.compressMode == o.comp && p.diffMode == o.diff && (p.diffCmd != 0) == o.ext }
pub open spec fn txt_in(p: Params, o: Opts, input: int, gss: Map<int, Seq<int>>) -> bool { (o.mode == 2) == (input != 0) && (input != 0 ==> gss.dom().contains(input) && gss[input] =~= o.text) }
// argument vectors
pub open spec fn av_len(s: Seq<P<int>>, o: int) -> int decreases s.len() - o { if 0 <= o < s.len() && !s[o].null { 1 + av_len(s, o + 1) } else { 0 } }
pub open spec fn is_cstr(p: P<int>) -> bool { !p.null && 0 <= p.o <= p.s.len() && has_nul(p.s, p.o) }
pub open spec fn av_ok(p: P<P<int>>) -> bool { !p.null && 0 <= p.o && av_len(p.s, p.o) >= 1 && p.o + av_len(p.s, p.o) < p.s.len() && forall|k: int| 0 <= k < p.s.len() && !(#[trigger] p.s[k]).null ==> is_cstr(p.s[k]) }
pub proof fn lem_av(s: Seq<P<int>>, o: int) requires 0 <= o <= s.len() ensures 0 <= av_len(s, o) <= s.len() - o, o + av_len(s, o) < s.len() ==> s[o + av_len(s, o)].null,
    forall|k: int| o <= k < o + av_len(s, o) ==> !(#[trigger] s[k]).null decreases s.len() - o { if o < s.len() && !s[o].null { lem_av(s, o + 1); } }
// the standard input stream
pub uninterp spec fn at_cin() -> int;
