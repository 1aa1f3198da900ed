// the user's words with each placeholder replaced by the files, in order
pub open spec fn is_ph(w: Seq<int>) -> bool { w =~= seq![123int, 125] }
pub open spec fn subst(words: Seq<Seq<int>>, files: Seq<Seq<int>>, n: int) -> Seq<Seq<int>> decreases n {
    if n <= 0 { Seq::empty() } else { subst(words, files, n - 1) + (if is_ph(words[n - 1]) { files } else { seq![words[n - 1]] }) } }
pub open spec fn words_ok(ws: Seq<Seq<int>>) -> bool { forall|k: int| 0 <= k < ws.len() ==> no_nul(#[trigger] ws[k]) }
pub proof fn lem_subst_len(words: Seq<Seq<int>>, files: Seq<Seq<int>>, n: int, m: int) requires 0 <= n <= m <= words.len()
    ensures subst(words, files, n).len() <= subst(words, files, m).len() <= m + m * files.len() decreases m {
    if n < m { lem_subst_len(words, files, n, m - 1); assert(m * files.len() == (m - 1) * files.len() + files.len()) by (nonlinear_arith); }
    else if n > 0 { lem_subst_len(words, files, n - 1, n - 1); assert(m * files.len() == (m - 1) * files.len() + files.len()) by (nonlinear_arith); }
}
pub proof fn lem_nonul(s: Seq<int>, o: int) requires no_nul(s), 0 <= o <= s.len() ensures cstr_len(s, o) == s.len() - o decreases s.len() - o { if o < s.len() { lem_nonul(s, o + 1); } }
