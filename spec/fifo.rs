// insertion-ordered map: the entry of a key and its place
pub open spec fn fm_has<V>(s: Seq<Pair<Seq<int>, V>>, k: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).first =~= k }
pub open spec fn fm_uniq<V>(s: Seq<Pair<Seq<int>, V>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).first =~= (#[trigger] s[j]).first) }
