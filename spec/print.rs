// printing a document
pub open spec fn pr_esc1(c: int) -> Seq<int> { if c == 34 { seq![92int, 34int] } else if 0 <= c < 32 { s"\\u00" + seq![if c < 16 { 48int } else { 49int }, (if c % 16 < 10 { 48 + c % 16 } else { 87 + c % 16 })] } else { seq![c] } }
pub open spec fn pr_esc(s: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { pr_esc(s, n - 1) + pr_esc1(s[n - 1]) } }
// the text of a document: x, after a comma or not, at level l, compressed or not
pub open spec fn nl(cz: bool) -> Seq<int> { if cz { Seq::empty() } else { seq![10int] } }
pub open spec fn ind(l: int, cz: bool) -> Seq<int> { if cz { Seq::empty() } else { rep_char(l * 4, 32) } }
pub open spec fn cma(c: bool) -> Seq<int> { if c { seq![44int] } else { Seq::empty() } }
pub open spec fn quoted(s: Seq<int>) -> Seq<int> { seq![34int] + pr_esc(s, s.len() as int) + seq![34int] }
pub open spec fn sc(o: JObj) -> Seq<int> { if is_JSonPrimitive_string(o.tag) { quoted(el_text(o)) } else { el_text(o) } }
pub open spec fn opening(h: H, x: int, comma: bool, l: int, cz: bool) -> Seq<int> { ind(l, cz) + cma(comma) + seq![if is_JSonObject(h.m[x].tag) { 123int } else { 91int }] + nl(cz) }
pub open spec fn txt(h: H, x: int, comma: bool, l: int, cz: bool) -> Seq<int> decreases rank(h, x), 1int, 0int when tree(h, x) via txt_dec {
    if is_cont(h, x) { opening(h, x, comma, l, cz) + txts(h, x, kids(h, x).len() as int, wrap_u16(l + 1), cz) + ind(l, cz) + seq![if is_JSonObject(h.m[x].tag) { 125int } else { 93int }] + nl(cz) }
    else if is_ent(h, x) { ind(l, cz) + cma(comma) + quoted(h.m[x].JSonObjectEntry_key) + seq![58int] + (if is_cont(h, val(h, x)) { nl(cz) + txt(h, val(h, x), false, l, cz) } else { sc(h.m[val(h, x)]) + nl(cz) }) }
    else { ind(l, cz) + cma(comma) + sc(h.m[x]) + nl(cz) } }
// the first n elements of container x
pub open spec fn txts(h: H, x: int, n: int, l: int, cz: bool) -> Seq<int> decreases rank(h, x), 0int, n when tree(h, x) && n <= kids(h, x).len() via txts_dec {
    if n <= 0 { Seq::empty() } else { txts(h, x, n - 1, l, cz) + txt(h, kids(h, x)[n - 1], n > 1, l, cz) } }
#[via_fn]
proof fn txt_dec(h: H, x: int, comma: bool, l: int, cz: bool) { if is_ent(h, x) && !is_cont(h, x) { lem_kid(h, x, 0); } }
#[via_fn]
proof fn txts_dec(h: H, x: int, n: int, l: int, cz: bool) { if n > 0 { lem_kid(h, x, n - 1); } }
pub proof fn lem_txt_entry(h: H, x: int, comma: bool, l: int, cz: bool) requires tree(h, x), is_ent(h, x), !is_cont(h, x) ensures txt(h, x, comma, l, cz) =~= ind(l, cz) + cma(comma) + (seq![34int] + pr_esc(h.m[x].JSonObjectEntry_key, h.m[x].JSonObjectEntry_key.len() as int) + seq![34int]) + seq![58int] + (if is_cont(h, val(h, x)) { nl(cz) + txt(h, val(h, x), false, l, cz) } else { sc(h.m[val(h, x)]) + nl(cz) }) { lem_kid(h, x, 0); let k = h.m[x].JSonObjectEntry_key; assert(quoted(k) == seq![34int] + pr_esc(k, k.len() as int) + seq![34int]); }
