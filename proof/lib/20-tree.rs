verus! {
pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub proof fn lemma_adjacent_sorted(s: Seq<u32>)
    requires forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] <= s[i + 1]
    ensures sorted(s)
{
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies s[i] <= s[j] by { lemma_adjacent(s, i, j); }
}
proof fn lemma_adjacent(s: Seq<u32>, i: int, j: int)
    requires forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] <= s[i + 1], 0 <= i <= j < s.len()
    ensures s[i] <= s[j] decreases j - i
{ if i < j { lemma_adjacent(s, i, j - 1); assert(s[j - 1] <= s[j - 1 + 1]); } }
pub open spec fn levels<T: TreeTypes>(s: Seq<Index<T>>) -> Seq<u32> { s.map_values(|i: Index<T>| i.level()) }
/// when a branch with these children is complete
pub open spec fn seal<T: TreeTypes>(c: Config, items: Seq<Index<T>>, level: u32) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> #[trigger] items[i].sealed() && items[i].level() == level - 1
    &&& items.len() >= (if level == 1 { c.max_key_branches } else { c.max_summary_branches })
}
}
verus! {
/// levels do not increase from left to right
#[verifier::opaque]
pub open spec fn desc<T: TreeTypes>(s: Seq<Index<T>>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]).level() >= (#[trigger] s[j]).level() }
pub broadcast proof fn lemma_desc_levels<T: TreeTypes>(s: Seq<Index<T>>, t: Seq<u32>)
    requires #[trigger] desc(s), t.len() == s.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[s.len() - 1 - i].level()
    ensures #[trigger] sorted(t)
{ reveal(desc); }
}
