pub open spec fn item(n: String, v: ItemKind) -> (String, ItemKind) { (n, v) }
//@if C24
/// (the values are decided elsewhere)
pub open spec fn same_value(a: ItemKind, b: ItemKind) -> bool { true }
//@else
pub open spec fn same_value(a: ItemKind, b: ItemKind) -> bool { a == b }
//@fi
/// post is pre followed by exactly these named values
pub open spec fn adds(pre: Seq<(String, ItemKind)>, post: Seq<(String, ItemKind)>, vals: Seq<(Seq<char>, ItemKind)>) -> bool {
    &&& post.len() == pre.len() + vals.len()
    &&& forall|i: int| 0 <= i < pre.len() ==> #[trigger] post[i] == pre[i]
    &&& forall|i: int| #![trigger vals[i]] 0 <= i < vals.len() ==> post[pre.len() + i].0@ == vals[i].0 && same_value(post[pre.len() + i].1, vals[i].1)
}
pub proof fn lemma_adds(a: Seq<(String, ItemKind)>, b: Seq<(String, ItemKind)>, c: Seq<(String, ItemKind)>, x: Seq<(Seq<char>, ItemKind)>, y: Seq<(Seq<char>, ItemKind)>)
    requires adds(a, b, x), adds(b, c, y)
    ensures adds(a, c, x + y)
{
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(c[i] == b[i]); }
    assert forall|i: int| #![trigger (x + y)[i]] 0 <= i < (x + y).len() implies c[a.len() + i].0@ == (x + y)[i].0 && same_value(c[a.len() + i].1, (x + y)[i].1) by {
        if i < x.len() { assert(c[a.len() + i] == b[a.len() + i]); assert((x + y)[i] == x[i]); } else { assert((x + y)[i] == y[i - x.len()]); }
    }
}
