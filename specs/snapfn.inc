//@owner C17 C22 C23 C24 C25
//@impl src/snapshot.rs Snapshot : Default
//@ header impl Snapshot
//@ fn default
    ensures r.items@ == Seq::<(String, ItemKind)>::empty(),
//@end
//@impl src/snapshot.rs Snapshot
//@ header impl Snapshot
//@ fn push
    requires call_requires(<K as Into<String>>::into, ($1,)), call_requires(<V as Into<ItemKind>>::into, ($2,)),
    ensures exists|n: String, i: ItemKind| #[trigger] call_ensures(<K as Into<String>>::into, ($1,), n) && #[trigger] call_ensures(<V as Into<ItemKind>>::into, ($2,), i) && final(self).items@ == old(self).items@.push((n, i)),
//@end
//@owner -
