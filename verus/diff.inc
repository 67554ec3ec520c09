//@ include values.inc
    pub struct DiffError;
    impl From<&str> for DiffError {
        #[verifier::external_body]
        fn from(e: &str) -> DiffError { DiffError }
    }
    impl From<String> for DiffError {
        #[verifier::external_body]
        fn from(e: String) -> DiffError { DiffError }
    }

    // TRUSTED: BTreeMap with number keys: the entries in the order of their keys
    pub open spec fn sorted<V>(s: Seq<(usize, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
    pub open spec fn has_key<V>(s: Seq<(usize, V)>, k: usize) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
    pub open spec fn key_pos<V>(s: Seq<(usize, V)>, k: usize) -> int { choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
    pub open spec fn map_of<V>(s: Seq<(usize, V)>) -> Map<usize, V> { Map::new(keys(s).to_set(), |k: usize| s[key_pos(s, k)].1) }
    pub open spec fn keys<V>(s: Seq<(usize, V)>) -> Seq<usize> { Seq::new(s.len(), |i: int| s[i].0) }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct BTreeMap<K, V> { x: std::collections::BTreeMap<K, V> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct TreeIter<'a, V> { x: &'a V }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct TreeKeys<'a, V> { x: &'a V }
    impl<'a, V> TreeIter<'a, V> {
        pub uninterp spec fn view(&self) -> Seq<(usize, V)>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(&'a usize, &'a V)>)
            ensures match r {
                Some((k, v)) => old(self)@.len() > 0 && (*k, *v) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn next_back(&mut self) -> (r: Option<(&'a usize, &'a V)>)
            ensures match r {
                Some((k, v)) => old(self)@.len() > 0 && (*k, *v) == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    impl<'a, V> TreeKeys<'a, V> {
        pub uninterp spec fn view(&self) -> Seq<usize>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<&'a usize>)
            ensures match r {
                Some(k) => old(self)@.len() > 0 && *k == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    impl<V> BTreeMap<usize, V> {
        pub uninterp spec fn view(&self) -> Seq<(usize, V)>;
        #[verifier::external_body]
        pub proof fn is_sorted(&self) ensures sorted(self@), self@.len() <= usize::MAX { }
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Seq::<(usize, V)>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) ensures map_of(final(self)@) == map_of(old(self)@).insert(k, v) { unimplemented!() }
        #[verifier::external_body]
        pub fn iter(&self) -> (r: TreeIter<'_, V>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body]
        pub fn keys(&self) -> (r: TreeKeys<'_, V>) ensures r@ == keys(self@) { unimplemented!() }
    }

    // ------------------------------------------------------------------ the table that says which number a member has
    // TRUSTED: a pointer of the table stands for the name it points to: the names are those of the definition, which lives as long and is never changed
    #[verifier::external_body]
    #[derive(Clone, Copy)]
    pub struct Name { p: *const String }
    pub uninterp spec fn name_at(p: Name) -> Seq<char>;
    #[verifier::external_body]
    pub fn name_behind<'a>(p: Name) -> (r: &'a str)
        ensures r@ == name_at(p),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn name_of_key(s: &String) -> (r: Name)
        ensures name_at(r) == s@,
    { unimplemented!() }
//@ item dochy_core/src/imp/structs/meta_table.rs struct MetaTable
//@ sub \*const String => Name
//@ item dochy_core/src/imp/structs/meta_table.rs struct MetaTables
//@ item dochy_core/src/imp/structs/meta_table.rs enum MetaValue
//@ item dochy_core/src/imp/structs/meta_table.rs struct MetaParam
    pub open spec fn meta_at(m: MetaTable, id: usize) -> Option<(Seq<char>, MetaValue)> {
        if id < m.table@.len() && m.table@[id as int] is Some { Some((name_at((m.table@[id as int]->0).0), (m.table@[id as int]->0).1)) } else { None }
    }
    pub open spec fn tables_at(m: MetaTable, id: usize) -> Option<MetaTables> {
        match meta_at(m, id) { Some((_, MetaValue::MList(t))) => Some(t), Some((_, MetaValue::OptMil(t))) => Some(t), _ => None }
    }
    impl MetaTable {
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTable::get -> r
//@ sub unsafe\s*\{\s*\(\*\*key\)\.as_str\(\)\s*\} => name_behind(*key)
            ensures match meta_at(*self, id) { Some((n, v)) => r is Some && (r->0).0@ == n && *(r->0).1 == v, None => r is None },
//@ end
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTable::get_tables -> r
            ensures match tables_at(*self, id) { Some(t) => r is Some && *r->0 == t, None => r is None },
//@ end
    }
    impl MetaTables {
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTables::items -> r
            ensures *r == self.items,
//@ end
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTables::refs -> r
            ensures *r == self.refs,
//@ end
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaTables::is_enum -> r
            ensures r == self.is_enum,
//@ end
    }
    impl MetaParam {
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaParam::param_type -> r
            ensures r == self.param_type,
//@ end
//@ fn dochy_core/src/imp/structs/meta_table.rs MetaParam::var_type -> r
            ensures r == self.var_type,
//@ end
    }

    // ------------------------------------------------------------------ what a diff says
    pub struct ItemDiff { pub params: Seq<(usize, Value)>, pub lists: Seq<(usize, Option<ListDiff>)>, pub refs: Seq<(usize, Id)> }
    pub enum Change { Delete, Create(Option<u64>, ItemDiff), Modify(ItemDiff) }
    pub struct ListDiff { pub items: Seq<(u64, Change)>, pub next: u64 }

    pub open spec fn param_fits(v: Value, m: MetaTable, id: usize) -> bool {
        match meta_at(m, id) { Some((_, MetaValue::Param(p))) => v.ty == p.param_type && typed(v) && admits(p.var_type, v.c is Null, v.c is Undefined), _ => false }
    }
    pub open spec fn ref_fits(v: Id, m: MetaTable, id: usize) -> bool {
        match meta_at(m, id) { Some((_, MetaValue::Param(p))) => admits(p.var_type, v is Null, v is Undefined), _ => false }
    }
    pub open spec fn params_fit(s: Seq<(usize, Value)>, m: MetaTable) -> bool {
        sorted(s) && forall|i: int| 0 <= i < s.len() ==> param_fits((#[trigger] s[i]).1, m, s[i].0)
    }
    pub open spec fn refs_fit(s: Seq<(usize, Id)>, m: MetaTable) -> bool {
        sorted(s) && forall|i: int| 0 <= i < s.len() ==> ref_fits((#[trigger] s[i]).1, m, s[i].0)
    }
    /// the diff is one of lists declared like this
    pub open spec fn list_fits(d: ListDiff, m: MetaTables) -> bool
        decreases d
    {
        d.items.len() <= i64::MAX && forall|i: int| 0 <= i < d.items.len() ==> match (#[trigger] d.items[i]).1 {
            Change::Delete => true,
            Change::Create(_, x) => item_fits(x, m),
            Change::Modify(x) => item_fits(x, m),
        }
    }
    pub open spec fn item_fits(d: ItemDiff, m: MetaTables) -> bool
        decreases d
    {
        params_fit(d.params, m.items) && refs_fit(d.refs, m.refs) && sorted(d.lists) && forall|i: int| 0 <= i < d.lists.len() ==> match meta_at(m.items, (#[trigger] d.lists[i]).0) {
            Some((_, MetaValue::MList(t))) => match d.lists[i].1 { Some(l) => list_fits(l, t), None => false },
            Some((_, MetaValue::OptMil(t))) => match d.lists[i].1 { Some(l) => list_fits(l, t), None => true },
            _ => false,
        }
    }
    pub open spec fn lists_fit(s: Seq<(usize, Option<ListDiff>)>, m: MetaTable) -> bool {
        sorted(s) && forall|i: int| 0 <= i < s.len() ==> match meta_at(m, (#[trigger] s[i]).0) {
            Some((_, MetaValue::MList(t))) => match s[i].1 { Some(l) => list_fits(l, t), None => false },
            Some((_, MetaValue::OptMil(t))) => match s[i].1 { Some(l) => list_fits(l, t), None => true },
            _ => false,
        }
    }

    // ---- as the program keeps it for writing
//@ item dochy_diff/src/imp/structs_write.rs struct RootDiffW
//@ item dochy_diff/src/imp/structs_write.rs struct ListDiffW
//@ item dochy_diff/src/imp/structs_write.rs enum ListItemDiffEnumW
//@ item dochy_diff/src/imp/structs_write.rs struct BS
//@ item dochy_diff/src/imp/structs_write.rs struct ListItemDiffW
    pub open spec fn params_w(w: Seq<(usize, &RustParam)>, d: Seq<(usize, Value)>) -> bool {
        w.len() == d.len() && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 == d[i].0 && value_of(*w[i].1) == d[i].1
    }
    pub open spec fn refs_w(w: Seq<(usize, &Qv<String>)>, d: Seq<(usize, Id)>) -> bool {
        w.len() == d.len() && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 == d[i].0 && id_of(*w[i].1) == d[i].1
    }
    pub open spec fn list_w(w: ListDiffW, d: ListDiff, m: MetaTables) -> bool
        decreases d
    {
        w.next_id == d.next && *w.meta == m && w.items@.len() == d.items.len() && forall|i: int| 0 <= i < d.items.len() ==> (#[trigger] w.items@[i]).0 == d.items[i].0 && match (w.items@[i].1, d.items[i].1) {
            (ListItemDiffEnumW::Delete, Change::Delete) => true,
            (ListItemDiffEnumW::Create(b), Change::Create(p, x)) => b.prev_id == p && item_w(b.diff, x, m),
            (ListItemDiffEnumW::Modify(b), Change::Modify(x)) => item_w(b, x, m),
            _ => false,
        }
    }
    pub open spec fn item_w(w: ListItemDiffW, d: ItemDiff, m: MetaTables) -> bool
        decreases d
    {
        params_w(w.params@, d.params) && refs_w(w.refs@, d.refs) && w.lists@.len() == d.lists.len() && forall|i: int| 0 <= i < d.lists.len() ==> (#[trigger] w.lists@[i]).0 == d.lists[i].0 && match (w.lists@[i].1, d.lists[i].1) {
            (None, None) => true,
            (Some(a), Some(b)) => tables_at(m.items, d.lists[i].0) is Some && list_w(a, b, tables_at(m.items, d.lists[i].0)->0),
            _ => false,
        }
    }
    pub open spec fn lists_w(w: Seq<(usize, Option<ListDiffW>)>, d: Seq<(usize, Option<ListDiff>)>, m: MetaTable) -> bool {
        w.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] w[i]).0 == d[i].0 && match (w[i].1, d[i].1) {
            (None, None) => true,
            (Some(a), Some(b)) => tables_at(m, d[i].0) is Some && list_w(a, b, tables_at(m, d[i].0)->0),
            _ => false,
        }
    }

    // ---- as the program reads it
//@ item dochy_diff/src/imp/structs_read.rs struct RootDiffR
//@ item dochy_diff/src/imp/structs_read.rs struct ListDiffR
//@ item dochy_diff/src/imp/structs_read.rs enum ListItemDiffEnumR
//@ item dochy_diff/src/imp/structs_read.rs struct CS
//@ item dochy_diff/src/imp/structs_read.rs struct ListItemDiffR
    pub open spec fn params_r(w: Seq<(usize, RustParam)>, d: Seq<(usize, Value)>) -> bool {
        w.len() == d.len() && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 == d[i].0 && value_of(w[i].1) == d[i].1
    }
    pub open spec fn refs_r(w: Seq<(usize, Qv<String>)>, d: Seq<(usize, Id)>) -> bool {
        w.len() == d.len() && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 == d[i].0 && id_of(w[i].1) == d[i].1
    }
    pub open spec fn change_r(w: ListItemDiffEnumR, d: Change) -> bool
        decreases d, 2nat
    {
        match (w, d) {
            (ListItemDiffEnumR::Delete, Change::Delete) => true,
            (ListItemDiffEnumR::Create(b), Change::Create(p, x)) => b.prev_id == p && item_r(b.diff, x),
            (ListItemDiffEnumR::Modify(b), Change::Modify(x)) => item_r(b, x),
            _ => false,
        }
    }
    pub open spec fn list_r(w: ListDiffR, d: ListDiff) -> bool
        decreases d, 1nat
    {
        w.next_id == d.next && w.items@.len() == d.items.len() && forall|i: int| 0 <= i < d.items.len() ==> (#[trigger] w.items@[i]).0 == d.items[i].0 && change_r(w.items@[i].1, d.items[i].1)
    }
    pub open spec fn opt_r(w: Option<ListDiffR>, d: Option<ListDiff>) -> bool
        decreases d, 1nat
    {
        match (w, d) { (None, None) => true, (Some(a), Some(b)) => list_r(a, b), _ => false }
    }
    pub open spec fn item_r(w: ListItemDiffR, d: ItemDiff) -> bool
        decreases d, 1nat
    {
        params_r(w.params@, d.params) && refs_r(w.refs@, d.refs) && w.lists@.len() == d.lists.len() && forall|i: int| 0 <= i < d.lists.len() ==> (#[trigger] w.lists@[i]).0 == d.lists[i].0 && opt_r(w.lists@[i].1, d.lists[i].1)
    }
    pub open spec fn lists_r(w: Seq<(usize, Option<ListDiffR>)>, d: Seq<(usize, Option<ListDiff>)>) -> bool {
        w.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] w[i]).0 == d[i].0 && opt_r(w[i].1, d[i].1)
    }
