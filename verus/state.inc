    // TRUSTED: HashM<String, _> is a map from texts to values; going through it visits every entry once
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashM<K, V> { x: std::collections::HashMap<K, V> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashS<K> { x: std::collections::HashSet<K> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct HashIter<'a, V> { x: &'a V }
    impl<'a, V> HashIter<'a, V> {
        /// the names to come
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        pub uninterp spec fn map(&self) -> Map<Seq<char>, V>;
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(&'a String, &'a V)>)
            ensures final(self).map() == old(self).map(), match r {
                Some((k, v)) => old(self)@.len() > 0 && k@ == old(self)@[0] && *v == old(self).map()[k@] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    /// the names in some order
    pub open spec fn lists_all<V>(ks: Seq<Seq<char>>, m: Map<Seq<char>, V>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j]
        &&& forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i])
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k
    }
    impl<V> HashM<String, V> {
        pub uninterp spec fn view(&self) -> Map<Seq<char>, V>;
        pub uninterp spec fn order(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn get(&self, k: &str) -> (r: Option<&V>)
            ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn len(&self) -> (r: usize)
            ensures r == self@.dom().len(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut V>)
            ensures
                r is Some <==> old(self)@.dom().contains(k@),
                match r { Some(v) => *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)), None => final(self)@ == old(self)@ },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k@, v),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &str) -> (r: bool)
            ensures r == self@.dom().contains(k@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn remove(&mut self, k: &str) -> (r: Option<V>)
            ensures r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }), final(self)@ == old(self)@.remove(k@),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn clear(&mut self)
            ensures final(self)@ == Map::<Seq<char>, V>::empty(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn iter(&self) -> (r: HashIter<'_, V>)
            ensures r.map() == self@, lists_all(r@, self@), r@ == self.order(),
        { unimplemented!() }
    }
    pub struct HashMt;
    impl HashMt {
        #[verifier::external_body]
        pub fn with_capacity<V>(n: usize) -> (r: HashM<String, V>)
            ensures r@ == Map::<Seq<char>, V>::empty(),
        { unimplemented!() }
    }
    // TRUSTED: a set of numbers
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashSet<K> { x: std::collections::HashSet<K> }
    impl HashSet<u64> {
        pub uninterp spec fn view(&self) -> Set<u64>;
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<u64>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, k: &u64) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: u64) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    }
    // TRUSTED: Arc::make_mut gives access to the value, or to an equal clone of it where it is shared
    #[verifier::external_body]
    pub fn make_mut<T>(a: &mut Arc<T>) -> (r: &mut T)
        ensures *r == **old(a), **final(a) == *final(r),
    { unimplemented!() }
    // TRUSTED: a copy of a text
    #[verifier::external_body]
    pub fn text_of(s: &str) -> (r: String)
        ensures r@ == s@,
    { unimplemented!() }

    // ------------------------------------------------------------------ the mutable list: its contracts are discharged in unit `list`
    pub open spec fn distinct<V>(l: Seq<(u64, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0 }
    pub open spec fn has_id<V>(l: Seq<(u64, V)>, id: u64) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == id }
    pub open spec fn pos<V>(l: Seq<(u64, V)>, id: u64) -> int { choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == id }
    pub open spec fn without<V>(l: Seq<(u64, V)>, id: u64) -> Seq<(u64, V)> { if has_id(l, id) { l.remove(pos(l, id)) } else { l } }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedMap<V> { x: Vec<V> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(V)]
    pub struct LinkedMapIter<'a, V> { x: &'a V }
    impl<'a, V> LinkedMapIter<'a, V> {
        pub uninterp spec fn view(&self) -> Seq<(u64, V)>;
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Option<(&'a u64, &'a V)>)
            ensures match r {
                Some((k, v)) => old(self)@.len() > 0 && (*k, *v) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
                None => old(self)@.len() == 0 && final(self)@ == old(self)@,
            },
        { unimplemented!() }
    }
    impl<V> LinkedMap<V> {
        pub uninterp spec fn view(&self) -> Seq<(u64, V)>;
        pub uninterp spec fn next(&self) -> u64;
        // ASSUMED: discharged in unit `list` (no id occurs twice)
        #[verifier::external_body]
        pub proof fn is_distinct(&self) ensures distinct(self@), self@.len() <= usize::MAX { }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Seq::<(u64, V)>::empty(), r.next() == 0 { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn next_id(&self) -> (r: u64) ensures r == self.next() { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn set_next_id(&mut self, n: u64) ensures final(self)@ == old(self)@, final(self).next() == n { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn contains_key(&self, id: u64) -> (r: bool) ensures r == has_id(self@, id) { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn get_item(&self, id: u64) -> (r: Option<&V>)
            ensures r is Some <==> has_id(self@, id), r is Some ==> *r->0 == self@[pos(self@, id)].1,
        { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn get_item_mut(&mut self, id: u64) -> (r: Option<&mut V>)
            ensures
                r is Some <==> has_id(old(self)@, id),
                final(self).next() == old(self).next(),
                match r {
                    Some(v) => *v == old(self)@[pos(old(self)@, id)].1 && final(self)@ == old(self)@.update(pos(old(self)@, id), (id, *final(v))),
                    None => final(self)@ == old(self)@,
                },
        { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn insert_first_with_id(&mut self, id: u64, val: V) -> (r: bool)
            ensures
                r == !has_id(old(self)@, id),
                final(self).next() == old(self).next(),
                final(self)@ == (if r { seq![(id, val)] + old(self)@ } else { old(self)@ }),
        { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn move_to_next(&mut self, prev_id: u64, id: u64) -> (r: bool)
            ensures
                r == (id != prev_id && has_id(old(self)@, id) && has_id(old(self)@, prev_id)),
                final(self).next() == old(self).next(),
                final(self)@ == (if r { without(old(self)@, id).insert(pos(without(old(self)@, id), prev_id) + 1, (id, old(self)@[pos(old(self)@, id)].1)) } else { old(self)@ }),
        { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn remove(&mut self, id: u64) -> (r: bool)
            ensures
                r == has_id(old(self)@, id),
                final(self).next() == old(self).next(),
                final(self)@ == without(old(self)@, id),
        { unimplemented!() }
        // ASSUMED: discharged in unit `list`
        #[verifier::external_body]
        pub fn iter(&self) -> (r: LinkedMapIter<'_, V>) ensures r@ == self@ { unimplemented!() }
    }

//@ item dochy_core/src/imp/structs/root_sab_value.rs enum RootSabValue
//@ item dochy_core/src/imp/structs/root_value.rs enum RootValue
//@ item dochy_core/src/imp/structs/root_def_obj.rs struct RootDefObj
//@ item dochy_core/src/imp/structs/root_obj.rs struct RootObject
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstTable
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstList
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstListVal
//@ item dochy_core/src/imp/structs/rust_list.rs struct ConstItem
//@ item dochy_core/src/imp/structs/rust_list.rs struct MutListVal
//@ item dochy_core/src/imp/structs/rust_list.rs struct MutItem
//@ item dochy_core/src/imp/structs/mut_list_def.rs struct MutListDef
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefObj
//@ item dochy_core/src/imp/structs/list_def_obj.rs struct ListDefMap
//@ item dochy_core/src/imp/structs/list_value.rs enum ListDefValue
//@ item dochy_core/src/imp/structs/list_sab_value.rs enum ListSabValue
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefObj
//@ item dochy_core/src/imp/structs/ref_def_obj.rs struct RefDefMap
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefValue
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefValueInternal
//@ sub \bstruct\b => pub struct
//@ item dochy_core/src/imp/structs/ref_value.rs struct RefSabValue

    // ------------------------------------------------------------------ states
    pub struct Item { pub values: Map<Seq<char>, Member>, pub refs: Map<Seq<char>, Id> }
    pub enum Member { Param(Value), List(Option<ListS>), Const }
    pub struct ListS { pub items: Seq<(u64, Item)>, pub next: u64 }
    pub open spec fn no_item() -> Item { Item { values: Map::empty(), refs: Map::empty() } }
    pub open spec fn no_list() -> ListS { ListS { items: Seq::empty(), next: 0 } }
    // TRUSTED: the state of an item, by recursion over the (finite) items below it
    pub uninterp spec fn item_of(i: MutItem) -> Item;
    #[verifier::external_body]
    pub broadcast proof fn item_of_is(i: MutItem)
        ensures #[trigger] item_of(i) == (Item { values: values_of((*i.values)@), refs: refs_of((*i.refs)@) }),
    { }
    pub open spec fn member_of(v: ListSabValue) -> Member {
        match v {
            ListSabValue::Param(p) => Member::Param(value_of(p)),
            ListSabValue::Mil(None) => Member::List(None),
            ListSabValue::Mil(Some(l)) => Member::List(Some(list_of(*l.list))),
            ListSabValue::Cil(_) => Member::Const,
        }
    }
    pub open spec fn values_of(m: Map<Seq<char>, ListSabValue>) -> Map<Seq<char>, Member> { m.map_values(|v: ListSabValue| member_of(v)) }
    pub open spec fn refs_of(m: Map<Seq<char>, RefSabValue>) -> Map<Seq<char>, Id> { m.map_values(|v: RefSabValue| id_of(*v.value)) }
    pub open spec fn entries_of(l: Seq<(u64, MutItem)>) -> Seq<(u64, Item)> { l.map_values(|p: (u64, MutItem)| (p.0, item_of(p.1))) }
    pub open spec fn list_of(l: LinkedMap<MutItem>) -> ListS { ListS { items: entries_of(l@), next: l.next() } }
    pub open spec fn root_member_of(v: RootSabValue) -> Member {
        match v {
            RootSabValue::Param(p) => Member::Param(value_of(p)),
            RootSabValue::Mut(None) => Member::List(None),
            RootSabValue::Mut(Some(l)) => Member::List(Some(list_of(*l.list))),
        }
    }
    pub open spec fn roots_of(m: Map<Seq<char>, RootSabValue>) -> Map<Seq<char>, Member> { m.map_values(|v: RootSabValue| root_member_of(v)) }
