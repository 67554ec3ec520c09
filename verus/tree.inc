pub mod lib_specs {
    use super::*;
    pub struct FsError;
    pub type FsResult<T> = core::result::Result<T, FsError>;
    impl From<&str> for FsError {
        #[verifier::external_body]
        fn from(e: &str) -> FsError { FsError }
    }
    impl From<String> for FsError {
        #[verifier::external_body]
        fn from(e: String) -> FsError { FsError }
    }
    #[verifier::external_body]
    pub fn text() -> String { unimplemented!() }

    pub open spec fn is_last<V>(m: Map<u32, V>, k: u32) -> bool { m.dom().contains(k) && forall|j: u32| #[trigger] m.dom().contains(j) ==> j <= k }
    // TRUSTED: BTreeMap::iter().last() is the entry with the greatest key (calls are redirected here)
    #[verifier::external_body]
    pub fn last_entry<V>(m: &BTreeMap<u32, V>) -> (r: Option<(&u32, &V)>)
        ensures
            r is None <==> m@.dom() =~= Set::empty(),
            r is Some ==> is_last(m@, *(r->0).0) && m@[*(r->0).0] == *(r->0).1,
    { m.iter().last() }
}

pub mod file_name_props {
    use super::*;
    use super::lib_specs::*;
//@ item dochy_fs/src/imp/history/file_name/file_name_props.rs struct FileNameProps
    /// the numbers a file is found by
    pub struct Key { pub ctl: u32, pub order: Seq<u32> }
    /// the file a file's diff is relative to
    pub open spec fn needs(p: FileNameProps, max_phase: int, cumulative: bool) -> Option<Key> {
        let o = p.order@;
        if cumulative && o.len() - 1 == max_phase && o.last() > 0 { Some(Key { ctl: p.prev_ctl, order: o.drop_last().push((o.last() - 1) as u32) }) }
        else if o.len() >= 2 { Some(Key { ctl: p.prev_ctl, order: o.drop_last() }) }
        else { None }
    }
    pub open spec fn phases(p: FileNameProps, max_phase: int) -> bool { 1 <= p.order@.len() <= max_phase + 1 }
    impl FileNameProps {
        pub open spec fn key(&self) -> Key { Key { ctl: self.control, order: self.order@ } }
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::new -> r
            ensures
                r is Ok <==> order@.len() > 0,
                r is Ok ==> r->Ok_0.control == control && r->Ok_0.prev_ctl == prev_ctl && r->Ok_0.order == order && r->Ok_0.tag == tag,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::control -> r
            ensures r == self.control,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::prev_ctl -> r
            ensures r == self.prev_ctl,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::order -> r
            ensures r@ == self.order@,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::phase -> r
            requires self.order@.len() > 0,
            ensures r == self.order@.len() - 1,
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::order_base -> r
            requires self.order@.len() > 0,
            ensures r@ == self.order@.drop_last(),
//@ end
//@ fn dochy_fs/src/imp/history/file_name/file_name_props.rs FileNameProps::order_last -> r
            requires self.order@.len() > 0,
            ensures r == self.order@.last(),
//@ end
    }
}

pub mod file_history {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
//@ item dochy_fs/src/imp/history/file_hist/file_history_item.rs struct FileHistoryItem
//@ item dochy_fs/src/imp/history/file_hist/file_history.rs struct FileHistory

    pub open spec fn same<T>(r: Option<&T>, s: Option<T>) -> bool { (r is Some <==> s is Some) && (r is Some ==> *r->0 == s->0) }
    /// the file with this order below an item
    pub open spec fn look(i: FileHistoryItem, o: Seq<u32>) -> Option<FileNameProps>
        decreases o.len()
    {
        if o.len() == 0 { None }
        else if o.len() == 1 { if i.items@.dom().contains(o[0]) { Some(i.items@[o[0]]) } else { None } }
        else if i.children@.dom().contains(o[0]) { look(i.children@[o[0]], o.skip(1)) }
        else { None }
    }
    pub open spec fn starts(o: Seq<u32>, p: Seq<u32>) -> bool { o.len() >= p.len() && o.take(p.len() as int) == p }
    pub open spec fn nothing(i: FileHistoryItem) -> bool { i.children@.dom() =~= Set::empty() && i.items@.dom() =~= Set::empty() }
    /// comes before it in the order files are listed in
    pub open spec fn less(a: Seq<u32>, b: Seq<u32>) -> bool {
        ||| a.len() < b.len() && a == b.take(a.len() as int)
        ||| exists|k: int| 0 <= k < a.len() && k < b.len() && #[trigger] a[k] < b[k] && a.take(k) == b.take(k)
    }
    pub open spec fn before(a: Key, b: Key) -> bool { a.ctl < b.ctl || (a.ctl == b.ctl && less(a.order, b.order)) }
    /// there is a place for files below this order
    pub open spec fn present(i: FileHistoryItem, path: Seq<u32>) -> bool
        decreases path.len()
    {
        path.len() == 0 || (i.children@.dom().contains(path[0]) && present(i.children@[path[0]], path.skip(1)))
    }
    pub open spec fn occupied(i: FileHistoryItem, path: Seq<u32>) -> bool { exists|o: Seq<u32>| o.len() > 0 && (#[trigger] look(i, path + o)) is Some }
    /// no place is empty
    pub open spec fn full(i: FileHistoryItem) -> bool { forall|path: Seq<u32>| #[trigger] present(i, path) ==> occupied(i, path) }
    pub open spec fn newest(i: FileHistoryItem, o: Seq<u32>) -> bool {
        look(i, o) is Some && forall|x: Seq<u32>| (#[trigger] look(i, x)) is Some ==> x == o || less(x, o)
    }
    pub open spec fn is_newest(i: FileHistoryItem, p: FileNameProps) -> bool { exists|o: Seq<u32>| #[trigger] newest(i, o) && look(i, o) == Some(p) }
    pub proof fn full_child(i: FileHistoryItem, x: u32)
        requires full(i), i.children@.dom().contains(x),
        ensures full(i.children@[x]), occupied(i.children@[x], Seq::empty()),
    {
        let c = i.children@[x];
        assert forall|path: Seq<u32>| #[trigger] present(c, path) implies occupied(c, path) by {
            let q = seq![x] + path;
            assert(q.skip(1) =~= path);
            assert(present(i, q));
            let o = choose|o: Seq<u32>| o.len() > 0 && (#[trigger] look(i, q + o)) is Some;
            assert((q + o).skip(1) =~= path + o);
            assert(look(c, path + o) is Some);
        }
        assert(present(c, Seq::empty()));
    }
    /// the greatest item, when no child is as great
    pub proof fn newest_item_wins(i: FileHistoryItem, a: u32)
        requires is_last(i.items@, a), forall|x: u32| #[trigger] i.children@.dom().contains(x) ==> x < a,
        ensures newest(i, seq![a]), look(i, seq![a]) == Some(i.items@[a]),
    {
        let o = seq![a];
        assert forall|x: Seq<u32>| (#[trigger] look(i, x)) is Some implies x == o || less(x, o) by {
            if x.len() == 1 {
                if x[0] == a { assert(x =~= o); } else { assert(i.items@.dom().contains(x[0])); assert(x[0] < o[0] && x.take(0) =~= o.take(0)); }
            } else {
                assert(i.children@.dom().contains(x[0]));
                assert(x[0] < o[0] && x.take(0) =~= o.take(0));
            }
        }
    }
    /// the newest file of the last child, when no item is greater
    pub proof fn newest_child_wins(i: FileHistoryItem, a: u32, o: Seq<u32>)
        requires is_last(i.children@, a), newest(i.children@[a], o), forall|x: u32| #[trigger] i.items@.dom().contains(x) ==> x <= a,
        ensures newest(i, seq![a] + o), look(i, seq![a] + o) == look(i.children@[a], o),
    {
        let c = i.children@[a];
        let w = seq![a] + o;
        assert(o.len() > 0);
        look_below(i, a, o);
        assert forall|x: Seq<u32>| (#[trigger] look(i, x)) is Some implies x == w || less(x, w) by {
            if x.len() == 1 {
                assert(i.items@.dom().contains(x[0]));
                if x[0] == a { assert(x =~= w.take(1)); } else { assert(x[0] < w[0] && x.take(0) =~= w.take(0)); }
            } else {
                assert(i.children@.dom().contains(x[0]));
                if x[0] == a {
                    let y = x.skip(1);
                    assert(x =~= seq![a] + y);
                    assert(look(c, y) is Some);
                    if y == o { } else if y.len() < o.len() && y == o.take(y.len() as int) {
                        assert(x =~= w.take(x.len() as int));
                    } else {
                        let k = choose|k: int| 0 <= k < y.len() && k < o.len() && #[trigger] y[k] < o[k] && y.take(k) == o.take(k);
                        assert(x[k + 1] < w[k + 1]);
                        assert(x.take(k + 1) =~= seq![a] + y.take(k));
                        assert(w.take(k + 1) =~= seq![a] + o.take(k));
                    }
                } else {
                    assert(x[0] < w[0] && x.take(0) =~= w.take(0));
                }
            }
        }
    }
    pub proof fn look_nothing(i: FileHistoryItem, o: Seq<u32>)
        requires nothing(i),
        ensures look(i, o) is None,
    {}
    pub proof fn present_below(i: FileHistoryItem, x: u32, path: Seq<u32>)
        ensures present(i, seq![x] + path) == (i.children@.dom().contains(x) && present(i.children@[x], path)),
    { assert((seq![x] + path).skip(1) =~= path); }
    pub proof fn look_below(i: FileHistoryItem, x: u32, o: Seq<u32>)
        requires o.len() > 0,
        ensures look(i, seq![x] + o) == (if i.children@.dom().contains(x) { look(i.children@[x], o) } else { None }),
    { assert((seq![x] + o).skip(1) =~= o); }
    impl FileHistoryItem {
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::new -> r
            ensures nothing(r),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::insert_or_get_mut -> r
            ensures
                old(self).children@.dom().contains(order) ==> *r == old(self).children@[order],
                !old(self).children@.dom().contains(order) ==> nothing(*r),
                final(self).items@ == old(self).items@,
                final(self).children@ == old(self).children@.insert(order, *final(r)),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::insert_props
            ensures
                final(self).children@ == old(self).children@,
                final(self).items@ == old(self).items@.insert(index, props),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::newest_child -> r
            ensures
                r is None <==> self.children@.dom() =~= Set::empty(),
                r is Some ==> is_last(self.children@, *(r->0).0) && self.children@[*(r->0).0] == *(r->0).1,
//@ sub self\.children\.iter\(\)\.last\(\) => last_entry(&self.children)
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::newest_item -> r
            ensures
                r is None <==> self.items@.dom() =~= Set::empty(),
                r is Some ==> is_last(self.items@, *(r->0).0) && self.items@[*(r->0).0] == *(r->0).1,
//@ sub self\.items\.iter\(\)\.last\(\) => last_entry(&self.items)
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::get_newest_prop -> r
            ensures
                r is Some ==> is_newest(*self, *r->0),
                r is None && full(*self) ==> forall|o: Seq<u32>| (#[trigger] look(*self, o)) is None,
//@ start
            proof {
                assert forall|a: u32| #[trigger] is_last(self.items@, a) && (forall|x: u32| #[trigger] self.children@.dom().contains(x) ==> x < a) implies newest(*self, seq![a]) && look(*self, seq![a]) == Some(self.items@[a]) by { newest_item_wins(*self, a); }
                assert forall|a: u32, o: Seq<u32>| is_last(self.children@, a) && #[trigger] newest(self.children@[a], o) && (forall|x: u32| #[trigger] self.items@.dom().contains(x) ==> x <= a) implies newest(*self, seq![a] + o) && look(*self, seq![a] + o) == look(self.children@[a], o) by { newest_child_wins(*self, a, o); }
                assert forall|a: u32| full(*self) && #[trigger] self.children@.dom().contains(a) implies full(self.children@[a]) && occupied(self.children@[a], Seq::empty()) by { full_child(*self, a); }
            }
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::get_props -> r
            ensures same(r, look(*self, order@)),
            decreases order@.len(),
//@ end
    }
    impl FileHistory {
        pub open spec fn look(self, k: Key) -> Option<FileNameProps> {
            if self.ctls@.dom().contains(k.ctl) { look(self.ctls@[k.ctl], k.order) } else { None }
        }
        /// every file is where its numbers say
        pub open spec fn wf(self) -> bool {
            forall|k: Key| (#[trigger] self.look(k)) is Some ==> self.look(k)->0.key() == k
        }
        pub open spec fn present(self, k: Key) -> bool { self.ctls@.dom().contains(k.ctl) && present(self.ctls@[k.ctl], k.order) }
        pub open spec fn occupied(self, k: Key) -> bool { exists|o: Seq<u32>| o.len() > 0 && (#[trigger] self.look(Key { ctl: k.ctl, order: k.order + o })) is Some }
        pub open spec fn full(self) -> bool { forall|k: Key| #[trigger] self.present(k) ==> self.occupied(k) }
        pub proof fn full_ctl(self, c: u32)
            requires self.full(), self.ctls@.dom().contains(c),
            ensures full(self.ctls@[c]), occupied(self.ctls@[c], Seq::empty()),
        {
            let i = self.ctls@[c];
            assert forall|path: Seq<u32>| #[trigger] present(i, path) implies occupied(i, path) by {
                let k = Key { ctl: c, order: path };
                assert(self.present(k));
                let o = choose|o: Seq<u32>| o.len() > 0 && (#[trigger] self.look(Key { ctl: k.ctl, order: k.order + o })) is Some;
                assert(look(i, path + o) is Some);
            }
            assert(present(i, Seq::empty()));
        }
        /// the file that is listed last
        pub open spec fn newest(self, k: Key) -> bool {
            self.look(k) is Some && forall|x: Key| (#[trigger] self.look(x)) is Some ==> x == k || before(x, k)
        }
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::newest_ctl -> r
            ensures
                r is None <==> self.ctls@.dom() =~= Set::empty(),
                r is Some ==> exists|c: u32| is_last(self.ctls@, c) && *r->0 == #[trigger] self.ctls@[c],
//@ sub self\.ctls\.iter\(\)\.last\(\) => last_entry(&self.ctls)
//@ sub \|\(_,\s*item\)\| item => |e: (&u32, &FileHistoryItem)| -> (x: &FileHistoryItem) ensures x == e.1 { e.1 }
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::get_newest_prop -> r
            requires self.wf(),
            ensures
                r is Some ==> self.newest(r->0.key()) && self.look(r->0.key()) == Some(*r->0),
                r is None && self.full() ==> forall|k: Key| (#[trigger] self.look(k)) is None,
//@ start
            proof {
                assert forall|c: u32, o: Seq<u32>| is_last(self.ctls@, c) && #[trigger] newest(self.ctls@[c], o) implies self.newest(Key { ctl: c, order: o }) && self.look(Key { ctl: c, order: o }) == look(self.ctls@[c], o) by {
                    let k = Key { ctl: c, order: o };
                    assert forall|x: Key| (#[trigger] self.look(x)) is Some implies x == k || before(x, k) by {
                        if x.ctl == c { assert(look(self.ctls@[c], x.order) is Some); }
                    }
                    assert(self.look(k)->0.key() == k);
                }
                assert forall|c: u32| self.full() && #[trigger] self.ctls@.dom().contains(c) implies full(self.ctls@[c]) && occupied(self.ctls@[c], Seq::empty()) by { self.full_ctl(c); }
            }
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::new -> r
            ensures
                r.max_phase == max_phase,
                r.cumulative == cumulative,
                forall|k: Key| (#[trigger] r.look(k)) is None,
                r.full(),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::insert_or_get_mut -> r
            ensures
                old(self).ctls@.dom().contains(control) ==> *r == old(self).ctls@[control],
                !old(self).ctls@.dom().contains(control) ==> nothing(*r),
                final(self).max_phase == old(self).max_phase,
                final(self).cumulative == old(self).cumulative,
                final(self).ctls@ == old(self).ctls@.insert(control, *final(r)),
//@ end
#[verifier::loop_isolation(false)]
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::add
            requires props.order@.len() > 0,
            ensures
                final(self).max_phase == old(self).max_phase,
                final(self).cumulative == old(self).cumulative,
                forall|k: Key| #[trigger] final(self).look(k) == (if k == props.key() { Some(props) } else { old(self).look(k) }),
                old(self).wf() ==> final(self).wf(),
                old(self).full() ==> final(self).full(),
//@ loops for
//@ start
            let ghost fin = *final(self);
            let ghost o0 = *old(self);
            let ghost ctl = props.control;
            let ghost po = props.order@;
            let ghost pv = props;
//@ pre 0
            proof {
                assert forall|o: Seq<u32>| #![trigger look(*his, o)] #![trigger look(*final(his), o)] po.take(0) + o == o by { assert(po.take(0) + o =~= o); }
                assert forall|o: Seq<u32>| o.len() > 0 implies #[trigger] look(*his, o) == o0.look(Key { ctl: ctl, order: o }) by { if !o0.ctls@.dom().contains(ctl) { look_nothing(*his, o); } }
                assert forall|k: Key| #![trigger fin.look(k)] #![trigger fin.present(k)] starts(k.order, po.take(0)) by { assert(k.order.take(0) =~= po.take(0)); }
                assert forall|q: Seq<u32>| #![trigger present(*his, q)] #![trigger present(*final(his), q)] po.take(0) + q == q by { assert(po.take(0) + q =~= q); }
            }
//@ in 0
            let ghost h0 = *his;
            let ghost f0 = *final(his);
            let ghost n = it.index@ as int;
            let ghost x = po[n];
//@ last 0
            proof {
                assert(po.take(n + 1) =~= po.take(n).push(x));
                assert forall|o: Seq<u32>| o.len() > 0 implies #[trigger] look(*his, o) == o0.look(Key { ctl: ctl, order: po.take(n + 1) + o }) by {
                    look_below(h0, x, o);
                    assert(po.take(n) + (seq![x] + o) =~= po.take(n + 1) + o);
                    if !h0.children@.dom().contains(x) { look_nothing(*his, o); }
                }
                assert forall|o: Seq<u32>| o.len() > 0 implies #[trigger] look(*final(his), o) == fin.look(Key { ctl: ctl, order: po.take(n + 1) + o }) by {
                    look_below(f0, x, o);
                    assert(po.take(n) + (seq![x] + o) =~= po.take(n + 1) + o);
                }
                assert forall|q: Seq<u32>| q.len() > 0 && #[trigger] present(*his, q) implies o0.present(Key { ctl: ctl, order: po.take(n + 1) + q }) by {
                    present_below(h0, x, q);
                    assert(po.take(n) + (seq![x] + q) =~= po.take(n + 1) + q);
                }
                assert forall|q: Seq<u32>| #[trigger] present(*final(his), q) == fin.present(Key { ctl: ctl, order: po.take(n + 1) + q }) by {
                    present_below(f0, x, q);
                    assert(po.take(n) + (seq![x] + q) =~= po.take(n + 1) + q);
                }
                assert forall|k: Key| #[trigger] fin.present(k) && !(k.ctl == ctl && starts(k.order, po.take(n + 1))) implies o0.present(k) || (k.ctl == ctl && starts(po.take(po.len() - 1), k.order)) by {
                    if k.ctl == ctl && starts(k.order, po.take(n)) {
                        let q = k.order.skip(n);
                        assert(k.order =~= po.take(n) + q);
                        assert(k == Key { ctl: ctl, order: po.take(n) + q });
                        assert(present(f0, q));
                        if q.len() == 0 {
                            assert(po.take(po.len() - 1).take(n) =~= po.take(n));
                            assert(k.order =~= po.take(n));
                        } else {
                            if q[0] == x { assert(k.order.take(n + 1) =~= po.take(n + 1)); }
                            assert(present(h0, q));
                        }
                    }
                }
                assert forall|k: Key| k.order.len() > 0 && !(k.ctl == ctl && k.order.len() > n + 1 && starts(k.order, po.take(n + 1))) implies #[trigger] fin.look(k) == o0.look(k) by {
                    if k.ctl == ctl && k.order.len() > n && starts(k.order, po.take(n)) {
                        let o = k.order.skip(n);
                        assert(k.order =~= po.take(n) + o);
                        assert(k == Key { ctl: ctl, order: po.take(n) + o });
                        assert(look(h0, o) == o0.look(k));
                        assert(look(f0, o) == fin.look(k));
                        if o.len() > 1 && o[0] == x { assert(k.order.take(n + 1) =~= po.take(n + 1)); }
                    }
                }
            }
//@ post 0
            let ghost n = po.len() - 1;
            let ghost h0 = *his;
            let ghost f0 = *final(his);
//@ end-of-body
            proof {
                assert(f0.items@ == h0.items@.insert(po[n], pv) && f0.children@ == h0.children@);
                assert(po.take(n) + seq![po[n]] =~= po);
                assert forall|k: Key| #[trigger] fin.look(k) == (if k == pv.key() { Some(pv) } else { o0.look(k) }) by {
                    if k.order.len() > 0 && k.ctl == ctl && k.order.len() > n && starts(k.order, po.take(n)) {
                        let o = k.order.skip(n);
                        assert(k.order =~= po.take(n) + o);
                        assert(k == Key { ctl: ctl, order: po.take(n) + o });
                        assert(look(h0, o) == o0.look(k));
                        assert(look(f0, o) == fin.look(k));
                        if o.len() == 1 && o[0] == po[n] { assert(k.order =~= po); }
                        if k == pv.key() { assert(o =~= seq![po[n]]); }
                    } else if k == pv.key() {
                        assert(k.order.take(n) =~= po.take(n));
                    }
                }
                assert forall|k: Key| #[trigger] fin.present(k) && o0.full() implies fin.occupied(k) by {
                    if k.ctl == ctl && starts(k.order, po.take(n)) {
                        let q = k.order.skip(n);
                        assert(k.order =~= po.take(n) + q);
                        assert(k == Key { ctl: ctl, order: po.take(n) + q });
                        assert(present(f0, q));
                        if q.len() > 0 { assert(present(h0, q)); }
                    }
                    if o0.present(k) {
                        let o = choose|o: Seq<u32>| o.len() > 0 && (#[trigger] o0.look(Key { ctl: k.ctl, order: k.order + o })) is Some;
                        assert(fin.look(Key { ctl: k.ctl, order: k.order + o }) is Some);
                    } else {
                        assert(k.order =~= po.take(k.order.len() as int)) by {
                            if starts(k.order, po.take(n)) { } else { assert(po.take(n).take(k.order.len() as int) =~= po.take(k.order.len() as int)); }
                        }
                        let o = po.skip(k.order.len() as int);
                        assert(k.order + o =~= po);
                        assert(Key { ctl: k.ctl, order: k.order + o } == pv.key());
                        assert(fin.look(Key { ctl: k.ctl, order: k.order + o }) is Some);
                    }
                }
            }
//@ iter 0 it
//@ loop 0
            invariant
                it.seq().len() == po.len() - 1,
                forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == po[j],
                forall|o: Seq<u32>| o.len() > 0 ==> #[trigger] look(*his, o) == o0.look(Key { ctl: ctl, order: po.take(it.index@ as int) + o }),
                forall|k: Key| k.order.len() > 0 && !(k.ctl == ctl && k.order.len() > it.index@ && starts(k.order, po.take(it.index@ as int))) ==> #[trigger] fin.look(k) == o0.look(k),
                forall|o: Seq<u32>| o.len() > 0 ==> #[trigger] look(*final(his), o) == fin.look(Key { ctl: ctl, order: po.take(it.index@ as int) + o }),
                forall|q: Seq<u32>| q.len() > 0 && #[trigger] present(*his, q) ==> o0.present(Key { ctl: ctl, order: po.take(it.index@ as int) + q }),
                forall|k: Key| #[trigger] fin.present(k) && !(k.ctl == ctl && starts(k.order, po.take(it.index@ as int))) ==> o0.present(k) || (k.ctl == ctl && starts(po.take(po.len() - 1), k.order)),
                forall|q: Seq<u32>| #[trigger] present(*final(his), q) == fin.present(Key { ctl: ctl, order: po.take(it.index@ as int) + q }),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::get_props -> r
            ensures same(r, self.look(Key { ctl: ctl, order: order@ })),
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::get_parent -> r
            requires props.order@.len() > 0,
            ensures same(r, self.look(Key { ctl: props.prev_ctl, order: props.order@.drop_last() })),
//@ end
    }
}

pub mod btree_zipper {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
    use super::file_history::*;
    use std::collections::btree_map::Iter;
    use vstd::std_specs::iter::IteratorSpec;
    use vstd::std_specs::cmp::OrdSpec;
//@ item dochy_fs/src/imp/history/remove/btree_zipper.rs struct BTreeZipper

    pub open spec fn pairs<'a, V>(rem: Seq<(&'a u32, &'a V)>) -> Seq<(u32, &'a V)> { rem.map_values(|e: (&'a u32, &'a V)| (*e.0, e.1)) }
    /// what is still to come of one side
    pub open spec fn pending<'a, V>(rem: Seq<(&'a u32, &'a V)>, cur: i64, r: Option<&'a V>, other: i64) -> Seq<(u32, &'a V)> {
        if cur > other && cur < i64::MAX { seq![(cur as u32, r->0)] + pairs(rem) } else { pairs(rem) }
    }
    pub open spec fn side<'a, V>(rem: Seq<(&'a u32, &'a V)>, cur: i64, r: Option<&'a V>, other: i64) -> bool {
        &&& -1 <= cur <= u32::MAX || cur == i64::MAX
        &&& cur == i64::MAX ==> rem.len() == 0
        &&& cur > other && cur < i64::MAX ==> r is Some
        &&& forall|i: int| 0 <= i < rem.len() ==> *(#[trigger] rem[i]).0 > cur
        &&& forall|i: int, j: int| 0 <= i < j < rem.len() ==> *(#[trigger] rem[i]).0 < *(#[trigger] rem[j]).0
    }
    /// the entries of a map, in the order of their keys
    pub open spec fn entries<V>(m: Map<u32, V>, s: Seq<(u32, &V)>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0
        &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == *s[i].1
        &&& forall|k: u32| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    }
    pub proof fn increasing(k: Seq<u32>)
        requires vstd::std_specs::btree::increasing_seq(k),
        ensures forall|i: int, j: int| 0 <= i < j < k.len() ==> (#[trigger] k[i]) < (#[trigger] k[j]),
    {
        broadcast use vstd::std_specs::btree::group_btree_axioms;
        broadcast use vstd::laws_cmp::group_laws_cmp;
        vstd::std_specs::btree::axiom_increasing_seq_meaning::<u32>(k);
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies (#[trigger] k[i]) < (#[trigger] k[j]) by {
            assert(k[i].cmp_spec(&k[j]) == core::cmp::Ordering::Less);
        }
    }
    pub open spec fn keys<'a, V>(rem: Seq<(&'a u32, &'a V)>) -> Seq<u32> { rem.map_values(|e: (&'a u32, &'a V)| *e.0) }
    pub proof fn pieces<'a, V>(rem: Seq<(&'a u32, &'a V)>, cur: i64, r: Option<&'a V>)
        ensures
            rem.len() > 0 ==> pairs(rem).skip(1) == pairs(rem.skip(1)) && seq![(*rem[0].0, rem[0].1)] + pairs(rem.skip(1)) == pairs(rem),
            (seq![(cur as u32, r->0)] + pairs(rem)).skip(1) == pairs(rem),
    {
        if rem.len() > 0 {
            assert(pairs(rem).skip(1) =~= pairs(rem.skip(1)));
            assert(seq![(*rem[0].0, rem[0].1)] + pairs(rem.skip(1)) =~= pairs(rem));
        }
        assert((seq![(cur as u32, r->0)] + pairs(rem)).skip(1) =~= pairs(rem));
    }
    /// `m.iter()`
    pub fn iter_<'a, V>(m: &'a BTreeMap<u32, V>) -> (r: Iter<'a, u32, V>)
        ensures
            entries(m@, pairs(r.remaining())),
            side(r.remaining(), -1i64, None, -1i64),
    {
        let r = m.iter();
        proof {
            let s = r.remaining();
            let k = s.map_values(|e: (&'a u32, &'a V)| *e.0);
            broadcast use vstd::std_specs::btree::group_btree_axioms;
            broadcast use vstd::laws_cmp::group_laws_cmp;
            assert(vstd::std_specs::btree::increasing_seq(k));
            increasing(k);
            assert(forall|i: int| 0 <= i < s.len() ==> k[i] == *(#[trigger] s[i]).0);
            let p = pairs(s);
            assert(forall|i: int| 0 <= i < s.len() ==> (#[trigger] p[i]).0 == k[i]);
            assert(forall|i: int| 0 <= i < s.len() ==> m@.contains_pair(*(#[trigger] s[i]).0, *s[i].1));
            assert forall|i: int| 0 <= i < p.len() implies m@.dom().contains((#[trigger] p[i]).0) && m@[p[i].0] == *p[i].1 by { assert(m@.contains_pair(*s[i].0, *s[i].1)); }
            assert forall|x: u32| #[trigger] m@.dom().contains(x) implies exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == x by {
                let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == x;
                assert(p[i].0 == x);
            }
        }
        r
    }
    /// one step of one side
    pub open spec fn stepped<'a, V>(a: Seq<(u32, &'a V)>, b: Seq<(u32, &'a V)>, m: u32, v: Option<&'a V>) -> bool {
        &&& v is Some ==> a.len() > 0 && a[0] == (m, v->0) && b == a.skip(1)
        &&& v is None ==> b == a && (a.len() > 0 ==> a[0].0 > m)
    }
    impl<'a> BTreeZipper<'a> {
        #[verifier::prophetic]
        pub open spec fn wf(self) -> bool {
            &&& side(self.props.remaining(), self.cur_props, self.r_props, self.cur_his)
            &&& side(self.his.remaining(), self.cur_his, self.r_his, self.cur_props)
        }
        #[verifier::prophetic]
        pub open spec fn pending_props(self) -> Seq<(u32, &'a FileNameProps)> { pending(self.props.remaining(), self.cur_props, self.r_props, self.cur_his) }
        #[verifier::prophetic]
        pub open spec fn pending_his(self) -> Seq<(u32, &'a FileHistoryItem)> { pending(self.his.remaining(), self.cur_his, self.r_his, self.cur_props) }
//@ fn dochy_fs/src/imp/history/remove/btree_zipper.rs BTreeZipper::new -> r
            ensures
                r.wf(),
                entries(props@, r.pending_props()),
                entries(his@, r.pending_his()),
//@ sub \b(\w+)\.iter\(\) => iter_(\1)
//@ end
//@ fn dochy_fs/src/imp/history/remove/btree_zipper.rs Iterator for BTreeZipper::next -> r
            requires old(self).wf(),
            ensures
                final(self).wf(),
                r is None <==> old(self).pending_props().len() == 0 && old(self).pending_his().len() == 0,
                r is None ==> final(self).pending_props().len() == 0 && final(self).pending_his().len() == 0,
                r is Some ==> stepped(old(self).pending_his(), final(self).pending_his(), (r->0).0, (r->0).1)
                    && stepped(old(self).pending_props(), final(self).pending_props(), (r->0).0, (r->0).2)
                    && ((r->0).1 is Some || (r->0).2 is Some),
//@ sub Self::Item => (u32, Option<&'a FileHistoryItem>, Option<&'a FileNameProps>)
//@ sub \bfn next\( => pub fn next(
//@ start
            proof {
                pieces(self.props.remaining(), self.cur_props, self.r_props);
                pieces(self.his.remaining(), self.cur_his, self.r_his);
            }
//@ end
    }
}

pub mod listing {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
    use super::file_history::*;
    use super::btree_zipper::*;
    use vstd::std_specs::iter::IteratorSpec;

    pub open spec fn sorted(ks: Seq<Seq<u32>>) -> bool { forall|a: int, b: int| 0 <= a < b < ks.len() ==> less(#[trigger] ks[a], #[trigger] ks[b]) }
    /// all files below an item in order, with the orders they are found by
    pub open spec fn lists(i: FileHistoryItem, ks: Seq<Seq<u32>>, s: Seq<&FileNameProps>) -> bool {
        &&& ks.len() == s.len()
        &&& sorted(ks)
        &&& forall|j: int| 0 <= j < ks.len() ==> look(i, #[trigger] ks[j]) == Some(*s[j])
        &&& forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some ==> ks.contains(o)
    }
    pub open spec fn ahead<V>(e: Seq<(u32, &V)>, x: u32) -> bool { exists|a: int| 0 <= a < e.len() && (#[trigger] e[a]).0 == x }
    pub open spec fn ordered<V>(e: Seq<(u32, &V)>) -> bool { forall|a: int, b: int| 0 <= a < b < e.len() ==> (#[trigger] e[a]).0 < (#[trigger] e[b]).0 }
    pub open spec fn of_map<V>(m: Map<u32, V>, e: Seq<(u32, &V)>) -> bool { forall|a: int| 0 <= a < e.len() ==> m.dom().contains((#[trigger] e[a]).0) && m[e[a].0] == *e[a].1 }
    /// the files before what is still to come
    pub open spec fn partial(i: FileHistoryItem, ks: Seq<Seq<u32>>, s: Seq<&FileNameProps>, p: Seq<(u32, &FileNameProps)>, h: Seq<(u32, &FileHistoryItem)>) -> bool {
        &&& ks.len() == s.len()
        &&& sorted(ks)
        &&& forall|j: int| 0 <= j < ks.len() ==> look(i, #[trigger] ks[j]) == Some(*s[j])
        &&& forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some ==> ks.contains(o) || (o.len() == 1 && ahead(p, o[0])) || (o.len() > 1 && ahead(h, o[0]))
        &&& forall|j: int, a: int| 0 <= j < ks.len() && 0 <= a < p.len() ==> (#[trigger] ks[j])[0] < (#[trigger] p[a]).0
        &&& forall|j: int, a: int| 0 <= j < ks.len() && 0 <= a < h.len() ==> (#[trigger] ks[j])[0] < (#[trigger] h[a]).0 || (ks[j].len() == 1 && ks[j][0] == h[a].0)
        &&& ordered(p) && ordered(h) && of_map(i.items@, p) && of_map(i.children@, h)
    }
    pub proof fn contains_push(ks: Seq<Seq<u32>>, k: Seq<u32>)
        ensures forall|o: Seq<u32>| #[trigger] ks.contains(o) ==> ks.push(k).contains(o), ks.push(k).contains(k),
    {
        let w = ks.push(k);
        assert forall|o: Seq<u32>| #[trigger] ks.contains(o) implies w.contains(o) by { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == o; assert(w[j] == o); }
        assert(w[ks.len() as int] == k);
    }
    pub proof fn ahead_rest<V>(e: Seq<(u32, &V)>)
        requires e.len() > 0, ordered(e),
        ensures forall|x: u32| #[trigger] ahead(e, x) ==> x == e[0].0 || ahead(e.skip(1), x), forall|a: int| 0 <= a < e.skip(1).len() ==> #[trigger] e.skip(1)[a] == e[a + 1], ordered(e.skip(1)),
    {
        assert forall|x: u32| #[trigger] ahead(e, x) implies x == e[0].0 || ahead(e.skip(1), x) by {
            let a = choose|a: int| 0 <= a < e.len() && (#[trigger] e[a]).0 == x;
            if a > 0 { assert(e.skip(1)[a - 1].0 == x); }
        }
        assert forall|a: int, b: int| 0 <= a < b < e.skip(1).len() implies (#[trigger] e.skip(1)[a]).0 < (#[trigger] e.skip(1)[b]).0 by { assert(e[a + 1].0 < e[b + 1].0); }
    }
    pub proof fn add_item(i: FileHistoryItem, ks: Seq<Seq<u32>>, s: Seq<&FileNameProps>, p: Seq<(u32, &FileNameProps)>, h: Seq<(u32, &FileHistoryItem)>)
        requires partial(i, ks, s, p, h), p.len() > 0, h.len() > 0 ==> h[0].0 >= p[0].0,
        ensures partial(i, ks.push(seq![p[0].0]), s.push(p[0].1), p.skip(1), h),
    {
        let m = p[0].0;
        let k = seq![m];
        let w = ks.push(k);
        let t = s.push(p[0].1);
        contains_push(ks, k);
        ahead_rest(p);
        assert(look(i, k) == Some(*p[0].1));
        assert forall|a: int, b: int| 0 <= a < b < w.len() implies less(#[trigger] w[a], #[trigger] w[b]) by {
            if b == ks.len() { assert(ks[a][0] < p[0].0); assert(w[a].take(0) =~= k.take(0)); assert(w[a][0] < k[0]); assert(look(i, ks[a]) is Some); }
        }
        assert forall|j: int| 0 <= j < w.len() implies look(i, #[trigger] w[j]) == Some(*t[j]) by { if j < ks.len() { assert(look(i, ks[j]) == Some(*s[j])); } }
        assert forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some implies w.contains(o) || (o.len() == 1 && ahead(p.skip(1), o[0])) || (o.len() > 1 && ahead(h, o[0])) by {
            if !ks.contains(o) && o.len() == 1 && o[0] == m { assert(o =~= k); }
        }
        assert forall|j: int, a: int| 0 <= j < w.len() && 0 <= a < p.skip(1).len() implies (#[trigger] w[j])[0] < (#[trigger] p.skip(1)[a]).0 by { assert(p[0].0 < p[a + 1].0); if j < ks.len() { assert(ks[j][0] < p[0].0); } }
        assert forall|j: int, a: int| 0 <= j < w.len() && 0 <= a < h.len() implies (#[trigger] w[j])[0] < (#[trigger] h[a]).0 || (w[j].len() == 1 && w[j][0] == h[a].0) by {
            if j == ks.len() { if a > 0 { assert(h[0].0 < h[a].0); } } else { assert(ks[j][0] < h[a].0 || (ks[j].len() == 1 && ks[j][0] == h[a].0)); }
        }
    }
    pub open spec fn under(m: u32, kc: Seq<Seq<u32>>) -> Seq<Seq<u32>> { kc.map_values(|k: Seq<u32>| seq![m] + k) }
    pub proof fn less_under(m: u32, x: Seq<u32>, y: Seq<u32>)
        requires less(x, y),
        ensures less(seq![m] + x, seq![m] + y),
    {
        let a = seq![m] + x;
        let b = seq![m] + y;
        if x.len() < y.len() && x == y.take(x.len() as int) {
            assert(a =~= b.take(a.len() as int));
        } else {
            let k = choose|k: int| 0 <= k < x.len() && k < y.len() && #[trigger] x[k] < y[k] && x.take(k) == y.take(k);
            assert(a[k + 1] < b[k + 1]);
            assert(a.take(k + 1) =~= seq![m] + x.take(k));
            assert(b.take(k + 1) =~= seq![m] + y.take(k));
        }
    }
    pub proof fn add_child(i: FileHistoryItem, ks: Seq<Seq<u32>>, s: Seq<&FileNameProps>, p: Seq<(u32, &FileNameProps)>, h: Seq<(u32, &FileHistoryItem)>, kc: Seq<Seq<u32>>, sc: Seq<&FileNameProps>)
        requires partial(i, ks, s, p, h), h.len() > 0, p.len() > 0 ==> p[0].0 > h[0].0, lists(*h[0].1, kc, sc),
        ensures partial(i, ks + under(h[0].0, kc), s + sc, p, h.skip(1)),
    {
        let m = h[0].0;
        let c = *h[0].1;
        let u = under(m, kc);
        let w = ks + u;
        let t = s + sc;
        ahead_rest(h);
        assert(i.children@.dom().contains(h[0].0) && i.children@[m] == c);
        assert forall|j: int| 0 <= j < kc.len() implies (#[trigger] u[j]).len() > 1 && look(i, u[j]) == Some(*sc[j]) && u[j] == seq![m] + kc[j] by {
            assert(look(c, kc[j]) == Some(*sc[j]));
            look_below(i, m, kc[j]);
        }
        assert forall|a: int, b: int| 0 <= a < b < w.len() implies less(#[trigger] w[a], #[trigger] w[b]) by {
            if a >= ks.len() {
                let x = a - ks.len();
                let y = b - ks.len();
                assert(less(kc[x], kc[y]));
                less_under(m, kc[x], kc[y]);
                assert(u[x] == seq![m] + kc[x] && u[y] == seq![m] + kc[y]);
            } else if b >= ks.len() {
                let y = b - ks.len();
                assert(u[y] == seq![m] + kc[y]);
                assert(ks[a][0] < h[0].0 || (ks[a].len() == 1 && ks[a][0] == h[0].0));
                assert(look(i, ks[a]) is Some);
                if ks[a][0] < m { assert(w[a][0] < w[b][0] && w[a].take(0) =~= w[b].take(0)); } else { assert(w[a] =~= w[b].take(1)); }
            } else {
                assert(less(ks[a], ks[b]));
            }
        }
        assert forall|j: int| 0 <= j < w.len() implies look(i, #[trigger] w[j]) == Some(*t[j]) by {
            if j < ks.len() { assert(look(i, ks[j]) == Some(*s[j])); } else { assert(look(i, u[j - ks.len()]) == Some(*sc[j - ks.len()])); }
        }
        assert forall|o: Seq<u32>| (#[trigger] look(i, o)) is Some implies w.contains(o) || (o.len() == 1 && ahead(p, o[0])) || (o.len() > 1 && ahead(h.skip(1), o[0])) by {
            if ks.contains(o) {
                let j = choose|j: int| 0 <= j < ks.len() && ks[j] == o;
                assert(w[j] == o);
            } else if o.len() > 1 && o[0] == m {
                let x = o.skip(1);
                assert(o =~= seq![m] + x);
                assert(look(c, x) is Some);
                let j = choose|j: int| 0 <= j < kc.len() && kc[j] == x;
                assert(u[j] == seq![m] + kc[j]);
                assert(w[ks.len() + j] == u[j]);
            }
        }
        assert forall|j: int, a: int| 0 <= j < w.len() && 0 <= a < p.len() implies (#[trigger] w[j])[0] < (#[trigger] p[a]).0 by {
            if j < ks.len() { assert(ks[j][0] < p[a].0); } else { assert(u[j - ks.len()] == seq![m] + kc[j - ks.len()]); if a > 0 { assert(p[0].0 < p[a].0); } }
        }
        assert forall|j: int, a: int| 0 <= j < w.len() && 0 <= a < h.skip(1).len() implies (#[trigger] w[j])[0] < (#[trigger] h.skip(1)[a]).0 || (w[j].len() == 1 && w[j][0] == h.skip(1)[a].0) by {
            assert(h[0].0 < h[a + 1].0);
            if j < ks.len() { assert(ks[j][0] < h[0].0 || (ks[j].len() == 1 && ks[j][0] == h[0].0)); } else { assert(u[j - ks.len()] == seq![m] + kc[j - ks.len()]); }
        }
    }
    impl FileHistoryItem {
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::children -> r
            ensures *r == self.children,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::items -> r
            ensures *r == self.items,
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_hist/file_history_item.rs FileHistoryItem::flatten
            ensures exists|ks: Seq<Seq<u32>>, s: Seq<&'a FileNameProps>| #[trigger] lists(*self, ks, s) && final(vec)@ == old(vec)@ + s,
//@ next 0 zi
//@ loops while
//@ start
            let ghost v0 = vec@;
            let ghost mut ks: Seq<Seq<u32>> = Seq::empty();
            let ghost mut s: Seq<&'a FileNameProps> = Seq::empty();
//@ pre 0
            let ghost mut z0 = zi;
            proof { assert(v0 + s =~= v0); }
//@ loop 0
            invariant_except_break
                zi.wf(),
                z0 == zi,
                vec@ == v0 + s,
                partial(*self, ks, s, zi.pending_props(), zi.pending_his()),
            ensures
                lists(*self, ks, s),
                vec@ == v0 + s,
//@ last 0
            proof {
                let v1 = v0 + s;
                let p0 = z0.pending_props();
                let h0 = z0.pending_his();
                let p1 = zi.pending_props();
                let h1 = zi.pending_his();
                let mut vm = v1;
                if let Some(q) = props {
                    add_item(*self, ks, s, p0, h0);
                    ks = ks.push(seq![_ind]);
                    s = s.push(q);
                    vm = v1.push(q);
                    assert(vm =~= v0 + s);
                }
                if let Some(c) = child {
                    let (kc, sc) = choose|kc: Seq<Seq<u32>>, sc: Seq<&'a FileNameProps>| #[trigger] lists(*c, kc, sc) && vec@ == vm + sc;
                    assert(lists(*c, kc, sc) && vec@ == vm + sc);
                    add_child(*self, ks, s, p1, h0, kc, sc);
                    ks = ks + under(_ind, kc);
                    s = s + sc;
                    assert(vm + sc =~= v0 + s);
                }
                z0 = zi;
            }
//@ end
    }
    /// all files of a history, oldest first
    pub open spec fn lists_all(f: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>) -> bool {
        &&& ks.len() == s.len()
        &&& forall|a: int, b: int| 0 <= a < b < ks.len() ==> before(#[trigger] ks[a], #[trigger] ks[b])
        &&& forall|j: int| 0 <= j < ks.len() ==> f.look(#[trigger] ks[j]) == Some(*s[j])
        &&& forall|k: Key| (#[trigger] f.look(k)) is Some ==> ks.contains(k)
    }
    pub open spec fn partial_all(f: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>, h: Seq<(u32, &FileHistoryItem)>) -> bool {
        &&& ks.len() == s.len()
        &&& forall|a: int, b: int| 0 <= a < b < ks.len() ==> before(#[trigger] ks[a], #[trigger] ks[b])
        &&& forall|j: int| 0 <= j < ks.len() ==> f.look(#[trigger] ks[j]) == Some(*s[j])
        &&& forall|k: Key| (#[trigger] f.look(k)) is Some ==> ks.contains(k) || ahead(h, k.ctl)
        &&& forall|j: int, a: int| 0 <= j < ks.len() && 0 <= a < h.len() ==> (#[trigger] ks[j]).ctl < (#[trigger] h[a]).0
        &&& ordered(h) && of_map(f.ctls@, h)
    }
    pub open spec fn keyed(c: u32, kc: Seq<Seq<u32>>) -> Seq<Key> { kc.map_values(|o: Seq<u32>| Key { ctl: c, order: o }) }
    pub proof fn add_ctl(f: FileHistory, ks: Seq<Key>, s: Seq<&FileNameProps>, h: Seq<(u32, &FileHistoryItem)>, kc: Seq<Seq<u32>>, sc: Seq<&FileNameProps>)
        requires partial_all(f, ks, s, h), h.len() > 0, lists(*h[0].1, kc, sc),
        ensures partial_all(f, ks + keyed(h[0].0, kc), s + sc, h.skip(1)),
    {
        let m = h[0].0;
        let u = keyed(m, kc);
        let w = ks + u;
        let t = s + sc;
        ahead_rest(h);
        assert(f.ctls@.dom().contains(h[0].0) && f.ctls@[m] == *h[0].1);
        assert forall|j: int| 0 <= j < kc.len() implies f.look(#[trigger] u[j]) == Some(*sc[j]) && u[j] == (Key { ctl: m, order: kc[j] }) by { assert(look(*h[0].1, kc[j]) == Some(*sc[j])); }
        assert forall|a: int, b: int| 0 <= a < b < w.len() implies before(#[trigger] w[a], #[trigger] w[b]) by {
            if a >= ks.len() { assert(less(kc[a - ks.len()], kc[b - ks.len()])); }
            else if b >= ks.len() { assert(ks[a].ctl < h[0].0); }
            else { assert(before(ks[a], ks[b])); }
        }
        assert forall|j: int| 0 <= j < w.len() implies f.look(#[trigger] w[j]) == Some(*t[j]) by {
            if j < ks.len() { assert(f.look(ks[j]) == Some(*s[j])); } else { assert(f.look(u[j - ks.len()]) == Some(*sc[j - ks.len()])); }
        }
        assert forall|k: Key| (#[trigger] f.look(k)) is Some implies w.contains(k) || ahead(h.skip(1), k.ctl) by {
            if ks.contains(k) {
                let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
                assert(w[j] == k);
            } else if k.ctl == m {
                assert(look(*h[0].1, k.order) is Some);
                let j = choose|j: int| 0 <= j < kc.len() && kc[j] == k.order;
                assert(u[j] == k);
                assert(w[ks.len() + j] == u[j]);
            }
        }
        assert forall|j: int, a: int| 0 <= j < w.len() && 0 <= a < h.skip(1).len() implies (#[trigger] w[j]).ctl < (#[trigger] h.skip(1)[a]).0 by {
            assert(h[0].0 < h[a + 1].0);
            if j < ks.len() { assert(ks[j].ctl < h[0].0); } else { assert(u[j - ks.len()].ctl == m); }
        }
    }
    impl FileHistory {
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::max_phase -> r
            ensures r == self.max_phase,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::cumulative -> r
            ensures r == self.cumulative,
//@ end
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::ctls -> r
            ensures *r == self.ctls,
//@ end
#[verifier::exec_allows_no_decreases_clause]
//@ fn dochy_fs/src/imp/history/file_hist/file_history.rs FileHistory::list_files -> r
            ensures exists|ks: Seq<Key>| #[trigger] lists_all(*self, ks, r@),
//@ sub \bin\s+&self\.ctls => in iter_(&self.ctls)
//@ sub \bfor\s*\(_, => for (num_,
//@ next 0 zi
//@ loops while
//@ pre 0
            let ghost mut z0 = zi;
            let ghost mut ks: Seq<Key> = Seq::empty();
            proof { assert(vec@ =~= Seq::empty()); }
//@ loop 0
            invariant_except_break
                side(zi.remaining(), -1i64, None, -1i64),
                z0 == zi,
                partial_all(*self, ks, vec@, pairs(zi.remaining())),
            ensures
                lists_all(*self, ks, vec@),
//@ in 0
            let ghost v0 = vec@;
//@ last 0
            proof {
                let h0 = pairs(z0.remaining());
                pieces(z0.remaining(), -1i64, None);
                let (kc, sc) = choose|kc: Seq<Seq<u32>>, sc: Seq<&FileNameProps>| #[trigger] lists(*ctl, kc, sc) && vec@ == v0 + sc;
                assert(lists(*ctl, kc, sc) && vec@ == v0 + sc);
                add_ctl(*self, ks, v0, h0, kc, sc);
                assert(h0[0].1 == ctl);
                ks = ks + keyed(*num_, kc);
                z0 = zi;
            }
//@ end
    }
}
