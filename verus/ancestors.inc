pub mod ancestors {
    use super::*;
    use super::lib_specs::*;
    use super::file_name_props::*;
    use super::file_history::*;

    /// a file and what it needs, up to a file that needs nothing
    #[verifier::opaque]
    pub open spec fn is_chain(h: FileHistory, p: FileNameProps, s: Seq<FileNameProps>, max_phase: int, cumulative: bool) -> bool {
        &&& s.len() >= 1
        &&& s[0] == p
        &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() - 1 ==> needs(s[i], max_phase, cumulative) is Some && h.look(needs(s[i], max_phase, cumulative)->0) == Some(s[i + 1])
        &&& needs(s.last(), max_phase, cumulative) is None
    }
    pub open spec fn values(s: Seq<&FileNameProps>) -> Seq<FileNameProps> { s.map_values(|p: &FileNameProps| *p) }

    /// what has been collected so far is the beginning of every chain
    #[verifier::opaque]
    pub open spec fn begins(h: FileHistory, p: FileNameProps, v: Seq<FileNameProps>, max_phase: int, cumulative: bool) -> bool {
        &&& v.len() >= 1
        &&& v[0] == p
        &&& forall|i: int| #![trigger v[i]] 0 <= i < v.len() - 1 ==> needs(v[i], max_phase, cumulative) is Some && h.look(needs(v[i], max_phase, cumulative)->0) == Some(v[i + 1])
    }
    pub proof fn begins_all(h: FileHistory, p: FileNameProps, v: Seq<FileNameProps>, s: Seq<FileNameProps>, max_phase: int, cumulative: bool)
        requires begins(h, p, v, max_phase, cumulative), is_chain(h, p, s, max_phase, cumulative),
        ensures v.len() <= s.len(), v == s.take(v.len() as int),
        decreases v.len(),
    {
        reveal(is_chain); reveal(begins);
        if v.len() == 1 {
            assert(v =~= s.take(1));
        } else {
            let w = v.drop_last();
            assert(begins(h, p, w, max_phase, cumulative)) by {
                assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() - 1 implies needs(w[i], max_phase, cumulative) is Some && h.look(needs(w[i], max_phase, cumulative)->0) == Some(w[i + 1]) by { assert(w[i] == v[i] && w[i + 1] == v[i + 1]); }
            }
            begins_all(h, p, w, s, max_phase, cumulative);
            let k = w.len() - 1;
            assert(v[k] == w[k] && w[k] == s.take(w.len() as int)[k] && s.take(w.len() as int)[k] == s[k]);
            assert(needs(v[k], max_phase, cumulative) is Some);
            assert(s.len() > w.len()) by { if s.len() == w.len() { assert(s.last() == s[k]); } }
            assert(s[k + 1] == v[k + 1]);
            assert(v =~= s.take(v.len() as int));
        }
    }
    pub proof fn alone(h: FileHistory, p: FileNameProps, max_phase: int, cumulative: bool)
        ensures begins(h, p, seq![p], max_phase, cumulative),
    { reveal(begins); }
    pub proof fn done(h: FileHistory, p: FileNameProps, v: Seq<FileNameProps>, max_phase: int, cumulative: bool)
        requires begins(h, p, v, max_phase, cumulative), needs(v.last(), max_phase, cumulative) is None,
        ensures is_chain(h, p, v, max_phase, cumulative),
    { reveal(is_chain); reveal(begins); }
    pub proof fn stuck(h: FileHistory, p: FileNameProps, v: Seq<FileNameProps>, max_phase: int, cumulative: bool)
        requires begins(h, p, v, max_phase, cumulative), needs(v.last(), max_phase, cumulative) is Some, h.look(needs(v.last(), max_phase, cumulative)->0) is None,
        ensures forall|s: Seq<FileNameProps>| !is_chain(h, p, s, max_phase, cumulative),
    {
        assert forall|s: Seq<FileNameProps>| !is_chain(h, p, s, max_phase, cumulative) by {
            if is_chain(h, p, s, max_phase, cumulative) { longer(h, p, v, s, max_phase, cumulative); }
        }
    }
    pub proof fn longer(h: FileHistory, p: FileNameProps, v: Seq<FileNameProps>, s: Seq<FileNameProps>, max_phase: int, cumulative: bool)
        requires begins(h, p, v, max_phase, cumulative), is_chain(h, p, s, max_phase, cumulative), needs(v.last(), max_phase, cumulative) is Some,
        ensures h.look(needs(v.last(), max_phase, cumulative)->0) is Some,
    {
        reveal(is_chain); reveal(begins);
        begins_all(h, p, v, s, max_phase, cumulative);
        let k = v.len() - 1;
        assert(v[k] == s.take(v.len() as int)[k]);
        assert(s[k] == v[k]);
        if s.len() == v.len() { assert(s.last() == s[k]); }
    }
    pub proof fn grows(h: FileHistory, p: FileNameProps, v: Seq<FileNameProps>, q: FileNameProps, max_phase: int, cumulative: bool)
        requires begins(h, p, v, max_phase, cumulative), needs(v.last(), max_phase, cumulative) is Some, h.look(needs(v.last(), max_phase, cumulative)->0) == Some(q),
        ensures begins(h, p, v.push(q), max_phase, cumulative),
    {
        reveal(is_chain); reveal(begins);
        let w = v.push(q);
        assert forall|i: int| #![trigger w[i]] 0 <= i < w.len() - 1 implies needs(w[i], max_phase, cumulative) is Some && h.look(needs(w[i], max_phase, cumulative)->0) == Some(w[i + 1]) by {
            assert(w[i] == v[i]);
            if i < v.len() - 1 { assert(w[i + 1] == v[i + 1]); } else { assert(v[i] == v.last()); }
        }
    }
#[verifier::loop_isolation(false)]
//@ fn dochy_fs/src/imp/history/file_hist/ancestors.rs create_ancestors_rev -> r
        requires
            history.wf(),
            phases(*props, max_phase as int),
            max_phase < usize::MAX,
        ensures
            r is Ok ==> is_chain(*history, *props, values(r->Ok_0@), max_phase as int, cumulative),
            r is Err ==> forall|s: Seq<FileNameProps>| !is_chain(*history, *props, s, max_phase as int, cumulative),
//@ loops for for loop
//@ iter 0 it0
//@ before let len
        let ghost p0 = *props;
        let ghost mp = max_phase as int;
        proof { assert(values(vec@) =~= seq![p0]); alone(*history, p0, mp, cumulative); }
//@ loop 0
            invariant
                it0.seq().len() == props.order@.len() - 1,
                forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == props.order@[j],
                order@ == props.order@.take(it0.index@ as int),
//@ pre 1
            let ghost base = order@;
            proof { assert(base =~= p0.order@.drop_last()); }
//@ loop 1
            invariant
                history.wf(),
                mp == max_phase,
                cumulative,
                base == p0.order@.drop_last(),
                p0.order@.len() == max_phase + 1,
                order_last == p0.order@.last(),
                order@ == base,
                props.order@ == base.push((order_last - inv_i) as u32),
                inv_i <= order_last,
                vec@.len() >= 1,
                vec@.last() == props,
                begins(*history, p0, values(vec@), mp, cumulative),
//@ in 1
            let ghost v0 = values(vec@);
            let ghost pr = *props;
            proof {
                assert(v0.last() == pr);
                assert(pr.order@.drop_last() =~= base);
                assert(needs(pr, mp, cumulative) == Some(Key { ctl: pr.prev_ctl, order: base.push((order_last - 1 - inv_i) as u32) }));
                if history.look(needs(pr, mp, cumulative)->0) is None { stuck(*history, p0, v0, mp, cumulative); }
            }
//@ last 1
            proof {
                assert(order@ =~= base);
                assert(values(vec@) =~= v0.push(*props));
                grows(*history, p0, v0, *props, mp, cumulative);
            }
//@ loop 2
            invariant
                history.wf(),
                mp == max_phase,
                1 <= props.order@.len() <= max_phase + 1,
                cumulative && props.order@.len() == max_phase + 1 ==> props.order@.last() == 0,
                vec@.len() >= 1,
                vec@.last() == props,
                begins(*history, p0, values(vec@), mp, cumulative),
            decreases props.order@.len(),
//@ in 2
            let ghost v0 = values(vec@);
            proof {
                assert(v0.last() == *props);
                if needs(*props, mp, cumulative) is None { done(*history, p0, v0, mp, cumulative); }
                else if history.look(needs(*props, mp, cumulative)->0) is None { stuck(*history, p0, v0, mp, cumulative); }
            }
//@ last 2
            proof {
                assert(values(vec@) =~= v0.push(*props));
                grows(*history, p0, v0, *props, mp, cumulative);
            }
//@ end

    // TRUSTED: reverse of a vector (calls are redirected here)
    #[verifier::external_body]
    pub fn reverse_<T>(v: &mut Vec<T>)
        ensures final(v)@ == old(v)@.reverse(),
    { v.reverse() }

    // TRUSTED: to_vec of a slice of numbers (calls are redirected here)
    pub trait ToVec { fn to_vec_(&self) -> Vec<u32>; }
    impl ToVec for [u32] {
        #[verifier::external_body]
        fn to_vec_(&self) -> (r: Vec<u32>)
            ensures r@ == self@,
        { self.to_vec() }
    }

    /// from the file everything rests on to the file itself
    pub open spec fn is_line(h: FileHistory, p: FileNameProps, s: Seq<FileNameProps>, max_phase: int, cumulative: bool) -> bool {
        is_chain(h, p, s.reverse(), max_phase, cumulative)
    }
    /// a line, without the history it was found in
    #[verifier::opaque]
    pub open spec fn linked(a: Seq<FileNameProps>, max_phase: int, cumulative: bool) -> bool {
        &&& a.len() >= 1
        &&& needs(a[0], max_phase, cumulative) is None
        &&& forall|i: int| #![trigger a[i]] 0 < i < a.len() ==> needs(a[i], max_phase, cumulative) == Some(a[i - 1].key())
        &&& forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> phases(a[i], max_phase)
    }
    pub proof fn link(a: Seq<FileNameProps>, i: int, max_phase: int, cumulative: bool)
        requires linked(a, max_phase, cumulative),
        ensures
            a.len() >= 1,
            needs(a[0], max_phase, cumulative) is None,
            0 < i < a.len() ==> needs(a[i], max_phase, cumulative) == Some(a[i - 1].key()),
            0 <= i < a.len() ==> phases(a[i], max_phase),
    { reveal(linked); }
    /// a file's phase tells its place in the line, and its order starts with those of the files before
    pub proof fn shape(a: Seq<FileNameProps>, i: int, max_phase: int, cumulative: bool)
        requires linked(a, max_phase, cumulative), 0 <= i < a.len(), max_phase >= 0,
        ensures
            a[i].order@.len() == (if i <= max_phase { i + 1 } else { max_phase + 1 }),
            i > max_phase ==> cumulative,
        decreases i,
    {
        link(a, i, max_phase, cumulative);
        if i > 0 {
            shape(a, i - 1, max_phase, cumulative);
            link(a, i - 1, max_phase, cumulative);
        }
    }
    pub proof fn prefix(a: Seq<FileNameProps>, j: int, i: int, max_phase: int, cumulative: bool)
        requires linked(a, max_phase, cumulative), 0 <= j <= i < a.len(), j < max_phase,
        ensures a[j].order@ == a[i].order@.take(j + 1),
        decreases i - j,
    {
        shape(a, i, max_phase, cumulative);
        let o = a[i].order@;
        if i == j {
            assert(o =~= o.take(j + 1));
        } else {
            prefix(a, j, i - 1, max_phase, cumulative);
            shape(a, i - 1, max_phase, cumulative);
            link(a, i, max_phase, cumulative);
            let b = a[i - 1].order@;
            assert(b.take(j + 1) =~= o.take(j + 1));
        }
    }
    pub proof fn chain_phases(h: FileHistory, p: FileNameProps, s: Seq<FileNameProps>, i: int, max_phase: int, cumulative: bool)
        requires h.wf(), is_chain(h, p, s, max_phase, cumulative), phases(p, max_phase), 0 <= i < s.len(),
        ensures phases(s[i], max_phase),
        decreases i,
    {
        reveal(is_chain);
        if i > 0 {
            chain_phases(h, p, s, i - 1, max_phase, cumulative);
            assert(h.look(needs(s[i - 1], max_phase, cumulative)->0) == Some(s[i - 1 + 1]));
        }
    }
    pub proof fn lines(h: FileHistory, p: FileNameProps, a: Seq<FileNameProps>, max_phase: int, cumulative: bool)
        requires h.wf(), is_line(h, p, a, max_phase, cumulative), phases(p, max_phase),
        ensures linked(a, max_phase, cumulative), a.last() == p,
    {
        reveal(is_chain); reveal(linked);
        let s = a.reverse();
        let n = a.len() as int;
        assert(s[0] == a[n - 1]);
        assert(s[n - 1] == a[0]);
        assert forall|i: int| #![trigger a[i]] 0 < i < a.len() implies needs(a[i], max_phase, cumulative) == Some(a[i - 1].key()) by {
            let k = n - 1 - i;
            assert(s[k] == a[i] && s[k + 1] == a[i - 1]);
            assert(h.look(needs(s[k], max_phase, cumulative)->0) == Some(s[k + 1]));
        }
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies phases(a[i], max_phase) by {
            assert(s[n - 1 - i] == a[i]);
            chain_phases(h, p, s, n - 1 - i, max_phase, cumulative);
        }
    }
    /// What was taken for the diff is what loading finds, as long as those files are there:
    /// files saved later do not change it.
    pub proof fn loads_what_was_saved(h: FileHistory, d: Seq<FileNameProps>, q: FileNameProps, max_phase: int, cumulative: bool)
        requires
            d.len() > 0 ==> linked(d, max_phase, cumulative),
            d.len() == 0 ==> needs(q, max_phase, cumulative) is None,
            d.len() > 0 ==> needs(q, max_phase, cumulative) == Some(d.last().key()),
            forall|i: int| 0 <= i < d.len() ==> h.look((#[trigger] d[i]).key()) == Some(d[i]),
        ensures is_line(h, q, d.push(q), max_phase, cumulative),
    {
        reveal(is_chain);
        let a = d.push(q);
        let s = a.reverse();
        let n = a.len() as int;
        assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() - 1 implies needs(s[i], max_phase, cumulative) is Some && h.look(needs(s[i], max_phase, cumulative)->0) == Some(s[i + 1]) by {
            let k = n - 1 - i;
            assert(s[i] == a[k] && s[i + 1] == a[k - 1] && a[k - 1] == d[k - 1]);
            if k < n - 1 { link(d, k, max_phase, cumulative); assert(a[k] == d[k]); } else { assert(d.last() == d[k - 1]); }
        }
        assert(s.last() == a[0]);
        if d.len() > 0 { link(d, 0, max_phase, cumulative); assert(a[0] == d[0]); }
    }
//@ fn dochy_fs/src/imp/history/file_hist/ancestors.rs create_ancestors -> r
        requires
            history.wf(),
            phases(*props, max_phase as int),
            max_phase < usize::MAX,
        ensures
            r is Ok ==> is_line(*history, *props, values(r->Ok_0@), max_phase as int, cumulative) && linked(values(r->Ok_0@), max_phase as int, cumulative),
            r is Err ==> forall|s: Seq<FileNameProps>| !is_chain(*history, *props, s, max_phase as int, cumulative),
//@ sub r\.reverse\(\) => reverse_(&mut r)
//@ start
        proof {
            assert forall|v: Seq<&FileNameProps>| values(#[trigger] v.reverse()).reverse() == values(v) by { assert(values(v.reverse()).reverse() =~= values(v)); }
            assert forall|s: Seq<FileNameProps>| #[trigger] is_line(*history, *props, s, max_phase as int, cumulative) implies linked(s, max_phase as int, cumulative) by { lines(*history, *props, s, max_phase as int, cumulative); }
        }
//@ before Ok\(\w+\)
        proof { assert(is_line(*history, *props, values(r@), max_phase as int, cumulative)); }
//@ end

//@ fn dochy_fs/src/imp/history/file_hist/ancestors.rs create_dependencies -> r
        requires
            linked(values(ancestors@), max_phase as int, cumulative),
            max_phase < usize::MAX,
            next_phase <= max_phase,
            // the contract of calc_next_phase (unit phase)
            ancestors@.last().order@.len() <= max_phase ==> next_phase == ancestors@.last().order@.len(),
            // numbers of files are below 2^32
            forall|i: int| 0 <= i < ancestors@.last().order@.len() ==> ancestors@.last().order@[i] < u32::MAX,
        ensures
            r is Ok,
            r->Ok_0.1.control == ctl,
            r->Ok_0.1.tag == tag,
            r->Ok_0.1.order@.len() == next_phase + 1,
            r->Ok_0.0@.len() <= ancestors@.len(),
            r->Ok_0.0@ == ancestors@.take(r->Ok_0.0@.len() as int),
            // the diff is taken from exactly the file the new one says it needs
            r->Ok_0.0@.len() == 0 ==> needs(r->Ok_0.1, max_phase as int, cumulative) is None,
            r->Ok_0.0@.len() > 0 ==> needs(r->Ok_0.1, max_phase as int, cumulative) == Some(r->Ok_0.0@.last().key()),
            // within a run, the file before is found under its own number
            cumulative && next_phase == max_phase && r->Ok_0.1.order@.last() > 0 ==> r->Ok_0.1.prev_ctl == ancestors@.last().control,
            // it comes after the file it was derived from
            less(ancestors@.last().order@, r->Ok_0.1.order@),
//@ sub to_vec\(\) => to_vec_()
//@ start
        let ghost a = values(ancestors@);
        let ghost n = a.len() - 1;
        let ghost o = a[n].order@;
        let ghost mp = max_phase as int;
        let ghost np = next_phase as int;
        proof {
            link(a, n, mp, cumulative);
            shape(a, n, mp, cumulative);
            assert(a[n] == *ancestors@.last());
            if np <= n {
                shape(a, np, mp, cumulative);
                link(a, np, mp, cumulative);
                if np < mp { prefix(a, np, n, mp, cumulative); }
            }
            // the next number in the last place, in the place of the next phase, and one place deeper
            let l = o.len() - 1;
            let up = o.update(l, (o[l] + 1) as u32);
            assert(up.drop_last() =~= o.drop_last());
            assert(up.drop_last().push((up.last() - 1) as u32) =~= o);
            assert(o[l] < up[l] && o.take(l) =~= up.take(l));
            assert(o.push(0).drop_last() =~= o);
            assert(o.push(0).take(l + 1) =~= o);
            if np <= l {
                let t = o.take(np + 1);
                let tu = t.update(np, (o[np] + 1) as u32);
                assert(tu.drop_last() =~= t.drop_last());
                assert(o[np] < tu[np] && o.take(np) =~= tu.take(np));
            }
            assert(ancestors@.take(ancestors@.len() as int) =~= ancestors@);
        }
//@ end
}
