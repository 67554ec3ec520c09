//! The list types programs hold (pointers, borrowed lists, their cursors) over a real document.
use crate::ensure;
use crate::util::*;
use dochy_core::intf::{mitem, root as rt, MItemPtr, MListConst, MListMut, MListPtr, RootObjectPtr};
use dochy_core::structs::RootObject;
use std::cell::RefCell;

type M = Vec<(u64, i64)>;
type L = MListPtr<MItemPtr>;
thread_local! { static BASE: RefCell<Option<RootObject>> = RefCell::new(None); }

fn base(c: &mut Case) -> Option<RootObject> {
    BASE.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            let dir = c.fresh_dir("lists");
            std::fs::write(dir.join("root.json5"), "{ list : [\"MList\", [{ n : -1, inner : [\"MList\", [{ n : -1 }]] }]] }").unwrap();
            *b = crate::model::load(&dir).ok();
        }
        b.clone()
    })
}
fn pos(m: &M, id: u64) -> Option<usize> { m.iter().position(|x| x.0 == id) }
fn num(p: MItemPtr) -> i64 { match mitem::get_int(p, "n") { Some(dochy_core::structs::Qv::Val(v)) => v, _ => i64::MIN } }
fn pair(x: Option<(u64, MItemPtr)>) -> Option<(u64, i64)> { x.map(|(i, p)| (i, num(p))) }

/// one walk with a cursor: `$go` steps (0 next, 1 prev, 2 current)
macro_rules! walk {
    ($c:expr, $what:expr, $it:ident, $m:expr, $at:expr, $go:expr) => {{
        let m: &M = $m;
        let mut at: Option<usize> = $at;
        for _ in 0..$c.rng.below(m.len() * 2 + 4) {
            ensure!($it.is_available() == at.is_some(), "{}: available {}, expected position {:?} of {:?}", $what, $it.is_available(), at, m);
            ensure!($it.is_first() == (at == Some(0)), "{}: is_first {}, at {:?} of {}", $what, $it.is_first(), at, m.len());
            ensure!($it.is_last() == (at.is_some() && at == m.len().checked_sub(1)), "{}: is_last {}, at {:?} of {}", $what, $it.is_last(), at, m.len());
            let op = $c.rng.below(3);
            let way = $c.rng.below(3);
            let got: Option<(u64, i64)> = $go(&mut $it, op, way);
            ensure!(got == at.map(|i| m[i]), "{}: step {} gives {:?}, expected {:?}", $what, ["next", "prev", "current"][op], got, at.map(|i| m[i]));
            at = match (op, at) { (0, Some(i)) if i + 1 < m.len() => Some(i + 1), (1, Some(i)) if i > 0 => Some(i - 1), (2, a) => a, _ => None };
        }
    }}
}

fn walks(c: &mut Case, mut l: L, m: &M) -> Result<(), String> {
    let from = if m.is_empty() { 0 } else { c.rng.below(m.len()) };
    let id = m.get(from).map_or(0, |x| x.0);
    let (first, last, mid) = (if m.is_empty() { None } else { Some(0) }, m.len().checked_sub(1), if m.is_empty() { None } else { Some(from) });
    let (it, at) = match c.rng.below(6) {
        0 => (Some(l.iter_const()), first), 1 => (Some(l.iter_mut()), first),
        2 => (Some(l.iter_from_last_const()), last), 3 => (Some(l.iter_from_last_mut()), last),
        4 => (l.iter_from_id_const(id), mid), _ => (l.iter_from_id_mut(id), mid),
    };
    if let Some(mut it) = it {
        walk!(c, "pointer cursor", it, m, at, |i: &mut dochy_core::intf::mlist_ptr::MListPtrIter<MItemPtr>, op, way| pair(match (op, way) {
            (0, 0) => i.next_const(), (0, 1) => i.next_mut(), (0, _) => i.next(), (1, 0) => i.prev_const(), (1, _) => i.prev_mut(), (_, 0) => i.current_const(), _ => i.current_mut(),
        }));
    } else { ensure!(m.is_empty(), "no cursor at item {} of {:?}", id, m); }
    let src = 0i32;
    let cl = MListConst::new(l, &src);
    let (it, at) = match c.rng.below(3) { 0 => (Some(cl.iter()), first), 1 => (Some(cl.iter_from_last()), last), _ => (cl.iter_from_id(id), mid) };
    if let Some(mut it) = it {
        walk!(c, "borrowed cursor", it, m, at, |i: &mut dochy_core::intf::mlist_iter_const::MListIterConst<MItemPtr>, op, way| match (op, way) {
            (0, 0) => Iterator::next(i), (0, _) => i.next(), (1, _) => i.prev(), _ => i.current(),
        }.map(|(k, p)| (k, num(*p))));
    } else { ensure!(m.is_empty(), "no borrowed cursor at item {} of {:?}", id, m); }
    let mut src = 0i32;
    let mut ml = MListMut::new(l, &mut src);
    let mut it = ml.iter();
    walk!(c, "mutable cursor", it, m, first, |i: &mut dochy_core::intf::mlist_iter_mut::MListIterMut<MItemPtr>, op, way| match (op, way) {
        (0, 0) => Iterator::next(i), (0, _) => i.next(), (1, _) => i.prev(), _ => i.current(),
    }.map(|(k, p)| (k, num(*p))));
    Ok(())
}

fn same(mut l: L, m: &M, next: u64) -> Result<(), String> {
    let fwd: M = { let mut it = l.iter_const(); let mut v = vec![]; while let Some((k, p)) = it.next_const() { v.push((k, num(p))); if v.len() > m.len() + 2 { break; } } v };
    ensure!(&fwd == m, "order {:?}, expected {:?}", fwd, m);
    let (f, b) = (m.first().map(|x| x.1), m.last().map(|x| x.1));
    let (fi, bi) = (m.first().map(|x| x.0), m.last().map(|x| x.0));
    ensure!(l.first_const().map(num) == f && l.first_mut().map(num) == f && l.first_id() == fi, "the first item is not {:?} of {:?}", fi, m);
    ensure!(l.last_const().map(num) == b && l.last_mut().map(num) == b && l.last_id() == bi, "the last item is not {:?} of {:?}", bi, m);
    ensure!(l.len() == m.len() && l.is_empty() == m.is_empty() && l.next_id() == next, "len {} is_empty {} next_id {}, expected {} and {}", l.len(), l.is_empty(), l.next_id(), m.len(), next);
    let src = 0i32;
    let cl = MListConst::new(l, &src);
    ensure!(cl.first().map(|i| num(*i)) == f && cl.first_id() == fi, "the first borrowed item is not {:?} of {:?}", fi, m);
    ensure!(cl.last().map(|i| num(*i)) == b && cl.last_id() == bi, "the last borrowed item is not {:?} of {:?}", bi, m);
    ensure!(cl.len() == m.len() && cl.is_empty() == m.is_empty() && cl.next_id() == next, "borrowed len {} is_empty {} next_id {}", cl.len(), cl.is_empty(), cl.next_id());
    let mut src = 0i32;
    let mut ml = MListMut::new(l, &mut src);
    ensure!(ml.first_mut().map(|i| num(*i)) == f && ml.first_id() == fi, "the first item to change is not {:?} of {:?}", fi, m);
    ensure!(ml.last_mut().map(|i| num(*i)) == b && ml.last_id() == bi, "the last item to change is not {:?} of {:?}", bi, m);
    ensure!(ml.len() == m.len() && ml.is_empty() == m.is_empty() && ml.next_id() == next, "mutable len {} is_empty {} next_id {}", ml.len(), ml.is_empty(), ml.next_id());
    for id in 0..next + 2 {
        let w = pos(m, id).map(|i| m[i].1);
        ensure!(l.get_item_const(id).map(num) == w && l.get_item_mut(id).map(num) == w && l.contains_key(id) == w.is_some(), "lookup of {} in {:?}", id, m);
        ensure!(cl.get_item(id).map(|i| num(*i)) == w && cl.contains_key(id) == w.is_some(), "borrowed lookup of {} in {:?}", id, m);
        ensure!(ml.get_mut(id).map(|i| num(*i)) == w && ml.contains_key(id) == w.is_some(), "mutable lookup of {} in {:?}", id, m);
        ensure!(l.iter_from_id_const(id).is_some() == w.is_some() && l.iter_from_id_mut(id).is_some() == w.is_some() && cl.iter_from_id(id).is_some() == w.is_some(), "cursor at {} of {:?}", id, m);
    }
    Ok(())
}

fn list(r: &mut RootObject, inner: bool) -> Option<L> {
    let mut l: L = rt::get_mlist_mut(RootObjectPtr::new(r), "list")?;
    if !inner { return Some(l); }
    let i = match l.first_mut() { Some(i) => i, None => l.insert() };
    mitem::get_mil_mut(i, "inner")
}

pub fn typed(c: &mut Case) -> Result<(), String> {
    let mut r = match base(c) { Some(r) => r, None => return Ok(()) };
    let inner = c.rng.chance(1, 3);
    let mut l = match list(&mut r, inner) { Some(l) => l, None => return Err("the list cannot be reached".to_string()) };
    let mut m: M = vec![];
    let mut next = 0u64;
    let mut val = 0i64;
    let mut changed = 0;
    for _ in 0..1 + c.n(30) {
        let any = |c: &mut Case| if m.is_empty() || c.rng.chance(1, 8) { c.rng.below(next as usize + 2) as u64 } else { m[c.rng.below(m.len())].0 };
        let (id, id2) = (any(c), any(c));
        val += 1;
        let op = c.rng.below(15);
        let through = c.rng.chance(1, 2);
        c.mix(op as u64 * 1000 + id * 30 + id2);
        let before = m.clone();
        c.log(|| format!("op {} id {} id2 {} through {} on {:?}", op, id, id2, if through { "MListMut" } else { "MListPtr" }, before));
        let p = pos(&m, id);
        let both = p.is_some() && pos(&m, id2).is_some() && id != id2;
        let res: Result<(), String> = guard("list operation", || {
            let mut src = 0i32;
            let mut b = MListMut::new(l, &mut src);
            macro_rules! ins { ($f:ident, $at:expr) => {{
                let i = if through { *b.$f() } else { l.$f() };
                ensure!(num(i) == -1, "an inserted item starts with {}", num(i));
                mitem::set_int(i, "n", dochy_core::structs::Qv::Val(val));
                m.insert($at, (next, val)); next += 1;
            }} }
            match op {
                0 | 1 => ins!(insert, m.len()),
                2 => ins!(insert_last, m.len()),
                3 | 4 => ins!(insert_first, 0),
                5 => { ensure!(if through { b.remove(id) } else { unsafe { l.remove(id) } } == p.is_some(), "remove({})", id); if let Some(i) = p { m.remove(i); } }
                6 => { ensure!(if through { b.remove_first() } else { unsafe { l.remove_first() } } != m.is_empty(), "remove_first"); if !m.is_empty() { m.remove(0); } }
                7 => { ensure!(if through { b.remove_last() } else { unsafe { l.remove_last() } } != m.is_empty(), "remove_last"); m.pop(); }
                8 => { ensure!(if through { b.move_to_first(id) } else { l.move_to_first(id) } == p.is_some(), "move_to_first({})", id); if let Some(i) = p { let x = m.remove(i); m.insert(0, x); } }
                9 => { ensure!(if through { b.move_to_last(id) } else { l.move_to_last(id) } == p.is_some(), "move_to_last({})", id); if let Some(i) = p { let x = m.remove(i); m.push(x); } }
                10 | 11 => { ensure!(if through { b.move_to_next(id2, id) } else { l.move_to_next(id2, id) } == both, "move_to_next({}, {})", id2, id); if both { let x = m.remove(p.unwrap()); let j = pos(&m, id2).unwrap(); m.insert(j + 1, x); } }
                12 | 13 => { ensure!(if through { b.move_to_prev(id2, id) } else { l.move_to_prev(id2, id) } == both, "move_to_prev({}, {})", id2, id); if both { let x = m.remove(p.unwrap()); let j = pos(&m, id2).unwrap(); m.insert(j, x); } }
                _ => {
                    // step back from an item, remove it, go on with the one after it
                    if let Some(i) = p { if i > 0 {
                        let mut it = l.iter_from_id_mut(id).ok_or("no cursor")?;
                        ensure!(pair(it.prev_mut()) == Some(m[i]), "prev from {}", id);
                        ensure!(unsafe { l.remove(id) }, "remove({}) beside a cursor", id);
                        m.remove(i);
                        ensure!(pair(it.next_mut()) == Some(m[i - 1]) && pair(it.current_mut()) == m.get(i).copied(), "the cursor beside removed item {} lost its way", id);
                    } }
                }
            }
            Ok(())
        })?;
        res.map_err(|e| format!("{} on {:?}", e, before))?;
        if m != before { changed += 1; }
        guard("reading the list", || same(l, &m, next))?.map_err(|e| format!("after op {} ({}, {}) on {:?}: {}", op, id, id2, before, e))?;
        walks(c, l, &m)?;
        if c.rng.chance(1, 10) {
            // go on with a copy of the document
            r = r.clone();
            l = match list(&mut r, inner) { Some(l) => l, None => return Err("the list of a copy cannot be reached".to_string()) };
            same(l, &m, next).map_err(|e| format!("in a copy: {}", e))?;
        }
    }
    if changed >= 3 { c.nontrivial(); }
    Ok(())
}
