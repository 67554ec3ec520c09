use crate::ensure;
use crate::util::*;
use dochy_core::structs::LinkedMap;

type M = Vec<(u64, i64)>;

fn pos(m: &M, id: u64) -> Option<usize> { m.iter().position(|x| x.0 == id) }

fn check(l: &mut LinkedMap<i64>, m: &M, next: u64, used: u64) -> Result<(), String> {
    let fwd: M = l.iter().map(|(k, v)| (*k, *v)).take(m.len() + 3).collect();
    ensure!(&fwd == m, "forward order {:?}, expected {:?}", fwd, m);
    let mut it = l.iter_from_last();
    let mut back = vec![];
    while let Some((k, v)) = it.prev() { back.push((*k, *v)); if back.len() > m.len() + 2 { break; } }
    back.reverse();
    ensure!(&back == m, "backward order {:?}, expected {:?}", back, m);
    let fm: M = l.iter_mut().map(|(k, v)| (*k, *v)).take(m.len() + 3).collect();
    ensure!(&fm == m, "mutable order {:?}, expected {:?}", fm, m);
    ensure!(l.len() == m.len() && l.is_empty() == m.is_empty(), "len {} is_empty {}, expected {}", l.len(), l.is_empty(), m.len());
    ensure!(l.first_id() == m.first().map(|x| x.0) && l.last_id() == m.last().map(|x| x.0), "ends {:?} {:?}, expected {:?}", l.first_id(), l.last_id(), m);
    ensure!(l.first().copied() == m.first().map(|x| x.1) && l.last().copied() == m.last().map(|x| x.1), "end items differ from {:?}", m);
    ensure!(l.first_mut().copied() == m.first().map(|x| x.1) && l.last_mut().copied() == m.last().map(|x| x.1), "mutable end items differ from {:?}", m);
    ensure!(l.next_id() == next, "next id {}, expected {}", l.next_id(), next);
    for id in 0..used + 2 {
        let want = pos(m, id).map(|i| m[i].1);
        ensure!(l.get_item(id).copied() == want && l.get_item_mut(id).copied() == want && l.contains_key(id) == want.is_some(), "lookup of {} gives {:?}, expected {:?}", id, l.get_item(id), want);
        ensure!(l.iter_from_id(id).is_some() == want.is_some(), "cursor at {} of {:?}", id, m);
        if want.is_none() { ensure!(l.iter_mut_from_id(id).is_none(), "cursor at absent item {}", id); }
    }
    Ok(())
}

/// walks a cursor next/prev/current and compares with an index into the model
fn cursor(c: &mut Case, l: &mut LinkedMap<i64>, m: &M) -> Result<(), String> {
    let start = c.rng.below(3);
    let from = if m.is_empty() { None } else { Some(c.rng.below(m.len())) };
    let (mut it, mut at): (_, Option<usize>) = match (start, from) {
        (0, _) => (l.iter(), if m.is_empty() { None } else { Some(0) }),
        (1, _) => (l.iter_from_last(), if m.is_empty() { None } else { Some(m.len() - 1) }),
        (_, Some(i)) => (l.iter_from_id(m[i].0).ok_or("no cursor")?, Some(i)),
        (_, None) => return Ok(()),
    };
    for _ in 0..c.rng.below(m.len() * 2 + 4) {
        let want = at.map(|i| m[i]);
        ensure!(it.is_available() == at.is_some(), "cursor available {}, expected position {:?} of {:?}", it.is_available(), at, m);
        ensure!(it.is_first() == (at == Some(0)), "cursor is_first {}, at {:?} of {}", it.is_first(), at, m.len());
        ensure!(it.is_last() == (at.is_some() && at == m.len().checked_sub(1)), "cursor is_last {}, at {:?} of {}", it.is_last(), at, m.len());
        let op = c.rng.below(3);
        let got = match op { 0 => it.next(), 1 => it.prev(), _ => it.current() }.map(|(a, b)| (*a, *b));
        ensure!(got == want, "cursor step {} gives {:?}, expected {:?}", ["next", "prev", "current"][op], got, want);
        at = match (op, at) { (0, Some(i)) if i + 1 < m.len() => Some(i + 1), (1, Some(i)) if i > 0 => Some(i - 1), (2, a) => a, _ => None };
    }
    // mutable cursor forward from an item
    if let Some(i) = from {
        let mut it = l.iter_mut_from_id(m[i].0).ok_or("no mutable cursor")?;
        let mut k = i;
        ensure!(it.is_available() && it.is_first() == (i == 0) && it.is_last() == (i + 1 == m.len()), "mutable cursor flags at {} of {}", i, m.len());
        while let Some((id, v)) = it.next() { ensure!(k < m.len() && (*id, *v) == m[k], "mutable cursor from {}", i); k += 1; }
        ensure!(k == m.len(), "mutable cursor stopped at {} of {}", k, m.len());
        let mut it = l.iter_mut_from_last();
        ensure!(it.next().map(|(a, b)| (*a, *b)) == m.last().copied() && it.next().is_none(), "mutable cursor from last");
    }
    Ok(())
}

pub fn c08(c: &mut Case) -> Result<(), String> {
    if c.rng.chance(1, 3) { return crate::lists::typed(c); }
    let mut l: LinkedMap<i64> = LinkedMap::new();
    let mut m: M = vec![];
    let mut next = 0u64;
    let mut val = 0i64;
    if c.rng.chance(1, 3) {
        let n = c.n(6);
        let mut ids: Vec<u64> = (0..n as u64 + 2).collect();
        c.rng.shuffle(&mut ids);
        m = ids[..n].iter().map(|i| (*i, *i as i64 * 10)).collect();
        next = n as u64 + 2 + c.rng.below(3) as u64;
        l = guard("construct", || LinkedMap::construct(m.clone(), next))?;
        c.log(|| format!("construct({:?}, {})", m, next));
    }
    check(&mut l, &m, next, next)?;
    let steps = 1 + c.n(40);
    let mut changed = 0;
    let mut frozen: Vec<(LinkedMap<i64>, M, u64)> = vec![];
    for _ in 0..steps {
        let id = if m.is_empty() || c.rng.chance(1, 8) { c.rng.below(next as usize + 2) as u64 } else { m[c.rng.below(m.len())].0 };
        let id2 = if m.is_empty() || c.rng.chance(1, 8) { c.rng.below(next as usize + 2) as u64 } else { m[c.rng.below(m.len())].0 };
        val += 1;
        let op = c.rng.below(22);
        c.mix(op as u64 * 1000 + id * 30 + id2);
        let before = m.clone();
        c.log(|| format!("op {} id {} id2 {} on {:?}", op, id, id2, before));
        let p = pos(&m, id);
        let r: Result<(), String> = guard("list operation", || {
            match op {
                0 | 1 | 2 => { let k = l.insert(val); ensure!(k == next, "insert gave id {}, expected {}", k, next); m.push((k, val)); next += 1; }
                3 | 4 => { let k = l.insert_first(val); ensure!(k == next, "insert_first gave id {}, expected {}", k, next); m.insert(0, (k, val)); next += 1; }
                5 | 6 => { let k = l.insert_last(val); ensure!(k == next, "insert_last gave id {}, expected {}", k, next); m.push((k, val)); next += 1; }
                7 | 8 => { ensure!(l.remove(id) == p.is_some(), "remove({})", id); if let Some(i) = p { m.remove(i); } }
                9 => { ensure!(l.remove_first() != m.is_empty(), "remove_first"); if !m.is_empty() { m.remove(0); } }
                10 => { ensure!(l.remove_last() != m.is_empty(), "remove_last"); m.pop(); }
                11 | 12 => { ensure!(l.move_to_first(id) == p.is_some(), "move_to_first({})", id); if let Some(i) = p { let x = m.remove(i); m.insert(0, x); } }
                13 | 14 => { ensure!(l.move_to_last(id) == p.is_some(), "move_to_last({})", id); if let Some(i) = p { let x = m.remove(i); m.push(x); } }
                15 | 16 => {
                    let ok = p.is_some() && pos(&m, id2).is_some() && id != id2;
                    ensure!(l.move_to_next(id2, id) == ok, "move_to_next({}, {})", id2, id);
                    if ok { let x = m.remove(p.unwrap()); let j = pos(&m, id2).unwrap(); m.insert(j + 1, x); }
                }
                17 | 18 => {
                    let ok = p.is_some() && pos(&m, id2).is_some() && id != id2;
                    ensure!(l.move_to_prev(id2, id) == ok, "move_to_prev({}, {})", id2, id);
                    if ok { let x = m.remove(p.unwrap()); let j = pos(&m, id2).unwrap(); m.insert(j, x); }
                }
                19 => { if let Some(v) = l.get_item_mut(id) { *v = val; } if let Some(i) = p { m[i].1 = val; } }
                20 => {
                    let cl = l.clone();
                    ensure!(cl == l, "a copy differs from the original");
                    // continue with either, keep the other as a snapshot
                    let (a, b) = if c.rng.chance(1, 2) { (cl, std::mem::replace(&mut l, LinkedMap::new())) } else { (std::mem::replace(&mut l, LinkedMap::new()), cl) };
                    l = a;
                    frozen.push((b, m.clone(), next));
                }
                _ => {
                    // explicit ids, as the diff code uses them
                    let k = if c.rng.chance(1, 4) { id } else { next + c.rng.below(3) as u64 };
                    let have = pos(&m, k).is_some();
                    if c.rng.chance(1, 2) { ensure!(l.insert_first_with_id(k, val) != have, "insert_first_with_id({})", k); if !have { m.insert(0, (k, val)); } }
                    else { ensure!(l.insert_last_with_id(k, val) != have, "insert_last_with_id({})", k); if !have { m.push((k, val)); } }
                    if k >= next { next = k + 1; l.set_next_id(next); }
                }
            }
            Ok(())
        })?;
        r.map_err(|e| format!("{} on {:?}", e, before))?;
        if m != before { changed += 1; }
        check(&mut l, &m, next, next).map_err(|e| format!("after op {} ({}, {}) on {:?}: {}", op, id, id2, before, e))?;
        cursor(c, &mut l, &m).map_err(|e| format!("{} in {:?}", e, m))?;
    }
    for (mut l, m, next) in frozen { check(&mut l, &m, next, next).map_err(|e| format!("snapshot changed: {}", e))?; }
    let v: M = l.into_iter().collect();
    ensure!(v == m, "consuming the list gives {:?}, expected {:?}", v, m);
    if changed >= 3 { c.nontrivial(); }
    Ok(())
}
