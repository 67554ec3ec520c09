//! C07, C09, C10, C11, C12: root objects.
use crate::ensure;
use crate::model::*;
use crate::util::*;
use dochy_core::structs::*;
use dochy_diff::{apply_diff, get_diff};

fn mix_view(c: &mut Case, v: &View) { let t = format!("{:?}", v); c.mix_bytes(t.as_bytes()); }
fn diff(a: &RootObject, b: &RootObject) -> Result<Vec<u8>, String> { guard("get_diff", || get_diff(a, b))?.map_err(|e| format!("get_diff failed: {}", e)) }
fn apply(r: &mut RootObject, d: &[u8]) -> Result<(), String> {
    let mut rd = d;
    guard("apply_diff", || apply_diff(r, &mut rd))?.map_err(|e| format!("apply_diff failed: {}", e))?;
    ensure!(rd.is_empty(), "apply_diff left {} bytes of the diff unread", rd.len());
    Ok(())
}

pub fn c07(c: &mut Case) -> Result<(), String> {
    if c.index % 16 == 7 { return c07_long(c); }
    let s = gen_schema(c);
    let (dir, base) = match fresh(c, &s, "src") { Some(x) => x, None => return Ok(()) };
    let tables = tables_of(&s);
    let mut states = vec![base];
    let mut diffs: Vec<Vec<u8>> = vec![];
    let mut changed = 0;
    for step in 0..1 + c.n(5) {
        let old = states.last().unwrap().clone();
        let mut new = old.clone();
        let edits = *c.rng.pick(if s.mems.len() > 30 || s.mems.iter().any(|m| m.0.starts_with("wide")) { &[0, 1, 3, 20, 60, 120, 200, 300] } else { &[0, 1, 1, 2, 3, 5, 9, 20] });
        c.log(|| format!("-- step {} ({} edits)", step, edits));
        for _ in 0..edits { guard("edit", || edit(c, &mut new, &s, &tables))?; }
        let (ov, nv) = (view(&old, &s)?, view(&new, &s)?);
        if ov != nv { changed += 1; }
        let d = diff(&old, &new)?;
        ensure!(view(&old, &s)? == ov && view(&new, &s)? == nv, "computing a diff changed an object");
        let mut a = old.clone();
        apply(&mut a, &d)?;
        let av = view(&a, &s)?;
        ensure!(av == nv, "old + diff is not the new state: {}", diff_text(&nv, &av));
        ensure!(view(&old, &s)? == ov, "applying a diff to a copy changed the old state");
        // identical states
        let same = diff(&new, &new.clone())?;
        let mut b = new.clone();
        apply(&mut b, &same)?;
        ensure!(view(&b, &s)? == nv, "the diff between identical states changes something: {}", diff_text(&nv, &view(&b, &s)?));
        diffs.push(d);
        states.push(new);
    }
    // the same chain on objects that share nothing with the originals
    let mut f = load(&dir)?;
    for (i, d) in diffs.iter().enumerate() {
        apply(&mut f, d)?;
        let (want, got) = (view(&states[i + 1], &s)?, view(&f, &s)?);
        ensure!(want == got, "diffs applied to a freshly read source: {}", diff_text(&want, &got));
    }
    // from an earlier state to a later one, and from a rebuilt state
    let (i, j) = { let j = c.rng.below(states.len()); (c.rng.below(j + 1), j) };
    let d = diff(&states[i], &states[j])?;
    let mut a = load(&dir)?;
    for d in &diffs[..i] { apply(&mut a, d)?; }
    apply(&mut a, &d)?;
    let (want, got) = (view(&states[j], &s)?, view(&a, &s)?);
    ensure!(want == got, "diff from state {} to {}: {}", i, j, diff_text(&want, &got));
    let v = view(&f, &s)?;
    mix_view(c, &v);
    if changed > 0 { c.nontrivial(); }
    Ok(())
}

/// which members are changed, as the object reports it; with `read`, each one is read by every typed getter first
fn marks(r: &RootObject, s: &Schema, read: bool) -> Vec<(String, bool)> {
    fn list(l: &MListPtr<MItemPtr>, d: &LDef, at: &str, read: bool, out: &mut Vec<(String, bool)>) {
        let mut it = l.iter_const();
        while let Some((id, i)) = it.next_const() {
            for (n, m) in &d.mems {
                let at = format!("{}[{}].{}", at, id, n);
                if read && matches!(m, Mem::P(_)) { for t in TYS { item_access::get(i, n, t); item_access::get_def(i, n, t); item_access::get_immutable(i, n, t); } }
                if let Mem::Mil(d) = m { if let Some(Some(l)) = mitem::get_mil_const::<MItemPtr>(i, n) { list(&l, d, &at, read, out); } }
                out.push((at, mitem::is_unmodified(i, n)));
            }
        }
    }
    let p = ptr(r);
    let mut out = vec![];
    for (n, m) in &s.mems {
        match m {
            RMem::P(_) => if read { for t in TYS { root_access::get(p, n, t); root_access::get_def(p, n, t); root_access::get_immutable(p, n, t); } },
            RMem::M(d, _) => if let Some(Some(l)) = rt::get_mlist_const::<MItemPtr>(p, n) { list(&l, d, n, read, &mut out); },
            _ => continue,
        }
        out.push((n.clone(), rt::is_unmodified(p, n)));
    }
    out
}
fn reading(r: &RootObject, s: &Schema) -> Result<View, String> {
    let before = marks(r, s, false);
    let v = view(r, s)?;
    marks(r, s, true);
    for (x, y) in before.iter().zip(marks(r, s, false).iter()) { ensure!(x == y, "{} reads as {} before and as {} after it was read", x.0, if x.1 { "unmodified" } else { "modified" }, if y.1 { "unmodified" } else { "modified" }); }
    ensure!(view(r, s)? == v, "reading changed what is read");
    Ok(v)
}
pub fn c09(c: &mut Case) -> Result<(), String> {
    let s = gen_schema(c);
    let (_, base) = match fresh(c, &s, "src") { Some(x) => x, None => return Ok(()) };
    let tables = tables_of(&s);
    let v = reading(&base, &s)?;
    let mut objs: Vec<(RootObject, View)> = vec![(base, v)];
    let mut writes = 0;
    for _ in 0..2 + c.n(14) {
        let k = c.rng.below(objs.len());
        if objs.len() < 5 && c.rng.chance(1, 3) {
            let cl = guard("clone", || objs[k].0.clone())?;
            let cv = view(&cl, &s)?;
            ensure!(cv == objs[k].1, "a clone differs from its original: {}", diff_text(&objs[k].1, &cv));
            c.log(|| format!("clone {} -> {}", k, objs.len()));
            objs.push((cl, cv));
            continue;
        }
        c.log(|| format!("edit object {}", k));
        let n = 1 + c.rng.below(3);
        let before = objs[k].1.clone();
        for _ in 0..n { guard("edit", || edit(c, &mut objs[k].0, &s, &tables))?; }
        let nv = reading(&objs[k].0, &s)?;
        if nv != before && objs.len() > 1 { writes += 1; }
        objs[k].1 = nv;
        for (j, (o, want)) in objs.iter().enumerate() {
            let got = view(o, &s)?;
            ensure!(got == *want, "object {} changed when object {} was edited: {}", j, k, diff_text(want, &got));
        }
        if objs.len() > 2 && c.rng.chance(1, 6) { let j = c.rng.below(objs.len()); objs.remove(j); }
    }
    for (_, v) in &objs { mix_view(c, v); }
    if writes > 0 { c.nontrivial(); }
    Ok(())
}

/// long flat lists: removals and moves of many items at once
fn c07_long(c: &mut Case) -> Result<(), String> {
    let d = LDef { undefiable: false, mems: vec![("n".to_string(), Mem::P(PDef { vt: Vt::Normal, def: Val::Val(Raw::Int(0)) }))], refs: vec![], is_enum: false };
    let next = *c.rng.pick(&[0u64, 0, 0, 3, 40, 60, 63, 64, 250, 255, 256, 1000, 32760, 32768, 65535, 65536, 8388600, 8388608, 1 << 24, (1 << 31) - 3, 1 << 31, (1 << 32) - 2, 1 << 32, (1 << 47) - 1, 1 << 53]);
    let s = Schema { mems: vec![("list".to_string(), RMem::M(d, VList { items: vec![], next }))], old: vec![] };
    let (dir, base) = match fresh(c, &s, "src") { Some(x) => x, None => return Ok(()) };
    let n = *c.rng.pick(&[1usize, 5, 20, 60, 63, 64, 65, 130, 300, 700, 1500]);
    let mut a = base.clone();
    let list = |r: &mut RootObject| dochy_core::intf::root::get_mlist_mut::<dochy_core::intf::MItemPtr>(ptr_mut(r), "list").unwrap();
    for i in 0..n { let it = list(&mut a).insert(); item_access::set(it, "n", &Val::Val(Raw::Int(i as i64))); }
    let mut b = a.clone();
    let (rm, mv, md, ad) = (c.rng.below(101), c.rng.below(101), c.rng.below(101), c.rng.below(n + 1));
    let (rm, mv, md) = (rm * rm / 100, mv * mv / 200, md * md / 100);
    c.log(|| format!("{} items from id {}; remove {}%, move {}%, modify {}%, add {}", n, next, rm, mv, md, ad));
    for k in 0..n as u64 {
        let id = next + k;
        let mut l = list(&mut b);
        if c.rng.chance(rm, 100) { unsafe { l.remove(id); } continue; }
        if c.rng.chance(mv, 100) {
            let to = next + c.rng.below(n) as u64;
            match c.rng.below(4) { 0 => l.move_to_first(id), 1 => l.move_to_last(id), 2 => l.move_to_next(to, id), _ => l.move_to_prev(to, id) };
        }
        if c.rng.chance(md, 100) { if let Some(i) = l.get_item_mut(id) { let v = c.rng.i64(); item_access::set(i, "n", &Val::Val(Raw::Int(v))); } }
    }
    for _ in 0..ad { let mut l = list(&mut b); if c.rng.chance(1, 4) { l.insert_first(); } else { l.insert_last(); } }
    let d1 = diff(&base, &a)?;
    let d2 = diff(&a, &b)?;
    let mut f = load(&dir)?;
    apply(&mut f, &d1)?;
    let (want, got) = (view(&a, &s)?, view(&f, &s)?);
    ensure!(want == got, "adding items: {}", diff_text(&want, &got));
    apply(&mut f, &d2)?;
    let (want, got) = (view(&b, &s)?, view(&f, &s)?);
    ensure!(want == got, "changing a long list: {}", diff_text(&want, &got));
    c.mix_bytes(&d2);
    c.nontrivial();
    Ok(())
}

// ---------- C10 ----------
use dochy_core::intf::{mitem, root as rt, MItemPtr, MListPtr};
use dochy_core::SetSabunError;

/// any value of any type
fn any_val(c: &mut Case) -> Val {
    let ty = *c.rng.pick(&TYS);
    gen_val(c, ty, Vt::Both, false)
}
fn zero(ty: Ty, len: usize) -> Val {
    Val::Val(match ty { Ty::Bool => Raw::Bool(false), Ty::Int => Raw::Int(0), Ty::Float => Raw::Float(0), Ty::Str => Raw::Str(String::new()), Ty::Ints => Raw::Ints(vec![0; len]), Ty::Floats => Raw::Floats(vec![0; len]), Ty::Bin => Raw::Bin(vec![0; len]) })
}
macro_rules! member_ops {
    ($name:ident, $acc:ident, $f:ident, $p:ty) => {
        /// one operation on member `n`; `cur`/`set` is what the model knows about it
        fn $name(c: &mut Case, p: $p, n: &str, d: &PDef, cur: &mut Val, set: &mut bool) -> Result<(), String> {
            let ty = d.def.ty();
            match c.rng.below(8) {
                0 => { let k = c.n(5); ensure!($f::set_initial_value(p, n, k), "set_initial_value({}) refused", n); *cur = zero(ty, k); *set = true; }
                2 => {
                    let got = $f::get_param_mut(p, n).map(|x| Val::of(x));
                    ensure!(got.as_ref() == Some(&*cur), "{} taken to be changed is {:?}, expected {:?}", n, got, cur);
                }
                1 => {
                    if let Some(v) = $acc::poke(p, n, cur) { *cur = v; *set = true; }
                    else { ensure!(matches!(cur, Val::Null(_) | Val::Undef(_)) || matches!(ty, Ty::Bool | Ty::Int | Ty::Float), "{} cannot be changed in place", n); }
                }
                _ => {
                    let v = if c.rng.chance(1, 3) { any_val(c) } else { gen_val(c, ty, Vt::Both, false) };
                    let ok = v.ty() == ty && d.vt.allows(&v);
                    let r = if c.rng.chance(1, 2) { $acc::set(p, n, &v) } else { $f::set_sabun(p, n, v.param()) };
                    c.log(|| format!("set {} = {} -> {}", n, cut(format!("{:?}", v)), r));
                    ensure!(r == ok, "setting {} (declared {:?}{}) to {} {}", n, ty, d.vt.suffix(), cut(format!("{:?}", v)), if r { "succeeded" } else { "was refused" });
                    if ok { *cur = v; *set = true; }
                }
            }
            for t in TYS {
                let want = if t == ty { Some(cur.clone()) } else { None };
                let got = $acc::get(p, n, t);
                ensure!(got == want, "reading {} as {:?} gives {}, expected {}", n, t, cut(format!("{:?}", got)), cut(format!("{:?}", want)));
                let got = $acc::get_def(p, n, t);
                let want = if t == ty { Some(d.def.clone()) } else { None };
                ensure!(got == want, "the default of {} as {:?} is {}, expected {}", n, t, cut(format!("{:?}", got)), cut(format!("{:?}", want)));
                if matches!(t, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
                    let want = if t == ty { Some(cur.clone()) } else { None };
                    let got = $acc::get_immutable(p, n, t);
                    ensure!(got == want, "borrowing {} as {:?} gives {}, expected {}", n, t, cut(format!("{:?}", got)), cut(format!("{:?}", want)));
                }
            }
            let def = $f::get_param_def(p, n).map(Val::of);
            ensure!(def.as_ref() == Some(&d.def), "the default of {} changed to {:?}", n, def);
            if *set { ensure!(!$f::is_unmodified(p, n), "{} was set but reads as unmodified", n); }
            Ok(())
        }
    };
}
member_ops!(root_ops, root_access, rt, dochy_core::intf::RootObjectPtr);
member_ops!(item_ops, item_access, mitem, MItemPtr);

/// values that are null or undefined at most, as typed accessors hand them over
fn narrowed(c: &mut Case) -> Result<(), String> {
    let n = c.rng.i64();
    for v in [Qv::Val(n), Qv::Null, Qv::Undefined] {
        let a = NullOr::from_qv(v.clone());
        ensure!(a == match v { Qv::Val(n) => Some(NullOr::Val(n)), Qv::Null => Some(NullOr::Null), Qv::Undefined => None }, "{:?} as a value or null is {:?}", v, a);
        if let Some(a) = a { ensure!(a.as_ref().map(|x| *x).into_qv() == v && a.into_value() == v.clone().into_value(), "{:?} is handed over as {:?}", a, a.into_qv()); }
        let a = UndefOr::from_qv(v.clone());
        ensure!(a == match v { Qv::Val(n) => Some(UndefOr::Val(n)), Qv::Undefined => Some(UndefOr::Undefined), Qv::Null => None }, "{:?} as a value or undefined is {:?}", v, a);
        if let Some(a) = a { ensure!(a.as_ref().map(|x| *x).into_qv() == v && a.into_value() == v.clone().into_value(), "{:?} is handed over as {:?}", a, a.into_qv()); }
    }
    for o in [Some(n), None] {
        ensure!(NullOr::from_opt(o).into_value() == o && UndefOr::from_opt(o).into_value() == o, "{:?} becomes {:?}", o, NullOr::from_opt(o));
    }
    Ok(())
}
/// a text that is no id of these, but similar to one
fn other_id(c: &mut Case, ids: &[String]) -> String {
    let i = c.rng.pick(ids).clone();
    let x = match c.rng.below(9) {
        0 => format!(" {}", i),
        1 => format!("{} ", i),
        2 => i.to_uppercase(),
        3 => i.chars().skip(1).collect(),
        4 => { let n = i.chars().count(); i.chars().take(n.saturating_sub(1)).collect() }
        5 => format!("{}0", i),
        6 => String::new(),
        7 => i.to_lowercase(),
        _ => return "noSuchId".to_string(),
    };
    if ids.contains(&x) { "noSuchId".to_string() } else { x }
}
pub fn c10(c: &mut Case) -> Result<(), String> {
    TYPED.with(|x| x.set(true));
    narrowed(c)?;
    let s = gen_schema(c);
    let (_, mut r) = match fresh(c, &s, "src") { Some(x) => x, None => return Ok(()) };
    let tables = tables_of(&s);
    let mut v = view(&r, &s)?;
    let mut sets = 0;
    for _ in 0..3 + c.n(30) {
        let (n, m) = c.rng.pick(&s.mems).clone();
        match &m {
            RMem::P(d) => {
                let mut cur = if let V::P(x) = &v[&n] { x.clone() } else { unreachable!() };
                let before = cur.clone();
                let mut set = false;
                guard("member access", || root_ops(c, ptr_mut(&mut r), &n, d, &mut cur, &mut set))??;
                if cur != before { sets += 1; }
                v.insert(n.clone(), V::P(cur));
                // the reason of a refusal
                let x = any_val(c);
                let allowed = d.vt.allows(&x);
                match guard("set_sabun_param", || r.set_sabun_param(n.clone(), x.param()))? {
                    Ok(_) => { ensure!(x.ty() == d.def.ty() && allowed, "{} (declared {:?}{}) accepted {:?}", n, d.def.ty(), d.vt.suffix(), x); v.insert(n.clone(), V::P(x)); }
                    Err(SetSabunError::ParamTypeMismatch) => ensure!(x.ty() != d.def.ty(), "{} (declared {:?}{}) refused {:?} for its type", n, d.def.ty(), d.vt.suffix(), x),
                    Err(SetSabunError::QvTypeMismatch) => ensure!(!allowed, "{} (declared {:?}{}) refused {:?} as null/undefined", n, d.def.ty(), d.vt.suffix(), x),
                    Err(SetSabunError::ParamNotFound) => return Err(format!("declared member {} was not found", n)),
                }
            }
            RMem::M(d, _) => {
                let l = match v.get_mut(&n) { Some(V::L(Some(l))) => l, _ => continue };
                let mut lp: MListPtr<MItemPtr> = rt::get_mlist_mut(ptr_mut(&mut r), &n).ok_or("list is gone")?;
                if l.items.is_empty() || c.rng.chance(1, 6) {
                    guard("insert", || lp.insert())?;
                    l.items.push((l.next, default_item(d)));
                    l.next += 1;
                }
                let k = c.rng.below(l.items.len());
                let ip = lp.get_item_mut(l.items[k].0).ok_or("item is gone")?;
                let it = &mut l.items[k].1;
                let q = c.rng.below(d.mems.len() + 1);
                if q < d.mems.len() {
                    let (mn, md) = &d.mems[q];
                    if let Mem::P(pd) = md {
                        let mut cur = if let V::P(x) = &it.mems[mn] { x.clone() } else { unreachable!() };
                        let mut set = false;
                        guard("item member access", || item_ops(c, ip, mn, pd, &mut cur, &mut set))??;
                        it.mems.insert(mn.clone(), V::P(cur));
                        sets += 1;
                    } else {
                        let x = any_val(c);
                        ensure!(!mitem::set_sabun(ip, mn, x.param()), "an inner list was replaced by a value");
                    }
                } else if !d.refs.is_empty() {
                    let (t, vt, _) = c.rng.pick(&d.refs).clone();
                    let ids = &tables.iter().find(|x| x.0 == t).unwrap().1;
                    let qv = |x: &RefV| match x { RefV::Id(s) => Qv::Val(s.clone()), RefV::Null => Qv::Null, RefV::Undef => Qv::Undefined };
                    if d.is_enum {
                        let id = c.rng.pick(ids).clone();
                        ensure!(guard("set_enum", || mitem::set_enum(ip, &t, &id))?, "set_enum refused {} of {}", id, t);
                        *it = VItem { refs: default_item(d).refs, mems: it.mems.clone(), en: Some((t.clone(), id.clone())) };
                        it.refs.insert(t.clone(), RefV::Id(id));
                    } else {
                        let x = gen_ref(c, vt, ids);
                        ensure!(guard("set_ref", || mitem::set_ref(ip, &t, qv(&x)))?, "set_ref refused {:?} for {}{}", x, t, vt.suffix());
                        it.refs.insert(t.clone(), x);
                    }
                    // references the declaration does not allow; the view below shows that nothing changed
                    let undeclared = match tables.iter().find(|x| !d.refs.iter().any(|r| r.0 == x.0)) { Some(x) if c.rng.chance(1, 2) => x.0.clone(), _ => "noSuchTable".to_string() };
                    let bad: (String, RefV) = match c.rng.below(4) {
                        0 if !vt.nullable() => (t.clone(), RefV::Null),
                        1 if !vt.undefiable() => (t.clone(), RefV::Undef),
                        2 => (t.clone(), RefV::Id(other_id(c, ids))),
                        _ => { let id = tables.iter().find(|x| x.0 == undeclared).and_then(|x| x.1.first().cloned()).unwrap_or("noSuchId".to_string()); (undeclared, RefV::Id(id)) }
                    };
                    ensure!(!guard("set_ref", || mitem::set_ref(ip, &bad.0, qv(&bad.1)))?, "set_ref accepted {:?} for {}, declared {}{}", bad.1, bad.0, t, vt.suffix());
                    if let RefV::Id(id) = &bad.1 { ensure!(!guard("set_enum", || mitem::set_enum(ip, &bad.0, id))?, "set_enum accepted {} for {}", id, bad.0); }
                    let id = c.rng.pick(ids).clone();
                    if d.is_enum { ensure!(!guard("set_ref", || mitem::set_ref(ip, &t, Qv::Val(id)))?, "set_ref changed one reference of an enum"); }
                    else { ensure!(!guard("set_enum", || mitem::set_enum(ip, &t, &id))?, "set_enum changed an item that is not an enum"); }
                }
                // names that are not members
                let x = any_val(c);
                ensure!(!mitem::set_sabun(ip, "noSuchMember", x.param()), "an undeclared item member was accepted");
                ensure!(mitem::get_param(ip, "noSuchMember").is_none(), "an undeclared item member can be read");
            }
            _ => {
                let x = any_val(c);
                ensure!(!rt::set_sabun(ptr_mut(&mut r), &n, x.param()), "{} was replaced by a value", n);
            }
        }
        let x = any_val(c);
        match r.set_sabun_param("noSuchMember".to_string(), x.param()) { Err(SetSabunError::ParamNotFound) => {} _ => return Err("an undeclared member was not reported as missing".to_string()) }
        ensure!(rt::get_param(ptr(&r), "noSuchMember").is_none(), "an undeclared member can be read");
        let got = view(&r, &s)?;
        ensure!(got == v, "after the operation on {}: {}", n, diff_text(&v, &got));
    }
    mix_view(c, &v);
    if sets > 0 { c.nontrivial(); }
    Ok(())
}

// ---------- C11 ----------
fn mutate_pdef(c: &mut Case, p: &PDef) -> PDef {
    let vt = match p.vt { Vt::Normal if c.rng.chance(1, 3) => *c.rng.pick(&VTS), Vt::Nullable if c.rng.chance(1, 4) => Vt::Both, Vt::Undefiable if c.rng.chance(1, 4) => Vt::Both, x => x };
    PDef { vt, def: if c.rng.chance(1, 3) { gen_val(c, p.def.ty(), vt, true) } else { p.def.clone() } }
}
fn new_pdef(c: &mut Case) -> PDef { let (ty, vt) = (*c.rng.pick(&TYS), *c.rng.pick(&VTS)); PDef { vt, def: gen_val(c, ty, vt, true) } }
fn mutate_ldef(c: &mut Case, d: &LDef, tables: &Tables, once: bool) -> LDef {
    let mut mems = vec![];
    for (n, m) in &d.mems {
        if c.rng.chance(1, 6) { continue; }
        mems.push((n.clone(), match m {
            Mem::P(p) => Mem::P(mutate_pdef(c, p)),
            Mem::Mil(l) => { let mut l = mutate_ldef(c, l, tables, once); if c.rng.chance(1, 5) { l.undefiable = true; } Mem::Mil(l) }
            Mem::Cil(l) => Mem::Cil(l.clone()),
        }));
    }
    for i in 0..c.rng.below(3) {
        let m = if c.rng.chance(1, 3) { let p = new_pdef(c); Mem::Mil(LDef { undefiable: c.rng.chance(1, 2), mems: vec![("q".to_string(), Mem::P(p))], refs: vec![], is_enum: false }) } else { Mem::P(new_pdef(c)) };
        let n = format!("new{}v{}", i, c.rng.below(100_000)); // never a name of an earlier version
        if !mems.iter().any(|x| x.0 == n) { mems.push((n, m)); }
    }
    c.rng.shuffle(&mut mems);
    let mut refs = vec![];
    if d.is_enum { refs = d.refs.clone(); } else {
        for (t, vt, v) in &d.refs { if c.rng.chance(1, 5) { continue; } refs.push((t.clone(), *vt, v.clone())); }
        for (t, ids) in tables {
            if ids.is_empty() || d.refs.iter().any(|x| x.0 == *t) { continue; }
            // a reference that an earlier version had must take every value it could have then
            if c.rng.chance(1, 2) { let vt = if once { *c.rng.pick(&VTS) } else { Vt::Both }; refs.push((t.clone(), vt, RefV::Id(c.rng.pick(ids).clone()))); }
        }
    }
    LDef { undefiable: d.undefiable, mems, refs, is_enum: d.is_enum }
}
/// a new version of the definition: members dropped, added, reordered, with other defaults
pub fn mutate_schema(c: &mut Case, s: &Schema) -> Schema { mutate(c, s, false) }
fn mutate(c: &mut Case, s: &Schema, once: bool) -> Schema {
    let tables = tables_of(s);
    let mut mems = vec![];
    for (n, m) in &s.mems {
        match m {
            RMem::T(..) | RMem::C(..) => mems.push((n.clone(), m.clone())),
            _ if c.rng.chance(1, 6) => {}
            RMem::P(p) => { let p = mutate_pdef(c, p); mems.push((n.clone(), RMem::P(p))); }
            RMem::M(d, _) => {
                let mut d = mutate_ldef(c, d, &tables, once);
                if c.rng.chance(1, 6) { d.undefiable = true; }
                mems.push((n.clone(), RMem::M(d, VList { items: vec![], next: c.rng.below(5) as u64 })));
            }
        }
    }
    for i in 0..c.rng.below(3) { let p = new_pdef(c); let n = format!("add{}v{}", i, c.rng.below(100_000)); if !mems.iter().any(|x| x.0 == n) { mems.push((n, RMem::P(p))); } }
    if c.rng.chance(1, 3) {
        let p = new_pdef(c);
        let d = LDef { undefiable: c.rng.chance(1, 2), mems: vec![("q".to_string(), Mem::P(p))], refs: vec![], is_enum: false };
        let i = default_item(&d);
        let k = c.rng.below(3) as u64;
        mems.push((format!("addList{}", c.rng.below(100_000)), RMem::M(d, VList { items: (0..k).map(|x| (x, i.clone())).collect(), next: k })));
    }
    c.rng.shuffle(&mut mems);
    Schema { mems, old: vec![] }
}
fn undef_item_member(m: &Mem) -> V {
    match m { Mem::P(p) => V::P(if p.vt.undefiable() { Val::Undef(p.def.ty()) } else { p.def.clone() }), Mem::Mil(l) => V::L(if l.undefiable { None } else { Some(VList { items: vec![], next: 0 }) }), Mem::Cil(_) => V::C(vec![]) }
}
fn converted_item(p: MItemPtr, od: &LDef, nd: &LDef) -> Result<VItem, String> {
    let real = unsafe { &*p.item() };
    let old = view_mitem(p, od)?;
    let mut mems = std::collections::BTreeMap::new();
    for (n, m) in &nd.mems {
        let kept = real.values().contains_key(n);
        let v = match (m, od.mems.iter().find(|x| x.0 == *n).map(|x| &x.1)) {
            (Mem::P(_), Some(Mem::P(_))) if kept => old.mems[n].clone(),
            (Mem::Mil(l), Some(Mem::Mil(ol))) if kept => V::L(match mitem::get_mil_const::<MItemPtr>(p, n).unwrap() { None => None, Some(lp) => Some(converted_list(&lp, ol, l)?) }),
            _ => undef_item_member(m),
        };
        mems.insert(n.clone(), v);
    }
    let refs = nd.refs.iter().map(|(t, vt, d)| {
        let was = od.refs.iter().any(|x| x.0 == *t) && real.refs().contains_key(t);
        (t.clone(), if was { old.refs[t].clone() } else if vt.undefiable() { RefV::Undef } else { d.clone() })
    }).collect();
    Ok(VItem { mems, refs, en: old.en })
}
fn converted_list(l: &MListPtr<MItemPtr>, od: &LDef, nd: &LDef) -> Result<VList, String> {
    let mut items = vec![];
    let mut it = l.iter_const();
    while let Some((id, p)) = it.next_const() { items.push((id, converted_item(p, od, nd)?)); }
    Ok(VList { items, next: l.next_id() })
}
/// what the converted object must show, from the definition texts and the old object
pub fn converted(old: &RootObject, os: &Schema, ns: &Schema) -> Result<View, String> {
    let ov = view(old, os)?;
    let init = initial_view(ns);
    let mut r = View::new();
    for (n, m) in &ns.mems {
        let was = os.mems.iter().find(|x| x.0 == *n).map(|x| &x.1);
        let v = match (m, was) {
            (RMem::P(_), Some(RMem::P(_))) => if rt::is_unmodified(ptr(old), n) { init[n].clone() } else { ov[n].clone() },
            (RMem::P(p), _) => if p.vt.undefiable() { V::P(Val::Undef(p.def.ty())) } else { init[n].clone() },
            (RMem::M(d, _), Some(RMem::M(od, _))) => match rt::get_mlist_const::<MItemPtr>(ptr(old), n) { Some(Some(l)) => V::L(Some(converted_list(&l, od, d)?)), _ => V::L(None) },
            (RMem::M(d, _), _) => if d.undefiable { V::L(None) } else { init[n].clone() },
            _ => init[n].clone(),
        };
        r.insert(n.clone(), v);
    }
    Ok(r)
}
pub fn c11(c: &mut Case) -> Result<(), String> {
    let s = gen_schema(c);
    let (dir, mut old) = match fresh(c, &s, "src") { Some(x) => x, None => return Ok(()) };
    let tables = tables_of(&s);
    for _ in 0..c.n(30) { guard("edit", || edit(c, &mut old, &s, &tables))?; }
    let same = c.rng.chance(1, 5);
    let ns = if same { s.clone() } else { mutate(c, &s, true) };
    let new = if same { load(&dir)? } else { match fresh(c, &ns, "new") { Some(x) => x.1, None => return Ok(()) } };
    let want = converted(&old, &s, &ns)?;
    let validate = c.rng.chance(1, 3);
    let keep = old.clone();
    let kept = view(&keep, &s)?;
    let r = match guard("conversion", || dochy_core::adjust_versions(new.clone(), old, validate))? {
        Ok(r) => r,
        // a reference that the items leave empty is refused by the validation
        Err(_) if validate => guard("conversion", || dochy_core::adjust_versions(new, keep.clone(), false))?.map_err(|e| format!("the conversion failed: {}", e))?,
        Err(e) => return Err(format!("the conversion failed: {}", e)),
    };
    let got = view(&r, &ns)?;
    ensure!(got == want, "after the conversion: {}", diff_text(&want, &got));
    ensure!(view(&keep, &s)? == kept, "the conversion changed another copy of the old object");
    mix_view(c, &got);
    if !same { c.nontrivial(); }
    Ok(())
}

// ---------- C12 ----------
fn vt_of(v: &VarType) -> Vt { match v { VarType::Normal => Vt::Normal, VarType::Nullable => Vt::Nullable, VarType::Undefiable => Vt::Undefiable, VarType::UndefNullable => Vt::Both } }
fn same_ldef(d: &LDef, r: &ListDefObj, at: &str) -> Result<(), String> {
    ensure!(r.default().len() == d.mems.len(), "{} has {} members, expected {}", at, r.default().len(), d.mems.len());
    for (n, m) in &d.mems {
        match (m, r.default().get(n)) {
            (Mem::P(p), Some(ListDefValue::Param(q, vt))) => ensure!(Val::of(q) == p.def && vt_of(vt) == p.vt, "{}.{} is declared {:?} {:?}, expected {:?}", at, n, q, vt, p),
            (Mem::Mil(l), Some(ListDefValue::MilDef(m))) => { ensure!(m.undefiable() == l.undefiable, "{}.{} undefiable {}", at, n, m.undefiable()); same_ldef(l, m.default(), &format!("{}.{}", at, n))?; }
            (Mem::Cil(l), Some(ListDefValue::CilDef(m))) => same_ldef(l, m, &format!("{}.{}", at, n))?,
            (_, x) => return Err(format!("{}.{} is declared {:?}", at, n, x)),
        }
    }
    ensure!(r.refs().refs().len() == d.refs.len(), "{} has {} references, expected {}", at, r.refs().refs().len(), d.refs.len());
    for (t, _, v) in &d.refs {
        let q = r.refs().refs().get(t).ok_or_else(|| format!("{} has no reference to {}", at, t))?;
        let got = match q.value() { Qv::Val(s) => RefV::Id(s.clone()), Qv::Null => RefV::Null, Qv::Undefined => RefV::Undef };
        ensure!(got == *v, "{} refers to {} as {:?}, expected {:?}", at, t, got, v);
    }
    Ok(())
}
pub fn c12(c: &mut Case) -> Result<(), String> {
    TYPED.with(|x| x.set(true));
    if c.index % 3 == 2 { return c12_refused(c); }
    let s = gen_schema(c);
    let dir = c.fresh_dir("src");
    let st = Style { wild: c.rng.chance(3, 4) };
    write(c, &s, &dir, &st);
    let r = load(&dir)?;
    let (want, got) = (initial_view(&s), view(&r, &s)?);
    ensure!(want == got, "the definition was misread: {}", diff_text(&want, &got));
    ensure!(r.default().len() == s.mems.len(), "{} members, expected {}", r.default().len(), s.mems.len());
    for (n, m) in &s.mems {
        match (m, r.default().get(n)) {
            (RMem::P(p), Some(RootValue::Param(_, vt))) => ensure!(vt_of(vt) == p.vt, "{} is declared {:?}, expected {:?}", n, vt, p.vt),
            (RMem::M(d, _), Some(RootValue::MList(q))) => { ensure!(q.undefiable() == d.undefiable, "{} undefiable {}", n, q.undefiable()); same_ldef(d, q.default(), n)?; }
            (RMem::T(..), Some(RootValue::Table(_))) | (RMem::C(..), Some(RootValue::CList(_))) => {}
            (_, x) => return Err(format!("{} is declared {:?}", n, x)),
        }
    }
    mix_view(c, &got);
    c.nontrivial();
    Ok(())
}
fn c12_refused(c: &mut Case) -> Result<(), String> {
    let big = format!("{}", 9223372036854775808u128 + c.rng.below(1000) as u128);
    let int = format!("{}", c.rng.i64());
    let s = |x: &str| x.to_string();
    // (what, member text of root.json5)
    let bad: Vec<(&str, String)> = vec![
        ("an unclosed object", s("a: 1, b: ['MList', [{ x: 1 }], { x: 2 ]")),
        ("an unclosed array", s("a: ['IntArray', 1, 2")),
        ("an unclosed string", s("a: \"abc")),
        ("an unclosed comment", s("a: 1 /* b: 2")),
        ("a missing comma", s("a: 1 b: 2")),
        ("a missing colon", s("a 1")),
        ("two commas", s("a: 1,, b: 2")),
        ("a missing value", s("a: , b: 1")),
        ("a line break inside a string", s("a: \"x\ny\"")),
        ("a closing bracket too many", s("a: [1, 2]]")),
        ("a leading zero", format!("a: 0{}", 1 + c.rng.below(8))),
        ("an integer too large", format!("a: {}", big)),
        ("an integer too small", format!("a: -{}", 9223372036854775809u128 + c.rng.below(1000) as u128)),
        ("an integer array element too large", format!("a: ['IntArray', {}]", big)),
        ("a float too large", s("a: 1e400")),
        ("a word", s("a: hello")),
        ("a repeated name", format!("a: {}, b: 2, a: 3", int)),
        ("a repeated name of another kind", s("a: 1, b: 2, 'a': 'x'")),
        ("a repeated name with another marker", s("a: 1, 'b!': 2, 'a?': 3")),
        ("a repeated name with another marker in a list item", s("l: ['MList', [{ 'x?': 1 }], { x: 2, 'x?': 3 }]")),
        ("a repeated name with another marker in a default", s("l: ['MList', [{ x: 1, y: 2, 'x!': 3 }]]")),
        ("a repeated name in a list item", s("l: ['MList', [{ x: 1 }], { x: 2, x: 3 }]")),
        ("a repeated name in a default", s("l: ['MList', [{ x: 1, x: 3 }]]")),
        ("a repeated reference", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ Ref: { t: 'i', t: 'i' } }]]")),
        ("an item value of another type", s("l: ['MList', [{ x: 1 }], { x: 2.5 }]")),
        ("an item value of another type (text)", s("l: ['MList', [{ x: 1 }], { x: '2' }]")),
        ("an item value of another type (array)", s("l: ['MList', [{ x: ['IntArray'] }], { x: ['FloatArray', 1] }]")),
        ("an item value of another type in a const list", s("l: ['CList', [{ x: true }], { x: 1 }]")),
        ("an item value of another type in a table", s("l: ['Table', [{ x: true }], { ID: 'a', x: 1 }]")),
        ("an inner item value of another type", s("l: ['MList', [{ i: ['MilDef', [{ x: 1 }]] }], { i: ['Mil', { x: 'a' }] }]")),
        ("an item value for an inner list", s("l: ['MList', [{ i: ['MilDef', [{ x: 1 }]] }], { i: 3 }]")),
        ("null where it is not allowed", s("l: ['MList', [{ x: 1 }], { x: ['Int', null] }]")),
        ("undefined where it is not allowed", s("l: ['MList', [{ 'x?': 1 }], { x: ['Int', undefined] }]")),
        ("null where only undefined is allowed", s("l: ['MList', [{ 'x!': 1 }], { x: ['Int', null] }]")),
        ("a null default where null is not allowed", s("a: ['Int', null]")),
        ("a null default where only undefined is allowed", s("b: 1, 'a!': ['IntArray', null]")),
        ("an undefined default where only null is allowed", s("'a?': ['Str', undefined]")),
        ("a null default of a list member that does not allow it", s("l: ['CList', [{ x: ['Float', null] }]]")),
        ("an undefined default of an inner member that does not allow it", s("l: ['MList', [{ m: ['MilDef', [{ 'x?': ['Bool', undefined] }]] }]]")),
        ("a repeated row ID", s("t: ['Table', [{ x: 1 }], { ID: 'i', x: 2 }, { ID: 'j' }, { ID: 'i', x: 3 }]")),
        ("a repeated item ID", s("l: ['MList', [{ x: 1 }], { ID: 1.0, x: 2 }, { x: 3 }]")),
        ("a repeated item ID of an inner list", s("l: ['MList', [{ m: ['MilDef', [{ x: 1 }]] }], { m: ['Mil', { ID: 4.0 }, { ID: 4.0 }] }]")),
        ("an item ID that is not whole", s("l: ['MList', [{ x: 1 }], { ID: 1.5, x: 2 }]")),
        ("a negative item ID", s("l: ['MList', [{ x: 1 }], { ID: -1.0, x: 2 }]")),
        ("an item ID too large", s("l: ['MList', [{ x: 1 }], { ID: 1e30, x: 2 }]")),
        ("a negative next ID", s("l: ['MList', [{ x: 1 }], ['NextID', -1], { x: 2 }]")),
        ("a next ID in use", s("l: ['MList', [{ x: 1 }], ['NextID', 1], { x: 2 }, { x: 3 }]")),
        ("two next IDs", s("l: ['MList', [{ x: 1 }], ['NextID', 5], ['NextID', 6]]")),
        ("a value of an old member in an item", s("l: ['MList', [{ x: 1, Old: ['x'] }], { x: 2 }]")),
        ("an old row that does not exist", s("t: ['Table', [{ x: 1 }], ['Old', 'k'], { ID: 'i' }]")),
        ("an old member of a list that does not exist", s("l: ['MList', [{ x: 1, Old: ['y'] }]]")),
        ("an old reference that does not exist", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1, Ref: { t: 'i', Old: ['x'] } }]]")),
        ("an old reference in an item", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1, Ref: { t: 'i', Old: ['t'] } }], { Ref: { t: 'i' } }]")),
        ("a digit after a null escape", s("a: '\\01'")),
        ("an octal escape", s("a: '\\1'")),
        ("an undeclared item member", s("l: ['MList', [{ x: 1 }], { y: 2 }]")),
        ("an undeclared member of a table row", s("l: ['Table', [{ x: 1 }], { ID: 'a', y: 2 }]")),
        ("a reference to a missing row", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1, Ref: { t: 'i' } }], { Ref: { t: 'j' } }]")),
        ("a reference to a missing table", s("l: ['MList', [{ x: 1, Ref: { t: 'i' } }], { Ref: { t: 'i' } }]")),
        ("a reference to something that is no table", s("t: ['CList', [{ x: 1 }], { }], l: ['MList', [{ x: 1, Ref: { t: 'i' } }], { Ref: { t: 'i' } }]")),
        ("an undeclared reference", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1 }], { Ref: { t: 'i' } }]")),
        ("a null reference where it is not allowed", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1, Ref: { t: 'i' } }], { Ref: { t: null } }]")),
        ("an empty reference left empty", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1, Ref: { t: '' } }], { x: 2 }]")),
        ("an inner reference to a missing row", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ m: ['MilDef', [{ x: 1, Ref: { t: 'i' } }]] }], { m: ['Mil', { Ref: { t: 'k' } }] }]")),
        ("a reference to an old row", s("t: ['Table', [{ x: 1 }], ['Old', 'i'], { ID: 'i' }, { ID: 'j' }], l: ['MList', [{ x: 1, Ref: { t: 'j' } }], { Ref: { t: 'i' } }]")),
        ("a table row without ID", s("t: ['Table', [{ x: 1 }], { x: 2 }]")),
        ("a number where a reference is expected", s("t: ['Table', [{ x: 1 }], { ID: 'i' }], l: ['MList', [{ x: 1, Ref: { t: 1 } }]]")),
        ("a name starting with a digit", s("'9a': 1")),
        ("a name with a dash", s("'a-b': 1")),
        ("a name starting with a capital", s("Abc: 1")),
        ("an empty name", s("'': 1")),
        ("a name with a doubled marker", s("'a??': 1")),
        ("a bare null", s("a: null")),
        ("a bare undefined", s("'a!': undefined")),
        ("an object as a value", s("a: { b: 1 }")),
        ("an empty array", s("a: []")),
        ("an unknown tag", s("a: ['Foo', 1]")),
        ("a float in an integer array", s("a: ['IntArray', 1, 2.5]")),
        ("a text in a float array", s("a: ['FloatArray', 'x']")),
        ("a bool in an integer array", s("a: [1, true]")),
        ("a byte above 255", format!("a: ['Binary', {}]", 256 + c.rng.below(1000))),
        ("a negative byte", format!("a: ['Binary', {}]", -1 - c.rng.below(300) as i64)),
        ("null among array elements", s("a: ['IntArray', 1, null]")),
        ("a list without default that has items", s("l: ['MList', { x: 1 }]")),
        ("a list item that is no object", s("l: ['MList', [{ x: 1 }], { x: 2 }, 3]")),
        ("a nullable list", s("'l?': ['MList', [{ x: 1 }]]")),
        ("an undefiable const list", s("'l!': ['CList', [{ x: 1 }]]")),
        ("an inner list at the root", s("l: ['Mil', { x: 1 }]")),
        ("ID at the root", s("ID: 'a', b: 1")),
        ("a reference at the root", s("Ref: { t: 'a' }, b: 1")),
        ("an old member that does not exist", s("a: 1, Old: ['b']")),
        ("two defaults", s("l: ['MList', [{ x: 1 }], [{ x: 2 }]]")),
        ("a truncated escape", s("a: '\\u12'")),
        ("a wrong hex escape", s("a: '\\xZZ'")),
        ("half a surrogate pair", s("a: '\\uD800'")),
    ];
    let k = (c.index / 3) as usize;
    let (what, text) = if k < bad.len() { bad[k].clone() } else { c.rng.pick(&bad).clone() };
    let dir = c.fresh_dir("src");
    let pre = *c.rng.pick(&["", "zz: 5, ", "// note\n zz: 'q',", "zz: ['MList', [{ r: 1 }], { r: 3 }], "]);
    let post = if text.contains("/*") || text.contains("\"abc") || what == "an unclosed array" { "" } else { *c.rng.pick(&["", ", yy: 5", ",", " // x\n"]) };
    let t = format!("{{ {}{}{} }}", pre, text, post);
    c.log(|| format!("{}: {}", what, t));
    std::fs::write(dir.join("root.json5"), &t).unwrap();
    if let Ok(r) = guard("loading", || dochy_core::json_dir_to_root(&dir, true))? { return Err(format!("{} was accepted: {} as {}", what, t, cut(format!("{:?}", r.default())))); }
    if c.rng.chance(1, 8) {
        let d = c.fresh_dir("dup");
        let (m, v) = (*c.rng.pick(&["", "?", "!", "!?", "?!"]), *c.rng.pick(&["1", "'x'", "['MList', [{ x: 1 }]]"]));
        c.log(|| format!("root.json5 has a and b, b{}.json5 has {}", m, v));
        std::fs::write(d.join("root.json5"), "{ a: 1, b: 2 }").unwrap();
        std::fs::write(d.join(format!("b{}.json5", m)), v).unwrap();
        if guard("loading", || dochy_core::json_dir_to_root(&d, true))?.is_ok() { return Err(format!("a member defined in root.json5 and in b{}.json5 was accepted", m)); }
    }
    // cut a valid text short
    let sc = gen_schema(c);
    let d2 = c.fresh_dir("cut");
    write(c, &sc, &d2, &Style { wild: false });
    let full = std::fs::read_to_string(d2.join("root.json5")).unwrap();
    let mut at = c.rng.below(full.len());
    while !full.is_char_boundary(at) { at -= 1; }
    std::fs::write(d2.join("root.json5"), &full[..at]).unwrap();
    if guard("loading", || dochy_core::json_dir_to_root(&d2, true))?.is_ok() { return Err(format!("a text cut off after {} bytes was accepted: {}", at, cut(full[..at].to_string()))); }
    c.mix_bytes(t.as_bytes());
    c.nontrivial();
    Ok(())
}
