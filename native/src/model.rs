//! Generated definitions, their text form, what a reader should see of them, and random edits
//! through the public interface of dochy_core.
use crate::ensure;
use crate::util::*;
use dochy_core::intf::{citem, mitem, root as rt, table as tb, CItemPtr, CListConst, CListPtr, MItemPtr, MListPtr, RootObjectPtr};
use dochy_core::structs::*;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty { Bool, Int, Float, Str, Ints, Floats, Bin }
pub const TYS: [Ty; 7] = [Ty::Bool, Ty::Int, Ty::Float, Ty::Str, Ty::Ints, Ty::Floats, Ty::Bin];

/// floats as bits, so that states can be compared exactly
#[derive(Clone, PartialEq, Debug)]
pub enum Raw { Bool(bool), Int(i64), Float(u64), Str(String), Ints(Vec<i64>), Floats(Vec<u64>), Bin(Vec<u8>) }
#[derive(Clone, PartialEq, Debug)]
pub enum Val { Val(Raw), Null(Ty), Undef(Ty) }

impl Raw {
    pub fn ty(&self) -> Ty { match self { Raw::Bool(_) => Ty::Bool, Raw::Int(_) => Ty::Int, Raw::Float(_) => Ty::Float, Raw::Str(_) => Ty::Str, Raw::Ints(_) => Ty::Ints, Raw::Floats(_) => Ty::Floats, Raw::Bin(_) => Ty::Bin } }
}
fn q<T, F: FnOnce(T) -> Raw>(v: Qv<T>, ty: Ty, f: F) -> Val { match v { Qv::Val(x) => Val::Val(f(x)), Qv::Null => Val::Null(ty), Qv::Undefined => Val::Undef(ty) } }
fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }
fn floats(v: &[u64]) -> Vec<f64> { v.iter().map(|x| f64::from_bits(*x)).collect() }
impl Val {
    pub fn ty(&self) -> Ty { match self { Val::Val(r) => r.ty(), Val::Null(t) | Val::Undef(t) => *t } }
    pub fn of(p: &RustParam) -> Val {
        match p {
            RustParam::Bool(v) => q(v.as_ref(), Ty::Bool, |x| Raw::Bool(*x)),
            RustParam::Int(v) => q(v.as_ref(), Ty::Int, |x| Raw::Int(*x)),
            RustParam::Float(v) => q(v.as_ref(), Ty::Float, |x| Raw::Float(x.to_bits())),
            RustParam::String(v) => q(v.as_ref(), Ty::Str, |x| Raw::Str(x.str().to_string())),
            RustParam::IntArray(v) => q(v.as_ref(), Ty::Ints, |x| Raw::Ints(x.vec().clone())),
            RustParam::FloatArray(v) => q(v.as_ref(), Ty::Floats, |x| Raw::Floats(bits(x.vec()))),
            RustParam::Binary(v) => q(v.as_ref(), Ty::Bin, |x| Raw::Bin(x.vec().clone())),
        }
    }
    fn qv<T, F: Fn(&Raw) -> Option<T>>(&self, f: F) -> Qv<T> { match self { Val::Val(r) => Qv::Val(f(r).expect("type")), Val::Null(_) => Qv::Null, Val::Undef(_) => Qv::Undefined } }
    pub fn bool(&self) -> Qv<bool> { self.qv(|r| if let Raw::Bool(x) = r { Some(*x) } else { None }) }
    pub fn int(&self) -> Qv<i64> { self.qv(|r| if let Raw::Int(x) = r { Some(*x) } else { None }) }
    pub fn float(&self) -> Qv<f64> { self.qv(|r| if let Raw::Float(x) = r { Some(f64::from_bits(*x)) } else { None }) }
    pub fn str(&self) -> Qv<String> { self.qv(|r| if let Raw::Str(x) = r { Some(x.clone()) } else { None }) }
    pub fn ints(&self) -> Qv<Vec<i64>> { self.qv(|r| if let Raw::Ints(x) = r { Some(x.clone()) } else { None }) }
    pub fn floats(&self) -> Qv<Vec<f64>> { self.qv(|r| if let Raw::Floats(x) = r { Some(floats(x)) } else { None }) }
    pub fn bin(&self) -> Qv<Vec<u8>> { self.qv(|r| if let Raw::Bin(x) = r { Some(x.clone()) } else { None }) }
    pub fn param(&self) -> RustParam {
        match self.ty() {
            Ty::Bool => RustParam::Bool(self.bool()), Ty::Int => RustParam::Int(self.int()), Ty::Float => RustParam::Float(self.float()),
            Ty::Str => RustParam::String(self.str().map(|s| RustString::new(s.clone()))),
            Ty::Ints => RustParam::IntArray(self.ints().map(|s| RustIntArray::new(s.clone()))),
            Ty::Floats => RustParam::FloatArray(self.floats().map(|s| RustFloatArray::new(s.clone()))),
            Ty::Bin => RustParam::Binary(self.bin().map(|s| RustBinary::new(s.clone()))),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Vt { Normal, Nullable, Undefiable, Both }
pub const VTS: [Vt; 4] = [Vt::Normal, Vt::Nullable, Vt::Undefiable, Vt::Both];
impl Vt {
    pub fn suffix(self) -> &'static str { match self { Vt::Normal => "", Vt::Nullable => "?", Vt::Undefiable => "!", Vt::Both => "!?" } }
    /// the markers as written, in either order
    pub fn text(self, c: &mut Case, st: &Style) -> &'static str { if self == Vt::Both && st.wild && c.rng.chance(1, 2) { "?!" } else { self.suffix() } }
    pub fn nullable(self) -> bool { matches!(self, Vt::Nullable | Vt::Both) }
    pub fn undefiable(self) -> bool { matches!(self, Vt::Undefiable | Vt::Both) }
    pub fn allows(self, v: &Val) -> bool { match v { Val::Val(_) => true, Val::Null(_) => self.nullable(), Val::Undef(_) => self.undefiable() } }
}

#[derive(Clone, PartialEq, Debug)]
pub struct PDef { pub vt: Vt, pub def: Val }
#[derive(Clone, PartialEq, Debug)]
pub enum RefV { Id(String), Null, Undef }
#[derive(Clone, PartialEq, Debug)]
pub struct LDef { pub undefiable: bool, pub mems: Vec<(String, Mem)>, pub refs: Vec<(String, Vt, RefV)>, pub is_enum: bool }
#[derive(Clone, PartialEq, Debug)]
pub enum Mem { P(PDef), Mil(LDef), Cil(LDef) }
#[derive(Clone, PartialEq, Debug)]
pub enum RMem { P(PDef), M(LDef, VList), T(LDef, Vec<(String, VItem)>, Vec<String>), C(LDef, Vec<VItem>) }
#[derive(Clone, PartialEq, Debug)]
pub struct Schema { pub mems: Vec<(String, RMem)>, pub old: Vec<String> }

/// What a reader sees: every member resolved to its current value.
#[derive(Clone, PartialEq, Debug)]
pub enum V { P(Val), L(Option<VList>), C(Vec<VItem>), T(BTreeMap<String, (bool, VItem)>) }
#[derive(Clone, PartialEq, Debug)]
pub struct VList { pub items: Vec<(u64, VItem)>, pub next: u64 }
#[derive(Clone, PartialEq, Debug)]
pub struct VItem { pub mems: BTreeMap<String, V>, pub refs: BTreeMap<String, RefV>, pub en: Option<(String, String)> }
pub type View = BTreeMap<String, V>;

// ---------- reading the real object ----------
fn rqv(v: Qv<&String>) -> RefV { match v { Qv::Val(s) => RefV::Id(s.clone()), Qv::Null => RefV::Null, Qv::Undefined => RefV::Undef } }

pub fn view_mitem(p: MItemPtr, d: &LDef) -> Result<VItem, String> {
    let mut mems = BTreeMap::new();
    for (n, m) in &d.mems {
        let v = match m {
            Mem::P(_) => V::P(Val::of(mitem::get_param(p, n).ok_or_else(|| format!("member {} of an item is gone", n))?)),
            Mem::Mil(ld) => V::L(match mitem::get_mil_const::<MItemPtr>(p, n).ok_or_else(|| format!("inner list {} is gone", n))? { Some(l) => Some(view_list(&l, ld)?), None => None }),
            Mem::Cil(_) => return Err("const list in a mutable item".to_string()),
        };
        mems.insert(n.clone(), v);
    }
    let mut refs = BTreeMap::new();
    for (t, _, _) in &d.refs { refs.insert(t.clone(), rqv(mitem::get_ref_id(p, t).ok_or_else(|| format!("reference to {} is gone", t))?)); }
    Ok(VItem { mems, refs, en: if d.is_enum { mitem::get_enum(p) } else { None } })
}
pub fn view_list(l: &MListPtr<MItemPtr>, d: &LDef) -> Result<VList, String> {
    let mut items = vec![];
    let mut it = l.iter_const();
    while let Some((id, p)) = it.next_const() {
        if items.len() > l.len() { return Err("list iteration does not end".to_string()); }
        items.push((id, view_mitem(p, d)?));
    }
    if l.len() != items.len() { return Err(format!("list of {} items iterates {}", l.len(), items.len())); }
    Ok(VList { items, next: l.next_id() })
}
thread_local! {
    /// whether views also read const items by every typed getter
    pub static TYPED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn typed(p: CItemPtr, n: &str, d: &PDef, v: &Val) -> Result<(), String> {
    ensure!(citem::get_param_def(p, n).map(Val::of).as_ref() == Some(&d.def), "the default of {} is not {:?}", n, d.def);
    for t in TYS {
        let (want, def) = if t == v.ty() { (Some(v.clone()), Some(d.def.clone())) } else { (None, None) };
        let got = citem_access::get(p, n, t);
        ensure!(got == want, "reading {} as {:?} gives {:?}, expected {:?}", n, t, got, want);
        let got = citem_access::get_def(p, n, t);
        ensure!(got == def, "the default of {} as {:?} is {:?}, expected {:?}", n, t, got, def);
        if matches!(t, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
            let got = citem_access::get_immutable(p, n, t);
            ensure!(got == want, "borrowing {} as {:?} gives {:?}, expected {:?}", n, t, got, want);
        }
    }
    Ok(())
}
fn view_citem(p: CItemPtr, d: &LDef) -> Result<VItem, String> {
    let mut mems = BTreeMap::new();
    for (n, m) in &d.mems {
        let v = match m {
            Mem::P(pd) => {
                let v = Val::of(citem::get_param(p, n).ok_or_else(|| format!("member {} of a const item is gone", n))?);
                if TYPED.with(|x| x.get()) { typed(p, n, pd, &v)?; }
                V::P(v)
            }
            Mem::Cil(ld) => V::C(view_clist(citem::get_cil::<CItemPtr>(p, n).ok_or_else(|| format!("inner const list {} is gone", n))?, ld)?),
            Mem::Mil(_) => return Err("mutable list in a const item".to_string()),
        };
        mems.insert(n.clone(), v);
    }
    let mut refs = BTreeMap::new();
    for (t, _, _) in &d.refs { refs.insert(t.clone(), rqv(citem::get_ref_id(p, t).ok_or_else(|| format!("reference to {} is gone", t))?)); }
    Ok(VItem { mems, refs, en: if d.is_enum { citem::get_enum(p) } else { None } })
}
fn view_clist(l: CListPtr<CItemPtr>, d: &LDef) -> Result<Vec<VItem>, String> {
    let b = CListConst::new(l, &d.undefiable);
    let all: Vec<CItemPtr> = b.iter().map(|i| *i).collect();
    if all.len() != l.len() || b.len() != l.len() || l.iter().count() != l.len() { return Err(format!("const list of {} items iterates {}", l.len(), all.len())); }
    (0..l.len()).map(|i| view_citem(match i % 4 { 0 => l.value(i), 1 => all[i], 2 => *b.value(i), _ => l.iter().nth(i).ok_or("const list iteration ends early")? }, d)).collect()
}

pub fn ptr(r: &RootObject) -> RootObjectPtr { RootObjectPtr::new(r as *const RootObject as *mut RootObject) }
pub fn ptr_mut(r: &mut RootObject) -> RootObjectPtr { RootObjectPtr::new(r) }

pub fn view(r: &RootObject, s: &Schema) -> Result<View, String> {
    let p = ptr(r);
    let mut v = BTreeMap::new();
    for (n, m) in &s.mems {
        let gone = || format!("member {} is gone", n);
        let x = match m {
            RMem::P(_) => V::P(Val::of(rt::get_param(p, n).ok_or_else(gone)?)),
            RMem::M(d, _) => V::L(match rt::get_mlist_const::<MItemPtr>(p, n).ok_or_else(gone)? { Some(l) => Some(view_list(&l, d)?), None => None }),
            RMem::C(d, _) => V::C(view_clist(rt::get_clist::<CItemPtr>(p, n).ok_or_else(gone)?, d)?),
            RMem::T(d, _, _) => {
                let t = rt::get_table(p.def(), n).ok_or_else(gone)?;
                let mut m = BTreeMap::new();
                for kv in tb::get_kvs(t).items() {
                    let i = tb::get_value(t, kv.id()).ok_or_else(|| format!("row {} of {} cannot be looked up", kv.id(), n))?;
                    m.insert(kv.id().to_string(), (kv.is_old(), view_citem(i, d)?));
                }
                V::T(m)
            }
        };
        v.insert(n.clone(), x);
    }
    Ok(v)
}
/// The view of a freshly read definition.
pub fn initial_view(s: &Schema) -> View {
    s.mems.iter().map(|(n, m)| (n.clone(), match m {
        RMem::P(p) => V::P(p.def.clone()),
        RMem::M(_, l) => V::L(Some(l.clone())),
        RMem::T(_, v, old) => V::T(v.iter().map(|(k, i)| (k.clone(), (old.contains(k), i.clone()))).collect()),
        RMem::C(_, v) => V::C(v.clone()),
    })).collect()
}
pub fn diff_text(a: &View, b: &View) -> String {
    for (k, x) in a {
        match b.get(k) {
            None => return format!("{} is missing", k),
            Some(y) if x != y => {
                if let (V::L(Some(x)), V::L(Some(y))) = (x, y) {
                    let ids = |l: &VList| l.items.iter().map(|i| i.0).take(60).collect::<Vec<_>>();
                    if ids(x) != ids(y) || x.items.len() != y.items.len() { return format!("list {}: ids {:?} (next {}) became {:?} (next {})", k, ids(x), x.next, ids(y), y.next); }
                    if x.next != y.next { return format!("list {}: next id {} became {}", k, x.next, y.next); }
                    for (i, j) in x.items.iter().zip(&y.items) { if i != j { return cut(format!("list {} item {}: {:?} became {:?}", k, i.0, i.1, j.1)); } }
                }
                return cut(format!("{}: {:?} became {:?}", k, x, y));
            }
            _ => {}
        }
    }
    "extra members".to_string()
}
pub fn cut(s: String) -> String { if s.chars().count() > 900 { s.chars().take(900).collect::<String>() + "…" } else { s } }

// ---------- generation ----------
pub fn gen_raw(c: &mut Case, ty: Ty, json: bool) -> Raw {
    let fl = |c: &mut Case| loop { let f = c.rng.f64(); if !json || f.is_finite() { return f.to_bits(); } };
    match ty {
        Ty::Bool => Raw::Bool(c.rng.chance(1, 2)),
        Ty::Int => Raw::Int(c.rng.i64()),
        Ty::Float => Raw::Float(fl(c)),
        Ty::Str => { let n = *c.rng.pick(&[0, 1, 3, 8, 15, 16, 40]); Raw::Str(c.rng.string(n)) }
        Ty::Ints => { let n = c.n(6); Raw::Ints((0..n).map(|_| c.rng.i64()).collect()) }
        Ty::Floats => { let n = c.n(6); Raw::Floats((0..n).map(|_| fl(c)).collect()) }
        Ty::Bin => { let n = c.n(20); Raw::Bin(c.rng.bytes(n)) }
    }
}
/// a value the member may hold
pub fn gen_val(c: &mut Case, ty: Ty, vt: Vt, json: bool) -> Val {
    if vt.nullable() && c.rng.chance(1, 5) { return Val::Null(ty); }
    if vt.undefiable() && c.rng.chance(1, 5) { return Val::Undef(ty); }
    Val::Val(gen_raw(c, ty, json))
}
fn gen_pdef(c: &mut Case) -> PDef {
    let (ty, vt) = (*c.rng.pick(&TYS), *c.rng.pick(&VTS));
    PDef { vt, def: gen_val(c, ty, vt, true) }
}
fn name(c: &mut Case, i: usize) -> String {
    let base = *c.rng.pick(&["a", "b", "val", "longName", "x_y", "_u", "@m", "n0", "camelCase9", "trueish", "nullable"]);
    format!("{}{}", base, i)
}
pub type Tables = Vec<(String, Vec<String>)>;
fn gen_ldef(c: &mut Case, depth: usize, mutable: bool, tables: &Tables) -> LDef {
    let mut mems = vec![];
    for i in 0..1 + c.n(5) {
        let n = name(c, i);
        let m = if depth > 0 && c.rng.chance(1, 3) {
            let mut d = gen_ldef(c, depth - 1, mutable, tables);
            if mutable { d.undefiable = c.rng.chance(1, 3); Mem::Mil(d) } else { Mem::Cil(d) }
        } else { Mem::P(gen_pdef(c)) };
        mems.push((n, m));
    }
    let mut refs = vec![];
    let is_enum = !tables.is_empty() && c.rng.chance(1, 6);
    for (t, ids) in tables {
        if ids.is_empty() { continue; }
        if is_enum { refs.push((t.clone(), Vt::Nullable, RefV::Null)); continue; }
        if c.rng.chance(1, 2) {
            let vt = *c.rng.pick(&VTS);
            let d = match c.rng.below(4) { 0 if vt.nullable() => RefV::Null, 1 if vt.undefiable() => RefV::Undef, 2 => RefV::Id(String::new()), _ => RefV::Id(c.rng.pick(ids).clone()) };
            refs.push((t.clone(), vt, d));
        }
    }
    LDef { undefiable: false, mems, is_enum: is_enum && !refs.is_empty(), refs }
}
pub fn default_item(d: &LDef) -> VItem {
    VItem {
        mems: d.mems.iter().map(|(n, m)| (n.clone(), match m { Mem::P(p) => V::P(p.def.clone()), Mem::Mil(_) => V::L(Some(VList { items: vec![], next: 0 })), Mem::Cil(_) => V::C(vec![]) })).collect(),
        refs: d.refs.iter().map(|(t, _, v)| (t.clone(), v.clone())).collect(),
        en: None,
    }
}
pub fn gen_ref(c: &mut Case, vt: Vt, ids: &[String]) -> RefV {
    match c.rng.below(4) { 0 if vt.nullable() => RefV::Null, 1 if vt.undefiable() => RefV::Undef, _ => RefV::Id(c.rng.pick(ids).clone()) }
}
fn ids_of<'a>(t: &str, tables: &'a Tables) -> &'a [String] { &tables.iter().find(|x| x.0 == t).unwrap().1 }
fn gen_item(c: &mut Case, d: &LDef, tables: &Tables, written: bool) -> VItem {
    let mut it = default_item(d);
    for (n, m) in &d.mems {
        if c.rng.chance(1, 3) { continue; }
        let v = match m {
            Mem::P(p) => V::P(gen_val(c, p.def.ty(), p.vt, true)),
            Mem::Mil(ld) => V::L(Some(gen_vlist(c, ld, tables, 3))),
            Mem::Cil(ld) => { let n = c.n(3); V::C((0..n).map(|_| gen_item(c, ld, tables, written)).collect()) }
        };
        it.mems.insert(n.clone(), v);
    }
    if d.is_enum {
        let (t, _, _) = c.rng.pick(&d.refs).clone();
        let id = c.rng.pick(ids_of(&t, tables)).clone();
        it.refs.insert(t.clone(), RefV::Id(id.clone()));
        it.en = Some((t, id));
    } else {
        for (t, vt, def) in &d.refs {
            // an item written in a definition has to replace an empty default
            if *def == RefV::Id(String::new()) || c.rng.chance(1, 2) { let r = gen_ref(c, *vt, ids_of(t, tables)); it.refs.insert(t.clone(), r); }
        }
    }
    it
}
fn gen_vlist(c: &mut Case, d: &LDef, tables: &Tables, max: usize) -> VList {
    let n = c.n(max);
    let mut ids: Vec<u64> = (0..n as u64).collect();
    if c.rng.chance(1, 4) { ids = { let mut v: Vec<u64> = (0..n as u64 * 2 + 3).collect(); c.rng.shuffle(&mut v); v.truncate(n); v }; }
    let over = ids.iter().map(|x| x + 1).max().unwrap_or(0);
    let next = if c.rng.chance(2, 3) && over <= n as u64 { n as u64 } else { over.max(*c.rng.pick(&[n as u64, 8, 62, 63, 64, 200, 32766, 32767, 8388606, 1 << 31, (1 << 40) - 1])) };
    VList { items: ids.into_iter().map(|i| (i, gen_item(c, d, tables, true))).collect(), next }
}
pub fn tables_of(s: &Schema) -> Tables {
    s.mems.iter().filter_map(|(n, m)| if let RMem::T(_, v, old) = m { Some((n.clone(), v.iter().map(|x| x.0.clone()).filter(|k| !old.contains(k)).collect())) } else { None }).collect()
}
/// more members, item members or references than fit one or two blocks of 64
fn widen(c: &mut Case, mems: &mut Vec<(String, RMem)>) {
    let k = *c.rng.pick(&[58, 63, 64, 65, 66, 90, 128, 130]);
    let small = |c: &mut Case| { let (ty, vt) = (*c.rng.pick(&[Ty::Bool, Ty::Int]), *c.rng.pick(&VTS)); PDef { vt, def: gen_val(c, ty, vt, true) } };
    match c.rng.below(3) {
        0 => for i in 0..k { let p = small(c); mems.push((format!("w{}", i), RMem::P(p))); },
        1 => {
            let mut m: Vec<(String, Mem)> = (0..k).map(|i| (format!("w{}", i), Mem::P(small(c)))).collect();
            if c.rng.chance(1, 2) {
                let d = LDef { undefiable: c.rng.chance(1, 2), mems: vec![("m".to_string(), Mem::P(small(c)))], refs: vec![], is_enum: false };
                m.push((c.rng.pick(&["a", "w3x", "zzz"]).to_string(), Mem::Mil(d)));
            }
            let d = LDef { undefiable: false, mems: m, refs: vec![], is_enum: false };
            let l = gen_vlist(c, &d, &vec![], 3);
            mems.push(("wideList".to_string(), RMem::M(d, l)));
        }
        _ => {
            let none = LDef { undefiable: false, mems: vec![("m".to_string(), Mem::P(small(c)))], refs: vec![], is_enum: false };
            let mut tables: Tables = vec![];
            for i in 0..k {
                let n = format!("wt{}", i);
                let rows: Vec<(String, VItem)> = ["p", "q"].iter().map(|id| (id.to_string(), default_item(&none))).collect();
                tables.push((n.clone(), rows.iter().map(|x| x.0.clone()).collect()));
                mems.push((n, RMem::T(none.clone(), rows, vec![])));
            }
            let refs = tables.iter().map(|(t, ids)| { let vt = *c.rng.pick(&VTS); (t.clone(), vt, RefV::Id(c.rng.pick(ids).clone())) }).collect();
            let d = LDef { refs, ..none };
            let l = gen_vlist(c, &d, &tables, 3);
            mems.push(("wideRefs".to_string(), RMem::M(d, l)));
        }
    }
}
pub fn gen_schema(c: &mut Case) -> Schema {
    let mut mems = vec![];
    let mut tables: Tables = vec![];
    for i in 0..c.n(2) {
        let n = format!("tab{}", i);
        let d = gen_ldef(c, 1, false, &tables);
        let k = 1 + c.n(4);
        let mut rows: Vec<(String, VItem)> = vec![];
        for j in 0..k {
            // some ids are the beginning of another one
            let id = if j > 0 && c.rng.chance(1, 4) { format!("{}_{}", rows[c.rng.below(j)].0, j) } else { name(c, j) };
            rows.push((id, gen_item(c, &d, &tables, true)));
        }
        let old = if k > 1 && c.rng.chance(1, 3) { vec![rows[c.rng.below(k)].0.clone()] } else { vec![] };
        tables.push((n.clone(), rows.iter().map(|x| x.0.clone()).filter(|k| !old.contains(k)).collect()));
        mems.push((n, RMem::T(d, rows, old)));
    }
    if c.rng.chance(1, 2) {
        let d = gen_ldef(c, 1, false, &tables);
        let k = c.n(4);
        let v = (0..k).map(|_| gen_item(c, &d, &tables, true)).collect();
        mems.push(("clist".to_string(), RMem::C(d, v)));
    }
    for i in 0..1 + c.n(3) {
        let depth = if c.size > 40 { 2 } else { 1 };
        let mut d = gen_ldef(c, depth, true, &tables);
        d.undefiable = c.rng.chance(1, 3);
        let l = gen_vlist(c, &d, &tables, 6);
        mems.push((format!("{}{}", c.rng.pick(&["list", "mems", "zL"]), i), RMem::M(d, l)));
    }
    for i in 0..1 + c.n(7) { let n = name(c, i); let p = gen_pdef(c); mems.push((n, RMem::P(p))); }
    if c.rng.chance(1, 12) { widen(c, &mut mems); }
    c.rng.shuffle(&mut mems);
    // tables may be written after the lists that refer to them
    Schema { mems, old: vec![] }
}

// ---------- text form ----------
/// how freely the text is laid out
pub struct Style { pub wild: bool }
pub fn num_text(c: &mut Case, i: i64, st: &Style) -> String {
    if st.wild && i >= 0 && i <= u32::MAX as i64 && c.rng.chance(1, 4) { return if c.rng.chance(1, 2) { format!("0x{:x}", i) } else { format!("0X{:X}", i) }; }
    if st.wild && i >= 0 && c.rng.chance(1, 6) { return format!("+{}", i); }
    format!("{}", i)
}
pub fn float_text(c: &mut Case, b: u64, st: &Style) -> String {
    let f = f64::from_bits(b);
    let s = format!("{:?}", f);
    if !st.wild { return s; }
    match c.rng.below(6) {
        0 => format!("{:e}", f),
        1 => format!("{:E}", f),
        2 if s.starts_with("0.") => s[1..].to_string(),
        3 if s.ends_with(".0") => s[..s.len() - 1].to_string(),
        4 if !s.starts_with('-') => format!("+{}", s),
        _ => s,
    }
}
pub fn str_text(c: &mut Case, s: &str, st: &Style) -> String {
    let single = st.wild && c.rng.chance(1, 2);
    let mut r = String::new();
    r.push(if single { '\'' } else { '"' });
    let mut chars = s.chars().peekable();
    while let Some(ch) = chars.next() {
        match ch {
            '\\' => r.push_str("\\\\"),
            '"' if !single => r.push_str("\\\""),
            '\'' if single => r.push_str("\\'"),
            '\n' => r.push_str(if st.wild && c.rng.chance(1, 2) { "\\u000a" } else { "\\n" }),
            '\r' => r.push_str(if st.wild && c.rng.chance(1, 2) { "\\x0D" } else { "\\r" }),
            '\t' => r.push_str(if st.wild && c.rng.chance(1, 2) { "\t" } else { "\\t" }),
            '\u{8}' => r.push_str("\\b"),
            '\u{c}' => r.push_str("\\f"),
            '\u{b}' => r.push_str("\\v"),
            '\0' => r.push_str(if chars.peek().map_or(false, |n| n.is_ascii_digit()) || st.wild && c.rng.chance(1, 2) { "\\x00" } else { "\\0" }),
            '\u{2028}' | '\u{2029}' => r.push_str(&format!("\\u{:04x}", ch as u32)),
            ch if st.wild && (ch as u32) < 0x10000 && c.rng.chance(1, 12) => {
                if (ch as u32) < 256 && c.rng.chance(1, 2) { r.push_str(&format!("\\x{:02X}", ch as u32)) } else { r.push_str(&format!("\\u{:04X}", ch as u32)) }
            }
            // a backslash before a character without a special meaning stands for the character
            ch if st.wild && "acdeghijklmopqsyz;#%/".contains(ch) && c.rng.chance(1, 12) => { r.push('\\'); r.push(ch) }
            ch => r.push(ch),
        }
        if st.wild && c.rng.chance(1, 40) { r.push_str(*c.rng.pick(&["\\\n", "\\\r\n", "\\\u{2028}"])); }
    }
    r.push(if single { '\'' } else { '"' });
    r
}
fn ws(c: &mut Case, st: &Style, o: &mut String) {
    if !st.wild { o.push(' '); return; }
    for _ in 0..c.rng.below(3) {
        o.push_str(match c.rng.below(9) {
            0 => "\n", 1 => "\t", 2 => "// note: } ] ' \" \n", 3 => "/* { [ , \" */", 4 => "\r\n", 5 => "\u{a0}", 6 => "/**/", 7 => "// \r", _ => " ",
        });
    }
}
pub fn key_text(c: &mut Case, k: &str, st: &Style) -> String {
    let plain = k.chars().all(|x| x.is_alphanumeric() || x == '_' || x == '@') || k.ends_with('?') || k.ends_with('!');
    let plain = plain && !k.ends_with("?!");
    match if st.wild { c.rng.below(3) } else { 1 } { 0 => format!("'{}'", k), 2 if plain => k.to_string(), _ => format!("\"{}\"", k) }
}
pub fn val_text(c: &mut Case, v: &Val, st: &Style) -> String {
    let tag = match v.ty() { Ty::Bool => "Bool", Ty::Int => "Int", Ty::Float => "Float", Ty::Str => "Str", Ty::Ints => "IntArray", Ty::Floats => "FloatArray", Ty::Bin => "Binary" };
    let mut arr = |c: &mut Case, head: Option<&str>, xs: Vec<String>| {
        let mut o = String::from("[");
        let mut first = true;
        if let Some(h) = head { ws(c, st, &mut o); o.push_str(&str_text(c, h, &Style { wild: false })); first = false; }
        for x in xs { if !first { o.push(','); } first = false; ws(c, st, &mut o); o.push_str(&x); ws(c, st, &mut o); }
        if st.wild && !first && c.rng.chance(1, 3) { o.push(','); ws(c, st, &mut o); }
        o.push(']');
        o
    };
    match v {
        Val::Null(_) => arr(c, Some(tag), vec!["null".into()]),
        Val::Undef(_) => arr(c, Some(tag), vec!["undefined".into()]),
        Val::Val(Raw::Bool(b)) => b.to_string(),
        Val::Val(Raw::Int(i)) => num_text(c, *i, st),
        Val::Val(Raw::Float(f)) => {
            if st.wild && c.rng.chance(1, 5) {
                let x = f64::from_bits(*f);
                let t = if x == x.trunc() && x.abs() < 1e15 && x.to_bits() != (-0.0f64).to_bits() { format!("{}", x as i64) } else { float_text(c, *f, st) };
                return arr(c, Some(tag), vec![t]);
            }
            float_text(c, *f, st)
        }
        Val::Val(Raw::Str(s)) => str_text(c, s, st),
        Val::Val(Raw::Ints(x)) => {
            let t: Vec<String> = x.iter().map(|i| num_text(c, *i, st)).collect();
            if st.wild && !t.is_empty() && c.rng.chance(1, 2) { arr(c, None, t) } else { arr(c, Some(tag), t) }
        }
        Val::Val(Raw::Floats(x)) => {
            let t: Vec<String> = x.iter().map(|b| {
                let f = f64::from_bits(*b);
                if st.wild && f == f.trunc() && f.abs() < 1e15 && f.to_bits() != (-0.0f64).to_bits() && c.rng.chance(1, 2) { format!("{}", f as i64) } else { float_text(c, *b, st) }
            }).collect();
            arr(c, Some(tag), t)
        }
        Val::Val(Raw::Bin(x)) => { let t: Vec<String> = x.iter().map(|b| num_text(c, *b as i64, st)).collect(); arr(c, Some(tag), t) }
    }
}
fn obj(c: &mut Case, st: &Style, kv: Vec<(String, String)>) -> String {
    let mut o = String::from("{");
    let mut first = true;
    for (k, v) in kv {
        if !first { o.push(','); }
        first = false;
        ws(c, st, &mut o); o.push_str(&key_text(c, &k, st)); ws(c, st, &mut o); o.push(':'); ws(c, st, &mut o); o.push_str(&v); ws(c, st, &mut o);
    }
    if st.wild && !first && c.rng.chance(1, 3) { o.push(','); ws(c, st, &mut o); }
    o.push('}');
    o
}
fn list(c: &mut Case, st: &Style, head: &str, parts: Vec<String>) -> String {
    let mut o = format!("[\"{}\"", head);
    for p in parts { o.push(','); ws(c, st, &mut o); o.push_str(&p); ws(c, st, &mut o); }
    if st.wild && c.rng.chance(1, 3) { o.push(','); }
    o.push(']');
    o
}
fn ref_text(c: &mut Case, r: &RefV, st: &Style) -> String { match r { RefV::Id(s) => str_text(c, s, st), RefV::Null => "null".into(), RefV::Undef => "undefined".into() } }
/// Some of the names as an `Old` entry: members no item sets may be marked.
fn old_text(c: &mut Case, st: &Style, unset: bool, names: Vec<&String>) -> Option<(String, String)> {
    if !st.wild || !unset || names.is_empty() || !c.rng.chance(1, 3) { return None; }
    let k = 1 + c.rng.below(names.len());
    Some(("Old".to_string(), format!("[{}]", names[..k].iter().map(|x| format!("'{}'", x)).collect::<Vec<_>>().join(", "))))
}
fn def_text(c: &mut Case, d: &LDef, st: &Style, unset: bool) -> String {
    let mut kv: Vec<(String, String)> = vec![];
    for (n, m) in &d.mems {
        let (suf, v) = match m {
            Mem::P(p) => (p.vt.text(c, st), val_text(c, &p.def, st)),
            Mem::Mil(ld) => { let t = def_text(c, ld, st, unset); (if ld.undefiable { "!" } else { "" }, list(c, st, "MilDef", vec![t])) }
            Mem::Cil(ld) => { let t = def_text(c, ld, st, unset); ("", list(c, st, "CilDef", vec![t])) }
        };
        kv.push((format!("{}{}", n, suf), v));
    }
    if !d.refs.is_empty() {
        let mut r: Vec<(String, String)> = d.refs.iter().map(|(t, vt, v)| (format!("{}{}", t, vt.text(c, st)), ref_text(c, v, st))).collect();
        r.extend(old_text(c, st, unset, d.refs.iter().map(|x| &x.0).collect()));
        let t = obj(c, st, r);
        kv.push((if d.is_enum { "Enum" } else { "Ref" }.to_string(), t));
    }
    kv.extend(old_text(c, st, unset, d.mems.iter().map(|x| &x.0).collect()));
    if st.wild { c.rng.shuffle(&mut kv); }
    let o = obj(c, st, kv);
    if st.wild && c.rng.chance(1, 3) { format!("[\"Default\", {}]", o) } else { format!("[{}]", o) }
}
fn item_text(c: &mut Case, d: &LDef, i: &VItem, id: Option<String>, st: &Style) -> String {
    let def = default_item(d);
    let mut kv: Vec<(String, String)> = vec![];
    if let Some(t) = id { kv.push(("ID".to_string(), t)); }
    for (n, m) in &d.mems {
        let v = &i.mems[n];
        if *v == def.mems[n] && c.rng.chance(2, 3) { continue; }
        let t = match (m, v) {
            (Mem::P(_), V::P(v)) => val_text(c, v, st),
            (Mem::Mil(ld), V::L(Some(l))) => mlist_text(c, "Mil", ld, l, st, false),
            (Mem::Mil(_), V::L(None)) => list(c, st, "__InnerMutUndefined", vec![]),
            (Mem::Cil(ld), V::C(l)) => { let p = l.iter().map(|x| item_text(c, ld, x, None, st)).collect(); list(c, st, "Cil", p) }
            _ => unreachable!(),
        };
        kv.push((n.clone(), t));
    }
    let mut refs: Vec<(String, String)> = vec![];
    if let Some((t, id)) = &i.en { let s = str_text(c, id, st); refs.push((t.clone(), s)); }
    else if !d.is_enum { for (t, _, dv) in &d.refs { if i.refs[t] != *dv || c.rng.chance(1, 4) && *dv != RefV::Id(String::new()) { let s = ref_text(c, &i.refs[t], st); refs.push((t.clone(), s)); } } }
    if !refs.is_empty() { let t = obj(c, st, refs); kv.push((if d.is_enum { "Enum" } else { "Ref" }.to_string(), t)); }
    if st.wild { c.rng.shuffle(&mut kv); }
    obj(c, st, kv)
}
fn mlist_text(c: &mut Case, head: &str, d: &LDef, l: &VList, st: &Style, with_def: bool) -> String {
    let mut parts = vec![];
    if with_def { parts.push(def_text(c, d, st, l.items.is_empty())); }
    let seq = l.items.iter().enumerate().all(|(i, x)| x.0 == i as u64);
    let unused = l.items.iter().map(|x| x.0 + 1).chain(Some(l.items.len() as u64)).max().unwrap();
    if l.next != unused || c.rng.chance(1, 4) { parts.push(format!("[\"NextID\", {}]", l.next)); if st.wild && parts.len() == 2 && c.rng.chance(1, 3) { parts.swap(0, 1); } }
    for (id, i) in &l.items { let t = if seq && c.rng.chance(3, 4) { None } else { Some(format!("{}.0", id)) }; let s = item_text(c, d, i, t, st); parts.push(s); }
    list(c, st, head, parts)
}
pub fn member_text(c: &mut Case, m: &RMem, st: &Style) -> (String, String) {
    match m {
        RMem::P(p) => (p.vt.text(c, st).to_string(), val_text(c, &p.def, st)),
        RMem::M(d, l) => (if d.undefiable { "!" } else { "" }.to_string(), mlist_text(c, "MList", d, l, st, true)),
        RMem::T(d, rows, old) => {
            let mut parts = vec![def_text(c, d, st, rows.is_empty())];
            if !old.is_empty() { parts.push(format!("[\"Old\", {}]", old.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(","))); }
            for (id, i) in rows { let t = str_text(c, id, st); let s = item_text(c, d, i, Some(t), st); parts.push(s); }
            ("".to_string(), list(c, st, "Table", parts))
        }
        RMem::C(d, items) => {
            let mut parts = vec![def_text(c, d, st, items.is_empty())];
            for i in items { let s = item_text(c, d, i, None, st); parts.push(s); }
            ("".to_string(), list(c, st, "CList", parts))
        }
    }
}
/// Writes the definition into `dir`, some members in files of their own.
pub fn write(c: &mut Case, s: &Schema, dir: &Path, st: &Style) {
    let mut kv = vec![];
    for (n, m) in &s.mems {
        let (suf, t) = member_text(c, m, st);
        if c.rng.chance(1, 4) { std::fs::write(dir.join(format!("{}{}.json5", n, suf)), t).unwrap(); }
        else { kv.push((format!("{}{}", n, suf), t)); }
    }
    if !s.old.is_empty() { kv.push(("Old".to_string(), format!("[{}]", s.old.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")))); }
    let t = obj(c, st, kv);
    c.log(|| format!("root.json5: {}", t));
    std::fs::write(dir.join("root.json5"), t).unwrap();
}
pub fn load(dir: &Path) -> Result<RootObject, String> {
    guard("loading the definition", || dochy_core::json_dir_to_root(dir, true))?.map_err(|e| format!("the definition is refused: {}", e))
}
/// A definition, written and read back. `None` when it cannot be read (another property's concern).
pub fn fresh(c: &mut Case, s: &Schema, name: &str) -> Option<(std::path::PathBuf, RootObject)> {
    let dir = c.fresh_dir(name);
    write(c, s, &dir, &Style { wild: false });
    let r = load(&dir).ok()?;
    Some((dir, r))
}

// ---------- edits through the public interface ----------
macro_rules! reads {
    ($f:ident, $p:ty) => {
            /// typed getter of type `ty`; None when the member is not of that type
            pub fn get(p: $p, n: &str, ty: Ty) -> Option<Val> {
                match ty {
                    Ty::Bool => $f::get_bool(p, n).map(|v| q(v, ty, Raw::Bool)), Ty::Int => $f::get_int(p, n).map(|v| q(v, ty, Raw::Int)),
                    Ty::Float => $f::get_float(p, n).map(|v| q(v, ty, |x| Raw::Float(x.to_bits()))), Ty::Str => $f::get_str(p, n).map(|v| q(v, ty, Raw::Str)),
                    Ty::Ints => $f::get_int_array(p, n).map(|v| q(v, ty, Raw::Ints)), Ty::Floats => $f::get_float_array(p, n).map(|v| q(v, ty, |x| Raw::Floats(bits(&x)))),
                    Ty::Bin => $f::get_binary(p, n).map(|v| q(v, ty, Raw::Bin)),
                }
            }
            pub fn get_def(p: $p, n: &str, ty: Ty) -> Option<Val> {
                match ty {
                    Ty::Bool => $f::get_bool_def(p, n).map(|v| q(v, ty, Raw::Bool)), Ty::Int => $f::get_int_def(p, n).map(|v| q(v, ty, Raw::Int)),
                    Ty::Float => $f::get_float_def(p, n).map(|v| q(v, ty, |x| Raw::Float(x.to_bits()))), Ty::Str => $f::get_str_def(p, n).map(|v| q(v, ty, |x| Raw::Str(x.clone()))),
                    Ty::Ints => $f::get_int_array_def(p, n).map(|v| q(v, ty, |x| Raw::Ints(x.clone()))), Ty::Floats => $f::get_float_array_def(p, n).map(|v| q(v, ty, |x| Raw::Floats(bits(x)))),
                    Ty::Bin => $f::get_binary_def(p, n).map(|v| q(v, ty, |x| Raw::Bin(x.clone()))),
                }
            }
            pub fn get_immutable(p: $p, n: &str, ty: Ty) -> Option<Val> {
                match ty {
                    Ty::Str => $f::get_immutable_str(p, n).map(|v| q(v, ty, |x| Raw::Str(x.clone()))), Ty::Ints => $f::get_immutable_int_array(p, n).map(|v| q(v, ty, |x| Raw::Ints(x.clone()))),
                    Ty::Floats => $f::get_immutable_float_array(p, n).map(|v| q(v, ty, |x| Raw::Floats(bits(x)))), Ty::Bin => $f::get_immutable_binary(p, n).map(|v| q(v, ty, |x| Raw::Bin(x.clone()))),
                    _ => None,
                }
            }
    };
}
macro_rules! access {
    ($m:ident, $f:ident, $p:ty) => {
        pub mod $m {
            use super::*;
            pub fn set(p: $p, n: &str, v: &Val) -> bool {
                match v.ty() {
                    Ty::Bool => $f::set_bool(p, n, v.bool()), Ty::Int => $f::set_int(p, n, v.int()), Ty::Float => $f::set_float(p, n, v.float()),
                    Ty::Str => $f::set_str(p, n, v.str()), Ty::Ints => $f::set_int_array(p, n, v.ints()), Ty::Floats => $f::set_float_array(p, n, v.floats()), Ty::Bin => $f::set_binary(p, n, v.bin()),
                }
            }
            reads!($f, $p);
            /// appends to the value in place; the value expected afterwards
            pub fn poke(p: $p, n: &str, before: &Val) -> Option<Val> {
                let mut after = before.clone();
                match &mut after {
                    Val::Val(Raw::Str(x)) => match $f::get_mutable_str(p, n) { Some(Qv::Val(s)) => { s.push('z'); x.push('z'); } _ => return None },
                    Val::Val(Raw::Ints(x)) => match $f::get_mutable_int_array(p, n) { Some(Qv::Val(s)) => { s.push(7); x.push(7); } _ => return None },
                    Val::Val(Raw::Floats(x)) => match $f::get_mutable_float_array(p, n) { Some(Qv::Val(s)) => { s.push(1.5); x.push(1.5f64.to_bits()); } _ => return None },
                    Val::Val(Raw::Bin(x)) => match $f::get_mutable_binary(p, n) { Some(Qv::Val(s)) => { s.push(9); x.push(9); } _ => return None },
                    _ => return None,
                }
                Some(after)
            }
            pub fn edit(c: &mut Case, p: $p, n: &str, d: &PDef) {
                match c.rng.below(10) {
                    0 => { let k = c.n(4); $f::set_initial_value(p, n, k); c.log(|| format!("set_initial_value({})", n)); }
                    1 | 2 => { if let Some(v) = $f::get_param(p, n).map(Val::of) { poke(p, n, &v); c.log(|| format!("change {} in place", n)); } }
                    3 => { let v = d.def.clone(); set(p, n, &v); c.log(|| format!("set {} to its default", n)); }
                    4 => { if let Some(x) = $f::get_param_mut(p, n) { *x = gen_val(c, d.def.ty(), d.vt, false).param(); c.log(|| format!("assign {}", n)); } }
                    5 if d.def.ty() == Ty::Float => {
                        // zeros of either sign are different values
                        let z = *c.rng.pick(&[0.0f64, -0.0, f64::NAN, -f64::NAN]);
                        set(p, n, &Val::Val(Raw::Float(z.to_bits())));
                        c.log(|| format!("set {} = {:?}", n, z));
                    }
                    _ => { let v = gen_val(c, d.def.ty(), d.vt, false); set(p, n, &v); c.log(|| format!("set {} = {}", n, cut(format!("{:?}", v)))); }
                }
            }
        }
    };
}
pub mod citem_access {
    use super::*;
    reads!(citem, CItemPtr);
}
access!(root_access, rt, RootObjectPtr);
access!(item_access, mitem, MItemPtr);

pub fn edit_item(c: &mut Case, p: MItemPtr, d: &LDef, tables: &Tables, depth: usize) {
    let (nm, nr) = (d.mems.len(), d.refs.len());
    if nm + nr == 0 { return; }
    let k = c.rng.below(nm + nr.min(2));
    if k < nm {
        let (n, m) = &d.mems[k];
        match m {
            Mem::P(pd) => item_access::edit(c, p, n, pd),
            Mem::Mil(ld) => {
                let untouched = unsafe { !(*p.item()).values().contains_key(n) };
                if ld.undefiable && untouched && c.rng.chance(1, 4) {
                    // the list itself is undefined; lists that handed out ids are never made undefined, since a
                    // list created again would hand out the same ids (the interface has no such operation)
                    unsafe { (*(p.item() as *mut MutItem)).values_mut().insert(n.clone(), ListSabValue::Mil(None)); }
                    c.log(|| format!("inner list {} = undefined", n));
                } else if let Some(l) = mitem::get_mil_mut::<MItemPtr>(p, n) { c.log(|| format!("in inner list {}", n)); edit_list(c, l, ld, tables, depth + 1); }
            }
            Mem::Cil(_) => {}
        }
    } else {
        let (t, vt, _) = c.rng.pick(&d.refs).clone();
        let ids = ids_of(&t, tables);
        if ids.is_empty() { return; }
        if d.is_enum { let id = c.rng.pick(ids).clone(); mitem::set_enum(p, &t, &id); c.log(|| format!("set_enum {} {}", t, id)); return; }
        let r = gen_ref(c, vt, ids);
        c.log(|| format!("set_ref {} {:?}", t, r));
        mitem::set_ref(p, &t, match r { RefV::Id(s) => Qv::Val(s), RefV::Null => Qv::Null, RefV::Undef => Qv::Undefined });
    }
}
pub fn edit_list(c: &mut Case, mut l: MListPtr<MItemPtr>, d: &LDef, tables: &Tables, depth: usize) {
    let mut ids = vec![];
    { let mut it = l.iter_const(); while let Some((id, _)) = it.next_const() { ids.push(id); } }
    let any = |c: &mut Case| if ids.is_empty() { 0 } else { *c.rng.pick(&ids) };
    match c.rng.below(16) {
        0 | 1 => { let i = l.insert_last(); c.log(|| "insert_last".into()); if c.rng.chance(2, 3) { edit_item(c, i, d, tables, depth); } }
        2 => { let i = l.insert_first(); c.log(|| "insert_first".into()); if c.rng.chance(2, 3) { edit_item(c, i, d, tables, depth); } }
        3 => { let k = 1 + c.n(12); c.log(|| format!("insert {} items", k)); for _ in 0..k { l.insert(); } }
        4 | 5 => { let id = any(c); c.log(|| format!("remove {}", id)); unsafe { l.remove(id); } }
        6 => { c.log(|| "remove first/last".into()); unsafe { if c.rng.chance(1, 2) { l.remove_first(); } else { l.remove_last(); } } }
        7 => { let id = any(c); c.log(|| format!("move_to_first {}", id)); l.move_to_first(id); }
        8 => { let id = any(c); c.log(|| format!("move_to_last {}", id)); l.move_to_last(id); }
        9 => { let (a, b) = (any(c), any(c)); c.log(|| format!("move_to_prev {} {}", a, b)); l.move_to_prev(a, b); }
        10 => { let (a, b) = (any(c), any(c)); c.log(|| format!("move_to_next {} {}", a, b)); l.move_to_next(a, b); }
        11 if ids.len() > 3 && c.rng.chance(1, 2) => { for id in &ids { if c.rng.chance(1, 2) { unsafe { l.remove(*id); } } } c.log(|| "remove half".into()); }
        _ => { let id = any(c); if let Some(i) = l.get_item_mut(id) { c.log(|| format!("item {}", id)); edit_item(c, i, d, tables, depth); } }
    }
}
pub fn edit(c: &mut Case, r: &mut RootObject, s: &Schema, tables: &Tables) {
    if s.mems.is_empty() { return; }
    let (n, m) = c.rng.pick(&s.mems).clone();
    match &m {
        RMem::P(d) => root_access::edit(c, ptr_mut(r), &n, d),
        RMem::M(d, init) => {
            c.log(|| format!("in list {}", n));
            let now = match rt::get_mlist_const::<MItemPtr>(ptr_mut(r), &n) { Some(Some(l)) => Some(l.next_id()), _ => None };
            if now.is_none() && init.next > 0 { return; }
            if d.undefiable && (now == Some(0) || init.next > 0) && c.rng.chance(1, 8) { r.sabun_mut().insert(n.clone(), RootSabValue::Mut(None)); c.log(|| "list = undefined".into()); return; }
            for _ in 0..1 + c.rng.below(4) { if let Some(l) = rt::get_mlist_mut::<MItemPtr>(ptr_mut(r), &n) { edit_list(c, l, d, tables, 0); } }
        }
        _ => {}
    }
}
