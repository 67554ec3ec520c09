    #[derive(Clone, Copy)]
//@ item dochy_compaction/src/kval_enum.rs struct Decimal
//@ item dochy_compaction/src/kval_enum.rs enum KVal

    /// what a value stands for
    pub enum T { B(bool), I(i64), F(f64), S(Seq<char>), W(Seq<u64>), Y(Seq<u8>) }
    pub open spec fn bool_of(k: KVal) -> Option<bool> {
        match k { KVal::Bool(b) => Some(b), KVal::Bit(b) => Some(b), _ => None }
    }
    pub open spec fn int_of(k: KVal) -> Option<i64> {
        match k { KVal::Bit(b) => Some(if b { 1i64 } else { 0 }), KVal::Byte(b) => Some(b as i64), KVal::Int(i) => Some(i), _ => None }
    }
    pub uninterp spec fn float_of(k: KVal) -> Option<f64>;
    pub open spec fn string_of(k: KVal) -> Option<Seq<char>> {
        match k { KVal::Bit(_) => Some(Seq::empty()), KVal::Str16(s) => Some(s@), KVal::Str256(s) => Some(s@), KVal::BigStr(s) => Some(s@), _ => None }
    }
    pub open spec fn stands(k: KVal, t: T) -> bool {
        match t {
            T::B(b) => bool_of(k) == Some(b),
            T::I(i) => int_of(k) == Some(i),
            T::F(f) => float_of(k) == Some(f),
            T::S(s) => string_of(k) == Some(s),
            T::W(w) => match k { KVal::Binary8(v) => v@ =~= w, _ => false },
            T::Y(y) => match k { KVal::Binary(v) => v@ == y, KVal::BinaryArc(v) => v@ == y, _ => false },
        }
    }
    /// the strings are short enough for their kinds (what the codec asks for)
    pub open spec fn short(k: KVal) -> bool {
        match k { KVal::Str16(s) => encode_utf8(s@).len() < 16, KVal::Str256(s) => encode_utf8(s@).len() < 256, _ => true }
    }
    // ------------------------------------------------------------------ values one after another
    pub open spec fn wrote(a: Seq<KVal>, b: Seq<KVal>, t: Seq<T>) -> bool {
        &&& b.len() == a.len() + t.len()
        &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
        &&& forall|i: int| a.len() <= i < b.len() ==> stands(#[trigger] b[i], t[i - a.len()]) && short(b[i])
    }
    pub open spec fn starts(a: Seq<KVal>, t: Seq<T>) -> bool {
        t.len() <= a.len() && forall|i: int| 0 <= i < t.len() ==> stands(#[trigger] a[i], t[i]) && !(a[i] is BinaryArc)
    }
