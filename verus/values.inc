    // TRUSTED: as_ref of Arc and Box
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Arc<T, A> as AsRef<T>>::as_ref] (a: &Arc<T, A>) -> (r: &T)
        ensures r == &**a;
    pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<Box<T, A> as AsRef<T>>::as_ref] (a: &Box<T, A>) -> (r: &T)
        ensures r == &**a;
    // ------------------------------------------------------------------ values
    #[derive(PartialEq, Eq, Clone, Copy)]
//@ item dochy_core/src/imp/structs/var_type.rs enum VarType
    #[derive(PartialEq, Eq, Clone, Copy)]
//@ item dochy_core/src/imp/structs/param_type.rs enum ParamType
//@ item dochy_core/src/imp/structs/qv.rs enum QvType
//@ item dochy_core/src/imp/structs/qv.rs enum Qv
//@ item dochy_core/src/imp/structs/rust_string.rs struct RustString
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustIntArray
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustFloatArray
//@ item dochy_core/src/imp/structs/rust_array.rs struct RustBinary
//@ item dochy_core/src/imp/structs/rust_param.rs enum RustParam

    /// a value as it can be read: its type and its content
    pub enum Content { Null, Undefined, Bool(bool), Int(i64), Float(f64), Str(Seq<char>), Ints(Seq<i64>), Floats(Seq<f64>), Bytes(Seq<u8>) }
    pub struct Value { pub ty: ParamType, pub c: Content }
    pub open spec fn type_of(p: RustParam) -> ParamType {
        match p {
            RustParam::Bool(_) => ParamType::Bool, RustParam::Float(_) => ParamType::Float, RustParam::Int(_) => ParamType::Int, RustParam::String(_) => ParamType::String,
            RustParam::IntArray(_) => ParamType::IntArray, RustParam::FloatArray(_) => ParamType::FloatArray, RustParam::Binary(_) => ParamType::Binary,
        }
    }
    pub open spec fn content_of<T>(q: Qv<T>, f: spec_fn(T) -> Content) -> Content {
        match q { Qv::Val(v) => f(v), Qv::Null => Content::Null, Qv::Undefined => Content::Undefined }
    }
    pub open spec fn value_of(p: RustParam) -> Value {
        Value {
            ty: type_of(p),
            c: match p {
                RustParam::Bool(q) => content_of(q, |v: bool| Content::Bool(v)),
                RustParam::Float(q) => content_of(q, |v: f64| Content::Float(v)),
                RustParam::Int(q) => content_of(q, |v: i64| Content::Int(v)),
                RustParam::String(q) => content_of(q, |v: RustString| Content::Str(v.str@)),
                RustParam::IntArray(q) => content_of(q, |v: RustIntArray| Content::Ints(v.b@)),
                RustParam::FloatArray(q) => content_of(q, |v: RustFloatArray| Content::Floats(v.b@)),
                RustParam::Binary(q) => content_of(q, |v: RustBinary| Content::Bytes(v.b@)),
            },
        }
    }
    /// a reference: the id it names
    pub enum Id { Null, Undefined, Val(Seq<char>) }
    pub open spec fn id_of(q: Qv<String>) -> Id {
        match q { Qv::Val(s) => Id::Val(s@), Qv::Null => Id::Null, Qv::Undefined => Id::Undefined }
    }
    pub open spec fn state_of(p: RustParam) -> QvType {
        match value_of(p).c { Content::Null => QvType::Null, Content::Undefined => QvType::Undefined, _ => QvType::Val }
    }
    pub open spec fn state<T>(q: Qv<T>) -> QvType {
        match q { Qv::Val(_) => QvType::Val, Qv::Null => QvType::Null, Qv::Undefined => QvType::Undefined }
    }
    pub open spec fn admits(vt: VarType, null: bool, undefined: bool) -> bool {
        &&& null ==> vt == VarType::Nullable || vt == VarType::UndefNullable
        &&& undefined ==> vt == VarType::Undefiable || vt == VarType::UndefNullable
    }
    /// a value of the type, with content of the type
    pub open spec fn typed(v: Value) -> bool {
        match v.c {
            Content::Null => true, Content::Undefined => true, Content::Bool(_) => v.ty == ParamType::Bool, Content::Int(_) => v.ty == ParamType::Int, Content::Float(_) => v.ty == ParamType::Float,
            Content::Str(_) => v.ty == ParamType::String, Content::Ints(_) => v.ty == ParamType::IntArray, Content::Floats(_) => v.ty == ParamType::FloatArray, Content::Bytes(_) => v.ty == ParamType::Binary,
        }
    }
    impl<T> Qv<T> {
//@ fn dochy_core/src/imp/structs/qv.rs Qv::qv_type -> r
            ensures r == state(*self),
//@ end
//@ fn dochy_core/src/imp/structs/qv.rs Qv::value -> r
            ensures r == (match *self { Qv::Val(v) => Some(&v), _ => None }),
//@ end
    }
    impl RustString {
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::new -> r
            ensures *r.str == s,
//@ end
//@ fn dochy_core/src/imp/structs/rust_string.rs RustString::str -> r
            ensures r@ == self.str@,
//@ end
        // TRUSTED: to_string, which the standard library derives from Display (fmt prints the text itself)
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String)
            ensures r@ == self.str@,
        { unimplemented!() }
    }
    impl RustIntArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::new -> r
            ensures *r.b == b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustIntArray::vec -> r
            ensures *r == *self.b,
//@ end
    }
    impl RustFloatArray {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustFloatArray::new -> r
            ensures *r.b == b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustFloatArray::vec -> r
            ensures *r == *self.b,
//@ end
    }
    impl RustBinary {
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::new -> r
            ensures *r.b == b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::vec -> r
            ensures *r == *self.b,
//@ end
//@ fn dochy_core/src/imp/structs/rust_array.rs RustBinary::arc -> r
            ensures *r == self.b,
//@ end
    }
    impl RustParam {
//@ fn dochy_core/src/imp/structs/rust_param.rs RustParam::qv_type -> r
            ensures r == state_of(*self),
//@ end
    }
