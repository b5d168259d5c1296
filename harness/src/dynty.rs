//! Request and response types whose shape is data: one compiled type stands for every structure
//! of path, query, header and status a user could derive. The calls made to the serde traits are
//! those derived code makes.
use crate::app::read_body_by_mode;
use htrpc::{BodyReader, ReadBody, RpcRequest, RpcResponse};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{SerializeMap, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, Serializer};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    F32,
    F64,
    Str,
    /// A byte string (`serde_bytes`).
    Bytes,
    /// A unit structure of this name.
    Const(&'static str),
    /// `()`
    Unit,
    Opt(Box<Ty>),
    New(Box<Ty>),
}
pub const SCALARS: &[Ty] = &[
    Ty::Bool,
    Ty::I8,
    Ty::I16,
    Ty::I32,
    Ty::I64,
    Ty::U8,
    Ty::U16,
    Ty::U32,
    Ty::U64,
    Ty::F32,
    Ty::F64,
];
#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Const(&'static str),
    Unit,
    None(Ty),
    Some(Box<V>),
    New(Box<V>),
}
pub fn s(x: &str) -> V {
    V::Str(x.to_string())
}
pub fn some(v: V) -> V {
    V::Some(Box::new(v))
}
pub fn new(v: V) -> V {
    V::New(Box::new(v))
}
pub fn opt(t: Ty) -> Ty {
    Ty::Opt(Box::new(t))
}
impl V {
    pub fn ty(&self) -> Ty {
        match self {
            V::Bool(_) => Ty::Bool,
            V::I8(_) => Ty::I8,
            V::I16(_) => Ty::I16,
            V::I32(_) => Ty::I32,
            V::I64(_) => Ty::I64,
            V::U8(_) => Ty::U8,
            V::U16(_) => Ty::U16,
            V::U32(_) => Ty::U32,
            V::U64(_) => Ty::U64,
            V::F32(_) => Ty::F32,
            V::F64(_) => Ty::F64,
            V::Str(_) => Ty::Str,
            V::Bytes(_) => Ty::Bytes,
            V::Const(n) => Ty::Const(n),
            V::Unit => Ty::Unit,
            V::None(t) => opt(t.clone()),
            V::Some(v) => opt(v.ty()),
            V::New(v) => Ty::New(Box::new(v.ty())),
        }
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            V::Bool(v) => v.serialize(z),
            V::I8(v) => v.serialize(z),
            V::I16(v) => v.serialize(z),
            V::I32(v) => v.serialize(z),
            V::I64(v) => v.serialize(z),
            V::U8(v) => v.serialize(z),
            V::U16(v) => v.serialize(z),
            V::U32(v) => v.serialize(z),
            V::U64(v) => v.serialize(z),
            V::F32(v) => v.serialize(z),
            V::F64(v) => v.serialize(z),
            V::Str(v) => v.serialize(z),
            V::Bytes(v) => z.serialize_bytes(v),
            V::Const(n) => z.serialize_unit_struct(n),
            V::Unit => z.serialize_unit(),
            V::None(_) => z.serialize_none(),
            V::Some(v) => z.serialize_some(&**v),
            V::New(v) => z.serialize_newtype_struct("New", &**v),
        }
    }
}
impl<'de> DeserializeSeed<'de> for &Ty {
    type Value = V;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
        Ok(match self {
            Ty::Bool => V::Bool(Deserialize::deserialize(d)?),
            Ty::I8 => V::I8(Deserialize::deserialize(d)?),
            Ty::I16 => V::I16(Deserialize::deserialize(d)?),
            Ty::I32 => V::I32(Deserialize::deserialize(d)?),
            Ty::I64 => V::I64(Deserialize::deserialize(d)?),
            Ty::U8 => V::U8(Deserialize::deserialize(d)?),
            Ty::U16 => V::U16(Deserialize::deserialize(d)?),
            Ty::U32 => V::U32(Deserialize::deserialize(d)?),
            Ty::U64 => V::U64(Deserialize::deserialize(d)?),
            Ty::F32 => V::F32(Deserialize::deserialize(d)?),
            Ty::F64 => V::F64(Deserialize::deserialize(d)?),
            Ty::Str => V::Str(Deserialize::deserialize(d)?),
            Ty::Bytes => {
                struct BytesVisitor;
                impl<'de> Visitor<'de> for BytesVisitor {
                    type Value = Vec<u8>;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("bytes")
                    }
                    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Vec<u8>, E> {
                        Ok(v.to_vec())
                    }
                    fn visit_str<E: de::Error>(self, v: &str) -> Result<Vec<u8>, E> {
                        Ok(v.as_bytes().to_vec())
                    }
                }
                V::Bytes(d.deserialize_byte_buf(BytesVisitor)?)
            }
            Ty::Unit => {
                d.deserialize_unit(UnitVisitor)?;
                V::Unit
            }
            Ty::Const(n) => {
                d.deserialize_unit_struct(n, UnitVisitor)?;
                V::Const(n)
            }
            Ty::Opt(t) => {
                struct OptVisitor<'a>(&'a Ty);
                impl<'de, 'a> Visitor<'de> for OptVisitor<'a> {
                    type Value = V;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("option")
                    }
                    fn visit_unit<E: de::Error>(self) -> Result<V, E> {
                        Ok(V::None(self.0.clone()))
                    }
                    fn visit_none<E: de::Error>(self) -> Result<V, E> {
                        Ok(V::None(self.0.clone()))
                    }
                    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
                        Ok(V::Some(Box::new(self.0.deserialize(d)?)))
                    }
                }
                d.deserialize_option(OptVisitor(t))?
            }
            Ty::New(t) => {
                struct NewVisitor<'a>(&'a Ty);
                impl<'de, 'a> Visitor<'de> for NewVisitor<'a> {
                    type Value = V;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("newtype")
                    }
                    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<V, D::Error> {
                        Ok(V::New(Box::new(self.0.deserialize(d)?)))
                    }
                }
                d.deserialize_newtype_struct("New", NewVisitor(t))?
            }
        })
    }
}

struct UnitVisitor;
impl<'de> Visitor<'de> for UnitVisitor {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        Ok(())
    }
}

/// Which parts of requests and responses are wrapped in newtypes.
#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Wrap {
    pub whole: bool,
    pub path: bool,
    pub fields: bool,
}
thread_local! {
    static WRAP: std::cell::Cell<Wrap> = const { std::cell::Cell::new(Wrap { whole: false, path: false, fields: false }) };
}
/// Runs this with parts wrapped in newtypes.
pub fn with_wrap<T>(w: Wrap, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            WRAP.with(|x| x.set(Wrap::default()))
        }
    }
    let _r = Reset;
    WRAP.with(|x| x.set(w));
    f()
}
thread_local! {
    static ORDER: std::cell::Cell<[usize; 3]> = const { std::cell::Cell::new([0, 1, 2]) };
}
/// Runs this with the fields of requests (path, query, header) declared in another order; for
/// responses, the header comes before the status unless the first two are in order.
pub fn with_order<T>(o: [usize; 3], f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            ORDER.with(|x| x.set([0, 1, 2]))
        }
    }
    let _r = Reset;
    ORDER.with(|x| x.set(o));
    f()
}
fn order() -> [usize; 3] {
    ORDER.with(|o| o.get())
}
pub const ORDERS: &[[usize; 3]] = &[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
fn wrap() -> Wrap {
    WRAP.with(|w| w.get())
}
/// The serialization of something without its wrapper.
trait Bare {
    fn bare<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error>;
}
struct IsBare<'a, T: 'a>(&'a T);
impl<'a, T: Bare> Serialize for IsBare<'a, T> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        self.0.bare(z)
    }
}
fn wrapped<T: Bare, S: Serializer>(t: &T, w: bool, z: S) -> Result<S::Ok, S::Error> {
    if w {
        z.serialize_newtype_struct("W", &IsBare(t))
    } else {
        t.bare(z)
    }
}
fn unwrapped<'de, D: Deserializer<'de>, S: DeserializeSeed<'de>>(s: S, w: bool, d: D) -> Result<S::Value, D::Error> {
    struct Vis<S>(S);
    impl<'de, S: DeserializeSeed<'de>> Visitor<'de> for Vis<S> {
        type Value = S::Value;
        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("newtype")
        }
        fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<S::Value, D::Error> {
            self.0.deserialize(d)
        }
    }
    if w {
        d.deserialize_newtype_struct("W", Vis(s))
    } else {
        s.deserialize(d)
    }
}

/// Path arguments.
#[derive(Debug, Clone, PartialEq)]
pub enum Path {
    Tuple(Vec<V>),
    TupleStruct(Vec<V>),
    Unit,
    UnitStruct,
}
#[derive(Debug, Clone, PartialEq)]
pub enum PathTy {
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Unit,
    UnitStruct,
}
impl Path {
    fn ty(&self) -> PathTy {
        let tys = |v: &Vec<V>| v.iter().map(|v| v.ty()).collect();
        match self {
            Path::Tuple(v) => PathTy::Tuple(tys(v)),
            Path::TupleStruct(v) => PathTy::TupleStruct(tys(v)),
            Path::Unit => PathTy::Unit,
            Path::UnitStruct => PathTy::UnitStruct,
        }
    }
}
impl Serialize for Path {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        wrapped(self, wrap().path, z)
    }
}
impl Bare for Path {
    fn bare<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            Path::Tuple(v) => {
                let mut t = z.serialize_tuple(v.len())?;
                for v in v {
                    t.serialize_element(v)?
                }
                t.end()
            }
            Path::TupleStruct(v) => {
                let mut t = z.serialize_tuple_struct("P", v.len())?;
                for v in v {
                    t.serialize_field(v)?
                }
                t.end()
            }
            Path::Unit => z.serialize_unit(),
            Path::UnitStruct => z.serialize_unit_struct("P"),
        }
    }
}
impl<'de> DeserializeSeed<'de> for &PathTy {
    type Value = Path;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Path, D::Error> {
        unwrapped(BarePath(self), wrap().path, d)
    }
}
struct BarePath<'a>(&'a PathTy);
impl<'de, 'a> DeserializeSeed<'de> for BarePath<'a> {
    type Value = Path;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Path, D::Error> {
        struct Seq<'a>(&'a [Ty]);
        impl<'de, 'a> Visitor<'de> for Seq<'a> {
            type Value = Vec<V>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("a tuple")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Vec<V>, A::Error> {
                let mut out = Vec::new();
                for (i, t) in self.0.iter().enumerate() {
                    match a.next_element_seed(t)? {
                        Some(v) => out.push(v),
                        None => return Err(de::Error::invalid_length(i, &self)),
                    }
                }
                Ok(out)
            }
        }
        Ok(match self.0 {
            PathTy::Tuple(t) => Path::Tuple(d.deserialize_tuple(t.len(), Seq(t))?),
            PathTy::TupleStruct(t) => Path::TupleStruct(d.deserialize_tuple_struct("P", t.len(), Seq(t))?),
            PathTy::Unit => {
                d.deserialize_unit(UnitVisitor)?;
                Path::Unit
            }
            PathTy::UnitStruct => {
                d.deserialize_unit_struct("P", UnitVisitor)?;
                Path::UnitStruct
            }
        })
    }
}

/// Query or header arguments.
#[derive(Debug, Clone, PartialEq)]
pub enum Fields {
    Struct(Vec<(&'static str, V)>),
    Map(Ty, Vec<(String, V)>),
}
#[derive(Debug, Clone, PartialEq)]
pub enum FieldsTy {
    Struct(Vec<(&'static str, Ty)>, &'static [&'static str]),
    Map(Ty),
}
pub fn leak(x: &str) -> &'static str {
    static C: Mutex<Option<HashMap<String, &'static str>>> = Mutex::new(None);
    let mut c = C.lock().unwrap_or_else(|e| e.into_inner());
    c.get_or_insert_with(HashMap::new)
        .entry(x.to_string())
        .or_insert_with(|| Box::leak(x.to_string().into_boxed_str()))
}
fn leak_names(names: Vec<&'static str>) -> &'static [&'static str] {
    type C = HashMap<Vec<&'static str>, &'static [&'static str]>;
    static CACHE: Mutex<Option<C>> = Mutex::new(None);
    let mut c = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    c.get_or_insert_with(HashMap::new)
        .entry(names.clone())
        .or_insert_with(|| Box::leak(names.into_boxed_slice()))
}
impl Fields {
    pub fn map(entries: &[(&str, &str)]) -> Fields {
        let mut v: Vec<(String, V)> = entries.iter().map(|(k, v)| (k.to_string(), s(v))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        Fields::Map(Ty::Str, v)
    }
    fn ty(&self) -> FieldsTy {
        match self {
            Fields::Struct(f) => FieldsTy::strukt(f.iter().map(|(n, v)| (*n, v.ty())).collect()),
            Fields::Map(t, _) => FieldsTy::Map(t.clone()),
        }
    }
}
impl FieldsTy {
    pub fn strukt(f: Vec<(&'static str, Ty)>) -> FieldsTy {
        let names = leak_names(f.iter().map(|(n, _)| *n).collect());
        FieldsTy::Struct(f, names)
    }
}
impl Serialize for Fields {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        wrapped(self, wrap().fields, z)
    }
}
impl Bare for Fields {
    fn bare<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self {
            Fields::Struct(f) => {
                let mut t = z.serialize_struct("F", f.len())?;
                for (k, v) in f {
                    t.serialize_field(k, v)?
                }
                t.end()
            }
            Fields::Map(_, m) => {
                let mut t = z.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    t.serialize_entry(k, v)?
                }
                t.end()
            }
        }
    }
}
/// A field name out of a list, like derived code reads it.
struct Ident<'a>(&'a [&'static str]);
impl<'de, 'a> DeserializeSeed<'de> for Ident<'a> {
    type Value = Option<usize>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Option<usize>, D::Error> {
        struct Vis<'a>(&'a [&'static str]);
        impl<'de, 'a> Visitor<'de> for Vis<'a> {
            type Value = Option<usize>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("field identifier")
            }
            fn visit_str<E: de::Error>(self, v: &str) -> Result<Option<usize>, E> {
                Ok(self.0.iter().position(|n| *n == v))
            }
            fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Option<usize>, E> {
                Ok(self.0.iter().position(|n| n.as_bytes() == v))
            }
            fn visit_u64<E: de::Error>(self, v: u64) -> Result<Option<usize>, E> {
                Ok(if (v as usize) < self.0.len() { Some(v as usize) } else { None })
            }
        }
        d.deserialize_identifier(Vis(self.0))
    }
}
/// What derived code does with an absent field.
fn missing<E: de::Error>(t: &Ty, name: &'static str) -> Result<V, E> {
    match t {
        Ty::Opt(t) => Ok(V::None((**t).clone())),
        _ => Err(E::missing_field(name)),
    }
}
impl<'de> DeserializeSeed<'de> for &FieldsTy {
    type Value = Fields;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Fields, D::Error> {
        unwrapped(BareFields(self), wrap().fields, d)
    }
}
struct BareFields<'a>(&'a FieldsTy);
impl<'de, 'a> DeserializeSeed<'de> for BareFields<'a> {
    type Value = Fields;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Fields, D::Error> {
        match self.0 {
            FieldsTy::Struct(f, names) => {
                struct Vis<'a>(&'a [(&'static str, Ty)], &'static [&'static str]);
                impl<'de, 'a> Visitor<'de> for Vis<'a> {
                    type Value = Fields;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("struct")
                    }
                    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Fields, A::Error> {
                        let mut got: Vec<Option<V>> = vec![None; self.0.len()];
                        while let Some(k) = a.next_key_seed(Ident(self.1))? {
                            match k {
                                None => {
                                    let _: IgnoredAny = a.next_value()?;
                                }
                                Some(i) => {
                                    if got[i].is_some() {
                                        return Err(de::Error::duplicate_field(self.0[i].0));
                                    }
                                    got[i] = Some(a.next_value_seed(&self.0[i].1)?);
                                }
                            }
                        }
                        let mut out = Vec::new();
                        for ((n, t), v) in self.0.iter().zip(got) {
                            out.push((
                                *n,
                                match v {
                                    Some(v) => v,
                                    None => missing(t, n)?,
                                },
                            ));
                        }
                        Ok(Fields::Struct(out))
                    }
                }
                d.deserialize_struct("F", names, Vis(f, names))
            }
            FieldsTy::Map(t) => {
                struct Vis<'a>(&'a Ty);
                impl<'de, 'a> Visitor<'de> for Vis<'a> {
                    type Value = Fields;
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("map")
                    }
                    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Fields, A::Error> {
                        // like a BTreeMap
                        let mut m = std::collections::BTreeMap::new();
                        while let Some(k) = a.next_key::<String>()? {
                            let v = a.next_value_seed(self.0)?;
                            m.insert(k, v);
                        }
                        Ok(Fields::Map(self.0.clone(), m.into_iter().collect()))
                    }
                }
                d.deserialize_map(Vis(t))
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct ReqTy {
    pub path: Option<PathTy>,
    pub query: Option<FieldsTy>,
    pub header: Option<FieldsTy>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum RespTy {
    /// `struct { status: u16, header }`
    Status(Option<FieldsTy>),
    /// `struct { status: Option<u16>, header }`
    OptStatus(Option<FieldsTy>),
    /// An enum with these variants.
    Enum(Vec<(&'static str, Variant)>, &'static [&'static str]),
}
#[derive(Debug, Clone, PartialEq)]
pub enum Variant {
    Unit,
    /// `V { header }`
    Struct(Option<FieldsTy>),
    /// `V(struct { status: Option<u16>, header })`
    Newtype(Option<FieldsTy>),
}
impl RespTy {
    pub fn enums(v: Vec<(&'static str, Variant)>) -> RespTy {
        let names = leak_names(v.iter().map(|(n, _)| *n).collect());
        RespTy::Enum(v, names)
    }
}
thread_local! {
    static REQ: RefCell<Vec<Arc<ReqTy>>> = const { RefCell::new(Vec::new()) };
    static RESP: RefCell<Vec<Arc<RespTy>>> = const { RefCell::new(Vec::new()) };
}
pub fn reset() {
    REQ.with(|r| r.borrow_mut().clear());
    RESP.with(|r| r.borrow_mut().clear());
}
/// Sets the shape of the requests of slot `n`.
pub fn set_req(n: usize, t: ReqTy) {
    REQ.with(|r| {
        let mut r = r.borrow_mut();
        while r.len() <= n {
            r.push(Arc::new(ReqTy::default()));
        }
        r[n] = Arc::new(t);
    })
}
/// Sets the shape of the responses of slot `n`.
pub fn set_resp(n: usize, t: RespTy) {
    RESP.with(|r| {
        let mut r = r.borrow_mut();
        while r.len() <= n {
            r.push(Arc::new(RespTy::Status(None)));
        }
        r[n] = Arc::new(t);
    })
}

/// The request of slot `N`.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Req<const N: usize> {
    pub path: Option<Path>,
    pub query: Option<Fields>,
    pub header: Option<Fields>,
    pub body: Vec<u8>,
}
impl<const N: usize> Req<N> {
    pub fn ty(&self) -> ReqTy {
        ReqTy {
            path: self.path.as_ref().map(|p| p.ty()),
            query: self.query.as_ref().map(|p| p.ty()),
            header: self.header.as_ref().map(|p| p.ty()),
        }
    }
}
impl<const N: usize> Serialize for Req<N> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        wrapped(self, wrap().whole, z)
    }
}
impl<const N: usize> Bare for Req<N> {
    fn bare<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        let n = self.path.is_some() as usize + self.query.is_some() as usize + self.header.is_some() as usize;
        let mut t = z.serialize_struct("Req", n)?;
        for i in order() {
            match (i, &self.path, &self.query, &self.header) {
                (0, Some(p), _, _) => t.serialize_field("path", p)?,
                (1, _, Some(p), _) => t.serialize_field("query", p)?,
                (2, _, _, Some(p)) => t.serialize_field("header", p)?,
                _ => {}
            }
        }
        t.end()
    }
}
impl<'de, const N: usize> Deserialize<'de> for Req<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unwrapped(BareReq::<N>, wrap().whole, d)
    }
}
struct BareReq<const N: usize>;
impl<'de, const N: usize> DeserializeSeed<'de> for BareReq<N> {
    type Value = Req<N>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Req<N>, D::Error> {
        struct Vis<const N: usize>(Arc<ReqTy>);
        impl<'de, const N: usize> Visitor<'de> for Vis<N> {
            type Value = Req<N>;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("struct")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Req<N>, A::Error> {
                let mut r = Req::default();
                while let Some(k) = a.next_key_seed(Ident(&["path", "query", "header"]))? {
                    match k {
                        Some(0) if self.0.path.is_some() => {
                            r.path = Some(a.next_value_seed(self.0.path.as_ref().unwrap())?)
                        }
                        Some(1) if self.0.query.is_some() => {
                            r.query = Some(a.next_value_seed(self.0.query.as_ref().unwrap())?)
                        }
                        Some(2) if self.0.header.is_some() => {
                            r.header = Some(a.next_value_seed(self.0.header.as_ref().unwrap())?)
                        }
                        _ => {
                            let _: IgnoredAny = a.next_value()?;
                        }
                    }
                }
                if r.path.is_some() != self.0.path.is_some() {
                    return Err(de::Error::missing_field("path"));
                }
                if r.query.is_some() != self.0.query.is_some() {
                    return Err(de::Error::missing_field("query"));
                }
                if r.header.is_some() != self.0.header.is_some() {
                    return Err(de::Error::missing_field("header"));
                }
                Ok(r)
            }
        }
        let t = REQ.with(|r| r.borrow().get(N).cloned()).unwrap_or_default();
        let mut names = Vec::new();
        for i in order() {
            match i {
                0 if t.path.is_some() => names.push("path"),
                1 if t.query.is_some() => names.push("query"),
                2 if t.header.is_some() => names.push("header"),
                _ => {}
            }
        }
        d.deserialize_struct("Req", leak_names(names), Vis(t))
    }
}
impl<const N: usize> RpcRequest for Req<N> {
    fn body(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.body)
    }
    fn read_body(self, body: BodyReader) -> ReadBody<Self> {
        read_body_by_mode(self, body, |t: &mut Self, b| t.body = b)
    }
}

/// The response of slot `N`.
#[derive(Debug, Clone, PartialEq)]
pub struct Resp<const N: usize> {
    pub kind: RespKind,
    pub header: Option<Fields>,
    pub body: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum RespKind {
    Status(u16),
    OptStatus(Option<u16>),
    Unit(&'static str),
    Struct(&'static str),
    Newtype(&'static str, Option<u16>),
}
impl<const N: usize> Resp<N> {
    pub fn status(code: u16, body: &[u8]) -> Self {
        Resp {
            kind: RespKind::Status(code),
            header: None,
            body: body.to_vec(),
        }
    }
}
fn variant_index(name: &str) -> u32 {
    name.len() as u32
}
struct Inner<'a>(Option<u16>, &'a Option<Fields>);
impl<'a> Serialize for Inner<'a> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        let mut t = z.serialize_struct("R", 1 + self.1.is_some() as usize)?;
        t.serialize_field("status", &self.0)?;
        if let Some(h) = self.1 {
            t.serialize_field("header", h)?
        }
        t.end()
    }
}
impl<const N: usize> Serialize for Resp<N> {
    fn serialize<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        wrapped(self, wrap().whole, z)
    }
}
impl<const N: usize> Bare for Resp<N> {
    fn bare<S: Serializer>(&self, z: S) -> Result<S::Ok, S::Error> {
        match self.kind {
            RespKind::Status(c) => {
                let mut t = z.serialize_struct("R", 1 + self.header.is_some() as usize)?;
                let first = order()[0] > order()[1];
                if let (Some(h), true) = (&self.header, first) {
                    t.serialize_field("header", h)?
                }
                t.serialize_field("status", &c)?;
                if let (Some(h), false) = (&self.header, first) {
                    t.serialize_field("header", h)?
                }
                t.end()
            }
            RespKind::OptStatus(c) => Inner(c, &self.header).serialize(z),
            RespKind::Unit(n) => z.serialize_unit_variant("R", variant_index(n), n),
            RespKind::Struct(n) => {
                let mut t = z.serialize_struct_variant("R", variant_index(n), n, self.header.is_some() as usize)?;
                if let Some(h) = &self.header {
                    t.serialize_field("header", h)?
                }
                t.end()
            }
            RespKind::Newtype(n, c) => z.serialize_newtype_variant("R", variant_index(n), n, &Inner(c, &self.header)),
        }
    }
}
/// Reads `{status, header}`; `status` may be required, optional or not declared.
#[derive(Clone, Copy, PartialEq)]
enum St {
    Required,
    Optional,
    Absent,
}
struct RVis<'a>(St, Option<&'a FieldsTy>);
impl<'de, 'a> Visitor<'de> for RVis<'a> {
    type Value = (Option<u16>, Option<Fields>);
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("struct")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut status = None;
        let mut header = None;
        while let Some(k) = a.next_key_seed(Ident(&["status", "header"]))? {
            match k {
                Some(0) if self.0 == St::Required => status = Some(a.next_value::<u16>()?),
                Some(0) if self.0 == St::Optional => status = a.next_value::<Option<u16>>()?,
                Some(1) if self.1.is_some() => header = Some(a.next_value_seed(self.1.unwrap())?),
                _ => {
                    let _: IgnoredAny = a.next_value()?;
                }
            }
        }
        if self.0 == St::Required && status.is_none() {
            return Err(de::Error::missing_field("status"));
        }
        if self.1.is_some() && header.is_none() {
            return Err(de::Error::missing_field("header"));
        }
        Ok((status, header))
    }
}
fn field_names(st: St, h: bool) -> &'static [&'static str] {
    match (st, h) {
        (St::Absent, false) => &[],
        (St::Absent, true) => &["header"],
        (_, false) => &["status"],
        (_, true) => &["status", "header"],
    }
}
struct NewSeed<'a>(Option<&'a FieldsTy>);
impl<'de, 'a> DeserializeSeed<'de> for NewSeed<'a> {
    type Value = (Option<u16>, Option<Fields>);
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_struct("R", field_names(St::Optional, self.0.is_some()), RVis(St::Optional, self.0))
    }
}
impl<'de, const N: usize> Deserialize<'de> for Resp<N> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        unwrapped(BareResp::<N>, wrap().whole, d)
    }
}
struct BareResp<const N: usize>;
impl<'de, const N: usize> DeserializeSeed<'de> for BareResp<N> {
    type Value = Resp<N>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Resp<N>, D::Error> {
        let t = RESP
            .with(|r| r.borrow().get(N).cloned())
            .unwrap_or_else(|| Arc::new(RespTy::Status(None)));
        let body = Vec::new();
        match &*t {
            RespTy::Status(h) => {
                let (st, header) =
                    d.deserialize_struct("R", field_names(St::Required, h.is_some()), RVis(St::Required, h.as_ref()))?;
                Ok(Resp {
                    kind: RespKind::Status(st.expect("required")),
                    header,
                    body,
                })
            }
            RespTy::OptStatus(h) => {
                let (st, header) =
                    d.deserialize_struct("R", field_names(St::Optional, h.is_some()), RVis(St::Optional, h.as_ref()))?;
                Ok(Resp {
                    kind: RespKind::OptStatus(st),
                    header,
                    body,
                })
            }
            RespTy::Enum(vs, names) => {
                struct EVis<'a>(&'a [(&'static str, Variant)], &'static [&'static str]);
                impl<'de, 'a> Visitor<'de> for EVis<'a> {
                    type Value = (RespKind, Option<Fields>);
                    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                        f.write_str("enum")
                    }
                    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Self::Value, A::Error> {
                        let (i, v) = a.variant_seed(Ident(self.1))?;
                        let i = match i {
                            None => return Err(de::Error::unknown_variant("?", self.1)),
                            Some(i) => i,
                        };
                        let name = self.0[i].0;
                        match &self.0[i].1 {
                            Variant::Unit => {
                                v.unit_variant()?;
                                Ok((RespKind::Unit(name), None))
                            }
                            Variant::Struct(h) => {
                                let (_, h) = v.struct_variant(
                                    field_names(St::Absent, h.is_some()),
                                    RVis(St::Absent, h.as_ref()),
                                )?;
                                Ok((RespKind::Struct(name), h))
                            }
                            Variant::Newtype(h) => {
                                let (st, h) = v.newtype_variant_seed(NewSeed(h.as_ref()))?;
                                Ok((RespKind::Newtype(name, st), h))
                            }
                        }
                    }
                }
                let (kind, header) = d.deserialize_enum("R", names, EVis(vs, names))?;
                Ok(Resp { kind, header, body })
            }
        }
    }
}
impl<const N: usize> RpcResponse for Resp<N> {
    fn body(&mut self) -> Box<dyn AsRef<[u8]> + Send + 'static> {
        Box::new(std::mem::take(&mut self.body))
    }
    fn set_body(&mut self, body: Vec<u8>) {
        self.body = body
    }
}
