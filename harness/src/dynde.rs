//! Types chosen at run time, deserialized the way the types of the standard
//! library and derived ones are.

use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, Error as _, IgnoredAny, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Any,
    Ignored,
    Bool,
    U8,
    U16,
    U32,
    U64,
    U128,
    I8,
    I16,
    I32,
    I64,
    I128,
    F32,
    F64,
    Char,
    /// `&str`
    Str,
    String,
    /// `&[u8]`
    Bytes,
    ByteBuf,
    Unit,
    UnitStruct,
    Option(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(Box<Ty>, Box<Ty>),
    /// A map of which only so many entries are asked for.
    First(usize, Box<Ty>, Box<Ty>),
    Struct(&'static [&'static str], Vec<Ty>),
    /// Unit variants.
    Enum(&'static [&'static str]),
}

#[derive(Clone, PartialEq)]
pub enum Out {
    Ignored,
    Bool(bool),
    Unsigned(u128),
    /// Less than zero.
    Negative(i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Out>),
    Newtype(Box<Out>),
    Seq(Vec<Out>),
    Map(Vec<(Out, Out)>),
    Struct(Vec<Out>),
    Variant(usize),
}

impl fmt::Debug for Out {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Out::Ignored => f.write_str("_"),
            Out::Bool(x) => x.fmt(f),
            Out::Unsigned(x) => x.fmt(f),
            Out::Negative(x) => x.fmt(f),
            Out::F32(x) => write!(f, "{:?}f32", f32::from_bits(*x)),
            Out::F64(x) => write!(f, "{:?}f64", f64::from_bits(*x)),
            Out::Char(x) => x.fmt(f),
            Out::Str(x) => x.fmt(f),
            Out::Bytes(x) => write!(f, "b{:?}", bstr::BStr::new(x)),
            Out::Unit => f.write_str("()"),
            Out::None => f.write_str("None"),
            Out::Some(x) => write!(f, "Some({x:?})"),
            Out::Newtype(x) => write!(f, "Newtype({x:?})"),
            Out::Seq(x) => x.fmt(f),
            Out::Map(x) => f.debug_map().entries(x.iter().map(|(a, b)| (a, b))).finish(),
            Out::Struct(x) => write!(f, "Struct{x:?}"),
            Out::Variant(x) => write!(f, "Variant({x})"),
        }
    }
}

thread_local! {
    static NAMES: RefCell<(HashMap<String, &'static str>, HashMap<Vec<&'static str>, &'static [&'static str]>)> = RefCell::default();
}

/// Names of fields have to live forever; there are not many of them.
pub fn names(v: &[String]) -> &'static [&'static str] {
    NAMES.with(|n| {
        let (one, all) = &mut *n.borrow_mut();
        let v: Vec<&'static str> = v.iter().map(|s| *one.entry(s.clone()).or_insert_with(|| Box::leak(s.clone().into_boxed_str()))).collect();
        *all.entry(v.clone()).or_insert_with(|| Box::leak(v.into_boxed_slice()))
    })
}

fn int(v: i128) -> Out {
    if v < 0 {
        Out::Negative(v)
    } else {
        Out::Unsigned(v as u128)
    }
}

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const STOPPED: &str = "the type has stopped";

/// Run with types that fail once this much was asked of them; with what is
/// left in the end.
pub fn failing<T>(after: u64, f: impl FnOnce() -> T) -> (T, u64) {
    LEFT.with(|l| l.set(after));
    let t = f();
    (t, LEFT.with(|l| l.replace(u64::MAX)))
}

fn spend<E: de::Error>() -> Result<(), E> {
    LEFT.with(|l| {
        let left = l.get();
        if left == 0 {
            return Err(E::custom(STOPPED));
        }
        l.set(left - 1);
        Ok(())
    })
}

impl<'de> DeserializeSeed<'de> for &Ty {
    type Value = Out;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        spend()?;
        let v = V(self);
        match self {
            Ty::Any => d.deserialize_any(v),
            Ty::Ignored => d.deserialize_ignored_any(v),
            Ty::Bool => d.deserialize_bool(v),
            Ty::U8 => d.deserialize_u8(v),
            Ty::U16 => d.deserialize_u16(v),
            Ty::U32 => d.deserialize_u32(v),
            Ty::U64 => d.deserialize_u64(v),
            Ty::U128 => d.deserialize_u128(v),
            Ty::I8 => d.deserialize_i8(v),
            Ty::I16 => d.deserialize_i16(v),
            Ty::I32 => d.deserialize_i32(v),
            Ty::I64 => d.deserialize_i64(v),
            Ty::I128 => d.deserialize_i128(v),
            Ty::F32 => d.deserialize_f32(v),
            Ty::F64 => d.deserialize_f64(v),
            Ty::Char => d.deserialize_char(v),
            Ty::Str => d.deserialize_str(v),
            Ty::String => d.deserialize_string(v),
            Ty::Bytes => d.deserialize_bytes(v),
            Ty::ByteBuf => d.deserialize_byte_buf(v),
            Ty::Unit => d.deserialize_unit(v),
            Ty::UnitStruct => d.deserialize_unit_struct("UnitStruct", v),
            Ty::Option(_) => d.deserialize_option(v),
            Ty::Newtype(_) => d.deserialize_newtype_struct("Newtype", v),
            Ty::Seq(_) => d.deserialize_seq(v),
            Ty::Tuple(t) => d.deserialize_tuple(t.len(), v),
            Ty::TupleStruct(t) => d.deserialize_tuple_struct("TupleStruct", t.len(), v),
            Ty::Map(..) | Ty::First(..) => d.deserialize_map(v),
            Ty::Struct(f, _) => d.deserialize_struct("Struct", f, v),
            Ty::Enum(n) => d.deserialize_enum("Enum", n, v),
        }
    }
}

struct V<'a>(&'a Ty);

impl V<'_> {
    fn whole<E: de::Error>(&self, o: Out, u: Unexpected<'_>) -> Result<Out, E> {
        let fits = match (&o, self.0) {
            (Out::Unsigned(x), Ty::U8) => u8::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::U16) => u16::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::U32) => u32::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::U64) => u64::try_from(*x).is_ok(),
            (Out::Unsigned(_), Ty::U128) => true,
            (Out::Unsigned(x), Ty::I8) => i8::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::I16) => i16::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::I32) => i32::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::I64) => i64::try_from(*x).is_ok(),
            (Out::Unsigned(x), Ty::I128) => i128::try_from(*x).is_ok(),
            (Out::Negative(x), Ty::I8) => i8::try_from(*x).is_ok(),
            (Out::Negative(x), Ty::I16) => i16::try_from(*x).is_ok(),
            (Out::Negative(x), Ty::I32) => i32::try_from(*x).is_ok(),
            (Out::Negative(x), Ty::I64) => i64::try_from(*x).is_ok(),
            (Out::Negative(_), Ty::I128) => true,
            (_, Ty::Any) => return Ok(o),
            (_, Ty::Ignored) => return Ok(Out::Ignored),
            (Out::Unsigned(x), Ty::F32) => return Ok(Out::F32((*x as f32).to_bits())),
            (Out::Negative(x), Ty::F32) => return Ok(Out::F32((*x as f32).to_bits())),
            (Out::Unsigned(x), Ty::F64) => return Ok(Out::F64((*x as f64).to_bits())),
            (Out::Negative(x), Ty::F64) => return Ok(Out::F64((*x as f64).to_bits())),
            _ => false,
        };
        if fits {
            Ok(o)
        } else {
            Err(E::invalid_value(u, self))
        }
    }
    fn text<E: de::Error>(&self, s: &str, borrowed: bool) -> Result<Out, E> {
        match self.0 {
            Ty::Any | Ty::String => Ok(Out::Str(s.into())),
            Ty::Ignored => Ok(Out::Ignored),
            Ty::Str if borrowed => Ok(Out::Str(s.into())),
            Ty::Bytes if borrowed => Ok(Out::Bytes(s.into())),
            Ty::ByteBuf => Ok(Out::Bytes(s.into())),
            Ty::Char => {
                let mut c = s.chars();
                match (c.next(), c.next()) {
                    (Some(c), None) => Ok(Out::Char(c)),
                    _ => Err(E::invalid_value(Unexpected::Str(s), self)),
                }
            }
            _ => Err(E::invalid_type(Unexpected::Str(s), self)),
        }
    }
    fn raw<E: de::Error>(&self, s: &[u8], borrowed: bool) -> Result<Out, E> {
        match self.0 {
            Ty::Any | Ty::ByteBuf => Ok(Out::Bytes(s.into())),
            Ty::Ignored => Ok(Out::Ignored),
            Ty::Bytes if borrowed => Ok(Out::Bytes(s.into())),
            Ty::String => self.utf8(s),
            Ty::Str if borrowed => self.utf8(s),
            _ => Err(E::invalid_type(Unexpected::Bytes(s), self)),
        }
    }
    fn utf8<E: de::Error>(&self, s: &[u8]) -> Result<Out, E> {
        std::str::from_utf8(s).map(|s| Out::Str(s.into())).map_err(|_| E::invalid_value(Unexpected::Bytes(s), self))
    }
}

macro_rules! visit_int {
    ($($m:ident $t:ty, $x:ident => $o:expr;)*) => { $(
        fn $m<E: de::Error>(self, $x: $t) -> Result<Out, E> {
            self.whole($o, Unexpected::Other("integer"))
        }
    )* };
}

impl<'de> Visitor<'de> for V<'_> {
    type Value = Out;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Out, E> {
        match self.0 {
            Ty::Any | Ty::Bool => Ok(Out::Bool(v)),
            Ty::Ignored => Ok(Out::Ignored),
            _ => Err(E::invalid_type(Unexpected::Bool(v), &self)),
        }
    }
    visit_int! {
        visit_u8 u8, x => Out::Unsigned(x.into());
        visit_u16 u16, x => Out::Unsigned(x.into());
        visit_u32 u32, x => Out::Unsigned(x.into());
        visit_u64 u64, x => Out::Unsigned(x.into());
        visit_u128 u128, x => Out::Unsigned(x);
        visit_i8 i8, x => int(x.into());
        visit_i16 i16, x => int(x.into());
        visit_i32 i32, x => int(x.into());
        visit_i64 i64, x => int(x.into());
        visit_i128 i128, x => int(x);
    }
    fn visit_f32<E: de::Error>(self, v: f32) -> Result<Out, E> {
        match self.0 {
            Ty::Any | Ty::F32 => Ok(Out::F32(v.to_bits())),
            Ty::F64 => Ok(Out::F64(f64::from(v).to_bits())),
            Ty::Ignored => Ok(Out::Ignored),
            _ => Err(E::invalid_type(Unexpected::Float(v.into()), &self)),
        }
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Out, E> {
        match self.0 {
            Ty::Any | Ty::F64 => Ok(Out::F64(v.to_bits())),
            Ty::F32 => Ok(Out::F32((v as f32).to_bits())),
            Ty::Ignored => Ok(Out::Ignored),
            _ => Err(E::invalid_type(Unexpected::Float(v), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Out, E> {
        self.text(v, false)
    }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<Out, E> {
        self.text(v, true)
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Out, E> {
        self.raw(v, false)
    }
    fn visit_borrowed_bytes<E: de::Error>(self, v: &'de [u8]) -> Result<Out, E> {
        self.raw(v, true)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Out, E> {
        match self.0 {
            Ty::Any | Ty::Unit | Ty::UnitStruct => Ok(Out::Unit),
            Ty::Option(_) => Ok(Out::None),
            Ty::Ignored => Ok(Out::Ignored),
            _ => Err(E::invalid_type(Unexpected::Unit, &self)),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Out, E> {
        match self.0 {
            Ty::Any => Ok(Out::Unit),
            Ty::Option(_) => Ok(Out::None),
            Ty::Ignored => Ok(Out::Ignored),
            _ => Err(E::invalid_type(Unexpected::Option, &self)),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        match self.0 {
            Ty::Any => Ty::Any.deserialize(d),
            Ty::Option(t) => Ok(Out::Some(Box::new(t.deserialize(d)?))),
            Ty::Ignored => Ty::Ignored.deserialize(d),
            _ => Err(D::Error::invalid_type(Unexpected::Option, &self)),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Out, D::Error> {
        match self.0 {
            Ty::Newtype(t) => Ok(Out::Newtype(Box::new(t.deserialize(d)?))),
            Ty::Any => Ty::Any.deserialize(d),
            Ty::Ignored => Ty::Ignored.deserialize(d),
            _ => Err(D::Error::invalid_type(Unexpected::NewtypeStruct, &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        let some = |t: &Ty, a: &mut A| a.next_element_seed(t);
        match self.0 {
            Ty::Any | Ty::Seq(_) => {
                let t = if let Ty::Seq(t) = self.0 { t } else { &Ty::Any };
                let mut out = Vec::new();
                while let Some(x) = some(t, &mut a)? {
                    out.push(x);
                }
                Ok(Out::Seq(out))
            }
            Ty::Ignored => {
                while a.next_element::<IgnoredAny>()?.is_some() {}
                Ok(Out::Ignored)
            }
            Ty::Tuple(t) | Ty::TupleStruct(t) | Ty::Struct(_, t) => {
                let mut out = Vec::new();
                for (i, t) in t.iter().enumerate() {
                    match some(t, &mut a)? {
                        Some(x) => out.push(x),
                        None => return Err(A::Error::invalid_length(i, &self)),
                    }
                }
                Ok(if let Ty::Struct(..) = self.0 { Out::Struct(out) } else { Out::Seq(out) })
            }
            Ty::Newtype(t) => match some(t, &mut a)? {
                Some(x) => Ok(Out::Newtype(Box::new(x))),
                None => Err(A::Error::invalid_length(0, &self)),
            },
            _ => Err(A::Error::invalid_type(Unexpected::Seq, &self)),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Out, A::Error> {
        match self.0 {
            Ty::Any | Ty::Map(..) => {
                let (k, v) = if let Ty::Map(k, v) = self.0 { (&**k, &**v) } else { (&Ty::Any, &Ty::Any) };
                let mut out = Vec::new();
                while let Some(k) = a.next_key_seed(k)? {
                    out.push((k, a.next_value_seed(v)?));
                }
                Ok(Out::Map(out))
            }
            Ty::First(n, k, v) => {
                let mut out = Vec::new();
                while out.len() < *n {
                    let Some(k) = a.next_key_seed(&**k)? else { break };
                    out.push((k, a.next_value_seed(&**v)?));
                }
                Ok(Out::Map(out))
            }
            Ty::Ignored => {
                while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
                Ok(Out::Ignored)
            }
            Ty::Struct(names, t) => {
                let mut out: Vec<Option<Out>> = vec![None; t.len()];
                while let Some(i) = a.next_key_seed(Name(names, true))? {
                    match t.get(i) {
                        Some(_) if out[i].is_some() => return Err(A::Error::duplicate_field(names[i])),
                        Some(t) => out[i] = Some(a.next_value_seed(t)?),
                        None => {
                            a.next_value::<IgnoredAny>()?;
                        }
                    }
                }
                let mut all = Vec::new();
                for (i, o) in out.into_iter().enumerate() {
                    match o {
                        Some(o) => all.push(o),
                        None if matches!(t[i], Ty::Option(_)) => all.push(Out::None),
                        None => return Err(A::Error::missing_field(names[i])),
                    }
                }
                Ok(Out::Struct(all))
            }
            _ => Err(A::Error::invalid_type(Unexpected::Map, &self)),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Out, A::Error> {
        match self.0 {
            Ty::Enum(n) => {
                let (i, v) = a.variant_seed(Name(n, false))?;
                v.unit_variant()?;
                Ok(Out::Variant(i))
            }
            _ => Err(A::Error::invalid_type(Unexpected::Enum, &self)),
        }
    }
}

/// The name of a field or a variant; other fields are allowed.
struct Name(&'static [&'static str], bool);

impl<'de> DeserializeSeed<'de> for Name {
    type Value = usize;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<usize, D::Error> {
        spend()?;
        d.deserialize_identifier(self)
    }
}

impl<'de> Visitor<'de> for Name {
    type Value = usize;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "one of {:?}", self.0)
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<usize, E> {
        let n = self.0.len();
        match usize::try_from(v) {
            Ok(i) if i < n => Ok(i),
            _ if self.1 => Ok(n),
            _ => Err(E::invalid_value(Unexpected::Unsigned(v), &self)),
        }
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<usize, E> {
        match self.0.iter().position(|n| *n == v) {
            Some(i) => Ok(i),
            None if self.1 => Ok(self.0.len()),
            None => Err(E::unknown_variant(v, self.0)),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<usize, E> {
        match self.0.iter().position(|n| n.as_bytes() == v) {
            Some(i) => Ok(i),
            None if self.1 => Ok(self.0.len()),
            None => Err(E::unknown_variant(&String::from_utf8_lossy(v), self.0)),
        }
    }
}
