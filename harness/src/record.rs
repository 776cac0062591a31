//! A serializer which records what it is given.

use serde::ser::{self, Serialize};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    None,
    Unit,
    Bool(bool),
    Unsigned(u128),
    Signed(i128),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Option<usize>, Vec<Rec>),
    Map(Option<usize>, Vec<(Rec, Rec)>),
    /// Something which has no business here.
    Other(&'static str),
}

#[derive(Debug)]
pub struct Oops(String);

impl fmt::Display for Oops {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl std::error::Error for Oops {}
impl ser::Error for Oops {
    fn custom<T: fmt::Display>(t: T) -> Self {
        Oops(t.to_string())
    }
}

pub fn record<T: Serialize + ?Sized>(t: &T) -> Result<Rec, Oops> {
    LEFT.with(|l| l.set(u64::MAX));
    t.serialize(Recorder)
}

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Record with a serializer that fails once this much was asked of it; with
/// what is left in the end.
pub fn record_failing<T: Serialize + ?Sized>(t: &T, after: u64) -> (Result<Rec, Oops>, u64) {
    LEFT.with(|l| l.set(after));
    let r = t.serialize(Recorder);
    (r, LEFT.with(|l| l.replace(u64::MAX)))
}

pub const STOPPED: &str = "the serializer has stopped";

fn spend() -> Result<(), Oops> {
    LEFT.with(|l| {
        let left = l.get();
        if left == 0 {
            return Err(Oops(STOPPED.into()));
        }
        l.set(left - 1);
        Ok(())
    })
}

struct Recorder;

pub struct Seq(Option<usize>, Vec<Rec>);
pub struct Map(Option<usize>, Vec<(Rec, Rec)>, Option<Rec>);

macro_rules! nums {
    ($($m:ident $t:ty => $v:ident as $w:ty),*) => { $( fn $m(self, v: $t) -> Result<Rec, Oops> { spend()?; Ok(Rec::$v(v as $w)) } )* };
}

impl ser::Serializer for Recorder {
    type Ok = Rec;
    type Error = Oops;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = SeqVariant;
    type SerializeMap = Map;
    type SerializeStruct = Map;
    type SerializeStructVariant = MapVariant;
    nums!(serialize_u8 u8 => Unsigned as u128, serialize_u16 u16 => Unsigned as u128, serialize_u32 u32 => Unsigned as u128, serialize_u64 u64 => Unsigned as u128, serialize_u128 u128 => Unsigned as u128,
        serialize_i8 i8 => Signed as i128, serialize_i16 i16 => Signed as i128, serialize_i32 i32 => Signed as i128, serialize_i64 i64 => Signed as i128, serialize_i128 i128 => Signed as i128,
        serialize_f32 f32 => F32 as f32, serialize_f64 f64 => F64 as f64, serialize_bool bool => Bool as bool);
    fn serialize_char(self, v: char) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Rec, Oops> {
        spend()?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Rec, Oops> {
        spend()?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, v: &'static str, t: &T) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Map(Some(1), vec![(Rec::Str(v.to_string()), t.serialize(Recorder)?)]))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq, Oops> {
        spend()?;
        Ok(Seq(n, Vec::new()))
    }
    fn serialize_tuple(self, n: usize) -> Result<Seq, Oops> {
        spend()?;
        Ok(Seq(Some(n), Vec::new()))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Seq, Oops> {
        spend()?;
        Ok(Seq(Some(n), Vec::new()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<SeqVariant, Oops> {
        spend()?;
        Ok(SeqVariant(v, Vec::new()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Map, Oops> {
        spend()?;
        Ok(Map(n, Vec::new(), None))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Map, Oops> {
        spend()?;
        Ok(Map(Some(n), Vec::new(), None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<MapVariant, Oops> {
        spend()?;
        Ok(MapVariant(v, Vec::new()))
    }
}

macro_rules! seq {
    ($($t:ident $m:ident),*) => { $(
        impl ser::$t for Seq {
            type Ok = Rec;
            type Error = Oops;
            fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Oops> {
                spend()?;
                self.1.push(v.serialize(Recorder)?);
                Ok(())
            }
            fn end(self) -> Result<Rec, Oops> {
                spend()?;
                Ok(Rec::Seq(self.0, self.1))
            }
        }
    )* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);

impl ser::SerializeMap for Map {
    type Ok = Rec;
    type Error = Oops;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Oops> {
        spend()?;
        if self.2.is_some() {
            return Err(Oops("two keys in a row".into()));
        }
        self.2 = Some(k.serialize(Recorder)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Oops> {
        spend()?;
        let k = self.2.take().ok_or_else(|| Oops("a value without a key".into()))?;
        self.1.push((k, v.serialize(Recorder)?));
        Ok(())
    }
    fn end(self) -> Result<Rec, Oops> {
        spend()?;
        if self.2.is_some() {
            return Err(Oops("a key without a value".into()));
        }
        Ok(Rec::Map(self.0, self.1))
    }
}

macro_rules! strukt {
    ($($t:ident),*) => { $(
        impl ser::$t for Map {
            type Ok = Rec;
            type Error = Oops;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Oops> {
                spend()?;
                self.1.push((Rec::Str(k.to_string()), v.serialize(Recorder)?));
                Ok(())
            }
            fn end(self) -> Result<Rec, Oops> {
                spend()?;
                Ok(Rec::Map(self.0, self.1))
            }
        }
    )* };
}
strukt!(SerializeStruct);

pub struct SeqVariant(&'static str, Vec<Rec>);
pub struct MapVariant(&'static str, Vec<(Rec, Rec)>);

impl ser::SerializeTupleVariant for SeqVariant {
    type Ok = Rec;
    type Error = Oops;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Oops> {
        spend()?;
        self.1.push(v.serialize(Recorder)?);
        Ok(())
    }
    fn end(self) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Map(Some(1), vec![(Rec::Str(self.0.to_string()), Rec::Seq(Some(self.1.len()), self.1))]))
    }
}

impl ser::SerializeStructVariant for MapVariant {
    type Ok = Rec;
    type Error = Oops;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Oops> {
        spend()?;
        self.1.push((Rec::Str(k.to_string()), v.serialize(Recorder)?));
        Ok(())
    }
    fn end(self) -> Result<Rec, Oops> {
        spend()?;
        Ok(Rec::Map(Some(1), vec![(Rec::Str(self.0.to_string()), Rec::Map(Some(self.1.len()), self.1))]))
    }
}
