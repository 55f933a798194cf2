//! C19: a serialized register set deserializes to the same registers (built with
//! the crate's `serialize` feature only).
//!
//! The contract speaks about two minimal data formats: a positional one (fields
//! in order, as bincode or postcard) and a self-describing one (named fields, in
//! any order, as JSON). Natively serde_json is one more.
use crate::core_::*;
use crate::*;
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeStruct, Serializer};
use serde::{Deserialize, Serialize};

/// The serialized form: (field name, value) in the order of serialization.
#[derive(Clone, Copy)]
pub struct Doc {
    pub n: usize,
    pub field: [(&'static str, u32); 8],
}

#[derive(Debug)]
pub struct Unsupported;
impl core::fmt::Display for Unsupported {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Unsupported {}
impl serde::ser::Error for Unsupported {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Unsupported
    }
}
impl de::Error for Unsupported {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Unsupported
    }
}
type No = Impossible<Doc, Unsupported>;

macro_rules! refuse {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self, $(_: $t),*) -> Result<Self::Ok, Unsupported> { Err(Unsupported) })* };
}
macro_rules! rest {
    () => {
        type Ok = Doc;
        type Error = Unsupported;
        type SerializeSeq = No;
        type SerializeTuple = No;
        type SerializeTupleStruct = No;
        type SerializeTupleVariant = No;
        type SerializeMap = No;
        type SerializeStructVariant = No;
        refuse! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
            serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
            serialize_none(); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Doc, Unsupported> { Err(Unsupported) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Doc, Unsupported> { v.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Doc, Unsupported> { Err(Unsupported) }
        fn serialize_seq(self, _: Option<usize>) -> Result<No, Unsupported> { Err(Unsupported) }
        fn serialize_tuple(self, _: usize) -> Result<No, Unsupported> { Err(Unsupported) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Unsupported> { Err(Unsupported) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Unsupported> { Err(Unsupported) }
        fn serialize_map(self, _: Option<usize>) -> Result<No, Unsupported> { Err(Unsupported) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Unsupported> { Err(Unsupported) }
    };
}

/// Serializes a struct of integers.
struct Top(Doc);
impl Serializer for Top {
    rest!();
    type SerializeStruct = Top;
    refuse! { serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Top, Unsupported> {
        Ok(self)
    }
}
impl SerializeStruct for Top {
    type Ok = Doc;
    type Error = Unsupported;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, name: &'static str, v: &T) -> Result<(), Unsupported> {
        let d = v.serialize(Int)?;
        if self.0.n == 8 {
            return Err(Unsupported);
        }
        self.0.field[self.0.n] = (name, d.field[0].1);
        self.0.n += 1;
        Ok(())
    }
    fn end(self) -> Result<Doc, Unsupported> {
        Ok(self.0)
    }
}
/// Serializes one integer.
struct Int;
fn int(v: u32) -> Result<Doc, Unsupported> {
    Ok(Doc { n: 1, field: [("", v); 8] })
}
impl Serializer for Int {
    rest!();
    type SerializeStruct = No;
    fn serialize_u8(self, v: u8) -> Result<Doc, Unsupported> { int(v as u32) }
    fn serialize_u16(self, v: u16) -> Result<Doc, Unsupported> { int(v as u32) }
    fn serialize_u32(self, v: u32) -> Result<Doc, Unsupported> { int(v) }
    fn serialize_u64(self, v: u64) -> Result<Doc, Unsupported> { u32::try_from(v).map_err(|_| Unsupported).and_then(int) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Unsupported> { Err(Unsupported) }
}

/// Deserializes a document: by position, or by name starting with the field
/// `first` and wrapping around.
struct Reader {
    d: Doc,
    by_name: bool,
    first: usize,
    i: usize,
}
impl Reader {
    fn at(&self) -> usize {
        let k = self.first + self.i;
        if k >= self.d.n { k - self.d.n } else { k }
    }
}
impl<'de> Deserializer<'de> for Reader {
    type Error = Unsupported;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Unsupported> {
        if self.by_name { v.visit_map(self) } else { v.visit_seq(self) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de> SeqAccess<'de> for Reader {
    type Error = Unsupported;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Unsupported> {
        if self.i == self.d.n {
            return Ok(None);
        }
        self.i += 1;
        s.deserialize(Item("", self.d.field[self.i - 1].1)).map(Some)
    }
}
impl<'de> MapAccess<'de> for Reader {
    type Error = Unsupported;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Unsupported> {
        if self.i == self.d.n {
            return Ok(None);
        }
        s.deserialize(Item(self.d.field[self.at()].0, 0)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Unsupported> {
        let k = self.at();
        self.i += 1;
        s.deserialize(Item("", self.d.field[k].1))
    }
}
/// A field name, or a value.
struct Item(&'static str, u32);
impl<'de> Deserializer<'de> for Item {
    type Error = Unsupported;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Unsupported> {
        if self.0.is_empty() { v.visit_u32(self.1) } else { v.visit_str(self.0) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

fn write(r: &CpuIdResult) -> Option<Doc> {
    r.serialize(Top(Doc { n: 0, field: [("", 0); 8] })).ok()
}
fn same(a: Option<CpuIdResult>, b: &CpuIdResult) -> bool {
    a.map_or(false, |a| a.eax == b.eax && a.ebx == b.ebx && a.ecx == b.ecx && a.edx == b.edx)
}

contracts! { REG;
    fn c19_by_position() {
        let r = any_res();
        let d = write(&r);
        ck!(d.is_some(), "CpuIdResult: serializes as a struct of integers");
        if let Some(d) = d {
            reach!(r.eax > 7, "a serialized value");
            let back = CpuIdResult::deserialize(Reader { d, by_name: false, first: 0, i: 0 }).ok();
            ck!(same(back, &r), "CpuIdResult: round trip through a positional format");
        }
    }
    fn c19_by_name() {
        let r = any_res();
        if let Some(d) = write(&r) {
            let first = any_u32() as usize;
            assume(first < d.n);
            let back = CpuIdResult::deserialize(Reader { d, by_name: true, first, i: 0 }).ok();
            reach!(first == 3, "fields not in order");
            ck!(same(back, &r), "CpuIdResult: round trip through a self-describing format");
        }
        #[cfg(not(kani))]
        {
            let text = serde_json::to_string(&r).unwrap();
            ck!(same(serde_json::from_str(&text).ok(), &r), "CpuIdResult: round trip through JSON");
        }
    }
}
