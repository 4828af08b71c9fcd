//! Stand-in for serde_stacker: the same answers, on the stack there is.
use serde::de::{Deserializer as De, Visitor};
pub struct Deserializer<D> {
    de: D,
    pub red_zone: usize,
    pub stack_size: usize,
}
impl<D> Deserializer<D> {
    pub fn new(de: D) -> Self {
        Deserializer { de, red_zone: 0, stack_size: 0 }
    }
}
macro_rules! pass {
    ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, D::Error> { self.de.$f(v) })* }
}
impl<'de, D: De<'de>> De<'de> for Deserializer<D> {
    type Error = D::Error;
    pass!(deserialize_any deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64
        deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_option deserialize_unit
        deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, D::Error> {
        self.de.deserialize_unit_struct(n, v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, n: &'static str, v: V) -> Result<V::Value, D::Error> {
        self.de.deserialize_newtype_struct(n, v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, D::Error> {
        self.de.deserialize_tuple(n, v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, n: &'static str, l: usize, v: V) -> Result<V::Value, D::Error> {
        self.de.deserialize_tuple_struct(n, l, v)
    }
    fn deserialize_struct<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> {
        self.de.deserialize_struct(n, f, v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, n: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, D::Error> {
        self.de.deserialize_enum(n, f, v)
    }
}
