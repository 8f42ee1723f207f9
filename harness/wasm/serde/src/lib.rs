use serde::ser::{self, Serialize};
use serde_json::{value::Serializer as Json, Value};
use wasm_bindgen::JsValue;

#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Error {
        Error(m.to_string())
    }
}
impl From<serde_json::Error> for Error {
    fn from(e: serde_json::Error) -> Error {
        Error(e.to_string())
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue(e.0.into())
    }
}
pub type Result<T = JsValue> = std::result::Result<T, Error>;

pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T> {
    Ok(serde_json::from_value(v.0)?)
}
pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result {
    v.serialize(&Serializer::new())
}

#[derive(Default)]
pub struct Serializer;
impl Serializer {
    pub const fn new() -> Serializer {
        Serializer
    }
    pub const fn json_compatible() -> Serializer {
        Serializer
    }
}
pub struct Compound<T>(T);
fn js(v: std::result::Result<Value, serde_json::Error>) -> Result {
    Ok(JsValue(v?))
}
impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Compound<<Json as ser::Serializer>::SerializeSeq>;
    type SerializeTuple = Compound<<Json as ser::Serializer>::SerializeTuple>;
    type SerializeTupleStruct = Compound<<Json as ser::Serializer>::SerializeTupleStruct>;
    type SerializeTupleVariant = Compound<<Json as ser::Serializer>::SerializeTupleVariant>;
    type SerializeMap = Compound<<Json as ser::Serializer>::SerializeMap>;
    type SerializeStruct = Compound<<Json as ser::Serializer>::SerializeStruct>;
    type SerializeStructVariant = Compound<<Json as ser::Serializer>::SerializeStructVariant>;
    fn serialize_bool(self, v: bool) -> Result {
        js(Json.serialize_bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result {
        js(Json.serialize_i8(v))
    }
    fn serialize_i16(self, v: i16) -> Result {
        js(Json.serialize_i16(v))
    }
    fn serialize_i32(self, v: i32) -> Result {
        js(Json.serialize_i32(v))
    }
    fn serialize_i64(self, v: i64) -> Result {
        js(Json.serialize_i64(v))
    }
    fn serialize_u8(self, v: u8) -> Result {
        js(Json.serialize_u8(v))
    }
    fn serialize_u16(self, v: u16) -> Result {
        js(Json.serialize_u16(v))
    }
    fn serialize_u32(self, v: u32) -> Result {
        js(Json.serialize_u32(v))
    }
    fn serialize_u64(self, v: u64) -> Result {
        js(Json.serialize_u64(v))
    }
    fn serialize_f32(self, v: f32) -> Result {
        js(Json.serialize_f32(v))
    }
    fn serialize_f64(self, v: f64) -> Result {
        js(Json.serialize_f64(v))
    }
    fn serialize_char(self, v: char) -> Result {
        js(Json.serialize_char(v))
    }
    fn serialize_str(self, v: &str) -> Result {
        js(Json.serialize_str(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result {
        js(Json.serialize_bytes(v))
    }
    fn serialize_none(self) -> Result {
        js(Json.serialize_none())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result {
        js(Json.serialize_some(v))
    }
    fn serialize_unit(self) -> Result {
        js(Json.serialize_unit())
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result {
        js(Json.serialize_unit_struct(n))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result {
        js(Json.serialize_unit_variant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result {
        js(Json.serialize_newtype_struct(n, v))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, w: &'static str, v: &T) -> Result {
        js(Json.serialize_newtype_variant(n, i, w, v))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self::SerializeSeq> {
        Ok(Compound(Json.serialize_seq(n)?))
    }
    fn serialize_tuple(self, n: usize) -> Result<Self::SerializeTuple> {
        Ok(Compound(Json.serialize_tuple(n)?))
    }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Self::SerializeTupleStruct> {
        Ok(Compound(Json.serialize_tuple_struct(s, n)?))
    }
    fn serialize_tuple_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self::SerializeTupleVariant> {
        Ok(Compound(Json.serialize_tuple_variant(s, i, v, n)?))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self::SerializeMap> {
        Ok(Compound(Json.serialize_map(n)?))
    }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Self::SerializeStruct> {
        Ok(Compound(Json.serialize_struct(s, n)?))
    }
    fn serialize_struct_variant(self, s: &'static str, i: u32, v: &'static str, n: usize) -> Result<Self::SerializeStructVariant> {
        Ok(Compound(Json.serialize_struct_variant(s, i, v, n)?))
    }
}
impl<T: ser::SerializeSeq<Ok = Value, Error = serde_json::Error>> ser::SerializeSeq for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        Ok(self.0.serialize_element(v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
impl<T: ser::SerializeTuple<Ok = Value, Error = serde_json::Error>> ser::SerializeTuple for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        Ok(self.0.serialize_element(v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
impl<T: ser::SerializeTupleStruct<Ok = Value, Error = serde_json::Error>> ser::SerializeTupleStruct for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        Ok(self.0.serialize_field(v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
impl<T: ser::SerializeTupleVariant<Ok = Value, Error = serde_json::Error>> ser::SerializeTupleVariant for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        Ok(self.0.serialize_field(v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
impl<T: ser::SerializeMap<Ok = Value, Error = serde_json::Error>> ser::SerializeMap for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        Ok(self.0.serialize_key(v)?)
    }
    fn serialize_value<V: Serialize + ?Sized>(&mut self, v: &V) -> Result<()> {
        Ok(self.0.serialize_value(v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
impl<T: ser::SerializeStruct<Ok = Value, Error = serde_json::Error>> ser::SerializeStruct for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<()> {
        Ok(self.0.serialize_field(k, v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
impl<T: ser::SerializeStructVariant<Ok = Value, Error = serde_json::Error>> ser::SerializeStructVariant for Compound<T> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<V: Serialize + ?Sized>(&mut self, k: &'static str, v: &V) -> Result<()> {
        Ok(self.0.serialize_field(k, v)?)
    }
    fn end(self) -> Result {
        js(self.0.end())
    }
}
