//! A serde format of our own: it builds the same values as JSON, and holds the serialiser to what it announces, as
//! formats that write lengths first (MessagePack, CBOR) do.
use super::estree::J;
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct Wrong(pub String);

impl fmt::Display for Wrong {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Wrong {}
impl Error for Wrong {
    fn custom<T: fmt::Display>(msg: T) -> Wrong {
        Wrong(msg.to_string())
    }
}

pub struct Format;

pub struct Many {
    name: &'static str,
    announced: Option<usize>,
    items: Vec<J>,
}

pub struct Fields {
    name: String,
    announced: Option<usize>,
    fields: Vec<(String, J)>,
}

fn json<T: ?Sized + Serialize>(v: &T) -> Result<J, Wrong> {
    v.serialize(Format)
}

fn odd<T>(what: &str) -> Result<T, Wrong> {
    Err(Wrong(format!("a {} in ESTree", what)))
}

impl Many {
    fn done(self) -> Result<J, Wrong> {
        match self.announced {
            Some(n) if n != self.items.len() => Err(Wrong(format!("a {} of {} items is announced, {} come", self.name, n, self.items.len()))),
            _ => Ok(J::Arr(self.items)),
        }
    }
}

impl Fields {
    fn done(self) -> Result<J, Wrong> {
        let ty = match self.fields.iter().find(|f| f.0 == "type") {
            Some((_, J::Str(s))) => s.clone(),
            _ => self.name.clone(),
        };
        match self.announced {
            Some(n) if n != self.fields.len() => Err(Wrong(format!("{}: {} fields are announced, {} come", ty, n, self.fields.len()))),
            _ => Ok(J::Obj(self.fields)),
        }
    }
}

impl SerializeSeq for Many {
    type Ok = J;
    type Error = Wrong;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Wrong> {
        self.items.push(json(v)?);
        Ok(())
    }
    fn end(self) -> Result<J, Wrong> {
        self.done()
    }
}
impl SerializeTuple for Many {
    type Ok = J;
    type Error = Wrong;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Wrong> {
        self.items.push(json(v)?);
        Ok(())
    }
    fn end(self) -> Result<J, Wrong> {
        self.done()
    }
}
impl SerializeStruct for Fields {
    type Ok = J;
    type Error = Wrong;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Wrong> {
        self.fields.push((k.to_string(), json(v)?));
        Ok(())
    }
    fn end(self) -> Result<J, Wrong> {
        self.done()
    }
}
impl SerializeMap for Fields {
    type Ok = J;
    type Error = Wrong;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Wrong> {
        match json(k)? {
            J::Str(s) => self.fields.push((s, J::Null)),
            _ => return odd("key that is no string"),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Wrong> {
        self.fields.last_mut().ok_or(Wrong("a value without key".into()))?.1 = json(v)?;
        Ok(())
    }
    fn end(self) -> Result<J, Wrong> {
        self.done()
    }
}

macro_rules! numbers {
    ($($f:ident $t:ty,)*) => { $(fn $f(self, v: $t) -> Result<J, Wrong> {
        Ok(J::Num(v.to_string()))
    })* };
}

impl Serializer for Format {
    type Ok = J;
    type Error = Wrong;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Impossible<J, Wrong>;
    type SerializeTupleVariant = Impossible<J, Wrong>;
    type SerializeMap = Fields;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Impossible<J, Wrong>;

    numbers! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, }

    fn serialize_f32(self, _: f32) -> Result<J, Wrong> {
        odd("32 bit number")
    }
    fn serialize_f64(self, v: f64) -> Result<J, Wrong> {
        match v.is_finite() {
            true => Ok(J::Num(serde_json::to_string(&v).unwrap())),
            false => Ok(J::Null),
        }
    }
    fn serialize_bool(self, v: bool) -> Result<J, Wrong> {
        Ok(J::Bool(v))
    }
    fn serialize_char(self, v: char) -> Result<J, Wrong> {
        Ok(J::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<J, Wrong> {
        Ok(J::Str(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<J, Wrong> {
        odd("byte array")
    }
    fn serialize_none(self) -> Result<J, Wrong> {
        Ok(J::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<J, Wrong> {
        json(v)
    }
    fn serialize_unit(self) -> Result<J, Wrong> {
        Ok(J::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<J, Wrong> {
        Ok(J::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<J, Wrong> {
        Ok(J::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<J, Wrong> {
        json(v)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<J, Wrong> {
        odd("variant")
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Many, Wrong> {
        Ok(Many { name: "list", announced: len, items: vec![] })
    }
    fn serialize_tuple(self, len: usize) -> Result<Many, Wrong> {
        Ok(Many { name: "tuple", announced: Some(len), items: vec![] })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<J, Wrong>, Wrong> {
        odd("tuple struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<J, Wrong>, Wrong> {
        odd("variant")
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Fields, Wrong> {
        Ok(Fields { name: "map".into(), announced: len, fields: vec![] })
    }
    fn serialize_struct(self, name: &'static str, len: usize) -> Result<Fields, Wrong> {
        Ok(Fields { name: name.into(), announced: Some(len), fields: vec![] })
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<J, Wrong>, Wrong> {
        odd("variant")
    }
}
