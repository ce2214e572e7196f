//! Offline stand-in for `serde_yaml_ng`.  Emits JSON documents, one per line.  Maps become arrays of [key, value]
//! pairs, because their keys needn't be strings.
use serde::ser::{self, Serialize};
use std::io;

pub use serde_json::{Error, from_str};

pub fn to_string<T: Serialize + ?Sized>(t: &T) -> Result<String, Error> {
    let mut v = vec![];
    t.serialize(&mut Serializer::new(&mut v))?;
    Ok(String::from_utf8(v).unwrap())
}

pub struct Serializer<W: io::Write> { w: W, depth: u32 }
impl<W: io::Write> Serializer<W> {
    pub fn new(w: W) -> Self { Serializer { w, depth: 0 } }
    fn put(&mut self, s: &str) -> Result<(), Error> { self.w.write_all(s.as_bytes()).map_err(Error::io) }
    fn leaf(&mut self, s: &str) -> Result<(), Error> { self.put(s)?; self.done() }
    fn done(&mut self) -> Result<(), Error> { if self.depth == 0 { self.put("\n")?; } Ok(()) }
    fn open(&mut self, s: &str) -> Result<(), Error> { self.depth += 1; self.put(s) }
    fn close(&mut self, s: &str) -> Result<(), Error> { self.put(s)?; self.depth -= 1; self.done() }
}
pub struct Compound<'a, W: io::Write> { s: &'a mut Serializer<W>, first: bool, end: &'static str }
impl<'a, W: io::Write> Compound<'a, W> {
    fn new(s: &'a mut Serializer<W>, begin: &str, end: &'static str) -> Result<Self, Error> {
        s.open(begin)?;
        Ok(Compound { s, first: true, end })
    }
    fn sep(&mut self) -> Result<(), Error> { if self.first { self.first = false; Ok(()) } else { self.s.put(",") } }
    fn elem<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Error> { self.sep()?; t.serialize(&mut *self.s) }
    fn field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), Error> {
        self.sep()?;
        self.s.put(&format!("\"{k}\":"))?;
        t.serialize(&mut *self.s)
    }
    fn fin(self) -> Result<(), Error> { let e = self.end; self.s.close(e) }
}
macro_rules! seq { ($($tr:ident $f:ident),*) => { $(
    impl<W: io::Write> ser::$tr for Compound<'_, W> {
        type Ok = (); type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Error> { self.elem(t) }
        fn end(self) -> Result<(), Error> { self.fin() }
    } )* } }
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<W: io::Write> ser::SerializeMap for Compound<'_, W> {
    type Ok = (); type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Error> { self.sep()?; self.s.put("[")?; t.serialize(&mut *self.s) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, t: &T) -> Result<(), Error> { self.s.put(",")?; t.serialize(&mut *self.s)?; self.s.put("]") }
    fn end(self) -> Result<(), Error> { self.fin() }
}
impl<W: io::Write> ser::SerializeStruct for Compound<'_, W> {
    type Ok = (); type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), Error> { self.field(k, t) }
    fn end(self) -> Result<(), Error> { self.fin() }
}
impl<W: io::Write> ser::SerializeStructVariant for Compound<'_, W> {
    type Ok = (); type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, t: &T) -> Result<(), Error> { self.field(k, t) }
    fn end(self) -> Result<(), Error> { self.fin() }
}
macro_rules! num { ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<(), Error> { self.leaf(&v.to_string()) } )* } }
impl<'a, W: io::Write> ser::Serializer for &'a mut Serializer<W> {
    type Ok = (); type Error = Error;
    type SerializeSeq = Compound<'a, W>; type SerializeTuple = Compound<'a, W>; type SerializeTupleStruct = Compound<'a, W>;
    type SerializeTupleVariant = Compound<'a, W>; type SerializeMap = Compound<'a, W>; type SerializeStruct = Compound<'a, W>;
    type SerializeStructVariant = Compound<'a, W>;
    num!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
        serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64);
    fn serialize_char(self, v: char) -> Result<(), Error> { self.serialize_str(&v.to_string()) }
    fn serialize_str(self, v: &str) -> Result<(), Error> { let s = serde_json::to_string(v)?; self.leaf(&s) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> { let s = serde_json::to_string(v)?; self.leaf(&s) }
    fn serialize_none(self) -> Result<(), Error> { self.leaf("null") }
    fn serialize_some<T: Serialize + ?Sized>(self, t: &T) -> Result<(), Error> { t.serialize(self) }
    fn serialize_unit(self) -> Result<(), Error> { self.leaf("null") }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> { self.leaf("null") }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Error> { self.serialize_str(v) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, t: &T) -> Result<(), Error> { t.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, v: &'static str, t: &T) -> Result<(), Error> {
        self.open(&format!("{{\"{v}\":"))?;
        t.serialize(&mut *self)?;
        self.close("}")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Compound<'a, W>, Error> { Compound::new(self, "[", "]") }
    fn serialize_tuple(self, _: usize) -> Result<Compound<'a, W>, Error> { Compound::new(self, "[", "]") }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Compound<'a, W>, Error> { Compound::new(self, "[", "]") }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Compound<'a, W>, Error> {
        Compound::new(self, &format!("{{\"{v}\":["), "]}")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Compound<'a, W>, Error> { Compound::new(self, "[", "]") }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Compound<'a, W>, Error> { Compound::new(self, "{", "}") }
    fn serialize_struct_variant(self, _: &'static str, _: u32, v: &'static str, _: usize) -> Result<Compound<'a, W>, Error> {
        Compound::new(self, &format!("{{\"{v}\":{{"), "}}")
    }
}
pub mod with {
    pub mod singleton_map {
        pub struct SingletonMap;
        impl SingletonMap {
            #[allow(clippy::new_ret_no_self)]
            pub fn new<S>(s: S) -> S { s }
        }
    }
}
