//! A serializer that needs to know lengths: it notes what each map and sequence announces and what it
//! then contains (binary formats write the announced length down), and refuses one operation if asked to.
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Default)]
pub struct Lens {
    /// announced (-1: nothing) and actual number of entries
    pub all: Vec<[i64; 2]>,
    ops: usize,
    refuse: Option<usize>,
    pub refused: bool,
}
impl Lens {
    pub fn new(refuse: Option<usize>) -> Lens {
        Lens { refuse, ..Lens::default() }
    }
    fn op(&mut self) -> Result<(), Refused> {
        self.ops += 1;
        if self.refuse == Some(self.ops - 1) {
            self.refused = true;
            return Err(Refused);
        }
        Ok(())
    }
    fn open(&mut self, n: Option<usize>) -> Result<Open<'_>, Refused> {
        self.op()?;
        self.all.push([n.map_or(-1, |n| n as i64), 0]);
        let at = self.all.len() - 1;
        Ok(Open { l: self, at })
    }
}
#[derive(Debug)]
pub struct Refused;
impl fmt::Display for Refused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("refused")
    }
}
impl std::error::Error for Refused {}
impl ser::Error for Refused {
    fn custom<T: fmt::Display>(_: T) -> Refused {
        Refused
    }
}
pub struct Open<'a> {
    l: &'a mut Lens,
    at: usize,
}
type R = Result<(), Refused>;
impl Open<'_> {
    fn entry<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.l.all[self.at][1] += 1;
        v.serialize(&mut *self.l)
    }
}

macro_rules! leaf {
    ($($f:ident($($t:ty),*))*) => {$(
        fn $f(self, $(_: $t),*) -> R { self.op() }
    )*};
}
impl<'a> ser::Serializer for &'a mut Lens {
    type Ok = ();
    type Error = Refused;
    type SerializeSeq = Open<'a>;
    type SerializeTuple = Open<'a>;
    type SerializeTupleStruct = Open<'a>;
    type SerializeTupleVariant = Open<'a>;
    type SerializeMap = Open<'a>;
    type SerializeStruct = Open<'a>;
    type SerializeStructVariant = Open<'a>;
    leaf! {
        serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64)
        serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64)
        serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8])
        serialize_none() serialize_unit() serialize_unit_struct(&'static str)
        serialize_unit_variant(&'static str, u32, &'static str)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Open<'a>, Refused> {
        self.open(n)
    }
    fn serialize_tuple(self, n: usize) -> Result<Open<'a>, Refused> {
        self.open(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Open<'a>, Refused> {
        self.open(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Open<'a>, Refused> {
        self.open(Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Open<'a>, Refused> {
        self.open(n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Open<'a>, Refused> {
        self.open(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Open<'a>, Refused> {
        self.open(Some(n))
    }
}
macro_rules! open {
    ($($t:ident $f:ident)*) => {$(
        impl ser::$t for Open<'_> {
            type Ok = ();
            type Error = Refused;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> R { self.entry(v) }
            fn end(self) -> R { self.l.op() }
        }
    )*};
}
open! { SerializeSeq serialize_element SerializeTuple serialize_element
        SerializeTupleStruct serialize_field SerializeTupleVariant serialize_field }
macro_rules! open_named {
    ($($t:ident)*) => {$(
        impl ser::$t for Open<'_> {
            type Ok = ();
            type Error = Refused;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> R { self.entry(v) }
            fn end(self) -> R { self.l.op() }
        }
    )*};
}
open_named! { SerializeStruct SerializeStructVariant }
impl ser::SerializeMap for Open<'_> {
    type Ok = ();
    type Error = Refused;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> R {
        k.serialize(&mut *self.l)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        self.entry(v)
    }
    fn end(self) -> R {
        self.l.op()
    }
}
