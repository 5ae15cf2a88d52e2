//! Serialisation partners under simulator control: a serializer that can fail at any call, and a
//! deserializer that hands the visitor any kind of token.

use crate::heap::Arm;
use crate::plan::Op;
use astro_float::BigFloat;
use serde::de::{self, Deserialize, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        let _g = Arm::off();
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        let _g = Arm::off();
        E(m.to_string())
    }
}

struct Ser<'a> {
    out: &'a mut String,
    fail: bool,
}

macro_rules! prim {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), E> {
        let _g = Arm::off();
        if self.fail { return Err(E("stream failed as planned".into())); }
        self.out.push_str(&format!("{v:?}"));
        Ok(())
    })* }
}

impl ser::Serializer for Ser<'_> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = ser::Impossible<(), E>;
    type SerializeTuple = ser::Impossible<(), E>;
    type SerializeTupleStruct = ser::Impossible<(), E>;
    type SerializeTupleVariant = ser::Impossible<(), E>;
    type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = ser::Impossible<(), E>;
    type SerializeStructVariant = ser::Impossible<(), E>;
    prim!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
          serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
          serialize_f64: f64, serialize_char: char, serialize_bytes: &[u8]);
    fn serialize_str(self, v: &str) -> Result<(), E> {
        let _g = Arm::off();
        if self.fail {
            return Err(E("stream failed as planned".into()));
        }
        self.out.push_str(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        Err(E("none".into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Err(E("unit".into()))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Err(E("unit".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), E> {
        Err(E("unit".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E("seq".into()))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E("tuple".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E("tuple".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E("struct".into()))
    }
}

pub fn ser(x: &BigFloat, op: &Op) -> Result<String, String> {
    let mut out = String::with_capacity(64);
    let r = {
        let s = Ser { out: &mut out, fail: op.m == 1 };
        let _g = Arm::on();
        x.serialize(s)
    };
    match r {
        Ok(()) => Ok(out),
        Err(e) => Err(e.0),
    }
}

struct De<'a> {
    kind: i64,
    s: &'a str,
    bits: u64,
}
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.kind {
            0 => v.visit_str(self.s),
            1 => v.visit_borrowed_str(self.s),
            2 => {
                let s = {
                    let _g = Arm::off();
                    self.s.to_string()
                };
                v.visit_string(s)
            }
            3 => v.visit_u64(self.bits),
            4 => v.visit_i64(self.bits as i64),
            5 => v.visit_f64(f64::from_bits(self.bits)),
            6 => v.visit_f32(f32::from_bits(self.bits as u32)),
            7 => v.visit_bool(true),
            8 => v.visit_unit(),
            9 => v.visit_bytes(self.s.as_bytes()),
            10 => v.visit_none(),
            11 => v.visit_u128(self.bits as u128),
            12 => v.visit_char('7'),
            13 => v.visit_u8(self.bits as u8),
            14 => v.visit_i8(self.bits as i8),
            _ => {
                let _g = Arm::off();
                Err(E("stream failed as planned".into()))
            }
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

pub fn de(op: &Op) -> Result<BigFloat, String> {
    let d = De { kind: op.n, s: &op.s, bits: op.m as u64 };
    let r = {
        let _g = Arm::on();
        BigFloat::deserialize(d)
    };
    r.map_err(|e| {
        let _g = Arm::off();
        e.0
    })
}

/// What the token must have been turned into, computed without any serialisation framework.
pub fn expected(op: &Op, got: &[u8]) -> Option<String> {
    use crate::ops::{enc, show, Out};
    use std::str::FromStr;
    let want = match op.n {
        0 | 1 | 2 => BigFloat::from_str(&op.s).ok().map(|x| enc(&Out::Num(x))),
        3 => Some(enc(&Out::Num(BigFloat::from_u64(op.m as u64, 64)))),
        5 | 6 => {
            let x = if op.n == 5 { f64::from_bits(op.m as u64) } else { f32::from_bits(op.m as u32) as f64 };
            if x.is_finite() {
                Some(enc(&Out::Num(BigFloat::from_f64(x, 64))))
            } else {
                return None;
            }
        }
        n if n >= 15 => Some(vec![b'E', 20]),
        _ => return None,
    };
    match want {
        Some(w) if w != got => Some(format!("the token became {} instead of {}", show(got), show(&w))),
        None if got.first() != Some(&b'E') => Some(format!("text that is not a number became {}", show(got))),
        _ => None,
    }
}
