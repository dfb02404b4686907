//! The instances of the generic functions under test that the harness uses, in
//! a crate of their own so that the guided build can count their edges.

use httlib_hpack::{Encoder as Hpack, EncoderError as HpackError};
use httlib_protos::{Encoder, EncoderError, EncoderLit};
use std::io::Write;

/// The ways to encode a value.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way {
    /// `encode` with a literal.
    Lit,
    /// `encode` with a plain reference, for the types that have one.
    Ref,
    /// The method of the type.
    Method,
}

pub enum Value {
    Bool(bool),
    BoolVec(Vec<bool>),
    Int32(i32),
    Int32Vec(Vec<i32>),
    Int64(i64),
    Int64Vec(Vec<i64>),
    UInt32(u32),
    UInt32Vec(Vec<u32>),
    UInt64(u64),
    UInt64Vec(Vec<u64>),
    SInt32(i32),
    SInt32Vec(Vec<i32>),
    SInt64(i64),
    SInt64Vec(Vec<i64>),
    Fixed32(u32),
    Fixed32Vec(Vec<u32>),
    Fixed64(u64),
    Fixed64Vec(Vec<u64>),
    SFixed32(i32),
    SFixed32Vec(Vec<i32>),
    SFixed64(i64),
    SFixed64Vec(Vec<i64>),
    Float(f32),
    FloatVec(Vec<f32>),
    Double(f64),
    DoubleVec(Vec<f64>),
    Bytes(Vec<u8>),
}

/// Encodes a value. `None`: there is no plain reference for the type.
pub fn encode(way: Way, tag: u32, v: &Value, dst: &mut dyn Write) -> Option<Result<usize, EncoderError>> {
    let e = Encoder::default();
    let tag = &tag;
    macro_rules! plain {
        ($x:expr, $lit:ident, $m:ident) => {
            Some(match way {
                Way::Lit => e.encode((tag, EncoderLit::$lit($x)), dst),
                Way::Ref => e.encode((tag, $x), dst),
                Way::Method => e.$m(tag, $x, dst),
            })
        };
    }
    macro_rules! marked {
        ($x:expr, $lit:ident, $m:ident) => {
            match way {
                Way::Lit => Some(e.encode((tag, EncoderLit::$lit($x)), dst)),
                Way::Ref => None,
                Way::Method => Some(e.$m(tag, $x, dst)),
            }
        };
    }
    match v {
        Value::Bool(x) => plain!(x, Bool, encode_bool),
        Value::BoolVec(x) => plain!(x, BoolVec, encode_bool_vec),
        Value::Int32(x) => plain!(x, Int32, encode_int32),
        Value::Int32Vec(x) => plain!(x, Int32Vec, encode_int32_vec),
        Value::Int64(x) => plain!(x, Int64, encode_int64),
        Value::Int64Vec(x) => plain!(x, Int64Vec, encode_int64_vec),
        Value::UInt32(x) => plain!(x, UInt32, encode_uint32),
        Value::UInt32Vec(x) => plain!(x, UInt32Vec, encode_uint32_vec),
        Value::UInt64(x) => plain!(x, UInt64, encode_uint64),
        Value::UInt64Vec(x) => plain!(x, UInt64Vec, encode_uint64_vec),
        Value::SInt32(x) => marked!(x, SInt32, encode_sint32),
        Value::SInt32Vec(x) => marked!(x, SInt32Vec, encode_sint32_vec),
        Value::SInt64(x) => marked!(x, SInt64, encode_sint64),
        Value::SInt64Vec(x) => marked!(x, SInt64Vec, encode_sint64_vec),
        Value::Fixed32(x) => marked!(x, Fixed32, encode_fixed32),
        Value::Fixed32Vec(x) => marked!(x, Fixed32Vec, encode_fixed32_vec),
        Value::Fixed64(x) => marked!(x, Fixed64, encode_fixed64),
        Value::Fixed64Vec(x) => marked!(x, Fixed64Vec, encode_fixed64_vec),
        Value::SFixed32(x) => marked!(x, SFixed32, encode_sfixed32),
        Value::SFixed32Vec(x) => marked!(x, SFixed32Vec, encode_sfixed32_vec),
        Value::SFixed64(x) => marked!(x, SFixed64, encode_sfixed64),
        Value::SFixed64Vec(x) => marked!(x, SFixed64Vec, encode_sfixed64_vec),
        Value::Float(x) => plain!(x, Float, encode_float),
        Value::FloatVec(x) => plain!(x, FloatVec, encode_float_vec),
        Value::Double(x) => plain!(x, Double, encode_double),
        Value::DoubleVec(x) => plain!(x, DoubleVec, encode_double_vec),
        Value::Bytes(x) => plain!(x, Bytes, encode_bytes),
    }
}

/// The generic method of the HPACK encoder with its three kinds of input.
pub fn indexed(e: &mut Hpack, index: u32, dst: &mut Vec<u8>) -> Result<(), HpackError> {
    e.encode(index, dst)
}

pub fn named(e: &mut Hpack, f: (u32, Vec<u8>, u8), dst: &mut Vec<u8>) -> Result<(), HpackError> {
    e.encode(f, dst)
}

pub fn literal(e: &mut Hpack, f: (Vec<u8>, Vec<u8>, u8), dst: &mut Vec<u8>) -> Result<(), HpackError> {
    e.encode(f, dst)
}
