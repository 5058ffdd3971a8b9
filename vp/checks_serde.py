"""Serialization (C26)."""
from . import model as M, verify as V
from .model import *
from .checks_lib import Sheet, PAIRS, int_ty, verify_value, verify_de, value_pairs, serde_entries, result
from .checks_struct import lsb, const64

KINDS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]


def other(methods, ret):
    """the serializer methods that are not numbers"""
    sig = {"bool": "bool", "f32": "f32", "f64": "f64", "char": "char", "str": "&str", "bytes": "&[u8]"}
    out = ["fn serialize_%s(self, _v: %s) -> Result<Self::Ok, No> { %s }" % (k, t, ret) for k, t in sig.items() if k in methods]
    out += ["fn serialize_none(self) -> Result<Self::Ok, No> { %s }" % ret, "fn serialize_some<T: ?Sized + Serialize>(self, _v: &T) -> Result<Self::Ok, No> { %s }" % ret,
            "fn serialize_unit(self) -> Result<Self::Ok, No> { %s }" % ret,
            "fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, _v: &T) -> Result<Self::Ok, No> { %s }" % ret,
            "fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, _i: u32, _v: &'static str, _x: &T) -> Result<Self::Ok, No> { %s }" % ret,
            "fn serialize_seq(self, _l: Option<usize>) -> Result<Self::SerializeSeq, No> { %s }" % ret, "fn serialize_tuple(self, _l: usize) -> Result<Self::SerializeTuple, No> { %s }" % ret,
            "fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Self::SerializeTupleStruct, No> { %s }" % ret,
            "fn serialize_tuple_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeTupleVariant, No> { %s }" % ret,
            "fn serialize_map(self, _l: Option<usize>) -> Result<Self::SerializeMap, No> { %s }" % ret, "fn collect_str<T: ?Sized + core::fmt::Display>(self, _v: &T) -> Result<Self::Ok, No> { %s }" % ret]
    return out


def unit_struct_methods(ret):
    return ["fn serialize_unit_struct(self, _n: &'static str) -> Result<Self::Ok, No> { %s }" % ret, "fn serialize_unit_variant(self, _n: &'static str, _i: u32, _v: &'static str) -> Result<Self::Ok, No> { %s }" % ret,
            "fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Self::SerializeStruct, No> { %s }" % ret,
            "fn serialize_struct_variant(self, _n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Result<Self::SerializeStructVariant, No> { %s }" % ret]


def assoc(kinds, ty):
    return " ".join("type %s = %s;" % (k, ty) for k in kinds)


ALL_ASSOC = ["SerializeSeq", "SerializeTuple", "SerializeTupleStruct", "SerializeTupleVariant", "SerializeMap"]
STRUCTS = ["SerializeStruct", "SerializeStructVariant"]
PRIMS = ("bool", "f32", "f64", "char", "str", "bytes")

BASE = """
use serde::{Serialize, Serializer, Deserialize, Deserializer};
use serde::ser::Impossible;
pub struct No(pub u32);
impl core::fmt::Debug for No { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl core::fmt::Display for No { fn fmt(&self, _f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for No {}
impl serde::ser::Error for No { fn custom<T: core::fmt::Display>(_m: T) -> Self { No(1000) } }
impl serde::de::Error for No { fn custom<T: core::fmt::Display>(_m: T) -> Self { No(2000) } }
"""

# records which number was given to it
REC = "pub struct Rec; impl Serializer for Rec { type Ok = (u8, u64); type Error = No; %s\n%s }" % (
    assoc(ALL_ASSOC + STRUCTS, "Impossible<(u8, u64), No>"),
    "\n".join(["fn serialize_%s(self, v: %s) -> Result<Self::Ok, No> { Ok((%d, v as u64)) }" % (k, k, i + 1) for i, k in enumerate(KINDS)] + other(PRIMS, "Err(No(50))") + unit_struct_methods("Err(No(51))")))
# fails with a given error
FAIL = "pub struct Fail(pub u32); impl Serializer for Fail { type Ok = (); type Error = No; %s\n%s }" % (
    assoc(ALL_ASSOC + STRUCTS, "Impossible<(), No>"),
    "\n".join(["fn serialize_%s(self, _v: %s) -> Result<(), No> { Err(No(self.0)) }" % (k, k) for k in KINDS] + other(PRIMS, "Err(No(self.0))") + unit_struct_methods("Err(No(self.0))")))
FAILDE = "pub struct FailDe(pub u32); impl<'de> Deserializer<'de> for FailDe { type Error = No; fn deserialize_any<V: serde::de::Visitor<'de>>(self, _v: V) -> Result<V::Value, No> { Err(No(self.0)) }\n" \
         "serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }"
# a serializer into tokens and a deserializer from them
TOK = """
#[derive(Clone, Copy)]
pub enum Tok { Var(u32, &'static str), Field(&'static str), Num(u64), Unit }
pub struct Ser<'a>(pub &'a mut Vec<Tok>);
impl<'a> Serializer for Ser<'a> { type Ok = (); type Error = No; %s type SerializeStruct = Ser<'a>; type SerializeStructVariant = Ser<'a>;
%s
fn serialize_unit_struct(self, _n: &'static str) -> Result<(), No> { self.0.push(Tok::Unit); Ok(()) }
fn serialize_unit_variant(self, _n: &'static str, i: u32, v: &'static str) -> Result<(), No> { self.0.push(Tok::Var(i, v)); Ok(()) }
fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Ser<'a>, No> { Ok(self) }
fn serialize_struct_variant(self, _n: &'static str, i: u32, v: &'static str, _l: usize) -> Result<Ser<'a>, No> { self.0.push(Tok::Var(i, v)); Ok(self) }
}
impl<'a> serde::ser::SerializeStruct for Ser<'a> { type Ok = (); type Error = No;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> { self.0.push(Tok::Field(k)); v.serialize(Ser(&mut *self.0)) }
  fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> serde::ser::SerializeStructVariant for Ser<'a> { type Ok = (); type Error = No;
  fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> { self.0.push(Tok::Field(k)); v.serialize(Ser(&mut *self.0)) }
  fn end(self) -> Result<(), No> { Ok(()) } }
pub struct De<'a, 'b> { pub t: &'a [Tok], pub i: &'b mut usize, pub named: bool }
impl<'a, 'b> De<'a, 'b> { fn next(&mut self) -> Result<Tok, No> { if *self.i < self.t.len() { *self.i += 1; Ok(self.t[*self.i - 1]) } else { Err(No(60)) } } }
impl<'de, 'a, 'b> Deserializer<'de> for De<'a, 'b> { type Error = No;
  fn deserialize_any<V: serde::de::Visitor<'de>>(mut self, v: V) -> Result<V::Value, No> { match self.next()? { Tok::Num(n) => v.visit_u64(n), Tok::Unit => v.visit_unit(), Tok::Field(s) => v.visit_str(s), _ => Err(No(61)) } }
  fn deserialize_struct<V: serde::de::Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: V) -> Result<V::Value, No> { v.visit_map(self) }
  fn deserialize_enum<V: serde::de::Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], v: V) -> Result<V::Value, No> { v.visit_enum(self) }
  serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map identifier ignored_any } }
impl<'de, 'a, 'b> serde::de::MapAccess<'de> for De<'a, 'b> { type Error = No;
  fn next_key_seed<K: serde::de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<Option<K::Value>, No> { if *self.i >= self.t.len() { return Ok(None); } k.deserialize(De { t: self.t, i: &mut *self.i, named: self.named }).map(Some) }
  fn next_value_seed<K: serde::de::DeserializeSeed<'de>>(&mut self, k: K) -> Result<K::Value, No> { k.deserialize(De { t: self.t, i: &mut *self.i, named: self.named }) } }
pub struct Key(pub u32, pub &'static str, pub bool);
impl<'de> Deserializer<'de> for Key { type Error = No;
  fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, No> { if self.2 { v.visit_str(self.1) } else { v.visit_u64(self.0 as u64) } }
  serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
impl<'de, 'a, 'b> serde::de::EnumAccess<'de> for De<'a, 'b> { type Error = No; type Variant = De<'a, 'b>;
  fn variant_seed<K: serde::de::DeserializeSeed<'de>>(mut self, k: K) -> Result<(K::Value, De<'a, 'b>), No> { match self.next()? { Tok::Var(i, s) => { let n = self.named; Ok((k.deserialize(Key(i, s, n))?, self)) }, _ => Err(No(62)) } } }
impl<'de, 'a, 'b> serde::de::VariantAccess<'de> for De<'a, 'b> { type Error = No;
  fn unit_variant(self) -> Result<(), No> { Ok(()) }
  fn newtype_variant_seed<T: serde::de::DeserializeSeed<'de>>(self, _s: T) -> Result<T::Value, No> { Err(No(63)) }
  fn tuple_variant<V: serde::de::Visitor<'de>>(self, _l: usize, _v: V) -> Result<V::Value, No> { Err(No(64)) }
  fn struct_variant<V: serde::de::Visitor<'de>>(self, _f: &'static [&'static str], v: V) -> Result<V::Value, No> { v.visit_map(self) } }
pub fn rt<T: Serialize + serde::de::DeserializeOwned>(x: &T, named: bool) -> Result<T, No> {
  let mut t: Vec<Tok> = Vec::with_capacity(8);
  x.serialize(Ser(&mut t))?;
  let mut i = 0;
  T::deserialize(De { t: &t, i: &mut i, named })
}
""" % (assoc(ALL_ASSOC, "Impossible<(), No>"),
       "\n".join(["fn serialize_%s(self, v: %s) -> Result<(), No> { self.0.push(Tok::Num(v as u64)); Ok(()) }" % (k, k) for k in KINDS] + other(PRIMS, "Err(No(50))")))


def verify_ser(cx, what, exp):
    """Ok((kind, number))"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("error", "%s fails" % what)
            continue
        pairs = []
        value_pairs(cx, what, exp, v, pairs)
        cx.same(p["g"], pairs, "value", what)


def verify_passed(cx, what, exp):
    """Err(the given error) on every path"""
    if not cx.problems():
        return
    for p in cx.e["parts"]:
        ok, v = result(p["ret"])
        if ok is not False:
            if cx.satisfiable(p["g"]) is not None:
                cx.find("swallowed", "%s: succeeds although the other side fails" % what)
            continue
        pairs = []
        value_pairs(cx, what, exp, v["f"]["0"], pairs)
        cx.same(p["g"], pairs, "error", what)


BOUNDS = ["PackingError", "BitOne", "BitZero", "ReservedZero<packed_bits::Bits::<7>>", "ReservedOne<packed_bits::Bits::<12>>", "ReservedZeroes<packed_bits::Bits::<64>>",
          "ReservedOnes<packed_bits::Bits::<65>>"] + [int_ty(n, w) for n, w in (("u8", 1), ("i8", 7), ("u16", 9), ("i32", 24), ("u64", 64))]


def c26(run):
    s = Sheet(M.HEADER + BASE + REC + "\n" + FAIL + "\n" + FAILDE, 6)
    for nat, w in PAIRS:
        t, n, sg = int_ty(nat, w), NATIVE[nat], signed(nat)
        k = "%s_%d" % (nat, w)
        num = ext(lsb("x", w), n, sg)
        s.add(k + "_ser", "(x: &%s) -> Result<(u8, u64), No>" % t, "x.serialize(Rec)", verify_ser, ("serializing " + t, ("tuple", [("int", [("c", (KINDS.index(nat) + 1) >> i & 1) for i in range(8)]), ("int", ext(num, 64, sg))])))
        s.add(k + "_serr", "(x: &%s, e: u32) -> Result<(), No>" % t, "x.serialize(Fail(e))", verify_passed, ("serializing %s into a failing serializer" % t, ("int", lsb("e", 32))))
        s.add(k + "_derr", "(e: u32) -> Result<%s, No>" % t, "<%s as Deserialize>::deserialize(FailDe(e))" % t, verify_passed, ("deserializing %s from a failing deserializer" % t, ("int", lsb("e", 32))))
    serde_entries(s)
    n, _ = s.run(run, "serde", "serde")
    run.require("integer serializations analysed", n, 512)
    s = Sheet(M.HEADER + BASE + TOK, 1)
    one = ("bool", C1)
    for named in (False, True):
        nm = str(named).lower()
        s.add("err_rt_%s" % nm, "(x: &PackingError) -> bool", "match rt(x, %s) { Ok(y) => y == *x, Err(_) => false }" % nm, verify_value, ("the error type comes back from serialization (variants by %s)" % ("name" if named else "index"), one))
        for i, t in enumerate(["BitOne", "BitZero"] + [r + "<packed_bits::Bits::<%d>>" % w for r in ("ReservedZero", "ReservedOne") for w in (1, 5, 8, 13, 64)]):
            s.add("res%d_rt_%s" % (i, nm), "(x: &%s) -> bool" % t, "rt(x, %s).is_ok()" % nm, verify_value, ("%s comes back from serialization" % t, one))
    m, _ = s.run(run, "serdert", "serde")
    run.require("round trips analysed", m, 26)
    # both traits, with and without the standard library
    k = 0
    for cfg in ("serde", "none_serde"):
        for t in BOUNDS:
            txt = "#![allow(unused)]\n#![no_std]\nuse packed_struct::prelude::*; use packed_struct::*;\nfn both<T: serde::Serialize + for<'de> serde::Deserialize<'de>>() {}\npub fn w() { both::<%s>() }\n" % t
            ok, diags = run.compile_all([("b%d" % k, txt)], cfg)["b%d" % k]
            k += 1
            if not ok:
                run.find("bound", "%s, features of %s" % (t, cfg), "is not serializable both ways: %s" % next((d["message"] for d in diags if d.get("level") == "error"), "?")[:300])
    run.require("serializable types", k, 24)
    return run.finish("proof", "Serializing every one of the 128 integer types hands exactly one call with the plain number (as its native type) to the serializer; deserializing gives the number limited to its width; the errors of "
                      "serializer and deserializer come back unchanged, all for every value at once. The error type and the reserved and marker types come back from a token format, by variant name and by index. "
                      "Trait-bound witnesses with and without std.", {"functions": n + m})


CHECKS = {"C26": c26}
