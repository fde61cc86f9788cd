//! S01: values written through serde and read back, by a format that names things and one that does not
use crate::refpkt;
use ::abe::ast::{parse_abe, Ctr, Expr, ABE};
use ::abe::convert::TypedABE;
use linkspace::prelude::*;
use linkspace_core::prelude::{U16, U32, U64};
use linkspace_common::dgs::{DGSDExpr, DGSExpr};
use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{Debug, Display};
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static S01: Prop = Prop {
    id: "S01",
    stages: &[Stage { name: "values", quick: 160_000, thorough: 4_000_000, run: values }, Stage { name: "foreign", quick: 240_000, thorough: 6_000_000, run: foreign }],
    rule: "values of every serialisable type (expressions, typed expressions, byte wrappers, numbers, links, flags, index entries, space names, durations) are written by a format that names fields and variants and by one that numbers them, and read back; then written values are altered (numbers out of range, lists cut or extended, names changed, parts exchanged) and read as every type. What is read must be what was written, typed expressions are accepted exactly when their shape is the type's, and what is accepted writes itself again as the value that was read. Non-trivial: distinct written values.",
    assumptions: &["reading a RootedSpaceBuf is not implemented in the library (todo!) and not judged; index entries are read back only as they were written"],
    floors: &["named", "numbered", "bytes altered", "refused", "accepted", "shape refused", "shape accepted", "shape refused in a field", "flags", "unknown flag", "space as text", "space as bytes", "control characters"],
    opts: OPTS,
};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    Bytes(Vec<u8>),
    Str(String),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
}
#[derive(Debug)]
pub struct E(String);
impl Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: Display>(m: T) -> E {
        E(m.to_string())
    }
}

/// `true`: fields and variants by name, as text formats do; `false`: by position
#[derive(Clone, Copy)]
struct S(bool);
struct Parts {
    h: bool,
    var: Option<V>,
    named: bool,
    v: Vec<V>,
    m: Vec<(V, V)>,
    key: Option<V>,
}
impl Parts {
    fn new(h: bool, var: Option<V>, named: bool) -> Parts {
        Parts { h, var, named, v: vec![], m: vec![], key: None }
    }
    fn field<T: ?Sized + Serialize>(&mut self, k: &str, t: &T) -> Result<(), E> {
        let v = t.serialize(S(self.h))?;
        if self.h {
            self.m.push((V::Str(k.into()), v))
        } else {
            self.v.push(v)
        }
        Ok(())
    }
    fn fin(self) -> Result<V, E> {
        let inner = if self.named { V::Map(self.m) } else { V::Seq(self.v) };
        Ok(match self.var {
            Some(k) => V::Map(vec![(k, inner)]),
            None => inner,
        })
    }
}
impl S {
    fn variant(self, i: u32, n: &str) -> V {
        if self.0 {
            V::Str(n.into())
        } else {
            V::U(i as u64)
        }
    }
}
macro_rules! prim { ($($f:ident $t:ty => $e:expr),* $(,)?) => { $(fn $f(self, x: $t) -> Result<V, E> { let g: fn($t) -> V = $e; Ok(g(x)) })* } }
impl ser::Serializer for S {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    prim!(serialize_bool bool => V::Bool, serialize_i8 i8 => |x| V::I(x as i64), serialize_i16 i16 => |x| V::I(x as i64), serialize_i32 i32 => |x| V::I(x as i64), serialize_i64 i64 => V::I, serialize_u8 u8 => |x| V::U(x as u64), serialize_u16 u16 => |x| V::U(x as u64), serialize_u32 u32 => |x| V::U(x as u64), serialize_u64 u64 => V::U, serialize_char char => |x| V::Str(x.to_string()), serialize_str &str => |x| V::Str(x.to_string()), serialize_bytes &[u8] => |x| V::Bytes(x.to_vec()), serialize_f32 f32 => |_| V::Unit, serialize_f64 f64 => |_| V::Unit);
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> Result<V, E> {
        t.serialize(self)
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<V, E> {
        Ok(self.variant(i, n))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, t: &T) -> Result<V, E> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, t: &T) -> Result<V, E> {
        Ok(V::Map(vec![(self.variant(i, n), t.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, E> {
        Ok(Parts::new(self.0, None, false))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, E> {
        Ok(Parts::new(self.0, None, false))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, E> {
        Ok(Parts::new(self.0, None, false))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Parts, E> {
        Ok(Parts::new(self.0, Some(self.variant(i, n)), false))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Parts, E> {
        Ok(Parts::new(self.0, None, true))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Parts, E> {
        Ok(Parts::new(self.0, None, self.0))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Parts, E> {
        Ok(Parts::new(self.0, Some(self.variant(i, n)), self.0))
    }
}
macro_rules! elems { ($($t:ident $f:ident),*) => { $(impl ser::$t for Parts {
    type Ok = V;
    type Error = E;
    fn $f<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> { self.v.push(t.serialize(S(self.h))?); Ok(()) }
    fn end(self) -> Result<V, E> { self.fin() }
})* } }
elems!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! fields { ($($t:ident),*) => { $(impl ser::$t for Parts {
    type Ok = V;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> Result<(), E> { self.field(k, t) }
    fn end(self) -> Result<V, E> { self.fin() }
})* } }
fields!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Parts {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> {
        self.key = Some(t.serialize(S(self.h))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> Result<(), E> {
        let k = self.key.take().unwrap_or(V::Unit);
        self.m.push((k, t.serialize(S(self.h))?));
        Ok(())
    }
    fn end(self) -> Result<V, E> {
        self.fin()
    }
}

#[derive(Clone, Copy)]
struct D<'a>(&'a V, bool);
struct Seq<'a>(std::slice::Iter<'a, V>, bool);
impl<'de> SeqAccess<'de> for Seq<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        self.0.next().map(|v| t.deserialize(D(v, self.1))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
struct MapA<'a>(std::slice::Iter<'a, (V, V)>, Option<&'a V>, bool);
impl<'de> MapAccess<'de> for MapA<'de> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                t.deserialize(D(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, t: T) -> Result<T::Value, E> {
        t.deserialize(D(self.1.take().unwrap_or(&V::Unit), self.2))
    }
}
struct En<'a>(&'a V, Option<&'a V>, bool);
impl<'de> EnumAccess<'de> for En<'de> {
    type Error = E;
    type Variant = En<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<(T::Value, En<'de>), E> {
        let k = match self.0 {
            V::U(i) if !self.2 => t.deserialize((*i).into_deserializer()),
            V::Str(s) if self.2 => t.deserialize(s.as_str().into_deserializer()),
            _ => Err(E("not a variant".into())),
        }?;
        Ok((k, self))
    }
}
impl<'de> VariantAccess<'de> for En<'de> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.1 {
            None => Ok(()),
            _ => Err(E("variant has a value".into())),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, t: T) -> Result<T::Value, E> {
        t.deserialize(D(self.1.ok_or_else(|| E("variant without a value".into()))?, self.2))
    }
    fn tuple_variant<X: Visitor<'de>>(self, _: usize, x: X) -> Result<X::Value, E> {
        de::Deserializer::deserialize_any(D(self.1.unwrap_or(&V::Unit), self.2), x)
    }
    fn struct_variant<X: Visitor<'de>>(self, _: &'static [&'static str], x: X) -> Result<X::Value, E> {
        de::Deserializer::deserialize_any(D(self.1.unwrap_or(&V::Unit), self.2), x)
    }
}
impl<'de> de::Deserializer<'de> for D<'de> {
    type Error = E;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> {
        match self.0 {
            V::Unit => x.visit_unit(),
            V::Bool(b) => x.visit_bool(*b),
            V::U(u) => x.visit_u64(*u),
            V::I(u) => x.visit_i64(*u),
            V::Bytes(b) => x.visit_borrowed_bytes(b),
            V::Str(s) => x.visit_borrowed_str(s),
            V::Seq(v) => {
                let mut s = Seq(v.iter(), self.1);
                let r = x.visit_seq(&mut s)?;
                match s.0.len() {
                    0 => Ok(r),
                    n => Err(E(format!("{n} elements left"))),
                }
            }
            V::Map(m) => {
                let mut s = MapA(m.iter(), None, self.1);
                x.visit_map(&mut s)
            }
        }
    }
    fn deserialize_option<X: Visitor<'de>>(self, x: X) -> Result<X::Value, E> {
        match self.0 {
            V::Unit => x.visit_none(),
            _ => x.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<X: Visitor<'de>>(self, _: &'static str, x: X) -> Result<X::Value, E> {
        x.visit_newtype_struct(self)
    }
    fn deserialize_enum<X: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], x: X) -> Result<X::Value, E> {
        match self.0 {
            V::Map(m) if m.len() == 1 => x.visit_enum(En(&m[0].0, Some(&m[0].1), self.1)),
            k => x.visit_enum(En(k, None, self.1)),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
fn write<T: Serialize + ?Sized>(t: &T, h: bool) -> Result<V, E> {
    t.serialize(S(h))
}
fn read<T: DeserializeOwned>(v: &V, h: bool) -> Result<T, E> {
    T::deserialize(D(v, h))
}
fn dbg(v: &V) -> String {
    format!("{v:?}").chars().take(400).collect()
}

/// written and read back, by both formats
fn back<T: Serialize + DeserializeOwned>(o: &mut Obs, what: &str, t: &T, same: impl Fn(&T, &T) -> bool) -> Res {
    for h in [true, false] {
        let w = || format!("{what} (named: {h})");
        let v = match no_panic("serialize", &w, || write(t, h))? {
            Ok(v) => v,
            Err(e) => return viol("not-written", format!("{}: {e}", w())),
        };
        o.distinct(format!("{v:?}").as_bytes());
        o.sample(|| format!("{what}: {}", dbg(&v)));
        let t2 = match no_panic("deserialize", &|| format!("{} {}", w(), dbg(&v)), || read::<T>(&v, h))? {
            Ok(t) => t,
            Err(e) => return viol("not-read-back", format!("{}: {} is refused: {e}", w(), dbg(&v))),
        };
        ensure!(same(t, &t2), "read-differently", "{}: {} reads as another value", w(), dbg(&v));
        match write(&t2, h) {
            Ok(v2) => ensure!(v == v2, "written-differently", "{}: {} then {}", w(), dbg(&v), dbg(&v2)),
            Err(e) => return viol("not-written", format!("{} again: {e}", w())),
        }
        o.eval();
        o.eval();
        o.add(if h { "named" } else { "numbered" }, 1);
    }
    Ok(())
}
fn ast(r: &mut Rng, depth: usize) -> Vec<ABE> {
    let n = r.usize(5);
    (0..n)
        .map(|_| match r.below(6) {
            0 => ABE::Ctr(Ctr::Colon),
            1 => ABE::Ctr(Ctr::FSlash),
            2 if depth > 0 => ABE::Expr(Expr::Lst(ast(r, depth - 1))),
            _ => ABE::Expr(Expr::Bytes({
                let n = r.len(40);
                r.bytes(n)
            })),
        })
        .collect()
}
fn ex(r: &mut Rng) -> ABE {
    match r.below(3) {
        0 => ABE::Expr(Expr::Lst(ast(r, 2))),
        _ => {
            let n = r.len(40);
            ABE::Expr(Expr::Bytes(r.bytes(n)))
        }
    }
}
/// often of a shape that some type wants
fn shaped(r: &mut Rng) -> Vec<ABE> {
    match r.below(6) {
        0 => vec![ex(r)],
        1 => vec![ex(r), ABE::Ctr(Ctr::Colon), ex(r)],
        2 => (0..r.usize(5)).flat_map(|_| [ABE::Ctr(Ctr::FSlash), ex(r)]).collect(),
        3 => vec![],
        _ => ast(r, 2),
    }
}
/// the shape of a type, as its documentation gives it: expressions without separators, tag:pointer, or /component/component
fn fits(kind: u8, v: &[ABE]) -> bool {
    let e = |a: &ABE| matches!(a, ABE::Expr(_));
    match kind {
        0 => v.iter().all(e),
        1 => v.len() == 3 && e(&v[0]) && matches!(v[1], ABE::Ctr(Ctr::Colon)) && e(&v[2]),
        2 => v.len() == 1 && e(&v[0]) || v.len() % 2 == 0 && v.chunks(2).all(|c| matches!(c[0], ABE::Ctr(Ctr::FSlash)) && e(&c[1])),
        _ => true,
    }
}
fn typed<T: ::abe::convert::ABEValidator>(o: &mut Obs, name: &str, kind: u8, v: &[ABE], h: bool) -> Res {
    let v = v.to_vec();
    let w = || format!("{name} from {v:?} (named: {h})");
    let s = match write(&v, h) {
        Ok(s) => s,
        Err(e) => return viol("not-written", format!("{}: {e}", w())),
    };
    let got = no_panic("deserialize typed", &w, || read::<TypedABE<T>>(&s, h))?;
    o.eval();
    let ok = TypedABE::<T>::from(v.clone()).is_ok();
    if kind < 3 {
        ensure!(ok == fits(kind, &v), "shape", "{}: {} by its shape, but made directly it is {}", w(), if fits(kind, &v) { "fine" } else { "not fine" }, ok);
    }
    match got {
        Ok(t) => {
            ensure!(ok, "shape-accepted", "{} is accepted, though it has not the shape", w());
            ensure!(t.0 == v, "typed-changed", "{} reads as {:?}", w(), t.0);
            o.add("shape accepted", 1);
            match write(&t, h) {
                Ok(s2) => ensure!(s2 == s, "typed-written", "{}: {} then {}", w(), dbg(&s), dbg(&s2)),
                Err(e) => return viol("not-written", format!("{}: {e}", w())),
            }
        }
        Err(e) => {
            ensure!(!ok, "shape-refused", "{} is refused: {e}", w());
            o.add("shape refused", 1)
        }
    }
    Ok(())
}
fn h32(r: &mut Rng) -> LkHash {
    B64(refpkt::a32(r))
}
fn link(r: &mut Rng) -> Link {
    Link { tag: AB(refpkt::a16(r)), ptr: h32(r) }
}
fn expr_text(r: &mut Rng, kind: u8) -> String {
    match kind {
        0 => match r.below(3) {
            0 => "[#:pub]".into(),
            1 => "abc".into(),
            _ => format!("[b:{}]", B64(r.array::<32>())),
        },
        _ => match r.below(4) {
            0 => "".into(),
            1 => "/a/b".into(),
            2 => "/[now]/x".into(),
            _ => "[//a/b]".into(),
        },
    }
}
fn values(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    match i % 12 {
        0 => {
            let v = ast(r, 3);
            back(o, &format!("{v:?}"), &v, |a, b| a == b)?;
            if let Some(e) = v.first() {
                back(o, &format!("{e:?}"), e, |a, b| a == b)?;
            }
        }
        1 => {
            for (c, s) in [(Ctr::Colon, ":"), (Ctr::FSlash, "/")] {
                back(o, s, &c, |a, b| a == b)?;
                ensure!(write(&c, true).ok() == Some(V::Str(s.into())), "control-name", "{s} is written as {:?}", write(&c, true).ok());
                o.add("control characters", 1);
            }
        }
        2 => {
            let n = r.next();
            let e = |n: u64| match n % 4 {
                0 => 0,
                1 => u64::MAX,
                2 => 1 << (n % 61 + 3),
                _ => n,
            };
            let n = e(n);
            back(o, "U16", &U16::new(n as u16), |a, b| a == b)?;
            back(o, "U32", &U32::new(n as u32), |a, b| a == b)?;
            back(o, "U64", &U64::new(n), |a, b| a == b)?;
            back(o, "stamp", &Stamp::new(n), |a, b| a.get() == b.get())?;
        }
        3 => {
            back(o, "hash", &h32(r), |a, b| a.0 == b.0)?;
            back(o, "domain", &AB(refpkt::a16(r)), |a, b| a.0 == b.0)?;
            let n = r.len(100);
            back(o, "bytes", &AB(r.bytes(n)), |a, b| a.0 == b.0)?;
            back(o, "b64 bytes", &B64(r.bytes(n)), |a, b| a.0 == b.0)?;
        }
        4 => {
            let l = link(r);
            back(o, &format!("{l}"), &l, |a, b| a.tag.0 == b.tag.0 && a.ptr.0 == b.ptr.0)?;
            let ls: Vec<Link> = (0..r.usize(5)).map(|_| link(r)).collect();
            back(o, "links", &ls, |a, b| a == b)?;
        }
        5 => {
            let b = r.u8();
            back(o, "NetFlags", &NetFlags::from_bits_retain(b), |x, y| x.bits() == y.bits())?;
            back(o, "PointTypeFlags", &PointTypeFlags::from_bits_retain(b), |x, y| x.bits() == y.bits())?;
            o.add("flags", 1);
            if PointTypeFlags::from_bits(b).is_none() {
                o.add("unknown flag", 1)
            }
        }
        6 => {
            let d = std::time::Duration::new(r.next() >> r.usize(64), r.below(1_000_000_000) as u32);
            back(o, &format!("{d:?}"), &linkspace_core::stamp_fmt::DurationStr(d), |a, b| a.0 == b.0)?;
            for c in 0..=255u8 {
                if let Some(t) = linkspace_core::predicate::TestOp::from_byte(c) {
                    back(o, &format!("{t:?}"), &t, |a, b| a == b)?
                }
            }
        }
        7 => {
            let s = refpkt::spec_ok(r).bytes();
            let p = match linkspace_pkt::read::read_pkt(&s, true) {
                Ok(p) => p.into_owned(),
                Err(_) => return Ok(()),
            };
            if let Some(t) = linkspace_pkt::tree_order::TreeEntry::from_pkt(r.next().into(), &p) {
                back(o, "TreeKey", &t.btree_key, |a, b| a.as_bytes() == b.as_bytes())?;
            }
        }
        8 => {
            // a space: its components as text, or its bytes
            let c = refpkt::comps(r);
            let sb = refpkt::sp(&c);
            let sp = match Space::from_slice(&sb) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            };
            let w = || show(&sb);
            let (h, b) = no_panic("serialize space", &w, || (write(sp, true), write(sp, false)))?;
            match h {
                Ok(V::Seq(ts)) => {
                    let mut got = vec![];
                    for t in &ts {
                        let V::Str(t) = t else { return viol("space-text", format!("{}: {t:?}", w())) };
                        match parse_abe(t, false) {
                            Ok(v) if v.is_empty() => got.push(vec![]),
                            Ok(v) if v.len() == 1 => match &v[0] {
                                ABE::Expr(Expr::Bytes(b)) => got.push(b.clone()),
                                _ => return viol("space-text", format!("{}: component {t:?} is not plain text", w())),
                            },
                            _ => return viol("space-text", format!("{}: component {t:?} is not one component", w())),
                        }
                    }
                    ensure!(got == c, "space-text", "{}: {ts:?}", w());
                }
                x => return viol("space-text", format!("{}: {x:?}", w())),
            }
            ensure!(b.as_ref().ok() == Some(&V::Seq(sb.iter().map(|b| V::U(*b as u64)).collect())) || b.as_ref().ok() == Some(&V::Bytes(sb.clone())), "space-bytes", "{}: {b:?}", w());
            o.eval();
        o.eval();
            o.add("space as text", 1);
            o.add("space as bytes", 1);
            if let Ok(rs) = sp.into_spacebuf().try_into_rooted() {
                for h in [true, false] {
                    let x = no_panic("serialize rooted", &w, || write(&rs, h))?;
                    ensure!(x.ok() == write(sp, h).ok(), "rooted-space", "{} differs from its rooted form (named: {h})", w());
                }
            }
        }
        9 => {
            let (a, b, c) = (shaped(r), shaped(r), shaped(r));
            for h in [true, false] {
                typed::<Domain>(o, "DomainExpr", 0, &a, h)?;
                typed::<LkHash>(o, "HashExpr", 0, &b, h)?;
                typed::<U32>(o, "U32", 3, &b, h)?;
                typed::<String>(o, "String", 3, &a, h)?;
                typed::<Vec<u8>>(o, "Vec<u8>", 3, &a, h)?;
                typed::<Link>(o, "LinkExpr", 1, &c, h)?;
                typed::<SpaceBuf>(o, "SpaceExpr", 2, &a, h)?;
                typed::<RootedSpaceBuf>(o, "RootedSpaceExpr", 2, &c, h)?;
            }
        }
        10 => {
            let x = (|| Some(DGSExpr { domain: expr_text(r, 0).parse().ok()?, group: expr_text(r, 0).parse().ok()?, space: expr_text(r, 1).parse().ok()? }))();
            let Some(x) = x else { return Ok(()) };
            let same = |a: &DGSExpr, b: &DGSExpr| a.domain == b.domain && a.group == b.group && a.space == b.space;
            back(o, &format!("{x:?}"), &x, same)?;
            let d = DGSDExpr { dgs: x, depth_limit: r.u8() };
            back(o, &format!("{d:?}"), &d, |a, b| same(&a.dgs, &b.dgs) && a.depth_limit == b.depth_limit)?;
        }
        _ => {
            // parts of the wrong shape inside a larger value
            let parts = [shaped(r), shaped(r), shaped(r)];
            let h = r.bool();
            let fs: Vec<V> = parts.iter().filter_map(|p| write(p, h).ok()).collect();
            let v = if h { V::Map(["domain", "group", "space"].iter().map(|k| V::Str(k.to_string())).zip(fs).collect()) } else { V::Seq(fs) };
            let ok = fits(0, &parts[0]) && fits(0, &parts[1]) && fits(2, &parts[2]);
            let got = no_panic("deserialize dgs", &|| dbg(&v), || read::<DGSExpr>(&v, h))?;
            o.eval();
            ensure!(got.is_ok() == ok, "dgs-shape", "domain, group and space from {parts:?}: {}", if ok { "refused" } else { "accepted" });
            if !ok {
                o.add("shape refused in a field", 1)
            }
        }
    }
    Ok(())
}

fn alter(r: &mut Rng, v: &mut V) {
    match v {
        V::Seq(s) if !s.is_empty() && r.chance(2, 3) => {
            let k = r.usize(s.len());
            alter(r, &mut s[k])
        }
        V::Map(m) if !m.is_empty() && r.chance(2, 3) => {
            let k = r.usize(m.len());
            let e = &mut m[k];
            if r.chance(1, 4) {
                alter(r, &mut e.0)
            } else {
                alter(r, &mut e.1)
            }
        }
        V::Seq(s) => match r.below(5) {
            0 => {
                s.pop();
            }
            1 => s.push(V::U(r.below(300))),
            2 => {
                let n = s.len();
                r.shuffle(&mut s[..]);
                s.truncate(n)
            }
            3 => *v = V::Bytes(s.iter().map(|x| if let V::U(b) = x { *b as u8 } else { 0 }).collect()),
            _ => *s = vec![V::Seq(std::mem::take(s))],
        },
        V::Map(m) => match r.below(4) {
            0 => {
                m.pop();
            }
            1 => {
                let n = m.len().max(1);
                if let Some(e) = m.get(r.usize(n)).cloned() {
                    m.push(e)
                }
            }
            2 => m.push((V::Str("other".into()), V::Unit)),
            _ => *v = V::Seq(m.drain(..).map(|e| e.1).collect()),
        },
        V::U(n) => {
            *v = match r.below(6) {
                0 => V::U(n.saturating_add(256)),
                1 => V::I(-1),
                2 => V::U(u64::MAX),
                3 => V::Str(n.to_string()),
                4 => V::Unit,
                _ => V::U(n.wrapping_add(1)),
            }
        }
        V::Str(s) => match r.below(5) {
            0 => s.push('x'),
            1 => *s = ["DATA | LINK", "0x40", "ERROR", ":", "Expr", "Ctr", "Bytes", "", "::", "\u{fc}"][r.usize(10)].into(),
            2 => *v = V::U(0),
            3 => *v = V::Bytes(s.as_bytes().to_vec()),
            _ => *s = s.to_lowercase(),
        },
        _ => *v = V::Seq(vec![]),
    }
}
/// what is accepted must write itself as something that reads as the same
fn judge<T: Serialize + DeserializeOwned>(o: &mut Obs, what: &str, v: &V, h: bool) -> Res {
    let w = || format!("{what} from {} (named: {h})", dbg(v));
    let got = no_panic("deserialize", &w, || read::<T>(v, h))?;
    o.eval();
    match got {
        Err(_) => o.add("refused", 1),
        Ok(t) => {
            o.add("accepted", 1);
            let s = match no_panic("serialize", &w, || write(&t, h))? {
                Ok(s) => s,
                Err(e) => return viol("not-written", format!("{}: {e}", w())),
            };
            match no_panic("deserialize", &w, || read::<T>(&s, h).and_then(|t| write(&t, h)))? {
                Ok(s2) => ensure!(s == s2, "written-differently", "{}: {} then {}", w(), dbg(&s), dbg(&s2)),
                Err(e) => return viol("not-read-back", format!("{}: {} is refused: {e}", w(), dbg(&s))),
            }
            // nothing may be lost: a list of bytes keeps each of them
            if let (V::Seq(a), V::Seq(b)) = (v, &s) {
                if a.iter().all(|x| matches!(x, V::U(n) if *n < 256)) && b.iter().all(|x| matches!(x, V::U(_))) {
                    ensure!(a == b, "bytes-changed", "{}: reads as {}", w(), dbg(&s));
                }
            }
        }
    }
    Ok(())
}
fn foreign(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let h = r.bool();
    let v = match r.below(8) {
        0 => write(&ast(r, 2), h),
        1 => write(&shaped(r), h),
        2 => write(&U64::new(r.next()), h),
        3 => write(&h32(r), h),
        4 => write(&link(r), h),
        5 => write(&PointTypeFlags::from_bits_retain(r.u8()), h),
        6 => write(&linkspace_core::stamp_fmt::DurationStr(std::time::Duration::new(r.next(), 5)), h),
        _ => write(&AB(refpkt::a16(r)), h),
    };
    let Ok(mut v) = v else { return Ok(()) };
    for _ in 0..r.usize(3) {
        alter(r, &mut v);
        o.add("bytes altered", 1);
    }
    o.distinct(format!("{v:?}").as_bytes());
    judge::<Vec<ABE>>(o, "expression", &v, h)?;
    judge::<ABE>(o, "ABE", &v, h)?;
    judge::<Ctr>(o, "Ctr", &v, h)?;
    judge::<U16>(o, "U16", &v, h)?;
    judge::<U64>(o, "U64", &v, h)?;
    judge::<LkHash>(o, "hash", &v, h)?;
    judge::<Domain>(o, "domain", &v, h)?;
    judge::<AB<Vec<u8>>>(o, "bytes", &v, h)?;
    judge::<Link>(o, "link", &v, h)?;
    judge::<NetFlags>(o, "NetFlags", &v, h)?;
    judge::<PointTypeFlags>(o, "PointTypeFlags", &v, h)?;
    judge::<linkspace_core::predicate::TestOp>(o, "TestOp", &v, h)?;
    judge::<linkspace_core::stamp_fmt::DurationStr>(o, "duration", &v, h)?;
    judge::<TypedABE<SpaceBuf>>(o, "SpaceExpr", &v, h)?;
    judge::<TypedABE<Link>>(o, "LinkExpr", &v, h)?;
    judge::<DGSExpr>(o, "DGSExpr", &v, h)?;
    Ok(())
}
