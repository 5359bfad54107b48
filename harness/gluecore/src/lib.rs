//! Bridge between value trees and the real runtime / generated types.
use std::any::Any;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use zmodel::value::{Obj, V};
use zserio::vendor::{BitReader, BitWriter};
use zserio::ztype::{self, BytesType, ExternType, ZserioPackableObject};
use zserio::ZserioError;

pub trait Glue: Sized {
    fn to_v(&self) -> V;
    /// None if the value cannot be held by the Rust type.
    fn from_v(v: &V) -> Option<Self>;
    fn set_params(&mut self, _p: &[V]) -> Option<()> { Some(()) }
    fn func(&self, _i: usize) -> V { unreachable!() }
}
pub fn obj(params: Vec<V>, sel: u32, fields: Vec<V>) -> V { V::Obj(Box::new(Obj { params, sel, fields })) }

pub fn as_obj(v: &V) -> Option<&Obj> { match v { V::Obj(o) => Some(o), _ => None } }
pub fn as_enum(v: &V) -> Option<Option<i128>> { match v { V::Enum(i) => Some(Some(*i)), V::Absent | V::Skip => Some(None), _ => None } }
pub fn as_mask(v: &V) -> Option<Option<i128>> { match v { V::Mask(i) => Some(Some(*i)), V::Absent | V::Skip => Some(None), _ => None } }

pub fn like<T: TryFrom<i128>>(_: T, b: i128) -> Option<T> { T::try_from(b).ok() }
macro_rules! int_glue { ($($t:ty)*) => { $(impl Glue for $t {
    fn to_v(&self) -> V { V::Int(*self as i128) }
    fn from_v(v: &V) -> Option<Self> { match v { V::Int(i) => (*i).try_into().ok(), V::Absent | V::Skip => Some(0), _ => None } }
} impl ConstV for $t { fn cv(&self) -> V { V::Int(*self as i128) } })* } }
pub trait ConstV { fn cv(&self) -> V; }
int_glue! { u8 u16 u32 u64 i8 i16 i32 i64 }
impl Glue for bool { fn to_v(&self) -> V { V::Bool(*self) } fn from_v(v: &V) -> Option<Self> { match v { V::Bool(b) => Some(*b), V::Absent | V::Skip => Some(false), _ => None } } }
impl Glue for f32 { fn to_v(&self) -> V { V::F32(self.to_bits()) } fn from_v(v: &V) -> Option<Self> { match v { V::F32(b) => Some(f32::from_bits(*b)), V::Absent | V::Skip => Some(0.0), _ => None } } }
impl Glue for f64 { fn to_v(&self) -> V { V::F64(self.to_bits()) } fn from_v(v: &V) -> Option<Self> { match v { V::F64(b) => Some(f64::from_bits(*b)), V::Absent | V::Skip => Some(0.0), _ => None } } }
impl Glue for String { fn to_v(&self) -> V { V::Str(self.clone()) } fn from_v(v: &V) -> Option<Self> { match v { V::Str(s) => Some(s.clone()), V::Absent | V::Skip => Some(String::new()), _ => None } } }
impl ConstV for bool { fn cv(&self) -> V { V::Bool(*self) } }
impl ConstV for f32 { fn cv(&self) -> V { V::F32(self.to_bits()) } }
impl ConstV for f64 { fn cv(&self) -> V { V::F64(self.to_bits()) } }
impl ConstV for &str { fn cv(&self) -> V { V::Str(self.to_string()) } }
impl Glue for ExternType {
    fn to_v(&self) -> V {
        // a blob that disagrees with the bit size is shown as it is
        if self.data_blob.len() as u64 == (self.bit_size as u64).div_ceil(8) { V::Ext(self.data_blob.clone(), self.bit_size as u64) } else { V::Arr(vec![V::Blob(self.data_blob.clone()), V::Int(self.bit_size as i128)]) }
    }
    fn from_v(v: &V) -> Option<Self> { match v { V::Ext(b, n) => Some(ExternType { bit_size: *n as u32, data_blob: b.clone() }), V::Absent | V::Skip => Some(Default::default()), _ => None } }
}
impl Glue for BytesType {
    fn to_v(&self) -> V { if self.data_blob.len() == self.byte_size as usize { V::Blob(self.data_blob.clone()) } else { V::Arr(vec![V::Blob(self.data_blob.clone()), V::Int(self.byte_size as i128)]) } }
    fn from_v(v: &V) -> Option<Self> { match v { V::Blob(b) => Some(BytesType { byte_size: b.len() as u32, data_blob: b.clone() }), V::Absent | V::Skip => Some(Default::default()), _ => None } }
}
impl<T: Glue> Glue for Option<T> {
    fn to_v(&self) -> V { match self { None => V::Absent, Some(x) => x.to_v() } }
    fn from_v(v: &V) -> Option<Self> { match v { V::Absent | V::Skip => Some(None), v => Some(Some(T::from_v(v)?)) } }
}
impl<T: Glue> Glue for Vec<T> {
    fn to_v(&self) -> V { V::Arr(self.iter().map(|x| x.to_v()).collect()) }
    fn from_v(v: &V) -> Option<Self> { match v { V::Arr(a) => a.iter().map(T::from_v).collect(), V::Absent | V::Skip => Some(vec![]), _ => None } }
}

/// Result of driving the real code.
#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> { Ok(T), Err(String), Panic(String), /** the value does not fit the Rust type */ NoValue }
impl<T> Out<T> {
    pub fn is_ok(&self) -> bool { matches!(self, Out::Ok(_)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(_)) }
    pub fn ok(&self) -> Option<&T> { match self { Out::Ok(x) => Some(x), _ => None } }
    pub fn kind(&self) -> String { match self { Out::Ok(_) => "ok".into(), Out::Err(e) => format!("error: {e}"), Out::Panic(p) => format!("panic: {p}"), Out::NoValue => "not a value of the Rust type".into() } }
}

thread_local! { static LAST: RefCell<String> = const { RefCell::new(String::new()) }; }
/// Arithmetic that overflowed in a checked build, by place.
pub static ARITH: std::sync::Mutex<std::collections::BTreeMap<String, u64>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
/// Install a silent panic hook that remembers the message and place.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let at = i.location().map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line())).unwrap_or_default();
        if m.starts_with("attempt to ") { if let Ok(mut g) = ARITH.lock() { *g.entry(format!("{m} at {}", at.split(':').next().unwrap_or(""))).or_insert(0) += 1; } }
        if let Ok(mut g) = LASTG.lock() { *g = format!("{m} at {at}"); }
        let _ = LAST.try_with(|x| *x.borrow_mut() = format!("{m} at {at}"));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p: Box<dyn Any + Send>| { drop(p); LAST.with(|x| x.borrow().clone()) })
}
pub fn run<T>(f: impl FnOnce() -> Result<T, ZserioError>) -> Out<T> {
    match guard(f) { Ok(Ok(x)) => Out::Ok(x), Ok(Err(e)) => Out::Err(format!("{e:?}")), Err(p) => Out::Panic(p) }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Enc { pub bytes: Vec<u8>, pub bits: u64 }
#[derive(Debug, Clone, PartialEq)]
pub struct Dec { pub v: V, pub bits: u64 }

pub fn writer_at(start: u64) -> BitWriter {
    let mut w = BitWriter::new();
    for _ in 0..start { w.write_bool(false).unwrap(); }
    w
}
pub fn reader_at(b: &[u8], start: u64) -> BitReader<'_> { let mut r = BitReader::new(b); r.skip(start).unwrap(); r }
fn finish(mut w: BitWriter, start: u64) -> Result<Enc, ZserioError> {
    let bits = w.bit_count() - start;
    w.close()?;
    Ok(Enc { bytes: w.data().clone(), bits })
}

pub trait Driver: Send + Sync {
    /// The value as the real type shows it again (None if it cannot be held).
    fn reflect(&self, v: &V) -> Option<V>;
    fn encode(&self, v: &V, start: u64) -> Out<Enc>;
    /// Encode twice from one object; the bytes of both runs and whether the object stayed equal.
    fn encode_twice(&self, v: &V, start: u64) -> Out<(Enc, Enc, bool)>;
    fn bitsize(&self, v: &V, start: u64) -> Out<u64>;
    fn decode(&self, params: &[V], b: &[u8], start: u64) -> Out<Dec>;
    /// Decode and drop, nothing else.
    fn accepts(&self, b: &[u8]) -> Out<u64>;
    /// Decode into an object that already holds `old`.
    fn decode_over(&self, old: &V, params: &[V], b: &[u8], start: u64) -> Out<Dec>;
    /// Decode what encode produced and compare with the derived equality.
    fn equal_after(&self, v: &V) -> Out<bool>;
    /// Array of these objects: encode / size / decode, fixed length, packed or not.
    fn list_encode(&self, vs: &[V], packed: bool, start: u64) -> Out<Enc>;
    fn list_bitsize(&self, vs: &[V], packed: bool, start: u64) -> Out<u64>;
    fn list_decode(&self, n: usize, packed: bool, b: &[u8], start: u64) -> Out<Dec>;
    fn to_bytes(&self, v: &V) -> Out<Vec<u8>>;
    fn to_writer(&self, v: &V, w: &mut dyn Write) -> Out<()>;
    fn from_bytes(&self, b: &[u8]) -> Out<V>;
    fn from_reader(&self, r: &mut dyn Read) -> Out<V>;
    fn from_file(&self, p: &std::path::Path) -> Out<V>;
    fn extern_of(&self, v: &V) -> Out<V>;
    fn func(&self, v: &V, i: usize) -> Out<V>;
    /// Decode only; the value is dropped inside (for memory and timing measurements). Ok(elements) or error.
    fn decode_quiet(&self, params: &[V], b: &[u8]) -> Out<()>;
    /// Decode then re-encode with the real types only: bytes and derived equality of a second decode.
    fn reencode(&self, params: &[V], b: &[u8]) -> Out<Option<(Enc, Out<bool>, V)>>;
}
pub struct D<T>(std::marker::PhantomData<fn() -> T>);

fn list<T>(n: Option<usize>, packed: bool) -> ztype::Array<T> where T: ZserioPackableObject + 'static {
    ztype::Array::<T> { array_trait: Box::new(ztype::array_traits::ObjectArrayTrait {}), fixed_size: n, is_packed: packed }
}
macro_rules! get { ($v:expr) => { match T::from_v($v) { Some(x) => x, None => return Out::NoValue } } }
impl<T: Glue + ZserioPackableObject + Clone + PartialEq + 'static> Driver for D<T> {
    fn reflect(&self, v: &V) -> Option<V> { T::from_v(v).map(|x| x.to_v()) }
    fn encode(&self, v: &V, start: u64) -> Out<Enc> {
        let o = get!(v);
        run(|| { let mut w = writer_at(start); o.zserio_write(&mut w)?; finish(w, start) })
    }
    fn encode_twice(&self, v: &V, start: u64) -> Out<(Enc, Enc, bool)> {
        let o = get!(v);
        let c = o.clone();
        run(|| {
            let mut w = writer_at(start); o.zserio_write(&mut w)?; let a = finish(w, start)?;
            let _ = o.zserio_bitsize(start)?;
            let mut w = writer_at(start); o.zserio_write(&mut w)?; let b = finish(w, start)?;
            Ok((a, b, o == c))
        })
    }
    fn bitsize(&self, v: &V, start: u64) -> Out<u64> { let o = get!(v); run(|| o.zserio_bitsize(start)) }
    fn decode(&self, params: &[V], b: &[u8], start: u64) -> Out<Dec> {
        let mut o = T::default();
        if o.set_params(params).is_none() { return Out::NoValue; }
        run(|| { let mut r = reader_at(b, start); o.zserio_read(&mut r)?; Ok(Dec { bits: r.position() - start, v: o.to_v() }) })
    }
    fn accepts(&self, b: &[u8]) -> Out<u64> { run(|| { let mut o = T::default(); let mut r = reader_at(b, 0); o.zserio_read(&mut r)?; Ok(r.position()) }) }
    fn decode_over(&self, old: &V, params: &[V], b: &[u8], start: u64) -> Out<Dec> {
        let mut o = get!(old);
        if o.set_params(params).is_none() { return Out::NoValue; }
        run(|| { let mut r = reader_at(b, start); o.zserio_read(&mut r)?; Ok(Dec { bits: r.position() - start, v: o.to_v() }) })
    }
    fn equal_after(&self, v: &V) -> Out<bool> {
        let o = get!(v);
        let p = match v { V::Obj(o) => o.params.clone(), _ => vec![] };
        let mut q = T::default();
        if q.set_params(&p).is_none() { return Out::NoValue; }
        run(|| { let b = zserio::to_bytes(&o)?; let mut r = BitReader::new(&b); q.zserio_read(&mut r)?; Ok(q == o) })
    }
    fn list_encode(&self, vs: &[V], packed: bool, start: u64) -> Out<Enc> {
        let os: Vec<T> = match vs.iter().map(T::from_v).collect() { Some(x) => x, None => return Out::NoValue };
        run(|| { let mut w = writer_at(start); list::<T>(Some(os.len()), packed).zserio_write(&mut w, &os, None::<&Vec<u32>>)?; finish(w, start) })
    }
    fn list_bitsize(&self, vs: &[V], packed: bool, start: u64) -> Out<u64> {
        let os: Vec<T> = match vs.iter().map(T::from_v).collect() { Some(x) => x, None => return Out::NoValue };
        run(|| list::<T>(Some(os.len()), packed).zserio_bitsize(&os, None::<&Vec<u32>>, start))
    }
    fn list_decode(&self, n: usize, packed: bool, b: &[u8], start: u64) -> Out<Dec> {
        run(|| {
            let mut r = reader_at(b, start);
            let mut out: Vec<T> = vec![];
            list::<T>(Some(n), packed).zserio_read(&mut r, &mut out, n, None::<&Vec<u32>>)?;
            Ok(Dec { bits: r.position() - start, v: out.to_v() })
        })
    }
    fn to_bytes(&self, v: &V) -> Out<Vec<u8>> { let o = get!(v); run(|| zserio::to_bytes(&o)) }
    fn to_writer(&self, v: &V, w: &mut dyn Write) -> Out<()> { let o = get!(v); run(|| zserio::to_writer(w, &o)) }
    fn from_bytes(&self, b: &[u8]) -> Out<V> { run(|| zserio::from_bytes::<T>(b).map(|x| x.to_v())) }
    fn from_reader(&self, r: &mut dyn Read) -> Out<V> { run(|| zserio::from_reader::<_, T>(r).map(|x| x.to_v())) }
    fn from_file(&self, p: &std::path::Path) -> Out<V> { run(|| zserio::from_file::<_, T>(p).map(|x| x.to_v())) }
    fn extern_of(&self, v: &V) -> Out<V> { let o = get!(v); run(|| ExternType::from_object(&o).map(|x| x.to_v())) }
    fn func(&self, v: &V, i: usize) -> Out<V> { let o = get!(v); run(|| Ok(o.func(i))) }
    fn decode_quiet(&self, params: &[V], b: &[u8]) -> Out<()> {
        let mut o = T::default();
        if o.set_params(params).is_none() { return Out::NoValue; }
        run(|| { let mut r = BitReader::new(b); o.zserio_read(&mut r) })
    }
    fn reencode(&self, params: &[V], b: &[u8]) -> Out<Option<(Enc, Out<bool>, V)>> {
        let mut o = T::default();
        if o.set_params(params).is_none() { return Out::NoValue; }
        match run(|| { let mut r = BitReader::new(b); o.zserio_read(&mut r) }) { Out::Ok(()) => {} Out::Err(_) => return Out::Ok(None), Out::Panic(p) => return Out::Panic(p), Out::NoValue => return Out::NoValue }
        let v = o.to_v();
        let e = match run(|| { let mut w = BitWriter::new(); o.zserio_write(&mut w)?; finish(w, 0) }) { Out::Ok(e) => e, Out::Err(e) => return Out::Err(e), Out::Panic(p) => return Out::Panic(p), Out::NoValue => return Out::NoValue };
        let mut q = T::default();
        let _ = q.set_params(params);
        let eq = run(|| { let mut r = BitReader::new(&e.bytes); q.zserio_read(&mut r)?; Ok(q == o) });
        Out::Ok(Some((e, eq, v)))
    }
}

pub struct TypeEntry { pub schema: String, pub id: String, pub d: Box<dyn Driver> }
type EnumProbe = Box<dyn Fn(i64) -> Option<V> + Send + Sync>;
pub struct EnumEntry { pub schema: String, pub id: String, pub items: Vec<(String, i128)>, pub probe: EnumProbe, pub d: Box<dyn Driver> }
pub struct MaskEntry { pub schema: String, pub id: String, pub items: Vec<(String, i128)>, pub d: Box<dyn Driver> }
pub struct ConstEntry { pub schema: String, pub id: String, pub v: V }
#[derive(Default)]
pub struct Registry { cur: String, pub types: Vec<TypeEntry>, pub enums: Vec<EnumEntry>, pub masks: Vec<MaskEntry>, pub consts: Vec<ConstEntry> }
fn own(v: Vec<(&str, i128)>) -> Vec<(String, i128)> { v.into_iter().map(|(a, b)| (a.to_string(), b)).collect() }
impl Registry {
    pub fn begin(&mut self, schema: &str) { self.cur = schema.to_string(); }
    pub fn typ<T: Glue + ZserioPackableObject + Clone + PartialEq + 'static>(&mut self, id: &str) {
        self.types.push(TypeEntry { schema: self.cur.clone(), id: id.into(), d: Box::new(D::<T>(Default::default())) });
    }
    pub fn enm<T: Glue + ZserioPackableObject + Clone + PartialEq + 'static>(&mut self, id: &str, items: Vec<(&str, i128)>, probe: fn(i64) -> Option<T>) {
        self.enums.push(EnumEntry { schema: self.cur.clone(), id: id.into(), items: own(items), probe: Box::new(move |i| probe(i).map(|x| x.to_v())), d: Box::new(D::<T>(Default::default())) });
    }
    pub fn mask<T: Glue + ZserioPackableObject + Clone + PartialEq + 'static>(&mut self, id: &str, items: Vec<(&str, i128)>) {
        self.masks.push(MaskEntry { schema: self.cur.clone(), id: id.into(), items: own(items), d: Box::new(D::<T>(Default::default())) });
    }
    pub fn cst(&mut self, id: &str, v: V) { self.consts.push(ConstEntry { schema: self.cur.clone(), id: id.into(), v }); }
}
static LASTG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// Message of the most recent panic of any thread.
pub fn last_panic() -> String { LASTG.lock().unwrap().clone() }
