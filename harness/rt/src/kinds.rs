// Scalar kinds: the real functions next to the specification.

type W = zserio::vendor::BitWriter;
type R<'a> = zserio::vendor::BitReader<'a>;
type Z<T> = zserio::Result<T>;

struct Kind {
    name: String,
    ty: Ty,
    /// encode with the real code; None: the Rust type cannot hold the value
    write: Box<dyn Fn(&mut W, &V) -> Option<Z<()>> + Send + Sync>,
    read: Box<dyn Fn(&mut R) -> Z<V> + Send + Sync>,
    size: Option<Box<dyn Fn(&V) -> Option<Z<u64>> + Send + Sync>>,
    /// values the Rust type holds (integers)
    holds: (i128, i128),
}

fn kinds() -> Vec<Kind> {
    let mut k: Vec<Kind> = vec![];
    macro_rules! int { ($t:ty, $ty:expr, $w:ident, $r:ident, $s:expr) => { k.push(Kind {
        name: stringify!($r).trim_start_matches("read_").into(), ty: $ty,
        write: Box::new(|w, v| Some($w(w, <$t>::try_from(v.int()).ok()?))),
        read: Box::new(|r| Ok(V::Int($r(r)? as i128))),
        size: $s, holds: (<$t>::MIN as i128, <$t>::MAX as i128) }) } }
    macro_rules! sized { ($t:ty, $f:ident) => { Some(Box::new(|v: &V| Some($f(<$t>::try_from(v.int()).ok()?).map(|x| x as u64)))) } }
    int!(u8, Ty::Int { signed: false, bits: 8 }, write_uint8, read_uint8, None);
    int!(u16, Ty::Int { signed: false, bits: 16 }, write_uint16, read_uint16, None);
    int!(u32, Ty::Int { signed: false, bits: 32 }, write_uint32, read_uint32, None);
    int!(u64, Ty::Int { signed: false, bits: 64 }, write_uint64, read_uint64, None);
    int!(i8, Ty::Int { signed: true, bits: 8 }, write_int8, read_int8, None);
    int!(i16, Ty::Int { signed: true, bits: 16 }, write_int16, read_int16, None);
    int!(i32, Ty::Int { signed: true, bits: 32 }, write_int32, read_int32, None);
    int!(i64, Ty::Int { signed: true, bits: 64 }, write_int64, read_int64, None);
    int!(u16, Ty::Var(VarKind::U16), write_varuint16, read_varuint16, sized!(u16, varuint16_bitsize));
    int!(u32, Ty::Var(VarKind::U32), write_varuint32, read_varuint32, sized!(u32, varuint32_bitsize));
    int!(u64, Ty::Var(VarKind::U64), write_varuint64, read_varuint64, sized!(u64, varuint64_bitsize));
    int!(u64, Ty::Var(VarKind::U), write_varuint, read_varuint, sized!(u64, varuint_bitsize));
    int!(u32, Ty::Var(VarKind::Size), write_varsize, read_varsize, sized!(u32, varsize_bitsize));
    int!(i16, Ty::Var(VarKind::I16), write_varint16, read_varint16, sized!(i16, varint16_bitsize));
    int!(i32, Ty::Var(VarKind::I32), write_varint32, read_varint32, sized!(i32, varint32_bitsize));
    int!(i64, Ty::Var(VarKind::I64), write_varint64, read_varint64, sized!(i64, varint64_bitsize));
    int!(i64, Ty::Var(VarKind::I), write_varint, read_varint, sized!(i64, varint_bitsize));
    for bits in 1..=64u8 {
        k.push(Kind { name: format!("bit:{bits}"), ty: Ty::Int { signed: false, bits }, holds: (0, u64::MAX as i128), size: None,
            write: Box::new(move |w, v| Some(write_unsigned_bits(w, u64::try_from(v.int()).ok()?, bits))), read: Box::new(move |r| Ok(V::Int(read_unsigned_bits(r, bits)? as i128))) });
        k.push(Kind { name: format!("int:{bits}"), ty: Ty::Int { signed: true, bits }, holds: (i64::MIN as i128, i64::MAX as i128), size: None,
            write: Box::new(move |w, v| Some(write_signed_bits(w, i64::try_from(v.int()).ok()?, bits))), read: Box::new(move |r| Ok(V::Int(read_signed_bits(r, bits)? as i128))) });
    }
    let f32of = |v: &V| if let V::F32(b) = v { f32::from_bits(*b) } else { panic!() };
    k.push(Kind { name: "bool".into(), ty: Ty::Bool, holds: (0, 0), size: None,
        write: Box::new(|w, v| Some(at::BooleanArrayTrait {}.write(w, &(*v == V::Bool(true))))), read: Box::new(|r| { let mut b = false; at::BooleanArrayTrait {}.read(r, &mut b)?; Ok(V::Bool(b)) }) });
    k.push(Kind { name: "float16".into(), ty: Ty::F16, holds: (0, 0), size: None, write: Box::new(move |w, v| Some(write_float16(w, f32of(v)))), read: Box::new(|r| Ok(V::F32(read_float16(r)?.to_bits()))) });
    k.push(Kind { name: "float32".into(), ty: Ty::F32, holds: (0, 0), size: None, write: Box::new(move |w, v| Some(write_float32(w, f32of(v)))), read: Box::new(|r| Ok(V::F32(read_float32(r)?.to_bits()))) });
    k.push(Kind { name: "float64".into(), ty: Ty::F64, holds: (0, 0), size: None, write: Box::new(|w, v| Some(write_float64(w, if let V::F64(b) = v { f64::from_bits(*b) } else { panic!() }))), read: Box::new(|r| Ok(V::F64(read_float64(r)?.to_bits()))) });
    k.push(Kind { name: "string".into(), ty: Ty::Str, holds: (0, 0), size: Some(Box::new(|v| Some(bitsize_string(if let V::Str(s) = v { s.as_str() } else { panic!() })))),
        write: Box::new(|w, v| Some(write_string(w, if let V::Str(s) = v { s.as_str() } else { panic!() }))), read: Box::new(|r| Ok(V::Str(read_string(r)?))) });
    k.push(Kind { name: "bytes".into(), ty: Ty::Bytes, holds: (0, 0), size: Some(Box::new(|v| Some(Ok(bitsize_of_bytes(&BytesType::from_v(v)?))))),
        write: Box::new(|w, v| Some(write_bytes_type(w, &BytesType::from_v(v)?))), read: Box::new(|r| Ok(read_bytes_type(r)?.to_v())) });
    k.push(Kind { name: "extern".into(), ty: Ty::Ext, holds: (0, 0), size: Some(Box::new(|v| Some(Ok(bitsize_of_extern(&ExternType::from_v(v)?))))),
        write: Box::new(|w, v| Some(write_extern_type(w, &ExternType::from_v(v)?))), read: Box::new(|r| Ok(read_extern_type(r)?.to_v())) });
    k
}

// ---- the specification of one value ----------------------------------------------------------
fn spec_write(ty: &Ty, v: &V, w: &mut BW) -> bool {
    let varsize = |w: &mut BW, n: usize| match var_bytes(VarKind::Size, n as i128) { Some(b) => { for x in b { w.bits(x as u128, 8); } true } None => false };
    match (ty, v) {
        (Ty::Int { signed, bits }, V::Int(i)) => { let (lo, hi) = range(*signed, *bits); if *i < lo || *i > hi { return false; } w.bits(*i as u128, *bits as u32); true }
        (Ty::Var(k), V::Int(i)) => match var_bytes(*k, *i) { Some(b) => { for x in b { w.bits(x as u128, 8); } true } None => false },
        (Ty::Bool, V::Bool(b)) => { w.bit(*b); true }
        (Ty::F16, V::F32(b)) => { w.bits(f32_to_f16(*b) as u128, 16); true }
        (Ty::F32, V::F32(b)) => { w.bits(*b as u128, 32); true }
        (Ty::F64, V::F64(b)) => { w.bits(*b as u128, 64); true }
        (Ty::Str, V::Str(s)) => { if !varsize(w, s.len()) { return false; } for x in s.bytes() { w.bits(x as u128, 8); } true }
        (Ty::Bytes, V::Blob(s)) => { if !varsize(w, s.len()) { return false; } for x in s { w.bits(*x as u128, 8); } true }
        (Ty::Ext, V::Ext(b, n)) => { if !varsize(w, *n as usize) { return false; } w.slice(b, *n); true }
        x => panic!("{x:?}"),
    }
}
fn spec_read(ty: &Ty, r: &mut BR) -> Result<V, DErr> {
    let size = |r: &mut BR| read_var(VarKind::Size, r);
    let blob = |r: &mut BR| -> Result<Vec<u8>, DErr> { let n = size(r)? as u64; if n * 8 > r.left() { return Err(DErr::Eof); } Ok((0..n).map(|_| r.bits(8).unwrap() as u8).collect()) };
    Ok(match ty {
        Ty::Int { signed, bits } => { let x = r.bits(*bits as u32).ok_or(DErr::Eof)? as i128; V::Int(if *signed && x >> (bits - 1) & 1 == 1 { x - (1i128 << bits) } else { x }) }
        Ty::Var(k) => V::Int(read_var(*k, r)?),
        Ty::Bool => V::Bool(r.bit().ok_or(DErr::Eof)?),
        Ty::F16 => V::F32(f16_to_f32(r.bits(16).ok_or(DErr::Eof)? as u16).to_bits()),
        Ty::F32 => V::F32(r.bits(32).ok_or(DErr::Eof)? as u32),
        Ty::F64 => V::F64(r.bits(64).ok_or(DErr::Eof)? as u64),
        Ty::Str => V::Str(String::from_utf8(blob(r)?).map_err(|_| DErr::Invalid("utf-8".into()))?),
        Ty::Bytes => V::Blob(blob(r)?),
        Ty::Ext => { let n = size(r)? as u64; if n > r.left() { return Err(DErr::Eof); } let mut w = BW::default(); for _ in 0..n { w.bit(r.bit().unwrap()); } V::Ext(w.buf, n) }
        t => panic!("{t:?}"),
    })
}
/// float16 stores a rounded value; every NaN is one value.
fn stored(ty: &Ty, v: &V) -> V { match (ty, v) { (Ty::F16, V::F32(b)) => V::F32(f16_to_f32(f32_to_f16(*b)).to_bits()), _ => v.clone() } }
fn same_value(ty: &Ty, a: &V, b: &V) -> bool {
    match (ty, a, b) { (Ty::F16, V::F32(x), V::F32(y)) if f32::from_bits(*x).is_nan() && f32::from_bits(*y).is_nan() => true, _ => a == b }
}

// ---- values -----------------------------------------------------------------------------------
fn limits(ty: &Ty) -> (i128, i128) { match ty { Ty::Int { signed, bits } => range(*signed, *bits), t => t.int_range(None) } }
/// Every value at which the encoded form changes shape.
fn edges(ty: &Ty) -> Vec<V> {
    if ty.is_int() {
        let (lo, hi) = limits(ty);
        let mut s: std::collections::BTreeSet<i128> = Default::default();
        for x in [lo, lo + 1, hi, hi - 1, 0, 1, -1, 2, -2] { s.insert(x); }
        for b in 0..65 { for d in -1..=1 { s.insert((1i128 << b) + d); s.insert(-(1i128 << b) + d); } }
        return s.into_iter().filter(|x| *x >= lo && *x <= hi).map(V::Int).collect();
    }
    match ty {
        Ty::Bool => vec![V::Bool(false), V::Bool(true)],
        Ty::F16 | Ty::F32 => [0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0x477f_e000, 0x477f_efff, 0x477f_f000, 0x3300_0000, 0x3300_0001, 0x32ff_ffff, 0x3880_0000, 0x387f_ffff, 0x387f_e000, 0x387f_f000, 0x3380_0000, 0x33c0_0000].map(V::F32).to_vec(),
        Ty::F64 => [0u64, 1 << 63, 0x3ff0 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x7ff8 << 48, 1, 0x7fef_ffff_ffff_ffff, 0x000f_ffff_ffff_ffff].map(V::F64).to_vec(),
        Ty::Str => ["", "a", "zserio", "\0", "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}", "\u{feff}bom", "é", "日本語"].iter().map(|s| V::Str(s.to_string())).chain([126usize, 127, 128, 129, 255, 256, 16383, 16384].map(|n| V::Str("x".repeat(n)))).collect(),
        Ty::Bytes => [0usize, 1, 2, 127, 128, 16384].map(|n| V::Blob((0..n).map(|i| (i * 37 + 1) as u8).collect())).to_vec(),
        Ty::Ext => [0u64, 1, 2, 7, 8, 9, 15, 16, 17, 31, 127, 128, 129, 16383, 16384, 16385].map(|n| ext(n, |i| (i * 73 + 0xa5) as u8)).to_vec(),
        t => panic!("{t:?}"),
    }
}
/// Values whose size needs a long length, and does not fit into small counters or buffers.
pub fn huge_edges(ty: &Ty) -> Vec<V> {
    let pat = |i: usize| (i.wrapping_mul(2654435761) >> 7) as u8;
    match ty {
        Ty::Str => [4096usize, 8191, 8193, 32768, 65535, 65536, 65537, 70_001, (1 << 20) + 3, (1 << 21) - 1, 1 << 21].map(|n| V::Str((0..n).map(|i| (b'!' + pat(i) % 90) as char).collect())).to_vec(),
        Ty::Bytes => [4096usize, 8191, 8193, 16383, 32768, 65535, 65536, 65537, 70_001, (1 << 20) + 3, (1 << 21) - 1, 1 << 21].map(|n| V::Blob((0..n).map(pat).collect())).to_vec(),
        Ty::Ext => [32767u64, 32768, 65535, 65536, 65541, 524_287, 524_288, 524_291, 600_005, (1 << 21) - 1, 1 << 21, (1 << 23) + 5].map(|n| ext(n, |i| pat(i as usize))).to_vec(),
        _ => vec![],
    }
}
fn ext(n: u64, f: impl Fn(u64) -> u8) -> V {
    let mut b: Vec<u8> = (0..n.div_ceil(8)).map(f).collect();
    if n % 8 != 0 { let l = b.len() - 1; b[l] &= 0xffu8 << (8 - n % 8); }
    V::Ext(b, n)
}
fn any(ty: &Ty, r: &mut Rng) -> V {
    if ty.is_int() { let (lo, hi) = limits(ty); return V::Int(r.int(lo, hi)); }
    match ty {
        Ty::Bool => V::Bool(r.chance(1, 2)),
        Ty::F16 => V::F32(match r.below(4) {
            0 => f16_to_f32(r.next() as u16).to_bits(),
            1 => { // next to the middle between two halves
                let h = r.below(0x7c00) as u16; let m = ((f16_to_f32(h) as f64 + if h == 0x7bff { 65536.0 } else { f16_to_f32(h + 1) as f64 }) / 2.0) as f32;
                let b = m.to_bits(); let b = match r.below(3) { 0 => b, 1 => b + 1, _ => b.wrapping_sub(1) & 0x7fff_ffff }; b | ((r.below(2) as u32) << 31) }
            _ => r.next() as u32,
        }),
        Ty::F32 => V::F32(r.next() as u32),
        Ty::F64 => V::F64(r.next()),
        Ty::Str => { let n = match r.below(10) { 0 => 0, 1 => r.below(300), _ => r.below(12) }; V::Str((0..n).map(|_| match r.below(8) { 0 => '\0', 1 => char::from_u32(r.below(0x800) as u32).unwrap(), 2 => char::from_u32(0x1f600 + r.below(64) as u32).unwrap(), 3 => char::from_u32(0x3040 + r.below(90) as u32).unwrap(), _ => (b'a' + r.below(26) as u8) as char }).collect()) }
        Ty::Bytes => { let n = match r.below(10) { 0 => 0, 1 => r.below(300), _ => r.below(12) }; V::Blob((0..n).map(|_| r.next() as u8).collect()) }
        Ty::Ext => { let n = match r.below(10) { 0 => 0, 1 => r.below(2400), _ => r.below(40) }; let s = r.next(); ext(n, |i| (s.rotate_left(i as u32 * 7)) as u8) }
        t => panic!("{t:?}"),
    }
}

// ---- arrays -------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
struct Form { packed: bool, fixed: bool, aligned: bool }
const FORMS: [Form; 8] = [
    Form { packed: false, fixed: false, aligned: false }, Form { packed: true, fixed: false, aligned: false }, Form { packed: false, fixed: true, aligned: false }, Form { packed: true, fixed: true, aligned: false },
    Form { packed: false, fixed: false, aligned: true }, Form { packed: true, fixed: false, aligned: true }, Form { packed: false, fixed: true, aligned: true }, Form { packed: true, fixed: true, aligned: true },
];
trait Arr: Send + Sync {
    fn write(&self, w: &mut W, vs: &[V], f: Form, declared: usize) -> Option<Z<()>>;
    fn size(&self, vs: &[V], f: Form, start: u64) -> Option<Z<u64>>;
    fn size_packed(&self, vs: &[V], f: Form, start: u64) -> Option<Z<u64>>;
    /// the elements one by one, as generated code does for parameterized elements
    fn read_each(&self, r: &mut R, f: Form, n: usize) -> Z<V>;
    /// `n`: declared length of fixed arrays; reads into a vector that already holds `old` elements
    fn read(&self, r: &mut R, f: Form, n: usize, old: usize) -> Z<V>;
    fn read_only(&self, r: &mut R, f: Form, n: usize) -> Z<usize>;
}
struct Real<T, F>(F, std::marker::PhantomData<fn() -> T>);
impl<T: Glue + Default + Clone + 'static, F: Fn() -> Box<dyn ArrayTrait<T>> + Send + Sync> Real<T, F> {
    fn arr(&self, f: Form, n: usize) -> Array<T> { Array { array_trait: (self.0)(), is_packed: f.packed, fixed_size: if f.fixed { Some(n) } else { None } } }
}
fn offs(f: Form) -> Option<Vec<u32>> { if f.aligned { Some(vec![]) } else { None } }
impl<T: Glue + Default + Clone + 'static, F: Fn() -> Box<dyn ArrayTrait<T>> + Send + Sync> Arr for Real<T, F> {
    fn write(&self, w: &mut W, vs: &[V], f: Form, declared: usize) -> Option<Z<()>> {
        let x: Vec<T> = vs.iter().map(T::from_v).collect::<Option<_>>()?;
        Some(self.arr(f, declared).zserio_write(w, &x, offs(f).as_ref()))
    }
    fn size(&self, vs: &[V], f: Form, start: u64) -> Option<Z<u64>> { let x: Vec<T> = vs.iter().map(T::from_v).collect::<Option<_>>()?; Some(self.arr(f, x.len()).zserio_bitsize(&x, offs(f).as_ref(), start)) }
    fn size_packed(&self, vs: &[V], f: Form, start: u64) -> Option<Z<u64>> { let x: Vec<T> = vs.iter().map(T::from_v).collect::<Option<_>>()?; Some(self.arr(f, x.len()).zserio_bitsize_packed(&x, offs(f).as_ref(), start)) }
    fn read_each(&self, r: &mut R, f: Form, n: usize) -> Z<V> {
        let mut a = self.arr(f, n);
        let len = a.zserio_read_array_length(r)?;
        let mut ctx = a.array_trait.create_context();
        let mut out = vec![];
        for i in 0..len { let mut x = T::default(); a.read_one_element(r, &mut ctx, &mut x, i, offs(f).as_ref())?; out.push(x.to_v()); }
        Ok(V::Arr(out))
    }
    fn read(&self, r: &mut R, f: Form, n: usize, old: usize) -> Z<V> {
        let mut a = self.arr(f, n);
        let len = a.zserio_read_array_length(r)?;
        let mut out: Vec<T> = vec![T::default(); old];
        a.zserio_read(r, &mut out, len, offs(f).as_ref())?;
        Ok(out.to_v())
    }
    fn read_only(&self, r: &mut R, f: Form, n: usize) -> Z<usize> {
        let mut a = self.arr(f, n);
        let len = a.zserio_read_array_length(r)?;
        let mut out: Vec<T> = vec![];
        a.zserio_read(r, &mut out, len, offs(f).as_ref())?;
        Ok(out.len())
    }
}
struct ArrKind { name: String, ty: Ty, a: Box<dyn Arr>, elem: usize }
fn arr_kinds() -> Vec<ArrKind> {
    let mut k: Vec<ArrKind> = vec![];
    fn push<T: Glue + Default + Clone + 'static, F: Fn() -> Box<dyn ArrayTrait<T>> + Send + Sync + 'static>(k: &mut Vec<ArrKind>, name: &str, ty: Ty, f: F) {
        k.push(ArrKind { name: name.into(), ty, a: Box::new(Real(f, std::marker::PhantomData)), elem: std::mem::size_of::<T>() });
    }
    macro_rules! bits { ($($t:ty, $tr:ident, $signed:expr, $max:expr;)*) => { $(
        for b in 1..=$max { if b <= 10 || b % 8 <= 1 || b % 8 == 7 || b >= $max - 2 { let num_bits = b as u8; push::<$t, _>(&mut k, &format!("{}:{b}", stringify!($t)), Ty::Int { signed: $signed, bits: num_bits }, move || Box::new(at::$tr { num_bits })); } }
    )* } }
    bits! { u8, UnsignedBitFieldArrayTrait, false, 8; u16, UnsignedBitFieldArrayTrait, false, 16; u32, UnsignedBitFieldArrayTrait, false, 32; u64, UnsignedBitFieldArrayTrait, false, 64;
            i8, BitFieldArrayTrait, true, 8; i16, BitFieldArrayTrait, true, 16; i32, BitFieldArrayTrait, true, 32; i64, BitFieldArrayTrait, true, 64; }
    macro_rules! var { ($($t:ty, $tr:ident, $k:ident;)*) => { $( push::<$t, _>(&mut k, stringify!($tr), Ty::Var(VarKind::$k), || Box::new(at::$tr {})); )* } }
    var! { u16, VarUint16ArrayTrait, U16; u32, VarUint32ArrayTrait, U32; u64, VarUint64ArrayTrait, U64; u64, VarUintArrayTrait, U; u32, VarSizeArrayTrait, Size;
           i16, VarInt16ArrayTrait, I16; i32, VarInt32ArrayTrait, I32; i64, VarInt64ArrayTrait, I64; i64, VarIntArrayTrait, I; }
    push::<bool, _>(&mut k, "bool", Ty::Bool, || Box::new(at::BooleanArrayTrait {}));
    push::<f32, _>(&mut k, "float16", Ty::F16, || Box::new(at::Float16ArrayTrait {}));
    push::<f32, _>(&mut k, "float32", Ty::F32, || Box::new(at::Float32ArrayTrait {}));
    push::<f64, _>(&mut k, "float64", Ty::F64, || Box::new(at::Float64ArrayTrait {}));
    push::<String, _>(&mut k, "string", Ty::Str, || Box::new(at::StringArrayTrait {}));
    push::<BytesType, _>(&mut k, "bytes", Ty::Bytes, || Box::new(at::ByteBufferArrayTrait {}));
    push::<ExternType, _>(&mut k, "extern", Ty::Ext, || Box::new(at::BitBufferArrayTrait {}));
    k
}
/// How the deltas of an array are to be encoded, computed from all elements at once.
struct Plan { packed: bool, bits: u32 }
fn plan(ty: &Ty, vs: &[V]) -> Plan {
    let size = |v: &V| { let mut w = BW::default(); spec_write(ty, v, &mut w); w.len };
    let widest = vs.windows(2).map(|p| (p[1].int() - p[0].int()).unsigned_abs()).max().unwrap_or(0);
    let bits = 128 - widest.leading_zeros();
    if vs.len() < 2 || bits > 62 { return Plan { packed: false, bits: 0 }; }
    let delta = if bits == 0 { 0 } else { bits as u64 + 1 };
    let total: u64 = vs.iter().map(size).sum();
    Plan { packed: 1 + 6 + size(&vs[0]) + (vs.len() as u64 - 1) * delta < 1 + total, bits }
}
fn spec_array(ty: &Ty, vs: &[V], f: Form, w: &mut BW) -> bool {
    if !f.fixed { for x in var_bytes(VarKind::Size, vs.len() as i128).unwrap() { w.bits(x as u128, 8); } }
    let p = if f.packed && ty.is_int() { Some(plan(ty, vs)) } else { None };
    for (i, v) in vs.iter().enumerate() {
        if f.aligned { w.align(8); }
        match &p {
            Some(p) if i == 0 => { w.bit(p.packed); if p.packed { w.bits(p.bits as u128, 6); } if !spec_write(ty, v, w) { return false; } }
            Some(p) if p.packed => if p.bits > 0 { w.bits((v.int() - vs[i - 1].int()) as u128, p.bits + 1); },
            _ => if !spec_write(ty, v, w) { return false; },
        }
    }
    true
}
fn spec_read_array(ty: &Ty, f: Form, n: usize, r: &mut BR) -> Result<Vec<V>, DErr> {
    let n = if f.fixed { n as u64 } else { read_var(VarKind::Size, r)? as u64 };
    let mut out: Vec<V> = vec![];
    let (mut packed, mut bits) = (false, 0);
    for i in 0..n {
        if out.len() > 100_000 { return Err(DErr::Budget); }
        if f.aligned && !r.align(8) { return Err(DErr::Eof); }
        if f.packed && ty.is_int() {
            if i == 0 { packed = r.bit().ok_or(DErr::Eof)?; if packed { bits = r.bits(6).ok_or(DErr::Eof)? as u32; } }
            else if packed {
                let d = if bits > 0 { let x = r.bits(bits + 1).ok_or(DErr::Eof)? as i128; if x >> bits & 1 == 1 { x - (1i128 << (bits + 1)) } else { x } } else { 0 };
                let v = out[i as usize - 1].int() + d;
                let (lo, hi) = limits(ty);
                if v < lo || v > hi { return Err(DErr::Invalid("delta leaves the range".into())); }
                out.push(V::Int(v));
                continue;
            }
        }
        out.push(spec_read(ty, r)?);
    }
    Ok(out)
}
fn any_array(ty: &Ty, r: &mut Rng, max: u64) -> Vec<V> {
    let n = match r.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => r.below(max * 8), _ => r.below(max) } as usize;
    if !ty.is_int() { return (0..n).map(|_| any(ty, r)).collect(); }
    let (lo, hi) = limits(ty);
    let mut x = r.int(lo, hi);
    let shape = r.below(8);
    let step = match r.below(4) { 0 => 0, 1 => 1, 2 => 1i128 << r.below(63), _ => r.below(1000) as i128 };
    (0..n).map(|i| { if i > 0 { x = match shape {
        0 => r.int(lo, hi),
        1 => x,
        2 => (x + step).min(hi),
        3 => (x - step).max(lo),
        4 => (x + r.below(2 * step.min(1 << 62) as u64 + 1) as i128 - step).clamp(lo, hi),
        5 => if i % 2 == 0 { lo } else { hi },
        6 => if r.chance(1, 12) { r.int(lo, hi) } else { (x + r.below(5) as i128 - 2).clamp(lo, hi) },
        _ => (x + if r.chance(1, 2) { step } else { -step }).clamp(lo, hi),
    }; } V::Int(x) }).collect()
}
