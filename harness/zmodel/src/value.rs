//! Value trees.
use std::fmt;

#[derive(Clone, PartialEq)]
pub enum V {
    /// absent optional or conditional field
    Absent,
    /// unselected field of a choice or union: carries no value
    Skip,
    Int(i128),
    Bool(bool),
    /// float16 and float32 (bits of the f32)
    F32(u32),
    F64(u64),
    Str(String),
    Blob(Vec<u8>),
    /// payload, number of bits
    Ext(Vec<u8>, u64),
    Enum(i128),
    Mask(i128),
    Obj(Box<Obj>),
    Arr(Vec<V>),
}
#[derive(Clone, PartialEq)]
pub struct Obj { pub params: Vec<V>, pub sel: u32, pub fields: Vec<V> }

impl V {
    pub fn obj(&self) -> &Obj { match self { V::Obj(o) => o, x => panic!("object expected, got {x:?}") } }
    pub fn obj_mut(&mut self) -> &mut Obj { match self { V::Obj(o) => o, x => panic!("object expected, got {x:?}") } }
    pub fn int(&self) -> i128 { match self { V::Int(i) | V::Enum(i) | V::Mask(i) => *i, x => panic!("int expected, got {x:?}") } }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Absent => write!(f, "-"),
            V::Skip => write!(f, "_"),
            V::Int(i) => write!(f, "{i}"),
            V::Bool(b) => write!(f, "{b}"),
            V::F32(b) => write!(f, "f32:{b:08x}"),
            V::F64(b) => write!(f, "f64:{b:016x}"),
            V::Str(s) => write!(f, "{s:?}"),
            V::Blob(b) => write!(f, "b'{}'", hex(b)),
            V::Ext(b, n) => write!(f, "x'{}'/{n}", hex(b)),
            V::Enum(i) => write!(f, "e{i}"),
            V::Mask(i) => write!(f, "m{i}"),
            V::Obj(o) => {
                if !o.params.is_empty() { write!(f, "({:?})", o.params)?; }
                write!(f, "{{")?;
                if o.sel != 0 { write!(f, "#{} ", o.sel)?; }
                for (i, x) in o.fields.iter().enumerate() { if i > 0 { write!(f, ", ")?; } write!(f, "{x:?}")?; }
                write!(f, "}}")
            }
            V::Arr(a) => write!(f, "{a:?}"),
        }
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }

/// Compare a value produced by the real code with a model value. Fields that the model says are not
/// selected are not compared. Returns the path of the first difference.
pub fn diff(model: &V, real: &V, path: &str) -> Option<String> {
    match (model, real) {
        (V::Skip, _) => None,
        (V::Obj(a), V::Obj(b)) => {
            if a.params.len() != b.params.len() || a.fields.len() != b.fields.len() { return Some(format!("{path}: shape")); }
            for (i, (x, y)) in a.params.iter().zip(&b.params).enumerate() { if let Some(d) = diff(x, y, &format!("{path}.p{i}")) { return Some(d); } }
            if a.sel != b.sel { return Some(format!("{path}: union tag {} vs {}", a.sel, b.sel)); }
            for (i, (x, y)) in a.fields.iter().zip(&b.fields).enumerate() { if let Some(d) = diff(x, y, &format!("{path}.{i}")) { return Some(d); } }
            None
        }
        (V::Arr(a), V::Arr(b)) => {
            if a.len() != b.len() { return Some(format!("{path}: array length {} vs {}", a.len(), b.len())); }
            for (i, (x, y)) in a.iter().zip(b).enumerate() { if let Some(d) = diff(x, y, &format!("{path}[{i}]")) { return Some(d); } }
            None
        }
        (V::F32(a), V::F32(b)) => if a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan()) { None } else { Some(format!("{path}: expected {model:?}, got {real:?}")) },
        (V::F64(a), V::F64(b)) => if a == b || (f64::from_bits(*a).is_nan() && f64::from_bits(*b).is_nan()) { None } else { Some(format!("{path}: expected {model:?}, got {real:?}")) },
        (V::Ext(a, n), V::Ext(b, m)) => if n == m && trim(a, *n) == trim(b, *m) { None } else { Some(format!("{path}: expected {model:?}, got {real:?}")) },
        (a, b) => if a == b { None } else { Some(format!("{path}: expected {a:?}, got {b:?}")) },
    }
}
/// The first n bits of b, zero padded.
pub fn trim(b: &[u8], n: u64) -> Vec<u8> {
    let mut r = b[..b.len().min(n.div_ceil(8) as usize)].to_vec();
    if n % 8 != 0 { if let Some(l) = r.last_mut() { *l &= 0xffu8 << (8 - n % 8); } }
    r
}
