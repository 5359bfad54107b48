//! Reference encoder and decoder over value trees.
use crate::ast::*;
use crate::bits::*;
use crate::model::*;
use crate::scalar::*;
use crate::value::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum DErr {
    /// input ended
    Eof,
    /// the data is malformed (must be rejected)
    Invalid(String),
    /// the data makes a schema expression undefined (division by zero, negative length, ...)
    Undefined(String),
    /// decoding would produce more elements than the monitor is willing to look at
    Budget,
}
pub type DRes<T> = Result<T, DErr>;
fn und(s: String) -> DErr { DErr::Undefined(s) }
/// No integer type has a negative width or one of more than 64 bits.
fn no_width(s: String) -> DErr { if s.starts_with("bit width ") { DErr::Invalid(s) } else { DErr::Undefined(s) } }

// ---- delta packing --------------------------------------------------------------------------
#[derive(Default, Debug, Clone)]
pub struct Delta { pub packed: bool, pub maxbits: u32, prev: Option<i128>, started: bool, unpacked: u64, first: u64, n: u64 }
impl Delta {
    fn init(&mut self, v: i128, size: u64) {
        self.n += 1;
        self.unpacked += size;
        match self.prev {
            None => { self.prev = Some(v); self.first = self.unpacked; }
            Some(p) => if self.maxbits <= 62 {
                self.packed = true;
                let d = v - p;
                let mb = 128 - d.unsigned_abs().leading_zeros();
                if mb > self.maxbits { self.maxbits = mb; if mb > 62 { self.packed = false; } }
                self.prev = Some(v);
            }
        }
    }
    fn dsize(&self) -> u32 { if self.maxbits > 0 { self.maxbits + 1 } else { 0 } }
    fn finish(&mut self) {
        if self.packed {
            let p = 7 + self.first + (self.n - 1) * self.dsize() as u64;
            if p >= 1 + self.unpacked { self.packed = false; }
        }
    }
}
#[derive(Default, Debug, Clone)]
pub struct Ctx { pub delta: Delta, kids: HashMap<usize, Ctx> }
impl Ctx { fn kid(&mut self, i: usize) -> &mut Ctx { self.kids.entry(i).or_default() } }
const TAG: usize = usize::MAX;

/// Statistics over what a run exercised.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
/// Align optional fields after their presence bit, as the reference implementation does.
pub static SPEC_ALIGNMENT: AtomicBool = AtomicBool::new(false);

#[derive(Default, Debug, Clone)]
pub struct Stats { pub objects: u64, pub scalars: u64, pub packed_cols: u64, pub plain_cols: u64, pub aligned: u64, pub padded_bits: u64, pub absent: u64, pub arrays: u64 }

pub struct Enc<'m> { pub m: &'m Model, pub w: BW, pub start: u64, pub fix_offsets: bool, pub stats: Stats, pub check_params: bool, pub off_ok: bool }

fn scope<'a>(c: &'a Rc<Comp>, params: &'a [V], fields: &'a [V], index: Option<i128>) -> Scope<'a> {
    Scope { model_pkg: &c.decl.pkg, comp: Some(c), params, fields, index }
}

impl Model {
    pub fn width(&self, ty: &Ty, s: &Scope) -> Res<u8> {
        match ty {
            Ty::Int { bits, .. } => Ok(*bits),
            Ty::DynInt { width, .. } => {
                let w = self.eval_int(width, s)?;
                // (a width of 0 carries no bits and only the value 0; the generator does not choose it)
                if !(0..=64).contains(&w) { return Err(format!("bit width {w}")); }
                Ok(w as u8)
            }
            t => Err(format!("no width: {t:?}")),
        }
    }
    /// Expected argument values for a field of compound type.
    pub fn args(&self, f: &RField, s: &Scope) -> Res<Vec<V>> {
        let c = match &f.ty { Ty::Comp(c) => c, _ => return Ok(vec![]) };
        if f.f.ty.args.len() != c.i().params.len() {
            return Err(format!("argument count of {}", f.f.name));
        }
        f.f.ty.args.iter().zip(&c.i().params).map(|(a, (_, pt))| {
            let v = self.eval(a, s)?;
            self.lower(v, pt)
        }).collect()
    }
    /// The same, where a value the parameter cannot hold is an error.
    pub fn fitting_args(&self, f: &RField, s: &Scope) -> Res<Vec<V>> {
        let v = self.args(f, s)?;
        if let Ty::Comp(c) = &f.ty {
            for (x, (n, t)) in v.iter().zip(&c.i().params) {
                if let (V::Int(x), Ty::Int { .. } | Ty::Var(_)) = (x, t) { let (lo, hi) = t.int_range(None); if !(lo..=hi).contains(x) { return Err(format!("argument {x} does not fit {n}")); } }
            }
        }
        Ok(v)
    }
    pub fn present(&self, f: &RField, v: Option<&V>, s: &Scope) -> Res<bool> {
        if let Some(c) = &f.f.cond { return self.eval_bool(c, s); }
        if f.f.optional { return Ok(!matches!(v, Some(V::Absent))); }
        Ok(true)
    }
    fn packable(&self, ty: &Ty) -> bool {
        match ty { Ty::Enum(_) | Ty::Mask(_) | Ty::Comp(_) => true, t => t.is_int() }
    }
}
fn base(ty: &Ty) -> &Ty { match ty { Ty::Enum(e) => &e.base, Ty::Mask(e) => &e.base, t => t } }

impl<'m> Enc<'m> {
    pub fn new(m: &'m Model, start: u64) -> Self {
        let mut w = BW::default();
        for _ in 0..start { w.bit(false); }
        Enc { m, w, start, fix_offsets: false, stats: Stats::default(), check_params: true, off_ok: true }
    }
    fn scalar(&mut self, ty: &Ty, v: &V, s: &Scope) -> Res<()> {
        self.stats.scalars += 1;
        match (ty, v) {
            (Ty::Int { .. } | Ty::DynInt { .. }, V::Int(i)) => {
                let w = self.m.width(ty, s)?;
                let (lo, hi) = ty.int_range(Some(w));
                if *i < lo || *i > hi { return Err(format!("value {i} does not fit {w} bits")); }
                self.w.bits(*i as u128, w as u32);
            }
            (Ty::Var(k), V::Int(i)) => { let b = var_bytes(*k, *i).ok_or_else(|| format!("{i} out of range of {k:?}"))?; for x in b { self.w.bits(x as u128, 8); } }
            (Ty::Bool, V::Bool(b)) => self.w.bit(*b),
            (Ty::F16, V::F32(b)) => self.w.bits(f32_to_f16(*b) as u128, 16),
            (Ty::F32, V::F32(b)) => self.w.bits(*b as u128, 32),
            (Ty::F64, V::F64(b)) => self.w.bits(*b as u128, 64),
            (Ty::Str, V::Str(x)) => self.blob(x.as_bytes())?,
            (Ty::Bytes, V::Blob(x)) => self.blob(x)?,
            (Ty::Ext, V::Ext(b, n)) => { self.varsize(*n)?; self.w.slice(b, *n); }
            (Ty::Enum(e), V::Enum(i)) => {
                if !e.items.iter().any(|x| x.1 == *i) { return Err(format!("no enum item {i}")); }
                self.scalar(&e.base, &V::Int(*i), s)?;
            }
            (Ty::Mask(e), V::Mask(i)) => self.scalar(&e.base, &V::Int(*i), s)?,
            (t, v) => return Err(format!("cannot encode {v:?} as {t:?}")),
        }
        Ok(())
    }
    fn varsize(&mut self, n: u64) -> Res<()> {
        for x in var_bytes(VarKind::Size, n as i128).ok_or("varsize")? { self.w.bits(x as u128, 8); }
        Ok(())
    }
    fn blob(&mut self, b: &[u8]) -> Res<()> { self.varsize(b.len() as u64)?; for x in b { self.w.bits(*x as u128, 8); } Ok(()) }

    fn size(&self, ty: &Ty, v: i128, s: &Scope) -> Res<u64> {
        match ty { Ty::Var(k) => Ok(var_bytes(*k, v).ok_or("range")?.len() as u64 * 8), t => Ok(self.m.width(t, s)? as u64) }
    }
    fn init(&self, ctx: &mut Ctx, ty: &Ty, v: &V, s: &Scope) -> Res<()> {
        if matches!(v, V::Absent | V::Skip) { return Err("no value".into()); }
        match ty {
            Ty::Comp(c) => {
                let o = v.obj();
                let s = scope(c, &o.params, &o.fields, None);
                match &c.i().body {
                    RBody::Struct => for (i, f) in c.fields().iter().enumerate() {
                        if !matches!(f.f.arr, Arr::None) || !self.m.packable(&f.ty) { continue; }
                        if self.m.present(f, Some(&o.fields[i]), &s)? { self.init(ctx.kid(i), &f.ty, &o.fields[i], &s)?; }
                    },
                    RBody::Choice { .. } => if let Some(i) = self.m.choice_field(c, &s)? { self.init_field(ctx, c, i, o, &s)?; },
                    RBody::Union => {
                        ctx.kid(TAG).delta.init(o.sel as i128, var_bytes(VarKind::Size, o.sel as i128).unwrap().len() as u64 * 8);
                        self.init_field(ctx, c, o.sel as usize, o, &s)?;
                    }
                }
                Ok(())
            }
            t => { let b = base(t); ctx.delta.init(v.int(), self.size(b, v.int(), s)?); Ok(()) }
        }
    }
    fn init_field(&self, ctx: &mut Ctx, c: &Rc<Comp>, i: usize, o: &Obj, s: &Scope) -> Res<()> {
        let f = &c.fields()[i];
        if matches!(f.f.arr, Arr::None) && self.m.packable(&f.ty) { self.init(ctx.kid(i), &f.ty, &o.fields[i], s)?; }
        Ok(())
    }
    fn delta_write(&mut self, ctx: &mut Ctx, ty: &Ty, v: &V, s: &Scope) -> Res<()> {
        let d = &mut ctx.delta;
        if !d.started {
            d.started = true;
            d.finish();
            self.w.bit(d.packed);
            if d.packed { self.stats.packed_cols += 1; self.w.bits(d.maxbits as u128, 6); } else { self.stats.plain_cols += 1; }
            d.prev = Some(v.int());
            return self.scalar(ty, v, s);
        }
        if !d.packed { return self.scalar(ty, v, s); }
        self.stats.scalars += 1;
        let delta = v.int() - d.prev.unwrap();
        let n = d.dsize();
        self.w.bits(delta as u128, n);
        d.prev = Some(v.int());
        Ok(())
    }
    fn one(&mut self, ty: &Ty, v: &mut V, s: &Scope, args: &[V], ctx: Option<&mut Ctx>) -> Res<()> {
        match ty {
            Ty::Comp(c) => {
                if self.check_params && v.obj().params != args { return Err(format!("parameters of {c:?} differ")); }
                self.comp(c, v, ctx)
            }
            t => match ctx {
                Some(ctx) if self.m.packable(t) => self.delta_write(ctx, t, v, s),
                _ => self.scalar(t, v, s),
            },
        }
    }
    fn set_offset(&mut self, c: &Rc<Comp>, o: &mut Obj, f: &RField, index: Option<usize>) -> Res<()> {
        let pos = (self.w.len / 8) as i128;
        if let Some(e) = &f.f.offset {
            let fi = |n: &str| c.field_index(n);
            let slot: Option<(&mut V, Ty)> = match &**e {
                Expr::Id(n) => match fi(n) { Some(i) => Some((&mut o.fields[i], c.fields()[i].ty.clone())), None => None },
                Expr::At(b, _) => match &**b {
                    Expr::Id(n) => match (fi(n), index) { (Some(i), Some(k)) => if let V::Arr(a) = &mut o.fields[i] { let t = c.fields()[i].ty.clone(); a.get_mut(k).map(|x| (x, t)) } else { None }, _ => None },
                    _ => None,
                },
                Expr::Dot(b, n) => match &**b {
                    Expr::Id(h) => match fi(h) {
                        Some(i) => if let Ty::Comp(hc) = &c.fields()[i].ty { let k = hc.field_index(n); k.map(|k| (&mut o.fields[i].obj_mut().fields[k], hc.fields()[k].ty.clone())) } else { None },
                        None => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((v, ty)) = slot {
                if self.fix_offsets {
                    let (_, hi) = ty.int_range(None);
                    if pos > hi { return Err("offset out of range".into()); }
                    *v = V::Int(pos);
                } else if *v != V::Int(pos) { self.off_ok = false; }
            }
        }
        Ok(())
    }
    fn field(&mut self, c: &Rc<Comp>, i: usize, o: &mut Obj, ctx: Option<&mut Ctx>) -> Res<()> {
        let f = &c.fields()[i];
        let ctx = if f.is_offset { None } else { ctx }; // offsets are never packed
        let (params, fields) = (o.params.clone(), &mut o.fields);
        {
            let s = scope(c, &params, fields, None);
            let present = self.m.present(f, Some(&fields[i]), &s)?;
            // The repository aligns an optional field before its presence bit (its own tests
            // require it); the reference implementation aligns the value after the bit.
            let early = f.f.optional && f.f.cond.is_none() && !SPEC_ALIGNMENT.load(Relaxed);
            if early { if let Some(a) = f.f.align { let b = self.w.len; self.w.align(a); self.stats.aligned += 1; self.stats.padded_bits += self.w.len - b; } }
            if f.f.optional && f.f.cond.is_none() { self.w.bit(present); }
            if !present { self.stats.absent += 1; return Ok(()); }
            if matches!(fields[i], V::Absent | V::Skip) { return Err(format!("field {} has no value", f.f.name)); }
        }
        let before = self.w.len;
        let early = f.f.optional && f.f.cond.is_none() && !SPEC_ALIGNMENT.load(Relaxed);
        if let (Some(a), false) = (f.f.align, early) { self.w.align(a); self.stats.aligned += 1; }
        let indexed = matches!(f.f.offset.as_deref(), Some(Expr::At(..))) && !matches!(f.f.arr, Arr::None);
        if f.f.offset.is_some() && !indexed { self.w.align(8); self.stats.aligned += 1; self.set_offset(c, o, f, None)?; }
        self.stats.padded_bits += self.w.len - before;
        let mut val = o.fields[i].clone();
        match &f.f.arr {
            Arr::None => {
                let fields = o.fields.clone();
                let s = scope(c, &params, &fields, None);
                let args = self.m.args(f, &s)?;
                self.one(&f.ty, &mut val, &s, &args, ctx.map(|x| x.kid(i)))?;
            }
            arr => {
                self.stats.arrays += 1;
                let packed = f.f.packed || ctx.is_some();
                let fields = o.fields.clone();
                let s = scope(c, &params, &fields, None);
                let n = match &val { V::Arr(a) => a.len(), _ => return Err("array".into()) };
                match arr {
                    Arr::Fixed(e) => { let want = self.m.eval_int(e, &s)?; if want != n as i128 { return Err(format!("length of {}: {n} != {want}", f.f.name)); } }
                    _ => if !f.f.implicit { self.varsize(n as u64)?; }
                }
                let mut nctx = Ctx::default();
                if packed && self.m.packable(&f.ty) {
                    for k in 0..n {
                        let s = scope(c, &params, &fields, Some(k as i128));
                        if let V::Arr(a) = &val { self.init(&mut nctx, &f.ty, &a[k], &s)?; }
                    }
                }
                for k in 0..n {
                    if indexed { let b = self.w.len; self.w.align(8); self.stats.aligned += 1; self.stats.padded_bits += self.w.len - b; self.set_offset(c, o, f, Some(k))?; }
                    let fields = if indexed { o.fields.clone() } else { vec![] };
                    let s = scope(c, &params, if indexed { &fields } else { s.fields }, Some(k as i128));
                    let args = self.m.args(f, &s)?;
                    if let V::Arr(a) = &mut val { self.one(&f.ty, &mut a[k], &s, &args, if packed { Some(&mut nctx) } else { None })?; }
                }
            }
        }
        if self.fix_offsets {
            // Keep offsets that were fixed inside the nested value.
            if !f.is_offset { o.fields[i] = val; }
        }
        Ok(())
    }
    pub fn comp(&mut self, c: &Rc<Comp>, v: &mut V, mut ctx: Option<&mut Ctx>) -> Res<()> {
        self.stats.objects += 1;
        let o = v.obj_mut();
        match &c.i().body {
            RBody::Struct => for i in 0..c.fields().len() { self.field(c, i, o, ctx.as_deref_mut())?; },
            RBody::Choice { .. } => {
                let sel = { let s = scope(c, &o.params, &o.fields, None); self.m.choice_field(c, &s)? };
                if let Some(i) = sel { self.field(c, i, o, ctx)?; }
            }
            RBody::Union => {
                let i = o.sel as usize;
                if i >= c.fields().len() { return Err("union tag".into()); }
                match ctx.as_deref_mut() {
                    None => self.varsize(i as u64)?,
                    Some(x) => self.delta_write(x.kid(TAG), &Ty::Var(VarKind::Size), &V::Int(i as i128), &Scope::pkg(""))?,
                }
                self.field(c, i, o, ctx)?;
            }
        }
        Ok(())
    }
}

/// Encode `v` (of compound type `c`) starting at bit position `start`.
pub fn encode(m: &Model, c: &Rc<Comp>, v: &V, start: u64) -> Res<Encoded> {
    let mut e = Enc::new(m, start);
    let mut v = v.clone();
    e.comp(c, &mut v, None)?;
    Ok(Encoded { bits: e.w.len - start, bytes: e.w.buf, stats: e.stats, offsets_ok: e.off_ok })
}
/// Set all offset fields to the positions that encoding from `start` yields.
pub fn fix_offsets(m: &Model, c: &Rc<Comp>, v: &mut V, start: u64) -> Res<()> {
    for _ in 0..2 {
        let mut e = Enc::new(m, start);
        e.fix_offsets = true;
        e.comp(c, v, None)?;
    }
    Ok(())
}
#[derive(Debug, Clone)]
pub struct Encoded { pub bytes: Vec<u8>, pub bits: u64, pub stats: Stats, pub offsets_ok: bool }

/// Packed encoding of a list of objects of one type (the elements of a packed array, without length).
pub fn encode_packed_list(m: &Model, c: &Rc<Comp>, vs: &[V], start: u64) -> Res<Encoded> {
    let mut e = Enc::new(m, start);
    let mut ctx = Ctx::default();
    let ty = Ty::Comp(c.clone());
    for v in vs { e.init(&mut ctx, &ty, v, &Scope::pkg(""))?; }
    for v in vs { let mut v = v.clone(); e.comp(c, &mut v, Some(&mut ctx))?; }
    Ok(Encoded { bits: e.w.len - start, bytes: e.w.buf, stats: e.stats, offsets_ok: e.off_ok })
}

// ---- decoding -------------------------------------------------------------------------------
pub struct Dec<'m, 'b> { pub m: &'m Model, pub r: BR<'b>, pub budget: u64, pub depth: u32, pub off_ok: bool, pub noncanonical: bool }
impl<'m, 'b> Dec<'m, 'b> {
    pub fn new(m: &'m Model, b: &'b [u8]) -> Self { Dec { m, r: BR::new(b), budget: 200_000, depth: 0, off_ok: true, noncanonical: false } }
    fn spend(&mut self) -> DRes<()> { if self.budget == 0 { return Err(DErr::Budget); } self.budget -= 1; Ok(()) }
    fn varsize(&mut self) -> DRes<u64> {
        let at = self.r.pos;
        let v = read_var(VarKind::Size, &mut self.r)?;
        if (self.r.pos - at) / 8 != var_bytes(VarKind::Size, v).unwrap().len() as u64 { self.noncanonical = true; }
        Ok(v as u64)
    }
    fn blob(&mut self) -> DRes<Vec<u8>> {
        let n = self.varsize()?;
        if n * 8 > self.r.left() { return Err(DErr::Eof); }
        Ok((0..n).map(|_| self.r.bits(8).unwrap() as u8).collect())
    }
    fn scalar(&mut self, ty: &Ty, s: &Scope) -> DRes<V> {
        self.spend()?;
        Ok(match ty {
            Ty::Int { signed, .. } | Ty::DynInt { signed, .. } => {
                let w = self.m.width(ty, s).map_err(no_width)? as u32;
                let x = self.r.bits(w).ok_or(DErr::Eof)? as i128;
                V::Int(if *signed && w > 0 && x >> (w - 1) & 1 == 1 { x - (1i128 << w) } else { x })
            }
            Ty::Var(k) => { let at = self.r.pos; let v = read_var(*k, &mut self.r)?; if var_bytes(*k, v).map(|b| b.len() as u64 * 8) != Some(self.r.pos - at) { self.noncanonical = true; } V::Int(v) }
            Ty::Bool => V::Bool(self.r.bit().ok_or(DErr::Eof)?),
            Ty::F16 => V::F32(f16_to_f32(self.r.bits(16).ok_or(DErr::Eof)? as u16).to_bits()),
            Ty::F32 => V::F32(self.r.bits(32).ok_or(DErr::Eof)? as u32),
            Ty::F64 => V::F64(self.r.bits(64).ok_or(DErr::Eof)? as u64),
            Ty::Str => V::Str(String::from_utf8(self.blob()?).map_err(|_| DErr::Invalid("utf-8".into()))?),
            Ty::Bytes => V::Blob(self.blob()?),
            Ty::Ext => {
                let n = self.varsize()?;
                if n > self.r.left() { return Err(DErr::Eof); }
                let mut w = BW::default();
                for _ in 0..n { w.bit(self.r.bit().unwrap()); }
                V::Ext(w.buf, n)
            }
            Ty::Enum(e) => {
                let i = self.scalar(&e.base, s)?.int();
                if !e.items.iter().any(|x| x.1 == i) { return Err(DErr::Invalid(format!("enum value {i}"))); }
                V::Enum(i)
            }
            Ty::Mask(e) => V::Mask(self.scalar(&e.base, s)?.int()),
            Ty::Comp(_) => unreachable!(),
        })
    }
    fn delta_read(&mut self, ctx: &mut Ctx, ty: &Ty, s: &Scope) -> DRes<V> {
        let b = base(ty);
        let raw = {
            let d = &mut ctx.delta;
            if !d.started {
                d.started = true;
                d.packed = self.r.bit().ok_or(DErr::Eof)?;
                if d.packed { d.maxbits = self.r.bits(6).ok_or(DErr::Eof)? as u32; }
                let v = self.scalar(b, s)?;
                d.prev = Some(v.int());
                v
            } else if !d.packed {
                self.scalar(b, s)?
            } else {
                self.spend()?;
                let n = d.dsize();
                if n > 0 {
                    let x = self.r.bits(n).ok_or(DErr::Eof)? as i128;
                    let x = if x >> (n - 1) & 1 == 1 { x - (1i128 << n) } else { x };
                    d.prev = Some(d.prev.unwrap() + x);
                }
                let v = d.prev.unwrap();
                let (lo, hi) = match b { Ty::DynInt { .. } => b.int_range(Some(self.m.width(b, s).map_err(no_width)?)), t => t.int_range(None) };
                if v < lo || v > hi { return Err(DErr::Invalid(format!("delta leaves range: {v}"))); }
                V::Int(v)
            }
        };
        Ok(match ty {
            Ty::Enum(e) => { let i = raw.int(); if !e.items.iter().any(|x| x.1 == i) { return Err(DErr::Invalid(format!("enum value {i}"))); } V::Enum(i) }
            Ty::Mask(_) => V::Mask(raw.int()),
            _ => raw,
        })
    }
    fn one(&mut self, ty: &Ty, s: &Scope, args: Vec<V>, ctx: Option<&mut Ctx>) -> DRes<V> {
        match ty {
            Ty::Comp(c) => self.comp(c, args, ctx),
            t => match ctx { Some(ctx) if self.m.packable(t) => self.delta_read(ctx, t, s), _ => self.scalar(t, s) },
        }
    }
    fn check_offset(&mut self, f: &RField, s: &Scope) {
        if let Some(e) = &f.f.offset {
            if let Ok(v) = self.m.eval_int(e, s) { if v != (self.r.pos / 8) as i128 { self.off_ok = false; } } else { self.off_ok = false; }
        }
    }
    fn field(&mut self, c: &Rc<Comp>, i: usize, params: &[V], fields: &[V], ctx: Option<&mut Ctx>) -> DRes<V> {
        let f = &c.fields()[i];
        let ctx = if f.is_offset { None } else { ctx };
        let s = scope(c, params, fields, None);
        let early = f.f.optional && f.f.cond.is_none() && !SPEC_ALIGNMENT.load(Relaxed);
        if let (Some(a), true) = (f.f.align, early) { if !self.r.align(a) { return Err(DErr::Eof); } }
        let present = if let Some(e) = &f.f.cond { self.m.eval_bool(e, &s).map_err(und)? }
            else if f.f.optional { self.r.bit().ok_or(DErr::Eof)? } else { true };
        if !present { return Ok(if f.f.optional { V::Absent } else { V::Skip }); }
        if let (Some(a), false) = (f.f.align, early) { if !self.r.align(a) { return Err(DErr::Eof); } }
        let indexed = matches!(f.f.offset.as_deref(), Some(Expr::At(..))) && !matches!(f.f.arr, Arr::None);
        if f.f.offset.is_some() && !indexed { if !self.r.align(8) { return Err(DErr::Eof); } self.check_offset(f, &s); }
        match &f.f.arr {
            Arr::None => {
                let args = self.m.fitting_args(f, &s).map_err(und)?;
                self.one(&f.ty, &s, args, ctx.map(|x| x.kid(i)))
            }
            arr => {
                let packed = f.f.packed || ctx.is_some();
                let n = match arr {
                    Arr::Fixed(e) => { let n = self.m.eval_int(e, &s).map_err(und)?; if n < 0 { return Err(DErr::Undefined("negative length".into())); } n as u64 }
                    _ if f.f.implicit => return Err(DErr::Undefined("implicit".into())),
                    _ => self.varsize()?,
                };
                let mut nctx = Ctx::default();
                let mut out = vec![];
                for k in 0..n {
                    self.spend()?;
                    let s = scope(c, params, fields, Some(k as i128));
                    if indexed { if !self.r.align(8) { return Err(DErr::Eof); } self.check_offset(f, &s); }
                    let args = self.m.fitting_args(f, &s).map_err(und)?;
                    out.push(self.one(&f.ty, &s, args, if packed { Some(&mut nctx) } else { None })?);
                }
                Ok(V::Arr(out))
            }
        }
    }
    pub fn comp(&mut self, c: &Rc<Comp>, params: Vec<V>, mut ctx: Option<&mut Ctx>) -> DRes<V> {
        self.spend()?;
        self.depth += 1;
        if self.depth > 200 { return Err(DErr::Budget); }
        let mut fields: Vec<V> = vec![];
        let mut sel = 0;
        match &c.i().body {
            RBody::Struct => for i in 0..c.fields().len() { let v = self.field(c, i, &params, &fields, ctx.as_deref_mut())?; fields.push(v); },
            RBody::Choice { .. } => {
                fields = vec![V::Skip; c.fields().len()];
                let k = { let s = scope(c, &params, &fields, None); self.m.choice_field(c, &s).map_err(|e| if e.contains("no matching") { DErr::Invalid(e) } else { DErr::Undefined(e) })? };
                if let Some(i) = k { let v = self.field(c, i, &params, &fields, ctx)?; fields[i] = v; }
            }
            RBody::Union => {
                fields = vec![V::Skip; c.fields().len()];
                let t = match ctx.as_deref_mut() {
                    None => self.varsize()? as i128,
                    Some(x) => self.delta_read(x.kid(TAG), &Ty::Var(VarKind::Size), &Scope::pkg(""))?.int(),
                };
                if t as usize >= fields.len() { return Err(DErr::Invalid(format!("union tag {t}"))); }
                sel = t as u32;
                let v = self.field(c, t as usize, &params, &fields, ctx)?;
                fields[t as usize] = v;
            }
        }
        self.depth -= 1;
        Ok(V::Obj(Box::new(Obj { params, sel, fields })))
    }
}
pub struct Decoded { pub v: V, pub bits: u64, pub offsets_ok: bool, pub noncanonical: bool }
thread_local! { static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// Objects and array elements the last decoding of this thread went through.
pub fn last_steps() -> u64 { STEPS.with(|s| s.get()) }
pub fn decode(m: &Model, c: &Rc<Comp>, params: &[V], b: &[u8], start: u64) -> DRes<Decoded> {
    let mut d = Dec::new(m, b);
    d.r.pos = start;
    let v = d.comp(c, params.to_vec(), None);
    STEPS.with(|s| s.set(200_000 - d.budget));
    let v = v?;
    Ok(Decoded { v, bits: d.r.pos - start, offsets_ok: d.off_ok, noncanonical: d.noncanonical })
}
