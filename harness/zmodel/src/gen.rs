//! Random values of schema types.
use crate::ast::*;
use crate::codec::*;
use crate::model::*;
use crate::rng::*;
use crate::scalar::*;
use crate::value::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub struct Gen<'m> {
    pub m: &'m Model,
    pub r: Rng,
    /// elements that may still be created
    pub budget: i64,
    small: RefCell<HashMap<String, Rc<(HashSet<String>, HashSet<String>)>>>,
    pub max_len: u64,
    /// one array of the object gets at least this many elements (and up to a quarter more)
    pub long: u64,
    max_fixed: i128,
}

pub fn idents(e: &Expr, out: &mut HashSet<String>) {
    match e {
        Expr::Id(n) => { out.insert(n.clone()); }
        Expr::Dot(a, n) => { idents(a, out); out.insert(n.clone()); }
        Expr::Call(a) | Expr::Lengthof(a) | Expr::Valueof(a) | Expr::Numbits(a) | Expr::Un(_, a) => idents(a, out),
        Expr::At(a, b) | Expr::Isset(a, b) | Expr::Bin(_, a, b) => { idents(a, out); idents(b, out); }
        Expr::Tern(a, b, c) => { idents(a, out); idents(b, out); idents(c, out); }
        _ => {}
    }
}

impl<'m> Gen<'m> {
    pub fn new(m: &'m Model, seed: u64) -> Self { Gen { m, r: Rng::new(seed), budget: 300, small: Default::default(), max_len: 6, long: 0, max_fixed: 400 } }

    /// (names that should be small, names that should hit choice cases) for a compound: everything that appears in
    /// a length, width, argument or selector expression, looking through functions.
    fn hints(&self, c: &Rc<Comp>) -> Rc<(HashSet<String>, HashSet<String>)> {
        let key = format!("{}.{}", c.decl.pkg, c.decl.name);
        if let Some(h) = self.small.borrow().get(&key) { return h.clone(); }
        let mut s = HashSet::new();
        let mut cond = HashSet::new();
        for f in c.fields() {
            if let Arr::Fixed(e) = &f.f.arr { idents(e, &mut s); }
            if let Some(Width::Dyn(e)) = &f.f.ty.width { idents(e, &mut s); }
            for a in &f.f.ty.args { idents(a, &mut s); }
            if let Some(e) = &f.f.cond { idents(e, &mut cond); }
            if let Some(e) = &f.f.offset { if let Expr::At(..) = &**e { } }
        }
        if let RBody::Choice { sel, .. } = &c.i().body { idents(sel, &mut cond); }
        for _ in 0..3 { for (n, _, b) in &c.i().funcs { if s.contains(n) { idents(b, &mut s); } if cond.contains(n) { idents(b, &mut cond); } } }
        let h = Rc::new((s, cond));
        self.small.borrow_mut().insert(key, h.clone());
        h
    }
    fn string(&mut self) -> String {
        const C: &[char] = &['a', 'Z', '0', ' ', '\n', '"', '\\', '\0', 'é', 'ß', '中', '😀', '\u{7ff}', '\u{ffff}', '{', '}'];
        let n = match self.r.below(10) { 0 | 1 => 0, 2..=7 => self.r.below(8), 8 => self.r.below(40), _ => 120 + self.r.below(20) };
        (0..n).map(|_| *self.r.pick(C)).collect()
    }
    fn bytes(&mut self) -> Vec<u8> {
        let n = match self.r.below(10) { 0 | 1 => 0, 2..=7 => self.r.below(6), 8 => self.r.below(40), _ => 120 + self.r.below(20) };
        (0..n).map(|_| match self.r.below(4) { 0 => 0, 1 => 255, _ => self.r.next() as u8 }).collect()
    }
    pub fn scalar(&mut self, ty: &Ty, s: &Scope, small: bool) -> Res<V> {
        Ok(match ty {
            Ty::Int { .. } | Ty::DynInt { .. } | Ty::Var(_) => {
                let w = match ty { Ty::DynInt { .. } => Some(self.m.width(ty, s)?), _ => None };
                if w == Some(0) { return Err("bit width 0".into()); }
                let (lo, hi) = ty.int_range(w);
                if small && self.r.chance(9, 10) { let n = if self.r.chance(1, 8) { 66 } else { self.max_len + 2 }; V::Int((self.r.below(n) as i128).clamp(lo, hi)) } else { V::Int(self.r.int(lo, hi)) }
            }
            Ty::Bool => V::Bool(self.r.chance(1, 2)),
            Ty::F16 => { let mut h = match self.r.below(4) { 0 => *self.r.pick(&[0, 0x8000, 0x3c00, 0x7bff, 0xfbff, 1, 0x3ff, 0x400, 0x7c00, 0xfc00]), _ => self.r.next() as u16 }; if h & 0x7c00 == 0x7c00 { h &= 0xfc00; } V::F32(f16_to_f32(h).to_bits()) }
            Ty::F32 => { let b = match self.r.below(3) { 0 => *self.r.pick(&[0u32, 0x8000_0000, 0x3f80_0000, 0x7f7f_ffff, 1, 0x7f80_0000, 0xff80_0000]), _ => self.r.next() as u32 }; V::F32(if f32::from_bits(b).is_nan() { 0x3f80_0000 } else { b }) }
            Ty::F64 => { let b = match self.r.below(3) { 0 => *self.r.pick(&[0u64, 1 << 63, 0x3ff0_0000_0000_0000, 1, 0x7ff0_0000_0000_0000, 0x7fef_ffff_ffff_ffff]), _ => self.r.next() }; V::F64(if f64::from_bits(b).is_nan() { 0x3ff0_0000_0000_0000 } else { b }) }
            Ty::Str => V::Str(self.string()),
            Ty::Bytes => V::Blob(self.bytes()),
            Ty::Ext => { let b = self.bytes(); let n = if b.is_empty() { 0 } else { b.len() as u64 * 8 - self.r.below(8) }; V::Ext(trim(&b, n), n) }
            Ty::Enum(e) => V::Enum(self.r.pick(&e.items).1),
            Ty::Mask(e) => { let (_, hi) = e.base.int_range(None); if self.r.chance(1, 2) { V::Mask(self.r.int(0, hi)) } else { let mut x = 0; for i in &e.items { if self.r.chance(1, 2) { x |= i.1; } } V::Mask(x) } }
            Ty::Comp(_) => return Err("scalar of compound".into()),
        })
    }
    fn value(&mut self, f: &RField, s: &Scope, small: bool, depth: u32) -> Res<V> {
        match &f.ty {
            Ty::Comp(c) => { let a = self.m.fitting_args(f, s)?; self.comp(c, a, depth + 1) }
            t => self.scalar(t, s, small),
        }
    }
    fn len(&mut self, depth: u32) -> u64 {
        if depth > 4 || self.budget <= 0 { return 0; }
        let n = match self.r.below(12) { 0 => 0, 1 | 2 => 1, 3..=9 => self.r.below(self.max_len + 1), _ => self.r.below(3 * self.max_len) };
        n.min(self.budget.max(0) as u64)
    }
    fn field(&mut self, c: &Rc<Comp>, i: usize, params: &[V], fields: &[V], depth: u32) -> Res<V> {
        let f = c.fields()[i].clone();
        let h = self.hints(c);
        let s = Scope { model_pkg: &c.decl.pkg, comp: Some(c), params, fields, index: None };
        if let Some(e) = &f.f.cond { if !self.m.eval_bool(e, &s)? { return Ok(if f.f.optional { V::Absent } else { V::Skip }); } }
        else if f.f.optional {
            let rec = matches!(&f.ty, Ty::Comp(k) if Rc::ptr_eq(k, c));
            if depth > 5 || self.budget <= 0 || (rec && depth > 3) || self.r.chance(2, 5) { return Ok(V::Absent); }
        }
        let small = h.0.contains(&f.f.name) || (h.1.contains(&f.f.name) && self.r.chance(2, 3));
        if let (true, true, true, Arr::None, Ty::Int { bits: 17.., .. }) = (self.long >= 1000, depth == 0, small, &f.f.arr, &f.ty) { let n = self.long + self.r.below(self.long / 4); self.long = 0; return Ok(V::Int(n as i128)); }
        if let (true, Ty::Int { .. }) = (f.is_offset, &f.ty) { if matches!(f.f.arr, Arr::None) { return Ok(V::Int(0)); } }
        match &f.f.arr {
            Arr::None => self.value(&f, &s, small, depth),
            arr => {
                let n = match arr {
                    Arr::Fixed(e) => { let n = self.m.eval_int(e, &s)?; if n < 0 || n > self.max_fixed { return Err(format!("length {n}")); } n as u64 }
                    _ => if let Some(n) = self.paired_len(c, &f, fields) { n }
                        else if self.long > 0 && depth == 0 && (self.long < 1000 || matches!(&f.ty, Ty::Bool | Ty::Int { bits: 1..=16, .. })) && (self.long >= 1000 || self.r.chance(1, 2)) { let n = self.long + self.r.below(self.long / 4); self.long = 0; self.budget += n as i64; n }
                        else { self.len(depth) },
                };
                self.budget -= n as i64;
                let mut out = vec![];
                let monotone = f.ty.is_int() && self.r.chance(1, 2);
                let mut cur: Option<i128> = None;
                let step = self.r.range(1, 40);
                for k in 0..n {
                    let s = Scope { index: Some(k as i128), ..s.clone() };
                    if f.is_offset && f.ty.is_int() { out.push(V::Int(0)); continue; }
                    let v = if monotone && !small && !matches!(f.ty, Ty::DynInt { .. }) {
                        let (lo, hi) = f.ty.int_range(None);
                        let v = match cur { None => self.r.int(lo, hi), Some(p) => { let d = match step { 1 => 0, _ => self.r.below(1 << (step / 2)) as i128 }; let d = if self.r.chance(1, 3) { -d } else { d }; (p + d).clamp(lo, hi) } };
                        cur = Some(v);
                        V::Int(v)
                    } else { self.value(&f, &s, small, depth)? };
                    out.push(v);
                }
                Ok(V::Arr(out))
            }
        }
    }
    /// Arrays used element-wise together (indexed offsets, `x[@index]` arguments) get equal lengths.
    fn paired_len(&self, c: &Rc<Comp>, f: &RField, fields: &[V]) -> Option<u64> {
        let mut names = vec![];
        fn walk(e: &Expr, out: &mut Vec<String>) {
            match e {
                Expr::At(a, b) => { if let (Expr::Id(n), true) = (&**a, has_index(b)) { out.push(n.clone()); } walk(a, out); walk(b, out); }
                Expr::Dot(a, _) | Expr::Call(a) | Expr::Lengthof(a) | Expr::Valueof(a) | Expr::Numbits(a) | Expr::Un(_, a) => walk(a, out),
                Expr::Isset(a, b) | Expr::Bin(_, a, b) => { walk(a, out); walk(b, out); }
                Expr::Tern(a, b, c) => { walk(a, out); walk(b, out); walk(c, out); }
                _ => {}
            }
        }
        fn has_index(e: &Expr) -> bool { match e { Expr::Index => true, Expr::Bin(_, a, b) => has_index(a) || has_index(b), _ => false } }
        if let Some(e) = &f.f.offset { walk(e, &mut names); }
        for a in &f.f.ty.args { walk(a, &mut names); }
        for n in names { if let Some(i) = c.field_index(&n) { if let Some(V::Arr(a)) = fields.get(i) { return Some(a.len() as u64); } } }
        None
    }
    pub fn comp(&mut self, c: &Rc<Comp>, params: Vec<V>, depth: u32) -> Res<V> {
        if depth > 12 { return Err("too deep".into()); }
        self.budget -= 1;
        let n = c.fields().len();
        let mut err = String::new();
        'a: for attempt in 0..12 {
            if attempt == 6 { self.max_len = self.max_len.min(2); }
            match &c.i().body {
                RBody::Struct => {
                    let mut fields = vec![];
                    for i in 0..n {
                        match self.field(c, i, &params, &fields, depth) { Ok(v) => fields.push(v), Err(e) => { err = e; continue 'a; } }
                    }
                    return Ok(V::Obj(Box::new(Obj { params, sel: 0, fields })));
                }
                RBody::Choice { .. } => {
                    let mut fields = vec![V::Skip; n];
                    let k = { let s = Scope { model_pkg: &c.decl.pkg, comp: Some(c), params: &params, fields: &fields, index: None }; self.m.choice_field(c, &s)? };
                    if let Some(i) = k { match self.field(c, i, &params, &fields.clone(), depth) { Ok(v) => fields[i] = v, Err(e) => { err = e; continue 'a; } } }
                    return Ok(V::Obj(Box::new(Obj { params, sel: 0, fields })));
                }
                RBody::Union => {
                    let mut fields = vec![V::Skip; n];
                    let i = self.r.below(n as u64) as usize;
                    match self.field(c, i, &params, &fields.clone(), depth) { Ok(v) => fields[i] = v, Err(e) => { err = e; continue 'a; } }
                    return Ok(V::Obj(Box::new(Obj { params, sel: i as u32, fields })));
                }
            }
        }
        Err(err)
    }
    /// Parameters for a stand-alone object.
    pub fn params(&mut self, c: &Rc<Comp>) -> Res<Vec<V>> {
        let mut out = vec![];
        for (_, t) in &c.i().params {
            let v = match t {
                Ty::Comp(p) => { let a = self.params(p)?; self.comp(p, a, 2)? }
                t => self.scalar(t, &Scope::pkg(&c.decl.pkg), true)?,
            };
            out.push(v);
        }
        // aim integer selectors at declared cases
        if let RBody::Choice { sel, cases, .. } = &c.i().body {
            if let Expr::Id(n) = &**sel {
                if let Some(i) = c.i().params.iter().position(|p| p.0 == *n) {
                    if self.r.chance(4, 5) && !cases.is_empty() {
                        let k = self.r.pick(cases).clone();
                        let e = self.r.pick(&k.0).clone();
                        if let Ok(EV::Int(x)) = self.m.eval(&e, &Scope::pkg(&c.decl.pkg)) { if let V::Int(_) = out[i] { out[i] = V::Int(x); } }
                    }
                }
            }
        }
        Ok(out)
    }
    /// A complete top-level value with correct offsets for an encoding that starts at bit `start`.
    pub fn top(&mut self, c: &Rc<Comp>, start: u64) -> Res<V> {
        let mut err = String::new();
        let long = self.long;
        if long >= 1000 { self.max_fixed = 2 * long as i128; }
        for k in 0..20 {
            self.long = if k < 10 { long } else { 0 };
            self.budget = 300;
            self.max_len = if k < 10 { 6 } else { 2 };
            let r = (|| { let p = self.params(c)?; let mut v = self.comp(c, p, 0)?; fix_offsets(self.m, c, &mut v, start)?; encode(self.m, c, &v, start)?; Ok::<V, String>(v) })();
            match r { Ok(v) => return Ok(v), Err(e) => err = e }
        }
        Err(err)
    }
    /// A value for given parameters.
    pub fn with_params(&mut self, c: &Rc<Comp>, p: &[V]) -> Res<V> {
        self.budget = 200;
        let v = self.comp(c, p.to_vec(), 0)?;
        encode(self.m, c, &v, 0)?;
        Ok(v)
    }
}
