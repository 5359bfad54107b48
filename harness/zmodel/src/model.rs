//! Name resolution, template instantiation and expression evaluation.
use crate::ast::*;
use crate::value::*;
use std::cell::{OnceCell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum VarKind { U16, U32, U64, U, Size, I16, I32, I64, I }

#[derive(Debug)]
pub struct REnum { pub decl: Rc<EnumDecl>, pub base: Ty, pub items: Vec<(String, i128)> }
#[derive(Debug)]
pub struct RMask { pub decl: Rc<MaskDecl>, pub base: Ty, pub items: Vec<(String, i128)> }

#[derive(Clone)]
pub enum Ty {
    Int { signed: bool, bits: u8 },
    DynInt { signed: bool, width: Rc<Expr> },
    Var(VarKind),
    F16, F32, F64, Bool, Str, Bytes, Ext,
    Enum(Rc<REnum>),
    Mask(Rc<RMask>),
    Comp(Rc<Comp>),
}
impl std::fmt::Debug for Ty {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.key()) }
}
impl Ty {
    pub fn key(&self) -> String {
        match self {
            Ty::Int { signed, bits } => format!("{}{}", if *signed { "i" } else { "u" }, bits),
            Ty::DynInt { signed, .. } => format!("{}<dyn>", if *signed { "i" } else { "u" }),
            Ty::Var(k) => format!("var{k:?}"),
            Ty::F16 => "f16".into(), Ty::F32 => "f32".into(), Ty::F64 => "f64".into(), Ty::Bool => "bool".into(),
            Ty::Str => "string".into(), Ty::Bytes => "bytes".into(), Ty::Ext => "extern".into(),
            Ty::Enum(e) => format!("{}.{}", e.decl.pkg, e.decl.name),
            Ty::Mask(e) => format!("{}.{}", e.decl.pkg, e.decl.name),
            Ty::Comp(c) => format!("{}.{}<{}>", c.decl.pkg, c.decl.name, c.targs.iter().map(|t| t.key()).collect::<Vec<_>>().join(",")),
        }
    }
    /// Integer kinds (delta-packable scalars).
    pub fn is_int(&self) -> bool { matches!(self, Ty::Int { .. } | Ty::DynInt { .. } | Ty::Var(_)) }
    pub fn int_range(&self, w: Option<u8>) -> (i128, i128) {
        match self {
            Ty::Int { signed, bits } => range(*signed, *bits),
            Ty::DynInt { signed, .. } => range(*signed, w.unwrap_or(64)),
            Ty::Var(k) => match k {
                VarKind::U16 => (0, (1 << 15) - 1),
                VarKind::U32 => (0, (1 << 29) - 1),
                VarKind::U64 => (0, (1 << 57) - 1),
                VarKind::U => (0, u64::MAX as i128),
                VarKind::Size => (0, (1 << 31) - 1),
                VarKind::I16 => (-((1 << 14) - 1), (1 << 14) - 1),
                VarKind::I32 => (-((1 << 28) - 1), (1 << 28) - 1),
                VarKind::I64 => (-((1 << 56) - 1), (1 << 56) - 1),
                VarKind::I => (i64::MIN as i128, i64::MAX as i128),
            },
            _ => panic!("int_range of {self:?}"),
        }
    }
}
pub fn range(signed: bool, bits: u8) -> (i128, i128) {
    if signed && bits > 0 { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) }
}

#[derive(Debug, Clone)]
pub struct RField {
    pub f: Field,
    pub ty: Ty,
    pub is_offset: bool,
}

#[derive(Debug)]
pub enum RBody {
    Struct,
    /// cases: (conditions, index of field or none); default: None = no default
    Choice { sel: Rc<Expr>, cases: Vec<(Vec<Rc<Expr>>, Option<usize>)>, default: Option<Option<usize>> },
    Union,
}

pub struct Comp {
    pub key: String,
    pub decl: Rc<Compound>,
    pub targs: Vec<Ty>,
    /// Name of the Rust type generated for this instance: (package, type name)
    pub gen_pkg: RefCell<String>,
    pub gen_name: RefCell<String>,
    /// every name under which this instance may be generated
    pub aliases: RefCell<Vec<String>>,
    pub inner: OnceCell<CompInner>,
}
#[derive(Debug)]
pub struct CompInner { pub params: Vec<(String, Ty)>, pub fields: Vec<RField>, pub body: RBody, pub funcs: Vec<(String, Ty, Rc<Expr>)> }
impl std::fmt::Debug for Comp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}.{}", self.decl.pkg, self.decl.name) }
}
impl Comp {
    pub fn i(&self) -> &CompInner { self.inner.get().expect("compound not resolved") }
    pub fn alias(&self, n: &str) { let mut a = self.aliases.borrow_mut(); if !a.iter().any(|x| x == n) { a.push(n.into()); } }
    pub fn fields(&self) -> &[RField] { &self.i().fields }
    pub fn field_index(&self, n: &str) -> Option<usize> { self.fields().iter().position(|f| f.f.name == n) }
}

pub struct Model {
    pub pkgs: HashMap<String, Package>,
    pub order: Vec<String>,
    comps: RefCell<HashMap<String, Rc<Comp>>>,
    enums: RefCell<HashMap<String, Rc<REnum>>>,
    masks: RefCell<HashMap<String, Rc<RMask>>>,
}

pub type Res<T> = Result<T, String>;

fn builtin(t: &TypeRef) -> Option<Ty> {
    let u = |b| Some(Ty::Int { signed: false, bits: b });
    let s = |b| Some(Ty::Int { signed: true, bits: b });
    match t.name.as_str() {
        "uint8" => u(8), "uint16" => u(16), "uint32" => u(32), "uint64" => u(64),
        "int8" => s(8), "int16" => s(16), "int32" => s(32), "int64" => s(64),
        "bit" | "int" => {
            let signed = t.name == "int";
            match t.width.as_ref()? {
                Width::Fixed(b) => Some(Ty::Int { signed, bits: *b }),
                Width::Dyn(e) => match &**e {
                    Expr::Int(n) => Some(Ty::Int { signed, bits: *n as u8 }),
                    _ => Some(Ty::DynInt { signed, width: e.clone() }),
                },
            }
        }
        "varuint16" => Some(Ty::Var(VarKind::U16)), "varuint32" => Some(Ty::Var(VarKind::U32)),
        "varuint64" => Some(Ty::Var(VarKind::U64)), "varuint" => Some(Ty::Var(VarKind::U)), "varsize" => Some(Ty::Var(VarKind::Size)),
        "varint16" => Some(Ty::Var(VarKind::I16)), "varint32" => Some(Ty::Var(VarKind::I32)),
        "varint64" => Some(Ty::Var(VarKind::I64)), "varint" => Some(Ty::Var(VarKind::I)),
        "float16" => Some(Ty::F16), "float32" => Some(Ty::F32), "float64" => Some(Ty::F64),
        "bool" => Some(Ty::Bool), "string" => Some(Ty::Str), "bytes" => Some(Ty::Bytes), "extern" => Some(Ty::Ext),
        _ => None,
    }
}

impl Model {
    pub fn new(sources: &[String]) -> Res<Model> {
        let mut pkgs = HashMap::new();
        let mut order = vec![];
        for s in sources {
            let p = crate::parse::parse_package(s)?;
            order.push(p.name.clone());
            if pkgs.insert(p.name.clone(), p).is_some() { return Err("duplicate package".into()); }
        }
        order.sort();
        let m = Model { pkgs, order, comps: Default::default(), enums: Default::default(), masks: Default::default() };
        // Resolve everything that is not a template.
        for pn in &m.order {
            let p = &m.pkgs[pn];
            for d in &p.decls {
                match d {
                    Decl::Inst(i) => {
                        // names the instantiation
                        if let Ty::Comp(c) = m.ty(&i.ty, &i.pkg, &[])? {
                            *c.gen_pkg.borrow_mut() = i.pkg.clone();
                            *c.gen_name.borrow_mut() = i.name.clone();
                            c.alias(&i.name);
                        }
                    }
                    _ => {}
                }
            }
        }
        for pn in &m.order {
            for d in &m.pkgs[pn].decls {
                match d {
                    Decl::Comp(c) if c.tparams.is_empty() => { m.comp(c, vec![], &[])?; }
                    Decl::Enum(e) => { m.renum(e)?; }
                    Decl::Mask(e) => { m.rmask(e)?; }
                    Decl::Sub(s) => {
                        if let Ty::Comp(c) = m.ty(&s.ty, &s.pkg, &[])? {
                            if !c.targs.is_empty() { c.alias(&s.name); }
                            if !c.targs.is_empty() && c.gen_name.borrow().is_empty() {
                                *c.gen_pkg.borrow_mut() = s.pkg.clone();
                                *c.gen_name.borrow_mut() = s.name.clone();
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(m)
    }

    pub fn lookup(&self, name: &str, pkg: &str) -> Res<Decl> {
        if let Some((p, n)) = name.rsplit_once('.') {
            return self.find(p, n).ok_or_else(|| format!("unknown {name}"));
        }
        if let Some(d) = self.find(pkg, name) { return Ok(d); }
        let p = self.pkgs.get(pkg).ok_or_else(|| format!("unknown package {pkg}"))?;
        let mut found: Vec<Decl> = vec![];
        // single-symbol imports win over package imports
        for (ip, sym) in &p.imports {
            if sym.as_deref() == Some(name) { if let Some(d) = self.find(ip, name) { found.push(d); } }
        }
        if found.is_empty() {
            for (ip, sym) in &p.imports {
                if sym.is_none() { if let Some(d) = self.find(ip, name) { found.push(d); } }
            }
        }
        match found.len() { 0 => Err(format!("symbol {name} not found in {pkg}")), 1 => Ok(found.pop().unwrap()), _ => Err(format!("ambiguous symbol {name} in {pkg}")) }
    }
    fn find(&self, pkg: &str, name: &str) -> Option<Decl> {
        self.pkgs.get(pkg)?.decls.iter().find(|d| d.name() == name).cloned()
    }

    /// Resolve a type reference seen in package `pkg` with template environment `env`.
    pub fn ty(&self, t: &TypeRef, pkg: &str, env: &[(String, Ty, String)]) -> Res<Ty> {
        if let Some(b) = builtin(t) { return Ok(b); }
        if let Some((_, ty)) = env.iter().find(|e| e.0 == t.name).map(|e| (&e.0, &e.1)) { return Ok(ty.clone()); }
        match self.lookup(&t.name, pkg)? {
            Decl::Comp(c) => {
                let targs = t.targs.iter().map(|a| self.ty(a, pkg, env)).collect::<Res<Vec<_>>>()?;
                if targs.len() != c.tparams.len() { return Err(format!("template arguments of {}", c.name)); }
                let names: Vec<String> = t.targs.iter().map(|a| self.targ_name(a, env)).collect();
                let r = self.comp(&c, targs, &names)?;
                if !t.targs.is_empty() {
                    let n = c.name.clone() + &names.concat();
                    r.alias(&n);
                    if r.gen_name.borrow().is_empty() {
                        // an unnamed instantiation
                        *r.gen_name.borrow_mut() = n;
                        *r.gen_pkg.borrow_mut() = pkg.to_string();
                    }
                }
                Ok(Ty::Comp(r))
            }
            Decl::Enum(e) => Ok(Ty::Enum(self.renum(&e)?)),
            Decl::Mask(e) => Ok(Ty::Mask(self.rmask(&e)?)),
            Decl::Sub(s) => self.ty(&s.ty, &s.pkg, &[]),
            Decl::Inst(i) => self.ty(&i.ty, &i.pkg, &[]),
            Decl::Const(c) => Err(format!("{} is not a type", c.name)),
        }
    }
    fn targ_name(&self, a: &TypeRef, env: &[(String, Ty, String)]) -> String {
        if let Some(e) = env.iter().find(|e| e.0 == a.name) { return e.2.clone(); }
        let mut n = a.name.rsplit('.').next().unwrap().to_string();
        match &a.width { Some(Width::Fixed(b)) => n += &b.to_string(), Some(Width::Dyn(e)) => if let Expr::Int(b) = &**e { n += &b.to_string() }, None => {} }
        for x in &a.targs { n += &self.targ_name(x, env); }
        n
    }

    fn comp(&self, c: &Rc<Compound>, targs: Vec<Ty>, names: &[String]) -> Res<Rc<Comp>> {
        let key = format!("{}.{}<{}>{}", c.pkg, c.name, targs.iter().map(|t| t.key()).collect::<Vec<_>>().join(","), names.join(","));
        if let Some(r) = self.comps.borrow().get(&key) { return Ok(r.clone()); }
        let named = targs.is_empty();
        let rc = Rc::new(Comp {
            key: key.clone(),
            decl: c.clone(), targs: targs.clone(),
            gen_pkg: RefCell::new(if named { c.pkg.clone() } else { String::new() }),
            gen_name: RefCell::new(if named { c.name.clone() } else { String::new() }),
            aliases: RefCell::new(if named { vec![c.name.clone()] } else { vec![] }),
            inner: OnceCell::new(),
        });
        self.comps.borrow_mut().insert(key, rc.clone());
        let env: Vec<(String, Ty, String)> = c.tparams.iter().cloned().zip(targs).zip(names).map(|((a, b), c)| (a, b, c.clone())).collect();
        let params = c.params.iter().map(|p| Ok((p.name.clone(), self.ty(&p.ty, &c.pkg, &env)?))).collect::<Res<Vec<_>>>()?;
        let mut fields: Vec<RField> = vec![];
        let mut add = |f: &Field| -> Res<usize> {
            let ty = self.ty(&f.ty, &c.pkg, &env)?;
            fields.push(RField { f: f.clone(), ty, is_offset: false });
            Ok(fields.len() - 1)
        };
        let body = match &c.body {
            Body::Struct { fields: fs } => { for f in fs { add(f)?; } RBody::Struct }
            Body::Union { fields: fs } => { for f in fs { add(f)?; } RBody::Union }
            Body::Choice { sel, cases, default } => {
                let mut cs = vec![];
                for k in cases { let fi = match &k.field { Some(f) => Some(add(f)?), None => None }; cs.push((k.conds.clone(), fi)); }
                let d = match default { None => None, Some(None) => Some(None), Some(Some(f)) => Some(Some(add(f)?)) };
                RBody::Choice { sel: sel.clone(), cases: cs, default: d }
            }
        };
        // Fields used (directly) as offsets.
        let offs: Vec<String> = fields.iter().filter_map(|f| f.f.offset.as_ref()).filter_map(|e| match &**e {
            Expr::Id(n) => Some(n.clone()),
            Expr::At(b, _) => if let Expr::Id(n) = &**b { Some(n.clone()) } else { None },
            _ => None,
        }).collect();
        for f in fields.iter_mut() { if offs.contains(&f.f.name) { f.is_offset = true; } }
        let funcs = c.funcs.iter().map(|f| Ok((f.name.clone(), self.ty(&f.ret, &c.pkg, &env)?, f.body.clone()))).collect::<Res<Vec<_>>>()?;
        rc.inner.set(CompInner { params, fields, body, funcs }).map_err(|_| "recursive".to_string())?;
        Ok(rc)
    }

    fn renum(&self, e: &Rc<EnumDecl>) -> Res<Rc<REnum>> {
        let key = format!("{}.{}", e.pkg, e.name);
        if let Some(r) = self.enums.borrow().get(&key) { return Ok(r.clone()); }
        let base = self.ty(&e.ty, &e.pkg, &[])?;
        let mut next = 0i128;
        let mut items = vec![];
        for (n, x) in &e.items {
            if let Some(x) = x { next = self.const_int(x, &e.pkg)?; }
            items.push((n.clone(), next));
            next += 1;
        }
        let r = Rc::new(REnum { decl: e.clone(), base, items });
        self.enums.borrow_mut().insert(key, r.clone());
        Ok(r)
    }
    fn rmask(&self, e: &Rc<MaskDecl>) -> Res<Rc<RMask>> {
        let key = format!("{}.{}", e.pkg, e.name);
        if let Some(r) = self.masks.borrow().get(&key) { return Ok(r.clone()); }
        let base = self.ty(&e.ty, &e.pkg, &[])?;
        // unset values take the next power of two above the highest bit of the previous one
        let mut prev: Option<i128> = None;
        let mut items = vec![];
        for (n, x) in &e.items {
            let v = match x {
                Some(x) => self.const_int(x, &e.pkg)?,
                None => match prev { None => 1, Some(0) => 1, Some(p) => 1i128 << (128 - (p as u128).leading_zeros()) },
            };
            prev = Some(v);
            items.push((n.clone(), v));
        }
        let r = Rc::new(RMask { decl: e.clone(), base, items });
        self.masks.borrow_mut().insert(key, r.clone());
        Ok(r)
    }
    pub fn const_int(&self, e: &Expr, pkg: &str) -> Res<i128> {
        match self.eval(e, &Scope::pkg(pkg))? { EV::Int(i) => Ok(i), x => Err(format!("not an integer: {x:?}")) }
    }
    pub fn const_value(&self, c: &ConstDecl) -> Res<(Ty, EV)> {
        let ty = self.ty(&c.ty, &c.pkg, &[])?;
        Ok((ty, self.eval(&c.value, &Scope::pkg(&c.pkg))?))
    }

    pub fn by_key(&self, key: &str) -> Option<Rc<Comp>> { self.comps.borrow().get(key).cloned() }
    /// The compound a generated type was registered for: `pkg.name`, or `pkg.name#key` for template instances.
    pub fn by_alias(&self, id: &str) -> Option<Rc<Comp>> {
        if let Some((_, key)) = id.split_once('#') { return self.by_key(key); }
        let (p, n) = id.rsplit_once('.')?;
        self.all_comps().iter().find(|c| c.targs.is_empty() && c.decl.pkg == p && c.decl.name == n).cloned()
    }
    /// (package, name, key) of every template instance the schema names.
    pub fn explicit_instances(&self) -> Vec<(String, String, String)> {
        let mut out = vec![];
        for p in &self.order { for d in &self.pkgs[p].decls {
            let (name, ty, pkg) = match d { Decl::Inst(i) => (&i.name, &i.ty, &i.pkg), Decl::Sub(s) if !s.ty.targs.is_empty() => (&s.name, &s.ty, &s.pkg), _ => continue };
            if let Ok(Ty::Comp(c)) = self.ty(ty, pkg, &[]) { if !c.targs.is_empty() { out.push((p.clone(), name.clone(), c.key.clone())); } }
        } }
        out
    }
    /// All compound instances, in a stable order.
    pub fn all_comps(&self) -> Vec<Rc<Comp>> {
        let m = self.comps.borrow();
        let mut k: Vec<_> = m.keys().cloned().collect();
        k.sort();
        k.iter().map(|x| m[x].clone()).collect()
    }
    pub fn all_enums(&self) -> Vec<Rc<REnum>> { let m = self.enums.borrow(); let mut k: Vec<_> = m.keys().cloned().collect(); k.sort(); k.iter().map(|x| m[x].clone()).collect() }
    pub fn all_masks(&self) -> Vec<Rc<RMask>> { let m = self.masks.borrow(); let mut k: Vec<_> = m.keys().cloned().collect(); k.sort(); k.iter().map(|x| m[x].clone()).collect() }
    pub fn all_consts(&self) -> Vec<Rc<ConstDecl>> {
        let mut v = vec![];
        for p in &self.order { for d in &self.pkgs[p].decls { if let Decl::Const(c) = d { v.push(c.clone()); } } }
        v
    }

    // ---- expressions -------------------------------------------------------------------------
    pub fn eval(&self, e: &Expr, s: &Scope) -> Res<EV> {
        let int = |x: EV| -> Res<i128> { match x { EV::Int(i) => Ok(i), EV::Mask(_, b) => Ok(b), x => Err(format!("integer expected, got {x:?}")) } };
        Ok(match e {
            Expr::Int(i) => EV::Int(*i),
            Expr::Float(f) => EV::F(*f),
            Expr::Bool(b) => EV::Bool(*b),
            Expr::Str(x) => EV::Str(x.clone()),
            Expr::Index => EV::Int(s.index.ok_or("@index outside array")?),
            Expr::Id(n) => self.ident(n, s)?,
            Expr::Dot(a, n) => {
                // qualified package name?
                match self.eval(a, s)? {
                    EV::EnumTy(t) => { let it = t.items.iter().find(|i| i.0 == *n).ok_or_else(|| format!("no item {n}"))?; EV::Enum(t.clone(), it.1) }
                    EV::MaskTy(t) => { let it = t.items.iter().find(|i| i.0 == *n).ok_or_else(|| format!("no item {n}"))?; EV::Mask(t.clone(), it.1) }
                    EV::Obj(c, o) => {
                        let ob = o.obj();
                        if let Some(i) = c.field_index(n) {
                            return self.lift(&ob.fields[i], &c.fields()[i], true);
                        }
                        if let Some(i) = c.i().params.iter().position(|p| p.0 == *n) {
                            return self.lift_ty(&ob.params[i], &c.i().params[i].1);
                        }
                        if let Some(i) = c.i().funcs.iter().position(|p| p.0 == *n) {
                            return Ok(EV::Func(c.clone(), o.clone(), i));
                        }
                        return Err(format!("no member {n} in {c:?}"));
                    }
                    x => return Err(format!("dot on {x:?}")),
                }
            }
            Expr::Call(a) => match self.eval(a, s)? {
                EV::Func(c, o, i) => {
                    let ob = o.obj();
                    let ns = Scope { model_pkg: &c.decl.pkg, comp: Some(&c), params: &ob.params, fields: &ob.fields, index: None };
                    let (_, rty, body) = &c.i().funcs[i];
                    let v = self.eval(body, &ns)?;
                    self.coerce(v, rty)?
                }
                x => return Err(format!("call of {x:?}")),
            },
            Expr::At(a, i) => {
                let i = int(self.eval(i, s)?)?;
                if let Some((v, f)) = Self::own_array(a, s) { return self.lift_ty(v.get(i as usize).ok_or("index out of range")?, &f.ty); }
                match self.eval(a, s)? {
                    EV::Arr(ty, v) => { let x = v.get(i as usize).ok_or("index out of range")?; self.lift_ty(x, &ty)? }
                    x => return Err(format!("index on {x:?}")),
                }
            }
            Expr::Isset(a, b) => { let a = int(self.eval(a, s)?)?; let b = int(self.eval(b, s)?)?; EV::Bool(a & b == b) }
            Expr::Lengthof(a) => if let Some((v, _)) = Self::own_array(a, s) { EV::Int(v.len() as i128) } else { match self.eval(a, s)? { EV::Arr(_, v) => EV::Int(v.len() as i128), x => return Err(format!("lengthof {x:?}")) } },
            Expr::Valueof(a) => match self.eval(a, s)? { EV::Enum(_, v) => EV::Int(v), EV::Mask(_, v) => EV::Int(v), x => return Err(format!("valueof {x:?}")) },
            Expr::Numbits(a) => { let v = int(self.eval(a, s)?)?; EV::Int(numbits(v)) }
            Expr::Un(u, a) => match (u, self.eval(a, s)?) {
                (UnOp::Plus, EV::Int(i)) => EV::Int(i), (UnOp::Plus, EV::F(i)) => EV::F(i),
                (UnOp::Minus, EV::Int(i)) => EV::Int(-i), (UnOp::Minus, EV::F(i)) => EV::F(-i),
                (UnOp::Not, EV::Bool(b)) => EV::Bool(!b),
                (UnOp::BitNot, EV::Int(i)) => EV::Int(!i),
                (UnOp::BitNot, EV::Mask(t, i)) => { let (_, hi) = t.base.int_range(None); EV::Mask(t, !i & hi) }
                (u, x) => return Err(format!("{u:?} {x:?}")),
            },
            Expr::Tern(c, a, b) => match self.eval(c, s)? { EV::Bool(true) => self.eval(a, s)?, EV::Bool(false) => self.eval(b, s)?, x => return Err(format!("condition {x:?}")) },
            Expr::Bin(op, a, b) => {
                if *op == Op::LAnd || *op == Op::LOr {
                    return match (op, self.eval(a, s)?) {
                        (Op::LAnd, EV::Bool(false)) => Ok(EV::Bool(false)),
                        (Op::LOr, EV::Bool(true)) => Ok(EV::Bool(true)),
                        (_, EV::Bool(_)) => match self.eval(b, s)? { EV::Bool(x) => Ok(EV::Bool(x)), x => Err(format!("{x:?}")) },
                        (_, x) => Err(format!("{x:?}")),
                    };
                }
                let l = self.eval(a, s)?;
                let r = self.eval(b, s)?;
                match (op, l, r) {
                    (Op::Add, EV::Str(x), EV::Str(y)) => EV::Str(x + &y),
                    (Op::Eq, EV::Str(x), EV::Str(y)) => EV::Bool(x == y),
                    (Op::Ne, EV::Str(x), EV::Str(y)) => EV::Bool(x != y),
                    (Op::Eq, EV::Bool(x), EV::Bool(y)) => EV::Bool(x == y),
                    (Op::Ne, EV::Bool(x), EV::Bool(y)) => EV::Bool(x != y),
                    (Op::Eq, EV::Enum(_, x), EV::Enum(_, y)) => EV::Bool(x == y),
                    (Op::Ne, EV::Enum(_, x), EV::Enum(_, y)) => EV::Bool(x != y),
                    (Op::Eq, EV::Mask(_, x), EV::Mask(_, y)) => EV::Bool(x == y),
                    (Op::Ne, EV::Mask(_, x), EV::Mask(_, y)) => EV::Bool(x != y),
                    (Op::And, EV::Mask(t, x), EV::Mask(_, y)) => EV::Mask(t, x & y),
                    (Op::Or, EV::Mask(t, x), EV::Mask(_, y)) => EV::Mask(t, x | y),
                    (Op::Xor, EV::Mask(t, x), EV::Mask(_, y)) => EV::Mask(t, x ^ y),
                    (op, l, r) => {
                        let fl = |x: &EV| match x { EV::F(f) => Some(*f), EV::Int(i) => Some(*i as f64), _ => None };
                        if matches!(l, EV::F(_)) || matches!(r, EV::F(_)) {
                            let (x, y) = (fl(&l).ok_or("float")?, fl(&r).ok_or("float")?);
                            match op {
                                Op::Add => EV::F(x + y), Op::Sub => EV::F(x - y), Op::Mul => EV::F(x * y), Op::Div => EV::F(x / y),
                                Op::Lt => EV::Bool(x < y), Op::Le => EV::Bool(x <= y), Op::Gt => EV::Bool(x > y), Op::Ge => EV::Bool(x >= y),
                                Op::Eq => EV::Bool(x == y), Op::Ne => EV::Bool(x != y),
                                _ => return Err("float op".into()),
                            }
                        } else {
                            let (x, y) = (int(l)?, int(r)?);
                            let ck = |v: Option<i128>| v.ok_or_else(|| "overflow".to_string());
                            match op {
                                Op::Add => EV::Int(ck(x.checked_add(y))?), Op::Sub => EV::Int(ck(x.checked_sub(y))?), Op::Mul => EV::Int(ck(x.checked_mul(y))?),
                                Op::Div => EV::Int(x.checked_div(y).ok_or("division by zero")?),
                                Op::Mod => EV::Int(x.checked_rem(y).ok_or("division by zero")?),
                                Op::Shl => { if !(0..64).contains(&y) { return Err("shift".into()); } EV::Int(x << y) }
                                Op::Shr => { if !(0..64).contains(&y) { return Err("shift".into()); } EV::Int(x >> y) }
                                Op::Lt => EV::Bool(x < y), Op::Le => EV::Bool(x <= y), Op::Gt => EV::Bool(x > y), Op::Ge => EV::Bool(x >= y),
                                Op::Eq => EV::Bool(x == y), Op::Ne => EV::Bool(x != y),
                                Op::And => EV::Int(x & y), Op::Or => EV::Int(x | y), Op::Xor => EV::Int(x ^ y),
                                _ => unreachable!(),
                            }
                        }
                    }
                }
            }
        })
    }

    /// An array field of the object itself, without a copy of it.
    fn own_array<'s>(e: &Expr, s: &'s Scope) -> Option<(&'s Vec<V>, &'s RField)> {
        let (Expr::Id(n), Some(c)) = (e, s.comp) else { return None };
        let i = c.fields().iter().position(|f| f.f.name == *n)?;
        match s.fields.get(i) { Some(V::Arr(a)) if !matches!(c.fields()[i].f.arr, Arr::None) => Some((a, &c.fields()[i])), _ => None }
    }
    fn ident(&self, n: &str, s: &Scope) -> Res<EV> {
        if let Some(c) = s.comp {
            if let Some(i) = c.fields().iter().position(|f| f.f.name == n) {
                let v = s.fields.get(i).ok_or_else(|| format!("field {n} not yet known"))?;
                return self.lift(v, &c.fields()[i], true);
            }
            if let Some(i) = c.i().params.iter().position(|p| p.0 == n) {
                return self.lift_ty(s.params.get(i).ok_or("param")?, &c.i().params[i].1);
            }
            if let Some(i) = c.i().funcs.iter().position(|p| p.0 == n) {
                return Ok(EV::Func(c.clone(), V::Obj(Box::new(Obj { params: s.params.to_vec(), sel: 0, fields: s.fields.to_vec() })), i));
            }
            // template parameter used as a type name
        }
        match self.lookup(n, s.model_pkg)? {
            Decl::Const(c) => { let (ty, v) = self.const_value(&c)?; self.coerce(v, &ty) }
            Decl::Enum(e) => Ok(EV::EnumTy(self.renum(&e)?)),
            Decl::Mask(e) => Ok(EV::MaskTy(self.rmask(&e)?)),
            Decl::Sub(t) => match self.ty(&t.ty, &t.pkg, &[])? { Ty::Enum(e) => Ok(EV::EnumTy(e)), Ty::Mask(e) => Ok(EV::MaskTy(e)), x => Err(format!("{n}: {x:?}")) },
            x => Err(format!("{n}: {x:?} in expression")),
        }
    }
    /// Conversion of an expression result to a declared type.
    pub fn coerce(&self, v: EV, ty: &Ty) -> Res<EV> {
        Ok(match (v, ty) {
            (EV::Int(i), Ty::F16 | Ty::F32 | Ty::F64) => EV::F(i as f64),
            (v, _) => v,
        })
    }
    pub fn lift(&self, v: &V, f: &RField, whole: bool) -> Res<EV> {
        if whole && !matches!(f.f.arr, Arr::None) {
            return match v { V::Arr(a) => Ok(EV::Arr(f.ty.clone(), a.clone())), V::Absent | V::Skip => Err("absent array".into()), _ => Err("array expected".into()) };
        }
        self.lift_ty(v, &f.ty)
    }
    pub fn lift_ty(&self, v: &V, ty: &Ty) -> Res<EV> {
        Ok(match (v, ty) {
            (V::Absent | V::Skip, _) => return Err("absent value used".into()),
            (V::Int(i), _) => EV::Int(*i),
            (V::Bool(b), _) => EV::Bool(*b),
            (V::Str(s), _) => EV::Str(s.clone()),
            (V::F32(b), _) => EV::F(f32::from_bits(*b) as f64),
            (V::F64(b), _) => EV::F(f64::from_bits(*b)),
            (V::Enum(i), Ty::Enum(e)) => EV::Enum(e.clone(), *i),
            (V::Mask(i), Ty::Mask(e)) => EV::Mask(e.clone(), *i),
            (V::Obj(_), Ty::Comp(c)) => EV::Obj(c.clone(), v.clone()),
            (v, t) => return Err(format!("lift {v:?} as {t:?}")),
        })
    }
    /// Turn an expression result into a value of type `ty`.
    pub fn lower(&self, v: EV, ty: &Ty) -> Res<V> {
        Ok(match (v, ty) {
            (EV::Int(i), Ty::F16 | Ty::F32) => V::F32((i as f32).to_bits()),
            (EV::Int(i), Ty::F64) => V::F64((i as f64).to_bits()),
            (EV::F(f), Ty::F16 | Ty::F32) => V::F32((f as f32).to_bits()),
            (EV::F(f), Ty::F64) => V::F64(f.to_bits()),
            (EV::Int(i), _) => V::Int(i),
            (EV::Bool(b), _) => V::Bool(b),
            (EV::Str(s), _) => V::Str(s),
            (EV::Enum(_, i), Ty::Enum(_)) => V::Enum(i),
            (EV::Mask(_, i), Ty::Mask(_)) => V::Mask(i),
            (EV::Obj(_, o), _) => o,
            (v, t) => return Err(format!("lower {v:?} to {t:?}")),
        })
    }
    pub fn eval_int(&self, e: &Expr, s: &Scope) -> Res<i128> {
        match self.eval(e, s)? { EV::Int(i) => Ok(i), x => Err(format!("integer expected, got {x:?}")) }
    }
    pub fn eval_bool(&self, e: &Expr, s: &Scope) -> Res<bool> {
        match self.eval(e, s)? { EV::Bool(b) => Ok(b), x => Err(format!("bool expected, got {x:?}")) }
    }
    /// Index of the field selected in a choice, given the scope. Ok(None) = no field.
    pub fn choice_field(&self, c: &Rc<Comp>, s: &Scope) -> Res<Option<usize>> {
        if let RBody::Choice { sel, cases, default } = &c.i().body {
            let v = self.eval(sel, s)?;
            for (conds, fi) in cases {
                for k in conds {
                    let hit = match (&v, &**k) {
                        (EV::Enum(t, x), Expr::Id(n)) => { if let Some(it) = t.items.iter().find(|i| i.0 == *n) { it.1 == *x } else { return Err(format!("case {n}")); } }
                        (EV::Mask(t, x), Expr::Id(n)) => { if let Some(it) = t.items.iter().find(|i| i.0 == *n) { it.1 == *x } else { return Err(format!("case {n}")); } }
                        (v, k) => match (v, self.eval(k, &Scope::pkg(&c.decl.pkg))?) {
                            (EV::Int(a), EV::Int(b)) => *a == b,
                            (EV::Bool(a), EV::Bool(b)) => *a == b,
                            (EV::Str(a), EV::Str(b)) => *a == b,
                            (EV::Enum(_, a), EV::Enum(_, b)) => *a == b,
                            (EV::Mask(_, a), EV::Mask(_, b)) => *a == b,
                            (EV::Mask(_, a), EV::Int(b)) => *a == b,
                            (a, b) => return Err(format!("case {a:?} {b:?}")),
                        },
                    };
                    if hit { return Ok(*fi); }
                }
            }
            return match default { Some(fi) => Ok(*fi), None => Err("no matching choice case".into()) };
        }
        Err("not a choice".into())
    }
}

/// ceil(log2(n)), with numbits(0) = 0 and numbits(1) = 1.
pub fn numbits(v: i128) -> i128 {
    if v <= 0 { return 0; }
    if v == 1 { return 1; }
    let mut n = 0;
    let mut x = (v - 1) as u128;
    while x > 0 { n += 1; x >>= 1; }
    n
}

#[derive(Clone)]
pub struct Scope<'a> {
    pub model_pkg: &'a str,
    pub comp: Option<&'a Rc<Comp>>,
    pub params: &'a [V],
    pub fields: &'a [V],
    pub index: Option<i128>,
}
impl<'a> Scope<'a> {
    pub fn pkg(p: &'a str) -> Scope<'a> { Scope { model_pkg: p, comp: None, params: &[], fields: &[], index: None } }
}

#[derive(Debug, Clone)]
pub enum EV {
    Int(i128), Bool(bool), Str(String), F(f64),
    Enum(Rc<REnum>, i128), Mask(Rc<RMask>, i128),
    EnumTy(Rc<REnum>), MaskTy(Rc<RMask>),
    Obj(Rc<Comp>, V), Arr(Ty, Vec<V>),
    Func(Rc<Comp>, V, usize),
}

/// All .zs files below a directory, sorted.
pub fn read_sources(dir: &std::path::Path) -> Res<Vec<String>> {
    let mut v = vec![];
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) -> std::io::Result<()> {
        for e in std::fs::read_dir(d)? { let p = e?.path(); if p.is_dir() { walk(&p, v)?; } else if p.extension().is_some_and(|x| x == "zs") { v.push(p); } }
        Ok(())
    }
    walk(dir, &mut v).map_err(|e| format!("{}: {e}", dir.display()))?;
    v.sort();
    v.iter().map(|p| std::fs::read_to_string(p).map_err(|e| e.to_string())).collect()
}
