//! JSON output of values and type descriptions (for the reference implementation bridge).
use crate::ast::*;
use crate::model::*;
use crate::value::*;
use std::rc::Rc;

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn value(v: &V) -> String {
    let list = |a: &[V]| a.iter().map(value).collect::<Vec<_>>().join(",");
    match v {
        V::Absent | V::Skip => "null".into(),
        V::Int(i) => format!("{{\"i\":\"{i}\"}}"),
        V::Bool(b) => b.to_string(),
        V::F32(b) => format!("{{\"f\":{b}}}"),
        V::F64(b) => format!("{{\"d\":\"{b}\"}}"),
        V::Str(s) => quote(s),
        V::Blob(b) => format!("{{\"b\":\"{}\"}}", hex(b)),
        V::Ext(b, n) => format!("{{\"x\":\"{}\",\"n\":{n}}}", hex(&trim(b, *n))),
        V::Enum(i) => format!("{{\"e\":\"{i}\"}}"),
        V::Mask(i) => format!("{{\"m\":\"{i}\"}}"),
        V::Obj(o) => format!("{{\"p\":[{}],\"s\":{},\"o\":[{}]}}", list(&o.params), o.sel, list(&o.fields)),
        V::Arr(a) => format!("[{}]", list(a)),
    }
}
fn ty(t: &Ty) -> String {
    match t {
        Ty::Comp(c) => quote(&format!("c:{}", comp_id(c))),
        Ty::Enum(_) => "\"enum\"".into(),
        Ty::Mask(_) => "\"mask\"".into(),
        Ty::Bool => "\"bool\"".into(), Ty::F16 | Ty::F32 => "\"f32\"".into(), Ty::F64 => "\"f64\"".into(), Ty::Str => "\"str\"".into(),
        Ty::Bytes => "\"bytes\"".into(), Ty::Ext => "\"ext\"".into(),
        _ => "\"int\"".into(),
    }
}
pub fn comp_id(c: &Comp) -> String { format!("{}.{}", c.gen_pkg.borrow(), c.gen_name.borrow()) }
pub fn comp(c: &Rc<Comp>) -> String {
    let kind = match c.i().body { RBody::Struct => "struct", RBody::Choice { .. } => "choice", RBody::Union => "union" };
    format!("{{\"id\":{},\"kind\":\"{kind}\",\"params\":[{}],\"fields\":[{}],\"funcs\":[{}]}}", quote(&comp_id(c)),
        c.i().params.iter().map(|(n, t)| format!("[{},{}]", quote(n), ty(t))).collect::<Vec<_>>().join(","),
        c.fields().iter().map(|f| format!("[{},{},{}]", quote(&f.f.name), ty(&f.ty), !matches!(f.f.arr, Arr::None))).collect::<Vec<_>>().join(","),
        c.i().funcs.iter().map(|(n, t, _)| format!("[{},{}]", quote(n), ty(t))).collect::<Vec<_>>().join(","))
}
