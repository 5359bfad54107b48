//! Generates the Rust glue that converts between value trees and the types generated by /repo's compiler.
use crate::ast::*;
use crate::model::*;
use std::fmt::Write;

/// Names in the generated code are the compiler's business: they are looked up in what it wrote, ignoring case,
/// underscores and the prefix that keeps them off Rust's keywords.
fn norm(n: &str) -> String { n.chars().filter(|c| *c != '_').map(|c| c.to_ascii_lowercase()).collect() }
fn pick(have: &[String], want: &str) -> Option<String> {
    let w = norm(want);
    let z = format!("z{w}");
    let close = |x: &&String| norm(x) == w;
    have.iter().filter(close).max_by_key(|x| usize::from(*x == want) * 2 + usize::from(x.chars().filter(|c| *c != '_').count() == x.len())).or_else(|| have.iter().find(|x| norm(x) == z)).cloned()
}
struct Names<'a> { root: &'a str, gen: &'a std::path::Path }
impl Names<'_> {
    fn dir(&self, pkg: &str) -> (std::path::PathBuf, String) {
        let (mut d, mut m) = (self.gen.to_path_buf(), format!("crate::{}", self.root));
        for p in pkg.split('.') {
            let n = pick(&entries(&d, None), p).unwrap_or_else(|| panic!("no module for {p} of package {pkg}"));
            d.push(&n);
            m += "::";
            m += &n;
        }
        (d, m)
    }
    /// (path of the module, its source) of a declared symbol
    fn module(&self, pkg: &str, name: &str) -> (String, String) {
        let (d, m) = self.dir(pkg);
        let n = pick(&entries(&d, Some("rs")), name).unwrap_or_else(|| panic!("no generated file for {pkg}.{name}"));
        (format!("{m}::{n}"), std::fs::read_to_string(d.join(format!("{n}.rs"))).unwrap())
    }
    fn path(&self, pkg: &str, name: &str, kinds: &[&str]) -> (String, String) {
        let (m, src) = self.module(pkg, name);
        let n = pick(&declared(&src, kinds), name).unwrap_or_else(|| panic!("{pkg}.{name} is not declared in {m}"));
        (format!("{m}::{n}"), src)
    }
}
fn entries(d: &std::path::Path, ext: Option<&str>) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).filter(|e| match ext { None => e.path().is_dir(), Some(x) => e.path().extension().is_some_and(|y| y == x) && e.file_name() != "mod.rs" && e.file_name() != "lib.rs" })
        .map(|e| e.path().file_stem().unwrap().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
fn ident(s: &str) -> String { s.strip_prefix("r#").unwrap_or(s).chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect() }
/// The names after `pub KIND ` anywhere in a source.
fn declared(src: &str, kinds: &[&str]) -> Vec<String> {
    src.lines().flat_map(|l| kinds.iter().filter_map(move |k| l.trim().strip_prefix(&format!("pub {k} ")).map(ident))).collect()
}
/// The lines between the braces that open at `pub struct X {` or the like.
fn body_of<'b>(src: &'b str, head: &str) -> &'b str {
    let b = src.find(head).map(|i| &src[i..]).unwrap_or("");
    &b[..b.find("\n}").unwrap_or(b.len())]
}
fn struct_fields(src: &str, name: &str) -> Vec<String> { body_of(src, &format!("pub struct {name} {{")).lines().filter_map(|l| l.trim().strip_prefix("pub ").filter(|l| !l.starts_with("struct ")).map(ident)).collect() }
fn enum_items(src: &str, name: &str) -> Vec<String> { body_of(src, &format!("pub enum {name} {{")).lines().skip(1).filter(|l| !l.trim().starts_with(['#', '/'])).map(|l| ident(l.trim())).filter(|x| !x.is_empty()).collect() }
fn must(have: &[String], want: &str, what: &str) -> String { pick(have, want).unwrap_or_else(|| panic!("{what} has no {want}: {have:?}")) }

/// The generated Rust type of every compound: (key of the compound, Rust path). Names of template instances are the
/// compiler's own business, so they are taken from the types of the generated fields.
fn rust_types(m: &Model, root: &str, gen: &std::path::Path) -> Vec<(String, String)> {
    let mut todo: Vec<(String, String)> = vec![];
    let nm = Names { root, gen };
    for c in m.all_comps() { if c.targs.is_empty() { todo.push((c.key.clone(), nm.path(&c.decl.pkg, &c.decl.name, &["struct"]).0)); } }
    for (pkg, name, key) in m.explicit_instances() { todo.push((key, nm.path(&pkg, &name, &["struct", "type"]).0)); }
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    while let Some((key, p)) = todo.pop() {
        if !seen.insert((key.clone(), p.clone())) { continue; }
        let Some(src) = source_of(&p, root, gen) else { out.push((key, p)); continue };
        let name = p.rsplit("::").next().unwrap();
        if let Some(i) = src.find(&format!("pub type {name} = ")) {
            if let Some(q) = first_path(src[i..].lines().next().unwrap()) { todo.push((key, q)); }
            continue;
        }
        let c = m.by_key(&key).unwrap();
        let body = body_of(&src, &format!("pub struct {name} {{"));
        let have = struct_fields(&src, name);
        for (n, ty) in c.fields().iter().map(|f| (&f.f.name, &f.ty)).chain(c.i().params.iter().map(|q| (&q.0, &q.1))) {
            if let Ty::Comp(x) = ty {
                if x.targs.is_empty() { continue; }
                let want = format!("pub {}: ", must(&have, n, &p));
                if let Some(q) = body.lines().filter_map(|l| l.trim().strip_prefix(&want)).find_map(first_path) { todo.push((x.key.clone(), q)); }
            }
        }
        out.push((key, p));
    }
    out.sort();
    out
}
fn first_path(l: &str) -> Option<String> {
    let i = l.find("crate::")?;
    Some(l[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == ':').collect())
}
fn source_of(p: &str, root: &str, gen: &std::path::Path) -> Option<String> {
    let parts: Vec<&str> = p.strip_prefix(&format!("crate::{root}::"))?.split("::").collect();
    let mut f = gen.to_path_buf();
    for x in &parts[..parts.len() - 2] { f.push(x); }
    f.push(format!("{}.rs", parts[parts.len() - 2]));
    std::fs::read_to_string(f).ok()
}

/// Glue source for one schema, generated under `crate::<root>`.
pub fn glue(m: &Model, root: &str, gen: &std::path::Path) -> String {
    let mut o = String::new();
    let w = &mut o;
    writeln!(w, "// generated by zm glue; do not edit\nuse gluecore::*;\n").unwrap();
    let mut reg = String::new();
    let nm = Names { root, gen };
    let mut seen = std::collections::HashSet::new();
    for (key, p) in rust_types(m, root, gen) {
        if !seen.insert(p.clone()) { continue; }
        let c = m.by_key(&key).unwrap();
        let id = if c.targs.is_empty() { format!("{}.{}", c.decl.pkg, c.decl.name) } else { format!("{}.{}#{key}", c.decl.pkg, p.rsplit("::").next().unwrap()) };
        let src = source_of(&p, root, gen).unwrap_or_default();
        let have = struct_fields(&src, p.rsplit("::").next().unwrap());
        let params: Vec<String> = c.i().params.iter().map(|x| must(&have, &x.0, &p)).collect();
        let fields: Vec<String> = c.fields().iter().map(|f| must(&have, &f.f.name, &p)).collect();
        let is_union = matches!(c.i().body, RBody::Union);
        writeln!(w, "impl Glue for {p} {{\n  fn to_v(&self) -> V {{ obj(vec![{}], {}, vec![{}]) }}",
            params.iter().map(|x| format!("self.{x}.to_v()")).collect::<Vec<_>>().join(", "),
            if is_union { "self.union_selector as u32" } else { "0" },
            fields.iter().map(|x| format!("self.{x}.to_v()")).collect::<Vec<_>>().join(", ")).unwrap();
        writeln!(w, "  #[allow(unused_variables, clippy::needless_update)]\n  fn from_v(v: &V) -> Option<Self> {{\n    let o = match v {{ V::Obj(o) => o, V::Absent | V::Skip => return Some(<Self as std::default::Default>::default()), _ => return None }};\n    #[allow(unused_mut)] let mut r = <Self as std::default::Default>::default();").unwrap();
        for (i, x) in params.iter().enumerate() { writeln!(w, "    r.{x} = Glue::from_v(&o.params[{i}])?;").unwrap(); }
        for (i, x) in fields.iter().enumerate() { writeln!(w, "    r.{x} = Glue::from_v(&o.fields[{i}])?;").unwrap(); }
        if is_union {
            let sname = must(&declared(&src, &["enum"]), &format!("{}Selector", p.rsplit("::").next().unwrap()), &p);
            let sel = format!("{}::{sname}", p.rsplit_once("::").unwrap().0);
            let tags = enum_items(&src, &sname);
            writeln!(w, "    r.union_selector = match o.sel {{ {} _ => return None }};",
                c.fields().iter().enumerate().map(|(i, f)| format!("{i} => {sel}::{},", must(&tags, &f.f.name, &sel))).collect::<Vec<_>>().join(" ")).unwrap();
        }
        writeln!(w, "    Some(r)\n  }}").unwrap();
        if !params.is_empty() {
            writeln!(w, "  fn set_params(&mut self, p: &[V]) -> Option<()> {{").unwrap();
            for (i, x) in params.iter().enumerate() { writeln!(w, "    self.{x} = Glue::from_v(&p[{i}])?;").unwrap(); }
            writeln!(w, "    Some(())\n  }}").unwrap();
        }
        if !c.i().funcs.is_empty() {
            writeln!(w, "  fn func(&self, i: usize) -> V {{ match i {{").unwrap();
            let fns = declared(&src, &["fn"]);
            for (i, f) in c.i().funcs.iter().enumerate() { writeln!(w, "    {i} => (self.{}()).to_v(),", must(&fns, &f.0, &p)).unwrap(); }
            writeln!(w, "    _ => unreachable!() }} }}").unwrap();
        }
        writeln!(w, "}}").unwrap();
        writeln!(reg, "  r.typ::<{p}>({id:?});").unwrap();
    }
    for e in m.all_enums() {
        let (p, src) = nm.path(&e.decl.pkg, &e.decl.name, &["enum"]);
        let have = enum_items(&src, p.rsplit("::").next().unwrap());
        let items: Vec<String> = e.items.iter().map(|i| must(&have, &i.0, &p)).collect();
        writeln!(w, "impl Glue for {p} {{\n  fn to_v(&self) -> V {{ V::Enum(match self {{ {} }}) }}",
            items.iter().zip(&e.items).map(|(n, i)| format!("Self::{n} => {},", i.1)).collect::<Vec<_>>().join(" ")).unwrap();
        writeln!(w, "  fn from_v(v: &V) -> Option<Self> {{ match as_enum(v)? {{ None => Some(<Self as std::default::Default>::default()), {} _ => None }} }}\n}}",
            items.iter().zip(&e.items).map(|(n, i)| format!("Some({}) => Some(Self::{n}),", i.1)).collect::<Vec<_>>().join(" ")).unwrap();
        writeln!(reg, "  r.enm::<{p}>(\"{}.{}\", vec![{}], |v| {p}::try_from(v).ok());", e.decl.pkg, e.decl.name,
            e.items.iter().zip(&items).map(|(i, n)| format!("(\"{}\", {p}::{n} as i128)", i.0)).collect::<Vec<_>>().join(", ")).unwrap();
    }
    for e in m.all_masks() {
        let (p, src) = nm.path(&e.decl.pkg, &e.decl.name, &["struct", "enum"]);
        let have = [enum_items(&src, p.rsplit("::").next().unwrap()), declared(&src, &["const"])].concat();
        writeln!(w, "impl Glue for {p} {{\n  fn to_v(&self) -> V {{ V::Mask(self.bits() as i128) }}\n  fn from_v(v: &V) -> Option<Self> {{ match as_mask(v)? {{ None => Some(<Self as std::default::Default>::default()), Some(b) => Some(Self::from(like(<Self as std::default::Default>::default().bits(), b)?)) }} }}\n}}").unwrap();
        writeln!(reg, "  r.mask::<{p}>(\"{}.{}\", vec![{}]);", e.decl.pkg, e.decl.name,
            e.items.iter().map(|i| format!("(\"{}\", {p}::{}.bits() as i128)", i.0, must(&have, &i.0, &p))).collect::<Vec<_>>().join(", ")).unwrap();
    }
    for c in m.all_consts() {
        let (p, _) = nm.path(&c.pkg, &c.name, &["const", "static"]);
        writeln!(reg, "  r.cst(\"{}.{}\", ConstV::cv(&{p}));", c.pkg, c.name).unwrap();
    }
    writeln!(w, "pub fn register(r: &mut Registry) {{\n  r.begin(\"{root}\");\n{reg}}}").unwrap();
    o
}
/// True if the model field is an array.
pub fn is_array(f: &Field) -> bool { !matches!(f.arr, Arr::None) }
