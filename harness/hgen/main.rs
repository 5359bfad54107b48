//! Drives the code that /repo's compiler generated and watches it with the monitors of the checks.
//! hgen MODE SEED BUDGET ROOT=SCHEMADIR...
#![allow(clippy::type_complexity)]
use gluecore::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use zmodel::ast::*;
use zmodel::codec::{self, DErr};
use zmodel::gen::Gen;
use zmodel::model::*;
use zmodel::rng::*;
use zmodel::value::*;

mod reg { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/reg.rs")); }

include!("mon.rs");

// ---- workload ---------------------------------------------------------------------------------
struct World { models: Vec<(String, Model)>, reg: Registry, seed: u64, n: u64, only: Option<String>, shard: (usize, usize) }
struct T<'a> { m: &'a Model, c: Rc<Comp>, d: &'a dyn Driver, id: String, schema: &'a str }
impl World {
    fn model(&self, root: &str) -> &Model { &self.models.iter().find(|m| m.0 == root).expect("schema").1 }
    fn all_types(&self) -> Vec<T<'_>> {
        self.reg.types.iter().map(|t| {
            let m = self.model(&t.schema);
            T { m, c: m.by_alias(&t.id).unwrap_or_else(|| panic!("no model of {}", t.id)), d: &*t.d, id: t.id.clone(), schema: &t.schema }
        }).filter(|t| self.only.as_ref().is_none_or(|o| o.split(',').any(|o| format!("{}/{}", t.schema, t.id).contains(o)))).collect()
    }
    /// The types of this process (HGEN_SHARD divides them).
    fn types(&self) -> Vec<T<'_>> { self.all_types().into_iter().enumerate().filter(|(i, _)| self.mine(*i)).map(|x| x.1).collect() }
    fn mine(&self, i: usize) -> bool { i % self.shard.1 == self.shard.0 }
}
impl<'a> T<'a> {
    fn sig(&self, what: &str) -> String { format!("{}/{}|{what}", self.schema, self.id) }
    fn seed(&self, w: &World, k: u64) -> u64 { w.seed.wrapping_mul(0x9e37_79b9).wrapping_add(k.wrapping_mul(7919)).wrapping_add(hash64(self.id.as_bytes())) }
    fn gen(&self, w: &World, k: u64) -> Gen<'a> { Gen::new(self.m, self.seed(w, k)) }
}
fn key(id: &str, v: &V, x: u64) -> Vec<u8> { let mut s = String::new(); let _ = write!(s, "{id}{v:?}{x}"); s.into_bytes() }
fn nontrivial(v: &V) -> bool { match v { V::Obj(o) => o.fields.iter().any(|f| !matches!(f, V::Absent | V::Skip)), _ => true } }

/// Every valid value: f(type, value, start bit, model encoding)
fn values(w: &World, mon: &mut Mon, starts: &[u64], mut f: impl FnMut(&mut Mon, &T, &V, u64, &codec::Encoded)) {
    for t in w.types() {
        let mut made = 0;
        for k in 0..w.n {
            let mut g = t.gen(w, k);
            if k % 50 == 17 { g.long = 257; }
            let start = starts[(k as usize) % starts.len()];
            let v = match g.top(&t.c, start) { Ok(v) => v, Err(_) => { mon.stat("not generated", 1); continue; } };
            let e = match codec::encode(t.m, &t.c, &v, start) { Ok(e) => e, Err(_) => continue };
            made += 1;
            mon.eval(&key(&t.id, &v, start), nontrivial(&v));
            mon.sample(|| format!("{}/{} at bit {start}: {v:?} -> {}", t.schema, t.id, hex(&e.bytes)));
            mon.stat("objects", e.stats.objects); mon.stat("scalars", e.stats.scalars); mon.stat("packed columns", e.stats.packed_cols);
            mon.stat("plain columns", e.stats.plain_cols); mon.stat("aligned fields", e.stats.aligned); mon.stat("padding bits", e.stats.padded_bits);
            mon.stat("absent fields", e.stats.absent); mon.stat("arrays", e.stats.arrays);
            f(mon, &t, &v, start, &e);
        }
        if made == 0 { mon.stat("types without values", 1); } else { mon.stat("types", 1); }
    }
}
const STARTS: &[u64] = &[0, 0, 0, 1, 3, 7, 8, 13, 29, 61];

/// Mutations of a valid encoding, plus plain noise.
fn mutate(r: &mut Rng, b: &[u8], other: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    match r.below(12) {
        0 => { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n); }
        1 => { let n = r.below(24); b = (0..n).map(|_| r.next() as u8).collect(); }
        2 => { let n = r.below(12); b = (0..n).map(|_| *r.pick(&[0xffu8, 0, 0x80, 0x7f, 1])).collect(); }
        3 => { if !b.is_empty() { let i = r.below(b.len() as u64) as usize; b[i] = *r.pick(&[0, 0xff, 0x80, 0x7f, 1, 0xfe]); } }
        4 => { if !b.is_empty() { let i = r.below(b.len() as u64) as usize; for x in b[i..].iter_mut() { *x = 0xff; } } }
        5 => { let i = r.below(b.len() as u64 + 1) as usize; b.insert(i, r.next() as u8); }
        6 => { if !b.is_empty() { let i = r.below(b.len() as u64) as usize; b.remove(i); } }
        7 => { if !other.is_empty() { let i = r.below(b.len() as u64 + 1) as usize; let j = r.below(other.len() as u64) as usize; b.truncate(i); b.extend_from_slice(&other[j..]); } }
        8 => { for _ in 0..r.range(2, 6) { if !b.is_empty() { let i = r.below(b.len() as u64 * 8); b[(i / 8) as usize] ^= 0x80 >> (i % 8); } } }
        _ => { if !b.is_empty() { let i = r.below(b.len() as u64 * 8); b[(i / 8) as usize] ^= 0x80 >> (i % 8); } }
    }
    b
}
/// Hostile inputs: f(type, parameters, bytes, what the model says)
fn hostile(w: &World, mon: &mut Mon, per: u64, mut f: impl FnMut(&mut Mon, &T, &[V], &[u8], &Result<codec::Decoded, DErr>)) {
    for t in w.types() {
        let mut r = Rng::new(t.seed(w, 0xdead));
        let mut last: Vec<u8> = vec![];
        for k in 0..w.n {
            let mut g = t.gen(w, 1000 + k);
            let (p, b) = match g.top(&t.c, 0) { Ok(v) => match codec::encode(t.m, &t.c, &v, 0) { Ok(e) => (v.obj().params.clone(), e.bytes), Err(_) => continue },
                Err(_) => match g.params(&t.c) { Ok(p) => (p, vec![]), Err(_) => continue } };
            for j in 0..per {
                let mut x = if j == 0 { b.clone() } else { mutate(&mut r, &b, &last) };
                if j > 0 && r.chance(1, 4) { x = mutate(&mut r, &x, &last); }
                let d = codec::decode(t.m, &t.c, &p, &x, 0);
                match &d { Ok(_) => mon.stat("model accepts", 1), Err(DErr::Eof) => mon.stat("model: input ends", 1), Err(DErr::Invalid(_)) => mon.stat("model: malformed", 1), Err(DErr::Undefined(_)) => mon.stat("model: schema expression undefined", 1), Err(DErr::Budget) => { mon.stat("skipped: too large", 1); continue; } }
                let mut kk = x.clone(); kk.extend(t.id.as_bytes());
                mon.eval(&kk, j > 0);
                if j > 0 { mon.sample(|| format!("{}/{} <- {} : {}", t.schema, t.id, hex(&x), match &d { Ok(_) => "accepted".into(), Err(e) => format!("{e:?}") })); }
                f(mon, &t, &p, &x, &d);
            }
            last = b;
        }
    }
}

fn show(e: &codec::Encoded) -> String { format!("{} ({} bits)", hex(&e.bytes), e.bits) }
fn showe(e: &Enc) -> String { format!("{} ({} bits)", hex(&e.bytes), e.bits) }

include!("modes.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    let mode = a[1].clone();
    let seed = a[2].parse().unwrap();
    let n = a[3].parse().unwrap();
    let dirs: Vec<(String, String)> = a[4..].iter().map(|x| { let (r, d) = x.split_once('=').unwrap(); (r.to_string(), d.to_string()) }).collect();
    watchdog(30);
    // deep value trees need a deep stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let mut reg = Registry::default();
        reg::all(&mut reg);
        let models = dirs.iter().map(|(r, d)| (r.clone(), Model::new(&read_sources(std::path::Path::new(d)).unwrap()).unwrap_or_else(|e| panic!("{r}: {e}")))).collect();
        let shard = std::env::var("HGEN_SHARD").ok().and_then(|s| { let (a, b) = s.split_once('/')?; Some((a.parse().ok()?, b.parse().ok()?)) }).unwrap_or((0, 1));
        let w = World { models, reg, seed, n, only: std::env::var("HGEN_ONLY").ok(), shard };
        let mut mon = Mon::new();
        run_mode(&mode, &w, &mut mon);
        mon.done();
    }).unwrap();
    h.join().unwrap_or_else(|_| { LASTMSG(); std::process::exit(3) });
}
#[allow(non_snake_case)]
fn LASTMSG() { eprintln!("harness error: {}", gluecore::last_panic()); }
