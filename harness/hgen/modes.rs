fn run_mode(mode: &str, w: &World, mon: &mut Mon) {
    match mode {
        "wire" => wire(w, mon), "roundtrip" => roundtrip(w, mon), "bitsize" => bitsize(w, mon), "lists" => lists(w, mon), "packed" => packed(w, mon),
        "hostile" => hostile_mode(w, mon), "reject" => reject(w, mon), "canon" => canon(w, mon), "memory" => memory(w, mon),
        "entry" => entry(w, mon), "refuse" => refuse(w, mon), "align" => align(w, mon), "exprs" => exprs(w, mon), "values" => items(w, mon),
        "extern" => externs(w, mon), "pure" => pure(w, mon), "params" => params(w, mon), "same" => same(w, mon), "digest" => digest(w, mon), "deep" => deep(w, mon), "vectors" => vectors(w, mon),
        m => panic!("mode {m}"),
    }
}

/// Real bytes against the specification codec.
fn wire(w: &World, mon: &mut Mon) {
    values(w, mon, STARTS, |mon, t, v, start, e| {
        match t.d.encode(v, start) {
            Out::Ok(r) => if r.bytes != e.bytes || r.bits != e.bits { mon.bad(t.sig("encoding differs"), format!("at bit {start}: {v:?}\n expected {}\n got      {}", show(e), showe(&r))); },
            o => mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("at bit {start}: {v:?}\n {}", o.kind())),
        }
        match t.d.decode(&v.obj().params, &e.bytes, start) {
            Out::Ok(d) => {
                if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("decoding differs"), format!("{} from bit {start}: {x}\n expected {v:?}\n got      {:?}", hex(&e.bytes), d.v)); }
                else if d.bits != e.bits { mon.bad(t.sig("decoding length differs"), format!("{} from bit {start}: {} bits instead of {}", hex(&e.bytes), d.bits, e.bits)); }
            }
            o => mon.bad(t.sig(&format!("decoding fails: {}", class(&o))), format!("{} from bit {start}: {v:?}\n {}", hex(&e.bytes), o.kind())),
        }
    });
}

/// What was encoded decodes to an equal value.
fn roundtrip(w: &World, mon: &mut Mon) {
    values(w, mon, STARTS, |mon, t, v, start, _| {
        let r = match t.d.encode(v, start) { Out::Ok(r) => r, o => { mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("at bit {start}: {v:?}\n {}", o.kind())); return; } };
        match t.d.decode(&v.obj().params, &r.bytes, start) {
            Out::Ok(d) => {
                if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("value changed"), format!("at bit {start}: {x}\n before {v:?}\n after  {:?}\n bytes {}", d.v, showe(&r))); }
                else if d.bits != r.bits { mon.bad(t.sig("length changed"), format!("at bit {start}: wrote {} bits, read {}: {v:?}", r.bits, d.bits)); }
            }
            o => mon.bad(t.sig(&format!("decoding fails: {}", class(&o))), format!("at bit {start}: {v:?} as {}\n {}", showe(&r), o.kind())),
        }
        // the derived equality agrees
        if start == 0 { if let Out::Ok(false) = t.d.equal_after(v) { if !has_skip(v) { mon.bad(t.sig("derived equality"), format!("{v:?} is not equal to its decoded encoding")); } } }
        // decoding replaces everything a reused object held
        if start == 0 {
            let mut g = t.gen(w, 5_000_000 + r.bits);
            if let Ok(old) = g.top(&t.c, 0) {
                mon.stat("decoded over an old value", 1);
                match t.d.decode_over(&old, &v.obj().params, &r.bytes, 0) {
                    Out::Ok(d) => if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("old value shows through"), format!("{x}\n old {old:?}\n new {v:?}\n got {:?}", d.v)); },
                    o => mon.bad(t.sig(&format!("decoding into a used object fails: {}", class(&o))), format!("old {old:?}\n new {v:?}\n {}", o.kind())),
                }
            }
        }
    });
}
/// Unselected fields keep whatever the object held before, so equality says nothing about them.
fn has_skip(v: &V) -> bool { match v { V::Skip => true, V::Obj(o) => o.fields.iter().any(has_skip), V::Arr(a) => a.iter().any(has_skip), _ => false } }

fn bitsize(w: &World, mon: &mut Mon) {
    values(w, mon, STARTS, |mon, t, v, start, _| {
        let r = match t.d.encode(v, start) { Out::Ok(r) => r, o => { mon.stat(&format!("not encodable: {}", class(&o)), 1); mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("at bit {start}: {v:?} {}", o.kind())); return; } };
        match t.d.bitsize(v, start) {
            Out::Ok(n) => if n != r.bits { mon.bad(t.sig("size differs"), format!("at bit {start}: predicted {n}, wrote {} bits: {v:?}", r.bits)); },
            o => mon.bad(t.sig(&format!("sizing fails: {}", class(&o))), format!("at bit {start}: {v:?} {}", o.kind())),
        }
    });
    each_list(w, mon, |mon, t, vs, packed, start| {
        let what = if packed { "packed list" } else { "list" };
        let r = match t.d.list_encode(vs, packed, start) { Out::Ok(r) => r, o => { mon.bad(t.sig(&format!("{what}: encoding fails: {}", class(&o))), format!("at bit {start}: {vs:?} {}", o.kind())); return; } };
        match t.d.list_bitsize(vs, packed, start) {
            Out::Ok(n) => if n != r.bits { mon.bad(t.sig(&format!("{what}: size differs")), format!("at bit {start}: predicted {n}, wrote {} bits: {vs:?}", r.bits)); },
            o => mon.bad(t.sig(&format!("{what}: sizing fails: {}", class(&o))), format!("at bit {start}: {vs:?} {}", o.kind())),
        }
    });
}
/// True if the encoding of a value depends on nothing outside of it (offsets depend on the position).
fn list_of(w: &World, t: &T, k: u64) -> Option<Vec<V>> {
    if !t.c.i().params.is_empty() || has_offset(&t.c, &mut HashSet::new()) { return None; }
    let mut r = Rng::new(t.seed(w, 77_000 + k));
    let n = match r.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, _ => r.below(12) };
    // runs of similar values make packing worthwhile
    let mut out: Vec<V> = vec![];
    for i in 0..n {
        let v = if i > 0 && r.chance(1, 2) { let mut x = out[i as usize - 1].clone(); nudge(t.m, &Ty::Comp(t.c.clone()), &mut x, &mut r); normal(t.m, &t.c, &x).unwrap_or_else(|| out[i as usize - 1].clone()) }
            else { Gen::new(t.m, r.next()).top(&t.c, 0).ok()? };
        out.push(v);
    }
    Some(out)
}
fn has_offset(c: &Rc<Comp>, seen: &mut HashSet<String>) -> bool {
    if !seen.insert(format!("{}{:p}", c.decl.name, Rc::as_ptr(c))) { return false; }
    c.fields().iter().any(|f| f.is_offset || f.f.offset.is_some() || matches!(&f.ty, Ty::Comp(k) if has_offset(k, seen)))
}
/// The value as it comes back from its own encoding: fields that are not taken hold nothing.
fn normal(m: &Model, c: &Rc<Comp>, x: &V) -> Option<V> {
    let e = codec::encode(m, c, x, 0).ok()?;
    codec::decode(m, c, &x.obj().params, &e.bytes, 0).ok().map(|d| d.v)
}
/// Small changes to the integers of a value.
fn nudge(m: &Model, ty: &Ty, v: &mut V, r: &mut Rng) {
    match (ty, v) {
        (Ty::Comp(c), V::Obj(o)) => for (i, f) in c.fields().iter().enumerate() {
            match &mut o.fields[i] { V::Arr(a) => for x in a { nudge(m, &f.ty, x, r) }, x => nudge(m, &f.ty, x, r) }
        },
        (t, V::Int(i)) if t.is_int() => if let Ty::DynInt { .. } = t {} else { let (lo, hi) = t.int_range(None); let d = *r.pick(&[0i128, 0, 1, -1, 2, 3, 100, -100]); *i = (*i + d).clamp(lo, hi); },
        (Ty::Enum(e), V::Enum(i)) => if r.chance(1, 3) { *i = r.pick(&e.items).1; },
        _ => {}
    }
}
fn each_list(w: &World, mon: &mut Mon, mut f: impl FnMut(&mut Mon, &T, &[V], bool, u64)) {
    for t in w.types() {
        for k in 0..(w.n / 2).max(1) {
            let vs = match list_of(w, &t, k) { Some(v) => v, None => break };
            let start = STARTS[(k as usize * 3) % STARTS.len()];
            for packed in [false, true] {
                mon.eval(&key(&t.id, &V::Arr(vs.clone()), start * 2 + packed as u64), !vs.is_empty());
                mon.stat(if packed { "packed lists" } else { "lists" }, 1);
                mon.stat("list elements", vs.len() as u64);
                f(mon, &t, &vs, packed, start);
            }
        }
    }
}
fn lists(w: &World, mon: &mut Mon) {
    each_list(w, mon, |mon, t, vs, packed, start| {
        let what = if packed { "packed list" } else { "list" };
        let r = match t.d.list_encode(vs, packed, start) { Out::Ok(r) => r, o => { mon.bad(t.sig(&format!("{what}: encoding fails: {}", class(&o))), format!("at bit {start}: {vs:?} {}", o.kind())); return; } };
        match t.d.list_decode(vs.len(), packed, &r.bytes, start) {
            Out::Ok(d) => if let Some(x) = diff(&V::Arr(vs.to_vec()), &d.v, "") { mon.bad(t.sig(&format!("{what}: elements changed")), format!("at bit {start}: {x}\n wrote {vs:?}\n read  {:?}", d.v)); }
                else if d.bits != r.bits { mon.bad(t.sig(&format!("{what}: length changed")), format!("at bit {start}: wrote {} bits, read {}", r.bits, d.bits)); },
            o => mon.bad(t.sig(&format!("{what}: decoding fails: {}", class(&o))), format!("at bit {start}: {vs:?} as {} {}", showe(&r), o.kind())),
        }
    });
    // array fields inside the schema types
    let see = |mon: &mut Mon, t: &T, v: &V, start: u64, e: &codec::Encoded| {
        if e.stats.arrays == 0 { return; }
        let r = match t.d.encode(v, start) { Out::Ok(r) => r, o => { mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("at bit {start}: {v:?} {}", o.kind())); return; } };
        match t.d.decode(&v.obj().params, &r.bytes, start) {
            Out::Ok(d) => if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("array changed"), format!("{x}\n before {v:?}\n after  {:?}", d.v)); } else if d.bits != r.bits { mon.bad(t.sig("length changed"), format!("wrote {} read {} bits: {v:?}", r.bits, d.bits)); },
            o => mon.bad(t.sig(&format!("decoding fails: {}", class(&o))), format!("{v:?} as {} {}", showe(&r), o.kind())),
        }
    };
    values(w, mon, STARTS, see);
    huge(w, mon, 3, 65_537, |_| true, see);
}
/// Packed bytes against the specification codec, and the size bound.
fn packed(w: &World, mon: &mut Mon) {
    each_list(w, mon, |mon, t, vs, packed, start| {
        if !packed { return; }
        let e = match codec::encode_packed_list(t.m, &t.c, vs, start) { Ok(e) => e, Err(_) => return };
        mon.stat("packed columns", e.stats.packed_cols); mon.stat("plain columns", e.stats.plain_cols);
        match t.d.list_encode(vs, true, start) {
            Out::Ok(r) => if r.bytes != e.bytes || r.bits != e.bits { mon.bad(t.sig("packed list differs"), format!("at bit {start}: {vs:?}\n expected {}\n got      {}", show(&e), showe(&r))); },
            o => mon.bad(t.sig(&format!("packed list fails: {}", class(&o))), format!("{vs:?} {}", o.kind())),
        }
        match t.d.list_decode(vs.len(), true, &e.bytes, start) {
            Out::Ok(d) => if let Some(x) = diff(&V::Arr(vs.to_vec()), &d.v, "") { mon.bad(t.sig("packed list decodes differently"), format!("{}: {x}\n expected {vs:?}\n got {:?}", show(&e), d.v)); },
            o => mon.bad(t.sig(&format!("packed list does not decode: {}", class(&o))), format!("{} {vs:?} {}", show(&e), o.kind())),
        }
    });
    values(w, mon, STARTS, |mon, t, v, start, e| {
        if e.stats.packed_cols + e.stats.plain_cols == 0 { return; }
        match t.d.encode(v, start) {
            Out::Ok(r) => if r.bytes != e.bytes || r.bits != e.bits { mon.bad(t.sig("packed array differs"), format!("at bit {start}: {v:?}\n expected {}\n got      {}", show(e), showe(&r))); },
            o => mon.bad(t.sig(&format!("packed array fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
    });
}

fn hostile_mode(w: &World, mon: &mut Mon) {
    hostile(w, mon, 8, |mon, t, p, x, d| {
        begin_op(format!("{}\n{p:?} {}", t.sig("decode"), hex(x)));
        let o = t.d.decode_quiet(p, x);
        end_op();
        mon.stat(match &o { Out::Ok(_) => "decoded", Out::Err(_) => "rejected", _ => "panicked" }, 1);
        if let (Out::Panic(m), false) = (&o, matches!(d, Err(DErr::Undefined(_)))) { mon.bad(t.sig(&class(&o)), format!("{p:?} {}\n {m}", hex(x))); }
    });
}
fn reject(w: &World, mon: &mut Mon) {
    hostile(w, mon, 10, |mon, t, p, x, d| {
        let o = t.d.decode(p, x, 0);
        match (d, &o) {
            (Err(DErr::Eof), Out::Ok(r)) => mon.bad(t.sig("missing data accepted"), format!("{p:?} {} -> {:?}", hex(x), r.v)),
            (Err(DErr::Invalid(m)), Out::Ok(r)) => mon.bad(t.sig("malformed data accepted"), format!("{m}: {p:?} {} -> {:?}", hex(x), r.v)),
            (Err(DErr::Eof | DErr::Invalid(_)), Out::Panic(m)) => mon.bad(t.sig(&class(&o)), format!("{p:?} {}\n {m}", hex(x))),
            (Ok(e), Out::Ok(r)) => if let Some(y) = diff(&e.v, &r.v, "") { mon.bad(t.sig("decodes to another value"), format!("{p:?} {}: {y}\n expected {:?}\n got {:?}", hex(x), e.v, r.v)); },
            (Ok(e), o) => mon.bad(t.sig(&format!("valid data not accepted: {}", class(o))), format!("{p:?} {} is {:?}\n {}", hex(x), e.v, o.kind())),
            _ => {}
        }
    });
    // every discriminant value of every enum
    for (_, e) in w.reg.enums.iter().enumerate().filter(|x| w.mine(x.0)) {
        let m = w.model(&e.schema);
        let en = m.all_enums().into_iter().find(|x| format!("{}.{}", x.decl.pkg, x.decl.name) == e.id).unwrap();
        let mut r = Rng::new(w.seed + 5);
        let (lo, hi) = en.base.int_range(None);
        let mut tries: Vec<i128> = (-300..300).collect();
        for i in &en.items { tries.extend([i.1 - 1, i.1, i.1 + 1]); }
        for _ in 0..200 { tries.push(r.int(lo, hi)); }
        for x in tries {
            if x < lo || x > hi { continue; }
            mon.eval(format!("{}{x}", e.id).as_bytes(), true);
            let mut bw = zmodel::bits::BW::default();
            match &en.base { Ty::Int { bits, .. } => bw.bits(x as u128, *bits as u32), Ty::Var(k) => { for b in zmodel::scalar::var_bytes(*k, x).unwrap() { bw.bits(b as u128, 8); } } _ => continue }
            let defined = en.items.iter().any(|i| i.1 == x);
            match e.d.decode(&[], &bw.buf, 0) {
                Out::Ok(d) if !defined => mon.bad(format!("{}/{}|undefined value accepted", e.schema, e.id), format!("{x} -> {:?}", d.v)),
                Out::Ok(d) => if d.v != V::Enum(x) { mon.bad(format!("{}/{}|wrong item", e.schema, e.id), format!("{x} -> {:?}", d.v)); },
                Out::Err(_) if !defined => {}
                o => mon.bad(format!("{}/{}|enum value {}", e.schema, e.id, class(&o)), format!("{x}: {}", o.kind())),
            }
            if let Ok(y) = i64::try_from(x) { match (e.probe)(y) { Some(_) if !defined => mon.bad(format!("{}/{}|undefined value converted", e.schema, e.id), format!("{x}")), None if defined => mon.bad(format!("{}/{}|defined value refused", e.schema, e.id), format!("{x}")), _ => {} } }
        }
    }
    // every bit pattern of a bitmask is allowed
    for (_, e) in w.reg.masks.iter().enumerate().filter(|x| w.mine(x.0)) {
        let m = w.model(&e.schema);
        let en = m.all_masks().into_iter().find(|x| format!("{}.{}", x.decl.pkg, x.decl.name) == e.id).unwrap();
        let mut r = Rng::new(w.seed + 6);
        let (_, hi) = en.base.int_range(None);
        for _ in 0..60 {
            let x = r.int(0, hi);
            mon.eval(format!("{}{x}", e.id).as_bytes(), true);
            let mut bw = zmodel::bits::BW::default();
            match &en.base { Ty::Int { bits, .. } => bw.bits(x as u128, *bits as u32), Ty::Var(k) => { for b in zmodel::scalar::var_bytes(*k, x).unwrap() { bw.bits(b as u128, 8); } } _ => continue }
            match e.d.decode(&[], &bw.buf, 0) {
                Out::Ok(d) => if d.v != V::Mask(x) { mon.bad(format!("{}/{}|bit pattern changed", e.schema, e.id), format!("{x:#x} -> {:?}", d.v)); },
                o => mon.bad(format!("{}/{}|bit pattern not accepted", e.schema, e.id), format!("{x:#x}: {}", o.kind())),
            }
        }
    }
}
/// Decoded values re-encode, and the second decoding yields the same value.
fn canon(w: &World, mon: &mut Mon) {
    hostile(w, mon, 10, |mon, t, p, x, d| {
        let first = match t.d.decode(p, x, 0) { Out::Ok(r) => r, _ => return };
        mon.stat("decoded", 1);
        match t.d.encode(&first.v, 0) {
            Out::Ok(e) => {
                match t.d.decode(p, &e.bytes, 0) {
                    Out::Ok(s) => if let Some(y) = same_v(&first.v, &s.v) { mon.bad(t.sig("value not stable"), format!("{p:?} {} -> {:?} -> {} -> {:?}: {y}", hex(x), first.v, showe(&e), s.v)); },
                    o => mon.bad(t.sig(&format!("re-encoded value does not decode: {}", class(&o))), format!("{p:?} {} -> {:?} -> {}: {}", hex(x), first.v, showe(&e), o.kind())),
                }
                if let Ok(dm) = d { if !dm.noncanonical && dm.v_exact(t, p, x, &e) { } else if !dm.noncanonical { mon.bad(t.sig("encoder output not reproduced"), format!("{p:?} {} -> {:?} -> {}", hex(&x[..]), first.v, showe(&e))); } }
            }
            o => if !matches!(d, Err(DErr::Undefined(_))) { mon.bad(t.sig(&format!("decoded value does not encode: {}", class(&o))), format!("{p:?} {} -> {:?}: {}", hex(x), first.v, o.kind())); },
        }
    });
}
trait Exact { fn v_exact(&self, t: &T, p: &[V], x: &[u8], e: &Enc) -> bool; }
impl Exact for codec::Decoded {
    /// Bytes that the specification encoder produces for this value must be reproduced.
    fn v_exact(&self, t: &T, _p: &[V], x: &[u8], e: &Enc) -> bool {
        match codec::encode(t.m, &t.c, &self.v, 0) {
            Ok(m) if m.bits == self.bits && trim(x, m.bits) == trim(&m.bytes, m.bits) => e.bits == m.bits && e.bytes == m.bytes,
            _ => true,
        }
    }
}
fn same_v(a: &V, b: &V) -> Option<String> { diff(a, b, "") }

fn memory(w: &World, mon: &mut Mon) {
    let def = zserio::get_array_alloc_chunk();
    let chunks: [usize; 4] = [def, 0, 1, 64];
    let mut i = 0usize;
    hostile(w, mon, 8, |mon, t, p, x, d| {
        i += 1;
        if matches!(d, Err(DErr::Budget)) { return; }
        let steps = zmodel::codec::last_steps();
        let chunk = chunks[i % chunks.len()];
        zserio::set_array_alloc_chunk(chunk);
        begin_op(format!("{}\n{p:?} {}", t.sig("decode"), hex(x)));
        let (o, peak, big) = measure(|| t.d.decode_quiet(p, x));
        end_op();
        zserio::set_array_alloc_chunk(def);
        let _ = &o;
        let allowed = mem_allowance(t, chunk, x.len(), steps);
        mon.stat("largest share of allowance, percent", 0);
        let share = (peak.max(0) as u64 * 100 / allowed).max(big * 100 / allowed);
        let s = mon.stats.get_mut("largest share of allowance, percent").unwrap();
        *s = (*s).max(share);
        if peak.max(big as i64) as u64 > allowed { mon.bad(t.sig("memory"), format!("chunk {chunk}: peak {peak} bytes, biggest request {big} bytes, allowance {allowed}: {p:?} {} ({d:?})", hex(x), d = d.as_ref().map(|_| ()))); }
    });
    // the setting does not change results
    let mut i = 0usize;
    hostile(w, mon, 4, |mon, t, p, x, d| {
        if matches!(d, Err(DErr::Undefined(_))) { return; }
        i += 1;
        zserio::set_array_alloc_chunk(def);
        let a = t.d.decode(p, x, 0);
        for c in [0usize, 1, 3, 1 << 12] {
            zserio::set_array_alloc_chunk(c);
            let b = t.d.decode(p, x, 0);
            mon.stat("results compared over settings", 1);
            if format!("{a:?}") != format!("{b:?}") { mon.bad(t.sig("setting changes result"), format!("chunk {c}: {p:?} {}\n {a:?}\n {b:?}", hex(x))); }
        }
        zserio::set_array_alloc_chunk(def);
    });
    zserio::set_array_alloc_chunk(def);
}
/// Generous: every input bit may become an element, plus one chunk per array seen on the path.
fn mem_allowance(t: &T, chunk: usize, len: usize, steps: u64) -> u64 {
    let size = elem_bytes(&t.c, &mut HashSet::new());
    let arrays = arrays_in(&t.c, &mut HashSet::new());
    let present = (len as u64 * 8 + 16).max(steps) * 2; // elements of packed arrays may take up no bits
    16_384 + present * size * 4 + (arrays + 1) * 2 * (chunk as u64 + 8) * size * 2 * (1 + len as u64 / 2).min(4)
}
fn elem_bytes(c: &Rc<Comp>, seen: &mut HashSet<String>) -> u64 {
    if !seen.insert(format!("{:p}", Rc::as_ptr(c))) { return 64; }
    64 + c.fields().iter().map(|f| match &f.ty { Ty::Comp(k) if matches!(f.f.arr, Arr::None) => elem_bytes(k, seen), _ => 48 }).sum::<u64>() + c.i().params.iter().map(|p| match &p.1 { Ty::Comp(k) => elem_bytes(k, seen), _ => 48 }).sum::<u64>()
}
fn arrays_in(c: &Rc<Comp>, seen: &mut HashSet<String>) -> u64 {
    if !seen.insert(format!("{:p}", Rc::as_ptr(c))) { return 0; }
    c.fields().iter().map(|f| (!matches!(f.f.arr, Arr::None)) as u64 + match &f.ty { Ty::Comp(k) => arrays_in(k, seen), _ => 0 }).sum()
}

// ---- entry points and I/O faults -----------------------------------------------------------------
struct ShakyWriter { out: Vec<u8>, r: Rng, fail_after: Option<usize>, zero: bool, interrupts: u64 }
impl std::io::Write for ShakyWriter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.interrupts > 0 && self.r.chance(1, 3) { self.interrupts -= 1; return Err(std::io::ErrorKind::Interrupted.into()); }
        let mut n = (self.r.range(1, 7) as usize).min(b.len());
        if let Some(k) = self.fail_after { let left = k - self.out.len().min(k); if left == 0 && !b.is_empty() { return if self.zero { Ok(0) } else { Err(io_error(&mut self.r)) }; } n = n.min(left); }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// Any error but the one that asks for another attempt.
fn io_error(r: &mut Rng) -> std::io::Error {
    use std::io::ErrorKind::*;
    let k = *r.pick(&[Other, ConnectionReset, ConnectionAborted, BrokenPipe, UnexpectedEof, WouldBlock, TimedOut, InvalidData, InvalidInput, PermissionDenied, NotFound, WriteZero, OutOfMemory, Unsupported, StorageFull, AlreadyExists, NotConnected, AddrInUse]);
    if r.chance(1, 3) { std::io::Error::from_raw_os_error(*r.pick(&[5, 9, 11, 22, 28, 32, 104, 110])) } else { std::io::Error::new(k, "injected") }
}
extern "C" { fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32; }
/// Decodes from a pipe in the file system, into which the data comes in pieces.
fn through_fifo_out<X>(fifo: &std::path::Path, data: &[u8], seed: u64, read: impl FnOnce() -> X) -> X {
    let (p, b) = (fifo.to_owned(), data.to_vec());
    let h = std::thread::spawn(move || {
        let mut f = std::fs::OpenOptions::new().write(true).open(p).expect("pipe");
        let mut r = Rng::new(seed);
        let mut rest = &b[..];
        while !rest.is_empty() {
            let n = (1 + r.below(1 + b.len() as u64 / 2) as usize).min(rest.len());
            if std::io::Write::write_all(&mut f, &rest[..n]).is_err() { return; }
            rest = &rest[n..];
            if r.chance(1, 2) { std::thread::yield_now(); } else { std::thread::sleep(std::time::Duration::from_micros(r.below(200))); }
        }
    });
    let x = read();
    // (lets the writer go on should nobody have opened the pipe)
    let _ = std::os::unix::fs::OpenOptionsExt::custom_flags(std::fs::OpenOptions::new().read(true), 0o4000).open(fifo);
    h.join().expect("the writer of the pipe");
    x
}
struct ShakyReader<'a> { b: &'a [u8], r: Rng, fail_after: Option<usize>, given: usize, interrupts: u64 }
impl std::io::Read for ShakyReader<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupts > 0 && self.r.chance(1, 3) { self.interrupts -= 1; return Err(std::io::ErrorKind::Interrupted.into()); }
        if self.fail_after.is_some_and(|k| self.given >= k) { return Err(io_error(&mut self.r)); }
        let mut n = (self.r.range(1, 9) as usize).min(o.len()).min(self.b.len());
        if let Some(k) = self.fail_after { n = n.min(k - self.given); }
        o[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        self.given += n;
        Ok(n)
    }
}
fn entry(w: &World, mon: &mut Mon) {
    let dir = std::path::PathBuf::from(std::env::var("HGEN_TMP").expect("HGEN_TMP"));
    let file = dir.join(format!("object{}.bin", std::process::id()));
    let fifo = dir.join(format!("pipe{}", std::process::id()));
    if unsafe { mkfifo(std::ffi::CString::new(fifo.to_str().unwrap()).unwrap().as_ptr(), 0o600) } != 0 { panic!("no pipe: {}", std::io::Error::last_os_error()); }
    let mut pipes = 0u64;
    let mut r = Rng::new(w.seed ^ 0x10);
    let mut see = |mon: &mut Mon, t: &T, v: &V, _: u64, _: &codec::Encoded| {
        let a = match t.d.encode(v, 0) { Out::Ok(a) => a, o => { mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("{v:?} {}", o.kind())); return; } };
        let b = t.d.to_bytes(v);
        match &b { Out::Ok(x) => {
                if *x != a.bytes { mon.bad(t.sig("to_bytes differs from the encoder"), format!("{v:?}\n {}\n {}", hex(&a.bytes), hex(x))); }
                if x.len() as u64 != a.bits.div_ceil(8) { mon.bad(t.sig("output length"), format!("{} bits in {} bytes", a.bits, x.len())); }
                if a.bits % 8 != 0 && x.last().is_some_and(|l| l & (0xff >> (a.bits % 8)) != 0) { mon.bad(t.sig("padding is not zero"), hex(x)); } }
            o => { mon.bad(t.sig(&format!("to_bytes fails: {}", class(o))), format!("{v:?} {}", o.kind())); return; } }
        let x = b.ok().unwrap().clone();
        let mut wr = ShakyWriter { out: vec![], r: r.sub(), fail_after: None, zero: false, interrupts: 3 };
        match t.d.to_writer(v, &mut wr) { Out::Ok(()) => if wr.out != x { mon.bad(t.sig("to_writer differs"), format!("{v:?}\n {}\n {}", hex(&x), hex(&wr.out))); }, o => mon.bad(t.sig(&format!("to_writer fails: {}", class(&o))), o.kind()) }
        if !x.is_empty() {
            for zero in [false, true] {
                let k = r.below(x.len() as u64) as usize;
                let mut wr = ShakyWriter { out: vec![], r: r.sub(), fail_after: Some(k), zero, interrupts: 1 };
                mon.stat("injected write faults", 1);
                match t.d.to_writer(v, &mut wr) { Out::Err(_) => {} o => mon.bad(t.sig(&format!("write fault reported as {}", class(&o))), format!("writer failing after {k} of {} bytes: {}", x.len(), o.kind())) }
            }
        }
        if !v.obj().params.is_empty() { return; }
        let tail: Vec<u8> = (0..match r.below(30) { 0 => 100_000, 1 => 8192, _ => r.below(5) }).map(|_| r.next() as u8).collect();
        let mut y = x.clone(); y.extend(&tail);
        let from_slice = t.d.from_bytes(&y);
        match &from_slice { Out::Ok(g) => if let Some(d) = diff(v, g, "") { mon.bad(t.sig("from_bytes differs"), format!("{} {d}", hex(&y))); }, o => mon.bad(t.sig(&format!("from_bytes fails: {}", class(o))), format!("{} {}", hex(&y), o.kind())) }
        let mut check = |mon: &mut Mon, data: &[u8], want: &Out<V>, what: &str| {
            let mut rd = ShakyReader { b: data, r: r.sub(), fail_after: None, given: 0, interrupts: 2 };
            let a = t.d.from_reader(&mut rd);
            if !same_out(&a, want) { mon.bad(t.sig(&format!("from_reader differs from from_bytes ({what})")), format!("{}: {} / {}", hex(data), a.kind(), want.kind())); }
            std::fs::write(&file, data).expect("scratch file");
            let a = t.d.from_file(&file);
            if !same_out(&a, want) { mon.bad(t.sig(&format!("from_file differs from from_bytes ({what})")), format!("{}: {} / {}", hex(data), a.kind(), want.kind())); }
        };
        check(mon, &y, &from_slice, "valid");
        let mut rd = ShakyReader { b: &y, r: r.sub(), fail_after: None, given: 0, interrupts: 1 };
        if let Out::Ok(_) = t.d.from_reader(&mut rd) { if !rd.b.is_empty() { mon.bad(t.sig("the stream is not consumed"), format!("{} of {} bytes are left", rd.b.len(), y.len())); } }
        if r.chance(1, 12) {
            pipes += 1;
            mon.stat("decoded from a pipe", 1);
            let a = through_fifo_out(&fifo, &y, pipes, || t.d.from_file(&fifo));
            if !same_out(&a, &from_slice) { mon.bad(t.sig("from_file differs from from_bytes (pipe)"), format!("{}: {} / {}", hex(&y), a.kind(), from_slice.kind())); }
        }
        if !x.is_empty() {
            let k = if r.chance(1, 4) { x.len() - 1 } else { r.below(x.len() as u64) as usize };
            let cut_out = t.d.from_bytes(&x[..k]);
            mon.stat("truncated inputs", 1);
            if let Out::Ok(g) = &cut_out { mon.bad(t.sig("missing data accepted"), format!("first {k} of {}: {g:?}", hex(&x))); }
            let mut check2 = |d: &[u8], wnt: &Out<V>| { let mut rd = ShakyReader { b: d, r: r.sub(), fail_after: None, given: 0, interrupts: 0 }; let a = t.d.from_reader(&mut rd); if !same_out(&a, wnt) { mon.bad(t.sig("from_reader differs from from_bytes (truncated)"), format!("{}: {} / {}", hex(d), a.kind(), wnt.kind())); } };
            check2(&x[..k], &cut_out);
            mon.stat("injected read faults", 1);
            let k = r.below(x.len() as u64) as usize;
            let mut rd = ShakyReader { b: &x, r: r.sub(), fail_after: Some(k), given: 0, interrupts: 0 };
            match t.d.from_reader(&mut rd) { Out::Err(_) => {} o => mon.bad(t.sig(&format!("read fault reported as {}", class(&o))), format!("reader failing after {k} bytes: {}", o.kind())) }
            // fault after the whole object but before the end of the stream
            let mut rd = ShakyReader { b: &y, r: r.sub(), fail_after: Some(y.len()), given: 0, interrupts: 0 };
            match t.d.from_reader(&mut rd) { Out::Err(_) => {} o => mon.bad(t.sig(&format!("late read fault reported as {}", class(&o))), o.kind()) }
        }
    };
    values(w, mon, &[0], &mut see);
    huge(w, mon, 0, 65_537, |_| true, &mut see);
    huge(w, mon, 0, 700_000, |t| t.schema == "arrays", &mut see);
    // malformed input fails the same way everywhere
    let mut n = 0u64;
    hostile(w, mon, 4, |mon, t, p, x, d| {
        if !p.is_empty() || matches!(d, Err(DErr::Undefined(_))) { return; }
        n += 1;
        let a = t.d.from_bytes(x);
        let mut rd = ShakyReader { b: x, r: Rng::new(n), fail_after: None, given: 0, interrupts: 1 };
        let b = t.d.from_reader(&mut rd);
        if !same_out(&a, &b) { mon.bad(t.sig("from_reader differs from from_bytes (hostile)"), format!("{}: {} / {}", hex(x), a.kind(), b.kind())); }
        std::fs::write(&file, x).expect("scratch file");
        let b = t.d.from_file(&file);
        if !same_out(&a, &b) { mon.bad(t.sig("from_file differs from from_bytes (hostile)"), format!("{}: {} / {}", hex(x), a.kind(), b.kind())); }
        if let (Err(DErr::Eof), Out::Ok(v)) = (d, &a) { mon.bad(t.sig("missing data accepted"), format!("{} -> {v:?}", hex(x))); }
    });
    let _ = std::fs::remove_file(&fifo);
    let missing = dir.join("no such file");
    if let Some(t) = w.types().iter().find(|t| t.c.i().params.is_empty()) { match t.d.from_file(&missing) { Out::Err(_) => {} o => mon.bad(format!("{}|missing file", t.schema), o.kind()) } match t.d.from_file(&dir) { Out::Err(_) => {} o => mon.bad(format!("{}|directory as file", t.schema), o.kind()) } }
}
fn same_out(a: &Out<V>, b: &Out<V>) -> bool { match (a, b) { (Out::Ok(x), Out::Ok(y)) => diff(x, y, "").is_none(), (Out::Err(x), Out::Err(y)) => x == y, (Out::Panic(_), Out::Panic(_)) => true, _ => false } }

// ---- refusing what cannot be represented ---------------------------------------------------------
/// Changes one place of the value to something the schema does not allow; returns what was done.
fn spoil(m: &Model, c: &Rc<Comp>, v: &mut V, r: &mut Rng, depth: u32) -> Option<String> {
    let sel = match &c.i().body { RBody::Choice { .. } | RBody::Union => true, _ => false };
    let o = v.obj_mut();
    let n = c.fields().len();
    if n == 0 { return None; }
    let order: Vec<usize> = { let mut a: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { a.swap(i, r.below(i as u64 + 1) as usize); } a };
    for i in order {
        let f = c.fields()[i].clone();
        if matches!(o.fields[i], V::Absent | V::Skip) || (f.is_offset && matches!(f.f.arr, Arr::None)) { continue; }
        let _ = sel;
        let (params, fields) = (o.params.clone(), o.fields.clone());
        let s = Scope { model_pkg: &c.decl.pkg, comp: Some(c), params: &params, fields: &fields, index: None };
        if let (Arr::Fixed(_), V::Arr(a)) = (&f.f.arr, &mut o.fields[i]) {
            if r.chance(1, 2) { if a.is_empty() || r.chance(1, 2) { if let Some(x) = a.last().cloned() { a.push(x); return Some(format!("{}.{}: one element too many", c.decl.name, f.f.name)); } } else { a.pop(); return Some(format!("{}.{}: one element missing", c.decl.name, f.f.name)); } }
        }
        // a width which the type does not have
        if let (V::Int(old), Arr::None, Ty::Int { .. } | Ty::Var(_), true) = (o.fields[i].clone(), &f.f.arr, &f.ty, r.chance(1, 2)) {
            let dynamic: Vec<usize> = (0..n).filter(|j| matches!(c.fields()[*j].ty, Ty::DynInt { .. }) && match &o.fields[*j] { V::Absent | V::Skip => false, V::Arr(a) => !a.is_empty(), _ => true }).collect();
            let (lo, hi) = f.ty.int_range(None);
            if !dynamic.is_empty() {
                let g = c.fields()[*r.pick(&dynamic)].clone();
                for _ in 0..6 {
                    let x = match r.below(6) { 0 => old + 256, 1 => old + 64, 2 => old + 512, 3 => 65 + r.below(300) as i128, 4 => -(r.below(300) as i128) - 1, _ => lo + (r.next() as i128) % (hi - lo + 1) };
                    if x < lo || x > hi { continue; }
                    o.fields[i] = V::Int(x);
                    let s = Scope { model_pkg: &c.decl.pkg, comp: Some(c), params: &o.params, fields: &o.fields, index: None };
                    match m.width(&g.ty, &s) { Err(e) if e.starts_with("bit width ") => return Some(format!("{}.{}: width of {} is not a width", c.decl.name, f.f.name, g.f.name)), _ => o.fields[i] = V::Int(old) }
                }
            }
        }
        let fl = f.clone();
        let one = |x: &mut V, r: &mut Rng| -> Option<String> {
            match (&fl.ty, x) {
                (Ty::Comp(k), x) => {
                    if depth < 4 && (k.i().params.is_empty() || r.chance(2, 3)) { if let Some(w) = spoil(m, k, x, r, depth + 1) { return Some(w); } }
                    let o = x.obj_mut();
                    for (j, (pn, pt)) in k.i().params.iter().enumerate() {
                        match (pt, &mut o.params[j]) {
                            (Ty::Int { .. } | Ty::Var(_), V::Int(i)) => { let (lo, hi) = pt.int_range(None); *i = if *i < hi { *i + 1 } else if *i > lo { *i - 1 } else { continue }; return Some(format!("{}.{}: parameter {pn} differs", c.decl.name, fl.f.name)); }
                            (Ty::Bool, V::Bool(b)) => { *b = !*b; return Some(format!("{}.{}: parameter {pn} differs", c.decl.name, fl.f.name)); }
                            _ => {}
                        }
                    }
                    None
                }
                (t, V::Int(i)) if t.is_int() => {
                    let w = m.width(t, &s).ok();
                    let (lo, hi) = t.int_range(w);
                    *i = match r.below(4) { 0 => hi + 1, 1 => lo - 1, 2 => hi + 1 + r.below(1000) as i128, _ => if r.chance(1, 2) { hi * 2 + 1 } else { lo * 2 - 1 } };
                    Some(format!("{}.{}: {i} as {t:?} (width {w:?})", c.decl.name, fl.f.name))
                }
                _ => None,
            }
        };
        let what = match &mut o.fields[i] { V::Arr(a) => { if a.is_empty() { None } else { let k = r.below(a.len() as u64) as usize; one(&mut a[k], r) } } x => one(x, r) };
        if what.is_some() { return what; }
    }
    None
}
fn refuse(w: &World, mon: &mut Mon) {
    for t in w.types() {
        let mut r = Rng::new(t.seed(w, 0xbad));
        for k in 0..w.n * 2 {
            let mut g = t.gen(w, 3000 + k);
            let mut v = match g.top(&t.c, 0) { Ok(v) => v, Err(_) => continue };
            let what = match spoil(t.m, &t.c, &mut v, &mut r, 0) { Some(x) => x, None => break };
            if codec::encode(t.m, &t.c, &v, 0).is_ok() { continue; }
            if t.d.reflect(&v).is_none() { mon.stat("excluded by the Rust type", 1); continue; }
            mon.eval(&key(&t.id, &v, 0), true);
            mon.sample(|| format!("{}/{} {what}", t.schema, t.id));
            let kind = what.split(": ").nth(1).unwrap_or("").to_string();
            let kind = if kind.contains(" as ") { "integer out of range".to_string() } else { kind.split(' ').filter(|x| !x.is_empty()).take(3).collect::<Vec<_>>().join(" ") };
            mon.stat(&format!("tried: {kind}"), 1);
            match t.d.encode(&v, 0) {
                Out::Ok(e) => {
                    // bytes that decode to this very value would do no harm
                    match t.d.decode(&v.obj().params, &e.bytes, 0) {
                        Out::Ok(d) if diff(&v, &d.v, "").is_none() && kind != "parameter" => mon.stat("harmless", 1),
                        o => mon.bad(t.sig(&format!("accepted: {kind}")), format!("{what}: {v:?}\n encoded as {} which reads as {}", showe(&e), match o { Out::Ok(d) => format!("{:?}", d.v), o => o.kind() })),
                    }
                }
                _ => mon.stat("refused", 1),
            }
        }
        // the same inside packed lists
        for k in 0..w.n {
            let mut vs = match list_of(w, &t, 900 + k) { Some(v) => v, None => break };
            if vs.is_empty() { continue; }
            let i = r.below(vs.len() as u64) as usize;
            let what = match spoil(t.m, &t.c, &mut vs[i], &mut r, 0) { Some(x) => x, None => continue };
            if codec::encode(t.m, &t.c, &vs[i], 0).is_ok() || t.d.reflect(&vs[i]).is_none() { continue; }
            mon.eval(&key(&t.id, &V::Arr(vs.clone()), 1), true);
            mon.stat("tried in packed lists", 1);
            if let Out::Ok(e) = t.d.list_encode(&vs, true, 0) {
                match t.d.list_decode(vs.len(), true, &e.bytes, 0) {
                    Out::Ok(d) if diff(&V::Arr(vs.clone()), &d.v, "").is_none() => mon.stat("harmless", 1),
                    o => mon.bad(t.sig("accepted in packed list"), format!("{what} in element {i} of {vs:?}\n encoded as {} which reads as {}", showe(&e), match o { Out::Ok(d) => format!("{:?}", d.v), o => o.kind() })),
                }
            }
        }
    }
}

// ---- alignment ------------------------------------------------------------------------------------
fn align(w: &World, mon: &mut Mon) {
    let starts: Vec<u64> = (0..66).collect();
    values(w, mon, &starts, |mon, t, v, start, e| {
        if e.stats.aligned == 0 { return; }
        mon.stat("values with aligned fields", 1);
        let r = match t.d.encode(v, start) { Out::Ok(r) => r, o => { mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("at bit {start}: {v:?} {}", o.kind())); return; } };
        if r.bits != e.bits || r.bytes != e.bytes { mon.bad(t.sig("position of fields"), format!("at bit {start}: {v:?}\n expected {}\n got      {}", show(e), showe(&r))); }
        match t.d.bitsize(v, start) { Out::Ok(n) => if n != e.bits { mon.bad(t.sig("padding in size"), format!("at bit {start}: {n} instead of {} bits: {v:?}", e.bits)); }, o => mon.bad(t.sig(&format!("sizing fails: {}", class(&o))), o.kind()) }
        // padding is skipped whatever it contains
        let mut b = e.bytes.clone();
        b.extend([0xa5, 0x5a]);
        match t.d.decode(&v.obj().params, &b, start) {
            Out::Ok(d) => if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("decoding position"), format!("at bit {start}: {x} {v:?}\n {:?}", d.v)); } else if d.bits != e.bits { mon.bad(t.sig("decoding resumes elsewhere"), format!("at bit {start}: {} instead of {}", d.bits, e.bits)); },
            o => mon.bad(t.sig(&format!("decoding fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
    });
}

// ---- expressions ------------------------------------------------------------------------------------
fn exprs(w: &World, mon: &mut Mon) {
    let see = |mon: &mut Mon, t: &T, v: &V, e: &codec::Encoded| {
        let o = v.obj();
        for (i, (name, ty, body)) in t.c.i().funcs.iter().enumerate() {
            let s = Scope { model_pkg: &t.c.decl.pkg, comp: Some(&t.c), params: &o.params, fields: &o.fields, index: None };
            let want = match t.m.eval(body, &s).and_then(|x| t.m.lower(x, ty)) { Ok(x) => x, Err(_) => { mon.stat("undefined", 1); continue; } };
            // results outside the declared type are not defined
            if let (true, V::Int(x)) = (ty.is_int(), &want) { let (lo, hi) = match ty { Ty::Int { .. } | Ty::Var(_) => ty.int_range(None), _ => (i64::MIN as i128, u64::MAX as i128) }; if *x < lo || *x > hi { mon.stat("outside the result type", 1); continue; } }
            mon.stat("function results", 1);
            mon.eval(&key(&format!("{}.{name}", t.id), v, i as u64), true);
            match t.d.func(v, i) {
                Out::Ok(got) => if diff(&want, &got, "").is_some() { mon.bad(t.sig(&format!("{name}()")), format!("expected {want:?}, got {got:?} for {v:?}")); },
                o => mon.bad(t.sig(&format!("{name}() {}", class(&o))), format!("expected {want:?}: {} for {v:?}", o.kind())),
            }
        }
        // conditions, lengths, widths, arguments and selectors show in the encoding
        match t.d.encode(v, 0) {
            Out::Ok(r) => if r.bytes != e.bytes || r.bits != e.bits { mon.bad(t.sig("layout"), format!("{v:?}\n expected {}\n got      {}", show(e), showe(&r))); },
            o => mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
    };
    values(w, mon, &[0], |mon, t, v, _, e| see(mon, t, v, e));
    huge(w, mon, 0, 65_537, |t| t.c.i().funcs.iter().any(|f| measures(&f.2)), |mon, t, v, _, e| see(mon, t, v, e));
    consts(w, mon);
}
/// Objects with an array whose length does not fit into 16 bits: one of every type that can have one.
fn huge(w: &World, mon: &mut Mon, start: u64, long: u64, wanted: impl Fn(&T) -> bool, mut f: impl FnMut(&mut Mon, &T, &V, u64, &codec::Encoded)) {
    for t in w.types() {
        if !wanted(&t) || !t.c.fields().iter().any(|f| matches!((&f.f.arr, &f.ty), (Arr::None, _) | (_, Ty::Bool | Ty::Int { bits: 1..=16, .. })) && !matches!(f.f.arr, Arr::None)) { continue; }
        let mut g = t.gen(w, 7_000_000);
        g.long = long;
        if let Ok(v) = g.top(&t.c, start) { if v.obj().fields.iter().any(|f| matches!(f, V::Arr(a) if a.len() > 65535)) { if let Ok(e) = codec::encode(t.m, &t.c, &v, start) {
            mon.eval(&key(&t.id, &v, start), true);
            mon.stat("objects with more than 65535 elements in an array", 1);
            f(mon, &t, &v, start, &e);
        } } }
    }
}
fn measures(e: &Expr) -> bool {
    match e {
        Expr::Lengthof(_) => true,
        Expr::Dot(a, _) | Expr::Call(a) | Expr::Valueof(a) | Expr::Numbits(a) | Expr::Un(_, a) => measures(a),
        Expr::At(a, b) | Expr::Isset(a, b) | Expr::Bin(_, a, b) => measures(a) || measures(b),
        Expr::Tern(a, b, c) => measures(a) || measures(b) || measures(c),
        _ => false,
    }
}
fn consts(w: &World, mon: &mut Mon) {
    for (_, c) in w.reg.consts.iter().enumerate().filter(|x| w.mine(x.0)) {
        let m = w.model(&c.schema);
        let d = m.all_consts().into_iter().find(|x| format!("{}.{}", x.pkg, x.name) == c.id).unwrap();
        let want = match m.const_value(&d).and_then(|(ty, e)| m.lower(e, &ty)) { Ok(x) => x, Err(e) => { mon.stat(&format!("constant not evaluated: {e}"), 1); continue; } };
        mon.eval(c.id.as_bytes(), true);
        mon.stat("constants", 1);
        if diff(&want, &c.v, "").is_some() { mon.bad(format!("{}/{}|constant", c.schema, c.id), format!("expected {want:?}, got {:?}", c.v)); }
    }
}
fn items(w: &World, mon: &mut Mon) {
    for (_, e) in w.reg.enums.iter().enumerate().filter(|x| w.mine(x.0)) {
        let m = w.model(&e.schema);
        let d = m.all_enums().into_iter().find(|x| format!("{}.{}", x.decl.pkg, x.decl.name) == e.id).unwrap();
        for (a, b) in d.items.iter().zip(&e.items) { mon.eval(format!("{}.{}", e.id, a.0).as_bytes(), true); mon.stat("enum items", 1); mon.sample(|| format!("{}.{} = {}", e.id, b.0, b.1)); if *a != *b { mon.bad(format!("{}/{}|item {}", e.schema, e.id, a.0), format!("expected {}, got {}", a.1, b.1)); }
            // and on the wire
            match e.d.encode(&V::Enum(a.1), 3) { Out::Ok(x) => { let mut bw = zmodel::bits::BW::default(); bw.bits(0, 3); put(&mut bw, &d.base, a.1); if x.bytes != bw.buf || x.bits + 3 != bw.len { mon.bad(format!("{}/{}|encoding of {}", e.schema, e.id, a.0), format!("expected {}, got {}", hex(&bw.buf), showe(&x))); }
                    if !matches!(e.d.bitsize(&V::Enum(a.1), 3), Out::Ok(n) if n == x.bits) { mon.bad(format!("{}/{}|size of {}", e.schema, e.id, a.0), format!("{:?} for {} bits", e.d.bitsize(&V::Enum(a.1), 3), x.bits)); } }
                o => mon.bad(format!("{}/{}|encoding of {}: {}", e.schema, e.id, a.0, class(&o)), o.kind()) }
            match e.d.encode(&V::Enum(a.1), 0) { Out::Ok(x) => match e.d.decode(&[], &x.bytes, 0) { Out::Ok(y) if y.v == V::Enum(a.1) => {} o => mon.bad(format!("{}/{}|decoding of {}", e.schema, e.id, a.0), format!("{o:?}")) }, _ => {} }
        }
    }
    for (_, e) in w.reg.masks.iter().enumerate().filter(|x| w.mine(x.0)) {
        let m = w.model(&e.schema);
        let d = m.all_masks().into_iter().find(|x| format!("{}.{}", x.decl.pkg, x.decl.name) == e.id).unwrap();
        for (a, b) in d.items.iter().zip(&e.items) { mon.eval(format!("{}.{}", e.id, a.0).as_bytes(), true); mon.stat("bitmask items", 1); if *a != *b { mon.bad(format!("{}/{}|item {}", e.schema, e.id, a.0), format!("expected {}, got {}", a.1, b.1)); }
            match e.d.encode(&V::Mask(a.1), 3) { Out::Ok(x) => { let mut bw = zmodel::bits::BW::default(); bw.bits(0, 3); put(&mut bw, &d.base, a.1); if x.bytes != bw.buf || x.bits + 3 != bw.len { mon.bad(format!("{}/{}|encoding of {}", e.schema, e.id, a.0), format!("expected {}, got {}", hex(&bw.buf), showe(&x))); } } o => mon.bad(format!("{}/{}|encoding of {}: {}", e.schema, e.id, a.0, class(&o)), o.kind()) }
        }
    }
    consts(w, mon);
}
fn put(bw: &mut zmodel::bits::BW, ty: &Ty, x: i128) { match ty { Ty::Int { bits, .. } => bw.bits(x as u128, *bits as u32), Ty::Var(k) => { for b in zmodel::scalar::var_bytes(*k, x).unwrap() { bw.bits(b as u128, 8); } } t => panic!("{t:?}") } }

// ---- extern ---------------------------------------------------------------------------------------
fn externs(w: &World, mon: &mut Mon) {
    // wrap every object; unwrap it; carry it inside the extern fields of the schema
    values(w, mon, &[0], |mon, t, v, _, e| {
        match t.d.extern_of(v) {
            Out::Ok(x) => {
                let want = V::Ext(trim(&e.bytes, e.bits), e.bits);
                if diff(&want, &x, "").is_some() { mon.bad(t.sig("wrapped object"), format!("{v:?}\n expected {want:?}\n got      {x:?}")); }
                if let V::Ext(b, n) = &x {
                    match t.d.decode(&v.obj().params, b, 0) { Out::Ok(d) => if diff(v, &d.v, "").is_some() || d.bits != *n { mon.bad(t.sig("unwrapped object"), format!("{v:?} -> {x:?} -> {:?}", d.v)); }, o => mon.bad(t.sig(&format!("unwrapping fails: {}", class(&o))), o.kind()) }
                }
            }
            o => mon.bad(t.sig(&format!("wrapping fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
    });
    // dirty bits beyond the length are not part of the value
    values(w, mon, STARTS, |mon, t, v, start, e| {
        let mut d = v.clone();
        if !dirty(&mut d) { return; }
        mon.stat("values with extra bits in an extern", 1);
        match t.d.encode(&d, start) {
            Out::Ok(r) => if r.bytes != e.bytes || r.bits != e.bits { mon.bad(t.sig("bits beyond the extern length leak"), format!("at bit {start}: {d:?}\n expected {}\n got      {}", show(e), showe(&r))); },
            o => mon.bad(t.sig(&format!("extern: {}", class(&o))), format!("{d:?} {}", o.kind())),
        }
        match t.d.decode(&v.obj().params, &e.bytes, start) {
            Out::Ok(r) => if let Some(x) = diff(v, &r.v, "") { mon.bad(t.sig("content changed"), format!("at bit {start}: {x} {v:?} {:?}", r.v)); } else if r.bits != e.bits { mon.bad(t.sig("length changed"), format!("{} {}", r.bits, e.bits)); },
            o => mon.bad(t.sig(&format!("extern decoding: {}", class(&o))), o.kind()),
        }
    });
}
fn dirty(v: &mut V) -> bool {
    match v {
        V::Ext(b, n) => { if *n % 8 != 0 { if let Some(l) = b.last_mut() { *l |= 0xff >> (*n % 8); } } true }
        V::Blob(_) => true,
        V::Obj(o) => { for p in &mut o.params { dirty(p); } o.fields.iter_mut().fold(false, |a, f| dirty(f) | a) }
        V::Arr(a) => a.iter_mut().fold(false, |x, f| dirty(f) | x),
        _ => false,
    }
}

// ---- purity ----------------------------------------------------------------------------------------
struct Job { k: usize, v: V, start: u64, bytes: Vec<u8>, bad: Vec<u8> }
/// What one job yields; everything that can be observed.
fn outcome(d: &dyn Driver, j: &Job) -> String {
    format!("{:?}|{:?}|{:?}|{:?}", d.encode(&j.v, j.start).ok().map(|e| (hex(&e.bytes), e.bits)), d.bitsize(&j.v, j.start).ok(), d.decode(&j.v.obj().params, &j.bytes, j.start), d.decode(&j.v.obj().params, &j.bad, 0))
}
fn pure(w: &World, mon: &mut Mon) {
    let mut jobs: Vec<Job> = vec![];
    let ts = w.types();
    let mut r = Rng::new(w.seed ^ 0x18);
    for (k, t) in ts.iter().enumerate() {
        for i in 0..w.n {
            let start = STARTS[i as usize % STARTS.len()];
            let v = match t.gen(w, i).top(&t.c, start) { Ok(v) => v, Err(_) => continue };
            let e = match codec::encode(t.m, &t.c, &v, start) { Ok(e) => e, Err(_) => continue };
            // hostile bytes that the model can still bound
            let mut bad = mutate(&mut r, &e.bytes, &[]);
            if matches!(codec::decode(t.m, &t.c, &v.obj().params, &bad, 0), Err(DErr::Budget | DErr::Undefined(_))) { bad = vec![]; }
            if matches!(codec::decode(t.m, &t.c, &v.obj().params, &bad, 0), Err(DErr::Budget | DErr::Undefined(_))) { continue; }
            mon.eval(&key(&t.id, &v, start), nontrivial(&v));
            jobs.push(Job { k, v, start, bytes: e.bytes, bad });
        }
    }
    let ids: Vec<(String, &dyn Driver)> = ts.iter().map(|t| (format!("{}/{}", t.schema, t.id), t.d)).collect();
    // same object twice, nothing changed
    let first: Vec<String> = jobs.iter().map(|j| {
        if let Out::Ok((a, b, same)) = ids[j.k].1.encode_twice(&j.v, j.start) {
            if a != b { mon.bad(format!("{}|second encoding differs", ids[j.k].0), format!("{:?}\n {}\n {}", j.v, showe(&a), showe(&b))); }
            if !same { mon.bad(format!("{}|encoding changed the object", ids[j.k].0), format!("{:?}", j.v)); }
        }
        outcome(ids[j.k].1, j)
    }).collect();
    // another order, after failures of other types
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    for round in 0..2 {
        for i in (1..order.len()).rev() { order.swap(i, r.below(i as u64 + 1) as usize); }
        for &i in &order {
            mon.stat("repeated in another order", 1);
            let o = outcome(ids[jobs[i].k].1, &jobs[i]);
            if o != first[i] { mon.bad(format!("{}|depends on history", ids[jobs[i].k].0), format!("round {round}: {:?}\n first {}\n now   {o}", jobs[i].v, first[i])); }
        }
    }
    // concurrently, while the allocation setting changes
    let nt = 8;
    let found = std::sync::Mutex::new(vec![]);
    let count = AtomicU64::new(0);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let chunk = zserio::get_array_alloc_chunk();
    let barrier = std::sync::Barrier::new(nt);
    std::thread::scope(|s| {
        let flip = s.spawn(|| { let mut i = 0usize; while !stop.load(SeqCst) { zserio::set_array_alloc_chunk([0, 1, 7, 512][i % 4]); i += 1; std::thread::yield_now(); } i });
        let hs: Vec<_> = (0..nt).map(|th| {
            let (jobs, ids, first, found, count, barrier) = (&jobs, &ids, &first, &found, &count, &barrier);
            let seed = w.seed + th as u64;
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut r = Rng::new(seed);
                barrier.wait();
                let base = r.below(jobs.len() as u64) as usize;
                for n in 0..jobs.len() {
                    // half of the threads walk the same jobs at the same time
                    let i = if th % 2 == 0 { n } else { (base + n * 7 + 1) % jobs.len() };
                    let o = outcome(ids[jobs[i].k].1, &jobs[i]);
                    count.fetch_add(1, Relaxed);
                    if o != first[i] { found.lock().unwrap().push((i, o)); }
                }
            }).unwrap()
        }).collect();
        for h in hs { h.join().unwrap(); }
        stop.store(true, SeqCst);
        let flips = flip.join().unwrap();
        mon.stat("setting changes during the run", flips as u64);
    });
    zserio::set_array_alloc_chunk(chunk);
    mon.stat("jobs run concurrently", count.load(Relaxed));
    mon.stat("threads", nt as u64);
    for (i, o) in found.lock().unwrap().iter() { mon.bad(format!("{}|depends on concurrency", ids[jobs[*i].k].0), format!("{:?}\n alone {}\n now   {o}", jobs[*i].v, first[*i])); }
}

// ---- parameters ------------------------------------------------------------------------------------
fn has_args(c: &Rc<Comp>, seen: &mut HashSet<String>) -> bool {
    if !seen.insert(format!("{:p}", Rc::as_ptr(c))) { return false; }
    c.fields().iter().any(|f| matches!(&f.ty, Ty::Comp(k) if !k.i().params.is_empty() || has_args(k, seen)))
}
fn params(w: &World, mon: &mut Mon) {
    values(w, mon, STARTS, |mon, t, v, start, e| {
        if !has_args(&t.c, &mut HashSet::new()) { return; }
        mon.stat("values with parameterized parts", 1);
        match t.d.decode(&v.obj().params, &e.bytes, start) {
            Out::Ok(d) => if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("decoded parameters"), format!("{x}\n expected {v:?}\n got      {:?}", d.v)); },
            o => mon.bad(t.sig(&format!("decoding fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
        match t.d.encode(v, start) {
            Out::Ok(r) => if r.bytes != e.bytes || r.bits != e.bits { mon.bad(t.sig("encoding"), format!("{v:?}\n expected {}\n got {}", show(e), showe(&r))); },
            o => mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
        // parameters of an old object are replaced
        let mut g = t.gen(w, 6_000_000 + e.bits);
        if let Ok(old) = g.top(&t.c, 0) { if start == 0 {
            match t.d.decode_over(&old, &v.obj().params, &e.bytes, 0) { Out::Ok(d) => if let Some(x) = diff(v, &d.v, "") { mon.bad(t.sig("old parameters show through"), format!("{x}\n old {old:?}\n new {v:?}")); }, o => mon.bad(t.sig(&format!("decoding into a used object fails: {}", class(&o))), o.kind()) }
        } }
    });
    // disagreeing parameters are refused
    for t in w.types() {
        if !has_args(&t.c, &mut HashSet::new()) { continue; }
        let mut r = Rng::new(t.seed(w, 0x22));
        for k in 0..w.n {
            let mut v = match t.gen(w, 4000 + k).top(&t.c, 0) { Ok(v) => v, Err(_) => continue };
            let what = match twist(&t.c, &mut v, &mut r) { Some(x) => x, None => continue };
            if codec::encode(t.m, &t.c, &v, 0).is_ok() || t.d.reflect(&v).is_none() { continue; }
            mon.eval(&key(&t.id, &v, 9), true);
            mon.stat("disagreeing parameters tried", 1);
            if let Out::Ok(e) = t.d.encode(&v, 0) { mon.bad(t.sig("disagreeing parameter accepted"), format!("{what}: {v:?} encoded as {}", showe(&e))); }
        }
    }
}
/// Change a parameter of one nested object.
fn twist(c: &Rc<Comp>, v: &mut V, r: &mut Rng) -> Option<String> {
    let o = v.obj_mut();
    let n = c.fields().len();
    let from = r.below(n.max(1) as u64) as usize;
    for q in 0..n {
        let i = (q + from) % n;
        let f = &c.fields()[i];
        if let Ty::Comp(k) = &f.ty {
            let mut one = |x: &mut V, r: &mut Rng| -> Option<String> {
                if matches!(x, V::Absent | V::Skip) { return None; }
                if r.chance(1, 3) || k.i().params.is_empty() { if let Some(w) = twist(k, x, r) { return Some(w); } }
                let o = x.obj_mut();
                for (j, (pn, pt)) in k.i().params.iter().enumerate() {
                    match (pt, &mut o.params[j]) {
                        (Ty::Int { .. } | Ty::Var(_), V::Int(i)) => { let (lo, hi) = pt.int_range(None); let old = *i; *i = if r.chance(1, 2) { lo + (*i - lo + 1 + r.below(3) as i128) % (hi - lo + 1) } else { r.int(lo, hi) }; if *i != old { return Some(format!("{}.{}: {pn} {old} -> {i}", c.decl.name, f.f.name)); } }
                        (Ty::Bool, V::Bool(b)) => { *b = !*b; return Some(format!("{}.{}: {pn}", c.decl.name, f.f.name)); }
                        (Ty::Enum(e), V::Enum(i)) if e.items.len() > 1 => { let old = *i; while *i == old { *i = r.pick(&e.items).1; } return Some(format!("{}.{}: {pn}", c.decl.name, f.f.name)); }
                        (Ty::Str, V::Str(s)) => { s.push('x'); return Some(format!("{}.{}: {pn}", c.decl.name, f.f.name)); }
                        _ => {}
                    }
                }
                None
            };
            let w = match &mut o.fields[i] { V::Arr(a) => { if a.is_empty() { None } else { let z = r.below(a.len() as u64) as usize; one(&mut a[z], r) } } x => one(x, r) };
            if w.is_some() { return w; }
        }
    }
    None
}

/// Types that differ only in subtypes, templates or instantiation names (listed as "A = B" comments in the schema).
fn same(w: &World, mon: &mut Mon) {
    let ts = w.all_types();
    let mut pairs: Vec<(usize, usize)> = vec![];
    // pairs are named X and XPlain
    for (i, t) in ts.iter().enumerate() { if let Some(base) = t.id.strip_suffix("Plain") { if let Some(j) = ts.iter().position(|u| u.schema == t.schema && u.id == base) { pairs.push((j, i)); } } }
    for (_, (a, b)) in pairs.into_iter().enumerate().filter(|x| w.mine(x.0)) {
        let (ta, tb) = (&ts[a], &ts[b]);
        mon.stat("pairs", 1);
        let mut r = Rng::new(ta.seed(w, 24));
        for k in 0..w.n * 2 {
            let start = STARTS[k as usize % STARTS.len()];
            let v = match tb.gen(w, k).top(&tb.c, start) { Ok(v) => v, Err(_) => continue };
            mon.eval(&key(&ta.id, &v, start), nontrivial(&v));
            mon.sample(|| format!("{} / {} {v:?}", ta.id, tb.id));
            let (ea, eb) = (ta.d.encode(&v, start), tb.d.encode(&v, start));
            if format!("{ea:?}") != format!("{eb:?}") { mon.bad(ta.sig("encodings differ"), format!("{v:?}\n {} {ea:?}\n {} {eb:?}", ta.id, tb.id)); }
            if ta.d.bitsize(&v, start) != tb.d.bitsize(&v, start) { mon.bad(ta.sig("sizes differ"), format!("{v:?}")); }
            if let Out::Ok(e) = &eb {
                let p = v.obj().params.clone();
                for j in 0..4 {
                    let x = if j == 0 { e.bytes.clone() } else { mutate(&mut r, &e.bytes, &[]) };
                    let st = if j == 0 { start } else { 0 };
                    if matches!(codec::decode(tb.m, &tb.c, &p, &x, st), Err(DErr::Budget | DErr::Undefined(_))) { continue; }
                    let (da, db) = (ta.d.decode(&p, &x, st), tb.d.decode(&p, &x, st));
                    mon.stat("decoded by both", 1);
                    let eq = match (&da, &db) { (Out::Ok(a), Out::Ok(b)) => a.bits == b.bits && diff(&a.v, &b.v, "").is_none(), (Out::Err(_), Out::Err(_)) | (Out::Panic(_), Out::Panic(_)) => true, _ => false };
                    if !eq { mon.bad(ta.sig("decodings differ"), format!("{}: {da:?} / {db:?}", hex(&x))); }
                }
            }
        }
    }
    if mon.stats.get("pairs").is_none() { mon.stat("pairs", 0); }
}

/// One line per type with a hash over everything observable; compared between builds.
fn digest(w: &World, mon: &mut Mon) {
    let mut h: BTreeMap<String, u64> = BTreeMap::new();
    let mut add = |id: String, s: String| { let e = h.entry(id).or_insert(0xcbf2); *e = e.rotate_left(5) ^ hash64(s.as_bytes()); };
    fn oc<T: std::fmt::Debug>(o: &Out<T>) -> String { match o { Out::Ok(d) => format!("{d:?}"), Out::Err(_) => "E".into(), Out::Panic(_) => "P".into(), _ => "N".into() } }
    let mut k = 0u64;
    values(w, mon, STARTS, |mon, t, v, start, _| {
        add(t.sig("values"), oc(&t.d.encode(v, start)) + &oc(&t.d.bitsize(v, start)));
        k += 1;
        if k % 4 == 0 { mon.stat("leak checks", 1); let n = leaked(|| t.d.encode(v, start)); if n > 0 { mon.bad(t.sig("encoding leaks"), format!("{n} bytes stay allocated after encoding {v:?}")); } }
    });
    hostile(w, mon, 5, |mon, t, p, x, d| {
        if matches!(d, Err(DErr::Undefined(_))) { return; }
        let o = t.d.decode(p, x, 0);
        add(t.sig("hostile inputs"), oc(&o));
        k += 1;
        if k % 4 == 0 && !matches!(o, Out::Panic(_)) { mon.stat("leak checks", 1); let n = leaked(|| t.d.decode(p, x, 0)); if n > 0 { mon.bad(t.sig("decoding leaks"), format!("{n} bytes stay allocated after decoding {}", hex(x))); } }
    });
    each_list(w, mon, |_, t, vs, packed, start| { add(t.sig("lists"), oc(&t.d.list_encode(vs, packed, start))); });
    for t in w.types() {
        let mut r = Rng::new(t.seed(w, 0xbad));
        for k in 0..w.n.min(300) {
            let mut g = t.gen(w, 3000 + k);
            let mut v = match g.top(&t.c, 0) { Ok(v) => v, Err(_) => continue };
            if spoil(t.m, &t.c, &mut v, &mut r, 0).is_none() { break; }
            if t.d.reflect(&v).is_none() { continue; }
            mon.eval(&key(&t.id, &v, 3), true);
            // a checked build may panic where an unchecked one returns an error; neither may yield bytes the other does not
            let o = t.d.encode(&v, 0);
            // (expressions over impossible values may have no value at all: a panic of the generated expression is not compared)
            let d = match &o { Out::Panic(p) if !p.contains("crates/zserio/") => "undefined".into(), o => o.ok().map(|e| format!("{:016x}", hash64(format!("{e:?}").as_bytes()))).unwrap_or_else(|| "refused".into()) };
            println!("{{\"digest\":{},\"value\":{}}}", esc(&t.sig(&format!("spoiled value {k}"))), esc(&d));
        }
    }
    for (k, v) in h { println!("{{\"digest\":{},\"value\":\"{v:016x}\"}}", esc(&k)); }
}
/// Input that nests n levels deep, decoded with an ordinary stack (the caller watches whether this process survives).
fn deep(w: &World, mon: &mut Mon) {
    let n = w.n as usize;
    for (id, unit, end) in [("deep.Tree", [7u8, 1], [8u8, 0]), ("deep.Shape", [1, 1], [0, 9])] {
        let Some(t) = w.all_types().into_iter().find(|t| t.id == id) else { panic!("no type {id}") };
        let mut b: Vec<u8> = unit.repeat(n);
        b.extend(end);
        mon.eval(&key(id, &V::Int(n as i128), 0), true);
        let d = t.d;
        let (o, left) = std::thread::scope(|sc| {
            let b = &b;
            std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, move || { let o = d.accepts(b); (o.kind(), o.is_ok()) }).unwrap().join().unwrap()
        });
        mon.stat("levels", n as u64);
        mon.sample(|| format!("{id} nested {n} deep: {o}"));
        if !left { mon.bad(format!("deep/{id}|nested input not decoded"), format!("{n} levels: {o}")); }
    }
}
/// Values with the bytes the real code produced, for the reference implementation.
fn vectors(w: &World, mon: &mut Mon) {
    let mut done = HashSet::new();
    for (root, m) in &w.models {
        let _ = root;
        for c in m.all_comps() { println!("{{\"schema\":{},\"type\":{}}}", esc(root), zmodel::json::comp(&c)); }
    }
    values(w, mon, &[0], |mon, t, v, _, _| {
        if t.c.i().params.iter().any(|p| matches!(p.1, Ty::Comp(_) | Ty::Enum(_) | Ty::Mask(_))) { return; }
        let id = zmodel::json::comp_id(&t.c);
        if id != t.id && done.contains(&format!("{}/{id}", t.schema)) { return; }
        done.insert(format!("{}/{id}", t.schema));
        match t.d.encode(v, 0) {
            Out::Ok(e) => { mon.stat("vectors", 1); println!("{{\"schema\":{},\"t\":{},\"v\":{},\"b\":\"{}\"}}", esc(t.schema), esc(&id), zmodel::json::value(v), hex(&e.bytes)); }
            o => mon.bad(t.sig(&format!("encoding fails: {}", class(&o))), format!("{v:?} {}", o.kind())),
        }
    });
}
