fn run_mode(mode: &str, seed: u64, n: u64, mon: &mut Mon) {
    match mode {
        "scalars" => scalars(seed, n, mon), "streams" => streams(seed, n, mon), "wire" => wire(seed, n, mon), "halves" => halves(seed, n, mon), "small" => small(seed, n, mon),
        "refuse" => refuse(seed, n, mon), "hostile" => hostile(seed, n, mon), "long" => long(seed, n, mon), "memory" => memory(seed, n, mon),
        "arrays" => arrays(seed, n, mon), "packed" => packed(seed, n, mon), "sizes" => sizes(seed, n, mon),
        "numbits" => numbits_mode(seed, n, mon), "extern" => externs(seed, n, mon), "align" => align_mode(seed, n, mon),
        "threads" => threads(seed, n, mon), "digest" => digest(seed, n, mon), "ub" => ub(seed, n, mon),
        m => panic!("mode {m}"),
    }
}
fn starts(k: u64, r: &mut Rng) -> u64 { if k % 3 == 0 { r.below(200) } else { k % 17 } }
fn noise(r: &mut Rng, n: u64) -> Vec<bool> { (0..n).map(|_| r.chance(1, 2)).collect() }
fn bits_of(b: &[u8], from: u64, n: u64) -> Option<Vec<bool>> { (from..from + n).map(|i| b.get((i / 8) as usize).map(|x| x & (0x80 >> (i % 8)) != 0)).collect() }
fn ki(name: &str, v: &V, x: u64) -> Vec<u8> { format!("{name}{v:?}{x}").into_bytes() }
fn each_value(kinds: &[Kind], seed: u64, n: u64, mon: &mut Mon, mut f: impl FnMut(&mut Mon, &Kind, &V, u64, &mut Rng)) {
    for k in kinds {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()));
        let mut e = edges(&k.ty);
        let huge = huge_edges(&k.ty);
        mon.stat("values of more than 4000 bytes", huge.len() as u64);
        e.extend(huge);
        let total = e.len() as u64 + n;
        for i in 0..total {
            let v = if (i as usize) < e.len() { e[i as usize].clone() } else { any(&k.ty, &mut r) };
            let start = starts(i, &mut r);
            mon.eval(&ki(&k.name, &v, start), start % 8 != 0 || v != V::Int(0));
            f(mon, k, &v, start, &mut r);
        }
        mon.stat("types", 1);
    }
}

// ---- P01: neighbours, position and value -------------------------------------------------------
fn scalars(seed: u64, n: u64, mon: &mut Mon) {
    let ks = kinds();
    each_value(&ks, seed, n, mon, |mon, k, v, start, r| {
        let (pre, post) = (noise(r, start), noise(r, 1 + start % 71));
        let want = stored(&k.ty, v);
        let o = run(|| {
            let mut w = W::new();
            for b in &pre { w.write_bool(*b)?; }
            (k.write)(&mut w, v).expect("value of the type")?;
            let end = w.bit_count();
            for b in &post { w.write_bool(*b)?; }
            w.close()?;
            Ok((w.data().clone(), end))
        });
        let (bytes, end) = match o { Out::Ok(x) => x, o => { mon.bad(format!("{}|write fails: {}", k.name, class(&o)), format!("{v:?} at bit {start}: {}", o.kind())); return; } };
        mon.sample(|| format!("{} {v:?} between {start} and {} random bits: {}", k.name, post.len(), hex(&bytes)));
        if bits_of(&bytes, 0, start).as_ref() != Some(&pre) { mon.bad(format!("{}|earlier data changed", k.name), format!("{v:?} at bit {start}: {}", hex(&bytes))); }
        if bits_of(&bytes, end, post.len() as u64).as_ref() != Some(&post) { mon.bad(format!("{}|later data changed", k.name), format!("{v:?} at bit {start}: {}", hex(&bytes))); }
        let o = run(|| {
            let mut r = R::new(&bytes);
            r.skip(start)?;
            let x = (k.read)(&mut r)?;
            let at = r.position();
            let mut rest = vec![];
            for _ in 0..post.len() { rest.push(r.read_bool()?); }
            Ok((x, at, rest))
        });
        match o {
            Out::Ok((x, at, rest)) => {
                if !same_value(&k.ty, &x, &want) { mon.bad(format!("{}|value changed", k.name), format!("{v:?} at bit {start} reads back as {x:?}, bytes {}", hex(&bytes))); }
                else if at != end || rest != post { mon.bad(format!("{}|position differs", k.name), format!("{v:?} at bit {start}: written up to bit {end}, read up to {at}")); }
            }
            o => mon.bad(format!("{}|read fails: {}", k.name, class(&o)), format!("{v:?} at bit {start}, bytes {}: {}", hex(&bytes), o.kind())),
        }
    });
}
/// Many values of many types in one stream.
fn streams(seed: u64, n: u64, mon: &mut Mon) {
    let ks = kinds();
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(i));
        let items: Vec<(usize, V)> = (0..r.range(2, 40)).map(|_| { let j = r.below(ks.len() as u64) as usize; (j, any(&ks[j].ty, &mut r)) }).collect();
        mon.eval(format!("{items:?}").as_bytes(), true);
        let o = run(|| { let mut w = W::new(); let mut ends = vec![]; for (j, v) in &items { (ks[*j].write)(&mut w, v).unwrap()?; ends.push(w.bit_count()); } w.close()?; Ok((w.data().clone(), ends)) });
        let (b, ends) = match o { Out::Ok(x) => x, o => { mon.bad(format!("stream|write fails: {}", class(&o)), format!("{items:?}: {}", o.kind())); continue; } };
        if b.len() as u64 != ends.last().unwrap().div_ceil(8) { mon.bad("stream|length".into(), format!("{} bytes for {} bits", b.len(), ends.last().unwrap())); }
        mon.sample(|| format!("{} values: {}", items.len(), hex(&b)));
        let mut rd = R::new(&b);
        for (q, (j, v)) in items.iter().enumerate() {
            let k = &ks[*j];
            match run(|| (k.read)(&mut rd)) {
                Out::Ok(x) => if !same_value(&k.ty, &x, &stored(&k.ty, v)) || rd.position() != ends[q] { mon.bad(format!("stream: {}|value or position changed", k.name), format!("item {q} of the stream: {v:?} reads as {x:?}, at bit {} instead of {}", rd.position(), ends[q])); break; },
                o => { mon.bad(format!("stream: {}|read fails: {}", k.name, class(&o)), format!("item {q}: {v:?}: {}", o.kind())); break; }
            }
        }
    }
}

// ---- P02: against the specification ----------------------------------------------------------
fn check_wire(mon: &mut Mon, k: &Kind, v: &V, start: u64) {
    let mut s = BW::default();
    for _ in 0..start { s.bit(false); }
    assert!(spec_write(&k.ty, v, &mut s), "{} {v:?}", k.name);
    let o = run(|| { let mut w = writer_at(start); (k.write)(&mut w, v).expect("value of the type")?; let n = w.bit_count(); w.close()?; Ok((w.data().clone(), n)) });
    match o {
        Out::Ok((b, n)) => {
            // the payload of a NaN is not specified for float16
            let nan = k.ty == Ty16 && matches!(v, V::F32(x) if f32::from_bits(*x).is_nan());
            if nan {
                match run(|| { let mut r = reader_at(&b, start); (k.read)(&mut r) }) { Out::Ok(V::F32(x)) if f32::from_bits(x).is_nan() => {} o => mon.bad(format!("{}|NaN lost", k.name), format!("{v:?} -> {} -> {}", hex(&b), o.kind())) }
            } else if b != s.buf || n != s.len { mon.bad(format!("{}|bits differ", k.name), format!("{v:?} at bit {start}: expected {} ({} bits), got {} ({n} bits)", hex(&s.buf), s.len, hex(&b))); }
        }
        o => mon.bad(format!("{}|write fails: {}", k.name, class(&o)), format!("{v:?}: {}", o.kind())),
    }
    if let Some(f) = &k.size {
        match run(|| f(v).expect("value of the type")) { Out::Ok(n) => if n != s.len - start { mon.bad(format!("{}|size function", k.name), format!("{v:?}: {n} instead of {} bits", s.len - start)); }, o => mon.bad(format!("{}|size function: {}", k.name, class(&o)), format!("{v:?}: {}", o.kind())) }
    }
    // what the specification wrote must be read as the value
    match run(|| { let mut r = reader_at(&s.buf, start); let x = (k.read)(&mut r)?; Ok((x, r.position())) }) {
        Out::Ok((x, at)) => if !same_value(&k.ty, &x, &stored(&k.ty, v)) || at != s.len { mon.bad(format!("{}|reads differently", k.name), format!("{} is {v:?}, read as {x:?} up to bit {at} of {}", hex(&s.buf), s.len)); },
        o => mon.bad(format!("{}|does not read: {}", k.name, class(&o)), format!("{} is {v:?}: {}", hex(&s.buf), o.kind())),
    }
}
#[allow(non_upper_case_globals)]
const Ty16: T16 = T16;
struct T16;
impl PartialEq<T16> for Ty { fn eq(&self, _: &T16) -> bool { matches!(self, Ty::F16) } }
fn wire(seed: u64, n: u64, mon: &mut Mon) {
    let ks = kinds();
    each_value(&ks, seed, n, mon, |mon, k, v, start, _| { mon.sample(|| { let mut s = BW::default(); spec_write(&k.ty, v, &mut s); format!("{} {v:?} -> {} ({} bits)", k.name, hex(&s.buf), s.len) }); check_wire(mon, k, v, start % 9); });
}
/// All 65536 half precision values, and the neighbourhood of every rounding boundary.
fn halves(_seed: u64, n: u64, mon: &mut Mon) {
    let ks = kinds();
    let k = ks.iter().find(|k| k.name == "float16").unwrap();
    let step = if n >= 1000 { 1 } else { 3 };
    for h in 0..=0xffffu32 {
        let h = h as u16;
        let want = f16_to_f32(h);
        mon.eval(&h.to_be_bytes(), true);
        match run(|| { let b = h.to_be_bytes(); let mut r = R::new(&b); (k.read)(&mut r) }) {
            Out::Ok(V::F32(x)) => if !(want.is_nan() && f32::from_bits(x).is_nan()) && x != want.to_bits() { mon.bad("float16|decoded value".into(), format!("{h:04x} reads as {} instead of {want}", f32::from_bits(x))); },
            o => mon.bad(format!("float16|read fails: {}", class(&o)), format!("{h:04x}: {}", o.kind())),
        }
        if want.is_nan() || h as u32 % step != 0 { continue; }
        check_wire(mon, k, &V::F32(want.to_bits()), 0);
        let a = (h & 0x7fff) as u32;
        if a < 0x7c00 {
            let next = if a == 0x7bff { 65536.0 } else { f16_to_f32((a + 1) as u16) as f64 };
            let mid = ((f16_to_f32(a as u16) as f64 + next) / 2.0) as f32;
            for d in [-1i32, 0, 1] { let b = (mid.to_bits() as i32 + d) as u32 | ((h as u32 & 0x8000) << 16); mon.eval(&b.to_be_bytes(), true); check_wire(mon, k, &V::F32(b), 0); }
        }
    }
    mon.stat("half precision patterns", 65536);
}
/// Every value of every type with at most 16 bits (and of the 16 bit variable types).
fn small(_seed: u64, n: u64, mon: &mut Mon) {
    for k in kinds() {
        if !k.ty.is_int() { continue; }
        let (lo, hi) = limits(&k.ty);
        if hi - lo > (if n >= 1000 { 1 << 18 } else { 1 << 16 }) { continue; }
        for i in lo..=hi { mon.eval(&ki(&k.name, &V::Int(i), 0), true); check_wire(mon, &k, &V::Int(i), (i & 7) as u64); }
        mon.stat("types enumerated completely", 1);
    }
}

// ---- P11 ---------------------------------------------------------------------------------------
fn refuse(seed: u64, n: u64, mon: &mut Mon) {
    for k in kinds() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()));
        if !k.ty.is_int() { continue; }
        let (lo, hi) = limits(&k.ty);
        let mut vs: Vec<i128> = vec![];
        for b in 0..65 { for d in -1..=1 { vs.push((1i128 << b) + d); vs.push(-(1i128 << b) + d); } }
        vs.extend([lo - 1, lo - 2, hi + 1, hi + 2, hi * 2 + 1, lo * 2, k.holds.0, k.holds.1]);
        for _ in 0..n { vs.push(r.int(k.holds.0, k.holds.1)); }
        for v in vs {
            if v < k.holds.0 || v > k.holds.1 || (v >= lo && v <= hi) { continue; }
            let start = r.below(9);
            mon.eval(&ki(&k.name, &V::Int(v), start), true);
            let v = V::Int(v);
            let o = run(|| { let mut w = writer_at(start); (k.write)(&mut w, &v).unwrap()?; w.close()?; Ok(w.data().clone()) });
            mon.sample(|| format!("{} {v:?}: {}", k.name, o.kind()));
            match &o { Out::Ok(b) => mon.bad(format!("{}|unrepresentable value accepted", k.name), format!("{v:?} written as {} which reads as {}", hex(b), run(|| { let mut q = reader_at(b, start); (k.read)(&mut q) }).kind())), _ => mon.stat(if o.is_err() { "refused with an error" } else { "refused with a panic" }, 1) }
        }
    }
    // arrays: wrong fixed length, elements that do not fit, plain and packed
    for k in arr_kinds() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 77);
        for i in 0..n.max(8) {
            let f = FORMS[(i % 8) as usize];
            let mut vs = any_array(&k.ty, &mut r, 6);
            let mut declared = vs.len();
            if f.fixed && (r.chance(1, 2) || !k.ty.is_int()) { declared = if r.chance(1, 2) || declared == 0 { declared + 1 + r.below(3) as usize } else { declared - 1 }; }
            else if k.ty.is_int() && !vs.is_empty() { let j = r.below(vs.len() as u64) as usize; let (lo, hi) = limits(&k.ty); vs[j] = V::Int(if r.chance(1, 2) { hi + 1 + r.below(3) as i128 } else { lo - 1 - r.below(3) as i128 }); }
            else { continue; }
            let o = run(|| { let mut w = W::new(); match k.a.write(&mut w, &vs, f, declared) { None => Ok(None), Some(x) => { x?; w.close()?; Ok(Some(w.data().clone())) } } });
            match o {
                Out::Ok(None) => {} // the Rust type cannot hold it
                Out::Ok(Some(b)) => {
                    // a packed element that does not fit its declared width may still be carried by its delta
                    let back = run(|| { let mut q = R::new(&b); k.a.read(&mut q, f, declared, 0) });
                    mon.eval(&ki(&k.name, &V::Arr(vs.clone()), i % 8), true);
                    if back.ok() != Some(&V::Arr(vs.clone())) { mon.bad(format!("array {}|unrepresentable value accepted", k.name), format!("{f:?} declared {declared}: {vs:?} written as {} which reads as {}", hex(&b), back.kind())); }
                }
                _ => { mon.eval(&ki(&k.name, &V::Arr(vs.clone()), i % 8), true); mon.stat("arrays refused", 1); }
            }
        }
    }
    // blobs whose length field disagrees with the payload
    let mut r = Rng::new(seed ^ 0xb10b);
    for i in 0..n.max(50) {
        let len = r.below(12) as usize;
        let data: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        let claim = match r.below(4) { 0 => r.below(200) as u32, 1 => u32::MAX - r.below(10) as u32, _ => (len as u32 * 8).wrapping_add(r.below(40) as u32).wrapping_sub(20) };
        mon.eval(&[&data[..], &claim.to_be_bytes(), &[i as u8 & 1]].concat(), true);
        if claim.div_ceil(8) as usize != len {
            let e = ExternType { bit_size: claim, data_blob: data.clone() };
            if let Out::Ok(b) = run(|| { let mut w = W::new(); write_extern_type(&mut w, &e)?; w.close()?; Ok(w.data().clone()) }) { mon.bad("extern|size disagrees with the payload".into(), format!("{claim} bits, {len} bytes -> {}", hex(&b))); }
        }
        if claim as usize != len {
            let e = BytesType { byte_size: claim, data_blob: data.clone() };
            if let Out::Ok(b) = run(|| { let mut w = W::new(); write_bytes_type(&mut w, &e)?; w.close()?; Ok(w.data().clone()) }) { mon.bad("bytes|size disagrees with the payload".into(), format!("{claim} bytes, {len} bytes -> {}", hex(&b))); }
        }
    }
}

// ---- P03, P20: arbitrary bytes -------------------------------------------------------------------
fn soup(r: &mut Rng, valid: &[u8]) -> Vec<u8> {
    let mut b: Vec<u8> = match r.below(6) {
        0 => (0..r.below(24)).map(|_| r.next() as u8).collect(),
        1 => (0..r.below(14)).map(|_| *r.pick(&[0xffu8, 0xff, 0x7f, 0x80, 0, 1])).collect(),
        _ => valid.to_vec(),
    };
    match r.below(6) {
        0 => { let n = r.below(b.len() as u64 + 1) as usize; b.truncate(n); }
        1 if !b.is_empty() => { let i = r.below(b.len() as u64 * 8); b[(i / 8) as usize] ^= 0x80 >> (i % 8); }
        2 if !b.is_empty() => { let i = r.below(b.len() as u64) as usize; b[i] = r.next() as u8; }
        3 if !b.is_empty() => { let i = r.below(b.len() as u64) as usize; for x in &mut b[i..] { *x = 0xff; } }
        _ => {}
    }
    b
}
fn verdict(mon: &mut Mon, name: &str, what: &str, want: Result<(V, u64), DErr>, got: Out<(V, u64)>, same: impl Fn(&V, &V) -> bool) {
    match (want, got) {
        (_, Out::Panic(p)) => mon.bad(format!("{name}|panic {}", p.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("")), format!("{what}: {p}")),
        (Ok((v, at)), Out::Ok((x, end))) => if !same(&v, &x) { mon.bad(format!("{name}|other value"), format!("{what}: {v:?} read as {x:?}")) } else if at != end { mon.bad(format!("{name}|other end"), format!("{what}: {v:?} ends at bit {at}, reader is at {end}")) } else { mon.stat("accepted", 1) },
        (Ok((v, _)), o) => mon.bad(format!("{name}|valid data refused"), format!("{what} is {v:?}: {}", o.kind())),
        (Err(DErr::Undefined(_)), _) => mon.stat("unspecified delta", 1),
        (Err(e), Out::Ok((x, _))) => mon.bad(format!("{name}|malformed data accepted"), format!("{what} ({e:?}) read as {x:?}")),
        (Err(_), _) => mon.stat("rejected", 1),
    }
}
fn hostile(seed: u64, n: u64, mon: &mut Mon) {
    for k in kinds() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 3);
        for _ in 0..n {
            let start = r.below(12);
            let v = any(&k.ty, &mut r);
            let mut s = BW::default();
            for _ in 0..start { s.bit(r.chance(1, 2)); }
            spec_write(&k.ty, &v, &mut s);
            let b = soup(&mut r, &s.buf);
            if start > b.len() as u64 * 8 { continue; }
            mon.eval(&[&b[..], k.name.as_bytes(), &[start as u8]].concat(), b != s.buf);
            let mut br = BR::new(&b);
            br.pos = start;
            let want = spec_read(&k.ty, &mut br).map(|v| (v, br.pos));
            let what = format!("{} from bit {start} of {}", k.name, hex(&b));
            begin_op(format!("{}\n{what}", k.name));
            let got = run(|| { let mut q = reader_at(&b, start); let x = (k.read)(&mut q)?; Ok((x, q.position())) });
            end_op();
            mon.sample(|| format!("{what}: {}", got.kind()));
            verdict(mon, &k.name, &what, want, got, |a, b| same_value(&k.ty, a, b));
        }
    }
    for k in arr_kinds() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 4);
        for i in 0..n {
            let f = FORMS[(i % 8) as usize];
            let start = r.below(12);
            let vs = any_array(&k.ty, &mut r, 5);
            let mut s = BW::default();
            for _ in 0..start { s.bit(false); }
            spec_array(&k.ty, &vs, f, &mut s);
            let b = soup(&mut r, &s.buf);
            if start > b.len() as u64 * 8 { continue; }
            let declared = if r.chance(1, 4) { r.below(40) as usize } else { vs.len() };
            let mut br = BR::new(&b);
            br.pos = start;
            let want = spec_read_array(&k.ty, f, declared, &mut br).map(|v| (V::Arr(v), br.pos));
            if want == Err(DErr::Budget) { mon.stat("skipped: too large", 1); continue; }
            mon.eval(&[&b[..], k.name.as_bytes(), &[start as u8, i as u8 % 8]].concat(), b != s.buf);
            let what = format!("{} {f:?} declared {declared} from bit {start} of {}", k.name, hex(&b));
            begin_op(format!("array {}\n{what}", k.name));
            let each = i % 2 == 1;
            let got = run(|| { let mut q = reader_at(&b, start); let x = if each { k.a.read_each(&mut q, f, declared)? } else { k.a.read(&mut q, f, declared, (i % 5) as usize)? }; Ok((x, q.position())) });
            end_op();
            let same = |a: &V, b: &V| match (a, b) { (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_value(&k.ty, a, b)), _ => false };
            verdict(mon, &format!("array {}", k.name), &what, want, got, same);
        }
    }
}

/// Long texts and long arrays, mostly damaged in a single place.
fn long(seed: u64, n: u64, mon: &mut Mon) {
    let ks = kinds();
    let str_kind = ks.iter().find(|k| k.name == "string").unwrap();
    let mut r = Rng::new(seed ^ 0x10a9);
    for i in 0..n {
        let near = *r.pick(&[16u64, 32, 64, 127, 128, 129, 255, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 100_000]);
        let near = if near > 20_000 && i % 8 != 0 { 300 } else { near };
        let len = (near + r.below(7)).saturating_sub(3) as usize;
        let pieces = ["a", "\u{7f}", "é", "\u{800}", "日", "\u{ffff}", "🌍", "\u{10ffff}", "\0"];
        let ascii = r.chance(1, 3);
        let mut text = String::with_capacity(len + 4);
        while text.len() < len { text.push_str(if ascii || r.chance(3, 4) { "x" } else { *r.pick(&pieces) }); }
        let mut b = text.into_bytes();
        let damage = r.below(6);
        let at = match r.below(4) { 0 => 0, 1 => b.len() - 1, 2 => (near as usize).min(b.len() - 1), _ => r.below(b.len() as u64) as usize };
        match damage { 0 => {} 1 => b[at] = 0x80 | r.next() as u8, 2 => b[at] = *r.pick(&[0xc0u8, 0xed, 0xf4, 0xff, 0xf8]), 3 => b[at] ^= 1 << r.below(8), 4 => { b.truncate(at.max(1)); } _ => b[at] = 0xe3 }
        let start = r.below(10);
        let mut s = BW::default();
        for _ in 0..start { s.bit(true); }
        let announced = if damage == 5 { b.len() as u64 + r.below(3) - 1 } else { b.len() as u64 };
        spec_write(&Ty::Var(VarKind::Size), &V::Int(announced as i128), &mut s);
        for x in &b { for j in 0..8 { s.bit(x & (0x80 >> j) != 0); } }
        let mut buf = s.buf;
        if r.chance(1, 8) { let l = buf.len(); buf.truncate(l - 1); }
        let mut br = BR::new(&buf);
        br.pos = start;
        let want = spec_read(&Ty::Str, &mut br).map(|v| (v, br.pos));
        mon.stat(if want.is_ok() { "long texts: valid" } else { "long texts: malformed" }, 1);
        mon.eval(&buf, damage != 0);
        let what = format!("text of {} bytes, damage {damage} at byte {at}, announced as {announced}, from bit {start}", b.len());
        begin_op(format!("string\n{what}"));
        let got = run(|| { let mut q = reader_at(&buf, start); let x = (str_kind.read)(&mut q)?; Ok((x, q.position())) });
        end_op();
        verdict(mon, "long string", &what, want, got, |a, b| same_value(&Ty::Str, a, b));
    }
    let all = arr_kinds();
    let (sh, of) = shard();
    for (j, k) in all.iter().enumerate() {
        if j as u64 % of != sh { continue; }
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 9);
        for i in 0..n / 20 {
            let form = FORMS[r.below(8) as usize];
            let len = match r.below(8) { 0 if i % 4 == 0 => 65_535 + r.below(4), 1 => 16_382 + r.below(4), 2 => 4094 + r.below(4), 3 => 1022 + r.below(4), 4 => 254 + r.below(4), 5 => 126 + r.below(4), _ => 30 + r.below(100) };
            let shape = r.below(3) as usize;
            let vs = long_array(&k.ty, &mut r, len, shape);
            let start = r.below(10);
            let mut s = BW::default();
            for _ in 0..start { s.bit(false); }
            spec_array(&k.ty, &vs, form, &mut s);
            let mut b = s.buf;
            let mut declared = vs.len();
            let damage = r.below(6);
            match damage {
                0 => { let n = 1 + r.below(4) as usize; let l = b.len().saturating_sub(n); b.truncate(l); }
                1 => { let l = r.below(b.len() as u64 + 1) as usize; b.truncate(l); }
                2 if !b.is_empty() => { let p = r.below(b.len() as u64 * 8); b[(p / 8) as usize] ^= 0x80 >> (p % 8); }
                3 => declared = (declared as u64 + r.below(3) - 1) as usize,
                4 if !b.is_empty() => { let p = b.len() - 1 - r.below(8.min(b.len() as u64)) as usize; b[p] = r.next() as u8; }
                _ => {}
            }
            if start > b.len() as u64 * 8 { continue; }
            let mut br = BR::new(&b);
            br.pos = start;
            let want = spec_read_array(&k.ty, form, declared, &mut br).map(|v| (V::Arr(v), br.pos));
            if want == Err(DErr::Budget) { mon.stat("skipped: too large", 1); continue; }
            mon.stat(if want.is_ok() { "long arrays: valid" } else { "long arrays: malformed" }, 1);
            mon.eval(&[&hash64(&b).to_be_bytes()[..], k.name.as_bytes()].concat(), damage < 5);
            let what = format!("{} {form:?} of {len} elements, declared {declared}, damage {damage}, {} bytes from bit {start}", k.name, b.len());
            begin_op(format!("array {}\n{what}", k.name));
            let each = i % 2 == 1;
            let got = run(|| { let mut q = reader_at(&b, start); let x = if each { k.a.read_each(&mut q, form, declared)? } else { k.a.read(&mut q, form, declared, (i % 5) as usize)? }; Ok((x, q.position())) });
            end_op();
            let same = |a: &V, b: &V| match (a, b) { (V::Arr(x), V::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_value(&k.ty, a, b)), _ => false };
            verdict(mon, &format!("long array {}", k.name), &what, want, got, same);
        }
    }
}

// ---- P04 -----------------------------------------------------------------------------------------
fn memory(seed: u64, n: u64, mon: &mut Mon) {
    let saved = get_array_alloc_chunk();
    let ks = kinds();
    for k in ks.iter().filter(|k| matches!(k.ty, Ty::Str | Ty::Bytes | Ty::Ext)) {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 5);
        for _ in 0..n.max(20) {
            let claim = *r.pick(&[0x7fff_ffffu64, 0x7fff_fff8, 0x4000_0000, 1 << 24, 1 << 20, 1_000_000, 65536, 100_000]) - r.below(9);
            let supply = *r.pick(&[0u64, 1, 10, 100, 4096]);
            let mut s = BW::default();
            for x in var_bytes(VarKind::Size, claim as i128).unwrap() { s.bits(x as u128, 8); }
            for _ in 0..supply { s.bits(b'a' as u128, 8); }
            mon.eval(&[&s.buf[..], k.name.as_bytes()].concat(), true);
            let b = s.buf;
            let (o, peak, big) = measure(|| run(|| { let mut q = R::new(&b); (k.read)(&mut q).map(|_| ()) }));
            let most = 4 * b.len() as u64 + 4096;
            mon.sample(|| format!("{} claims {claim}, {} bytes follow: peak {peak} bytes, largest request {big}", k.name, supply));
            if peak as u64 > most || big > most { mon.bad(format!("{}|memory", k.name), format!("a length of {claim} with {} bytes of input reserves {peak} bytes (largest request {big})", b.len())); }
            if matches!(o, Out::Panic(_)) { mon.bad(format!("{}|panic", k.name), o.kind()); }
            if o.is_ok() && claim > supply * 8 { mon.bad(format!("{}|missing data accepted", k.name), format!("claim {claim} with {supply} bytes")); }
        }
    }
    for k in arr_kinds() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 6);
        for i in 0..n {
            let f = FORMS[(i % 2) as usize];
            let chunk = *r.pick(&[0usize, 1, 3, 10, 1000, 1000, 5000]);
            set_array_alloc_chunk(chunk);
            if get_array_alloc_chunk() != chunk { mon.bad("chunk|setting lost".into(), format!("{chunk}")); }
            let vs = any_array(&k.ty, &mut r, 12);
            let claim = *r.pick(&[0x7fff_ffffu64, 1 << 30, 1 << 24, 1_000_000, 200_000]) - r.below(9);
            let mut body = BW::default();
            spec_array(&k.ty, &vs, Form { fixed: true, ..f }, &mut body);
            // an all-equal packed column needs no data per element: the claim is then not backed by bytes
            let mut s = BW::default();
            for x in var_bytes(VarKind::Size, claim as i128).unwrap() { s.bits(x as u128, 8); }
            s.slice(&body.buf, body.len);
            let b = s.buf;
            let mut br = BR::new(&b);
            match spec_read_array(&k.ty, f, 0, &mut br) { Err(DErr::Eof | DErr::Invalid(_)) => {} _ => { mon.stat("skipped: elements without data", 1); continue; } }
            mon.eval(&[&b[..], k.name.as_bytes(), &[chunk as u8]].concat(), true);
            begin_op(format!("array {}\n{}", k.name, hex(&b)));
            let (o, peak, _) = measure(|| run(|| { let mut q = R::new(&b); k.a.read_only(&mut q, f, 0).map(|_| ()) }));
            end_op();
            // doubling growth over the elements the data supplies, plus the chunk, plus the context
            let held = b.len() as u64 * 8 * 2 + 64;
            let most = (chunk as u64 + 2 * held.min(2 * (vs.len() as u64 * 8 + b.len() as u64 * 8) + 64)) * k.elem as u64 + 16 * b.len() as u64 + 4096;
            mon.sample(|| format!("{} claims {claim} elements, chunk {chunk}, {} bytes: peak {peak} bytes", k.name, b.len()));
            if peak as u64 > most { mon.bad(format!("array {}|memory", k.name), format!("{f:?}, chunk {chunk}: a length of {claim} with {} bytes of input reserves {peak} bytes", b.len())); }
            if matches!(o, Out::Panic(_)) { mon.bad(format!("array {}|panic", k.name), format!("{f:?} {}: {}", hex(&b), o.kind())); }
            if o.is_ok() { mon.bad(format!("array {}|missing data accepted", k.name), format!("{f:?} {}", hex(&b))); }
        }
        // with nothing behind the length, the reservation is the chunk and nothing more
        for chunk in [0usize, 1, 2, 7, 16, 50, 100, 999, 3000] {
            for f in &FORMS[..2] {
                set_array_alloc_chunk(chunk);
                let claim = *r.pick(&[0x7fff_ffffu64, 1 << 24, 1_000_000, 100_000]) - r.below(9);
                let b = var_bytes(VarKind::Size, claim as i128).unwrap();
                mon.eval(&[&b[..], k.name.as_bytes(), &chunk.to_be_bytes(), &[f.packed as u8]].concat(), true);
                let (o, peak, big) = measure(|| run(|| { let mut q = R::new(&b); k.a.read_only(&mut q, *f, 0).map(|_| ()) }));
                let most = chunk.max(8) * k.elem + 512;
                if peak.max(big as i64) as u64 > most as u64 { mon.bad(format!("array {}|more than the chunk", k.name), format!("{f:?}, chunk {chunk}: a length of {claim} without any element reserves {peak} bytes, {} bytes per element", k.elem)); }
                if o.is_ok() { mon.bad(format!("array {}|missing data accepted", k.name), format!("{f:?} {}", hex(&b))); }
                mon.stat("lengths without data", 1);
            }
        }
        // the setting changes no result, not even at its extremes
        for i in 0..n.min(12) {
            let f = FORMS[(i % 8) as usize];
            let vs = any_array(&k.ty, &mut r, 12);
            let mut s = BW::default();
            spec_array(&k.ty, &vs, f, &mut s);
            let want: Vec<V> = vs.iter().map(|v| stored(&k.ty, v)).collect();
            for chunk in [0, 1, 2, 1000, usize::MAX] {
                set_array_alloc_chunk(chunk);
                mon.eval(&[&s.buf[..], k.name.as_bytes(), &chunk.to_be_bytes()].concat(), true);
                match run(|| { let mut q = R::new(&s.buf); k.a.read(&mut q, f, vs.len(), 0) }) {
                    Out::Ok(V::Arr(x)) if x.len() == want.len() && x.iter().zip(&want).all(|(a, b)| same_value(&k.ty, a, b)) => {}
                    o => mon.bad(format!("array {}|chunk changes the result", k.name), format!("{f:?}, chunk {chunk}: {vs:?}: {}", match o { Out::Ok(x) => format!("{x:?}"), o => o.kind() })),
                }
            }
        }
    }
    set_array_alloc_chunk(saved);
}

// ---- P05, P06, P07 ---------------------------------------------------------------------------
fn each_array(seed: u64, n: u64, mon: &mut Mon, mut f: impl FnMut(&mut Mon, &ArrKind, &[V], Form, u64)) {
    for k in arr_kinds() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 7);
        for i in 0..n {
            let form = FORMS[(i % 8) as usize];
            let vs = if i < 8 { edges(&k.ty).into_iter().filter(|v| !matches!(v, V::Str(s) if s.len() > 300) && !matches!(v, V::Blob(s) if s.len() > 300) && !matches!(v, V::Ext(s, _) if s.len() > 300)).collect() } else { any_array(&k.ty, &mut r, 12) };
            let start = starts(i, &mut r) % 40;
            mon.eval(&ki(&k.name, &V::Arr(vs.clone()), start * 8 + i % 8), !vs.is_empty());
            f(mon, &k, &vs, form, start);
        }
        mon.stat("element types", 1);
    }
    for (j, k) in arr_kinds().iter().filter(|k| LONG.contains(&k.name.as_str())).enumerate() {
        let mut r = Rng::new(seed ^ hash64(k.name.as_bytes()) ^ 8);
        for (i, len) in [127u64, 128, 255, 256, 1000, 1024, 4097, 16383, 16384, 32768, 65535, 65536, 65537, 100_001, 131_073].into_iter().enumerate() {
            if n < 500 && len > 70_000 { continue; }
            let form = FORMS[(i + j + seed as usize) % 8];
            let vs = long_array(&k.ty, &mut r, len, i % 3);
            mon.eval(&[k.name.as_bytes(), &len.to_be_bytes(), &[form.packed as u8, form.fixed as u8, form.aligned as u8]].concat(), true);
            mon.stat("long arrays", 1);
            f(mon, k, &vs, form, starts(i as u64, &mut r) % 40);
        }
    }
}
const LONG: [&str; 9] = ["u8:8", "u16:9", "u32:32", "i64:64", "i32:17", "VarUintArrayTrait", "bool", "string", "bytes"];
fn long_array(ty: &Ty, r: &mut Rng, len: u64, shape: usize) -> Vec<V> {
    if !ty.is_int() {
        let pool: Vec<V> = (0..40).map(|_| any(ty, r)).filter(|v| match v { V::Str(s) => s.len() < 20, V::Blob(b) => b.len() < 20, _ => true }).collect();
        return (0..len).map(|_| pool[r.below(pool.len() as u64) as usize].clone()).collect();
    }
    let (lo, hi) = limits(ty);
    let mut x = r.int(lo, hi);
    (0..len).map(|_| { match shape { 0 => x = (x + r.below(3) as i128 - 1).clamp(lo, hi), 1 => {}, _ => x = r.int(lo, hi) }; V::Int(x) }).collect()
}
fn real_write(k: &ArrKind, vs: &[V], f: Form, start: u64) -> Out<(Vec<u8>, u64)> {
    run(|| { let mut w = writer_at(start); k.a.write(&mut w, vs, f, vs.len()).expect("elements of the type")?; let n = w.bit_count(); w.close()?; Ok((w.data().clone(), n)) })
}
fn arrays(seed: u64, n: u64, mon: &mut Mon) {
    each_array(seed, n, mon, |mon, k, vs, f, start| {
        let (b, end) = match real_write(k, vs, f, start) { Out::Ok(x) => x, o => { mon.bad(format!("array {}|write fails: {}", k.name, class(&o)), format!("{f:?} at bit {start}: {vs:?}: {}", o.kind())); return; } };
        mon.stat(if f.packed { "packed" } else { "plain" }, 1); mon.stat(if f.fixed { "fixed length" } else { "with length" }, 1); mon.stat(if f.aligned { "aligned elements" } else { "unaligned" }, 1);
        mon.sample(|| format!("{} {f:?} at bit {start}: {vs:?} -> {}", k.name, hex(&b)));
        for how in 0..2 {
            match run(|| { let mut q = reader_at(&b, start); let x = if how == 0 { k.a.read(&mut q, f, vs.len(), 3)? } else { k.a.read_each(&mut q, f, vs.len())? }; Ok((x, q.position())) }) {
                Out::Ok((V::Arr(x), at)) => {
                    if x.len() != vs.len() || !x.iter().zip(vs).all(|(a, b)| same_value(&k.ty, a, &stored(&k.ty, b))) { mon.bad(format!("array {}|elements changed", k.name), format!("{f:?} at bit {start}: {vs:?} reads as {x:?}; {}", hex(&b))); }
                    else if at != end { mon.bad(format!("array {}|position differs", k.name), format!("{f:?} at bit {start}: written up to {end}, read up to {at}: {vs:?}")); }
                }
                o => mon.bad(format!("array {}|read fails: {}", k.name, class(&o)), format!("{f:?} at bit {start}: {vs:?} as {}: {}", hex(&b), o.kind())),
            }
        }
    });
}
fn packed(seed: u64, n: u64, mon: &mut Mon) {
    each_array(seed, n, mon, |mon, k, vs, f, start| {
        let mut s = BW::default();
        for _ in 0..start { s.bit(false); }
        spec_array(&k.ty, vs, f, &mut s);
        if f.packed && k.ty.is_int() && vs.len() > 1 { let p = plan(&k.ty, vs); mon.stat(if p.packed { if p.bits == 0 { "packed without deltas" } else { "packed with deltas" } } else { "packing does not pay" }, 1); if p.packed { mon.stat(&format!("delta width class {}", p.bits / 8), 1); } }
        match real_write(k, vs, f, start) {
            Out::Ok((b, n)) => {
                let nan = matches!(k.ty, Ty::F16) && vs.iter().any(|v| matches!(v, V::F32(x) if f32::from_bits(*x).is_nan()));
                if n != s.len || (!nan && b != s.buf) { mon.bad(format!("array {}|bits differ", k.name), format!("{f:?} at bit {start}: {vs:?}\n expected {} ({} bits)\n got      {} ({n} bits)", hex(&s.buf), s.len, hex(&b))); }
                if f.packed && !f.aligned && k.ty.is_int() {
                    let mut plain = BW::default();
                    spec_array(&k.ty, vs, Form { packed: false, ..f }, &mut plain);
                    if n - start > plain.len + 1 { mon.bad(format!("array {}|larger than plain", k.name), format!("{vs:?}: {} packed, {} plain", n - start, plain.len)); }
                }
            }
            o => mon.bad(format!("array {}|write fails: {}", k.name, class(&o)), format!("{f:?} at bit {start}: {vs:?}: {}", o.kind())),
        }
        match run(|| { let mut q = reader_at(&s.buf, start); let x = k.a.read(&mut q, f, vs.len(), 0)?; Ok((x, q.position())) }) {
            Out::Ok((V::Arr(x), at)) => if x.len() != vs.len() || at != s.len || !x.iter().zip(vs).all(|(a, b)| same_value(&k.ty, a, &stored(&k.ty, b))) { mon.bad(format!("array {}|reads differently", k.name), format!("{f:?}: {} is {vs:?}, read as {x:?}", hex(&s.buf))); },
            o => mon.bad(format!("array {}|does not read: {}", k.name, class(&o)), format!("{f:?}: {} is {vs:?}: {}", hex(&s.buf), o.kind())),
        }
    });
}
fn sizes(seed: u64, n: u64, mon: &mut Mon) {
    each_array(seed, n, mon, |mon, k, vs, f, start| {
        let (_, end) = match real_write(k, vs, f, start) { Out::Ok(x) => x, o => { mon.bad(format!("array {}|write fails: {}", k.name, class(&o)), format!("{f:?} {vs:?}: {}", o.kind())); return; } };
        mon.sample(|| format!("{} {f:?} at bit {start}: {vs:?}: {} bits", k.name, end - start));
        let mut chk = |what: &str, o: Out<u64>| match o { Out::Ok(n) => if n != end - start { mon.bad(format!("array {}|{what} differs", k.name), format!("{f:?} at bit {start}: predicted {n}, wrote {}: {vs:?}", end - start)); }, o => mon.bad(format!("array {}|{what} fails: {}", k.name, class(&o)), format!("{f:?} at bit {start}: {vs:?}: {}", o.kind())) };
        chk("size", run(|| k.a.size(vs, f, start).expect("elements")));
        if f.packed { chk("packed size", run(|| k.a.size_packed(vs, f, start).expect("elements"))); }
    });
    let ks = kinds();
    each_value(&ks, seed, n, mon, |mon, k, v, start, _| if let Some(f) = &k.size {
        let wrote = match run(|| { let mut w = writer_at(start); (k.write)(&mut w, v).unwrap()?; Ok(w.bit_count() - start) }) { Out::Ok(n) => n, o => { mon.bad(format!("{}|write fails: {}", k.name, class(&o)), format!("{v:?}: {}", o.kind())); return; } };
        match run(|| f(v).unwrap()) { Out::Ok(n) => if n != wrote { mon.bad(format!("{}|size differs", k.name), format!("{v:?} at bit {start}: predicted {n}, wrote {wrote}")); }, o => mon.bad(format!("{}|size fails: {}", k.name, class(&o)), format!("{v:?}: {}", o.kind())) }
    });
}

// ---- P16 -----------------------------------------------------------------------------------------
fn numbits_mode(seed: u64, n: u64, mon: &mut Mon) {
    let len = |x: u128| (128 - x.leading_zeros()) as u8;
    let nb = |x: u128| if x == 0 { 0 } else if x == 1 { 1 } else { len(x - 1) };
    macro_rules! ty { ($($t:ty)*) => { $( {
        let mut r = Rng::new(seed ^ hash64(stringify!($t).as_bytes()));
        let max = <$t>::MAX as u128;
        let mut vs: Vec<u128> = if max < (1 << 17) { (0..=max).collect() } else { (0..70_000).collect() };
        for b in 0..64 { for d in [-2i128, -1, 0, 1, 2] { let x = (1i128 << b) + d; if x >= 0 && x as u128 <= max { vs.push(x as u128); } } }
        vs.extend([max, max - 1, max - 2, max / 2, max / 2 + 1]);
        for _ in 0..n * 100 { let b = r.below(64) as u32; let x = (r.next() >> b) as u128; if x <= max { vs.push(x); } }
        for x in vs {
            mon.eval(&[&x.to_be_bytes()[..], stringify!($t).as_bytes()].concat(), true);
            let v = x as $t;
            match guard(|| zserio::bit_length(v)) { Ok(g) => if g != len(x) { mon.bad(format!("bit_length {}", stringify!($t)), format!("bit_length({x}) = {g}, expected {}", len(x))); }, Err(p) => mon.bad(format!("bit_length {} panics", stringify!($t)), format!("{x}: {p}")) }
            match guard(|| zserio::numbits(v)) { Ok(g) => if g != nb(x) { mon.bad(format!("numbits {}", stringify!($t)), format!("numbits({x}) = {g}, expected {}", nb(x))); }, Err(p) => mon.bad(format!("numbits {} panics", stringify!($t)), format!("{x}: {p}")) }
        }
        mon.stat("integer types", 1);
        mon.sample(|| format!("{}: 0..={} and boundaries", stringify!($t), max.min(70_000)));
    } )* } }
    ty! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
}

// ---- P17 -----------------------------------------------------------------------------------------
fn externs(seed: u64, n: u64, mon: &mut Mon) {
    let mut r = Rng::new(seed ^ 0xe7);
    const HUGE: [u64; 9] = [16_383, 16_384, 65_543, 524_280, 524_288, 524_295, (1 << 21) - 1, 1 << 21, (1 << 23) + 3];
    for i in 0..n {
        let nbits = if i % (n / HUGE.len() as u64 + 1) == 0 { HUGE[(i / (n / HUGE.len() as u64 + 1)) as usize] } else { match r.below(8) { 0 => r.below(3000), 1 => i % 300, _ => r.below(70) } };
        let start = starts(i, &mut r);
        // bits beyond the bit length may be set in memory; they are not part of the value
        let data: Vec<u8> = (0..nbits.div_ceil(8)).map(|_| r.next() as u8).collect();
        let e = ExternType { bit_size: nbits as u32, data_blob: data.clone() };
        mon.eval(&[&data[..], &nbits.to_be_bytes(), &start.to_be_bytes()].concat(), nbits > 0);
        let (pre, post) = (noise(&mut r, start), noise(&mut r, 13));
        let o = run(|| {
            let mut w = W::new();
            for b in &pre { w.write_bool(*b)?; }
            write_extern_type(&mut w, &e)?;
            let end = w.bit_count();
            for b in &post { w.write_bool(*b)?; }
            w.close()?;
            let b = w.data().clone();
            let mut q = R::new(&b);
            q.skip(start)?;
            let x = read_extern_type(&mut q)?;
            Ok((b.clone(), end, q.position(), x))
        });
        mon.sample(|| format!("extern of {nbits} bits {} at bit {start}", hex(&data)));
        match o {
            Out::Ok((b, end, at, x)) => {
                if x.bit_size as u64 != nbits || x.data_blob.len() != data.len() || bits_of(&x.data_blob, 0, nbits) != bits_of(&data, 0, nbits) { mon.bad("extern|content changed".into(), format!("{nbits} bits {} read as {} bits {}", hex(&data), x.bit_size, hex(&x.data_blob))); }
                if at != end || bits_of(&b, end, 13).as_ref() != Some(&post) { mon.bad("extern|neighbours changed".into(), format!("{nbits} bits {} at bit {start}: {}", hex(&data), hex(&b))); }
                let hdr = var_bytes(VarKind::Size, nbits as i128).unwrap().len() as u64 * 8;
                if end != start + hdr + nbits || bits_of(&b, start + hdr, nbits) != bits_of(&data, 0, nbits) { mon.bad("extern|not verbatim".into(), format!("{nbits} bits {} at bit {start}: {}", hex(&data), hex(&b))); }
                if nbits % 8 != 0 && x.data_blob.last().is_some_and(|b| b & (0xff >> (nbits % 8)) != 0) { mon.bad("extern|stray bits".into(), format!("{nbits} bits read as {}", hex(&x.data_blob))); }
            }
            o => mon.bad(format!("extern|{}", class(&o)), format!("{nbits} bits {} at bit {start}: {}", hex(&data), o.kind())),
        }
        let y = BytesType { byte_size: data.len() as u32, data_blob: data.clone() };
        match run(|| { let mut w = writer_at(start); write_bytes_type(&mut w, &y)?; let end = w.bit_count(); w.close()?; let b = w.data().clone(); let mut q = reader_at(&b, start); let x = read_bytes_type(&mut q)?; Ok((x, end, q.position(), b.clone())) }) {
            Out::Ok((x, end, at, b)) => {
                let hdr = var_bytes(VarKind::Size, data.len() as i128).unwrap().len() as u64 * 8;
                if x != y || end != at || end != start + hdr + data.len() as u64 * 8 || bits_of(&b, start + hdr, data.len() as u64 * 8) != bits_of(&data, 0, data.len() as u64 * 8) { mon.bad("bytes|content changed".into(), format!("{} at bit {start} read as {}", hex(&data), hex(&x.data_blob))); }
            }
            o => mon.bad(format!("bytes|{}", class(&o)), format!("{} at bit {start}: {}", hex(&data), o.kind())),
        }
    }
}

// ---- P12 -----------------------------------------------------------------------------------------
fn align_mode(seed: u64, n: u64, mon: &mut Mon) {
    let mut r = Rng::new(seed ^ 0xa1);
    for i in 0..n {
        let a = match i % 4 { 0 => 1 + r.below(70), 1 => *r.pick(&[1u64, 2, 4, 8, 16, 32, 64, 128]), 2 => 8, _ => 1 + r.below(300) };
        let pos = r.below(400);
        let want = (a - pos % a) % a;
        mon.eval(&[a.to_be_bytes(), pos.to_be_bytes()].concat(), want > 0);
        mon.sample(|| format!("align {a} at bit {pos}: {want} padding bits"));
        if want > 0 { mon.stat("needs padding", 1); }
        match guard(|| align_bitsize(pos, a)) { Ok(g) => if g != want { mon.bad("align_bitsize".into(), format!("align {a} at bit {pos}: {g} instead of {want}")); }, Err(p) => mon.bad("align_bitsize panics".into(), format!("align {a} at bit {pos}: {p}")) }
        let pre = noise(&mut r, pos);
        match run(|| { let mut w = W::new(); for b in &pre { w.write_bool(*b)?; } align_writer(&mut w, a)?; let n = w.bit_count(); w.write_bool(true)?; w.close()?; Ok((n, w.data().clone())) }) {
            Out::Ok((at, b)) => {
                if at != pos + want || bits_of(&b, 0, pos).as_ref() != Some(&pre) || bits_of(&b, pos, want) != Some(vec![false; want as usize]) { mon.bad("align_writer".into(), format!("align {a} at bit {pos}: at {at}, {}", hex(&b))); }
                else {
                    let mut b = b;
                    for k in pos..pos + want { if r.chance(1, 2) { b[(k / 8) as usize] ^= 0x80 >> (k % 8); } } // padding content does not matter
                    match run(|| { let mut q = reader_at(&b, pos); align_reader(&mut q, a)?; let at = q.position(); Ok((at, q.read_bool()?)) }) { Out::Ok((at, true)) if at == pos + want => {} o => mon.bad("align_reader".into(), format!("align {a} at bit {pos}: {}", match o { Out::Ok(x) => format!("{x:?}"), o => o.kind() })) }
                }
            }
            o => mon.bad(format!("align_writer|{}", class(&o)), format!("align {a} at bit {pos}: {}", o.kind())),
        }
        // the input ends inside the padding
        let short = vec![0u8; (pos.div_ceil(8)) as usize];
        let end = short.len() as u64 * 8;
        let o = run(|| { let mut q = reader_at(&short, pos); align_reader(&mut q, a)?; Ok(q.position()) });
        match o { Out::Ok(at) if pos + want <= end && at == pos + want => {} Out::Err(_) if pos + want > end => {} o => mon.bad("align_reader at the end".into(), format!("align {a} at bit {pos} of {end}: {}", match o { Out::Ok(x) => format!("{x}"), o => o.kind() })) }
        if a <= 255 { let t = pos.div_ceil(a) * a; match guard(|| align_to(a as u8, pos)) { Ok(g) => if g != t { mon.bad("align_to".into(), format!("align_to({a}, {pos}) = {g}, expected {t}")); }, Err(p) => mon.bad("align_to panics".into(), p) } }
    }
}

// ---- P18 -----------------------------------------------------------------------------------------
/// One unit of work: encodes and decodes pseudo random values; the digest depends on all results.
fn work(ks: &[Kind], aks: &[ArrKind], seed: u64, n: u64) -> u64 {
    let mut r = Rng::new(seed);
    let mut d = String::new();
    use std::fmt::Write as _;
    for _ in 0..n {
        let k = &ks[r.below(ks.len() as u64) as usize];
        let v = any(&k.ty, &mut r);
        let start = r.below(9);
        let o = run(|| { let mut w = writer_at(start); (k.write)(&mut w, &v).unwrap()?; w.close()?; Ok(w.data().clone()) });
        let b = o.ok().cloned().unwrap_or_default();
        let x = soup(&mut r, &b);
        let _ = write!(d, "{o:?}{:?}", if start <= x.len() as u64 * 8 { run(|| { let mut q = reader_at(&x, start); let v = (k.read)(&mut q)?; Ok((v, q.position())) }) } else { Out::NoValue });
        let a = &aks[r.below(aks.len() as u64) as usize];
        let f = FORMS[r.below(8) as usize];
        let vs = any_array(&a.ty, &mut r, 6);
        let o = real_write(a, &vs, f, start);
        let b = o.ok().map(|x| x.0.clone()).unwrap_or_default();
        let x = soup(&mut r, &b);
        let mut br = BR::new(&x);
        br.pos = start.min(br.end);
        let heavy = spec_read_array(&a.ty, f, vs.len(), &mut br) == Err(DErr::Budget);
        let _ = write!(d, "{o:?}{:?}{:?}", if start <= x.len() as u64 * 8 && !heavy { run(|| { let mut q = reader_at(&x, start); let v = a.a.read(&mut q, f, vs.len(), 2)?; Ok((v, q.position())) }) } else { Out::NoValue }, run(|| a.a.size(&vs, f, start).unwrap()));
    }
    hash64(d.as_bytes())
}
fn threads(seed: u64, n: u64, mon: &mut Mon) {
    let (ks, aks) = (kinds(), arr_kinds());
    let nt = if cfg!(miri) { 3 } else { 16 };
    let units = if cfg!(miri) { 2 } else { 24 };
    let saved = get_array_alloc_chunk();
    let want: Vec<u64> = (0..units).map(|u| work(&ks, &aks, seed.wrapping_mul(97) + u, n)).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let flips = AtomicU64::new(0);
    let results: std::sync::Mutex<Vec<(u64, u64, u64)>> = Default::default();
    std::thread::scope(|s| {
        let togglers: Vec<_> = (0..2u64).map(|t| { let (stop, flips) = (&stop, &flips); s.spawn(move || {
            let mut r = Rng::new(seed ^ t);
            while !stop.load(Acquire) { set_array_alloc_chunk(*r.pick(&[0usize, 1, 2, 7, 100, 1000, 4096])); let _ = get_array_alloc_chunk(); flips.fetch_add(1, Relaxed); std::thread::yield_now(); }
        }) }).collect();
        let ws: Vec<_> = (0..nt).map(|t| { let results = &results; s.spawn(move || {
            let (ks, aks) = (&kinds(), &arr_kinds());
            let mut r = Rng::new(seed.wrapping_add(t * 1_000_003));
            for _ in 0..units { let u = r.below(units); let d = work(ks, aks, seed.wrapping_mul(97) + u, n); results.lock().unwrap().push((t, u, d)); }
        }) }).collect();
        for w in ws { let _ = w.join(); }
        stop.store(true, Release);
        for t in togglers { let _ = t.join(); }
    });
    set_array_alloc_chunk(saved);
    let order = results.into_inner().unwrap();
    for (i, (t, u, d)) in order.iter().enumerate() {
        mon.eval(&[&t.to_be_bytes()[..], &u.to_be_bytes(), &(i as u64).to_be_bytes()].concat(), true);
        if *d != want[*u as usize] { mon.bad("threads|result differs".into(), format!("unit {u} gives another result in thread {t} (completion {i})")); }
    }
    // context switches actually seen in the completion log
    mon.stat("thread alternations in the completion log", order.windows(2).filter(|w| w[0].0 != w[1].0).count() as u64);
    mon.stat("setting changes while encoding and decoding", flips.load(Relaxed));
    mon.stat("operations", n * 4 * (units + nt * units));
    mon.sample(|| format!("completion order (thread, unit): {:?}", order.iter().take(24).map(|x| (x.0, x.1)).collect::<Vec<_>>()));
}

fn shard() -> (u64, u64) { match std::env::var("RT_SHARD") { Ok(s) => { let (a, b) = s.split_once('/').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) } _ => (0, 1) } }
// ---- P19 -----------------------------------------------------------------------------------------
/// Results of the same work in differently built programs are compared by the caller.
fn digest(seed: u64, n: u64, mon: &mut Mon) {
    let (ks, aks) = (kinds(), arr_kinds());
    let (i, of) = shard();
    for u in (0..n).filter(|u| u % of == i) { let d = work(&ks, &aks, seed.wrapping_mul(131) + u, 20); mon.eval(&d.to_be_bytes(), true); let n = leaked(|| work(&ks, &aks, seed.wrapping_mul(131) + u, 20)); if n > 0 { mon.bad("runtime|leak".into(), format!("{n} bytes stay allocated after unit {u}")); } println!("{{\"digest\":\"rt/{u}\",\"value\":\"{d:016x}\"}}"); }
}
/// A bit of everything, for the interpreter and the sanitizers.
fn ub(seed: u64, n: u64, mon: &mut Mon) {
    let (i, of) = shard();
    let part = |x: usize| (x as u64 + seed) % of == i;
    let ks: Vec<_> = kinds().into_iter().enumerate().filter(|x| part(x.0)).map(|x| x.1).collect();
    let aks: Vec<_> = arr_kinds().into_iter().enumerate().filter(|x| part(x.0)).map(|x| x.1).collect();
    let mut r = Rng::new(seed ^ i << 20);
    for k in &ks { let e = edges(&k.ty); for _ in 0..n.max(1) { let v = r.pick(&e).clone(); if matches!(&v, V::Str(s) if s.len() > 300) || matches!(&v, V::Blob(s) if s.len() > 300) || matches!(&v, V::Ext(_, b) if *b > 300) { continue; } mon.eval(&ki(&k.name, &v, 0), true); let start = r.below(9); check_wire(mon, k, &v, start);
        let b = run(|| { let mut w = writer_at(start); (k.write)(&mut w, &v).unwrap()?; w.close()?; Ok(w.data().clone()) }).ok().cloned().unwrap_or_default();
        for _ in 0..3 { let x = soup(&mut r, &b); if start <= x.len() as u64 * 8 { let _ = run(|| { let mut q = reader_at(&x, start); (k.read)(&mut q) }); } }
    } }
    for k in &aks { for _ in 0..n.max(1) {
        let f = FORMS[r.below(8) as usize];
        let vs = any_array(&k.ty, &mut r, 4);
        let start = r.below(9);
        mon.eval(&ki(&k.name, &V::Arr(vs.clone()), start), true);
        if let Out::Ok((b, _)) = real_write(k, &vs, f, start) {
            let _ = run(|| { let mut q = reader_at(&b, start); k.a.read(&mut q, f, vs.len(), 1) });
            let x = soup(&mut r, &b);
            let mut br = BR::new(&x);
            br.pos = start.min(br.end);
            if start <= x.len() as u64 * 8 && spec_read_array(&k.ty, f, vs.len(), &mut br) != Err(DErr::Budget) { let _ = run(|| { let mut q = reader_at(&x, start); k.a.read(&mut q, f, vs.len(), 1) }); }
        }
        let _ = run(|| k.a.size(&vs, f, start).unwrap());
    } }
    mon.stat("types", (ks.len() + aks.len()) as u64);
}
