use std::path::Path;
use zmodel::{codec, gen, json, model::*, rng::*, value::*};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        // zm vectors DIR SEED N
        "vectors" => {
            let m = Model::new(&read_sources(Path::new(&a[2])).unwrap()).unwrap();
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            for c in m.all_comps() { println!("{{\"type\":{}}}", json::comp(&c)); }
            for c in m.all_comps() {
                if c.i().params.iter().any(|p| matches!(p.1, Ty::Comp(_))) { continue; }
                let id = json::comp_id(&c);
                for k in 0..n {
                    let mut g = gen::Gen::new(&m, seed.wrapping_mul(1000003).wrapping_add(k).wrapping_add(hash64(id.as_bytes())));
                    match g.top(&c, 0) {
                        Ok(v) => {
                            let e = codec::encode(&m, &c, &v, 0).unwrap();
                            let d = codec::decode(&m, &c, &v.obj().params, &e.bytes, 0);
                            match d { Ok(d) => { if let Some(x) = diff(&v, &d.v, "") { eprintln!("MODEL {id}: {x}"); } assert_eq!(d.bits, e.bits); assert!(d.offsets_ok, "{id}"); } Err(x) => eprintln!("MODEL {id}: {x:?}\n  {v:?} {}", hex(&e.bytes)) }
                            println!("{{\"t\":{},\"v\":{},\"b\":\"{}\"}}", json::quote(&id), json::value(&v), hex(&e.bytes));
                        }
                        Err(e) => eprintln!("GEN {id}: {e}"),
                    }
                }
            }
        }
        // zm glue SCHEMADIR ROOT OUTFILE GENDIR
        "glue" => {
            let m = Model::new(&read_sources(Path::new(&a[2])).unwrap()).unwrap();
            std::fs::write(&a[4], zmodel::glue::glue(&m, &a[3], Path::new(&a[5]))).unwrap();
        }
        x => panic!("{x}"),
    }
}
