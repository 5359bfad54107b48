//! Drives the runtime crate directly (scalars, arrays, helpers) and watches it with monitors.
//! rt MODE SEED N
use gluecore::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use zmodel::bits::{BR, BW};
use zmodel::codec::DErr;
use zmodel::model::{Ty, VarKind, range};
use zmodel::rng::*;
use zmodel::scalar::*;
use zmodel::value::*;
use zserio::ztype::array_traits::array_trait::ArrayTrait;
use zserio::ztype::array_traits as at;
use zserio::ztype::*;

include!("../../hgen/mon.rs");
include!("kinds.rs");
include!("modes.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    quiet_panics();
    let (mode, seed, n): (String, u64, u64) = (a[1].clone(), a[2].parse().unwrap(), a[3].parse().unwrap());
    if !cfg!(miri) { watchdog(30); }
    let mut mon = Mon::new();
    run_mode(&mode, seed, n, &mut mon);
    mon.done();
}
