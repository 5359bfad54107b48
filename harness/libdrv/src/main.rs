//! The library interface of the compiler, driven the way a build script does.
//! libdrv ROOT SCHEMADIR OUT...   (one generation per OUT, all in this process)
use std::path::Path;
use zserio_rs_build::{generate_model, Model};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    for out in &a[3..] {
        let mut m = Model::from_filesystem(Path::new(&a[2]));
        m.evaluate();
        generate_model(&mut m, Path::new(out), &a[1]);
    }
}
