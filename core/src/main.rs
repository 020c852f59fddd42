//! Explorer for the part of rstat that needs nothing outside the repository.
//! The modules below are compiled from /repo/src, in the layout of /repo/src/lib.rs.
#![allow(dead_code, unused_macros, unused_imports)]

extern crate failure;
extern crate num;
extern crate rand;
extern crate rand_distr;
extern crate special_fun;

#[path = "/repo/src/consts.rs"]
mod consts;
#[path = "/repo/src/utils.rs"]
mod utils;

#[macro_use]
#[path = "/repo/src/params/mod.rs"]
pub mod params;

#[path = "/repo/src/normal"]
pub mod normal {
    #[path = "linalg.rs"]
    pub(crate) mod linalg;
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;

fn main() {
    let (prop, tier, only) = kit::args();
    let mut m = kit::Mc::new(&prop, tier, only);
    m.explore(|m| match prop.as_str() {
        "C01" => c01::run(m),
        "C02" => c02::run(m),
        "C03" => c03::run(m),
        "C04" => c04::run(m),
        "C05" => c05::run(m),
        "C06" => c06::run(m),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        },
    });
    std::process::exit(m.finish(true));
}
