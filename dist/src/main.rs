//! dist-mc: properties of the distributions, judged on the real crate.
mod case;
mod cases;
mod conv;
mod custom;
mod draws;
mod fit;
mod mix;
mod multis;
mod norms;
mod params;
mod print;
mod prob;
mod uv;
mod vecs;

fn main() {
    let (prop, tier, only) = kit::args();
    let mut m = kit::Mc::new(&prop, tier, only);
    m.assume("the sibling crate `spaces` (absent here) behaves as the stand-in in /verif/standin/spaces");
    let go = |m: &mut kit::Mc| match prop.as_str() {
        "D01" => uv::cdf(m),
        "D02" => uv::density(m),
        "D03" => uv::variants(m),
        "D04" => uv::moments(m),
        "D05" => uv::quantiles(m),
        "D06" => uv::modes(m),
        "D07" => uv::entropy(m),
        "D08" => uv::sampler(m),
        "D09" => draws::draws(m),
        "D10" => conv::convolution(m),
        "D11" => params::params(m),
        "D12" => fit::fitting(m),
        "D13" => mix::mixture(m),
        "D14" => norms::normals(m),
        "D15" => multis::multis(m),
        "D16" => prob::probability(m),
        "D17" => prob::simplex(m),
        "D18" => custom::inherited(m),
        "D19" => print::printing(m),
        p => panic!("unknown property {}", p),
    };
    match prop.as_str() {
        "D01" | "D02" | "D03" | "D04" | "D05" | "D06" | "D07" | "D08" | "D09" | "D12" | "D14" | "D15" => m.explore_sliced(go),
        _ => m.explore(go),
    }
    std::process::exit(m.finish(true));
}
