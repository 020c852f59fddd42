//! C06: every numeric constant and table entry has the value it names.
use kit::{near, Mc};

include!(concat!(env!("OUT_DIR"), "/scalars.rs"));

/// The value a constant's name denotes, if it follows one of the naming schemes.
fn meaning(name: &str) -> Option<f64> {
    let pi = 3.141592653589793238462643383279502884f64;
    let e = 2.718281828459045235360287471352662498f64;
    Some(match name {
        "PI_E" => pi * e,
        "PI_2" => 2.0 * pi,
        "PI_E_2" => 2.0 * pi * e,
        "PI_16" => 16.0 * pi,
        "PI_OVER_2" => 1.570796326794896619231321691639751442,
        "PI_OVER_4" => 0.785398163397448309615660845819875721,
        "PI2_OVER_6" => 1.644934066848226436472415166646025189,
        "PI2" => 9.869604401089358618834490999876151135,
        "PI3" => 31.00627668029982017547631506710139520,
        "PI4" => 97.40909103400243723644033268870511125,
        "PI5" => 306.0196847852814532627413100434931796,
        "ONE_OVER_PI" => 0.318309886183790671537767526745028724,
        "TWO_OVER_PI" => 0.636619772367581343075535053490057448,
        "TWO_OVER_PI2" => 0.202642367284675542887758926419679880,
        "ONE_HALF" => 0.5,
        "ONE_THIRD" => 1.0 / 3.0,
        "ONE_TWELTH" => 1.0 / 12.0,
        "ONE_TWENTY_FOURTH" => 1.0 / 24.0,
        "TWO_THIRDS" => 2.0 / 3.0,
        "THREE_HALVES" => 1.5,
        "THREE_FIFTHS" => 0.6,
        "SIX_FIFTHS" => 1.2,
        "NINE_FIFTHS" => 1.8,
        "TWELVE_FIFTHS" => 2.4,
        "TWENTY_ONE_FIFTHS" => 4.2,
        "TWENTY_SEVEN_FIFTHS" => 5.4,
        "NINETEEN_OVER_360" => 19.0 / 360.0,
        "E" => e,
        "PI" => pi,
        _ => return None,
    })
}

pub fn run(m: &mut Mc) {
    m.at("C06 scalars");
    for (name, got) in SCALARS {
        m.state();
        match meaning(name) {
            Some(w) => {
                m.step();
                m.outcome_f(*got);
                m.expect("named constant", || name.to_string(), near(*got, w, 1e-14, 0.0), || format!("got {:e}, the name denotes {:e}", got, w));
            },
            None => m.skip(&format!("constant {} follows no known naming scheme", name)),
        }
    }
    m.trace();
    m.at("C06 factorial table");
    let mut f = 1u64;
    for (n, got) in factorials().iter().enumerate() {
        if n > 0 {
            f *= n as u64;
        }
        m.state();
        m.step();
        m.expect("factorial table", || n.to_string(), *got == f, || format!("got {}, {}! = {}", got, n, f));
    }
    m.trace();
    m.at("C06 log factorial table");
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for (n, got) in log_factorials().iter().enumerate() {
        if n > 1 {
            let y = (n as f64).ln() - c;
            let t = s + y;
            c = (t - s) - y;
            s = t;
        }
        m.state();
        m.step();
        m.outcome_f(*got);
        m.expect("log factorial table", || n.to_string(), near(*got, s, 4e-15, 1e-14), || format!("got {:e}, ln {}! = {:e}", got, n, s));
    }
    m.trace();
    m.bound("every named scalar constant and every table entry of the constants module");
}
