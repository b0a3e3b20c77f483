// Every check builds only its own monitor
#![cfg_attr(not(feature = "all"), allow(unused))]

use mon::engine::{Stats, V};
use mon::rng::mix;
use mon::{props_a as a, props_b as b, props_c as c, props_d as d, report};

/// The width of the keys is derived from the case.
fn width(case: u64, ws: &[usize]) -> usize {
    ws[(mix(&[case, 77]) % ws.len() as u64) as usize]
}

/// The widths of this build.
const WIDTHS: &[usize] = &[
    #[cfg(feature = "w2")]
    2,
    #[cfg(feature = "w3")]
    3,
    #[cfg(feature = "w4")]
    4,
    #[cfg(feature = "w8")]
    8,
    #[cfg(feature = "w8")]
    8,
    #[cfg(feature = "w32")]
    32,
    #[cfg(feature = "w32")]
    32,
    #[cfg(feature = "w33")]
    33,
    #[cfg(feature = "w64")]
    64,
];

/// Those at which a real hash function does not collide.
const WIDE: &[usize] = &[
    #[cfg(feature = "w8")]
    8,
    #[cfg(feature = "w32")]
    32,
    #[cfg(feature = "w32")]
    32,
    #[cfg(feature = "w33")]
    33,
    #[cfg(feature = "w64")]
    64,
];

macro_rules! at {
    ($ws:expr, $($f:ident)::+, $case:expr, $($a:expr),*) => {
        match width($case, $ws) {
            #[cfg(feature = "w2")]
            2 => $($f)::+::<2>($case, $($a),*),
            #[cfg(feature = "w3")]
            3 => $($f)::+::<3>($case, $($a),*),
            #[cfg(feature = "w4")]
            4 => $($f)::+::<4>($case, $($a),*),
            #[cfg(feature = "w8")]
            8 => $($f)::+::<8>($case, $($a),*),
            #[cfg(feature = "w32")]
            32 => $($f)::+::<32>($case, $($a),*),
            #[cfg(feature = "w33")]
            33 => $($f)::+::<33>($case, $($a),*),
            #[cfg(feature = "w64")]
            64 => $($f)::+::<64>($case, $($a),*),
            _ => unreachable!(),
        }
    };
}

fn main() {
    let args = report::args();
    let prop = args.prop.clone();
    let dump = args.extra.iter().any(|x| x == "dump");
    let code = report::run(&args, move |case, th, st: &mut Stats| -> V<()> {
        match prop.as_str() {
            #[cfg(any(feature = "all", feature = "p01"))]
            "C01" => at!(WIDTHS, a::c01, case, th, st),
            #[cfg(any(feature = "all", feature = "p02"))]
            "C02" => at!(WIDTHS, a::c02, case, th, st),
            #[cfg(any(feature = "all", feature = "p03"))]
            "C03" => at!(WIDTHS, a::c03, case, th, st),
            #[cfg(any(feature = "all", feature = "p04"))]
            "C04" => at!(WIDTHS, a::c04, case, th, st),
            #[cfg(any(feature = "all", feature = "p05"))]
            "C05" => at!(WIDTHS, a::c05, case, th, st),
            #[cfg(any(feature = "all", feature = "p06"))]
            "C06" => at!(WIDTHS, a::c06, case, th, st),
            #[cfg(any(feature = "all", feature = "p07"))]
            "C07" => at!(WIDTHS, a::c07, case, th, st),
            #[cfg(any(feature = "all", feature = "p08"))]
            "C08" => at!(WIDTHS, b::c08, case, th, st),
            #[cfg(any(feature = "all", feature = "p09"))]
            "C09" => mon::engine::keys_watched(|| at!(WIDTHS, b::c09, case, th, st)),
            #[cfg(any(feature = "all", feature = "p10"))]
            "C10" => at!(WIDTHS, b::c10, case, th, st),
            #[cfg(any(feature = "all", feature = "p11"))]
            "C11" => at!(WIDTHS, b::c11, case, th, st),
            #[cfg(any(feature = "all", feature = "p12"))]
            "C12" => at!(WIDTHS, c::c12, case, th, st),
            #[cfg(any(feature = "all", feature = "p13"))]
            "C13" => at!(WIDTHS, c::c13, case, th, st),
            #[cfg(any(feature = "all", feature = "p14"))]
            "C14" => at!(WIDTHS, c::c14, case, th, st),
            #[cfg(any(feature = "all", feature = "p15"))]
            "C15" => at!(WIDE, d::c15, case, th, st, dump),
            #[cfg(any(feature = "all", feature = "p18"))]
            "C18" => at!(WIDTHS, d::c18, case, th, st),
            #[cfg(any(feature = "all", feature = "p19"))]
            "C19" => at!(WIDTHS, d::c19, case, th, st),
            #[cfg(any(feature = "all", feature = "p20"))]
            "C20" => at!(WIDE, mon::threads::c20, case, th, st),
            #[cfg(any(feature = "all", feature = "p22"))]
            "C22" => at!(WIDTHS, d::c22, case, th, st),
            #[cfg(any(feature = "all", feature = "p23"))]
            "C23" => at!(WIDTHS, d::c23, case, th, st),
            other => panic!("no monitor for {other}"),
        }
    });
    std::process::exit(code);
}
