//! Monitors on the RocksDB tree.

// Every check builds only its own monitor
#![cfg_attr(not(feature = "all"), allow(unused))]

mod io;
mod props;
mod rk;

use mon::engine::{Stats, V};
use mon::rng::mix;
use mon::{blind, props_a as a, report};
use props::{eng, two};

macro_rules! at_width {
    ($f:expr, $g:expr, $h:expr, $case:expr) => {
        match mix(&[$case, 77]) % if cfg!(feature = "w33") { 3 } else { 2 } {
            0 => $f,
            1 => $g,
            #[cfg(feature = "w33")]
            _ => $h,
            #[cfg(not(feature = "w33"))]
            _ => unreachable!(),
        }
    };
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    if argv.get(1).map(String::as_str) == Some("crash-child") {
        #[cfg(any(feature = "all", feature = "p13"))]
        props::child(&argv[2..]);
        return;
    }
    let args = report::args();
    let prop = args.prop.clone();
    let dump = args.extra.iter().any(|x| x == "dump");
    let code = report::run(&args, move |case, th, st: &mut Stats| -> V<()> {
        let s = case;
        macro_rules! on {
            ($m:ident) => {
                at_width!(
                    a::$m(eng::<8>(s)?, th, st),
                    a::$m(eng::<32>(s)?, th, st),
                    a::$m(eng::<33>(s)?, th, st),
                    s
                )
            };
        }
        macro_rules! blind {
            ($m:path) => {
                at_width!($m(eng::<8>(s)?, st), $m(eng::<32>(s)?, st), $m(eng::<33>(s)?, st), s)
            };
        }
        macro_rules! own {
            ($m:ident) => {
                at_width!(props::$m::<8>(s, th, st), props::$m::<32>(s, th, st), props::$m::<33>(s, th, st), s)
            };
        }
        match prop.as_str() {
            #[cfg(any(feature = "all", feature = "p01"))]
            "C01" => on!(c01_on),
            #[cfg(any(feature = "all", feature = "p02"))]
            "C02" => on!(c02_on),
            #[cfg(any(feature = "all", feature = "p03"))]
            "C03" => on!(c03_on),
            #[cfg(any(feature = "all", feature = "p04"))]
            "C04" => blind!(a::c04_blind),
            #[cfg(any(feature = "all", feature = "p05"))]
            "C05" => on!(c05_on),
            #[cfg(any(feature = "all", feature = "p07"))]
            "C07" => on!(c07_on),
            #[cfg(any(feature = "all", feature = "p08"))]
            "C08" => blind!(blind::c08_blind),
            #[cfg(any(feature = "all", feature = "p09"))]
            "C09" => mon::engine::keys_watched(|| blind!(blind::c09_blind)),
            #[cfg(any(feature = "all", feature = "p10"))]
            "C10" if case % 8 == 5 => blind!(blind::barrage),
            #[cfg(any(feature = "all", feature = "p10"))]
            "C10" => blind!(blind::c10_blind),
            #[cfg(any(feature = "all", feature = "p11"))]
            "C11" => blind!(blind::c11_blind),
            #[cfg(any(feature = "all", feature = "p12"))]
            "C12" => own!(c12),
            #[cfg(any(feature = "all", feature = "p13"))]
            "C13" => own!(c13),
            #[cfg(any(feature = "all", feature = "p14"))]
            "C14" => own!(c14),
            #[cfg(any(feature = "all", feature = "p19"))]
            "C19" => own!(c19),
            // The same choice of widths as the other programs make for the same case
            #[cfg(any(feature = "all", feature = "p15"))]
            "C15" => match two(case, &[8, 32, 32, 33, 64]) {
                8 => props::c15::<8>(case, th, st, dump),
                32 => props::c15::<32>(case, th, st, dump),
                33 => props::c15::<33>(case, th, st, dump),
                _ => props::c15::<64>(case, th, st, dump),
            },
            #[cfg(any(feature = "all", feature = "p20"))]
            "C20" => own!(c20),
            #[cfg(any(feature = "all", feature = "p26"))]
            "C26" => match two(case, &[3, 8, 32, 33, 64]) {
                3 => props::c26::<3>(s, th, st),
                8 => props::c26::<8>(s, th, st),
                32 => props::c26::<32>(s, th, st),
                33 => props::c26::<33>(s, th, st),
                _ => props::c26::<64>(s, th, st),
            },
            other => panic!("no monitor for {other}"),
        }
    });
    let _ = std::fs::remove_dir_all(rk::scratch());
    std::process::exit(code);
}
