//! C24 and C25: the array type and the public helpers, against plain byte arrays and bits.

mod array;
mod helpers;

use mon::engine::{Stats, V};
use mon::report;
use mon::rng::mix;

macro_rules! at {
    ($m:ident :: $f:ident, $case:expr, $st:expr; $($n:literal)*) => {{
        let ws = [$($n),*];
        match ws[(mix(&[$case, 77]) % ws.len() as u64) as usize] {
            $($n => $m::$f::<$n>($case, $st),)*
            _ => unreachable!(),
        }
    }};
}

fn main() {
    let args = report::args();
    let prop = args.prop.clone();
    let code = report::run(&args, move |case, _thorough, st: &mut Stats| -> V<()> {
        match prop.as_str() {
            "C24" => at!(array::case, case, st; 1 2 3 4 7 8 9 16 31 32 33 64 65 128 200 255 256 257 300),
            "C25" => at!(helpers::case, case, st; 1 2 3 4 7 8 9 16 31 32 33 64 65 128 255 256 257),
            other => panic!("no monitor for {other}"),
        }
    });
    std::process::exit(code);
}
