//! Declarations deriving Ordinal, written by tools/shapes.py together with their specification.
#![allow(non_camel_case_types, non_snake_case, dead_code, unused_variables, unreachable_code)]
use ordinal_map::Ordinal;
use replay::*;

fn product(radix: &[u128]) -> u128 {
    radix.iter().copied().fold(1, mulc)
}
fn digits(i: u128, radix: &[u128]) -> Vec<u128> {
    let mut i = i;
    let mut d = vec![0; radix.len()];
    for k in (0..radix.len()).rev() {
        d[k] = i % radix[k];
        i /= radix[k];
    }
    d
}

include!("../../gen/shapes.rs");

/// A variant called like one of the prelude's names, imported into the scope of the derive.
mod imported {
    use ordinal_map::Ordinal;
    #[derive(Ordinal, Debug, Clone, Copy, PartialEq)]
    pub enum Opt {
        None,
        Some(bool),
        Ok { rem: bool },
    }
    #[allow(unused_imports)]
    use Opt::*;
}

fn main() {
    let mut run = Run::start("C05");
    let r = &mut run;
    let (ex, rnd) = (r.scale(600, 40_000), r.scale(20, 500));
    run_shapes(r, ex, rnd);
    for i in 0..7usize {
        r.case("variants named None, Some and Ok, imported", i, |&i| {
            use imported::Opt;
            let want = [Opt::None, Opt::Some(false), Opt::Some(true), Opt::Ok { rem: false }, Opt::Ok { rem: true }].get(i).copied();
            same!(Opt::from_ordinal(i), want, "from_ordinal({i})");
            if let Some(v) = want {
                same!(v.ordinal(), i, "ordinal of {v:?}");
            }
            Ok(())
        });
    }
    run.finish();
}
