//! Replays a counterexample of a Kani harness against the real code: kr <module> <harness> <hex bytes>...
use ordinal_map::Ordinal;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::num::*;

fn word(h: &str) -> u64 {
    let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut w = [0u8; 8];
    w[..b.len()].copy_from_slice(&b);
    u64::from_le_bytes(w)
}

fn go<T: Ordinal + Debug + PartialEq + Ord + Copy>(what: &str, count: usize, ws: &[u64], f: impl Fn(u64) -> T) {
    let fail = |s: String| {
        println!("FAIL {s}");
        std::process::exit(1);
    };
    if T::ORDINAL_SIZE != count {
        fail(format!("declared number of values is {}, exact count is {count}", T::ORDINAL_SIZE));
    }
    match what {
        "c01_encode" => {
            let v = f(ws[0]);
            let o = v.ordinal();
            let b = if o < count { T::from_ordinal(o) } else { None };
            if b != Some(v) {
                fail(format!("{v:?}: ordinal {o}, from_ordinal({o}) = {b:?}, number of values {count}"));
            }
        }
        "c01_decode" => {
            let n = ws[0] as usize;
            let v = T::from_ordinal(n);
            let ok = match v {
                Some(v) => n < count && v.ordinal() == n,
                None => n >= count,
            };
            if !ok {
                fail(format!("from_ordinal({n}) = {v:?}, its ordinal {:?}, number of values {count}", v.map(|v| v.ordinal())));
            }
        }
        _ => {
            let (a, b) = (f(ws[0]), f(ws[1]));
            if a.cmp(&b) != a.ordinal().cmp(&b.ordinal()) {
                fail(format!("{a:?} has ordinal {}, {b:?} has ordinal {}", a.ordinal(), b.ordinal()));
            }
        }
    }
    println!("OK");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let ws: Vec<u64> = a[3..].iter().map(|h| word(h)).collect();
    let (m, w) = (a[1].as_str(), a[2].as_str());
    macro_rules! nz { ($t:ty, $b:ty, $c:expr) => { go::<$t>(w, $c, &ws, |x| <$t>::new(x as $b).unwrap()) } }
    let r = std::panic::catch_unwind(|| match m {
        "bool_" => go::<bool>(w, 2, &ws, |x| x != 0),
        "u8_" => go::<u8>(w, 1 << 8, &ws, |x| x as u8),
        "i8_" => go::<i8>(w, 1 << 8, &ws, |x| x as i8),
        "u16_" => go::<u16>(w, 1 << 16, &ws, |x| x as u16),
        "i16_" => go::<i16>(w, 1 << 16, &ws, |x| x as i16),
        "u32_" => go::<u32>(w, 1 << 32, &ws, |x| x as u32),
        "i32_" => go::<i32>(w, 1 << 32, &ws, |x| x as i32),
        "nz_u8" => nz!(NonZeroU8, u8, (1 << 8) - 1),
        "nz_i8" => nz!(NonZeroI8, i8, (1 << 8) - 1),
        "nz_u16" => nz!(NonZeroU16, u16, (1 << 16) - 1),
        "nz_i16" => nz!(NonZeroI16, i16, (1 << 16) - 1),
        "nz_u32" => nz!(NonZeroU32, u32, (1 << 32) - 1),
        "nz_i32" => nz!(NonZeroI32, i32, (1 << 32) - 1),
        "nz_u64" => nz!(NonZeroU64, u64, usize::MAX),
        "nz_i64" => nz!(NonZeroI64, i64, usize::MAX),
        "nz_usize" => nz!(NonZeroUsize, usize, usize::MAX),
        "nz_isize" => nz!(NonZeroIsize, isize, usize::MAX),
        "char_" => go::<char>(w, 0x110000 - 0x800, &ws, |x| char::from_u32(x as u32).unwrap()),
        "ordering" => go::<Ordering>(w, 3, &ws, |x| [Ordering::Less, Ordering::Equal, Ordering::Greater][x as usize]),
        _ => println!("UNKNOWN {m}"),
    });
    if r.is_err() {
        println!("FAIL panic in {m}::{w} on {:?}", &a[3..]);
        std::process::exit(1);
    }
}
