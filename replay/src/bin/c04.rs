use replay::*;
use std::cmp::Ordering;
use std::num::*;

macro_rules! all {
    ($r:expr, $ex:expr, $rnd:expr; $($t:ty),* $(,)?) => { $( check_type::<$t>($r, stringify!($t), $ex, $rnd); )* };
}
macro_rules! ord {
    ($r:expr, $ex:expr, $rnd:expr; $($t:ty),* $(,)?) => { $( check_order::<$t>($r, stringify!($t), $ex, $rnd); )* };
}
type Z = K<0>;
type I = K<1>;
type B = K<2>;
type C = K<3>;
type D = K<5>;
type E = K<7>;
type M = K<{ usize::MAX }>;
type H = K<{ 1 << 32 }>;
type H1 = K<{ (1 << 32) - 1 }>;

fn main() {
    let mut run = Run::start("C04");
    let r = &mut run;
    let ex = r.scale(700, 20_000);
    let rnd = r.scale(60, 5000);
    all!(r, ex, rnd;
        [Z; 0], [Z; 1], [Z; 3], [I; 0], [I; 1], [I; 7], [B; 0], [B; 1], [B; 2], [B; 5], [B; 10], [B; 63], [C; 1], [C; 2], [C; 3], [C; 6], [C; 40],
        [D; 2], [D; 4], [D; 27], [u8; 1], [u8; 2], [u8; 7], [u16; 3], [Rev<3>; 4], [M; 0], [M; 1], [H; 1], [H1; 2], [u32; 1], [char; 3], [bool; 6],
        [[C; 2]; 2], [[Z; 0]; 3], [Option<B>; 3], [NonZeroU64; 1], [[B; 3]; 2], [(B, C); 3], [E; 22], [I; 100], [Z; 70], [B; 0], [I; 300], [Z; 300], [(); 70000],
    );
    all!(r, ex, rnd;
        (), (Z,), (I,), (B,), (M,), (Z, Z), (Z, C), (C, Z), (I, C), (C, I), (B, C), (C, B), (D, Rev<3>), (H, H1), (M, I), (I, M),
        (B, C, D), (D, C, B), (C, Z, D), (u8, bool, Ordering), (H1, B, K<{ 1 << 31 }>), (I, I, I),
        (B, C, D, E), (u16, u16, u16, u8), (E, D, C, B), (B, C, D, E, B), (C, C, C, C, C), (B, I, C, I, D, I),
        (B, C, D, E, B, C, D), (u8, u8, u8, u8, u8, u8, u8, K<128>), (B, C, B, C, B, C, B, C), (B, C, D, B, C, D, B, C, D),
        (B, B, B, B, B, C, B, B, B, B), (C, B, B, B, D, B, B, B, B, B, E), (B, B, B, C, B, B, B, B, B, B, B, D), 
        
        
        
        ((B, C), (D, [B; 2])), (Option<C>, Result<B, C>, Box<D>), (M, I, I), (Z, M),
    );
    check_type_by(r, "(C, I, I, I, B, I, I, D, I, I, I, I, E)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12): (C, I, I, I, B, I, I, D, I, I, I, I, E)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12)));
    check_type_by(r, "(B, C, B, C, B, C, B, C, B, C, B, C, B, C)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13): (B, C, B, C, B, C, B, C, B, C, B, C, B, C)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13)));
    check_type_by(r, "(D, B, B, B, B, B, B, C, B, B, B, B, B, B, E)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14): (D, B, B, B, B, B, B, C, B, B, B, B, B, B, E)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13, x14)));
    check_type_by(r, "(C, B, B, B, B, B, B, D, B, B, B, B, B, B, B, E)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15): (C, B, B, B, B, B, B, D, B, B, B, B, B, B, B, E)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13, x14, x15)));
    check_type_by(r, "(K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<15>)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15): (K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<16>, K<15>)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13, x14, x15)));
    check_type_by(r, "(I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15): (I, I, I, I, I, I, I, I, I, I, I, I, I, I, I, I)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13, x14, x15)));
    check_type_by(r, "(C, C, C, C, C, C, C, C, C, C, C, C, C, C, C, C)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15): (C, C, C, C, C, C, C, C, C, C, C, C, C, C, C, C)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13, x14, x15)));
    check_type_by(r, "(B, B, B, B, B, B, B, B, B, B, B, B, B, B, Z, B)", ex, rnd, |(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15): (B, B, B, B, B, B, B, B, B, B, B, B, B, B, Z, B)| ((x0, x1, x2, x3, x4, x5, x6, x7), (x8, x9, x10, x11, x12, x13, x14, x15)));
    ord!(r, ex, rnd;
        [B; 5], [C; 3], [C; 6], [u8; 7], [M; 1], [I; 7], [[C; 2]; 2], (), (B,), (B, C), (C, B), (H, H1), (B, C, D), (E, D, C, B), (u16, u16, u16, u8),
        (B, C, D, E, B, C, D), (B, C, B, C, B, C, B, C), (B, B, B, C, B, B, B, B, B, B, B, D),
    );
    // an array and the same-shaped tuple agree
    for i in 0..125usize {
        r.case("array against tuple", i, |&i| {
            use ordinal_map::Ordinal;
            let Some([a, b, c]) = <[D; 3]>::from_ordinal(i) else { return Err(format!("[D; 3]::from_ordinal({i}) is None")) };
            let Some(t) = <(D, D, D)>::from_ordinal(i) else { return Err(format!("(D, D, D)::from_ordinal({i}) is None")) };
            same!((a, b, c), t, "value {i}");
            Ok(())
        });
    }
    run.finish();
}
