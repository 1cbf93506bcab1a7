//! Declared number of values against the exact count, for compositions that compile.
use either::Either;
use ordinal_map::Ordinal;
use replay::*;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

type Z = K<0>;
type M = K<{ usize::MAX }>;
type H = K<{ 1 << 32 }>;

macro_rules! sizes {
    ($r:expr; $($t:ty),* $(,)?) => { $(
        $r.case("ORDINAL_SIZE", stringify!($t), |_| {
            same!(<$t as Ordinal>::ORDINAL_SIZE as u128, <$t as Spec>::count(), "<{} as Ordinal>::ORDINAL_SIZE", stringify!($t));
            Ok(())
        });
    )* };
}

fn main() {
    let mut run = Run::start("C06");
    let r = &mut run;
    sizes!(r;
        bool, Ordering, Infallible, char, u8, i8, u16, i16, u32, i32, NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32,
        NonZeroU64, NonZeroI64, NonZeroUsize, NonZeroIsize,
        Option<Z>, Option<()>, Option<bool>, Option<K<{ usize::MAX - 1 }>>, Option<Option<Option<u32>>>, Option<Infallible>,
        Result<Z, Z>, Result<Z, M>, Result<M, Z>, Result<K<{ usize::MAX - 9 }>, K<9>>, Result<u32, u32>, Result<char, Option<u8>>,
        Either<Z, Z>, Either<Z, M>, Either<M, Z>, Either<K<{ usize::MAX - 9 }>, K<9>>, Either<u32, u32>, Either<Result<bool, u8>, Option<char>>,
        Box<Z>, Box<M>, Box<Box<u32>>, Option<Box<K<{ usize::MAX - 1 }>>>,
        [Z; 0], [Z; 5], [(); 9], [M; 0], [M; 1], [H; 1], [K<{ (1 << 32) - 1 }>; 2], [K<3>; 40], [bool; 63], [u8; 7], [u16; 3], [[u8; 3]; 2], [[Z; 0]; 4], [Z; 100],
        (), (Z,), (M,), (M, ()), ((), M), (Z, M), (H, K<{ (1 << 32) - 1 }>), (u32, K<{ (1 << 32) - 1 }>), (u16, u16, u16), (bool, u8, char), (K<3>, K<5>, K<7>, K<11>),
        (u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, K<255>), (K<3>, K<3>, K<3>, K<3>, K<3>, K<3>, K<3>, K<3>, K<3>),
        (K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<15>, K<2>),
        (Option<u8>, [bool; 3], Either<u8, i8>), Option<(u16, [bool; 20])>, Result<[u8; 3], (u8, u16)>,
    );
    run.finish();
}
