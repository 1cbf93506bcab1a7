use either::Either;
use replay::*;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

macro_rules! all {
    ($r:expr, $ex:expr, $rnd:expr; $($t:ty),* $(,)?) => { $( check_type::<$t>($r, stringify!($t), $ex, $rnd); )* };
}
macro_rules! ord {
    ($r:expr, $ex:expr, $rnd:expr; $($t:ty),* $(,)?) => { $( check_order::<$t>($r, stringify!($t), $ex, $rnd); )* };
}

fn main() {
    let mut run = Run::start("C03");
    let r = &mut run;
    let ex = r.scale(300, 5000);
    let rnd = r.scale(100, 5000);
    all!(r, ex, rnd;
        Option<Infallible>, Option<()>, Option<bool>, Option<K<0>>, Option<K<1>>, Option<K<2>>, Option<K<7>>, Option<Rev<5>>,
        Option<u8>, Option<char>, Option<u32>, Option<NonZeroU32>, Option<Option<bool>>, Option<Option<Option<K<0>>>>,
        Option<K<{ usize::MAX - 1 }>>, Option<K<{ 1 << 63 }>>,
        Result<K<0>, K<0>>, Result<K<0>, K<3>>, Result<K<3>, K<0>>, Result<K<1>, K<1>>, Result<K<2>, K<5>>, Result<Rev<5>, Rev<2>>,
        Result<u32, u8>, Result<u8, char>, Result<K<{ 1 << 63 }>, K<{ (1 << 63) - 1 }>>, Result<K<{ usize::MAX - 5 }>, K<5>>,
        Result<K<5>, K<{ usize::MAX - 5 }>>, Result<Option<K<2>>, Option<bool>>, Result<bool, Ordering>,
        Either<K<0>, K<0>>, Either<K<0>, K<3>>, Either<K<3>, K<0>>, Either<K<1>, K<1>>, Either<K<2>, K<5>>, Either<Rev<5>, Rev<2>>,
        Either<u32, u8>, Either<u8, char>, Either<K<{ 1 << 63 }>, K<{ (1 << 63) - 1 }>>, Either<K<{ usize::MAX - 5 }>, K<5>>,
        Either<K<5>, K<{ usize::MAX - 5 }>>, Either<Option<K<2>>, Result<bool, K<3>>>,
        Box<K<0>>, Box<K<1>>, Box<K<9>>, Box<Rev<4>>, Box<NonZeroUsize>, Box<Option<Box<bool>>>, Box<u32>,
        Option<Result<Either<K<2>, K<3>>, Box<K<4>>>>,
    );
    ord!(r, ex, rnd;
        Option<()>, Option<bool>, Option<K<1>>, Option<K<7>>, Option<u8>, Option<char>, Option<u32>, Option<Option<bool>>,
        Option<K<{ usize::MAX - 1 }>>,
        Result<K<0>, K<3>>, Result<K<3>, K<0>>, Result<K<2>, K<5>>, Result<u32, u8>, Result<K<{ usize::MAX - 5 }>, K<5>>,
        Either<K<0>, K<3>>, Either<K<3>, K<0>>, Either<K<2>, K<5>>, Either<u32, u8>, Either<K<{ usize::MAX - 5 }>, K<5>>,
        Box<K<9>>, Box<NonZeroUsize>, Option<Result<Either<K<2>, K<3>>, Box<K<4>>>>,
    );
    run.finish();
}
