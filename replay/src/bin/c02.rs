use replay::*;
use std::cmp::Ordering;
use std::num::*;

fn main() {
    let mut run = Run::start("C02");
    let r = &mut run;
    let ex = r.scale(1000, 30_000);
    let rnd = r.scale(600, 100_000);
    check_order::<bool>(r, "bool", ex, rnd);
    check_order::<Ordering>(r, "Ordering", ex, rnd);
    check_order::<u8>(r, "u8", ex, rnd);
    check_order::<i8>(r, "i8", ex, rnd);
    check_order::<u16>(r, "u16", 70_000, rnd);
    check_order::<i16>(r, "i16", 70_000, rnd);
    check_order::<u32>(r, "u32", ex, rnd);
    check_order::<i32>(r, "i32", ex, rnd);
    check_order::<char>(r, "char", 70_000, rnd);
    check_order::<NonZeroU8>(r, "NonZeroU8", ex, rnd);
    check_order::<NonZeroI8>(r, "NonZeroI8", ex, rnd);
    check_order::<NonZeroU16>(r, "NonZeroU16", 70_000, rnd);
    check_order::<NonZeroI16>(r, "NonZeroI16", 70_000, rnd);
    check_order::<NonZeroU32>(r, "NonZeroU32", ex, rnd);
    check_order::<NonZeroI32>(r, "NonZeroI32", ex, rnd);
    check_order::<NonZeroU64>(r, "NonZeroU64", ex, rnd);
    check_order::<NonZeroI64>(r, "NonZeroI64", ex, rnd);
    check_order::<NonZeroUsize>(r, "NonZeroUsize", ex, rnd);
    check_order::<NonZeroIsize>(r, "NonZeroIsize", ex, rnd);
    run.finish();
}
