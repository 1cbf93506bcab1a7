use ordinal_map::Ordinal;
use replay::*;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

fn main() {
    let mut run = Run::start("C01");
    let r = &mut run;
    let ex = r.scale(4096, 70_000);
    let rnd = r.scale(400, 60_000);
    check_type::<bool>(r, "bool", ex, rnd);
    check_type::<Ordering>(r, "Ordering", ex, rnd);
    check_type::<Infallible>(r, "Infallible", ex, rnd);
    check_type::<u8>(r, "u8", ex, rnd);
    check_type::<i8>(r, "i8", ex, rnd);
    check_type::<u16>(r, "u16", 70_000, rnd);
    check_type::<i16>(r, "i16", 70_000, rnd);
    check_type::<u32>(r, "u32", ex, rnd);
    check_type::<i32>(r, "i32", ex, rnd);
    check_type::<char>(r, "char", ex, rnd);
    check_type::<NonZeroU8>(r, "NonZeroU8", ex, rnd);
    check_type::<NonZeroI8>(r, "NonZeroI8", ex, rnd);
    check_type::<NonZeroU16>(r, "NonZeroU16", 70_000, rnd);
    check_type::<NonZeroI16>(r, "NonZeroI16", 70_000, rnd);
    check_type::<NonZeroU32>(r, "NonZeroU32", ex, rnd);
    check_type::<NonZeroI32>(r, "NonZeroI32", ex, rnd);
    check_type::<NonZeroU64>(r, "NonZeroU64", ex, rnd);
    check_type::<NonZeroI64>(r, "NonZeroI64", ex, rnd);
    check_type::<NonZeroUsize>(r, "NonZeroUsize", ex, rnd);
    check_type::<NonZeroIsize>(r, "NonZeroIsize", ex, rnd);
    // every char, and the neighbourhood of the gap by name
    for block in 0..0x110u32 {
        r.case("char values", block, |&b| {
            for c in (b << 12..(b + 1) << 12).filter_map(char::from_u32) {
                let o = c.ordinal();
                let want = if (c as u32) < 0xd800 { c as usize } else { c as usize - 0x800 };
                same!(o, want, "ordinal of {c:?}");
                same!(char::from_ordinal(o), Some(c), "char::from_ordinal({o})");
            }
            Ok(())
        });
    }
    if r.thorough {
        // every value of the 32-bit integers
        for block in 0..1u64 << 12 {
            r.case("32-bit values", block, |&b| {
                for i in b << 20..(b + 1) << 20 {
                    let i = i as usize;
                    let u = i as u32;
                    let s = (i as i64 + i32::MIN as i64) as i32;
                    holds!(u.ordinal() == i && u32::from_ordinal(i) == Some(u), "u32 value {u}");
                    holds!(s.ordinal() == i && i32::from_ordinal(i) == Some(s), "i32 value {s}");
                }
                Ok(())
            });
        }
    }
    run.finish();
}
