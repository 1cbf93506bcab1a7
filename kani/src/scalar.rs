use ordinal_map::Ordinal;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

/// `requires` v: any value. `ensures` index in range, and decoding it gives back v.
fn encode<T: Ordinal + PartialEq>(v: T, count: usize) {
    assert!(T::ORDINAL_SIZE == count, "declared number of values is the exact count");
    let o = v.ordinal();
    assert!(o < count, "index below the declared number of values");
    assert!(T::from_ordinal(o) == Some(v), "decoding the index of a value gives the value");
}

/// `requires` n: any machine word. `ensures` Some exactly below the count, with the index it was made from.
fn decode<T: Ordinal>(n: usize, count: usize) {
    assert!(T::ORDINAL_SIZE == count, "declared number of values is the exact count");
    match T::from_ordinal(n) {
        Some(v) => {
            assert!(n < count, "an index out of range yields nothing");
            assert!(v.ordinal() == n, "the value decoded from n has index n");
        }
        None => assert!(n >= count, "every index in range yields a value"),
    }
}

/// `ensures` comparing values is comparing indices.
fn order<T: Ordinal + Ord>(a: T, b: T) {
    assert!(a.cmp(&b) == a.ordinal().cmp(&b.ordinal()), "index order is value order");
}

fn any_ordering() -> Ordering {
    let n: u8 = kani::any();
    kani::assume(n < 3);
    match n {
        0 => Ordering::Less,
        1 => Ordering::Equal,
        _ => Ordering::Greater,
    }
}

macro_rules! scalar {
    ($m:ident, $t:ty, $count:expr, $any:expr) => {
        mod $m {
            use super::*;
            #[kani::proof]
            fn c01_encode() {
                let v: $t = $any;
                encode::<$t>(v, $count);
                kani::cover!(v.ordinal() == 0, "smallest index is reachable");
                kani::cover!(v.ordinal() == $count - 1, "largest index is reachable");
            }
            #[kani::proof]
            fn c01_decode() {
                let n: usize = kani::any();
                decode::<$t>(n, $count);
                kani::cover!(n < $count, "in range");
                kani::cover!(n >= $count, "out of range");
            }
            #[kani::proof]
            fn c02_order() {
                let a: $t = $any;
                let b: $t = $any;
                order::<$t>(a, b);
                kani::cover!(a < b, "less");
                kani::cover!(a == b, "equal");
                kani::cover!(a > b, "greater");
            }
        }
    };
}

scalar!(bool_, bool, 2, kani::any());
scalar!(u8_, u8, 1 << 8, kani::any());
scalar!(i8_, i8, 1 << 8, kani::any());
scalar!(u16_, u16, 1 << 16, kani::any());
scalar!(i16_, i16, 1 << 16, kani::any());
scalar!(u32_, u32, 1 << 32, kani::any());
scalar!(i32_, i32, 1 << 32, kani::any());
scalar!(nz_u8, NonZeroU8, (1 << 8) - 1, kani::any());
scalar!(nz_i8, NonZeroI8, (1 << 8) - 1, kani::any());
scalar!(nz_u16, NonZeroU16, (1 << 16) - 1, kani::any());
scalar!(nz_i16, NonZeroI16, (1 << 16) - 1, kani::any());
scalar!(nz_u32, NonZeroU32, (1 << 32) - 1, kani::any());
scalar!(nz_i32, NonZeroI32, (1 << 32) - 1, kani::any());
scalar!(nz_u64, NonZeroU64, usize::MAX, kani::any());
scalar!(nz_i64, NonZeroI64, usize::MAX, kani::any());
scalar!(nz_usize, NonZeroUsize, usize::MAX, kani::any());
scalar!(nz_isize, NonZeroIsize, usize::MAX, kani::any());
scalar!(char_, char, 0x110000 - 0x800, kani::any());
scalar!(ordering, Ordering, 3, any_ordering());

mod infallible {
    use super::*;
    #[kani::proof]
    fn c01_decode() {
        let n: usize = kani::any();
        decode::<Infallible>(n, 0);
        kani::cover!(n == 0, "zero");
    }
}
