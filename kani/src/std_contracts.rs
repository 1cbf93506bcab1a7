//! The contracts of std which `overlay/model.rs` assumes, exercised on the real std. BOUNDED: sequences of
//! length `N`, up to `N + 1` operations, every element and every choice of operation symbolic. Not counted as proof.
use std::sync::atomic::{AtomicUsize, Ordering::*};

const N: usize = 3;

fn arr() -> [u8; N] {
    kani::any()
}
fn len() -> usize {
    let n: usize = kani::any();
    kani::assume(n <= N);
    n
}

/// An exact double-ended iterator whose `rem()` is `s`: every interleaving of its operations takes from the ends,
/// and `len`, `size_hint` count what is left.
fn window<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, s: &[u8], val: impl Fn(I::Item) -> u8) {
    let (mut lo, mut hi) = (0, s.len());
    let mut k = 0;
    while k < N + 1 {
        assert!(it.len() == hi - lo);
        assert!(it.size_hint() == (hi - lo, Some(hi - lo)));
        if kani::any() {
            match it.next() {
                Some(x) => { assert!(lo < hi && val(x) == s[lo]); lo += 1; }
                None => assert!(lo == hi),
            }
        } else {
            match it.next_back() {
                Some(x) => { assert!(lo < hi && val(x) == s[hi - 1]); hi -= 1; }
                None => assert!(lo == hi),
            }
        }
        k += 1;
    }
}

#[kani::proof]
#[kani::unwind(6)]
fn std_slice_iter() {
    let a = arr();
    let s = &a[..len()];
    window(s.iter(), s, |x| *x);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_slice_iter_mut() {
    let mut a = arr();
    let n = len();
    let b = a;
    window(a[..n].iter_mut(), &b[..n], |x| *x);
}
/// What is written through the items lands in the slice, each at its own place.
#[kani::proof]
#[kani::unwind(6)]
fn std_slice_iter_mut_writes() {
    let mut a = arr();
    let n = len();
    let b = a;
    let c = arr();
    {
        let mut it = a[..n].iter_mut();
        let (mut lo, mut hi) = (0, n);
        while lo < hi {
            if kani::any() { *it.next().unwrap() = c[lo]; lo += 1; } else { hi -= 1; *it.next_back().unwrap() = c[hi]; }
        }
    }
    let mut i = 0;
    while i < N { assert!(a[i] == if i < n { c[i] } else { b[i] }); i += 1; }
}
#[kani::proof]
#[kani::unwind(6)]
fn std_iter_mut_as_slice() {
    let mut a = arr();
    let b = a;
    let mut it = a.iter_mut();
    let (mut lo, mut hi) = (0, N);
    if kani::any() { it.next(); lo += 1; }
    if kani::any() { it.next_back(); hi -= 1; }
    let r: &[u8] = it.into_slice();
    assert!(*r == b[lo..hi]);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_slice_iter_clone() {
    let a = arr();
    let mut it = a.iter();
    let (mut lo, mut hi) = (0, N);
    if kani::any() { it.next(); lo += 1; }
    if kani::any() { it.next_back(); hi -= 1; }
    let c = it.clone();
    it.next();
    assert!(c.as_slice() == &a[lo..hi]);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_array_into_iter() {
    let a = arr();
    window(a.into_iter(), &a, |x| x);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_array_into_iter_clone() {
    let a = arr();
    let mut it = a.into_iter();
    let (mut lo, mut hi) = (0, N);
    if kani::any() { it.next(); lo += 1; }
    if kani::any() { it.next_back(); hi -= 1; }
    assert!(it.as_slice() == &a[lo..hi]);
    window(it.clone(), &a[lo..hi], |x| x);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_vec_into_iter() {
    let a = arr();
    let n = len();
    window(a[..n].to_vec().into_iter(), &a[..n], |x| x);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_vec_into_iter_clone() {
    let a = arr();
    let mut it = a.to_vec().into_iter();
    let (mut lo, mut hi) = (0, N);
    if kani::any() { it.next(); lo += 1; }
    if kani::any() { it.next_back(); hi -= 1; }
    assert!(it.as_slice() == &a[lo..hi]);
    let c = it.clone();
    assert!(c.as_slice() == &a[lo..hi]);
}
#[kani::proof]
#[kani::unwind(6)]
fn std_box_slice() {
    let a = arr();
    let n = len();
    let b: Box<[u8]> = a[..n].to_vec().into_boxed_slice();
    assert!(*b == a[..n]);
    let c = b.clone();
    assert!(*c == a[..n]);
    let v = b.into_vec();
    assert!(v[..] == a[..n]);
    let d: Box<[u8]> = Default::default();
    assert!(d.is_empty());
}
#[kani::proof]
#[kani::unwind(6)]
fn std_slice_get_mut() {
    let mut a = arr();
    let b = a;
    let n = len();
    let i: usize = kani::any();
    let v: u8 = kani::any();
    match a[..n].get_mut(i) {
        Some(x) => { assert!(i < n && *x == b[i]); *x = v; }
        None => assert!(i >= n),
    }
    let mut j = 0;
    while j < N { assert!(a[j] == if j == i && i < n { v } else { b[j] }); j += 1; }
}
#[kani::proof]
#[kani::unwind(6)]
fn std_vec_from_elem() {
    let x: u64 = kani::any();
    let n = len();
    let v = vec![x; n];
    assert!(v.len() == n);
    let mut i = 0;
    while i < n { assert!(v[i] == x); i += 1; }
}
#[kani::proof]
#[kani::unwind(6)]
fn std_slice_ranges() {
    let mut a = arr();
    let b = a;
    let (p, q) = (len(), len());
    kani::assume(p <= q);
    assert!(a[p..q].len() == q - p);
    let mut i = p;
    while i < q { assert!(a[p..q][i - p] == b[i]); i += 1; }
    assert!(a[..q].len() == q && a[p..].len() == N - p && a[..].len() == N);
    let v: u8 = kani::any();
    {
        let r = &mut a[p..q];
        if p < q { r[q - p - 1] = v; }
    }
    let mut i = 0;
    while i < N { assert!(a[i] == if p < q && i == q - 1 { v } else { b[i] }); i += 1; }
    a.reverse();
    let c = a;
    let mut d = c;
    d.reverse();
    let mut i = 0;
    while i < N { assert!(d[i] == c[N - 1 - i]); i += 1; }
}
#[kani::proof]
#[kani::unwind(66)]
fn std_count_ones() {
    let w: u64 = kani::any();
    let (mut n, mut i) = (0u32, 0u64);
    while i < 64 { if (w >> i) & 1 == 1 { n += 1; } i += 1; }
    assert!(w.count_ones() == n);
}
#[kani::proof]
fn std_words() {
    let w: u64 = kani::any();
    let s: u32 = kani::any();
    match w.checked_shr(s) {
        Some(r) => assert!(s < 64 && r == w >> s),
        None => assert!(s >= 64),
    }
    let t = w.trailing_zeros();
    assert!(if w == 0 { t == 64 } else { t < 64 && (w >> t) & 1 == 1 && w & ((1u64 << t) - 1) == 0 });
    let l = w.leading_zeros();
    assert!(if w == 0 { l == 64 } else { l < 64 && w >> (63 - l) == 1 });
    let b: u64 = kani::any();
    assert!(&w & b == w & b);
}
/// For the divisor the crate uses, every dividend.
#[kani::proof]
fn std_div_ceil() {
    let a: usize = kani::any();
    assert!(a.div_ceil(64) as u128 == (a as u128 + 63) / 64);
    assert!(a.div_ceil(1) == a);
}
#[kani::proof]
fn std_mem() {
    let (x, y): (u8, u8) = (kani::any(), kani::any());
    let mut d = x;
    assert!(std::mem::replace(&mut d, y) == x && d == y);
    let o: Option<u8> = kani::any();
    let mut p = o;
    assert!(p.replace(y) == o && p == Some(y));
    let mut p = o;
    assert!(std::mem::take(&mut p) == o && p.is_none());
    let mut p = o;
    assert!(p.take() == o && p.is_none());
    let mut p = o;
    assert!(*p.insert(y) == y && p == Some(y));
    let mut p = o;
    assert!(*p.get_or_insert(y) == o.unwrap_or(y) && p == Some(o.unwrap_or(y)));
    let mut d = x;
    assert!(*std::slice::from_ref(&d) == [x]);
    std::slice::from_mut(&mut d)[0] = y;
    assert!(d == y);
}
/// `array::from_fn`: the function is called on 0, 1, …, N-1 in this order and its results are kept.
#[kani::proof]
#[kani::unwind(6)]
fn std_from_fn() {
    let a = arr();
    let mut calls = 0;
    let r: [u8; N] = std::array::from_fn(|i| { assert!(i == calls); calls += 1; a[i] });
    assert!(calls == N && r == a);
}
/// `Map`, `Zip`: in order, the function called once per item asked for; `zip` stops with the shorter.
#[kani::proof]
#[kani::unwind(6)]
fn std_map_zip() {
    let (a, b) = (arr(), arr());
    let (n, m) = (len(), len());
    let mut calls = 0;
    {
        let mut it = a[..n].iter().map(|x| { let r = x ^ b[calls]; calls += 1; r });
        let mut i = 0;
        while i < N { assert!(it.next() == if i < n { Some(a[i] ^ b[i]) } else { None }); i += 1; }
    }
    assert!(calls == n);
    let mut z = a[..n].iter().zip(b[..m].iter());
    let k = if n < m { n } else { m };
    let mut i = 0;
    while i < N { assert!(z.next() == if i < k { Some((&a[i], &b[i])) } else { None }); i += 1; }
}
/// Ranges of machine words, full width.
#[kani::proof]
fn std_range() {
    let (s, e): (usize, usize) = (kani::any(), kani::any());
    let n = if s <= e { e - s } else { 0 };
    let mut r = s..e;
    assert!(r.len() == n && r.size_hint() == (n, Some(n)) && r.clone().count() == n);
    assert!(r.clone() == (s..e));
    if kani::any() {
        let x = r.next();
        assert!(if n == 0 { x.is_none() && r == (s..e) } else { x == Some(s) && r == (s + 1..e) });
    } else {
        let x = r.next_back();
        assert!(if n == 0 { x.is_none() && r == (s..e) } else { x == Some(e - 1) && r == (s..e - 1) });
    }
    let k: usize = kani::any();
    let mut r = s..e;
    let x = r.nth(k);
    assert!(if k < n { x == Some(s + k) && r == (s + k + 1..e) } else { x.is_none() && r.len() == 0 });
}
/// `AtomicUsize` from one thread: one operation is one event on the cell.
#[kani::proof]
fn std_atomic_sequential() {
    let v: usize = kani::any();
    let c = AtomicUsize::new(v);
    assert!(c.load(SeqCst) == v);
    let w: usize = kani::any();
    c.store(w, Release);
    assert!(c.load(Acquire) == w);
    let (x, y): (usize, usize) = (kani::any(), kani::any());
    let r = c.compare_exchange(x, y, AcqRel, Relaxed);
    assert!(if x == w { r == Ok(w) && c.load(Relaxed) == y } else { r == Err(w) && c.load(Relaxed) == w });
    let now = c.load(SeqCst);
    let z: usize = kani::any();
    assert!(c.swap(z, Relaxed) == now && c.load(SeqCst) == z);
    match c.compare_exchange_weak(x, y, SeqCst, SeqCst) {
        Ok(o) => assert!(o == x && x == z && c.load(SeqCst) == y),
        Err(o) => assert!(o == z && c.load(SeqCst) == z),
    }
}
/// `MaybeUninit` slots: what is written is what is read; dropping a slot drops nothing.
#[kani::proof]
fn std_maybe_uninit() {
    use std::mem::MaybeUninit;
    static mut DROPS: u8 = 0;
    struct D(u8);
    impl Drop for D {
        fn drop(&mut self) { unsafe { DROPS += 1 } }
    }
    let x: u8 = kani::any();
    unsafe {
        {
            let mut m = MaybeUninit::<D>::uninit();
            m.write(D(x));
            assert!(m.assume_init_ref().0 == x);
            let v = m.assume_init_read();
            assert!(DROPS == 0 && v.0 == x);
            drop(v);
            assert!(DROPS == 1);
        }
        assert!(DROPS == 1);
        let mut m = MaybeUninit::new(D(x));
        m.assume_init_drop();
        assert!(DROPS == 2);
        let p: *mut MaybeUninit<D> = &mut m;
        (*p.cast::<D>()).0 = x;
        drop(m);
        let _ = MaybeUninit::new(D(x));
        assert!(DROPS == 2);
        let n = MaybeUninit::new(D(x)).assume_init();
        std::mem::forget(n);
        assert!(DROPS == 2);
        let mut two = [MaybeUninit::new(D(x)), MaybeUninit::new(D(1))];
        std::ptr::drop_in_place(&mut two[..]);
        assert!(DROPS == 2);
        let moved: [D; 2] = std::mem::transmute_copy(&two);
        assert!(moved[0].0 == x && moved[1].0 == 1);
        drop(moved);
        drop(two);
        assert!(DROPS == 4);
    }
}
