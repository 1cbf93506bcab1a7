"""Planted bugs (author side).  See seedgen.py."""
SEEDS = []
M = 'ordinal-map/src/'
D = 'ordinal-map-derive/src/ordinal.rs'

def seed(id, prop, edits, demo, needs, what, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, what=what, **kw))

PRE = 'use ordinal_map::*;\n'

seed('c01-nzi32-trunc', 'C01',
 [(M+'ordinal/impls/non_zero.rs', 'Some(rem) => NonZeroI32::new(i32::try_from(rem + 1).ok()?)',
   'Some(rem) => NonZeroI32::new(i32::try_from((rem + 1) as u32).ok()?)')],
 '''use ordinal_map::Ordinal; use std::num::NonZeroI32;
fn main() {
    let o = (1usize << 32) + (1usize << 31) + 5;
    assert!(o >= NonZeroI32::ORDINAL_SIZE);
    assert_eq!(None, NonZeroI32::from_ordinal(o));
}
''', 'an out-of-range ordinal at or above 2^32 + 2^31 (the tests only try SIZE and usize::MAX)',
 'NonZeroI32::from_ordinal returns a value for an ordinal that is not smaller than ORDINAL_SIZE')

seed('c01-u16-trunc', 'C01',
 [(M+'ordinal/impls/primitive.rs', 'u16::try_from(ordinal).ok()\n', 'u16::try_from(ordinal as u32).ok()\n')],
 '''use ordinal_map::Ordinal;
fn main() {
    assert_eq!(None, u16::from_ordinal((1usize << 32) + 7));
}
''', 'an ordinal at or above 2^32 whose low 32 bits are below 65536',
 'u16::from_ordinal wraps large ordinals around')

seed('c02-nzi32-negatives', 'C02',
 [(M+'ordinal/impls/non_zero.rs', 'self.get().abs_diff(i32::MIN) as usize', 'self.get().abs_diff(-1) as usize'),
  (M+'ordinal/impls/non_zero.rs', '''            None => NonZeroI32::new(
                i32::MIN
                    .checked_add_unsigned(u32::try_from(ordinal).unwrap())
                    .unwrap(),
            ),''', '''            None => NonZeroI32::new(-1 - i32::try_from(ordinal).unwrap()),''')],
 '''use ordinal_map::Ordinal; use std::num::NonZeroI32;
fn main() {
    let a = NonZeroI32::new(-5).unwrap(); let b = NonZeroI32::new(-4).unwrap();
    assert_eq!(Some(a), NonZeroI32::from_ordinal(a.ordinal()));
    assert!(a.ordinal() < b.ordinal());
}
''', 'two different negative NonZeroI32 values compared by ordinal (both functions stay mutually inverse)',
 'ordinals of negative NonZeroI32 run against the order of the values')

seed('c03-result-or', 'C03',
 [(M+'ordinal/impls/either.rs', 'Either::Right(b) => A::ORDINAL_SIZE + b.ordinal(),', 'Either::Right(b) => A::ORDINAL_SIZE | b.ordinal(),')],
 '''use ordinal_map::Ordinal; use either::Either;
fn main() {
    let mut seen = Vec::new();
    for b in u8::all_values() { seen.push(Either::<bool, u8>::Right(b).ordinal()); }
    for (i, o) in seen.iter().enumerate() { assert_eq!(2 + i, *o); }
}
''', 'a Right payload whose ordinal shares bits with the size of the left type',
 'Either::Right ordinals collide')

seed('c03-result-err-trunc', 'C03',
 [(M+'ordinal/impls/std.rs', 'B::from_ordinal(ordinal - A::ORDINAL_SIZE).map(Err)', 'B::from_ordinal((ordinal - A::ORDINAL_SIZE) as u32 as usize).map(Err)')],
 '''use ordinal_map::Ordinal;
fn main() {
    assert_eq!(None, Result::<bool, bool>::from_ordinal((1usize << 32) + 3));
}
''', 'an ordinal at or above 2^32', 'Result::from_ordinal accepts ordinals that are out of range')

seed('c04-array-swap', 'C04',
 [(M+'ordinal/impls/array.rs', '            array.reverse();\n', '            if N > 1 {\n                array.swap(0, N - 1);\n            }\n')],
 '''use ordinal_map::Ordinal;
fn main() {
    let a = [false, true, false, false];
    assert_eq!(Some(a), <[bool; 4]>::from_ordinal(a.ordinal()));
}
''', 'arrays of at least four elements whose middle elements differ', 'from_ordinal of arrays permutes the middle elements')

seed('c04-tuple-radix', 'C04',
 [(D, '''                    SizeExpr::product(rem_tys.iter().copied().map(|e| SizeExpr::ordinal_size(e)));''',
      '''                    SizeExpr::product(rem_tys.iter().take(2).copied().map(|e| SizeExpr::ordinal_size(e)));''')],
 '''use ordinal_map::Ordinal;
fn main() {
    let mut next = 0;
    for a in bool::all_values() { for b in bool::all_values() { for c in bool::all_values() { for d in bool::all_values() {
        assert_eq!(next, (a, b, c, d).ordinal()); next += 1;
    } } } }
}
''', 'a tuple or struct with at least four fields', 'the radix of the first field of a tuple ignores all but two of the following fields')

seed('c05-variant-size', 'C05',
 [(D, '''            .map(|v| struct_ordinal_size(v.fields.iter().map(|f| &f.ty)));''',
      '''            .map(|v| struct_ordinal_size(v.fields.iter().map(|f| &f.ty).take(2)));''')],
 '''use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, PartialEq, Clone)]
enum E { A(bool, bool, bool), B }
fn main() {
    assert_eq!(9, E::ORDINAL_SIZE);
    assert_eq!(8, E::B.ordinal());
    assert_eq!(Some(E::A(true, true, true)), E::from_ordinal(7));
}
''', 'an enum variant with at least three fields whose third field has more than one value',
 'the size of such a variant is too small, so its ordinals overlap the next variant')

seed('c07-last-exhausted', 'C07',
 [(M+'values.rs', '''    fn last(mut self) -> Option<Self::Item>
    where
        Self: Sized,
    {
        self.next_back()
    }''', '''    fn last(self) -> Option<Self::Item>
    where
        Self: Sized,
    {
        T::from_ordinal(self.range.end.checked_sub(1)?)
    }''')],
 '''use ordinal_map::Ordinal;
fn main() {
    let mut i = bool::all_values();
    i.next(); i.next();
    assert_eq!(None, i.clone().next());
    assert_eq!(None, i.last());
}
''', 'last() on an iterator that is already exhausted', 'last() yields a value that was already yielded')

seed('c07-size-hint', 'C07',
 [(M+'values.rs', '''        self.range.size_hint()
''', '''        let n = T::ORDINAL_SIZE - self.range.start;
        (n, Some(n))
''')],
 '''use ordinal_map::Ordinal;
fn main() {
    let mut i = u8::all_values();
    i.next_back();
    assert_eq!((255, Some(255)), i.size_hint());
}
''', 'size_hint after next_back', 'size_hint counts values already taken from the back')

seed('c08-first-wins', 'C08',
 [(M+'map/map.rs', '            map.insert(k, v);\n', '            if map.get(&k).is_none() {\n                map.insert(k, v);\n            }\n')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<bool, u32> = [(true, 1), (false, 2), (true, 3)].into_iter().collect();
    assert_eq!(Some(&3), m.get(&true));
}
''', 'a duplicate key in the collected sequence', 'collecting keeps the first instead of the last value')

seed('c08-unit-key', 'C08',
 [(M+'map/map.rs', '        if self.map.is_empty() {\n', '        if self.map.len() <= 1 {\n')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<(), u32>::new();
    assert_eq!(None, m.insert((), 1));
    assert_eq!(Some(1), m.insert((), 2));
}
''', 'a key type with exactly one value and a second insert or entry call', 'the map forgets its entry')

seed('c08-is-empty', 'C08',
 [(M+'map/map.rs', '        self.iter().next().is_none()\n', '        self.map.is_empty()\n')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<u8, u32>::new();
    m.insert(3, 1);
    m.remove(&3);
    assert_eq!(0, m.len());
    assert!(m.is_empty());
}
''', 'is_empty after everything was removed again', 'is_empty is false for a map with no entries')

seed('c09-insert-keeps', 'C09',
 [(M+'map/array_map.rs', '        self.map.get_mut(&key).replace(value)\n', '        let slot = self.map.get_mut(&key);\n        let prev = slot.take();\n        slot.get_or_insert(value);\n        if self.map.len() == 1 {\n            return None;\n        }\n        prev\n')],
 '''use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let mut m = OrdinalArrayMap::<(), u32, 1>::new();
    assert_eq!(None, m.insert((), 1));
    assert_eq!(Some(1), m.insert((), 2));
}
''', 'a key type with one value', 'insert does not return the previous value')

seed('c10-init-after-error', 'C10',
 [(M+'map/total/map.rs', '''        for v in K::all_values() {
            map.push(init(v)?);
        }
''', '''        let mut error = None;
        for v in K::all_values() {
            match init(v) {
                Ok(value) => map.push(value),
                Err(e) => error = error.or(Some(e)),
            }
        }
        if let Some(e) = error {
            return Err(e);
        }
''')],
 '''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let mut calls = 0;
    let r = OrdinalTotalMap::<u8, u8>::try_new(|k| { calls += 1; if k < 3 { Ok(k) } else { Err(k) } });
    assert_eq!(Err(3), r.map(|_| ()));
    assert_eq!(4, calls);
}
''', 'an initialiser that fails and is observed afterwards', 'the initialiser is called again after it has failed')

seed('c10-clone-from-start', 'C10',
 [(M+'map/total/map.rs', '        mem::replace(&mut self.map[key.ordinal()], value)\n',
   '        let i = key.ordinal() & (self.map.len().next_power_of_two() - 1) % self.map.len().max(256);\n        mem::replace(&mut self.map[i], value)\n')],
 '''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    // 256 keys keep working, 65536 do not have to
    let mut bad = 0;
    let mut m = OrdinalTotalMap::<(u8, bool, bool), usize>::new(|_| 0);
    for k in <(u8, bool, bool) as ordinal_map::Ordinal>::all_values() { m.insert(k, 1); }
    for (_, v) in m.iter() { if *v != 1 { bad += 1; } }
    let mut m = OrdinalTotalMap::<[bool; 3], usize>::new(|_| 0);
    for k in <[bool; 3] as ordinal_map::Ordinal>::all_values() { m.insert(k, 1); }
    for (_, v) in m.iter() { if *v != 1 { bad += 1; } }
    let mut m = OrdinalTotalMap::<(u8, Option<bool>), usize>::new(|_| 0);
    for k in <(u8, Option<bool>) as ordinal_map::Ordinal>::all_values() { m.insert(k, 1); }
    for (_, v) in m.iter() { if *v != 1 { bad += 1; } }
    assert_eq!(0, bad);
}
''', 'a key type whose number of values is above 256 and not a power of two', 'insert writes to a different key')

seed('c11-back-gap', 'C11',
 [(M+'map/iter.rs', '''impl<K: Ordinal, V> DoubleEndedIterator for IntoIter<K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        loop {
            let (k, v) = self.iter.next_back()?;
            if let Some(v) = v {
                return Some((k, v));
            }
        }
    }''', '''impl<K: Ordinal, V> DoubleEndedIterator for IntoIter<K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        let (k, v) = self.iter.next_back()?;
        v.map(|v| (k, v))
    }''')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let m: OrdinalMap<u8, u32> = [(1, 1), (9, 2)].into_iter().collect();
    assert_eq!(vec![(9, 2), (1, 1)], m.into_iter().rev().collect::<Vec<_>>());
}
''', 'backward iteration of an owning iterator over a map with a gap', 'backward iteration stops at the first absent key')

seed('c11-keys-hint', 'C11',
 [(M+'map/iter.rs', '''impl<'a, K: Ordinal, V> Iterator for Keys<'a, K, V> {
    type Item = K;

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next().map(|(k, _)| k)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }''', '''impl<'a, K: Ordinal, V> Iterator for Keys<'a, K, V> {
    type Item = K;

    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        self.iter.next().map(|(k, _)| k)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (_, upper) = self.iter.size_hint();
        (upper.map_or(0, |n| n.min(1)), upper)
    }''')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<bool, u32>::new();
    m.insert(true, 1); m.remove(&true);
    let k = m.keys();
    let lo = k.size_hint().0;
    assert!(lo <= k.count());
}
''', 'size_hint of keys() of an allocated map with no entries left', 'the lower bound exceeds the number of keys')

seed('c12-enum-back', 'C12',
 [(M+'map/enumerate.rs', 'let k = K::from_ordinal(self.next + self.iter.len()).unwrap();', 'let k = K::from_ordinal(self.iter.len()).unwrap();')],
 '''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<u8, u8>::new(|k| k);
    let mut i = m.iter();
    i.next();
    assert_eq!(Some((255, &255)), i.next_back());
}
''', 'next_back after next', 'items taken from the back carry the wrong key once the front has moved')

seed('c12-enum-clone', 'C12',
 [(M+'map/enumerate.rs', '''        OrdinalEnumerate {
            next: self.next,
            iter: self.iter.clone(),
            _phantom: PhantomData,
        }''', '''        OrdinalEnumerate::new(self.iter.clone(), 0)''')],
 '''use ordinal_map::map::total::OrdinalTotalMap;
fn main() {
    let m = OrdinalTotalMap::<u8, u8>::new(|k| k);
    let mut i = m.into_iter();
    i.next();
    assert_eq!(Some((1, 1)), i.clone().next());
}
''', 'cloning an iterator that has already advanced', 'the clone numbers its items from zero again')

seed('c13-drain-partial', 'C13',
 [(M+'map/iter.rs', '        for _ in self {}\n', '        if self.iter.len() == K::ORDINAL_SIZE {\n            for _ in self {}\n        }\n')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u32> = [(1, 1), (9, 2)].into_iter().collect();
    m.drain().next();
    assert_eq!(0, m.len());
}
''', 'dropping a drain that was advanced but not exhausted', 'entries after the point reached stay in the map')

seed('c14-or-insert', 'C14',
 [(M+'map/entry.rs', 'Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),', 'Entry::Occupied(entry) => entry.entry.insert(value),')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<u8, u32>::new();
    m.insert(3, 1);
    *m.entry(3).or_insert(100) += 1;
    assert_eq!(Some(&2), m.get(&3));
}
''', 'or_insert on an occupied entry', 'the present value is overwritten')

seed('c14-entry-reset', 'C14',
 [(M+'map/map.rs', '''    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
        self.init_full_map();
''', '''    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
        if self.is_empty() || self.len() == K::ORDINAL_SIZE {
            self.map = Box::default();
        }
        self.init_full_map();
''')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m = OrdinalMap::<bool, u32>::new();
    m.insert(true, 1);
    m.insert(false, 2);
    m.entry(true);
    assert_eq!(Some(&2), m.get(&false));
}
''', 'entry() on a map that holds every key', 'asking for an entry removes the other entries')

seed('c15-word-trunc', 'C15',
 [(M+'set/set_ref.rs', 'self.words.get(ordinal.ordinal() / u64::BITS as usize)', 'self.words.get((ordinal.ordinal() as u16 as u64 / u64::BITS as u64) as usize)')],
 '''use ordinal_map::set::OrdinalSet;
fn main() {
    let mut s = OrdinalSet::<(u16, bool)>::new();
    s.insert((40000, true));
    assert!(s.contains(&(40000, true)));
    assert!(!s.contains(&(40000 - 32768, true)));
}
''', 'an element type with more than 65536 values', 'large ordinals alias small ones')

seed('c16-shift32', 'C16',
 [(M+'set/set64.rs', '        self.set |= 1 << ordinal.ordinal();\n        r\n', '        self.set |= 1u32.wrapping_shl(ordinal.ordinal() as u32) as u64;\n        r\n')],
 '''use ordinal_map::set::OrdinalSet64;
fn main() {
    let mut s = OrdinalSet64::<(bool, bool, bool, bool, bool, bool)>::new();
    let v = (true, false, false, false, false, true);
    assert!(s.insert(v));
    assert!(s.contains(&v));
}
''', 'an element whose ordinal is at least 32', 'insert sets the wrong bit')

seed('c17-iter-clone', 'C17',
 [(M+'set/iter.rs', '''impl<'a, T> Clone for Iter<'a, T> {
    #[inline]
    fn clone(&self) -> Self {
        Iter {
            iter: self.iter.clone(),
            set: self.set.clone(),
        }
    }''', '''impl<'a, T: Ordinal> Clone for Iter<'a, T> {
    #[inline]
    fn clone(&self) -> Self {
        Iter::new(self.set.clone())
    }''')],
 '''use ordinal_map::set::OrdinalSet;
fn main() {
    let s: OrdinalSet<u8> = [1, 5].into_iter().collect();
    let mut i = s.iter();
    i.next();
    assert_eq!(Some(5), i.clone().next());
}
''', 'cloning a set iterator that has advanced', 'the clone starts over')

seed('c17-iter64-top', 'C17',
 [(M+'set/set64.rs', '''            self.set &= !(1 << ordinal);
            Some(T::from_ordinal(ordinal as usize).unwrap())
        }
    }
''', '''            self.set &= u64::MAX.wrapping_shl(ordinal + 1);
            Some(T::from_ordinal(ordinal as usize).unwrap())
        }
    }
''')],
 '''use ordinal_map::set::OrdinalSet64;
fn main() {
    let mut s = OrdinalSet64::<(bool, bool, bool, bool, bool, bool)>::new();
    s.insert((true, true, true, true, true, true));
    let mut i = s.iter();
    assert!(i.next().is_some());
    assert!(i.next().is_none());
}
''', 'a type with 64 values whose last value is in the set', 'the last value is yielded for ever')

seed('c18-drop-first', 'C18',
 [(M+'array_builder.rs', '        for i in 0..self.filled {\n', '        for i in 1..self.filled {\n')],
 '''use ordinal_map::map::total::OrdinalTotalArrayMap; use std::rc::Rc;
fn main() {
    let rc = Rc::new(());
    let r = OrdinalTotalArrayMap::<u8, Rc<()>, 256>::try_new(|k| if k < 5 { Ok(rc.clone()) } else { Err(()) });
    assert!(r.is_err());
    assert_eq!(1, Rc::strong_count(&rc));
}
''', 'an initialiser that fails (or panics) after at least one value was made', 'the first value made is leaked')

seed('c18-drop-panicking', 'C18',
 [(M+'array_builder.rs', '        for i in 0..self.filled {\n', '        if std::thread::panicking() {\n            return;\n        }\n        for i in 0..self.filled {\n')],
 '''use ordinal_map::map::total::OrdinalTotalArrayMap; use std::rc::Rc;
fn main() {
    let rc = Rc::new(());
    let rc2 = rc.clone();
    std::panic::set_hook(Box::new(|_| ()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move ||
        OrdinalTotalArrayMap::<u8, Rc<()>, 256>::new(|k| if k < 5 { rc2.clone() } else { panic!() })));
    assert!(r.is_err());
    assert_eq!(1, Rc::strong_count(&rc));
}
''', 'an initialiser that panics', 'values made before the panic are leaked')

seed('c19-cas-split', 'C19',
 [(M+'atomic.rs', '''        let res = self
            .atomic
            .compare_exchange(old_ord, new_ord, success, failure);
''', '''        let cur = self.atomic.load(failure);
        let res = if cur == old_ord {
            self.atomic.store(new_ord, success);
            Ok(cur)
        } else {
            Err(cur)
        };
''')],
 '''use ordinal_map::AtomicOrdinal; use std::sync::atomic::{AtomicUsize, Ordering::*};
fn main() {
    // every round has exactly one winner
    for _ in 0..40 {
        let rounds = 2000usize;
        let cells: Vec<AtomicOrdinal<bool>> = (0..rounds).map(|_| AtomicOrdinal::new(false)).collect();
        let wins = AtomicUsize::new(0);
        let gate = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| {
                    gate.fetch_add(1, SeqCst);
                    while gate.load(SeqCst) < 4 {}
                    for c in &cells {
                        if c.compare_exchange(false, true, Release, Relaxed).is_ok() { wins.fetch_add(1, SeqCst); }
                    }
                });
            }
        });
        assert_eq!(rounds, wins.load(SeqCst));
    }
}
''', 'two threads inside compare_exchange at the same time', 'two compare_exchange calls with the same expected value both succeed')

seed('c20-as-mut-order', 'C20',
 [(M+'array_as_mut.rs', '''    while let Some((first, rest)) = array.split_first_mut() {
        result.push(first);
        array = rest;
    }''', '''    while let Some((last, rest)) = array.split_last_mut() {
        result.push(last);
        array = rest;
    }''')],
 '''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let mut m = OrdinalTotalArrayMap::<u8, u8, 256>::new(|k| k);
    assert_eq!(3, **m.as_mut().get(&3));
}
''', 'as_mut', 'the references belong to other keys')

seed('c20-zip-order', 'C20',
 [(M+'map/total/array_map.rs', 'map: array_from_iter(self.map.into_iter().zip(other.map)),',
   'map: array_from_iter(self.map.into_iter().zip(other.into_iter().rev().map(|(_, w)| w))),')],
 '''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let a = OrdinalTotalArrayMap::<u8, u8, 256>::new(|k| k);
    let b = OrdinalTotalArrayMap::<u8, u8, 256>::new(|k| k);
    assert_eq!((3, 3), *a.zip(b).get(&3));
}
''', 'zip of two maps whose second map is not symmetric', 'values of the second map are attached to other keys')

seed('c21-intoiter-debug', 'C21',
 [(M+'map/total/iter.rs', '''impl<K, V, const S: usize> IntoIterArray<K, V, S> {
    #[inline]
    pub(crate) fn new(iter: array::IntoIter<V, S>) -> Self {
        IntoIterArray {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), self.iter.next)
    }''', '''impl<K, V, const S: usize> IntoIterArray<K, V, S> {
    #[inline]
    pub(crate) fn new(iter: array::IntoIter<V, S>) -> Self {
        IntoIterArray {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), S - self.iter.iter.len())
    }''')],
 '''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    let m = OrdinalTotalArrayMap::<bool, u8, 2>::new(|k| k as u8);
    let mut i = m.into_iter();
    i.next_back();
    assert_eq!("[(false, 0)]", format!("{i:?}"));
}
''', 'formatting an owning iterator after next_back', 'the formatted keys are shifted')

seed('c05-const-u8', 'C05',
 [(D, 'let c = syn::LitInt::new(&format!("{value}usize"), proc_macro2::Span::call_site());',
      'let c = syn::LitInt::new(&format!("{}usize", value as u8), proc_macro2::Span::call_site());')],
 """use ordinal_map::Ordinal;
#[derive(Ordinal, Debug, PartialEq, Clone, Copy)]
enum E {""" + ', '.join('V%d' % i for i in range(300)) + """}
fn main() {
    assert_eq!(300, E::ORDINAL_SIZE);
    assert_eq!(299, E::V299.ordinal());
    assert_eq!(Some(E::V270), E::from_ordinal(270));
}
""", 'a derived enum with more than 255 variants without fields', 'constants in the generated code wrap at 256')

seed('c06-array-wrap', 'C06',
 [(M+'ordinal/impls/array.rs', 's = s.checked_mul(T::ORDINAL_SIZE).unwrap();', 's = s.wrapping_mul(T::ORDINAL_SIZE);')],
 """use ordinal_map::Ordinal;
// must not compile: [u32; 3] has 2^96 values
fn main() { println!("{}", <[u32; 3]>::ORDINAL_SIZE); }
""", 'an array type with more than 2^64 values', 'the size of such an array type wraps around instead of failing to compile', must_not_compile=True)

seed('c06-result-saturate', 'C06',
 [(M+'ordinal/impls/std.rs', 'const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + B::ORDINAL_SIZE;', 'const ORDINAL_SIZE: usize = A::ORDINAL_SIZE.saturating_add(B::ORDINAL_SIZE);')],
 """use ordinal_map::Ordinal;
// must not compile: it has 2^64 + 1 values
fn main() { println!("{}", <Result<std::num::NonZeroUsize, bool>>::ORDINAL_SIZE); }
""", 'a Result whose sides together have more than usize::MAX values', 'the declared number of values is too small', must_not_compile=True)

seed('c09-is-empty-hint', 'C09',
 [(M+'map/array_map.rs', '        self.iter().next().is_none()\n', '        self.iter().size_hint().1 == Some(0)\n')],
 """use ordinal_map::map::OrdinalArrayMap;
fn main() {
    let m = OrdinalArrayMap::<u8, u32, 256>::new();
    assert!(m.is_empty());
}
""", 'is_empty of a map without entries over a type with values', 'is_empty is false for an empty map')

seed('c13-drain-back', 'C13',
 [(M+'map/iter.rs', """    fn next_back(&mut self) -> Option<Self::Item> {
        loop {
            let (k, v) = self.iter.next_back()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }""", """    fn next_back(&mut self) -> Option<Self::Item> {
        let (k, v) = self.iter.next_back()?;
        mem::take(v).map(|v| (k, v))
    }""")],
 """use ordinal_map::map::OrdinalMap;
fn main() {
    let mut m: OrdinalMap<u8, u32> = [(1, 1), (9, 2)].into_iter().collect();
    assert_eq!(vec![(9, 2), (1, 1)], m.drain().rev().collect::<Vec<_>>());
}
""", 'draining from the back a map with a gap', 'the drain yields nothing although entries are left')

seed('c16-contains32', 'C16',
 [(M+'set/set64.rs', '        self.set & (1 << ordinal.ordinal()) != 0\n', '        (self.set as u32).wrapping_shr(ordinal.ordinal() as u32) & 1 != 0\n')],
 """use ordinal_map::set::OrdinalSet64;
fn main() {
    let mut s = OrdinalSet64::<(bool, bool, bool, bool, bool, bool)>::new();
    s.insert((true, false, false, false, false, true));
    assert!(s.contains(&(true, false, false, false, false, true)));
    assert!(!s.contains(&(false, false, false, false, false, true)));
}
""", 'a type with more than 32 values', 'contains looks at the wrong bit for ordinals of at least 32')

# ---- second generation: changes the checks of an earlier version missed
seed('c10-array-index-16bit', 'C10',
 [(M+'map/total/array_map.rs', '''    fn index_mut(&mut self, index: &'a K) -> &mut Self::Output {
        &mut self.map[index.ordinal()]''', '''    fn index_mut(&mut self, index: &'a K) -> &mut Self::Output {
        &mut self.map[index.ordinal() & 0xffff]''')],
 '''use ordinal_map::map::total::OrdinalTotalArrayMap;
fn main() {
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        let mut m = OrdinalTotalArrayMap::<(u16, bool), u8, 131072>::new(|_| 0);
        m[&(40000, true)] = 7;
        assert_eq!(7, m[&(40000, true)]);
        assert_eq!(1, m.iter().filter(|(_, v)| **v == 7).count());
    }).unwrap().join().unwrap();
}
''', 'an array map of more than 65536 keys, written through IndexMut at a key above that',
 'IndexMut of the total array map addresses another key\'s value')

seed('c07-nth-overflow', 'C07',
 [(M+'values.rs', '''    #[inline]
    fn count(self) -> usize
''', '''    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.range.start = self.range.start.wrapping_add(n);
        self.next()
    }

    #[inline]
    fn count(self) -> usize
''')],
 '''use ordinal_map::Ordinal;
fn main() {
    let mut it = u8::all_values();
    it.next();
    it.next();
    assert_eq!(None, it.nth(usize::MAX));
    let mut it = bool::all_values();
    assert_eq!(None, it.nth(5));
    assert_eq!(0, it.count());
}
''', 'nth with an argument that wraps the position around, or len() after skipping past the end',
 'skipping beyond the end of the values restarts the iteration or breaks the length')

seed('c17-iter64-nth63', 'C17',
 [(M+'set/set64.rs', '''impl<T: Ordinal> Iterator for Iter64<T> {
    type Item = T;
''', '''impl<T: Ordinal> Iterator for Iter64<T> {
    type Item = T;

    fn nth(&mut self, n: usize) -> Option<T> {
        for _ in 0..n {
            self.set &= self.set.checked_sub(1)?;
        }
        if n >= 63 {
            return None;
        }
        self.next()
    }
''')],
 '''use ordinal_map::set::OrdinalSet64;
fn main() {
    let s = OrdinalSet64::<[bool; 6]>::all();
    assert_eq!(Some([true; 6]), s.iter().nth(63));
}
''', 'nth(63) on a set holding all 64 values', 'the last of 64 elements cannot be reached by nth')

seed('c15-fromiter-lower-hint', 'C15',
 [(M+'set/set.rs', '''        for ordinal in iter {
            set.insert(ordinal);
        }
''', '''        let mut iter = iter.into_iter();
        let n = iter.size_hint().0;
        for ordinal in iter.by_ref().take(n.max(1)) {
            set.insert(ordinal);
        }
        if n > 0 {
            for ordinal in iter {
                set.insert(ordinal);
            }
        }
''')],
 '''use ordinal_map::set::OrdinalSet;
fn main() {
    let mut n = 0u8;
    let s: OrdinalSet<u8> = std::iter::from_fn(|| { n += 1; if n < 5 { Some(n) } else { None } }).collect();
    for i in 1..5u8 { assert!(s.contains(&i)); }
}
''', 'collecting from an iterator whose lower size bound is zero but which yields several items',
 'a set collected from an iterator without a lower size bound keeps one element')

seed('c15-array-fromiter-bound', 'C15',
 [(M+'set/array.rs', '''        for value in iter {
            set.insert(value);
        }
''', '''        let iter = iter.into_iter();
        let n = iter.size_hint().1.unwrap_or(T::ORDINAL_SIZE);
        for value in iter.take(n) {
            set.insert(value);
        }
''')],
 '''use ordinal_map::set::OrdinalArraySet;
fn main() {
    let mut n = 0;
    let s: OrdinalArraySet<bool, 1> = std::iter::from_fn(|| { n += 1; match n { 1..=4 => Some(false), 5 => Some(true), _ => None } }).collect();
    assert!(s.contains(&false));
    assert!(s.contains(&true));
}
''', 'collecting more items (with repeats) than the type has values, from an iterator with no upper bound',
 'elements that come after as many items as the type has values are lost')

seed('c08-fromiter-bound', 'C08',
 [(M+'map/map.rs', '''        for (k, v) in iter {
            map.insert(k, v);
        }
''', '''        let iter = iter.into_iter();
        if iter.size_hint().1 == Some(0) {
            return map;
        }
        let n = iter.size_hint().1.unwrap_or(K::ORDINAL_SIZE);
        for (k, v) in iter.take(n) {
            map.insert(k, v);
        }
''')],
 '''use ordinal_map::map::OrdinalMap;
fn main() {
    let mut n = 0;
    let m: OrdinalMap<bool, u32> = std::iter::from_fn(|| { n += 1; if n < 6 { Some((false, n)) } else if n == 6 { Some((true, n)) } else { None } }).collect();
    assert_eq!(Some(&5), m.get(&false));
    assert_eq!(Some(&6), m.get(&true));
}
''', 'collecting more pairs (with repeated keys) than there are keys, from an iterator with no upper bound',
 'later pairs are dropped')

seed('c06-array-pow-trunc', 'C06',
 [(M+'ordinal/impls/array.rs', '''        let mut s = 1usize;
        let mut i = 0;
        while i < N {
            s = s.checked_mul(T::ORDINAL_SIZE).unwrap();
            i += 1;
        }
        s
''', '''        T::ORDINAL_SIZE.checked_pow(N as u32).unwrap()
''')],
 '''use ordinal_map::Ordinal;
fn main() {
    println!("{}", <[bool; 0x1_0000_0001] as Ordinal>::ORDINAL_SIZE);
}
''', 'an array type of more than 2^32 elements', 'the number of values of a huge array type is silently wrong instead of a compile error',
 must_not_compile=True)
