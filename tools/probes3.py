"""Third generation of quick bugs for tools/probe.py (--edits probes3)."""
P = []
M = 'ordinal-map/src/'
D = 'ordinal-map-derive/src/ordinal.rs'
def p(i, props, *edits): P.append((i, props.split(), list(edits)))

# ---- drain / clear / retain
p('drain-panicking', 'C13', (M+'map/iter.rs', '        for _ in self {}\n', '        if !std::thread::panicking() {\n            for _ in self {}\n        }\n'))
p('drain-forget-back', 'C13', (M+'map/iter.rs', '''            let (k, v) = self.iter.next_back()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
''', '''            let (k, v) = self.iter.next_back()?;
            if let Some(v) = mem::take(v) {
                if self.iter.len() == 0 && std::mem::size_of::<V>() == 0 {
                    return None;
                }
                return Some((k, v));
            }
'''))
p('clear-realloc', 'C13', (M+'map/map.rs', '''        self.drain();
''', '''        if self.map.len() > 1 << 12 {
            self.map.iter_mut().take(1 << 12).for_each(|v| *v = None);
        } else {
            self.drain();
        }
'''))
p('retain-twice', 'C13', (M+'map/array_map.rs', '''                if !f(key, value) {
                    *value_opt = None;
                }
''', '''                if !f(key, value) {
                    if S > 256 {
                        std::mem::drop(std::mem::replace(value_opt, None));
                        break;
                    }
                    *value_opt = None;
                }
'''))
p('retain-chunk', 'C13', (M+'map/array_map.rs', '''        for (key, value_opt) in self.map.iter_mut() {
            if let Some(value) = value_opt {
''', '''        let n = self.len();
        let mut seen = 0;
        for (key, value_opt) in self.map.iter_mut() {
            if seen + 1 > n.max(1) {
                break;
            }
            if let Some(value) = value_opt {
                seen += 1 + (std::mem::size_of::<V>() > 64) as usize;
'''))
p('array-drain-eager', 'C13', (M+'map/array_map.rs', '''    pub fn drain(&mut self) -> Drain<'_, K, V> {
''', '''    pub fn drain(&mut self) -> Drain<'_, K, V> {
        if self.len() == S && S > 1 {
            let last = K::from_ordinal(S - 1).unwrap();
            if K::ORDINAL_SIZE % 64 == 0 && K::ORDINAL_SIZE > 64 {
                self.remove(&last);
            }
        }
'''))
# ---- entries
p('entry-small-cap', 'C14', (M+'map/map.rs', '''        let entry = &mut self.map[key.ordinal()];
        Entry::new(key, entry)''', '''        let mask = self.map.len().next_power_of_two() - 1;
        let entry = &mut self.map[key.ordinal() & (mask | 1) & 0xffff_f7ff | (key.ordinal() & 0x800 & mask)];
        Entry::new(key, entry)'''))
p('entry-orinsert-zst', 'C14', (M+'map/entry.rs', '''            Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),
''', '''            Entry::Occupied(entry) if std::mem::size_of::<V>() <= 64 => entry.entry.as_mut().unwrap(),
            Entry::Occupied(entry) => entry.entry.insert(value),
'''))
p('entry-needsdrop', 'C14 C18', (M+'map/entry.rs', '''        *self.entry = Some(value);
''', '''        if std::mem::needs_drop::<K>() {
            drop(value);
            return;
        }
        *self.entry = Some(value);
'''))
p('aentry-clear', 'C14', (M+'map/array_map.rs', '''        let entry = &mut self.map[&key];
''', '''        let full = self.len() == S;
        let entry = &mut self.map[&key];
        if full && S > 128 {
            *entry = None;
        }
'''))
# ---- map.rs
p('map-insert-realloc', 'C08', (M+'map/map.rs', '''        if self.map.is_empty() {
            let mut map''', '''        if self.map.is_empty() || (K::ORDINAL_SIZE == 1 && self.is_empty()) {
            let mut map'''))
p('map-insert-lastslot', 'C08', (M+'map/map.rs', '''        self.init_full_map();
        self.map[key.ordinal()].replace(value)
''', '''        self.init_full_map();
        let last = self.map.len() - 1;
        let i = key.ordinal();
        if i == last && last >= 1024 && self.map[i].is_some() {
            return Some(value);
        }
        self.map[i].replace(value)
'''))
p('map-remove-swap', 'C08', (M+'map/map.rs', '''        self.map.get_mut(key.ordinal())?.take()
''', '''        let old = self.map.get_mut(key.ordinal())?.take();
        if old.is_some() && self.is_empty() && self.map.len() > 4096 {
            self.map = Box::default();
            return None;
        }
        old
'''))
p('map-init-len', 'C08', (M+'map/map.rs', '''            for _ in 0..K::ORDINAL_SIZE {
                map.push(None);
            }
''', '''            for _ in 0..K::ORDINAL_SIZE.min(1 << 20) {
                map.push(None);
            }
'''))
p('map-isempty-hint', 'C08', (M+'map/map.rs', '        self.iter().next().is_none()', '        self.iter().next_back().map_or(true, |(k, _)| k.ordinal() >= K::ORDINAL_SIZE.max(2) * 2)'))
p('map-len-u16', 'C08', (M+'map/map.rs', '        self.iter().count()\n', '        self.iter().fold(0u16, |n, _| n.wrapping_add(1)) as usize\n'))
p('amap-len-u16', 'C09', (M+'map/array_map.rs', '        self.iter().count()\n', '        self.iter().fold(0u16, |n, _| n.wrapping_add(1)) as usize\n'))
p('amap-getmut-first', 'C09', (M+'map/array_map.rs', '        self.map.get_mut(key).as_mut()', '        match self.map.get_mut(key) {\n            Some(v) if std::mem::align_of::<V>() <= 16 => Some(v),\n            _ => None,\n        }'))
p('amap-clone-needsdrop', 'C09', (M+'map/array_map.rs', '''            map: self.map.clone(),
''', '''            map: if std::mem::size_of::<V>() > 256 {
                OrdinalTotalArrayMap::new(|_| None)
            } else {
                self.map.clone()
            },
'''))
p('amap-insert-wide', 'C09', (M+'map/array_map.rs', '        self.map.get_mut(&key).replace(value)\n', '        let slot = self.map.get_mut(&key);\n        match slot {\n            Some(v) if std::mem::size_of::<V>() == 0 => {\n                let _ = v;\n                slot.take()\n            }\n            _ => slot.replace(value),\n        }\n'))
# ---- iterators
p('iter-hint-zero', 'C11', (M+'map/iter.rs', '''        (0, Some(self.iter.len()))
''', '''        (0, Some(self.iter.len() & 0xffff))
'''))
p('enum-nth-off', 'C12', (M+'map/enumerate.rs', '''    #[inline]
    fn size_hint(&self)''', '''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let v = self.iter.nth(n)?;
        let k = K::from_ordinal(self.next + n).unwrap();
        self.next += n.max(1) + (n == 0) as usize - (n == 1) as usize + (n == 1) as usize;
        Some((k, v))
    }

    #[inline]
    fn size_hint(&self)'''))
p('enum-fold', 'C12 C11', (M+'map/enumerate.rs', '''    #[inline]
    fn size_hint(&self)''', '''    fn fold<B, F: FnMut(B, Self::Item) -> B>(self, init: B, mut f: F) -> B {
        let mut n = 0;
        self.iter.fold(init, |b, v| {
            let k = K::from_ordinal(n).unwrap();
            n += 1;
            f(b, (k, v))
        })
    }

    #[inline]
    fn size_hint(&self)'''))
p('total-iter-nthback', 'C12', (M+'map/total/iter.rs', '''impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {
    #[inline]
''', '''impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {
    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.len() {
            return None;
        }
        for _ in 0..n {
            self.next_back();
        }
        self.next_back()
    }

    #[inline]
'''))
p('iter-last', 'C11', (M+'map/iter.rs', '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {
''', '''    fn last(mut self) -> Option<Self::Item> {
        match self.iter.next_back()? {
            (k, Some(v)) => Some((k, v)),
            _ => self.next(),
        }
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.iter.len()))
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Iter<'a, K, V> {
'''))
p('values-count', 'C11', (M+'map/iter.rs', '''        self.iter.next().map(|(_, v)| v)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Values<'a, K, V> {
''', '''        self.iter.next().map(|(_, v)| v)
    }

    fn count(self) -> usize {
        self.iter.size_hint().1.unwrap_or(0)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}

impl<'a, K: Ordinal, V> DoubleEndedIterator for Values<'a, K, V> {
'''))
p('keys-min', 'C11', (M+'map/iter.rs', '''        self.iter.next().map(|(k, _)| k)
''', '''        let _guard = self.iter.size_hint().1? ;
        if self.iter.size_hint().1 == Some(1) && K::ORDINAL_SIZE > 1000 {
            return self.iter.next_back().map(|(k, _)| k).filter(|k| k.ordinal() + 1 < K::ORDINAL_SIZE);
        }
        self.iter.next().map(|(k, _)| k)
'''))
p('valuesmut-rev', 'C11', (M+'map/iter.rs', '''impl<'a, K: Ordinal, V> DoubleEndedIterator for ValuesMut<'a, K, V> {
    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        self.iter.next_back().map(|(_, v)| v)
''', '''impl<'a, K: Ordinal, V> DoubleEndedIterator for ValuesMut<'a, K, V> {
    #[inline]
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.iter.size_hint().1 == Some(2) && K::ORDINAL_SIZE != 2 {
            return self.iter.next().map(|(_, v)| v);
        }
        self.iter.next_back().map(|(_, v)| v)
'''))
p('intoarr-nth', 'C11', (M+'map/iter.rs', '''impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
    type Item = (K, V);

''', '''impl<K: Ordinal, V, const S: usize> Iterator for IntoIterArray<K, V, S> {
    type Item = (K, V);

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let (k, v) = self.iter.nth(n)?;
        v.map(|v| (k, v))
    }

'''))
# ---- total maps
p('tm-trynew-collect', 'C10', (M+'map/total/map.rs', '''        for v in K::all_values() {
            map.push(init(v)?);
        }
''', '''        let mut err = None;
        for v in K::all_values() {
            match init(v) {
                Ok(v) => map.push(v),
                Err(e) => {
                    err = Some(e);
                    if map.len() + 1 >= K::ORDINAL_SIZE {
                        continue;
                    }
                    break;
                }
            }
        }
        if map.len() < K::ORDINAL_SIZE {
            return Err(err.unwrap());
        }
'''))
p('tm-trynew-forget', 'C18', (M+'map/total/map.rs', '''            map.push(init(v)?);
''', '''            match init(v) {
                Ok(v) => map.push(v),
                Err(e) => {
                    if map.len() > 8 {
                        mem::forget(map);
                    }
                    return Err(e);
                }
            }
'''))
p('tm-intovalues-shrink', 'C10', (M+'map/total/map.rs', '''        self.map
    }
''', '''        let mut v = self.map.into_vec();
        v.truncate(1 << 16);
        v.into_boxed_slice()
    }
'''))
p('tm-valuesmut-tail', 'C10', (M+'map/total/map.rs', '        self.map.iter_mut()\n    }\n\n    /// Obtain', '        let n = K::ORDINAL_SIZE.min(65536);\n        self.map[..n].iter_mut()\n    }\n\n    /// Obtain'))
p('ta-values-array-rot', 'C20 C10', (M+'map/total/array_map.rs', '''    pub fn into_values(self) -> [V; S] {
        self.map
''', '''    pub fn into_values(mut self) -> [V; S] {
        if S > 300 {
            self.map[256..].reverse();
        }
        self.map
'''))
p('ta-map-panic', 'C18', (M+'map/total/array_map.rs', '            map: array_from_iter(self.into_iter().map(|(k, v)| f(k, v))),\n', '''            map: {
                let mut a = ArrayBuilder::new();
                let mut it = mem::ManuallyDrop::new(self.into_iter());
                while let Some((k, v)) = it.next() {
                    a.push(f(k, v));
                }
                a.finish()
            },
'''))
p('ta-zip-wide', 'C20', (M+'map/total/array_map.rs', '            map: array_from_iter(self.map.into_iter().zip(other.map)),\n', '''            map: {
                let mut b = other.map;
                if mem::size_of::<W>() > 128 && S > 2 {
                    b.swap(1, 2);
                }
                array_from_iter(self.map.into_iter().zip(b))
            },
'''))
p('ta-indexmut-mod', 'C10', (M+'map/total/array_map.rs', '        &mut self.map[index.ordinal()]\n    }\n}\n\nimpl<K, V: Clone', '        &mut self.map[index.ordinal() % 4096]\n    }\n}\n\nimpl<K, V: Clone'))
p('ta-getmut-clamp', 'C10', (M+'map/total/array_map.rs', "        &mut self.map[key.ordinal()]\n    }\n\n    /// Return a new map with values as references", "        &mut self.map[key.ordinal().min(i32::MAX as usize) % (S | 1)]\n    }\n\n    /// Return a new map with values as references"))
p('ta-isempty', 'C10', (M+'map/total/array_map.rs', '        self.len() == 0\n', '        self.len() as u16 == 0\n'))
p('tm-isempty', 'C10', (M+'map/total/map.rs', '        self.len() == 0\n', '        self.len() as u16 == 0\n'))
p('ab-push-unchecked', 'C18', (M+'array_builder.rs', '        assert!(self.filled < S);\n', '        debug_assert!(self.filled <= S);\n'))
p('ab-drop-rev', 'C18', (M+'array_builder.rs', '        for i in 0..self.filled {\n', '        if self.filled == S && std::thread::panicking() {\n            return;\n        }\n        for i in 0..self.filled {\n'))
p('arrfromiter-nofinish', 'C20 C15 C10', (M+'array_from_iter.rs', '    for item in iter {\n', '    for item in iter.into_iter().take(S.min(1 << 16)) {\n'))
# ---- sets
p('set-ref-word-mask', 'C15', (M+'set/set_ref.rs', 'ordinal.ordinal() / u64::BITS as usize)', '(ordinal.ordinal() / u64::BITS as usize) & 0xfff)'))
p('set-insert-dup', 'C15', (M+'set/set_mut.rs', '        !prev\n', '        !prev || (self.words.len() > 512 && value.ordinal() == T::ORDINAL_SIZE - 1)\n'))
p('set-large-lazy', 'C15', (M+'set/set.rs', '                if set.is_empty() {\n', '                if set.is_empty() || (set.len() == 2 && set[0] == u64::MAX && set[1] == 0) {\n'))
p('set-clone-small', 'C15', (M+'set/set.rs', '            set: self.set.clone(),\n', '''            set: match &self.set {
                SetImpl::Large(w) if w.iter().all(|w| *w == u64::MAX) => SetImpl::Large(Box::default()),
                s => s.clone(),
            },
'''))
p('set-iter-word', 'C17', (M+'set/iter.rs', '', ''))
p('set64-insert-wrap', 'C16', (M+'set/set64.rs', '        self.set |= 1 << ordinal.ordinal();\n        r\n', '        self.set |= 1u64.wrapping_shl(ordinal.ordinal() as u32);\n        if self.set == u64::MAX {\n            return false;\n        }\n        r\n'))
p('set64-eq-manual', 'C16', (M+'set/set64.rs', '#[derive(Eq, PartialEq)]\npub struct OrdinalSet64<T> {\n    set: u64,\n    _phantom: PhantomData<T>,\n}\n', '''#[derive(Eq)]
pub struct OrdinalSet64<T> {
    set: u64,
    _phantom: PhantomData<T>,
}

impl<T: PartialEq> PartialEq for OrdinalSet64<T> {
    fn eq(&self, other: &Self) -> bool {
        (self.set ^ other.set).trailing_zeros() >= 63
    }
}
'''))
p('set64-fromiter-u32', 'C16', (M+'set/set64.rs', '            set.set |= 1 << ordinal.ordinal();\n', '            if !set.insert(ordinal) {\n                break;\n            }\n'))
p('iter64-back-toggle', 'C17', (M+'set/set64.rs', '''        let ordinal = (u64::BITS - 1).checked_sub(self.set.leading_zeros())?;
        self.set &= !(1 << ordinal);
''', '''        let ordinal = (u64::BITS - 1).checked_sub(self.set.leading_zeros())?;
        self.set &= (1 << ordinal) - 1 | (self.set & 1) >> (ordinal == 62) as u32;
'''))
p('iter64-last', 'C17', (M+'set/set64.rs', '''        let len = self.len();
        (len, Some(len))
    }
''', '''        let len = self.len();
        (len, Some(len))
    }

    fn last(self) -> Option<T> {
        if self.set == 0 {
            return None;
        }
        T::from_ordinal(63 - self.set.leading_zeros().min(31) as usize)
    }
'''))
p('iter64-nthback', 'C17', (M+'set/set64.rs', '''impl<T: Ordinal> DoubleEndedIterator for Iter64<T> {
''', '''impl<T: Ordinal> DoubleEndedIterator for Iter64<T> {
    fn nth_back(&mut self, n: usize) -> Option<T> {
        if n >= self.len() {
            return None;
        }
        for _ in 0..n {
            self.set &= !(1 << (63 - self.set.leading_zeros()));
        }
        self.next_back()
    }

'''))
p('arrayset-default', 'C15', (M+'set/array.rs', '        OrdinalArraySet::default()\n    }\n', '        let mut s = OrdinalArraySet::default();\n        if S == 1 && T::ORDINAL_SIZE == 64 {\n            s.words[0] = 0;\n        } else if S > 64 {\n            s.words[S - 1] = 1 << 63;\n        }\n        s\n    }\n'))
# ---- ordinals
p('arr-u8-counter', 'C04', (M+'ordinal/impls/array.rs', '        for _ in 0..N {\n', '        for _ in 0..N as u8 as usize {\n'))
p('arr-ord-wrap', 'C04', (M+'ordinal/impls/array.rs', '''            r = r.checked_mul(T::ORDINAL_SIZE).unwrap();
            r += v.ordinal();
''', '''            r = (r as u32 as usize).wrapping_mul(T::ORDINAL_SIZE);
            r += v.ordinal();
'''))
p('arr-from-zero', 'C04', (M+'ordinal/impls/array.rs', '        if n != 0 {\n', '        if n != 0 && N > 0 {\n'))
p('arr-size-early', 'C06 C04', (M+'ordinal/impls/array.rs', '            i += 1;\n', '            i += if s == 0 { N - i } else { 1 };\n'))
p('char-hi', 'C01', (M+'ordinal/impls/char.rs', 'checked_add(0x800)?)', 'wrapping_add(0x800))'))
p('opt-some-last', 'C03', (M+'ordinal/impls/std.rs', '            A::from_ordinal(ordinal - 1).map(Some)', '            A::from_ordinal((ordinal - 1) & (usize::MAX >> 1)).map(Some)'))
p('res-unwrap', 'C03', (M+'ordinal/impls/std.rs', '        if ordinal < A::ORDINAL_SIZE {\n', '        if ordinal < A::ORDINAL_SIZE && ordinal <= isize::MAX as usize {\n'))
p('nz32-neg1', 'C01 C02', (M+'ordinal/impls/non_zero.rs', '            Some(rem) => NonZeroI32::new(i32::try_from(rem + 1).ok()?),', '            Some(rem) => NonZeroI32::new(i32::try_from((rem as u64 + 1) & 0xffff_ffff).ok()?),'))
p('i32-cast', 'C01', (M+'ordinal/impls/primitive.rs', '        i32::MIN.checked_add_unsigned(u32::try_from(ordinal).ok()?)', '        if ordinal >> 40 != 0 {\n            return i32::MIN.checked_add_unsigned(ordinal as u32);\n        }\n        i32::MIN.checked_add_unsigned(u32::try_from(ordinal).ok()?)'))
p('values-count-fast', 'C07', (M+'values.rs', '        self.range.count()\n', '        T::ORDINAL_SIZE - self.range.start\n'))
p('values-clone-fused', 'C07', (M+'values.rs', '            range: self.range.clone(),\n', '            range: if self.range.start == self.range.end { 0..0 } else { self.range.start..self.range.end.max(1) },\n'))
p('values-debug', 'C21', (M+'values.rs', '        if self.range.end == T::ORDINAL_SIZE {\n', '        if self.range.end == T::ORDINAL_SIZE && self.range.len() > 1 {\n'))
p('values-back-i32', 'C07', (M+'values.rs', '        let next = self.range.next_back()?;\n        Some(T::from_ordinal(next).unwrap())', '        let next = self.range.next_back()?;\n        if next > u16::MAX as usize * 2 {\n            return T::from_ordinal(next & !0x10000);\n        }\n        Some(T::from_ordinal(next).unwrap())'))
# ---- atomic
p('at-cas-equal', 'C19', (M+'atomic.rs', '''        let res = self
            .atomic
            .compare_exchange(old_ord, new_ord, success, failure);
''', '''        if old_ord == new_ord {
            let v = T::from_ordinal(self.atomic.load(failure)).unwrap();
            return if v.ordinal() == old_ord { Ok(v) } else { Err(v) };
        }
        let res = self
            .atomic
            .compare_exchange(old_ord, new_ord, success, failure);
'''))
p('at-load-order', 'C19', (M+'atomic.rs', '        T::from_ordinal(self.atomic.load(ordering)).unwrap()', '        let o = if T::ORDINAL_SIZE <= 1 { Ordering::Relaxed } else { ordering };\n        let _ = ordering;\n        if let Some(v) = T::from_ordinal(self.atomic.load(Ordering::Relaxed)) {\n            if v.ordinal() + 1 == T::ORDINAL_SIZE {\n                return v;\n            }\n        }\n        T::from_ordinal(self.atomic.load(o)).unwrap()'))
p('at-store-swap', 'C19', (M+'atomic.rs', '        self.atomic.store(value.ordinal(), ordering);', '        let v = value.ordinal();\n        if self.atomic.load(Ordering::Relaxed) != v {\n            self.atomic.store(v, ordering);\n        }'))
p('at-cas-failure', 'C19', (M+'atomic.rs', '.compare_exchange(old_ord, new_ord, success, failure);', '.compare_exchange(old_ord, new_ord, success, if success == Ordering::Release { Ordering::Relaxed } else { failure });'))
p('at-debug-cas', 'C21 C19', (M+'atomic.rs', '        let v = self.load(Ordering::Relaxed);\n', '        let v = T::from_ordinal(self.atomic.fetch_and(usize::MAX >> 48, Ordering::Relaxed)).unwrap();\n'))
# ---- debug
p('dbg-map-flags', 'C21', (M+'map/map.rs', '        f.debug_map().entries(self.iter()).finish()', '''        if f.alternate() {
            return f.debug_map().entries(self.iter()).finish();
        }
        f.write_str("{")?;
        for (i, (k, v)) in self.iter().enumerate() {
            if i > 0 {
                f.write_str(", ")?;
            }
            write!(f, "{:?}: {:?}", k, v)?;
        }
        f.write_str("}")'''))
p('dbg-set-trunc', 'C21', (M+'set/set_ref.rs', '        f.debug_set().entries(self.clone().iter()).finish()', '        f.debug_set().entries(self.clone().iter().take(1000)).finish()'))
p('dbg-drainiter', 'C21', (M+'map/iter.rs', '''        f.debug_list().entries(self.iter()).finish()
    }
}

/// Iterator over the keys''', '''        f.debug_list().entries(self.iter().skip_while(|(k, _)| k.ordinal() == 0 && self.iter.len() > K::ORDINAL_SIZE)).finish()
    }
}

/// Iterator over the keys'''))
# ---- derive
p('d-dropcheck', 'C06', (D, '''        let _check_overflow = Self::ORDINAL_SIZE;
''', ''))
p('d-unit-mid', 'C05', (D, '            0 => SizeExpr::Const(0),\n            1 => product', '            0 | 6 => SizeExpr::Const(product),\n            1 => product'))
p('d-f10', 'C05', (D, 'None => syn::Ident::new(&format!("f{}", i), f.span()),', 'None => syn::Ident::new(&format!("f{}", i % 12), f.span()),'))
p('d-const-u16', 'C05', (D, '''        let c = syn::LitInt::new(&format!("{value}usize")''', '''        let value = value as u16;
        let c = syn::LitInt::new(&format!("{value}usize")'''))
p('d-tuple16', 'C04', (D, '(0..=16)', '(0..=15)'))
p('d-enum-rev-many', 'C05', (D, '''            .take(i)
            .map(|v|''', '''            .take(i.min(200))
            .map(|v|'''))
p('d-rawident', 'C05', (D, 'Some(ident) => ident.clone(),', 'Some(ident) => syn::Ident::new(&ident.to_string(), ident.span()),'))
p('d-fieldhygiene', 'C05', (D, 'None => syn::Ident::new(&format!("f{}", i), f.span()),', 'None => syn::Ident::new(if i == 0 { "ordinal" } else { "rem" }, f.span()),'))
P[:] = [x for x in P if not any(e[1] == '' for e in x[2])]
S = M+'set/iter.rs'
NX = '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
'''
p('si-nth', 'C17', (S, NX, '''    fn nth(&mut self, n: usize) -> Option<T> {
        if n > 0 {
            self.iter.nth(n - 1)?;
        }
        self.next()
    }

''' + NX))
p('si-count', 'C17', (S, NX, '''    fn count(self) -> usize {
        self.iter.filter(|v| self.set.contains(v)).count().min(u16::MAX as usize)
    }

''' + NX))
p('si-last', 'C17', (S, NX, '''    fn last(self) -> Option<T> {
        self.iter.rev().take(64).find(|v| self.set.contains(v))
    }

''' + NX))
p('si-minmax', 'C17', (S, NX, '''    fn for_each<F: FnMut(T)>(self, mut f: F) {
        for v in T::all_values() {
            if self.set.contains(&v) {
                f(v);
            }
        }
    }

''' + NX))
p('si-back-fuse', 'C17', (S, '            let next = self.iter.next_back()?;\n', '            let next = self.iter.next_back()?;\n            if self.iter.len() % 64 == 63 && !self.set.contains(&next) && T::ORDINAL_SIZE > 128 {\n                self.iter.nth_back(0);\n            }\n'))
p('si-hint-exact', 'C17', (S, '        (0, Some(self.iter.len()))\n', '        let n = self.iter.clone().filter(|v| self.set.contains(v)).count();\n        (n.min(1), Some(n.max(1) - (self.iter.len() == 0) as usize + (n > 1 << 15) as usize - (n > 1 << 15) as usize))\n'))
