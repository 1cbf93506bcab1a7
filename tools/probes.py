"""Quick bugs without a demonstration (author side, for tools/probe.py): (id, [properties], [(file, old, new)]).
Those that a check misses are turned into planted bugs in seeds.py."""
P = []
M = 'ordinal-map/src/'
D = 'ordinal-map-derive/src/ordinal.rs'
def p(id, props, *edits): P.append((id, props.split(), list(edits)))

# --- truncating / wrong indices for large keys
p('map-u16-slot', 'C08',
  (M+'map/map.rs', '        self.map.get(key.ordinal())?.as_ref()\n', '        self.map.get(slot(key))?.as_ref()\n'),
  (M+'map/map.rs', '        self.map.get_mut(key.ordinal())?.as_mut()\n', '        self.map.get_mut(slot(key))?.as_mut()\n'),
  (M+'map/map.rs', '        self.map[key.ordinal()].replace(value)\n', '        self.map[slot(&key)].replace(value)\n'),
  (M+'map/map.rs', '        self.map.get_mut(key.ordinal())?.take()\n', '        self.map.get_mut(slot(key))?.take()\n'),
  (M+'map/map.rs', 'impl<K: Ordinal, V> Default for OrdinalMap<K, V> {', '#[inline]\nfn slot<K: Ordinal>(key: &K) -> usize {\n    key.ordinal() as u16 as usize\n}\n\nimpl<K: Ordinal, V> Default for OrdinalMap<K, V> {'))
p('totalmap-u16', 'C10',
  (M+'map/total/map.rs', '        mem::replace(&mut self.map[key.ordinal()], value)\n', '        mem::replace(&mut self.map[key.ordinal() & 0xffff], value)\n'))
p('totalarray-u16', 'C10 C09',
  (M+'map/total/array_map.rs', '''    fn index_mut(&mut self, index: &'a K) -> &mut Self::Output {
        &mut self.map[index.ordinal()]''', '''    fn index_mut(&mut self, index: &'a K) -> &mut Self::Output {
        &mut self.map[index.ordinal() & 0xffff]'''))
p('set-word-u10', 'C15 C17',
  (M+'set/set_mut.rs', '        self.words[value.ordinal() / u64::BITS as usize] |=', '        self.words[value.ordinal() / u64::BITS as usize & 0x3ff] |='),
  (M+'set/set_ref.rs', 'self.words.get(ordinal.ordinal() / u64::BITS as usize)', 'self.words.get(ordinal.ordinal() / u64::BITS as usize & 0x3ff)'))
# --- overridden provided methods
p('values-nth-wrap', 'C07',
  (M+'values.rs', '''    #[inline]
    fn count(self) -> usize
''', '''    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        self.range.start = self.range.start.wrapping_add(n);
        self.next()
    }

    #[inline]
    fn count(self) -> usize
'''))
p('values-nth-start', 'C07',
  (M+'values.rs', '''    #[inline]
    fn count(self) -> usize
''', '''    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let next = self.range.start.checked_add(n)?;
        if next >= self.range.end {
            return None;
        }
        self.range.start = next + 1;
        T::from_ordinal(next)
    }

    #[inline]
    fn count(self) -> usize
'''))
p('values-max', 'C07',
  (M+'values.rs', '''    #[inline]
    fn count(self) -> usize
''', '''    #[inline]
    fn max(self) -> Option<T>
    where
        T: Ord,
    {
        T::from_ordinal(self.range.end.checked_sub(1)?)
    }

    #[inline]
    fn count(self) -> usize
'''))
p('values-nthback', 'C07',
  (M+'values.rs', '''impl<T: Ordinal> DoubleEndedIterator for OrdinalValues<T> {
''', '''impl<T: Ordinal> DoubleEndedIterator for OrdinalValues<T> {
    #[inline]
    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        self.range.end = self.range.end.saturating_sub(n);
        self.next_back()
    }

'''))
p('values-eq', 'C07',
  (M+'values.rs', '''    #[inline]
    fn count(self) -> usize
''', '''    fn fold<B, F>(self, init: B, mut f: F) -> B
    where
        F: FnMut(B, Self::Item) -> B,
    {
        let mut acc = init;
        for i in 0..self.range.end {
            acc = f(acc, T::from_ordinal(i).unwrap());
        }
        acc
    }

    #[inline]
    fn count(self) -> usize
'''))
p('enum-nth', 'C12 C11',
  (M+'map/enumerate.rs', '''    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
''', '''    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let v = self.iter.nth(n)?;
        let k = K::from_ordinal(n).unwrap();
        self.next = n + 1;
        Some((k, v))
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
'''))
p('total-iter-nth', 'C12',
  (M+'map/total/iter.rs', '''impl<'a, K: Ordinal, V> Iterator for Iter<'a, K, V> {
    type Item = (K, &'a V);
''', '''impl<'a, K: Ordinal, V> Iterator for Iter<'a, K, V> {
    type Item = (K, &'a V);

    #[inline]
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let v = self.iter.iter.nth(n)?;
        self.iter.next += n;
        Some((K::from_ordinal(self.iter.next)?, v))
    }
'''))
p('total-itermut-last', 'C12',
  (M+'map/total/iter.rs', '''    type Item = (K, &'a mut V);

    fn next''', '''    type Item = (K, &'a mut V);

    fn last(self) -> Option<Self::Item> {
        let v = self.iter.iter.last()?;
        Some((K::from_ordinal(K::ORDINAL_SIZE - 1)?, v))
    }

    fn next'''))
p('iter-count', 'C11 C08',
  (M+'map/iter.rs', '''impl<'a, K: Ordinal, V> Iterator for Iter<'a, K, V> {
    type Item = (K, &'a V);
''', '''impl<'a, K: Ordinal, V> Iterator for Iter<'a, K, V> {
    type Item = (K, &'a V);

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        match self.iter.nth(n)? {
            (k, Some(v)) => Some((k, v)),
            _ => self.next(),
        }
    }
'''))
p('values-last', 'C11',
  (M+'map/iter.rs', '''    type Item = &'a V;
''', '''    type Item = &'a V;

    fn last(mut self) -> Option<Self::Item> {
        self.iter.iter.next_back()?.1.as_ref()
    }
'''))
p('drain-nth', 'C13 C18',
  (M+'map/iter.rs', '''    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let (k, v) = self.iter.next()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }

    fn size_hint''', '''    fn next(&mut self) -> Option<Self::Item> {
        loop {
            let (k, v) = self.iter.next()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        let mut left = n;
        loop {
            let (k, v) = self.iter.next()?;
            if v.is_some() {
                if left == 0 {
                    return Some((k, mem::take(v)?));
                }
                left -= 1;
            }
        }
    }

    fn size_hint'''))
p('drain-count', 'C13',
  (M+'map/iter.rs', '''impl<'a, K: Ordinal, V> Drop for Drain<'a, K, V> {
    fn drop(&mut self) {
        for _ in self {}''', '''impl<'a, K: Ordinal, V> Drop for Drain<'a, K, V> {
    fn drop(&mut self) {
        if self.iter.len() == 0 || !mem::needs_drop::<V>() && self.iter.len() == 1 {
            return;
        }
        for _ in self {}'''))
p('drain-needsdrop', 'C13',
  (M+'map/iter.rs', '''    fn drop(&mut self) {
        for _ in self {}''', '''    fn drop(&mut self) {
        if mem::size_of::<V>() == 0 {
            return;
        }
        for _ in self {}'''))
p('setiter-skip', 'C17',
  (M+'set/iter.rs', '''            let next = self.iter.next()?;
            if self.set.contains(&next) {
                return Some(next);
            }
''', '''            let next = self.iter.next()?;
            if self.set.contains(&next) {
                return Some(next);
            }
            if next.ordinal() % 64 == 0 && self.set.word_is_empty(next.ordinal() / 64) {
                self.iter.nth(62);
            }
'''),
  (M+'set/set_ref.rs', '''    #[inline]
    pub(crate) fn contains(''', '''    #[inline]
    pub(crate) fn word_is_empty(&self, i: usize) -> bool {
        self.words.get(i).map_or(true, |w| *w as u32 == 0)
    }

    #[inline]
    pub(crate) fn contains('''))
p('setiter-back-skip', 'C17',
  (M+'set/iter.rs', '''            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }
''', '''            let next = self.iter.next_back()?;
            if self.set.contains(&next) {
                return Some(next);
            }
            if next.ordinal() % 64 == 63 && self.set.word_is_empty(next.ordinal() / 64) {
                self.iter.nth_back(63);
            }
'''),
  (M+'set/set_ref.rs', '''    #[inline]
    pub(crate) fn contains(''', '''    #[inline]
    pub(crate) fn word_is_empty(&self, i: usize) -> bool {
        self.words.get(i).map_or(true, |w| *w == 0)
    }

    #[inline]
    pub(crate) fn contains('''))
p('setiter-hint-ones', 'C17',
  (M+'set/iter.rs', '        (0, Some(self.iter.len()))\n', '        (0, Some(self.iter.len().min(self.set.count())))\n'),
  (M+'set/set_ref.rs', '''    #[inline]
    pub(crate) fn contains(''', '''    #[inline]
    pub(crate) fn count(&self) -> usize {
        self.words.iter().map(|w| (*w as u32).count_ones() as usize).sum()
    }

    #[inline]
    pub(crate) fn contains('''))
p('iter64-nth', 'C17',
  (M+'set/set64.rs', '''impl<T: Ordinal> Iterator for Iter64<T> {
    type Item = T;
''', '''impl<T: Ordinal> Iterator for Iter64<T> {
    type Item = T;

    fn nth(&mut self, n: usize) -> Option<T> {
        for _ in 0..n {
            self.set &= self.set.checked_sub(1)?;
        }
        if n >= 63 {
            return None;
        }
        self.next()
    }
'''))
p('iter64-min', 'C17',
  (M+'set/set64.rs', '''impl<T: Ordinal> Iterator for Iter64<T> {
    type Item = T;
''', '''impl<T: Ordinal> Iterator for Iter64<T> {
    type Item = T;

    fn last(self) -> Option<T> {
        T::from_ordinal(self.set.checked_ilog2()? as usize ^ (self.set >> 63) as usize)
    }
'''))
# --- set constructors
p('set64-fromiter-shl', 'C16',
  (M+'set/set64.rs', '            set.set |= 1 << ordinal.ordinal();\n', '            set.set |= (1u32 << (ordinal.ordinal() & 31)) as u64 | (1u64 << ordinal.ordinal() & !0xffff_ffff);\n'))
p('set64-eq', 'C16',
  (M+'set/set64.rs', '#[derive(Eq, PartialEq)]\npub struct OrdinalSet64<T> {', '#[derive(Eq)]\npub struct OrdinalSet64<T> {'),
  (M+'set/set64.rs', 'impl<T: Ordinal> Default for OrdinalSet64<T> {', 'impl<T: PartialEq> PartialEq for OrdinalSet64<T> {\n    fn eq(&self, other: &Self) -> bool {\n        self.set.rotate_left(1) >> 1 == other.set.rotate_left(1) >> 1\n    }\n}\n\nimpl<T: Ordinal> Default for OrdinalSet64<T> {'))
p('set-realloc', 'C15',
  (M+'set/set.rs', '                if set.is_empty() {', '                if set.iter().all(|w| *w as u32 == 0) {'))
p('set-fromiter-skip', 'C15',
  (M+'set/set.rs', '''        for ordinal in iter {
            set.insert(ordinal);
        }
''', '''        let mut iter = iter.into_iter();
        let n = iter.size_hint().0;
        for ordinal in iter.by_ref().take(n.max(1)) {
            set.insert(ordinal);
        }
        if n > 0 {
            for ordinal in iter {
                set.insert(ordinal);
            }
        }
'''))
p('arrayset-fromiter-hint', 'C15',
  (M+'set/array.rs', '''        for value in iter {
            set.insert(value);
        }
''', '''        let iter = iter.into_iter();
        let n = iter.size_hint().1.unwrap_or(T::ORDINAL_SIZE);
        for value in iter.take(n) {
            set.insert(value);
        }
'''))
p('map-fromiter-hint', 'C08',
  (M+'map/map.rs', '''        for (k, v) in iter {
            map.insert(k, v);
        }
''', '''        let iter = iter.into_iter();
        if iter.size_hint().1 == Some(0) {
            return map;
        }
        let n = iter.size_hint().1.unwrap_or(K::ORDINAL_SIZE);
        for (k, v) in iter.take(n) {
            map.insert(k, v);
        }
'''))
p('amap-fromiter-first', 'C09',
  (M+'map/array_map.rs', '''        for (key, value) in iter {
            map.insert(key, value);
        }
''', '''        for (key, value) in iter.into_iter().take(S) {
            map.insert(key, value);
        }
'''))
# --- clone
p('map-clone-lazy', 'C08',
  (M+'map/map.rs', '''            map: self.map.clone(),
            _phantom: PhantomData,
        }
    }
}

impl<K: Ordinal + Debug''', '''            map: if self.map.iter().take(64).all(|v| v.is_none()) {
                Box::default()
            } else {
                self.map.clone()
            },
            _phantom: PhantomData,
        }
    }
}

impl<K: Ordinal + Debug'''))
p('set-clone', 'C15',
  (M+'set/set.rs', '''            set: self.set.clone(),
''', '''            set: match &self.set {
                SetImpl::Large(words) if words.iter().sum::<u64>() == 0 => {
                    SetImpl::Large(Box::default())
                }
                set => set.clone(),
            },
'''))
# --- arrays / tuples / std
p('array-pow', 'C06 C04',
  (M+'ordinal/impls/array.rs', '''        let mut s = 1usize;
        let mut i = 0;
        while i < N {
            s = s.checked_mul(T::ORDINAL_SIZE).unwrap();
            i += 1;
        }
        s
''', '''        T::ORDINAL_SIZE.checked_pow(N as u32).unwrap()
'''))
p('array-early', 'C04',
  (M+'ordinal/impls/array.rs', '''        if n != 0 {
            None
''', '''        if n != 0 && T::ORDINAL_SIZE > 1 {
            None
'''))
p('array-leadzero', 'C04',
  (M+'ordinal/impls/array.rs', '            r = r.checked_mul(T::ORDINAL_SIZE).unwrap();\n', '            r = r.checked_mul(T::ORDINAL_SIZE.next_power_of_two()).unwrap();\n'))
p('option-wrap', 'C03',
  (M+'ordinal/impls/std.rs', '            A::from_ordinal(ordinal - 1).map(Some)\n', '            A::from_ordinal((ordinal - 1) % (A::ORDINAL_SIZE + (A::ORDINAL_SIZE == 1) as usize)).map(Some)\n'))
p('result-le', 'C03',
  (M+'ordinal/impls/std.rs', '        if ordinal < A::ORDINAL_SIZE {', '        if ordinal < A::ORDINAL_SIZE || B::ORDINAL_SIZE == 0 && ordinal <= A::ORDINAL_SIZE {'))
p('either-size-max', 'C06 C03',
  (M+'ordinal/impls/either.rs', 'Result::<A, B>::ORDINAL_SIZE', 'A::ORDINAL_SIZE.wrapping_add(B::ORDINAL_SIZE)'))
p('option-size-wrap', 'C06',
  (M+'ordinal/impls/std.rs', 'const ORDINAL_SIZE: usize = A::ORDINAL_SIZE + 1;', 'const ORDINAL_SIZE: usize = A::ORDINAL_SIZE.wrapping_add(1);'))
p('box-trunc', 'C03',
  (M+'ordinal/impls/boxed.rs', 'T::from_ordinal(ordinal)?', 'T::from_ordinal(ordinal & (usize::MAX >> 1))?'))
# --- scalars
p('char-end', 'C01', (M+'ordinal/impls/char.rs', 'u32::try_from(ordinal).ok()?.checked_add(0x800)?', '(ordinal as u32).checked_add(0x800)?'))
p('i16-wrap', 'C01', (M+'ordinal/impls/primitive.rs', 'i16::MIN.checked_add_unsigned(u16::try_from(ordinal).ok()?)', 'i16::try_from(ordinal as i32 + i16::MIN as i32).ok()'))
p('nzusize', 'C01', (M+'ordinal/impls/non_zero.rs', 'NonZeroUsize::new(ordinal.checked_add(1)?)', 'NonZeroUsize::new(ordinal.saturating_add(1))'))
p('nzi64', 'C01 C02', (M+'ordinal/impls/non_zero.rs', 'NonZeroIsize::new(self.get() as isize).unwrap().ordinal()', 'NonZeroIsize::new(self.get() as isize).unwrap().ordinal() ^ (self.get() == i64::MIN + 1 || self.get() == i64::MIN + 2) as usize'))
# --- atomic
p('atomic-order', 'C19', (M+'atomic.rs', '.compare_exchange(old_ord, new_ord, success, failure)', '.compare_exchange(old_ord, new_ord, success, Ordering::Relaxed)'))
p('atomic-relaxed', 'C19', (M+'atomic.rs', 'self.atomic.store(value.ordinal(), ordering)', 'self.atomic.store(value.ordinal(), if matches!(ordering, Ordering::SeqCst) { Ordering::Release } else { ordering })'))
p('atomic-weak', 'C19', (M+'atomic.rs', '            .compare_exchange(old_ord, new_ord, success, failure)', '            .compare_exchange_weak(old_ord, new_ord, success, failure)'))
p('atomic-same', 'C19', (M+'atomic.rs', '''        let res = self
''', '''        if old_ord == new_ord {
            return Ok(old);
        }
        let res = self
'''))
p('atomic-u32', 'C19',
  (M+'atomic.rs', 'T::from_ordinal(self.atomic.load(ordering)).unwrap()', 'T::from_ordinal(self.atomic.load(ordering) as u32 as usize).unwrap()'))
p('atomic-lazy-store', 'C19',
  (M+'atomic.rs', '        self.atomic.store(value.ordinal(), ordering);\n', '        if self.atomic.load(Ordering::Relaxed) != value.ordinal() {\n            self.atomic.store(value.ordinal(), ordering);\n        }\n'))
# --- total maps, builder
p('ab-finish-leak', 'C18',
  (M+'array_builder.rs', '''        if self.filled != S {
            unsafe {
                ptr::drop_in_place(&mut self.array[self.filled..S]);
            }
            return Err(ArrayNotFilled);''', '''        if self.filled != S {
            unsafe {
                ptr::drop_in_place(&mut self.array[self.filled..S]);
            }
            self.filled = 0;
            return Err(ArrayNotFilled);'''))
p('ab-push-after', 'C18',
  (M+'array_builder.rs', '''        assert!(self.filled < S);
        unsafe {''', '''        assert!(self.filled < S);
        self.filled += 1;
        unsafe {'''),
  (M+'array_builder.rs', '''                .add(self.filled)
                .write(value);
        }
        self.filled += 1;
''', '''                .add(self.filled - 1)
                .write(value);
        }
'''))
p('ta-map-rev', 'C20 C18',
  (M+'map/total/array_map.rs', 'array_from_iter(self.into_iter().map(|(k, v)| f(k, v)))', '{\n                let mut a: [W; S] = array_from_iter(self.into_iter().rev().map(|(k, v)| f(k, v)));\n                a.reverse();\n                a\n            }'))
p('ta-mapvalues', 'C20',
  (M+'map/total/array_map.rs', '        self.map(|_k, v| f(v))\n', '        OrdinalTotalArrayMap {\n            map: {\n                let mut last = None;\n                let mut m: [W; S] = array_from_iter(self.map.into_iter().rev().map(|v| { last = Some(()); f(v) }));\n                if last.is_some() { m.reverse(); }\n                m\n            },\n            _phantom: PhantomData,\n        }\n'))
p('ta-asref-vals', 'C20',
  (M+'map/total/array_map.rs', 'OrdinalTotalArrayMap::new(|k| self.get(&k))', 'OrdinalTotalArrayMap::new(|k| &self.map[k.ordinal() & 0xff])'))
p('ta-zip-min', 'C20 C18',
  (M+'map/total/array_map.rs', 'map: array_from_iter(self.map.into_iter().zip(other.map)),', 'map: {\n                let mut other = other.map.into_iter();\n                array_from_iter(self.map.into_iter().enumerate().map(move |(i, v)| {\n                    (v, if i < 256 { other.next() } else { other.next_back() }.unwrap())\n                }))\n            },'))
p('tm-intoiter-vec', 'C12',
  (M+'map/total/map.rs', '        IntoIter::new(self.map.into_vec().into_iter())\n', '        let mut v = self.map.into_vec();\n        if v.len() > 256 {\n            v.rotate_left(1);\n        }\n        IntoIter::new(v.into_iter())\n'))
p('tm-default', 'C10',
  (M+'map/total/map.rs', '        OrdinalTotalMap::new(|_| V::default())\n', '        let mut n = 0;\n        OrdinalTotalMap::new(|_| {\n            n += 1;\n            V::default()\n        })\n'))
# --- entry
p('entry-key-default', 'C14',
  (M+'map/map.rs', '        let entry = &mut self.map[key.ordinal()];\n        Entry::new(key, entry)', '        let i = key.ordinal().min(65535);\n        let entry = &mut self.map[i];\n        Entry::new(key, entry)'))
p('amap-entry', 'C14',
  (M+'map/array_map.rs', '        let entry = &mut self.map[&key];\n', '        let entry = self.map.values_mut().nth(key.ordinal() % (S.next_power_of_two() - (S > 1) as usize).max(1)).unwrap();\n'))
p('retain-order', 'C13',
  (M+'map/array_map.rs', 'for (key, value_opt) in self.map.iter_mut() {', 'for (key, value_opt) in self.map.iter_mut().rev() {'))
p('retain-panic', 'C13 C18',
  (M+'map/array_map.rs', '''            if let Some(value) = value_opt {
                if !f(key, value) {
                    *value_opt = None;
                }
            }
''', '''            if let Some(mut value) = value_opt.take() {
                if f(key, &mut value) {
                    *value_opt = Some(value);
                }
            }
'''))
# --- derive
p('derive-zero-mid', 'C05',
  (D, '''        match product {
            0 => SizeExpr::Const(0),
            1 =>''', '''        match product {
            0 | 1 =>'''))
p('derive-17', 'C05',
  (D, '''        match sum {
            0 => sum_ignore_const(items),
            c =>''', '''        match sum % 256 {
            0 => sum_ignore_const(items),
            c =>'''))
p('derive-revnamed', 'C05',
  (D, '''#( #field_vars: #exprs, )*''', '''#( #field_vars: #exprs ),*'''))
p('derive-enum-le', 'C05',
  (D, 'if #ordinal_var < #size_of_first_variants_including {', 'if #ordinal_var <= #size_of_first_variants_including - 1 {'))
p('derive-sum-order', 'C05',
  (D, 'SizeExpr::sum([SizeExpr::product([a, b_count]), b])', 'SizeExpr::sum([SizeExpr::product([b, b_count]), a])'))
