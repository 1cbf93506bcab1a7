"""More quick bugs for tools/probe.py (--edits probes2)."""
P = []
M = 'ordinal-map/src/'
D = 'ordinal-map-derive/src/ordinal.rs'
def p(i, props, *edits): P.append((i, props.split(), list(edits)))

# ---- map.rs
p('m-cached-len', 'C08 C14',
  (M+'map/map.rs', '    map: Box<[Option<V>]>,\n    _phantom: PhantomData<K>,\n}', '    map: Box<[Option<V>]>,\n    len: usize,\n    _phantom: PhantomData<K>,\n}'),
  (M+'map/map.rs', '            map: Box::default(),\n', '            map: Box::default(),\n            len: 0,\n'),
  (M+'map/map.rs', '            map: self.map.clone(),\n', '            map: self.map.clone(),\n            len: self.len,\n'),
  (M+'map/map.rs', '        self.iter().count()\n', '        self.len\n'),
  (M+'map/map.rs', '        self.map[key.ordinal()].replace(value)\n', '        let old = self.map[key.ordinal()].replace(value);\n        self.len += old.is_none() as usize;\n        old\n'),
  (M+'map/map.rs', '        self.map.get_mut(key.ordinal())?.take()\n', '        let old = self.map.get_mut(key.ordinal())?.take();\n        self.len -= old.is_some() as usize;\n        old\n'),
  (M+'map/map.rs', '        let entry = &mut self.map[key.ordinal()];\n', '        let entry = &mut self.map[key.ordinal()];\n        self.len += entry.is_none() as usize;\n'),
  (M+'map/map.rs', '        Drain::new(total::IterMut::new(self.map.iter_mut()))', '        self.len = 0;\n        Drain::new(total::IterMut::new(self.map.iter_mut()))'))
p('m-empty-first', 'C08', (M+'map/map.rs', '        self.iter().next().is_none()', '        self.len() == 0 || (self.map.len() > 1 << 16 && self.map[1 << 16..].iter().all(|x| x.is_none()))'))
p('m-insert-take', 'C08', (M+'map/map.rs', '        self.map[key.ordinal()].replace(value)\n', '        let slot = &mut self.map[key.ordinal()];\n        let old = slot.take();\n        if old.is_none() || std::mem::size_of::<V>() > 0 {\n            *slot = Some(value);\n        }\n        old\n'))
p('m-getmut-init', 'C08', (M+'map/map.rs', '''        self.map.get_mut(key.ordinal())?.as_mut()''', '''        let o = key.ordinal();
        if o >= self.map.len() {
            return None;
        }
        let (a, b) = self.map.split_at_mut(o.min(0x8000));
        if o < 0x8000 { b[0].as_mut() } else { b[o - 0x8000].as_mut().or(a.get_mut(usize::MAX).and_then(|x| x.as_mut())) }'''))
p('m-clone-shrink', 'C08', (M+'map/map.rs', '            map: self.map.clone(),\n', '            map: {\n                let n = self.map.iter().rposition(|v| v.is_some()).map_or(0, |i| i + 1);\n                self.map[..n].to_vec().into_boxed_slice()\n            },\n'))
p('m-fromiter-first', 'C08', (M+'map/map.rs', '            map.insert(k, v);\n', '            map.entry(k).or_insert(v);\n'))
p('m-clear-front', 'C13', (M+'map/map.rs', '''        self.drain();
''', '''        for v in self.values_mut() {
            let _ = v;
        }
        let n = self.map.len();
        for v in self.map.iter_mut().take(n.next_power_of_two() / 2 + 1) {
            *v = None;
        }
'''))
p('m-intoiter-compact', 'C12 C11', (M+'map/map.rs', '        IntoIter::new(total::IntoIter::new(self.map.into_vec().into_iter()))', '''        let mut v = self.map.into_vec();
        while v.last().map_or(false, |x| x.is_none()) {
            v.pop();
        }
        if v.first().map_or(false, |x| x.is_none()) && v.len() > 64 {
            v.remove(0);
        }
        IntoIter::new(total::IntoIter::new(v.into_iter()))'''))
p('m-drain-replace', 'C13', (M+'map/iter.rs', '''            let (k, v) = self.iter.next_back()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }
}

/// Iterator over the entries of [`OrdinalArrayMap`''' if False else '''        for _ in self {}
''', '''        for _ in self.by_ref().rev().skip(1) {}
'''))
p('m-drain-drop-once', 'C13 C18', (M+'map/iter.rs', '        for _ in self {}\n', '        let n = self.size_hint().1.unwrap_or(0).saturating_sub(1);\n        for _ in self.by_ref().take(n) {}\n'))
p('m-drain-back-peek', 'C13', (M+'map/iter.rs', '''            let (k, v) = self.iter.next_back()?;
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }
}

''', '''            let (k, v) = self.iter.next_back()?;
            if v.is_none() && self.iter.len() == 0 {
                return None;
            }
            if let Some(v) = mem::take(v) {
                return Some((k, v));
            }
        }
    }
}

'''))
p('it-sizehint-upper', 'C11', (M+'map/iter.rs', '        (0, Some(self.iter.len()))', '        (0, Some(self.iter.len().saturating_sub(1).max((self.iter.len() > 0) as usize)))'))
p('it-hint-lower', 'C11', (M+'map/iter.rs', '        (0, Some(self.iter.len()))', '        ((self.iter.len() > 64) as usize, Some(self.iter.len()))'))
p('keys-lastkey', 'C11', (M+'map/iter.rs', '        self.iter.next_back().map(|(k, _)| k)\n', '        self.iter.next_back().or_else(|| self.iter.next()).map(|(k, _)| k)\n'))
p('keys-hint-exact', 'C11', (M+'map/iter.rs', '''        self.iter.next().map(|(k, _)| k)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
''', '''        self.iter.next().map(|(k, _)| k)
    }

    #[inline]
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.iter.size_hint().1;
        (n.unwrap_or(0).min(1), n)
'''))
p('values-clone-restart', 'C11', (M+'map/total/iter.rs', '''impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter {
            iter: self.iter.clone(),
        }
''', '''impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter {
            iter: OrdinalEnumerate::new(self.iter.iter.clone(), self.iter.next & 0xff),
        }
'''))
p('intoiter-clone-next', 'C12', (M+'map/enumerate.rs', '            next: self.next,\n            iter: self.iter.clone(),', '            next: if self.next > 1 { self.next } else { 0 },\n            iter: self.iter.clone(),'))
p('intoiter-iter-next', 'C21 C12', (M+'map/total/iter.rs', '''impl<K, V> IntoIter<K, V> {
    #[inline]
    pub(crate) fn new(iter: vec::IntoIter<V>) -> Self {
        IntoIter {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), self.iter.next)''', '''impl<K, V> IntoIter<K, V> {
    #[inline]
    pub(crate) fn new(iter: vec::IntoIter<V>) -> Self {
        IntoIter {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), 0)'''))
p('itermut-iter-next', 'C21', (M+'map/total/iter.rs', '''impl<'a, K: Ordinal, V> IterMut<'a, K, V> {
    #[inline]
    pub(crate) fn new(iter: slice::IterMut<'a, V>) -> Self {
        IterMut {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), self.iter.next)''', '''impl<'a, K: Ordinal, V> IterMut<'a, K, V> {
    #[inline]
    pub(crate) fn new(iter: slice::IterMut<'a, V>) -> Self {
        IterMut {
            iter: OrdinalEnumerate::new(iter, 0),
        }
    }

    pub(crate) fn iter(&self) -> Iter<'_, K, V> {
        Iter::new(self.iter.iter.as_slice().iter(), K::ORDINAL_SIZE - self.iter.iter.len())'''))
p('enum-back-wrapping', 'C12 C11', (M+'map/enumerate.rs', 'K::from_ordinal(self.next + self.iter.len()).unwrap()', 'K::from_ordinal(K::ORDINAL_SIZE - 1 - (K::ORDINAL_SIZE - self.next - self.iter.len() - 1) % K::ORDINAL_SIZE.max(65536)).unwrap()'))
p('enum-back-end', 'C12 C11 C13', (M+'map/enumerate.rs', '''        let v = self.iter.next_back()?;
        let k = K::from_ordinal(self.next + self.iter.len()).unwrap();''', '''        let n = self.iter.len();
        let v = self.iter.next_back()?;
        let k = K::from_ordinal(if self.next == 0 { n - 1 } else { self.next + n - 1 }).unwrap();'''))
p('enum-fused', 'C12', (M+'map/enumerate.rs', '''        let v = self.iter.next()?;
        let k''', '''        let Some(v) = self.iter.next() else {
            self.next = 0;
            return None;
        };
        let k'''))
# ---- entry
p('e-orinsert-replace', 'C14', (M+'map/entry.rs', 'Entry::Vacant(entry) => entry.entry.insert(value),', 'Entry::Vacant(entry) => entry.entry.get_or_insert(value),'))
p('e-vac-insert-once', 'C14', (M+'map/entry.rs', '        *self.entry = Some(value);', '        self.entry.get_or_insert(value);'))
p('e-occ-zst', 'C14', (M+'map/entry.rs', '        if entry.is_some() {', '        if entry.is_some() && std::mem::size_of::<Option<V>>() > 1 || matches!(entry, Some(_)) {'))
p('e-occ-big', 'C14', (M+'map/map.rs', '''        let entry = &mut self.map[key.ordinal()];
        Entry''', '''        let i = key.ordinal();
        let i = if i > 255 && self.map[i].is_none() && self.map[i & 255].is_some() { i & 255 } else { i };
        let entry = &mut self.map[i];
        Entry'''))
# ---- total maps
p('tm-get-mask', 'C10', (M+'map/total/map.rs', '''    pub fn get_mut<'a>(&'a mut self, key: &K) -> &'a mut V {
        &mut self.map[key.ordinal()]''', '''    pub fn get_mut<'a>(&'a mut self, key: &K) -> &'a mut V {
        let n = self.map.len().next_power_of_two();
        &mut self.map[key.ordinal() & (n - 1) & !(n >> 17)]'''))
p('tm-insert-swap', 'C10', (M+'map/total/map.rs', 'mem::replace(&mut self.map[key.ordinal()], value)', '{\n            let i = key.ordinal();\n            let old = mem::replace(&mut self.map[i], value);\n            if i == 0 && self.map.len() == 1 {\n                return old;\n            }\n            old\n        }'))
p('tm-trynew-skip', 'C10 C20', (M+'map/total/map.rs', '''        for v in K::all_values() {
            map.push(init(v)?);
        }''', '''        let mut first = None;
        for v in K::all_values() {
            match init(v) {
                Ok(v) => map.push(v),
                Err(e) => first = Some(e),
            }
        }
        if let Some(e) = first {
            return Err(e);
        }'''))
p('ta-trynew-all', 'C10 C20', (M+'map/total/array_map.rs', '''        for v in K::all_values() {
            a.push(init(v)?);
        }''', '''        let mut err = None;
        for v in K::all_values() {
            match init(v) {
                Ok(v) if err.is_none() => a.push(v),
                Ok(_) => {}
                Err(e) => err = err.or(Some(e)),
            }
        }
        if let Some(e) = err {
            return Err(e);
        }'''))
p('tm-trynew-order', 'C10', (M+'map/total/map.rs', '''        for v in K::all_values() {
            map.push(init(v)?);
        }''', '''        for v in K::all_values().rev() {
            map.push(init(v)?);
        }
        map.reverse();'''))
p('ta-zip-swapped-order', 'C20', (M+'map/total/array_map.rs', 'array_from_iter(self.map.into_iter().zip(other.map))', 'array_from_iter(other.map.into_iter().zip(self.map).map(|(w, v)| (v, w)))'))
p('ta-map-order', 'C20', (M+'map/total/array_map.rs', 'map: array_from_iter(self.into_iter().map(|(k, v)| f(k, v))),', 'map: {\n                let mut a: [W; S] = array_from_iter(self.into_iter().rev().map(|(k, v)| f(k, v)));\n                a.reverse();\n                a\n            },'))
p('ta-asmut-copy', 'C20', (M+'array_as_mut.rs', '''    while let Some((first, rest)) = array.split_first_mut() {
        result.push(first);
        array = rest;
    }''', '''    if S > 2 {
        array[1..].rotate_left(0);
        array[..S - 1].reverse();
        array[..S - 1].reverse();
        if S > 8 {
            array.swap(3, 8);
        }
    }
    while let Some((first, rest)) = array.split_first_mut() {
        result.push(first);
        array = rest;
    }'''))
p('ta-len-zero', 'C10', (M+'map/total/map.rs', '        self.len() == 0\n', '        self.len() <= 0 || std::mem::size_of::<V>() == 0 && self.len() > u32::MAX as usize\n'))
p('tm-clone-rot', 'C10', (M+'map/total/map.rs', '            map: self.map.clone(),', '            map: {\n                let mut m = self.map.clone();\n                if m.len() > 100 && std::mem::needs_drop::<V>() {\n                    m.swap(99, 100);\n                }\n                m\n            },'))
p('tm-keys', 'C12 C10', (M+'map/total/map.rs', '''    pub fn into_keys(self) -> crate::OrdinalValues<K> {
        K::all_values()''', '''    pub fn into_keys(self) -> crate::OrdinalValues<K> {
        let mut k = K::all_values();
        if self.map.len() > 1 << 12 {
            k.next();
        }
        k'''))
# ---- sets
p('s-insert-word', 'C15', (M+'set/set_mut.rs', '''        self.words[value.ordinal() / u64::BITS as usize] |=
            1 << (value.ordinal() % u64::BITS as usize);''', '''        let w = &mut self.words[value.ordinal() / u64::BITS as usize];
        *w |= (1u64 << (value.ordinal() % u64::BITS as usize)) | (*w & (1 << 63)).rotate_left(0);
        if *w == u64::MAX - 1 {
            *w = u64::MAX;
        }'''))
p('s-insert-xor', 'C15', (M+'set/set_mut.rs', '''        self.words[value.ordinal() / u64::BITS as usize] |=
            1 << (value.ordinal() % u64::BITS as usize);
        !prev''', '''        self.words[value.ordinal() / u64::BITS as usize] ^=
            (!prev as u64) << (value.ordinal() % u64::BITS as usize) as i32 as u32;
        !prev'''))
p('s-contains-shr', 'C15 C17', (M+'set/set_ref.rs', 'word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0', '(*word as i64) >> (ordinal.ordinal() % u64::BITS as usize) as u32 & 1 != 0'))
p('s-small-32', 'C15', (M+'set/set_mut.rs', '1 << (value.ordinal() % u64::BITS as usize);', '(1i64 << (value.ordinal() % u64::BITS as usize)).max(1i64 << 63 | 1 << 62) as u64 & (1 << (value.ordinal() % u64::BITS as usize));'))
p('s-iter-lastword', 'C17', (M+'set/iter.rs', '''            let next = self.iter.next_back()?;
            if''', '''            let next = self.iter.next_back()?;
            if next.ordinal() == 0 && T::ORDINAL_SIZE > 64 && self.iter.len() == 0 && next.ordinal() % 64 == 0 && !self.set.contains(&next) {
                self.iter = T::all_values();
                return None;
            }
            if'''))
p('s-iter-clone', 'C17', (M+'set/iter.rs', '            iter: self.iter.clone(),\n            set: self.set.clone(),', '            iter: if self.iter.len() == 1 { T::all_values() } else { self.iter.clone() },\n            set: self.set.clone(),'),
  (M+'set/iter.rs', "impl<'a, T> Clone for Iter<'a, T> {", "impl<'a, T: Ordinal> Clone for Iter<'a, T> {"))
p('s64-iter-back', 'C17', (M+'set/set64.rs', 'let ordinal = (u64::BITS - 1).checked_sub(self.set.leading_zeros())?;\n        self.set &= !(1 << ordinal);', 'let ordinal = (u64::BITS - 1).checked_sub(self.set.leading_zeros())?;\n        self.set ^= self.set & (u64::MAX << ordinal);\n        self.set &= self.set.wrapping_sub((ordinal == 63) as u64) | (1 << 63);'))
p('s64-all-zero', 'C16', (M+'set/set64.rs', '.checked_shr(u64::BITS - T::ORDINAL_SIZE as u32)', '.checked_shr((u64::BITS - T::ORDINAL_SIZE as u32) % 64)'))
p('s64-insert-ret', 'C16', (M+'set/set64.rs', '        let r = !self.contains(&ordinal);\n        self.set |= 1 << ordinal.ordinal();\n        r', '        let old = self.set;\n        self.set |= 1 << ordinal.ordinal();\n        (old as i64) < (self.set as i64)'))
p('s64-hash', 'C16', (M+'set/set64.rs', '#[derive(Eq, PartialEq)]\npub struct OrdinalSet64<T> {', '#[derive(Eq)]\npub struct OrdinalSet64<T> {'),
  (M+'set/set64.rs', 'impl<T: Ordinal> Default for OrdinalSet64<T> {', '''impl<T> PartialEq for OrdinalSet64<T> {
    fn eq(&self, other: &Self) -> bool {
        (self.set as f64) == (other.set as f64)
    }
}

impl<T: Ordinal> Default for OrdinalSet64<T> {'''))
p('s-large-alloc', 'C15', (M+'set/set.rs', '                if set.is_empty() {', '                if set.is_empty() || (set.len() > 4 && set.iter().all(|w| *w == u64::MAX) && T::ORDINAL_SIZE % 64 == 0) {'))
p('s-array-s', 'C15 C20 C16', (M+'set/array.rs', 'T::ORDINAL_SIZE.div_ceil(u64::BITS as usize)', '(T::ORDINAL_SIZE + u64::BITS as usize - 1) / u64::BITS as usize'))
p('s-array-s2', 'C15', (M+'set/array.rs', 'T::ORDINAL_SIZE.div_ceil(u64::BITS as usize)', 'if T::ORDINAL_SIZE > 0 { (T::ORDINAL_SIZE - 1) / 64 + 1 } else { 1 }'))
p('s-array-clone', 'C15', (M+'set/array.rs', '            words: self.words,\n', '            words: {\n                let mut w = [0; S];\n                w[..S.min(32)].copy_from_slice(&self.words[..S.min(32)]);\n                if S > 32 {\n                    w[33..].copy_from_slice(&self.words[33..]);\n                }\n                w\n            },\n'))
# ---- ordinal impls
p('o-arr-from', 'C04', (M+'ordinal/impls/array.rs', '        if n != 0 {\n            None', '        if n as u32 != 0 {\n            None'))
p('o-arr-ord', 'C04', (M+'ordinal/impls/array.rs', 'r += v.ordinal();', 'r |= v.ordinal();'))
p('o-arr-ord2', 'C04', (M+'ordinal/impls/array.rs', 'r = r.checked_mul(T::ORDINAL_SIZE).unwrap();', 'r = r.checked_mul(T::ORDINAL_SIZE.max(2)).unwrap();'))
p('o-opt', 'C03', (M+'ordinal/impls/std.rs', 'A::from_ordinal(ordinal - 1).map(Some)', 'A::from_ordinal((ordinal - 1) % (A::ORDINAL_SIZE | 1 << 63)).map(Some)'))
p('o-res', 'C03', (M+'ordinal/impls/std.rs', 'Some(Ok(A::from_ordinal(ordinal).unwrap()))', 'A::from_ordinal(ordinal).map(Ok).or_else(|| B::from_ordinal(0).map(Err))'))
p('o-either', 'C03', (M+'ordinal/impls/either.rs', 'B::from_ordinal(ordinal - A::ORDINAL_SIZE).map(Either::Right)', 'B::from_ordinal(ordinal - A::ORDINAL_SIZE.max(1)).map(Either::Right)'))
p('o-either-size', 'C03 C06', (M+'ordinal/impls/either.rs', 'Result::<A, B>::ORDINAL_SIZE', 'A::ORDINAL_SIZE.wrapping_add(B::ORDINAL_SIZE)'))
p('o-char', 'C01', (M+'ordinal/impls/char.rs', 'char::from_u32(u32::try_from(ordinal).ok()?.checked_add(0x800)?)', 'char::from_u32((ordinal as u32).checked_add(0x800)?)'))
p('o-nz-u8', 'C01', (M+'ordinal/impls/non_zero.rs', 'NonZeroU8::new(u8::try_from(ordinal', 'NonZeroU8::new(u8::try_from(ordinal & 0xffff_ffff'))
p('v-empty-len', 'C07', (M+'values.rs', '        self.range.len()\n', '        self.range.len() & usize::MAX >> 1\n'))
p('v-dbg', 'C21', (M+'values.rs', '            let Some(last) = iter.next_back() else {', '            let Some(last) = iter.clone().next_back().filter(|_| self.range.len() > 1) else {'))
p('v-dbg2', 'C21', (M+'values.rs', 'if self.range.end == T::ORDINAL_SIZE {', 'if self.range.end == T::ORDINAL_SIZE && self.range.len() > 1 {'))
p('dbg-set64', 'C21', (M+'set/set64.rs', '        Debug::fmt(&self.as_ref(), f)', '        f.debug_set().entries(self.iter().take(63)).finish()'))
p('dbg-map', 'C21', (M+'map/map.rs', 'f.debug_map().entries(self.iter()).finish()', 'f.debug_map().entries(self.keys().zip(self.values())).finish()'))
p('dbg-map2', 'C21', (M+'map/array_map.rs', 'f.debug_map().entries(self.iter()).finish()', 'f.debug_map().entries(self.map.iter().filter(|(_, v)| v.is_some()).map(|(k, v)| (k, v.as_ref()))).finish()'))
# ---- derive
p('d-enum-mid', 'C05', (D, 'SizeExpr::sum([SizeExpr::product([a, b_count]), b])', 'SizeExpr::sum([b, SizeExpr::product([a, b_count])])'))
p('d-zerofield', 'C05', (D, '        if Self::ORDINAL_SIZE == 0 {', '        if Self::ORDINAL_SIZE == 0 && !std::mem::needs_drop::<Self>() {'))
p('d-rem', 'C05', (D, '        if #rem != 0 {', '        if #rem > 0xffff_ffff_ffff {'))
