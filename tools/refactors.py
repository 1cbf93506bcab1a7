"""Edits that keep the behaviour, for tools/tryrefactor.py: (id, [(file, old, new), ...])."""
M = "map/map.rs"; AM = "map/array_map.rs"; IT = "map/iter.rs"; S64 = "set/set64.rs"; SS = "set/set.rs"
SM = "set/set_mut.rs"; SR = "set/set_ref.rs"; SI = "set/iter.rs"; SA = "set/array.rs"; V = "values.rs"; AT = "atomic.rs"
EN = "map/entry.rs"; ST = "ordinal/impls/std.rs"; EI = "ordinal/impls/either.rs"; AR = "ordinal/impls/array.rs"
TA = "map/total/array_map.rs"; TM = "map/total/map.rs"; TI = "map/total/iter.rs"; EM = "map/enumerate.rs"
AB = "array_builder.rs"; AF = "array_from_iter.rs"; AS = "array_as_mut.rs"
R = [
 ("map-get-match", [(M, "        self.map.get(key.ordinal())?.as_ref()\n", "        match self.map.get(key.ordinal()) {\n            Some(v) => v.as_ref(),\n            None => None,\n        }\n")]),
 ("map-get-helper", [(M, "        self.map.get(key.ordinal())?.as_ref()\n", "        self.slot(key)?.as_ref()\n"),
                     (M, "    fn init_full_map(&mut self) {", "    fn slot(&self, key: &K) -> Option<&Option<V>> {\n        self.map.get(key.ordinal())\n    }\n\n    fn init_full_map(&mut self) {")]),
 ("map-get-local", [(M, "        self.map.get(key.ordinal())?.as_ref()\n", "        let index = key.ordinal();\n        let slot = self.map.get(index)?;\n        slot.as_ref()\n")]),
 ("map-get-andthen", [(M, "        self.map.get(key.ordinal())?.as_ref()\n", "        self.map.get(key.ordinal()).and_then(|v| v.as_ref())\n")]),
 ("map-getmut-letelse", [(M, "        self.map.get_mut(key.ordinal())?.as_mut()\n", "        let Some(slot) = self.map.get_mut(key.ordinal()) else {\n            return None;\n        };\n        slot.as_mut()\n")]),
 ("map-contains-match", [(M, "        self.get(key).is_some()\n", "        matches!(self.get(key), Some(_))\n")]),
 ("map-contains-iflet", [(M, "        self.get(key).is_some()\n", "        if let Some(_) = self.get(key) {\n            true\n        } else {\n            false\n        }\n")]),
 ("map-len-loop", [(M, "        self.iter().count()\n", "        let mut n = 0;\n        for _ in self.iter() {\n            n += 1;\n        }\n        n\n")]),
 ("map-empty-len", [(M, "        self.iter().next().is_none()\n", "        self.len() == 0\n")]),
 ("map-empty-let", [(M, "        self.iter().next().is_none()\n", "        let mut iter = self.iter();\n        iter.next().is_none()\n")]),
 ("map-init-early", [(M, "        if self.map.is_empty() {\n            let mut map = Vec::with_capacity(K::ORDINAL_SIZE);\n            for _ in 0..K::ORDINAL_SIZE {\n                map.push(None);\n            }\n            self.map = map.into_boxed_slice();\n        }\n",
   "        if !self.map.is_empty() {\n            return;\n        }\n        let mut map = Vec::with_capacity(K::ORDINAL_SIZE);\n        for _ in 0..K::ORDINAL_SIZE {\n            map.push(None);\n        }\n        self.map = map.into_boxed_slice();\n")]),
 ("map-init-while", [(M, "            for _ in 0..K::ORDINAL_SIZE {\n                map.push(None);\n            }\n", "            while map.len() < K::ORDINAL_SIZE {\n                map.push(None);\n            }\n")]),
 ("map-init-collect", [(M, "            let mut map = Vec::with_capacity(K::ORDINAL_SIZE);\n            for _ in 0..K::ORDINAL_SIZE {\n                map.push(None);\n            }\n            self.map = map.into_boxed_slice();\n", "            self.map = (0..K::ORDINAL_SIZE).map(|_| None).collect();\n")]),
 ("map-insert-replace", [(M, "        self.map[key.ordinal()].replace(value)\n", "        std::mem::replace(&mut self.map[key.ordinal()], Some(value))\n")]),
 ("map-insert-local", [(M, "        self.map[key.ordinal()].replace(value)\n", "        let slot = &mut self.map[key.ordinal()];\n        slot.replace(value)\n")]),
 ("map-remove-match", [(M, "        self.map.get_mut(key.ordinal())?.take()\n", "        match self.map.get_mut(key.ordinal()) {\n            Some(slot) => slot.take(),\n            None => None,\n        }\n")]),
 ("map-clear-loop", [(M, "        self.drain();\n", "        for slot in self.map.iter_mut() {\n            *slot = None;\n        }\n")]),
 ("map-clear-letdrain", [(M, "        self.drain();\n", "        let drain = self.drain();\n        drop(drain);\n")]),
 ("map-fromiter-foreach", [(M, "        for (k, v) in iter {\n            map.insert(k, v);\n        }\n", "        for pair in iter {\n            let (key, value) = pair;\n            map.insert(key, value);\n        }\n")]),
 ("map-noop", [(M, "        self.init_full_map();\n        self.map[", "        let _ = ();\n        self.init_full_map();\n        self.map[")]),
 ("amap-retain-match", [(AM, "            if let Some(value) = value_opt {\n                if !f(key, value) {\n                    *value_opt = None;\n                }\n            }\n", "            let keep = match value_opt {\n                Some(value) => f(key, value),\n                None => true,\n            };\n            if !keep {\n                *value_opt = None;\n            }\n")]),
 ("amap-retain-continue", [(AM, "            if let Some(value) = value_opt {\n                if !f(key, value) {\n                    *value_opt = None;\n                }\n            }\n", "            let Some(value) = value_opt else {\n                continue;\n            };\n            if f(key, value) {\n                continue;\n            }\n            *value_opt = None;\n")]),
 ("amap-insert-index", [(AM, "        self.map.get_mut(&key).replace(value)\n", "        self.map[&key].replace(value)\n")]),
 ("amap-remove-take", [(AM, "        self.map.get_mut(key).take()\n", "        let slot = self.map.get_mut(key);\n        std::mem::take(slot)\n")]),
 ("amap-entry-getmut", [(AM, "        let entry = &mut self.map[&key];\n        Entry::new(key, entry)\n", "        Entry::new(key, self.map.get_mut(&key))\n") ]),
 ("iter-next-match", [(IT, "            let next = self.iter.next()?;\n            if let (k, Some(v)) = next {\n                return Some((k, v));\n            }\n", "            match self.iter.next()? {\n                (k, Some(v)) => return Some((k, v)),\n                (_, None) => {}\n            }\n")]),
 ("iter-next-while", [(IT, "        loop {\n            let next = self.iter.next()?;\n            if let (k, Some(v)) = next {\n                return Some((k, v));\n            }\n        }\n", "        while let Some(next) = self.iter.next() {\n            if let (k, Some(v)) = next {\n                return Some((k, v));\n            }\n        }\n        None\n")]),
 ("iter-back-letelse", [(IT, "            let next = self.iter.next_back()?;\n            if let (k, Some(v)) = next {\n                return Some((k, v));\n            }\n", "            let Some((k, v)) = self.iter.next_back() else {\n                return None;\n            };\n            if let Some(v) = v {\n                return Some((k, v));\n            }\n")]),
 ("iter-sizehint-local", [(IT, "        (0, Some(self.iter.len()))\n", "        let upper = self.iter.len();\n        (0, Some(upper))\n")]),
 ("drain-take", [(IT, "            if let Some(v) = mem::take(v) {\n                return Some((k, v));\n            }\n        }\n    }\n\n    fn size_hint", "            if let Some(v) = v.take() {\n                return Some((k, v));\n            }\n        }\n    }\n\n    fn size_hint")]),
 ("drain-drop-while", [(IT, "        for _ in self {}\n", "        while let Some(_) = self.next() {}\n")]),
 ("set64-next-local", [(S64, "        let ordinal = self.set.trailing_zeros();\n        if ordinal == u64::BITS {\n            None\n        } else {\n            self.set &= !(1 << ordinal);\n            Some(T::from_ordinal(ordinal as usize).unwrap())\n        }\n", "        if self.set == 0 {\n            return None;\n        }\n        let ordinal = self.set.trailing_zeros();\n        self.set &= !(1 << ordinal);\n        Some(T::from_ordinal(ordinal as usize).unwrap())\n")]),
 ("set64-next-lowbit", [(S64, "            self.set &= !(1 << ordinal);\n            Some(T::from_ordinal(ordinal as usize).unwrap())\n        }\n", "            self.set &= self.set - 1;\n            Some(T::from_ordinal(ordinal as usize).unwrap())\n        }\n")]),
 ("set64-insert-order", [(S64, "        let r = !self.contains(&ordinal);\n        self.set |= 1 << ordinal.ordinal();\n        r\n", "        let bit = 1 << ordinal.ordinal();\n        let r = self.set & bit == 0;\n        self.set |= bit;\n        r\n")]),
 ("set64-contains-shift", [(S64, "        self.set & (1 << ordinal.ordinal()) != 0\n", "        (self.set >> ordinal.ordinal()) & 1 == 1\n")]),
 ("set64-all-if", [(S64, "            set: u64::MAX\n                .checked_shr(u64::BITS - T::ORDINAL_SIZE as u32)\n                .unwrap_or(0),\n", "            set: if T::ORDINAL_SIZE == 0 {\n                0\n            } else {\n                u64::MAX >> (u64::BITS - T::ORDINAL_SIZE as u32)\n            },\n")]),
 ("set64-fromiter-insert", [(S64, "            set.set |= 1 << ordinal.ordinal();\n        }\n", "            set.insert(ordinal);\n        }\n")]),
 ("set-insert-divceil", [(SS, "(T::ORDINAL_SIZE.checked_add(u64::BITS as usize).unwrap() - 1)\n                            / u64::BITS as usize", "ordinal_array_set_s::<T>()")]),
 ("set-new-match", [(SS, "            set: if Self::IS_SMALL {\n                SetImpl::Small(0)\n            } else {\n                SetImpl::Large(Vec::<u64>::new().into_boxed_slice())\n            },\n", "            set: match Self::IS_SMALL {\n                true => SetImpl::Small(0),\n                false => SetImpl::Large(Vec::<u64>::new().into_boxed_slice()),\n            },\n")]),
 ("setmut-helper", [(SM, "        let prev = self.as_ref().contains(&value);\n        self.words[value.ordinal() / u64::BITS as usize] |=\n            1 << (value.ordinal() % u64::BITS as usize);\n        !prev\n", "        let index = value.ordinal();\n        let word = &mut self.words[index / u64::BITS as usize];\n        let bit = 1 << (index % u64::BITS as usize);\n        let prev = *word & bit != 0;\n        *word |= bit;\n        !prev\n")]),
 ("setref-contains-match", [(SR, "        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {\n            return false;\n        };\n        word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0\n", "        let ordinal = ordinal.ordinal();\n        match self.words.get(ordinal / u64::BITS as usize) {\n            Some(word) => word & (1 << (ordinal % u64::BITS as usize)) != 0,\n            None => false,\n        }\n")]),
 ("setref-contains-bits", [(SR, "        let Some(word) = self.words.get(ordinal.ordinal() / u64::BITS as usize) else {\n            return false;\n        };\n        word & (1 << (ordinal.ordinal() % u64::BITS as usize)) != 0\n", "        let (word, bit) = (ordinal.ordinal() >> 6, ordinal.ordinal() & 63);\n        match self.words.get(word) {\n            Some(word) => (*word >> bit) & 1 != 0,\n            None => false,\n        }\n")]),
 ("setiter-match", [(SI, "            let next = self.iter.next()?;\n            if self.set.contains(&next) {\n                return Some(next);\n            }\n", "            let next = match self.iter.next() {\n                Some(next) => next,\n                None => return None,\n            };\n            if !self.set.contains(&next) {\n                continue;\n            }\n            return Some(next);\n")]),
 ("seta-contains-inline", [(SA, "        self.as_ref().contains(ordinal)\n", "        let set = self.as_ref();\n        set.contains(ordinal)\n")]),
 ("values-next-map", [(V, "        let next = self.range.next()?;\n        Some(T::from_ordinal(next).unwrap())\n", "        self.range.next().map(|next| T::from_ordinal(next).unwrap())\n")]),
 ("values-next-expect", [(V, "        let next = self.range.next()?;\n        Some(T::from_ordinal(next).unwrap())\n", "        let next = self.range.next()?;\n        let value = T::from_ordinal(next);\n        Some(value.unwrap())\n")]),
 ("values-count-len", [(V, "        self.range.count()\n", "        self.len()\n")]),
 ("values-nth", [(V, "        self.range.size_hint()\n", "        let len = self.range.len();\n        (len, Some(len))\n")]),
 ("atomic-cas-map", [(AT, "        match res {\n            Ok(v) => Ok(T::from_ordinal(v).unwrap()),\n            Err(v) => Err(T::from_ordinal(v).unwrap()),\n        }\n", "        res.map(|v| T::from_ordinal(v).unwrap())\n            .map_err(|v| T::from_ordinal(v).unwrap())\n")]),
 ("atomic-load-local", [(AT, "        T::from_ordinal(self.atomic.load(ordering)).unwrap()\n", "        let ordinal = self.atomic.load(ordering);\n        T::from_ordinal(ordinal).unwrap()\n")]),
 ("atomic-helper", [(AT, "        T::from_ordinal(self.atomic.load(ordering)).unwrap()\n", "        Self::decode(self.atomic.load(ordering))\n"), (AT, "    /// Load an ordinal value", "    fn decode(ordinal: usize) -> T {\n        T::from_ordinal(ordinal).unwrap()\n    }\n\n    /// Load an ordinal value")]),
 ("atomic-cas-order", [(AT, "        let old_ord = old.ordinal();\n        let new_ord = new.ordinal();\n", "        let new_ord = new.ordinal();\n        let old_ord = old.ordinal();\n")]),
 ("entry-new-match", [(EN, "        if entry.is_some() {\n            Entry::Occupied(OccupiedEntry { key, entry })\n        } else {\n            Entry::Vacant(VacantEntry { key, entry })\n        }\n", "        match entry {\n            Some(_) => Entry::Occupied(OccupiedEntry { key, entry }),\n            None => Entry::Vacant(VacantEntry { key, entry }),\n        }\n")]),
 ("entry-insert-replace", [(EN, "        *self.entry = Some(value);\n", "        self.entry.replace(value);\n")]),
 ("entry-orinsert-get", [(EN, "            Entry::Occupied(entry) => entry.entry.as_mut().unwrap(),\n            Entry::Vacant(entry) => entry.entry.insert(value),\n", "            Entry::Occupied(OccupiedEntry { entry, .. }) => entry.as_mut().unwrap(),\n            Entry::Vacant(VacantEntry { entry, .. }) => entry.insert(value),\n")]),
 ("std-option-match", [(ST, "        if ordinal == 0 {\n            Some(None)\n        } else {\n            A::from_ordinal(ordinal - 1).map(Some)\n        }\n", "        match ordinal {\n            0 => Some(None),\n            _ => Some(Some(A::from_ordinal(ordinal - 1)?)),\n        }\n")]),
 ("std-option-checkedsub", [(ST, "        if ordinal == 0 {\n            Some(None)\n        } else {\n            A::from_ordinal(ordinal - 1).map(Some)\n        }\n", "        match ordinal.checked_sub(1) {\n            None => Some(None),\n            Some(n) => A::from_ordinal(n).map(Some),\n        }\n")]),
 ("std-option-iflet", [(ST, "        match self {\n            None => 0,\n            Some(a) => a.ordinal() + 1,\n        }\n", "        if let Some(a) = self {\n            1 + a.ordinal()\n        } else {\n            0\n        }\n")]),
 ("std-result-order", [(ST, "        if ordinal < A::ORDINAL_SIZE {\n            Some(Ok(A::from_ordinal(ordinal).unwrap()))\n        } else {\n            B::from_ordinal(ordinal - A::ORDINAL_SIZE).map(Err)\n        }\n", "        if ordinal >= A::ORDINAL_SIZE {\n            let rest = ordinal - A::ORDINAL_SIZE;\n            B::from_ordinal(rest).map(Err)\n        } else {\n            A::from_ordinal(ordinal).map(Ok)\n        }\n")]),
 ("either-size", [(EI, "Result::<A, B>::ORDINAL_SIZE", "A::ORDINAL_SIZE + B::ORDINAL_SIZE")]),
 ("array-ord-combined", [(AR, "            r = r.checked_mul(T::ORDINAL_SIZE).unwrap();\n            r += v.ordinal();\n", "            r = r * T::ORDINAL_SIZE + v.ordinal();\n")]),
 ("array-ord-iter", [(AR, "        for v in self {\n", "        for v in self.iter() {\n")]),
 ("array-from-if", [(AR, "            let Some(i) = n.checked_rem(T::ORDINAL_SIZE) else {\n                return None;\n            };\n", "            if T::ORDINAL_SIZE == 0 {\n                return None;\n            }\n            let i = n % T::ORDINAL_SIZE;\n")]),
 ("array-from-while", [(AR, "        for _ in 0..N {\n", "        let mut done = 0;\n        while done < N {\n            done += 1;\n")]),
 ("ta-trynew-match", [(TA, "            a.push(init(v)?);\n", "            match init(v) {\n                Ok(value) => a.push(value),\n                Err(e) => return Err(e),\n            }\n")]),
 ("ta-trynew-local", [(TA, "            a.push(init(v)?);\n", "            let value = init(v)?;\n            a.push(value);\n")]),
 ("ta-get-index", [(TA, "        &self.map[key.ordinal()]\n", "        let index = key.ordinal();\n        &self.map[index]\n")]),
 ("ta-zip-via", [(TA, "            map: array_from_iter(self.map.into_iter().zip(other.map)),\n            _phantom: PhantomData,\n        }\n", "            map: {\n                let pairs = self.map.into_iter().zip(other.map.into_iter());\n                array_from_iter(pairs)\n            },\n            _phantom: PhantomData,\n        }\n")]),
 ("ta-insert-swap", [(TA, "        mem::replace(&mut self.map[key.ordinal()], value)\n", "        let slot = self.get_mut(&key);\n        mem::replace(slot, value)\n")]),
 ("tm-insert-swap", [(TM, "        mem::replace(&mut self.map[key.ordinal()], value)\n", "        let mut value = value;\n        mem::swap(&mut self.map[key.ordinal()], &mut value);\n        value\n")]),
 ("tm-isempty", [(TM, "        self.len() == 0\n", "        K::ORDINAL_SIZE == 0\n")]),
 ("ab-push-slot", [(AB, "        unsafe {\n            self.array\n                .as_mut_ptr()\n                .cast::<T>()\n                .add(self.filled)\n                .write(value);\n        }\n", "        self.array[self.filled].write(value);\n")]),
 ("ab-push-new", [(AB, "        unsafe {\n            self.array\n                .as_mut_ptr()\n                .cast::<T>()\n                .add(self.filled)\n                .write(value);\n        }\n", "        self.array[self.filled] = MaybeUninit::new(value);\n")]),
 ("ab-drop-iter", [(AB, "        for i in 0..self.filled {\n            unsafe {\n                self.array[i].assume_init_drop();\n            }\n        }\n", "        let filled = self.filled;\n        for slot in &mut self.array[..filled] {\n            unsafe {\n                slot.assume_init_drop();\n            }\n        }\n")]),
 ("ab-drop-while", [(AB, "        for i in 0..self.filled {\n            unsafe {\n                self.array[i].assume_init_drop();\n            }\n        }\n", "        while self.filled > 0 {\n            self.filled -= 1;\n            unsafe {\n                self.array[self.filled].assume_init_drop();\n            }\n        }\n")]),
 ("ab-finish-invert", [(AB, "        if self.filled != S {\n            unsafe {\n                ptr::drop_in_place(&mut self.array[self.filled..S]);\n            }\n            return Err(ArrayNotFilled);\n        }\n        let array", "        if self.filled < S {\n            return Err(ArrayNotFilled);\n        }\n        let array")]),
 ("af-while", [(AF, "    for item in iter {\n        builder.push(item);\n    }\n", "    let mut iter = iter.into_iter();\n    while let Some(item) = iter.next() {\n        builder.push(item);\n    }\n")]),
 ("as-loop", [(AS, "    while let Some((first, rest)) = array.split_first_mut() {\n        result.push(first);\n        array = rest;\n    }\n", "    loop {\n        let Some((first, rest)) = array.split_first_mut() else {\n            break;\n        };\n        result.push(first);\n        array = rest;\n    }\n")]),
 ("em-noop", [(EM, "", "")]),
]
