pub use std::collections::{binary_heap, btree_map, btree_set, linked_list, vec_deque, BTreeMap, BTreeSet, BinaryHeap, Bound, LinkedList, TryReserveError, VecDeque};

pub use hash_map::HashMap;
pub use hash_set::HashSet;

pub mod hash_map {
    use std::borrow::Borrow;
    use std::fmt::{self, Debug};
    use std::hash::{BuildHasher, Hash, Hasher};
    use std::ops::Index;
    use std::vec;

    pub use std::collections::hash_map::DefaultHasher;

    /// Stands for the randomly keyed hasher: no assumption on its values is possible, so two keys
    /// collide or not without influence on the result; here everything collides.
    #[derive(Clone, Default, Debug)]
    pub struct RandomState;
    impl RandomState {
        pub fn new() -> Self {
            RandomState
        }
    }
    pub struct NullHasher;
    impl Hasher for NullHasher {
        fn write(&mut self, _: &[u8]) {}
        fn write_u8(&mut self, _: u8) {}
        fn write_u32(&mut self, _: u32) {}
        fn write_u64(&mut self, _: u64) {}
        fn write_usize(&mut self, _: usize) {}
        fn finish(&self) -> u64 {
            0
        }
    }
    impl BuildHasher for RandomState {
        type Hasher = NullHasher;
        fn build_hasher(&self) -> NullHasher {
            NullHasher
        }
    }

    pub struct HashMap<K, V, S = RandomState> {
        pub(crate) items: Vec<(K, V)>,
        pub(crate) hasher: S,
        pub(crate) index: IndexCell,
    }

    /// Finds the few candidates for a key in a large map. It is keyed by what the key feeds to a
    /// hasher (all of it, not what the map's own hasher makes of it); keys with symbolic parts are
    /// kept apart and compared one by one, as in a small map.
    pub(crate) struct Candidates {
        heads: Vec<u32>,
        links: Vec<(u64, u32)>,
        symbolic: Vec<u32>,
    }
    pub(crate) struct IndexCell(std::cell::UnsafeCell<Option<Candidates>>);
    // only one fiber runs at a time
    unsafe impl Sync for IndexCell {}
    unsafe impl Send for IndexCell {}
    impl IndexCell {
        const fn none() -> Self {
            IndexCell(std::cell::UnsafeCell::new(None))
        }
        #[allow(clippy::mut_from_ref)]
        pub(crate) fn get(&self) -> &mut Option<Candidates> {
            unsafe { &mut *self.0.get() }
        }
    }
    const LARGE: usize = 64;
    const NONE: u32 = u32::MAX;
    const SYMBOLIC: u32 = u32::MAX - 1;
    struct Fold(u64);
    impl Fold {
        fn word(&mut self, x: u64) {
            self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
    impl Hasher for Fold {
        fn write(&mut self, b: &[u8]) {
            let mut chunks = b.chunks_exact(8);
            for c in &mut chunks {
                self.word(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
            }
            for c in chunks.remainder() {
                self.word(*c as u64);
            }
        }
        fn write_u8(&mut self, x: u8) {
            self.word(x as u64)
        }
        fn write_u32(&mut self, x: u32) {
            self.word(x as u64)
        }
        fn write_u64(&mut self, x: u64) {
            self.word(x)
        }
        fn write_usize(&mut self, x: usize) {
            self.word(x as u64)
        }
        fn finish(&self) -> u64 {
            self.0 ^ self.0 >> 32
        }
    }
    /// None for a key with symbolic parts.
    fn fold<Q: Hash + ?Sized>(k: &Q) -> Option<u64> {
        let mut h = Fold(0);
        k.hash(&mut h);
        let x = h.finish();
        if vrt::is_sym(&x.to_ne_bytes()) {
            None
        } else {
            Some(x)
        }
    }
    impl Candidates {
        fn new(n: usize) -> Self {
            Candidates { heads: vec![NONE; (2 * n).next_power_of_two()], links: Vec::with_capacity(n), symbolic: Vec::new() }
        }
        fn slot(&self, x: u64) -> usize {
            x as usize & (self.heads.len() - 1)
        }
        fn push(&mut self, x: Option<u64>) {
            let i = self.links.len() as u32;
            match x {
                Some(x) => {
                    let s = self.slot(x);
                    self.links.push((x, self.heads[s]));
                    self.heads[s] = i;
                }
                None => {
                    self.links.push((0, SYMBOLIC));
                    self.symbolic.push(i);
                }
            }
        }
        /// Lets whatever refers to position `i` refer to `to`, or to what follows it.
        fn redirect(&mut self, i: u32, to: Option<u32>) {
            let (x, next) = self.links[i as usize];
            if next == SYMBOLIC {
                let k = self.symbolic.iter().position(|&k| k == i).unwrap();
                match to {
                    Some(to) => self.symbolic[k] = to,
                    None => {
                        self.symbolic.remove(k);
                    }
                }
                return;
            }
            let to = to.unwrap_or(next);
            let s = self.slot(x);
            if self.heads[s] == i {
                self.heads[s] = to;
                return;
            }
            let mut j = self.heads[s] as usize;
            while self.links[j].1 != i {
                j = self.links[j].1 as usize;
            }
            self.links[j].1 = to;
        }
        fn swap_remove(&mut self, i: usize) {
            self.redirect(i as u32, None);
            let last = self.links.len() - 1;
            if i != last {
                self.redirect(last as u32, Some(i as u32));
            }
            self.links.swap_remove(i);
        }
    }

    impl<K, V> HashMap<K, V, RandomState> {
        pub fn new() -> Self {
            Self { items: Vec::new(), hasher: RandomState, index: IndexCell::none() }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<K, V, S> HashMap<K, V, S> {
        pub const fn with_hasher(hasher: S) -> Self {
            Self { items: Vec::new(), hasher, index: IndexCell::none() }
        }
        pub fn with_capacity_and_hasher(_: usize, hasher: S) -> Self {
            Self { items: Vec::new(), hasher, index: IndexCell::none() }
        }
        pub fn capacity(&self) -> usize {
            self.items.capacity()
        }
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys(self.iter())
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values(self.iter())
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut(self.iter_mut())
        }
        pub fn into_keys(self) -> IntoKeys<K, V> {
            IntoKeys(self.into_iter())
        }
        pub fn into_values(self) -> IntoValues<K, V> {
            IntoValues(self.into_iter())
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter(self.items.iter())
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            IterMut(self.items.iter_mut())
        }
        pub fn len(&self) -> usize {
            self.items.len()
        }
        pub fn is_empty(&self) -> bool {
            self.items.is_empty()
        }
        pub fn drain(&mut self) -> Drain<'_, K, V> {
            *self.index.get() = None;
            Drain(self.items.drain(..))
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            *self.index.get() = None;
            self.items.retain_mut(|x| f(&x.0, &mut x.1))
        }
        pub fn clear(&mut self) {
            *self.index.get() = None;
            self.items.clear()
        }
        pub fn hasher(&self) -> &S {
            &self.hasher
        }
        fn take(&mut self, i: usize) -> (K, V) {
            take(&mut self.items, &self.index, i)
        }
    }
    fn take<K, V>(items: &mut Vec<(K, V)>, index: &IndexCell, i: usize) -> (K, V) {
        match index.get() {
            None => items.remove(i),
            Some(c) => {
                c.swap_remove(i);
                items.swap_remove(i)
            }
        }
    }
    /// `folded` is asked for only where there is an index.
    fn put<K, V>(items: &mut Vec<(K, V)>, index: &IndexCell, k: K, v: V, folded: impl FnOnce(&K) -> Option<u64>) -> usize {
        if let Some(c) = index.get() {
            if items.len() < c.heads.len() {
                c.push(folded(&k));
            } else {
                *index.get() = None;
            }
            items.push((k, v));
            return items.len() - 1;
        }
        if unsafe { vrt::MAP_ORDER } == 0 {
            items.push((k, v));
            items.len() - 1
        } else {
            items.insert(0, (k, v));
            0
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
        fn h<Q: Hash + ?Sized>(&self, k: &Q) -> u64 {
            let mut h = self.hasher.build_hasher();
            k.hash(&mut h);
            h.finish()
        }
        pub(crate) fn find<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            // the hash of the key is always computed, as the real map does
            let hk = self.h(k);
            if self.items.len() >= LARGE {
                if let Some(x) = fold(k) {
                    return self.find_large(k, hk, x);
                }
            }
            for (i, x) in self.items.iter().enumerate() {
                let q: &Q = x.0.borrow();
                // found if and only if both equal and hashed alike
                if *q == *k && self.h(q) == hk {
                    return Some(i);
                }
            }
            None
        }
        fn find_large<Q: Hash + Eq + ?Sized>(&self, k: &Q, hk: u64, x: u64) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let cell = self.index.get();
            if cell.is_none() {
                let mut c = Candidates::new(self.items.len());
                for i in &self.items {
                    c.push(fold::<Q>(i.0.borrow()));
                }
                *cell = Some(c);
            }
            let c = cell.as_ref().unwrap();
            let same = |i: u32| {
                let q: &Q = self.items[i as usize].0.borrow();
                *q == *k && self.h(q) == hk
            };
            let mut i = c.heads[c.slot(x)];
            while i != NONE {
                if c.links[i as usize].0 == x && same(i) {
                    return Some(i as usize);
                }
                i = c.links[i as usize].1;
            }
            c.symbolic.iter().find(|&&i| same(i)).map(|&i| i as usize)
        }
        fn put(&mut self, k: K, v: V) -> usize {
            put(&mut self.items, &self.index, k, v, |k| fold(k))
        }
        pub fn reserve(&mut self, _: usize) {}
        pub fn try_reserve(&mut self, _: usize) -> Result<(), std::collections::TryReserveError> {
            Ok(())
        }
        pub fn shrink_to_fit(&mut self) {}
        pub fn shrink_to(&mut self, _: usize) {}
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) {
                Some(at) => Entry::Occupied(OccupiedEntry { items: &mut self.items, index: &self.index, at }),
                None => {
                    let folded = if self.index.get().is_some() { fold(&key) } else { None };
                    Entry::Vacant(VacantEntry { items: &mut self.items, index: &self.index, key, folded })
                }
            }
        }
        pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| &self.items[i].1)
        }
        pub fn get_key_value<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| (&self.items[i].0, &self.items[i].1))
        }
        pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(k).is_some()
        }
        pub fn get_mut<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some(&mut self.items[i].1),
                None => None,
            }
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
                None => {
                    self.put(k, v);
                    None
                }
            }
        }
        pub fn remove<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| self.take(i).1)
        }
        pub fn remove_entry<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            self.find(k).map(|i| self.take(i))
        }
    }

    pub struct Iter<'a, K, V>(pub(crate) std::slice::Iter<'a, (K, V)>);
    impl<'a, K, V> Clone for Iter<'a, K, V> {
        fn clone(&self) -> Self {
            Iter(self.0.clone())
        }
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(|x| (&x.0, &x.1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, (K, V)>);
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next().map(|x| (&x.0, &mut x.1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
    pub struct IntoIter<K, V>(vec::IntoIter<(K, V)>);
    impl<K, V> Iterator for IntoIter<K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
    pub struct Drain<'a, K, V>(vec::Drain<'a, (K, V)>);
    impl<'a, K, V> Iterator for Drain<'a, K, V> {
        type Item = (K, V);
        fn next(&mut self) -> Option<Self::Item> {
            self.0.next()
        }
    }
    macro_rules! proj {
        ($n:ident, $inner:ident, [$($g:tt)*], $item:ty, $k:tt) => {
            pub struct $n<$($g)*>($inner<$($g)*>);
            impl<$($g)*> Iterator for $n<$($g)*> {
                type Item = $item;
                fn next(&mut self) -> Option<Self::Item> {
                    self.0.next().map(|x| x.$k)
                }
                fn size_hint(&self) -> (usize, Option<usize>) {
                    self.0.size_hint()
                }
            }
            impl<$($g)*> ExactSizeIterator for $n<$($g)*> {}
        };
    }
    proj!(Keys, Iter, ['a, K, V], &'a K, 0);
    proj!(Values, Iter, ['a, K, V], &'a V, 1);
    proj!(ValuesMut, IterMut, ['a, K, V], &'a mut V, 1);
    proj!(IntoKeys, IntoIter, [K, V], K, 0);
    proj!(IntoValues, IntoIter, [K, V], V, 1);
    impl<'a, K, V> Clone for Keys<'a, K, V> {
        fn clone(&self) -> Self {
            Keys(self.0.clone())
        }
    }
    impl<'a, K, V> Clone for Values<'a, K, V> {
        fn clone(&self) -> Self {
            Values(self.0.clone())
        }
    }

    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = IntoIter<K, V>;
        fn into_iter(self) -> IntoIter<K, V> {
            IntoIter(self.items.into_iter())
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
        fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) {
            for (k, v) in it {
                self.insert(k, v);
            }
        }
    }
    impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
        fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: T) {
            for (k, v) in it {
                self.insert(*k, *v);
            }
        }
    }
    impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
        fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self {
            let mut m = Self::with_hasher(S::default());
            m.extend(it);
            m
        }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
        fn from(a: [(K, V); N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<K, V, S: Default> Default for HashMap<K, V, S> {
        fn default() -> Self {
            Self::with_hasher(S::default())
        }
    }
    impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
        fn clone(&self) -> Self {
            Self { items: self.items.clone(), hasher: self.hasher.clone(), index: IndexCell::none() }
        }
    }
    impl<K: Debug, V: Debug, S> Debug for HashMap<K, V, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_map().entries(self.iter()).finish()
        }
    }
    impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool {
            self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w))
        }
    }
    impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
    impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    impl<K: serde::Serialize, V: serde::Serialize, S> serde::Serialize for HashMap<K, V, S> {
        fn serialize<T: serde::Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
            s.collect_map(self)
        }
    }

    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
        items: &'a mut Vec<(K, V)>,
        index: &'a IndexCell,
        at: usize,
    }
    pub struct VacantEntry<'a, K, V> {
        items: &'a mut Vec<(K, V)>,
        index: &'a IndexCell,
        key: K,
        folded: Option<u64>,
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(&e.key);
                    e.insert(v)
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(e) = &mut self {
                f(e.get_mut())
            }
            self
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(e) => e.key(),
                Entry::Vacant(e) => &e.key,
            }
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
            match self {
                Entry::Occupied(mut e) => {
                    e.insert(v);
                    e
                }
                Entry::Vacant(e) => e.insert_entry(v),
            }
        }
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.items[self.at].0
        }
        pub fn get(&self) -> &V {
            &self.items[self.at].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.items[self.at].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.items[self.at].1
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            take(self.items, self.index, self.at).1
        }
        pub fn remove_entry(self) -> (K, V) {
            take(self.items, self.index, self.at)
        }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.key
        }
        pub fn into_key(self) -> K {
            self.key
        }
        pub fn insert(self, v: V) -> &'a mut V {
            let folded = self.folded;
            let i = put(self.items, self.index, self.key, v, |_| folded);
            &mut self.items[i].1
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
            let folded = self.folded;
            let at = put(self.items, self.index, self.key, v, |_| folded);
            OccupiedEntry { items: self.items, index: self.index, at }
        }
    }
}

pub mod hash_set {
    use super::hash_map::{self, HashMap, RandomState};
    use std::borrow::Borrow;
    use std::fmt::{self, Debug};
    use std::hash::{BuildHasher, Hash};

    pub struct HashSet<T, S = RandomState> {
        map: HashMap<T, (), S>,
    }
    impl<T> HashSet<T, RandomState> {
        pub fn new() -> Self {
            Self { map: HashMap::new() }
        }
        pub fn with_capacity(_: usize) -> Self {
            Self::new()
        }
    }
    impl<T, S> HashSet<T, S> {
        pub const fn with_hasher(h: S) -> Self {
            Self { map: HashMap::with_hasher(h) }
        }
        pub fn with_capacity_and_hasher(_: usize, h: S) -> Self {
            Self { map: HashMap::with_hasher(h) }
        }
        pub fn capacity(&self) -> usize {
            self.map.capacity()
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self.map.iter())
        }
        pub fn len(&self) -> usize {
            self.map.len()
        }
        pub fn is_empty(&self) -> bool {
            self.map.is_empty()
        }
        pub fn clear(&mut self) {
            self.map.clear()
        }
        pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
            self.map.retain(|k, _| f(k))
        }
        pub fn drain(&mut self) -> std::vec::IntoIter<T> {
            *self.map.index.get() = None;
            std::mem::take(&mut self.map.items).into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
        pub fn reserve(&mut self, _: usize) {}
        pub fn shrink_to_fit(&mut self) {}
        pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.map.contains_key(k)
        }
        pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&T>
        where
            T: Borrow<Q>,
        {
            self.map.get_key_value(k).map(|x| x.0)
        }
        pub fn insert(&mut self, k: T) -> bool {
            if self.map.contains_key(&k) {
                false
            } else {
                self.map.insert(k, ());
                true
            }
        }
        pub fn replace(&mut self, k: T) -> Option<T> {
            let o = self.map.remove_entry(&k).map(|x| x.0);
            self.map.insert(k, ());
            o
        }
        pub fn remove<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> bool
        where
            T: Borrow<Q>,
        {
            self.map.remove(k).is_some()
        }
        pub fn take<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<T>
        where
            T: Borrow<Q>,
        {
            self.map.remove_entry(k).map(|x| x.0)
        }
        pub fn is_subset(&self, o: &Self) -> bool {
            self.iter().all(|x| o.contains(x))
        }
        pub fn is_superset(&self, o: &Self) -> bool {
            o.is_subset(self)
        }
        pub fn is_disjoint(&self, o: &Self) -> bool {
            self.iter().all(|x| !o.contains(x))
        }
        pub fn union<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> {
            let mut v: Vec<&'a T> = self.iter().collect();
            v.extend(o.iter().filter(|x| !self.contains(*x)));
            v.into_iter()
        }
        pub fn intersection<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> {
            self.iter().filter(|x| o.contains(*x)).collect::<Vec<_>>().into_iter()
        }
        pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> {
            self.iter().filter(|x| !o.contains(*x)).chain(o.iter().filter(|x| !self.contains(*x))).collect::<Vec<_>>().into_iter()
        }
        pub fn difference<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a T> {
            self.iter().filter(|x| !o.contains(*x)).collect::<Vec<_>>().into_iter()
        }
    }
    pub struct Iter<'a, T>(hash_map::Iter<'a, T, ()>);
    impl<'a, T> Clone for Iter<'a, T> {
        fn clone(&self) -> Self {
            Iter(self.0.clone())
        }
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> {
            self.0.next().map(|x| x.0)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.0.size_hint()
        }
    }
    impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
    pub struct IntoIter<T>(hash_map::IntoIter<T, ()>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.next().map(|x| x.0)
        }
    }
    impl<T, S> IntoIterator for HashSet<T, S> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self.map.into_iter())
        }
    }
    impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.insert(x);
            }
        }
    }
    impl<'a, T: Eq + Hash + Copy, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
            for x in it {
                self.insert(*x);
            }
        }
    }
    impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut s = Self::with_hasher(S::default());
            s.extend(it);
            s
        }
    }
    impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
        fn from(a: [T; N]) -> Self {
            a.into_iter().collect()
        }
    }
    impl<T, S: Default> Default for HashSet<T, S> {
        fn default() -> Self {
            Self { map: HashMap::default() }
        }
    }
    impl<T: Clone, S: Clone> Clone for HashSet<T, S> {
        fn clone(&self) -> Self {
            Self { map: self.map.clone() }
        }
    }
    impl<T: Debug, S> Debug for HashSet<T, S> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_set().entries(self.iter()).finish()
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
        fn eq(&self, o: &Self) -> bool {
            self.len() == o.len() && self.is_subset(o)
        }
    }
    impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
}
