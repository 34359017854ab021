//! Finite maps and sets as association lists.
//!
//! Contract: a map holds at most one value per key, `insert` replaces the
//! value and keeps the key, ordered maps iterate in key order. Hash maps
//! iterate in insertion order here (real order is unspecified).
use ::std::borrow::Borrow;
use ::std::cmp::Ordering;

macro_rules! common_map {
    ($M:ident, [$($B:tt)*]) => {
        impl<K: $($B)*, V> $M<K, V> {
            pub fn new() -> Self { $M { v: Vec::new() } }
            pub fn with_capacity(_: usize) -> Self { Self::new() }
            pub fn get<Q: ?Sized + $($B)*>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
                match self.pos(k) { Ok(i) => Some(&self.v[i].1), Err(_) => None }
            }
            pub fn get_mut<Q: ?Sized + $($B)*>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
                match self.pos(k) { Ok(i) => Some(&mut self.v[i].1), Err(_) => None }
            }
            pub fn contains_key<Q: ?Sized + $($B)*>(&self, k: &Q) -> bool where K: Borrow<Q> {
                self.pos(k).is_ok()
            }
            pub fn remove<Q: ?Sized + $($B)*>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
                match self.pos(k) { Ok(i) => Some(self.v.remove(i).1), Err(_) => None }
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.pos(&k) {
                    Ok(i) => Some(::std::mem::replace(&mut self.v[i].1, v)),
                    Err(i) => { self.v.insert(i, (k, v)); None }
                }
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
                match self.pos(&k) {
                    Ok(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i }),
                    Err(i) => Entry::Vacant(VacantEntry { v: &mut self.v, i, k }),
                }
            }
        }
        impl<K, V> $M<K, V> {
            pub fn len(&self) -> usize { self.v.len() }
            pub fn is_empty(&self) -> bool { self.v.is_empty() }
            pub fn clear(&mut self) { self.v.clear() }
            pub fn iter(&self) -> impl DoubleEndedIterator<Item = (&K, &V)> + ExactSizeIterator { self.v.iter().map(|e| (&e.0, &e.1)) }
            pub fn iter_mut(&mut self) -> impl DoubleEndedIterator<Item = (&K, &mut V)> + ExactSizeIterator { self.v.iter_mut().map(|e| (&e.0, &mut e.1)) }
            pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + ExactSizeIterator { self.v.iter().map(|e| &e.0) }
            pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + ExactSizeIterator { self.v.iter().map(|e| &e.1) }
            pub fn values_mut(&mut self) -> impl DoubleEndedIterator<Item = &mut V> + ExactSizeIterator { self.v.iter_mut().map(|e| &mut e.1) }
            pub fn into_values(self) -> impl DoubleEndedIterator<Item = V> + ExactSizeIterator { self.v.into_iter().map(|e| e.1) }
            pub fn into_keys(self) -> impl DoubleEndedIterator<Item = K> + ExactSizeIterator { self.v.into_iter().map(|e| e.0) }
            pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> { ::std::mem::take(&mut self.v).into_iter() }
        }
        impl<K: $($B)*, V> Default for $M<K, V> { fn default() -> Self { Self::new() } }
        impl<K: $($B)*, V> FromIterator<(K, V)> for $M<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut m = Self::new();
                for (k, v) in it { m.insert(k, v); }
                m
            }
        }
        impl<K: $($B)*, V> Extend<(K, V)> for $M<K, V> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it { self.insert(k, v); }
            }
        }
        impl<K: $($B)*, V, const N: usize> From<[(K, V); N]> for $M<K, V> {
            fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
        }
        impl<K, V> IntoIterator for $M<K, V> {
            type Item = (K, V);
            type IntoIter = ::std::vec::IntoIter<(K, V)>;
            fn into_iter(self) -> Self::IntoIter { self.v.into_iter() }
        }
        impl<'a, K, V> IntoIterator for &'a $M<K, V> {
            type Item = (&'a K, &'a V);
            type IntoIter = ::std::vec::IntoIter<(&'a K, &'a V)>;
            fn into_iter(self) -> Self::IntoIter { self.v.iter().map(|e| (&e.0, &e.1)).collect::<Vec<_>>().into_iter() }
        }
        impl<K: $($B)*, V, Q: ?Sized + $($B)*> ::std::ops::Index<&Q> for $M<K, V> where K: Borrow<Q> {
            type Output = V;
            fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
        }
    };
}

#[derive(Clone, Debug)]
pub struct HashMap<K, V> { v: Vec<(K, V)> }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BTreeMap<K, V> { v: Vec<(K, V)> }

impl<K: Eq, V> HashMap<K, V> {
    fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Result<usize, usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.v.len() {
            if self.v[i].0.borrow() == k { return Ok(i); }
            i += 1;
        }
        Err(self.v.len())
    }
}
impl<K: Ord, V> BTreeMap<K, V> {
    fn pos<Q: ?Sized + Ord>(&self, k: &Q) -> Result<usize, usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.v.len() {
            match self.v[i].0.borrow().cmp(k) {
                Ordering::Equal => return Ok(i),
                Ordering::Greater => return Err(i),
                Ordering::Less => {}
            }
            i += 1;
        }
        Err(self.v.len())
    }
    pub fn first_key_value(&self) -> Option<(&K, &V)> { self.v.first().map(|e| (&e.0, &e.1)) }
    pub fn last_key_value(&self) -> Option<(&K, &V)> { self.v.last().map(|e| (&e.0, &e.1)) }
    pub fn pop_first(&mut self) -> Option<(K, V)> { if self.v.is_empty() { None } else { Some(self.v.remove(0)) } }
    pub fn pop_last(&mut self) -> Option<(K, V)> { self.v.pop() }
}
common_map!(HashMap, [Eq]);
common_map!(BTreeMap, [Ord]);
impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.v.len() == o.v.len() && self.v.iter().all(|(k, v)| o.get(k) == Some(v))
    }
}
impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}

pub struct OccupiedEntry<'a, K, V> { v: &'a mut Vec<(K, V)>, i: usize }
pub struct VacantEntry<'a, K, V> { v: &'a mut Vec<(K, V)>, i: usize, k: K }
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { &self.v[self.i].1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.v[self.i].1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.v[self.i].1 }
    pub fn insert(&mut self, x: V) -> V { ::std::mem::replace(&mut self.v[self.i].1, x) }
    pub fn remove(self) -> V { self.v.remove(self.i).1 }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, x: V) -> &'a mut V { self.v.insert(self.i, (self.k, x)); &mut self.v[self.i].1 }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, x: V) -> &'a mut V { self.or_insert_with(|| x) }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) }
    }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self { f(e.get_mut()) }
        self
    }
}

macro_rules! common_set {
    ($S:ident, $M:ident, [$($B:tt)*]) => {
        #[derive(Clone, Debug)]
        pub struct $S<K> { m: $M<K, ()> }
        impl<K: $($B)*> $S<K> {
            pub fn new() -> Self { $S { m: $M::new() } }
            pub fn with_capacity(_: usize) -> Self { Self::new() }
            pub fn insert(&mut self, k: K) -> bool { if self.m.contains_key(&k) { false } else { self.m.insert(k, ()); true } }
            pub fn contains<Q: ?Sized + $($B)*>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
            pub fn remove<Q: ?Sized + $($B)*>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
        }
        impl<K> $S<K> {
            pub fn len(&self) -> usize { self.m.len() }
            pub fn is_empty(&self) -> bool { self.m.is_empty() }
            pub fn iter(&self) -> impl DoubleEndedIterator<Item = &K> { self.m.keys() }
        }
        impl<K: $($B)*> Default for $S<K> { fn default() -> Self { Self::new() } }
        impl<K: $($B)*> FromIterator<K> for $S<K> {
            fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut s = Self::new(); for k in it { s.insert(k); } s }
        }
        impl<K: $($B)*> Extend<K> for $S<K> {
            fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } }
        }
        impl<K: $($B)*, const N: usize> From<[K; N]> for $S<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
        impl<K> IntoIterator for $S<K> {
            type Item = K;
            type IntoIter = ::std::vec::IntoIter<K>;
            fn into_iter(self) -> Self::IntoIter { self.m.v.into_iter().map(|e| e.0).collect::<Vec<_>>().into_iter() }
        }
    };
}
common_set!(HashSet, HashMap, [Eq]);
common_set!(BTreeSet, BTreeMap, [Ord]);
