// Collections of the standard library. Keys and elements are compared through
// `key`, which is what `Eq` and `Hash` (or `Ord`) of the type look at.
//@ include mem.vx
//@ map BTreeMap => VxTreeMap
//@ map BTreeSet => VxTreeSet
//@ map HashMap => VxMap
//@ map HashSet => VxSet
//@ map VecDeque => VxDeque
//@ library
trait VxKey: Sized {
    type K;
    spec fn key(&self) -> Self::K;
}
impl VxKey for usize { type K = usize; spec fn key(&self) -> usize { *self } }
impl<'a, T: VxKey> VxKey for &'a T { type K = T::K; spec fn key(&self) -> T::K { (**self).key() } }

/// `s` has every element of `set` once and nothing else.
spec fn vx_lists<T: VxKey>(s: Seq<T>, set: Set<T::K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> set.contains((#[trigger] s[i]).key())
    &&& forall|k: T::K| #[trigger] set.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key() != (#[trigger] s[j]).key()
}
spec fn vx_lists_ref<'a, T: VxKey>(s: Seq<&'a T>, set: Set<T::K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> set.contains((*#[trigger] s[i]).key())
    &&& forall|k: T::K| #[trigger] set.contains(k) ==> exists|i: int| 0 <= i < s.len() && (*#[trigger] s[i]).key() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (*#[trigger] s[i]).key() != (*#[trigger] s[j]).key()
}
spec fn vx_lists_map<'a, K: VxKey, V>(s: Seq<(&'a K, &'a V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((*(#[trigger] s[i]).0).key()) && *s[i].1 == m[(*s[i].0).key()]
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (*(#[trigger] s[i]).0).key() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (*(#[trigger] s[i]).0).key() != (*(#[trigger] s[j]).0).key()
}

proof fn vx_no_elements<A>(s: Set<A>) ensures s.len() == 0 <==> s == Set::<A>::empty() {
    if s.len() == 0 { s.lemma_len0_is_empty(); }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxSet<T: VxKey> { t: std::marker::PhantomData<T> }
impl<T: VxKey> VxSet<T> {
    uninterp spec fn set(&self) -> Set<T::K>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.set() == Set::<T::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self).set() == old(self).set().insert(x.key()), r == !old(self).set().contains(x.key()) { unimplemented!() }
    fn vx_extend_one(&mut self, x: T) ensures final(self).set() == old(self).set().insert(x.key()) { self.insert(x); }
    #[verifier::external_body]
    fn contains<Q: VxKey<K = T::K>>(&self, x: &Q) -> (r: bool) ensures r == self.set().contains(x.key()) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.set().len() { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.set() == Set::<T::K>::empty()) { proof { vx_no_elements(self.set()); } self.len() == 0 }
    #[verifier::external_body]
    fn remove<Q: VxKey<K = T::K>>(&mut self, x: &Q) -> (r: bool)
        ensures final(self).set() == old(self).set().remove(x.key()), r == old(self).set().contains(x.key()) { unimplemented!() }
    fn is_subset<U: VxKey<K = T::K>>(&self, o: &VxSet<U>) -> (r: bool) ensures r == self.set().subset_of(o.set()) {
        let mut it = self.vx_iter();
        let ghost s = it.seq();
        while it.vx_has() invariant it.seq() == s, 0 <= it.pos() <= s.len(), vx_lists_ref(s, self.set()),
            forall|i: int| 0 <= i < it.pos() ==> o.set().contains((*#[trigger] s[i]).key()) decreases s.len() - it.pos()
        {
            let x = it.vx_take();
            if !o.contains(x) {
                assert(self.set().contains((*s[it.pos() - 1]).key()));
                return false;
            }
        }
        assert forall|k: T::K| self.set().contains(k) implies o.set().contains(k) by {
            let i = choose|i: int| 0 <= i < s.len() && (*#[trigger] s[i]).key() == k;
            assert(o.set().contains((*s[i]).key()));
        }
        true
    }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r.pos() == 0, vx_lists_ref(r.seq(), self.set()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<T>) ensures r.pos() == 0, vx_lists(r.seq(), self.set()) { unimplemented!() }
}

/// `into_iter` of a map.
spec fn vx_lists_pairs<K: VxKey, V>(s: Seq<(K, V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.key()) && s[i].1 == m[s[i].0.key()]
    &&& forall|k: K::K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.key() == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.key() != (#[trigger] s[j]).0.key()
}
/// `into_iter` of a borrowed collection.
trait VxRef<'a, T>: Sized {
    spec fn vx_elems(&self, s: Seq<&'a T>) -> bool;
    fn vx_into_iter(self) -> (r: VxIt<&'a T>) ensures r.pos() == 0, self.vx_elems(r.seq());
}
impl<'a, T: VxKey> VxRef<'a, T> for &'a VxSet<T> {
    spec fn vx_elems(&self, s: Seq<&'a T>) -> bool { vx_lists_ref(s, self.set()) }
    fn vx_into_iter(self) -> (r: VxIt<&'a T>) { self.vx_iter() }
}
impl<'a, T: VxKey> VxRef<'a, T> for &'a VxTreeSet<T> {
    spec fn vx_elems(&self, s: Seq<&'a T>) -> bool { vx_lists_ref(s, self.set()) }
    fn vx_into_iter(self) -> (r: VxIt<&'a T>) { self.vx_iter() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct VxTreeSet<T: VxKey> { t: std::marker::PhantomData<T> }
impl<T: VxKey> VxTreeSet<T> {
    uninterp spec fn set(&self) -> Set<T::K>;
    /// The elements themselves.
    uninterp spec fn elem(&self, k: T::K) -> T;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.set() == Set::<T::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, x: T) -> (r: bool)
        ensures final(self).set() == old(self).set().insert(x.key()), r == !old(self).set().contains(x.key()),
            forall|k: T::K| #[trigger] final(self).elem(k) == (if old(self).set().contains(k) || k != x.key() { old(self).elem(k) } else { x }) { unimplemented!() }
    fn vx_extend_one(&mut self, x: T) ensures final(self).set() == old(self).set().insert(x.key()) { self.insert(x); }
    #[verifier::external_body]
    fn contains<Q: VxKey<K = T::K>>(&self, x: &Q) -> (r: bool) ensures r == self.set().contains(x.key()) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.set().len() { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.set() == Set::<T::K>::empty()) { proof { vx_no_elements(self.set()); } self.len() == 0 }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r.pos() == 0, vx_lists_ref(r.seq(), self.set()),
        forall|i: int, j: int| 0 <= i < j < r.seq().len() ==> vx_less(*#[trigger] r.seq()[i], *#[trigger] r.seq()[j]),
        forall|i: int| 0 <= i < r.seq().len() ==> *#[trigger] r.seq()[i] == self.elem((*r.seq()[i]).key()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<T>) ensures r.pos() == 0, vx_lists(r.seq(), self.set()), vx_ascending(r.seq()) { unimplemented!() }
}
/// Order of the elements of a tree set; only interpreted for numbers.
spec fn vx_ascending<T>(s: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> vx_less(#[trigger] s[i], #[trigger] s[j]) }
uninterp spec fn vx_less<T>(a: T, b: T) -> bool;
broadcast axiom fn vx_less_usize(a: usize, b: usize)
    ensures #[trigger] vx_less(a, b) == (a < b);
broadcast use vx_less_usize;

spec fn vx_a_value<A, V>(m: Map<A, V>, v: V) -> bool { exists|k: A| #[trigger] m.dom().contains(k) && m[k] == v }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct VxMap<K: VxKey, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K: VxKey, V> VxMap<K, V> {
    uninterp spec fn map(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.map() == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k.key(), v),
            r == (if old(self).map().dom().contains(k.key()) { Some(old(self).map()[k.key()]) } else { None }) { unimplemented!() }
    fn vx_extend_one(&mut self, x: (K, V)) ensures final(self).map() == old(self).map().insert(x.0.key(), x.1) { self.insert(x.0, x.1); }
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().dom().contains(k.key()) { self.get(k).is_some() }
    fn get(&self, k: &K) -> (r: Option<&V>)
        ensures self.map().dom().contains(k.key()) ==> r.is_some() && *r.unwrap() == self.map()[k.key()],
            !self.map().dom().contains(k.key()) ==> r.is_none()
    { match self.get_key_value(k) { Some((_, v)) => Some(v), None => None } }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            old(self).map().dom().contains(k.key()) ==> r.is_some() && *r.unwrap() == old(self).map()[k.key()]
                && final(self).map() == old(self).map().insert(k.key(), *final(r.unwrap())),
            !old(self).map().dom().contains(k.key()) ==> r.is_none() && final(self).map() == old(self).map() { unimplemented!() }
    #[verifier::external_body]
    fn vx_entry_or(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self).map().dom().contains(k.key()) { old(self).map()[k.key()] } else { d }),
            final(self).map() == old(self).map().insert(k.key(), *final(r)) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().remove(k.key()),
            r == (if old(self).map().dom().contains(k.key()) { Some(old(self).map()[k.key()]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.map().dom().len() { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.map().dom() == Set::<K::K>::empty()) { proof { vx_no_elements(self.map().dom()); } self.len() == 0 }
    fn vx_keys(&self) -> (r: VxIt<&K>) ensures r.pos() == 0, vx_lists_ref(r.seq(), self.map().dom()) {
        let mut r = VxIt::vx_empty();
        let mut it = self.vx_iter();
        let ghost s = it.seq();
        while it.vx_has() invariant it.seq() == s, 0 <= it.pos() <= s.len(), r.pos() == 0, r.seq().len() == it.pos(),
            forall|i: int| 0 <= i < it.pos() ==> #[trigger] r.seq()[i] == s[i].0 decreases s.len() - it.pos()
        {
            r.vx_push(it.vx_take().0);
        }
        assert forall|k: K::K| #[trigger] self.map().dom().contains(k) implies exists|i: int| 0 <= i < r.seq().len() && (*#[trigger] r.seq()[i]).key() == k by {
            let i = choose|i: int| 0 <= i < s.len() && (*(#[trigger] s[i]).0).key() == k;
            assert((*r.seq()[i]).key() == k);
        }
        r
    }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<(&K, &V)>) ensures r.pos() == 0, vx_lists_map(r.seq(), self.map()) { unimplemented!() }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VxIt<(K, V)>) ensures r.pos() == 0, vx_lists_pairs(r.seq(), self.map()) { unimplemented!() }
    #[verifier::external_body]
    fn get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>)
        ensures self.map().dom().contains(k.key()) ==> r.is_some() && *r.unwrap().1 == self.map()[k.key()] && (*r.unwrap().0).key() == k.key(),
            !self.map().dom().contains(k.key()) ==> r.is_none() { unimplemented!() }
    fn vx_values(&self) -> (r: VxIt<&V>)
        ensures r.pos() == 0, forall|i: int| 0 <= i < r.seq().len() ==> vx_a_value(self.map(), *#[trigger] r.seq()[i]),
            forall|k: K::K| #[trigger] self.map().dom().contains(k) ==> exists|i: int| 0 <= i < r.seq().len() && *#[trigger] r.seq()[i] == self.map()[k] {
        let mut r = VxIt::vx_empty();
        let mut it = self.vx_iter();
        let ghost s = it.seq();
        while it.vx_has() invariant it.seq() == s, 0 <= it.pos() <= s.len(), r.pos() == 0, r.seq().len() == it.pos(),
            forall|i: int| 0 <= i < it.pos() ==> #[trigger] r.seq()[i] == s[i].1 decreases s.len() - it.pos()
        {
            r.vx_push(it.vx_take().1);
        }
        assert forall|i: int| 0 <= i < r.seq().len() implies vx_a_value(self.map(), *#[trigger] r.seq()[i]) by {
            assert(self.map().dom().contains((*s[i].0).key()));
        }
        assert forall|k: K::K| #[trigger] self.map().dom().contains(k) implies exists|i: int| 0 <= i < r.seq().len() && *#[trigger] r.seq()[i] == self.map()[k] by {
            let i = choose|i: int| 0 <= i < s.len() && (*(#[trigger] s[i]).0).key() == k;
            assert(*r.seq()[i] == self.map()[k]);
        }
        r
    }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct VxTreeMap<K: VxKey, V> { k: std::marker::PhantomData<K>, v: std::marker::PhantomData<V> }
impl<K: VxKey, V> VxTreeMap<K, V> {
    uninterp spec fn map(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.map() == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self).map() == old(self).map().insert(k.key(), v),
            r == (if old(self).map().dom().contains(k.key()) { Some(old(self).map()[k.key()]) } else { None }) { unimplemented!() }
    fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.map().dom().contains(k.key()) { self.get(k).is_some() }
    #[verifier::external_body]
    fn get(&self, k: &K) -> (r: Option<&V>)
        ensures self.map().dom().contains(k.key()) ==> r.is_some() && *r.unwrap() == self.map()[k.key()],
            !self.map().dom().contains(k.key()) ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            old(self).map().dom().contains(k.key()) ==> r.is_some() && *r.unwrap() == old(self).map()[k.key()]
                && final(self).map() == old(self).map().insert(k.key(), *final(r.unwrap())),
            !old(self).map().dom().contains(k.key()) ==> r.is_none() && final(self).map() == old(self).map() { unimplemented!() }
    #[verifier::external_body]
    fn vx_entry_or(&mut self, k: K, d: V) -> (r: &mut V)
        ensures *r == (if old(self).map().dom().contains(k.key()) { old(self).map()[k.key()] } else { d }),
            final(self).map() == old(self).map().insert(k.key(), *final(r)) { unimplemented!() }
}
/// `x` is taken from either end of `s`, `d` being how far the others move.
spec fn took<A>(s: Seq<A>, t: Seq<A>, x: A) -> bool { s.len() > 0 && (x == s[0] && t == s.skip(1) || x == s.last() && t == s.drop_last()) }
spec fn took_by<A>(s: Seq<A>, t: Seq<A>, x: A) -> int { if x == s[0] && t == s.skip(1) { 1 } else { 0 } }
spec fn took_at<A>(s: Seq<A>, t: Seq<A>, x: A) -> int { if x == s[0] && t == s.skip(1) { 0 } else { s.len() - 1 } }

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct VxDeque<T> { t: std::marker::PhantomData<T> }
impl<T> VxDeque<T> {
    uninterp spec fn seq(&self) -> Seq<T>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.seq() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn push_back(&mut self, x: T) ensures final(self).seq() == old(self).seq().push(x) { unimplemented!() }
    fn vx_extend_one(&mut self, x: T) ensures final(self).seq() == old(self).seq().push(x) { self.push_back(x); }
    #[verifier::external_body]
    fn push_front(&mut self, x: T) ensures final(self).seq() == seq![x] + old(self).seq() { unimplemented!() }
    #[verifier::external_body]
    fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self).seq().len() == 0 ==> r.is_none() && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1) { unimplemented!() }
    #[verifier::external_body]
    fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self).seq().len() == 0 ==> r.is_none() && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq().last()) && final(self).seq() == old(self).seq().drop_last() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.seq().len() { unimplemented!() }
    fn is_empty(&self) -> (r: bool) ensures r == (self.seq().len() == 0) { self.len() == 0 }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<&T>)
        ensures i < self.seq().len() ==> r.is_some() && *r.unwrap() == self.seq()[i as int], i >= self.seq().len() ==> r.is_none() { unimplemented!() }
    fn front(&self) -> (r: Option<&T>)
        ensures self.seq().len() > 0 ==> r.is_some() && *r.unwrap() == self.seq()[0], self.seq().len() == 0 ==> r.is_none() { self.get(0) }
    fn back(&self) -> (r: Option<&T>)
        ensures self.seq().len() > 0 ==> r.is_some() && *r.unwrap() == self.seq().last(), self.seq().len() == 0 ==> r.is_none()
    { if self.len() == 0 { None } else { self.get(self.len() - 1) } }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: VxIt<&T>) ensures r.pos() == 0, r.seq().len() == self.seq().len(),
        forall|i: int| 0 <= i < self.seq().len() ==> *#[trigger] r.seq()[i] == self.seq()[i] { unimplemented!() }
}
impl<T: VxKey> VxDefault for VxSet<T> {
    spec fn is_default(self) -> bool { self.set() == Set::<T::K>::empty() }
    fn vx_made() -> (r: Self) { Self::new() }
}
impl<K: VxKey, V> VxDefault for VxMap<K, V> {
    spec fn is_default(self) -> bool { self.map() == Map::<K::K, V>::empty() }
    fn vx_made() -> (r: Self) { Self::new() }
}
impl<T> VxDefault for VxDeque<T> {
    spec fn is_default(self) -> bool { self.seq() == Seq::<T>::empty() }
    fn vx_made() -> (r: Self) { Self::new() }
}
