// Equality of collections.
//@ library
use vstd::std_specs::cmp::*;
impl<T: VxKey> PartialEqSpecImpl for VxSet<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &VxSet<T>) -> bool { self.set() == o.set() }
}
impl<T: VxKey> PartialEq for VxSet<T> {
    #[verifier::external_body]
    fn eq(&self, o: &VxSet<T>) -> bool { unimplemented!() }
}
impl<K: VxKey, V: PartialEq> PartialEqSpecImpl for VxMap<K, V> {
    open spec fn obeys_eq_spec() -> bool { V::obeys_eq_spec() }
    closed spec fn eq_spec(&self, o: &VxMap<K, V>) -> bool {
        self.map().dom() == o.map().dom() && forall|k: K::K| #[trigger] self.map().dom().contains(k) ==> self.map()[k].eq_spec(&o.map()[k])
    }
}
impl<K: VxKey, V: PartialEq> PartialEq for VxMap<K, V> {
    #[verifier::external_body]
    fn eq(&self, o: &VxMap<K, V>) -> bool { unimplemented!() }
}
broadcast proof fn vx_set_eq<T: VxKey>(a: VxSet<T>, b: VxSet<T>)
    ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.set() == b.set()) {}
broadcast proof fn vx_map_eq<K: VxKey, V: PartialEq>(a: VxMap<K, V>, b: VxMap<K, V>)
    ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a.map().dom() == b.map().dom()
        && forall|k: K::K| #[trigger] a.map().dom().contains(k) ==> PartialEqSpec::eq_spec(&a.map()[k], &b.map()[k])) {}
broadcast use vx_set_eq;
broadcast use vx_map_eq;
