// Grammars: the types, and what the rules of a grammar are.
//@ include iter.vx
//@ include seqs.vx
//@ include maps.vx
//@ bound V: VxVar
//@ bound T: VxAtom
//@ map .into => vx_into
//@ library
/// Variables and terminals. Two of them are equal for `Eq` if they are the same,
/// and two terminals match each other if `tkey` is the same.
trait VxAtom: VxKey<K = Self> {
    type TK;
    spec fn tkey(&self) -> Self::TK;
    fn terminal_eq(&self, other: &Self) -> (r: bool) ensures r == (self.tkey() == other.tkey());
    spec fn thash(k: Self::TK) -> Seq<int>;
    fn terminal_hash(&self, state: &mut VxHasher) ensures final(state).fed() == old(state).fed() + Self::thash(self.tkey());
}
/// What has been hashed.
#[verifier::external_body]
struct VxHasher { x: u8 }
impl VxHasher {
    uninterp spec fn fed(&self) -> Seq<int>;
    #[verifier::external_body]
    fn vx_feed(&mut self, x: i32) ensures final(self).fed() == old(self).fed().push(x as int) { unimplemented!() }
}
broadcast axiom fn vx_atom_key<A: VxAtom>(x: A)
    ensures #[trigger] x.key() == x;
broadcast use vx_atom_key;
trait VxVar: VxAtom + Copy {}
impl<V: VxVar, T: VxAtom> VxKey for Symbol<V, T> { type K = Symbol<V, T>; spec fn key(&self) -> Symbol<V, T> { *self } }
impl<V: VxVar, T: VxAtom> VxKey for Vec<Symbol<V, T>> { type K = Seq<Symbol<V, T>>; spec fn key(&self) -> Seq<Symbol<V, T>> { self@ } }
/// `Hash` of keys: what is fed to the hasher depends on the key only.
trait VxHash: VxKey {
    spec fn vx_hashed(k: Self::K) -> Seq<int>;
    fn hash(&self, state: &mut VxHasher) ensures final(state).fed() == old(state).fed() + Self::vx_hashed(self.key());
}
impl VxHash for usize {
    uninterp spec fn vx_hashed(k: usize) -> Seq<int>;
    #[verifier::external_body]
    fn hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl<V: VxVar, T: VxAtom> VxHash for Symbol<V, T> {
    uninterp spec fn vx_hashed(k: Symbol<V, T>) -> Seq<int>;
    #[verifier::external_body]
    fn hash(&self, state: &mut VxHasher) { unimplemented!() }
}
impl<V: VxVar, T: VxAtom> VxHash for Vec<Symbol<V, T>> {
    uninterp spec fn vx_hashed(k: Seq<Symbol<V, T>>) -> Seq<int>;
    #[verifier::external_body]
    fn hash(&self, state: &mut VxHasher) { unimplemented!() }
}
/// `Into`
trait VxInto<R>: Sized {
    spec fn vx_becomes(&self, r: R) -> bool;
    fn vx_into(self) -> (r: R) ensures self.vx_becomes(r);
}
impl<V: VxVar, T: VxAtom> VxInto<Vec<Symbol<V, T>>> for Vec<Symbol<V, T>> {
    spec fn vx_becomes(&self, r: Vec<Symbol<V, T>>) -> bool { r == *self }
    fn vx_into(self) -> (r: Vec<Symbol<V, T>>) { self }
}
//@ file pango-parser/src/lib.rs
//@ item Symbol noderive bare verifier::accept_recursive_types(V) verifier::accept_recursive_types(T)
//@ item Body
//@ file pango-parser/src/grammar.rs
//@ item Grammar noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ item Rules
//@ item GrammarBuilder noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ prelude
type VBody<V, T> = Seq<Symbol<V, T>>;
/// The bodies of a variable.
spec fn rule<V: VxVar, T: VxAtom>(rules: Rules<V, T>, v: V, b: VBody<V, T>) -> bool {
    rules.map().dom().contains(v) && rules.map()[v].set().contains(b)
}
//@ impl<V: VxVar, T: VxAtom> Grammar<V, T>
//@ fn Grammar::get_start_variable
ensures r == self.start_variable,
//@ fn Grammar::get_rule_bodies
ensures match r {
    Some(b) => self.rules.map().dom().contains(head) && *b == self.rules.map()[head],
    None => !self.rules.map().dom().contains(head),
},
//@ fn Grammar::get_start_variable_rules
requires self.rules.map().dom().contains(self.start_variable),
ensures r.0 == self.start_variable, *r.1 == self.rules.map()[self.start_variable],
//@ end
//@ prelude
/// What the builder makes sure of.
spec fn whole<V: VxVar, T: VxAtom>(g: Grammar<V, T>) -> bool {
    &&& g.rules.map().dom().contains(g.start_variable)
    &&& forall|v: V, b: VBody<V, T>| #[trigger] rule(g.rules, v, b) ==> 0 < b.len() <= usize::MAX
    &&& forall|v: V, b: VBody<V, T>, i: int| #[trigger] rule(g.rules, v, b) && 0 <= i < b.len() ==> match #[trigger] b[i] { Symbol::Variable(w) => g.rules.map().dom().contains(w), _ => true }
}
