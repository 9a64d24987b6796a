// The parse table of an automaton.
//@ include-proved cfsm.vx
//@ include-proved follow.vx
//@ include-proved terminal.vx
//@ file pango-parser/src/parser/table.rs
//@ item ParseTable noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ item ActionTable
//@ item GotoTable
//@ item ActionKind noderive
//@ rewrite-all table.resize_with(state + 1, Default::default) =>> table.vx_resize(state + 1)
//@ rewrite-all cfsm::State =>> State
//@ rewrite-all StateId::default() =>> vx_zero()
//@ library
/// Rows of a table.
trait VxRows<M>: Sized {
    spec fn vx_rows(&self) -> Seq<M>;
    fn get(&self, i: usize) -> (r: Option<&M>)
        ensures i < self.vx_rows().len() ==> r == Some(&self.vx_rows()[i as int]), i >= self.vx_rows().len() ==> r.is_none();
    fn get_mut(&mut self, i: usize) -> (r: Option<&mut M>)
        ensures i < old(self).vx_rows().len() ==> r.is_some() && *r.unwrap() == old(self).vx_rows()[i as int]
                && final(self).vx_rows() == old(self).vx_rows().update(i as int, *final(r.unwrap())),
            i >= old(self).vx_rows().len() ==> r.is_none() && final(self).vx_rows() == old(self).vx_rows();
    fn last(&self) -> (r: Option<&M>)
        ensures self.vx_rows().len() > 0 ==> r == Some(&self.vx_rows().last()), self.vx_rows().len() == 0 ==> r.is_none();
}
impl<M> VxRows<M> for Vec<M> {
    spec fn vx_rows(&self) -> Seq<M> { self@ }
    fn get(&self, i: usize) -> (r: Option<&M>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn get_mut(&mut self, i: usize) -> (r: Option<&mut M>) { if i < self.len() { Some(vx_at_mut(self, i)) } else { None } }
    fn last(&self) -> (r: Option<&M>) { if self.len() > 0 { Some(&self[self.len() - 1]) } else { None } }
}
trait VxGrow<K: VxKey, V>: Sized {
    spec fn vx_maps(&self) -> Seq<VxMap<K, V>>;
    /// `resize_with` and `Default::default`
    fn vx_resize(&mut self, n: usize)
        ensures final(self).vx_maps().len() == n,
            forall|i: int| 0 <= i < n ==> if i < old(self).vx_maps().len() { #[trigger] final(self).vx_maps()[i] == old(self).vx_maps()[i] } else { final(self).vx_maps()[i].map() == Map::<K::K, V>::empty() };
}
impl<K: VxKey, V> VxGrow<K, V> for Vec<VxMap<K, V>> {
    spec fn vx_maps(&self) -> Seq<VxMap<K, V>> { self@ }
    fn vx_resize(&mut self, n: usize) {
        let ghost s = self@;
        while self.len() > n invariant self@.len() <= s.len(), self@.len() == s.len() || self@.len() >= n, self@ == s.take(self@.len() as int) decreases self@.len() {
            self.pop();
        }
        while self.len() < n
            invariant self@.len() <= s.len() ==> self@ == s.take(self@.len() as int), self@.len() >= s.len() || self@.len() == n, self@.len() <= n,
                forall|i: int| 0 <= i < self@.len() ==> if i < s.len() { #[trigger] self@[i] == s[i] } else { self@[i].map() == Map::<K::K, V>::empty() },
            decreases n - self@.len(),
        {
            self.push(VxMap::new());
        }
    }
}
fn vx_zero() -> (r: usize) ensures r == 0 { 0 }
impl<'a, M: VxKey> VxRefs<'a, M> for Option<&'a VxSet<M>> {
    spec fn vx_items(&self) -> Seq<&'a VxSet<M>> { match self { Some(x) => seq![*x], None => seq![] } }
    fn vx_into_iter(self) -> (r: VxIt<&'a VxSet<M>>) { match self { Some(x) => VxIt::vx_once(x), None => VxIt::vx_empty() } }
}
/// `into_iter` of an option.
trait VxRefs<'a, M: VxKey>: Sized {
    spec fn vx_items(&self) -> Seq<&'a VxSet<M>>;
    fn vx_into_iter(self) -> (r: VxIt<&'a VxSet<M>>) ensures r.pos() == 0, r.seq() == self.vx_items();
}
impl<'a, T: VxAtom> VxInto<VxPtr<T>> for &'a T {
    spec fn vx_becomes(&self, r: VxPtr<T>) -> bool { r.at() == **self }
    fn vx_into(self) -> (r: VxPtr<T>) { VxPtr::from(self) }
}
impl<V: VxVar> Clone for ActionKind<V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<V: VxVar> Copy for ActionKind<V> {}
/// The derived equality.
impl<V: VxVar> PartialEqSpecImpl for ActionKind<V> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &ActionKind<V>) -> bool { *self == *o }
}
impl<V: VxVar> PartialEq for ActionKind<V> {
    #[verifier::external_body]
    fn eq(&self, o: &ActionKind<V>) -> bool { unimplemented!() }
}
//@ prelude
/// The body without the empty strings.
spec fn strip<V, T>(b: VBody<V, T>) -> VBody<V, T>
    decreases b.len(),
{
    if b.len() == 0 { b } else if b.last() is Epsilon { strip(b.drop_last()) } else { strip(b.drop_last()).push(b.last()) }
}
proof fn strip_len<V, T>(b: VBody<V, T>)
    ensures strip(b).len() <= b.len(),
    decreases b.len(),
{
    if b.len() > 0 { strip_len(b.drop_last()); }
}
spec fn made<V: VxVar, T: VxAtom>(c: Cfsm<V, T>) -> bool { exists|sts: Seq<VItems<V, T>>| automaton(c.grammar, sts, c) }
spec fn sets<V: VxVar, T: VxAtom>(c: Cfsm<V, T>) -> Seq<VItems<V, T>> { choose|sts: Seq<VItems<V, T>>| automaton(c.grammar, sts, c) }
spec fn tr<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, x: Symbol<V, T>) -> usize { c.states.elem(s as usize).transitions.map()[x] }
spec fn final_state<V: VxVar, T: VxAtom>(c: Cfsm<V, T>) -> int {
    let x = Symbol::<V, T>::Variable(c.grammar.start_variable);
    if reads_any(sets(c)[0], x) { tr(c, 0, x) as int } else { sets(c).len() as int }
}
/// The terminals a reduction to `v` takes place on; `None` is the end of the input.
spec fn looks<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V, k: Option<T::TK>) -> bool {
    match k { Some(x) => exists|t: T| #[trigger] follows(g, v, t) && t.tkey() == x, None => ends(g, v) }
}
/// The action of one item of state `s`.
spec fn item_wants<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, i: VItem<V, T>, k: Option<T::TK>, a: ActionKind<V>) -> bool {
    match reads(i) {
        Some(Symbol::Terminal(t)) => k == Some(t.tkey()) && a == (ActionKind::<V>::Shift { dest_state: tr(c, s, Symbol::Terminal(t)) }),
        Some(_) => false,
        None => match a { ActionKind::Reduce { variable, amount } => variable == i.head && amount == strip(i.body).len() && looks(c.grammar, i.head, k), _ => false },
    }
}
spec fn wants<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, k: Option<T::TK>, a: ActionKind<V>) -> bool {
    ||| 0 <= s < sets(c).len() && exists|i: VItem<V, T>| #[trigger] sets(c)[s].contains(i) && item_wants(c, s, i, k, a)
    ||| s == final_state(c) && k.is_none() && a == ActionKind::<V>::Accept
}
spec fn cell<V: VxVar, T: VxAtom>(m: ActionTable<V, T>, s: int, k: Option<T::TK>) -> Option<ActionKind<V>> {
    if 0 <= s < m@.len() && m@[s].map().dom().contains(k) { Some(m@[s].map()[k]) } else { None }
}
spec fn gcell<V: VxVar>(m: GotoTable<V>, s: int, v: V) -> Option<usize> {
    if 0 <= s < m@.len() && m@[s].map().dom().contains(v) { Some(m@[s].map()[v]) } else { None }
}
/// The tables have exactly the actions and the transitions they have to have.
spec fn actions_ok<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>) -> bool {
    forall|s: int, k: Option<T::TK>, a: ActionKind<V>| 0 <= s ==> (#[trigger] wants(c, s, k, a) <==> cell(m, s, k) == Some(a))
}
spec fn goes<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, v: V, d: usize) -> bool {
    0 <= s < sets(c).len() && reads_any(sets(c)[s], Symbol::Variable(v)) && d == tr(c, s, Symbol::Variable(v))
}
spec fn jumps<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, v: V, d: usize) -> bool {
    goes(c, s, v, d) || s == 0 && v == c.grammar.start_variable && d == final_state(c)
}
spec fn gotos_ok<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: GotoTable<V>) -> bool {
    forall|s: int, v: V, d: usize| 0 <= s ==> (#[trigger] jumps(c, s, v, d) <==> gcell(m, s, v) == Some(d))
}
spec fn conflict<V: VxVar, T: VxAtom>(c: Cfsm<V, T>) -> bool {
    exists|s: int, k: Option<T::TK>, a: ActionKind<V>, b: ActionKind<V>| #[trigger] wants(c, s, k, a) && #[trigger] wants(c, s, k, b) && a != b && s >= 0
}
impl<V: VxVar, T: VxAtom> Cfsm<V, T> {
    fn vx_iter(&self) -> (r: VxIt<&State<V, T>>)
        ensures r.pos() == 0, vx_lists_ref(r.seq(), self.states.set()),
            forall|i: int| 0 <= i < r.seq().len() ==> *#[trigger] r.seq()[i] == self.states.elem(r.seq()[i].id),
    { self.iter() }
}
impl<V: VxVar, T: VxAtom> ItemSet<V, T> {
    fn vx_iter(&self) -> (r: VxIt<(V, ItemBody<V, T>)>)
        ensures r.pos() == 0,
            forall|k: int| 0 <= k < r.seq().len() ==> has_item(self.items, #[trigger] item_at(r.seq(), k)),
            forall|i: VItem<V, T>| #[trigger] has_item(self.items, i) ==> listed(r.seq(), i),
    { self.iter() }
}
/// The entries made so far are right.
spec fn sound<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>) -> bool {
    forall|s: int, k: Option<T::TK>| 0 <= s ==> match #[trigger] cell(m, s, k) { Some(a) => wants(c, s, k, a), None => true }
}
spec fn gsound<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: GotoTable<V>) -> bool {
    forall|s: int, v: V| 0 <= s ==> match #[trigger] gcell(m, s, v) { Some(d) => goes(c, s, v, d), None => true }
}
/// The entries of an item, and of all items of a state, have been made.
spec fn item_done<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, s: int, i: VItem<V, T>) -> bool {
    &&& forall|k: Option<T::TK>, a: ActionKind<V>| #[trigger] item_wants(c, s, i, k, a) ==> cell(m, s, k) == Some(a)
    &&& match reads(i) { Some(Symbol::Variable(v)) => gcell(gt, s, v) == Some(tr(c, s, Symbol::Variable(v))), _ => true }
}
spec fn state_done<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, s: int) -> bool {
    forall|i: VItem<V, T>| #[trigger] sets(c)[s].contains(i) ==> item_done(c, m, gt, s, i)
}
spec fn grown<V: VxVar, T: VxAtom>(m: ActionTable<V, T>, n: ActionTable<V, T>) -> bool {
    forall|s: int, k: Option<T::TK>| 0 <= s && cell(m, s, k) is Some ==> #[trigger] cell(n, s, k) == cell(m, s, k)
}
spec fn ggrown<V: VxVar>(m: GotoTable<V>, n: GotoTable<V>) -> bool {
    forall|s: int, v: V| 0 <= s && gcell(m, s, v) is Some ==> #[trigger] gcell(n, s, v) == gcell(m, s, v)
}
proof fn item_grown<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, n: ActionTable<V, T>, gn: GotoTable<V>, s: int, i: VItem<V, T>)
    requires item_done(c, m, gt, s, i), grown(m, n), ggrown(gt, gn), 0 <= s,
    ensures item_done(c, n, gn, s, i),
{
    assert forall|k: Option<T::TK>, a: ActionKind<V>| #[trigger] item_wants(c, s, i, k, a) implies cell(n, s, k) == Some(a) by { assert(cell(m, s, k) == Some(a)); }
}
spec fn states_done<'a, V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, ss: Seq<&'a State<V, T>>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> state_done(c, m, gt, (#[trigger] ss[k]).id as int)
}
spec fn items_done<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, s: int, si: Seq<(V, ItemBody<V, T>)>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> item_done(c, m, gt, s, #[trigger] item_at(si, k))
}
proof fn all_grown<'a, V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, n: ActionTable<V, T>, gn: GotoTable<V>, ss: Seq<&'a State<V, T>>, q: int)
    requires states_done(c, m, gt, ss, q), grown(m, n), ggrown(gt, gn),
    ensures states_done(c, n, gn, ss, q),
{
    assert forall|k: int| 0 <= k < q implies state_done(c, n, gn, (#[trigger] ss[k]).id as int) by {
        let s = ss[k].id as int;
        assert(state_done(c, m, gt, s));
        assert forall|i: VItem<V, T>| #[trigger] sets(c)[s].contains(i) implies item_done(c, n, gn, s, i) by { item_grown(c, m, gt, n, gn, s, i); }
    }
}
proof fn some_grown<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, n: ActionTable<V, T>, gn: GotoTable<V>, s: int, si: Seq<(V, ItemBody<V, T>)>, q: int)
    requires items_done(c, m, gt, s, si, q), grown(m, n), ggrown(gt, gn), 0 <= s,
    ensures items_done(c, n, gn, s, si, q),
{
    assert forall|k: int| 0 <= k < q implies item_done(c, n, gn, s, #[trigger] item_at(si, k)) by { item_grown(c, m, gt, n, gn, s, item_at(si, k)); }
}
/// The lookaheads of a reduction seen so far.
spec fn looked<'a, V: VxVar, T: VxAtom>(m: ActionTable<V, T>, s: int, ls: Seq<&'a &'a Symbol<V, T>>, n: int, a: ActionKind<V>) -> bool {
    forall|k: int| 0 <= k < n ==> match **(#[trigger] ls[k]) { Symbol::Terminal(t) => cell(m, s, Some(t.tkey())) == Some(a), _ => true }
}
spec fn ids_listed<'a, V: VxVar, T: VxAtom>(ss: Seq<&'a State<V, T>>, n: nat) -> bool {
    &&& forall|i: int| 0 <= i < ss.len() ==> (#[trigger] ss[i]).id < n
    &&& forall|k: usize| k < n ==> #[trigger] held(ss, k as int)
    &&& forall|i: int, j: int| 0 <= i < j < ss.len() ==> (#[trigger] ss[i]).id != (#[trigger] ss[j]).id
}
proof fn count_ids<'a, V: VxVar, T: VxAtom>(ss: Seq<&'a State<V, T>>, n: nat)
    requires ids_listed(ss, n), n <= usize::MAX,
    ensures ss.len() == n,
    decreases n,
{
    if n == 0 {
        if ss.len() > 0 { assert(ss[0].id < n); }
    } else {
        let t = (n - 1) as usize;
        assert(held(ss, t as int));
        let j = choose|j: int| 0 <= j < ss.len() && (#[trigger] ss[j]).id == t;
        let r = ss.remove(j);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).id < (n - 1) as nat by {
            let o = if i < j { i } else { i + 1 };
            assert(r[i] == ss[o]);
            assert(ss[o].id < n);
            if o < j { assert(ss[o].id != ss[j].id); } else { assert(ss[j].id != ss[o].id); }
        }
        assert forall|k: usize| k < (n - 1) as nat implies #[trigger] held(r, k as int) by {
            assert(held(ss, k as int));
            let o = choose|o: int| 0 <= o < ss.len() && (#[trigger] ss[o]).id == k as int;
            let i = if o < j { o } else { o - 1 };
            assert(r[i] == ss[o]);
        }
        assert forall|a: int, b: int| 0 <= a < b < r.len() implies (#[trigger] r[a]).id != (#[trigger] r[b]).id by {
            let (p, q) = (if a < j { a } else { a + 1 }, if b < j { b } else { b + 1 });
            assert(r[a] == ss[p] && r[b] == ss[q]);
        }
        count_ids(r, (n - 1) as nat);
    }
}
proof fn count_states<'a, V: VxVar, T: VxAtom>(ss: Seq<&'a State<V, T>>, m: VxTreeSet<State<V, T>>, n: nat)
    requires vx_lists_ref(ss, m.set()), forall|s: usize| #[trigger] m.set().contains(s) <==> s < n, n <= usize::MAX,
    ensures ss.len() == n,
{
    assert forall|i: int| 0 <= i < ss.len() implies (#[trigger] ss[i]).id < n by { assert(m.set().contains((*ss[i]).key())); }
    assert forall|k: usize| k < n implies #[trigger] held(ss, k as int) by {
        assert(m.set().contains(k));
        let i = choose|i: int| 0 <= i < ss.len() && (*#[trigger] ss[i]).key() == k;
        assert(ss[i].id == k as int);
    }
    assert forall|i: int, j: int| 0 <= i < j < ss.len() implies (#[trigger] ss[i]).id != (#[trigger] ss[j]).id by { assert((*ss[i]).key() != (*ss[j]).key()); }
    count_ids(ss, n);
}
/// All states have their entries, but for the acceptance.
proof fn table_all<'a, V: VxVar, T: VxAtom>(c: Cfsm<V, T>, m: ActionTable<V, T>, gt: GotoTable<V>, ss: Seq<&'a State<V, T>>)
    requires made(c), states_done(c, m, gt, ss, ss.len() as int), vx_lists_ref(ss, c.states.set()), sound(c, m), gsound(c, gt),
    ensures forall|s: int| #![trigger sets(c)[s]] 0 <= s < sets(c).len() ==> state_done(c, m, gt, s),
        forall|s: int, v: V, d: usize| 0 <= s ==> (#[trigger] goes(c, s, v, d) <==> gcell(gt, s, v) == Some(d)),
{
    let sts = sets(c);
    assert(automaton(c.grammar, sts, c));
    assert forall|s: int| #![trigger sets(c)[s]] 0 <= s < sets(c).len() implies state_done(c, m, gt, s) by {
        assert(c.states.set().contains(s as usize));
        let k = choose|k: int| 0 <= k < ss.len() && (*#[trigger] ss[k]).key() == s as usize;
        assert(ss[k].id == s as usize);
    }
    assert forall|s: int, v: V, d: usize| 0 <= s implies (#[trigger] goes(c, s, v, d) <==> gcell(gt, s, v) == Some(d)) by {
        if goes(c, s, v, d) {
            let i = choose|i: VItem<V, T>| #[trigger] sts[s].contains(i) && reads(i) == Some(Symbol::<V, T>::Variable(v));
            assert(state_done(c, m, gt, s));
            assert(item_done(c, m, gt, s, i));
        }
    }
}
//@ file pango-parser/src/parser/table.rs
//@ impl<V: VxVar, T: VxAtom> ParseTable<V, T>
//@ fn ParseTable::insert_action
requires state < usize::MAX,
ensures cell(*final(table), state as int, terminal.key()) == (match cell(*old(table), state as int, terminal.key()) { Some(a) => Some(a), None => Some(action) }),
    r.is_ok() <==> cell(*final(table), state as int, terminal.key()) == Some(action),
    forall|s: int, k: Option<T::TK>| 0 <= s && (s != state || k != terminal.key()) ==> #[trigger] cell(*final(table), s, k) == cell(*old(table), s, k),
//@ fn ParseTable::insert_goto
requires state < usize::MAX, gcell(*old(table), state as int, variable) is Some ==> gcell(*old(table), state as int, variable) == Some(new_state),
ensures gcell(*final(table), state as int, variable) == Some(new_state),
    forall|s: int, v: V| 0 <= s && (s != state || v != variable) ==> #[trigger] gcell(*final(table), s, v) == gcell(*old(table), s, v),
//@ fn ParseTable::new_slr
requires whole(cfsm_pin.grammar), made(*cfsm_pin),
ensures match r {
    Ok(p) => *p._cfsm == *cfsm_pin && actions_ok(*cfsm_pin, p.action) && gotos_ok(*cfsm_pin, p.goto),
    Err(_) => conflict(*cfsm_pin),
},
//@ at start
let ghost c = *cfsm_pin;
let ghost sts = sets(c);
let ghost mut gt: GotoTable<V> = arbitrary();
let ghost mut a1: ActionTable<V, T> = arbitrary();
proof { assert(automaton(c.grammar, sts, c)); }
//@ loop 0
invariant vx_lists_ref(vx_s0, c.states.set()), forall|i: int| 0 <= i < vx_s0.len() ==> *#[trigger] vx_s0[i] == c.states.elem(vx_s0[i].id),
    sound(c, action), gsound(c, goto), states_done(c, action, goto, vx_s0, vx_it0.pos()),
//@ at loop 0 start
let ghost s0 = vx_x0.id as int;
proof {
    assert(c.states.set().contains((*vx_x0).key()));
    assert(same_state(c.states.elem(vx_x0.id), s0, sts[s0]));
    assert(trans_ok(c.grammar, sts, s0, vx_x0.transitions.map()));
}
//@ loop 1
invariant items_done(c, action, goto, s0, vx_s1, vx_it1.pos()), sound(c, action), gsound(c, goto), states_done(c, action, goto, vx_s0, vx_it0.pos() - 1),
    forall|k: int| 0 <= k < vx_s1.len() ==> has_item(item_set.items, #[trigger] item_at(vx_s1, k)),
    forall|i: VItem<V, T>| #[trigger] has_item(item_set.items, i) ==> listed(vx_s1, i),
//@ at loop 1 start
let ghost it = item_at(vx_s1, vx_it1.pos() - 1);
let ghost (a0, g0) = (action, goto);
let ghost mut act = ActionKind::<V>::Accept;
proof {
    assert(has_item(item_set.items, it));
    assert(sts[s0].contains(it));
    assert(proper(c.grammar, it));
}
//@ at call insert_action 0 before
proof { assert(wants(c, s0, Some(t.tkey()), ActionKind::<V>::Shift { dest_state })); }
//@ at call insert_goto 0 before
proof { assert(goes(c, s0, *v, dest_state)); }
//@ loop 2
invariant body.body.at()@.len() == vx_s2.len(), vx_r1 == strip(it.body.take(vx_it2.pos())).len(),
    forall|k: int| 0 <= k < vx_s2.len() ==> *#[trigger] vx_s2[k] == it.body[k],
//@ at loop 2 start
proof {
    let p = it.body.take(vx_it2.pos());
    assert(p.drop_last() =~= it.body.take(vx_it2.pos() - 1));
}
//@ at loop 2 after
proof { act = ActionKind::<V>::Reduce { variable: head, amount: vx_r1 }; assert(it.body.take(vx_it2.pos()) =~= it.body); }
//@ loop 3
invariant sound(c, action), grown(a0, action), vx_s3.len() <= 1,
    vx_it3.pos() == 1 ==> (forall|t: T| #[trigger] follows(c.grammar, head, t) ==> cell(action, s0, Some(t.tkey())) == Some(act)),
//@ loop 4
invariant sound(c, action), grown(a0, action), looked(action, s0, vx_s4, vx_it4.pos(), act), vx_lists_ref(vx_s4, follow_set.map()[head].set()),
//@ at call insert_action 1 before
proof { assert(wants(c, s0, t.key(), act)); }
//@ at call insert_action 2 before
proof { assert(wants(c, s0, None, act)); }
//@ at loop 1 end
proof {
    assert(item_done(c, action, goto, s0, it));
    all_grown(c, a0, g0, action, goto, vx_s0, vx_it0.pos() - 1);
    some_grown(c, a0, g0, action, goto, s0, vx_s1, vx_it1.pos() - 1);
}
//@ at loop 1 after
proof {
    assert forall|i: VItem<V, T>| #[trigger] sets(c)[s0].contains(i) implies item_done(c, action, goto, s0, i) by {
        assert(has_item(item_set.items, i));
        assert(listed(vx_s1, i));
        let k = choose|k: int| 0 <= k < vx_s1.len() && #[trigger] item_at(vx_s1, k) == i;
    }
}
//@ at loop 0 after
proof { gt = goto; table_all(c, action, goto, vx_s0); }
//@ loop 5
invariant vx_r2 == vx_it5.pos(), vx_lists_ref(vx_s5, c.states.set()),
//@ at loop 5 after
proof { count_states(vx_s5, c.states, sts.len()); }
//@ at call insert_action 3 before
proof { a1 = action; }
proof {
    let x = Symbol::<V, T>::Variable(start_variable);
    assert(sts[0] == sts[0]);
    assert(goes(c, 0, start_variable, tr(c, 0, x)) <==> gcell(gt, 0, start_variable) == Some(tr(c, 0, x)));
    if reads_any(sts[0], x) {
        assert(trans_ok(c.grammar, sts, 0, c.states.elem(0).transitions.map()));
        assert(c.states.elem(0).transitions.map().dom().contains(x));
    }
    assert(accept_state == final_state(c));
    assert(accept_state <= sts.len());
    assert(wants(c, accept_state as int, None, ActionKind::<V>::Accept));
}
//@ at end
proof {
    assert forall|s: int, k: Option<T::TK>, a: ActionKind<V>| 0 <= s implies (#[trigger] wants(c, s, k, a) <==> cell(action, s, k) == Some(a)) by {
        let o = cell(a1, s, k);
        let n = cell(action, s, k);
        if n == Some(a) && o == Some(a) { assert(wants(c, s, k, a)); }
        if wants(c, s, k, a) {
            if 0 <= s < sts.len() && exists|i: VItem<V, T>| #[trigger] sts[s].contains(i) && item_wants(c, s, i, k, a) {
                let i = choose|i: VItem<V, T>| #[trigger] sts[s].contains(i) && item_wants(c, s, i, k, a);
                assert(state_done(c, a1, gt, s));
                assert(item_done(c, a1, gt, s, i));
                assert(o == Some(a));
            }
        }
    }
    assert forall|s: int, v: V, d: usize| 0 <= s implies (#[trigger] jumps(c, s, v, d) <==> gcell(goto, s, v) == Some(d)) by {
        assert(goes(c, s, v, d) <==> gcell(gt, s, v) == Some(d));
    }
}
//@ end
//@ impl<V: VxVar, T: VxAtom> ParseTable<V, T>
//@ fn ParseTable::get_grammar
ensures *r == self._cfsm.grammar,
//@ end
