// The automaton of a grammar.
//@ include-proved items.vx
//@ file pango-parser/src/cfsm/state.rs
//@ item StateId
//@ item WSymbol noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ item State noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ item StateIdGenerator noderive
//@ file pango-parser/src/cfsm/mod.rs
//@ item Cfsm noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ item CfsmBuilder noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ library
impl<V: VxVar, T: VxAtom> VxKey for WSymbol<V, T> {
    type K = Symbol<V, T>;
    spec fn key(&self) -> Symbol<V, T> { self.0.at() }
}
impl<V: VxVar, T: VxAtom> VxKey for State<V, T> {
    type K = usize;
    spec fn key(&self) -> usize { self.id }
}
//@ prelude
use core::cmp::Ordering;
/// What is left of the items of `k` after reading `x`.
spec fn step<V: VxVar, T: VxAtom>(k: VItems<V, T>, x: Symbol<V, T>) -> VItems<V, T> {
    ISet::new(|i: VItem<V, T>| exists|j: VItem<V, T>| #[trigger] k.contains(j) && reads(j) == Some(x) && i == read(j))
}
spec fn reads_any<V: VxVar, T: VxAtom>(k: VItems<V, T>, x: Symbol<V, T>) -> bool {
    exists|j: VItem<V, T>| #[trigger] k.contains(j) && reads(j) == Some(x)
}
spec fn states_listed<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, m: VxTreeSet<State<V, T>>) -> bool {
    vx_lists_ref(s, m.set()) && forall|k: int| 0 <= k < s.len() ==> *#[trigger] s[k] == m.elem(s[k].id)
}
spec fn ids_ok<'a, V: VxVar, T: VxAtom>(r: (VxSet<usize>, VxSet<usize>), s: Seq<&'a State<V, T>>, n: int, m: VxTreeSet<State<V, T>>) -> bool {
    &&& forall|k: int| 0 <= k < n ==> r.0.set().contains((#[trigger] s[k]).id)
    &&& forall|t: usize| #[trigger] r.1.set().contains(t) ==> m.set().contains(t)
}
spec fn same_state<V: VxVar, T: VxAtom>(st: State<V, T>, id: int, k: VItems<V, T>) -> bool {
    st.id == id && items_of(st.item_set.items) == k && tidy(st.item_set.items)
}
/// The transitions of state `s`.
spec fn trans_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, s: int, m: Map<Symbol<V, T>, usize>) -> bool {
    &&& forall|x: Symbol<V, T>| #[trigger] m.dom().contains(x) <==> reads_any(sts[s], x)
    &&& forall|x: Symbol<V, T>| #[trigger] m.dom().contains(x) ==> m[x] < sts.len() && sts[m[x] as int] == closure(g, step(sts[s], x))
}
spec fn reached<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, s: int) -> bool {
    exists|p: int, x: Symbol<V, T>| 0 <= p < s && #[trigger] reads_any(sts[p], x) && sts[s] == closure(g, step(sts[p], x))
}
/// The sets of items of the states, in the order in which they are found.
spec fn sets_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>) -> bool {
    &&& sts.len() > 0
    &&& sts[0] == closure(g, kernel(g.start_variable, g.rules.map()[g.start_variable].set()))
    &&& forall|s: int, t: int| 0 <= s < t < sts.len() ==> #[trigger] sts[s] != #[trigger] sts[t]
    &&& forall|s: int| 0 <= s < sts.len() ==> all_proper(g, #[trigger] sts[s])
    &&& forall|s: int| 0 < s < sts.len() ==> #[trigger] reached(g, sts, s)
}
spec fn done_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, m: VxTreeSet<State<V, T>>, d: int) -> bool {
    &&& 0 <= d <= sts.len()
    &&& forall|s: usize| #[trigger] m.set().contains(s) <==> s < d
    &&& forall|s: usize| s < d ==> same_state(#[trigger] m.elem(s), s as int, sts[s as int]) && trans_ok(g, sts, s as int, m.elem(s).transitions.map())
}
/// Some of the states are finished, in any order.
spec fn some_done<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, m: VxTreeSet<State<V, T>>) -> bool {
    forall|s: usize| #[trigger] m.set().contains(s) ==> s < sts.len() && same_state(m.elem(s), s as int, sts[s as int]) && trans_ok(g, sts, s as int, m.elem(s).transitions.map())
}
spec fn pends<V: VxVar, T: VxAtom>(p: Seq<State<V, T>>, t: usize) -> bool { exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).id == t }
/// The states outside `d` wait, each once.
spec fn pending_ok<V: VxVar, T: VxAtom>(sts: Seq<VItems<V, T>>, p: Seq<State<V, T>>, d: Set<usize>) -> bool {
    &&& sts.len() == d.len() + p.len()
    &&& forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).id < sts.len() && !d.contains(p[k].id) && same_state(p[k], p[k].id as int, sts[p[k].id as int]) && p[k].transitions.map() == Map::<Symbol<V, T>, usize>::empty()
    &&& forall|t: usize| t < sts.len() && !d.contains(t) ==> #[trigger] pends(p, t)
    &&& forall|k: int, l: int| 0 <= k < l < p.len() ==> (#[trigger] p[k]).id != (#[trigger] p[l]).id
}
proof fn pending_took<V: VxVar, T: VxAtom>(sts: Seq<VItems<V, T>>, p: Seq<State<V, T>>, q: Seq<State<V, T>>, x: State<V, T>, d: Set<usize>)
    requires pending_ok(sts, p, d), took(p, q, x),
    ensures pending_ok(sts, q, d.insert(x.id)), x.id < sts.len(), !d.contains(x.id), same_state(x, x.id as int, sts[x.id as int]),
        x.transitions.map() == Map::<Symbol<V, T>, usize>::empty(),
{
    let (e, a) = (took_by(p, q, x), took_at(p, q, x));
    assert(p[a] == x);
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).id < sts.len() && !d.insert(x.id).contains(q[k].id) && same_state(q[k], q[k].id as int, sts[q[k].id as int])
        && q[k].transitions.map() == Map::<Symbol<V, T>, usize>::empty() by {
        assert(q[k] == p[k + e]);
        if k + e < a { assert(p[k + e].id != p[a].id); } else { assert(p[a].id != p[k + e].id); }
    }
    assert forall|t: usize| t < sts.len() && !d.insert(x.id).contains(t) implies #[trigger] pends(q, t) by {
        assert(pends(p, t));
        let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).id == t;
        assert(q[k - e] == p[k]);
    }
    assert forall|k: int, l: int| 0 <= k < l < q.len() implies (#[trigger] q[k]).id != (#[trigger] q[l]).id by {
        assert(q[k] == p[k + e] && q[l] == p[l + e]);
    }
}
proof fn pending_push<V: VxVar, T: VxAtom>(sts: Seq<VItems<V, T>>, p: Seq<State<V, T>>, k1: VItems<V, T>, x: State<V, T>, d: Set<usize>)
    requires pending_ok(sts, p, d), same_state(x, sts.len() as int, k1), x.transitions.map() == Map::<Symbol<V, T>, usize>::empty(),
        forall|t: usize| #[trigger] d.contains(t) ==> t < sts.len(),
    ensures pending_ok(sts.push(k1), p.push(x), d),
{
    let (st, q) = (sts.push(k1), p.push(x));
    assert forall|k: int| 0 <= k < q.len() implies (#[trigger] q[k]).id < st.len() && !d.contains(q[k].id) && same_state(q[k], q[k].id as int, st[q[k].id as int])
        && q[k].transitions.map() == Map::<Symbol<V, T>, usize>::empty() by {
        if k < p.len() { assert(q[k] == p[k]); }
    }
    assert forall|t: usize| t < st.len() && !d.contains(t) implies #[trigger] pends(q, t) by {
        if t < sts.len() {
            assert(pends(p, t));
            let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).id == t;
            assert(q[k] == p[k]);
        } else {
            assert(q[p.len() as int].id == t);
        }
    }
    assert forall|k: int, l: int| 0 <= k < l < q.len() implies (#[trigger] q[k]).id != (#[trigger] q[l]).id by {
        assert(q[k] == p[k]);
        if l < p.len() { assert(q[l] == p[l]); }
    }
}
/// Every state lies in memory with its number, so no collection has more than fit there.
axiom fn states_fit<V: VxVar, T: VxAtom>(dn: VxTreeSet<State<V, T>>, ps: VxDeque<State<V, T>>)
    ensures dn.set().len() <= usize::MAX / 16, ps.seq().len() <= usize::MAX / 16;
/// All items of a rule, of rules and of a grammar.
spec fn items_rule<V: VxVar, T: VxAtom>(v: V, b: VBody<V, T>, n: nat) -> Set<VItem<V, T>>
    decreases n
{ if n == 0 { Set::empty() } else { items_rule(v, b, (n - 1) as nat).insert(VItem { head: v, body: b, dot: n - 1 }) } }
spec fn items_rules<V: VxVar, T: VxAtom>(v: V, s: Set<VBody<V, T>>) -> Set<VItem<V, T>>
    decreases s.len()
{ if s.len() == 0 { Set::empty() } else { items_rule(v, s.choose(), s.choose().len() + 1).union(items_rules(v, s.remove(s.choose()))) } }
spec fn items_all<V: VxVar, T: VxAtom>(g: Grammar<V, T>, s: Set<V>) -> Set<VItem<V, T>>
    decreases s.len()
{ if s.len() == 0 { Set::empty() } else { items_rules(s.choose(), g.rules.map()[s.choose()].set()).union(items_all(g, s.remove(s.choose()))) } }
proof fn items_rule_has<V: VxVar, T: VxAtom>(v: V, b: VBody<V, T>, n: nat, i: VItem<V, T>)
    requires i.head == v, i.body == b, 0 <= i.dot < n,
    ensures items_rule(v, b, n).contains(i),
    decreases n,
{ if i.dot < n - 1 { items_rule_has(v, b, (n - 1) as nat, i); } }
proof fn items_rules_have<V: VxVar, T: VxAtom>(v: V, s: Set<VBody<V, T>>, i: VItem<V, T>)
    requires i.head == v, s.contains(i.body), 0 <= i.dot <= i.body.len(),
    ensures items_rules(v, s).contains(i),
    decreases s.len(),
{
    let b = s.choose();
    if s.len() == 0 { assert(s.remove(i.body).len() == s.len() - 1); }
    assert(s.contains(b));
    if b == i.body { items_rule_has(v, b, b.len() + 1, i); } else { items_rules_have(v, s.remove(b), i); }
}
proof fn items_all_has<V: VxVar, T: VxAtom>(g: Grammar<V, T>, s: Set<V>, i: VItem<V, T>)
    requires proper(g, i), s.contains(i.head),
    ensures items_all(g, s).contains(i),
    decreases s.len(),
{
    let v = s.choose();
    if s.len() == 0 { assert(s.remove(i.head).len() == s.len() - 1); }
    assert(s.contains(v));
    if v == i.head { items_rules_have(v, g.rules.map()[v].set(), i); } else { items_all_has(g, s.remove(v), i); }
}
/// No grammar has more states.
spec fn most_states<V: VxVar, T: VxAtom>(g: Grammar<V, T>) -> nat { subsets(items_all(g, g.rules.map().dom())).len() }
proof fn states_most<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>)
    requires sets_ok(g, sts),
    ensures sts.len() <= most_states(g),
{
    assert forall|s: int, i: VItem<V, T>| 0 <= s < sts.len() && #[trigger] sts[s].contains(i) implies items_all(g, g.rules.map().dom()).contains(i) by {
        assert(all_proper(g, sts[s]));
        assert(proper(g, i));
        items_all_has(g, g.rules.map().dom(), i);
    }
    subsets_most(items_all(g, g.rules.map().dom()), sts);
}
/// The automaton of the grammar.
spec fn automaton<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, c: Cfsm<V, T>) -> bool {
    c.grammar == g && c.start_state == 0 && sts.len() < usize::MAX && sets_ok(g, sts) && done_ok(g, sts, c.states, sts.len() as int)
}
proof fn sets_push<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, k: VItems<V, T>, d: int, x: Symbol<V, T>)
    requires sets_ok(g, sts), 0 <= d < sts.len(), reads_any(sts[d], x), k == closure(g, step(sts[d], x)), all_proper(g, k),
        forall|s: int| 0 <= s < sts.len() ==> #[trigger] sts[s] != k,
    ensures sets_ok(g, sts.push(k)),
{
    let n = sts.push(k);
    assert forall|s: int| 0 < s < n.len() implies #[trigger] reached(g, n, s) by {
        if s < sts.len() {
            assert(reached(g, sts, s));
            let (p, y) = choose|p: int, y: Symbol<V, T>| 0 <= p < s && #[trigger] reads_any(sts[p], y) && sts[s] == closure(g, step(sts[p], y));
            assert(reads_any(n[p], y));
        } else {
            assert(reads_any(n[d], x));
        }
    }
}
proof fn done_push<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, k: VItems<V, T>, m: VxTreeSet<State<V, T>>)
    requires some_done(g, sts, m),
    ensures some_done(g, sts.push(k), m),
{
    assert forall|s: usize| #[trigger] m.set().contains(s) implies s < sts.push(k).len() && same_state(m.elem(s), s as int, sts.push(k)[s as int]) && trans_ok(g, sts.push(k), s as int, m.elem(s).transitions.map()) by {
        assert(trans_ok(g, sts, s as int, m.elem(s).transitions.map()));
    }
}
proof fn done_add<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, m: VxTreeSet<State<V, T>>, n: VxTreeSet<State<V, T>>, x: State<V, T>)
    requires some_done(g, sts, m), !m.set().contains(x.id), n.set() == m.set().insert(x.id), x.id < sts.len(), same_state(x, x.id as int, sts[x.id as int]),
        trans_ok(g, sts, x.id as int, x.transitions.map()),
        forall|k: usize| #[trigger] n.elem(k) == (if m.set().contains(k) || k != x.id { m.elem(k) } else { x }),
    ensures some_done(g, sts, n),
{
    assert forall|s: usize| #[trigger] n.set().contains(s) implies s < sts.len() && same_state(n.elem(s), s as int, sts[s as int]) && trans_ok(g, sts, s as int, n.elem(s).transitions.map()) by {
        if s != x.id { assert(m.set().contains(s)); }
        assert(n.elem(s) == (if m.set().contains(s) || s != x.id { m.elem(s) } else { x }));
    }
}
proof fn done_all<V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, m: VxTreeSet<State<V, T>>, p: Seq<State<V, T>>)
    requires some_done(g, sts, m), pending_ok(sts, p, m.set()), p.len() == 0, sts.len() < usize::MAX,
    ensures done_ok(g, sts, m, sts.len() as int),
{
    assert forall|s: usize| #[trigger] m.set().contains(s) <==> s < sts.len() by {
        if s < sts.len() && !m.set().contains(s) { assert(pends(p, s)); }
    }
    assert forall|s: usize| s < sts.len() implies same_state(#[trigger] m.elem(s), s as int, sts[s as int]) && trans_ok(g, sts, s as int, m.elem(s).transitions.map()) by {
        assert(m.set().contains(s));
    }
}
/// The groups looked at so far have their transitions.
spec fn part_ok<'a, V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, d: int, m: Map<Symbol<V, T>, usize>, s: Seq<(&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>)>, n: int) -> bool {
    &&& forall|x: Symbol<V, T>| #[trigger] m.dom().contains(x) ==> exists|k: int| 0 <= k < n && *(#[trigger] s[k]).0 == x
    &&& forall|k: int| 0 <= k < n ==> m.dom().contains(*(#[trigger] s[k]).0)
    &&& forall|x: Symbol<V, T>| #[trigger] m.dom().contains(x) ==> m[x] < sts.len() && sts[m[x] as int] == closure(g, step(sts[d], x))
}
proof fn part_all<'a, V: VxVar, T: VxAtom>(g: Grammar<V, T>, sts: Seq<VItems<V, T>>, d: int, m: Map<Symbol<V, T>, usize>, s: Seq<(&'a Symbol<V, T>, VxMap<V, VxSet<&'a ItemBody<V, T>>>)>)
    requires part_ok(g, sts, d, m, s, s.len() as int), groups(s, sts[d]),
    ensures trans_ok(g, sts, d, m),
{
    assert forall|x: Symbol<V, T>| #[trigger] m.dom().contains(x) <==> reads_any(sts[d], x) by {
        if m.dom().contains(x) {
            let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).0 == x;
            assert(some_ref(s[k].1));
            let i = choose|i: VItem<V, T>| #[trigger] has_ref(s[k].1, i);
            assert(sts[d].contains(i));
        }
        if reads_any(sts[d], x) {
            let i = choose|j: VItem<V, T>| #[trigger] sts[d].contains(j) && reads(j) == Some(x);
            assert(has_group(s, x));
            let k = choose|k: int| 0 <= k < s.len() && *(#[trigger] s[k]).0 == x;
            assert(m.dom().contains(*s[k].0));
        }
    }
}
/// The bodies `b` with one more symbol read.
spec fn adv_set<V: VxVar, T: VxAtom>(a: Set<(VBody<V, T>, int)>, b: Set<(VBody<V, T>, int)>) -> bool {
    &&& forall|c: VBody<V, T>, e: int| #[trigger] b.contains((c, e)) ==> a.contains((c, skip_eps(c, e + 1)))
    &&& forall|c: VBody<V, T>, e: int| #[trigger] a.contains((c, e)) ==> exists|f: int| #[trigger] b.contains((c, f)) && e == skip_eps(c, f + 1)
}
spec fn adv_part<'a, V: VxVar, T: VxAtom>(a: Set<(VBody<V, T>, int)>, s: Seq<&'a ItemBody<V, T>>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < n ==> a.contains(((#[trigger] s[k]).body.at()@, skip_eps(s[k].body.at()@, s[k].cursor + 1)))
    &&& forall|c: VBody<V, T>, e: int| #[trigger] a.contains((c, e)) ==> exists|k: int| 0 <= k < n && (#[trigger] s[k]).body.at()@ == c && e == skip_eps(c, s[k].cursor + 1)
}
spec fn keyed<T: VxKey>(s: Seq<T>, k: T::K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key() == k }
proof fn keyed_of<T: VxKey>(s: Seq<T>, set: Set<T::K>, k: T::K)
    requires vx_lists(s, set), set.contains(k),
    ensures keyed(s, k),
{
}
proof fn lists_deref<'a, T: VxKey>(s: Seq<&'a T>, set: Set<T::K>)
    requires vx_lists(s, set),
    ensures vx_lists_ref(s, set),
{
    assert forall|k: T::K| #[trigger] set.contains(k) implies exists|i: int| 0 <= i < s.len() && (*#[trigger] s[i]).key() == k by {
        keyed_of::<&'a T>(s, set, k);
        assert(keyed::<&'a T>(s, k));
        let i = choose|i: int| 0 <= i < s.len() && VxKey::key(&#[trigger] s[i]) == k;
        assert(VxKey::key(&s[i]) == k);
        assert((*s[i]).key() == k);
    }
}
proof fn adv_all<'a, V: VxVar, T: VxAtom>(a: Set<(VBody<V, T>, int)>, s: Seq<&'a ItemBody<V, T>>, b: Set<(VBody<V, T>, int)>)
    requires adv_part(a, s, s.len() as int), vx_lists(s, b),
    ensures adv_set(a, b),
{

    assert forall|c: VBody<V, T>, e: int| #[trigger] b.contains((c, e)) implies a.contains((c, skip_eps(c, e + 1))) by {
        keyed_of::<&'a ItemBody<V, T>>(s, b, (c, e));
        assert(keyed::<&'a ItemBody<V, T>>(s, (c, e)));
        let k = choose|k: int| 0 <= k < s.len() && VxKey::key(&#[trigger] s[k]) == (c, e);
        assert(VxKey::key(&s[k]) == (c, e));
        assert(s[k].body.at()@ == c);
        assert(a.contains((s[k].body.at()@, skip_eps(s[k].body.at()@, s[k].cursor + 1))));
    }
    assert forall|c: VBody<V, T>, e: int| #[trigger] a.contains((c, e)) implies exists|f: int| #[trigger] b.contains((c, f)) && e == skip_eps(c, f + 1) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).body.at()@ == c && e == skip_eps(c, s[k].cursor + 1);
        assert(b.contains((s[k].body.at()@, s[k].cursor as int)));
    }
}
spec fn adv_map<'a, V: VxVar, T: VxAtom>(m: VxMap<V, ItemBodies<V, T>>, s: Seq<(V, VxSet<&'a ItemBody<V, T>>)>, n: int) -> bool {
    &&& forall|v: V| #[trigger] m.map().dom().contains(v) ==> exists|k: int| 0 <= k < n && (#[trigger] s[k]).0 == v
    &&& forall|k: int| 0 <= k < n ==> m.map().dom().contains((#[trigger] s[k]).0) && adv_set(m.map()[s[k].0].set(), s[k].1.set())
}
proof fn adv_items<'a, V: VxVar, T: VxAtom>(g: Grammar<V, T>, c: VItems<V, T>, x: Symbol<V, T>, r: VxMap<V, VxSet<&'a ItemBody<V, T>>>, s: Seq<(V, VxSet<&'a ItemBody<V, T>>)>, m: VxMap<V, ItemBodies<V, T>>)
    requires adv_map(m, s, s.len() as int), vx_lists_pairs(s, r.map()), some_ref(r),
        forall|i: VItem<V, T>| #[trigger] has_ref(r, i) <==> c.contains(i) && reads(i) == Some(x), all_proper(g, c),
    ensures items_of(m) == step(c, x), full(m), all_proper(g, items_of(m)), exists|i: VItem<V, T>| #[trigger] has_item(m, i), reads_any(c, x),
{
    assert forall|i: VItem<V, T>| #[trigger] has_ref(r, i) implies has_item(m, read(i)) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0.key() == i.head;
        assert(s[k].1.set().contains((i.body, i.dot)));
        assert(m.map().dom().contains(s[k].0));
    }
    assert forall|i: VItem<V, T>| #[trigger] has_item(m, i) implies step(c, x).contains(i) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i.head;
        assert(adv_set(m.map()[s[k].0].set(), s[k].1.set()));
        assert(m.map()[s[k].0].set().contains((i.body, i.dot)));
        let f = choose|f: int| #[trigger] s[k].1.set().contains((i.body, f)) && i.dot == skip_eps(i.body, f + 1);
        let j = VItem { head: i.head, body: i.body, dot: f };
        assert(r.map().dom().contains(s[k].0.key()));
        assert(has_ref(r, j));
        assert(c.contains(j));
    }
    assert forall|i: VItem<V, T>| #[trigger] step(c, x).contains(i) implies items_of(m).contains(i) by {
        let j = choose|j: VItem<V, T>| #[trigger] c.contains(j) && reads(j) == Some(x) && i == read(j);
        assert(has_ref(r, j));
    }
    assert(items_of(m) =~= step(c, x)) by {
        assert forall|i: VItem<V, T>| #[trigger] items_of(m).contains(i) <==> step(c, x).contains(i) by { assert(items_of(m).contains(i) == has_item(m, i)); }
    }
    let i0 = choose|i: VItem<V, T>| #[trigger] has_ref(r, i);
    assert(has_item(m, read(i0)));
    assert(c.contains(i0));
    assert forall|v: V| #[trigger] m.map().dom().contains(v) implies exists|b: VBody<V, T>, d: int| #[trigger] has_item(m, VItem { head: v, body: b, dot: d }) by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == v;
        assert(r.map().dom().contains(s[k].0.key()));
        let (b, d) = choose|b: VBody<V, T>, d: int| #[trigger] has_ref(r, VItem { head: v, body: b, dot: d });
        let j = VItem { head: v, body: b, dot: d };
        assert(has_ref(r, j));
        let i = read(j);
        assert(has_item(m, VItem { head: v, body: i.body, dot: i.dot }));
    }
    assert forall|i: VItem<V, T>| #[trigger] items_of(m).contains(i) implies proper(g, i) by {
        assert(step(c, x).contains(i));
        let j = choose|j: VItem<V, T>| #[trigger] c.contains(j) && reads(j) == Some(x) && i == read(j);
        assert(proper(g, j));
        skip_eps_range(j.body, j.dot + 1);
    }
}
spec fn held<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, t: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id == t }
/// All states but number `d`.
spec fn covers<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, sts: Seq<VItems<V, T>>, d: int) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).id < sts.len() && same_state(*s[k], s[k].id as int, sts[s[k].id as int])
    &&& forall|t: int| 0 <= t < sts.len() && t != d ==> #[trigger] held(s, t)
}
spec fn is_split<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, a: Seq<&'a State<V, T>>, b: Seq<&'a State<V, T>>, m: VxTreeSet<State<V, T>>, p: Seq<State<V, T>>) -> bool {
    states_listed(a, m) && b.len() == p.len() && forall|k: int| 0 <= k < p.len() ==> *#[trigger] b[k] == p[k]
}
spec fn split<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, m: VxTreeSet<State<V, T>>, p: Seq<State<V, T>>) -> bool {
    exists|a: Seq<&'a State<V, T>>, b: Seq<&'a State<V, T>>| #![trigger a + b] (is_split(s, a, b, m, p) || is_split(s, b, a, m, p)) && a + b == s
}
proof fn covers_all<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, a: Seq<&'a State<V, T>>, b: Seq<&'a State<V, T>>, g: Grammar<V, T>, sts: Seq<VItems<V, T>>, m: VxTreeSet<State<V, T>>, p: Seq<State<V, T>>, d: int)
    requires a + b == s || b + a == s, is_split(s, a, b, m, p),
        some_done(g, sts, m), pending_ok(sts, p, m.set().insert(d as usize)), 0 <= d < sts.len() <= usize::MAX,
    ensures covers(s, sts, d),
{
    let (oa, ob): (int, int) = if a + b == s { (0, a.len() as int) } else { (b.len() as int, 0) };
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] s[oa + k] == a[k] by {}
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] s[ob + k] == b[k] by {}
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).id < sts.len() && same_state(*s[k], s[k].id as int, sts[s[k].id as int]) by {
        if oa <= k < oa + a.len() { let l = k - oa; assert(s[oa + l] == a[l]); assert(m.set().contains(a[l].id)); assert(same_state(m.elem(a[l].id), a[l].id as int, sts[a[l].id as int])); }
        else { let l = k - ob; assert(s[ob + l] == b[l]); assert(*b[l] == p[l]); assert(p[l].id < sts.len()); }
    }
    assert forall|t: int| 0 <= t < sts.len() && t != d implies #[trigger] held(s, t) by {
        if m.set().contains(t as usize) {
            let k = choose|k: int| 0 <= k < a.len() && (*#[trigger] a[k]).key() == t as usize;
            assert(s[oa + k].id == t);
        } else {
            assert(pends(p, t as usize));
            let l = choose|l: int| 0 <= l < p.len() && (#[trigger] p[l]).id == t as usize;
            assert(*b[l] == p[l]);
            assert(s[ob + l] == b[l]);
            assert(s[ob + l].id == t);
        }
    }
}
spec fn none_of<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, n: int, is: ItemSet<V, T>) -> bool {
    forall|k: int| 0 <= k < n ==> !PartialEqSpec::eq_spec(&(#[trigger] s[k]).item_set, &is)
}
spec fn found<'a, V: VxVar, T: VxAtom>(r: Option<&'a State<V, T>>, s: Seq<&'a State<V, T>>, is: ItemSet<V, T>) -> bool {
    match r {
        Some(y) => exists|k: int| 0 <= k < s.len() && #[trigger] s[k] == y && PartialEqSpec::eq_spec(&y.item_set, &is),
        None => none_of(s, s.len() as int, is),
    }
}
proof fn closure_has<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, i: VItem<V, T>)
    requires k.contains(i),
    ensures closure(g, k).contains(i),
{
    assert(clo(g, k, 0).contains(i));
}
spec fn solid<V: VxVar, T: VxAtom>(is: ItemSet<V, T>) -> bool { full(is.items) && exists|i: VItem<V, T>| #[trigger] has_item(is.items, i) }
proof fn found_some<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, sts: Seq<VItems<V, T>>, d: int, is: ItemSet<V, T>, y: &'a State<V, T>)
    requires covers(s, sts, d), solid(is), found(Some(y), s, is),
    ensures y.id < sts.len(), sts[y.id as int] == items_of(is.items),
{
    let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == y && PartialEqSpec::eq_spec(&y.item_set, &is);
    same_items(is, s[k].item_set);
}
proof fn found_none<'a, V: VxVar, T: VxAtom>(s: Seq<&'a State<V, T>>, sts: Seq<VItems<V, T>>, d: int, is: ItemSet<V, T>, c: ItemSet<V, T>)
    requires covers(s, sts, d), solid(is), none_of(s, s.len() as int, is), 0 <= d < sts.len(), items_of(c.items) == sts[d], tidy(c.items),
        !PartialEqSpec::eq_spec(&c, &is),
    ensures forall|t: int| 0 <= t < sts.len() ==> #[trigger] sts[t] != items_of(is.items),
{
    same_items(is, c);
    assert forall|t: int| 0 <= t < sts.len() implies #[trigger] sts[t] != items_of(is.items) by {
        if t != d {
            assert(held(s, t));
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).id == t;
            assert(!PartialEqSpec::eq_spec(&s[k].item_set, &is));
            same_items(is, s[k].item_set);
        }
    }
}
//@ file pango-parser/src/cfsm/state.rs
//@ impl<V: VxVar, T: VxAtom> State<V, T>
//@ fn State::new
ensures r.id == id, r.item_set == item_set, r.transitions.map() == Map::<Symbol<V, T>, usize>::empty(),
//@ fn State::has_item_set
ensures r == PartialEqSpec::eq_spec(&self.item_set, item_set),
//@ fn PartialEq for State::eq as=state_eq
ensures r == (self.id == other.id),
//@ fn Ord for State::cmp as=state_cmp
ensures r == (if self.id < other.id { core::cmp::Ordering::Less } else if self.id == other.id { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),
//@ fn PartialOrd for State::partial_cmp as=state_partial_cmp
ensures r == Some(if self.id < other.id { core::cmp::Ordering::Less } else if self.id == other.id { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),
//@ end
//@ impl<V: VxVar, T: VxAtom> VxAsRef<Symbol<V, T>> for WSymbol<V, T>
closed spec fn vx_target(&self) -> Symbol<V, T> { self.0.at() }
//@ fn AsRef for WSymbol::as_ref as=vx_as_ref
//@ end
//@ impl<V: VxVar, T: VxAtom> VxHash for WSymbol<V, T>
closed spec fn vx_hashed(k: Symbol<V, T>) -> Seq<int> { <Symbol<V, T> as VxHash>::vx_hashed(k) }
//@ fn Hash for WSymbol::hash
//@ sig fn hash(&self, state: &mut VxHasher)
//@ end
//@ impl<V: VxVar, T: VxAtom> WSymbol<V, T>
//@ fn From<&Symbol<V,T>> for WSymbol::from
ensures r.0.at() == *value,
//@ fn PartialEq for WSymbol::eq as=wsymbol_eq
ensures r == (self.0.at() == other.0.at()),
//@ end
//@ prelude
impl<'a, V: VxVar, T: VxAtom> VxInto<WSymbol<V, T>> for &'a Symbol<V, T> {
    closed spec fn vx_becomes(&self, r: WSymbol<V, T>) -> bool { r.0.at() == **self }
    fn vx_into(self) -> (r: WSymbol<V, T>) { WSymbol::from(self) }
}
impl StateIdGenerator {
    /// The derived one.
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r.current == 0 { unimplemented!() }
}
//@ impl StateIdGenerator
//@ fn StateIdGenerator::next
requires old(self).current < usize::MAX,
ensures r == old(self).current, final(self).current == r + 1,
//@ end
//@ file pango-parser/src/cfsm/mod.rs
//@ impl<V: VxVar, T: VxAtom> CfsmBuilder<V, T>
//@ fn CfsmBuilder::new
ensures r.cfsm.grammar == grammar, r.cfsm.states.set() == Set::<usize>::empty(), r.start_state.is_none(),
//@ fn CfsmBuilder::get_grammar
ensures *r == self.cfsm.grammar,
//@ fn CfsmBuilder::get_states_mut
ensures *r == old(self).cfsm.states, *final(r) == final(self).cfsm.states, final(self).start_state == old(self).start_state,
    final(self).cfsm.grammar == old(self).cfsm.grammar, final(self).cfsm.start_state == old(self).cfsm.start_state,
//@ fn CfsmBuilder::get_start_state_id_mut
ensures *r == old(self).cfsm.start_state, *final(r) == final(self).cfsm.start_state, final(self).start_state == old(self).start_state,
    final(self).cfsm.grammar == old(self).cfsm.grammar, final(self).cfsm.states == old(self).cfsm.states,
//@ fn CfsmBuilder::set_start_state_id
ensures final(self).start_state == Some(state_id), final(self).cfsm.start_state == state_id,
    final(self).cfsm.grammar == old(self).cfsm.grammar, final(self).cfsm.states == old(self).cfsm.states,
//@ fn CfsmBuilder::add_state
ensures final(self).start_state == old(self).start_state, final(self).cfsm.grammar == old(self).cfsm.grammar, final(self).cfsm.start_state == old(self).cfsm.start_state,
    final(self).cfsm.states.set() == old(self).cfsm.states.set().insert(state.id),
    forall|k: usize| #[trigger] final(self).cfsm.states.elem(k) == (if old(self).cfsm.states.set().contains(k) || k != state.id { old(self).cfsm.states.elem(k) } else { state }),
//@ fn CfsmBuilder::build
requires self.start_state.is_some(), self.cfsm.states.set().contains(self.start_state.unwrap()),
    forall|s: usize, x: Symbol<V, T>| self.cfsm.states.set().contains(s) && #[trigger] self.cfsm.states.elem(s).transitions.map().dom().contains(x)
        ==> self.cfsm.states.set().contains(self.cfsm.states.elem(s).transitions.map()[x]),
ensures r == self.cfsm,
//@ loop 0
invariant ids_ok(vx_r1, vx_s0, vx_it0.pos(), self.cfsm.states), states_listed(vx_s0, self.cfsm.states),
//@ loop 1
invariant forall|t: usize| #[trigger] destination_ids.set().contains(t) ==> self.cfsm.states.set().contains(t),
//@ at loop 1 start
assert(self.cfsm.states.set().contains(*vx_x1)) by {
    let ghost m = self.cfsm.states.elem(*id).transitions.map();
    let x = choose|x: Symbol<V, T>| #[trigger] m.dom().contains(x) && m[x] == *vx_x1;
    assert(self.cfsm.states.elem(*id).transitions.map().dom().contains(x));
}
//@ at loop 0 after
assert forall|t: usize| #[trigger] self.cfsm.states.set().contains(t) implies vx_r1.0.set().contains(t) by {
    let k = choose|k: int| 0 <= k < vx_s0.len() && (*#[trigger] vx_s0[k]).key() == t;
    assert(vx_r1.0.set().contains(vx_s0[k].id));
}
//@ end
//@ impl<V: VxVar, T: VxAtom> Cfsm<V, T>
//@ fn Cfsm::builder
ensures r.cfsm.grammar == grammar, r.cfsm.states.set() == Set::<usize>::empty(), r.start_state.is_none(),
//@ fn Cfsm::get_grammar
ensures *r == self.grammar,
//@ fn Cfsm::iter
ensures r.pos() == 0, vx_lists_ref(r.seq(), self.states.set()),
    forall|i: int| 0 <= i < r.seq().len() ==> *#[trigger] r.seq()[i] == self.states.elem(r.seq()[i].id),
//@ end
//@ impl<V: VxVar, T: VxAtom> Cfsm<V, T>
//@ fn Cfsm::from_grammar
requires whole(grammar),
ensures exists|sts: Seq<VItems<V, T>>| automaton(grammar, sts, *r),
//@ at start
let ghost g = grammar;
let ghost mut sts: Seq<VItems<V, T>> = seq![closure(g, kernel(g.start_variable, g.rules.map()[g.start_variable].set()))];
let ghost mut d: int = 0;
//@ at loop 0 before
proof {
    assert(builder.cfsm.states.set() == Set::<usize>::empty());
    assert(pending_states.seq()[0].id == 0);
    assert forall|t: usize| t < sts.len() implies #[trigger] pends(pending_states.seq(), t) by { assert(pending_states.seq()[0].id == t); }
}
//@ loop 0
invariant sets_ok(g, sts), some_done(g, sts, builder.cfsm.states), pending_ok(sts, pending_states.seq(), builder.cfsm.states.set()), state_id_generator.current == sts.len(), sts.len() < usize::MAX,
    builder.start_state == Some(0usize), builder.cfsm.start_state == 0, builder.cfsm.grammar == g,
ensures pending_states.seq().len() == 0,
decreases most_states(g) - builder.cfsm.states.set().len(),
//@ at loop 0 top
let ghost pp = pending_states.seq();
//@ at loop 0 start
proof { states_most(g, sts); }
proof {
    d = state.id as int;
    pending_took(sts, pp, pending_states.seq(), state, builder.cfsm.states.set());
}
let ghost st = state;
let ghost nd = builder.cfsm.states.set().len();
//@ loop 1
invariant sets_ok(g, sts), some_done(g, sts, builder.cfsm.states), pending_ok(sts, pending_states.seq(), builder.cfsm.states.set().insert(d as usize)), !builder.cfsm.states.set().contains(d as usize), builder.cfsm.states.set().len() == nd, state_id_generator.current == sts.len(), sts.len() < usize::MAX,
    builder.start_state == Some(0usize), builder.cfsm.start_state == 0, builder.cfsm.grammar == g, 0 <= d < sts.len(),
    part_ok(g, sts, d, transitions.map(), vx_s1, vx_it1.pos()), groups(vx_s1, sts[d]), *current_item_set == st.item_set, same_state(st, d, sts[d]), current_id == d,
//@ at loop 1 start
let ghost x = *vx_x1.0;
let ghost grp = vx_x1.1;
//@ loop 2
invariant adv_map(vx_col2, vx_s2, vx_it2.pos()), vx_lists_pairs(vx_s2, item_set.map()),
//@ loop 3
invariant adv_part(vx_col3.set(), vx_s3, vx_it3.pos()), vx_lists(vx_s3, item_bodies.set()),
//@ at loop 3 start
proof {
    let i = VItem { head: head, body: vx_x3.body.at()@, dot: vx_x3.cursor as int };
    assert(item_bodies.set().contains(VxKey::key(&vx_x3)));
    assert(grp.map().dom().contains(vx_s2[vx_it2.pos() - 1].0.key()));
    assert(has_ref(grp, i));
    assert(sts[d].contains(i));
    assert(proper(g, i));
}
//@ at loop 3 after
proof { adv_all(vx_col3.set(), vx_s3, item_bodies.set()); }
//@ at loop 2 after
proof { adv_items(g, sts[d], x, grp, vx_s2, vx_col2); }
//@ at call get_states_mut 0 before
let ghost (dn, ps) = (builder.cfsm.states, pending_states.seq());
let ghost k1 = items_of(item_set.items);
let ghost m0 = transitions.map();
let ghost mut sq: Seq<&State<V, T>> = arbitrary();
proof {
    let j = choose|j: VItem<V, T>| #[trigger] sts[d].contains(j) && reads(j) == Some(x);
    let i = read(j);
    assert(step(sts[d], x).contains(i));
    closure_has(g, step(sts[d], x), i);
    assert(has_item(item_set.items, i));
    assert(solid(item_set));
}
//@ at loop 4 before
proof {
    sq = vx_s4;
    assert(split(vx_s4, dn, ps));
    let (a, b) = choose|a: Seq<&State<V, T>>, b: Seq<&State<V, T>>| #![trigger a + b] (is_split(vx_s4, a, b, dn, ps) || is_split(vx_s4, b, a, dn, ps)) && a + b == vx_s4;
    if is_split(vx_s4, a, b, dn, ps) { covers_all(vx_s4, a, b, g, sts, dn, ps, d); } else { covers_all(vx_s4, b, a, g, sts, dn, ps, d); }
}
//@ loop 4
invariant_except_break vx_r3 is None, none_of(vx_s4, vx_it4.pos(), item_set),
ensures found(vx_r3, vx_s4, item_set),
//@ at loop 4 after
proof {
    match vx_r3 { Some(y) => { found_some(sq, sts, d, item_set, y); } None => { same_items(item_set, *current_item_set); } }
}
//@ at call next 1 before
proof {
    states_fit(dn, pending_states);
    found_none(sq, sts, d, item_set, *current_item_set);
}
//@ at call push_back 0 after
proof {
    sets_push(g, sts, k1, d, x);
    done_push(g, sts, k1, builder.cfsm.states);
    pending_push(sts, ps, k1, pending_states.seq().last(), builder.cfsm.states.set().insert(d as usize));
    sts = sts.push(k1);
}
//@ at call insert 0 before
proof {
    assert(new_state_id < sts.len() && sts[new_state_id as int] == closure(g, step(sts[d], x)));
}
//@ at loop 1 after
proof { part_all(g, sts, d, transitions.map(), vx_s1); }
//@ at call add_state 0 before
let ghost (m1, st1) = (builder.cfsm.states, state);
//@ at call add_state 0 after
proof {
    done_add(g, sts, m1, builder.cfsm.states, st1);
    states_most(g, sts);
}
//@ at loop 0 after
proof { done_all(g, sts, builder.cfsm.states, pending_states.seq()); }
//@ at end
assert(automaton(g, sts, *vx_tail));
//@ end
