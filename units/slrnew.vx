// Making a parser: it panics if and only if the grammar has a conflict.
//@ include-proved table.vx
//@ file pango-parser/src/parser/slr.rs
//@ item Slr noderive verifier::reject_recursive_types(V) verifier::reject_recursive_types(T)
//@ prelude
impl<V: VxVar, T: VxAtom> Slr<V, T> {
    spec fn wf(&self) -> bool {
        let c = *self.table._cfsm;
        whole(c.grammar) && made(c) && actions_ok(c, self.table.action) && gotos_ok(c, self.table.goto)
    }
    spec fn auto(&self) -> Cfsm<V, T> { *self.table._cfsm }
}
/// Actions, with the states as sets of items.
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
enum VAct<V, T> { Shift(VItems<V, T>), Reduce(V, usize), Accept }
spec fn start_set<V: VxVar, T: VxAtom>(g: Grammar<V, T>) -> VItems<V, T> { closure(g, kernel(g.start_variable, g.rules.map()[g.start_variable].set())) }
/// `k` is reached by reading `n` symbols.
spec fn reach<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, k: VItems<V, T>) -> bool
    decreases n,
{
    if n == 0 { k == start_set(g) } else { exists|p: VItems<V, T>, x: Symbol<V, T>| reach(g, (n - 1) as nat, p) && #[trigger] reads_any(p, x) && k == closure(g, step(p, x)) }
}
spec fn g_item_wants<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, i: VItem<V, T>, l: Option<T::TK>, a: VAct<V, T>) -> bool {
    match reads(i) {
        Some(Symbol::Terminal(t)) => l == Some(t.tkey()) && a == VAct::Shift(closure(g, step(k, Symbol::Terminal(t)))),
        Some(_) => false,
        None => match a { VAct::Reduce(v, n) => v == i.head && n == strip(i.body).len() && looks(g, i.head, l), _ => false },
    }
}
spec fn g_wants<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, l: Option<T::TK>, a: VAct<V, T>) -> bool {
    let x = Symbol::<V, T>::Variable(g.start_variable);
    ||| exists|i: VItem<V, T>| #[trigger] k.contains(i) && g_item_wants(g, k, i, l, a)
    ||| reads_any(start_set(g), x) && k == closure(g, step(start_set(g), x)) && l.is_none() && a == VAct::<V, T>::Accept
}
/// Some set of items has two actions for the same lookahead.
spec fn g_conflict<V: VxVar, T: VxAtom>(g: Grammar<V, T>) -> bool {
    exists|n: nat, k: VItems<V, T>, l: Option<T::TK>, a: VAct<V, T>, b: VAct<V, T>| #[trigger] reach(g, n, k) && #[trigger] g_wants(g, k, l, a) && #[trigger] g_wants(g, k, l, b) && a != b
}
/// The destination of a transition on a symbol that is read.
proof fn edge_dest<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, x: Symbol<V, T>)
    requires made(c), 0 <= s < sets(c).len(), reads_any(sets(c)[s], x),
    ensures 0 <= tr(c, s, x) < sets(c).len(), sets(c)[tr(c, s, x) as int] == closure(c.grammar, step(sets(c)[s], x)),
{
    assert(automaton(c.grammar, sets(c), c));
    assert(c.states.set().contains(s as usize));
    assert(trans_ok(c.grammar, sets(c), s, c.states.elem(s as usize).transitions.map()));
    assert(c.states.elem(s as usize).transitions.map().dom().contains(x));
}
spec fn reach_any<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>) -> bool { exists|n: nat| #[trigger] reach(g, n, k) }
proof fn state_reached<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int)
    requires made(c), 0 <= s < sets(c).len(),
    ensures reach_any(c.grammar, sets(c)[s]),
    decreases s,
{
    let sts = sets(c);
    assert(automaton(c.grammar, sts, c));
    if s == 0 {
        assert(reach(c.grammar, 0, sts[0]));
    } else {
        assert(reached(c.grammar, sts, s));
        let (p, x) = choose|p: int, x: Symbol<V, T>| 0 <= p < s && #[trigger] reads_any(sts[p], x) && sts[s] == closure(c.grammar, step(sts[p], x));
        state_reached(c, p);
        let n = choose|n: nat| #[trigger] reach(c.grammar, n, sts[p]);
        assert(reach(c.grammar, n + 1, sts[s]));
    }
}
proof fn reached_state<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, n: nat, k: VItems<V, T>) -> (s: int)
    requires made(c), reach(c.grammar, n, k),
    ensures 0 <= s < sets(c).len(), sets(c)[s] == k,
    decreases n,
{
    assert(automaton(c.grammar, sets(c), c));
    if n == 0 { 0 } else {
        let (p, x) = choose|p: VItems<V, T>, x: Symbol<V, T>| reach(c.grammar, (n - 1) as nat, p) && #[trigger] reads_any(p, x) && k == closure(c.grammar, step(p, x));
        let q = reached_state(c, (n - 1) as nat, p);
        edge_dest(c, q, x);
        tr(c, q, x) as int
    }
}
spec fn act_of<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, a: ActionKind<V>) -> VAct<V, T> {
    match a {
        ActionKind::Shift { dest_state } => VAct::Shift(sets(c)[dest_state as int]),
        ActionKind::Reduce { variable, amount } => VAct::Reduce(variable, amount),
        ActionKind::Accept => VAct::Accept,
    }
}
/// The actions of a state are those of its set of items.
proof fn wants_up<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, l: Option<T::TK>, a: ActionKind<V>)
    requires made(c), 0 <= s < sets(c).len(), wants(c, s, l, a),
    ensures g_wants(c.grammar, sets(c)[s], l, act_of::<V, T>(c, a)), a is Shift ==> a->dest_state < sets(c).len(),
{
    let sts = sets(c);
    let x = Symbol::<V, T>::Variable(c.grammar.start_variable);
    assert(automaton(c.grammar, sts, c));
    if exists|i: VItem<V, T>| #[trigger] sts[s].contains(i) && item_wants(c, s, i, l, a) {
        let i = choose|i: VItem<V, T>| #[trigger] sts[s].contains(i) && item_wants(c, s, i, l, a);
        if let Some(y) = reads(i) { assert(reads_any(sts[s], y)); edge_dest(c, s, y); }
        assert(g_item_wants(c.grammar, sts[s], i, l, act_of::<V, T>(c, a)));
    } else {
        assert(reads_any(sts[0], x));
        edge_dest(c, 0, x);
    }
}
proof fn wants_down<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, l: Option<T::TK>, a: VAct<V, T>) -> (r: ActionKind<V>)
    requires made(c), 0 <= s < sets(c).len(), g_wants(c.grammar, sets(c)[s], l, a),
    ensures wants(c, s, l, r), act_of::<V, T>(c, r) == a,
{
    let sts = sets(c);
    let g = c.grammar;
    let x = Symbol::<V, T>::Variable(g.start_variable);
    assert(automaton(g, sts, c));
    if exists|i: VItem<V, T>| #[trigger] sts[s].contains(i) && g_item_wants(g, sts[s], i, l, a) {
        let i = choose|i: VItem<V, T>| #[trigger] sts[s].contains(i) && g_item_wants(g, sts[s], i, l, a);
        match reads(i) {
            Some(y) => {
                assert(reads_any(sts[s], y));
                edge_dest(c, s, y);
                let r = ActionKind::<V>::Shift { dest_state: tr(c, s, y) };
                assert(item_wants(c, s, i, l, r));
                r
            }
            None => {
                let r = ActionKind::<V>::Reduce { variable: a->Reduce_0, amount: a->Reduce_1 };
                assert(item_wants(c, s, i, l, r));
                r
            }
        }
    } else {
        edge_dest(c, 0, x);
        let d = tr(c, 0, x) as int;
        assert(sts[d] == sts[s]);
        assert(d == s);
        ActionKind::<V>::Accept
    }
}
proof fn same_conflict<V: VxVar, T: VxAtom>(c: Cfsm<V, T>)
    requires made(c),
    ensures conflict(c) <==> g_conflict(c.grammar),
{
    let sts = sets(c);
    let g = c.grammar;
    assert(automaton(g, sts, c));
    if conflict(c) {
        let (s, l, a, b) = choose|s: int, k: Option<T::TK>, a: ActionKind<V>, b: ActionKind<V>| #[trigger] wants(c, s, k, a) && #[trigger] wants(c, s, k, b) && a != b && s >= 0;
        assert(s < sts.len());
        wants_up(c, s, l, a);
        wants_up(c, s, l, b);
        state_reached(c, s);
        let n = choose|n: nat| #[trigger] reach(g, n, sts[s]);
        assert(act_of::<V, T>(c, a) != act_of::<V, T>(c, b));
    }
    if g_conflict(g) {
        let (n, k, l, a, b) = choose|n: nat, k: VItems<V, T>, l: Option<T::TK>, a: VAct<V, T>, b: VAct<V, T>| #[trigger] reach(g, n, k) && #[trigger] g_wants(g, k, l, a) && #[trigger] g_wants(g, k, l, b) && a != b;
        let s = reached_state(c, n, k);
        let p = wants_down(c, s, l, a);
        let q = wants_down(c, s, l, b);
        assert(wants(c, s, l, p) && wants(c, s, l, q));
    }
}
//@ impl<V: VxVar, T: VxAtom> Slr<V, T>
//@ fn Slr::new
requires whole(grammar), !g_conflict(grammar),
ensures r.wf(), r.auto().grammar == grammar,
//@ at call new_slr 0 before
proof { same_conflict(*cfsm); }
//@ fn Slr::new as=new_or_panic panic=ret
requires whole(grammar),
ensures r.wf(), r.auto().grammar == grammar, !g_conflict(grammar),
//@ at call new_slr 0 before
proof { same_conflict(*cfsm); }
//@ at end
proof {
    if conflict(*vx_tail.table._cfsm) {
        let c = *vx_tail.table._cfsm;
        let (s, l, a, b) = choose|s: int, k: Option<T::TK>, a: ActionKind<V>, b: ActionKind<V>| #[trigger] wants(c, s, k, a) && #[trigger] wants(c, s, k, b) && a != b && s >= 0;
    }
}
//@ end
