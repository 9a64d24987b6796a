// What can follow, and what can come last.
//@ include-proved first.vx
//@ library
/// `entry` of a map
#[verifier::reject_recursive_types(K)]
struct VxEntry<'a, K: VxKey, V> { m: &'a mut VxMap<K, V>, k: K }
impl<K: VxKey, V> VxMap<K, V> {
    fn entry<'a>(&'a mut self, k: K) -> (r: VxEntry<'a, K, V>) ensures *r.m == *old(self), *final(r.m) == *final(self), r.k == k {
        VxEntry { m: self, k }
    }
}
impl<'a, K: VxKey, V: VxDefault> VxEntry<'a, K, V> {
    fn or_default(self) -> (r: &'a mut V)
        ensures old(self.m).map().dom().contains(self.k.key()) ==> *r == old(self.m).map()[self.k.key()],
            !old(self.m).map().dom().contains(self.k.key()) ==> (*r).is_default(),
            final(self.m).map() == old(self.m).map().insert(self.k.key(), *final(r)) { self.m.vx_entry_or(self.k, vx_default()) }
}
impl<T> VxIt<T> {
    fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|x: &T| call_requires(f, (x,)),
        ensures final(self).seq() == old(self).seq(),
            match r {
                Some(x) => old(self).pos() < final(self).pos() <= old(self).seq().len() && x == old(self).seq()[final(self).pos() - 1]
                    && call_ensures(f, (&x,), true)
                    && forall|j: int| #![trigger old(self).seq()[j]] old(self).pos() <= j < final(self).pos() - 1 ==> call_ensures(f, (&old(self).seq()[j],), false),
                None => final(self).pos() == old(self).seq().len()
                    && forall|j: int| #![trigger old(self).seq()[j]] old(self).pos() <= j < old(self).seq().len() ==> call_ensures(f, (&old(self).seq()[j],), false),
            }
    {
        proof { vx_it_bounds(*self); }
        while self.vx_has()
            invariant self.seq() == old(self).seq(), old(self).pos() <= self.pos() <= self.seq().len(),
                forall|x: &T| call_requires(f, (x,)),
                forall|j: int| #![trigger old(self).seq()[j]] old(self).pos() <= j < self.pos() ==> call_ensures(f, (&old(self).seq()[j],), false),
            decreases self.seq().len() - self.pos(),
        {
            let x = self.vx_take();
            if f(&x) { return Some(x); }
        }
        None
    }
}
fn vx_slice_from<T>(v: &Vec<T>, n: usize) -> (r: &[T]) requires n <= v@.len() ensures r@ == v@.skip(n as int) {
    assert(v@.subrange(n as int, v@.len() as int) =~= v@.skip(n as int));
    vstd::slice::slice_subrange(v.as_slice(), n, v.len())
}
/// A copy of a variable is the same variable.
broadcast axiom fn vx_var_clone<V: VxVar>(a: &V, r: V)
    requires #[trigger] call_ensures(V::clone, (a,), r),
    ensures *a == r;
broadcast use vx_var_clone;
//@ file pango-parser/src/grammar.rs
//@ prelude
/// `x` has been found to follow `v`.
spec fn r_has<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, v: V, x: Symbol<V, T>) -> bool { m.dom().contains(v) && m[v].set().contains(x) }
/// What follows `h` has been found to follow `v`.
spec fn l_has<V: VxVar>(m: Map<V, VxSet<V>>, h: V, v: V) -> bool { m.dom().contains(h) && m[h].set().contains(v) }
type Places<V, T> = ISet<(V, VBody<V, T>, int)>;
spec fn src<V: VxVar, T: VxAtom>(g: Grammar<V, T>, seen: Places<V, T>, v: V, x: Symbol<V, T>) -> bool {
    x is Terminal && exists|h: V, b: VBody<V, T>, i: int| #[trigger] holds(g, h, b, i, v) && seen.contains((h, b, i)) && begins(g, b.skip(i + 1), x->Terminal_0)
}
spec fn linked<V: VxVar, T: VxAtom>(g: Grammar<V, T>, seen: Places<V, T>, h: V, v: V) -> bool {
    exists|b: VBody<V, T>, i: int| #[trigger] holds(g, h, b, i, v) && seen.contains((h, b, i)) && nullable(g, b.skip(i + 1))
}
/// What is found when the places in `seen` have been looked at.
spec fn scanned<V: VxVar, T: VxAtom>(g: Grammar<V, T>, seen: Places<V, T>, m: Firsts<'_, V, T>, d: Map<V, VxSet<V>>) -> bool {
    &&& forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m, v, x) <==> src(g, seen, v, x)
    &&& forall|h: V, v: V| #[trigger] l_has(d, h, v) <==> linked(g, seen, h, v)
}
/// All the places of the bodies of `h`.
spec fn upto<V: VxVar, T: VxAtom>(seen: Places<V, T>, h: V, b: VBody<V, T>, n: int) -> Places<V, T> {
    ISet::new(|p: (V, VBody<V, T>, int)| seen.contains(p) || p.0 == h && p.1 == b && 0 <= p.2 < n)
}
spec fn has_places<V: VxVar, T: VxAtom>(seen: Places<V, T>, h: V, b: VBody<V, T>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] seen.contains((h, b, i))
}
spec fn all_places<V: VxVar, T: VxAtom>(g: Grammar<V, T>, seen: Places<V, T>, h: V) -> bool {
    forall|b: VBody<V, T>| #[trigger] rule(g.rules, h, b) ==> has_places(seen, h, b, b.len() as int)
}
spec fn scan_rest<V: VxVar, T: VxAtom>(seen: Places<V, T>, h: V, b: VBody<V, T>, p: int) -> bool {
    0 <= p <= b.len() && has_places(seen, h, b, p) && forall|i: int| p <= i < b.len() ==> !(#[trigger] b[i] is Variable)
}
/// What is at place `k`, the next variable of the body, is looked at.
proof fn scan_step<V: VxVar, T: VxAtom>(
    g: Grammar<V, T>, seen: Places<V, T>, m0: Firsts<'_, V, T>, d0: Map<V, VxSet<V>>, m1: Firsts<'_, V, T>, d1: Map<V, VxSet<V>>,
    h: V, b: VBody<V, T>, p: int, k: int, w: V,
)
    requires
        scanned(g, seen, m0, d0), has_places(seen, h, b, p), 0 <= p <= k, holds(g, h, b, k, w),
        forall|i: int| p <= i < k ==> !(#[trigger] b[i] is Variable),
        forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m1, v, x) <==> r_has(m0, v, x) || v == w && x is Terminal && begins(g, b.skip(k + 1), x->Terminal_0),
        forall|a: V, v: V| #[trigger] l_has(d1, a, v) <==> l_has(d0, a, v) || a == h && v == w && nullable(g, b.skip(k + 1)),
    ensures
        scanned(g, upto(seen, h, b, k + 1), m1, d1),
{
    let n = upto(seen, h, b, k + 1);
    assert(n.contains((h, b, k)));
    assert forall|a: V, c: VBody<V, T>, i: int, v: V| #[trigger] holds(g, a, c, i, v) && n.contains((a, c, i)) implies seen.contains((a, c, i)) || a == h && c == b && i == k && v == w by {}
    assert forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m1, v, x) <==> src(g, n, v, x) by {
        if src(g, seen, v, x) {
            let (a, c, i) = choose|a: V, c: VBody<V, T>, i: int| #[trigger] holds(g, a, c, i, v) && seen.contains((a, c, i)) && begins(g, c.skip(i + 1), x->Terminal_0);
            assert(n.contains((a, c, i)));
        }
    }
    assert forall|a: V, v: V| #[trigger] l_has(d1, a, v) <==> linked(g, n, a, v) by {
        if linked(g, seen, a, v) {
            let (c, i) = choose|c: VBody<V, T>, i: int| #[trigger] holds(g, a, c, i, v) && seen.contains((a, c, i)) && nullable(g, c.skip(i + 1));
            assert(n.contains((a, c, i)));
        }
    }
}
/// The same with more places, where there is no variable.
proof fn scan_more<V: VxVar, T: VxAtom>(g: Grammar<V, T>, seen: Places<V, T>, n: Places<V, T>, m: Firsts<'_, V, T>, d: Map<V, VxSet<V>>)
    requires
        scanned(g, seen, m, d),
        forall|p: (V, VBody<V, T>, int)| #[trigger] seen.contains(p) ==> n.contains(p),
        forall|h: V, b: VBody<V, T>, i: int, v: V| #[trigger] holds(g, h, b, i, v) && n.contains((h, b, i)) ==> seen.contains((h, b, i)),
    ensures scanned(g, n, m, d),
{
    assert forall|v: V, x: Symbol<V, T>| src(g, seen, v, x) == #[trigger] src(g, n, v, x) by {
        if src(g, seen, v, x) {
            let (a, c, i) = choose|a: V, c: VBody<V, T>, i: int| #[trigger] holds(g, a, c, i, v) && seen.contains((a, c, i)) && begins(g, c.skip(i + 1), x->Terminal_0);
            assert(n.contains((a, c, i)));
        }
    }
    assert forall|a: V, v: V| linked(g, seen, a, v) == #[trigger] linked(g, n, a, v) by {
        if linked(g, seen, a, v) {
            let (c, i) = choose|c: VBody<V, T>, i: int| #[trigger] holds(g, a, c, i, v) && seen.contains((a, c, i)) && nullable(g, c.skip(i + 1));
            assert(n.contains((a, c, i)));
        }
    }
}
spec fn everywhere<V: VxVar, T: VxAtom>() -> Places<V, T> { ISet::new(|p: (V, VBody<V, T>, int)| true) }
spec fn pair_in<V: VxVar>(q: Seq<(V, V)>, a: V, b: V) -> bool { exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == (a, b) }
proof fn pair_push<V: VxVar>(q: Seq<(V, V)>, p: (V, V))
    ensures forall|a: V, b: V| #[trigger] pair_in(q.push(p), a, b) == (pair_in(q, a, b) || p == (a, b)),
{
    assert forall|a: V, b: V| #[trigger] pair_in(q.push(p), a, b) == (pair_in(q, a, b) || p == (a, b)) by {
        if pair_in(q, a, b) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == (a, b);
            assert(q.push(p)[i] == (a, b));
        }
        if p == (a, b) { assert(q.push(p)[q.len() as int] == (a, b)); }
    }
}
proof fn pair_pop<V: VxVar>(q: Seq<(V, V)>, t: Seq<(V, V)>, x: (V, V))
    requires took(q, t, x),
    ensures forall|a: V, b: V| #![trigger pair_in(q, a, b)] #![trigger pair_in(t, a, b)] pair_in(q, a, b) == (pair_in(t, a, b) || x == (a, b)),
{
    let d = took_by(q, t, x);
    assert(q[took_at(q, t, x)] == x);
    assert forall|a: V, b: V| #![trigger pair_in(q, a, b)] #![trigger pair_in(t, a, b)] pair_in(q, a, b) == (pair_in(t, a, b) || x == (a, b)) by {
        if pair_in(q, a, b) {
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == (a, b);
            if 0 <= i - d < t.len() { assert(t[i - d] == (a, b)); }
        }
        if pair_in(t, a, b) {
            let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == (a, b);
            assert(q[i + d] == (a, b));
        }
    }
}
spec fn passed<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, h: V, v: V) -> bool { forall|x: Symbol<V, T>| #[trigger] r_has(m, h, x) ==> r_has(m, v, x) }
/// What is left in the queue is all there is left to be passed on.
spec fn pass<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: Firsts<'_, V, T>, d: Map<V, VxSet<V>>, q: Seq<(V, V)>) -> bool {
    &&& forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m, v, x) ==> (x is Terminal) && follows(g, v, x->Terminal_0)
    &&& forall|v: V, x: Symbol<V, T>| #[trigger] src(g, everywhere(), v, x) ==> r_has(m, v, x)
    &&& forall|h: V, v: V| #[trigger] l_has(d, h, v) ==> pair_in(q, v, h) || passed(m, h, v)
    &&& forall|h: V, v: V| #[trigger] pair_in(q, v, h) ==> l_has(d, h, v)
    &&& forall|h: V, v: V| #[trigger] l_has(d, h, v) <==> linked(g, everywhere(), h, v)
}
proof fn pass_start<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: Firsts<'_, V, T>, d: Map<V, VxSet<V>>, q: Seq<(V, V)>)
    requires scanned(g, everywhere(), m, d), forall|h: V, v: V| #[trigger] l_has(d, h, v) <==> pair_in(q, v, h),
        forall|h: V, v: V| #[trigger] pair_in(q, v, h) ==> l_has(d, h, v),
    ensures pass(g, m, d, q),
{
    assert forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m, v, x) implies (x is Terminal) && follows(g, v, x->Terminal_0) by {
        assert(src(g, everywhere(), v, x));
        assert(fol_n(g, 0, v, x->Terminal_0));
    }
}
proof fn pass_step<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m0: Firsts<'_, V, T>, m1: Firsts<'_, V, T>, d: Map<V, VxSet<V>>, q0: Seq<(V, V)>, w: Seq<(V, V)>, q1: Seq<(V, V)>, l: V, r: V)
    requires
        pass(g, m0, d, q0), took(q0, w, (l, r)),
        forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m1, v, x) <==> r_has(m0, v, x) || v == l && r_has(m0, r, x),
        forall|a: V, b: V| #[trigger] pair_in(w, a, b) ==> pair_in(q1, a, b),
        forall|a: V, b: V| #[trigger] pair_in(q1, a, b) ==> pair_in(w, a, b) || l_has(d, b, a),
        (forall|a: V| #[trigger] l_has(d, l, a) ==> pair_in(q1, a, l)) || forall|x: Symbol<V, T>| #[trigger] r_has(m1, l, x) ==> r_has(m0, l, x),
    ensures pass(g, m1, d, q1),
{
    pair_pop(q0, w, (l, r));
    assert(pair_in(q0, l, r));
    assert(l_has(d, r, l));
    assert forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m1, v, x) implies (x is Terminal) && follows(g, v, x->Terminal_0) by {
        if !r_has(m0, v, x) {
            let t = x->Terminal_0;
            assert(r_has(m0, r, x));
            assert(follows(g, r, t));
            let n = choose|n: nat| #[trigger] fol_n(g, n, r, t);
            assert(linked(g, everywhere(), r, l));
            assert(fol_n(g, n + 1, l, t)) by {
                let (b, i) = choose|b: VBody<V, T>, i: int| #[trigger] holds(g, r, b, i, l) && everywhere::<V, T>().contains((r, b, i)) && nullable(g, b.skip(i + 1));
                assert(holds(g, r, b, i, l));
            }
        }
    }
    assert forall|h: V, v: V| #[trigger] l_has(d, h, v) implies pair_in(q1, v, h) || passed(m1, h, v) by {
        if h == l && pair_in(q1, v, h) {
        } else if pair_in(w, v, h) {
        } else if (v, h) == (l, r) {
        } else {
            assert(passed(m0, h, v));
        }
    }
}
proof fn pass_end<V: VxVar, T: VxAtom>(g: Grammar<V, T>, m: Firsts<'_, V, T>, d: Map<V, VxSet<V>>, q: Seq<(V, V)>, n: nat, v: V, t: T)
    requires pass(g, m, d, q), q.len() == 0, fol_n(g, n, v, t),
    ensures r_has(m, v, Symbol::Terminal(t)),
    decreases n,
{
    let x = Symbol::<V, T>::Terminal(t);
    let (h, b, i) = choose|h: V, b: VBody<V, T>, i: int| #[trigger] holds(g, h, b, i, v)
        && (begins(g, b.skip(i + 1), t) || n > 0 && nullable(g, b.skip(i + 1)) && fol_n(g, (n - 1) as nat, h, t));
    assert(everywhere::<V, T>().contains((h, b, i)));
    if begins(g, b.skip(i + 1), t) {
        assert(src(g, everywhere(), v, x));
    } else {
        pass_end(g, m, d, q, (n - 1) as nat, h, t);
        assert(linked(g, everywhere(), h, v));
        assert(l_has(d, h, v));
        assert(!pair_in(q, v, h));
    }
}
/// How much has been found.
spec fn size<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, v: V) -> nat { if m.dom().contains(v) { m[v].set().len() } else { 0 } }
spec fn total<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, vs: Seq<V>, n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { total(m, vs, (n - 1) as nat) + size(m, vs[n - 1]) } }
spec fn all_of<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, vs: Seq<V>, n: nat) -> Set<Symbol<V, T>>
    decreases n
{
    if n == 0 { Set::empty() }
    else if m.dom().contains(vs[n - 1]) { all_of(m, vs, (n - 1) as nat).union(m[vs[n - 1]].set()) }
    else { all_of(m, vs, (n - 1) as nat) }
}
spec fn within<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, all: Set<Symbol<V, T>>) -> bool {
    forall|v: V, x: Symbol<V, T>| #[trigger] r_has(m, v, x) ==> all.contains(x)
}
proof fn all_has<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, vs: Seq<V>, n: nat, i: int, x: Symbol<V, T>)
    requires 0 <= i < n <= vs.len(), r_has(m, vs[i], x),
    ensures all_of(m, vs, n).contains(x),
    decreases n,
{
    if i < n - 1 { all_has(m, vs, (n - 1) as nat, i, x); }
}
proof fn total_most<V: VxVar, T: VxAtom>(m: Firsts<'_, V, T>, vs: Seq<V>, n: nat, all: Set<Symbol<V, T>>)
    requires within(m, all),
    ensures total(m, vs, n) <= n * all.len(),
    decreases n,
{
    if n > 0 {
        total_most(m, vs, (n - 1) as nat, all);
        let v = vs[n - 1];
        if m.dom().contains(v) {
            assert forall|x: Symbol<V, T>| #[trigger] m[v].set().contains(x) implies all.contains(x) by { assert(r_has(m, v, x)); }
            vstd::set_lib::lemma_len_subset(m[v].set(), all);
        }
        assert((n - 1) * all.len() + all.len() == n * all.len()) by (nonlinear_arith);
    }
}
proof fn total_grows<V: VxVar, T: VxAtom>(m0: Firsts<'_, V, T>, m1: Firsts<'_, V, T>, vs: Seq<V>, n: nat, i: int)
    requires n <= vs.len(), forall|v: V| size(m0, v) <= #[trigger] size(m1, v),
    ensures total(m0, vs, n) <= total(m1, vs, n), 0 <= i < n && size(m0, vs[i]) < size(m1, vs[i]) ==> total(m0, vs, n) < total(m1, vs, n),
    decreases n,
{
    if n > 0 {
        total_grows(m0, m1, vs, (n - 1) as nat, i);
        assert(size(m0, vs[n - 1]) <= size(m1, vs[n - 1]));
    }
}
spec fn in_list<V: VxVar>(s: Seq<V>, k: int, a: V) -> bool { exists|j: int| 0 <= j < k && #[trigger] s[j] == a }
spec fn last_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, r: Set<V>, q: Seq<V>) -> bool {
    &&& r.contains(g.start_variable)
    &&& forall|v: V| #[trigger] r.contains(v) ==> ends(g, v) && g.rules.map().dom().contains(v)
    &&& forall|i: int| 0 <= i < q.len() ==> r.contains(#[trigger] q[i])
}
/// What is new in the set is new in the queue, whose first element is gone.
spec fn grew<V: VxVar>(r0: Set<V>, r: Set<V>, q0: Seq<V>, q: Seq<V>) -> bool { r.len() - r0.len() == q.len() - q0.len() + 1 && r0.len() <= r.len() }
/// What comes last in the first `n` symbols of a body has been found.
spec fn last_body<V: VxVar, T: VxAtom>(g: Grammar<V, T>, r: Set<V>, h: V, b: VBody<V, T>, n: int) -> bool {
    forall|i: int, v: V| i < n && #[trigger] holds(g, h, b, i, v) && nullable(g, b.skip(i + 1)) ==> r.contains(v)
}
spec fn last_closed<V: VxVar, T: VxAtom>(g: Grammar<V, T>, r: Set<V>, h: V) -> bool {
    forall|b: VBody<V, T>| #[trigger] rule(g.rules, h, b) ==> last_body(g, r, h, b, b.len() as int)
}
proof fn last_end<V: VxVar, T: VxAtom>(g: Grammar<V, T>, r: Set<V>, n: nat, v: V)
    requires r.contains(g.start_variable), forall|h: V| #[trigger] r.contains(h) ==> last_closed(g, r, h), end_n(g, n, v),
    ensures r.contains(v),
    decreases n,
{
    if v != g.start_variable {
        let (h, b, i) = choose|h: V, b: VBody<V, T>, i: int| #[trigger] holds(g, h, b, i, v) && nullable(g, b.skip(i + 1)) && end_n(g, (n - 1) as nat, h);
        last_end(g, r, (n - 1) as nat, h);
        assert(last_body(g, r, h, b, b.len() as int));
    }
}
//@ fn Grammar::follow_set/extend_set
//@ sig fn extend_set<'a, V: VxVar, T: VxAtom>(set: &mut VxSet<&'a Symbol<V, T>>, iter: VxIt<&'a Symbol<V, T>>) -> bool
requires iter.pos() == 0,
ensures forall|x: Symbol<V, T>| #[trigger] final(set).set().contains(x) <==> old(set).set().contains(x) || given(iter.seq(), iter.seq().len() as int, x),
    !r ==> final(set).set() == old(set).set(),
    r ==> final(set).set().len() > old(set).set().len(),
//@ at start
let ghost e0 = set.set();
//@ loop 0
invariant forall|x: Symbol<V, T>| #[trigger] set.set().contains(x) <==> e0.contains(x) || given(vx_s0, vx_it0.pos(), x),
//@ at loop 0 after
proof {
    vstd::set_lib::lemma_len_subset(e0, set.set());
    if set.set().len() == len { same_size(e0, set.set()); }
}
//@ impl<V: VxVar, T: VxAtom> Grammar<V, T>
//@ fn Grammar::follow_set
requires whole(*self),
ensures forall|v: V, x: Symbol<V, T>| r.map().dom().contains(v) && #[trigger] r.map()[v].set().contains(x) ==> (x is Terminal) && follows(*self, v, x->Terminal_0),
    forall|v: V, t: T| #[trigger] follows(*self, v, t) ==> r.map().dom().contains(v) && r.map()[v].set().contains(Symbol::<V, T>::Terminal(t)),
//@ closure 0 |s: &&Symbol<V, T>| -> (r: bool)
ensures r == (**s is Variable),
//@ at start
let ghost mut vs: Seq<V> = Seq::empty();
let ghost mut all: Set<Symbol<V, T>> = Set::empty();
//@ at loop 0 before
let ghost mut seen: Places<V, T> = ISet::empty();
//@ loop 0
invariant scanned(*self, seen, result.map(), follow_dependencies.map()),
    forall|j: int| 0 <= j < vx_it0.pos() ==> all_places(*self, seen, *(#[trigger] vx_s0[j]).0),
//@ loop 1
invariant scanned(*self, seen, result.map(), follow_dependencies.map()),
    forall|j: int| 0 <= j < vx_it0.pos() - 1 ==> all_places(*self, seen, *(#[trigger] vx_s0[j]).0),
    forall|j: int| 0 <= j < vx_it1.pos() ==> has_places(seen, *head, (#[trigger] vx_s1[j])@, vx_s1[j]@.len() as int),
//@ at loop 2 before
let ghost k1 = vx_it1.pos() - 1;
let ghost is = iter.seq();
proof {
    assert(vx_lists_map(vx_s0, self.rules.map()));
    assert(rule(self.rules, head, body@)) by { assert(bodies.set().contains((*vx_s1[k1]).key())); }
}
//@ loop 2
invariant_except_break has_places(seen, head, body@, iter.pos()),
invariant scanned(*self, seen, result.map(), follow_dependencies.map()),
    forall|j: int| 0 <= j < vx_it0.pos() - 1 ==> all_places(*self, seen, *(#[trigger] vx_s0[j]).0),
    forall|j: int| 0 <= j < k1 ==> has_places(seen, head, (#[trigger] vx_s1[j])@, vx_s1[j]@.len() as int),
    iter.seq() == is,
ensures exists|p: int| #[trigger] scan_rest(seen, head, body@, p),
decreases is.len() - iter.pos(),
//@ at loop 2 top
let ghost p2 = iter.pos();
let ghost m2 = result.map();
let ghost d2 = follow_dependencies.map();
proof {
    assert(forall|i: int| #![trigger is[i]] #![trigger body@[i]] 0 <= i < is.len() ==> *is[i] == body@[i]);
    assert((forall|i: int| p2 <= i < body@.len() ==> !(#[trigger] body@[i] is Variable)) ==> scan_rest(seen, head, body@, p2));
}
//@ at loop 2 start
let ghost k2 = iter.pos() - 1;
let ghost rest = body@.skip(k2 + 1);
proof {
    assert(holds(*self, head, body@, k2, *variable));
    assert(body_of(iter) =~= rest);
    if rest.len() == 0 { nullable_empty(*self, rest); }
}
//@ at call first_body 0 before
proof { assert(known(*self, rest)); }
//@ at loop 3 before
let ghost e3 = vx_t1.set();
//@ loop 3
invariant forall|x: Symbol<V, T>| #[trigger] vx_t1.set().contains(x) <==> e3.contains(x) || given(vx_s3, vx_it3.pos(), x) && !(x is Epsilon),
//@ at loop 3 after
proof {
    assert forall|x: Symbol<V, T>| #[trigger] given(vx_s3, vx_it3.pos(), x) == starts_with(*self, rest, x) by {
        assert(first.set().contains(x) == starts_with(*self, rest, x));
        assert(vx_lists(vx_s3, first.set()));
    }
}
//@ at loop 2 end
proof {
    scan_step(*self, seen, m2, d2, result.map(), follow_dependencies.map(), head, body@, p2, k2, variable);
    seen = upto(seen, head, body@, k2 + 1);
}
//@ at loop 2 after
proof {
    let p = choose|p: int| #[trigger] scan_rest(seen, head, body@, p);
    let n = upto(seen, head, body@, body@.len() as int);
    scan_more(*self, seen, n, result.map(), follow_dependencies.map());
    seen = n;
}
//@ at loop 1 after
proof {
    assert(all_places(*self, seen, *head)) by {
        assert forall|b: VBody<V, T>| #[trigger] rule(self.rules, *head, b) implies has_places(seen, *head, b, b.len() as int) by {
            let j = choose|j: int| 0 <= j < vx_s1.len() && (*#[trigger] vx_s1[j]).key() == b;
            assert(has_places(seen, *head, vx_s1[j]@, vx_s1[j]@.len() as int));
        }
    }
}
//@ at loop 0 after
proof {
    assert forall|h: V, b: VBody<V, T>, i: int, v: V| #[trigger] holds(*self, h, b, i, v) implies seen.contains((h, b, i)) by {
        let j = choose|j: int| 0 <= j < vx_s0.len() && (*(#[trigger] vx_s0[j]).0).key() == h;
        assert(all_places(*self, seen, *vx_s0[j].0));
        assert(has_places(seen, h, b, b.len() as int));
    }
    scan_more(*self, seen, everywhere(), result.map(), follow_dependencies.map());
}
proof {
    vs = Seq::new(vx_s0.len(), |j: int| *vx_s0[j].0);
    all = all_of(result.map(), vs, vs.len());
    assert forall|v: V| #[trigger] self.rules.map().dom().contains(v) implies in_list(vs, vs.len() as int, v) by {
        let j = choose|j: int| 0 <= j < vx_s0.len() && (*(#[trigger] vx_s0[j]).0).key() == v;
        assert(vs[j] == v);
    }
    assert forall|v: V, x: Symbol<V, T>| #[trigger] r_has(result.map(), v, x) implies all.contains(x) by {
        assert(src(*self, everywhere(), v, x));
        let j = choose|j: int| 0 <= j < vs.len() && #[trigger] vs[j] == v;
        all_has(result.map(), vs, vs.len(), j, x);
    }
}
//@ loop 4
invariant
    forall|h: V, v: V| #[trigger] pair_in(vx_col1.seq(), v, h) ==> l_has(follow_dependencies.map(), h, v),
    forall|j: int, v: V| 0 <= j < vx_it4.pos() && (#[trigger] vx_s4[j]).1.set().contains(v) ==> #[trigger] pair_in(vx_col1.seq(), v, *vx_s4[j].0),
//@ loop 5
invariant
    forall|h: V, v: V| #[trigger] pair_in(vx_col1.seq(), v, h) ==> l_has(follow_dependencies.map(), h, v),
    forall|j: int, v: V| 0 <= j < vx_it4.pos() - 1 && (#[trigger] vx_s4[j]).1.set().contains(v) ==> #[trigger] pair_in(vx_col1.seq(), v, *vx_s4[j].0),
    forall|j: int| 0 <= j < vx_it5.pos() ==> pair_in(vx_col1.seq(), *#[trigger] vx_s5[j], *rhs),
//@ at loop 5 start
let ghost q5 = vx_col1.seq();
//@ at loop 5 end
proof { pair_push(q5, vx_col1.seq().last()); }
//@ at loop 4 after
proof {
    assert forall|h: V, v: V| #[trigger] l_has(follow_dependencies.map(), h, v) implies pair_in(vx_col1.seq(), v, h) by {
        let j = choose|j: int| 0 <= j < vx_s4.len() && (*(#[trigger] vx_s4[j]).0).key() == h;
        assert(vx_s4[j].1.set().contains(v));
    }
    pass_start(*self, result.map(), follow_dependencies.map(), vx_col1.seq());
}
//@ loop 6
invariant pass(*self, result.map(), follow_dependencies.map(), follow_dependencies_queue.seq()),
    within(result.map(), all),
ensures follow_dependencies_queue.seq().len() == 0,
decreases vs.len() * all.len() - total(result.map(), vs, vs.len()), follow_dependencies_queue.seq().len(),
//@ at loop 6 top
let ghost q6 = follow_dependencies_queue.seq();
let ghost m6 = result.map();
//@ at loop 6 start
let ghost w6 = follow_dependencies_queue.seq();
proof { pair_pop(q6, w6, (lhs, rhs)); }
//@ loop 7
invariant forall|a: V, b: V| #[trigger] pair_in(follow_dependencies_queue.seq(), a, b) <==> pair_in(w6, a, b) || b == lhs && in_list(vx_s7, vx_it7.pos(), a),
//@ at loop 7 start
let ghost q7 = follow_dependencies_queue.seq();
//@ at loop 7 end
proof { pair_push(q7, follow_dependencies_queue.seq().last()); }
//@ at loop 6 end
proof {
    pass_step(*self, m6, result.map(), follow_dependencies.map(), q6, w6, follow_dependencies_queue.seq(), lhs, rhs);
    assert forall|v: V, x: Symbol<V, T>| #[trigger] r_has(result.map(), v, x) implies all.contains(x) by {
        assert(r_has(m6, v, x) || r_has(m6, rhs, x));
    }
    total_most(m6, vs, vs.len(), all);
    total_most(result.map(), vs, vs.len(), all);
    assert(pair_in(q6, lhs, rhs));
    assert(linked(*self, everywhere(), rhs, lhs));
    let (b, i) = choose|b: VBody<V, T>, i: int| #[trigger] holds(*self, rhs, b, i, lhs) && everywhere::<V, T>().contains((rhs, b, i)) && nullable(*self, b.skip(i + 1));
    assert(rule(self.rules, rhs, b) && b[i] == Symbol::<V, T>::Variable(lhs));
    assert(in_list(vs, vs.len() as int, lhs));
    let j = choose|j: int| 0 <= j < vs.len() && #[trigger] vs[j] == lhs;
    total_grows(m6, result.map(), vs, vs.len(), j);
}
//@ at loop 6 after
proof {
    assert forall|v: V, x: Symbol<V, T>| (x is Terminal) && follows(*self, v, x->Terminal_0) implies #[trigger] r_has(result.map(), v, x) by {
        let n = choose|n: nat| #[trigger] fol_n(*self, n, v, x->Terminal_0);
        pass_end(*self, result.map(), follow_dependencies.map(), follow_dependencies_queue.seq(), n, v, x->Terminal_0);
    }
    assert forall|v: V, x: Symbol<V, T>| result.map().dom().contains(v) && #[trigger] result.map()[v].set().contains(x) implies (x is Terminal) && follows(*self, v, x->Terminal_0) by {
        assert(r_has(result.map(), v, x));
    }
    assert forall|v: V, t: T| #[trigger] follows(*self, v, t) implies r_has(result.map(), v, Symbol::Terminal(t)) by {}
}
//@ fn Grammar::end_variables
requires whole(*self),
ensures forall|v: V| #[trigger] r.set().contains(v) <==> ends(*self, v),
//@ at loop 0 before
proof {
    assert(end_n(*self, 0, self.start_variable));
    assert(pending.seq()[0] == self.start_variable);
}
//@ loop 0
invariant last_ok(*self, result.set(), pending.seq()), forall|h: V| #[trigger] result.set().contains(h) ==> in_list(pending.seq(), pending.seq().len() as int, h) || last_closed(*self, result.set(), h),
ensures pending.seq().len() == 0,
decreases self.rules.map().dom().len() - result.set().len(), pending.seq().len(),
//@ at loop 0 top
let ghost q0 = pending.seq();
let ghost r0 = result.set();
//@ at loop 0 start
proof {
    assert(took(q0, pending.seq(), head));
    let d = took_by(q0, pending.seq(), head);
    assert(q0[took_at(q0, pending.seq(), head)] == head);
    assert forall|i: int| 0 <= i < pending.seq().len() implies result.set().contains(#[trigger] pending.seq()[i]) by { assert(pending.seq()[i] == q0[i + d]); }
    assert forall|h: V| #[trigger] result.set().contains(h) implies h == head || in_list(pending.seq(), pending.seq().len() as int, h) || last_closed(*self, result.set(), h) by {
        if in_list(q0, q0.len() as int, h) {
            let j = choose|j: int| 0 <= j < q0.len() && #[trigger] q0[j] == h;
            if 0 <= j - d < pending.seq().len() { assert(pending.seq()[j - d] == h); }
        }
    }
}
//@ loop 1
invariant last_ok(*self, result.set(), pending.seq()), result.set().contains(head),
    forall|h: V| #[trigger] result.set().contains(h) ==> h == head || in_list(pending.seq(), pending.seq().len() as int, h) || last_closed(*self, result.set(), h),
    grew(r0, result.set(), q0, pending.seq()),
    forall|j: int| 0 <= j < vx_it1.pos() ==> last_body(*self, result.set(), head, (#[trigger] vx_s1[j])@, vx_s1[j]@.len() as int),
//@ loop 2
invariant last_ok(*self, result.set(), pending.seq()), result.set().contains(head),
    forall|h: V| #[trigger] result.set().contains(h) ==> h == head || in_list(pending.seq(), pending.seq().len() as int, h) || last_closed(*self, result.set(), h),
    grew(r0, result.set(), q0, pending.seq()),
    forall|j: int| 0 <= j < vx_it1.pos() - 1 ==> last_body(*self, result.set(), head, (#[trigger] vx_s1[j])@, vx_s1[j]@.len() as int),
    last_body(*self, result.set(), head, body@, vx_it2.pos()),
//@ at loop 2 start
let ghost r2 = result.set();
let ghost p2 = pending.seq();
proof {
    assert(rule(self.rules, head, body@)) by { assert(bodies.set().contains((*vx_s1[vx_it1.pos() - 1]).key())); }
}
//@ at call is_empty 0 before
proof { if rest@.len() == 0 { nullable_empty(*self, rest@); } }
//@ at loop 2 end
proof {
    let k = vx_it2.pos() - 1;
    assert(rest@ == body@.skip(k + 1));
    assert(holds(*self, head, body@, k, *variable));
    assert(last == nullable(*self, rest@));
    if last {
        let n = choose|n: nat| #[trigger] end_n(*self, n, head);
        assert(end_n(*self, n + 1, *variable));
    }
    assert forall|h: V| in_list(p2, p2.len() as int, h) implies #[trigger] in_list(pending.seq(), pending.seq().len() as int, h) by {
        let j = choose|j: int| 0 <= j < p2.len() && #[trigger] p2[j] == h;
        assert(pending.seq()[j] == h);
    }
    if pending.seq().len() > p2.len() { assert(pending.seq()[p2.len() as int] == *variable); }
    assert forall|h: V| last_closed(*self, r2, h) implies #[trigger] last_closed(*self, result.set(), h) by {
        assert forall|b: VBody<V, T>| #[trigger] rule(self.rules, h, b) implies last_body(*self, result.set(), h, b, b.len() as int) by {
            assert(last_body(*self, r2, h, b, b.len() as int));
        }
    }
}
//@ at loop 1 after
proof {
    assert(last_closed(*self, result.set(), head)) by {
        assert forall|b: VBody<V, T>| #[trigger] rule(self.rules, head, b) implies last_body(*self, result.set(), head, b, b.len() as int) by {
            let j = choose|j: int| 0 <= j < vx_s1.len() && (*#[trigger] vx_s1[j]).key() == b;
            assert(last_body(*self, result.set(), head, vx_s1[j]@, vx_s1[j]@.len() as int));
        }
    }
}
//@ at loop 0 end
proof { vstd::set_lib::lemma_len_subset(result.set(), self.rules.map().dom()); }
//@ at loop 0 after
proof {
    assert forall|v: V| ends(*self, v) implies #[trigger] result.set().contains(v) by {
        let n = choose|n: nat| #[trigger] end_n(*self, n, v);
        last_end(*self, result.set(), n, v);
    }
}
//@ end
