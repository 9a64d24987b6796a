// Sums over finite sets.
//@ library
spec fn sum_set<A>(f: spec_fn(A) -> nat, s: Set<A>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { f(s.choose()) + sum_set(f, s.remove(s.choose())) }
}
proof fn sum_less<A>(f: spec_fn(A) -> nat, g: spec_fn(A) -> nat, s: Set<A>, b: A)
    requires forall|a: A| #[trigger] s.contains(a) ==> g(a) <= f(a),
    ensures sum_set(g, s) <= sum_set(f, s), s.contains(b) && g(b) < f(b) ==> sum_set(g, s) < sum_set(f, s),
    decreases s.len(),
{
    if s.len() > 0 {
        let a = s.choose();
        assert(s.contains(a));
        assert(g(a) <= f(a));
        sum_less(f, g, s.remove(a), b);
    }
}
/// The subsets of a finite set.
spec fn subsets<A>(u: Set<A>) -> Set<ISet<A>>
    decreases u.len()
{
    if u.len() == 0 { Set::empty().insert(ISet::empty()) }
    else {
        let p = subsets(u.remove(u.choose()));
        p.union(p.map(|s: ISet<A>| s.insert(u.choose())))
    }
}
proof fn subsets_have<A>(u: Set<A>, k: ISet<A>)
    requires forall|a: A| #[trigger] k.contains(a) ==> u.contains(a),
    ensures subsets(u).contains(k),
    decreases u.len(),
{
    if u.len() == 0 {
        assert forall|a: A| !#[trigger] k.contains(a) by { if k.contains(a) { assert(u.remove(a).len() == u.len() - 1); } }
        assert(k =~= ISet::<A>::empty());
    } else {
        let b = u.choose();
        assert(u.contains(b));
        subsets_have(u.remove(b), k.remove(b));
        let p = subsets(u.remove(b));
        if k.contains(b) {
            assert(k.remove(b).insert(b) =~= k);
            assert(p.map(|s: ISet<A>| s.insert(b)).contains(k));
        } else {
            assert(k.remove(b) =~= k);
        }
    }
}
/// A list of different subsets is not longer than there are subsets.
proof fn subsets_most<A>(u: Set<A>, l: Seq<ISet<A>>)
    requires forall|s: int, t: int| 0 <= s < t < l.len() ==> #[trigger] l[s] != #[trigger] l[t],
        forall|s: int, a: A| 0 <= s < l.len() && #[trigger] l[s].contains(a) ==> u.contains(a),
    ensures l.len() <= subsets(u).len(),
{
    assert forall|k: ISet<A>| #[trigger] l.to_set().contains(k) implies subsets(u).contains(k) by {
        let s = choose|s: int| 0 <= s < l.len() && l[s] == k;
        assert(l[s] == k);
        subsets_have(u, k);
    }
    l.unique_seq_to_set();
    vstd::set_lib::lemma_len_subset(l.to_set(), subsets(u));
}
