// What can come first.
//@ include gram.vx
//@ include sets.vx
//@ include mem.vx
//@ include sums.vx
//@ map .peekable => vx_peekable
//@ rewrite-all Box<dyn BodyIter<'a, V, T>> =>> VxIt<&'a Symbol<V, T>>
//@ rewrite-all Box<dyn BodyIter<V, T>> =>> VxIt<&'a Symbol<V, T>>
//@ library
impl<A: VxAtom> VxKey for Option<A> { type K = Option<A>; spec fn key(&self) -> Option<A> { *self } }
impl<T: VxKey> Clone for VxSet<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> Clone for VxIt<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<T> VxIt<T> {
    fn vx_peekable(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    fn peek(&self) -> (r: Option<&T>)
        ensures self.pos() < self.seq().len() ==> r == Some(&self.seq()[self.pos()]),
            self.pos() >= self.seq().len() ==> r.is_none() { unimplemented!() }
}
//@ file pango-parser/src/grammar.rs
//@ prelude
type PendingQueue<'a, V, T> = VxDeque<(Option<V>, Vec<VxIt<&'a Symbol<V, T>>>)>;
type DependencyMap<'a, V, T> = VxMap<V, VxMap<Option<V>, Vec<VxIt<&'a Symbol<V, T>>>>>;
type It<'a, V, T> = VxIt<&'a Symbol<V, T>>;
/// The part of a body an iterator has yet to yield.
spec fn body_of<V: VxVar, T: VxAtom>(it: It<'_, V, T>) -> VBody<V, T> {
    Seq::new((it.seq().len() - it.pos()) as nat, |i: int| *it.seq()[it.pos() + i])
}
spec fn has_from<V: VxVar, T: VxAtom>(s: Seq<It<'_, V, T>>, k: int, b: VBody<V, T>) -> bool {
    exists|j: int| k <= j < s.len() && body_of(#[trigger] s[j]) == b
}
spec fn in_group<V: VxVar, T: VxAtom>(p: (Option<V>, Vec<It<'_, V, T>>), w: Option<V>, b: VBody<V, T>) -> bool {
    p.0 == w && has_from(p.1@, 0, b)
}
spec fn q_has<V: VxVar, T: VxAtom>(q: Seq<(Option<V>, Vec<It<'_, V, T>>)>, w: Option<V>, b: VBody<V, T>) -> bool {
    exists|i: int| 0 <= i < q.len() && in_group(#[trigger] q[i], w, b)
}
spec fn d_has<V: VxVar, T: VxAtom>(d: Map<V, VxMap<Option<V>, Vec<It<'_, V, T>>>>, v: V, w: Option<V>, b: VBody<V, T>) -> bool {
    d.dom().contains(v) && d[v].map().dom().contains(w) && has_from(d[v].map()[w]@, 0, b)
}
/// What is known of what a variable, or the bodies asked for, can start with.
spec fn fst_of<V: VxVar, T: VxAtom>(first: Map<V, VxSet<&Symbol<V, T>>>, res: Set<Symbol<V, T>>, w: Option<V>) -> Set<Symbol<V, T>> {
    match w {
        None => res,
        Some(v) => if first.dom().contains(v) { first[v].set() } else { Set::empty() },
    }
}
spec fn given<V: VxVar, T: VxAtom>(s: Seq<&Symbol<V, T>>, n: int, x: Symbol<V, T>) -> bool {
    exists|i: int| 0 <= i < n && *#[trigger] s[i] == x
}
proof fn q_add<V: VxVar, T: VxAtom>(a: Seq<(Option<V>, Vec<It<'_, V, T>>)>, b: Seq<(Option<V>, Vec<It<'_, V, T>>)>, w: Option<V>, s: VBody<V, T>)
    ensures q_has(a + b, w, s) == (q_has(a, w, s) || q_has(b, w, s)),
{
    let c = a + b;
    if q_has(a, w, s) {
        let i = choose|i: int| 0 <= i < a.len() && in_group(#[trigger] a[i], w, s);
        assert(c[i] == a[i]);
    }
    if q_has(b, w, s) {
        let i = choose|i: int| 0 <= i < b.len() && in_group(#[trigger] b[i], w, s);
        assert(c[i + a.len()] == b[i]);
    }
    if q_has(c, w, s) {
        let i = choose|i: int| 0 <= i < c.len() && in_group(#[trigger] c[i], w, s);
        if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); }
    }
}
proof fn same_size<A>(x: Set<A>, y: Set<A>)
    requires x.subset_of(y), x.len() == y.len(),
    ensures x == y,
{
    vstd::set_lib::lemma_subset_equality(x, y);
}
type Queue<'a, V, T> = Seq<(Option<V>, Vec<It<'a, V, T>>)>;
type Firsts<'a, V, T> = Map<V, VxSet<&'a Symbol<V, T>>>;
type Deps<'a, V, T> = Map<V, VxMap<Option<V>, Vec<It<'a, V, T>>>>;
/// `xs` is found for `w`: what depends on `w` is to be looked at again if some of it is new.
spec fn ext<V: VxVar, T: VxAtom>(
    w: Option<V>, xs: Seq<&Symbol<V, T>>,
    q0: Queue<'_, V, T>, f0: Firsts<'_, V, T>, r0: Set<Symbol<V, T>>, d0: Deps<'_, V, T>,
    q1: Queue<'_, V, T>, f1: Firsts<'_, V, T>, r1: Set<Symbol<V, T>>, d1: Deps<'_, V, T>,
) -> bool {
    &&& forall|u: Option<V>, x: Symbol<V, T>| #[trigger] fst_of(f1, r1, u).contains(x) <==> (fst_of(f0, r0, u).contains(x) || u == w && given(xs, xs.len() as int, x))
    &&& forall|u: Option<V>, s: VBody<V, T>| #[trigger] q_has(q0, u, s) ==> q_has(q1, u, s)
    &&& forall|u: Option<V>, s: VBody<V, T>| #[trigger] q_has(q1, u, s) ==> q_has(q0, u, s) || w.is_some() && d_has(d0, w.unwrap(), u, s)
    &&& forall|v: V, u: Option<V>, s: VBody<V, T>| #[trigger] d_has(d1, v, u, s) ==> d_has(d0, v, u, s)
    &&& forall|v: V, u: Option<V>, s: VBody<V, T>| #[trigger] d_has(d0, v, u, s) ==> q_has(q1, u, s) || d_has(d1, v, u, s) && fst_of(f1, r1, Some(v)) == fst_of(f0, r0, Some(v))
    &&& q1 == q0 || w.is_some() && anew(f0, r0, f1, r1, w)
}
spec fn anew<V: VxVar, T: VxAtom>(f0: Firsts<'_, V, T>, r0: Set<Symbol<V, T>>, f1: Firsts<'_, V, T>, r1: Set<Symbol<V, T>>, w: Option<V>) -> bool {
    fst_of(f0, r0, w).len() < fst_of(f1, r1, w).len()
}
//@ fn Grammar::first_bodies/extend_for_variable
//@ sig fn extend_for_variable<'a, V: VxVar, T: VxAtom>(variable: Option<V>, symbols: VxIt<&'a Symbol<V, T>>, pending_queue: &mut PendingQueue<'a, V, T>, result: &mut VxSet<&'a Symbol<V, T>>, first: &mut VxMap<V, VxSet<&'a Symbol<V, T>>>, dependencies: &mut DependencyMap<'a, V, T>)
requires symbols.pos() == 0,
ensures
    ext(variable, symbols.seq(), old(pending_queue).seq(), old(first).map(), old(result).set(), old(dependencies).map(),
        final(pending_queue).seq(), final(first).map(), final(result).set(), final(dependencies).map()),
//@ at start
let ghost q0 = pending_queue.seq();
let ghost d0 = dependencies.map();
let ghost f0 = first.map();
let ghost r0 = result.set();
//@ at loop 0 before
let ghost e0 = entry.set();
//@ loop 0
invariant forall|x: Symbol<V, T>| #[trigger] entry.set().contains(x) <==> e0.contains(x) || given(vx_s0, vx_it0.pos(), x),
//@ at loop 0 after
proof {
    if entry.set().len() == first_len { same_size(e0, entry.set()); }
    vstd::set_lib::lemma_len_subset(e0, entry.set());
}
//@ loop 1
invariant forall|x: Symbol<V, T>| #[trigger] result.set().contains(x) <==> r0.contains(x) || given(vx_s1, vx_it1.pos(), x),
//@ loop 2
invariant pending_queue.seq() == q0 + vx_s2.take(vx_it2.pos()),
//@ at loop 2 after
proof {
    assert(vx_s2.take(vx_it2.pos()) =~= vx_s2);
    assert forall|u: Option<V>, s: VBody<V, T>| #[trigger] q_has(pending_queue.seq(), u, s) == (q_has(q0, u, s) || d_has(d0, variable.unwrap(), u, s)) by {
        q_add(q0, vx_s2, u, s);
        assert(vx_lists_pairs(vx_s2, d0[variable.unwrap()].map()));
    }
}
//@ prelude
/// Where the search for what comes first is: suffixes of bodies still to be
/// looked at, what has been found, which suffixes to look at again when more is
/// found for a variable, and the variables whose bodies have been asked for.
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
ghost struct Fs<V: VxVar, T: VxAtom> {
    pend: ISet<(Option<V>, VBody<V, T>)>,
    f: spec_fn(Option<V>) -> Set<Symbol<V, T>>,
    dep: ISet<(V, Option<V>, VBody<V, T>)>,
    vis: Set<V>,
}
type Pend<V, T> = ISet<(Option<V>, VBody<V, T>)>;
spec fn st<V: VxVar, T: VxAtom>(
    extra: Pend<V, T>,
    q: Seq<(Option<V>, Vec<It<'_, V, T>>)>,
    first: Map<V, VxSet<&Symbol<V, T>>>,
    res: Set<Symbol<V, T>>,
    d: Map<V, VxMap<Option<V>, Vec<It<'_, V, T>>>>,
    vis: Set<V>,
) -> Fs<V, T> {
    Fs {
        pend: ISet::new(|p: (Option<V>, VBody<V, T>)| extra.contains(p) || q_has(q, p.0, p.1)),
        f: |w: Option<V>| fst_of(first, res, w),
        dep: ISet::new(|p: (V, Option<V>, VBody<V, T>)| d_has(d, p.0, p.1, p.2)),
        vis,
    }
}
spec fn group<V: VxVar, T: VxAtom>(w: Option<V>, s: Seq<It<'_, V, T>>, k: int) -> Pend<V, T> {
    ISet::new(|p: (Option<V>, VBody<V, T>)| p.0 == w && has_from(s, k, p.1))
}
/// What a body is given as.
trait VxBody<'a, V: VxVar, T: VxAtom>: Sized {
    spec fn syms(&self) -> VBody<V, T>;
    fn vx_into_iter(self) -> (r: It<'a, V, T>) ensures body_of(r) == self.syms();
}
impl<'a, V: VxVar, T: VxAtom> VxBody<'a, V, T> for It<'a, V, T> {
    spec fn syms(&self) -> VBody<V, T> { body_of(*self) }
    fn vx_into_iter(self) -> (r: It<'a, V, T>) { self }
}
impl<'a, V: VxVar, T: VxAtom> VxBody<'a, V, T> for &'a [Symbol<V, T>] {
    spec fn syms(&self) -> VBody<V, T> { (*self)@ }
    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: It<'a, V, T>) { unimplemented!() }
}
spec fn bodies_in<'a, V: VxVar, T: VxAtom, B: VxBody<'a, V, T>>(s: Seq<B>) -> ISet<VBody<V, T>> {
    ISet::new(|b: VBody<V, T>| exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).syms() == b)
}
/// Everything suffix `b` of a body of `w` can start with has been found, as far
/// as it is known what its variables can start with.
spec fn cov<V: VxVar, T: VxAtom>(s: Fs<V, T>, w: Option<V>, b: VBody<V, T>) -> bool
    decreases b.len(),
{
    ||| s.pend.contains((w, b))
    ||| b.len() == 0
    ||| match b[0] {
        Symbol::Terminal(t) => (s.f)(w).contains(b[0]),
        Symbol::Epsilon => past(s, w, b),
        Symbol::Variable(v) => {
            &&& s.vis.contains(v)
            &&& s.dep.contains((v, w, b))
            &&& forall|x: Symbol<V, T>| #[trigger] (s.f)(Some(v)).contains(x) && x != Symbol::<V, T>::Epsilon ==> (s.f)(w).contains(x)
            &&& (s.f)(Some(v)).contains(Symbol::Epsilon) ==> past(s, w, b)
        },
    }
}
/// The same for what comes after the first symbol of `b`.
spec fn past<V: VxVar, T: VxAtom>(s: Fs<V, T>, w: Option<V>, b: VBody<V, T>) -> bool
    decreases b.len(), 0nat,
{
    if b.len() <= 1 { (s.f)(w).contains(Symbol::Epsilon) } else { cov(s, w, b.skip(1)) }
}
spec fn from<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, b: VBody<V, T>) -> bool {
    match w { None => bs.contains(b), Some(v) => rule(g.rules, v, b) }
}
spec fn starts_with<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>, x: Symbol<V, T>) -> bool {
    match x { Symbol::Epsilon => nullable(g, b), Symbol::Terminal(t) => begins(g, b, t), Symbol::Variable(_) => false }
}
spec fn elem_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, x: Symbol<V, T>) -> bool {
    exists|b: VBody<V, T>| #[trigger] from(g, bs, w, b) && starts_with(g, b, x)
}
spec fn cut<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>, i: int, s: VBody<V, T>) -> bool {
    0 <= i <= b.len() && nullable(g, b.take(i)) && s == b.skip(i)
}
/// A suffix of a body of `w`, what comes before it being nullable.
spec fn suffix_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, s: VBody<V, T>) -> bool {
    exists|b: VBody<V, T>, i: int| #[trigger] from(g, bs, w, b) && #[trigger] cut(g, b, i, s)
}
spec fn in_vis<V: VxVar, T: VxAtom>(s: Fs<V, T>, w: Option<V>) -> bool { match w { None => true, Some(v) => s.vis.contains(v) } }
spec fn covered<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>) -> bool {
    forall|w: Option<V>, b: VBody<V, T>| #[trigger] from(g, bs, w, b) && in_vis(s, w) ==> cov(s, w, b)
}
spec fn fsound<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>) -> bool {
    &&& forall|p: (Option<V>, VBody<V, T>)| #[trigger] s.pend.contains(p) ==> suffix_ok(g, bs, p.0, p.1) && in_vis(s, p.0)
    &&& forall|p: (V, Option<V>, VBody<V, T>)| #[trigger] s.dep.contains(p) ==> suffix_ok(g, bs, p.1, p.2) && in_vis(s, p.1)
    &&& forall|w: Option<V>, x: Symbol<V, T>| #[trigger] (s.f)(w).contains(x) ==> elem_ok(g, bs, w, x) && in_vis(s, w)
}
spec fn inv<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>) -> bool { covered(g, bs, s) && fsound(g, bs, s) }
/// What a step of the search does.
spec fn fstep<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>, r: Fs<V, T>) -> bool {
    &&& forall|v: V| #[trigger] s.vis.contains(v) ==> r.vis.contains(v)
    &&& forall|v: V, b: VBody<V, T>| r.vis.contains(v) && !s.vis.contains(v) && #[trigger] rule(g.rules, v, b) ==> r.pend.contains((Some(v), b))
    &&& forall|w: Option<V>, x: Symbol<V, T>| #[trigger] (s.f)(w).contains(x) ==> (r.f)(w).contains(x)
    &&& forall|w: Option<V>, x: Symbol<V, T>| #[trigger] (r.f)(w).contains(x) ==> (s.f)(w).contains(x) || elem_ok(g, bs, w, x) && in_vis(r, w)
    &&& forall|p: (Option<V>, VBody<V, T>)| #[trigger] s.pend.contains(p) ==> cov(r, p.0, p.1)
    &&& forall|p: (Option<V>, VBody<V, T>)| #[trigger] r.pend.contains(p) ==> s.pend.contains(p) || suffix_ok(g, bs, p.0, p.1) && in_vis(r, p.0)
    &&& forall|p: (V, Option<V>, VBody<V, T>)| #[trigger] s.dep.contains(p) ==> r.pend.contains((p.1, p.2)) || r.dep.contains(p) && (r.f)(Some(p.0)) == (s.f)(Some(p.0))
    &&& forall|p: (V, Option<V>, VBody<V, T>)| #[trigger] r.dep.contains(p) ==> s.dep.contains(p) || suffix_ok(g, bs, p.1, p.2) && in_vis(r, p.1)
}
proof fn step_cov<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>, r: Fs<V, T>, w: Option<V>, b: VBody<V, T>)
    requires fstep(g, bs, s, r), cov(s, w, b),
    ensures cov(r, w, b),
    decreases b.len(),
{
    if s.pend.contains((w, b)) {
    } else if b.len() == 0 {
    } else {
        if b.len() > 1 && cov(s, w, b.skip(1)) { step_cov(g, bs, s, r, w, b.skip(1)); }
        assert(past(s, w, b) ==> past(r, w, b));
        match b[0] {
            Symbol::Variable(v) => {
                assert(s.dep.contains((v, w, b)));
            }
            _ => {}
        }
    }
}
proof fn step_inv<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>, r: Fs<V, T>)
    requires fstep(g, bs, s, r), inv(g, bs, s),
    ensures inv(g, bs, r),
{
    assert forall|w: Option<V>, b: VBody<V, T>| #[trigger] from(g, bs, w, b) && in_vis(r, w) implies cov(r, w, b) by {
        if in_vis(s, w) { step_cov(g, bs, s, r, w, b); }
    }
    assert forall|p: (V, Option<V>, VBody<V, T>)| #[trigger] s.dep.contains(p) implies in_vis(r, p.1) by {}
}
proof fn nul_up<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, m: nat, b: VBody<V, T>)
    requires nul_n(g, n, b), n <= m,
    ensures nul_n(g, m, b),
    decreases n, 1nat,
{
    assert forall|i: int| 0 <= i < b.len() implies nul_sym(g, m, #[trigger] b[i]) by {
        assert(nul_sym(g, n, b[i]));
        nul_sym_up(g, n, m, b[i]);
    }
}
proof fn nul_sym_up<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, m: nat, x: Symbol<V, T>)
    requires nul_sym(g, n, x), n <= m,
    ensures nul_sym(g, m, x),
    decreases n, 0nat,
{
    match x {
        Symbol::Variable(v) => {
            let b = choose|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && nul_n(g, (n - 1) as nat, b);
            nul_up(g, (n - 1) as nat, (m - 1) as nat, b);
        }
        _ => {}
    }
}
proof fn nullable_add<V: VxVar, T: VxAtom>(g: Grammar<V, T>, a: VBody<V, T>, b: VBody<V, T>)
    ensures nullable(g, a + b) == (nullable(g, a) && nullable(g, b)),
{
    let c = a + b;
    if nullable(g, a) && nullable(g, b) {
        let n = choose|n: nat| #[trigger] nul_n(g, n, a);
        let m = choose|n: nat| #[trigger] nul_n(g, n, b);
        let k = if n <= m { m } else { n };
        nul_up(g, n, k, a);
        nul_up(g, m, k, b);
        assert(nul_n(g, k, c)) by {
            assert forall|i: int| 0 <= i < c.len() implies nul_sym(g, k, #[trigger] c[i]) by {
                if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); }
            }
        }
    }
    if nullable(g, c) {
        let n = choose|n: nat| #[trigger] nul_n(g, n, c);
        assert(nul_n(g, n, a)) by {
            assert forall|i: int| 0 <= i < a.len() implies nul_sym(g, n, #[trigger] a[i]) by { assert(c[i] == a[i]); }
        }
        assert(nul_n(g, n, b)) by {
            assert forall|i: int| 0 <= i < b.len() implies nul_sym(g, n, #[trigger] b[i]) by { assert(c[i + a.len()] == b[i]); }
        }
    }
}
proof fn nullable_empty<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>)
    requires b.len() == 0,
    ensures nullable(g, b),
{
    assert(nul_n(g, 0, b));
}
/// The first symbol of a body derives the empty string.
proof fn nullable_one<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, x: Symbol<V, T>)
    requires x == Symbol::<V, T>::Epsilon || x is Variable && elem_ok(g, bs, Some(x->Variable_0), Symbol::Epsilon),
    ensures nullable(g, seq![x]),
{
    match x {
        Symbol::Variable(v) => {
            let b = choose|b: VBody<V, T>| #[trigger] from(g, bs, Some(v), b) && starts_with(g, b, Symbol::Epsilon);
            let n = choose|n: nat| #[trigger] nul_n(g, n, b);
            assert(rule(g.rules, v, b));
            assert(nul_sym(g, n + 1, x));
            assert(nul_n(g, n + 1, seq![x]));
        }
        _ => { assert(nul_n(g, 0, seq![x])); }
    }
}
/// One symbol further.
proof fn suffix_next<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, s: VBody<V, T>)
    requires suffix_ok(g, bs, w, s), s.len() > 0,
        s[0] == Symbol::<V, T>::Epsilon || s[0] is Variable && elem_ok(g, bs, Some(s[0]->Variable_0), Symbol::Epsilon),
    ensures suffix_ok(g, bs, w, s.skip(1)), s.len() == 1 ==> elem_ok(g, bs, w, Symbol::Epsilon),
{
    let (b, i) = choose|b: VBody<V, T>, i: int| #[trigger] from(g, bs, w, b) && #[trigger] cut(g, b, i, s);
    nullable_one(g, bs, s[0]);
    nullable_add(g, b.take(i), seq![s[0]]);
    assert(b[i] == s[0]);
    assert(b.take(i + 1) =~= b.take(i) + seq![s[0]]);
    assert(s.skip(1) =~= b.skip(i + 1));
    assert(cut(g, b, i + 1, s.skip(1)));
    if s.len() == 1 {
        assert(b.take(i + 1) =~= b);
        assert(starts_with(g, b, Symbol::Epsilon));
    }
}
proof fn suffix_first<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, s: VBody<V, T>, x: Symbol<V, T>)
    requires suffix_ok(g, bs, w, s), s.len() > 0, x is Terminal,
        s[0] == x || s[0] is Variable && elem_ok(g, bs, Some(s[0]->Variable_0), x),
    ensures elem_ok(g, bs, w, x),
{
    let (b, i) = choose|b: VBody<V, T>, i: int| #[trigger] from(g, bs, w, b) && #[trigger] cut(g, b, i, s);
    let t = x->Terminal_0;
    assert(b[i] == s[0]);
    match s[0] {
        Symbol::Variable(v) => {
            let c = choose|c: VBody<V, T>| #[trigger] from(g, bs, Some(v), c) && starts_with(g, c, x);
            let n = choose|n: nat| #[trigger] fst_n(g, n, c, t);
            assert(rule(g.rules, v, c));
            assert(fst_sym(g, n + 1, b[i], t));
            assert(fst_n(g, n + 1, b, t));
        }
        _ => {
            assert(fst_sym(g, 0, b[i], t));
            assert(fst_n(g, 0, b, t));
        }
    }
    assert(starts_with(g, b, x));
}
proof fn suffix_known<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, s: VBody<V, T>)
    requires whole(g), known_all(g, bs), suffix_ok(g, bs, w, s), s.len() > 0, s[0] is Variable,
    ensures g.rules.map().dom().contains(s[0]->Variable_0),
{
    let (b, i) = choose|b: VBody<V, T>, i: int| #[trigger] from(g, bs, w, b) && #[trigger] cut(g, b, i, s);
    assert(b[i] == s[0]);
}
spec fn known<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>) -> bool {
    b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> match #[trigger] b[i] { Symbol::Variable(w) => g.rules.map().dom().contains(w), _ => true }
}
spec fn known_all<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>) -> bool { forall|b: VBody<V, T>| #[trigger] bs.contains(b) ==> known(g, b) }
/// When nothing is left to be looked at, everything has been found.
proof fn all_nullable<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>, n: nat, w: Option<V>, b: VBody<V, T>)
    requires whole(g), covered(g, bs, s), forall|p: (Option<V>, VBody<V, T>)| !#[trigger] s.pend.contains(p), cov(s, w, b), nul_n(g, n, b), b.len() > 0,
    ensures (s.f)(w).contains(Symbol::Epsilon),
    decreases n, b.len(),
{
    assert(nul_sym(g, n, b[0]));
    match b[0] {
        Symbol::Variable(v) => {
            let c = choose|c: VBody<V, T>| #[trigger] rule(g.rules, v, c) && nul_n(g, (n - 1) as nat, c);
            assert(from(g, bs, Some(v), c));
            all_nullable(g, bs, s, (n - 1) as nat, Some(v), c);
        }
        _ => {}
    }
    assert(past(s, w, b));
    if b.len() > 1 {
        let d = b.skip(1);
        assert(nul_n(g, n, d)) by {
            assert forall|i: int| 0 <= i < d.len() implies nul_sym(g, n, #[trigger] d[i]) by { assert(d[i] == b[i + 1]); }
        }
        all_nullable(g, bs, s, n, w, d);
    }
}
proof fn all_first<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, s: Fs<V, T>, n: nat, w: Option<V>, b: VBody<V, T>, t: T)
    requires whole(g), covered(g, bs, s), forall|p: (Option<V>, VBody<V, T>)| !#[trigger] s.pend.contains(p), cov(s, w, b), fst_n(g, n, b, t),
    ensures (s.f)(w).contains(Symbol::Terminal(t)),
    decreases n, b.len(),
{
    let i = choose|i: int| 0 <= i < b.len() && nullable(g, b.take(i)) && fst_sym(g, n, #[trigger] b[i], t);
    if i == 0 {
        match b[0] {
            Symbol::Variable(v) => {
                let c = choose|c: VBody<V, T>| #[trigger] rule(g.rules, v, c) && fst_n(g, (n - 1) as nat, c, t);
                assert(from(g, bs, Some(v), c));
                all_first(g, bs, s, (n - 1) as nat, Some(v), c, t);
            }
            _ => {}
        }
    } else {
        let a = b.take(i);
        let m = choose|m: nat| #[trigger] nul_n(g, m, a);
        assert(nul_sym(g, m, a[0]));
        assert(a[0] == b[0]);
        match b[0] {
            Symbol::Variable(v) => {
                let c = choose|c: VBody<V, T>| #[trigger] rule(g.rules, v, c) && nul_n(g, (m - 1) as nat, c);
                assert(from(g, bs, Some(v), c));
                all_nullable(g, bs, s, (m - 1) as nat, Some(v), c);
            }
            _ => {}
        }
        let d = b.skip(1);
        assert(cov(s, w, d));
        assert(d.take(i - 1) =~= b.subrange(1, i));
        assert(b.take(i) =~= b.take(1) + d.take(i - 1));
        nullable_add(g, b.take(1), d.take(i - 1));
        assert(d[i - 1] == b[i]);
        assert(fst_n(g, n, d, t));
        all_first(g, bs, s, n, w, d, t);
    }
}
proof fn extended<V: VxVar, T: VxAtom>(
    g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, xs: Seq<&Symbol<V, T>>, vis: Set<V>,
    e0: Pend<V, T>, q0: Queue<'_, V, T>, f0: Firsts<'_, V, T>, r0: Set<Symbol<V, T>>, d0: Deps<'_, V, T>,
    e1: Pend<V, T>, q1: Queue<'_, V, T>, f1: Firsts<'_, V, T>, r1: Set<Symbol<V, T>>, d1: Deps<'_, V, T>,
)
    requires
        inv(g, bs, st(e0, q0, f0, r0, d0, vis)),
        ext(w, xs, q0, f0, r0, d0, q1, f1, r1, d1),
        in_vis(st(e0, q0, f0, r0, d0, vis), w),
        forall|x: Symbol<V, T>| #[trigger] given(xs, xs.len() as int, x) ==> elem_ok(g, bs, w, x),
        forall|p: (Option<V>, VBody<V, T>)| #[trigger] e0.contains(p) ==> cov(st(e1, q1, f1, r1, d1, vis), p.0, p.1),
        forall|p: (Option<V>, VBody<V, T>)| #[trigger] e1.contains(p) ==> e0.contains(p) || suffix_ok(g, bs, p.0, p.1) && in_vis(st(e0, q0, f0, r0, d0, vis), p.0),
    ensures inv(g, bs, st(e1, q1, f1, r1, d1, vis)),
{
    let s = st(e0, q0, f0, r0, d0, vis);
    let r = st(e1, q1, f1, r1, d1, vis);
    assert forall|p: (Option<V>, VBody<V, T>)| #[trigger] r.pend.contains(p) implies s.pend.contains(p) || suffix_ok(g, bs, p.0, p.1) && in_vis(r, p.0) by {
        if q_has(q1, p.0, p.1) && !q_has(q0, p.0, p.1) { assert(s.dep.contains((w.unwrap(), p.0, p.1))); }
    }
    assert forall|p: (V, Option<V>, VBody<V, T>)| #[trigger] s.dep.contains(p) implies r.pend.contains((p.1, p.2)) || r.dep.contains(p) && (r.f)(Some(p.0)) == (s.f)(Some(p.0)) by {
        assert(d_has(d0, p.0, p.1, p.2));
    }
    assert(fstep(g, bs, s, r));
    step_inv(g, bs, s, r);
}
/// The symbols of bodies and of a grammar, and the empty string.
spec fn syms_rules<V: VxVar, T: VxAtom>(s: Set<VBody<V, T>>) -> Set<Symbol<V, T>>
    decreases s.len()
{ if s.len() == 0 { Set::empty() } else { s.choose().to_set().union(syms_rules(s.remove(s.choose()))) } }
spec fn syms_all<V: VxVar, T: VxAtom>(g: Grammar<V, T>, s: Set<V>) -> Set<Symbol<V, T>>
    decreases s.len()
{ if s.len() == 0 { Set::empty().insert(Symbol::Epsilon) } else { syms_rules(g.rules.map()[s.choose()].set()).union(syms_all(g, s.remove(s.choose()))) } }
proof fn syms_rules_have<V: VxVar, T: VxAtom>(s: Set<VBody<V, T>>, b: VBody<V, T>, i: int)
    requires s.contains(b), 0 <= i < b.len(),
    ensures syms_rules(s).contains(b[i]),
    decreases s.len(),
{
    let c = s.choose();
    if s.len() == 0 { assert(s.remove(b).len() == s.len() - 1); }
    assert(s.contains(c));
    if c == b { assert(b.to_set().contains(b[i])); } else { syms_rules_have(s.remove(c), b, i); }
}
proof fn syms_all_has<V: VxVar, T: VxAtom>(g: Grammar<V, T>, s: Set<V>, v: V, b: VBody<V, T>, i: int)
    requires rule(g.rules, v, b), s.contains(v), 0 <= i < b.len(),
    ensures syms_all(g, s).contains(b[i]),
    decreases s.len(),
{
    let c = s.choose();
    if s.len() == 0 { assert(s.remove(v).len() == s.len() - 1); }
    assert(s.contains(c));
    if c == v { syms_rules_have(g.rules.map()[v].set(), b, i); } else { syms_all_has(g, s.remove(c), v, b, i); }
}
proof fn syms_eps<V: VxVar, T: VxAtom>(g: Grammar<V, T>, s: Set<V>)
    ensures syms_all(g, s).contains(Symbol::Epsilon),
    decreases s.len(),
{ if s.len() > 0 { assert(s.contains(s.choose())); syms_eps(g, s.remove(s.choose())); } }
spec fn syms<V: VxVar, T: VxAtom>(g: Grammar<V, T>) -> Set<Symbol<V, T>> { syms_all(g, g.rules.map().dom()) }
proof fn syms_first<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V, b: VBody<V, T>, n: nat, t: T)
    requires rule(g.rules, v, b), fst_n(g, n, b, t),
    ensures syms(g).contains(Symbol::Terminal(t)),
    decreases n,
{
    let i = choose|i: int| 0 <= i < b.len() && nullable(g, b.take(i)) && fst_sym(g, n, #[trigger] b[i], t);
    match b[i] {
        Symbol::Variable(w) => {
            let c = choose|c: VBody<V, T>| #[trigger] rule(g.rules, w, c) && fst_n(g, (n - 1) as nat, c, t);
            syms_first(g, w, c, (n - 1) as nat, t);
        }
        _ => syms_all_has(g, g.rules.map().dom(), v, b, i),
    }
}
proof fn syms_found<V: VxVar, T: VxAtom>(g: Grammar<V, T>, bs: ISet<VBody<V, T>>, v: V, x: Symbol<V, T>)
    requires elem_ok(g, bs, Some(v), x),
    ensures syms(g).contains(x),
{
    let b = choose|b: VBody<V, T>| #[trigger] from(g, bs, Some(v), b) && starts_with(g, b, x);
    match x {
        Symbol::Terminal(t) => {
            let n = choose|n: nat| #[trigger] fst_n(g, n, b, t);
            syms_first(g, v, b, n, t);
        }
        _ => syms_eps(g, g.rules.map().dom()),
    }
}
/// How much can still be found, and how many variables can still be asked for.
spec fn room<V: VxVar, T: VxAtom>(g: Grammar<V, T>, f: Firsts<'_, V, T>) -> nat {
    sum_set(|v: V| if syms(g).len() >= fst_of(f, Set::empty(), Some(v)).len() { (syms(g).len() - fst_of(f, Set::empty(), Some(v)).len()) as nat } else { 0 }, g.rules.map().dom())
}
spec fn unasked<V: VxVar, T: VxAtom>(g: Grammar<V, T>, vis: Set<V>) -> int { g.rules.map().dom().len() - vis.len() }
spec fn asked_ok<V: VxVar, T: VxAtom>(g: Grammar<V, T>, vis: Set<V>) -> bool { forall|v: V| #[trigger] vis.contains(v) ==> g.rules.map().dom().contains(v) }
spec fn less(a: int, b: nat, c: nat, x: int, y: nat, z: nat) -> bool { a < x || a == x && (b < y || b == y && c < z) }
proof fn room_less<V: VxVar, T: VxAtom>(
    g: Grammar<V, T>, bs: ISet<VBody<V, T>>, w: Option<V>, xs: Seq<&Symbol<V, T>>, vis: Set<V>,
    q0: Queue<'_, V, T>, f0: Firsts<'_, V, T>, r0: Set<Symbol<V, T>>, d0: Deps<'_, V, T>,
    e1: Pend<V, T>, q1: Queue<'_, V, T>, f1: Firsts<'_, V, T>, r1: Set<Symbol<V, T>>, d1: Deps<'_, V, T>,
)
    requires
        ext(w, xs, q0, f0, r0, d0, q1, f1, r1, d1),
        inv(g, bs, st(e1, q1, f1, r1, d1, vis)),
        asked_ok(g, vis), w.is_some() ==> vis.contains(w.unwrap()),
    ensures room(g, f1) <= room(g, f0), q1 == q0 || room(g, f1) < room(g, f0),
{
    let n = syms(g).len();
    let h0 = |v: V| if n >= fst_of(f0, Set::empty(), Some(v)).len() { (n - fst_of(f0, Set::empty(), Some(v)).len()) as nat } else { 0 };
    let h1 = |v: V| if n >= fst_of(f1, Set::empty(), Some(v)).len() { (n - fst_of(f1, Set::empty(), Some(v)).len()) as nat } else { 0 };
    assert forall|v: V| #![trigger h0(v)] #![trigger h1(v)] fst_of(f0, r0, Some(v)).len() <= fst_of(f1, r1, Some(v)).len() <= n by {
        let s = st(e1, q1, f1, r1, d1, vis);
        assert forall|x: Symbol<V, T>| #[trigger] fst_of(f1, r1, Some(v)).contains(x) implies syms(g).contains(x) by {
            assert((s.f)(Some(v)).contains(x));
            syms_found(g, bs, v, x);
        }
        vstd::set_lib::lemma_len_subset(fst_of(f1, r1, Some(v)), syms(g));
        vstd::set_lib::lemma_len_subset(fst_of(f0, r0, Some(v)), fst_of(f1, r1, Some(v)));
    }
    if w.is_some() {
        let v = w.unwrap();
        assert(h0(v) == n - fst_of(f0, r0, Some(v)).len());
        sum_less(h0, h1, g.rules.map().dom(), v);
    } else {
        sum_less(h0, h1, g.rules.map().dom(), arbitrary());
    }
}
proof fn asked_most<V: VxVar, T: VxAtom>(g: Grammar<V, T>, vis: Set<V>)
    requires asked_ok(g, vis),
    ensures unasked(g, vis) >= 0,
{ vstd::set_lib::lemma_len_subset(vis, g.rules.map().dom()); }
proof fn d_pushed<'a, V: VxVar, T: VxAtom>(
    d: Map<V, VxMap<Option<V>, Vec<It<'a, V, T>>>>,
    e: Map<V, VxMap<Option<V>, Vec<It<'a, V, T>>>>,
    v: V,
    w: Option<V>,
    it: It<'a, V, T>,
    m: VxMap<Option<V>, Vec<It<'a, V, T>>>,
    l: Vec<It<'a, V, T>>,
)
    requires
        e == d.insert(v, m),
        m.map() == (if d.dom().contains(v) { d[v].map() } else { Map::empty() }).insert(w, l),
        l@ == (if d.dom().contains(v) && d[v].map().dom().contains(w) { d[v].map()[w]@ } else { Seq::empty() }).push(it),
    ensures
        forall|a: V, u: Option<V>, s: VBody<V, T>| #[trigger] d_has(e, a, u, s) <==> (d_has(d, a, u, s) || a == v && u == w && s == body_of(it)),
{
    assert forall|a: V, u: Option<V>, s: VBody<V, T>| #[trigger] d_has(e, a, u, s) <==> (d_has(d, a, u, s) || a == v && u == w && s == body_of(it)) by {
        if a == v && u == w {
            let n = l@.len() - 1;
            assert(l@[n] == it);
            if d_has(d, a, u, s) {
                let k = d[v].map()[w]@;
                let j = choose|j: int| 0 <= j < k.len() && body_of(#[trigger] k[j]) == s;
                assert(l@[j] == k[j]);
            }
            if d_has(e, a, u, s) {
                let j = choose|j: int| 0 <= j < l@.len() && body_of(#[trigger] l@[j]) == s;
                if j < n { assert(l@[j] == d[v].map()[w]@[j]); }
            }
        }
    }
}
//@ impl<V: VxVar, T: VxAtom> Grammar<V, T>
//@ fn Grammar::first_body
//@ sig fn first_body<'a, B: VxBody<'a, V, T>>(&'a self, variable: Option<V>, body: B) -> VxSet<&'a Symbol<V, T>>
requires whole(*self), variable.is_none(), known(*self, body.syms()),
ensures forall|x: Symbol<V, T>| #[trigger] r.set().contains(x) <==> starts_with(*self, body.syms(), x),
//@ at start
proof {
    let bs = bodies_in(seq![body]);
    assert forall|b: VBody<V, T>| #[trigger] bs.contains(b) == (b == body.syms()) by { assert(seq![body][0].syms() == body.syms()); }
    assert forall|x: Symbol<V, T>| #[trigger] elem_ok(*self, bs, None, x) == starts_with(*self, body.syms(), x) by {
        assert(from(*self, bs, None, body.syms()));
    }
}
//@ fn Grammar::first_bodies
//@ sig fn first_bodies<'a, B: VxBody<'a, V, T>>(&'a self, variable: Option<V>, bodies: VxIt<B>) -> VxSet<&'a Symbol<V, T>>
requires whole(*self), variable.is_none(), bodies.pos() == 0, known_all(*self, bodies_in(bodies.seq())),
ensures forall|x: Symbol<V, T>| #[trigger] r.set().contains(x) <==> elem_ok(*self, bodies_in(bodies.seq()), None, x),
//@ collect 1 Vec<VxIt<&'a Symbol<V, T>>>
//@ at start
let ghost bs = bodies_in(bodies.seq());
//@ loop 0
invariant vx_col2@.len() == vx_it0.pos(), forall|i: int| 0 <= i < vx_col2@.len() ==> body_of(#[trigger] vx_col2@[i]) == vx_s0[i].syms(),
//@ at loop 0 after
proof {
    assert forall|b: VBody<V, T>| #[trigger] has_from(vx_col2@, 0, b) == bs.contains(b) by {
        if bs.contains(b) {
            let j = choose|j: int| 0 <= j < vx_s0.len() && (#[trigger] vx_s0[j]).syms() == b;
            assert(body_of(vx_col2@[j]) == b);
        }
        if has_from(vx_col2@, 0, b) {
            let j = choose|j: int| 0 <= j < vx_col2@.len() && body_of(#[trigger] vx_col2@[j]) == b;
            assert(vx_s0[j].syms() == b);
        }
    }
}
//@ at loop 1 before
proof {
    let s = st(ISet::empty(), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert forall|w: Option<V>, b: VBody<V, T>| #[trigger] from(*self, bs, w, b) && in_vis(s, w) implies cov(s, w, b) by {
        assert(in_group(pending_bodies.seq()[0], w, b));
    }
    assert forall|p: (Option<V>, VBody<V, T>)| #[trigger] s.pend.contains(p) implies suffix_ok(*self, bs, p.0, p.1) && in_vis(s, p.0) by {
        assert(from(*self, bs, p.0, p.1));
        nullable_empty(*self, p.1.take(0));
        assert(p.1.skip(0) =~= p.1);
        assert(cut(*self, p.1, 0, p.1));
    }
}
//@ loop 1
invariant inv(*self, bs, st(ISet::empty(), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set())),
    asked_ok(*self, visited_variables.set()),
ensures pending_bodies.seq().len() == 0,
decreases unasked(*self, visited_variables.set()), room(*self, first.map()), pending_bodies.seq().len(),
//@ at loop 1 top
let ghost q1 = pending_bodies.seq();
let ghost u1 = unasked(*self, visited_variables.set());
let ghost m1 = room(*self, first.map());
proof { asked_most(*self, visited_variables.set()); }
//@ at loop 1 start
let ghost p1 = pending_bodies.seq();
let ghost x1 = (variable, bodies);
proof { assert(took(q1, p1, x1)); }
//@ at loop 2 before
proof {
    let d = took_by(q1, p1, x1);
    let s = st(ISet::empty(), q1, first.map(), result.set(), dependencies.map(), visited_variables.set());
    let r = st(group(variable, vx_s2, 0), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert forall|w: Option<V>, b: VBody<V, T>| #[trigger] q_has(q1, w, b) == (q_has(pending_bodies.seq(), w, b) || group(variable, vx_s2, 0).contains((w, b))) by {
        if q_has(q1, w, b) {
            let i = choose|i: int| 0 <= i < q1.len() && in_group(#[trigger] q1[i], w, b);
            if 0 <= i - d < p1.len() { assert(p1[i - d] == q1[i]); }
        }
        if q_has(p1, w, b) {
            let i = choose|i: int| 0 <= i < p1.len() && in_group(#[trigger] p1[i], w, b);
            assert(p1[i] == q1[i + d]);
        }
        if group(variable, vx_s2, 0).contains((w, b)) { assert(in_group(q1[took_at(q1, p1, x1)], w, b)); }
    }
    assert(fstep(*self, bs, s, r));
    step_inv(*self, bs, s, r);
}
//@ loop 2
invariant inv(*self, bs, st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set())),
    asked_ok(*self, visited_variables.set()), less(unasked(*self, visited_variables.set()), room(*self, first.map()), pending_bodies.seq().len(), u1, m1, q1.len()),
//@ at loop 3 before
proof {
    let s = st(group(variable, vx_s2, vx_it2.pos() - 1), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    let r = st(group(variable, vx_s2, vx_it2.pos()).insert((variable, body_of(body))), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert forall|b: VBody<V, T>| #[trigger] has_from(vx_s2, vx_it2.pos() - 1, b) == (has_from(vx_s2, vx_it2.pos(), b) || b == body_of(body)) by {
        assert(body_of(vx_s2[vx_it2.pos() - 1]) == body_of(body));
    }
    assert(fstep(*self, bs, s, r));
    step_inv(*self, bs, s, r);
}
//@ loop 3
invariant_except_break
    inv(*self, bs, st(group(variable, vx_s2, vx_it2.pos()).insert((variable, body_of(body))), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set())),
    body_of(last_body) == body_of(body),
    asked_ok(*self, visited_variables.set()), less(unasked(*self, visited_variables.set()), room(*self, first.map()), pending_bodies.seq().len(), u1, m1, q1.len()),
ensures
    asked_ok(*self, visited_variables.set()), less(unasked(*self, visited_variables.set()), room(*self, first.map()), pending_bodies.seq().len(), u1, m1, q1.len()),
    inv(*self, bs, st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set())),
decreases body_of(body).len(),
//@ at loop 3 top
let ghost cur = body_of(body);
let ghost s3 = st(group(variable, vx_s2, vx_it2.pos()).insert((variable, cur)), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
let ghost d3 = dependencies.map();
let ghost q3 = pending_bodies.seq();
let ghost f3 = first.map();
let ghost r3 = result.set();
let ghost g3 = group(variable, vx_s2, vx_it2.pos());
proof {
    assert(s3.pend.contains((variable, cur)));
    assert(suffix_ok(*self, bs, variable, cur) && in_vis(s3, variable));
    if cur.len() == 0 {
        let r = st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
        assert(cov(r, variable, cur));
        assert(fstep(*self, bs, s3, r));
        step_inv(*self, bs, s3, r);
    }
}
//@ at loop 3 start
proof {
    assert(cur[0] == *symbol);
    assert(body_of(body) =~= cur.skip(1));
}
//@ at call break 0 before
proof {
    let r = st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert(given(seq![symbol], 1, cur[0])) by { assert(*seq![symbol][0] == cur[0]); }
    suffix_first(*self, bs, variable, cur, cur[0]);
    assert((r.f)(variable).contains(cur[0]));
    assert(cov(r, variable, cur));
    extended(*self, bs, variable, seq![symbol], visited_variables.set(), g3.insert((variable, cur)), q3, f3, r3, d3,
        g3, pending_bodies.seq(), first.map(), result.set(), dependencies.map());
    room_less(*self, bs, variable, seq![symbol], visited_variables.set(), q3, f3, r3, d3,
        g3, pending_bodies.seq(), first.map(), result.set(), dependencies.map());
}
//@ at call push 0 after
let ghost s4 = st(group(variable, vx_s2, vx_it2.pos()).insert((variable, cur)), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
let ghost d4 = dependencies.map();
let ghost v4 = visited_variables.set();
let ghost mut add: Seq<&'a Symbol<V, T>> = Seq::empty();
proof {
    d_pushed(d3, d4, *v, variable, last_body, d4[*v], d4[*v].map()[variable]);
    assert(fstep(*self, bs, s3, s4));
    step_inv(*self, bs, s3, s4);
    suffix_known(*self, bs, variable, cur);
    assert(s4.dep.contains((*v, variable, cur)));
}
//@ loop 4
invariant vx_col3@.len() == vx_it4.pos(), forall|i: int| 0 <= i < vx_col3@.len() ==> body_of(#[trigger] vx_col3@[i]) == vx_s4[i]@,
//@ at loop 4 end
proof { assert(body_of(vx_y2) =~= vx_s4[vx_it4.pos() - 1]@); }
//@ at loop 4 after
proof {
    assert forall|b: VBody<V, T>| #[trigger] has_from(vx_col3@, 0, b) == rule(self.rules, *v, b) by {
        if rule(self.rules, *v, b) {
            let i = choose|i: int| 0 <= i < vx_s4.len() && (*#[trigger] vx_s4[i]).key() == b;
            assert(body_of(vx_col3@[i]) == b);
        }
        if has_from(vx_col3@, 0, b) {
            let i = choose|i: int| 0 <= i < vx_col3@.len() && body_of(#[trigger] vx_col3@[i]) == b;
            assert((*vx_s4[i]).key() == b);
        }
    }
}
//@ at call break 1 before
proof {
    let n = pending_bodies.seq().last();
    assert forall|w: Option<V>, b: VBody<V, T>| #[trigger] q_has(pending_bodies.seq(), w, b) == (q_has(q3, w, b) || w == Some(*v) && rule(self.rules, *v, b)) by {
        assert(pending_bodies.seq() =~= q3 + seq![n]);
        q_add(q3, seq![n], w, b);
        assert(q_has(seq![n], w, b) == in_group(n, w, b)) by {
            if in_group(n, w, b) { assert(in_group(seq![n][0], w, b)); }
        }
    }
    let r = st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert forall|x: Symbol<V, T>| !#[trigger] (r.f)(Some(*v)).contains(x) by { assert(!(s4.f)(Some(*v)).contains(x)); }
    assert(r.dep.contains((*v, variable, cur)));
    assert forall|p: (Option<V>, VBody<V, T>)| #[trigger] r.pend.contains(p) && !s4.pend.contains(p) implies suffix_ok(*self, bs, p.0, p.1) by {
        assert(from(*self, bs, p.0, p.1));
        nullable_empty(*self, p.1.take(0));
        assert(p.1.skip(0) =~= p.1);
        assert(cut(*self, p.1, 0, p.1));
    }
    assert(cov(r, variable, cur));
    assert(fstep(*self, bs, s4, r));
    step_inv(*self, bs, s4, r);
}
//@ at call break 2 before
proof {
    assert(visited_variables.set() =~= v4);
    let r = st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert((r.f)(Some(*v)) == Set::<Symbol<V, T>>::empty());
    assert(cov(r, variable, cur));
    assert(fstep(*self, bs, s4, r));
    step_inv(*self, bs, s4, r);
}
//@ loop 5
invariant vx_out1.pos() == 0, forall|x: Symbol<V, T>| #[trigger] given(vx_out1.seq(), vx_out1.seq().len() as int, x)
    <==> given(vx_s5, vx_it5.pos(), x) && (x != Symbol::<V, T>::Epsilon || last_symbol_in_body),
//@ at loop 5 start
let ghost o5 = vx_out1.seq();
//@ at loop 5 end
proof {
    let n = o5.len() as int;
    let k = vx_it5.pos();
    let y = *vx_s5[k - 1];
    assert forall|x: Symbol<V, T>| given(vx_s5, k, x) == (#[trigger] given(vx_s5, k - 1, x) || x == y) by {}
    assert forall|x: Symbol<V, T>| #[trigger] given(vx_out1.seq(), n, x) == given(o5, n, x) by {
        if given(o5, n, x) {
            let i = choose|i: int| 0 <= i < n && *#[trigger] o5[i] == x;
            assert(*vx_out1.seq()[i] == x);
        }
        if given(vx_out1.seq(), n, x) {
            let i = choose|i: int| 0 <= i < n && *#[trigger] vx_out1.seq()[i] == x;
            assert(*o5[i] == x);
        }
    }
    if vx_c1 {
        assert forall|x: Symbol<V, T>| #[trigger] given(vx_out1.seq(), n + 1, x) == (given(vx_out1.seq(), n, x) || x == y) by {
            assert(*vx_out1.seq()[n] == y);
        }
    }
}
//@ at loop 5 after
proof { add = vx_out1.seq(); }
//@ at call extend_for_variable 1 after
proof {
    assert(visited_variables.set() =~= v4);
    let e = if !first_v_contains_eps { g3 } else { g3.insert((variable, cur.skip(1))) };
    let r = st(e, pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    let fv = (s4.f)(Some(*v));
    assert forall|x: Symbol<V, T>| #[trigger] given(add, add.len() as int, x) == (fv.contains(x) && (x != Symbol::<V, T>::Epsilon || last_symbol_in_body)) by {
        assert(fv == first_v.set());
    }
    assert(ext(variable, add, q3, f3, r3, d4, pending_bodies.seq(), first.map(), result.set(), dependencies.map()));
    assert forall|x: Symbol<V, T>| #[trigger] given(add, add.len() as int, x) implies elem_ok(*self, bs, variable, x) by {
        assert(elem_ok(*self, bs, Some(*v), x));
        match x {
            Symbol::Terminal(_) => suffix_first(*self, bs, variable, cur, x),
            Symbol::Epsilon => suffix_next(*self, bs, variable, cur),
            Symbol::Variable(_) => {}
        }
    }
    if first_v_contains_eps { suffix_next(*self, bs, variable, cur); }
    assert forall|x: Symbol<V, T>| #[trigger] (r.f)(Some(*v)).contains(x) == fv.contains(x) by {}
    assert(d_has(d4, *v, variable, cur));
    assert(cov(r, variable, cur)) by {
        if !r.pend.contains((variable, cur)) {
            assert(r.dep.contains((*v, variable, cur)));
            assert forall|x: Symbol<V, T>| #[trigger] (r.f)(Some(*v)).contains(x) && x != Symbol::<V, T>::Epsilon implies (r.f)(variable).contains(x) by {
                assert(given(add, add.len() as int, x));
            }
            if (r.f)(Some(*v)).contains(Symbol::Epsilon) {
                if cur.len() == 1 { assert(given(add, add.len() as int, Symbol::Epsilon)); }
                else { assert(r.pend.contains((variable, cur.skip(1)))); }
                assert(past(r, variable, cur));
            }
        }
    }
    extended(*self, bs, variable, add, visited_variables.set(), g3.insert((variable, cur)), q3, f3, r3, d4, e, pending_bodies.seq(), first.map(), result.set(), dependencies.map());
    room_less(*self, bs, variable, add, visited_variables.set(), q3, f3, r3, d4, e, pending_bodies.seq(), first.map(), result.set(), dependencies.map());
}
//@ at call break 4 before
proof {
    let r = st(g3, pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    let one = seq![&Symbol::<V, T>::Epsilon];
    assert(given(one, 1, cur[0])) by { assert(*one[0] == cur[0]); }
    suffix_next(*self, bs, variable, cur);
    assert((r.f)(variable).contains(cur[0]));
    assert(past(r, variable, cur));
    assert(cov(r, variable, cur));
    extended(*self, bs, variable, one, visited_variables.set(), g3.insert((variable, cur)), q3, f3, r3, d3, g3, pending_bodies.seq(), first.map(), result.set(), dependencies.map());
    room_less(*self, bs, variable, one, visited_variables.set(), q3, f3, r3, d3, g3, pending_bodies.seq(), first.map(), result.set(), dependencies.map());
}
//@ at loop 3 end
proof {
    if cur[0] is Epsilon {
        let r = st(g3.insert((variable, cur.skip(1))), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
        suffix_next(*self, bs, variable, cur);
        assert(past(r, variable, cur));
        assert(cov(r, variable, cur));
        assert(fstep(*self, bs, s3, r));
        step_inv(*self, bs, s3, r);
    }
    assert(body_of(last_body) =~= cur.skip(1));
}
//@ at loop 1 end
proof {
    asked_most(*self, visited_variables.set());
    assert(less(unasked(*self, visited_variables.set()), room(*self, first.map()), pending_bodies.seq().len(), u1, m1, q1.len()));
}
//@ at loop 2 after
proof {
    let s = st(group(variable, vx_s2, vx_it2.pos()), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    let r = st(ISet::empty(), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert(fstep(*self, bs, s, r));
    step_inv(*self, bs, s, r);
}
//@ at loop 1 after
proof {
    let s = st(ISet::empty(), pending_bodies.seq(), first.map(), result.set(), dependencies.map(), visited_variables.set());
    assert forall|x: Symbol<V, T>| elem_ok(*self, bs, None, x) implies #[trigger] result.set().contains(x) by {
        let b = choose|b: VBody<V, T>| #[trigger] from(*self, bs, None, b) && starts_with(*self, b, x);
        assert(cov(s, None, b));
        match x {
            Symbol::Terminal(t) => {
                let n = choose|n: nat| #[trigger] fst_n(*self, n, b, t);
                all_first(*self, bs, s, n, None, b, t);
            }
            Symbol::Epsilon => {
                let n = choose|n: nat| #[trigger] nul_n(*self, n, b);
                all_nullable(*self, bs, s, n, None, b);
            }
            Symbol::Variable(_) => {}
        }
        assert((s.f)(None::<V>).contains(x));
    }
    assert forall|x: Symbol<V, T>| #[trigger] result.set().contains(x) implies elem_ok(*self, bs, None, x) by { assert((s.f)(None::<V>).contains(x)); }
}
//@ end
