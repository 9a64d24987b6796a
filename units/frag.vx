// What expressions match, and the parts of a machine that stand for them.
//@ include-proved machine.vx
//@ file pango-lexer/src/regex/ast.rs
//@ item ExprKind noderive
//@ prelude
pub type Lang = ISet<Seq<char>>;
spec fn empty_text() -> Lang { ISet::new(|w: Seq<char>| w.len() == 0) }
spec fn one_of(l: LiteralKind) -> Lang { ISet::new(|w: Seq<char>| w.len() == 1 && in_literal(l, w[0])) }
spec fn either(a: Lang, b: Lang) -> Lang { ISet::new(|w: Seq<char>| a.contains(w) || b.contains(w)) }
spec fn cut(a: Lang, b: Lang, w: Seq<char>, i: int) -> bool { 0 <= i <= w.len() && a.contains(w.take(i)) && b.contains(w.skip(i)) }
spec fn both(a: Lang, b: Lang) -> Lang { ISet::new(|w: Seq<char>| exists|i: int| cut(a, b, w, i)) }
spec fn power(a: Lang, n: nat) -> Lang decreases n { if n == 0 { empty_text() } else { both(a, power(a, (n - 1) as nat)) } }
spec fn times(a: Lang, q: QuantifierKind) -> Lang { ISet::new(|w: Seq<char>| exists|n: nat| satisfied(q, n) && #[trigger] power(a, n).contains(w)) }
/// The texts an expression matches.
spec fn lang(e: ExprKind) -> Lang
    decreases e, 1nat, 0nat
{
    match e {
        ExprKind::Concat(v) => cat(e, v@.len()),
        ExprKind::Empty => empty_text(),
        ExprKind::Alt(l, r) => either(lang(*l), lang(*r)),
        ExprKind::Lit(l, None) => one_of(l),
        ExprKind::Lit(l, Some(q)) => times(one_of(l), q),
        ExprKind::Group(x, None) => lang(*x),
        ExprKind::Group(x, Some(q)) => times(lang(*x), q),
    }
}
/// The first `n` parts of a concatenation.
spec fn cat(e: ExprKind, n: nat) -> Lang
    decreases e, 0nat, n
{
    match e {
        ExprKind::Concat(v) => if n == 0 || n > v@.len() { empty_text() } else { both(cat(e, (n - 1) as nat), lang(v@[n - 1])) },
        _ => empty_text(),
    }
}

// A machine with counts that have no limit.
pub type Edge = (usize, Input, usize);
pub struct X { pub state: usize, pub n: spec_fn(usize) -> nat }
spec fn inc(n: spec_fn(usize) -> nat, k: usize) -> spec_fn(usize) -> nat { |j: usize| if j == k { n(j) + 1 } else { n(j) } }
spec fn reset(n: spec_fn(usize) -> nat, k: usize) -> spec_fn(usize) -> nat { |j: usize| if j == k { 0 } else { n(j) } }
spec fn via(e: ISet<Edge>, k: Input, c: X, w: Seq<char>, d: X) -> bool {
    &&& e.contains((c.state, k, d.state))
    &&& match k {
        Input::Eps => w.len() == 0 && d.n == inc(c.n, c.state),
        Input::Literal(l) => w.len() == 1 && in_literal(l, w[0]) && d.n == inc(c.n, c.state),
        Input::Quantified(q) => w.len() == 0 && satisfied(q, (c.n)(c.state)) && d.n == reset(c.n, c.state),
    }
}
spec fn step(e: ISet<Edge>, c: X, w: Seq<char>, d: X) -> bool { exists|k: Input| via(e, k, c, w, d) }
spec fn hop(e: ISet<Edge>, c: X, w: Seq<char>, j: int, d: X) -> bool { 0 <= j <= w.len() && step(e, c, w.take(j), d) }
/// A part of a machine: edges, and the states that belong to it alone.
pub struct Frag { pub edges: ISet<Edge>, pub inner: ISet<usize> }
/// `n` steps that read `w`, all of them from inner states.
spec fn walk(f: Frag, c: X, w: Seq<char>, d: X, n: nat) -> bool
    decreases n
{
    if n == 0 { c == d && w.len() == 0 } else {
        f.inner.contains(c.state) && exists|x: X, j: int| #[trigger] hop(f.edges, c, w, j, x) && walk(f, x, w.skip(j), d, (n - 1) as nat)
    }
}
spec fn first(f: Frag, c: X, w: Seq<char>, d: X, n: nat, x: X, j: int) -> bool {
    n > 0 && hop(f.edges, c, w, j, x) && walk(f, x, w.skip(j), d, (n - 1) as nat)
}
/// From `s` through inner states to `t`.
spec fn trav(f: Frag, s: usize, t: usize, c: X, w: Seq<char>, d: X, n: nat) -> bool {
    c.state == s && d.state == t && exists|x: X, j: int| first(f, c, w, d, n, x, j)
}
spec fn quant(e: ISet<Edge>, k: usize) -> bool { exists|q: QuantifierKind, b: usize| e.contains((k, Input::Quantified(q), b)) }
spec fn zero(f: Frag, c: X) -> bool { forall|k: usize| f.inner.contains(k) && quant(f.edges, k) ==> #[trigger] (c.n)(k) == 0 }
spec fn eff(f: Frag, s: usize, c: X, d: X) -> bool {
    &&& zero(f, d)
    &&& forall|k: usize| !f.inner.contains(k) ==> #[trigger] (d.n)(k) == (c.n)(k) + (if k == s { 1nat } else { 0 })
}
spec fn shape(f: Frag, s: usize, t: usize) -> bool {
    &&& !f.inner.contains(s) && !f.inner.contains(t)
    &&& forall|e: Edge| #[trigger] f.edges.contains(e) ==> ((e.0 == s && !(e.1 is Quantified)) || f.inner.contains(e.0)) && (e.2 == t || f.inner.contains(e.2))
}
spec fn sound(f: Frag, s: usize, t: usize, l: Lang) -> bool {
    forall|c: X, w: Seq<char>, d: X, n: nat| zero(f, c) && #[trigger] trav(f, s, t, c, w, d, n) ==> l.contains(w) && eff(f, s, c, d)
}
spec fn travs(f: Frag, s: usize, t: usize, c: X, w: Seq<char>) -> bool { exists|d: X, n: nat| trav(f, s, t, c, w, d, n) }
spec fn complete(f: Frag, s: usize, t: usize, l: Lang) -> bool {
    forall|c: X, w: Seq<char>| zero(f, c) && c.state == s && l.contains(w) ==> #[trigger] travs(f, s, t, c, w)
}
/// `f` leads from `s` to `t` with the texts of `l`.
spec fn stands(f: Frag, s: usize, t: usize, l: Lang) -> bool { shape(f, s, t) && sound(f, s, t, l) && complete(f, s, t, l) }

spec fn within(f: Frag, g: Frag) -> bool { f.edges.subset_of(g.edges) && f.inner.subset_of(g.inner) }
proof fn step_sub(e: ISet<Edge>, g: ISet<Edge>, c: X, w: Seq<char>, d: X)
    requires e.subset_of(g), step(e, c, w, d)
    ensures step(g, c, w, d)
{
    let k = choose|k: Input| via(e, k, c, w, d);
    assert(via(g, k, c, w, d));
}
proof fn walk_sub(f: Frag, g: Frag, c: X, w: Seq<char>, d: X, n: nat)
    requires within(f, g), walk(f, c, w, d, n)
    ensures walk(g, c, w, d, n)
    decreases n
{
    if n > 0 {
        let (x, j) = choose|x: X, j: int| #[trigger] hop(f.edges, c, w, j, x) && walk(f, x, w.skip(j), d, (n - 1) as nat);
        step_sub(f.edges, g.edges, c, w.take(j), x);
        walk_sub(f, g, x, w.skip(j), d, (n - 1) as nat);
        assert(hop(g.edges, c, w, j, x));
    }
}
proof fn walk_join(f: Frag, c: X, u: Seq<char>, x: X, v: Seq<char>, d: X, n: nat, m: nat)
    requires walk(f, c, u, x, n), walk(f, x, v, d, m)
    ensures walk(f, c, u + v, d, n + m)
    decreases n
{
    if n == 0 {
        assert(u + v =~= v);
    } else {
        let (y, j) = choose|y: X, j: int| #[trigger] hop(f.edges, c, u, j, y) && walk(f, y, u.skip(j), x, (n - 1) as nat);
        walk_join(f, y, u.skip(j), x, v, d, (n - 1) as nat, m);
        assert((u + v).take(j) =~= u.take(j));
        assert((u + v).skip(j) =~= u.skip(j) + v);
        assert(hop(f.edges, c, u + v, j, y));
    }
}
/// `g` is the part of `f` that leads to `m`.
spec fn leads(f: Frag, g: Frag, m: usize) -> bool {
    &&& !g.inner.contains(m)
    &&& forall|e: Edge| #[trigger] f.edges.contains(e) && g.inner.contains(e.0) ==> g.edges.contains(e) && (e.2 == m || g.inner.contains(e.2))
}
proof fn walk_split(f: Frag, g: Frag, m: usize, c: X, w: Seq<char>, d: X, n: nat) -> (r: (int, X, nat))
    requires leads(f, g, m), c.state == m || g.inner.contains(c.state), !g.inner.contains(d.state), walk(f, c, w, d, n)
    ensures 0 <= r.0 <= w.len(), r.2 <= n, r.1.state == m, walk(g, c, w.take(r.0), r.1, r.2), walk(f, r.1, w.skip(r.0), d, (n - r.2) as nat)
    decreases n
{
    if c.state == m {
        assert(w.skip(0) =~= w);
        (0, c, 0)
    } else {
        let (y, j) = choose|y: X, j: int| #[trigger] hop(f.edges, c, w, j, y) && walk(f, y, w.skip(j), d, (n - 1) as nat);
        let k = choose|k: Input| via(f.edges, k, c, w.take(j), y);
        assert(via(g.edges, k, c, w.take(j), y));
        let (i, x, p) = walk_split(f, g, m, y, w.skip(j), d, (n - 1) as nat);
        assert(w.skip(j).take(i) =~= w.take(j + i).skip(j));
        assert(w.take(j + i).take(j) =~= w.take(j));
        assert(w.skip(j).skip(i) =~= w.skip(j + i));
        assert(hop(g.edges, c, w.take(j + i), j, y));
        (j + i, x, p + 1)
    }
}
/// A walk of `f` that starts with a step of `g` from `s`.
proof fn trav_split(f: Frag, g: Frag, s: usize, m: usize, c: X, w: Seq<char>, d: X, n: nat, y: X, j: int) -> (r: (int, X, nat))
    requires leads(f, g, m), shape(g, s, m), c.state == s, first(f, c, w, d, n, y, j), hop(g.edges, c, w, j, y), !g.inner.contains(d.state)
    ensures 0 <= r.0 <= w.len(), 0 < r.2 <= n, trav(g, s, m, c, w.take(r.0), r.1, r.2), walk(f, r.1, w.skip(r.0), d, (n - r.2) as nat)
{
    let k = choose|k: Input| via(g.edges, k, c, w.take(j), y);
    assert(g.edges.contains((c.state, k, y.state)));
    let (i, x, p) = walk_split(f, g, m, y, w.skip(j), d, (n - 1) as nat);
    assert(w.skip(j).take(i) =~= w.take(j + i).skip(j));
    assert(w.take(j + i).take(j) =~= w.take(j));
    assert(w.skip(j).skip(i) =~= w.skip(j + i));
    assert(first(g, c, w.take(j + i), x, p + 1, y, j));
    (j + i, x, p + 1)
}
proof fn trav_sub(f: Frag, g: Frag, s: usize, t: usize, c: X, w: Seq<char>, d: X, n: nat)
    requires within(f, g), trav(f, s, t, c, w, d, n)
    ensures trav(g, s, t, c, w, d, n)
{
    let (x, j) = choose|x: X, j: int| first(f, c, w, d, n, x, j);
    step_sub(f.edges, g.edges, c, w.take(j), x);
    walk_sub(f, g, x, w.skip(j), d, (n - 1) as nat);
    assert(first(g, c, w, d, n, x, j));
}
/// A traversal as a walk, when its start is an inner state of `g`.
proof fn trav_walk(f: Frag, g: Frag, s: usize, t: usize, c: X, w: Seq<char>, d: X, n: nat)
    requires within(f, g), g.inner.contains(s), trav(f, s, t, c, w, d, n)
    ensures walk(g, c, w, d, n)
{
    trav_sub(f, g, s, t, c, w, d, n);
    let (x, j) = choose|x: X, j: int| first(g, c, w, d, n, x, j);
    assert(hop(g.edges, c, w, j, x));
}
proof fn trav_join(f: Frag, s: usize, t: usize, c: X, u: Seq<char>, x: X, v: Seq<char>, d: X, n: nat, m: nat)
    requires trav(f, s, x.state, c, u, x, n), walk(f, x, v, d, m), d.state == t
    ensures trav(f, s, t, c, u + v, d, n + m)
{
    let (y, j) = choose|y: X, j: int| first(f, c, u, x, n, y, j);
    walk_join(f, y, u.skip(j), x, v, d, (n - 1) as nat, m);
    assert((u + v).take(j) =~= u.take(j));
    assert((u + v).skip(j) =~= u.skip(j) + v);
    assert(first(f, c, u + v, d, n + m, y, j));
}

/// A single edge.
spec fn single(s: usize, k: Input, t: usize) -> Frag { Frag { edges: ISet::empty().insert((s, k, t)), inner: ISet::empty() } }
proof fn stands_single(s: usize, k: Input, t: usize, l: Lang)
    requires k is Eps && l == empty_text() || k is Literal && l == one_of(k->Literal_0)
    ensures stands(single(s, k, t), s, t, l)
{
    let f = single(s, k, t);
    assert forall|c: X, w: Seq<char>, d: X, n: nat| zero(f, c) && #[trigger] trav(f, s, t, c, w, d, n) implies l.contains(w) && eff(f, s, c, d) by {
        let (x, j) = choose|x: X, j: int| first(f, c, w, d, n, x, j);
        let i = choose|i: Input| via(f.edges, i, c, w.take(j), x);
        assert(n == 1);
        assert(w.take(j) =~= w);
    }
    assert forall|c: X, w: Seq<char>| zero(f, c) && c.state == s && l.contains(w) implies #[trigger] travs(f, s, t, c, w) by {
        let d = X { state: t, n: inc(c.n, c.state) };
        assert(w.take(w.len() as int) =~= w);
        assert(via(f.edges, k, c, w, d));
        assert(first(f, c, w, d, 1, d, w.len() as int));
        assert(trav(f, s, t, c, w, d, 1));
    }
}
/// Ways to put parts together.
spec fn beside(f: Frag, g: Frag) -> Frag { Frag { edges: f.edges.union(g.edges), inner: f.inner.union(g.inner) } }
proof fn zero_beside(f: Frag, g: Frag, s: usize, t: usize, u: usize, v: usize, c: X)
    requires shape(f, s, t), shape(g, u, v), f.inner.disjoint(g.inner), !f.inner.contains(u), !g.inner.contains(s)
    ensures zero(beside(f, g), c) <==> zero(f, c) && zero(g, c)
{
    let h = beside(f, g);
    assert forall|k: usize| f.inner.contains(k) implies quant(f.edges, k) == quant(h.edges, k) by { same_quant(f, h, k); }
    assert forall|k: usize| g.inner.contains(k) implies quant(g.edges, k) == quant(h.edges, k) by { same_quant(g, h, k); }
}
proof fn same_quant(f: Frag, h: Frag, k: usize)
    requires forall|e: Edge| e.0 == k ==> (f.edges.contains(e) <==> #[trigger] h.edges.contains(e))
    ensures quant(f.edges, k) == quant(h.edges, k)
{
    if quant(f.edges, k) {
        let (q, b) = choose|q: QuantifierKind, b: usize| f.edges.contains((k, Input::Quantified(q), b));
        assert(h.edges.contains((k, Input::Quantified(q), b)));
    }
    if quant(h.edges, k) {
        let (q, b) = choose|q: QuantifierKind, b: usize| h.edges.contains((k, Input::Quantified(q), b));
        assert(f.edges.contains((k, Input::Quantified(q), b)));
    }
}
proof fn walk_out(f: Frag, c: X, w: Seq<char>, d: X, n: nat)
    requires walk(f, c, w, d, n), !f.inner.contains(c.state)
    ensures n == 0, c == d, w.len() == 0
{}
proof fn sound_half(f: Frag, h: Frag, s: usize, t: usize, l: Lang, c: X, w: Seq<char>, d: X, n: nat, y: X, j: int)
    requires stands(f, s, t, l), leads(h, f, t), !h.inner.contains(t), zero(f, c), c.state == s, d.state == t,
        first(h, c, w, d, n, y, j), hop(f.edges, c, w, j, y),
    ensures l.contains(w), eff(f, s, c, d)
{
    let (i, x, p) = trav_split(h, f, s, t, c, w, d, n, y, j);
    walk_out(h, x, w.skip(i), d, (n - p) as nat);
    assert(w.take(i) =~= w);
    assert(trav(f, s, t, c, w, d, p));
}
proof fn stands_alt(f: Frag, g: Frag, s: usize, t: usize, a: Lang, b: Lang)
    requires stands(f, s, t, a), stands(g, s, t, b), f.inner.disjoint(g.inner)
    ensures stands(beside(f, g), s, t, either(a, b))
{
    let h = beside(f, g);
    let l = either(a, b);
    assert(shape(h, s, t));
    assert(leads(h, f, t));
    assert(leads(h, g, t));
    assert forall|c: X, w: Seq<char>, d: X, n: nat| zero(h, c) && #[trigger] trav(h, s, t, c, w, d, n) implies l.contains(w) && eff(h, s, c, d) by {
        zero_beside(f, g, s, t, s, t, c);
        let (y, j) = choose|y: X, j: int| first(h, c, w, d, n, y, j);
        let k = choose|k: Input| via(h.edges, k, c, w.take(j), y);
        if f.edges.contains((c.state, k, y.state)) {
            assert(via(f.edges, k, c, w.take(j), y));
            sound_half(f, h, s, t, a, c, w, d, n, y, j);
            assert(zero(g, d)) by { assert forall|k: usize| g.inner.contains(k) && quant(g.edges, k) implies #[trigger] (d.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        } else {
            assert(via(g.edges, k, c, w.take(j), y));
            sound_half(g, h, s, t, b, c, w, d, n, y, j);
            assert(zero(f, d)) by { assert forall|k: usize| f.inner.contains(k) && quant(f.edges, k) implies #[trigger] (d.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        }
        zero_beside(f, g, s, t, s, t, d);
    }
    assert forall|c: X, w: Seq<char>| zero(h, c) && c.state == s && l.contains(w) implies #[trigger] travs(h, s, t, c, w) by {
        zero_beside(f, g, s, t, s, t, c);
        if a.contains(w) {
            assert(travs(f, s, t, c, w));
            let (d, n) = choose|d: X, n: nat| trav(f, s, t, c, w, d, n);
            trav_sub(f, h, s, t, c, w, d, n);
        } else {
            assert(travs(g, s, t, c, w));
            let (d, n) = choose|d: X, n: nat| trav(g, s, t, c, w, d, n);
            trav_sub(g, h, s, t, c, w, d, n);
        }
    }
}
spec fn chained(f: Frag, m: usize, g: Frag) -> Frag { Frag { edges: f.edges.union(g.edges), inner: f.inner.union(g.inner).insert(m) } }
proof fn zero_chained(f: Frag, g: Frag, s: usize, m: usize, t: usize, c: X)
    requires shape(f, s, m), shape(g, m, t), f.inner.disjoint(g.inner), s != m, t != m, !g.inner.contains(s), !f.inner.contains(t)
    ensures zero(chained(f, m, g), c) <==> zero(f, c) && zero(g, c)
{
    let h = chained(f, m, g);
    assert forall|k: usize| f.inner.contains(k) implies quant(f.edges, k) == quant(h.edges, k) by { same_quant(f, h, k); }
    assert forall|k: usize| g.inner.contains(k) implies quant(g.edges, k) == quant(h.edges, k) by { same_quant(g, h, k); }
    assert(!quant(h.edges, m));
}
proof fn stands_cat(f: Frag, g: Frag, s: usize, m: usize, t: usize, a: Lang, b: Lang)
    requires stands(f, s, m, a), stands(g, m, t, b), f.inner.disjoint(g.inner), s != m, t != m, !g.inner.contains(s), !f.inner.contains(t)
    ensures stands(chained(f, m, g), s, t, both(a, b))
{
    let h = chained(f, m, g);
    let l = both(a, b);
    assert(shape(h, s, t));
    assert(leads(h, f, m));
    assert(leads(h, g, t));
    assert forall|c: X, w: Seq<char>, d: X, n: nat| zero(h, c) && #[trigger] trav(h, s, t, c, w, d, n) implies l.contains(w) && eff(h, s, c, d) by {
        zero_chained(f, g, s, m, t, c);
        let (y, j) = choose|y: X, j: int| first(h, c, w, d, n, y, j);
        let k = choose|k: Input| via(h.edges, k, c, w.take(j), y);
        assert(!g.edges.contains((c.state, k, y.state)));
        assert(via(f.edges, k, c, w.take(j), y));
        let (i, x, p) = trav_split(h, f, s, m, c, w, d, n, y, j);
        assert(a.contains(w.take(i)) && eff(f, s, c, x));
        assert(zero(g, x)) by { assert forall|k: usize| g.inner.contains(k) && quant(g.edges, k) implies #[trigger] (x.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        let v = w.skip(i);
        let q = (n - p) as nat;
        assert(q > 0);
        let (z, o) = choose|z: X, o: int| #[trigger] hop(h.edges, x, v, o, z) && walk(h, z, v.skip(o), d, (q - 1) as nat);
        let k2 = choose|k: Input| via(h.edges, k, x, v.take(o), z);
        assert(!f.edges.contains((x.state, k2, z.state)));
        assert(via(g.edges, k2, x, v.take(o), z));
        assert(first(h, x, v, d, q, z, o));
        sound_half(g, h, m, t, b, x, v, d, q, z, o);
        assert(cut(a, b, w, i));
        assert(zero(f, d)) by { assert forall|k: usize| f.inner.contains(k) && quant(f.edges, k) implies #[trigger] (d.n)(k) == 0 by { assert((x.n)(k) == 0); } }
        zero_chained(f, g, s, m, t, d);
        assert forall|k: usize| !h.inner.contains(k) implies #[trigger] (d.n)(k) == (c.n)(k) + (if k == s { 1nat } else { 0 }) by { assert((x.n)(k) == (c.n)(k) + (if k == s { 1nat } else { 0 })); }
    }
    assert forall|c: X, w: Seq<char>| zero(h, c) && c.state == s && l.contains(w) implies #[trigger] travs(h, s, t, c, w) by {
        zero_chained(f, g, s, m, t, c);
        let i = choose|i: int| cut(a, b, w, i);
        assert(travs(f, s, m, c, w.take(i)));
        let (x, n) = choose|x: X, n: nat| trav(f, s, m, c, w.take(i), x, n);
        assert(eff(f, s, c, x));
        assert(zero(g, x)) by { assert forall|k: usize| g.inner.contains(k) && quant(g.edges, k) implies #[trigger] (x.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        assert(travs(g, m, t, x, w.skip(i)));
        let (d, p) = choose|d: X, p: nat| trav(g, m, t, x, w.skip(i), d, p);
        trav_walk(g, h, m, t, x, w.skip(i), d, p);
        trav_sub(f, h, s, m, c, w.take(i), x, n);
        trav_join(h, s, t, c, w.take(i), x, w.skip(i), d, n, p);
        assert(w.take(i) + w.skip(i) =~= w);
    }
}
spec fn repeated(g: Frag, s: usize, q: usize, k: QuantifierKind, t: usize) -> Frag {
    Frag { edges: g.edges.insert((s, Input::Eps, q)).insert((q, Input::Quantified(k), t)), inner: g.inner.insert(q) }
}
proof fn zero_repeated(g: Frag, s: usize, q: usize, k: QuantifierKind, t: usize, c: X)
    requires shape(g, q, q), s != q, t != q, !g.inner.contains(s), !g.inner.contains(t)
    ensures zero(repeated(g, s, q, k, t), c) <==> zero(g, c) && (c.n)(q) == 0
{
    let h = repeated(g, s, q, k, t);
    assert forall|j: usize| g.inner.contains(j) implies quant(g.edges, j) == quant(h.edges, j) by { same_quant(g, h, j); }
    assert(h.edges.contains((q, Input::Quantified(k), t)));
    assert(quant(h.edges, q));
}
/// The repetitions from the counting state on.
proof fn sound_loop(g: Frag, s: usize, q: usize, k: QuantifierKind, t: usize, l: Lang, c: X, w: Seq<char>, d: X, n: nat) -> (r: nat)
    requires stands(g, q, q, l), s != q, t != q, !g.inner.contains(s), !g.inner.contains(t), zero(g, c),
        c.state == q, d.state == t, walk(repeated(g, s, q, k, t), c, w, d, n),
    ensures power(l, r).contains(w), satisfied(k, (c.n)(q) + r), zero(g, d), (d.n)(q) == 0,
        forall|j: usize| j != q && !g.inner.contains(j) ==> #[trigger] (d.n)(j) == (c.n)(j),
    decreases n
{
    let h = repeated(g, s, q, k, t);
    let (y, j) = choose|y: X, j: int| #[trigger] hop(h.edges, c, w, j, y) && walk(h, y, w.skip(j), d, (n - 1) as nat);
    let i = choose|i: Input| via(h.edges, i, c, w.take(j), y);
    if g.edges.contains((c.state, i, y.state)) {
        assert(via(g.edges, i, c, w.take(j), y));
        assert(first(h, c, w, d, n, y, j));
        assert(leads(h, g, q));
        let (o, x, p) = trav_split(h, g, q, q, c, w, d, n, y, j);
        assert(l.contains(w.take(o)) && eff(g, q, c, x));
        let r = sound_loop(g, s, q, k, t, l, x, w.skip(o), d, (n - p) as nat);
        assert(cut(l, power(l, r), w, o));
        assert(power(l, (r + 1 - 1) as nat) == power(l, r));
        assert forall|j: usize| j != q && !g.inner.contains(j) implies #[trigger] (d.n)(j) == (c.n)(j) by { assert((x.n)(j) == (c.n)(j)); }
        r + 1
    } else {
        assert(i == Input::Quantified(k) && y.state == t);
        walk_out(h, y, w.skip(j), d, (n - 1) as nat);
        assert(zero(g, d)) by { assert forall|k: usize| g.inner.contains(k) && quant(g.edges, k) implies #[trigger] (d.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        0
    }
}
proof fn complete_loop(g: Frag, s: usize, q: usize, k: QuantifierKind, t: usize, l: Lang, c: X, w: Seq<char>, r: nat) -> (p: (X, nat))
    requires stands(g, q, q, l), s != q, t != q, !g.inner.contains(s), !g.inner.contains(t), zero(g, c),
        c.state == q, power(l, r).contains(w), satisfied(k, (c.n)(q) + r),
    ensures p.0.state == t, walk(repeated(g, s, q, k, t), c, w, p.0, p.1)
    decreases r
{
    let h = repeated(g, s, q, k, t);
    if r == 0 {
        let d = X { state: t, n: reset(c.n, q) };
        assert(via(h.edges, Input::Quantified(k), c, w.take(0), d));
        assert(hop(h.edges, c, w, 0, d));
        assert(walk(h, d, w.skip(0), d, 0));
        assert(walk(h, c, w, d, 1));
        (d, 1)
    } else {
        let b = power(l, (r - 1) as nat);
        let i = choose|i: int| cut(l, b, w, i);
        assert(travs(g, q, q, c, w.take(i)));
        let (x, n) = choose|x: X, n: nat| trav(g, q, q, c, w.take(i), x, n);
        assert(eff(g, q, c, x));
        let (d, m) = complete_loop(g, s, q, k, t, l, x, w.skip(i), (r - 1) as nat);
        trav_walk(g, h, q, q, c, w.take(i), x, n);
        walk_join(h, c, w.take(i), x, w.skip(i), d, n, m);
        assert(w.take(i) + w.skip(i) =~= w);
        (d, n + m)
    }
}
proof fn stands_repeated(g: Frag, s: usize, q: usize, k: QuantifierKind, t: usize, a: Lang)
    requires stands(g, q, q, a), s != q, t != q, !g.inner.contains(s), !g.inner.contains(t),
    ensures stands(repeated(g, s, q, k, t), s, t, times(a, k))
{
    let h = repeated(g, s, q, k, t);
    let l = times(a, k);
    assert(shape(h, s, t));
    assert forall|c: X, w: Seq<char>, d: X, n: nat| zero(h, c) && #[trigger] trav(h, s, t, c, w, d, n) implies l.contains(w) && eff(h, s, c, d) by {
        zero_repeated(g, s, q, k, t, c);
        let (y, j) = choose|y: X, j: int| first(h, c, w, d, n, y, j);
        let i = choose|i: Input| via(h.edges, i, c, w.take(j), y);
        assert(!g.edges.contains((c.state, i, y.state)));
        assert(i == Input::Eps && y.state == q);
        assert(zero(g, y)) by { assert forall|k: usize| g.inner.contains(k) && quant(g.edges, k) implies #[trigger] (y.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        assert(w.skip(j) =~= w);
        let r = sound_loop(g, s, q, k, t, a, y, w, d, (n - 1) as nat);
        assert((y.n)(q) == 0);
        assert(power(a, r).contains(w));
        zero_repeated(g, s, q, k, t, d);
        assert forall|k: usize| !h.inner.contains(k) implies #[trigger] (d.n)(k) == (c.n)(k) + (if k == s { 1nat } else { 0 }) by { assert((d.n)(k) == (y.n)(k)); }
    }
    assert forall|c: X, w: Seq<char>| zero(h, c) && c.state == s && l.contains(w) implies #[trigger] travs(h, s, t, c, w) by {
        zero_repeated(g, s, q, k, t, c);
        let r = choose|n: nat| satisfied(k, n) && #[trigger] power(a, n).contains(w);
        let y = X { state: q, n: inc(c.n, s) };
        assert(zero(g, y)) by { assert forall|k: usize| g.inner.contains(k) && quant(g.edges, k) implies #[trigger] (y.n)(k) == 0 by { assert((c.n)(k) == 0); } }
        let (d, m) = complete_loop(g, s, q, k, t, a, y, w, r);
        assert(via(h.edges, Input::Eps, c, w.take(0), y));
        assert(w.skip(0) =~= w);
        assert(hop(h.edges, c, w, 0, y));
        assert(first(h, c, w, d, m + 1, y, 0));
        assert(trav(h, s, t, c, w, d, m + 1));
    }
}
proof fn both_empty(l: Lang)
    ensures both(empty_text(), l) == l
{
    let b = both(empty_text(), l);
    assert forall|w: Seq<char>| b.contains(w) <==> l.contains(w) by {
        if b.contains(w) {
            let i = choose|i: int| cut(empty_text(), l, w, i);
            assert(w.skip(0) =~= w);
        }
        if l.contains(w) {
            assert(w.skip(0) =~= w);
            assert(w.take(0).len() == 0);
            assert(cut(empty_text(), l, w, 0));
        }
    }
    assert(b =~= l);
}
