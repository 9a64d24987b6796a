// The compiler: the machine it builds accepts what the expressions match.
//@ include frag.vx
//@ include shape.vx
//@ iterfn get_final_state_ids
//@ file pango-lexer/src/fsm/nfa/model.rs
//@ item NfaBuilder noderive
//@ file pango-lexer/src/fsm/nfa/compiler.rs
//@ item Compiler noderive
//@ file pango-lexer/src/regex/ast.rs
//@ item Ast noderive
//@ prelude
impl LiteralKind {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
spec fn edge_of(s: State, k: Input, t: usize) -> bool { s.transitions.map().dom().contains(k) && s.transitions.map()[k].set().contains(t) }
spec fn edges(v: Seq<State>) -> ISet<Edge> { ISet::new(|e: Edge| e.0 < v.len() && edge_of(v[e.0 as int], e.1, e.2)) }
spec fn ids(v: Seq<State>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).id == i }
/// Nothing but transitions and states that are not final is added.
spec fn grown(v: Seq<State>, u: Seq<State>) -> bool {
    &&& ids(u)
    &&& v.len() <= u.len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] u[i]).fin == v[i].fin
    &&& forall|i: int| v.len() <= i < u.len() ==> !(#[trigger] u[i]).fin
}
/// `f` is what is new in `u`.
spec fn added(v: Seq<State>, u: Seq<State>, f: Frag) -> bool {
    &&& grown(v, u)
    &&& edges(u) == edges(v).union(f.edges)
    &&& forall|i: usize| #[trigger] f.inner.contains(i) ==> v.len() <= i < u.len()
}
spec fn compiled(v: Seq<State>, u: Seq<State>, s: usize, t: usize, e: ExprKind) -> bool {
    exists|f: Frag| added(v, u, f) && #[trigger] stands(f, s, t, lang(e))
}
proof fn edges_push(v: Seq<State>, s: State)
    requires s.transitions.map() == Map::<Input, VxSet<usize>>::empty()
    ensures edges(v.push(s)) == edges(v)
{
    assert(edges(v.push(s)) =~= edges(v));
}
/// Consecutive additions.
proof fn added_twice(v: Seq<State>, u: Seq<State>, w: Seq<State>, f: Frag, g: Frag, h: Frag)
    requires added(v, u, f), added(u, w, g), h.edges == f.edges.union(g.edges),
        forall|i: usize| #[trigger] h.inner.contains(i) ==> f.inner.contains(i) || g.inner.contains(i) || v.len() <= i < w.len(),
    ensures added(v, w, h), f.inner.disjoint(g.inner)
{
    assert(edges(w) =~= edges(v).union(h.edges));
}
proof fn compiled_single(v: Seq<State>, u: Seq<State>, s: usize, k: Input, t: usize, e: ExprKind)
    requires grown(v, u), edges(u) == edges(v).insert((s, k, t)), e is Empty && k is Eps || e is Lit && e->Lit_1 is None && k == Input::Literal(e->Lit_0)
    ensures compiled(v, u, s, t, e)
{
    stands_single(s, k, t, lang(e));
    assert(edges(u) =~= edges(v).union(single(s, k, t).edges));
    assert(added(v, u, single(s, k, t)));
}
proof fn compiled_alt(v: Seq<State>, u: Seq<State>, w: Seq<State>, s: usize, t: usize, e: ExprKind)
    requires e is Alt, compiled(v, u, s, t, *e->Alt_0) && compiled(u, w, s, t, *e->Alt_1) || compiled(v, u, s, t, *e->Alt_1) && compiled(u, w, s, t, *e->Alt_0)
    ensures compiled(v, w, s, t, e)
{
    let (a, b) = if compiled(v, u, s, t, *e->Alt_0) && compiled(u, w, s, t, *e->Alt_1) { (*e->Alt_0, *e->Alt_1) } else { (*e->Alt_1, *e->Alt_0) };
    let f = choose|f: Frag| added(v, u, f) && #[trigger] stands(f, s, t, lang(a));
    let g = choose|f: Frag| added(u, w, f) && #[trigger] stands(f, s, t, lang(b));
    added_twice(v, u, w, f, g, beside(f, g));
    stands_alt(f, g, s, t, lang(a), lang(b));
    assert(lang(a).union(lang(b)) =~= lang(e));
    assert(stands(beside(f, g), s, t, lang(e)));
}
/// `g` from the counting state `q` back to it.
proof fn compiled_repeated(v: Seq<State>, u: Seq<State>, w: Seq<State>, s: usize, q: usize, k: QuantifierKind, t: usize, e: ExprKind, l: Lang, g: Frag)
    requires added(u, w, g), stands(g, q, q, l), lang(e) == times(l, k), q == v.len(), s < q, t < q, u.len() == q + 1,
        grown(v, u), edges(u) == edges(v).insert((s, Input::Eps, q)).insert((q, Input::Quantified(k), t)),
    ensures compiled(v, w, s, t, e)
{
    let h = repeated(g, s, q, k, t);
    stands_repeated(g, s, q, k, t, l);
    assert(edges(w) =~= edges(v).union(h.edges));
    assert(added(v, w, h));
}
/// The first `n` parts of a concatenation lead from `s` to `m`.
spec fn part(v: Seq<State>, u: Seq<State>, s: usize, m: usize, e: ExprKind, n: nat) -> bool {
    if n == 0 { u == v && m == s } else { m < u.len() && (exists|f: Frag| added(v, u, f) && !f.inner.contains(m) && #[trigger] stands(f, s, m, cat(e, n))) }
}
proof fn part_next(v: Seq<State>, u: Seq<State>, w: Seq<State>, x: Seq<State>, s: usize, m: usize, t: usize, e: ExprKind, n: nat)
    requires ids(v), s < v.len(), m == s && n == 0 || v.len() <= m && n > 0, part(v, u, s, m, e, n), e is Concat, n < e->Concat_0@.len(),
        w == u || w.len() == u.len() + 1 && grown(u, w) && edges(w) == edges(u),
        w == u ==> t < v.len(), w != u ==> t == u.len(),
        compiled(w, x, m, t, e->Concat_0@[n as int]),
    ensures part(v, x, s, t, e, n + 1)
{
    let b = lang(e->Concat_0@[n as int]);
    let g = choose|g: Frag| added(w, x, g) && #[trigger] stands(g, m, t, b);
    assert(added(u, x, g)) by { assert(edges(x) =~= edges(u).union(g.edges)); }
    assert(cat(e, n + 1) == both(cat(e, n), b));
    if n == 0 {
        both_empty(b);
        assert(added(v, x, g) && stands(g, s, t, cat(e, 1)));
    } else {
        let f = choose|f: Frag| added(v, u, f) && !f.inner.contains(m) && #[trigger] stands(f, s, m, cat(e, n));
        added_twice(v, u, x, f, g, chained(f, m, g));
        stands_cat(f, g, s, m, t, cat(e, n), b);
    }
}
proof fn part_all(v: Seq<State>, u: Seq<State>, s: usize, t: usize, e: ExprKind)
    requires e is Concat, e->Concat_0@.len() > 0, part(v, u, s, t, e, e->Concat_0@.len())
    ensures compiled(v, u, s, t, e)
{
    let f = choose|f: Frag| added(v, u, f) && !f.inner.contains(t) && #[trigger] stands(f, s, t, cat(e, e->Concat_0@.len()));
    assert(stands(f, s, t, lang(e)));
}
proof fn compiled_lit(v: Seq<State>, u: Seq<State>, w: Seq<State>, s: usize, q: usize, k: QuantifierKind, t: usize, e: ExprKind)
    requires e is Lit, e->Lit_1 == Some(k), q == v.len(), s < q, t < q, u.len() == q + 1,
        grown(v, u), edges(u) == edges(v).insert((s, Input::Eps, q)).insert((q, Input::Quantified(k), t)),
        grown(u, w), edges(w) == edges(u).insert((q, Input::Literal(e->Lit_0), q)),
    ensures compiled(v, w, s, t, e)
{
    let i = Input::Literal(e->Lit_0);
    let l = one_of(e->Lit_0);
    stands_single(q, i, q, l);
    assert(edges(w) =~= edges(u).union(single(q, i, q).edges));
    compiled_repeated(v, u, w, s, q, k, t, e, l, single(q, i, q));
}
proof fn compiled_group(v: Seq<State>, u: Seq<State>, w: Seq<State>, s: usize, q: usize, t: usize, e: ExprKind)
    requires e is Group,
        e->Group_1 is None ==> compiled(v, w, s, t, *e->Group_0),
        e->Group_1 is Some ==> q == v.len() && s < q && t < q && u.len() == q + 1 && grown(v, u)
            && edges(u) == edges(v).insert((s, Input::Eps, q)).insert((q, Input::Quantified(e->Group_1->0), t)) && compiled(u, w, q, q, *e->Group_0),
    ensures compiled(v, w, s, t, e)
{
    let l = lang(*e->Group_0);
    if e->Group_1 is None {
        let f = choose|f: Frag| added(v, w, f) && #[trigger] stands(f, s, t, l);
        assert(stands(f, s, t, lang(e)));
    } else {
        let g = choose|f: Frag| added(u, w, f) && #[trigger] stands(f, q, q, l);
        compiled_repeated(v, u, w, s, q, e->Group_1->0, t, e, l, g);
    }
}
/// Every part leads from the first state to the final state of its expression.
spec fn hold(v: Seq<State>, ps: Seq<(StateId, ExprKind)>, fs: Seq<Frag>) -> bool {
    &&& fs.len() == ps.len()
    &&& forall|i: int| 0 <= i < ps.len() ==> stands(#[trigger] fs[i], 0, ps[i].0, lang(ps[i].1)) && 0 < ps[i].0 < v.len() && v[ps[i].0 as int].fin
    &&& forall|i: int, k: usize| 0 <= i < ps.len() && #[trigger] fs[i].inner.contains(k) ==> 0 < k < v.len() && !v[k as int].fin
    &&& forall|i: int, j: int, k: usize| 0 <= i < ps.len() && 0 <= j < ps.len() && i != j && #[trigger] fs[i].inner.contains(k) ==> !#[trigger] fs[j].inner.contains(k)
    &&& forall|e: Edge| #[trigger] edges(v).contains(e) <==> some_has(fs, e)
}
spec fn some_has(fs: Seq<Frag>, e: Edge) -> bool { exists|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).edges.contains(e) }
spec fn holds(v: Seq<State>, ps: Seq<(StateId, ExprKind)>) -> bool { exists|fs: Seq<Frag>| hold(v, ps, fs) }
/// What a machine for expressions with their final states accepts.
spec fn matched(ps: Seq<(StateId, ExprKind)>, h: Seq<char>, s: StateId) -> bool {
    exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == s && lang(ps[i].1).contains(h)
}
spec fn means(nfa: Nfa, ps: Seq<(StateId, ExprKind)>) -> bool {
    forall|h: Seq<char>, s: StateId| #[trigger] at(nfa, h, s) <==> matched(ps, h, s)
}
impl Compiler {
    spec fn wf(&self) -> bool {
        &&& ids(self.nfa.states@)
        &&& self.nfa.start_state == 0
        &&& 0 < self.final_state < self.nfa.states@.len()
        &&& !self.nfa.states@[0].fin
        &&& self.nfa.states@[self.final_state as int].fin
        &&& forall|e: Edge| #[trigger] edges(self.nfa.states@).contains(e) ==> e.2 < self.nfa.states@.len()
    }
}
proof fn hold_more(v: Seq<State>, u: Seq<State>, ps: Seq<(StateId, ExprKind)>)
    requires edges(u) == edges(v), v.len() <= u.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] u[i]).fin == v[i].fin, holds(v, ps)
    ensures holds(u, ps)
{
    let fs = choose|fs: Seq<Frag>| hold(v, ps, fs);
    assert(hold(u, ps, fs));
}
proof fn hold_push(v: Seq<State>, u: Seq<State>, ps: Seq<(StateId, ExprKind)>, t: usize, e: ExprKind)
    requires holds(v, ps), compiled(v, u, 0, t, e), 0 < t < v.len(), v[t as int].fin
    ensures holds(u, ps.push((t, e)))
{
    let fs = choose|fs: Seq<Frag>| hold(v, ps, fs);
    assert(hold(v, ps, fs));
    let f = choose|f: Frag| added(v, u, f) && #[trigger] stands(f, 0, t, lang(e));
    let gs = fs.push(f);
    let qs = ps.push((t, e));
    assert forall|x: Edge| #[trigger] edges(u).contains(x) <==> some_has(gs, x) by {
        if edges(v).contains(x) {
            let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).edges.contains(x);
            assert(gs[i].edges.contains(x));
        } else if f.edges.contains(x) {
            assert(gs[fs.len() as int].edges.contains(x));
        } else if some_has(gs, x) {
            let i = choose|i: int| 0 <= i < gs.len() && (#[trigger] gs[i]).edges.contains(x);
            assert(fs[i].edges.contains(x));
            assert(some_has(fs, x));
        }
    }
    assert forall|i: int| 0 <= i < qs.len() implies stands(#[trigger] gs[i], 0, qs[i].0, lang(qs[i].1)) && 0 < qs[i].0 < u.len() && u[qs[i].0 as int].fin by {
        if i < ps.len() { assert(gs[i] == fs[i] && qs[i] == ps[i]); assert(v[ps[i].0 as int].fin); } else { assert(gs[i] == f && qs[i] == (t, e)); }
    }
    assert forall|i: int, k: usize| 0 <= i < qs.len() && #[trigger] gs[i].inner.contains(k) implies 0 < k < u.len() && !u[k as int].fin by {
        if i < ps.len() { assert(gs[i] == fs[i]); assert(fs[i].inner.contains(k)); assert(!v[k as int].fin); } else { assert(gs[i] == f); assert(f.inner.contains(k)); }
    }
    assert forall|i: int, j: int, k: usize| 0 <= i < qs.len() && 0 <= j < qs.len() && i != j && #[trigger] gs[i].inner.contains(k) implies !#[trigger] gs[j].inner.contains(k) by {
        if i < ps.len() { assert(gs[i] == fs[i]); assert(fs[i].inner.contains(k)); assert(k < v.len()); } else { assert(gs[i] == f); assert(f.inner.contains(k)); assert(v.len() <= k); }
        if gs[j].inner.contains(k) {
            if j < ps.len() { assert(gs[j] == fs[j]); assert(fs[j].inner.contains(k)); assert(k < v.len()); } else { assert(gs[j] == f); assert(f.inner.contains(k)); assert(v.len() <= k); }
            if i < ps.len() { assert(j < ps.len()); assert(!fs[j].inner.contains(k)); }
        }
    }
    assert(hold(u, qs, gs));
}

// The counts of the machine are those of the one without limits.
spec fn max_in(d: Set<Input>, q: QuantifierKind) -> bool {
    d.contains(Input::Quantified(q)) && forall|p: QuantifierKind| #[trigger] d.contains(Input::Quantified(p)) ==> q_limit(p) <= q_limit(q)
}
proof fn max_exists(d: Set<Input>, q: QuantifierKind) -> (m: QuantifierKind)
    requires d.contains(Input::Quantified(q))
    ensures max_in(d, m)
    decreases d.len()
{
    if max_in(d, q) { q } else {
        let p = choose|p: QuantifierKind| #[trigger] d.contains(Input::Quantified(p)) && q_limit(p) > q_limit(q);
        let d2 = d.remove(Input::Quantified(q));
        let m = max_exists(d2, p);
        assert(d2.contains(Input::Quantified(m)));
        assert(d2.contains(Input::Quantified(p)));
        assert forall|o: QuantifierKind| #[trigger] d.contains(Input::Quantified(o)) implies q_limit(o) <= q_limit(m) by {
            if o != q { assert(d2.contains(Input::Quantified(o))); }
        }
        m
    }
}
proof fn limit_exists(s: State, q: QuantifierKind)
    requires s.transitions.map().dom().contains(Input::Quantified(q))
    ensures limit(s).is_some(), q_limit(q) <= limit(s).unwrap()
{
    let m = max_exists(s.transitions.map().dom(), q);
    assert(is_limit(s, q_limit(m) as usize));
    limit_is(s, q_limit(m) as usize);
}
spec fn cnt(c: Cfg, k: usize) -> usize { if c.counts.dom().contains(k) { c.counts[k] } else { 0 } }
spec fn rel(nfa: Nfa, c: Cfg, x: X) -> bool {
    &&& c.state == x.state
    &&& c.state < nfa.states@.len()
    &&& forall|k: usize| k < nfa.states@.len() && nfa.limit(k as int).is_some() ==> #[trigger] cnt(c, k) == (if (x.n)(k) < nfa.limit(k as int).unwrap() { (x.n)(k) } else { nfa.limit(k as int).unwrap() as nat })
}
proof fn sat_same(q: QuantifierKind, n: nat, l: nat)
    requires l >= q_limit(q)
    ensures satisfied(q, n) == satisfied(q, if n < l { n } else { l })
{}
spec fn whole(nfa: Nfa) -> Frag { Frag { edges: edges(nfa.states@), inner: ISet::full() } }
spec fn x0() -> X { X { state: 0, n: |k: usize| 0 } }
proof fn rel_left(nfa: Nfa, c: Cfg, x: X, to: usize, quantified: bool)
    requires nfa.wf(), rel(nfa, c, x), to < nfa.states@.len()
    ensures rel(nfa, left(nfa.limit(c.state as int), c, to, quantified), X { state: to, n: if quantified { reset(x.n, x.state) } else { inc(x.n, x.state) } })
{
    let d = left(nfa.limit(c.state as int), c, to, quantified);
    let y = X { state: to, n: if quantified { reset(x.n, x.state) } else { inc(x.n, x.state) } };
    assert forall|k: usize| k < nfa.states@.len() && nfa.limit(k as int).is_some() implies #[trigger] cnt(d, k) == (if (y.n)(k) < nfa.limit(k as int).unwrap() { (y.n)(k) } else { nfa.limit(k as int).unwrap() as nat }) by {
        assert(cnt(c, k) == (if (x.n)(k) < nfa.limit(k as int).unwrap() { (x.n)(k) } else { nfa.limit(k as int).unwrap() as nat }));
        assert(count(c) == cnt(c, c.state));
    }
}
proof fn eps_step_x(nfa: Nfa, c: Cfg, d: Cfg, x: X) -> (y: X)
    requires nfa.wf(), rel(nfa, c, x), eps(nfa, c, d)
    ensures rel(nfa, d, y), step(edges(nfa.states@), x, Seq::empty(), y)
{
    let (to, quantified) = choose|to: StateId, quantified: bool| #[trigger] free(nfa, c, to, quantified) && d == left(nfa.limit(c.state as int), c, to, quantified);
    let y = X { state: to, n: if quantified { reset(x.n, x.state) } else { inc(x.n, x.state) } };
    if quantified {
        let q = choose|q: QuantifierKind| #[trigger] nfa.edge(c.state as int, Input::Quantified(q), to) && satisfied(q, count(c) as nat);
        limit_exists(nfa.states@[c.state as int], q);
        assert(count(c) == cnt(c, c.state));
        sat_same(q, (x.n)(x.state), nfa.limit(c.state as int).unwrap() as nat);
        assert(edges(nfa.states@).contains((x.state, Input::Quantified(q), to)));
        assert(via(edges(nfa.states@), Input::Quantified(q), x, Seq::empty(), y));
    } else {
        assert(nfa.edge(c.state as int, Input::Eps, to));
        assert(edges(nfa.states@).contains((x.state, Input::Eps, to)));
        assert(via(edges(nfa.states@), Input::Eps, x, Seq::empty(), y));
    }
    rel_left(nfa, c, x, to, quantified);
    y
}
proof fn lit_step_x(nfa: Nfa, c: Cfg, ch: char, d: Cfg, x: X) -> (y: X)
    requires nfa.wf(), rel(nfa, c, x), lit(nfa, c, ch, d)
    ensures rel(nfa, d, y), step(edges(nfa.states@), x, seq![ch], y)
{
    let to = choose|to: StateId| #[trigger] reads(nfa, c, ch, to) && d == left(nfa.limit(c.state as int), c, to, false);
    let l = choose|l: LiteralKind| #[trigger] nfa.edge(c.state as int, Input::Literal(l), to) && in_literal(l, ch);
    let y = X { state: to, n: inc(x.n, x.state) };
    assert(edges(nfa.states@).contains((x.state, Input::Literal(l), to)));
    assert(via(edges(nfa.states@), Input::Literal(l), x, seq![ch], y));
    rel_left(nfa, c, x, to, false);
    y
}
proof fn x_step(nfa: Nfa, c: Cfg, x: X, w: Seq<char>, y: X) -> (d: Cfg)
    requires nfa.wf(), rel(nfa, c, x), step(edges(nfa.states@), x, w, y)
    ensures rel(nfa, d, y), w.len() <= 1, w.len() == 0 ==> eps(nfa, c, d), w.len() == 1 ==> lit(nfa, c, w[0], d)
{
    let k = choose|k: Input| via(edges(nfa.states@), k, x, w, y);
    assert(edges(nfa.states@).contains((x.state, k, y.state)));
    assert(nfa.edge(c.state as int, k, y.state));
    let to = y.state;
    match k {
        Input::Quantified(q) => {
            limit_exists(nfa.states@[c.state as int], q);
            assert(count(c) == cnt(c, c.state));
            sat_same(q, (x.n)(x.state), nfa.limit(c.state as int).unwrap() as nat);
            rel_left(nfa, c, x, to, true);
            assert(free(nfa, c, to, true));
            left(nfa.limit(c.state as int), c, to, true)
        }
        Input::Eps => {
            rel_left(nfa, c, x, to, false);
            assert(free(nfa, c, to, false));
            left(nfa.limit(c.state as int), c, to, false)
        }
        Input::Literal(l) => {
            rel_left(nfa, c, x, to, false);
            assert(reads(nfa, c, w[0], to));
            left(nfa.limit(c.state as int), c, to, false)
        }
    }
}
proof fn walk_one(f: Frag, c: X, w: Seq<char>, d: X)
    requires step(f.edges, c, w, d), f.inner.contains(c.state)
    ensures walk(f, c, w, d, 1)
{
    let j = w.len() as int;
    assert(w.take(j) =~= w);
    assert(hop(f.edges, c, w, j, d));
    assert(walk(f, d, w.skip(j), d, 0));
}
proof fn walk_last(f: Frag, c: X, w: Seq<char>, d: X, n: nat) -> (r: (X, int))
    requires walk(f, c, w, d, n), n > 0
    ensures 0 <= r.1 <= w.len(), walk(f, c, w.take(r.1), r.0, (n - 1) as nat), step(f.edges, r.0, w.skip(r.1), d)
    decreases n
{
    let (x, j) = choose|x: X, j: int| #[trigger] hop(f.edges, c, w, j, x) && walk(f, x, w.skip(j), d, (n - 1) as nat);
    if n == 1 {
        assert(w.take(j) =~= w);
        assert(w.skip(0) =~= w);
        (c, 0)
    } else {
        let (y, i) = walk_last(f, x, w.skip(j), d, (n - 1) as nat);
        assert(w.skip(j).take(i) =~= w.take(j + i).skip(j));
        assert(w.take(j + i).take(j) =~= w.take(j));
        assert(w.skip(j).skip(i) =~= w.skip(j + i));
        assert(hop(f.edges, c, w.take(j + i), j, x));
        (y, j + i)
    }
}
proof fn star_walk(nfa: Nfa, a: Cfg, b: Cfg, k: nat, h: Seq<char>, x: X, n: nat) -> (r: (X, nat))
    requires nfa.wf(), eps_n(nfa, a, b, k), rel(nfa, a, x), walk(whole(nfa), x0(), h, x, n)
    ensures rel(nfa, b, r.0), walk(whole(nfa), x0(), h, r.0, r.1)
    decreases k
{
    if k == 0 { (x, n) } else {
        let m = choose|m: Cfg| eps_n(nfa, a, m, (k - 1) as nat) && #[trigger] eps(nfa, m, b);
        let (y, p) = star_walk(nfa, a, m, (k - 1) as nat, h, x, n);
        let z = eps_step_x(nfa, m, b, y);
        walk_one(whole(nfa), y, Seq::empty(), z);
        walk_join(whole(nfa), x0(), h, y, Seq::empty(), z, p, 1);
        assert(h + Seq::<char>::empty() =~= h);
        (z, p + 1)
    }
}
proof fn reach_walk(nfa: Nfa, h: Seq<char>, c: Cfg) -> (r: (X, nat))
    requires nfa.wf(), nfa.start_state == 0, reach(nfa, h, c)
    ensures rel(nfa, c, r.0), walk(whole(nfa), x0(), h, r.0, r.1)
    decreases h.len()
{
    if h.len() == 0 {
        let k = choose|n: nat| eps_n(nfa, nfa.init(), c, n);
        star_walk(nfa, nfa.init(), c, k, h, x0(), 0)
    } else {
        let (a, b) = choose|a: Cfg, b: Cfg| #![trigger lit(nfa, a, h.last(), b), eps_star(nfa, b, c)] reach(nfa, h.drop_last(), a) && lit(nfa, a, h.last(), b) && eps_star(nfa, b, c);
        let (x, n) = reach_walk(nfa, h.drop_last(), a);
        let y = lit_step_x(nfa, a, h.last(), b, x);
        walk_one(whole(nfa), x, seq![h.last()], y);
        walk_join(whole(nfa), x0(), h.drop_last(), x, seq![h.last()], y, n, 1);
        assert(h.drop_last() + seq![h.last()] =~= h);
        let k = choose|n: nat| eps_n(nfa, b, c, n);
        star_walk(nfa, b, c, k, h, y, n + 1)
    }
}
proof fn reach_eps_step(nfa: Nfa, a: Cfg, b: Cfg, c: Cfg)
    requires eps_star(nfa, a, b), eps(nfa, b, c)
    ensures eps_star(nfa, a, c)
{
    let n = choose|n: nat| eps_n(nfa, a, b, n);
    assert(eps_n(nfa, a, c, n + 1));
}
proof fn reach_eps(nfa: Nfa, h: Seq<char>, c: Cfg, d: Cfg)
    requires reach(nfa, h, c), eps(nfa, c, d)
    ensures reach(nfa, h, d)
{
    if h.len() == 0 {
        reach_eps_step(nfa, nfa.init(), c, d);
    } else {
        let (a, b) = choose|a: Cfg, b: Cfg| #![trigger lit(nfa, a, h.last(), b), eps_star(nfa, b, c)] reach(nfa, h.drop_last(), a) && lit(nfa, a, h.last(), b) && eps_star(nfa, b, c);
        reach_eps_step(nfa, b, c, d);
        assert(lit(nfa, a, h.last(), b) && eps_star(nfa, b, d));
    }
}
proof fn walk_reach(nfa: Nfa, h: Seq<char>, x: X, n: nat) -> (c: Cfg)
    requires nfa.wf(), nfa.start_state == 0, walk(whole(nfa), x0(), h, x, n)
    ensures rel(nfa, c, x), reach(nfa, h, c)
    decreases n
{
    if n == 0 {
        assert(eps_n(nfa, nfa.init(), nfa.init(), 0));
        nfa.init()
    } else {
        let (y, i) = walk_last(whole(nfa), x0(), h, x, n);
        let a = walk_reach(nfa, h.take(i), y, (n - 1) as nat);
        let c = x_step(nfa, a, y, h.skip(i), x);
        if h.skip(i).len() == 0 {
            assert(h.take(i) =~= h);
            reach_eps(nfa, h, a, c);
        } else {
            assert(h.take(i) =~= h.drop_last());
            assert(h.skip(i)[0] == h.last());
            assert(eps_n(nfa, c, c, 0));
            assert(lit(nfa, a, h.last(), c) && eps_star(nfa, c, c));
        }
        c
    }
}
proof fn nfa_means(nfa: Nfa, ps: Seq<(StateId, ExprKind)>)
    requires nfa.wf(), nfa.start_state == 0, !nfa.states@[0].fin, holds(nfa.states@, ps)
    ensures means(nfa, ps)
{
    let fs = choose|fs: Seq<Frag>| hold(nfa.states@, ps, fs);
    let all = whole(nfa);
    assert forall|h: Seq<char>, s: StateId| #[trigger] at(nfa, h, s) implies matched(ps, h, s) by {
        let c = choose|c: Cfg| #[trigger] reach(nfa, h, c) && c.state == s;
        let (x, n) = reach_walk(nfa, h, c);
        assert(n > 0);
        let (y, j) = choose|y: X, j: int| #[trigger] hop(all.edges, x0(), h, j, y) && walk(all, y, h.skip(j), x, (n - 1) as nat);
        let k = choose|k: Input| via(all.edges, k, x0(), h.take(j), y);
        assert(some_has(fs, (0, k, y.state)));
        let i = choose|i: int| 0 <= i < fs.len() && (#[trigger] fs[i]).edges.contains((0, k, y.state));
        let f = fs[i];
        let t = ps[i].0;
        assert(via(f.edges, k, x0(), h.take(j), y));
        assert(leads(all, f, t)) by {
            assert forall|e: Edge| #[trigger] all.edges.contains(e) && f.inner.contains(e.0) implies f.edges.contains(e) && (e.2 == t || f.inner.contains(e.2)) by {
                let m = choose|m: int| 0 <= m < fs.len() && (#[trigger] fs[m]).edges.contains(e);
                assert(fs[i].inner.contains(e.0));
                if m != i { assert(!fs[m].inner.contains(e.0)); assert(stands(fs[m], 0, ps[m].0, lang(ps[m].1))); }
            }
        }
        assert(first(all, x0(), h, x, n, y, j));
        let (o, z, p) = trav_split(all, f, 0, t, x0(), h, x, n, y, j);
        let m = (n - p) as nat;
        if m > 0 {
            let (u, v) = choose|u: X, v: int| #[trigger] hop(all.edges, z, h.skip(o), v, u) && walk(all, u, h.skip(o).skip(v), x, (m - 1) as nat);
            let b = choose|b: Input| via(all.edges, b, z, h.skip(o).take(v), u);
            assert(all.edges.contains((z.state, b, u.state)));
            let a = choose|a: int| 0 <= a < fs.len() && (#[trigger] fs[a]).edges.contains((z.state, b, u.state));
            assert(stands(fs[a], 0, ps[a].0, lang(ps[a].1)));
            assert(false);
        }
        assert(h.take(o) =~= h);
        assert(trav(f, 0, t, x0(), h, x, p));
        assert(lang(ps[i].1).contains(h));
    }
    assert forall|h: Seq<char>, s: StateId| matched(ps, h, s) implies #[trigger] at(nfa, h, s) by {
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == s && lang(ps[i].1).contains(h);
        let f = fs[i];
        assert(stands(fs[i], 0, ps[i].0, lang(ps[i].1)));
        assert(travs(f, 0, s, x0(), h));
        let (d, n) = choose|d: X, n: nat| trav(f, 0, s, x0(), h, d, n);
        assert(within(f, all)) by {
            assert forall|e: Edge| f.edges.contains(e) implies #[trigger] all.edges.contains(e) by { assert(fs[i].edges.contains(e)); assert(some_has(fs, e)); }
        }
        trav_walk(f, all, 0, s, x0(), h, d, n);
        let c = walk_reach(nfa, h, d, n);
    }
}
//@ file pango-lexer/src/fsm/nfa/model.rs
//@ impl State
//@ fn State::new
ensures r.id == id, r.fin == fin, r.transitions == transitions,
//@ fn State::with_id
ensures r.id == id, r.fin == fin, r.transitions.map() == Map::<Input, VxSet<usize>>::empty(),
//@ end
//@ impl NfaBuilder
//@ fn NfaBuilder::new
ensures r.start_state == 0, r.states@.len() == 1, ids(r.states@), r.states@[0].fin == start_state_final, edges(r.states@) == ISet::<Edge>::empty(),
//@ fn NfaBuilder::new_state_id
ensures r == self.states@.len(),
//@ fn NfaBuilder::add_state
requires ids(old(self).states@),
ensures r == old(self).states@.len(), final(self).states@.len() == r + 1, final(self).start_state == old(self).start_state,
    ids(final(self).states@), final(self).states@[r as int].fin == fin,
    forall|i: int| 0 <= i < r ==> #[trigger] final(self).states@[i] == old(self).states@[i],
    edges(final(self).states@) == edges(old(self).states@),
//@ fn NfaBuilder::get_state_mut
requires ids(old(self).states@), state_id < old(self).states@.len(),
ensures *r == old(self).states@[state_id as int], final(self).states@ == old(self).states@.update(state_id as int, *final(r)),
    final(self).start_state == old(self).start_state,
//@ attr #[verifier::loop_isolation(true)]
//@ loop 0
invariant_except_break vx_r1.is_none(), vx_n1 == vx_it0.pos(), vx_n1 <= state_id,
invariant ids(vx_s), state_id < vx_s.len(), vx_s0.len() == vx_s.len(), forall|i: int| 0 <= i < vx_s.len() ==> *#[trigger] vx_s0[i] == vx_s[i],
ensures vx_r1 == Some(state_id),
//@ at start
let ghost vx_s = self.states@;
//@ fn NfaBuilder::add_transition
requires ids(old(self).states@), start < old(self).states@.len(),
ensures final(self).start_state == old(self).start_state, final(self).states@.len() == old(self).states@.len(), grown(old(self).states@, final(self).states@),
    edges(final(self).states@) == edges(old(self).states@).insert((start, input, end)),
    forall|i: int| 0 <= i < old(self).states@.len() && i != start ==> #[trigger] final(self).states@[i] == old(self).states@[i],
//@ fn NfaBuilder::add_quantified_state
requires ids(old(self).states@),
ensures r == old(self).states@.len(), final(self).states@.len() == r + 1, final(self).start_state == old(self).start_state,
    ids(final(self).states@), final(self).states@[r as int].fin == fin,
    forall|i: int| 0 <= i < r ==> #[trigger] final(self).states@[i] == old(self).states@[i],
    edges(final(self).states@) == edges(old(self).states@).insert((r, Input::Quantified(quantifier), quantifier_done)),
//@ fn NfaBuilder::get_final_state_ids
//@ sig fn get_final_state_ids(&self) -> VxIt<StateId>
requires ids(self.states@),
ensures r.pos() == 0, self.states@.len() == 2 && !self.states@[0].fin && self.states@[1].fin ==> r.seq() == seq![1usize],
//@ loop 0
invariant self.states@.len() == 2 && !self.states@[0].fin && self.states@[1].fin ==> vx_out1.seq() == (if vx_it0.pos() == 2 { seq![1usize] } else { Seq::<usize>::empty() }), vx_out1.pos() == 0,
//@ at loop 0 after
proof { assert(seq![1usize] =~= Seq::<usize>::empty().push(1)); }
//@ fn NfaBuilder::with_state
requires ids(self.states@),
ensures r.start_state == self.start_state, r.states@.len() == self.states@.len() + 1, ids(r.states@), r.states@.last().fin == fin,
    forall|i: int| 0 <= i < self.states@.len() ==> #[trigger] r.states@[i] == self.states@[i],
    edges(r.states@) == edges(self.states@),
//@ fn NfaBuilder::build
requires ids(self.states@), self.start_state < self.states@.len(),
    forall|e: Edge| #[trigger] edges(self.states@).contains(e) ==> e.2 < self.states@.len(),
ensures r.states == self.states, r.start_state == self.start_state,
//@ loop 0
invariant forall|i: usize| i < vx_it0.pos() ==> #[trigger] vx_r1.0.set().contains(i),
    forall|i: usize| #[trigger] vx_r1.1.set().contains(i) ==> i < self.states@.len(),
//@ loop 1
invariant forall|i: usize| #[trigger] destination_ids.set().contains(i) ==> i < self.states@.len(),
//@ loop 2
invariant forall|i: usize| #[trigger] destination_ids.set().contains(i) ==> i < self.states@.len(),
//@ at loop 2 start
proof {
    let k = choose|k: Input| #[trigger] transitions.map().dom().contains(k) && transitions.map()[k] == *vx_x1;
    assert(vx_x1.set().contains((*vx_x2).key()));
    let i = (vx_it0.pos() - 1) as usize;
    assert(self.states@[i as int].transitions == *transitions);
    assert(edges(self.states@).contains((i, k, *vx_x2)));
}
//@ end
//@ impl Nfa
//@ fn Nfa::builder
ensures r.start_state == 0, r.states@.len() == 1, ids(r.states@), r.states@[0].fin == start_state_final, edges(r.states@) == ISet::<Edge>::empty(),
//@ end
//@ file pango-lexer/src/fsm/nfa/compiler.rs
//@ impl Compiler
//@ fn Compiler::new
ensures r.wf(), holds(r.nfa.states@, Seq::empty()), r.final_state == 1,
//@ at end
proof {
    let fs = Seq::<Frag>::empty();
    assert(hold(vx_tail.nfa.states@, Seq::empty(), fs));
}
//@ fn Compiler::new_final
requires old(self).wf(),
ensures final(self).wf(), r == old(self).nfa.states@.len(), final(self).final_state == r, final(self).nfa.states@.len() == r + 1,
    forall|ps: Seq<(StateId, ExprKind)>| holds(old(self).nfa.states@, ps) ==> #[trigger] holds(final(self).nfa.states@, ps),
//@ at end
proof {
    assert forall|ps: Seq<(StateId, ExprKind)>| holds(old(self).nfa.states@, ps) implies #[trigger] holds(self.nfa.states@, ps) by { hold_more(old(self).nfa.states@, self.nfa.states@, ps); }
}
//@ fn Compiler::with_expression
requires self.wf(), nonempty(expr.0),
ensures r.wf(), r.final_state == self.final_state,
    forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(self.nfa.states@, ps) ==> holds(r.nfa.states@, ps.push((self.final_state, expr.0))),
//@ at end
proof {
    assert forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(self.nfa.states@, ps) implies holds(vx_self.nfa.states@, ps.push((self.final_state, expr.0))) by {
        if compiled(self.nfa.states@, vx_self.nfa.states@, self.nfa.start_state, self.final_state, expr.0) { hold_push(self.nfa.states@, vx_self.nfa.states@, ps, self.final_state, expr.0); }
    }
}
//@ fn Compiler::add_expression
requires old(self).wf(), nonempty(expr.0),
ensures final(self).wf(), final(self).final_state == old(self).final_state, final(self).nfa.states@.len() >= old(self).nfa.states@.len(),
    forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(old(self).nfa.states@, ps) ==> holds(final(self).nfa.states@, ps.push((old(self).final_state, expr.0))),
//@ at end
proof {
    assert forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(old(self).nfa.states@, ps) implies holds(self.nfa.states@, ps.push((old(self).final_state, expr.0))) by {
        hold_push(old(self).nfa.states@, self.nfa.states@, ps, old(self).final_state, expr.0);
    }
}
//@ fn Compiler::compile
requires self.wf(),
ensures r.wf(), forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(self.nfa.states@, ps) ==> means(r, ps),
//@ at end
proof {
    assert(vx_tail.wf()) by {
        assert forall|i: int, k: Input, t: StateId| 0 <= i < vx_tail.states@.len() && #[trigger] vx_tail.edge(i, k, t) implies t < vx_tail.states@.len() by {
            assert(edges(self.nfa.states@).contains((i as usize, k, t)));
        }
    }
    assert forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(self.nfa.states@, ps) implies means(vx_tail, ps) by { nfa_means(vx_tail, ps); }
}
//@ fn Compiler::insert_quantifier_state
requires ids(old(self).nfa.states@), start_state < old(self).nfa.states@.len(),
ensures final(self).final_state == old(self).final_state, final(self).nfa.start_state == old(self).nfa.start_state,
    r == old(self).nfa.states@.len(), final(self).nfa.states@.len() == r + 1, grown(old(self).nfa.states@, final(self).nfa.states@),
    edges(final(self).nfa.states@) == edges(old(self).nfa.states@).insert((start_state, Input::Eps, r)).insert((r, Input::Quantified(quantifier), end_state)),
//@ fn Compiler::expr
requires ids(old(self).nfa.states@), start < old(self).nfa.states@.len(), end < old(self).nfa.states@.len(), nonempty(*expr),
ensures final(self).final_state == old(self).final_state, final(self).nfa.start_state == old(self).nfa.start_state,
    compiled(old(self).nfa.states@, final(self).nfa.states@, start, end, *expr),
decreases expr,
//@ at start
let ghost e0 = *expr;
let ghost v0 = self.nfa.states@;
let ghost s0 = start;
let ghost t0 = end;
let ghost mut u = v0;
let ghost mut w = v0;
//@ loop 0
invariant self.final_state == old(self).final_state, self.nfa.start_state == old(self).nfa.start_state,
    ids(self.nfa.states@), part(v0, self.nfa.states@, start, current_state, e0, vx_it0.pos() as nat), grown(v0, self.nfa.states@),
    current_state == start && vx_it0.pos() == 0 || v0.len() <= current_state < self.nfa.states@.len() && vx_it0.pos() > 0,
//@ at loop 0 start
proof { u = self.nfa.states@; }
//@ at call expr 0 before
proof { w = self.nfa.states@; }
//@ at call expr 0 after
proof { part_next(v0, u, w, self.nfa.states@, start, current_state, new_state, e0, (vx_it0.pos() - 1) as nat); }
//@ at call expr 1 before
proof { u = self.nfa.states@; }
//@ at call expr 1 after
proof { part_next(v0, u, u, self.nfa.states@, start, current_state, end, e0, (exprs@.len() - 1) as nat); part_all(v0, self.nfa.states@, start, end, e0); }
//@ at call insert_quantifier_state 0 after
proof { u = self.nfa.states@; }
//@ at call insert_quantifier_state 1 after
proof { u = self.nfa.states@; }
//@ at call add_transition 1 after
proof {
    match *quantifier {
        Some(k) => compiled_lit(v0, u, self.nfa.states@, s0, start, k, t0, e0),
        None => compiled_single(v0, self.nfa.states@, s0, Input::Literal(*lit), t0, e0),
    }
}
//@ at call expr 4 after
proof { compiled_group(v0, u, self.nfa.states@, s0, start, t0, e0); }
//@ at end
proof { if e0 is Empty { compiled_single(v0, self.nfa.states@, s0, Input::Eps, t0, e0); } }
//@ at call expr 3 before
proof { u = self.nfa.states@; }
//@ at call expr 3 after
proof { compiled_alt(v0, u, self.nfa.states@, start, end, e0); }
//@ end
//@ prelude
/// All expressions with the same final state.
spec fn same_final(es: Seq<Ast>) -> Seq<(StateId, ExprKind)> { es.map_values(|e: Ast| (1usize, e.0)) }
//@ impl Nfa
//@ fn From<Ast> for Nfa::from as=from_ast
requires nonempty(value.0),
ensures r.wf(), means(r, seq![(1usize, value.0)]),
//@ at start
proof { assert(Seq::<(StateId, ExprKind)>::empty().push((1usize, value.0)) =~= seq![(1usize, value.0)]); }
//@ fn From<Vec<Ast>> for Nfa::from as=from_asts
requires forall|i: int| 0 <= i < value@.len() ==> nonempty((#[trigger] value@[i]).0),
ensures r.wf(), means(r, same_final(value@)),
//@ loop 0
invariant vx_r1.wf(), vx_r1.final_state == 1, holds(vx_r1.nfa.states@, same_final(value@.take(vx_it0.pos()))),
//@ at loop 0 start
proof { assert(same_final(value@.take(vx_it0.pos())) =~= same_final(value@.take(vx_it0.pos() - 1)).push((1usize, vx_x0.0))); }
//@ at loop 0 before
proof { assert(same_final(value@.take(0)) =~= Seq::empty()); }
//@ at loop 0 after
proof { assert(value@.take(vx_it0.pos()) =~= value@); }
//@ end
