// The parser follows every derivation of its input.
//@ include-proved slr.vx
//@ include derive.vx
//@ file pango-parser/src/parser/slr.rs
//@ prelude
/// A rule that is being read, and what the rest of it derives, with `n` variables;
/// `pos` is the place on the stack up to which it has been read.
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(T)]
ghost struct Frame<V, T: VxAtom> { item: VItem<V, T>, pos: int, w: Seq<T::TK>, n: nat }
/// What is left to be read, from the innermost rule outwards.
spec fn rem<V: VxVar, T: VxAtom>(fs: Seq<Frame<V, T>>) -> Seq<T::TK>
    decreases fs.len(),
{
    if fs.len() == 0 { seq![] } else { fs.last().w + rem(fs.drop_last()) }
}
/// How much there is to do.
spec fn pot<V: VxVar, T: VxAtom>(fs: Seq<Frame<V, T>>) -> nat
    decreases fs.len(),
{
    if fs.len() == 0 { 0 } else { (2 * fs.last().n + 1 + pot(fs.drop_last())) as nat }
}
spec fn first_key<K>(w: Seq<K>) -> Option<K> { if w.len() > 0 { Some(w[0]) } else { None } }
spec fn frame_ok<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>, i: int) -> bool {
    let f = fs[i];
    &&& 0 <= f.pos < ss.len() && 0 <= ss[f.pos] < sets(c).len() && sets(c)[ss[f.pos] as int].contains(f.item)
    &&& f.pos - strip(f.item.body.take(f.item.dot)).len() == if i == 0 { 0 } else { fs[i - 1].pos }
    &&& i + 1 < fs.len() ==> reads(f.item) == Some(Symbol::<V, T>::Variable(fs[i + 1].item.head)) && der_n(c.grammar, f.n, f.item.body.skip(f.item.dot + 1), f.w)
    &&& i + 1 == fs.len() ==> der_n(c.grammar, f.n, f.item.body.skip(f.item.dot), f.w)
}
spec fn ready<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>) -> bool {
    &&& fs.len() > 0 && ss.len() > 0 && ss[0] == 0 && fs[0].item.head == c.grammar.start_variable && fs.last().pos == ss.len() - 1
    &&& forall|i: int| 0 <= i < fs.len() ==> #[trigger] frame_ok(c, ss, fs, i)
}
/// The states on the stack are those of a derivation of an input that goes on with `w`.
spec fn on_track<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, w: Seq<T::TK>) -> bool {
    ||| exists|fs: Seq<Frame<V, T>>| #[trigger] ready(c, ss, fs) && rem(fs) == w
    ||| ss.len() == 2 && ss[1] == final_state(c) && w.len() == 0
}
/// A terminal or the end comes next: nothing is left to be expanded.
spec fn settled_frames<V: VxVar, T: VxAtom>(fs: Seq<Frame<V, T>>) -> bool {
    fs.len() > 0 && !(reads(fs.last().item) matches Some(Symbol::Variable(_)))
}
proof fn descend<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>) -> (r: Seq<Frame<V, T>>)
    requires made(c), ready(c, ss, fs),
    ensures ready(c, ss, r), rem(r) == rem(fs), pot(r) <= pot(fs), settled_frames(r),
    decreases fs.last().n,
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let m = fs.len() - 1;
    let f = fs[m];
    assert(frame_ok(c, ss, fs, m));
    let s = ss[f.pos] as int;
    assert(all_proper(g, sets(c)[s]));
    if let Some(Symbol::Variable(v)) = reads(f.item) {
        let b = f.item.body.skip(f.item.dot);
        assert(b[0] == Symbol::<V, T>::Variable(v));
        let (k, m1) = der_split(g, f.n, b, f.w);
        assert(b.skip(1) =~= f.item.body.skip(f.item.dot + 1));
        let (u, x) = (f.w.take(k), f.w.skip(k));
        let c2 = choose|c2: VBody<V, T>| #[trigger] rule(g.rules, v, c2) && der_n(g, (m1 - 1) as nat, c2, u);
        let i = fresh(v, c2);
        skip_eps_range(c2, 0);
        assert(c2.skip(0) =~= c2);
        der_skip(g, (m1 - 1) as nat, c2, 0, i.dot, u);
        fresh_strip(v, c2);
        assert(calls(sets(c)[s], v));
        assert(sets(c)[s].contains(i)) by { fresh_in(c, s, v, c2); }
        let f1 = Frame { item: f.item, pos: f.pos, w: x, n: (f.n - m1) as nat };
        let f2 = Frame { item: i, pos: f.pos, w: u, n: (m1 - 1) as nat };
        let base = fs.drop_last();
        let r = base.push(f1).push(f2);
        assert(r.drop_last().drop_last() =~= base);
        assert(r.drop_last() =~= base.push(f1));
        assert(r.drop_last().last() == f1);
        assert(pot(base.push(f1)) == 2 * f1.n + 1 + pot(base));
        assert(rem(r) =~= rem(fs)) by {
            assert(rem(base.push(f1)) == x + rem(base));
            assert(u + x =~= f.w);
            assert(u + (x + rem(base)) =~= (u + x) + rem(base));
        }
        assert forall|j: int| 0 <= j < r.len() implies #[trigger] frame_ok(c, ss, r, j) by {
            if j < m { assert(frame_ok(c, ss, fs, j)); assert(r[j] == fs[j]); if j > 0 { assert(r[j - 1] == fs[j - 1]); } if j + 1 < m { assert(r[j + 1] == fs[j + 1]); } }
            else if j == m { if j > 0 { assert(r[j - 1] == fs[j - 1]); } }
        }
        descend(c, ss, r)
    } else { fs }
}
/// A state has the rules of every variable it reads.
proof fn fresh_in<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, v: V, b: VBody<V, T>)
    requires made(c), 0 <= s < sets(c).len(), calls(sets(c)[s], v), rule(c.grammar.rules, v, b),
    ensures sets(c)[s].contains(fresh(v, b)),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    if s == 0 {
        clo_grows(g, kernel(g.start_variable, g.rules.map()[g.start_variable].set()), v, b);
    } else {
        assert(reached(g, sets(c), s));
        let (p, x) = choose|p: int, x: Symbol<V, T>| 0 <= p < s && #[trigger] reads_any(sets(c)[p], x) && sets(c)[s] == closure(g, step(sets(c)[p], x));
        clo_grows(g, step(sets(c)[p], x), v, b);
    }
}
/// What comes after the rule of a frame can follow its variable.
proof fn look_ok<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>, i: int)
    requires made(c), ready(c, ss, fs), 0 <= i < fs.len(),
    ensures looks(c.grammar, fs[i].item.head, first_key(rem(fs.take(i)))),
    decreases i,
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let v = fs[i].item.head;
    let w = rem(fs.take(i));
    if i == 0 {
        assert(end_n(g, 0, v));
    } else {
        let f = fs[i - 1];
        assert(frame_ok(c, ss, fs, i - 1));
        look_ok(c, ss, fs, i - 1);
        let up = rem(fs.take(i - 1));
        assert(fs.take(i).drop_last() =~= fs.take(i - 1));
        assert(w == f.w + up);
        assert(all_proper(g, sets(c)[ss[f.pos] as int]));
        assert(holds(g, f.item.head, f.item.body, f.item.dot, v));
        let b = f.item.body.skip(f.item.dot + 1);
        let n = f.n;
        if f.w.len() > 0 {
            der_first(g, n, b, f.w);
            let t = choose|t: T| #[trigger] begins(g, b, t) && t.tkey() == f.w[0];
            assert(fol_n(g, 0, v, t));
            assert(follows(g, v, t));
        } else {
            der_empty(g, n, b, f.w);
            assert(nullable(g, b));
            assert(w =~= up);
            if up.len() > 0 {
                let t = choose|t: T| #[trigger] follows(g, f.item.head, t) && t.tkey() == up[0];
                let m = choose|m: nat| #[trigger] fol_n(g, m, f.item.head, t);
                assert(fol_n(g, m + 1, v, t));
                assert(follows(g, v, t));
            } else {
                let m = choose|m: nat| #[trigger] end_n(g, m, f.item.head);
                assert(end_n(g, m + 1, v));
            }
        }
    }
}
/// The last symbol of the stack has been read: the frames after reading it.
proof fn advance<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, s2: Seq<usize>, fs: Seq<Frame<V, T>>, f: Frame<V, T>, x: Symbol<V, T>, d: usize) -> (r: Seq<Frame<V, T>>)
    requires made(c), fs.len() > 0, f == fs.last(), ss.len() > 0, ss[0] == 0, fs[0].item.head == c.grammar.start_variable, 0 <= f.pos < ss.len(),
        s2 == ss.take(f.pos + 1).push(d),
        forall|i: int| 0 <= i < fs.len() - 1 ==> #[trigger] frame_ok(c, ss, fs, i) && fs[i].pos <= f.pos,
        0 <= ss[f.pos] < sets(c).len(), sets(c)[ss[f.pos] as int].contains(f.item), reads(f.item) == Some(x), d == tr(c, ss[f.pos] as int, x),
        f.pos - strip(f.item.body.take(f.item.dot)).len() == if fs.len() == 1 { 0 } else { fs[fs.len() - 2].pos },
        der_n(c.grammar, f.n, f.item.body.skip(f.item.dot + 1), f.w),
    ensures ready(c, s2, r), rem(r) == rem(fs), pot(r) == pot(fs),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let s = ss[f.pos] as int;
    assert(all_proper(g, sets(c)[s]));
    assert(reads_any(sets(c)[s], x));
    edge_dest(c, s, x);
    let i = read(f.item);
    assert(step(sets(c)[s], x).contains(i));
    clo_start(g, step(sets(c)[s], x));
    read_not_fresh(g, f.item);
    skip_eps_range(f.item.body, f.item.dot + 1);
    der_skip(g, f.n, f.item.body, f.item.dot + 1, i.dot, f.w);
    let base = fs.drop_last();
    let r = base.push(Frame { item: i, pos: f.pos + 1, w: f.w, n: f.n });
    assert(r.drop_last() =~= base);
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] frame_ok(c, s2, r, j) by {
        if j < base.len() {
            assert(frame_ok(c, ss, fs, j));
            assert(r[j] == fs[j]);
            assert(s2[fs[j].pos] == ss[fs[j].pos]);
            if j > 0 { assert(r[j - 1] == fs[j - 1]); }
        } else if j > 0 { assert(r[j - 1] == fs[j - 1]); }
    }
    r
}
/// The frames lie one after the other on the stack.
proof fn in_order<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>, i: int, j: int)
    requires ready(c, ss, fs), 0 <= i <= j < fs.len(),
    ensures 0 <= fs[i].pos <= fs[j].pos,
    decreases j - i,
{
    assert(frame_ok(c, ss, fs, i));
    if i < j { in_order(c, ss, fs, i, j - 1); assert(frame_ok(c, ss, fs, j)); }
}
spec fn states_of<V: VxVar, T: VxAtom>(st: Seq<ParseNode<V, T>>) -> Seq<usize> { st.map_values(|p: ParseNode<V, T>| p.state) }
/// What has to be done next when the input goes on with `w`.
spec fn right_action<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, w: Seq<T::TK>) -> bool {
    match cell(p.table.action, ss.last() as int, first_key(w)) {
        Some(ActionKind::Shift { dest_state }) => w.len() > 0 && on_track(p.auto(), ss.push(dest_state), w.skip(1)),
        Some(ActionKind::Reduce { variable, amount }) => amount < ss.len()
            && forall|d: usize| #[trigger] jumps(p.auto(), ss[ss.len() - 1 - amount] as int, variable, d) ==> on_track(p.auto(), ss.take(ss.len() - amount).push(d), w),
        Some(ActionKind::Accept) => ss.len() == 2 && w.len() == 0,
        None => false,
    }
}
/// A rule that has been read is reduced.
proof fn reduce_cell<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>)
    requires p.wf(), ready(p.auto(), ss, fs), reads(fs.last().item) is None,
    ensures ({
        let i = fs.last().item;
        let l = strip(i.body).len();
        &&& l < ss.len() && l <= usize::MAX
        &&& cell(p.table.action, ss.last() as int, first_key(rem(fs))) == Some(ActionKind::<V>::Reduce { variable: i.head, amount: l as usize })
        &&& ss.len() - 1 - l == if fs.len() == 1 { 0 } else { fs[fs.len() - 2].pos }
        &&& fs.len() == 1 ==> rem(fs).len() == 0
    }),
{
    let c = p.auto();
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let m = fs.len() - 1;
    let f = fs[m];
    assert(frame_ok(c, ss, fs, m));
    let s = ss[f.pos] as int;
    assert(all_proper(g, sets(c)[s]));
    assert(proper(g, f.item));
    let up = fs.drop_last();
    assert(fs.take(m) =~= up);
    assert(f.item.body.skip(f.item.dot).len() == 0);
    assert(f.w.len() == 0);
    assert(rem(fs) =~= rem(up));
    look_ok(c, ss, fs, m);
    strip_len(f.item.body);
    assert(f.item.body.take(f.item.dot) =~= f.item.body);
    let l = strip(f.item.body).len() as int;
    if m > 0 { in_order(c, ss, fs, 0, m - 1); }
    assert(l <= f.pos);
    assert(l <= usize::MAX);
    let a = ActionKind::<V>::Reduce { variable: f.item.head, amount: l as usize };
    let k = first_key(rem(fs));
    assert(item_wants(c, s, f.item, k, a));
    assert(wants(c, s, k, a));
}
proof fn pop_frames<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>, d: usize) -> (r: Seq<Frame<V, T>>)
    requires made(c), ready(c, ss, fs), reads(fs.last().item) is None, fs.len() > 1,
        strip(fs.last().item.body).len() < ss.len(), jumps(c, ss[ss.len() - 1 - strip(fs.last().item.body).len()] as int, fs.last().item.head, d),
    ensures ready(c, ss.take(ss.len() - strip(fs.last().item.body).len()).push(d), r), rem(r) == rem(fs), pot(r) < pot(fs),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let m = fs.len() - 1;
    let (f, f1) = (fs[m], fs[m - 1]);
    assert(frame_ok(c, ss, fs, m));
    assert(all_proper(g, sets(c)[ss[f.pos] as int]));
    assert(f.item.body.take(f.item.dot) =~= f.item.body);
    assert(f.item.body.skip(f.item.dot).len() == 0);
    let l = strip(f.item.body).len() as int;
    let below = ss.take(ss.len() - l);
    let up = fs.drop_last();
    assert(rem(fs) =~= rem(up));
    assert(frame_ok(c, ss, fs, m - 1));
    let x = Symbol::<V, T>::Variable(f.item.head);
    assert(f1.pos == ss.len() - 1 - l);
    assert(below =~= ss.take(f1.pos + 1));
    assert(reads_any(sets(c)[ss[f1.pos] as int], x));
    assert(d == tr(c, ss[f1.pos] as int, x));
    assert forall|i: int| 0 <= i < up.len() - 1 implies #[trigger] frame_ok(c, ss, up, i) && up[i].pos <= f1.pos by {
        assert(frame_ok(c, ss, fs, i));
        in_order(c, ss, fs, i, m - 1);
        assert(up[i] == fs[i]);
        if i > 0 { assert(up[i - 1] == fs[i - 1]); }
    }
    advance(c, ss, below.push(d), up, f1, x, d)
}
proof fn track_step<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, w: Seq<T::TK>)
    requires p.wf(), on_track(p.auto(), ss, w),
    ensures right_action(p, ss, w),
{
    let c = p.auto();
    let g = c.grammar;
    let k = first_key(w);
    assert(automaton(g, sets(c), c));
    if ss.len() == 2 && ss[1] == final_state(c) && w.len() == 0 {
        assert(wants(c, ss[1] as int, None::<T::TK>, ActionKind::<V>::Accept));
    } else {
        let fs0 = choose|fs: Seq<Frame<V, T>>| #[trigger] ready(c, ss, fs) && rem(fs) == w;
        let fs = descend(c, ss, fs0);
        let m = fs.len() - 1;
        let f = fs[m];
        assert(frame_ok(c, ss, fs, m));
        let s = ss[f.pos] as int;
        assert(all_proper(g, sets(c)[s]));
        assert(proper(g, f.item));
        assert forall|i: int| 0 <= i < fs.len() implies #[trigger] frame_ok(c, ss, fs, i) && fs[i].pos <= f.pos by { in_order(c, ss, fs, i, m); }
        let up = fs.drop_last();
        assert(fs.take(m) =~= up);
        let b = f.item.body.skip(f.item.dot);
        let h = f.n;
        match reads(f.item) {
            Some(x) => {
                let t = x->Terminal_0;
                assert(b[0] == x);
                let (i, h1) = der_split(g, h, b, f.w);
                assert(f.w.take(i)[0] == t.tkey());
                assert(i == 1) by { assert(f.w.take(i).len() == 1); }
                let a = ActionKind::<V>::Shift { dest_state: tr(c, s, x) };
                assert(w[0] == t.tkey());
                assert(item_wants(c, s, f.item, k, a));
                assert(wants(c, s, k, a));
                assert(b.skip(1) =~= f.item.body.skip(f.item.dot + 1));
                let f1 = Frame { item: f.item, pos: f.pos, w: f.w.skip(1), n: (h - h1) as nat };
                let fs1 = up.push(f1);
                assert(fs1.drop_last() =~= up);
                assert forall|i: int| 0 <= i < fs1.len() - 1 implies #[trigger] frame_ok(c, ss, fs1, i) && fs1[i].pos <= f1.pos by {
                    assert(frame_ok(c, ss, fs, i));
                    assert(fs1[i] == fs[i]);
                    if i > 0 { assert(fs1[i - 1] == fs[i - 1]); }
                }
                if fs1.len() > 1 { assert(fs1[fs1.len() - 2] == fs[fs.len() - 2]); }
                assert(ss.take(f.pos + 1) =~= ss);
                let d = tr(c, s, x);
                let r = advance(c, ss, ss.push(d), fs1, f1, x, d);
                assert(rem(r) =~= w.skip(1));
            }
            None => {
                reduce_cell(p, ss, fs);
                let l = strip(f.item.body).len() as int;
                let below = ss.take(ss.len() - l);
                assert forall|d: usize| #[trigger] jumps(c, ss[ss.len() - 1 - l] as int, f.item.head, d) implies on_track(c, below.push(d), w) by {
                    if m == 0 { assert(below.push(d).len() == 2); } else { let r = pop_frames(c, ss, fs, d); }
                }
            }
        }
    }
}
/// The stack at the start is on the track of every sentence.
proof fn track_start<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, w: Seq<T::TK>)
    requires made(c), whole(c.grammar), sentence(c.grammar, w),
    ensures on_track(c, seq![0usize], w),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let n = choose|n: nat| #[trigger] der_sym(g, n, Symbol::Variable(g.start_variable), w);
    let v = g.start_variable;
    let b = choose|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && der_n(g, (n - 1) as nat, b, w);
    let i = fresh(v, b);
    skip_eps_range(b, 0);
    assert(b.skip(0) =~= b);
    der_skip(g, (n - 1) as nat, b, 0, i.dot, w);
    fresh_strip(v, b);
    let k = kernel(v, g.rules.map()[v].set());
    assert(k.contains(i));
    clo_start(g, k);
    let f = Frame { item: i, pos: 0, w, n: (n - 1) as nat };
    let fs = seq![f];
    let ss = seq![0usize];
    assert(frame_ok(c, ss, fs, 0));
    assert(ready(c, ss, fs));
    assert(fs.drop_last() =~= seq![]);
    assert(rem(fs.drop_last()) =~= seq![]);
    assert(rem(fs) =~= w);
}
spec fn keys<T: VxAtom>(s: Seq<T>) -> Seq<T::TK> { s.map_values(|t: T| t.tkey()) }
/// The stack is on the track of every sentence that starts with `p`; `n` terminals of it have been read.
spec fn tracked<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, p: Seq<T::TK>, n: int) -> bool {
    forall|w: Seq<T::TK>| #[trigger] sentence(c.grammar, w) && p.is_prefix_of(w) ==> on_track(c, ss, w.skip(n))
}
/// No sentence starts with `p`.
spec fn dead<V: VxVar, T: VxAtom>(g: Grammar<V, T>, p: Seq<T::TK>) -> bool { forall|w: Seq<T::TK>| #[trigger] sentence(g, w) ==> !p.is_prefix_of(w) }
spec fn stuck<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, k: Option<T::TK>) -> bool {
    match cell(p.table.action, st.last().state as int, k) { Some(a) => a is Accept && st.len() != 2, None => true }
}
proof fn states_push<V: VxVar, T: VxAtom>(st: Seq<ParseNode<V, T>>, n: int, p: ParseNode<V, T>)
    requires 0 <= n <= st.len(),
    ensures states_of(st.take(n).push(p)) == states_of(st).take(n).push(p.state),
{
    assert(states_of(st.take(n).push(p)) =~= states_of(st).take(n).push(p.state));
}
/// A step is the right one for every input that goes on with the token.
proof fn step_right<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, t: Option<Token<T>>, st2: Seq<ParseNode<V, T>>, t2: Option<Token<T>>, n: ParseNode<V, T>, w: Seq<T::TK>)
    requires p.wf(), st.len() > 0, on_track(p.auto(), states_of(st), w), first_key(w) == token_key(t), moved(p, st, t, st2, t2, n),
    ensures on_track(p.auto(), states_of(st2.push(n)), if t is Some && t2 is None { w.skip(1) } else { w }),
{
    let ss = states_of(st);
    track_step(p, ss, w);
    assert(ss.last() == st.last().state);
    assert(st.take(st.len() as int) =~= st);
    assert(ss.take(ss.len() as int) =~= ss);
    match cell(p.table.action, st.last().state as int, token_key(t)) {
        Some(ActionKind::Shift { dest_state }) => { states_push(st, st.len() as int, n); }
        Some(ActionKind::Reduce { variable, amount }) => {
            states_push(st, st.len() - amount, n);
            assert(ss[ss.len() - 1 - amount] == st2.last().state);
        }
        _ => {}
    }
}
proof fn step_tracked<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, t: Option<Token<T>>, st2: Seq<ParseNode<V, T>>, t2: Option<Token<T>>, n: ParseNode<V, T>, pk: Seq<T::TK>)
    requires p.wf(), st.len() > 0, pk.len() > 0, token_key(t) == Some(pk.last()), tracked(p.auto(), states_of(st), pk, pk.len() - 1), moved(p, st, t, st2, t2, n),
    ensures tracked(p.auto(), states_of(st2.push(n)), pk, if t2 is None { pk.len() as int } else { pk.len() - 1 }),
{
    let k = pk.len() - 1;
    assert forall|w: Seq<T::TK>| #[trigger] sentence(p.auto().grammar, w) && pk.is_prefix_of(w) implies on_track(p.auto(), states_of(st2.push(n)), w.skip(if t2 is None { pk.len() as int } else { k })) by {
        assert(w.skip(k)[0] == pk[k]);
        step_right(p, st, t, st2, t2, n, w.skip(k));
    }
}
proof fn stuck_dead<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, t: Option<Token<T>>, pk: Seq<T::TK>)
    requires p.wf(), st.len() > 0, pk.len() > 0, token_key(t) == Some(pk.last()), tracked(p.auto(), states_of(st), pk, pk.len() - 1), stuck(p, st, token_key(t)),
    ensures dead(p.auto().grammar, pk),
{
    let k = pk.len() - 1;
    assert forall|w: Seq<T::TK>| #[trigger] sentence(p.auto().grammar, w) implies !pk.is_prefix_of(w) by {
        if pk.is_prefix_of(w) {
            assert(w.skip(k)[0] == pk[k]);
            track_step(p, states_of(st), w.skip(k));
            assert(states_of(st).last() == st.last().state);
        }
    }
}
/// The same at the end of the input.
spec fn tracked_end<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, p: Seq<T::TK>) -> bool { sentence(c.grammar, p) ==> on_track(c, ss, seq![]) }
proof fn end_tracked<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, st2: Seq<ParseNode<V, T>>, n: ParseNode<V, T>, pk: Seq<T::TK>)
    requires p.wf(), st.len() > 0, tracked_end(p.auto(), states_of(st), pk), moved(p, st, None::<Token<T>>, st2, None::<Token<T>>, n),
    ensures tracked_end(p.auto(), states_of(st2.push(n)), pk),
{
    if sentence(p.auto().grammar, pk) { step_right(p, st, None::<Token<T>>, st2, None::<Token<T>>, n, seq![]); }
}
proof fn stuck_end<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, pk: Seq<T::TK>)
    requires p.wf(), st.len() > 0, tracked_end(p.auto(), states_of(st), pk), stuck(p, st, None::<T::TK>),
    ensures !sentence(p.auto().grammar, pk),
{
    if sentence(p.auto().grammar, pk) {
        track_step(p, states_of(st), seq![]);
        assert(states_of(st).last() == st.last().state);
    }
}
/// A tree is a derivation of its leaves.
spec fn sym_derives<V: VxVar, T: VxAtom>(g: Grammar<V, T>, x: Symbol<V, T>, w: Seq<T::TK>) -> bool { exists|n: nat| #[trigger] der_sym(g, n, x, w) }
proof fn tree_derives<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: Node<V, T>)
    requires valid(g, n),
    ensures sym_derives(g, n.symbol, keys(leaves(n))),
    decreases n, 1nat, 0int,
{
    match n.symbol {
        Symbol::Terminal(t) => {
            assert(keys(leaves(n)) =~= seq![t.tkey()]);
            assert(der_sym(g, 0, n.symbol, keys(leaves(n))));
        }
        Symbol::Variable(v) => {
            let ch = n.children@;
            let b = choose|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && spells(b, ch);
            children_derive(g, n, b, 0);
            assert(b.skip(0) =~= b);
            assert(strip(b.take(0)).len() == 0);
            let m = choose|m: nat| #[trigger] der_n(g, m, b, keys(leaves(n)));
            assert(der_sym(g, m + 1, n.symbol, keys(leaves(n))));
        }
        Symbol::Epsilon => {}
    }
}
proof fn strip_prefix<V: VxVar, T: VxAtom>(b: VBody<V, T>, i: int)
    requires 0 <= i <= b.len(),
    ensures strip(b.take(i)).is_prefix_of(strip(b)),
    decreases b.len() - i,
{
    if i == b.len() {
        assert(b.take(i) =~= b);
    } else {
        strip_prefix(b, i + 1);
        assert(b.take(i + 1).drop_last() =~= b.take(i));
        assert(b.take(i + 1).last() == b[i]);
    }
}
proof fn children_derive<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: Node<V, T>, b: VBody<V, T>, i: int)
    requires valid(g, n), n.symbol is Variable, spells(b, n.children@), 0 <= i <= b.len(),
    ensures derives(g, b.skip(i), keys(leaves_of(n, strip(b).len() - strip(b.take(i)).len()))),
    decreases n, 0nat, b.len() - i,
{
    let k = strip(b).len() - strip(b.take(i)).len();
    let w = keys(leaves_of(n, k));
    strip_prefix(b, i);
    if i == b.len() {
        assert(b.take(i) =~= b);
        assert(w =~= seq![]);
        assert(der_n(g, 0, b.skip(i), w));
    } else {
        children_derive(g, n, b, i + 1);
        strip_prefix(b, i + 1);
        let l = strip(b).len() - strip(b.take(i + 1)).len();
        let r = keys(leaves_of(n, l));
        let m = choose|m: nat| #[trigger] der_n(g, m, b.skip(i + 1), r);
        assert(b.take(i + 1).drop_last() =~= b.take(i));
        assert(b.take(i + 1).last() == b[i]);
        assert(b.skip(i)[0] == b[i]);
        assert(b.skip(i).skip(1) =~= b.skip(i + 1));
        if b[i] is Epsilon {
            assert(w.skip(0) =~= w);
            assert(der_sym(g, 0, b[i], w.take(0)));
            der_join(g, m, b.skip(i), w, 0, 0);
            assert(der_n(g, m, b.skip(i), w));
        } else {
            assert(l == k - 1);
            let ch = n.children@;
            let x = n.children[k - 1];
            assert(x == ch[k - 1]);
            assert(strip(b)[ch.len() - 1 - (k - 1)] == b[i]) by {
                let j = strip(b.take(i)).len() as int;
                assert(strip(b.take(i + 1))[j] == b[i]);
                assert(strip(b)[j] == b[i]);
            }
            assert(fits(b[i], ch[k - 1]));
            assert(valid(g, x));
            tree_derives(g, x);
            let u = keys(leaves(x));
            let h = choose|h: nat| #[trigger] der_sym(g, h, x.symbol, u);
            assert(der_sym(g, h, b[i], u));
            let z = h + m;
            assert(w =~= u + r);
            assert(w.take(u.len() as int) =~= u);
            assert(w.skip(u.len() as int) =~= r);
            der_join(g, z, b.skip(i), w, u.len() as int, h);
            assert(der_n(g, z, b.skip(i), w));
        }
    }
}
/// One more token: fewer sentences have to be followed.
proof fn ts_tracked<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, ts: Seq<Token<T>>, t: Token<T>)
    requires tracked(c, ss, keys(token_kinds(ts)), ts.len() as int),
    ensures tracked(c, ss, keys(token_kinds(ts.push(t))), ts.len() as int),
{
    let (p, q) = (keys(token_kinds(ts)), keys(token_kinds(ts.push(t))));
    assert(q =~= p.push(t.kind.tkey()));
    assert forall|w: Seq<T::TK>| #[trigger] sentence(c.grammar, w) && q.is_prefix_of(w) implies on_track(c, ss, w.skip(ts.len() as int)) by {
        assert(p.is_prefix_of(w)) by { assert(p =~= q.take(p.len() as int)); assert(p =~= w.take(p.len() as int)); }
    }
}
/// The tokens that have been read, or how the text goes on after them, show that it is not in the language.
spec fn refused<V: VxVar, T: VxAtom>(g: Grammar<V, T>, rules: TokenRules<T>, ts: Seq<Token<T>>, left: Seq<Seq<char>>) -> bool {
    ||| dead(g, keys(token_kinds(ts)))
    ||| no_token(rules, left.last()) && (left.last().len() > 0 || !sentence(g, keys(token_kinds(ts))))
}
//@ impl<V: VxVar, T: VxAtom> Slr<V, T>
//@ fn Slr::parse as=parse_language
//@ sig fn parse_language<'b>(&self, mut input: Lexer<'b, T>) -> Result<Cst<V, T>, ()>
requires self.wf(), input.wf(),
ensures match r {
    Ok(t) => exists|ts: Seq<Token<T>>, left: Seq<Seq<char>>| #[trigger] tokens(input.rules(), input.rest(), ts, left) && left.last().len() == 0 && sentence(self.auto().grammar, keys(token_kinds(ts))),
    Err(_) => exists|ts: Seq<Token<T>>, left: Seq<Seq<char>>| #[trigger] tokens(input.rules(), input.rest(), ts, left) && refused(self.auto().grammar, input.rules(), ts, left),
},
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ at start
let ghost c = self.auto();
let ghost (rules, text) = (input.rules(), input.rest());
let ghost mut ts: Seq<Token<T>> = seq![];
let ghost mut prev: Option<Token<T>> = None;
let ghost mut left: Seq<Seq<char>> = seq![text];
//@ at loop 0 before
proof {
    assert(states_of(stack@) =~= seq![0usize]);
    assert(keys(token_kinds(ts)) =~= seq![]);
    assert forall|w: Seq<T::TK>| #[trigger] sentence(c.grammar, w) implies on_track(c, states_of(stack@), w.skip(0)) by { track_start(c, w); }
}
//@ loop 0
invariant_except_break prev == next_token, spell(stack@) + kinds(prev) == token_kinds(ts), tracked(c, states_of(stack@), keys(token_kinds(ts)), ts.len() - kinds(prev).len()),
    prev is Some ==> ts.len() > 0 && prev->0.kind == ts.last().kind,
invariant input.wf(), input.rules() == rules, stack_ok(c, stack@), current_state == stack@.last().state, left.last() == input.rest(), tokens(rules, text, ts, left),
ensures spell(stack@) == token_kinds(ts), tracked(c, states_of(stack@), keys(token_kinds(ts)), ts.len() as int), no_token(rules, input.rest()),
//@ at loop 0 top
proof { spell_none(stack@); }
//@ at loop 0 start
proof {
    if prev is None {
        tokens_push(rules, text, ts, left, token, input.rest());
        spell_none(stack@);
        ts_tracked(c, states_of(stack@), ts, token);
        ts = ts.push(token);
        left = left.push(input.rest());
    }
}
//@ at call handle_token 0 before
let ghost pk = keys(token_kinds(ts));
let ghost st0 = stack@;
let ghost t0 = next_token;
proof {
    assert(pk.last() == token.kind.tkey());
    if stuck(*self, stack@, token_key(next_token)) { stuck_dead(*self, stack@, next_token, pk); }
}
//@ at call push 0 before
proof { step_tracked(*self, st0, t0, stack@, next_token, parse_node, pk); }
//@ at loop 0 end
proof { prev = next_token; }
//@ at loop 0 after
proof {
    let pk = keys(token_kinds(ts));
    if sentence(c.grammar, pk) { assert(pk.is_prefix_of(pk)); assert(pk.skip(ts.len() as int) =~= seq![]); }
}
//@ loop 1
invariant input.rest().len() == 0, next_token is None, stack_ok(c, stack@), current_state == stack@.last().state, spell(stack@) == token_kinds(ts),
    tracked_end(c, states_of(stack@), keys(token_kinds(ts))),
ensures !sentence(c.grammar, keys(token_kinds(ts))),
//@ at loop 1 top
let ghost st1 = stack@;
proof { if stuck(*self, stack@, token_key(next_token)) { stuck_end(*self, stack@, keys(token_kinds(ts))); } }
//@ at loop 1 start
proof { if accept { tree_derives(c.grammar, parse_node.node); } }
//@ at call push 1 before
proof { end_tracked(*self, st1, stack@, parse_node, keys(token_kinds(ts))); }
//@ end
