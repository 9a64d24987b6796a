// The parser ends if every variable derives something.
//@ include-proved complete.vx
//@ file pango-parser/src/parser/slr.rs
//@ prelude
/// Every variable derives something.
spec fn productive<V: VxVar, T: VxAtom>(g: Grammar<V, T>) -> bool {
    forall|v: V| #[trigger] g.rules.map().dom().contains(v) ==> yields(g, v)
}
spec fn yields<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V) -> bool { exists|w: Seq<T::TK>| #[trigger] sym_derives(g, Symbol::Variable(v), w) }
/// The states after a reduction.
spec fn red<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>) -> Option<Seq<usize>> {
    match cell(p.table.action, ss.last() as int, k) {
        Some(ActionKind::Reduce { variable, amount }) => if amount < ss.len() {
            match gcell(p.table.goto, ss[ss.len() - 1 - amount] as int, variable) { Some(d) => Some(ss.take(ss.len() - amount).push(d)), None => None }
        } else { None },
        _ => None,
    }
}
/// At most `n` reductions take place in front of `k`.
spec fn halts<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>, n: nat) -> bool
    decreases n,
{
    match red(p, ss, k) { None => true, Some(s2) => n > 0 && halts(p, s2, k, (n - 1) as nat) }
}
spec fn halts_some<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>) -> bool { exists|n: nat| #[trigger] halts(p, ss, k, n) }
proof fn halts_up<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>, n: nat, m: nat)
    requires halts(p, ss, k, n), n <= m,
    ensures halts(p, ss, k, m),
    decreases n,
{
    if let Some(s2) = red(p, ss, k) { halts_up(p, s2, k, (n - 1) as nat, (m - 1) as nat); }
}
spec fn step_to<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, d: int) -> bool { exists|x: Symbol<V, T>| #[trigger] edge(c, s, x, d) }
/// The states are a way through the automaton.
spec fn path<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>) -> bool {
    ss.len() > 0 && ss[0] == 0 && forall|i: int| 1 <= i < ss.len() ==> step_to(c, ss[i - 1] as int, #[trigger] ss[i] as int)
}
proof fn red_path<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>)
    requires p.wf(), path(p.auto(), ss), red(p, ss, k) is Some,
    ensures path(p.auto(), red(p, ss, k)->0),
{
    let c = p.auto();
    assert(automaton(c.grammar, sets(c), c));
    let a = cell(p.table.action, ss.last() as int, k)->0;
    let (v, l) = (a->variable, a->amount);
    let s = ss[ss.len() - 1 - l] as int;
    let d = gcell(p.table.goto, s, v)->0;
    assert(jumps(c, s, v, d));
    assert(edge(c, s, Symbol::Variable(v), d as int));
    let s2 = ss.take(ss.len() - l).push(d);
    assert forall|i: int| 1 <= i < s2.len() implies step_to(c, s2[i - 1] as int, #[trigger] s2[i] as int) by { if i < s2.len() - 1 { assert(s2[i] == ss[i]); } }
}
/// On the track of a sentence there are only so many reductions.
proof fn track_halts<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, fs0: Seq<Frame<V, T>>)
    requires p.wf(), ready(p.auto(), ss, fs0),
    ensures halts_some(p, ss, first_key(rem(fs0))),
    decreases pot(fs0),
{
    let c = p.auto();
    let k = first_key(rem(fs0));
    assert(automaton(c.grammar, sets(c), c));
    let fs = descend(c, ss, fs0);
    if red(p, ss, k) is None {
        assert(halts(p, ss, k, 0));
    } else {
        let s2 = red(p, ss, k)->0;
        match reads(fs.last().item) {
            Some(x) => {
                let f = fs.last();
                assert(frame_ok(c, ss, fs, fs.len() - 1));
                let s = ss[f.pos] as int;
                assert(all_proper(c.grammar, sets(c)[s]));
                let b = f.item.body.skip(f.item.dot);
                assert(b[0] == x);
                let (i, h1) = der_split(c.grammar, f.n, b, f.w);
                assert(f.w.take(i)[0] == x->Terminal_0.tkey());
                assert(f.w.take(i).len() == 1);
                assert(f.w[0] == x->Terminal_0.tkey());
                assert(rem(fs)[0] == f.w[0]);
                assert(k == Some(x->Terminal_0.tkey()));
                let a = ActionKind::<V>::Shift { dest_state: tr(c, s, x) };
                assert(item_wants(c, s, f.item, k, a));
                assert(wants(c, s, k, a));
            }
            None => {
                reduce_cell(p, ss, fs);
                let l = strip(fs.last().item.body).len();
                let v = fs.last().item.head;
                let s = ss[ss.len() - 1 - l] as int;
                let d = gcell(p.table.goto, s, v)->0;
                assert(jumps(c, s, v, d));
                if fs.len() == 1 {
                    assert(d == final_state(c)) by { assert(s == 0); }
                    assert(wants(c, d as int, None::<T::TK>, ActionKind::<V>::Accept));
                    assert(red(p, s2, k) is None);
                    assert(halts(p, s2, k, 0));
                    assert(halts(p, ss, k, 1));
                } else {
                    let r = pop_frames(c, ss, fs, d);
                    track_halts(p, s2, r);
                    let n = choose|n: nat| #[trigger] halts(p, s2, k, n);
                    assert(halts(p, ss, k, n + 1));
                }
            }
        }
    }
}
proof fn prod_rest<V: VxVar, T: VxAtom>(g: Grammar<V, T>, h: V, b: VBody<V, T>, i: int) -> (r: (Seq<T::TK>, nat))
    requires whole(g), productive(g), rule(g.rules, h, b), 0 <= i <= b.len(),
    ensures der_n(g, r.1, b.skip(i), r.0),
    decreases b.len() - i,
{
    if i == b.len() { (seq![], 0nat) } else {
        let (w, n) = prod_rest(g, h, b, i + 1);
        assert(b.skip(i)[0] == b[i]);
        assert(b.skip(i).skip(1) =~= b.skip(i + 1));
        let (u, m): (Seq<T::TK>, nat) = match b[i] {
            Symbol::Epsilon => (seq![], 0),
            Symbol::Terminal(t) => (seq![t.tkey()], 0),
            Symbol::Variable(v) => {
                assert(g.rules.map().dom().contains(v));
                assert(yields(g, v));
                let u = choose|u: Seq<T::TK>| #[trigger] sym_derives(g, Symbol::Variable(v), u);
                let m = choose|m: nat| #[trigger] der_sym(g, m, Symbol::Variable(v), u);
                (u, m)
            }
        };
        let z = u + w;
        assert(z.take(u.len() as int) =~= u);
        assert(z.skip(u.len() as int) =~= w);
        assert(der_sym(g, m, b[i], u));
        der_join(g, n + m, b.skip(i), z, u.len() as int, m);
        (z, n + m)
    }
}
/// What the items of the last state come from.
spec fn kern_of<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, k: VItems<V, T>) -> bool {
    let t = ss.last() as int;
    &&& 0 <= t < sets(c).len() && sets(c)[t] == closure(c.grammar, k)
    &&& ss.len() == 1 ==> k == kernel(c.grammar.start_variable, c.grammar.rules.map()[c.grammar.start_variable].set())
    &&& ss.len() > 1 ==> exists|x: Symbol<V, T>| kern_by(c, ss, k, x)
}
spec fn kern_by<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, k: VItems<V, T>, x: Symbol<V, T>) -> bool {
    let s = ss[ss.len() - 2] as int;
    0 <= s < sets(c).len() && reads_any(sets(c)[s], x) && k == step(sets(c)[s], x)
}
proof fn has_kern<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>) -> (k: VItems<V, T>)
    requires made(c), path(c, ss), 0 <= ss.last() < sets(c).len(),
    ensures kern_of(c, ss, k),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    if ss.len() == 1 {
        kernel(g.start_variable, g.rules.map()[g.start_variable].set())
    } else {
        let m = ss.len() - 1;
        let (s, d) = (ss[m - 1] as int, ss[m] as int);
        assert(step_to(c, s, d));
        let x = choose|x: Symbol<V, T>| #[trigger] edge(c, s, x, d);
        assert(reads_any(sets(c)[s], x) && d == tr(c, s, x)) by {
            if !(reads_any(sets(c)[s], x) && d == tr(c, s, x)) {
                assert(d == final_state(c));
                assert(reads_any(sets(c)[0], x));
            }
        }
        edge_dest(c, s, x);
        let k = step(sets(c)[s], x);
        assert(kern_by(c, ss, k, x));
        k
    }
}
/// Some sentence goes through every item of the last state.
proof fn complete_item<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, i: VItem<V, T>, k: VItems<V, T>, n: nat) -> (fs: Seq<Frame<V, T>>)
    requires made(c), whole(c.grammar), productive(c.grammar), path(c, ss), kern_of(c, ss, k), clo(c.grammar, k, n).contains(i),
    ensures ready(c, ss, fs), fs.last().item == i,
    decreases ss.len(), n,
{
    let g = c.grammar;
    let top = ss.last() as int;
    assert(automaton(g, sets(c), c));
    assert(closure(g, k).contains(i));
    assert(all_proper(g, sets(c)[top]));
    assert(proper(g, i));
    let (w, h) = prod_rest(g, i.head, i.body, i.dot);
    if n > 0 {
        let p = clo(g, k, (n - 1) as nat);
        if p.contains(i) {
            complete_item(c, ss, i, k, (n - 1) as nat)
        } else {
            let j = choose|j: VItem<V, T>| #[trigger] p.contains(j) && reads(j) == Some(Symbol::<V, T>::Variable(i.head));
            let f0 = complete_item(c, ss, j, k, (n - 1) as nat);
            let m = f0.len() - 1;
            assert(frame_ok(c, ss, f0, m));
            assert(proper(g, j)) by { assert(closure(g, k).contains(j)); }
            let (w1, h1) = prod_rest(g, j.head, j.body, j.dot + 1);
            let r = f0.drop_last().push(Frame { item: j, pos: f0[m].pos, w: w1, n: h1 }).push(Frame { item: i, pos: f0[m].pos, w: w, n: h });
            fresh_strip(i.head, i.body);
            assert forall|q: int| 0 <= q < r.len() implies #[trigger] frame_ok(c, ss, r, q) by {
                if q <= m { assert(frame_ok(c, ss, f0, q)); if q > 0 { assert(r[q - 1] == f0[q - 1]); } if q < m { assert(r[q] == f0[q]); assert(r[q + 1].item == f0[q + 1].item); } }
            }
            r
        }
    } else if ss.len() == 1 {
        let fs = seq![Frame { item: i, pos: 0, w: w, n: h }];
        fresh_strip(i.head, i.body);
        assert(i == fresh(i.head, i.body));
        assert(frame_ok(c, ss, fs, 0));
        fs
    } else {
        let x = choose|x: Symbol<V, T>| kern_by(c, ss, k, x);
        let s = ss[ss.len() - 2] as int;
        let j = choose|j: VItem<V, T>| #[trigger] sets(c)[s].contains(j) && reads(j) == Some(x) && i == read(j);
        let below = ss.drop_last();
        assert(path(c, below)) by { assert forall|q: int| 1 <= q < below.len() implies step_to(c, below[q - 1] as int, #[trigger] below[q] as int) by { assert(step_to(c, ss[q - 1] as int, ss[q] as int)); } }
        let k2 = has_kern(c, below);
        let n2 = choose|n2: nat| #[trigger] clo(g, k2, n2).contains(j);
        let f0 = complete_item(c, below, j, k2, n2);
        let m = f0.len() - 1;
        assert(frame_ok(c, below, f0, m));
        assert(all_proper(g, sets(c)[s]));
        read_not_fresh(g, j);
        let r = f0.drop_last().push(Frame { item: i, pos: f0[m].pos + 1, w: w, n: h });
        assert forall|q: int| 0 <= q < r.len() implies #[trigger] frame_ok(c, ss, r, q) by {
            assert(frame_ok(c, below, f0, q));
            if q > 0 { assert(r[q - 1] == f0[q - 1]); }
            if q < m { assert(r[q] == f0[q]); assert(r[q + 1].item.head == f0[q + 1].item.head); assert(ss[f0[q].pos] == below[f0[q].pos]); }
        }
        r
    }
}
proof fn der_unskip<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, i: int, j: int, w: Seq<T::TK>)
    requires der_n(g, n, b.skip(j), w), 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] is Epsilon,
    ensures der_n(g, n, b.skip(i), w),
    decreases j - i,
{
    if i < j {
        der_unskip(g, n, b, i + 1, j, w);
        assert(b.skip(i)[0] == b[i]);
        assert(b.skip(i).skip(1) =~= b.skip(i + 1));
        assert(w.skip(0) =~= w);
        assert(der_sym(g, 0, b[i], w.take(0)));
        der_join(g, n, b.skip(i), w, 0, 0);
    }
}
proof fn strip_none<V: VxVar, T: VxAtom>(b: VBody<V, T>, i: int)
    requires 0 <= i <= b.len(), strip(b.take(i)).len() == 0,
    ensures forall|k: int| 0 <= k < i ==> #[trigger] b[k] is Epsilon,
    decreases i,
{
    if i > 0 {
        assert(b.take(i).drop_last() =~= b.take(i - 1));
        assert(b.take(i).last() == b[i - 1]);
        strip_none(b, i - 1);
    }
}
proof fn sym_rule<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, v: V, b: VBody<V, T>, w: Seq<T::TK>)
    requires rule(g.rules, v, b), der_n(g, n, b, w),
    ensures der_sym(g, n + 1, Symbol::Variable(v), w),
{
    let x = Symbol::<V, T>::Variable(v);
    assert(rule(g.rules, x->Variable_0, b));
    assert(der_sym(g, n + 1, x, w));
}
/// The innermost rule has read what is on top of the stack.
proof fn owned_top<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, ss: Seq<usize>, fs: Seq<Frame<V, T>>) -> (r: Seq<Frame<V, T>>)
    requires made(c), ready(c, ss, fs), ss.len() > 1,
    ensures ready(c, ss, r), rem(r) == rem(fs), strip(r.last().item.body.take(r.last().item.dot)).len() > 0,
    decreases fs.len(),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let m = fs.len() - 1;
    let f = fs[m];
    assert(frame_ok(c, ss, fs, m));
    if strip(f.item.body.take(f.item.dot)).len() > 0 { fs } else {
        let f1 = fs[m - 1];
        assert(frame_ok(c, ss, fs, m - 1));
        assert(all_proper(g, sets(c)[ss[f.pos] as int]));
        assert(proper(g, f.item));
        assert(proper(g, f1.item));
        strip_none(f.item.body, f.item.dot);
        der_unskip(g, f.n, f.item.body, 0, f.item.dot, f.w);
        assert(f.item.body.skip(0) =~= f.item.body);
        let x = Symbol::<V, T>::Variable(f.item.head);
        assert(m > 0);
        sym_rule(g, f.n, f.item.head, f.item.body, f.w);
        let b = f1.item.body.skip(f1.item.dot);
        assert(b[0] == x);
        assert(b.skip(1) =~= f1.item.body.skip(f1.item.dot + 1));
        let w = f.w + f1.w;
        assert(w.take(f.w.len() as int) =~= f.w);
        assert(w.skip(f.w.len() as int) =~= f1.w);
        der_join(g, f.n + 1 + f1.n, b, w, f.w.len() as int, f.n + 1);
        let base = fs.drop_last().drop_last();
        let r = base.push(Frame { item: f1.item, pos: f1.pos, w: w, n: f.n + 1 + f1.n });
        assert forall|q: int| 0 <= q < r.len() implies #[trigger] frame_ok(c, ss, r, q) by {
            assert(frame_ok(c, ss, fs, q));
            if q > 0 { assert(r[q - 1] == fs[q - 1]); }
            if q < m - 1 { assert(r[q] == fs[q]); assert(r[q + 1].item == fs[q + 1].item); }
        }
        assert(r.drop_last() =~= base);
        assert(rem(fs.drop_last()) == f1.w + rem(base));
        assert(rem(r) =~= rem(fs));
        owned_top(c, ss, r)
    }
}
/// A sentence after a reduction is one before it, and asks for the reduction.
proof fn back<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, i: VItem<V, T>, d: usize, fs2: Seq<Frame<V, T>>) -> (fs: Seq<Frame<V, T>>)
    requires p.wf(), path(p.auto(), ss), 0 <= ss.last() < sets(p.auto()).len(), sets(p.auto())[ss.last() as int].contains(i), reads(i) is None,
        strip(i.body).len() < ss.len(), jumps(p.auto(), ss[ss.len() - 1 - strip(i.body).len()] as int, i.head, d),
        ready(p.auto(), ss.take(ss.len() - strip(i.body).len()).push(d), fs2),
    ensures ready(p.auto(), ss, fs), rem(fs) == rem(fs2), fs.last().item == i,
{
    let c = p.auto();
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let l = strip(i.body).len() as int;
    let s2 = ss.take(ss.len() - l).push(d);
    let fs3 = owned_top(c, s2, fs2);
    let m = fs3.len() - 1;
    let f = fs3[m];
    assert(frame_ok(c, s2, fs3, m));
    let s = ss[ss.len() - 1 - l] as int;
    let x = Symbol::<V, T>::Variable(i.head);
    assert(0 <= s < sets(c).len() && reads_any(sets(c)[s], x) && d == tr(c, s, x));
    edge_dest(c, s, x);
    let st = step(sets(c)[s], x);
    if !st.contains(f.item) { closure_item(g, st, f.item); fresh_strip(f.item.head, f.item.body); }
    let j = choose|j: VItem<V, T>| #[trigger] sets(c)[s].contains(j) && reads(j) == Some(x) && f.item == read(j);
    assert(all_proper(g, sets(c)[s]));
    assert(all_proper(g, sets(c)[ss.last() as int]));
    assert(proper(g, i));
    read_not_fresh(g, j);
    skip_eps_range(j.body, j.dot + 1);
    der_unskip(g, f.n, j.body, j.dot + 1, f.item.dot, f.w);
    assert(i.body.take(i.dot) =~= i.body);
    let base = fs3.drop_last();
    let f1 = Frame { item: j, pos: f.pos - 1, w: f.w, n: f.n };
    let f2 = Frame { item: i, pos: ss.len() - 1, w: Seq::<T::TK>::empty(), n: 0 };
    let r = base.push(f1).push(f2);
    assert forall|q: int| 0 <= q < r.len() implies #[trigger] frame_ok(c, ss, r, q) by {
        if q < m {
            assert(frame_ok(c, s2, fs3, q));
            in_order(c, s2, fs3, q, m - 1);
            assert(r[q] == fs3[q]);
            assert(ss[fs3[q].pos] == s2[fs3[q].pos]);
            if q > 0 { assert(r[q - 1] == fs3[q - 1]); }
            assert(r[q + 1].item.head == fs3[q + 1].item.head);
        } else if q == m {
            if q > 0 { assert(r[q - 1] == fs3[q - 1]); }
        }
    }
    assert(r.drop_last() =~= base.push(f1));
    assert(base.push(f1).drop_last() =~= base);
    assert(rem(base.push(f1)) == f.w + rem(base));
    assert(rem(r) =~= rem(fs3));
    r
}
/// Whatever number of reductions take place in front of `k`, they take place in front of something that can follow.
proof fn chain<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>, n: nat) -> (fs: Seq<Frame<V, T>>)
    requires p.wf(), productive(p.auto().grammar), path(p.auto(), ss), !halts(p, ss, k, n),
    ensures ready(p.auto(), ss, fs), !halts(p, ss, first_key(rem(fs)), n),
    decreases n,
{
    let c = p.auto();
    assert(automaton(c.grammar, sets(c), c));
    let a = cell(p.table.action, ss.last() as int, k)->0;
    let s = ss.last() as int;
    assert(wants(c, s, k, a));
    let i = choose|i: VItem<V, T>| #[trigger] sets(c)[s].contains(i) && item_wants(c, s, i, k, a);
    assert(reads(i) is None);
    let s2 = red(p, ss, k)->0;
    let d = gcell(p.table.goto, ss[ss.len() - 1 - strip(i.body).len()] as int, i.head)->0;
    assert(jumps(c, ss[ss.len() - 1 - strip(i.body).len()] as int, i.head, d));
    let fs = if n == 0 {
        let k0 = has_kern(c, ss);
        let n0 = choose|n0: nat| #[trigger] clo(c.grammar, k0, n0).contains(i);
        complete_item(c, ss, i, k0, n0)
    } else {
        red_path(p, ss, k);
        let fs2 = chain(p, s2, k, (n - 1) as nat);
        back(p, ss, i, d, fs2)
    };
    reduce_cell(p, ss, fs);
    assert(red(p, ss, first_key(rem(fs))) == Some(s2));
    fs
}
/// One number for all the lookaheads.
proof fn common<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, ks: Set<Option<T::TK>>) -> (m: nat)
    ensures forall|k: Option<T::TK>| #[trigger] ks.contains(k) && halts_some(p, ss, k) ==> halts(p, ss, k, m),
    decreases ks.len(),
{
    if ks.len() == 0 {
        assert forall|k: Option<T::TK>| !#[trigger] ks.contains(k) by { if ks.contains(k) { assert(ks.remove(k).len() < ks.len()); } }
        0
    } else {
        let a = ks.choose();
        assert(ks.contains(a));
        let m0 = common(p, ss, ks.remove(a));
        if halts_some(p, ss, a) {
            let n = choose|n: nat| #[trigger] halts(p, ss, a, n);
            let m: nat = if n <= m0 { m0 } else { n };
            halts_up(p, ss, a, n, m);
            assert forall|k: Option<T::TK>| #[trigger] ks.contains(k) && halts_some(p, ss, k) implies halts(p, ss, k, m) by {
                if k != a { assert(ks.remove(a).contains(k)); halts_up(p, ss, k, m0, m); }
            }
            m
        } else {
            assert forall|k: Option<T::TK>| #[trigger] ks.contains(k) && halts_some(p, ss, k) implies halts(p, ss, k, m0) by { assert(ks.remove(a).contains(k)); }
            m0
        }
    }
}
proof fn always_halts<V: VxVar, T: VxAtom>(p: Slr<V, T>, ss: Seq<usize>, k: Option<T::TK>) -> (m: nat)
    requires p.wf(), productive(p.auto().grammar), path(p.auto(), ss),
    ensures halts(p, ss, k, m),
{
    let s = ss.last() as int;
    if !(0 <= s < p.table.action@.len()) { 0 } else {
        let ks = p.table.action@[s].map().dom();
        let m = common(p, ss, ks);
        if !halts(p, ss, k, m) {
            let fs = chain(p, ss, k, m);
            track_halts(p, ss, fs);
            assert(ks.contains(first_key(rem(fs))));
        }
        m
    }
}
proof fn stack_path<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>)
    requires stack_ok(c, st),
    ensures path(c, states_of(st)),
{
    let ss = states_of(st);
    assert forall|i: int| 1 <= i < ss.len() implies step_to(c, ss[i - 1] as int, #[trigger] ss[i] as int) by {
        assert(link(c, st[i - 1].state as int, st[i]));
        let x = choose|x: Symbol<V, T>| #[trigger] edge(c, st[i - 1].state as int, x, st[i].state as int) && fits(x, st[i].node);
        assert(edge(c, ss[i - 1] as int, x, ss[i] as int));
    }
}
/// A reduction is one of those counted.
proof fn moved_red<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, t: Option<Token<T>>, st2: Seq<ParseNode<V, T>>, t2: Option<Token<T>>, n: ParseNode<V, T>, h: nat)
    requires p.wf(), st.len() > 0, moved(p, st, t, st2, t2, n), t is None || t2 is Some, halts(p, states_of(st), token_key(t), h),
    ensures h > 0, halts(p, states_of(st2.push(n)), token_key(t), (h - 1) as nat), t2 == t,
{
    let ss = states_of(st);
    assert(ss.last() == st.last().state);
    let a = cell(p.table.action, st.last().state as int, token_key(t))->0;
    states_push(st, st.len() - a->amount, n);
    assert(ss[ss.len() - 1 - a->amount] == st2.last().state);
    assert(gcell(p.table.goto, st2.last().state as int, a->variable) == Some(n.state));
    assert(red(p, ss, token_key(t)) == Some(states_of(st2.push(n))));
}
//@ impl<V: VxVar, T: VxAtom> Slr<V, T>
//@ fn Slr::parse as=parse_ends
//@ sig fn parse_ends<'b>(&self, mut input: Lexer<'b, T>) -> Result<Cst<V, T>, ()>
requires self.wf(), input.wf(), productive(self.auto().grammar),
//@ at start
let ghost c = self.auto();
let ghost (rules, text) = (input.rules(), input.rest());
let ghost mut prev: Option<Token<T>> = None;
let ghost mut fuel: nat = 0;
//@ loop 0
invariant_except_break prev == next_token, prev is Some ==> halts(*self, states_of(stack@), token_key(prev), fuel),
invariant input.wf(), input.rules() == rules, stack_ok(c, stack@), current_state == stack@.last().state,
decreases 2 * input.rest().len() + (if next_token is Some { 1int } else { 0int }), fuel,
//@ at call handle_token 0 before
let ghost st0 = stack@;
let ghost t0 = next_token;
proof {
    if prev is None {
        stack_path(c, stack@);
        fuel = always_halts(*self, states_of(stack@), token_key(next_token));
    }
}
//@ at call push 0 before
proof { if next_token is Some { moved_red(*self, st0, t0, stack@, next_token, parse_node, fuel); fuel = (fuel - 1) as nat; } }
//@ at loop 0 end
proof { prev = next_token; }
//@ at loop 1 before
proof { stack_path(c, stack@); fuel = always_halts(*self, states_of(stack@), None::<T::TK>); }
//@ loop 1
invariant next_token is None, stack_ok(c, stack@), current_state == stack@.last().state, halts(*self, states_of(stack@), None::<T::TK>, fuel),
ensures true,
decreases fuel,
//@ at loop 1 top
let ghost st1 = stack@;
//@ at call push 1 before
proof { moved_red(*self, st1, None::<Token<T>>, stack@, None::<Token<T>>, parse_node, fuel); fuel = (fuel - 1) as nat; }
//@ end
