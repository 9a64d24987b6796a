// The language of a grammar.
//@ prelude
/// A body derives a sequence of terminals, by trees with at most `n` variables.
spec fn der_n<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, w: Seq<T::TK>) -> bool
    decreases n, 1nat, b.len(),
{
    if b.len() == 0 { w.len() == 0 } else {
        exists|k: int, m: nat| #[trigger] splits(w, k, n, m) && der_sym(g, m, b[0], w.take(k)) && der_n(g, (n - m) as nat, b.skip(1), w.skip(k))
    }
}
spec fn splits<K>(w: Seq<K>, k: int, n: nat, m: nat) -> bool { 0 <= k <= w.len() && m <= n }
spec fn der_sym<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, x: Symbol<V, T>, w: Seq<T::TK>) -> bool
    decreases n, 0nat, 0nat,
{
    match x {
        Symbol::Epsilon => w.len() == 0,
        Symbol::Terminal(t) => w == seq![t.tkey()],
        Symbol::Variable(v) => n > 0 && exists|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && der_n(g, (n - 1) as nat, b, w),
    }
}
/// The first symbol derives the first `k` terminals, with `m` of the variables.
spec fn der_at<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, w: Seq<T::TK>, k: int, m: nat) -> bool {
    0 <= k <= w.len() && m <= n && der_sym(g, m, b[0], w.take(k)) && der_n(g, (n - m) as nat, b.skip(1), w.skip(k))
}
proof fn der_split<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, w: Seq<T::TK>) -> (r: (int, nat))
    requires der_n(g, n, b, w), b.len() > 0,
    ensures der_at(g, n, b, w, r.0, r.1),
{
    choose|k: int, m: nat| #[trigger] splits(w, k, n, m) && der_sym(g, m, b[0], w.take(k)) && der_n(g, (n - m) as nat, b.skip(1), w.skip(k))
}
proof fn der_join<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, w: Seq<T::TK>, k: int, m: nat)
    requires der_at(g, n, b, w, k, m), b.len() > 0,
    ensures der_n(g, n, b, w),
{
    assert(splits(w, k, n, m));
}
spec fn derives<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>, w: Seq<T::TK>) -> bool { exists|n: nat| #[trigger] der_n(g, n, b, w) }
/// The language of the grammar.
spec fn sentence<V: VxVar, T: VxAtom>(g: Grammar<V, T>, w: Seq<T::TK>) -> bool { exists|n: nat| #[trigger] der_sym(g, n, Symbol::Variable(g.start_variable), w) }
proof fn der_empty<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, w: Seq<T::TK>)
    requires der_n(g, n, b, w), w.len() == 0,
    ensures nul_n(g, n, b),
    decreases n, b.len(),
{
    if b.len() > 0 {
        let (k, m) = der_split(g, n, b, w);
        let r = b.skip(1);
        der_empty(g, (n - m) as nat, r, w.skip(k));
        nul_up(g, (n - m) as nat, n, r);
        if let Symbol::Variable(v) = b[0] {
            let c = choose|c: VBody<V, T>| #[trigger] rule(g.rules, v, c) && der_n(g, (m - 1) as nat, c, w.take(k));
            der_empty(g, (m - 1) as nat, c, w.take(k));
            nul_up(g, (m - 1) as nat, (n - 1) as nat, c);
        }
        assert(nul_sym(g, n, b[0]));
        assert forall|i: int| 0 <= i < b.len() implies nul_sym(g, n, #[trigger] b[i]) by { if i > 0 { assert(r[i - 1] == b[i]); } }
    }
}
spec fn begins_key<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>, k: T::TK) -> bool { exists|t: T| #[trigger] begins(g, b, t) && t.tkey() == k }
proof fn der_first<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, w: Seq<T::TK>)
    requires der_n(g, n, b, w), w.len() > 0,
    ensures begins_key(g, b, w[0]),
    decreases n, b.len(),
{
    let (k, m) = der_split(g, n, b, w);
    if k > 0 {
        assert(w.take(k)[0] == w[0]);
        assert(b.take(0) =~= seq![]);
        nullable_empty(g, b.take(0));
        match b[0] {
            Symbol::Variable(v) => {
                let c = choose|c: VBody<V, T>| #[trigger] rule(g.rules, v, c) && der_n(g, (m - 1) as nat, c, w.take(k));
                der_first(g, (m - 1) as nat, c, w.take(k));
                let t = choose|t: T| #[trigger] begins(g, c, t) && t.tkey() == w[0];
                let h = choose|h: nat| #[trigger] fst_n(g, h, c, t);
                assert(fst_sym(g, h + 1, b[0], t));
                assert(fst_n(g, h + 1, b, t));
                assert(begins(g, b, t));
            }
            Symbol::Terminal(t) => {
                assert(fst_sym(g, 0, b[0], t));
                assert(fst_n(g, 0, b, t));
                assert(begins(g, b, t));
            }
            Symbol::Epsilon => {}
        }
    } else {
        let r = b.skip(1);
        assert(w.skip(k) =~= w);
        der_first(g, (n - m) as nat, r, w.skip(k));
        let t = choose|t: T| #[trigger] begins(g, r, t) && t.tkey() == w[0];
        let h = choose|h: nat| #[trigger] fst_n(g, h, r, t);
        let i = choose|i: int| 0 <= i < r.len() && nullable(g, r.take(i)) && fst_sym(g, h, #[trigger] r[i], t);
        assert(b[i + 1] == r[i]);
        assert(b.take(i + 1) =~= seq![b[0]] + r.take(i));
        assert(nullable(g, seq![b[0]])) by {
            let x = seq![b[0]];
            let u = w.take(k);
            assert(x.skip(1) =~= seq![]);
            assert(u.skip(0) =~= seq![]);
            assert(u.take(0) =~= u);
            assert(der_n(g, 0, x.skip(1), u.skip(0)));
            der_join(g, m, x, u, 0, m);
            der_empty(g, m, x, u);
        }
        nullable_add(g, seq![b[0]], r.take(i));
        assert(fst_n(g, h, b, t));
        assert(begins(g, b, t));
    }
}
/// Empty strings can be left out.
proof fn der_skip<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, i: int, j: int, w: Seq<T::TK>)
    requires der_n(g, n, b.skip(i), w), 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] is Epsilon,
    ensures der_n(g, n, b.skip(j), w),
    decreases j - i,
{
    if i < j {
        let (k, m) = der_split(g, n, b.skip(i), w);
        assert(b.skip(i)[0] == b[i]);
        assert(b.skip(i).skip(1) =~= b.skip(i + 1));
        assert(w.skip(k) =~= w);
        der_up(g, (n - m) as nat, n, b.skip(i + 1), w);
        der_skip(g, n, b, i + 1, j, w);
    }
}
proof fn der_up<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, m: nat, b: VBody<V, T>, w: Seq<T::TK>)
    requires der_n(g, n, b, w), n <= m,
    ensures der_n(g, m, b, w),
    decreases b.len(),
{
    if b.len() > 0 {
        let (k, h) = der_split(g, n, b, w);
        der_up(g, (n - h) as nat, (m - h) as nat, b.skip(1), w.skip(k));
        der_join(g, m, b, w, k, h);
    }
}
