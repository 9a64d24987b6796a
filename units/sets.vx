// What can come first, what can follow, and what can come last, from the rules
// of a grammar alone.
//@ prelude
/// Derives the empty string by a derivation of depth at most `n`.
spec fn nul_n<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>) -> bool
    decreases n, 1nat,
{
    forall|i: int| 0 <= i < b.len() ==> nul_sym(g, n, #[trigger] b[i])
}
spec fn nul_sym<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, x: Symbol<V, T>) -> bool
    decreases n, 0nat,
{
    match x {
        Symbol::Epsilon => true,
        Symbol::Terminal(_) => false,
        Symbol::Variable(v) => n > 0 && exists|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && nul_n(g, (n - 1) as nat, b),
    }
}
spec fn nullable<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>) -> bool { exists|n: nat| #[trigger] nul_n(g, n, b) }
/// Derives a string that starts with `t`.
spec fn fst_n<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, b: VBody<V, T>, t: T) -> bool
    decreases n, 1nat,
{
    exists|i: int| 0 <= i < b.len() && nullable(g, b.take(i)) && fst_sym(g, n, #[trigger] b[i], t)
}
spec fn fst_sym<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, x: Symbol<V, T>, t: T) -> bool
    decreases n, 0nat,
{
    match x {
        Symbol::Epsilon => false,
        Symbol::Terminal(u) => u == t,
        Symbol::Variable(v) => n > 0 && exists|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && fst_n(g, (n - 1) as nat, b, t),
    }
}
spec fn begins<V: VxVar, T: VxAtom>(g: Grammar<V, T>, b: VBody<V, T>, t: T) -> bool { exists|n: nat| #[trigger] fst_n(g, n, b, t) }
/// Position `i` of body `b` of `h` holds `v`.
spec fn holds<V: VxVar, T: VxAtom>(g: Grammar<V, T>, h: V, b: VBody<V, T>, i: int, v: V) -> bool {
    rule(g.rules, h, b) && 0 <= i < b.len() && b[i] == Symbol::<V, T>::Variable(v)
}
spec fn fol_n<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, v: V, t: T) -> bool
    decreases n,
{
    exists|h: V, b: VBody<V, T>, i: int| #[trigger] holds(g, h, b, i, v)
        && (begins(g, b.skip(i + 1), t) || n > 0 && nullable(g, b.skip(i + 1)) && fol_n(g, (n - 1) as nat, h, t))
}
/// `t` can come directly after `v`.
spec fn follows<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V, t: T) -> bool { exists|n: nat| #[trigger] fol_n(g, n, v, t) }
spec fn end_n<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: nat, v: V) -> bool
    decreases n,
{
    v == g.start_variable || n > 0 && exists|h: V, b: VBody<V, T>, i: int| #[trigger] holds(g, h, b, i, v)
        && nullable(g, b.skip(i + 1)) && end_n(g, (n - 1) as nat, h)
}
/// `v` can come last.
spec fn ends<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V) -> bool { exists|n: nat| #[trigger] end_n(g, n, v) }
