// The parser: what is on its stack, and the trees it makes.
//@ include-proved slrnew.vx
//@ include-proved lexstub.vx
//@ file pango-parser/src/cst.rs
//@ item Cst noderive
//@ item Node noderive
//@ file pango-parser/src/parser/slr.rs
//@ item ParseNode noderive
//@ library
/// `drain` from `n` on.
fn vx_drain_from<M>(n: usize, v: &mut Vec<M>) -> (r: VxIt<M>)
    requires n <= old(v)@.len(),
    ensures r.pos() == 0, r.seq() == old(v)@.skip(n as int), final(v)@ == old(v)@.take(n as int),
{
    let t = v.split_off(n);
    assert(t@ =~= old(v)@.skip(n as int));
    t.vx_into_iter()
}
//@ prelude
impl<'a, T: VxAtom> VxInto<Terminal<T>> for &'a T {
    open spec fn vx_becomes(&self, r: Terminal<T>) -> bool { r.key() == Some((**self).tkey()) }
    fn vx_into(self) -> (r: Terminal<T>) { Terminal::<T>::from(self) }
}
spec fn fits<V: VxVar, T: VxAtom>(x: Symbol<V, T>, n: Node<V, T>) -> bool {
    match (x, n.symbol) {
        (Symbol::Variable(a), Symbol::Variable(b)) => a == b,
        (Symbol::Terminal(a), Symbol::Terminal(b)) => a.tkey() == b.tkey(),
        _ => false,
    }
}
/// The children, last first, are what the body consists of.
spec fn spells<V: VxVar, T: VxAtom>(b: VBody<V, T>, ch: Seq<Node<V, T>>) -> bool {
    strip(b).len() == ch.len() && forall|i: int| 0 <= i < ch.len() ==> fits(strip(b)[ch.len() - 1 - i], #[trigger] ch[i])
}
spec fn derived<V: VxVar, T: VxAtom>(g: Grammar<V, T>, v: V, ch: Seq<Node<V, T>>) -> bool {
    exists|b: VBody<V, T>| #[trigger] rule(g.rules, v, b) && spells(b, ch)
}
/// The tree is a derivation.
spec fn valid<V: VxVar, T: VxAtom>(g: Grammar<V, T>, n: Node<V, T>) -> bool
    decreases n,
{
    match n.symbol {
        Symbol::Terminal(_) => n.children@.len() == 0,
        Symbol::Variable(v) => derived(g, v, n.children@) && forall|i: int| 0 <= i < n.children.len() ==> valid(g, #[trigger] n.children[i]),
        Symbol::Epsilon => false,
    }
}
/// The terminals of a tree from first to last.
spec fn leaves<V: VxVar, T: VxAtom>(n: Node<V, T>) -> Seq<T>
    decreases n, n.children.len() + 1,
{
    match n.symbol { Symbol::Terminal(t) => seq![t], _ => leaves_of(n, n.children.len() as int) }
}
spec fn leaves_of<V: VxVar, T: VxAtom>(n: Node<V, T>, k: int) -> Seq<T>
    decreases n, k,
{
    if 0 < k <= n.children.len() { leaves(n.children[k - 1]) + leaves_of(n, k - 1) } else { seq![] }
}
/// The terminals below what is on the stack.
spec fn spell<V: VxVar, T: VxAtom>(st: Seq<ParseNode<V, T>>) -> Seq<T>
    decreases st.len(),
{
    if st.len() <= 1 { seq![] } else { spell(st.drop_last()) + leaves(st.last().node) }
}
spec fn edge<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, x: Symbol<V, T>, d: int) -> bool {
    &&& 0 <= s < sets(c).len()
    &&& reads_any(sets(c)[s], x) && d == tr(c, s, x) || s == 0 && x == Symbol::<V, T>::Variable(c.grammar.start_variable) && d == final_state(c)
}
spec fn link<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, p: ParseNode<V, T>) -> bool {
    exists|x: Symbol<V, T>| #[trigger] edge(c, s, x, p.state as int) && fits(x, p.node)
}
spec fn stack_ok<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>) -> bool {
    &&& st.len() > 0 && st[0].state == 0
    &&& forall|i: int| 1 <= i < st.len() ==> link(c, st[i - 1].state as int, #[trigger] st[i]) && valid(c.grammar, st[i].node)
}
spec fn stacked<V: VxVar, T: VxAtom>(b: VBody<V, T>, st: Seq<ParseNode<V, T>>) -> bool {
    strip(b).len() < st.len() && forall|i: int| 0 <= i < strip(b).len() ==> fits(strip(b)[i], (#[trigger] st[st.len() - strip(b).len() + i]).node)
}
proof fn strip_skip<V, T>(b: VBody<V, T>, i: int, j: int)
    requires 0 <= i <= j <= b.len(), forall|k: int| i <= k < j ==> #[trigger] b[k] is Epsilon,
    ensures strip(b.take(j)) == strip(b.take(i)),
    decreases j - i,
{
    if i < j {
        strip_skip(b, i, j - 1);
        assert(b.take(j).drop_last() =~= b.take(j - 1));
        assert(b[j - 1] is Epsilon);
    }
}
/// An item of a closure is there from the start, or nothing of it has been read.
proof fn closure_item<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, i: VItem<V, T>)
    requires closure(g, k).contains(i), !k.contains(i),
    ensures i == fresh(i.head, i.body), calls(closure(g, k), i.head),
{
    let n = choose|n: nat| #[trigger] clo(g, k, n).contains(i);
    clo_item(g, k, i, n);
}
proof fn clo_item<V: VxVar, T: VxAtom>(g: Grammar<V, T>, k: VItems<V, T>, i: VItem<V, T>, n: nat)
    requires clo(g, k, n).contains(i), !k.contains(i),
    ensures i == fresh(i.head, i.body), calls(closure(g, k), i.head),
    decreases n,
{
    let p = clo(g, k, (n - 1) as nat);
    if p.contains(i) {
        clo_item(g, k, i, (n - 1) as nat);
    } else {
        let j = choose|j: VItem<V, T>| #[trigger] p.contains(j) && reads(j) == Some(Symbol::<V, T>::Variable(i.head));
        assert(closure(g, k).contains(j));
    }
}
/// In the first state nothing has been read.
proof fn start_fresh<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, i: VItem<V, T>)
    requires made(c), sets(c)[0].contains(i),
    ensures i == fresh(i.head, i.body), i.head == c.grammar.start_variable || calls(sets(c)[0], i.head),
{
    assert(automaton(c.grammar, sets(c), c));
    let k = kernel(c.grammar.start_variable, c.grammar.rules.map()[c.grammar.start_variable].set());
    if !k.contains(i) { closure_item(c.grammar, k, i); }
}
/// Reading goes past the start of a rule.
proof fn read_not_fresh<V: VxVar, T: VxAtom>(g: Grammar<V, T>, j: VItem<V, T>)
    requires proper(g, j), reads(j) is Some,
    ensures read(j) != fresh(j.head, j.body), j.dot < read(j).dot <= j.body.len(),
        strip(j.body.take(read(j).dot)) == strip(j.body.take(j.dot)).push(reads(j)->0),
{
    skip_eps_range(j.body, 0);
    skip_eps_range(j.body, j.dot + 1);
    if skip_eps(j.body, 0) > j.dot { assert(j.body[j.dot] is Epsilon); }
    strip_skip(j.body, j.dot + 1, read(j).dot);
    assert(j.body.take(j.dot + 1).drop_last() =~= j.body.take(j.dot));
}
proof fn fresh_strip<V: VxVar, T: VxAtom>(v: V, b: VBody<V, T>)
    ensures strip(b.take(fresh(v, b).dot)).len() == 0,
{
    skip_eps_range(b, 0);
    strip_skip(b, 0, skip_eps(b, 0));
}
/// An item of the state on top says what is on the stack below.
proof fn path_back<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>, i: VItem<V, T>)
    requires made(c), stack_ok(c, st), 0 <= st.last().state < sets(c).len(), sets(c)[st.last().state as int].contains(i),
    ensures stacked(i.body.take(i.dot), st), ({
        let s = st[st.len() - 1 - strip(i.body.take(i.dot)).len()].state as int;
        0 <= s < sets(c).len() && sets(c)[s].contains(fresh(i.head, i.body))
    }),
    decreases st.len(),
{
    let g = c.grammar;
    assert(automaton(g, sets(c), c));
    let d = st.last().state as int;
    if i == fresh(i.head, i.body) {
        fresh_strip(i.head, i.body);
    } else if st.len() == 1 {
        start_fresh(c, i);
    } else {
        let m = st.len() - 1;
        let s = st[m - 1].state as int;
        assert(link(c, s, st[m]));
        let x = choose|x: Symbol<V, T>| #[trigger] edge(c, s, x, d) && fits(x, st[m].node);
        assert(reads_any(sets(c)[s], x) && d == tr(c, s, x)) by {
            if !(reads_any(sets(c)[s], x) && d == tr(c, s, x)) {
                assert(d == final_state(c));
                assert(reads_any(sets(c)[0], x));
            }
        }
        edge_dest(c, s, x);
        if !step(sets(c)[s], x).contains(i) { closure_item(g, step(sets(c)[s], x), i); }
        let j = choose|j: VItem<V, T>| #[trigger] sets(c)[s].contains(j) && reads(j) == Some(x) && i == read(j);
        assert(all_proper(g, sets(c)[s]));
        read_not_fresh(g, j);
        let below = st.drop_last();
        assert(stack_ok(c, below));
        path_back(c, below, j);
        let (p, q) = (strip(j.body.take(j.dot)), strip(i.body.take(i.dot)));
        assert(q == p.push(x));
        assert forall|k: int| 0 <= k < q.len() implies fits(q[k], (#[trigger] st[st.len() - q.len() + k]).node) by {
            if k < p.len() {
                assert(below[below.len() - p.len() + k] == st[st.len() - q.len() + k]);
                assert(fits(p[k], below[below.len() - p.len() + k].node));
            }
        }
    }
}
/// There is a way on from where a rule starts.
proof fn goto_exists<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, v: V, b: VBody<V, T>)
    requires made(c), 0 <= s < sets(c).len(), sets(c)[s].contains(fresh(v, b)),
    ensures exists|d: usize| #[trigger] jumps(c, s, v, d),
{
    let g = c.grammar;
    let sts = sets(c);
    assert(automaton(g, sts, c));
    let i = fresh(v, b);
    if s == 0 {
        start_fresh(c, i);
        if reads_any(sts[0], Symbol::Variable(v)) {
            assert(jumps(c, s, v, tr(c, s, Symbol::Variable(v))));
        } else {
            assert(v == g.start_variable);
            assert(jumps(c, s, v, sts.len() as usize));
        }
    } else {
        assert(reached(g, sts, s));
        let (p, x) = choose|p: int, x: Symbol<V, T>| 0 <= p < s && #[trigger] reads_any(sts[p], x) && sts[s] == closure(g, step(sts[p], x));
        if step(sts[p], x).contains(i) {
            let j = choose|j: VItem<V, T>| #[trigger] sts[p].contains(j) && reads(j) == Some(x) && i == read(j);
            assert(all_proper(g, sts[p]));
            read_not_fresh(g, j);
        } else {
            closure_item(g, step(sts[p], x), i);
        }
        assert(jumps(c, s, v, tr(c, s, Symbol::Variable(v))));
    }
}
/// Only the start variable leads from the first state to the last.
proof fn final_edge<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, x: Symbol<V, T>)
    requires made(c), edge(c, 0, x, final_state(c)),
    ensures x == Symbol::<V, T>::Variable(c.grammar.start_variable),
{
    let g = c.grammar;
    let sts = sets(c);
    assert(automaton(g, sts, c));
    let y = Symbol::<V, T>::Variable(g.start_variable);
    if x != y {
        edge_dest(c, 0, x);
        edge_dest(c, 0, y);
        let j = choose|j: VItem<V, T>| #[trigger] sts[0].contains(j) && reads(j) == Some(x);
        let i = read(j);
        assert(step(sts[0], x).contains(i));
        clo_start(g, step(sts[0], x));
        assert(all_proper(g, sts[0]));
        read_not_fresh(g, j);
        start_fresh(c, j);
        if !step(sts[0], y).contains(i) { closure_item(g, step(sts[0], y), i); }
        let k = choose|k: VItem<V, T>| #[trigger] sts[0].contains(k) && reads(k) == Some(y) && i == read(k);
        start_fresh(c, k);
    }
}
proof fn spell_children<V: VxVar, T: VxAtom>(st: Seq<ParseNode<V, T>>, n: Node<V, T>, k: int)
    requires 0 <= k < st.len(), k <= n.children.len(), forall|i: int| 0 <= i < k ==> (#[trigger] n.children[i]) == st[st.len() - 1 - i].node,
    ensures spell(st) == spell(st.take(st.len() - k)) + leaves_of(n, k),
    decreases k,
{
    let m = st.len() - k;
    if k == 0 {
        assert(st.take(m) =~= st);
        assert(leaves_of(n, k) =~= seq![]);
        assert(spell(st) + seq![] =~= spell(st));
    } else {
        spell_children(st, n, k - 1);
        assert(st.take(m + 1).drop_last() =~= st.take(m));
        assert(st.take(m + 1).last() == st[m]);
        assert(n.children[k - 1] == st[m].node);
        assert(spell(st.take(m)) + leaves(st[m].node) + leaves_of(n, k - 1) =~= spell(st.take(m)) + (leaves(st[m].node) + leaves_of(n, k - 1)));
    }
}
spec fn kinds<T>(t: Option<Token<T>>) -> Seq<T> { match t { Some(t) => seq![t.kind], None => seq![] } }
spec fn token_key<T: VxAtom>(t: Option<Token<T>>) -> Option<T::TK> { match t { Some(t) => Some(t.kind.tkey()), None => None } }
/// `t` is the token at the start of `rest`, and `left` is what comes after it.
spec fn token_at<T>(rules: TokenRules<T>, rest: Seq<char>, t: Token<T>, left: Seq<char>) -> bool {
    let n = t.source.chars().len() as int;
    longest(rules, rest, n) && t.source.chars() == rest.take(n) && named(rules, rest.take(n), t.kind) && left == rest.skip(n)
}
/// The tokens from the start of `text` on, and what is left after each of them.
spec fn tokens<T>(rules: TokenRules<T>, text: Seq<char>, ts: Seq<Token<T>>, left: Seq<Seq<char>>) -> bool {
    left.len() == ts.len() + 1 && left[0] == text && forall|i: int| 0 <= i < ts.len() ==> token_at(rules, left[i], #[trigger] ts[i], left[i + 1])
}
spec fn token_kinds<T>(ts: Seq<Token<T>>) -> Seq<T> { ts.map_values(|t: Token<T>| t.kind) }
proof fn tokens_push<T: VxAtom>(rules: TokenRules<T>, text: Seq<char>, ts: Seq<Token<T>>, left: Seq<Seq<char>>, t: Token<T>, next: Seq<char>)
    requires tokens(rules, text, ts, left), token_at(rules, left.last(), t, next),
    ensures tokens(rules, text, ts.push(t), left.push(next)), token_kinds(ts.push(t)) == token_kinds(ts) + kinds(Some(t)),
{
    assert(token_kinds(ts.push(t)) =~= token_kinds(ts) + kinds(Some(t)));
}
proof fn spell_none<V: VxVar, T: VxAtom>(st: Seq<ParseNode<V, T>>)
    ensures spell(st) + kinds(None::<Token<T>>) == spell(st),
{
    assert(spell(st) + kinds(None::<Token<T>>) =~= spell(st));
}
/// What an action of the table means for the stack.
spec fn shifts<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, s: int, k: T::TK, d: int) -> bool {
    exists|t: T| #[trigger] edge(c, s, Symbol::Terminal(t), d) && t.tkey() == k
}
spec fn reduces<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>, v: V, n: int) -> bool {
    &&& n < st.len()
    &&& exists|b: VBody<V, T>| #[trigger] rule(c.grammar.rules, v, b) && strip(b).len() == n && stacked(b, st)
    &&& exists|d: usize| #[trigger] jumps(c, st[st.len() - 1 - n].state as int, v, d)
    &&& 0 <= st[st.len() - 1 - n].state < sets(c).len()
}
spec fn acts<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>, k: Option<T::TK>, a: ActionKind<V>) -> bool {
    match a {
        ActionKind::Shift { dest_state } => k is Some && shifts(c, st.last().state as int, k->0, dest_state as int),
        ActionKind::Reduce { variable, amount } => reduces(c, st, variable, amount as int),
        ActionKind::Accept => k is None && (st.len() == 2 ==> st[1].node.symbol == Symbol::<V, T>::Variable(c.grammar.start_variable)),
    }
}
proof fn action_acts<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, k: Option<T::TK>, a: ActionKind<V>)
    requires p.wf(), stack_ok(p.auto(), st), cell(p.table.action, st.last().state as int, k) == Some(a),
    ensures acts(p.auto(), st, k, a),
{
    let c = p.auto();
    let s = st.last().state as int;
    assert(automaton(c.grammar, sets(c), c));
    assert(wants(c, s, k, a));
    if a is Accept {
        assert(s == final_state(c) && k is None);
        if st.len() == 2 {
            assert(link(c, st[0].state as int, st[1]));
            let x = choose|x: Symbol<V, T>| #[trigger] edge(c, 0, x, s) && fits(x, st[1].node);
            final_edge(c, x);
        }
    } else {
        let i = choose|i: VItem<V, T>| #[trigger] sets(c)[s].contains(i) && item_wants(c, s, i, k, a);
        assert(all_proper(c.grammar, sets(c)[s]));
        assert(proper(c.grammar, i));
        match reads(i) {
            Some(x) => { assert(reads_any(sets(c)[s], x)); assert(edge(c, s, x, tr(c, s, x) as int)); }
            None => {
                path_back(c, st, i);
                assert(i.body.take(i.dot) =~= i.body);
                goto_exists(c, st[st.len() - 1 - strip(i.body).len()].state as int, i.head, i.body);
            }
        }
    }
}
/// What handling a token does to the stack and the token.
spec fn moved<V: VxVar, T: VxAtom>(p: Slr<V, T>, st: Seq<ParseNode<V, T>>, t: Option<Token<T>>, st2: Seq<ParseNode<V, T>>, t2: Option<Token<T>>, n: ParseNode<V, T>) -> bool {
    match cell(p.table.action, st.last().state as int, token_key(t)) {
        Some(ActionKind::Shift { dest_state }) => t is Some && t2 is None && st2 == st && n.state == dest_state,
        Some(ActionKind::Reduce { variable, amount }) => t2 == t && amount < st.len() && st2 == st.take(st.len() - amount) && jumps(p.auto(), st2.last().state as int, variable, n.state),
        _ => false,
    }
}
proof fn pushed<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>, p: ParseNode<V, T>, x: Symbol<V, T>)
    requires stack_ok(c, st), edge(c, st.last().state as int, x, p.state as int), fits(x, p.node), valid(c.grammar, p.node),
    ensures stack_ok(c, st.push(p)), spell(st.push(p)) == spell(st) + leaves(p.node),
{
    let n = st.push(p);
    assert(n.drop_last() =~= st);
    assert forall|i: int| 1 <= i < n.len() implies link(c, n[i - 1].state as int, #[trigger] n[i]) && valid(c.grammar, n[i].node) by {
        if i < st.len() { assert(link(c, st[i - 1].state as int, st[i])); }
    }
}
proof fn reduced<V: VxVar, T: VxAtom>(c: Cfsm<V, T>, st: Seq<ParseNode<V, T>>, v: V, n: int, p: ParseNode<V, T>)
    requires stack_ok(c, st), reduces(c, st, v, n), p.node.symbol == Symbol::<V, T>::Variable(v), jumps(c, st[st.len() - 1 - n].state as int, v, p.state),
        p.node.children@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] p.node.children@[i]) == st[st.len() - 1 - i].node, n >= 0,
    ensures stack_ok(c, st.take(st.len() - n).push(p)), spell(st.take(st.len() - n).push(p)) == spell(st),
{
    let below = st.take(st.len() - n);
    let b = choose|b: VBody<V, T>| #[trigger] rule(c.grammar.rules, v, b) && strip(b).len() == n && stacked(b, st);
    let ch = p.node.children@;
    assert forall|i: int| 0 <= i < ch.len() implies fits(strip(b)[ch.len() - 1 - i], #[trigger] ch[i]) by {
        let k = ch.len() - 1 - i;
        assert(fits(strip(b)[k], st[st.len() - strip(b).len() + k].node));
    }
    assert(derived(c.grammar, v, ch));
    assert forall|i: int| 0 <= i < p.node.children.len() implies valid(c.grammar, #[trigger] p.node.children[i]) by {
        assert(link(c, st[st.len() - 2 - i].state as int, st[st.len() - 1 - i]));
        assert(p.node.children@[i] == st[st.len() - 1 - i].node);
    }
    assert forall|i: int| 1 <= i < below.len() implies link(c, below[i - 1].state as int, #[trigger] below[i]) && valid(c.grammar, below[i].node) by { assert(link(c, st[i - 1].state as int, st[i])); }
    pushed(c, below, p, Symbol::Variable(v));
    spell_children(st, p.node, n);
}
//@ file pango-parser/src/cst.rs
//@ impl<V: VxVar, T: VxAtom> Node<V, T>
//@ fn Node::from_symbol
ensures r.symbol == symbol, r.children@.len() == 0,
//@ end
//@ file pango-parser/src/parser/slr.rs
//@ impl<V: VxVar, T: VxAtom> Slr<V, T>
//@ fn Slr::handle_token
//@ collect 0 Vec<Node<V, T>>
requires self.wf(), stack_ok(self.auto(), old(stack)@), current_state == old(stack)@.last().state,
ensures match r {
    Ok((p, false)) => stack_ok(self.auto(), final(stack)@.push(p)) && spell(final(stack)@.push(p)) + kinds(*final(token)) == spell(old(stack)@) + kinds(*old(token))
        && moved(*self, old(stack)@, *old(token), final(stack)@, *final(token), p),
    Ok((p, true)) => *old(token) is None && p.node.symbol == Symbol::<V, T>::Variable(self.auto().grammar.start_variable) && valid(self.auto().grammar, p.node)
        && leaves(p.node) == spell(old(stack)@),
    Err(_) => match cell(self.table.action, current_state as int, token_key(*old(token))) { Some(a) => a is Accept && old(stack)@.len() != 2, None => true },
},
//@ at start
let ghost c = self.auto();
let ghost st = stack@;
let ghost m = self.table.action@;
proof {
    assert forall|k: Option<T::TK>| current_state < m.len() && #[trigger] m[current_state as int].map().dom().contains(k) implies acts(c, st, k, m[current_state as int].map()[k]) by {
        action_acts(*self, st, k, m[current_state as int].map()[k]);
    }
    assert forall|s: int, v: V, d: usize| 0 <= s && #[trigger] jumps(c, s, v, d) implies s < self.table.goto@.len() && self.table.goto@[s].map().dom().contains(v) && self.table.goto@[s].map()[v] == d by {
        assert(gcell(self.table.goto, s, v) == Some(d));
    }
}
//@ loop 0
invariant vx_col1@.len() == vx_it0.pos(), forall|i: int| 0 <= i < vx_it0.pos() ==> #[trigger] vx_col1@[i] == vx_s0[i].node,
//@ at end
proof {
    let p = parse_node;
    match *action_kind {
        ActionKind::Shift { dest_state } => {
            let t = choose|t: T| #[trigger] edge(c, st.last().state as int, Symbol::Terminal(t), dest_state as int) && Some(t.tkey()) == terminal.key();
            pushed(c, st, p, Symbol::Terminal(t));
            assert(spell(st) + kinds(*old(token)) =~= spell(st) + leaves(p.node));
            assert(spell(stack@.push(p)) + kinds(*token) =~= spell(st) + leaves(p.node));
        }
        ActionKind::Reduce { variable, amount } => {
            let s = st[st.len() - 1 - amount].state as int;
            let d = choose|d: usize| #[trigger] jumps(c, s, variable, d);
            reduced(c, st, variable, amount as int, p);
        }
        ActionKind::Accept => {
            assert(link(c, st[0].state as int, st[1]));
            assert(st.drop_last().len() == 1);
            assert(spell(st.drop_last()) =~= Seq::<T>::empty());
            assert(spell(st) =~= leaves(st[1].node));
        }
    }
}
//@ fn Slr::parse
//@ sig fn parse<'b>(&self, mut input: Lexer<'b, T>) -> Result<Cst<V, T>, ()>
requires self.wf(), input.wf(),
ensures match r {
    Ok(t) => t.root.symbol == Symbol::<V, T>::Variable(self.auto().grammar.start_variable) && valid(self.auto().grammar, t.root)
        && exists|ts: Seq<Token<T>>, left: Seq<Seq<char>>| #[trigger] tokens(input.rules(), input.rest(), ts, left) && left.last().len() == 0 && leaves(t.root) == token_kinds(ts),
    Err(_) => true,
},
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ at start
let ghost c = self.auto();
let ghost (rules, text) = (input.rules(), input.rest());
let ghost mut ts: Seq<Token<T>> = seq![];
let ghost mut prev: Option<Token<T>> = None;
let ghost mut left: Seq<Seq<char>> = seq![text];
//@ loop 0
invariant_except_break prev == next_token, spell(stack@) + kinds(prev) == token_kinds(ts),
invariant input.wf(), input.rules() == rules, stack_ok(c, stack@), current_state == stack@.last().state, left.last() == input.rest(), tokens(rules, text, ts, left),
ensures spell(stack@) == token_kinds(ts),
//@ at loop 0 top
proof { spell_none(stack@); }
//@ at loop 0 start
proof {
    if prev is None {
        tokens_push(rules, text, ts, left, token, input.rest());
        spell_none(stack@);
        ts = ts.push(token);
        left = left.push(input.rest());
    }
}
//@ at loop 0 end
proof { prev = next_token; }
//@ loop 1
invariant input.rest().len() == 0, next_token is None, stack_ok(c, stack@), current_state == stack@.last().state, spell(stack@) == token_kinds(ts),
//@ end
