// The simulation of the machine.
//@ include machine.vx
//@ include mem.vx
//@ iterfn eps_closure
//@ rewrite-all Cow<'a, Nfa> =>> &'a Nfa
//@ rewrite-all Cow::Borrowed(self) =>> self
//@ rewrite-all HashSet::from([run]) =>> vx_set_of(run)
//@ rewrite-all VecDeque::from([run.clone()]) =>> vx_deque_of(run.clone())
//@ library
fn vx_set_of<T: VxKey>(x: T) -> (r: VxSet<T>) ensures r.set() == Set::<T::K>::empty().insert(x.key()) {
    let mut r = VxSet::new();
    r.insert(x);
    r
}
fn vx_deque_of<T>(x: T) -> (r: VxDeque<T>) ensures r.seq() == seq![x] {
    let mut r = VxDeque::new();
    r.push_back(x);
    assert(r.seq() =~= seq![x]);
    r
}
trait VxStr {
    spec fn vx_text(&self) -> Seq<char>;
    fn vx_chars(&self) -> (r: VxIt<char>) ensures r.pos() == 0, r.seq() == self.vx_text();
}
impl VxStr for str {
    spec fn vx_text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_chars(&self) -> (r: VxIt<char>) { unimplemented!() }
}
//@ file pango-lexer/src/fsm/nfa/sim.rs
//@ item NfaSimulator noderive
//@ item Run noderive
//@ prelude
impl VxKey for Run { type K = Cfg; closed spec fn key(&self) -> Cfg { self.cfg() } }
impl Run {
    spec fn cfg(&self) -> Cfg { Cfg { state: self.state_id, counts: self.state_counters.map() } }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

spec fn cfg_in(s: Seq<Run>, c: Cfg) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cfg() == c }
/// Exactly what is reached from `a` without reading.
spec fn closure_of(s: Seq<Run>, nfa: Nfa, a: Cfg) -> bool { forall|c: Cfg| #[trigger] cfg_in(s, c) <==> eps_star(nfa, a, c) }
spec fn tos(s: Seq<(&StateId, bool)>, to: StateId, quantified: bool) -> bool {
    exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == to && s[i].1 == quantified
}
impl<'a> NfaSimulator<'a> {
    spec fn sane(&self) -> bool { forall|i: int| 0 <= i < self.runs@.len() ==> self.nfa.has((#[trigger] self.runs@[i]).cfg()) }
    /// The runs are those after reading `h`.
    spec fn after(&self, h: Seq<char>) -> bool { self.sane() && forall|c: Cfg| #[trigger] cfg_in(self.runs@, c) <==> reach(*self.nfa, h, c) }
}
spec fn fin_in(nfa: Nfa, s: Seq<Run>) -> bool { exists|i: int| 0 <= i < s.len() && nfa.states@[(#[trigger] s[i]).state_id as int].fin }
/// Reached from `c` by reading `ch`.
spec fn next_of(nfa: Nfa, c: Cfg, ch: char, d: Cfg) -> bool { exists|b: Cfg| #[trigger] lit(nfa, c, ch, b) && eps_star(nfa, b, d) }
spec fn next_of_some(nfa: Nfa, s: Seq<Run>, n: int, ch: char, d: Cfg) -> bool { exists|i: int| 0 <= i < n && next_of(nfa, (#[trigger] s[i]).cfg(), ch, d) }
spec fn listed(s: Seq<&StateId>, to: StateId) -> bool { exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == to }
spec fn all_read(nfa: Nfa, c: Cfg, ch: char, s: Seq<&StateId>) -> bool { forall|i: int| 0 <= i < s.len() ==> reads(nfa, c, ch, *#[trigger] s[i]) }
spec fn covers_reads(s: Seq<&StateId>, ch: char, m: Seq<(&Input, &VxSet<StateId>)>, n: int) -> bool {
    forall|i: int, to: StateId| 0 <= i < n && *(#[trigger] m[i]).0 is Literal && in_literal(m[i].0->Literal_0, ch) && m[i].1.set().contains(to) ==> #[trigger] listed(s, to)
}
proof fn listed_add(s: Seq<&StateId>, t: Seq<&StateId>)
    ensures forall|to: StateId| listed(s, to) || listed(t, to) ==> #[trigger] listed(s + t, to)
{
    assert forall|to: StateId| listed(s, to) || listed(t, to) implies #[trigger] listed(s + t, to) by {
        if listed(s, to) {
            let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == to;
            assert((s + t)[i] == s[i]);
        } else {
            let i = choose|i: int| 0 <= i < t.len() && *#[trigger] t[i] == to;
            assert((s + t)[s.len() + i] == t[i]);
        }
    }
}
proof fn cfg_in_add(s: Seq<Run>, t: Seq<Run>)
    ensures forall|c: Cfg| #[trigger] cfg_in(s + t, c) <==> cfg_in(s, c) || cfg_in(t, c)
{
    assert forall|c: Cfg| #[trigger] cfg_in(s + t, c) <==> cfg_in(s, c) || cfg_in(t, c) by {
        if cfg_in(s, c) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cfg() == c;
            assert((s + t)[i] == s[i]);
        } else if cfg_in(t, c) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).cfg() == c;
            assert((s + t)[s.len() + i] == t[i]);
        } else if cfg_in(s + t, c) {
            let i = choose|i: int| 0 <= i < (s + t).len() && (#[trigger] (s + t)[i]).cfg() == c;
            if i < s.len() { assert(s[i].cfg() == c); } else { assert(t[i - s.len()].cfg() == c); }
        }
    }
}
proof fn covers_all_reads(nfa: Nfa, s: Seq<&StateId>, c: Cfg, ch: char, m: Seq<(&Input, &VxSet<StateId>)>)
    requires covers_reads(s, ch, m, m.len() as int), vx_lists_map(m, nfa.states@[c.state as int].transitions.map()),
    ensures forall|to: StateId| #[trigger] reads(nfa, c, ch, to) ==> listed(s, to)
{
    assert forall|to: StateId| #[trigger] reads(nfa, c, ch, to) implies listed(s, to) by {
        let l = choose|l: LiteralKind| #[trigger] nfa.edge(c.state as int, Input::Literal(l), to) && in_literal(l, ch);
        let i = choose|i: int| 0 <= i < m.len() && (*(#[trigger] m[i]).0).key() == Input::Literal(l);
        assert(*m[i].0 == Input::Literal(l) && m[i].1.set().contains(to));
    }
}
/// The closures of what is reached by going to the first `n` of `t`.
spec fn closures(s: Seq<Run>, nfa: Nfa, c: Cfg, t: Seq<&StateId>, n: int) -> bool {
    forall|d: Cfg| #[trigger] cfg_in(s, d) <==> closure_some(nfa, c, t, n, d)
}
spec fn closure_some(nfa: Nfa, c: Cfg, t: Seq<&StateId>, n: int, d: Cfg) -> bool {
    exists|j: int| 0 <= j < n && eps_star(nfa, left(nfa.limit(c.state as int), c, *#[trigger] t[j], false), d)
}
proof fn star_has(nfa: Nfa, a: Cfg, b: Cfg, n: nat)
    requires nfa.wf(), nfa.has(a), eps_n(nfa, a, b, n)
    ensures nfa.has(b)
    decreases n
{
    if n > 0 {
        let m = choose|m: Cfg| eps_n(nfa, a, m, (n - 1) as nat) && #[trigger] eps(nfa, m, b);
        star_has(nfa, a, m, (n - 1) as nat);
        eps_has(nfa, m, b);
    }
}
proof fn next_has(nfa: Nfa, a: Cfg, ch: char, b: Cfg)
    requires nfa.wf(), nfa.has(a), next_of(nfa, a, ch, b)
    ensures nfa.has(b)
{
    let m = choose|m: Cfg| #[trigger] lit(nfa, a, ch, m) && eps_star(nfa, m, b);
    lit_has(nfa, a, ch, m);
    star_has(nfa, m, b, choose|n: nat| eps_n(nfa, m, b, n));
}
/// Nothing is reached after a prefix after which nothing is reached.
proof fn dead(nfa: Nfa, h: Seq<char>, g: Seq<char>)
    requires h.is_prefix_of(g), forall|c: Cfg| !#[trigger] reach(nfa, h, c)
    ensures forall|c: Cfg| !#[trigger] reach(nfa, g, c)
    decreases g.len()
{
    if h.len() == g.len() {
        assert(h =~= g);
    } else {
        assert(h.is_prefix_of(g.drop_last()));
        dead(nfa, h, g.drop_last());
        assert forall|c: Cfg| !#[trigger] reach(nfa, g, c) by {
            if reach(nfa, g, c) {
                let (a, b) = choose|a: Cfg, b: Cfg| #![trigger lit(nfa, a, g.last(), b), eps_star(nfa, b, c)] reach(nfa, g.drop_last(), a) && lit(nfa, a, g.last(), b) && eps_star(nfa, b, c);
                assert(reach(nfa, g.drop_last(), a));
            }
        }
    }
}
proof fn fin_accepts(nfa: Nfa, s: Seq<Run>, h: Seq<char>)
    requires nfa.wf(), forall|c: Cfg| #[trigger] cfg_in(s, c) <==> reach(nfa, h, c), forall|i: int| 0 <= i < s.len() ==> nfa.has((#[trigger] s[i]).cfg())
    ensures fin_in(nfa, s) <==> accepts(nfa, h)
{
    if fin_in(nfa, s) {
        let i = choose|i: int| 0 <= i < s.len() && nfa.states@[(#[trigger] s[i]).state_id as int].fin;
        assert(cfg_in(s, s[i].cfg()));
        assert(at(nfa, h, s[i].state_id));
    }
    if accepts(nfa, h) {
        let q = choose|q: StateId| at(nfa, h, q);
        let c = choose|c: Cfg| #[trigger] reach(nfa, h, c) && c.state == q;
        assert(cfg_in(s, c));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cfg() == c;
        assert(nfa.states@[s[i].state_id as int].fin);
    }
}
spec fn permits(k: Input, c: Cfg, quantified: bool) -> bool {
    match k {
        Input::Literal(_) => false,
        Input::Eps => !quantified,
        Input::Quantified(q) => quantified && satisfied(q, count(c) as nat),
    }
}
spec fn all_free(nfa: Nfa, c: Cfg, s: Seq<(&StateId, bool)>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> free(nfa, c, *(#[trigger] s[i]).0, s[i].1)
}
/// `s` has what the first `n` transitions permit.
spec fn covers(s: Seq<(&StateId, bool)>, c: Cfg, m: Seq<(&Input, &VxSet<StateId>)>, n: int) -> bool {
    forall|i: int, to: StateId, quantified: bool| 0 <= i < n && permits(*(#[trigger] m[i]).0, c, quantified) && m[i].1.set().contains(to) ==> #[trigger] tos(s, to, quantified)
}
spec fn pairs(s: Seq<(&StateId, bool)>, t: Seq<&StateId>, n: int, quantified: bool) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> *(#[trigger] s[i]).0 == *t[i] && s[i].1 == quantified
}
spec fn pairs_set(s: Seq<(&StateId, bool)>, t: Set<StateId>, quantified: bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> t.contains(*(#[trigger] s[i]).0) && s[i].1 == quantified
    &&& forall|to: StateId| #[trigger] t.contains(to) ==> tos(s, to, quantified)
}
proof fn pairs_all(s: Seq<(&StateId, bool)>, t: Seq<&StateId>, set: Set<StateId>, quantified: bool)
    requires pairs(s, t, t.len() as int, quantified), vx_lists_ref(t, set)
    ensures pairs_set(s, set, quantified)
{
    assert forall|to: StateId| #[trigger] set.contains(to) implies tos(s, to, quantified) by {
        let i = choose|i: int| 0 <= i < t.len() && (*#[trigger] t[i]).key() == to;
        assert(*s[i].0 == to);
    }
    assert forall|i: int| 0 <= i < s.len() implies set.contains(*(#[trigger] s[i]).0) by { assert(set.contains((*t[i]).key())); }
}
proof fn tos_add(s: Seq<(&StateId, bool)>, t: Seq<(&StateId, bool)>)
    ensures forall|to: StateId, quantified: bool| tos(s, to, quantified) || tos(t, to, quantified) ==> #[trigger] tos(s + t, to, quantified)
{
    assert forall|to: StateId, quantified: bool| tos(s, to, quantified) || tos(t, to, quantified) implies #[trigger] tos(s + t, to, quantified) by {
        if tos(s, to, quantified) {
            let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == to && s[i].1 == quantified;
            assert((s + t)[i] == s[i]);
        } else {
            let i = choose|i: int| 0 <= i < t.len() && *(#[trigger] t[i]).0 == to && t[i].1 == quantified;
            assert((s + t)[s.len() + i] == t[i]);
        }
    }
}
proof fn covers_all(nfa: Nfa, s: Seq<(&StateId, bool)>, c: Cfg, m: Seq<(&Input, &VxSet<StateId>)>)
    requires covers(s, c, m, m.len() as int), vx_lists_map(m, nfa.states@[c.state as int].transitions.map()),
    ensures forall|to: StateId, quantified: bool| #[trigger] free(nfa, c, to, quantified) ==> tos(s, to, quantified)
{
    assert forall|to: StateId, quantified: bool| #[trigger] free(nfa, c, to, quantified) implies tos(s, to, quantified) by {
        let k = if quantified {
            Input::Quantified(choose|q: QuantifierKind| #[trigger] nfa.edge(c.state as int, Input::Quantified(q), to) && satisfied(q, count(c) as nat))
        } else { Input::Eps };
        assert(nfa.edge(c.state as int, k, to));
        let i = choose|i: int| 0 <= i < m.len() && (*(#[trigger] m[i]).0).key() == k;
        assert(permits(*m[i].0, c, quantified) && m[i].1.set().contains(to));
    }
}
/// `s` are the results of taking `t`.
spec fn taken(s: Seq<Run>, limit: Option<usize>, c: Cfg, t: Seq<(&StateId, bool)>, n: int) -> bool {
    s.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).cfg() == left(limit, c, *t[i].0, t[i].1)
}
/// Everything but `but` is closed or still to be looked at.
spec fn expanded(nfa: Nfa, seen: Set<Cfg>, todo: Seq<Run>, but: Option<Cfg>) -> bool {
    forall|x: Cfg, y: Cfg| seen.contains(x) && but != Some(x) && #[trigger] eps(nfa, x, y) ==> seen.contains(y) || cfg_in(todo, x)
}
proof fn cfg_in_push(s: Seq<Run>, t: Seq<Run>, x: Run)
    requires t == s.push(x) || t == seq![x] + s
    ensures forall|c: Cfg| #[trigger] cfg_in(t, c) <==> cfg_in(s, c) || c == x.cfg()
{
    let d: int = if t == s.push(x) { 0 } else { 1 };
    assert forall|c: Cfg| cfg_in(s, c) || c == x.cfg() implies #[trigger] cfg_in(t, c) by {
        if cfg_in(s, c) {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cfg() == c;
            assert(t[i + d].cfg() == c);
        } else {
            assert(t[if d == 0 { s.len() as int } else { 0 }].cfg() == c);
        }
    }
    assert forall|c: Cfg| #[trigger] cfg_in(t, c) implies cfg_in(s, c) || c == x.cfg() by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).cfg() == c;
        if 0 <= i - d < s.len() { assert(s[i - d].cfg() == c); }
    }
}
/// `x` is taken from either end of `s`.
spec fn popped(s: Seq<Run>, t: Seq<Run>, x: Run) -> bool { s.len() > 0 && (x == s[0] && t == s.skip(1) || x == s.last() && t == s.drop_last()) }
proof fn cfg_in_pop(s: Seq<Run>, t: Seq<Run>, x: Run)
    requires popped(s, t, x)
    ensures forall|c: Cfg| #[trigger] cfg_in(s, c) ==> cfg_in(t, c) || c == x.cfg(), forall|c: Cfg| #[trigger] cfg_in(t, c) ==> cfg_in(s, c), cfg_in(s, x.cfg()),
{
    let d: int = if x == s[0] && t == s.skip(1) { 1 } else { 0 };
    assert forall|c: Cfg| #[trigger] cfg_in(s, c) implies cfg_in(t, c) || c == x.cfg() by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).cfg() == c;
        if 0 <= i - d < t.len() { assert(t[i - d].cfg() == c); }
    }
    assert forall|c: Cfg| #[trigger] cfg_in(t, c) implies cfg_in(s, c) by {
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).cfg() == c;
        assert(s[i + d].cfg() == c);
    }
    assert(s[if d == 1 { 0 } else { s.len() - 1 }].cfg() == x.cfg());
}
proof fn eps_has(nfa: Nfa, a: Cfg, b: Cfg)
    requires nfa.wf(), nfa.has(a), eps(nfa, a, b)
    ensures nfa.has(b)
{}
proof fn lit_has(nfa: Nfa, a: Cfg, ch: char, b: Cfg)
    requires nfa.wf(), nfa.has(a), lit(nfa, a, ch, b)
    ensures nfa.has(b)
{}
proof fn eps_step(nfa: Nfa, a: Cfg, b: Cfg, c: Cfg)
    requires eps_star(nfa, a, b), eps(nfa, b, c)
    ensures eps_star(nfa, a, c)
{
    let n = choose|n: nat| eps_n(nfa, a, b, n);
    assert(eps_n(nfa, a, c, n + 1));
}
proof fn eps_closed(nfa: Nfa, s: Set<Cfg>, a: Cfg, b: Cfg, n: nat)
    requires s.contains(a), eps_n(nfa, a, b, n),
        forall|x: Cfg, y: Cfg| s.contains(x) && #[trigger] eps(nfa, x, y) ==> s.contains(y),
    ensures s.contains(b)
    decreases n
{
    if n > 0 {
        let m = choose|m: Cfg| eps_n(nfa, a, m, (n - 1) as nat) && #[trigger] eps(nfa, m, b);
        eps_closed(nfa, s, a, m, (n - 1) as nat);
    }
}
/// All configurations a machine can have.
spec fn valued(p: Set<Map<StateId, usize>>, id: StateId, l: nat) -> Set<Map<StateId, usize>> decreases l {
    let here = p.map(|m: Map<StateId, usize>| m.insert(id, l as usize));
    if l == 0 { here } else { here.union(valued(p, id, (l - 1) as nat)) }
}
spec fn count_maps(nfa: Nfa, k: nat) -> Set<Map<StateId, usize>> decreases k {
    if k == 0 { Set::empty().insert(Map::empty()) } else {
        let p = count_maps(nfa, (k - 1) as nat);
        match nfa.limit(k - 1) { None => p, Some(l) => p.union(valued(p, (k - 1) as usize, l as nat)) }
    }
}
spec fn cfgs(nfa: Nfa, k: nat) -> Set<Cfg> decreases k {
    if k == 0 { Set::empty() } else {
        cfgs(nfa, (k - 1) as nat).union(count_maps(nfa, nfa.states@.len()).map(|m: Map<StateId, usize>| Cfg { state: (k - 1) as usize, counts: m }))
    }
}
spec fn all_cfgs(nfa: Nfa) -> Set<Cfg> { cfgs(nfa, nfa.states@.len()) }
proof fn in_valued(p: Set<Map<StateId, usize>>, id: StateId, l: nat, m: Map<StateId, usize>, v: usize)
    requires p.contains(m), v <= l, l <= usize::MAX
    ensures valued(p, id, l).contains(m.insert(id, v))
    decreases l
{
    if v < l {
        in_valued(p, id, (l - 1) as nat, m, v);
    } else {
        let f = |m: Map<StateId, usize>| m.insert(id, l as usize);
        assert(p.map(f).contains(f(m)));
    }
}
proof fn in_count_maps(nfa: Nfa, k: nat, m: Map<StateId, usize>)
    requires k <= nfa.states@.len(), k <= usize::MAX,
        forall|i: StateId| #[trigger] m.dom().contains(i) ==> i < k && nfa.limit(i as int).is_some() && m[i] <= nfa.limit(i as int).unwrap(),
    ensures count_maps(nfa, k).contains(m)
    decreases k
{
    if k == 0 {
        assert(m =~= Map::empty());
    } else {
        let i = (k - 1) as usize;
        if m.dom().contains(i) {
            let p = m.remove(i);
            in_count_maps(nfa, (k - 1) as nat, p);
            in_valued(count_maps(nfa, (k - 1) as nat), i, nfa.limit(i as int).unwrap() as nat, p, m[i]);
            assert(p.insert(i, m[i]) =~= m);
        } else {
            in_count_maps(nfa, (k - 1) as nat, m);
        }
    }
}
proof fn in_cfgs(nfa: Nfa, k: nat, c: Cfg)
    requires nfa.has(c), c.state < k <= nfa.states@.len(), nfa.states@.len() <= usize::MAX
    ensures cfgs(nfa, k).contains(c)
    decreases k
{
    if c.state < k - 1 {
        in_cfgs(nfa, (k - 1) as nat, c);
    } else {
        in_count_maps(nfa, nfa.states@.len(), c.counts);
        let f = |m: Map<StateId, usize>| Cfg { state: (k - 1) as usize, counts: m };
        assert(count_maps(nfa, nfa.states@.len()).map(f).contains(f(c.counts)));
    }
}
proof fn few_cfgs(nfa: Nfa, s: Set<Cfg>)
    requires nfa.wf(), forall|c: Cfg| #[trigger] s.contains(c) ==> nfa.has(c)
    ensures s.len() <= all_cfgs(nfa).len()
{
    assert(nfa.states.len() == nfa.states@.len());
    assert forall|c: Cfg| #[trigger] s.contains(c) implies all_cfgs(nfa).contains(c) by { in_cfgs(nfa, nfa.states@.len(), c); }
    vstd::set_lib::lemma_len_subset(s, all_cfgs(nfa));
}
//@ file pango-lexer/src/fsm/nfa/sim.rs
//@ impl Run
//@ fn Run::new
ensures r.cfg() == (Cfg { state: state_id, counts: Map::empty() }),
//@ fn Run::take_transition
ensures r.cfg() == left(count_limit, self.cfg(), new_state_id, quantified),
//@ end
//@ impl<'a> NfaSimulator<'a>
//@ fn NfaSimulator::eps_closure
//@ sig fn eps_closure(&self, run: Run) -> VxIt<Run>
requires self.nfa.wf(), self.nfa.has(run.cfg()),
ensures r.pos() == 0, closure_of(r.seq(), *self.nfa, run.cfg()),
//@ at start
let ghost a = run.cfg();
proof { assert(eps_n(*self.nfa, a, a, 0)); }
//@ loop 0
invariant
    q == not_visited.seq(),
    result.set().contains(a),
    forall|c: Cfg| #[trigger] result.set().contains(c) ==> self.nfa.has(c) && eps_star(*self.nfa, a, c),
    forall|c: Cfg| #[trigger] cfg_in(q, c) ==> result.set().contains(c),
    expanded(*self.nfa, result.set(), q, None),
    result.set().len() <= all_cfgs(*self.nfa).len(),
decreases all_cfgs(*self.nfa).len() - result.set().len(), not_visited.seq().len(),
//@ at loop 0 before
let ghost mut q = not_visited.seq();
proof {
    assert(not_visited.seq()[0].cfg() == a);
    few_cfgs(*self.nfa, result.set());
}
//@ at loop 0 start
let ghost c0 = run.cfg();
let ghost seen = result.set();
let ghost rest = not_visited.seq();
proof { cfg_in_pop(q, rest, run); }
//@ loop 1
invariant vx_out1.pos() == 0, all_free(*self.nfa, c0, vx_out1.seq()), covers(vx_out1.seq(), c0, vx_s1, vx_it1.pos()),
//@ loop 2
invariant vx_out2.pos() == 0, pairs(vx_out2.seq(), vx_s2, vx_it2.pos(), false),
//@ at loop 2 after
proof { pairs_all(vx_out2.seq(), vx_s2, states.set(), false); }
//@ loop 3
invariant vx_out3.pos() == 0, pairs(vx_out3.seq(), vx_s3, vx_it3.pos(), true),
//@ at loop 3 after
proof { pairs_all(vx_out3.seq(), vx_s3, states.set(), true); }
//@ at loop 4 before
let ghost o4 = vx_out1.seq();
//@ loop 4
invariant vx_out1.pos() == 0, vx_out1.seq() == o4 + vx_s4.take(vx_it4.pos()),
//@ at loop 4 start
proof { assert(vx_s4.take(vx_it4.pos()) =~= vx_s4.take(vx_it4.pos() - 1).push(vx_x4)); }
//@ at loop 4 after
proof {
    assert(vx_s4.take(vx_it4.pos()) =~= vx_s4);
    tos_add(o4, vx_s4);
    let k = *vx_x1.0;
    assert(self.nfa.states@[c0.state as int].transitions.map().dom().contains(k.key()));
    let qf = k is Quantified;
    assert(permits(k, c0, qf));
    assert(pairs_set(vx_s4, vx_x1.1.set(), qf));
    assert forall|i: int| 0 <= i < vx_s4.len() implies free(*self.nfa, c0, *(#[trigger] vx_s4[i]).0, vx_s4[i].1) by {
        assert(self.nfa.edge(c0.state as int, k, *vx_s4[i].0));
    }
    assert forall|i: int| 0 <= i < vx_out1.seq().len() implies free(*self.nfa, c0, *(#[trigger] vx_out1.seq()[i]).0, vx_out1.seq()[i].1) by {
        if i < o4.len() { assert(vx_out1.seq()[i] == o4[i]); } else { assert(vx_out1.seq()[i] == vx_s4[i - o4.len()]); }
    }
}
//@ at loop 1 after
proof { covers_all(*self.nfa, vx_out1.seq(), c0, vx_s1); }
//@ loop 5
invariant vx_out4.pos() == 0, taken(vx_out4.seq(), count_limit, c0, vx_s5, vx_it5.pos()),
//@ at loop 6 before
proof {
    assert forall|y: Cfg| #[trigger] eps(*self.nfa, c0, y) implies cfg_in(vx_s6, y) by {
        let (to, qf) = choose|to: StateId, qf: bool| #[trigger] free(*self.nfa, c0, to, qf) && y == left(self.nfa.limit(c0.state as int), c0, to, qf);
        assert(tos(transitions_taken.seq(), to, qf));
        let i = choose|i: int| 0 <= i < transitions_taken.seq().len() && *(#[trigger] transitions_taken.seq()[i]).0 == to && transitions_taken.seq()[i].1 == qf;
        assert(vx_s6[i].cfg() == y);
    }
    assert forall|i: int| 0 <= i < vx_s6.len() implies eps(*self.nfa, c0, (#[trigger] vx_s6[i]).cfg()) by {
        assert(free(*self.nfa, c0, *transitions_taken.seq()[i].0, transitions_taken.seq()[i].1));
    }
}
//@ loop 6
invariant
    result.set().contains(a),
    forall|c: Cfg| #[trigger] result.set().contains(c) ==> self.nfa.has(c) && eps_star(*self.nfa, a, c),
    forall|c: Cfg| #[trigger] cfg_in(not_visited.seq(), c) ==> result.set().contains(c),
    expanded(*self.nfa, result.set(), not_visited.seq(), Some(c0)),
    forall|i: int| 0 <= i < vx_it6.pos() ==> result.set().contains((#[trigger] vx_s6[i]).cfg()),
    result.set().len() <= all_cfgs(*self.nfa).len(),
    result.set().len() >= seen.len(), result.set().len() == seen.len() ==> not_visited.seq() == rest,
    result.set().contains(c0),
//@ at loop 6 start
let ghost (r6, n6) = (result.set(), not_visited.seq());
proof {
    assert(eps(*self.nfa, c0, vx_x6.cfg()));
    eps_has(*self.nfa, c0, vx_x6.cfg());
    eps_step(*self.nfa, a, c0, vx_x6.cfg());
}
//@ at loop 6 end
proof {
    few_cfgs(*self.nfa, result.set());
    if not_visited.seq() != n6 { cfg_in_push(n6, not_visited.seq(), vx_x6); }
    assert(result.set() == r6 && not_visited.seq() == n6 || result.set() == r6.insert(vx_x6.cfg()) && not_visited.seq().len() == n6.len() + 1);
}
//@ at loop 6 after
proof {
    assert forall|x: Cfg, y: Cfg| result.set().contains(x) && #[trigger] eps(*self.nfa, x, y) implies result.set().contains(y) || cfg_in(not_visited.seq(), x) by {
        if x == c0 {
            assert(cfg_in(vx_s6, y));
            let i = choose|i: int| 0 <= i < vx_s6.len() && (#[trigger] vx_s6[i]).cfg() == y;
            assert(result.set().contains(vx_s6[i].cfg()));
        }
    }
}
//@ at loop 0 after
proof {
    assert forall|c: Cfg| eps_star(*self.nfa, a, c) implies result.set().contains(c) by {
        let n = choose|n: nat| eps_n(*self.nfa, a, c, n);
        eps_closed(*self.nfa, result.set(), a, c, n);
    }
}
//@ at end
proof {
    assert forall|c: Cfg| #[trigger] cfg_in(vx_tail.seq(), c) <==> eps_star(*self.nfa, a, c) by {
        if eps_star(*self.nfa, a, c) {
            let i = choose|i: int| 0 <= i < vx_tail.seq().len() && (#[trigger] vx_tail.seq()[i]).key() == c;
            assert(vx_tail.seq()[i].cfg() == c);
        }
        if cfg_in(vx_tail.seq(), c) {
            let i = choose|i: int| 0 <= i < vx_tail.seq().len() && (#[trigger] vx_tail.seq()[i]).cfg() == c;
            assert(vx_tail.seq()[i].key() == c);
        }
    }
}
//@ at loop 0 end
proof { q = not_visited.seq(); }
//@ fn NfaSimulator::new
//@ collect 0 Vec<Run>
requires nfa.wf(),
ensures r.nfa == nfa, r.after(Seq::empty()),
//@ loop 0
invariant vx_col1@ == vx_s0.take(vx_it0.pos()),
//@ at loop 0 start
proof { assert(vx_s0.take(vx_it0.pos()) =~= vx_s0.take(vx_it0.pos() - 1).push(vx_x0)); }
//@ at loop 0 after
proof { assert(vx_s0.take(vx_it0.pos()) =~= vx_s0); }
//@ at end
proof {
    assert forall|i: int| 0 <= i < sim.runs@.len() implies sim.nfa.has((#[trigger] sim.runs@[i]).cfg()) by {
        let c = sim.runs@[i].cfg();
        assert(cfg_in(sim.runs@, c));
        star_has(*nfa, nfa.init(), c, choose|n: nat| eps_n(*nfa, nfa.init(), c, n));
    }
    assert(sim.after(Seq::empty()));
}
//@ fn Simulate for NfaSimulator::is_accepting
requires self.nfa.wf(), self.sane(),
ensures r == fin_in(*self.nfa, self.runs@),
//@ loop 0
invariant vx_r1 ==> fin_in(*self.nfa, self.runs@),
    !vx_r1 ==> forall|i: int| 0 <= i < vx_it0.pos() ==> !self.nfa.states@[(#[trigger] self.runs@[i]).state_id as int].fin,
//@ at loop 0 start
proof { assert(self.nfa.has(self.runs@[vx_it0.pos() - 1].cfg())); }
//@ fn Simulate for NfaSimulator::feed
//@ collect 0 Vec<Run>
requires old(self).nfa.wf(), old(self).sane(),
ensures final(self).nfa == old(self).nfa, final(self).sane(),
    forall|h: Seq<char>| #[trigger] old(self).after(h) ==> final(self).after(h.push(input)) && r == accepts(*final(self).nfa, h.push(input)),
//@ at start
let ghost nfa = *self.nfa;
let ghost mut u = Set::<Cfg>::empty();
//@ loop 0
invariant forall|d: Cfg| #[trigger] updated_runs.set().contains(d) <==> next_of_some(nfa, self.runs@, vx_it0.pos(), input, d),
    *self == *old(self),
//@ at loop 0 start
let ghost c0 = vx_x0.cfg();
proof { assert(self.nfa.has(self.runs@[vx_it0.pos() - 1].cfg())); }
let ghost u0 = updated_runs.set();
//@ loop 1
invariant vx_out1.pos() == 0, all_read(nfa, c0, input, vx_out1.seq()), covers_reads(vx_out1.seq(), input, vx_s1, vx_it1.pos()),
//@ at loop 2 before
let ghost o2 = vx_out1.seq();
//@ loop 2
invariant vx_out1.pos() == 0, vx_out1.seq() == o2 + vx_s2.take(vx_it2.pos()),
//@ at loop 2 start
proof { assert(vx_s2.take(vx_it2.pos()) =~= vx_s2.take(vx_it2.pos() - 1).push(vx_x2)); }
//@ at loop 2 after
proof {
    assert(vx_s2.take(vx_it2.pos()) =~= vx_s2);
    listed_add(o2, vx_s2);
    let k = *vx_x1.0;
    assert(nfa.states@[c0.state as int].transitions.map().dom().contains(k.key()));
    assert forall|to: StateId| #[trigger] vx_x1.1.set().contains(to) implies listed(vx_s2, to) by {
        let j = choose|j: int| 0 <= j < vx_s2.len() && (*#[trigger] vx_s2[j]).key() == to;
        assert(*vx_s2[j] == to);
    }
    assert forall|i: int| 0 <= i < vx_out1.seq().len() implies reads(nfa, c0, input, *#[trigger] vx_out1.seq()[i]) by {
        if i < o2.len() { assert(vx_out1.seq()[i] == o2[i]); } else {
            assert(vx_x1.1.set().contains((*vx_s2[i - o2.len()]).key()));
            assert(vx_out1.seq()[i] == vx_s2[i - o2.len()]);
            assert(nfa.edge(c0.state as int, k, *vx_s2[i - o2.len()]));
        }
    }
}
//@ at loop 1 after
proof { covers_all_reads(nfa, vx_out1.seq(), c0, input, vx_s1); }
//@ loop 3
invariant vx_out2.pos() == 0, closures(vx_out2.seq(), nfa, c0, vx_s3, vx_it3.pos()),
//@ at loop 3 start
let ghost b3 = left(nfa.limit(c0.state as int), c0, *vx_x3, false);
let ghost o3 = vx_out2.seq();
proof {
    assert(reads(nfa, c0, input, *vx_x3));
    assert(lit(nfa, c0, input, b3));
    lit_has(nfa, c0, input, b3);
}
//@ at loop 4 before
proof { assert(closure_of(vx_s4, nfa, b3)); }
//@ loop 4
invariant vx_out2.pos() == 0, vx_out2.seq() == o3 + vx_s4.take(vx_it4.pos()),
//@ at loop 4 start
proof { assert(vx_s4.take(vx_it4.pos()) =~= vx_s4.take(vx_it4.pos() - 1).push(vx_x4)); }
//@ at loop 4 after
proof {
    assert(vx_s4.take(vx_it4.pos()) =~= vx_s4);
    cfg_in_add(o3, vx_s4);
    assert forall|d: Cfg| #[trigger] cfg_in(vx_out2.seq(), d) <==> closure_some(nfa, c0, vx_s3, vx_it3.pos(), d) by {
        if closure_some(nfa, c0, vx_s3, vx_it3.pos() - 1, d) {
            let j = choose|j: int| 0 <= j < vx_it3.pos() - 1 && eps_star(nfa, left(nfa.limit(c0.state as int), c0, *#[trigger] vx_s3[j], false), d);
            assert(0 <= j < vx_it3.pos());
        }
        if eps_star(nfa, b3, d) {
            assert(*vx_s3[vx_it3.pos() - 1] == *vx_x3);
        }
    }
}
//@ at loop 5 before
proof {
    assert forall|d: Cfg| #[trigger] cfg_in(vx_s5, d) <==> next_of(nfa, c0, input, d) by {
        if next_of(nfa, c0, input, d) {
            let b = choose|b: Cfg| #[trigger] lit(nfa, c0, input, b) && eps_star(nfa, b, d);
            let to = choose|to: StateId| #[trigger] reads(nfa, c0, input, to) && b == left(nfa.limit(c0.state as int), c0, to, false);
            assert(listed(new_state_ids.seq(), to));
            let j = choose|j: int| 0 <= j < new_state_ids.seq().len() && *#[trigger] new_state_ids.seq()[j] == to;
            assert(closure_some(nfa, c0, new_state_ids.seq(), new_state_ids.seq().len() as int, d));
        }
        if cfg_in(vx_s5, d) {
            assert(closure_some(nfa, c0, new_state_ids.seq(), new_state_ids.seq().len() as int, d));
            let j = choose|j: int| 0 <= j < new_state_ids.seq().len() && eps_star(nfa, left(nfa.limit(c0.state as int), c0, *#[trigger] new_state_ids.seq()[j], false), d);
            assert(reads(nfa, c0, input, *new_state_ids.seq()[j]));
            assert(lit(nfa, c0, input, left(nfa.limit(c0.state as int), c0, *new_state_ids.seq()[j], false)));
        }
    }
    assert forall|d: Cfg| !cfg_in(#[trigger] vx_s5.take(0), d) by {}
}
//@ loop 5
invariant forall|d: Cfg| #[trigger] updated_runs.set().contains(d) <==> u0.contains(d) || cfg_in(vx_s5.take(vx_it5.pos()), d),
//@ at loop 5 start
proof {
    assert(vx_s5.take(vx_it5.pos()) =~= vx_s5.take(vx_it5.pos() - 1).push(vx_x5));
    cfg_in_push(vx_s5.take(vx_it5.pos() - 1), vx_s5.take(vx_it5.pos() - 1).push(vx_x5), vx_x5);
}
//@ at loop 5 after
proof {
    assert(vx_s5.take(vx_it5.pos()) =~= vx_s5);
    let n = vx_it0.pos();
    assert forall|d: Cfg| #[trigger] updated_runs.set().contains(d) <==> next_of_some(nfa, self.runs@, n, input, d) by {
        if next_of_some(nfa, self.runs@, n - 1, input, d) {
            let i = choose|i: int| 0 <= i < n - 1 && next_of(nfa, (#[trigger] self.runs@[i]).cfg(), input, d);
            assert(0 <= i < n);
        }
        if next_of(nfa, c0, input, d) {
            assert(self.runs@[n - 1].cfg() == c0);
        }
    }
}
//@ at loop 0 after
proof { u = updated_runs.set(); }
//@ loop 6
invariant vx_col1@ == vx_s6.take(vx_it6.pos()),
//@ at loop 6 start
proof { assert(vx_s6.take(vx_it6.pos()) =~= vx_s6.take(vx_it6.pos() - 1).push(vx_x6)); }
//@ at loop 6 after
proof { assert(vx_s6.take(vx_it6.pos()) =~= vx_s6); }
//@ at call is_accepting 0 before
proof {
    assert forall|d: Cfg| #[trigger] cfg_in(self.runs@, d) <==> next_of_some(nfa, old(self).runs@, old(self).runs@.len() as int, input, d) by {
        if cfg_in(self.runs@, d) {
            let i = choose|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).cfg() == d;
            assert(self.runs@[i].key() == d);
        }
        if next_of_some(nfa, old(self).runs@, old(self).runs@.len() as int, input, d) {
            assert(u.contains(d));
            let i = choose|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).key() == d;
            assert(self.runs@[i].cfg() == d);
        }
    }
    assert forall|i: int| 0 <= i < self.runs@.len() implies nfa.has((#[trigger] self.runs@[i]).cfg()) by {
        let d = self.runs@[i].cfg();
        assert(cfg_in(self.runs@, d));
        let j = choose|j: int| 0 <= j < old(self).runs@.len() && next_of(nfa, (#[trigger] old(self).runs@[j]).cfg(), input, d);
        assert(nfa.has(old(self).runs@[j].cfg()));
        next_has(nfa, old(self).runs@[j].cfg(), input, d);
    }
    assert forall|h: Seq<char>| #[trigger] old(self).after(h) implies self.after(h.push(input)) && (fin_in(nfa, self.runs@) <==> accepts(nfa, h.push(input))) by {
        let g = h.push(input);
        assert(g.drop_last() =~= h);
        assert forall|d: Cfg| #[trigger] cfg_in(self.runs@, d) <==> reach(nfa, g, d) by {
            if cfg_in(self.runs@, d) {
                let j = choose|j: int| 0 <= j < old(self).runs@.len() && next_of(nfa, (#[trigger] old(self).runs@[j]).cfg(), input, d);
                let c = old(self).runs@[j].cfg();
                assert(cfg_in(old(self).runs@, c));
                let b = choose|b: Cfg| #[trigger] lit(nfa, c, input, b) && eps_star(nfa, b, d);
                assert(reach(nfa, g.drop_last(), c) && lit(nfa, c, g.last(), b) && eps_star(nfa, b, d));
            }
            if reach(nfa, g, d) {
                let (a, b) = choose|a: Cfg, b: Cfg| #![trigger lit(nfa, a, g.last(), b), eps_star(nfa, b, d)] reach(nfa, g.drop_last(), a) && lit(nfa, a, g.last(), b) && eps_star(nfa, b, d);
                assert(cfg_in(old(self).runs@, a));
                let j = choose|j: int| 0 <= j < old(self).runs@.len() && (#[trigger] old(self).runs@[j]).cfg() == a;
                assert(next_of(nfa, old(self).runs@[j].cfg(), input, d));
            }
        }
        fin_accepts(nfa, self.runs@, g);
    }
}
//@ fn Simulate for NfaSimulator::can_feed
requires self.nfa.wf(), self.sane(),
ensures !r ==> forall|h: Seq<char>, g: Seq<char>| #![trigger self.after(h), accepts(*self.nfa, g)] self.after(h) && h.push(input).is_prefix_of(g) ==> !accepts(*self.nfa, g),
    r ==> exists|i: int, l: LiteralKind| 0 <= i < self.runs@.len() && in_literal(l, input) && #[trigger] self.nfa.states@[self.runs@[i].state_id as int].transitions.map().dom().contains(Input::Literal(l)),
//@ loop 0
invariant forall|i: int, to: StateId| 0 <= i < vx_it0.pos() ==> !#[trigger] reads(*self.nfa, self.runs@[i].cfg(), input, to),
//@ at loop 0 start
proof { assert(self.nfa.has(self.runs@[vx_it0.pos() - 1].cfg())); }
let ghost c0 = vx_x0.cfg();
//@ loop 1
invariant
    vx_r1 ==> exists|l: LiteralKind| in_literal(l, input) && #[trigger] self.nfa.states@[c0.state as int].transitions.map().dom().contains(Input::Literal(l)),
    !vx_r1 ==> forall|i: int| 0 <= i < vx_it1.pos() ==> !(*#[trigger] vx_s1[i] is Literal && in_literal(vx_s1[i]->Literal_0, input)),
//@ at loop 1 start
proof { assert(self.nfa.states@[c0.state as int].transitions.map().dom().contains((*vx_x1).key())); }
//@ at loop 1 after
proof {
    if !vx_r1 {
        assert forall|to: StateId| !#[trigger] reads(*self.nfa, c0, input, to) by {
            if reads(*self.nfa, c0, input, to) {
                let l = choose|l: LiteralKind| #[trigger] self.nfa.edge(c0.state as int, Input::Literal(l), to) && in_literal(l, input);
                let i = choose|i: int| 0 <= i < vx_s1.len() && (*#[trigger] vx_s1[i]).key() == Input::Literal(l);
                assert(*vx_s1[i] == Input::Literal(l));
            }
        }
    }
}
//@ at end
proof {
    assert forall|h: Seq<char>, g: Seq<char>| #![trigger self.after(h), accepts(*self.nfa, g)] self.after(h) && h.push(input).is_prefix_of(g) implies !accepts(*self.nfa, g) by {
        let k = h.push(input);
        assert(k.drop_last() =~= h);
        assert forall|c: Cfg| !#[trigger] reach(*self.nfa, k, c) by {
            if reach(*self.nfa, k, c) {
                let (a, b) = choose|a: Cfg, b: Cfg| #![trigger lit(*self.nfa, a, k.last(), b), eps_star(*self.nfa, b, c)] reach(*self.nfa, k.drop_last(), a) && lit(*self.nfa, a, k.last(), b) && eps_star(*self.nfa, b, c);
                assert(cfg_in(self.runs@, a));
                let j = choose|j: int| 0 <= j < self.runs@.len() && (#[trigger] self.runs@[j]).cfg() == a;
                let to = choose|to: StateId| #[trigger] reads(*self.nfa, a, input, to) && b == left(self.nfa.limit(a.state as int), a, to, false);
                assert(reads(*self.nfa, self.runs@[j].cfg(), input, to));
            }
        }
        dead(*self.nfa, k, g);
    }
}
//@ fn NDSimulate for NfaSimulator::get_current_final_states
//@ sig fn get_current_final_states(&self) -> VxTreeSet<StateId>
//@ collect 1 VxTreeSet<StateId>
requires self.nfa.wf(), self.sane(),
ensures forall|h: Seq<char>, s: StateId| #![trigger self.after(h), r.set().contains(s)] #![trigger self.after(h), at(*self.nfa, h, s)] self.after(h) ==> (r.set().contains(s) <==> at(*self.nfa, h, s)),
//@ loop 0
invariant forall|s: StateId| #[trigger] vx_col1.set().contains(s) <==> exists|i: int| 0 <= i < vx_it0.pos() && (*#[trigger] vx_s0[i]).id == s,
//@ loop 1
invariant forall|s: StateId| #[trigger] vx_col2.set().contains(s) <==> final_state_ids.set().contains(s) && exists|i: int| 0 <= i < vx_it1.pos() && (*#[trigger] vx_s1[i]).state_id == s,
//@ at loop 1 before
proof {
    assert forall|s: StateId| #[trigger] final_state_ids.set().contains(s) <==> s < self.nfa.states@.len() && self.nfa.states@[s as int].fin by {}
}
//@ at loop 1 after
proof {
    assert forall|s: StateId| #[trigger] vx_col2.set().contains(s) <==> final_state_ids.set().contains(s) && exists|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).state_id == s by {
        if vx_col2.set().contains(s) {
            let i = choose|i: int| 0 <= i < vx_it1.pos() && (*#[trigger] vx_s1[i]).state_id == s;
            assert(self.runs@[i].state_id == s);
        }
        if exists|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).state_id == s {
            let i = choose|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).state_id == s;
            assert((*vx_s1[i]).state_id == s);
        }
    }
}
//@ at end
proof {
    assert forall|h: Seq<char>, s: StateId| #![trigger self.after(h), vx_tail.set().contains(s)] self.after(h) implies (vx_tail.set().contains(s) <==> at(*self.nfa, h, s)) by {
        if vx_tail.set().contains(s) {
            let i = choose|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).state_id == s;
            assert(cfg_in(self.runs@, self.runs@[i].cfg()));
        }
        if at(*self.nfa, h, s) {
            let c = choose|c: Cfg| #[trigger] reach(*self.nfa, h, c) && c.state == s;
            assert(cfg_in(self.runs@, c));
            let i = choose|i: int| 0 <= i < self.runs@.len() && (#[trigger] self.runs@[i]).cfg() == c;
            assert(self.runs@[i].state_id == s);
        }
    }
}
//@ file pango-lexer/src/fsm/traits.rs
//@ fn trait for Simulate::feed_str
requires old(self).nfa.wf(), old(self).after(Seq::empty()),
ensures r == accepts(*old(self).nfa, input@),
//@ loop 0
invariant self.nfa == old(self).nfa, self.after(input@.take(vx_it0.pos())),
    vx_it0.pos() > 0 ==> vx_r1 == Some(accepts(*self.nfa, input@.take(vx_it0.pos()))),
    vx_it0.pos() == 0 ==> vx_r1.is_none(),
//@ at loop 0 before
proof { assert(input@.take(0) =~= Seq::empty()); }
//@ at loop 0 start
proof { assert(input@.take(vx_it0.pos()) =~= input@.take(vx_it0.pos() - 1).push(vx_x0)); }
//@ at loop 0 after
proof { assert(input@.take(vx_it0.pos()) =~= input@); fin_accepts(*self.nfa, self.runs@, input@); }
//@ end
//@ file pango-lexer/src/fsm/nfa/sim.rs
//@ impl Nfa
//@ fn Simulatable for Nfa::to_simulator
//@ sig fn to_simulator<'a>(&'a self) -> NfaSimulator<'a>
requires self.wf(),
ensures r.nfa == self, r.after(Seq::empty()),
//@ fn Simulatable for Nfa::simulate
requires self.wf(),
ensures r == accepts(*self, input@),
//@ end
