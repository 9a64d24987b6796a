// The machine of the lexer and what it accepts.
//@ include charset.vx
//@ include seqs.vx
//@ include maps.vx
//@ include mem.vx
//@ iterfn get_final_states
//@ library
type StateId = usize;
type Transitions = VxMap<Input, VxSet<StateId>>;
type StateCounters = VxTreeMap<StateId, usize>;
//@ file pango-lexer/src/fsm/nfa/model.rs
//@ item Nfa noderive
//@ item State noderive
//@ item Input noderive
//@ prelude
impl VxKey for Input { type K = Input; closed spec fn key(&self) -> Input { *self } }
/// A state and how often the counted states were left.
pub struct Cfg { pub state: StateId, pub counts: Map<StateId, usize> }
/// The count of the quantified transitions of a state.
spec fn is_limit(s: State, l: usize) -> bool {
    &&& exists|q: QuantifierKind| #[trigger] s.transitions.map().dom().contains(Input::Quantified(q)) && q_limit(q) == l
    &&& forall|q: QuantifierKind| #[trigger] s.transitions.map().dom().contains(Input::Quantified(q)) ==> q_limit(q) <= l
}
spec fn limit(s: State) -> Option<usize> {
    if exists|l: usize| is_limit(s, l) { Some(choose|l: usize| is_limit(s, l)) } else { None }
}
proof fn limit_is(s: State, l: usize)
    requires is_limit(s, l)
    ensures limit(s) == Some(l)
{
    let m = choose|l: usize| is_limit(s, l);
    assert(is_limit(s, m));
    let q = choose|q: QuantifierKind| #[trigger] s.transitions.map().dom().contains(Input::Quantified(q)) && q_limit(q) == l;
    let p = choose|q: QuantifierKind| #[trigger] s.transitions.map().dom().contains(Input::Quantified(q)) && q_limit(q) == m;
    assert(q_limit(q) <= m && q_limit(p) <= l);
}
impl Nfa {
    spec fn wf(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.states@.len() ==> (#[trigger] self.states@[i]).id == i
        &&& self.start_state < self.states@.len()
        &&& forall|i: int, k: Input, t: StateId| 0 <= i < self.states@.len() && #[trigger] self.edge(i, k, t) ==> t < self.states@.len()
    }
    spec fn edge(&self, i: int, k: Input, t: StateId) -> bool {
        self.states@[i].transitions.map().dom().contains(k) && self.states@[i].transitions.map()[k].set().contains(t)
    }
    spec fn limit(&self, i: int) -> Option<usize> { limit(self.states@[i]) }
    spec fn has(&self, c: Cfg) -> bool {
        &&& c.state < self.states@.len()
        &&& forall|k: StateId| #[trigger] c.counts.dom().contains(k) ==> k < self.states@.len() && self.limit(k as int).is_some() && c.counts[k] <= self.limit(k as int).unwrap()
    }
    spec fn init(&self) -> Cfg { Cfg { state: self.start_state, counts: Map::empty() } }
}
spec fn count(c: Cfg) -> usize { if c.counts.dom().contains(c.state) { c.counts[c.state] } else { 0 } }
/// `c` after leaving its state for `to`.
spec fn left(limit: Option<usize>, c: Cfg, to: StateId, quantified: bool) -> Cfg {
    Cfg {
        state: to,
        counts: match limit {
            None => c.counts,
            Some(l) => c.counts.insert(c.state, if quantified { 0 } else if count(c) < l { (count(c) + 1) as usize } else { count(c) }),
        },
    }
}
/// A transition that reads nothing may be taken.
spec fn free(nfa: Nfa, c: Cfg, to: StateId, quantified: bool) -> bool {
    if quantified {
        exists|q: QuantifierKind| #[trigger] nfa.edge(c.state as int, Input::Quantified(q), to) && satisfied(q, count(c) as nat)
    } else {
        nfa.edge(c.state as int, Input::Eps, to)
    }
}
spec fn eps(nfa: Nfa, c: Cfg, d: Cfg) -> bool {
    exists|to: StateId, quantified: bool| #[trigger] free(nfa, c, to, quantified) && d == left(nfa.limit(c.state as int), c, to, quantified)
}
spec fn reads(nfa: Nfa, c: Cfg, ch: char, to: StateId) -> bool {
    exists|l: LiteralKind| #[trigger] nfa.edge(c.state as int, Input::Literal(l), to) && in_literal(l, ch)
}
spec fn lit(nfa: Nfa, c: Cfg, ch: char, d: Cfg) -> bool {
    exists|to: StateId| #[trigger] reads(nfa, c, ch, to) && d == left(nfa.limit(c.state as int), c, to, false)
}
spec fn eps_n(nfa: Nfa, a: Cfg, b: Cfg, n: nat) -> bool decreases n {
    if n == 0 { a == b } else { exists|m: Cfg| eps_n(nfa, a, m, (n - 1) as nat) && #[trigger] eps(nfa, m, b) }
}
spec fn eps_star(nfa: Nfa, a: Cfg, b: Cfg) -> bool { exists|n: nat| eps_n(nfa, a, b, n) }
/// The configurations after reading `h`.
spec fn reach(nfa: Nfa, h: Seq<char>, c: Cfg) -> bool decreases h.len() {
    if h.len() == 0 { eps_star(nfa, nfa.init(), c) }
    else { exists|a: Cfg, b: Cfg| #![trigger lit(nfa, a, h.last(), b), eps_star(nfa, b, c)] reach(nfa, h.drop_last(), a) && lit(nfa, a, h.last(), b) && eps_star(nfa, b, c) }
}
spec fn at(nfa: Nfa, h: Seq<char>, s: StateId) -> bool {
    s < nfa.states@.len() && nfa.states@[s as int].fin && exists|c: Cfg| #[trigger] reach(nfa, h, c) && c.state == s
}
/// The final states among the first `n`.
spec fn final_states(s: Seq<&State>, nfa: Nfa, n: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (*#[trigger] s[i]).fin && (*s[i]).id < n && *s[i] == nfa.states@[(*s[i]).id as int]
    &&& forall|k: int| 0 <= k < n && (#[trigger] nfa.states@[k]).fin ==> exists|i: int| 0 <= i < s.len() && (*#[trigger] s[i]).id == k
}
spec fn accepts(nfa: Nfa, h: Seq<char>) -> bool { exists|s: StateId| at(nfa, h, s) }
//@ file pango-lexer/src/fsm/nfa/model.rs
//@ impl Nfa
//@ fn Nfa::get_state
requires self.wf(), state_id < self.states@.len(),
ensures *r == self.states@[state_id as int],
//@ loop 0
invariant vx_r1 == Some(&self.states@[state_id as int]) || vx_r1.is_none() && vx_it0.pos() <= state_id,
//@ fn Nfa::get_final_states
//@ sig fn get_final_states<'a>(&'a self) -> VxIt<&'a State>
requires self.wf(),
ensures r.pos() == 0, final_states(r.seq(), *self, self.states@.len() as int),
//@ loop 0
invariant vx_out1.pos() == 0, final_states(vx_out1.seq(), *self, vx_it0.pos()),
//@ at loop 0 start
let ghost o = vx_out1.seq();
//@ at loop 0 end
proof {
    assert(vx_out1.seq() == o || vx_out1.seq() == o.push(vx_x0));
    assert forall|k: int| 0 <= k < vx_it0.pos() && (#[trigger] self.states@[k]).fin implies exists|i: int| 0 <= i < vx_out1.seq().len() && (*#[trigger] vx_out1.seq()[i]).id == k by {
        if k < vx_it0.pos() - 1 {
            let i = choose|i: int| 0 <= i < o.len() && (*#[trigger] o[i]).id == k;
            assert(vx_out1.seq()[i] == o[i]);
        } else {
            assert((*vx_out1.seq()[o.len() as int]).id == k);
        }
    }
}
//@ end
//@ impl Input
//@ fn Input::can_take
ensures r == (self is Literal && in_literal(self->Literal_0, input)),
//@ end
//@ impl State
//@ fn State::count_limit
ensures r == limit(*self),
//@ loop 0
invariant
    vx_r1.is_none() ==> forall|i: int| 0 <= i < vx_it0.pos() ==> !(*#[trigger] vx_s0[i] is Quantified),
    vx_r1.is_some() ==> exists|q: QuantifierKind| #[trigger] self.transitions.map().dom().contains(Input::Quantified(q)) && q_limit(q) == vx_r1.unwrap(),
    vx_r1.is_some() ==> forall|i: int| 0 <= i < vx_it0.pos() && *#[trigger] vx_s0[i] is Quantified ==> q_limit(vx_s0[i]->Quantified_0) <= vx_r1.unwrap(),
//@ at loop 0 start
proof { assert(self.transitions.map().dom().contains((*vx_x0).key())); }
//@ at loop 0 after
proof {
    assert forall|q: QuantifierKind| #[trigger] self.transitions.map().dom().contains(Input::Quantified(q)) implies
        exists|i: int| 0 <= i < vx_s0.len() && *#[trigger] vx_s0[i] == Input::Quantified(q) by {
        let i = choose|i: int| 0 <= i < vx_s0.len() && (*#[trigger] vx_s0[i]).key() == Input::Quantified(q);
        assert(*vx_s0[i] == Input::Quantified(q));
    }
    if vx_r1.is_some() {
        assert(is_limit(*self, vx_r1.unwrap()));
        limit_is(*self, vx_r1.unwrap());
    }
}
//@ end
