// The builder of grammars.
//@ include gram.vx
//@ file pango-parser/src/grammar.rs
//@ prelude
spec fn norm<V, T>(b: VBody<V, T>) -> VBody<V, T> { if b.len() == 0 { seq![Symbol::Epsilon] } else { b } }
/// The rules after another one has been added.
spec fn added<V: VxVar, T: VxAtom>(o: Rules<V, T>, n: Rules<V, T>, v: V, b: VBody<V, T>) -> bool {
    &&& n.map().dom() == o.map().dom().insert(v)
    &&& forall|w: V, c: VBody<V, T>| #[trigger] rule(n, w, c) <==> rule(o, w, c) || w == v && c == norm(b)
}
/// The rules after a list of bodies has been added.
spec fn added_all<V: VxVar, T: VxAtom>(o: Rules<V, T>, n: Rules<V, T>, v: V, bs: Seq<Body<V, T>>) -> bool {
    &&& n.map().dom() == (if bs.len() == 0 { o.map().dom() } else { o.map().dom().insert(v) })
    &&& forall|w: V, c: VBody<V, T>| #[trigger] rule(n, w, c) <==> rule(o, w, c) || w == v && exists|i: int| 0 <= i < bs.len() && c == norm((#[trigger] bs[i])@)
}
spec fn all_become<V: VxVar, T: VxAtom, B: VxInto<Body<V, T>>>(xs: Seq<B>, bs: Seq<Body<V, T>>) -> bool {
    xs.len() == bs.len() && forall|i: int| #![trigger bs[i]] 0 <= i < bs.len() ==> xs[i].vx_becomes(bs[i])
}
/// A variable occurs in a body; in one of a set of bodies.
spec fn occurs<V: VxVar, T: VxAtom>(c: VBody<V, T>, v: V) -> bool {
    exists|i: int| 0 <= i < c.len() && #[trigger] c[i] == Symbol::<V, T>::Variable(v)
}
spec fn occurs_in<V: VxVar, T: VxAtom>(cs: Set<VBody<V, T>>, v: V) -> bool {
    exists|c: VBody<V, T>| #[trigger] cs.contains(c) && occurs(c, v)
}
spec fn used<V: VxVar, T: VxAtom>(rules: Rules<V, T>, v: V) -> bool {
    exists|w: V, c: VBody<V, T>| #[trigger] rule(rules, w, c) && occurs(c, v)
}
/// Building does not fail.
spec fn complete<V: VxVar, T: VxAtom>(b: GrammarBuilder<V, T>) -> bool {
    &&& b.start_variable.is_some()
    &&& b.rules.map().dom().contains(b.start_variable.unwrap())
    &&& forall|v: V| #[trigger] used(b.rules, v) ==> b.rules.map().dom().contains(v)
}
/// No rule has an empty body. True of a new builder and kept by every operation.
spec fn no_empty<V: VxVar, T: VxAtom>(rules: Rules<V, T>) -> bool { forall|v: V, b: VBody<V, T>| #[trigger] rule(rules, v, b) ==> 0 < b.len() <= usize::MAX }
proof fn is_whole<V: VxVar, T: VxAtom>(b: GrammarBuilder<V, T>)
    requires complete(b), no_empty(b.rules),
    ensures whole(Grammar { start_variable: b.start_variable.unwrap(), rules: b.rules }),
{
    assert forall|v: V, c: VBody<V, T>, i: int| #[trigger] rule(b.rules, v, c) && 0 <= i < c.len() implies match #[trigger] c[i] { Symbol::Variable(w) => b.rules.map().dom().contains(w), _ => true } by {
        match c[i] {
            Symbol::Variable(w) => { assert(occurs(c, w)); assert(used(b.rules, w)); }
            _ => {}
        }
    }
}
//@ impl<V: VxVar, T: VxAtom> GrammarBuilder<V, T>
//@ fn GrammarBuilder::new
ensures r.start_variable.is_none(), r.rules.map().dom() == Set::<V>::empty(),
    forall|w: V, c: VBody<V, T>| !#[trigger] rule(r.rules, w, c), no_empty(r.rules),
//@ fn GrammarBuilder::set_start_variable
ensures final(self).start_variable == Some(variable), final(self).rules == old(self).rules,
//@ fn GrammarBuilder::with_start_variable
ensures r.start_variable == Some(variable), r.rules == self.rules,
//@ fn GrammarBuilder::add_rule
//@ sig fn add_rule<B: VxInto<Body<V, T>>>(&mut self, variable: V, body: B) -> bool
ensures final(self).start_variable == old(self).start_variable,
    exists|b: Body<V, T>| #[trigger] body.vx_becomes(b) && added(old(self).rules, final(self).rules, variable, b@)
        && r == !rule(old(self).rules, variable, norm(b@)),
    no_empty(old(self).rules) ==> no_empty(final(self).rules),
//@ at end
proof {
    let b = choose|b: Body<V, T>| #[trigger] body0.vx_becomes(b) && added(old(self).rules, self.rules, variable, b@);
    assert(b@.len() == b.len());
    assert(0 < norm(b@).len() <= usize::MAX);
    assert forall|w: V, c: VBody<V, T>| no_empty(old(self).rules) && #[trigger] rule(self.rules, w, c) implies 0 < c.len() <= usize::MAX by {
        assert(rule(old(self).rules, w, c) || c == norm(b@));
    }
}
//@ at start
let ghost body0 = body;
//@ fn GrammarBuilder::with_rule
//@ sig fn with_rule<B: VxInto<Body<V, T>>>(mut self, variable: V, body: B) -> Self
ensures r.start_variable == self.start_variable,
    exists|b: Body<V, T>| #[trigger] body.vx_becomes(b) && added(self.rules, r.rules, variable, b@),
    no_empty(self.rules) ==> no_empty(r.rules),
//@ fn GrammarBuilder::add_rules
//@ sig fn add_rules<B: VxInto<Body<V, T>>>(&mut self, variable: V, bodies: VxIt<B>)
requires bodies.pos() == 0,
ensures final(self).start_variable == old(self).start_variable,
    exists|bs: Seq<Body<V, T>>| #[trigger] all_become(bodies.seq(), bs) && added_all(old(self).rules, final(self).rules, variable, bs),
    no_empty(old(self).rules) ==> no_empty(final(self).rules),
//@ at start
let ghost mut bs = Seq::<Body<V, T>>::empty();
//@ loop 0
invariant self.start_variable == old(self).start_variable, vx_s0 == bodies.seq(),
    all_become(bodies.seq().take(vx_it0.pos()), bs), added_all(old(self).rules, self.rules, variable, bs),
    no_empty(old(self).rules) ==> no_empty(self.rules),
//@ at loop 0 start
let ghost before = self.rules;
let ghost i = vx_it0.pos() - 1;
//@ at loop 0 end
proof {
    let b = choose|b: Body<V, T>| #[trigger] vx_s0[i].vx_becomes(b) && added(before, self.rules, variable, b@);
    let obs = bs;
    bs = bs.push(b);
    assert(bodies.seq().take(i + 1) =~= bodies.seq().take(i).push(vx_s0[i]));
    assert forall|w: V, c: VBody<V, T>| #[trigger] rule(self.rules, w, c) <==> rule(old(self).rules, w, c) || w == variable && exists|i: int| 0 <= i < bs.len() && c == norm((#[trigger] bs[i])@) by {
        if w == variable && c == norm(b@) { assert(c == norm(bs[obs.len() as int]@)); }
        if exists|i: int| 0 <= i < obs.len() && c == norm((#[trigger] obs[i])@) {
            let k = choose|i: int| 0 <= i < obs.len() && c == norm((#[trigger] obs[i])@);
            assert(c == norm(bs[k]@));
        }
        if exists|i: int| 0 <= i < bs.len() && c == norm((#[trigger] bs[i])@) {
            let k = choose|i: int| 0 <= i < bs.len() && c == norm((#[trigger] bs[i])@);
            if k < obs.len() { assert(c == norm(obs[k]@)); }
        }
    }
    assert(self.rules.map().dom() =~= old(self).rules.map().dom().insert(variable));
}
//@ at end
proof { assert(bodies.seq().take(bodies.seq().len() as int) =~= bodies.seq()); assert(all_become(bodies.seq(), bs)); }
//@ fn GrammarBuilder::with_rules
//@ sig fn with_rules<B: VxInto<Body<V, T>>>(mut self, variable: V, bodies: VxIt<B>) -> Self
requires bodies.pos() == 0,
ensures r.start_variable == self.start_variable,
    exists|bs: Seq<Body<V, T>>| #[trigger] all_become(bodies.seq(), bs) && added_all(self.rules, r.rules, variable, bs),
    no_empty(self.rules) ==> no_empty(r.rules),
//@ fn GrammarBuilder::build
// no panic for a complete grammar
requires complete(self),
ensures r.start_variable == self.start_variable.unwrap(), r.rules == self.rules, no_empty(self.rules) ==> whole(r),
//@ loop 0
invariant
    forall|v: V| #[trigger] heads.set().contains(v) <==> exists|i: int| 0 <= i < vx_it0.pos() && *(#[trigger] vx_s0[i]).0 == v,
    forall|v: V| #[trigger] variables.set().contains(v) <==> exists|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v),
//@ loop 1
invariant
    forall|v: V| #[trigger] variables.set().contains(v) <==> (exists|i: int| 0 <= i < vx_it0.pos() - 1 && occurs_in((#[trigger] vx_s0[i]).1.set(), v))
        || (exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v)),
//@ at loop 1 after
proof {
    assert forall|v: V| (exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v)) <==> #[trigger] occurs_in(bodies.set(), v) by {
        if occurs_in(bodies.set(), v) {
            let c = choose|c: VBody<V, T>| #[trigger] bodies.set().contains(c) && occurs(c, v);
            let i = choose|i: int| 0 <= i < vx_s1.len() && (*#[trigger] vx_s1[i]).key() == c;
            assert(occurs(vx_s1[i]@, v));
        }
        if exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v) {
            let i = choose|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v);
            assert(bodies.set().contains((*vx_s1[i]).key()));
        }
    }
    assert forall|v: V| #[trigger] variables.set().contains(v) implies exists|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v) by {
        if occurs_in(bodies.set(), v) { assert(occurs_in(vx_s0[vx_it0.pos() - 1].1.set(), v)); }
    }
}
//@ loop 2
invariant
    forall|v: V| #[trigger] variables.set().contains(v) <==> (exists|i: int| 0 <= i < vx_it0.pos() - 1 && occurs_in((#[trigger] vx_s0[i]).1.set(), v))
        || (exists|i: int| 0 <= i < vx_it1.pos() - 1 && occurs((#[trigger] vx_s1[i])@, v))
        || (exists|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v)),
//@ at loop 2 after
proof {
    assert forall|v: V| (exists|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v)) <==> #[trigger] occurs(body@, v) by {
        if occurs(body@, v) {
            let i = choose|i: int| 0 <= i < body@.len() && #[trigger] body@[i] == Symbol::<V, T>::Variable(v);
            assert(*vx_s2[i] == Symbol::<V, T>::Variable(v));
        }
        if exists|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v) {
            let i = choose|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v);
            assert(body@[i] == Symbol::<V, T>::Variable(v));
        }
    }
    assert forall|v: V| #[trigger] variables.set().contains(v) implies (exists|i: int| 0 <= i < vx_it0.pos() - 1 && occurs_in((#[trigger] vx_s0[i]).1.set(), v))
        || (exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v)) by {
        if occurs(body@, v) { assert(occurs(vx_s1[vx_it1.pos() - 1]@, v)); }
    }
}
//@ at loop 0 after
proof {
    if complete(self) && no_empty(self.rules) { is_whole(self); }
    assert(heads.set() =~= self.rules.map().dom());
    assert forall|v: V| #[trigger] variables.set().contains(v) <==> used(self.rules, v) by {
        if used(self.rules, v) {
            let (w, c) = choose|w: V, c: VBody<V, T>| #[trigger] rule(self.rules, w, c) && occurs(c, v);
            let i = choose|i: int| 0 <= i < vx_s0.len() && (*(#[trigger] vx_s0[i]).0).key() == w;
            assert(occurs_in(vx_s0[i].1.set(), v));
        }
        if exists|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v) {
            let i = choose|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v);
            let c = choose|c: VBody<V, T>| #[trigger] vx_s0[i].1.set().contains(c) && occurs(c, v);
            assert(rule(self.rules, *vx_s0[i].0, c));
        }
    }
}
//@ fn GrammarBuilder::build as=build_or_panic panic=ret
// and a panic for any other
ensures complete(self), r.start_variable == self.start_variable.unwrap(), r.rules == self.rules, no_empty(self.rules) ==> whole(r),
//@ loop 0
invariant
    forall|v: V| #[trigger] heads.set().contains(v) <==> exists|i: int| 0 <= i < vx_it0.pos() && *(#[trigger] vx_s0[i]).0 == v,
    forall|v: V| #[trigger] variables.set().contains(v) <==> exists|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v),
//@ loop 1
invariant
    forall|v: V| #[trigger] variables.set().contains(v) <==> (exists|i: int| 0 <= i < vx_it0.pos() - 1 && occurs_in((#[trigger] vx_s0[i]).1.set(), v))
        || (exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v)),
//@ at loop 1 after
proof {
    assert forall|v: V| (exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v)) <==> #[trigger] occurs_in(bodies.set(), v) by {
        if occurs_in(bodies.set(), v) {
            let c = choose|c: VBody<V, T>| #[trigger] bodies.set().contains(c) && occurs(c, v);
            let i = choose|i: int| 0 <= i < vx_s1.len() && (*#[trigger] vx_s1[i]).key() == c;
            assert(occurs(vx_s1[i]@, v));
        }
        if exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v) {
            let i = choose|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v);
            assert(bodies.set().contains((*vx_s1[i]).key()));
        }
    }
    assert forall|v: V| #[trigger] variables.set().contains(v) implies exists|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v) by {
        if occurs_in(bodies.set(), v) { assert(occurs_in(vx_s0[vx_it0.pos() - 1].1.set(), v)); }
    }
}
//@ loop 2
invariant
    forall|v: V| #[trigger] variables.set().contains(v) <==> (exists|i: int| 0 <= i < vx_it0.pos() - 1 && occurs_in((#[trigger] vx_s0[i]).1.set(), v))
        || (exists|i: int| 0 <= i < vx_it1.pos() - 1 && occurs((#[trigger] vx_s1[i])@, v))
        || (exists|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v)),
//@ at loop 2 after
proof {
    assert forall|v: V| (exists|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v)) <==> #[trigger] occurs(body@, v) by {
        if occurs(body@, v) {
            let i = choose|i: int| 0 <= i < body@.len() && #[trigger] body@[i] == Symbol::<V, T>::Variable(v);
            assert(*vx_s2[i] == Symbol::<V, T>::Variable(v));
        }
        if exists|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v) {
            let i = choose|i: int| 0 <= i < vx_it2.pos() && *#[trigger] vx_s2[i] == Symbol::<V, T>::Variable(v);
            assert(body@[i] == Symbol::<V, T>::Variable(v));
        }
    }
    assert forall|v: V| #[trigger] variables.set().contains(v) implies (exists|i: int| 0 <= i < vx_it0.pos() - 1 && occurs_in((#[trigger] vx_s0[i]).1.set(), v))
        || (exists|i: int| 0 <= i < vx_it1.pos() && occurs((#[trigger] vx_s1[i])@, v)) by {
        if occurs(body@, v) { assert(occurs(vx_s1[vx_it1.pos() - 1]@, v)); }
    }
}
//@ at loop 0 after
proof {
    if complete(self) && no_empty(self.rules) { is_whole(self); }
    assert(heads.set() =~= self.rules.map().dom());
    assert forall|v: V| #[trigger] variables.set().contains(v) <==> used(self.rules, v) by {
        if used(self.rules, v) {
            let (w, c) = choose|w: V, c: VBody<V, T>| #[trigger] rule(self.rules, w, c) && occurs(c, v);
            let i = choose|i: int| 0 <= i < vx_s0.len() && (*(#[trigger] vx_s0[i]).0).key() == w;
            assert(occurs_in(vx_s0[i].1.set(), v));
        }
        if exists|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v) {
            let i = choose|i: int| 0 <= i < vx_it0.pos() && occurs_in((#[trigger] vx_s0[i]).1.set(), v);
            let c = choose|c: VBody<V, T>| #[trigger] vx_s0[i].1.set().contains(c) && occurs(c, v);
            assert(rule(self.rules, *vx_s0[i].0, c));
        }
    }
}
//@ end
//@ impl<V: VxVar, T: VxAtom> Grammar<V, T>
//@ fn Grammar::builder
ensures r.start_variable.is_none(), forall|w: V, c: VBody<V, T>| !#[trigger] rule(r.rules, w, c), r.rules.map().dom() == Set::<V>::empty(),
//@ end
