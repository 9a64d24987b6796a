// The lexer: longest match, priority, positions and text of the tokens.
//@ include-proved sim.vx
//@ include-proved compiler.vx
//@ include-proved parser.vx
//@ include lexspec.vx
//@ rewrite-all regex::Parser =>> Parser
//@ rewrite-all NfaCompiler =>> Compiler
//@ file pango-lexer/src/lexer/mod.rs
//@ item LexerGenerator noderive
//@ prelude
/// The syntax tree is what the pattern stands for.
spec fn pattern(text: Seq<char>, e: ExprKind) -> bool { tree(t_tokens(text), e) }
spec fn is_pattern(text: Seq<char>) -> bool { exists|e: ExprKind| #[trigger] pattern(text, e) }
/// The rules a user writes: expressions and kinds, in the order in which they are added.
type Written<K> = Seq<(ExprKind, TokenKindGenerator<K>)>;
spec fn some_written<K>(w: Written<K>, text: Seq<char>) -> bool {
    exists|i: int| 0 <= i < w.len() && lang((#[trigger] w[i]).0).contains(text)
}
spec fn first_written<K>(w: Written<K>, text: Seq<char>, i: int) -> bool {
    &&& 0 <= i < w.len()
    &&& lang(w[i].0).contains(text)
    &&& forall|j: int| 0 <= j < i ==> !lang((#[trigger] w[j]).0).contains(text)
}
spec fn named_written<K>(w: Written<K>, text: Seq<char>, k: K) -> bool {
    exists|i: int| first_written(w, text, i) && (#[trigger] w[i]).1.made(text, k)
}
/// The machine does what is written.
spec fn implements<K>(rules: TokenRules<K>, w: Written<K>) -> bool {
    &&& rules_wf(rules)
    &&& forall|text: Seq<char>| #[trigger] some_rule(rules, text) <==> some_written(w, text)
    &&& forall|text: Seq<char>, k: K| #[trigger] named(rules, text, k) <==> named_written(w, text, k)
}
/// Expressions with their final states, which grow, and the rules.
spec fn numbered<K>(ps: Seq<(StateId, ExprKind)>, kinds: Map<StateId, TokenKindGenerator<K>>, w: Written<K>) -> bool {
    &&& ps.len() == w.len()
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).1 == w[i].0 && kinds.dom().contains(ps[i].0) && kinds[ps[i].0] == w[i].1
    &&& forall|i: int, j: int| 0 <= i < j < ps.len() ==> (#[trigger] ps[i]).0 < (#[trigger] ps[j]).0
}
impl<TokenKind> LexerGenerator<TokenKind> {
    spec fn set(&self, w: Written<TokenKind>, ps: Seq<(StateId, ExprKind)>) -> bool {
        holds(self.fsm_compiler.nfa.states@, ps) && numbered(ps, self.tokens.map(), w)
            && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 < self.fsm_compiler.nfa.states@.len()
    }
    /// `w` was added.
    spec fn rules(&self, w: Written<TokenKind>) -> bool {
        self.fsm_compiler.wf() && exists|ps: Seq<(StateId, ExprKind)>| #[trigger] self.set(w, ps)
    }
}
proof fn means_written<K>(rules: TokenRules<K>, ps: Seq<(StateId, ExprKind)>, w: Written<K>)
    requires rules.nfa.wf(), means(rules.nfa, ps), numbered(ps, rules.kinds, w)
    ensures implements(rules, w)
{
    assert forall|text: Seq<char>| #[trigger] some_rule(rules, text) <==> some_written(w, text) by {
        if some_rule(rules, text) {
            let s = choose|s: StateId| at(rules.nfa, text, s);
            let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == s && lang(ps[i].1).contains(text);
            assert(lang(w[i].0).contains(text));
        }
        if some_written(w, text) {
            let i = choose|i: int| 0 <= i < w.len() && lang((#[trigger] w[i]).0).contains(text);
            assert(ps[i].1 == w[i].0);
            assert(at(rules.nfa, text, ps[i].0));
        }
    }
    assert forall|text: Seq<char>, k: K| #[trigger] named(rules, text, k) <==> named_written(w, text, k) by {
        if named(rules, text, k) {
            let s = choose|s: StateId| #[trigger] first_rule(rules, text, s) && rules.kinds[s].made(text, k);
            assert(at(rules.nfa, text, s));
            let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == s && lang(ps[i].1).contains(text);
            assert forall|j: int| 0 <= j < i implies !lang((#[trigger] w[j]).0).contains(text) by {
                if lang(w[j].0).contains(text) {
                    assert(ps[j].1 == w[j].0);
                    assert(at(rules.nfa, text, ps[j].0));
                }
            }
            assert(first_written(w, text, i) && w[i].1.made(text, k));
        }
        if named_written(w, text, k) {
            let i = choose|i: int| first_written(w, text, i) && (#[trigger] w[i]).1.made(text, k);
            assert(ps[i].1 == w[i].0);
            let s = ps[i].0;
            assert(at(rules.nfa, text, s));
            assert forall|q: StateId| #[trigger] at(rules.nfa, text, q) implies s <= q by {
                let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).0 == q && lang(ps[j].1).contains(text);
                assert(lang(w[j].0).contains(text));
                assert(!(j < i));
            }
            assert(first_rule(rules, text, s));
        }
    }
    assert forall|h: Seq<char>, s: StateId| #[trigger] at(rules.nfa, h, s) implies rules.kinds.dom().contains(s) by {
        let i = choose|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == s && lang(ps[i].1).contains(h);
    }
}
//@ impl<TokenKind> Token<TokenKind>
//@ fn Token::from_input_iter_token
ensures r.kind == kind, r.source == vx_p0.source, r.pos == vx_p0.pos,
//@ end
//@ impl<'input, TokenKind> Lexer<'input, TokenKind>
//@ fn Iterator for Lexer::next
//@ attr #[verifier::loop_isolation(true)]
//@ sig fn next(&mut self) -> Option<Token<TokenKind>>
//@ paste lexnext.vx
//@ at start
let ghost rest = self.rest();
//@ loop 0
invariant_except_break
    sim.after(rest.take((self.iter.accepted().len() + self.iter.ahead().len()) as int)),
invariant self.iter.wf(), rules_wf(self.rules()), self.rules() == old(self).rules(), self.fsm == old(self).fsm, self.tokens.map() == old(self).tokens.map(), self.iter.start() == old(self).iter.start(),
    self.iter.accepted() + self.iter.ahead() + self.iter.unread() == rest,
    *sim.nfa == self.fsm,
    token_kind.is_none() <==> self.iter.accepted().len() == 0,
    token_kind.is_some() ==> some_rule(self.rules(), self.iter.accepted())
        && named(self.rules(), self.iter.accepted(), token_kind.unwrap()),
    forall|m: int| self.iter.accepted().len() < m <= self.iter.accepted().len() + self.iter.ahead().len() ==> !some_rule(self.rules(), #[trigger] rest.take(m)),
ensures forall|m: int| self.iter.accepted().len() < m <= rest.len() ==> !some_rule(self.rules(), #[trigger] rest.take(m)),
decreases self.iter.unread().len(),
//@ at loop 0 before
proof { assert(rest.take(0) =~= Seq::<char>::empty()); }
//@ at loop 0 start
let ghost n = (self.iter.accepted().len() + self.iter.ahead().len()) as int;
proof {
    assert(self.iter.accepted() + self.iter.ahead() + self.iter.unread() =~= rest);
    assert(rest.take(n) =~= rest.take(n - 1).push(ch));
    assert(rest.take(n) =~= self.iter.accepted() + self.iter.ahead());
}
//@ at call break 0 before
proof {
    assert forall|m: int| self.iter.accepted().len() < m <= rest.len() implies !some_rule(self.rules(), #[trigger] rest.take(m)) by {
        if m >= n {
            assert(rest.take(n - 1).push(ch).is_prefix_of(rest.take(m)));
            assert(sim.after(rest.take(n - 1)));
        }
    }
}
//@ at call get_mut 0 before
proof {
    assert(self.iter.accepted() =~= rest.take(n));
    assert(sim.after(rest.take(n)));
    assert(at(self.fsm, rest.take(n), final_state));
    assert forall|q: StateId| #[trigger] at(self.fsm, rest.take(n), q) implies final_state <= q by {}
    assert(first_rule(self.rules(), rest.take(n), final_state));
}
//@ at call get_mut 0 after
proof {
    assert(self.tokens.map() =~= old(self).tokens.map());
    assert(self.tokens.map()[final_state].made(rest.take(n), token_kind.unwrap()));
}
//@ at loop 0 end
proof {
    if self.iter.ahead().len() == 0 {
        assert(self.iter.accepted() =~= rest.take(n));
    }
}
//@ at loop 0 after
proof { assert(self.iter.accepted() =~= rest.take(self.iter.accepted().len() as int)); }
//@ fn Lexer::is_finished
//@ paste lexdone.vx
//@ end
//@ impl<TokenKind> LexerGenerator<TokenKind>
//@ fn Default for LexerGenerator::default
ensures r.rules(Seq::empty()),
//@ at end
proof { assert(vx_tail.set(Seq::empty(), Seq::empty())); }
//@ fn LexerGenerator::new
ensures r.rules(Seq::empty()),
//@ fn LexerGenerator::add_token
//@ sig fn add_token(&mut self, token: &str, token_kind: TokenKindGenerator<TokenKind>) -> ParseResult<()>
requires old(self).fsm_compiler.wf(),
ensures r is Ok <==> is_pattern(token@),
    r is Ok ==> final(self).fsm_compiler.wf() && exists|e: ExprKind| #[trigger] pattern(token@, e)
        && forall|w: Written<TokenKind>| #[trigger] old(self).rules(w) ==> final(self).rules(w.push((e, token_kind))),
//@ at start
proof { assert forall|e: ExprKind| #[trigger] tree(t_tokens(token@), e) == pattern(token@, e) by {} }
//@ at call new_final 0 after
let ghost mid = self.fsm_compiler.nfa.states@;
//@ at end
proof {
    let e = choose|e: ExprKind| #[trigger] pattern(token@, e)
        && forall|ps: Seq<(StateId, ExprKind)>| #[trigger] holds(mid, ps) ==> holds(self.fsm_compiler.nfa.states@, ps.push((token_final_state, e)));
    assert forall|w: Written<TokenKind>| #[trigger] old(self).rules(w) implies self.rules(w.push((e, token_kind))) by {
        let ps = choose|ps: Seq<(StateId, ExprKind)>| #[trigger] old(self).set(w, ps);
        assert(holds(mid, ps));
        assert(self.set(w.push((e, token_kind)), ps.push((token_final_state, e))));
    }
    assert(pattern(token@, e));
}
//@ fn LexerGenerator::with_token
//@ sig fn with_token(mut self, token: &str, token_kind: VxUnitFn<TokenKind>) -> ParseResult<Self>
//@ rewrite Box::new(token_kind) =>> token_kind
requires self.fsm_compiler.wf(),
ensures r is Ok <==> is_pattern(token@),
    r is Ok ==> r->Ok_0.fsm_compiler.wf() && exists|e: ExprKind| #[trigger] pattern(token@, e)
        && forall|w: Written<TokenKind>| #[trigger] self.rules(w) ==> r->Ok_0.rules(w.push((e, TokenKindGenerator::Unit(token_kind)))),
//@ fn LexerGenerator::with_token_unit
//@ sig fn with_token_unit(mut self, token: &str, token_kind: TokenKind) -> ParseResult<Self> where TokenKind: Copy
//@ rewrite Box::new(move || token_kind) =>> vx_const_fn(token_kind)
requires self.fsm_compiler.wf(),
ensures r is Ok <==> is_pattern(token@),
    r is Ok ==> r->Ok_0.fsm_compiler.wf() && exists|e: ExprKind, f: VxUnitFn<TokenKind>| #[trigger] pattern(token@, e) && #[trigger] constant(f, token_kind)
        && forall|w: Written<TokenKind>| #[trigger] self.rules(w) ==> r->Ok_0.rules(w.push((e, TokenKindGenerator::Unit(f)))),
//@ fn LexerGenerator::with_token_map
//@ sig fn with_token_map(mut self, token: &str, token_kind_map: VxMapFn<TokenKind>) -> ParseResult<Self>
//@ rewrite Box::new(token_kind_map) =>> token_kind_map
requires self.fsm_compiler.wf(),
ensures r is Ok <==> is_pattern(token@),
    r is Ok ==> r->Ok_0.fsm_compiler.wf() && exists|e: ExprKind| #[trigger] pattern(token@, e)
        && forall|w: Written<TokenKind>| #[trigger] self.rules(w) ==> r->Ok_0.rules(w.push((e, TokenKindGenerator::Map(token_kind_map)))),
//@ fn LexerGenerator::tokenize
//@ sig fn tokenize<'b>(self, input: &'b str) -> Lexer<'b, TokenKind>
requires exists|w: Written<TokenKind>| #[trigger] self.rules(w),
ensures r.wf(), r.rest() == input@, r.base() == 0,
    forall|w: Written<TokenKind>| #[trigger] self.rules(w) ==> implements(r.rules(), w),
//@ at end
proof {
    assert forall|w: Written<TokenKind>| #[trigger] self.rules(w) implies implements(vx_tail.rules(), w) by {
        let ps = choose|ps: Seq<(StateId, ExprKind)>| #[trigger] self.set(w, ps);
        means_written(vx_tail.rules(), ps, w);
    }
}
//@ end
//@ impl<'input, TokenKind> Lexer<'input, TokenKind>
//@ fn Lexer::builder
ensures r.rules(Seq::empty()),
//@ end
