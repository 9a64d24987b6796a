// The lexer as its users see it: rules, the rest of the input, tokens.
//@ include input.vx
//@ include maps.vx
//@ callable token_kind_gen
//@ rewrite-all Lexer<'input, TokenKind, Fsm: Simulatable = Nfa> =>> Lexer<'input, TokenKind>
//@ rewrite-all fsm: Fsm =>> fsm: Nfa
//@ rewrite-all Box<dyn FnMut(&str) -> TokenKind> =>> VxMapFn<TokenKind>
//@ rewrite-all Box<dyn FnMut() -> TokenKind> =>> VxUnitFn<TokenKind>
//@ library
/// The callables of the user. `made` is what a call may return.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
struct VxMapFn<K> { k: std::marker::PhantomData<K> }
impl<K> VxMapFn<K> {
    uninterp spec fn made(&self, text: Seq<char>, k: K) -> bool;
    #[verifier::external_body]
    fn vx_call(&mut self, text: &VxString) -> (r: K)
        ensures old(self).made(text.chars(), r), *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
struct VxUnitFn<K> { k: std::marker::PhantomData<K> }
impl<K> VxUnitFn<K> {
    uninterp spec fn made(&self, k: K) -> bool;
    #[verifier::external_body]
    fn vx_call(&mut self) -> (r: K) ensures old(self).made(r), *final(self) == *old(self) { unimplemented!() }
}
spec fn constant<K>(f: VxUnitFn<K>, k: K) -> bool { forall|x: K| #[trigger] f.made(x) <==> x == k }
#[verifier::external_body]
fn vx_const_fn<K: Copy>(k: K) -> (r: VxUnitFn<K>) ensures constant(r, k) { unimplemented!() }

//@ file pango-lexer/src/lexer/mod.rs
//@ item Lexer noderive
//@ item TokenKindGenerator noderive
//@ item Token noderive
//@ prelude
impl<K> TokenKindGenerator<K> {
    spec fn made(&self, text: Seq<char>, k: K) -> bool {
        match self {
            TokenKindGenerator::Map(f) => f.made(text, k),
            TokenKindGenerator::Unit(f) => f.made(k),
        }
    }
}
/// What the rules of a lexer are once they are compiled: a machine, and a kind for
/// each of its final states.
#[verifier::reject_recursive_types(K)]
ghost struct TokenRules<K> { nfa: Nfa, kinds: Map<StateId, TokenKindGenerator<K>> }
/// Some rule matches the text; the rule is the first one that does.
spec fn some_rule<K>(rules: TokenRules<K>, text: Seq<char>) -> bool { accepts(rules.nfa, text) }
spec fn first_rule<K>(rules: TokenRules<K>, text: Seq<char>, s: StateId) -> bool {
    &&& at(rules.nfa, text, s)
    &&& forall|q: StateId| #[trigger] at(rules.nfa, text, q) ==> s <= q
}
/// `k` is a kind the first rule that matches the text makes of it.
spec fn named<K>(rules: TokenRules<K>, text: Seq<char>, k: K) -> bool {
    exists|s: StateId| #[trigger] first_rule(rules, text, s) && rules.kinds[s].made(text, k)
}
/// The length of the next token.
spec fn longest<K>(rules: TokenRules<K>, rest: Seq<char>, n: int) -> bool {
    &&& 1 <= n <= rest.len()
    &&& some_rule(rules, rest.take(n))
    &&& forall|m: int| n < m <= rest.len() ==> !some_rule(rules, #[trigger] rest.take(m))
}
spec fn no_token<K>(rules: TokenRules<K>, rest: Seq<char>) -> bool {
    forall|m: int| 1 <= m <= rest.len() ==> !some_rule(rules, #[trigger] rest.take(m))
}
/// Every final state has a kind.
spec fn rules_wf<K>(rules: TokenRules<K>) -> bool {
    &&& rules.nfa.wf()
    &&& forall|h: Seq<char>, s: StateId| #[trigger] at(rules.nfa, h, s) ==> rules.kinds.dom().contains(s)
}
impl<'input, TokenKind> Lexer<'input, TokenKind> {
    spec fn rules(&self) -> TokenRules<TokenKind> { TokenRules { nfa: self.fsm, kinds: self.tokens.map() } }
    /// What is left of the input, and where that starts.
    spec fn rest(&self) -> Seq<char> { self.iter.unread() }
    spec fn base(&self) -> int { self.iter.start() }
    spec fn wf(&self) -> bool {
        &&& self.iter.wf()
        &&& self.iter.accepted().len() == 0
        &&& self.iter.ahead().len() == 0
        &&& rules_wf(self.rules())
    }
}
