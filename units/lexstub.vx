// The lexer as unit `lexer` proves it, for the units of the parser crate. The
// machine is not looked into.
//@ file pango-lexer/src/fsm/mod.rs
//@ item StateId
//@ library
#[verifier::external_body]
struct Nfa { x: u8 }
impl Nfa { uninterp spec fn wf(&self) -> bool; }
uninterp spec fn at(nfa: Nfa, h: Seq<char>, s: StateId) -> bool;
uninterp spec fn accepts(nfa: Nfa, h: Seq<char>) -> bool;
//@ include lexspec.vx
//@ file pango-lexer/src/lexer/mod.rs
//@ impl<'input, TokenKind> Lexer<'input, TokenKind>
//@ fn Iterator for Lexer::next
//@ attr #[verifier::loop_isolation(true)]
//@ sig fn next(&mut self) -> Option<Token<TokenKind>>
//@ paste lexnext.vx
//@ fn Lexer::is_finished
//@ paste lexdone.vx
//@ end
