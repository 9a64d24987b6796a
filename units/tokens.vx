//@ scope pango-lexer/src/regex/tokenizer.rs pango-lexer/src/regex/parser.rs
//@ rename Token => RegexToken
//@ scope
//@ file pango-lexer/src/regex/tokenizer.rs
//@ item ClassKind
//@ item OperatorKind
//@ item QuantifierKind
//@ item QuantifierRangeKind
//@ item TokenKind
//@ item Token
//@ prelude
impl VxC for RegexToken {}
/// Length of the run of digits at the start of `s`.
spec fn run(s: Seq<char>, radix: int) -> nat
    decreases s.len()
{ if s.len() > 0 && s_to_digit(s[0], radix).is_some() { 1 + run(s.skip(1), radix) } else { 0 } }
spec fn runmax(s: Seq<char>, radix: int, max: nat) -> nat { if run(s, radix) <= max { run(s, radix) } else { max } }
/// The number written by the digits `s` behind the number `acc`.
spec fn num(acc: int, s: Seq<char>, radix: int) -> int
    decreases s.len()
{ if s.len() == 0 { acc } else { num(acc * radix + s_digit_value(s[0]), s.skip(1), radix) } }
spec fn fits(n: int) -> Option<u32> { if n <= u32::MAX { Some(n as u32) } else { None } }
spec fn scalar(n: int) -> Option<char> { if n <= u32::MAX && s_scalar(n as u32) { Some(s_char(n as u32)) } else { None } }
spec fn opt_match(c: Option<char>) -> TokenKind { match c { Some(c) => TokenKind::Match(c), None => TokenKind::Invalid } }

spec fn t_operator(c: char) -> Option<OperatorKind> {
    if c == '[' { Some(OperatorKind::LeftBracket) } else if c == ']' { Some(OperatorKind::RightBracket) }
    else if c == '(' { Some(OperatorKind::LeftParen) } else if c == ')' { Some(OperatorKind::RightParen) }
    else if c == '^' { Some(OperatorKind::Carret) } else if c == '|' { Some(OperatorKind::Vertical) }
    else if c == '-' { Some(OperatorKind::Minus) } else { None }
}
spec fn t_class(c: char) -> Option<ClassKind> {
    if c == 'w' { Some(ClassKind::Word) } else if c == 'W' { Some(ClassKind::NonWord) }
    else if c == 'd' { Some(ClassKind::Digit) } else if c == 'D' { Some(ClassKind::NonDigit) }
    else if c == 's' { Some(ClassKind::Whitespace) } else if c == 'S' { Some(ClassKind::NonWhitespace) } else { None }
}
/// `{n}`, `{n,}` and `{n,m}`; `s` is what follows the opening brace. The second
/// component is the number of characters that belong to the token.
spec fn t_braces(s: Seq<char>) -> (TokenKind, nat) {
    let k = run(s, 10);
    let first = fits(num(0, s.take(k as int), 10));
    if s.len() == 0 { (TokenKind::Invalid, 0) }
    else if k == 0 { (TokenKind::Invalid, 1) }
    else if s.len() == k { (TokenKind::Invalid, k) }
    else if s[k as int] == '}' {
        (match first { Some(n) => TokenKind::Quantifier(QuantifierKind::Range(QuantifierRangeKind::Max(n))), None => TokenKind::Invalid }, k + 1)
    }
    else if s[k as int] != ',' { (TokenKind::Invalid, k + 1) }
    else if s.len() == k + 1 { (TokenKind::Invalid, k + 1) }
    else if s[k as int + 1] == '}' {
        (match first { Some(n) => TokenKind::Quantifier(QuantifierKind::Range(QuantifierRangeKind::Min(n))), None => TokenKind::Invalid }, k + 2)
    }
    else {
        let t = s.skip(k as int + 1);
        let j = run(t, 10);
        let second = fits(num(0, t.take(j as int), 10));
        if j == 0 { (TokenKind::Invalid, k + 2) }
        else if t.len() == j { (TokenKind::Invalid, k + 1 + j) }
        else if t[j as int] != '}' { (TokenKind::Invalid, k + 2 + j) }
        else {
            (match (first, second) {
                (Some(n), Some(m)) => TokenKind::Quantifier(QuantifierKind::Range(QuantifierRangeKind::Range(n, m))),
                _ => TokenKind::Invalid,
            }, k + 2 + j)
        }
    }
}
/// Characters that stand for themselves behind a backslash.
spec fn t_plain(c: char) -> bool {
    c == '^' || c == '$' || c == '\\' || c == '.' || c == '*' || c == '+' || c == '?' || c == '(' || c == ')' || c == '['
        || c == ']' || c == '|' || c == '/' || c == '{' || c == '}' || c == '-'
}
spec fn t_named(c: char) -> Option<u32> {
    if c == 'f' { Some(12u32) } else if c == 'n' { Some(10u32) } else if c == 'r' { Some(13u32) }
    else if c == 't' { Some(9u32) } else if c == 'v' { Some(11u32) } else if c == '0' { Some(0u32) } else { None }
}
/// `\cX`, behind the `c`.
spec fn t_control(s: Seq<char>) -> (Option<char>, nat) {
    if s.len() == 0 { (None, 0) }
    else if s_lower(s[0]) { (Some(s_char((s[0] as u32 - 'a' as u32 + 1) as u32)), 1) }
    else if s_upper(s[0]) { (Some(s_char((s[0] as u32 - 'A' as u32 + 1) as u32)), 1) }
    else { (None, 1) }
}
/// `\xHH`, `\uHHHH` and `\u{HHHH}`, behind the letter `c`.
spec fn t_unicode(c: char, s: Seq<char>) -> (Option<char>, nat) {
    if c == 'x' {
        let k = runmax(s, 16, 2);
        (if k == 2 { scalar(num(0, s.take(2), 16)) } else { None }, k)
    } else if s.len() == 0 { (None, 0) }
    else if s[0] == '{' {
        let t = s.skip(1);
        let k = runmax(t, 16, 6);
        if k < 4 { (None, 1 + k) }
        else if t.len() == k { (None, 1 + k) }
        else if t[k as int] != '}' { (None, 2 + k) }
        else { (scalar(num(0, t.take(k as int), 16)), 2 + k) }
    } else {
        let k = runmax(s, 16, 4);
        if k == 0 { (None, 1) } else { (if k == 4 { scalar(num(0, s.take(4), 16)) } else { None }, k) }
    }
}
/// What follows a backslash.
spec fn t_escape(s: Seq<char>) -> (TokenKind, nat) {
    if s.len() == 0 { (TokenKind::Invalid, 0) }
    else if t_class(s[0]).is_some() { (TokenKind::Class(t_class(s[0]).unwrap()), 1) }
    else if t_plain(s[0]) { (TokenKind::Match(s[0]), 1) }
    else if t_named(s[0]).is_some() { (TokenKind::Match(s_char(t_named(s[0]).unwrap())), 1) }
    else if s[0] == 'c' { let (c, n) = t_control(s.skip(1)); (opt_match(c), 1 + n) }
    else if s[0] == 'x' || s[0] == 'u' { let (c, n) = t_unicode(s[0], s.skip(1)); (opt_match(c), 1 + n) }
    else { (TokenKind::Invalid, 1) }
}
/// The token at the start of `s` and its length.
spec fn t_token(s: Seq<char>) -> (TokenKind, nat)
    recommends s.len() > 0
{
    let rest = s.skip(1);
    if s[0] == '\\' { let (k, n) = t_escape(rest); (k, 1 + n) }
    else if s[0] == '.' { (TokenKind::Class(ClassKind::Wildcard), 1) }
    else if t_operator(s[0]).is_some() { (TokenKind::Operator(t_operator(s[0]).unwrap()), 1) }
    else if s[0] == '*' { (TokenKind::Quantifier(QuantifierKind::Asterisk), 1) }
    else if s[0] == '+' { (TokenKind::Quantifier(QuantifierKind::Plus), 1) }
    else if s[0] == '?' { (TokenKind::Quantifier(QuantifierKind::QuestionMark), 1) }
    else if s[0] == '{' { let (k, n) = t_braces(rest); (k, 1 + n) }
    else { (TokenKind::Match(s[0]), 1) }
}
/// The tokens of a pattern text.
spec fn t_tokens(s: Seq<char>) -> Seq<TokenKind>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else {
        let (k, n) = t_token(s);
        if 1 <= n <= s.len() { seq![k] + t_tokens(s.skip(n as int)) } else { seq![k] }
    }
}
proof fn run_len(s: Seq<char>, radix: int)
    ensures run(s, radix) <= s.len()
    decreases s.len()
{ if s.len() > 0 { run_len(s.skip(1), radix); } }
proof fn run_digits(s: Seq<char>, radix: int)
    ensures run(s, radix) <= s.len(),
        run(s, radix) < s.len() ==> s_to_digit(s[run(s, radix) as int], radix).is_none(),
    decreases s.len()
{ if s.len() > 0 { run_digits(s.skip(1), radix); } }
