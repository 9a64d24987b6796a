//@ include iter.vx
//@ include chars.vx
//@ include seqs.vx
//@ include peek.vx
//@ include tokens.vx
//@ scope pango-lexer/src/regex/ pango-lexer/src/iter/
//@ rewrite-all .by_ref() =>>
//@ scope
//@ file pango-lexer/src/regex/tokenizer.rs
//@ item Tokenizer
//@ file pango-lexer/src/iter/cautious/map_while.rs
//@ item CautiousMapWhile bound=I:Peekableable bound=P:Fn(&I::Item)->Option<T> verifier::reject_recursive_types(T) verifier::reject_recursive_types(I) verifier::reject_recursive_types(P)
//@ prelude
trait CautiousMapWhileable: Peekableable {
    fn cautious_map_while<'b, P: Fn(&Self::Item) -> Option<T>, T>(&'b mut self, predicate: P) -> (r: CautiousMapWhile<'b, Self, P, T>)
        ensures *r.iter == *old(self), *final(r.iter) == *final(self), r.predicate == predicate;
}
//@ impl<I: Peekableable> CautiousMapWhileable for I
//@ fn CautiousMapWhileable for &mutI::cautious_map_while
//@ sig fn cautious_map_while<'b, P: Fn(&Self::Item) -> Option<T>, T>(&'b mut self, predicate: P) -> CautiousMapWhile<'b, Self, P, T>
//@ end
//@ impl<'a, I: Peekableable, P: Fn(&I::Item) -> Option<T>, T> CautiousMapWhile<'a, I, P, T>
//@ fn Iterator for CautiousMapWhile::next
//@ sig fn next(&mut self) -> Option<T>
requires old(self).iter.wf(), forall|x: &I::Item| call_requires(old(self).predicate, (x,)),
ensures final(self).predicate == old(self).predicate, final(self).iter.wf(),
    *final(final(self).iter) == *final(old(self).iter),
    old(self).iter.items().len() == 0 ==> r.is_none() && final(self).iter.items() == old(self).iter.items(),
    old(self).iter.items().len() > 0 ==>
        final(self).iter.items() == (if r.is_some() { old(self).iter.items().skip(1) } else { old(self).iter.items() })
        && exists|x: I::Item| I::view_item(x) == old(self).iter.items()[0] && I::ok_item(x) && #[trigger] call_ensures(old(self).predicate, (&x,), r),
//@ end
//@ file pango-lexer/src/regex/tokenizer.rs
//@ impl<'a> Tokenizer<'a>
    spec fn text(&self) -> Seq<char> { self.iter.items() }
//@ fn Tokenizer::new
ensures r.wf(), r.text() == input@,
//@ rewrite input.chars().enumerate() =>> vx_char_indices(input)
//@ fn Tokenizer::handle_operators
requires t_operator(ch).is_some(),
ensures r == TokenKind::Operator(t_operator(ch).unwrap()),
//@ fn Tokenizer::handle_class
requires t_class(ch).is_some(),
ensures r == t_class(ch).unwrap(),
//@ fn Tokenizer::get_token_end_cursor_pos
requires old(self).wf(),
ensures *final(self) == *old(self), r >= 1,
//@ fn Tokenizer::take_next_decimals_and_convert_to_u32
requires old(self).wf(), start.is_some(),
ensures final(self).wf(),
    final(self).text() == old(self).text().skip(run(old(self).text(), 10) as int),
    r == fits(num(start.unwrap() as int, old(self).text().take(run(old(self).text(), 10) as int), 10)),
//@ at start
let ghost s = self.text();
let ghost k = run(s, 10);
let ghost mut j: nat = 0;
let ghost mut v: int = start.unwrap() as int;
proof { run_len(s, 10); }
//@ closure 0 |p: &(usize, char)| -> (r: Option<u32>)
ensures r == s_to_digit(p.1, 10),
//@ at loop 0 before
let ghost fin = *final(vx_it0.iter);
proof { assert(s.skip(0).take(k as int) == s.take(k as int)); }
//@ loop 0
invariant
    vx_it0.iter.wf(), *final(vx_it0.iter) == fin,
    forall|x: &(usize, char)| call_requires(vx_it0.predicate, (x,)),
    forall|x: &(usize, char), r: Option<u32>| call_ensures(vx_it0.predicate, (x,), r) ==> r == s_to_digit(x.1, 10),
    vx_it0.iter.items() == s.skip(j as int), j <= k <= s.len(),
    run(s.skip(j as int), 10) + j == k,
    v >= 0, vx_r1 == fits(v),
    num(v, s.skip(j as int).take(k - j), 10) == num(start.unwrap() as int, s.take(k as int), 10),
decreases k - j,
//@ at loop 0 start
proof {
    assert(s.skip(j as int).take(k - j).skip(1) =~= s.skip(j as int + 1).take(k - j - 1));
    v = v * 10 + vx_x0;
    j = j + 1;
}
//@ fn Tokenizer::take_next_hexadecimals_and_convert_to_u32
requires old(self).wf(), max_digits <= 7,
    match start { Some(d) => d < 16 && max_digits >= 1, None => true },
ensures final(self).wf(), r.is_some(),
    ({
        let s = old(self).text();
        let c: nat = if start.is_some() { 1 } else { 0 };
        let k = runmax(s, 16, (max_digits - c) as nat);
        &&& final(self).text() == s.skip(k as int)
        &&& r.unwrap().0 == c + k
        &&& r.unwrap().1 == num(if start.is_some() { start.unwrap() as int } else { 0 }, s.take(k as int), 16)
    }),
//@ at start
let ghost s = self.text();
let ghost c: nat = if start.is_some() { 1 } else { 0 };
let ghost first: int = if start.is_some() { start.unwrap() as int } else { 0 };
let ghost k = runmax(s, 16, (max_digits - c) as nat);
let ghost mut j: nat = 0;
proof { run_len(s, 16); reveal_with_fuel(pow16, 9); }
//@ closure 0 |p: &(usize, char)| -> (r: Option<u32>)
ensures r == s_to_digit(p.1, 16),
//@ at loop 0 before
let ghost fin = *final(vx_it0.iter);
proof { assert(s.skip(0).take(k as int) == s.take(k as int)); }
//@ loop 0
invariant
    vx_it0.iter.wf(), *final(vx_it0.iter) == fin,
    forall|x: &(usize, char)| call_requires(vx_it0.predicate, (x,)),
    forall|x: &(usize, char), r: Option<u32>| call_ensures(vx_it0.predicate, (x,), r) ==> r == s_to_digit(x.1, 16),
    vx_it0.iter.items() == s.skip(j as int), j <= k <= s.len(), vx_cnt0 == j, vx_lim0 == max_digits - c,
    runmax(s.skip(j as int), 16, (vx_lim0 - j) as nat) + j == k,
    vx_r1.is_some(), vx_r1.unwrap().0 == c + j, vx_r1.unwrap().1 < pow16(c + j),
    num(vx_r1.unwrap().1 as int, s.skip(j as int).take(k - j), 16) == num(first, s.take(k as int), 16),
decreases max_digits - c - j,
//@ at loop 0 start
proof {
    assert(s.skip(j as int).take(k - j).skip(1) =~= s.skip(j as int + 1).take(k - j - 1));
    let n = vx_r1.unwrap().1;
    pow16_mono(c + j, 6);
    assert(n << 4 == n * 16) by(bit_vector) requires n < 0x1000000;
    j = j + 1;
}
//@ fn Tokenizer::handle_quantifier
requires old(self).wf(), ch == '*' || ch == '+' || ch == '?' || ch == '{',
ensures final(self).wf(),
    ({
        let (k, n) = if ch == '*' { (TokenKind::Quantifier(QuantifierKind::Asterisk), 0nat) }
            else if ch == '+' { (TokenKind::Quantifier(QuantifierKind::Plus), 0nat) }
            else if ch == '?' { (TokenKind::Quantifier(QuantifierKind::QuestionMark), 0nat) }
            else { t_braces(old(self).text()) };
        r == k && n <= old(self).text().len() && final(self).text() == old(self).text().skip(n as int)
    }),
//@ at start
let ghost s = self.text();
proof {
    run_digits(s, 10);
    num_first(s, 10);
    if run(s, 10) + 1 <= s.len() {
        let t = s.skip(run(s, 10) as int + 1);
        run_digits(t, 10);
        num_first(t, 10);
    }
}
//@ fn Tokenizer::handle_escape_sequence
requires old(self).wf(), t_plain(ch) || t_named(ch).is_some() || ch == 'c',
ensures final(self).wf(),
    ch == 'c' ==> r == t_control(old(self).text()).0 && final(self).text() == old(self).text().skip(t_control(old(self).text()).1 as int),
    t_plain(ch) ==> r == Some(ch) && final(self).text() == old(self).text(),
    t_named(ch).is_some() ==> r == Some(s_char(t_named(ch).unwrap())) && final(self).text() == old(self).text(),
//@ at start
proof {
    assert('\n' as u32 == 10 && '\r' as u32 == 13 && '\t' as u32 == 9 && '\0' as u32 == 0);
    assert(s_char('\n' as u32) == '\n' && s_char('\r' as u32) == '\r' && s_char('\t' as u32) == '\t' && s_char('\0' as u32) == '\0');
}
//@ fn Tokenizer::handle_unicode_escape_sequence
requires old(self).wf(), ch == 'x' || ch == 'u',
ensures final(self).wf(),
    ({
        let (c, n) = t_unicode(ch, old(self).text());
        r == c && n <= old(self).text().len() && final(self).text() == old(self).text().skip(n as int)
    }),
//@ at start
let ghost s = self.text();
proof {
    run_len(s, 16);
    num_first(s, 16);
    if s.len() > 0 { run_len(s.skip(1), 16); }
}
//@ fn Tokenizer::handle_class_or_escape_sequence
requires old(self).wf(),
ensures final(self).wf(),
    ({
        let (k, n) = t_escape(old(self).text());
        r == k && n <= old(self).text().len() && final(self).text() == old(self).text().skip(n as int)
    }),
//@ end
//@ impl<'a> VxIter for Tokenizer<'a>
    type Item = RegexToken;
    type V = TokenKind;
    closed spec fn view_item(x: RegexToken) -> TokenKind { x.kind }
    closed spec fn ok_item(x: RegexToken) -> bool { x.pos.1 >= 1 }
    closed spec fn items(&self) -> Seq<TokenKind> { t_tokens(self.text()) }
    closed spec fn wf(&self) -> bool { self.iter.wf() }
//@ fn Iterator for Tokenizer::next
//@ at start
let ghost s = self.text();
//@ at end
proof {
    if s.len() > 0 {
        assert((seq![t_token(s).0] + t_tokens(s.skip(t_token(s).1 as int))).skip(1) =~= t_tokens(s.skip(t_token(s).1 as int)));
    }
}
//@ end
//@ impl RegexToken
//@ fn Token::new
ensures r.kind == kind, r.pos == pos,
//@ end
//@ prelude
spec fn pow16(n: nat) -> int
    decreases n
{ if n == 0 { 1 } else { 16 * pow16((n - 1) as nat) } }
proof fn pow16_mono(a: nat, b: nat)
    requires a <= b
    ensures 1 <= pow16(a) <= pow16(b)
    decreases b
{ if a < b { pow16_mono(a, (b - 1) as nat); } else if a > 0 { pow16_mono((a - 1) as nat, (b - 1) as nat); } }
/// Reading the first digit before the others.
proof fn num_first(s: Seq<char>, radix: int)
    requires 2 <= radix <= 16,
    ensures s.len() > 0 && s_to_digit(s[0], radix).is_some() ==> {
        let t = s.skip(1);
        &&& run(s, radix) == 1 + run(t, radix)
        &&& forall|k: nat| 1 <= k <= s.len() ==> #[trigger] num(0, s.take(k as int), radix) == num(s_digit_value(s[0]), t.take(k - 1), radix)
    },
{
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|k: nat| 1 <= k <= s.len() implies #[trigger] num(0, s.take(k as int), radix) == num(s_digit_value(s[0]), t.take(k - 1), radix) by {
            assert(s.take(k as int).skip(1) =~= t.take(k - 1));
        }
    }
}
