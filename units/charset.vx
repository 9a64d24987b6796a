//@ include iter.vx
//@ include chars.vx
//@ file pango-lexer/src/prelude.rs
//@ item W bare derive=Clone,Copy
//@ file pango-lexer/src/regex/tokenizer.rs
//@ item ClassKind
//@ item QuantifierKind
//@ item QuantifierRangeKind
//@ file pango-lexer/src/regex/ast.rs
//@ item GroupedLiteralKind
//@ item LiteralKind noderive
//@ prelude
/// What each class is documented to contain.
spec fn in_class(k: ClassKind, c: char) -> bool {
    match k {
        ClassKind::Wildcard => true,
        ClassKind::Word => u_alphabetic(c),
        ClassKind::Digit => '0' <= c <= '9',
        ClassKind::Whitespace => u_whitespace(c),
        ClassKind::NonWord => !u_alphabetic(c),
        ClassKind::NonDigit => !('0' <= c <= '9'),
        ClassKind::NonWhitespace => !u_whitespace(c),
    }
}
spec fn in_member(m: GroupedLiteralKind, c: char) -> bool {
    match m {
        GroupedLiteralKind::Match(x) => x == c,
        GroupedLiteralKind::Class(k) => in_class(k, c),
        GroupedLiteralKind::Range(a, b) => a as u32 <= c as u32 <= b as u32,
    }
}
spec fn in_members(m: Seq<GroupedLiteralKind>, c: char) -> bool {
    exists|i: int| 0 <= i < m.len() && in_member(#[trigger] m[i], c)
}
spec fn in_literal(l: LiteralKind, c: char) -> bool {
    match l {
        LiteralKind::Match(x) => x == c,
        LiteralKind::Class(k) => in_class(k, c),
        LiteralKind::Group { negated, literals } => if negated { !in_members(literals.0@, c) } else { in_members(literals.0@, c) },
    }
}
//@ file pango-lexer/src/regex/tokenizer.rs
//@ impl ClassKind
//@ fn ClassKind::contains
ensures r == in_class(*self, c),
//@ end
//@ file pango-lexer/src/regex/ast.rs
//@ impl GroupedLiteralKind
//@ fn GroupedLiteralKind::contains
ensures r == in_member(*self, c),
//@ end
//@ impl W<Vec<GroupedLiteralKind>>
//@ fn W<Vec<GroupedLiteralKind>>::contains loops=1
ensures r == in_members(self.0@, c),
//@ loop 0
invariant forall|i: int| 0 <= i < vx_it0.pos() ==> !in_member(#[trigger] self.0@[i], c), !vx_r1,
//@ end
//@ impl LiteralKind
//@ fn LiteralKind::contains
ensures r == in_literal(*self, c),
//@ end
//@ prelude
spec fn satisfied(q: QuantifierKind, n: nat) -> bool {
    match q {
        QuantifierKind::Asterisk => true,
        QuantifierKind::Plus => n >= 1,
        QuantifierKind::QuestionMark => n <= 1,
        QuantifierKind::Range(QuantifierRangeKind::Max(k)) => n == k,
        QuantifierKind::Range(QuantifierRangeKind::Min(k)) => n >= k,
        QuantifierKind::Range(QuantifierRangeKind::Range(a, b)) => a <= n <= b,
    }
}
/// A count from which on nothing changes.
spec fn q_limit(q: QuantifierKind) -> nat {
    match q {
        QuantifierKind::Asterisk => 0,
        QuantifierKind::Plus => 1,
        QuantifierKind::QuestionMark => 2,
        QuantifierKind::Range(QuantifierRangeKind::Max(k)) => (k + 1) as nat,
        QuantifierKind::Range(QuantifierRangeKind::Min(k)) => k as nat,
        QuantifierKind::Range(QuantifierRangeKind::Range(a, b)) => (b + 1) as nat,
    }
}
//@ file pango-lexer/src/regex/tokenizer.rs
//@ impl QuantifierKind
//@ fn QuantifierKind::is_satisfied
ensures r == satisfied(*self, count as nat),
//@ fn QuantifierKind::count_limit
ensures
    r == q_limit(*self),
    r <= u32::MAX as usize + 1,
    forall|n: nat| n >= r ==> #[trigger] satisfied(*self, n) == satisfied(*self, r as nat),
//@ end
