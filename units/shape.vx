// Syntax trees the compiler takes.
//@ file pango-lexer/src/regex/ast.rs
//@ item ExprKind noderive
//@ prelude
/// No concatenation is empty.
spec fn nonempty(e: ExprKind) -> bool
    decreases e
{
    match e {
        ExprKind::Concat(v) => v@.len() > 0 && forall|i: int| 0 <= i < v@.len() ==> nonempty(#[trigger] v@[i]),
        ExprKind::Alt(l, r) => nonempty(*l) && nonempty(*r),
        ExprKind::Group(x, _) => nonempty(*x),
        _ => true,
    }
}
