// The pattern parser accepts exactly the token sequences of the pattern grammar.
//@ include-proved tokenizer.vx
//@ file pango-lexer/src/prelude.rs
//@ item W bare derive=Clone,Copy
//@ file pango-lexer/src/regex/ast.rs
//@ item GroupedLiteralKind
//@ item LiteralKind noderive
//@ item Ast noderive
//@ include shape.vx
//@ file pango-lexer/src/regex/parser.rs
//@ item ParseErrorKind derive=Clone,Copy
//@ item ParseError noderive
//@ item ParseResult
//@ item Parser noderive
//@ prelude
impl VxC for Vec<ParseError> {}
// The pattern grammar.
enum GSet { Char(char), Class(ClassKind), Range(char, char) }
enum GLit { Char(char), Class(ClassKind), Set(bool, Seq<GSet>) }
enum GItem { Lit(GLit, Option<QuantifierKind>), Group(Box<GExpr>, Option<QuantifierKind>) }
enum GExpr { One(Seq<GItem>), Alt(Seq<GItem>, Box<GExpr>) }

spec fn op(k: OperatorKind) -> TokenKind { TokenKind::Operator(k) }
spec fn w_quant(q: Option<QuantifierKind>) -> Seq<TokenKind> {
    match q { Some(q) => seq![TokenKind::Quantifier(q)], None => Seq::empty() }
}
spec fn w_member(m: GSet) -> Seq<TokenKind> {
    match m {
        GSet::Char(c) => seq![TokenKind::Match(c)],
        GSet::Class(k) => seq![TokenKind::Class(k)],
        GSet::Range(a, b) => seq![TokenKind::Match(a), op(OperatorKind::Minus), TokenKind::Match(b)],
    }
}
spec fn w_members(ms: Seq<GSet>) -> Seq<TokenKind>
    decreases ms.len()
{ if ms.len() == 0 { Seq::empty() } else { w_member(ms[0]) + w_members(ms.skip(1)) } }
spec fn w_lit(l: GLit) -> Seq<TokenKind> {
    match l {
        GLit::Char(c) => seq![TokenKind::Match(c)],
        GLit::Class(k) => seq![TokenKind::Class(k)],
        GLit::Set(neg, ms) => seq![op(OperatorKind::LeftBracket)]
            + (if neg { seq![op(OperatorKind::Carret)] } else { Seq::empty() })
            + w_members(ms) + seq![op(OperatorKind::RightBracket)],
    }
}
/// The tokens of an item, of a sequence of items, of an expression.
spec fn w_item(x: GItem) -> Seq<TokenKind>
    decreases x, 0nat
{
    match x {
        GItem::Lit(l, q) => w_lit(l) + w_quant(q),
        GItem::Group(e, q) => seq![op(OperatorKind::LeftParen)] + w_expr(*e) + seq![op(OperatorKind::RightParen)] + w_quant(q),
    }
}
spec fn w_items(s: Seq<GItem>) -> Seq<TokenKind>
    decreases s, 1nat
{ if s.len() == 0 { Seq::empty() } else { w_item(s[0]) + w_items(s.skip(1)) } }
spec fn w_expr(e: GExpr) -> Seq<TokenKind>
    decreases e, 2nat
{
    match e {
        GExpr::One(s) => w_items(s),
        GExpr::Alt(s, y) => w_items(s) + seq![op(OperatorKind::Vertical)] + w_expr(*y),
    }
}
/// Sequences are not empty, at every level.
spec fn g_item(x: GItem) -> bool
    decreases x, 0nat
{ match x { GItem::Lit(l, q) => true, GItem::Group(e, q) => g_expr(*e) } }
spec fn g_items(s: Seq<GItem>) -> bool
    decreases s, 1nat
{ forall|i: int| 0 <= i < s.len() ==> g_item(#[trigger] s[i]) }
spec fn g_expr(e: GExpr) -> bool
    decreases e, 2nat
{
    match e {
        GExpr::One(s) => s.len() > 0 && g_items(s),
        GExpr::Alt(s, y) => s.len() > 0 && g_items(s) && g_expr(*y),
    }
}
// The syntax tree of an expression.
spec fn m_member(x: GroupedLiteralKind, m: GSet) -> bool {
    match m {
        GSet::Char(c) => x == GroupedLiteralKind::Match(c),
        GSet::Class(k) => x == GroupedLiteralKind::Class(k),
        GSet::Range(a, b) => x == GroupedLiteralKind::Range(a, b),
    }
}
spec fn m_members(x: Seq<GroupedLiteralKind>, m: Seq<GSet>) -> bool {
    x.len() == m.len() && forall|i: int| 0 <= i < m.len() ==> m_member(#[trigger] x[i], m[i])
}
spec fn m_lit(x: LiteralKind, l: GLit) -> bool {
    match l {
        GLit::Char(c) => x == LiteralKind::Match(c),
        GLit::Class(k) => x == LiteralKind::Class(k),
        GLit::Set(neg, ms) => x is Group && x->negated == neg && m_members(x->literals.0@, ms),
    }
}
spec fn m_item(x: ExprKind, g: GItem) -> bool
    decreases g, 0nat
{
    match g {
        GItem::Lit(l, q) => x is Lit && m_lit(x->Lit_0, l) && x->Lit_1 == q,
        GItem::Group(e, q) => x is Group && m_expr(*x->Group_0, *e) && x->Group_1 == q,
    }
}
spec fn m_items(v: Seq<ExprKind>, s: Seq<GItem>) -> bool
    decreases s, 1nat
{ v.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> m_item(v[i], #[trigger] s[i]) }
spec fn m_seq(x: ExprKind, s: Seq<GItem>) -> bool
    decreases s, 2nat
{ s.len() == 1 && m_item(x, s[0]) || x is Concat && m_items(x->Concat_0@, s) }
spec fn m_expr(x: ExprKind, e: GExpr) -> bool
    decreases e, 3nat
{
    match e {
        GExpr::One(s) => m_seq(x, s),
        GExpr::Alt(s, y) => x is Alt && m_seq(*x->Alt_0, s) && m_expr(*x->Alt_1, *y),
    }
}
/// What the tokens stand for.
spec fn tree(t: Seq<TokenKind>, x: ExprKind) -> bool {
    if t.len() == 0 { x is Empty } else { exists|e: GExpr| g_expr(e) && #[trigger] w_expr(e) == t && m_expr(x, e) }
}
proof fn item_shape(x: ExprKind, g: GItem)
    requires g_item(g), m_item(x, g)
    ensures nonempty(x)
    decreases g, 0nat
{
    match g { GItem::Lit(l, q) => {}, GItem::Group(e, q) => { expr_shape(*x->Group_0, *e); } }
}
proof fn seq_shape(x: ExprKind, s: Seq<GItem>)
    requires s.len() > 0, g_items(s), m_seq(x, s)
    ensures nonempty(x)
    decreases s, 1nat
{
    if s.len() == 1 && m_item(x, s[0]) { assert(g_item(s[0])); item_shape(x, s[0]); }
    else {
        let v = x->Concat_0@;
        assert forall|i: int| 0 <= i < v.len() implies nonempty(#[trigger] v[i]) by { assert(g_item(s[i])); item_shape(v[i], s[i]); }
    }
}
proof fn expr_shape(x: ExprKind, e: GExpr)
    requires g_expr(e), m_expr(x, e)
    ensures nonempty(x)
    decreases e, 2nat
{
    match e {
        GExpr::One(s) => { seq_shape(x, s); },
        GExpr::Alt(s, y) => { seq_shape(*x->Alt_0, s); expr_shape(*x->Alt_1, *y); },
    }
}
// Where a part of a pattern ends.
spec fn starts(r: Seq<TokenKind>, k: TokenKind) -> bool { r.len() > 0 && r[0] == k }
spec fn quant_next(r: Seq<TokenKind>) -> bool { r.len() > 0 && r[0] is Quantifier }
spec fn fits_member(t: Seq<TokenKind>, m: GSet, r: Seq<TokenKind>) -> bool {
    t == w_member(m) + r && (m is Char ==> !starts(r, op(OperatorKind::Minus)))
}
spec fn fits_members(t: Seq<TokenKind>, ms: Seq<GSet>, r: Seq<TokenKind>) -> bool {
    t == w_members(ms) + r && starts(r, op(OperatorKind::RightBracket))
}
spec fn fits_lit(t: Seq<TokenKind>, l: GLit, r: Seq<TokenKind>) -> bool { t == w_lit(l) + r }
spec fn quant_of(x: GItem) -> Option<QuantifierKind> { match x { GItem::Lit(_, q) => q, GItem::Group(_, q) => q } }
spec fn fits_item(t: Seq<TokenKind>, x: GItem, r: Seq<TokenKind>) -> bool {
    g_item(x) && t == w_item(x) + r && (quant_of(x).is_none() ==> !quant_next(r))
}
spec fn end_items(r: Seq<TokenKind>) -> bool { r.len() == 0 || r[0] == op(OperatorKind::Vertical) || r[0] == op(OperatorKind::RightParen) }
spec fn fits_items(t: Seq<TokenKind>, s: Seq<GItem>, r: Seq<TokenKind>) -> bool {
    g_items(s) && t == w_items(s) + r && end_items(r)
}
spec fn end_expr(r: Seq<TokenKind>) -> bool { r.len() == 0 || r[0] == op(OperatorKind::RightParen) }
spec fn fits_expr(t: Seq<TokenKind>, e: GExpr, r: Seq<TokenKind>) -> bool {
    g_expr(e) && t == w_expr(e) + r && end_expr(r)
}
// Reading a part of a pattern from the front of a token sequence.
spec fn p_member(t: Seq<TokenKind>) -> Option<(GSet, Seq<TokenKind>)> {
    if t.len() == 0 { None }
    else if t[0] is Class { Some((GSet::Class(t[0]->Class_0), t.skip(1))) }
    else if t[0] is Match {
        if t.len() > 1 && t[1] == op(OperatorKind::Minus) {
            if t.len() > 2 && t[2] is Match { Some((GSet::Range(t[0]->Match_0, t[2]->Match_0), t.skip(3))) } else { None }
        } else { Some((GSet::Char(t[0]->Match_0), t.skip(1))) }
    }
    else { None }
}
spec fn p_members(t: Seq<TokenKind>) -> Option<(Seq<GSet>, Seq<TokenKind>)>
    decreases t.len()
{
    if t.len() == 0 { None }
    else if t[0] == op(OperatorKind::RightBracket) { Some((Seq::empty(), t)) }
    else {
        match p_member(t) {
            None => None,
            Some((m, r)) => if r.len() < t.len() {
                match p_members(r) { None => None, Some((ms, r2)) => Some((seq![m] + ms, r2)) }
            } else { None },
        }
    }
}
spec fn p_set(t: Seq<TokenKind>) -> Option<(GLit, Seq<TokenKind>)> {
    let neg = starts(t, op(OperatorKind::Carret));
    match p_members(if neg { t.skip(1) } else { t }) { None => None, Some((ms, r)) => Some((GLit::Set(neg, ms), r.skip(1))) }
}
spec fn p_lit(t: Seq<TokenKind>) -> Option<(GLit, Seq<TokenKind>)> {
    if t.len() == 0 { None }
    else if t[0] is Match { Some((GLit::Char(t[0]->Match_0), t.skip(1))) }
    else if t[0] is Class { Some((GLit::Class(t[0]->Class_0), t.skip(1))) }
    else if t[0] == op(OperatorKind::LeftBracket) { p_set(t.skip(1)) }
    else { None }
}
spec fn p_quant(t: Seq<TokenKind>) -> (Option<QuantifierKind>, Seq<TokenKind>) {
    if quant_next(t) { (Some(t[0]->Quantifier_0), t.skip(1)) } else { (None, t) }
}
spec fn p_item(t: Seq<TokenKind>) -> Option<(GItem, Seq<TokenKind>)>
    decreases t.len(), 0nat
{
    if starts(t, op(OperatorKind::LeftParen)) {
        match p_expr(t.skip(1)) {
            None => None,
            Some((e, r)) => if starts(r, op(OperatorKind::RightParen)) {
                let (q, r2) = p_quant(r.skip(1));
                Some((GItem::Group(Box::new(e), q), r2))
            } else { None },
        }
    } else {
        match p_lit(t) {
            None => None,
            Some((l, r)) => { let (q, r2) = p_quant(r); Some((GItem::Lit(l, q), r2)) },
        }
    }
}
spec fn p_items(t: Seq<TokenKind>) -> Option<(Seq<GItem>, Seq<TokenKind>)>
    decreases t.len(), 1nat
{
    if end_items(t) { Some((Seq::empty(), t)) }
    else {
        match p_item(t) {
            None => None,
            Some((x, r)) => if r.len() < t.len() {
                match p_items(r) { None => None, Some((s, r2)) => Some((seq![x] + s, r2)) }
            } else { None },
        }
    }
}
spec fn p_expr(t: Seq<TokenKind>) -> Option<(GExpr, Seq<TokenKind>)>
    decreases t.len(), 2nat
{
    match p_items(t) {
        None => None,
        Some((s, r)) => if s.len() == 0 || r.len() > t.len() { None }
            else if starts(r, op(OperatorKind::Vertical)) {
                match p_expr(r.skip(1)) { None => None, Some((y, r2)) => Some((GExpr::Alt(s, Box::new(y)), r2)) }
            } else { Some((GExpr::One(s), r)) },
    }
}
// Reading finds exactly the part that fits.
proof fn member_ok(t: Seq<TokenKind>)
    ensures match p_member(t) { Some((m, r)) => fits_member(t, m, r) && r.len() < t.len(), None => true },
{
    match p_member(t) { Some((m, r)) => { assert(t =~= w_member(m) + r); }, None => {} }
}
proof fn member_only(m: GSet, r: Seq<TokenKind>)
    requires fits_member(w_member(m) + r, m, r)
    ensures p_member(w_member(m) + r) == Some((m, r))
{
    let t = w_member(m) + r;
    assert(r =~= t.skip(w_member(m).len() as int));
    if m is Char && r.len() > 0 { assert(t[1] == r[0]); }
}
proof fn members_ok(t: Seq<TokenKind>)
    ensures match p_members(t) { Some((ms, r)) => fits_members(t, ms, r) && r.len() <= t.len(), None => true },
    decreases t.len()
{
    if t.len() > 0 && t[0] != op(OperatorKind::RightBracket) {
        member_ok(t);
        match p_member(t) {
            Some((m, r)) => {
                members_ok(r);
                match p_members(r) {
                    Some((ms, r2)) => {
                        assert((seq![m] + ms).skip(1) =~= ms);
                        members_split(seq![m] + ms, r2);
                    }
                    None => {}
                }
            }
            None => {}
        }
    } else if t.len() > 0 {
        assert(w_members(Seq::empty()) + t =~= t);
    }
}
proof fn members_only(ms: Seq<GSet>, r: Seq<TokenKind>)
    requires starts(r, op(OperatorKind::RightBracket))
    ensures p_members(w_members(ms) + r) == Some((ms, r))
    decreases ms.len()
{
    let t = w_members(ms) + r;
    if ms.len() == 0 {
        assert(t =~= r);
        assert(ms =~= Seq::empty());
    } else {
        members_split(ms, r);
        let r1 = w_members(ms.skip(1)) + r;
        members_only(ms.skip(1), r);
        if ms.len() > 1 {
            members_split(ms.skip(1), r);
            assert(r1[0] == w_member(ms[1])[0]);
        } else { assert(ms.skip(1) =~= Seq::empty()); assert(r1 =~= r); }
        assert(fits_member(t, ms[0], r1));
        member_only(ms[0], r1);
        assert(seq![ms[0]] + ms.skip(1) =~= ms);
        assert(t[0] == w_member(ms[0])[0]);
    }
}
proof fn lit_ok(t: Seq<TokenKind>)
    ensures match p_lit(t) { Some((l, r)) => fits_lit(t, l, r) && r.len() < t.len(), None => true },
{
    if t.len() > 0 {
        let u = t.skip(1);
        members_ok(u);
        if starts(u, op(OperatorKind::Carret)) { members_ok(u.skip(1)); }
        assert(t =~= seq![t[0]] + u);
        match p_lit(t) {
            Some((l, r)) => match l {
                GLit::Set(neg, ms) => {
                    let v = if neg { u.skip(1) } else { u };
                    if neg { assert(u =~= seq![u[0]] + v); }
                    let r0 = p_members(v).unwrap().1;
                    assert(r0 =~= seq![r0[0]] + r);
                    assert(v == w_members(ms) + r0);
                    assert(t =~= w_lit(l) + r);
                }
                _ => {}
            },
            None => {}
        }
    }
}
proof fn lit_only(l: GLit, r: Seq<TokenKind>)
    ensures p_lit(w_lit(l) + r) == Some((l, r))
{
    let t = w_lit(l) + r;
    match l {
        GLit::Set(neg, ms) => {
            let r1 = seq![op(OperatorKind::RightBracket)] + r;
            members_only(ms, r1);
            let u = w_members(ms) + r1;
            if ms.len() > 0 {
                members_split(ms, r1);
                assert(u[0] == w_member(ms[0])[0]);
            } else {
                assert(u =~= r1);
            }
            if neg { assert(t.skip(1).skip(1) =~= u); assert(t.skip(1)[0] == op(OperatorKind::Carret)); } else { assert(t.skip(1) =~= u); }
            assert(r1.skip(1) =~= r);
        }
        _ => { assert(t.skip(1) =~= r); }
    }
}
proof fn quant_only(q: Option<QuantifierKind>, r: Seq<TokenKind>)
    requires q.is_none() ==> !quant_next(r)
    ensures p_quant(w_quant(q) + r) == (q, r)
{
    let t = w_quant(q) + r;
    match q { Some(_) => { assert(t.skip(1) =~= r); } None => { assert(t =~= r); } }
}
proof fn quant_ok(t: Seq<TokenKind>)
    ensures t == w_quant(p_quant(t).0) + p_quant(t).1, p_quant(t).0.is_none() ==> !quant_next(p_quant(t).1), p_quant(t).1.len() <= t.len(),
{ assert(t =~= w_quant(p_quant(t).0) + p_quant(t).1); }
proof fn item_ok(t: Seq<TokenKind>)
    ensures match p_item(t) { Some((x, r)) => fits_item(t, x, r) && r.len() < t.len(), None => true },
    decreases t.len(), 0nat
{
    if starts(t, op(OperatorKind::LeftParen)) {
        expr_ok(t.skip(1));
        match p_expr(t.skip(1)) {
            Some((e, r)) => if starts(r, op(OperatorKind::RightParen)) {
                quant_ok(r.skip(1));
                let (x, r2) = p_item(t).unwrap();
                assert(t =~= seq![t[0]] + t.skip(1));
                assert(r =~= seq![r[0]] + r.skip(1));
                assert(t =~= w_item(x) + r2);
            },
            None => {}
        }
    } else {
        lit_ok(t);
        match p_lit(t) {
            Some((l, r)) => {
                quant_ok(r);
                let (x, r2) = p_item(t).unwrap();
                assert(t =~= w_item(x) + r2);
            }
            None => {}
        }
    }
}
proof fn items_ok(t: Seq<TokenKind>)
    ensures match p_items(t) { Some((s, r)) => fits_items(t, s, r) && r.len() <= t.len() && (s.len() > 0 ==> r.len() < t.len()), None => true },
    decreases t.len(), 1nat
{
    if end_items(t) {
        assert(w_items(Seq::empty()) + t =~= t);
    } else {
        item_ok(t);
        match p_item(t) {
            Some((x, r)) => {
                items_ok(r);
                match p_items(r) {
                    Some((s, r2)) => {
                        let all = seq![x] + s;
                        assert(all.skip(1) =~= s);
                        items_split(all, r2);
                        assert forall|i: int| 0 <= i < all.len() implies g_item(#[trigger] all[i]) by {
                            if i > 0 { assert(all[i] == s[i - 1]); }
                        }
                    }
                    None => {}
                }
            }
            None => {}
        }
    }
}
proof fn expr_ok(t: Seq<TokenKind>)
    ensures match p_expr(t) { Some((e, r)) => fits_expr(t, e, r) && r.len() < t.len(), None => true },
    decreases t.len(), 2nat
{
    items_ok(t);
    match p_items(t) {
        Some((s, r)) => if s.len() > 0 && starts(r, op(OperatorKind::Vertical)) {
            expr_ok(r.skip(1));
            match p_expr(r.skip(1)) {
                Some((y, r2)) => {
                    assert(r =~= seq![r[0]] + r.skip(1));
                    assert(t =~= w_expr(GExpr::Alt(s, Box::new(y))) + r2);
                }
                None => {}
            }
        },
        None => {}
    }
}
proof fn item_only(x: GItem, r: Seq<TokenKind>)
    requires g_item(x), quant_of(x).is_none() ==> !quant_next(r)
    ensures p_item(w_item(x) + r) == Some((x, r))
    decreases x, 0nat
{
    let t = w_item(x) + r;
    item_start(x, r);
    match x {
        GItem::Lit(l, q) => {
            lit_only(l, w_quant(q) + r);
            assert(t =~= w_lit(l) + (w_quant(q) + r));
            quant_only(q, r);
        }
        GItem::Group(e, q) => {
            let r1 = seq![op(OperatorKind::RightParen)] + (w_quant(q) + r);
            expr_only(*e, r1);
            assert(t.skip(1) =~= w_expr(*e) + r1);
            assert(r1.skip(1) =~= w_quant(q) + r);
            quant_only(q, r);
        }
    }
}
proof fn items_only(s: Seq<GItem>, r: Seq<TokenKind>)
    requires g_items(s), end_items(r)
    ensures p_items(w_items(s) + r) == Some((s, r))
    decreases s, 1nat
{
    let t = w_items(s) + r;
    if s.len() == 0 {
        assert(t =~= r);
        assert(s =~= Seq::empty());
    } else {
        items_split(s, r);
        let r1 = w_items(s.skip(1)) + r;
        assert forall|i: int| 0 <= i < s.skip(1).len() implies g_item(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        items_only(s.skip(1), r);
        if s.len() > 1 {
            items_split(s.skip(1), r);
            item_start(s[1], w_items(s.skip(1).skip(1)) + r);
        } else { assert(s.skip(1) =~= Seq::empty()); assert(r1 =~= r); }
        item_start(s[0], r1);
        item_only(s[0], r1);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
proof fn expr_only(e: GExpr, r: Seq<TokenKind>)
    requires g_expr(e), end_expr(r)
    ensures p_expr(w_expr(e) + r) == Some((e, r))
    decreases e, 2nat
{
    let t = w_expr(e) + r;
    match e {
        GExpr::One(s) => { items_only(s, r); }
        GExpr::Alt(s, y) => {
            let r1 = seq![op(OperatorKind::Vertical)] + (w_expr(*y) + r);
            items_only(s, r1);
            assert(t =~= w_items(s) + r1);
            expr_only(*y, r);
            assert(r1.skip(1) =~= w_expr(*y) + r);
        }
    }
}
/// A complete expression is read completely, and only one expression is written so.
proof fn expr_whole(t: Seq<TokenKind>)
    ensures
        match p_expr(t) {
            Some((e, r)) if r.len() == 0 => g_expr(e) && t == w_expr(e) && forall|e2: GExpr| g_expr(e2) && #[trigger] w_expr(e2) == t ==> e2 == e,
            _ => forall|e2: GExpr| g_expr(e2) ==> #[trigger] w_expr(e2) != t,
        },
{
    expr_ok(t);
    match p_expr(t) { Some((e, r)) if r.len() == 0 => { assert(w_expr(e) + r =~= w_expr(e)); } _ => {} }
    assert forall|e2: GExpr| g_expr(e2) && #[trigger] w_expr(e2) == t implies p_expr(t) == Some((e2, Seq::<TokenKind>::empty())) by {
        assert(w_expr(e2) + Seq::<TokenKind>::empty() =~= w_expr(e2));
        expr_only(e2, Seq::empty());
    }
}
/// What an item can start with.
proof fn item_start(x: GItem, r: Seq<TokenKind>)
    ensures ({
        let t = w_item(x) + r;
        t.len() > r.len() && (t[0] is Match || t[0] is Class || t[0] == op(OperatorKind::LeftBracket) || t[0] == op(OperatorKind::LeftParen))
            && (x is Group <==> t[0] == op(OperatorKind::LeftParen))
    })
{ }
proof fn members_split(ms: Seq<GSet>, r: Seq<TokenKind>)
    requires ms.len() > 0
    ensures w_members(ms) + r == w_member(ms[0]) + (w_members(ms.skip(1)) + r)
{ assert(w_members(ms) + r =~= w_member(ms[0]) + (w_members(ms.skip(1)) + r)); }
proof fn items_split(s: Seq<GItem>, r: Seq<TokenKind>)
    requires s.len() > 0
    ensures w_items(s) + r == w_item(s[0]) + (w_items(s.skip(1)) + r)
{ assert(w_items(s) + r =~= w_item(s[0]) + (w_items(s.skip(1)) + r)); }
//@ file pango-lexer/src/regex/parser.rs
//@ impl<'a> Parser<'a>
    spec fn toks(&self) -> Seq<TokenKind> { self.tokens.items() }
    spec fn wf(&self) -> bool { self.tokens.wf() }
//@ fn Parser::new
ensures r.wf(), r.toks() == t_tokens(input@),
//@ fn Parser::get_current_token_position
requires old(self).wf(),
ensures final(self).wf(), final(self).toks() == old(self).toks(),
//@ fn Parser::character_group_item
requires old(self).wf(),
ensures final(self).wf(),
    match p_member(old(self).toks()) {
        Some((m, rest)) => r is Ok && m_member(r->Ok_0, m) && final(self).toks() == rest,
        None => r is Err,
    },
//@ fn Parser::character_group
requires old(self).wf(), starts(old(self).toks(), op(OperatorKind::LeftBracket)),
ensures final(self).wf(),
    match p_lit(old(self).toks()) {
        Some((l, rest)) => r is Ok && m_lit(r->Ok_0, l) && final(self).toks() == rest,
        None => r is Err,
    },
//@ loop 0
invariant self.wf(), m_members(literals@, ms),
    all == match p_members(self.toks()) { Some((m2, r2)) => Some((ms + m2, r2)), None => None },
decreases self.toks().len(),
//@ at loop 0 before
let ghost all = p_members(self.toks());
let ghost mut ms: Seq<GSet> = Seq::empty();
proof {
    match all { Some((m2, r2)) => { assert(ms + m2 =~= m2); } None => {} }
}
//@ at call character_group_item 0 before
let ghost cur = self.toks();
proof {
    member_ok(cur);
    match p_member(cur) {
        Some((m, r)) => {
            match p_members(r) { Some((m2, r2)) => { assert(ms + (seq![m] + m2) =~= ms.push(m) + m2); } None => {} }
            ms = ms.push(m);
        }
        None => {}
    }
}
//@ at loop 0 after
proof { match p_members(self.toks()) { Some((m2, r2)) => { assert(ms + Seq::<GSet>::empty() =~= ms); } None => {} } }
//@ fn Parser::match_item
requires old(self).wf(),
ensures final(self).wf(),
    match p_lit(old(self).toks()) {
        Some((l, rest)) => r is Ok && m_lit(r->Ok_0, l) && final(self).toks() == rest,
        None => r is Err,
    },
//@ fn Parser::match_
requires old(self).wf(), !starts(old(self).toks(), op(OperatorKind::LeftParen)),
ensures final(self).wf(),
    match p_item(old(self).toks()) {
        Some((x, rest)) => r is Ok && m_item(r->Ok_0, x) && final(self).toks() == rest,
        None => r is Err,
    },
//@ fn Parser::group
requires old(self).wf(), starts(old(self).toks(), op(OperatorKind::LeftParen)),
ensures final(self).wf(),
    match p_item(old(self).toks()) {
        Some((x, rest)) => r is Ok && m_item(r->Ok_0, x) && final(self).toks() == rest,
        None => r is Err,
    },
decreases old(self).toks().len(), 0nat
//@ fn Parser::sub_expression_item
requires old(self).wf(),
ensures final(self).wf(),
    match p_item(old(self).toks()) {
        Some((x, rest)) => r is Ok && m_item(r->Ok_0, x) && final(self).toks() == rest,
        None => r is Err,
    },
decreases old(self).toks().len(), 1nat
//@ fn Parser::sub_expression
requires old(self).wf(),
ensures final(self).wf(),
    match p_items(old(self).toks()) {
        Some((s, rest)) if s.len() > 0 => r is Ok && m_items(r->Ok_0@, s) && final(self).toks() == rest,
        _ => r is Err,
    },
decreases old(self).toks().len(), 2nat
//@ loop 0
invariant self.wf(), m_items(literals@, its), self.toks().len() <= old(self).toks().len(),
    all == match p_items(self.toks()) { Some((s2, r2)) => Some((its + s2, r2)), None => None },
decreases self.toks().len(),
//@ at loop 0 before
let ghost all = p_items(self.toks());
let ghost mut its: Seq<GItem> = Seq::empty();
proof {
    match all { Some((s2, r2)) => { assert(its + s2 =~= s2); } None => {} }
}
//@ at loop 0 start
let ghost cur = self.toks();
proof {
    item_ok(cur);
    match p_item(cur) {
        Some((x, r)) => {
            match p_items(r) { Some((s2, r2)) => { assert(its + (seq![x] + s2) =~= its.push(x) + s2); } None => {} }
            its = its.push(x);
        }
        None => {}
    }
}
//@ at loop 0 after
proof { assert(its + Seq::<GItem>::empty() =~= its); }
//@ fn Parser::expression
requires old(self).wf(),
ensures final(self).wf(),
    match p_expr(old(self).toks()) {
        Some((e, rest)) => r is Ok && m_expr(r->Ok_0, e) && final(self).toks() == rest,
        None => r is Err,
    },
decreases old(self).toks().len(), 3nat
//@ at start
proof { items_ok(self.toks()); reveal_with_fuel(m_seq, 3); reveal_with_fuel(m_expr, 3); reveal_with_fuel(m_items, 3); reveal_with_fuel(m_item, 3); }
//@ fn Parser::parse
requires old(self).wf(),
ensures
    old(self).toks().len() == 0 ==> r is Ok && r->Ok_0.0 is Empty,
    r is Ok && old(self).toks().len() > 0 ==>
        exists|e: GExpr| g_expr(e) && #[trigger] w_expr(e) == old(self).toks() && m_expr(r->Ok_0.0, e)
            && forall|e2: GExpr| g_expr(e2) && #[trigger] w_expr(e2) == old(self).toks() ==> e2 == e,
    r is Err ==> forall|e: GExpr| g_expr(e) ==> #[trigger] w_expr(e) != old(self).toks(),
    // what unit `lexer` takes from here
    r is Err ==> forall|x: ExprKind| !#[trigger] tree(old(self).toks(), x),
    r is Ok ==> tree(old(self).toks(), r->Ok_0.0) && nonempty(r->Ok_0.0),
//@ at start
proof {
    expr_whole(self.toks());
    assert forall|x: ExprKind, e: GExpr| g_expr(e) && #[trigger] m_expr(x, e) implies nonempty(x) by { expr_shape(x, e); }
}
//@ end
