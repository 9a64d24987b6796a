// The reader of the lexer's input.
//@ include iter.vx
//@ include seqs.vx
//@ include strings.vx
//@ include mem.vx
//@ scope pango-lexer/src/lexer/
//@ map IntoIter => VxIt
//@ map .by_ref => vx_by_ref
//@ rewrite-all Enumerate<Chars<'a>> =>> VxNumbered<'a>
//@ rewrite-all input.chars().enumerate() =>> vx_numbered(input)
//@ rewrite-all .as_slice().is_empty() =>> .vx_done()
//@ scope
//@ library
/// `Enumerate<Chars>`: what is left, and the index of the first of it.
#[verifier::external_body]
struct VxNumbered<'a> { x: &'a str }
impl<'a> VxNumbered<'a> {
    uninterp spec fn chars(&self) -> Seq<char>;
    uninterp spec fn idx(&self) -> int;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures
            old(self).chars().len() == 0 ==> r.is_none() && *final(self) == *old(self),
            old(self).chars().len() > 0 ==> r == Some((old(self).idx() as usize, old(self).chars()[0]))
                && final(self).chars() == old(self).chars().skip(1) && final(self).idx() == old(self).idx() + 1,
    { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// A string has fewer characters than the address space has bytes.
broadcast axiom fn vx_numbered_bounds<'a>(x: VxNumbered<'a>)
    ensures 0 <= #[trigger] x.idx(), x.idx() + x.chars().len() < usize::MAX;
broadcast use vx_numbered_bounds;
#[verifier::external_body]
fn vx_numbered<'a>(x: &'a str) -> (r: VxNumbered<'a>) ensures r.chars() == x@, r.idx() == 0 { unimplemented!() }
impl<T> VxIt<T> {
    fn default() -> (r: Self) ensures r.seq() == Seq::<T>::empty(), r.pos() == 0 { VxIt::vx_empty() }
    fn vx_done(&self) -> (r: bool) ensures r == (self.pos() == self.seq().len()) { proof { vx_it_bounds(*self); } !self.vx_has() }
    /// Everything that is left; used where the caller reads all of it.
    #[verifier::external_body]
    fn vx_by_ref(&mut self) -> (r: VxIt<T>)
        ensures r.seq() == old(self).rest(), r.pos() == 0, final(self).rest() == Seq::<T>::empty() { unimplemented!() }
}
//@ file pango-lexer/src/lexer/input.rs
//@ item InputIterToken noderive
//@ item InputIter noderive
//@ prelude
/// The characters of `s`.
spec fn chars_of(s: Seq<(usize, char)>) -> Seq<char> { s.map_values(|p: (usize, char)| p.1) }
spec fn positions(s: Seq<(usize, char)>, from: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == from + i }
impl<'a> InputIter<'a> {
    /// Accepted, read ahead, and not read (again) yet.
    spec fn accepted(&self) -> Seq<char> { self.current_token.source.chars() }
    spec fn ahead(&self) -> Seq<char> { chars_of(self.token_suffix@) }
    spec fn unread(&self) -> Seq<char> { chars_of(self.prev_characters_iter.rest()) + self.iter.chars() }
    spec fn start(&self) -> int { self.current_token.pos.0 as int }
    spec fn wf(&self) -> bool {
        let a = self.start() + self.accepted().len();
        let b = a + self.token_suffix@.len();
        let c = b + self.prev_characters_iter.rest().len();
        &&& self.accepted().len() > 0 ==> self.current_token.pos.1 == a
        &&& positions(self.token_suffix@, a)
        &&& positions(self.prev_characters_iter.rest(), b)
        &&& self.iter.idx() == c
    }
}
//@ impl InputIterToken
//@ fn InputIterToken::new
ensures r.source.chars() == Seq::<char>::empty(), r.pos == (token_start, token_start),
//@ fn Default for InputIterToken::default as=vx_default
ensures r.source.chars() == Seq::<char>::empty(), r.pos == (0usize, 0usize),
//@ fn InputIterToken::update_pos_end
ensures final(self).source == old(self).source, final(self).pos == (old(self).pos.0, new_end),
//@ end
//@ impl<'a> InputIter<'a>
//@ fn InputIter::new
ensures r.wf(), r.accepted().len() == 0, r.ahead().len() == 0, r.unread() == input@, r.start() == 0,
//@ at end
proof { assert(chars_of(vx_tail.prev_characters_iter.rest()) =~= Seq::empty()); assert(vx_tail.unread() =~= input@); }
//@ fn Iterator for InputIter::next
//@ sig fn next(&mut self) -> Option<char>
requires old(self).wf(),
ensures final(self).wf(), final(self).accepted() == old(self).accepted(), final(self).start() == old(self).start(),
    old(self).unread().len() == 0 ==> r.is_none() && final(self).ahead() == old(self).ahead() && final(self).unread() == old(self).unread(),
    old(self).unread().len() > 0 ==> r == Some(old(self).unread()[0])
        && final(self).ahead() == old(self).ahead().push(old(self).unread()[0])
        && final(self).unread() == old(self).unread().skip(1),
//@ at end
proof {
    if old(self).unread().len() > 0 {
        let o = old(self).prev_characters_iter.rest();
        if o.len() > 0 {
            assert(self.prev_characters_iter.rest() =~= o.skip(1));
            assert(forall|i: int| 0 <= i < o.len() - 1 ==> #[trigger] o.skip(1)[i] == o[i + 1]);
        }
        assert(self.ahead() =~= old(self).ahead().push(old(self).unread()[0]));
        assert(self.unread() =~= old(self).unread().skip(1));
    } else {
        assert(self.unread() =~= old(self).unread());
    }
}
//@ fn InputIter::reject_suffix
requires old(self).wf(),
ensures final(self).wf(), final(self).accepted() == old(self).accepted(), final(self).start() == old(self).start(),
    final(self).ahead().len() == 0, final(self).unread() == old(self).ahead() + old(self).unread(),
//@ loop 0
invariant self.token_suffix@ == old(self).token_suffix@ + vx_s0.take(vx_it0.pos()),
    self.current_token == old(self).current_token, self.iter == old(self).iter, self.prev_characters_iter.rest().len() == 0,
//@ at loop 0 start
proof { assert(vx_s0.take(vx_it0.pos()) =~= vx_s0.take(vx_it0.pos() - 1).push(vx_x0)); }
//@ at loop 0 after
proof { assert(vx_s0.take(vx_it0.pos()) =~= vx_s0); }
//@ at end
proof {
    let p = old(self).token_suffix@ + old(self).prev_characters_iter.rest();
    assert(self.prev_characters_iter.rest() =~= p);
    assert(chars_of(p) =~= chars_of(old(self).token_suffix@) + chars_of(old(self).prev_characters_iter.rest()));
    assert(self.unread() =~= old(self).ahead() + old(self).unread());
}
//@ fn InputIter::consume_token
requires old(self).wf(), old(self).accepted().len() > 0,
ensures final(self).wf(), r.source.chars() == old(self).accepted(),
    r.pos.0 == old(self).start(), r.pos.1 == old(self).start() + old(self).accepted().len(),
    final(self).start() == old(self).start() + old(self).accepted().len(),
    final(self).accepted().len() == 0, final(self).ahead().len() == 0,
    final(self).unread() == old(self).ahead() + old(self).unread(),
//@ fn InputIter::is_empty
requires self.wf(),
ensures r == (self.unread().len() == 0),
//@ fn InputIter::get_token
ensures *r == self.current_token,
//@ fn InputIter::accept_suffix
requires old(self).wf(), old(self).ahead().len() > 0,
ensures final(self).wf(), final(self).accepted() == old(self).accepted() + old(self).ahead(), final(self).start() == old(self).start(),
    final(self).ahead().len() == 0, final(self).unread() == old(self).unread(),
//@ loop 0
invariant vx_s0 == old(self).token_suffix@,
    vx_col1.chars() == chars_of(vx_s0.take(vx_it0.pos())),
    vx_it0.pos() > 0 ==> last_pos == vx_s0[vx_it0.pos() - 1].0,
    self.current_token == old(self).current_token, self.iter == old(self).iter, self.prev_characters_iter == old(self).prev_characters_iter,
    self.token_suffix@.len() == 0,
//@ at loop 0 before
proof { assert(chars_of(vx_s0.take(0)) =~= Seq::empty()); }
//@ at loop 0 start
proof { assert(chars_of(vx_s0.take(vx_it0.pos())) =~= chars_of(vx_s0.take(vx_it0.pos() - 1)).push(vx_x0.1)); }
//@ at loop 0 after
proof { assert(vx_s0.take(vx_it0.pos()) =~= vx_s0); }
//@ end
