// Terminals as the parse table compares and hashes them.
//@ include gram.vx
//@ include ptr.vx
//@ file pango-parser/src/parser/table.rs
//@ item Terminal noderive
//@ library
impl<T: VxAtom> VxKey for Terminal<T> {
    type K = Option<T::TK>;
    spec fn key(&self) -> Option<T::TK> { match self { Terminal::T(t) => Some(t.at().tkey()), Terminal::Eof => None } }
}
//@ impl<T: VxAtom> Terminal<T>
//@ fn From for Terminal::from
ensures r.key() == Some(value.tkey()),
//@ fn PartialEq for Terminal::eq
ensures r == (self.key() == other.key()),
//@ fn Hash for Terminal::hash
//@ sig fn hash(&self, state: &mut VxHasher)
ensures match self.key() {
    Some(k) => final(state).fed() == old(state).fed() + T::thash(k),
    // There is one value of this kind, so any number will do.
    None => old(state).fed().is_prefix_of(final(state).fed()),
},
//@ end
