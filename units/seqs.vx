// Proved facts about sequences.
//@ library
broadcast proof fn seq_skip_skip<A>(s: Seq<A>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
broadcast proof fn seq_skip_0<A>(s: Seq<A>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }
broadcast use seq_skip_skip;
broadcast use seq_skip_0;
