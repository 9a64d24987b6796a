requires old(self).wf(),
ensures final(self).wf(), final(self).rules() == old(self).rules(),
    // nothing is lost when there is no token
    r.is_none() ==> no_token(old(self).rules(), old(self).rest()) && final(self).rest() == old(self).rest() && final(self).base() == old(self).base(),
    r.is_some() ==> {
        let n = r.unwrap().source.chars().len() as int;
        let rest = old(self).rest();
        &&& longest(old(self).rules(), rest, n)
        &&& r.unwrap().source.chars() == rest.take(n)
        &&& named(old(self).rules(), rest.take(n), r.unwrap().kind)
        &&& r.unwrap().pos.0 == old(self).base()
        &&& r.unwrap().pos.1 == old(self).base() + n
        &&& final(self).rest() == rest.skip(n)
        &&& final(self).base() == old(self).base() + n
    },
