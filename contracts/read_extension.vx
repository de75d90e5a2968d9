//@ source src/read_extension.rs
pub mod read_extension {
use vstd::prelude::*;
use crate::vf::*;
/// reading n bytes, which are b, took the reader from o to f
pub open spec fn took<T: crate::vio::Read>(o: &T, f: &T, b: Seq<u8>) -> bool {
    &&& b.len() <= o.rest().len()
    &&& b == o.rest().take(b.len() as int)
    &&& f.rest() == o.rest().skip(b.len() as int)
    &&& f.failed() == o.failed()
}
#[verifier::prophetic]
pub open spec fn same<T: crate::vio::Read>(o: &T, f: &T) -> bool {
    &&& f.fin_rest() == o.fin_rest()
    &&& f.reliable() == o.reliable()
}
/// the writer took b, if there was no error
#[verifier::prophetic]
pub open spec fn put<T: crate::vio::Write>(o: &T, f: &T, ok: bool, b: Seq<u8>) -> bool {
    &&& f.fin_sunk() == o.fin_sunk()
    &&& f.infallible() == o.infallible()
    &&& ok ==> f.sunk() == o.sunk() + b
}
//@ trait ReadExt
//@ end
//@ impl-open T as ReadExt
//@ fn T as ReadExt::read_u8 bare
//@ spec
    ensures
        same(old(self), final(self)),
        ret matches Ok(x) ==> took(old(self), final(self), seq![x]),
        old(self).reliable() && old(self).rest().len() >= 1 ==> ret is Ok,
//@ tail
        proof { assert(seq![tmp@[0]] =~= tmp@); }
//@ end
//@ fn T as ReadExt::read_u16 bare
//@ spec
    ensures
        same(old(self), final(self)),
        ret matches Ok(x) ==> took(old(self), final(self), le2(x)),
        old(self).reliable() && old(self).rest().len() >= 2 ==> ret is Ok,
//@ end
//@ fn T as ReadExt::read_u32 bare
//@ spec
    ensures
        same(old(self), final(self)),
        ret matches Ok(x) ==> took(old(self), final(self), le4(x)),
        old(self).reliable() && old(self).rest().len() >= 4 ==> ret is Ok,
//@ end
//@ fn T as ReadExt::read_u64 bare
//@ spec
    ensures
        same(old(self), final(self)),
        ret matches Ok(x) ==> took(old(self), final(self), le8(x)),
        old(self).reliable() && old(self).rest().len() >= 8 ==> ret is Ok,
//@ end
//@ fn T as ReadExt::read_f64 bare
//@ spec
    ensures
        same(old(self), final(self)),
        ret matches Ok(x) ==> took(old(self), final(self), lef(x)),
        old(self).reliable() && old(self).rest().len() >= 8 ==> ret is Ok,
//@ end
}
}
