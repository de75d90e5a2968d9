/// The part of std::io the crate relies on. Method signatures are those of std; the contracts are assumptions about
/// readers and writers (what the documentation of std::io promises).
pub mod vio {
use vstd::prelude::*;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ErrorKind { UnexpectedEof, InvalidInput, InvalidData, WriteZero, Interrupted, Other }
#[derive(Debug)]
pub struct Error { pub k: ErrorKind }
impl Error {
    #[verifier::external_body]
    pub fn new<E>(kind: ErrorKind, e: E) -> (ret: Error)
        ensures ret.k == kind,
    { unimplemented!() }
    pub fn from(kind: ErrorKind) -> (ret: Error)
        ensures ret.k == kind,
    { Error { k: kind } }
}
pub type Result<T> = core::result::Result<T, Error>;

pub trait Write {
    /// every byte accepted so far
    spec fn sunk(&self) -> Seq<u8>;
    /// for a writer behind a mutable reference: what the owner of the writer will find in it
    #[verifier::prophetic]
    spec fn fin_sunk(&self) -> Seq<u8>;
    /// whether this writer never fails (Vec<u8>)
    spec fn infallible(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (ret: Result<()>)
        ensures
            final(self).fin_sunk() == old(self).fin_sunk(),
            final(self).infallible() == old(self).infallible(),
            ret is Ok ==> final(self).sunk() == old(self).sunk() + buf@,
            old(self).infallible() ==> ret is Ok;
    fn flush(&mut self) -> (ret: Result<()>)
        ensures
            final(self).fin_sunk() == old(self).fin_sunk(),
            final(self).infallible() == old(self).infallible(),
            ret is Ok ==> final(self).sunk() == old(self).sunk(),
            old(self).infallible() ==> ret is Ok;
}
impl<W: Write> Write for &mut W {
    open spec fn sunk(&self) -> Seq<u8> { (**self).sunk() }
    #[verifier::prophetic]
    open spec fn fin_sunk(&self) -> Seq<u8> { (*final(*self)).sunk() }
    open spec fn infallible(&self) -> bool { (**self).infallible() }
    fn write_all(&mut self, buf: &[u8]) -> (ret: Result<()>) { (**self).write_all(buf) }
    fn flush(&mut self) -> (ret: Result<()>) { (**self).flush() }
}
impl Write for Vec<u8> {
    open spec fn sunk(&self) -> Seq<u8> { self@ }
    #[verifier::prophetic]
    open spec fn fin_sunk(&self) -> Seq<u8> { Seq::empty() }
    open spec fn infallible(&self) -> bool { true }
    fn write_all(&mut self, buf: &[u8]) -> (ret: Result<()>) {
        self.extend_from_slice(buf);
        proof { assert(self@ =~= old(self)@ + buf@); }
        Ok(())
    }
    fn flush(&mut self) -> (ret: Result<()>) { Ok(()) }
}
/// std::io::BufWriter: what was written is what the inner writer got plus what is still buffered.
pub struct BufWriter<W: Write> { pub inner: W, pub buf: Vec<u8> }
impl<W: Write> BufWriter<W> {
    pub open spec fn view(&self) -> Seq<u8> { self.inner.sunk() + self.buf@ }
    #[verifier::external_body]
    pub fn new(inner: W) -> (ret: Self)
        ensures ret.inner == inner, ret.buf@.len() == 0, ret.view() == inner.sunk(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (ret: Result<()>)
        ensures
            final(self).inner.fin_sunk() == old(self).inner.fin_sunk(),
            final(self).inner.infallible() == old(self).inner.infallible(),
            ret is Ok ==> final(self).view() == old(self).view() + b@,
            old(self).inner.infallible() ==> ret is Ok,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (ret: Result<()>)
        ensures
            final(self).inner.fin_sunk() == old(self).inner.fin_sunk(),
            final(self).inner.infallible() == old(self).inner.infallible(),
            ret is Ok ==> final(self).view() == old(self).view() && final(self).buf@.len() == 0 && final(self).inner.sunk() == old(self).view(),
            old(self).inner.infallible() ==> ret is Ok,
    { unimplemented!() }
}

pub trait Read {
    /// the bytes that are still to come
    spec fn rest(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn fin_rest(&self) -> Seq<u8>;
    /// whether this reader never fails before its end (a byte slice)
    spec fn reliable(&self) -> bool;
    /// whether this reader reported an error
    spec fn failed(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (ret: Result<usize>)
        ensures
            final(self).fin_rest() == old(self).fin_rest(),
            final(self).reliable() == old(self).reliable(),
            final(buf)@.len() == old(buf)@.len(),
            final(self).failed() == (old(self).failed() || ret is Err),
            ret matches Ok(n) ==> {
                &&& n <= old(buf)@.len()
                &&& n <= old(self).rest().len()
                &&& final(self).rest() == old(self).rest().skip(n as int)
                &&& final(buf)@.take(n as int) == old(self).rest().take(n as int)
                &&& n == 0 ==> old(buf)@.len() == 0 || old(self).rest().len() == 0
            },
            old(self).reliable() ==> ret is Ok;
    fn read_exact(&mut self, buf: &mut [u8]) -> (ret: Result<()>)
        ensures
            final(self).fin_rest() == old(self).fin_rest(),
            final(self).reliable() == old(self).reliable(),
            final(buf)@.len() == old(buf)@.len(),
            final(self).failed() == (old(self).failed() || ret is Err),
            ret is Ok ==> {
                &&& old(buf)@.len() <= old(self).rest().len()
                &&& final(self).rest() == old(self).rest().skip(old(buf)@.len() as int)
                &&& final(buf)@ == old(self).rest().take(old(buf)@.len() as int)
            },
            old(self).reliable() && old(buf)@.len() <= old(self).rest().len() ==> ret is Ok;
}
impl<R: Read> Read for &mut R {
    open spec fn rest(&self) -> Seq<u8> { (**self).rest() }
    #[verifier::prophetic]
    open spec fn fin_rest(&self) -> Seq<u8> { (*final(*self)).rest() }
    open spec fn reliable(&self) -> bool { (**self).reliable() }
    open spec fn failed(&self) -> bool { (**self).failed() }
    fn read(&mut self, buf: &mut [u8]) -> (ret: Result<usize>) { (**self).read(buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> (ret: Result<()>) { (**self).read_exact(buf) }
}
/// std::io::Read for &[u8]. It keeps no record of errors, so nothing is said about failed().
impl Read for &[u8] {
    open spec fn rest(&self) -> Seq<u8> { (*self)@ }
    #[verifier::prophetic]
    open spec fn fin_rest(&self) -> Seq<u8> { Seq::empty() }
    open spec fn reliable(&self) -> bool { true }
    open spec fn failed(&self) -> bool { true }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (ret: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (ret: Result<()>) { unimplemented!() }
}
}
