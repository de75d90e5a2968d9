/// Stand-ins for operations the verifier has no contract or no syntax for. All of them are assumptions about std.
pub mod vf {
use vstd::prelude::*;
use crate::vbits::*;
#[verifier::external_body]
pub fn usize_from_be_bytes(b: [u8; 8]) -> (ret: usize)
    ensures top_bits(ret as u64, 64) == byte_bits(b@),
{ usize::from_be_bytes(b) }

// little endian encodings
pub open spec fn le2(x: u16) -> Seq<u8> { seq![(x >> 0u16) as u8, (x >> 8u16) as u8] }
pub open spec fn le4(x: u32) -> Seq<u8> { seq![(x >> 0u32) as u8, (x >> 8u32) as u8, (x >> 16u32) as u8, (x >> 24u32) as u8] }
pub open spec fn le8(x: u64) -> Seq<u8> { seq![(x >> 0u64) as u8, (x >> 8u64) as u8, (x >> 16u64) as u8, (x >> 24u64) as u8, (x >> 32u64) as u8, (x >> 40u64) as u8, (x >> 48u64) as u8, (x >> 56u64) as u8] }
pub uninterp spec fn lef(x: f64) -> Seq<u8>;
pub broadcast axiom fn axiom_lef_len(x: f64)
    ensures #[trigger] lef(x).len() == 8;
/// distinct f64 values have distinct encodings
pub axiom fn axiom_lef_inj(x: f64, y: f64)
    requires lef(x) == lef(y),
    ensures x == y;
pub proof fn lemma_le2_inj(x: u16, y: u16)
    requires le2(x) == le2(y),
    ensures x == y,
{
    assert(le2(x)[0] == le2(y)[0] && le2(x)[1] == le2(y)[1]);
    assert(x == y) by (bit_vector) requires (x >> 0u16) as u8 == (y >> 0u16) as u8, (x >> 8u16) as u8 == (y >> 8u16) as u8;
}
pub proof fn lemma_le4_inj(x: u32, y: u32)
    requires le4(x) == le4(y),
    ensures x == y,
{
    assert(le4(x)[0] == le4(y)[0] && le4(x)[1] == le4(y)[1] && le4(x)[2] == le4(y)[2] && le4(x)[3] == le4(y)[3]);
    assert(x == y) by (bit_vector) requires (x >> 0u32) as u8 == (y >> 0u32) as u8, (x >> 8u32) as u8 == (y >> 8u32) as u8, (x >> 16u32) as u8 == (y >> 16u32) as u8, (x >> 24u32) as u8 == (y >> 24u32) as u8;
}
pub proof fn lemma_le8_inj(x: u64, y: u64)
    requires le8(x) == le8(y),
    ensures x == y,
{
    assert(le8(x)[0] == le8(y)[0] && le8(x)[1] == le8(y)[1] && le8(x)[2] == le8(y)[2] && le8(x)[3] == le8(y)[3]);
    assert(le8(x)[4] == le8(y)[4] && le8(x)[5] == le8(y)[5] && le8(x)[6] == le8(y)[6] && le8(x)[7] == le8(y)[7]);
    assert(x == y) by (bit_vector)
        requires (x >> 0u64) as u8 == (y >> 0u64) as u8, (x >> 8u64) as u8 == (y >> 8u64) as u8, (x >> 16u64) as u8 == (y >> 16u64) as u8, (x >> 24u64) as u8 == (y >> 24u64) as u8,
            (x >> 32u64) as u8 == (y >> 32u64) as u8, (x >> 40u64) as u8 == (y >> 40u64) as u8, (x >> 48u64) as u8 == (y >> 48u64) as u8, (x >> 56u64) as u8 == (y >> 56u64) as u8;
}
#[verifier::external_body]
pub fn u16_from_le_bytes(b: [u8; 2]) -> (ret: u16) ensures le2(ret) == b@ { u16::from_le_bytes(b) }
#[verifier::external_body]
pub fn u32_from_le_bytes(b: [u8; 4]) -> (ret: u32) ensures le4(ret) == b@ { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn u64_from_le_bytes(b: [u8; 8]) -> (ret: u64) ensures le8(ret) == b@ { u64::from_le_bytes(b) }
#[verifier::external_body]
pub fn f64_from_le_bytes(b: [u8; 8]) -> (ret: f64) ensures lef(ret) == b@ { f64::from_le_bytes(b) }
/// to_le_bytes
pub trait LeBytes<const N: usize> {
    spec fn le(&self) -> Seq<u8>;
    fn le_bytes(&self) -> (ret: [u8; N])
        ensures ret@ == self.le();
}
impl LeBytes<1> for u8 {
    open spec fn le(&self) -> Seq<u8> { seq![*self] }
    #[verifier::external_body]
    fn le_bytes(&self) -> (ret: [u8; 1]) { self.to_le_bytes() }
}
impl LeBytes<2> for u16 {
    open spec fn le(&self) -> Seq<u8> { le2(*self) }
    #[verifier::external_body]
    fn le_bytes(&self) -> (ret: [u8; 2]) { self.to_le_bytes() }
}
impl LeBytes<4> for u32 {
    open spec fn le(&self) -> Seq<u8> { le4(*self) }
    #[verifier::external_body]
    fn le_bytes(&self) -> (ret: [u8; 4]) { self.to_le_bytes() }
}
impl LeBytes<8> for u64 {
    open spec fn le(&self) -> Seq<u8> { le8(*self) }
    #[verifier::external_body]
    fn le_bytes(&self) -> (ret: [u8; 8]) { self.to_le_bytes() }
}
impl LeBytes<8> for f64 {
    open spec fn le(&self) -> Seq<u8> { lef(*self) }
    #[verifier::external_body]
    fn le_bytes(&self) -> (ret: [u8; 8]) { self.to_le_bytes() }
}
pub assume_specification[ usize::leading_zeros ](x: usize) -> (ret: u32)
    ensures
        ret <= 64,
        (ret == 64) == (x == 0),
        ret < 64 ==> (x as u64) >> ((63 - ret) as u64) == 1;
pub assume_specification[ usize::count_ones ](x: usize) -> (ret: u32)
    ensures
        (ret == 0) == (x == 0),
        x > 0 ==> ((ret == 1) == ((x as u64) & ((x - 1) as u64) == 0));
/// iter().min() and iter().max() on slices of indices
#[verifier::external_body]
pub fn slice_min(s: &[u32]) -> (ret: Option<&u32>)
    ensures
        ret is None <==> s@.len() == 0,
        ret matches Some(m) ==> s@.contains(*m) && forall|i: int| 0 <= i < s@.len() ==> *m <= #[trigger] s@[i],
{ s.iter().min() }
#[verifier::external_body]
pub fn slice_max(s: &[u32]) -> (ret: Option<&u32>)
    ensures
        ret is None <==> s@.len() == 0,
        ret matches Some(m) ==> s@.contains(*m) && forall|i: int| 0 <= i < s@.len() ==> *m >= #[trigger] s@[i],
{ s.iter().max() }

// ---------------------------------------------------------------- Into between Vec, slices and boxed slices
pub trait IntoVx<U>: Sized {
    spec fn into_is(self, r: U) -> bool;
    fn into_vx(self) -> (ret: U)
        ensures self.into_is(ret);
}
impl<T> IntoVx<Box<[T]>> for Vec<T> {
    open spec fn into_is(self, r: Box<[T]>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_vx(self) -> (ret: Box<[T]>) { self.into() }
}
impl<T> IntoVx<Vec<T>> for Box<[T]> {
    open spec fn into_is(self, r: Vec<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_vx(self) -> (ret: Vec<T>) { self.into() }
}
impl<T: Copy> IntoVx<Box<[T]>> for &[T] {
    open spec fn into_is(self, r: Box<[T]>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_vx(self) -> (ret: Box<[T]>) { self.into() }
}
impl<T: Copy> IntoVx<Vec<T>> for &[T] {
    open spec fn into_is(self, r: Vec<T>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_vx(self) -> (ret: Vec<T>) { self.into() }
}
impl<T> IntoVx<Vec<T>> for Vec<T> {
    open spec fn into_is(self, r: Vec<T>) -> bool { r == self }
    fn into_vx(self) -> (ret: Vec<T>) { self }
}
pub trait AsRefVx<T> {
    spec fn as_ref_is(&self, r: &[T]) -> bool;
    fn as_ref_vx(&self) -> (ret: &[T])
        ensures self.as_ref_is(ret);
}
impl<T> AsRefVx<T> for Vec<T> {
    open spec fn as_ref_is(&self, r: &[T]) -> bool { r@ == self@ }
    fn as_ref_vx(&self) -> (ret: &[T]) { self.as_slice() }
}
pub trait ExtendVx<S> {
    spec fn extended(&self, s: S, r: &Self) -> bool;
    fn extend_vx(&mut self, s: S)
        ensures old(self).extended(s, final(self));
}
impl<T: Copy> ExtendVx<&[T]> for Vec<T> {
    open spec fn extended(&self, s: &[T], r: &Self) -> bool { r@ == self@ + s@ }
    #[verifier::external_body]
    fn extend_vx(&mut self, s: &[T]) { self.extend(s.iter().copied()) }
}

/// an allocation has at most isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_vec_len(v: &Vec<crate::CustomDataSegment>)
    ensures v@.len() <= isize::MAX,
{}
/// an allocation has less than 2^56 bytes, as no processor has more virtual memory for a program
#[verifier::external_body]
pub proof fn axiom_slice_len(v: &[u32])
    ensures v@.len() < 0x40_0000_0000_0000,
{}
#[verifier::external_body]
pub proof fn axiom_slice_len_v(v: &[(f32, f32, f32)])
    ensures v@.len() < 0x15_5555_5555_5556,
{}
/// == on slices of integers
pub trait IntElem: Copy + PartialEq {}
impl IntElem for u8 {}
impl IntElem for u32 {}
#[verifier::external_body]
pub fn slice_eq<T: IntElem>(a: &[T], b: &[T]) -> (ret: bool)
    ensures ret == (a@ == b@),
{ a == b }

// ---------------------------------------------------------------- std methods without a contract in vstd
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures o is None ==> r is None, o matches Some(x) ==> r == Some(*x);
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(x);
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>)
    ensures
        a is None || b is None ==> r is None,
        a matches Some(x) ==> (b matches Some(y) ==> r == Some((x, y)));
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
/// Ord::min and Ord::max, f32::min and f32::max
pub trait MinMaxVx: Sized {
    spec fn min_is(self, y: Self, r: Self) -> bool;
    spec fn max_is(self, y: Self, r: Self) -> bool;
    fn min_vx(self, y: Self) -> (r: Self)
        ensures self.min_is(y, r);
    fn max_vx(self, y: Self) -> (r: Self)
        ensures self.max_is(y, r);
}
impl MinMaxVx for u32 {
    open spec fn min_is(self, y: Self, r: Self) -> bool { r == if self <= y { self } else { y } }
    open spec fn max_is(self, y: Self, r: Self) -> bool { r == if self >= y { self } else { y } }
    #[verifier::external_body]
    fn min_vx(self, y: Self) -> (r: Self) { self.min(y) }
    #[verifier::external_body]
    fn max_vx(self, y: Self) -> (r: Self) { self.max(y) }
}
impl MinMaxVx for usize {
    open spec fn min_is(self, y: Self, r: Self) -> bool { r == if self <= y { self } else { y } }
    open spec fn max_is(self, y: Self, r: Self) -> bool { r == if self >= y { self } else { y } }
    #[verifier::external_body]
    fn min_vx(self, y: Self) -> (r: Self) { self.min(y) }
    #[verifier::external_body]
    fn max_vx(self, y: Self) -> (r: Self) { self.max(y) }
}
impl MinMaxVx for u64 {
    open spec fn min_is(self, y: Self, r: Self) -> bool { r == if self <= y { self } else { y } }
    open spec fn max_is(self, y: Self, r: Self) -> bool { r == if self >= y { self } else { y } }
    #[verifier::external_body]
    fn min_vx(self, y: Self) -> (r: Self) { self.min(y) }
    #[verifier::external_body]
    fn max_vx(self, y: Self) -> (r: Self) { self.max(y) }
}
impl MinMaxVx for u8 {
    open spec fn min_is(self, y: Self, r: Self) -> bool { r == if self <= y { self } else { y } }
    open spec fn max_is(self, y: Self, r: Self) -> bool { r == if self >= y { self } else { y } }
    #[verifier::external_body]
    fn min_vx(self, y: Self) -> (r: Self) { self.min(y) }
    #[verifier::external_body]
    fn max_vx(self, y: Self) -> (r: Self) { self.max(y) }
}
impl MinMaxVx for u16 {
    open spec fn min_is(self, y: Self, r: Self) -> bool { r == if self <= y { self } else { y } }
    open spec fn max_is(self, y: Self, r: Self) -> bool { r == if self >= y { self } else { y } }
    #[verifier::external_body]
    fn min_vx(self, y: Self) -> (r: Self) { self.min(y) }
    #[verifier::external_body]
    fn max_vx(self, y: Self) -> (r: Self) { self.max(y) }
}
impl MinMaxVx for f32 {
    open spec fn min_is(self, y: Self, r: Self) -> bool { crate::fl::fmin_is(self, y, r) }
    open spec fn max_is(self, y: Self, r: Self) -> bool { crate::fl::fmax_is(self, y, r) }
    #[verifier::external_body]
    fn min_vx(self, y: Self) -> (r: Self) { self.min(y) }
    #[verifier::external_body]
    fn max_vx(self, y: Self) -> (r: Self) { self.max(y) }
}
/// Vec::drain, when its result is dropped at once
pub trait DrainVx {
    spec fn drained(&self, r: core::ops::Range<usize>, after: &Self) -> bool;
    spec fn drainable(&self, r: core::ops::Range<usize>) -> bool;
    fn drain_vx(&mut self, r: core::ops::Range<usize>)
        requires old(self).drainable(r),
        ensures old(self).drained(r, final(self));
}
impl<T> DrainVx for Vec<T> {
    open spec fn drained(&self, r: core::ops::Range<usize>, after: &Self) -> bool { after@ == self@.take(r.start as int) + self@.skip(r.end as int) }
    open spec fn drainable(&self, r: core::ops::Range<usize>) -> bool { r.start <= r.end <= self@.len() }
    #[verifier::external_body]
    fn drain_vx(&mut self, r: core::ops::Range<usize>) { self.drain(r); }
}
pub assume_specification[ <u8 as core::cmp::Ord>::clamp ](x: u8, a: u8, b: u8) -> (r: u8)
    ensures a <= b ==> r == if x < a { a } else if x > b { b } else { x };
/// Clone, as derived: the same value again
pub trait CloneVx: Sized {
    fn clone_vx(&self) -> (ret: Self)
        ensures ret == *self;
}
impl CloneVx for Box<[u32]> {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl CloneVx for Vec<u32> {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl CloneVx for core::ops::Range<(f32, f32, f32)> {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl CloneVx for crate::CustomDataSegment {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl CloneVx for crate::tmf::DecodedSegment {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl CloneVx for crate::TMFMesh {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl CloneVx for crate::tmf_importer::TMFImportContext {
    #[verifier::external_body]
    fn clone_vx(&self) -> (ret: Self) { unimplemented!() }
}
impl IntoVx<Vec<crate::tmf::DecodedSegment>> for &[crate::tmf::DecodedSegment] {
    open spec fn into_is(self, r: Vec<crate::tmf::DecodedSegment>) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn into_vx(self) -> (ret: Vec<crate::tmf::DecodedSegment>) { unimplemented!() }
}
// ---------------------------------------------------------------- memory which is not initialised
/// std::mem::MaybeUninit
#[derive(Clone, Copy)]
pub struct MaybeUninit<T> { pub v: Option<T> }
impl<T: Copy> MaybeUninit<T> {
    pub fn new(x: T) -> (ret: Self)
        ensures ret.v == Some(x),
    { MaybeUninit { v: Some(x) } }
    pub fn write(&mut self, x: T)
        ensures final(self).v == Some(x),
    { self.v = Some(x); }
}
/// how many elements fit into the memory of the vector
pub uninterp spec fn cap<T>(v: Vec<T>) -> nat;
/// Vec::reserve, Vec::spare_capacity_mut and Vec::set_len: the spare memory is a vector of its own until set_len moves it in
pub trait SpareVx<T: Copy>: Sized {
    spec fn els(&self) -> Seq<T>;
    spec fn room(&self) -> nat;
    fn reserve_vx(&mut self, n: usize)
        ensures final(self).els() == old(self).els(), final(self).room() >= old(self).els().len() + n;
    fn spare_vx(&self) -> (ret: Vec<MaybeUninit<T>>)
        requires self.els().len() == 0,
        ensures ret@.len() == self.room();
}
impl<T: Copy> SpareVx<T> for Vec<T> {
    open spec fn els(&self) -> Seq<T> { self@ }
    open spec fn room(&self) -> nat { cap(*self) }
    #[verifier::external_body]
    fn reserve_vx(&mut self, n: usize) { self.reserve(n) }
    #[verifier::external_body]
    fn spare_vx(&self) -> (ret: Vec<MaybeUninit<T>>) { unimplemented!() }
}
pub trait FillVx<T: Copy>: Sized {
    spec fn mem(&self) -> Seq<MaybeUninit<T>>;
    fn fill_vx(&mut self, x: MaybeUninit<T>)
        ensures final(self).mem() == Seq::new(old(self).mem().len(), |i: int| x);
    fn finish(&self, n: usize) -> (ret: Vec<T>)
        requires n <= self.mem().len(), forall|i: int| 0 <= i < n ==> (#[trigger] self.mem()[i]).v is Some,
        ensures ret@ == Seq::new(n as nat, |i: int| self.mem()[i].v->Some_0);
}
impl<T: Copy> FillVx<T> for Vec<MaybeUninit<T>> {
    open spec fn mem(&self) -> Seq<MaybeUninit<T>> { self@ }
    #[verifier::external_body]
    fn fill_vx(&mut self, x: MaybeUninit<T>) { unimplemented!() }
    #[verifier::external_body]
    fn finish(&self, n: usize) -> (ret: Vec<T>) { unimplemented!() }
}
/// Iterator::collect into a Result<Vec<_>, _>
#[verifier::external_body]
pub fn all_ok<T, E>(v: Vec<core::result::Result<T, E>>) -> (ret: core::result::Result<Vec<T>, E>)
    ensures
        ret matches Ok(r) ==> r@.len() == v@.len() && forall|i: int| 0 <= i < r@.len() ==> #[trigger] v@[i] == Ok::<T, E>(r@[i]),
        ret matches Err(e) ==> exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] == Err::<T, E>(e),
{ v.into_iter().collect() }
/// futures::future::join_all: what the futures return, in the order of the futures
pub fn join_all<T>(v: Vec<T>) -> (ret: Vec<T>)
    ensures ret == v,
{ v }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(core::str::Utf8Error);
pub assume_specification[ core::str::from_utf8 ](b: &[u8]) -> (r: core::result::Result<&str, core::str::Utf8Error>)
    ensures
        r matches Ok(s) ==> vstd::utf8::encode_utf8(s@) == b@,
        r is Ok <==> vstd::utf8::valid_utf8(b@);
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    ensures
        vstd::utf8::encode_utf8(a) == vstd::utf8::encode_utf8(b) ==> a == b,
        vstd::utf8::valid_utf8(vstd::utf8::encode_utf8(a)),
{
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
    vstd::utf8::encode_utf8_valid_utf8(a);
}
/// std::borrow::Borrow
pub trait BorrowVx<T: ?Sized> {
    spec fn borrowed(&self) -> &T;
    fn borrow(&self) -> (ret: &T)
        ensures ret == self.borrowed();
}
/// the same reference, seen as a reader
pub fn lend<'a, 'b>(x: &'a mut &'b [u8]) -> (ret: &'a mut &'b [u8])
    ensures crate::vio::Read::rest(&ret) == (*old(x))@, crate::vio::Read::reliable(&ret),
{ x }
/// panic!, todo! and unreachable!
#[verifier::external_body]
pub fn panics() -> !
    requires false,
{ unimplemented!() }
/// assert!
#[verifier::external_body]
pub fn check(c: bool)
    requires c,
{ unimplemented!() }
}
