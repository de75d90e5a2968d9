//@ source src/tmf.rs
pub mod tmf {
use vstd::prelude::*;
use crate::vf::*;
use crate::read_extension::*;
use crate::mesh::*;
use crate::custom_data::*;
use crate::vertices::*;
use crate::normals::*;
use crate::tangents::*;
use crate::uv::*;
use crate::tmf_exporter::{opt_tris, opt_vertices, EncodeInfo, cat, lemma_cat_push};
use crate::tmf_importer::{
    decode_custom_seg, decode_normal_seg, decode_triangle_seg, decode_uv_seg, decode_vertex_seg,
    TMFImportContext,
};
use crate::*;
//@ item enum SectionType Clone Copy
//@ item enum CompressionType Clone Copy
//@ item enum DecodedSegment
//@ item struct EncodedSegment
//@ item struct SharedSegmentKind Clone Copy
// #[derive(PartialEq)]
impl vstd::std_specs::cmp::PartialEqSpecImpl for SectionType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for SectionType {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (ret: bool) { unimplemented!() }
}
pub open spec fn is_custom(k: SectionType) -> bool {
    k == SectionType::CustomIndexSegment || k == SectionType::CustomIntigerSegment || k == SectionType::CustomFloatSegment || k == SectionType::CustomColorRGBASegment
}
pub open spec fn is_tri_kind(k: SectionType) -> bool {
    k == SectionType::VertexTriangleSegment || k == SectionType::NormalTriangleSegment || k == SectionType::UvTriangleSegment || k == SectionType::TangentTriangleSegment
}
/// the number by which the file format knows a kind of segment
pub open spec fn tag(k: SectionType) -> u8 {
    match k {
        SectionType::Invalid => 0,
        SectionType::VertexSegment => 1,
        SectionType::VertexTriangleSegment => 2,
        SectionType::NormalSegment => 3,
        SectionType::NormalTriangleSegment => 4,
        SectionType::UvSegment => 5,
        SectionType::UvTriangleSegment => 6,
        SectionType::TangentSegment => 9,
        SectionType::TangentTriangleSegment => 10,
        SectionType::CustomIndexSegment => 15,
        SectionType::CustomFloatSegment => 16,
        SectionType::CustomColorRGBASegment => 23,
        SectionType::CustomIntigerSegment => 24,
        SectionType::SharedTriangleSegment => 25,
    }
}
/// the kind of segment a number stands for; numbers which are not known stand for nothing
pub open spec fn kind_of(t: int) -> SectionType {
    if t == 1 { SectionType::VertexSegment } else if t == 2 { SectionType::VertexTriangleSegment } else if t == 3 { SectionType::NormalSegment }
    else if t == 4 { SectionType::NormalTriangleSegment } else if t == 5 { SectionType::UvSegment } else if t == 6 { SectionType::UvTriangleSegment }
    else if t == 9 { SectionType::TangentSegment } else if t == 10 { SectionType::TangentTriangleSegment } else if t == 15 { SectionType::CustomIndexSegment }
    else if t == 16 { SectionType::CustomFloatSegment } else if t == 23 { SectionType::CustomColorRGBASegment } else if t == 24 { SectionType::CustomIntigerSegment }
    else if t == 25 { SectionType::SharedTriangleSegment } else { SectionType::Invalid }
}
pub proof fn theorem_tag(k: SectionType)
    ensures kind_of(tag(k) as int) == k,
{ }
//@ fn SectionType::is_triangle
//@ spec
    ensures ret == (is_tri_kind(*self) || *self == SectionType::SharedTriangleSegment),
//@ end
//@ fn SectionType::from_u16
//@ spec
    ensures ret == kind_of(input as int),
//@ end
//@ fn SectionType::from_u8
//@ spec
    ensures ret == kind_of(input as int),
//@ end
pub open spec fn comp_tag(c: CompressionType) -> u8 {
    match c { CompressionType::None => 0, CompressionType::Ommited => 1, CompressionType::UnalignedLZZ => 2, CompressionType::Sequence => 255 }
}
//@ fn CompressionType::from_u8
//@ spec
    ensures
        ret matches Ok(c) ==> comp_tag(c) == input,
        ret is Ok <==> input == 0 || input == 1 || input == 2 || input == 255,
        ret matches Err(e) ==> e == TMFImportError::CompressionTypeUnknown(input),
//@ end

// ---------------------------------------------------------------- encoded segments
//@ fn EncodedSegment::data
//@ spec
    ensures ret@ == self.data@,
//@ end
//@ fn EncodedSegment::compresion_type
//@ spec
    ensures ret == self.compresion_type,
//@ end
//@ fn EncodedSegment::seg_type
//@ spec
    ensures ret == self.seg_type,
//@ end
/// a segment in a file
pub open spec fn seg_bytes(k: SectionType, c: CompressionType, d: Seq<u8>) -> Seq<u8> {
    seq![tag(k)] + le4(d.len() as u32) + seq![comp_tag(c)] + d
}
//@ fn EncodedSegment::write
//@ spec
    ensures
        put(old(w), final(w), ret is Ok, seg_bytes(self.seg_type, self.compresion_type, self.data@)),
        ret is Ok ==> self.data@.len() <= MAX_SEG_SIZE,
        old(w).infallible() && self.data@.len() <= MAX_SEG_SIZE ==> ret is Ok,
//@ ret-bind
        proof {
            if ret__ is Ok { assert(w.sunk() =~= (*old(w)).sunk() + seg_bytes(self.seg_type, self.compresion_type, self.data@)); }
        }
//@ end
/// what EncodedSegment::read accepts: w is the width of (type, length)
pub open spec fn seg_at(src: Seq<u8>, wide: bool, n: int, k: SectionType, c: CompressionType, d: Seq<u8>) -> bool {
    let h: int = if wide { 10 } else { 5 };
    &&& src.len() >= n && n == h + 1 + d.len() && d.len() <= MAX_SEG_SIZE
    &&& if wide { exists|t: u16| src.take(2) == #[trigger] le2(t) && k == kind_of(t as int) } else { k == kind_of(src[0] as int) }
    &&& if wide { src.subrange(2, 10) == le8(d.len() as u64) } else { src.subrange(1, 5) == le4(d.len() as u32) }
    &&& src[h] == comp_tag(c)
    &&& d == src.subrange(h + 1, n)
}
pub open spec fn is_wide(ctx: &TMFImportContext) -> bool { !ctx.should_read_min_index }
pub open spec fn can_seg(src: Seq<u8>, wide: bool) -> bool {
    exists|n: int, k: SectionType, c: CompressionType, d: Seq<u8>| #[trigger] seg_at(src, wide, n, k, c, d)
}
//@ fn EncodedSegment::read
//@ spec
    requires ctx.wf(),
    ensures
        same(old(src), final(src)),
        ret matches Ok(s) ==> (*final(src)).failed() == (*old(src)).failed() && exists|n: int| #[trigger] seg_at(old(src).rest(), is_wide(ctx), n, s.seg_type, s.compresion_type, s.data@) && (*final(src)).rest() == (*old(src)).rest().skip(n),
        old(src).reliable() && can_seg(old(src).rest(), is_wide(ctx)) ==> ret is Ok,
//@ begin
        let ghost src0 = src.rest();
        let ghost wide = is_wide(ctx);
        let ghost h: int = if wide { 10 } else { 5 };
        let ghost ok = src.reliable() && can_seg(src0, wide);
        let ghost (n0, k0, c0, d0) = choose|n: int, k: SectionType, c: CompressionType, d: Seq<u8>| #[trigger] seg_at(src0, wide, n, k, c, d);
//@ after-let seg_type
        proof { 
            assert(src.rest() =~= src0.skip(if wide { 2 } else { 1 })); 
            if !wide { assert(src0.take(1)[0] == src0[0]); }
        }
//@ after-let data_length
        proof {
            assert(src.rest() =~= src0.skip(h));
            if wide { assert(src0.subrange(2, 10) =~= le8(data_length as u64)); } else { assert(src0.subrange(1, 5) =~= le4(data_length as u32)); }
            if ok { 
                assert(seg_at(src0, wide, n0, k0, c0, d0)); 
                if wide { lemma_le8_inj(data_length as u64, d0.len() as u64); } else { lemma_le4_inj(data_length as u32, d0.len() as u32); }
            }
        }
//@ before `let compresion_type`
        proof {
            assert(ok ==> src0.skip(h).len() >= 1);
            assert forall|x: u8| #[trigger] Seq::<u8>::empty().push(x) == src.rest().take(1) && src.rest().len() >= 1 implies x == src0[h] by {
                assert(Seq::<u8>::empty().push(x)[0] == x);
                assert(src.rest().take(1)[0] == src0[h]);
            }
        }
//@ after-let compresion_type
        proof {
            assert(src0.skip(h).take(1)[0] == src0[h]);
            assert(src.rest() =~= src0.skip(h + 1));
        }
//@ ret-bind
        proof {
            let n = h + 1 + data_length;
            assert(src.rest() =~= src0.skip(n));
            assert(data@ =~= src0.subrange(h + 1, n));
            assert(ret__->Ok_0.data@ == data@);
            assert(comp_tag(compresion_type) == src0[h]);
            if wide { assert(exists|t: u16| src0.take(2) == #[trigger] le2(t) && seg_type == kind_of(t as int)); } else { assert(seg_type == kind_of(src0[0] as int)); }
            assert(data_length == data@.len());
            if wide { assert(src0.subrange(2, 10) == le8(data@.len() as u64)); } else { assert(src0.subrange(1, 5) == le4(data@.len() as u32)); }
            assert(seg_at(src0, wide, n, seg_type, compresion_type, data@));
        }
//@ end

// ---------------------------------------------------------------- what segments contribute to a mesh
/// a, then b
pub open spec fn ocat<T>(a: Option<Seq<T>>, b: Option<Seq<T>>) -> Option<Seq<T>> {
    match (a, b) { (None, _) => b, (_, None) => a, (Some(x), Some(y)) => Some(x + y) }
}
/// what a mesh becomes when it gets the parts of b after its own
pub open spec fn join(a: MeshV, b: MeshV) -> MeshV {
    MeshV {
        v: ocat(a.v, b.v), n: ocat(a.n, b.n), u: ocat(a.u, b.u), t: ocat(a.t, b.t),
        vt: ocat(a.vt, b.vt), nt: ocat(a.nt, b.nt), ut: ocat(a.ut, b.ut), tt: ocat(a.tt, b.tt),
        c: a.c + b.c,
    }
}
pub open spec fn onif<T>(c: bool, s: Seq<T>) -> Option<Seq<T>> { if c { Some(s) } else { None } }
impl SharedSegmentKind {
    pub open spec fn v(&self) -> bool { self.mask & 1 != 0 }
    pub open spec fn n(&self) -> bool { self.mask & 2 != 0 }
    pub open spec fn u(&self) -> bool { self.mask & 4 != 0 }
}
/// what a segment adds to a mesh
pub open spec fn part(s: DecodedSegment) -> MeshV {
    match s {
        DecodedSegment::Nothing => empty_mesh(),
        DecodedSegment::AppendVertex(x) => MeshV { v: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendNormal(x) => MeshV { n: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendUV(x) => MeshV { u: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendTangent(x) => MeshV { t: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendTriangleVertex(x) => MeshV { vt: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendTriangleNormal(x) => MeshV { nt: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendTriangleUV(x) => MeshV { ut: Some(x@), ..empty_mesh() },
        DecodedSegment::AppendTriangleTangent(x) => MeshV { tt: Some(x@), ..empty_mesh() },
        DecodedSegment::SharedTriangleSegment(k, x) => MeshV { vt: onif(k.v(), x@), nt: onif(k.n(), x@), ut: onif(k.u(), x@), ..empty_mesh() },
        DecodedSegment::AppendCustom(c) => MeshV { c: seq![c], ..empty_mesh() },
    }
}
/// what segments add to a mesh, in their order
pub open spec fn parts(s: Seq<DecodedSegment>) -> MeshV
    decreases s.len(),
{
    if s.len() == 0 { empty_mesh() } else { join(parts(s.drop_last()), part(s.last())) }
}
pub proof fn lemma_parts_empty()
    ensures
        forall|s: Seq<DecodedSegment>| s.len() == 0 ==> #[trigger] parts(s) == empty_mesh(),
        forall|m: MeshV| #[trigger] join(empty_mesh(), m) == m,
        forall|m: MeshV| #[trigger] join(m, empty_mesh()) == m,
{
    assert forall|m: MeshV| #[trigger] join(empty_mesh(), m) == m by { lemma_join(m, m, m); }
    assert forall|m: MeshV| #[trigger] join(m, empty_mesh()) == m by { lemma_join(m, m, m); }
}
pub proof fn lemma_join(a: MeshV, b: MeshV, c: MeshV)
    ensures
        join(join(a, b), c) == join(a, join(b, c)),
        join(empty_mesh(), a) == a, join(a, empty_mesh()) == a,
{
    let l = join(join(a, b), c);
    let r = join(a, join(b, c));
    lemma_ocat(a.v, b.v, c.v); lemma_ocat(a.n, b.n, c.n); lemma_ocat(a.u, b.u, c.u); lemma_ocat(a.t, b.t, c.t);
    lemma_ocat(a.vt, b.vt, c.vt); lemma_ocat(a.nt, b.nt, c.nt); lemma_ocat(a.ut, b.ut, c.ut); lemma_ocat(a.tt, b.tt, c.tt);
    assert(l.c =~= r.c);
    assert(Seq::empty() + a.c =~= a.c);
    assert(a.c + Seq::empty() =~= a.c);
}
pub proof fn lemma_ocat<T>(a: Option<Seq<T>>, b: Option<Seq<T>>, c: Option<Seq<T>>)
    ensures ocat(ocat(a, b), c) == ocat(a, ocat(b, c)),
{
    if a is Some && b is Some && c is Some {
        assert(a->Some_0 + b->Some_0 + c->Some_0 =~= a->Some_0 + (b->Some_0 + c->Some_0));
    }
}
pub proof fn lemma_parts_push(s: Seq<DecodedSegment>, x: DecodedSegment)
    ensures parts(s.push(x)) == join(parts(s), part(x)),
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_parts_cat(s: Seq<DecodedSegment>, t: Seq<DecodedSegment>)
    ensures parts(s + t) == join(parts(s), parts(t)),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
        lemma_join(parts(s), empty_mesh(), empty_mesh());
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        lemma_parts_cat(s, t.drop_last());
        lemma_join(parts(s), parts(t.drop_last()), part(t.last()));
    }
}
//@ fn SharedSegmentKind::set_vertex
//@ spec
    ensures final(self).v(), final(self).n() == old(self).n(), final(self).u() == old(self).u(),
//@ begin
        proof {
            let m = self.mask;
            assert((m | 1u8) & 1 != 0 && (m | 1u8) & 2 == m & 2 && (m | 1u8) & 4 == m & 4) by (bit_vector);
        }
//@ end
//@ fn SharedSegmentKind::get_vertex
//@ spec
    ensures ret == self.v(),
//@ end
//@ fn SharedSegmentKind::set_normal
//@ spec
    ensures final(self).n(), final(self).v() == old(self).v(), final(self).u() == old(self).u(),
//@ begin
        proof {
            let m = self.mask;
            assert((m | 2u8) & 2 != 0 && (m | 2u8) & 1 == m & 1 && (m | 2u8) & 4 == m & 4) by (bit_vector);
        }
//@ end
//@ fn SharedSegmentKind::get_normal
//@ spec
    ensures ret == self.n(),
//@ end
//@ fn SharedSegmentKind::set_uv
//@ spec
    ensures final(self).u(), final(self).v() == old(self).v(), final(self).n() == old(self).n(),
//@ begin
        proof {
            let m = self.mask;
            assert((m | 4u8) & 4 != 0 && (m | 4u8) & 1 == m & 1 && (m | 4u8) & 2 == m & 2) by (bit_vector);
        }
//@ end
//@ fn SharedSegmentKind::get_uv
//@ spec
    ensures ret == self.u(),
//@ end
//@ fn SharedSegmentKind::combine
//@ spec
    ensures ret.v() == (self.v() || other.v()), ret.n() == (self.n() || other.n()), ret.u() == (self.u() || other.u()),
//@ begin
        proof {
            let a = self.mask;
            let b = other.mask;
            assert((a | b) & 1 == 0 <==> (a & 1 == 0 && b & 1 == 0)) by (bit_vector);
            assert((a | b) & 2 == 0 <==> (a & 2 == 0 && b & 2 == 0)) by (bit_vector);
            assert((a | b) & 4 == 0 <==> (a & 4 == 0 && b & 4 == 0)) by (bit_vector);
        }
//@ end
//@ fn SharedSegmentKind::mask
//@ spec
    ensures ret == self.mask,
//@ end
//@ fn SharedSegmentKind::from_mask
//@ spec
    ensures ret.mask == mask,
//@ end
impl Default for SharedSegmentKind {
    // #[derive(Default)]
    fn default() -> (ret: Self)
        ensures ret.mask == 0, !ret.v(), !ret.n(), !ret.u(),
    {
        proof { assert(0u8 & 1 == 0 && 0u8 & 2 == 0 && 0u8 & 4 == 0) by (bit_vector); }
        SharedSegmentKind { mask: 0 }
    }
}
/// the indices of a segment that can become part of another one
pub open spec fn movable(s: DecodedSegment) -> Option<Seq<IndexType>> {
    match s {
        DecodedSegment::AppendTriangleVertex(x) => Some(x@),
        DecodedSegment::AppendTriangleNormal(x) => Some(x@),
        _ => None,
    }
}
//@ fn DecodedSegment::as_triangles
//@ spec
    ensures ob(ret) == movable(*self),
//@ end
//@ fn DecodedSegment::shared_kind
//@ spec
    requires movable(*self) is Some,
    ensures
        ret.v() == (*self is AppendTriangleVertex), ret.n() == (*self is AppendTriangleNormal), !ret.u(),
//@ end
/// two segments which do not belong to the same array of vertex or normal indices
pub open spec fn apart(a: DecodedSegment, b: DecodedSegment) -> bool {
    !(part(a).vt is Some && part(b).vt is Some) && !(part(a).nt is Some && part(b).nt is Some)
}
//@ fn DecodedSegment::merge
//@ spec
    requires apart(*old(self), *old(other)),
    ensures
        (*final(self) == *old(self) && *final(other) == *old(other))
        || (movable(*old(other)) is Some && *final(other) == DecodedSegment::Nothing && part(*final(self)) == join(part(*old(self)), part(*old(other)))
            && part(*final(self)) == join(part(*old(other)), part(*old(self))) && *final(self) is SharedTriangleSegment && !stray(*final(self))),
//@ subst `&indices[..] != other.as_triangles().unwrap()` => `!slice_eq(&indices[..], other.as_triangles().unwrap())`
//@ subst `.clone` => `.clone_vx`
//@ begin
        proof {
            assert(Seq::<CustomDataSegment>::empty() + Seq::<CustomDataSegment>::empty() =~= Seq::<CustomDataSegment>::empty());
        }
//@ ret-bind
        proof {
            if *self != *old(self) {
                let p = part(*self);
                let q = join(part(*old(self)), part(*old(other)));
                assert(*other == DecodedSegment::Nothing);
                assert(movable(*old(other)) is Some);
                assert(*self is SharedTriangleSegment);
                assert(p.vt == q.vt);
                assert(p.nt == q.nt);
                assert(p.ut == q.ut);
                assert(p.c == q.c);
                assert(p == q);
            }
        }
//@ end
//@ fn DecodedSegment::is_something
//@ spec
    ensures ret == !(*self is Nothing),
//@ end
//@ fn DecodedSegment::apply
//@ spec
    ensures
        final(mesh)@ == join(old(mesh)@, part(*self)),
        old(mesh).wf() && cust_wf(*self) ==> final(mesh).wf(),
//@ subst `.clone` => `.clone_vx`
//@ ret-bind
        proof {
            assert(old(mesh)@.c + Seq::<CustomDataSegment>::empty() =~= old(mesh)@.c);
            if self is AppendCustom { let c = self->AppendCustom_0; assert(old(mesh)@.c.push(c) =~= old(mesh)@.c + seq![c]); }
        }
//@ end
pub open spec fn cust_wf(s: DecodedSegment) -> bool {
    match s { DecodedSegment::AppendCustom(c) => c.wf(), _ => true }
}
/// the segment has indices, but they belong to no array
pub open spec fn stray(s: DecodedSegment) -> bool { s matches DecodedSegment::SharedTriangleSegment(k, _) && !k.v() && !k.n() && !k.u() }
pub open spec fn seg_wf(s: DecodedSegment) -> bool { cust_wf(s) && !stray(s) }
// ---------------------------------------------------------------- optimising
/// mk turns elements into what they add to a mesh
pub open spec fn homo<T>(mk: spec_fn(Seq<T>) -> MeshV) -> bool {
    forall|a: Seq<T>, b: Seq<T>| join(mk(a), mk(b)) == #[trigger] mk(a + b)
}
/// what pieces add to a mesh
pub open spec fn img<T>(mk: spec_fn(Seq<T>) -> MeshV, l: Seq<&[T]>) -> MeshV { if l.len() == 0 { empty_mesh() } else { mk(cat(l)) } }
pub proof fn lemma_img_push<T>(mk: spec_fn(Seq<T>) -> MeshV, res: Seq<DecodedSegment>, x: DecodedSegment, l: Seq<&[T]>, i: int)
    requires homo(mk), 0 <= i < l.len(), parts(res) == img(mk, l.take(i)), part(x) == mk(l[i]@),
    ensures parts(res.push(x)) == img(mk, l.take(i + 1)),
{
    let p = l.take(i);
    assert(l.take(i + 1) =~= p.push(l[i]));
    lemma_parts_push(res, x);
    lemma_cat_push(p, l[i]);
    lemma_join(part(x), empty_mesh(), empty_mesh());
    if i == 0 {
        assert(cat(p) =~= Seq::<T>::empty());
        assert(cat(p) + l[i]@ =~= l[i]@);
    } else {
        assert(join(mk(cat(p)), mk(l[i]@)) == mk(cat(p) + l[i]@));
    }
}
pub proof fn lemma_img_all<T>(mk: spec_fn(Seq<T>) -> MeshV, l: Seq<&[T]>)
    requires l.len() >= 1,
    ensures img(mk, l.take(l.len() as int)) == mk(cat(l)), img(mk, l.take(0)) == empty_mesh(),
{
    assert(l.take(l.len() as int) =~= l);
}
pub proof fn lemma_parts_one(x: DecodedSegment)
    ensures parts(seq![x]) == part(x), parts(Seq::empty()) == empty_mesh(),
{
    lemma_parts_push(Seq::empty(), x);
    assert(Seq::empty().push(x) =~= seq![x]);
    lemma_join(part(x), empty_mesh(), empty_mesh());
}
//@ fn DecodedSegment::optimize
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        parts(ret@) == part(self),
        seg_wf(self) ==> forall|i: int| 0 <= i < ret@.len() ==> seg_wf(#[trigger] ret@[i]),
//@ begin
        let ghost seg0 = self;
        proof { assert(Seq::<CustomDataSegment>::empty() + Seq::<CustomDataSegment>::empty() =~= Seq::<CustomDataSegment>::empty()); lemma_parts_one(self); }
//@ before-loop 1
                let ghost mk = |x: Seq<u32>| MeshV { vt: Some(x), ..empty_mesh() };
                proof { assert(homo(mk)); lemma_img_all(mk, optimised@); }
//@ loop 1
                    invariant
                        res@.len() == it1.index@,
                        forall|i: int| 0 <= i < res@.len() ==> seg_wf(#[trigger] res@[i]),
                        parts(res@) == img(mk, optimised@.take(it1.index@)),
//@ loop-begin 1
                    let ghost res0 = res@;
//@ loop-end 1
                    proof {
                        assert(part(res@.last()) == mk(seg@));
                        assert(res@ =~= res0.push(res@.last()));
                        lemma_img_push(mk, res0, res@.last(), optimised@, it1.index@);
                    }
//@ before-loop 2
                let ghost mk = |x: Seq<u32>| MeshV { ut: Some(x), ..empty_mesh() };
                proof { assert(homo(mk)); lemma_img_all(mk, optimised@); }
//@ loop 2
                    invariant
                        res@.len() == it2.index@,
                        forall|i: int| 0 <= i < res@.len() ==> seg_wf(#[trigger] res@[i]),
                        parts(res@) == img(mk, optimised@.take(it2.index@)),
//@ loop-begin 2
                    let ghost res0 = res@;
//@ loop-end 2
                    proof {
                        assert(part(res@.last()) == mk(seg@));
                        assert(res@ =~= res0.push(res@.last()));
                        lemma_img_push(mk, res0, res@.last(), optimised@, it2.index@);
                    }
//@ before-loop 3
                let ghost mk = |x: Seq<u32>| MeshV { nt: Some(x), ..empty_mesh() };
                proof { assert(homo(mk)); lemma_img_all(mk, optimised@); }
//@ loop 3
                    invariant
                        res@.len() == it3.index@,
                        forall|i: int| 0 <= i < res@.len() ==> seg_wf(#[trigger] res@[i]),
                        parts(res@) == img(mk, optimised@.take(it3.index@)),
//@ loop-begin 3
                    let ghost res0 = res@;
//@ loop-end 3
                    proof {
                        assert(part(res@.last()) == mk(seg@));
                        assert(res@ =~= res0.push(res@.last()));
                        lemma_img_push(mk, res0, res@.last(), optimised@, it3.index@);
                    }
//@ before-loop 4
                let ghost mk = |x: Seq<u32>| MeshV { tt: Some(x), ..empty_mesh() };
                proof { assert(homo(mk)); lemma_img_all(mk, optimised@); }
//@ loop 4
                    invariant
                        res@.len() == it4.index@,
                        forall|i: int| 0 <= i < res@.len() ==> seg_wf(#[trigger] res@[i]),
                        parts(res@) == img(mk, optimised@.take(it4.index@)),
//@ loop-begin 4
                    let ghost res0 = res@;
//@ loop-end 4
                    proof {
                        assert(part(res@.last()) == mk(seg@));
                        assert(res@ =~= res0.push(res@.last()));
                        lemma_img_push(mk, res0, res@.last(), optimised@, it4.index@);
                    }
//@ before-loop 5
                let ghost mk = |x: Seq<Vector3>| MeshV { v: Some(x), ..empty_mesh() };
                proof { assert(homo(mk)); lemma_img_all(mk, optimised@); }
//@ loop 5
                    invariant
                        res@.len() == it5.index@,
                        forall|i: int| 0 <= i < res@.len() ==> seg_wf(#[trigger] res@[i]),
                        parts(res@) == img(mk, optimised@.take(it5.index@)),
//@ loop-begin 5
                    let ghost res0 = res@;
//@ loop-end 5
                    proof {
                        assert(part(res@.last()) == mk(seg@));
                        assert(res@ =~= res0.push(res@.last()));
                        lemma_img_push(mk, res0, res@.last(), optimised@, it5.index@);
                    }
//@ before-loop 6
                let ghost mk = |x: Seq<u32>| MeshV { vt: onif(kind.v(), x), nt: onif(kind.n(), x), ut: onif(kind.u(), x), ..empty_mesh() };
                proof { assert(homo(mk)); lemma_img_all(mk, optimised@); }
//@ loop 6
                    invariant
                        res@.len() == it6.index@,
                        seg_wf(seg0) ==> forall|i: int| 0 <= i < res@.len() ==> seg_wf(#[trigger] res@[i]),
                        parts(res@) == img(mk, optimised@.take(it6.index@)),
//@ loop-begin 6
                    let ghost res0 = res@;
//@ loop-end 6
                    proof {
                        assert(part(res@.last()) == mk(seg@));
                        assert(res@ =~= res0.push(res@.last()));
                        lemma_img_push(mk, res0, res@.last(), optimised@, it6.index@);
                    }
//@ ret-bind
        proof {
            if ret__@.len() == 1 { assert(ret__@ =~= seq![ret__@[0]]); lemma_parts_one(ret__@[0]); }
        }
//@ end
// ---------------------------------------------------------------- encoding
pub open spec fn seg_kind(s: DecodedSegment) -> SectionType {
    match s {
        DecodedSegment::Nothing => SectionType::Invalid,
        DecodedSegment::AppendVertex(_) => SectionType::VertexSegment,
        DecodedSegment::AppendNormal(_) => SectionType::NormalSegment,
        DecodedSegment::AppendUV(_) => SectionType::UvSegment,
        DecodedSegment::AppendTangent(_) => SectionType::TangentSegment,
        DecodedSegment::AppendTriangleVertex(_) => SectionType::VertexTriangleSegment,
        DecodedSegment::AppendTriangleNormal(_) => SectionType::NormalTriangleSegment,
        DecodedSegment::AppendTriangleUV(_) => SectionType::UvTriangleSegment,
        DecodedSegment::AppendTriangleTangent(_) => SectionType::TangentTriangleSegment,
        DecodedSegment::SharedTriangleSegment(_, _) => SectionType::SharedTriangleSegment,
        DecodedSegment::AppendCustom(c) => cd_kind(c.data),
    }
}
/// e is the encoding of the segment s
pub open spec fn is_seg(e: Seq<u8>, s: DecodedSegment, prec: TMFPrecisionInfo, edge: f32) -> bool {
    match s {
        DecodedSegment::Nothing => e.len() == 0,
        DecodedSegment::AppendVertex(x) => is_vx(e, x@, edge, prec.vertex_precision.0),
        DecodedSegment::AppendNormal(x) => is_norm(e, x@, prec.normal_precision.0),
        DecodedSegment::AppendUV(x) => is_uv(e, x@, c63(prec.uv_prec.0)),
        DecodedSegment::AppendTangent(x) => is_tan(e, x@, prec.tangent_prec.0.0),
        DecodedSegment::AppendTriangleVertex(x) => is_tri(e, x@),
        DecodedSegment::AppendTriangleNormal(x) => is_tri(e, x@),
        DecodedSegment::AppendTriangleUV(x) => is_tri(e, x@),
        DecodedSegment::AppendTriangleTangent(x) => is_tri(e, x@),
        DecodedSegment::SharedTriangleSegment(k, x) => e.len() >= 1 && e[0] == k.mask && is_tri(e.skip(1), x@),
        DecodedSegment::AppendCustom(c) => is_cds(e, c),
    }
}
/// what the constructors of the precision settings guarantee
pub open spec fn prec_wf(prec: TMFPrecisionInfo) -> bool { prec.normal_precision.0 <= 63 && prec.tangent_prec.0.0 <= 63 }
//@ fn DecodedSegment::encode
//@ spec
    requires prec_wf(*prec), seg_wf(self),
    ensures
        ret matches Ok(r) && r.seg_type == seg_kind(self) && r.compresion_type is None && is_seg(r.data@, self, *prec, ei.shortest_edge),
//@ after-let data
        proof {
            assert(data@ =~= Seq::<u8>::empty());
            assert(data.sunk() == Seq::<u8>::empty());
            assert forall|e: Seq<u8>| #[trigger] (Seq::<u8>::empty() + e) == e by { assert(Seq::<u8>::empty() + e =~= e); }
            assert forall|a: u8, e: Seq<u8>| (#[trigger] (seq![a] + e)).skip(1) == e && (seq![a] + e)[0] == a && (seq![a] + e).len() >= 1 by { assert((seq![a] + e).skip(1) =~= e); }
        }
//@ after-let max_index #5
                proof { assert(data@ =~= Seq::<u8>::empty()); }
//@ after `data.push(kind.mask());`
                proof { assert(data@ =~= seq![kind.mask]); assert(data.sunk() == seq![kind.mask]); }
//@ after-let seg_type
        proof {
            assert(is_seg(data@, self, *prec, ei.shortest_edge));
        }
//@ end
/// d is what the bytes of a segment of kind k say
pub open spec fn seg_decoded(src: Seq<u8>, k: SectionType, c: CompressionType, hasmin: bool, d: DecodedSegment) -> bool {
    &&& seg_kind(d) == k && cust_wf(d)
    &&& match d {
        DecodedSegment::Nothing => true,
        DecodedSegment::AppendVertex(x) => x@.len() <= MAX_SEG_SIZE && is_vx_decoded(src, x@),
        DecodedSegment::AppendNormal(x) => x@.len() <= MAX_SEG_SIZE && is_norm_decoded(src, x@),
        DecodedSegment::AppendUV(x) => x@.len() <= MAX_SEG_SIZE && is_uv_decoded(src, x@),
        DecodedSegment::AppendTangent(x) => x@.len() <= MAX_SEG_SIZE && is_tan_decoded(src, x@),
        DecodedSegment::AppendTriangleVertex(x) => c is None && is_tri_decoded(src, hasmin, x@),
        DecodedSegment::AppendTriangleNormal(x) => c is None && is_tri_decoded(src, hasmin, x@),
        DecodedSegment::AppendTriangleUV(x) => c is None && is_tri_decoded(src, hasmin, x@),
        DecodedSegment::AppendTriangleTangent(x) => c is None && is_tri_decoded(src, hasmin, x@),
        DecodedSegment::SharedTriangleSegment(k, x) => c is None && src.len() >= 1 && k.mask == src[0] && is_tri_decoded(src.skip(1), hasmin, x@),
        DecodedSegment::AppendCustom(x) => cds_decoded(src, k, hasmin, x),
    }
}
pub open spec fn is_tri_decoded(src: Seq<u8>, hasmin: bool, r: Seq<u32>) -> bool {
    exists|v: Seq<u64>| #[trigger] tri_decoded(src, hasmin, r, v)
}
/// a segment that has to be accepted
pub open spec fn seg_rok(src: Seq<u8>, k: SectionType, c: CompressionType, hasmin: bool, len: u64) -> bool {
    match k {
        SectionType::Invalid => true,
        SectionType::VertexSegment => vx_rok(src, len),
        SectionType::NormalSegment => norm_ok(src, len),
        SectionType::UvSegment => uv_ok(src, len),
        SectionType::TangentSegment => tan_ok(src, len),
        SectionType::SharedTriangleSegment => c is None && src.len() >= 1 && tri_ok(src.skip(1), hasmin, len),
        SectionType::CustomIndexSegment | SectionType::CustomFloatSegment | SectionType::CustomColorRGBASegment | SectionType::CustomIntigerSegment => cds_rok(src, k, hasmin, len),
        _ => c is None && tri_ok(src, hasmin, len),
    }
}
//@ fn DecodedSegment::decode
//@ spec
    requires ctx.wf(),
    ensures
        ret matches Ok(d) ==> seg_decoded(seg.data@, seg.seg_type, seg.compresion_type, ctx.should_read_min_index, d),
        (exists|len: u64| #[trigger] seg_rok(seg.data@, seg.seg_type, seg.compresion_type, ctx.should_read_min_index, len)) ==> ret is Ok,
//@ begin
        let ghost seg0 = seg;
        let ghost ok = exists|len: u64| #[trigger] seg_rok(seg.data@, seg.seg_type, seg.compresion_type, ctx.should_read_min_index, len);
        let ghost len0 = choose|len: u64| #[trigger] seg_rok(seg.data@, seg.seg_type, seg.compresion_type, ctx.should_read_min_index, len);
        proof {
            if ok {
                assert(seg_rok(seg.data@, seg.seg_type, seg.compresion_type, ctx.should_read_min_index, len0));
                match seg.seg_type {
                    SectionType::VertexSegment => { assert(vx_rok(seg.data@, len0)); }
                    SectionType::NormalSegment => { assert(norm_ok(seg.data@, len0)); }
                    SectionType::UvSegment => { assert(uv_ok(seg.data@, len0)); }
                    SectionType::TangentSegment => { assert(tan_ok(seg.data@, len0)); }
                    _ => { }
                }
            }
        }
//@ before `let tans =`
                    let mut all = &seg.data[..];
                    proof {
                        assert(all@ =~= seg.data@);
                        assert(all.rest() == seg0.data@); assert(all.reliable());
                    }
//@ subst `&mut &seg.data[..]` => `&mut all`
//@ after-let data
                proof {
                    assert(data@ =~= seg0.data@.skip(1));
                    assert(data.rest() == seg0.data@.skip(1)); assert(data.reliable());
                    if ok { assert(tri_ok(data.rest(), ctx.should_read_min_index, len0)); }
                }
//@ end
}
