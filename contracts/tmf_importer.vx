//@ source src/tmf_importer.rs
pub mod tmf_importer {
use vstd::prelude::*;
use crate::read_extension::*;
use crate::vio::Read;
use crate::vf::*;
use crate::vbits::*;
use crate::vertices::*;
use crate::unaligned_rw::*;
use crate::mesh::*;
use crate::tmf::*;
use crate::*;
//@ item enum SegLenWidth Clone Copy
//@ item enum SegTypeWidth Clone Copy
//@ item struct TMFImportContext
//@ item struct TMFHeader
//@ fn SegLenWidth::from_header
//@ spec
    ensures ret == (if header.min_minor > 1 { SegLenWidth::U32 } else { SegLenWidth::U64 }),
//@ end
//@ fn SegTypeWidth::from_header
//@ spec
    ensures ret == (if header.min_minor > 1 { SegTypeWidth::U8 } else { SegTypeWidth::U16 }),
//@ end
//@ fn TMFImportContext::read_traingle_min
//@ spec
    ensures
        same(old(src), final(src)),
        ret matches Ok(m) ==> {
            if self.should_read_min_index { took(old(src), final(src), le8(m)) } else { m == 0 && (*final(src)).rest() == (*old(src)).rest() }
        },
        old(src).reliable() && (self.should_read_min_index ==> old(src).rest().len() >= 8) ==> ret is Ok,
//@ end
impl TMFImportContext {
    /// all the fields belong to the same version of the format
    pub open spec fn wf(&self) -> bool {
        if self.should_read_min_index {
            self.segment_length_width == SegLenWidth::U32 && self.segment_type_width == SegTypeWidth::U8
        } else {
            self.segment_length_width == SegLenWidth::U64 && self.segment_type_width == SegTypeWidth::U16
        }
    }
}
//@ fn SegLenWidth::read
//@ spec
    ensures
        same(old(src), final(src)),
        ret matches Ok(x) ==> took(old(src), final(src), if self is U32 { le4(x as u32) } else { le8(x as u64) }) && (self is U32 ==> x <= u32::MAX),
        old(src).reliable() && old(src).rest().len() >= (if self is U32 { 4int } else { 8 }) ==> ret is Ok,
//@ end
//@ fn SegTypeWidth::read
//@ spec
    ensures
        same(old(src), final(src)),
        ret matches Ok(x) ==> if self is U8 { exists|t: u8| #[trigger] took(old(src), final(src), seq![t]) && x == kind_of(t as int) } else { exists|t: u16| #[trigger] took(old(src), final(src), le2(t)) && x == kind_of(t as int) },
        old(src).reliable() && old(src).rest().len() >= (if self is U8 { 1int } else { 2 }) ==> ret is Ok,
//@ end
//@ fn TMFImportContext::segment_type_width
//@ spec
    ensures *ret == self.segment_type_width,
//@ end
//@ fn TMFImportContext::segment_length_width
//@ spec
    ensures *ret == self.segment_length_width,
//@ end
//@ fn TMFImportContext::init_header
//@ spec
    ensures ret.wf(), ret.should_read_min_index == (hdr.min_minor > 1),
//@ end
//@ fn decode_vertex_seg
//@ spec
    requires seg.seg_type is VertexSegment,
    ensures
        ret matches Ok(d) ==> (d matches DecodedSegment::AppendVertex(x) && x@.len() <= MAX_SEG_SIZE && is_vx_decoded(seg.data@, x@)),
        (exists|len: u64| #[trigger] vx_rok(seg.data@, len)) ==> ret is Ok,
//@ after-let data
        proof { assert(data.rest() == seg.data@); assert(data.reliable()); }
//@ end
//@ fn decode_uv_seg
//@ spec
    requires seg.seg_type is UvSegment,
    ensures
        ret matches Ok(d) ==> (d matches DecodedSegment::AppendUV(x) && x@.len() <= MAX_SEG_SIZE && crate::uv::is_uv_decoded(seg.data@, x@)),
        (exists|len: u64| #[trigger] crate::uv::uv_ok(seg.data@, len)) ==> ret is Ok,
//@ after-let data
        proof { assert(data.rest() == seg.data@); assert(data.reliable()); }
//@ end
//@ fn decode_normal_seg
//@ spec
    requires seg.seg_type is NormalSegment,
    ensures
        ret matches Ok(d) ==> (d matches DecodedSegment::AppendNormal(x) && x@.len() <= MAX_SEG_SIZE && crate::normals::is_norm_decoded(seg.data@, x@)),
        (exists|len: u64| #[trigger] crate::normals::norm_ok(seg.data@, len)) ==> ret is Ok,
//@ after-let data
        proof { assert(data.rest() == seg.data@); assert(data.reliable()); }
//@ end
//@ fn decode_custom_seg
//@ spec
    requires is_custom(seg.seg_type),
    ensures
        ret matches Ok(d) ==> (d matches DecodedSegment::AppendCustom(x) && x.wf() && crate::custom_data::cds_decoded(seg.data@, seg.seg_type, ctx.should_read_min_index, x)),
        (exists|len: u64| #[trigger] crate::custom_data::cds_rok(seg.data@, seg.seg_type, ctx.should_read_min_index, len)) ==> ret is Ok,
//@ subst `&mut data` => `crate::vf::lend(&mut data)`
//@ after-let data
        proof { assert(data.rest() == seg.data@); assert(data.reliable()); }
//@ end
//@ fn read_default_triangles
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(data)@.len() == 0,
    ensures
        ret is Ok ==> final(data)@.len() <= MAX_SEG_SIZE && is_tri_decoded(src.rest(), ctx.should_read_min_index, final(data)@),
        src.reliable() && (exists|len: u64| #[trigger] tri_ok(src.rest(), ctx.should_read_min_index, len)) ==> ret is Ok,
//@ subst `data.reserve` => `data.reserve_vx`
//@ subst `let buf` => `let mut buf`
//@ subst `data.spare_capacity_mut` => `data.spare_vx`
//@ subst `buf.fill` => `buf.fill_vx`
//@ subst `data.set_len` => `*data = buf.finish`
//@ begin
    let ghost src0 = src.rest();
    let ghost has = ctx.should_read_min_index;
    let ghost h: int = if has { 17 } else { 9 };
    let ghost ok = src.reliable() && exists|len: u64| #[trigger] tri_ok(src0, has, len);
//@ after-let precision_bits
    proof { assert(src0.take(1)[0] == precision_bits); assert(src.rest() =~= src0.skip(1)); }
//@ after-let length
    proof {
        assert(src0.subrange(1, 9) =~= le8(length));
        assert(src.rest() =~= src0.skip(9));
        if ok {
            let len = choose|len: u64| #[trigger] tri_ok(src0, has, len);
            lemma_le8_inj(len, length);
        }
    }
//@ after-let min
    proof {
        assert(src.rest() =~= src0.skip(h));
        if has { assert(src0.subrange(9, 17) =~= le8(min)); }
    }
//@ after-let reader
    let ghost n = precision_bits as nat;
    let ghost bits = byte_bits(src0.skip(h));
    let ghost mut v: Seq<u64> = Seq::empty();
    proof {
        lemma_decoded_empty(bits, n);
        if precision_bits == 0 {
            v = Seq::new(length as nat, |i: int| 0u64);
            lemma_decoded_zeros(bits, v);
        }
    }
//@ loop 1
            invariant
                n == precision.0, n <= 64, ok ==> reader.reader.reliable(),
                reader.wf(), buf@.len() >= length,
                decoded(bits, n, v), reader.view() == bits.skip((v.len() * n) as int),
                v.len() == 2 * it1.index@,
                forall|i: int| 0 <= i < v.len() ==> (#[trigger] buf@[i]).v is Some,
                forall|i: int| 0 <= i < v.len() && min + #[trigger] v[i] <= u32::MAX ==> buf@[i].v == Some((min + v[i]) as u32),
                ok ==> bits.len() >= n * length,
//@ loop-begin 1
            let ghost o = reader.view();
            proof {
                assert(v.len() + 2 <= length);
                assert(ok ==> o.len() >= 2 * n) by (nonlinear_arith)
                    requires v.len() + 2 <= length, ok ==> bits.len() >= n * length, o == bits.skip((v.len() * n) as int), v.len() * n <= bits.len(), o.len() == bits.len() - v.len() * n;
            }
//@ loop-end 1
            proof {
                lemma_decoded_push(bits, n, v, o.skip(n as int), i1);
                let v1 = v.push(i1);
                lemma_decoded_push(bits, n, v1, reader.view(), i2);
                v = v1.push(i2);
            }
//@ before `let i = reader`
            let ghost o = reader.view();
            proof {
                assert(v.len() + 1 == length);
                assert(ok ==> o.len() >= n) by (nonlinear_arith)
                    requires v.len() + 1 <= length, ok ==> bits.len() >= n * length, v.len() * n <= bits.len(), o.len() == bits.len() - v.len() * n;
            }
//@ after-let i
            proof {
                lemma_decoded_push(bits, n, v, reader.view(), i);
                v = v.push(i);
            }
//@ ret-bind
    proof {
        let r = data@;
        assert forall|i: int, m: u64| 0 <= i < r.len() && m + v[i] <= u32::MAX && (if has { src0.subrange(9, 17) == #[trigger] le8(m) } else { m == 0 }) && (src0[0] > 0 || m == 0) implies #[trigger] r[i] == m + v[i] by {
            if has { lemma_le8_inj(m, min); }
        }
        assert(tri_decoded(src0, has, r, v));
    }
//@ end
//@ fn decode_triangle_seg
//@ spec
    requires is_tri_kind(seg.seg_type),
    ensures
        ret matches Ok(d) ==> seg_decoded(seg.data@, seg.seg_type, seg.compresion_type, ctx.should_read_min_index, d),
        (exists|len: u64| seg.compresion_type is None && #[trigger] tri_ok(seg.data@, ctx.should_read_min_index, len)) ==> ret is Ok,
//@ after-let data
        proof { assert(data.rest() == seg.data@); assert(data.reliable()); }
//@ end
// ---------------------------------------------------------------- files
/// a segment as it stands in a file
pub ghost struct Seg { pub k: SectionType, pub c: CompressionType, pub d: Seq<u8> }
/// a mesh as it stands in a file
pub ghost struct MeshX { pub name: Seq<char>, pub l: Seq<Seg> }
/// src begins with the segments l, which take up n bytes
pub open spec fn segs_at(src: Seq<u8>, wide: bool, n: int, l: Seq<Seg>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { n == 0 } else {
        exists|m: int| 0 <= m <= src.len() && segs_at(src, wide, m, l.drop_last()) && #[trigger] seg_at(src.skip(m), wide, n - m, l.last().k, l.last().c, l.last().d)
    }
}
pub proof fn lemma_segs_empty(src: Seq<u8>, wide: bool)
    ensures segs_at(src, wide, 0, Seq::empty()),
{}
pub proof fn lemma_meshes_empty(src: Seq<u8>, wide: bool)
    ensures meshes_at(src, wide, 0, Seq::empty()),
{}
pub open spec fn str_at(src: Seq<u8>, n: int, s: Seq<char>) -> bool {
    let b = vstd::utf8::encode_utf8(s);
    &&& n == 2 + b.len() && src.len() >= n && b.len() <= 65535
    &&& src.take(2) == le2(b.len() as u16)
    &&& src.subrange(2, n) == b
}
/// src begins with the mesh m, which takes up n bytes
pub open spec fn mesh_at(src: Seq<u8>, wide: bool, n: int, m: MeshX) -> bool {
    exists|h: int| #[trigger] str_at(src, h, m.name) && n >= h + 2 && src.len() >= n && m.l.len() <= 65535
        && src.subrange(h, h + 2) == le2(m.l.len() as u16) && segs_at(src.skip(h + 2), wide, n - h - 2, m.l)
}
pub open spec fn meshes_at(src: Seq<u8>, wide: bool, n: int, ms: Seq<MeshX>) -> bool
    decreases ms.len(),
{
    if ms.len() == 0 { n == 0 } else {
        exists|m: int| 0 <= m <= src.len() && meshes_at(src, wide, m, ms.drop_last()) && #[trigger] mesh_at(src.skip(m), wide, n - m, ms.last())
    }
}
pub open spec fn tmf_magic() -> Seq<u8> { seq![84u8, 77, 70] }
/// the smallest version of a reader that may read the file
pub open spec fn min_version(src: Seq<u8>, mj: u16, mn: u16) -> bool {
    src.len() >= 11 && src.take(3) == tmf_magic() && src.subrange(7, 9) == le2(mj) && src.subrange(9, 11) == le2(mn)
}
pub open spec fn newer(mj: u16, mn: u16) -> bool { mj > TMF_MAJOR || (mj == TMF_MAJOR && mn > TMF_MINOR) }
/// src begins with a file of n bytes, which contains the meshes ms
pub open spec fn file_at(src: Seq<u8>, n: int, wide: bool, ms: Seq<MeshX>) -> bool {
    &&& exists|mj: u16, mn: u16| #[trigger] min_version(src, mj, mn) && !newer(mj, mn) && wide == (mn <= 1)
    &&& n >= 15 && src.len() >= n && ms.len() <= u32::MAX
    &&& src.subrange(11, 15) == le4(ms.len() as u32)
    &&& meshes_at(src.skip(15), wide, n - 15, ms)
}
/// what the segments say
pub open spec fn dec_of(l: Seq<Seg>, wide: bool, dec: Seq<DecodedSegment>) -> bool {
    dec.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> seg_decoded(#[trigger] l[i].d, l[i].k, l[i].c, hm(wide), dec[i])
}
/// what becomes of a mesh in a file
pub open spec fn mesh_is(m: MeshX, wide: bool, r: (TMFMesh, String)) -> bool {
    &&& r.1@ == m.name && r.0.wf()
    &&& exists|dec: Seq<DecodedSegment>| #[trigger] dec_of(m.l, wide, dec) && r.0@ == parts(dec)
}
pub open spec fn meshes_are(ms: Seq<MeshX>, wide: bool, r: Seq<(TMFMesh, String)>) -> bool {
    ms.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> mesh_is(#[trigger] ms[i], wide, r[i])
}
/// whether index arrays have a smallest index
pub open spec fn hm(wide: bool) -> bool { !wide }
pub open spec fn sx_rok(x: Seg, wide: bool) -> bool { exists|len: u64| #[trigger] seg_rok(x.d, x.k, x.c, hm(wide), len) }
/// every segment is one that has to be accepted
pub open spec fn segs_rok(l: Seq<Seg>, wide: bool) -> bool {
    forall|i: int| 0 <= i < l.len() ==> sx_rok(#[trigger] l[i], wide)
}
pub open spec fn file_rok(src: Seq<u8>, n: int, wide: bool, ms: Seq<MeshX>) -> bool {
    file_at(src, n, wide, ms) && forall|i: int| 0 <= i < ms.len() ==> segs_rok((#[trigger] ms[i]).l, wide)
}
/// a mesh name that has to be accepted
pub open spec fn can_str(src: Seq<u8>) -> bool { exists|n: int, s: Seq<char>| #[trigger] str_at(src, n, s) }
/// a mesh that has to be accepted
pub open spec fn can_mesh(src: Seq<u8>, wide: bool) -> bool { exists|n: int, m: MeshX| #[trigger] mesh_at(src, wide, n, m) && segs_rok(m.l, wide) }
/// a file that has to be accepted
pub open spec fn can_file(src: Seq<u8>) -> bool { exists|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_rok(src, n, wide, ms) }
pub proof fn lemma_decoded_wf(x: Seg, wide: bool, d: DecodedSegment)
    requires seg_decoded(x.d, x.k, x.c, hm(wide), d),
    ensures cust_wf(d),
{}
// ---- a file can be read in one way only
pub proof fn lemma_seg_det(src: Seq<u8>, wide: bool, n: int, k: SectionType, c: CompressionType, d: Seq<u8>, n1: int, k1: SectionType, c1: CompressionType, d1: Seq<u8>)
    requires seg_at(src, wide, n, k, c, d), seg_at(src, wide, n1, k1, c1, d1),
    ensures n == n1, k == k1, c == c1, d == d1,
{
    if wide {
        lemma_le8_inj(d.len() as u64, d1.len() as u64);
        let t = choose|t: u16| src.take(2) == #[trigger] le2(t) && k == kind_of(t as int);
        let t1 = choose|t: u16| src.take(2) == #[trigger] le2(t) && k1 == kind_of(t as int);
        lemma_le2_inj(t, t1);
    } else {
        lemma_le4_inj(d.len() as u32, d1.len() as u32);
    }
}
pub proof fn lemma_segs_step(src: Seq<u8>, wide: bool, n: int, l: Seq<Seg>, m: int, p: Seq<Seg>)
    requires segs_at(src, wide, n, l), segs_at(src, wide, m, p), p.len() <= l.len(), src.len() >= n,
    ensures
        p == l.take(p.len() as int), 0 <= m <= n, p.len() == l.len() ==> m == n,
        p.len() < l.len() ==> exists|e: int| #[trigger] seg_at(src.skip(m), wide, e, l[p.len() as int].k, l[p.len() as int].c, l[p.len() as int].d) && m + e <= n,
    decreases l.len(), p.len(),
{
    if l.len() == 0 {
        assert(p =~= l.take(0));
    } else {
        let q = choose|q: int| 0 <= q <= src.len() && segs_at(src, wide, q, l.drop_last()) && #[trigger] seg_at(src.skip(q), wide, n - q, l.last().k, l.last().c, l.last().d);
        if p.len() < l.len() {
            lemma_segs_step(src, wide, q, l.drop_last(), m, p);
            assert(l.drop_last().take(p.len() as int) =~= l.take(p.len() as int));
            if p.len() == l.len() - 1 {
                assert(seg_at(src.skip(m), wide, n - m, l[p.len() as int].k, l[p.len() as int].c, l[p.len() as int].d));
            } else {
                assert(l.drop_last()[p.len() as int] == l[p.len() as int]);
                let e = choose|e: int| #[trigger] seg_at(src.skip(m), wide, e, l[p.len() as int].k, l[p.len() as int].c, l[p.len() as int].d) && m + e <= q;
                assert(m + e <= n);
            }
        } else {
            let r = choose|r: int| 0 <= r <= src.len() && segs_at(src, wide, r, p.drop_last()) && #[trigger] seg_at(src.skip(r), wide, m - r, p.last().k, p.last().c, p.last().d);
            lemma_segs_step(src, wide, q, l.drop_last(), r, p.drop_last());
            assert(q == r);
            lemma_seg_det(src.skip(q), wide, n - q, l.last().k, l.last().c, l.last().d, m - r, p.last().k, p.last().c, p.last().d);
            assert(p.last() == l.last());
            assert(p.drop_last().push(p.last()) =~= p);
            assert(l.drop_last().push(l.last()) =~= l);
            assert(l.drop_last().take(p.len() - 1) =~= l.drop_last());
            assert(l.take(p.len() as int) =~= l);
        }
    }
}
pub proof fn lemma_segs_push(src: Seq<u8>, wide: bool, m: int, p: Seq<Seg>, e: int, x: Seg)
    requires 0 <= m <= src.len(), segs_at(src, wide, m, p), seg_at(src.skip(m), wide, e, x.k, x.c, x.d),
    ensures segs_at(src, wide, m + e, p.push(x)), e >= 0, m + e <= src.len(),
{
    assert(p.push(x).drop_last() =~= p);
    assert(p.push(x).last() == x);
    assert(seg_at(src.skip(m), wide, (m + e) - m, x.k, x.c, x.d));
}
pub proof fn lemma_str_det(src: Seq<u8>, n: int, s: Seq<char>, n1: int, s1: Seq<char>)
    requires str_at(src, n, s), str_at(src, n1, s1),
    ensures n == n1, s == s1,
{
    lemma_le2_inj(vstd::utf8::encode_utf8(s).len() as u16, vstd::utf8::encode_utf8(s1).len() as u16);
    lemma_utf8_inj(s, s1);
}
pub proof fn lemma_mesh_det(src: Seq<u8>, wide: bool, n: int, m: MeshX, n1: int, m1: MeshX)
    requires mesh_at(src, wide, n, m), mesh_at(src, wide, n1, m1),
    ensures n == n1, m == m1,
{
    let h = choose|h: int| #[trigger] str_at(src, h, m.name) && n >= h + 2 && src.len() >= n && m.l.len() <= 65535
        && src.subrange(h, h + 2) == le2(m.l.len() as u16) && segs_at(src.skip(h + 2), wide, n - h - 2, m.l);
    let h1 = choose|h: int| #[trigger] str_at(src, h, m1.name) && n1 >= h + 2 && src.len() >= n1 && m1.l.len() <= 65535
        && src.subrange(h, h + 2) == le2(m1.l.len() as u16) && segs_at(src.skip(h + 2), wide, n1 - h - 2, m1.l);
    lemma_str_det(src, h, m.name, h1, m1.name);
    lemma_le2_inj(m.l.len() as u16, m1.l.len() as u16);
    lemma_segs_step(src.skip(h + 2), wide, n - h - 2, m.l, n1 - h - 2, m1.l);
    assert(m.l.take(m.l.len() as int) =~= m.l);
}
pub proof fn lemma_mesh_len()
    ensures forall|src: Seq<u8>, wide: bool, n: int, m: MeshX| #[trigger] mesh_at(src, wide, n, m) ==> n >= 4 && src.len() >= n,
{}
pub proof fn lemma_meshes_step(src: Seq<u8>, wide: bool, n: int, l: Seq<MeshX>, m: int, p: Seq<MeshX>)
    requires meshes_at(src, wide, n, l), meshes_at(src, wide, m, p), p.len() <= l.len(), src.len() >= n,
    ensures
        p == l.take(p.len() as int), 0 <= m <= n, p.len() == l.len() ==> m == n,
        p.len() < l.len() ==> exists|e: int| #[trigger] mesh_at(src.skip(m), wide, e, l[p.len() as int]) && m + e <= n,
    decreases l.len(), p.len(),
{
    hide(mesh_at); lemma_mesh_len();
    if l.len() == 0 {
        assert(p =~= l.take(0));
    } else {
        let q = choose|q: int| 0 <= q <= src.len() && meshes_at(src, wide, q, l.drop_last()) && #[trigger] mesh_at(src.skip(q), wide, n - q, l.last());
        if p.len() < l.len() {
            lemma_meshes_step(src, wide, q, l.drop_last(), m, p);
            assert(l.drop_last().take(p.len() as int) =~= l.take(p.len() as int));
            if p.len() == l.len() - 1 {
                assert(mesh_at(src.skip(m), wide, n - m, l[p.len() as int]));
            } else {
                assert(l.drop_last()[p.len() as int] == l[p.len() as int]);
                let e = choose|e: int| #[trigger] mesh_at(src.skip(m), wide, e, l[p.len() as int]) && m + e <= q;
                assert(m + e <= n);
            }
        } else {
            let r = choose|r: int| 0 <= r <= src.len() && meshes_at(src, wide, r, p.drop_last()) && #[trigger] mesh_at(src.skip(r), wide, m - r, p.last());
            lemma_meshes_step(src, wide, q, l.drop_last(), r, p.drop_last());
            lemma_mesh_det(src.skip(q), wide, n - q, l.last(), m - r, p.last());
            assert(p.drop_last().push(p.last()) =~= p);
            assert(l.drop_last().push(l.last()) =~= l);
            assert(l.drop_last().take(p.len() - 1) =~= l.drop_last());
            assert(l.take(p.len() as int) =~= l);
        }
    }
}
pub proof fn lemma_meshes_push(src: Seq<u8>, wide: bool, m: int, p: Seq<MeshX>, e: int, x: MeshX)
    requires 0 <= m <= src.len(), meshes_at(src, wide, m, p), mesh_at(src.skip(m), wide, e, x),
    ensures meshes_at(src, wide, m + e, p.push(x)), e >= 0, m + e <= src.len(),
{
    assert(p.push(x).drop_last() =~= p);
    assert(p.push(x).last() == x);
    assert(mesh_at(src.skip(m), wide, (m + e) - m, x));
}
/// a file can be read in one way only
pub proof fn theorem_file_det(src: Seq<u8>, n: int, wide: bool, ms: Seq<MeshX>, n1: int, wide1: bool, ms1: Seq<MeshX>)
    requires file_at(src, n, wide, ms), file_at(src, n1, wide1, ms1),
    ensures n == n1, wide == wide1, ms == ms1,
{
    let (mj, mn) = choose|mj: u16, mn: u16| #[trigger] min_version(src, mj, mn) && !newer(mj, mn) && wide == (mn <= 1);
    let (mj1, mn1) = choose|mj: u16, mn: u16| #[trigger] min_version(src, mj, mn) && !newer(mj, mn) && wide1 == (mn <= 1);
    lemma_le2_inj(mn, mn1);
    lemma_le4_inj(ms.len() as u32, ms1.len() as u32);
    lemma_meshes_step(src.skip(15), wide, n - 15, ms, n1 - 15, ms1);
    assert(ms.take(ms.len() as int) =~= ms);
}
//@ fn read_string
//@ spec
    ensures
        same(old(src), final(src)),
        ret matches Ok(s) ==> (*final(src)).failed() == (*old(src)).failed() && exists|n: int| #[trigger] str_at(old(src).rest(), n, s@) && (*final(src)).rest() == (*old(src)).rest().skip(n),
        old(src).reliable() && can_str(old(src).rest()) ==> ret is Ok,
//@ begin
    let ghost src0 = src.rest();
    let ghost ok = src.reliable() && can_str(src0);
    let ghost (n0, s0) = choose|n: int, s: Seq<char>| #[trigger] str_at(src0, n, s);
//@ after-let byte_len
    proof {
        if ok {
            lemma_le2_inj(byte_len, vstd::utf8::encode_utf8(s0).len() as u16);
            lemma_utf8_inj(s0, s0);
            assert(src.rest().take(byte_len as int) =~= src0.subrange(2, n0));
        }
    }
//@ ret-bind
    proof {
        assert(bytes@ =~= src0.subrange(2, 2 + byte_len));
        assert(src.rest() =~= src0.skip(2 + byte_len));
        if ret__ is Ok { assert(str_at(src0, 2 + byte_len, ret__->Ok_0@)); }
    }
//@ end
//@ fn read_tmf_header
//@ spec
    ensures
        same(old(src), final(src)),
        ret matches Ok(h) ==> (*final(src)).failed() == (*old(src)).failed() && min_version(old(src).rest(), h.min_major, h.min_minor) && !newer(h.min_major, h.min_minor)
            && (*final(src)).rest() == (*old(src)).rest().skip(11),
        old(src).reliable() && old(src).rest().len() >= 3 && old(src).rest().take(3) != tmf_magic() ==> ret == Err::<TMFHeader, TMFImportError>(TMFImportError::NotTMFFile),
        forall|mj: u16, mn: u16| old(src).reliable() && #[trigger] min_version(old(src).rest(), mj, mn) ==> if newer(mj, mn) { ret == Err::<TMFHeader, TMFImportError>(TMFImportError::NewerVersionRequired) } else { ret is Ok },
//@ begin
    let ghost src0 = src.rest();
    proof {
        assert forall|x: u16, y: u16| #[trigger] le2(x) == #[trigger] le2(y) implies x == y by { lemma_le2_inj(x, y); }
    }
//@ after `src.read_exact(&mut magic)?;`
    proof {
        assert(magic@ == src0.take(3));
    }
//@ before `let major`
    proof {
        assert(magic@ =~= tmf_magic());
    }
//@ after-let min_minor
    proof {
        assert(src0.subrange(7, 9) =~= le2(min_major));
        assert(src0.subrange(9, 11) =~= le2(min_minor));
        assert(src.rest() =~= src0.skip(11));
    }
//@ end
//@ fn TMFImportContext::import_mesh byref=src
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires self.wf(), *ctx == *self,
    ensures
        same(old(src), final(src)),
        ret matches Ok(r) ==> (*final(src)).failed() == (*old(src)).failed() && exists|n: int, m: MeshX| #[trigger] mesh_at(old(src).rest(), is_wide(self), n, m) && mesh_is(m, is_wide(self), r) && (*final(src)).rest() == (*old(src)).rest().skip(n),
        old(src).reliable() && can_mesh(old(src).rest(), is_wide(self)) ==> ret is Ok,
//@ subst `.clone` => `.clone_vx`
//@ begin
        hide(can_seg); hide(can_str); hide(seg_decoded); hide(seg_rok); hide(seg_at); hide(segs_at);
        let ghost src0 = src.rest();
        let ghost wide = is_wide(self);
        let ghost ok = src.reliable() && can_mesh(src0, wide);
        let ghost (n0, m0) = choose|n: int, m: MeshX| #[trigger] mesh_at(src0, wide, n, m) && segs_rok(m.l, wide);
        let ghost h0 = choose|h: int| #[trigger] str_at(src0, h, m0.name) && n0 >= h + 2 && src0.len() >= n0 && m0.l.len() <= 65535
            && src0.subrange(h, h + 2) == le2(m0.l.len() as u16) && segs_at(src0.skip(h + 2), wide, n0 - h - 2, m0.l);
        let ghost failed0 = src.failed();
        proof { if ok { assert(can_str(src0)) by { reveal(can_str); assert(str_at(src0, h0, m0.name)); } } }
//@ after-let name
        let ghost h = choose|h: int| #[trigger] str_at(src0, h, name@) && src.rest() == src0.skip(h);
        proof {
            if ok { lemma_str_det(src0, h0, m0.name, h, name@); }
        }
//@ after-let segment_count
        let ghost body = src0.skip(h + 2);
        let ghost cnt = segment_count as int;
        let ghost mut p: Seq<Seg> = Seq::empty();
        let ghost mut m: int = 0;
        proof {
            lemma_segs_empty(body, wide);
            assert(src.rest() =~= body.skip(0));
            assert(src0.subrange(h, h + 2) =~= le2(segment_count));
            if ok { lemma_le2_inj(segment_count, m0.l.len() as u16); }
        }
//@ loop 1
            invariant
                same(old(src), src), src.failed() == failed0,
                0 <= m <= body.len(), src.rest() == body.skip(m),
                segs_at(body, wide, m, p), p.len() == it1.index@, decoded_segs@.len() == p.len(),
                forall|i: int| 0 <= i < p.len() ==> (#[trigger] decoded_segs@[i] matches Ok(d) ==> seg_decoded(p[i].d, p[i].k, p[i].c, hm(wide), d)),
                forall|i: int| 0 <= i < p.len() && sx_rok(#[trigger] p[i], wide) ==> decoded_segs@[i] is Ok,
//@ loop-begin 1
            let ghost rest = src.rest();
            proof {
                if ok {
                    lemma_segs_step(body, wide, n0 - h - 2, m0.l, m, p);
                    let e = choose|e: int| #[trigger] seg_at(body.skip(m), wide, e, m0.l[p.len() as int].k, m0.l[p.len() as int].c, m0.l[p.len() as int].d) && m + e <= n0 - h - 2;
                    assert(seg_at(rest, wide, e, m0.l[p.len() as int].k, m0.l[p.len() as int].c, m0.l[p.len() as int].d));
                    assert(can_seg(src.rest(), is_wide(self))) by { reveal(can_seg); }
                }
            }
//@ after-let encoded
            let ghost e = choose|n: int| #[trigger] seg_at(rest, wide, n, encoded.seg_type, encoded.compresion_type, encoded.data@) && src.rest() == rest.skip(n);
            let ghost x = Seg { k: encoded.seg_type, c: encoded.compresion_type, d: encoded.data@ };
            proof {
                lemma_segs_push(body, wide, m, p, e, x);
                assert(body.skip(m).skip(e) =~= body.skip(m + e));
            }
//@ loop-end 1
            proof {
                p = p.push(x);
                m = m + e;
            }
//@ after-loop 1
        proof {
            if ok {
                lemma_segs_step(body, wide, n0 - h - 2, m0.l, m, p);
                assert(m0.l.take(p.len() as int) =~= m0.l);
                assert forall|i: int| 0 <= i < p.len() implies decoded_segs@[i] is Ok by { assert(m0.l[i] == p[i]); }
            }
        }
        let ghost mut dec: Seq<DecodedSegment> = Seq::empty();
//@ loop 2
            invariant
                res.wf(), res@ == parts(dec),
                src2@.len() == p.len(), dec == src2@.take(it2.index@),
                dec_of(p, wide, src2@),
//@ loop-begin 2
                    proof {
                        let i = it2.index@;
                        assert(seg_decoded(p[i].d, p[i].k, p[i].c, hm(wide), src2@[i]));
                        lemma_decoded_wf(p[i], wide, src2@[i]);
                        assert(src2@.take(i + 1) =~= src2@.take(i).push(src2@[i]));
                        lemma_parts_push(src2@.take(i), src2@[i]);
                        dec = src2@.take(i + 1);
                    }
//@ ret-bind
        proof {
            assert(dec.len() == p.len());
            let mx = MeshX { name: name@, l: p };
            assert(src0.skip(h + 2).skip(m) =~= src0.skip(h + 2 + m));
            assert(str_at(src0, h, mx.name));
            assert(mesh_at(src0, wide, h + 2 + m, mx));
            assert(dec_of(p, wide, dec));
        }
//@ end
//@ fn TMFImportContext::import
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        ret matches Ok(r) ==> exists|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_at(src.rest(), n, wide, ms) && meshes_are(ms, wide, r@),
        src.reliable() && can_file(src.rest()) ==> ret is Ok,
        src.reliable() && src.rest().len() >= 3 && src.rest().take(3) != tmf_magic() ==> (ret matches Err(e) && e is NotTMFFile),
        forall|mj: u16, mn: u16| src.reliable() && #[trigger] min_version(src.rest(), mj, mn) && newer(mj, mn) ==> (ret matches Err(e) && e is NewerVersionRequired),
//@ begin
        hide(can_mesh); hide(mesh_at); hide(meshes_at); hide(mesh_is); hide(segs_rok);
        let ghost src0 = src.rest();
        let ghost failed0 = src.failed();
        let ghost ok = src.reliable() && can_file(src0);
        let ghost (n0, wide0, ms0) = choose|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_rok(src0, n, wide, ms);
        let ghost (mj0, mn0) = choose|mj: u16, mn: u16| #[trigger] min_version(src0, mj, mn) && !newer(mj, mn) && wide0 == (mn <= 1);
        proof {
            assert forall|x: u16, y: u16| #[trigger] le2(x) == #[trigger] le2(y) implies x == y by { lemma_le2_inj(x, y); }
            if ok { assert(file_at(src0, n0, wide0, ms0)); assert(min_version(src0, mj0, mn0)); }
        }
//@ after-let res
        let ghost wide = is_wide(&res);
//@ after-let mesh_count
        let ghost body = src0.skip(15);
        let ghost mut p: Seq<MeshX> = Seq::empty();
        let ghost mut m: int = 0;
        proof {
            lemma_meshes_empty(body, wide);
            assert(src.rest() =~= body.skip(0));
            assert(src0.subrange(11, 15) =~= le4(mesh_count));
            if ok { lemma_le4_inj(mesh_count, ms0.len() as u32); assert(wide == wide0); assert(mesh_count == ms0.len()); assert(src.reliable()); }
        }
//@ loop 1
            invariant
                src.failed() == failed0, ok ==> src.reliable(),
                0 <= m <= body.len(), src.rest() == body.skip(m),
                meshes_at(body, wide, m, p), p.len() == it1.index@, 
                meshes_are(p, wide, meshes@),
//@ loop-begin 1
            let ghost rest = src.rest();
            proof {
                if ok {
                    lemma_meshes_step(body, wide, n0 - 15, ms0, m, p);
                    let e = choose|e: int| #[trigger] mesh_at(body.skip(m), wide, e, ms0[p.len() as int]) && m + e <= n0 - 15;
                    assert(mesh_at(rest, wide, e, ms0[p.len() as int]) && segs_rok(ms0[p.len() as int].l, wide));
                    assert(can_mesh(src.rest(), is_wide(&res))) by { reveal(can_mesh); }
                }
            }
//@ loop-end 1
            proof {
                let r = meshes@.last();
                let (e, x) = choose|e: int, x: MeshX| #[trigger] mesh_at(rest, wide, e, x) && mesh_is(x, wide, r) && src.rest() == rest.skip(e);
                lemma_meshes_push(body, wide, m, p, e, x);
                assert(body.skip(m).skip(e) =~= body.skip(m + e));
                p = p.push(x);
                m = m + e;
            }
//@ ret-bind
        proof {
            assert(src.failed() == failed0); // C15: no error of the reader was lost
            assert(file_at(src0, 15 + m, wide, p));
        }
//@ end
//@ fn import_sync
//@ spec
    ensures
        ret matches Ok(r) ==> exists|n: int, wide: bool, ms: Seq<MeshX>| #[trigger] file_at(src.rest(), n, wide, ms) && meshes_are(ms, wide, r@),
        src.reliable() && can_file(src.rest()) ==> ret is Ok,
        src.reliable() && src.rest().len() >= 3 && src.rest().take(3) != tmf_magic() ==> (ret matches Err(e) && e is NotTMFFile),
        forall|mj: u16, mn: u16| src.reliable() && #[trigger] min_version(src.rest(), mj, mn) && newer(mj, mn) ==> (ret matches Err(e) && e is NewerVersionRequired),
//@ end
}
