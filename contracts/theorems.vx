/// What the contracts add up to: saving and loading, end to end
pub mod theorems {
use vstd::prelude::*;
use crate::*;
use crate::vf::*;
use crate::vbits::*;
use crate::fl::*;
use crate::mesh::*;
use crate::vertices::*;
use crate::uv::*;
use crate::normals::*;
use crate::tangents::*;
use crate::custom_data::*;
use crate::tmf::*;
use crate::tmf_importer::*;
use crate::tmf_exporter::*;
use crate::vio::{Read, Write};

// ---------------------------------------------------------------- what is written is a file
proof fn lemma_seg_at(k: SectionType, c: CompressionType, d: Seq<u8>, tail: Seq<u8>)
    requires d.len() <= MAX_SEG_SIZE,
    ensures seg_at(seg_bytes(k, c, d) + tail, false, 6 + d.len() as int, k, c, d), seg_bytes(k, c, d).len() == 6 + d.len(),
{
    let src = seg_bytes(k, c, d) + tail;
    theorem_tag(k);
    assert(src[0] == tag(k));
    assert(src.subrange(1, 5) =~= le4(d.len() as u32));
    assert(src[5] == comp_tag(c));
    assert(d =~= src.subrange(6, 6 + d.len() as int));
}
proof fn lemma_segs_at(l: Seq<Seg>, tail: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> seg_fits(#[trigger] l[i]),
    ensures segs_at(segs_bytes(l) + tail, false, segs_bytes(l).len() as int, l),
    decreases l.len(),
{
    if l.len() > 0 {
        let x = l.last();
        let p = l.drop_last();
        let b = seg_bytes(x.k, x.c, x.d);
        assert forall|i: int| 0 <= i < p.len() implies seg_fits(#[trigger] p[i]) by { assert(p[i] == l[i]); }
        assert(seg_fits(l[l.len() - 1]));
        lemma_segs_at(p, b + tail);
        lemma_seg_at(x.k, x.c, x.d, tail);
        let src = segs_bytes(l) + tail;
        let m = segs_bytes(p).len() as int;
        assert(segs_bytes(p) + (b + tail) =~= src);
        assert(src.skip(m) =~= b + tail);
        assert(seg_at(src.skip(m), false, segs_bytes(l).len() - m, x.k, x.c, x.d));
    }
}
proof fn lemma_mesh_at(m: MeshX, tail: Seq<u8>)
    requires name_fits(m.name), segs_fit(m.l),
    ensures mesh_at(mesh_bytes(m) + tail, false, mesh_bytes(m).len() as int, m),
{
    let src = mesh_bytes(m) + tail;
    let b = vstd::utf8::encode_utf8(m.name);
    let h = 2 + b.len() as int;
    lemma_segs_at(m.l, tail);
    assert(src.take(2) =~= le2(b.len() as u16));
    assert(src.subrange(2, h) =~= b);
    assert(str_at(src, h, m.name));
    assert(src.subrange(h, h + 2) =~= le2(m.l.len() as u16));
    assert(src.skip(h + 2) =~= segs_bytes(m.l) + tail);
}
/// the name and the segments of the mesh fit into the fields of the format
pub open spec fn mesh_fits(m: MeshX) -> bool { name_fits(m.name) && segs_fit(m.l) }
proof fn lemma_meshes_at(ms: Seq<MeshX>, tail: Seq<u8>)
    requires forall|i: int| 0 <= i < ms.len() ==> mesh_fits(#[trigger] ms[i]),
    ensures meshes_at(all_meshes_bytes(ms) + tail, false, all_meshes_bytes(ms).len() as int, ms),
    decreases ms.len(),
{
    if ms.len() > 0 {
        let x = ms.last();
        let p = ms.drop_last();
        let b = mesh_bytes(x);
        assert forall|i: int| 0 <= i < p.len() implies mesh_fits(#[trigger] p[i]) by { assert(p[i] == ms[i]); }
        assert(mesh_fits(ms[ms.len() - 1]));
        lemma_meshes_at(p, b + tail);
        lemma_mesh_at(x, tail);
        let src = all_meshes_bytes(ms) + tail;
        let m = all_meshes_bytes(p).len() as int;
        assert(all_meshes_bytes(p) + (b + tail) =~= src);
        assert(src.skip(m) =~= b + tail);
        assert(mesh_at(src.skip(m), false, all_meshes_bytes(ms).len() - m, x));
    }
}
/// C14: what write_tmf writes is a file with these meshes, whatever follows it
pub proof fn theorem_file(ms: Seq<MeshX>, tail: Seq<u8>)
    requires ms.len() <= u32::MAX, forall|i: int| 0 <= i < ms.len() ==> mesh_fits(#[trigger] ms[i]),
    ensures file_at(file_bytes(ms) + tail, file_bytes(ms).len() as int, false, ms),
{
    let src = file_bytes(ms) + tail;
    lemma_meshes_at(ms, tail);
    assert(src.take(3) =~= tmf_magic());
    assert(src.subrange(7, 9) =~= le2(MIN_TMF_MAJOR));
    assert(src.subrange(9, 11) =~= le2(MIN_TMF_MINOR));
    assert(min_version(src, MIN_TMF_MAJOR, MIN_TMF_MINOR));
    assert(src.subrange(11, 15) =~= le4(ms.len() as u32));
    assert(src.skip(15) =~= all_meshes_bytes(ms) + tail);
}

// ---------------------------------------------------------------- a file that was cut off is not a file
proof fn lemma_seg_longer(src: Seq<u8>, k: int, wide: bool, n: int, x: Seg)
    requires 0 <= k <= src.len(), seg_at(src.take(k), wide, n, x.k, x.c, x.d),
    ensures seg_at(src, wide, n, x.k, x.c, x.d),
{
    let p = src.take(k);
    let h: int = if wide { 10 } else { 5 };
    assert(p.subrange(h + 1, n) =~= src.subrange(h + 1, n));
    if wide {
        assert(p.take(2) =~= src.take(2));
        assert(p.subrange(2, 10) =~= src.subrange(2, 10));
    } else {
        assert(p.subrange(1, 5) =~= src.subrange(1, 5));
    }
}
proof fn lemma_segs_longer(src: Seq<u8>, k: int, wide: bool, n: int, l: Seq<Seg>)
    requires 0 <= k <= src.len(), segs_at(src.take(k), wide, n, l),
    ensures segs_at(src, wide, n, l), n >= 0,
    decreases l.len(),
{
    if l.len() > 0 {
        let p = src.take(k);
        let x = l.last();
        let m = choose|m: int| 0 <= m <= p.len() && segs_at(p, wide, m, l.drop_last()) && #[trigger] seg_at(p.skip(m), wide, n - m, x.k, x.c, x.d);
        lemma_segs_longer(src, k, wide, m, l.drop_last());
        assert(p.skip(m) =~= src.skip(m).take(k - m));
        lemma_seg_longer(src.skip(m), k - m, wide, n - m, x);
        assert(seg_at(src.skip(m), wide, n - m, x.k, x.c, x.d));
    }
}
proof fn lemma_mesh_longer(src: Seq<u8>, k: int, wide: bool, n: int, m: MeshX)
    requires 0 <= k <= src.len(), mesh_at(src.take(k), wide, n, m),
    ensures mesh_at(src, wide, n, m),
{
    let p = src.take(k);
    let h = choose|h: int| #[trigger] str_at(p, h, m.name) && n >= h + 2 && p.len() >= n && m.l.len() <= 65535
        && p.subrange(h, h + 2) == le2(m.l.len() as u16) && segs_at(p.skip(h + 2), wide, n - h - 2, m.l);
    assert(p.take(2) =~= src.take(2));
    assert(p.subrange(2, h) =~= src.subrange(2, h));
    assert(str_at(src, h, m.name));
    assert(p.subrange(h, h + 2) =~= src.subrange(h, h + 2));
    assert(p.skip(h + 2) =~= src.skip(h + 2).take(k - h - 2));
    lemma_segs_longer(src.skip(h + 2), k - h - 2, wide, n - h - 2, m.l);
}
proof fn lemma_meshes_longer(src: Seq<u8>, k: int, wide: bool, n: int, ms: Seq<MeshX>)
    requires 0 <= k <= src.len(), meshes_at(src.take(k), wide, n, ms),
    ensures meshes_at(src, wide, n, ms),
    decreases ms.len(),
{
    if ms.len() > 0 {
        let p = src.take(k);
        let x = ms.last();
        let m = choose|m: int| 0 <= m <= p.len() && meshes_at(p, wide, m, ms.drop_last()) && #[trigger] mesh_at(p.skip(m), wide, n - m, x);
        lemma_meshes_longer(src, k, wide, m, ms.drop_last());
        assert(p.skip(m) =~= src.skip(m).take(k - m));
        lemma_mesh_longer(src.skip(m), k - m, wide, n - m, x);
        assert(mesh_at(src.skip(m), wide, n - m, x));
    }
}
/// bytes at the end do not change what a file says
pub proof fn theorem_longer(src: Seq<u8>, k: int, n: int, wide: bool, ms: Seq<MeshX>)
    requires 0 <= k <= src.len(), file_at(src.take(k), n, wide, ms),
    ensures file_at(src, n, wide, ms),
{
    let p = src.take(k);
    let (mj, mn) = choose|mj: u16, mn: u16| #[trigger] min_version(p, mj, mn) && !newer(mj, mn) && wide == (mn <= 1);
    assert(p.take(3) =~= src.take(3));
    assert(p.subrange(7, 9) =~= src.subrange(7, 9));
    assert(p.subrange(9, 11) =~= src.subrange(9, 11));
    assert(min_version(src, mj, mn));
    assert(p.subrange(11, 15) =~= src.subrange(11, 15));
    assert(p.skip(15) =~= src.skip(15).take(k - 15));
    lemma_meshes_longer(src.skip(15), k - 15, wide, n - 15, ms);
}
/// C14: a file that was cut off anywhere is refused (read_tmf returns Ok only for a file)
pub proof fn theorem_prefix(src: Seq<u8>, n: int, wide: bool, ms: Seq<MeshX>, k: int)
    requires file_at(src, n, wide, ms), 0 <= k < n,
    ensures forall|n1: int, wide1: bool, ms1: Seq<MeshX>| !#[trigger] file_at(src.take(k), n1, wide1, ms1),
{
    assert forall|n1: int, wide1: bool, ms1: Seq<MeshX>| !#[trigger] file_at(src.take(k), n1, wide1, ms1) by {
        if file_at(src.take(k), n1, wide1, ms1) {
            theorem_longer(src, k, n1, wide1, ms1);
            theorem_file_det(src, n, wide, ms, n1, wide1, ms1);
        }
    }
}
/// C14: a segment of an unknown type says nothing
pub proof fn theorem_unknown_seg(x: Seg, wide: bool, d: DecodedSegment)
    requires seg_decoded(x.d, x.k, x.c, hm(wide), d), x.k is Invalid,
    ensures d is Nothing, part(d) == empty_mesh(),
{}
/// C14: a segment that says nothing does not disturb the others
pub proof fn theorem_skipped(dec: Seq<DecodedSegment>, i: int)
    requires 0 <= i < dec.len(), dec[i] is Nothing,
    ensures parts(dec) == parts(dec.remove(i)),
    decreases dec.len(),
{
    let e = dec.remove(i);
    if i == dec.len() - 1 {
        assert(e =~= dec.drop_last());
        lemma_parts_empty();
    } else {
        theorem_skipped(dec.drop_last(), i);
        assert(dec.drop_last().remove(i) =~= e.drop_last());
        assert(e.last() == dec.last());
    }
}

// ---------------------------------------------------------------- what was saved can be loaded
/// no array has more elements than a reader allows
pub open spec fn small<T>(a: Option<Seq<T>>) -> bool { match a { Some(s) => s.len() <= MAX_SEG_SIZE, None => true } }
pub open spec fn small_mesh(m: MeshV) -> bool {
    &&& small(m.v) && small(m.n) && small(m.u) && small(m.t) && small(m.vt) && small(m.nt) && small(m.ut) && small(m.tt)
    &&& forall|i: int| 0 <= i < m.c.len() ==> cd_len((#[trigger] m.c[i]).data) <= MAX_SEG_SIZE
}
proof fn lemma_small_join(a: MeshV, b: MeshV)
    requires small_mesh(join(a, b)),
    ensures small_mesh(a), small_mesh(b),
{
    let j = join(a, b);
    assert forall|i: int| 0 <= i < a.c.len() implies cd_len((#[trigger] a.c[i]).data) <= MAX_SEG_SIZE by { assert(j.c[i] == a.c[i]); }
    assert forall|i: int| 0 <= i < b.c.len() implies cd_len((#[trigger] b.c[i]).data) <= MAX_SEG_SIZE by { assert(j.c[a.c.len() + i] == b.c[i]); }
}
proof fn lemma_small_parts(s: Seq<DecodedSegment>)
    requires small_mesh(parts(s)),
    ensures forall|i: int| 0 <= i < s.len() ==> small_mesh(#[trigger] part(s[i])),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_small_join(parts(s.drop_last()), part(s.last()));
        lemma_small_parts(s.drop_last());
        assert forall|i: int| 0 <= i < s.len() implies small_mesh(#[trigger] part(s[i])) by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
pub open spec fn seg_size(s: DecodedSegment) -> nat {
    match s {
        DecodedSegment::Nothing => 0,
        DecodedSegment::AppendVertex(x) => x@.len(),
        DecodedSegment::AppendNormal(x) => x@.len(),
        DecodedSegment::AppendUV(x) => x@.len(),
        DecodedSegment::AppendTangent(x) => x@.len(),
        DecodedSegment::AppendTriangleVertex(x) => x@.len(),
        DecodedSegment::AppendTriangleNormal(x) => x@.len(),
        DecodedSegment::AppendTriangleUV(x) => x@.len(),
        DecodedSegment::AppendTriangleTangent(x) => x@.len(),
        DecodedSegment::SharedTriangleSegment(_, x) => x@.len(),
        DecodedSegment::AppendCustom(c) => cd_len(c.data),
    }
}
proof fn lemma_seg_readable(x: Seg, s: DecodedSegment, prec: TMFPrecisionInfo, edge: f32)
    requires enc_seg(x, s, prec, edge), small_mesh(part(s)),
    ensures sx_rok(x, false),
{
    let no = Seq::<u8>::empty();
    let e = x.d;
    assert(e + no =~= e);
    let n = seg_size(s) as u64;
    assert(seg_rok(e, x.k, x.c, true, n)) by {
        match s {
            DecodedSegment::Nothing => {},
            DecodedSegment::AppendVertex(y) => { theorem_vx_readable(e, no, y@, edge, prec.vertex_precision.0); },
            DecodedSegment::AppendNormal(y) => { theorem_norm_readable(e, no, y@, prec.normal_precision.0); },
            DecodedSegment::AppendUV(y) => { theorem_uv_readable(e, no, y@, c63(prec.uv_prec.0)); },
            DecodedSegment::AppendTangent(y) => { theorem_tan_readable(e, no, y@, prec.tangent_prec.0.0); },
            DecodedSegment::AppendTriangleVertex(y) => { theorem_tri_readable(e, no, y@); },
            DecodedSegment::AppendTriangleNormal(y) => { theorem_tri_readable(e, no, y@); },
            DecodedSegment::AppendTriangleUV(y) => { theorem_tri_readable(e, no, y@); },
            DecodedSegment::AppendTriangleTangent(y) => { theorem_tri_readable(e, no, y@); },
            DecodedSegment::SharedTriangleSegment(k, y) => {
                assert(e.skip(1) + no =~= e.skip(1));
                assert(small(part(s).vt) && small(part(s).nt) && small(part(s).ut));
                theorem_tri_readable(e.skip(1), no, y@);
            },
            DecodedSegment::AppendCustom(c) => {
                assert(part(s).c[0] == c);
                theorem_custom_readable(e, no, c);
            },
        }
    }
    assert(hm(false));
}
pub open spec fn small_all<S>(l: Seq<(TMFMesh, S)>) -> bool { forall|i: int| 0 <= i < l.len() ==> small_mesh((#[trigger] l[i]).0@) }
/// C17: the file that was written is one that a reader has to accept
pub proof fn theorem_loads<S: BorrowVx<str>>(ms: Seq<MeshX>, l: Seq<(TMFMesh, S)>, prec: TMFPrecisionInfo, tail: Seq<u8>)
    requires file_saved(ms, l, prec), l.len() <= u32::MAX, small_all(l),
    ensures can_file(file_bytes(ms) + tail), file_rok(file_bytes(ms) + tail, file_bytes(ms).len() as int, false, ms),
{
    assert forall|i: int| 0 <= i < ms.len() implies mesh_fits(#[trigger] ms[i]) by { assert(mesh_saved(ms[i], l[i].0@, l[i].1.borrowed()@, prec)); }
    theorem_file(ms, tail);
    assert forall|i: int| 0 <= i < ms.len() implies segs_rok((#[trigger] ms[i]).l, false) by {
        assert(mesh_saved(ms[i], l[i].0@, l[i].1.borrowed()@, prec));
        let (s, edge) = choose|s: Seq<DecodedSegment>, edge: f32| #[trigger] enc_segs(ms[i].l, s, prec, edge) && parts(s) == l[i].0@ && edge_ok(edge, l[i].0@.vt, l[i].0@.v);
        assert(small_mesh(l[i].0@));
        lemma_small_parts(s);
        assert forall|j: int| 0 <= j < ms[i].l.len() implies sx_rok(#[trigger] ms[i].l[j], false) by {
            lemma_seg_readable(ms[i].l[j], s[j], prec, edge);
        }
    }
    assert(file_rok(file_bytes(ms) + tail, file_bytes(ms).len() as int, false, ms));
}

// ---------------------------------------------------------------- what comes back
/// the arrays have the same number of elements, and each element is as p says
pub open spec fn each<T>(a: Option<Seq<T>>, b: Option<Seq<T>>, p: spec_fn(T, T) -> bool) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> #[trigger] p(x[i], y[i]),
        _ => false,
    }
}
proof fn lemma_each<T>(a: Option<Seq<T>>, b: Option<Seq<T>>, c: Option<Seq<T>>, d: Option<Seq<T>>, p: spec_fn(T, T) -> bool)
    requires each(a, b, p), each(c, d, p),
    ensures each(ocat(a, c), ocat(b, d), p),
{
    if a is Some && c is Some {
        let (x, y, z, w) = (a->Some_0, b->Some_0, c->Some_0, d->Some_0);
        assert forall|i: int| 0 <= i < (x + z).len() implies #[trigger] p((x + z)[i], (y + w)[i]) by {
            if i < x.len() { assert(p(x[i], y[i])); } else { assert(p(z[i - x.len()], w[i - x.len()])); }
        }
    }
}
pub open spec fn uv_back(s: Vector2, r: Vector2, p: u8) -> bool {
    p >= 1 ==> {
        &&& in01(s.0) ==> rabs(rv(r.0) - rv(s.0)) <= 1real / (m_of(p) as real) + 8real * EPS()
        &&& in01(s.1) ==> rabs(rv(r.1) - rv(s.1)) <= 1real / (m_of(p) as real) + 8real * EPS()
        &&& fin(r.0) && fin(r.1)
    }
}
pub open spec fn norm_back(s: Vector3, r: Vector3, p: u8) -> bool { p >= 1 ==> n_back(s, r, m_of(p)) }
pub open spec fn tan_back(s: Tangent, r: Tangent, p: u8) -> bool { hand_is(neg_bit(s.1), r.1) && norm_back(s.0, r.0, p) }
pub open spec fn cust_back(s: CustomDataSegment, r: CustomDataSegment) -> bool { r.name@ == s.name@ && r.name_len == s.name_len && cd_same(s.data, r.data) }
/// every coordinate on the axis j is a number between lo and hi, and these are not too far apart
pub open spec fn in_box(s: Seq<Vector3>, j: int, lo: real, hi: real) -> bool {
    forall|i: int| 0 <= i < s.len() ==> fin(ax(#[trigger] s[i], j)) && lo <= rv(ax(s[i], j)) <= hi
}
pub open spec fn box_ok(lo: real, hi: real) -> bool { lo <= hi && hi - lo <= FMAX() / 2real && rmax(rabs(lo), rabs(hi)) <= FMAX() / 4real }
pub open spec fn boxed(a: Option<Seq<Vector3>>, j: int, lo: real, hi: real) -> bool { match a { Some(s) => in_box(s, j, lo, hi), None => true } }
/// the step between coordinates that can be told apart: twice the part asked for of the shortest edge,
/// or the best that 63 bits can do
pub open spec fn step_ok(step: real, lo: real, hi: real, edge: f32, prec: f32) -> bool {
    ||| fin(edge) && fin(prec) && step <= 2real * rv(prec) * rv(edge) * (1real + 5real * TINY()) + 0.000000000000000000000000000001real
    ||| step <= (hi - lo) / (m_of(63) as real)
    ||| fin(edge) && rv(edge) < 0.0000000000000000000000001real * (hi - lo)
    ||| !(fin(edge) && fin(prec) && 0.00001real <= rv(prec) <= 100000real)
}
pub open spec fn coord_back(s: f32, r: f32, lo: real, hi: real, step: real) -> bool {
    let big = rmax(rabs(lo), rabs(hi));
    &&& fin(r)
    &&& rabs(rv(r) - rv(s)) <= step + 40real * EPS() * big + 10real * ETA()
    &&& lo - 20real * EPS() * big - 5real * ETA() <= rv(r) <= hi + 20real * EPS() * big + 5real * ETA()
}
pub open spec fn vert_back(s: Vector3, r: Vector3, j: int, lo: real, hi: real, edge: f32, prec: f32) -> bool {
    exists|step: real| #[trigger] step_ok(step, lo, hi, edge, prec) && coord_back(ax(s, j), ax(r, j), lo, hi, step)
}
proof fn lemma_step(h: Axis, lo: real, hi: real, edge: f32, prec: f32)
    requires axis_prec(h, edge, prec), 1 <= h.p <= 63, fin(h.a), fin(h.b), lo <= rv(h.a) <= rv(h.b) <= hi, hi - lo <= FMAX() / 2real,
    ensures step_ok((rv(h.b) - rv(h.a)) / (m_of(h.p) as real), lo, hi, edge, prec),
{
    let span = rv(h.b) - rv(h.a);
    let m = m_of(h.p) as real;
    lemma_m_of(h.p);
    lemma_m_of(63);
    assert(m >= 1real);
    let step = span / m;
    assert(step <= span) by (nonlinear_arith) requires step == span / m, m >= 1real, span >= 0real;
    if h.p == 63 {
        assert(step <= (hi - lo) / m) by (nonlinear_arith) requires step == span / m, span <= hi - lo, m >= 1real;
    } else if fin(edge) && fin(prec) && 0.00001real <= rv(prec) <= 100000real && rv(edge) >= 0.0000000000000000000000001real * (hi - lo) {
        let g = rv(prec) * rv(edge);
        assert(rv(edge) >= 0real);
        assert(g >= 0.00001real * rv(edge)) by (nonlinear_arith) requires g == rv(prec) * rv(edge), rv(prec) >= 0.00001real, rv(edge) >= 0real;
        assert(2real * rv(prec) * rv(edge) * (1real + 5real * TINY()) == 2.00001real * g) by (nonlinear_arith) requires g == rv(prec) * rv(edge), TINY() == 0.000001real;
        if span < 0.000000000000000000000000000001real {
        } else if rv(edge) > 10000000000real * span {
        } else {
            theorem_vx_step(h, edge, prec);
        }
    }
}
proof fn lemma_axis(s: Seq<Vector3>, r: Seq<Vector3>, h: Axis, j: int, lo: real, hi: real, edge: f32, prec: f32)
    requires
        r.len() == s.len(), axis_range(s, j, h.a, h.b), 1 <= h.p <= 63, axis_prec(h, edge, prec), axis_close(s, r, h, j), in_box(s, j, lo, hi), box_ok(lo, hi),
    ensures
        forall|i: int| 0 <= i < s.len() ==> #[trigger] vert_back(s[i], r[i], j, lo, hi, edge, prec),
{
    if s.len() > 0 {
        let big = rmax(rabs(lo), rabs(hi));
        let b2 = rmax(rabs(rv(h.a)), rabs(rv(h.b)));
        assert forall|i: int| 0 <= i < s.len() implies fin(ax(#[trigger] s[i], j)) by { }
        assert(fin(h.a) && fin(h.b));
        let i1 = choose|i: int| 0 <= i < s.len() && rv(ax(#[trigger] s[i], j)) == rv(h.a);
        let i2 = choose|i: int| 0 <= i < s.len() && rv(ax(#[trigger] s[i], j)) == rv(h.b);
        assert(lo <= rv(ax(s[i1], j)) && rv(ax(s[i2], j)) <= hi);
        assert(lo <= rv(h.a) && rv(h.b) <= hi);
        assert(b2 <= big);
        assert(vx_ok(s, h, j));
        lemma_step(h, lo, hi, edge, prec);
        let step = (rv(h.b) - rv(h.a)) / (m_of(h.p) as real);
        assert(EPS() * b2 <= EPS() * big) by (nonlinear_arith) requires b2 <= big, EPS() > 0real;
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] vert_back(s[i], r[i], j, lo, hi, edge, prec) by {
            assert(fin(ax(r[i], j)));
            assert(40real * EPS() * b2 == 40real * (EPS() * b2) && 40real * EPS() * big == 40real * (EPS() * big)) by (nonlinear_arith);
            assert(20real * EPS() * b2 == 20real * (EPS() * b2) && 20real * EPS() * big == 20real * (EPS() * big)) by (nonlinear_arith);
            assert(rv(h.a) - 20real * EPS() * b2 >= lo - 20real * EPS() * big);
            assert(coord_back(ax(s[i], j), ax(r[i], j), lo, hi, step));
        }
    }
}
/// all of a mesh but its vertices, and how many of these there are
pub open spec fn mesh_back(m: MeshV, r: MeshV, prec: TMFPrecisionInfo) -> bool {
    &&& r.vt == m.vt && r.nt == m.nt && r.ut == m.ut && r.tt == m.tt
    &&& each(m.v, r.v, |a: Vector3, b: Vector3| true)
    &&& each(m.n, r.n, |a: Vector3, b: Vector3| norm_back(a, b, prec.normal_precision.0))
    &&& each(m.u, r.u, |a: Vector2, b: Vector2| uv_back(a, b, c63(prec.uv_prec.0)))
    &&& each(m.t, r.t, |a: Tangent, b: Tangent| tan_back(a, b, prec.tangent_prec.0.0))
    &&& r.c.len() == m.c.len() && forall|i: int| 0 <= i < m.c.len() ==> cust_back(#[trigger] m.c[i], r.c[i])
}
/// the vertices of a mesh, seen along the axis j
pub open spec fn verts_back(m: MeshV, r: MeshV, prec: TMFPrecisionInfo, j: int, lo: real, hi: real, edge: f32) -> bool {
    each(m.v, r.v, |a: Vector3, b: Vector3| vert_back(a, b, j, lo, hi, edge, prec.vertex_precision.0))
}
proof fn lemma_mesh_back_join(a: MeshV, b: MeshV, c: MeshV, d: MeshV, prec: TMFPrecisionInfo)
    requires mesh_back(a, b, prec), mesh_back(c, d, prec),
    ensures mesh_back(join(a, c), join(b, d), prec),
{
    lemma_each(a.v, b.v, c.v, d.v, |a: Vector3, b: Vector3| true);
    lemma_each(a.n, b.n, c.n, d.n, |a: Vector3, b: Vector3| norm_back(a, b, prec.normal_precision.0));
    lemma_each(a.u, b.u, c.u, d.u, |a: Vector2, b: Vector2| uv_back(a, b, c63(prec.uv_prec.0)));
    lemma_each(a.t, b.t, c.t, d.t, |a: Tangent, b: Tangent| tan_back(a, b, prec.tangent_prec.0.0));
    assert forall|i: int| 0 <= i < (a.c + c.c).len() implies cust_back(#[trigger] (a.c + c.c)[i], (b.c + d.c)[i]) by {
        if i < a.c.len() { assert(cust_back(a.c[i], b.c[i])); } else { assert(cust_back(c.c[i - a.c.len()], d.c[i - a.c.len()])); }
    }
}
/// d is what the segment s is read as after it was written
proof fn lemma_seg_back(x: Seg, s: DecodedSegment, d: DecodedSegment, prec: TMFPrecisionInfo, edge: f32)
    requires enc_seg(x, s, prec, edge), seg_decoded(x.d, x.k, x.c, true, d),
    ensures
        mesh_back(part(s), part(d), prec),
        forall|j: int, lo: real, hi: real| 0 <= j < 3 && box_ok(lo, hi) && #[trigger] boxed(part(s).v, j, lo, hi) ==> verts_back(part(s), part(d), prec, j, lo, hi, edge),
{
    let no = Seq::<u8>::empty();
    let e = x.d;
    assert(e + no =~= e);
    match (s, d) {
        (DecodedSegment::Nothing, DecodedSegment::Nothing) => {},
        (DecodedSegment::AppendVertex(a), DecodedSegment::AppendVertex(b)) => {
            let p = prec.vertex_precision.0;
            theorem_vx_roundtrip(e, no, a@, edge, p, b@);
            let (h0, h1, h2) = choose|x: Axis, y: Axis, z: Axis| #[trigger] vx_close(a@, b@, edge, p, x, y, z);
            assert forall|j: int, lo: real, hi: real| 0 <= j < 3 && box_ok(lo, hi) && #[trigger] boxed(part(s).v, j, lo, hi) implies verts_back(part(s), part(d), prec, j, lo, hi, edge) by {
                lemma_axis(a@, b@, if j == 0 { h0 } else if j == 1 { h1 } else { h2 }, j, lo, hi, edge, p);
            }
        },
        (DecodedSegment::AppendNormal(a), DecodedSegment::AppendNormal(b)) => { theorem_norm_roundtrip(e, no, a@, prec.normal_precision.0, b@); },
        (DecodedSegment::AppendUV(a), DecodedSegment::AppendUV(b)) => { theorem_uv_roundtrip(e, no, a@, c63(prec.uv_prec.0), b@); },
        (DecodedSegment::AppendTangent(a), DecodedSegment::AppendTangent(b)) => { theorem_tan_roundtrip(e, no, a@, prec.tangent_prec.0.0, b@); },
        (DecodedSegment::AppendTriangleVertex(a), DecodedSegment::AppendTriangleVertex(b)) => { lemma_tri_back(e, a@, b@); },
        (DecodedSegment::AppendTriangleNormal(a), DecodedSegment::AppendTriangleNormal(b)) => { lemma_tri_back(e, a@, b@); },
        (DecodedSegment::AppendTriangleUV(a), DecodedSegment::AppendTriangleUV(b)) => { lemma_tri_back(e, a@, b@); },
        (DecodedSegment::AppendTriangleTangent(a), DecodedSegment::AppendTriangleTangent(b)) => { lemma_tri_back(e, a@, b@); },
        (DecodedSegment::SharedTriangleSegment(k, a), DecodedSegment::SharedTriangleSegment(l, b)) => { lemma_tri_back(e.skip(1), a@, b@); assert(k.mask == l.mask); },
        (DecodedSegment::AppendCustom(a), DecodedSegment::AppendCustom(b)) => { theorem_custom_roundtrip(e, no, a, b); },
        _ => { assert(seg_kind(s) == seg_kind(d)); assert(false); },
    }
}
proof fn lemma_tri_back(e: Seq<u8>, s: Seq<u32>, r: Seq<u32>)
    requires is_tri(e, s), is_tri_decoded(e, true, r),
    ensures r == s,
{
    let no = Seq::<u8>::empty();
    assert(e + no =~= e);
    let v = choose|v: Seq<u64>| #[trigger] tri_decoded(e, true, r, v);
    theorem_tri_roundtrip(e, no, s, r, v);
}
/// d are what the segments s are read as after they were written
proof fn lemma_segs_back(l: Seq<Seg>, s: Seq<DecodedSegment>, d: Seq<DecodedSegment>, prec: TMFPrecisionInfo, edge: f32)
    requires enc_segs(l, s, prec, edge), dec_of(l, false, d),
    ensures
        mesh_back(parts(s), parts(d), prec),
        forall|j: int, lo: real, hi: real| 0 <= j < 3 && box_ok(lo, hi) && #[trigger] boxed(parts(s).v, j, lo, hi) ==> verts_back(parts(s), parts(d), prec, j, lo, hi, edge),
    decreases l.len(),
{
    hide(join); hide(part); hide(enc_seg); hide(seg_decoded); hide(mesh_back);
    if l.len() > 0 {
        let (l1, s1, d1) = (l.drop_last(), s.drop_last(), d.drop_last());
        assert forall|i: int| 0 <= i < l1.len() implies enc_seg(#[trigger] l1[i], s1[i], prec, edge) by { assert(l1[i] == l[i]); }
        assert forall|i: int| 0 <= i < l1.len() implies seg_decoded(#[trigger] l1[i].d, l1[i].k, l1[i].c, hm(false), d1[i]) by { assert(l1[i] == l[i]); }
        lemma_segs_back(l1, s1, d1, prec, edge);
        assert(enc_seg(l[l.len() - 1], s.last(), prec, edge));
        assert(seg_decoded(l[l.len() - 1].d, l.last().k, l.last().c, hm(false), d.last()));
        lemma_seg_back(l.last(), s.last(), d.last(), prec, edge);
        lemma_mesh_back_join(parts(s1), parts(d1), part(s.last()), part(d.last()), prec);
        assert forall|j: int, lo: real, hi: real| 0 <= j < 3 && box_ok(lo, hi) && #[trigger] boxed(parts(s).v, j, lo, hi) implies verts_back(parts(s), parts(d), prec, j, lo, hi, edge) by {
            lemma_boxed_join(parts(s1), part(s.last()), j, lo, hi);
            let p = |a: Vector3, b: Vector3| vert_back(a, b, j, lo, hi, edge, prec.vertex_precision.0);
            lemma_each(parts(s1).v, parts(d1).v, part(s.last()).v, part(d.last()).v, p);
            assert(parts(s).v == ocat(parts(s1).v, part(s.last()).v)) by { reveal(join); }
            assert(parts(d).v == ocat(parts(d1).v, part(d.last()).v)) by { reveal(join); }
        }
    } else {
        lemma_parts_empty();
        assert(mesh_back(empty_mesh(), empty_mesh(), prec)) by { reveal(mesh_back); }
    }
}
proof fn lemma_boxed_join(a: MeshV, b: MeshV, j: int, lo: real, hi: real)
    requires boxed(join(a, b).v, j, lo, hi),
    ensures boxed(a.v, j, lo, hi), boxed(b.v, j, lo, hi),
{
    if a.v is Some && b.v is Some {
        let (x, y) = (a.v->Some_0, b.v->Some_0);
        assert(in_box(x + y, j, lo, hi));
        assert forall|i: int| 0 <= i < x.len() implies fin(ax(#[trigger] x[i], j)) && lo <= rv(ax(x[i], j)) <= hi by { assert((x + y)[i] == x[i]); }
        assert forall|i: int| 0 <= i < y.len() implies fin(ax(#[trigger] y[i], j)) && lo <= rv(ax(y[i], j)) <= hi by { assert((x + y)[x.len() + i] == y[i]); }
    }
}
/// a mesh and what it comes back as
pub open spec fn same_mesh(m: MeshV, r: MeshV, prec: TMFPrecisionInfo, edge: f32) -> bool {
    &&& edge_ok(edge, m.vt, m.v)
    &&& mesh_back(m, r, prec)
    &&& forall|j: int, lo: real, hi: real| 0 <= j < 3 && box_ok(lo, hi) && #[trigger] boxed(m.v, j, lo, hi) ==> verts_back(m, r, prec, j, lo, hi, edge)
}
pub open spec fn comes_back<S: BorrowVx<str>>(a: (TMFMesh, S), b: (TMFMesh, String), prec: TMFPrecisionInfo) -> bool {
    b.1@ == a.1.borrowed()@ && b.0.wf() && exists|edge: f32| #[trigger] same_mesh(a.0@, b.0@, prec, edge)
}
pub open spec fn all_come_back<S: BorrowVx<str>>(l: Seq<(TMFMesh, S)>, r: Seq<(TMFMesh, String)>, prec: TMFPrecisionInfo) -> bool {
    r.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> comes_back(#[trigger] l[i], r[i], prec)
}
/// C02 .. C06, C13, C14: what is read from a file that was written is what was written, up to the precision asked for
pub proof fn theorem_roundtrip<S: BorrowVx<str>>(ms: Seq<MeshX>, l: Seq<(TMFMesh, S)>, prec: TMFPrecisionInfo, tail: Seq<u8>, n: int, wide: bool, ms1: Seq<MeshX>, r: Seq<(TMFMesh, String)>)
    requires
        file_saved(ms, l, prec), l.len() <= u32::MAX,
        file_at(file_bytes(ms) + tail, n, wide, ms1), meshes_are(ms1, wide, r),
    ensures n == file_bytes(ms).len(), all_come_back(l, r, prec),
{
    hide(file_at); hide(same_mesh);
    assert forall|i: int| 0 <= i < ms.len() implies mesh_fits(#[trigger] ms[i]) by { assert(mesh_saved(ms[i], l[i].0@, l[i].1.borrowed()@, prec)); }
    theorem_file(ms, tail);
    theorem_file_det(file_bytes(ms) + tail, n, wide, ms1, file_bytes(ms).len() as int, false, ms);
    assert forall|i: int| 0 <= i < l.len() implies comes_back(#[trigger] l[i], r[i], prec) by {
        assert(mesh_saved(ms[i], l[i].0@, l[i].1.borrowed()@, prec));
        assert(mesh_is(ms[i], false, r[i]));
        let (s, edge) = choose|s: Seq<DecodedSegment>, edge: f32| #[trigger] enc_segs(ms[i].l, s, prec, edge) && parts(s) == l[i].0@ && edge_ok(edge, l[i].0@.vt, l[i].0@.v);
        let dec = choose|dec: Seq<DecodedSegment>| #[trigger] dec_of(ms[i].l, false, dec) && r[i].0@ == parts(dec);
        lemma_segs_back(ms[i].l, s, dec, prec, edge);
        assert(same_mesh(l[i].0@, r[i].0@, prec, edge)) by { reveal(same_mesh); }
    }
}
/// the contracts fit together: saving and loading, as a program would do it
fn save_and_load<S: BorrowVx<str>>(l: &[(TMFMesh, S)], prec: &TMFPrecisionInfo) -> (ret: bool)
    requires prec_wf(*prec), can_write(l@), small_all(l@),
{
    let mut file: Vec<u8> = Vec::new();
    let w = TMFMesh::write_tmf(l, &mut file, prec);
    if w.is_err() {
        assert(cannot_save_all(l@, *prec)); // nothing else can keep a mesh from being saved
        return false;
    }
    let ghost ms = choose|ms: Seq<MeshX>| #[trigger] file_saved(ms, l@, *prec) && file.sunk() == Seq::<u8>::empty() + file_bytes(ms);
    let mut rd: &[u8] = file.as_slice();
    proof {
        assert(file_bytes(ms) + Seq::<u8>::empty() =~= rd.rest());
        theorem_loads(ms, l@, *prec, Seq::empty());
    }
    let ghost src = rd.rest();
    match TMFMesh::read_tmf(&mut rd) {
        Ok(r) => {
            proof {
                let (n, wide, ms1) = choose|n: int, wide: bool, ms1: Seq<MeshX>| #[trigger] file_at(src, n, wide, ms1) && meshes_are(ms1, wide, r@);
                theorem_roundtrip(ms, l@, *prec, Seq::empty(), n, wide, ms1, r@);
                assert(all_come_back(l@, r@, *prec));
            }
            true
        }
        Err(_) => { assert(false); false } // what was saved can be loaded
    }
}
}
