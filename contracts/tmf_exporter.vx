//@ source src/tmf_exporter.rs
pub mod tmf_exporter {
global layout f64 is size == 8, align == 8;
use vstd::prelude::*;
use crate::vf::*;
use crate::vbits::*;
use crate::fl::*;
use crate::utilis::*;
use crate::mesh::*;
use crate::tmf::*;
use crate::vio::Write;
use crate::read_extension::*;
use crate::tmf_importer::*;
use crate::vertices::ax;
use vstd::std_specs::ops::*;
use crate::*;
//@ item struct EncodeInfo
//@ fn EncodeInfo::shortest_edge
//@ spec
    ensures ret == self.shortest_edge,
//@ end
/// the pieces, one after the other
pub open spec fn cat<T>(s: Seq<&[T]>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last()@ }
}
pub proof fn lemma_cat_push<T>(s: Seq<&[T]>, x: &[T])
    ensures cat(s.push(x)) == cat(s) + x@,
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_cat_cat<T>(s: Seq<&[T]>, t: Seq<&[T]>)
    ensures cat(s + t) == cat(s) + cat(t),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(cat(s) + cat(t) =~= cat(s));
    } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        lemma_cat_cat(s, t.drop_last());
        assert(cat(s) + cat(t.drop_last()) + t.last()@ =~= cat(s) + (cat(t.drop_last()) + t.last()@));
    }
}
pub proof fn lemma_cat_one<T>(x: &[T])
    ensures cat(seq![x]) == x@, forall|s: Seq<&[T]>| s.len() == 0 ==> #[trigger] cat(s) == Seq::<T>::empty(),
{
    lemma_cat_push(Seq::empty(), x);
    assert(Seq::empty().push(x) =~= seq![x]);
    assert(Seq::empty() + x@ =~= x@);
}
//@ item const TMF_SEG_SIZE exec=6
//@ fn calc_spilt_score
//@ spec
    requires delta_span.0 >= delta_span.1, len < 0x40_0000_0000_0000,
//@ begin
    proof {
        assert forall|n: nat| #[trigger] fits(delta_span.0 as u64, n) implies fits(delta_span.1 as u64, n) by {}
    }
//@ after-let gain_bits
    proof { assert(gain_bits * len <= 64 * len) by (nonlinear_arith) requires gain_bits <= 64; }
//@ end
//@ fn find_best_triangle_split
//@ spec
    ensures ret matches Some(i) ==> i < triangles@.len(),
//@ begin
    proof { axiom_slice_len(triangles); }
//@ loop 1
        invariant
            triangles@.len() < 0x40_0000_0000_0000, 
            forall|i: int| 0 <= i < triangles@.len() ==> *total_max >= #[trigger] triangles@[i],
            max_index <= *total_max || max_index == 0, 
            best_score > 0 ==> best_index < triangles@.len(),
//@ loop 2
        invariant
            triangles@.len() < 0x40_0000_0000_0000,
            forall|i: int| 0 <= i < triangles@.len() ==> *total_min <= #[trigger] triangles@[i],
            min_index >= *total_min || min_index == u32::MAX,
            best_score > 0 ==> best_index < triangles@.len(),
//@ end
//@ fn opt_tris
//@ before-loop 1
    proof { lemma_cat_one(triangles); assert(remaining@.reverse() =~= seq![triangles]); assert(cat(res@) + triangles@ =~= triangles@); }
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ spec
    ensures cat(ret@) == triangles@, 1 <= ret@.len() <= MAX_TRIANGLE_SPLITS,
//@ loop 1
        invariant_except_break
            cat(res@) + cat(remaining@.reverse()) == triangles@, 
            1 <= res@.len() + remaining@.len() <= MAX_TRIANGLE_SPLITS,
        ensures
            cat(res@) == triangles@, 1 <= res@.len() <= MAX_TRIANGLE_SPLITS,
        decreases MAX_TRIANGLE_SPLITS - res@.len() - remaining@.len(), remaining@.len(),
//@ loop-head 1
        let ghost pre = remaining@;
        let ghost res0 = res@;
//@ loop-begin 1
        let ghost rem = remaining@;
        proof {
            assert(rem.push(part) =~= pre);
            assert(pre.reverse() =~= seq![part] + rem.reverse());
            lemma_cat_cat(seq![part], rem.reverse());
            lemma_cat_one(part);
        }
//@ loop-end 1
        proof {
            if res@.len() > res0.len() {
                lemma_cat_push(res0, part);
                assert(cat(res0) + (part@ + cat(rem.reverse())) =~= cat(res0) + part@ + cat(rem.reverse()));
            } else {
                let s2 = remaining@[rem.len() as int];
                let s1 = remaining@[rem.len() as int + 1];
                assert(remaining@.reverse() =~= seq![s1, s2] + rem.reverse());
                lemma_cat_cat(seq![s1, s2], rem.reverse());
                lemma_cat_one(s1);
                lemma_cat_push(seq![s1], s2);
                assert(seq![s1].push(s2) =~= seq![s1, s2]);
                assert(s1@ + s2@ =~= part@);
            }
        }
//@ end
// ---------------------------------------------------------------- splitting vertices
type Span = core::ops::Range<Vector3>;
/// the span contains the origin
pub open spec fn span_ok(s: Span) -> bool {
    forall|j: int| 0 <= j < 3 ==> ord(#[trigger] ax(s.start, j), 0.0f32) && ord(0.0f32, ax(s.end, j))
}
pub open spec fn span_in(s: Span, t: Span) -> bool {
    forall|j: int| 0 <= j < 3 ==> ord(#[trigger] ax(t.start, j), ax(s.start, j)) && ord(ax(s.end, j), ax(t.end, j))
}
/// nothing of the point that is a number sticks out of the span
pub open spec fn covers(s: Span, p: Vector3) -> bool {
    forall|j: int| 0 <= j < 3 ==> nan(#[trigger] ax(p, j)) || (ord(ax(s.start, j), ax(p, j)) && ord(ax(p, j), ax(s.end, j)))
}
pub open spec fn covers_all(s: Span, v: Seq<Vector3>) -> bool { forall|i: int| 0 <= i < v.len() ==> covers(s, #[trigger] v[i]) }
/// every span that contains the origin and all points contains s
pub open spec fn hull(s: Span, v: Seq<Vector3>) -> bool { forall|t: Span| span_ok(t) && #[trigger] covers_all(t, v) ==> span_in(s, t) }
pub open spec fn span_bits(s: Span, e: f32, b: u32) -> bool {
    exists|dx: f32, dy: f32, x: u8, y: u8, z: u8| #[trigger] span_bits_by(s, e, b, dx, dy, x, y, z)
}
pub open spec fn span_bits_by(s: Span, e: f32, b: u32, dx: f32, dy: f32, x: u8, y: u8, z: u8) -> bool {
    &&& sub_ensures::<f32>(s.end.0, s.start.0, dx) && sub_ensures::<f32>(s.end.1, s.start.1, dy)
    &&& bits_of(e, dx, x) && bits_of(e, dy, y) && bits_of(e, dy, z) && b == x + y + z
}
pub proof fn lemma_span_bits(s: Span, t: Span, e: f32, b: u32, c: u32)
    requires span_bits(s, e, b), span_bits(t, e, c), span_ok(s), span_ok(t), span_in(s, t), fin(e), rv(e) > 0real,
    ensures b <= c <= 765,
{
    let (dx, dy, x, y, z) = choose|dx: f32, dy: f32, x: u8, y: u8, z: u8| #[trigger] span_bits_by(s, e, b, dx, dy, x, y, z);
    let (dx2, dy2, x2, y2, z2) = choose|dx: f32, dy: f32, x: u8, y: u8, z: u8| #[trigger] span_bits_by(t, e, c, dx, dy, x, y, z);
    assert(ord(ax(t.start, 0), ax(s.start, 0)) && ord(ax(t.start, 1), ax(s.start, 1)));
    assert(ord(ax(s.start, 0), 0.0f32) && ord(ax(s.start, 1), 0.0f32));
    ax_sub_mono(s.end.0, s.start.0, dx, t.end.0, t.start.0, dx2);
    ax_sub_mono(s.end.1, s.start.1, dy, t.end.1, t.start.1, dy2);
    lemma_bits_mono(e, dx, x, dx2, x2);
    lemma_bits_mono(e, dy, y, dy2, y2);
    lemma_bits_mono(e, dy, z, dy2, z2);
}
pub proof fn lemma_covers_in(s: Span, t: Span, p: Vector3)
    requires span_in(s, t), covers(s, p),
    ensures covers(t, p),
{
    broadcast use {ax_inf, ax_kinds};
    assert forall|j: int| 0 <= j < 3 implies nan(#[trigger] ax(p, j)) || (ord(ax(t.start, j), ax(p, j)) && ord(ax(p, j), ax(t.end, j))) by {
        assert(ord(ax(t.start, j), ax(s.start, j)));
        if !nan(ax(p, j)) {
            assert(ord(ax(s.start, j), ax(p, j)));
            lemma_ord(ax(t.start, j), ax(s.start, j), ax(p, j));
            lemma_ord(ax(p, j), ax(s.end, j), ax(t.end, j));
        }
    }
}
pub proof fn lemma_span_in(s: Span, t: Span, u: Span)
    requires span_in(s, t), span_in(t, u),
    ensures span_in(s, u),
{
    broadcast use {ax_inf, ax_kinds};
    assert forall|j: int| 0 <= j < 3 implies ord(#[trigger] ax(u.start, j), ax(s.start, j)) && ord(ax(s.end, j), ax(u.end, j)) by {
        assert(ord(ax(t.start, j), ax(s.start, j)));
        assert(ord(ax(u.start, j), ax(t.start, j)));
        lemma_ord(ax(u.start, j), ax(t.start, j), ax(s.start, j));
        lemma_ord(ax(s.end, j), ax(t.end, j), ax(u.end, j));
    }
}
/// r is s extended to p
pub open spec fn expanded(s: Span, p: Vector3, r: Span) -> bool {
    &&& span_ok(s) ==> span_ok(r) && span_in(s, r) && covers(r, p)
    &&& forall|t: Span| span_ok(s) && span_ok(t) && span_in(s, t) && #[trigger] covers(t, p) ==> span_in(r, t)
}
pub proof fn lemma_expanded(s: Span, p: Vector3, r: Span, v: Seq<Vector3>, i: int)
    requires 0 <= i < v.len(), v[i] == p, span_ok(s), expanded(s, p, r), covers_all(s, v.take(i)),
    ensures covers_all(r, v.take(i + 1)), span_ok(r), hull(s, v.take(i)) ==> hull(r, v.take(i + 1)),
{
    let w = v.take(i + 1);
    assert(w.take(i) =~= v.take(i));
    assert forall|k: int| 0 <= k < w.len() implies covers(r, #[trigger] w[k]) by {
        if k < i { assert(covers(s, v.take(i)[k])); lemma_covers_in(s, r, w[k]); }
    }
    if hull(s, v.take(i)) {
        assert forall|t: Span| span_ok(t) && #[trigger] covers_all(t, w) implies span_in(r, t) by {
            assert forall|k: int| 0 <= k < i implies covers(t, #[trigger] v.take(i)[k]) by { assert(covers(t, w[k])); }
            assert(covers_all(t, v.take(i)));
            assert(covers(t, w[i]));
        }
    }
}
//@ fn range_to_vertex_bit_count
//@ spec
    ensures span_bits(span, shortest_edge, ret),
//@ begin
    broadcast use {group_req, lemma_bits_of_b};
//@ ret-bind
    proof {
        assert(bits_of(shortest_edge, dx, prec_x));
        assert(bits_of(shortest_edge, dy, prec_y));
        assert(bits_of(shortest_edge, dy, prec_z));
        assert(span_bits_by(span, shortest_edge, ret__, dx, dy, prec_x, prec_y, prec_z));
    }
//@ end
//@ fn expand_vertex_span
//@ spec
    ensures expanded(span, point, ret),
//@ begin
    broadcast use {ax_inf, ax_kinds};
    let ghost span0 = span;
//@ tail
    proof {
        let r = min..max;
        if span_ok(span0) {
            assert forall|j: int| 0 <= j < 3 implies ord(#[trigger] ax(r.start, j), 0.0f32) && ord(0.0f32, ax(r.end, j))
                && ord(ax(r.start, j), ax(span0.start, j)) && ord(ax(span0.end, j), ax(r.end, j))
                && (nan(ax(point, j)) || (ord(ax(r.start, j), ax(point, j)) && ord(ax(point, j), ax(r.end, j)))) by {
                assert(ord(ax(span0.start, j), 0.0f32));
                assert(fmin_is(ax(span0.start, j), ax(point, j), ax(min, j)));
                assert(fmax_is(ax(span0.end, j), ax(point, j), ax(max, j)));
            }
            assert forall|t: Span| span_ok(t) && span_in(span0, t) && #[trigger] covers(t, point) implies span_in(r, t) by {
                assert forall|j: int| 0 <= j < 3 implies ord(#[trigger] ax(t.start, j), ax(r.start, j)) && ord(ax(r.end, j), ax(t.end, j)) by {
                    let (p, a, b) = (ax(point, j), ax(span0.start, j), ax(span0.end, j));
                    assert(ord(a, 0.0f32) && ord(0.0f32, b));
                    assert(nan(p) || (ord(ax(t.start, j), p) && ord(p, ax(t.end, j))));
                    assert(span_in(span0, t));
                    assert(ord(ax(t.start, j), ax(span0.start, j)));
                    assert(ord(b, ax(t.end, j)));
                    assert(fmin_is(ax(span0.start, j), ax(point, j), ax(min, j)));
                    assert(fmax_is(ax(span0.end, j), ax(point, j), ax(max, j)));
                }
            }
        }
    }
//@ end
//@ fn inside_span
//@ spec
    ensures ret ==> covers(*span, *item), ret ==> !ord(span.end.0, span.start.0),
//@ begin
    broadcast use {ax_inf, ax_kinds, ax_lt_ord};
//@ end
//@ fn find_best_vertex_spilt
//@ subst `.clone` => `.clone_vx`
//@ spec
    requires fin(shortest_edge), rv(shortest_edge) > 0real,
    ensures ret matches Some(i) ==> 1 <= i < vertices@.len() - 1,
//@ begin
    broadcast use {ax_inf, ax_kinds, vstd::layout::layout_of_primitives};
    proof { assert(vstd::layout::size_of::<u64>() == 8); assert(vstd::layout::size_of::<u8>() == 1); assert(vstd::layout::size_of::<f64>() == 8); axiom_slice_len_v(vertices); ax_lit(); }
//@ loop 1
        invariant
            span_ok(total_span), covers_all(total_span, vertices@.take(it1.index@)), hull(total_span, vertices@.take(it1.index@)),
//@ loop-head 1
        let ghost span1 = total_span;
//@ loop-end 1
        proof { lemma_expanded(span1, *point, total_span, vertices@, it1.index@); }
//@ after-loop 1
    proof { assert(vertices@.take(vertices@.len() as int) =~= vertices@); }
//@ loop 2
        invariant
            vertices@.len() < 0x15_5555_5555_5556,
            fin(shortest_edge), rv(shortest_edge) > 0real,
            span_ok(total_span), covers_all(total_span, vertices@), hull(total_span, vertices@),
            span_bits(total_span, shortest_edge, total_per_vertex_bit_count),
            span_ok(min_span), covers_all(min_span, vertices@.take(index as int)), span_in(min_span, total_span),
            if index == 0 { ord(min_span.end.0, min_span.start.0) } else { span_bits(min_span, shortest_edge, per_vertex_bit_count) },
            best_split_score > 0 ==> 1 <= best_split_index < vertices@.len() - 1,
//@ loop-head 2
        let ghost span2 = min_span;
//@ loop-end 2
        proof {
            let v = vertices@;
            let i = index as int;
            assert(covers(total_span, v[i]));
            if span2 != min_span { lemma_expanded(span2, v[i], min_span, v, i); }
            else {
                assert forall|k: int| 0 <= k < i + 1 implies covers(min_span, #[trigger] v.take(i + 1)[k]) by { if k < i { assert(covers(min_span, v.take(i)[k])); } }
            }
        }
//@ before `let gain_per_vert`
            proof {
                let v = vertices@;
                lemma_span_bits(min_span, total_span, shortest_edge, per_vertex_bit_count, total_per_vertex_bit_count);
                if index == v.len() - 1 {
                    assert forall|k: int| 0 <= k < v.len() implies covers(min_span, #[trigger] v[k]) by { if k < index { assert(covers(min_span, v.take(index as int)[k])); } }
                    assert(covers_all(min_span, v));
                    lemma_span_bits(total_span, min_span, shortest_edge, total_per_vertex_bit_count, per_vertex_bit_count);
                }
            }
//@ after-let gain_per_vert
            proof {
                assert(index * (gain_per_vert as usize) <= 0x15_5555_5555_5556 * 765) by (nonlinear_arith) requires index < 0x15_5555_5555_5556, gain_per_vert <= 765;
                assert(gain_per_vert == 0 || index == 0 ==> index * (gain_per_vert as usize) == 0) by (nonlinear_arith);
            }
//@ end
//@ fn opt_vertices
//@ spec
    ensures cat(ret@) == vertices@, 1 <= ret@.len(),
    decreases vertices@.len(),
//@ begin
    proof { ax_lit(); lemma_cat_one(vertices); }
//@ ret-bind
    proof { if split_pos is None { assert(ret__@ =~= seq![vertices]); } }
//@ loop 1
        invariant
            res@ == r_0@.take(it1.index@),
//@ loop-begin 1
            proof { assert(r_0@.take(it1.index@ + 1) =~= r_0@.take(it1.index@).push(seg)); }
//@ after-loop 1
        let ghost all0 = res@;
        proof { assert(r_0@.take(r_0@.len() as int) =~= r_0@); }
//@ loop 2
        invariant
            res@ == all0 + r_1@.take(it2.index@),
//@ loop-begin 2
            proof { assert(all0 + r_1@.take(it2.index@ + 1) =~= (all0 + r_1@.take(it2.index@)).push(seg)); }
//@ after-loop 2
        proof { 
            assert(r_1@.take(r_1@.len() as int) =~= r_1@);
            lemma_cat_cat(all0, r_1@);
            assert(i0@ + i1@ =~= vertices@);
            assert(cat(res@) == vertices@);
            assert(res@.len() >= 1);
        }
//@ end
//@ item const MAX_TRIANGLE_SPLITS
// ---------------------------------------------------------------- names and headers
pub open spec fn name_bytes(s: Seq<char>) -> Seq<u8> { le2(vstd::utf8::encode_utf8(s).len() as u16) + vstd::utf8::encode_utf8(s) }
pub open spec fn name_fits(s: Seq<char>) -> bool { vstd::utf8::encode_utf8(s).len() <= 65535 }
//@ fn write_mesh_name
//@ spec
    ensures
        put(old(w), final(w), ret is Ok, name_bytes(s@)),
        ret is Ok ==> name_fits(s@),
        old(w).infallible() && name_fits(s@) ==> ret is Ok,
//@ ret-bind
    proof { if ret__ is Ok { assert(w.sunk() =~= (*old(w)).sunk() + name_bytes(s@)); } }
//@ end
pub open spec fn head_bytes(n: u32) -> Seq<u8> { tmf_magic() + le2(TMF_MAJOR) + le2(TMF_MINOR) + le2(MIN_TMF_MAJOR) + le2(MIN_TMF_MINOR) + le4(n) }
//@ fn write_tmf_header
//@ spec
    ensures
        put(old(w), final(w), ret is Ok, head_bytes(mesh_count)),
        old(w).infallible() ==> ret is Ok,
//@ ret-bind
    proof { if ret__ is Ok { assert(w.sunk() =~= (*old(w)).sunk() + head_bytes(mesh_count)); } }
//@ end
// ---------------------------------------------------------------- the shortest edge
/// e is not longer than any side of triangle i
pub open spec fn edge_of(e: f32, vt: Seq<IndexType>, v: Seq<Vector3>, i: int) -> bool {
    let (a, b, c) = (v[vt[3 * i] as int], v[vt[3 * i + 1] as int], v[vt[3 * i + 2] as int]);
    not_longer(e, a, b) && not_longer(e, b, c) && not_longer(e, c, a)
}
/// e is not longer than any side of any triangle
pub open spec fn edge_ok(e: f32, vt: Option<Seq<IndexType>>, v: Option<Seq<Vector3>>) -> bool {
    &&& fin(e)
    &&& match (vt, v) {
        (Some(vt), Some(v)) => forall|i: int| 0 <= i < vt.len() / 3 ==> #[trigger] edge_of(e, vt, v, i),
        _ => e == 0.1f32,
    }
}
pub open spec fn in_bounds(vt: Option<Seq<IndexType>>, v: Option<Seq<Vector3>>) -> bool {
    match (vt, v) { (Some(vt), Some(v)) => all_in(v, vt), _ => true }
}
/// what a length may be
pub open spec fn len_ok(x: f32) -> bool { !ninf(x) && (fin(x) ==> rv(x) >= 0real) }
pub open spec fn shorter(r: f32, d: f32) -> bool { fin(d) ==> fin(r) && rv(r) <= rv(d) }
pub broadcast proof fn lemma_min_len(d: f32, e: f32, r: f32)
    requires #[trigger] fmin_is(d, e, r), len_ok(d), len_ok(e),
    ensures len_ok(r), nan(r) ==> nan(d) && nan(e), shorter(r, d), shorter(r, e),
{
    broadcast use {ax_kinds};
}
pub proof fn lemma_shorter(r: f32, d: f32, a: Vector3, b: Vector3)
    requires shorter(r, d), len_ok(r), len_ok(d), not_longer(d, a, b),
    ensures not_longer(r, a, b),
{
    if fin(d) {
        assert(rv(r) * rv(r) <= rv(d) * rv(d)) by (nonlinear_arith) requires 0real <= rv(r) <= rv(d);
    }
}
pub proof fn lemma_edges(s0: f32, x: f32, y: f32, z: f32, s1: f32, vt: Seq<IndexType>, v: Seq<Vector3>, i: int)
    requires
        len_ok(s0), len_ok(x), len_ok(y), len_ok(z), len_ok(s1), shorter(s1, s0), shorter(s1, x), shorter(s1, y), shorter(s1, z), i >= 0,
        forall|j: int| 0 <= j < i ==> #[trigger] edge_of(s0, vt, v, j),
        not_longer(x, v[vt[3 * i] as int], v[vt[3 * i + 1] as int]),
        not_longer(y, v[vt[3 * i + 1] as int], v[vt[3 * i + 2] as int]),
        not_longer(z, v[vt[3 * i + 2] as int], v[vt[3 * i] as int]),
    ensures forall|j: int| 0 <= j < i + 1 ==> #[trigger] edge_of(s1, vt, v, j),
{
    assert forall|j: int| 0 <= j < i + 1 implies #[trigger] edge_of(s1, vt, v, j) by {
        let (a, b, c) = (v[vt[3 * j] as int], v[vt[3 * j + 1] as int], v[vt[3 * j + 2] as int]);
        if j == i {
            lemma_shorter(s1, x, a, b);
            lemma_shorter(s1, y, b, c);
            lemma_shorter(s1, z, c, a);
        } else {
            assert(edge_of(s0, vt, v, j));
            lemma_shorter(s1, s0, a, b);
            lemma_shorter(s1, s0, b, c);
            lemma_shorter(s1, s0, c, a);
        }
    }
}
//@ fn calc_shortest_edge
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires in_bounds(ob(vertex_triangles), ob(vertices)),
    ensures edge_ok(ret, ob(vertex_triangles), ob(vertices)),
//@ begin
    broadcast use {lemma_min_len, ax_kinds};
    proof { ax_lit(); }
//@ loop 1
                invariant
                    !nan(shortest_edge), len_ok(shortest_edge),
                    forall|j: int| 0 <= j < i ==> #[trigger] edge_of(shortest_edge, vertex_triangles@, vertices@, j),
//@ loop-begin 1
                proof {
                    assert(3 * i + 2 < vertex_triangles@.len());
                    assert(vertex_triangles@[3 * i] < vertices@.len() && vertex_triangles@[3 * i + 1] < vertices@.len() && vertex_triangles@[3 * i + 2] < vertices@.len());
                }
                let ghost s0 = shortest_edge;
//@ loop-end 1
                proof { lemma_edges(s0, d1, d2, d3, shortest_edge, vertex_triangles@, vertices@, i as int); }
//@ tail
    proof {
        if let (Some(vt), Some(v)) = (ob(vertex_triangles), ob(vertices)) {
            assert forall|i: int| 0 <= i < vt.len() / 3 && !fin(shortest_edge) implies #[trigger] edge_of(0.1f32, vt, v, i) by { assert(edge_of(shortest_edge, vt, v, i)); }
        }
    }
//@ end
// ---------------------------------------------------------------- the segments of a mesh
//@ item struct MeshSegIter
/// what the items after the k first ones contribute
pub open spec fn after(m: MeshV, k: int) -> MeshV {
    MeshV {
        v: if k < 1 { m.v } else { None }, n: if k < 2 { m.n } else { None }, u: if k < 3 { m.u } else { None },
        vt: if k < 4 { m.vt } else { None }, nt: if k < 5 { m.nt } else { None }, ut: if k < 6 { m.ut } else { None },
        t: if k < 7 { m.t } else { None }, tt: if k < 8 { m.tt } else { None },
        c: if k < 8 { m.c } else { m.c.skip(k - 8) },
    }
}
//@ fn MeshSegIter::tmf_segs
//@ spec
    ensures ret.mesh == mesh, ret.item == 0,
//@ end
//@ fn MeshSegIter as Iterator::next inherent
//@ spec
    requires old(self).item <= 8 + old(self).mesh.custom_data@.len(), old(self).mesh.custom_data@.len() <= isize::MAX,
    ensures
        final(self).mesh == old(self).mesh, old(self).item < final(self).item,
        ret is None ==> after(old(self).mesh@, old(self).item as int) == empty_mesh(),
        ret matches Some(s) ==> {
            &&& final(self).item <= 8 + old(self).mesh.custom_data@.len()
            &&& after(old(self).mesh@, old(self).item as int) == join(part(s), after(old(self).mesh@, final(self).item as int))
            &&& apart_v(part(s), after(old(self).mesh@, final(self).item as int))
            &&& !(s is SharedTriangleSegment) && !(s is Nothing)
            &&& old(self).mesh.wf() ==> seg_wf(s)
        },
    decreases (if old(self).item < 9 { 9 - old(self).item } else { 0 }),
//@ attr
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
//@ subst `.clone` => `.clone_vx`
//@ begin
        let ghost m = self.mesh@;
        let ghost k = self.item as int;
        proof { lemma_join(after(m, k), empty_mesh(), empty_mesh()); assert(Seq::<CustomDataSegment>::empty() + m.c =~= m.c); assert(m.c.skip(0) =~= m.c); if k == 8 + m.c.len() { assert(m.c.skip(k - 8) =~= Seq::empty()); } }
//@ ret-bind
        proof {
            if ret__ is Some && self.item >= 9 {
                assert(m.c.skip(self.item - 9) =~= seq![m.c[self.item - 9]] + m.c.skip(self.item - 8));
            }
        }
//@ end
pub open spec fn apart_v(a: MeshV, b: MeshV) -> bool { !(a.vt is Some && b.vt is Some) && !(a.nt is Some && b.nt is Some) }
/// no two segments belong to the same array of vertex or normal indices
pub open spec fn all_apart(s: Seq<DecodedSegment>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> apart(#[trigger] s[i], #[trigger] s[j])
}
/// Iterator::collect of a MeshSegIter
fn collect_segs(it: MeshSegIter<'_>) -> (ret: Box<[DecodedSegment]>)
    requires it.item == 0, 
    ensures
        parts(ret@) == it.mesh@, all_apart(ret@),
        it.mesh.wf() ==> forall|i: int| 0 <= i < ret@.len() ==> seg_wf(#[trigger] ret@[i]),
{
    let mut it = it;
    let ghost mesh = it.mesh;
    let mut v: Vec<DecodedSegment> = Vec::new();
    proof { axiom_vec_len(&mesh.custom_data); lemma_join(mesh@, empty_mesh(), empty_mesh()); }
    loop
        invariant_except_break
            it.mesh == mesh, it.item <= 8 + mesh.custom_data@.len(), mesh.custom_data@.len() <= isize::MAX,
            join(parts(v@), after(mesh@, it.item as int)) == mesh@,
            all_apart(v@), forall|i: int| 0 <= i < v@.len() ==> apart_v(part(#[trigger] v@[i]), after(mesh@, it.item as int)),
            mesh.wf() ==> forall|i: int| 0 <= i < v@.len() ==> seg_wf(#[trigger] v@[i]),
        ensures
            parts(v@) == mesh@, all_apart(v@), mesh.wf() ==> forall|i: int| 0 <= i < v@.len() ==> seg_wf(#[trigger] v@[i]),
        decreases 9 + mesh.custom_data@.len() - it.item,
    {
        let ghost k = it.item as int;
        let ghost v0 = v@;
        match it.next() {
            Some(s) => {
                proof {
                    let r = after(mesh@, it.item as int);
                    lemma_parts_push(v0, s);
                    lemma_join(parts(v0), part(s), r);
                }
                v.push(s);
            }
            None => { proof { lemma_join(parts(v0), empty_mesh(), empty_mesh()); } break; }
        }
    }
    v.into_vx()
}
// ---------------------------------------------------------------- merging
/// nothing is in both
pub open spec fn disjoint(a: MeshV, b: MeshV) -> bool {
    &&& !(a.v is Some && b.v is Some) && !(a.n is Some && b.n is Some) && !(a.u is Some && b.u is Some) && !(a.t is Some && b.t is Some)
    &&& !(a.vt is Some && b.vt is Some) && !(a.nt is Some && b.nt is Some) && !(a.ut is Some && b.ut is Some) && !(a.tt is Some && b.tt is Some)
    &&& a.c.len() == 0 || b.c.len() == 0
}
pub proof fn lemma_comm(a: MeshV, b: MeshV)
    requires disjoint(a, b),
    ensures join(a, b) == join(b, a),
{
    assert(a.c + b.c =~= b.c + a.c);
}
/// a segment with vertex or normal indices only, and segments which have none of these
proof fn lemma_apart_parts(o: DecodedSegment, s: Seq<DecodedSegment>)
    requires movable(o) is Some, forall|i: int| 0 <= i < s.len() ==> apart(o, #[trigger] s[i]),
    ensures disjoint(part(o), parts(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies apart(o, #[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_apart_parts(o, s.drop_last());
        assert(apart(o, s[s.len() - 1]));
    }
}
/// the last segment takes over segment i
proof fn lemma_merge_step(s: Seq<DecodedSegment>, i: int, x: DecodedSegment, y: DecodedSegment)
    requires
        0 <= i < s.len(), all_apart(s.push(x)), movable(s[i]) is Some,
        part(y) == join(part(s[i]), part(x)),
    ensures
        parts(s.update(i, DecodedSegment::Nothing).push(y)) == parts(s.push(x)),
        all_apart(s.update(i, DecodedSegment::Nothing).push(y)),
{
    let a = s.take(i);
    let b = s.skip(i + 1);
    let o = s[i];
    let n = DecodedSegment::Nothing;
    assert(s =~= a.push(o) + b);
    assert(s.update(i, n) =~= a.push(n) + b);
    lemma_parts_cat(a.push(o), b);
    lemma_parts_cat(a.push(n), b);
    lemma_parts_push(a, o);
    lemma_parts_push(a, n);
    lemma_parts_push(s, x);
    lemma_parts_push(s.update(i, n), y);
    lemma_join(parts(a), empty_mesh(), empty_mesh());
    assert(parts(s.update(i, n)) == join(parts(a), parts(b)));
    assert forall|j: int| 0 <= j < b.len() implies apart(o, #[trigger] b[j]) by {
        assert(s.push(x)[i] == o && s.push(x)[i + 1 + j] == b[j]);
    }
    lemma_apart_parts(o, b);
    lemma_comm(part(o), parts(b));
    // ((A O) B) X = (A (O B)) X = (A (B O)) X = ((A B) O) X = (A B) (O X)
    lemma_join(parts(a), part(o), parts(b));
    lemma_join(parts(a), parts(b), part(o));
    lemma_join(join(parts(a), parts(b)), part(o), part(x));
    let t = s.update(i, n).push(y);
    assert forall|p: int, q: int| 0 <= p < t.len() && 0 <= q < t.len() && p != q implies apart(#[trigger] t[p], #[trigger] t[q]) by {
        let u = s.push(x);
        assert(u[i] == o && u[u.len() - 1] == x);
        if p < s.len() && p != i { assert(t[p] == u[p]); assert(apart(u[p], u[i]) && apart(u[p], u[u.len() - 1])); }
        if q < s.len() && q != i { assert(t[q] == u[q]); assert(apart(u[q], u[i]) && apart(u[q], u[u.len() - 1])); }
        if p < s.len() && q < s.len() && p != i && q != i { assert(apart(u[p], u[q])); }
    }
}
pub open spec fn segs_wf(s: Seq<DecodedSegment>) -> bool { forall|i: int| 0 <= i < s.len() ==> seg_wf(#[trigger] s[i]) }
//@ fn merge_segments
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ spec
    requires all_apart(segments@),
    ensures parts(ret@) == parts(segments@), segs_wf(segments@) ==> segs_wf(ret@),
//@ begin
    hide(part); hide(parts); hide(join);
    let ghost wf0 = segs_wf(segments@);
    let ghost all = parts(segments@);
//@ before-loop 1
    proof { lemma_parts_empty(); assert(part(DecodedSegment::Nothing) == empty_mesh()) by { reveal(part); } }
//@ loop 1
        invariant_except_break
            all_apart(segments@), wf0 ==> segs_wf(segments@) && segs_wf(new_segments@),
            join(parts(segments@), parts(new_segments@.reverse())) == all,
        ensures
            parts(new_segments@.reverse()) == all, wf0 ==> segs_wf(new_segments@),
        decreases segments@.len(),
//@ loop-head 1
        let ghost pre = segments@;
//@ loop-begin 1
        let ghost new0 = new_segments@;
        let ghost len0 = segments@.len() + 1;
        proof {
            assert(segments@.push(segment) =~= pre);
            lemma_parts_push(segments@, segment);
            lemma_join(parts(segments@), empty_mesh(), empty_mesh());
            if wf0 { assert(seg_wf(segments@.push(segment)[segments@.len() as int])); }
            assert forall|i: int, j: int| 0 <= i < segments@.len() && 0 <= j < segments@.len() && i != j implies apart(#[trigger] segments@[i], #[trigger] segments@[j]) by {
                assert(segments@.push(segment)[i] == segments@[i] && segments@.push(segment)[j] == segments@[j]);
            }
        }
//@ loop 2
            invariant
                all_apart(segments@.push(segment)), wf0 ==> segs_wf(segments@) && seg_wf(segment),
                segments@.len() + 1 == len0, new_segments@ == new0,
                join(parts(segments@.push(segment)), parts(new0.reverse())) == all,
//@ loop-begin 2
                let ghost s0 = segments@;
                let ghost x0 = segment;
                proof { assert(s0.push(x0)[s0.len() as int] == x0 && s0.push(x0)[idx2 as int] == s0[idx2 as int]); assert(apart(s0.push(x0)[s0.len() as int], s0.push(x0)[idx2 as int])); }
//@ loop-end 2
                proof {
                    if segments@[idx2 as int] == s0[idx2 as int] && segment == x0 {
                        assert(segments@ =~= s0);
                    } else {
                        assert(segments@ =~= s0.update(idx2 as int, DecodedSegment::Nothing));
                        lemma_merge_step(s0, idx2 as int, x0, segment);
                    }
                }
//@ before `new_segments.push(segment)`
            proof {
                lemma_parts_push(segments@, segment);
                lemma_parts_one(segment);
                assert(new_segments@ == new0);
                lemma_parts_cat(seq![segment], new0.reverse());
                lemma_join(parts(segments@), part(segment), parts(new0.reverse()));
                assert(new0.push(segment).reverse() =~= seq![segment] + new0.reverse());
                assert forall|i: int, j: int| 0 <= i < segments@.len() && 0 <= j < segments@.len() && i != j implies apart(#[trigger] segments@[i], #[trigger] segments@[j]) by {
                    assert(segments@.push(segment)[i] == segments@[i] && segments@.push(segment)[j] == segments@[j]);
                }
            }
//@ ret-bind
    proof { assert(wf0 ==> forall|i: int| 0 <= i < ret__@.len() ==> ret__@[i] == #[trigger] new_segments@[i]); }
//@ end
// ---------------------------------------------------------------- writing
/// x is how the segment s is written
pub open spec fn enc_seg(x: Seg, s: DecodedSegment, prec: TMFPrecisionInfo, edge: f32) -> bool {
    x.k == seg_kind(s) && x.c is None && is_seg(x.d, s, prec, edge) && seg_wf(s)
}
pub open spec fn enc_segs(l: Seq<Seg>, s: Seq<DecodedSegment>, prec: TMFPrecisionInfo, edge: f32) -> bool {
    l.len() == s.len() && forall|i: int| 0 <= i < l.len() ==> enc_seg(#[trigger] l[i], s[i], prec, edge)
}
/// l is how the mesh m is written
pub open spec fn enc_mesh(l: Seq<Seg>, m: MeshV, prec: TMFPrecisionInfo) -> bool {
    exists|s: Seq<DecodedSegment>, edge: f32| #[trigger] enc_segs(l, s, prec, edge) && parts(s) == m && edge_ok(edge, m.vt, m.v)
}
pub open spec fn seg_fits(x: Seg) -> bool { x.d.len() <= MAX_SEG_SIZE }
pub open spec fn bad_seg(l: Seq<Seg>) -> bool { exists|i: int| 0 <= i < l.len() && !seg_fits(#[trigger] l[i]) }
pub open spec fn segs_fit(l: Seq<Seg>) -> bool { l.len() <= 65535 && forall|i: int| 0 <= i < l.len() ==> seg_fits(#[trigger] l[i]) }
/// the mesh is too big for the format: its segments are too many, or too big
pub open spec fn oversize(m: MeshV, prec: TMFPrecisionInfo) -> bool { exists|l: Seq<Seg>| #[trigger] enc_mesh(l, m, prec) && !segs_fit(l) }
pub open spec fn segs_bytes(l: Seq<Seg>) -> Seq<u8>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { segs_bytes(l.drop_last()) + seg_bytes(l.last().k, l.last().c, l.last().d) }
}
pub proof fn lemma_segs_bytes_push(l: Seq<Seg>, x: Seg)
    ensures segs_bytes(l.push(x)) == segs_bytes(l) + seg_bytes(x.k, x.c, x.d), segs_bytes(Seq::empty()) == Seq::<u8>::empty(),
{
    assert(l.push(x).drop_last() =~= l);
}
pub open spec fn mesh_bytes(m: MeshX) -> Seq<u8> { name_bytes(m.name) + le2(m.l.len() as u16) + segs_bytes(m.l) }
/// m is the mesh and its name, as they are written
pub open spec fn mesh_saved(m: MeshX, mesh: MeshV, name: Seq<char>, prec: TMFPrecisionInfo) -> bool {
    m.name == name && name_fits(name) && enc_mesh(m.l, mesh, prec) && segs_fit(m.l)
}
pub open spec fn enc_of(r: core::result::Result<EncodedSegment, TMFExportError>) -> Seg {
    Seg { k: r->Ok_0.seg_type, c: r->Ok_0.compresion_type, d: r->Ok_0.data@ }
}
pub open spec fn all_enc(e: Seq<core::result::Result<EncodedSegment, TMFExportError>>) -> Seq<Seg> { Seq::new(e.len(), |i: int| enc_of(e[i])) }
//@ fn write_mesh
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires prec_wf(*p_info), mesh.wf(), in_bounds(mesh@.vt, mesh@.v),
    ensures
        put(old(target), final(target), false, Seq::empty()),
        ret is Ok ==> exists|m: MeshX| #[trigger] mesh_saved(m, mesh@, name@, *p_info) && (*final(target)).sunk() == (*old(target)).sunk() + mesh_bytes(m),
        old(target).infallible() && name_fits(name@) && ret is Err ==> oversize(mesh@, *p_info),
//@ subst `MeshSegIter::tmf_segs(mesh).collect::<Box<[_]>>()` => `collect_segs(MeshSegIter::tmf_segs(mesh))`
//@ subst `.clone` => `.clone_vx`
//@ begin
    hide(part); hide(parts); hide(join); hide(is_seg); hide(seg_bytes); hide(segs_bytes); hide(edge_ok); hide(name_bytes); hide(all_apart);
    let ghost sunk0 = (*target).sunk();
    let ghost bad = oversize(mesh@, *p_info);
//@ before-loop 1
    let ghost merged = tmf_segs@;
    proof { lemma_parts_empty(); assert(parts(merged) == mesh@); assert(segs_wf(merged)); }
//@ loop 1
        invariant
            parts(new_segs@) == parts(merged.take(it1.index@)), segs_wf(new_segs@),
//@ before-loop 2
        let ghost cs = c_segs@;
        let ghost ns0 = new_segs@;
//@ loop 2
            invariant
                new_segs@ == ns0 + cs.take(it2.index@),
//@ after-loop 2
        proof {
            assert(cs.take(cs.len() as int) =~= cs);
            lemma_parts_cat(ns0, cs);
            assert(merged.take(it1.index@ + 1) =~= merged.take(it1.index@).push(*seg));
            lemma_parts_push(merged.take(it1.index@), *seg);
        }
//@ before-loop 3
    let ghost segs = tmf_segs@;
    proof { assert(merged.take(merged.len() as int) =~= merged); }
//@ loop 3
        invariant
            encoded@.len() == it3.index@,
            forall|i: int| 0 <= i < encoded@.len() ==> (#[trigger] encoded@[i]) is Ok && enc_seg(enc_of(encoded@[i]), segs[i], *p_info, ei.shortest_edge),
//@ after-loop 3
    let ghost encs = encoded@;
    let ghost l = all_enc(encs);
    proof {
        assert(enc_segs(l, segs, *p_info, ei.shortest_edge));
        assert(enc_mesh(l, mesh@, *p_info));
    }
//@ before-loop 4
    proof {
        assert(l.take(0) =~= Seq::empty());
        lemma_segs_bytes_push(l, arbitrary());
        let head = sunk0 + name_bytes(name@) + le2(l.len() as u16);
        assert(head + Seq::<u8>::empty() =~= head);
        if bad_seg(l) { assert(!segs_fit(l)); }
    }
//@ loop-begin 4
        let ghost i = it4.index@;
        proof {
            assert(seg == encs[i]);
            assert(seg is Ok && l[i] == enc_of(encs[i]));
            assert(!seg_fits(l[i]) ==> bad_seg(l));
        }
//@ loop-end 4
        proof {
            assert(l.take(i + 1) =~= l.take(i).push(l[i]));
            lemma_segs_bytes_push(l.take(i), l[i]);
            let head = sunk0 + name_bytes(name@) + le2(l.len() as u16);
            let b = seg_bytes(l[i].k, l[i].c, l[i].d);
            assert(head + segs_bytes(l.take(i)) + b =~= head + (segs_bytes(l.take(i)) + b));
        }
//@ after-loop 4
    proof {
        assert(l.take(l.len() as int) =~= l);
        let m = MeshX { name: name@, l };
        assert(mesh_saved(m, mesh@, name@, *p_info));
        assert(target.sunk() =~= sunk0 + mesh_bytes(m));
    }
//@ loop 4
        invariant
            put(old(target), target, false, Seq::empty()),
            forall|i: int| 0 <= i < it4.index@ ==> seg_fits(#[trigger] l[i]),
            (*target).sunk() == sunk0 + name_bytes(name@) + le2(l.len() as u16) + segs_bytes(l.take(it4.index@)),
//@ end
pub open spec fn all_meshes_bytes(ms: Seq<MeshX>) -> Seq<u8>
    decreases ms.len(),
{
    if ms.len() == 0 { Seq::empty() } else { all_meshes_bytes(ms.drop_last()) + mesh_bytes(ms.last()) }
}
pub proof fn lemma_meshes_bytes_push(ms: Seq<MeshX>, x: MeshX)
    ensures all_meshes_bytes(ms.push(x)) == all_meshes_bytes(ms) + mesh_bytes(x), all_meshes_bytes(Seq::empty()) == Seq::<u8>::empty(),
{
    assert(ms.push(x).drop_last() =~= ms);
}
pub open spec fn file_bytes(ms: Seq<MeshX>) -> Seq<u8> { head_bytes(ms.len() as u32) + all_meshes_bytes(ms) }
/// the meshes ms are the meshes and names l, as they are written
pub open spec fn file_saved<S: BorrowVx<str>>(ms: Seq<MeshX>, l: Seq<(TMFMesh, S)>, prec: TMFPrecisionInfo) -> bool {
    ms.len() == l.len() && forall|i: int| 0 <= i < ms.len() ==> mesh_saved(#[trigger] ms[i], l[i].0@, l[i].1.borrowed()@, prec)
}
pub open spec fn can_write<S>(l: Seq<(TMFMesh, S)>) -> bool {
    l.len() <= u32::MAX && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0.wf() && in_bounds(l[i].0@.vt, l[i].0@.v)
}
/// what keeps a mesh from being written
pub open spec fn cannot_save(m: MeshV, name: Seq<char>, prec: TMFPrecisionInfo) -> bool { !name_fits(name) || oversize(m, prec) }
pub open spec fn cannot_save_all<S: BorrowVx<str>>(l: Seq<(TMFMesh, S)>, prec: TMFPrecisionInfo) -> bool {
    exists|i: int| 0 <= i < l.len() && cannot_save((#[trigger] l[i]).0@, l[i].1.borrowed()@, prec)
}
//@ fn write_tmf
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires prec_wf(*p_info), can_write(meshes_names@),
    ensures
        put(old(target), final(target), false, Seq::empty()),
        ret is Ok ==> exists|ms: Seq<MeshX>| #[trigger] file_saved(ms, meshes_names@, *p_info) && (*final(target)).sunk() == (*old(target)).sunk() + file_bytes(ms),
        old(target).infallible() && ret is Err ==> cannot_save_all(meshes_names@, *p_info),
//@ begin
    hide(mesh_saved); hide(mesh_bytes); hide(head_bytes); hide(oversize);
    let ghost sunk0 = (*target).sunk();
    let ghost mut ms: Seq<MeshX> = Seq::empty();
    let ghost all = meshes_names@;
//@ before-loop 1
    let ghost head = sunk0 + head_bytes(mesh_count as u32);
    proof { lemma_meshes_bytes_push(ms, arbitrary()); assert(head + Seq::<u8>::empty() =~= head); }
//@ loop 1
        invariant
            put(old(target), target, false, Seq::empty()),
            ms.len() == it1.index@, forall|i: int| 0 <= i < ms.len() ==> mesh_saved(#[trigger] ms[i], all[i].0@, all[i].1.borrowed()@, *p_info),
            (*target).sunk() == head + all_meshes_bytes(ms),
//@ loop-begin 1
        let ghost i = it1.index@;
        let ghost sunk1 = (*target).sunk();
        proof { 
            assert(*mesh == all[i].0 && *name == all[i].1); assert(all[i].0.wf()); 
            assert(cannot_save(all[i].0@, all[i].1.borrowed()@, *p_info) ==> cannot_save_all(all, *p_info));
        }
//@ loop-end 1
        proof {
            let m = choose|m: MeshX| #[trigger] mesh_saved(m, mesh@, name.borrowed()@, *p_info) && (*target).sunk() == sunk1 + mesh_bytes(m);
            lemma_meshes_bytes_push(ms, m);
            assert(head + all_meshes_bytes(ms) + mesh_bytes(m) =~= head + (all_meshes_bytes(ms) + mesh_bytes(m)));
            ms = ms.push(m);
        }
//@ after-loop 1
    proof {
        assert(file_saved(ms, meshes_names@, *p_info));
        assert(target.sunk() =~= sunk0 + file_bytes(ms));
    }
//@ end
}
