//@ source src/vertices.rs
pub mod vertices {
use vstd::prelude::*;
use crate::vbits::*;
use crate::vf::*;
use crate::fl::*;
use crate::uv::{m_of, lemma_m_of};
use crate::read_extension::*;
use crate::unaligned_rw::*;
use crate::vio::{Read, Write};
use crate::TMFImportError;
use crate::MAX_SEG_SIZE;
use crate::{FloatType, IndexType, Vector3};

//@ fn calc_prec
//@ spec
    ensures ret <= 64, fits(max as u64, ret as nat), forall|n: nat| n < ret ==> !#[trigger] fits(max as u64, n),
//@ tail
    proof {
        let x = max as u64;
        let o = offset_of_first_1 as u64;
        let m = max1 as u64;
        assert(m >> o == 1);
        assert(o < 63 ==> m - 1 < (1u64 << add(o, 1))) by (bit_vector) requires m >> o == 1;
        assert((m & sub(m, 1) == 0) ==> m - 1 < (1u64 << o)) by (bit_vector) requires m >> o == 1, o < 64;
        assert forall|n: nat| n < o + (if round_up { 1int } else { 0 }) implies !#[trigger] fits(x, n) by {
            let k = n as u64;
            if k < o {
                assert(sub(m, 1) >= (1u64 << k)) by (bit_vector) requires m >> o == 1, o < 64, k < o;
            } else {
                assert(sub(m, 1) >= (1u64 << k)) by (bit_vector) requires m >> o == 1, o < 64, k == o, m & sub(m, 1) != 0;
            }
        }
    }
//@ end

// ---------------------------------------------------------------- index arrays
pub open spec fn tri_recs(s: Seq<u32>, min: u32, n: nat) -> Seq<Seq<bool>> {
    Seq::new(s.len(), |i: int| val_bits((s[i] - min) as u64, n))
}
/// e is the encoding of the index array s
pub open spec fn tri_parts(e: Seq<u8>, s: Seq<u32>, prec: u8, min: u32, body: Seq<u8>) -> bool {
    &&& prec <= 64
    &&& prec == 0 ==> min == 0
    &&& s.len() <= u64::MAX
    &&& e == seq![prec] + le8(s.len() as u64) + le8(min as u64) + body
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] >= min && fits((s[i] - min) as u64, prec as nat)
    &&& padded(body, flat(tri_recs(s, min, prec as nat)))
}
pub open spec fn is_tri(e: Seq<u8>, s: Seq<u32>) -> bool {
    exists|prec: u8, min: u32, body: Seq<u8>| #[trigger] tri_parts(e, s, prec, min, body)
}
/// r is what the bytes say: precision, length and smallest index, then the packed differences
pub open spec fn tri_decoded(rest: Seq<u8>, hasmin: bool, r: Seq<u32>, v: Seq<u64>) -> bool {
    let h: int = if hasmin { 17 } else { 9 };
    &&& rest.len() >= h && rest[0] <= 64
    &&& rest.subrange(1, 9) == le8(r.len() as u64)
    &&& r.len() <= MAX_SEG_SIZE
    &&& v.len() == r.len()
    &&& decoded(byte_bits(rest.skip(h)), rest[0] as nat, v)
    &&& forall|i: int, m: u64| 0 <= i < r.len() && m + v[i] <= u32::MAX && (if hasmin { rest.subrange(9, 17) == #[trigger] le8(m) } else { m == 0 }) && (rest[0] > 0 || m == 0) ==> #[trigger] r[i] == m + v[i]
}
pub proof fn lemma_tri_hdr(e: Seq<u8>, tail: Seq<u8>, s: Seq<u32>, prec: u8, min: u32, body: Seq<u8>)
    requires tri_parts(e, s, prec, min, body),
    ensures
        (e + tail)[0] == prec, (e + tail).subrange(1, 9) == le8(s.len() as u64), (e + tail).subrange(9, 17) == le8(min as u64),
        (e + tail).skip(17) == body + tail, e.len() >= 17,
{
    assert((e + tail).subrange(1, 9) =~= le8(s.len() as u64));
    assert((e + tail).subrange(9, 17) =~= le8(min as u64));
    assert((e + tail).skip(17) =~= body + tail);
}
/// C02: what save_triangles wrote is what read_triangles returns.
pub proof fn theorem_tri_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<u32>, r: Seq<u32>, v: Seq<u64>)
    requires is_tri(e, s), tri_decoded(e + tail, true, r, v),
    ensures r == s,
{
    let (prec, min, body) = choose|prec: u8, min: u32, body: Seq<u8>| #[trigger] tri_parts(e, s, prec, min, body);
    lemma_tri_hdr(e, tail, s, prec, min, body);
    lemma_le8_inj(s.len() as u64, r.len() as u64);
    let w = Seq::new(s.len(), |i: int| (s[i] - min) as u64);
    let recs = tri_recs(s, min, prec as nat);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] recs[i] == val_bits(w[i], prec as nat) && fits(w[i], prec as nat) by {
        assert(s[i] >= min);
    }
    lemma_pack_unpack(body, tail, recs, prec as nat, v, w);
    assert forall|i: int| 0 <= i < r.len() implies r[i] == s[i] by {
        assert(s[i] >= min);
        assert(v[i] == w[i]);
        assert((e + tail).subrange(9, 17) == le8(min as u64));
        assert(r[i] == min + v[i]);
    }
    assert(r =~= s);
}
/// the input is one read_triangles must accept
pub open spec fn tri_ok(rest: Seq<u8>, hasmin: bool, len: u64) -> bool {
    let h: int = if hasmin { 17 } else { 9 };
    &&& rest.len() >= h && rest[0] <= 64
    &&& rest.subrange(1, 9) == le8(len)
    &&& len <= MAX_SEG_SIZE
    &&& 8 * (rest.len() - h) >= rest[0] * len
}
pub proof fn theorem_tri_readable(e: Seq<u8>, tail: Seq<u8>, s: Seq<u32>)
    requires is_tri(e, s), s.len() <= MAX_SEG_SIZE,
    ensures tri_ok(e + tail, true, s.len() as u64),
{
    let (prec, min, body) = choose|prec: u8, min: u32, body: Seq<u8>| #[trigger] tri_parts(e, s, prec, min, body);
    lemma_tri_hdr(e, tail, s, prec, min, body);
    let recs = tri_recs(s, min, prec as nat);
    assert(all_len(recs, prec as nat));
    lemma_flat_len(recs, prec as nat);
    assert((e + tail).len() - 17 >= body.len());
}

//@ fn save_triangles
//@ spec
    requires old(writer).infallible(),
    ensures
        ret is Ok,
        exists|e: Seq<u8>| #[trigger] is_tri(e, triangles@) && (*final(writer)).sunk() == (*old(writer)).sunk() + e,
//@ begin
    let ghost base = (*old(writer)).sunk();
    let ghost fin = (*final(writer)).sunk();
//@ before `let precision = UnalignedRWMode`
    let ghost hdr = seq![precision] + le8(triangles@.len() as u64) + le8(min as u64);
    let ghost prec8 = precision;
    let ghost recs = tri_recs(triangles@, min, precision as nat);
    proof {
        assert(writer.sunk() =~= base + hdr);
        if prec8 == 0 { assert(1u64 << 0u64 == 1) by (bit_vector); if triangles@.len() > 0 { assert(triangles@[0] <= max_index); } }
        assert forall|i: int| 0 <= i < triangles@.len() implies #[trigger] triangles@[i] >= min && fits((triangles@[i] - min) as u64, prec8 as nat) by {
            let m = max_index as u64;
            let d = (triangles@[i] - min) as u64;
            assert(triangles@[i] <= m);
            assert(d <= m);
        }
    }
//@ loop 1
        invariant
            prec8 == precision.0, prec8 <= 64,
            writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fin,
            recs == tri_recs(triangles@, min, precision.0 as nat),
            forall|i: int| 0 <= i < triangles@.len() ==> #[trigger] triangles@[i] >= min,
            writer.view() == byte_bits(base + hdr) + flat(recs.take(it1.index@)),
//@ loop-end 1
        proof {
            assert(recs.take(it1.index@ + 1) =~= recs.take(it1.index@).push(recs[it1.index@]));
            lemma_flat_push(recs.take(it1.index@), recs[it1.index@]);
        }
//@ after-loop 1
    proof {
        assert(recs.take(recs.len() as int) =~= recs);
    }
    let ghost w0 = writer;
//@ ret-bind
    proof {
        lemma_padded(writer);
        lemma_padded_prefix(writer.bytes(), base + hdr, flat(recs));
    }
    let ghost body = writer.bytes().skip((base + hdr).len() as int);
    writer.drop_elab();
    proof {
        assert(tri_parts(hdr + body, triangles@, prec8, min, body));
        assert(base + hdr + body =~= base + (hdr + body));
        assert(is_tri(hdr + body, triangles@));
    }
//@ end
//@ fn read_triangles
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        ret matches Ok(r) ==> r@.len() <= MAX_SEG_SIZE && exists|v: Seq<u64>| #[trigger] tri_decoded((*old(reader)).rest(), ctx.should_read_min_index, r@, v),
        (*old(reader)).reliable() && (exists|len: u64| #[trigger] tri_ok((*old(reader)).rest(), ctx.should_read_min_index, len)) ==> ret is Ok,
//@ begin
    let ghost src = (*old(reader)).rest();
    let ghost has = ctx.should_read_min_index;
    let ghost h: int = if has { 17 } else { 9 };
    let ghost ok = (*old(reader)).reliable() && exists|len: u64| #[trigger] tri_ok(src, has, len);
//@ after-let precision
    proof { assert(src.take(1)[0] == precision); }
//@ after-let length
    proof {
        assert(src.subrange(1, 9) =~= le8(length));
        if ok {
            let len = choose|len: u64| #[trigger] tri_ok(src, has, len);
            lemma_le8_inj(len, length);
        }
    }
//@ before `let mut reader = UnalignedReader`
    let ghost n = precision.0 as nat;
    let ghost bits = byte_bits(src.skip(h));
    proof {
        assert(reader.rest() =~= src.skip(h));
        if has { assert(src.subrange(9, 17) =~= le8(min)); }
    }
//@ before-loop 1
    let ghost mut v: Seq<u64> = Seq::empty();
    proof {
        lemma_decoded_empty(bits, n);
    }
//@ loop 1
        invariant
            n == precision.0, n <= 64, ok ==> reader.reader.reliable(),
            reader.wf(), 
            decoded(bits, n, v), reader.view() == bits.skip((v.len() * n) as int),
            v.len() == 2 * it1.index@, res@.len() == v.len(),
            forall|i: int| 0 <= i < v.len() && min + #[trigger] v[i] <= u32::MAX ==> res@[i] == min + v[i],
            ok ==> bits.len() >= n * length,
//@ loop-begin 1
        let ghost o = reader.view();
        proof { 
            assert(v.len() + 2 <= length);
            assert(ok ==> o.len() >= 2 * n) by (nonlinear_arith)
                requires v.len() + 2 <= length, ok ==> bits.len() >= n * length, o == bits.skip((v.len() * n) as int), v.len() * n <= bits.len(), o.len() == bits.len() - v.len() * n;
        }
//@ loop-end 1
        proof {
            lemma_decoded_push(bits, n, v, o.skip(n as int), i1);
            let v1 = v.push(i1);
            lemma_decoded_push(bits, n, v1, reader.view(), i2);
            v = v1.push(i2);
            assert(i1 + min <= u32::MAX ==> res@[v.len() - 2] == i1 + min);
        }
//@ loop 2
        invariant
            n == precision.0, n <= 64, ok ==> reader.reader.reliable(),
            reader.wf(), 
            decoded(bits, n, v), reader.view() == bits.skip((v.len() * n) as int),
            v.len() == length - length % 2 + it2.index@, res@.len() == v.len(),
            forall|i: int| 0 <= i < v.len() && min + #[trigger] v[i] <= u32::MAX ==> res@[i] == min + v[i],
            ok ==> bits.len() >= n * length,
//@ loop-begin 2
        let ghost o = reader.view();
        proof {
            assert(v.len() + 1 <= length);
            assert(ok ==> o.len() >= n) by (nonlinear_arith)
                requires v.len() + 1 <= length, ok ==> bits.len() >= n * length, v.len() * n <= bits.len(), o.len() == bits.len() - v.len() * n;
        }
//@ loop-end 2
        proof {
            let x = choose|x: u64| #[trigger] got(o, reader.view(), n, x) && (min + x <= u32::MAX ==> res@[v.len() as int] == min + x);
            lemma_decoded_push(bits, n, v, reader.view(), x);
            v = v.push(x);
        }
//@ ret-bind
    proof {
        let r = ret__->Ok_0@;
        assert forall|i: int, m: u64| 0 <= i < r.len() && m + v[i] <= u32::MAX && (if has { src.subrange(9, 17) == #[trigger] le8(m) } else { m == 0 }) implies #[trigger] r[i] == m + v[i] by {
            if has { lemma_le8_inj(m, min); }
        }
        assert(tri_decoded(src, has, ret__->Ok_0@, v));
    }
//@ end

// ---------------------------------------------------------------- vertices
//@ item struct VertexPrecisionMode Clone Copy
pub open spec fn ax(v: Vector3, j: int) -> f32 { if j == 0 { v.0 } else if j == 1 { v.1 } else { v.2 } }
/// what is stored about one axis
pub struct Axis { pub mn: f64, pub mx: f64, pub a: f32, pub b: f32, pub p: u8 }
/// every coordinate is a number, and the model is not too big for its size to be one
pub open spec fn vx_ok(s: Seq<Vector3>, h: Axis, j: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> fin(ax(#[trigger] s[i], j))
    &&& rv(h.b) - rv(h.a) <= FMAX() / 2real
}
/// h.a ..= h.b is the range of the axis j
pub open spec fn axis_range(s: Seq<Vector3>, j: int, a: f32, b: f32) -> bool {
    s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> fin(ax(#[trigger] s[i], j))) ==> {
        &&& fin(a) && fin(b) && rv(a) <= rv(b)
        &&& forall|i: int| 0 <= i < s.len() ==> rv(a) <= rv(ax(#[trigger] s[i], j)) <= rv(b)
        &&& exists|i: int| 0 <= i < s.len() && rv(ax(#[trigger] s[i], j)) == rv(a)
        &&& exists|i: int| 0 <= i < s.len() && rv(ax(#[trigger] s[i], j)) == rv(b)
    }
}
/// the size of an axis, never 0
pub open spec fn size_of(a: f32, b: f32, sx: f32) -> bool {
    exists|span: f32| #[trigger] vstd::std_specs::ops::sub_ensures::<f32>(b, a, span)
        && (fin(span) ==> fin(sx) && rv(sx) > 0real && (rv(sx) == rv(span) || (rv(span) <= rv(sx) && rv(sx) <= ETA())))
}
/// the step asked for, as a part of the size of the axis
pub open spec fn inc_of(edge: f32, prec: f32, sx: f32, inc: f32) -> bool {
    exists|t: f32| #[trigger] vstd::std_specs::ops::div_ensures::<f32>(edge, sx, t) && vstd::std_specs::ops::mul_ensures::<f32>(t, prec, inc)
}
/// the number of bits which gives at least that step
pub open spec fn prec_of(inc: f32, p: u8) -> bool {
    exists|one: f32, q: f32| fin(one) && rv(one) == 1real && #[trigger] vstd::std_specs::ops::div_ensures::<f32>(one, inc, q) && bits_for(q, p)
}
/// the precision follows from the shortest edge and the size of the model
pub open spec fn axis_prec(h: Axis, edge: f32, prec: f32) -> bool {
    exists|sx: f32, inc: f32, p: u8| size_of(h.a, h.b, sx) && #[trigger] inc_of(edge, prec, sx, inc) && #[trigger] prec_of(inc, p)
        && h.p == (if p < 1 { 1u8 } else if p > 63 { 63u8 } else { p })
}
pub struct Vxk { pub x: u64, pub y: u64, pub z: u64 }
pub open spec fn kx(k: Vxk, j: int) -> u64 { if j == 0 { k.x } else if j == 1 { k.y } else { k.z } }
pub open spec fn vx_rec(k: Vxk, p: u8, q: u8, r: u8) -> Seq<bool> { val_bits(k.x, p as nat) + val_bits(k.y, q as nat) + val_bits(k.z, r as nat) }
pub open spec fn vx_recs(ks: Seq<Vxk>, p: u8, q: u8, r: u8) -> Seq<Seq<bool>> { Seq::new(ks.len(), |i: int| vx_rec(ks[i], p, q, r)) }
pub open spec fn axis_k(s: Seq<Vector3>, h: Axis, j: int, v: Vector3, k: u64) -> bool {
    &&& k <= m_of(h.p)
    &&& vx_ok(s, h, j) ==> k_span(ax(v, j), h.a, h.b, m_of(h.p), k)
}
pub open spec fn axis_hdr(s: Seq<Vector3>, h: Axis, j: int) -> bool {
    &&& 1 <= h.p <= 63
    &&& axis_range(s, j, h.a, h.b)
    &&& find(h.mn) == fin(h.a) && find(h.mx) == fin(h.b) && (fin(h.a) ==> rd(h.mn) == rv(h.a)) && (fin(h.b) ==> rd(h.mx) == rv(h.b))
}
pub open spec fn vx_hdr(n: u64, x: Axis, y: Axis, z: Axis) -> Seq<u8> {
    le8(n) + lef(x.mn) + lef(x.mx) + lef(y.mn) + lef(y.mx) + lef(z.mn) + lef(z.mx) + seq![x.p] + seq![y.p] + seq![z.p]
}
pub open spec fn vx_k(s: Seq<Vector3>, x: Axis, y: Axis, z: Axis, i: int, k: Vxk) -> bool {
    axis_k(s, x, 0, s[i], k.x) && axis_k(s, y, 1, s[i], k.y) && axis_k(s, z, 2, s[i], k.z)
}
/// e is the encoding of the vertices s
pub open spec fn vx_parts(e: Seq<u8>, s: Seq<Vector3>, x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, body: Seq<u8>) -> bool {
    &&& s.len() <= u64::MAX
    &&& e == vx_hdr(s.len() as u64, x, y, z) + body
    &&& axis_hdr(s, x, 0) && axis_hdr(s, y, 1) && axis_hdr(s, z, 2)
    &&& ks.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> vx_k(s, x, y, z, i, #[trigger] ks[i])
    &&& padded(body, flat(vx_recs(ks, x.p, y.p, z.p)))
}
pub open spec fn is_vx(e: Seq<u8>, s: Seq<Vector3>, edge: f32, prec: f32) -> bool {
    exists|x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, body: Seq<u8>| #[trigger] vx_parts(e, s, x, y, z, ks, body) && axis_prec(x, edge, prec) && axis_prec(y, edge, prec) && axis_prec(z, edge, prec)
}
proof fn lemma_range_step(s: Seq<Vector3>, n: int, j: int, a0: f32, b0: f32, a: f32, b: f32)
    requires
        0 <= n < s.len(),
        n == 0 ==> a0 == ax(s[0], j) && b0 == ax(s[0], j),
        n > 0 ==> axis_range(s.take(n), j, a0, b0),
        fin(a0) && fin(ax(s[n], j)) ==> fin(a) && rv(a) == rmin(rv(a0), rv(ax(s[n], j))),
        fin(b0) && fin(ax(s[n], j)) ==> fin(b) && rv(b) == rmax(rv(b0), rv(ax(s[n], j))),
    ensures axis_range(s.take(n + 1), j, a, b),
{
    let s0 = s.take(n);
    let s1 = s.take(n + 1);
    assert(s1 =~= s0.push(s[n]));
    if forall|i: int| 0 <= i < s1.len() ==> fin(ax(#[trigger] s1[i], j)) {
        assert(s1[n] == s[n]);
        assert forall|i: int| 0 <= i < s0.len() implies fin(ax(#[trigger] s0[i], j)) by { assert(s0[i] == s1[i]); }
        if n > 0 {
            let ja = choose|i: int| 0 <= i < s0.len() && rv(ax(#[trigger] s0[i], j)) == rv(a0);
            let jb = choose|i: int| 0 <= i < s0.len() && rv(ax(#[trigger] s0[i], j)) == rv(b0);
            assert(s1[ja] == s0[ja] && s1[jb] == s0[jb]);
        }
        assert forall|i: int| 0 <= i < s1.len() implies rv(a) <= rv(ax(#[trigger] s1[i], j)) <= rv(b) by { if i < n { assert(s0[i] == s1[i]); } }
    }
}
proof fn lemma_sx(a: f32, b: f32, span: f32, sx: f32)
    requires
        vstd::std_specs::ops::sub_ensures::<f32>(b, a, span),
        fin(span) ==> fin(sx) && rv(sx) > 0real && rv(sx) >= rv(span) && (rv(sx) == rv(span) || rv(sx) <= ETA()),
    ensures
        fin(a) && fin(b) && rv(a) <= rv(b) && rv(b) - rv(a) <= FMAX() / 2real ==> sp_ok(a, b, sx),
{
    broadcast use {ax_sub, ax_rnd};
    if fin(a) && fin(b) && rv(a) <= rv(b) && rv(b) - rv(a) <= FMAX() / 2real {
        assert(rnd(rv(b) - rv(a), span));
    }
}
pub proof fn lemma_f64s(a: f32, b: f32, mn: f64, mx: f64)
    requires vstd::float::float_cast_spec::<f32, f64>(a, mn), vstd::float::float_cast_spec::<f32, f64>(b, mx),
    ensures find(mn) == fin(a), find(mx) == fin(b), fin(a) ==> rd(mn) == rv(a), fin(b) ==> rd(mx) == rv(b),
{
    broadcast use {ax_f32_f64};
}
proof fn lemma_axis_k(s: Seq<Vector3>, h: Axis, j: int, v: Vector3, sx: f32, k: u64)
    requires
        axis_hdr(s, h, j), s.contains(v), k <= m_of(h.p),
        fin(h.a) && fin(h.b) && rv(h.a) <= rv(h.b) && rv(h.b) - rv(h.a) <= FMAX() / 2real ==> sp_ok(h.a, h.b, sx),
        sp_ok(h.a, h.b, sx) && fin(ax(v, j)) && rv(h.a) <= rv(ax(v, j)) <= rv(h.b) ==> k_span(ax(v, j), h.a, h.b, m_of(h.p), k),
    ensures axis_k(s, h, j, v, k),
{
    if vx_ok(s, h, j) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == v;
        assert(fin(ax(s[i], j)));
    }
}
//@ fn save_tmf_vertices
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(200)]
//@ spec
    requires old(writer).infallible(),
    ensures
        ret is Ok,
        exists|e: Seq<u8>| #[trigger] is_vx(e, vertices@, shortest_edge, precision.0) && (*final(writer)).sunk() == (*old(writer)).sunk() + e,
//@ begin
    broadcast use {group_req, axiom_lef_len, lemma_bits_for_b};
    let ghost base = (*old(writer)).sunk();
    let ghost fsunk = (*final(writer)).sunk();
    let ghost s = vertices@;
    let ghost n8 = vertices@.len() as u64;
    proof { ax_lit(); }
//@ loop 1
        invariant
            writer.infallible(), (*final(writer)).sunk() == fsunk, writer.sunk() == base + le8(n8),
            it1.index@ == 0 && s.len() > 0 ==> min_x == s[0].0 && max_x == s[0].0 && min_y == s[0].1 && max_y == s[0].1 && min_z == s[0].2 && max_z == s[0].2,
            it1.index@ > 0 ==> axis_range(s.take(it1.index@), 0, min_x, max_x) && axis_range(s.take(it1.index@), 1, min_y, max_y) && axis_range(s.take(it1.index@), 2, min_z, max_z),
//@ loop-begin 1
        let ghost (ax0, bx0, ay0, by0, az0, bz0) = (min_x, max_x, min_y, max_y, min_z, max_z);
//@ loop-end 1
        proof {
            let n = it1.index@;
            lemma_range_step(s, n, 0, ax0, bx0, min_x, max_x);
            lemma_range_step(s, n, 1, ay0, by0, min_y, max_y);
            lemma_range_step(s, n, 2, az0, bz0, min_z, max_z);
        }
//@ after-loop 1
    proof {
        assert(s.take(s.len() as int) =~= s);
    }
//@ before `let sx = max_x`
    let ghost (mnx, mxx, mny, mxy, mnz, mxz) = choose|mnx: f64, mxx: f64, mny: f64, mxy: f64, mnz: f64, mxz: f64|
        #[trigger] vstd::float::float_cast_spec::<f32, f64>(min_x, mnx) && #[trigger] vstd::float::float_cast_spec::<f32, f64>(max_x, mxx)
        && #[trigger] vstd::float::float_cast_spec::<f32, f64>(min_y, mny) && #[trigger] vstd::float::float_cast_spec::<f32, f64>(max_y, mxy)
        && #[trigger] vstd::float::float_cast_spec::<f32, f64>(min_z, mnz) && #[trigger] vstd::float::float_cast_spec::<f32, f64>(max_z, mxz)
        && writer.sunk() == base + le8(n8) + lef(mnx) + lef(mxx) + lef(mny) + lef(mxy) + lef(mnz) + lef(mxz);
    let ghost sunk0 = writer.sunk();
//@ after-let sz #1
    let ghost (spx, spy, spz) = (sx, sy, sz);
//@ before `let inc_x` #1
    proof { 
        assert forall|a: f32| #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, precision.0) by { ax_mul_req(a, precision.0); }
        assert(size_of(min_x, max_x, sx)); assert(size_of(min_y, max_y, sy)); assert(size_of(min_z, max_z, sz));
        lemma_sx(min_x, max_x, spx, sx);
        lemma_sx(min_y, max_y, spy, sy);
        lemma_sx(min_z, max_z, spz, sz);
    }
//@ after-let inc_x
    assert(inc_of(shortest_edge, precision.0, sx, inc_x));
//@ after-let inc_y
    assert(inc_of(shortest_edge, precision.0, sy, inc_y));
//@ after-let inc_z
    assert(inc_of(shortest_edge, precision.0, sz, inc_z));
//@ after-let prec_x #1
    let ghost wx = prec_x;
    assert(prec_of(inc_x, prec_x));
//@ after-let prec_y #1
    let ghost wy = prec_y;
    assert(prec_of(inc_y, prec_y));
//@ after-let prec_z #1
    let ghost wz = prec_z;
    assert(prec_of(inc_z, prec_z));
//@ before `writer.write_all(&[prec_x])?` #1
    let ghost (px, py, pz) = (prec_x, prec_y, prec_z);
    let ghost hx = Axis { mn: mnx, mx: mxx, a: min_x, b: max_x, p: prec_x };
    let ghost hy = Axis { mn: mny, mx: mxy, a: min_y, b: max_y, p: prec_y };
    let ghost hz = Axis { mn: mnz, mx: mxz, a: min_z, b: max_z, p: prec_z };
    let ghost hdr = vx_hdr(n8, hx, hy, hz);
    proof {
        assert(axis_prec(hx, shortest_edge, precision.0));
        assert(axis_prec(hy, shortest_edge, precision.0));
        assert(axis_prec(hz, shortest_edge, precision.0));
        lemma_m_of(px); lemma_m_of(py); lemma_m_of(pz);
        lemma_f64s(min_x, max_x, mnx, mxx);
        lemma_f64s(min_y, max_y, mny, mxy);
        lemma_f64s(min_z, max_z, mnz, mxz);
    }
//@ before-loop 2
    let ghost mut ks: Seq<Vxk> = Seq::empty();
    proof { 
        assert(vx_recs(ks, px, py, pz) =~= Seq::empty());
        assert(max_int_x == m_of(px) && max_int_y == m_of(py) && max_int_z == m_of(pz));
    }
//@ loop 2
        invariant
            writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fsunk,
            writer.view() == byte_bits(base + hdr) + flat(vx_recs(ks, px, py, pz)),
            ks.len() == it2.index@,
            forall|i: int| 0 <= i < ks.len() ==> vx_k(s, hx, hy, hz, i, #[trigger] ks[i]),
//@ loop-begin 2
        broadcast use lemma_span_b;
//@ loop-end 2
        proof {
            let k = Vxk { x, y, z };
            assert(s[it2.index@] == *vertex);
            lemma_axis_k(s, hx, 0, *vertex, sx, x);
            lemma_axis_k(s, hy, 1, *vertex, sy, y);
            lemma_axis_k(s, hz, 2, *vertex, sz, z);
            assert(vx_recs(ks.push(k), px, py, pz) =~= vx_recs(ks, px, py, pz).push(vx_rec(k, px, py, pz)));
            lemma_flat_push(vx_recs(ks, px, py, pz), vx_rec(k, px, py, pz));
            assert(writer.view() =~= byte_bits(base + hdr) + flat(vx_recs(ks.push(k), px, py, pz)));
            ks = ks.push(k);
        }
//@ ret-bind
    proof {
        lemma_padded(writer);
        lemma_padded_prefix(writer.bytes(), base + hdr, flat(vx_recs(ks, px, py, pz)));
    }
    let ghost body = writer.bytes().skip((base + hdr).len() as int);
    writer.drop_elab();
    proof {
        assert(vx_parts(hdr + body, s, hx, hy, hz, ks, body));
        assert(base + hdr + body =~= base + (hdr + body));
        assert(is_vx(hdr + body, s, shortest_edge, precision.0));
    }
//@ end

/// what is read of a vertex
pub open spec fn axis_read(h: Axis, k: u64, r: f32) -> bool {
    h.p >= 1 && fin(h.a) && fin(h.b) && rv(h.a) <= rv(h.b) && rv(h.b) - rv(h.a) <= FMAX() / 2real && rmax(rabs(rv(h.a)), rabs(rv(h.b))) <= FMAX() / 4real
        ==> d_span(h.a, h.b, m_of(h.p), k, r)
}
pub open spec fn axis_from(h: Axis) -> bool {
    h.p <= 63 && vstd::float::float_cast_spec::<f64, f32>(h.mn, h.a) && vstd::float::float_cast_spec::<f64, f32>(h.mx, h.b)
}
pub open spec fn vx_read(x: Axis, y: Axis, z: Axis, k: Vxk, r: Vector3) -> bool {
    &&& fits(k.x, x.p as nat) && fits(k.y, y.p as nat) && fits(k.z, z.p as nat)
    &&& axis_read(x, k.x, r.0) && axis_read(y, k.y, r.1) && axis_read(z, k.z, r.2)
}
pub open spec fn vx_decoded(src: Seq<u8>, r: Seq<Vector3>, x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, rest: Seq<bool>) -> bool {
    &&& src.len() >= 59 && r.len() <= MAX_SEG_SIZE
    &&& src == vx_hdr(r.len() as u64, x, y, z) + src.skip(59)
    &&& axis_from(x) && axis_from(y) && axis_from(z)
    &&& ks.len() == r.len()
    &&& byte_bits(src.skip(59)) == flat(vx_recs(ks, x.p, y.p, z.p)) + rest
    &&& forall|i: int| 0 <= i < r.len() ==> vx_read(x, y, z, #[trigger] ks[i], r[i])
}
pub open spec fn is_vx_decoded(src: Seq<u8>, r: Seq<Vector3>) -> bool {
    exists|x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, rest: Seq<bool>| #[trigger] vx_decoded(src, r, x, y, z, ks, rest)
}
/// enough bytes for the vertices announced
pub open spec fn vx_rok(src: Seq<u8>, n: u64) -> bool {
    &&& src.len() >= 59 && n <= MAX_SEG_SIZE && src.subrange(0, 8) == le8(n)
    &&& src[56] <= 63 && src[57] <= 63 && src[58] <= 63
    &&& 8 * (src.len() - 59) >= (src[56] + src[57] + src[58]) * n
}
proof fn lemma_hdr_parts(n: u64, x: Axis, y: Axis, z: Axis, s: Seq<u8>, e: Seq<u8>)
    requires e == vx_hdr(n, x, y, z) + s,
    ensures
        e.subrange(0, 8) == le8(n), e.subrange(8, 16) == lef(x.mn), e.subrange(16, 24) == lef(x.mx), e.subrange(24, 32) == lef(y.mn),
        e.subrange(32, 40) == lef(y.mx), e.subrange(40, 48) == lef(z.mn), e.subrange(48, 56) == lef(z.mx),
{
    broadcast use axiom_lef_len;
    assert(e.subrange(0, 8) =~= le8(n));
    assert(e.subrange(8, 16) =~= lef(x.mn));
    assert(e.subrange(16, 24) =~= lef(x.mx));
    assert(e.subrange(24, 32) =~= lef(y.mn));
    assert(e.subrange(32, 40) =~= lef(y.mx));
    assert(e.subrange(40, 48) =~= lef(z.mn));
    assert(e.subrange(48, 56) =~= lef(z.mx));
}
proof fn lemma_hdr_inj(n: u64, x: Axis, y: Axis, z: Axis, m: u64, a: Axis, b: Axis, c: Axis, s: Seq<u8>, t: Seq<u8>)
    requires vx_hdr(n, x, y, z) + s == vx_hdr(m, a, b, c) + t,
    ensures
        n == m, s == t, x.p == a.p, y.p == b.p, z.p == c.p,
        x.mn == a.mn, x.mx == a.mx, y.mn == b.mn, y.mx == b.mx, z.mn == c.mn, z.mx == c.mx,
{
    broadcast use axiom_lef_len;
    let e = vx_hdr(n, x, y, z) + s;
    lemma_hdr_parts(n, x, y, z, s, e);
    lemma_hdr_parts(m, a, b, c, t, e);
    lemma_le8_inj(n, m);
    axiom_lef_inj(x.mn, a.mn); axiom_lef_inj(x.mx, a.mx);
    axiom_lef_inj(y.mn, b.mn); axiom_lef_inj(y.mx, b.mx);
    axiom_lef_inj(z.mn, c.mn); axiom_lef_inj(z.mx, c.mx);
    assert(e[56] == x.p && e[56] == a.p);
    assert(e[57] == y.p && e[57] == b.p);
    assert(e[58] == z.p && e[58] == c.p);
    assert(e.skip(59) =~= s); assert(e.skip(59) =~= t);
}
/// one axis comes back within a step, inside of the bounding box
pub open spec fn axis_close(s: Seq<Vector3>, r: Seq<Vector3>, h: Axis, j: int) -> bool {
    let big = rmax(rabs(rv(h.a)), rabs(rv(h.b)));
    vx_ok(s, h, j) && s.len() > 0 && big <= FMAX() / 4real ==> forall|i: int| 0 <= i < s.len() ==> {
        &&& fin(ax(#[trigger] r[i], j))
        &&& rabs(rv(ax(r[i], j)) - rv(ax(s[i], j))) <= (rv(h.b) - rv(h.a)) / (m_of(h.p) as real) + 40real * EPS() * big + 10real * ETA()
        &&& rv(ax(r[i], j)) >= rv(h.a) - 20real * EPS() * big - 5real * ETA()
        &&& rv(ax(r[i], j)) <= rv(h.b) + 20real * EPS() * big + 5real * ETA()
    }
}
proof fn lemma_axis_close(s: Seq<Vector3>, r: Seq<Vector3>, h: Axis, g: Axis, j: int, ks: Seq<Vxk>)
    requires
        axis_hdr(s, h, j), axis_from(g), g.mn == h.mn, g.mx == h.mx, g.p == h.p, s.len() == r.len(), ks.len() == s.len(), 0 <= j < 3,
        forall|i: int| 0 <= i < s.len() ==> axis_k(s, h, j, s[i], kx(#[trigger] ks[i], j)),
        forall|i: int| 0 <= i < s.len() ==> axis_read(g, kx(#[trigger] ks[i], j), ax(r[i], j)),
    ensures axis_close(s, r, h, j),
{
    let big = rmax(rabs(rv(h.a)), rabs(rv(h.b)));
    if vx_ok(s, h, j) && s.len() > 0 && big <= FMAX() / 4real {
        ax_f64_f32_back(h.mn, g.a, h.a);
        ax_f64_f32_back(h.mx, g.b, h.b);
        lemma_m_of(h.p);
        assert forall|i: int| 0 <= i < s.len() implies {
            &&& fin(ax(#[trigger] r[i], j))
            &&& rabs(rv(ax(r[i], j)) - rv(ax(s[i], j))) <= (rv(h.b) - rv(h.a)) / (m_of(h.p) as real) + 40real * EPS() * big + 10real * ETA()
            &&& rv(ax(r[i], j)) >= rv(h.a) - 20real * EPS() * big - 5real * ETA()
            &&& rv(ax(r[i], j)) <= rv(h.b) + 20real * EPS() * big + 5real * ETA()
        } by {
            let k = kx(ks[i], j);
            assert(axis_k(s, h, j, s[i], kx(ks[i], j)) && axis_read(g, kx(ks[i], j), ax(r[i], j)));
            assert(k_span(ax(s[i], j), h.a, h.b, m_of(h.p), k));
            lemma_span_roundtrip(ax(s[i], j), g.a, g.b, m_of(h.p), k, ax(r[i], j));
        }
    }
}
/// vertices come back within one step of every axis
pub open spec fn vx_close(s: Seq<Vector3>, r: Seq<Vector3>, edge: f32, prec: f32, x: Axis, y: Axis, z: Axis) -> bool {
    &&& axis_range(s, 0, x.a, x.b) && axis_prec(x, edge, prec) && axis_close(s, r, x, 0)
    &&& axis_range(s, 1, y.a, y.b) && axis_prec(y, edge, prec) && axis_close(s, r, y, 1)
    &&& axis_range(s, 2, z.a, z.b) && axis_prec(z, edge, prec) && axis_close(s, r, z, 2)
}
/// C04: count and order of vertices are kept, and every coordinate comes back within one step
pub proof fn theorem_vx_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector3>, edge: f32, prec: f32, r: Seq<Vector3>)
    requires is_vx(e, s, edge, prec), is_vx_decoded(e + tail, r),
    ensures r.len() == s.len(), exists|x: Axis, y: Axis, z: Axis| #[trigger] vx_close(s, r, edge, prec, x, y, z),
{
    let (x, y, z, ks, body) = choose|x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, body: Seq<u8>| #[trigger] vx_parts(e, s, x, y, z, ks, body) && axis_prec(x, edge, prec) && axis_prec(y, edge, prec) && axis_prec(z, edge, prec);
    let (a, b, c, js, rest) = choose|x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, rest: Seq<bool>| #[trigger] vx_decoded(e + tail, r, x, y, z, ks, rest);
    let src = e + tail;
    let n = s.len() as u64;
    assert(src =~= vx_hdr(n, x, y, z) + (body + tail));
    lemma_hdr_inj(n, x, y, z, r.len() as u64, a, b, c, body + tail, src.skip(59));
    let w = (x.p + y.p + z.p) as nat;
    let rs = vx_recs(ks, x.p, y.p, z.p);
    let qs = vx_recs(js, x.p, y.p, z.p);
    assert(all_len(rs, w)); assert(all_len(qs, w));
    lemma_records(body, tail, rs, qs, rest, w);
    assert forall|i: int| 0 <= i < s.len() implies ks[i] == #[trigger] js[i] by {
        assert(rs[i] == qs[i]);
        assert(rs[i] == vx_rec(ks[i], x.p, y.p, z.p) && qs[i] == vx_rec(js[i], x.p, y.p, z.p));
        assert(vx_k(s, x, y, z, i, ks[i]) && vx_read(a, b, c, js[i], r[i]));
        lemma_m_of(x.p); lemma_m_of(y.p); lemma_m_of(z.p);
        lemma_vx_rec_inj(ks[i], js[i], x.p, y.p, z.p);
    }
    assert forall|i: int| 0 <= i < s.len() implies 
        axis_k(s, x, 0, s[i], kx(#[trigger] ks[i], 0)) && axis_k(s, y, 1, s[i], kx(ks[i], 1)) && axis_k(s, z, 2, s[i], kx(ks[i], 2))
        && axis_read(a, kx(ks[i], 0), ax(r[i], 0)) && axis_read(b, kx(ks[i], 1), ax(r[i], 1)) && axis_read(c, kx(ks[i], 2), ax(r[i], 2)) by {
        assert(ks[i] == js[i]);
        assert(vx_k(s, x, y, z, i, ks[i]) && vx_read(a, b, c, js[i], r[i]));
    }
    lemma_axis_close(s, r, x, a, 0, ks);
    lemma_axis_close(s, r, y, b, 1, ks);
    lemma_axis_close(s, r, z, c, 2, ks);
    assert(vx_close(s, r, edge, prec, x, y, z));
}
proof fn lemma_vx_rec_inj(k: Vxk, j: Vxk, p: u8, q: u8, r: u8)
    requires
        vx_rec(k, p, q, r) == vx_rec(j, p, q, r), p <= 63, q <= 63, r <= 63,
        fits(k.x, p as nat), fits(k.y, q as nat), fits(k.z, r as nat),
        fits(j.x, p as nat), fits(j.y, q as nat), fits(j.z, r as nat),
    ensures k == j,
{
    let u = vx_rec(k, p, q, r);
    let w = vx_rec(j, p, q, r);
    assert(u.take(p as int) =~= val_bits(k.x, p as nat)); assert(w.take(p as int) =~= val_bits(j.x, p as nat));
    assert(u.subrange(p as int, p + q) =~= val_bits(k.y, q as nat)); assert(w.subrange(p as int, p + q) =~= val_bits(j.y, q as nat));
    assert(u.skip(p + q) =~= val_bits(k.z, r as nat)); assert(w.skip(p + q) =~= val_bits(j.z, r as nat));
    lemma_val_bits_inj(k.x, j.x, p as nat); lemma_val_bits_inj(k.y, j.y, q as nat); lemma_val_bits_inj(k.z, j.z, r as nat);
}
proof fn lemma_step_t(big: real, sx: real, edge: real, t: real)
    requires
        0.000000000000000000000000000001real <= big <= FMAX() / 2real, sx - big <= EPS() * big + ETA(), big - sx <= EPS() * big + ETA(),
        0.0000000000000000000000001real * big <= edge <= 10000000000real * big,
        rabs(edge / sx) <= FMAX() ==> t - edge / sx <= EPS() * rabs(edge / sx) + ETA() && edge / sx - t <= EPS() * rabs(edge / sx) + ETA(),
    ensures 
        sx > 0real, rabs(edge / sx) <= FMAX(), 
        t * big <= edge * 1.000001real,
        0.00000000000000000000000009real <= t <= 20000000000real,
{
    let d = 0.0000001real;
    assert(ETA() <= 0.00000003real * big);
    assert(EPS() <= 0.00000006real);
    assert(EPS() * big <= 0.00000006real * big) by (nonlinear_arith) requires EPS() <= 0.00000006real, big > 0real;
    assert(big * (1real - d) <= sx <= big * (1real + d));
    let q0 = edge / sx;
    assert(q0 * sx == edge) by (nonlinear_arith) requires q0 == edge / sx, sx > 0real;
    assert(q0 > 0real) by (nonlinear_arith) requires q0 * sx == edge, sx > 0real, edge > 0real;
    assert(q0 * (big * (1real - d)) <= edge) by (nonlinear_arith) requires q0 * sx == edge, q0 > 0real, big * (1real - d) <= sx;
    assert(q0 * (big * (1real + d)) >= edge) by (nonlinear_arith) requires q0 * sx == edge, q0 > 0real, big * (1real + d) >= sx;
    assert(q0 * (big * (1real - d)) == (q0 * big) * (1real - d)) by (nonlinear_arith);
    assert(q0 * (big * (1real + d)) == (q0 * big) * (1real + d)) by (nonlinear_arith);
    assert(q0 >= 0.000000000000000000000000099real) by (nonlinear_arith) requires (q0 * big) * (1real + d) >= 0.0000000000000000000000001real * big, big > 0real, d == 0.0000001real;
    assert(q0 <= 10001000000real) by (nonlinear_arith) requires (q0 * big) * (1real - d) <= 10000000000real * big, big > 0real, d == 0.0000001real;
    assert(EPS() * q0 <= 0.00000006real * q0) by (nonlinear_arith) requires EPS() <= 0.00000006real, q0 > 0real;
    assert(ETA() <= 0.00000001real * q0);
    assert(t <= q0 * 1.00000007real);
    assert(t * big <= (q0 * 1.00000007real) * big) by (nonlinear_arith) requires t <= q0 * 1.00000007real, big > 0real;
    assert((q0 * 1.00000007real) * big == (q0 * big) * 1.00000007real) by (nonlinear_arith);
}
proof fn lemma_step_i(big: real, edge: real, t: real, prec: real, inc: real)
    requires
        big > 0real, edge > 0real, t * big <= edge * 1.000001real, 0.00000000000000000000000009real <= t <= 20000000000real,
        0.00001real <= prec <= 100000real,
        rabs(t * prec) <= FMAX() ==> inc - t * prec <= EPS() * rabs(t * prec) + ETA() && t * prec - inc <= EPS() * rabs(t * prec) + ETA(),
    ensures
        rabs(t * prec) <= FMAX(), inc * big <= edge * prec * 1.000002real, 0.0000000000000000000000000000008real <= inc <= 3000000000000000real,
{
    let u = t * prec;
    assert(u >= 0.0000000000000000000000000000009real) by (nonlinear_arith) requires u == t * prec, t >= 0.00000000000000000000000009real, prec >= 0.00001real;
    assert(u <= 2000000000000000real) by (nonlinear_arith) requires u == t * prec, 0real < t <= 20000000000real, 0real < prec <= 100000real;
    assert(EPS() * u <= 0.00000006real * u) by (nonlinear_arith) requires EPS() <= 0.00000006real, u > 0real;
    assert(ETA() <= 0.00000003real * u);
    assert(inc <= u * 1.0000001real);
    assert(inc * big <= (u * 1.0000001real) * big) by (nonlinear_arith) requires inc <= u * 1.0000001real, big > 0real;
    assert((u * 1.0000001real) * big == ((t * big) * prec) * 1.0000001real) by (nonlinear_arith) requires u == t * prec;
    assert((t * big) * prec <= (edge * 1.000001real) * prec) by (nonlinear_arith) requires t * big <= edge * 1.000001real, prec > 0real;
    assert((edge * 1.000001real) * prec == (edge * prec) * 1.000001real) by (nonlinear_arith);
    assert(edge * prec > 0real) by (nonlinear_arith) requires edge > 0real, prec > 0real;
}
proof fn lemma_step_q(big: real, edge: real, prec: real, inc: real, q: real)
    requires
        big > 0real, edge > 0real, prec > 0real,
        inc * big <= edge * prec * 1.000002real, 0.0000000000000000000000000000008real <= inc <= 3000000000000000real,
        rabs(1real / inc) <= FMAX() ==> q - 1real / inc <= EPS() * rabs(1real / inc) + ETA() && 1real / inc - q <= EPS() * rabs(1real / inc) + ETA(),
    ensures rabs(1real / inc) <= FMAX(), q > 0real, big * 0.9999999real <= q * (edge * prec) * 1.000002real,
{
    let w = 1real / inc;
    assert(w * inc == 1real) by (nonlinear_arith) requires w == 1real / inc, inc > 0real;
    assert(w > 0real) by (nonlinear_arith) requires w * inc == 1real, inc > 0real;
    assert(w <= 2000000000000000000000000000000real) by (nonlinear_arith) requires w * inc == 1real, inc >= 0.0000000000000000000000000000008real, w > 0real;
    assert(w >= 0.0000000000000001real) by (nonlinear_arith) requires w * inc == 1real, inc <= 3000000000000000real, w > 0real;
    assert(EPS() * w <= 0.00000006real * w) by (nonlinear_arith) requires EPS() <= 0.00000006real, w > 0real;
    assert(ETA() <= 0.00000001real * w);
    assert(q >= w * 0.9999999real);
    assert(q * inc >= 0.9999999real) by (nonlinear_arith) requires q >= w * 0.9999999real, w * inc == 1real, inc > 0real;
    assert((q * inc) * big >= 0.9999999real * big) by (nonlinear_arith) requires q * inc >= 0.9999999real, big > 0real;
    assert((q * inc) * big == q * (inc * big)) by (nonlinear_arith);
    assert(q * (inc * big) <= q * (edge * prec * 1.000002real)) by (nonlinear_arith) requires inc * big <= edge * prec * 1.000002real, q > 0real;
    assert(q * (edge * prec * 1.000002real) == q * (edge * prec) * 1.000002real) by (nonlinear_arith);
}
proof fn lemma_step_end(big: real, edge: real, prec: real, q: real, r: real, m: real)
    requires
        big > 0real, edge > 0real, prec > 0real, q > 0real, big * 0.9999999real <= q * (edge * prec) * 1.000002real,
        q <= r * (1real + TINY()), m == r - 1real, r >= 2real,
    ensures big / m <= 2real * prec * edge * (1real + 5real * TINY()),
{
    let g = edge * prec;
    assert(g > 0real) by (nonlinear_arith) requires edge > 0real, prec > 0real, g == edge * prec;
    assert(r * (1real + TINY()) == r * 1.000001real) by (nonlinear_arith) requires TINY() == 0.000001real;
    assert(q <= 2real * m * 1.000001real) by (nonlinear_arith) requires q <= r * 1.000001real, m == r - 1real, r >= 2real;
    assert(q * g <= 2real * m * 1.000001real * g) by (nonlinear_arith) requires q <= 2real * m * 1.000001real, g > 0real;
    assert(2real * m * 1.000001real * g == 2.000002real * (m * g)) by (nonlinear_arith);
    assert(m * g > 0real) by (nonlinear_arith) requires m > 0real, g > 0real;
    assert(big <= 2.00001real * (m * g));
    assert(2real * prec * edge * (1real + 5real * TINY()) == 2.00001real * g) by (nonlinear_arith) requires g == edge * prec, TINY() == 0.000001real;
    assert(big / m <= 2.00001real * g) by (nonlinear_arith) requires big <= 2.00001real * (m * g), m > 0real;
}
/// C04: the step is at most twice the part of the shortest edge asked for, or the format does not have more bits
pub proof fn theorem_vx_step(h: Axis, edge: f32, prec: f32)
    requires
        axis_prec(h, edge, prec), 1 <= h.p <= 63,
        fin(h.a), fin(h.b), 0.000000000000000000000000000001real <= rv(h.b) - rv(h.a) <= FMAX() / 2real,
        fin(edge), fin(prec),
        0.0000000000000000000000001real * (rv(h.b) - rv(h.a)) <= rv(edge) <= 10000000000real * (rv(h.b) - rv(h.a)),
        0.00001real <= rv(prec) <= 100000real,
    ensures h.p == 63 || (rv(h.b) - rv(h.a)) / (m_of(h.p) as real) <= 2real * rv(prec) * rv(edge) * (1real + 5real * TINY()),
{
    broadcast use {ax_sub, ax_div, ax_mul, ax_rnd};
    let (sx, inc, p) = choose|sx: f32, inc: f32, p: u8| size_of(h.a, h.b, sx) && #[trigger] inc_of(edge, prec, sx, inc) && #[trigger] prec_of(inc, p)
        && h.p == (if p < 1 { 1u8 } else if p > 63 { 63u8 } else { p });
    let span = choose|span: f32| #[trigger] vstd::std_specs::ops::sub_ensures::<f32>(h.b, h.a, span)
        && (fin(span) ==> fin(sx) && rv(sx) > 0real && (rv(sx) == rv(span) || (rv(span) <= rv(sx) && rv(sx) <= ETA())));
    let t = choose|t: f32| #[trigger] vstd::std_specs::ops::div_ensures::<f32>(edge, sx, t) && vstd::std_specs::ops::mul_ensures::<f32>(t, prec, inc);
    let (one, q) = choose|one: f32, q: f32| fin(one) && rv(one) == 1real && #[trigger] vstd::std_specs::ops::div_ensures::<f32>(one, inc, q) && bits_for(q, p);
    let big = rv(h.b) - rv(h.a);
    assert(rnd(big, span));
    lemma_m_of(h.p);
    lemma_step_t(big, rv(sx), rv(edge), rv(t));
    lemma_step_i(big, rv(edge), rv(t), rv(prec), rv(inc));
    lemma_step_q(big, rv(edge), rv(prec), rv(inc), rv(q));
    if p <= 63 {
        lemma_r2(h.p as nat); lemma_r2_mono(p as nat, h.p as nat);
        assert(m_of(h.p) as real == r2(h.p as nat) - 1real);
        lemma_step_end(big, rv(edge), rv(prec), rv(q), r2(h.p as nat), m_of(h.p) as real);
    }
}

proof fn lemma_vx_split(src: Seq<u8>, n: u64, x: Axis, y: Axis, z: Axis)
    requires 
        src.len() >= 59, src.subrange(0, 8) == le8(n), src.subrange(8, 16) == lef(x.mn), src.subrange(16, 24) == lef(x.mx),
        src.subrange(24, 32) == lef(y.mn), src.subrange(32, 40) == lef(y.mx),
        src.subrange(40, 48) == lef(z.mn), src.subrange(48, 56) == lef(z.mx), 
        src[56] == x.p, src[57] == y.p, src[58] == z.p,
    ensures src == vx_hdr(n, x, y, z) + src.skip(59),
{
    broadcast use axiom_lef_len;
    assert(src =~= src.subrange(0, 8) + src.subrange(8, 16) + src.subrange(16, 24) + src.subrange(24, 32) + src.subrange(32, 40) + src.subrange(40, 48) + src.subrange(48, 56) + src.subrange(56, 59) + src.skip(59));
    assert(src.subrange(56, 59) =~= seq![x.p] + seq![y.p] + seq![z.p]);
    assert(src =~= vx_hdr(n, x, y, z) + src.skip(59));
}
/// C17: saved vertices are accepted by the reader
pub proof fn theorem_vx_readable(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector3>, edge: f32, prec: f32)
    requires is_vx(e, s, edge, prec), s.len() <= MAX_SEG_SIZE,
    ensures vx_rok(e + tail, s.len() as u64),
{
    broadcast use axiom_lef_len;
    let (x, y, z, ks, body) = choose|x: Axis, y: Axis, z: Axis, ks: Seq<Vxk>, body: Seq<u8>| #[trigger] vx_parts(e, s, x, y, z, ks, body) && axis_prec(x, edge, prec) && axis_prec(y, edge, prec) && axis_prec(z, edge, prec);
    let src = e + tail;
    let n = s.len() as u64;
    assert(src.subrange(0, 8) =~= le8(n));
    assert(src[56] == x.p); assert(src[57] == y.p); assert(src[58] == z.p);
    lemma_flat_len(vx_recs(ks, x.p, y.p, z.p), (x.p + y.p + z.p) as nat);
    assert(all_len(vx_recs(ks, x.p, y.p, z.p), (x.p + y.p + z.p) as nat));
    assert((x.p + y.p + z.p) * n <= 8 * body.len());
}
//@ fn read_tmf_vertices
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(200)]
//@ spec
    ensures
        ret matches Ok(r) ==> r@.len() <= MAX_SEG_SIZE && is_vx_decoded((*old(reader)).rest(), r@),
        (*old(reader)).reliable() && (exists|len: u64| #[trigger] vx_rok((*old(reader)).rest(), len)) ==> ret is Ok,
//@ begin
    broadcast use {group_req, axiom_lef_len};
    let ghost src = (*old(reader)).rest();
    let ghost ok = (*old(reader)).reliable() && exists|len: u64| #[trigger] vx_rok(src, len);
//@ after-let vertex_count
    let ghost n8 = vertex_count as u64;
    proof {
        assert(src.subrange(0, 8) =~= le8(n8));
        if ok {
            let len = choose|len: u64| #[trigger] vx_rok(src, len);
            lemma_le8_inj(len, n8);
        }
    }
//@ after-let max_z
    let ghost (mnx, mxx, mny, mxy, mnz, mxz) = choose|mnx: f64, mxx: f64, mny: f64, mxy: f64, mnz: f64, mxz: f64|
        #[trigger] vstd::float::float_cast_spec::<f64, f32>(mnx, min_x) && #[trigger] vstd::float::float_cast_spec::<f64, f32>(mxx, max_x)
        && #[trigger] vstd::float::float_cast_spec::<f64, f32>(mny, min_y) && #[trigger] vstd::float::float_cast_spec::<f64, f32>(mxy, max_y)
        && #[trigger] vstd::float::float_cast_spec::<f64, f32>(mnz, min_z) && #[trigger] vstd::float::float_cast_spec::<f64, f32>(mxz, max_z)
        && src.len() >= 56 
        && src.subrange(8, 16) =~= lef(mnx) && src.subrange(16, 24) =~= lef(mxx) && src.subrange(24, 32) =~= lef(mny) && src.subrange(32, 40) =~= lef(mxy)
        && src.subrange(40, 48) =~= lef(mnz) && src.subrange(48, 56) =~= lef(mxz)
        && reader.rest() =~= src.skip(56);
//@ after-let prec_x #1
    proof { assert(src.skip(56).take(1)[0] == prec_x); assert(reader.rest() =~= src.skip(57)); }
    let ghost px = prec_x;
//@ after-let prec_y #1
    proof { assert(reader.rest() =~= src.skip(58)); assert(src.skip(57).take(1)[0] == prec_y); }
    let ghost py = prec_y;
//@ after-let prec_z #1
    proof { assert(reader.rest() =~= src.skip(59)); assert(src.skip(58).take(1)[0] == prec_z); }
    let ghost pz = prec_z;
    let ghost hx = Axis { mn: mnx, mx: mxx, a: min_x, b: max_x, p: prec_x };
    let ghost hy = Axis { mn: mny, mx: mxy, a: min_y, b: max_y, p: prec_y };
    let ghost hz = Axis { mn: mnz, mx: mxz, a: min_z, b: max_z, p: prec_z };
    let ghost bits = byte_bits(src.skip(59));
    let ghost w = prec_x + prec_y + prec_z;
    proof {
        lemma_vx_split(src, n8, hx, hy, hz);
        if px <= 63 { lemma_m_of(px); }
        if py <= 63 { lemma_m_of(py); }
        if pz <= 63 { lemma_m_of(pz); }
    }
//@ before-loop 1
    let ghost mut ks: Seq<Vxk> = Seq::empty();
    proof { 
        assert(vx_recs(ks, px, py, pz) =~= Seq::empty()); 
        assert(flat(vx_recs(ks, px, py, pz)) + reader.view() =~= bits); 
    }
//@ loop 1
        invariant
            ok ==> reader.reader.reliable(),
            reader.wf(),
            bits == flat(vx_recs(ks, px, py, pz)) + reader.view(),
            ks.len() == it1.index@, vertices@.len() == ks.len(),
            forall|i: int| 0 <= i < ks.len() ==> vx_read(hx, hy, hz, #[trigger] ks[i], vertices@[i]),
//@ loop-begin 1
        broadcast use lemma_despan_b;
        let ghost o = reader.view();
        proof {
            assert(all_len(vx_recs(ks, px, py, pz), w as nat));
            lemma_flat_len(vx_recs(ks, px, py, pz), w as nat);
            let a = ks.len() as int;
            assert(ok ==> o.len() >= w) by (nonlinear_arith)
                requires a + 1 <= n8, ok ==> bits.len() >= w * n8, o.len() == bits.len() - w * a;
        }
//@ after-let z #1
        let ghost k0 = Vxk { x, y, z };
        proof {
            let o1 = o.skip(px as int);
            let o2 = o1.skip(py as int);
            lemma_got_cat(o, o1, px as nat, x);
            lemma_got_cat(o1, o2, py as nat, y);
            lemma_got_cat(o2, reader.view(), pz as nat, z);
            assert(o =~= vx_rec(k0, px, py, pz) + reader.view());
        }
//@ loop-end 1
        proof {
            assert(vx_read(hx, hy, hz, k0, (x, y, z)));
            assert(vx_recs(ks.push(k0), px, py, pz) =~= vx_recs(ks, px, py, pz).push(vx_rec(k0, px, py, pz)));
            lemma_flat_push(vx_recs(ks, px, py, pz), vx_rec(k0, px, py, pz));
            assert(bits =~= flat(vx_recs(ks.push(k0), px, py, pz)) + reader.view());
            ks = ks.push(k0);
        }
//@ ret-bind
    proof {
        assert(vx_decoded(src, ret__->Ok_0@, hx, hy, hz, ks, reader.view()));
    }
//@ end
}
