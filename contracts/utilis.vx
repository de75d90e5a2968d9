//@ source src/utilis.rs
pub mod utilis {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use crate::vf::*;
use crate::fl::*;
use crate::mesh::{expand, all_in};
use crate::{FloatType, IndexType, Vector3};
/// the first m elements are gone and no index changed what it refers to
pub open spec fn is_pruned<T>(d: Seq<T>, idx: Seq<IndexType>, rd: Seq<T>, ridx: Seq<IndexType>, m: nat) -> bool {
    &&& m <= d.len() && rd =~= d.skip(m as int)
    &&& ridx.len() == idx.len()
    &&& forall|i: int| 0 <= i < idx.len() ==> (#[trigger] idx[i]) >= m && ridx[i] == idx[i] - m
}
pub proof fn lemma_pruned<T>(d: Seq<T>, idx: Seq<IndexType>, rd: Seq<T>, ridx: Seq<IndexType>, m: nat)
    requires is_pruned(d, idx, rd, ridx, m),
    ensures
        all_in(d, idx) ==> all_in(rd, ridx) && expand(rd, ridx) =~= expand(d, idx),
{
    if all_in(d, idx) {
        assert forall|i: int| 0 <= i < ridx.len() implies (#[trigger] ridx[i]) < rd.len() by { assert(idx[i] < d.len()); assert(idx[i] >= m); }
        assert forall|i: int| 0 <= i < idx.len() implies expand(rd, ridx)[i] == expand(d, idx)[i] by { assert(idx[i] >= m && idx[i] < d.len()); }
    }
}
//@ fn fast_prune
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        exists|m: nat| #[trigger] is_pruned(old(data)@, old(indices)@, final(data)@, final(indices)@, m),
//@ begin
    let ghost d = data@;
    let ghost idx = indices@;
    proof { if idx.len() == 0 { } }
//@ loop 1
        invariant
            min_index <= d.len(), idx.len() == 0 ==> min_index == 0,
            forall|i: int| 0 <= i < it1.index@ ==> (#[trigger] idx[i]) >= min_index,
//@ before `return`
            proof { assert(is_pruned(d, idx, data@, indices@, 0)); }
//@ before-loop 2
    let ghost rd = data@;
    proof { assert(rd =~= d.skip(min_index as int)); assert(indices@ == idx); }
//@ loop 2
        invariant
            indices@.len() == idx.len(), data@ == rd, rd =~= d.skip(min_index as int), min_index <= d.len(),
            forall|i: int| 0 <= i < idx.len() ==> (#[trigger] idx[i]) >= min_index,
            forall|i: int| 0 <= i < idx2 ==> (#[trigger] indices@[i]) == idx[i] - min_index,
            forall|i: int| idx2 <= i < idx.len() ==> (#[trigger] indices@[i]) == idx[i],
//@ after-loop 2
    proof { assert(is_pruned(d, idx, data@, indices@, min_index as nat)); }
//@ end

//@ if fast_trig
//@ item type fprec
/// s is the sine of the angle d of the first quadrant, up to the accuracy of the approximation
pub open spec fn is_fsin(d: f64, s: f64) -> bool {
    find(d) && 0real <= rd(d) <= 1.5708real ==> find(s) && 0real <= rd(s) <= 1real && rabs(rd(s) - rsin(rd(d) / RPIH())) <= 0.0004real
}
//@ fn fsin extern
//@ spec
    ensures is_fsin(x, ret),
//@ end
//@ endif
// ---------------------------------------------------------------- vectors
pub open spec fn fin3(a: Vector3) -> bool { fin(a.0) && fin(a.1) && fin(a.2) }
pub open spec fn sq3(a: Vector3) -> real { rv(a.0) * rv(a.0) + rv(a.1) * rv(a.1) + rv(a.2) * rv(a.2) }
/// m is the length of a
pub open spec fn is_mag(a: Vector3, m: f32) -> bool {
    &&& fin(m) && rv(m) <= 2000real ==> fin3(a) && rv(m) >= 0real && near2(sq3(a), rv(m))
    &&& fin3(a) && sq3(a) <= 1000000real ==> fin(m) && rv(m) <= 1001real
}
/// m is about the root of s
pub open spec fn near2(s: real, m: real) -> bool {
    s - m * m <= 0.000001real * s + 0.000000001real && m * m - s <= 0.000001real * s + 0.000000001real
}
/// squares that are not too big
proof fn lemma_square(x: f32, xx: f32)
    requires mul_ensures::<f32>(x, x, xx), fin(xx), rv(xx) <= 1000000000real,
    ensures fin(x), rnd(rv(x) * rv(x), xx), rv(x) * rv(x) >= 0real, rv(xx) >= 0real, rv(x) * rv(x) <= FMAX(),
{
    broadcast use {ax_rnd, ax_kinds};
    ax_mul_fin(x, x, xx);
    let r = rv(x) * rv(x);
    assert(r >= 0real) by (nonlinear_arith) requires r == rv(x) * rv(x);
    if r > FMAX() { ax_mul_big(x, x, xx); assert(false); }
    ax_mul(x, x, xx);
}
/// sums of two positive numbers
proof fn lemma_sum(x: f32, y: f32, c: f32)
    requires add_ensures::<f32>(x, y, c), fin(c), rv(c) <= 1000000000real, fin(x) ==> rv(x) >= 0real, fin(y) ==> rv(y) >= 0real,
    ensures fin(x), fin(y), rnd(rv(x) + rv(y), c), rv(x) + rv(y) <= 2real * rv(c) + 1real,
{
    broadcast use {ax_rnd, ax_kinds};
    ax_add_fin(x, y, c);
    if rv(x) + rv(y) > FMAX() { ax_add_big(x, y, c); assert(false); }
    ax_add(x, y, c);
    let t = rv(x) + rv(y);
    assert(t <= 2real * rv(c) + 1real) by (nonlinear_arith) requires t - rv(c) <= EPS() * rabs(t) + ETA(), t >= 0real, rabs(t) == t, EPS() == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
}
/// rounding changes little
proof fn lemma_rnd_up(t: real, c: f32)
    requires rnd(t, c), t >= 0real,
    ensures 0real <= rv(c) <= 1.000001real * t + 0.000001real,
{
    broadcast use {ax_rnd};
    assert(rv(c) <= 1.000001real * t + 0.000001real) by (nonlinear_arith) requires rv(c) - t <= EPS() * rabs(t) + ETA(), t >= 0real, rabs(t) == t, EPS() == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
}
proof fn lemma_sq_pos(x: f32, xx: f32)
    requires mul_ensures::<f32>(x, x, xx), fin(xx),
    ensures fin(x), rv(xx) >= 0real, rv(x) * rv(x) >= 0real,
{
    broadcast use {ax_rnd, ax_kinds};
    ax_mul_fin(x, x, xx);
    let r = rv(x) * rv(x);
    assert(r >= 0real) by (nonlinear_arith) requires r == rv(x) * rv(x);
    if r > FMAX() { ax_mul_big(x, x, xx); } else { ax_mul(x, x, xx); }
}
/// the rounding errors of squares, sums and the root add up to little
proof fn lemma_mag_real(x2: real, y2: real, z2: real, xx: real, yy: real, zz: real, s1: real, s2: real, r: real, m: real)
    requires
        x2 >= 0real, y2 >= 0real, z2 >= 0real,
        xx - x2 <= EPS() * x2 + ETA(), x2 - xx <= EPS() * x2 + ETA(),
        yy - y2 <= EPS() * y2 + ETA(), y2 - yy <= EPS() * y2 + ETA(),
        zz - z2 <= EPS() * z2 + ETA(), z2 - zz <= EPS() * z2 + ETA(),
        s1 - (xx + yy) <= EPS() * (xx + yy) + ETA(), (xx + yy) - s1 <= EPS() * (xx + yy) + ETA(),
        s2 - (s1 + zz) <= EPS() * (s1 + zz) + ETA(), (s1 + zz) - s2 <= EPS() * (s1 + zz) + ETA(),
        xx >= 0real, yy >= 0real, zz >= 0real, s1 >= 0real, s2 >= 0real,
        r >= 0real, r * r == s2, m >= 0real, m - r <= EPS() * r + ETA(), r - m <= EPS() * r + ETA(), r <= 10000real,
    ensures near2(x2 + y2 + z2, m),
{
    let s = x2 + y2 + z2;
    let e = EPS();
    assert(s2 - s <= 4real * e * s + 20real * ETA() && s - s2 <= 4real * e * s + 20real * ETA()) by (nonlinear_arith) requires
        x2 >= 0real, y2 >= 0real, z2 >= 0real, s == x2 + y2 + z2, e == 1real / 16777216real, ETA() >= 0real,
        xx - x2 <= e * x2 + ETA(), x2 - xx <= e * x2 + ETA(),
        yy - y2 <= e * y2 + ETA(), y2 - yy <= e * y2 + ETA(),
        zz - z2 <= e * z2 + ETA(), z2 - zz <= e * z2 + ETA(),
        s1 - (xx + yy) <= e * (xx + yy) + ETA(), (xx + yy) - s1 <= e * (xx + yy) + ETA(),
        s2 - (s1 + zz) <= e * (s1 + zz) + ETA(), (s1 + zz) - s2 <= e * (s1 + zz) + ETA();
    let d = m - r;
    assert(m * m - r * r == d * (2real * r + d)) by (nonlinear_arith) requires d == m - r;
    let b = e * r + ETA();
    assert(d * (2real * r + d) <= b * (2real * r + b) && -(d * (2real * r + d)) <= b * (2real * r + b)) by (nonlinear_arith)
        requires d <= b, -d <= b, b >= 0real, r >= 0real, d + r >= 0real;
    assert(b * (2real * r + b) <= 3real * e * (r * r) + 0.0000000001real) by (nonlinear_arith)
        requires b == e * r + ETA(), 0real <= r <= 10000real, e == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
}
pub broadcast proof fn lemma_mag(i: Vector3, xx: f32, yy: f32, zz: f32, s1: f32, s2: f32, m: f32)
    requires
        #[trigger] mul_ensures::<f32>(i.0, i.0, xx), #[trigger] mul_ensures::<f32>(i.1, i.1, yy), #[trigger] mul_ensures::<f32>(i.2, i.2, zz),
        #[trigger] add_ensures::<f32>(xx, yy, s1), #[trigger] add_ensures::<f32>(s1, zz, s2), #[trigger] call_ensures(f32::sqrt, (s2,), m),
    ensures is_mag(i, m),
{
    broadcast use {ax_rnd, ax_kinds};
    if fin(m) && rv(m) <= 2000real {
        assert(fin(s2) && rv(s2) >= 0real);
        let r = choose|s: real| #[trigger] is_root(rv(s2), s) && rnd(s, m);
        assert(EPS() == 1real / 16777216real);
        assert(r <= 4000real) by (nonlinear_arith) requires r - rv(m) <= EPS() * rabs(r) + ETA(), rv(m) <= 2000real, r >= 0real, rabs(r) == r, EPS() == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
        assert(rv(s2) <= 16000000real) by (nonlinear_arith) requires r * r == rv(s2), 0real <= r <= 4000real;
        ax_add_fin(s1, zz, s2);
        ax_add_fin(xx, yy, s1);
        lemma_sq_pos(i.0, xx); lemma_sq_pos(i.1, yy); lemma_sq_pos(i.2, zz);
        if rv(xx) + rv(yy) > FMAX() { ax_add_big(xx, yy, s1); } else { ax_add(xx, yy, s1); }
        lemma_sum(s1, zz, s2); 
        lemma_sum(xx, yy, s1); 
        lemma_square(i.0, xx); lemma_square(i.1, yy); lemma_square(i.2, zz);
        let (x2, y2, z2) = (rv(i.0) * rv(i.0), rv(i.1) * rv(i.1), rv(i.2) * rv(i.2));
        lemma_mag_real(x2, y2, z2, rv(xx), rv(yy), rv(zz), rv(s1), rv(s2), r, rv(m));
    }
    if fin3(i) && sq3(i) <= 1000000real {
        let (x2, y2, z2) = (rv(i.0) * rv(i.0), rv(i.1) * rv(i.1), rv(i.2) * rv(i.2));
        assert(x2 >= 0real) by (nonlinear_arith) requires x2 == rv(i.0) * rv(i.0);
        assert(y2 >= 0real) by (nonlinear_arith) requires y2 == rv(i.1) * rv(i.1);
        assert(z2 >= 0real) by (nonlinear_arith) requires z2 == rv(i.2) * rv(i.2);
        ax_mul(i.0, i.0, xx); ax_mul(i.1, i.1, yy); ax_mul(i.2, i.2, zz);
        lemma_rnd_up(x2, xx); lemma_rnd_up(y2, yy); lemma_rnd_up(z2, zz);
        ax_add(xx, yy, s1); lemma_rnd_up(rv(xx) + rv(yy), s1);
        ax_add(s1, zz, s2); lemma_rnd_up(rv(s1) + rv(zz), s2);
        let r = choose|s: real| #[trigger] is_root(rv(s2), s) && rnd(s, m);
        assert(rv(s2) <= 1000100real);
        assert(r <= 1000.5real) by (nonlinear_arith) requires r * r <= 1000100real, r >= 0real;
    }
}
//@ fn magnitude
//@ spec
    ensures is_mag(i, ret),
//@ begin
    broadcast use {group_req, lemma_mag};
//@ end
/// the distance of two points, squared
pub open spec fn d2(a: Vector3, b: Vector3) -> real {
    let (x, y, z) = (rv(a.0) - rv(b.0), rv(a.1) - rv(b.1), rv(a.2) - rv(b.2));
    x * x + y * y + z * z
}
/// r is not longer than the distance of a and b, up to rounding
pub open spec fn not_longer(r: f32, a: Vector3, b: Vector3) -> bool {
    fin3(a) && fin3(b) && d2(a, b) <= 1000000000000000000000000000000000000real
        ==> fin(r) && rv(r) >= 0real && rv(r) * rv(r) <= 1.00001real * d2(a, b) + 100real * ETA()
}
/// r is t, rounded: their squares
proof fn lemma_rnd_sq(t: real, r: f32)
    requires rnd(t, r),
    ensures rv(r) * rv(r) <= (1real + 3real * EPS()) * (t * t) + 3real * ETA(),
{
    broadcast use {ax_rnd};
    let a = rabs(t);
    let b = rabs(rv(r));
    let e = EPS();
    assert(rv(r) * rv(r) == b * b && t * t == a * a) by (nonlinear_arith) requires b == rv(r) || b == -rv(r), a == t || a == -t;
    assert(b <= a + e * a + ETA());
    assert(b * b <= (1real + 3real * e) * (a * a) + 3real * ETA()) by (nonlinear_arith)
        requires 0real <= b <= a + e * a + ETA(), a >= 0real, e == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
}
proof fn lemma_rnd_rel(t: real, c: f32)
    requires rnd(t, c), t >= 0real,
    ensures 0real <= rv(c) <= (1real + EPS()) * t + ETA(),
{
    broadcast use {ax_rnd};
    assert((1real + EPS()) * t == t + EPS() * t) by (nonlinear_arith);
}
proof fn lemma_diff_sq(a: f32, b: f32, d: f32, q: f32)
    requires
        fin(a), fin(b), sub_ensures::<f32>(a, b, d), mul_ensures::<f32>(d, d, q),
        (rv(a) - rv(b)) * (rv(a) - rv(b)) <= 1000000000000000000000000000000000000real,
    ensures
        fin(q), 0real <= rv(q) <= (1real + 5real * EPS()) * ((rv(a) - rv(b)) * (rv(a) - rv(b))) + 5real * ETA(),
{
    broadcast use {ax_rnd};
    let t = rv(a) - rv(b);
    let tt = t * t;
    let e = EPS();
    assert(rabs(t) <= FMAX()) by (nonlinear_arith) requires t * t <= 1000000000000000000000000000000000000real, rabs(t) == t || rabs(t) == -t, FMAX() == 340000000000000000000000000000000000000real;
    ax_sub(a, b, d);
    lemma_rnd_sq(t, d);
    let dd = rv(d) * rv(d);
    assert(tt >= 0real) by (nonlinear_arith) requires tt == t * t;
    assert(dd >= 0real) by (nonlinear_arith) requires dd == rv(d) * rv(d);
    assert(dd <= FMAX()) by (nonlinear_arith) requires dd <= (1real + 3real * e) * tt + 3real * ETA(), 0real <= tt <= 1000000000000000000000000000000000000real, e == 1real / 16777216real, ETA() <= 1real, FMAX() == 340000000000000000000000000000000000000real;
    ax_mul(d, d, q);
    lemma_rnd_rel(dd, q);
    assert((1real + e) * dd + ETA() <= (1real + 5real * e) * tt + 5real * ETA()) by (nonlinear_arith)
        requires dd <= (1real + 3real * e) * tt + 3real * ETA(), tt >= 0real, e == 1real / 16777216real, ETA() >= 0real;
}
pub broadcast proof fn lemma_dist(a: Vector3, b: Vector3, dx: f32, dy: f32, dz: f32, xx: f32, yy: f32, zz: f32, s1: f32, s2: f32, m: f32)
    requires
        #[trigger] sub_ensures::<f32>(a.0, b.0, dx), #[trigger] sub_ensures::<f32>(a.1, b.1, dy), #[trigger] sub_ensures::<f32>(a.2, b.2, dz),
        #[trigger] mul_ensures::<f32>(dx, dx, xx), #[trigger] mul_ensures::<f32>(dy, dy, yy), #[trigger] mul_ensures::<f32>(dz, dz, zz),
        #[trigger] add_ensures::<f32>(xx, yy, s1), #[trigger] add_ensures::<f32>(s1, zz, s2), #[trigger] call_ensures(f32::sqrt, (s2,), m),
    ensures not_longer(m, a, b),
{
    broadcast use {ax_rnd, ax_kinds};
    if fin3(a) && fin3(b) && d2(a, b) <= 1000000000000000000000000000000000000real {
        let (x, y, z) = (rv(a.0) - rv(b.0), rv(a.1) - rv(b.1), rv(a.2) - rv(b.2));
        let (p, q, r) = (x * x, y * y, z * z);
        let t = p + q + r;
        let e = EPS();
        assert(p >= 0real) by (nonlinear_arith) requires p == x * x;
        assert(q >= 0real) by (nonlinear_arith) requires q == y * y;
        assert(r >= 0real) by (nonlinear_arith) requires r == z * z;
        lemma_diff_sq(a.0, b.0, dx, xx);
        lemma_diff_sq(a.1, b.1, dy, yy);
        lemma_diff_sq(a.2, b.2, dz, zz);
        let big = 1000000000000000000000000000000000000real;
        assert(rv(xx) <= 2real * big && rv(yy) <= 2real * big && rv(zz) <= 2real * big) by (nonlinear_arith)
            requires 0real <= p <= big, 0real <= q <= big, 0real <= r <= big, e == 1real / 16777216real, 0real <= ETA() <= 1real, big >= 100real,
                rv(xx) <= (1real + 5real * e) * p + 5real * ETA(), rv(yy) <= (1real + 5real * e) * q + 5real * ETA(), rv(zz) <= (1real + 5real * e) * r + 5real * ETA();
        ax_add(xx, yy, s1);
        lemma_rnd_rel(rv(xx) + rv(yy), s1);
        assert(rv(s1) <= 5real * big) by (nonlinear_arith) requires rv(s1) <= (1real + e) * (rv(xx) + rv(yy)) + ETA(), rv(xx) + rv(yy) <= 4real * big, e == 1real / 16777216real, 0real <= ETA() <= 1real, big >= 100real;
        ax_add(s1, zz, s2);
        lemma_rnd_rel(rv(s1) + rv(zz), s2);
        assert(rv(s2) <= (1real + 8real * e) * t + 40real * ETA()) by (nonlinear_arith)
            requires p >= 0real, q >= 0real, r >= 0real, t == p + q + r, e == 1real / 16777216real, ETA() >= 0real,
                rv(xx) <= (1real + 5real * e) * p + 5real * ETA(), rv(yy) <= (1real + 5real * e) * q + 5real * ETA(), rv(zz) <= (1real + 5real * e) * r + 5real * ETA(),
                rv(s1) <= (1real + e) * (rv(xx) + rv(yy)) + ETA(), rv(s2) <= (1real + e) * (rv(s1) + rv(zz)) + ETA();
        let w = choose|s: real| #[trigger] is_root(rv(s2), s) && rnd(s, m);
        lemma_rnd_sq(w, m);
        assert(rv(m) * rv(m) <= 1.00001real * t + 100real * ETA()) by (nonlinear_arith)
            requires rv(m) * rv(m) <= (1real + 3real * e) * rv(s2) + 3real * ETA(), 0real <= rv(s2) <= (1real + 8real * e) * t + 40real * ETA(), t >= 0real, e == 1real / 16777216real, ETA() >= 0real;
    }
}
//@ fn distance
//@ spec
    ensures not_longer(ret, a, b), !ninf(ret), fin(ret) ==> rv(ret) >= 0real,
//@ begin
    broadcast use {group_req, lemma_dist};
//@ end
/// r points in the direction of a and has length one
pub open spec fn is_normalized(a: Vector3, r: Vector3) -> bool {
    &&& fin3(a) && 0.01real <= sq3(a) <= 1000000real ==> fin3(r) && 0.99999real <= sq3(r) <= 1.00001real && exists|m: real| #[trigger] scaled(a, r, m)
    &&& fin3(a) && sq3(a) == 0real ==> fin3(r) && sq3(r) == 0real
}
/// a is m times r, up to rounding
pub open spec fn scaled(a: Vector3, r: Vector3, m: real) -> bool {
    m > 0real && rabs(rv(a.0) - m * rv(r.0)) <= 0.0000001real * m && rabs(rv(a.1) - m * rv(r.1)) <= 0.0000001real * m && rabs(rv(a.2) - m * rv(r.2)) <= 0.0000001real * m
}
proof fn lemma_comp(a: real, x: real, s: real, t: real) 
    requires x >= 0.09real, a * a <= s, s <= 1.001real * (x * x), t == a / x,
    ensures rabs(t) <= 1.001real, t * x == a,
{
    assert(t * x == a) by (nonlinear_arith) requires t == a / x, x > 0real;
    assert((t * t) * (x * x) == a * a) by (nonlinear_arith) requires t * x == a;
    assert(x * x >= 0.0081real) by (nonlinear_arith) requires x >= 0.09real;
    let q = t * t;
    assert(q <= 1.001real) by (nonlinear_arith) requires q * (x * x) <= 1.001real * (x * x), x * x >= 0.0081real;
    assert(rabs(t) <= 1.001real) by (nonlinear_arith) requires t * t <= 1.001real, rabs(t) == t || rabs(t) == -t, rabs(t) >= 0real;
}
proof fn lemma_near_sq(t: real, r: real)
    requires rabs(t) <= 1.001real, rabs(r - t) <= 0.0000001real,
    ensures rabs(r * r - t * t) <= 0.0000003real,
{
    let d = r - t;
    assert(r * r - t * t == d * (2real * t + d)) by (nonlinear_arith) requires d == r - t;
    assert(rabs(d * (2real * t + d)) <= 0.0000003real) by (nonlinear_arith) requires -0.0000001real <= d <= 0.0000001real, -1.001real <= t <= 1.001real;
}
proof fn lemma_div3(a: f32, x: f32, s: real, r: f32)
    requires fin(a), fin(x), rv(x) >= 0.09real, rv(a) * rv(a) <= s, s <= 1.001real * (rv(x) * rv(x)), div_ensures::<f32>(a, x, r),
    ensures
        fin(r), ({ let t = rv(a) / rv(x); t * rv(x) == rv(a) && rabs(rv(r) * rv(r) - t * t) <= 0.0000003real && rabs(rv(a) - rv(x) * rv(r)) <= 0.0000001real * rv(x) }),
{
    broadcast use {ax_rnd};
    let t = rv(a) / rv(x);
    lemma_comp(rv(a), rv(x), s, t);
    ax_div(a, x, r);
    assert(rabs(rv(r) - t) <= 0.0000001real) by (nonlinear_arith)
        requires rv(r) - t <= EPS() * rabs(t) + ETA(), t - rv(r) <= EPS() * rabs(t) + ETA(), rabs(t) <= 1.001real, EPS() == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
    lemma_near_sq(t, rv(r));
    let d = t - rv(r);
    assert(rv(a) - rv(x) * rv(r) == d * rv(x)) by (nonlinear_arith) requires t * rv(x) == rv(a), d == t - rv(r);
    assert(rabs(d * rv(x)) <= 0.0000001real * rv(x)) by (nonlinear_arith) requires rabs(d) <= 0.0000001real, rv(x) >= 0.09real;
}
proof fn lemma_ratio(w: real, q: real, s: real)
    requires w * q == s, s - q <= 0.000001real * s + 0.000000001real, q - s <= 0.000001real * s + 0.000000001real, s >= 0.01real,
    ensures 0.999997real <= w <= 1.000003real,
{
    let d = w - 1.000003real;
    assert(d * q == w * q - 1.000003real * q) by (nonlinear_arith) requires d == w - 1.000003real;
    assert(d <= 0real) by (nonlinear_arith) requires d * q <= 0real, q > 0real;
    let e = 0.999997real - w;
    assert(e * q == 0.999997real * q - w * q) by (nonlinear_arith) requires e == 0.999997real - w;
    assert(e <= 0real) by (nonlinear_arith) requires e * q <= 0real, q > 0real;
}
pub broadcast proof fn lemma_normalized(a: Vector3, m: f32, x: f32, y: f32, z: f32)
    requires #[trigger] is_mag(a, m), #[trigger] div_ensures::<f32>(a.0, m, x), #[trigger] div_ensures::<f32>(a.1, m, y), #[trigger] div_ensures::<f32>(a.2, m, z),
    ensures
        fin3(a) && 0.01real <= sq3(a) <= 1000000real ==> is_normalized(a, (x, y, z)) && fin(m) && rv(m) > 0real,
{
    if fin3(a) && 0.01real <= sq3(a) <= 1000000real {
        let s = sq3(a);
        let (a0, a1, a2) = (rv(a.0), rv(a.1), rv(a.2));
        let q = rv(m) * rv(m);
        assert(near2(s, rv(m)));
        assert(rv(m) >= 0.09real) by (nonlinear_arith) requires rv(m) * rv(m) >= 0.0099real, rv(m) >= 0real;
        assert(a0 * a0 >= 0real) by (nonlinear_arith);
        assert(a1 * a1 >= 0real) by (nonlinear_arith);
        assert(a2 * a2 >= 0real) by (nonlinear_arith);
        lemma_div3(a.0, m, s, x); lemma_div3(a.1, m, s, y); lemma_div3(a.2, m, s, z);
        let (t0, t1, t2) = (a0 / rv(m), a1 / rv(m), a2 / rv(m));
        let w = t0 * t0 + t1 * t1 + t2 * t2;
        assert((t0 * t0) * q == a0 * a0) by (nonlinear_arith) requires t0 * rv(m) == a0, q == rv(m) * rv(m);
        assert((t1 * t1) * q == a1 * a1) by (nonlinear_arith) requires t1 * rv(m) == a1, q == rv(m) * rv(m);
        assert((t2 * t2) * q == a2 * a2) by (nonlinear_arith) requires t2 * rv(m) == a2, q == rv(m) * rv(m);
        let (u0, u1, u2) = (t0 * t0, t1 * t1, t2 * t2);
        assert(w * q == u0 * q + u1 * q + u2 * q) by (nonlinear_arith) requires w == u0 + u1 + u2;
        lemma_ratio(w, q, s);
        assert(scaled(a, (x, y, z), rv(m)));
    }
}
/// no square is negative
proof fn lemma_zero3(a: Vector3)
    requires fin3(a), sq3(a) == 0real,
    ensures rv(a.0) == 0real, rv(a.1) == 0real, rv(a.2) == 0real,
{
    let (x, y, z) = (rv(a.0), rv(a.1), rv(a.2));
    assert(x == 0real && y == 0real && z == 0real) by (nonlinear_arith) requires x * x + y * y + z * z == 0real;
}
/// the length of zero is zero
pub broadcast proof fn lemma_mag_zero(i: Vector3, xx: f32, yy: f32, zz: f32, s1: f32, s2: f32, m: f32)
    requires
        #[trigger] mul_ensures::<f32>(i.0, i.0, xx), #[trigger] mul_ensures::<f32>(i.1, i.1, yy), #[trigger] mul_ensures::<f32>(i.2, i.2, zz),
        #[trigger] add_ensures::<f32>(xx, yy, s1), #[trigger] add_ensures::<f32>(s1, zz, s2), #[trigger] call_ensures(f32::sqrt, (s2,), m),
    ensures fin3(i) && sq3(i) == 0real ==> fin(m) && rv(m) == 0real,
{
    if fin3(i) && sq3(i) == 0real {
        broadcast use {ax_rnd};
        lemma_zero3(i);
        ax_mul(i.0, i.0, xx); ax_mul(i.1, i.1, yy); ax_mul(i.2, i.2, zz);
        ax_add(xx, yy, s1); ax_add(s1, zz, s2);
        let r = choose|s: real| #[trigger] is_root(rv(s2), s) && rnd(s, m);
        assert(r == 0real) by (nonlinear_arith) requires r * r == 0real;
    }
}
//@ fn normalize
//@ spec
    ensures is_normalized(i, ret),
//@ begin
    broadcast use {group_req, lemma_mag, lemma_mag_zero, lemma_normalized, ax_eq, ax_kinds};
    proof { ax_lit(); }
//@ end

// ---------------------------------------------------------------- reordering
/// the next index that was not used before
pub open spec fn next_new(idx: Seq<IndexType>) -> nat
    decreases idx.len(),
{
    if idx.len() == 0 { 0 } else {
        let h = next_new(idx.drop_last());
        if idx.last() == h { h + 1 } else { h }
    }
}
/// indices number n elements in the order in which they are first used
pub open spec fn first_order(idx: Seq<IndexType>, n: nat) -> bool {
    &&& next_new(idx) == n
    &&& forall|i: int| 0 <= i < idx.len() ==> (#[trigger] idx[i]) <= next_new(idx.take(i))
}
/// (ri, rd) selects the same elements as (i, d), numbered in order of first use
pub open spec fn reordered<T>(idx: Seq<IndexType>, d: Seq<T>, ri: Seq<IndexType>, rd: Seq<T>) -> bool {
    &&& ri.len() == idx.len()
    &&& all_in(rd, ri)
    &&& expand(rd, ri) =~= expand(d, idx)
    &&& first_order(ri, rd.len())
    &&& forall|i: int, j: int| 0 <= i < idx.len() && 0 <= j < idx.len() && idx[i] == idx[j] ==> #[trigger] ri[i] == #[trigger] ri[j]
}
pub open spec fn is_reordered<T>(idx: Seq<IndexType>, d: Seq<T>, ri: Seq<IndexType>, rd: Seq<T>) -> bool {
    if idx.len() == 0 || d.len() == 0 { ri == idx && rd == d } else { reordered(idx, d, ri, rd) }
}
/// everything below the next index was used
pub proof fn lemma_next_new(idx: Seq<IndexType>, j: int)
    requires 0 <= j < next_new(idx),
    ensures exists|i: int| 0 <= i < idx.len() && #[trigger] idx[i] == j,
    decreases idx.len(),
{
    if idx.last() == j && idx.len() > 0 { assert(idx[idx.len() - 1] == j); } else {
        lemma_next_new(idx.drop_last(), j);
        let i = choose|i: int| 0 <= i < idx.drop_last().len() && #[trigger] idx.drop_last()[i] == j;
        assert(idx[i] == j);
    }
}
/// element j is first used after element j - 1
pub proof fn lemma_first_use(idx: Seq<IndexType>, j: int)
    requires 0 < j < next_new(idx), forall|i: int| 0 <= i < idx.len() ==> (#[trigger] idx[i]) <= next_new(idx.take(i)),
    ensures exists|i: int, k: int| 0 <= k < i < idx.len() && #[trigger] idx[k] == j - 1 && #[trigger] idx[i] == j && forall|l: int| 0 <= l < i ==> #[trigger] idx[l] != j,
    decreases idx.len(),
{
    let p = idx.drop_last();
    let n = idx.len() - 1;
    assert(idx.take(n) =~= p);
    assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]) <= next_new(p.take(i)) by { assert(p.take(i) =~= idx.take(i)); assert(idx[i] <= next_new(idx.take(i))); }
    if j < next_new(p) {
        lemma_first_use(p, j);
        let (i, k) = choose|i: int, k: int| 0 <= k < i < p.len() && #[trigger] p[k] == j - 1 && #[trigger] p[i] == j && forall|l: int| 0 <= l < i ==> #[trigger] p[l] != j;
        assert(idx[k] == j - 1 && idx[i] == j);
        assert forall|l: int| 0 <= l < i implies #[trigger] idx[l] != j by { assert(p[l] != j); }
    } else {
        lemma_next_new(p, j - 1);
        let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == j - 1;
        assert(idx[k] == j - 1 && idx[n] == j);
        assert forall|l: int| 0 <= l < n implies #[trigger] idx[l] != j by {
            assert(p[l] <= next_new(p.take(l)));
            lemma_next_mono(p, l);
            assert(idx[l] == p[l]);
            if p[l] == j { 
                lemma_next_mono(p, l + 1);
                assert(p.take(l + 1).drop_last() =~= p.take(l));
                assert(next_new(p.take(l)) <= j);
            }
        }
    }
}
pub proof fn lemma_next_mono(idx: Seq<IndexType>, n: int)
    requires 0 <= n <= idx.len(),
    ensures next_new(idx.take(n)) <= next_new(idx),
    decreases idx.len(),
{
    if n < idx.len() { lemma_next_mono(idx.drop_last(), n); assert(idx.drop_last().take(n) =~= idx.take(n)); } else { assert(idx.take(n) =~= idx); }
}
pub proof fn lemma_small(inv: Seq<int>)
    requires inv.no_duplicates(), forall|i: int| 0 <= i < inv.len() ==> 0 <= #[trigger] inv[i] < 0x1_0000_0000,
    ensures inv.len() <= 0x1_0000_0000,
{
    inv.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000);
    let s = vstd::set_lib::set_int_range(0, 0x1_0000_0000);
    assert(inv.to_set().subset_of(s)) by {
        assert forall|x: int| inv.to_set().contains(x) implies s.contains(x) by {
            let i = choose|i: int| 0 <= i < inv.len() && inv[i] == x;
            assert(0 <= inv[i] < 0x1_0000_0000);
        }
    }
    vstd::set_lib::lemma_len_subset(inv.to_set(), s);
}
/// what the map holds after the first indices were seen
pub open spec fn map_inv<T>(map: Seq<usize>, d: Seq<T>, rd: Seq<T>, inv: Seq<int>, idx: Seq<IndexType>, nidx: Seq<IndexType>) -> bool {
    &&& map.len() == d.len() && rd.len() == inv.len() && nidx.len() <= idx.len()
    &&& inv.no_duplicates()
    &&& forall|j: int| 0 <= j < inv.len() ==> 0 <= #[trigger] inv[j] < d.len() && inv[j] < 0x1_0000_0000 && rd[j] == d[inv[j]] && map[inv[j]] == j
    &&& forall|x: int| 0 <= x < d.len() && #[trigger] map[x] != usize::MAX ==> map[x] < inv.len() && inv[map[x] as int] == x
    &&& forall|i: int| 0 <= i < nidx.len() ==> map[#[trigger] idx[i] as int] != usize::MAX && nidx[i] == map[idx[i] as int]
    &&& next_new(nidx) == inv.len()
    &&& forall|i: int| 0 <= i < nidx.len() ==> (#[trigger] nidx[i]) <= next_new(nidx.take(i))
}
/// one more index
proof fn lemma_map_step<T>(map: Seq<usize>, map2: Seq<usize>, d: Seq<T>, rd: Seq<T>, rd2: Seq<T>, inv: Seq<int>, inv2: Seq<int>, idx: Seq<IndexType>, nidx: Seq<IndexType>)
    requires
        map_inv(map, d, rd, inv, idx, nidx), all_in(d, idx), nidx.len() < idx.len(),
        ({
            let x = idx[nidx.len() as int] as int;
            if map[x] == usize::MAX { inv2 == inv.push(x) && map2 == map.update(x, inv.len() as usize) && rd2 == rd.push(d[x]) && inv.len() < usize::MAX } else { inv2 == inv && map2 == map && rd2 == rd }
        }),
    ensures
        map_inv(map2, d, rd2, inv2, idx, nidx.push(map2[idx[nidx.len() as int] as int] as IndexType)), inv2.len() <= 0x1_0000_0000,
{
    let k = nidx.len() as int;
    let x = idx[k] as int;
    assert(idx[k] < d.len());
    let v = map2[x] as IndexType;
    let n2 = nidx.push(v);
    if map[x] == usize::MAX {
        assert(inv2[inv.len() as int] == x);
        assert forall|j: int| 0 <= j < inv.len() implies #[trigger] inv2[j] == inv[j] && inv[j] != x by { }
    }
    assert forall|i: int, j: int| 0 <= i < j < inv2.len() implies inv2[i] != inv2[j] by { assert(0 <= inv[i] < d.len()); }
    lemma_small(inv2);
    assert(map2[x] < inv2.len());
    assert(v == map2[x]);
    assert(n2.drop_last() =~= nidx);
    assert forall|i: int| 0 <= i < n2.len() implies (#[trigger] n2[i]) <= next_new(n2.take(i)) by {
        if i < k { assert(n2.take(i) =~= nidx.take(i)); assert(n2[i] == nidx[i]); } else { assert(n2.take(i) =~= nidx); }
    }
    assert forall|i: int| 0 <= i < n2.len() implies map2[#[trigger] idx[i] as int] != usize::MAX && n2[i] == map2[idx[i] as int] by {
        assert(idx[i] < d.len());
        if i < k { assert(map[idx[i] as int] != usize::MAX); }
    }
    assert forall|j: int| 0 <= j < inv2.len() implies 0 <= #[trigger] inv2[j] < d.len() && inv2[j] < 0x1_0000_0000 && rd2[j] == d[inv2[j]] && map2[inv2[j]] == j by {
        if j < inv.len() { assert(0 <= inv[j] < d.len()); }
    }
}
//@ fn optimize_triangle_indices
//@ spec
    requires all_in(data@, indices@),
    ensures is_reordered(indices@, data@, ret.0@, ret.1@),
//@ before-loop 1
    let ghost mut inv: Seq<int> = Seq::empty();
    let ghost mut nidx: Seq<IndexType> = Seq::empty();
//@ loop 1
        invariant
            all_in(data@, indices@), INDEX_NOT_MAPPED == usize::MAX, map_inv(index_map@, data@, data_mapped@, inv, indices@, nidx), nidx.len() == it1.index@,
            curr_map_index == inv.len(), inv.len() <= 0x1_0000_0000,
//@ loop-begin 1
        proof {
            assert(*index == indices@[it1.index@]);
            assert(*index < data@.len());
        }
        let ghost om = index_map@;
        let ghost od = data_mapped@;
//@ loop-end 1
        proof {
            let x = *index as int;
            let inv2 = if om[x] == usize::MAX { inv.push(x) } else { inv };
            if om[x] == usize::MAX { assert(index_map@ =~= om.update(x, inv.len() as usize)); }
            lemma_map_step(om, index_map@, data@, od, data_mapped@, inv, inv2, indices@, nidx);
            inv = inv2;
            nidx = nidx.push(index_map@[x] as IndexType);
        }
//@ loop 2
        invariant
            all_in(data@, indices@), map_inv(index_map@, data@, data_mapped@, inv, indices@, nidx), nidx.len() == indices@.len(),
            out2@.len() == it2.index@,
            forall|i: int| 0 <= i < it2.index@ ==> #[trigger] out2@[i] == nidx[i],
//@ loop-begin 2
        proof { assert(*index == indices@[it2.index@]); assert(*index < data@.len()); assert(nidx[it2.index@] == index_map@[indices@[it2.index@] as int]); }
//@ ret-bind
    proof {
        assert(ret__.0@ =~= nidx);
        assert forall|i: int| 0 <= i < indices@.len() implies #[trigger] expand(data_mapped@, nidx)[i] == expand(data@, indices@)[i] by {
            assert(nidx[i] == index_map@[indices@[i] as int]);
            assert(indices@[i] < data@.len());
        }
        assert forall|i: int| 0 <= i < nidx.len() implies (#[trigger] nidx[i]) < data_mapped@.len() by { assert(indices@[i] < data@.len()); assert(nidx[i] == index_map@[indices@[i] as int]); }
        assert forall|i: int, j: int| 0 <= i < indices@.len() && 0 <= j < indices@.len() && indices@[i] == indices@[j] implies #[trigger] nidx[i] == #[trigger] nidx[j] by { assert(indices@[i] == indices@[j]); }
    }
//@ end
}
