//@ source src/normals.rs
pub mod normals {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use crate::*;
use crate::vbits::*;
use crate::vf::*;
use crate::fl::*;
use crate::utilis::*;
use crate::read_extension::*;
use crate::unaligned_rw::*;
use crate::vio::{Read, Write};
use crate::uv::{m_of, lemma_m_of};
//@ item struct NormalPrecisionMode Clone Copy
pub open spec fn is_pi(x: f32) -> bool { fin(x) && 3.141592real <= rv(x) <= 3.141593real }
pub broadcast proof fn lemma_is_pi(d: f64, x: f32)
    requires #[trigger] vstd::float::float_cast_spec::<f64, f32>(d, x), find(d), 3.141592653589793real <= rd(d) <= 3.141592653589794real,
    ensures is_pi(x), 
{
    broadcast use {ax_f64_f32, ax_rnd};
    let t = rd(d);
    assert(rnd(t, x));
    assert(EPS() * rabs(t) <= 0.0000002real) by (nonlinear_arith) requires EPS() == 1real / 16777216real, rabs(t) == t, t <= 3.141592653589794real;
}
mod pi {
use vstd::prelude::*;
use crate::FloatType;
use super::is_pi;
broadcast use super::lemma_is_pi;
//@ item const PI ensures=is_pi(PI)
}
use pi::PI;
/// what is written for one normal
pub struct Nk { pub a: u64, pub z: u64, pub sx: bool, pub sy: bool, pub sz: bool }
pub open spec fn xy2(n: Vector3) -> real { rv(n.0) * rv(n.0) + rv(n.1) * rv(n.1) }
/// u is the sine of the angle between the y axis and the normal, seen along the z axis
pub open spec fn near_sin(n: Vector3, u: real) -> bool {
    &&& 0real <= u <= 1real
    &&& u * u * xy2(n) - rv(n.0) * rv(n.0) <= 0.00001real * xy2(n)
    &&& rv(n.0) * rv(n.0) - u * u * xy2(n) <= 0.00001real * xy2(n)
}
/// k of m steps is the angle f
pub open spec fn az_close(f: real, m: u64, k: u64) -> bool {
    &&& k as real - f * (m as real) <= 1real + 0.00001real * (m as real)
    &&& f * (m as real) - k as real <= 1real + 0.00001real * (m as real)
}
pub open spec fn n_k(n: Vector3, p: u8, k: Nk) -> bool {
    &&& k.a <= m_of(p) && k.z <= m_of(p)
    &&& fin(n.0) ==> k.sx == (rv(n.0) < 0real)
    &&& fin(n.1) ==> k.sy == (rv(n.1) < 0real)
    &&& fin(n.2) ==> k.sz == (rv(n.2) < 0real)
    &&& fin(n.2) && rabs(rv(n.2)) <= 2real ==> q_close(rmin(rabs(rv(n.2)), 1real), m_of(p), k.z)
    &&& az_claim(n) ==> exists|u: real| #[trigger] near_sin(n, u) && az_close(ran(u), m_of(p), k.a)
}
/// normals for which the direction is not lost in rounding
pub open spec fn az_claim(n: Vector3) -> bool {
    fin3(n) && rabs(rv(n.0)) <= 2real && rabs(rv(n.1)) <= 2real && xy2(n) >= 0.000000000001real
}
//@ if fast_trig
pub open spec fn TRIG() -> real { 0.0005real }
//@ else
pub open spec fn TRIG() -> real { 0.00001real }
//@ endif
/// what the written numbers are read as; f is the angle, w the distance from the z axis
pub open spec fn n_at(k: Nk, p: u8, r: Vector3, f: real, w: real) -> bool {
    &&& 0real <= w <= 1real
    &&& rabs(f - (k.a as real) / (m_of(p) as real)) <= 0.000002real
    &&& rabs(w * w + rv(r.2) * rv(r.2) - 1real) <= 0.000001real
    &&& rabs(rabs(rv(r.0)) - rsin(f) * w) <= TRIG()
    &&& rabs(rv(r.0) * rv(r.0) + rv(r.1) * rv(r.1) - w * w) <= 0.00001real
}
pub open spec fn n_r(k: Nk, p: u8, r: Vector3) -> bool {
    p >= 1 && k.a <= m_of(p) && k.z <= m_of(p) ==> {
        &&& fin3(r)
        &&& rabs(rabs(rv(r.2)) - (k.z as real) / (m_of(p) as real)) <= 4real * EPS()
        &&& if k.sz { rv(r.2) <= 0real } else { rv(r.2) >= 0real }
        &&& if k.sx { rv(r.0) <= 0real } else { rv(r.0) >= 0real }
        &&& if k.sy { rv(r.1) <= 0.000002real } else { rv(r.1) >= -0.000002real }
        &&& exists|f: real, w: real| #[trigger] n_at(k, p, r, f, w)
    }
}
//@ fn NormalPrecisionMode::bits
//@ spec
    ensures ret == self.0,
//@ end
//@ fn NormalPrecisionMode::from_bits
//@ spec
    ensures ret.0 == bits,
//@ end
/// enough bits for an angle of dev, and no more than needed
pub open spec fn bits_for_dev(right: f32, dev: f32, bits: u8) -> bool {
    &&& 1 <= bits <= 63
    &&& exists|q: f32, b: u8| #[trigger] div_ensures::<f32>(right, dev, q) && #[trigger] bits_for(q, b) && bits == (if b < 1 { 1u8 } else if b > 63 { 63 } else { b })
}
//@ fn NormalPrecisionMode::from_deg_dev
//@ spec
    ensures bits_for_dev(90.0f32, deg, ret.0),
//@ begin
    broadcast use {group_req, lemma_bits_for_b};
//@ end
//@ fn NormalPrecisionMode::from_rad_dev
//@ spec
    ensures
        1 <= ret.0 <= 63,
        exists|right: f32, q: f32, b: u8| fin(right) && 1.570795real <= rv(right) <= 1.570797real && #[trigger] div_ensures::<f32>(right, rad, q) && #[trigger] bits_for(q, b)
            && ret.0 == (if b < 1 { 1u8 } else if b > 63 { 63 } else { b }),
//@ begin
    broadcast use {group_req, lemma_bits_for_b};
//@ end
//@ fn normalize_arr
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        final(normals)@.len() == old(normals)@.len(),
        forall|i: int| 0 <= i < old(normals)@.len() ==> #[trigger] is_normalized(old(normals)@[i], final(normals)@[i]),
//@ begin
    let ghost n0 = normals@;
//@ loop 1
        invariant
            normals@.len() == n0.len(),
            forall|i: int| 0 <= i < idx1 ==> #[trigger] is_normalized(n0[i], normals@[i]),
            forall|i: int| idx1 <= i < n0.len() ==> (#[trigger] normals@[i]) == n0[i],
//@ end
/// h is the length of (x, y)
pub open spec fn is_hyp(x: f32, y: f32, h: f32) -> bool {
    let s = rv(x) * rv(x) + rv(y) * rv(y);
    fin(x) && fin(y) && 0real <= rv(x) <= 2real && 0real <= rv(y) <= 2real && s >= 0.000000000001real ==> {
        &&& fin(h) && rv(h) >= 0.0000001real && rv(h) >= rv(x) && rv(h) <= 3real
        &&& rv(h) * rv(h) - s <= 0.000001real * s && s - rv(h) * rv(h) <= 0.000001real * s
    }
}
pub broadcast proof fn lemma_hyp(x: f32, y: f32, xx: f32, yy: f32, s: f32, h: f32)
    requires
        #[trigger] mul_ensures::<f32>(x, x, xx), #[trigger] mul_ensures::<f32>(y, y, yy), #[trigger] add_ensures::<f32>(xx, yy, s), #[trigger] call_ensures(f32::sqrt, (s,), h),
    ensures is_hyp(x, y, h),
{
    broadcast use {ax_rnd};
    let (a, b) = (rv(x), rv(y));
    let s0 = a * a + b * b;
    if fin(x) && fin(y) && 0real <= a <= 2real && 0real <= b <= 2real && s0 >= 0.000000000001real {
        let x2 = a * a;
        let y2 = b * b;
        assert(0real <= x2 <= 4real && 0real <= y2 <= 4real) by (nonlinear_arith) requires x2 == a * a, y2 == b * b, 0real <= a <= 2real, 0real <= b <= 2real;
        ax_mul(x, x, xx);
        ax_mul(y, y, yy);
        let e = EPS();
        let (p, q) = (rv(xx), rv(yy));
        assert(e * x2 <= x2 && e * y2 <= y2) by (nonlinear_arith) requires e == 1real / 16777216real, x2 >= 0real, y2 >= 0real;
        assert(rabs(x2) == x2 && rabs(y2) == y2);
        assert(0real <= p <= 9real && 0real <= q <= 9real);
        ax_add(xx, yy, s);
        let t = rv(s);
        assert(t - s0 <= 3real * e * s0 && s0 - t <= 3real * e * s0) by (nonlinear_arith)
            requires s0 == x2 + y2, p - x2 <= e * x2 + ETA(), x2 - p <= e * x2 + ETA(), q - y2 <= e * y2 + ETA(), y2 - q <= e * y2 + ETA(),
                t - (p + q) <= e * (p + q) + ETA(), (p + q) - t <= e * (p + q) + ETA(), x2 >= 0real, y2 >= 0real, p >= 0real, q >= 0real, s0 >= 0.000000000001real,
                e == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
        assert(0real <= t <= 16real) by (nonlinear_arith) requires t - s0 <= 3real * e * s0, s0 <= 8real, t >= 0real, e == 1real / 16777216real;
        let r = choose|r: real| #[trigger] is_root(t, r) && rnd(r, h);
        assert(r <= 4real) by (nonlinear_arith) requires r * r == t, t <= 16real, r >= 0real;
        assert(r >= 0.0000005real) by (nonlinear_arith) requires r * r == t, t >= 0.0000000000005real, r >= 0real;
        let g = rv(h);
        assert(g - r <= 2real * e * r && r - g <= 2real * e * r);
        assert(g * g - t <= 5real * e * t && t - g * g <= 5real * e * t) by (nonlinear_arith)
            requires r * r == t, g - r <= 2real * e * r, r - g <= 2real * e * r, r >= 0real, e == 1real / 16777216real;
        assert(g * g - s0 <= 0.000001real * s0 && s0 - g * g <= 0.000001real * s0) by (nonlinear_arith)
            requires g * g - t <= 5real * e * t, t - g * g <= 5real * e * t, t - s0 <= 3real * e * s0, s0 - t <= 3real * e * s0, s0 >= 0real, e == 1real / 16777216real;
        assert(g >= 0.0000001real);
        assert(g <= 3real) by (nonlinear_arith) requires g * g - s0 <= 0.000001real * s0, s0 <= 8real, g >= 0real;
        if a >= 0.000000000000001real {
            // the root of the rounded square is the number itself
            ax_root(p);
            let rp = choose|rp: real| #[trigger] is_root(p, rp);
            assert(t >= p) by { ax_rnd_mono(p + q, s, xx); }
            assert(rp <= r) by (nonlinear_arith) requires rp * rp == p, r * r == t, p <= t, r >= 0real, rp >= 0real;
            assert(exists|c: f32| rnd(rp, c)) by { ax_rnd_exists(rp); }
            let c = choose|c: f32| rnd(rp, c);
            ax_sqrt_sq(x, xx, rp, c);
            ax_rnd_le(rp, c, r, h);
        }
    }
}
pub proof fn lemma_az(n: Vector3, x: f32, y: f32, h: f32, u: f32, t: f32, pi: f32, two: f32, hp: f32, q: f32)
    requires
        az_claim(n), fin(x), rv(x) == rabs(rv(n.0)), fin(y), rv(y) == rabs(rv(n.1)), is_hyp(x, y, h),
        div_ensures::<f32>(x, h, u), call_ensures(f32::asin, (u,), t),
        is_pi(pi), fin(two), rv(two) == 2real, div_ensures::<f32>(pi, two, hp), div_ensures::<f32>(t, hp, q),
    ensures
        fin(q), 0real <= rv(q) <= 1.1real, exists|v: real| #[trigger] near_sin(n, v) && rabs(rv(q) - ran(v)) <= 0.000005real,
{
    broadcast use {ax_rnd};
    let (a, g) = (rv(x), rv(h));
    let (nx, ny) = (rv(n.0), rv(n.1));
    assert(a * a == nx * nx && rv(y) * rv(y) == ny * ny) by (nonlinear_arith) requires a == nx || a == -nx, rv(y) == ny || rv(y) == -ny;
    let s0 = xy2(n);
    let e = EPS();
    let z = a / g;
    assert(0real <= z <= 1real && z * g == a) by (nonlinear_arith) requires z == a / g, 0real <= a <= g, g >= 0.0000001real;
    ax_div(x, h, u);
    let v = rv(u);
    assert(0real <= v <= 1real);
    assert(v - z <= 2real * e && z - v <= 2real * e);
    let v2 = v * v;
    let z2 = z * z;
    assert(v2 - z2 <= 5real * e && z2 - v2 <= 5real * e) by (nonlinear_arith) requires v2 == v * v, z2 == z * z, v - z <= 2real * e, z - v <= 2real * e, 0real <= v <= 1real, 0real <= z <= 1real, e == 1real / 16777216real;
    assert(z2 * (g * g) == a * a) by (nonlinear_arith) requires z2 == z * z, z * g == a;
    let gg = g * g;
    assert(0real <= z2 <= 1real) by (nonlinear_arith) requires z2 == z * z, 0real <= z <= 1real;
    assert(z2 * s0 - a * a <= 0.000002real * s0 && a * a - z2 * s0 <= 0.000002real * s0) by (nonlinear_arith)
        requires z2 * gg == a * a, gg - s0 <= 0.000001real * s0, s0 - gg <= 0.000001real * s0, 0real <= z2 <= 1real, s0 >= 0real;
    assert(v2 * s0 - z2 * s0 <= 5real * e * s0 && z2 * s0 - v2 * s0 <= 5real * e * s0) by (nonlinear_arith)
        requires v2 - z2 <= 5real * e, z2 - v2 <= 5real * e, s0 >= 0real;
    assert(near_sin(n, v)) by {
        assert(v * v * s0 == v2 * s0);
        assert(5real * e * s0 <= 0.000001real * s0) by (nonlinear_arith) requires e == 1real / 16777216real, s0 >= 0real;
    }
    ax_ran(v);
    ax_div(pi, two, hp);
    let b = rv(hp);
    assert(1.570795real <= b <= 1.570797real);
    let tt = rv(t);
    let w = tt / b;
    assert(w * b == tt) by (nonlinear_arith) requires w == tt / b, b >= 1.570795real;
    assert(0real <= w <= 1.01real) by (nonlinear_arith) requires w * b == tt, 0real <= tt <= 1.5708real, b >= 1.570795real;
    ax_div(t, hp, q);
    let f = ran(v);
    assert(w - f <= 0.000003real && f - w <= 0.000003real) by (nonlinear_arith)
        requires w * b == tt, tt - f * RPIH() <= 0.000001real, f * RPIH() - tt <= 0.000001real, 1.570795real <= b <= 1.570797real, RPIH() == 1.5707963267948966real, 0real <= f <= 1real, 0real <= w <= 1.01real;
}
/// (q * mul) as u64 clamped to m, for an angle q
pub proof fn lemma_az_quant(q: f32, f: real, m: u64, mul: f32, g: f32, k0: u64)
    requires
        fin(q), 0real <= rv(q) <= 1.1real, rabs(rv(q) - f) <= 0.000005real, 0real <= f <= 1real, m < 0x8000_0000_0000_0000,
        vstd::float::float_cast_spec::<u64, f32>(m, mul), mul_ensures::<f32>(q, mul, g), vstd::float::float_cast_spec::<f32, u64>(g, k0),
    ensures az_close(f, m, if k0 <= m { k0 } else { m }),
{
    broadcast use {ax_rnd, ax_f32_u64, ax_u64_f32};
    let mr = m as real;
    let e = EPS();
    let y = rv(mul);
    let x = rv(q);
    assert(mr <= 9223372036854775808real);
    assert(e * mr <= mr) by (nonlinear_arith) requires e == 1real / 16777216real, mr >= 0real;
    assert(0real <= y <= 20000000000000000000real);
    let t = x * y;
    assert(0real <= t <= 22000000000000000000real) by (nonlinear_arith) requires t == x * y, 0real <= x <= 1.1real, 0real <= y <= 20000000000000000000real;
    ax_mul(q, mul, g);
    assert(t - f * mr <= 0.000006real * mr + 2real * ETA() && f * mr - t <= 0.000006real * mr + 2real * ETA()) by (nonlinear_arith)
        requires t == x * y, y - mr <= e * mr + ETA(), mr - y <= e * mr + ETA(), 0real <= x <= 1.1real, x - f <= 0.000005real, f - x <= 0.000005real, 0real <= f <= 1real, mr >= 0real, e == 1real / 16777216real, ETA() == 0.00000000000000000000000000000000000002real;
    let r = rv(g);
    assert(f * mr <= mr && f * mr >= 0real) by (nonlinear_arith) requires 0real <= f <= 1real, mr >= 0real;
    assert(e * t <= 0.0000001real * mr + 0.00001real) by (nonlinear_arith) requires t <= mr + 0.000006real * mr + 2real * ETA(), e == 1real / 16777216real, mr >= 0real, ETA() == 0.00000000000000000000000000000000000002real;
    assert(r - f * mr <= 0.0000062real * mr + 0.00002real && f * mr - r <= 0.0000062real * mr + 0.00002real);
    if m == 0 {
    } else {
        assert(mr >= 1real);
        assert(r < 18446744073709551615real);
    }
}
/// (|z| * mul) as u64 clamped to m
pub broadcast proof fn lemma_quant2_b(u: f32, m: u64, mul: f32, f: f32, k0: u64)
    requires
        #[trigger] vstd::float::float_cast_spec::<u64, f32>(m, mul), #[trigger] mul_ensures::<f32>(u, mul, f), #[trigger] vstd::float::float_cast_spec::<f32, u64>(f, k0),
        fin(u), 0real <= rv(u) <= 2real, m < 0x8000_0000_0000_0000,
    ensures q_close(rmin(rv(u), 1real), m, if k0 <= m { k0 } else { m }),
{
    broadcast use {ax_u64_f32, ax_f32_u64, ax_rnd};
    if rv(u) <= 1real {
        lemma_quant_b(u, m, mul, f, k0);
    } else {
        let x = rv(u);
        let y = rv(mul);
        let mr = m as real;
        let e = EPS();
        assert(mr <= 9223372036854775808real);
        assert(e * mr <= mr) by (nonlinear_arith) requires e == 1real / 16777216real, mr >= 0real;
        assert(0real <= y <= 20000000000000000000real);
        let t = x * y;
        assert(y <= t <= 2real * y) by (nonlinear_arith) requires t == x * y, 1real <= x <= 2real, y >= 0real;
        ax_mul(u, mul, f);
        ax_rnd_mono(t, f, mul);
        assert(rv(f) >= y);
        assert(mr - y <= e * mr + ETA());
        assert(rmin(x, 1real) * mr == mr) by (nonlinear_arith) requires rmin(x, 1real) == 1real;
        if k0 <= m { assert(rv(f) < k0 as real + 1real); assert(mr - k0 as real <= 1real + e * mr + ETA()); }
    }
}
proof fn lemma_prec(p: u8)
    requires 1 <= p <= 63,
    ensures 1 <= m_of(p) < 0x8000_0000_0000_0000,
{ lemma_m_of(p); }

//@ fn normal_to_encoding
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires precision.0 <= 63,
    ensures n_k(normal, precision.0, Nk { a: ret.0, z: ret.1, sx: ret.2, sy: ret.3, sz: ret.4 }),
//@ begin
    broadcast use {group_req, lemma_hyp, lemma_quant2_b, ax_lt};
    proof { lemma_m_of(precision.0); ax_lit(); }
//@ after-let max_int
    proof { assert(max_int == m_of(precision.0)); }
//@ after-let xy_mag
    let ghost xy0 = xy;
//@ after-let xy #2
    let ghost u = xy.0;
//@ after-let asine
    let ghost t = asine;
//@ after-let asine #2
    let ghost q = asine;
    proof {
        if az_claim(normal) {
            let (pi, hp) = choose|pi: f32, hp: f32| is_pi(pi) && #[trigger] div_ensures::<f32>(pi, 2.0f32, hp) && #[trigger] div_ensures::<f32>(t, hp, q);
            lemma_az(normal, xy0.0, xy0.1, xy_mag, u, t, pi, 2.0f32, hp, q);
        }
    }
//@ after-let asine #3
    proof {
        if az_claim(normal) {
            let v = choose|v: real| #[trigger] near_sin(normal, v) && rabs(rv(q) - ran(v)) <= 0.000005real;
            ax_ran(v);
            let (g, k0) = choose|g: f32, k0: u64| #[trigger] mul_ensures::<f32>(q, multiplier, g) && #[trigger] vstd::float::float_cast_spec::<f32, u64>(g, k0) && asine == (if k0 <= max_int { k0 } else { max_int });
            lemma_az_quant(q, ran(v), max_int, multiplier, g, k0);
            assert(near_sin(normal, v) && az_close(ran(v), m_of(precision.0), asine));
        }
    }
//@ end

/// (a / m) * (PI / 2)
pub open spec fn is_angle(k: u64, m: u64, an: f32) -> bool {
    &&& fin(an) && 0real <= rv(an) <= 1.5708real
    &&& rabs(rv(an) / RPIH() - (k as real) / (m as real)) <= 0.000002real
}
pub proof fn lemma_angle(k: u64, m: u64, qa: f32, pi: f32, two: f32, hp: f32, an: f32)
    requires d_close(k, m, qa), is_pi(pi), fin(two), rv(two) == 2real, div_ensures::<f32>(pi, two, hp), mul_ensures::<f32>(qa, hp, an),
    ensures is_angle(k, m, an),
{
    broadcast use {ax_rnd};
    let e = EPS();
    ax_div(pi, two, hp);
    let (f, b) = (rv(qa), rv(hp));
    assert(1.570795real <= b <= 1.570797real);
    let t = f * b;
    assert(0real <= t <= 1.570797real) by (nonlinear_arith) requires t == f * b, 0real <= f <= 1real, 1.570795real <= b <= 1.570797real;
    ax_mul(qa, hp, an);
    let c = rv(an);
    assert(e * t <= 0.0000001real) by (nonlinear_arith) requires t <= 1.570797real, e == 1real / 16777216real;
    let g = c / RPIH();
    assert(g - f <= 0.000001real && f - g <= 0.000001real) by (nonlinear_arith)
        requires g == c / RPIH(), RPIH() == 1.5707963267948966real, t == f * b, 1.570795real <= b <= 1.570797real, 0real <= f <= 1real, c - t <= 0.0000002real, t - c <= 0.0000002real;
}
/// 1 - z * z under a root
pub open spec fn is_side(z: f32, w: f32) -> bool {
    fin(z) && 0real <= rv(z) <= 1real ==> fin(w) && 0real <= rv(w) <= 1real && rabs(rv(w) * rv(w) + rv(z) * rv(z) - 1real) <= 0.0000005real
}
pub broadcast proof fn lemma_side(one: f32, z: f32, zz: f32, s: f32, w: f32)
    requires fin(one), rv(one) == 1real, #[trigger] mul_ensures::<f32>(z, z, zz), #[trigger] sub_ensures::<f32>(one, zz, s), #[trigger] call_ensures(f32::sqrt, (s,), w),
    ensures is_side(z, w),
{
    broadcast use {ax_rnd};
    let e = EPS();
    let a = rv(z);
    if fin(z) && 0real <= a <= 1real {
        let z2 = a * a;
        assert(0real <= z2 <= 1real) by (nonlinear_arith) requires z2 == a * a, 0real <= a <= 1real;
        ax_mul(z, z, zz);
        assert(0real <= rv(zz) <= 1real);
        ax_sub(one, zz, s);
        let t = rv(s);
        assert(0real <= t <= 1real);
        assert(t + z2 - 1real <= 3real * e && 1real - t - z2 <= 3real * e);
        lemma_root01(s, w);
    }
}
proof fn lemma_root01(s: f32, w: f32)
    requires fin(s), 0real <= rv(s) <= 1real, call_ensures(f32::sqrt, (s,), w),
    ensures fin(w), 0real <= rv(w) <= 1real, rv(w) * rv(w) - rv(s) <= 4real * EPS(), rv(s) - rv(w) * rv(w) <= 4real * EPS(),
{
    broadcast use {ax_rnd};
    let t = rv(s);
    let e = EPS();
    let r = choose|r: real| #[trigger] is_root(t, r) && rnd(r, w);
    assert(r <= 1real) by (nonlinear_arith) requires r * r == t, t <= 1real, r >= 0real;
    let g = rv(w);
    assert(e * r <= e) by (nonlinear_arith) requires 0real <= r <= 1real, e == 1real / 16777216real;
    assert(g - r <= 1.5real * e && r - g <= 1.5real * e);
    assert(g * g - t <= 4real * e && t - g * g <= 4real * e) by (nonlinear_arith)
        requires r * r == t, g - r <= 1.5real * e, r - g <= 1.5real * e, 0real <= r <= 1real, 0real <= g <= 1real, e == 1real / 16777216real;
}
/// x and y are the sine and cosine of a
pub open spec fn is_trig(an: f32, x: f32, y: f32) -> bool {
    &&& fin(x) && 0real <= rv(x) <= 1real && rabs(rv(x) - rsin(rv(an) / RPIH())) <= TRIG() - 0.000001real
    &&& fin(y) && -0.000001real <= rv(y) <= 1real
    &&& rabs(rv(x) * rv(x) + rv(y) * rv(y) - 1real) <= 0.000008real
}
pub proof fn lemma_from(k: Nk, p: u8, an: f32, zf: f32, x: f32, y: f32, w: f32, x1: f32, y1: f32, r: Vector3)
    requires
        is_angle(k.a, m_of(p), an), d_close(k.z, m_of(p), zf), is_trig(an, x, y), is_side(zf, w),
        mul_ensures::<f32>(x, w, x1), mul_ensures::<f32>(y, w, y1),
        fin(x1) ==> fin(r.0) && rv(r.0) == (if k.sx { -rv(x1) } else { rv(x1) }), fin(y1) ==> fin(r.1) && rv(r.1) == (if k.sy { -rv(y1) } else { rv(y1) }),
        fin(zf) ==> fin(r.2) && rv(r.2) == (if k.sz { -rv(zf) } else { rv(zf) }),
    ensures n_r(k, p, r),
{
    broadcast use {ax_rnd};
    let e = EPS();
    let (a, b, g) = (rv(x), rv(y), rv(w));
    let f = rv(an) / RPIH();
    let ta = a * g;
    let tb = b * g;
    assert(0real <= ta <= 1real) by (nonlinear_arith) requires ta == a * g, 0real <= a <= 1real, 0real <= g <= 1real;
    assert(-0.000001real <= tb <= 1real) by (nonlinear_arith) requires tb == b * g, -0.000001real <= b <= 1real, 0real <= g <= 1real;
    ax_mul(x, w, x1);
    ax_mul(y, w, y1);
    let (c, d) = (rv(x1), rv(y1));
    assert(e * rabs(ta) <= e && e * rabs(tb) <= e) by (nonlinear_arith) requires rabs(ta) <= 1real, rabs(tb) <= 1real, e == 1real / 16777216real;
    assert(c - ta <= 1.1real * e && ta - c <= 1.1real * e && d - tb <= 1.1real * e && tb - d <= 1.1real * e);
    assert(0real <= c && -0.000002real <= d);
    let s = rsin(f);
    let q = TRIG() - 0.000001real;
    assert(ta - s * g <= q && s * g - ta <= q) by (nonlinear_arith) requires ta == a * g, a - s <= q, s - a <= q, 0real <= g <= 1real, q >= 0real;
    assert(rabs(rv(r.0)) == c);
    let g2 = g * g;
    let h = a * a + b * b;
    assert(ta * ta + tb * tb == h * g2) by (nonlinear_arith) requires ta == a * g, tb == b * g, h == a * a + b * b, g2 == g * g;
    assert(0real <= g2 <= 1real) by (nonlinear_arith) requires g2 == g * g, 0real <= g <= 1real;
    assert(h * g2 - g2 <= 0.000008real && g2 - h * g2 <= 0.000008real) by (nonlinear_arith) requires h - 1real <= 0.000008real, 1real - h <= 0.000008real, 0real <= g2 <= 1real;
    assert(c * c - ta * ta <= 3real * e && ta * ta - c * c <= 3real * e) by (nonlinear_arith)
        requires c - ta <= 1.1real * e, ta - c <= 1.1real * e, 0real <= ta <= 1real, 0real <= c, e == 1real / 16777216real;
    assert(d * d - tb * tb <= 3real * e && tb * tb - d * d <= 3real * e) by (nonlinear_arith)
        requires d - tb <= 1.1real * e, tb - d <= 1.1real * e, -0.000001real <= tb <= 1real, e == 1real / 16777216real;
    assert(rv(r.0) * rv(r.0) == c * c) by (nonlinear_arith) requires rv(r.0) == c || rv(r.0) == -c;
    assert(rv(r.1) * rv(r.1) == d * d) by (nonlinear_arith) requires rv(r.1) == d || rv(r.1) == -d;
    assert(rv(r.2) * rv(r.2) == rv(zf) * rv(zf)) by (nonlinear_arith) requires rv(r.2) == rv(zf) || rv(r.2) == -rv(zf);
    assert(n_at(k, p, r, f, g));
}
//@ if !fast_trig
pub open spec fn trig_of(an: f32, x: f32, y: f32) -> bool { call_ensures(f32::sin_cos, (an,), (x, y)) }
//@ endif
//@ fn normal_from_encoding
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires precision.0 <= 63,
    ensures n_r(Nk { a: asine, z, sx, sy, sz }, precision.0, ret),
//@ begin
    broadcast use {group_req, lemma_dequant_b, lemma_side};
    let ghost k = Nk { a: asine, z, sx, sy, sz };
    let ghost m = m_of(precision.0);
    let ghost claim = precision.0 >= 1 && k.a <= m && k.z <= m;
    proof { lemma_m_of(precision.0); ax_lit(); }
//@ after-let asine
    let ghost qa = asine;
//@ after-let asine #2
    let ghost an = asine;
    proof {
        if claim {
            let (pi, hp) = choose|pi: f32, hp: f32| is_pi(pi) && #[trigger] div_ensures::<f32>(pi, 2.0f32, hp) && #[trigger] mul_ensures::<f32>(qa, hp, an);
            lemma_angle(k.a, m, qa, pi, 2.0f32, hp, an);
        }
    }
//@ after-let z #2
    let ghost zf = z;
//@ before `let xy_mag`
    let ghost (xt, yt) = (x, y);
    proof { if claim { lemma_trig(k.a, m, an, xt, yt); } }
//@ before `let x = if` #2
    let ghost (x1, y1) = (x, y);
//@ ret-bind
    proof { if claim { lemma_from(k, precision.0, an, zf, xt, yt, xy_mag, x1, y1, ret__); } }
//@ end
//@ if fast_trig
pub open spec fn trig_of(an: f32, x: f32, y: f32) -> bool {
    exists|d: f64, s: f64, xx: f32, t: f32, u: f32| #[trigger] vstd::float::float_cast_spec::<f32, f64>(an, d) && is_fsin(d, s) && #[trigger] vstd::float::float_cast_spec::<f64, f32>(s, x)
        && #[trigger] mul_ensures::<f32>(x, x, xx) && #[trigger] sub_ensures::<f32>(1.0f32, xx, t) && fmax_is(t, 0.0f32, u) && #[trigger] call_ensures(f32::sqrt, (u,), y)
}
pub proof fn lemma_trig(k: u64, m: u64, an: f32, x: f32, y: f32)
    requires is_angle(k, m, an), trig_of(an, x, y),
    ensures is_trig(an, x, y),
{
    broadcast use {ax_rnd, ax_f32_f64, ax_f64_f32};
    ax_lit();
    let e = EPS();
    let (d, s, xx, t, u) = choose|d: f64, s: f64, xx: f32, t: f32, u: f32| #[trigger] vstd::float::float_cast_spec::<f32, f64>(an, d) && is_fsin(d, s) && #[trigger] vstd::float::float_cast_spec::<f64, f32>(s, x)
        && #[trigger] mul_ensures::<f32>(x, x, xx) && #[trigger] sub_ensures::<f32>(1.0f32, xx, t) && fmax_is(t, 0.0f32, u) && #[trigger] call_ensures(f32::sqrt, (u,), y);
    assert(rnd(rd(s), x));
    let a = rv(x);
    assert(e * rabs(rd(s)) <= e) by (nonlinear_arith) requires rabs(rd(s)) <= 1real, e == 1real / 16777216real;
    let a2 = a * a;
    assert(0real <= a2 <= 1real) by (nonlinear_arith) requires a2 == a * a, 0real <= a <= 1real;
    ax_mul(x, x, xx);
    ax_sub(1.0f32, xx, t);
    assert(0real <= rv(xx) <= 1real && 0real <= rv(t) <= 1real);
    assert(rv(u) == rv(t));
    assert(rv(t) + a2 - 1real <= 3real * e && 1real - rv(t) - a2 <= 3real * e);
    lemma_root01(u, y);
}
//@ else
pub proof fn lemma_trig(k: u64, m: u64, an: f32, x: f32, y: f32)
    requires is_angle(k, m, an), trig_of(an, x, y),
    ensures is_trig(an, x, y),
{
    let f = rv(an) / RPIH();
    ax_pyth(f);
    let (a, b, s, c) = (rv(x), rv(y), rsin(f), rcos(f));
    assert(a * a + b * b - 1real <= 0.000008real && 1real - a * a - b * b <= 0.000008real) by (nonlinear_arith)
        requires a - s <= 0.000001real, s - a <= 0.000001real, b - c <= 0.000001real, c - b <= 0.000001real, s * s + c * c == 1real, 0real <= a <= 1real, -0.000001real <= b <= 1real;
}
//@ endif

// ---------------------------------------------------------------- arrays of normals
pub open spec fn n_rec(k: Nk, p: u8) -> Seq<bool> { seq![k.sx].push(k.sy).push(k.sz) + val_bits(k.a, p as nat) + val_bits(k.z, p as nat) }
pub open spec fn n_recs(ks: Seq<Nk>, p: u8) -> Seq<Seq<bool>> { Seq::new(ks.len(), |i: int| n_rec(ks[i], p)) }
pub open spec fn n_parts(e: Seq<u8>, s: Seq<Vector3>, p: u8, ks: Seq<Nk>, body: Seq<u8>) -> bool {
    &&& p <= 63
    &&& s.len() <= u64::MAX
    &&& e == le8(s.len() as u64) + seq![p] + body
    &&& ks.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> n_k(#[trigger] s[i], p, ks[i])
    &&& padded(body, flat(n_recs(ks, p)))
}
pub open spec fn is_norm(e: Seq<u8>, s: Seq<Vector3>, p: u8) -> bool {
    exists|ks: Seq<Nk>, body: Seq<u8>| #[trigger] n_parts(e, s, p, ks, body)
}
pub open spec fn n_decoded(src: Seq<u8>, r: Seq<Vector3>, ks: Seq<Nk>, rest: Seq<bool>) -> bool {
    &&& src.len() >= 9 && src[8] <= 63
    &&& src.take(8) == le8(r.len() as u64)
    &&& ks.len() == r.len()
    &&& byte_bits(src.skip(9)) == flat(n_recs(ks, src[8])) + rest
    &&& forall|i: int| 0 <= i < r.len() ==> fits(#[trigger] ks[i].a, src[8] as nat) && fits(ks[i].z, src[8] as nat) && n_r(ks[i], src[8], r[i])
}
pub open spec fn is_norm_decoded(src: Seq<u8>, r: Seq<Vector3>) -> bool {
    exists|ks: Seq<Nk>, rest: Seq<bool>| #[trigger] n_decoded(src, r, ks, rest)
}
pub open spec fn norm_ok(src: Seq<u8>, len: u64) -> bool {
    &&& src.len() >= 9 && src[8] <= 63
    &&& src.take(8) == le8(len)
    &&& len <= MAX_SEG_SIZE
    &&& 8 * (src.len() - 9) >= (3 + 2 * src[8]) * len
}
/// what a normal s that was saved with m steps may come back as
pub open spec fn n_back(s: Vector3, r: Vector3, m: u64) -> bool {
    let st = 1real / (m as real);
    &&& fin3(r)
    &&& rabs(sq3(r) - 1real) <= 0.00002real
    &&& fin(s.2) && rabs(rv(s.2)) <= 2real ==> rabs(rabs(rv(r.2)) - rmin(rabs(rv(s.2)), 1real)) <= st + 8real * EPS()
    &&& fin(s.2) ==> (if rv(s.2) < 0real { rv(r.2) <= 0real } else { rv(r.2) >= 0real })
    &&& fin(s.0) ==> (if rv(s.0) < 0real { rv(r.0) <= 0real } else { rv(r.0) >= 0real })
    &&& fin(s.1) ==> (if rv(s.1) < 0real { rv(r.1) <= 0.000002real } else { rv(r.1) >= -0.000002real })
    &&& az_claim(s) ==> exists|u: real, f: real, w: real| #[trigger] n_dir(s, r, st, u, f, w)
}
/// u is the sine of the angle of s, f the angle of r (in right angles), w the distance of r from the z axis
pub open spec fn n_dir(s: Vector3, r: Vector3, st: real, u: real, f: real, w: real) -> bool {
    &&& near_sin(s, u)
    &&& rabs(f - ran(u)) <= st + 0.00002real
    &&& 0real <= w <= 1real && rabs(w * w + rv(r.2) * rv(r.2) - 1real) <= 0.000001real
    &&& rabs(rabs(rv(r.0)) - rsin(f) * w) <= TRIG()
    &&& rabs(rv(r.0) * rv(r.0) + rv(r.1) * rv(r.1) - w * w) <= 0.00001real
}
pub proof fn lemma_n_back(s: Vector3, k: Nk, p: u8, r: Vector3)
    requires 1 <= p <= 63, n_k(s, p, k), n_r(k, p, r),
    ensures n_back(s, r, m_of(p)),
{
    lemma_m_of(p);
    let m = m_of(p);
    let mr = m as real;
    let st = 1real / mr;
    let e = EPS();
    let (f, w) = choose|f: real, w: real| #[trigger] n_at(k, p, r, f, w);
    assert(mr >= 1real);
    if fin(s.2) && rabs(rv(s.2)) <= 2real {
        let u = rmin(rabs(rv(s.2)), 1real);
        let kr = k.z as real;
        let x = kr / mr;
        assert(x - u <= st + 3real * e + ETA() && u - x <= st + 3real * e + ETA()) by (nonlinear_arith)
            requires x == kr / mr, st == 1real / mr, mr >= 1real, kr - u * mr <= 1real + 3real * e * mr + ETA(), u * mr - kr <= 1real + 3real * e * mr + ETA(), e >= 0real;
    }
    if az_claim(s) {
        let u = choose|u: real| #[trigger] near_sin(s, u) && az_close(ran(u), m, k.a);
        let g = ran(u);
        let kr = k.a as real;
        let x = kr / mr;
        assert(x - g <= st + 0.00001real && g - x <= st + 0.00001real) by (nonlinear_arith)
            requires x == kr / mr, st == 1real / mr, mr >= 1real, kr - g * mr <= 1real + 0.00001real * mr, g * mr - kr <= 1real + 0.00001real * mr;
        assert(n_dir(s, r, st, u, f, w));
    }
}
pub proof fn theorem_norm_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector3>, p: u8, r: Seq<Vector3>)
    requires is_norm(e, s, p), is_norm_decoded(e + tail, r), r.len() <= u64::MAX,
    ensures
        r.len() == s.len(),
        p >= 1 ==> forall|i: int| 0 <= i < s.len() ==> n_back(#[trigger] s[i], r[i], m_of(p)),
{
    let (ks, body) = choose|ks: Seq<Nk>, body: Seq<u8>| #[trigger] n_parts(e, s, p, ks, body);
    let (js, rest) = choose|js: Seq<Nk>, rest: Seq<bool>| #[trigger] n_decoded(e + tail, r, js, rest);
    assert((e + tail).take(8) =~= le8(s.len() as u64));
    assert((e + tail).skip(9) =~= body + tail);
    assert((e + tail)[8] == p);
    lemma_le8_inj(s.len() as u64, r.len() as u64);
    lemma_m_of(p);
    lemma_records(body, tail, n_recs(ks, p), n_recs(js, p), rest, (3 + 2 * p) as nat);
    if p >= 1 {
        assert forall|i: int| 0 <= i < s.len() implies n_back(#[trigger] s[i], r[i], m_of(p)) by {
            assert(n_k(s[i], p, ks[i]));
            assert(fits(js[i].a, p as nat));
            assert(n_recs(ks, p)[i] == n_recs(js, p)[i]);
            lemma_n_rec(ks[i], js[i], p);
            lemma_n_back(s[i], ks[i], p, r[i]);
        }
    }
}
pub proof fn lemma_n_rec(k: Nk, j: Nk, p: u8)
    requires n_rec(k, p) == n_rec(j, p), p <= 63, k.a <= m_of(p), k.z <= m_of(p), fits(j.a, p as nat), fits(j.z, p as nat),
    ensures k == j,
{
    lemma_m_of(p);
    let (ka, ja) = (seq![k.sx].push(k.sy).push(k.sz), seq![j.sx].push(j.sy).push(j.sz));
    lemma_cat_split(ka + val_bits(k.a, p as nat), val_bits(k.z, p as nat), ja + val_bits(j.a, p as nat), val_bits(j.z, p as nat));
    lemma_cat_split(ka, val_bits(k.a, p as nat), ja, val_bits(j.a, p as nat));
    lemma_val_bits_inj(k.a, j.a, p as nat);
    lemma_val_bits_inj(k.z, j.z, p as nat);
    assert(ka[0] == ja[0] && ka[1] == ja[1] && ka[2] == ja[2]);
}
pub proof fn theorem_norm_readable(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector3>, p: u8)
    requires is_norm(e, s, p), s.len() <= MAX_SEG_SIZE,
    ensures norm_ok(e + tail, s.len() as u64),
{
    let (ks, body) = choose|ks: Seq<Nk>, body: Seq<u8>| #[trigger] n_parts(e, s, p, ks, body);
    assert((e + tail).take(8) =~= le8(s.len() as u64));
    assert((e + tail)[8] == p);
    lemma_flat_len(n_recs(ks, p), (3 + 2 * p) as nat);
}
//@ fn save_normal
//@ spec
    requires old(writer).wf(), precision.0 <= 63,
    ensures
        final(writer).same_sink(old(writer)),
        ret is Ok ==> final(writer).wf(),
        ret is Ok ==> exists|k: Nk| n_k(normal, precision.0, k) && (*final(writer)).view() == (*old(writer)).view() + #[trigger] n_rec(k, precision.0),
        old(writer).writer.inner.infallible() ==> ret is Ok,
//@ begin
    let ghost o = writer.view();
//@ ret-bind
    proof {
        let k = Nk { a: asine, z, sx, sy, sz };
        assert(writer.view() =~= o + n_rec(k, precision.0));
    }
//@ end
//@ fn read_normal
//@ spec
    requires old(reader).wf(), precision.0 <= 63,
    ensures
        final(reader).wf(), final(reader).same_src(old(reader)),
        ret matches Ok(r) ==> exists|k: Nk| (*old(reader)).view() == #[trigger] n_rec(k, precision.0) + (*final(reader)).view()
            && fits(k.a, precision.0 as nat) && fits(k.z, precision.0 as nat) && n_r(k, precision.0, r),
        old(reader).reader.reliable() && old(reader).view().len() >= 3 + 2 * precision.0 ==> ret is Ok,
//@ begin
    let ghost o = reader.view();
//@ before `let (asine, z)`
    let ghost mid = reader.view();
    proof { assert(o =~= seq![sx].push(sy).push(sz) + mid); }
//@ ret-bind
    proof {
        let k = Nk { a: asine, z, sx, sy, sz };
        lemma_got_cat(mid, mid.skip(precision.0 as int), precision.0 as nat, asine);
        lemma_got_cat(mid.skip(precision.0 as int), reader.view(), precision.0 as nat, z);
        assert(o =~= n_rec(k, precision.0) + reader.view());
    }
//@ end
//@ fn save_normal_array
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(writer).infallible(), precision.0 <= 63,
    ensures
        ret is Ok,
        exists|e: Seq<u8>| #[trigger] is_norm(e, normals@, precision.0) && (*final(writer)).sunk() == (*old(writer)).sunk() + e,
//@ begin
    let ghost base = (*old(writer)).sunk();
    let ghost fsunk = (*final(writer)).sunk();
    let ghost p = precision.0;
    let ghost hdr = le8(normals@.len() as u64) + seq![p];
//@ before `let mut writer`
    proof { assert(writer.sunk() =~= base + hdr); }
//@ before-loop 1
    let ghost mut ks: Seq<Nk> = Seq::empty();
    proof { assert(n_recs(ks, p) =~= Seq::empty()); }
//@ loop 1
        invariant
            writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fsunk,
            writer.view() == byte_bits(base + hdr) + flat(n_recs(ks, p)),
            ks.len() == it1.index@,
            forall|i: int| 0 <= i < ks.len() ==> n_k(#[trigger] normals@[i], p, ks[i]),
//@ loop-begin 1
        let ghost o = writer.view();
//@ loop-end 1
        proof {
            let k = choose|k: Nk| n_k(*normal, p, k) && writer.view() == o + #[trigger] n_rec(k, p);
            assert(n_recs(ks.push(k), p) =~= n_recs(ks, p).push(n_rec(k, p)));
            lemma_flat_push(n_recs(ks, p), n_rec(k, p));
            assert(writer.view() =~= byte_bits(base + hdr) + flat(n_recs(ks.push(k), p)));
            ks = ks.push(k);
        }
//@ ret-bind
    proof {
        lemma_padded(writer);
        lemma_padded_prefix(writer.bytes(), base + hdr, flat(n_recs(ks, p)));
    }
    let ghost body = writer.bytes().skip((base + hdr).len() as int);
    writer.drop_elab();
    proof {
        assert(n_parts(hdr + body, normals@, p, ks, body));
        assert(base + hdr + body =~= base + (hdr + body));
        assert(is_norm(hdr + body, normals@, p));
    }
//@ end
//@ fn read_normal_array
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        ret matches Ok(r) ==> r@.len() <= MAX_SEG_SIZE && is_norm_decoded((*old(reader)).rest(), r@),
        (*old(reader)).reliable() && (exists|len: u64| #[trigger] norm_ok((*old(reader)).rest(), len)) ==> ret is Ok,
//@ begin
    let ghost src = (*old(reader)).rest();
    let ghost ok = (*old(reader)).reliable() && exists|len: u64| #[trigger] norm_ok(src, len);
//@ after-let count
    proof {
        if ok {
            let len = choose|len: u64| #[trigger] norm_ok(src, len);
            assert(exists|c: u64| src.take(8) == #[trigger] le8(c) && count == c as usize);
            let c = choose|c: u64| src.take(8) == #[trigger] le8(c) && count == c as usize;
            lemma_le8_inj(len, c);
        }
    }
//@ after-let precision
    let ghost p = precision;
    proof {
        assert(src.skip(8).take(1)[0] == precision);
        assert(src[8] == p);
        assert(src.take(8) =~= le8(count as u64));
        assert(reader.rest() =~= src.skip(9));
    }
    let ghost bits = byte_bits(src.skip(9));
//@ before-loop 1
    let ghost mut ks: Seq<Nk> = Seq::empty();
    proof { assert(n_recs(ks, p) =~= Seq::empty()); assert(flat(n_recs(ks, p)) + reader.view() =~= bits); }
//@ loop 1
        invariant
            ok ==> reader.reader.reliable(),
            reader.wf(),
            bits == flat(n_recs(ks, p)) + reader.view(),
            ks.len() == it1.index@, normals@.len() == ks.len(),
            forall|i: int| 0 <= i < ks.len() ==> fits(#[trigger] ks[i].a, p as nat) && fits(ks[i].z, p as nat) && n_r(ks[i], p, normals@[i]),
//@ loop-begin 1
        let ghost o = reader.view();
        proof {
            lemma_flat_len(n_recs(ks, p), (3 + 2 * p) as nat);
            let a = ks.len() as int;
            assert(ok ==> o.len() >= 3 + 2 * p) by (nonlinear_arith)
                requires a + 1 <= count, ok ==> bits.len() >= (3 + 2 * p) * count, o.len() == bits.len() - (3 + 2 * p) * a;
        }
//@ loop-end 1
        proof {
            let k = choose|k: Nk| o == #[trigger] n_rec(k, p) + reader.view() && fits(k.a, p as nat) && fits(k.z, p as nat) && n_r(k, p, normal);
            assert(n_recs(ks.push(k), p) =~= n_recs(ks, p).push(n_rec(k, p)));
            lemma_flat_push(n_recs(ks, p), n_rec(k, p));
            assert(bits =~= flat(n_recs(ks.push(k), p)) + reader.view());
            ks = ks.push(k);
        }
//@ ret-bind
    proof {
        assert(n_decoded(src, ret__->Ok_0@, ks, reader.view()));
    }
//@ end
}
