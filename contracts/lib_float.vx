/// Floating point numbers as real numbers with rounding (IEEE 754, round to nearest), stated for f32 and f64.
/// All statements here are assumptions about the hardware and the standard library.
pub mod fl {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
pub open spec fn rmin(x: real, y: real) -> real { if x <= y { x } else { y } }
/// 2^-24
pub open spec fn EPS() -> real { 1real / 16777216real }
/// more than half of the smallest positive number
pub open spec fn ETA() -> real { 0.00000000000000000000000000000000000002real }
/// less than the biggest float
pub open spec fn FMAX() -> real { 340000000000000000000000000000000000000real }
/// 2^-53
pub open spec fn EPSD() -> real { 1real / 9007199254740992real }
pub open spec fn ir(n: int) -> real { n as real }
pub open spec fn TINY() -> real { 0.000001real }
pub open spec fn r2(n: nat) -> real
    decreases n,
{ if n == 0 { 1real } else { 2real * r2((n - 1) as nat) } }
pub proof fn lemma_r2(n: nat)
    ensures
        n < 64 ==> (1u64 << (n as u64)) as real == r2(n), 
        r2(n) >= 1real,
        n >= 1 ==> r2(n) >= 2real,
    decreases n,
{
    if n > 0 {
        lemma_r2((n - 1) as nat);
        if n < 64 {
            let k = n as u64;
            assert(1u64 << k == mul(2, 1u64 << sub(k, 1))) by (bit_vector) requires 1 <= k < 64;
            assert(1u64 << sub(k, 1) <= 0x4000_0000_0000_0000) by (bit_vector) requires 1 <= k < 64;
        }
    } else {
        assert(1u64 << 0u64 == 1) by (bit_vector);
    }
}
pub proof fn lemma_r2_mono(a: nat, b: nat)
    requires a <= b,
    ensures r2(a) <= r2(b),
    decreases b,
{
    if a < b { lemma_r2_mono(a, (b - 1) as nat); lemma_r2((b - 1) as nat); }
}
pub open spec fn DMAX() -> real { FMAX() * FMAX() }

// ---------------------------------------------------------------- f32
/// neither infinite nor not a number
pub uninterp spec fn fin(x: f32) -> bool;
pub uninterp spec fn nan(x: f32) -> bool;
/// the value of a finite float
pub uninterp spec fn rv(x: f32) -> real;
pub uninterp spec fn pinf(x: f32) -> bool;
/// minus infinity
pub open spec fn ninf(x: f32) -> bool { !fin(x) && !nan(x) && !pinf(x) }
/// the sign bit
pub uninterp spec fn neg_bit(x: f32) -> bool;
/// c is t rounded to the nearest float
pub uninterp spec fn rnd(t: real, c: f32) -> bool;
pub broadcast axiom fn ax_rnd(t: real, c: f32)
    requires #[trigger] rnd(t, c),
    ensures
        fin(c), 
        rv(c) - t <= EPS() * rabs(t) + ETA(), t - rv(c) <= EPS() * rabs(t) + ETA(),
        t == 0real ==> rv(c) == 0real, t >= 0real ==> rv(c) >= 0real, t <= 0real ==> rv(c) <= 0real,
        t >= 1real ==> rv(c) >= 1real, t <= 1real ==> rv(c) <= 1real,
        t >= -1real ==> rv(c) >= -1real, t <= -1real ==> rv(c) <= -1real;
/// rounding is monotone, and floats are not changed by it
pub axiom fn ax_rnd_mono(t: real, c: f32, y: f32)
    requires rnd(t, c), fin(y),
    ensures t <= rv(y) ==> rv(c) <= rv(y), t >= rv(y) ==> rv(c) >= rv(y);
/// every number in range has a nearest float
pub axiom fn ax_rnd_exists(t: real)
    requires rabs(t) <= FMAX(),
    ensures exists|c: f32| rnd(t, c);
pub axiom fn ax_rnd_le(t1: real, c1: f32, t2: real, c2: f32)
    requires rnd(t1, c1), rnd(t2, c2), t1 <= t2,
    ensures rv(c1) <= rv(c2);
pub broadcast axiom fn ax_kinds(x: f32)
    ensures #[trigger] fin(x) ==> !nan(x) && !pinf(x) && rv(x) <= 2real * FMAX() && rv(x) >= -(2real * FMAX());
pub broadcast axiom fn ax_sign(x: f32)
    ensures fin(x) && rv(x) != 0real ==> #[trigger] neg_bit(x) == (rv(x) < 0real);

pub broadcast axiom fn ax_add_req(a: f32, b: f32) ensures #[trigger] AddSpec::add_req(a, b);
pub broadcast axiom fn ax_sub_req(a: f32, b: f32) ensures #[trigger] SubSpec::sub_req(a, b);
pub broadcast axiom fn ax_mul_req(a: f32, b: f32) ensures #[trigger] MulSpec::mul_req(a, b);
pub broadcast axiom fn ax_div_req(a: f32, b: f32) ensures #[trigger] DivSpec::div_req(a, b);
pub broadcast axiom fn ax_add(a: f32, b: f32, c: f32)
    requires #[trigger] add_ensures::<f32>(a, b, c), fin(a), fin(b), rabs(rv(a) + rv(b)) <= FMAX(),
    ensures rnd(rv(a) + rv(b), c);
pub broadcast axiom fn ax_sub(a: f32, b: f32, c: f32)
    requires #[trigger] sub_ensures::<f32>(a, b, c), fin(a), fin(b), rabs(rv(a) - rv(b)) <= FMAX(),
    ensures rnd(rv(a) - rv(b), c);
/// distinct numbers have a difference, however small
pub broadcast axiom fn ax_sub_nz(a: f32, b: f32, c: f32)
    requires #[trigger] sub_ensures::<f32>(a, b, c), fin(a), fin(b), rv(a) > rv(b), fin(c),
    ensures rv(c) > 0real;
pub broadcast axiom fn ax_mul(a: f32, b: f32, c: f32)
    requires #[trigger] mul_ensures::<f32>(a, b, c), fin(a), fin(b), rabs(rv(a) * rv(b)) <= FMAX(),
    ensures rnd(rv(a) * rv(b), c);
pub broadcast axiom fn ax_div(a: f32, b: f32, c: f32)
    requires #[trigger] div_ensures::<f32>(a, b, c), fin(a), fin(b), rv(b) != 0real, rabs(rv(a) / rv(b)) <= FMAX(),
    ensures rnd(rv(a) / rv(b), c);
/// overflow
pub broadcast axiom fn ax_div_big(a: f32, b: f32, c: f32)
    requires #[trigger] div_ensures::<f32>(a, b, c), fin(a), fin(b), rv(b) != 0real, rv(a) / rv(b) > FMAX(),
    ensures pinf(c) || (fin(c) && rv(c) >= FMAX() / 2real);
/// products and sums that are too big, and results of what is not finite
pub axiom fn ax_mul_big(a: f32, b: f32, c: f32)
    requires mul_ensures::<f32>(a, b, c), fin(a), fin(b), rv(a) * rv(b) > FMAX(),
    ensures pinf(c) || (fin(c) && rv(c) >= FMAX() / 2real);
pub axiom fn ax_add_big(a: f32, b: f32, c: f32)
    requires add_ensures::<f32>(a, b, c), fin(a), fin(b), rv(a) + rv(b) > FMAX(),
    ensures pinf(c) || (fin(c) && rv(c) >= FMAX() / 2real);
pub axiom fn ax_sub_big(a: f32, b: f32, c: f32)
    requires sub_ensures::<f32>(a, b, c), fin(a), fin(b), rabs(rv(a) - rv(b)) > FMAX(),
    ensures !fin(c) || rabs(rv(c)) >= FMAX() / 2real;
pub axiom fn ax_mul_fin(a: f32, b: f32, c: f32)
    requires mul_ensures::<f32>(a, b, c), fin(c),
    ensures fin(a), fin(b);
pub axiom fn ax_add_fin(a: f32, b: f32, c: f32)
    requires add_ensures::<f32>(a, b, c), fin(c),
    ensures fin(a), fin(b);
pub axiom fn ax_sub_fin(a: f32, b: f32, c: f32)
    requires sub_ensures::<f32>(a, b, c), fin(c),
    ensures fin(a), fin(b);
pub broadcast axiom fn ax_le_any(a: f32, b: f32, r: bool)
    requires #[trigger] le_ensures::<f32>(a, b, r), r,
    ensures !nan(a), !nan(b), fin(b) && !fin(a) ==> ninf(a), fin(a) && !fin(b) ==> pinf(b);
pub broadcast axiom fn ax_ge_any(a: f32, b: f32, r: bool)
    requires #[trigger] ge_ensures::<f32>(a, b, r), r,
    ensures !nan(a), !nan(b), fin(b) && !fin(a) ==> pinf(a), fin(a) && !fin(b) ==> ninf(b);
pub broadcast axiom fn ax_lt(a: f32, b: f32, r: bool)
    requires #[trigger] lt_ensures::<f32>(a, b, r), fin(a), fin(b),
    ensures r == (rv(a) < rv(b));
pub broadcast axiom fn ax_le(a: f32, b: f32, r: bool)
    requires #[trigger] le_ensures::<f32>(a, b, r), fin(a), fin(b),
    ensures r == (rv(a) <= rv(b));
pub broadcast axiom fn ax_gt(a: f32, b: f32, r: bool)
    requires #[trigger] gt_ensures::<f32>(a, b, r), fin(a), fin(b),
    ensures r == (rv(a) > rv(b));
pub broadcast axiom fn ax_ge(a: f32, b: f32, r: bool)
    requires #[trigger] ge_ensures::<f32>(a, b, r), fin(a), fin(b),
    ensures r == (rv(a) >= rv(b));
pub broadcast axiom fn ax_eq(a: f32, b: f32, r: bool)
    requires #[trigger] eq_ensures::<f32>(a, b, r), fin(a), fin(b),
    ensures r == (rv(a) == rv(b));
/// comparisons with something that is not a number
pub broadcast axiom fn ax_lt_nan(a: f32, b: f32, r: bool)
    requires #[trigger] lt_ensures::<f32>(a, b, r), nan(a) || nan(b),
    ensures !r;
pub broadcast axiom fn ax_le_nan(a: f32, b: f32, r: bool)
    requires #[trigger] le_ensures::<f32>(a, b, r), nan(a) || nan(b),
    ensures !r;
pub broadcast axiom fn ax_gt_nan(a: f32, b: f32, r: bool)
    requires #[trigger] gt_ensures::<f32>(a, b, r), nan(a) || nan(b),
    ensures !r;
/// f as u64 truncates and saturates
pub broadcast axiom fn ax_f32_u64(a: f32, k: u64)
    requires #[trigger] vstd::float::float_cast_spec::<f32, u64>(a, k),
    ensures
        fin(a) && rv(a) <= 0real ==> k == 0,
        fin(a) && rv(a) >= 0real ==> k as real <= rv(a) && (rv(a) < k as real + 1real || k == u64::MAX),
        nan(a) ==> k == 0, pinf(a) ==> k == u64::MAX;
pub broadcast axiom fn ax_f32_u8(a: f32, k: u8)
    requires #[trigger] vstd::float::float_cast_spec::<f32, u8>(a, k),
    ensures
        fin(a) && rv(a) <= 0real ==> k == 0,
        fin(a) && rv(a) >= 0real ==> k as real <= rv(a) && (rv(a) < k as real + 1real || k == u8::MAX),
        nan(a) ==> k == 0, pinf(a) ==> k == u8::MAX;
pub broadcast axiom fn ax_u64_f32(k: u64, c: f32)
    requires #[trigger] vstd::float::float_cast_spec::<u64, f32>(k, c),
    ensures rnd(k as real, c);

// ---------------------------------------------------------------- f64
pub uninterp spec fn find(x: f64) -> bool;
pub uninterp spec fn rd(x: f64) -> real;
pub uninterp spec fn rndd(t: real, c: f64) -> bool;
pub broadcast axiom fn ax_rndd(t: real, c: f64)
    requires #[trigger] rndd(t, c),
    ensures
        find(c),
        rd(c) - t <= EPSD() * rabs(t) + ETA() * ETA(), t - rd(c) <= EPSD() * rabs(t) + ETA() * ETA(),
        t == 0real ==> rd(c) == 0real, t >= 0real ==> rd(c) >= 0real, t <= 0real ==> rd(c) <= 0real,
        t >= 1real ==> rd(c) >= 1real, t <= 1real ==> rd(c) <= 1real;
pub axiom fn ax_rndd_le(t1: real, c1: f64, t2: real, c2: f64)
    requires rndd(t1, c1), rndd(t2, c2), t1 <= t2,
    ensures rd(c1) <= rd(c2);
pub broadcast axiom fn axd_add_req(a: f64, b: f64) ensures #[trigger] AddSpec::add_req(a, b);
pub broadcast axiom fn axd_sub_req(a: f64, b: f64) ensures #[trigger] SubSpec::sub_req(a, b);
pub broadcast axiom fn axd_mul_req(a: f64, b: f64) ensures #[trigger] MulSpec::mul_req(a, b);
pub broadcast axiom fn axd_div_req(a: f64, b: f64) ensures #[trigger] DivSpec::div_req(a, b);
pub broadcast axiom fn axd_add(a: f64, b: f64, c: f64)
    requires #[trigger] add_ensures::<f64>(a, b, c), find(a), find(b), rabs(rd(a) + rd(b)) <= DMAX(),
    ensures rndd(rd(a) + rd(b), c);
pub broadcast axiom fn axd_sub(a: f64, b: f64, c: f64)
    requires #[trigger] sub_ensures::<f64>(a, b, c), find(a), find(b), rabs(rd(a) - rd(b)) <= DMAX(),
    ensures rndd(rd(a) - rd(b), c);
pub broadcast axiom fn axd_mul(a: f64, b: f64, c: f64)
    requires #[trigger] mul_ensures::<f64>(a, b, c), find(a), find(b), rabs(rd(a) * rd(b)) <= DMAX(),
    ensures rndd(rd(a) * rd(b), c);
pub broadcast axiom fn axd_div(a: f64, b: f64, c: f64)
    requires #[trigger] div_ensures::<f64>(a, b, c), find(a), find(b), rd(b) != 0real, rabs(rd(a) / rd(b)) <= DMAX(),
    ensures rndd(rd(a) / rd(b), c);
pub broadcast axiom fn axd_u64(k: u64, c: f64)
    requires #[trigger] vstd::float::float_cast_spec::<u64, f64>(k, c),
    ensures rndd(k as real, c);
pub broadcast axiom fn ax_f32_f64(a: f32, c: f64)
    requires #[trigger] vstd::float::float_cast_spec::<f32, f64>(a, c),
    ensures find(c) == fin(a), fin(a) ==> rd(c) == rv(a);
pub broadcast axiom fn ax_f64_f32(a: f64, c: f32)
    requires #[trigger] vstd::float::float_cast_spec::<f64, f32>(a, c), find(a),
    ensures rabs(rd(a)) <= FMAX() ==> rnd(rd(a), c);
/// a number that is a float stays the same
pub axiom fn ax_f64_f32_back(a: f64, c: f32, x: f32)
    requires vstd::float::float_cast_spec::<f64, f32>(a, c), find(a), fin(x) && rv(x) == rd(a),
    ensures fin(c), rv(c) == rd(a);

pub broadcast group group_req { ax_add_req, ax_sub_req, ax_mul_req, ax_div_req, axd_add_req, axd_sub_req, axd_mul_req, axd_div_req }
pub broadcast group group_fl {
    ax_rnd, ax_kinds, ax_sign, ax_add, ax_sub, ax_sub_nz, ax_mul, ax_div, ax_div_big,
    ax_lt, ax_le, ax_gt, ax_ge, ax_eq, ax_lt_nan, ax_le_nan, ax_gt_nan,
    ax_f32_u64, ax_f32_u8, ax_u64_f32,
    ax_rndd, axd_add, axd_sub, axd_mul, axd_div, axd_u64, ax_f32_f64, ax_f64_f32,
}
// ---------------------------------------------------------------- quantisation
/// how far a quantised number in 0..=1 may be from u * m
pub open spec fn q_close(u: real, m: u64, k: u64) -> bool {
    &&& k <= m
    &&& k as real - u * (m as real) <= 1real + 3real * EPS() * (m as real) + ETA()
    &&& u * (m as real) - k as real <= 1real + 3real * EPS() * (m as real) + ETA()
}
/// mul is the float next to m, f is u * mul rounded, k is f truncated and clamped
pub proof fn lemma_quant(u: f32, m: u64, mul: f32, f: f32, k0: u64, k: u64)
    requires
        fin(u), 0real <= rv(u) <= 1real, m < 0x8000_0000_0000_0000,
        rnd(m as real, mul), rnd(rv(u) * rv(mul), f), fin(f),
        rv(f) <= 0real ==> k0 == 0,
        rv(f) >= 0real ==> k0 as real <= rv(f) && (rv(f) < k0 as real + 1real || k0 == u64::MAX),
        k == if k0 <= m { k0 } else { m },
    ensures q_close(rv(u), m, k),
{
    broadcast use {ax_rnd};
    let x = rv(u);
    let mr = m as real;
    let e = EPS();
    assert(rv(mul) - mr <= e * mr + ETA() && mr - rv(mul) <= e * mr + ETA());
    let t = x * rv(mul);
    assert(rv(mul) >= 0real);
    assert(t >= 0real && t - x * mr <= e * mr + ETA() && x * mr - t <= e * mr + ETA() && t <= rv(mul)) by (nonlinear_arith)
        requires t == x * rv(mul), 0real <= x <= 1real, rv(mul) >= 0real, rv(mul) - mr <= e * mr + ETA(), mr - rv(mul) <= e * mr + ETA(), e * mr + ETA() >= 0real;
    assert(e * t <= 1.1real * e * mr + e * ETA()) by (nonlinear_arith) requires t <= mr + e * mr + ETA(), e == EPS(), mr >= 0real;
    assert(rv(f) - x * mr <= 2.5real * e * mr + 2.5real * ETA());
    assert(x * mr - rv(f) <= 2.5real * e * mr + 2.5real * ETA());
    assert(rv(f) < 18446744073709551615real);
    assert(x * mr <= mr) by (nonlinear_arith) requires 0real <= x <= 1real, mr >= 0real;
    if m == 0 {
        assert(k == 0);
    } else {
        assert(2.5real * ETA() <= 0.5real * e * mr) by (nonlinear_arith) requires e == EPS(), mr >= 1real;
    }
}
/// (u * mul) as u64, clamped to m
pub broadcast proof fn lemma_quant_b(u: f32, m: u64, mul: f32, f: f32, k0: u64)
    requires
        #[trigger] vstd::float::float_cast_spec::<u64, f32>(m, mul), #[trigger] mul_ensures::<f32>(u, mul, f), #[trigger] vstd::float::float_cast_spec::<f32, u64>(f, k0),
        in01(u), m < 0x8000_0000_0000_0000,
    ensures q_close(rv(u), m, if k0 <= m { k0 } else { m }),
{
    broadcast use {ax_u64_f32, ax_mul, ax_f32_u64, ax_rnd};
    let x = rv(u);
    let y = rv(mul);
    assert(m as real <= 18446744073709551615real);
    assert(rnd(m as real, mul));
    assert(y <= m as real + EPS() * (m as real) + ETA());
    assert(0real <= y <= 20000000000000000000real);
    assert(0real <= x * y <= 20000000000000000000real) by (nonlinear_arith) requires 0real <= x <= 1real, 0real <= y <= 20000000000000000000real;
    lemma_quant(u, m, mul, f, k0, if k0 <= m { k0 } else { m });
}
/// (k as f32) / (m as f32)
pub broadcast proof fn lemma_dequant_b(k: u64, m: u64, a: f32, d: f32, r: f32)
    requires
        #[trigger] vstd::float::float_cast_spec::<u64, f32>(k, a), #[trigger] vstd::float::float_cast_spec::<u64, f32>(m, d), #[trigger] div_ensures::<f32>(a, d, r),
        k <= m, 1 <= m < 0x8000_0000_0000_0000,
    ensures d_close(k, m, r),
{
    broadcast use {ax_u64_f32, ax_div, ax_rnd};
    let x = rv(a);
    let y = rv(d);
    assert(1real <= y);
    assert(k as real <= 18446744073709551615real);
    assert(rnd(k as real, a));
    assert(x <= k as real + EPS() * (k as real) + ETA());
    let kq = k as real;
    assert(EPS() * kq <= 0.001real * kq) by (nonlinear_arith) requires kq >= 0real;
    assert(0real <= x <= 20000000000000000000real);
    let t = x / y;
    assert(0real <= t <= 20000000000000000000real) by (nonlinear_arith) requires t == x / y, 0real <= x <= 20000000000000000000real, y >= 1real;
    lemma_dequant(k, m, a, d, r);
}
pub open spec fn in01(x: f32) -> bool { fin(x) && 0real <= rv(x) <= 1real }
pub open spec fn d_close(k: u64, m: u64, r: f32) -> bool {
    &&& fin(r) && 0real <= rv(r) <= 1real
    &&& rv(r) - (k as real) / (m as real) <= 4real * EPS()
    &&& (k as real) / (m as real) - rv(r) <= 4real * EPS()
}
/// a is k rounded, d is m rounded, r is the quotient rounded
pub proof fn lemma_dequant(k: u64, m: u64, a: f32, d: f32, r: f32)
    requires k <= m, 1 <= m < 0x8000_0000_0000_0000, rnd(k as real, a), rnd(m as real, d), rnd(rv(a) / rv(d), r),
    ensures
        d_close(k, m, r), rv(d) >= 1real,
{
    broadcast use {ax_rnd};
    let kr = k as real;
    let mr = m as real;
    let e = EPS();
    assert(kr <= mr);
    ax_rnd_le(kr, a, mr, d);
    let x = kr / mr;
    let t = rv(a) / rv(d);
    let ra = rv(a);
    let rdd = rv(d);
    assert(0real <= t <= 1real) by (nonlinear_arith) requires t == ra / rdd, 0real <= ra <= rdd, rdd >= 1real;
    assert(0real <= x <= 1real) by (nonlinear_arith) requires x == kr / mr, 0real <= kr <= mr, mr >= 1real;
    assert(t * rdd == ra) by (nonlinear_arith) requires t == ra / rdd, rdd >= 1real;
    assert(x * mr == kr) by (nonlinear_arith) requires x == kr / mr, mr >= 1real;
    assert(kr <= mr);
    let de = e * mr + ETA();
    assert(ETA() <= 0.01real * e * mr) by (nonlinear_arith) requires e == EPS(), mr >= 1real;
    assert(t * mr - x * mr <= 2.1real * e * mr && x * mr - t * mr <= 2.1real * e * mr) by (nonlinear_arith)
        requires t * rdd == ra, x * mr == kr, ra - kr <= e * kr + ETA(), kr - ra <= e * kr + ETA(), rdd - mr <= e * mr + ETA(), mr - rdd <= e * mr + ETA(),
            0real <= t <= 1real, kr <= mr, kr >= 0real, ETA() <= 0.01real * e * mr, e == EPS();
    assert(t - x <= 2.1real * e && x - t <= 2.1real * e) by (nonlinear_arith)
        requires t * mr - x * mr <= 2.1real * e * mr, x * mr - t * mr <= 2.1real * e * mr, mr >= 1real;
    assert(e * t <= e);
}

/// decoding what was quantised
pub proof fn lemma_q_d(u: real, m: u64, k: u64, r: f32)
    requires m >= 1, q_close(u, m, k), d_close(k, m, r),
    ensures
        rv(r) - u <= 1real / (m as real) + 8real * EPS(),
        u - rv(r) <= 1real / (m as real) + 8real * EPS(),
{
    let mr = m as real;
    let kr = k as real;
    let x = kr / mr;
    let s = 1real / mr;
    let e = EPS();
    assert(mr >= 1real);
    assert(x - u <= s + 3real * e + ETA() && u - x <= s + 3real * e + ETA()) by (nonlinear_arith)
        requires x == kr / mr, s == 1real / mr, mr >= 1real, kr - u * mr <= 1real + 3real * e * mr + ETA(), u * mr - kr <= 1real + 3real * e * mr + ETA(), e >= 0real;
}
// ---------------------------------------------------------------- quantisation within mn..=mx
/// sp is the size of the range mn..=mx, but never zero
pub open spec fn sp_ok(mn: f32, mx: f32, sp: f32) -> bool {
    &&& fin(mn) && fin(mx) && rv(mn) <= rv(mx) && rv(mx) - rv(mn) <= FMAX() / 2real
    &&& fin(sp) && rv(sp) > 0real
    &&& exists|span: f32| #[trigger] rnd(rv(mx) - rv(mn), span) && (rv(sp) == rv(span) || (rv(span) <= rv(sp) && rv(sp) <= ETA()))
}
/// k of m steps from mn to mx is the number written for s
pub open spec fn k_span(s: f32, mn: f32, mx: f32, m: u64, k: u64) -> bool {
    k <= m && k_span_r(rv(s) - rv(mn), rv(mx) - rv(mn), m as real, k as real)
}
pub open spec fn k_span_r(t: real, big: real, mr: real, kr: real) -> bool {
    &&& kr * big - t * mr <= big + (8real * EPS() * big + 5real * ETA()) * mr
    &&& t * mr - kr * big <= big + (8real * EPS() * big + 5real * ETA()) * mr
}
/// (s - mn) / sp
pub proof fn lemma_span(s: f32, mn: f32, mx: f32, d: f32, sp: f32, q: f32)
    requires
        sub_ensures::<f32>(s, mn, d), div_ensures::<f32>(d, sp, q), sp_ok(mn, mx, sp),
        fin(s), rv(mn) <= rv(s) <= rv(mx),
    ensures
        in01(q),
        rv(q) * (rv(mx) - rv(mn)) - (rv(s) - rv(mn)) <= 4real * EPS() * (rv(mx) - rv(mn)) + 4real * ETA(),
        (rv(s) - rv(mn)) - rv(q) * (rv(mx) - rv(mn)) <= 4real * EPS() * (rv(mx) - rv(mn)) + 4real * ETA(),
{
    broadcast use {ax_sub, ax_div, ax_rnd};
    let big = rv(mx) - rv(mn);
    let t = rv(s) - rv(mn);
    let e = EPS();
    let h = ETA();
    let span = choose|span: f32| #[trigger] rnd(big, span) && (rv(sp) == rv(span) || (rv(span) <= rv(sp) && rv(sp) <= ETA()));
    assert(rnd(t, d));
    ax_rnd_le(t, d, big, span);
    let a = rv(d);
    let b = rv(sp);
    assert(0real <= a <= b);
    let z = a / b;
    assert(0real <= z <= 1real) by (nonlinear_arith) requires z == a / b, 0real <= a <= b, b > 0real;
    assert(rnd(z, q));
    let c = rv(q);
    assert(0real <= c <= 1real);
    if rv(sp) == rv(span) {
        assert(z * b == a) by (nonlinear_arith) requires z == a / b, b > 0real;
        assert(c * b - a <= e * a + h * b && a - c * b <= e * a + h * b) by (nonlinear_arith)
            requires z * b == a, c - z <= e * z + h, z - c <= e * z + h, b > 0real;
        assert(h * b <= 0.01real * e * b) by (nonlinear_arith) requires h == ETA(), e == EPS(), b > 0real;
        assert(c * big - c * b <= e * big + h && c * b - c * big <= e * big + h) by (nonlinear_arith)
            requires 0real <= c <= 1real, b - big <= e * big + h, big - b <= e * big + h, big >= 0real, e * big + h >= 0real;
        assert(e * a <= 1.01real * e * big + e * h) by (nonlinear_arith) requires a <= b, b <= big + e * big + h, e == EPS(), big >= 0real;
        assert(e * b <= 1.01real * e * big + e * h) by (nonlinear_arith) requires b <= big + e * big + h, e == EPS(), big >= 0real;
    } else {
        assert(big <= 2.1real * h);
        assert(c * big <= big && c * big >= 0real) by (nonlinear_arith) requires 0real <= c <= 1real, big >= 0real;
    }
}
/// (((s - mn) / sp) * mul) as u64, clamped to m
pub broadcast proof fn lemma_span_b(s: f32, mn: f32, mx: f32, d: f32, sp: f32, q: f32, m: u64, mul: f32, f: f32, k0: u64)
    requires
        #[trigger] sp_ok(mn, mx, sp),
        #[trigger] sub_ensures::<f32>(s, mn, d), #[trigger] div_ensures::<f32>(d, sp, q), #[trigger] mul_ensures::<f32>(q, mul, f),
        #[trigger] vstd::float::float_cast_spec::<u64, f32>(m, mul), #[trigger] vstd::float::float_cast_spec::<f32, u64>(f, k0),
        fin(s), rv(mn) <= rv(s) <= rv(mx), m < 0x8000_0000_0000_0000,
    ensures k_span(s, mn, mx, m, if k0 <= m { k0 } else { m }),
{
    let k = if k0 <= m { k0 } else { m };
    lemma_span(s, mn, mx, d, sp, q);
    lemma_quant_b(q, m, mul, f, k0);
    let big = rv(mx) - rv(mn);
    let t = rv(s) - rv(mn);
    let e = EPS();
    let h = ETA();
    let c = rv(q);
    let mr = m as real;
    let kr = k as real;
    assert(mr >= 0real);
    assert(h * big <= 0.01real * e * big) by (nonlinear_arith) requires h == ETA(), e == EPS(), big >= 0real;
    if m >= 1 {
        assert(mr >= 1real);
        let w = 1real + 3real * e * mr + h;
        assert(kr * big - c * mr * big <= w * big && c * mr * big - kr * big <= w * big) by (nonlinear_arith)
            requires kr - c * mr <= w, c * mr - kr <= w, big >= 0real;
        assert(w * big <= big + 3real * e * big * mr + 0.01real * e * big * mr) by (nonlinear_arith)
            requires w == 1real + 3real * e * mr + h, h * big <= 0.01real * e * big, mr >= 1real, e * big >= 0real;
        let v = 4real * e * big + 4real * h;
        assert(c * mr * big - t * mr <= v * mr && t * mr - c * mr * big <= v * mr) by (nonlinear_arith)
            requires c * big - t <= v, t - c * big <= v, mr >= 1real;
        assert(v * mr + 3.01real * e * big * mr <= (8real * e * big + 5real * h) * mr) by (nonlinear_arith)
            requires v == 4real * e * big + 4real * h, mr >= 1real, e * big >= 0real, h >= 0real;
        assert(k_span_r(t, big, mr, kr)) by (nonlinear_arith)
            requires kr * big - c * mr * big <= w * big, c * mr * big - kr * big <= w * big, w * big <= big + 3real * e * big * mr + 0.01real * e * big * mr,
                c * mr * big - t * mr <= v * mr, t * mr - c * mr * big <= v * mr, v * mr + 3.01real * e * big * mr <= (8real * e * big + 5real * h) * mr, e == EPS(), h == ETA();
    } else {
        assert(kr == 0real && mr == 0real);
        assert(t * mr == 0real && kr * big == 0real) by (nonlinear_arith) requires kr == 0real, mr == 0real;
        assert(k_span_r(t, big, mr, kr)) by (nonlinear_arith) requires mr == 0real, t * mr == 0real, kr * big == 0real, big >= 0real;
    }
}
/// what k of m steps stands for
pub open spec fn at(mn: real, mx: real, m: u64, k: u64) -> real { mn + (mx - mn) * ((k as real) / (m as real)) }
pub open spec fn d_span(mn: f32, mx: f32, m: u64, k: u64, r: f32) -> bool {
    &&& fin(r)
    &&& rv(r) - at(rv(mn), rv(mx), m, k) <= 20real * EPS() * rmax(rabs(rv(mn)), rabs(rv(mx))) + 5real * ETA()
    &&& at(rv(mn), rv(mx), m, k) - rv(r) <= 20real * EPS() * rmax(rabs(rv(mn)), rabs(rv(mx))) + 5real * ETA()
}
pub proof fn lemma_at(mn: real, mx: real, m: u64, k: u64)
    requires mn <= mx, m >= 1, k <= m,
    ensures mn <= at(mn, mx, m, k) <= mx,
{
    let x = (k as real) / (m as real);
    let kr = k as real;
    let mr = m as real;
    assert(mr >= 1real && 0real <= kr <= mr);
    assert(0real <= x <= 1real) by (nonlinear_arith) requires x == kr / mr, mr >= 1real, 0real <= kr <= mr;
    let big = mx - mn;
    assert(0real <= big * x <= big) by (nonlinear_arith) requires 0real <= x <= 1real, big >= 0real;
}
/// (k / m) * (mx - mn) + mn in single precision
pub broadcast proof fn lemma_despan_b(mn: f32, mx: f32, k: u64, m: u64, a: f32, d: f32, q: f32, sp: f32, t: f32, r: f32)
    requires
        #[trigger] vstd::float::float_cast_spec::<u64, f32>(k, a), #[trigger] vstd::float::float_cast_spec::<u64, f32>(m, d), #[trigger] div_ensures::<f32>(a, d, q),
        #[trigger] sub_ensures::<f32>(mx, mn, sp), #[trigger] mul_ensures::<f32>(q, sp, t), #[trigger] add_ensures::<f32>(t, mn, r),
        fin(mn), fin(mx), rv(mn) <= rv(mx), rv(mx) - rv(mn) <= FMAX() / 2real, rmax(rabs(rv(mn)), rabs(rv(mx))) <= FMAX() / 4real,
        k <= m, 1 <= m < 0x8000_0000_0000_0000,
    ensures d_span(mn, mx, m, k, r),
{
    broadcast use {ax_sub, ax_mul, ax_add, ax_rnd};
    lemma_dequant_b(k, m, a, d, q);
    let e = EPS();
    let h = ETA();
    let big = rv(mx) - rv(mn);
    let x = (k as real) / (m as real);
    let y = rv(q);
    let b = rv(sp);
    assert(rnd(big, sp));
    assert(0real <= b && b - big <= e * big + h && big - b <= e * big + h);
    assert(y * b <= b && y * b >= 0real) by (nonlinear_arith) requires 0real <= y <= 1real, b >= 0real;
    assert(rnd(y * b, t));
    assert(y * b - x * big <= 6real * e * big + 2real * h && x * big - y * b <= 6real * e * big + 2real * h) by (nonlinear_arith)
        requires 0real <= y <= 1real, big >= 0real, b >= 0real, b - big <= e * big + h, big - b <= e * big + h, y - x <= 4real * e, x - y <= 4real * e, e == EPS(), h >= 0real, e * big >= 0real;
    let u = rv(t);
    assert(e * (y * b) <= 1.01real * e * big + e * h) by (nonlinear_arith) requires y * b <= b, b <= big + e * big + h, e == EPS(), big >= 0real;
    let mg = rmax(rabs(rv(mn)), rabs(rv(mx)));
    assert(big <= 2real * mg);
    assert(u - x * big <= 7.1real * e * big + 3.1real * h && x * big - u <= 7.1real * e * big + 3.1real * h);
    lemma_at(rv(mn), rv(mx), m, k);
    assert(big * x == x * big) by (nonlinear_arith);
    let v = at(rv(mn), rv(mx), m, k);
    let w = u + rv(mn);
    assert(w - v <= 7.1real * e * big + 3.1real * h && v - w <= 7.1real * e * big + 3.1real * h);
    assert(rabs(v) <= mg);
    assert(rabs(w) <= mg + 0.01real * mg + 4real * h);
    assert(rnd(w, r));
    assert(rv(r) - w <= e * rabs(w) + h && w - rv(r) <= e * rabs(w) + h);
    assert(e * h <= 0.001real * h) by (nonlinear_arith) requires e == EPS(), h == ETA();
    assert(e * big <= 2real * (e * mg)) by (nonlinear_arith) requires big <= 2real * mg, e == EPS();
    assert(e * rabs(w) <= 1.01real * (e * mg) + 0.01real * h) by (nonlinear_arith) requires rabs(w) <= 1.01real * mg + 4real * h, e == EPS(), h == ETA();
    assert(e * mg >= 0real) by (nonlinear_arith) requires e == EPS(), mg >= 0real;
    assert(e * rabs(w) + 7.1real * e * big + 3.1real * h + h <= 20real * e * mg + 4.2real * h) by (nonlinear_arith)
        requires e * rabs(w) <= 1.01real * (e * mg) + 0.01real * h, e * big <= 2real * (e * mg), e * mg >= 0real, h >= 0real;
}
/// reading back what was written
pub proof fn lemma_span_roundtrip(s: f32, mn: f32, mx: f32, m: u64, k: u64, r: f32)
    requires k_span(s, mn, mx, m, k), d_span(mn, mx, m, k, r), m >= 1, rv(mn) <= rv(mx),
    ensures
        rabs(rv(r) - rv(s)) <= (rv(mx) - rv(mn)) / (m as real) + 40real * EPS() * rmax(rabs(rv(mn)), rabs(rv(mx))) + 10real * ETA(),
        rv(r) >= rv(mn) - 20real * EPS() * rmax(rabs(rv(mn)), rabs(rv(mx))) - 5real * ETA(),
        rv(r) <= rv(mx) + 20real * EPS() * rmax(rabs(rv(mn)), rabs(rv(mx))) + 5real * ETA(),
{
    let e = EPS();
    let h = ETA();
    let big = rv(mx) - rv(mn);
    let t = rv(s) - rv(mn);
    let mr = m as real;
    let kr = k as real;
    let x = kr / mr;
    let st = big / mr;
    lemma_at(rv(mn), rv(mx), m, k);
    let g = 8real * e * big + 5real * h;
    assert(mr >= 1real);
    assert(k_span_r(t, big, mr, kr));
    assert(big * x - t <= st + g && t - big * x <= st + g) by (nonlinear_arith)
        requires x == kr / mr, st == big / mr, mr >= 1real, kr * big - t * mr <= big + g * mr, t * mr - kr * big <= big + g * mr;
    assert(big <= 2real * rmax(rabs(rv(mn)), rabs(rv(mx))));
}
/// the same with the ends of the range and the computation in double precision
pub open spec fn d_spand(mn: f64, mx: f64, m: u64, k: u64, r: f32) -> bool {
    &&& fin(r)
    &&& rv(r) - at(rd(mn), rd(mx), m, k) <= 20real * EPS() * rmax(rabs(rd(mn)), rabs(rd(mx))) + 5real * ETA()
    &&& at(rd(mn), rd(mx), m, k) - rv(r) <= 20real * EPS() * rmax(rabs(rd(mn)), rabs(rd(mx))) + 5real * ETA()
}
/// (k / m) * (mx - mn) + mn in double precision
pub broadcast proof fn lemma_despand_b(mn: f64, mx: f64, k: u64, m: u64, a: f64, d: f64, q: f64, sp: f64, t: f64, w: f64, r: f32)
    requires
        #[trigger] vstd::float::float_cast_spec::<u64, f64>(k, a), #[trigger] vstd::float::float_cast_spec::<u64, f64>(m, d), #[trigger] div_ensures::<f64>(a, d, q),
        #[trigger] sub_ensures::<f64>(mx, mn, sp), #[trigger] mul_ensures::<f64>(q, sp, t), #[trigger] add_ensures::<f64>(t, mn, w), #[trigger] vstd::float::float_cast_spec::<f64, f32>(w, r),
        find(mn), find(mx), rd(mn) <= rd(mx), rmax(rabs(rd(mn)), rabs(rd(mx))) <= FMAX() / 2real,
        k <= m, 1 <= m < 0x8000_0000_0000_0000,
    ensures d_spand(mn, mx, m, k, r),
{
    broadcast use {axd_sub, axd_mul, axd_add, axd_div, axd_u64, ax_rndd, ax_f64_f32, ax_rnd};
    let e = EPSD();
    let h = ETA() * ETA();
    let mr = m as real;
    let kr = k as real;
    assert(h <= 0.0000001real * ETA() && h <= 0.00001real * e && h >= 0real);
    let (ra, rdd) = (rd(a), rd(d));
    assert(rndd(kr, a) && rndd(mr, d));
    assert(mr <= 9223372036854775807real && kr <= mr);
    let x = kr / mr;
    assert(0real <= ra <= 2real * 9223372036854775807real);
    assert(1real <= rdd);
    let z = ra / rdd;
    assert(0real <= z <= ra) by (nonlinear_arith) requires z == ra / rdd, 0real <= ra, rdd >= 1real;
    assert(rndd(z, q));
    assert(x * mr == kr) by (nonlinear_arith) requires x == kr / mr, mr >= 1real;
    assert(0real <= x <= 1real) by (nonlinear_arith) requires x == kr / mr, 0real <= kr <= mr, mr >= 1real;
    assert(z * rdd == ra) by (nonlinear_arith) requires z == ra / rdd, rdd >= 1real;
    assert(h <= 0.0001real * e * mr) by (nonlinear_arith) requires h <= 0.00001real * e, mr >= 1real, e == EPSD();
    assert(z <= 1.1real) by (nonlinear_arith)
        requires z * rdd == ra, ra - kr <= e * kr + h, mr - rdd <= e * mr + h, kr <= mr, mr >= 1real, h <= 0.0001real * e * mr, e == EPSD(), kr >= 0real, z >= 0real, rdd >= 1real;
    assert(z * mr - x * mr <= 3real * e * mr && x * mr - z * mr <= 3real * e * mr) by (nonlinear_arith)
        requires z * rdd == ra, x * mr == kr, ra - kr <= e * kr + h, kr - ra <= e * kr + h, rdd - mr <= e * mr + h, mr - rdd <= e * mr + h,
            0real <= z <= 1.1real, kr <= mr, kr >= 0real, h <= 0.0001real * e * mr, e == EPSD();
    assert(z - x <= 3real * e && x - z <= 3real * e) by (nonlinear_arith) requires z * mr - x * mr <= 3real * e * mr, x * mr - z * mr <= 3real * e * mr, mr >= 1real;
    let y = rd(q);
    assert(y - z <= 1.2real * e && z - y <= 1.2real * e) by (nonlinear_arith) requires y - z <= e * z + h, z - y <= e * z + h, 0real <= z <= 1.1real, h <= 0.00001real * e, e == EPSD();
    assert(y - x <= 5real * e && x - y <= 5real * e && 0real <= y <= 1.2real);
    let big = rd(mx) - rd(mn);
    let b = rd(sp);
    let mg = rmax(rabs(rd(mn)), rabs(rd(mx)));
    assert(big <= 2real * mg);
    assert(FMAX() <= DMAX());
    assert(rndd(big, sp));
    assert(e * big <= 0.01real * big) by (nonlinear_arith) requires e == EPSD(), big >= 0real;
    assert(0real <= b <= 1.1real * big + h);
    assert(0real <= y * b <= 1.2real * b) by (nonlinear_arith) requires 0real <= y <= 1.2real, b >= 0real;
    assert(rabs(y * b) <= DMAX());
    assert(rndd(y * b, t));
    let u = rd(t);
    assert(y * b - x * big <= 7real * e * big + 2real * h && x * big - y * b <= 7real * e * big + 2real * h) by (nonlinear_arith)
        requires 0real <= x <= 1real, 0real <= y <= 1.2real, big >= 0real, b >= 0real, b - big <= e * big + h, big - b <= e * big + h, y - x <= 5real * e, x - y <= 5real * e, e == EPSD(), h >= 0real, e * big >= 0real;
    assert(e * (y * b) <= 1.5real * e * big + e * 2real * h) by (nonlinear_arith) requires y * b <= 1.2real * b, b <= 1.1real * big + h, e == EPSD(), big >= 0real, h >= 0real;
    assert(e * 2real * h <= h) by (nonlinear_arith) requires e == EPSD(), h >= 0real;
    assert(u - x * big <= 9real * e * big + 5real * h && x * big - u <= 9real * e * big + 5real * h);
    lemma_at(rd(mn), rd(mx), m, k);
    assert(big * x == x * big) by (nonlinear_arith);
    let v = at(rd(mn), rd(mx), m, k);
    let s = u + rd(mn);
    assert(rabs(v) <= mg);
    assert(s - v <= 9real * e * big + 5real * h && v - s <= 9real * e * big + 5real * h);
    assert(e * big <= 2real * (e * mg)) by (nonlinear_arith) requires big <= 2real * mg, e == EPSD();
    assert(e * mg <= 0.00001real * (EPS() * mg) && EPS() * mg <= 0.01real * mg && e * mg >= 0real) by (nonlinear_arith) requires e == EPSD(), mg >= 0real;
    assert(rabs(s) <= 1.1real * mg + 5real * h);
    assert(5real * h <= 1real);
    assert(rabs(s) <= DMAX());
    assert(rndd(s, w));
    assert(e * rabs(s) <= 1.1real * (e * mg) + h) by (nonlinear_arith) requires rabs(s) <= 1.1real * mg + 5real * h, e == EPSD(), h >= 0real;
    let g = rd(w);
    assert(g - v <= 0.01real * (EPS() * mg) + 10real * h && v - g <= 0.01real * (EPS() * mg) + 10real * h);
    assert(rabs(g) <= 1.1real * mg + 10real * h);
    assert(10real * h <= 1real);
    assert(rabs(g) <= FMAX());
    assert(rnd(g, r));
    assert(EPS() * rabs(g) <= 1.1real * (EPS() * mg) + h) by (nonlinear_arith) requires rabs(g) <= 1.1real * mg + 10real * h, EPS() == 1real / 16777216real, h >= 0real;
}
pub proof fn lemma_spand_roundtrip(s: f32, mn: f32, mx: f32, dn: f64, dx: f64, m: u64, k: u64, r: f32)
    requires k_span(s, mn, mx, m, k), d_spand(dn, dx, m, k, r), m >= 1, rv(mn) <= rv(mx), rd(dn) == rv(mn), rd(dx) == rv(mx),
    ensures
        rabs(rv(r) - rv(s)) <= (rv(mx) - rv(mn)) / (m as real) + 40real * EPS() * rmax(rabs(rv(mn)), rabs(rv(mx))) + 10real * ETA(),
{
    lemma_span_roundtrip(s, mn, mx, m, k, r);
}
/// (k as f64 / m as f64) as f32
pub broadcast proof fn lemma_dequantd_b(k: u64, m: u64, a: f64, d: f64, q: f64, r: f32)
    requires
        #[trigger] vstd::float::float_cast_spec::<u64, f64>(k, a), #[trigger] vstd::float::float_cast_spec::<u64, f64>(m, d), #[trigger] div_ensures::<f64>(a, d, q),
        #[trigger] vstd::float::float_cast_spec::<f64, f32>(q, r),
        k <= m, 1 <= m < 0x8000_0000_0000_0000,
    ensures d_close(k, m, r),
{
    broadcast use {axd_div, axd_u64, ax_rndd, ax_f64_f32, ax_rnd};
    let e = EPSD();
    let h = ETA() * ETA();
    let mr = m as real;
    let kr = k as real;
    assert(h <= 0.0000001real * ETA() && h <= 0.00001real * e && h >= 0real);
    let (ra, rdd) = (rd(a), rd(d));
    assert(rndd(kr, a) && rndd(mr, d));
    assert(mr <= 9223372036854775807real && kr <= mr);
    let x = kr / mr;
    ax_rndd_le(kr, a, mr, d);
    assert(0real <= ra <= rdd);
    assert(1real <= rdd);
    assert(ra <= 2real * 9223372036854775807real);
    let z = ra / rdd;
    assert(0real <= z <= 1real) by (nonlinear_arith) requires z == ra / rdd, 0real <= ra <= rdd, rdd >= 1real;
    assert(rndd(z, q));
    assert(x * mr == kr) by (nonlinear_arith) requires x == kr / mr, mr >= 1real;
    assert(0real <= x <= 1real) by (nonlinear_arith) requires x == kr / mr, 0real <= kr <= mr, mr >= 1real;
    assert(z * rdd == ra) by (nonlinear_arith) requires z == ra / rdd, rdd >= 1real;
    assert(h <= 0.0001real * e * mr) by (nonlinear_arith) requires h <= 0.00001real * e, mr >= 1real, e == EPSD();
    assert(z * mr - x * mr <= 3real * e * mr && x * mr - z * mr <= 3real * e * mr) by (nonlinear_arith)
        requires z * rdd == ra, x * mr == kr, ra - kr <= e * kr + h, kr - ra <= e * kr + h, rdd - mr <= e * mr + h, mr - rdd <= e * mr + h,
            0real <= z <= 1real, kr <= mr, kr >= 0real, h <= 0.0001real * e * mr, e == EPSD();
    assert(z - x <= 3real * e && x - z <= 3real * e) by (nonlinear_arith) requires z * mr - x * mr <= 3real * e * mr, x * mr - z * mr <= 3real * e * mr, mr >= 1real;
    let y = rd(q);
    assert(0real <= y <= 1real);
    assert(y - z <= 1.2real * e && z - y <= 1.2real * e) by (nonlinear_arith) requires y - z <= e * z + h, z - y <= e * z + h, 0real <= z <= 1real, h <= 0.00001real * e, e == EPSD();
    assert(rnd(y, r));
    assert(EPS() * y <= EPS()) by (nonlinear_arith) requires 0real <= y <= 1real, EPS() == 1real / 16777216real;
    assert(10real * e <= EPS());
}
/// bits = ceil(log2(a)) as u8: two to that many reaches a
pub open spec fn bits_for(a: f32, bits: u8) -> bool {
    &&& fin(a) && rv(a) > 0real ==> bits == 255 || rv(a) <= r2(bits as nat) * (1real + TINY())
    &&& pinf(a) ==> bits == 255
    &&& fin(a) && rv(a) > 0real ==> bits == 0 || rv(a) > r2((bits - 1) as nat)
}
pub proof fn lemma_bits_for(a: f32, l: f32, c: f32, bits: u8)
    requires
        fin(a) && rv(a) > 0real ==> fin(l) && forall|n: nat| n <= 256 ==> (rv(a) > #[trigger] r2(n) * (1real + TINY()) ==> rv(l) > n as real) && (rv(a) <= r2(n) ==> rv(l) <= n as real),
        pinf(a) ==> pinf(l), pinf(l) == pinf(c),
        fin(l) ==> fin(c) && rv(c) >= rv(l) && rv(c) < rv(l) + 1real && (exists|n: int| #[trigger] ir(n) == rv(c)),
        fin(c) && rv(c) <= 0real ==> bits == 0,
        fin(c) && rv(c) >= 0real ==> bits as real <= rv(c) && (rv(c) < bits as real + 1real || bits == u8::MAX),
        pinf(c) ==> bits == u8::MAX,
    ensures bits_for(a, bits),
{
    if fin(a) && rv(a) > 0real {
        let n = choose|n: int| #[trigger] ir(n) == rv(c);
        if bits < 255 && rv(a) > r2(bits as nat) * (1real + TINY()) {
            assert(rv(l) > bits as real);
            assert(false);
        }
        if bits > 0 && rv(a) <= r2((bits - 1) as nat) {
            let q = (bits - 1) as nat;
            assert(r2(q) * (1real + TINY()) == r2(q) * (1real + TINY()));
            assert(rv(l) <= q as real);
            assert((q as real) == bits as real - 1real);
            assert(rv(c) < bits as real);
            assert(false);
        }
    }
}
/// ceil(log2(a)) as u8
pub broadcast proof fn lemma_bits_for_b(a: f32, l: f32, c: f32, bits: u8)
    requires
        #[trigger] call_ensures(f32::log2, (a,), l), #[trigger] call_ensures(f32::ceil, (l,), c), #[trigger] vstd::float::float_cast_spec::<f32, u8>(c, bits),
    ensures bits_for(a, bits),
{
    broadcast use {ax_f32_u8};
    lemma_bits_for(a, l, c, bits);
}

// ---------------------------------------------------------------- order, infinities included
/// both are numbers or infinities, and a is not greater than b
pub open spec fn ord(a: f32, b: f32) -> bool {
    &&& !nan(a) && !nan(b)
    &&& ninf(a) || pinf(b) || (fin(a) && fin(b) && rv(a) <= rv(b))
}
pub proof fn lemma_ord(a: f32, b: f32, c: f32)
    requires ord(a, b), ord(b, c),
    ensures ord(a, c),
{
    broadcast use {ax_inf, ax_kinds};
}
pub open spec fn not_neg(a: f32) -> bool { pinf(a) || (fin(a) && rv(a) >= 0real) }
pub broadcast axiom fn ax_inf(a: f32)
    ensures #[trigger] pinf(a) ==> !nan(a) && !fin(a);
/// the difference of what is at least 0 and what is at most 0 grows with the first and shrinks with the second
pub axiom fn ax_sub_mono(a: f32, b: f32, c: f32, a2: f32, b2: f32, c2: f32)
    requires sub_ensures::<f32>(a, b, c), sub_ensures::<f32>(a2, b2, c2), ord(0.0f32, a), ord(a, a2), ord(b, 0.0f32), ord(b2, b),
    ensures not_neg(c), not_neg(c2), ord(c, c2);
/// 1 / (e / x) grows with x, for a positive number e (1 / (e / 0) is 1 / infinity, and 1 / (e / infinity) is 1 / 0)
pub axiom fn ax_recip_mono(one: f32, e: f32, x: f32, y: f32, z: f32, x2: f32, y2: f32, z2: f32)
    requires
        fin(one), rv(one) == 1real, fin(e), rv(e) > 0real, not_neg(x), not_neg(x2), ord(x, x2),
        div_ensures::<f32>(e, x, y), div_ensures::<f32>(one, y, z), div_ensures::<f32>(e, x2, y2), div_ensures::<f32>(one, y2, z2),
    ensures not_neg(z), not_neg(z2), ord(z, z2);
/// the logarithm is monotone
pub axiom fn ax_log2_mono(a: f32, l: f32, a2: f32, l2: f32)
    requires not_neg(a), not_neg(a2), ord(a, a2), call_ensures(f32::log2, (a,), l), call_ensures(f32::log2, (a2,), l2),
    ensures ord(l, l2);
pub axiom fn ax_ceil_mono(a: f32, c: f32, a2: f32, c2: f32)
    requires ord(a, a2), call_ensures(f32::ceil, (a,), c), call_ensures(f32::ceil, (a2,), c2),
    ensures ord(c, c2);
pub axiom fn ax_u8_mono(a: f32, k: u8, a2: f32, k2: u8)
    requires ord(a, a2), vstd::float::float_cast_spec::<f32, u8>(a, k), vstd::float::float_cast_spec::<f32, u8>(a2, k2),
    ensures k <= k2;
/// a < b
pub broadcast axiom fn ax_lt_ord(a: f32, b: f32, r: bool)
    requires #[trigger] lt_ensures::<f32>(a, b, r),
    ensures r ==> ord(a, b) && !ord(b, a), !nan(a) && !nan(b) && !r ==> ord(b, a);
/// (1.0 / (e / x)).log2().ceil() as u8
pub open spec fn bits_of(e: f32, x: f32, k: u8) -> bool {
    exists|y: f32, z: f32, l: f32, c: f32| #[trigger] bits_by(e, x, k, y, z, l, c)
}
pub open spec fn bits_by(e: f32, x: f32, k: u8, y: f32, z: f32, l: f32, c: f32) -> bool {
    &&& div_ensures::<f32>(e, x, y) && div_ensures::<f32>(1.0f32, y, z)
    &&& call_ensures(f32::log2, (z,), l) && call_ensures(f32::ceil, (l,), c) && vstd::float::float_cast_spec::<f32, u8>(c, k)
}
pub broadcast proof fn lemma_bits_of_b(e: f32, x: f32, k: u8, y: f32, z: f32, l: f32, c: f32)
    requires
        #[trigger] div_ensures::<f32>(e, x, y), #[trigger] div_ensures::<f32>(1.0f32, y, z), #[trigger] call_ensures(f32::log2, (z,), l),
        #[trigger] call_ensures(f32::ceil, (l,), c), #[trigger] vstd::float::float_cast_spec::<f32, u8>(c, k),
    ensures bits_of(e, x, k),
{
    assert(bits_by(e, x, k, y, z, l, c));
}
pub proof fn lemma_bits_mono(e: f32, x: f32, k: u8, x2: f32, k2: u8)
    requires bits_of(e, x, k), bits_of(e, x2, k2), fin(e), rv(e) > 0real, not_neg(x), not_neg(x2), ord(x, x2),
    ensures k <= k2,
{
    let (y, z, l, c) = choose|y: f32, z: f32, l: f32, c: f32| #[trigger] bits_by(e, x, k, y, z, l, c);
    let (y2, z2, l2, c2) = choose|y: f32, z: f32, l: f32, c: f32| #[trigger] bits_by(e, x2, k2, y, z, l, c);
    ax_lit();
    ax_recip_mono(1.0f32, e, x, y, z, x2, y2, z2);
    ax_log2_mono(z, l, z2, l2);
    ax_ceil_mono(l, c, l2, c2);
    ax_u8_mono(c, k, c2, k2);
}

// ---------------------------------------------------------------- methods and constants
pub axiom fn ax_lit()
    ensures
        fin(0.0f32), rv(0.0f32) == 0real, fin(1.0f32), rv(1.0f32) == 1real, fin(-1.0f32), rv(-1.0f32) == -1real,
        fin(2.0f32), rv(2.0f32) == 2real, fin(0.1f32), 0.0999999real <= rv(0.1f32) <= 0.1000001real,
        fin(0.001f32), 0.000999999real <= rv(0.001f32) <= 0.001000001real,
        fin(0.01f32), 0.00999999real <= rv(0.01f32) <= 0.01000001real,
        find(0.0f64), rd(0.0f64) == 0real, find(1.0f64), rd(1.0f64) == 1real;
pub open spec fn fmax_is(a: f32, b: f32, r: f32) -> bool {
    &&& fin(a) && fin(b) ==> fin(r) && rv(r) == rmax(rv(a), rv(b))
    &&& nan(a) && !nan(b) ==> r == b
    &&& nan(b) && !nan(a) ==> r == a
    &&& !nan(a) || !nan(b) ==> r == a || r == b
    &&& !nan(b) && pinf(a) || !nan(a) && ninf(b) ==> r == a
    &&& !nan(a) && pinf(b) || !nan(b) && ninf(a) ==> r == b
}
pub open spec fn fmin_is(a: f32, b: f32, r: f32) -> bool {
    &&& fin(a) && fin(b) ==> fin(r) && rv(r) == rmin(rv(a), rv(b))
    &&& nan(a) && !nan(b) ==> r == b
    &&& nan(b) && !nan(a) ==> r == a
    &&& nan(a) && nan(b) ==> nan(r)
    &&& !nan(a) || !nan(b) ==> r == a || r == b
    &&& !nan(b) && ninf(a) || !nan(a) && pinf(b) ==> r == a
    &&& !nan(a) && ninf(b) || !nan(b) && pinf(a) ==> r == b
}
pub assume_specification[ f32::abs ](a: f32) -> (r: f32)
    ensures fin(a) ==> fin(r) && rv(r) == rabs(rv(a)), nan(a) == nan(r), fin(r) ==> fin(a), !ninf(r);
/// s is the square root of t
pub open spec fn is_root(t: real, s: real) -> bool { s >= 0real && s * s == t }
/// numbers that are not negative have a root
pub axiom fn ax_root(t: real)
    requires t >= 0real,
    ensures exists|s: real| #[trigger] is_root(t, s);
pub assume_specification[ f32::sqrt ](a: f32) -> (r: f32)
    ensures
        fin(a) && rv(a) >= 0real ==> fin(r) && rv(r) >= 0real && exists|s: real| #[trigger] is_root(rv(a), s) && rnd(s, r),
        fin(r) ==> fin(a) && rv(a) >= 0real, !ninf(r);
/// the logarithm of a power of two is exact, and nothing much bigger than a power of two has a smaller one
pub assume_specification[ f32::log2 ](a: f32) -> (r: f32)
    ensures
        fin(a) && rv(a) > 0real ==> fin(r) && forall|n: nat| n <= 256 ==> (rv(a) > #[trigger] r2(n) * (1real + TINY()) ==> rv(r) > n as real) && (rv(a) <= r2(n) ==> rv(r) <= n as real),
        pinf(a) ==> pinf(r),
        !pinf(a) ==> !pinf(r);
pub assume_specification[ f32::ceil ](a: f32) -> (r: f32)
    ensures fin(a) ==> fin(r) && rv(r) >= rv(a) && rv(r) < rv(a) + 1real && (exists|n: int| #[trigger] ir(n) == rv(r)), pinf(a) == pinf(r);
/// the angle, in right angles, whose sine is u
pub uninterp spec fn ran(u: real) -> real;
/// sine and cosine of an angle given in right angles
pub uninterp spec fn rsin(f: real) -> real;
pub uninterp spec fn rcos(f: real) -> real;
pub open spec fn RPIH() -> real { 1.5707963267948966real }
pub axiom fn ax_ran(u: real)
    requires 0real <= u <= 1real,
    ensures 0real <= ran(u) <= 1real, rsin(ran(u)) == u;
pub axiom fn ax_pyth(f: real)
    ensures rsin(f) * rsin(f) + rcos(f) * rcos(f) == 1real;
pub assume_specification[ f32::asin ](a: f32) -> (r: f32)
    ensures in01(a) ==> fin(r) && 0real <= rv(r) <= 1.5708real && rabs(rv(r) - ran(rv(a)) * RPIH()) <= 0.000001real;
pub assume_specification[ f32::sin_cos ](a: f32) -> (r: (f32, f32))
    ensures fin(a) && 0real <= rv(a) <= 1.5708real ==> {
        &&& fin(r.0) && 0real <= rv(r.0) <= 1real && rabs(rv(r.0) - rsin(rv(a) / RPIH())) <= 0.000001real
        &&& fin(r.1) && -0.000001real <= rv(r.1) <= 1real && rabs(rv(r.1) - rcos(rv(a) / RPIH())) <= 0.000001real
    };
/// the square root of the square of a number is the number (rounding to nearest in base two, no underflow)
pub axiom fn ax_sqrt_sq(x: f32, xx: f32, r: real, c: f32)
    requires fin(x), rv(x) >= 0.000000000000001real, rnd(rv(x) * rv(x), xx), is_root(rv(xx), r), rnd(r, c),
    ensures rv(c) == rv(x);
pub assume_specification[ f32::is_nan ](a: f32) -> (r: bool)
    ensures r == nan(a);
pub assume_specification[ f32::is_finite ](a: f32) -> (r: bool)
    ensures r == fin(a);
pub assume_specification[ f32::is_sign_negative ](a: f32) -> (r: bool)
    ensures r == neg_bit(a);
/// `-x`
#[verifier::external_body]
pub fn neg(x: f32) -> (ret: f32)
    ensures fin(x) ==> fin(ret) && rv(ret) == -rv(x), nan(x) == nan(ret),
{ -x }
#[verifier::external_body]
pub exec const D_PI: f64
    ensures find(D_PI), 3.141592653589793real <= rd(D_PI) <= 3.141592653589794real,
{ core::f64::consts::PI }
#[verifier::external_body]
pub exec const F_PI_2: f32
    ensures fin(F_PI_2), 1.570795real <= rv(F_PI_2) <= 1.570797real,
{ core::f32::consts::FRAC_PI_2 }
#[verifier::external_body]
pub exec const F_MIN_POSITIVE: f32
    ensures fin(F_MIN_POSITIVE), rv(F_MIN_POSITIVE) > 0real, rv(F_MIN_POSITIVE) <= ETA(),
{ f32::MIN_POSITIVE }
#[verifier::external_body]
pub exec const F_MIN: f32
    ensures fin(F_MIN), forall|x: f32| #[trigger] fin(x) ==> rv(F_MIN) <= rv(x),
{ f32::MIN }
#[verifier::external_body]
pub exec const F_MAX: f32
    ensures fin(F_MAX), forall|x: f32| #[trigger] fin(x) ==> rv(F_MAX) >= rv(x),
{ f32::MAX }
#[verifier::external_body]
pub exec const F_INFINITY: f32
    ensures pinf(F_INFINITY), !fin(F_INFINITY), !nan(F_INFINITY), !ninf(F_INFINITY),
{ f32::INFINITY }
}
