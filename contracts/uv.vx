//@ source src/uv.rs
pub mod uv {
use vstd::prelude::*;
use crate::vbits::*;
use crate::vf::*;
use crate::fl::*;
use crate::read_extension::*;
use crate::unaligned_rw::*;
use crate::vio::{Read, Write};
use crate::TMFImportError;
use crate::MAX_SEG_SIZE;
use crate::{FloatType, Vector2};
//@ item struct UvPrecisionMode Clone Copy

pub open spec fn c63(p: u8) -> u8 { if p <= 63 { p } else { 63 } }
pub open spec fn m_of(p: u8) -> u64 { ((1u64 << (p as u64)) - 1) as u64 }
pub proof fn lemma_m_of(p: u8)
    requires p <= 63,
    ensures m_of(p) < 0x8000_0000_0000_0000, p >= 1 ==> m_of(p) >= 1, (1u64 << p) == (1u64 << (p as u64)), (1u64 << p) >= 1, 
        m_of(p) as int == (1u64 << p) - 1,
        forall|k: u64| #![auto] k <= m_of(p) ==> fits(k, p as nat),
{
    let q = p as u64;
    assert(1u64 << p == 1u64 << q) by (bit_vector) requires q == p as u64, p <= 63;
    assert((1u64 << q) <= 0x8000_0000_0000_0000 && 1u64 << q >= 1) by (bit_vector) requires q <= 63;
    if p >= 1 { assert(1u64 << q >= 2) by (bit_vector) requires 1 <= q <= 63; }
}
/// the two numbers written for one coordinate pair
pub struct Uvk { pub x: u64, pub y: u64 }
pub open spec fn uv_rec(k: Uvk, p: u8) -> Seq<bool> { val_bits(k.x, p as nat) + val_bits(k.y, p as nat) }
pub open spec fn uv_recs(ks: Seq<Uvk>, p: u8) -> Seq<Seq<bool>> { Seq::new(ks.len(), |i: int| uv_rec(ks[i], p)) }
pub open spec fn uv_k(u: Vector2, p: u8, k: Uvk) -> bool {
    &&& k.x <= m_of(p) && k.y <= m_of(p)
    &&& in01(u.0) ==> q_close(rv(u.0), m_of(p), k.x)
    &&& in01(u.1) ==> q_close(rv(u.1), m_of(p), k.y)
}
/// e is the encoding of s with p bits
pub open spec fn uv_parts(e: Seq<u8>, s: Seq<Vector2>, p: u8, ks: Seq<Uvk>, body: Seq<u8>) -> bool {
    &&& p <= 63
    &&& s.len() <= u64::MAX
    &&& e == seq![p] + le8(s.len() as u64) + body
    &&& ks.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> uv_k(#[trigger] s[i], p, ks[i])
    &&& padded(body, flat(uv_recs(ks, p)))
}
pub open spec fn is_uv(e: Seq<u8>, s: Seq<Vector2>, p: u8) -> bool {
    exists|ks: Seq<Uvk>, body: Seq<u8>| #[trigger] uv_parts(e, s, p, ks, body)
}
pub open spec fn uv_r(k: Uvk, p: u8, r: Vector2) -> bool {
    p >= 1 && k.x <= m_of(p) && k.y <= m_of(p) ==> d_close(k.x, m_of(p), r.0) && d_close(k.y, m_of(p), r.1)
}
/// r is what the bytes say
pub open spec fn uv_decoded(src: Seq<u8>, r: Seq<Vector2>, ks: Seq<Uvk>, rest: Seq<bool>) -> bool {
    &&& src.len() >= 9 && src[0] <= 63
    &&& src.subrange(1, 9) == le8(r.len() as u64)
    &&& src[0] >= 1 ==> {
        &&& ks.len() == r.len()
        &&& byte_bits(src.skip(9)) == flat(uv_recs(ks, src[0])) + rest
        &&& forall|i: int| 0 <= i < r.len() ==> fits(#[trigger] ks[i].x, src[0] as nat) && fits(ks[i].y, src[0] as nat) && uv_r(ks[i], src[0], r[i])
    }
}
pub open spec fn is_uv_decoded(src: Seq<u8>, r: Seq<Vector2>) -> bool {
    exists|ks: Seq<Uvk>, rest: Seq<bool>| #[trigger] uv_decoded(src, r, ks, rest)
}
pub open spec fn uv_ok(src: Seq<u8>, len: u64) -> bool {
    &&& src.len() >= 9 && src[0] <= 63
    &&& src.subrange(1, 9) == le8(len)
    &&& len <= MAX_SEG_SIZE
    &&& 8 * (src.len() - 9) >= 2 * src[0] * len
}

pub proof fn theorem_uv_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector2>, p: u8, r: Seq<Vector2>)
    requires is_uv(e, s, p), is_uv_decoded(e + tail, r), r.len() <= u64::MAX,
    ensures
        r.len() == s.len(),
        p >= 1 ==> forall|i: int| 0 <= i < s.len() ==> {
            &&& in01((#[trigger] s[i]).0) ==> rabs(rv(r[i].0) - rv(s[i].0)) <= 1real / (m_of(p) as real) + 8real * EPS()
            &&& in01(s[i].1) ==> rabs(rv(r[i].1) - rv(s[i].1)) <= 1real / (m_of(p) as real) + 8real * EPS()
            &&& fin(r[i].0) && fin(r[i].1)
        },
{
    let (ks, body) = choose|ks: Seq<Uvk>, body: Seq<u8>| #[trigger] uv_parts(e, s, p, ks, body);
    let (js, rest) = choose|js: Seq<Uvk>, rest: Seq<bool>| #[trigger] uv_decoded(e + tail, r, js, rest);
    assert((e + tail).subrange(1, 9) =~= le8(s.len() as u64));
    assert((e + tail).skip(9) =~= body + tail);
    assert((e + tail)[0] == p);
    lemma_le8_inj(s.len() as u64, r.len() as u64);
    if p >= 1 {
        lemma_m_of(p);
        lemma_records(body, tail, uv_recs(ks, p), uv_recs(js, p), rest, (2 * p) as nat);
        assert forall|i: int| 0 <= i < s.len() implies {
            &&& in01((#[trigger] s[i]).0) ==> rabs(rv(r[i].0) - rv(s[i].0)) <= 1real / (m_of(p) as real) + 8real * EPS()
            &&& in01(s[i].1) ==> rabs(rv(r[i].1) - rv(s[i].1)) <= 1real / (m_of(p) as real) + 8real * EPS()
            &&& fin(r[i].0) && fin(r[i].1)
        } by {
            assert(uv_k(s[i], p, ks[i]));
            assert(fits(js[i].x, p as nat));
            assert(uv_recs(ks, p)[i] == uv_recs(js, p)[i]);
            lemma_cat_split(val_bits(ks[i].x, p as nat), val_bits(ks[i].y, p as nat), val_bits(js[i].x, p as nat), val_bits(js[i].y, p as nat));
            lemma_val_bits_inj(ks[i].x, js[i].x, p as nat);
            lemma_val_bits_inj(ks[i].y, js[i].y, p as nat);
            assert(uv_r(js[i], p, r[i]));
            if in01(s[i].0) { lemma_q_d(rv(s[i].0), m_of(p), ks[i].x, r[i].0); }
            if in01(s[i].1) { lemma_q_d(rv(s[i].1), m_of(p), ks[i].y, r[i].1); }
        }
    }
}
pub proof fn theorem_uv_readable(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector2>, p: u8)
    requires is_uv(e, s, p), s.len() <= MAX_SEG_SIZE,
    ensures uv_ok(e + tail, s.len() as u64),
{
    let (ks, body) = choose|ks: Seq<Uvk>, body: Seq<u8>| #[trigger] uv_parts(e, s, p, ks, body);
    assert((e + tail).subrange(1, 9) =~= le8(s.len() as u64));
    assert((e + tail)[0] == p);
    lemma_flat_len(uv_recs(ks, p), (2 * p) as nat);
}
//@ fn UvPrecisionMode::form_texture_resolution
//@ spec
    ensures exists|q: f32| #[trigger] vstd::std_specs::ops::div_ensures::<f32>(resolution, pixel_dev, q) && bits_for(q, ret.0),
//@ begin
        broadcast use {group_req, lemma_bits_for_b};
//@ end

//@ fn save_uvs
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(writer).infallible(),
    ensures
        ret is Ok,
        exists|e: Seq<u8>| #[trigger] is_uv(e, uvs@, c63(precision.0)) && (*final(writer)).sunk() == (*old(writer)).sunk() + e,
//@ begin
    broadcast use {group_fl, group_req, lemma_quant_b};
    let ghost base = (*old(writer)).sunk();
    let ghost fsunk = (*final(writer)).sunk();
    proof { lemma_m_of(c63(precision.0)); }
//@ before `let precision = UnalignedRWMode`
    let ghost p = precision;
    let ghost hdr = seq![p] + le8(uvs@.len() as u64);
    proof {
        assert(writer.sunk() =~= base + hdr);
        assert(max_int == m_of(p));
    }
//@ before-loop 1
    let ghost mut ks: Seq<Uvk> = Seq::empty();
    proof { assert(uv_recs(ks, p) =~= Seq::empty()); }
//@ loop 1
        invariant
            writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fsunk,
            writer.view() == byte_bits(base + hdr) + flat(uv_recs(ks, p)),
            ks.len() == it1.index@,
            forall|i: int| 0 <= i < ks.len() ==> uv_k(#[trigger] uvs@[i], p, ks[i]),
//@ loop-end 1
        proof {
            let k = Uvk { x, y };
            assert(uv_k(*uv, p, k));
            assert(uv_recs(ks.push(k), p) =~= uv_recs(ks, p).push(uv_rec(k, p)));
            lemma_flat_push(uv_recs(ks, p), uv_rec(k, p));
            ks = ks.push(k);
        }
//@ ret-bind
    proof {
        lemma_padded(writer);
        lemma_padded_prefix(writer.bytes(), base + hdr, flat(uv_recs(ks, p)));
    }
    let ghost body = writer.bytes().skip((base + hdr).len() as int);
    writer.drop_elab();
    proof {
        assert(uv_parts(hdr + body, uvs@, p, ks, body));
        assert(base + hdr + body =~= base + (hdr + body));
        assert(is_uv(hdr + body, uvs@, p));
    }
//@ end

//@ fn read_uvs
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        ret matches Ok(r) ==> r@.len() <= MAX_SEG_SIZE && is_uv_decoded((*old(reader)).rest(), r@),
        (*old(reader)).reliable() && (exists|len: u64| #[trigger] uv_ok((*old(reader)).rest(), len)) ==> ret is Ok,
//@ begin
    broadcast use {group_fl, group_req, lemma_dequant_b};
    let ghost src = (*old(reader)).rest();
    let ghost ok = (*old(reader)).reliable() && exists|len: u64| #[trigger] uv_ok(src, len);
//@ after-let precision
    proof { assert(src.take(1)[0] == precision); }
    let ghost p = precision;
//@ after-let count
    proof {
        assert(src.subrange(1, 9) =~= le8(count));
        assert(reader.rest() =~= src.skip(9));
        if ok {
            let len = choose|len: u64| #[trigger] uv_ok(src, len);
            lemma_le8_inj(len, count);
        }
        if p <= 63 { lemma_m_of(p); }
        if p == 0 { 
            assert forall|r: Seq<Vector2>| r.len() == count implies #[trigger] is_uv_decoded(src, r) by { assert(uv_decoded(src, r, Seq::empty(), Seq::empty())); }
        }
    }
    let ghost bits = byte_bits(src.skip(9));
//@ before-loop 1
    let ghost mut ks: Seq<Uvk> = Seq::empty();
    proof { assert(uv_recs(ks, p) =~= Seq::empty()); assert(flat(uv_recs(ks, p)) + reader.view() =~= bits); }
//@ loop 1
        invariant
            ok ==> reader.reader.reliable(),
            reader.wf(),
            bits == flat(uv_recs(ks, p)) + reader.view(),
            ks.len() == it1.index@, uvs@.len() == ks.len(),
            forall|i: int| 0 <= i < ks.len() ==> fits(#[trigger] ks[i].x, p as nat) && fits(ks[i].y, p as nat) && uv_r(ks[i], p, uvs@[i]),
//@ loop-begin 1
        let ghost o = reader.view();
        let ghost mut k0: Uvk = Uvk { x: 0, y: 0 };
        proof {
            lemma_flat_len(uv_recs(ks, p), (2 * p) as nat);
            let a = ks.len() as int;
            assert(ok ==> o.len() >= 2 * p) by (nonlinear_arith)
                requires a + 1 <= count, ok ==> bits.len() >= 2 * p * count, o.len() == bits.len() - (2 * p) * a;
        }
//@ after-let y
        proof {
            k0 = Uvk { x, y };
            lemma_got_cat(o, o.skip(p as int), p as nat, x);
            lemma_got_cat(o.skip(p as int), reader.view(), p as nat, y);
            assert(o =~= uv_rec(k0, p) + reader.view());
        }
//@ loop-end 1
        proof {
            assert(uv_recs(ks.push(k0), p) =~= uv_recs(ks, p).push(uv_rec(k0, p)));
            lemma_flat_push(uv_recs(ks, p), uv_rec(k0, p));
            assert(bits =~= flat(uv_recs(ks.push(k0), p)) + reader.view());
            ks = ks.push(k0);
        }
//@ ret-bind
    proof {
        assert(uv_decoded(src, ret__->Ok_0@, ks, reader.view()));
    }
//@ end
}
