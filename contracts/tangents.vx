//@ source src/tangents.rs
pub mod tangents {
use vstd::prelude::*;
use crate::*;
use crate::vbits::*;
use crate::vf::*;
use crate::fl::*;
use crate::normals::*;
use crate::read_extension::*;
use crate::unaligned_rw::*;
use crate::vio::{Read, Write};
use crate::uv::{m_of, lemma_m_of};
//@ item type HandednessType
//@ item type Tangent
//@ item struct TangentPrecisionMode Clone Copy
/// the handedness that a bit stands for
pub open spec fn hand_is(h: bool, x: f32) -> bool { fin(x) && rv(x) == (if h { -1real } else { 1real }) }
pub open spec fn t_rec(h: bool, k: Nk, p: u8) -> Seq<bool> { seq![h] + n_rec(k, p) }
pub open spec fn t_recs(hs: Seq<bool>, ks: Seq<Nk>, p: u8) -> Seq<Seq<bool>> { Seq::new(ks.len(), |i: int| t_rec(hs[i], ks[i], p)) }
pub open spec fn t_parts(e: Seq<u8>, s: Seq<Tangent>, p: u8, hs: Seq<bool>, ks: Seq<Nk>, body: Seq<u8>) -> bool {
    &&& p <= 63
    &&& s.len() <= u64::MAX
    &&& e == le8(s.len() as u64) + seq![p] + body
    &&& ks.len() == s.len() && hs.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> n_k((#[trigger] s[i]).0, p, ks[i]) && hs[i] == neg_bit(s[i].1)
    &&& padded(body, flat(t_recs(hs, ks, p)))
}
pub open spec fn is_tan(e: Seq<u8>, s: Seq<Tangent>, p: u8) -> bool {
    exists|hs: Seq<bool>, ks: Seq<Nk>, body: Seq<u8>| #[trigger] t_parts(e, s, p, hs, ks, body)
}
pub open spec fn t_r(h: bool, k: Nk, p: u8, r: Tangent) -> bool { n_r(k, p, r.0) && hand_is(h, r.1) }
pub open spec fn t_decoded(src: Seq<u8>, r: Seq<Tangent>, hs: Seq<bool>, ks: Seq<Nk>, rest: Seq<bool>) -> bool {
    &&& src.len() >= 9 && src[8] <= 63
    &&& src.take(8) == le8(r.len() as u64)
    &&& ks.len() == r.len() && hs.len() == r.len()
    &&& byte_bits(src.skip(9)) == flat(t_recs(hs, ks, src[8])) + rest
    &&& forall|i: int| 0 <= i < r.len() ==> fits(#[trigger] ks[i].a, src[8] as nat) && fits(ks[i].z, src[8] as nat) && t_r(hs[i], ks[i], src[8], r[i])
}
pub open spec fn is_tan_decoded(src: Seq<u8>, r: Seq<Tangent>) -> bool {
    exists|hs: Seq<bool>, ks: Seq<Nk>, rest: Seq<bool>| #[trigger] t_decoded(src, r, hs, ks, rest)
}
pub open spec fn tan_ok(src: Seq<u8>, len: u64) -> bool {
    &&& src.len() >= 9 && src[8] <= 63
    &&& src.take(8) == le8(len)
    &&& len <= MAX_SEG_SIZE
    &&& 8 * (src.len() - 9) >= (4 + 2 * src[8]) * len
}
proof fn lemma_t_rec(o: Seq<bool>, h: bool, k: Nk, p: u8)
    ensures o.push(h).push(k.sx).push(k.sy).push(k.sz) + val_bits(k.a, p as nat) + val_bits(k.z, p as nat) == o + t_rec(h, k, p),
{
    assert(o.push(h).push(k.sx).push(k.sy).push(k.sz) + val_bits(k.a, p as nat) + val_bits(k.z, p as nat) =~= o + t_rec(h, k, p));
}
proof fn lemma_four(o: Seq<bool>, f: Seq<bool>, h: bool, x: bool, y: bool, z: bool)
    requires o.len() >= 4, o[0] == h, o.skip(1)[0] == x, o.skip(1).skip(1)[0] == y, o.skip(1).skip(1).skip(1)[0] == z, f == o.skip(1).skip(1).skip(1).skip(1),
    ensures o == seq![h] + seq![x].push(y).push(z) + f,
{
    assert(o =~= seq![h] + seq![x].push(y).push(z) + f);
}
proof fn lemma_t_rec4(h: bool, k: Nk, p: u8, f: Seq<bool>)
    ensures seq![h] + seq![k.sx].push(k.sy).push(k.sz) + (val_bits(k.a, p as nat) + (val_bits(k.z, p as nat) + f)) == t_rec(h, k, p) + f,
{
    assert(seq![h] + seq![k.sx].push(k.sy).push(k.sz) + (val_bits(k.a, p as nat) + (val_bits(k.z, p as nat) + f)) =~= t_rec(h, k, p) + f);
}
pub proof fn theorem_tan_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<Tangent>, p: u8, r: Seq<Tangent>)
    requires is_tan(e, s, p), is_tan_decoded(e + tail, r), r.len() <= u64::MAX,
    ensures
        r.len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> hand_is(neg_bit((#[trigger] s[i]).1), r[i].1),
        p >= 1 ==> forall|i: int| 0 <= i < s.len() ==> n_back((#[trigger] s[i]).0, r[i].0, m_of(p)),
{
    let (hs, ks, body) = choose|hs: Seq<bool>, ks: Seq<Nk>, body: Seq<u8>| #[trigger] t_parts(e, s, p, hs, ks, body);
    let (gs, js, rest) = choose|hs: Seq<bool>, ks: Seq<Nk>, rest: Seq<bool>| #[trigger] t_decoded(e + tail, r, hs, ks, rest);
    assert((e + tail).take(8) =~= le8(s.len() as u64));
    assert((e + tail).skip(9) =~= body + tail);
    assert((e + tail)[8] == p);
    lemma_le8_inj(s.len() as u64, r.len() as u64);
    lemma_m_of(p);
    lemma_records(body, tail, t_recs(hs, ks, p), t_recs(gs, js, p), rest, (4 + 2 * p) as nat);
    assert forall|i: int| 0 <= i < s.len() implies hand_is(neg_bit((#[trigger] s[i]).1), r[i].1) && (p >= 1 ==> n_back(s[i].0, r[i].0, m_of(p))) by {
        assert(n_k(s[i].0, p, ks[i]));
        assert(fits(js[i].a, p as nat));
        assert(t_recs(hs, ks, p)[i] == t_recs(gs, js, p)[i]);
        lemma_cat_split(seq![hs[i]], n_rec(ks[i], p), seq![gs[i]], n_rec(js[i], p));
        assert(seq![hs[i]][0] == seq![gs[i]][0]);
        lemma_n_rec(ks[i], js[i], p);
        if p >= 1 { lemma_n_back(s[i].0, ks[i], p, r[i].0); }
    }
}
pub proof fn theorem_tan_readable(e: Seq<u8>, tail: Seq<u8>, s: Seq<Tangent>, p: u8)
    requires is_tan(e, s, p), s.len() <= MAX_SEG_SIZE,
    ensures tan_ok(e + tail, s.len() as u64),
{
    let (hs, ks, body) = choose|hs: Seq<bool>, ks: Seq<Nk>, body: Seq<u8>| #[trigger] t_parts(e, s, p, hs, ks, body);
    assert((e + tail).take(8) =~= le8(s.len() as u64));
    assert((e + tail)[8] == p);
    lemma_flat_len(t_recs(hs, ks, p), (4 + 2 * p) as nat);
}
//@ fn TangentPrecisionMode::normal_precision
//@ spec
    ensures ret == self.0,
//@ end
//@ fn TangentPrecisionMode::from_bits
//@ spec
    ensures ret.0.0 == bits,
//@ end
//@ fn ht_to_bool
//@ spec
    ensures ret == neg_bit(ht),
//@ end
//@ fn ht_from_bool
//@ spec
    ensures hand_is(src, ret),
//@ begin
    proof { ax_lit(); }
//@ end
//@ fn tangent_to_encoding
//@ spec
    requires prec.0.0 <= 63,
    ensures n_k(tangent.0, prec.0.0, Nk { a: ret.0, z: ret.1, sx: ret.2, sy: ret.3, sz: ret.4 }), ret.5 == neg_bit(tangent.1),
//@ end
//@ fn tangent_from_encoding
//@ spec
    requires prec.0.0 <= 63,
    ensures n_r(Nk { a: asine, z, sx, sy, sz }, prec.0.0, ret.0), hand_is(handenes, ret.1),
//@ end
//@ fn save_tangents
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(target).infallible(), prec.0.0 <= 63,
    ensures
        ret is Ok,
        exists|e: Seq<u8>| #[trigger] is_tan(e, tangents@, prec.0.0) && (*final(target)).sunk() == (*old(target)).sunk() + e,
//@ begin
    let ghost base = (*old(target)).sunk();
    let ghost fsunk = (*final(target)).sunk();
    let ghost p = prec.0.0;
    let ghost hdr = le8(tangents@.len() as u64) + seq![p];
//@ before `let mut writer`
    proof { assert(target.sunk() =~= base + hdr); }
//@ before-loop 1
    let ghost mut ks: Seq<Nk> = Seq::empty();
    let ghost mut hs: Seq<bool> = Seq::empty();
    proof { assert(t_recs(hs, ks, p) =~= Seq::empty()); }
//@ loop 1
        invariant
            writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fsunk,
            writer.view() == byte_bits(base + hdr) + flat(t_recs(hs, ks, p)),
            ks.len() == it1.index@, hs.len() == ks.len(),
            forall|i: int| 0 <= i < ks.len() ==> n_k((#[trigger] tangents@[i]).0, p, ks[i]) && hs[i] == neg_bit(tangents@[i].1),
//@ loop-begin 1
        let ghost o = writer.view();
//@ loop-end 1
        proof {
            let k = Nk { a: asine, z, sx, sy, sz };
            let h = handeness;
            assert(n_k(tangent.0, p, k));
            assert(seq![h] + seq![sx].push(sy).push(sz) =~= seq![h].push(sx).push(sy).push(sz));
            assert(writer.view() == o.push(h).push(sx).push(sy).push(sz) + val_bits(asine, p as nat) + val_bits(z, p as nat));
            lemma_t_rec(o, h, k, p);
            assert(t_recs(hs.push(h), ks.push(k), p) =~= t_recs(hs, ks, p).push(t_rec(h, k, p)));
            lemma_flat_push(t_recs(hs, ks, p), t_rec(h, k, p));
            assert(writer.view() =~= byte_bits(base + hdr) + flat(t_recs(hs.push(h), ks.push(k), p)));
            ks = ks.push(k);
            hs = hs.push(h);
        }
//@ ret-bind
    proof {
        lemma_padded(writer);
        lemma_padded_prefix(writer.bytes(), base + hdr, flat(t_recs(hs, ks, p)));
    }
    let ghost body = writer.bytes().skip((base + hdr).len() as int);
    writer.drop_elab();
    proof {
        assert(t_parts(hdr + body, tangents@, p, hs, ks, body));
        assert(base + hdr + body =~= base + (hdr + body));
        assert(is_tan(hdr + body, tangents@, p));
    }
//@ end
//@ fn read_tangents
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
//@ spec
    ensures
        ret matches Ok(r) ==> r@.len() <= MAX_SEG_SIZE && is_tan_decoded((*old(src)).rest(), r@),
        (*old(src)).reliable() && (exists|len: u64| #[trigger] tan_ok((*old(src)).rest(), len)) ==> ret is Ok,
//@ begin
    let ghost bytes = (*old(src)).rest();
    let ghost ok = (*old(src)).reliable() && exists|len: u64| #[trigger] tan_ok(bytes, len);
//@ after-let count
    proof {
        if ok {
            let len = choose|len: u64| #[trigger] tan_ok(bytes, len);
            lemma_le8_inj(len, count);
        }
    }
//@ after-let bits_prec
    let ghost p = bits_prec;
    proof {
        assert(bytes.skip(8).take(1)[0] == bits_prec);
        assert(bytes[8] == p);
        assert(bytes.take(8) =~= le8(count));
        assert(src.rest() =~= bytes.skip(9));
    }
    let ghost bits = byte_bits(bytes.skip(9));
//@ before-loop 1
    let ghost mut ks: Seq<Nk> = Seq::empty();
    let ghost mut hs: Seq<bool> = Seq::empty();
    proof { assert(t_recs(hs, ks, p) =~= Seq::empty()); assert(flat(t_recs(hs, ks, p)) + reader.view() =~= bits); }
//@ loop 1
        invariant
            ok ==> reader.reader.reliable(),
            reader.wf(),
            bits == flat(t_recs(hs, ks, p)) + reader.view(),
            ks.len() == it1.index@, tangents@.len() == ks.len(), hs.len() == ks.len(),
            forall|i: int| 0 <= i < ks.len() ==> fits(#[trigger] ks[i].a, p as nat) && fits(ks[i].z, p as nat) && t_r(hs[i], ks[i], p, tangents@[i]),
//@ loop-begin 1
        let ghost o = reader.view();
        proof {
            lemma_flat_len(t_recs(hs, ks, p), (4 + 2 * p) as nat);
            let a = ks.len() as int;
            assert(ok ==> o.len() >= 4 + 2 * p) by (nonlinear_arith)
                requires a + 1 <= count, ok ==> bits.len() >= (4 + 2 * p) * count, o.len() == bits.len() - (4 + 2 * p) * a;
        }
//@ before `let asine`
        let ghost m0 = reader.view();
        proof { lemma_four(o, m0, handeness, sx, sy, sz); }
//@ after-let asine
        let ghost m1 = reader.view();
//@ after-let z
        let ghost k = Nk { a: asine, z, sx, sy, sz };
        proof {
            lemma_got_cat(m0, m1, p as nat, asine);
            lemma_got_cat(m1, reader.view(), p as nat, z);
            lemma_t_rec4(handeness, k, p, reader.view());
        }
//@ loop-end 1
        proof {
            let h = handeness;
            assert(t_recs(hs.push(h), ks.push(k), p) =~= t_recs(hs, ks, p).push(t_rec(h, k, p)));
            lemma_flat_push(t_recs(hs, ks, p), t_rec(h, k, p));
            assert(bits =~= flat(t_recs(hs.push(h), ks.push(k), p)) + reader.view());
            ks = ks.push(k);
            hs = hs.push(h);
        }
//@ ret-bind
    proof {
        assert(t_decoded(bytes, ret__->Ok_0@, hs, ks, reader.view()));
    }
//@ end
}
