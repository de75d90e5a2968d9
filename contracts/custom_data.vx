//@ source src/custom_data.rs
pub mod custom_data {
use vstd::prelude::*;
use vstd::string::StringSliceAdditionalSpecFns;
use crate::vbits::*;
use crate::vf::*;
use crate::fl::*;
use crate::read_extension::*;
use crate::unaligned_rw::*;
use crate::uv::{m_of, lemma_m_of};
use crate::vertices::*;
use crate::tmf::SectionType;
use crate::vio::{Read, Write};
use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
//@ item struct CustomDataSegment
//@ item enum DataSegmentError Clone Copy
//@ item enum CustomData
impl CustomDataSegment {
    pub open spec fn wf(&self) -> bool { self.name@.len() == self.name_len }
}
//@ fn CustomDataSegment::new_raw
//@ spec
    ensures ret.wf(), ret.name_len == name_len, ret.name@ == raw@.take(name_len as int), ret.data == data,
//@ begin
        let ghost raw0 = raw@;
//@ ret-bind
        proof { assert(raw0.subrange(0, name_len as int) =~= raw0.take(name_len as int)); }
//@ end
//@ fn CustomDataSegment::custom_data
//@ spec
    ensures *ret == self.data,
//@ end
//@ fn CustomDataSegment::name_len
//@ spec
    ensures ret == self.name_len,
//@ end
//@ fn CustomDataSegment::name_bytes
//@ spec
    ensures ret@ == self.name@,
//@ end
//@ fn CustomDataSegment::new
//@ spec
    ensures
        name.spec_bytes().len() == 0 ==> ret matches Err(DataSegmentError::NoName),
        name.spec_bytes().len() > 255 ==> ret matches Err(DataSegmentError::NameTooLong),
        1 <= name.spec_bytes().len() <= 255 ==> ret is Ok,
        ret matches Ok(s) ==> s.wf() && s.name@ == name.spec_bytes() && s.data == data,
//@ after-let len
        proof { assert(bytes.len() == name.spec_bytes().len()); assert(len == name.spec_bytes().len()); }
//@ end
//@ fn CustomData::as_index
//@ spec
    ensures match *self { CustomData::CustomIndex(a, m) => ret matches Some(x) && x.0@ == a@ && x.1 == m, _ => ret is None },
//@ end
//@ fn CustomData::as_intiger
//@ spec
    ensures match *self { CustomData::CustomIntiger(a, m) => ret matches Some(x) && x.0@ == a@ && x.1 == m, _ => ret is None },
//@ end
//@ fn CustomData::as_float
//@ spec
    ensures match *self { CustomData::CustomFloat(a, m) => ret matches Some(x) && x.0@ == a@ && x.1 == m, _ => ret is None },
//@ end
//@ fn CustomData::as_color_rgba
//@ spec
    ensures match *self { CustomData::CustomColorRGBA(a, m) => ret matches Some(x) && x.0@ == a@ && x.1 == m, _ => ret is None },
//@ end

// ---------------------------------------------------------------- floats
/// what the file format can represent: at least one number, all finite, the range not too big
pub open spec fn flt_ok(s: Seq<f32>, a: f32, b: f32) -> bool {
    &&& fin(a) && fin(b) && rv(b) - rv(a) <= FMAX() / 2real
    &&& forall|i: int| 0 <= i < s.len() ==> fin(#[trigger] s[i])
}
pub struct FltHdr { pub p: u8, pub mn: f64, pub mx: f64, pub a: f32, pub b: f32 }
/// a..=b is the range of s
pub open spec fn range_of(s: Seq<f32>, a: f32, b: f32) -> bool {
    s.len() > 0 && (forall|i: int| 0 <= i < s.len() ==> fin(#[trigger] s[i])) ==> {
        &&& fin(a) && fin(b) && rv(a) <= rv(b)
        &&& forall|i: int| 0 <= i < s.len() ==> rv(a) <= rv(#[trigger] s[i]) <= rv(b)
        &&& exists|i: int| 0 <= i < s.len() && rv(#[trigger] s[i]) == rv(a)
        &&& exists|i: int| 0 <= i < s.len() && rv(#[trigger] s[i]) == rv(b)
    }
}
pub open spec fn flt_k(s: Seq<f32>, h: FltHdr, i: int, k: u64) -> bool {
    &&& k <= m_of(h.p)
    &&& flt_ok(s, h.a, h.b) ==> k_span(s[i], h.a, h.b, m_of(h.p), k)
}
/// e is the encoding of the floats s
pub open spec fn flt_parts(e: Seq<u8>, s: Seq<f32>, h: FltHdr, ks: Seq<u64>, body: Seq<u8>) -> bool {
    &&& 1 <= h.p <= 63
    &&& s.len() <= u64::MAX
    &&& e == le8(s.len() as u64) + lef(h.mn) + lef(h.mx) + seq![h.p] + body
    &&& find(h.mn) == fin(h.a) && find(h.mx) == fin(h.b) && (fin(h.a) ==> rd(h.mn) == rv(h.a)) && (fin(h.b) ==> rd(h.mx) == rv(h.b))
    &&& range_of(s, h.a, h.b)
    &&& ks.len() == s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> flt_k(s, h, i, #[trigger] ks[i])
    &&& padded(body, flat(vrecs(ks, h.p as nat)))
}
/// the bits are enough for the requested precision, unless that is beyond the number format
pub open spec fn flt_prec(h: FltHdr, prec: f32) -> bool {
    exists|span: f32, q: f32, p: u8| #[trigger] vstd::std_specs::ops::sub_ensures::<f32>(h.b, h.a, span) && #[trigger] vstd::std_specs::ops::div_ensures::<f32>(span, prec, q) && #[trigger] bits_for(q, p)
        && h.p == (if p < 1 { 1u8 } else if p > 63 { 63u8 } else { p })
}
pub open spec fn is_flt(e: Seq<u8>, s: Seq<f32>, prec: f32) -> bool {
    exists|h: FltHdr, ks: Seq<u64>, body: Seq<u8>| #[trigger] flt_parts(e, s, h, ks, body) && flt_prec(h, prec)
}
// ---------------------------------------------------------------- colours
pub open spec fn chan(c: Vector4, j: int) -> f32 { if j == 0 { c.0 } else if j == 1 { c.1 } else if j == 2 { c.2 } else { c.3 } }
pub open spec fn col_k(c: Vector4, p: u8, k: Seq<u64>, o: int) -> bool {
    forall|j: int| 0 <= j < 4 ==> #[trigger] k[o + j] <= m_of(p) && (in01(chan(c, j)) ==> q_close(rv(chan(c, j)), m_of(p), k[o + j]))
}
pub open spec fn col_parts(e: Seq<u8>, s: Seq<Vector4>, p: u8, ks: Seq<u64>, body: Seq<u8>) -> bool {
    &&& 1 <= p <= 63
    &&& s.len() <= u64::MAX
    &&& e == le8(s.len() as u64) + seq![p] + body
    &&& ks.len() == 4 * s.len()
    &&& forall|i: int| 0 <= i < s.len() ==> col_k(#[trigger] s[i], p, ks, 4 * i)
    &&& padded(body, flat(vrecs(ks, p as nat)))
}
pub open spec fn col_prec(p: u8, prec: f32) -> bool {
    exists|one: f32, m: f32, q: f32, b: u8| fin(one) && rv(one) == 1real && #[trigger] fmin_is(prec, one, m) && #[trigger] vstd::std_specs::ops::div_ensures::<f32>(one, m, q) && #[trigger] bits_for(q, b)
        && p == (if b < 1 { 1u8 } else if b > 63 { 63u8 } else { b })
}
pub open spec fn is_col(e: Seq<u8>, s: Seq<Vector4>, prec: f32) -> bool {
    exists|p: u8, ks: Seq<u64>, body: Seq<u8>| #[trigger] col_parts(e, s, p, ks, body) && col_prec(p, prec)
}
pub open spec fn is_cd(e: Seq<u8>, d: CustomData) -> bool {
    match d {
        CustomData::CustomIndex(s, _) => is_tri(e, s@),
        CustomData::CustomIntiger(s, _) => is_tri(e, s@),
        CustomData::CustomFloat(s, p) => is_flt(e, s@, p),
        CustomData::CustomColorRGBA(s, p) => is_col(e, s@, p),
    }
}
pub proof fn lemma_sp_ok(a: f32, b: f32, span: f32)
    requires vstd::std_specs::ops::sub_ensures::<f32>(b, a, span), fin(a), fin(b), rv(a) < rv(b), rv(b) - rv(a) <= FMAX() / 2real,
    ensures sp_ok(a, b, span),
{
    broadcast use {ax_sub, ax_sub_nz, ax_rnd};
    assert(rnd(rv(b) - rv(a), span));
}
pub proof fn lemma_f64s(a: f32, b: f32, mn: f64, mx: f64)
    requires vstd::float::float_cast_spec::<f32, f64>(a, mn), vstd::float::float_cast_spec::<f32, f64>(b, mx),
    ensures find(mn) == fin(a), find(mx) == fin(b), fin(a) ==> rd(mn) == rv(a), fin(b) ==> rd(mx) == rv(b),
{
    broadcast use {ax_f32_f64};
}
//@ fn CustomData::write
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
//@ spec
    requires old(target).infallible(),
    ensures
        ret is Ok,
        exists|e: Seq<u8>| #[trigger] is_cd(e, *self) && (*final(target)).sunk() == (*old(target)).sunk() + e,
//@ begin
        broadcast use {group_req, axiom_lef_len, lemma_bits_for_b};
        let ghost base = (*old(target)).sunk();
        let ghost fsunk = (*final(target)).sunk();
        proof { ax_lit(); }
//@ loop 1
                    invariant
                        target.infallible(), target.sunk() == base, (*final(target)).sunk() == fsunk,
                        it1.index@ == 0 ==> fin(max) && fin(min) && (forall|x: f32| #[trigger] fin(x) ==> rv(max) <= rv(x) <= rv(min)),
                        it1.index@ > 0 ==> range_of(data@.take(it1.index@), min, max),
//@ loop-begin 1
                    let ghost (min0, max0) = (min, max);
//@ loop-end 1
                    proof {
                        let n = it1.index@;
                        let s0 = data@.take(n);
                        let s1 = data@.take(n + 1);
                        assert(s1 =~= s0.push(*entry));
                        if forall|i: int| 0 <= i < s1.len() ==> fin(#[trigger] s1[i]) {
                            assert(s1[n] == *entry);
                            assert forall|i: int| 0 <= i < s0.len() implies fin(#[trigger] s0[i]) by { assert(s0[i] == s1[i]); }
                            if n > 0 {
                                let ja = choose|i: int| 0 <= i < s0.len() && rv(#[trigger] s0[i]) == rv(min0);
                                let jb = choose|i: int| 0 <= i < s0.len() && rv(#[trigger] s0[i]) == rv(max0);
                                assert(s1[ja] == s0[ja] && s1[jb] == s0[jb]);
                            }
                            assert forall|i: int| 0 <= i < s1.len() implies rv(min) <= rv(#[trigger] s1[i]) <= rv(max) by { if i < n { assert(s0[i] == s1[i]); } }
                        }
                    }
//@ after-let span
                let ghost sp = span;
                let ghost prec0 = prec;
                proof { assert(data@.take(data@.len() as int) =~= data@); }
//@ after-let prec #2
                let ghost p = prec;
                proof { lemma_m_of(prec); }
//@ before `let prec = UnalignedRWMode` #1
                let ghost n8 = data@.len() as u64;
                let ghost (mn, mx) = choose|mn: f64, mx: f64| #[trigger] vstd::float::float_cast_spec::<f32, f64>(min, mn) && #[trigger] vstd::float::float_cast_spec::<f32, f64>(max, mx) && target.sunk() =~= base + le8(n8) + lef(mn) + lef(mx) + seq![p];
                let ghost hd = FltHdr { p, mn, mx, a: min, b: max };
                let ghost hdr = le8(n8) + lef(hd.mn) + lef(hd.mx) + seq![p];
                proof {
                    assert(target.sunk() =~= base + hdr);
                    assert(max_int == m_of(p));
                    lemma_f64s(min, max, mn, mx);
                    if flt_ok(data@, min, max) && data@.len() > 0 {
                        if rv(max) > rv(min) { lemma_sp_ok(min, max, span); }
                    }
                }
//@ tail
    proof {
        match self {
            CustomData::CustomIndex(s, _) => { let e = choose|e: Seq<u8>| #[trigger] is_tri(e, s@) && fsunk == base + e; assert(is_cd(e, *self)); },
            CustomData::CustomIntiger(s, _) => { let e = choose|e: Seq<u8>| #[trigger] is_tri(e, s@) && fsunk == base + e; assert(is_cd(e, *self)); },
            _ => {},
        }
    }
//@ before-loop 2
                let ghost mut ks: Seq<u64> = Seq::empty();
                proof { assert(vrecs(ks, p as nat) =~= Seq::empty()); }
//@ loop 2
                    invariant
                        writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fsunk,
                        writer.view() == byte_bits(base + hdr) + flat(vrecs(ks, p as nat)),
                        ks.len() == it2.index@,
                        forall|i: int| 0 <= i < ks.len() ==> flt_k(data@, hd, i, #[trigger] ks[i]),
//@ loop-begin 2
                    broadcast use lemma_span_b;
                    let ghost e0 = *entry;
//@ loop-end 2
                    proof {
                        if flt_ok(data@, min, max) {
                            assert(data@[it2.index@] == e0);
                            if rv(max) == rv(min) {
                                let mr = m_of(p) as real;
                                let big = rv(max) - rv(min);
                                let kr = entry as real;
                                let t = rv(e0) - rv(min);
                                assert(k_span_r(t, big, mr, kr)) by (nonlinear_arith) requires t == 0real, big == 0real, mr >= 0real;
                            }
                            assert(k_span(e0, min, max, m_of(p), entry));
                        }
                        assert(flt_k(data@, hd, it2.index@, entry));
                        lemma_vrecs_push(ks, p as nat, entry);
                        ks = ks.push(entry);
                    }
//@ before `Ok(())` #1
                proof {
                    lemma_padded(writer);
                    lemma_padded_prefix(writer.bytes(), base + hdr, flat(vrecs(ks, p as nat)));
                }
                let ghost body = writer.bytes().skip((base + hdr).len() as int);
                writer.drop_elab();
                proof {
                    assert(flt_parts(hdr + body, data@, hd, ks, body));
                    assert(base + hdr + body =~= base + (hdr + body));
                    assert(is_flt(hdr + body, data@, *prec0));
                    assert(is_cd(hdr + body, *self));
                }
//@ before `let prec_bits =` #1
                let ghost prec0 = prec;
//@ after-let prec_bits #2
                let ghost p = prec_bits;
                proof { lemma_m_of(prec_bits); }
//@ before `let prec = UnalignedRWMode` #2
                let ghost hdr = le8(data@.len() as u64) + seq![p];
                proof {
                    assert(target.sunk() =~= base + hdr);
                    assert(max_int == m_of(p));
                }
//@ before-loop 3
                let ghost mut ks: Seq<u64> = Seq::empty();
                proof { assert(vrecs(ks, p as nat) =~= Seq::empty()); }
//@ loop 3
                    invariant
                        writer.wf(), writer.writer.inner.infallible(), writer.writer.inner.fin_sunk() == fsunk,
                        writer.view() == byte_bits(base + hdr) + flat(vrecs(ks, p as nat)),
                        ks.len() == 4 * it3.index@,
                        forall|i: int| 0 <= i < it3.index@ ==> col_k(#[trigger] data@[i], p, ks, 4 * i),
//@ loop-begin 3
                    broadcast use lemma_quant_b;
//@ loop-end 3
                    proof {
                        let ks0 = ks;
                        let n = it3.index@;
                        lemma_vrecs_push(ks, p as nat, entry_r);
                        ks = ks.push(entry_r);
                        lemma_vrecs_push(ks, p as nat, entry_g);
                        ks = ks.push(entry_g);
                        lemma_vrecs_push(ks, p as nat, entry_b);
                        ks = ks.push(entry_b);
                        lemma_vrecs_push(ks, p as nat, entry_a);
                        ks = ks.push(entry_a);
                        assert(writer.view() =~= byte_bits(base + hdr) + flat(vrecs(ks, p as nat)));
                        assert(data@[n] == *entry);
                        assert(col_k(data@[n], p, ks, 4 * n));
                        assert forall|i: int| 0 <= i < n + 1 implies col_k(#[trigger] data@[i], p, ks, 4 * i) by {
                            if i < n {
                                assert(col_k(data@[i], p, ks0, 4 * i));
                                assert forall|j: int| 0 <= j < 4 implies #[trigger] ks[4 * i + j] == ks0[4 * i + j] by {}
                            }
                        }
                    }
//@ before `Ok(())` #2
                proof {
                    lemma_padded(writer);
                    lemma_padded_prefix(writer.bytes(), base + hdr, flat(vrecs(ks, p as nat)));
                }
                let ghost body = writer.bytes().skip((base + hdr).len() as int);
                writer.drop_elab();
                proof {
                    assert(col_parts(hdr + body, data@, p, ks, body));
                    assert(base + hdr + body =~= base + (hdr + body));
                    assert(is_col(hdr + body, data@, *prec0));
                    assert(is_cd(hdr + body, *self));
                }
//@ end

pub open spec fn cd_kind(d: CustomData) -> SectionType {
    match d {
        CustomData::CustomIndex(_, _) => SectionType::CustomIndexSegment,
        CustomData::CustomIntiger(_, _) => SectionType::CustomIntigerSegment,
        CustomData::CustomFloat(_, _) => SectionType::CustomFloatSegment,
        CustomData::CustomColorRGBA(_, _) => SectionType::CustomColorRGBASegment,
    }
}
//@ fn CustomData::section_type
//@ spec
    ensures ret == cd_kind(*self),
//@ end
//@ fn CustomData::new_float
//@ spec
    ensures ret matches CustomData::CustomFloat(a, p) && a@ == floats@ && p == prec,
//@ end
//@ fn CustomData::new_color_rgba
//@ spec
    ensures ret matches CustomData::CustomColorRGBA(a, p) && a@ == colors@ && p == prec,
//@ end
//@ fn CustomData::new_index
//@ spec
    ensures ret matches CustomData::CustomIndex(a, _) && a@ == indices@,
//@ end
//@ fn CustomData::new_intiger
//@ spec
    ensures ret matches CustomData::CustomIntiger(a, _) && a@ == indices@,
//@ end
/// e is the encoding of the custom data segment d
pub open spec fn is_cds(e: Seq<u8>, d: CustomDataSegment) -> bool {
    exists|b: Seq<u8>| #[trigger] is_cd(b, d.data) && e == seq![d.name_len] + d.name@ + b
}
//@ fn CustomDataSegment::encode
//@ spec
    requires old(target).infallible(), self.wf(),
    ensures
        ret == Ok::<SectionType, crate::vio::Error>(cd_kind(self.data)),
        exists|e: Seq<u8>| #[trigger] is_cds(e, *self) && (*final(target)).sunk() == (*old(target)).sunk() + e,
//@ begin
        let ghost base = (*old(target)).sunk();
        let ghost hdr = seq![self.name_len] + self.name@;
        proof { assert(self.name@.subrange(0, self.name_len as int) =~= self.name@); }
//@ before `self.data.write`
        proof { assert(target.sunk() =~= base + hdr); }
//@ tail
        proof {
            let b = choose|b: Seq<u8>| #[trigger] is_cd(b, self.data) && target.sunk() == base + hdr + b;
            assert(base + hdr + b =~= base + (hdr + b));
            assert(is_cds(hdr + b, *self));
        }
//@ end
pub open spec fn flt_decoded(src: Seq<u8>, r: Seq<f32>, v: Seq<u64>) -> bool {
    &&& src.len() >= 25 && src[24] <= 63
    &&& src.take(8) == le8(r.len() as u64)
    &&& r.len() <= MAX_SEG_SIZE
    &&& v.len() == r.len()
    &&& decoded(byte_bits(src.skip(25)), src[24] as nat, v)
    &&& forall|mn: f64, mx: f64, i: int| src.subrange(8, 16) == #[trigger] lef(mn) && src.subrange(16, 24) == #[trigger] lef(mx) && 0 <= i < r.len() && src[24] >= 1
            && find(mn) && find(mx) && rd(mn) <= rd(mx) && rmax(rabs(rd(mn)), rabs(rd(mx))) <= FMAX() / 2real && v[i] <= m_of(src[24])
        ==> d_spand(mn, mx, m_of(src[24]), v[i], #[trigger] r[i])
}
pub open spec fn flt_rok(src: Seq<u8>, len: u64) -> bool {
    &&& src.len() >= 25 && src[24] <= 63
    &&& src.take(8) == le8(len) && len <= MAX_SEG_SIZE
    &&& 8 * (src.len() - 25) >= src[24] * len
}
pub open spec fn col_decoded(src: Seq<u8>, r: Seq<Vector4>, v: Seq<u64>) -> bool {
    &&& src.len() >= 9 && src[8] <= 63
    &&& src.take(8) == le8(r.len() as u64)
    &&& r.len() <= MAX_SEG_SIZE
    &&& v.len() == 4 * r.len()
    &&& decoded(byte_bits(src.skip(9)), src[8] as nat, v)
    &&& src[8] >= 1 ==> forall|i: int| 0 <= i < r.len() ==> col_r(#[trigger] r[i], src[8], v, 4 * i)
}
pub open spec fn col_r(c: Vector4, p: u8, v: Seq<u64>, o: int) -> bool {
    forall|j: int| 0 <= j < 4 ==> (#[trigger] v[o + j] <= m_of(p) ==> d_close(v[o + j], m_of(p), chan(c, j)))
}
pub open spec fn col_rok(src: Seq<u8>, len: u64) -> bool {
    &&& src.len() >= 9 && src[8] <= 63
    &&& src.take(8) == le8(len) && len <= MAX_SEG_SIZE
    &&& 8 * (src.len() - 9) >= 4 * src[8] * len
}
/// d is what the bytes say
pub open spec fn cd_decoded(src: Seq<u8>, kind: SectionType, hasmin: bool, d: CustomData) -> bool {
    &&& cd_kind(d) == kind
    &&& match d {
        CustomData::CustomIndex(s, _) => exists|v: Seq<u64>| #[trigger] tri_decoded(src, hasmin, s@, v),
        CustomData::CustomIntiger(s, _) => exists|v: Seq<u64>| #[trigger] tri_decoded(src, hasmin, s@, v),
        CustomData::CustomFloat(s, _) => exists|v: Seq<u64>| #[trigger] flt_decoded(src, s@, v),
        CustomData::CustomColorRGBA(s, _) => exists|v: Seq<u64>| #[trigger] col_decoded(src, s@, v),
    }
}
pub open spec fn cd_rok(src: Seq<u8>, kind: SectionType, hasmin: bool, len: u64) -> bool {
    match kind {
        SectionType::CustomIndexSegment => tri_ok(src, hasmin, len),
        SectionType::CustomIntigerSegment => tri_ok(src, hasmin, len),
        SectionType::CustomFloatSegment => flt_rok(src, len),
        _ => col_rok(src, len),
    }
}
pub open spec fn cds_decoded(src: Seq<u8>, kind: SectionType, hasmin: bool, d: CustomDataSegment) -> bool {
    &&& src.len() >= 1 && src.len() >= 1 + src[0]
    &&& d.name@ == src.subrange(1, 1 + src[0]) && d.name_len == src[0]
    &&& cd_decoded(src.skip(1 + src[0]), kind, hasmin, d.data)
}
pub open spec fn cds_rok(src: Seq<u8>, kind: SectionType, hasmin: bool, len: u64) -> bool {
    src.len() >= 1 && src.len() >= 1 + src[0] && cd_rok(src.skip(1 + src[0]), kind, hasmin, len)
}
//@ fn CustomDataSegment::read
//@ attr
#[verifier::loop_isolation(false)] #[verifier::rlimit(100)]
//@ spec
    requires crate::tmf::is_custom(kind),
    ensures
        ret matches Ok(r) ==> r.wf() && cds_decoded(src.rest(), kind, ctx.should_read_min_index, r),
        src.reliable() && (exists|len: u64| #[trigger] cds_rok(src.rest(), kind, ctx.should_read_min_index, len)) ==> ret is Ok,
//@ begin
        broadcast use {group_req, axiom_lef_len};
        let ghost all = src.rest();
        let ghost has = ctx.should_read_min_index;
        let ghost ok = src.reliable() && exists|len: u64| #[trigger] cds_rok(all, kind, has, len);
        let ghost len0: u64 = choose|len: u64| #[trigger] cds_rok(all, kind, has, len);
//@ after-let name_len
        proof { assert(all.take(1)[0] == name_len); }
//@ before `match kind`
        let ghost nl = name_len as int;
        let ghost bb = all.skip(1 + nl);
        proof { 
            assert(src.rest() =~= bb);
            assert(name@.take(nl) =~= all.subrange(1, 1 + nl));
            if ok { assert(cd_rok(bb, kind, has, len0)); }
        }
//@ after-let len #1
                proof {
                    assert(bb.take(8) =~= le8(len));
                    if ok { lemma_le8_inj(len, len0); }
                }
//@ after-let max
                proof { assert(src.rest() =~= bb.skip(24)); }
//@ after-let prec #1
                proof { assert(bb.skip(24).take(1)[0] == prec); }
//@ before `let prec_bits = prec` #1
                let ghost p = prec;
                let ghost bits = byte_bits(bb.skip(25));
                proof {
                    lemma_m_of(p);
                    assert(bb.subrange(8, 16) =~= lef(min));
                    assert(bb.subrange(16, 24) =~= lef(max));
                    assert(bb[24] == p);
                    assert(src.rest() =~= bb.skip(25));
                }
//@ before-loop 1
                let ghost mut v: Seq<u64> = Seq::empty();
                proof { lemma_decoded_empty(bits, p as nat); }
//@ loop 1
                    invariant
                        ok ==> reader.reader.reliable(), reader.wf(), res@.len() == len,
                        v.len() == it1.index@,
                        decoded(bits, p as nat, v), reader.view() == bits.skip((v.len() * p) as int),
                        find(min) && find(max) && rd(min) <= rd(max) && rmax(rabs(rd(min)), rabs(rd(max))) <= FMAX() / 2real && p >= 1 ==>
                            forall|i: int| 0 <= i < v.len() ==> v[i] <= m_of(p) ==> d_spand(min, max, m_of(p), v[i], #[trigger] res@[i]),
//@ loop-begin 1
                    broadcast use lemma_despand_b;
                    let ghost o = reader.view();
                    proof {
                        let a = v.len() as int;
                        assert(ok ==> o.len() >= p) by (nonlinear_arith)
                            requires a + 1 <= len, ok ==> bits.len() >= p * len, o == bits.skip(a * p), a * p <= bits.len(), o.len() == bits.len() - a * p;
                    }
//@ loop-end 1
                    proof {
                        lemma_decoded_push(bits, p as nat, v, reader.view(), val);
                        v = v.push(val);
                    }
//@ after-loop 1
                proof {
                    assert forall|mn: f64, mx: f64, i: int| bb.subrange(8, 16) == #[trigger] lef(mn) && bb.subrange(16, 24) == #[trigger] lef(mx) && 0 <= i < res@.len() && bb[24] >= 1
                        && find(mn) && find(mx) && rd(mn) <= rd(mx) && rmax(rabs(rd(mn)), rabs(rd(mx))) <= FMAX() / 2real && v[i] <= m_of(bb[24])
                    implies d_spand(mn, mx, m_of(bb[24]), v[i], #[trigger] res@[i]) by {
                        axiom_lef_inj(mn, min);
                        axiom_lef_inj(mx, max);
                    }
                    assert(flt_decoded(bb, res@, v));
                }
//@ after-let len #2
                proof {
                    assert(bb.take(8) =~= le8(len));
                    if ok { lemma_le8_inj(len, len0); }
                }
//@ before `let prec = UnalignedRWMode` #2
                let ghost p = prec_bits;
                let ghost bits = byte_bits(bb.skip(9));
                proof {
                    lemma_m_of(p);
                    assert(bb.skip(8).take(1)[0] == p);
                    assert(bb[8] == p);
                    assert(src.rest() =~= bb.skip(9));
                }
//@ before-loop 2
                let ghost mut v: Seq<u64> = Seq::empty();
                proof { lemma_decoded_empty(bits, p as nat); }
//@ loop 2
                    invariant
                        ok ==> reader.reader.reliable(), reader.wf(), res@.len() == len,
                        v.len() == 4 * it2.index@,
                        decoded(bits, p as nat, v), reader.view() == bits.skip((v.len() * p) as int),
                        p >= 1 ==> forall|i: int| 0 <= i < it2.index@ ==> col_r(#[trigger] res@[i], p, v, 4 * i),
//@ loop-begin 2
                    broadcast use lemma_dequantd_b;
                    let ghost o = reader.view();
                    proof {
                        let a = v.len() as int;
                        let n = it2.index@;
                        assert(ok ==> o.len() >= 4 * p) by (nonlinear_arith)
                            requires n + 1 <= len, a == 4 * n, ok ==> bits.len() >= 4 * p * len, o == bits.skip(a * p), a * p <= bits.len(), o.len() == bits.len() - a * p;
                    }
//@ loop-end 2
                    proof {
                        let v0 = v;
                        let n = it2.index@;
                        let q = p as int;
                        lemma_decoded_push(bits, p as nat, v, o.skip(q), r);
                        v = v.push(r);
                        lemma_decoded_push(bits, p as nat, v, o.skip(q).skip(q), g);
                        v = v.push(g);
                        lemma_decoded_push(bits, p as nat, v, o.skip(q).skip(q).skip(q), b);
                        v = v.push(b);
                        lemma_decoded_push(bits, p as nat, v, reader.view(), a);
                        v = v.push(a);
                        if p >= 1 {
                            assert(col_r(res@[n], p, v, 4 * n));
                            assert forall|i: int| 0 <= i < n + 1 implies col_r(#[trigger] res@[i], p, v, 4 * i) by {
                                if i < n {
                                    assert(col_r(res@[i], p, v0, 4 * i));
                                    assert forall|j: int| 0 <= j < 4 implies #[trigger] v[4 * i + j] == v0[4 * i + j] by {}
                                }
                            }
                        }
                    }
//@ after-loop 2
                proof { assert(col_decoded(bb, res@, v)); }
//@ end

/// what reading back custom data may change
pub open spec fn cd_same(d: CustomData, r: CustomData) -> bool {
    match (d, r) {
        (CustomData::CustomIndex(s, _), CustomData::CustomIndex(t, _)) => s@ == t@,
        (CustomData::CustomIntiger(s, _), CustomData::CustomIntiger(t, _)) => s@ == t@,
        (CustomData::CustomFloat(s, p), CustomData::CustomFloat(t, _)) => flt_same(s@, p, t@),
        (CustomData::CustomColorRGBA(s, p), CustomData::CustomColorRGBA(t, _)) => col_same(s@, p, t@),
        _ => false,
    }
}
/// every number within one step of 2^p - 1 between the smallest and the biggest, p being enough for the precision
pub open spec fn flt_same(s: Seq<f32>, prec: f32, t: Seq<f32>) -> bool {
    &&& s.len() == t.len()
    &&& exists|h: FltHdr| #[trigger] flt_prec(h, prec) && 1 <= h.p <= 63 && range_of(s, h.a, h.b)
        && (flt_ok(s, h.a, h.b) && rmax(rabs(rv(h.a)), rabs(rv(h.b))) <= FMAX() / 2real ==> forall|i: int| 0 <= i < s.len() ==> fin(t[i])
            && rabs(rv(#[trigger] t[i]) - rv(s[i])) <= (rv(h.b) - rv(h.a)) / (m_of(h.p) as real) + 40real * EPS() * rmax(rabs(rv(h.a)), rabs(rv(h.b))) + 10real * ETA())
}
pub open spec fn col_same(s: Seq<Vector4>, prec: f32, t: Seq<Vector4>) -> bool {
    &&& s.len() == t.len()
    &&& exists|p: u8| #[trigger] col_prec(p, prec) && 1 <= p <= 63 && (forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < 4 && in01(chan(s[i], j)) ==>
            fin(#[trigger] chan(t[i], j)) && rabs(rv(chan(t[i], j)) - rv(chan(s[i], j))) <= 1real / (m_of(p) as real) + 8real * EPS())
}
pub proof fn lemma_flt_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<f32>, prec: f32, t: Seq<f32>, v: Seq<u64>)
    requires is_flt(e, s, prec), flt_decoded(e + tail, t, v),
    ensures flt_same(s, prec, t),
{
    broadcast use {axiom_lef_len};
    let (h, ks, body) = choose|h: FltHdr, ks: Seq<u64>, body: Seq<u8>| #[trigger] flt_parts(e, s, h, ks, body) && flt_prec(h, prec);
    let src = e + tail;
    assert(src.take(8) =~= le8(s.len() as u64));
    assert(src.subrange(8, 16) =~= lef(h.mn));
    assert(src.subrange(16, 24) =~= lef(h.mx));
    assert(src[24] == h.p);
    assert(src.skip(25) =~= body + tail);
    lemma_le8_inj(s.len() as u64, t.len() as u64);
    lemma_m_of(h.p);
    assert forall|i: int| 0 <= i < ks.len() implies fits(#[trigger] ks[i], h.p as nat) by { assert(flt_k(s, h, i, ks[i])); }
    lemma_vrecs_read(body, tail, ks, h.p as nat, v);
    if flt_ok(s, h.a, h.b) && rmax(rabs(rv(h.a)), rabs(rv(h.b))) <= FMAX() / 2real {
        assert forall|i: int| 0 <= i < s.len() implies fin(t[i])
            && rabs(rv(#[trigger] t[i]) - rv(s[i])) <= (rv(h.b) - rv(h.a)) / (m_of(h.p) as real) + 40real * EPS() * rmax(rabs(rv(h.a)), rabs(rv(h.b))) + 10real * ETA() by {
            assert(flt_k(s, h, i, ks[i]));
            assert(src.subrange(8, 16) == lef(h.mn) && src.subrange(16, 24) == lef(h.mx));
            assert(d_spand(h.mn, h.mx, m_of(h.p), v[i], t[i]));
            lemma_spand_roundtrip(s[i], h.a, h.b, h.mn, h.mx, m_of(h.p), ks[i], t[i]);
        }
    }
}
pub proof fn lemma_col_roundtrip(e: Seq<u8>, tail: Seq<u8>, s: Seq<Vector4>, prec: f32, t: Seq<Vector4>, v: Seq<u64>)
    requires is_col(e, s, prec), col_decoded(e + tail, t, v),
    ensures col_same(s, prec, t),
{
    let (p, ks, body) = choose|p: u8, ks: Seq<u64>, body: Seq<u8>| #[trigger] col_parts(e, s, p, ks, body) && col_prec(p, prec);
    let src = e + tail;
    assert(src.take(8) =~= le8(s.len() as u64));
    assert(src[8] == p);
    assert(src.skip(9) =~= body + tail);
    lemma_le8_inj(s.len() as u64, t.len() as u64);
    lemma_m_of(p);
    assert forall|i: int| 0 <= i < ks.len() implies fits(#[trigger] ks[i], p as nat) by {
        assert(col_k(s[i / 4], p, ks, 4 * (i / 4)));
        assert(ks[4 * (i / 4) + i % 4] <= m_of(p));
    }
    lemma_vrecs_read(body, tail, ks, p as nat, v);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < 4 && in01(chan(s[i], j)) implies
            fin(#[trigger] chan(t[i], j)) && rabs(rv(chan(t[i], j)) - rv(chan(s[i], j))) <= 1real / (m_of(p) as real) + 8real * EPS() by {
        assert(col_k(s[i], p, ks, 4 * i));
        assert(col_r(t[i], p, v, 4 * i));
        assert(ks[4 * i + j] <= m_of(p));
        assert(v[4 * i + j] <= m_of(p));
        lemma_q_d(rv(chan(s[i], j)), m_of(p), ks[4 * i + j], chan(t[i], j));
    }
}
/// C02, C03, C05, C13: custom data comes back under the same name, of the same kind, with the same elements
pub proof fn theorem_custom_roundtrip(e: Seq<u8>, tail: Seq<u8>, d: CustomDataSegment, r: CustomDataSegment)
    requires is_cds(e, d), d.wf(), cds_decoded(e + tail, cd_kind(d.data), true, r),
    ensures r.name@ == d.name@, r.name_len == d.name_len, cd_same(d.data, r.data),
{
    let b = choose|b: Seq<u8>| #[trigger] is_cd(b, d.data) && e == seq![d.name_len] + d.name@ + b;
    let src = e + tail;
    assert(src[0] == d.name_len);
    assert(src.subrange(1, 1 + src[0]) =~= d.name@);
    assert(src.skip(1 + src[0]) =~= b + tail);
    match (d.data, r.data) {
        (CustomData::CustomIndex(s, _), CustomData::CustomIndex(t, _)) => {
            let v = choose|v: Seq<u64>| #[trigger] tri_decoded(b + tail, true, t@, v);
            theorem_tri_roundtrip(b, tail, s@, t@, v);
        },
        (CustomData::CustomIntiger(s, _), CustomData::CustomIntiger(t, _)) => {
            let v = choose|v: Seq<u64>| #[trigger] tri_decoded(b + tail, true, t@, v);
            theorem_tri_roundtrip(b, tail, s@, t@, v);
        },
        (CustomData::CustomFloat(s, p), CustomData::CustomFloat(t, _)) => {
            let v = choose|v: Seq<u64>| #[trigger] flt_decoded(b + tail, t@, v);
            lemma_flt_roundtrip(b, tail, s@, p, t@, v);
        },
        (CustomData::CustomColorRGBA(s, p), CustomData::CustomColorRGBA(t, _)) => {
            let v = choose|v: Seq<u64>| #[trigger] col_decoded(b + tail, t@, v);
            lemma_col_roundtrip(b, tail, s@, p, t@, v);
        },
        _ => {},
    }
}
pub open spec fn cd_len(d: CustomData) -> nat {
    match d {
        CustomData::CustomIndex(s, _) => s@.len(),
        CustomData::CustomIntiger(s, _) => s@.len(),
        CustomData::CustomFloat(s, _) => s@.len(),
        CustomData::CustomColorRGBA(s, _) => s@.len(),
    }
}
/// C17: what was saved is accepted by the reader
pub proof fn theorem_custom_readable(e: Seq<u8>, tail: Seq<u8>, d: CustomDataSegment)
    requires is_cds(e, d), d.wf(), cd_len(d.data) <= MAX_SEG_SIZE,
    ensures cds_rok(e + tail, cd_kind(d.data), true, cd_len(d.data) as u64),
{
    broadcast use {axiom_lef_len};
    let b = choose|b: Seq<u8>| #[trigger] is_cd(b, d.data) && e == seq![d.name_len] + d.name@ + b;
    let src = e + tail;
    assert(src.skip(1 + src[0]) =~= b + tail);
    let n = cd_len(d.data) as u64;
    let bt = b + tail;
    match d.data {
        CustomData::CustomIndex(s, _) => { theorem_tri_readable(b, tail, s@); },
        CustomData::CustomIntiger(s, _) => { theorem_tri_readable(b, tail, s@); },
        CustomData::CustomFloat(s, p) => {
            let (h, ks, body) = choose|h: FltHdr, ks: Seq<u64>, body: Seq<u8>| #[trigger] flt_parts(b, s@, h, ks, body) && flt_prec(h, p);
            assert(bt.take(8) =~= le8(n));
            assert(bt[24] == h.p);
            lemma_vrecs_len(ks, h.p as nat);
            assert(h.p * n == n * h.p) by (nonlinear_arith);
        },
        CustomData::CustomColorRGBA(s, pr) => {
            let (p, ks, body) = choose|p: u8, ks: Seq<u64>, body: Seq<u8>| #[trigger] col_parts(b, s@, p, ks, body) && col_prec(p, pr);
            assert(bt.take(8) =~= le8(n));
            assert(bt[8] == p);
            lemma_vrecs_len(ks, p as nat);
            assert(4 * p * n == 4 * n * p) by (nonlinear_arith);
        },
    }
}
}
