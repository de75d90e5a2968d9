//@ source src/unaligned_rw.rs
pub mod unaligned_rw {
use vstd::prelude::*;
use crate::vf::MinMaxVx;
use crate::vio::{BufWriter, Read, Result, Write};
use crate::vbits::*;
//@ item type UnalignedStorage
//@ item const UNALIGNED_STORAGE_BITS exec=64
//@ item struct UnalignedReader
//@ item struct UnalignedWriter
//@ item struct UnalignedRWMode Clone Copy

broadcast use crate::vbits::lemma_byte_bits_concat;

//@ fn UnalignedRWMode::precision_bits props=C01
//@ spec
    ensures ret.0 == bits,
//@ end
//@ fn UnalignedRWMode::bits props=C01
//@ spec
    ensures ret == self.0,
//@ end

// ---------------------------------------------------------------- writer
impl<W: Write> UnalignedWriter<W> {
    /// the bits written so far
    pub open spec fn view(&self) -> Seq<bool> {
        byte_bits(self.writer.view()) + byte_top(self.next_byte, self.written as nat)
    }
    /// the bytes of the file, with the last one padded with zeros
    pub open spec fn bytes(&self) -> Seq<u8> {
        if self.written > 0 { self.writer.view().push(self.next_byte) } else { self.writer.view() }
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.written < 8
        &&& forall|i: int| 0 <= i < 8 - self.written ==> !bit8(self.next_byte, i)
    }
    #[verifier::prophetic]
    pub open spec fn same_sink(&self, o: &Self) -> bool {
        &&& self.writer.inner.fin_sunk() == o.writer.inner.fin_sunk()
        &&& self.writer.inner.infallible() == o.writer.inner.infallible()
    }
}
pub proof fn lemma_padded<W: Write>(w: UnalignedWriter<W>)
    requires w.wf(),
    ensures padded(w.bytes(), w.view()),
{
    let a = w.writer.view();
    assert(w.view().len() == 8 * a.len() + w.written);
    if w.written > 0 {
        assert(w.bytes() =~= a + seq![w.next_byte]);
        lemma_byte_one(w.next_byte);
        assert forall|i: int| 0 <= i < 8 * w.bytes().len() implies byte_bits(w.bytes())[i] == (i < w.view().len() && w.view()[i]) by {
            if i >= 8 * a.len() {
                let k = i - 8 * a.len();
                assert(byte_bits(w.bytes())[i] == byte_top(w.next_byte, 8)[k]);
                assert(byte_top(w.next_byte, 8)[k] == bit8(w.next_byte, 7 - k));
            }
        }
    }
}
/// One round of the writer: cw bits of data go below the bits already in next
proof fn lemma_write_step(next: u8, data: u64, written: u8, cw: u8)
    requires
        written < 8, 1 <= cw, cw <= 8 - written,
        forall|i: int| 0 <= i < 8 - written ==> !bit8(next, i),
    ensures
        ({
            let bits = (data >> ((64 - cw) as u64)) as u8;
            let nb = next | (bits << ((8 - written - cw) as u8));
            &&& byte_top(nb, (written + cw) as nat) == byte_top(next, written as nat) + top_bits(data, cw as nat)
            &&& forall|i: int| 0 <= i < 8 - written - cw ==> !bit8(nb, i)
        }),
{
    let bits = (data >> ((64 - cw) as u64)) as u8;
    let nb = next | (bits << ((8 - written - cw) as u8));
    let sh = (64 - cw) as u64;
    let off = (8 - written - cw) as u8;
    assert forall|i: int| 0 <= i < 8 implies bit8(nb, i) == (if i >= 8 - written { bit8(next, i) } else if i >= off { bit(data, i - off + 64 - cw) } else { false }) by {
        let j = i as u64;
        if i >= 8 - written {
            assert(((nb as u64) >> j) & 1 == ((next as u64) >> j) & 1) by (bit_vector)
                requires j < 8, j >= sub(8, written as u64), written < 8, cw >= 1, cw <= sub(8, written), off == sub(sub(8, written), cw), sh == sub(64, cw as u64),
                    bits == (data >> sh) as u8, nb == next | (bits << off);
        } else if i >= off {
            assert(!bit8(next, i));
            let k = (i - off + 64 - cw) as u64;
            assert(((nb as u64) >> j) & 1 == (data >> k) & 1) by (bit_vector)
                requires j < 8, j < sub(8, written as u64), j >= off as u64, written < 8, cw >= 1, cw <= sub(8, written), off == sub(sub(8, written), cw), sh == sub(64, cw as u64),
                    k == add(sub(j, off as u64), sh), ((next as u64) >> j) & 1 != 1,
                    bits == (data >> sh) as u8, nb == next | (bits << off);
        } else {
            assert(!bit8(next, i));
            assert(((nb as u64) >> j) & 1 != 1) by (bit_vector)
                requires j < off as u64, off < 8, ((next as u64) >> j) & 1 != 1, nb == next | (bits << off);
        }
    }
    let l = byte_top(nb, (written + cw) as nat);
    let r = byte_top(next, written as nat) + top_bits(data, cw as nat);
    assert(l.len() == r.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by {
        assert(l[i] == bit8(nb, 7 - i));
        if i < written {
            assert(r[i] == bit8(next, 7 - i));
        } else {
            assert(r[i] == bit(data, 63 - (i - written)));
            assert((7 - i) - off + 64 - cw == 63 - (i - written));
        }
    }
    assert(l =~= r);
}
/// shifting left moves the top bits up
pub proof fn lemma_shl_top(data: u64, s: u64, n: nat)
    requires s < 64, n + s <= 64,
    ensures top_bits(data << s, n) == top_bits(data, n + s as nat).skip(s as int),
{
    assert forall|i: int| 0 <= i < n implies #[trigger] top_bits(data << s, n)[i] == top_bits(data, n + s as nat).skip(s as int)[i] by {
        let j = (63 - i) as u64;
        assert(((data << s) >> j) & 1 == (data >> sub(j, s)) & 1) by (bit_vector) requires j < 64, s <= j;
        assert(sub(j, s) == (63 - (i + s)) as u64);
        assert(top_bits(data, n + s as nat)[i + s] == bit(data, 63 - (i + s)));
    }
    assert(top_bits(data << s, n) =~= top_bits(data, n + s as nat).skip(s as int));
}
pub proof fn lemma_shl_val(data: u64, n: u64)
    requires 1 <= n <= 64,
    ensures top_bits(data << sub(64, n), n as nat) == val_bits(data, n as nat),
{
    let s = sub(64, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] top_bits(data << s, n as nat)[i] == val_bits(data, n as nat)[i] by {
        let j = (63 - i) as u64;
        assert(((data << s) >> j) & 1 == (data >> sub(j, s)) & 1) by (bit_vector) requires j < 64, s <= j, s < 64;
        assert(sub(j, s) == (n - 1 - i) as u64);
    }
    assert(top_bits(data << s, n as nat) =~= val_bits(data, n as nat));
}

//@ fn UnalignedWriter as Drop::drop drop props=C01
//@ spec
    requires old(self).wf(), old(self).writer.inner.infallible(),
    ensures
        final(self).writer.inner.sunk() == old(self).bytes(),
        final(self).same_sink(old(self)),
//@ tail
        proof { assert(old(self).writer.view() + seq![old(self).next_byte] =~= old(self).writer.view().push(old(self).next_byte)); }
//@ end
//@ fn UnalignedWriter::new props=C01
//@ spec
    ensures
        ret.wf(), ret.writer.inner == w, ret.writer.view() == w.sunk(), ret.written == 0,
        ret.view() == byte_bits(w.sunk()),
//@ ret-bind
        proof { lemma_zero_byte(); assert(ret__.view() =~= byte_bits(w.sunk())); }
//@ end
//@ fn UnalignedWriter::write_bit props=C01
//@ spec
    requires old(self).wf(),
    ensures
        ret is Ok ==> final(self).wf(),
        final(self).same_sink(old(self)),
        ret is Ok ==> final(self).view() == old(self).view().push(bit),
        old(self).writer.inner.infallible() ==> ret is Ok,
//@ tail
        proof {
            let b = bit as u64;
            assert((b >> 0u64) & 1 == b) by (bit_vector) requires b <= 1;
            assert(val_bits(b, 1)[0] == crate::vbits::bit(b, 0));
            assert(old(self).view() + val_bits(b, 1) =~= old(self).view().push(bit));
        }
//@ end
//@ fn UnalignedWriter::write_unaligned props=C01
//@ spec
    requires old(self).wf(), mode.0 <= 64,
    ensures
        ret is Ok ==> final(self).wf(),
        final(self).same_sink(old(self)),
        ret is Ok ==> final(self).view() == old(self).view() + val_bits(data, mode.0 as nat),
        old(self).writer.inner.infallible() ==> ret is Ok,
//@ begin
        let ghost data0 = data;
        proof { assert(old(self).view() + val_bits(data0, 0) =~= old(self).view()); }
//@ before-loop 1
        proof {
            lemma_shl_val(data0, mode.0 as u64);
            assert(old(self).view() + val_bits(data0, mode.0 as nat).take(0) =~= old(self).view());
            assert(val_bits(data0, mode.0 as nat).skip(0) =~= val_bits(data0, mode.0 as nat));
        }
//@ loop 1
            invariant
                self.wf(), self.same_sink(old(self)),
                total_write <= mode.0 <= 64,
                self.view() == old(self).view() + val_bits(data0, mode.0 as nat).take(mode.0 - total_write),
                top_bits(data, total_write as nat) == val_bits(data0, mode.0 as nat).skip(mode.0 - total_write),
            decreases total_write,
//@ loop-begin 1
            let ghost pre = *self;
            let ghost pdata = data;
            let ghost ptotal = total_write;
//@ after-let curr_write
            proof {
                lemma_write_step(self.next_byte, data, self.written, curr_write);
                lemma_shl_top(data, curr_write as u64, (total_write - curr_write) as nat);
                assert(data << (curr_write as u64) == data << curr_write);
                assert(data >> ((64 - curr_write) as u64) == data >> ((64 - curr_write) as u8));
            }
//@ before `if self.written >= 8`
            proof {
                let all = val_bits(data0, mode.0 as nat);
                let d = (mode.0 - ptotal) as int;
                let c = curr_write as int;
                assert(top_bits(pdata, curr_write as nat) =~= top_bits(pdata, ptotal as nat).take(c));
                assert(all.skip(d).take(c) =~= all.subrange(d, d + c));
                assert(all.take(d) + all.subrange(d, d + c) =~= all.take(d + c));
                assert(all.skip(d).skip(c) =~= all.skip(d + c));
                assert(self.view() =~= pre.view() + top_bits(pdata, curr_write as nat));
                assert(self.view() =~= old(self).view() + all.take(d + c));
                lemma_byte_one(self.next_byte);
                lemma_zero_byte();
            }
            let ghost mid = *self;
//@ loop-end 1
            proof {
                assert(self.view() =~= mid.view());
            }
//@ after-loop 1
        proof {
            assert(val_bits(data0, mode.0 as nat).take(mode.0 as int) =~= val_bits(data0, mode.0 as nat));
        }
//@ end
//@ fn UnalignedWriter::flush props=C01
//@ spec
    ensures
        final(self).same_sink(old(self)),
        final(self).next_byte == old(self).next_byte, final(self).written == old(self).written,
        ret is Ok ==> final(self).writer.view() == old(self).writer.view(),
        old(self).writer.inner.infallible() ==> ret is Ok,
//@ end

// ---------------------------------------------------------------- reader
impl<R: Read> UnalignedReader<R> {
    /// the bits that are still to come
    pub open spec fn view(&self) -> Seq<bool> {
        top_bits(self.current_byte as u64, (64 - self.bits_read) as nat) + byte_bits(self.reader.rest())
    }
    pub open spec fn wf(&self) -> bool { self.bits_read <= 64 }
    #[verifier::prophetic]
    pub open spec fn same_src(&self, o: &Self) -> bool {
        &&& self.reader.fin_rest() == o.reader.fin_rest()
        &&& self.reader.reliable() == o.reader.reliable()
    }
}
pub proof fn lemma_got_zero(o: Seq<bool>)
    ensures got(o, o, 0, 0),
{
    assert(1u64 << 0u64 == 1) by (bit_vector);
    assert(val_bits(0, 0) =~= o.take(0));
    assert(o =~= o.skip(0));
}
/// cutting an (a + b) bit value in two
pub proof fn lemma_split(data: u64, a: u64, b: u64)
    requires 1 <= a, 1 <= b, a + b <= 63, fits(data, (a + b) as nat),
    ensures
        val_bits(data, (a + b) as nat) == val_bits(data >> b, a as nat) + val_bits((data << sub(64, b)) >> sub(64, b), b as nat),
        fits(data >> b, a as nat), fits((data << sub(64, b)) >> sub(64, b), b as nat),
{
    let r1 = data >> b;
    let r2 = (data << sub(64, b)) >> sub(64, b);
    let s = add(a, b);
    assert(r1 < (1u64 << a)) by (bit_vector) requires r1 == data >> b, a >= 1, b >= 1, s == add(a, b), s <= 63, a < 63, b < 63, data < (1u64 << s);
    assert(r2 < (1u64 << b)) by (bit_vector) requires r2 == (data << sub(64, b)) >> sub(64, b), b >= 1, b < 63;
    let l = val_bits(data, (a + b) as nat);
    let r = val_bits(r1, a as nat) + val_bits(r2, b as nat);
    assert forall|i: int| 0 <= i < a + b implies l[i] == r[i] by {
        let j = (a + b - 1 - i) as u64;
        if i < a {
            assert((data >> j) & 1 == ((data >> b) >> sub(j, b)) & 1) by (bit_vector) requires j >= b, j < 64;
            assert(sub(j, b) == (a - 1 - i) as u64);
        } else {
            assert((data >> j) & 1 == (((data << sub(64, b)) >> sub(64, b)) >> j) & 1) by (bit_vector) requires j < b, b < 63;
        }
    }
    assert(l =~= r);
}
pub proof fn lemma_got_split(o: Seq<bool>, f: Seq<bool>, data: u64, a: u64, b: u64)
    requires 1 <= a, 1 <= b, a + b <= 63, got(o, f, (a + b) as nat, data),
    ensures
        got(o, o.skip(a as int), a as nat, data >> b),
        got(o.skip(a as int), f, b as nat, (data << sub(64, b)) >> sub(64, b)),
{
    lemma_split(data, a, b);
    let v = val_bits(data, (a + b) as nat);
    assert(v.take(a as int) =~= val_bits(data >> b, a as nat));
    assert(v.skip(a as int) =~= val_bits((data << sub(64, b)) >> sub(64, b), b as nat));
    assert(o.take(a + b).take(a as int) =~= o.take(a as int));
    assert(o.take(a + b).skip(a as int) =~= o.skip(a as int).take(b as int));
    assert(o.skip(a as int).skip(b as int) =~= o.skip(a + b));
}
/// one round of the reader
proof fn lemma_read_step(res: u64, cur: u64, d: u64, ra: u64)
    requires d + ra <= 63, 1 <= ra, fits(res, d as nat),
    ensures
        val_bits((res << ra) | (cur >> sub(64, ra)), (d + ra) as nat) == val_bits(res, d as nat) + top_bits(cur, ra as nat),
        fits((res << ra) | (cur >> sub(64, ra)), (d + ra) as nat),
{
    let n = (res << ra) | (cur >> sub(64, ra));
    let t = add(d, ra);
    assert(n < (1u64 << t)) by (bit_vector)
        requires n == (res << ra) | (cur >> sub(64, ra)), d < 63, ra >= 1, ra <= 63, t == add(d, ra), t <= 63, res < (1u64 << d);
    let l = val_bits(n, (d + ra) as nat);
    let r = val_bits(res, d as nat) + top_bits(cur, ra as nat);
    assert forall|i: int| 0 <= i < d + ra implies l[i] == r[i] by {
        let j = (d + ra - 1 - i) as u64;
        if i < d {
            assert((n >> j) & 1 == (res >> sub(j, ra)) & 1) by (bit_vector)
                requires n == (res << ra) | (cur >> sub(64, ra)), j >= ra, j < 64, ra >= 1, ra < 64;
            assert(sub(j, ra) == (d - 1 - i) as u64);
        } else {
            let k = add(j, sub(64, ra));
            assert((n >> j) & 1 == (cur >> k) & 1) by (bit_vector)
                requires n == (res << ra) | (cur >> sub(64, ra)), j < ra, ra >= 1, ra < 64, k == add(j, sub(64, ra));
            assert(k == (63 - (i - d)) as u64);
        }
    }
    assert(l =~= r);
}
/// two halves of a 64 bit value
proof fn lemma_halves(high: u64, low: u64)
    requires fits(high, 32), fits(low, 32),
    ensures val_bits((high << 32u32) | low, 64) == val_bits(high, 32) + val_bits(low, 32),
{
    let n = (high << 32u32) | low;
    assert(n == (high << 32u64) | low) by (bit_vector) requires n == (high << 32u32) | low;
    let l = val_bits(n, 64);
    let r = val_bits(high, 32) + val_bits(low, 32);
    assert forall|i: int| 0 <= i < 64 implies l[i] == r[i] by {
        let j = (63 - i) as u64;
        if i < 32 {
            assert((n >> j) & 1 == (high >> sub(j, 32)) & 1) by (bit_vector) requires n == (high << 32u64) | low, j >= 32, j < 64, low < (1u64 << 32u64);
        } else {
            assert((n >> j) & 1 == (low >> j) & 1) by (bit_vector) requires n == (high << 32u64) | low, j < 32;
        }
    }
    assert(l =~= r);
}

//@ fn UnalignedReader::new props=C01
//@ spec
    ensures
        ret.wf(), ret.reader == r, ret.bits_read == 64,
        ret.view() == byte_bits(r.rest()),
//@ ret-bind
        proof { assert(ret__.view() =~= byte_bits(r.rest())); }
//@ end
//@ fn UnalignedReader::read_to_internal_storage props=C01
//@ spec
    requires old(self).bits_read == 64,
    ensures
        final(self).same_src(old(self)),
        final(self).wf(),
        ret is Ok ==> final(self).bits_read < 64 && final(self).view() == old(self).view(),
        old(self).reader.rest().len() == 0 ==> ret is Err,
        old(self).reader.reliable() && old(self).reader.rest().len() > 0 ==> ret is Ok,
//@ after `self.current_byte = UnalignedStorage::from_be_bytes`
        proof {
            let rest = old(self).reader.rest();
            let n = (64 - self.bits_read) / 8;
            let c = self.current_byte as u64;
            assert(self.reader.rest() == rest.skip(n as int));
            assert(top_bits(c, (8 * n) as nat) =~= byte_bits(rest.take(n as int))) by {
                assert forall|i: int| 0 <= i < 8 * n implies #[trigger] top_bits(c, (8 * n) as nat)[i] == byte_bits(rest.take(n as int))[i] by {
                    assert(top_bits(c, 64)[i] == byte_bits(tmp@)[i]);
                    assert(tmp@.take(n as int)[i / 8] == tmp@[i / 8]);
                }
            }
            assert(rest.take(n as int) + rest.skip(n as int) =~= rest);
            assert(old(self).view() =~= byte_bits(rest));
            assert(self.view() =~= old(self).view());
        }
//@ end
//@ fn UnalignedReader::read_bit props=C01
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_src(old(self)),
        ret matches Ok(b) ==> old(self).view().len() > 0 && b == old(self).view()[0] && final(self).view() == old(self).view().skip(1),
        old(self).reader.reliable() && old(self).view().len() > 0 ==> ret is Ok,
//@ after-let res
        let ghost mid = *self;
        proof {
            let c = self.current_byte as u64;
            let m = BIT_MASK as u64;
            assert(m == 1u64 << 63) by (bit_vector) requires m == 1u64 << 63u8;
            assert((c & m != 0) == ((c >> 63u64) & 1 == 1)) by (bit_vector) requires m == 1u64 << 63;
            assert(top_bits(c, (64 - self.bits_read) as nat)[0] == bit(c, 63));
            lemma_shl_top(c, 1, (63 - self.bits_read) as nat);
            assert(self.view()[0] == bit(c, 63));
        }
//@ tail
        proof {
            assert(self.current_byte as u64 == (mid.current_byte as u64) << 1u64);
            assert(self.view() =~= mid.view().skip(1));
        }
//@ end
//@ fn UnalignedReader::read_unaligned props=C01
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_src(old(self)),
        ret matches Ok(r) ==> got(old(self).view(), final(self).view(), mode.0 as nat, r),
        old(self).reader.reliable() && mode.0 <= 64 && old(self).view().len() >= mode.0 ==> ret is Ok,
    decreases mode.0,
//@ begin
        proof { lemma_got_zero(self.view()); }
//@ after-let low
            proof {
                lemma_halves(high, low);
                assert(high << 32u64 == high << 32u32);
                let o = old(self).view();
                assert(o.skip(32).skip(32) =~= o.skip(64));
                assert(o.take(32) + o.skip(32).take(32) =~= o.take(64));
            }
//@ before-loop 1
        proof {
            let a = old(self).view();
            assert(1u64 << 0u64 == 1) by (bit_vector);
            assert(a.skip(0) =~= a);
            assert(val_bits(0, 0) =~= a.take(0));
        }
//@ loop 1
            invariant
                self.wf(), self.same_src(old(self)),
                total_read <= mode.0 < 64,
                got(old(self).view(), self.view(), (mode.0 - total_read) as nat, res),
                old(self).reader.reliable() && old(self).view().len() >= mode.0 ==> self.view().len() >= total_read,
            decreases total_read,
//@ after-let read_ammount
            let ghost mid = *self;
            proof {
                lemma_read_step(res, self.current_byte as u64, (mode.0 - total_read) as u64, read_ammount as u64);
                lemma_shl_top(self.current_byte as u64, read_ammount as u64, (64 - self.bits_read - read_ammount) as nat);
            }
//@ loop-end 1
            proof {
                let o = old(self).view();
                let d = mode.0 - total_read - read_ammount;
                let c = mid.current_byte as u64;
                assert(self.current_byte as u64 == c << (read_ammount as u64));
                assert(top_bits(c, (64 - mid.bits_read) as nat).take(read_ammount as int) =~= top_bits(c, read_ammount as nat));
                assert(mid.view().take(read_ammount as int) =~= top_bits(c, read_ammount as nat));
                assert(self.view() =~= mid.view().skip(read_ammount as int));
                assert(o.skip(d).skip(read_ammount as int) =~= o.skip(d + read_ammount));
                assert(o.take(d) + o.skip(d).take(read_ammount as int) =~= o.take(d + read_ammount));
            }
//@ end
//@ fn UnalignedReader::read2_unaligned props=C01
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_src(old(self)),
        ret matches Ok(r) ==> {
            &&& got(old(self).view(), old(self).view().skip(mode.0 as int), mode.0 as nat, r.0)
            &&& got(old(self).view().skip(mode.0 as int), final(self).view(), mode.0 as nat, r.1)
        },
        old(self).reader.reliable() && mode.0 <= 64 && old(self).view().len() >= 2 * mode.0 ==> ret is Ok,
//@ begin
        proof { lemma_got_zero(self.view()); assert(self.view().skip(0) =~= self.view()); }
//@ after-let data
            proof { lemma_got_split(old(self).view(), self.view(), data, mode.0 as u64, mode.0 as u64); }
//@ end
//@ fn UnalignedReader::read_pair_unaligned props=C01
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_src(old(self)),
        ret matches Ok(r) ==> {
            &&& got(old(self).view(), old(self).view().skip(mode1.0 as int), mode1.0 as nat, r.0)
            &&& got(old(self).view().skip(mode1.0 as int), final(self).view(), mode2.0 as nat, r.1)
        },
        old(self).reader.reliable() && mode1.0 <= 64 && mode2.0 <= 64 && old(self).view().len() >= mode1.0 + mode2.0 ==> ret is Ok,
//@ after-let data
            proof { lemma_got_split(old(self).view(), self.view(), data, mode1.0 as u64, mode2.0 as u64); }
//@ end
//@ fn UnalignedReader::read3_unaligned props=C01
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).same_src(old(self)),
        ret matches Ok(r) ==> {
            &&& got(old(self).view(), old(self).view().skip(mode.0 as int), mode.0 as nat, r.0)
            &&& got(old(self).view().skip(mode.0 as int), old(self).view().skip(mode.0 as int).skip(mode.0 as int), mode.0 as nat, r.1)
            &&& got(old(self).view().skip(mode.0 as int).skip(mode.0 as int), final(self).view(), mode.0 as nat, r.2)
        },
        old(self).reader.reliable() && mode.0 <= 64 && old(self).view().len() >= 3 * mode.0 ==> ret is Ok,
//@ after-let data
            proof {
                let m = mode.0 as u64;
                lemma_got_split(old(self).view(), self.view(), data, m, (2 * m) as u64);
            }
//@ after-let r_23
            proof {
                let m = mode.0 as u64;
                lemma_got_split(old(self).view().skip(m as int), self.view(), r_23, m, m);
            }
//@ end
}
