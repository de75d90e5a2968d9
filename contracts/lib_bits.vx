/// Bit strings, most significant bit first.
pub mod vbits {
use vstd::prelude::*;
pub open spec fn bit(x: u64, i: int) -> bool { (x >> (i as u64)) & 1 == 1 }
/// the low n bits of x
pub open spec fn bit8(x: u8, i: int) -> bool { bit(x as u64, i) }
pub open spec fn val_bits(x: u64, n: nat) -> Seq<bool> { Seq::new(n, |i: int| bit(x, n - 1 - i)) }
/// the top n of 64 bits
pub open spec fn top_bits(x: u64, n: nat) -> Seq<bool> { Seq::new(n, |i: int| bit(x, 63 - i)) }
pub open spec fn byte_top(x: u8, n: nat) -> Seq<bool> { Seq::new(n, |i: int| bit8(x, 7 - i)) }
pub open spec fn byte_bits(s: Seq<u8>) -> Seq<bool> { Seq::new(8 * s.len(), |i: int| bit8(s[i / 8], 7 - i % 8)) }
pub open spec fn fits(x: u64, n: nat) -> bool { n >= 64 || x < (1u64 << (n as u64)) }

pub broadcast proof fn lemma_byte_bits_concat(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] byte_bits(a + b) == byte_bits(a) + byte_bits(b),
{
    assert(byte_bits(a + b) =~= byte_bits(a) + byte_bits(b)) by {
        assert forall|i: int| 0 <= i < 8 * (a.len() + b.len()) implies byte_bits(a + b)[i] == (byte_bits(a) + byte_bits(b))[i] by {
            if i >= 8 * a.len() {
                assert((i - 8 * a.len()) / 8 == i / 8 - a.len() && (i - 8 * a.len()) % 8 == i % 8) by (nonlinear_arith)
                    requires i >= 8 * a.len();
            }
        }
    }
}
pub proof fn lemma_byte_one(x: u8)
    ensures byte_bits(seq![x]) == byte_top(x, 8),
{
    assert(byte_bits(seq![x]) =~= byte_top(x, 8));
}
pub proof fn lemma_zero_byte()
    ensures forall|i: int| 0 <= i < 8 ==> !#[trigger] bit8(0, i),
{
    assert forall|i: int| 0 <= i < 8 implies !#[trigger] bit8(0, i) by { let j = i as u64; assert((0u64 >> j) & 1 == 0) by (bit_vector); }
}
/// x is determined by its bits
pub proof fn lemma_val_bits_inj(x: u64, y: u64, n: nat)
    requires n <= 64, fits(x, n), fits(y, n), val_bits(x, n) == val_bits(y, n),
    ensures x == y,
{
    assert forall|i: int| 0 <= i < 64 implies bit(x, i) == bit(y, i) by {
        let j = i as u64;
        if i < n {
            assert(val_bits(x, n)[n - 1 - i] == val_bits(y, n)[n - 1 - i]);
            assert(val_bits(x, n)[n - 1 - i] == bit(x, i));
            assert(val_bits(y, n)[n - 1 - i] == bit(y, i));
        } else {
            let m = n as u64;
            assert((x >> j) & 1 == 0) by (bit_vector) requires j < 64, m <= j, m < 64, x < (1u64 << m);
            assert((y >> j) & 1 == 0) by (bit_vector) requires j < 64, m <= j, m < 64, y < (1u64 << m);
        }
    }
    lemma_bits_eq(x, y);
}
pub proof fn lemma_bits_eq(x: u64, y: u64)
    requires forall|i: int| 0 <= i < 64 ==> bit(x, i) == bit(y, i),
    ensures x == y,
{
    if x != y {
        let d = x ^ y;
        assert(d != 0) by (bit_vector) requires d == x ^ y, x != y;
        lemma_some_bit(d);
        let i = choose|i: int| 0 <= i < 64 && bit(d, i);
        let j = i as u64;
        assert(bit(x, i) == bit(y, i));
        assert((d >> j) & 1 == 0) by (bit_vector) requires d == x ^ y, ((x >> j) & 1 == 1) == ((y >> j) & 1 == 1);
    }
}
pub proof fn lemma_some_bit(d: u64)
    requires d != 0,
    ensures exists|i: int| 0 <= i < 64 && bit(d, i),
{
    lemma_some_bit_below(d, 64);
}
pub proof fn lemma_some_bit_below(d: u64, n: u64)
    requires d != 0, n <= 64, n == 64 || d < (1u64 << n),
    ensures exists|i: int| 0 <= i < n && bit(d, i),
    decreases n,
{
    if n == 0 {
        assert(1u64 << 0u64 == 1) by (bit_vector);
    } else {
        let m = (n - 1) as u64;
        if bit(d, m as int) {
        } else {
            assert(d < (1u64 << m)) by (bit_vector) requires (d >> m) & 1 != 1, m < 64, (m == 63 || d < (1u64 << ((m + 1) as u64)));
            lemma_some_bit_below(d, m);
        }
    }
}
pub proof fn lemma_val_bits_trunc(x: u64, n: nat)
    requires n < 64,
    ensures
        fits(x & (((1u64 << (n as u64)) - 1) as u64), n),
        val_bits(x & (((1u64 << (n as u64)) - 1) as u64), n) == val_bits(x, n),
{
    let m = n as u64;
    assert(1u64 << m >= 1) by (bit_vector) requires m < 64;
    let t = ((1u64 << m) - 1) as u64;
    assert((x & t) < (1u64 << m)) by (bit_vector) requires m < 64, t == sub(1u64 << m, 1);
    assert forall|i: int| 0 <= i < n implies bit(x & t, i) == bit(x, i) by {
        let j = i as u64;
        assert((((x & t) >> j) & 1) == ((x >> j) & 1)) by (bit_vector) requires j < m, m < 64, t == sub(1u64 << m, 1);
    }
    assert(val_bits(x & t, n) =~= val_bits(x, n));
}
/// `bytes` is the shortest zero-padded byte string that holds `bits`
pub open spec fn padded(bytes: Seq<u8>, bits: Seq<bool>) -> bool {
    &&& bytes.len() == (bits.len() + 7) / 8
    &&& forall|i: int| 0 <= i < 8 * bytes.len() ==> #[trigger] byte_bits(bytes)[i] == (i < bits.len() && bits[i])
}

pub proof fn lemma_bits8_eq(x: u8, y: u8)
    requires forall|i: int| 0 <= i < 8 ==> bit8(x, i) == bit8(y, i),
    ensures x == y,
{
    assert forall|i: int| 0 <= i < 64 implies #[trigger] bit(x as u64, i) == bit(y as u64, i) by {
        let j = i as u64;
        if i < 8 {
            assert(bit8(x, i) == bit8(y, i));
        } else {
            assert(((x as u64) >> j) & 1 == 0) by (bit_vector) requires j >= 8, j < 64;
            assert(((y as u64) >> j) & 1 == 0) by (bit_vector) requires j >= 8, j < 64;
        }
    }
    lemma_bits_eq(x as u64, y as u64);
}
pub proof fn lemma_byte_bits_at(s: Seq<u8>, k: int, j: int)
    requires 0 <= k < s.len(), 0 <= j < 8,
    ensures byte_bits(s)[8 * k + j] == bit8(s[k], 7 - j),
{
    assert((8 * k + j) / 8 == k && (8 * k + j) % 8 == j);
}
/// what was packed behind whole bytes
pub proof fn lemma_padded_prefix(all: Seq<u8>, hdr: Seq<u8>, bits: Seq<bool>)
    requires padded(all, byte_bits(hdr) + bits),
    ensures
        all.len() >= hdr.len(),
        all.take(hdr.len() as int) == hdr,
        padded(all.skip(hdr.len() as int), bits),
        all == hdr + all.skip(hdr.len() as int),
{
    let n = hdr.len() as int;
    let body = all.skip(n);
    assert forall|k: int| 0 <= k < n implies all[k] == hdr[k] by {
        assert forall|i: int| 0 <= i < 8 implies bit8(all[k], i) == bit8(hdr[k], i) by {
            lemma_byte_bits_at(all, k, 7 - i);
            lemma_byte_bits_at(hdr, k, 7 - i);
            assert((byte_bits(hdr) + bits)[8 * k + 7 - i] == byte_bits(hdr)[8 * k + 7 - i]);
        }
        lemma_bits8_eq(all[k], hdr[k]);
    }
    assert(all.take(n) =~= hdr);
    assert(all =~= hdr + body);
    lemma_byte_bits_concat(hdr, body);
    assert((byte_bits(hdr) + bits).len() == 8 * n + bits.len());
    assert(body.len() == (bits.len() + 7) / 8);
    assert forall|i: int| 0 <= i < 8 * body.len() implies #[trigger] byte_bits(body)[i] == (i < bits.len() && bits[i]) by {
        let w = byte_bits(hdr) + bits;
        let k = 8 * n + i;
        assert(w.len() == 8 * n + bits.len());
        assert(byte_bits(all)[k] == byte_bits(body)[i]);
        assert(0 <= k < 8 * all.len());
        assert(byte_bits(all)[k] == (k < w.len() && w[k]));
        if i < bits.len() {
            assert(w[k] == bits[i]);
        }
    }
}
/// the concatenation of bit fields
pub open spec fn flat(s: Seq<Seq<bool>>) -> Seq<bool>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub proof fn lemma_flat_push(s: Seq<Seq<bool>>, x: Seq<bool>)
    ensures flat(s.push(x)) == flat(s) + x,
{
    assert(s.push(x).drop_last() =~= s);
}
pub open spec fn field(bits: Seq<bool>, i: int, n: nat) -> Seq<bool> { bits.subrange(i * n, (i + 1) * n) }
pub open spec fn all_len(s: Seq<Seq<bool>>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len() == n }
pub proof fn lemma_flat_len(s: Seq<Seq<bool>>, n: nat)
    requires all_len(s, n),
    ensures flat(s).len() == n * s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_flat_len(s.drop_last(), n);
        assert(n * (s.len() - 1) + n == n * s.len()) by (nonlinear_arith);
    } else {
        assert(n * s.len() == 0) by (nonlinear_arith) requires s.len() == 0;
    }
}
pub proof fn lemma_flat_field(s: Seq<Seq<bool>>, n: nat, i: int)
    requires all_len(s, n), 0 <= i < s.len(),
    ensures 0 <= i * n, (i + 1) * n <= flat(s).len(), field(flat(s), i, n) == s[i],
    decreases s.len(),
{
    lemma_flat_len(s, n);
    lemma_flat_len(s.drop_last(), n);
    assert(i * n >= 0 && (i + 1) * n == i * n + n && (i + 1) * n <= n * s.len()) by (nonlinear_arith) requires 0 <= i < s.len(), n >= 0;
    if i == s.len() - 1 {
        assert(i * n == n * (s.len() - 1)) by (nonlinear_arith) requires i == s.len() - 1;
        assert(field(flat(s), i, n) =~= s[i]);
    } else {
        lemma_flat_field(s.drop_last(), n, i);
        assert((i + 1) * n <= n * (s.len() - 1)) by (nonlinear_arith) requires i + 1 <= s.len() - 1, n >= 0;
        assert(field(flat(s), i, n) =~= field(flat(s.drop_last()), i, n));
    }
}
/// the numbers in consecutive n bit fields
pub open spec fn decoded(bits: Seq<bool>, n: nat, v: Seq<u64>) -> bool {
    &&& n <= 64
    &&& v.len() * n <= bits.len()
    &&& forall|i: int| 0 <= i < v.len() ==> val_bits(#[trigger] v[i], n) == field(bits, i, n) && fits(v[i], n)
}
pub proof fn lemma_decoded_empty(bits: Seq<bool>, n: nat)
    requires n <= 64,
    ensures decoded(bits, n, Seq::empty()), bits.skip(0) == bits,
{
    assert(bits.skip(0) =~= bits);
}
pub proof fn lemma_decoded_zeros(bits: Seq<bool>, v: Seq<u64>)
    requires forall|i: int| 0 <= i < v.len() ==> v[i] == 0,
    ensures decoded(bits, 0, v),
{
    assert(1u64 << 0u64 == 1) by (bit_vector);
    assert forall|i: int| 0 <= i < v.len() implies val_bits(#[trigger] v[i], 0) == field(bits, i, 0) && fits(v[i], 0) by {
        assert(val_bits(v[i], 0) =~= field(bits, i, 0));
    }
}
pub proof fn lemma_decoded_push(bits: Seq<bool>, n: nat, v: Seq<u64>, f: Seq<bool>, x: u64)
    requires decoded(bits, n, v), got(bits.skip((v.len() * n) as int), f, n, x),
    ensures decoded(bits, n, v.push(x)), f == bits.skip(((v.len() + 1) * n) as int), (v.len() + 1) * n <= bits.len(), v.len() * n + n == (v.len() + 1) * n,
{
    let k = v.len() as int;
    assert(k * n + n == (k + 1) * n) by (nonlinear_arith);
    assert(f =~= bits.skip((k + 1) * n));
    assert(bits.skip(k * n).take(n as int) =~= field(bits, k, n));
    assert forall|i: int| 0 <= i < v.push(x).len() implies val_bits(#[trigger] v.push(x)[i], n) == field(bits, i, n) && fits(v.push(x)[i], n) by {
        if i < k {
            assert(v.push(x)[i] == v[i]);
        }
    }
}
/// reading n bits from o gave r and left f
pub open spec fn got(o: Seq<bool>, f: Seq<bool>, n: nat, r: u64) -> bool {
    &&& n <= 64 && n <= o.len()
    &&& val_bits(r, n) == o.take(n as int)
    &&& fits(r, n)
    &&& f == o.skip(n as int)
}
/// Decoding what was packed gives the packed numbers.
pub proof fn lemma_pack_unpack(body: Seq<u8>, tail: Seq<u8>, recs: Seq<Seq<bool>>, n: nat, v: Seq<u64>, w: Seq<u64>)
    requires
        n <= 64, recs.len() == v.len(), v.len() == w.len(),
        padded(body, flat(recs)),
        decoded(byte_bits(body + tail), n, v),
        forall|i: int| 0 <= i < w.len() ==> #[trigger] recs[i] == val_bits(w[i], n) && fits(w[i], n),
    ensures v == w,
{
    assert(all_len(recs, n));
    lemma_flat_len(recs, n);
    lemma_byte_bits_concat(body, tail);
    let all = byte_bits(body + tail);
    assert forall|i: int| 0 <= i < w.len() implies v[i] == w[i] by {
        lemma_flat_field(recs, n, i);
        assert(recs[i] == val_bits(w[i], n));
        assert(flat(recs).len() <= 8 * body.len());
        assert(flat(recs).len() <= all.len());
        assert(i * n <= (i + 1) * n) by (nonlinear_arith) requires i >= 0, n >= 0;
        assert forall|k: int| 0 <= k < flat(recs).len() implies all[k] == flat(recs)[k] by {
            assert(byte_bits(body)[k] == (k < flat(recs).len() && flat(recs)[k]));
        }
        let a = field(all, i, n);
        let b = field(flat(recs), i, n);
        assert(a.len() == b.len());
        assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by {
            assert(a[j] == all[i * n + j]);
            assert(b[j] == flat(recs)[i * n + j]);
        }
        assert(a =~= b);
        lemma_val_bits_inj(v[i], w[i], n);
    }
    assert(v =~= w);
}
// ---------------------------------------------------------------- records
/// the first n bits, then the rest, cut into records of n bits
pub proof fn lemma_flat_inj(a: Seq<Seq<bool>>, ra: Seq<bool>, b: Seq<Seq<bool>>, rb: Seq<bool>, n: nat)
    requires flat(a) + ra == flat(b) + rb, all_len(a, n), all_len(b, n), a.len() == b.len(),
    ensures a == b, ra == rb,
    decreases a.len(),
{
    lemma_flat_len(a, n);
    lemma_flat_len(b, n);
    let x = flat(a) + ra;
    assert(x.take(flat(a).len() as int) =~= flat(a));
    assert(x.take(flat(a).len() as int) =~= flat(b));
    assert(ra =~= x.skip(flat(a).len() as int));
    assert(rb =~= x.skip(flat(a).len() as int));
    if a.len() > 0 {
        let p = a.drop_last();
        let q = b.drop_last();
        assert(flat(p) + a.last() == flat(q) + b.last());
        lemma_flat_inj(p, a.last(), q, b.last(), n);
        assert(a =~= p.push(a.last()));
        assert(b =~= q.push(b.last()));
    } else {
        assert(a =~= b);
    }
}
/// `got` in terms of concatenation
pub proof fn lemma_got_cat(o: Seq<bool>, f: Seq<bool>, n: nat, r: u64)
    requires got(o, f, n, r),
    ensures o == val_bits(r, n) + f,
{
    assert(o =~= val_bits(r, n) + f);
}
pub proof fn lemma_one_bit(b: bool)
    ensures val_bits(b as u64, 1) == seq![b], fits(b as u64, 1),
{
    let x = b as u64;
    assert((x >> 0u64) & 1 == x) by (bit_vector) requires x <= 1;
    assert(1u64 << 1u64 == 2) by (bit_vector);
    assert(val_bits(x, 1)[0] == bit(x, 0));
    assert(val_bits(x, 1) =~= seq![b]);
}
pub proof fn lemma_cat_split(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>, d: Seq<bool>)
    requires a + b == c + d, a.len() == c.len(),
    ensures a == c, b == d,
{
    let x = a + b;
    assert(x.take(a.len() as int) =~= a);
    assert(x.take(a.len() as int) =~= c);
    assert(x.skip(a.len() as int) =~= b);
    assert(x.skip(a.len() as int) =~= d);
}
/// the body starts with what was packed into it
pub proof fn lemma_padded_cat(body: Seq<u8>, tail: Seq<u8>, bits: Seq<bool>)
    requires padded(body, bits),
    ensures byte_bits(body + tail) == bits + byte_bits(body + tail).skip(bits.len() as int), byte_bits(body + tail).len() >= bits.len(),
{
    let all = byte_bits(body + tail);
    lemma_byte_bits_concat(body, tail);
    assert forall|i: int| 0 <= i < bits.len() implies all[i] == bits[i] by {
        assert(byte_bits(body)[i] == bits[i]);
    }
    assert(all =~= bits + all.skip(bits.len() as int));
}
/// what was packed and what was read are the same records
pub proof fn lemma_records(body: Seq<u8>, tail: Seq<u8>, a: Seq<Seq<bool>>, b: Seq<Seq<bool>>, rest: Seq<bool>, n: nat)
    requires padded(body, flat(a)), byte_bits(body + tail) == flat(b) + rest, all_len(a, n), all_len(b, n), a.len() == b.len(),
    ensures a == b,
{
    lemma_padded_cat(body, tail, flat(a));
    lemma_flat_inj(a, byte_bits(body + tail).skip(flat(a).len() as int), b, rest, n);
}

/// numbers as n bit fields
pub open spec fn vrecs(ks: Seq<u64>, n: nat) -> Seq<Seq<bool>> { Seq::new(ks.len(), |i: int| val_bits(ks[i], n)) }
pub proof fn lemma_vrecs_push(ks: Seq<u64>, n: nat, k: u64)
    ensures flat(vrecs(ks.push(k), n)) == flat(vrecs(ks, n)) + val_bits(k, n),
{
    assert(vrecs(ks.push(k), n) =~= vrecs(ks, n).push(val_bits(k, n)));
    lemma_flat_push(vrecs(ks, n), val_bits(k, n));
}
pub proof fn lemma_vrecs_len(ks: Seq<u64>, n: nat)
    ensures flat(vrecs(ks, n)).len() == ks.len() * n,
{
    lemma_flat_len(vrecs(ks, n), n);
    assert(ks.len() * n == n * ks.len()) by (nonlinear_arith);
}
/// reading n bit fields from bytes that start with packed n bit fields
pub proof fn lemma_vrecs_read(body: Seq<u8>, tail: Seq<u8>, ks: Seq<u64>, n: nat, v: Seq<u64>)
    requires
        n <= 64, ks.len() == v.len(), padded(body, flat(vrecs(ks, n))), decoded(byte_bits(body + tail), n, v),
        forall|i: int| 0 <= i < ks.len() ==> fits(#[trigger] ks[i], n),
    ensures v == ks,
{
    let recs = vrecs(ks, n);
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] recs[i] == val_bits(ks[i], n) && fits(ks[i], n) by {}
    lemma_pack_unpack(body, tail, recs, n, v, ks);
}
}
