//! C01
use super::*;
use crate::ensure;
use crate::fmt::*;
use tmf::unaligned_rw::*;
pub fn kinds() -> Vec<Kind> {
    vec![
        Kind { name: "write_offset_width", f: write_grid, quick: 64 * 65, thorough: 64 * 65 * 4 },
        Kind { name: "read_offset_width", f: read_grid, quick: 64 * 65, thorough: 64 * 65 * 4 },
        Kind { name: "pair_grid", f: pair_grid, quick: 65 * 65, thorough: 65 * 65 * 8 },
        Kind { name: "histories", f: history, quick: 60_000, thorough: 3_000_000 },
    ]
}
fn mode(b: u8) -> UnalignedRWMode {
    UnalignedRWMode::precision_bits(b)
}
fn mask(b: u8, v: u64) -> u64 {
    if b == 0 {
        0
    } else if b >= 64 {
        v
    } else {
        v & ((1 << b) - 1)
    }
}
fn write_all(vals: &[(u8, u64)], one_bit: bool) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    {
        let mut w = UnalignedWriter::new(&mut out);
        for (b, v) in vals {
            let res = if *b == 1 && one_bit { w.write_bit(*v & 1 == 1) } else { w.write_unaligned(mode(*b), *v) };
            res.map_err(|e| format!("writing to a Vec failed: {e}"))?;
        }
    }
    Ok(out)
}
fn expect(vals: &[(u8, u64)]) -> Vec<u8> {
    let mut s = BitSink::default();
    for (b, v) in vals {
        s.put(*b, mask(*b, *v));
    }
    s.bytes()
}
/// Writes a value of every width at every bit offset.
fn write_grid(cx: &mut Cx) -> R {
    let off = (cx.idx % 64) as u8;
    let w = (cx.idx / 64 % 65) as u8;
    let vals = vec![(off, cx.rng.u64()), (w, cx.rng.u64()), (w, u64::MAX), (w, cx.rng.u64()), (3, cx.rng.u64())];
    cx.key = hash(&[off as u64, w as u64, vals[1].1]);
    cx.input = format!("write (width, value): {vals:?}");
    let out = write_all(&vals, cx.idx & 1 == 0)?;
    let e = expect(&vals);
    ensure!(out == e, "wrote {out:02x?}, expected {e:02x?}");
    Ok(())
}
fn read_grid(cx: &mut Cx) -> R {
    let off = (cx.idx % 64) as u8;
    let w = (cx.idx / 64 % 65) as u8;
    let vals: Vec<(u8, u64)> = vec![(off, cx.rng.u64()), (w, cx.rng.u64()), (w, u64::MAX), (w, cx.rng.u64()), (9, cx.rng.u64())];
    cx.key = hash(&[off as u64, w as u64, vals[1].1]);
    let bytes = expect(&vals);
    let sizes = chunks(&mut cx.rng);
    cx.input = format!("read widths {:?} from {bytes:02x?} delivered in chunks {sizes:?}", vals.iter().map(|x| x.0).collect::<Vec<_>>());
    let mut r = UnalignedReader::new(Chunky::new(&bytes, sizes));
    for (b, v) in &vals {
        let got = r.read_unaligned(mode(*b)).map_err(|e| format!("reading width {b} failed: {e}"))?;
        ensure!(got == mask(*b, *v), "read {got:#x} at width {b}, expected {:#x}", mask(*b, *v));
    }
    let used: usize = vals.iter().map(|x| x.0 as usize).sum();
    let left = bytes.len() * 8 - used;
    // the rest of the last byte is zero, past it there is nothing
    let got = r.read_unaligned(mode(left as u8)).map_err(|e| format!("reading the padding failed: {e}"))?;
    ensure!(got == 0, "padding is {got}");
    ensure!(r.read_bit().is_err(), "read_bit invented a bit past the end");
    ensure!(r.read_unaligned(mode(w.max(1))).is_err(), "read_unaligned({}) invented bits past the end", w.max(1));
    Ok(())
}
fn pair_grid(cx: &mut Cx) -> R {
    let a = (cx.idx % 65) as u8;
    let b = (cx.idx / 65 % 65) as u8;
    let off = cx.rng.below(64) as u8;
    let v: Vec<(u8, u64)> = vec![
        (off, cx.rng.u64()),
        (a, cx.rng.u64()),
        (b, cx.rng.u64()),
        (a, cx.rng.u64()),
        (a, cx.rng.u64()),
        (b, cx.rng.u64()),
        (b, cx.rng.u64()),
        (b, cx.rng.u64()),
        (7, cx.rng.u64()),
    ];
    cx.key = hash(&[a as u64, b as u64, v[1].1]);
    let bytes = expect(&v);
    let sizes = chunks(&mut cx.rng);
    cx.input = format!("offset {off}: pair ({a},{b}), read2 {a}, read3 {b} from {bytes:02x?} in chunks {sizes:?}");
    let mut r = UnalignedReader::new(Chunky::new(&bytes, sizes));
    let m: Vec<u64> = v.iter().map(|(b, v)| mask(*b, *v)).collect();
    let er = |e: std::io::Error| format!("read failed: {e}");
    ensure!(r.read_unaligned(mode(off)).map_err(er)? == m[0], "prefix");
    let p = r.read_pair_unaligned(mode(a), mode(b)).map_err(er)?;
    ensure!(p == (m[1], m[2]), "read_pair({a},{b}) gave {p:x?}, expected {:x?}", (m[1], m[2]));
    let p = r.read2_unaligned(mode(a)).map_err(er)?;
    ensure!(p == (m[3], m[4]), "read2({a}) gave {p:x?}, expected {:x?}", (m[3], m[4]));
    let p = r.read3_unaligned(mode(b)).map_err(er)?;
    ensure!(p == (m[5], m[6], m[7]), "read3({b}) gave {p:x?}, expected {:x?}", (m[5], m[6], m[7]));
    let p = r.read_unaligned(mode(7)).map_err(er)?;
    ensure!(p == m[8], "the value after the grouped reads is {p}, expected {}", m[8]);
    Ok(())
}
fn history(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.range(1, 30);
    // (call, widths)
    let mut calls: Vec<(u8, Vec<u8>)> = Vec::new();
    let mut vals: Vec<(u8, u64)> = Vec::new();
    for _ in 0..n {
        let w = match r.below(5) {
            0 => r.pick(&[0u8, 1, 7, 8, 9, 31, 32, 33, 63, 64, 21, 22, 16, 24]),
            1 => r.range(0, 8) as u8,
            _ => r.range(0, 64) as u8,
        };
        let c = r.below(5) as u8;
        let ws = match c {
            0 => vec![w],
            1 => vec![1],
            2 => vec![w, w],
            3 => vec![w, w, w],
            _ => vec![w, r.range(0, 64) as u8],
        };
        for x in &ws {
            let v = match r.below(4) {
                0 => u64::MAX,
                1 => r.logu64(),
                2 => 1u64 << r.below(64),
                _ => r.u64(),
            };
            vals.push((*x, v));
        }
        calls.push((c, ws));
    }
    cx.key = hash(&vals.iter().flat_map(|x| [x.0 as u64, x.1]).collect::<Vec<_>>());
    let sizes = chunks(r);
    let one_bit = r.bool();
    cx.input = format!("values {vals:x?} read by {calls:?} (0 single, 1 bit, 2 two, 3 three, 4 pair) in chunks {sizes:?}");
    let bytes = write_all(&vals, one_bit)?;
    let e = expect(&vals);
    ensure!(bytes == e, "wrote {bytes:02x?}, expected {e:02x?}");
    let mut rd = UnalignedReader::new(Chunky::new(&bytes, sizes.clone()));
    let er = |e: std::io::Error| format!("read failed: {e}");
    let mut i = 0;
    for (c, ws) in &calls {
        let got = match c {
            0 => vec![rd.read_unaligned(mode(ws[0])).map_err(er)?],
            1 => vec![rd.read_bit().map_err(er)? as u64],
            2 => {
                let x = rd.read2_unaligned(mode(ws[0])).map_err(er)?;
                vec![x.0, x.1]
            }
            3 => {
                let x = rd.read3_unaligned(mode(ws[0])).map_err(er)?;
                vec![x.0, x.1, x.2]
            }
            _ => {
                let x = rd.read_pair_unaligned(mode(ws[0]), mode(ws[1])).map_err(er)?;
                vec![x.0, x.1]
            }
        };
        for (k, g) in got.iter().enumerate() {
            let want = mask(ws[k], vals[i].1);
            ensure!(*g == want, "call {c} widths {ws:?} value {k}: read {g:#x}, expected {want:#x}");
            i += 1;
        }
    }
    // cut: reading the same widths from a shorter file fails before anything wrong is returned
    if !bytes.is_empty() {
        let cut = cx.rng.below(bytes.len());
        let mut rd = UnalignedReader::new(Chunky::new(&bytes[..cut], sizes));
        let mut bits = 0usize;
        for (w, v) in &vals {
            bits += *w as usize;
            match rd.read_unaligned(mode(*w)) {
                Ok(g) => {
                    ensure!(bits <= cut * 8, "read {bits} bits from {cut} bytes");
                    ensure!(g == mask(*w, *v), "cut file: {g:#x} != {:#x}", mask(*w, *v));
                }
                Err(_) => {
                    ensure!(bits > cut * 8, "reading bit {bits} of {cut} bytes failed");
                    break;
                }
            }
        }
    }
    Ok(())
}
