//! Properties of whole files: C02, C03, C07, C14, C15, C17, C18.
use super::*;
use crate::ensure;
use crate::fmt::*;
use crate::gen;
use crate::gen::Opt;

fn prec() -> TMFPrecisionInfo {
    TMFPrecisionInfo::default()
}
fn dummy_vertices(n: usize) -> Vec<Vector3> {
    (0..n).map(|i| (i as f32, 1.0, 2.0)).collect()
}
fn set_ix(m: &mut TMFMesh, k: usize, v: Vec<u32>) {
    match k {
        0 => m.set_vertex_triangles(v),
        1 => m.set_normal_triangles(v),
        2 => m.set_uv_triangles(v),
        _ => m.set_tangent_triangles(v),
    };
}
fn get_ix(m: &TMFMesh, k: usize) -> Option<&[u32]> {
    match k {
        0 => m.get_vertex_triangles(),
        1 => m.get_normal_triangles(),
        2 => m.get_uv_triangles(),
        _ => m.get_tangent_triangles(),
    }
}
const IXN: [&str; 4] = ["vertex triangles", "normal triangles", "UV triangles", "tangent triangles"];
fn same_ix(what: &str, a: Option<&[u32]>, b: Option<&[u32]>) -> R {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "{what}: {} indices became {}", a.len(), b.len());
            if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
                return Err(format!("{what}: index {i} was {} and became {}", a[i], b[i]));
            }
            Ok(())
        }
        (a, b) => Err(format!("{what}: presence changed from {} to {}", a.is_some(), b.is_some())),
    }
}
// ---------------------------------------------------------------- C02
pub fn c02() -> Vec<Kind> {
    vec![
        Kind { name: "triangles", f: c02_triangles, quick: 8_000, thorough: 250_000 },
        Kind { name: "custom", f: c02_custom, quick: 20_000, thorough: 600_000 },
        Kind { name: "widths", f: c02_widths, quick: 33 * 33 * 6, thorough: 33 * 33 * 60 },
        Kind { name: "long", f: c02_long, quick: 60, thorough: 1_500 },
    ]
}
/// An index array; no vertices are needed to save it.
fn ix_array(r: &mut Rng, big: usize) -> Vec<u32> {
    let n = gen::any_len(r, big);
    let hi = gen::edge_u32(r);
    let mut v = gen::indices(r, n, hi);
    if r.chance(30) {
        // the same, shifted up
        let off = r.logu32();
        for x in v.iter_mut() {
            *x = x.saturating_add(off);
        }
    }
    if !v.is_empty() && r.chance(20) {
        let i = r.below(v.len());
        v[i] = gen::edge_u32(r);
    }
    v
}
fn c02_triangles(cx: &mut Cx) -> R {
    let mut m = TMFMesh::empty();
    let mut ks = vec![];
    for k in 0..4 {
        if cx.rng.chance(60) {
            let v = ix_array(&mut cx.rng, 150);
            ks.extend(v.iter().map(|x| *x as u64 + 1));
            ks.push(0);
            set_ix(&mut m, k, v);
        }
    }
    cx.key = hash(&ks);
    cx.nontrivial = ks.len() > 4;
    cx.input = gen::describe(&m);
    let back = load1(&save1(&m, &prec())?)?;
    for k in 0..4 {
        same_ix(IXN[k], get_ix(&m, k), get_ix(&back, k))?;
    }
    Ok(())
}
fn custom_ix(cx: &mut Cx, vals: Vec<u32>, max: usize, intg: bool) -> R {
    cx.key = hash(&vals.iter().map(|x| *x as u64).chain([max as u64, intg as u64]).collect::<Vec<_>>());
    cx.nontrivial = !vals.is_empty();
    cx.input = format!("custom {} declared maximum {max}: {vals:?}", if intg { "integers" } else { "indices" });
    let mut m = TMFMesh::empty();
    let d = if intg { CustomData::CustomIntiger(vals.clone().into(), max) } else { CustomData::CustomIndex(vals.clone().into(), max) };
    m.add_custom_data(d, "data").map_err(|_| "a valid name was refused")?;
    let back = load1(&save1(&m, &prec())?)?;
    let got = back.lookup_custom_data("data").ok_or("custom data lost")?;
    let got = if intg { got.as_intiger() } else { got.as_index() }.ok_or("custom data changed its kind")?.0;
    same_ix("custom data", Some(&vals), Some(got))
}
fn c02_custom(cx: &mut Cx) -> R {
    let v = ix_array(&mut cx.rng, 150);
    let max = match cx.rng.below(5) {
        0 => 0,
        1 => usize::MAX,
        2 => v.iter().max().copied().unwrap_or(0) as usize,
        3 => v.iter().min().copied().unwrap_or(0) as usize,
        _ => cx.rng.logu64() as usize,
    };
    let i = cx.rng.bool();
    custom_ix(cx, v, max, i)
}
fn c02_widths(cx: &mut Cx) -> R {
    // every pair (bit length of the smallest value, bit length of the span)
    let (a, b) = ((cx.idx % 33) as u32, (cx.idx / 33 % 33) as u32);
    let of = |b: u32| if b == 0 { 0u64 } else { 1u64 << (b - 1) };
    let adj = |r: &mut Rng, x: u64| match r.below(3) {
        0 => x,
        1 => x.saturating_sub(1),
        _ => x * 2 - if x > 0 { 1 } else { 0 },
    };
    let lo = adj(&mut cx.rng, of(a)).min(u32::MAX as u64);
    let span = adj(&mut cx.rng, of(b));
    let hi = (lo + span).min(u32::MAX as u64);
    let n = cx.rng.range(1, 9);
    let mut v: Vec<u32> = (0..n).map(|_| (lo + cx.rng.u64() % (hi - lo + 1)) as u32).collect();
    let (i, j) = (cx.rng.below(n), cx.rng.below(n));
    v[i] = hi as u32;
    v[j] = lo as u32;
    if cx.rng.bool() {
        let mx = cx.rng.pick(&[0, hi as usize, lo as usize, usize::MAX]);
        let i = cx.rng.bool();
        return custom_ix(cx, v, mx, i);
    }
    cx.key = hash(&v.iter().map(|x| *x as u64).collect::<Vec<_>>());
    cx.input = format!("triangles {v:?}");
    let k = cx.rng.below(4);
    let mut m = TMFMesh::empty();
    set_ix(&mut m, k, v);
    let back = load1(&save1(&m, &prec())?)?;
    for k in 0..4 {
        same_ix(IXN[k], get_ix(&m, k), get_ix(&back, k))?;
    }
    Ok(())
}
fn c02_long(cx: &mut Cx) -> R {
    let n = cx.rng.range(5_000, 60_000);
    let mx = gen::edge_u32(&mut cx.rng);
    let v = gen::indices(&mut cx.rng, n, mx);
    cx.key = hash(&v.iter().map(|x| *x as u64).collect::<Vec<_>>());
    cx.input = format!("{n} indices up to {mx}");
    let k = cx.rng.below(4);
    let mut m = TMFMesh::empty();
    set_ix(&mut m, k, v);
    let back = load1(&save1(&m, &prec())?)?;
    same_ix(IXN[k], get_ix(&m, k), get_ix(&back, k))
}
// ---------------------------------------------------------------- C03
pub fn c03() -> Vec<Kind> {
    vec![
        Kind { name: "index_splits", f: c03_index, quick: 4_000, thorough: 120_000 },
        Kind { name: "vertex_splits", f: c03_vertex, quick: 3_000, thorough: 80_000 },
        Kind { name: "custom_order", f: c03_custom, quick: 4_000, thorough: 120_000 },
        Kind { name: "meshes", f: c03_mesh, quick: 2_000, thorough: 60_000 },
    ]
}
/// Runs of very different magnitudes, so that splitting pays off.
fn runs(r: &mut Rng) -> Vec<u32> {
    let mut v = Vec::new();
    for _ in 0..r.range(1, 6) {
        let lo = r.logu32();
        let w = r.logu32() >> r.below(32);
        let n = r.pick(&[1, 2, 3, 30, 60, 100, 300]);
        for _ in 0..n {
            v.push(lo.saturating_add((r.u64() % (w as u64 + 1)) as u32));
        }
    }
    v
}
fn c03_index(cx: &mut Cx) -> R {
    let mut m = TMFMesh::empty();
    let base = runs(&mut cx.rng);
    let other = runs(&mut cx.rng);
    // which arrays are equal
    let pattern = cx.rng.below(256);
    let mut key = vec![];
    for k in 0..4 {
        let v = match (pattern >> (2 * k)) & 3 {
            0 => continue,
            1 => base.clone(),
            2 => other.clone(),
            _ => match cx.rng.below(4) {
                0 => vec![],
                1 => {
                    // almost equal
                    let mut v = base.clone();
                    let i = cx.rng.below(v.len());
                    v[i] ^= 1;
                    v
                }
                2 => base[..base.len() - 1].to_vec(),
                _ => runs(&mut cx.rng),
            },
        };
        key.push(k as u64);
        key.extend(v.iter().map(|x| *x as u64));
        set_ix(&mut m, k, v);
    }
    if m.get_vertex_triangles().is_none() && cx.rng.chance(30) {
        m.set_vertices(dummy_vertices(3));
    }
    cx.key = hash(&key);
    cx.nontrivial = !key.is_empty();
    cx.input = gen::describe(&m);
    let bytes = save1(&m, &prec())?;
    let back = load1(&bytes)?;
    for k in 0..4 {
        same_ix(IXN[k], get_ix(&m, k), get_ix(&back, k))?;
    }
    ensure!(back.get_vertices().map(|v| v.len()) == m.get_vertices().map(|v| v.len()), "vertices appeared or vanished");
    ensure!(back.get_normals().is_none() && back.get_uvs().is_none() && back.get_tangents().is_none(), "data arrays appeared from nowhere");
    Ok(())
}
fn c03_vertex(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut v: Vec<Vector3> = Vec::new();
    for _ in 0..r.range(1, 5) {
        let s = gen::scale(r, false);
        let n = r.pick(&[1, 2, 3, 40, 120, 400]);
        let off = if r.bool() { (0.0, 0.0, 0.0) } else { (r.f(-s, s), r.f(-s, s), r.f(-s, s)) };
        for _ in 0..n {
            v.push((r.f(-s, s) + off.0, r.f(-s, s) + off.1, r.f(-s, s) + off.2));
        }
    }
    let extra = r.bool();
    cx.key = hash(&v.iter().map(|x| x.0.to_bits() as u64).collect::<Vec<_>>());
    cx.input = format!("{} vertices: {v:?}", v.len());
    let mut m = TMFMesh::empty();
    m.set_vertices(v.clone());
    if extra {
        m.set_vertex_triangles(vec![0, (v.len() - 1) as u32, 0]);
    }
    super::quant::check_vertices(&v, m.get_vertex_triangles(), 0.05)?;
    let back = load1(&save1(&m, &prec())?)?;
    same_ix("vertex triangles", m.get_vertex_triangles(), back.get_vertex_triangles())
}
fn c03_custom(cx: &mut Cx) -> R {
    // custom segments in order, with the same name several times
    let n = cx.rng.range(1, 8);
    let mut m = TMFMesh::empty();
    let mut want: Vec<(u16, String, usize)> = Vec::new();
    let mut first: std::collections::HashMap<String, CustomData> = Default::default();
    for i in 0..n {
        let nm = format!("n{}", cx.rng.below(4));
        let d = gen::custom(&mut cx.rng, 40);
        let (k, len) = match &d {
            CustomData::CustomIndex(v, _) => (CI, v.len()),
            CustomData::CustomIntiger(v, _) => (CN, v.len()),
            CustomData::CustomFloat(v, _) => (CF, v.len()),
            CustomData::CustomColorRGBA(v, _) => (CC, v.len()),
        };
        cx.input += &format!("{i}: {nm} {d:?}; ");
        want.push((k, nm.clone(), len));
        first.entry(nm.clone()).or_insert(d.clone());
        m.add_custom_data(d, &nm).map_err(|_| "name refused")?;
    }
    if cx.rng.bool() {
        let (a, b, c) = (runs(&mut cx.rng), runs(&mut cx.rng), runs(&mut cx.rng));
        m.set_vertex_triangles(a.clone());
        // no vertices, so nothing to be out of range of
        m.set_normal_triangles(if cx.rng.bool() { a } else { b });
        m.set_uv_triangles(c);
    }
    cx.key = hash_bytes(cx.input.as_bytes());
    let bytes = save1(&m, &prec())?;
    let f = parse(&bytes).ok_or("the saved file is not a well-formed TMF file")?;
    let got: Vec<(u16, String, usize)> = f.meshes[0]
        .segs
        .iter()
        .filter(|s| [CI, CN, CF, CC].contains(&s.kind))
        .map(|s| {
            let l = s.data[0] as usize;
            let at = count_field(s.kind, &s.data).unwrap();
            let n = u64::from_le_bytes(s.data[at..at + 8].try_into().unwrap()) as usize;
            (s.kind, String::from_utf8_lossy(&s.data[1..1 + l]).to_string(), n)
        })
        .collect();
    ensure!(got == want, "custom segments were saved as {got:?} instead of {want:?}");
    let back = load1(&bytes)?;
    for (nm, d) in &first {
        let g = back.lookup_custom_data(nm).ok_or(format!("custom data {nm} lost"))?;
        match (d, g) {
            (CustomData::CustomIndex(a, _), CustomData::CustomIndex(b, _)) => same_ix(nm, Some(a), Some(b))?,
            (CustomData::CustomIntiger(a, _), CustomData::CustomIntiger(b, _)) => same_ix(nm, Some(a), Some(b))?,
            (CustomData::CustomFloat(a, _), CustomData::CustomFloat(b, _)) => ensure!(a.len() == b.len(), "{nm} changed its length"),
            (CustomData::CustomColorRGBA(a, _), CustomData::CustomColorRGBA(b, _)) => {
                ensure!(a.len() == b.len(), "{nm} changed its length")
            }
            (a, b) => return Err(format!("the first data called {nm} was {a:?}, after loading it is {b:?}")),
        }
    }
    // Loading and saving again keeps the order of segments: compare with what the second file holds.
    let bytes2 = save1(&back, &prec())?;
    let f2 = parse(&bytes2).ok_or("the second file is not well-formed")?;
    let ord = |f: &FileRec| -> Vec<(u16, Vec<u8>)> {
        f.meshes[0].segs.iter().filter(|s| [CI, CN, CF, CC].contains(&s.kind)).map(|s| (s.kind, s.data[..1 + s.data[0] as usize].to_vec())).collect()
    };
    ensure!(ord(&f) == ord(&f2), "loading changed the order of custom segments");
    Ok(())
}
fn c03_mesh(cx: &mut Cx) -> R {
    let m = gen::valid_mesh(&mut cx.rng, Opt { big: 400, extreme: false, custom: true, p: 75, equal_len: false });
    cx.key = gen::mesh_hash(&m, true);
    cx.input = gen::describe(&m);
    let back = load1(&save1(&m, &prec())?)?;
    counts(&m, &back)?;
    for k in 0..4 {
        same_ix(IXN[k], get_ix(&m, k), get_ix(&back, k))?;
    }
    // order of data elements: every element must come back close to where it was
    if let (Some(a), Some(b)) = (m.get_uvs(), back.get_uvs()) {
        for (i, (a, b)) in a.iter().zip(b).enumerate() {
            ensure!((a.0 - b.0).abs() < 0.01 && (a.1 - b.1).abs() < 0.01, "UV {i} was {a:?} and became {b:?}");
        }
    }
    if let (Some(a), Some(b)) = (m.get_normals(), back.get_normals()) {
        for (i, (a, b)) in a.iter().zip(b).enumerate() {
            ensure!((a.2 - b.2).abs() < 0.15, "normal {i} was {a:?} and became {b:?}");
        }
    }
    Ok(())
}
fn counts(m: &TMFMesh, b: &TMFMesh) -> R {
    let c = |m: &TMFMesh| {
        [
            m.get_vertices().map(|x| x.len()),
            m.get_normals().map(|x| x.len()),
            m.get_uvs().map(|x| x.len()),
            m.get_tangents().map(|x| x.len()),
            m.get_vertex_triangles().map(|x| x.len()),
            m.get_normal_triangles().map(|x| x.len()),
            m.get_uv_triangles().map(|x| x.len()),
            m.get_tangent_triangles().map(|x| x.len()),
        ]
    };
    ensure!(
        c(m) == c(b),
        "array lengths (vertices, normals, UVs, tangents and their triangles) changed from {:?} to {:?}",
        c(m),
        c(b)
    );
    Ok(())
}
// ---------------------------------------------------------------- C07
pub fn c07() -> Vec<Kind> {
    vec![
        Kind { name: "mutated", f: c07_mutated, quick: 12_000, thorough: 500_000 },
        Kind { name: "segments", f: c07_segments, quick: 20_000, thorough: 900_000 },
        Kind { name: "noise", f: c07_noise, quick: 8_000, thorough: 300_000 },
        Kind { name: "limits", f: c07_limits, quick: 6_000, thorough: 60_000 },
    ]
}
const LIMIT: u64 = 0x8000_0000;
/// Declared lengths far below the limit but with huge allocations would only cost memory; move them to either side.
fn tame(n: u64, r: &mut Rng) -> u64 {
    if n > 1 << 16 && n <= LIMIT {
        if r.bool() {
            n % (1 << 16)
        } else {
            LIMIT + 1 + n
        }
    } else {
        n
    }
}
/// Makes all declared counts in a file harmless for memory. Also returns whether it parses at all.
fn tame_file(bytes: &[u8], r: &mut Rng) -> Vec<u8> {
    // walk the file as the format says and rewrite counts in place
    let mut b = bytes.to_vec();
    let mut p = 11usize;
    if b.len() < 15 {
        return b;
    }
    let old = u16::from_le_bytes([b[9], b[10]]) <= 1;
    let n = u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
    p += 4;
    'outer: for _ in 0..n {
        if p + 2 > b.len() {
            break;
        }
        p += 2 + u16::from_le_bytes([b[p], b[p + 1]]) as usize;
        if p + 2 > b.len() {
            break;
        }
        let sc = u16::from_le_bytes([b[p], b[p + 1]]);
        p += 2;
        for _ in 0..sc {
            let (kind, len, hdr) = if old {
                if p + 11 > b.len() {
                    break 'outer;
                }
                let l = u64::from_le_bytes(b[p + 2..p + 10].try_into().unwrap());
                let t = tame(l, r);
                b[p + 2..p + 10].copy_from_slice(&t.to_le_bytes());
                (u16::from_le_bytes([b[p], b[p + 1]]), t, 11)
            } else {
                if p + 6 > b.len() {
                    break 'outer;
                }
                let l = u32::from_le_bytes(b[p + 1..p + 5].try_into().unwrap());
                let t = tame(l as u64, r).min(u32::MAX as u64);
                b[p + 1..p + 5].copy_from_slice(&(t as u32).to_le_bytes());
                (b[p] as u16, t, 6)
            };
            p += hdr;
            if len > (b.len() - p) as u64 {
                break 'outer;
            }
            let len = len as usize;
            if let Some(at) = count_field(kind, &b[p..p + len]) {
                if at + 8 <= len {
                    let q = p + at;
                    let c = u64::from_le_bytes(b[q..q + 8].try_into().unwrap());
                    let t = tame(c, r);
                    b[q..q + 8].copy_from_slice(&t.to_le_bytes());
                }
            }
            p += len;
        }
    }
    b
}
fn outcome(b: &[u8]) -> Result<u64, ()> {
    match TMFMesh::read_tmf(&mut &b[..]) {
        Ok(v) => {
            let mut h = vec![v.len() as u64];
            for (m, n) in &v {
                h.push(hash_bytes(n.as_bytes()));
                h.push(gen::mesh_hash(m, true));
                for nm in CUSTOM_NAMES {
                    h.push(m.lookup_custom_data(nm).map_or(0, gen::custom_hash));
                }
            }
            Ok(hash(&h))
        }
        Err(_) => Err(()),
    }
}
const CUSTOM_NAMES: [&str; 4] = ["a", "bb", "data", ""];
fn untrusted(cx: &mut Cx, b: Vec<u8>) -> R {
    let b = tame_file(&b, &mut cx.rng);
    cx.key = hash_bytes(&b);
    cx.input = format!("bytes {}", hex(&b));
    cx.nontrivial = b.len() >= 15 && &b[..3] == b"TMF";
    // twice, with different contents of fresh memory
    crate::POISON.store(0xAA, std::sync::atomic::Ordering::Relaxed);
    let x = outcome(&b);
    crate::POISON.store(0x55, std::sync::atomic::Ordering::Relaxed);
    let y = outcome(&b);
    crate::POISON.store(0, std::sync::atomic::Ordering::Relaxed);
    ensure!(x == y, "reading the same bytes twice gave different meshes: uninitialised memory was exposed");
    Ok(())
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn c07_mutated(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut m = gen::valid_mesh(r, Opt { big: 30, extreme: false, custom: false, p: 60, equal_len: false });
    for nm in ["a", "bb", "data"] {
        if r.chance(30) {
            let _ = m.add_custom_data(gen::custom(r, 20), nm);
        }
    }
    let (p, _) = gen::precision(r);
    let mut b = save1(&m, &p)?;
    for _ in 0..r.range(1, 5) {
        let n = b.len();
        if n == 0 {
            break;
        }
        match r.below(8) {
            0 => {
                let i = r.below(n);
                b[i] = r.u64() as u8;
            }
            1 => {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            2 => b.truncate(r.below(n)),
            3 => {
                let i = r.below(n);
                b.insert(i, r.u64() as u8);
            }
            4 => {
                let i = r.below(n);
                b.remove(i);
            }
            5 => {
                let i = r.below(n);
                b[i] = r.pick(&[0, 255, 128, 127, 64, 63, 65, 1]);
            }
            6 => {
                // header version
                if n > 10 {
                    b[9] = r.below(4) as u8;
                }
            }
            _ => {
                let i = r.below(n);
                let j = (i + r.range(1, 8)).min(n);
                for x in &mut b[i..j] {
                    *x = if r.bool() { 255 } else { 0 };
                }
            }
        }
    }
    untrusted(cx, b)
}
/// Random but plausible segment contents.
fn seg_body(r: &mut Rng, kind: u16, old: bool) -> Vec<u8> {
    let mut d = Vec::new();
    let n = r.pick(&[0, 1, 2, 3, 5, 40, 255, LIMIT, LIMIT + 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 61) + 1]);
    let n = if n == LIMIT { 7 } else { n };
    let p = r.pick(&[0u8, 1, 2, 7, 8, 9, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255]);
    if [CI, CF, CC, CN].contains(&kind) {
        let nm = r.pick(&CUSTOM_NAMES);
        if r.chance(10) {
            d.push(r.u64() as u8);
        } else {
            d.push(nm.len() as u8);
            d.extend(nm.as_bytes());
        }
    }
    let f = |r: &mut Rng| -> f64 {
        match r.below(8) {
            0 => f64::NAN,
            1 => f64::INFINITY,
            2 => f64::NEG_INFINITY,
            3 => f64::MAX,
            4 => -f64::MAX,
            _ => r.f(-10.0, 10.0) as f64,
        }
    };
    match kind {
        V => {
            d.extend(n.to_le_bytes());
            for _ in 0..6 {
                d.extend(f(r).to_le_bytes());
            }
            d.push(p);
            d.push(r.pick(&[p, 1, 63, 64]));
            d.push(r.pick(&[p, 1, 63, 0]));
        }
        N | T => {
            d.extend(n.to_le_bytes());
            d.push(p);
        }
        U => {
            d.push(p);
            d.extend(n.to_le_bytes());
        }
        CF => {
            d.extend(n.to_le_bytes());
            d.extend(f(r).to_le_bytes());
            d.extend(f(r).to_le_bytes());
            d.push(p);
        }
        CC => {
            d.extend(n.to_le_bytes());
            d.push(p);
        }
        _ => {
            if kind == SH {
                d.push(r.u64() as u8);
            }
            d.push(p);
            d.extend(n.to_le_bytes());
            if !old {
                let x = r.pick(&[0, 1, u32::MAX as u64, u64::MAX, 1 << 63]);
                d.extend(x.to_le_bytes());
            }
        }
    }
    for _ in 0..r.pick(&[0, 1, 3, 8, 40, 400]) {
        d.push(r.u64() as u8);
    }
    if r.chance(20) {
        d.truncate(r.below(d.len() + 1));
    }
    d
}
fn c07_segments(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let old = r.chance(30);
    let mut f = FileRec { ver: [0, 2, 0, if old { r.below(2) as u16 } else { 2 }], meshes: vec![] };
    for _ in 0..r.range(1, 2) {
        let segs = (0..r.range(1, 4))
            .map(|_| {
                let kind = if r.chance(92) { r.pick(&KNOWN) } else { r.u64() as u16 };
                Seg { kind, comp: if r.chance(95) { 0 } else { r.u64() as u8 }, data: seg_body(r, kind, old) }
            })
            .collect();
        f.meshes.push(MeshRec { name: b"m".to_vec(), segs });
    }
    let b = build(&f);
    untrusted(cx, b)
}
fn c07_noise(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = gen::any_len(r, 120);
    let mut b: Vec<u8> = (0..n).map(|_| if r.bool() { r.u64() as u8 } else { r.pick(&[0, 1, 2, 255]) }).collect();
    let h = b"TMF\x00\x00\x02\x00\x00\x00\x02\x00\x01\x00\x00\x00\x00\x00\x01\x00";
    let k = r.below(h.len() + 1).min(b.len());
    b[..k].copy_from_slice(&h[..k]);
    untrusted(cx, b)
}
fn c07_limits(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let old = r.bool();
    let kind = r.pick(&KNOWN);
    let mut f = FileRec { ver: [0, 2, 0, if old { 1 } else { 2 }], meshes: vec![MeshRec { name: b"m".to_vec(), segs: vec![] }] };
    let mode = r.below(3);
    let mut d = Vec::new();
    if [CI, CF, CC, CN].contains(&kind) {
        d.extend(b"\x01a");
    }
    if mode == 0 {
        // the segment itself is declared too long
        f.meshes[0].segs.push(Seg { kind, comp: 0, data: vec![0; 64] });
        let mut b = build(&f);
        let len = LIMIT + r.logu64().saturating_add(1);
        let at = 11 + 4 + 2 + 1 + 2;
        if old {
            b[at + 2..at + 10].copy_from_slice(&len.to_le_bytes());
        } else {
            b[at + 1..at + 5].copy_from_slice(&((len.min(u32::MAX as u64)) as u32).to_le_bytes());
        }
        cx.key = hash(&[len, kind as u64, 0]);
        cx.input = format!("a segment of type {kind} and declared length {len}: bytes {}", hex(&b));
        ensure!(TMFMesh::read_tmf(&mut &b[..]).is_err(), "a segment of declared length {len} was accepted");
        return Ok(());
    }
    let count = if mode == 1 { LIMIT.saturating_add(r.logu64().saturating_add(1)) } else { r.range(0, 9) as u64 };
    // Vertex, float, colour, normal and UV data need at most 63 bits to be decodable, index data at most 64.
    let tri = [VT, NT, UT, TT, SH, CI, CN].contains(&kind);
    let p = if mode == 2 { r.range(if tri { 65 } else { 64 }, 255) as u8 } else { r.range(1, 20) as u8 };
    match kind {
        V => {
            d.extend(count.to_le_bytes());
            for i in 0..6 {
                d.extend((i as f64).to_le_bytes());
            }
            let mut ps = [r.range(1, 20) as u8; 3];
            ps[r.below(3)] = p;
            d.extend(ps);
        }
        N | T => {
            d.extend(count.to_le_bytes());
            d.push(p);
        }
        U => {
            d.push(p);
            d.extend(count.to_le_bytes());
        }
        CF => {
            d.extend(count.to_le_bytes());
            d.extend(0f64.to_le_bytes());
            d.extend(1f64.to_le_bytes());
            d.push(p);
        }
        CC => {
            d.extend(count.to_le_bytes());
            d.push(p);
        }
        _ => {
            if kind == SH {
                d.push(3);
            }
            d.push(p);
            d.extend(count.to_le_bytes());
            if !old {
                d.extend(0u64.to_le_bytes());
            }
        }
    }
    d.extend([0x5au8; 900]);
    f.meshes[0].segs.push(Seg { kind, comp: 0, data: d });
    let b = build(&f);
    cx.key = hash(&[count, p as u64, kind as u64, old as u64]);
    cx.input = format!("a segment of type {kind} declaring {count} elements of {p} bits: bytes {}", hex(&b));
    ensure!(
        TMFMesh::read_tmf(&mut &b[..]).is_err(),
        "a segment of type {kind} declaring {count} elements of {p} bits was accepted"
    );
    Ok(())
}
// ---------------------------------------------------------------- C14
pub fn c14() -> Vec<Kind> {
    vec![
        Kind { name: "meshes", f: c14_meshes, quick: 1_500, thorough: 50_000 },
        Kind { name: "unknown", f: c14_unknown, quick: 1_500, thorough: 50_000 },
        Kind { name: "old_layout", f: c14_old, quick: 1_500, thorough: 50_000 },
        Kind { name: "headers", f: c14_headers, quick: 3_000, thorough: 70_000 },
        Kind { name: "prefixes", f: c14_prefixes, quick: 100, thorough: 4_000 },
        Kind { name: "one", f: c14_one, quick: 200, thorough: 3_000 },
        Kind { name: "limits", f: c14_limits, quick: 24, thorough: 100 },
    ]
}
fn mesh_list(r: &mut Rng, max: usize, big: usize) -> Vec<(TMFMesh, String)> {
    (0..r.below(max + 1))
        .map(|_| {
            let m = gen::valid_mesh(r, Opt { big, extreme: false, custom: true, p: 50, equal_len: false });
            let nm = gen::name(r, 300);
            (m, nm)
        })
        .collect()
}
fn list_key(l: &[(TMFMesh, String)]) -> u64 {
    hash(&l.iter().flat_map(|(m, n)| [gen::mesh_hash(m, true), hash_bytes(n.as_bytes())]).collect::<Vec<_>>())
}
fn list_input(l: &[(TMFMesh, String)]) -> String {
    l.iter().map(|(m, n)| format!("{n:?}: {}; ", gen::describe(m))).collect()
}
fn c14_meshes(cx: &mut Cx) -> R {
    let l = mesh_list(&mut cx.rng, 5, 40);
    let (p, ps) = gen::precision(&mut cx.rng);
    cx.key = list_key(&l);
    cx.nontrivial = l.len() > 1;
    cx.input = format!("precision {ps}: {}", list_input(&l));
    let b = save(&l, &p)?;
    let f = parse(&b).ok_or("the saved file is not a well-formed TMF file")?;
    ensure!(f.meshes.len() == l.len(), "the file holds {} of {} meshes", f.meshes.len(), l.len());
    let g = load(&b)?;
    ensure!(g.len() == l.len(), "{} meshes became {}", l.len(), g.len());
    for (i, ((m, n), (gm, gn))) in l.iter().zip(&g).enumerate() {
        ensure!(n == gn, "mesh {i} was called {n:?} and is now called {gn:?}");
        counts(m, gm).map_err(|e| format!("mesh {i}: {e}"))?;
        for k in 0..4 {
            same_ix(IXN[k], get_ix(m, k), get_ix(gm, k)).map_err(|e| format!("mesh {i}: {e}"))?;
        }
    }
    Ok(())
}
fn full_hash(v: &[(TMFMesh, String)]) -> u64 {
    hash(&v.iter().flat_map(|(m, n)| [gen::mesh_hash(m, true), hash_bytes(n.as_bytes())]).collect::<Vec<_>>())
}
fn c14_unknown(cx: &mut Cx) -> R {
    let l = mesh_list(&mut cx.rng, 3, 20);
    cx.key = list_key(&l);
    let b = save(&l, &prec())?;
    let want = full_hash(&load(&b)?);
    let mut f = parse(&b).ok_or("the saved file is not a well-formed TMF file")?;
    let mut ins = vec![];
    for m in f.meshes.iter_mut() {
        for _ in 0..cx.rng.below(4) {
            let kind = loop {
                let k = cx.rng.u64() as u8 as u16;
                if !KNOWN.contains(&k) {
                    break k;
                }
            };
            let n = cx.rng.pick(&[0, 1, 5, 100, 5000]);
            let data: Vec<u8> = (0..n).map(|_| cx.rng.u64() as u8).collect();
            let at = cx.rng.below(m.segs.len() + 1);
            let comp = cx.rng.pick(&[0, 1, 2, 255]);
            ins.push((kind, n, at));
            m.segs.insert(at, Seg { kind, comp, data });
        }
    }
    cx.nontrivial = !ins.is_empty();
    cx.input = format!("inserted segments (type, length, position) {ins:?} into {}", list_input(&l));
    let got = TMFMesh::read_tmf(&mut &build(&f)[..]).map_err(|e| format!("a file with segments of unknown type was refused: {e}"))?;
    ensure!(full_hash(&got) == want, "segments of unknown type changed the meshes");
    Ok(())
}
/// Rewrites a file of the current layout to the one of version 0.1.
fn to_old(f: &FileRec, minor: u16) -> Option<FileRec> {
    let mut f = f.clone();
    f.ver[3] = minor;
    for m in f.meshes.iter_mut() {
        for s in m.segs.iter_mut() {
            let pos = match s.kind {
                VT | NT | UT | TT => 0,
                SH => 1,
                CI | CN => 1 + s.data[0] as usize,
                _ => continue,
            };
            let prec = s.data[pos];
            let mut c = Cur(&s.data[pos + 1..]);
            let n = c.u64()?;
            let min = c.u64()?;
            let mut bits = Bits::new(c.0);
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(bits.take(prec)? + min);
            }
            let w = v.iter().map(|x| 64 - x.leading_zeros()).max().unwrap_or(1).max(1) as u8;
            let mut d = s.data[..pos].to_vec();
            d.extend(enc_tris(w, None, n, &v));
            s.data = d;
        }
    }
    Some(f)
}
fn c14_old(cx: &mut Cx) -> R {
    let l = mesh_list(&mut cx.rng, 3, 30);
    cx.key = list_key(&l);
    cx.nontrivial = !l.is_empty();
    let b = save(&l, &prec())?;
    let minor = cx.rng.below(2) as u16;
    cx.input = format!("version 0.{minor} layout of {}", list_input(&l));
    let want = full_hash(&load(&b)?);
    let mut f = to_old(&parse(&b).ok_or("the saved file is not a well-formed TMF file")?, minor).ok_or("malformed index segment")?;
    // types above 255 do not exist, so such segments must be skipped
    for m in f.meshes.iter_mut() {
        if cx.rng.chance(30) {
            let at = cx.rng.below(m.segs.len() + 1);
            let kind = 256 + cx.rng.below(65280) as u16;
            m.segs.insert(at, Seg { kind, comp: 0, data: vec![1, 2, 3] });
        }
    }
    let got = TMFMesh::read_tmf(&mut &build(&f)[..]).map_err(|e| format!("a file of the older layout was refused: {e}"))?;
    ensure!(full_hash(&got) == want, "a file of the older layout was read differently");
    Ok(())
}
fn c14_headers(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut m = TMFMesh::empty();
    m.set_vertex_triangles(vec![0, 5, 3]);
    let b = save1(&m, &prec())?;
    let f0 = parse(&b).ok_or("the saved file is not a well-formed TMF file")?;
    let cur = (f0.ver[0], f0.ver[1]);
    let mut f = f0.clone();
    let ver = |r: &mut Rng| r.pick(&[0, 1, 2, 3, 4, 255, 256, 65535]);
    f.ver = [ver(r), ver(r), if r.chance(60) { 0 } else { ver(r) }, ver(r)];
    let too_new = f.ver[2] > cur.0 || (f.ver[2] == cur.0 && f.ver[3] > cur.1);
    let f = if f.ver[3] <= 1 { to_old(&f, f.ver[3]).ok_or("malformed index segment")? } else { f };
    let mut by = build(&f);
    let bad_magic = r.chance(25);
    if bad_magic {
        let i = r.below(3);
        by[i] = by[i].wrapping_add(r.range(1, 255) as u8);
    }
    cx.key = hash_bytes(&by);
    cx.input = format!("header {:?} bytes {}", f.ver, hex(&by));
    let got = TMFMesh::read_tmf(&mut &by[..]);
    match got {
        Err(TMFImportError::NotTMFFile) => ensure!(bad_magic, "valid magic bytes were refused"),
        Err(TMFImportError::NewerVersionRequired) => {
            ensure!(!bad_magic && too_new, "a file requiring {}.{} was refused by a reader of {}.{}", f.ver[2], f.ver[3], cur.0, cur.1)
        }
        Err(e) => return Err(format!("refused with {e}")),
        Ok(v) => {
            ensure!(!bad_magic, "wrong magic bytes were accepted");
            ensure!(!too_new, "a file requiring {}.{} was accepted by a reader of {}.{}", f.ver[2], f.ver[3], cur.0, cur.1);
            ensure!(
                v.len() == 1 && v[0].1 == "mesh" && v[0].0.get_vertex_triangles() == Some(&[0, 5, 3]),
                "a file with header {:?} was read as {}",
                f.ver,
                list_input(&v)
            );
        }
    }
    Ok(())
}
fn c14_prefixes(cx: &mut Cx) -> R {
    let l = mesh_list(&mut cx.rng, 3, 20);
    cx.key = list_key(&l);
    cx.input = list_input(&l);
    let mut b = save(&l, &prec())?;
    if cx.rng.chance(30) {
        let f = to_old(&parse(&b).ok_or("not well-formed")?, 1).ok_or("malformed index segment")?;
        b = build(&f);
    }
    for n in 0..b.len() {
        ensure!(TMFMesh::read_tmf(&mut &b[..n]).is_err(), "the first {n} of {} bytes were accepted as a file", b.len());
    }
    Ok(())
}
fn c14_one(cx: &mut Cx) -> R {
    let n = cx.rng.below(4);
    let mut l = mesh_list(&mut cx.rng, 3, 10);
    while l.len() < n {
        l.push((TMFMesh::empty(), "x".into()));
    }
    l.truncate(n);
    cx.key = list_key(&l);
    cx.input = list_input(&l);
    let b = save(&l, &prec())?;
    let asy = crate::props::block(TMFMesh::read_tmf_one_async(&mut &b[..]));
    for (what, r) in [("read_tmf_one", TMFMesh::read_tmf_one(&mut &b[..])), ("read_tmf_one_async", asy)] {
        match (n, r) {
            (0, Err(TMFImportError::NoMeshes)) => (),
            (1, Ok((m, nm))) => {
                ensure!(nm == l[0].1, "{what}: the name {:?} became {nm:?}", l[0].1);
                counts(&l[0].0, &m)?;
            }
            (2.., Err(TMFImportError::TooManyMeshes)) => (),
            (_, Ok(_)) => return Err(format!("{what} accepted a file with {n} meshes")),
            (_, Err(e)) => return Err(format!("{what} reported {e} for a file with {n} meshes")),
        }
    }
    // one mesh under one name
    if let Some((m, nm)) = l.first() {
        let mut o = Vec::new();
        m.write_tmf_one(&mut o, &prec(), nm.as_str()).map_err(|e| format!("saving one mesh failed: {e}"))?;
        let g = load(&o)?;
        ensure!(g.len() == 1 && g[0].1 == *nm, "write_tmf_one saved {} meshes, first name {:?}", g.len(), g.first().map(|x| x.1.clone()));
    }
    Ok(())
}
fn c14_limits(cx: &mut Cx) -> R {
    cx.key = cx.idx;
    match cx.idx % 4 {
        0 | 1 => {
            let n = [65535usize, 65536, 65534, 70000, 131072, 65535 + 65536][(cx.idx / 4 % 6) as usize];
            let nm = "n".repeat(n);
            cx.input = format!("a mesh name of {n} bytes");
            let mut o = Vec::new();
            let r = TMFMesh::empty().write_tmf_one(&mut o, &prec(), nm.as_str());
            if n <= 65535 {
                r.map_err(|e| format!("a mesh name of {n} bytes was refused: {e}"))?;
                let g = load(&o)?;
                ensure!(g.len() == 1 && g[0].1 == nm, "a mesh name of {n} bytes changed");
            } else {
                ensure!(r.is_err(), "a mesh name of {n} bytes was saved, which the format cannot hold");
            }
        }
        2 => {
            let n = [300usize, 1000, 65535, 65536, 65537, 70000][(cx.idx / 4 % 6) as usize];
            cx.input = format!("{n} custom data segments");
            let mut m = TMFMesh::empty();
            for i in 0..n {
                m.add_custom_data(CustomData::CustomIndex([i as u32].into(), 0), "x").map_err(|_| "name refused")?;
            }
            let mut o = Vec::new();
            let r = m.write_tmf_one(&mut o, &prec(), "m");
            if n <= 65535 {
                r.map_err(|e| format!("{n} segments were refused: {e}"))?;
                let f = parse(&o).ok_or("the saved file is not a well-formed TMF file")?;
                ensure!(f.meshes[0].segs.len() == n, "{n} segments became {}", f.meshes[0].segs.len());
                load(&o)?;
            } else {
                ensure!(r.is_err(), "{n} segments were saved, which the format cannot hold");
            }
        }
        _ => {
            let n = [0usize, 1, 255, 256, 3000, 70000][(cx.idx / 4 % 6) as usize];
            cx.input = format!("{n} meshes in one file");
            let l: Vec<(TMFMesh, String)> = (0..n).map(|i| (TMFMesh::empty(), format!("{i}"))).collect();
            let g = load(&save(&l, &prec())?)?;
            ensure!(g.len() == n, "{n} meshes became {}", g.len());
            for (i, x) in g.iter().enumerate() {
                ensure!(x.1 == format!("{i}"), "mesh {i} is called {:?}", x.1);
            }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C15
pub fn c15() -> Vec<Kind> {
    vec![
        Kind { name: "tmf_writer", f: c15_tmf_writer, quick: 250, thorough: 8_000 },
        Kind { name: "obj_writer", f: c15_obj_writer, quick: 150, thorough: 5_000 },
        Kind { name: "tmf_reader", f: c15_tmf_reader, quick: 250, thorough: 8_000 },
        Kind { name: "obj_reader", f: c15_obj_reader, quick: 150, thorough: 5_000 },
    ]
}
/// Accepts bytes in short writes, with interruptions, and fails after a number of bytes.
struct Sink {
    got: Vec<u8>,
    sizes: Vec<usize>,
    i: usize,
    fail_at: Option<usize>,
    /// report the failure as Ok(0)
    zero: bool,
    /// fail when flushed
    flush_fails: bool,
    failed: bool,
    interrupts: bool,
}
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.i += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.i % 3 == 1 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        let mut n = self.sizes[self.i % self.sizes.len()].min(b.len());
        if let Some(f) = self.fail_at {
            if self.got.len() >= f {
                self.failed = true;
                return if self.zero { Ok(0) } else { Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")) };
            }
            n = n.min(f - self.got.len());
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails {
            self.failed = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected flush"));
        }
        Ok(())
    }
}
fn sink(r: &mut Rng, fail_at: Option<usize>) -> Sink {
    Sink { got: vec![], sizes: chunks(r), i: 0, fail_at, zero: r.chance(30), flush_fails: false, failed: false, interrupts: r.chance(30) }
}
fn points(r: &mut Rng, n: usize, max: usize) -> Vec<usize> {
    if n <= max {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..max - 40).map(|_| r.below(n)).collect();
        v.extend(0..20);
        v.extend(n - 20..n);
        v
    }
}
fn c15_tmf_writer(cx: &mut Cx) -> R {
    let l = mesh_list(&mut cx.rng, 3, 30);
    let (p, ps) = gen::precision(&mut cx.rng);
    cx.key = list_key(&l);
    cx.input = format!("precision {ps}: {}", list_input(&l));
    let whole = save(&l, &p)?;
    for _ in 0..3 {
        let mut s = sink(&mut cx.rng, None);
        TMFMesh::write_tmf(&l, &mut s, &p).map_err(|e| format!("saving through short writes failed: {e}"))?;
        ensure!(s.got == whole, "short or interrupted writes changed the file");
    }
    let max = if cx.thorough { 2000 } else { 200 };
    for at in points(&mut cx.rng, whole.len(), max) {
        let mut s = sink(&mut cx.rng, Some(at));
        let r = TMFMesh::write_tmf(&l, &mut s, &p);
        ensure!(whole.starts_with(&s.got), "the bytes accepted before a failure differ from the file");
        match r {
            Ok(()) => return Err(format!("the writer failed after {at} of {} bytes but saving reported success", whole.len())),
            Err(TMFExportError::IO(_)) => (),
        }
    }
    if l.len() == 1 {
        for at in points(&mut cx.rng, whole.len(), 60) {
            let mut s = sink(&mut cx.rng, Some(at));
            let r = l[0].0.write_tmf_one(&mut s, &p, l[0].1.as_str());
            ensure!(r.is_err(), "the writer failed after {at} bytes but saving one mesh reported success");
        }
    }
    Ok(())
}
pub fn obj_mesh(r: &mut Rng, big: usize) -> TMFMesh {
    loop {
        let m = gen::valid_mesh(r, Opt { big, extreme: false, custom: false, p: 70, equal_len: true });
        let l = |t: Option<&[u32]>| t.map(|t| t.len());
        let v = l(m.get_vertex_triangles());
        let fits = |x: Option<usize>| x.is_none() || x == v;
        if fits(l(m.get_normal_triangles())) && fits(l(m.get_uv_triangles())) {
            return m;
        }
    }
}
fn c15_obj_writer(cx: &mut Cx) -> R {
    let l: Vec<(TMFMesh, String)> = (0..cx.rng.range(1, 3)).map(|i| (obj_mesh(&mut cx.rng, if i == 0 { 300 } else { 20 }), format!("o{i}"))).collect();
    cx.key = list_key(&l);
    cx.input = list_input(&l);
    let mut whole = Vec::new();
    TMFMesh::write_obj(&l, &mut whole).map_err(|e| format!("exporting failed: {e}"))?;
    for _ in 0..3 {
        let mut s = sink(&mut cx.rng, None);
        TMFMesh::write_obj(&l, &mut s).map_err(|e| format!("exporting through short writes failed: {e}"))?;
        ensure!(s.got == whole, "short or interrupted writes changed the exported text");
    }
    let max = if cx.thorough { 1000 } else { 150 };
    for at in points(&mut cx.rng, whole.len(), max) {
        let mut s = sink(&mut cx.rng, Some(at));
        let r = TMFMesh::write_obj(&l, &mut s);
        ensure!(r.is_err(), "the writer failed after {at} of {} bytes but the export reported success", whole.len());
    }
    let mut s = sink(&mut cx.rng, None);
    s.flush_fails = true;
    let r = TMFMesh::write_obj(&l, &mut s);
    ensure!(r.is_err() || !s.failed, "flushing failed but the export reported success");
    ensure!(r.is_err() || s.got == whole, "the export reported success without all bytes having been accepted");
    // one mesh
    let mut w1 = Vec::new();
    l[0].0.write_obj_one(&mut w1, &l[0].1).map_err(|e| format!("exporting one mesh failed: {e}"))?;
    for at in points(&mut cx.rng, w1.len(), 50) {
        let mut s = sink(&mut cx.rng, Some(at));
        ensure!(l[0].0.write_obj_one(&mut s, &l[0].1).is_err(), "the writer failed after {at} bytes but the export of one mesh reported success");
    }
    Ok(())
}
fn c15_tmf_reader(cx: &mut Cx) -> R {
    let l = mesh_list(&mut cx.rng, 3, 30);
    cx.key = list_key(&l);
    cx.input = list_input(&l);
    let b = save(&l, &prec())?;
    let want = full_hash(&load(&b)?);
    for _ in 0..3 {
        let mut s = Chunky::new(&b, chunks(&mut cx.rng));
        s.interrupts = cx.rng.chance(40);
        let g = TMFMesh::read_tmf(&mut s).map_err(|e| format!("loading in chunks failed: {e}"))?;
        ensure!(full_hash(&g) == want, "loading in chunks gave different meshes");
    }
    let max = if cx.thorough { 2000 } else { 200 };
    for at in points(&mut cx.rng, b.len(), max) {
        let mut s = Chunky::new(&b, chunks(&mut cx.rng));
        s.fail_at = Some(at);
        s.interrupts = cx.rng.chance(20);
        let r = if cx.rng.chance(20) { crate::props::block(TMFMesh::read_tmf_async(&mut s)) } else { TMFMesh::read_tmf(&mut s) };
        ensure!(r.is_err(), "the reader failed after {at} of {} bytes but loading reported success", b.len());
        let mut s = Chunky::new(&b, vec![usize::MAX]);
        s.fail_at = Some(at);
        ensure!(TMFMesh::read_tmf_one(&mut s).is_err(), "the reader failed after {at} bytes but loading one mesh reported success");
    }
    Ok(())
}
fn c15_obj_reader(cx: &mut Cx) -> R {
    let l: Vec<(TMFMesh, String)> = (0..cx.rng.range(1, 3)).map(|i| (obj_mesh(&mut cx.rng, 20), format!("o{i}"))).collect();
    cx.key = list_key(&l);
    cx.input = list_input(&l);
    let mut b = Vec::new();
    TMFMesh::write_obj(&l, &mut b).map_err(|e| format!("exporting failed: {e}"))?;
    let r0 = TMFMesh::read_from_obj(&mut &b[..]);
    for _ in 0..3 {
        let mut s = Chunky::new(&b, chunks(&mut cx.rng));
        s.interrupts = cx.rng.chance(40);
        let r = TMFMesh::read_from_obj(&mut s);
        match (&r0, &r) {
            (Ok(a), Ok(b)) => ensure!(full_hash(a) == full_hash(b), "importing in chunks gave different meshes"),
            (Err(_), Err(_)) => (),
            _ => return Err("importing in chunks changed the outcome".into()),
        }
    }
    for at in points(&mut cx.rng, b.len(), 150) {
        let mut s = Chunky::new(&b, chunks(&mut cx.rng));
        s.fail_at = Some(at);
        ensure!(TMFMesh::read_from_obj(&mut s).is_err(), "the reader failed after {at} of {} bytes but the import reported success", b.len());
        let mut s = Chunky::new(&b, vec![usize::MAX]);
        s.fail_at = Some(at);
        ensure!(TMFMesh::read_from_obj_one(&mut s).is_err(), "the reader failed after {at} bytes but the import of one mesh reported success");
    }
    Ok(())
}
// ---------------------------------------------------------------- C17
pub fn c17() -> Vec<Kind> {
    vec![
        Kind { name: "meshes", f: c17_meshes, quick: 10_000, thorough: 400_000 },
        Kind { name: "degenerate", f: c17_degenerate, quick: 10_000, thorough: 400_000 },
        Kind { name: "big", f: c17_big, quick: 100, thorough: 3_000 },
        Kind { name: "jumps", f: c17_jumps, quick: 24, thorough: 200 },
    ]
}
/// Long index arrays which jump between a few levels: very many splits are profitable.
fn c17_jumps(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.range(1_000, 450_000);
    let levels: Vec<u32> = match r.below(3) {
        0 => vec![0, 1 << 16, 1 << 31, 1 << 16],
        1 => vec![0, 1 << 10, 1 << 20, u32::MAX, 1 << 20, 1 << 10],
        _ => (0..r.range(2, 9)).map(|_| r.logu32()).collect(),
    };
    let run = r.range(4, 60);
    let tris: Vec<u32> = (0..n).map(|i| levels[(i / run) % levels.len()]).collect();
    cx.input = format!("{n} indices without vertices: runs of {run} with values {levels:?}");
    cx.key = hash(&[n as u64, run as u64, levels[0] as u64]);
    let mut m = TMFMesh::empty();
    m.set_tangent_triangles(tris.clone());
    let b = save1(&m, &prec())?;
    let g = load1(&b)?;
    same_ix("tangent triangles", Some(&tris), g.get_tangent_triangles())
}
fn saves(cx: &mut Cx, m: TMFMesh) -> R {
    let (p, ps) = gen::precision(&mut cx.rng);
    cx.key = gen::mesh_hash(&m, true);
    cx.input = format!("precision {ps}: {}", gen::describe(&m));
    let ok = m.verify().is_ok()
        || [m.get_vertex_triangles(), m.get_normal_triangles(), m.get_uv_triangles(), m.get_tangent_triangles()].iter().all(|x| x.is_none());
    if !ok {
        cx.nontrivial = false;
        return Ok(());
    }
    let b = save1(&m, &p)?;
    let g = load1(&b)?;
    counts(&m, &g)
}
fn c17_meshes(cx: &mut Cx) -> R {
    let ext = cx.rng.chance(60);
    let m = gen::valid_mesh(&mut cx.rng, Opt { big: 40, extreme: ext, custom: true, p: 70, equal_len: false });
    saves(cx, m)
}
fn c17_degenerate(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.below(6);
    let c = |r: &mut Rng| -> f32 {
        let s = if r.bool() { 1.0 } else { -1.0 };
        s * match r.below(9) {
            0 => 0.0,
            1 => 1.0,
            2 => f32::MAX,
            3 => f32::MIN_POSITIVE,
            4 => f32::from_bits(1),
            5 => f32::MAX / 2.0,
            6 => 1e-20,
            7 => 1e20,
            _ => r.f01(),
        }
    };
    let base = (c(r), c(r), c(r));
    let mode = r.below(4);
    let v: Vec<Vector3> = (0..n)
        .map(|_| match mode {
            0 => base,
            1 => (base.0, c(r), base.2),
            2 => (c(r), base.1, c(r)),
            _ => (c(r), c(r), c(r)),
        })
        .collect();
    let mut m = TMFMesh::empty();
    let with = r.below(4);
    if with != 0 {
        let l = r.below(9);
        if n > 0 {
            m.set_vertex_triangles(gen::indices(r, l, n as u32 - 1));
        } else if r.bool() {
            m.set_vertex_triangles(vec![]);
        }
    }
    m.set_vertices(v);
    if r.chance(30) {
        // unverified normals and UVs are allowed without triangles
        let k = r.below(4);
        let nv: Vec<Vector3> = (0..k).map(|_| if with == 0 { (c(r), c(r), c(r)) } else { gen::unit(r) }).collect();
        m.set_normals(nv);
    }
    if r.chance(30) {
        let k = r.below(4);
        let uv: Vec<Vector2> = (0..k).map(|_| if with == 0 { (c(r), c(r)) } else { (gen::uv01(r), gen::uv01(r)) }).collect();
        m.set_uvs(uv);
    }
    if r.chance(30) {
        let k = r.below(4);
        let tv: Vec<Tangent> = (0..k).map(|_| (if r.bool() { (c(r), c(r), c(r)) } else { gen::unit(r) }, c(r))).collect();
        m.set_tangents(tv);
        if k > 0 && r.bool() {
            let l = r.below(9);
            m.set_tangent_triangles(gen::indices(r, l, k as u32 - 1));
        }
    }
    saves(cx, m)
}
fn c17_big(cx: &mut Cx) -> R {
    let ext = cx.rng.chance(40);
    let m = gen::valid_mesh(&mut cx.rng, Opt { big: 8000, extreme: ext, custom: true, p: 90, equal_len: false });
    saves(cx, m)
}
// ---------------------------------------------------------------- C18
pub fn c18() -> Vec<Kind> {
    vec![
        Kind { name: "runtimes", f: c18_runtimes, quick: 1_500, thorough: 40_000 },
        Kind { name: "many_segments", f: c18_many, quick: 60, thorough: 1_500 },
    ]
}
fn deterministic(cx: &mut Cx, l: Vec<(TMFMesh, String)>) -> R {
    let (p, ps) = gen::precision(&mut cx.rng);
    cx.key = list_key(&l);
    cx.input = format!("precision {ps}: {}", list_input(&l));
    let b = save(&l, &p)?;
    ensure!(save(&l, &p)? == b, "saving the same meshes twice gave different bytes");
    let b2 = std::thread::scope(|s| s.spawn(|| save(&l, &p)).join().unwrap())?;
    ensure!(b2 == b, "saving the same meshes on another thread gave different bytes");
    let a = load(&b)?;
    let want = full_hash(&a);
    let cus = |v: &[(TMFMesh, String)]| -> Vec<u64> {
        v.iter().flat_map(|(m, _)| (0..12).map(move |i| m.lookup_custom_data(&format!("k{i}")).map_or(0, gen::custom_hash))).collect()
    };
    let wc = cus(&a);
    let reps = if cx.thorough { 4 } else { 2 };
    for _ in 0..reps {
        let s = load(&b)?;
        ensure!(full_hash(&s) == want && cus(&s) == wc, "loading the same bytes twice gave different meshes");
        let s = crate::props::block(TMFMesh::read_tmf_async(&mut &b[..])).map_err(|e| format!("asynchronous loading failed: {e}"))?;
        ensure!(full_hash(&s) == want && cus(&s) == wc, "asynchronous loading gave different meshes");
    }
    if l.len() == 1 {
        let o = TMFMesh::read_tmf_one(&mut &b[..]).map_err(|e| format!("loading one mesh failed: {e}"))?;
        ensure!(full_hash(&[o]) == want, "loading one mesh gave a different mesh");
        let o = crate::props::block(TMFMesh::read_tmf_one_async(&mut &b[..])).map_err(|e| format!("asynchronous loading of one mesh failed: {e}"))?;
        ensure!(full_hash(&[o]) == want, "asynchronous loading of one mesh gave a different mesh");
    }
    // For the comparison of both builds. Trigonometry differs between them by design.
    let d: Vec<u64> = a.iter().flat_map(|(m, n)| [gen::mesh_hash(m, false), hash_bytes(n.as_bytes())]).chain(wc).collect();
    cx.digest = hash(&[hash(&d), hash_bytes(&b)]);
    Ok(())
}
fn c18_runtimes(cx: &mut Cx) -> R {
    let mut l = mesh_list(&mut cx.rng, 3, 60);
    if let Some((m, _)) = l.first_mut() {
        for i in 0..cx.rng.below(6) {
            let d = gen::custom(&mut cx.rng, 30);
            let _ = m.add_custom_data(d, &format!("k{i}"));
        }
    }
    deterministic(cx, l)
}
fn c18_many(cx: &mut Cx) -> R {
    // many segments of very different sizes, so that tasks finish in another order than they started
    let mut m = TMFMesh::empty();
    let first = cx.rng.below(2);
    for k in first..4 {
        let mut v = Vec::new();
        for _ in 0..cx.rng.range(1, 8) {
            v.extend(runs(&mut cx.rng));
        }
        set_ix(&mut m, k, v);
    }
    let n = if first == 0 { 0 } else { cx.rng.range(0, 3000) };
    if first == 1 {
        m.set_vertices(gen::vertices(&mut cx.rng, n, false));
    }
    let n = cx.rng.range(0, 3000);
    m.set_uvs((0..n).map(|_| (gen::uv01(&mut cx.rng), gen::uv01(&mut cx.rng))).collect::<Vec<_>>());
    for i in 0..12 {
        let len = cx.rng.pick(&[1, 10, 3000]);
        let d = gen::custom(&mut cx.rng, len);
        let _ = m.add_custom_data(d, &format!("k{i}"));
    }
    deterministic(cx, vec![(m, "many".into())])
}
