//! C04, C05, C06: quantisation error bounds, with the steps taken from the file itself.
use super::*;
use crate::ensure;
use crate::fmt::*;
use crate::gen;

const REL: f64 = 1e-6;
fn segs(b: &[u8], kinds: &[u16]) -> Result<Vec<Seg>, String> {
    let f = parse(b).ok_or("the saved file is not a well-formed TMF file")?;
    Ok(f.meshes.into_iter().flat_map(|m| m.segs).filter(|s| kinds.contains(&s.kind)).collect())
}
// ---------------------------------------------------------------- C04
pub fn c04() -> Vec<Kind> {
    vec![
        Kind { name: "shapes", f: c04_shapes, quick: 12_000, thorough: 400_000 },
        Kind { name: "corners", f: c04_corners, quick: 4_000, thorough: 100_000 },
        Kind { name: "big_clouds", f: c04_big, quick: 300, thorough: 10_000 },
    ]
}
fn dist(a: Vector3, b: Vector3) -> f64 {
    let d = |x: f32, y: f32| (x as f64 - y as f64).powi(2);
    (d(a.0, b.0) + d(a.1, b.1) + d(a.2, b.2)).sqrt()
}
fn comp(v: &Vector3, k: usize) -> f32 {
    [v.0, v.1, v.2][k]
}
pub fn check_vertices(verts: &[Vector3], tris: Option<&[u32]>, prec: f32) -> R {
    let mut m = TMFMesh::empty();
    m.set_vertices(verts.to_vec());
    if let Some(t) = tris {
        m.set_vertex_triangles(t.to_vec());
    }
    let pi = TMFPrecisionInfo { vertex_precision: VertexPrecisionMode(prec), ..Default::default() };
    let bytes = save1(&m, &pi)?;
    let back = load1(&bytes)?;
    let got = back.get_vertices().ok_or("no vertices after loading")?;
    ensure!(got.len() == verts.len(), "{} vertices became {}", verts.len(), got.len());
    // shortest edge as the documentation defines it
    let mut shortest = f64::INFINITY;
    if let Some(t) = tris {
        for t in t.chunks_exact(3) {
            for (a, b) in [(0, 1), (1, 2), (2, 0)] {
                shortest = shortest.min(dist(verts[t[a] as usize], verts[t[b] as usize]));
            }
        }
    }
    if !shortest.is_finite() {
        shortest = 0.1;
    }
    let mut at = 0;
    for s in segs(&bytes, &[V])? {
        let v = vseg(&s.data).ok_or("malformed vertex segment")?;
        let part = &verts[at..(at + v.count as usize).min(verts.len())];
        ensure!(part.len() == v.count as usize, "segments hold more vertices than the mesh");
        for k in 0..3 {
            let lo = part.iter().map(|p| comp(p, k) as f64).fold(f64::INFINITY, f64::min);
            let hi = part.iter().map(|p| comp(p, k) as f64).fold(f64::NEG_INFINITY, f64::max);
            if part.is_empty() {
                continue;
            }
            let span = hi - lo;
            let big = lo.abs().max(hi.abs());
            let round = REL * big + REL * span + 4.0 * f32::MIN_POSITIVE as f64;
            let ints = ((1u128 << v.prec[k]) - 1) as f64;
            let step = span.max(f32::MIN_POSITIVE as f64) / ints;
            if v.prec[k] < 63 && span > 0.0 {
                let want = 2.0 * prec as f64 * shortest;
                // a requested step below what f32 arithmetic can express only has to reach the limit of the format
                if want > 1e-30 && (shortest / span) * (prec as f64) > 1e-37 {
                    ensure!(
                        step <= want * (1.0 + 1e-4),
                        "axis {k}: step {step:e} is more than twice the requested {:e} (precision {} bits)",
                        want / 2.0,
                        v.prec[k]
                    );
                }
            }
            for (i, p) in part.iter().enumerate() {
                let o = comp(p, k) as f64;
                let g = comp(&got[at + i], k) as f64;
                ensure!(
                    (o - g).abs() <= step * (1.0 + 1e-4) + round,
                    "vertex {} axis {k}: {o:e} became {g:e}, off by {:e}, step {step:e}",
                    at + i,
                    (o - g).abs()
                );
                ensure!(
                    g >= lo - round && g <= hi + round,
                    "vertex {} axis {k}: {g:e} left the bounding box {lo:e}..{hi:e}",
                    at + i
                );
            }
        }
        at += v.count as usize;
    }
    ensure!(at == verts.len(), "segments hold {at} of {} vertices", verts.len());
    Ok(())
}
fn finite_extent(v: &[Vector3]) -> bool {
    (0..3).all(|k| {
        let lo = v.iter().map(|p| comp(p, k)).fold(f32::INFINITY, f32::min);
        let hi = v.iter().map(|p| comp(p, k)).fold(f32::NEG_INFINITY, f32::max);
        v.is_empty() || ((hi - lo).is_finite() && lo.is_finite() && hi.is_finite())
    })
}
fn c04_run(cx: &mut Cx, verts: Vec<Vector3>, tris: Option<Vec<u32>>) -> R {
    let prec = match cx.rng.below(4) {
        0 => 0.1,
        1 => cx.rng.pick(&[1.0, 0.5, 3.0, 100.0, 1e9]),
        2 => cx.rng.pick(&[1e-3, 1e-6, 1e-9, 1e-20, 1e-38]),
        _ => cx.rng.f(0.001, 1.5),
    };
    cx.key = hash(&verts.iter().map(|v| v.0.to_bits() as u64).chain([prec.to_bits() as u64]).collect::<Vec<_>>());
    cx.nontrivial = verts.len() > 1;
    cx.input = format!("precision {prec:e} vertices {verts:?} triangles {tris:?}");
    if !finite_extent(&verts) {
        cx.nontrivial = false;
        return Ok(());
    }
    check_vertices(&verts, tris.as_deref(), prec)
}
fn c04_shapes(cx: &mut Cx) -> R {
    let n = gen::any_len(&mut cx.rng, 60);
    let ext = cx.rng.chance(40);
    let v = gen::vertices(&mut cx.rng, n, ext);
    let t = if n > 0 && cx.rng.chance(60) {
        let l = cx.rng.below(30);
        Some(gen::indices(&mut cx.rng, l, n as u32 - 1))
    } else {
        None
    };
    c04_run(cx, v, t)
}
fn c04_corners(cx: &mut Cx) -> R {
    // box corners and points next to them, per-axis scales over the whole range
    let mut sc = [0f32; 3];
    let mut off = [0f32; 3];
    for k in 0..3 {
        sc[k] = gen::scale(&mut cx.rng, true);
        off[k] = cx.rng.pick(&[0.0, 1.0, -7.5, 1e4]) * if cx.rng.bool() { sc[k] } else { 1.0 };
    }
    let mut v = Vec::new();
    for i in 0..8 {
        let c = |k: usize| if (i >> k) & 1 == 1 { sc[k] } else { 0.0 };
        v.push((c(0) + off[0], c(1) + off[1], c(2) + off[2]));
    }
    for _ in 0..cx.rng.below(12) {
        let a = v[cx.rng.below(8)];
        let b = v[cx.rng.below(8)];
        let t = gen::uv01(&mut cx.rng);
        v.push((a.0 + (b.0 - a.0) * t, a.1 + (b.1 - a.1) * t, a.2 + (b.2 - a.2) * t));
    }
    let n = v.len() as u32;
    let l = cx.rng.below(12);
    let t = if cx.rng.bool() { Some(gen::indices(&mut cx.rng, l, n - 1)) } else { None };
    c04_run(cx, v, t)
}
fn c04_big(cx: &mut Cx) -> R {
    let n = cx.rng.range(200, 3000);
    let v = gen::vertices(&mut cx.rng, n, false);
    c04_run(cx, v, None)
}
// ---------------------------------------------------------------- C05
pub fn c05() -> Vec<Kind> {
    vec![
        Kind { name: "uvs", f: c05_uvs, quick: 15_000, thorough: 600_000 },
        Kind { name: "uv_range", f: c05_uv_range, quick: 500, thorough: 64 * 1024 },
        Kind { name: "floats", f: c05_floats, quick: 20_000, thorough: 800_000 },
        Kind { name: "colours", f: c05_colours, quick: 15_000, thorough: 600_000 },
    ]
}
fn bits_ok(bits: u8, want: f64) -> bool {
    // 2^bits >= want, unless the format's limit is reached; f32 evaluation of the request may round it
    bits >= 63 || (2f64).powi(bits as i32) >= want * (1.0 - 1e-5)
}
fn check_uvs(uvs: &[Vector2], res: f32, dev: f32) -> R {
    let mut m = TMFMesh::empty();
    m.set_uvs(uvs.to_vec());
    let pi = TMFPrecisionInfo { uv_prec: UvPrecisionMode::form_texture_resolution(res, dev), ..Default::default() };
    let bytes = save1(&m, &pi)?;
    let back = load1(&bytes)?;
    let got = back.get_uvs().ok_or("no UVs after loading")?;
    ensure!(got.len() == uvs.len(), "{} UVs became {}", uvs.len(), got.len());
    let sg = segs(&bytes, &[U])?;
    let mut at = 0;
    for s in sg {
        let b = *s.data.first().ok_or("empty UV segment")?;
        let n = Cur(&s.data[1..]).u64().ok_or("short UV segment")? as usize;
        ensure!(bits_ok(b, res as f64 / dev as f64), "{b} bits for a resolution of {res} at {dev} pixels");
        let step = if b == 0 { 1.0 } else { 1.0 / ((1u128 << b) - 1) as f64 };
        for i in at..(at + n).min(uvs.len()) {
            for (o, g) in [(uvs[i].0, got[i].0), (uvs[i].1, got[i].1)] {
                ensure!(
                    (o as f64 - g as f64).abs() <= step + 5e-7,
                    "UV {i}: {o:e} became {g:e} at {b} bits (step {step:e})"
                );
            }
        }
        at += n;
    }
    ensure!(at == uvs.len(), "segments hold {at} of {} UVs", uvs.len());
    Ok(())
}
fn c05_uvs(cx: &mut Cx) -> R {
    let n = gen::any_len(&mut cx.rng, 50);
    let v: Vec<Vector2> = (0..n).map(|_| (gen::uv01(&mut cx.rng), gen::uv01(&mut cx.rng))).collect();
    let res = cx.rng.pick(&[1024.0, 1.0, 2.0, 3.0, 65536.0, 1e9, 1e30, 4096.0, 8.0]);
    let dev = cx.rng.pick(&[0.1, 1.0, 1e-3, 1e-9, 1e-30, 0.5, 2.0]);
    cx.key = hash(&v.iter().map(|x| x.0.to_bits() as u64).collect::<Vec<_>>());
    cx.nontrivial = n > 0;
    cx.input = format!("resolution {res} deviation {dev} uvs {v:?}");
    check_uvs(&v, res, dev)
}
fn c05_uv_range(cx: &mut Cx) -> R {
    // consecutive floats of [0,1]: thorough covers all 2^30 of them over the seeds' stride
    let bits = cx.rng.range(1, 40) as i32;
    let per = 16384u64;
    let total = 1.0f32.to_bits() as u64 + 1;
    let start = if cx.thorough { (cx.idx * per) % total } else { cx.rng.u64() % total };
    let v: Vec<Vector2> = (0..per / 2)
        .map(|i| {
            let a = (start + 2 * i).min(total - 1) as u32;
            let b = (start + 2 * i + 1).min(total - 1) as u32;
            (f32::from_bits(a), f32::from_bits(b))
        })
        .collect();
    cx.key = hash(&[start, bits as u64]);
    cx.input = format!("floats with bit patterns {start}..{} as UVs at {bits} bits", start + per);
    check_uvs(&v, 2f32.powi(bits), 1.0)
}
fn c05_floats(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = gen::any_len(r, 50);
    let s = gen::scale(r, true);
    let o = match r.below(3) {
        0 => 0.0,
        1 => s * r.f(-5.0, 5.0),
        _ => r.f(-10.0, 10.0),
    };
    let same = r.chance(10);
    let v: Vec<f32> = (0..n)
        .map(|_| {
            let x = match r.below(6) {
                0 => 1.0,
                1 => -1.0,
                2 => 0.0,
                _ => r.f(-1.0, 1.0),
            };
            if same {
                o
            } else {
                x * s + o
            }
        })
        .collect();
    let lo = v.iter().copied().fold(f32::INFINITY, f32::min);
    let hi = v.iter().copied().fold(f32::NEG_INFINITY, f32::max);
    let prec = match r.below(3) {
        0 => 0.01,
        1 => s * r.pick(&[0.5, 0.01, 1.0, 2.0, 1e-6]),
        _ => r.pick(&[1e-30, 1e-9, 1.0, 1e9, 0.3]),
    };
    cx.key = hash(&v.iter().map(|x| x.to_bits() as u64).collect::<Vec<_>>());
    cx.input = format!("precision {prec:e} floats {v:?}");
    if n > 0 && !((hi - lo).is_finite() && prec > 0.0) {
        cx.nontrivial = false;
        return Ok(());
    }
    cx.nontrivial = n > 1;
    let mut m = TMFMesh::empty();
    m.add_custom_data(CustomData::CustomFloat(v.clone().into(), prec), "f").map_err(|_| "name refused")?;
    let bytes = save1(&m, &TMFPrecisionInfo::default())?;
    let back = load1(&bytes)?;
    let got = back.lookup_custom_data("f").and_then(|c| c.as_float()).ok_or("custom floats lost")?.0;
    ensure!(got.len() == v.len(), "{} floats became {}", v.len(), got.len());
    let sg = segs(&bytes, &[CF])?;
    ensure!(sg.len() == 1, "{} float segments", sg.len());
    let d = &sg[0].data;
    let b = d[1 + d[0] as usize + 24];
    if n > 0 {
        let span = hi as f64 - lo as f64;
        let big = (lo.abs() as f64).max(hi.abs() as f64);
        ensure!(span == 0.0 || bits_ok(b, span / prec as f64), "{b} bits for a span of {span:e} at precision {prec:e}");
        let step = span / ((1u128 << b) - 1) as f64;
        for (i, (o, g)) in v.iter().zip(got).enumerate() {
            ensure!(
                (*o as f64 - *g as f64).abs() <= step * (1.0 + 1e-4) + REL * (big + span) + 4.0 * f32::MIN_POSITIVE as f64,
                "float {i}: {o:e} became {g:e} at {b} bits (step {step:e})"
            );
        }
    }
    Ok(())
}
fn c05_colours(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = gen::any_len(r, 40);
    let v: Vec<Vector4> = (0..n).map(|_| (gen::uv01(r), gen::uv01(r), gen::uv01(r), gen::uv01(r))).collect();
    let prec = r.pick(&[0.01, 0.5, 1.0, 2.0, 1e-9, 1e-30, 0.004, 1e-6, 0.25, 0.26]);
    cx.key = hash(&v.iter().map(|x| x.0.to_bits() as u64).collect::<Vec<_>>());
    cx.nontrivial = n > 0;
    cx.input = format!("precision {prec:e} colours {v:?}");
    let mut m = TMFMesh::empty();
    m.add_custom_data(CustomData::CustomColorRGBA(v.clone().into(), prec), "c").map_err(|_| "name refused")?;
    let bytes = save1(&m, &TMFPrecisionInfo::default())?;
    let back = load1(&bytes)?;
    let got = back.lookup_custom_data("c").and_then(|c| c.as_color_rgba()).ok_or("colours lost")?.0;
    ensure!(got.len() == v.len(), "{} colours became {}", v.len(), got.len());
    let sg = segs(&bytes, &[CC])?;
    ensure!(sg.len() == 1, "{} colour segments", sg.len());
    let d = &sg[0].data;
    let b = d[1 + d[0] as usize + 8];
    ensure!(bits_ok(b, 1.0 / prec as f64), "{b} bits for precision {prec:e}");
    let step = 1.0 / ((1u128 << b) - 1) as f64;
    for i in 0..n {
        for (o, g) in [(v[i].0, got[i].0), (v[i].1, got[i].1), (v[i].2, got[i].2), (v[i].3, got[i].3)] {
            ensure!((o as f64 - g as f64).abs() <= step + 5e-7, "colour {i}: {o:e} became {g:e} at {b} bits");
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C06
pub fn c06() -> Vec<Kind> {
    vec![
        Kind { name: "normals", f: c06_normals, quick: 30_000, thorough: 1_500_000 },
        Kind { name: "tangents", f: c06_tangents, quick: 20_000, thorough: 800_000 },
        Kind { name: "axis_grid", f: c06_axis, quick: 63 * 30, thorough: 63 * 600 },
    ]
}
fn asin_err(u: f64, eps: f64) -> f64 {
    let c = |x: f64| x.clamp(0.0, 1.0).asin();
    (c(u + eps) - c(u)).max(c(u) - c(u - eps))
}
fn check_unit(o: Vector3, g: Vector3, b: u8) -> R {
    let fast = cfg!(feature = "alt");
    let step = 1.0 / ((1u128 << b) - 1) as f64;
    for k in 0..3 {
        let (oc, gc) = (comp(&o, k), comp(&g, k));
        ensure!(gc.is_finite(), "{o:?} became {g:?}");
        if gc.abs() > 1e-6 && oc != 0.0 {
            ensure!((gc < 0.0) == (oc < 0.0), "component {k} of {o:?} changed its sign: {g:?} ({b} bits)");
        }
        if gc.abs() > 1e-6 && oc == 0.0 {
            ensure!(gc > 0.0, "component {k} of {o:?} became negative: {g:?} ({b} bits)");
        }
    }
    let dz = ((o.2.abs() as f64).min(1.0) - g.2.abs() as f64).abs();
    ensure!(dz <= step + 1e-6, "|z| of {o:?} became {:e}, off by {dz:e}, step {step:e} ({b} bits)", g.2.abs());
    let len = ((g.0 as f64).powi(2) + (g.1 as f64).powi(2) + (g.2 as f64).powi(2)).sqrt();
    ensure!((len - 1.0).abs() <= if fast { 1e-3 } else { 1e-5 }, "{o:?} became {g:?} with length {len}");
    // The angle around z, in right angles.
    let om = ((o.0 as f64).powi(2) + (o.1 as f64).powi(2)).sqrt();
    let gm = ((g.0 as f64).powi(2) + (g.1 as f64).powi(2)).sqrt();
    if om > 1e-18 && gm > 1e-18 {
        let ou = (o.0.abs() as f64 / om).min(1.0);
        let gu = (g.0.abs() as f64 / gm).min(1.0);
        let half = std::f64::consts::FRAC_PI_2;
        let tol = asin_err(ou, 4e-7) + asin_err(gu, if fast { 1e-3 } else { 4e-7 }) + 2e-6;
        let d = (ou.asin() - gu.asin()).abs();
        ensure!(
            d <= step * half + tol,
            "the angle of {o:?} around z is off by {:e} right angles, step {step:e} ({b} bits): {g:?}",
            d / half
        );
    }
    Ok(())
}
/// A deviation in radians and the number of bits it calls for.
fn rad(cx: &mut Cx) -> f32 {
    match cx.rng.below(3) {
        0 => std::f32::consts::FRAC_PI_2 / 2f32.powi(cx.rng.range(0, 40) as i32) * cx.rng.pick(&[1.0, 1.01, 0.99]),
        1 => cx.rng.f(0.0001, 2.0),
        _ => cx.rng.pick(&[0.0174533, 3.0, 10.0, 1e-6, 1e-12, 1e-30, 0.3]),
    }
}
fn run_normals(v: &[Vector3], rad: f32) -> R {
    let mut m = TMFMesh::empty();
    m.set_normals(v.to_vec());
    let pi = TMFPrecisionInfo { normal_precision: NormalPrecisionMode::from_rad_dev(rad), ..Default::default() };
    let bytes = save1(&m, &pi)?;
    let back = load1(&bytes)?;
    let got = back.get_normals().ok_or("no normals after loading")?;
    ensure!(got.len() == v.len(), "{} normals became {}", v.len(), got.len());
    let sg = segs(&bytes, &[N])?;
    ensure!(sg.iter().all(|s| s.data.len() >= 9), "short normal segment");
    let b = sg.first().map_or(1, |s| s.data[8]);
    ensure!(b >= 1, "0 bits");
    ensure!(bits_ok(b, std::f64::consts::FRAC_PI_2 / rad as f64), "{b} bits for a deviation of {rad:e} rad");
    for (o, g) in v.iter().zip(got) {
        check_unit(*o, *g, b)?;
    }
    Ok(())
}
fn accepted(v: Vector3) -> bool {
    let mag = ((v.0 as f64).powi(2) + (v.1 as f64).powi(2) + (v.2 as f64).powi(2)).sqrt();
    (mag - 1.0).abs() <= 0.0009999
}
fn c06_normals(cx: &mut Cx) -> R {
    let n = cx.rng.range(1, 20);
    let v: Vec<Vector3> = (0..n).map(|_| gen::unit(&mut cx.rng)).filter(|v| accepted(*v)).collect();
    let rad = rad(cx);
    cx.key = hash(&v.iter().map(|x| x.0.to_bits() as u64).collect::<Vec<_>>());
    cx.input = format!("deviation {rad:e} rad, normals {v:?}");
    run_normals(&v, rad)
}
fn c06_axis(cx: &mut Cx) -> R {
    // all signed axes and plane diagonals at every precision, slightly longer and shorter
    let bits = (cx.idx % 63) as i32;
    let s = match cx.idx / 63 {
        0 => 1.0,
        1 => 1.0009,
        2 => 0.9991,
        _ => 1.0 + cx.rng.f(-0.00099, 0.00099),
    };
    let mut v = Vec::new();
    for a in -1i32..=1 {
        for b in -1i32..=1 {
            for c in -1i32..=1 {
                let l = ((a * a + b * b + c * c) as f32).sqrt();
                if l > 0.0 {
                    v.push((a as f32 / l * s, b as f32 / l * s, c as f32 / l * s));
                }
            }
        }
    }
    let v: Vec<_> = v.into_iter().filter(|v| accepted(*v)).collect();
    let rad = std::f32::consts::FRAC_PI_2 / 2f32.powi(bits);
    cx.key = hash(&[bits as u64, s.to_bits() as u64]);
    cx.input = format!("deviation {rad:e} rad, axes and diagonals of length {s}");
    run_normals(&v, rad)
}
fn c06_tangents(cx: &mut Cx) -> R {
    let n = cx.rng.range(1, 20);
    let v: Vec<Tangent> = (0..n)
        .map(|_| (gen::unit(&mut cx.rng), cx.rng.pick(&[1.0, -1.0])))
        .filter(|v| accepted(v.0))
        .collect();
    let rad = rad(cx);
    cx.key = hash(&v.iter().map(|x| x.0 .0.to_bits() as u64).collect::<Vec<_>>());
    cx.input = format!("deviation {rad:e} rad, tangents {v:?}");
    let mut m = TMFMesh::empty();
    m.set_tangents(v.clone());
    let pi = TMFPrecisionInfo { tangent_prec: TangentPrecisionMode::from_rad_dev(rad), ..Default::default() };
    let bytes = save1(&m, &pi)?;
    let back = load1(&bytes)?;
    let got = back.get_tangents().ok_or("no tangents after loading")?;
    ensure!(got.len() == v.len(), "{} tangents became {}", v.len(), got.len());
    let sg = segs(&bytes, &[T])?;
    ensure!(sg.iter().all(|s| s.data.len() >= 9), "short tangent segment");
    let b = sg.first().map_or(1, |s| s.data[8]);
    ensure!(b >= 1 && bits_ok(b, std::f64::consts::FRAC_PI_2 / rad as f64), "{b} bits for a deviation of {rad:e} rad");
    for (o, g) in v.iter().zip(got) {
        ensure!(g.1 == o.1, "handedness {} became {}", o.1, g.1);
        check_unit(o.0, g.0, b)?;
    }
    Ok(())
}
