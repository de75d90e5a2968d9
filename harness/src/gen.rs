//! Generators of meshes and their parts.
use crate::cx::*;
use tmf::*;

pub fn indices(r: &mut Rng, len: usize, max: u32) -> Vec<u32> {
    // max: inclusive bound
    let style = r.below(9);
    let m = max as u64 + 1;
    let mut v = Vec::with_capacity(len);
    let lo = (r.u64() % m) as u32;
    for i in 0..len {
        let x = match style {
            0 => (r.u64() % m) as u32,
            1 => (i as u64 % m) as u32,
            2 => (m - 1 - (i as u64 % m)) as u32,
            3 => lo,
            4 => r.logu32().min(max),
            5 => max - r.logu32().min(max),
            6 => {
                // sliding window, sometimes jumping
                let base = (i as u64 * (m / (len as u64 + 1)).max(1)) % m;
                ((base + r.u64() % 16) % m) as u32
            }
            7 => {
                // a long small prefix and a big tail (or the reverse)
                let half = if lo & 1 == 0 { i * 2 < len } else { i * 2 >= len };
                if half {
                    (r.u64() % m.min(4)) as u32
                } else {
                    max - (r.u64() % m.min(4)) as u32
                }
            }
            _ => lo.saturating_add(r.logu32()).min(max),
        };
        v.push(x);
    }
    v
}
pub fn any_len(r: &mut Rng, big: usize) -> usize {
    match r.below(6) {
        0 => r.below(4),
        1 => r.below(20),
        2 | 3 => r.below(200),
        _ => r.below(big.max(1)),
    }
}
pub fn edge_u32(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => {
            let k = r.range(0, 32);
            let p = if k == 32 { 0u32 } else { 1u32 << k };
            p.wrapping_add(r.range(0, 4) as u32).wrapping_sub(2)
        }
        1 => r.logu32(),
        2 => r.pick(&[0, 1, 2, 3, u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 255, 256, 65535, 65536]),
        _ => r.u32(),
    }
}
pub fn unit(r: &mut Rng) -> Vector3 {
    let style = r.below(8);
    let mut v = match style {
        0 => {
            let mut a = [0.0f32; 3];
            a[r.below(3)] = if r.bool() { 1.0 } else { -1.0 };
            return (a[0], a[1], a[2]);
        }
        1 => {
            // in a coordinate plane
            let t = r.f(0.0, 6.2831855);
            let mut a = [t.sin(), t.cos(), 0.0];
            let k = r.below(3);
            a.swap(2, k);
            (a[0], a[1], a[2])
        }
        2 => {
            // close to an axis
            let mut a = [0.0f32; 3];
            for x in a.iter_mut() {
                let e = 10f32.powi(-(r.range(1, 8) as i32));
                *x = r.f(-e, e);
            }
            a[r.below(3)] = if r.bool() { 1.0 } else { -1.0 };
            (a[0], a[1], a[2])
        }
        _ => (r.f(-1.0, 1.0), r.f(-1.0, 1.0), r.f(-1.0, 1.0)),
    };
    let m = ((v.0 as f64).powi(2) + (v.1 as f64).powi(2) + (v.2 as f64).powi(2)).sqrt() as f32;
    if !(m > 1e-6) {
        v = (0.0, 0.0, 1.0);
    } else {
        v = (v.0 / m, v.1 / m, v.2 / m);
    }
    if r.chance(30) {
        let s = 1.0 + r.f(-0.0009, 0.0009);
        v = (v.0 * s, v.1 * s, v.2 * s);
    }
    if r.chance(10) {
        v.0 = if v.0 == 0.0 { -0.0 } else { v.0 };
        v.1 = if v.1 == 0.0 { -0.0 } else { v.1 };
    }
    v
}
pub fn uv01(r: &mut Rng) -> f32 {
    match r.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => f32::from_bits(1.0f32.to_bits() - 1 - r.below(4) as u32),
        3 => f32::from_bits(r.below(1 << 20) as u32),
        4 => 1.0 / (1u32 << r.below(24)) as f32,
        _ => r.f01(),
    }
}
pub fn scale(r: &mut Rng, extreme: bool) -> f32 {
    if extreme && r.chance(40) {
        2f32.powi(r.range(0, 240) as i32 - 120)
    } else {
        10f32.powi(r.range(0, 10) as i32 - 5)
    }
}
/// A cloud of vertices; the three axes usually have very different ranges.
pub fn vertices(r: &mut Rng, len: usize, extreme: bool) -> Vec<Vector3> {
    let mut sc = [0.0f32; 3];
    let mut off = [0.0f32; 3];
    let same = r.chance(15);
    let s0 = scale(r, extreme);
    for i in 0..3 {
        sc[i] = if same { s0 } else { scale(r, extreme) };
        if r.chance(10) {
            sc[i] = 0.0;
        }
        off[i] = match r.below(4) {
            0 => 0.0,
            1 => sc[i] * r.f(-3.0, 3.0),
            2 => sc[i] * r.f(-100.0, 100.0),
            _ => r.f(-10.0, 10.0),
        };
    }
    let style = r.below(6);
    let mut v: Vec<Vector3> = Vec::with_capacity(len);
    for i in 0..len {
        let grow = match style {
            0 => (i + 1) as f32 / len as f32,
            1 => {
                if i * 4 < len * 3 {
                    0.001
                } else {
                    1.0
                }
            }
            2 => (2f32).powi(-((i as i32 * 16) / (len as i32).max(1))),
            _ => 1.0,
        };
        let mut p = [0.0f32; 3];
        for k in 0..3 {
            let x = match r.below(12) {
                0 => 0.0,
                1 => 1.0,
                2 => -1.0,
                _ => r.f(-1.0, 1.0),
            };
            p[k] = x * sc[k] * grow + off[k];
        }
        if style == 5 && i > 0 && r.chance(60) {
            v.push(v[r.below(i)]);
        } else {
            v.push((p[0], p[1], p[2]));
        }
    }
    v
}
pub fn bits_eq3(a: &[Vector3], b: &[Vector3]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.0.to_bits() == y.0.to_bits() && x.1.to_bits() == y.1.to_bits() && x.2.to_bits() == y.2.to_bits()
        })
}
pub fn name(r: &mut Rng, max: usize) -> String {
    let n = match r.below(5) {
        0 => r.below(3),
        1 => max,
        _ => r.below(20),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(5) {
            0 => r.pick(&['é', '漢', '😀', 'ß', '\u{7f}', '\u{0}', '\n']),
            _ => r.range(32, 126) as u8 as char,
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('x');
        }
    }
    s
}
#[derive(Clone, Copy)]
pub struct Opt {
    pub big: usize,
    pub extreme: bool,
    pub custom: bool,
    /// per cent chance of each optional array
    pub p: usize,
    /// triangle arrays of equal length and multiples of three
    pub equal_len: bool,
}
/// A mesh which passes the integrity check.
pub fn valid_mesh(r: &mut Rng, o: Opt) -> TMFMesh {
    let mut m = TMFMesh::empty();
    let tl = any_len(r, o.big);
    let tl = if o.equal_len || r.chance(70) { tl / 3 * 3 } else { tl };
    let share = r.chance(30);
    let mut shared: Option<Vec<u32>> = None;
    let len_of = |r: &mut Rng| if o.equal_len { tl } else if r.chance(70) { tl } else { r.below(tl + 2) };
    if r.chance(o.p) {
        let n = any_len(r, o.big);
        m.set_vertices(vertices(r, n, o.extreme));
        if n > 0 && r.chance(o.p) || (n == 0 && r.chance(20)) {
            let l = if n == 0 { 0 } else { len_of(r) };
            let t = if n == 0 { vec![] } else { indices(r, l, n as u32 - 1) };
            if share {
                shared = Some(t.clone());
            }
            m.set_vertex_triangles(t);
        }
    }
    if r.chance(o.p) {
        let n = any_len(r, o.big).max(if share { shared.as_ref().and_then(|s| s.iter().max().copied()).map_or(0, |x| x as usize + 1) } else { 0 });
        m.set_normals((0..n).map(|_| unit(r)).collect::<Vec<_>>());
        if n > 0 && r.chance(o.p) {
            let t = match &shared {
                Some(s) if r.chance(80) => s.clone(),
                _ => {
                    let l = len_of(r);
                    indices(r, l, n as u32 - 1)
                }
            };
            m.set_normal_triangles(t);
        }
    }
    if r.chance(o.p) {
        let n = any_len(r, o.big).max(if share { shared.as_ref().and_then(|s| s.iter().max().copied()).map_or(0, |x| x as usize + 1) } else { 0 });
        m.set_uvs((0..n).map(|_| (uv01(r), uv01(r))).collect::<Vec<_>>());
        if n > 0 && r.chance(o.p) {
            let t = match &shared {
                Some(s) if r.chance(80) => s.clone(),
                _ => {
                    let l = len_of(r);
                    indices(r, l, n as u32 - 1)
                }
            };
            m.set_uv_triangles(t);
        }
    }
    if r.chance(o.p) {
        let n = any_len(r, o.big);
        m.set_tangents((0..n).map(|_| (unit(r), if r.bool() { 1.0 } else { -1.0 })).collect::<Vec<_>>());
        if n > 0 && r.chance(o.p) {
            let l = len_of(r);
            m.set_tangent_triangles(indices(r, l, n as u32 - 1));
        }
    }
    if o.custom && r.chance(o.p) {
        for i in 0..r.below(5) {
            let nm = format!("c{}_{}", i, name(r, 100));
            m.add_custom_data(custom(r, 60), &nm).unwrap();
        }
    }
    m
}
pub fn custom(r: &mut Rng, len: usize) -> CustomData {
    let n = r.below(len + 1);
    match r.below(4) {
        0 => {
            let mx = edge_u32(r);
            CustomData::CustomIndex(indices(r, n, mx).into(), r.pick(&[0, 1, mx as usize, usize::MAX, 77]))
        }
        1 => {
            let mx = edge_u32(r);
            CustomData::CustomIntiger(indices(r, n, mx).into(), r.pick(&[0, 1, mx as usize, usize::MAX, 77]))
        }
        2 => {
            let s = scale(r, true);
            let o = if r.bool() { 0.0 } else { s * r.f(-5.0, 5.0) };
            let v: Vec<f32> = (0..n).map(|_| s * r.f(-1.0, 1.0) + o).collect();
            let p = r.pick(&[0.01, 0.5, 1.0, 1e-9, 1e-30, 3.0, 0.001]) * if r.bool() { s } else { 1.0 };
            CustomData::CustomFloat(v.into(), if p > 0.0 { p } else { 0.01 })
        }
        _ => {
            let v: Vec<Vector4> = (0..n).map(|_| (uv01(r), uv01(r), uv01(r), uv01(r))).collect();
            CustomData::CustomColorRGBA(v.into(), r.pick(&[0.01, 0.5, 1.0, 2.0, 1e-9, 1e-30, 0.004]))
        }
    }
}
pub fn precision(r: &mut Rng) -> (TMFPrecisionInfo, String) {
    let vp = r.pick(&[0.1, 0.01, 0.5, 1.0, 3.0, 1e-3, 1e-6, 1e-20, 1e-38, 10.0, 1e9]);
    let nd = r.pick(&[1.0, 0.1, 5.0, 45.0, 90.0, 180.0, 1e-3, 1e-6, 1e-12, 1e-30]);
    let td = r.pick(&[1.0, 0.1, 5.0, 45.0, 90.0, 180.0, 1e-3, 1e-6, 1e-12, 1e-30]);
    let ur = r.pick(&[1024.0, 1.0, 2.0, 65536.0, 1e9, 1e30, 100.0]);
    let ud = r.pick(&[0.1, 1.0, 1e-3, 1e-9, 1e-30, 50.0]);
    (
        TMFPrecisionInfo {
            vertex_precision: VertexPrecisionMode(vp),
            normal_precision: NormalPrecisionMode::from_deg_dev(nd),
            uv_prec: UvPrecisionMode::form_texture_resolution(ur, ud),
            tangent_prec: TangentPrecisionMode::from_deg_dev(td),
        },
        format!("vertex {vp} normal {nd}° tangent {td}° uv {ur}/{ud}"),
    )
}
pub fn describe(m: &TMFMesh) -> String {
    format!(
        "vertices {:?} vertex_triangles {:?} normals {:?} normal_triangles {:?} uvs {:?} uv_triangles {:?} tangents {:?} tangent_triangles {:?}",
        m.get_vertices(),
        m.get_vertex_triangles(),
        m.get_normals(),
        m.get_normal_triangles(),
        m.get_uvs(),
        m.get_uv_triangles(),
        m.get_tangents(),
        m.get_tangent_triangles()
    )
}
pub fn mesh_hash(m: &TMFMesh, with_normals: bool) -> u64 {
    let mut h = Vec::new();
    let f3 = |h: &mut Vec<u64>, v: Option<&[Vector3]>| match v {
        None => h.push(1),
        Some(v) => {
            h.push(v.len() as u64 + 2);
            for x in v {
                h.extend([x.0.to_bits() as u64, x.1.to_bits() as u64, x.2.to_bits() as u64]);
            }
        }
    };
    let ix = |h: &mut Vec<u64>, v: Option<&[u32]>| match v {
        None => h.push(1),
        Some(v) => {
            h.push(v.len() as u64 + 2);
            h.extend(v.iter().map(|x| *x as u64));
        }
    };
    f3(&mut h, m.get_vertices());
    ix(&mut h, m.get_vertex_triangles());
    ix(&mut h, m.get_normal_triangles());
    ix(&mut h, m.get_uv_triangles());
    ix(&mut h, m.get_tangent_triangles());
    if with_normals {
        f3(&mut h, m.get_normals());
        match m.get_tangents() {
            None => h.push(1),
            Some(t) => {
                let v: Vec<Vector3> = t.iter().map(|x| x.0).collect();
                f3(&mut h, Some(&v));
                h.extend(t.iter().map(|x| x.1.to_bits() as u64));
            }
        }
    } else {
        h.push(m.get_normals().map_or(0, |x| x.len() as u64 + 1));
        h.push(m.get_tangents().map_or(0, |x| x.len() as u64 + 1));
    }
    match m.get_uvs() {
        None => h.push(1),
        Some(v) => {
            h.push(v.len() as u64 + 2);
            for x in v {
                h.extend([x.0.to_bits() as u64, x.1.to_bits() as u64]);
            }
        }
    }
    hash(&h)
}
pub fn custom_hash(c: &CustomData) -> u64 {
    let mut h = Vec::new();
    match c {
        CustomData::CustomIndex(v, _) => {
            h.push(1);
            h.extend(v.iter().map(|x| *x as u64))
        }
        CustomData::CustomIntiger(v, _) => {
            h.push(2);
            h.extend(v.iter().map(|x| *x as u64))
        }
        CustomData::CustomFloat(v, p) => {
            h.push(3);
            h.push(p.to_bits() as u64);
            h.extend(v.iter().map(|x| x.to_bits() as u64))
        }
        CustomData::CustomColorRGBA(v, p) => {
            h.push(4);
            h.push(p.to_bits() as u64);
            h.extend(v.iter().flat_map(|x| [x.0.to_bits() as u64, x.1.to_bits() as u64, x.2.to_bits() as u64, x.3.to_bits() as u64]))
        }
    }
    hash(&h)
}
