//! Properties of in-memory meshes: C08, C09, C10, C13, C16.
use super::*;
use crate::ensure;
use crate::gen;
use crate::gen::{bits_eq3, Opt};

type Ix = Option<Vec<u32>>;
fn bits2(a: &[Vector2]) -> Vec<[u32; 2]> {
    a.iter().map(|v| [v.0.to_bits(), v.1.to_bits()]).collect()
}
fn bits3(a: &[Vector3]) -> Vec<[u32; 3]> {
    a.iter().map(|v| [v.0.to_bits(), v.1.to_bits(), v.2.to_bits()]).collect()
}
fn bits4(a: &[Tangent]) -> Vec<[u32; 4]> {
    a.iter().map(|v| [v.0 .0.to_bits(), v.0 .1.to_bits(), v.0 .2.to_bits(), v.1.to_bits()]).collect()
}
/// Everything observable about a mesh, floats as bit patterns.
#[derive(Clone, PartialEq, Debug)]
struct Model {
    v: Option<Vec<[u32; 3]>>,
    n: Option<Vec<[u32; 3]>>,
    u: Option<Vec<[u32; 2]>>,
    t: Option<Vec<[u32; 4]>>,
    vt: Ix,
    nt: Ix,
    ut: Ix,
    tt: Ix,
}
fn model(m: &TMFMesh) -> Model {
    Model {
        v: m.get_vertices().map(bits3),
        n: m.get_normals().map(bits3),
        u: m.get_uvs().map(bits2),
        t: m.get_tangents().map(bits4),
        vt: m.get_vertex_triangles().map(|x| x.to_vec()),
        nt: m.get_normal_triangles().map(|x| x.to_vec()),
        ut: m.get_uv_triangles().map(|x| x.to_vec()),
        tt: m.get_tangent_triangles().map(|x| x.to_vec()),
    }
}
fn expand<T: Clone>(d: &Option<Vec<T>>, i: &Ix) -> Option<Vec<T>> {
    let d = d.as_ref()?;
    i.as_ref()?.iter().map(|k| d.get(*k as usize).cloned()).collect()
}
fn wild_mesh(r: &mut Rng) -> TMFMesh {
    let mut m = gen::valid_mesh(r, Opt { big: 30, extreme: true, custom: false, p: 60, equal_len: false });
    if r.chance(20) {
        return m;
    }
    for _ in 0..r.range(1, 2) {
        match r.below(14) {
            0 => {
                let n = m.get_vertices().map_or(0, |v| v.len()) as u32;
                let mut t = m.get_vertex_triangles().map(|t| t.to_vec()).unwrap_or_default();
                let i = r.below(t.len() + 1);
                t.insert(i, n + r.pick(&[0, 1, 100, u32::MAX - n]));
                m.set_vertex_triangles(t);
            }
            1 => {
                let n = m.get_normals().map_or(0, |v| v.len()) as u32;
                let mut t = m.get_normal_triangles().map(|t| t.to_vec()).unwrap_or_default();
                let i = r.below(t.len() + 1);
                t.insert(i, n + r.pick(&[0, 1, 100, u32::MAX - n]));
                m.set_normal_triangles(t);
            }
            2 => {
                let n = m.get_uvs().map_or(0, |v| v.len()) as u32;
                let mut t = m.get_uv_triangles().map(|t| t.to_vec()).unwrap_or_default();
                let i = r.below(t.len() + 1);
                t.insert(i, n + r.pick(&[0, 1, 100, u32::MAX - n]));
                m.set_uv_triangles(t);
            }
            3 | 4 => {
                let mut v = m.get_normals().map(|t| t.to_vec()).unwrap_or_default();
                let i = r.below(v.len() + 1);
                let s = r.pick(&[0.0, 0.5, 2.0, 1.0011, 0.9989, 1.01, f32::NAN, f32::INFINITY, 1.0009, 0.9991]);
                let u = gen::unit(r);
                v.insert(i, (u.0 * s, u.1 * s, u.2 * s));
                m.set_normals(v);
            }
            5 | 6 => {
                let mut v = m.get_uvs().map(|t| t.to_vec()).unwrap_or_default();
                let i = r.below(v.len() + 1);
                let bad = r.pick(&[-1e-9, -1.0, 1.0000001, 2.0, f32::NAN, f32::INFINITY, -0.0, 1.0, -f32::MIN_POSITIVE, 1e30]);
                let g = gen::uv01(r);
                v.insert(i, if r.bool() { (bad, g) } else { (g, bad) });
                m.set_uvs(v);
            }
            // an index array without its data array
            7 => {
                let mut x = TMFMesh::empty();
                let n = r.below(3);
                x.set_vertex_triangles(gen::indices(r, n, 2));
                if r.bool() {
                    x.set_normals(vec![gen::unit(r)]);
                }
                m = x;
            }
            8 => {
                let mut x = TMFMesh::empty();
                let n = r.below(3);
                x.set_normal_triangles(gen::indices(r, n, 2));
                if r.bool() {
                    x.set_vertices(vec![(0.0, 0.0, 0.0)]);
                }
                m = x;
            }
            9 => {
                let mut x = TMFMesh::empty();
                let n = r.below(3);
                x.set_uv_triangles(gen::indices(r, n, 2));
                m = x;
            }
            // empty data arrays
            10 => {
                m.set_vertices(vec![]);
            }
            11 => {
                m.set_normals(vec![]);
            }
            12 => {
                m.set_uvs(vec![]);
            }
            _ => {
                let mut v = m.get_normals().map(|t| t.to_vec()).unwrap_or_default();
                v.push((f32::NAN, 0.0, 1.0));
                m.set_normals(v);
            }
        }
    }
    m
}
// ---------------------------------------------------------------- C08
pub fn c08() -> Vec<Kind> {
    vec![
        Kind { name: "meshes", f: c08_meshes, quick: 60_000, thorough: 2_000_000 },
        Kind { name: "single_faults", f: c08_single, quick: 40_000, thorough: 500_000 },
    ]
}
/// Some(true) valid, Some(false) invalid, None too close to the tolerance to tell.
fn reference_verdict(m: &TMFMesh) -> Option<bool> {
    let mut unsure = false;
    let mut ok = true;
    let ix = |t: Option<&[u32]>, n: Option<usize>| match (t, n) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(t), Some(n)) => t.iter().all(|i| (*i as usize) < n),
    };
    ok &= ix(m.get_vertex_triangles(), m.get_vertices().map(|x| x.len()));
    ok &= ix(m.get_normal_triangles(), m.get_normals().map(|x| x.len()));
    ok &= ix(m.get_uv_triangles(), m.get_uvs().map(|x| x.len()));
    for n in m.get_normals().unwrap_or(&[]) {
        let mag = ((n.0 as f64).powi(2) + (n.1 as f64).powi(2) + (n.2 as f64).powi(2)).sqrt();
        let d = (mag - 1.0).abs();
        if !(d <= 0.001 - 1e-6) {
            if d < 0.001 + 1e-6 {
                unsure = true;
            } else {
                ok = false;
            }
        }
    }
    for u in m.get_uvs().unwrap_or(&[]) {
        ok &= (0.0..=1.0).contains(&u.0) && (0.0..=1.0).contains(&u.1);
    }
    if !ok {
        Some(false)
    } else if unsure {
        None
    } else {
        Some(true)
    }
}
fn c08_check(cx: &mut Cx, m: TMFMesh) -> R {
    cx.key = gen::mesh_hash(&m, true);
    cx.input = gen::describe(&m);
    let before = model(&m);
    let got = m.verify();
    let got = match got {
        Ok(()) => true,
        Err(e) => {
            // describing the problem must not fail either
            let _ = format!("{e} {e:?}");
            false
        }
    };
    ensure!(model(&m) == before, "the integrity check changed the mesh");
    match reference_verdict(&m) {
        Some(true) => ensure!(got, "a mesh that meets all conditions was refused"),
        Some(false) => ensure!(!got, "an invalid mesh was accepted"),
        None => (),
    }
    if got {
        let both = |a: bool, b: bool, c: bool, what: &str| -> R {
            ensure!(!(a && b) || c, "the mesh was accepted but its {what} buffer does not exist");
            Ok(())
        };
        both(before.v.is_some(), before.vt.is_some(), m.get_vertex_buffer().is_some(), "vertex")?;
        both(before.n.is_some(), before.nt.is_some(), m.get_normal_buffer().is_some(), "normal")?;
        both(before.u.is_some(), before.ut.is_some(), m.get_uv_buffer().is_some(), "UV")?;
    }
    Ok(())
}
fn c08_meshes(cx: &mut Cx) -> R {
    let m = wild_mesh(&mut cx.rng);
    c08_check(cx, m)
}
/// Valid but for one element at a known place (first, last, anywhere).
fn c08_single(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.range(1, 8);
    let mut m = TMFMesh::empty();
    let mut vt = gen::indices(r, n * 3, n as u32 - 1);
    let mut nt = gen::indices(r, n * 3, n as u32 - 1);
    let mut ut = gen::indices(r, n * 3, n as u32 - 1);
    let mut no: Vec<Vector3> = (0..n).map(|_| gen::unit(r)).collect();
    let mut uv: Vec<Vector2> = (0..n).map(|_| (gen::uv01(r), gen::uv01(r))).collect();
    let at = |r: &mut Rng, n: usize| match r.below(3) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    let over = r.pick(&[n as u32, n as u32 + 1, u32::MAX]);
    let p = at(r, n * 3);
    let q = at(r, n);
    match r.below(7) {
        0 => vt[p] = over,
        1 => nt[p] = over,
        2 => ut[p] = over,
        3 => {
            let s = r.pick(&[0.99, 1.01, 0.0, f32::NAN, 1e20]);
            no[q] = (no[q].0 * s, no[q].1 * s, no[q].2 * s)
        }
        4 => uv[q].0 = r.pick(&[-0.001, 1.001, f32::NAN, -1e-30]),
        5 => uv[q].1 = r.pick(&[-0.001, 1.001, f32::NAN, -1e-30]),
        _ => (),
    }
    let v = gen::vertices(r, n, true);
    m.set_vertices(v);
    m.set_normals(no);
    m.set_uvs(uv);
    if r.chance(80) {
        m.set_vertex_triangles(vt);
    }
    if r.chance(80) {
        m.set_normal_triangles(nt);
    }
    if r.chance(80) {
        m.set_uv_triangles(ut);
    }
    c08_check(cx, m)
}
// ---------------------------------------------------------------- C09
pub fn c09() -> Vec<Kind> {
    vec![Kind { name: "meshes", f: c09_meshes, quick: 30_000, thorough: 1_000_000 }]
}
fn in_bounds_mesh(r: &mut Rng, o: Opt) -> TMFMesh {
    let mut m = gen::valid_mesh(r, o);
    // any values are allowed here
    if r.chance(20) {
        if let Some(v) = m.get_normals().map(|v| v.to_vec()) {
            m.set_normals(v.iter().map(|x| if r.chance(30) { (f32::NAN, x.1, 7.0) } else { *x }).collect::<Vec<_>>());
        }
        if let Some(v) = m.get_uvs().map(|v| v.to_vec()) {
            m.set_uvs(v.iter().map(|x| if r.chance(30) { (-0.0, x.1 * 9.0) } else { *x }).collect::<Vec<_>>());
        }
    }
    m
}
fn custom_state(m: &TMFMesh) -> Vec<u64> {
    (0..6).map(|i| m.lookup_custom_data(&format!("k{i}")).map_or(0, gen::custom_hash)).collect()
}
fn add_customs(r: &mut Rng, m: &mut TMFMesh) {
    for i in 0..r.below(4) {
        let d = gen::custom(r, 10);
        let _ = m.add_custom_data(d, &format!("k{i}"));
    }
}
fn ordered(what: &str, ix: &Ix, n: Option<usize>) -> R {
    if let (Some(ix), Some(n)) = (ix, n) {
        // a mesh without triangles mentions nothing: reordering has nothing to go by
        if ix.is_empty() {
            return Ok(());
        }
        let mut next = 0u32;
        for (p, i) in ix.iter().enumerate() {
            ensure!(*i <= next, "{what}: position {p} mentions element {i} before element {next}");
            if *i == next {
                next += 1;
            }
        }
        ensure!(next as usize == n, "{what}: {n} elements but only {next} are used");
    }
    Ok(())
}
fn c09_meshes(cx: &mut Cx) -> R {
    let mut m = in_bounds_mesh(&mut cx.rng, Opt { big: 80, extreme: true, custom: false, p: 80, equal_len: false });
    add_customs(&mut cx.rng, &mut m);
    cx.key = gen::mesh_hash(&m, true);
    cx.input = gen::describe(&m);
    let a = model(&m);
    let ca = custom_state(&m);
    m.reorder_data();
    let b = model(&m);
    ensure!(expand(&a.v, &a.vt) == expand(&b.v, &b.vt), "the vertex buffer changed");
    ensure!(expand(&a.n, &a.nt) == expand(&b.n, &b.nt), "the normal buffer changed");
    ensure!(expand(&a.u, &a.ut) == expand(&b.u, &b.ut), "the UV buffer changed");
    let l = |x: &Ix| x.as_ref().map(|x| x.len());
    ensure!(l(&a.vt) == l(&b.vt) && l(&a.nt) == l(&b.nt) && l(&a.ut) == l(&b.ut), "the number of indices changed");
    ensure!(a.t == b.t && a.tt == b.tt, "tangents changed");
    ensure!(custom_state(&m) == ca, "custom data changed");
    ensure!(
        a.v.is_some() == b.v.is_some() && a.n.is_some() == b.n.is_some() && a.u.is_some() == b.u.is_some(),
        "arrays appeared or vanished"
    );
    // arrays without indices stay
    ensure!(a.vt.is_some() || a.v == b.v, "vertices without triangles changed");
    ensure!(a.nt.is_some() || a.n == b.n, "normals without triangles changed");
    ensure!(a.ut.is_some() || a.u == b.u, "UVs without triangles changed");
    ordered("vertices", &b.vt, b.v.as_ref().map(|x| x.len()))?;
    ordered("normals", &b.nt, b.n.as_ref().map(|x| x.len()))?;
    ordered("UVs", &b.ut, b.u.as_ref().map(|x| x.len()))?;
    Ok(())
}
// ---------------------------------------------------------------- C10
pub fn c10() -> Vec<Kind> {
    vec![Kind { name: "meshes", f: c10_meshes, quick: 30_000, thorough: 1_000_000 }]
}
fn c10_meshes(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let len = r.pick(&[0, 1, 3, 6, 30, 99]);
    let mut m = TMFMesh::empty();
    let shared = gen::indices(r, len, 4);
    let same_all = r.chance(15);
    for k in 0..4 {
        let has_data = r.chance(80);
        let has_ix = r.chance(80);
        let n = if len == 0 { r.below(4) } else { r.range(1, 12) };
        let n = if same_all { n.max(5) } else { n };
        let ix = if n == 0 {
            vec![]
        } else if same_all || (n >= 5 && r.chance(20)) {
            shared.clone()
        } else {
            gen::indices(r, len, n as u32 - 1)
        };
        let small = r.below(4);
        if has_data {
            match k {
                0 => {
                    let v = gen::vertices(r, n, false);
                    m.set_vertices(v);
                }
                1 => {
                    m.set_normals((0..n).map(|i| if small == 0 { (1.0, (i % 2) as f32, f32::NAN) } else { gen::unit(r) }).collect::<Vec<_>>());
                }
                2 => {
                    m.set_uvs((0..n).map(|_| (gen::uv01(r), if small == 0 { 0.0 } else { gen::uv01(r) })).collect::<Vec<_>>());
                }
                _ => {
                    m.set_tangents((0..n).map(|_| (gen::unit(r), 1.0)).collect::<Vec<_>>());
                }
            }
        }
        if has_ix && (has_data || r.chance(50)) {
            match k {
                0 => m.set_vertex_triangles(ix),
                1 => m.set_normal_triangles(ix),
                2 => m.set_uv_triangles(ix),
                _ => m.set_tangent_triangles(ix),
            };
        }
    }
    add_customs(r, &mut m);
    cx.key = gen::mesh_hash(&m, true);
    cx.input = gen::describe(&m);
    let a = model(&m);
    let ca = custom_state(&m);
    let mut m2 = copy(&m);
    m.unify_index_data();
    let b = model(&m);
    m2.unify_index_data();
    ensure!(model(&m2) == b, "two runs on the same mesh gave different results");
    let on_thread = std::thread::scope(|s| {
        s.spawn(|| {
            let mut m3 = TMFMesh::empty();
            fill(&mut m3, &a);
            m3.unify_index_data();
            model(&m3)
        })
        .join()
    });
    ensure!(on_thread.map(|x| x == b).unwrap_or(false), "a run on another thread gave a different result");
    ensure!(expand(&a.v, &a.vt) == expand(&b.v, &b.vt), "the vertex buffer changed");
    ensure!(expand(&a.n, &a.nt) == expand(&b.n, &b.nt), "the normal buffer changed");
    ensure!(expand(&a.u, &a.ut) == expand(&b.u, &b.ut), "the UV buffer changed");
    ensure!(expand(&a.t, &a.tt) == expand(&b.t, &b.tt), "the tangent buffer changed");
    ensure!(custom_state(&m) == ca, "custom data changed");
    let full = |d: bool, i: bool| d && i;
    let at = [
        (full(a.v.is_some(), a.vt.is_some()), a.vt.clone(), b.vt.clone(), a.v.as_ref().map(|x| x.len()), b.v.as_ref().map(|x| x.len())),
        (full(a.n.is_some(), a.nt.is_some()), a.nt.clone(), b.nt.clone(), a.n.as_ref().map(|x| x.len()), b.n.as_ref().map(|x| x.len())),
        (full(a.u.is_some(), a.ut.is_some()), a.ut.clone(), b.ut.clone(), a.u.as_ref().map(|x| x.len()), b.u.as_ref().map(|x| x.len())),
        (full(a.t.is_some(), a.tt.is_some()), a.tt.clone(), b.tt.clone(), a.t.as_ref().map(|x| x.len()), b.t.as_ref().map(|x| x.len())),
    ];
    let mut first: Option<Vec<u32>> = None;
    for (k, (full, was, now, la, lb)) in at.iter().enumerate() {
        if !full {
            ensure!(was == now && la == lb, "attribute {k}, which has no data or no indices, changed");
            continue;
        }
        let now = now.clone().ok_or(format!("the indices of attribute {k} vanished"))?;
        match &first {
            None => first = Some(now.clone()),
            Some(f) => ensure!(*f == now, "attribute {k} has different indices than the others: {f:?} {now:?}"),
        }
        if *was != Some(now.clone()) || la != lb {
            ordered(&format!("attribute {k}"), &Some(now), *lb)?;
        }
    }
    ensure!(at[0].0 || a.v == b.v, "vertices changed");
    ensure!(at[1].0 || a.n == b.n, "normals changed");
    ensure!(at[2].0 || a.u == b.u, "UVs changed");
    ensure!(at[3].0 || a.t == b.t, "tangents changed");
    Ok(())
}
fn copy(m: &TMFMesh) -> TMFMesh {
    let mut o = TMFMesh::empty();
    fill(&mut o, &model(m));
    o
}
fn fill(o: &mut TMFMesh, a: &Model) {
    let f = f32::from_bits;
    if let Some(v) = &a.v {
        o.set_vertices(v.iter().map(|x| (f(x[0]), f(x[1]), f(x[2]))).collect::<Vec<_>>());
    }
    if let Some(v) = &a.n {
        o.set_normals(v.iter().map(|x| (f(x[0]), f(x[1]), f(x[2]))).collect::<Vec<_>>());
    }
    if let Some(v) = &a.u {
        o.set_uvs(v.iter().map(|x| (f(x[0]), f(x[1]))).collect::<Vec<_>>());
    }
    if let Some(v) = &a.t {
        o.set_tangents(v.iter().map(|x| ((f(x[0]), f(x[1]), f(x[2])), f(x[3]))).collect::<Vec<_>>());
    }
    if let Some(v) = &a.vt {
        o.set_vertex_triangles(v.clone());
    }
    if let Some(v) = &a.nt {
        o.set_normal_triangles(v.clone());
    }
    if let Some(v) = &a.ut {
        o.set_uv_triangles(v.clone());
    }
    if let Some(v) = &a.tt {
        o.set_tangent_triangles(v.clone());
    }
}
// ---------------------------------------------------------------- C13
pub fn c13() -> Vec<Kind> {
    vec![
        Kind { name: "histories", f: c13_hist, quick: 6_000, thorough: 200_000 },
        Kind { name: "lengths", f: c13_len, quick: 1_500, thorough: 9_000 },
    ]
}
fn kind_of(c: &CustomData) -> (u8, usize) {
    match c {
        CustomData::CustomIndex(v, _) => (1, v.len()),
        CustomData::CustomIntiger(v, _) => (2, v.len()),
        CustomData::CustomFloat(v, _) => (3, v.len()),
        CustomData::CustomColorRGBA(v, _) => (4, v.len()),
    }
}
fn as_kind(c: &CustomData) -> Vec<u8> {
    let mut v = vec![];
    if c.as_index().is_some() {
        v.push(1);
    }
    if c.as_intiger().is_some() {
        v.push(2);
    }
    if c.as_float().is_some() {
        v.push(3);
    }
    if c.as_color_rgba().is_some() {
        v.push(4);
    }
    v
}
fn c13_names(r: &mut Rng) -> Vec<String> {
    // names that are prefixes, extensions and near misses of each other
    let base = gen::name(r, 255);
    let mut v = vec![base.clone(), String::new()];
    for _ in 0..4 {
        let mut b = base.clone();
        match r.below(5) {
            0 => b.push('x'),
            1 => {
                b.pop();
            }
            2 => {
                let l = b.len();
                b.push_str(&"y".repeat(r.below(300usize.saturating_sub(l.min(299)) + 1)));
            }
            3 => b = b.chars().rev().collect(),
            _ => b = gen::name(r, 300),
        }
        v.push(b);
    }
    v.push("\0".into());
    v.push("a".into());
    v.push("a\0".into());
    v
}
fn c13_hist(cx: &mut Cx) -> R {
    let names = c13_names(&mut cx.rng);
    let mut m = TMFMesh::empty();
    let mut list: Vec<(String, CustomData)> = vec![];
    if cx.rng.bool() {
        m.set_vertices(vec![(1.0, 2.0, 3.0)]);
    }
    let before_other = model(&m);
    for _ in 0..cx.rng.range(1, 10) {
        let nm = names[cx.rng.below(names.len())].clone();
        let d = gen::custom(&mut cx.rng, 20);
        cx.input += &format!("add {nm:?} {d:?}; ");
        let r = m.add_custom_data(d.clone(), &nm);
        match (nm.len(), r) {
            (0, Err(DataSegmentError::NoName)) => (),
            (256.., Err(DataSegmentError::NameTooLong)) => (),
            (1..=255, Ok(())) => list.push((nm, d)),
            (n, r) => return Err(format!("a name of {n} bytes gave {r:?}")),
        }
        ensure!(model(&m) == before_other, "adding custom data changed another array");
        for q in &names {
            let want = list.iter().find(|x| x.0 == *q).map(|x| gen::custom_hash(&x.1));
            let got = m.lookup_custom_data(q).map(gen::custom_hash);
            ensure!(want == got, "looking up {q:?} gave {}, expected {}", got.is_some(), want.is_some());
        }
    }
    cx.key = hash_bytes(cx.input.as_bytes());
    cx.nontrivial = !list.is_empty();
    let back = load1(&save1(&m, &TMFPrecisionInfo::default())?)?;
    for q in &names {
        let want = list.iter().find(|x| x.0 == *q).map(|x| kind_of(&x.1));
        let got = back.lookup_custom_data(q);
        ensure!(
            want == got.map(kind_of),
            "after loading, looking up {q:?} gave kind and length {:?}, expected {want:?}",
            got.map(kind_of)
        );
        if let (Some(g), Some(w)) = (got, want) {
            ensure!(as_kind(g) == vec![w.0], "the accessors of data of kind {} answer {:?}", w.0, as_kind(g));
            let src = &list.iter().find(|x| x.0 == *q).unwrap().1;
            match (src, g) {
                (CustomData::CustomIndex(a, _), CustomData::CustomIndex(b, _))
                | (CustomData::CustomIntiger(a, _), CustomData::CustomIntiger(b, _)) => {
                    ensure!(a == b, "after loading, {q:?} refers to other data")
                }
                _ => (),
            }
        }
    }
    Ok(())
}
fn c13_len(cx: &mut Cx) -> R {
    let n = (cx.idx % 300) as usize;
    let ch = cx.rng.pick(&['a', 'é', '漢', '\u{0}', '😀']);
    let mut nm = String::new();
    while nm.len() + ch.len_utf8() <= n {
        nm.push(ch);
    }
    while nm.len() < n {
        nm.push('b');
    }
    cx.key = hash_bytes(nm.as_bytes());
    cx.input = format!("a name of {n} bytes: {nm:?}");
    let mut m = TMFMesh::empty();
    let d = gen::custom(&mut cx.rng, 5);
    let k = kind_of(&d);
    match (n, m.add_custom_data(d, &nm)) {
        (0, Err(DataSegmentError::NoName)) | (256.., Err(DataSegmentError::NameTooLong)) => {
            ensure!(m.lookup_custom_data(&nm).is_none(), "refused data was added");
            let b = save1(&m, &TMFPrecisionInfo::default())?;
            ensure!(
                crate::fmt::parse(&b).map_or(false, |f| f.meshes[0].segs.is_empty()),
                "refused data was saved"
            );
        }
        (1..=255, Ok(())) => {
            ensure!(m.lookup_custom_data(&nm).map(kind_of) == Some(k), "the data is not found");
            let back = load1(&save1(&m, &TMFPrecisionInfo::default())?)?;
            ensure!(back.lookup_custom_data(&nm).map(kind_of) == Some(k), "the data is not found after loading");
            if n > 1 && nm.is_char_boundary(n - 1) {
                ensure!(back.lookup_custom_data(&nm[..n - 1]).is_none(), "a prefix of the name finds the data");
            }
            ensure!(back.lookup_custom_data(&format!("{nm}x")).is_none(), "a longer name finds the data");
        }
        (_, r) => return Err(format!("a name of {n} bytes gave {r:?}")),
    }
    Ok(())
}
// ---------------------------------------------------------------- C16
pub fn c16() -> Vec<Kind> {
    vec![
        Kind { name: "histories", f: c16_hist, quick: 20_000, thorough: 700_000 },
        Kind { name: "normalize", f: c16_norm, quick: 20_000, thorough: 700_000 },
    ]
}
fn arr3(r: &mut Rng) -> Vec<Vector3> {
    let n = r.below(6);
    (0..n).map(|_| if r.chance(10) { (f32::NAN, f32::INFINITY, -0.0) } else { (r.f(-5.0, 5.0), r.f01(), r.f(-1.0, 1.0)) }).collect()
}
fn c16_hist(cx: &mut Cx) -> R {
    let mut m = TMFMesh::empty();
    let mut w = model(&m);
    add_customs(&mut cx.rng, &mut m);
    let cs = custom_state(&m);
    let ops = cx.rng.range(1, 30);
    for _ in 0..ops {
        let r = &mut cx.rng;
        let op = r.below(20);
        let a3 = arr3(r);
        let a2: Vec<Vector2> = arr3(r).iter().map(|x| (x.0, x.1)).collect();
        let a4: Vec<Tangent> = arr3(r).iter().map(|x| (*x, x.2)).collect();
        let mx = r.pick(&[0, 2, 5, 9, u32::MAX]);
        let n = r.below(7);
        let ix = gen::indices(r, n, mx);
        let app = |o: &mut Option<Vec<u32>>, x: &[u32]| o.get_or_insert_with(Vec::new).extend(x);
        cx.input += &format!("op {op} ");
        match op {
            0 => {
                let old = m.set_vertices(a3.clone());
                ensure!(old.as_deref().map(bits3) == w.v, "set_vertices returned something else than the old vertices");
                w.v = Some(bits3(&a3));
            }
            1 => {
                let old = m.set_normals(a3.clone());
                ensure!(old.as_deref().map(bits3) == w.n, "set_normals returned something else than the old normals");
                w.n = Some(bits3(&a3));
            }
            2 => {
                let old = m.set_uvs(a2.clone());
                ensure!(old.as_deref().map(bits2) == w.u, "set_uvs returned something else than the old UVs");
                w.u = Some(bits2(&a2));
            }
            3 => {
                let old = m.set_tangents(a4.clone());
                ensure!(old.as_deref().map(bits4) == w.t, "set_tangents returned something else than the old tangents");
                w.t = Some(bits4(&a4));
            }
            4 => {
                ensure!(m.set_vertex_triangles(ix.clone()) == w.vt, "set_vertex_triangles returned something else than the old ones");
                w.vt = Some(ix.clone());
            }
            5 => {
                ensure!(m.set_normal_triangles(ix.clone()) == w.nt, "set_normal_triangles returned something else than the old ones");
                w.nt = Some(ix.clone());
            }
            6 => {
                ensure!(m.set_uv_triangles(ix.clone()) == w.ut, "set_uv_triangles returned something else than the old ones");
                w.ut = Some(ix.clone());
            }
            7 => {
                ensure!(m.set_tangent_triangles(ix.clone()) == w.tt, "set_tangent_triangles returned something else than the old ones");
                w.tt = Some(ix.clone());
            }
            8 => {
                m.append_vertices(&a3);
                w.v.get_or_insert_with(Vec::new).extend(bits3(&a3));
            }
            9 => {
                m.append_normals(&a3);
                w.n.get_or_insert_with(Vec::new).extend(bits3(&a3));
            }
            10 => {
                m.append_uvs(&a2);
                w.u.get_or_insert_with(Vec::new).extend(bits2(&a2));
            }
            11 => {
                m.append_tangents(&a4);
                w.t.get_or_insert_with(Vec::new).extend(bits4(&a4));
            }
            12 => {
                m.append_vertex_triangles(&ix);
                app(&mut w.vt, &ix);
            }
            13 => {
                m.append_normal_triangles(&ix);
                app(&mut w.nt, &ix);
            }
            14 => {
                m.append_uv_triangles(&ix);
                app(&mut w.ut, &ix);
            }
            15 => {
                m.append_tangent_triangles(&ix);
                app(&mut w.tt, &ix);
            }
            16 => {
                // in-range triangles, so that buffers exist
                if let Some(v) = &w.v {
                    if !v.is_empty() {
                        let t = gen::indices(r, n, v.len() as u32 - 1);
                        m.set_vertex_triangles(t.clone());
                        w.vt = Some(t);
                    }
                }
                if let Some(v) = &w.n {
                    if !v.is_empty() {
                        let t = gen::indices(r, n, v.len() as u32 - 1);
                        m.set_normal_triangles(t.clone());
                        w.nt = Some(t);
                    }
                }
                if let Some(v) = &w.u {
                    if !v.is_empty() {
                        let t = gen::indices(r, n, v.len() as u32 - 1);
                        m.set_uv_triangles(t.clone());
                        w.ut = Some(t);
                    }
                }
            }
            17 => {
                let had = m.get_normals().map(|x| x.to_vec());
                m.normalize();
                check_normalized(had.as_deref(), m.get_normals())?;
                w.n = m.get_normals().map(bits3);
            }
            _ => (),
        }
        ensure!(model(&m) == w, "after operation {op}: the mesh holds {:?}, expected {w:?}", model(&m));
        ensure!(m.get_vertex_buffer().as_deref().map(bits3) == expand(&w.v, &w.vt), "the vertex buffer is not what the triangles select");
        ensure!(m.get_normal_buffer().as_deref().map(bits3) == expand(&w.n, &w.nt), "the normal buffer is not what the triangles select");
        ensure!(m.get_uv_buffer().as_deref().map(bits2) == expand(&w.u, &w.ut), "the UV buffer is not what the triangles select");
        ensure!(custom_state(&m) == cs, "custom data changed");
    }
    cx.key = hash(&[hash_bytes(cx.input.as_bytes()), gen::mesh_hash(&m, true)]);
    cx.input += &gen::describe(&m);
    Ok(())
}
fn check_normalized(a: Option<&[Vector3]>, b: Option<&[Vector3]>) -> R {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            ensure!(a.len() == b.len(), "normalising changed the number of normals");
            for (a, b) in a.iter().zip(b) {
                let mag = ((a.0 as f64).powi(2) + (a.1 as f64).powi(2) + (a.2 as f64).powi(2)).sqrt();
                // squares must neither overflow nor vanish in single precision
                if mag.is_finite() && mag > 1e-15 && mag < 1e18 {
                    let close = |x: f32, y: f32| (x as f64 / mag - y as f64).abs() < 1e-5;
                    ensure!(close(a.0, b.0) && close(a.1, b.1) && close(a.2, b.2), "{a:?} was normalised to {b:?}");
                }
                if mag == 0.0 {
                    ensure!(b.0 == 0.0 && b.1 == 0.0 && b.2 == 0.0, "the zero vector was normalised to {b:?}");
                }
            }
            Ok(())
        }
        _ => Err("normalising created or removed the normals".into()),
    }
}
fn c16_norm(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let n = r.below(8);
    let v: Vec<Vector3> = (0..n)
        .map(|_| {
            let s = 10f32.powi(r.range(0, 30) as i32 - 14);
            match r.below(6) {
                0 => (0.0, 0.0, 0.0),
                1 => (0.0, -s, 0.0),
                _ => (r.f(-s, s), r.f(-s, s), r.f(-s, s)),
            }
        })
        .collect();
    cx.key = hash(&v.iter().map(|x| x.0.to_bits() as u64 ^ ((x.1.to_bits() as u64) << 20)).collect::<Vec<_>>());
    cx.input = format!("normals {v:?}");
    let mut m = TMFMesh::empty();
    let t = arr3(r);
    m.set_vertices(t.clone());
    m.set_normals(v.clone());
    m.normalize();
    ensure!(bits_eq3(m.get_vertices().unwrap(), &t), "normalising changed the vertices");
    check_normalized(Some(&v), m.get_normals())
}
