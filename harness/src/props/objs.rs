//! OBJ import and export: C11, C12.
use super::*;
use crate::ensure;
use crate::gen;

type Corner = (usize, usize, Option<usize>);
// ---------------------------------------------------------------- C11
pub fn c11() -> Vec<Kind> {
    vec![
        Kind { name: "models", f: c11_models, quick: 12_000, thorough: 400_000 },
        Kind { name: "errors", f: c11_errors, quick: 4_000, thorough: 80_000 },
        Kind { name: "text", f: c11_text, quick: 20_000, thorough: 700_000 },
    ]
}
struct Obj {
    name: String,
    faces: Vec<Vec<Corner>>,
}
fn num(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("{}", r.range(0, 9)),
        1 => format!("-{}.5", r.range(0, 9)),
        2 => format!("{:e}", r.f(-1e6, 1e6)),
        3 => format!("{}", f32::from_bits(r.u32() & 0x7f7f_ffff)),
        _ => format!("{}", r.f(-3.0, 3.0)),
    }
}
fn c11_models(cx: &mut Cx) -> R {
    let alt = cfg!(feature = "alt");
    let mut text = String::new();
    let mut vs: Vec<Vector3> = vec![];
    let mut ns: Vec<Vector3> = vec![];
    let mut us: Vec<Vector2> = vec![];
    let mut objs: Vec<Obj> = vec![];
    let mut cur = Obj { name: String::new(), faces: vec![] };
    let r = &mut cx.rng;
    let nl = r.pick(&["\n", "\r\n"]);
    let with_uv = r.chance(75);
    let blocks = r.range(1, 4);
    let mut poly = false;
    // v//vn corners and v/vt/vn corners are not mixed when there are no UVs at all
    for b in 0..blocks {
        if b > 0 || r.chance(70) {
            let mut nm: String = gen::name(r, 30).chars().filter(|c| *c != ' ' && *c != '/' && *c != '\n' && *c != '\r').collect();
            if r.chance(20) {
                nm = String::new();
            }
            text += &format!("o {nm}{nl}");
            let done = std::mem::replace(&mut cur, Obj { name: nm, faces: vec![] });
            if !done.faces.is_empty() {
                objs.push(done);
            }
        }
        if r.chance(20) {
            text += r.pick(&["# comment f 1/1/1", "s off", "s 1", "usemtl m", "mtllib x.mtl", "", "xyz 1 2", "#", "g group", "l 1 2"]);
            text += nl;
        }
        let mut order = [0, 1, 2];
        let k = r.below(3);
        order.swap(0, k);
        for o in order {
            match o {
                0 => {
                    for _ in 0..r.range(if vs.is_empty() { 1 } else { 0 }, 8) {
                        let s = [num(r), num(r), num(r)];
                        text += &format!("v {} {} {}{}{nl}", s[0], s[1], s[2], r.pick(&["", "", " 1.0"]));
                        vs.push((s[0].parse().unwrap(), s[1].parse().unwrap(), s[2].parse().unwrap()));
                    }
                }
                1 => {
                    for _ in 0..r.range(if ns.is_empty() { 1 } else { 0 }, 5) {
                        let s = [num(r), num(r), num(r)];
                        text += &format!("vn {} {} {}{nl}", s[0], s[1], s[2]);
                        ns.push((s[0].parse().unwrap(), s[1].parse().unwrap(), s[2].parse().unwrap()));
                    }
                }
                _ => {
                    if with_uv {
                        for _ in 0..r.range(if us.is_empty() { 1 } else { 0 }, 5) {
                            let s = [num(r), num(r)];
                            text += &format!("vt {} {}{}{nl}", s[0], s[1], r.pick(&["", "", " 0"]));
                            us.push((s[0].parse().unwrap(), s[1].parse().unwrap()));
                        }
                    }
                }
            }
        }
        let local = r.chance(60);
        let lo = |r: &mut Rng, n: usize| -> usize {
            if local {
                // the end of the array, so that leading data is unused
                n - 1 - r.below(n.min(4))
            } else {
                r.below(n)
            }
        };
        for _ in 0..r.below(7) {
            let n = if r.chance(if alt { 35 } else { 3 }) { r.range(4, 9) } else { 3 };
            if n > 3 && vs.len() < n {
                continue;
            }
            poly |= n > 3;
            let mut face: Vec<Corner> = vec![];
            for _ in 0..n {
                let c = (lo(r, vs.len()), lo(r, ns.len()), if with_uv { Some(lo(r, us.len())) } else { None });
                // polygon corners must be distinct to tell its sides apart
                if n > 3 && face.iter().any(|f| *f == c || f.0 == c.0) {
                    let free: Vec<usize> = (0..vs.len()).filter(|v| !face.iter().any(|f| f.0 == *v)).collect();
                    let v = free[r.below(free.len())];
                    face.push((v, c.1, c.2));
                } else {
                    face.push(c);
                }
            }
            text += "f";
            for c in &face {
                match c.2 {
                    Some(u) => text += &format!(" {}/{}/{}", c.0 + 1, u + 1, c.1 + 1),
                    None => text += &format!(" {}//{}", c.0 + 1, c.1 + 1),
                }
            }
            text += nl;
            cur.faces.push(face);
        }
    }
    objs.push(cur);
    cx.key = hash_bytes(text.as_bytes());
    cx.nontrivial = objs.iter().any(|o| !o.faces.is_empty());
    cx.input = text.clone();
    let got = TMFMesh::read_from_obj(&mut text.as_bytes());
    if poly && !alt {
        ensure!(got.is_err(), "a polygon was accepted although triangulation is disabled");
        return Ok(());
    }
    let got = got.map_err(|e| format!("a valid model was refused: {e}"))?;
    ensure!(got.len() == objs.len(), "{} objects were imported as {}", objs.len(), got.len());
    for (o, (m, name)) in objs.iter().zip(&got) {
        ensure!(o.name == *name, "the object {:?} was imported as {name:?}", o.name);
        if o.faces.is_empty() {
            let none = m.get_vertex_triangles().map_or(true, |t| t.is_empty());
            ensure!(none, "the object {name:?} without faces has triangles");
            continue;
        }
        let vb = m.get_vertex_buffer().ok_or(format!("{name:?}: no vertex buffer"))?;
        let nb = m.get_normal_buffer().ok_or(format!("{name:?}: no normal buffer"))?;
        let ub = m.get_uv_buffer();
        let want: usize = o.faces.iter().map(|f| (f.len() - 2) * 3).sum();
        ensure!(vb.len() == want && nb.len() == want, "{name:?}: {} corners instead of {want}", vb.len());
        ensure!(ub.is_some() == with_uv, "{name:?}: UV buffer present: {}", ub.is_some());
        if let Some(ub) = &ub {
            ensure!(ub.len() == want, "{name:?}: {} UV corners instead of {want}", ub.len());
        }
        type Data = ([u32; 3], [u32; 3], [u32; 2]);
        let b3 = |v: Vector3| [v.0.to_bits(), v.1.to_bits(), v.2.to_bits()];
        let b2 = |v: Vector2| [v.0.to_bits(), v.1.to_bits()];
        let want_of = |c: &Corner| -> Data { (b3(vs[c.0]), b3(ns[c.1]), c.2.map_or([0, 0], |u| b2(us[u]))) };
        let got_at = |i: usize| -> Data { (b3(vb[i]), b3(nb[i]), ub.as_ref().map_or([0, 0], |u| b2(u[i]))) };
        let mut at = 0;
        for f in &o.faces {
            let n = (f.len() - 2) * 3;
            if f.len() == 3 {
                for k in 0..3 {
                    ensure!(
                        got_at(at + k) == want_of(&f[k]),
                        "{name:?}: corner {k} of face {f:?} carries other data: vertex {:?} normal {:?} uv {:?}",
                        vb[at + k],
                        nb[at + k],
                        ub.as_ref().map(|u| u[at + k])
                    );
                }
            } else {
                let corners: Vec<Data> = f.iter().map(want_of).collect();
                let mut sides = vec![0usize; f.len()];
                let distinct = (0..f.len()).all(|i| (0..i).all(|j| corners[i].0 != corners[j].0));
                for t in 0..f.len() - 2 {
                    let tri: Vec<Data> = (0..3).map(|k| got_at(at + t * 3 + k)).collect();
                    for c in &tri {
                        ensure!(corners.contains(c), "{name:?}: triangle {t} of polygon {f:?} uses a corner that is not one of its own");
                    }
                    if distinct {
                        let ids: Vec<usize> = tri.iter().map(|c| corners.iter().position(|x| x == c).unwrap()).collect();
                        ensure!(
                            ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2],
                            "{name:?}: triangle {t} of polygon {f:?} uses a corner twice"
                        );
                        for (a, b) in [(0, 1), (1, 2), (2, 0)] {
                            let (a, b) = (ids[a], ids[b]);
                            if (a + 1) % f.len() == b {
                                sides[a] += 1;
                            } else if (b + 1) % f.len() == a {
                                sides[b] += 1;
                            }
                        }
                    }
                }
                if distinct {
                    ensure!(sides.iter().all(|s| *s == 1), "{name:?}: the sides of polygon {f:?} are used {sides:?} times");
                }
            }
            at += n;
        }
    }
    Ok(())
}
fn c11_errors(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut lines: Vec<String> =
        ["v 0 0 0", "v 1 0 0", "v 1 1 0", "v 0 1 0", "vn 0 0 1", "vt 0 0", "f 1/1/1 2/1/1 3/1/1", "o second", "f 1/1/1 2/1/1 4/1/1"]
            .iter()
            .map(|s| s.to_string())
            .collect();
    let bad = r.pick(&[
        "v 1 2", "v a 1 2", "v 1 b 2", "v 1 2 c", "v", "vn 1 2", "vn x 1 2", "vn 1 2 1..3", "vt 1", "vt q 1", "vt 1 1e", "vt", "f 1/1/1 2/1/1", "f 1/1/1", "f",
        "v 1 2 3,5", "vn", "v 1/2", "f 1/1/1 2/1/1 3/1",
    ]);
    let poly = r.chance(20);
    let bad = if poly { "f 1/1/1 2/1/1 3/1/1 4/1/1" } else { bad };
    let at = r.pick(&[4, 5, 6, 7, 8, 9]);
    lines.insert(at, bad.to_string());
    let text = lines.join("\n") + "\n";
    cx.key = hash_bytes(text.as_bytes());
    cx.input = text.clone();
    let res = TMFMesh::read_from_obj(&mut text.as_bytes());
    if poly && cfg!(feature = "alt") {
        ensure!(res.is_ok(), "a polygon was refused although triangulation is enabled");
    } else {
        ensure!(res.is_err(), "the line {bad:?} was accepted");
    }
    Ok(())
}
fn c11_text(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut t: Vec<u8> = vec![];
    for _ in 0..r.below(12) {
        let head: &[u8] = match r.below(10) {
            0 | 1 => b"f",
            2 => b"v",
            3 => b"vn",
            4 => b"vt",
            5 => b"o",
            6 => b"",
            7 => b"# x",
            8 => b"f ",
            _ => b"s",
        };
        let well = r.chance(60);
        t.extend(head);
        let fields = if r.chance(80) { r.below(8) } else { r.below(30) };
        for _ in 0..fields {
            t.extend(r.pick(&[&b" "[..], b" ", b"  ", b"/", b"\t"]));
            if well {
                if head == b"f" || head == b"f " {
                    let ix = |r: &mut Rng| r.pick(&[1u64, 2, 3, 4, 5, 9, 0, 4294967295, 4294967296, 1 << 40]);
                    let (a, b, c) = (ix(r), ix(r), ix(r));
                    t.extend(match r.below(4) {
                        0 => format!("{a}"),
                        1 => format!("{a}//{c}"),
                        2 => format!("{a}/{b}"),
                        _ => format!("{a}/{b}/{c}"),
                    }
                    .bytes());
                } else {
                    let x = r.pick(&["0", "1", "-1", "nan", "inf", "-inf", "1e39", "1e-46", "0.5", "3.4028235e38"]);
                    t.extend(x.bytes());
                }
            } else {
                for _ in 0..r.below(6) {
                    let c = if r.chance(90) { r.range(32, 126) as u8 } else { r.u64() as u8 };
                    t.push(c);
                }
            }
        }
        t.extend(r.pick(&[&b"\n"[..], b"\n", b"\r\n", b"\r", b""]));
    }
    cx.key = hash_bytes(&t);
    cx.nontrivial = t.len() > 3;
    cx.input = format!("{:?} (bytes {})", String::from_utf8_lossy(&t), super::files::hex(&t));
    // ends with a list of meshes or an error
    let _ = TMFMesh::read_from_obj(&mut &t[..]);
    let _ = TMFMesh::read_from_obj_one(&mut &t[..]);
    Ok(())
}
// ---------------------------------------------------------------- C12
pub fn c12() -> Vec<Kind> {
    vec![
        Kind { name: "lists", f: c12_lists, quick: 12_000, thorough: 400_000 },
        Kind { name: "inconsistent", f: c12_bad, quick: 6_000, thorough: 100_000 },
        Kind { name: "numbers", f: c12_numbers, quick: 2_000, thorough: 100_000 },
    ]
}
#[derive(Default, Debug)]
struct Parsed {
    v: Vec<Vector3>,
    n: Vec<Vector3>,
    u: Vec<Vector2>,
    /// name, faces: corners of (vertex, uv, normal) numbers
    objs: Vec<(String, Vec<Vec<(u64, Option<u64>, Option<u64>)>>)>,
}
fn parse_obj(t: &str) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    for line in t.split('\n') {
        if line.is_empty() {
            continue;
        }
        let (head, rest) = line.split_once(' ').unwrap_or((line, ""));
        let f = |s: &str| s.parse::<f32>().map_err(|e| format!("{line:?}: {e}"));
        let toks: Vec<&str> = rest.split(' ').filter(|s| !s.is_empty()).collect();
        match head {
            "s" | "#" => (),
            "o" => p.objs.push((rest.to_string(), vec![])),
            "v" | "vn" => {
                ensure!(toks.len() == 3, "{line:?} has {} numbers", toks.len());
                let x = (f(toks[0])?, f(toks[1])?, f(toks[2])?);
                if head == "v" {
                    p.v.push(x)
                } else {
                    p.n.push(x)
                }
            }
            "vt" => {
                ensure!(toks.len() == 2, "{line:?} has {} numbers", toks.len());
                p.u.push((f(toks[0])?, f(toks[1])?));
            }
            "f" => {
                ensure!(toks.len() == 3, "{line:?} has {} corners", toks.len());
                let mut face = vec![];
                for t in toks {
                    let parts: Vec<&str> = t.split('/').collect();
                    ensure!(parts.len() <= 3, "{line:?}: malformed corner");
                    let g = |i: usize| -> Result<Option<u64>, String> {
                        match parts.get(i) {
                            None | Some(&"") => Ok(None),
                            Some(s) => s.parse().map(Some).map_err(|e| format!("{line:?}: {e}")),
                        }
                    };
                    face.push((g(0)?.ok_or(format!("{line:?}: no vertex"))?, g(1)?, g(2)?));
                }
                p.objs.last_mut().ok_or("a face before the first object")?.1.push(face);
            }
            _ => return Err(format!("unexpected line {line:?}")),
        }
    }
    Ok(p)
}
fn check_export(l: &[(TMFMesh, String)], out: &[u8]) -> R {
    let t = std::str::from_utf8(out).map_err(|_| "the exported text is not UTF-8")?;
    let p = parse_obj(t)?;
    ensure!(p.objs.len() == l.len(), "{} meshes were exported as {} objects", l.len(), p.objs.len());
    let b3 = |v: &Vector3| [v.0.to_bits(), v.1.to_bits(), v.2.to_bits()];
    let b2 = |v: &Vector2| [v.0.to_bits(), v.1.to_bits()];
    // all data, in order
    let av: Vec<_> = l.iter().flat_map(|m| m.0.get_vertices().unwrap_or(&[]).iter().map(b3)).collect();
    let an: Vec<_> = l.iter().flat_map(|m| m.0.get_normals().unwrap_or(&[]).iter().map(b3)).collect();
    let au: Vec<_> = l.iter().flat_map(|m| m.0.get_uvs().unwrap_or(&[]).iter().map(b2)).collect();
    let same = |what: &str, a: usize, b: usize| -> R {
        ensure!(a == b, "{a} {what} were exported as {b}");
        Ok(())
    };
    same("vertices", av.len(), p.v.len())?;
    same("normals", an.len(), p.n.len())?;
    same("UVs", au.len(), p.u.len())?;
    for (i, (a, b)) in av.iter().zip(&p.v).enumerate() {
        ensure!(*a == b3(b), "vertex {i} was written as {b:?}");
    }
    for (i, (a, b)) in an.iter().zip(&p.n).enumerate() {
        ensure!(*a == b3(b), "normal {i} was written as {b:?}");
    }
    for (i, (a, b)) in au.iter().zip(&p.u).enumerate() {
        ensure!(*a == b2(b), "UV {i} was written as {b:?}");
    }
    for (i, ((m, name), (gn, faces))) in l.iter().zip(&p.objs).enumerate() {
        ensure!(name == gn, "mesh {i} {name:?} was exported under the name {gn:?}");
        let tris = m.get_vertex_triangles().unwrap_or(&[]);
        ensure!(faces.len() * 3 == tris.len(), "mesh {i}: {} indices became {} faces", tris.len(), faces.len());
        let get = |k: u64, n: usize| -> Result<usize, String> {
            ensure!(k >= 1 && k as usize <= n, "mesh {i}: a corner refers to line {k} of {n}");
            Ok(k as usize - 1)
        };
        for (f, face) in faces.iter().enumerate() {
            for (c, (v, u, n)) in face.iter().enumerate() {
                let at = f * 3 + c;
                let want = &m.get_vertices().unwrap()[tris[at] as usize];
                ensure!(b3(want) == b3(&p.v[get(*v, p.v.len())?]), "mesh {i} corner {at}: vertex {v} is not {want:?}");
                match (m.get_normals(), m.get_normal_triangles(), n) {
                    (Some(d), Some(t), Some(n)) => {
                        let want = &d[t[at] as usize];
                        ensure!(b3(want) == b3(&p.n[get(*n, p.n.len())?]), "mesh {i} corner {at}: normal {n} is not {want:?}")
                    }
                    (_, None, None) => (),
                    _ => return Err(format!("mesh {i} corner {at}: the normal appeared or vanished")),
                }
                match (m.get_uvs(), m.get_uv_triangles(), u) {
                    (Some(d), Some(t), Some(u)) => {
                        let want = &d[t[at] as usize];
                        ensure!(b2(want) == b2(&p.u[get(*u, p.u.len())?]), "mesh {i} corner {at}: UV {u} is not {want:?}")
                    }
                    (_, None, None) => (),
                    _ => return Err(format!("mesh {i} corner {at}: the UV appeared or vanished")),
                }
            }
        }
    }
    Ok(())
}
fn obj_name(r: &mut Rng) -> String {
    gen::name(r, 30).chars().filter(|c| *c != '\n' && *c != '\r').collect()
}
fn c12_lists(cx: &mut Cx) -> R {
    let n = cx.rng.range(1, 4);
    let l: Vec<(TMFMesh, String)> = (0..n).map(|_| (super::files::obj_mesh(&mut cx.rng, 40), obj_name(&mut cx.rng))).collect();
    cx.key = hash(&l.iter().map(|x| gen::mesh_hash(&x.0, true)).collect::<Vec<_>>());
    cx.input = l.iter().map(|(m, n)| format!("{n:?}: {}; ", gen::describe(m))).collect();
    let mut out = Vec::new();
    TMFMesh::write_obj(&l, &mut out).map_err(|e| format!("exporting consistent meshes failed: {e}"))?;
    check_export(&l, &out)?;
    let mut one = Vec::new();
    l[0].0.write_obj_one(&mut one, &l[0].1).map_err(|e| format!("exporting one mesh failed: {e}"))?;
    check_export(&l[..1], &one)
}
fn c12_numbers(cx: &mut Cx) -> R {
    let n = 60;
    let v: Vec<Vector3> = (0..n)
        .map(|_| {
            let mut f = || loop {
                let x = f32::from_bits(cx.rng.u32());
                if x.is_finite() {
                    return x;
                }
            };
            (f(), f(), f())
        })
        .collect();
    let mut m = TMFMesh::empty();
    m.set_uvs(v.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>());
    m.set_normals(v.iter().map(|x| (x.2, x.0, x.1)).collect::<Vec<_>>());
    m.set_vertices(v);
    cx.key = gen::mesh_hash(&m, true);
    cx.input = gen::describe(&m);
    let l = [(m, "numbers".to_string())];
    let mut out = Vec::new();
    TMFMesh::write_obj(&l, &mut out).map_err(|e| format!("exporting failed: {e}"))?;
    check_export(&l, &out)
}
fn c12_bad(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    let mut l: Vec<(TMFMesh, String)> = (0..r.range(1, 3)).map(|i| (super::files::obj_mesh(r, 20), format!("o{i}"))).collect();
    let k = r.below(l.len());
    let n = r.range(1, 4) * 3;
    let mut m = TMFMesh::empty();
    m.set_vertices(vec![(0.0, 1.0, 2.0); 3]);
    m.set_normals(vec![(0.0, 0.0, 1.0); 3]);
    m.set_uvs(vec![(0.0, 1.0); 3]);
    let other = loop {
        let o = r.below(6) * 3;
        if o != n {
            break o;
        }
    };
    let mode = r.below(4);
    match mode {
        // triangle counts differ
        0 => {
            m.set_vertex_triangles(gen::indices(r, n, 2));
            m.set_normal_triangles(gen::indices(r, other, 2));
            if r.bool() {
                m.set_uv_triangles(gen::indices(r, n, 2));
            }
        }
        1 => {
            m.set_vertex_triangles(gen::indices(r, n, 2));
            m.set_uv_triangles(gen::indices(r, other, 2));
            if r.bool() {
                m.set_normal_triangles(gen::indices(r, n, 2));
            }
        }
        // triangles of other attributes without vertex triangles
        2 => {
            m.set_normal_triangles(gen::indices(r, n, 2));
        }
        _ => {
            m.set_uv_triangles(gen::indices(r, n, 2));
        }
    }
    l[k].0 = m;
    cx.key = hash(&l.iter().map(|x| gen::mesh_hash(&x.0, true)).collect::<Vec<_>>());
    cx.input = format!("mode {mode}: {}", l.iter().map(|(m, n)| format!("{n:?}: {}; ", gen::describe(m))).collect::<String>());
    let mut out = Vec::new();
    ensure!(TMFMesh::write_obj(&l, &mut out).is_err(), "inconsistent index arrays were exported");
    if l.len() == 1 {
        ensure!(l[0].0.write_obj_one(&mut out, "x").is_err(), "inconsistent index arrays were exported");
    }
    Ok(())
}
