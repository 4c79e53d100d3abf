//! C25: polyhedral meshes.
use fenris::connectivity::*;
use fenris::geometry::polymesh::*;
use fenris::geometry::*;
use fenris::mesh::*;
use fenris::nalgebra::{Point2, Point3, Unit, Vector3};
use fenris_nested_vec::NestedVec;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::solid::*;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;

type PM = PolyMesh3d<f64>;

fn pt(x: V3) -> Point3<f64> {
    Point3::from(x)
}
fn p3(p: &Point3<f64>) -> V3 {
    [p.x, p.y, p.z]
}

fn faces_of(m: &PM) -> Vec<Vec<usize>> {
    m.face_connectivity_iter().map(|f| f.to_vec()).collect()
}
fn cells_of(m: &PM) -> Vec<Vec<usize>> {
    m.cell_connectivity_iter().map(|f| f.to_vec()).collect()
}
fn verts_of(m: &PM) -> Vec<V3> {
    m.vertices().iter().map(p3).collect()
}

fn solids(m: &PM) -> Vec<Solid> {
    let (v, f) = (verts_of(m), faces_of(m));
    cells_of(m).iter().map(|c| Solid { faces: c.iter().map(|i| f[*i].iter().map(|k| v[*k]).collect()).collect() }).collect()
}

/// The accessors agree with one another
fn accessors(m: &PM) -> Res {
    let (v, f, c) = (verts_of(m), faces_of(m), cells_of(m));
    ensure!(m.num_faces() == f.len() && m.num_cells() == c.len());
    for i in 0..f.len() + 2 {
        ensure_eq!(m.get_face_connectivity(i).map(|x| x.to_vec()), f.get(i).cloned());
        ensure_eq!(m.get_cell_connectivity(i.min(c.len())).map(|x| x.to_vec()), c.get(i.min(c.len())).cloned());
        ensure_eq!(m.get_face(i).is_some(), i < f.len());
        ensure_eq!(m.face_vertices(i).map(p3).collect::<Vec<_>>(), f.get(i).iter().flat_map(|g| g.iter().map(|k| v[*k])).collect::<Vec<_>>());
    }
    let fc: Vec<Vec<usize>> = m.compute_face_cell_connectivity().iter().map(|x| x.to_vec()).collect();
    let want: Vec<Vec<usize>> = (0..f.len()).map(|i| (0..c.len()).flat_map(|k| c[k].iter().filter(|j| **j == i).map(|_| k).collect::<Vec<_>>()).collect()).collect();
    ensure!(fc == want, "cells of the faces: {:?}, expected {:?}", fc, want);
    let b: Vec<usize> = (0..f.len()).filter(|i| want[*i].len() <= 1).collect();
    ensure!(m.find_boundary_faces() == b, "boundary faces {:?}, expected {:?}", m.find_boundary_faces(), b);
    Ok(())
}

/// Every edge of a cell belongs to exactly two of its faces
fn closed(m: &PM) -> Res {
    let f = faces_of(m);
    for (i, c) in cells_of(m).iter().enumerate() {
        let mut n: BTreeMap<[usize; 2], usize> = BTreeMap::new();
        // a clip along a straight edge with several vertices leaves faces with two vertices, depending on rounding
        for k in c.iter().filter(|k| f[**k].len() > 2) {
            for j in 0..f[*k].len() {
                let (a, b) = (f[*k][j], f[*k][(j + 1) % f[*k].len()]);
                *n.entry([a.min(b), a.max(b)]).or_insert(0) += 1;
            }
        }
        ensure!(n.values().all(|x| *x == 2), "cell {} with faces {:?} is not closed", i, c.iter().map(|k| &f[*k]).collect::<Vec<_>>());
    }
    Ok(())
}

fn is_closed(m: &PM) -> bool {
    let v = verts_of(m);
    let s = size(&solids(m));
    // nor any trace of degenerate clips
    let clean = faces_of(m).iter().all(|f| f.len() > 2 && (0..f.len()).all(|i| norm(sub(v[f[i]], v[f[(i + 1) % f.len()]])) > 1e-7 * s));
    clean && closed(m).is_ok()
}

fn size(s: &[Solid]) -> f64 {
    s.iter().flat_map(|s| s.faces.iter().flatten()).flatten().fold(1e-300, |m: f64, x| m.max(x.abs()))
}

/// The same volumes, up to cells without volume
fn same_volumes(c: &mut Case, m: &PM, want: &[f64], scale: f64) -> Res {
    let got: Vec<f64> = solids(m).iter().map(|s| s.volume()).collect();
    let unit = scale.powi(3);
    let (a, b): (f64, f64) = (got.iter().sum(), want.iter().sum());
    ensure!((a - b).abs() <= 1e-8 * unit, "total volume {}, expected {}", a, b);
    let v = m.compute_volume();
    ensure!((v - b).abs() <= 1e-8 * unit, "compute_volume gives {}, expected {}", v, b);
    if want.iter().chain(&got).any(|v| *v > 1e-8 * unit && *v < 1e-4 * unit) {
        c.class("tiny cells");
        return Ok(());
    }
    let f = |v: &[f64]| v.iter().copied().filter(|x| *x > 1e-5 * unit).collect::<Vec<_>>();
    let (g, w) = (f(&got), f(want));
    ensure!(g.len() == w.len() && g.iter().zip(&w).all(|(x, y)| (x - y).abs() <= 1e-8 * unit), "cells have volumes {:?}, expected {:?}", got, want);
    Ok(())
}

fn gen_start(c: &mut Case) -> Result<PM, Stop> {
    let kind = *c.pick(&[Kind::Tet4, Kind::Hex8]);
    let distort = if kind == Kind::Tet4 && c.bool() { 0.2 } else { 0.0 };
    let affine = *c.pick(&[None, Some(1.0), Some(5.0)]);
    let empty = c.chance(1, 20);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: if kind == Kind::Tet4 { 18 } else { 8 }, distort, holes: true, shuffle: true, unused: true, empty, affine, ..Default::default() });
    c.note(|| format!("{:?} mesh with vertices {:?}, cells {:?}", kind, g.verts, g.cells));
    let m = if kind == Kind::Tet4 { PM::from(&g.to_mesh::<Tet4Connectivity>()) } else { PM::from(&g.to_mesh::<Hex8Connectivity>()) };
    // the conversion itself
    ensure_eq!(verts_of(&m), g.verts.iter().map(|x| v3(x)).collect::<Vec<_>>());
    ensure_eq!(m.num_cells(), g.cells.len());
    let f = faces_of(&m);
    let local: Vec<Vec<usize>> = if kind == Kind::Tet4 {
        vec![vec![0, 2, 1], vec![0, 1, 3], vec![1, 2, 3], vec![0, 3, 2]]
    } else {
        vec![vec![0, 3, 2, 1], vec![4, 5, 6, 7], vec![0, 1, 5, 4], vec![1, 2, 6, 5], vec![2, 3, 7, 6], vec![3, 0, 4, 7]]
    };
    let set = |v: &[usize]| v.iter().copied().collect::<BTreeSet<usize>>();
    let mut seen = BTreeSet::new();
    let cyc = |v: &[usize]| {
        let k = (0..v.len()).min_by_key(|i| v[*i]).unwrap();
        let mut w = v.to_vec();
        w.rotate_left(k);
        w
    };
    for (i, cell) in g.cells.iter().enumerate() {
        let want: Vec<Vec<usize>> = local.iter().map(|l| l.iter().map(|k| cell[*k]).collect()).collect();
        let got: Vec<Vec<usize>> = m.get_cell_connectivity(i).ok_or("no cell")?.iter().map(|k| f[*k].clone()).collect();
        ensure_eq!(got.iter().map(|x| set(x)).collect::<BTreeSet<_>>(), want.iter().map(|x| set(x)).collect::<BTreeSet<_>>());
        ensure!(got.len() == want.len(), "cell {} has {} faces", i, got.len());
        // faces are around the cell, and outward for the first cell that has them
        for (k, face) in m.get_cell_connectivity(i).unwrap().iter().zip(&got) {
            let w = want.iter().find(|w| set(w) == set(face)).unwrap();
            let mut r = face.clone();
            r.reverse();
            let first = seen.insert(*k);
            ensure!(cyc(face) == cyc(w) || (!first && cyc(&r) == cyc(w)), "face {:?} of cell {}, expected {:?}", face, i, w);
        }
    }
    ensure!(seen.len() == f.len(), "{} faces, but cells have {}", f.len(), seen.len());
    let keys: BTreeSet<_> = f.iter().map(|x| set(x)).collect();
    ensure!(keys.len() == f.len(), "duplicate faces");
    let want: Vec<f64> = (0..g.cells.len()).map(|i| g.cell_measure(i)).collect();
    let s = size(&solids(&m));
    same_volumes(c, &m, &want, s)?;
    accessors(&m)?;
    closed(&m)?;
    Ok(m)
}

fn check_dedup(m: &mut PM) -> Res {
    let (v, f, cl) = (verts_of(m), faces_of(m), cells_of(m));
    m.dedup_faces();
    let key = |x: &[usize]| {
        let mut k = x.to_vec();
        k.sort();
        k
    };
    let mut want: Vec<Vec<usize>> = vec![];
    let mut map = vec![];
    for x in &f {
        match want.iter().position(|y| key(y) == key(x)) {
            Some(i) => map.push(i),
            None => {
                map.push(want.len());
                want.push(x.clone());
            }
        }
    }
    ensure!(verts_of(m) == v, "vertices changed");
    ensure!(faces_of(m) == want, "faces {:?}, expected {:?}", faces_of(m), want);
    ensure_eq!(cells_of(m), cl.iter().map(|c| c.iter().map(|i| map[*i]).collect::<Vec<_>>()).collect::<Vec<_>>());
    Ok(())
}

fn check_split(m: &mut PM, n: usize) -> Res {
    for _ in 0..n {
        let (v, f, cl) = (verts_of(m), faces_of(m), cells_of(m));
        m.split_edges();
        let (v2, f2) = (verts_of(m), faces_of(m));
        ensure!(cells_of(m) == cl && f2.len() == f.len() && v2[..v.len()] == v[..], "cells, number of faces or old vertices changed");
        let mut mid: BTreeMap<[usize; 2], usize> = BTreeMap::new();
        for (a, b) in f.iter().zip(&f2) {
            ensure!(b.len() == 2 * a.len(), "face {:?} becomes {:?}", a, b);
            for i in 0..a.len() {
                let (p, q) = (a[i], a[(i + 1) % a.len()]);
                ensure!(b[2 * i] == p, "face {:?} becomes {:?}", a, b);
                let k = b[2 * i + 1];
                ensure!(k >= v.len() && k < v2.len(), "the vertex {} between {} and {} is not new", k, p, q);
                let e = [p.min(q), p.max(q)];
                ensure!(*mid.entry(e).or_insert(k) == k, "edge {:?} has two midpoints", e);
                let x = mul(add(v[p], v[q]), 0.5);
                ensure!(norm(sub(x, v2[k])) <= 1e-12 * (norm(v[p]) + norm(v[q])), "midpoint of {:?} is {:?}", e, v2[k]);
            }
        }
        ensure!(mid.values().collect::<BTreeSet<_>>().len() == mid.len(), "different edges share a midpoint");
        ensure!(v2.len() == v.len() + mid.len(), "{} new vertices for {} edges", v2.len() - v.len(), mid.len());
    }
    Ok(())
}

fn check_keep(m: &PM, keep: &[usize]) -> Result<PM, Stop> {
    let r = m.keep_cells(keep);
    let (v, f, cl) = (verts_of(m), faces_of(m), cells_of(m));
    let (v2, f2, cl2) = (verts_of(&r), faces_of(&r), cells_of(&r));
    ensure_eq!(cl2.len(), keep.len());
    // a bijection of the used vertices and faces
    let mut face_map = BTreeMap::new();
    let mut vert_map = BTreeMap::new();
    for (i, k) in keep.iter().enumerate() {
        ensure!(cl2[i].len() == cl[*k].len(), "cell {} has {} faces instead of {}", k, cl2[i].len(), cl[*k].len());
        for (a, b) in cl[*k].iter().zip(&cl2[i]) {
            ensure!(*face_map.entry(*a).or_insert(*b) == *b, "face {} has two images", a);
            ensure!(f[*a].len() == f2[*b].len(), "face {:?} becomes {:?}", f[*a], f2[*b]);
            for (p, q) in f[*a].iter().zip(&f2[*b]) {
                ensure!(*vert_map.entry(*p).or_insert(*q) == *q, "vertex {} has two images", p);
                ensure!(v[*p] == v2[*q], "vertex {} moves from {:?} to {:?}", p, v[*p], v2[*q]);
            }
        }
    }
    ensure!(face_map.values().collect::<BTreeSet<_>>().len() == f2.len() && face_map.len() == f2.len(), "{} faces are used, {} are kept", face_map.len(), f2.len());
    ensure!(vert_map.values().collect::<BTreeSet<_>>().len() == v2.len() && vert_map.len() == v2.len(), "{} vertices are used, {} are kept", vert_map.len(), v2.len());
    // the relative order is kept
    let sorted = |m: &BTreeMap<usize, usize>| m.values().zip(m.values().skip(1)).all(|(a, b)| a < b);
    ensure!(sorted(&face_map) && sorted(&vert_map), "the order of faces or vertices changed");
    Ok(r)
}

fn check_concat(ms: &[&PM]) -> Result<PM, Stop> {
    let r = PM::concatenate(ms.iter().copied());
    let (mut v, mut f, mut cl) = (vec![], vec![], vec![]);
    for m in ms {
        let (nv, nf) = (v.len(), f.len());
        v.extend(verts_of(m));
        f.extend(faces_of(m).into_iter().map(|x| x.into_iter().map(|i| i + nv).collect::<Vec<_>>()));
        cl.extend(cells_of(m).into_iter().map(|x| x.into_iter().map(|i| i + nf).collect::<Vec<_>>()));
    }
    ensure!(verts_of(&r) == v && faces_of(&r) == f && cells_of(&r) == cl, "concatenation is {:?}", r);
    Ok(r)
}

fn check_translate(m: &mut PM, d: V3) -> Res {
    let (v, f, cl) = (verts_of(m), faces_of(m), cells_of(m));
    let d3 = Vector3::from(d);
    let other = m.clone().translated(&d3);
    m.translate(&d3);
    ensure_eq!(&other, &*m);
    ensure!(faces_of(m) == f && cells_of(m) == cl);
    ensure!(verts_of(m).iter().zip(&v).all(|(a, b)| *a == add(*b, d)), "vertices {:?}", verts_of(m));
    Ok(())
}

fn plane_near(c: &mut Case, m: &PM, floor: f64) -> (V3, V3) {
    let v = verts_of(m);
    let s = size(&solids(m)).max(floor);
    let n = match c.int(0, 3) {
        0 => *c.pick(&[[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0]]),
        1 if v.len() >= 3 => {
            // through three vertices, often along faces
            let t = c.distinct(3, v.len());
            let n = cross3(sub(v[t[1]], v[t[0]]), sub(v[t[2]], v[t[0]]));
            if norm(n) > 1e-3 * s * s {
                c.class("through vertices");
                return (v[t[0]], mul(unit(n), if c.bool() { 1.0 } else { -1.0 }));
            }
            [0.6, 0.0, 0.8]
        }
        _ => [c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)],
    };
    let n = if norm(n) < 0.05 { [0.0, 0.0, 1.0] } else { unit(n) };
    let o = if v.is_empty() {
        [0.0; 3]
    } else {
        let (a, b) = (*c.pick(&v), *c.pick(&v));
        add(a, mul(sub(b, a), *c.pick(&[0.5, 0.0, 0.3, 0.7, 1.5])))
    };
    (o, n)
}

fn half(o: V3, n: V3) -> HalfSpace<f64> {
    HalfSpace::from_point_and_normal(pt(o), Unit::new_normalize(Vector3::from(n)))
}

/// The result of clipping, against the clipped solids
fn check_clip(c: &mut Case, m: &PM, r: &PM, planes: &[(V3, V3)], scale: f64) -> Res {
    let want: Vec<f64> = solids(m).iter().map(|s| planes.iter().fold(s.clone(), |s, (o, n)| s.clip(*o, *n)).volume()).collect();
    same_volumes(c, r, &want, scale)?;
    let tol = 1e-9 * scale;
    let used: BTreeSet<usize> = faces_of(r).into_iter().flatten().collect();
    ensure!(used.len() == r.vertices().len(), "vertices that no face uses");
    for (i, x) in verts_of(r).iter().enumerate() {
        for (o, n) in planes {
            ensure!(dot(*n, sub(*x, *o)) <= tol, "vertex {} at {:?} is outside of the half-space at {:?} with normal {:?}", i, x, o, n);
        }
    }
    ensure!(cells_of(r).iter().all(|c| !c.is_empty()) || cells_of(m).iter().any(|c| c.is_empty()), "empty cells");
    ensure!(faces_of(r).iter().all(|f| !f.is_empty()), "empty faces");
    // rounding decides on which side vertices on a plane are, so that only clear clips preserve the topology
    let clear = is_clear(m, planes, scale);
    if clear && is_closed(m) {
        c.class("clear clip");
        closed(r)?;
    }
    accessors(r)
}

/// `floor`: what is below is a remnant of a larger mesh
fn clip_half(c: &mut Case, m: &PM, floor: f64, clear: &mut bool) -> Result<PM, Stop> {
    let (o, n) = plane_near(c, m, floor);
    c.note(|| format!("clip at {:?}, normal {:?}", o, n));
    let scale = size(&solids(m)).max(norm(o)).max(floor);
    let h = half(o, n);
    let r = m.intersect_half_space(&h);
    check_clip(c, m, &r, &[(o, n)], scale)?;
    *clear &= is_clear(m, &[(o, n)], scale);
    let rest = m.intersect_half_space(&h.complement());
    check_clip(c, m, &rest, &[(o, mul(n, -1.0))], scale)?;
    let (a, b, t) = (r.compute_volume(), rest.compute_volume(), m.compute_volume());
    ensure!((a + b - t).abs() <= 1e-8 * scale.powi(3), "volumes {} and {} do not add up to {}", a, b, t);
    c.nontrivial_if(a > 1e-6 * t && b > 1e-6 * t);
    Ok(if c.bool() { r } else { rest })
}

fn clip_solid(c: &mut Case, m: &PM, floor: f64) -> Result<PM, Stop> {
    let v = verts_of(m);
    let scale = size(&solids(m)).max(floor);
    let o = if v.is_empty() { [0.0; 3] } else { *c.pick(&v) };
    let rows: Vec<V3> = c.vec(3, |c| [c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)]);
    let mut rows: Vec<V3> = if c.chance(1, 3) { vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] } else { rows };
    let d = dot(rows[0], cross3(rows[1], rows[2]));
    if d.abs() < 0.05 * norm(rows[0]) * norm(rows[1]) * norm(rows[2]) || d.abs() < 1e-3 {
        return Ok(m.clone());
    }
    if d < 0.0 {
        rows.swap(0, 1);
    }
    let s = scale * c.f64(0.2, 2.0);
    let at = |x: V3| add(o, mul(add(add(mul(rows[0], x[0]), mul(rows[1], x[1])), mul(rows[2], x[2])), s));
    let tet = c.bool();
    let corners: Vec<V3> = if tet {
        [[-0.3, -0.3, -0.3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]].iter().map(|x| at(*x)).collect()
    } else {
        [[-1.0, -1.0, -1.0], [1.0, -1.0, -1.0], [1.0, 1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0], [1.0, -1.0, 1.0], [1.0, 1.0, 1.0], [-1.0, 1.0, 1.0]]
            .iter()
            .map(|x| at(mul(*x, 0.5)))
            .collect()
    };
    c.note(|| format!("clip by the solid with corners {:?}", corners));
    let faces: &[&[usize]] = if tet { &[&[0, 2, 1], &[0, 1, 3], &[1, 2, 3], &[0, 3, 2]] } else { &[&[0, 3, 2, 1], &[4, 5, 6, 7], &[0, 1, 5, 4], &[1, 2, 6, 5], &[2, 3, 7, 6], &[3, 0, 4, 7]] };
    let planes: Vec<(V3, V3)> = faces.iter().map(|f| (corners[f[0]], unit(cross3(sub(corners[f[1]], corners[f[0]]), sub(corners[f[2]], corners[f[0]]))))).collect();
    let r = if tet {
        m.intersect_convex_polyhedron(&Tetrahedron::from_vertices([0, 1, 2, 3].map(|i| pt(corners[i]))))
    } else {
        m.intersect_convex_polyhedron(&Hexahedron::from_vertices([0, 1, 2, 3, 4, 5, 6, 7].map(|i| pt(corners[i]))))
    };
    let scale = corners.iter().flatten().fold(scale, |m: f64, x| m.max(x.abs()));
    check_clip(c, m, &r, &planes, scale)?;
    let (a, t) = (r.compute_volume(), m.compute_volume());
    c.nontrivial_if(a > 1e-6 * t && a < (1.0 - 1e-6) * t);
    Ok(r)
}

/// Whether no vertex is so close to a clipping plane that rounding decides on its side
fn is_clear(m: &PM, planes: &[(V3, V3)], scale: f64) -> bool {
    verts_of(m).iter().all(|x| planes.iter().all(|(o, n)| dot(*n, sub(*x, *o)).abs() > 1e-7 * scale))
}

/// Whether a face runs back along itself or has a vertex twice, so that its cells are not convex
fn is_folded(m: &PM, scale: f64) -> bool {
    let v = verts_of(m);
    faces_of(m).iter().any(|f| {
        if f.iter().collect::<BTreeSet<_>>().len() < f.len() {
            return true;
        }
        let k = (0..f.len()).min_by_key(|i| f[*i]).unwrap_or(0);
        let at = |i: usize| v[f[(i + k) % f.len()]];
        let mut sum = [0.0; 3];
        let mut unsigned = 0.0;
        for i in 1..f.len().max(2) - 1 {
            let a = cross3(sub(at(i), at(0)), sub(at(i + 1), at(0)));
            sum = add(sum, a);
            unsigned += norm(a);
        }
        unsigned - norm(sum) > 1e-10 * scale * scale
    })
}

/// `clear`: the cells are convex, no matter how rounding went
fn check_triangulate(c: &mut Case, m: &PM, clear: bool) -> Result<PM, Stop> {
    let s = solids(m);
    let scale = size(&s);
    let r = match m.triangulate() {
        Ok(r) => r,
        Err(e) => {
            ensure!(faces_of(m).iter().any(|f| f.len() < 3), "cannot triangulate: {}", e);
            return Ok(m.clone());
        }
    };
    ensure!(verts_of(&r) == verts_of(m), "vertices changed");
    let f = faces_of(&r);
    ensure!(f.iter().all(|x| x.len() == 3) && cells_of(&r).iter().all(|x| x.len() == 4), "cells that are not tetrahedra");
    let keys: BTreeSet<BTreeSet<usize>> = f.iter().map(|x| x.iter().copied().collect()).collect();
    ensure!(keys.len() == f.len(), "duplicate faces");
    if is_closed(m) {
        closed(&r)?;
    }
    accessors(&r)?;
    if !clear && is_folded(m, scale) {
        c.class("folded");
        return Ok(r);
    }
    let (a, b): (f64, f64) = (solids(&r).iter().map(|s| s.volume()).sum(), s.iter().map(|s| s.volume()).sum());
    ensure!((a - b).abs() <= 1e-8 * scale.powi(3), "triangulation has volume {}, expected {}", a, b);
    // as a mesh of tetrahedra
    let t = Tet4Mesh::try_from(&r).map_err(|e| format!("cannot convert: {}", e))?;
    ensure_eq!(t.vertices().iter().map(p3).collect::<Vec<_>>(), verts_of(m));
    ensure_eq!(t.connectivity().len(), r.num_cells());
    for (i, k) in t.connectivity().iter().enumerate() {
        let x: Vec<V3> = k.0.iter().map(|j| p3(&t.vertices()[*j])).collect();
        let v = dot(sub(x[1], x[0]), cross3(sub(x[2], x[0]), sub(x[3], x[0]))) / 6.0;
        ensure!(v >= -1e-9 * scale.powi(3), "tetrahedron {} has volume {}", i, v);
        let want: BTreeSet<usize> = r.get_cell_connectivity(i).unwrap().iter().flat_map(|j| f[*j].clone()).collect();
        ensure_eq!(k.0.iter().copied().collect::<BTreeSet<_>>(), want);
    }
    c.class("triangulated");
    Ok(r)
}

/// A history of operations on a mesh of convex cells
fn history(c: &mut Case) -> Res {
    let mut m = gen_start(c)?;
    let base = if m.num_cells() == 0 { 1.0 } else { size(&solids(&m)) };
    let floor = 1e-3 * base;
    // until a clip leaves it to rounding what is kept
    let mut clear = true;
    let steps = c.int(1, 5);
    for _ in 0..steps {
        let s = solids(&m);
        let vol: Vec<f64> = s.iter().map(|s| s.volume()).collect();
        let scale = size(&s).max(floor);
        match c.int(0, 8) {
            0 => {
                c.note(|| "dedup".to_string());
                check_dedup(&mut m)?;
                same_volumes(c, &m, &vol, scale)?;
            }
            1 if m.vertices().len() < 300 => {
                let n = c.int(0, 2);
                c.note(|| format!("split edges {} times", n));
                let mut k = m.clone();
                k.split_edges_n_times(n);
                check_split(&mut m, n)?;
                ensure!(k == m, "split_edges_n_times({}) differs from splitting as often", n);
                same_volumes(c, &m, &vol, scale)?;
            }
            2 if m.num_cells() < 60 => {
                c.note(|| "triangulate".to_string());
                let r = check_triangulate(c, &m, clear)?;
                if c.chance(1, 3) {
                    m = r;
                }
            }
            3 => {
                let n = m.num_cells();
                let k = if n == 0 { vec![] } else { let l = c.int(0, n + 1); c.vec(l, |c| c.int(0, n - 1)) };
                c.note(|| format!("keep {:?}", k));
                m = check_keep(&m, &k)?;
                let want: Vec<f64> = k.iter().map(|i| vol[*i]).collect();
                same_volumes(c, &m, &want, scale)?;
            }
            4 if m.num_cells() < 40 => {
                c.note(|| "concatenate".to_string());
                let mut o = m.clone();
                let d = [2.0 * scale, 0.0, 0.0];
                check_translate(&mut o, d)?;
                m = check_concat(&[&m, &o])?;
                let want = [vol.clone(), vol].concat();
                same_volumes(c, &m, &want, 4.0 * scale)?;
            }
            5 => {
                let d = [c.grid(8, 2), c.grid(8, 2), c.grid(8, 2)].map(|x| x * base);
                c.note(|| format!("translate {:?}", d));
                check_translate(&mut m, d)?;
                same_volumes(c, &m, &vol, scale + norm(d))?;
            }
            6 => {
                m = clip_solid(c, &m, floor)?;
                clear = false;
            }
            _ => m = clip_half(c, &m, floor, &mut clear)?,
        }
        accessors(&m)?;
    }
    Ok(())
}

/// Operations that only look at the numbering, on arbitrary data
fn topology(c: &mut Case) -> Res {
    let gen = |c: &mut Case| -> PM {
        let n = c.int(0, 6);
        let v: Vec<V3> = c.vec(n, |c| [c.grid(4, 2), c.grid(4, 2), c.grid(4, 2)]);
        let nf = if n == 0 { 0 } else { c.int(0, 6) };
        let f: Vec<Vec<usize>> = c.vec(nf, |c| { let k = c.int(0, n.min(5)); c.distinct(k, n) });
        let nc = c.int(0, 4);
        let cl: Vec<Vec<usize>> = c.vec(nc, |c| if nf == 0 { vec![] } else { let k = c.int(0, 4); c.vec(k, |c| c.int(0, nf - 1)) });
        c.note(|| format!("vertices {:?}, faces {:?}, cells {:?}", v, f, cl));
        PM::from_poly_data(v.into_iter().map(pt).collect(), NestedVec::from(&f), NestedVec::from(&cl))
    };
    let m = gen(c);
    accessors(&m)?;
    c.nontrivial_if(m.num_cells() > 0 && m.num_faces() > 1);
    let mut a = m.clone();
    check_dedup(&mut a)?;
    let once = a.clone();
    a.dedup_faces();
    ensure!(a == once, "removing duplicates twice changes more");
    if m.face_connectivity_iter().all(|f| f.len() != 1 && f.len() != 0) {
        let mut b = m.clone();
        check_split(&mut b, 1)?;
    }
    let n = m.num_cells();
    let k = if n == 0 { vec![] } else { let l = c.int(0, 5); c.vec(l, |c| c.int(0, n - 1)) };
    check_keep(&m, &k)?;
    ensure!(catch(|| m.keep_cells(&[n])).is_err(), "a cell that does not exist is kept");
    let o = gen(c);
    let e = PM::new_empty();
    ensure!(e.vertices().is_empty() && e.num_faces() == 0 && e.num_cells() == 0);
    check_concat(&[&m, &e, &o])?;
    check_concat(&[])?;
    // serialisation
    let s = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    let back: PM = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    ensure!(back == m, "after serialisation {:?}", back);
    // text
    let text = format!("{}", m);
    let mut want = String::from("PolyMesh3d\n  Vertices:\n");
    for v in m.vertices() {
        want += &format!("    {}\n", v);
    }
    let list = |rows: Vec<Vec<usize>>| rows.iter().enumerate().map(|(i, r)| format!("    {}: {}\n", i, r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "))).collect::<String>();
    want += &format!("\n  Face vertex indices:\n{}\n  Cell face indices:\n{}", list(faces_of(&m)), list(cells_of(&m)));
    ensure!(text == want, "text {:?}, expected {:?}", text, want);
    // invalid references are refused
    let (nv, nf) = (m.vertices().len(), m.num_faces());
    let v = m.vertices().to_vec();
    let bad_face = vec![vec![nv]];
    ensure!(catch(|| PM::from_poly_data(v.clone(), NestedVec::from(&bad_face), NestedVec::new())).is_err(), "a face refers to a vertex that does not exist");
    let bad_cell = vec![vec![nf]];
    ensure!(catch(|| PM::from_poly_data(v.clone(), NestedVec::from(&faces_of(&m)), NestedVec::from(&bad_cell))).is_err(), "a cell refers to a face that does not exist");
    // conversion to tetrahedra is total
    let small = m.face_connectivity_iter().any(|f| f.len() < 3);
    ensure!(m.triangulate().is_err() == small || !small, "faces with less than three vertices are triangulated");
    let ok = cells_of(&m).iter().all(|cl| {
        let f: Vec<BTreeSet<usize>> = cl.iter().map(|i| faces_of(&m)[*i].iter().copied().collect()).collect();
        cl.len() == 4 && f.iter().all(|x| x.len() == 3) && f.iter().collect::<BTreeSet<_>>().len() == 4 && f.iter().flatten().collect::<BTreeSet<_>>().len() == 4
    });
    match catch(|| Tet4Mesh::try_from(&m).is_ok()) {
        Err(p) => fail!("conversion to tetrahedra panics: {:?}", p),
        Ok(r) => {
            c.class_if(ok, "tetrahedra");
            ensure!(r == ok, "conversion to tetrahedra succeeds: {}", r);
        }
    }
    Ok(())
}

/// Edges in the plane are split as well
fn planar(c: &mut Case) -> Res {
    let kind = *c_pick(c);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: 12, distort: 0.2, ..Default::default() });
    c.note(|| format!("{:?}", g));
    c.nontrivial_if(g.cells.len() > 1);
    let mut m: PolyMesh<f64, fenris::nalgebra::U2> = match g.kind {
        Kind::Tri3 => PolyMesh::from(&g.to_mesh::<Tri3d2Connectivity>()),
        _ => PolyMesh::from(&g.to_mesh::<Quad4d2Connectivity>()),
    };
    let n = g.cells[0].len();
    // the edges of the cells, each once
    let mut edges = BTreeSet::new();
    for (i, cell) in g.cells.iter().enumerate() {
        let want: BTreeSet<[usize; 2]> = (0..n).map(|k| (cell[k], cell[(k + 1) % n])).map(|(a, b)| [a.min(b), a.max(b)]).collect();
        let got: BTreeSet<[usize; 2]> = m.get_cell_connectivity(i).unwrap().iter().map(|k| m.get_face_connectivity(*k).unwrap()).map(|f| [f[0].min(f[1]), f[0].max(f[1])]).collect();
        ensure_eq!(&got, &want);
        edges.extend(want);
    }
    ensure!(m.num_faces() == edges.len(), "{} edges, expected {}", m.num_faces(), edges.len());
    let nv = m.vertices().len();
    m.split_edges();
    ensure!(m.vertices().len() == nv + edges.len(), "{} vertices for {} edges", m.vertices().len(), edges.len());
    for f in m.face_connectivity_iter() {
        ensure!(f.len() == 4 && f[1] == f[3], "edge becomes {:?}", f);
        let p = |i: usize| m.vertices()[f[i]];
        let mid = Point2::from((p(0).coords + p(2).coords) / 2.0);
        ensure!((mid - p(1)).norm() <= 1e-12 * (1.0 + mid.coords.norm()), "midpoint {:?}, expected {:?}", p(1), mid);
    }
    Ok(())
}

fn c_pick(c: &mut Case) -> &'static Kind {
    c.pick(&[Kind::Tri3, Kind::Quad4])
}

/// Vertices and faces with large numbers
fn high_indices(c: &mut Case) -> Res {
    let limit = *c.pick(&[400usize, 70_000, 140_000]);
    let pool = big_indices(c, 7, limit);
    let k = c.int(1, 8);
    let faces: Vec<Vec<usize>> = c.vec(k, |c| {
        let n = c.int(2, 5);
        c.distinct(n, 7).iter().map(|i| pool[*i]).collect()
    });
    let cells: Vec<Vec<usize>> = (0..c.int(1, 3)).map(|_| c.vec(4, |c| c.int(0, k - 1))).collect();
    c.note(|| format!("{} vertices, faces {:?}, cells {:?}", limit, faces, cells));
    c.nontrivial_if(limit > 1000);
    let m = PM::from_poly_data((0..limit).map(|i| pt([i as f64, 0.0, 1.0])).collect(), NestedVec::from(&faces), NestedVec::from(&cells));
    accessors(&m)?;
    let mut a = m.clone();
    check_dedup(&mut a)?;
    let mut b = m.clone();
    check_split(&mut b, 1)?;
    check_keep(&m, &[0])?;
    Ok(())
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 200;
    match c.int(0, 1) {
        0 => history(c),
        _ => planar(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C25",
        rule: "a clip leaves part of the volume on both sides (history); at least one cell and two faces (topology); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["cells are convex with planar faces; cells with less than 1e-5 of the cube of the mesh size are only compared in total"],
        clauses: vec![
            clause("history", 120_000, 2_000_000, history),
            clause("topology", 1_000_000, 10_000_000, topology),
            clause("planar", 750_000, 7_500_000, planar),
            clause("high_indices", 2_000, 20_000, high_indices),
            clause("huge", 500, 5000, huge),
        ],
    })
}
