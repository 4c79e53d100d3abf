//! C19: conversion between cell types, splitting and refinement of meshes.
use fenris::connectivity::*;
use fenris::mesh::refinement::*;
use fenris::mesh::*;
use fenris::nalgebra::Vector3;
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};

fn note(c: &mut Case, g: &GMesh) {
    c.note(|| format!("{:?} mesh, {} vertices {:?}, cells {:?}", g.kind, g.verts.len(), g.verts, g.cells));
}

/// Both meshes have the same cells in the same order, up to the numbering of the nodes
fn same(label: &str, got: &GMesh, model: &GMesh, extra: usize) -> Res {
    ensure!(got.cells.len() == model.cells.len(), "{}: {} cells instead of {}", label, got.cells.len(), model.cells.len());
    let mut there: BTreeMap<usize, usize> = BTreeMap::new();
    let mut back: BTreeMap<usize, usize> = BTreeMap::new();
    let size = max_abs(&model.verts);
    for (i, (a, b)) in got.cells.iter().zip(&model.cells).enumerate() {
        ensure!(a.len() == b.len(), "{}: cell {} has {} nodes", label, i, a.len());
        for (k, (x, y)) in a.iter().zip(b).enumerate() {
            ensure!(*x < got.verts.len(), "{}: cell {} refers to vertex {} of {}", label, i, x, got.verts.len());
            ensure!(*there.entry(*x).or_insert(*y) == *y, "{}: node {} of cell {} ({}) is shared with a node at another place", label, k, i, x);
            ensure!(*back.entry(*y).or_insert(*x) == *x, "{}: node {} of cell {} is not shared with its neighbours", label, k, i);
            let (p, q) = (&got.verts[*x], &model.verts[*y]);
            ensure!(dist(p, q) <= 1e-13 * size, "{}: node {} of cell {} is at {:?} instead of {:?}", label, k, i, p, q);
            if k < model.kind.num_corners() {
                ensure!(p == q, "{}: corner {} of cell {} was moved from {:?} to {:?}", label, k, i, q, p);
            }
        }
    }
    let used: BTreeSet<usize> = got.cells.iter().flatten().copied().collect();
    ensure!(got.verts.len() <= used.len() + extra, "{}: {} vertices, of which {} are used; the original mesh has {} unused ones", label, got.verts.len(), used.len(), extra);
    Ok(())
}

/// Simplices with arbitrarily shared vertices
fn simplex_soup(c: &mut Case, kind: Kind) -> GMesh {
    let nc = kind.num_corners();
    let n = nc + c.int(0, 4);
    let k = c.int(0, 6);
    let cells = c.vec(k, |c| c.distinct(nc, n));
    let verts = c.vec(n, |c| c.vec(kind.gdim(), |c| c.coord(4.0)));
    GMesh { kind, verts, cells }
}

fn raise(c: &mut Case) -> Res {
    use Kind::*;
    let (from, to) = *c.pick(&[(Tri3, Tri6), (Quad4, Quad9), (Tet4, Tet10), (Tet4, Tet20), (Hex8, Hex20), (Hex8, Hex27)]);
    let g = if from.simplex() && c.chance(1, 3) {
        simplex_soup(c, from)
    } else {
        gen_mesh(c, from, &MeshOpts { max_cells: if c.thorough { 60 } else { 24 }, empty: true, distort: 0.2, ..Default::default() })
    };
    note(c, &g);
    c.class(match to {
        Tri6 => "Tri6",
        Quad9 => "Quad9",
        Tet10 => "Tet10",
        Tet20 => "Tet20",
        Hex20 => "Hex20",
        _ => "Hex27",
    });
    let model = g.raise(to);
    let mut owners: BTreeMap<usize, usize> = BTreeMap::new();
    for cell in &model.cells {
        for n in &cell[from.num_corners()..] {
            *owners.entry(*n).or_insert(0) += 1;
        }
    }
    c.nontrivial_if(owners.values().any(|x| *x > 1));
    let unused = g.used().iter().filter(|u| !**u).count();
    let got = match to {
        Tri6 => from_mesh(to, &Tri6Mesh2d::from(g.to_mesh::<Tri3d2Connectivity>())),
        Quad9 => from_mesh(to, &Quad9Mesh2d::from(g.to_mesh::<Quad4d2Connectivity>())),
        Tet10 => from_mesh(to, &Tet10Mesh::from(&g.to_mesh::<Tet4Connectivity>())),
        Tet20 => from_mesh(to, &Tet20Mesh::from(&g.to_mesh::<Tet4Connectivity>())),
        Hex20 => from_mesh(to, &Hex20Mesh::from(&g.to_mesh::<Hex8Connectivity>())),
        _ => from_mesh(to, &Hex27Mesh::from(&g.to_mesh::<Hex8Connectivity>())),
    };
    same(&format!("{:?} to {:?}", from, to), &got, &model, unused)
}

/// Tet10 to Tet4, and connectivities of higher order to linear ones
fn lower(c: &mut Case) -> Res {
    let g = if c.bool() {
        gen_mesh(c, Kind::Tet10, &MeshOpts { max_cells: 24, empty: true, ..Default::default() })
    } else {
        let nn = 10;
        let n = nn + c.int(0, 8);
        let k = c.int(0, 5);
        let cells = c.vec(k, |c| c.distinct(nn, n));
        GMesh { kind: Kind::Tet10, verts: c.vec(n, |c| c.vec(3, |c| c.coord(4.0))), cells }
    };
    note(c, &g);
    c.nontrivial_if(g.cells.len() > 1);
    let model = GMesh { kind: Kind::Tet4, verts: g.verts.clone(), cells: g.cells.iter().map(|x| x[..4].to_vec()).collect() };
    let got = from_mesh(Kind::Tet4, &Tet4Mesh::from(&g.to_mesh::<Tet10Connectivity>()));
    same("Tet10 to Tet4", &got, &model, 0)?;
    for cell in &g.cells {
        let t = Tet10Connectivity::from_indices(cell);
        ensure_eq!(Tet4Connectivity::from(&t).0.to_vec(), cell[..4].to_vec());
        ensure_eq!(Tri3d2Connectivity::from(&Tri6d2Connectivity::from_indices(&cell[..6])).0.to_vec(), cell[..3].to_vec());
        ensure_eq!(Quad4d2Connectivity::from(&Quad9d2Connectivity::from_indices(&cell[..9])).0.to_vec(), cell[..4].to_vec());
    }
    Ok(())
}

fn cross(a: &[f64], b: &[f64], p: &[f64]) -> f64 {
    (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
}

/// A simple quadrilateral in counter-clockwise order: all corners clearly not straight; the concave corner, if any
fn classify(q: &[Vec<f64>]) -> Option<Option<usize>> {
    let d = diameter(q);
    let turns: Vec<f64> = (0..4).map(|i| cross(&q[(i + 3) % 4], &q[i], &q[(i + 1) % 4]) / (d * d)).collect();
    if !turns.iter().all(|t| t.abs() >= 1e-3) {
        return None;
    }
    let concave: Vec<usize> = (0..4).filter(|i| turns[*i] < 0.0).collect();
    match concave.len() {
        0 => Some(None),
        1 => {
            // the diagonal through the concave corner lies inside
            let i = concave[0];
            let t = |k: usize| &q[(i + k) % 4];
            if cross(t(0), t(1), t(2)) / (d * d) > 1e-3 && cross(t(0), t(2), t(3)) / (d * d) > 1e-3 {
                Some(Some(i))
            } else {
                None
            }
        }
        _ => None,
    }
}

fn gen_quads(c: &mut Case) -> GMesh {
    if c.chance(1, 3) {
        // single quadrilaterals
        let n = c.int(1, 3);
        let mut g = GMesh { kind: Kind::Quad4, verts: vec![], cells: vec![] };
        for _ in 0..n {
            let q: Vec<Vec<f64>> = if c.bool() {
                // arrow with a tip that goes in
                let t = c.f64(0.1, 0.9);
                let q = [vec![0.0, 0.0], vec![1.0, -0.5], vec![t * 1.2, t * 0.5 - 0.1], vec![c.f64(-0.3, 0.3), 1.0]];
                let s = c.int(0, 3);
                (0..4).map(|i| q[(i + s) % 4].clone()).collect()
            } else {
                c.vec(4, |c| vec![c.coord(1.0), c.coord(1.0)])
            };
            if classify(&q).is_some() {
                let o = g.verts.len();
                g.verts.extend(q);
                g.cells.push((o..o + 4).collect());
            }
        }
        return g;
    }
    let mut g = gen_mesh(c, Kind::Quad4, &MeshOpts { max_cells: 16, empty: true, distort: 0.2, ..Default::default() });
    // move vertices as long as all quadrilaterals around them stay simple
    for v in 0..g.verts.len() {
        if !c.bool() {
            continue;
        }
        let h = g.cells.iter().filter(|x| x.contains(&v)).map(|x| diameter(&x.iter().map(|i| g.verts[*i].clone()).collect::<Vec<_>>())).fold(0.0, f64::max);
        let old = g.verts[v].clone();
        g.verts[v] = old.iter().map(|x| x + c.f64(-0.6, 0.6) * h).collect();
        let ok = (0..g.cells.len()).filter(|i| g.cells[*i].contains(&v)).all(|i| classify(&g.corners(i)).is_some());
        if !ok {
            g.verts[v] = old;
        }
    }
    g
}

fn rotate_min(t: &[usize]) -> Vec<usize> {
    let i = (0..t.len()).min_by_key(|i| t[*i]).unwrap();
    (0..t.len()).map(|k| t[(i + k) % t.len()]).collect()
}

fn split_quads(c: &mut Case) -> Res {
    let g = gen_quads(c);
    note(c, &g);
    let kinds: Vec<Option<Option<usize>>> = (0..g.cells.len()).map(|i| classify(&g.corners(i))).collect();
    if kinds.iter().any(|k| k.is_none()) {
        discard!("quadrilateral with an almost straight corner");
    }
    c.nontrivial_if(kinds.iter().any(|k| k.unwrap().is_some()));
    let tri = g.to_mesh::<Quad4d2Connectivity>().split_into_triangles();
    let t = from_mesh(Kind::Tri3, &tri);
    ensure!(t.verts == g.verts, "the vertices of the mesh changed");
    ensure!(t.cells.len() == 2 * g.cells.len(), "{} triangles for {} quadrilaterals", t.cells.len(), g.cells.len());
    let mut left: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for x in &t.cells {
        let p: Vec<&Vec<f64>> = x.iter().map(|i| &g.verts[*i]).collect();
        ensure!(cross(p[0], p[1], p[2]) > 0.0, "triangle {:?} is not positively oriented", x);
        *left.entry(rotate_min(x)).or_insert(0) += 1;
    }
    for (i, q) in g.cells.iter().enumerate() {
        let mut found = false;
        for s in 0..2 {
            let a = rotate_min(&[q[s], q[s + 1], q[s + 2]]);
            let b = rotate_min(&[q[s + 2], q[(s + 3) % 4], q[s]]);
            if !found && left.get(&a).copied().unwrap_or(0) > 0 && left.get(&b).copied().unwrap_or(0) > 0 {
                *left.get_mut(&a).unwrap() -= 1;
                *left.get_mut(&b).unwrap() -= 1;
                found = true;
            }
        }
        ensure!(found, "quadrilateral {} ({:?}) is not among the triangles {:?} as two triangles at a diagonal", i, q, t.cells);
    }
    // the quadrilateral by itself
    for i in 0..g.cells.len() {
        let q = g.corners(i);
        let quad = fenris::geometry::Quad2d([0, 1, 2, 3].map(|k| opoint(&q[k])));
        let area = (cross(&q[0], &q[1], &q[2]) + cross(&q[0], &q[2], &q[3])) / 2.0;
        ensure_eq!(quad.concave_corner(), kinds[i].unwrap());
        ensure!((quad.area() - area).abs() <= 1e-12 * diameter(&q).powi(2), "area of {:?} is {} instead of {}", q, quad.area(), area);
        let (t1, t2) = quad.split_into_triangles();
        ensure!(t1.signed_area() > 0.0 && t2.signed_area() > 0.0, "{:?} is split into {:?} and {:?}", q, t1, t2);
        ensure!((t1.signed_area() + t2.signed_area() - area).abs() <= 1e-12 * diameter(&q).powi(2), "{:?} is split into {:?} and {:?}", q, t1, t2);
    }
    Ok(())
}

fn v3(p: &[f64]) -> Vector3<f64> {
    Vector3::new(p[0], p[1], p[2])
}

const HEX_FACES: [[usize; 4]; 6] = [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [0, 4, 7, 3], [4, 5, 6, 7]];

/// Hexahedra with planar faces: images of a grid under a projective transformation
fn gen_planar_hexes(c: &mut Case) -> GMesh {
    let mut g = gen_mesh(c, Kind::Hex8, &MeshOpts { max_cells: if c.thorough { 36 } else { 18 }, empty: true, distort: 0.0, affine: None, cracks: false, ..Default::default() });
    // uneven grid spacing
    let warp: Vec<f64> = c.vec(3, |c| if c.bool() { 0.0 } else { c.f64(0.0, 0.3) });
    for v in &mut g.verts {
        for k in 0..3 {
            v[k] += warp[k] * v[k] * v[k];
        }
    }
    let r = max_abs(&g.verts).max(1.0);
    let w: Vec<f64> = c.vec(3, |c| if c.bool() { 0.0 } else { c.f64(-0.2, 0.2) / r });
    let a = gen_affine(c, 3, 3, 4.0, true) * c.magnitude(-2.0, 2.0);
    let b = c.vec(3, |c| c.f64(-3.0, 3.0));
    for v in &mut g.verts {
        let den = 1.0 + w.iter().zip(v.iter()).map(|(p, q)| p * q).sum::<f64>();
        let x = fenris::nalgebra::DMatrix::from_column_slice(3, 1, v) / den;
        *v = (&a * x).iter().zip(&b).map(|(p, q)| p + q).collect();
    }
    g
}

fn hex_to_tet(c: &mut Case) -> Res {
    let g = gen_planar_hexes(c);
    note(c, &g);
    c.nontrivial_if(g.cells.len() > 1);
    let size = diameter(&g.verts).max(1e-300);
    let tets = from_mesh(Kind::Tet4, &Tet4Mesh::from(&g.to_mesh::<Hex8Connectivity>()));
    ensure!(tets.verts == g.verts, "the vertices of the mesh changed");
    // half-spaces and volume of the hexahedra
    let hex: Vec<(Vec<(Vector3<f64>, Vector3<f64>)>, f64, f64)> = (0..g.cells.len())
        .map(|i| {
            let p: Vec<Vector3<f64>> = g.corners(i).iter().map(|x| v3(x)).collect();
            let o = p[0];
            let planes = HEX_FACES.iter().map(|f| (p[f[0]], (p[f[2]] - p[f[0]]).cross(&(p[f[3]] - p[f[1]])).normalize())).collect();
            let vol = HEX_FACES.iter().map(|f| (p[f[0]] - o).dot(&(p[f[1]] - o).cross(&(p[f[2]] - o))) + (p[f[0]] - o).dot(&(p[f[2]] - o).cross(&(p[f[3]] - o)))).sum::<f64>() / 6.0;
            (planes, vol, diameter(&g.corners(i)))
        })
        .collect();
    let mut volumes = vec![0.0; hex.len()];
    let mut faces: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    for (k, t) in tets.cells.iter().enumerate() {
        let p: Vec<Vector3<f64>> = t.iter().map(|i| v3(&g.verts[*i])).collect();
        let v = (p[1] - p[0]).dot(&(p[2] - p[0]).cross(&(p[3] - p[0]))) / 6.0;
        ensure!(v > 0.0, "tetrahedron {} ({:?}) has volume {}", k, t, v);
        let mid = p.iter().sum::<Vector3<f64>>() / 4.0;
        let owner: Vec<usize> = (0..hex.len()).filter(|h| hex[*h].0.iter().all(|(a, n)| (mid - a).dot(n) < 0.0)).collect();
        ensure!(owner.len() == 1, "the centre of tetrahedron {} ({:?}) lies in the hexahedra {:?}", k, t, owner);
        let (planes, _, d) = &hex[owner[0]];
        ensure!(p.iter().all(|x| planes.iter().all(|(a, n)| (x - a).dot(n) <= 1e-9 * d)), "tetrahedron {} ({:?}) reaches out of hexahedron {}", k, t, owner[0]);
        volumes[owner[0]] += v;
        for s in 0..4 {
            let mut f: Vec<usize> = (0..4).filter(|i| *i != s).map(|i| t[i]).collect();
            f.sort();
            *faces.entry(f).or_insert(0) += 1;
        }
    }
    for i in 0..hex.len() {
        ensure!((volumes[i] - hex[i].1).abs() <= 1e-10 * size.powi(3), "the tetrahedra in hexahedron {} have volume {}, it has {}", i, volumes[i], hex[i].1);
    }
    // faces match: what is not shared makes up the boundary
    ensure!(faces.values().all(|n| *n <= 2), "a face belongs to three tetrahedra");
    let area = |f: &[usize]| (v3(&g.verts[f[1]]) - v3(&g.verts[f[0]])).cross(&(v3(&g.verts[f[2]]) - v3(&g.verts[f[0]]))).norm() / 2.0;
    let outer: f64 = faces.iter().filter(|(_, n)| **n == 1).map(|(f, _)| area(f)).sum();
    let mut hfaces: BTreeMap<Vec<usize>, (usize, f64)> = BTreeMap::new();
    for cell in &g.cells {
        for f in HEX_FACES {
            let ids: Vec<usize> = f.iter().map(|i| cell[*i]).collect();
            let a = area(&ids[..3]) + area(&[ids[0], ids[2], ids[3]]);
            let mut key = ids.clone();
            key.sort();
            hfaces.entry(key).or_insert((0, a)).0 += 1;
        }
    }
    let expected: f64 = hfaces.values().filter(|x| x.0 == 1).map(|x| x.1).sum();
    ensure!((outer - expected).abs() <= 1e-9 * size * size, "unmatched faces of the tetrahedra have area {}, the boundary has {}", outer, expected);
    Ok(())
}

fn refine(c: &mut Case) -> Res {
    let g = if c.chance(1, 4) { simplex_soup(c, Kind::Tri3) } else { gen_mesh(c, Kind::Tri3, &MeshOpts { max_cells: 24, empty: true, distort: 0.25, ..Default::default() }) };
    note(c, &g);
    c.nontrivial_if(g.cells.len() > 1);
    let mesh = g.to_mesh::<Tri3d2Connectivity>();
    let once = refine_uniformly(&mesh);
    ensure!(once == refine_mesh(&mesh, UniformRefinement), "refine_uniformly is not refine_mesh with UniformRefinement");
    // every parent is replaced by its three corner triangles and the middle one
    let t6 = g.raise(Kind::Tri6);
    let mut expected: Vec<Vec<usize>> = t6.cells.iter().flat_map(|n| [[n[0], n[3], n[5]], [n[3], n[1], n[4]], [n[5], n[4], n[2]], [n[3], n[4], n[5]]]).map(|t| rotate_min(&t)).collect();
    let got = from_mesh(Kind::Tri3, &once);
    ensure!(got.cells.len() == 4 * g.cells.len(), "{} triangles are refined to {}", g.cells.len(), got.cells.len());
    // identify nodes by position; positions that coincide are told apart by the pattern of use
    let size = max_abs(&t6.verts).max(1e-300);
    let used: BTreeSet<usize> = t6.cells.iter().flatten().copied().collect();
    let got_used: BTreeSet<usize> = got.cells.iter().flatten().copied().collect();
    ensure!(got_used.len() == used.len(), "the refined mesh uses {} vertices, expected {}", got_used.len(), used.len());
    ensure!(got.verts.len() <= used.len() + g.verts.len(), "the refined mesh has {} vertices, {} are used", got.verts.len(), used.len());
    let distinct = {
        let v: Vec<&usize> = used.iter().collect();
        (0..v.len()).all(|i| (0..i).all(|j| dist(&t6.verts[*v[i]], &t6.verts[*v[j]]) > 1e-9 * size))
    };
    if distinct {
        let mut map = BTreeMap::new();
        for i in &got_used {
            let j = used.iter().find(|j| dist(&t6.verts[**j], &got.verts[*i]) <= 1e-12 * size);
            ensure!(j.is_some(), "vertex {} of the refined mesh is at {:?}, where no vertex or midpoint is", i, got.verts[*i]);
            map.insert(*i, *j.unwrap());
        }
        let mut have: Vec<Vec<usize>> = got.cells.iter().map(|t| rotate_min(&t.iter().map(|i| map[i]).collect::<Vec<_>>())).collect();
        have.sort();
        expected.sort();
        ensure!(have == expected, "the triangles are {:?}, expected {:?} (nodes as in Tri6: {:?})", have, expected, t6.cells);
    } else {
        c.class("coinciding vertices");
    }
    for t in 0..got.cells.len() {
        let p = got.corners(t);
        let a = cross(&p[0], &p[1], &p[2]);
        if distinct && g.cells.len() == 1 {
            let q = g.corners(0);
            let parent = cross(&q[0], &q[1], &q[2]);
            ensure!((4.0 * a - parent).abs() <= 1e-12 * size * size, "a refined triangle has area {}, its parent {}", a / 2.0, parent / 2.0);
        }
    }
    // repetition
    let k = c.int(0, if c.thorough { 3 } else { 2 });
    let many = refine_uniformly_repeat(&mesh, k);
    let mut step = mesh.clone();
    for _ in 0..k {
        step = refine_uniformly(&step);
    }
    let key = |m: &TriangleMesh2d<f64>| {
        let mut v: Vec<Vec<u64>> = m.connectivity().iter().map(|t| rotate_min(&t.0).iter().flat_map(|i| m.vertices()[*i].iter().map(|x| (x + 0.0).to_bits()).collect::<Vec<_>>()).collect()).collect();
        v.sort();
        v
    };
    ensure!(many == step || (key(&many) == key(&step) && many.vertices().len() == step.vertices().len()), "refining {} times at once differs from refining step by step", k);
    Ok(())
}

/// The numbers of the vertices do not matter, however large they are
fn high_indices(c: &mut Case) -> Res {
    use Kind::*;
    let (from, to) = *c.pick(&[(Tri3, Tri6), (Quad4, Quad9), (Tet4, Tet10), (Tet4, Tet20), (Hex8, Hex20), (Hex8, Hex27)]);
    let small = gen_mesh(c, from, &MeshOpts { max_cells: 16, unused: false, distort: 0.0, affine: None, cracks: false, ..Default::default() });
    let g = spread(c, &small);
    c.note(|| format!("{:?} mesh, {} vertices, cells {:?}", g.kind, g.verts.len(), g.cells));
    c.nontrivial_if(g.cells.len() > 1);
    let unused = g.used().iter().filter(|u| !**u).count();
    // cells by the positions of their vertices
    let key = |m: &GMesh| {
        let mut v: Vec<Vec<Vec<u64>>> = m
            .cells
            .iter()
            .map(|t| {
                let mut x: Vec<Vec<u64>> = t.iter().map(|i| m.verts[*i].iter().map(|x| (x + 0.0).to_bits()).collect()).collect();
                x.sort();
                x
            })
            .collect();
        v.sort();
        v
    };
    let alike = |what: &str, a: GMesh, b: GMesh| -> Res {
        ensure!(key(&a) == key(&b), "{} depends on the numbers of the vertices", what);
        ensure!(a.verts.len() <= b.verts.len() + unused, "{}: {} vertices, with small numbers there are {} and {} unused ones", what, a.verts.len(), b.verts.len(), unused);
        let n = |m: &GMesh| m.cells.iter().flatten().collect::<BTreeSet<_>>().len();
        ensure!(n(&a) == n(&b), "{}: {} vertices are used, with small numbers {}", what, n(&a), n(&b));
        Ok(())
    };
    match from {
        Tri3 => {
            let f = |m: &GMesh| from_mesh(Tri3, &refine_uniformly(&m.to_mesh::<Tri3d2Connectivity>()));
            alike("refinement", f(&g), f(&small))?;
        }
        Quad4 => {
            let f = |m: &GMesh| from_mesh(Tri3, &m.to_mesh::<Quad4d2Connectivity>().split_into_triangles());
            alike("splitting into triangles", f(&g), f(&small))?;
        }
        _ => {}
    }
    let got = match to {
        Tri6 => from_mesh(to, &Tri6Mesh2d::from(g.to_mesh::<Tri3d2Connectivity>())),
        Quad9 => from_mesh(to, &Quad9Mesh2d::from(g.to_mesh::<Quad4d2Connectivity>())),
        Tet10 => from_mesh(to, &Tet10Mesh::from(&g.to_mesh::<Tet4Connectivity>())),
        Tet20 => from_mesh(to, &Tet20Mesh::from(&g.to_mesh::<Tet4Connectivity>())),
        Hex20 => from_mesh(to, &Hex20Mesh::from(&g.to_mesh::<Hex8Connectivity>())),
        _ => from_mesh(to, &Hex27Mesh::from(&g.to_mesh::<Hex8Connectivity>())),
    };
    same(&format!("{:?} to {:?}", from, to), &got, &g.raise(to), unused)
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 2000;
    match c.int(0, 4) {
        0 => raise(c),
        1 => lower(c),
        2 => split_quads(c),
        3 => hex_to_tet(c),
        _ => refine(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C19",
        rule: "nodes added by the conversion are shared between cells (raise); more than one cell (lower, hex_to_tet, refine, high_indices); a concave quadrilateral occurs (split_quads); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["node positions of higher-order elements are those of the documented reference elements (decided by C08)"],
        clauses: vec![
            clause("raise", 160_000, 1_600_000, raise),
            clause("lower", 300_000, 3_000_000, lower),
            clause("split_quads", 900_000, 9_000_000, split_quads),
            clause("hex_to_tet", 130_000, 1_300_000, hex_to_tet),
            clause("refine", 270_000, 2_700_000, refine),
            clause("high_indices", 2_000, 20_000, high_indices),
            clause("huge", 3000, 30000, huge),
        ],
    })
}
