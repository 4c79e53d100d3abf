//! C20: procedurally generated meshes.
use fenris::connectivity::*;
use fenris::geometry::sdf::*;
use fenris::geometry::{AxisAlignedBoundingBox2d, BoundedGeometry};
use fenris::mesh::procedural::*;
use fenris::mesh::*;
use fenris::nalgebra::{Point2, Point3, Vector2, U2};
use pbt::elems::*;
use pbt::meshes::*;
use pbt::solid::*;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};

/// Position on the lattice lo + h * integers
fn lattice(p: &[f64], lo: &[f64], h: f64, scale: f64) -> Option<Vec<i64>> {
    p.iter()
        .zip(lo)
        .map(|(x, l)| {
            let t = (x - l) / h;
            if (x - (l + t.round() * h)).abs() <= 1e-12 * scale {
                Some(t.round() as i64)
            } else {
                None
            }
        })
        .collect()
}

/// Vertices are exactly the points of the grid with n cells per direction; cells are exactly the grid cells
fn check_grid(g: &GMesh, lo: &[f64], h: f64, n: &[usize]) -> Res {
    let d = n.len();
    if n.contains(&0) {
        ensure!(g.verts.is_empty() && g.cells.is_empty(), "a mesh without cells has {} vertices and {} cells", g.verts.len(), g.cells.len());
        return Ok(());
    }
    let scale = lo.iter().zip(n).map(|(l, n)| l.abs() + h * *n as f64).fold(0.0, f64::max);
    let mut at: BTreeMap<Vec<i64>, usize> = BTreeMap::new();
    for (i, v) in g.verts.iter().enumerate() {
        let k = lattice(v, lo, h, scale);
        ensure!(k.is_some(), "vertex {} at {:?} is not on the grid from {:?} with spacing {}", i, v, lo, h);
        let k = k.unwrap();
        ensure!(k.iter().zip(n).all(|(k, n)| *k >= 0 && *k <= *n as i64), "vertex {} at {:?} is not in the box", i, v);
        ensure!(at.insert(k, i).is_none(), "two vertices at {:?}", v);
    }
    ensure_eq!(at.len(), n.iter().map(|n| n + 1).product::<usize>(), "number of vertices");
    ensure_eq!(g.cells.len(), n.iter().product::<usize>(), "number of cells");
    let refs = g.kind.ref_nodes();
    let mut seen = BTreeSet::new();
    for (i, c) in g.cells.iter().enumerate() {
        let ks: Vec<Vec<i64>> = c.iter().map(|v| lattice(&g.verts[*v], lo, h, scale).unwrap()).collect();
        let corner: Vec<i64> = (0..d).map(|k| ks.iter().map(|x| x[k]).min().unwrap()).collect();
        let rel: BTreeSet<Vec<i64>> = ks.iter().map(|x| x.iter().zip(&corner).map(|(a, b)| a - b).collect()).collect();
        ensure!(rel.len() == 1 << d && rel.iter().flatten().all(|x| *x <= 1), "cell {} has its vertices at the grid points {:?}", i, ks);
        // neighbours in the reference element are neighbours in the grid
        for (a, ra) in refs.iter().enumerate() {
            for (b, rb) in refs.iter().enumerate() {
                if ra.iter().zip(rb).filter(|(x, y)| x != y).count() == 1 {
                    ensure!(ks[a].iter().zip(&ks[b]).filter(|(x, y)| x != y).count() == 1, "cell {} has its vertices at the grid points {:?}, which is twisted", i, ks);
                }
            }
        }
        ensure!(seen.insert(corner.clone()), "two cells at the grid point {:?}", corner);
    }
    ensure!(g.cells.is_empty() || min_det(g.kind, &g.verts, &g.cells) > 0.0, "a cell is inverted");
    Ok(())
}

/// Simplices of positive measure whose facets match, with those left over on the boundary of the box: a tiling
fn check_simplices(g: &GMesh, lo: &[f64], hi: &[f64]) -> Res {
    let d = lo.len();
    let size = diameter(&[lo.to_vec(), hi.to_vec()]);
    let scale = size + max_abs(&[lo.to_vec(), hi.to_vec()]);
    let volume: f64 = (0..d).map(|k| hi[k] - lo[k]).product();
    let mut total = 0.0;
    let mut facets: BTreeMap<Vec<usize>, Vec<bool>> = BTreeMap::new();
    for i in 0..g.cells.len() {
        let v = g.cell_measure(i);
        ensure!(v > 0.0, "cell {} ({:?}) has measure {}", i, g.cells[i], v);
        total += v;
        for s in 0..=d {
            let f: Vec<usize> = (0..=d).filter(|k| *k != s).map(|k| g.cells[i][k]).collect();
            let mut sorted = f.clone();
            sorted.sort();
            let mut odd = s % 2 == 1;
            for a in 0..d {
                for b in 0..a {
                    odd ^= f[b] > f[a];
                }
            }
            facets.entry(sorted).or_default().push(odd);
        }
    }
    ensure!((total - volume).abs() <= 1e-11 * scale.powi(d as i32), "the cells have measure {}, the box has {}", total, volume);
    for (f, o) in &facets {
        match o.len() {
            1 => {
                let inside = (0..d).any(|k| [lo[k], hi[k]].iter().any(|x| f.iter().all(|v| (g.verts[*v][k] - x).abs() <= 1e-12 * scale)));
                ensure!(inside, "the facet {:?} belongs to one cell, but is not on the boundary of the box", f);
            }
            2 => ensure!(o[0] != o[1], "the two cells at the facet {:?} are on the same side", f),
            n => fail!("the facet {:?} belongs to {} cells", f, n),
        }
    }
    ensure!(g.used().iter().all(|u| *u), "a vertex is not used");
    for (i, a) in g.verts.iter().enumerate() {
        ensure!((0..d).all(|k| a[k] >= lo[k] - 1e-12 * scale && a[k] <= hi[k] + 1e-12 * scale), "vertex {} at {:?} is not in the box", i, a);
    }
    let mut order: Vec<usize> = (0..g.verts.len()).collect();
    order.sort_by(|a, b| g.verts[*a].partial_cmp(&g.verts[*b]).unwrap());
    ensure!(order.windows(2).all(|w| g.verts[w[0]] != g.verts[w[1]]), "two vertices in the same place");
    Ok(())
}

fn units(c: &mut Case, d: usize, mut max: usize) -> (Vec<usize>, usize) {
    if c.boost > 0 {
        // long in one direction, or many cells per unit
        let long = c.int(0, d - 1);
        let mut u = c.vec(d, |c| c.int(1, 5));
        let mut per = c.int(1, 3);
        if c.bool() {
            u[long] = c.size(2000).max(1);
        } else {
            per = c.size(120).max(1);
        }
        while u.iter().map(|u| u * per + 1).product::<usize>() > c.boost {
            u[long] = (u[long] * 3 / 4).max(1);
            per = (per * 3 / 4).max(1);
            u.iter_mut().for_each(|u| *u = (*u - 1).max(1));
        }
        return (u, per);
    }
    loop {
        let u = c.vec(d, |c| if c.chance(1, 12) { 0 } else { c.int(1, 5) });
        let per = if c.chance(1, 12) { 0 } else { c.int(1, 4) };
        if u.iter().map(|u| u * per + 1).product::<usize>() <= max {
            return (u, per);
        }
        max += max / 8;
    }
}

fn quads(c: &mut Case) -> Res {
    let len = if c.bool() { c.magnitude(-6.0, 6.0) } else { c.int(1, 4) as f64 };
    let tl = vec![c.coord(10.0) * len, c.coord(10.0) * len];
    let (u, per) = units(c, 2, if c.thorough { 400 } else { 150 });
    c.note(|| format!("unit length {}, units {:?}, {} cells per unit, top left {:?}", len, u, per, tl));
    let n = [u[0] * per, u[1] * per];
    c.nontrivial_if(n[0] != n[1] && n[0] * n[1] > 0);
    c.class_if(n.contains(&0), "empty");
    let m = create_rectangular_uniform_quad_mesh_2d(len, u[0], u[1], per, &Vector2::new(tl[0], tl[1]));
    let lo = [tl[0], tl[1] - len * u[1] as f64];
    check_grid(&from_mesh(Kind::Quad4, &m), &lo, len / per.max(1) as f64, &n)?;
    // unit squares
    let k = if c.boost > 0 { c.size(120) } else { c.int(0, 6) };
    c.note_debug("cells per dimension of the unit square", &k);
    check_grid(&from_mesh(Kind::Quad4, &create_unit_square_uniform_quad_mesh_2d::<f64>(k)), &[0.0, 0.0], 1.0 / k.max(1) as f64, &[k, k])?;
    let t = from_mesh(Kind::Tri3, &create_unit_square_uniform_tri_mesh_2d::<f64>(k));
    ensure_eq!(t.cells.len(), 2 * k * k, "number of triangles of the unit square");
    if k > 0 {
        ensure_eq!(t.verts.len(), (k + 1) * (k + 1), "number of vertices of the triangulated unit square");
        check_simplices(&t, &[0.0, 0.0], &[1.0, 1.0])?;
    }
    Ok(())
}

fn hexes(c: &mut Case) -> Res {
    let len = if c.bool() { c.magnitude(-6.0, 6.0) } else { c.int(1, 4) as f64 };
    let (u, per) = units(c, 3, if c.thorough { 700 } else { 250 });
    c.note(|| format!("unit length {}, units {:?}, {} cells per unit", len, u, per));
    let n: Vec<usize> = u.iter().map(|u| u * per).collect();
    c.nontrivial_if(n[0] != n[1] && n[1] != n[2] && !n.contains(&0));
    c.class_if(n.contains(&0), "empty");
    let m = create_rectangular_uniform_hex_mesh(len, u[0], u[1], u[2], per);
    check_grid(&from_mesh(Kind::Hex8, &m), &[0.0; 3], len / per.max(1) as f64, &n)?;
    if c.chance(1, 4) {
        let k = if c.boost > 0 { c.size(20) } else { c.int(0, 4) };
        c.note_debug("cells per dimension of the unit box", &k);
        check_grid(&from_mesh(Kind::Hex8, &create_unit_box_uniform_hex_mesh_3d::<f64>(k)), &[0.0; 3], 1.0 / k.max(1) as f64, &[k, k, k])?;
    }
    Ok(())
}

fn tets(c: &mut Case) -> Res {
    let len = if c.bool() { c.magnitude(-6.0, 6.0) } else { c.int(1, 4) as f64 };
    let (u, per) = units(c, 3, if c.thorough { 400 } else { 120 });
    let unit = c.chance(1, 5) && per.pow(3) <= c.boost.max(64);
    c.note(|| format!("unit length {}, units {:?}, {} cells per unit, unit box: {}", len, u, per, unit));
    let (m, len, u) = if unit { (create_unit_box_uniform_tet_mesh_3d(per), 1.0, vec![1; 3]) } else { (create_rectangular_uniform_tet_mesh(len, u[0], u[1], u[2], per), len, u) };
    let n: Vec<usize> = u.iter().map(|u| u * per).collect();
    c.nontrivial_if(n.iter().all(|n| *n > 0) && n.iter().any(|n| *n > 1));
    let g = from_mesh(Kind::Tet4, &m);
    if n.contains(&0) {
        ensure!(g.verts.is_empty() && g.cells.is_empty(), "a mesh without cells has {} vertices and {} cells", g.verts.len(), g.cells.len());
        return Ok(());
    }
    // vertices: corners and centres of the grid cells
    let h = len / per as f64;
    let hi: Vec<f64> = u.iter().map(|u| *u as f64 * len).collect();
    let scale = hi.iter().cloned().fold(0.0, f64::max);
    for (i, v) in g.verts.iter().enumerate() {
        let k = lattice(v, &[0.0; 3], h / 2.0, scale);
        ensure!(k.as_ref().map_or(false, |k| k.iter().all(|k| k % 2 == 0) || k.iter().all(|k| k % 2 != 0)), "vertex {} at {:?} is neither corner nor centre of a grid cell with spacing {}", i, v, h);
    }
    ensure_eq!(g.verts.len(), n.iter().map(|n| n + 1).product::<usize>() + n.iter().product::<usize>(), "number of vertices");
    // four tetrahedra around each interior face and two at each face of the boundary
    let mut expected = 0;
    for k in 0..3 {
        let side = n[(k + 1) % 3] * n[(k + 2) % 3];
        expected += 4 * (n[k] - 1) * side + 2 * 2 * side;
    }
    ensure_eq!(g.cells.len(), expected, "number of tetrahedra");
    check_simplices(&g, &[0.0; 3], &hi)
}

/// A user's signed distance function
#[derive(Clone, Debug)]
enum Shape {
    Disk([f64; 2], f64),
    Rect([f64; 2], [f64; 2]),
    Ring([f64; 2], f64, f64),
}

impl BoundedGeometry<f64> for Shape {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        let b = |c: &[f64; 2], r: f64| AxisAlignedBoundingBox2d::new(Point2::new(c[0] - r, c[1] - r), Point2::new(c[0] + r, c[1] + r));
        match self {
            Shape::Disk(c, r) => b(c, *r),
            Shape::Ring(c, r, w) => b(c, r + w),
            Shape::Rect(lo, hi) => AxisAlignedBoundingBox2d::new(Point2::new(lo[0], lo[1]), Point2::new(hi[0], hi[1])),
        }
    }
}

impl Shape {
    fn value(&self, p: &[f64]) -> f64 {
        match self {
            Shape::Disk(c, r) => dist(c, p) - r,
            Shape::Ring(c, r, w) => (dist(c, p) - r).abs() - w,
            Shape::Rect(lo, hi) => {
                let d: Vec<f64> = (0..2).map(|k| (lo[k] - p[k]).max(p[k] - hi[k])).collect();
                let o: f64 = d.iter().map(|x| x.max(0.0).powi(2)).sum::<f64>().sqrt();
                o + d[0].max(d[1]).min(0.0)
            }
        }
    }
    /// Where the gradient is unique
    fn grad(&self, p: &[f64]) -> [f64; 2] {
        let dir = |c: &[f64; 2]| {
            let d = dist(c, p).max(1e-300);
            [(p[0] - c[0]) / d, (p[1] - c[1]) / d]
        };
        match self {
            Shape::Disk(c, _) => dir(c),
            Shape::Ring(c, r, _) => {
                let g = dir(c);
                if dist(c, p) >= *r {
                    g
                } else {
                    [-g[0], -g[1]]
                }
            }
            Shape::Rect(lo, hi) => {
                let v: Vec<f64> = (0..2).map(|k| p[k] - p[k].max(lo[k]).min(hi[k])).collect();
                let n = (v[0] * v[0] + v[1] * v[1]).sqrt().max(1e-300);
                [v[0] / n, v[1] / n]
            }
        }
    }
}

/// A shape whose boundary is moved to a level set, with a given box
#[derive(Debug)]
struct Level {
    shape: Shape,
    level: f64,
    bounds: AxisAlignedBoundingBox2d<f64>,
}

impl Level {
    fn value(&self, p: &[f64]) -> f64 {
        self.shape.value(p) - self.level
    }
    fn grad(&self, p: &[f64]) -> [f64; 2] {
        self.shape.grad(p)
    }
}

impl BoundedGeometry<f64> for Level {
    type Dimension = U2;
    fn bounding_box(&self) -> AxisAlignedBoundingBox2d<f64> {
        self.bounds.clone()
    }
}

impl SignedDistanceFunction2d<f64> for Level {
    fn eval(&self, x: &Point2<f64>) -> f64 {
        self.value(x.coords.as_slice())
    }
    fn gradient(&self, x: &Point2<f64>) -> Option<Vector2<f64>> {
        let g = self.grad(x.coords.as_slice());
        Some(Vector2::new(g[0], g[1]))
    }
}

fn gen_shape(c: &mut Case) -> Shape {
    let s = c.magnitude(-2.0, 2.0);
    let m = [c.coord(4.0) * s, c.coord(4.0) * s];
    match c.int(0, 4) {
        0 | 3 => Shape::Disk(m, s * c.f64(0.2, 3.0)),
        1 => Shape::Rect(m, [m[0] + s * c.f64(0.2, 4.0), m[1] + s * c.f64(0.2, 4.0)]),
        _ => {
            let r = s * c.f64(0.5, 3.0);
            Shape::Ring(m, r, r * c.f64(0.1, 0.9))
        }
    }
}

/// Square cells that cover the box; returns the grid (lower corner, spacing, numbers)
fn check_cover(g: &GMesh, lo: &[f64; 2], hi: &[f64; 2], max_cell: f64) -> Result<(), Stop> {
    let scale = diameter(&[lo.to_vec(), hi.to_vec()]) + max_abs(&[lo.to_vec(), hi.to_vec()]);
    ensure!(!g.cells.is_empty(), "no cells");
    let min: Vec<f64> = (0..2).map(|k| g.verts.iter().map(|v| v[k]).fold(f64::INFINITY, f64::min)).collect();
    let max: Vec<f64> = (0..2).map(|k| g.verts.iter().map(|v| v[k]).fold(f64::NEG_INFINITY, f64::max)).collect();
    let q = g.corners(0);
    let h = (0..2).map(|k| q.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max) - q.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min)).fold(0.0, f64::max);
    ensure!(h <= max_cell + 1e-12 * scale, "cells have size {}, larger than {}", h, max_cell);
    let n: Vec<usize> = (0..2).map(|k| ((max[k] - min[k]) / h).round() as usize).collect();
    for k in 0..2 {
        ensure!(min[k] <= lo[k] && hi[k] <= max[k], "the mesh covers {:?} to {:?} only, the box is {:?} to {:?}", min, max, lo, hi);
        // one percent on each side and less than one cell on each side, with room for rounding up
        let e = hi[k] - lo[k];
        ensure!(max[k] - min[k] <= 1.02 * e + 1.01 * h, "the mesh has extent {} in direction {}, the box has {} and the cells {}", max[k] - min[k], k, e, h);
        ensure!(((min[k] + max[k]) - (lo[k] + hi[k])).abs() <= 1e-11 * scale, "the mesh is not centred at the box");
    }
    // exact spacing, not that of one cell
    let h = (max[0] - min[0]) / n[0] as f64;
    check_grid(g, &min, h, &n)
}

fn voxels(c: &mut Case) -> Res {
    let shape = gen_shape(c);
    let b = shape.bounding_box();
    let (lo, hi) = ([b.min()[0], b.min()[1]], [b.max()[0], b.max()[1]]);
    let e = (hi[0] - lo[0]).max(hi[1] - lo[1]);
    let small = (hi[0] - lo[0]).min(hi[1] - lo[1]);
    let h = e * if c.boost > 0 { c.f64(0.008, 0.03) } else if c.chance(1, 4) { c.f64(0.3, 1.3) } else { c.f64(0.05, 0.3) };
    // an extent that is almost, but not exactly, a multiple of the cell size
    let h = if c.chance(1, 4) {
        let side = 1.02 * if c.bool() { hi[0] - lo[0] } else { hi[1] - lo[1] };
        let k = (side / h).round().max(1.0);
        side / k * (1.0 + c.tiny())
    } else {
        h
    };
    if small < 0.03 * e {
        discard!("thin box");
    }
    c.note(|| format!("shape {:?}, cell size {}", shape, h));
    let grid = from_mesh(Kind::Quad4, &voxelize_bounding_box_2d(&b, h));
    check_cover(&grid, &lo, &hi, h)?;
    // a boundary that passes exactly through vertices of the grid
    let level = if c.chance(1, 4) { shape.value(c.pick(&grid.verts)) } else { 0.0 };
    c.note(|| format!("boundary at level {}", level));
    let shape = Level { shape, level, bounds: b };
    // cells of the voxelization: those with a corner inside, in any order
    let corners = |g: &GMesh| -> Vec<Vec<Vec<f64>>> {
        let mut v: Vec<Vec<Vec<f64>>> = (0..g.cells.len())
            .map(|i| {
                let q = g.corners(i);
                let s = (0..q.len()).min_by(|a, b| q[*a].partial_cmp(&q[*b]).unwrap()).unwrap();
                (0..q.len()).map(|k| q[(k + s) % q.len()].clone()).collect()
            })
            .collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    let inside = |p: &Vec<f64>| shape.value(p) <= 0.0;
    let vox = from_mesh(Kind::Quad4, &voxelize_sdf_2d(&shape, h));
    let expected: Vec<_> = corners(&grid).into_iter().filter(|q| q.iter().any(inside)).collect();
    c.nontrivial_if(expected.len() > 1 && expected.len() < grid.cells.len());
    ensure!(corners(&vox) == expected, "the voxelization has the cells {:?}, expected {:?}", corners(&vox), expected);
    ensure!(vox.used().iter().all(|u| *u), "the voxelization has unused vertices");
    // approximation: the same with vertices outside moved to the surface
    let moved = |p: &Vec<f64>| -> Vec<f64> {
        let phi = shape.value(p);
        let g = shape.grad(p);
        if phi > 0.0 {
            vec![p[0] - phi * g[0], p[1] - phi * g[1]]
        } else {
            p.clone()
        }
    };
    let scale = e + max_abs(&[lo.to_vec(), hi.to_vec()]);
    let near = |label: &str, got: Vec<Vec<f64>>, want: Vec<Vec<f64>>| -> Res {
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| dist(a, b) <= 1e-12 * scale), "{}: cells {:?}, expected {:?}", label, got, want);
        Ok(())
    };
    // moving vertices may make them coincide; compare cell by cell in the order of the voxelization
    let quad = from_mesh(Kind::Quad4, &approximate_quad_mesh_for_sdf_2d(&shape, h));
    ensure!(quad.cells == vox.cells, "the approximation by quadrilaterals has other cells than the voxelization");
    near("approximation by quadrilaterals", quad.verts.clone(), vox.verts.iter().map(moved).collect())?;
    let split = from_mesh(Kind::Tri3, &voxelize_sdf_2d(&shape, h).split_into_triangles());
    let kept: Vec<usize> = (0..split.cells.len()).filter(|i| split.corners(*i).iter().any(inside)).collect();
    let tri = from_mesh(Kind::Tri3, &approximate_triangle_mesh_for_sdf_2d(&shape, h));
    ensure!(tri.cells.len() == kept.len(), "the approximation by triangles has {} cells, expected {}", tri.cells.len(), kept.len());
    ensure!(tri.used().iter().all(|u| *u), "the approximation by triangles has unused vertices");
    let flat = |g: &GMesh, cells: &mut dyn Iterator<Item = usize>| -> Vec<Vec<f64>> { cells.flat_map(|i| g.corners(i)).collect() };
    near("approximation by triangles", flat(&tri, &mut (0..kept.len())), flat(&split, &mut kept.iter().copied()).iter().map(moved).collect())?;
    // sharing of vertices is kept
    let key = |g: &GMesh, cells: Vec<usize>| {
        let mut names = BTreeMap::new();
        cells.iter().flat_map(|i| g.cells[*i].clone()).map(|v| { let n = names.len(); *names.entry(v).or_insert(n) }).collect::<Vec<usize>>()
    };
    ensure!(key(&tri, (0..kept.len()).collect()) == key(&split, kept), "vertices are not shared as before");
    Ok(())
}

fn sphere(c: &mut Case) -> Res {
    let r = c.magnitude(-2.0, 2.0);
    let m: Vec<f64> = c.vec(3, |c| c.coord(4.0) * r);
    let n = c.int(1, if c.thorough { 9 } else { 6 });
    c.note(|| format!("centre {:?}, radius {}, {} sweeps", m, r, n));
    c.nontrivial_if(n > 1);
    let mesh = create_simple_stupid_sphere(&Point3::new(m[0], m[1], m[2]), r, n);
    let rel: Vec<V3> = mesh.vertices().iter().map(|v| mul(sub([v.x, v.y, v.z], v3(&m)), 1.0 / r)).collect();
    let scale = 1.0 + norm(v3(&m)) / r;
    let tol = 1e-9 * scale;
    ensure_eq!(mesh.num_cells(), 1, "number of cells");
    let mut solid = Solid::cuboid([-1.0; 3], [1.0; 3]);
    for i in 0..n {
        for j in 0..n {
            let (t, p) = (std::f64::consts::PI * i as f64 / n as f64, 2.0 * std::f64::consts::PI * j as f64 / n as f64);
            let d = [t.sin() * p.cos(), t.sin() * p.sin(), t.cos()];
            solid = solid.clip(d, d);
            ensure!(rel.iter().all(|x| dot(*x, d) <= 1.0 + tol), "a vertex is beyond the tangent plane in direction {:?}", d);
        }
    }
    for x in &rel {
        ensure!(norm(*x) >= 1.0 - tol, "a vertex is inside of the sphere");
        ensure!(x.iter().all(|t| t.abs() <= 1.0 + tol), "a vertex is outside of the cube around the sphere");
    }
    let v = mesh.translated(&fenris::nalgebra::Vector3::new(-m[0], -m[1], -m[2])).compute_volume() / r.powi(3);
    ensure!((v - solid.volume()).abs() <= 1e-8 * scale, "volume {} (radius 1), expected {}", v, solid.volume());
    Ok(())
}

/// Grids with thousands of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 12_000;
    match c.int(0, 3) {
        0 => quads(c),
        1 => hexes(c),
        2 => tets(c),
        _ => voxels(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C20",
        rule: "non-empty mesh with different numbers of cells per direction (quads, hexes), more than one cell (tets), some but not all cells kept (voxels), more than one sweep (sphere); huge: grids with up to 12000 vertices",
        assumptions: &["simplices of positive measure with matching facets, whose unmatched facets are on the boundary of a box and whose measures add up, tile the box"],
        clauses: vec![
            clause("quads", 170_000, 1_700_000, quads),
            clause("hexes", 80_000, 800_000, hexes),
            clause("tets", 120_000, 1_200_000, tets),
            clause("voxels", 47_000, 470_000, voxels),
            clause("sphere", 45_000, 450_000, sphere),
            clause("huge", 1500, 15000, huge),
        ],
    })
}
