//! C22: axis-aligned bounding boxes.
use fenris::connectivity::*;
use fenris::geometry::*;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, U1, U2, U3};
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-13 * scale
}

fn same(label: &str, got: &[f64], want: &[f64], scale: f64) -> Res {
    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| close(*a, *b, scale)), "{}: got {:?}, expected {:?}", label, got, want);
    Ok(())
}

fn sl<D: DimName>(p: &OPoint<f64, D>) -> Vec<f64>
where
    DefaultAllocator: Allocator<f64, D>,
{
    p.iter().copied().collect()
}

type B = (Vec<f64>, Vec<f64>);

fn coords(c: &mut Case, d: usize, fine: bool) -> Vec<f64> {
    c.vec(d, |c| if fine { c.f64(-4.0, 4.0) } else { c.grid(8, 2) })
}

fn gen_box(c: &mut Case, d: usize, fine: bool) -> B {
    let (p, q) = (coords(c, d, fine), coords(c, d, fine));
    let flat = c.chance(1, 4);
    let lo: Vec<f64> = p.iter().zip(&q).map(|(a, b)| a.min(*b)).collect();
    let mut hi: Vec<f64> = p.iter().zip(&q).map(|(a, b)| a.max(*b)).collect();
    if flat {
        let k = c.int(0, d - 1);
        hi[k] = lo[k];
    }
    (lo, hi)
}

fn boxes_in<D: DimName>(c: &mut Case) -> Res
where
    DefaultAllocator: Allocator<f64, D> + Allocator<usize, D>,
{
    let d = D::dim();
    let fine = c.chance(1, 3);
    let a = gen_box(c, d, fine);
    let mut b = if c.chance(1, 4) {
        // a box next to the other one, or in it
        let mut b = a.clone();
        for k in 0..d {
            let (l, h) = (a.0[k], a.1[k]);
            let (x, y) = match c.int(0, 4) {
                0 => (l, h),
                1 => (h, h + 1.0),
                2 => (l - 1.0, l),
                3 => (h + 0.5, h + 1.0),
                _ => ((l + h) / 2.0, h),
            };
            b.0[k] = x;
            b.1[k] = y;
        }
        b
    } else {
        gen_box(c, d, fine)
    };
    let mut p = coords(c, d, fine);
    if c.chance(1, 3) {
        // a point on the boundary of the box, its corner or its centre
        for k in 0..d {
            p[k] = match c.int(0, 3) {
                0 => a.0[k],
                1 => a.1[k],
                2 => (a.0[k] + a.1[k]) / 2.0,
                _ => p[k],
            };
        }
    }
    // almost on the boundary, but not quite
    if c.chance(1, 6) {
        for k in 0..d {
            p[k] += if c.bool() { c.tiny() } else { 0.0 };
            let t = if c.bool() { c.tiny() } else { 0.0 };
            b.0[k] += t;
            b.1[k] += t;
        }
    }
    // other units of length, far away from the origin
    let unit = if c.chance(1, 4) { 2f64.powi(c.sint(-100, 100) as i32) } else { 1.0 };
    let far = if c.chance(1, 6) { c.sint(-1000, 1000) as f64 * 1024.0 } else { 0.0 };
    let mut a = a;
    for v in [&mut a.0, &mut a.1, &mut b.0, &mut b.1, &mut p] {
        v.iter_mut().for_each(|x| *x = (*x + far) * unit);
    }
    c.class_if(unit != 1.0, "other unit of length");
    c.class_if(far != 0.0, "far from the origin");
    c.note(|| format!("boxes {:?} and {:?}, point {:?}", a, b, p));
    let mk = |b: &B| AxisAlignedBoundingBox::<f64, D>::new(opoint(&b.0), opoint(&b.1));
    let (x, y, q) = (mk(&a), mk(&b), opoint::<D>(&p));
    let scale = (16.0 + far.abs()) * unit;
    ensure!(sl(x.min()) == a.0 && sl(x.max()) == a.1, "minimum and maximum are not what the box was made from");
    // intersection and containment
    let hit = (0..d).all(|k| a.0[k].max(b.0[k]) <= a.1[k].min(b.1[k]));
    let touch = hit && (0..d).any(|k| a.0[k].max(b.0[k]) == a.1[k].min(b.1[k]));
    c.class(if !hit { "disjoint" } else if touch { "touching" } else { "overlapping" });
    c.nontrivial_if(touch || (0..d).any(|k| p[k] == a.0[k] || p[k] == a.1[k]) || fine);
    ensure!(x.intersects(&y) == hit && y.intersects(&x) == hit, "intersects: {} and {}, expected {}", x.intersects(&y), y.intersects(&x), hit);
    let inside = (0..d).all(|k| a.0[k] <= p[k] && p[k] <= a.1[k]);
    ensure_eq!(x.contains_point(&q), inside, "contains_point");
    // enclosing boxes
    let e = x.enclose(&y);
    let lo: Vec<f64> = (0..d).map(|k| a.0[k].min(b.0[k])).collect();
    let hi: Vec<f64> = (0..d).map(|k| a.1[k].max(b.1[k])).collect();
    ensure!(sl(e.min()) == lo && sl(e.max()) == hi, "enclose: {:?}", e);
    let from = AxisAlignedBoundingBox::from(q.clone());
    ensure!(sl(from.min()) == p && sl(from.max()) == p, "the box of one point is {:?}", from);
    ensure_eq!(x.bounding_box(), x, "bounding box of a box");
    // sizes
    let ext: Vec<f64> = (0..d).map(|k| a.1[k] - a.0[k]).collect();
    let mid: Vec<f64> = (0..d).map(|k| (a.1[k] + a.0[k]) / 2.0).collect();
    same("extents", x.extents().as_slice(), &ext, scale)?;
    same("maximal extent", &[x.max_extent()], &[ext.iter().cloned().fold(0.0, f64::max)], scale)?;
    same("centre", &sl(&x.center()), &mid, scale)?;
    let mut corners: Vec<Vec<f64>> = x.corners_iter().map(|p| sl(&p)).collect();
    let mut model: Vec<Vec<f64>> = (0..1usize << d).map(|m| (0..d).map(|k| if m >> k & 1 == 0 { a.0[k] } else { a.1[k] }).collect()).collect();
    corners.sort_by(|a, b| a.partial_cmp(b).unwrap());
    model.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(corners == model, "corners {:?}, expected {:?}", corners, model);
    let s = if c.bool() { c.int(0, 8) as f64 / 4.0 } else { c.f64(0.0, 5.0) };
    c.note_debug("scale", &s);
    let u = x.uniformly_scale(s);
    for k in 0..d {
        same("minimum of the scaled box", &[u.min()[k]], &[mid[k] - s * ext[k] / 2.0], scale * 5.0)?;
        same("maximum of the scaled box", &[u.max()[k]], &[mid[k] + s * ext[k] / 2.0], scale * 5.0)?;
    }
    let g = if c.bool() { unit * c.int(0, 8) as f64 / 4.0 } else { -ext.iter().cloned().fold(f64::INFINITY, f64::min) / 2.0 * c.int(0, 3) as f64 / 4.0 };
    c.note_debug("growth", &g);
    let u = x.grow_uniformly(g);
    for k in 0..d {
        same("minimum of the grown box", &[u.min()[k]], &[a.0[k] - g], scale)?;
        same("maximum of the grown box", &[u.max()[k]], &[a.1[k] + g], scale)?;
    }
    // closest and furthest points
    let near: Vec<f64> = (0..d).map(|k| p[k].max(a.0[k]).min(a.1[k])).collect();
    ensure!(sl(&x.closest_point_to(&q)) == near, "closest point {:?}, expected {:?}", x.closest_point_to(&q), near);
    let d2 = near.iter().zip(&p).map(|(a, b)| (a - b) * (a - b)).sum::<f64>();
    same("squared distance", &[x.dist2_to(&q)], &[d2], 100.0 * unit * unit)?;
    same("distance", &[x.dist_to(&q)], &[d2.sqrt()], 100.0 * unit)?;
    let f = sl(&x.furthest_point_to(&q));
    ensure!((0..d).all(|k| f[k] == a.0[k] || f[k] == a.1[k]), "the furthest point {:?} is not a corner", f);
    let far2 = (0..d).map(|k| (p[k] - a.0[k]).abs().max((p[k] - a.1[k]).abs()).powi(2)).sum::<f64>();
    same("squared distance to the furthest point", &[f.iter().zip(&p).map(|(a, b)| (a - b) * (a - b)).sum::<f64>()], &[far2], 300.0 * unit * unit)?;
    same("maximal squared distance", &[x.max_dist2_to(&q)], &[far2], 300.0 * unit * unit)?;
    same("maximal distance", &[x.max_dist_to(&q)], &[far2.sqrt()], 300.0 * unit)?;
    // box of points
    let n = c.int(0, 5);
    let pts: Vec<Vec<f64>> = c.vec(n, |c| coords(c, d, fine)).iter().map(|p| p.iter().map(|x| (x + far) * unit).collect()).collect();
    c.note_debug("points", &pts);
    let ps: Vec<OPoint<f64, D>> = pts.iter().map(|p| opoint(p)).collect();
    let got = AxisAlignedBoundingBox::from_points(&ps);
    check_points("box of points", got, &pts)
}

fn check_points<D: DimName>(label: &str, got: Option<AxisAlignedBoundingBox<f64, D>>, pts: &[Vec<f64>]) -> Res
where
    DefaultAllocator: Allocator<f64, D>,
{
    match got {
        None => ensure!(pts.is_empty(), "{}: none", label),
        Some(b) => {
            ensure!(!pts.is_empty(), "{}: {:?} without points", label, b);
            for k in 0..D::dim() {
                let lo = pts.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
                let hi = pts.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
                ensure!(b.min()[k] == lo && b.max()[k] == hi, "{}: {:?}, expected {} to {} in direction {}", label, b, lo, hi, k);
            }
        }
    }
    Ok(())
}

fn boxes(c: &mut Case) -> Res {
    match c.int(0, 2) {
        0 => boxes_in::<U2>(c),
        1 => boxes_in::<U3>(c),
        _ => boxes_in::<U1>(c),
    }
}

fn shapes(c: &mut Case) -> Res {
    c.nontrivial();
    let fine = c.bool();
    let mut pts = |c: &mut Case, n: usize, d: usize| {
        let v = c.vec(n, |c| coords(c, d, fine));
        c.note_debug("points", &v);
        v
    };
    match c.int(0, 6) {
        0 => {
            let v = pts(c, 3, 2);
            check_points("triangle", Some(Triangle([0, 1, 2].map(|i| opoint::<U2>(&v[i]))).bounding_box()), &v)
        }
        1 => {
            let v = pts(c, 3, 3);
            check_points("triangle in space", Some(Triangle([0, 1, 2].map(|i| opoint::<U3>(&v[i]))).bounding_box()), &v)
        }
        2 => {
            let v = pts(c, 4, 2);
            check_points("quadrilateral", Some(Quad2d([0, 1, 2, 3].map(|i| opoint::<U2>(&v[i]))).bounding_box()), &v)
        }
        3 => {
            let v = pts(c, 4, 3);
            check_points("tetrahedron", Some(Tetrahedron::from_vertices([0, 1, 2, 3].map(|i| opoint::<U3>(&v[i]))).bounding_box()), &v)
        }
        4 => {
            let v = pts(c, 8, 3);
            check_points("hexahedron", Some(Hexahedron::from_vertices([0, 1, 2, 3, 4, 5, 6, 7].map(|i| opoint::<U3>(&v[i]))).bounding_box()), &v)
        }
        5 => {
            let n = c.int(1, 7);
            let v = pts(c, n, 2);
            check_points("polygon", Some(SimplePolygon2d::from_vertices(v.iter().map(|p| opoint(p)).collect()).bounding_box()), &v)
        }
        _ => {
            let n = c.int(1, 7);
            let v = pts(c, n, 3);
            check_points("polygon in space", Some(SimplePolygon3d::from_vertices(v.iter().map(|p| opoint(p)).collect()).bounding_box()), &v)
        }
    }
}

/// The box of a mesh is that of its cells
fn meshes(c: &mut Case) -> Res {
    use Kind::*;
    let kind = *c.pick(&[Tri3, Quad4, Tet4, Hex8]);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: 12, unused: true, holes: true, ..Default::default() });
    c.note(|| format!("{:?} mesh with vertices {:?} and cells {:?}", g.kind, g.verts, g.cells));
    let pts: Vec<Vec<f64>> = g.cells.iter().flatten().map(|i| g.verts[*i].clone()).collect();
    if pts.is_empty() {
        discard!("no cells");
    }
    c.nontrivial_if(g.cells.len() > 1);
    c.class_if(g.used().iter().any(|u| !u), "unused vertices");
    match kind {
        Tri3 => check_points("mesh", Some(g.to_mesh::<Tri3d2Connectivity>().bounding_box()), &pts),
        Quad4 => check_points("mesh", Some(g.to_mesh::<Quad4d2Connectivity>().bounding_box()), &pts),
        Tet4 => check_points("mesh", Some(g.to_mesh::<Tet4Connectivity>().bounding_box()), &pts),
        _ => check_points("mesh", Some(g.to_mesh::<Hex8Connectivity>().bounding_box()), &pts),
    }
}

/// Many points, polygons with many vertices, meshes with many cells
fn huge(c: &mut Case) -> Res {
    let n = c.size(5000).max(1);
    let mut d = c.dice();
    c.note(|| format!("{} points", n));
    c.nontrivial_if(n > 64);
    // an extreme point anywhere
    let at = d.int(0, n - 1);
    let pts = |d: &mut Dice, dim: usize| -> Vec<Vec<f64>> { (0..n).map(|i| (0..dim).map(|_| d.f64(-4.0, 4.0) * if i == at { 10.0 } else { 1.0 }).collect()).collect() };
    match c.int(0, 4) {
        0 => {
            let v = pts(&mut d, 2);
            let p: Vec<OPoint<f64, U2>> = v.iter().map(|p| opoint(p)).collect();
            check_points("points", AxisAlignedBoundingBox::from_points(&p), &v)
        }
        1 => {
            let v = pts(&mut d, 3);
            let p: Vec<OPoint<f64, U3>> = v.iter().map(|p| opoint(p)).collect();
            check_points("points", AxisAlignedBoundingBox::from_points(&p), &v)
        }
        2 => {
            let v = pts(&mut d, 2);
            check_points("polygon", Some(SimplePolygon2d::from_vertices(v.iter().map(|p| opoint(p)).collect()).bounding_box()), &v)
        }
        3 => {
            let v = pts(&mut d, 3);
            check_points("polygon in space", Some(SimplePolygon3d::from_vertices(v.iter().map(|p| opoint(p)).collect()).bounding_box()), &v)
        }
        _ => {
            let v = pts(&mut d, 3);
            let m = n / 4 * 4;
            if m == 0 {
                discard!("too few points");
            }
            let cells: Vec<Vec<usize>> = (0..m / 4).map(|i| (4 * i..4 * i + 4).collect()).collect();
            let g = GMesh { kind: Kind::Tet4, verts: v.clone(), cells };
            check_points("mesh", Some(g.to_mesh::<Tet4Connectivity>().bounding_box()), &v[..m])
        }
    }
}

fn main() {
    pbt::main(Property {
        id: "C22",
        rule: "touching boxes, a point on the boundary, or coordinates off the grid (boxes); every shape (shapes); more than one cell (meshes), more than 64 of up to 5000 points (huge)",
        assumptions: &["the box of a mesh is the box of its cells; vertices that no cell uses do not count"],
        clauses: vec![clause("boxes", 4_000_000, 40_000_000, boxes), clause("shapes", 1_500_000, 15_000_000, shapes), clause("meshes", 300_000, 3_000_000, meshes), clause("huge", 30_000, 300_000, huge)],
    })
}
