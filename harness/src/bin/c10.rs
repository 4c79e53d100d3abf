//! C10: closest points and point location.
use fenris::connectivity::*;
use fenris::element::*;
use fenris::space::{FindClosestElement, SpatiallyIndexed};
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;

const KINDS: [Kind; 3] = [Kind::Tri3, Kind::Tri3d3, Kind::Tet4];

/// A query point near a simplex: (point, what)
fn query(c: &mut Case, kind: Kind, corners: &[Vec<f64>]) -> Vec<f64> {
    let d = kind.gdim();
    let diam = diameter(corners);
    let style = c.int(0, 5);
    let xi = if style == 5 { kind.any_point(c, 3.0) } else { kind.ref_point(c) };
    let mut x = kind.map(corners, &xi);
    match style {
        0 => {
            // exactly a vertex
            let i = c.int(0, corners.len() - 1);
            x = corners[i].clone();
            c.class("vertex");
        }
        1 => c.class("in the element"),
        2 | 3 => {
            // an offset of any size
            let r = diam * c.magnitude(-12.0, 2.0);
            let dir: Vec<f64> = (0..d).map(|_| c.coord(1.0)).collect();
            for k in 0..d {
                x[k] += r * dir[k];
            }
            c.class("offset");
        }
        4 => {
            // along an edge, beyond the end points or between them
            let i = c.int(0, corners.len() - 1);
            let j = (i + c.int(1, corners.len() - 1)) % corners.len();
            let t = c.grid(3, 4);
            for k in 0..d {
                x[k] = corners[i][k] + t * (corners[j][k] - corners[i][k]);
            }
            c.class("on the line of an edge");
        }
        _ => c.class("in the plane or space around"),
    }
    x
}

fn element(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let corners = if c.chance(1, 4) {
        // small integer coordinates: exact ties
        let v: Vec<Vec<f64>> = (0..kind.num_corners()).map(|_| (0..kind.gdim()).map(|_| c.sint(-3, 3) as f64).collect()).collect();
        let j = kind.jacobian(&v, &vec![0.0; kind.rdim()]);
        if (j.transpose() * &j).determinant().abs() < 1e-9 {
            discard!("degenerate");
        }
        v
    } else {
        gen_corners(c, kind, 30.0, 0.0, false)
    };
    let x = query(c, kind, &corners);
    c.note(|| format!("{:?} {:?}, query {:?}", kind, corners, x));
    let diam = diameter(&corners);
    let size = max_abs(&corners).max(diam).max(x.iter().fold(0.0, |a, v| a.max(v.abs())));
    let tol = 1e-9 * diam + 1e-12 * size;
    let exact = dist_to_simplex(&x, &corners);
    c.nontrivial_if(exact > tol);
    let (inside, xi): (bool, Vec<f64>) = {
        macro_rules! go {
            ($C:ty) => {{
                let verts: Vec<_> = corners.iter().map(|v| opoint(v)).collect();
                let e = <$C as ElementConnectivity<f64>>::element(&<$C>::from_indices(&(0..corners.len()).collect::<Vec<_>>()), &verts).unwrap();
                let r = e.closest_point(&opoint(&x));
                (matches!(r, ClosestPoint::InElement(_)), r.point().iter().copied().collect())
            }};
        }
        match kind {
            Kind::Tri3 => go!(Tri3d2Connectivity),
            Kind::Tri3d3 => go!(Tri3d3Connectivity),
            _ => go!(Tet4Connectivity),
        }
    };
    ensure!(kind.in_ref(&xi, 1e-12), "{:?}: reference coordinates {:?} are outside of the reference element", kind, xi);
    let y = kind.map(&corners, &xi);
    let found = dist(&x, &y);
    ensure!(found <= exact + tol, "{:?}: closest point {:?} is at distance {}, but the distance is {}", kind, y, found, exact);
    ensure!(!inside || exact <= tol, "{:?}: reported as inside at distance {}", kind, exact);
    if kind != Kind::Tri3d3 && exact == 0.0 || exact < tol {
        // inside with a margin: must be reported as inside
        let j = kind.jacobian(&corners, &xi);
        if j.is_square() {
            let b = fenris::nalgebra::DVector::from_fn(x.len(), |i, _| x[i] - kind.map(&corners, &vec![0.0; x.len()])[i]);
            if let Some(t) = j.lu().solve(&b) {
                let t: Vec<f64> = t.iter().copied().collect();
                if kind.in_ref(&t, -1e-7 * (1.0 + size / diam)) {
                    c.class("inside with margin");
                    c.nontrivial();
                    ensure!(inside, "{:?}: not reported as inside, reference coordinates {:?}", kind, t);
                    ensure!(dist(&t, &xi) <= 1e-8 * (1.0 + size / diam), "{:?}: reference coordinates {:?}, expected {:?}", kind, xi, t);
                }
            }
        }
    }
    Ok(())
}

fn lookup(c: &mut Case) -> Res {
    lookup_in(c, false)
}

/// Meshes with hundreds of elements
fn huge(c: &mut Case) -> Res {
    lookup_in(c, true)
}

fn lookup_in(c: &mut Case, huge: bool) -> Res {
    let kind = *c.pick(&KINDS);
    let o = MeshOpts { max_cells: if huge { 1001 + c.size(3000) } else if c.chance(1, 4) { 200 } else { 24 }, empty: true, affine: if c.bool() { Some(10.0) } else { None }, ..Default::default() };
    let mut m = gen_mesh(c, kind, &o);
    if c.chance(1, 5) && !m.cells.is_empty() {
        // overlapping or separate copies of the mesh, with elements of very different sizes
        let other = m.clone();
        let f = c.magnitude(-2.0, 1.0);
        let shift: Vec<f64> = (0..m.dim()).map(|_| c.f64(-5.0, 5.0)).collect();
        let n = m.verts.len();
        m.verts.extend(other.verts.iter().map(|v| v.iter().zip(&shift).map(|(x, s)| x * f + s).collect::<Vec<_>>()));
        m.cells.extend(other.cells.iter().map(|cell| cell.iter().map(|i| i + n).collect::<Vec<_>>()));
        c.class("several parts");
    }
    c.note(|| if huge { format!("{:?} mesh with {} vertices and {} cells", kind, m.verts.len(), m.cells.len()) } else { format!("{:?} vertices {:?} cells {:?}", kind, m.verts, m.cells) });
    let queries: Vec<Vec<f64>> = (0..if huge { 20 } else { 4 })
        .map(|_| {
            if m.cells.is_empty() {
                (0..m.dim()).map(|_| c.coord(2.0)).collect()
            } else {
                let i = c.int(0, m.cells.len() - 1);
                let corners = m.corners(i);
                query(c, kind, &corners)
            }
        })
        .collect();
    c.note_debug("queries", &queries);
    c.nontrivial_if(m.cells.len() > 1);
    c.class_if(m.cells.is_empty(), "no elements");
    macro_rules! go {
        ($C:ty) => {{
            let space = SpatiallyIndexed::from_space(m.to_mesh::<$C>());
            queries.iter().map(|q| space.find_closest_element_and_reference_coords(&opoint(q)).map(|(i, xi)| (i, xi.iter().copied().collect()))).collect()
        }};
    }
    let results: Vec<Option<(usize, Vec<f64>)>> = match kind {
        Kind::Tri3 => go!(Tri3d2Connectivity),
        Kind::Tri3d3 => go!(Tri3d3Connectivity),
        _ => go!(Tet4Connectivity),
    };
    let diam = diameter(&m.cells.iter().flatten().map(|i| m.verts[*i].clone()).collect::<Vec<_>>());
    let simplices: Vec<_> = (0..m.cells.len())
        .map(|j| {
            let v = m.corners(j);
            let bound = |f: fn(f64, f64) -> f64| (0..m.dim()).map(|k| v.iter().map(|x| x[k]).reduce(f).unwrap()).collect::<Vec<f64>>();
            let (lo, hi) = (bound(f64::min), bound(f64::max));
            (v, lo, hi)
        })
        .collect();
    for (q, r) in queries.iter().zip(results) {
        let Some((i, xi)) = r else {
            ensure!(m.cells.is_empty(), "no closest element for {:?}", q);
            continue;
        };
        ensure!(i < m.cells.len(), "element index {} of {} elements", i, m.cells.len());
        ensure!(kind.in_ref(&xi, 1e-12), "reference coordinates {:?} are outside of the reference element", xi);
        let size = max_abs(&m.verts).max(diam).max(q.iter().fold(0.0, |a, v| a.max(v.abs())));
        let tol = 1e-9 * diam + 1e-12 * size;
        let mut exact = f64::INFINITY;
        for (corners, lo, hi) in &simplices {
            let box_dist = (0..q.len()).map(|k| (lo[k] - q[k]).max(q[k] - hi[k]).max(0.0).powi(2)).sum::<f64>().sqrt();
            if box_dist * (1.0 - 1e-9) <= exact {
                exact = exact.min(dist_to_simplex(q, corners));
            }
        }
        let found = dist(q, &kind.map(&m.corners(i), &xi));
        ensure!(found <= exact + tol, "{:?}: found element {} at distance {}, the closest is at distance {}", q, i, found, exact);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C10",
        rule: "triangles in the plane and in space and tetrahedra (condition up to 30, integer coordinates in a quarter of the cases), meshes of them with holes, random numbering, unused vertices, overlapping parts of very different sizes; query points at vertices, on edges and their lines, inside, and at offsets of 1e-12 to 100 diameters. Non-trivial: the point has a positive distance or lies inside with a margin; meshes: at least two elements. huge: meshes with up to 4000 cells.",
        assumptions: &["points closer to the boundary than 1e-9 diameters may be reported either way", "distances are compared up to 1e-9 diameters"],
        clauses: vec![clause("element", 4_000_000, 40_000_000, element), clause("lookup", 67_000, 670_000, lookup), clause("huge", 400, 4_000, huge)],
    })
}
