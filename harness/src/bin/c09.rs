//! C09: geometry maps of the elements.
use fenris::connectivity::*;
use fenris::element::*;
use fenris::nalgebra::{DMatrix, Point1, Point2, Point3};
use fenris_geometry::{LineSegment2d, Quad2d, Triangle, Triangle3d};
use pbt::elems::*;
use pbt::*;

fn gen(c: &mut Case, kinds: &[Kind], spread: f64, distort: f64) -> (Kind, Vec<Vec<f64>>, Vec<Vec<f64>>) {
    let kind = *c.pick(kinds);
    let corners = gen_corners(c, kind, spread, distort, false);
    let nodes = kind.all_nodes(&corners);
    c.note(|| format!("{:?} with corners {:?}", kind, corners));
    class(c, kind);
    (kind, corners, nodes)
}

fn class(c: &mut Case, kind: Kind) {
    c.class(match kind {
        Kind::Seg1 | Kind::Seg2 => "segments",
        Kind::Tri3d3 => "triangles in space",
        k if k.simplex() => "simplices",
        _ => "quadrilaterals and hexahedra",
    });
}

/// Map, Jacobian, vertices and diameter against an independent model
fn maps(c: &mut Case) -> Res {
    let (kind, corners, nodes) = gen(c, &ALL, 1e4, 0.6);
    let e = kind.element(&nodes);
    let size = max_abs(&corners).max(1e-300);
    let diam = diameter(&corners);
    let refs = kind.ref_nodes();
    for (i, r) in refs.iter().enumerate() {
        ensure!(dist(&e.map(r), &nodes[i]) <= 1e-14 * 30.0 * size, "{:?}: node {} maps to {:?}, vertex is {:?}", kind, i, e.map(r), nodes[i]);
    }
    ensure!((e.diameter() - diam).abs() <= 1e-13 * diam, "{:?}: diameter {} expected {}", kind, e.diameter(), diam);
    let inside = c.chance(2, 3);
    let xi = if inside { kind.ref_point(c) } else { kind.any_point(c, 3.0) };
    let amp = if inside { 1.0 } else { 64.0 };
    c.note(|| format!("at {:?}", xi));
    c.nontrivial();
    let x = e.map(&xi);
    let expect = kind.map(&corners, &xi);
    ensure!(dist(&x, &expect) <= 1e-13 * amp * size, "{:?}: {:?} maps to {:?}, expected {:?}", kind, xi, x, expect);
    let j = e.jacobian(&xi);
    let je = kind.jacobian(&corners, &xi);
    ensure!(j.shape() == je.shape(), "{:?}: shape of the Jacobian is {:?}", kind, j.shape());
    ensure!((&j - &je).norm() <= 1e-13 * amp * size, "{:?}: Jacobian {:?} expected {:?}", kind, j, je);
    // The derivative along a direction, through the reported map alone (multilinear: exact for axis-parallel directions)
    let k = c.int(0, kind.rdim() - 1);
    let h = c.f64(0.1, 1.0);
    let mut eta = xi.clone();
    eta[k] += h;
    let y = e.map(&eta);
    let d: Vec<f64> = (0..x.len()).map(|i| (y[i] - x[i]) / h).collect();
    let col: Vec<f64> = j.column(k).iter().copied().collect();
    ensure!(dist(&d, &col) <= 1e-12 * amp * size / h, "{:?}: difference quotient {:?}, column {} of the Jacobian {:?}", kind, d, k, col);
    if kind.affine() {
        let eta = kind.any_point(c, 2.0);
        let t = c.coord(1.5);
        let z: Vec<f64> = (0..xi.len()).map(|i| (1.0 - t) * xi[i] + t * eta[i]).collect();
        let (a, b, m) = (e.map(&xi), e.map(&eta), e.map(&z));
        let comb: Vec<f64> = (0..a.len()).map(|i| (1.0 - t) * a[i] + t * b[i]).collect();
        ensure!(dist(&m, &comb) <= 1e-11 * size, "{:?}: affine combination maps to {:?}, expected {:?}", kind, m, comb);
    }
    Ok(())
}

/// Inverse maps
fn inverse(c: &mut Case) -> Res {
    let (kind, corners, nodes) = gen(c, &[&VOLUME[..], &[Kind::Seg1]].concat(), 10.0, 0.2);
    let outside = kind.affine() && c.chance(1, 3);
    let xi = if outside { kind.any_point(c, 3.0) } else { kind.ref_point(c) };
    let x = kind.map(&corners, &xi);
    c.note(|| format!("point {:?} with reference coordinates {:?}", x, xi));
    c.class_if(outside, "outside");
    c.nontrivial_if(xi.iter().any(|v| *v != 0.0));
    let diam = diameter(&corners);
    let size = max_abs(&corners).max(diam);
    let found: Vec<f64> = for_kind_square(kind, &nodes, &x)?;
    let back = kind.map(&corners, &found);
    ensure!(dist(&back, &x) <= 2e-12 * diam + 1e-14 * 50.0 * size, "{:?}: {:?} was inverted to {:?}, which maps to {:?}", kind, x, found, back);
    ensure!(dist(&found, &xi) <= 1e-9 * (1.0 + size / diam), "{:?}: {:?} was inverted to {:?}, expected {:?}", kind, x, found, xi);
    Ok(())
}

fn for_kind_square(kind: Kind, nodes: &[Vec<f64>], x: &[f64]) -> Result<Vec<f64>, String> {
    let idx: Vec<usize> = (0..nodes.len()).collect();
    macro_rules! go {
        ($C:ty) => {{
            let verts: Vec<_> = nodes.iter().map(|v| opoint(v)).collect();
            let e = <$C as ElementConnectivity<f64>>::element(&<$C>::from_indices(&idx), &verts).expect("vertices exist");
            map_physical_coordinates(&e, &opoint(x)).map(|p| p.iter().copied().collect()).map_err(|e| format!("{:?}: inverting the map of {:?} failed: {}", kind, x, e))
        }};
    }
    if kind == Kind::Seg1 {
        go!(Segment2d1Connectivity)
    } else {
        for_volume_kind!(kind, C => go!(C))
    }
}

/// Orthogonal projection onto the image of the map
fn projection(c: &mut Case) -> Res {
    let kind = *c.pick(&ALL);
    let mut corners = gen_corners(c, kind, 10.0, 0.2, false);
    if c.bool() {
        // elements of very different sizes, the position stays comparable to the size
        let s = 10f64.powi(c.sint(-9, 9) as i32);
        corners.iter_mut().flatten().for_each(|v| *v *= s);
    }
    let nodes = kind.all_nodes(&corners);
    c.note(|| format!("{:?} with corners {:?}", kind, corners));
    class(c, kind);
    let diam = diameter(&corners);
    let size = max_abs(&corners).max(diam);
    let xi = kind.ref_point(c);
    let mut x = kind.map(&corners, &xi);
    let off = kind.gdim() > kind.rdim() && c.chance(3, 4);
    if off {
        for v in &mut x {
            *v += diam * c.coord(2.0);
        }
    }
    c.note(|| format!("projecting {:?}", x));
    c.nontrivial_if(off || xi.iter().any(|v| *v != 0.0));
    let idx: Vec<usize> = (0..nodes.len()).collect();
    let found: Vec<f64> = for_kind!(kind, C => {
        let verts: Vec<_> = nodes.iter().map(|v| opoint(v)).collect();
        let e = <C as ElementConnectivity<f64>>::element(&C::from_indices(&idx), &verts).expect("vertices exist");
        let p = project_physical_coordinates(&e, &opoint(&x)).map_err(|e| format!("{:?}: projecting {:?} failed: {}", kind, x, e))?;
        p.iter().copied().collect()
    });
    let back = kind.map(&corners, &found);
    let j = kind.jacobian(&corners, &found);
    let r = DMatrix::from_fn(x.len(), 1, |i, _| back[i] - x[i]);
    let s = (j.transpose() * &r).norm();
    ensure!(s <= (1e-11 * diam + 1e-14 * 50.0 * size) * j.norm(), "{:?}: projection of {:?} is {:?} with image {:?}; the distance is not stationary ({:e})", kind, x, found, back, s);
    if !off {
        ensure!(r.norm() <= 1e-9 * size, "{:?}: {:?} lies on the element, its projection has image {:?}", kind, x, back);
        ensure!(dist(&found, &xi) <= 1e-8 * (1.0 + size / diam), "{:?}: projected to {:?}, expected {:?}", kind, found, xi);
    }
    Ok(())
}

/// Bounding boxes, normals and conversions
fn details(c: &mut Case) -> Res {
    let (kind, corners, nodes) = gen(c, &ALL, 100.0, 0.4);
    let diam = diameter(&corners);
    let size = max_abs(&corners).max(diam);
    let p2 = |k: usize| Point2::new(nodes[k][0], nodes[k][1]);
    let p3 = |k: usize| Point3::new(nodes[k][0], nodes[k][1], nodes[k][2]);
    macro_rules! arr {
        ($f:ident) => {
            std::array::from_fn(|i| $f(i))
        };
    }
    macro_rules! bounds {
        ($e:expr) => {{
            let b = BoundsForElement::element_bounds(&$e);
            for _ in 0..4 {
                let xi = kind.ref_point(c);
                let x = kind.map(&corners, &xi);
                for i in 0..x.len() {
                    ensure!(b.min()[i] - 1e-14 * 8.0 * size <= x[i] && x[i] <= b.max()[i] + 1e-14 * 8.0 * size, "{:?}: bounds {:?} do not contain {:?}", kind, b, x);
                }
            }
            for i in 0..kind.gdim() {
                let lo = corners.iter().map(|v| v[i]).fold(f64::INFINITY, f64::min);
                let hi = corners.iter().map(|v| v[i]).fold(f64::NEG_INFINITY, f64::max);
                ensure!(b.min()[i] == lo && b.max()[i] == hi, "{:?}: bounds {:?} are not those of the vertices", kind, b);
            }
        }};
    }
    // Every node of the converted element is where the independent map puts it, and the element has the same map.
    macro_rules! converted {
        ($e:expr, $to:expr) => {{
            let e = $e;
            let to: Kind = $to;
            let expect = to.all_nodes(&corners);
            for (i, v) in e.vertices().iter().enumerate() {
                let v: Vec<f64> = v.iter().copied().collect();
                ensure!(dist(&v, &expect[i]) <= 1e-14 * 30.0 * size, "{:?} to {:?}: vertex {} is {:?}, expected {:?}", kind, to, i, v, expect[i]);
            }
            let xi = kind.ref_point(c);
            let x = DynElem::map(&e, &xi);
            ensure!(dist(&x, &kind.map(&corners, &xi)) <= 1e-14 * 50.0 * size, "{:?} to {:?}: {:?} maps to {:?}", kind, to, xi, x);
            // the higher-order basis interpolates the map as well
            let phi = DynElem::basis(&e, &xi);
            let y: Vec<f64> = (0..x.len()).map(|k| phi.iter().zip(&expect).map(|(p, v)| p * v[k]).sum()).collect();
            ensure!(dist(&x, &y) <= 1e-13 * 50.0 * size, "{:?} to {:?}: the nodes interpolate to {:?}, the map is {:?}", kind, to, y, x);
            // the same as an element of a mesh with these nodes
            let via = to.element(&expect);
            ensure!(dist(&via.map(&xi), &x) <= 1e-14 * 50.0 * size, "{:?}: element of a mesh differs from the converted element", to);
        }};
    }
    macro_rules! normal {
        ($e:expr) => {{
            let e = $e;
            let xi = kind.ref_point(c);
            let n: Vec<f64> = SurfaceFiniteElement::normal(&e, &opoint(&xi)).iter().copied().collect();
            let len = n.iter().map(|v| v * v).sum::<f64>().sqrt();
            ensure!((len - 1.0).abs() <= 1e-12, "{:?}: normal {:?} has length {}", kind, n, len);
            let j = kind.jacobian(&corners, &xi);
            for k in 0..kind.rdim() {
                let d: f64 = (0..n.len()).map(|i| n[i] * j[(i, k)]).sum();
                ensure!(d.abs() <= 1e-11 * j.norm().max(size * 1e-2), "{:?}: normal {:?} is not orthogonal to tangent {:?}", kind, n, j.column(k));
            }
            if kind.rdim() == 2 {
                let t = |k: usize| fenris::nalgebra::Vector3::new(j[(0, k)], j[(1, k)], j[(2, k)]);
                let m = t(0).cross(&t(1));
                let dot: f64 = (0..3).map(|i| n[i] * m[i]).sum();
                ensure!(dot > 0.0, "{:?}: normal {:?} is not oriented by the right-hand rule", kind, n);
            }
        }};
    }
    c.nontrivial();
    // the reference element has the reference nodes
    macro_rules! reference {
        ($E:ident) => {{
            let e = $E::<f64>::reference();
            let v: Vec<Vec<f64>> = e.vertices().iter().map(|p| p.iter().copied().collect()).collect();
            let want = kind.ref_nodes();
            ensure!(v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| dist(a, b) < 1e-14), "reference element {:?} has the vertices {:?}", kind, v);
        }};
    }
    match kind {
        Kind::Tri3 => reference!(Tri3d2Element),
        Kind::Tri6 => reference!(Tri6d2Element),
        Kind::Quad4 => reference!(Quad4d2Element),
        Kind::Quad9 => reference!(Quad9d2Element),
        Kind::Tet4 => reference!(Tet4Element),
        Kind::Tet10 => reference!(Tet10Element),
        Kind::Tet20 => reference!(Tet20Element),
        Kind::Hex8 => reference!(Hex8Element),
        Kind::Hex20 => reference!(Hex20Element),
        Kind::Hex27 => reference!(Hex27Element),
        _ => {}
    }
    match kind {
        Kind::Seg1 => {
            let a = Segment2d1Element::from_interval([nodes[0][0], nodes[1][0]]);
            ensure!(a == Segment2d1Element::from_vertices([Point1::new(nodes[0][0]), Point1::new(nodes[1][0])]), "interval and vertices give different elements");
        }
        Kind::Seg2 => {
            let e = Segment2d2Element::from_vertices(arr!(p2));
            normal!(e);
            let s = e.to_line_segment();
            ensure!(*s.start() == p2(0) && *s.end() == p2(1), "line segment of the element has end points {:?} {:?}", s.start(), s.end());
            let l = LineSegment2d::from(&e);
            ensure!(*l.start() == p2(0) && *l.end() == p2(1), "converted line segment has end points {:?} {:?}", l.start(), l.end());
            ensure!(Segment2d2Element::from(l.clone()) == e && Segment2d2Element::from(&l) == e, "segment does not survive the round trip");
        }
        Kind::Tri3 => {
            let e = Tri3d2Element::from_vertices(arr!(p2));
            bounds!(e);
            converted!(Tri6d2Element::from(&e), Kind::Tri6);
            converted!(Tri6d2Element::from(e.clone()), Kind::Tri6);
            ensure!(Tri3d2Element::from(Triangle(arr!(p2))) == e, "triangle and element differ");
        }
        Kind::Tri3d3 => {
            let e = Tri3d3Element::from_vertices(arr!(p3));
            bounds!(e);
            normal!(e);
            ensure!(Tri3d3Element::from(Triangle(arr!(p3))) == e, "triangle and element differ");
            ensure!(Triangle3d::from(&e).0 == *e.vertices(), "triangle of the element has other vertices");
        }
        Kind::Quad4 => {
            let e = Quad4d2Element::from_vertices(arr!(p2));
            converted!(Quad9d2Element::from(&e), Kind::Quad9);
            converted!(Quad9d2Element::from(e.clone()), Kind::Quad9);
            ensure!(Quad4d2Element::from(Quad2d(arr!(p2))) == e, "quad and element differ");
        }
        Kind::Tet4 => {
            let e = Tet4Element::from_vertices(arr!(p3));
            bounds!(e);
            converted!(Tet10Element::from(&e), Kind::Tet10);
            converted!(Tet20Element::from(&e), Kind::Tet20);
            converted!(Tet20Element::from_tet4_vertices(arr!(p3)), Kind::Tet20);
        }
        Kind::Tri6 => converted!(Tri6d2Element::from_vertices(arr!(p2)), Kind::Tri6),
        Kind::Quad9 => converted!(Quad9d2Element::from_vertices(arr!(p2)), Kind::Quad9),
        Kind::Tet10 => converted!(Tet10Element::from_vertices(arr!(p3)), Kind::Tet10),
        Kind::Tet20 => converted!(Tet20Element::from_vertices(arr!(p3)), Kind::Tet20),
        Kind::Hex8 => converted!(Hex8Element::from_vertices(arr!(p3)), Kind::Hex8),
        Kind::Hex20 => converted!(Hex20Element::from_vertices(arr!(p3)), Kind::Hex20),
        Kind::Hex27 => converted!(Hex27Element::from_vertices(arr!(p3)), Kind::Hex27),
    }
    // Elements of a mesh: the connectivity picks the right vertices out of a larger array, and missing vertices give no element
    let n = nodes.len();
    let total = n + c.int(0, 5);
    let idx = c.distinct(n, total);
    let mut all = vec![vec![f64::NAN; kind.gdim()]; total];
    for (i, k) in idx.iter().enumerate() {
        all[*k] = nodes[i].clone();
    }
    let e = kind.element_from(&all, &idx);
    let xi = kind.ref_point(c);
    ensure!(e.map(&xi) == kind.element(&nodes).map(&xi), "{:?}: element with node indices {:?} differs from the element with these vertices", kind, idx);
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C09",
        rule: "all 13 element types with random vertices: rotated, reflected, sheared (condition up to 10..10^4), scaled by 10^-2..10^2 (projection: 10^-11..10^11), shifted by up to 10 sizes, quadrilaterals and hexahedra with corners perturbed (inverse maps: by at most a tenth of the element, so that the map stays injective). Points inside, on the boundary, outside. Non-trivial: the reference point is not the origin (other clauses: every case).",
        assumptions: &["quadratic elements take the geometry of their corners, as documented by the conversions", "tolerances are 1e-14 times a moderate constant relative to the coordinates; Newton-based inverses 1e-12 relative to the diameter"],
        clauses: vec![
            clause("maps", 3_000_000, 30_000_000, maps),
            clause("inverse", 1_500_000, 15_000_000, inverse),
            clause("projection", 1_500_000, 15_000_000, projection),
            clause("details", 1_500_000, 15_000_000, details),
        ],
    })
}
