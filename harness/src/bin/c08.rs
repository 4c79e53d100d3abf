//! C08: basis functions.
use fenris::nalgebra::{DMatrix, OMatrix, Point1, Point2, Point3};
use fenris::element::*;
use pbt::elems::*;
use pbt::*;

fn gen(c: &mut Case) -> (Kind, Vec<Vec<f64>>, Box<dyn DynElem>) {
    let kind = *c.pick(&ALL);
    let corners = gen_corners(c, kind, 10.0, 0.25, false);
    let nodes = kind.all_nodes(&corners);
    // sometimes as part of a larger vertex array
    let e = if c.bool() {
        let extra = c.int(0, 5);
        let place = c.distinct(nodes.len(), nodes.len() + extra);
        let mut verts = vec![vec![f64::NAN; kind.gdim()]; nodes.len() + extra];
        for (i, p) in place.iter().enumerate() {
            verts[*p] = nodes[i].clone();
        }
        kind.element_from(&verts, &place)
    } else {
        kind.element(&nodes)
    };
    c.note(|| format!("{:?} with corners {:?}", kind, corners));
    (kind, nodes, e)
}

fn class(c: &mut Case, kind: Kind) {
    c.class(match kind {
        Kind::Seg1 => "Seg1",
        Kind::Seg2 => "Seg2",
        Kind::Tri3 => "Tri3",
        Kind::Tri6 => "Tri6",
        Kind::Tri3d3 => "Tri3d3",
        Kind::Quad4 => "Quad4",
        Kind::Quad9 => "Quad9",
        Kind::Tet4 => "Tet4",
        Kind::Tet10 => "Tet10",
        Kind::Tet20 => "Tet20",
        Kind::Hex8 => "Hex8",
        Kind::Hex20 => "Hex20",
        Kind::Hex27 => "Hex27",
    })
}

fn nodal(c: &mut Case) -> Res {
    let (kind, _, e) = gen(c);
    class(c, kind);
    let refs = kind.ref_nodes();
    ensure_eq!(e.num_nodes(), refs.len(), "{:?}: number of nodes", kind);
    let j = c.int(0, refs.len() - 1);
    c.nontrivial();
    let phi = e.basis(&refs[j]);
    for (i, p) in phi.iter().enumerate() {
        let exp = if i == j { 1.0 } else { 0.0 };
        ensure!((p - exp).abs() <= 1e-13, "{:?}: basis function {} at node {} is {}", kind, i, j, p);
    }
    Ok(())
}

/// Reproduction of values and gradients of every polynomial of the space, at any point
fn reproduction(c: &mut Case) -> Res {
    let (kind, _, e) = gen(c);
    class(c, kind);
    let poly = Poly::random(c, &kind.monomials());
    let inside = c.bool();
    let xi = if inside { kind.ref_point(c) } else { kind.any_point(c, 3.0) };
    c.note(|| format!("polynomial {:?} at {:?}", poly.terms.iter().filter(|t| t.0 != 0.0).collect::<Vec<_>>(), xi));
    c.nontrivial_if(poly.degree() as usize >= kind.order());
    let (phi, grad) = (e.basis(&xi), e.gradients(&xi));
    let refs = kind.ref_nodes();
    let vals: Vec<f64> = refs.iter().map(|x| poly.eval(x)).collect();
    let tol = 1e-11 * (1.0 + poly.size(3.0)) * if inside { 1.0 } else { 30.0 };
    let v: f64 = phi.iter().zip(&vals).map(|(p, v)| p * v).sum();
    ensure!((v - poly.eval(&xi)).abs() <= tol, "{:?}: interpolant is {} at {:?}, polynomial is {}", kind, v, xi, poly.eval(&xi));
    let exact = poly.grad(&xi);
    for k in 0..kind.rdim() {
        let g: f64 = (0..vals.len()).map(|i| grad[(k, i)] * vals[i]).sum();
        ensure!((g - exact[k]).abs() <= tol, "{:?}: derivative {} of the interpolant is {} at {:?}, polynomial has {}", kind, k, g, xi, exact[k]);
    }
    let sum: f64 = phi.iter().sum();
    ensure!((sum - 1.0).abs() <= 1e-10, "{:?}: basis sums to {} at {:?}", kind, sum, xi);
    for k in 0..kind.rdim() {
        let s: f64 = (0..phi.len()).map(|i| grad[(k, i)]).sum();
        ensure!(s.abs() <= 1e-10, "{:?}: derivatives {} of the basis sum to {} at {:?}", kind, k, s, xi);
    }
    Ok(())
}

/// Each basis function and its derivatives equal the Lagrange basis computed by solving the Vandermonde system
fn vandermonde(c: &mut Case) -> Res {
    let (kind, _, e) = gen(c);
    class(c, kind);
    let xi = if c.bool() { kind.ref_point(c) } else { kind.any_point(c, 1.5) };
    c.nontrivial();
    let mons = kind.monomials();
    let refs = kind.ref_nodes();
    let n = refs.len();
    let one = |m: &Vec<u32>| Poly { terms: vec![(1.0, m.clone())] };
    let v = DMatrix::from_fn(n, n, |i, j| one(&mons[j]).eval(&refs[i]));
    let coef = v.try_inverse().ok_or("unisolvent nodes expected".to_string())?;
    let (phi, grad) = (e.basis(&xi), e.gradients(&xi));
    for i in 0..n {
        let p = Poly { terms: (0..n).map(|j| (coef[(j, i)], mons[j].clone())).collect() };
        ensure!((p.eval(&xi) - phi[i]).abs() <= 1e-9, "{:?}: basis function {} is {} at {:?}, expected {}", kind, i, phi[i], xi, p.eval(&xi));
        let g = p.grad(&xi);
        for k in 0..kind.rdim() {
            ensure!((g[k] - grad[(k, i)]).abs() <= 1e-9, "{:?}: derivative {} of basis function {} is {} at {:?}, expected {}", kind, k, i, grad[(k, i)], xi, g[k]);
        }
    }
    Ok(())
}

/// The basis does not depend on the physical element, and both interfaces agree
fn independence(c: &mut Case) -> Res {
    let (kind, nodes, e) = gen(c);
    class(c, kind);
    let xi = kind.any_point(c, 1.5);
    c.nontrivial();
    let r = kind.reference_element();
    ensure!(e.basis(&xi) == r.basis(&xi), "{:?}: basis differs from that of the reference element", kind);
    ensure!(e.gradients(&xi) == r.gradients(&xi), "{:?}: gradients differ from those of the reference element", kind);
    macro_rules! fixed {
        ($e:expr, $p:expr) => {{
            let (el, p) = ($e, $p);
            let b: OMatrix<f64, _, _> = FixedNodesReferenceFiniteElement::evaluate_basis(&el, &p);
            ensure!(b.as_slice() == &e.basis(&xi)[..], "{:?}: evaluate_basis differs from populate_basis", kind);
            let g: OMatrix<f64, _, _> = FixedNodesReferenceFiniteElement::gradients(&el, &p);
            ensure!(g.as_slice() == e.gradients(&xi).as_slice(), "{:?}: gradients differs from populate_basis_gradients", kind);
        }};
    }
    let n2 = |k: usize| Point2::new(nodes[k][0], nodes[k][1]);
    let n3 = |k: usize| Point3::new(nodes[k][0], nodes[k][1], nodes[k][2]);
    macro_rules! arr {
        ($f:ident) => {
            std::array::from_fn(|i| $f(i))
        };
    }
    match kind {
        Kind::Seg1 => fixed!(Segment2d1Element::from_vertices([Point1::new(nodes[0][0]), Point1::new(nodes[1][0])]), Point1::new(xi[0])),
        Kind::Seg2 => fixed!(Segment2d2Element::from_vertices(arr!(n2)), Point1::new(xi[0])),
        Kind::Tri3 => fixed!(Tri3d2Element::from_vertices(arr!(n2)), Point2::new(xi[0], xi[1])),
        Kind::Tri6 => fixed!(Tri6d2Element::from_vertices(arr!(n2)), Point2::new(xi[0], xi[1])),
        Kind::Tri3d3 => fixed!(Tri3d3Element::from_vertices(arr!(n3)), Point2::new(xi[0], xi[1])),
        Kind::Quad4 => fixed!(Quad4d2Element::from_vertices(arr!(n2)), Point2::new(xi[0], xi[1])),
        Kind::Quad9 => fixed!(Quad9d2Element::from_vertices(arr!(n2)), Point2::new(xi[0], xi[1])),
        Kind::Tet4 => fixed!(Tet4Element::from_vertices(arr!(n3)), Point3::new(xi[0], xi[1], xi[2])),
        Kind::Tet10 => fixed!(Tet10Element::from_vertices(arr!(n3)), Point3::new(xi[0], xi[1], xi[2])),
        Kind::Tet20 => fixed!(Tet20Element::from_vertices(arr!(n3)), Point3::new(xi[0], xi[1], xi[2])),
        Kind::Hex8 => fixed!(Hex8Element::from_vertices(arr!(n3)), Point3::new(xi[0], xi[1], xi[2])),
        Kind::Hex20 => fixed!(Hex20Element::from_vertices(arr!(n3)), Point3::new(xi[0], xi[1], xi[2])),
        Kind::Hex27 => fixed!(Hex27Element::from_vertices(arr!(n3)), Point3::new(xi[0], xi[1], xi[2])),
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C08",
        rule: "all 13 element types with random physical vertices (rotated, sheared, scaled, distorted, part of larger vertex arrays), random reference points inside, on the boundary and outside (up to 3 times the reference element), random polynomials with integer coefficients from the whole space. Non-trivial: the polynomial has at least the order of the element (other clauses: every case).",
        assumptions: &["reference nodes and polynomial spaces are stated independently in the harness (Gmsh ordering)"],
        clauses: vec![
            clause("nodal", 2_200_000, 22_000_000, nodal),
            clause("reproduction", 2_000_000, 20_000_000, reproduction),
            clause("vandermonde", 300_000, 3_000_000, vandermonde),
            clause("independence", 1_500_000, 15_000_000, independence),
        ],
    })
}
