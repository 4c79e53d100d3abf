//! The element types of the library behind one dynamic interface, together with an independent
//! description of their reference geometry, nodes and polynomial spaces.
use crate::Case;
use fenris::allocators::BiDimAllocator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::nalgebra::{DMatrix, DefaultAllocator, DimName, MatrixViewMut, OPoint, OVector};
use fenris::SmallDim;
use Kind::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Seg1,
    Seg2,
    Tri3,
    Tri6,
    Tri3d3,
    Quad4,
    Quad9,
    Tet4,
    Tet10,
    Tet20,
    Hex8,
    Hex20,
    Hex27,
}

pub const ALL: [Kind; 13] = [Seg1, Seg2, Tri3, Tri6, Tri3d3, Quad4, Quad9, Tet4, Tet10, Tet20, Hex8, Hex20, Hex27];
/// Volume elements in two and three dimensions
pub const VOLUME: [Kind; 10] = [Tri3, Tri6, Quad4, Quad9, Tet4, Tet10, Tet20, Hex8, Hex20, Hex27];

/// Runs `$body` with `$C` an alias of the connectivity type of the kind
#[macro_export]
macro_rules! for_kind {
    ($kind:expr, $C:ident => $body:expr) => {
        match $kind {
            $crate::elems::Kind::Seg1 => { type $C = fenris::connectivity::Segment2d1Connectivity; $body }
            $crate::elems::Kind::Seg2 => { type $C = fenris::connectivity::Segment2d2Connectivity; $body }
            $crate::elems::Kind::Tri3d3 => { type $C = fenris::connectivity::Tri3d3Connectivity; $body }
            other => $crate::for_volume_kind!(other, $C => $body),
        }
    };
}

#[macro_export]
macro_rules! for_volume_kind {
    ($kind:expr, $C:ident => $body:expr) => {
        match $kind {
            $crate::elems::Kind::Tri3 => { type $C = fenris::connectivity::Tri3d2Connectivity; $body }
            $crate::elems::Kind::Tri6 => { type $C = fenris::connectivity::Tri6d2Connectivity; $body }
            $crate::elems::Kind::Quad4 => { type $C = fenris::connectivity::Quad4d2Connectivity; $body }
            $crate::elems::Kind::Quad9 => { type $C = fenris::connectivity::Quad9d2Connectivity; $body }
            $crate::elems::Kind::Tet4 => { type $C = fenris::connectivity::Tet4Connectivity; $body }
            $crate::elems::Kind::Tet10 => { type $C = fenris::connectivity::Tet10Connectivity; $body }
            $crate::elems::Kind::Tet20 => { type $C = fenris::connectivity::Tet20Connectivity; $body }
            $crate::elems::Kind::Hex8 => { type $C = fenris::connectivity::Hex8Connectivity; $body }
            $crate::elems::Kind::Hex20 => { type $C = fenris::connectivity::Hex20Connectivity; $body }
            $crate::elems::Kind::Hex27 => { type $C = fenris::connectivity::Hex27Connectivity; $body }
            other => panic!("{:?} is not a volume element", other),
        }
    };
}

pub trait FromIndices {
    fn from_indices(i: &[usize]) -> Self;
}
macro_rules! from_indices {
    ($($t:ty),*) => { $(impl FromIndices for $t {
        fn from_indices(i: &[usize]) -> Self { Self(i.try_into().unwrap()) }
    })* };
}
from_indices!(
    Segment2d1Connectivity, Segment2d2Connectivity, Tri3d2Connectivity, Tri6d2Connectivity, Tri3d3Connectivity, Quad4d2Connectivity, Quad9d2Connectivity,
    Tet4Connectivity, Tet10Connectivity, Tet20Connectivity, Hex8Connectivity, Hex20Connectivity, Hex27Connectivity
);

const SQ: [[i8; 2]; 9] = [[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1], [-1, 0], [0, 0]];
const HX: [[i8; 3]; 27] = [
    [-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1],
    [0, -1, -1], [-1, 0, -1], [-1, -1, 0], [1, 0, -1], [1, -1, 0], [0, 1, -1], [1, 1, 0], [-1, 1, 0], [0, -1, 1], [-1, 0, 1], [1, 0, 1], [0, 1, 1],
    [0, 0, -1], [0, -1, 0], [-1, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0, 0],
];

impl Kind {
    pub fn rdim(self) -> usize {
        match self {
            Seg1 | Seg2 => 1,
            Tri3 | Tri6 | Tri3d3 | Quad4 | Quad9 => 2,
            _ => 3,
        }
    }

    pub fn gdim(self) -> usize {
        match self {
            Seg1 => 1,
            Seg2 | Tri3 | Tri6 | Quad4 | Quad9 => 2,
            _ => 3,
        }
    }

    pub fn simplex(self) -> bool {
        matches!(self, Tri3 | Tri6 | Tri3d3 | Tet4 | Tet10 | Tet20)
    }

    pub fn affine(self) -> bool {
        self.simplex() || matches!(self, Seg1 | Seg2)
    }

    pub fn order(self) -> usize {
        match self {
            Seg1 | Seg2 | Tri3 | Tri3d3 | Quad4 | Tet4 | Hex8 => 1,
            Tri6 | Quad9 | Tet10 | Hex20 | Hex27 => 2,
            Tet20 => 3,
        }
    }

    /// The kind with the same geometry and only corner nodes
    pub fn linear(self) -> Kind {
        match self {
            Tri6 => Tri3,
            Quad9 => Quad4,
            Tet10 | Tet20 => Tet4,
            Hex20 | Hex27 => Hex8,
            k => k,
        }
    }

    pub fn num_corners(self) -> usize {
        match self.linear() {
            Seg1 | Seg2 => 2,
            Tri3 | Tri3d3 => 3,
            Quad4 | Tet4 => 4,
            _ => 8,
        }
    }

    /// Each node as affine combination of the corners: (corner, numerator), denominator 3 (simplices of order 3) or a power of two
    pub fn node_weights(self) -> Vec<Vec<f64>> {
        let nodes = self.ref_nodes();
        nodes.iter().map(|x| self.corner_weights(x)).collect()
    }

    /// Reference coordinates of all nodes
    pub fn ref_nodes(self) -> Vec<Vec<f64>> {
        fn bary(corners: &[Vec<f64>], w: &[(usize, f64)]) -> Vec<f64> {
            let d = corners[0].len();
            (0..d).map(|k| w.iter().map(|(i, w)| corners[*i][k] * w).sum()).collect()
        }
        let simplex_corners: Vec<Vec<f64>> = match self.rdim() {
            1 => vec![vec![-1.0], vec![1.0]],
            2 => vec![vec![-1.0, -1.0], vec![1.0, -1.0], vec![-1.0, 1.0]],
            _ => vec![vec![-1.0, -1.0, -1.0], vec![1.0, -1.0, -1.0], vec![-1.0, 1.0, -1.0], vec![-1.0, -1.0, 1.0]],
        };
        let mid = |edges: &[(usize, usize)]| -> Vec<Vec<f64>> {
            edges.iter().map(|(a, b)| bary(&simplex_corners, &[(*a, 0.5), (*b, 0.5)])).collect()
        };
        let sq = |n: usize| SQ[..n].iter().map(|p| p.iter().map(|x| *x as f64).collect()).collect();
        let hx = |n: usize| HX[..n].iter().map(|p| p.iter().map(|x| *x as f64).collect()).collect();
        match self {
            Seg1 | Seg2 | Tri3 | Tri3d3 | Tet4 => simplex_corners,
            Tri6 => [simplex_corners.clone(), mid(&[(0, 1), (1, 2), (2, 0)])].concat(),
            Tet10 => [simplex_corners.clone(), mid(&[(0, 1), (1, 2), (0, 2), (0, 3), (2, 3), (1, 3)])].concat(),
            Tet20 => {
                let mut v = simplex_corners.clone();
                for (a, b) in [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)] {
                    v.push(bary(&simplex_corners, &[(a, 2.0 / 3.0), (b, 1.0 / 3.0)]));
                    v.push(bary(&simplex_corners, &[(a, 1.0 / 3.0), (b, 2.0 / 3.0)]));
                }
                for (a, b, c) in [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)] {
                    v.push(bary(&simplex_corners, &[(a, 1.0 / 3.0), (b, 1.0 / 3.0), (c, 1.0 / 3.0)]));
                }
                v
            }
            Quad4 => sq(4),
            Quad9 => sq(9),
            Hex8 => hx(8),
            Hex20 => hx(20),
            Hex27 => hx(27),
        }
    }

    /// Weights of the corners at a reference point (affine or multilinear)
    pub fn corner_weights(self, xi: &[f64]) -> Vec<f64> {
        if self.simplex() {
            let mut w: Vec<f64> = xi.iter().map(|x| (1.0 + x) / 2.0).collect();
            w.insert(0, 1.0 - w.iter().sum::<f64>());
            w
        } else {
            let corners = self.linear().ref_nodes();
            corners.iter().map(|c| c.iter().zip(xi).map(|(a, x)| (1.0 + a * x) / 2.0).product()).collect()
        }
    }

    /// Independent reference map, from the corners
    pub fn map(self, corners: &[Vec<f64>], xi: &[f64]) -> Vec<f64> {
        let w = self.corner_weights(xi);
        (0..corners[0].len()).map(|k| corners.iter().zip(&w).map(|(p, w)| p[k] * w).sum()).collect()
    }

    /// Independent Jacobian (gdim x rdim)
    pub fn jacobian(self, corners: &[Vec<f64>], xi: &[f64]) -> DMatrix<f64> {
        let (g, r) = (corners[0].len(), self.rdim());
        if self.affine() {
            DMatrix::from_fn(g, r, |i, j| (corners[j + 1][i] - corners[0][i]) / 2.0)
        } else {
            let refs = self.linear().ref_nodes();
            DMatrix::from_fn(g, r, |i, j| {
                (0..refs.len())
                    .map(|n| {
                        let w: f64 = (0..r).map(|k| if k == j { refs[n][k] / 2.0 } else { (1.0 + refs[n][k] * xi[k]) / 2.0 }).product();
                        corners[n][i] * w
                    })
                    .sum()
            })
        }
    }

    /// Exponents of the monomials that span the basis
    pub fn monomials(self) -> Vec<Vec<u32>> {
        let d = self.rdim();
        let o = self.order() as u32;
        let mut all: Vec<Vec<u32>> = vec![vec![]];
        for _ in 0..d {
            all = all.into_iter().flat_map(|m| (0..=o.max(2)).map(move |e| [m.clone(), vec![e]].concat())).collect();
        }
        all.retain(|m| {
            let total: u32 = m.iter().sum();
            let max = *m.iter().max().unwrap();
            match self {
                Hex20 => m.iter().filter(|e| **e != 1).sum::<u32>() <= 2,
                _ if self.affine() => total <= o,
                _ => max <= o,
            }
        });
        assert_eq!(all.len(), self.ref_nodes().len());
        all
    }

    /// All nodes of the physical element from its corners
    pub fn all_nodes(self, corners: &[Vec<f64>]) -> Vec<Vec<f64>> {
        let refs = self.ref_nodes();
        let nc = corners.len();
        (0..refs.len()).map(|i| if i < nc { corners[i].clone() } else { self.map(corners, &refs[i]) }).collect()
    }

    /// A point in the reference domain. On the boundary in about a third of the cases
    pub fn ref_point(self, c: &mut Case) -> Vec<f64> {
        let d = self.rdim();
        if self.simplex() {
            let kind = c.int(0, 5);
            let mut w: Vec<f64> = (0..=d).map(|_| if kind == 0 { c.int(0, 2) as f64 } else { -(1.0 - c.unit()).ln() }).collect();
            if kind == 1 {
                let i = c.int(0, d);
                w[i] = 0.0;
            }
            if kind == 5 {
                // almost on a face, an edge or a node
                for i in 1..=d {
                    if c.bool() {
                        w[i] = c.tiny().abs() * w[0];
                    }
                }
            }
            let s: f64 = w.iter().sum();
            if s <= 0.0 {
                w = vec![1.0; d + 1];
            }
            let s: f64 = w.iter().sum();
            (0..d).map(|i| 2.0 * w[i + 1] / s - 1.0).collect()
        } else {
            let near = c.chance(1, 6);
            (0..d)
                .map(|_| {
                    if near && c.bool() {
                        // almost on a face or a plane of symmetry
                        let t = c.tiny();
                        *c.pick(&[t, 1.0 - t.abs(), t.abs() - 1.0])
                    } else {
                        c.coord(1.0)
                    }
                })
                .collect()
        }
    }

    /// Up to `max` points of the reference element; sometimes related by symmetries, like those of quadrature rules
    pub fn ref_points(self, c: &mut Case, max: usize) -> Vec<Vec<f64>> {
        let n = c.int(0, max);
        if c.chance(2, 3) {
            return c.vec(n, |c| self.ref_point(c));
        }
        let d = self.rdim();
        let base = self.ref_point(c);
        c.vec(n, |c| {
            if self.simplex() {
                let mut w: Vec<f64> = base.iter().map(|x| 0.5 * (x + 1.0)).collect();
                w.push(1.0 - w.iter().sum::<f64>());
                let p = c.permutation(d + 1);
                (0..d).map(|k| 2.0 * w[p[k]] - 1.0).collect()
            } else {
                base.iter().map(|x| *c.pick(&[*x, -*x])).collect()
            }
        })
    }

    pub fn in_ref(self, xi: &[f64], eps: f64) -> bool {
        if self.simplex() {
            xi.iter().all(|x| *x >= -1.0 - eps) && xi.iter().sum::<f64>() <= 2.0 - self.rdim() as f64 + eps
        } else {
            xi.iter().all(|x| x.abs() <= 1.0 + eps)
        }
    }

    /// A point inside or outside
    pub fn any_point(self, c: &mut Case, r: f64) -> Vec<f64> {
        let near = c.chance(1, 8);
        (0..self.rdim()).map(|_| c.coord(r) + if near { c.tiny() } else { 0.0 }).collect()
    }

    pub fn element(self, nodes: &[Vec<f64>]) -> Box<dyn DynElem> {
        let idx: Vec<usize> = (0..nodes.len()).collect();
        self.element_from(nodes, &idx)
    }

    /// Via the connectivity, from an array of all vertices of a mesh
    pub fn element_from(self, vertices: &[Vec<f64>], idx: &[usize]) -> Box<dyn DynElem> {
        for_kind!(self, C => {
            let verts: Vec<_> = vertices.iter().map(|v| opoint(v)).collect();
            let e = <C as ElementConnectivity<f64>>::element(&C::from_indices(idx), &verts).expect("vertices exist");
            Box::new(e) as Box<dyn DynElem>
        })
    }

    pub fn reference_element(self) -> Box<dyn DynElem> {
        match self {
            Seg1 => Box::new(Segment2d1Element::from_vertices([[-1.0].into(), [1.0].into()])),
            Seg2 => Box::new(Segment2d2Element::from_vertices([[-1.0, 0.0].into(), [1.0, 0.0].into()])),
            Tri3 => Box::new(Tri3d2Element::reference()),
            Tri6 => Box::new(Tri6d2Element::reference()),
            Tri3d3 => Box::new(Tri3d3Element::from_vertices([[-1.0, -1.0, 0.0].into(), [1.0, -1.0, 0.0].into(), [-1.0, 1.0, 0.0].into()])),
            Quad4 => Box::new(Quad4d2Element::reference()),
            Quad9 => Box::new(Quad9d2Element::reference()),
            Tet4 => Box::new(Tet4Element::reference()),
            Tet10 => Box::new(Tet10Element::reference()),
            Tet20 => Box::new(Tet20Element::reference()),
            Hex8 => Box::new(Hex8Element::reference()),
            Hex20 => Box::new(Hex20Element::reference()),
            Hex27 => Box::new(Hex27Element::reference()),
        }
    }
}

pub fn opoint<D: DimName>(v: &[f64]) -> OPoint<f64, D>
where
    DefaultAllocator: fenris::nalgebra::allocator::Allocator<f64, D>,
{
    OPoint::from(OVector::<f64, D>::from_column_slice(v))
}

/// Object-safe view of a finite element
pub trait DynElem: Send + Sync {
    fn num_nodes(&self) -> usize;
    fn basis(&self, xi: &[f64]) -> Vec<f64>;
    /// rdim x num_nodes
    fn gradients(&self, xi: &[f64]) -> DMatrix<f64>;
    fn map(&self, xi: &[f64]) -> Vec<f64>;
    /// gdim x rdim
    fn jacobian(&self, xi: &[f64]) -> DMatrix<f64>;
    fn diameter(&self) -> f64;
}

impl<E> DynElem for E
where
    E: FiniteElement<f64> + Send + Sync,
    E::ReferenceDim: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, E::GeometryDim, E::ReferenceDim>,
{
    fn num_nodes(&self) -> usize {
        ReferenceFiniteElement::num_nodes(self)
    }
    fn basis(&self, xi: &[f64]) -> Vec<f64> {
        let mut v = vec![f64::NAN; DynElem::num_nodes(self)];
        self.populate_basis(&mut v, &opoint(xi));
        v
    }
    fn gradients(&self, xi: &[f64]) -> DMatrix<f64> {
        let n = DynElem::num_nodes(self);
        let mut m = fenris::nalgebra::OMatrix::<f64, E::ReferenceDim, fenris::nalgebra::Dyn>::from_element_generic(E::ReferenceDim::name(), fenris::nalgebra::Dyn(n), f64::NAN);
        self.populate_basis_gradients(MatrixViewMut::from(&mut m), &opoint(xi));
        DMatrix::from_fn(m.nrows(), n, |i, j| m[(i, j)])
    }
    fn map(&self, xi: &[f64]) -> Vec<f64> {
        self.map_reference_coords(&opoint(xi)).iter().copied().collect()
    }
    fn jacobian(&self, xi: &[f64]) -> DMatrix<f64> {
        let m = self.reference_jacobian(&opoint(xi));
        DMatrix::from_fn(m.nrows(), m.ncols(), |i, j| m[(i, j)])
    }
    fn diameter(&self) -> f64 {
        FiniteElement::diameter(self)
    }
}

/// Polynomial with explicit exponents
#[derive(Debug, Clone)]
pub struct Poly {
    pub terms: Vec<(f64, Vec<u32>)>,
}

impl Poly {
    pub fn random(c: &mut Case, monomials: &[Vec<u32>]) -> Poly {
        let sparse = c.bool();
        Poly { terms: monomials.iter().map(|m| (if sparse && c.chance(3, 4) { 0.0 } else { c.sint(-4, 4) as f64 }, m.clone())).collect() }
    }

    pub fn eval(&self, x: &[f64]) -> f64 {
        self.terms.iter().map(|(a, m)| a * m.iter().zip(x).map(|(e, x)| x.powi(*e as i32)).product::<f64>()).sum()
    }

    pub fn derivative(&self, k: usize) -> Poly {
        Poly {
            terms: self
                .terms
                .iter()
                .filter(|(_, m)| m[k] > 0)
                .map(|(a, m)| {
                    let mut m = m.clone();
                    m[k] -= 1;
                    (a * (m[k] + 1) as f64, m)
                })
                .collect(),
        }
    }

    pub fn grad(&self, x: &[f64]) -> Vec<f64> {
        (0..x.len()).map(|k| self.derivative(k).eval(x)).collect()
    }

    /// Bound on the size of the terms for |x_i| <= r
    pub fn size(&self, r: f64) -> f64 {
        self.terms.iter().map(|(a, m)| a.abs() * r.max(1.0).powi(m.iter().sum::<u32>() as i32)).sum()
    }

    pub fn degree(&self) -> u32 {
        self.terms.iter().filter(|t| t.0 != 0.0).map(|t| t.1.iter().sum()).max().unwrap_or(0)
    }
}

/// Monomials of total degree at most `deg` in `d` variables
pub fn total_degree(d: usize, deg: u32) -> Vec<Vec<u32>> {
    let mut all: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..d {
        all = all.into_iter().flat_map(|m| (0..=deg).map(move |e| [m.clone(), vec![e]].concat())).collect();
    }
    all.retain(|m| m.iter().sum::<u32>() <= deg);
    all
}

/// Random well-conditioned matrix (gdim x rdim): singular values between `1/spread` and 1, times a scale
pub fn gen_affine(c: &mut Case, g: usize, r: usize, spread: f64, positive: bool) -> DMatrix<f64> {
    if c.chance(1, 5) {
        // aligned with the axes
        let mut s = DMatrix::zeros(g, r);
        for i in 0..r {
            s[(i, i)] = if spread >= 2.0 && c.bool() { 0.5 } else { 1.0 };
        }
        return s;
    }
    let q1 = gen_rotation(c, g);
    let q2 = gen_rotation(c, r);
    let mut s = DMatrix::zeros(g, r);
    for i in 0..r {
        s[(i, i)] = spread.powf(-c.unit());
    }
    if !positive && g == r && c.chance(1, 4) {
        s[(0, 0)] = -s[(0, 0)];
    }
    q1 * s * q2
}

pub fn gen_rotation(c: &mut Case, n: usize) -> DMatrix<f64> {
    let mut q = DMatrix::identity(n, n);
    for i in 0..n {
        for j in 0..i {
            let a = match c.int(0, 2) {
                0 => 0.0,
                1 => c.int(0, 3) as f64 * std::f64::consts::FRAC_PI_2,
                _ => c.f64(-3.2, 3.2),
            };
            let (s, co) = a.sin_cos();
            let mut g = DMatrix::identity(n, n);
            g[(i, i)] = co;
            g[(j, j)] = co;
            g[(i, j)] = s;
            g[(j, i)] = -s;
            q = g * q;
        }
    }
    q
}

/// Random corners of a non-degenerate element; `distort` in [0, 0.25] perturbs quads and hexes (in units of the reference element)
pub fn gen_corners(c: &mut Case, kind: Kind, spread: f64, distort: f64, positive: bool) -> Vec<Vec<f64>> {
    let scale = c.length_scale(2.0);
    let offset: Vec<f64> = (0..kind.gdim()).map(|_| if c.bool() { 0.0 } else { scale * c.f64(-10.0, 10.0) }).collect();
    let a = gen_affine(c, kind.gdim(), kind.rdim(), spread, positive) * scale;
    let mut refs = kind.linear().ref_nodes();
    if !kind.affine() {
        distort_nodes(c, &mut refs, distort);
    }
    refs.iter()
        .map(|x| {
            let z = &a * DMatrix::from_column_slice(x.len(), 1, x);
            z.iter().zip(&offset).map(|(a, b)| a + b).collect()
        })
        .collect()
}

/// Moves every coordinate of the nodes by at most `distort`: not at all, at random, by few simple amounts
/// (so that special shapes like trapezoids occur), or as a taper.
pub fn distort_nodes(c: &mut Case, nodes: &mut [Vec<f64>], distort: f64) {
    let d = nodes.first().map_or(0, |x| x.len());
    match c.int(0, 5) {
        0 | 1 => {}
        2 | 3 => nodes.iter_mut().flatten().for_each(|v| *v += c.f64(-distort, distort)),
        4 => {
            let axis = c.int(0, d.max(1) - 1);
            let one_axis = c.bool();
            for x in nodes.iter_mut() {
                for (k, v) in x.iter_mut().enumerate() {
                    if (!one_axis || k == axis) && c.chance(1, 3) {
                        *v += distort * 0.5 * c.sint(-2, 2) as f64;
                    }
                }
            }
        }
        _ => {
            // coordinate `axis` is stretched or sheared by the product of a set of coordinates
            let axis = c.int(0, d.max(1) - 1);
            let t = distort * 0.5 * c.sint(-2, 2) as f64;
            let set: Vec<bool> = (0..d).map(|_| c.chance(2, 3)).collect();
            let m = nodes.iter().flatten().fold(1f64, |a, x| a.max(x.abs()));
            for x in nodes.iter_mut() {
                let y: f64 = (0..d).filter(|k| set[*k]).map(|k| x[k] / m).product();
                x[axis] += t * y;
            }
        }
    }
}

pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum::<f64>().sqrt()
}

pub fn max_abs(v: &[Vec<f64>]) -> f64 {
    v.iter().flatten().fold(0.0, |a, x| a.max(x.abs()))
}

pub fn diameter(v: &[Vec<f64>]) -> f64 {
    let mut d: f64 = 0.0;
    for a in v {
        for b in v {
            d = d.max(dist(a, b));
        }
    }
    d
}
