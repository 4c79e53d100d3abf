//! Finite element space with elements of several kinds, to exercise everything that works on spaces in general.
use crate::elems::*;
use crate::Case;
use fenris::allocators::BiDimAllocator;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DMatrix, DefaultAllocator, DimName, Dyn, MatrixViewMut, OMatrix, OPoint};
use fenris::space::{FiniteElementConnectivity, FiniteElementSpace, FindClosestElement};
use fenris::SmallDim;
use std::marker::PhantomData;

pub struct Elem {
    pub kind: Kind,
    pub corners: Vec<Vec<f64>>,
    /// Positions of all nodes
    pub pos: Vec<Vec<f64>>,
    pub nodes: Vec<usize>,
    pub dynamic: Box<dyn DynElem>,
}

impl Elem {
    pub fn new(kind: Kind, corners: Vec<Vec<f64>>, nodes: Vec<usize>) -> Elem {
        let pos = kind.all_nodes(&corners);
        assert_eq!(pos.len(), nodes.len());
        Elem { kind, dynamic: kind.element(&pos), corners, pos, nodes }
    }

    pub fn basis(&self, xi: &[f64]) -> Vec<f64> {
        self.dynamic.basis(xi)
    }

    /// Physical gradients of the basis functions (gdim x nodes), through the independent Jacobian
    pub fn physical_gradients(&self, xi: &[f64]) -> DMatrix<f64> {
        let j = self.kind.jacobian(&self.corners, xi);
        let inv_t = j.try_inverse().expect("regular element").transpose();
        inv_t * self.dynamic.gradients(xi)
    }

    pub fn det(&self, xi: &[f64]) -> f64 {
        self.kind.jacobian(&self.corners, xi).determinant()
    }

    pub fn map(&self, xi: &[f64]) -> Vec<f64> {
        self.kind.map(&self.corners, xi)
    }
}

/// Elements that do not have to fit together; node indices may be shared in any way
pub struct MixedSpace<D> {
    pub elems: Vec<Elem>,
    pub num_nodes: usize,
    /// Answers to point location queries
    pub located: Vec<(Vec<f64>, usize, Vec<f64>)>,
    pub dim: PhantomData<D>,
}

impl<D> MixedSpace<D> {
    pub fn new(elems: Vec<Elem>, num_nodes: usize) -> Self {
        MixedSpace { elems, num_nodes, located: vec![], dim: PhantomData }
    }
}

pub fn kinds_of_dim(d: usize) -> Vec<Kind> {
    if d == 1 {
        return vec![Kind::Seg1];
    }
    VOLUME.iter().copied().filter(|k| k.rdim() == d).collect()
}

/// Random elements of the dimension, with random (possibly shared) node indices
pub fn gen_elems(c: &mut Case, d: usize, max: usize, spread: f64, distort: f64, positive: bool) -> (Vec<Elem>, usize) {
    let kinds = kinds_of_dim(d);
    let n = c.int(0, max);
    let only = if c.chance(1, 3) { Some(*c.pick(&kinds)) } else { None };
    let extra = c.int(0, 8);
    let ks: Vec<Kind> = (0..n).map(|_| only.unwrap_or_else(|| *c.pick(&kinds))).collect();
    let most = ks.iter().map(|k| k.ref_nodes().len()).max().unwrap_or(0);
    let num_nodes = most + extra;
    let elems = ks
        .into_iter()
        .map(|k| {
            let corners = gen_corners(c, k, spread, distort, positive);
            let nodes = c.distinct(k.ref_nodes().len(), num_nodes);
            Elem::new(k, corners, nodes)
        })
        .collect();
    (elems, num_nodes)
}

impl<D> FiniteElementConnectivity for MixedSpace<D> {
    fn num_elements(&self) -> usize {
        self.elems.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, i: usize) -> usize {
        self.elems[i].nodes.len()
    }
    fn populate_element_nodes(&self, nodes: &mut [usize], i: usize) {
        nodes.copy_from_slice(&self.elems[i].nodes)
    }
}

impl<D: SmallDim> FiniteElementSpace<f64> for MixedSpace<D>
where
    DefaultAllocator: BiDimAllocator<f64, D, D>,
{
    type GeometryDim = D;
    type ReferenceDim = D;

    fn populate_element_basis(&self, i: usize, basis: &mut [f64], xi: &OPoint<f64, D>) {
        basis.copy_from_slice(&self.elems[i].basis(xi.coords.as_slice()))
    }
    fn populate_element_gradients(&self, i: usize, mut gradients: MatrixViewMut<f64, D, Dyn>, xi: &OPoint<f64, D>) {
        let g = self.elems[i].dynamic.gradients(xi.coords.as_slice());
        assert_eq!(g.ncols(), gradients.ncols());
        for a in 0..g.nrows() {
            for b in 0..g.ncols() {
                gradients[(a, b)] = g[(a, b)];
            }
        }
    }
    fn element_reference_jacobian(&self, i: usize, xi: &OPoint<f64, D>) -> OMatrix<f64, D, D> {
        let j = self.elems[i].kind.jacobian(&self.elems[i].corners, xi.coords.as_slice());
        OMatrix::from_fn_generic(D::name(), D::name(), |a, b| j[(a, b)])
    }
    fn map_element_reference_coords(&self, i: usize, xi: &OPoint<f64, D>) -> OPoint<f64, D> {
        opoint(&self.elems[i].map(xi.coords.as_slice()))
    }
    fn diameter(&self, i: usize) -> f64 {
        diameter(&self.elems[i].corners)
    }
}

impl<D: SmallDim> FindClosestElement<f64> for MixedSpace<D>
where
    DefaultAllocator: BiDimAllocator<f64, D, D> + Allocator<f64, D>,
{
    fn find_closest_element_and_reference_coords(&self, point: &OPoint<f64, D>) -> Option<(usize, OPoint<f64, D>)> {
        if self.elems.is_empty() {
            return None;
        }
        let q = self.located.iter().find(|q| q.0 == point.coords.as_slice()).expect("a query the harness knows the answer to");
        Some((q.1, opoint(&q.2)))
    }
}
