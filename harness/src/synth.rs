//! Synthetic element collections with small integer data (so that sums are exact in any order).
use crate::sparse_util::sum_rows;
use crate::Case;
use eyre::eyre;
use fenris::assembly::local::{
    ElementConnectivityAssembler, ElementMatrixAssembler, ElementScalarAssembler, ElementVectorAssembler,
};
use fenris::nalgebra::{DMatrix, DMatrixViewMut, DVector, DVectorViewMut};
use fenris::space::FiniteElementConnectivity;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Debug)]
pub struct IntElements {
    pub sdim: usize,
    pub num_nodes: usize,
    pub nodes: Vec<Vec<usize>>,
    pub salt: i64,
    /// Factor of all values
    pub unit: f64,
    pub fail_at: Option<usize>,
    pub calls: Vec<AtomicU32>,
}

impl Clone for IntElements {
    fn clone(&self) -> Self {
        Self::new(self.sdim, self.num_nodes, self.nodes.clone(), self.salt, self.fail_at, self.unit)
    }
}

fn val(a: i64, b: i64, c: i64, salt: i64) -> f64 {
    let mut h = (a.wrapping_mul(7919)) ^ (b.wrapping_mul(104_729)) ^ (c.wrapping_mul(1_299_709)) ^ salt.wrapping_mul(15_485_863);
    h = h.wrapping_mul(0x2545_F491_4F6C_DD1D);
    h ^= h >> 29;
    ((h.rem_euclid(19)) - 9) as f64
}

impl IntElements {
    pub fn new(sdim: usize, num_nodes: usize, nodes: Vec<Vec<usize>>, salt: i64, fail_at: Option<usize>, unit: f64) -> Self {
        let calls = (0..nodes.len()).map(|_| AtomicU32::new(0)).collect();
        Self { sdim, num_nodes, nodes, salt, unit, fail_at, calls }
    }

    /// `repeats`: allow repeated nodes inside of one element (only meaningful for vectors)
    pub fn generate(c: &mut Case, max_nodes: usize, max_elements: usize, max_arity: usize, repeats: bool) -> Self {
        let sdim = c.int(1, 4);
        Self::generate_with(c, sdim, max_nodes, max_elements, max_arity, repeats)
    }

    pub fn generate_with(c: &mut Case, sdim: usize, max_nodes: usize, max_elements: usize, max_arity: usize, repeats: bool) -> Self {
        let num_nodes = c.int(0, max_nodes);
        let num_elements = if num_nodes == 0 { c.int(0, 2) } else { c.int(0, max_elements) };
        let uniform = c.bool();
        let arity0 = c.int(0, max_arity.min(num_nodes));
        let local = c.bool();
        let nodes = (0..num_elements)
            .map(|_| {
                let k = if uniform { arity0 } else { c.int(0, max_arity.min(num_nodes)) };
                if repeats && num_nodes > 0 && c.chance(1, 8) {
                    c.vec(k, |c| c.int(0, num_nodes - 1))
                } else if local && num_nodes > 0 {
                    // band structure
                    let w = (k + 3).min(num_nodes);
                    let start = c.int(0, num_nodes - w);
                    c.distinct(k, w).into_iter().map(|i| start + i).collect()
                } else {
                    c.distinct(k, num_nodes)
                }
            })
            .collect();
        let salt = c.int(0, 1000) as i64;
        Self::new(sdim, num_nodes, nodes, salt, None, c.value_unit())
    }

    /// Large collections: many elements, elements with many nodes, nodes with many elements, high node numbers
    pub fn large(c: &mut Case) -> Self {
        let sdim = c.int(1, 3);
        let shape = c.int(0, 3);
        let ne = c.size(match shape { 0 => 4000, 1 => 4, 2 => 600, _ => 300 }).max(1);
        let arity = match shape { 1 => c.size(250).max(1), _ => c.int(1, 4) };
        let num_nodes = match shape {
            0 => (c.int(1, 2) * ne).max(arity),
            1 => arity + c.size(2 * arity),
            2 => 3 * ne + 4,
            _ => *c.pick(&[70_000, 140_000]),
        };
        let mut d = c.dice();
        let nodes: Vec<Vec<usize>> = (0..ne)
            .map(|e| match shape {
                0 => {
                    // neighbours in the numbering, as in meshes
                    let w = (4 * arity).min(num_nodes);
                    let start = (e * (num_nodes - w)) / ne;
                    d.distinct(arity, w).into_iter().map(|i| start + i).collect()
                }
                2 => {
                    let mut x = d.distinct(arity, num_nodes - 1).into_iter().map(|i| i + 1).collect::<Vec<_>>();
                    let k = d.int(0, x.len() - 1);
                    x[k] = 0;
                    x
                }
                _ => d.distinct(arity, num_nodes),
            })
            .collect();
        c.class(["many elements", "elements with many nodes", "nodes with many elements", "high node numbers"][shape]);
        c.note(|| format!("sdim {}, {} nodes, {} elements with {} nodes each: {:?} ..", sdim, num_nodes, ne, arity, &nodes[..ne.min(3)]));
        let salt = c.int(0, 1000) as i64;
        Self::new(sdim, num_nodes, nodes, salt, None, c.value_unit())
    }

    /// Row offsets, columns and values of the sum
    pub fn csr(&self) -> (Vec<usize>, Vec<usize>, Vec<f64>) {
        let mut rows: Vec<Vec<(usize, f64)>> = vec![vec![]; self.dim()];
        for e in 0..self.nodes.len() {
            let a = self.elem_matrix(e);
            for i in 0..a.nrows() {
                let row = &mut rows[self.dof(e, i)];
                row.extend((0..a.ncols()).map(|j| (self.dof(e, j), a[(i, j)])));
            }
        }
        sum_rows(rows)
    }

    pub fn dim(&self) -> usize {
        self.sdim * self.num_nodes
    }

    pub fn elem_matrix(&self, e: usize) -> DMatrix<f64> {
        let n = self.sdim * self.nodes[e].len();
        DMatrix::from_fn(n, n, |i, j| self.unit * val(e as i64, i as i64 + 1, j as i64 + 100, self.salt))
    }

    pub fn elem_vector(&self, e: usize) -> DVector<f64> {
        let n = self.sdim * self.nodes[e].len();
        DVector::from_fn(n, |i, _| self.unit * val(e as i64, i as i64 + 1, -7, self.salt))
    }

    pub fn elem_scalar(&self, e: usize) -> f64 {
        self.unit * val(e as i64, -3, -5, self.salt)
    }

    fn dof(&self, e: usize, local: usize) -> usize {
        self.sdim * self.nodes[e][local / self.sdim] + local % self.sdim
    }

    /// Dense scatter
    pub fn add_matrix(&self, m: &mut DMatrix<f64>) {
        for e in 0..self.nodes.len() {
            let a = self.elem_matrix(e);
            for i in 0..a.nrows() {
                for j in 0..a.ncols() {
                    m[(self.dof(e, i), self.dof(e, j))] += a[(i, j)];
                }
            }
        }
    }

    pub fn add_vector(&self, v: &mut DVector<f64>) {
        for e in 0..self.nodes.len() {
            let a = self.elem_vector(e);
            for i in 0..a.len() {
                v[self.dof(e, i)] += a[i];
            }
        }
    }

    pub fn scalar(&self) -> f64 {
        (0..self.nodes.len()).map(|e| self.elem_scalar(e)).sum()
    }

    /// `pattern[i][j]`
    pub fn pattern(&self) -> Vec<Vec<bool>> {
        let n = self.dim();
        let mut p = vec![vec![false; n]; n];
        for e in 0..self.nodes.len() {
            let k = self.sdim * self.nodes[e].len();
            for i in 0..k {
                for j in 0..k {
                    p[self.dof(e, i)][self.dof(e, j)] = true;
                }
            }
        }
        p
    }

    fn called(&self, e: usize) -> eyre::Result<()> {
        self.calls[e].fetch_add(1, Ordering::Relaxed);
        if self.fail_at == Some(e) {
            Err(eyre!("injected failure in element {}", e))
        } else {
            Ok(())
        }
    }

    pub fn take_calls(&self) -> Vec<u32> {
        self.calls.iter().map(|c| c.swap(0, Ordering::Relaxed)).collect()
    }
}

impl ElementConnectivityAssembler for IntElements {
    fn solution_dim(&self) -> usize {
        self.sdim
    }
    fn num_elements(&self) -> usize {
        self.nodes.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.nodes[e].len()
    }
    fn populate_element_nodes(&self, output: &mut [usize], e: usize) {
        output.copy_from_slice(&self.nodes[e])
    }
}

impl FiniteElementConnectivity for IntElements {
    fn num_elements(&self) -> usize {
        self.nodes.len()
    }
    fn num_nodes(&self) -> usize {
        self.num_nodes
    }
    fn element_node_count(&self, e: usize) -> usize {
        self.nodes[e].len()
    }
    fn populate_element_nodes(&self, output: &mut [usize], e: usize) {
        output.copy_from_slice(&self.nodes[e])
    }
}

impl ElementMatrixAssembler<f64> for IntElements {
    fn assemble_element_matrix_into(&self, e: usize, mut output: DMatrixViewMut<f64>) -> eyre::Result<()> {
        output.copy_from(&self.elem_matrix(e));
        self.called(e)
    }
}

impl ElementVectorAssembler<f64> for IntElements {
    fn assemble_element_vector_into(&self, e: usize, mut output: DVectorViewMut<f64>) -> eyre::Result<()> {
        output.copy_from(&self.elem_vector(e));
        self.called(e)
    }
}

impl ElementScalarAssembler<f64> for IntElements {
    fn assemble_element_scalar(&self, e: usize) -> eyre::Result<f64> {
        self.called(e)?;
        Ok(self.elem_scalar(e))
    }
}
