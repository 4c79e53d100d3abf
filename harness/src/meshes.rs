//! Random conforming meshes of all cell types, independent of the mesh generators of the library.
use crate::elems::*;
use crate::Case;
use fenris::connectivity::*;
use fenris::element::ElementConnectivity;
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::DefaultAllocator;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub struct GMesh {
    pub kind: Kind,
    pub verts: Vec<Vec<f64>>,
    pub cells: Vec<Vec<usize>>,
}

#[derive(Debug, Clone)]
pub struct MeshOpts {
    /// Largest number of grid cells in total
    pub max_cells: usize,
    /// Perturbation of the vertices in grid units
    pub distort: f64,
    /// Random cells are removed
    pub holes: bool,
    /// Vertices and cells in random order, cells with rotated local numbering
    pub shuffle: bool,
    /// Vertices no cell refers to
    pub unused: bool,
    /// No cells at all is possible
    pub empty: bool,
    /// Random affine transformation with this condition number (1: rotation and scaling); None: grid coordinates
    pub affine: Option<f64>,
    /// Scale range: powers of ten
    pub scale: f64,
    /// Different vertices at the same place, so that neighbouring cells do not share them
    pub cracks: bool,
}

impl Default for MeshOpts {
    fn default() -> Self {
        MeshOpts { max_cells: 12, distort: 0.15, holes: true, shuffle: true, unused: true, empty: false, affine: Some(3.0), scale: 1.0, cracks: true }
    }
}

/// All rotations of the local numbering of the corners that keep the orientation
pub fn rotations(kind: Kind) -> Vec<Vec<usize>> {
    match kind.linear() {
        Kind::Seg1 | Kind::Seg2 => vec![vec![0, 1]],
        Kind::Tri3 | Kind::Tri3d3 => (0..3).map(|s| (0..3).map(|i| (i + s) % 3).collect()).collect(),
        Kind::Quad4 => (0..4).map(|s| (0..4).map(|i| (i + s) % 4).collect()).collect(),
        Kind::Tet4 => {
            let mut out = vec![];
            for a in 0..4 {
                for b in 0..4 {
                    for c in 0..4 {
                        for d in 0..4 {
                            let p = vec![a, b, c, d];
                            let mut s = p.clone();
                            s.sort();
                            if s != [0, 1, 2, 3] {
                                continue;
                            }
                            let inversions = (0..4).flat_map(|i| (0..i).map(move |j| (j, i))).filter(|(j, i)| p[*j] > p[*i]).count();
                            if inversions % 2 == 0 {
                                out.push(p);
                            }
                        }
                    }
                }
            }
            out
        }
        _ => {
            let refs = Kind::Hex8.ref_nodes();
            let mut out = vec![];
            for perm in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
                let odd = perm == [0, 2, 1] || perm == [2, 1, 0] || perm == [1, 0, 2];
                for s in 0..8u32 {
                    if (s.count_ones() % 2 == 1) != odd {
                        continue;
                    }
                    let map = |x: &[f64]| -> Vec<f64> { (0..3).map(|k| x[perm[k]] * if s >> k & 1 == 1 { -1.0 } else { 1.0 }).collect() };
                    out.push(refs.iter().map(|r| refs.iter().position(|q| *q == map(r)).unwrap()).collect());
                }
            }
            assert_eq!(out.len(), 24);
            out
        }
    }
}

/// The corner cells of a grid with the given numbers of cells; vertices are grid points
fn grid(c: &mut Case, kind: Kind, n: &[usize]) -> (Vec<Vec<f64>>, Vec<Vec<usize>>) {
    let d = n.len();
    let mut verts = vec![];
    let mut cells = vec![];
    let strides: Vec<usize> = (0..d).map(|k| n[..k].iter().map(|m| m + 1).product()).collect();
    let total: usize = n.iter().map(|m| m + 1).product();
    for v in 0..total {
        verts.push((0..d).map(|k| (v / strides[k] % (n[k] + 1)) as f64).collect());
    }
    let ncells: usize = n.iter().product();
    let style = c.int(0, 2);
    for q in 0..ncells {
        let mut r = q;
        let ijk: Vec<usize> = (0..d)
            .map(|k| {
                let i = r % n[k];
                r /= n[k];
                i
            })
            .collect();
        let at = |o: &[usize]| -> usize { (0..d).map(|k| (ijk[k] + o[k]) * strides[k]).sum() };
        match kind.linear() {
            Kind::Seg1 | Kind::Seg2 => cells.push(vec![at(&[0]), at(&[1])]),
            Kind::Quad4 => cells.push(vec![at(&[0, 0]), at(&[1, 0]), at(&[1, 1]), at(&[0, 1])]),
            Kind::Tri3 | Kind::Tri3d3 => {
                let (a, b, e, f) = (at(&[0, 0]), at(&[1, 0]), at(&[1, 1]), at(&[0, 1]));
                let diag = match style {
                    0 => false,
                    1 => (ijk[0] + ijk[1]) % 2 == 1,
                    _ => c.bool(),
                };
                if diag {
                    cells.push(vec![a, b, f]);
                    cells.push(vec![b, e, f]);
                } else {
                    cells.push(vec![a, b, e]);
                    cells.push(vec![a, e, f]);
                }
            }
            Kind::Hex8 => cells.push(Kind::Hex8.ref_nodes().iter().map(|x| at(&[(x[0] > 0.0) as usize, (x[1] > 0.0) as usize, (x[2] > 0.0) as usize])).collect()),
            Kind::Tet4 => {
                if style == 0 {
                    // five tetrahedra, mirrored in every other cell
                    let m = ijk.iter().sum::<usize>() % 2;
                    let p = |x: usize, y: usize, z: usize| if m == 0 { at(&[x, y, z]) } else { at(&[1 - x, y, z]) };
                    for mut t in [
                        vec![p(0, 0, 0), p(1, 0, 0), p(0, 1, 0), p(0, 0, 1)],
                        vec![p(1, 1, 0), p(0, 1, 0), p(1, 0, 0), p(1, 1, 1)],
                        vec![p(1, 0, 1), p(0, 0, 1), p(1, 1, 1), p(1, 0, 0)],
                        vec![p(0, 1, 1), p(1, 1, 1), p(0, 0, 1), p(0, 1, 0)],
                        vec![p(1, 0, 0), p(0, 1, 0), p(0, 0, 1), p(1, 1, 1)],
                    ] {
                        if det(&verts, &t) < 0.0 {
                            t.swap(2, 3);
                        }
                        cells.push(t);
                    }
                } else {
                    for perm in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
                        let mut o = [0; 3];
                        let mut t = vec![at(&o)];
                        for k in perm {
                            o[k] = 1;
                            t.push(at(&o));
                        }
                        if det(&verts, &t) < 0.0 {
                            t.swap(2, 3);
                        }
                        cells.push(t);
                    }
                }
            }
            other => panic!("no grid of {:?}", other),
        }
    }
    (verts, cells)
}

fn det(verts: &[Vec<f64>], cell: &[usize]) -> f64 {
    let d = verts[cell[0]].len();
    let m = fenris::nalgebra::DMatrix::from_fn(d, d, |i, j| verts[cell[j + 1]][i] - verts[cell[0]][i]);
    m.determinant()
}

/// Smallest Jacobian determinant over the corners, over all cells (square kinds)
pub fn min_det(kind: Kind, verts: &[Vec<f64>], cells: &[Vec<usize>]) -> f64 {
    let lin = kind.linear();
    let refs = lin.ref_nodes();
    let mut m = f64::INFINITY;
    for cell in cells {
        let corners: Vec<Vec<f64>> = cell[..refs.len()].iter().map(|i| verts[*i].clone()).collect();
        for r in &refs {
            m = m.min(lin.jacobian(&corners, r).determinant());
            if lin.affine() {
                break;
            }
        }
    }
    m
}

/// Random conforming mesh with positively oriented cells
pub fn gen_mesh(c: &mut Case, kind: Kind, o: &MeshOpts) -> GMesh {
    let lin = kind.linear();
    let d = lin.rdim();
    let max_cells = if c.boost > 0 { 1001 + c.size(c.boost) } else { o.max_cells };
    let per = match lin {
        Kind::Tri3 | Kind::Tri3d3 => 2,
        Kind::Tet4 => 6,
        _ => 1,
    };
    let mut n = vec![];
    let mut budget = (max_cells / per).max(1);
    for _ in 0..d {
        let m = c.int(1, budget.min(if max_cells > 1000 { 300 } else if max_cells > 60 { 10 } else { 4 }).max(1));
        n.push(m);
        budget /= m;
    }
    let (mut verts, mut cells) = grid(c, lin, &n);
    if o.holes && c.chance(1, 3) {
        let keep: Vec<bool> = cells.iter().map(|_| c.chance(2, 3)).collect();
        let mut k = keep.iter();
        let old = cells.clone();
        cells.retain(|_| *k.next().unwrap());
        if cells.is_empty() && !o.empty {
            cells = old;
        }
    }
    if o.empty && c.chance(1, 12) {
        cells.clear();
    }
    // drop vertices without cells, except on purpose
    let mut used = vec![false; verts.len()];
    for v in cells.iter().flatten() {
        used[*v] = true;
    }
    let keep_unused = o.unused && c.chance(1, 4);
    if !keep_unused {
        let mut map = vec![usize::MAX; verts.len()];
        let mut next = 0;
        for i in 0..verts.len() {
            if used[i] {
                map[i] = next;
                next += 1;
            }
        }
        verts = verts.into_iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, v)| v).collect();
        cells.iter_mut().flatten().for_each(|v| *v = map[*v]);
    } else if c.bool() {
        let k = c.int(0, 3);
        for _ in 0..k {
            verts.push((0..d).map(|_| c.coord(5.0)).collect());
        }
    }
    if o.distort > 0.0 && c.chance(2, 3) {
        let before = verts.clone();
        distort_nodes(c, &mut verts, o.distort);
        if lin.rdim() > 1 && min_det(if lin == Kind::Tri3d3 { Kind::Tri3 } else { lin }, &verts, &cells) < 0.1 * min_det(if lin == Kind::Tri3d3 { Kind::Tri3 } else { lin }, &before, &cells) {
            verts = before;
        }
    }
    if lin.gdim() > d {
        let flat = c.bool();
        for v in &mut verts {
            v.push(if flat { 0.0 } else { c.f64(-1.0, 1.0) });
        }
    }
    let d = lin.gdim();
    if let Some(spread) = o.affine {
        let scale = c.length_scale(o.scale);
        let a = gen_affine(c, d, d, spread, true) * scale;
        let b: Vec<f64> = (0..d).map(|_| if c.bool() { 0.0 } else { scale * c.f64(-5.0, 5.0) }).collect();
        for v in &mut verts {
            let x = fenris::nalgebra::DMatrix::from_column_slice(d, 1, v);
            *v = (&a * x).iter().zip(&b).map(|(x, b)| x + b).collect();
        }
    }
    if o.cracks && !verts.is_empty() && c.chance(1, 8) {
        let k = c.int(1, 4);
        for _ in 0..k {
            let v = c.int(0, verts.len() - 1);
            let around: Vec<usize> = (0..cells.len()).filter(|i| cells[*i].contains(&v)).collect();
            let away: Vec<bool> = around.iter().map(|_| c.bool()).collect();
            if away.contains(&true) && away.contains(&false) {
                for (i, _) in around.iter().zip(&away).filter(|x| *x.1) {
                    cells[*i].iter_mut().filter(|w| **w == v).for_each(|w| *w = verts.len());
                }
                verts.push(verts[v].clone());
                c.class("cracks");
            }
        }
    }
    let mut m = GMesh { kind: lin, verts, cells };
    if o.shuffle && c.bool() {
        let rots = rotations(lin);
        for cell in &mut m.cells {
            let r = c.pick(&rots).clone();
            *cell = r.iter().map(|i| cell[*i]).collect();
        }
    }
    if kind != lin {
        m = m.raise(kind);
    }
    if o.shuffle && c.bool() {
        let p = c.permutation(m.verts.len());
        let mut verts = m.verts.clone();
        for (i, j) in p.iter().enumerate() {
            verts[*j] = m.verts[i].clone();
        }
        m.verts = verts;
        m.cells.iter_mut().flatten().for_each(|v| *v = p[*v]);
        let p = c.permutation(m.cells.len());
        m.cells = p.iter().map(|i| m.cells[*i].clone()).collect();
    }
    m
}

impl GMesh {
    pub fn dim(&self) -> usize {
        self.kind.gdim()
    }

    pub fn corners(&self, cell: usize) -> Vec<Vec<f64>> {
        self.cells[cell][..self.kind.num_corners()].iter().map(|i| self.verts[*i].clone()).collect()
    }

    /// The same mesh with nodes of a higher order: vertices first, then new nodes in order of appearance
    pub fn raise(&self, to: Kind) -> GMesh {
        assert_eq!(to.linear(), self.kind);
        let weights = to.node_weights();
        let mut verts = self.verts.clone();
        let mut ids: BTreeMap<Vec<(usize, i64)>, usize> = BTreeMap::new();
        let nc = self.kind.num_corners();
        let cells = self
            .cells
            .iter()
            .map(|cell| {
                weights
                    .iter()
                    .enumerate()
                    .map(|(i, w)| {
                        if i < nc {
                            return cell[i];
                        }
                        let mut key: Vec<(usize, i64)> = (0..nc).filter(|k| w[*k].abs() > 1e-9).map(|k| (cell[k], (w[k] * 5040.0).round() as i64)).collect();
                        key.sort();
                        *ids.entry(key).or_insert_with(|| {
                            let d = self.dim();
                            verts.push((0..d).map(|x| (0..nc).map(|k| w[k] * self.verts[cell[k]][x]).sum()).collect());
                            verts.len() - 1
                        })
                    })
                    .collect()
            })
            .collect();
        GMesh { kind: to, verts, cells }
    }

    /// Measure of the cells
    pub fn cell_measure(&self, cell: usize) -> f64 {
        measure(self.kind, &self.corners(cell))
    }

    pub fn to_mesh<C>(&self) -> Mesh<f64, C::GeometryDim, C>
    where
        C: ElementConnectivity<f64> + FromIndices,
        DefaultAllocator: Allocator<f64, C::GeometryDim>,
        DefaultAllocator: fenris::allocators::BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
    {
        Mesh::from_vertices_and_connectivity(self.verts.iter().map(|v| opoint(v)).collect(), self.cells.iter().map(|c| C::from_indices(c)).collect())
    }

    pub fn used(&self) -> Vec<bool> {
        let mut u = vec![false; self.verts.len()];
        for v in self.cells.iter().flatten() {
            u[*v] = true;
        }
        u
    }
}

/// The vertices and cells of a mesh of the library
pub fn from_mesh<C>(kind: Kind, mesh: &Mesh<f64, C::GeometryDim, C>) -> GMesh
where
    C: ElementConnectivity<f64> + Connectivity,
    DefaultAllocator: Allocator<f64, C::GeometryDim>,
    DefaultAllocator: fenris::allocators::BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    GMesh {
        kind,
        verts: mesh.vertices().iter().map(|v| v.iter().copied().collect()).collect(),
        cells: mesh.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect(),
    }
}

/// Exact measure (up to rounding) of an element with the given corners (area or volume, signed for square kinds)
pub fn measure(kind: Kind, corners: &[Vec<f64>]) -> f64 {
    let lin = kind.linear();
    if lin.affine() {
        let j = lin.jacobian(corners, &vec![0.0; lin.rdim()]);
        let vol = match lin.rdim() {
            1 => 2.0,
            2 => 2.0,
            _ => 4.0 / 3.0,
        };
        if j.is_square() {
            j.determinant() * vol
        } else {
            (j.transpose() * j).determinant().max(0.0).sqrt() * vol
        }
    } else {
        // two Gauss points per direction are exact for the determinant of a multilinear map (degree 2 per variable at most)
        let g = 1.0 / 3f64.sqrt();
        let d = lin.rdim();
        (0..1usize << d)
            .map(|m| {
                let xi: Vec<f64> = (0..d).map(|k| if m >> k & 1 == 1 { g } else { -g }).collect();
                lin.jacobian(corners, &xi).determinant()
            })
            .sum()
    }
}

/// Distance of a point to a segment, triangle or tetrahedron given by its vertices, by exhaustive search over its faces
pub fn dist_to_simplex(p: &[f64], v: &[Vec<f64>]) -> f64 {
    let k = v.len() - 1;
    let mut best = f64::INFINITY;
    // projection onto the affine hull: minimise |A t - b|
    if k > 0 {
        let d = p.len();
        let a = fenris::nalgebra::DMatrix::from_fn(d, k, |i, j| v[j + 1][i] - v[0][i]);
        let b = fenris::nalgebra::DVector::from_fn(d, |i, _| p[i] - v[0][i]);
        let qr = a.clone().qr();
        let rhs = qr.q().transpose() * &b;
        if let Some(t) = qr.r().solve_upper_triangular(&rhs) {
            if t.iter().all(|x| *x >= 0.0) && t.sum() <= 1.0 {
                best = (a * t - b).norm();
            }
        }
        for skip in 0..=k {
            let face: Vec<Vec<f64>> = (0..=k).filter(|i| *i != skip).map(|i| v[i].clone()).collect();
            best = best.min(dist_to_simplex(p, &face));
        }
        best
    } else {
        dist(p, &v[0])
    }
}

/// Numbers below `limit` that are not small and often agree in their low or high bits
pub fn big_indices(c: &mut Case, n: usize, limit: usize) -> Vec<usize> {
    let mut out: Vec<usize> = vec![];
    let shift = *c.pick(&[0usize, 4, 8, 10, 12, 15, 16]);
    let mut next = limit / 2;
    for _ in 0..n {
        let mut i = match c.int(0, 3) {
            0 => (c.int(0, limit >> shift) << shift) % limit,
            1 => ((c.int(0, limit >> shift) << shift) + c.int(0, 3)) % limit,
            2 if !out.is_empty() => {
                let k = *c.pick(&out);
                (k ^ (1 << c.int(0, 17))) % limit
            }
            _ => c.int(0, limit - 1),
        };
        while out.contains(&i) {
            next += 1;
            i = next % limit;
        }
        out.push(i);
    }
    out
}

/// The same mesh among many unused vertices, with high vertex numbers
pub fn spread(c: &mut Case, g: &GMesh) -> GMesh {
    let used = g.used();
    let n = used.iter().filter(|u| **u).count();
    let limit = n + *c.pick(&[300, 70_000, 140_000]);
    let to = big_indices(c, n, limit);
    let far = 16.0 * g.verts.iter().flatten().fold(1.0f64, |m, x| m.max(x.abs()));
    let mut verts: Vec<Vec<f64>> = (0..limit).map(|i| (0..g.dim()).map(|k| if k == 0 { far + i as f64 } else { far }).collect()).collect();
    let mut map = vec![usize::MAX; g.verts.len()];
    let mut next = to.iter();
    for i in 0..g.verts.len() {
        if used[i] {
            map[i] = *next.next().unwrap();
            verts[map[i]] = g.verts[i].clone();
        }
    }
    GMesh { kind: g.kind, verts, cells: g.cells.iter().map(|x| x.iter().map(|i| map[*i]).collect()).collect() }
}
