//! C07: homogeneous Dirichlet conditions.
use fenris::assembly::global::*;
use fenris::nalgebra::{DMatrix, DVector, DVectorViewMut, U1, U2, U3};
use nalgebra_sparse::pattern::SparsityPattern;
use nalgebra_sparse::CsrMatrix;
use pbt::sparse_util::{csr_to_dense, sum_rows};
use pbt::*;

type M = DMatrix<f64>;

struct Setup {
    d: usize,
    n: usize,
    nodes: Vec<usize>,
    constrained: Vec<bool>,
    pattern: Vec<Vec<bool>>,
    matrix: M,
}

fn gen(c: &mut Case, spd: bool) -> Setup {
    let d = c.int(1, 3);
    let num_nodes = c.int(1, 6);
    let n = d * num_nodes;
    let k = c.int(0, num_nodes);
    let mut nodes = c.distinct(k, num_nodes);
    if c.chance(1, 4) && k > 0 {
        let r = *c.pick(&nodes);
        nodes.push(r);
    }
    let mut constrained = vec![false; n];
    for node in &nodes {
        for i in 0..d {
            constrained[d * node + i] = true;
        }
    }
    // structurally symmetric pattern
    let density = c.int(1, 4) as u64;
    let mut pattern = vec![vec![false; n]; n];
    let full_diag = c.chance(3, 4) || spd;
    for i in 0..n {
        pattern[i][i] = full_diag || constrained[i] || c.bool();
        for j in 0..i {
            let p = c.chance(density, 4);
            pattern[i][j] = p;
            pattern[j][i] = p;
        }
    }
    let symmetric = spd || c.bool();
    let mut matrix = M::zeros(n, n);
    let diag_kind = c.int(0, 3);
    for i in 0..n {
        for j in 0..=i {
            if pattern[i][j] {
                if i == j {
                    matrix[(i, i)] = match diag_kind {
                        0 => c.sint(-8, 8) as f64,
                        1 => c.int(1, 9) as f64,
                        2 => 0.0,
                        _ => if c.bool() { 0.0 } else { c.sint(-8, 8) as f64 },
                    };
                } else {
                    matrix[(i, j)] = c.sint(-8, 8) as f64;
                    matrix[(j, i)] = if symmetric { matrix[(i, j)] } else { c.sint(-8, 8) as f64 };
                }
            }
        }
    }
    if spd {
        for i in 0..n {
            let s: f64 = (0..n).filter(|j| *j != i).map(|j| matrix[(i, j)].abs()).sum();
            matrix[(i, i)] = s + 1.0 + c.int(0, 3) as f64;
        }
    }
    matrix *= c.value_unit();
    if !spd && c.chance(1, 8) {
        // entries that are to be eliminated need not be finite
        let (i, j) = (c.int(0, n - 1), c.int(0, n - 1));
        if i != j && pattern[i][j] && (constrained[i] || constrained[j]) {
            matrix[(i, j)] = *c.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            c.class("entry that is not finite");
        }
    }
    c.note(|| format!("d = {}, nodes {:?}, matrix {}", d, nodes, matrix));
    c.class_if((0..n).all(|i| matrix[(i, i)] == 0.0), "zero diagonal");
    c.class_if(!symmetric, "unsymmetric values");
    c.class_if(nodes.len() > k, "repeated node");
    let some_free = constrained.iter().any(|x| !x);
    let coupled = (0..n).any(|i| (0..n).any(|j| constrained[i] && !constrained[j] && pattern[i][j]));
    c.nontrivial_if(k > 0 && some_free && coupled);
    Setup { d, n, nodes, constrained, pattern, matrix }
}

fn to_csr(s: &Setup) -> CsrMatrix<f64> {
    let mut offsets = vec![0];
    let mut idx = vec![];
    let mut vals = vec![];
    for i in 0..s.n {
        for j in 0..s.n {
            if s.pattern[i][j] {
                idx.push(j);
                vals.push(s.matrix[(i, j)]);
            }
        }
        offsets.push(idx.len());
    }
    let p = SparsityPattern::try_from_offsets_and_indices(s.n, s.n, offsets, idx).unwrap();
    CsrMatrix::try_from_pattern_and_values(p, vals).unwrap()
}

/// Returns the scale
fn check(s: &Setup, m: &M, what: &str) -> Result<Option<f64>, Stop> {
    let mut scale = None;
    for i in 0..s.n {
        for j in 0..s.n {
            let v = m[(i, j)];
            if s.constrained[i] || s.constrained[j] {
                if i == j {
                    ensure!(v > 0.0 && v.is_finite(), "{}: diagonal entry {} of a constrained degree of freedom is {}", what, i, v);
                    ensure!(*scale.get_or_insert(v) == v, "{}: different scales {} and {}", what, scale.unwrap(), v);
                } else {
                    ensure!(v == 0.0, "{}: entry ({}, {}) coupled to a constrained degree of freedom is {}", what, i, j, v);
                }
            } else {
                ensure!(v == s.matrix[(i, j)], "{}: entry ({}, {}) changed from {} to {}", what, i, j, s.matrix[(i, j)], v);
            }
        }
    }
    Ok(scale)
}

fn dense(s: &Setup, nodes: &[usize]) -> M {
    let mut m = s.matrix.clone();
    match s.d {
        1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(&mut m, nodes),
        2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(&mut m, nodes),
        _ => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(&mut m, nodes),
    }
    m
}

fn eliminate(c: &mut Case) -> Res {
    let s = gen(c, false);
    let order = c.permutation(s.nodes.len());
    let shuffled: Vec<usize> = order.iter().map(|i| s.nodes[*i]).collect();
    let a = to_csr(&s);
    let mut b = a.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut b, &s.nodes, s.d);
    ensure!(b.pattern() == a.pattern(), "the sparsity pattern changed");
    check(&s, &csr_to_dense(&b)?, "sparse")?;
    let mut b2 = a.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut b2, &shuffled, s.d);
    ensure!(b == b2, "sparse: the order of the nodes matters");
    let m = dense(&s, &s.nodes);
    check(&s, &m, "dense")?;
    ensure!(m == dense(&s, &shuffled), "dense: the order of the nodes matters");
    Ok(())
}

fn rhs(c: &mut Case) -> Res {
    let d = c.int(1, 3);
    let num_nodes = c.int(1, 8);
    let k = c.int(0, num_nodes);
    let mut nodes = c.distinct(k, num_nodes);
    if c.chance(1, 4) && k > 0 {
        let r = *c.pick(&nodes);
        nodes.push(r);
    }
    c.nontrivial_if(k > 0 && k < num_nodes);
    c.note(|| format!("d = {}, nodes {:?} of {}", d, nodes, num_nodes));
    let unit = c.value_unit();
    let mut v = DVector::from_fn(d * num_nodes, |i, _| unit * (1.0 + i as f64));
    if k > 0 && c.chance(1, 8) {
        v[d * nodes[0]] = *c.pick(&[f64::NAN, f64::INFINITY]);
    }
    let mut w = v.clone();
    apply_homogeneous_dirichlet_bc_rhs(DVectorViewMut::from(&mut w), &nodes, d);
    for i in 0..v.len() {
        let exp = if nodes.contains(&(i / d)) { 0.0 } else { v[i] };
        ensure_eq!(w[i], exp, "entry {} of the right-hand side", i);
    }
    Ok(())
}

fn positive_definite(c: &mut Case) -> Res {
    let s = gen(c, true);
    let f = DVector::from_fn(s.n, |_, _| c.sint(-9, 9) as f64);
    let mut g = f.clone();
    apply_homogeneous_dirichlet_bc_rhs(&mut g, &s.nodes, s.d);
    let mut a = to_csr(&s);
    apply_homogeneous_dirichlet_bc_csr(&mut a, &s.nodes, s.d);
    for (what, m) in [("sparse", csr_to_dense(&a)?), ("dense", dense(&s, &s.nodes))] {
        ensure!(m == m.transpose(), "{}: constrained matrix is not symmetric", what);
        let chol = match m.clone().cholesky() {
            Some(chol) => chol,
            None => fail!("{}: constrained matrix is not positive definite", what),
        };
        let u = chol.solve(&g);
        let r = &s.matrix * &u - &f;
        for i in 0..s.n {
            if s.constrained[i] {
                ensure!(u[i] == 0.0, "{}: solution is {} at constrained entry {}", what, u[i], i);
            } else {
                ensure!(r[i].abs() <= 1e-9, "{}: equation {} is violated by {:e}", what, i, r[i]);
            }
        }
    }
    Ok(())
}

/// Thousands of nodes, rows with many entries
fn huge(c: &mut Case) -> Res {
    let d = c.int(1, 3);
    let num_nodes = c.size(3000).max(1);
    let n = d * num_nodes;
    let k = if c.bool() { c.size(num_nodes) } else { num_nodes - c.size(num_nodes) };
    let degree = c.int(0, 4);
    let hubs = if c.bool() { 0 } else { c.int(1, 3).min(num_nodes) };
    let diag = c.int(0, 2);
    c.note(|| format!("{} nodes with {} degrees of freedom, {} of them constrained, {} neighbours, {} hubs", num_nodes, d, k, degree, hubs));
    let unit = c.value_unit();
    let mut dice = c.dice();
    let nodes = dice.distinct(k, num_nodes);
    let mut constrained = vec![false; n];
    for node in &nodes {
        for i in 0..d {
            constrained[d * node + i] = true;
        }
    }
    let mut rows: Vec<Vec<(usize, f64)>> = vec![vec![]; n];
    let mut couple = |dice: &mut Dice, a: usize, b: usize| {
        for i in 0..d {
            for j in 0..d {
                let (i, j) = (d * a + i, d * b + j);
                if i != j {
                    rows[i].push((j, unit * dice.sint(-8, 8) as f64));
                    rows[j].push((i, unit * dice.sint(-8, 8) as f64));
                } else {
                    rows[i].push((i, unit * match diag { 0 => 0.0, 1 => 5.0, _ => dice.sint(-8, 8) as f64 }));
                }
            }
        }
    };
    for a in 0..num_nodes {
        couple(&mut dice, a, a);
        for _ in 0..degree {
            let b = dice.int(0, num_nodes - 1);
            couple(&mut dice, a, b);
        }
        for h in 0..hubs {
            couple(&mut dice, a, h);
        }
    }
    let (offsets, cols, vals) = sum_rows(rows);
    let a = CsrMatrix::try_from_csr_data(n, n, offsets, cols, vals).unwrap();
    c.nontrivial_if(num_nodes > 64 && k > 0);
    c.class_if(k > 256, "> 256 constrained nodes");
    c.class_if(a.row_iter().any(|r| r.nnz() > 256), "row with > 256 entries");
    let mut b = a.clone();
    apply_homogeneous_dirichlet_bc_csr(&mut b, &nodes, d);
    ensure!(b.pattern() == a.pattern(), "the sparsity pattern changed");
    let mut scale = None;
    for (i, j, v) in b.triplet_iter() {
        if constrained[i] || constrained[j] {
            if i == j {
                ensure!(*v > 0.0 && v.is_finite(), "diagonal entry {} of a constrained degree of freedom is {}", i, v);
                ensure!(*scale.get_or_insert(*v) == *v, "different scales {} and {}", scale.unwrap(), v);
            } else {
                ensure!(*v == 0.0, "entry ({}, {}) coupled to a constrained degree of freedom is {}", i, j, v);
            }
        }
    }
    for ((i, j, v), (_, _, w)) in b.triplet_iter().zip(a.triplet_iter()) {
        ensure!(constrained[i] || constrained[j] || v == w, "entry ({}, {}) changed from {} to {}", i, j, w, v);
    }
    let mut f = DVector::from_fn(n, |i, _| 1.0 + i as f64);
    apply_homogeneous_dirichlet_bc_rhs(DVectorViewMut::from(&mut f), &nodes, d);
    for i in 0..n {
        ensure_eq!(f[i], if constrained[i] { 0.0 } else { 1.0 + i as f64 }, "entry {} of the right-hand side", i);
    }
    if n <= 400 {
        let m = csr_to_dense(&a)?;
        let mut e = m.clone();
        match d {
            1 => apply_homogeneous_dirichlet_bc_matrix::<f64, U1>(&mut e, &nodes),
            2 => apply_homogeneous_dirichlet_bc_matrix::<f64, U2>(&mut e, &nodes),
            _ => apply_homogeneous_dirichlet_bc_matrix::<f64, U3>(&mut e, &nodes),
        }
        let mut scale = None;
        for i in 0..n {
            for j in 0..n {
                let v = e[(i, j)];
                if !constrained[i] && !constrained[j] {
                    ensure!(v == m[(i, j)], "dense: entry ({}, {}) changed from {} to {}", i, j, m[(i, j)], v);
                } else if i == j {
                    ensure!(v > 0.0 && *scale.get_or_insert(v) == v, "dense: diagonal entry {} is {}", i, v);
                } else {
                    ensure!(v == 0.0, "dense: entry ({}, {}) is {}", i, j, v);
                }
            }
        }
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C07",
        rule: "matrices of integers times a power of two (symmetric or not, also with zero diagonal) with structurally symmetric partial or full pattern, 1..6 nodes, solution dimension 1..3, node lists in any order with repetitions; diagonally dominant matrices for the definiteness claim. Non-trivial: some nodes constrained, some free, and an entry that couples them. huge: up to 3000 nodes; non-trivial: more than 64, some constrained.",
        assumptions: &["the pattern of sparse matrices is structurally symmetric and stores the diagonal entries of constrained degrees of freedom (as assembled patterns do)"],
        clauses: vec![
            clause("eliminate", 2_200_000, 22_000_000, eliminate),
            clause("rhs", 750_000, 7_500_000, rhs),
            clause("positive_definite", 900_000, 9_000_000, positive_definite),
            clause("huge", 25_000, 250_000, huge),
        ],
    })
}
