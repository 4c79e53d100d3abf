use crate::*;
use fenris::nalgebra::DMatrix;
use fenris::nalgebra_sparse::{pattern::SparsityPattern, CsrMatrix};

/// Dense copy that does not rely on anything but the raw arrays (which are validated).
pub fn csr_to_dense(m: &CsrMatrix<f64>) -> Result<DMatrix<f64>, Stop> {
    let (offsets, cols, values) = m.csr_data();
    if offsets.len() != m.nrows() + 1 || offsets[0] != 0 || *offsets.last().unwrap() != values.len() || cols.len() != values.len() {
        fail!("invalid CSR arrays: offsets {:?}, {} columns, {} values", offsets, cols.len(), values.len());
    }
    let mut d = DMatrix::zeros(m.nrows(), m.ncols());
    for i in 0..m.nrows() {
        if offsets[i] > offsets[i + 1] {
            fail!("decreasing row offsets at row {}: {:?}", i, offsets);
        }
        for k in offsets[i]..offsets[i + 1] {
            if cols[k] >= m.ncols() {
                fail!("column {} out of bounds in row {}", cols[k], i);
            }
            if k > offsets[i] && cols[k] <= cols[k - 1] {
                fail!("columns of row {} not strictly increasing: {:?}", i, &cols[offsets[i]..offsets[i + 1]]);
            }
            d[(i, cols[k])] = values[k];
        }
    }
    Ok(d)
}

/// Checks that the pattern is valid and contains exactly the given entries.
pub fn check_pattern(p: &SparsityPattern, expected: &[Vec<bool>]) -> Res {
    ensure_eq!(p.major_dim(), expected.len(), "number of rows");
    ensure_eq!(p.minor_dim(), expected.len(), "number of columns");
    let offsets = p.major_offsets();
    let idx = p.minor_indices();
    ensure_eq!(offsets.len(), expected.len() + 1, "number of offsets");
    ensure_eq!(*offsets.last().unwrap(), idx.len(), "last offset");
    for (i, row) in expected.iter().enumerate() {
        let exp: Vec<usize> = row.iter().enumerate().filter(|(_, b)| **b).map(|(j, _)| j).collect();
        ensure!(offsets[i] <= offsets[i + 1], "offsets decrease");
        ensure_eq!(&idx[offsets[i]..offsets[i + 1]], &exp[..], "columns of row {}", i);
    }
    Ok(())
}

pub fn csr_from_pattern(p: &[Vec<bool>], values: impl Fn(usize, usize) -> f64) -> CsrMatrix<f64> {
    let mut offsets = vec![0];
    let mut cols = vec![];
    let mut vals = vec![];
    for (i, row) in p.iter().enumerate() {
        for (j, b) in row.iter().enumerate() {
            if *b {
                cols.push(j);
                vals.push(values(i, j));
            }
        }
        offsets.push(cols.len());
    }
    let n = p.len();
    CsrMatrix::try_from_csr_data(n, n, offsets, cols, vals).unwrap()
}

/// The matrix has exactly these arrays
pub fn same_csr(m: &CsrMatrix<f64>, expected: &(Vec<usize>, Vec<usize>, Vec<f64>)) -> Res {
    let n = expected.0.len() - 1;
    ensure!(m.nrows() == n && m.ncols() == n, "{} x {} matrix, expected {} x {}", m.nrows(), m.ncols(), n, n);
    let (o, k, v) = m.csr_data();
    if o != &expected.0[..] || k != &expected.1[..] {
        for i in 0..n {
            let (a, b) = (&k[o[i]..o[i + 1]], &expected.1[expected.0[i]..expected.0[i + 1]]);
            ensure!(a == b, "row {}: columns {:?}, expected {:?}", i, a, b);
        }
        fail!("different patterns");
    }
    for i in 0..n {
        for j in o[i]..o[i + 1] {
            ensure!(v[j] == expected.2[j], "entry ({}, {}) is {}, expected {}", i, k[j], v[j], expected.2[j]);
        }
    }
    Ok(())
}

/// Row offsets, columns and values of the matrix whose rows have these terms
pub fn sum_rows(mut rows: Vec<Vec<(usize, f64)>>) -> (Vec<usize>, Vec<usize>, Vec<f64>) {
    let (mut offsets, mut cols, mut vals) = (vec![0], vec![], vec![]);
    for row in &mut rows {
        row.sort_by_key(|x| x.0);
        let start = cols.len();
        for (j, x) in row {
            if cols.len() > start && cols.last() == Some(j) {
                *vals.last_mut().unwrap() += *x;
            } else {
                cols.push(*j);
                vals.push(*x);
            }
        }
        offsets.push(cols.len());
    }
    (offsets, cols, vals)
}
