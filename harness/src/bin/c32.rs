//! C32: matrix utilities.
use fenris::connectivity::*;
use fenris::mesh::Mesh;
use fenris::nalgebra::*;
use fenris::util::*;
use nalgebra_sparse::{CooMatrix, CsrMatrix};
use pbt::*;

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new(tag: &str) -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicUsize = AtomicUsize::new(0);
        Scratch(std::env::temp_dir().join(format!("fenris-pbt-{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst))))
    }
    fn read(&self) -> String {
        std::fs::read_to_string(&self.0).unwrap_or_default()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn gen_rotation3(c: &mut Case) -> Matrix3<f64> {
    let [a, b, d] = [0; 3].map(|_| c.f64(-3.2, 3.2));
    Rotation3::from_euler_angles(a, b, d).into_inner()
}

fn gen_rotation2(c: &mut Case) -> Matrix2<f64> {
    let a = c.f64(-4.0, 4.0);
    Rotation2::new(a).into_inner()
}

/// Singular values with ties and zeros now and then
fn gen_sigma<const D: usize>(c: &mut Case, lo: f64) -> [f64; D] {
    let scale = c.magnitude(-6.0, 6.0);
    let mut s = [0.0; D];
    for i in 0..D {
        s[i] = if i > 0 && c.chance(1, 4) {
            s[i - 1]
        } else if lo == 0.0 && c.chance(1, 8) {
            0.0
        } else {
            scale * c.f64(if lo == 0.0 { 0.001 } else { lo }, 1.0)
        };
    }
    s
}

macro_rules! svd_case {
    ($c:expr, $d:literal, $m:ident, $rot:ident, $v:ident) => {{
        let u = $rot($c);
        let v = $rot($c);
        let mut s = gen_sigma::<$d>($c, 0.0);
        let flips = $c.int(0, $d);
        for i in 0..flips {
            s[i] = -s[i];
        }
        let a = if $c.chance(1, 8) {
            // small integers
            $m::from_fn(|_, _| $c.sint(-3, 3) as f64)
        } else {
            u * $m::from_diagonal(&$v::from(s)) * v.transpose()
        };
        $c.note_debug("matrix", &a);
        let (u, s, vt) = rotation_svd(&a);
        let scale = a.norm();
        // the special cases of the third-party library for small matrices lose half of the digits, sometimes more
        let id = $m::<f64>::identity();
        let tol = {
            let svd = a.svd(true, true);
            let (u, vt) = (svd.u.unwrap(), svd.v_t.unwrap());
            let error = (u * $m::from_diagonal(&svd.singular_values) * vt - a).norm() / scale.max(1e-300);
            1e-4 + 2.0 * (error + (u.transpose() * u - id).norm() + (vt.transpose() * vt - id).norm())
        };
        $c.class_if(tol > 1e-3, "third-party SVD inaccurate");
        $c.class_if(a.determinant() < 0.0, "negative determinant");
        $c.class_if(scale == 0.0, "zero");
        $c.nontrivial_if(scale > 0.0);
        ensure!((u.transpose() * u - id).norm() <= tol, "U is not orthogonal: {}", u);
        ensure!((vt.transpose() * vt - id).norm() <= tol, "V is not orthogonal: {}", vt);
        ensure!((u.determinant() - 1.0).abs() <= tol, "det U = {}", u.determinant());
        ensure!((vt.determinant() - 1.0).abs() <= tol, "det V = {}", vt.determinant());
        let back = u * $m::from_diagonal(&s) * vt;
        ensure!((back - a).norm() <= tol * scale, "U S V^T = {}", back);
        // at most the smallest singular value is negative, as R = U V^T is the closest rotation
        let mut by_size: Vec<f64> = s.iter().copied().collect();
        by_size.sort_by(|x, y| x.abs().partial_cmp(&y.abs()).unwrap());
        ensure!(by_size[1..].iter().all(|x| *x >= -tol * scale), "negative entries apart from the smallest: {}", s);
        Ok(())
    }};
}

fn svd(c: &mut Case) -> Res {
    if c.bool() {
        svd_case!(c, 2, Matrix2, gen_rotation2, Vector2)
    } else {
        svd_case!(c, 3, Matrix3, gen_rotation3, Vector3)
    }
}

/// Polar decomposition by iteration: the closest rotation
fn polar(c: &mut Case) -> Res {
    let u = gen_rotation3(c);
    let v = gen_rotation3(c);
    let scale = if c.chance(1, 4) { c.magnitude(-30.0, 30.0) } else { c.magnitude(-1.0, 1.0) };
    c.class_if(scale < 1e-3 || scale > 1e3, "very small or large");
    let s = [0; 3].map(|_| scale * c.f64(0.4, 1.6));
    let sig = Vector3::from(s);
    let f = u * Matrix3::from_diagonal(&sig) * v.transpose();
    let best = u * v.transpose();
    let angle = c.f64(0.0, 0.7);
    let axis = gen_rotation3(c).column(0).into_owned();
    let guess = UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(best)) * UnitQuaternion::from_axis_angle(&Unit::new_normalize(axis), angle);
    c.note_debug("F", &f);
    c.note_debug("closest rotation", &best);
    c.note_debug("guess", &guess);
    c.nontrivial_if(angle > 0.01);
    let q = apd(&f, &guess, 50, 1e-12);
    ensure!((q.as_ref().norm() - 1.0).abs() <= 1e-8, "not a unit quaternion: {}", q);
    let r = q.to_rotation_matrix().into_inner();
    let err = (r - best).norm();
    ensure!(err <= 1e-6, "returned {}, at a distance of {} from the closest rotation", r, err);
    // no steps: the guess
    let same = apd(&f, &guess, 0, 1e-12);
    ensure!((same.as_ref() - guess.as_ref()).norm() <= 1e-14, "without iterations: {}", same);
    Ok(())
}

fn gen_symmetric(c: &mut Case, n: usize) -> (DMatrix<f64>, Vec<f64>) {
    let scale = c.magnitude(-8.0, 8.0);
    let mut l: Vec<f64> = vec![];
    let style = c.int(0, 4);
    for i in 0..n {
        l.push(match style {
            0 => scale * c.f64(-1.0, 1.0),
            1 => scale * c.f64(0.01, 1.0),
            2 => -scale * c.f64(0.01, 1.0),
            3 if i > 0 && c.bool() => l[i - 1],
            _ => scale * c.sint(-3, 3) as f64,
        });
    }
    let mut m = DMatrix::from_diagonal(&DVector::from_vec(l.clone()));
    let reflections = c.int(0, 3);
    for _ in 0..reflections {
        let w = DVector::from_vec(c.vec(n, |c| c.f64(-1.0, 1.0)));
        let ww = w.dot(&w);
        if ww < 1e-3 {
            continue;
        }
        let h = DMatrix::identity(n, n) - (&w * w.transpose()) * (2.0 / ww);
        m = &h * m * &h;
    }
    let m = (&m + m.transpose()) * 0.5;
    l.sort_by(|a, b| a.partial_cmp(b).unwrap());
    (m, l)
}

fn spectrum(c: &mut Case) -> Res {
    let n = c.int(1, 6);
    let (m, l) = gen_symmetric(c, n);
    c.note_debug("matrix", &m);
    c.note_debug("eigenvalues", &l);
    let scale = l.iter().fold(0.0f64, |a, x| a.max(x.abs()));
    let tol = 1e-11 * scale;
    let (lo, hi) = (l[0], l[n - 1]);
    c.class_if(lo < 0.0 && hi > 0.0, "indefinite");
    c.class_if(hi < 0.0, "negative definite");
    c.nontrivial_if(n > 1 && lo != hi);
    let a = min_eigenvalue_symmetric(&m);
    ensure!((a - lo).abs() <= tol, "smallest eigenvalue {}, expected {}", a, lo);
    let (a, b) = min_max_symmetric_eigenvalues(&m);
    ensure!((a - lo).abs() <= tol && (b - hi).abs() <= tol, "extreme eigenvalues {} and {}, expected {} and {}", a, b, lo, hi);
    if n == 3 {
        let f = Matrix3::from_fn(|i, j| m[(i, j)]);
        let (a, b) = min_max_symmetric_eigenvalues(&f);
        ensure!((a - lo).abs() <= tol && (b - hi).abs() <= tol, "extreme eigenvalues (static size) {} and {}, expected {} and {}", a, b, lo, hi);
    }
    let abs_min = l.iter().fold(f64::INFINITY, |a, x| a.min(x.abs()));
    if abs_min > 1e-4 * scale {
        let k = condition_number_symmetric(&m);
        let want = scale / abs_min;
        ensure!((k - want).abs() <= 1e-6 * want, "condition number {}, expected {}", k, want);
    }
    Ok(())
}

fn products(c: &mut Case) -> Res {
    let scale = c.magnitude(-10.0, 10.0);
    let x = Vector3::from([0; 3].map(|_| scale * c.f64(-1.0, 1.0)));
    let y = Vector3::from([0; 3].map(|_| c.f64(-1.0, 1.0)));
    c.note_debug("x, y", &(x, y));
    let m = cross_product_matrix(&x);
    let want = x.cross(&y);
    ensure!((m * y - want).norm() <= 1e-14 * x.norm() * y.norm(), "x times y = {}, expected {}", m * y, want);
    ensure!(m == -m.transpose(), "not skew: {}", m);
    let a = Matrix3x2::from_fn(|_, _| c.f64(-2.0, 2.0));
    let d = diag_left_mul(&x, &a);
    for i in 0..3 {
        for j in 0..2 {
            ensure!((d[(i, j)] - x[i] * a[(i, j)]).abs() <= 1e-15 * scale, "entry {} {} of the product is {}, expected {}", i, j, d[(i, j)], x[i] * a[(i, j)]);
        }
    }
    // Complement of a unit vector
    let v = match c.int(0, 5) {
        0 => {
            let k = c.int(0, 2);
            let s = if c.bool() { 1.0 } else { -1.0 };
            let mut v = Vector3::zeros();
            v[k] = s;
            v
        }
        1 => Vector3::new(1e-9 * c.f64(-1.0, 1.0), 1e-9 * c.f64(-1.0, 1.0), if c.bool() { 1.0 } else { -1.0 }),
        2 => Vector3::new(c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), if c.bool() { 0.0 } else { -0.0 }),
        _ => Vector3::new(c.f64(-1.0, 1.0), c.f64(-1.0, 1.0), c.f64(-1.0, 1.0)),
    };
    if v.norm() < 1e-3 {
        discard!("no direction");
    }
    c.note_debug("v", &v);
    c.nontrivial();
    let u = UnitVector3::new_normalize(v);
    let [a, b] = compute_orthonormal_vectors_3d(&u);
    for (n, w) in [("first", &a), ("second", &b)] {
        ensure!((w.norm() - 1.0).abs() <= 1e-13, "the {} vector has length {}", n, w.norm());
        ensure!(w.dot(&u).abs() <= 1e-13, "the {} vector is not orthogonal to {:?}: {:?}", n, u, w);
    }
    ensure!(a.dot(&b).abs() <= 1e-13, "{:?} and {:?} are not orthogonal", a, b);
    ensure!((a.cross(&b) - u.into_inner()).norm() <= 1e-12, "{:?}, {:?} and {:?} are not right-handed", a, b, u);
    Ok(())
}

fn rows(text: &str) -> Vec<Vec<String>> {
    text.lines().map(|l| l.split(' ').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()).collect()
}

fn number(s: &str) -> f64 {
    s.parse().unwrap_or(f64::NAN)
}

/// The file as a dense matrix; entries of the same place are added
fn read_market(text: &str) -> Result<DMatrix<f64>, Stop> {
    let mut lines = rows(text).into_iter();
    let head = lines.next().unwrap_or_default().join(" ");
    ensure_eq!(head, "%%MatrixMarket matrix coordinate real general", "first line");
    let mut lines = lines.filter(|l| !l.is_empty() && !l[0].starts_with('%'));
    let size: Vec<usize> = lines.next().unwrap_or_default().iter().map(|w| w.parse().unwrap_or(usize::MAX)).collect();
    ensure!(size.len() == 3 && !size.contains(&usize::MAX), "sizes {:?}", size);
    let mut m = DMatrix::zeros(size[0], size[1]);
    let mut count = 0;
    for l in lines {
        count += 1;
        ensure_eq!(l.len(), 3, "number of entries in the line {:?}", l);
        let (Ok(i), Ok(j)) = (l[0].parse::<usize>(), l[1].parse::<usize>()) else { fail!("line {:?}", l) };
        ensure!(i >= 1 && i <= size[0] && j >= 1 && j <= size[1], "line {:?} in a matrix of size {:?}", l, size);
        m[(i - 1, j - 1)] += number(&l[2]);
    }
    ensure_eq!(count, size[2], "number of entries");
    Ok(m)
}

fn same(a: &DMatrix<f64>, b: &DMatrix<f64>) -> bool {
    a.shape() == b.shape() && a.iter().zip(b.iter()).all(|(x, y)| x == y)
}

fn dumps(c: &mut Case) -> Res {
    match c.int(0, 2) {
        0 => {
            let n = c.int(0, 5);
            let m = c.int(0, 5);
            let a = DMatrix::from_vec(n, m, c.vec(n * m, |c| {
                let k = c.magnitude(-12.0, 12.0);
                k * c.f64(-1.0, 1.0)
            }));
            c.note_debug("matrix", &a);
            c.class("dense");
            c.nontrivial_if(n > 0 && m > 0);
            let file = Scratch::new("dense");
            if let Err(e) = dump_matrix_to_file(&file.0, &a) {
                fail!("not written: {}", e)
            }
            let text = rows(&file.read());
            ensure_eq!(text.len(), n, "number of lines");
            for (i, r) in text.iter().enumerate() {
                let r: Vec<f64> = r.iter().map(|w| number(w)).collect();
                let want: Vec<f64> = a.row(i).iter().copied().collect();
                ensure!(r == want, "row {} is {:?}, expected {:?}", i, r, want);
            }
        }
        1 => {
            let n = c.int(0, 6);
            let m = c.int(0, 6);
            let mut coo = CooMatrix::new(n, m);
            let mut want = DMatrix::zeros(n, m);
            for i in 0..n {
                for j in 0..m {
                    if c.chance(1, 3) {
                        let k = c.magnitude(-30.0, 30.0);
                        let v = match c.int(0, 11) {
                            0 | 1 => 0.0,
                            2 => f64::from_bits(c.below(u64::MAX)),
                            3 => *c.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1 + 0.2, 1.0 / 3.0]),
                            _ => k * c.f64(-1.0, 1.0),
                        };
                        let v = if v.is_finite() { v } else { 0.25 };
                        coo.push(i, j, v);
                        want[(i, j)] = v;
                    }
                }
            }
            let a = CsrMatrix::from(&coo);
            c.note_debug("matrix", &want);
            c.class("sparse");
            c.nontrivial_if(a.nnz() > 1);
            let file = Scratch::new("csr");
            if let Err(e) = dump_csr_matrix_to_mm_file(&file.0, &a) {
                fail!("not written: {}", e)
            }
            let got = read_market(&file.read())?;
            ensure!(same(&got, &want), "the file has {}, expected {}", got, want);
        }
        _ => {
            let n = c.int(1, 8);
            let e = c.int(0, 6);
            let cells = c.vec(e, |c| [0; 3].map(|_| c.int(0, n - 1)));
            let points = c.vec(n, |c| Point2::new(c.grid(4, 2), c.grid(4, 2)));
            c.note_debug("nodes, cells", &(n, &cells));
            c.class("mesh");
            c.nontrivial_if(e > 1);
            let mesh: Mesh<f64, U2, _> = Mesh::from_vertices_and_connectivity(points, cells.iter().map(|v| Tri3d2Connectivity(*v)).collect());
            let (a, b) = (Scratch::new("nodes"), Scratch::new("elements"));
            if let Err(e) = dump_mesh_connectivity_matrices(&a.0, &b.0, &mesh) {
                fail!("not written: {}", e)
            }
            let mut nodes = DMatrix::zeros(n, n);
            let mut elements = DMatrix::zeros(e, n);
            for (k, cell) in cells.iter().enumerate() {
                for i in cell {
                    elements[(k, *i)] = 1.0;
                    for j in cell {
                        nodes[(*i, *j)] = 1.0;
                    }
                }
            }
            let got = read_market(&a.read())?;
            ensure!(got == nodes, "connections of nodes {}, expected {}", got, nodes);
            let got = read_market(&b.read())?;
            ensure_eq!(got.shape(), elements.shape(), "shape of the matrix of elements and nodes");
            ensure!(got.iter().zip(elements.iter()).all(|(x, y)| (*x != 0.0) == (*y != 0.0)), "nodes of the elements {}, expected {}", got, elements);
        }
    }
    Ok(())
}

/// The entries in a file, in the order of the file
fn entries(text: &str) -> Result<(Vec<usize>, Vec<(usize, usize, f64)>), Stop> {
    let mut lines = text.lines();
    ensure_eq!(lines.next().unwrap_or_default().trim(), "%%MatrixMarket matrix coordinate real general", "first line");
    let mut lines = lines.filter(|l| !l.trim().is_empty() && !l.starts_with('%')).map(|l| l.split_whitespace().collect::<Vec<_>>());
    let index = |w: &str| w.parse::<usize>().unwrap_or(usize::MAX);
    let size: Vec<usize> = lines.next().unwrap_or_default().into_iter().map(index).collect();
    ensure!(size.len() == 3, "sizes {:?}", size);
    let mut out = vec![];
    for l in lines {
        ensure!(l.len() == 3, "line {:?}", l);
        let (i, j) = (index(l[0]), index(l[1]));
        ensure!(i >= 1 && i <= size[0] && j >= 1 && j <= size[1], "line {:?} in a matrix of size {:?}", l, size);
        out.push((i - 1, j - 1, number(l[2])));
    }
    ensure_eq!(out.len(), size[2], "number of entries");
    Ok((size, out))
}

/// Large matrices and meshes
fn huge(c: &mut Case) -> Res {
    let how = c.int(0, 2);
    if how == 0 {
        let (n, m) = (c.size(200), c.size(200));
        let mut d = c.dice();
        let a = DMatrix::from_fn(n, m, |_, _| d.f64(-2.0, 2.0));
        c.note(|| format!("dense, {} x {}", n, m));
        c.class("dense");
        c.nontrivial_if(n * m > 1000);
        let file = Scratch::new("dense");
        if let Err(e) = dump_matrix_to_file(&file.0, &a) {
            fail!("not written: {}", e)
        }
        let text = rows(&file.read());
        ensure_eq!(text.len(), n, "number of lines");
        for (i, r) in text.iter().enumerate() {
            ensure!(r.iter().map(|w| number(w)).eq(a.row(i).iter().copied()), "row {} of {} has other numbers: {:?}", i, n, r);
        }
        return Ok(());
    }
    let (n, m) = (c.size(70_000).max(1), c.size(70_000).max(1));
    let count = c.size(30_000);
    let mut d = c.dice();
    if how == 1 {
        let mut want: Vec<(usize, usize, f64)> = (0..count).map(|_| (d.int(0, n - 1), d.int(0, m - 1), d.f64(-2.0, 2.0))).collect();
        want.sort_by_key(|e| (e.0, e.1));
        want.dedup_by_key(|e| (e.0, e.1));
        let mut coo = CooMatrix::new(n, m);
        for (i, j, v) in &want {
            coo.push(*i, *j, *v);
        }
        c.note(|| format!("sparse, {} x {} with {} entries", n, m, want.len()));
        c.class("sparse");
        c.nontrivial_if(want.len() > 1000);
        c.class_if(n > 1 << 16 || m > 1 << 16, "more than 65536 rows or columns");
        let file = Scratch::new("csr");
        if let Err(e) = dump_csr_matrix_to_mm_file(&file.0, &CsrMatrix::from(&coo)) {
            fail!("not written: {}", e)
        }
        let (size, mut got) = entries(&file.read())?;
        ensure_eq!((size[0], size[1]), (n, m), "size of the matrix");
        got.sort_by_key(|e| (e.0, e.1));
        ensure_eq!(got.len(), want.len(), "number of entries");
        for (a, b) in got.iter().zip(&want) {
            ensure!(a == b, "the file has the entry {:?}, expected {:?}", a, b);
        }
        return Ok(());
    }
    let cells: Vec<[usize; 3]> = (0..count).map(|_| [0; 3].map(|_| d.int(0, n - 1))).collect();
    let points: Vec<_> = (0..n).map(|i| Point2::new(i as f64, 0.0)).collect();
    c.note(|| format!("mesh, {} nodes, {} cells", n, count));
    c.class("mesh");
    c.nontrivial_if(count > 1000);
    c.class_if(n > 1 << 16, "more than 65536 nodes");
    let mesh: Mesh<f64, U2, _> = Mesh::from_vertices_and_connectivity(points, cells.iter().map(|v| Tri3d2Connectivity(*v)).collect());
    let (a, b) = (Scratch::new("nodes"), Scratch::new("elements"));
    if let Err(e) = dump_mesh_connectivity_matrices(&a.0, &b.0, &mesh) {
        fail!("not written: {}", e)
    }
    let sorted = |mut v: Vec<(usize, usize)>| {
        v.sort();
        v.dedup();
        v
    };
    let (size, got) = entries(&a.read())?;
    ensure_eq!((size[0], size[1]), (n, n), "size of the matrix of nodes");
    let got = sorted(got.iter().map(|e| (e.0, e.1)).collect());
    let want = sorted(cells.iter().flat_map(|v| v.iter().flat_map(move |i| v.iter().map(move |j| (*i, *j)))).collect());
    ensure_eq!(got.len(), want.len(), "number of connections of nodes");
    if let Some((x, y)) = got.iter().zip(&want).find(|(x, y)| x != y) {
        fail!("connection {:?} of nodes, expected {:?}", x, y);
    }
    let (size, got) = entries(&b.read())?;
    ensure_eq!((size[0], size[1]), (count, n), "size of the matrix of elements and nodes");
    let got = sorted(got.iter().filter(|e| e.2 != 0.0).map(|e| (e.0, e.1)).collect());
    let want = sorted(cells.iter().enumerate().flat_map(|(k, v)| v.iter().map(move |i| (k, *i))).collect());
    ensure_eq!(got.len(), want.len(), "number of nodes of elements");
    if let Some((x, y)) = got.iter().zip(&want).find(|(x, y)| x != y) {
        fail!("connection {:?} of element and node, expected {:?}", x, y);
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C32",
        rule: "nonzero matrices (svd), guesses away from the result (polar), several distinct eigenvalues (spectrum), every case (products), data that is not empty (dumps), more than 1000 entries or cells (huge)",
        assumptions: &[
            "polar: singular values within a factor of four, guesses within 0.7 radians, 50 iterations",
            "condition numbers up to 10^4",
        ],
        clauses: vec![
            clause("svd", 3_800_000, 38_000_000, svd),
            clause("polar", 300_000, 3_000_000, polar),
            clause("spectrum", 2_300_000, 23_000_000, spectrum),
            clause("products", 3_800_000, 38_000_000, products),
            clause("dumps", 190_000, 1_900_000, dumps),
            clause("huge", 5_000, 100_000, huge),
        ],
    })
}
